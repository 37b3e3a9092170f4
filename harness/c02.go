package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
)

func init() {
	register(&prop{id: "C02", level: "exploration", run: runC02,
		rule: "a point evaluated against the exact distance of a reference solid, distinct by the bits of point and value",
		assumptions: []string{
			"the reference distances are computed in double precision by other formulas and agree to 1e-9 of the size",
		}})
}

// points3 are points around a box that include its special ones.
func points3(r *R, b box3, n int) []v3 {
	c := mul3(0.5, add3(b.Min, b.Max))
	h := mul3(0.5, sub3(b.Max, b.Min))
	var ps []v3
	special := func(ax int) float64 {
		return comp3(c, ax) + comp3(h, ax)*[]float64{0, 0, 1, -1, 0.5, -0.5, 2, -2, 1 + 1e-9, 1 - 1e-9}[r.Intn(10)]
	}
	for i := 0; i < n; i++ {
		var p v3
		switch i % 5 {
		case 0:
			p = p3(special(0), special(1), special(2))
		case 1:
			p = inBox3(r.Rand, b, 0)
		case 2:
			p = inBox3(r.Rand, b, 1)
		case 3:
			p = inBox3(r.Rand, b, 0.3)
			for ax := 0; ax < 3; ax++ {
				if r.Intn(2) == 0 {
					p = with3(p, ax, special(ax))
				}
			}
		case 4:
			p = add3(c, mul3(len3(h)*math.Pow(10, 4*r.Float64()-2), dir3(r.Rand)))
		}
		ps = append(ps, p)
	}
	return ps
}

func points2(r *R, b box2, n int) []v2 {
	ps := make([]v2, 0, n)
	for _, p := range points3(r, box3{Min: p3(b.Min.X, b.Min.Y, 0), Max: p3(b.Max.X, b.Max.Y, 0)}, n) {
		ps = append(ps, p2(p.X, p.Y))
	}
	return ps
}

// polyDist2 is the exact signed distance to a convex polygon given counter clockwise.
func convexDist2(p v2, v []v2) float64 {
	d := math.Inf(1)
	in := true
	for i := range v {
		a, b := v[i], v[(i+1)%len(v)]
		if a == b {
			continue
		}
		d = math.Min(d, segDist2(p, a, b))
		if cross2(sub2(b, a), sub2(p, a)) < 0 {
			in = false
		}
	}
	if in {
		return -d
	}
	return d
}

func runC02(c *C) {
	compare3 := func(r *R, s sdf.SDF3, b box3, d string, ref func(p v3) float64) {
		m := mag3(b)
		for k, p := range points3(r, b, 120) {
			want, got := ref(p), s.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(1, p.X, p.Y, p.Z, got)
			if !(math.Abs(got-want) <= 1e-9*(m+len3(p))) {
				r.Failf("distance", "%s at %.17g is %.17g, the distance is %.17g", d, p, got, want)
			}
			if want < 0 {
				r.Count("inside", 1)
			} else {
				r.Count("outside", 1)
			}
			_ = k
		}
		if bb := s.Bounds(); !nearBox3(bb, b, 1e-9) {
			r.Failf("size", "%s has bounds %.17g, the solid %.17g", d, bb, b)
		}
	}
	compare2 := func(r *R, s sdf.SDF2, b box2, d string, ref func(p v2) float64) {
		m := mag2(b)
		for _, p := range points2(r, b, 120) {
			want, got := ref(p), s.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(2, p.X, p.Y, got)
			if !(math.Abs(got-want) <= 1e-9*(m+len2(p))) {
				r.Failf("distance", "%s at %.17g is %.17g, the distance is %.17g", d, p, got, want)
			}
			if want < 0 {
				r.Count("inside", 1)
			} else {
				r.Count("outside", 1)
			}
		}
		if bb := s.Bounds(); !nearBox2(bb, b, 1e-9) {
			r.Failf("size", "%s has bounds %.17g, the shape %.17g", d, bb, b)
		}
	}
	c.Cases("primitive", c.scale(20000, 400000), func(i int, r *R) {
		u := math.Pow(10, float64(r.Intn(9)-4)) // any unit
		if r.Intn(2) == 0 {
			u = 1
		}
		sp := func(a, b float64) float64 { return u * span(r.Rand, a, b) }
		switch i % 9 {
		case 0:
			rad := sp(0, 5)
			s, err := form2.Circle(rad)
			compare2(r, ok2(r, s, err), box2{Min: p2(-rad, -rad), Max: p2(rad, rad)}, fmt.Sprintf("Circle(%g)", rad), func(p v2) float64 { return math.Hypot(p.X, p.Y) - rad })
		case 1, 2:
			h := p2(sp(0.1, 3), sp(0.1, 3))
			if r.Intn(5) == 0 {
				h.Y = h.X
			}
			rd := 0.0
			if r.Intn(3) > 0 {
				rd = math.Min(h.X, h.Y) * []float64{r.Float64(), 0.5, 1}[r.Intn(3)]
			}
			s, err := form2.Box(mul2(2, h), rd)
			compare2(r, ok2(r, s, err), box2{Min: mul2(-1, h), Max: h}, fmt.Sprintf("Box(%v,%g)", mul2(2, h), rd), func(p v2) float64 {
				return exactBox2(p, sub2(h, p2(rd, rd))) - rd
			})
		case 3:
			l, rd := sp(0, 4), sp(0, 2)
			s, err := form2.Line(l, rd)
			compare2(r, ok2(r, s, err), box2{Min: p2(-l/2-rd, -rd), Max: p2(l/2+rd, rd)}, fmt.Sprintf("Line(%g,%g)", l, rd), func(p v2) float64 {
				return segDist2(p, p2(-l/2, 0), p2(l/2, 0)) - rd
			})
		case 4:
			rad := sp(0.01, 5)
			s, err := form3.Sphere(rad)
			compare3(r, ok3(r, s, err), box3{Min: p3(-rad, -rad, -rad), Max: p3(rad, rad, rad)}, fmt.Sprintf("Sphere(%g)", rad), func(p v3) float64 { return math.Hypot(math.Hypot(p.X, p.Y), p.Z) - rad })
		case 5:
			h := p3(sp(0.1, 3), sp(0.1, 3), sp(0.1, 3))
			rd := 0.0
			if r.Intn(3) > 0 {
				rd = math.Min(h.X, math.Min(h.Y, h.Z)) * []float64{r.Float64(), 0.5, 1}[r.Intn(3)]
			}
			s, err := form3.Box(mul3(2, h), rd)
			compare3(r, ok3(r, s, err), box3{Min: mul3(-1, h), Max: h}, fmt.Sprintf("Box(%v,%g)", mul3(2, h), rd), func(p v3) float64 {
				return exactBox3(p, sub3(h, p3(rd, rd, rd))) - rd
			})
		case 6:
			h, rad := sp(0.1, 5), sp(0.1, 3)
			rd := 0.0
			if r.Intn(3) > 0 {
				rd = math.Min(rad, h/2) * []float64{r.Float64(), 0.5, 1}[r.Intn(3)]
			}
			s, err := form3.Cylinder(h, rad, rd)
			compare3(r, ok3(r, s, err), box3{Min: p3(-rad, -rad, -h/2), Max: p3(rad, rad, h/2)}, fmt.Sprintf("Cylinder(%g,%g,%g)", h, rad, rd), func(p v3) float64 {
				return exactBox2(p2(math.Hypot(p.X, p.Y), p.Z), p2(rad-rd, h/2-rd)) - rd
			})
		case 7:
			rad := sp(0.1, 2)
			h := 2*rad + sp(0, 3)
			s, err := form3.Capsule(h, rad)
			if r.Intn(2) == 0 {
				s = must3.Cylinder(h, rad, rad)
			}
			a := h/2 - rad
			compare3(r, ok3(r, s, err), box3{Min: p3(-rad, -rad, -h/2), Max: p3(rad, rad, h/2)}, fmt.Sprintf("Capsule(%g,%g)", h, rad), func(p v3) float64 {
				return len3(p3(p.X, p.Y, p.Z-clampf(p.Z, -a, a))) - rad
			})
		case 8:
			h, r0, r1, rd := newGen(r).coneArgs()
			h, r0, r1, rd = u*h, u*r0, u*r1, u*rd
			s, err := form3.Cone(h, r0, r1, rd)
			// The core is bounded by the sides moved in by the rounding.
			n := unit2(p2(h, r0-r1))
			hc := h/2 - rd
			side := func(z float64) float64 { // where n.(x - (r0,-h/2)) = -rd
				return r0 + (-rd-n.Y*(z+h/2))/n.X
			}
			c0, c1 := math.Max(0, side(-hc)), math.Max(0, side(hc))
			poly := []v2{p2(-c0, -hc), p2(c0, -hc), p2(c1, hc), p2(-c1, hc)}
			w := math.Max(c0, c1) + rd
			compare3(r, ok3(r, s, err), box3{Min: p3(-w, -w, -h/2), Max: p3(w, w, h/2)}, fmt.Sprintf("Cone(%g,%g,%g,%g)", h, r0, r1, rd), func(p v3) float64 {
				return convexDist2(p2(math.Hypot(p.X, p.Y), p.Z), poly) - rd
			})
		}
	})
	c.Cases("nagon", c.scale(300, 5000), func(i int, r *R) {
		n := 3 + i%60
		if i%7 == 0 {
			n = 3 + r.Intn(500)
		}
		rad := span(r.Rand, 0.01, 100)
		v, err := form2.Nagon(n, rad)
		if err != nil || len(v) != n {
			r.Fatalf("nagon", "Nagon(%d,%g): %d vertices, error %v", n, rad, len(v), err)
		}
		for k, p := range v {
			s, co := math.Sincos(2 * math.Pi * float64(k) / float64(n))
			if !near2(mul2(1/rad, p), p2(co, s), 1e-11) {
				r.Failf("nagon", "vertex %d of Nagon(%d,%g) is %.17g", k, n, rad, p)
			}
			r.Ev(1)
		}
		r.Distinct(n, rad)
	})
}
