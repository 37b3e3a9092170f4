package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
)

func init() {
	register(&prop{id: "C29", level: "monitored",
		rule: "a point located among tetrahedra, distinct by solid, resolution and point",
		assumptions: []string{
			"solids are convex with true distances outside and bounds that touch them, three cells or more along every axis",
		}, run: runC29})
	register(&prop{id: "C30", level: "monitored",
		rule:        "a distance or dimension, distinct by its value",
		assumptions: []string{"the shrinkage of PLA is 0.3 percent and its internal allowance 0.45, as in the package"}, run: runC30})
}

// convexSolid returns a convex solid with true distances.
func convexSolid(r *R) (sdf.SDF3, string) {
	k := []float64{1, 1, 1, 0.05, 30}[r.Intn(5)]
	u := func() float64 { return k * span(r.Rand, 0.6, 2) }
	var s sdf.SDF3
	var d string
	switch r.Intn(4) {
	case 0:
		a := u()
		s, d = must3.Sphere(a), fmt.Sprintf("Sphere(%g)", a)
	case 1:
		v := p3(2*u(), 2*u(), 2*u())
		rd := 0.0
		if r.Intn(2) == 0 {
			rd = 0.2 * r.Float64() * math.Min(v.X, math.Min(v.Y, v.Z))
		}
		s, d = must3.Box(v, rd), fmt.Sprintf("Box(%v,%g)", v, rd)
	case 2:
		h, a := 2*u(), u()
		rd := 0.0
		if r.Intn(2) == 0 {
			rd = 0.4 * r.Float64() * math.Min(h/2, a)
		}
		s, d = must3.Cylinder(h, a, rd), fmt.Sprintf("Cylinder(%g,%g,%g)", h, a, rd)
	case 3:
		a := u()
		h := 2*a + 2*u()
		s, d = must3.Cylinder(h, a, a*(1-1e-9)), fmt.Sprintf("Capsule(%g,%g)", h, a)
	}
	if r.Intn(2) == 0 {
		v := mul3(k, p3(r.NormFloat64(), r.NormFloat64(), r.NormFloat64()))
		s, d = sdf.Transform3D(s, sdf.Translate3D(v)), d+fmt.Sprintf(" at %v", v)
	}
	return s, d
}

// tetVolume6 is six times the signed volume.
func tetVolume6(a, b, c, d v3) float64 { return dot3(sub3(b, a), cross3(sub3(c, a), sub3(d, a))) }

func runC29(c *C) {
	c.Cases("solids", c.scale(1500, 12000), func(i int, r *R) {
		s, d := convexSolid(r)
		b := s.Bounds()
		size := sub3(b.Max, b.Min)
		least := math.Min(size.X, math.Min(size.Y, size.Z))
		res := least / (3.2 + 9*r.Float64())
		if r.Intn(3) == 0 { // cells that fit exactly
			res = least / float64(4+r.Intn(9))
		}
		desc := fmt.Sprintf("%s, resolution %g", d, res)
		nodes, tets := sdfexp.UniformTetrahedronMesh(res, s)
		if len(tets) == 0 {
			r.Fatalf("empty", "%s: no tetrahedra", desc)
		}
		faces := map[[3]int]int{}
		used := map[int]bool{}
		for k, t := range tets {
			for a := 0; a < 4; a++ {
				if t[a] < 0 || t[a] >= len(nodes) {
					r.Fatalf("index", "%s: tetrahedron %d has node %d of %d", desc, k, t[a], len(nodes))
				}
				used[t[a]] = true
				for e := a + 1; e < 4; e++ {
					if t[a] == t[e] {
						r.Failf("same", "%s: tetrahedron %d is %v", desc, k, t)
					}
				}
				f := [3]int{t[(a+1)%4], t[(a+2)%4], t[(a+3)%4]}
				for f[0] > f[1] || f[1] > f[2] {
					if f[0] > f[1] {
						f[0], f[1] = f[1], f[0]
					}
					if f[1] > f[2] {
						f[1], f[2] = f[2], f[1]
					}
				}
				faces[f]++
			}
		}
		for f, n := range faces {
			if n > 2 {
				r.Failf("face", "%s: %d tetrahedra share the face %v", desc, n, f)
			}
		}
		for n := range nodes {
			if !finite3(nodes[n]) {
				r.Failf("nan", "%s: node %d is %v", desc, n, nodes[n])
			}
			if used[n] {
				if v := s.Evaluate(nodes[n]); !(v <= 1e-3*res) {
					r.Failf("outside", "%s: node %d at %s is %v outside", desc, n, fmtv(nodes[n]), v)
				}
			}
		}
		r.Ev(len(nodes) + len(faces))
		r.Count("tetrahedra", len(tets))
		r.Count("nodes used", len(used))
		// those inside are oriented alike
		sign := 0.0
		for k, t := range tets {
			inner := true
			for _, n := range t {
				inner = inner && s.Evaluate(nodes[n]) < -2*res
			}
			if !inner {
				continue
			}
			v := tetVolume6(nodes[t[0]], nodes[t[1]], nodes[t[2]], nodes[t[3]])
			if math.Abs(v) < 1e-3*res*res*res {
				r.Failf("flat", "%s: tetrahedron %d is flat", desc, k)
			}
			if sign == 0 {
				sign = v
			}
			if v*sign < 0 {
				r.Failf("orientation", "%s: tetrahedron %d is turned the other way", desc, k)
			}
			r.Count("tetrahedra inside", 1)
		}
		// points in tetrahedra
		type key [3]int
		at := func(p v3) key {
			return key{int(math.Floor(p.X / res)), int(math.Floor(p.Y / res)), int(math.Floor(p.Z / res))}
		}
		grid := map[key][]int{}
		for k, t := range tets {
			lo, hi := nodes[t[0]], nodes[t[0]]
			for _, n := range t[1:] {
				v := nodes[n]
				lo = p3(math.Min(lo.X, v.X), math.Min(lo.Y, v.Y), math.Min(lo.Z, v.Z))
				hi = p3(math.Max(hi.X, v.X), math.Max(hi.Y, v.Y), math.Max(hi.Z, v.Z))
			}
			x, y := at(lo), at(hi)
			for a := x[0]; a <= y[0]; a++ {
				for e := x[1]; e <= y[1]; e++ {
					for f := x[2]; f <= y[2]; f++ {
						grid[key{a, e, f}] = append(grid[key{a, e, f}], k)
					}
				}
			}
		}
		// corners and exactly fitting boxes are left emptier by the smoothing
		depth := 0.7
		if strings.HasPrefix(d, "Box") {
			depth = 1.6
		}
		deep := 0
		for k := 0; k < 6000 && deep < 250; k++ {
			p := inBox3(r.Rand, b, 0)
			if v := s.Evaluate(p); v > -depth*res {
				continue
			}
			deep++
			in, close := 0, false
			for _, k := range grid[at(p)] {
				t := tets[k]
				v := tetVolume6(nodes[t[0]], nodes[t[1]], nodes[t[2]], nodes[t[3]])
				w := [4]float64{
					tetVolume6(p, nodes[t[1]], nodes[t[2]], nodes[t[3]]) / v,
					tetVolume6(nodes[t[0]], p, nodes[t[2]], nodes[t[3]]) / v,
					tetVolume6(nodes[t[0]], nodes[t[1]], p, nodes[t[3]]) / v,
					tetVolume6(nodes[t[0]], nodes[t[1]], nodes[t[2]], p) / v}
				m := math.Min(math.Min(w[0], w[1]), math.Min(w[2], w[3]))
				if math.Abs(m) < 1e-6 {
					close = true
				}
				if m > 0 {
					in++
				}
			}
			if close {
				continue
			}
			r.Ev(1)
			r.DistinctBits(1, p.X, p.Y, p.Z)
			if in != 1 {
				r.Failf("cover", "%s: %s, with distance %v, is in %d tetrahedra", desc, fmtv(p), s.Evaluate(p), in)
			}
		}
		r.Count("points located", deep)
	})
}

func runC30(c *C) {
	var mats = []struct {
		m      matter.Material
		k, add float64
		d      string
	}{{matter.PLA, 1.003, 0.45, "PLA"}, {matter.Ideal{}, 1, 0, "Ideal"}}
	c.Cases("scale", c.scale(1500, 20000), func(i int, r *R) {
		m := mats[i%2]
		g := newGen(r)
		n := g.node3(i % 3)
		s := m.m.Scale(n.s)
		b, q := n.s.Bounds(), s.Bounds()
		want := box3{Min: mul3(m.k, b.Min), Max: mul3(m.k, b.Max)}
		mag := mag3(b)
		if !nearBox3(q, want, 1e-12*(1+mag)) {
			r.Failf("bounds", "%s of %s: bounds %v, want %v", m.d, n.d, q, want)
		}
		for k := 0; k < 40; k++ {
			p := inBox3(r.Rand, b, 0.4)
			v := n.s.Evaluate(p)
			got := s.Evaluate(mul3(m.k, p))
			r.Ev(1)
			r.DistinctBits(1, p.X, v)
			if math.IsNaN(v) || math.IsInf(v, 0) {
				continue
			}
			if m.k == 1 {
				if got != v {
					r.Failf("changed", "%s of %s: %v at %s, want %v", m.d, n.d, got, fmtv(p), v)
				}
				continue
			}
			// the field of the part at a point moved by rounding
			q := mul3(1/m.k, mul3(m.k, p))
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, o := range []v3{p, q, add3(p, mul3(1e-13*(1+mag), dir3(r.Rand)))} {
				x := n.s.Evaluate(o)
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
			tol := 1e-11*(1+mag+math.Abs(v)) + 10*(hi-lo)
			if !(got >= m.k*lo-tol && got <= m.k*hi+tol) {
				r.Failf("distance", "%s of %s: %v at %s, want %v", m.d, n.d, got, fmtv(mul3(m.k, p)), m.k*v)
			}
		}
	})
	c.Cases("dims", c.scale(400, 4000), func(i int, r *R) {
		for k := 0; k < 50; k++ {
			for _, m := range mats {
				x := math.Pow(10, 12*r.Float64()-6)
				got := m.m.InternalDimScale(x)
				want := m.k*x + m.add
				r.Ev(1)
				r.DistinctBits(2, x)
				if !near(got, want, 1e-12*want) {
					r.Failf("dimension", "%s: InternalDimScale(%v) is %v, want %v", m.d, x, got, want)
				}
			}
		}
		for _, x := range []float64{0, -1, -1e-9, math.Copysign(0, -1), -span(r.Rand, 0.1, 9), math.Inf(-1)} {
			_, bad := Panics(func() { matter.PLA.InternalDimScale(x) })
			r.Ev(1)
			if !bad {
				r.Failf("accepted", "PLA: InternalDimScale(%v) did not panic", x)
			}
		}
	})
}
