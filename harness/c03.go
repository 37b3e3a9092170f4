package main

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
)

func init() {
	register(&prop{id: "C03", level: "exploration", run: runC03,
		rule: "a vertex list compared with the reference at a point, distinct by the bits of list and point",
		assumptions: []string{
			"the sign is only compared at points farther from the edges than 1e-7 of the size, where the winding number by angles is certain",
		}})
}

// randLoop returns a vertex list of some nature and whether it is of interest.
func randLoop(r *R) []v2 {
	var v []v2
	scale := 1.0
	if r.Intn(3) == 0 {
		scale = math.Pow(10, float64(r.Intn(10)-4))
	}
	off := p2(0, 0)
	if r.Intn(3) == 0 {
		off = p2(span(r.Rand, -10, 10), span(r.Rand, -10, 10))
	}
	switch r.Intn(8) {
	case 0: // star shaped
		n := 3 + r.Intn(12)
		for i := 0; i < n; i++ {
			t := 2 * math.Pi * (float64(i) + 0.7*r.Float64()) / float64(n)
			rad := 0.3 + 2*r.Float64()
			v = append(v, p2(rad*math.Cos(t), rad*math.Sin(t)))
		}
	case 1, 2: // any points on a small grid: horizontal edges, repeated and collinear vertices
		n := 3 + r.Intn(10)
		for i := 0; i < n; i++ {
			v = append(v, p2(float64(r.Intn(6)-3), float64(r.Intn(6)-3)))
		}
	case 3: // any points
		n := 3 + r.Intn(10)
		for i := 0; i < n; i++ {
			v = append(v, p2(4*r.Float64()-2, 4*r.Float64()-2))
		}
	case 4: // pentagram and the like: windings of 2
		n := 5 + 2*r.Intn(4)
		k := 2 + r.Intn(n/2-1)
		for i := 0; i < n; i++ {
			s, c := math.Sincos(2 * math.Pi * float64(i*k) / float64(n))
			v = append(v, p2(c, s))
		}
	case 5: // comb: many concave corners
		n := 2 + r.Intn(6)
		for i := 0; i < n; i++ {
			x := float64(i)
			v = append(v, p2(x, 0.3*r.Float64()), p2(x+0.1, 2+r.Float64()), p2(x+0.5, 2+r.Float64()), p2(x+0.6, 0.3*r.Float64()))
		}
		v = append(v, p2(float64(n), -1), p2(0, -1))
	case 6: // axis parallel staircase
		x, y := 0.0, 0.0
		n := 2 + r.Intn(6)
		for i := 0; i < n; i++ {
			v = append(v, p2(x, y))
			x += 0.25 * float64(1+r.Intn(4))
			v = append(v, p2(x, y))
			y += 0.25 * float64(1+r.Intn(4))
		}
		v = append(v, p2(x, y), p2(0, y))
	case 7: // a large round one
		n := 30 + r.Intn(200)
		if r.Intn(20) == 0 {
			n = 200 + r.Intn(3000)
		}
		for i := 0; i < n; i++ {
			s, c := math.Sincos(2 * math.Pi * float64(i) / float64(n))
			q := 1 + 0.1*math.Sin(float64(7*i))
			v = append(v, p2(q*c, 2*q*s))
		}
	}
	if r.Intn(4) == 0 { // repeat some vertices
		for k := 0; k < 1+r.Intn(3); k++ {
			i := r.Intn(len(v))
			v = append(v[:i], append([]v2{v[i]}, v[i:]...)...)
		}
	}
	if r.Intn(5) == 0 { // a spike: there and back again
		i := 1 + r.Intn(len(v)-1)
		q := p2(4*r.Float64()-2, 4*r.Float64()-2)
		v = append(v[:i], append([]v2{q, v[i-1]}, v[i:]...)...)
	}
	distinct := map[v2]bool{}
	for i := range v {
		v[i] = add2(mul2(scale, v[i]), mul2(scale, off))
		distinct[v[i]] = true
	}
	if len(distinct) < 3 {
		return randLoop(r)
	}
	return v
}

func loopBox(v []v2) box2 {
	b := box2{Min: v[0], Max: v[0]}
	for _, p := range v {
		b.Min = p2(math.Min(b.Min.X, p.X), math.Min(b.Min.Y, p.Y))
		b.Max = p2(math.Max(b.Max.X, p.X), math.Max(b.Max.Y, p.Y))
	}
	return b
}

// loopPoints are points around a loop, many of them level with its vertices or on its edges.
func loopPoints(r *R, v []v2, n int) []v2 {
	b := loopBox(v)
	var ps []v2
	for i := 0; i < n; i++ {
		p := inBox2(r.Rand, b, 0.3)
		a := v[r.Intn(len(v))]
		e := r.Intn(len(v))
		e0, e1 := v[e], v[(e+1)%len(v)]
		switch i % 8 {
		case 0:
			p.Y = a.Y
		case 1:
			p.X = a.X
		case 2:
			p = add2(e0, mul2(r.Float64(), sub2(e1, e0)))
		case 3:
			p = a
		case 4: // on the line of an edge
			p = add2(e0, mul2(6*r.Float64()-3, sub2(e1, e0)))
		case 5:
			p = p2(a.X, v[r.Intn(len(v))].Y)
		case 6:
			if r.Intn(4) == 0 {
				p = inBox2(r.Rand, b, 50)
			}
		}
		ps = append(ps, p)
	}
	return ps
}

func runC03(c *C) {
	c.Cases("loop", c.scale(15000, 300000), func(i int, r *R) {
		v := randLoop(r)
		mk := func(v []v2) sdf.SDF2 {
			s, err := form2.Polygon(v)
			return ok2(r, s, err)
		}
		// the caller's slice has room for more, which is not the polygon's
		given := make([]v2, len(v), len(v)+4)
		copy(given, v)
		rest := given[len(v):cap(given)]
		for k := range rest {
			rest[k] = p2(1e9, float64(k))
		}
		s := mk(given)
		for k := range v {
			if given[k] != v[k] {
				r.Failf("caller-slice", "vertex %d of the caller changed from %v to %v", k, v[k], given[k])
			}
		}
		for k := range rest {
			if rest[k] != p2(1e9, float64(k)) {
				r.Failf("caller-slice", "memory of the caller past its slice of %d was written: %v", len(v), rest[k])
			}
		}
		b := loopBox(v)
		if s.Bounds() != b {
			r.Failf("bounds", "bounds %.17g, vertices span %.17g: %.17g", s.Bounds(), b, v)
		}
		m := mag2(b)
		d := diag2(b)
		ps := loopPoints(r, v, 64)
		vals := make([]float64, len(ps))
		signed := make([]bool, len(ps))
		for k, p := range ps {
			want := math.Inf(1)
			for e := range v {
				want = math.Min(want, segDist2(p, v[e], v[(e+1)%len(v)]))
			}
			got := s.Evaluate(p)
			vals[k] = got
			r.Ev(1)
			r.DistinctBits(uint64(i), p.X, p.Y)
			// squares lose half of the digits next to the surface
			tol := 1e-8*(d+len2(p)*1e-3) + 1e-11*(m+len2(p))
			if !(math.Abs(math.Abs(got)-want) <= tol) {
				r.Failf("distance", "at %.17g: %.17g, the distance to the edges is %.17g, vertices %.17g", p, got, want, v)
			}
			if want > 1e-7*(d+m) {
				w := windingAngle2(p, v)
				wn := math.Round(w)
				if math.Abs(w-wn) > 1e-3 {
					continue
				}
				signed[k] = true
				r.Count("signs", 1)
				if wn != 0 {
					r.Count("inside", 1)
				}
				if math.Abs(wn) > 1 {
					r.Count("winding_above_1", 1)
				}
				if (got < 0) != (wn != 0) {
					r.Failf("inside", "at %.17g: %.17g, the winding number is %g, vertices %.17g", p, got, wn, v)
				}
			}
		}
		// the same polygon given in other ways
		n := len(v)
		sh := r.Intn(n)
		shifted := append(append([]v2{}, v[sh:]...), v[:sh]...)
		rev := make([]v2, n)
		for k := range v {
			rev[n-1-k] = v[k]
		}
		closed := append(append([]v2{}, v...), v[0])
		for kind, o := range map[string][]v2{"shifted": shifted, "reversed": rev, "closed": closed} {
			t := mk(o)
			if t.Bounds() != b {
				r.Failf("variant-"+kind, "bounds %v instead of %v", t.Bounds(), b)
			}
			for k, p := range ps {
				got := t.Evaluate(p)
				r.Ev(1)
				want := vals[k]
				tol := 1e-8*(d+len2(p)*1e-3) + 1e-11*(m+len2(p))
				if !(math.Abs(math.Abs(got)-math.Abs(want)) <= tol) || signed[k] && (got < 0) != (want < 0) {
					r.Failf("variant-"+kind, "at %.17g: %.17g instead of %.17g, vertices %.17g", p, got, want, v)
				}
			}
		}
		// the caller goes on using its slice
		for k := range given {
			given[k] = p2(1e6*r.Float64(), -1e6)
		}
		given = append(given, p2(5e5, 5e5))
		for k, p := range ps {
			if got := s.Evaluate(p); math.Float64bits(got) != math.Float64bits(vals[k]) {
				r.Failf("aliased", "changing the slice given changed the polygon from %g to %g at %v", vals[k], got, p)
			}
		}
		if s.Bounds() != b {
			r.Failf("aliased", "changing the slice given changed the bounds")
		}
		if i < 4 {
			r.Sample("%.4g", v)
		}
	})
}
