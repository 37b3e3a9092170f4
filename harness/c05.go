package main

import (
	"math"

	"github.com/soypat/sdf"
)

func init() {
	register(&prop{id: "C05", level: "exploration", run: runC05,
		rule: "a point at which a boolean was compared with its members, distinct by the bits of point and value",
		assumptions: []string{
			"values of 2D unions are compared for members whose values are at least the distance to their bounds, signs for any member within its bounds",
		}})
}

// farEnough2 tells if s, whose value at p is v, is no closer to p than its box.
func farEnough2(s sdf.SDF2, p v2, v float64) bool {
	d := boxDist2(s.Bounds(), p)
	return v >= d*(1-1e-12) || d == 0
}

func runC05(c *C) {
	pts2 := func(r *R, b box2) []v2 { return points2(r, b, 60) }
	// 2D unions: exact values
	c.Cases("union2", c.scale(12000, 200000), func(i int, r *R) {
		g := newGen(r)
		k := 2 + r.Intn(4)
		if r.Intn(6) == 0 {
			k = 2 + r.Intn(14)
		}
		if r.Intn(60) == 0 {
			k = 2 + r.Intn(200)
		}
		var m []sdf.SDF2
		d := ""
		for len(m) < k {
			n := g.node2(r.Intn(3))
			if n.f < fieldEuc {
				continue
			}
			if r.Intn(2) == 0 {
				n.s = sdf.Transform2D(n.s, sdf.Translate2D(p2(span(r.Rand, -8, 8), span(r.Rand, -8, 8))))
			}
			if r.Intn(20) == 0 {
				n.s = sdf.Array2D(n.s, sdf.V2i{0, 1}, p2(1, 1)) // nothing
			}
			if len(m) > 0 && r.Intn(10) == 0 {
				n.s = m[r.Intn(len(m))] // the same again
			}
			m = append(m, n.s)
			d += n.d + ";"
		}
		u := sdf.Union2D(m...)
		if r.Intn(4) == 0 {
			u.SetMin(math.Min)
		}
		for _, p := range pts2(r, u.Bounds()) {
			want, far := math.Inf(1), true
			for _, s := range m {
				v := s.Evaluate(p)
				want = math.Min(want, v)
				far = far && farEnough2(s, p, v)
			}
			got := u.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(1, p.X, p.Y, got)
			if !far {
				r.Count("members closer than their boxes", 1)
			}
			if far && !near(got, want, 1e-12) {
				r.Failf("union2-value", "at %.17g: %.17g, the least member %.17g: %s", p, got, want, d)
			}
			if want < 0 {
				r.Count("inside", 1)
			}
		}
	})
	// 2D unions: signs for loose members
	c.Cases("union2sign", c.scale(12000, 200000), func(i int, r *R) {
		g := newGen(r)
		var m []sdf.SDF2
		d := ""
		for k := 2 + r.Intn(4); k > 0; k-- {
			n := g.node2(r.Intn(3))
			b := n.s.Bounds()
			s := n.s
			switch r.Intn(4) {
			case 0: // values a fraction of the distance
				f := math.Pow(10, -3*r.Float64())
				s = fn2{func(p v2) float64 { return f * n.s.Evaluate(p) }, b}
			case 1: // a box that is too big
				b.Min, b.Max = sub2(b.Min, p2(6*r.Float64(), 6*r.Float64())), add2(b.Max, p2(6*r.Float64(), 6*r.Float64()))
				s = fn2{n.s.Evaluate, b}
			}
			m = append(m, s)
			d += n.d + ";"
		}
		u := sdf.Union2D(m...)
		for _, p := range pts2(r, u.Bounds()) {
			want := math.Inf(1)
			for _, s := range m {
				want = math.Min(want, s.Evaluate(p))
			}
			got := u.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(2, p.X, p.Y, got)
			if math.Abs(want) > 1e-9 && (got < 0) != (want < 0) {
				r.Failf("union2-sign", "at %.17g: %.17g, the least member %.17g: %s", p, got, want, d)
			}
		}
	})
	// anything else: exact for any field
	c.Cases("probe", c.scale(20000, 300000), func(i int, r *R) {
		a2, b2 := newAny2(r.Rand), newAny2(r.Rand)
		if r.Intn(10) == 0 {
			b2 = a2
		}
		at, v := p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3)), mul2(math.Pow(10, anyExp(r)), dir2(r.Rand))
		vv := unit2(v)
		type case2 struct {
			n   string
			s   sdf.SDF2
			ref func(p v2) float64
		}
		ca := []case2{
			{"difference2", sdf.Difference2D(a2, b2), func(p v2) float64 { return math.Max(a2.Evaluate(p), -b2.Evaluate(p)) }},
			{"intersect2", sdf.Intersect2D(a2, b2), func(p v2) float64 { return math.Max(a2.Evaluate(p), b2.Evaluate(p)) }},
			// right of the direction remains: outside is how far left
			{"cut2", sdf.Cut2D(a2, at, v), func(p v2) float64 { return math.Max(a2.Evaluate(p), cross2(vv, sub2(p, at))) }},
		}
		for _, k := range ca {
			for j := 0; j < 8; j++ {
				p := p2(span(r.Rand, -6, 6), span(r.Rand, -6, 6))
				if r.Intn(4) == 0 { // anywhere
					p = mul2(math.Pow(10, 12*r.Float64()-6), p)
				}
				got, want := k.s.Evaluate(p), k.ref(p)
				r.Ev(1)
				r.DistinctBits(3, p.X, p.Y, got)
				if !(got == want || math.Abs(got-want) <= 1e-12*(1+len2(p)+math.Abs(got)+math.Abs(want))) {
					r.Failf(k.n, "%s at %.17g: %.17g instead of %.17g (line through %v along %v)", k.n, p, got, want, at, v)
				}
			}
		}
		var m []sdf.SDF3
		var ms []sdf.SDF3
		many := 2 + r.Intn(6)
		if r.Intn(50) == 0 {
			many = 2 + r.Intn(400)
		}
		for j := 0; j < many; j++ {
			m = append(m, newAny3(r.Rand))
			if j > 0 && r.Intn(10) == 0 {
				m[j] = m[r.Intn(j)] // the same again
			}
			ms = append(ms, m[j])
		}
		a3, n3 := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)), mul3(math.Pow(10, anyExp(r)), dir3(r.Rand))
		nu := unit3(n3)
		cb := []struct {
			n   string
			s   sdf.SDF3
			ref func(p v3) float64
		}{
			{"union3", sdf.Union3D(ms...), func(p v3) float64 {
				w := math.Inf(1)
				for _, s := range m {
					w = math.Min(w, s.Evaluate(p))
				}
				return w
			}},
			{"difference3", sdf.Difference3D(ms[0], ms[1]), func(p v3) float64 { return math.Max(m[0].Evaluate(p), -m[1].Evaluate(p)) }},
			{"intersect3", sdf.Intersect3D(ms[0], ms[1]), func(p v3) float64 { return math.Max(m[0].Evaluate(p), m[1].Evaluate(p)) }},
			{"cut3", sdf.Cut3D(ms[0], a3, n3), func(p v3) float64 { return math.Max(m[0].Evaluate(p), -dot3(nu, sub3(p, a3))) }},
		}
		for _, k := range cb {
			for j := 0; j < 8; j++ {
				p := p3(span(r.Rand, -6, 6), span(r.Rand, -6, 6), span(r.Rand, -6, 6))
				if r.Intn(4) == 0 { // anywhere
					p = mul3(math.Pow(10, 12*r.Float64()-6), p)
				}
				got, want := k.s.Evaluate(p), k.ref(p)
				r.Ev(1)
				r.DistinctBits(4, p.X, p.Y, p.Z, got)
				if !(got == want || math.Abs(got-want) <= 1e-12*(1+len3(p)+math.Abs(got)+math.Abs(want))) {
					r.Failf(k.n, "%s of %d at %.17g: %.17g instead of %.17g (plane through %v normal %v)", k.n, len(ms), p, got, want, a3, n3)
				}
			}
		}
	})
	// booleans of real solids, nested
	c.Cases("solid", c.scale(4000, 60000), func(i int, r *R) {
		g := newGen(r)
		g.noObj = r.Intn(3) > 0
		a, b, e := g.node3(r.Intn(3)), g.node3(r.Intn(2)), g.node3(r.Intn(2))
		s := sdf.Difference3D(sdf.Union3D(a.s, b.s, e.s), sdf.Intersect3D(b.s, e.s))
		for _, p := range points3(r, s.Bounds(), 40) {
			va, vb, ve := a.s.Evaluate(p), b.s.Evaluate(p), e.s.Evaluate(p)
			want := math.Max(math.Min(va, math.Min(vb, ve)), -math.Max(vb, ve))
			got := s.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(5, p.X, p.Y, p.Z, got)
			if !near(got, want, 1e-12) {
				r.Failf("nested3", "at %.17g: %.17g instead of %.17g: %s %s %s", p, got, want, a.d, b.d, e.d)
			}
		}
		x, y, z := g.node2(r.Intn(2)), g.node2(r.Intn(2)), g.node2(r.Intn(2))
		if x.f < fieldEuc || y.f < fieldEuc || z.f < fieldEuc {
			return
		}
		t := sdf.Difference2D(sdf.Union2D(x.s, y.s, z.s), sdf.Intersect2D(y.s, z.s))
		for _, p := range points2(r, t.Bounds(), 40) {
			va, vb, ve := x.s.Evaluate(p), y.s.Evaluate(p), z.s.Evaluate(p)
			want := math.Max(math.Min(va, math.Min(vb, ve)), -math.Max(vb, ve))
			got := t.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(6, p.X, p.Y, got)
			if farEnough2(x.s, p, va) && farEnough2(y.s, p, vb) && farEnough2(z.s, p, ve) && !near(got, want, 1e-12) {
				r.Failf("nested2", "at %.17g: %.17g instead of %.17g: %s %s %s", p, got, want, x.d, y.d, z.d)
			}
		}
	})
}

// anyExp is the decimal exponent of the length of a direction.
func anyExp(r *R) float64 {
	if r.Intn(4) == 0 {
		return 120*r.Float64() - 60
	}
	return 12*r.Float64() - 6
}
