package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form3/must3"
)

func init() {
	register(&prop{id: "C09", level: "exploration", run: runC09,
		rule: "a point at which an extrusion was compared with its section, distinct by the bits of point and value",
		assumptions: []string{
			"occupancy is compared where the section's value and the height are not within 1e-9 of the surface",
		}})
	register(&prop{id: "C10", level: "exploration", run: runC10,
		rule: "a point at which a revolution or slice was compared with its profile or solid, distinct by the bits of point and value",
		assumptions: []string{
			"occupancy of partial revolutions is compared at points farther than 1e-7 from the end planes",
		}})
	register(&prop{id: "C11", level: "exploration", run: runC11,
		rule: "a point at which an offset, shell or elongation was compared with the original, distinct by the bits of point and value",
		assumptions: []string{
			"shells are compared where the distance is not within 1e-9 of half the thickness",
		}})
}

func runC09(c *C) {
	c.Cases("extrude", c.scale(25000, 400000), func(i int, r *R) {
		s := newAny2(r.Rand)
		h := math.Pow(10, 3*r.Float64()-1)
		tw := angle(r.Rand)
		if r.Intn(6) == 0 { // many turns
			tw *= math.Pow(10, 2*r.Float64())
		}
		sc := p2(span(r.Rand, 0.2, 5), span(r.Rand, 0.2, 5))
		if r.Intn(6) == 0 {
			sc = p2(1, 1)
		}
		scale := func(z float64, p v2) v2 {
			f := (z + h/2) / h // 0 at the bottom
			return p2(p.X*(1+f*(1/sc.X-1)), p.Y*(1+f*(1/sc.Y-1)))
		}
		type ex struct {
			n   string
			s   sdf.SDF3
			sec func(z float64, p v2) v2
			f   sdf.ExtrudeFunc
		}
		list := []ex{
			{"Extrude3D", sdf.Extrude3D(s, h), func(z float64, p v2) v2 { return p }, sdf.NormalExtrude},
			{"TwistExtrude3D", sdf.TwistExtrude3D(s, h, tw), func(z float64, p v2) v2 { return rot2(p, tw*z/h) }, sdf.TwistExtrude(h, tw)},
			{"ScaleExtrude3D", sdf.ScaleExtrude3D(s, h, sc), scale, sdf.ScaleExtrude(h, sc)},
			{"ScaleTwistExtrude3D", sdf.ScaleTwistExtrude3D(s, h, tw, sc), func(z float64, p v2) v2 { return rot2(scale(z, p), tw*z/h) }, sdf.ScaleTwistExtrude(h, tw, sc)},
		}
		// the extrusion function given replaces the one it has
		for k := range list {
			e := sdf.Extrude3D(s, h)
			se, ok := e.(interface{ SetExtrude(sdf.ExtrudeFunc) })
			if !ok {
				r.Fatalf("setextrude", "an extrusion takes no extrusion function")
			}
			se.SetExtrude(list[k].f)
			list = append(list, ex{list[k].n + " by SetExtrude", e, list[k].sec, nil})
		}
		for _, e := range list {
			for j := 0; j < 6; j++ {
				z := h * (r.Float64() - 0.5) * 1.3
				switch r.Intn(8) {
				case 0:
					z = 0
				case 1:
					z = h / 2 * (1 - 1e-6)
				case 2:
					z = -h / 2 * (1 - 1e-6)
				}
				p := p3(span(r.Rand, -6, 6), span(r.Rand, -6, 6), z)
				a := s.Evaluate(e.sec(z, p2(p.X, p.Y)))
				out := math.Abs(z) - h/2
				got := e.s.Evaluate(p)
				r.Ev(1)
				r.DistinctBits(1, p.X, p.Y, p.Z, got)
				if math.Abs(a) < 1e-8 || math.Abs(out) < 1e-9*h {
					continue
				}
				in := a < 0 && out < 0
				if in {
					r.Count("inside", 1)
				}
				if (got < 0) != in || math.IsNaN(got) {
					r.Failf(e.n, "%s height %g twist %g scale %v at %.17g: %.17g, the section has %.17g there", e.n, h, tw, sc, p, got, a)
				}
			}
		}
	})
	c.Cases("round", c.scale(25000, 400000), func(i int, r *R) {
		s, s1 := newAny2(r.Rand), newAny2(r.Rand)
		h := math.Pow(10, 3*r.Float64()-1)
		rd := h / 2 * r.Float64()
		switch r.Intn(6) {
		case 0:
			rd = h / 2
		case 1:
			rd = 0
		}
		switch r.Intn(10) {
		case 0: // different profiles of the same size
			a, b := span(r.Rand, 0.5, 2), span(r.Rand, 0.5, 2)
			bx := box2{Min: p2(-a, -b), Max: p2(a, b)}
			s = fn2{func(p v2) float64 { return math.Max(math.Abs(p.X)-a, math.Abs(p.Y)-b) }, bx}
			s1 = fn2{func(p v2) float64 { return math.Hypot(p.X/a, p.Y/b) - 1 }, bx}
		case 1:
			s1 = s
		}
		e := sdf.ExtrudeRounded3D(s, h, rd)
		l := sdf.Loft3D(s, s1, h, rd)
		core := h/2 - rd
		solid := func(a, z float64) float64 {
			b := math.Abs(z) - core
			return math.Hypot(math.Max(a, 0), math.Max(b, 0)) + math.Min(0, math.Max(a, b)) - rd
		}
		for j := 0; j < 12; j++ {
			z := h * (r.Float64() - 0.5) * 1.5
			switch r.Intn(6) {
			case 0:
				z = 0
			case 1:
				z = core
			case 2:
				z = -core
			}
			p := p3(span(r.Rand, -6, 6), span(r.Rand, -6, 6), z)
			q := p2(p.X, p.Y)
			a, b := s.Evaluate(q), s1.Evaluate(q)
			want, got := solid(a, z), e.Evaluate(p)
			r.Ev(2)
			r.DistinctBits(2, p.X, p.Y, p.Z, got)
			if rd > 0 {
				if !near(got, want, 1e-9) {
					r.Failf("rounded", "ExtrudeRounded3D height %g round %g at %.17g: %.17g instead of %.17g", h, rd, p, got, want)
				}
			} else if math.Abs(want) > 1e-9 && (got < 0) != (want < 0) {
				r.Failf("rounded", "ExtrudeRounded3D height %g round 0 at %.17g: %.17g, the solid has %.17g", h, p, got, want)
			}
			f := 0.5
			if core > 0 {
				f = clampf(0.5+z/(2*core), 0, 1)
			}
			mix := a + f*(b-a)
			want, got = solid(mix, z), l.Evaluate(p)
			if core == 0 && z != 0 {
				continue // bottom, top and between are the same
			}
			r.DistinctBits(3, p.X, p.Y, p.Z, got)
			if math.IsNaN(got) || math.Abs(want) > 1e-8 && (got < 0) != (want < 0) {
				r.Failf("loft", "Loft3D height %g round %g at %.17g: %.17g, the mix of %.17g and %.17g has %.17g", h, rd, p, got, a, b, want)
			}
		}
		// the overall height, with a section around the origin
		rad := span(r.Rand, 0.5, 3)
		ci, err := form2.Circle(rad)
		ci = ok2(r, ci, err)
		for n, t := range map[string]sdf.SDF3{"rounded": sdf.ExtrudeRounded3D(ci, h, rd), "loft": sdf.Loft3D(ci, ci, h, rd)} {
			for _, sg := range []float64{1, -1} {
				if v := t.Evaluate(p3(0, 0, sg*h/2*(1-1e-6))); !(v < 0) {
					r.Failf(n, "height %g round %g: %g just below the end", h, rd, v)
				}
				if v := t.Evaluate(p3(0, 0, sg*h/2*(1+1e-6))); !(v > 0) {
					r.Failf(n, "height %g round %g: %g just above the end", h, rd, v)
				}
			}
			if b := t.Bounds(); !near(b.Min.Z, -h/2, 1e-9) || !near(b.Max.Z, h/2, 1e-9) {
				r.Failf(n, "bounds %v for height %g", b, h)
			}
		}
		// rounding that does not fit
		bad := h / 2 * (1.0001 + 3*r.Float64())
		if r.Intn(3) == 0 {
			bad = -rd - 0.01
		}
		for n, t := range map[string]sdf.SDF3{"ExtrudeRounded3D": sdf.ExtrudeRounded3D(ci, h, bad), "Loft3D": sdf.Loft3D(ci, ci, h, bad), "Loft3D of no height": sdf.Loft3D(ci, ci, -h, 0)} {
			for j := 0; j < 4; j++ {
				p := p3(span(r.Rand, -1, 1)*rad, span(r.Rand, -1, 1)*rad, h*(r.Float64()-0.5))
				if j == 0 {
					p = v3{}
				}
				if v := t.Evaluate(p); !(v > 0) {
					r.Failf("nowhere", "%s height %g round %g is inside at %v: %g", n, h, bad, p, v)
				}
				r.Ev(1)
			}
		}
	})
}

func runC10(c *C) {
	c.Cases("revolve", c.scale(30000, 500000), func(i int, r *R) {
		s := newAny2(r.Rand)
		var t float64
		switch r.Intn(6) {
		case 0:
			t = float64(1+r.Intn(16)) * math.Pi / 8
		case 4: // a sliver, maybe after some full turns
			t = math.Pow(10, -6*r.Float64()) + 2*math.Pi*math.Max(0, float64(r.Intn(5)-2))
		case 1:
			t = math.Pi * (1 + (r.Float64()-0.5)*1e-6)
		case 2:
			t = 2*math.Pi - math.Pow(10, -6*r.Float64())
		case 3:
			t = 2 * math.Pi * float64(1+r.Intn(12))
		default:
			t = 2 * math.Pi * (0.001 + 0.998*r.Float64())
			if r.Intn(6) == 0 {
				t += 2 * math.Pi * float64(r.Intn(3))
			}
		}
		o := sdf.Revolve3D(s, t)
		turns := t / (2 * math.Pi)
		full := math.Abs(turns-math.Round(turns)) < 1e-12 && turns > 0.5
		part := 2 * math.Pi * (turns - math.Floor(turns))
		for j := 0; j < 24; j++ {
			rho := math.Abs(span(r.Rand, 0, 6))
			phi := r.Float64() * 2 * math.Pi
			switch r.Intn(5) {
			case 2:
				phi = part * r.Float64()
			case 0:
				phi = float64(r.Intn(8)) * math.Pi / 4
			case 1: // next to the end planes
				phi = []float64{0, part}[r.Intn(2)] + (r.Float64()*2-1)*math.Pow(10, -1-4*r.Float64())
			}
			sn, cs := math.Sincos(phi)
			p := p3(rho*cs, rho*sn, span(r.Rand, -5, 5))
			if r.Intn(20) == 0 {
				p.X, p.Y = 0, 0
			}
			rho = math.Hypot(p.X, p.Y)
			a := s.Evaluate(p2(rho, p.Z))
			got := o.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(1, p.X, p.Y, p.Z, got)
			if full {
				r.Count("full", 1)
				if !near(got, a, 1e-9) {
					r.Failf("revolve-full", "Revolve3D by %.17g at %.17g: %.17g, the profile has %.17g", t, p, got, a)
				}
				continue
			}
			ang := math.Atan2(p.Y, p.X)
			if ang < 0 {
				ang += 2 * math.Pi
			}
			margin := rho * math.Min(math.Min(ang, 2*math.Pi-ang), math.Min(math.Abs(ang-part), 2*math.Pi-math.Abs(ang-part)))
			if math.Abs(a) < 1e-8 || margin < 1e-7 {
				continue
			}
			in := a < 0 && ang < part
			if in {
				r.Count("inside", 1)
			}
			if math.IsNaN(got) || (got < 0) != in {
				r.Failf("revolve", "Revolve3D by %.17g at %.17g (angle %.17g): %.17g, the profile has %.17g", t, p, ang, got, a)
			}
		}
		if e := sdf.Revolve3D(s, -float64(r.Intn(4))); !(e.Evaluate(p3(1, 0.1, 0)) > 0) {
			r.Failf("revolve", "a revolution by nothing is somewhere")
		}
	})
	c.Cases("slice", c.scale(30000, 500000), func(i int, r *R) {
		a, n := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)), mul3(math.Pow(10, 4*r.Float64()-2), dir3(r.Rand))
		if r.Intn(6) == 0 {
			// almost along an axis
			n = with3(n, r.Intn(3), comp3(n, 0)*1e-9)
			if len3(n) < 1e-6 {
				n = p3(1, 2, 3)
			}
		}
		nu := unit3(n)
		var seen v3
		rec := fn3{func(p v3) float64 { seen = p; return 1 }, box3{Min: p3(-1, -1, -1), Max: p3(1, 1, 1)}}
		s := sdf.Slice2D(rec, a, n)
		at := func(p v2) v3 { s.Evaluate(p); return seen }
		o := at(v2{})
		u, v := sub3(at(p2(1, 0)), o), sub3(at(p2(0, 1)), o)
		r.Ev(1)
		r.DistinctBits(2, u.X, u.Y, v.Z)
		if !near3(o, a, 1e-9) {
			r.Failf("slice-origin", "Slice2D through %v normal %v has its origin at %v", a, n, o)
		}
		if math.Abs(len3(u)-1) > 1e-9 || math.Abs(len3(v)-1) > 1e-9 || math.Abs(dot3(u, v)) > 1e-9 || math.Abs(dot3(u, nu)) > 1e-9 || math.Abs(dot3(v, nu)) > 1e-9 {
			r.Failf("slice-basis", "Slice2D through %v normal %v has basis %v %v", a, n, u, v)
		}
		if dot3(cross3(u, v), nu) < 0 {
			r.Failf("slice-hand", "Slice2D through %v normal %v has the left handed basis %v %v", a, n, u, v)
		}
		// values and bounds of the section of a solid
		g := newGen(r)
		m := g.leaf3()
		ctr := p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4))
		solid := sdf.Transform3D(m.s, sdf.Translate3D(ctr))
		through := add3(ctr, mul3(0.4, dir3(r.Rand)))
		sl := sdf.Slice2D(solid, through, n)
		b := sl.Bounds()
		for j := 0; j < 16; j++ {
			q := p2(span(r.Rand, -9, 9), span(r.Rand, -9, 9))
			if j%2 == 0 {
				q = inBox2(r.Rand, b, 0.3)
			}
			p := add3(through, add3(mul3(q.X, u), mul3(q.Y, v)))
			want, got := solid.Evaluate(p), sl.Evaluate(q)
			r.Ev(1)
			r.DistinctBits(3, q.X, q.Y, got)
			if !near(got, want, 1e-9) {
				r.Failf("slice-value", "Slice2D through %v normal %v at %v: %.17g, the solid has %.17g", through, n, q, got, want)
			}
			if want < -1e-9 && boxOut2(b, q) > 1e-9 {
				r.Failf("slice-bounds", "Slice2D of %s at %v through %v normal %v is inside at %v outside of its bounds %v", m.d, ctr, through, n, q, b)
			}
		}
		// sections reach into the bounds, not only over them
		for j := 0; j < 24; j++ {
			p := inBox3(r.Rand, solid.Bounds(), 0)
			p = sub3(p, mul3(dot3(sub3(p, through), nu), nu))
			d := sub3(p, through)
			q := p2(dot3(d, u), dot3(d, v))
			if solid.Evaluate(p) < -1e-9 {
				r.Count("section", 1)
				if boxOut2(b, q) > 1e-9 {
					r.Failf("slice-bounds", "Slice2D of %s at %v through %v normal %v: %v of the section is outside of its bounds %v", m.d, ctr, through, n, q, b)
				}
			}
		}
	})
}

func runC11(c *C) {
	c.Cases("offset", c.scale(30000, 500000), func(i int, r *R) {
		s2, s3 := newAny2(r.Rand), newAny3(r.Rand)
		o := span(r.Rand, -0.45, 3)
		switch r.Intn(16) {
		case 0, 1:
			o = 0
		case 2, 3:
			o = -4 * r.Float64() // more than there is
		}
		o2, o3 := sdf.Offset2D(s2, o), sdf.Offset3D(s3, o)
		// sides meet in the middle
		ends := func(lo, hi float64) (float64, float64) {
			if lo-o > hi+o {
				return (lo + hi) / 2, (lo + hi) / 2
			}
			return lo - o, hi + o
		}
		var w2 box2
		w2.Min.X, w2.Max.X = ends(s2.Bounds().Min.X, s2.Bounds().Max.X)
		w2.Min.Y, w2.Max.Y = ends(s2.Bounds().Min.Y, s2.Bounds().Max.Y)
		var w3 box3
		w3.Min.X, w3.Max.X = ends(s3.Bounds().Min.X, s3.Bounds().Max.X)
		w3.Min.Y, w3.Max.Y = ends(s3.Bounds().Min.Y, s3.Bounds().Max.Y)
		w3.Min.Z, w3.Max.Z = ends(s3.Bounds().Min.Z, s3.Bounds().Max.Z)
		if w := w2; !nearBox2(o2.Bounds(), w, 1e-12) {
			r.Failf("offset2-bounds", "bounds %v offset by %g are %v", s2.Bounds(), o, o2.Bounds())
		}
		if w := w3; !nearBox3(o3.Bounds(), w, 1e-12) {
			r.Failf("offset3-bounds", "bounds %v offset by %g are %v", s3.Bounds(), o, o3.Bounds())
		}
		t := span(r.Rand, 0.01, 2)
		thin := r.Intn(4) == 0
		if thin {
			t = math.Pow(10, -9*r.Float64())
		} else if r.Intn(6) == 0 {
			t = math.Pow(10, 3*r.Float64())
		}
		sh := sdf.Shell3D(s3, t)
		if t > 4 { // thicker than the solid
			ball := sdf.Shell3D(must3.Sphere(1), t)
			for j := 0; j < 4; j++ {
				w := span(r.Rand, -0.1, 0.1) * t
				p := mul3(1+t/2+w, dir3(r.Rand))
				if got := ball.Evaluate(p); math.Abs(w) > 1e-9*t && (got < 0) != (w < 0) {
					r.Failf("shell-thick", "shell of thickness %g of Sphere(1) at %v: %.17g", t, p, got)
				}
				r.Ev(1)
			}
		}
		none := sdf.Shell3D(s3, -float64(r.Intn(3)))
		h := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3))
		for ax := 0; ax < 3; ax++ {
			if r.Intn(5) == 0 {
				h = with3(h, ax, 0)
			}
		}
		e2, e3 := sdf.Elongate2D(s2, p2(h.X, h.Y)), sdf.Elongate3D(s3, h)
		half := func(x, h float64) float64 {
			h = math.Abs(h) / 2
			return x - clampf(x, -h, h)
		}
		for j := 0; j < 12; j++ {
			q := p3(span(r.Rand, -6, 6), span(r.Rand, -6, 6), span(r.Rand, -6, 6))
			p := p2(q.X, q.Y)
			f2, f3 := s2.Evaluate(p), s3.Evaluate(q)
			r.Ev(6)
			r.DistinctBits(1, q.X, q.Y, q.Z)
			if got := o2.Evaluate(p); !near(got, f2-o, 1e-12) {
				r.Failf("offset2", "offset by %g at %v: %.17g, was %.17g", o, p, got, f2)
			}
			if got := o3.Evaluate(q); !near(got, f3-o, 1e-12) {
				r.Failf("offset3", "offset by %g at %v: %.17g, was %.17g", o, q, got, f3)
			}
			if thin { // look close to the surface, along a line across it
				a, b := q, p3(span(r.Rand, -6, 6), span(r.Rand, -6, 6), span(r.Rand, -6, 6))
				if f := s3.Evaluate(b); f3*f < 0 {
					for k := 0; k < 60; k++ {
						m := mul3(0.5, add3(a, b))
						if s3.Evaluate(m)*f3 > 0 {
							a = m
						} else {
							b = m
						}
					}
					q = add3(a, mul3(t*span(r.Rand, 0, 1.5), dir3(r.Rand)))
					f3 = s3.Evaluate(q)
				}
			}
			got := sh.Evaluate(q)
			if w := math.Abs(f3) - t/2; math.Abs(w) > 1e-12+1e-9*t && (got < 0) != (w < 0) || math.IsNaN(got) {
				r.Failf("shell", "shell of thickness %g at %v: %.17g, the solid has %.17g", t, q, got, f3)
			} else if w < 0 {
				r.Count("in_shell", 1)
			}
			if v := none.Evaluate(q); !(v > 0) {
				r.Failf("shell-none", "a shell of no thickness is inside at %v: %g", q, v)
			}
			if got, want := e2.Evaluate(p), s2.Evaluate(p2(half(p.X, h.X), half(p.Y, h.Y))); !near(got, want, 1e-9) {
				r.Failf("elongate2", "elongated by %v at %v: %.17g instead of %.17g", h, p, got, want)
			}
			if got, want := e3.Evaluate(q), s3.Evaluate(p3(half(q.X, h.X), half(q.Y, h.Y), half(q.Z, h.Z))); !near(got, want, 1e-9) {
				r.Failf("elongate3", "elongated by %v at %v: %.17g instead of %.17g", h, q, got, want)
			}
		}
		_ = fmt.Sprint
	})
}
