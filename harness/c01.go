package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C01", level: "exploration", run: runC01,
		rule: "one random composition of shapes whose field was sampled outside of every face of its box, distinct by its description",
		assumptions: []string{
			"points are sampled and descended along the field, a protrusion smaller than the search resolution is missed",
			"offset and shell are only applied to shapes whose field is at least the distance to their own bounds",
			"blended unions are allowed the reach of their blend function",
		}})
}

// watchBounds3 monitors that no point outside of the bounds is inside of the solid.
func watchBounds3(r *R, s sdf.SDF3, desc string, slack float64, effort int) {
	b := s.Bounds()
	if b2 := s.Bounds(); b2 != b {
		r.Failf("bounds-change", "bounds differ between calls: %v %v of %s", b, b2, desc)
	}
	if !finite3(b.Min) || !finite3(b.Max) || b.Min.X > b.Max.X || b.Min.Y > b.Max.Y || b.Min.Z > b.Max.Z {
		r.Failf("bounds-order", "bounds %v of %s", b, desc)
		return
	}
	m := math.Max(mag3(b), 1e-3)
	eps := 1e-6*m + slack
	tol := 1e-9 * m
	inside := 0
	check := func(p v3) float64 {
		v := s.Evaluate(p)
		r.Ev(1)
		if v < 0 {
			inside++
		}
		if v < -tol && boxOut3(b, p) >= eps {
			r.Failf("outside-bounds", "point %.17g outside of the bounds %.17g by %g has value %g in %s", p, b, boxOut3(b, p), v, desc)
		}
		return v
	}
	size := sub3(b.Max, b.Min)
	d := math.Max(len3(size), 1e-3)
	// everywhere in and around
	for i := 0; i < 6*effort; i++ {
		g := 0.5
		if i%3 == 0 {
			g = 3
		}
		check(inBox3(r.Rand, b, g))
	}
	// just outside of each face, then descend the field without coming inside the box
	for ax := 0; ax < 3; ax++ {
		for _, side := range []float64{-1, 1} {
			best, bestV := v3{}, math.Inf(1)
			put := func(p v3, out float64) v3 {
				if side < 0 {
					return with3(p, ax, comp3(b.Min, ax)-out)
				}
				return with3(p, ax, comp3(b.Max, ax)+out)
			}
			for i := 0; i < effort; i++ {
				out := eps * 1.01
				if i%4 == 3 {
					out += d * 0.3 * r.Float64()
				}
				p := put(inBox3(r.Rand, b, 0.05), out)
				if v := check(p); v < bestV {
					best, bestV = p, v
				}
			}
			step := 0.3 * d
			for i := 0; i < effort && r.fails == 0; i++ {
				p := add3(best, mul3(step*r.Float64(), dir3(r.Rand)))
				if side*(comp3(p, ax)-comp3(put(best, eps*1.01), ax)) < 0 {
					p = put(p, eps*1.01)
				}
				if v := check(p); v < bestV {
					best, bestV = p, v
				} else {
					step *= 0.9
				}
			}
		}
	}
	r.Count("points_inside", inside)
	if inside > 0 {
		r.Distinct(desc)
		r.Count("solids_seen", 1)
	}
}

func watchBounds2(r *R, s sdf.SDF2, desc string, slack float64, effort int) {
	b := s.Bounds()
	if b2 := s.Bounds(); b2 != b {
		r.Failf("bounds-change", "bounds differ between calls: %v %v of %s", b, b2, desc)
	}
	if !finite2(b.Min) || !finite2(b.Max) || b.Min.X > b.Max.X || b.Min.Y > b.Max.Y {
		r.Failf("bounds-order", "bounds %v of %s", b, desc)
		return
	}
	m := math.Max(mag2(b), 1e-3)
	eps := 1e-6*m + slack
	tol := 1e-9 * m
	inside := 0
	check := func(p v2) float64 {
		v := s.Evaluate(p)
		r.Ev(1)
		if v < 0 {
			inside++
		}
		if v < -tol && boxOut2(b, p) >= eps {
			r.Failf("outside-bounds", "point %.17g outside of the bounds %.17g by %g has value %g in %s", p, b, boxOut2(b, p), v, desc)
		}
		return v
	}
	d := math.Max(diag2(b), 1e-3)
	for i := 0; i < 4*effort; i++ {
		g := 0.5
		if i%3 == 0 {
			g = 3
		}
		check(inBox2(r.Rand, b, g))
	}
	for ax := 0; ax < 2; ax++ {
		for _, side := range []float64{-1, 1} {
			put := func(p v2, out float64) v2 {
				if side < 0 {
					return with2(p, ax, comp2(b.Min, ax)-out)
				}
				return with2(p, ax, comp2(b.Max, ax)+out)
			}
			best, bestV := v2{}, math.Inf(1)
			for i := 0; i < effort; i++ {
				out := eps * 1.01
				if i%4 == 3 {
					out += d * 0.3 * r.Float64()
				}
				p := put(inBox2(r.Rand, b, 0.05), out)
				if v := check(p); v < bestV {
					best, bestV = p, v
				}
			}
			step := 0.3 * d
			for i := 0; i < effort && r.fails == 0; i++ {
				p := add2(best, mul2(step*r.Float64(), dir2(r.Rand)))
				if side*(comp2(p, ax)-comp2(put(best, eps*1.01), ax)) < 0 {
					p = put(p, eps*1.01)
				}
				if v := check(p); v < bestV {
					best, bestV = p, v
				} else {
					step *= 0.9
				}
			}
		}
	}
	r.Count("points_inside", inside)
	if inside > 0 {
		r.Distinct(desc)
		r.Count("solids_seen", 1)
	}
}

// minFunc is a blend function with the reach it has beyond members.
type minFunc struct {
	f     sdf.MinFunc
	reach float64 // per blended member
	d     string
	pair  bool // reach known for two members only
}

func randMinFunc(r *R) minFunc {
	k := span(r.Rand, 0.1, 1.5)
	switch r.Intn(5) {
	case 0:
		return minFunc{f: sdf.MinRound(k), reach: 0.2929 * k, d: fmt.Sprintf("MinRound(%g)", k)}
	case 1:
		k = span(r.Rand, 1, 32)
		return minFunc{f: sdf.MinExp(k), reach: math.Ln2 / k, d: fmt.Sprintf("MinExp(%g)", k)}
	case 2:
		k = span(r.Rand, 1, 8)
		return minFunc{f: sdf.MinPow(k), d: fmt.Sprintf("MinPow(%g)", k)}
	case 3:
		return minFunc{f: sdf.MinPoly(0, k), reach: k, d: fmt.Sprintf("MinPoly(0,%g)", k), pair: true}
	}
	n := 1 + r.Intn(5)
	return minFunc{f: sdf.MinPoly(n, k), reach: k / float64(2*n), d: fmt.Sprintf("MinPoly(%d,%g)", n, k)}
}

func runC01(c *C) {
	n := c.scale(20000, 400000)
	eff := c.scale(40, 80)
	c.Cases("solid", n, func(i int, r *R) {
		g := newGen(r)
		s := g.node3([]int{1, 1, 1, 2, 2, 3}[r.Intn(6)])
		if i < 5 {
			r.Sample("%s", s.d)
		}
		watchBounds3(r, s.s, s.d, 0, eff)
	})
	c.Cases("flat", n, func(i int, r *R) {
		g := newGen(r)
		s := g.node2([]int{1, 1, 1, 2, 2, 3}[r.Intn(6)])
		watchBounds2(r, s.s, s.d, 0, eff)
	})
	// Each operation on plain members placed off the origin.
	c.Cases("single", c.scale(20000, 300000), func(i int, r *R) {
		g := newGen(r)
		g.noObj = true
		a := g.leaf2()
		off := p2(span(r.Rand, -5, 5), span(r.Rand, -5, 5))
		a.s = sdf.Transform2D(a.s, sdf.Translate2D(off))
		h := span(r.Rand, 0.25, 6)
		var s sdf.SDF3
		var s2 sdf.SDF2
		d := fmt.Sprintf("%s at %v", a.d, off)
		switch i % 14 {
		case 0:
			t := angle(r.Rand)
			s, d = sdf.TwistExtrude3D(a.s, h, t), fmt.Sprintf("Twist(%s,%g,%g)", d, h, t)
		case 1:
			sc := p2(span(r.Rand, 0.2, 4), span(r.Rand, 0.2, 4))
			s, d = sdf.ScaleExtrude3D(a.s, h, sc), fmt.Sprintf("Scale(%s,%g,%v)", d, h, sc)
		case 2:
			t, sc := angle(r.Rand), p2(span(r.Rand, 0.2, 4), span(r.Rand, 0.2, 4))
			s, d = sdf.ScaleTwistExtrude3D(a.s, h, t, sc), fmt.Sprintf("ScaleTwist(%s,%g,%g,%v)", d, h, t, sc)
		case 3, 4, 5:
			t := span(r.Rand, 0.05, 14)
			if r.Intn(3) == 0 {
				t = float64(1+r.Intn(16)) * math.Pi / 4
			}
			s, d = sdf.Revolve3D(a.s, t), fmt.Sprintf("Revolve(%s,%g)", d, t)
		case 6:
			rd := r.Float64() * h / 2
			s, d = sdf.ExtrudeRounded3D(a.s, h, rd), fmt.Sprintf("ExtrudeRounded(%s,%g,%g)", d, h, rd)
		case 7:
			b := g.leaf2()
			rd := r.Float64() * h / 2
			s, d = sdf.Loft3D(a.s, b.s, h, rd), fmt.Sprintf("Loft(%s,%s,%g,%g)", d, b.d, h, rd)
		case 8:
			// shrunk by an offset
			b := a.s.Bounds()
			o := -0.6 * r.Float64() * math.Min(b.Max.X-b.Min.X, b.Max.Y-b.Min.Y)
			s2, d = sdf.Offset2D(a.s, o), fmt.Sprintf("Offset(%s,%g)", d, o)
		case 9:
			m := g.leaf3()
			b := m.s.Bounds()
			o := -0.6 * r.Float64() * math.Min(b.Max.X-b.Min.X, math.Min(b.Max.Y-b.Min.Y, b.Max.Z-b.Min.Z))
			s, d = sdf.Offset3D(sdf.Transform3D(m.s, sdf.Translate3D(p3(off.X, off.Y, 1))), o), fmt.Sprintf("Offset(%s,%g)", m.d, o)
		case 10:
			num, st := 1+r.Intn(8), angle(r.Rand)
			s2, d = sdf.RotateUnion2D(a.s, num, sdf.Rotate2D(st)), fmt.Sprintf("RotateUnion(%s,%d,%g)", d, num, st)
		case 11:
			num := 1 + r.Intn(8)
			s2, d = sdf.RotateCopy2D(a.s, num), fmt.Sprintf("RotateCopy(%s,%d)", d, num)
		case 12:
			m := g.leaf3()
			at := p3(off.X, off.Y, span(r.Rand, -4, 4))
			s2 = sdf.Slice2D(sdf.Transform3D(m.s, sdf.Translate3D(at)), add3(at, mul3(0.3, dir3(r.Rand))), mul3(2, dir3(r.Rand)))
			d = fmt.Sprintf("Slice(%s at %v)", m.d, at)
		case 13:
			h := p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3))
			s2, d = sdf.Elongate2D(a.s, h), fmt.Sprintf("Elongate(%s,%v)", d, h)
		}
		if s != nil {
			watchBounds3(r, s, d, 0, eff)
		} else {
			watchBounds2(r, s2, d, 0, eff)
		}
	})
	c.Cases("blend", c.scale(6000, 100000), func(i int, r *R) {
		g := newGen(r)
		g.noObj = true
		f := randMinFunc(r)
		k := 2 + r.Intn(3)
		if f.pair {
			k = 2
		}
		slack := f.reach*float64(k-1) + 1e-9
		d := f.d
		if i%2 == 0 {
			var m []sdf.SDF2
			for len(m) < k {
				if n := g.node2(r.Intn(2)); n.f == fieldEuc {
					m = append(m, n.s)
					d += ";" + n.d
				}
			}
			var u sdf.SDF2Union
			switch {
			case r.Intn(3) > 0:
				u = sdf.Union2D(m...)
			default:
				u = sdf.Array2D(m[0], sdf.V2i{k, 1}, p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3)))
				d += " array"
			}
			u.SetMin(f.f)
			watchBounds2(r, u, d, slack, eff)
			return
		}
		var m []sdf.SDF3
		for len(m) < k {
			if n := g.node3(r.Intn(2)); n.f == fieldEuc {
				m = append(m, n.s)
				d += ";" + n.d
			}
		}
		var u sdf.SDF3Union
		switch r.Intn(4) {
		case 0:
			u = sdf.Array3D(m[0], sdf.V3i{1, 1, k}, p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)))
			d += " array"
		case 1:
			u = sdf.RotateUnion3D(m[0], k, sdf.RotateZ(angle(r.Rand)))
			d += " rotateunion"
		default:
			u = sdf.Union3D(m...)
		}
		u.SetMin(f.f)
		watchBounds3(r, u, d, slack, eff)
	})
	// the centres of many copies
	c.Cases("many", c.scale(4000, 60000), func(i int, r *R) {
		o := mul3(0.4, dir3(r.Rand))
		rad := span(r.Rand, 0.25, 1.5)
		s3 := fn3{func(p v3) float64 { return len3(sub3(p, o)) - rad }, box3{Min: sub3(o, p3(rad, rad, rad)), Max: add3(o, p3(rad, rad, rad))}}
		o2 := p2(o.X, o.Y)
		s2 := fn2{func(p v2) float64 { return len2(sub2(p, o2)) - rad }, box2{Min: sub2(o2, p2(rad, rad)), Max: add2(o2, p2(rad, rad))}}
		n := 2 + r.Intn([]int{20, 70, 150, 400}[r.Intn(4)])
		var g2 sdf.SDF2
		var g3 sdf.SDF3
		var at []v3
		d := ""
		switch i % 5 {
		case 0:
			num := sdf.V3i{1, 1, 1}
			num[r.Intn(3)] = n
			num[r.Intn(3)]++
			st := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			g3 = sdf.Array3D(s3, num, st)
			for k := 0; k < num[0]*num[1]*num[2]; k++ {
				at = append(at, add3(o, p3(float64(k%num[0])*st.X, float64(k/num[0]%num[1])*st.Y, float64(k/num[0]/num[1])*st.Z)))
			}
			if num[2] == 1 {
				g2 = sdf.Array2D(s2, sdf.V2i{num[0], num[1]}, p2(st.X, st.Y))
			}
			d = fmt.Sprintf("Array %v step %v", num, st)
		case 1, 2:
			ax, t, up := v3{Z: 1}, 2*math.Pi/float64(n), 0.0
			if r.Intn(2) == 0 {
				t = angle(r.Rand)
			}
			m, ref := sdf.RotateZ(t), rodrigues(ax, t)
			if r.Intn(2) == 0 {
				ax, up = dir3(r.Rand), span(r.Rand, -2, 2)
				m, ref = sdf.Rotate3D(ax, t), rodrigues(ax, t)
			} else {
				g2 = sdf.RotateUnion2D(s2, n, sdf.Rotate2D(t))
			}
			m = sdf.Translate3D(p3(0, 0, up)).Mul(m)
			ref = amap3{c: ident3.c, t: p3(0, 0, up)}.mul(ref)
			g3 = sdf.RotateUnion3D(s3, n, m)
			p := o
			for k := 0; k < n; k++ {
				at = append(at, p)
				p = ref.at(p)
			}
			d = fmt.Sprintf("RotateUnion %d about %v by %v, up %v", n, ax, t, up)
		case 3:
			var pos2 []v2
			var pos3 []v3
			for k := 0; k < n; k++ {
				q := p3(span(r.Rand, -50, 50), span(r.Rand, -50, 50), span(r.Rand, -50, 50))
				pos2, pos3, at = append(pos2, p2(q.X, q.Y)), append(pos3, q), append(at, add3(o, q))
			}
			g2, g3 = sdf.Multi2D(s2, pos2), sdf.Multi3D(s3, pos3)
			d = fmt.Sprintf("Multi of %d", n)
		case 4:
			a, b := p3(span(r.Rand, -50, 50), span(r.Rand, -50, 50), span(r.Rand, -50, 50)), p3(span(r.Rand, -50, 50), span(r.Rand, -50, 50), span(r.Rand, -50, 50))
			pat := make([]byte, n)
			for k := range pat {
				pat[k] = ".x"[r.Intn(2)]
				if pat[k] == 'x' {
					at = append(at, add3(o, add3(a, mul3(float64(k)/float64(n), sub3(b, a)))))
				}
			}
			g2, g3 = sdf.LineOf2D(s2, p2(a.X, a.Y), p2(b.X, b.Y), string(pat)), sdf.LineOf3D(s3, a, b, string(pat))
			d = fmt.Sprintf("LineOf %s", pat)
		}
		b3 := g3.Bounds()
		tol := 1e-9 * (1 + mag3(b3))
		for _, q := range at {
			for j := 0; j < 3; j++ {
				p := add3(q, mul3(0.99*rad, dir3(r.Rand)))
				r.Ev(1)
				r.DistinctBits(9, p.X, p.Y, p.Z)
				if v := g3.Evaluate(p); v >= 0 {
					r.Count("copies not found", 1) // C08 tells
				} else if boxOut3(b3, p) > tol {
					r.Failf("outside-bounds", "point %.17g outside of the bounds %.17g has value %g in %s", p, b3, v, d)
				}
				if g2 == nil {
					continue
				}
				q2 := add2(p2(q.X, q.Y), mul2(0.99*rad, unit2(p2(p.X-q.X+1e-9, p.Y-q.Y))))
				if b2 := g2.Bounds(); g2.Evaluate(q2) < 0 && (q2.X < b2.Min.X-tol || q2.X > b2.Max.X+tol || q2.Y < b2.Min.Y-tol || q2.Y > b2.Max.Y+tol) {
					r.Failf("outside-bounds", "point %.17g outside of the bounds %.17g is inside %s in the plane", q2, b2, d)
				}
			}
		}
	})
	c.Cases("blendmax", c.scale(3000, 50000), func(i int, r *R) {
		g := newGen(r)
		k, deg := span(r.Rand, 0.1, 1.5), r.Intn(5)
		a, b := g.node3(r.Intn(2)), g.node3(r.Intn(2))
		var s sdf.SDF3Diff
		if i%2 == 0 {
			s = sdf.Difference3D(a.s, b.s)
		} else {
			s = sdf.Intersect3D(a.s, b.s)
		}
		s.SetMax(sdf.MaxPoly(deg, k))
		watchBounds3(r, s, fmt.Sprintf("MaxPoly(%d,%g) %s %s", deg, k, a.d, b.d), 0, eff)
		a2, b2 := g.node2(r.Intn(2)), g.node2(r.Intn(2))
		var s2 sdf.SDF2Diff
		if i%2 == 0 {
			s2 = sdf.Difference2D(a2.s, b2.s)
		} else {
			s2 = sdf.Intersect2D(a2.s, b2.s)
		}
		s2.SetMax(sdf.MaxPoly(deg, k))
		watchBounds2(r, s2, fmt.Sprintf("MaxPoly(%d,%g) %s %s", deg, k, a2.d, b2.d), 0, eff)
	})
	c.Cases("object", c.scale(4000, 60000), func(i int, r *R) {
		g := newGen(r)
		if i%5 == 4 {
			p := g.panelParams()
			s, err := obj2.Panel(p)
			watchBounds2(r, ok2(r, s, err), fmt.Sprintf("Panel2D(%+v)", p), 0, eff)
			e := obj2.EuroRackParams{U: float64(1 + r.Intn(6)), HP: float64(2 + r.Intn(40)), CornerRadius: 3 * r.Float64(), Thickness: 1 + 3*r.Float64(), Ridge: r.Intn(2) == 0}
			s3, err := obj3.EuroRackPanel(e)
			watchBounds3(r, ok3(r, s3, err), fmt.Sprintf("EuroRack(%+v)", e), 0, eff)
			return
		}
		s := g.object3()
		watchBounds3(r, s.s, s.d, 0, eff)
		if i%5 == 0 {
			watchBounds3(r, must3.ChamferedCylinder(s.s, 0.2*r.Float64(), 0.2*r.Float64()), "chamfered "+s.d, 0, eff)
		}
	})
	c.Cases("screw", c.scale(3000, 40000), func(i int, r *R) {
		t := customThread{d: span(r.Rand, 1, 8), starts: r.Intn(9) - 4}
		t.p = t.d * (0.1 + 0.3*r.Float64())
		if r.Intn(2) == 0 {
			t.taper = (r.Float64()*2 - 1) * 0.6
		}
		l := span(r.Rand, 0.5, 6)
		s, err := thread.Screw(l, t)
		watchBounds3(r, ok3(r, s, err), fmt.Sprintf("Screw(%g,%+v)", l, t), 0, eff)
	})
}
