package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/soypat/sdf"
)

func init() {
	register(&prop{id: "C07", level: "exploration", run: runC07,
		rule: "a matrix, or product of matrices, whose action on points and boxes was compared with the map it stands for, distinct by the bits of an image point",
		assumptions: []string{
			"reference maps are composed from elementary rotations by Rodrigues' formula, scales, mirrors and translations in double precision",
			"scales keep condition numbers below 1e6",
		}})
}

// amap is a reference affine map.
type amap3 struct {
	c [3]v3 // images of the axes
	t v3
}

func (a amap3) at(p v3) v3 { return add3(a.t, a.lin(p)) }
func (a amap3) lin(p v3) v3 {
	return add3(mul3(p.X, a.c[0]), add3(mul3(p.Y, a.c[1]), mul3(p.Z, a.c[2])))
}
func (a amap3) mul(b amap3) amap3 {
	return amap3{[3]v3{a.lin(b.c[0]), a.lin(b.c[1]), a.lin(b.c[2])}, a.at(b.t)}
}
func (a amap3) det() float64 { return dot3(a.c[0], cross3(a.c[1], a.c[2])) }

var ident3 = amap3{c: [3]v3{{X: 1}, {Y: 1}, {Z: 1}}}

// rodrigues is the right handed rotation about an axis.
func rodrigues(axis v3, t float64) amap3 {
	u := unit3(axis)
	f := func(p v3) v3 {
		s, c := math.Sincos(t)
		return add3(add3(mul3(c, p), mul3(s, cross3(u, p))), mul3((1-c)*dot3(u, p), u))
	}
	return amap3{c: [3]v3{f(v3{X: 1}), f(v3{Y: 1}), f(v3{Z: 1})}}
}

type amap2 struct {
	c [2]v2
	t v2
}

func (a amap2) at(p v2) v2  { return add2(a.t, a.lin(p)) }
func (a amap2) lin(p v2) v2 { return add2(mul2(p.X, a.c[0]), mul2(p.Y, a.c[1])) }
func (a amap2) mul(b amap2) amap2 {
	return amap2{[2]v2{a.lin(b.c[0]), a.lin(b.c[1])}, a.at(b.t)}
}
func (a amap2) det() float64 { return cross2(a.c[0], a.c[1]) }

func runC07(c *C) {
	// many turns as well
	angle := func(r *rand.Rand) float64 {
		if r.Intn(12) == 0 {
			return (2*r.Float64() - 1) * math.Pow(10, 1+4*r.Float64())
		}
		return angle(r)
	}
	c.Cases("map3", c.scale(30000, 500000), func(i int, r *R) {
		m := sdf.Translate3D(v3{})
		ref := ident3
		inv := sdf.Translate3D(v3{})
		d := ""
		rigid := true
		big := 1.0
		for j := 1 + r.Intn(4); j > 0; j-- {
			k := sdf.Translate3D(v3{})
			var q amap3
			switch r.Intn(9) {
			case 0:
				v := p3(span(r.Rand, -9, 9), span(r.Rand, -9, 9), span(r.Rand, -9, 9))
				k, q = sdf.Translate3D(v), amap3{c: ident3.c, t: v}
				d += fmt.Sprintf("Translate3D(%v)", v)
			case 1:
				v := p3(span(r.Rand, 0.1, 8), span(r.Rand, 0.1, 8), span(r.Rand, 0.1, 8))
				if r.Intn(3) == 0 {
					v.X = -v.X
				}
				if r.Intn(3) == 0 {
					v.Z = -v.Z
				}
				if r.Intn(3) == 0 { // keeps the volume
					v.X, v.Y = span(r.Rand, 0.4, 2), span(r.Rand, 0.4, 2)
					if r.Intn(2) == 0 {
						v.X, v.Y = []float64{0.5, 2, 4, 0.25, 1}[r.Intn(5)], []float64{0.5, 2, 1}[r.Intn(3)]
					}
					v.Z = []float64{1, 1, -1}[r.Intn(3)] / (v.X * v.Y)
				}
				k, q = sdf.Scale3D(v), amap3{c: [3]v3{{X: v.X}, {Y: v.Y}, {Z: v.Z}}}
				d += fmt.Sprintf("Scale3D(%v)", v)
				rigid = false
				big *= 8
			case 2, 3:
				v, t := mul3(math.Pow(10, 6*r.Float64()-3), dir3(r.Rand)), angle(r.Rand)
				k, q = sdf.Rotate3D(v, t), rodrigues(v, t)
				d += fmt.Sprintf("Rotate3D(%v,%g)", v, t)
			case 4:
				t := angle(r.Rand)
				k, q = sdf.RotateX(t), rodrigues(v3{X: 1}, t)
				d += fmt.Sprintf("RotateX(%g)", t)
			case 5:
				t := angle(r.Rand)
				k, q = sdf.RotateY(t), rodrigues(v3{Y: 1}, t)
				d += fmt.Sprintf("RotateY(%g)", t)
			case 6:
				t := angle(r.Rand)
				k, q = sdf.RotateZ(t), rodrigues(v3{Z: 1}, t)
				d += fmt.Sprintf("RotateZ(%g)", t)
			default:
				switch r.Intn(4) {
				case 0:
					k, q = sdf.MirrorXY(), amap3{c: [3]v3{{X: 1}, {Y: 1}, {Z: -1}}}
					d += "MirrorXY"
				case 1:
					k, q = sdf.MirrorXZ(), amap3{c: [3]v3{{X: 1}, {Y: -1}, {Z: 1}}}
					d += "MirrorXZ"
				case 2:
					k, q = sdf.MirrorYZ(), amap3{c: [3]v3{{X: -1}, {Y: 1}, {Z: 1}}}
					d += "MirrorYZ"
				case 3:
					k, q = sdf.MirrorXeqY(), amap3{c: [3]v3{{Y: 1}, {X: 1}, {Z: 1}}}
					d += "MirrorXeqY"
				}
			}
			m = m.Mul(k)
			inv = k.Inverse().Mul(inv)
			ref = ref.mul(q)
			d += " "
		}
		tol := 1e-10 * big * big
		if want := ref.det(); !near(m.Determinant(), want, tol) {
			r.Failf("det3", "determinant of %s is %.17g instead of %.17g", d, m.Determinant(), want)
		}
		mi := m.Inverse()
		for j := 0; j < 8; j++ {
			p := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			want := ref.at(p)
			got := m.MulPosition(p)
			r.Ev(1)
			r.DistinctBits(1, want.X, want.Y, want.Z)
			if !near3(got, want, tol) {
				r.Failf("map3", "%s maps %.17g to %.17g instead of %.17g", d, p, got, want)
			}
			if back := mi.MulPosition(want); !near3(back, p, tol*100) {
				r.Failf("inverse3", "the inverse of %s maps %.17g to %.17g instead of %.17g", d, want, back, p)
			}
			if back := inv.MulPosition(want); !near3(back, p, tol*100) {
				r.Failf("inverse3", "the product of the inverses of %s maps %.17g to %.17g instead of %.17g", d, want, back, p)
			}
			if id := m.Mul(mi).MulPosition(p); !near3(id, p, tol*100) {
				r.Failf("inverse3", "%s times its inverse maps %.17g to %.17g", d, p, id)
			}
		}
		// boxes
		b := newAny3(r.Rand).Bounds()
		if r.Intn(10) == 0 {
			b.Max = b.Min
		}
		want := box3{Min: p3(math.Inf(1), math.Inf(1), math.Inf(1)), Max: p3(math.Inf(-1), math.Inf(-1), math.Inf(-1))}
		for _, p := range corners3(b) {
			q := ref.at(p)
			want.Min = p3(math.Min(want.Min.X, q.X), math.Min(want.Min.Y, q.Y), math.Min(want.Min.Z, q.Z))
			want.Max = p3(math.Max(want.Max.X, q.X), math.Max(want.Max.Y, q.Y), math.Max(want.Max.Z, q.Z))
		}
		if got := m.MulBox(b); !nearBox3(got, want, tol) {
			r.Failf("box3", "%s maps box %.17g to %.17g instead of %.17g", d, b, got, want)
		}
		// shapes
		s := newAny3(r.Rand)
		t := sdf.Transform3D(s, m)
		wb := box3{Min: p3(math.Inf(1), math.Inf(1), math.Inf(1)), Max: p3(math.Inf(-1), math.Inf(-1), math.Inf(-1))}
		for _, p := range corners3(s.Bounds()) {
			q := ref.at(p)
			wb.Min = p3(math.Min(wb.Min.X, q.X), math.Min(wb.Min.Y, q.Y), math.Min(wb.Min.Z, q.Z))
			wb.Max = p3(math.Max(wb.Max.X, q.X), math.Max(wb.Max.Y, q.Y), math.Max(wb.Max.Z, q.Z))
		}
		if got := t.Bounds(); !nearBox3(got, wb, tol) {
			r.Failf("shape-box3", "%s maps a shape's bounds %.17g to %.17g instead of %.17g", d, s.Bounds(), got, wb)
		}
		for j := 0; j < 6; j++ {
			p := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			got, want := t.Evaluate(ref.at(p)), s.Evaluate(p)
			r.Ev(1)
			if !near(got, want, 1e3*tol) {
				r.Failf("shape3", "a shape transformed by %s has %.17g at the image of %v, where it was %.17g", d, got, p, want)
			}
		}
		_ = rigid
		if i < 3 {
			r.Sample("%s", d)
		}
	})
	c.Cases("map2", c.scale(30000, 500000), func(i int, r *R) {
		m := sdf.Translate2D(v2{})
		ref := amap2{c: [2]v2{{X: 1}, {Y: 1}}}
		inv := sdf.Translate2D(v2{})
		d := ""
		big := 1.0
		for j := 1 + r.Intn(4); j > 0; j-- {
			k := sdf.Translate2D(v2{})
			q := amap2{c: [2]v2{{X: 1}, {Y: 1}}}
			switch r.Intn(5) {
			case 0:
				v := p2(span(r.Rand, -9, 9), span(r.Rand, -9, 9))
				k, q.t = sdf.Translate2D(v), v
				d += fmt.Sprintf("Translate2D(%v)", v)
			case 1:
				v := p2(span(r.Rand, 0.1, 8), span(r.Rand, 0.1, 8))
				if r.Intn(3) == 0 {
					v.Y = -v.Y
				}
				if r.Intn(3) == 0 { // keeps the area
					v.Y = []float64{1, 1, -1}[r.Intn(3)] / v.X
				}
				k, q.c = sdf.Scale2D(v), [2]v2{{X: v.X}, {Y: v.Y}}
				d += fmt.Sprintf("Scale2D(%v)", v)
				big *= 8
			case 2:
				t := angle(r.Rand)
				s, co := math.Sincos(t)
				k, q.c = sdf.Rotate2D(t), [2]v2{{X: co, Y: s}, {X: -s, Y: co}}
				d += fmt.Sprintf("Rotate2D(%g)", t)
			case 3:
				k, q.c = sdf.MirrorX(), [2]v2{{X: 1}, {Y: -1}}
				d += "MirrorX"
			case 4:
				k, q.c = sdf.MirrorY(), [2]v2{{X: -1}, {Y: 1}}
				d += "MirrorY"
			}
			m = m.Mul(k)
			inv = k.Inverse().Mul(inv)
			ref = ref.mul(q)
			d += " "
		}
		tol := 1e-10 * big * big
		if want := ref.det(); !near(m.Determinant(), want, tol) {
			r.Failf("det2", "determinant of %s is %.17g instead of %.17g", d, m.Determinant(), want)
		}
		mi := m.Inverse()
		s := newAny2(r.Rand)
		t := sdf.Transform2D(s, m)
		wb := box2{Min: p2(math.Inf(1), math.Inf(1)), Max: p2(math.Inf(-1), math.Inf(-1))}
		for _, p := range corners2(s.Bounds()) {
			q := ref.at(p)
			wb.Min = p2(math.Min(wb.Min.X, q.X), math.Min(wb.Min.Y, q.Y))
			wb.Max = p2(math.Max(wb.Max.X, q.X), math.Max(wb.Max.Y, q.Y))
		}
		if got := t.Bounds(); !nearBox2(got, wb, tol) {
			r.Failf("shape-box2", "%s maps a shape's bounds %.17g to %.17g instead of %.17g", d, s.Bounds(), got, wb)
		}
		if got := m.MulBox(s.Bounds()); !nearBox2(got, wb, tol) {
			r.Failf("box2", "%s maps box %.17g to %.17g instead of %.17g", d, s.Bounds(), got, wb)
		}
		for j := 0; j < 8; j++ {
			p := p2(span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			want := ref.at(p)
			got := m.MulPosition(p)
			r.Ev(2)
			r.DistinctBits(2, want.X, want.Y)
			if !near2(got, want, tol) {
				r.Failf("map2", "%s maps %.17g to %.17g instead of %.17g", d, p, got, want)
			}
			if back := mi.MulPosition(want); !near2(back, p, tol*100) {
				r.Failf("inverse2", "the inverse of %s maps %.17g to %.17g instead of %.17g", d, want, back, p)
			}
			if back := inv.MulPosition(want); !near2(back, p, tol*100) {
				r.Failf("inverse2", "the product of the inverses of %s maps %.17g to %.17g instead of %.17g", d, want, back, p)
			}
			if got, want := t.Evaluate(want), s.Evaluate(p); !near(got, want, 1e3*tol) {
				r.Failf("shape2", "a shape transformed by %s has %.17g at the image of %v, where it was %.17g", d, got, p, want)
			}
		}
		// sums and multiples
		k := span(r.Rand, -4, 4)
		sum, times := m.Add(sdf.Rotate2D(k)), m.MulScalar(k)
		{
			p := p2(span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			if got, want := sum.MulPosition(p), add2(ref.at(p), rot2(p, k)); !near2(got, want, tol) {
				r.Failf("sum", "%s plus a turn by %g maps %v to %v instead of %v", d, k, p, got, want)
			}
			if got, want := times.MulPosition(p), mul2(k, ref.at(p)); !near2(got, want, tol) {
				r.Failf("sum", "%s times %g maps %v to %v instead of %v", d, k, p, got, want)
			}
			if got, want := m.Mul(times).Determinant(), k*k*k*ref.det()*ref.det(); !near(got, want, tol*tol*1e8) {
				r.Failf("sum", "%s times %g of itself has determinant %v instead of %v", d, k, got, want)
			}
		}
		// plane rotations without translation
		a, b := angle(r.Rand), angle(r.Rand)
		m2 := sdf.Rotate(a).Mul(sdf.Rotate(b))
		p := p2(span(r.Rand, -5, 5), span(r.Rand, -5, 5))
		if got, want := m2.MulPosition(p), rot2(rot2(p, b), a); !near2(got, want, 1e-12) {
			r.Failf("rotate", "Rotate(%g)Rotate(%g) maps %v to %v instead of %v", a, b, p, got, want)
		}
		if got, want := m2.Inverse().MulPosition(p), rot2(rot2(p, -a), -b); !near2(got, want, 1e-12) {
			r.Failf("rotate", "the inverse of Rotate(%g)Rotate(%g) maps %v to %v instead of %v", a, b, p, got, want)
		}
		if got := m2.Determinant(); !near(got, 1, 1e-12) {
			r.Failf("rotate", "the determinant of a rotation is %v", got)
		}
	})
	// small motions are not left out
	c.Cases("small", c.scale(20000, 200000), func(i int, r *R) {
		e := math.Pow(10, -1-7*r.Float64())
		m := sdf.Translate3D(v3{})
		var ref amap3
		d := ""
		switch i % 6 {
		case 0:
			v := mul3(e, dir3(r.Rand))
			if r.Intn(2) == 0 {
				v = with3(v3{}, r.Intn(3), e)
			}
			m, ref = sdf.Translate3D(v), amap3{c: ident3.c, t: v}
			d = fmt.Sprintf("Translate3D(%v)", v)
		case 1:
			u := p3(1, 1, 1)
			for k := 0; k < 3; k++ {
				if r.Intn(2) == 0 {
					u = with3(u, k, 1+e*(2*r.Float64()-1))
				}
			}
			m, ref = sdf.Scale3D(u), amap3{c: [3]v3{{X: u.X}, {Y: u.Y}, {Z: u.Z}}}
			d = fmt.Sprintf("Scale3D(%v)", u)
		case 2:
			v := dir3(r.Rand)
			m, ref = sdf.Rotate3D(v, e), rodrigues(v, e)
			d = fmt.Sprintf("Rotate3D(%v,%g)", v, e)
		case 3:
			t := -e
			switch r.Intn(3) {
			case 0:
				m, ref = sdf.RotateX(t), rodrigues(v3{X: 1}, t)
			case 1:
				m, ref = sdf.RotateY(t), rodrigues(v3{Y: 1}, t)
			case 2:
				m, ref = sdf.RotateZ(t), rodrigues(v3{Z: 1}, t)
			}
			d = fmt.Sprintf("turn by %g", t)
		case 4, 5: // away and almost back
			v, w := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)), mul3(e, dir3(r.Rand))
			t := 6 * r.Float64()
			m = sdf.Translate3D(v).Mul(sdf.RotateZ(t)).Mul(sdf.RotateZ(e - t)).Mul(sdf.Translate3D(sub3(w, v)))
			ref = amap3{c: ident3.c, t: v}.mul(rodrigues(v3{Z: 1}, e)).mul(amap3{c: ident3.c, t: sub3(w, v)})
			d = fmt.Sprintf("away and back by %v and %g", w, e)
		}
		s := newAny3(r.Rand)
		t := sdf.Transform3D(s, m)
		s2 := newAny2(r.Rand)
		m2 := sdf.Translate2D(v2{})
		var ref2 amap2
		switch r.Intn(3) {
		case 0:
			v := mul2(e, unit2(p2(r.NormFloat64(), r.NormFloat64())))
			m2, ref2 = sdf.Translate2D(v), amap2{c: [2]v2{{X: 1}, {Y: 1}}, t: v}
		case 1:
			v := p2(1+e, 1-e*r.Float64())
			m2, ref2 = sdf.Scale2D(v), amap2{c: [2]v2{{X: v.X}, {Y: v.Y}}}
		case 2:
			sn, co := math.Sincos(e)
			m2, ref2 = sdf.Rotate2D(e), amap2{c: [2]v2{{X: co, Y: sn}, {X: -sn, Y: co}}}
		}
		t2 := sdf.Transform2D(s2, m2)
		if got := m.Inverse(); !near3(got.MulPosition(ref.at(v3{X: 1, Y: 2, Z: 3})), v3{X: 1, Y: 2, Z: 3}, 1e-12) {
			r.Failf("small", "the inverse of %s is %v", d, got)
		}
		if b := s.Bounds(); len3(sub3(b.Max, b.Min)) < 50 && i%6 == 0 {
			w := box3{Min: add3(b.Min, ref.t), Max: add3(b.Max, ref.t)}
			if got := t.Bounds(); !nearBox3(got, w, 1e-12) {
				r.Failf("small-box", "%s takes the bounds %.17g of a shape to %.17g", d, b, got)
			}
		}
		for j := 0; j < 6; j++ {
			p := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			r.Ev(3)
			r.DistinctBits(5, p.X, p.Y, e)
			if got, want := m.MulPosition(p), ref.at(p); !near3(got, want, 1e-12) {
				r.Failf("small", "%s maps %.17g to %.17g instead of %.17g", d, p, got, want)
			}
			if got, want := t.Evaluate(ref.at(p)), s.Evaluate(p); !near(got, want, 1e-11) {
				r.Failf("small", "a shape transformed by %s has %.17g at the image of %v, where it was %.17g", d, got, p, want)
			}
			q := p2(p.X, p.Y)
			if got, want := t2.Evaluate(ref2.at(q)), s2.Evaluate(q); !near(got, want, 1e-11) {
				r.Failf("small", "a shape transformed by the matrix %v has %.17g at the image of %v, where it was %.17g", m2, got, q, want)
			}
		}
		r.Count("small motions", 2)
	})
	// very large and very small scales
	c.Cases("extreme", c.scale(8000, 100000), func(i int, r *R) {
		k := math.Pow(10, 16*r.Float64()-8)
		u := p3(span(r.Rand, 0.3, 3), span(r.Rand, 0.3, 3), span(r.Rand, 0.3, 3))
		ax, t, t2 := dir3(r.Rand), angle(r.Rand), angle(r.Rand)
		mv := mul3(k*5*r.Float64(), dir3(r.Rand))
		if r.Intn(3) == 0 {
			mv, t = v3{}, 0
		}
		s := newAny3(r.Rand)
		m := sdf.Translate3D(mv).Mul(sdf.Rotate3D(ax, t)).Mul(sdf.Scale3D(mul3(k, u))).Mul(sdf.RotateX(t2))
		ref := amap3{c: ident3.c, t: mv}.mul(rodrigues(ax, t)).mul(amap3{c: [3]v3{{X: k * u.X}, {Y: k * u.Y}, {Z: k * u.Z}}}).mul(rodrigues(v3{X: 1}, t2))
		d := fmt.Sprintf("scale by %g of %v, turned by %g about %v, moved by %v", k, u, t, ax, mv)
		if got, want := m.Determinant()/(k*k*k), u.X*u.Y*u.Z; !near(got, want, 1e-9) {
			r.Failf("det3", "determinant of %s is %g instead of %g", d, m.Determinant(), want*k*k*k)
		}
		mi, sh := m.Inverse(), sdf.Transform3D(s, m)
		// in the plane
		s2 := newAny2(r.Rand)
		m2 := sdf.Translate2D(p2(mv.X, mv.Y)).Mul(sdf.Rotate2D(t)).Mul(sdf.Scale2D(p2(k*u.X, k*u.Y)))
		at2 := func(p v2) v2 { return add2(p2(mv.X, mv.Y), rot2(p2(k*u.X*p.X, k*u.Y*p.Y), t)) }
		mi2, sh2 := m2.Inverse(), sdf.Transform2D(s2, m2)
		if got, want := m2.Determinant()/(k*k), u.X*u.Y; !near(got, want, 1e-9) {
			r.Failf("det2", "determinant of %s in the plane is %g instead of %g", d, m2.Determinant(), want*k*k)
		}
		for j := 0; j < 6; j++ {
			p := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			q := p2(p.X, p.Y)
			r.Ev(4)
			r.DistinctBits(7, k, p.X, p.Y)
			if got, want := mul3(1/k, m.MulPosition(p)), mul3(1/k, ref.at(p)); !near3(got, want, 1e-10) {
				r.Failf("map3", "%s maps %v to %v/%g instead of %v/%g", d, p, got, 1/k, want, 1/k)
			}
			if got := mi.MulPosition(ref.at(p)); !near3(got, p, 1e-9) {
				r.Failf("inverse3", "the inverse of a %s maps the image of %v to %v", d, p, got)
			}
			if got, want := sh.Evaluate(ref.at(p)), s.Evaluate(p); !near(got, want, 1e-6) {
				r.Failf("shape3", "a %s has %.17g at the image of %v, where it was %.17g", d, got, p, want)
			}
			if got, want := mul2(1/k, m2.MulPosition(q)), mul2(1/k, at2(q)); !near2(got, want, 1e-10) {
				r.Failf("map2", "in the plane, %s maps %v to %v/%g instead of %v/%g", d, q, got, 1/k, want, 1/k)
			}
			if got := mi2.MulPosition(at2(q)); !near2(got, q, 1e-9) {
				r.Failf("inverse2", "in the plane, the inverse of a %s maps the image of %v to %v", d, q, got)
			}
			if got, want := sh2.Evaluate(at2(q)), s2.Evaluate(q); !near(got, want, 1e-6) {
				r.Failf("shape2", "in the plane, a %s has %.17g at the image of %v, where it was %.17g", d, got, q, want)
			}
		}
	})
	c.Cases("scale", c.scale(10000, 100000), func(i int, r *R) {
		k := math.Pow(10, 4*r.Float64()-2)
		if r.Intn(3) == 0 {
			k = math.Pow(10, 14*r.Float64()-7)
		}
		s2, s3 := newAny2(r.Rand), newAny3(r.Rand)
		u2, u3 := sdf.ScaleUniform2D(s2, k), sdf.ScaleUniform3D(s3, k)
		ctr := mul2(0.5, add2(s2.Bounds().Min, s2.Bounds().Max))
		ce, cs := sdf.Center2D(s2), sdf.CenterAndScale2D(s2, k)
		if b := u2.Bounds(); !near2(mul2(1/k, b.Min), s2.Bounds().Min, 1e-12) || !near2(mul2(1/k, b.Max), s2.Bounds().Max, 1e-12) {
			r.Failf("scaleuniform2", "bounds %v of %v scaled by %g", b, s2.Bounds(), k)
		}
		if b := u3.Bounds(); !near3(mul3(1/k, b.Min), s3.Bounds().Min, 1e-12) || !near3(mul3(1/k, b.Max), s3.Bounds().Max, 1e-12) {
			r.Failf("scaleuniform3", "bounds %v of %v scaled by %g", b, s3.Bounds(), k)
		}
		if b := ce.Bounds(); !near2(mul2(0.5, add2(b.Min, b.Max)), v2{}, 1e-12) || !near2(sub2(b.Max, b.Min), sub2(s2.Bounds().Max, s2.Bounds().Min), 1e-12) {
			r.Failf("center2", "centred bounds %v of %v", b, s2.Bounds())
		}
		if b := cs.Bounds(); !near2(mul2(0.5/k, add2(b.Min, b.Max)), v2{}, 1e-12) || !near2(mul2(1/k, sub2(b.Max, b.Min)), sub2(s2.Bounds().Max, s2.Bounds().Min), 1e-12) {
			r.Failf("centerandscale2", "centred and scaled bounds %v of %v", b, s2.Bounds())
		}
		for j := 0; j < 6; j++ {
			p := p2(span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			q := p3(p.X, p.Y, span(r.Rand, -5, 5))
			r.Ev(4)
			r.DistinctBits(3, k, p.X, p.Y)
			if got, want := u2.Evaluate(mul2(k, p))/k, s2.Evaluate(p); !near(got, want, 1e-9) {
				r.Failf("scaleuniform2", "scaled by %g: %g instead of %g", k, got, want)
			}
			if got, want := u3.Evaluate(mul3(k, q))/k, s3.Evaluate(q); !near(got, want, 1e-9) {
				r.Failf("scaleuniform3", "scaled by %g: %g instead of %g", k, got, want)
			}
			if got, want := ce.Evaluate(sub2(p, ctr)), s2.Evaluate(p); !near(got, want, 1e-9) {
				r.Failf("center2", "centred: %g instead of %g", got, want)
			}
			if got, want := cs.Evaluate(mul2(k, sub2(p, ctr)))/k, s2.Evaluate(p); !near(got, want, 1e-9) {
				r.Failf("centerandscale2", "centred and scaled by %g: %g instead of %g", k, got, want)
			}
		}
	})
}
