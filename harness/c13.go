package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
)

func init() {
	register(&prop{id: "C13", level: "exploration", run: runC13,
		rule: "an evaluation of a shape at a hostile or random point, recorded and replayed later, distinct by the bits of point and value",
		assumptions: []string{
			"coordinates up to 1e100 in magnitude, less in scaled extrusions of scaled extrusions, whose coordinates overflow; shapes with a matrix that cannot be inverted and imported meshes with degenerate triangles are left out",
		}})
}

// hostile3 returns points where formulas tend to break.
func hostile3(r *R, b box3, n int) []v3 {
	var pts []v3
	c := mul3(0.5, add3(b.Min, b.Max))
	pts = append(pts, v3{}, c, b.Min, b.Max)
	pts = append(pts, corners3(b)...)
	vals := func(ax int) []float64 {
		lo, hi, mid := comp3(b.Min, ax), comp3(b.Max, ax), comp3(c, ax)
		return []float64{0, math.Copysign(0, -1), lo, hi, mid, -hi, 1, -1, 0.5 * (mid + hi), math.Nextafter(hi, 1e300), math.Nextafter(lo, -1e300), 1e-300, -1e-160, 5e-324, 1e6, -1e9, 1e100, -1e100, 1e50, lo + 0.1*(hi-lo)}
	}
	x, y, z := vals(0), vals(1), vals(2)
	for i := 0; i < n; i++ {
		p := p3(x[r.Intn(len(x))], y[r.Intn(len(y))], z[r.Intn(len(z))])
		switch r.Intn(5) {
		case 0:
			p = inBox3(r.Rand, b, 1)
		case 1:
			q := inBox3(r.Rand, b, 0.5)
			p = with3(q, r.Intn(3), 0)
		case 2:
			p = mul3(math.Pow(10, 100*r.Float64()), dir3(r.Rand))
		}
		pts = append(pts, p)
	}
	return pts
}

// shape is a 2D or 3D shape behind one face.
type shape struct {
	eval  func(v3) float64
	bound func() box3
	d     string
}

func shape3(s sdf.SDF3, d string) shape { return shape{s.Evaluate, s.Bounds, d} }
func shape2(s sdf.SDF2, d string) shape {
	return shape{func(p v3) float64 { return s.Evaluate(p2(p.X, p.Y)) }, func() box3 {
		b := s.Bounds()
		return box3{Min: p3(b.Min.X, b.Min.Y, 0), Max: p3(b.Max.X, b.Max.Y, 0)}
	}, d}
}

// evalLog is a log of evaluations.
type evalLog struct {
	s   shape
	pts []v3
	val []uint64
	b   box3
}

func recordLog(r *R, s shape, extra []v3, n int) *evalLog {
	l := &evalLog{s: s, b: s.bound()}
	l.pts = append(hostile3(r, l.b, n), extra...)
	// each scaled extrusion inside another squares coordinates
	if k := strings.Count(s.d, "ScaleExtrude(") + strings.Count(s.d, "ScaleTwistExtrude("); k > 1 {
		far := math.Pow(10, 100/math.Pow(2, float64(k-1)))
		for i, p := range l.pts {
			l.pts[i] = p3(clampf(p.X, -far, far), clampf(p.Y, -far, far), clampf(p.Z, -far, far))
		}
	}
	l.val = make([]uint64, len(l.pts))
	for i, p := range l.pts {
		v := l.one(r, p)
		l.val[i] = math.Float64bits(v)
		r.Ev(1)
		r.DistinctBits(13, p.X, p.Y, p.Z, v)
		if math.IsNaN(v) {
			r.Failf("nan", "NaN at %.17g of %s", p, s.d)
		}
		if v < 0 {
			r.Count("inside", 1)
		}
	}
	return l
}

func (l *evalLog) one(r *R, p v3) (v float64) {
	if a, bad := Panics(func() { v = l.s.eval(p) }); bad {
		if _, ok := a.(stopCase); ok {
			panic(a)
		}
		r.Fatalf("panic", "panic %v at %.17g of %s", a, p, l.s.d)
	}
	return v
}

// neighbour returns a point that could be mistaken for p by whatever remembers p.
func neighbour(r *R, p v3) v3 {
	switch r.Intn(7) {
	case 0:
		return mul3(1-math.Pow(10, -1-15*r.Float64()), p)
	case 1:
		ax := r.Intn(3)
		return with3(p, ax, -comp3(p, ax))
	case 2:
		return p3(p.Y, p.X, p.Z)
	case 3:
		return p3(p.X, p.Z, p.Y)
	case 4:
		return with3(p, r.Intn(3), span(r.Rand, -1, 1))
	case 5:
		d := math.Pow(10, -12+12*r.Float64())
		if far := math.Max(math.Abs(p.X), math.Max(math.Abs(p.Y), math.Abs(p.Z))); far > 1e6 {
			d = 0
		}
		return add3(p, mul3(d, dir3(r.Rand)))
	}
	return mul3(-1, p)
}

// replay evaluates the log again in another order.
func (l *evalLog) replay(r *R, what string) {
	order := r.Perm(len(l.pts))
	for _, i := range order {
		for k := 0; k < 1+r.Intn(2); k++ {
			if r.Intn(3) == 0 {
				l.one(r, neighbour(r, l.pts[i]))
			}
			if v := l.one(r, l.pts[i]); math.Float64bits(v) != l.val[i] {
				r.Fatalf("changed", "value at %.17g was %.17g and is %.17g %s, of %s", l.pts[i], math.Float64frombits(l.val[i]), v, what, l.s.d)
			}
			r.Ev(1)
		}
	}
	if b := l.s.bound(); b != l.b {
		r.Failf("bounds-changed", "bounds were %v and are %v %s, of %s", l.b, b, what, l.s.d)
	}
	r.Count("replays", 1)
}

func runC13(c *C) {
	c.Cases("compose3", c.scale(12000, 200000), func(i int, r *R) {
		g := newGen(r)
		n := g.node3(i % 5)
		l := recordLog(r, shape3(n.s, n.d), nil, 60)
		l.replay(r, "in another order")
		// further shapes from the same part
		m := g.node3(1)
		u := sdf.Union3D(n.s, m.s, n.s)
		u.SetMin(sdf.MinPoly(2, 1))
		d := sdf.Difference3D(m.s, n.s)
		d.SetMax(sdf.MaxPoly(2, 1))
		ar := sdf.Array3D(n.s, sdf.V3i{2, 1, 1}, p3(1, 2, 3))
		ar.SetMin(sdf.MinRound(0.5))
		more := []sdf.SDF3{u, d, ar, sdf.Offset3D(n.s, 0.5), sdf.Shell3D(n.s, 0.5), sdf.Transform3D(n.s, sdf.RotateX(1)), sdf.Elongate3D(n.s, p3(1, 0, 0)),
			sdf.Cut3D(n.s, v3{}, p3(1, 1, 0)), sdf.RotateCopy3D(n.s, 3), sdf.ScaleUniform3D(n.s, 2), matter.PLA.Scale(n.s)}
		for _, s := range more {
			recordLog(r, shape3(s, fmt.Sprintf("%T of %s", s, n.d)), nil, 12).replay(r, "in another order")
		}
		sl := sdf.Slice2D(n.s, p3(0.1, 0.2, 0.3), p3(1, 2, 0))
		recordLog(r, shape2(sl, "slice of "+n.d), nil, 12)
		l.replay(r, "after building further shapes from it")
		r.Sample("%.120s", n.d)
	})
	c.Cases("compose2", c.scale(12000, 200000), func(i int, r *R) {
		g := newGen(r)
		n := g.node2(i % 5)
		l := recordLog(r, shape2(n.s, n.d), nil, 60)
		l.replay(r, "in another order")
		m := g.node2(1)
		u := sdf.Union2D(n.s, m.s, n.s)
		u.SetMin(sdf.MinPoly(2, 1))
		d := sdf.Difference2D(m.s, n.s)
		d.SetMax(sdf.MaxPoly(2, 1))
		for _, s := range []sdf.SDF2{u, d, sdf.Offset2D(n.s, 0.5), sdf.Transform2D(n.s, sdf.Rotate2D(1)), sdf.Elongate2D(n.s, p2(1, 0)), sdf.Cut2D(n.s, v2{}, p2(1, 1)),
			sdf.RotateCopy2D(n.s, 3), sdf.Center2D(n.s), sdf.CenterAndScale2D(n.s, 2), sdf.Union2D(n.s, m.s)} {
			recordLog(r, shape2(s, fmt.Sprintf("%T of %s", s, n.d)), nil, 12).replay(r, "in another order")
		}
		for _, s := range []sdf.SDF3{sdf.Extrude3D(n.s, 1), sdf.TwistExtrude3D(n.s, 2, 1), sdf.Revolve3D(n.s, 4), sdf.ExtrudeRounded3D(n.s, 1, 0.25), sdf.Loft3D(n.s, m.s, 1, 0.5), sdf.Loft3D(m.s, n.s, 2, 0.25)} {
			recordLog(r, shape3(s, fmt.Sprintf("%T of %s", s, n.d)), nil, 12).replay(r, "in another order")
		}
		l.replay(r, "after building further shapes from it")
		r.Sample("%.120s", n.d)
	})
	// blends are neither associative nor commutative in their last digits:
	// members have to keep their order
	c.Cases("blend", c.scale(2500, 40000), func(i int, r *R) {
		g := newGen(r)
		var m2 []sdf.SDF2
		var m3 []sdf.SDF3
		d := ""
		for j := 2 + r.Intn(6); j > 0; j-- {
			n2, n3 := g.node2(r.Intn(2)), g.node3(r.Intn(2))
			m2, m3 = append(m2, n2.s), append(m3, n3.s)
			d += n2.d + ", " + n3.d + "; "
		}
		k := span(r.Rand, 0.1, 3)
		min, name := sdf.MinPoly(2+r.Intn(3), k), "MinPoly"
		switch r.Intn(5) {
		case 0:
			min, name = sdf.MinRound(k), "MinRound"
		case 1:
			min, name = sdf.MinExp(span(r.Rand, 1, 32)), "MinExp"
		case 2:
			min, name = sdf.MinPow(span(r.Rand, 1, 8)), "MinPow"
		case 3:
			min, name = func(a, b float64) float64 { return math.Min(a, b+0.01) }, "an asymmetric minimum"
		}
		if name == "MinPow" || name == "MinExp" {
			// these have no value for some distances
			min = func(f sdf.MinFunc) sdf.MinFunc {
				return func(a, b float64) float64 {
					if v := f(math.Abs(a), math.Abs(b)+1); !math.IsNaN(v) {
						return v
					}
					return math.Min(a, b)
				}
			}(min)
		}
		u2, u3 := sdf.Union2D(m2...), sdf.Union3D(m3...)
		a3 := sdf.Array3D(m3[0], sdf.V3i{1 + r.Intn(3), 1 + r.Intn(2), 1 + r.Intn(2)}, p3(span(r.Rand, -2, 2), 1, 0.5))
		r3 := sdf.RotateUnion3D(m3[1], 1+r.Intn(5), sdf.RotateZ(angle(r.Rand)))
		for _, u := range []sdf.SDF2Union{u2, sdf.Array2D(m2[0], sdf.V2i{1 + r.Intn(3), 1 + r.Intn(3)}, p2(1, -0.5))} {
			u.SetMin(min)
			recordLog(r, shape2(u, fmt.Sprintf("%T with %s of %s", u, name, d)), nil, 24).replay(r, "in another order")
		}
		for _, u := range []sdf.SDF3Union{u3, a3, r3} {
			u.SetMin(min)
			recordLog(r, shape3(u, fmt.Sprintf("%T with %s of %s", u, name, d)), nil, 24).replay(r, "in another order")
		}
		max := func(a, b float64) float64 { return -min(-a, -b) }
		for _, u := range []sdf.SDF3Diff{sdf.Difference3D(u3, m3[0]), sdf.Intersect3D(a3, m3[1])} {
			u.SetMax(max)
			recordLog(r, shape3(u, fmt.Sprintf("%T with %s of %s", u, name, d)), nil, 24).replay(r, "in another order")
		}
	})
	// operations on shapes that are nowhere inside
	c.Cases("nothing", c.scale(1500, 20000), func(i int, r *R) {
		g := newGen(r)
		n2, n3 := g.node2(1), g.node3(1)
		e2 := []sdf.SDF2{sdf.Array2D(n2.s, sdf.V2i{0, 1}, p2(1, 1)), sdf.RotateUnion2D(n2.s, 0, sdf.Rotate2D(1)), sdf.LineOf2D(n2.s, v2{}, p2(1, 1), "..")}[r.Intn(3)]
		e3 := []sdf.SDF3{sdf.Array3D(n3.s, sdf.V3i{1, 0, 1}, p3(1, 1, 1)), sdf.RotateUnion3D(n3.s, 0, sdf.RotateX(1)), sdf.LineOf3D(n3.s, v3{}, p3(1, 1, 1), ".."),
			sdf.Multi3D(n3.s, nil), sdf.Shell3D(n3.s, 0), sdf.Orient3D(n3.s, p3(0, 0, 1), nil)}[r.Intn(6)]
		a2, b2, a3, b3 := e2, n2.s, e3, n3.s
		if r.Intn(2) == 0 {
			a2, b2, a3, b3 = b2, a2, b3, a3
		}
		if r.Intn(6) == 0 {
			a2, b2, a3, b3 = e2, e2, e3, e3
		}
		h := span(r.Rand, 0.5, 4)
		rd := h / 2 * float64(r.Intn(3)) / 2
		for _, s := range []sdf.SDF3{e3, sdf.Loft3D(a2, b2, h, rd), sdf.Extrude3D(e2, h), sdf.TwistExtrude3D(e2, h, 1), sdf.ScaleExtrude3D(e2, h, p2(2, 3)), sdf.ScaleTwistExtrude3D(e2, h, 1, p2(2, 3)),
			sdf.ExtrudeRounded3D(e2, h, rd), sdf.Revolve3D(e2, 1+r.Float64()*6), sdf.Union3D(a3, b3), sdf.Difference3D(a3, b3), sdf.Intersect3D(a3, b3), sdf.Cut3D(e3, v3{}, p3(1, 1, 1)),
			sdf.Transform3D(e3, sdf.RotateX(1)), sdf.ScaleUniform3D(e3, 0.5), sdf.Offset3D(e3, 1), sdf.Offset3D(e3, -1), sdf.Shell3D(e3, 0.5), sdf.Elongate3D(e3, p3(1, 2, 0)), sdf.RotateCopy3D(e3, 3),
			sdf.Array3D(e3, sdf.V3i{2, 1, 1}, p3(1, 2, 3)), sdf.RotateUnion3D(e3, 2, sdf.RotateX(1)), sdf.LineOf3D(e3, v3{}, p3(1, 1, 1), "xx"), sdf.Multi3D(e3, []v3{{}, {X: 1}}), matter.PLA.Scale(e3)} {
			l := recordLog(r, shape3(s, fmt.Sprintf("%T of %T and %T or %T and %T", s, a3, b3, a2, b2)), nil, 12)
			l.replay(r, "in another order")
		}
		for _, s := range []sdf.SDF2{e2, sdf.Union2D(a2, b2), sdf.Difference2D(a2, b2), sdf.Intersect2D(a2, b2), sdf.Cut2D(e2, v2{}, p2(1, 1)), sdf.Transform2D(e2, sdf.Rotate2D(1)),
			sdf.ScaleUniform2D(e2, 0.5), sdf.Offset2D(e2, 1), sdf.Offset2D(e2, -1), sdf.Elongate2D(e2, p2(1, 0)), sdf.RotateCopy2D(e2, 3), sdf.Array2D(e2, sdf.V2i{2, 1}, p2(1, 2)),
			sdf.Center2D(e2), sdf.CenterAndScale2D(e2, 0.5), sdf.Slice2D(e3, v3{}, p3(1, 2, 3)), sdf.Multi2D(e2, []v2{{}, {X: 1}})} {
			l := recordLog(r, shape2(s, fmt.Sprintf("%T of %T and %T or %T", s, a2, b2, e3)), nil, 12)
			l.replay(r, "in another order")
		}
	})
	// every simple shape at the points that its own sizes name
	c.Cases("features", c.scale(6000, 100000), func(i int, r *R) {
		g := newGen(r)
		var s shape
		var pts []v3
		ring := func(rad, z float64) {
			for k := 0; k < 8; k++ {
				sn, cs := math.Sincos(float64(k) * math.Pi / 4)
				pts = append(pts, p3(rad*cs, rad*sn, z))
			}
			pts = append(pts, p3(rad, 0, z), p3(0, rad, z), p3(-rad, 0, z), p3(0, 0, z))
		}
		switch i % 10 {
		case 0:
			h, r0, r1, rd := g.coneArgs()
			s = shape3(must3.Cone(h, r0, r1, rd), fmt.Sprintf("Cone(%v,%v,%v,%v)", h, r0, r1, rd))
			for _, z := range []float64{-h / 2, h / 2, 0, h/2 - rd, rd - h/2} {
				ring(r0, z)
				ring(r1, z)
				ring(0, z)
			}
		case 1:
			h, rad := span(r.Rand, 0.5, 4), span(r.Rand, 0.25, 2)
			rd := math.Min(h/2, rad) * float64(r.Intn(3)) / 2
			s = shape3(must3.Cylinder(h, rad, rd), fmt.Sprintf("Cylinder(%v,%v,%v)", h, rad, rd))
			for _, z := range []float64{-h / 2, h / 2, 0, h/2 - rd, rd - h/2} {
				ring(rad, z)
				ring(rad-rd, z)
			}
		case 2:
			v := g.simplePoly()
			s = shape2(must2.Polygon(v), fmt.Sprintf("Polygon(%v)", v))
			for k, q := range v {
				pts = append(pts, p3(q.X, q.Y, 0), p3(q.X, 0, 0), p3(0, q.Y, 0))
				n := v[(k+1)%len(v)]
				for _, t := range []float64{0.5, -1, 2, 1e-9} {
					w := add2(q, mul2(t, sub2(n, q)))
					pts = append(pts, p3(w.X, w.Y, 0))
				}
			}
		case 3:
			sz := p3(span(r.Rand, 0.5, 4), span(r.Rand, 0.5, 4), span(r.Rand, 0.5, 4))
			rd := math.Min(sz.X, math.Min(sz.Y, sz.Z)) * float64(r.Intn(3)) / 4
			s = shape3(must3.Box(sz, rd), fmt.Sprintf("Box(%v,%v)", sz, rd))
			for _, q := range corners3(box3{Min: mul3(-0.5, sz), Max: mul3(0.5, sz)}) {
				pts = append(pts, q, with3(q, r.Intn(3), 0), mul3(1-2*rd/sz.X, q))
			}
		case 4:
			th := g.threader()
			l := span(r.Rand, 1, 9)
			b, err := thread.Screw(l, th)
			s = shape3(ok3(r, b, err), fmt.Sprintf("Screw(%v,%+v)", l, th))
			p := th.ThreadParams()
			for _, z := range []float64{-l / 2, l / 2, 0, p.Pitch / 2, -p.Pitch / 2, p.Pitch} {
				ring(p.Radius, z)
				ring(p.Radius-p.Pitch, z)
			}
		case 5:
			p := g.standoffParams(true)
			b, err := obj3.Standoff(p)
			s = shape3(ok3(r, b, err), fmt.Sprintf("Standoff(%+v)", p))
			for _, z := range []float64{-p.PillarHeight / 2, p.PillarHeight / 2, 0} {
				ring(p.PillarDiameter/2, z)
				ring(p.HoleDiameter/2, z)
				ring(p.WebDiameter/2, z)
			}
		case 6:
			p := g.panelParams()
			b, err := obj2.Panel(p)
			s = shape2(ok2(r, b, err), fmt.Sprintf("Panel(%+v)", p))
		case 7:
			k := 2 + r.Intn(7)
			m := g.node3(1)
			s = shape3(sdf.RotateCopy3D(m.s, k), fmt.Sprintf("RotateCopy(%s,%d)", m.d, k))
			for j := 0; j < 2*k; j++ {
				sn, cs := math.Sincos(float64(j) * math.Pi / float64(k))
				pts = append(pts, p3(cs, sn, 0), p3(2*cs, 2*sn, 1))
			}
		case 8:
			m := g.node2(1)
			th := []float64{2 * math.Pi, math.Pi, math.Pi / 2, 3 * math.Pi / 2, 1, 5, 4 * math.Pi, 1e-12, 7}[r.Intn(9)]
			s = shape3(sdf.Revolve3D(m.s, th), fmt.Sprintf("Revolve(%s,%v)", m.d, th))
			sn, cs := math.Sincos(th)
			pts = append(pts, p3(cs, sn, 0), p3(1, 0, 0), p3(2*cs, 2*sn, 1), p3(0, 0, 1), p3(-cs, -sn, 0))
		case 9:
			a, b := g.node2(1), g.node2(1)
			h := span(r.Rand, 0.5, 3)
			rd := h / 2 * float64(r.Intn(3)) / 2
			s = shape3(sdf.Loft3D(a.s, b.s, h, rd), fmt.Sprintf("Loft(%s,%s,%v,%v)", a.d, b.d, h, rd))
			for _, z := range []float64{-h / 2, h / 2, 0, h/2 - rd, rd - h/2} {
				pts = append(pts, p3(0, 0, z), p3(1, 0, z), p3(0.5, 0.25, z))
			}
		}
		l := recordLog(r, s, pts, 80)
		l.replay(r, "in another order")
	})
	// many evaluations near each other, as in a rendering, and again in other orders
	c.Cases("long", c.scale(240, 4000), func(i int, r *R) {
		g := newGen(r)
		var s shape
		switch i % 8 {
		case 0, 1:
			n := g.node3(1 + r.Intn(4))
			s = shape3(n.s, n.d)
		case 2, 3:
			n := g.node2(1 + r.Intn(4))
			s = shape2(n.s, n.d)
		case 4:
			th, ln := g.threader(), span(r.Rand, 1, 9)
			b, err := thread.Screw(ln, th)
			s = shape3(ok3(r, b, err), fmt.Sprintf("Screw(%v,%+v)", ln, th))
		case 5:
			a, b := g.node2(1), g.node2(1)
			s = []shape{shape3(sdf.Loft3D(a.s, b.s, 2, 0.25), "Loft"), shape3(sdf.TwistExtrude3D(a.s, 2, 1.5), "TwistExtrude"), shape3(sdf.Revolve3D(a.s, 5), "Revolve"), shape3(sdf.ScaleTwistExtrude3D(a.s, 2, 1, p2(0.5, 2)), "ScaleTwist")}[r.Intn(4)]
			s.d += " of " + a.d + " and " + b.d
		default:
			m, d := meshSolid(r.Rand, 300)
			m, e := place(r.Rand, m)
			var b sdf.SDF3
			var err error
			if i%8 == 6 {
				b, err = sdfexp.ImportModel(m.tris(), 0)
			} else {
				b, err = sdfexp.ImportModelV2(m.tris(), 0)
			}
			s = shape3(ok3(r, b, err), "import of "+d+" "+e)
		}
		b := s.bound()
		sz := sub3(b.Max, b.Min)
		var extra []v3
		for k := 0; k < 40; k++ {
			c := inBox3(r.Rand, b, 0.2)
			step := mul3(math.Pow(10, -6+5*r.Float64()), sz)
			for j := 0; j < 150; j++ {
				switch k % 4 {
				case 0: // rows
					extra = append(extra, p3(c.X+float64(j%25)*step.X, c.Y+float64(j/25)*step.Y, c.Z))
				case 1: // a cube
					extra = append(extra, p3(c.X+float64(j%5)*step.X, c.Y+float64(j/5%5)*step.Y, c.Z+float64(j/25)*step.Z))
				case 2: // a cloud
					extra = append(extra, p3(c.X+step.X*r.NormFloat64(), c.Y+step.Y*r.NormFloat64(), c.Z+step.Z*r.NormFloat64()))
				case 3:
					extra = append(extra, inBox3(r.Rand, b, 0.5))
				}
			}
		}
		l := recordLog(r, s, extra, 200)
		l.replay(r, "in another order")
		l.replay(r, "in a third order")
		r.Sample("long %.120s", s.d)
	})
	// the slices parts were given in are changed afterwards
	c.Cases("slices", c.scale(4000, 60000), func(i int, r *R) {
		g := newGen(r)
		var l *evalLog
		var change func()
		a3, b3, c3 := g.node3(1), g.node3(1), g.node3(0)
		a2, b2, c2 := g.node2(1), g.node2(1), g.node2(0)
		pos2 := func() []v2 {
			var p []v2
			for k := 0; k < 2+r.Intn(3); k++ {
				p = append(p, p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4)))
			}
			return p
		}
		pos3 := func() []v3 {
			var p []v3
			for k := 0; k < 2+r.Intn(3); k++ {
				p = append(p, p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4)))
			}
			return p
		}
		scramble2 := func(p []v2) func() {
			return func() {
				for i := range p {
					p[i] = p2(7*r.Float64(), -5*r.Float64())
				}
			}
		}
		scramble3 := func(p []v3) func() {
			return func() {
				for i := range p {
					p[i] = p3(7*r.Float64(), -5*r.Float64(), 9)
				}
			}
		}
		switch i % 11 {
		case 0:
			s := []sdf.SDF3{a3.s, b3.s, c3.s}
			l, change = recordLog(r, shape3(sdf.Union3D(s...), "Union3D"), nil, 40), func() { s[0], s[1], s[2] = c3.s, c3.s, must3.Sphere(50) }
		case 1:
			s := []sdf.SDF2{a2.s, b2.s, c2.s}
			l, change = recordLog(r, shape2(sdf.Union2D(s...), "Union2D"), nil, 40), func() { s[0], s[1], s[2] = c2.s, c2.s, must2.Circle(50) }
		case 2:
			p := pos2()
			l, change = recordLog(r, shape2(sdf.Multi2D(a2.s, p), "Multi2D"), nil, 40), scramble2(p)
		case 3:
			p := pos3()
			l, change = recordLog(r, shape3(sdf.Multi3D(a3.s, p), "Multi3D"), nil, 40), scramble3(p)
		case 4:
			p := pos3()
			l, change = recordLog(r, shape3(sdf.Orient3D(a3.s, p3(0, 0, 1), p), "Orient3D"), nil, 40), scramble3(p)
		case 5:
			v := g.simplePoly()
			if r.Intn(2) == 0 {
				v = append(v, v[0])
			}
			s, err := form2.Polygon(v)
			l, change = recordLog(r, shape2(ok2(r, s, err), "Polygon"), nil, 40), scramble2(v)
		case 6:
			v := g.simplePoly()
			l, change = recordLog(r, shape2(must2.Polygon(v), "must2.Polygon"), nil, 40), scramble2(v)
		case 7, 8:
			m, d := meshSolid(r.Rand, 300)
			m, e := place(r.Rand, m)
			t := m.tris()
			var s sdf.SDF3
			var err error
			if i%11 == 7 {
				s, err = sdfexp.ImportModel(t, 0)
			} else {
				s, err = sdfexp.ImportModelV2(t, 0)
			}
			l, change = recordLog(r, shape3(ok3(r, s, err), "import of "+d+" "+e), m.v[:minInt(8, len(m.v))], 40), func() {
				for i := range t {
					t[i] = tri3{p3(1, 2, 3), p3(4, 5, 6), p3(-1, 0, 1)}
				}
			}
		case 9:
			p := g.holeParams()
			s, err := obj3.PanelHole(&p)
			l, change = recordLog(r, shape3(ok3(r, s, err), "PanelHole"), nil, 40), func() { p = obj3.PanelHoleParams{Diameter: 100, Thickness: 100} }
		case 10:
			p := must2.NewPolygon()
			for _, v := range g.simplePoly() {
				p.Add(v.X, v.Y)
			}
			s := must2.Polygon(p.Vertices())
			l, change = recordLog(r, shape2(s, "Polygon of a builder"), nil, 40), func() {
				p.Add(30, 30)
				p.Add(-30, 10).Smooth(1, 3)
				p.Close()
				for _, q := range []([]v2){p.Vertices(), p.Vertices()} {
					for i := range q {
						q[i] = p2(99, 99)
					}
				}
			}
		}
		change()
		l.replay(r, "after the arguments changed")
		r.Count("argument changes", 1)
	})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
