package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
)

// args are arguments each of which takes one draw, so that siblings differ in
// one argument.
type args struct {
	*R
	d string
}

// f is one of a few numbers, or a number next to one of them.
func (a *args) f(lo, hi float64) float64 {
	v := a.Int63()
	x := float64(v>>3%5) / 4
	if v&7 == 7 {
		e := math.Pow(2, -1-float64(v>>8%45))
		if x > 0.5 {
			e = -e
		}
		x += e / 4
	}
	x = lo + (hi-lo)*x
	a.d += fmt.Sprintf(" %.17g", x)
	return x
}

// n is from lo to hi.
func (a *args) n(lo, hi int) int {
	k := lo + int(a.Int63()>>4%int64(hi-lo+1))
	a.d += fmt.Sprintf(" %d", k)
	return k
}
func (a *args) s(l ...string) string {
	k := l[a.Int63()>>4%int64(len(l))]
	a.d += fmt.Sprintf(" %q", k)
	return k
}
func (a *args) v2(lo, hi float64) v2 { return p2(a.f(lo, hi), a.f(lo, hi)) }
func (a *args) v3(lo, hi float64) v3 { return p3(a.f(lo, hi), a.f(lo, hi), a.f(lo, hi)) }

func (a *args) thread() thread.Threader {
	which := a.n(0, 6)
	d, p := a.f(4, 12), a.f(0.4, 1)
	ext, n := a.n(0, 1) == 1, a.n(1, 3)
	switch which {
	case 0, 1:
		return thread.ISO{D: d, P: p, Ext: ext}
	case 2:
		return thread.Acme{D: d, P: p}
	case 3:
		return thread.ANSIButtress{D: d, P: p}
	case 4:
		return thread.PlasticButtress{D: d, P: p}
	case 5:
		return thread.UTS{D: d, TPI: 1 / p, Ext: ext}
	}
	return customThread{d, p, n, 0.01 * float64(n-1)}
}

// plain2 and plain3 are simple shapes with one argument or two.
func (a *args) plain2() sdf.SDF2 {
	if a.n(0, 1) == 0 {
		return must2.Box(p2(a.f(1, 3), 1), 0.25)
	}
	return sdf.Transform2D(must2.Circle(a.f(0.5, 2)), sdf.Translate2D(p2(0.25, 0.5)))
}
func (a *args) plain3() sdf.SDF3 {
	if a.n(0, 1) == 0 {
		return must3.Box(p3(a.f(1, 3), 1, 2), 0.25)
	}
	return sdf.Transform3D(must3.Cylinder(a.f(1, 3), 1, 0.125), sdf.Translate3D(p3(0.25, 0.5, 1)))
}

type call3 struct {
	name string
	f    func(a *args) (sdf.SDF3, error)
}
type call2 struct {
	name string
	f    func(a *args) (sdf.SDF2, error)
}

func init() {
	ok := func(s sdf.SDF3) (sdf.SDF3, error) { return s, nil }
	flat := func(s sdf.SDF2) (sdf.SDF2, error) { return s, nil }
	for _, k := range []call3{
		{"Standoff", func(a *args) (sdf.SDF3, error) {
			return obj3.Standoff(obj3.StandoffParams{PillarHeight: a.f(4, 10), PillarDiameter: a.f(2, 4), HoleDepth: a.f(-4, 4), HoleDiameter: a.f(0.5, 1.5),
				NumberWebs: a.n(0, 4), WebHeight: a.f(1, 4), WebDiameter: a.f(4, 8), WebWidth: a.f(0.5, 2)})
		}},
		{"Knurl", func(a *args) (sdf.SDF3, error) {
			return thread.Knurl(thread.KnurlParams{Length: a.f(2, 6), Radius: a.f(1, 3), Pitch: a.f(0.2, 0.5), Height: a.f(0.05, 0.2), Theta: a.f(0.4, 1)})
		}},
		{"KnurledHead", func(a *args) (sdf.SDF3, error) { return thread.KnurledHead(a.f(1, 3), a.f(2, 4), a.f(0.2, 0.5)) }},
		{"HexHead", func(a *args) (sdf.SDF3, error) {
			return thread.HexHead(a.f(1, 3), a.f(1, 3), a.s("", "t", "b", "tb"))
		}},
		{"Panel", func(a *args) (sdf.SDF3, error) {
			return obj3.Panel(obj2.PanelParams{Size: a.v2(8, 16), CornerRadius: a.f(0, 2), HoleDiameter: a.f(0, 1), HoleMargin: [4]float64{a.f(1, 2), a.f(1, 2), a.f(1, 2), a.f(1, 2)},
				HolePattern: [4]string{a.s("x", "x.x"), a.s("", "xx"), a.s("x", ".x"), a.s("", "x")}, Thickness: a.f(1, 3)})
		}},
		{"EuroRackPanel", func(a *args) (sdf.SDF3, error) {
			return obj3.EuroRackPanel(obj2.EuroRackParams{U: float64(a.n(1, 4)), HP: float64(a.n(4, 12)), CornerRadius: a.f(0, 2), HoleDiameter: a.f(0, 4), Thickness: a.f(1, 3), Ridge: a.n(0, 1) == 1})
		}},
		{"PanelHole", func(a *args) (sdf.SDF3, error) {
			p := obj3.PanelHoleParams{Diameter: a.f(1, 3), Thickness: a.f(1, 3), Indent: a.v3(0.25, 1), Offset: a.f(0, 3), Orientation: a.f(0, 4)}
			was := p
			s, err := obj3.PanelHole(&p)
			if err == nil && p != was {
				err = fmt.Errorf("parameters changed from %+v to %+v", was, p)
			}
			return s, err
		}},
		{"Box", func(a *args) (sdf.SDF3, error) { return form3.Box(a.v3(1, 4), a.f(0, 0.5)) }},
		{"Sphere", func(a *args) (sdf.SDF3, error) { return form3.Sphere(a.f(1, 4)) }},
		{"Cylinder", func(a *args) (sdf.SDF3, error) { return form3.Cylinder(a.f(1, 4), a.f(1, 4), a.f(0, 0.5)) }},
		{"Capsule", func(a *args) (sdf.SDF3, error) { return form3.Capsule(a.f(4, 8), a.f(0.5, 1.5)) }},
		{"Cone", func(a *args) (sdf.SDF3, error) { return form3.Cone(a.f(4, 8), a.f(1, 3), a.f(1, 3), a.f(0, 0.5)) }},
		{"ChamferedCylinder", func(a *args) (sdf.SDF3, error) {
			return form3.ChamferedCylinder(must3.Cylinder(a.f(2, 4), a.f(1, 2), 0), a.f(0, 0.4), a.f(0, 0.4))
		}},
		{"Extrude3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Extrude3D(a.plain2(), a.f(1, 4))) }},
		{"TwistExtrude3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.TwistExtrude3D(a.plain2(), a.f(1, 4), a.f(-4, 4))) }},
		{"ScaleExtrude3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.ScaleExtrude3D(a.plain2(), a.f(1, 4), a.v2(0.5, 2))) }},
		{"ScaleTwistExtrude3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.ScaleTwistExtrude3D(a.plain2(), a.f(1, 4), a.f(-4, 4), a.v2(0.5, 2)))
		}},
		{"ExtrudeRounded3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.ExtrudeRounded3D(a.plain2(), a.f(2, 4), a.f(0, 0.5))) }},
		{"Loft3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.Loft3D(a.plain2(), a.plain2(), a.f(2, 4), a.f(0, 0.5)))
		}},
		{"Revolve3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.Revolve3D(sdf.Transform2D(a.plain2(), sdf.Translate2D(p2(a.f(2, 4), 0))), a.f(0, 6)))
		}},
		{"Screw", func(a *args) (sdf.SDF3, error) { return thread.Screw(a.f(2, 8), a.thread()) }},
		{"Screw again", func(a *args) (sdf.SDF3, error) { return thread.Screw(a.f(2, 8), a.thread()) }},
		{"Bolt", func(a *args) (sdf.SDF3, error) {
			return thread.Bolt(thread.BoltParms{Thread: a.thread(), Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[a.n(0, 1)], Tolerance: a.f(0, 0.2), TotalLength: a.f(8, 16), ShankLength: a.f(0, 4)})
		}},
		{"Nut", func(a *args) (sdf.SDF3, error) {
			return thread.Nut(thread.NutParms{Thread: a.thread(), Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular}[a.n(0, 2)], Tolerance: a.f(0, 0.2)})
		}},
		{"Transform3D", func(a *args) (sdf.SDF3, error) {
			m := sdf.Translate3D(a.v3(-2, 2)).Mul(sdf.Scale3D(a.v3(0.5, 2)))
			switch a.n(0, 4) {
			case 0:
				m = m.Mul(sdf.RotateX(a.f(0, 6)))
			case 1:
				m = m.Mul(sdf.RotateY(a.f(0, 6)))
			case 2:
				m = m.Mul(sdf.RotateZ(a.f(0, 6)))
			case 3:
				m = m.Mul(sdf.Rotate3D(a.v3(0.25, 2), a.f(0, 6)))
			case 4:
				m = m.Mul(sdf.MirrorXeqY())
			}
			return ok(sdf.Transform3D(a.plain3(), m))
		}},
		{"ScaleUniform3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.ScaleUniform3D(a.plain3(), a.f(0.5, 3))) }},
		{"Array3D", func(a *args) (sdf.SDF3, error) {
			s := sdf.Array3D(a.plain3(), sdf.V3i{a.n(1, 3), a.n(1, 3), a.n(1, 3)}, a.v3(-4, 4))
			s.SetMin(sdf.MinPoly(2, a.f(0.1, 1)))
			return s, nil
		}},
		{"RotateUnion3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.RotateUnion3D(a.plain3(), a.n(1, 6), sdf.RotateZ(a.f(0, 2)).Mul(sdf.Translate3D(p3(0, 0, a.f(0, 1))))))
		}},
		{"RotateCopy3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.RotateCopy3D(sdf.Transform3D(a.plain3(), sdf.Translate3D(p3(a.f(1, 4), 0, 0))), a.n(1, 6)))
		}},
		{"LineOf3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.LineOf3D(a.plain3(), a.v3(-4, 4), a.v3(-4, 4), a.s("x", "xx", "x.x", "..x")))
		}},
		{"Multi3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Multi3D(a.plain3(), []v3{a.v3(-4, 4), a.v3(-4, 4)})) }},
		{"Orient3D", func(a *args) (sdf.SDF3, error) {
			return ok(sdf.Orient3D(a.plain3(), a.v3(0.5, 2), []v3{a.v3(0.5, 2), a.v3(-2, -0.5)}))
		}},
		{"Elongate3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Elongate3D(a.plain3(), a.v3(0, 2))) }},
		{"Offset3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Offset3D(a.plain3(), a.f(0.1, 1))) }},
		{"Shell3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Shell3D(a.plain3(), a.f(0.1, 0.5))) }},
		{"Cut3D", func(a *args) (sdf.SDF3, error) { return ok(sdf.Cut3D(a.plain3(), a.v3(-1, 1), a.v3(0.5, 1))) }},
		{"booleans", func(a *args) (sdf.SDF3, error) {
			x, y := a.plain3(), a.plain3()
			u, d, i := sdf.Union3D(x, y), sdf.Difference3D(x, y), sdf.Intersect3D(x, y)
			u.SetMin([]sdf.MinFunc{sdf.MinRound(a.f(0.1, 1)), sdf.MinExp(a.f(1, 30)), sdf.MinPow(a.f(2, 10)), sdf.MinPoly(a.n(0, 5), a.f(0.1, 1))}[a.n(0, 3)])
			d.SetMax(sdf.MaxPoly(a.n(0, 5), a.f(0.1, 1)))
			return ok(sdf.Union3D(sdf.Transform3D(u, sdf.Translate3D(p3(6, 0, 0))), sdf.Transform3D(d, sdf.Translate3D(p3(-6, 0, 0))), sdf.Transform3D(i, sdf.Translate3D(p3(0, 6, 0)))))
		}},
	} {
		k := k
		historyKinds = append(historyKinds, historyKind{k.name, 9, func(r *R, seed int64) thing {
			a := &args{R: r}
			s, err := k.f(a)
			return made3(ok3(r, s, err), k.name+a.d, seed)
		}})
	}
	for _, k := range []call2{
		{"Circle", func(a *args) (sdf.SDF2, error) { return form2.Circle(a.f(1, 3)) }},
		{"Box2", func(a *args) (sdf.SDF2, error) { return form2.Box(a.v2(1, 4), a.f(0, 0.5)) }},
		{"Line", func(a *args) (sdf.SDF2, error) { return form2.Line(a.f(1, 4), a.f(0, 0.5)) }},
		{"Nagon", func(a *args) (sdf.SDF2, error) {
			v, err := form2.Nagon(a.n(3, 8), a.f(1, 3))
			if err != nil {
				return nil, err
			}
			w := append([]v2(nil), v...)
			for i := range v { // it is the caller's
				v[i] = p2(math.NaN(), 1e9)
			}
			return form2.Polygon(w)
		}},
		{"Polygon", func(a *args) (sdf.SDF2, error) {
			v := make([]v2, 7)
			for i := range v {
				s, c := math.Sincos(2 * math.Pi * float64(i) / float64(len(v)))
				v[i] = p2(a.f(1, 2)*c, 2*s)
			}
			p, err := form2.Polygon(v[:5+a.n(0, 2)])
			for i := range v {
				v[i] = p2(math.NaN(), 1e9)
			}
			return p, err
		}},
		{"PolygonBuilder", func(a *args) (sdf.SDF2, error) {
			b := form2.NewPolygon()
			b.Add(-4, -4)
			b.Add(4, -4).Smooth(a.f(0.25, 1), a.n(1, 6))
			b.Add(a.f(3, 5), a.f(3, 5)).Chamfer(a.f(0.25, 1))
			b.Add(-4, 4).Arc(a.f(10, 20), a.n(1, 6))
			b.Close()
			v := b.Vertices()
			w := append([]v2(nil), v...)
			for i := range v {
				v[i] = p2(math.NaN(), 1e9)
			}
			return form2.Polygon(w)
		}},
		{"profile", func(a *args) (sdf.SDF2, error) { return a.thread().Thread() }},
		{"NPT", func(a *args) (sdf.SDF2, error) {
			n := thread.NPT{}
			if a.n(0, 1) == 1 {
				n = thread.NPT{D: a.f(0.405, 1), TPI: a.f(8, 27), F2F: a.f(0, 1)}
			} else if err := n.SetFromNominal([]float64{1. / 8, 1. / 4, 1. / 2, 1, 2}[a.n(0, 4)]); err != nil {
				return nil, err
			}
			p := n.ThreadParams()
			a.d += fmt.Sprintf(" %+v %+v", n, p)
			return n.Thread()
		}},
		{"Panel2", func(a *args) (sdf.SDF2, error) {
			return obj2.Panel(obj2.PanelParams{Size: a.v2(8, 16), CornerRadius: a.f(0, 2), HoleDiameter: a.f(0, 1), HoleMargin: [4]float64{a.f(1, 2), a.f(1, 2), a.f(1, 2), a.f(1, 2)},
				HolePattern: [4]string{a.s("x", "x.x"), a.s("", "xx"), a.s("x", ".x"), a.s("", "x")}})
		}},
		{"Transform2D", func(a *args) (sdf.SDF2, error) {
			return flat(sdf.Transform2D(a.plain2(), sdf.Translate2D(a.v2(-2, 2)).Mul(sdf.Rotate2D(a.f(0, 6))).Mul(sdf.Scale2D(a.v2(0.5, 2)))))
		}},
		{"Scale2", func(a *args) (sdf.SDF2, error) {
			if a.n(0, 1) == 0 {
				return flat(sdf.CenterAndScale2D(a.plain2(), a.f(0.5, 2)))
			}
			return flat(sdf.ScaleUniform2D(a.plain2(), a.f(0.5, 2)))
		}},
		{"Array2D", func(a *args) (sdf.SDF2, error) {
			s := sdf.Array2D(a.plain2(), sdf.V2i{a.n(1, 4), a.n(1, 4)}, a.v2(-4, 4))
			s.SetMin(sdf.MinPoly(2, a.f(0.1, 1)))
			return s, nil
		}},
		{"RotateUnion2D", func(a *args) (sdf.SDF2, error) {
			return flat(sdf.RotateUnion2D(a.plain2(), a.n(1, 6), sdf.Rotate2D(a.f(0, 2))))
		}},
		{"RotateCopy2D", func(a *args) (sdf.SDF2, error) {
			return flat(sdf.RotateCopy2D(sdf.Transform2D(a.plain2(), sdf.Translate2D(p2(a.f(1, 4), 0))), a.n(1, 6)))
		}},
		{"Slice2D", func(a *args) (sdf.SDF2, error) { return flat(sdf.Slice2D(a.plain3(), a.v3(-1, 1), a.v3(0.5, 1))) }},
		{"Cut2D", func(a *args) (sdf.SDF2, error) { return flat(sdf.Cut2D(a.plain2(), a.v2(-1, 1), a.v2(0.5, 1))) }},
		{"Elongate2D", func(a *args) (sdf.SDF2, error) { return flat(sdf.Elongate2D(a.plain2(), a.v2(0, 2))) }},
		{"Offset2D", func(a *args) (sdf.SDF2, error) { return flat(sdf.Offset2D(a.plain2(), a.f(0.1, 1))) }},
		{"LineOf2D", func(a *args) (sdf.SDF2, error) {
			return flat(sdf.LineOf2D(a.plain2(), a.v2(-4, 4), a.v2(-4, 4), a.s("x", "xx", "x.x", "..x")))
		}},
		{"Multi2D", func(a *args) (sdf.SDF2, error) { return flat(sdf.Multi2D(a.plain2(), []v2{a.v2(-4, 4), a.v2(-4, 4)})) }},
	} {
		k := k
		historyKinds = append(historyKinds, historyKind{k.name, 9, func(r *R, seed int64) thing {
			a := &args{R: r}
			s, err := k.f(a)
			return made2(ok2(r, s, err), k.name+a.d, seed)
		}})
	}
	historyKinds = append(historyKinds,
		historyKind{"rendering", 7, func(r *R, seed int64) thing {
			a := &args{R: r}
			s := a.plain3()
			cells := a.n(4, 11)
			s = sdf.Transform3D(s, sdf.Translate3D(p3(a.f(-2, 2), 0, 0)))
			m, err := render.RenderAll(render.NewOctreeRenderer(sdf.Offset3D(s, a.f(0.1, 0.5)), cells))
			h := hashTris(m)
			if err != nil {
				h.add(1)
			}
			for i := range m { // it is the caller's
				m[i] = tri3{}
			}
			return settled("rendering"+a.d, h)
		}},
		historyKind{"uniform mesh", 5, func(r *R, seed int64) thing {
			a := &args{R: r}
			s := must3.Box(a.v3(2, 3), 0.25)
			nodes, tetras := sdfexp.UniformTetrahedronMesh(a.f(0.4, 0.6), s)
			h := hashTetras(nodes, tetras)
			for i := range nodes {
				nodes[i] = v3{}
			}
			for i := range tetras {
				tetras[i] = [4]int{}
			}
			return settled("uniform mesh"+a.d, h)
		}},
		historyKind{"imported", 8, func(r *R, seed int64) thing {
			a := &args{R: r}
			m := meshIco()
			if a.n(0, 1) == 1 {
				m = m.subdivide()
			}
			m = m.mapv(func(v v3) v3 { return unit3(v) })
			at, sc := a.f(-1, 1), a.f(1, 3)
			k := a.n(0, len(m.v)-1)
			m.v[k] = mul3(a.f(1, 1.25), m.v[k])
			m = m.mapv(func(v v3) v3 { return add3(p3(at, 0, 0), mul3(sc, v)) })
			tol := []float64{0, 1e-4, 1e-6}[a.n(0, 2)]
			t := m.tris()
			var s sdf.SDF3
			var err error
			if a.n(0, 1) == 0 {
				s, err = importOne(r, t, tol)
			} else {
				s, err = importTwo(r, t, tol)
			}
			for i := range t {
				t[i] = tri3{}
			}
			return made3(ok3(r, s, err), "imported"+a.d, seed)
		}},
	)
}
