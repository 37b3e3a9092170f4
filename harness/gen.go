package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
)

// Random composition of shapes.

// field says how the value of a shape relates to its own bounding box outside of it.
type field int

const (
	fieldNone field = iota // no relation
	fieldMax               // at least the largest coordinate distance to the box
	fieldEuc               // at least the Euclidean distance to the box
)

// node2 is a generated 2D shape.
type node2 struct {
	s     sdf.SDF2
	d     string  // description
	f     field   // lower bound of the value outside of the bounds
	lip   bool    // values differ by at most the distance of the points
	slack float64 // reach of blends: the solid may exceed the bounds by this
}

type node3 struct {
	s     sdf.SDF3
	d     string
	f     field
	lip   bool
	slack float64
}

// gen makes random shapes.
type gen struct {
	r       *R
	lip     bool // only compositions that never overestimate distance
	ops     map[string]int
	noEmpty bool
	noObj   bool // without threads and panels
	noTurn  bool // without partial revolutions and other loose bounds
}

func newGen(r *R) *gen { return &gen{r: r, ops: map[string]int{}} }

func (g *gen) note(op string) { g.ops[op]++; g.r.Count("op:"+op, 1) }

func minField(a, b field) field {
	if a < b {
		return a
	}
	return b
}

func (g *gen) simplePoly() []v2 {
	r := g.r
	n := 3 + r.Intn(6)
	c := p2(span(r.Rand, -2, 2), span(r.Rand, -2, 2))
	v := make([]v2, n)
	a0 := angle(r.Rand)
	for i := range v {
		t := a0 + 2*math.Pi*(float64(i)+0.6*r.Float64())/float64(n)
		rad := 0.4 + 2*r.Float64()
		v[i] = add2(c, p2(rad*math.Cos(t), rad*math.Sin(t)))
	}
	if r.Intn(3) == 0 {
		for i := range v {
			v[i] = p2(math.Round(v[i].X*2)/2, math.Round(v[i].Y*2)/2)
		}
	}
	if r.Intn(4) == 0 { // any order: self intersecting
		r.Shuffle(n, func(i, j int) { v[i], v[j] = v[j], v[i] })
	}
	distinct := 0
	for i := range v {
		dup := false
		for j := 0; j < i; j++ {
			dup = dup || v[i] == v[j]
		}
		if !dup {
			distinct++
		}
	}
	if distinct < 3 {
		return []v2{p2(0, 0), p2(2, 0), p2(1, 1.5)}
	}
	return v
}

func (g *gen) leaf2() node2 {
	r := g.r
	n := node2{f: fieldEuc, lip: true}
	var err error
	switch k := r.Intn(7); k {
	case 0, 1:
		rad := span(r.Rand, 0.25, 3)
		n.s, err = form2.Circle(rad)
		n.d = fmt.Sprintf("Circle(%g)", rad)
		g.note("circle")
	case 2, 3:
		sz := p2(span(r.Rand, 0.5, 5), span(r.Rand, 0.5, 5))
		rd := 0.0
		if r.Intn(2) == 0 {
			rd = r.Float64() * 0.5 * math.Min(sz.X, sz.Y)
		}
		n.s, err = form2.Box(sz, rd)
		n.d = fmt.Sprintf("Box(%v,%g)", sz, rd)
		g.note("box2")
	case 4:
		l, rd := span(r.Rand, 0.5, 4), span(r.Rand, 0.125, 1)
		n.s, err = form2.Line(l, rd)
		n.d = fmt.Sprintf("Line(%g,%g)", l, rd)
		g.note("line")
	case 5:
		v := g.simplePoly()
		n.s, err = form2.Polygon(v)
		n.d = fmt.Sprintf("Polygon(%v)", v)
		g.note("polygon")
	case 6:
		m := 3 + r.Intn(8)
		rad := span(r.Rand, 0.5, 3)
		v, e := form2.Nagon(m, rad)
		if e != nil {
			r.Fatalf("rejected", "Nagon: %v", e)
		}
		n.s, err = form2.Polygon(v)
		n.d = fmt.Sprintf("Nagon(%d,%g)", m, rad)
		g.note("nagon")
	}
	n.s = ok2(r, n.s, err)
	return n
}

func (g *gen) rigid2() (mat2, string) {
	r := g.r
	m := sdf.Translate2D(p2(0, 0))
	d := ""
	for i := 0; i < 1+r.Intn(2); i++ {
		switch r.Intn(4) {
		case 0:
			v := p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			m = m.Mul(sdf.Translate2D(v))
			d += fmt.Sprintf("T%v", v)
		case 1:
			a := angle(r.Rand)
			m = m.Mul(sdf.Rotate2D(a))
			d += fmt.Sprintf("R(%g)", a)
		case 2:
			m = m.Mul(sdf.MirrorX())
			d += "MX"
		case 3:
			m = m.Mul(sdf.MirrorY())
			d += "MY"
		}
	}
	return mat2{func(s sdf.SDF2) sdf.SDF2 { return sdf.Transform2D(s, m) }, m.MulPosition}, d
}

// node returns a random 2D composition.
func (g *gen) node2(depth int) node2 {
	r := g.r
	if depth <= 0 {
		return g.leaf2()
	}
	for {
		switch r.Intn(17) {
		case 0, 1:
			k := 2 + r.Intn(3)
			n := node2{f: fieldEuc, lip: true, d: "Union("}
			var s []sdf.SDF2
			ok := true
			for i := 0; i < k; i++ {
				m := g.node2(depth - 1 - r.Intn(2))
				if m.f < fieldEuc {
					// The values of unions of such members are not specified, only
					// their signs.
					n.lip = false
					if g.lip {
						ok = false
					}
				}
				n.f = minField(n.f, m.f)
				s = append(s, m.s)
				n.d += m.d + ";"
				n.lip = n.lip && m.lip
			}
			if !ok {
				continue
			}
			n.d += ")"
			n.s = sdf.Union2D(s...)
			g.note("union2")
			return n
		case 2:
			a, b := g.node2(depth-1), g.node2(depth-1)
			g.note("difference2")
			return node2{s: sdf.Difference2D(a.s, b.s), f: a.f, lip: a.lip && b.lip, d: "Diff(" + a.d + ";" + b.d + ")"}
		case 3:
			a, b := g.node2(depth-1), g.node2(depth-1)
			g.note("intersect2")
			return node2{s: sdf.Intersect2D(a.s, b.s), f: a.f, lip: a.lip && b.lip, d: "Intersect(" + a.d + ";" + b.d + ")"}
		case 4:
			a := g.node2(depth - 1)
			at, v := p2(span(r.Rand, -2, 2), span(r.Rand, -2, 2)), mul2(span(r.Rand, 0.25, 8), dir2(r.Rand))
			a.s = sdf.Cut2D(a.s, at, v)
			a.d = fmt.Sprintf("Cut(%s;%v,%v)", a.d, at, v)
			g.note("cut2")
			return a
		case 5, 6:
			a := g.node2(depth - 1)
			m, d := g.rigid2()
			a.s = m.apply(a.s)
			a.d = fmt.Sprintf("Transform(%s;%s)", a.d, d)
			g.note("transform2")
			return a
		case 7:
			if g.lip {
				continue
			}
			a := g.node2(depth - 1)
			v := p2(span(r.Rand, 0.25, 3), span(r.Rand, 0.25, 3))
			a.s = sdf.Transform2D(a.s, sdf.Scale2D(v).Mul(sdf.Rotate2D(angle(r.Rand))))
			a.d = fmt.Sprintf("Scale(%s;%v)", a.d, v)
			a.f, a.lip = fieldNone, false
			g.note("scale2")
			return a
		case 8:
			a := g.node2(depth - 1)
			k := span(r.Rand, 0.25, 3)
			if r.Intn(3) == 0 {
				a.s = sdf.CenterAndScale2D(a.s, k)
				g.note("centerandscale2")
			} else {
				a.s = sdf.ScaleUniform2D(a.s, k)
				g.note("scaleuniform2")
			}
			a.d = fmt.Sprintf("ScaleUniform(%s;%g)", a.d, k)
			return a
		case 9:
			a := g.node2(depth - 1)
			num := sdf.V2i{1 + r.Intn(3), 1 + r.Intn(3)}
			st := p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			a.s = sdf.Array2D(a.s, num, st)
			a.d = fmt.Sprintf("Array(%s;%v,%v)", a.d, num, st)
			g.note("array2")
			return a
		case 10:
			a := g.node2(depth - 1)
			num, st := 1+r.Intn(6), angle(r.Rand)
			a.s = sdf.RotateUnion2D(a.s, num, sdf.Rotate2D(st))
			a.d = fmt.Sprintf("RotateUnion(%s;%d,%g)", a.d, num, st)
			if a.f < fieldEuc {
				a.f = fieldNone
			}
			g.note("rotateunion2")
			return a
		case 11:
			if g.lip {
				continue
			}
			a := g.node2(depth - 1)
			num := 1 + r.Intn(6)
			a.s = sdf.RotateCopy2D(a.s, num)
			a.d = fmt.Sprintf("RotateCopy(%s;%d)", a.d, num)
			if a.f < fieldEuc {
				a.f = fieldNone
			}
			a.lip = false
			g.note("rotatecopy2")
			return a
		case 12:
			a := g.node2(depth - 1)
			if a.f == fieldNone {
				continue
			}
			o := span(r.Rand, 0.0625, 1)
			a.s = sdf.Offset2D(a.s, o)
			a.d = fmt.Sprintf("Offset(%s;%g)", a.d, o)
			g.note("offset2")
			return a
		case 13:
			a := g.node2(depth - 1)
			h := p2(span(r.Rand, 0, 2), span(r.Rand, -2, 2))
			a.s = sdf.Elongate2D(a.s, h)
			a.d = fmt.Sprintf("Elongate(%s;%v)", a.d, h)
			g.note("elongate2")
			return a
		case 14:
			a := g.node2(depth - 1)
			q0, q1 := p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4)), p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			pat := []string{"x", "xx", "x.x", ".x.xx", "xxx"}[r.Intn(5)]
			if len(pat) > 1 && a.f < fieldEuc {
				a.lip = false
				if g.lip {
					continue
				}
			}
			a.s = sdf.LineOf2D(a.s, q0, q1, pat)
			a.d = fmt.Sprintf("LineOf(%s;%v,%v,%s)", a.d, q0, q1, pat)
			g.note("lineof2")
			return a
		case 15:
			a := g.node2(depth - 1)
			var pos []v2
			for i := 0; i < 1+r.Intn(3); i++ {
				pos = append(pos, p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4)))
			}
			if len(pos) > 1 && a.f < fieldEuc {
				a.lip = false
				if g.lip {
					continue
				}
			}
			a.s = sdf.Multi2D(a.s, pos)
			a.d = fmt.Sprintf("Multi(%s;%v)", a.d, pos)
			g.note("multi2")
			return a
		case 16:
			if depth < 2 {
				continue
			}
			a := g.node3(depth - 2)
			at, nn := p3(span(r.Rand, -1, 1), span(r.Rand, -1, 1), span(r.Rand, -1, 1)), mul3(span(r.Rand, 0.25, 4), dir3(r.Rand))
			f := fieldNone
			if a.f == fieldEuc {
				f = fieldEuc
			}
			g.note("slice2")
			return node2{s: sdf.Slice2D(a.s, at, nn), f: f, lip: a.lip, d: fmt.Sprintf("Slice(%s;%v,%v)", a.d, at, nn)}
		}
	}
}

// mat2, mat3 hold transformations: the matrix types of the package cannot be named.
type mat2 struct {
	apply func(sdf.SDF2) sdf.SDF2
	pos   func(v2) v2
}
type mat3 struct {
	apply func(sdf.SDF3) sdf.SDF3
	pos   func(v3) v3
}

func (g *gen) leaf3() node3 {
	r := g.r
	n := node3{f: fieldEuc, lip: true}
	var err error
	switch r.Intn(6) {
	case 0:
		rad := span(r.Rand, 0.25, 3)
		n.s, err = form3.Sphere(rad)
		n.d = fmt.Sprintf("Sphere(%g)", rad)
		g.note("sphere")
	case 1, 2:
		sz := p3(span(r.Rand, 0.5, 5), span(r.Rand, 0.5, 5), span(r.Rand, 0.5, 5))
		rd := 0.0
		if r.Intn(2) == 0 {
			rd = r.Float64() * 0.5 * math.Min(sz.X, math.Min(sz.Y, sz.Z))
		}
		n.s, err = form3.Box(sz, rd)
		n.d = fmt.Sprintf("Box(%v,%g)", sz, rd)
		g.note("box3")
	case 3:
		h, rad := span(r.Rand, 0.25, 4), span(r.Rand, 0.25, 2)
		rd := 0.0
		if r.Intn(2) == 0 {
			rd = r.Float64() * math.Min(rad, h/2)
		}
		n.s, err = form3.Cylinder(h, rad, rd)
		n.d = fmt.Sprintf("Cylinder(%g,%g,%g)", h, rad, rd)
		g.note("cylinder")
	case 4:
		rad := span(r.Rand, 0.25, 1.5)
		h := 2*rad + span(r.Rand, 0.125, 3)
		n.s, err = form3.Capsule(h, rad)
		n.d = fmt.Sprintf("Capsule(%g,%g)", h, rad)
		g.note("capsule")
	case 5:
		h, r0, r1, rd := g.coneArgs()
		n.s, err = form3.Cone(h, r0, r1, rd)
		n.d = fmt.Sprintf("Cone(%g,%g,%g,%g)", h, r0, r1, rd)
		g.note("cone")
	}
	n.s = ok3(r, n.s, err)
	return n
}

// coneArgs returns a truncated cone whose rounding leaves a core.
func (g *gen) coneArgs() (h, r0, r1, rd float64) {
	r := g.r
	for {
		h, r0, r1 = span(r.Rand, 0.5, 4), span(r.Rand, 0.25, 2), span(r.Rand, 0.25, 2)
		if r.Intn(6) == 0 { // flat
			h = span(r.Rand, 0.02, 0.3)
		}
		if r.Intn(3) == 0 {
			if r.Intn(2) == 0 {
				r1 = 0
			} else {
				r0 = 0
			}
			return h, r0, r1, 0
		}
		if r.Intn(2) == 0 {
			return h, r0, r1, 0
		}
		rd = r.Float64() * 0.4 * math.Min(h/2, math.Min(r0, r1))
		// room for the rounding at the narrow end
		u := unit2(p2(r1-r0, h))
		nx, ny := u.Y, -u.X
		if r0-(1+ny)*rd/nx > 0 && r1-(1-ny)*rd/nx > 0 {
			return
		}
	}
}

func (g *gen) rigid3(scale bool) (mat3, string) {
	r := g.r
	m := sdf.Translate3D(v3{})
	d := ""
	for i := 0; i < 1+r.Intn(3); i++ {
		k := m
		switch r.Intn(7) {
		case 0:
			v := p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			k = sdf.Translate3D(v)
			d += fmt.Sprintf("T%v", v)
		case 1:
			v, a := mul3(span(r.Rand, 0.25, 4), dir3(r.Rand)), angle(r.Rand)
			k = sdf.Rotate3D(v, a)
			d += fmt.Sprintf("R(%v,%g)", v, a)
		case 2:
			a := angle(r.Rand)
			k = sdf.RotateX(a)
			d += fmt.Sprintf("RX(%g)", a)
		case 3:
			a := angle(r.Rand)
			k = sdf.RotateY(a)
			d += fmt.Sprintf("RY(%g)", a)
		case 4:
			a := angle(r.Rand)
			k = sdf.RotateZ(a)
			d += fmt.Sprintf("RZ(%g)", a)
		case 5:
			switch r.Intn(4) {
			case 0:
				k = sdf.MirrorXY()
			case 1:
				k = sdf.MirrorXZ()
			case 2:
				k = sdf.MirrorYZ()
			case 3:
				k = sdf.MirrorXeqY()
			}
			d += "Mirror"
		case 6:
			if !scale {
				k = sdf.RotateZ(0.5)
				d += "RZ(.5)"
				break
			}
			v := p3(span(r.Rand, 0.25, 3), span(r.Rand, 0.25, 3), span(r.Rand, 0.25, 3))
			k = sdf.Scale3D(v)
			d += fmt.Sprintf("S%v", v)
		}
		m = m.Mul(k)
	}
	return mat3{func(s sdf.SDF3) sdf.SDF3 { return sdf.Transform3D(s, m) }, m.MulPosition}, d
}

func (g *gen) node3(depth int) node3 {
	r := g.r
	if depth <= 0 {
		return g.leaf3()
	}
	for {
		switch r.Intn(24) {
		case 0, 1:
			n := node3{f: fieldEuc, lip: true, d: "Union("}
			var s []sdf.SDF3
			for i := 0; i < 2+r.Intn(3); i++ {
				m := g.node3(depth - 1 - r.Intn(2))
				n.f = minField(n.f, m.f)
				s = append(s, m.s)
				n.d += m.d + ";"
				n.lip = n.lip && m.lip
			}
			n.d += ")"
			n.s = sdf.Union3D(s...)
			g.note("union3")
			return n
		case 2:
			a, b := g.node3(depth-1), g.node3(depth-1)
			g.note("difference3")
			return node3{s: sdf.Difference3D(a.s, b.s), f: a.f, lip: a.lip && b.lip, d: "Diff(" + a.d + ";" + b.d + ")"}
		case 3:
			a, b := g.node3(depth-1), g.node3(depth-1)
			g.note("intersect3")
			return node3{s: sdf.Intersect3D(a.s, b.s), f: a.f, lip: a.lip && b.lip, d: "Intersect(" + a.d + ";" + b.d + ")"}
		case 4:
			a := g.node3(depth - 1)
			at, v := p3(span(r.Rand, -1, 1), span(r.Rand, -1, 1), span(r.Rand, -1, 1)), mul3(span(r.Rand, 0.25, 8), dir3(r.Rand))
			a.s = sdf.Cut3D(a.s, at, v)
			a.d = fmt.Sprintf("Cut(%s;%v,%v)", a.d, at, v)
			g.note("cut3")
			return a
		case 5, 6:
			a := g.node3(depth - 1)
			m, d := g.rigid3(!g.lip)
			a.s = m.apply(a.s)
			a.d = fmt.Sprintf("Transform(%s;%s)", a.d, d)
			if !g.lip {
				a.f, a.lip = fieldNone, false
			} else if a.f < fieldEuc {
				a.f = fieldNone
			}
			g.note("transform3")
			return a
		case 7:
			a := g.node3(depth - 1)
			k := span(r.Rand, 0.25, 3)
			a.s = sdf.ScaleUniform3D(a.s, k)
			a.d = fmt.Sprintf("ScaleUniform(%s;%g)", a.d, k)
			g.note("scaleuniform3")
			return a
		case 8:
			a := g.node3(depth - 1)
			num := sdf.V3i{1 + r.Intn(3), 1 + r.Intn(2), 1 + r.Intn(2)}
			st := p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			a.s = sdf.Array3D(a.s, num, st)
			a.d = fmt.Sprintf("Array(%s;%v,%v)", a.d, num, st)
			g.note("array3")
			return a
		case 9:
			a := g.node3(depth - 1)
			num, st := 1+r.Intn(5), angle(r.Rand)
			m := sdf.RotateZ(st)
			if r.Intn(3) == 0 {
				m = sdf.Rotate3D(dir3(r.Rand), st).Mul(sdf.Translate3D(p3(0.5, 0, 0.25)))
			}
			a.s = sdf.RotateUnion3D(a.s, num, m)
			a.d = fmt.Sprintf("RotateUnion(%s;%d,%g,%v)", a.d, num, st, m)
			if a.f < fieldEuc {
				a.f = fieldNone
			}
			g.note("rotateunion3")
			return a
		case 10:
			if g.lip {
				continue
			}
			a := g.node3(depth - 1)
			num := 1 + r.Intn(6)
			a.s = sdf.RotateCopy3D(a.s, num)
			a.d = fmt.Sprintf("RotateCopy(%s;%d)", a.d, num)
			if a.f == fieldEuc {
				a.f = fieldMax
			} else {
				a.f = fieldNone
			}
			a.lip = false
			g.note("rotatecopy3")
			return a
		case 11:
			a := g.node3(depth - 1)
			if a.f == fieldNone {
				continue
			}
			if r.Intn(2) == 0 {
				o := span(r.Rand, 0.0625, 1)
				a.s = sdf.Offset3D(a.s, o)
				a.d = fmt.Sprintf("Offset(%s;%g)", a.d, o)
				g.note("offset3")
			} else {
				o := span(r.Rand, 0.0625, 1)
				a.s = sdf.Shell3D(a.s, o)
				a.d = fmt.Sprintf("Shell(%s;%g)", a.d, o)
				a.f = fieldMax
				g.note("shell3")
			}
			return a
		case 12:
			a := g.node3(depth - 1)
			h := p3(span(r.Rand, 0, 2), span(r.Rand, -2, 2), span(r.Rand, 0, 2))
			a.s = sdf.Elongate3D(a.s, h)
			a.d = fmt.Sprintf("Elongate(%s;%v)", a.d, h)
			g.note("elongate3")
			return a
		case 13:
			a := g.node3(depth - 1)
			q0, q1 := p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4)), p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4))
			pat := []string{"x", "xx", "x.x", ".x.xx", "xxx"}[r.Intn(5)]
			a.s = sdf.LineOf3D(a.s, q0, q1, pat)
			a.d = fmt.Sprintf("LineOf(%s;%v,%v,%s)", a.d, q0, q1, pat)
			g.note("lineof3")
			return a
		case 14:
			a := g.node3(depth - 1)
			var pos []v3
			k := 1 + r.Intn(3)
			if r.Intn(2) == 0 {
				for i := 0; i < k; i++ {
					pos = append(pos, p3(span(r.Rand, -4, 4), span(r.Rand, -4, 4), span(r.Rand, -4, 4)))
				}
				a.s = sdf.Multi3D(a.s, pos)
				a.d = fmt.Sprintf("Multi(%s;%v)", a.d, pos)
				g.note("multi3")
			} else {
				base := dir3(r.Rand)
				for i := 0; i < k; i++ {
					pos = append(pos, mul3(span(r.Rand, 0.5, 2), dir3(r.Rand)))
				}
				a.s = sdf.Orient3D(a.s, base, pos)
				a.d = fmt.Sprintf("Orient(%s;%v,%v)", a.d, base, pos)
				if a.f < fieldEuc {
					a.f = fieldNone
				}
				g.note("orient3")
			}
			return a
		case 15, 16:
			a := g.node2(depth - 1)
			h := span(r.Rand, 0.25, 5)
			g.note("extrude")
			return node3{s: sdf.Extrude3D(a.s, h), f: minField(a.f, fieldMax), lip: a.lip, d: fmt.Sprintf("Extrude(%s;%g)", a.d, h)}
		case 17:
			a := g.node2(depth - 1)
			if a.f < fieldEuc {
				continue
			}
			h := span(r.Rand, 0.25, 5)
			rd := r.Float64() * h / 2
			g.note("extruderounded")
			return node3{s: sdf.ExtrudeRounded3D(a.s, h, rd), f: fieldEuc, lip: a.lip, d: fmt.Sprintf("ExtrudeRounded(%s;%g,%g)", a.d, h, rd)}
		case 18:
			if g.lip {
				continue
			}
			a := g.node2(depth - 1)
			h, tw := span(r.Rand, 0.25, 5), angle(r.Rand)
			sc := p2(span(r.Rand, 0.25, 3), span(r.Rand, 0.25, 3))
			var s sdf.SDF3
			d := ""
			switch r.Intn(3) {
			case 0:
				s, d = sdf.TwistExtrude3D(a.s, h, tw), "Twist"
			case 1:
				s, d = sdf.ScaleExtrude3D(a.s, h, sc), "Scale"
			case 2:
				s, d = sdf.ScaleTwistExtrude3D(a.s, h, tw, sc), "ScaleTwist"
			}
			g.note("extrude" + d)
			return node3{s: s, f: fieldNone, d: fmt.Sprintf("%sExtrude(%s;%g,%g,%v)", d, a.d, h, tw, sc)}
		case 19:
			if g.lip {
				continue
			}
			a, b := g.node2(depth-1), g.node2(depth-1)
			if a.f < fieldEuc || b.f < fieldEuc {
				continue
			}
			h := span(r.Rand, 0.25, 5)
			rd := 0.0
			if r.Intn(2) == 0 {
				rd = r.Float64() * h / 2
			}
			g.note("loft")
			return node3{s: sdf.Loft3D(a.s, b.s, h, rd), f: fieldMax, d: fmt.Sprintf("Loft(%s;%s;%g,%g)", a.d, b.d, h, rd)}
		case 20, 21:
			a := g.node2(depth - 1)
			t := 2 * math.Pi
			f := a.f
			if r.Intn(2) == 0 {
				t = span(r.Rand, 0.1, 13)
				f = fieldNone
			}
			g.note("revolve")
			return node3{s: sdf.Revolve3D(a.s, t), f: f, lip: a.lip, d: fmt.Sprintf("Revolve(%s;%g)", a.d, t)}
		case 22, 23:
			if g.noObj {
				continue
			}
			return g.object3()
		}
	}
}

// object3 returns one of the ready made objects.
func (g *gen) object3() node3 {
	r := g.r
	n := node3{}
	var err error
	k := r.Intn(9)
	if g.lip {
		k = []int{0, 1, 2, 3, 8}[r.Intn(5)]
	}
	switch k {
	case 0:
		p := g.panelParams()
		n.s, err = obj3.Panel(p)
		n.d = fmt.Sprintf("Panel(%+v)", p)
		n.lip = true
		g.note("panel")
	case 1:
		p := g.holeParams()
		n.s, err = obj3.PanelHole(&p)
		n.d = fmt.Sprintf("PanelHole(%+v)", p)
		n.lip = true
		g.note("panelhole")
	case 2, 8:
		p := g.standoffParams(!g.lip)
		n.s, err = obj3.Standoff(p)
		n.d = fmt.Sprintf("Standoff(%+v)", p)
		n.lip = p.NumberWebs == 0
		g.note("standoff")
	case 3:
		rad, h, rd := span(r.Rand, 0.5, 4), span(r.Rand, 0.5, 3), []string{"", "t", "b", "tb"}[r.Intn(4)]
		n.s, err = thread.HexHead(rad, h, rd)
		n.d = fmt.Sprintf("HexHead(%g,%g,%q)", rad, h, rd)
		n.lip = true
		g.note("hexhead")
	case 4:
		rad := span(r.Rand, 1, 4)
		pitch := rad * (0.1 + 0.2*r.Float64())
		h := pitch * (2 + 3*r.Float64())
		n.s, err = thread.KnurledHead(rad, h, pitch)
		n.d = fmt.Sprintf("KnurledHead(%g,%g,%g)", rad, h, pitch)
		g.note("knurledhead")
	case 5:
		t := g.threader()
		l := span(r.Rand, 1, 12)
		n.s, err = thread.Screw(l, t)
		n.d = fmt.Sprintf("Screw(%g,%T%+v)", l, t, t)
		g.note("screw")
	case 6:
		t := g.threader()
		tot := span(r.Rand, 2, 12)
		p := thread.BoltParms{Thread: t, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[r.Intn(2)], TotalLength: tot, ShankLength: tot * 0.8 * r.Float64()}
		n.s, err = thread.Bolt(p)
		n.d = fmt.Sprintf("Bolt(%T%+v)", t, p)
		g.note("bolt")
	case 7:
		t := g.threader()
		p := thread.NutParms{Thread: t, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular}[r.Intn(3)]}
		n.s, err = thread.Nut(p)
		n.d = fmt.Sprintf("Nut(%T%+v)", t, p)
		g.note("nut")
	}
	n.s = ok3(r, n.s, err)
	return n
}

func (g *gen) threader() thread.Threader {
	r := g.r
	d := span(r.Rand, 2, 12)
	p := d * (0.08 + 0.12*r.Float64())
	switch r.Intn(6) {
	case 0:
		return thread.ISO{D: d, P: p, Ext: r.Intn(2) == 0}
	case 1:
		return thread.Acme{D: d, P: p}
	case 2:
		return thread.ANSIButtress{D: d, P: p}
	case 3:
		return thread.PlasticButtress{D: d, P: p}
	case 4:
		return thread.UTS{D: d, TPI: 1 / p, Ext: r.Intn(2) == 0}
	}
	n := thread.NPT{}
	names := []float64{1. / 8, 1. / 4, 3. / 8, 1. / 2, 3. / 4, 1, 1.25, 1.5, 2}
	if err := n.SetFromNominal(names[r.Intn(len(names))]); err != nil {
		r.Fatalf("rejected", "NPT: %v", err)
	}
	return n
}

func (g *gen) panelParams() obj2.PanelParams {
	r := g.r
	p := obj2.PanelParams{Size: p2(span(r.Rand, 4, 12), span(r.Rand, 4, 12)), Thickness: span(r.Rand, 0.25, 3)}
	if r.Intn(2) == 0 {
		p.CornerRadius = 0.5 * r.Float64() * math.Min(p.Size.X, p.Size.Y)
	}
	if r.Intn(3) > 0 {
		p.HoleDiameter = span(r.Rand, 0.25, 1)
		for i := range p.HoleMargin {
			p.HoleMargin[i] = span(r.Rand, 0.25, 1.5)
			p.HolePattern[i] = []string{"", "x", "xx", "x.x", "xx.x.xx", "..x", ".x"}[r.Intn(7)]
		}
	}
	return p
}

func (g *gen) holeParams() obj3.PanelHoleParams {
	r := g.r
	p := obj3.PanelHoleParams{Diameter: span(r.Rand, 0.5, 4), Thickness: span(r.Rand, 0.5, 3)}
	if r.Intn(3) > 0 {
		p.Indent = p3(span(r.Rand, 0.25, 1), span(r.Rand, 0.25, 1), span(r.Rand, 0.125, p.Thickness*[]float64{1, 1, 1, 2.5}[r.Intn(4)]))
		p.Offset = span(r.Rand, 0.5, 4)
		if r.Intn(2) == 0 {
			p.Orientation = angle(r.Rand)
		}
	}
	return p
}

func (g *gen) standoffParams(webs bool) obj3.StandoffParams {
	r := g.r
	p := obj3.StandoffParams{PillarHeight: span(r.Rand, 2, 10), PillarDiameter: span(r.Rand, 1, 4)}
	switch r.Intn(3) {
	case 0:
		p.HoleDepth, p.HoleDiameter = span(r.Rand, 0.5, 1.5*p.PillarHeight), span(r.Rand, 0.25, 0.9*p.PillarDiameter)
	case 1:
		p.HoleDepth, p.HoleDiameter = -span(r.Rand, 0.5, 4), span(r.Rand, 0.25, 0.9*p.PillarDiameter)
	}
	if webs && r.Intn(2) == 0 {
		p.NumberWebs = 1 + r.Intn(6)
		if r.Intn(8) == 0 {
			p.NumberWebs = 7 + r.Intn(30)
		}
		p.WebHeight, p.WebDiameter, p.WebWidth = span(r.Rand, 0.5, 1.5*p.PillarHeight), span(r.Rand, p.PillarDiameter, 3*p.PillarDiameter), span(r.Rand, 0.1, 0.9*p.PillarDiameter)
		if r.Intn(6) == 0 { // webs inside of the pillar, or wide ones
			p.WebDiameter, p.WebWidth = span(r.Rand, 0.2*p.PillarDiameter, 2*p.PillarDiameter), span(r.Rand, 0.1, 3*p.PillarDiameter)
		}
	}
	return p
}

// chamfered cylinder of something
func (g *gen) chamfered(s sdf.SDF3) sdf.SDF3 {
	return must3.ChamferedCylinder(s, 0.1, 0.2)
}
