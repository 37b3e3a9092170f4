package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C19", level: "monitored",
		rule: "a point classified as inside or outside of an object, distinct by point",
		assumptions: []string{
			"parameters are valid and leave room for each part",
			"knurls whose number of starts or of whole pitches is within rounding of a whole number are left out",
		}, run: runC19})
}

// flatten shows a 2D shape to the 3D monitors, the third coordinate is ignored.
func flatten(s sdf.SDF2) sdf.SDF3 {
	b := s.Bounds()
	return fn3{func(p v3) float64 { return s.Evaluate(p2(p.X, p.Y)) }, box3{Min: p3(b.Min.X, b.Min.Y, 0), Max: p3(b.Max.X, b.Max.Y, 0)}}
}

// mPanel is a rounded rectangle with holes along its edges.
func mPanel(k obj2.PanelParams) model {
	h := mul2(0.5, k.Size)
	plate := func(p v3) float64 {
		x, y := math.Abs(p.X)-h.X+k.CornerRadius, math.Abs(p.Y)-h.Y+k.CornerRadius
		return math.Hypot(math.Max(x, 0), math.Max(y, 0)) + math.Min(math.Max(x, y), 0) - k.CornerRadius
	}
	if k.HoleDiameter <= 0 {
		return plate
	}
	var centres []v2
	left, right := -h.X+k.HoleMargin[3], h.X-k.HoleMargin[1]
	top, bottom := h.Y-k.HoleMargin[0], -h.Y+k.HoleMargin[2]
	// clockwise: the top from the left, the right from the top, the bottom from the right, the left from the bottom
	corner := []v2{p2(left, top), p2(right, top), p2(right, bottom), p2(left, bottom)}
	for side, pattern := range k.HolePattern {
		a, b := corner[side], corner[(side+1)%4]
		for i := 0; i < len(pattern); i++ {
			if pattern[i] == 'x' {
				t := float64(i) / float64(len(pattern))
				centres = append(centres, p2(a.X+t*(b.X-a.X), a.Y+t*(b.Y-a.Y)))
			}
		}
	}
	return func(p v3) float64 {
		d := plate(p)
		for _, c := range centres {
			d = math.Max(d, k.HoleDiameter/2-math.Hypot(p.X-c.X, p.Y-c.Y))
		}
		return d
	}
}

func mSlab(m model, t float64) model {
	return func(p v3) float64 { return math.Max(m(p), math.Abs(p.Z)-t/2) }
}

// mStandoff is a pillar with webs and a hole or stub.
func mStandoff(k obj3.StandoffParams) (m model, sure func(v3) bool) {
	m = mCylinder(k.PillarHeight, k.PillarDiameter/2, 0)
	base := -k.PillarHeight / 2
	sure = func(v3) bool { return true }
	if k.NumberWebs > 0 {
		web := func(i int) model {
			return func(p v3) float64 {
				q := rot2(p2(p.X, p.Y), -2*math.Pi*float64(i)/float64(k.NumberWebs))
				slope := q.X/(k.WebDiameter/2) + (p.Z-base)/k.WebHeight - 1
				return math.Max(math.Max(math.Abs(q.Y)-k.WebWidth/2, -q.X), math.Max(base-p.Z, slope*math.Min(k.WebHeight, k.WebDiameter/2)))
			}
		}
		all := make([]model, k.NumberWebs)
		for i := range all {
			all[i] = web(i)
		}
		any := mUnion(all...)
		// next to the axis a point may be in a web other than the one in its sector
		sure = func(p v3) bool {
			turn := math.Atan2(p.Y, p.X) / (2 * math.Pi) * float64(k.NumberWebs)
			for _, off := range []float64{-1e-6, 1e-6} {
				w := web(int(math.Round(turn + off)))(p)
				if any(p) < 0 != (w < 0) || math.Abs(w) < 1e-7*k.WebDiameter {
					return false
				}
			}
			return true
		}
		m = mUnion(m, mInter(any, func(p v3) float64 { return math.Abs(p.Z) - k.PillarHeight/2 }))
	}
	if k.HoleDepth != 0 && k.HoleDiameter != 0 {
		top := k.PillarHeight / 2
		part := mAt(mCylinder(math.Abs(k.HoleDepth), k.HoleDiameter/2, 0), p3(0, 0, top-k.HoleDepth/2))
		if k.HoleDepth > 0 {
			m = mInter(m, mNot(part))
		} else {
			m = mUnion(m, part)
		}
	}
	return m, sure
}

func runC19(c *C) {
	per := c.scale(1500, 30000)
	c.Cases("panel", per, func(_ int, r *R) {
		k := newGen(r).panelParams()
		if k.HoleDiameter > 0 && r.Intn(6) == 0 { // larger panels with long patterns
			k.Size = p2(span(r.Rand, 10, 100), span(r.Rand, 10, 100))
			for i := range k.HolePattern {
				b := make([]byte, r.Intn(12))
				for j := range b {
					b[j] = "x.x-. "[r.Intn(6)]
				}
				k.HolePattern[i] = string(b)
			}
		}
		desc := fmt.Sprintf("Panel(%+v)", k)
		m := mPanel(k)
		two, err := obj2.Panel(k)
		two = ok2(r, two, err)
		b := two.Bounds()
		if !nearBox2(b, box2{Min: mul2(-0.5, k.Size), Max: mul2(0.5, k.Size)}, 1e-12) {
			r.Failf("bounds", "%s: bounds %v", desc, b)
		}
		occupies(r, flatten(two), m, "panel", desc, flatten(two).Bounds(), 100)
		three, err := obj3.Panel(k)
		three = ok3(r, three, err)
		h := p3(k.Size.X/2, k.Size.Y/2, k.Thickness/2)
		if !nearBox3(three.Bounds(), box3{Min: mul3(-1, h), Max: h}, 1e-12) {
			r.Failf("bounds", "%s: bounds %v in 3D", desc, three.Bounds())
		}
		occupies(r, three, mSlab(m, k.Thickness), "panel", desc, three.Bounds(), 100)
		// around the holes
		if k.HoleDiameter > 0 {
			for i := 0; i < 4; i++ {
				q := inBox2(r.Rand, b, 0)
				half := p3(k.HoleDiameter, k.HoleDiameter, k.Thickness)
				occupies(r, three, mSlab(m, k.Thickness), "panel", desc, box3{Min: sub3(p3(q.X, q.Y, 0), half), Max: add3(p3(q.X, q.Y, 0), half)}, 20)
			}
		}
	})
	c.Cases("eurorack", per, func(_ int, r *R) {
		k := obj2.EuroRackParams{U: float64(1 + r.Intn(6)), HP: float64(2 + r.Intn(40)), Thickness: span(r.Rand, 0.5, 4), Ridge: r.Intn(2) == 0}
		switch r.Intn(10) {
		case 0, 1:
			k.U, k.HP = span(r.Rand, 1, 6), span(r.Rand, 1.5, 40)
		case 2: // large ones
			k.U, k.HP = float64(7+r.Intn(10)), float64(40+r.Intn(128))
		}
		if r.Intn(2) == 0 {
			k.CornerRadius = span(r.Rand, 0.1, 4)
		}
		if r.Intn(2) == 0 {
			k.HoleDiameter = span(r.Rand, 1, 5)
			if r.Intn(3) == 0 {
				k.HoleDiameter = span(r.Rand, 0.05, 1)
			}
		}
		desc := fmt.Sprintf("EuroRackPanel(%+v)", k)
		// one unit is 1.75 inch and one pitch 0.2 inch, 3U measure 128.5 mm and 3HP 15 mm
		x, y := 15+(k.HP-3)*5.08, 128.5+(k.U-3)*44.45
		if !near(k.HPSize(), x, 1e-9) || !near(k.USize(), y, 1e-9) {
			r.Failf("size", "%s: size %v by %v, want %v by %v", desc, k.HPSize(), k.USize(), x, y)
		}
		hole := k.HoleDiameter
		if hole == 0 {
			hole = 3.2
			r.Count("default holes", 1)
		}
		p := obj2.PanelParams{Size: p2(x, y), CornerRadius: k.CornerRadius, HoleDiameter: hole, HoleMargin: [4]float64{3, 7.5, 3, 7.5}}
		p.HolePattern = [4]string{"x", "", "", "x"}
		if k.HP >= 8 {
			p.HolePattern = [4]string{"x", "x", "x", "x"}
		}
		m := mPanel(p)
		two, err := obj2.EuroRackPanel(k)
		two = ok2(r, two, err)
		occupies(r, flatten(two), m, "eurorack", desc, flatten(two).Bounds(), 100)
		for _, cx := range []float64{-1, 1} {
			for _, cy := range []float64{-1, 1} { // around the mounting holes
				q := p3(cx*(x/2-7.5), cy*(y/2-3), 0)
				occupies(r, flatten(two), m, "eurorack", desc, box3{Min: sub3(q, p3(4, 3, 0)), Max: add3(q, p3(4, 3, 0))}, 30)
			}
		}
		three, err := obj3.EuroRackPanel(k)
		three = ok3(r, three, err)
		solid := mSlab(m, k.Thickness)
		zmax := k.Thickness / 2
		if k.Ridge {
			r.Count("ridges", 1)
			side := mBox(p3(k.Thickness, y-18, 1.5*k.Thickness))
			solid = mUnion(solid, mAt(side, p3((x-k.Thickness)/2, 0, 1.25*k.Thickness)), mAt(side, p3(-(x-k.Thickness)/2, 0, 1.25*k.Thickness)))
			zmax = 2 * k.Thickness
		}
		if want := (box3{Min: p3(-x/2, -y/2, -k.Thickness/2), Max: p3(x/2, y/2, zmax)}); !nearBox3(three.Bounds(), want, 1e-9) {
			r.Failf("bounds", "%s: bounds %v, want %v", desc, three.Bounds(), want)
		}
		occupies(r, three, solid, "eurorack", desc, three.Bounds(), 160)
	})
	c.Cases("hole", per, func(_ int, r *R) {
		k := newGen(r).holeParams()
		if r.Intn(6) == 0 { // any of these at zero means no indent
			switch r.Intn(4) {
			case 0:
				k.Offset = 0
			default:
				k.Indent = with3(k.Indent, r.Intn(3), 0)
			}
		}
		before := k
		s, err := obj3.PanelHole(&k)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("PanelHole(%+v)", before)
		if k != before {
			r.Failf("changed", "%s: parameters changed to %+v", desc, k)
		}
		m := mCylinder(k.Thickness, k.Diameter/2, 0)
		if k.Offset != 0 && k.Indent.X != 0 && k.Indent.Y != 0 && k.Indent.Z != 0 {
			// the indent is flush with the top of the panel
			box := mAt(mBox(k.Indent), p3(k.Offset, 0, (k.Thickness-k.Indent.Z)/2))
			hole := m
			m = func(p v3) float64 {
				q := rot2(p2(p.X, p.Y), -k.Orientation)
				return math.Min(hole(p), box(p3(q.X, q.Y, p.Z)))
			}
			r.Count("indents", 1)
		}
		rad := math.Max(k.Diameter/2, k.Offset+k.Indent.X)
		occupies(r, s, m, "hole", desc, box3{Min: p3(-rad, -rad, math.Min(-k.Thickness/2, k.Thickness/2-k.Indent.Z)), Max: p3(rad, rad, k.Thickness/2)}, 160)
	})
	c.Cases("chamfer", per, func(_ int, r *R) {
		h := p3(span(r.Rand, 0.25, 4), span(r.Rand, 0.25, 4), span(r.Rand, 0.25, 4))
		rad := h.X
		m := mBox(mul3(2, h))
		if r.Intn(2) == 0 {
			m = mCylinder(2*h.Z, rad, 0)
			h.Y = rad
		}
		k := p2(0, 0) // how much of the radius goes, bottom and top
		most := math.Min(rad, 2*h.Z) / rad * math.Sqrt2
		switch r.Intn(4) {
		case 0:
			k.Y = most * 0.99 * r.Float64()
		case 1:
			k.X = most * 0.99 * r.Float64()
		case 2:
			a := r.Float64()
			k = p2(most*0.99*a*r.Float64(), most*0.99*(1-a))
		}
		s := must3.ChamferedCylinder(fn3{m, box3{Min: mul3(-1, h), Max: h}}, k.X, k.Y)
		if r.Intn(2) == 0 {
			var err error
			s, err = form3.ChamferedCylinder(fn3{m, box3{Min: mul3(-1, h), Max: h}}, k.X, k.Y)
			s = ok3(r, s, err)
		}
		legs := mul2(rad/math.Sqrt2, k)
		cc := func(p v3) float64 {
			q := math.Hypot(p.X, p.Y)
			d := math.Max(m(p), math.Max(q-rad, math.Abs(p.Z)-h.Z))
			d = math.Max(d, (q-rad+legs.X-h.Z-p.Z)/math.Sqrt2)
			return math.Max(d, (q-rad+legs.Y-h.Z+p.Z)/math.Sqrt2)
		}
		r.Count("chamfers", 1)
		occupies(r, s, cc, "chamfer", fmt.Sprintf("ChamferedCylinder(%v, %v, %v)", h, k.X, k.Y), box3{Min: mul3(-1, h), Max: h}, 160)
	})
	c.Cases("standoff", per, func(_ int, r *R) {
		k := newGen(r).standoffParams(true)
		s, err := obj3.Standoff(k)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("Standoff(%+v)", k)
		m, sure := mStandoff(k)
		decided := func(p v3) float64 {
			if !sure(p) {
				return 0
			}
			return m(p)
		}
		rad := math.Max(k.PillarDiameter/2, math.Hypot(k.WebDiameter, k.WebWidth)/2)
		top := k.PillarHeight/2 + math.Max(0, -k.HoleDepth)
		occupies(r, s, decided, "standoff", desc, box3{Min: p3(-rad, -rad, -k.PillarHeight/2), Max: p3(rad, rad, top)}, 200)
		if k.NumberWebs > 0 {
			r.Count("webs", 1)
			occupies(r, s, decided, "standoff", desc, box3{Min: p3(-rad, -rad, -k.PillarHeight/2), Max: p3(rad, rad, -k.PillarHeight/2+math.Min(k.WebHeight, k.PillarHeight))}, 100)
		}
		switch {
		case k.HoleDepth > 0 && k.HoleDiameter > 0:
			r.Count("holes", 1)
		case k.HoleDepth < 0 && k.HoleDiameter > 0:
			r.Count("stubs", 1)
		default:
			r.Count("plain pillars", 1)
		}
	})
	c.Cases("hexhead", per, func(_ int, r *R) {
		rad := span(r.Rand, 0.5, 20)
		h := rad * (0.2 + 1.4*r.Float64())
		if r.Intn(3) == 0 { // a tall one, the spheres are no higher than three radii
			h = rad * (2 + 4*r.Float64())
		}
		ends := []string{"", "t", "b", "tb"}[r.Intn(4)]
		s, err := thread.HexHead(rad, h, ends)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("HexHead(%g,%g,%q)", rad, h, ends)
		occupies(r, s, mHexHead(rad, h, ends), "hexhead", desc, box3{Min: p3(-rad, -rad, -h/2), Max: p3(rad, rad, h/2)}, 200)
		r.Count("ends "+ends, 1)
		// the flats: a hexagon's, to within the rounding of the corners, at mid height
		flat := rad * math.Sqrt(3) / 2
		for i := 0; i < 6; i++ {
			sn, cs := math.Sincos(math.Pi/6 + float64(i)*math.Pi/3)
			r.Ev(2)
			if v := s.Evaluate(p3(1.02*flat*cs, 1.02*flat*sn, 0)); !(v > 0) {
				r.Failf("flats", "%s: value %v beyond the flats", desc, v)
			}
			if v := s.Evaluate(p3(0.98*flat*cs, 0.98*flat*sn, 0)); !(v < 0) && ends == "" {
				r.Failf("flats", "%s: value %v within the flats", desc, v)
			}
		}
	})
	c.Cases("knurl", per, func(_ int, r *R) {
		whole := func(x float64) bool { return math.Abs(x-math.Round(x)) < 1e-9 }
		k := thread.KnurlParams{Radius: span(r.Rand, 0.5, 10), Length: span(r.Rand, 0.5, 20)}
		k.Pitch = k.Radius * (0.05 + 0.6*r.Float64())
		k.Height = k.Pitch * (0.1 + 0.7*r.Float64())
		k.Theta = span(r.Rand, 0.05, 1.4)
		if r.Intn(8) == 0 {
			k.Theta = 0
		}
		if !whole(2*math.Pi*k.Radius*math.Tan(k.Theta)/k.Pitch) || k.Theta == 0 {
			s, err := thread.Knurl(k)
			s = ok3(r, s, err)
			desc := fmt.Sprintf("Knurl(%+v)", k)
			rad := k.Radius + k.Height
			occupies(r, s, mKnurl(k), "knurl", desc, box3{Min: p3(-rad, -rad, -k.Length/2), Max: p3(rad, rad, k.Length/2)}, 120)
			// the ridges lie between the radius and the radius plus the height
			for i := 0; i < 20; i++ {
				a, z := 7*r.Float64(), k.Length*(r.Float64()-0.5)*(1-1e-9)
				for _, t := range []struct {
					rho float64
					in  bool
				}{{k.Radius * (1 - 1e-6) * math.Sqrt(r.Float64()), true}, {rad*(1+1e-6) + r.Float64(), false}} {
					v := s.Evaluate(p3(t.rho*math.Cos(a), t.rho*math.Sin(a), z))
					r.Ev(1)
					if t.in && !(v < 0) || !t.in && !(v > 0) {
						r.Failf("knurl", "%s: value %v at radius %g", desc, v, t.rho)
					}
				}
			}
			r.Count("knurls", 1)
		}
		rad := span(r.Rand, 0.5, 20)
		p := rad * (0.05 + 0.3*r.Float64())
		h := p*(1+5*r.Float64()) + rad*0.051
		if whole(2*math.Pi*rad/p) || whole((h-0.05*rad)/p) {
			return
		}
		s, err := thread.KnurledHead(rad, h, p)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("KnurledHead(%g,%g,%g)", rad, h, p)
		out := rad + 0.3*p
		occupies(r, s, mKnurledHead(rad, h, p), "knurl", desc, box3{Min: p3(-out, -out, -h/2), Max: p3(out, out, h/2)}, 120)
	})
}
