package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C15", level: "monitored",
		rule: "one argument list, distinct by function and arguments",
		assumptions: []string{
			"arguments are not NaN",
			"the argument limits stated are those of the doc comments, error messages and checks of the original repository",
		}, run: runC15})
}

// around returns a value below, at or above the limit, often by one ulp.
func around(r *R, limit float64) float64 {
	if limit == 0 && r.Intn(8) == 0 {
		return 1e-9 // denormal sizes are of no interest
	}
	switch r.Intn(8) {
	case 0:
		return limit
	case 1:
		if limit == 0 {
			return 1e-6
		}
		return math.Nextafter(limit, math.Inf(1))
	case 2:
		return math.Nextafter(limit, math.Inf(-1))
	case 3:
		return limit + span(r.Rand, 1e-9, 1e-3)
	case 4:
		return limit - span(r.Rand, 1e-9, 1e-3)
	case 5:
		return limit - span(r.Rand, 0.1, 3)
	}
	return limit + span(r.Rand, 0.1, 3)
}

// pos returns a positive value, now and then one around zero.
func pos(r *R) float64 {
	if r.Intn(4) == 0 {
		return around(r, 0)
	}
	return span(r.Rand, 0.25, 4)
}

// made is what a constructor did.
type made struct {
	s    shape
	none bool // no shape
	err  error
	pan  interface{}
	died bool
}

func make2(f func() (sdf.SDF2, error)) (m made) {
	m.pan, m.died = Panics(func() {
		s, err := f()
		m.err, m.none = err, s == nil
		if err == nil && s != nil {
			m.s = shape2(s, "")
		}
	})
	return m
}

func make3(f func() (sdf.SDF3, error)) (m made) {
	m.pan, m.died = Panics(func() {
		s, err := f()
		m.err, m.none = err, s == nil
		if err == nil && s != nil {
			m.s = shape3(s, "")
		}
	})
	return m
}

// reports checks a constructor that returns errors.
func reports(r *R, m made, valid bool, desc string) {
	r.Ev(1)
	r.Distinct(desc)
	switch {
	case m.died:
		r.Failf("panic", "%s panics: %v", desc, m.pan)
	case valid && m.err != nil:
		r.Failf("rejected", "%s: valid arguments rejected: %v", desc, m.err)
	case valid && m.none:
		r.Failf("nil", "%s returned neither a shape nor an error", desc)
	case !valid && m.err == nil:
		r.Failf("accepted", "%s: invalid arguments accepted", desc)
	case !valid && m.err.Error() == "":
		r.Failf("message", "%s: the error has no message", desc)
	}
	if valid {
		r.Count("valid", 1)
	} else {
		r.Count("invalid", 1)
	}
}

// panicking checks a constructor that panics.
func panicking(r *R, m made, valid bool, desc string) {
	r.Ev(1)
	switch {
	case valid && m.died:
		r.Failf("rejected", "%s: valid arguments rejected: %v", desc, m.pan)
	case !valid && !m.died:
		r.Failf("accepted", "%s: invalid arguments accepted", desc)
	}
}

// rejects checks that a call fails one way or another.
func rejects(r *R, m made, valid bool, desc string) {
	r.Ev(1)
	r.Distinct(desc)
	failed := m.died || m.err != nil
	switch {
	case valid && failed:
		r.Failf("rejected", "%s: valid arguments rejected: %v %v", desc, m.err, m.pan)
	case valid && m.none:
		r.Failf("nil", "%s returned neither a shape nor an error", desc)
	case !valid && !failed:
		r.Failf("accepted", "%s: invalid arguments accepted", desc)
	}
	if valid {
		r.Count("valid", 1)
	} else {
		r.Count("invalid", 1)
	}
}

// works checks that a shape answers.
func works(r *R, s shape, desc string) {
	if s.eval == nil {
		return
	}
	b := s.bound()
	if !finite3(b.Min) || !finite3(b.Max) {
		r.Failf("bounds", "%s: bounds %v", desc, b)
		return
	}
	for i := 0; i < 4; i++ {
		p := inBox3(r.Rand, b, 0.3)
		if v := s.eval(p); math.IsNaN(v) {
			r.Failf("nan", "%s: NaN at %s", desc, fmtv(p))
		}
		r.Ev(1)
	}
}

// same checks that two shapes agree bit for bit.
func same(r *R, a, b shape, desc string) {
	if a.eval == nil || b.eval == nil {
		return
	}
	if a.bound() != b.bound() {
		r.Failf("differ", "%s: bounds %v and %v", desc, a.bound(), b.bound())
	}
	for i := 0; i < 6; i++ {
		p := inBox3(r.Rand, a.bound(), 0.5)
		if x, y := a.eval(p), b.eval(p); x != y && !(math.IsNaN(x) && math.IsNaN(y)) {
			r.Failf("differ", "%s: values %v and %v at %s", desc, x, y, fmtv(p))
		}
		r.Ev(1)
	}
}

type constructor struct {
	name string
	run  func(r *R)
}

func twice2(r *R, valid bool, desc string, form func() (sdf.SDF2, error), must func() sdf.SDF2) {
	a := make2(form)
	b := make2(func() (sdf.SDF2, error) { return must(), nil })
	reports(r, a, valid, "form2."+desc)
	panicking(r, b, valid, "must2."+desc)
	if valid && r.fails == 0 {
		works(r, a.s, desc)
		same(r, a.s, b.s, desc)
	}
}

func twice3(r *R, valid bool, desc string, form func() (sdf.SDF3, error), must func() sdf.SDF3) {
	a := make3(form)
	b := make3(func() (sdf.SDF3, error) { return must(), nil })
	reports(r, a, valid, "form3."+desc)
	panicking(r, b, valid, "must3."+desc)
	if valid && r.fails == 0 {
		works(r, a.s, desc)
		same(r, a.s, b.s, desc)
	}
}

// failThread is a thread without profile.
type failThread struct{ customThread }

func (failThread) Thread() (sdf.SDF2, error) { return nil, fmt.Errorf("no such thread") }

func runC15(c *C) {
	cons := []constructor{
		{"circle", func(r *R) {
			rad := around(r, 0)
			twice2(r, rad >= 0, fmt.Sprintf("Circle(%g)", rad),
				func() (sdf.SDF2, error) { return form2.Circle(rad) },
				func() sdf.SDF2 { return must2.Circle(rad) })
		}},
		{"box2", func(r *R) {
			sz, rd := p2(span(r.Rand, 0, 4), span(r.Rand, 0, 4)), 0.0
			if r.Intn(2) == 0 {
				rd = r.Float64() * 0.5 * math.Min(sz.X, sz.Y)
			}
			twice2(r, true, fmt.Sprintf("Box(%v,%g)", sz, rd),
				func() (sdf.SDF2, error) { return form2.Box(sz, rd) },
				func() sdf.SDF2 { return must2.Box(sz, rd) })
		}},
		{"line", func(r *R) {
			l, rd := span(r.Rand, 0, 4), span(r.Rand, 0, 2)
			twice2(r, true, fmt.Sprintf("Line(%g,%g)", l, rd),
				func() (sdf.SDF2, error) { return form2.Line(l, rd) },
				func() sdf.SDF2 { return must2.Line(l, rd) })
		}},
		{"polygon", func(r *R) {
			n := r.Intn(7)
			v := make([]v2, n)
			a0 := r.Float64() * 7
			for i := range v {
				s, c := math.Sincos(a0 + 2*math.Pi*float64(i)/float64(n))
				v[i] = p2(s+r.Float64()*0.3, c)
			}
			twice2(r, n >= 3, fmt.Sprintf("Polygon(%v)", v),
				func() (sdf.SDF2, error) { return form2.Polygon(v) },
				func() sdf.SDF2 { return must2.Polygon(v) })
		}},
		{"nagon", func(r *R) {
			n, rad := r.Intn(12)-2, span(r.Rand, 0.25, 4)
			var a, b []v2
			var err error
			if v, died := Panics(func() { a, err = form2.Nagon(n, rad) }); died {
				r.Fatalf("panic", "form2.Nagon(%d,%g) panics: %v", n, rad, v)
			}
			Panics(func() { b = must2.Nagon(n, rad) })
			r.Ev(2)
			r.Distinct("nagon", n, rad)
			if n < 3 {
				if len(a) != 0 || len(b) != 0 {
					r.Failf("accepted", "Nagon(%d,%g) has vertices %v %v", n, rad, a, b)
				}
				return
			}
			if err != nil || len(a) != n || len(b) != n {
				r.Fatalf("rejected", "Nagon(%d,%g): %v, %d and %d vertices", n, rad, err, len(a), len(b))
			}
			for i := range a {
				if a[i] != b[i] {
					r.Failf("differ", "Nagon(%d,%g): %v and %v", n, rad, a[i], b[i])
				}
			}
		}},
		{"box3", func(r *R) {
			sz, rd := p3(pos(r), pos(r), pos(r)), 0.0
			if r.Intn(2) == 0 {
				rd = around(r, 0)
			}
			valid := sz.X > 0 && sz.Y > 0 && sz.Z > 0 && rd >= 0
			twice3(r, valid, fmt.Sprintf("Box(%v,%g)", sz, rd),
				func() (sdf.SDF3, error) { return form3.Box(sz, rd) },
				func() sdf.SDF3 { return must3.Box(sz, rd) })
		}},
		{"sphere", func(r *R) {
			rad := around(r, 0)
			twice3(r, rad > 0, fmt.Sprintf("Sphere(%g)", rad),
				func() (sdf.SDF3, error) { return form3.Sphere(rad) },
				func() sdf.SDF3 { return must3.Sphere(rad) })
		}},
		{"cylinder", func(r *R) {
			rad, rd := pos(r), 0.0
			h := pos(r)
			switch r.Intn(4) {
			case 0:
				rd = around(r, 0)
			case 1:
				rd = around(r, rad)
				h = 2*math.Abs(rd) + span(r.Rand, 0.1, 3)
			case 2:
				rd = around(r, h/2)
				rad = math.Abs(rd) + span(r.Rand, 0.1, 3)
			}
			valid := rad > 0 && rd >= 0 && rd <= rad && rd <= h/2
			if h <= 0 && valid { // a cylinder without height is not specified
				return
			}
			twice3(r, valid, fmt.Sprintf("Cylinder(%g,%g,%g)", h, rad, rd),
				func() (sdf.SDF3, error) { return form3.Cylinder(h, rad, rd) },
				func() sdf.SDF3 { return must3.Cylinder(h, rad, rd) })
		}},
		{"capsule", func(r *R) {
			rad := pos(r)
			h := around(r, 2*rad)
			valid := rad > 0 && rad <= h/2
			twice3(r, valid, fmt.Sprintf("Capsule(%g,%g)", h, rad),
				func() (sdf.SDF3, error) { return form3.Capsule(h, rad) },
				func() sdf.SDF3 { return must3.Cylinder(h, rad, rad) })
		}},
		{"cone", func(r *R) {
			h, rd := pos(r), 0.0
			r0, r1 := span(r.Rand, 0.25, 3), span(r.Rand, 0.25, 3)
			switch r.Intn(3) {
			case 0:
				rd = around(r, 0)
			case 1:
				rd = around(r, h/2)
			}
			valid := h > 0 && rd >= 0 && rd <= h/2
			desc := fmt.Sprintf("Cone(%g,%g,%g,%g)", h, r0, r1, rd)
			a := make3(func() (sdf.SDF3, error) { return form3.Cone(h, r0, r1, rd) })
			b := make3(func() (sdf.SDF3, error) { return must3.Cone(h, r0, r1, rd), nil })
			reports(r, a, valid, "form3."+desc)
			panicking(r, b, valid, "must3."+desc)
			if valid && r.fails == 0 {
				same(r, a.s, b.s, desc)
			}
		}},
		{"chamfered", func(r *R) {
			s := newGen(r).leaf3().s
			kb, kt := r.Float64()*0.5, r.Float64()*0.5
			if r.Intn(3) == 0 {
				kb, kt = r.Float64(), r.Float64()
			}
			twice3(r, true, fmt.Sprintf("ChamferedCylinder(%v,%g,%g)", s.Bounds(), kb, kt),
				func() (sdf.SDF3, error) { return form3.ChamferedCylinder(s, kb, kt) },
				func() sdf.SDF3 { return must3.ChamferedCylinder(s, kb, kt) })
		}},
		{"missing2", func(r *R) {
			g := newGen(r)
			nilAt := func(n int) ([]sdf.SDF2, bool) {
				v := make([]sdf.SDF2, n)
				ok := true
				hole := r.Intn(2 * (n + 1))
				for i := range v {
					if v[i] = g.leaf2().s; i == hole || r.Intn(12) == 0 {
						v[i], ok = nil, false
					}
				}
				return v, ok
			}
			switch k := r.Intn(6); k {
			case 0:
				v, ok := nilAt(r.Intn(6))
				ok = ok && len(v) >= 2
				panicking(r, make2(func() (sdf.SDF2, error) { return sdf.Union2D(v...), nil }), ok, fmt.Sprintf("Union2D(%d shapes) %v", len(v), v))
			case 1:
				v, ok := nilAt(2)
				panicking(r, make2(func() (sdf.SDF2, error) { return sdf.Difference2D(v[0], v[1]), nil }), ok, fmt.Sprintf("Difference2D %v", v))
			case 2:
				v, ok := nilAt(2)
				panicking(r, make2(func() (sdf.SDF2, error) { return sdf.Intersect2D(v[0], v[1]), nil }), ok, fmt.Sprintf("Intersect2D %v", v))
			case 3:
				v, ok := nilAt(1)
				n := r.Intn(4)
				panicking(r, make2(func() (sdf.SDF2, error) { return sdf.Multi2D(v[0], make([]v2, n)), nil }), ok && n > 0, fmt.Sprintf("Multi2D %v %d", v, n))
			case 4:
				n := r.Intn(9) - 4
				s := g.leaf2().s
				panicking(r, make2(func() (sdf.SDF2, error) { return sdf.RotateCopy2D(s, n), nil }), n > 0, fmt.Sprintf("RotateCopy2D %d", n))
			case 5:
				v, ok := nilAt(1)
				th := span(r.Rand, 0.5, 2*math.Pi)
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Revolve3D(v[0], th), nil }), ok, fmt.Sprintf("Revolve3D %v", v))
			}
			r.Count("missing shapes", 1)
			r.DistinctBits(2, r.Float64())
		}},
		{"missing3", func(r *R) {
			g := newGen(r)
			nilAt := func(n int) ([]sdf.SDF3, bool) {
				v := make([]sdf.SDF3, n)
				ok := true
				hole := r.Intn(2 * (n + 1))
				for i := range v {
					if v[i] = g.leaf3().s; i == hole || r.Intn(12) == 0 {
						v[i], ok = nil, false
					}
				}
				return v, ok
			}
			two := func() (a, b sdf.SDF2, ok bool) {
				a, b = g.leaf2().s, g.leaf2().s
				switch r.Intn(4) {
				case 0:
					return nil, b, false
				case 1:
					return a, nil, false
				case 2:
					return a, b, true
				}
				return nil, nil, false
			}
			switch k := r.Intn(7); k {
			case 0:
				v, ok := nilAt(r.Intn(6))
				ok = ok && len(v) >= 2
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Union3D(v...), nil }), ok, fmt.Sprintf("Union3D(%d shapes) %v", len(v), v))
			case 1:
				v, ok := nilAt(2)
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Difference3D(v[0], v[1]), nil }), ok, fmt.Sprintf("Difference3D %v", v))
			case 2:
				v, ok := nilAt(2)
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Intersect3D(v[0], v[1]), nil }), ok, fmt.Sprintf("Intersect3D %v", v))
			case 3:
				v, ok := nilAt(1)
				n := 1 + r.Intn(3)
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Multi3D(v[0], make([]v3, n)), nil }), ok, fmt.Sprintf("Multi3D %v %d", v, n))
			case 4:
				v, ok := nilAt(1)
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Orient3D(v[0], p3(0, 0, 1), []v3{dir3(r.Rand)}), nil }), ok, fmt.Sprintf("Orient3D %v", v))
			case 5:
				a, b, ok := two()
				h := span(r.Rand, 1, 4)
				rd := 0.4 * h * r.Float64()
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.Loft3D(a, b, h, rd), nil }), ok, fmt.Sprintf("Loft3D %v %v %g %g", a, b, h, rd))
			case 6:
				a, _, _ := two()
				h := span(r.Rand, 1, 4)
				rd := 0.4 * h * (0.1 + r.Float64())
				panicking(r, make3(func() (sdf.SDF3, error) { return sdf.ExtrudeRounded3D(a, h, rd), nil }), a != nil, fmt.Sprintf("ExtrudeRounded3D %v %g %g", a, h, rd))
			}
			r.Count("missing shapes", 1)
			r.DistinctBits(3, r.Float64())
		}},
		{"screw", func(r *R) {
			var t thread.Threader
			valid := true
			switch r.Intn(5) {
			case 0:
				valid = false
			case 1:
				t, valid = failThread{customThread{d: 4, p: 1, starts: 1}}, false
			case 2:
				t = customThread{d: span(r.Rand, 2, 8), p: 0.5, starts: r.Intn(7) - 3, taper: 0.1 * r.Float64()}
			default:
				t = newGen(r).threader()
			}
			l := around(r, 0)
			m := make3(func() (sdf.SDF3, error) { return thread.Screw(l, t) })
			desc := fmt.Sprintf("Screw(%g,%+v)", l, t)
			reports(r, m, valid && l > 0, desc)
			works(r, m.s, desc)
		}},
		{"bolt", func(r *R) {
			g := newGen(r)
			k := thread.BoltParms{TotalLength: span(r.Rand, 1, 12)}
			valid := true
			switch r.Intn(9) {
			case 0:
				valid = false
			case 1:
				k.Thread, valid = failThread{customThread{d: 4, p: 1, starts: 1}}, false
			case 2:
				k.Thread = customThread{d: span(r.Rand, 2, 8), p: 0.5, starts: 1 + r.Intn(3)}
			case 3: // no hex head for it
				k.Thread, valid = noHex{customThread{d: 4, p: 1, starts: 1}, around(r, 0)}, false
				if k.Thread.(noHex).f > 0 {
					return
				}
			default:
				k.Thread = g.threader()
			}
			k.Style = []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutHex, thread.NutKnurl, thread.NutCircular, 0, -1, 4, 77}[r.Intn(9)]
			valid = valid && (k.Style == thread.NutHex || k.Style == thread.NutKnurl)
			if r.Intn(3) == 0 {
				k.Tolerance = around(r, 0)
				if k.Tolerance > 0 {
					k.Tolerance = 0.01
				}
				valid = valid && k.Tolerance >= 0
			}
			switch r.Intn(6) {
			case 0:
				k.ShankLength = around(r, 0)
			case 1:
				k.ShankLength = around(r, k.TotalLength)
			case 2:
				k.TotalLength = -k.TotalLength
				if r.Intn(2) == 0 {
					k.ShankLength = k.TotalLength - 1
				}
			case 3:
				k.TotalLength = 0
			default:
				k.ShankLength = k.TotalLength * r.Float64() * 0.9
			}
			valid = valid && k.TotalLength > 0 && k.ShankLength >= 0 && k.ShankLength < k.TotalLength
			m := make3(func() (sdf.SDF3, error) { return thread.Bolt(k) })
			desc := fmt.Sprintf("Bolt(%+v)", k)
			reports(r, m, valid, desc)
			works(r, m.s, desc)
		}},
		{"nut", func(r *R) {
			g := newGen(r)
			k := thread.NutParms{}
			valid := true
			switch r.Intn(9) {
			case 0:
				valid = false
			case 1:
				k.Thread, valid = failThread{customThread{d: 4, p: 1, starts: 1}}, false
			case 2:
				k.Thread = customThread{d: span(r.Rand, 2, 8), p: 0.5, starts: 1 + r.Intn(3)}
			case 3:
				k.Thread, valid = noHex{customThread{d: 4, p: 1, starts: 1}, around(r, 0)}, false
				if k.Thread.(noHex).f > 0 {
					return
				}
			default:
				k.Thread = g.threader()
			}
			k.Style = []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular, 0, -1, 4, 77}[r.Intn(7)]
			valid = valid && k.Style >= thread.NutCircular && k.Style <= thread.NutKnurl
			if r.Intn(3) == 0 {
				k.Tolerance = around(r, 0)
				if k.Tolerance > 0 {
					k.Tolerance = 0.01
				}
				valid = valid && k.Tolerance >= 0
			}
			m := make3(func() (sdf.SDF3, error) { return thread.Nut(k) })
			desc := fmt.Sprintf("Nut(%+v)", k)
			reports(r, m, valid, desc)
			works(r, m.s, desc)
		}},
		{"npt", func(r *R) {
			known := []float64{1. / 8, 1. / 4, 3. / 8, 1. / 2, 3. / 4, 1, 1.25, 1.5, 2, 2.5, 3, 4}
			x := known[r.Intn(len(known))]
			valid := true
			switch r.Intn(3) {
			case 0:
				x, valid = span(r.Rand, 4.5, 40), false
			case 1:
				x, valid = []float64{0, -1, -0.125, -4, 0.05, 5. / 8, 7. / 8, 1.75, 2.25, 3.5, 0.1875 + 0.12, 1.125, 1.375, 2.75}[r.Intn(14)], false
			}
			before := thread.NPT{D: r.Float64(), TPI: 1 + r.Float64(), F2F: r.Float64()}
			t := before
			err := t.SetFromNominal(x)
			r.Ev(1)
			r.Distinct("npt", x)
			switch {
			case valid && err != nil:
				r.Failf("rejected", "NPT size %g: %v", x, err)
			case !valid && err == nil:
				r.Failf("accepted", "NPT size %g accepted as %+v", x, t)
			case !valid && t != before:
				r.Failf("changed", "NPT size %g: thread %+v changed to %+v", x, before, t)
			}
		}},
		{"panel", func(r *R) {
			g := newGen(r)
			switch r.Intn(4) {
			case 0:
				k := g.panelParams()
				if r.Intn(2) == 0 {
					k.Thickness = around(r, 0)
				}
				rejects(r, make3(func() (sdf.SDF3, error) { return obj3.Panel(k) }), k.Thickness > 0, fmt.Sprintf("Panel(%+v)", k))
			case 1:
				k := g.holeParams()
				switch r.Intn(6) {
				case 0:
					k.Diameter = around(r, 0)
				case 1:
					k.Thickness = around(r, 0)
				case 2:
					k.Offset = around(r, 0)
				case 3:
					k.Indent = with3(k.Indent, r.Intn(3), around(r, 0))
				}
				valid := k.Diameter > 0 && k.Thickness > 0 && k.Offset >= 0 && k.Indent.X >= 0 && k.Indent.Y >= 0 && k.Indent.Z >= 0
				rejects(r, make3(func() (sdf.SDF3, error) { kk := k; return obj3.PanelHole(&kk) }), valid, fmt.Sprintf("PanelHole(%+v)", k))
			case 2:
				k := obj2.EuroRackParams{U: float64(1 + r.Intn(6)), HP: float64(2 + r.Intn(30)), Thickness: 2}
				switch r.Intn(7) {
				case 0:
					k.U = around(r, 1)
				case 1:
					k.HP = around(r, 1)
					if k.HP > 1 && k.HP < 2 { // hardly a panel
						k.HP = 2
					}
				case 2:
					k.CornerRadius = around(r, 0)
					if k.CornerRadius > 1 {
						k.CornerRadius = 1
					}
				case 3:
					k.HoleDiameter = around(r, 0)
				case 4:
					k.Ridge = true
				}
				valid := k.U >= 1 && k.HP > 1 && k.CornerRadius >= 0 && k.HoleDiameter >= 0
				rejects(r, make2(func() (sdf.SDF2, error) { return obj2.EuroRackPanel(k) }), valid, fmt.Sprintf("obj2.EuroRackPanel(%+v)", k))
				if r.Intn(2) == 0 {
					k.Thickness = around(r, 0)
				}
				// a ridge needs a panel taller than it is short
				valid = valid && k.Thickness > 0
				rejects(r, make3(func() (sdf.SDF3, error) { return obj3.EuroRackPanel(k) }), valid, fmt.Sprintf("obj3.EuroRackPanel(%+v)", k))
			case 3:
				k := thread.KnurlParams{Length: pos(r), Radius: pos(r), Pitch: pos(r), Height: pos(r), Theta: span(r.Rand, 0.1, 1.4)}
				switch r.Intn(5) {
				case 0:
					k.Theta = around(r, 0)
				case 1:
					k.Theta = around(r, math.Pi/2)
					if k.Theta > 1.5 && k.Theta < math.Pi/2 {
						k.Theta = 1.5
					}
				}
				valid := k.Length > 0 && k.Radius > 0 && k.Pitch > 0 && k.Height > 0 && k.Theta >= 0 && k.Theta < math.Pi/2
				// tiny positive values give a knurl that is degenerate but not refused
				if valid && math.Min(math.Min(k.Length, k.Radius), math.Min(k.Pitch, k.Height)) < 1e-3 {
					return
				}
				rejects(r, make3(func() (sdf.SDF3, error) { return thread.Knurl(k) }), valid, fmt.Sprintf("Knurl(%+v)", k))
			}
		}},
		{"head", func(r *R) {
			style := []string{"", "t", "b", "tb"}[r.Intn(4)]
			rad := span(r.Rand, 0.25, 20)
			h := rad * (0.2 + r.Float64())
			rejects(r, make3(func() (sdf.SDF3, error) { return thread.HexHead(rad, h, style) }), true, fmt.Sprintf("HexHead(%g,%g,%q)", rad, h, style))
			p := rad * (0.1 + 0.2*r.Float64())
			h = p*(1+3*r.Float64()) + rad*0.11
			rejects(r, make3(func() (sdf.SDF3, error) { return thread.KnurledHead(rad, h, p) }), true, fmt.Sprintf("KnurledHead(%g,%g,%g)", rad, h, p))
		}},
		{"renderer", func(r *R) {
			n := r.Intn(12) - 4
			s := newGen(r).leaf3().s
			_, died := Panics(func() { render.NewOctreeRenderer(s, n) })
			r.Ev(1)
			r.Distinct("renderer", n)
			if died != (n < 2) {
				r.Failf("cells", "NewOctreeRenderer with %d cells: panic %v", n, died)
			}
		}},
	}
	per := c.scale(5000, 60000)
	for _, k := range cons {
		k := k
		c.Cases(k.name, per, func(_ int, r *R) { k.run(r) })
	}
	c.Run("constants", func(r *R) {
		for name, v := range map[string]float64{"must2": must2.InchesPerMillimetre, "must3": must3.InchesPerMillimetre, "obj2": obj2.InchesPerMillimetre} {
			r.Ev(1)
			if !near(v, 1/25.4, 1e-15) {
				r.Failf("constant", "%s.InchesPerMillimetre is %v", name, v)
			}
		}
		for style, want := range map[thread.NutStyle]string{thread.NutCircular: "circular", thread.NutHex: "hex", thread.NutKnurl: "knurl", 0: "unknown", 9: "unknown"} {
			if got := style.String(); !strings.EqualFold(got, want) {
				r.Failf("style", "style %d is %q, want %q", int(style), got, want)
			}
		}
	})
}

// noHex is a thread without a known flat to flat distance.
type noHex struct {
	customThread
	f float64
}

func (n noHex) ThreadParams() thread.Parameters {
	p := n.customThread.ThreadParams()
	p.HexF2F = n.f
	return p
}
