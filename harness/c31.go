package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C31", level: "monitored",
		rule: "a rendering of a ready made part, distinct by part and number of cells",
		assumptions: []string{
			"vertices closer than a millionth of a cell are one vertex",
			"points are on the side the mesh says if no surface is within two cells of them",
			"how far distances of screws and knurls are overestimated is known from their helix and taper (C12)",
		}, run: runC31})
}

// steep says by how much distances can be overestimated at a distance from the axis.
type steep struct{ lead, taper float64 }

func (s steep) at(rho float64) float64 {
	if rho <= 0 {
		return math.Inf(1)
	}
	h := s.lead / (2 * math.Pi * rho)
	x, y := 1+h*h, 1+s.taper*s.taper
	return math.Sqrt((x + y + math.Hypot(x-y, 2*s.taper)) / 2)
}

// cautious is a shape whose values are lowered to true lower bounds of the distance, signs stay.
type cautious struct {
	sdf.SDF3
	st steep
}

func (c cautious) Evaluate(p v3) float64 {
	d := c.SDF3.Evaluate(p)
	rho := math.Hypot(p.X, p.Y)
	reach := math.Min(math.Abs(d), rho/2)
	e := math.Abs(d) / c.st.at(rho-reach)
	if !(e < rho/2) {
		e = rho / 2
	}
	if e == 0 && d != 0 {
		e = math.Min(math.Abs(d), 1e-9) // on the axis
	}
	return math.Copysign(e, d)
}

// threadSteepness is the steepness of screws of a thread.
func threadSteepness(t thread.Threader) steep {
	p := t.ThreadParams()
	return steep{math.Abs(p.Pitch * float64(p.Starts)), math.Abs(math.Tan(p.Taper))}
}

func knurlSteepness(rad, theta float64) steep { return steep{2 * math.Pi * rad * math.Tan(theta), 0} }

func (s steep) or(t steep) steep {
	return steep{math.Max(s.lead, t.lead), math.Max(s.taper, t.taper)}
}

// part returns a ready made part and how much its distances may be overestimated.
func part(r *R) (s sdf.SDF3, st steep, d string) {
	g := newGen(r)
	var err error
	head := func(style thread.NutStyle, t thread.Threader) steep {
		st := threadSteepness(t)
		if style == thread.NutKnurl {
			hr, _ := hexSize(t.ThreadParams())
			st = st.or(knurlSteepness(hr, math.Pi/4))
		}
		return st
	}
	switch k := r.Intn(8); k {
	case 0:
		p := g.standoffParams(true)
		s, err = obj3.Standoff(p)
		d = fmt.Sprintf("Standoff(%+v)", p)
	case 1:
		rad := span(r.Rand, 1, 4)
		pitch := rad * (0.1 + 0.2*r.Float64())
		h := pitch * (2 + 3*r.Float64())
		s, err = thread.KnurledHead(rad, h, pitch)
		st, d = knurlSteepness(rad, math.Pi/4), fmt.Sprintf("KnurledHead(%g,%g,%g)", rad, h, pitch)
	case 2:
		p := thread.KnurlParams{Radius: span(r.Rand, 1, 6), Length: span(r.Rand, 1, 6), Theta: (10 + 50*r.Float64()) * math.Pi / 180}
		p.Pitch = p.Radius * (0.1 + 0.2*r.Float64())
		p.Height = p.Pitch * (0.1 + 0.3*r.Float64())
		s, err = thread.Knurl(p)
		st, d = knurlSteepness(p.Radius, p.Theta), fmt.Sprintf("Knurl(%+v)", p)
	case 3, 4:
		t := g.threader()
		l := t.ThreadParams().Radius * span(r.Rand, 0.5, 3)
		s, err = thread.Screw(l, t)
		st, d = threadSteepness(t), fmt.Sprintf("Screw(%g,%T%+v)", l, t, t)
	case 5, 6:
		t := g.threader()
		tot := t.ThreadParams().Radius * span(r.Rand, 1, 5)
		p := thread.BoltParms{Thread: t, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[r.Intn(2)], TotalLength: tot, ShankLength: tot * 0.8 * r.Float64()}
		s, err = thread.Bolt(p)
		st, d = head(p.Style, t), fmt.Sprintf("Bolt(%T%+v)", t, p)
	case 7:
		t := g.threader()
		p := thread.NutParms{Thread: t, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular}[r.Intn(3)]}
		s, err = thread.Nut(p)
		st, d = head(p.Style, t), fmt.Sprintf("Nut(%T%+v)", t, p)
	}
	return ok3(r, s, err), st, d
}

func runC31(c *C) {
	c.Cases("part", c.scale(500, 9000), func(i int, r *R) {
		s, st, d := part(r)
		cells := 12 + r.Intn(70)
		if i%20 == 0 {
			cells = 100 + r.Intn(60)
		}
		d = fmt.Sprintf("%s, %d cells", d, cells)
		l := latticeOf(s.Bounds(), cells)
		tris := renderAll(r, s, cells)
		r.DistinctBits(1, float64(cells), s.Bounds().Max.X, s.Bounds().Max.Z, float64(len(tris)))
		r.Sample("%.150s: %d triangles", d, len(tris))
		if len(tris) == 0 {
			r.Count("empty", 1) // walls thinner than a cell
		}
		sure := cautious{s, st}
		if st != (steep{}) {
			f, vs := weld(tris, 1e-6*l.cell)
			open := openEdges(f)
			// with the overestimate taken off, the mesh must be closed whatever the part
			tris = renderAll(r, sure, cells)
			r.Count("parts with helices", 1)
			if len(open) != 0 {
				r.Count("renderings with open edges due to the helix", 1)
				for e := range open {
					r.Failf("helix", "%s: %d edges are open, such as %s to %s", d, len(open), fmtv(vs[e[0]]), fmtv(vs[e[1]]))
					break
				}
			}
			d += ", distances lowered by the slope of the helix"
		}
		watchClosed(r, tris, l.cell, d)
		if v := meshVolume(tris); len(tris) > 0 && !(v > 0) {
			r.Failf("inside-out", "%s: volume %v", d, v)
		}
		arr := arrays(tris)
		for k := 0; k < 20; k++ {
			p := inBox3(r.Rand, s.Bounds(), 0.1)
			v := s.Evaluate(p)
			if !(math.Abs(sure.Evaluate(p)) > 2*l.cell) {
				continue
			}
			want := 0.0
			if v < 0 {
				want = 1
			}
			r.Ev(1)
			if w := meshWinding(p, arr); math.Abs(w-want) > 1e-3 {
				r.Failf("winding", "%s: winding number %g at %s where the field is %v and cells measure %v", d, w, fmtv(p), v, l.cell)
			}
			r.Count(fmt.Sprintf("points of winding %g", want), 1)
		}
	})
}
