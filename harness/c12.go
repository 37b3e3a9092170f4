package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C12", level: "exploration", run: runC12,
		rule: "a pair of points whose values were compared with their distance, distinct by the bits of both points; pairs lie far apart, close together, across axes and box faces and along walks up the steepest slope found",
		assumptions: []string{
			"a violation confined to a region smaller than the sampling finds may be missed; slopes up to 1e-6 above 1 are taken for rounding",
		}})
}

// vec is a point in 2D (z is zero) or 3D.
type field3 func(v3) float64

// watchLipschitz searches for two points whose values differ by more than their distance.
func watchLipschitz(r *R, f field3, flat bool, b box3, desc string, effort int) {
	if flat {
		b.Min.Z, b.Max.Z = 0, 0
	}
	d := math.Max(diag3(b), 1e-3)
	m := math.Max(mag3(b), d)
	worst := 0.0
	var evals int
	dir := func() v3 {
		if flat {
			e := dir2(r.Rand)
			return p3(e.X, e.Y, 0)
		}
		return dir3(r.Rand)
	}
	check := func(p, q v3) float64 {
		fp, fq := f(p), f(q)
		evals++
		dist := len3(sub3(p, q))
		if dist == 0 {
			return 0
		}
		diff := math.Abs(fp - fq)
		if diff > dist*(1+1e-6)+1e-11*(m+len3(p)+len3(q)) || math.IsNaN(diff) {
			r.Failf("overestimates", "values %.17g at %.17g and %.17g at %.17g differ by %.9g, the points by %.9g in %s", fp, p, fq, q, diff, dist, desc)
		}
		if r.Intn(4) == 0 {
			r.DistinctBits(12, p.X, p.Y, p.Z, q.X, q.Y, q.Z)
		}
		return diff / dist
	}
	special := func() v3 {
		p := inBox3(r.Rand, b, 0.5)
		switch r.Intn(5) {
		case 0: // on coordinate planes
			p = with3(p, r.Intn(3), 0)
		case 1: // at box planes
			ax := r.Intn(3)
			p = with3(p, ax, comp3([]v3{b.Min, b.Max, mul3(0.5, add3(b.Min, b.Max))}[r.Intn(3)], ax))
		case 2: // close to an axis
			p = p3(p.X*1e-3, p.Y*1e-3, p.Z)
		}
		if flat {
			p.Z = 0
		}
		return p
	}
	for i := 0; i < effort && r.fails == 0; i++ {
		p := special()
		switch r.Intn(4) {
		case 0:
			check(p, special())
		case 1: // at a distance and far
			check(p, add3(p, mul3(d*math.Pow(10, 3*r.Float64()-1), dir())))
		default: // steepest slope: gradient at several resolutions, then walk along it
			h := d * math.Pow(10, -1-4*r.Float64())
			var g v3
			n := 3
			if flat {
				n = 2
			}
			for ax := 0; ax < n; ax++ {
				e := with3(v3{}, ax, h)
				g = with3(g, ax, (f(add3(p, e))-f(sub3(p, e)))/(2*h))
			}
			if l := len3(g); l > 0 {
				g = mul3(h/l, g)
				worst = math.Max(worst, check(p, add3(p, g)))
				check(sub3(p, g), add3(p, g))
				check(p, sub3(p, mul3(d/h*r.Float64(), g)))
			}
			// jumps: bisect towards the steepest half of a random segment
			a, c := p, add3(p, mul3(d*math.Pow(10, -2*r.Float64()), dir()))
			for k := 0; k < 24 && r.fails == 0; k++ {
				mid := mul3(0.5, add3(a, c))
				fa, fm, fc := f(a), f(mid), f(c)
				evals++
				if math.Abs(fm-fa) > math.Abs(fc-fm) {
					check(a, mid)
					c = mid
				} else {
					check(mid, c)
					a = mid
				}
			}
		}
	}
	r.Ev(evals)
	r.Max("steepest slope (1e-6)", int(worst*1e6))
}

func lipMin(r *R) (sdf.MinFunc, string) {
	switch r.Intn(4) {
	case 0:
		k := span(r.Rand, 0.5, 32)
		return sdf.MinExp(k), fmt.Sprintf("MinExp(%g)", k)
	case 1:
		k := span(r.Rand, 1, 16)
		return sdf.MinPow(k), fmt.Sprintf("MinPow(%g)", k)
	}
	n, k := 1+r.Intn(5), span(r.Rand, 0.0625, 3)
	return sdf.MinPoly(n, k), fmt.Sprintf("MinPoly(%d,%g)", n, k)
}

// blend3 joins lipschitz shapes with blends.
func (g *gen) blend3(depth int) node3 {
	r := g.r
	a := g.node3(depth)
	f, d := lipMin(r)
	n, k := 1+r.Intn(5), span(r.Rand, 0.0625, 3)
	switch r.Intn(6) {
	case 0:
		b, c := g.node3(depth), g.node3(depth)
		u := sdf.Union3D(a.s, b.s, c.s)
		u.SetMin(f)
		return node3{s: u, lip: a.lip && b.lip && c.lip, d: fmt.Sprintf("%s Union(%s;%s;%s)", d, a.d, b.d, c.d)}
	case 1:
		b := g.node3(depth)
		u := sdf.Difference3D(a.s, b.s)
		u.SetMax(sdf.MaxPoly(n, k))
		return node3{s: u, lip: a.lip && b.lip, d: fmt.Sprintf("MaxPoly(%d,%g) Difference(%s;%s)", n, k, a.d, b.d)}
	case 2:
		b := g.node3(depth)
		u := sdf.Intersect3D(a.s, b.s)
		u.SetMax(sdf.MaxPoly(n, k))
		return node3{s: u, lip: a.lip && b.lip, d: fmt.Sprintf("MaxPoly(%d,%g) Intersect(%s;%s)", n, k, a.d, b.d)}
	case 3:
		num := sdf.V3i{1 + r.Intn(3), 1 + r.Intn(2), 1 + r.Intn(2)}
		st := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3))
		u := sdf.Array3D(a.s, num, st)
		u.SetMin(f)
		return node3{s: u, lip: a.lip, d: fmt.Sprintf("%s Array(%s;%v;%v)", d, a.d, num, st)}
	case 4:
		t := angle(r.Rand)
		u := sdf.RotateUnion3D(a.s, 1+r.Intn(5), sdf.RotateZ(t))
		u.SetMin(f)
		return node3{s: u, lip: a.lip, d: fmt.Sprintf("%s RotateUnion(%s;%g)", d, a.d, t)}
	}
	b := g.blend2(depth)
	h := span(r.Rand, 0.5, 4)
	if r.Intn(2) == 0 {
		return node3{s: sdf.Extrude3D(b.s, h), lip: b.lip, d: fmt.Sprintf("Extrude(%s;%g)", b.d, h)}
	}
	t := []float64{2 * math.Pi, math.Pi, 1, 4, 5.5}[r.Intn(5)]
	return node3{s: sdf.Revolve3D(b.s, t), lip: b.lip, d: fmt.Sprintf("Revolve(%s;%g)", b.d, t)}
}

func (g *gen) blend2(depth int) node2 {
	r := g.r
	a := g.node2(depth)
	f, d := lipMin(r)
	n, k := 1+r.Intn(5), span(r.Rand, 0.0625, 3)
	switch r.Intn(5) {
	case 0:
		b, c := g.node2(depth), g.node2(depth)
		u := sdf.Union2D(a.s, b.s, c.s)
		u.SetMin(f)
		return node2{s: u, lip: a.lip && b.lip && c.lip, d: fmt.Sprintf("%s Union(%s;%s;%s)", d, a.d, b.d, c.d)}
	case 1:
		b := g.node2(depth)
		u := sdf.Difference2D(a.s, b.s)
		u.SetMax(sdf.MaxPoly(n, k))
		return node2{s: u, lip: a.lip && b.lip, d: fmt.Sprintf("MaxPoly(%d,%g) Difference(%s;%s)", n, k, a.d, b.d)}
	case 2:
		b := g.node2(depth)
		u := sdf.Intersect2D(a.s, b.s)
		u.SetMax(sdf.MaxPoly(n, k))
		return node2{s: u, lip: a.lip && b.lip, d: fmt.Sprintf("MaxPoly(%d,%g) Intersect(%s;%s)", n, k, a.d, b.d)}
	case 3:
		num := sdf.V2i{1 + r.Intn(3), 1 + r.Intn(3)}
		st := p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3))
		u := sdf.Array2D(a.s, num, st)
		u.SetMin(f)
		return node2{s: u, lip: a.lip, d: fmt.Sprintf("%s Array(%s;%v;%v)", d, a.d, num, st)}
	}
	t := angle(r.Rand)
	u := sdf.RotateUnion2D(a.s, 1+r.Intn(5), sdf.Rotate2D(t))
	if b, ok := u.(sdf.SDF2Union); ok {
		b.SetMin(f)
	}
	return node2{s: u, lip: a.lip, d: fmt.Sprintf("%s RotateUnion(%s;%g)", d, a.d, t)}
}

func runC12(c *C) {
	watch2 := func(r *R, n node2) {
		if !n.lip {
			r.Count("left out", 1)
			return
		}
		b := n.s.Bounds()
		watchLipschitz(r, func(p v3) float64 { return n.s.Evaluate(p2(p.X, p.Y)) }, true,
			box3{Min: p3(b.Min.X, b.Min.Y, 0), Max: p3(b.Max.X, b.Max.Y, 0)}, n.d, 40)
		r.Count("shapes 2D", 1)
		r.Sample("%.120s", n.d)
	}
	watch3 := func(r *R, n node3) {
		if !n.lip {
			r.Count("left out", 1)
			return
		}
		watchLipschitz(r, n.s.Evaluate, false, n.s.Bounds(), n.d, 40)
		r.Count("shapes 3D", 1)
		r.Sample("%.120s", n.d)
	}
	newLip := func(r *R) *gen { g := newGen(r); g.lip = true; return g }
	c.Cases("shape2", c.scale(15000, 300000), func(i int, r *R) { watch2(r, newLip(r).node2(i%4)) })
	c.Cases("shape3", c.scale(20000, 300000), func(i int, r *R) { watch3(r, newLip(r).node3(i%4)) })
	c.Cases("blend2", c.scale(8000, 150000), func(i int, r *R) { watch2(r, newLip(r).blend2(i%3)) })
	c.Cases("blend3", c.scale(8000, 150000), func(i int, r *R) {
		n := newLip(r).blend3(i % 3)
		switch r.Intn(4) { // and what is made of them
		case 0:
			m, d := newLip(r).rigid3(false)
			n.s, n.d = m.apply(n.s), d+n.d
		case 1:
			n.s, n.d = sdf.Elongate3D(n.s, p3(0.5, 1, 0)), "Elongate "+n.d
		case 2:
			n.s, n.d = sdf.Shell3D(n.s, 0.25), "Shell "+n.d
		}
		watch3(r, n)
	})
	c.Cases("negative offset", c.scale(4000, 60000), func(i int, r *R) {
		if i%2 == 0 {
			n := newLip(r).node2(i % 3)
			n.s, n.d = sdf.Offset2D(n.s, -0.25*r.Float64()), "Offset -"+n.d
			watch2(r, n)
			return
		}
		n := newLip(r).node3(i % 3)
		n.s, n.d = sdf.Offset3D(n.s, -0.25*r.Float64()), "Offset -"+n.d
		watch3(r, n)
	})
	// screws stretch distances by the slopes of their helix and taper, and by no more
	c.Cases("screw", c.scale(6000, 90000), func(i int, r *R) {
		var s sdf.SDF3
		var err error
		var d string
		var lead, taper, rad, length float64
		if i%4 == 0 {
			k := thread.KnurlParams{Radius: span(r.Rand, 1, 6), Length: span(r.Rand, 1, 6), Theta: (10 + 60*r.Float64()) * math.Pi / 180}
			k.Pitch = k.Radius * (0.05 + 0.2*r.Float64())
			k.Height = k.Pitch * (0.1 + 0.3*r.Float64())
			s, err = thread.Knurl(k)
			d, rad, length = fmt.Sprintf("Knurl(%+v)", k), k.Radius, k.Length
			lead = 2 * math.Pi * k.Radius * math.Tan(k.Theta)
		} else {
			t := newGen(r).threader()
			par := t.ThreadParams()
			rad, lead, taper = par.Radius, par.Pitch*float64(par.Starts), math.Tan(par.Taper)
			length = rad * span(r.Rand, 0.5, 4)
			s, err = thread.Screw(length, t)
			d = fmt.Sprintf("Screw(%g, %T%+v)", length, t, t)
		}
		s = ok3(r, s, err)
		for k := 0; k < 60; k++ {
			// mostly near the surface and from one pitch to the next
			a, rho := angle(r.Rand), rad*(0.4+0.9*r.Float64())
			p := p3(rho*math.Cos(a), rho*math.Sin(a), length*(r.Float64()-0.5)*1.1)
			step := rad * []float64{1e-5, 1e-3, 0.02, 0.1}[r.Intn(4)] * (0.5 + r.Float64())
			q := add3(p, mul3(step, dir3(r.Rand)))
			low := rho - step
			h := lead / (2 * math.Pi * low)
			x, y := 1+h*h, 1+taper*taper
			stretch := math.Sqrt((x + y + math.Hypot(x-y, 2*taper)) / 2)
			u, v := s.Evaluate(p), s.Evaluate(q)
			r.Ev(1)
			r.DistinctBits(7, p.X, p.Y, p.Z)
			if math.Abs(u-v) > step*stretch*(1+1e-6)+1e-9*rad {
				r.Failf("screw", "%s: %v at %s and %v at %s: %v apart, which the helix and taper stretch %v times at most", d, u, fmtv(p), v, fmtv(q), step, stretch)
			}
			r.Max("steepness in percent of what helix and taper allow", int(100*math.Abs(u-v)/(step*stretch)))
		}
		r.Count("screws and knurls", 1)
	})
	c.Cases("object", c.scale(6000, 80000), func(i int, r *R) {
		g := newGen(r)
		var s sdf.SDF3
		var err error
		d := ""
		switch i % 5 {
		case 0:
			p := g.panelParams()
			q, e := obj2.Panel(p)
			watch2(r, node2{s: ok2(r, q, e), lip: true, d: fmt.Sprintf("Panel(%+v)", p)})
			return
		case 1:
			p := obj2.EuroRackParams{U: 1 + float64(r.Intn(6)), HP: 2 + float64(r.Intn(30)), CornerRadius: 2 * r.Float64(), Thickness: span(r.Rand, 0.5, 4), Ridge: r.Intn(2) == 0}
			s, err = obj3.EuroRackPanel(p)
			d = fmt.Sprintf("EuroRack(%+v)", p)
		case 2:
			p := g.holeParams()
			s, err = obj3.PanelHole(&p)
			d = fmt.Sprintf("PanelHole(%+v)", p)
		case 3:
			p := g.standoffParams(false)
			s, err = obj3.Standoff(p)
			d = fmt.Sprintf("Standoff(%+v)", p)
		case 4:
			rad, h, rd := span(r.Rand, 0.5, 4), span(r.Rand, 0.5, 9), []string{"", "t", "b", "tb"}[r.Intn(4)]
			s, err = thread.HexHead(rad, h, rd)
			d = fmt.Sprintf("HexHead(%g,%g,%q)", rad, h, rd)
		}
		watch3(r, node3{s: ok3(r, s, err), lip: true, d: d})
	})
}
