package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C17", level: "monitored",
		rule: "a point of a thread profile compared with the standard, or a parameter set, distinct by thread and point",
		assumptions: []string{
			"a rounded root or crest may be made of straight facets, which is allowed 0.6% of the pitch",
			"the hex sizes of metric threads are those of the table of the repository's test; UTS threads, whose hex size the code leaves open, only need one that is positive",
		}, run: runC17})
}

// standard is the outline of one thread from left to right, with fillets.
func standard(t thread.Threader) (loop []bv, p, radius float64) {
	plain := func(x, y float64) { loop = append(loop, bv{p: p2(x, y)}) }
	round := func(x, y, rad float64) { loop = append(loop, bv{p: p2(x, y), kind: 1, radius: rad, facets: 64}) }
	iso := func(d, pitch float64, ext bool) {
		p, radius = pitch, d/2
		h := pitch * math.Sqrt(3) / 2 // height of the sharp triangle
		if ext {
			// crest P/8 wide at the major radius, root rounded to the flanks at the sharp root truncated by H/8... of
			// a triangle whose sharp root is 7/8 H below the major radius
			plain(p, radius+h/8)
			round(p/2, radius-h*7/8, h/6)
			plain(p/16, radius)
			plain(-p/16, radius)
			round(-p/2, radius-h*7/8, h/6)
			plain(-p, radius+h/8)
		} else {
			// minor radius 5/8 H below the major one, P/4 wide, crest rounded
			plain(p, radius-h*5/8)
			plain(p*3/8, radius-h*5/8)
			round(0, radius+h/8, h/12)
			plain(-p*3/8, radius-h*5/8)
			plain(-p, radius-h*5/8)
		}
	}
	buttress := func(d, pitch, r0, r1, r2 float64) {
		p, radius = pitch, d/2
		t45, t7 := 1.0, math.Tan(7*math.Pi/180)
		h := p / (t45 + t7)
		depth := 0.3*p + h/2 // of the sharp root below the crest
		// the sharp root lies where a 7 degree and a 45 degree flank meet that leave a crest truncated by h-depth
		rootX := h*t45 - p/2
		put := func(x, y, rad float64) {
			if rad == 0 {
				plain(x, y)
			} else {
				round(x, y, rad)
			}
		}
		plain(2*p, radius)
		for _, x := range []float64{p, 0, -p} {
			put(x+rootX+depth*t7, radius, r0)
			put(x+rootX, radius-depth, r1)
			put(x+rootX-depth*t45, radius, r2)
		}
		plain(-2*p, radius)
	}
	switch t := t.(type) {
	case thread.ISO:
		iso(t.D, t.P, t.Ext)
	case thread.UTS:
		iso(t.D, 1/t.TPI, t.Ext)
	case thread.NPT:
		iso(t.D, 1/t.TPI, false)
	case thread.Acme:
		p, radius = t.P, t.D/2
		d := p / 4 * math.Tan(14.5*math.Pi/180)
		plain(p, radius-p/2)
		plain(p/4+d, radius-p/2)
		plain(p/4-d, radius)
		plain(-p/4+d, radius)
		plain(-p/4-d, radius-p/2)
		plain(-p, radius-p/2)
	case thread.ANSIButtress:
		buttress(t.D, t.P, 0, 0.0714*t.P, 0)
	case thread.PlasticButtress:
		buttress(t.D, t.P, 0.05*t.P, 0.15*t.P, 0.15*t.P)
	default:
		panic(harnessError("unknown thread"))
	}
	return
}

// heightAt returns the height of an outline that runs from right to left.
func heightAt(line []v2, x float64) float64 {
	h := math.Inf(-1)
	for i := 1; i < len(line); i++ {
		a, b := line[i-1], line[i]
		if x > a.X || x < b.X || a.X == b.X {
			continue
		}
		h = math.Max(h, a.Y+(b.Y-a.Y)*(x-a.X)/(b.X-a.X))
	}
	return h
}

func runC17(c *C) {
	c.Cases("profile", c.scale(14000, 200000), func(i int, r *R) {
		var t thread.Threader
		d := span(r.Rand, 1, 64) * []float64{1, 1, 0.05, 10}[r.Intn(4)]
		p := d * (0.03 + 0.2*r.Float64())
		switch i % 7 {
		case 0:
			t = thread.ISO{D: d, P: p, Ext: true}
		case 1:
			t = thread.ISO{D: d, P: p}
		case 2:
			t = thread.UTS{D: d, TPI: 1 / p, Ext: r.Intn(2) == 0}
		case 3:
			t = thread.Acme{D: d, P: p}
		case 4:
			t = thread.ANSIButtress{D: d, P: p}
		case 5:
			t = thread.PlasticButtress{D: d, P: p}
		case 6:
			t = thread.NPT{D: d, TPI: 1 / p, F2F: span(r.Rand, 1, 9) * float64(r.Intn(2))}
		}
		s, err := t.Thread()
		s = ok2(r, s, err)
		loop, pitch, radius := standard(t)
		line := refVertices(loop, false)
		sharp := make([]v2, len(loop))
		for i, b := range loop {
			sharp[i] = b.p
		}
		desc := fmt.Sprintf("%T%+v", t, t)
		r.Count(fmt.Sprintf("%T", t), 1)
		off := func(q v2) float64 {
			d := math.Inf(1)
			for i := 1; i < len(line); i++ {
				d = math.Min(d, segDist2(q, line[i-1], line[i]))
			}
			return d
		}
		check := func(x float64) {
			h := heightAt(line, x)
			tol := 1e-8 * radius
			if hs := heightAt(sharp, x); math.Abs(hs-h) > 1e-9*radius {
				// far enough above and below not to be among the facets
				for tol = 0.006 * pitch; ; tol *= 1.5 {
					if off(p2(x, h-tol)) >= 0.006*pitch && off(p2(x, h+tol)) >= 0.006*pitch || tol > pitch {
						break
					}
				}
				r.Count("points at fillets", 1)
			}
			r.Ev(4)
			r.DistinctBits(uint64(i), x, d, p)
			if v := s.Evaluate(p2(x, h-tol)); !(v < 0) {
				r.Failf("low", "%s: the standard has height %v at %g (%g of a pitch), the profile is lower: value %v at %v", desc, h, x, x/pitch, v, h-tol)
			}
			if v := s.Evaluate(p2(x, h+tol)); !(v > 0) {
				r.Failf("high", "%s: the standard has height %v at %g (%g of a pitch), the profile is higher: value %v at %v", desc, h, x, x/pitch, v, h+tol)
			}
			// the rest of the column
			y := (h - tol) * (1e-6 + (1-1e-6)*r.Float64())
			if v := s.Evaluate(p2(x, y)); !(v < 0) {
				r.Failf("hollow", "%s: value %v at %s inside of the profile of height %v", desc, v, fmtv(p2(x, y)), h)
			}
			y = h + tol + r.Float64()*2*pitch
			if v := s.Evaluate(p2(x, y)); !(v > 0) {
				r.Failf("extra", "%s: value %v at %s outside of the profile of height %v", desc, v, fmtv(p2(x, y)), h)
			}
		}
		for k := 0; k < 60; k++ {
			check(pitch * (r.Float64() - 0.5) * (1 - 1e-9))
		}
		for _, b := range loop {
			for k := 0; k < 4; k++ {
				x := b.p.X + pitch*(r.Float64()-0.5)*0.02
				if math.Abs(x) < pitch/2 {
					check(x)
				}
			}
		}
		// distances across the flanks, seen from close by, are true distances
		for k := 0; k < 10; k++ {
			x := pitch * (r.Float64() - 0.5) * 0.8
			h := heightAt(line, x)
			if math.Abs(heightAt(sharp, x)-h) > 1e-9*radius {
				continue
			}
			q := p2(x, h+pitch*0.02*(r.Float64()-0.5))
			dist := off(q)
			r.Ev(1)
			if v := math.Abs(s.Evaluate(q)); math.Abs(v-dist) > 0.006*pitch {
				r.Failf("distance", "%s: distance %v at %s, the standard profile is %v away", desc, v, fmtv(q), dist)
			}
		}
		// bounds: the crest is the highest part
		top := math.Inf(-1)
		for _, v := range line {
			if math.Abs(v.X) <= pitch/2 {
				top = math.Max(top, v.Y)
			}
		}
		if b := s.Bounds(); b.Max.Y < top-0.006*pitch || b.Min.Y > 0 {
			r.Failf("bounds", "%s: profile bounds %v, the crest is at %v", desc, b, top)
		}
		par := t.ThreadParams()
		r.Ev(6)
		if !near(par.Radius, radius, 1e-12) || !near(par.Pitch, pitch, 1e-12) || par.Starts != 1 {
			r.Failf("parameters", "%s: parameters %+v, want radius %v pitch %v and one start", desc, par, radius, pitch)
		}
		taper := 0.0
		if _, ok := t.(thread.NPT); ok {
			taper = 1. / 32
		}
		if !near(math.Tan(par.Taper), taper, 1e-12) {
			r.Failf("taper", "%s: taper %v per unit of length, want %v", desc, math.Tan(par.Taper), taper)
		}
		if !(par.HexF2F > 0) {
			r.Failf("hex", "%s: flat to flat distance %v", desc, par.HexF2F)
		}
		if n, ok := t.(thread.NPT); ok && n.F2F > 0 && par.HexF2F != n.F2F {
			r.Failf("hex", "%s: flat to flat distance %v", desc, par.HexF2F)
		}
	})
	c.Cases("metric", c.scale(2000, 40000), func(_ int, r *R) {
		// hex sizes clear the thread and are standard ones
		table := map[float64]bool{}
		for _, v := range []float64{1.75, 2, 3.2, 4, 5, 6, 7, 8, 10, 13, 17, 19, 24, 30, 36, 46, 55, 65, 75, 85, 95} {
			table[v] = true
		}
		a := span(r.Rand, 1, 64)
		mk := func(d float64) thread.Parameters {
			p := d * 0.1
			switch r.Intn(4) {
			case 0:
				return thread.Acme{D: d, P: p}.ThreadParams()
			case 1:
				return thread.ANSIButtress{D: d, P: p}.ThreadParams()
			case 2:
				return thread.PlasticButtress{D: d, P: p}.ThreadParams()
			}
			return thread.ISO{D: d, P: p, Ext: r.Intn(2) == 0}.ThreadParams()
		}
		pa := mk(a)
		r.Ev(2)
		r.DistinctBits(7, a)
		if !table[pa.HexF2F] || pa.HexF2F < 1.3*a {
			r.Failf("hex", "flat to flat %v for diameter %v", pa.HexF2F, a)
		}
	})
	c.Run("sizes", func(r *R) {
		for d, want := range map[float64]float64{1: 1.75, 1.2: 2, 1.6: 3.2, 2: 4, 2.5: 5, 3: 6, 4: 7, 5: 8, 6: 10, 8: 13, 10: 17, 12: 19, 16: 24, 20: 30, 24: 36, 30: 46, 36: 55, 42: 65, 48: 75, 56: 85, 64: 95} {
			for _, t := range []thread.Threader{thread.ISO{D: d, P: d / 8, Ext: true}, thread.ISO{D: d, P: d / 8}, thread.Acme{D: d, P: d / 8}, thread.ANSIButtress{D: d, P: d / 8}, thread.PlasticButtress{D: d, P: d / 8}} {
				r.Ev(1)
				r.Distinct("size", d, fmt.Sprintf("%T", t))
				if got := t.ThreadParams().HexF2F; got != want {
					r.Failf("hex", "M%g as %T: flat to flat %v, want %v", d, t, got, want)
				}
			}
		}
		// ASME B1.20.1 outside diameters and threads per inch, B16.11 hex sizes
		for _, n := range [][4]float64{
			{1. / 8, 0.405, 27, 11.2}, {1. / 4, 0.540, 18, 15.7}, {3. / 8, 0.675, 18, 17.5}, {1. / 2, 0.840, 14, 22.4},
			{3. / 4, 1.050, 14, 26.9}, {1, 1.315, 11.5, 35.1}, {1.25, 1.660, 11.5, 44.5}, {1.5, 1.900, 11.5, 50.8},
			{2, 2.375, 11.5, 63.5}, {2.5, 2.875, 8, 76.2}, {3, 3.500, 8, 88.9}, {4, 4.500, 8, 117.3},
		} {
			for _, off := range []float64{0, 0.004, -0.004, 0.01, -0.01} {
				t := thread.NPT{D: 9, TPI: 9, F2F: 9}
				err := t.SetFromNominal(n[0] + off)
				r.Ev(1)
				r.Distinct("npt", n[0], off)
				if err != nil || t.D != n[1] || t.TPI != n[2] || !near(t.F2F, n[3]/25.4, 1e-12) {
					r.Failf("npt", "NPT %g: %+v %v, want diameter %v, %v threads per inch and %v mm flat to flat", n[0]+off, t, err, n[1], n[2], n[3])
					continue
				}
				p := t.ThreadParams()
				if !near(p.Radius, n[1]/2, 1e-12) || !near(p.Pitch, 1/n[2], 1e-12) || p.HexF2F != t.F2F {
					r.Failf("npt", "NPT %g: parameters %+v", n[0], p)
				}
			}
		}
	})
	c.Cases("hex", c.scale(2000, 20000), func(_ int, r *R) {
		f := span(r.Rand, 0.1, 100)
		p := thread.Parameters{HexF2F: f}
		r.Ev(2)
		r.DistinctBits(9, f)
		// corner to corner of a hexagon from flat to flat
		if got := p.HexRadius(); !near(got, f/math.Sqrt(3), 1e-12) {
			r.Failf("hexradius", "flat to flat %v: radius %v, want %v", f, got, f/math.Sqrt(3))
		}
		if got := p.HexHeight(); !near(got, f/math.Sqrt(3)*5/6, 1e-12) {
			r.Failf("hexheight", "flat to flat %v: height %v, want %v", f, got, f/math.Sqrt(3)*5/6)
		}
	})
}
