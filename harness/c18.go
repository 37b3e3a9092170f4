package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C18", level: "monitored",
		rule: "a point classified as inside or outside of a bolt or nut, distinct by point",
		assumptions: []string{
			"thread profiles are taken from Threader.Thread, which C17 decides",
			"the thread end of a bolt is chamfered by half the radius of the thread's bounds times the square root of one half",
			"bolts have a thread diameter of 2 or more (the shank rounding of smaller ones has no room)",
		}, run: runC18})
}

// fastener threads, external and internal
func fastener(r *R) (ext, in thread.Threader, d, p float64) {
	d = span(r.Rand, 2, 24)
	p = d * (0.08 + 0.12*r.Float64())
	switch r.Intn(6) {
	case 0, 1:
		return thread.ISO{D: d, P: p, Ext: true}, thread.ISO{D: d, P: p}, d, p
	case 2:
		return thread.UTS{D: d, TPI: 1 / p, Ext: true}, thread.UTS{D: d, TPI: 1 / p}, d, p
	case 3:
		t := thread.Acme{D: d, P: p}
		return t, t, d, p
	case 4:
		t := thread.ANSIButtress{D: d, P: p}
		return t, t, d, p
	}
	t := customThread{d: d, p: p, starts: []int{-2, -1, 1, 2, 3}[r.Intn(5)]}
	return t, t, d, p
}

func hexSize(par thread.Parameters) (hr, hh float64) {
	hr = par.HexF2F / math.Sqrt(3)
	return hr, hr * 5 / 6
}

func runC18(c *C) {
	c.Cases("bolt", c.scale(1500, 24000), func(_ int, r *R) {
		ext, in, d, _ := fastener(r)
		if r.Intn(3) == 0 {
			ext = in // any thread may be used
		}
		if r.Intn(8) == 0 {
			n := thread.NPT{}
			n.SetFromNominal([]float64{2, 2.5, 3, 4}[r.Intn(4)])
			ext, d = n, n.D
		}
		par := ext.ThreadParams()
		k := thread.BoltParms{Thread: ext, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[r.Intn(2)]}
		k.TotalLength = d * span(r.Rand, 0.5, 6)
		switch r.Intn(4) {
		case 0:
		case 1:
			k.ShankLength = k.TotalLength * (0.9 + 0.09*r.Float64())
			if r.Intn(2) == 0 { // next to no thread
				k.ShankLength = k.TotalLength * (1 - math.Pow(10, -2-3*r.Float64()))
			}
		default:
			k.ShankLength = k.TotalLength * r.Float64() * 0.9
		}
		if r.Intn(3) == 0 {
			k.Tolerance = par.Pitch * (0.02 + 0.2*r.Float64())
		}
		s, err := thread.Bolt(k)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("Bolt(%T %+v)", k.Thread, k)
		prof, err := ext.Thread()
		if err != nil {
			r.Fatalf("rejected", "%s: %v", desc, err)
		}
		hr, hh := hexSize(par)
		tl := k.TotalLength - k.ShankLength
		top := hh/2 + k.TotalLength
		head := mHexHead(hr, hh, "b")
		if k.Style == thread.NutKnurl {
			head = mKnurledHead(hr, hh, hr/4)
		}
		r.Count("head "+k.Style.String(), 1)
		shank := mAt(mCylinder(k.ShankLength+hh/2, d/2, 0.08*hh), p3(0, 0, (k.ShankLength+hh/2)/2))
		mid := p3(0, 0, top-tl/2)
		rmax := prof.Bounds().Max.Y + tl/2*math.Abs(math.Tan(par.Taper))
		cut := rmax / 2 / math.Sqrt2
		if cut > tl {
			cut = 0
		}
		if near(cut, tl, 1e-9) {
			return
		}
		chamfer := func(p v3) float64 {
			rho := math.Hypot(p.X, p.Y)
			d := math.Max(rho-rmax, math.Abs(p.Z)-tl/2)
			if cut > 0 {
				d = math.Max(d, (rho+p.Z-(rmax+tl/2-cut))/math.Sqrt2)
			}
			return d
		}
		threaded := func(dr float64) model {
			f := func(q v2) float64 { return prof.Evaluate(p2(q.X, q.Y+dr)) }
			return mAt(mInter(mScrew(tl, f, par), chamfer), mid)
		}
		whole := mUnion(head, shank, threaded(0))
		b := box3{Min: p3(-1.3*hr, -1.3*hr, -hh), Max: p3(1.3*hr, 1.3*hr, top+0.2*d)}
		n := 120
		if k.Tolerance > 0 {
			// where the tolerance makes a difference is decided below
			less := mUnion(head, shank, threaded(k.Tolerance))
			exact := whole
			whole = func(p v3) float64 {
				a, b := exact(p), less(p)
				if a < 0 != (b < 0) || math.Hypot(p.X, p.Y) < k.Tolerance {
					return 0
				}
				return math.Copysign(math.Min(math.Abs(a), math.Abs(b)), a)
			}
			ignored, seen := 0, 0
			bare := mUnion(head, shank)
			for i := 0; i < 200; i++ {
				p := inBox3(r.Rand, box3{Min: p3(-rmax, -rmax, top-tl), Max: p3(rmax, rmax, top)}, 0)
				if less(p) > 1e-4*d && bare(p) > 0 && exact(p) < -1e-4*d {
					seen++
					if s.Evaluate(p) < 0 {
						ignored++
					}
				}
			}
			r.Ev(seen)
			r.Count("points within the tolerance", seen)
			if ignored > 0 {
				r.Failf("bolt-tolerance", "%s: %d of %d points closer to the thread than the tolerance are inside of the bolt", desc, ignored, seen)
			}
		}
		occupies(r, s, whole, "bolt", desc, b, n)
		// close to the thread
		if tl > 0.2*d {
			occupies(r, s, whole, "bolt", desc, box3{Min: p3(-0.6*d, -0.6*d, top-tl), Max: p3(0.6*d, 0.6*d, top+0.1*d)}, n)
		}
		occupies(r, s, whole, "bolt", desc, box3{Min: p3(-hr, -hr, -hh/2), Max: p3(hr, hr, hh/2)}, n/2)
	})
	c.Cases("nut", c.scale(1500, 24000), func(_ int, r *R) {
		ext, in, d, _ := fastener(r)
		if r.Intn(3) == 0 {
			in = ext
		}
		if r.Intn(6) == 0 {
			n := thread.NPT{}
			n.SetFromNominal([]float64{0.25, 0.5, 2, 2.5, 3, 4}[r.Intn(6)])
			in, d = n, n.D
		}
		par := in.ThreadParams()
		k := thread.NutParms{Thread: in, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular}[r.Intn(3)]}
		if r.Intn(2) == 0 {
			k.Tolerance = par.Pitch * (0.02 + 0.2*r.Float64())
			if r.Intn(4) == 0 {
				k.Tolerance = math.Min(0.15*d, par.Pitch*(0.2+1.5*r.Float64()))
			}
		}
		s, err := thread.Nut(k)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("Nut(%T %+v)", k.Thread, k)
		prof, err := in.Thread()
		if err != nil {
			r.Fatalf("rejected", "%s: %v", desc, err)
		}
		hr, hh := hexSize(par)
		var body model
		switch k.Style {
		case thread.NutHex:
			body = mHexHead(hr, hh, "tb")
		case thread.NutKnurl:
			body = mKnurledHead(hr, hh, hr/4)
		case thread.NutCircular:
			body = mCylinder(hh, 1.1*hr, 0)
		}
		r.Count("nut "+k.Style.String(), 1)
		f := func(q v2) float64 {
			d := prof.Evaluate(q)
			if k.Tolerance > 0 {
				d = math.Min(d, prof.Evaluate(p2(q.X, q.Y-k.Tolerance)))
				if q.Y < 2*k.Tolerance { // the core
					d = math.Min(d, -k.Tolerance)
				}
			}
			return d
		}
		whole := mInter(body, mNot(mScrew(hh, f, par)))
		occupies(r, s, whole, "nut", desc, box3{Min: p3(-1.3*hr, -1.3*hr, -hh/2), Max: p3(1.3*hr, 1.3*hr, hh/2)}, 100)
		rr := 0.6*d + k.Tolerance
		occupies(r, s, whole, "nut", desc, box3{Min: p3(-rr, -rr, -hh/2), Max: p3(rr, rr, hh/2)}, 160)
		if k.Tolerance > 0 {
			r.Count("nuts with a tolerance", 1)
		}
	})
	c.Cases("fit", c.scale(1500, 24000), func(_ int, r *R) {
		ext, in, d, p := fastener(r)
		if _, ok := ext.(customThread); ok {
			in = ext
		}
		par := ext.ThreadParams()
		_, hh := hexSize(par)
		kb := thread.BoltParms{Thread: ext, Style: thread.NutHex, TotalLength: 2.5*hh + 3*d}
		kb.ShankLength = d * r.Float64()
		bolt, err := thread.Bolt(kb)
		bolt = ok3(r, bolt, err)
		kn := thread.NutParms{Thread: in, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl, thread.NutCircular}[r.Intn(3)]}
		if r.Intn(3) == 0 {
			kn.Tolerance = p * 0.1 * r.Float64()
		}
		nut, err := thread.Nut(kn)
		nut = ok3(r, nut, err)
		// screw the nut on: its centre at height z, turned to where the thread of the bolt is there
		top := hh/2 + kb.TotalLength
		mid := top - (kb.TotalLength-kb.ShankLength)/2
		low, high := top-(kb.TotalLength-kb.ShankLength)+hh/2, top-hh/2
		z := low + (high-low)*r.Float64()
		turn := 2 * math.Pi * (z - mid) / (par.Pitch * float64(par.Starts))
		onNut := func(q v3) float64 {
			w := rot2(p2(q.X, q.Y), -turn)
			return nut.Evaluate(p3(w.X, w.Y, q.Z-z))
		}
		tol := 1e-6 * d
		touch := 0
		for i := 0; i < 250; i++ {
			a := 2 * math.Pi * r.Float64()
			rho := d / 2 * (0.6 + 0.55*r.Float64())
			q := p3(rho*math.Cos(a), rho*math.Sin(a), z+hh*(r.Float64()-0.5))
			vb, vn := bolt.Evaluate(q), onNut(q)
			r.Ev(1)
			r.DistinctBits(5, q.X, q.Y, q.Z)
			if vb < -tol && vn < -tol {
				r.Failf("interference", "bolt of %T %+v and nut of %+v screwed on at %g: %s is inside of both: %v and %v", ext, ext, kn, z, fmtv(q), vb, vn)
			}
			if math.Abs(vb) < 0.1*p && math.Abs(vn) < 0.1*p {
				touch++
			}
			// and the gap between them is small
			if kn.Tolerance == 0 && rho < d/2*0.999 && vb > 0.35*p && vn > 0.35*p && math.Abs(q.Z-z) < hh/2-p && math.Hypot(q.X, q.Y) > d/2-0.2*p && q.Z < top-d {
				r.Failf("gap", "bolt of %T %+v and nut of %+v screwed on at %g: %s is %v from the bolt and %v from the nut", ext, ext, kn, z, fmtv(q), vb, vn)
			}
		}
		r.Count("points close to both", touch)
	})
}

var _ sdf.SDF3 = fn3{}
