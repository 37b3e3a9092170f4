package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3/thread"
)

func init() {
	register(&prop{id: "C16", level: "monitored",
		rule: "a point at which a screw was evaluated, distinct by screw and point",
		assumptions: []string{
			"points whose position along the thread is within 1e-9 pitches of the wrap between two pitches may take the value of either side",
		}, run: runC16})
}

// probeThread is a thread whose profile tells where it was evaluated.
type probeThread struct {
	prof sdf.SDF2
	par  thread.Parameters
}

func (t probeThread) Thread() (sdf.SDF2, error)       { return t.prof, nil }
func (t probeThread) ThreadParams() thread.Parameters { return t.par }

// along returns the position along the thread within a pitch, and how near it is to the wrap.
func along(p v3, pitch float64, starts int) (x, gap float64) {
	turn := math.Atan2(p.Y, p.X) / (2 * math.Pi)
	z := p.Z - pitch*float64(starts)*turn
	x = math.Remainder(z, pitch)
	return x, pitch/2 - math.Abs(x)
}

func screwPoint(r *R, l, rad, pitch float64) v3 {
	var p v3
	switch r.Intn(8) {
	case 0: // on the axis
		p = p3(0, 0, 0)
	case 1: // in the planes of the axis
		p = p3(0, rad*(2*r.Float64()-1), 0)
		if r.Intn(2) == 0 {
			p = p3(rad*(2*r.Float64()-1), 0, 0)
		}
	case 2: // just beside the seam
		p = p3(-rad*r.Float64(), math.Copysign(1e-12, r.Float64()-0.5), 0)
	default:
		s, c := math.Sincos(2 * math.Pi * r.Float64())
		q := rad * 1.5 * r.Float64()
		if r.Intn(10) == 0 {
			q *= 100
		}
		p = p3(q*c, q*s, 0)
	}
	switch r.Intn(6) {
	case 0:
		p.Z = l / 2 * float64(r.Intn(3)-1)
	case 1:
		p.Z = pitch * float64(r.Intn(9)-4) / 2
	case 2:
		p.Z = l * 3 * (r.Float64() - 0.5)
	default:
		p.Z = l * 1.1 * (r.Float64() - 0.5)
	}
	return p
}

func runC16(c *C) {
	c.Cases("probe", c.scale(20000, 300000), func(_ int, r *R) {
		pr := newAny2(r.Rand)
		par := thread.Parameters{Pitch: span(r.Rand, 0.25, 3), Starts: r.Intn(13) - 6, Radius: span(r.Rand, 1, 6)}
		if r.Intn(8) == 0 {
			par.Starts = r.Intn(121) - 60
		}
		if r.Intn(2) == 0 {
			par.Taper = (r.Float64() - 0.5) * []float64{0.1, 1, 2.4}[r.Intn(3)]
		}
		l := span(r.Rand, 0.25, 12)
		s, err := thread.Screw(l, probeThread{pr, par})
		s = ok3(r, s, err)
		desc := fmt.Sprintf("Screw(%g, pitch %g starts %d taper %g)", l, par.Pitch, par.Starts, par.Taper)
		for i := 0; i < 60; i++ {
			p := screwPoint(r, l, par.Radius, par.Pitch)
			x, gap := along(p, par.Pitch, par.Starts)
			y := math.Abs(math.Hypot(p.X, p.Y) + p.Z*math.Tan(par.Taper))
			end := math.Abs(p.Z) - l/2
			want := math.Max(pr.Evaluate(p2(x, y)), end)
			got := s.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(1, l, par.Pitch, p.X, p.Y, p.Z)
			tol := 1e-7 * (1 + math.Abs(p.Z) + math.Abs(y))
			if near(got, want, tol) {
				continue
			}
			if gap < 1e-9*(1+math.Abs(p.Z)) {
				other := math.Max(pr.Evaluate(p2(-math.Copysign(par.Pitch/2, x), y)), end)
				r.Count("at the wrap", 1)
				if near(got, other, 1e-6) || near(got, want, 1e-6) {
					continue
				}
			}
			r.Failf("helix", "%s: value %v at %s, the profile at (%g,%g) has %v", desc, got, fmtv(p), x, y, want)
		}
		if par.Starts > -7 && par.Starts < 7 {
			r.Count(fmt.Sprintf("starts %d", par.Starts), 1)
		} else {
			r.Count("more starts", 1)
		}
		if par.Taper != 0 {
			r.Count("tapered", 1)
		}
	})
	// real threads: what following the helix means for the solid
	c.Cases("follow", c.scale(12000, 200000), func(_ int, r *R) {
		var t thread.Threader = newGen(r).threader()
		base := t.ThreadParams()
		prof, err := t.Thread()
		if err != nil {
			r.Fatalf("rejected", "%+v: %v", t, err)
		}
		par := base
		if r.Intn(2) == 0 {
			par.Starts = []int{-4, -3, -2, -1, 1, 2, 3, 4, 5}[r.Intn(9)]
			if r.Intn(3) == 0 {
				par.Taper = (r.Float64() - 0.3) * 0.3
			}
			t = probeThread{prof, par}
		}
		l := par.Pitch * span(r.Rand, 3, 14)
		s, err := thread.Screw(l, t)
		s = ok3(r, s, err)
		desc := fmt.Sprintf("Screw(%g, %T %+v)", l, t, par)
		tan := math.Tan(par.Taper)
		for i := 0; i < 40; i++ {
			// a point well within the ends
			y := par.Radius * (0.6 + 0.6*r.Float64())
			z0 := (r.Float64() - 0.5) * (l - 2.2*par.Pitch)
			a := 2 * math.Pi * r.Float64()
			at := func(turns, dz float64) float64 {
				z := z0 + dz
				s1, c1 := math.Sincos(a + 2*math.Pi*turns)
				rho := y - z*tan
				return s.Evaluate(p3(rho*c1, rho*s1, z))
			}
			ref := at(0, 0)
			if ref > 0 && ref < 1e-9 || ref < -par.Pitch {
				continue
			}
			limit := math.Abs(z0) - l/2 + par.Pitch // the value the ends may impose on the compared points
			if ref <= limit+1e-9 {
				continue
			}
			r.Ev(3)
			r.DistinctBits(2, y, z0, a)
			tol := 1e-7 * (1 + par.Radius)
			// a pitch further up the thread is the same
			if v := at(0, par.Pitch*sign(r)); math.Abs(v-ref) > tol {
				r.Failf("pitch", "%s: value %v at radius %g angle %g z %g, %v one pitch away", desc, ref, y, a, z0, v)
			}
			// following the helix by part of a turn is the same: right handed for positive starts
			n := float64(par.Starts)
			turns := (r.Float64() - 0.5) * 2 / math.Max(1, math.Abs(n))
			if v := at(turns, turns*n*par.Pitch); math.Abs(v-ref) > tol {
				r.Failf("follow", "%s: value %v at radius %g angle %g z %g, %v after %g turns along the helix", desc, ref, y, a, z0, v, turns)
			}
			// there are as many threads as starts around the axis
			if v := at(1/math.Max(1, math.Abs(n)), 0); math.Abs(v-ref) > tol {
				r.Failf("starts", "%s: value %v at radius %g angle %g z %g, %v at the next start", desc, ref, y, a, z0, v)
			}
		}
		// no thread is cut to the core
		for i := 0; i < 10; i++ {
			z := (r.Float64() - 0.5) * l * (1 - 1e-6)
			if math.Abs(z*tan) > 0.4*par.Radius {
				continue
			}
			s1, c1 := math.Sincos(7 * r.Float64())
			rho := r.Float64() * r.Float64() * 0.1 * par.Radius
			r.Ev(1)
			if y := rho + z*tan; math.Abs(y) > 1e-9*par.Radius {
				if v := s.Evaluate(p3(rho*c1, rho*s1, z)); !(v < 0) {
					r.Failf("core", "%s: value %v in the core at radius %g z %g", desc, v, rho, z)
				}
			}
		}
		// the ends
		for _, z := range []float64{l / 2, -l / 2} {
			rho := 0.5 * r.Float64() * par.Radius * 0.5
			s1, c1 := math.Sincos(7 * r.Float64())
			in, out := s.Evaluate(p3(rho*c1, rho*s1, z*(1-1e-6))), s.Evaluate(p3(rho*c1, rho*s1, z*(1+1e-6)))
			r.Ev(2)
			if par.Taper == 0 && !(in < 0) || !(out > 0) {
				r.Failf("ends", "%s: values %v and %v around the end at %g, radius %g", desc, in, out, z, rho)
			}
		}
		r.Count(base.Name, 1)
	})
}

func sign(r *R) float64 { return float64(1 - 2*r.Intn(2)) }
