package main

import (
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3/thread"
)

// Models of solids: functions that are negative inside, positive outside and zero on
// the surface. They are written from the descriptions of the solids and share nothing
// with the code under test but the thread profiles that other properties decide.
type model func(v3) float64

func mUnion(m ...model) model {
	return func(p v3) float64 {
		d := math.Inf(1)
		for _, f := range m {
			d = math.Min(d, f(p))
		}
		return d
	}
}

func mInter(m ...model) model {
	return func(p v3) float64 {
		d := math.Inf(-1)
		for _, f := range m {
			d = math.Max(d, f(p))
		}
		return d
	}
}

func mNot(m model) model { return func(p v3) float64 { return -m(p) } }

func mAt(m model, c v3) model { return func(p v3) float64 { return m(sub3(p, c)) } }

func mCylinder(h, rad, round float64) model {
	return func(p v3) float64 {
		x, y := math.Hypot(p.X, p.Y)-(rad-round), math.Abs(p.Z)-(h/2-round)
		return math.Hypot(math.Max(x, 0), math.Max(y, 0)) + math.Min(math.Max(x, y), 0) - round
	}
}

func mBox(size v3) model {
	return func(p v3) float64 {
		return math.Max(math.Abs(p.X)-size.X/2, math.Max(math.Abs(p.Y)-size.Y/2, math.Abs(p.Z)-size.Z/2))
	}
}

func mSphere(rad float64) model { return func(p v3) float64 { return len3(p) - rad } }

// mHexagon is a hexagonal prism with corners on the x axis, rounded along its length.
func mHexagon(rad, round, h float64) model {
	var v [6]v2
	for i := range v {
		s, c := math.Sincos(float64(i) * math.Pi / 3)
		v[i] = p2((rad-round)*c, (rad-round)*s)
	}
	return func(p v3) float64 {
		q := p2(p.X, p.Y)
		d, in := math.Inf(1), true
		for i := range v {
			a, b := v[i], v[(i+1)%6]
			d = math.Min(d, segDist2(q, a, b))
			in = in && cross2(sub2(b, a), sub2(q, a)) >= 0
		}
		if in {
			d = -d
		}
		return math.Max(d-round, math.Abs(p.Z)-h/2)
	}
}

// mHexHead is a hexagonal head with ends rounded by a sphere.
func mHexHead(rad, h float64, ends string) model {
	m := mHexagon(rad, 0.08*rad, h)
	// the sphere touches the end face where it meets a cylinder of the flat to flat diameter
	sr := 1.6 * rad
	flat := rad * math.Sqrt(3) / 2
	z := math.Sqrt(sr*sr-flat*flat) - h/2
	// it rounds one end only, what is beyond its centre stays
	cap := func(side float64) model {
		return func(p v3) float64 {
			if p.Z*side < -z {
				return math.Hypot(p.X, p.Y) - sr
			}
			return len3(sub3(p, p3(0, 0, -z*side))) - sr
		}
	}
	if ends == "t" || ends == "tb" {
		m = mInter(m, cap(1))
	}
	if ends == "b" || ends == "tb" {
		m = mInter(m, cap(-1))
	}
	return m
}

// mScrew winds a profile around the z axis, shifted outwards by dr.
func mScrew(l float64, prof func(v2) float64, par thread.Parameters) model {
	tan := math.Tan(par.Taper)
	return func(p v3) float64 {
		x, _ := along(p, par.Pitch, par.Starts)
		y := math.Abs(math.Hypot(p.X, p.Y) + p.Z*tan)
		return math.Max(prof(p2(x, y)), math.Abs(p.Z)-l/2)
	}
}

// mKnurl is a diamond knurl.
func mKnurl(k thread.KnurlParams) model {
	n := int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)
	ridge := func(q v2) float64 { // a ridge as high as Height in the middle of the pitch
		return q.Y - k.Radius - k.Height*(1-2*math.Abs(q.X)/k.Pitch)
	}
	return mInter(
		mScrew(k.Length, ridge, thread.Parameters{Pitch: k.Pitch, Starts: n}),
		mScrew(k.Length, ridge, thread.Parameters{Pitch: k.Pitch, Starts: -n}))
}

// mKnurledHead is a cylinder with a knurl of as many whole pitches as fit.
func mKnurledHead(rad, h, pitch float64) model {
	round := 0.05 * rad
	return mUnion(mCylinder(h, rad, round), mKnurl(thread.KnurlParams{
		Length: pitch * math.Floor((h-round)/pitch), Radius: rad, Pitch: pitch, Height: 0.3 * pitch, Theta: math.Pi / 4,
	}))
}

// surfacePoints returns points close to the surface of a model, on both sides.
func surfacePoints(r *R, m model, sample func() v3, eps float64, n int) []v3 {
	var out []v3
	for tries := 0; tries < 60*n && len(out) < n; tries++ {
		a, b := sample(), sample()
		fa, fb := m(a), m(b)
		if fa < 0 == (fb < 0) {
			continue
		}
		for k := 0; k < 60; k++ {
			c := mul3(0.5, add3(a, b))
			if m(c) < 0 == (fa < 0) {
				a = c
			} else {
				b = c
			}
		}
		d := mul3(eps*(1+9*r.Float64()), dir3(r.Rand))
		out = append(out, add3(a, d), sub3(a, d))
	}
	return out
}

// occupies compares the inside and outside of a shape with a model, at the given points and
// others close to the surface of the model.
func occupies(r *R, s sdf.SDF3, m model, key, desc string, b box3, n int) {
	size := diag3(b)
	tol := 1e-7 * size
	sample := func() v3 { return inBox3(r.Rand, b, 0.1) }
	var pts []v3
	for i := 0; i < n; i++ {
		pts = append(pts, sample())
	}
	pts = append(pts, surfacePoints(r, m, sample, 1e-4*size, n/2)...)
	pts = append(pts, surfacePoints(r, m, sample, 1e-5*size, n/2)...)
	in, out := 0, 0
	for _, p := range pts {
		want := m(p)
		// models are as little as a tenth as steep as distances
		if math.Abs(want) < tol {
			r.Count("undecided points", 1)
			continue
		}
		got := s.Evaluate(p)
		r.Ev(1)
		r.DistinctBits(3, p.X, p.Y, p.Z)
		if want < 0 {
			in++
		} else {
			out++
		}
		if want < 0 && !(got < 0) || want > 0 && !(got > 0) {
			r.Failf(key, "%s: value %v at %s, the description has it %s by about %g", desc, got, fmtv(p), map[bool]string{true: "inside", false: "outside"}[want < 0], math.Abs(want))
		}
	}
	r.Count("points inside", in)
	r.Count("points outside", out)
}
