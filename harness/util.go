package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type (
	v2   = r2.Vec
	v3   = r3.Vec
	box2 = r2.Box
	box3 = r3.Box
)

func p2(x, y float64) v2    { return v2{X: x, Y: y} }
func p3(x, y, z float64) v3 { return v3{X: x, Y: y, Z: z} }

func add2(a, b v2) v2         { return v2{X: a.X + b.X, Y: a.Y + b.Y} }
func sub2(a, b v2) v2         { return v2{X: a.X - b.X, Y: a.Y - b.Y} }
func mul2(k float64, a v2) v2 { return v2{X: k * a.X, Y: k * a.Y} }
func dot2(a, b v2) float64    { return a.X*b.X + a.Y*b.Y }
func cross2(a, b v2) float64  { return a.X*b.Y - a.Y*b.X }
func len2(a v2) float64       { return math.Hypot(a.X, a.Y) }
func unit2(a v2) v2           { return mul2(1/len2(a), a) }
func rot2(a v2, t float64) v2 {
	s, c := math.Sincos(t)
	return v2{X: c*a.X - s*a.Y, Y: s*a.X + c*a.Y}
}
func add3(a, b v3) v3         { return v3{X: a.X + b.X, Y: a.Y + b.Y, Z: a.Z + b.Z} }
func sub3(a, b v3) v3         { return v3{X: a.X - b.X, Y: a.Y - b.Y, Z: a.Z - b.Z} }
func mul3(k float64, a v3) v3 { return v3{X: k * a.X, Y: k * a.Y, Z: k * a.Z} }
func dot3(a, b v3) float64    { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func cross3(a, b v3) v3 {
	return v3{X: a.Y*b.Z - a.Z*b.Y, Y: a.Z*b.X - a.X*b.Z, Z: a.X*b.Y - a.Y*b.X}
}
func len3(a v3) float64 { return math.Sqrt(a.X*a.X + a.Y*a.Y + a.Z*a.Z) }
func unit3(a v3) v3     { return mul3(1/len3(a), a) }

func comp3(a v3, i int) float64 {
	switch i {
	case 0:
		return a.X
	case 1:
		return a.Y
	}
	return a.Z
}
func comp2(a v2, i int) float64 {
	if i == 0 {
		return a.X
	}
	return a.Y
}
func with3(a v3, i int, x float64) v3 {
	switch i {
	case 0:
		a.X = x
	case 1:
		a.Y = x
	default:
		a.Z = x
	}
	return a
}
func with2(a v2, i int, x float64) v2 {
	if i == 0 {
		a.X = x
	} else {
		a.Y = x
	}
	return a
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
func finite3(p v3) bool     { return finite(p.X) && finite(p.Y) && finite(p.Z) }
func finite2(p v2) bool     { return finite(p.X) && finite(p.Y) }

func clampf(x, a, b float64) float64 { return math.Max(a, math.Min(b, x)) }

// size2, size3 are the diagonals of boxes.
func diag2(b box2) float64 { return len2(sub2(b.Max, b.Min)) }
func diag3(b box3) float64 { return len3(sub3(b.Max, b.Min)) }

// mag3 is the magnitude of the coordinates of a box, for rounding tolerances.
func mag3(b box3) float64 {
	return math.Max(len3(b.Min), len3(b.Max))
}
func mag2(b box2) float64 {
	return math.Max(len2(b.Min), len2(b.Max))
}

// boxDist2, boxDist3 are how far a point is outside of a box, negative inside (largest coordinate distance).
func boxOut2(b box2, p v2) float64 {
	return math.Max(math.Max(b.Min.X-p.X, p.X-b.Max.X), math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y))
}
func boxOut3(b box3, p v3) float64 {
	return math.Max(math.Max(math.Max(b.Min.X-p.X, p.X-b.Max.X), math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y)), math.Max(b.Min.Z-p.Z, p.Z-b.Max.Z))
}

// euclidean distance to a box, 0 inside
func boxDist2(b box2, p v2) float64 {
	return math.Hypot(math.Max(0, math.Max(b.Min.X-p.X, p.X-b.Max.X)), math.Max(0, math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y)))
}

// exact signed distance to a box of half size h centred on the origin
func exactBox2(p, h v2) float64 {
	dx, dy := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y
	return math.Hypot(math.Max(dx, 0), math.Max(dy, 0)) + math.Min(0, math.Max(dx, dy))
}
func exactBox3(p, h v3) float64 {
	dx, dy, dz := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y, math.Abs(p.Z)-h.Z
	return len3(p3(math.Max(dx, 0), math.Max(dy, 0), math.Max(dz, 0))) + math.Min(0, math.Max(dx, math.Max(dy, dz)))
}

// segDist2 is the distance of p to the segment ab.
func segDist2(p, a, b v2) float64 {
	ab := sub2(b, a)
	l2 := dot2(ab, ab)
	if l2 == 0 {
		return len2(sub2(p, a))
	}
	t := clampf(dot2(sub2(p, a), ab)/l2, 0, 1)
	return len2(sub2(p, add2(a, mul2(t, ab))))
}

// windingAngle2 sums the angles under which p sees the edges of a closed loop; in turns.
func windingAngle2(p v2, loop []v2) float64 {
	sum := 0.0
	for i := range loop {
		a, b := sub2(loop[i], p), sub2(loop[(i+1)%len(loop)], p)
		sum += math.Atan2(cross2(a, b), dot2(a, b))
	}
	return sum / (2 * math.Pi)
}

// triDist3 is the distance of p to triangle abc, for example by the seven regions of the plane.
func triDist3(p, a, b, c v3) float64 {
	d, _ := triClosest(p, a, b, c)
	return d
}

// triClosest returns the distance and the closest point.
func triClosest(p, a, b, c v3) (float64, v3) {
	n := cross3(sub3(b, a), sub3(c, a))
	n2 := dot3(n, n)
	best := math.Inf(1)
	var at v3
	if n2 > 0 {
		// projection inside the triangle?
		t := dot3(sub3(p, a), n) / n2
		q := sub3(p, mul3(t, n))
		if dot3(cross3(sub3(b, a), sub3(q, a)), n) >= 0 &&
			dot3(cross3(sub3(c, b), sub3(q, b)), n) >= 0 &&
			dot3(cross3(sub3(a, c), sub3(q, c)), n) >= 0 {
			return math.Abs(t) * math.Sqrt(n2), q
		}
	}
	for _, e := range [3][2]v3{{a, b}, {b, c}, {c, a}} {
		ab := sub3(e[1], e[0])
		l2 := dot3(ab, ab)
		t := 0.0
		if l2 > 0 {
			t = clampf(dot3(sub3(p, e[0]), ab)/l2, 0, 1)
		}
		q := add3(e[0], mul3(t, ab))
		if d := len3(sub3(p, q)); d < best {
			best, at = d, q
		}
	}
	return best, at
}

// solidAngle is the signed solid angle of a triangle seen from p.
func solidAngle(p v3, t [3]v3) float64 {
	a, b, c := sub3(t[0], p), sub3(t[1], p), sub3(t[2], p)
	la, lb, lc := len3(a), len3(b), len3(c)
	num := dot3(a, cross3(b, c))
	den := la*lb*lc + dot3(a, b)*lc + dot3(b, c)*la + dot3(c, a)*lb
	return 2 * math.Atan2(num, den)
}

// meshWinding is the winding number of a mesh about p.
func meshWinding(p v3, tris [][3]v3) float64 {
	s := 0.0
	for i := range tris {
		s += solidAngle(p, tris[i])
	}
	return s / (4 * math.Pi)
}

// random values

// span returns a value in [a, b], often one of the round values in it.
func span(r *rand.Rand, a, b float64) float64 {
	switch r.Intn(4) {
	case 0:
		step := math.Pow(2, math.Floor(math.Log2(b-a))-3)
		n := math.Floor((b - a) / step)
		base := math.Ceil(a/step) * step
		if x := base + step*float64(r.Intn(int(n)+1)); x <= b {
			return x
		}
	case 1:
		// near the lower end, logarithmically
		if a > 0 {
			return a * math.Pow(b/a, r.Float64())
		}
	}
	return a + (b-a)*r.Float64()
}

func angle(r *rand.Rand) float64 {
	if r.Intn(3) == 0 {
		return float64(r.Intn(25)-12) * math.Pi / 12
	}
	return (r.Float64()*2 - 1) * 2 * math.Pi
}

func dir2(r *rand.Rand) v2 {
	if r.Intn(4) == 0 {
		return [4]v2{{X: 1}, {X: -1}, {Y: 1}, {Y: -1}}[r.Intn(4)]
	}
	s, c := math.Sincos(r.Float64() * 2 * math.Pi)
	return p2(c, s)
}

func dir3(r *rand.Rand) v3 {
	if r.Intn(4) == 0 {
		return [6]v3{{X: 1}, {X: -1}, {Y: 1}, {Y: -1}, {Z: 1}, {Z: -1}}[r.Intn(6)]
	}
	for {
		v := p3(r.NormFloat64(), r.NormFloat64(), r.NormFloat64())
		if r.Intn(6) == 0 {
			v = with3(v, r.Intn(3), 0)
		}
		if l := len3(v); l > 1e-3 {
			return mul3(1/l, v)
		}
	}
}

func inBox2(r *rand.Rand, b box2, grow float64) v2 {
	s := sub2(b.Max, b.Min)
	return p2(b.Min.X-grow*s.X+r.Float64()*(1+2*grow)*s.X, b.Min.Y-grow*s.Y+r.Float64()*(1+2*grow)*s.Y)
}

func inBox3(r *rand.Rand, b box3, grow float64) v3 {
	s := sub3(b.Max, b.Min)
	return p3(b.Min.X-grow*s.X+r.Float64()*(1+2*grow)*s.X,
		b.Min.Y-grow*s.Y+r.Float64()*(1+2*grow)*s.Y,
		b.Min.Z-grow*s.Z+r.Float64()*(1+2*grow)*s.Z)
}

// probe2 and probe3 are fields with no symmetry that tell where they were evaluated:
// equal values at two points mean, in practice, equal points.
type probe2 struct {
	k1, k2, k3, c float64
	bb            box2
}

func newProbe2(r *rand.Rand) probe2 {
	p := probe2{k1: 0.3 + r.Float64(), k2: -0.4 - r.Float64(), k3: 0.21 + 0.3*r.Float64(), c: r.Float64()}
	c := p2(span(r, -3, 3), span(r, -3, 3))
	h := p2(span(r, 0.5, 4), span(r, 0.5, 4))
	p.bb = box2{Min: sub2(c, h), Max: add2(c, h)}
	return p
}
func (p probe2) Evaluate(q v2) float64 {
	return p.k1*q.X + p.k2*q.Y + math.Sin(p.k3*q.X*q.Y+p.c) + 0.3*math.Cos(q.X-0.7*q.Y)
}
func (p probe2) Bounds() box2 { return p.bb }

type probe3 struct {
	k1, k2, k3, k4, c float64
	bb                box3
}

func newProbe3(r *rand.Rand) probe3 {
	p := probe3{k1: 0.3 + r.Float64(), k2: -0.4 - r.Float64(), k3: 0.35 + r.Float64(), k4: 0.21 + 0.3*r.Float64(), c: r.Float64()}
	c := p3(span(r, -3, 3), span(r, -3, 3), span(r, -3, 3))
	h := p3(span(r, 0.5, 4), span(r, 0.5, 4), span(r, 0.5, 4))
	p.bb = box3{Min: sub3(c, h), Max: add3(c, h)}
	return p
}
func (p probe3) Evaluate(q v3) float64 {
	return p.k1*q.X + p.k2*q.Y + p.k3*q.Z + math.Sin(p.k4*q.X*q.Y-0.3*q.Z+p.c) + 0.3*math.Cos(q.Y*q.Z-0.7*q.X)
}
func (p probe3) Bounds() box3 { return p.bb }

// newAny2 and newAny3 return fields without symmetry, of types of the
// harness or of the library: what is built from a shape must not depend on how
// the shape itself was built.
func newAny2(r *rand.Rand) sdf.SDF2 {
	s := sdf.SDF2(newProbe2(r))
	for r.Intn(5) < 2 {
		s = wrap2(r, s)
	}
	return s
}

func newAny3(r *rand.Rand) sdf.SDF3 {
	s := sdf.SDF3(newProbe3(r))
	for r.Intn(5) < 2 {
		s = wrap3(r, s)
	}
	return s
}

// someMin and someMax are blending functions, or nil.
func someMin(r *rand.Rand) sdf.MinFunc {
	switch r.Intn(4) {
	case 0:
		return sdf.MinPoly(2, span(r, 0.1, 2))
	case 1:
		return func(a, b float64) float64 { return math.Min(a, b) - 0.1 }
	}
	return nil
}

func someMax(r *rand.Rand) sdf.MaxFunc {
	switch r.Intn(4) {
	case 0:
		return sdf.MaxPoly(2, span(r, 0.1, 2))
	case 1:
		return func(a, b float64) float64 { return math.Max(a, b) + 0.1 }
	}
	return nil
}

func wrap2(r *rand.Rand, s sdf.SDF2) sdf.SDF2 {
	blended := func(u sdf.SDF2) sdf.SDF2 {
		if f := someMin(r); f != nil {
			if b, ok := u.(sdf.SDF2Union); ok {
				b.SetMin(f)
			}
		}
		return u
	}
	cut := func(u sdf.SDF2Diff) sdf.SDF2 {
		if f := someMax(r); f != nil {
			u.SetMax(f)
		}
		return u
	}
	switch r.Intn(13) {
	case 0:
		return sdf.Transform2D(s, sdf.Translate2D(p2(span(r, -2, 2), span(r, -2, 2))))
	case 1:
		return sdf.Transform2D(s, sdf.Rotate2D(angle(r)).Mul(sdf.Translate2D(p2(span(r, -2, 2), span(r, -2, 2)))))
	case 2:
		return sdf.Transform2D(s, sdf.Scale2D(p2(span(r, 1, 2), span(r, 1, 2))))
	case 3:
		return sdf.ScaleUniform2D(s, span(r, 1, 2))
	case 4:
		return sdf.Offset2D(s, span(r, 0, 1))
	case 5:
		return sdf.Elongate2D(s, p2(span(r, 0, 2), span(r, 0, 2)))
	case 6:
		// as boxes mean nothing to these fields, all of the members count only in blends
		u := sdf.Union2D(s, newProbe2(r), newProbe2(r))
		u.SetMin(func(a, b float64) float64 { return math.Min(a, b) - 0.1 })
		return u
	case 7:
		return cut(sdf.Difference2D(s, newProbe2(r)))
	case 8:
		return cut(sdf.Intersect2D(s, newProbe2(r)))
	case 9:
		return sdf.Cut2D(s, p2(span(r, -2, 2), span(r, -2, 2)), dir2(r))
	case 10:
		return blended(sdf.Array2D(s, sdf.V2i{1 + r.Intn(2), 1 + r.Intn(2)}, p2(span(r, -3, 3), span(r, -3, 3))))
	case 11:
		return blended(sdf.RotateUnion2D(s, 1+r.Intn(3), sdf.Rotate2D(angle(r))))
	default:
		return sdf.Slice2D(sdf.Extrude3D(s, 2), v3{Z: 0.25}, v3{Z: 1})
	}
}

func wrap3(r *rand.Rand, s sdf.SDF3) sdf.SDF3 {
	blended := func(u sdf.SDF3Union) sdf.SDF3 {
		if f := someMin(r); f != nil {
			u.SetMin(f)
		}
		return u
	}
	cut := func(u sdf.SDF3Diff) sdf.SDF3 {
		if f := someMax(r); f != nil {
			u.SetMax(f)
		}
		return u
	}
	at := func() v3 { return p3(span(r, -2, 2), span(r, -2, 2), span(r, -2, 2)) }
	switch r.Intn(17) {
	case 0:
		return sdf.Transform3D(s, sdf.Translate3D(at()))
	case 1:
		return sdf.Transform3D(s, sdf.Rotate3D(dir3(r), angle(r)).Mul(sdf.Translate3D(at())))
	case 2:
		return sdf.Transform3D(s, sdf.Scale3D(p3(span(r, 1, 2), span(r, 1, 2), span(r, 1, 2))))
	case 3:
		return sdf.ScaleUniform3D(s, span(r, 1, 2))
	case 4:
		return sdf.Offset3D(s, span(r, 0, 1))
	case 5:
		return sdf.Elongate3D(s, p3(span(r, 0, 2), span(r, 0, 2), span(r, 0, 2)))
	case 6:
		return sdf.Shell3D(s, span(r, 0.2, 2))
	case 7, 8:
		return blended(sdf.Union3D(s, newProbe3(r), newProbe3(r)))
	case 9, 10:
		return cut(sdf.Difference3D(s, newProbe3(r)))
	case 11:
		return cut(sdf.Intersect3D(s, newProbe3(r)))
	case 12:
		return sdf.Cut3D(s, at(), dir3(r))
	case 13:
		return blended(sdf.Array3D(s, sdf.V3i{1 + r.Intn(2), 1 + r.Intn(2), 1 + r.Intn(2)}, p3(span(r, -3, 3), span(r, -3, 3), span(r, -3, 3))))
	case 14:
		return blended(sdf.RotateUnion3D(s, 1+r.Intn(3), sdf.RotateZ(angle(r))))
	case 15:
		return sdf.Revolve3D(newAny2(r), 2*math.Pi)
	default:
		return sdf.Extrude3D(newAny2(r), span(r, 1, 6))
	}
}

// fn2 and fn3 make shapes from functions.
type fn2 struct {
	f  func(v2) float64
	bb box2
}

func (s fn2) Evaluate(p v2) float64 { return s.f(p) }
func (s fn2) Bounds() box2          { return s.bb }

type fn3 struct {
	f  func(v3) float64
	bb box3
}

func (s fn3) Evaluate(p v3) float64 { return s.f(p) }
func (s fn3) Bounds() box3          { return s.bb }

var (
	_ sdf.SDF2 = fn2{}
	_ sdf.SDF3 = fn3{}
)

// near compares with relative and absolute tolerance.
func near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

func near2(a, b v2, tol float64) bool { return near(a.X, b.X, tol) && near(a.Y, b.Y, tol) }
func near3(a, b v3, tol float64) bool {
	return near(a.X, b.X, tol) && near(a.Y, b.Y, tol) && near(a.Z, b.Z, tol)
}
func nearBox2(a, b box2, tol float64) bool {
	return near2(a.Min, b.Min, tol) && near2(a.Max, b.Max, tol)
}
func nearBox3(a, b box3, tol float64) bool {
	return near3(a.Min, b.Min, tol) && near3(a.Max, b.Max, tol)
}

// must returns the value, an error of the form packages is a violation.
func ok2(r *R, s sdf.SDF2, err error) sdf.SDF2 {
	if err != nil {
		r.Fatalf("rejected", "valid arguments rejected: %v", err)
	}
	return s
}
func ok3(r *R, s sdf.SDF3, err error) sdf.SDF3 {
	if err != nil {
		r.Fatalf("rejected", "valid arguments rejected: %v", err)
	}
	return s
}

// halfExtents sets of corners
func corners2(b box2) []v2 {
	return []v2{b.Min, p2(b.Max.X, b.Min.Y), b.Max, p2(b.Min.X, b.Max.Y)}
}
func corners3(b box3) []v3 {
	var c []v3
	for i := 0; i < 8; i++ {
		p := b.Min
		if i&1 != 0 {
			p.X = b.Max.X
		}
		if i&2 != 0 {
			p.Y = b.Max.Y
		}
		if i&4 != 0 {
			p.Z = b.Max.Z
		}
		c = append(c, p)
	}
	return c
}

func fmtv(vs ...interface{}) string { return fmt.Sprintf("%.17g", vs) }
