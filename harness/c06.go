package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
)

func init() {
	register(&prop{id: "C06", level: "exploration", run: runC06,
		rule: "a pair of arguments of a blend function, or a point at which a blended boolean was compared with the fold of all its members, distinct by bits",
		assumptions: []string{
			"laws are checked with a rounding tolerance of 1e-12 relative to the arguments and k",
			"the fold is observed with a commutative and associative blend (log of the sum of exponentials), so that the order of members does not matter",
		}})
}

// lse is the soft minimum -log(sum exp(-k x))/k: commutative and associative.
func lse(k float64) func(a, b float64) float64 {
	return func(a, b float64) float64 {
		if a > b {
			a, b = b, a
		}
		return a - math.Log1p(math.Exp(-k*(b-a)))/k
	}
}

func foldMin(k float64, v []float64) float64 {
	f := lse(k)
	d := v[0]
	for _, x := range v[1:] {
		d = f(d, x)
	}
	return d
}

func foldMax(k float64, v ...float64) float64 {
	for i := range v {
		v[i] = -v[i]
	}
	return -foldMin(k, v)
}

func runC06(c *C) {
	type law struct {
		name string
		k    float64
		n    int
		f    func(a, b float64) float64
	}
	c.Cases("law", c.scale(6000, 100000), func(i int, r *R) {
		k := math.Pow(10, 3*r.Float64()-2)
		if r.Intn(3) == 0 {
			k = []float64{0.125, 0.5, 1, 2, 8, 32}[r.Intn(6)]
		}
		n := r.Intn(9)
		if r.Intn(4) == 0 {
			n = r.Intn(65)
		}
		laws := []law{
			{"MinRound", k, 0, sdf.MinRound(k)},
			{"MinExp", k, 0, sdf.MinExp(k)},
			{"MinPow", k, 0, sdf.MinPow(k)},
			{"MinPoly", k, n, sdf.MinPoly(n, k)},
		}
		maxf := sdf.MaxPoly(n, k)
		arg := func() float64 {
			switch r.Intn(8) {
			case 0:
				return 0
			case 1:
				return []float64{k, -k, k / 2, -k / 2, 2 * k, 1, -1}[r.Intn(7)]
			case 2:
				return (r.Float64()*2 - 1) * 1e3
			case 3:
				return (r.Float64()*2 - 1) * math.Pow(10, float64(r.Intn(300)))
			case 4:
				return (r.Float64()*2 - 1) * math.Pow(10, float64(-r.Intn(20)))
			}
			return (r.Float64()*2 - 1) * 3 * k
		}
		for j := 0; j < 40; j++ {
			a, b := arg(), arg()
			switch r.Intn(5) {
			case 0:
				b = a
			case 1:
				b = a + k*[]float64{1, -1, 1 + 1e-9, 1 - 1e-9, 0.5}[r.Intn(5)]
			}
			min := math.Min(a, b)
			tol := 1e-12 * (k + math.Abs(a) + math.Abs(b))
			for _, l := range laws {
				v := l.f(a, b)
				name := fmt.Sprintf("%s(n=%d,k=%g)(%.17g,%.17g) = %.17g", l.name, l.n, l.k, a, b, v)
				r.Ev(1)
				r.DistinctBits(uint64(l.n)+uint64(len(l.name)), k, a, b)
				if !finite(v) {
					r.Failf(l.name+"-finite", "%s", name)
					continue
				}
				if w := l.f(b, a); math.Abs(w-v) > tol {
					r.Failf(l.name+"-commutative", "%s but %.17g with arguments exchanged", name, w)
				}
				if v > min+tol {
					r.Failf(l.name+"-above-min", "%s", name)
				}
				// monotone and continuous along each argument
				for _, e := range []float64{1e-9 * k, 1e-3 * k, 0.3 * k, 2 * k} {
					for arg := 0; arg < 2; arg++ {
						var w float64
						if arg == 0 {
							w = l.f(a+e, b)
						} else {
							w = l.f(a, b+e)
						}
						if w < v-tol-1e-12*e {
							r.Failf(l.name+"-monotone", "%s but %.17g with argument %d larger by %g", name, w, arg, e)
						}
						if w > v+e+tol+1e-9*e {
							r.Failf(l.name+"-continuous", "%s but %.17g with argument %d larger by %g", name, w, arg, e)
						}
					}
				}
				same := func(want bool, what string) {
					if want && math.Abs(v-min) > tol {
						r.Failf(l.name+"-plain", "%s differs from the minimum %.17g although %s", name, min, what)
					}
				}
				within := func(reach float64) {
					if v < min-reach-tol-1e-9*reach {
						r.Failf(l.name+"-reach", "%s is below the minimum by %g, more than %g", name, min-v, reach)
					}
					if a == b && reach > 4*tol && math.Abs((min-v)-reach) > tol+1e-9*reach {
						r.Failf(l.name+"-blend", "%s is below the equal arguments by %g instead of %g", name, min-v, reach)
					}
				}
				switch l.name {
				case "MinRound":
					same(a >= k || b >= k, "at most one argument is below k")
				case "MinExp":
					within(math.Ln2 / k)
				case "MinPow":
					same(min <= 0, "an argument is not positive")
					if min > 0 {
						within(min * (1 - math.Pow(2, -1/k)))
					}
				case "MinPoly":
					same(n > 0 && math.Abs(a-b) >= k*(1+1e-12), "the arguments are k or more apart")
					if n > 1 {
						within(k / float64(2*n))
					} else if n == 1 {
						same(true, "n is 1")
					}
				}
			}
			if v, w := maxf(a, b), -laws[3].f(-a, -b); !finite(v) || math.Abs(v-w) > tol {
				r.Failf("MaxPoly-mirror", "MaxPoly(%d,%g)(%.17g,%.17g) = %.17g instead of %.17g", n, k, a, b, v, w)
			}
		}
	})
	// every member counts, once
	c.Cases("fold", c.scale(15000, 200000), func(i int, r *R) {
		k := 0.15 + 0.5*r.Float64()
		min := sdf.MinFunc(lse(k))
		max := sdf.MaxFunc(func(a, b float64) float64 { return -lse(k)(-a, -b) })
		check := func(name string, got, want float64, p interface{}) {
			r.Ev(1)
			r.Distinct(name, want)
			if !near(got, want, 1e-9) {
				r.Failf(name, "%s with a blend function at %v: %.17g instead of %.17g", name, p, got, want)
			}
		}
		n := 2 + r.Intn(5)
		if r.Intn(20) == 0 {
			n = 2 + r.Intn(100)
		}
		var s2 []sdf.SDF2
		var s3 []sdf.SDF3
		for j := 0; j < n; j++ {
			// apart from each other, with honest bounds
			g := newGen(r)
			m2 := g.leaf2()
			m3 := g.leaf3()
			s2 = append(s2, sdf.Transform2D(m2.s, sdf.Translate2D(p2(span(r.Rand, -9, 9), span(r.Rand, -9, 9)))))
			s3 = append(s3, sdf.Transform3D(m3.s, sdf.Translate3D(p3(span(r.Rand, -9, 9), span(r.Rand, -9, 9), span(r.Rand, -9, 9)))))
		}
		for j := range s2 {
			switch r.Intn(8) {
			case 0: // members that are unions or blends themselves
				s2[j], s3[j] = sdf.Union2D(s2[j], s2[r.Intn(n)]), sdf.Union3D(s3[j], s3[r.Intn(n)])
			case 1:
				s2[j], s3[j] = wrap2(r.Rand, s2[j]), wrap3(r.Rand, s3[j])
			case 2:
				s2[j], s3[j] = s2[r.Intn(n)], s3[r.Intn(n)] // again
			}
		}
		eval2 := func(p v2, ss ...sdf.SDF2) (v []float64) {
			for _, s := range ss {
				v = append(v, s.Evaluate(p))
			}
			return v
		}
		eval3 := func(p v3, ss ...sdf.SDF3) (v []float64) {
			for _, s := range ss {
				v = append(v, s.Evaluate(p))
			}
			return v
		}
		q2 := make([]v2, 6)
		q3 := make([]v3, 6)
		for j := range q2 {
			q2[j] = p2(span(r.Rand, -10, 10), span(r.Rand, -10, 10))
			q3[j] = p3(span(r.Rand, -10, 10), span(r.Rand, -10, 10), span(r.Rand, -10, 10))
			if i%6 < 3 && r.Intn(4) == 0 { // anywhere, where a member is evaluated where the union is
				f := math.Pow(10, 12*r.Float64()-6)
				q2[j], q3[j] = mul2(f, q2[j]), mul3(f, q3[j])
			}
		}
		pr2, pr3 := newAny2(r.Rand), newAny3(r.Rand)
		switch i % 6 {
		case 0:
			u, v := sdf.Union2D(s2...), sdf.Union3D(s3...)
			if r.Intn(3) == 0 { // the last function given counts
				u.SetMin(math.Max)
				v.SetMin(math.Max)
			}
			if r.Intn(3) == 0 { // also after use
				u.Evaluate(q2[0])
				v.Evaluate(q3[0])
			}
			u.SetMin(min)
			v.SetMin(min)
			for j := range q2 {
				check("Union2D", u.Evaluate(q2[j]), foldMin(k, eval2(q2[j], s2...)), q2[j])
				check("Union3D", v.Evaluate(q3[j]), foldMin(k, eval3(q3[j], s3...)), q3[j])
			}
		case 1:
			u, v := sdf.Difference2D(s2[0], s2[1]), sdf.Difference3D(s3[0], s3[1])
			u.SetMax(max)
			v.SetMax(max)
			for j := range q2 {
				a, b := eval2(q2[j], s2...), eval3(q3[j], s3...)
				check("Difference2D", u.Evaluate(q2[j]), foldMax(k, a[0], -a[1]), q2[j])
				check("Difference3D", v.Evaluate(q3[j]), foldMax(k, b[0], -b[1]), q3[j])
			}
		case 2:
			u, v := sdf.Intersect2D(s2[0], s2[1]), sdf.Intersect3D(s3[0], s3[1])
			u.SetMax(max)
			v.SetMax(max)
			for j := range q2 {
				a, b := eval2(q2[j], s2...), eval3(q3[j], s3...)
				check("Intersect2D", u.Evaluate(q2[j]), foldMax(k, a[0], a[1]), q2[j])
				check("Intersect3D", v.Evaluate(q3[j]), foldMax(k, b[0], b[1]), q3[j])
			}
		case 3:
			num := sdf.V2i{1 + r.Intn(4), 1 + r.Intn(4)}
			st := p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3))
			switch r.Intn(6) { // copies on top of each other count as well
			case 0:
				st.X = 0
			case 1:
				st.Y = 0
			case 2:
				st = v2{}
			}
			u := sdf.Array2D(pr2, num, st)
			u.SetMin(min)
			for _, p := range q2 {
				var v []float64
				for x := 0; x < num[0]; x++ {
					for y := 0; y < num[1]; y++ {
						v = append(v, pr2.Evaluate(sub2(p, p2(float64(x)*st.X, float64(y)*st.Y))))
					}
				}
				check("Array2D", u.Evaluate(p), foldMin(k, v), p)
			}
		case 4:
			num := sdf.V3i{1 + r.Intn(3), 1 + r.Intn(3), 1 + r.Intn(3)}
			st := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3))
			if r.Intn(3) == 0 {
				st = with3(st, r.Intn(3), 0)
			}
			u := sdf.Array3D(pr3, num, st)
			u.SetMin(min)
			for _, p := range q3 {
				var v []float64
				for x := 0; x < num[0]; x++ {
					for y := 0; y < num[1]; y++ {
						for z := 0; z < num[2]; z++ {
							v = append(v, pr3.Evaluate(sub3(p, p3(float64(x)*st.X, float64(y)*st.Y, float64(z)*st.Z))))
						}
					}
				}
				check("Array3D", u.Evaluate(p), foldMin(k, v), p)
			}
		case 5:
			t, num := []float64{angle(r.Rand), angle(r.Rand), angle(r.Rand), 0, 2 * math.Pi}[r.Intn(5)], 1+r.Intn(7)
			if r.Intn(8) == 0 {
				num = 1 + r.Intn(80)
			}
			u := sdf.RotateUnion2D(pr2, num, sdf.Rotate2D(t))
			um, ok := u.(interface{ SetMin(sdf.MinFunc) })
			if !ok {
				r.Fatalf("RotateUnion2D", "a rotated union takes no blend function")
			}
			um.SetMin(min)
			w := sdf.RotateUnion3D(pr3, num, sdf.RotateZ(t))
			w.SetMin(min)
			for j := range q2 {
				var v, v3 []float64
				for x := 0; x < num; x++ {
					q := rot2(q2[j], -t*float64(x))
					v = append(v, pr2.Evaluate(q))
					q = rot2(p2(q3[j].X, q3[j].Y), -t*float64(x))
					v3 = append(v3, pr3.Evaluate(p3(q.X, q.Y, q3[j].Z)))
				}
				check("RotateUnion2D", u.Evaluate(q2[j]), foldMin(k, v), q2[j])
				check("RotateUnion3D", w.Evaluate(q3[j]), foldMin(k, v3), q3[j])
			}
		}
		// the functions of the package on two members
		f := randMinFunc(r)
		u, v := sdf.Union2D(s2[0], s2[1]), sdf.Union3D(s3[0], s3[1])
		u.SetMin(f.f)
		v.SetMin(f.f)
		deg, kk := r.Intn(5), span(r.Rand, 0.25, 3)
		mx := sdf.MaxPoly(deg, kk)
		di, in := sdf.Difference3D(s3[0], s3[1]), sdf.Intersect2D(s2[0], s2[1])
		di.SetMax(mx)
		in.SetMax(mx)
		for j := range q2 {
			a, b := eval2(q2[j], s2[:2]...), eval3(q3[j], s3[:2]...)
			check("Union2D-"+f.d, u.Evaluate(q2[j]), f.f(a[0], a[1]), q2[j])
			check("Union3D-"+f.d, v.Evaluate(q3[j]), f.f(b[0], b[1]), q3[j])
			check("Difference3D-MaxPoly", di.Evaluate(q3[j]), mx(b[0], -b[1]), q3[j])
			check("Intersect2D-MaxPoly", in.Evaluate(q2[j]), mx(a[0], a[1]), q2[j])
		}
		// any function of the user's is used as it is
		odd := func(j int) func(a, b float64) float64 {
			return [](func(a, b float64) float64){
				func(a, b float64) float64 { return a + b },
				func(a, b float64) float64 { return math.Max(a, b) - 3 },
				func(a, b float64) float64 { return math.Min(a, b) + 3 },
				func(a, b float64) float64 { return math.Abs(a * b) },
				func(a, b float64) float64 { return 0 },
			}[j]
		}
		j := r.Intn(5)
		fn := odd(j)
		u.SetMin(fn)
		v.SetMin(fn)
		d2, d3, i2, i3 := sdf.Difference2D(s2[0], s2[1]), sdf.Difference3D(s3[0], s3[1]), sdf.Intersect2D(s2[0], s2[1]), sdf.Intersect3D(s3[0], s3[1])
		d2.SetMax(fn)
		d3.SetMax(fn)
		i2.SetMax(fn)
		i3.SetMax(fn)
		for k := range q2 {
			a, b := eval2(q2[k], s2[:2]...), eval3(q3[k], s3[:2]...)
			check("Union2D-odd", u.Evaluate(q2[k]), fn(a[0], a[1]), q2[k])
			check("Union3D-odd", v.Evaluate(q3[k]), fn(b[0], b[1]), q3[k])
			check("Difference2D-odd", d2.Evaluate(q2[k]), fn(a[0], -a[1]), q2[k])
			check("Difference3D-odd", d3.Evaluate(q3[k]), fn(b[0], -b[1]), q3[k])
			check("Intersect2D-odd", i2.Evaluate(q2[k]), fn(a[0], a[1]), q2[k])
			check("Intersect3D-odd", i3.Evaluate(q3[k]), fn(b[0], b[1]), q3[k])
		}
	})
}
