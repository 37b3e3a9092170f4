package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/soypat/sdf"
)

func init() {
	register(&prop{id: "C08", level: "exploration", run: runC08,
		rule: "a point at which a pattern was compared with the copies asked for, distinct by the bits of point and least value",
		assumptions: []string{
			"inside and outside are compared where the least value of the copies is not within 1e-9 of zero",
			"rotated copies are compared at angles not within 1e-7 of the border of two sectors",
		}})
}

func runC08(c *C) {
	sign := func(r *R, key string, got, want float64, format string, args ...interface{}) {
		r.Ev(1)
		if math.IsNaN(got) || math.Abs(want) > 1e-9 && (got < 0) != (want < 0) {
			r.Failf(key, "%s: %.17g, the least value of the copies is %.17g", fmt.Sprintf(format, args...), got, want)
		}
		if want < 0 {
			r.Count("inside", 1)
		}
		r.DistinctBits(1, got, want)
	}
	c.Cases("array", c.scale(12000, 150000), func(i int, r *R) {
		s2, s3 := newAny2(r.Rand), newAny3(r.Rand)
		n := [3]int{r.Intn(5), r.Intn(5), r.Intn(5)}
		if r.Intn(4) > 0 {
			for k := range n {
				n[k]++
			}
		}
		if r.Intn(20) == 0 {
			n[r.Intn(3)] = -1
		}
		st := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
		if r.Intn(6) == 0 { // next to no step
			ax := r.Intn(3)
			st = with3(st, ax, 0.1*math.Pow(10, -5*r.Float64()))
			if r.Intn(8) == 0 {
				n = [3]int{1, 1, 1}
				n[ax] = 50 + r.Intn(500)
			}
		}
		a2 := sdf.Array2D(s2, sdf.V2i{n[0], n[1]}, p2(st.X, st.Y))
		a3 := sdf.Array3D(s3, sdf.V3i{n[0], n[1], n[2]}, st)
		// The probes take any point, so that all copies are told apart.
		for j := 0; j < 10; j++ {
			q := p3(span(r.Rand, -15, 15), span(r.Rand, -15, 15), span(r.Rand, -15, 15))
			w2, w3 := math.Inf(1), math.Inf(1)
			for x := 0; x < n[0]; x++ {
				for y := 0; y < n[1]; y++ {
					w2 = math.Min(w2, s2.Evaluate(p2(q.X-float64(x)*st.X, q.Y-float64(y)*st.Y)))
					for z := 0; z < n[2]; z++ {
						w3 = math.Min(w3, s3.Evaluate(sub3(q, p3(float64(x)*st.X, float64(y)*st.Y, float64(z)*st.Z))))
					}
				}
			}
			sign(r, "array2", a2.Evaluate(p2(q.X, q.Y)), w2, "Array2D %v step %v at %v", n, st, q)
			sign(r, "array3", a3.Evaluate(q), w3, "Array3D %v step %v at %v", n, st, q)
		}
	})
	c.Cases("rotate", c.scale(12000, 150000), func(i int, r *R) {
		s2, s3 := newAny2(r.Rand), newAny3(r.Rand)
		num := r.Intn(9)
		t := angle(r.Rand)
		axis := v3{Z: 1}
		if r.Intn(2) == 0 {
			axis = dir3(r.Rand)
		}
		u2 := sdf.RotateUnion2D(s2, num, sdf.Rotate2D(t))
		u3 := sdf.RotateUnion3D(s3, num, sdf.Rotate3D(axis, t))
		for j := 0; j < 10; j++ {
			q := p3(span(r.Rand, -8, 8), span(r.Rand, -8, 8), span(r.Rand, -8, 8))
			w2, w3 := math.Inf(1), math.Inf(1)
			for k := 0; k < num; k++ {
				w2 = math.Min(w2, s2.Evaluate(rot2(p2(q.X, q.Y), -t*float64(k))))
				w3 = math.Min(w3, s3.Evaluate(rodrigues(axis, -t*float64(k)).at(q)))
			}
			sign(r, "rotateunion2", u2.Evaluate(p2(q.X, q.Y)), w2, "RotateUnion2D %d step %v at %v", num, t, q)
			sign(r, "rotateunion3", u3.Evaluate(q), w3, "RotateUnion3D %d step %v about %v at %v", num, t, axis, q)
		}
		// copies around the circle
		num = 1 + r.Intn(12)
		c2, c3 := sdf.RotateCopy2D(s2, num), sdf.RotateCopy3D(s3, num)
		sector := 2 * math.Pi / float64(num)
		for j := 0; j < 16; j++ {
			q := p3(span(r.Rand, -8, 8), span(r.Rand, -8, 8), span(r.Rand, -8, 8))
			th := math.Atan2(q.Y, q.X) / sector
			k := math.Round(th)
			if math.Abs(math.Abs(th-k)-0.5) < 1e-7 || q.X == 0 && q.Y == 0 {
				continue
			}
			f := rot2(p2(q.X, q.Y), -k*sector)
			w2, w3 := s2.Evaluate(f), s3.Evaluate(p3(f.X, f.Y, q.Z))
			g2, g3 := c2.Evaluate(p2(q.X, q.Y)), c3.Evaluate(q)
			sign(r, "rotatecopy2", g2, w2, "RotateCopy2D %d at %v", num, q)
			sign(r, "rotatecopy3", g3, w3, "RotateCopy3D %d at %v", num, q)
			if !near(g2, w2, 1e-9) {
				r.Failf("rotatecopy2", "RotateCopy2D %d at %v: %.17g, the shape has %.17g in its sector", num, q, g2, w2)
			}
			if !near(g3, w3, 1e-9) {
				r.Failf("rotatecopy3", "RotateCopy3D %d at %v: %.17g, the shape has %.17g in its sector", num, q, g3, w3)
			}
		}
		e := sdf.RotateCopy3D(s3, -r.Intn(2))
		if v := e.Evaluate(p3(span(r.Rand, -3, 3), 0, 0)); !(v > 0) {
			r.Failf("rotatecopy3", "no copies are inside somewhere: %v", v)
		}
	})
	c.Cases("line", c.scale(10000, 120000), func(i int, r *R) {
		g := newGen(r)
		m2, m3 := g.node2(1), newAny3(r.Rand)
		n := r.Intn(9)
		var sb strings.Builder
		for k := 0; k < n; k++ {
			if k%3 > 0 && r.Intn(4) == 0 { // characters of several bytes
				sb.WriteRune([]rune("·é×✕𝚡")[r.Intn(5)])
				continue
			}
			sb.WriteByte("x.x -X"[r.Intn(6)])
		}
		pat := sb.String()
		a, b := p3(span(r.Rand, -8, 8), span(r.Rand, -8, 8), span(r.Rand, -8, 8)), p3(span(r.Rand, -8, 8), span(r.Rand, -8, 8), span(r.Rand, -8, 8))
		if r.Intn(8) == 0 {
			b = a
		}
		a2, b2 := p2(a.X, a.Y), p2(b.X, b.Y)
		l2, l3 := sdf.LineOf2D(m2.s, a2, b2, pat), sdf.LineOf3D(m3, a, b, pat)
		var at2 []v2
		var at3 []v3
		for k, ch := range []rune(pat) {
			if ch == 'x' {
				f := float64(k) / float64(n)
				at2 = append(at2, add2(a2, mul2(f, sub2(b2, a2))))
				at3 = append(at3, add3(a, mul3(f, sub3(b, a))))
			}
		}
		for j := 0; j < 16; j++ {
			w2, w3 := math.Inf(1), math.Inf(1)
			q2, q3 := p2(span(r.Rand, -12, 12), span(r.Rand, -12, 12)), p3(span(r.Rand, -12, 12), span(r.Rand, -12, 12), span(r.Rand, -12, 12))
			if len(at2) > 0 && j%2 == 0 { // near a copy
				q2 = add2(at2[r.Intn(len(at2))], inBox2(r.Rand, m2.s.Bounds(), 0.2))
			}
			for k := range at2 {
				w2 = math.Min(w2, m2.s.Evaluate(sub2(q2, at2[k])))
				w3 = math.Min(w3, m3.Evaluate(sub3(q3, at3[k])))
			}
			sign(r, "lineof2", l2.Evaluate(q2), w2, "LineOf2D of %s from %v to %v pattern %q at %v", m2.d, a2, b2, pat, q2)
			sign(r, "lineof3", l3.Evaluate(q3), w3, "LineOf3D from %v to %v pattern %q at %v", a, b, pat, q3)
		}
		// positions
		var pos2 []v2
		var pos3 []v3
		for k := r.Intn(6); k > 0; k-- {
			pos3 = append(pos3, p3(span(r.Rand, -8, 8), span(r.Rand, -8, 8), span(r.Rand, -8, 8)))
			pos2 = append(pos2, p2(span(r.Rand, -8, 8), span(r.Rand, -8, 8)))
		}
		keep2, keep3 := append([]v2{}, pos2...), append([]v3{}, pos3...)
		var u2 sdf.SDF2
		if len(pos2) > 0 { // Multi2D rejects an empty request
			u2 = sdf.Multi2D(m2.s, pos2)
		}
		u3 := sdf.Multi3D(m3, pos3)
		for k := range pos2 {
			pos2[k], pos3[k] = p2(1e3, 0), p3(1e3, 0, 0)
		}
		for j := 0; j < 16; j++ {
			q2, q3 := p2(span(r.Rand, -12, 12), span(r.Rand, -12, 12)), p3(span(r.Rand, -12, 12), span(r.Rand, -12, 12), span(r.Rand, -12, 12))
			if len(keep2) > 0 && j%2 == 0 {
				q2 = add2(keep2[r.Intn(len(keep2))], inBox2(r.Rand, m2.s.Bounds(), 0.2))
			}
			w2, w3 := math.Inf(1), math.Inf(1)
			for k := range keep2 {
				w2 = math.Min(w2, m2.s.Evaluate(sub2(q2, keep2[k])))
				w3 = math.Min(w3, m3.Evaluate(sub3(q3, keep3[k])))
			}
			if u2 != nil {
				sign(r, "multi2", u2.Evaluate(q2), w2, "Multi2D of %s at %v: %v", m2.d, keep2, q2)
			}
			sign(r, "multi3", u3.Evaluate(q3), w3, "Multi3D at %v: %v", keep3, q3)
		}
	})
	// many copies, looked at one by one
	c.Cases("many", c.scale(1500, 12000), func(i int, r *R) {
		o := mul3(0.4, dir3(r.Rand))
		rad := span(r.Rand, 0.25, 1.5)
		s3 := fn3{func(p v3) float64 { return len3(sub3(p, o)) - rad }, box3{Min: sub3(o, p3(rad, rad, rad)), Max: add3(o, p3(rad, rad, rad))}}
		o2 := p2(o.X, o.Y)
		s2 := fn2{func(p v2) float64 { return len2(sub2(p, o2)) - rad }, box2{Min: sub2(o2, p2(rad, rad)), Max: add2(o2, p2(rad, rad))}}
		n := 2 + r.Intn([]int{20, 70, 150, 400}[r.Intn(4)])
		var g2 sdf.SDF2
		var g3 sdf.SDF3
		var in2, in3 func(k int) func(v3) v3 // takes a point into the frame of copy k
		var d string
		at := make([]v3, n)
		switch i % 5 {
		case 0:
			num := [3]int{1, 1, 1}
			ax := r.Intn(3)
			num[ax] = n
			other := (ax + 1 + r.Intn(2)) % 3
			num[other] = 1 + r.Intn(3)
			st := p3(span(r.Rand, -5, 5), span(r.Rand, -5, 5), span(r.Rand, -5, 5))
			if r.Intn(4) == 0 {
				st = with3(st, other, 0)
			}
			g3 = sdf.Array3D(s3, sdf.V3i(num), st)
			total := num[0] * num[1] * num[2]
			at = make([]v3, total)
			for k := range at {
				at[k] = p3(float64(k%num[0])*st.X, float64(k/num[0]%num[1])*st.Y, float64(k/num[0]/num[1])*st.Z)
			}
			d = fmt.Sprintf("Array %v step %v", num, st)
			if num[2] == 1 {
				g2 = sdf.Array2D(s2, sdf.V2i{num[0], num[1]}, p2(st.X, st.Y))
			}
			n = total
		case 1:
			t := angle(r.Rand)
			axis := v3{Z: 1}
			if r.Intn(2) == 0 {
				axis = dir3(r.Rand)
			}
			up := mul3(span(r.Rand, 0, 0.5), axis)
			m := sdf.Translate3D(up).Mul(sdf.Rotate3D(axis, t))
			g3 = sdf.RotateUnion3D(s3, n, m)
			in3 = func(k int) func(v3) v3 {
				a := rodrigues(axis, -math.Remainder(t*float64(k), 2*math.Pi))
				return func(p v3) v3 { return a.at(sub3(p, mul3(float64(k), up))) }
			}
			if axis.Z == 1 {
				g2 = sdf.RotateUnion2D(s2, n, sdf.Rotate2D(t))
				in2 = func(k int) func(v3) v3 {
					a := -math.Remainder(t*float64(k), 2*math.Pi)
					return func(p v3) v3 { q := rot2(p2(p.X, p.Y), a); return p3(q.X, q.Y, 0) }
				}
			}
			d = fmt.Sprintf("RotateUnion %d about %v by %v, up %v", n, axis, t, up)
		case 2:
			var sb strings.Builder
			var ks []int
			for k := 0; k < n; k++ {
				ch := "x.x -X"[r.Intn(6)]
				if k == n-1 {
					ch = 'x'
				}
				sb.WriteByte(ch)
				if ch == 'x' {
					ks = append(ks, k)
				}
			}
			a, b := mul3(8*r.Float64(), dir3(r.Rand)), mul3(200*r.Float64(), dir3(r.Rand))
			at = at[:0]
			for _, k := range ks {
				at = append(at, add3(a, mul3(float64(k)/float64(n), sub3(b, a))))
			}
			g2, g3 = sdf.LineOf2D(s2, p2(a.X, a.Y), p2(b.X, b.Y), sb.String()), sdf.LineOf3D(s3, a, b, sb.String())
			d = fmt.Sprintf("LineOf %v to %v %q", a, b, sb.String())
			n = len(at)
		case 3: // positions, some of them close together
			var v2s []v2
			var v3s []v3
			for k := range at {
				at[k] = mul3(30*r.Float64(), dir3(r.Rand))
				if k > 0 && r.Intn(3) == 0 {
					at[k] = add3(at[r.Intn(k)], mul3(span(r.Rand, 0, 0.5), dir3(r.Rand)))
				}
				if k > 0 && r.Intn(4) == 0 { // a column or row
					j := r.Intn(3)
					at[k] = with3(at[k], j, comp3(at[k-1], j)+span(r.Rand, -1e-3, 1e-3))
				}
				v2s, v3s = append(v2s, p2(at[k].X, at[k].Y)), append(v3s, at[k])
			}
			g2, g3 = sdf.Multi2D(s2, v2s), sdf.Multi3D(s3, v3s)
			d = fmt.Sprintf("Multi %v", at)
		case 4:
			if r.Intn(4) == 0 {
				n = 1 + r.Intn(3000)
			}
			// one lump per sector, on the x axis
			far := (rad + 0.4) * (1.2 + 2*r.Float64()) * float64(n)
			b := box3{Min: sub3(s3.Bounds().Min, p3(-far, 0, 0)), Max: add3(s3.Bounds().Max, p3(far, 0, 0))}
			f3 := fn3{func(p v3) float64 { return s3.f(sub3(p, p3(far, 0, 0))) }, b}
			f2 := fn2{func(p v2) float64 { return s2.f(sub2(p, p2(far, 0))) }, box2{Min: p2(b.Min.X, b.Min.Y), Max: p2(b.Max.X, b.Max.Y)}}
			c2, c3 := sdf.RotateCopy2D(f2, n), sdf.RotateCopy3D(f3, n)
			for j := 0; j < 24; j++ {
				k := r.Intn(n)
				a := 2 * math.Pi * float64(k) / float64(n)
				q := add3(p3(far, 0, 0), add3(o, mul3(rad*(0.9+0.2*r.Float64()), dir3(r.Rand))))
				t := rot2(p2(q.X, q.Y), a)
				p := p3(t.X, t.Y, q.Z)
				tol := 1e-13 * far
				for w := 0; w < 2; w++ {
					var got, want float64
					if w == 0 {
						got, want = c2.Evaluate(t), f2.f(p2(q.X, q.Y))
					} else {
						got, want = c3.Evaluate(p), f3.f(q)
					}
					r.Ev(1)
					r.DistinctBits(3, got, want)
					if math.Abs(got-want) > 1e-9+10*tol {
						r.Failf("rotatecopy-many", "RotateCopy%dD %d: %.17g at %v, the shape has %.17g in its sector", 2+w, n, got, p, want)
					}
				}
			}
			return
		}
		r.Max("copies", n)
		for j := 0; j < 24; j++ {
			k := r.Intn(n)
			if r.Intn(4) == 0 {
				k = n - 1 - r.Intn(1+n/2)
			}
			for w := 0; w < 2; w++ {
				if w == 0 && g2 == nil {
					continue
				}
				fr := in3
				if w == 0 && in2 != nil {
					fr = in2
				}
				// a point close to the surface of copy k
				e := math.Pow(10, -1-6*r.Float64())
				if r.Intn(2) == 0 {
					e = -e
				}
				q := add3(o, mul3(rad*(1+e), dir3(r.Rand)))
				p := v3{}
				if fr == nil {
					p = add3(at[k], q)
				} else {
					// the frame is a rigid map; turn it round
					f := fr(k)
					z := f(v3{})
					ex, ey, ez := sub3(f(p3(1, 0, 0)), z), sub3(f(p3(0, 1, 0)), z), sub3(f(p3(0, 0, 1)), z)
					t := sub3(q, z)
					p = p3(dot3(ex, t), dot3(ey, t), dot3(ez, t))
				}
				want := math.Inf(1)
				for m := 0; m < n; m++ {
					x := p
					if fr == nil {
						x = sub3(p, at[m])
					} else {
						x = fr(m)(p)
					}
					if w == 0 {
						want = math.Min(want, s2.f(p2(x.X, x.Y)))
					} else {
						want = math.Min(want, s3.f(x))
					}
				}
				if w == 0 {
					sign(r, "many2", g2.Evaluate(p2(p.X, p.Y)), want, "2D %.300s at %v", d, p)
				} else {
					sign(r, "many3", g3.Evaluate(p), want, "3D %.300s at %v", d, p)
				}
			}
		}
	})
	c.Cases("orient", c.scale(10000, 120000), func(i int, r *R) {
		length := func() float64 {
			if r.Intn(3) == 0 {
				return math.Pow(10, 13*r.Float64()-8)
			}
			return math.Pow(10, 2*r.Float64()-1)
		}
		base := mul3(length(), dir3(r.Rand))
		bu := unit3(base)
		// A shape that is the same all around the base axis, but not along it.
		ring := func(axis v3) func(p v3) float64 {
			return func(p v3) float64 {
				h := dot3(p, axis)
				rho := len3(sub3(p, mul3(h, axis)))
				return math.Max(rho-0.3-0.2*(h-1), math.Abs(h-1)-1) // a cone from the origin to 2
			}
		}
		s := fn3{ring(bu), box3{Min: p3(-2.5, -2.5, -2.5), Max: p3(2.5, 2.5, 2.5)}}
		var dirs []v3
		for k := r.Intn(5); k > 0; k-- {
			d := dir3(r.Rand)
			switch r.Intn(8) {
			case 0:
				d = bu
			case 1:
				d = mul3(-1, bu)
			case 2: // almost opposite
				d = unit3(add3(mul3(-1, bu), mul3(math.Pow(10, -2-13*r.Float64()), dir3(r.Rand))))
			}
			dirs = append(dirs, mul3(length(), d))
		}
		o := sdf.Orient3D(s, base, dirs)
		for j := 0; j < 24; j++ {
			p := p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3))
			if len(dirs) > 0 && j%2 == 0 {
				p = add3(mul3(2*r.Float64(), unit3(dirs[r.Intn(len(dirs))])), mul3(0.4*r.Float64(), dir3(r.Rand)))
			}
			w := math.Inf(1)
			for _, d := range dirs {
				w = math.Min(w, ring(unit3(d))(p))
			}
			got := o.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(2, got, w)
			if math.Abs(w) > 1e-5 && (got < 0) != (w < 0) {
				r.Failf("orient", "Orient3D base %v directions %v at %v: %.17g, the least value of the copies is %.17g", base, dirs, p, got, w)
			}
			if w < 0 {
				r.Count("inside", 1)
			}
		}
		// the turn itself, seen by the shape
		for _, d := range dirs {
			var seen v3
			rec := fn3{func(p v3) float64 { seen = p; return 1 }, s.Bounds()}
			one := sdf.Orient3D(rec, base, []v3{d})
			at := func(p v3) v3 { one.Evaluate(p); return seen }
			m := amap3{c: [3]v3{at(v3{X: 1}), at(v3{Y: 1}), at(v3{Z: 1})}, t: at(v3{})}
			if !near3(m.t, v3{}, 1e-9) {
				r.Failf("orient-turn", "Orient3D %v to %v moves the origin", base, d)
			}
			tol := 1e-8
			if math.Abs(m.det()-1) > tol || math.Abs(dot3(m.c[0], m.c[1])) > tol || math.Abs(dot3(m.c[1], m.c[2])) > tol || math.Abs(len3(m.c[0])-1) > tol {
				r.Failf("orient-turn", "Orient3D %v to %v is no proper rotation: %v", base, d, m)
			}
			if q := m.lin(unit3(d)); !near3(q, bu, tol) {
				r.Failf("orient-turn", "Orient3D %v to %v turns %v there", base, d, q)
			}
			r.Ev(1)
		}
	})
}
