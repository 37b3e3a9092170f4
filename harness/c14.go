package main

import (
	"math"
	"math/rand"
	"runtime"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/sdfexp"
)

func init() {
	register(&prop{id: "C14", level: "exploration", run: runC14,
		rule: "an evaluation or Bounds call made while other goroutines evaluated the same shape, distinct by the bits of point and value",
		assumptions: []string{
			"the Go race detector reports every pair of conflicting accesses it observes without a happens-before edge, however they were interleaved in this run",
		}})
}

// crowd evaluates a shape from many goroutines at once and compares with a log of one goroutine.
func crowd(r *R, s shape, extra []v3, n int, also func(rnd *rand.Rand)) {
	// The values of a single goroutine come from a first pass or, half of the time, from
	// a pass after the crowd, so that state set up by the first evaluation is not hidden.
	b := s.bound()
	pts := append(hostile3(r, b, n), extra...)
	one := func() []uint64 {
		v := make([]uint64, len(pts))
		for i, p := range pts {
			v[i] = math.Float64bits(s.eval(p))
		}
		return v
	}
	var ref []uint64
	first := r.Intn(2) == 0
	if first {
		ref = one()
	}
	k := 4 + r.Intn(5)
	got := make([][]uint64, k)
	order := make([][]int, k)
	bad := make([]interface{}, k)
	moved := make([]bool, k)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < k; w++ {
		w := w
		got[w] = make([]uint64, len(pts))
		order[w] = r.Perm(len(pts))
		rnd := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, p := Panics(func() {
				<-start
				for _, i := range order[w] {
					got[w][i] = math.Float64bits(s.eval(pts[i]))
					switch rnd.Intn(16) {
					case 0:
						runtime.Gosched()
					case 1:
						if s.bound() != b {
							moved[w] = true
						}
					case 2:
						if also != nil {
							also(rnd)
						}
					}
				}
			})
			if p {
				bad[w] = a
			}
		}()
	}
	close(start)
	wg.Wait()
	if !first {
		ref = one()
	}
	for w := range got {
		if bad[w] != nil {
			r.Fatalf("panic", "goroutine panicked: %v in %s", bad[w], s.d)
		}
		if moved[w] {
			r.Failf("bounds", "bounds changed during concurrent evaluation of %s", s.d)
		}
		for i := range pts {
			if got[w][i] != ref[i] {
				r.Fatalf("value", "a goroutine got %.17g at %.17g where one alone gets %.17g, of %s", math.Float64frombits(got[w][i]), pts[i], math.Float64frombits(ref[i]), s.d)
			}
		}
		r.Ev(len(pts))
	}
	for i, p := range pts {
		r.DistinctBits(14, p.X, p.Y, p.Z, math.Float64frombits(ref[i]))
	}
	r.Count("goroutines", k)
	r.Count("crowds", 1)
	r.Sample("%.120s", s.d)
}

func runC14(c *C) {
	c.Cases("compose3", c.scale(4000, 60000), func(i int, r *R) {
		g := newGen(r)
		n := g.node3(i % 5)
		m := g.node3(0)
		crowd(r, shape3(n.s, n.d), nil, 24, func(rnd *rand.Rand) {
			// others build on the same part
			p := p3(rnd.Float64(), rnd.Float64(), rnd.Float64())
			switch rnd.Intn(5) {
			case 0:
				u := sdf.Union3D(n.s, m.s)
				u.SetMin(sdf.MinPoly(2, 0.5))
				u.Evaluate(p)
			case 1:
				sdf.Transform3D(n.s, sdf.RotateX(1)).Evaluate(p)
			case 2:
				sdf.Offset3D(n.s, 0.25).Evaluate(p)
			case 3:
				sdf.Difference3D(m.s, n.s).Evaluate(p)
			case 4:
				sdf.Slice2D(n.s, p, p3(1, 2, 3)).Evaluate(p2(p.X, p.Y))
			}
		})
	})
	c.Cases("compose2", c.scale(4000, 60000), func(i int, r *R) {
		g := newGen(r)
		n := g.node2(i % 5)
		m := g.node2(0)
		crowd(r, shape2(n.s, n.d), nil, 24, func(rnd *rand.Rand) {
			p := p3(rnd.Float64(), rnd.Float64(), rnd.Float64())
			switch rnd.Intn(4) {
			case 0:
				sdf.Union2D(n.s, m.s).Evaluate(p2(p.X, p.Y))
			case 1:
				sdf.Extrude3D(n.s, 1).Evaluate(p)
			case 2:
				sdf.Revolve3D(n.s, 1).Evaluate(p)
			case 3:
				sdf.RotateCopy2D(n.s, 3).Evaluate(p2(p.X, p.Y))
			}
		})
	})
	c.Cases("blend", c.scale(1200, 18000), func(i int, r *R) {
		g := newGen(r)
		g.lip = true
		if i%2 == 0 {
			n := g.blend2(1)
			crowd(r, shape2(n.s, n.d), nil, 24, nil)
		} else {
			n := g.blend3(1)
			crowd(r, shape3(n.s, n.d), nil, 24, nil)
		}
	})
	// kinds with state of their own are always there
	c.Cases("kinds", c.scale(900, 12000), func(i int, r *R) {
		g := newGen(r)
		switch i % 6 {
		case 0: // many members
			var s []sdf.SDF2
			for k := 0; k < 12; k++ {
				s = append(s, sdf.Transform2D(must2.Circle(0.4), sdf.Translate2D(p2(span(r.Rand, -4, 4), span(r.Rand, -4, 4)))))
			}
			crowd(r, shape2(sdf.Union2D(s...), "union of 12 circles"), nil, 40, nil)
		case 1:
			n := g.object3()
			crowd(r, shape3(n.s, n.d), nil, 40, nil)
		case 2:
			t := g.threader()
			s, err := thread.Screw(5, t)
			crowd(r, shape3(ok3(r, s, err), "screw"), nil, 40, func(*rand.Rand) {
				p, err := t.Thread()
				if err == nil {
					p.Evaluate(p2(1, 1))
				}
				t.ThreadParams()
			})
		case 3:
			v := g.simplePoly()
			s := must2.Polygon(v)
			crowd(r, shape2(s, "polygon"), nil, 60, func(*rand.Rand) { must2.Polygon(v).Evaluate(p2(1, 1)) })
		case 4:
			s := must3.Box(p3(1, 2, 3), 0.25)
			u := sdf.Array3D(sdf.RotateUnion3D(s, 3, sdf.RotateZ(1)), sdf.V3i{2, 2, 1}, p3(3, 3, 3))
			crowd(r, shape3(u, "array of rotated union"), nil, 60, nil)
		case 5:
			a, b := g.node2(1), g.node2(1)
			crowd(r, shape3(sdf.Loft3D(a.s, b.s, 2, 0.25), "loft"), nil, 60, nil)
		}
	})
	c.Cases("import", c.scale(500, 8000), func(i int, r *R) {
		m, d := meshSolid(r.Rand, 400)
		m, e := place(r.Rand, m)
		t := m.tris()
		var s sdf.SDF3
		var err error
		if i%2 == 0 {
			s, err = sdfexp.ImportModel(t, 0)
		} else {
			s, err = sdfexp.ImportModelV2(t, 0)
			d += " V2"
		}
		ex := append([]v3(nil), m.v[:minInt(8, len(m.v))]...)
		b := m.bounds()
		for k := 0; k < 60; k++ {
			ex = append(ex, inBox3(r.Rand, b, 0.5))
		}
		crowd(r, shape3(ok3(r, s, err), "import of "+d+" "+e), ex, 16, nil)
	})
	// importing, building and evaluating different models at once
	c.Cases("parallel construction", c.scale(600, 9000), func(i int, r *R) {
		g := newGen(r)
		g.r.Intn(2)
		var wg sync.WaitGroup
		seed := r.Int63()
		vals := make([]float64, 6)
		for w := range vals {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				m, _ := meshSolid(rnd, 100)
				s, err := sdfexp.ImportModel(m.tris(), 0)
				if err != nil {
					return
				}
				s2, err := sdfexp.ImportModelV2(m.tris(), 0)
				if err != nil {
					return
				}
				bt, err := thread.Bolt(thread.BoltParms{Thread: thread.ISO{D: 6, P: 1}, Style: thread.NutHex, TotalLength: 9})
				if err != nil {
					return
				}
				k, err := thread.KnurledHead(3, 2, 0.5)
				if err != nil {
					return
				}
				q := p3(0.3, 0.2, 0.1)
				vals[w] = s.Evaluate(q) + s2.Evaluate(q) + bt.Evaluate(q) + k.Evaluate(q)
			}()
		}
		wg.Wait()
		for w := range vals {
			r.Ev(1)
			if vals[w] != vals[0] {
				r.Fatalf("construction", "models built at the same time differ: %v", vals)
			}
		}
		r.DistinctBits(15, vals[0])
	})
}
