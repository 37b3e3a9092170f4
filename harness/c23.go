package main

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C23", level: "monitored",
		rule: "an order of evaluations, distinct by the sequence of points evaluated, and a reading, distinct by its sizes",
		assumptions: []string{
			"the race detector sees the races of the interleavings that were executed",
			"the number of goroutines is the field the package's own tests set",
		}, run: runC23})
}

func runC23(c *C) {
	reach := true
	threaded := func(r *R, s sdf.SDF3, cells, n int) render.Renderer {
		rd := render.NewOctreeRenderer(s, cells)
		if n > 0 && !setConcurrency(rd, n) {
			reach = false
		}
		return rd
	}
	sizes := func(r *R, n int) (func() int, string) {
		switch r.Intn(5) {
		case 0: // few triangles for each goroutine
			k := n*(1+r.Intn(12)) + r.Intn(n+1)
			return func() int { return k }, fmt.Sprint(k)
		case 1:
			return func() int { return n + r.Intn(30*n) }, fmt.Sprintf("%d or more", n)
		case 2: // changes between one and many goroutines
			return func() int { return 1 + r.Intn(3*n) }, "around the goroutines"
		case 3:
			return func() int { return 100 * n }, "100 each"
		}
		return readSizes(r)
	}
	// a single renderer at a time, so that its goroutines have the processors
	for i := 0; i < c.scale(450, 6000); i++ {
		if c.stopped() {
			break
		}
		c.Run(fmt.Sprintf("threads/%d", i), func(r *R) {
			s, d, cells := renderCase(r, 24)
			want := renderAll(r, s, cells)
			n := []int{2, 2, 3, 4, 5, 7, 8, 8, 13, 16, 31}[r.Intn(11)]
			j := &jittered{SDF3: s, yield: uint32(r.Intn(6))}
			size, sd := sizes(r, n)
			desc := fmt.Sprintf("%.300s, %d cells, %d goroutines, sizes %s", d, cells, n, sd)
			var eval sdf.SDF3 = s
			if i%2 == 0 { // otherwise nothing but the renderer orders the goroutines
				eval = j
			}
			got := readWith(r, threaded(r, eval, cells, n), size, desc)
			if err := sameSet(got, want); err != nil {
				r.Failf("set", "%s: %v", desc, err)
			}
			r.Ev(int(j.n))
			r.Count("evaluations at the same time as others", int(j.overlap))
			r.Max("most at the same time", int(j.most))
			r.Count("triangles", len(want))
			r.Distinct("order", j.order)
		})
	}
	// concurrency switched between reads, and through the readers of the package
	for i := 0; i < c.scale(60, 600); i++ {
		if c.stopped() {
			break
		}
		c.Run(fmt.Sprintf("switched/%d", i), func(r *R) {
			s, d := smallSolid(r)
			cells := meshCellCount(r, 24)
			want := renderAll(r, s, cells)
			rd := threaded(r, s, cells, 1+r.Intn(16))
			if i%2 == 0 {
				got, err := render.RenderAll(rd)
				if err != nil {
					r.Fatalf("error", "%v", err)
				}
				if err := sameSet(got, want); err != nil {
					r.Failf("set", "RenderAll of %.300s, %d cells: %v", d, cells, err)
				}
				return
			}
			var got []tri3
			for {
				if r.Intn(3) == 0 {
					setConcurrency(rd, r.Intn(17))
				}
				buf := make([]tri3, 1+r.Intn(300))
				n, err := rd.ReadTriangles(buf)
				got = append(got, buf[:n]...)
				if err == io.EOF {
					break
				}
			}
			if err := sameSet(got, want); err != nil {
				r.Failf("set", "%.300s, %d cells: %v", d, cells, err)
			}
			r.Ev(len(got))
		})
	}
	// several renderers of shapes that share parts
	for i := 0; i < c.scale(80, 1000); i++ {
		if c.stopped() {
			break
		}
		c.Run(fmt.Sprintf("several/%d", i), func(r *R) {
			s, d := smallSolid(r)
			o, _ := smallSolid(r)
			shapes := []sdf.SDF3{s, s, sdf.Union3D(s, o), sdf.Difference3D(o, s), sdf.Transform3D(s, sdf.Translate3D(p3(1, 2, 3))), o}
			cells := meshCellCount(r, 14)
			want := make([][]tri3, len(shapes))
			for k, s := range shapes {
				if b := s.Bounds(); diag3(b) > 0 {
					want[k] = renderAll(r, s, cells)
				}
			}
			got := make([][]tri3, len(shapes))
			errs := make([]error, len(shapes))
			rds := make([]render.Renderer, len(shapes))
			for k := range shapes {
				rds[k] = threaded(r, shapes[k], cells, []int{0, 0, 2, 4}[r.Intn(4)])
			}
			var wg sync.WaitGroup
			for k := range shapes {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[k], errs[k] = render.RenderAll(rds[k])
				}()
			}
			wg.Wait()
			for k := range shapes {
				if errs[k] != nil {
					r.Failf("error", "%v", errs[k])
				}
				if err := sameSet(got[k], want[k]); err != nil {
					r.Failf("set", "renderer %d of %.300s, %d cells: %v", k, d, cells, err)
				}
				r.Ev(len(got[k]))
			}
		})
	}
	// files are written, models imported and meshes made at the same time
	var jobs []int
	for k, kind := range historyKinds {
		switch kind.name {
		case "mesh", "mesh of object", "import", "tetrahedra":
			jobs = append(jobs, k)
		case "file":
			jobs = append(jobs, k, k, k, k)
		}
	}
	for i := 0; i < c.scale(120, 1500); i++ {
		if c.stopped() {
			break
		}
		c.Run(fmt.Sprintf("files/%d", i), func(r *R) {
			type job struct {
				kind      int
				seed      int64
				d, err    string
				want, got digest
			}
			l := make([]job, 8)
			do := func(j *job) (h digest) {
				defer func() {
					if a := recover(); a != nil {
						j.err = fmt.Sprint(a)
					}
				}()
				t := historyKinds[j.kind].make(lone(rand.New(rand.NewSource(j.seed))), j.seed)
				j.d = t.d
				return t.look()
			}
			for k := range l {
				l[k] = job{kind: jobs[r.Intn(len(jobs))], seed: r.Int63()}
				l[k].want = do(&l[k])
				l[k].err = ""
			}
			var wg sync.WaitGroup
			for k := range l {
				j := &l[k]
				wg.Add(1)
				go func() {
					defer wg.Done()
					j.got = do(j)
				}()
			}
			wg.Wait()
			for _, j := range l {
				r.Ev(1)
				r.Count("jobs at the same time as others: "+historyKinds[j.kind].name, 1)
				if j.got != j.want {
					r.Failf("job", "different at the same time as other jobs: %s: %.400s %s", historyKinds[j.kind].name, j.d, j.err)
				}
			}
		})
	}
	c.Run("goroutines", func(r *R) {
		// nothing is left running
		for i := 0; i < 1000 && runtime.NumGoroutine() > 2; i++ {
			runtime.Gosched()
		}
		r.Max("goroutines left", runtime.NumGoroutine())
		if !reach {
			r.Count("goroutines could not be set", 1)
		}
	})
}
