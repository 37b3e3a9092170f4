package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C22", level: "monitored",
		rule:        "a reading of a renderer or a history of a buffer, distinct by the sizes asked for and delivered",
		assumptions: []string{"destinations have room for one triangle or more"}, run: runC22})
}

// guard fills memory around the destination of a read.
var guard = tri3{p3(1.5, -2.5, 3.5), p3(-4.5, 5.5, 6.5), p3(7.5, 8.5, -9.5)}

// readWith reads a renderer to its end.
func readWith(r *R, rd render.Renderer, size func() int, desc string) (all []tri3) {
	hash := []interface{}{desc}
	idle := 0
	for {
		n := size()
		lead, trail := r.Intn(3), 1+r.Intn(12)
		mem := make([]tri3, lead+n+trail)
		for i := range mem {
			mem[i] = guard
		}
		got, err := rd.ReadTriangles(mem[lead : lead+n]) // with room behind
		r.Ev(1)
		if got < 0 || got > n {
			r.Fatalf("count", "%s: ReadTriangles returned %d of %d", desc, got, n)
		}
		for i := range mem {
			if (i < lead || i >= lead+n) && mem[i] != guard {
				r.Fatalf("overrun", "%s: ReadTriangles with %d triangles wrote triangle %d", desc, n, i-lead)
			}
		}
		all = append(all, mem[lead:lead+got]...)
		if len(hash) < 300 {
			hash = append(hash, n, got)
		}
		if got == 0 {
			idle++
		} else {
			idle = 0
		}
		if idle > 3_000_000 {
			r.Fatalf("endless", "%s: no triangles in %d reads", desc, idle)
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			r.Fatalf("error", "%s: %v", desc, err)
		}
	}
	for i := 0; i < 3; i++ {
		mem := []tri3{guard, guard, guard, guard, guard, guard, guard}
		if got, err := rd.ReadTriangles(mem[:1+r.Intn(7)]); got != 0 || err != io.EOF {
			r.Failf("after-end", "%s: ReadTriangles returned %d, %v after the end", desc, got, err)
		}
	}
	r.Distinct(hash...)
	r.Count("reads", len(hash)/2)
	return all
}

func readSizes(r *R) (func() int, string) {
	switch k := r.Intn(8); k {
	case 0:
		return func() int { return 1 }, "1"
	case 1, 2:
		n := 2 + r.Intn(9)
		return func() int { return n }, fmt.Sprint(n)
	case 3:
		return func() int { return 1 + r.Intn(7) }, "1 to 7"
	case 4:
		return func() int { return 1 + r.Intn(60) }, "1 to 60"
	case 5:
		return func() int {
			if r.Intn(3) > 0 {
				return 1 + r.Intn(5)
			}
			return 1 + r.Intn(3000)
		}, "few or many"
	case 6:
		return func() int { return 20000 }, "20000"
	}
	n := 1 + r.Intn(1500)
	return func() int { return n }, fmt.Sprint(n)
}

func scratch(r *R) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d, err := os.MkdirTemp(d, "case")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	return d
}

// fileName returns a name for a file, whatever its format.
func fileName(r *R) string {
	return []string{"a.stl", "a.3mf", "part", "A.STL", "no ending.", "größe 1.stl.tmp", ".hidden", "x.stl.stl"}[r.Intn(8)]
}

func runC22(c *C) {
	c.Cases("octree", c.scale(900, 12000), func(i int, r *R) {
		s, d, cells := renderCase(r, 24)
		want, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
		if err != nil {
			r.Fatalf("error", "RenderAll: %v", err)
		}
		for k := 0; k < 3; k++ {
			size, sd := readSizes(r)
			desc := fmt.Sprintf("%.300s, %d cells, sizes %s", d, cells, sd)
			got := readWith(r, render.NewOctreeRenderer(s, cells), size, desc)
			if err := sameSet(got, want); err != nil {
				r.Failf("set", "%s: %v", desc, err)
			}
		}
		r.Count("triangles", len(want))
		r.Max("most triangles", len(want))
	})
	c.Cases("renderall", c.scale(4000, 60000), func(i int, r *R) {
		n := r.Intn(40)
		switch r.Intn(5) {
		case 0:
			n = 1024*(1+r.Intn(4)) + r.Intn(5) - 2
		case 1:
			n = r.Intn(6000)
		}
		if i%250 == 0 {
			n = 60000 + r.Intn(150000)
		}
		tris := looseTris(r, n)
		errs := []error{io.EOF, io.EOF, io.EOF, errScripted, io.ErrUnexpectedEOF, fmt.Errorf("at last: %w", io.EOF)}
		end := errs[r.Intn(len(errs))]
		s := newScript(r, tris, end)
		got, err := render.RenderAll(s)
		desc := fmt.Sprintf("%d triangles in pieces of %v ended by %v, together %v", n, head2(s.log), end, s.with)
		if e := sameList(got, tris); e != nil {
			r.Failf("renderall", "RenderAll of %s: %v", desc, e)
		}
		if end == io.EOF && err != nil || end != io.EOF && err != end {
			r.Failf("renderall-error", "RenderAll of %s: error %v", desc, err)
		}
		r.Ev(n + 1)
		r.Distinct(n, s.log, end, s.with)
		r.Count("reads of none", s.short)
	})
	c.Cases("stl", c.scale(250, 3000), func(i int, r *R) {
		n := r.Intn(2000)
		switch r.Intn(6) {
		case 0:
			n = 0
		case 1:
			n = 655*(1+r.Intn(30)) + r.Intn(5) - 2
		case 2:
			n = 16384*(1+r.Intn(2)) + r.Intn(5) - 2
		}
		tris := looseTris(r, n)
		end := []error{io.EOF, io.EOF, io.EOF, errScripted}[r.Intn(4)]
		s := newScript(r, tris, end)
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "a.stl")
		err := render.CreateSTL(name, s)
		desc := fmt.Sprintf("%d triangles in pieces of %v ended by %v, together %v", n, head2(s.log), end, s.with)
		r.Ev(n + 1)
		r.Distinct(n, s.log, end, s.with)
		if end != io.EOF {
			if err == nil {
				r.Failf("stl-error", "CreateSTL of %s: no error", desc)
			}
			return
		}
		if err != nil {
			r.Fatalf("stl-error", "CreateSTL of %s: %v", desc, err)
		}
		b, _ := os.ReadFile(name)
		if err := checkSTL(b, tris); err != nil {
			r.Failf("stl", "CreateSTL of %s: %v", desc, err)
		}
	})
	c.Cases("buffer", c.scale(3000, 40000), func(i int, r *R) {
		var b render.TriangleBuffer
		var model []tri3
		id := 0
		var log []int
		for k := 0; k < 40; k++ {
			switch r.Intn(5) {
			case 0, 1:
				n := r.Intn(9)
				if r.Intn(8) == 0 {
					n = 100 + r.Intn(2000)
				}
				w := make([]tri3, n)
				for j := range w {
					id++
					w[j] = tri3{p3(float64(id), 1, 0), p3(0, float64(id), 1), p3(1, 0, float64(id))}
				}
				if got := b.Write(w); got != n {
					r.Failf("write", "Write of %d returned %d", n, got)
				}
				model = append(model, w...)
				for j := range w { // it is the caller's again
					w[j] = guard
				}
				log = append(log, n)
			case 2, 3:
				n := r.Intn(12)
				if r.Intn(8) == 0 {
					n = r.Intn(3000)
				}
				mem := make([]tri3, n+3)
				for j := range mem {
					mem[j] = guard
				}
				got := b.Read(mem[:n])
				want := n
				if len(model) < want {
					want = len(model)
				}
				if got != want {
					r.Fatalf("read", "Read of %d with %d inside returned %d", n, len(model), got)
				}
				for j := range mem {
					if j < got && mem[j] != model[j] {
						r.Fatalf("order", "Read delivered %v at %d, want %v; history %v", mem[j], j, model[j], log)
					}
					if j >= n && mem[j] != guard {
						r.Fatalf("overrun", "Read of %d wrote triangle %d", n, j)
					}
				}
				for j := range mem {
					mem[j] = guard
				}
				model = model[got:]
				log = append(log, -n)
			case 4:
				if got := b.Len(); got != len(model) {
					r.Failf("len", "Len is %d with %d inside", got, len(model))
				}
			}
			r.Ev(1)
		}
		r.Distinct(log)
	})
	c.Cases("empty", c.scale(120, 400), func(i int, r *R) {
		var s sdf.SDF3
		b := randomBox(r)
		u := diag3(b)
		d := ""
		switch i % 5 {
		case 0:
			v := u * (0.01 + r.Float64())
			s, d = fn3{func(v3) float64 { return v }, b}, "far away"
		case 1:
			s, d = sdf.Difference3D(must3.Sphere(u), must3.Sphere(1.5*u)), "sphere without a larger one"
		case 2:
			s, d = sdf.Intersect3D(must3.Sphere(u), sdf.Transform3D(must3.Sphere(u), sdf.Translate3D(p3(2.5*u, 0, 0)))), "spheres apart"
		case 3:
			s, d = fn3{func(p v3) float64 { return len3(p) + 1 }, box3{}}, "box of no size"
		case 4:
			s, d = fn3{func(p v3) float64 { return math.Max(0, boxOut3(b, p)) + 1e-3*u }, b}, "a field that stays positive"
		}
		cells := meshCellCount(r, 40)
		tris, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
		if err != nil || len(tris) != 0 {
			r.Failf("empty", "%s in %v, %d cells: %d triangles, %v", d, b, cells, len(tris), err)
		}
		size, sd := readSizes(r)
		if got := readWith(r, render.NewOctreeRenderer(s, cells), size, d+" "+sd); len(got) != 0 {
			r.Failf("empty", "%s in %v, %d cells, sizes %s: %d triangles", d, b, cells, sd, len(got))
		}
	})
}

func head2(l []int) []int {
	if len(l) > 12 {
		return l[:12]
	}
	return l
}
