package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C24", level: "monitored",
		rule: "a triangle in a file, distinct by file size and means of writing",
		assumptions: []string{
			"coordinates are within single precision and triangles are not degenerate",
		}, run: runC24})
}

func f32at(b []byte) float32 { return math.Float32frombits(binary.LittleEndian.Uint32(b)) }

// checkSTL compares a file, byte by byte, with the triangles it should have.
func checkSTL(b []byte, tris []tri3) error {
	if len(b) != 84+50*len(tris) {
		return fmt.Errorf("file of %d bytes, want %d for %d triangles", len(b), 84+50*len(tris), len(tris))
	}
	if n := binary.LittleEndian.Uint32(b[80:]); int(n) != len(tris) {
		return fmt.Errorf("count %d, want %d", n, len(tris))
	}
	if bytes.HasPrefix(b, []byte("solid")) {
		return fmt.Errorf("the header %q announces the text format", b[:16])
	}
	for i, t := range tris {
		rec := b[84+50*i:]
		for k, v := range t {
			for j := 0; j < 3; j++ {
				if got, want := f32at(rec[12+12*k+4*j:]), float32(comp3(v, j)); got != want {
					return fmt.Errorf("coordinate %d of vertex %d of triangle %d is %v, want %v", j, k, i, got, want)
				}
			}
		}
		e1, e2 := sub3(t[1], t[0]), sub3(t[2], t[0])
		c := cross3(e1, e2)
		// the direction cannot be known better than the sides are
		m := math.Max(len3(t[0]), math.Max(len3(t[1]), len3(t[2])))
		tol := 1e-6 + 1e-14*(len3(e1)+len3(e2))*(m+len3(e1)+len3(e2))/len3(c)
		if tol < 0.5 {
			n := unit3(c)
			g := p3(float64(f32at(rec)), float64(f32at(rec[4:])), float64(f32at(rec[8:])))
			if !(len3(sub3(g, n)) <= tol) {
				return fmt.Errorf("normal of triangle %d is %v, want %v", i, g, n)
			}
		}
		if rec[48] != 0 || rec[49] != 0 {
			return fmt.Errorf("attribute of triangle %d is %x", i, rec[48:50])
		}
	}
	return nil
}

// picky readers and writers

type chunkReader struct {
	r io.Reader
	n func() int
}

func (c chunkReader) Read(b []byte) (int, error) {
	if n := c.n(); len(b) > n {
		b = b[:n]
	}
	return c.r.Read(b)
}

type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

func rounded(tris []tri3) []tri3 {
	out := make([]tri3, len(tris))
	for i, t := range tris {
		for k, v := range t {
			out[i][k] = p3(float64(float32(v.X)), float64(float32(v.Y)), float64(float32(v.Z)))
		}
	}
	return out
}

// readBack is readBinarySTL of package render, if it could be reached.
var readBack func(io.Reader) ([]tri3, error)

func runC24(c *C) {
	check := func(r *R, b []byte, tris []tri3, desc string) {
		r.Ev(len(tris))
		r.Count("triangles", len(tris))
		for k := 0; k < len(tris) && k < 300; k++ {
			r.DistinctBits(uint64(len(tris)), tris[k][0].X, tris[k][2].Z)
		}
		if err := checkSTL(b, tris); err != nil {
			r.Fatalf("file", "%s of %d triangles: %v", desc, len(tris), err)
		}
		if readBack == nil || len(tris) == 0 {
			return
		}
		want := rounded(tris)
		var src io.Reader = bytes.NewReader(b)
		how := r.Intn(3)
		switch how {
		case 1:
			src = chunkReader{src, func() int { return 1 + r.Intn(60) }}
		case 2:
			src = chunkReader{src, func() int { return 1 + r.Intn(3) }}
		}
		got, err := readBack(src)
		if err != nil {
			r.Fatalf("read", "reading back %s of %d triangles (%d): %v", desc, len(tris), how, err)
		}
		if err := sameList(got, want); err != nil {
			r.Fatalf("read", "reading back %s of %d triangles (%d): %v", desc, len(tris), how, err)
		}
		r.Count("files read back", 1)
	}
	c.Cases("write", c.scale(1500, 20000), func(i int, r *R) {
		n := 1 + r.Intn(60)
		switch {
		case i%40 == 0:
			n = 1 + r.Intn(70000)
		case i%8 == 0:
			n = 1 + r.Intn(3000)
		}
		tris := looseTris(r, n)
		keep := append([]tri3(nil), tris...)
		var b bytes.Buffer
		var w io.Writer = &b
		if r.Intn(2) == 0 {
			w = plainWriter{&b}
		}
		if err := render.WriteSTL(w, tris); err != nil {
			r.Fatalf("error", "WriteSTL of %d triangles: %v", n, err)
		}
		if sameList(tris, keep) != nil {
			r.Failf("changed", "WriteSTL changed its argument")
		}
		check(r, b.Bytes(), tris, "WriteSTL")
	})
	c.Cases("create", c.scale(250, 3000), func(i int, r *R) {
		n := r.Intn(700)
		switch i % 10 {
		case 0:
			n = 16384*(1+r.Intn(3)) + r.Intn(5) - 2
		case 1:
			n = r.Intn(40000)
		case 2:
			n = 655*(1+r.Intn(20)) + r.Intn(5) - 2
		}
		if i%50 == 10 {
			n = 65536*(1+r.Intn(2)) + r.Intn(9) - 4
		}
		tris := looseTris(r, n)
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, fileName(r))
		if r.Intn(2) == 0 { // over a longer file
			os.WriteFile(name, bytes.Repeat([]byte{0xff}, 84+50*n+500+r.Intn(500)), 0o644)
		}
		if err := render.CreateSTL(name, newScript(r, tris, io.EOF)); err != nil {
			r.Fatalf("error", "CreateSTL of %d triangles: %v", n, err)
		}
		b, err := os.ReadFile(name)
		if err != nil {
			r.Fatalf("error", "CreateSTL of %d triangles: %v", n, err)
		}
		check(r, b, tris, "CreateSTL")
	})
	// real models, both ways
	c.Cases("models", c.scale(250, 3000), func(i int, r *R) {
		s, d := smallSolid(r)
		cells := meshCellCount(r, 40)
		tris, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
		if err != nil {
			r.Fatalf("error", "RenderAll: %v", err)
		}
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, fileName(r))
		if err := render.CreateSTL(name, render.NewOctreeRenderer(s, cells)); err != nil {
			r.Fatalf("error", "CreateSTL: %v", err)
		}
		b, _ := os.ReadFile(name)
		// CreateSTL renders anew and may choose its own order
		if len(b) != 84+50*len(tris) || int(binary.LittleEndian.Uint32(b[80:])) != len(tris) {
			r.Fatalf("file", "%.200s, %d cells: file of %d bytes with count %d for %d triangles", d, cells, len(b), binary.LittleEndian.Uint32(b[80:]), len(tris))
		}
		got := make([]tri3, len(tris))
		for i := range got {
			for k := 0; k < 9; k++ {
				v := &got[i][k/3]
				*v = with3(*v, k%3, float64(f32at(b[84+50*i+12+4*k:])))
			}
		}
		if err := sameSet(got, rounded(tris)); err != nil {
			r.Failf("file", "%.200s, %d cells: %v", d, cells, err)
		}
		if len(tris) > 0 {
			var buf bytes.Buffer
			if err := render.WriteSTL(&buf, tris); err != nil {
				r.Fatalf("error", "WriteSTL: %v", err)
			}
			if err := checkSTL(buf.Bytes(), tris); err != nil {
				r.Failf("file", "WriteSTL of %.200s, %d cells: %v", d, cells, err)
			}
		}
		r.Ev(2 * len(tris))
		r.Distinct(d, cells)
	})
	if readBack == nil {
		c.Run("readback", func(r *R) { r.Count("reader not reachable", 1) })
	}
}
