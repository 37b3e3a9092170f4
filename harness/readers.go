package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
)

// Renderers that follow a script.

var errScripted = errors.New("scripted failure")

// scripted delivers triangles in pieces of its own choosing.
type scripted struct {
	tris  []tri3
	piece func(max int) int // how many to deliver, of at most max; may be none
	end   error             // error at the end
	with  bool              // deliver it along with the last triangles
	after bool              // the error is repeated afterwards, else io.EOF

	pos   int
	ended bool
	reads int
	short int // reads of nothing
	log   []int
}

func (s *scripted) ReadTriangles(dst []tri3) (int, error) {
	s.reads++
	if s.ended {
		if s.after {
			return 0, s.end
		}
		return 0, io.EOF
	}
	left := len(s.tris) - s.pos
	max := len(dst)
	if left < max {
		max = left
	}
	n := max
	if left > 0 && s.piece != nil {
		n = s.piece(max)
	}
	copy(dst, s.tris[s.pos:s.pos+n])
	s.pos += n
	if n == 0 {
		s.short++
	}
	if len(s.log) < 1000 {
		s.log = append(s.log, n)
	}
	if s.pos == len(s.tris) && (s.with || n == 0) {
		s.ended = true
		return n, s.end
	}
	return n, nil
}

// newScript makes a renderer with one of several habits.
func newScript(r *R, tris []tri3, end error) *scripted {
	s := &scripted{tris: tris, end: end, with: r.Intn(2) == 0, after: r.Intn(2) == 0}
	switch r.Intn(6) {
	case 0: // full buffers
	case 1:
		s.piece = func(max int) int { return 1 }
	case 2:
		s.piece = func(max int) int { return r.Intn(max + 1) }
	case 3:
		s.piece = func(max int) int {
			if r.Intn(2) == 0 {
				return 0
			}
			return max
		}
	case 4:
		s.piece = func(max int) int { return int(math.Min(float64(max), float64(1+r.Intn(7)))) }
	case 5: // busy for long, every now and then
		idle, from := 0, r.Intn(20)
		s.piece = func(max int) int {
			if idle > 0 {
				idle--
				return 0
			}
			if from == 0 {
				from, idle = 1+r.Intn(40), r.Intn(2000)
			}
			from--
			return max
		}
	}
	return s
}

// looseTris are well shaped triangles that do not belong together.
func looseTris(r *R, n int) []tri3 {
	t := make([]tri3, n)
	scale := []float64{1, 1, 1e-3, 1e4, 1e-5, 1e-7, 1e-10, 1e6, 1e10}[r.Intn(9)]
	off := mul3(scale*[]float64{0, 1, 20}[r.Intn(3)], dir3(r.Rand))
	for i := range t {
		at := add3(off, mul3(scale, p3(r.NormFloat64(), r.NormFloat64(), r.NormFloat64())))
		u, v := dir3(r.Rand), dir3(r.Rand)
		for len3(cross3(u, v)) < 0.3 {
			v = dir3(r.Rand)
		}
		t[i] = tri3{at, add3(at, mul3(scale*(0.5+r.Float64()), u)), add3(at, mul3(scale*(0.5+r.Float64()), v))}
		if i > 0 && r.Intn(4) == 0 { // shares vertices with others
			t[i][0] = t[r.Intn(i)][r.Intn(3)]
			if area3(t[i]) < 0.02*scale*scale {
				t[i][0] = at
			}
		}
	}
	return t
}

// smallSolid is a solid that renders quickly.
func smallSolid(r *R) (sdf.SDF3, string) {
	switch r.Intn(4) {
	case 0:
		return waves(r)
	case 1:
		return namedSolid(r)
	}
	g := newGen(r)
	n := g.node3(r.Intn(3))
	if b := n.s.Bounds(); !finite3(b.Min) || !finite3(b.Max) || diag3(b) == 0 {
		return namedSolid(r)
	}
	return n.s, n.d
}

// renderCase returns a solid and a number of cells for it, sometimes random values
// on the very grid of the cells, where cubes are full of triangles.
func renderCase(r *R, max int) (s sdf.SDF3, d string, cells int) {
	if r.Intn(4) == 0 {
		cells = 2 + r.Intn(9)
		t := newTrilinear(r, cells)
		return t, fmt.Sprintf("random values on the grid of %d cells in %v", cells, t.b), cells
	}
	s, d = smallSolid(r)
	return s, d, meshCellCount(r, max)
}

func countTris(t []tri3) map[tri3]int {
	m := map[tri3]int{}
	for _, x := range t {
		m[x]++
	}
	return m
}

// sameSet compares two collections of triangles regardless of order.
func sameSet(got, want []tri3) error {
	m := countTris(want)
	for _, t := range got {
		m[t]--
	}
	lost, more := 0, 0
	var ex tri3
	for t, n := range m {
		if n > 0 {
			lost, ex = lost+n, t
		}
		if n < 0 {
			more, ex = more-n, t
		}
	}
	if lost+more > 0 {
		return fmt.Errorf("%d triangles missing and %d too many, such as %s; got %d, want %d", lost, more, fmtv(ex), len(got), len(want))
	}
	return nil
}

func sameList(got, want []tri3) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Errorf("triangle %d is %s, want %s", i, fmtv(got[i]), fmtv(want[i]))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d triangles, want %d", len(got), len(want))
	}
	return nil
}

// setConcurrency sets the number of goroutines of an octree renderer, which the
// package itself only sets in its tests.
func setConcurrency(oc render.Renderer, n int) bool {
	v := reflect.ValueOf(oc)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return false
	}
	f := v.Elem().FieldByName("concurrent")
	if !f.IsValid() || f.Kind() != reflect.Int || !f.CanAddr() {
		return false
	}
	*(*int)(unsafe.Pointer(f.UnsafeAddr())) = n
	return true
}

// jittered delays evaluations and notes how they interleave.
type jittered struct {
	sdf.SDF3
	yield   uint32 // one of this many evaluations gives way
	n       uint32
	active  int32
	most    int32
	overlap int64
	mu      sync.Mutex
	order   uint64
}

func (j *jittered) Evaluate(p v3) float64 {
	a := atomic.AddInt32(&j.active, 1)
	for {
		m := atomic.LoadInt32(&j.most)
		if a <= m || atomic.CompareAndSwapInt32(&j.most, m, a) {
			break
		}
	}
	if a > 1 {
		atomic.AddInt64(&j.overlap, 1)
	}
	k := atomic.AddUint32(&j.n, 1)
	if j.yield > 0 && (k*2654435761)>>16%j.yield == 0 {
		runtime.Gosched()
	}
	v := j.SDF3.Evaluate(p)
	j.mu.Lock()
	j.order = (j.order ^ math.Float64bits(p.X) ^ math.Float64bits(p.Y)*3 ^ math.Float64bits(p.Z)*7) * 0x9E3779B97F4A7C15
	j.order ^= j.order >> 29
	j.mu.Unlock()
	atomic.AddInt32(&j.active, -1)
	return v
}
