package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
)

// What is made depends on the arguments alone: programs that make the same
// things, among them many with nearly the same arguments, in different orders
// make the same things.

func init() {
	helpers["history"] = historyHelper
	register(&prop{id: "C33", level: "monitored",
		rule:        "a thing that was made in several orders, distinct by what was observed of it",
		assumptions: []string{"things are compared by their bounds and their values at 24 points, or by all of their triangles, bytes or elements"},
		run:         runC33})
}

// altered is a source of random numbers that differs from another one at some draws.
type altered struct {
	rand.Source64
	n    int
	at   map[int]int64 // what a draw is combined with
	full map[int]bool  // the draw is replaced
}

func (a *altered) Int63() int64 {
	v := a.Source64.Int63()
	if m, ok := a.at[a.n]; ok {
		if a.full[a.n] {
			v = m
		} else {
			v ^= m
		}
	}
	a.n++
	return v
}
func (a *altered) Uint64() uint64 { return uint64(a.Int63())<<1 ^ uint64(a.Int63()) }

// sibling returns random numbers that differ from those of the seed in one draw
// or two, a lot or a little. Number 0 is those of the seed.
func sibling(seed int64, number, draws int) *rand.Rand {
	a := &altered{Source64: rand.NewSource(seed).(rand.Source64), at: map[int]int64{}, full: map[int]bool{}}
	r := rand.New(rand.NewSource(hashSeed(strconv.FormatInt(seed, 10), strconv.Itoa(number))))
	if number > 0 {
		for k := 1 + r.Intn(7)/6; k > 0; k-- {
			at := r.Intn(draws)
			if r.Intn(4) > 0 {
				a.at[at], a.full[at] = r.Int63(), true
			} else { // Float64 takes the lower 53 bits
				a.at[at] = r.Int63() & (1<<uint(53-1-r.Intn(50)) - 1)
			}
		}
	}
	return rand.New(a)
}

type digest uint64

func (d *digest) add(v ...float64) {
	h := uint64(*d)
	for _, x := range v {
		h ^= math.Float64bits(x)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
	}
	*d = digest(h)
}

// thing is something that was made; look observes it.
type thing struct {
	d    string
	look func() digest
}

func made3(s sdf.SDF3, d string, seed int64) thing {
	return thing{d, func() (h digest) {
		b := s.Bounds()
		h.add(b.Min.X, b.Min.Y, b.Min.Z, b.Max.X, b.Max.Y, b.Max.Z)
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < 24; i++ {
			u := p3(r.Float64(), r.Float64(), r.Float64())
			p := mul3(16, sub3(u, p3(0.5, 0.5, 0.5)))
			if i%2 == 0 && !math.IsInf(len3(sub3(b.Max, b.Min)), 0) {
				p = add3(b.Min, p3(u.X*(b.Max.X-b.Min.X), u.Y*(b.Max.Y-b.Min.Y), u.Z*(b.Max.Z-b.Min.Z)))
			}
			h.add(s.Evaluate(p))
		}
		return h
	}}
}

func made2(s sdf.SDF2, d string, seed int64) thing {
	return thing{d, func() (h digest) {
		b := s.Bounds()
		h.add(b.Min.X, b.Min.Y, b.Max.X, b.Max.Y)
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < 24; i++ {
			u := p2(r.Float64(), r.Float64())
			p := mul2(16, sub2(u, p2(0.5, 0.5)))
			if i%2 == 0 && !math.IsInf(len2(sub2(b.Max, b.Min)), 0) {
				p = add2(b.Min, p2(u.X*(b.Max.X-b.Min.X), u.Y*(b.Max.Y-b.Min.Y)))
			}
			h.add(s.Evaluate(p))
		}
		return h
	}}
}

// settled is something that does not change any more.
func settled(d string, h digest) thing { return thing{d, func() digest { return h }} }

func hashTris(m []tri3) (h digest) {
	var sum uint64 // in whatever order
	for _, t := range m {
		var k digest
		for _, v := range t {
			k.add(v.X, v.Y, v.Z)
		}
		sum += uint64(k)
	}
	h.add(float64(len(m)))
	return h ^ digest(sum)
}

func hashTetras(nodes []v3, tetras [][4]int) (h digest) {
	for _, v := range nodes {
		h.add(v.X, v.Y, v.Z)
	}
	for _, t := range tetras {
		h.add(float64(t[0]), float64(t[1]), float64(t[2]), float64(t[3]))
	}
	return h
}

func hashBytes(h *digest, b []byte) {
	for i := 0; i < len(b); i++ {
		h.add(float64(b[i]))
	}
}

// kinds of things. They may not depend on anything but the random numbers.
type historyKind struct {
	name  string
	draws int // how many draws are about their arguments
	make  func(r *R, seed int64) thing
}

var historyKinds = []historyKind{
	{"solid", 12, func(r *R, seed int64) thing { n := newGen(r).node3(1); return made3(n.s, n.d, seed) }},
	{"deep solid", 24, func(r *R, seed int64) thing { n := newGen(r).node3(2); return made3(n.s, n.d, seed) }},
	{"primitive", 8, func(r *R, seed int64) thing { n := newGen(r).leaf3(); return made3(n.s, n.d, seed) }},
	{"figure", 12, func(r *R, seed int64) thing { n := newGen(r).node2(1); return made2(n.s, n.d, seed) }},
	{"flat primitive", 8, func(r *R, seed int64) thing { n := newGen(r).leaf2(); return made2(n.s, n.d, seed) }},
	{"blend", 12, func(r *R, seed int64) thing {
		g := newGen(r)
		g.lip = true
		n := g.blend3(1)
		return made3(n.s, n.d, seed)
	}},
	{"object", 10, func(r *R, seed int64) thing { n := newGen(r).object3(); return made3(n.s, n.d, seed) }},
	{"object", 20, func(r *R, seed int64) thing { n := newGen(r).object3(); return made3(n.s, n.d, seed) }},
	{"thread", 8, func(r *R, seed int64) thing {
		t := newGen(r).threader()
		d := fmt.Sprintf("profile of %T%+v", t, t)
		p := t.ThreadParams()
		s, err := t.Thread()
		m := made2(ok2(r, s, err), d, seed)
		return thing{d, func() digest {
			h := m.look()
			h.add(p.Radius, p.Pitch, float64(p.Starts), p.Taper, p.HexF2F, p.HexHeight(), p.HexRadius())
			return h
		}}
	}},
	{"screw", 8, func(r *R, seed int64) thing {
		t := newGen(r).threader()
		l := span(r.Rand, 1, 12)
		s, err := thread.Screw(l, t)
		return made3(ok3(r, s, err), fmt.Sprintf("Screw(%g,%T%+v)", l, t, t), seed)
	}},
	{"rack panel", 10, func(r *R, seed int64) thing {
		k := obj2.EuroRackParams{U: float64(1 + r.Intn(6)), HP: float64(2 + r.Intn(40)), Thickness: span(r.Rand, 0.5, 4), Ridge: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			k.CornerRadius = span(r.Rand, 0.1, 4)
		}
		if r.Intn(2) == 0 {
			k.HoleDiameter = span(r.Rand, 1, 5)
		}
		if r.Intn(2) == 0 {
			s, err := obj2.EuroRackPanel(k)
			return made2(ok2(r, s, err), fmt.Sprintf("2D EuroRackPanel(%+v)", k), seed)
		}
		s, err := obj3.EuroRackPanel(k)
		return made3(ok3(r, s, err), fmt.Sprintf("EuroRackPanel(%+v)", k), seed)
	}},
	{"shrunk", 10, func(r *R, seed int64) thing {
		n := newGen(r).leaf3()
		x := span(r.Rand, 0.1, 20)
		m := made3(matter.PLA.Scale(n.s), fmt.Sprintf("%g in and %s of PLA", x, n.d), seed)
		return thing{m.d, func() digest {
			h := m.look()
			h.add(matter.PLA.InternalDimScale(x))
			return h
		}}
	}},
	{"builder", 12, func(r *R, seed int64) thing {
		b := form2.NewPolygon()
		n := 3 + r.Intn(4)
		d := "PolygonBuilder("
		for i := 0; i < n; i++ {
			t := 2 * math.Pi * (float64(i) + 0.5*r.Float64()) / float64(n)
			rad := span(r.Rand, 1, 3)
			v := b.Add(rad*math.Cos(t), rad*math.Sin(t))
			d += fmt.Sprintf("%g@%g;", rad, t)
			switch r.Intn(4) {
			case 0:
				v.Smooth(0.2*r.Float64()+0.01, 1+r.Intn(6))
			case 1:
				v.Chamfer(0.2*r.Float64() + 0.01)
			case 2:
				if i > 0 {
					v.Arc(4+4*r.Float64(), 1+r.Intn(6))
				}
			}
		}
		b.Close()
		var h digest
		for _, p := range b.Vertices() {
			h.add(p.X, p.Y)
		}
		return settled(d, h)
	}},
	{"mesh", 12, func(r *R, seed int64) thing {
		s, d := convexSolid(r)
		cells := 4 + r.Intn(9)
		rd := render.NewOctreeRenderer(s, cells)
		m, err := render.RenderAll(rd)
		h := hashTris(m)
		if err != nil {
			h.add(1)
		}
		return settled(fmt.Sprintf("%d cells of %s", cells, d), h)
	}},
	{"mesh of object", 16, func(r *R, seed int64) thing {
		n := newGen(r).object3()
		cells := 4 + r.Intn(9)
		m, err := render.RenderAll(render.NewOctreeRenderer(n.s, cells))
		h := hashTris(m)
		if err != nil {
			h.add(1)
		}
		return settled(fmt.Sprintf("%d cells of %s", cells, n.d), h)
	}},
	{"file", 12, func(r *R, seed int64) thing {
		s, d := convexSolid(r)
		cells := 4 + r.Intn(6)
		dir, err := os.MkdirTemp("", "verif-history-")
		if err != nil {
			panic(harnessError(err.Error()))
		}
		defer os.RemoveAll(dir)
		var h digest
		var sum uint64
		name := filepath.Join(dir, "a")
		if r.Intn(2) == 0 {
			d += " as STL"
			if seed%2 == 0 {
				d += " from memory"
				m, _ := render.RenderAll(setOne(render.NewOctreeRenderer(s, cells)))
				var b bytes.Buffer
				if err := render.WriteSTL(&b, m); err != nil {
					h.add(3)
				}
				hashBytes(&h, b.Bytes())
			}
			if err := render.CreateSTL(name, setOne(render.NewOctreeRenderer(s, cells))); err != nil {
				h.add(1)
			}
			b, _ := os.ReadFile(name)
			hashBytes(&h, b)
		} else {
			d += " as 3MF"
			if err := render.Create3MF(name, setOne(render.NewOctreeRenderer(s, cells))); err != nil {
				h.add(1)
			}
			z, err := zip.OpenReader(name)
			if err != nil {
				h.add(2)
			} else {
				for _, f := range z.File {
					if rc, err := f.Open(); err == nil {
						b, _ := io.ReadAll(rc)
						rc.Close()
						var k digest
						hashBytes(&k, append([]byte(f.Name), b...))
						sum += uint64(k)
					}
				}
				z.Close()
			}
		}
		return settled(fmt.Sprintf("%d cells of %s", cells, d), h^digest(sum))
	}},
	{"import", 30, func(r *R, seed int64) thing {
		m, d := meshSolid(r.Rand, 120)
		m, e := place(r.Rand, m)
		if r.Intn(2) == 0 {
			s, err := importOne(r, m.tris(), 0)
			return made3(ok3(r, s, err), "ImportModel "+d+e, seed)
		}
		s, err := importTwo(r, m.tris(), 0)
		return made3(ok3(r, s, err), "ImportModelV2 "+d+e, seed)
	}},
	{"tetrahedra", 10, func(r *R, seed int64) thing {
		s, d := convexSolid(r)
		b := s.Bounds()
		res := math.Min(b.Max.X-b.Min.X, math.Min(b.Max.Y-b.Min.Y, b.Max.Z-b.Min.Z)) / float64(3+r.Intn(3))
		nodes, tetras := sdfexp.UniformTetrahedronMesh(res, s)
		h := hashTetras(nodes, tetras)
		return settled(fmt.Sprintf("%s in cells of %g", d, res), h)
	}},
}

func setOne(rd render.Renderer) render.Renderer { setConcurrency(rd, 1); return rd }

const (
	historyGroups   = 10
	historySiblings = 8
)

// observed is what one process saw of one thing.
type observed struct {
	D           string
	First, Last uint64
	Err         string
}

// lone is a context that is not part of a run.
func lone(rng *rand.Rand) *R {
	return &R{Rand: rng, c: &C{counters: map[string]int64{}}, name: "history", local: map[string]int64{}, dist: map[uint64]struct{}{}}
}

// makeAll makes all things of a case in an order.
func makeAll(seed int64, order int) []observed {
	n := historyGroups * historySiblings
	seq := make([]int, n)
	for i := range seq {
		seq[i] = i
	}
	workers := 1
	rng := rand.New(rand.NewSource(seed + int64(order)))
	switch order {
	case 0:
	case 1:
		for i := range seq {
			seq[i] = n - 1 - i
		}
	case 2, 3: // siblings one after the other
		rng.Shuffle(historyGroups, func(i, j int) {
			for k := 0; k < historySiblings; k++ {
				a, b := i*historySiblings+k, j*historySiblings+k
				seq[a], seq[b] = seq[b], seq[a]
			}
		})
		for g := 0; g < historyGroups; g++ {
			part := seq[g*historySiblings : (g+1)*historySiblings]
			rng.Shuffle(len(part), func(i, j int) { part[i], part[j] = part[j], part[i] })
		}
	default:
		rng.Shuffle(n, func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
		if order >= 5 {
			workers = 4
		}
	}
	kinds := rand.New(rand.NewSource(seed + 1000))
	kindOf := make([]int, historyGroups)
	for g := range kindOf {
		kindOf[g] = kinds.Intn(len(historyKinds))
	}
	out := make([]observed, n)
	things := make([]thing, n)
	one := func(i int) {
		g := i / historySiblings
		kind := historyKinds[kindOf[g]]
		own := hashSeed(strconv.FormatInt(seed, 10), strconv.Itoa(g))
		r := lone(sibling(own, i%historySiblings, kind.draws))
		o := &out[i]
		defer func() {
			if a := recover(); a != nil {
				o.Err = fmt.Sprint("panic: ", a)
				if _, ok := a.(stopCase); ok && len(r.c.viol) > 0 {
					o.Err = r.c.viol[0].Msg
				}
				things[i].look = nil
			}
		}()
		things[i] = kind.make(r, own)
		o.D = kind.name + ": " + things[i].d
		o.First = uint64(things[i].look())
	}
	if workers == 1 {
		for _, i := range seq {
			one(i)
		}
	} else {
		ch := make(chan int, n)
		for _, i := range seq {
			ch <- i
		}
		close(ch)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					one(i)
				}
			}()
		}
		wg.Wait()
	}
	for i := range things { // after everything else was made
		if things[i].look == nil {
			continue
		}
		func() {
			defer func() {
				if a := recover(); a != nil {
					out[i].Err += fmt.Sprint(" later: ", a)
				}
			}()
			out[i].Last = uint64(things[i].look())
		}()
	}
	return out
}

func historyHelper(args []string) int {
	seed, _ := strconv.ParseInt(args[0], 10, 64)
	order, _ := strconv.Atoi(args[1])
	b, err := json.Marshal(makeAll(seed, order))
	if err != nil {
		return 3
	}
	os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
	return 0
}

func runC33(c *C) {
	names := []string{"forwards", "backwards", "in groups", "in other groups", "mixed", "in parallel", "in parallel once more"}
	c.Cases("orders", c.scale(800, 12000), func(i int, r *R) {
		seed := r.Int63() >> 20
		orders := []int{0, 1, 2 + i%2, 4}
		if i%2 == 0 {
			orders = append(orders, 5+(i/2)%2)
		}
		var ref []observed
		for k, o := range orders {
			cmd := exec.Command(os.Args[0], "-helper", "history", strconv.FormatInt(seed, 10), strconv.Itoa(o))
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			b, err := cmd.Output()
			var got []observed
			if err == nil {
				at := bytes.LastIndex(b, []byte("RESULT "))
				if at < 0 {
					panic(harnessError("no result of the history helper"))
				}
				err = json.Unmarshal(b[at+7:], &got)
			}
			if err != nil {
				r.Fatalf("crash", "making things %s: %v\n%s", names[o], err, head(stderr.Bytes(), 1500))
			}
			for j := range got {
				r.Ev(1)
				if got[j].Err == "" && got[j].First != got[j].Last {
					r.Failf("changed", "made %s, it is not the same after other things were made: %.500s", names[o], got[j].D)
				}
			}
			if k == 0 {
				ref = got
				same := 0
				for j := range got {
					r.DistinctBits(got[j].First)
					if got[j].Err != "" {
						r.Count("refused", 1)
					}
					if j%historySiblings > 0 && got[j].First == got[j-j%historySiblings].First {
						same++
					}
				}
				r.Count("siblings", historyGroups*(historySiblings-1))
				r.Count("siblings that are equal", same)
				continue
			}
			for j := range got {
				if got[j].D != ref[j].D {
					r.Failf("made", "thing %d made %s: %.500s %s; made forwards: %.500s %s", j, names[o], got[j].D, got[j].Err, ref[j].D, ref[j].Err)
				} else if got[j].Err != ref[j].Err || got[j].First != ref[j].First {
					r.Failf("made", "thing %d is different when made %s (%.200s) and forwards (%.200s): %.500s", j, names[o], got[j].Err, ref[j].Err, got[j].D)
				}
			}
		}
		r.Count("processes", len(orders))
		r.Count("things", len(orders)*historyGroups*historySiblings)
	})
}
