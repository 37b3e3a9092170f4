package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
)

// weld gives vertices closer than eps the same number.
func weld(tris []tri3, eps float64) ([][3]int, []v3) {
	ids := map[v3]int{}
	var vs []v3
	f := make([][3]int, len(tris))
	for i, t := range tris {
		for k, v := range t {
			v = p3(v.X+0, v.Y+0, v.Z+0) // no negative zeros
			id, ok := ids[v]
			if !ok {
				id = len(vs)
				ids[v] = id
				vs = append(vs, v)
			}
			f[i][k] = id
		}
	}
	if eps == 0 {
		return f, vs
	}
	parent := make([]int, len(vs))
	for i := range parent {
		parent[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	// each vertex is filed in its cell, and looked for in every cell it may have a neighbour in
	h := 256 * eps
	type key [3]int64
	at := func(v v3) key {
		return key{int64(math.Floor(v.X / h)), int64(math.Floor(v.Y / h)), int64(math.Floor(v.Z / h))}
	}
	cells := map[key][]int{}
	for i, v := range vs {
		lo, hi := at(sub3(v, p3(eps, eps, eps))), at(add3(v, p3(eps, eps, eps)))
		for x := lo[0]; x <= hi[0]; x++ {
			for y := lo[1]; y <= hi[1]; y++ {
				for z := lo[2]; z <= hi[2]; z++ {
					for _, j := range cells[key{x, y, z}] {
						if len3(sub3(v, vs[j])) <= eps {
							parent[find(i)] = find(j)
						}
					}
				}
			}
		}
		k := at(v)
		cells[k] = append(cells[k], i)
	}
	for i := range f {
		for k := range f[i] {
			f[i][k] = find(f[i][k])
		}
	}
	return f, vs
}

// openEdges returns the directed edges that are not matched by opposite ones.
func openEdges(f [][3]int) map[[2]int]int {
	edges := map[[2]int]int{}
	for _, t := range f {
		for k := range t {
			a, b := t[k], t[(k+1)%3]
			switch {
			case a < b:
				edges[[2]int{a, b}]++
			case a > b:
				edges[[2]int{b, a}]--
			}
		}
	}
	for k, n := range edges {
		if n == 0 {
			delete(edges, k)
		}
	}
	return edges
}

func area3(t tri3) float64 { return len3(cross3(sub3(t[1], t[0]), sub3(t[2], t[0]))) / 2 }

func meshVolume(tris []tri3) float64 {
	if len(tris) == 0 {
		return 0
	}
	o := tris[0][0]
	s := 0.0
	for _, t := range tris {
		s += dot3(sub3(t[0], o), cross3(sub3(t[1], o), sub3(t[2], o)))
	}
	return s / 6
}

// watchClosed checks that triangles form closed surfaces without degenerate parts.
func watchClosed(r *R, tris []tri3, cell float64, desc string) {
	f, vs := weld(tris, 1e-6*cell)
	for i, t := range tris {
		if !finite3(t[0]) || !finite3(t[1]) || !finite3(t[2]) {
			r.Fatalf("nan", "%s: triangle %v", desc, t)
		}
		if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] || !(area3(t) > 0) {
			r.Failf("degenerate", "%s: triangle %d is %s", desc, i, fmtv(t))
		}
	}
	r.Ev(3 * len(f))
	if open := openEdges(f); len(open) != 0 {
		for e, n := range open {
			r.Failf("open", "%s: %d of the edges are open, such as %s to %s (%d)", desc, len(open), fmtv(vs[e[0]]), fmtv(vs[e[1]]), n)
			break
		}
	}
	r.Count("triangles", len(tris))
	watchShared(r, tris, desc)
}

// watchShared checks that triangles that meet share the very same coordinates,
// without which formats that number their vertices hold open surfaces.
func watchShared(r *R, tris []tri3, desc string) {
	f, vs := weld(tris, 0)
	if open := openEdges(f); len(open) != 0 {
		for e, n := range open {
			r.Failf("shared", "%s: the ends of %d of the edges have no exact match, such as %s to %s (%d)", desc, len(open), fmtv(vs[e[0]]), fmtv(vs[e[1]]), n)
			break
		}
	}
}

// renderAll renders a shape.
func renderAll(r *R, s sdf.SDF3, cells int) []tri3 {
	tris, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
	if err != nil {
		r.Fatalf("error", "rendering: %v", err)
	}
	return tris
}

// lattice is the sampling grid of a rendering.
type lattice struct {
	origin v3
	cell   float64
	n      [3]int // number of cells the enlarged bounds reach into
	top    int    // number of cells along each side of the cube that is subdivided
}

func latticeOf(b box3, cells int) lattice {
	size := sub3(b.Max, b.Min)
	mid := mul3(0.5, add3(b.Min, b.Max))
	size = mul3(1.01, size)
	l := lattice{origin: sub3(mid, mul3(0.5, size))}
	l.cell = math.Max(size.X, math.Max(size.Y, size.Z)) / float64(cells)
	for i := range l.n {
		l.n[i] = int(math.Ceil(comp3(size, i)/l.cell - 1e-9))
	}
	for l.top = 1; l.top < cells; l.top *= 2 {
	}
	return l
}

// onEdges checks that all vertices are on the edges of the lattice.
func (l lattice) onEdges(tris []tri3, tol float64) error {
	for i, t := range tris {
		for _, v := range t {
			q := mul3(1/l.cell, sub3(v, l.origin))
			off := 0
			for k := 0; k < 3; k++ {
				if x := comp3(q, k); math.Abs(x-math.Round(x)) > tol {
					off++
				}
			}
			if off > 1 {
				return fmt.Errorf("vertex %s of triangle %d is at %s in cells, on no edge of the grid", fmtv(v), i, fmtv(q))
			}
		}
	}
	return nil
}

// rings finds triangles close to points.
type triGrid struct {
	tris []tri3
	h    float64
	m    map[[3]int][]int
}

func newTriGrid(tris []tri3, h float64) *triGrid {
	g := &triGrid{tris: tris, h: h, m: map[[3]int][]int{}}
	for i, t := range tris {
		lo, hi := t[0], t[0]
		for _, v := range t[1:] {
			lo = p3(math.Min(lo.X, v.X), math.Min(lo.Y, v.Y), math.Min(lo.Z, v.Z))
			hi = p3(math.Max(hi.X, v.X), math.Max(hi.Y, v.Y), math.Max(hi.Z, v.Z))
		}
		a, b := g.at(lo), g.at(hi)
		for x := a[0]; x <= b[0]; x++ {
			for y := a[1]; y <= b[1]; y++ {
				for z := a[2]; z <= b[2]; z++ {
					k := [3]int{x, y, z}
					g.m[k] = append(g.m[k], i)
				}
			}
		}
	}
	return g
}

func (g *triGrid) at(v v3) [3]int {
	return [3]int{int(math.Floor(v.X / g.h)), int(math.Floor(v.Y / g.h)), int(math.Floor(v.Z / g.h))}
}

// within tells if a triangle comes closer than d to p.
func (g *triGrid) within(p v3, d float64) bool {
	a, b := g.at(sub3(p, p3(d, d, d))), g.at(add3(p, p3(d, d, d)))
	for x := a[0]; x <= b[0]; x++ {
		for y := a[1]; y <= b[1]; y++ {
			for z := a[2]; z <= b[2]; z++ {
				for _, i := range g.m[[3]int{x, y, z}] {
					t := g.tris[i]
					if triDist3(p, t[0], t[1], t[2]) <= d {
						return true
					}
				}
			}
		}
	}
	return false
}
