package main

import (
	"fmt"
	"math"
	"math/rand"

	"gonum.org/v1/gonum/spatial/r3"
)

// Closed triangle meshes that face outwards.

type tri3 = r3.Triangle

// indexed is a mesh over shared vertices.
type indexed struct {
	v []v3
	f [][3]int
}

func (m indexed) tris() []tri3 {
	t := make([]tri3, len(m.f))
	for i, f := range m.f {
		t[i] = tri3{m.v[f[0]], m.v[f[1]], m.v[f[2]]}
	}
	return t
}

func arrays(t []tri3) [][3]v3 {
	a := make([][3]v3, len(t))
	for i := range t {
		a[i] = t[i]
	}
	return a
}

func (m indexed) mapv(f func(v3) v3) indexed {
	v := make([]v3, len(m.v))
	for i := range v {
		v[i] = f(m.v[i])
	}
	return indexed{v, m.f}
}

func (m indexed) flip() indexed {
	f := make([][3]int, len(m.f))
	for i, t := range m.f {
		f[i] = [3]int{t[0], t[2], t[1]}
	}
	return indexed{m.v, f}
}

func (m indexed) plus(o indexed) indexed {
	n := len(m.v)
	v := append(append([]v3(nil), m.v...), o.v...)
	f := append([][3]int(nil), m.f...)
	for _, t := range o.f {
		f = append(f, [3]int{t[0] + n, t[1] + n, t[2] + n})
	}
	return indexed{v, f}
}

// volume6 is six times the signed volume.
func (m indexed) volume6() float64 {
	s := 0.0
	for _, f := range m.f {
		s += dot3(m.v[f[0]], cross3(m.v[f[1]], m.v[f[2]]))
	}
	return s
}

func (m indexed) outward() indexed {
	if m.volume6() < 0 {
		return m.flip()
	}
	return m
}

func (m indexed) subdivide() indexed {
	v := append([]v3(nil), m.v...)
	mid := map[[2]int]int{}
	get := func(a, b int) int {
		if a > b {
			a, b = b, a
		}
		k := [2]int{a, b}
		if i, ok := mid[k]; ok {
			return i
		}
		mid[k] = len(v)
		v = append(v, mul3(0.5, add3(v[a], v[b])))
		return mid[k]
	}
	var f [][3]int
	for _, t := range m.f {
		a, b, c := get(t[0], t[1]), get(t[1], t[2]), get(t[2], t[0])
		f = append(f, [3]int{t[0], a, c}, [3]int{a, t[1], b}, [3]int{c, b, t[2]}, [3]int{a, b, c})
	}
	return indexed{v, f}
}

func meshTetra() indexed {
	return indexed{[]v3{p3(1, 1, 1), p3(-1, -1, 1), p3(-1, 1, -1), p3(1, -1, -1)},
		[][3]int{{0, 1, 3}, {0, 2, 1}, {0, 3, 2}, {1, 2, 3}}}.outward()
}

func meshOcta() indexed {
	return indexed{[]v3{p3(1, 0, 0), p3(-1, 0, 0), p3(0, 1, 0), p3(0, -1, 0), p3(0, 0, 1), p3(0, 0, -1)},
		[][3]int{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}}
}

func meshIco() indexed {
	g := (1 + math.Sqrt(5)) / 2
	return indexed{[]v3{p3(-1, g, 0), p3(1, g, 0), p3(-1, -g, 0), p3(1, -g, 0), p3(0, -1, g), p3(0, 1, g), p3(0, -1, -g), p3(0, 1, -g), p3(g, 0, -1), p3(g, 0, 1), p3(-g, 0, -1), p3(-g, 0, 1)},
		[][3]int{{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}}}
}

// meshGrid is a box divided in cells, its surface over an integer grid.
// filled tells which cells are part of the solid.
func meshCells(nx, ny, nz int, filled func(i, j, k int) bool) indexed {
	in := func(i, j, k int) bool {
		return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && filled(i, j, k)
	}
	idx := map[[3]int]int{}
	var m indexed
	vert := func(i, j, k int) int {
		p := [3]int{i, j, k}
		if n, ok := idx[p]; ok {
			return n
		}
		idx[p] = len(m.v)
		m.v = append(m.v, p3(float64(i), float64(j), float64(k)))
		return idx[p]
	}
	quad := func(a, b, c, d int) {
		m.f = append(m.f, [3]int{a, b, c}, [3]int{a, c, d})
	}
	for i := 0; i < nx; i++ {
		for j := 0; j < ny; j++ {
			for k := 0; k < nz; k++ {
				if !in(i, j, k) {
					continue
				}
				if !in(i+1, j, k) {
					quad(vert(i+1, j, k), vert(i+1, j+1, k), vert(i+1, j+1, k+1), vert(i+1, j, k+1))
				}
				if !in(i-1, j, k) {
					quad(vert(i, j, k), vert(i, j, k+1), vert(i, j+1, k+1), vert(i, j+1, k))
				}
				if !in(i, j+1, k) {
					quad(vert(i, j+1, k), vert(i, j+1, k+1), vert(i+1, j+1, k+1), vert(i+1, j+1, k))
				}
				if !in(i, j-1, k) {
					quad(vert(i, j, k), vert(i+1, j, k), vert(i+1, j, k+1), vert(i, j, k+1))
				}
				if !in(i, j, k+1) {
					quad(vert(i, j, k+1), vert(i+1, j, k+1), vert(i+1, j+1, k+1), vert(i, j+1, k+1))
				}
				if !in(i, j, k-1) {
					quad(vert(i, j, k), vert(i, j+1, k), vert(i+1, j+1, k), vert(i+1, j, k))
				}
			}
		}
	}
	return m
}

// manifold reports whether every directed edge has its opposite exactly once and
// the triangles about each vertex form one fan.
func (m indexed) manifold() bool {
	dir := map[[2]int]int{}
	for i, f := range m.f {
		for j := range f {
			e := [2]int{f[j], f[(j+1)%3]}
			if _, ok := dir[e]; ok {
				return false
			}
			dir[e] = i
		}
	}
	around := make([]int, len(m.v))
	start := make([]int, len(m.v))
	for i, f := range m.f {
		for j := range f {
			if _, ok := dir[[2]int{f[(j+1)%3], f[j]}]; !ok {
				return false
			}
			around[f[j]]++
			start[f[j]] = i
		}
	}
	for v := range m.v {
		if around[v] == 0 {
			continue
		}
		n, t := 0, start[v]
		for {
			n++
			f := m.f[t]
			// the edge that ends in v
			var prev int
			for j := range f {
				if f[j] == v {
					prev = f[(j+2)%3]
				}
			}
			// next triangle: the one with the edge from v to prev
			t = dir[[2]int{v, prev}]
			if t == start[v] || n > around[v] {
				break
			}
		}
		if n != around[v] {
			return false
		}
	}
	return true
}

func meshTorus(n, m int, R, r float64) indexed {
	var t indexed
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			a, b := 2*math.Pi*float64(i)/float64(n), 2*math.Pi*float64(j)/float64(m)
			t.v = append(t.v, p3((R+r*math.Cos(b))*math.Cos(a), (R+r*math.Cos(b))*math.Sin(a), r*math.Sin(b)))
		}
	}
	id := func(i, j int) int { return (i%n)*m + j%m }
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			t.f = append(t.f, [3]int{id(i, j), id(i+1, j), id(i+1, j+1)}, [3]int{id(i, j), id(i+1, j+1), id(i, j+1)})
		}
	}
	return t.outward()
}

// meshSolid returns a random closed mesh of at most about max triangles.
func meshSolid(r *rand.Rand, max int) (indexed, string) {
	for {
		var m indexed
		var d string
		switch r.Intn(8) {
		case 0:
			m, d = meshTetra(), "tetra"
		case 1:
			m, d = meshOcta(), "octa"
			for i := 0; i < r.Intn(3); i++ {
				m, d = m.subdivide(), d+"+"
			}
		case 2, 3:
			m, d = meshIco(), "star"
			for i := 0; i < r.Intn(3); i++ {
				m, d = m.subdivide(), d+"+"
			}
			amp := 0.1 + 0.4*r.Float64()
			m = m.mapv(func(v v3) v3 { return mul3(1+amp*(r.Float64()-0.5)*2, unit3(v)) })
		case 4:
			n, k := 5+r.Intn(12), 4+r.Intn(8)
			R := 1.0 + r.Float64()
			m, d = meshTorus(n, k, R, R*(0.2+0.4*r.Float64())), fmt.Sprintf("torus(%d,%d)", n, k)
		case 5, 6:
			nx, ny, nz := 1+r.Intn(4), 1+r.Intn(3), 1+r.Intn(3)
			p := 0.6 + 0.4*r.Float64()
			fill := map[[3]int]bool{}
			for i := 0; i < nx; i++ {
				for j := 0; j < ny; j++ {
					for k := 0; k < nz; k++ {
						fill[[3]int{i, j, k}] = r.Float64() < p
					}
				}
			}
			m, d = meshCells(nx, ny, nz, func(i, j, k int) bool { return fill[[3]int{i, j, k}] }), fmt.Sprintf("cells(%d,%d,%d)", nx, ny, nz)
		case 7:
			a, b := meshIco().mapv(unit3), meshOcta()
			if r.Intn(2) == 0 {
				// a cavity
				m, d = a.plus(b.mapv(func(v v3) v3 { return mul3(0.5, v) }).flip()), "cavity"
			} else {
				m, d = a.plus(b.mapv(func(v v3) v3 { return add3(v, p3(2.5, 0.25, 0.5)) })), "two"
			}
		}
		if len(m.f) == 0 || len(m.f) > max || !m.manifold() {
			continue
		}
		return m, d
	}
}

// graded returns a closed mesh of well shaped triangles of very different sizes.
func graded(r *rand.Rand) (indexed, string) {
	q := 0.3 + 0.4*r.Float64()
	least := math.Pow(10, -1-3*r.Float64())
	if r.Intn(3) == 0 { // separate solids
		m := meshIco()
		if r.Intn(2) == 0 {
			m = meshOcta()
		}
		k := meshIco().mapv(func(v v3) v3 { return mul3(least, v) })
		c := mul3(1.5, dir3(r))
		m = m.mapv(unit3).plus(k.mapv(func(v v3) v3 { return add3(c, v) }))
		return m, fmt.Sprintf("solids of sizes 1 and %g", least)
	}
	n := 5 + r.Intn(5)
	var m indexed
	ring := func(rad, z, turn float64) {
		for j := 0; j < n; j++ {
			t := 2 * math.Pi * (float64(j) + turn) / float64(n)
			m.v = append(m.v, p3(rad*math.Cos(t), rad*math.Sin(t), z))
		}
	}
	// a spire: rings ever smaller and closer
	m.v = append(m.v, p3(0, 0, -0.7))
	rad, z, turn := 1.0, 0.0, 0.0
	ring(rad, z, turn)
	rings := 1
	for rad > least {
		z += rad * (0.5 + 0.5*r.Float64())
		rad *= q
		turn += 0.5
		ring(rad, z, turn)
		rings++
	}
	m.v = append(m.v, p3(0, 0, z+rad))
	top := len(m.v) - 1
	id := func(i, j int) int { return 1 + i*n + (j%n+n)%n }
	for j := 0; j < n; j++ {
		m.f = append(m.f, [3]int{0, id(0, j+1), id(0, j)}, [3]int{top, id(rings-1, j), id(rings-1, j+1)})
		for i := 0; i+1 < rings; i++ {
			// ring i+1 is half a step ahead
			m.f = append(m.f, [3]int{id(i, j), id(i, j+1), id(i+1, j)}, [3]int{id(i, j+1), id(i+1, j+1), id(i+1, j)})
		}
	}
	return m.outward(), fmt.Sprintf("spire of %d rings of %d, down to %g", rings, n, rad)
}

// touching returns a closed mesh of solids that share edges or vertices.
func touching(r *rand.Rand) (indexed, string) {
	for {
		var m indexed
		var d string
		switch r.Intn(3) {
		case 0: // cells that meet at edges and corners
			nx, ny, nz := 2+r.Intn(3), 1+r.Intn(3), 1+r.Intn(3)
			p := 0.3 + 0.4*r.Float64()
			fill := map[[3]int]bool{}
			for i := 0; i < nx; i++ {
				for j := 0; j < ny; j++ {
					for k := 0; k < nz; k++ {
						fill[[3]int{i, j, k}] = r.Float64() < p
					}
				}
			}
			m, d = meshCells(nx, ny, nz, func(i, j, k int) bool { return fill[[3]int{i, j, k}] }), fmt.Sprintf("touching cells(%d,%d,%d)", nx, ny, nz)
			if m.manifold() {
				continue
			}
		case 1: // wedges about an edge
			n := 2 + r.Intn(2)
			at := r.Float64() * 2 * math.Pi
			room := 2 * math.Pi * (0.3 + 0.7*r.Float64())
			m.v = []v3{p3(0, 0, -1), p3(0, 0, 1)}
			for i := 0; i < n; i++ {
				a := at + room*(float64(i)+0.1*r.Float64())/float64(n)
				w := room / float64(n) * (0.3 + 0.5*r.Float64())
				if w > 2.6 {
					w = 2.6
				}
				k := len(m.v)
				m.v = append(m.v, p3(math.Cos(a), math.Sin(a), 0.3*r.Float64()), p3(math.Cos(a+w), math.Sin(a+w), 0.3*r.Float64()))
				m.f = append(m.f, [3]int{0, k + 1, k}, [3]int{1, k, k + 1}, [3]int{0, k, 1}, [3]int{0, 1, k + 1})
			}
			if m.volume6() < 0 {
				m = m.flip()
			}
			d = fmt.Sprintf("%d wedges", n)
		case 2: // cones that meet in a point
			n := 2 + r.Intn(3)
			m.v = []v3{{}}
			var axes []v3
			for len(axes) < n {
				a := dir3(r)
				ok := true
				for _, b := range axes {
					ok = ok && dot3(a, b) < 0.5
				}
				if ok {
					axes = append(axes, a)
				}
			}
			for _, a := range axes {
				e := p3(1, 0, 0)
				if math.Abs(a.X) > 0.7 {
					e = p3(0, 1, 0)
				}
				u := unit3(cross3(a, e))
				v := cross3(a, u)
				w := 0.2 + 0.25*r.Float64()
				k := len(m.v)
				for j := 0; j < 3; j++ {
					t := 2 * math.Pi * float64(j) / 3
					m.v = append(m.v, add3(a, add3(mul3(w*math.Cos(t), u), mul3(w*math.Sin(t), v))))
				}
				c := indexed{m.v, [][3]int{{0, k + 1, k}, {0, k + 2, k + 1}, {0, k, k + 2}, {k, k + 1, k + 2}}}
				m.f = append(m.f, c.outward().f...)
			}
			d = fmt.Sprintf("%d cones", n)
		}
		if len(m.f) == 0 || len(m.f) > 300 {
			continue
		}
		return m, d
	}
}

// place moves a mesh to a random position, attitude and scale.
func place(r *rand.Rand, m indexed) (indexed, string) {
	k := 1.0
	switch r.Intn(3) {
	case 0:
		k = math.Pow(10, 6*r.Float64()-3)
	}
	st := p3(1, 1, 1)
	if r.Intn(2) == 0 {
		st = p3(0.5+r.Float64(), 0.5+r.Float64(), 0.5+r.Float64())
	}
	var off v3
	switch r.Intn(3) {
	case 0:
		off = mul3(k*math.Pow(10, 2*r.Float64()), dir3(r))
	case 1:
		off = mul3(k, p3(float64(r.Intn(9)-4)/2, float64(r.Intn(9)-4)/2, float64(r.Intn(9)-4)/2))
	}
	rot := func(v v3) v3 { return v }
	if r.Intn(2) == 0 {
		ax, a := dir3(r), angle(r)
		rot = rodrigues(ax, a).at
	}
	return m.mapv(func(v v3) v3 {
		v = p3(v.X*st.X, v.Y*st.Y, v.Z*st.Z)
		return add3(mul3(k, rot(v)), off)
	}), fmt.Sprintf("scale %g at %v", k, off)
}

func (m indexed) bounds() box3 {
	b := box3{Min: m.v[0], Max: m.v[0]}
	for _, v := range m.v {
		b.Min = p3(math.Min(b.Min.X, v.X), math.Min(b.Min.Y, v.Y), math.Min(b.Min.Z, v.Z))
		b.Max = p3(math.Max(b.Max.X, v.X), math.Max(b.Max.Y, v.Y), math.Max(b.Max.Z, v.Z))
	}
	return b
}

// needles returns the mesh with some of its faces, which do not touch, split at a point close
// to one of their sides, and the least of the distances relative to the faces.
func needles(r *rand.Rand, m indexed) (indexed, float64) {
	m = indexed{append([]v3(nil), m.v...), append([][3]int(nil), m.f...)}
	thin := 1.0
	used := map[int]bool{}
	for k, n := 0, len(m.f); k < 1+n/4; k++ {
		i := r.Intn(n)
		f := m.f[i]
		s := r.Intn(3)
		a, b, c := f[s], f[(s+1)%3], f[(s+2)%3]
		if used[a] || used[b] || used[c] {
			continue
		}
		used[a], used[b], used[c] = true, true, true
		h := math.Pow(10, -3-5.5*r.Float64())
		on := add3(m.v[a], mul3(0.1+0.8*r.Float64(), sub3(m.v[b], m.v[a])))
		p := add3(on, mul3(h, sub3(m.v[c], on)))
		thin = math.Min(thin, h)
		q := len(m.v)
		m.v = append(m.v, p)
		m.f[i] = [3]int{b, c, q}
		m.f = append(m.f, [3]int{c, a, q}, [3]int{a, b, q})
	}
	return m, thin
}
