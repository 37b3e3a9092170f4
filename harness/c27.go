package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
)

func init() {
	as := []string{
		"meshes are closed, oriented outwards, manifold also at vertices, without degenerate triangles",
		"winding numbers from solid angles tell inside from outside",
	}
	register(&prop{id: "C27", level: "monitored",
		rule:        "a point compared with the nearest of all triangles, distinct by mesh and point",
		assumptions: as, run: func(c *C) { runImport(c, importOne) }})
	register(&prop{id: "C28", level: "monitored",
		rule:        "a point compared with the nearest of all triangles, distinct by mesh and point",
		assumptions: as, run: func(c *C) { runImport(c, importTwo) }})
}

type importer func(r *R, m []tri3, tol float64) (sdf.SDF3, error)

func importOne(r *R, m []tri3, tol float64) (sdf.SDF3, error) {
	s, err := sdfexp.ImportModel(m, tol)
	return s, err
}

func importTwo(r *R, m []tri3, tol float64) (sdf.SDF3, error) {
	s, err := sdfexp.ImportModelV2(m, tol)
	if err != nil {
		return nil, err
	}
	return s, nil
}

// sides returns the shortest and longest sides.
func sides(m []tri3) (lo, hi float64) {
	lo = math.Inf(1)
	for _, t := range m {
		for k := range t {
			d := len3(sub3(t[(k+1)%3], t[k]))
			lo, hi = math.Min(lo, d), math.Max(hi, d)
		}
	}
	return
}

// refDist is the distance to the closest triangle.
func refDist(p v3, m []tri3) float64 {
	d := math.Inf(1)
	for _, t := range m {
		if v := triDist3(p, t[0], t[1], t[2]); v < d {
			d = v
		}
	}
	return d
}

// meshQueries are points in all kinds of positions about a mesh.
func meshQuery(r *R, m indexed, b box3) (v3, string) {
	f := m.f[r.Intn(len(m.f))]
	a, bb, c := m.v[f[0]], m.v[f[1]], m.v[f[2]]
	size := diag3(b)
	step := size * []float64{1e-4, 1e-3, 0.01, 0.1, 0.5}[r.Intn(5)] * (0.2 + r.Float64())
	if d := len3(sub3(bb, a)); d < 0.01*size && r.Intn(2) == 0 {
		step = d * (0.02 + r.Float64())
	}
	if r.Intn(12) == 0 { // in touch
		step = size * math.Pow(10, -4-4*r.Float64())
	}
	switch r.Intn(9) {
	case 0: // near a vertex
		return add3(a, mul3(step, dir3(r.Rand))), "vertex"
	case 1: // near an edge
		return add3(add3(a, mul3(r.Float64(), sub3(bb, a))), mul3(step, dir3(r.Rand))), "edge"
	case 2: // over the middle of an edge, along the normal of one face
		n := unit3(cross3(sub3(bb, a), sub3(c, a)))
		k := step
		if r.Intn(2) == 0 {
			k = -k
		}
		return add3(mul3(0.5, add3(a, bb)), mul3(k, n)), "edge middle"
	case 3: // over a face
		u, v := r.Float64(), r.Float64()
		if u+v > 1 {
			u, v = 1-u, 1-v
		}
		n := unit3(cross3(sub3(bb, a), sub3(c, a)))
		k := step
		if r.Intn(2) == 0 {
			k = -k
		}
		return add3(add3(a, add3(mul3(u, sub3(bb, a)), mul3(v, sub3(c, a)))), mul3(k, n)), "face"
	case 4: // over a vertex, along the normal of one face
		n := unit3(cross3(sub3(bb, a), sub3(c, a)))
		return add3(a, mul3(step*float64(1-2*r.Intn(2)), n)), "vertex normal"
	case 5: // away from a vertex, in line with the middle
		mid := mul3(0.5, add3(b.Min, b.Max))
		return add3(a, mul3(step/math.Max(len3(sub3(a, mid)), 1e-3*size), sub3(a, mid))), "radial"
	case 6:
		return inBox3(r.Rand, b, 3), "far"
	}
	return inBox3(r.Rand, b, 0.3), "box"
}

func runImport(c *C, imp importer) {
	v2mesh := c.prop.id == "C28"
	checkWith := func(r *R, m indexed, tris []tri3, tol float64, desc string, noise, slack float64, n int) {
		arg := append([]tri3(nil), tris...)
		s, err := imp(r, arg, tol)
		if err != nil {
			r.Fatalf("error", "%s, tolerance %g: %v", desc, tol, err)
		}
		if sameList(arg, tris) != nil {
			r.Failf("changed", "%s: the model was changed", desc)
		}
		for i := range arg { // it is the caller's again
			arg[i] = guard
		}
		b := indexed{v: nil, f: nil}
		for _, t := range tris {
			b.v = append(b.v, t[0], t[1], t[2])
		}
		if noise == 0 && s.Bounds() != b.bounds() || !nearBox3(s.Bounds(), b.bounds(), noise) {
			r.Failf("bounds", "%s: bounds %v, want %v", desc, s.Bounds(), b.bounds())
		}
		bb := b.bounds()
		size := diag3(bb)
		eps := (1e-9+slack)*size + 1e-12*mag3(bb) + 4*noise
		arr := arrays(tris)
		if v2mesh && noise == 0 {
			watchMesh(r, s, tris, desc)
		}
		for k := 0; k < n; k++ {
			p, kind := meshQuery(r, m, bb)
			want := refDist(p, tris)
			got := s.Evaluate(p)
			r.Ev(1)
			r.DistinctBits(1, p.X, p.Y, p.Z)
			if !(math.Abs(math.Abs(got)-want) <= eps+1e-13*len3(p)) {
				r.Failf("distance", "%s, tolerance %g: distance to %s (%s) is %v, want %v", desc, tol, fmtv(p), kind, got, want)
				continue
			}
			if want < 1e-6*size+10*eps+100*noise {
				continue
			}
			w := meshWinding(p, arr)
			if math.Abs(w-math.Round(w)) > 0.01 {
				r.Count("winding unclear", 1)
				continue
			}
			if in := math.Round(w) > 0.5; in != (got < 0) {
				r.Failf("sign", "%s, tolerance %g: distance at %s (%s) is %v, the winding number is %v", desc, tol, fmtv(p), kind, got, w)
			} else if in {
				r.Count("inside, "+kind, 1)
			} else {
				r.Count("outside, "+kind, 1)
			}
		}
	}
	check := func(r *R, m indexed, tris []tri3, tol float64, desc string, noise float64, n int) {
		checkWith(r, m, tris, tol, desc, noise, 0, n)
	}
	shuffled := func(r *R, m indexed) []tri3 {
		t := m.tris()
		r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
		for i := range t {
			k := r.Intn(3)
			t[i] = tri3{t[i][k], t[i][(k+1)%3], t[i][(k+2)%3]}
		}
		return t
	}
	tolerance := func(r *R, tris []tri3) float64 {
		lo, _ := sides(tris)
		return lo * []float64{0, 0, 1e-3, 1e-2, 1e-4}[r.Intn(5)]
	}
	c.Cases("meshes", c.scale(3000, 30000), func(i int, r *R) {
		m, d := meshSolid(r.Rand, 300)
		m, e := place(r.Rand, m)
		tris := shuffled(r, m)
		r.Sample("%s %s: %d triangles", d, e, len(tris))
		check(r, m, tris, tolerance(r, tris), d+" "+e, 0, 120)
	})
	// solids that share edges and vertices, each edge has its opposites nevertheless
	c.Cases("touching", c.scale(1500, 15000), func(i int, r *R) {
		m, d := touching(r.Rand)
		m, e := place(r.Rand, m)
		tris := shuffled(r, m)
		r.Count("touching solids", 1)
		check(r, m, tris, tolerance(r, tris), d+" "+e, 0, 120)
	})
	// triangles of very different sizes
	c.Cases("graded", c.scale(1200, 12000), func(i int, r *R) {
		m, d := graded(r.Rand)
		m, e := place(r.Rand, m)
		tris := shuffled(r, m)
		lo, hi := sides(tris)
		r.Max("hundredths of the decades between sides", int(100*math.Log10(hi/lo)))
		check(r, m, tris, tolerance(r, tris), d+" "+e, 0, 120)
	})
	// vertices next to edges make triangles with angles that are nearly nothing or nearly flat
	// (ImportModel is for well shaped triangles)
	if v2mesh {
		c.Cases("needles", c.scale(1200, 12000), func(i int, r *R) {
			m, d := meshSolid(r.Rand, 120)
			m, e := place(r.Rand, m)
			m, thin := needles(r.Rand, m)
			tris := shuffled(r, m)
			r.Max("tenths of the decades of the thinnest triangle", int(-10*math.Log10(thin)))
			// the plane of a needle is known to no more than the rounding of its vertices
			slack := 4e-15 * (1 + mag3(m.bounds())/diag3(m.bounds())) / thin
			checkWith(r, m, tris, tolerance(r, tris), fmt.Sprintf("%s %s with needles of %.3g", d, e, thin), 0, slack, 120)
		})
	}
	// vertices that are the same but for rounding, much less than the tolerance
	c.Cases("rounded", c.scale(2000, 20000), func(i int, r *R) {
		m, d := meshSolid(r.Rand, 200)
		if i%2 == 0 {
			m, _ = place(r.Rand, m)
		}
		tris := shuffled(r, m)
		lo, _ := sides(tris)
		noise := lo * []float64{1e-9, 1e-7, 1e-12}[r.Intn(3)]
		tol := lo * []float64{0, 1e-3, 1. / 256, 1. / 512, 0.01}[r.Intn(5)]
		var shift v3
		if t := tol; r.Intn(2) == 0 { // the grid of multiples of the tolerance
			if t == 0 {
				t = lo / 256
			}
			shift = mul3(t/2, p3(float64(r.Intn(4)), float64(r.Intn(4)), float64(r.Intn(4))))
		}
		for i := range tris {
			for k := range tris[i] {
				tris[i][k] = add3(add3(tris[i][k], shift), p3(noise*(r.Float64()-0.5), noise*(r.Float64()-0.5), noise*(r.Float64()-0.5)))
			}
		}
		check(r, m, tris, tol, d+" rounded", noise, 120)
	})
	c.Cases("large", c.scale(60, 600), func(i int, r *R) {
		m := meshIco()
		d := "star"
		if r.Intn(2) == 0 {
			m, d = meshTorus(20+r.Intn(20), 10+r.Intn(15), 2, 0.3+r.Float64()), "torus"
		}
		for len(m.f) < 1200 {
			m = m.subdivide()
		}
		if d == "star" {
			amp := 0.15 * r.Float64()
			m = m.mapv(func(v v3) v3 { return mul3(1+amp*(r.Float64()-0.5), unit3(v)) })
		}
		if !m.manifold() {
			return
		}
		m, e := place(r.Rand, m)
		tris := shuffled(r, m)
		check(r, m, tris, tolerance(r, tris), fmt.Sprintf("%s of %d triangles %s", d, len(tris), e), 0, 250)
	})
	// large models, whose trees are deep
	c.Cases("larger", c.scale(5, 40), func(i int, r *R) {
		var m indexed
		d := "star"
		if r.Intn(2) == 0 {
			m, d = meshTorus(60+r.Intn(80), 30+r.Intn(60), 2, 0.3+r.Float64()), "torus"
		} else {
			m = meshIco()
			for len(m.f) < 15000 {
				m = m.subdivide()
			}
			m = m.mapv(func(v v3) v3 { return mul3(1+0.02*(r.Float64()-0.5), unit3(v)) })
		}
		for len(m.f) < 15000 {
			m = m.subdivide()
		}
		m, e := place(r.Rand, m)
		tris := shuffled(r, m)
		r.Max("most triangles", len(tris))
		check(r, m, tris, tolerance(r, tris), fmt.Sprintf("%s of %d triangles %s", d, len(tris), e), 0, 80)
	})
	c.Cases("refused", c.scale(200, 1000), func(i int, r *R) {
		m, d := meshSolid(r.Rand, 100)
		m, _ = place(r.Rand, m)
		tris := m.tris()
		_, hi := sides(tris)
		tol := hi * (0.501 + 5*r.Float64())
		if i%3 == 0 {
			tol = diag3(m.bounds()) * (1 + 1000*r.Float64())
		}
		var err error
		if v, bad := Panics(func() { _, err = imp(r, tris, tol) }); bad {
			r.Fatalf("panic", "%s: tolerance %g with sides up to %g: %v", d, tol, hi, v)
		}
		r.Ev(1)
		if err == nil {
			r.Failf("accepted", "%s: tolerance %g was accepted with sides up to %g", d, tol, hi)
		}
		r.Count("refused", 1)
	})
}

// watchMesh compares the mesh a BIH exposes with the model.
func watchMesh(r *R, s sdf.SDF3, tris []tri3, desc string) {
	b, ok := s.(*sdfexp.BIH)
	if !ok {
		r.Fatalf("mesh", "%s: no mesh", desc)
	}
	var got []tri3
	used := map[int]bool{}
	for i, f := range b.Indices {
		for _, k := range f {
			if k < 0 || k >= len(b.Vertices) {
				r.Fatalf("mesh", "%s: triangle %d has vertex %d of %d", desc, i, k, len(b.Vertices))
			}
			used[k] = true
		}
		got = append(got, tri3{b.Vertices[f[0]], b.Vertices[f[1]], b.Vertices[f[2]]})
	}
	if err := sameSet(turned(got), turned(tris)); err != nil {
		r.Failf("mesh", "%s: %v", desc, err)
	}
	seen := map[v3]bool{}
	for _, v := range b.Vertices {
		if seen[v] {
			r.Failf("mesh", "%s: vertex %v is not shared", desc, v)
		}
		seen[v] = true
	}
	if len(used) != len(b.Vertices) {
		r.Failf("mesh", "%s: %d of %d vertices used", desc, len(used), len(b.Vertices))
	}
	r.Count("shared vertices", len(seen))
}

// turned starts each triangle with its least vertex.
func turned(tris []tri3) []tri3 {
	out := make([]tri3, len(tris))
	for i, t := range tris {
		k := []int{0, 1, 2}
		sort.Slice(k, func(i, j int) bool {
			a, b := t[k[i]], t[k[j]]
			if a.X != b.X {
				return a.X < b.X
			}
			if a.Y != b.Y {
				return a.Y < b.Y
			}
			return a.Z < b.Z
		})
		n := k[0]
		out[i] = tri3{t[n], t[(n+1)%3], t[(n+2)%3]}
	}
	return out
}
