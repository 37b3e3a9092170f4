package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
)

func init() {
	register(&prop{id: "C20", level: "monitored",
		rule: "a rendering, distinct by field and number of cells, and a cell configuration seen",
		assumptions: []string{
			"vertices closer than a millionth of a cell are one vertex",
			"the fields never overestimate distance and are positive on and outside of their bounds",
		}, run: runC20})
	register(&prop{id: "C21", level: "monitored",
		rule:        "a vertex, surface point or volume compared with the solid, distinct by rendering and point",
		assumptions: []string{"the fields never overestimate distance and are positive on and outside of their bounds"}, run: runC21})
}

// trilinear is a field over random values at the nodes of the grid of a rendering.
type trilinear struct {
	l  lattice
	b  box3
	v  map[[3]int]float64
	hi float64 // value of all other nodes
}

func (t *trilinear) Bounds() box3 { return t.b }
func (t *trilinear) node(i [3]int) float64 {
	if v, ok := t.v[i]; ok {
		return v
	}
	return t.hi
}
func (t *trilinear) Evaluate(p v3) float64 {
	q := mul3(1/t.l.cell, sub3(p, t.l.origin))
	var i [3]int
	var w [3]float64
	for k := range i {
		x := comp3(q, k)
		f := math.Floor(x)
		if c := math.Round(x); math.Abs(x-c) < 1e-9 { // nodes have their values exactly
			f, x = c, c
		}
		i[k], w[k] = int(f), x-f
	}
	s := 0.0
	for c := 0; c < 8; c++ {
		wt := 1.0
		var j [3]int
		for k := range j {
			if c>>uint(k)&1 == 1 {
				wt *= w[k]
				j[k] = i[k] + 1
			} else {
				wt *= 1 - w[k]
				j[k] = i[k]
			}
		}
		if wt != 0 {
			s += wt * t.node(j)
		}
	}
	return s
}

// randomBox returns the bounds of a model.
func randomBox(r *R) box3 {
	return scaledBox(r, []float64{1, 1, 1, 1, 0.01, 100, 1e-5, 1e5, 1e-6}[r.Intn(9)])
}

func scaledBox(r *R, scale float64) box3 {
	size := p3(span(r.Rand, 0.3, 4), span(r.Rand, 0.3, 4), span(r.Rand, 0.3, 4))
	if r.Intn(3) == 0 {
		size = p3(size.X, size.X, size.X)
	}
	size = mul3(scale, size)
	c := p3(0, 0, 0)
	if r.Intn(2) == 0 {
		c = mul3(scale*[]float64{1, 30}[r.Intn(2)], p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)))
	}
	return box3{Min: sub3(c, mul3(0.5, size)), Max: add3(c, mul3(0.5, size))}
}

func newTrilinear(r *R, cells int) *trilinear {
	t := &trilinear{b: scaledBox(r, []float64{1, 1, 1, 0.01, 100}[r.Intn(5)]), v: map[[3]int]float64{}}
	t.l = latticeOf(t.b, cells)
	amp := t.l.cell / (2 * math.Sqrt(3)) // so that the slope is at most one
	t.hi = amp
	mode := r.Intn(5)
	frac := []float64{0.5, 0.5, 0.2, 0.8}[r.Intn(4)]
	for x := 1; x < t.l.n[0]; x++ {
		for y := 1; y < t.l.n[1]; y++ {
			for z := 1; z < t.l.n[2]; z++ {
				v := amp * r.Float64()
				switch mode {
				case 1:
					v = amp
				case 2: // surfaces that pass through nodes or next to them
					v = amp * []float64{0, 0, 1e-14, 1e-13, 1e-12, 1e-11, 1e-9, 1e-6, 1, r.Float64()}[r.Intn(10)]
				case 3:
					v = amp * math.Pow(r.Float64(), 4)
				}
				if r.Float64() < frac {
					v = -v
				}
				t.v[[3]int{x, y, z}] = v
			}
		}
	}
	return t
}

// waves is a field of random waves within a ball or box.
func waves(r *R) (sdf.SDF3, string) {
	b := randomBox(r)
	h := mul3(0.5, sub3(b.Max, b.Min))
	c := mul3(0.5, add3(b.Min, b.Max))
	n := 2 + r.Intn(4)
	k := make([]v3, n)
	ph := make([]float64, n)
	slope := 0.0
	for i := range k {
		k[i] = mul3(span(r.Rand, 1, 9)/math.Max(h.X, math.Max(h.Y, h.Z)), dir3(r.Rand))
		ph[i] = 7 * r.Float64()
		slope += len3(k[i])
	}
	level := 0.5 * r.NormFloat64()
	f := func(p v3) float64 {
		q := sub3(p, c)
		s := level
		for i := range k {
			s += math.Sin(dot3(k[i], q) + ph[i])
		}
		inside := exactBox3(q, mul3(1-1e-9, h))
		return math.Max(s/slope, inside)
	}
	return fn3{f, b}, fmt.Sprintf("%d waves %v %v level %v in %v", n, k, ph, level, b)
}

// solids with true distances
func namedSolid(r *R) (s sdf.SDF3, d string) {
	b := randomBox(r)
	u := len3(sub3(b.Max, b.Min)) / 3
	c := mul3(0.5, add3(b.Min, b.Max))
	switch r.Intn(5) {
	case 0:
		s, d = must3.Sphere(u), fmt.Sprintf("Sphere(%g)", u)
	case 1:
		sz := mul3(u, p3(span(r.Rand, 0.1, 2), span(r.Rand, 0.1, 2), span(r.Rand, 0.1, 2)))
		s, d = must3.Box(sz, 0), fmt.Sprintf("Box(%v)", sz)
	case 2:
		h, rad := u*span(r.Rand, 0.2, 3), u*span(r.Rand, 0.2, 2)
		s, d = must3.Cylinder(h, rad, 0), fmt.Sprintf("Cylinder(%g,%g)", h, rad)
	case 3:
		R, q := u*span(r.Rand, 1, 2), u*span(r.Rand, 0.2, 0.9)
		s = sdf.Revolve3D(sdf.Transform2D(must2.Circle(q), sdf.Translate2D(p2(R, 0))), 2*math.Pi)
		d = fmt.Sprintf("Torus(%g,%g)", R, q)
	case 4:
		rad := u * span(r.Rand, 0.5, 1.5)
		s = sdf.Shell3D(must3.Sphere(rad), 0.6*rad)
		d = fmt.Sprintf("Shell(%g)", rad)
	}
	if c != (v3{}) {
		s, d = sdf.Transform3D(s, sdf.Translate3D(c)), d+fmt.Sprintf(" at %v", c)
	}
	return
}

func meshCellCount(r *R, max int) int {
	switch r.Intn(4) {
	case 0:
		return 2 + r.Intn(6)
	case 1:
		return 1 << uint(1+r.Intn(int(math.Log2(float64(max)))))
	}
	return 2 + r.Intn(max-1)
}

// manyCells returns a large number of cells, often one next to a power of two.
func manyCells(r *R, max int) int {
	n := 20 + int(math.Pow(r.Float64(), 2)*float64(max-20))
	if r.Intn(2) == 0 {
		n = 1<<uint(5+r.Intn(int(math.Log2(float64(max)))-4)) + r.Intn(7) - 3
	}
	return n
}

// windings checks which points a mesh encloses.
func windings(r *R, s sdf.SDF3, tris []tri3, cell float64, n int, desc string) {
	b := s.Bounds()
	arr := arrays(tris)
	for i := 0; i < n; i++ {
		p := inBox3(r.Rand, b, 0.2)
		v := s.Evaluate(p)
		if math.Abs(v) <= cell {
			continue
		}
		w := meshWinding(p, arr)
		want := 0.0
		if v < 0 {
			want = 1
			r.Count("points inside", 1)
		} else {
			r.Count("points outside", 1)
		}
		r.Ev(1)
		if math.Abs(w-want) > 1e-3 {
			r.Failf("winding", "%s: winding number %g at %s where the field is %v and cells measure %v", desc, w, fmtv(p), v, cell)
		}
	}
}

func runC20(c *C) {
	c.Cases("grid", c.scale(5000, 60000), func(i int, r *R) {
		cells := 2 + r.Intn(9)
		if i%10 == 0 {
			cells = 2 + r.Intn(18)
		}
		t := newTrilinear(r, cells)
		desc := fmt.Sprintf("random values on the grid of %d cells in %v", cells, t.b)
		tris := renderAll(r, t, cells)
		watchClosed(r, tris, t.l.cell, desc)
		r.DistinctBits(1, t.b.Min.X, t.b.Max.X, float64(cells), r.Float64())
		if t.l.onEdges(tris, 1e-6) != nil {
			r.Count("another grid", 1) // C21 looks at this
			return
		}
		// nodes are on the right side
		arr := arrays(tris)
		nodes := make([][3]int, 0, len(t.v))
		for x := 1; x < t.l.n[0]; x++ {
			for y := 1; y < t.l.n[1]; y++ {
				for z := 1; z < t.l.n[2]; z++ {
					nodes = append(nodes, [3]int{x, y, z})
				}
			}
		}
		for k := 0; k < 25 && len(nodes) > 0; k++ {
			n := nodes[r.Intn(len(nodes))]
			v := t.node(n)
			if math.Abs(v) < 1e-4*t.hi { // the surface is too close
				continue
			}
			p := add3(t.l.origin, mul3(t.l.cell, p3(float64(n[0]), float64(n[1]), float64(n[2]))))
			w := meshWinding(p, arr)
			want := 0.0
			if v < 0 {
				want = 1
			}
			r.Ev(1)
			if math.Abs(w-want) > 1e-3 {
				r.Failf("node", "%s: winding number %g at node %v with value %v", desc, w, n, v)
			}
			r.Count("nodes", 1)
		}
		// configurations met
		for x := 0; x < t.l.n[0]; x++ {
			for y := 0; y < t.l.n[1]; y++ {
				for z := 0; z < t.l.n[2]; z++ {
					conf := 0
					for k := 0; k < 8; k++ {
						if t.node([3]int{x + k&1, y + k>>1&1, z + k>>2&1}) < 0 {
							conf |= 1 << uint(k)
						}
					}
					r.Distinct("configuration", conf)
					seenConfig(conf)
				}
			}
		}
	})
	c.Cases("waves", c.scale(2000, 24000), func(i int, r *R) {
		s, d := waves(r)
		cells := meshCellCount(r, 28)
		tris := renderAll(r, s, cells)
		l := latticeOf(s.Bounds(), cells)
		desc := fmt.Sprintf("%s, %d cells", d, cells)
		watchClosed(r, tris, l.cell, desc)
		windings(r, s, tris, l.cell, 12, desc)
		r.DistinctBits(2, float64(cells), r.Float64())
		if len(tris) == 0 {
			r.Count("empty", 1)
		}
	})
	c.Cases("solids", c.scale(900, 10000), func(i int, r *R) {
		s, d := namedSolid(r)
		cells := meshCellCount(r, 40)
		tris := renderAll(r, s, cells)
		l := latticeOf(s.Bounds(), cells)
		desc := fmt.Sprintf("%s, %d cells", d, cells)
		watchClosed(r, tris, l.cell, desc)
		windings(r, s, tris, l.cell, 16, desc)
		if v := meshVolume(tris); len(tris) > 0 && !(v > 0) {
			r.Failf("inside-out", "%s: volume %v", desc, v)
		}
		r.DistinctBits(3, float64(cells), r.Float64())
	})
	// fine meshes
	c.Cases("fine", c.scale(5, 30), func(i int, r *R) {
		s, d := namedSolid(r)
		if b := s.Bounds(); r.Intn(2) == 0 {
			u := diag3(b) / 40
			s = sdf.Union3D(s, sdf.Transform3D(must3.Sphere(2*u), sdf.Translate3D(b.Max)))
			d += " and a ball"
		}
		cells := 150 + r.Intn(150)
		tris := renderAll(r, s, cells)
		l := latticeOf(s.Bounds(), cells)
		desc := fmt.Sprintf("%s, %d cells", d, cells)
		watchClosed(r, tris, l.cell, desc)
		windings(r, s, tris, l.cell, 4, desc)
		r.Max("most triangles", len(tris))
		r.DistinctBits(6, float64(cells), r.Float64())
	})
	c.Cases("programs", c.scale(1500, 20000), func(i int, r *R) {
		g := newGen(r)
		g.lip = true
		n := g.node3(i % 4)
		if !n.lip {
			r.Count("left out", 1)
			return
		}
		b := n.s.Bounds()
		if d := sub3(b.Max, b.Min); math.Min(d.X, math.Min(d.Y, d.Z)) <= 0 {
			r.Count("left out", 1)
			return
		}
		cells := meshCellCount(r, 32)
		tris := renderAll(r, n.s, cells)
		l := latticeOf(b, cells)
		desc := fmt.Sprintf("%s, %d cells", n.d, cells)
		watchClosed(r, tris, l.cell, desc)
		windings(r, n.s, tris, l.cell, 12, desc)
		r.DistinctBits(4, float64(cells), r.Float64())
		r.Sample("%.150s: %d triangles", desc, len(tris))
	})
	// little balls far apart, many of which only just reach into one of the cubes that are subdivided
	c.Cases("scattered", c.scale(500, 8000), func(i int, r *R) {
		b := randomBox(r)
		cells := manyCells(r, 300)
		l := latticeOf(b, cells)
		type ball struct {
			c   v3
			rad float64
		}
		var balls []ball
		n := 1 + r.Intn(12)
		for k := 0; k < 400 && len(balls) < n; k++ {
			at, size := v3{}, 1<<uint(r.Intn(1+int(math.Log2(float64(l.top)))))
			for j := 0; j < 3; j++ {
				at = with3(at, j, comp3(l.origin, j)+l.cell*float64(size*r.Intn(l.n[j]/size+1)))
			}
			rad := l.cell * span(r.Rand, 1.01, 4)
			dir := dir3(r.Rand)
			if r.Intn(2) == 0 {
				dir = unit3(p3(float64(2*r.Intn(2)-1), float64(2*r.Intn(2)-1), float64(2*r.Intn(2)-1)))
			}
			at = add3(at, mul3(rad-l.cell*span(r.Rand, 0.02, 1.9), dir))
			if exactBox3(sub3(at, mul3(0.5, add3(b.Min, b.Max))), mul3(0.5, sub3(b.Max, b.Min))) < -rad {
				balls = append(balls, ball{at, rad})
			}
		}
		if len(balls) == 0 {
			r.Count("left out", 1)
			return
		}
		s := fn3{func(p v3) float64 {
			d := math.Inf(1)
			for _, q := range balls {
				d = math.Min(d, len3(sub3(p, q.c))-q.rad)
			}
			return d
		}, b}
		tris := renderAll(r, s, cells)
		desc := fmt.Sprintf("balls %v in %v, %d cells", balls, b, cells)
		watchClosed(r, tris, l.cell, desc)
		arr := arrays(tris)
		for _, q := range balls {
			r.Ev(1)
			if w := meshWinding(q.c, arr); math.Abs(w-1) > 1e-3 {
				r.Failf("winding", "%s: winding number %g at %s, the centre of a ball", desc, w, fmtv(q.c))
			}
		}
		windings(r, s, tris, l.cell, 8, desc)
		r.DistinctBits(5, float64(cells), r.Float64())
		r.Max("cells along a side", cells)
	})
	// long thin solids, which take many cells
	c.Cases("slender", c.scale(160, 4000), func(i int, r *R) {
		long := span(r.Rand, 0.5, 4) * []float64{1, 1, 1e-2, 1e-4, 1e4}[r.Intn(5)]
		cells := manyCells(r, 1500)
		w := long / float64(cells) * span(r.Rand, 3, 8)
		var s sdf.SDF3
		var d string
		switch r.Intn(3) {
		case 0:
			s, d = must3.Box(p3(w, w*span(r.Rand, 0.7, 1.5), long), 0), "Box"
		case 1:
			s, d = must3.Cylinder(long, w/2, 0), "Cylinder"
		case 2:
			s, d = must3.Cylinder(long, w/2, w/2), "Capsule"
		}
		switch r.Intn(3) {
		case 0:
			s, d = sdf.Transform3D(s, sdf.RotateX(math.Pi/2)), d+" along y"
		case 1:
			s, d = sdf.Transform3D(s, sdf.RotateY(math.Pi/2)), d+" along x"
		}
		if r.Intn(2) == 0 {
			c := mul3(long*span(r.Rand, 0, 5), dir3(r.Rand))
			s, d = sdf.Transform3D(s, sdf.Translate3D(c)), d+fmt.Sprintf(" at %v", c)
		}
		tris := renderAll(r, s, cells)
		b := s.Bounds()
		l := latticeOf(b, cells)
		desc := fmt.Sprintf("%s %g by %g, %d cells", d, w, long, cells)
		watchClosed(r, tris, l.cell, desc)
		windings(r, s, tris, l.cell, 10, desc)
		// on its axis
		arr := arrays(tris)
		for k := 0; k < 8; k++ {
			p := mul3(0.5, add3(b.Min, b.Max))
			for j := 0; j < 3; j++ {
				if h := comp3(b.Max, j) - comp3(b.Min, j); h > long/2 {
					p = with3(p, j, comp3(p, j)+h*[]float64{r.Float64() - 0.5, 0.5 - 2.2/float64(cells), -0.5 + 2.2/float64(cells)}[r.Intn(3)])
				}
			}
			if s.Evaluate(p) > -l.cell {
				continue
			}
			r.Ev(1)
			if v := meshWinding(p, arr); math.Abs(v-1) > 1e-3 {
				r.Failf("winding", "%s: winding number %g at %s on the axis", desc, v, fmtv(p))
			}
		}
		r.DistinctBits(6, float64(cells), r.Float64())
		r.Max("cells along a side", cells)
	})
	c.Run("configurations", func(r *R) {
		seen := 0
		for k := range configs {
			if configs[k] {
				seen++
			}
		}
		r.Count("cell configurations seen of 256", seen)
	})
}

// a case of the renderer for each combination of signs
var (
	configMu sync.Mutex
	configs  [256]bool
)

func seenConfig(k int) { configMu.Lock(); configs[k] = true; configMu.Unlock() }

// planar is a convex solid bounded by planes, its field the largest plane distance.
func planar(r *R, b box3) (sdf.SDF3, func(v3) (best, second float64)) {
	c := mul3(0.5, add3(b.Min, b.Max))
	h := mul3(0.5, sub3(b.Max, b.Min))
	u := math.Min(h.X, math.Min(h.Y, h.Z))
	var nrm []v3
	var off []float64
	for i := 0; i < 3; i++ { // within the box
		for _, s := range []float64{-1, 1} {
			nrm = append(nrm, with3(v3{}, i, s))
			off = append(off, comp3(h, i)*(1-1e-9))
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		nrm = append(nrm, dir3(r.Rand))
		off = append(off, u*(0.3+0.7*r.Float64()))
	}
	two := func(p v3) (best, second float64) {
		q := sub3(p, c)
		best, second = math.Inf(-1), math.Inf(-1)
		for i := range nrm {
			d := dot3(nrm[i], q) - off[i]
			if d > best {
				best, second = d, best
			} else if d > second {
				second = d
			}
		}
		return
	}
	return fn3{func(p v3) float64 { a, _ := two(p); return a }, b}, two
}

func runC21(c *C) {
	// vertices on the grid, within a cell of the surface, and all of the surface near the mesh
	c.Cases("placed", c.scale(3000, 30000), func(i int, r *R) {
		var s sdf.SDF3
		var d string
		switch i % 3 {
		case 0:
			s, d = waves(r)
		case 1:
			s, d = namedSolid(r)
		case 2:
			g := newGen(r)
			g.lip = true
			n := g.node3(i % 4)
			if !n.lip {
				return
			}
			s, d = n.s, n.d
		}
		b := s.Bounds()
		if x := sub3(b.Max, b.Min); math.Min(x.X, math.Min(x.Y, x.Z)) <= 0 {
			return
		}
		cells := meshCellCount(r, 36)
		desc := fmt.Sprintf("%s, %d cells", d, cells)
		l := latticeOf(b, cells)
		tris := renderAll(r, s, cells)
		if err := l.onEdges(tris, 1e-6+1e-10*mag3(b)/l.cell); err != nil {
			r.Failf("grid", "%s: %v", desc, err)
		}
		for _, t := range tris {
			for _, v := range t {
				if f := math.Abs(s.Evaluate(v)); f > l.cell*(1+1e-9) {
					r.Failf("far", "%s: vertex %s is %v from the surface, cells measure %v", desc, fmtv(v), f, l.cell)
				}
			}
		}
		r.Ev(6 * len(tris))
		r.Count("vertices", 3*len(tris))
		grid := newTriGrid(tris, 2*l.cell)
		// pairs of points that are clearly on different sides and close to each other
		found := 0
		for k := 0; k < 4000 && found < 60; k++ {
			a := inBox3(r.Rand, b, 0.1)
			if k%2 == 0 && found > 0 {
				a = add3(a, mul3(l.cell, dir3(r.Rand)))
			}
			fa := s.Evaluate(a)
			if math.Abs(fa) < 0.9*l.cell || math.Abs(fa) > 2.5*l.cell {
				continue
			}
			e := add3(a, mul3(l.cell*(1.8+2.4*r.Float64()), dir3(r.Rand)))
			fe := s.Evaluate(e)
			if math.Abs(fe) < 0.9*l.cell || fa < 0 == (fe < 0) {
				continue
			}
			found++
			m := mul3(0.5, add3(a, e))
			far := len3(sub3(a, e))/2 + 0.88*l.cell
			r.Ev(1)
			r.DistinctBits(1, a.X, e.X)
			if !grid.within(m, far) {
				r.Failf("missing", "%s: no triangle within %v of %s, between %s (%v) and %s (%v)", desc, far, fmtv(m), fmtv(a), fa, fmtv(e), fe)
			}
		}
		r.Count("stretches of surface", found)
	})
	// flat faces are met exactly
	c.Cases("planes", c.scale(2000, 20000), func(i int, r *R) {
		b := randomBox(r)
		s, two := planar(r, b)
		cells := meshCellCount(r, 30)
		l := latticeOf(b, cells)
		tris := renderAll(r, s, cells)
		tol := 1e-9*l.cell + 1e-11*mag3(b) + 1.1e-12
		for _, t := range tris {
			for _, v := range t {
				best, second := two(v)
				r.Ev(1)
				// the other planes leave the ends of the edge alone
				if second < -2.01*l.cell && math.Abs(best) > tol {
					r.Failf("plane", "planes in %v, %d cells: vertex %s is %v off its face", b, cells, fmtv(v), best)
				}
				if second < -2.01*l.cell {
					r.Count("vertices on flat faces", 1)
				}
				if math.Abs(best) > l.cell {
					r.Failf("far", "planes in %v, %d cells: vertex %s is %v off", b, cells, fmtv(v), best)
				}
			}
		}
		r.DistinctBits(2, b.Min.X, float64(cells))
	})
	// curved ones to the second order
	c.Cases("spheres", c.scale(1500, 16000), func(i int, r *R) {
		rad := span(r.Rand, 0.5, 4) * []float64{1, 1, 0.01, 100}[r.Intn(4)]
		at := mul3(rad, p3(span(r.Rand, -3, 3), span(r.Rand, -3, 3), span(r.Rand, -3, 3)))
		s := sdf.Transform3D(must3.Sphere(rad), sdf.Translate3D(at))
		cells := 6 + r.Intn(40)
		l := latticeOf(s.Bounds(), cells)
		tris := renderAll(r, s, cells)
		// the field is |p|, its second derivative across an edge no more than one over the radius
		tol := l.cell*l.cell/8/(rad-l.cell)*1.01 + 1e-11*(rad+len3(at))
		for _, t := range tris {
			for _, v := range t {
				d := len3(sub3(v, at)) - rad
				r.Ev(1)
				if math.Abs(d) > tol {
					r.Failf("sphere", "sphere %g at %v, %d cells: vertex %s is %v off, more than %v", rad, at, cells, fmtv(v), d, tol)
				}
			}
			// outwards
			m := mul3(1./3, add3(t[0], add3(t[1], t[2])))
			if dot3(cross3(sub3(t[1], t[0]), sub3(t[2], t[0])), sub3(m, at)) < 0 && area3(t) > 1e-6*l.cell*l.cell {
				r.Failf("normal", "sphere %g at %v, %d cells: triangle %s faces inwards", rad, at, cells, fmtv(t))
			}
		}
		v, want := meshVolume(tris), 4./3*math.Pi*rad*rad*rad
		area := 4 * math.Pi * rad * rad
		if math.Abs(v-want) > area*l.cell*l.cell/(rad-l.cell)*0.6 {
			r.Failf("volume", "sphere %g at %v, %d cells: volume %v, want %v", rad, at, cells, v, want)
		}
		r.DistinctBits(3, rad, at.X, float64(cells))
	})
	// volumes converge
	c.Cases("volumes", c.scale(500, 6000), func(i int, r *R) {
		var s sdf.SDF3
		var vol, area, least float64 // least thickness
		var d string
		switch i % 5 {
		case 0:
			x, y, z := span(r.Rand, 0.5, 3), span(r.Rand, 0.5, 3), span(r.Rand, 0.5, 3)
			s, d = must3.Box(p3(x, y, z), 0), fmt.Sprintf("Box(%g,%g,%g)", x, y, z)
			vol, area, least = x*y*z, 2*(x*y+y*z+z*x), math.Min(x, math.Min(y, z))
		case 1:
			h, q := span(r.Rand, 0.5, 3), span(r.Rand, 0.5, 3)
			s, d = must3.Cylinder(h, q, 0), fmt.Sprintf("Cylinder(%g,%g)", h, q)
			vol, area, least = math.Pi*q*q*h, 2*math.Pi*q*(q+h), math.Min(h, q)
		case 2:
			R, q := span(r.Rand, 1, 3), span(r.Rand, 0.3, 0.9)
			s = sdf.Revolve3D(sdf.Transform2D(must2.Circle(q), sdf.Translate2D(p2(R, 0))), 2*math.Pi)
			d = fmt.Sprintf("Torus(%g,%g)", R, q)
			vol, area, least = 2*math.Pi*math.Pi*R*q*q, 4*math.Pi*math.Pi*R*q, q
		case 3:
			h, a, b := span(r.Rand, 0.5, 3), span(r.Rand, 0.3, 2), span(r.Rand, 0.3, 2)
			s, d = must3.Cone(h, a, b, 0), fmt.Sprintf("Cone(%g,%g,%g)", h, a, b)
			vol = math.Pi * h / 3 * (a*a + a*b + b*b)
			area = math.Pi*(a*a+b*b) + math.Pi*(a+b)*math.Hypot(h, a-b)
			least = math.Min(h, math.Min(a, b))
		case 4:
			x, y, z := span(r.Rand, 1, 3), span(r.Rand, 1, 3), span(r.Rand, 1, 3)
			q := 0.2 + 0.25*r.Float64()
			s = sdf.Difference3D(must3.Box(p3(x, y, z), 0), must3.Sphere(q))
			d = fmt.Sprintf("Box(%g,%g,%g) with a hollow of %g", x, y, z, q)
			vol, area, least = x*y*z-4./3*math.Pi*q*q*q, 2*(x*y+y*z+z*x)+4*math.Pi*q*q, q
		}
		m, e := newGen(r).rigid3(false)
		s, d = m.apply(s), e+d
		last := math.Inf(1)
		for _, cells := range []int{10, 20, 40} {
			tris := renderAll(r, s, cells)
			l := latticeOf(s.Bounds(), cells)
			if least < 2*l.cell {
				r.Count("too thin", 1)
				continue
			}
			err := math.Abs(meshVolume(tris) - vol)
			r.Ev(1)
			r.DistinctBits(4, vol, area, float64(cells))
			// a fraction of a cell all over, and much less where the surface is smooth
			if err > 0.25*area*l.cell {
				r.Failf("volume", "%s, %d cells: volume off by %v of %v", d, cells, err, vol)
			}
			if cells == 40 && err > 0.03*area*l.cell*math.Max(1, 40*l.cell*l.cell/area*10) && err > 0.75*last {
				r.Failf("converge", "%s: volume off by %v at 40 cells, %v at 20, of %v", d, err, last, vol)
			}
			last = err
		}
	})
}
