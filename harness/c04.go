package main

import (
	"fmt"
	"math"

	"github.com/soypat/sdf/form2"
)

func init() {
	register(&prop{id: "C04", level: "exploration", run: runC04,
		rule: "a described polygon whose vertices were compared with the reference, distinct by its description",
		assumptions: []string{
			"radii are generated to fit or not to fit by a clear margin, so that rounding does not decide",
			"the first vertex is absolute, but that of a closed polygon may be relative to an absolute last vertex",
		}})
}

// bv is a described vertex.
type bv struct {
	p      v2  // absolute position
	kind   int // 0 plain, 1 smooth, 2 chamfer, 3 arc
	radius float64
	facets int
	rel    bool
	polar  bool
}

func (b bv) String() string {
	return fmt.Sprintf("{%.6g k%d r%g f%d rel=%v polar=%v}", b.p, b.kind, b.radius, b.facets, b.rel, b.polar)
}

// refVertices resolves a description.
func refVertices(v []bv, closed bool) []v2 {
	// 1: arcs between neighbours
	type av struct {
		p      v2
		smooth float64
		facets int
	}
	var list []av
	n := len(v)
	for i, b := range v {
		if b.kind == 3 && (i > 0 || closed) {
			a := v[(i+n-1)%n].p
			half := mul2(0.5, sub2(b.p, a))
			mid := add2(a, half)
			rad := math.Abs(b.radius)
			h := math.Sqrt(math.Max(0, rad*rad-dot2(half, half)))
			right := unit2(p2(half.Y, -half.X)) // to the right of a->b
			side := math.Copysign(1, b.radius)
			c := add2(mid, mul2(side*h, right))
			ang := 2 * math.Atan2(len2(half), h)
			// centre on the right: from a to b clockwise about it
			for k := 1; k < b.facets; k++ {
				list = append(list, av{p: add2(c, rot2(sub2(a, c), -side*ang*float64(k)/float64(b.facets)))})
			}
		}
		o := av{p: b.p}
		switch b.kind {
		case 1:
			o.smooth, o.facets = b.radius, b.facets
		case 2:
			o.smooth, o.facets = b.radius/math.Sqrt2, 1
		}
		list = append(list, o)
	}
	// 2: corners
	var out []v2
	m := len(list)
	for i, o := range list {
		if o.facets == 0 || !closed && (i == 0 || i == m-1) {
			out = append(out, o.p)
			continue
		}
		u := unit2(sub2(list[(i+m-1)%m].p, o.p))
		w := unit2(sub2(list[(i+1)%m].p, o.p))
		half := math.Atan2(math.Abs(cross2(u, w)), dot2(u, w)) / 2
		t := o.smooth / math.Tan(half)
		if t > len2(sub2(list[(i+m-1)%m].p, o.p)) || t > len2(sub2(list[(i+1)%m].p, o.p)) || math.Pi-2*half < 1e-7 {
			out = append(out, o.p)
			continue
		}
		c := add2(o.p, mul2(o.smooth/math.Sin(half), unit2(add2(u, w))))
		from := sub2(add2(o.p, mul2(t, u)), c)
		to := sub2(add2(o.p, mul2(t, w)), c)
		turn := math.Atan2(cross2(from, to), dot2(from, to))
		for k := 0; k <= o.facets; k++ {
			out = append(out, add2(c, rot2(from, turn*float64(k)/float64(o.facets))))
		}
	}
	return out
}

func runC04(c *C) {
	c.Cases("builder", c.scale(40000, 800000), func(i int, r *R) {
		closed := r.Intn(2) == 0
		n := 3 + r.Intn(6)
		if r.Intn(40) == 0 {
			n = 3 + r.Intn(80)
		}
		// corners of a star shaped polygon with clear edges
		u := math.Pow(10, float64(r.Intn(5)-2))
		if r.Intn(2) == 0 {
			u = 1
		}
		ctr := mul2(u, p2(span(r.Rand, -3, 3), span(r.Rand, -3, 3)))
		v := make([]bv, n)
		dirn := 1.0
		if r.Intn(2) == 0 {
			dirn = -1
		}
		grid := r.Intn(4) == 0
		for k := range v {
			t := dirn * 2 * math.Pi * (float64(k) + 0.5*r.Float64()) / float64(n)
			rad := u * (1 + 2*r.Float64())
			v[k].p = add2(ctr, p2(rad*math.Cos(t), rad*math.Sin(t)))
		}
		if grid { // right angles
			a, b := u*span(r.Rand, 1, 4), u*span(r.Rand, 1, 4)
			v = []bv{{p: ctr}, {p: add2(ctr, p2(a, 0))}, {p: add2(ctr, p2(a, b))}, {p: add2(ctr, p2(0, b))}}
			if r.Intn(2) == 0 { // concave
				v = append(v, bv{p: add2(ctr, p2(0, b/2))}, bv{p: add2(ctr, p2(-a, b/2))}, bv{p: add2(ctr, p2(-a, 0))})
			}
			n = len(v)
		}
		tol := 1e-7
		edge := func(k int) float64 { return len2(sub2(v[(k+1)%n].p, v[k].p)) }
		facets := func(n int) int {
			if r.Intn(30) == 0 {
				n = 200
			}
			return 1 + r.Intn(n)
		}
		for k := range v {
			switch r.Intn(6) {
			case 0, 1:
				v[k].kind, v[k].facets = 1, facets(8)
			case 2:
				if grid {
					v[k].kind = 2
				}
			case 3:
				pe := edge((k + n - 1) % n)
				v[k].kind, v[k].facets = 3, facets(9)
				rad := pe / 2 * (1.02 + 3*r.Float64())
				if r.Intn(4) == 0 {
					rad = pe / 2 // half circle, its centre is off by the root of the rounding
					tol = 1e-5
				}
				if r.Intn(2) == 0 {
					rad = -rad
				}
				v[k].radius = rad
			}
		}
		// The edges next to arcs are their facets, radii are chosen for those.
		arcs := make([]bv, n)
		copy(arcs, v)
		for k := range arcs {
			if arcs[k].kind != 3 {
				arcs[k].kind = 0
			}
		}
		faceted, at := refVertices(arcs, closed), 0
		for k := range v {
			for at < len(faceted) && faceted[at] != v[k].p {
				at++
			}
			if v[k].kind != 1 && v[k].kind != 2 || at == len(faceted) {
				continue
			}
			next, prev := v[(k+1)%n].kind == 3, at > 0 && faceted[at-1] != v[(k+n-1)%n].p
			m := len(faceted)
			pv, nv := sub2(faceted[(at+m-1)%m], v[k].p), sub2(faceted[(at+1)%m], v[k].p)
			pe, ne := len2(pv), len2(nv)
			half := math.Atan2(math.Abs(cross2(pv, nv)), dot2(pv, nv)) / 2
			fit := 0.45 * math.Min(pe, ne) * math.Tan(half) // radius whose tangents take 0.45 of the edge
			if half < 0.02 || math.Pi-2*half < 0.02 || v[k].kind == 2 && (next || prev) {
				v[k].kind = 0
				continue
			}
			if v[k].kind == 2 {
				v[k].radius = 0.45*math.Min(pe, ne)*r.Float64() + 1e-3*u
				continue
			}
			if next || prev {
				r.Count("beside-arcs", 1)
			}
			v[k].radius = fit * (0.05 + 0.95*r.Float64())
			switch r.Intn(8) {
			case 0: // does not fit
				v[k].radius = 1.1 * math.Max(pe, ne) * math.Tan(half) * (1 + 3*r.Float64())
			case 1: // does not fit one of the edges
				if lo, hi := math.Min(pe, ne), math.Max(pe, ne); lo < 0.7*hi {
					v[k].radius = (1.1*lo + (0.95*hi-1.1*lo)*r.Float64()) * math.Tan(half)
					r.Count("fits-one-edge", 1)
				}
			}
		}
		if !closed && v[0].kind != 0 && r.Intn(2) == 0 {
			v[0].kind = 0
		}
		b := form2.NewPolygon()
		if b.Closed() {
			r.Failf("closed", "a new polygon is closed")
		}
		desc, did := "", false
		if r.Intn(6) == 0 { // a start that is given up
			m := 1 + r.Intn(6)
			for k := 0; k < m; k++ {
				b.Add(span(r.Rand, -9, 9), span(r.Rand, -9, 9))
			}
			if closed && r.Intn(3) == 0 {
				b.Close()
				did = true
			}
			for k := 0; k < m; k++ {
				b.Drop()
			}
			desc += "dropped all;"
		}
		if closed && r.Intn(6) == 0 {
			b.Close() // may come first
			did = true
		}
		ring := r.Intn(3) == 0 // the first may be given relative to the last
		for k := range v {
			if r.Intn(15) == 0 { // a mistake is dropped
				b.Add(1e3, 1e3)
				b.Drop()
			}
			pos := v[k].p
			if (k > 0 || closed && ring) && r.Intn(4) == 0 {
				v[k].rel = true
				pos = sub2(pos, v[(k+n-1)%n].p)
			}
			if k == n-1 && v[0].rel { // they would hang on each other
				v[k].rel = false
				pos = v[k].p
			}
			if r.Intn(5) == 0 {
				v[k].polar = true
				pos = p2(len2(pos), math.Atan2(pos.Y, pos.X))
				switch r.Intn(4) {
				case 0: // the other way, turned back
					pos = p2(-pos.X, pos.Y+math.Pi)
				case 1: // more than a turn
					pos.Y += 2 * math.Pi * float64(r.Intn(7)-3)
				}
			}
			vx := b.AddV2(pos)
			if r.Intn(2) == 0 {
				b.Drop()
				vx = b.Add(pos.X, pos.Y)
			}
			plain := !v[k].rel && !v[k].polar && v[k].kind == 0
			if plain && r.Intn(2) == 0 {
				b.Drop()
				b.AddV2Set([]v2{pos})
				desc += v[k].String()
				continue
			}
			if v[k].polar {
				vx = vx.Polar()
			}
			if v[k].rel {
				vx = vx.Rel()
			}
			if r.Intn(8) == 0 { // nothing to smooth with
				vx.Smooth(0, 5)
				vx.Smooth(u, 0)
				vx.Chamfer(0)
				vx.Arc(0, 5)
				vx.Arc(9*u, 0)
			}
			switch v[k].kind {
			case 1:
				vx.Smooth(v[k].radius, v[k].facets)
			case 2:
				vx.Chamfer(v[k].radius)
			case 3:
				vx.Arc(v[k].radius, v[k].facets)
			}
			desc += v[k].String()
			if k > 0 && v[0].kind != 3 && !v[0].rel && !b.Closed() && r.Intn(20) == 0 {
				b.Vertices() // a look at what there is so far changes nothing
				r.Count("looks", 1)
				desc += "Vertices()"
			}
		}
		if closed {
			if !did || r.Intn(2) == 0 {
				b.Close()
			}
			if !b.Closed() {
				r.Failf("closed", "Close does not close")
			}
		}
		reverse := r.Intn(3) == 0
		if reverse {
			b.Reverse()
		}
		want := refVertices(v, closed)
		if reverse {
			for x, y := 0, len(want)-1; x < y; x, y = x+1, y-1 {
				want[x], want[y] = want[y], want[x]
			}
		}
		got := b.Vertices()
		desc += fmt.Sprintf(" closed=%v reverse=%v", closed, reverse)
		compare := func(key string, got []v2) {
			if len(got) != len(want) {
				r.Fatalf(key, "%d vertices instead of %d: %.6g instead of %.6g for %s", len(got), len(want), got, want, desc)
			}
			for k := range got {
				r.Ev(1)
				if !(len2(sub2(got[k], want[k])) <= tol*(u+len2(ctr))) {
					r.Failf(key, "vertex %d is %.12g instead of %.12g for %s", k, got[k], want[k], desc)
				}
			}
		}
		compare("vertices", got)
		for k := range got { // a copy belongs to the caller
			got[k] = p2(7e7, 7e7)
		}
		compare("again", b.Vertices())
		r.Distinct(desc)
		r.Count("vertices", len(want))
		if i < 4 {
			r.Sample("%s", desc)
		}
	})
}
