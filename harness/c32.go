package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C32", level: "monitored",
		rule: "a part written and read back, distinct by part, number of cells and format, or an example program run",
		assumptions: []string{
			"cells measure more than a thousand units in the last place of single precision coordinates",
			"the fields never overestimate distance and are positive on and outside of their bounds",
			"example programs are run if they build",
		}, run: runC32})
}

// readSTL returns the triangles of a binary STL file.
func readSTL(b []byte) ([]tri3, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("file of %d bytes for %d triangles", len(b), n)
	}
	tris := make([]tri3, n)
	for i := range tris {
		rec := b[84+50*i:]
		for k := 0; k < 3; k++ {
			tris[i][k] = p3(float64(f32at(rec[12+12*k:])), float64(f32at(rec[16+12*k:])), float64(f32at(rec[20+12*k:])))
		}
	}
	return tris, nil
}

// closedExactly checks that every edge is matched by its opposite, with vertices told apart by their coordinates.
func closedExactly(tris []tri3) error {
	f, vs := weld(tris, 0)
	if open := openEdges(f); len(open) > 0 {
		for e, n := range open {
			return fmt.Errorf("%d edges are open, such as %s to %s (%d)", len(open), fmtv(vs[e[0]]), fmtv(vs[e[1]]), n)
		}
	}
	return nil
}

// canonical starts triangles at their least vertex, which keeps their orientation.
func canonical(tris []tri3) []tri3 {
	less := func(a, b v3) bool {
		if a.X != b.X {
			return a.X < b.X
		}
		if a.Y != b.Y {
			return a.Y < b.Y
		}
		return a.Z < b.Z
	}
	out := make([]tri3, len(tris))
	for i, t := range tris {
		k := 0
		for j := 1; j < 3; j++ {
			if less(t[j], t[k]) {
				k = j
			}
		}
		for j := range t {
			v := t[(k+j)%3]
			out[i][j] = p3(v.X+0, v.Y+0, v.Z+0)
		}
	}
	return out
}

func boxOf(tris []tri3) box3 {
	b := box3{Min: p3(math.Inf(1), math.Inf(1), math.Inf(1)), Max: p3(math.Inf(-1), math.Inf(-1), math.Inf(-1))}
	for _, t := range tris {
		for _, v := range t {
			b.Min = p3(math.Min(b.Min.X, v.X), math.Min(b.Min.Y, v.Y), math.Min(b.Min.Z, v.Z))
			b.Max = p3(math.Max(b.Max.X, v.X), math.Max(b.Max.Y, v.Y), math.Max(b.Max.Z, v.Z))
		}
	}
	return b
}

// exported writes a part in both formats and returns the triangles read back.
func exported(r *R, s sdf.SDF3, cells int, desc string) (stl, mf []tri3) {
	dir := scratch(r)
	defer os.RemoveAll(dir)
	a, b := filepath.Join(dir, "part.stl"), filepath.Join(dir, "part.3mf")
	if err := render.CreateSTL(a, render.NewOctreeRenderer(s, cells)); err != nil {
		r.Fatalf("error", "%s: CreateSTL: %v", desc, err)
	}
	if err := render.Create3MF(b, render.NewOctreeRenderer(s, cells)); err != nil {
		r.Fatalf("error", "%s: Create3MF: %v", desc, err)
	}
	x, err := os.ReadFile(a)
	if err == nil {
		stl, err = readSTL(x)
	}
	if err != nil {
		r.Fatalf("stl", "%s: %v", desc, err)
	}
	x, err = os.ReadFile(b)
	if err == nil {
		mf, _, err = parse3MF(x)
	}
	if err != nil {
		r.Fatalf("3mf", "%s: %v", desc, err)
	}
	return stl, mf
}

// exportable is a part of a common kind, with a field that never overestimates.
func exportable(r *R) (sdf.SDF3, string) {
	if r.Intn(4) == 0 {
		return namedSolid(r)
	}
	for i := 0; i < 20; i++ {
		g := newGen(r)
		g.lip = true
		var n node3
		if r.Intn(4) == 0 {
			n = g.object3()
		} else {
			n = g.node3(r.Intn(4))
		}
		b := n.s.Bounds()
		d := sub3(b.Max, b.Min)
		if n.lip && math.Min(d.X, math.Min(d.Y, d.Z)) > 0 && finite3(b.Min) && finite3(b.Max) {
			return n.s, n.d
		}
	}
	return namedSolid(r)
}

func runC32(c *C) {
	c.Cases("part", c.scale(700, 12000), func(i int, r *R) {
		s, d := exportable(r)
		cells := meshCellCount(r, 36)
		if i%50 == 0 {
			cells = 60 + r.Intn(60)
		}
		d = fmt.Sprintf("%.300s, %d cells", d, cells)
		l := latticeOf(s.Bounds(), cells)
		if l.cell < 1e-4*mag3(s.Bounds()) {
			r.Count("left out", 1)
			return
		}
		stl, mf := exported(r, s, cells, d)
		r.DistinctBits(1, float64(cells), l.cell, float64(len(stl)))
		r.Count("triangles", len(stl))
		r.Ev(len(stl) + len(mf))
		if err := closedExactly(mf); err != nil {
			r.Failf("open-3mf", "%s: 3MF: %v", d, err)
		}
		// edges that collapse for lack of precision do so in all triangles
		if err := closedExactly(stl); err != nil {
			r.Failf("open-stl", "%s: STL: %v", d, err)
		}
		if err := sameSet(canonical(stl), canonical(rounded(mf))); err != nil {
			r.Failf("formats", "%s: STL against 3MF: %v", d, err)
		}
		for k, tris := range [][]tri3{stl, mf} {
			v := meshVolume(tris)
			if len(tris) > 0 && !(v > 0) {
				r.Failf("inside-out", "%s: volume %v (%d)", d, v, k)
			}
		}
		windings(r, s, stl, l.cell, 8, d)
		windings(r, s, mf, l.cell, 8, d)
		b := s.Bounds()
		tol := 1e-6 * mag3(b)
		for _, t := range stl {
			for _, v := range t {
				if boxOut3(b, v) > 0.006*maxSide(b)+tol {
					r.Fatalf("outside", "%s: vertex %s outside of the bounds %v", d, fmtv(v), b)
				}
			}
		}
		r.Sample("%.150s: %d triangles", d, len(stl))
	})
	// what one program writes another imports
	c.Cases("import", c.scale(140, 2000), func(i int, r *R) {
		s, d := exportable(r)
		cells := 6 + r.Intn(14)
		d = fmt.Sprintf("%.300s, %d cells", d, cells)
		l := latticeOf(s.Bounds(), cells)
		stl, mf := exported(r, s, cells, d)
		if len(stl) == 0 || l.cell < 1e-4*mag3(s.Bounds()) {
			r.Count("left out", 1)
			return
		}
		// slivers leave the sign of imports open near them, and nothing else
		lo := math.Inf(1)
		for _, t := range mf {
			a := math.Max(len3(sub3(t[0], t[1])), math.Max(len3(sub3(t[1], t[2])), len3(sub3(t[2], t[0]))))
			lo = math.Min(lo, area3(t)/(a*a))
		}
		if lo < 1e-3 {
			r.Count("meshes with slivers", 1)
			return
		}
		tol := 1e-5 * l.cell
		if 2*tol < 1e-7*mag3(s.Bounds()) {
			r.Count("left out", 1)
			return
		}
		for k, tris := range [][]tri3{stl, mf} {
			one, err := sdfexp.ImportModel(tris, tol)
			if err != nil {
				r.Fatalf("import", "%s: ImportModel of file %d: %v", d, k, err)
			}
			two, err := sdfexp.ImportModelV2(tris, tol)
			if err != nil {
				r.Fatalf("import", "%s: ImportModelV2 of file %d: %v", d, k, err)
			}
			for q := 0; q < 20; q++ {
				p := inBox3(r.Rand, s.Bounds(), 0.2)
				v := s.Evaluate(p)
				if math.Abs(v) <= 2*l.cell {
					continue
				}
				a, b := one.Evaluate(p), two.Evaluate(p)
				r.Ev(1)
				if a < 0 != (v < 0) || b < 0 != (v < 0) || !near(a, b, 1e-6*mag3(s.Bounds())) {
					r.Failf("round-trip", "%s: imports of file %d have %v and %v at %s, the part %v", d, k, a, b, fmtv(p), v)
				}
				r.Count("points compared with the imports", 1)
			}
		}
		r.DistinctBits(2, float64(cells), l.cell, float64(len(stl)))
	})
	c.Cases("examples", len(examples), func(i int, r *R) { runExample(r, examples[i]) })
}

func maxSide(b box3) float64 {
	d := sub3(b.Max, b.Min)
	return math.Max(d.X, math.Max(d.Y, d.Z))
}

type example struct {
	dir, file string
	box       box3    // extent by hand
	slack     float64 // for blends and cells
	open      bool    // has tapered threads
}

var examples = []example{
	{"atx-bench-supply", "atx_bench.stl", box3{Min: p3(-75, -42.5, -2), Max: p3(75, 42.5, 6)}, 0.8, false},
	{"adz-sensor-cover", "cover.stl", box3{Min: p3(-12.638, -12.638, -5.266), Max: p3(12.638, 12.638, 1.755)}, 0.2, false},
	{"npt-flange", "npt_flange.stl", box3{Min: p3(-30, -30, -12.5), Max: p3(30, 30, 5.39)}, 0.4, true},
	{"pcb-spacer", "pcb_base.stl", box3{Min: p3(0, 0, -1.2), Max: p3(100, 100, 8.2)}, 1, true},
	{"pcb-support", "support.stl", box3{Min: p3(0, 0, -1.25), Max: p3(100, 100, 10.25)}, 0.8, false},
	{"metric-spacers", "spacers.stl", box3{Min: p3(math.NaN(), math.NaN(), -15), Max: p3(math.NaN(), math.NaN(), 15)}, 0.8, false},
}

// runExample builds and runs a program of the repository's examples.
func runExample(r *R, e example) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	dir := scratch(r)
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "prog")
	cmd := exec.Command("go", "build", "-o", bin, "./examples/"+e.dir)
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		r.Count("examples that do not build", 1)
		r.Sample("%s: %.200s", e.dir, out)
		return
	}
	cmd = exec.Command(bin)
	cmd.Dir = dir
	out, err := asNobody(cmd, dir)
	if err != nil {
		r.Fatalf("example", "example %s: %v: %.300s", e.dir, err, out)
	}
	b, err := os.ReadFile(filepath.Join(dir, e.file))
	if err != nil {
		r.Fatalf("example", "example %s: %v", e.dir, err)
	}
	tris, err := readSTL(b)
	if err != nil || len(tris) == 0 {
		r.Fatalf("example", "example %s: %d triangles, %v", e.dir, len(tris), err)
	}
	r.Ev(len(tris))
	r.Count("examples run", 1)
	r.Count("triangles of examples", len(tris))
	r.Distinct("example", e.dir)
	got := boxOf(tris)
	for k := 0; k < 3; k++ {
		for _, x := range [][2]float64{{comp3(got.Min, k), comp3(e.box.Min, k)}, {comp3(got.Max, k), comp3(e.box.Max, k)}} {
			if math.Abs(x[0]-x[1]) > e.slack {
				r.Failf("example-size", "example %s reaches from %v to %v, want %v", e.dir, got.Min, got.Max, e.box)
			}
		}
	}
	if v := meshVolume(tris); !(v > 0) {
		r.Failf("inside-out", "example %s: volume %v", e.dir, v)
	}
	if err := closedExactly(tris); err != nil {
		key := "open-stl"
		if e.open {
			key = "open-" + e.dir
		}
		r.Failf(key, "example %s: %v", e.dir, err)
	}
}

// asNobody runs a program in a directory, as a user that owns nothing else if possible.
func asNobody(cmd *exec.Cmd, dir string) ([]byte, error) {
	if os.Geteuid() == 0 && os.Chmod(filepath.Dir(dir), 0o711) == nil && os.Lchown(dir, nobody, nobody) == nil {
		other := exec.Command(cmd.Path)
		other.Dir = dir
		other.Env = append(os.Environ(), "HOME="+dir, "TMPDIR="+dir)
		other.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		out, err := other.CombinedOutput()
		if other.ProcessState != nil { // it was started
			return out, err
		}
	}
	return cmd.CombinedOutput()
}
