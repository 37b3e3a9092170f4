package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/render"
)

func init() {
	register(&prop{id: "C26", level: "monitored",
		rule: "a fault, distinct by the function, the kind of fault and the byte, write or triangle it happens at",
		assumptions: []string{
			"failures that only appear when a file is closed cannot be produced here",
			"a limit on the size of files stands for a disk that fills up",
		}, run: runC26})
	helpers["limited"] = limitedHelper
}

var errFault = errors.New("injected fault")

// faulty is a writer that fails at a byte.
type faulty struct {
	limit   int
	mode    int // 0 error with the bytes before it, 1 error with none, 2 short without error, 3 fails once only, 4 all bytes and an error
	got     []byte
	failed  bool
	calls   int
	refused int
}

func (f *faulty) Write(b []byte) (int, error) {
	f.calls++
	room := f.limit - len(f.got)
	if f.mode == 3 && f.failed {
		f.got = append(f.got, b...)
		return len(b), nil
	}
	if len(b) <= room && !f.failed {
		f.got = append(f.got, b...)
		return len(b), nil
	}
	f.failed = true
	f.refused++
	if room < 0 || room > len(b) {
		room = 0
	}
	switch f.mode {
	case 0:
		f.got = append(f.got, b[:room]...)
		return room, errFault
	case 2:
		f.got = append(f.got, b[:room]...)
		f.limit = len(f.got)
		return room, nil
	case 4:
		f.got = append(f.got, b...)
		return len(b), errFault
	}
	return 0, errFault
}

// faultyFrom reads its input itself.
type faultyFrom struct{ *faulty }

func (f faultyFrom) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 37)
	for {
		k, e := r.Read(buf)
		w, we := f.Write(buf[:k])
		n += int64(w)
		if we != nil {
			return n, we
		}
		if w < k {
			return n, io.ErrShortWrite
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// limitedCase is a file written with a limit on its size.
type limitedCase struct {
	Kind  string // stl, 3mf, write
	N     int
	Limit int
	Err   string
	Size  int64
	Bad   string // what is wrong with a file that was reported complete
}

// limitedHelper writes files in a process of its own whose files cannot grow past a limit.
func limitedHelper(args []string) int {
	dir, list := args[0], args[1]
	b, err := os.ReadFile(list)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var cases []limitedCase
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Println(err)
		return 1
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fmt.Println(err)
		return 1
	}
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	for i := range cases {
		k := &cases[i]
		r := &R{Rand: rand.New(rand.NewSource(int64(i)))}
		tris := looseTris(r, k.N)
		name := filepath.Join(dir, "f")
		os.Remove(name)
		lim := old
		lim.Cur = uint64(k.Limit)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			fmt.Fprintln(stdout, err)
			return 1
		}
		switch k.Kind {
		case "stl":
			err = render.CreateSTL(name, newScript(r, tris, io.EOF))
		case "3mf":
			err = render.Create3MF(name, newScript(r, tris, io.EOF))
		case "write":
			f, e := os.Create(name)
			if e != nil {
				fmt.Fprintln(stdout, e)
				return 1
			}
			err = render.WriteSTL(f, tris)
			f.Close()
		}
		if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); e != nil {
			fmt.Fprintln(stdout, e)
			return 1
		}
		if err != nil {
			k.Err = err.Error()
			continue
		}
		b, _ := os.ReadFile(name)
		k.Size = int64(len(b))
		if k.Kind == "3mf" {
			err = check3MF(b, tris, true)
		} else {
			err = checkSTL(b, tris)
		}
		if err != nil {
			k.Bad = err.Error()
		}
	}
	b, _ = json.Marshal(cases)
	if err := os.WriteFile(list+".out", b, 0o644); err != nil {
		fmt.Fprintln(stdout, err)
		return 1
	}
	return 0
}

// haveFull returns whether /dev/full is the device that is always full, and could not
// be removed or replaced by the code under test.
func haveFull() bool {
	if os.Geteuid() == 0 {
		return false
	}
	st, err := os.Lstat("/dev/full")
	if err != nil || st.Mode()&os.ModeCharDevice == 0 {
		return false
	}
	sys, ok := st.Sys().(*syscall.Stat_t)
	return ok && sys.Rdev == 1<<8|7
}

// replacedBy returns whether the link at path was replaced with a complete file, as
// code that writes another file first and then renames it does.
func replacedBy(path, kind string, tris []tri3) bool {
	st, err := os.Lstat(path)
	if err != nil || !st.Mode().IsRegular() {
		return false
	}
	b, err := os.ReadFile(path)
	switch {
	case err != nil:
		return false
	case kind == "CreateSTL":
		return checkSTL(b, tris) == nil
	case kind == "Create3MF":
		return check3MF(b, tris, true) == nil
	}
	return len(b) > 84
}

func runC26(c *C) {
	// every byte of files of a few triangles
	c.Cases("bytes", c.scale(24, 60), func(i int, r *R) {
		n := 1 + i%4
		if i >= 16 {
			n = 1 + r.Intn(40)
		}
		tris := looseTris(r, n)
		size := 84 + 50*n
		for limit := 0; limit <= size+1; limit++ {
			for mode := 0; mode < 5; mode++ {
				f := &faulty{limit: limit, mode: mode}
				var w io.Writer = f
				if (limit+mode+i)%4 == 0 {
					w = faultyFrom{f}
				}
				err := render.WriteSTL(w, tris)
				r.Ev(1)
				r.Distinct("write", n, limit, mode, w == io.Writer(f))
				complete := checkSTL(f.got, tris) == nil && !f.failed
				if err == nil && !complete {
					r.Failf("silent", "WriteSTL of %d triangles to a writer that fails at byte %d (mode %d) returned no error; %d of %d bytes were taken", n, limit, mode, len(f.got), size)
				}
				if err != nil && complete {
					r.Failf("alarm", "WriteSTL of %d triangles to a writer with room for %d bytes: %v", n, limit, err)
				}
				if f.failed {
					r.Count("faults of writers", 1)
				}
			}
		}
	})
	c.Cases("large", c.scale(200, 3000), func(i int, r *R) {
		n := 1 + r.Intn(3000)
		tris := looseTris(r, n)
		limit := r.Intn(84 + 50*n + 2)
		if r.Intn(4) == 0 {
			limit = 84 + 50*n - 1 - r.Intn(3)
		}
		f := &faulty{limit: limit, mode: r.Intn(5)}
		err := render.WriteSTL(f, tris)
		r.Ev(1)
		r.Distinct("write", n, limit, f.mode)
		if complete := checkSTL(f.got, tris) == nil && !f.failed; (err == nil) != complete {
			r.Failf("silent", "WriteSTL of %d triangles to a writer that fails at byte %d (mode %d): %v, %d bytes taken", n, limit, f.mode, err, len(f.got))
		}
		if f.failed {
			r.Count("faults of writers", 1)
		}
	})
	// renderers that fail
	c.Cases("renderers", c.scale(900, 12000), func(i int, r *R) {
		n := r.Intn(60)
		switch r.Intn(6) {
		case 0:
			n = 0
		case 1:
			n = 1024*(1+r.Intn(3)) + r.Intn(3) - 1
		case 2:
			n = 655*(1+r.Intn(30)) + r.Intn(3) - 1
		}
		if i%100 < 3 {
			n = 60000 + r.Intn(100000)
		}
		tris := looseTris(r, n)
		errs := []error{errFault, io.ErrUnexpectedEOF, io.ErrShortBuffer, io.ErrClosedPipe, fmt.Errorf("rendering: %w", errFault), fmt.Errorf("rendering: %w", io.EOF), io.EOF}
		end := errs[r.Intn(len(errs))]
		s := newScript(r, tris, end)
		dir := scratch(r)
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "f")
		var err error
		kind := []string{"RenderAll", "CreateSTL", "Create3MF"}[i%3]
		var complete error
		switch kind {
		case "RenderAll":
			var got []tri3
			got, err = render.RenderAll(s)
			complete = sameList(got, tris)
		case "CreateSTL":
			err = render.CreateSTL(name, s)
			if err == nil {
				b, _ := os.ReadFile(name)
				complete = checkSTL(b, tris)
			}
		case "Create3MF":
			err = render.Create3MF(name, s)
			if err == nil {
				b, _ := os.ReadFile(name)
				complete = check3MF(b, tris, true)
			}
		}
		r.Ev(1)
		r.Distinct(kind, n, end, s.with, s.reads)
		desc := fmt.Sprintf("%s of a renderer that ends with %q after %d triangles (together %v)", kind, end, n, s.with)
		switch {
		case end == io.EOF && err != nil:
			r.Failf("alarm", "%s: %v", desc, err)
		case end != io.EOF && err == nil:
			r.Failf("silent", "%s reported success", desc)
		case end != io.EOF && !errors.Is(err, end):
			r.Failf("other-error", "%s reported %v", desc, err)
		case err == nil && complete != nil:
			r.Failf("incomplete", "%s reported success: %v", desc, complete)
		}
		if end != io.EOF {
			r.Count("faults of renderers", 1)
		}
	})
	// paths that cannot be written
	c.Cases("paths", c.scale(60, 200), func(i int, r *R) {
		dir := scratch(r)
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "file")
		os.WriteFile(file, []byte("x"), 0o644)
		long := filepath.Join(dir, string(bytes.Repeat([]byte{'n'}, 300)))
		loop := filepath.Join(dir, "loop")
		os.Symlink(loop, loop)
		// The code under test may rename, remove or replace what it is given a path of,
		// so the device is never named to it: only a link in the scratch directory is,
		// and only in a process of a user that cannot change /dev.
		full := filepath.Join(dir, "full")
		paths := []string{"", dir, filepath.Join(dir, "none", "a"), filepath.Join(file, "a"), long, loop, filepath.Join(dir, "a\x00b"), full, dir + "/"}
		p := paths[i%len(paths)]
		if p == full {
			if !haveFull() {
				r.Count("no device that is full", 1)
				return
			}
			os.Symlink("/dev/full", full)
		}
		n := []int{0, 1, 12, 500, 3000, 20000}[r.Intn(6)]
		tris := looseTris(r, n)
		for _, kind := range []string{"CreateSTL", "Create3MF"} {
			s := newScript(r, tris, io.EOF)
			var err error
			if kind == "CreateSTL" {
				err = render.CreateSTL(p, s)
			} else {
				err = render.Create3MF(p, s)
			}
			r.Ev(1)
			r.Distinct(kind, i%len(paths), n)
			if err == nil && !replacedBy(p, kind, tris) {
				r.Failf("silent", "%s of %d triangles to %q reported success", kind, n, p)
			}
			r.Count("faults of paths", 1)
			if p == full {
				os.Remove(full)
				os.Symlink("/dev/full", full)
			}
		}
		// an octree as well
		if err := render.CreateSTL(p, render.NewOctreeRenderer(must3.Sphere(1), 8)); err == nil && !replacedBy(p, "", nil) {
			r.Failf("silent", "CreateSTL of a sphere to %q reported success", p)
		}
		if n > 0 {
			if haveFull() {
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					panic(harnessError(err.Error()))
				}
				if err := render.WriteSTL(f, tris); err == nil {
					r.Failf("silent", "WriteSTL of %d triangles to a full device reported success", n)
				}
				f.Close()
			}
			f, err := os.Open(file) // not open for writing
			if err != nil {
				panic(harnessError(err.Error()))
			}
			if err := render.WriteSTL(f, tris); err == nil {
				r.Failf("silent", "WriteSTL of %d triangles to a file open for reading reported success", n)
			}
			f.Close()
			pr, pw, err := os.Pipe()
			if err != nil {
				panic(harnessError(err.Error()))
			}
			pr.Close()
			if err := render.WriteSTL(pw, tris); err == nil {
				r.Failf("silent", "WriteSTL of %d triangles to a pipe nobody reads reported success", n)
			}
			pw.Close()
		}
		if err := render.WriteSTL(&bytes.Buffer{}, tris[:0]); err == nil {
			r.Failf("silent", "WriteSTL of no triangles reported success")
		}
		if err := render.WriteSTL(&bytes.Buffer{}, nil); err == nil {
			r.Failf("silent", "WriteSTL of nil reported success")
		}
	})
	// a disk that fills up
	for i := 0; i < c.scale(4, 24); i++ {
		c.Run(fmt.Sprintf("limits/%d", i), func(r *R) {
			dir := scratch(r)
			defer os.RemoveAll(dir)
			var cases []limitedCase
			for k := 0; k < 250; k++ {
				kc := limitedCase{Kind: []string{"stl", "3mf", "write"}[k%3], N: 1 + r.Intn(30)}
				switch r.Intn(6) {
				case 0:
					kc.N = 1 + r.Intn(2000)
				case 1:
					kc.N = 655 + r.Intn(3)
				}
				full := 84 + 50*kc.N
				if kc.Kind == "3mf" {
					full = 1000 + 60*kc.N
				}
				switch r.Intn(5) {
				case 0:
					kc.Limit = full + 100 + r.Intn(500)
				case 1:
					kc.Limit = full - 1 - r.Intn(60)
				case 2:
					kc.Limit = r.Intn(200)
				default:
					kc.Limit = r.Intn(full + 1)
				}
				if kc.Limit < 0 {
					kc.Limit = 0
				}
				cases = append(cases, kc)
			}
			list := filepath.Join(dir, "list")
			b, _ := json.Marshal(cases)
			if err := os.WriteFile(list, b, 0o644); err != nil {
				panic(harnessError(err.Error()))
			}
			cmd := exec.Command(os.Args[0], "-helper", "limited", dir, list)
			out, err := cmd.CombinedOutput()
			if err != nil {
				r.Fatalf("crash", "writing with a limit on file sizes: %v\n%s", err, out)
			}
			b, err = os.ReadFile(list + ".out")
			if err == nil {
				err = json.Unmarshal(b, &cases)
			}
			if err != nil {
				panic(harnessError(err.Error()))
			}
			for _, k := range cases {
				r.Ev(1)
				r.Distinct(k.Kind, k.N, k.Limit)
				if k.Bad != "" {
					r.Failf("silent", "%s of %d triangles to a file limited to %d bytes reported success: %s", k.Kind, k.N, k.Limit, k.Bad)
				}
				if k.Err == "" {
					r.Count("files complete within the limit", 1)
				} else {
					r.Count("faults of the disk", 1)
					if k.Kind != "3mf" && k.Limit >= 84+50*k.N {
						r.Failf("alarm", "%s of %d triangles to a file limited to %d bytes: %s", k.Kind, k.N, k.Limit, k.Err)
					}
				}
			}
		})
	}
}
