// Runtime monitors for github.com/soypat/sdf.
//
// This program is compiled into the module under test by a build overlay
// (see run.sh), runs its real code under the workloads of one property and
// decides the property with monitors that know nothing about how the code is
// written: oracles over observed values, files, meshes and event logs.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// prop is a registered property check.
type prop struct {
	id          string
	level       string
	rule        string   // what counts as a distinct non trivial evaluation
	assumptions []string // what the verdict trusts
	run         func(c *C)
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// violation is one observed breach of a property.
type violation struct {
	Case string `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
}

// C is the context of the run of a property.
type C struct {
	prop     *prop
	tier     string
	seed     int64
	only     string // run only this case
	thorough bool

	mu       sync.Mutex
	viol     []violation
	nviol    int
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	cases    int64
	evals    int64
	maxDist  int
}

// R is the context of one case: its own random source and monitors.
type R struct {
	*rand.Rand
	c     *C
	name  string
	evals int64
	local map[string]int64
	dist  map[uint64]struct{}
	fails int
}

type stopCase struct{}

// scale returns q for the quick tier and t for the thorough one.
func (c *C) scale(q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func hashSeed(parts ...string) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return int64(h.Sum64() >> 1)
}

// Run executes a single case in the calling goroutine.
func (c *C) Run(name string, f func(r *R)) {
	if c.only != "" && c.only != name {
		return
	}
	r := &R{
		Rand:  rand.New(rand.NewSource(hashSeed(strconv.FormatInt(c.seed, 10), c.prop.id, name))),
		c:     c,
		name:  name,
		local: map[string]int64{},
		dist:  map[uint64]struct{}{},
	}
	heartbeat(name, true)
	defer heartbeat(name, false)
	func() {
		defer func() {
			if a := recover(); a != nil {
				if _, ok := a.(stopCase); ok {
					return
				}
				if e, ok := a.(harnessError); ok {
					fmt.Fprintln(os.Stderr, "HARNESS ERROR", name, e)
					os.Exit(4)
				}
				r.fail("panic", fmt.Sprintf("panic: %v\n%s", a, trimStack(debug.Stack())))
			}
		}()
		f(r)
	}()
	c.mu.Lock()
	c.cases++
	c.evals += r.evals
	for k, v := range r.local {
		if strings.HasPrefix(k, "max:") {
			if v > c.counters[k[4:]] {
				c.counters[k[4:]] = v
			}
			continue
		}
		c.counters[k] += v
	}
	for k := range r.dist {
		if len(c.distinct) < 5_000_000 {
			c.distinct[k] = struct{}{}
		}
	}
	c.mu.Unlock()
}

// harnessError is a fault of the harness itself, never a verdict.
type harnessError string

// Cases runs n numbered cases on all processors.
func (c *C) Cases(name string, n int, f func(i int, r *R)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > 8 {
		workers = 8
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.stopped() {
					return
				}
				c.Run(fmt.Sprintf("%s/%d", name, i), func(r *R) { f(i, r) })
			}
		}()
	}
	wg.Wait()
}

func (c *C) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 40
}

// fail records a violation. key groups violations of the same kind.
func (r *R) fail(key, msg string) {
	r.fails++
	if ff := os.Getenv("VERIF_FAILFAST"); ff != "" && !strings.Contains(ff, key) {
		// used for trials of the monitors only
		fmt.Printf("FAILFAST case=%s key=%s %s\n", r.name, key, head([]byte(msg), 300))
		os.Exit(9)
	}
	c := r.c
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nviol++
	same := 0
	for _, v := range c.viol {
		if v.Key == key {
			same++
		}
	}
	if same < 3 {
		c.viol = append(c.viol, violation{Case: r.name, Key: key, Msg: msg})
	}
}

// Failf records a violation and goes on.
func (r *R) Failf(key, format string, args ...interface{}) {
	if r.fails > 20 {
		panic(stopCase{})
	}
	r.fail(key, fmt.Sprintf(format, args...))
}

// Fatalf records a violation and ends the case.
func (r *R) Fatalf(key, format string, args ...interface{}) {
	r.fail(key, fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// Ev counts evaluations of an oracle.
func (r *R) Ev(n int) { r.evals += int64(n) }

// Count adds to a named counter of observed events.
func (r *R) Count(name string, n int) { r.local[name] += int64(n) }

// Max keeps the maximum of a named quantity.
func (r *R) Max(name string, n int) {
	if k := "max:" + name; int64(n) > r.local[k] {
		r.local[k] = int64(n)
	}
}

// Distinct notes a distinct non trivial observation.
func (r *R) Distinct(parts ...interface{}) {
	if len(r.dist) > 100_000 {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.dist[h.Sum64()] = struct{}{}
}

// DistinctBits is a cheap Distinct for numbers.
func (r *R) DistinctBits(tag uint64, vals ...float64) {
	if len(r.dist) > 100_000 {
		return
	}
	h := tag*0x9E3779B97F4A7C15 + 0x1234567
	for _, v := range vals {
		h ^= math.Float64bits(v)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
	}
	r.dist[h] = struct{}{}
}

// Sample keeps a few examples of what was explored.
func (r *R) Sample(format string, args ...interface{}) {
	r.c.mu.Lock()
	if len(r.c.samples) < 8 {
		r.c.samples = append(r.c.samples, r.name+": "+fmt.Sprintf(format, args...))
	}
	r.c.mu.Unlock()
}

// Panics reports whether f panics.
func Panics(f func()) (val interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
		}
	}()
	f()
	panicked = false
	return nil, false
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// heartbeat keeps the names of the running cases in a file, so that the parent
// can tell which case a crash or hang happened in.
var hb struct {
	sync.Mutex
	file    *os.File
	running map[string]int
	last    time.Time
}

func heartbeat(name string, start bool) {
	hb.Lock()
	defer hb.Unlock()
	if hb.file == nil {
		return
	}
	if hb.running == nil {
		hb.running = map[string]int{}
	}
	if start {
		hb.running[name]++
	} else {
		delete(hb.running, name)
	}
	names := make([]string, 0, len(hb.running))
	for n := range hb.running {
		names = append(names, n)
	}
	sort.Strings(names)
	s := strings.Join(names, " ")
	if len(s) > 1000 {
		s = s[:1000]
	}
	buf := make([]byte, 1024)
	for i := range buf {
		buf[i] = ' '
	}
	copy(buf, s)
	hb.file.WriteAt(buf, 0)
}

// result is what the child hands to the parent.
type result struct {
	Violations []violation      `json:"violations"`
	NViol      int              `json:"nviol"`
	Counters   map[string]int64 `json:"counters"`
	Distinct   int              `json:"distinct"`
	Samples    []string         `json:"samples"`
	Cases      int64            `json:"cases"`
	Evals      int64            `json:"evals"`
	CPU        float64          `json:"cpu_s"`
}

func child(c *C, out, hbFile string) {
	f, err := os.Create(hbFile)
	if err == nil {
		hb.file = f
	}
	c.prop.run(c)
	sort.Slice(c.samples, func(i, j int) bool { return c.samples[i] < c.samples[j] })
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Case < c.viol[j].Case })
	res := result{c.viol, c.nviol, c.counters, len(c.distinct), c.samples, c.cases, c.evals, 0}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR", err)
		os.Exit(4)
	}
	if err := os.WriteFile(out, b, 0o666); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR", err)
		os.Exit(4)
	}
	os.Exit(0)
}

func main() {
	var (
		id     = flag.String("prop", "", "property id")
		tier   = flag.String("tier", "quick", "quick or thorough")
		seed   = flag.Int64("seed", 1, "seed of every random choice")
		only   = flag.String("case", "", "run only the named case")
		dir    = flag.String("dir", "/verif", "where evidence and known findings are")
		isC    = flag.String("child", "", "internal: file for the result")
		hbF    = flag.String("hb", "", "internal: heartbeat file")
		list   = flag.Bool("list", false, "list properties")
		helper = flag.String("helper", "", "internal: run a helper process")
	)
	flag.Parse()
	if *helper != "" {
		runHelper(*helper, flag.Args())
		return
	}
	if *list {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(3)
	}
	c := &C{prop: p, tier: *tier, seed: *seed, only: *only, thorough: *tier == "thorough",
		counters: map[string]int64{}, distinct: map[uint64]struct{}{}}
	if *isC != "" {
		child(c, *isC, *hbF)
		return
	}
	os.Exit(parent(c, *dir))
}

// nobody is the user that owns no files.
const nobody = 65534

// parent runs the workload in a child process, so that fatal errors of the
// runtime, reports of the race detector, hangs and runaway memory are observed
// as well, and writes the evidence.
func parent(c *C, dir string) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+c.prop.id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	resFile := filepath.Join(tmp, "result.json")
	hbFile := filepath.Join(tmp, "heartbeat")
	logFile := filepath.Join(tmp, "log")
	lf, err := os.Create(logFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	args := []string{"-prop", c.prop.id, "-tier", c.tier, "-seed", fmt.Sprint(c.seed), "-child", resFile, "-hb", hbFile}
	if c.only != "" {
		args = append(args, "-case", c.only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Dir = tmp
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "race"),
		"GOTRACEBACK=all", "TMPDIR="+tmp, "VERIF_SCRATCH="+tmp)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	// Where possible the code under test runs as a user that owns nothing but the
	// scratch directory, so that whatever it does to files stays in there.
	// (C32 needs the build cache; it does this for the programs it runs.)
	started := false
	if os.Geteuid() == 0 && c.prop.id != "C32" && os.Lchown(tmp, nobody, nobody) == nil {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
		cmd.Env = append(cmd.Env, "HOME="+tmp)
		if started = cmd.Start() == nil; !started {
			again := exec.Command(os.Args[0], args...)
			again.Dir, again.Stdout, again.Stderr, again.Env = cmd.Dir, cmd.Stdout, cmd.Stderr, cmd.Env
			again.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd = again
			os.Lchown(tmp, os.Geteuid(), os.Getegid())
		}
	}
	if !started {
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	cpuLimit := 450.0
	if c.thorough {
		cpuLimit = 6000
	}
	const rssLimit = 12 << 30
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	stuck := ""
	idleSince, lastCPU := time.Now(), -1.0
	tick := time.NewTicker(250 * time.Millisecond)
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			cpu, rss := procUsage(cmd.Process.Pid)
			if cpu-lastCPU > 0.05 {
				idleSince, lastCPU = time.Now(), cpu
			}
			switch {
			case cpu > cpuLimit:
				stuck = fmt.Sprintf("no end after %.0f s of processor time (a run takes a small part of that)", cpu)
			case rss > rssLimit:
				stuck = fmt.Sprintf("memory grew to %d MB", rss>>20)
			case time.Since(idleSince) > 150*time.Second:
				stuck = "no progress: all goroutines blocked"
			}
			if stuck != "" {
				// Ask for the stacks of all goroutines, then end the process.
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				break loop
			}
		}
	}
	tick.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	lf.Close()
	log, _ := os.ReadFile(logFile)
	var res result
	if b, err := os.ReadFile(resFile); err == nil {
		if err := json.Unmarshal(b, &res); err != nil {
			fmt.Fprintln(os.Stderr, "bad result:", err)
			return 3
		}
	} else {
		if bytes.Contains(log, []byte("HARNESS ERROR")) {
			os.Stderr.Write(tail(log, 4000))
			return 3
		}
		running, _ := os.ReadFile(hbFile)
		msg := "the process ended early: " + fmt.Sprint(werr)
		key := "crash"
		if stuck != "" {
			msg, key = stuck, "hang"
		}
		res.Violations = append(res.Violations, violation{Case: strings.TrimSpace(string(running)), Key: key,
			Msg: msg + "\n" + string(head(log, 6000))})
		res.NViol++
	}
	// reports of the race detector
	races, _ := filepath.Glob(filepath.Join(tmp, "race.*"))
	nraces := 0
	for _, f := range races {
		b, _ := os.ReadFile(f)
		n := bytes.Count(b, []byte("WARNING: DATA RACE"))
		if n > 0 {
			nraces += n
			res.Violations = append(res.Violations, violation{Case: "race detector", Key: "race", Msg: string(head(b, 6000))})
			res.NViol += n
		}
	}
	if raceEnabled {
		if res.Counters == nil {
			res.Counters = map[string]int64{}
		}
		res.Counters["race_reports"] = int64(nraces)
	}
	if ps := cmd.ProcessState; ps != nil {
		res.CPU = ps.UserTime().Seconds() + ps.SystemTime().Seconds()
	}
	return report(c, dir, res, time.Since(start).Seconds())
}

func procUsage(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, pages * int64(os.Getpagesize())
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

// knownFinding is an entry of known-findings.txt.
type knownFinding struct {
	prop, key, text string
}

var findingRe = regexp.MustCompile(`^finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$`)

func knownFindings(dir string) (k []knownFinding) {
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingRe.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			k = append(k, knownFinding{m[1], m[2], m[3]})
		}
	}
	return k
}

func report(c *C, dir string, res result, wall float64) int {
	known := knownFindings(dir)
	var fresh []violation
	seen := map[string]bool{}
	for _, v := range res.Violations {
		listed := false
		for _, k := range known {
			if k.prop == c.prop.id && k.key == v.Key {
				listed = true
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", c.prop.id, k.key, k.text)
				}
			}
		}
		if !listed {
			fresh = append(fresh, v)
		}
	}
	if c.only != "" {
		// a replay: no evidence is written
		for _, v := range fresh {
			fmt.Printf("case %s [%s]\n%s\n", v.Case, v.Key, v.Msg)
		}
		if len(fresh) > 0 {
			return 1
		}
		fmt.Println("no violation in case", c.only)
		return 0
	}
	cov := map[string]interface{}{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                c.prop.rule,
		"samples":             res.Samples,
		"cases":               res.Cases,
		"cpu_s":               math.Round(res.CPU*10) / 10,
		"observed":            res.Counters,
	}
	ev := map[string]interface{}{
		"property":    c.prop.id,
		"tier":        c.tier,
		"seed":        c.seed,
		"level":       c.prop.level,
		"coverage":    cov,
		"assumptions": c.prop.assumptions,
		"wall_s":      math.Round(wall*100) / 100,
		"violations":  len(fresh),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if err := os.WriteFile(filepath.Join(dir, "evidence", c.prop.id+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	replay := filepath.Join(dir, "evidence", c.prop.id+".replay.json")
	os.Remove(replay)
	if len(fresh) > 0 {
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.prop.id, "tier": c.tier, "seed": c.seed, "violations": fresh,
			"how": fmt.Sprintf("VERIF_SEED=%d /verif/run.sh %s %s CASE runs one of the cases again", c.seed, c.prop.id, c.tier),
		}, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o666)
		for i, v := range fresh {
			if i == 6 {
				fmt.Printf("... %d more\n", len(fresh)-i)
				break
			}
			msg := v.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("case %s [%s]\n%s\n", v.Case, v.Key, msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.id, replay)
		return 1
	}
	if res.Evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing was observed")
		return 3
	}
	fmt.Printf("held: property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", c.prop.id, c.tier, res.Cases, res.Evals, res.Distinct, wall)
	return 0
}
