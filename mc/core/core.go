// Package core is the frame of every check: it runs a worker process that
// explores, collects violations and coverage, confirms violations by running
// the worker again, writes the evidence and replay files, and maps the result
// to the exit code and output lines of the interface.
package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Violation of the property
type Violation struct {
	Key    string      `json:"key"`    // identifies the failing input or history
	Desc   string      `json:"desc"`   // what was observed, what was expected
	Replay interface{} `json:"replay"` // how to get there again
}

// Result of a worker
type Result struct {
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	Violations  []Violation            `json:"violations"`
	Hang        bool                   `json:"hang"`
	Distinct    []uint64               `json:"distinct,omitempty"`
	Sums        map[string]int64       `json:"sums,omitempty"`
	Bounds      []Bound                `json:"sched_bounds,omitempty"`
	Crash       string                 `json:"crash,omitempty"`
}

// Bound reached by a schedule exploration in one shard
type Bound struct {
	Name     string `json:"name"`
	Done     int    `json:"done"` // deviation bound completed, -1 if none
	Want     int    `json:"want"`
	Execs    int64  `json:"execs"`
	MaxAlts  int    `json:"choice_points"`
	MaxSteps int    `json:"steps"`
}

// R is one run of one check
type R struct {
	Prop  string
	Tier  string
	Seed  int64
	Level string

	Deadline      time.Time
	Start         time.Time
	Shard, Shards int // this process explores the schedules of its shard

	Evaluations atomic.Int64 // executions of the real code
	States      atomic.Int64 // distinct states
	Transitions atomic.Int64
	Validated   atomic.Int64 // model steps compared with the implementation

	mx         sync.Mutex
	distinct   map[string]int
	violations []Violation
	seenKeys   map[string]bool
	samples    []string
	bounds     []string
	assume     []string
	rule       string
	extra      map[string]interface{}
	capped     []string
	known      map[string]string

	sbounds  []Bound
	slots    []*slot
	progress atomic.Int64
}

type slot struct {
	mx    sync.Mutex
	what  string
	since time.Time
}

// Thorough tier
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick by tier
func (r *R) Pick(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Expired deadline, or enough violations: stop exploring
func (r *R) Expired() bool {
	return time.Now().After(r.Deadline) || r.Full()
}

// Full of violations
func (r *R) Full() bool {
	r.mx.Lock()
	defer r.mx.Unlock()
	return len(r.violations) >= 3
}

// Cap records that an exploration was cut short
func (r *R) Cap(s string) {
	r.mx.Lock()
	defer r.mx.Unlock()
	for _, c := range r.capped {
		if c == s {
			return
		}
	}
	r.capped = append(r.capped, s)
}

// Bound describes one completed exploration
func (r *R) Bound(f string, a ...interface{}) {
	r.mx.Lock()
	defer r.mx.Unlock()
	r.bounds = append(r.bounds, fmt.Sprintf(f, a...))
}

// Assume an assumption
func (r *R) Assume(s string) {
	r.mx.Lock()
	defer r.mx.Unlock()
	r.assume = append(r.assume, s)
}

// Rule of the cases
func (r *R) Rule(s string) { r.rule = s }

// Extra coverage figure
func (r *R) Extra(k string, v interface{}) {
	r.mx.Lock()
	defer r.mx.Unlock()
	r.extra[k] = v
}

// Outcome counts a distinct observed outcome
func (r *R) Outcome(s string) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if len(r.distinct) < 2000000 {
		r.distinct[s]++
	}
}

// Sample case
func (r *R) Sample(f string, a ...interface{}) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 800 {
			s = s[:800] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Violate records a violation; key must identify the failing input or history
func (r *R) Violate(key, desc string, replay interface{}) {
	r.mx.Lock()
	defer r.mx.Unlock()
	if r.seenKeys[key] {
		return
	}
	r.seenKeys[key] = true
	if _, ok := r.known[key]; ok {
		return
	}
	if len(r.violations) < 8 {
		r.violations = append(r.violations, Violation{key, desc, replay})
	}
}

// Parallel runs fn(i) for i in [0,n) on all cores; stops early when expired
func (r *R) Parallel(n int, fn func(i int)) {
	r.ParallelN(runtime.GOMAXPROCS(0), n, fn)
}

// ParallelN as Parallel with w workers
func (r *R) ParallelN(w, n int, fn func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		s := &slot{}
		r.mx.Lock()
		r.slots = append(r.slots, s)
		r.mx.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n {
					break
				}
				if r.Expired() {
					r.Cap("time")
					break
				}
				s.set(fmt.Sprint("item ", i))
				fn(i)
				s.set("")
			}
			s.set("")
		}()
	}
	wg.Wait()
}

func (s *slot) set(w string) {
	s.mx.Lock()
	s.what, s.since = w, time.Now()
	s.mx.Unlock()
}

var caseMem []byte

// Case notes the case being run, for the report of a crash of the process
func Case(what string) {
	if caseMem == nil {
		return
	}
	n := copy(caseMem[4:], what)
	binary.LittleEndian.PutUint32(caseMem, uint32(n))
}

func openCase(file string) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	if f.Truncate(1<<16) == nil {
		if m, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			caseMem = m
		}
	}
}

func readCase(file string) string {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 4 {
		return ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	return strings.ReplaceAll(string(b[4:4+n]), "\n", " ")
}

// Guard runs one case under the hang watchdog and turns a panic of the code
// under test into an error text.
func (r *R) Guard(what func() string, fn func()) (panicked string) {
	s := &slot{}
	s.what, s.since = "", time.Now()
	g := guard{what: what, since: time.Now()}
	id := guards.add(&g)
	defer guards.del(id)
	r.Evaluations.Add(1)
	return Catch(fn)
}

// Catch a panic
func Catch(fn func()) (panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprintf("panic: %v\n%s", e, trim(string(debug.Stack())))
		}
	}()
	fn()
	return
}

func trim(s string) string {
	var keep []string
	ls := strings.Split(s, "\n")
	for i := 0; i < len(ls); i++ {
		if strings.Contains(ls[i], "/repo/") || strings.Contains(ls[i], "/verif/deps") {
			keep = append(keep, strings.TrimSpace(ls[i]))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, " | ")
}

// PanicKey is the stable part of a panic text
func PanicKey(p string) string {
	l := strings.SplitN(p, "\n", 2)[0]
	return l
}

type guard struct {
	what  func() string
	since time.Time
}

type guardSet struct {
	sh [64]struct {
		mx sync.Mutex
		m  map[int64]*guard
	}
	n atomic.Int64
}

var guards guardSet

func (g *guardSet) add(x *guard) int64 {
	id := g.n.Add(1)
	s := &g.sh[id%64]
	s.mx.Lock()
	if s.m == nil {
		s.m = map[int64]*guard{}
	}
	s.m[id] = x
	s.mx.Unlock()
	return id
}

func (g *guardSet) del(id int64) {
	s := &g.sh[id%64]
	s.mx.Lock()
	delete(s.m, id)
	s.mx.Unlock()
}

// HangAfter is the time after which one case (normally micro- or
// milliseconds) is taken for a hang
var HangAfter = 90 * time.Second

// StallAfter is the time without any progress after which the worker is taken
// for blocked in the code under test
const StallAfter = 150 * time.Second

func (r *R) watchdog(finish func(hang bool)) {
	last, since := int64(-1), time.Now()
	stall := StallAfter
	if r.Thorough() {
		stall = 1200 * time.Second
	}
	if d, err := time.ParseDuration(os.Getenv("VMC_STALL")); err == nil {
		stall = d
	}
	for {
		time.Sleep(2 * time.Second)
		if n := r.Evaluations.Load() + r.Transitions.Load() + r.States.Load() + r.Validated.Load(); n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > stall {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			what := "blocked"
			if b, err := os.ReadFile(os.Getenv("VMC_CASE")); err == nil && len(b) > 4 {
				what = readCase(os.Getenv("VMC_CASE"))
			}
			r.Violate("hang: "+what, "no operation finished within "+stall.String(),
				map[string]interface{}{"goroutines": string(buf[:min(len(buf), 20000)])})
			finish(true)
		}
		for i := range guards.sh {
			s := &guards.sh[i]
			s.mx.Lock()
			for _, g := range s.m {
				if time.Since(g.since) > HangAfter {
					w := g.what()
					s.mx.Unlock()
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					r.Violate("hang: "+w, "the operation did not finish within "+HangAfter.String(),
						map[string]interface{}{"case": w, "goroutines": string(buf[:min(len(buf), 20000)])})
					finish(true)
				}
			}
			s.mx.Unlock()
		}
	}
}

// Check of a property
type Check struct {
	Level   string
	Run     func(r *R)
	Quick   time.Duration // internal deadline of the quick tier
	Through time.Duration // internal deadline of the thorough tier
	Sharded bool          // explores schedules: one process per core
}

// Base directory of /verif
func Base() string {
	if b := os.Getenv("VERIF_BASE"); b != "" {
		return b
	}
	return "/verif"
}

// Main of a check binary
func Main(checks map[string]Check) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.String("worker", "", "internal: result file")
	shard := flag.Int("shard", 0, "internal")
	shards := flag.Int("shards", 1, "internal")
	flag.Parse()
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property here:", *prop)
		os.Exit(2)
	}
	if c.Quick == 0 {
		c.Quick = 150 * time.Second
	}
	if c.Through == 0 {
		c.Through = 25 * time.Minute
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *worker != "" {
		runWorker(*prop, *tier, seed, c, *worker, *shard, *shards)
		return
	}
	os.Exit(parent(*prop, *tier, seed, c))
}

func runWorker(prop, tier string, seed int64, c Check, out string, shard, shards int) {
	debug.SetMemoryLimit(14 << 30 / int64(shards))
	if shards > 1 {
		runtime.GOMAXPROCS(2)
	}
	r := &R{Prop: prop, Tier: tier, Seed: seed, Level: c.Level, Shard: shard, Shards: shards, Start: time.Now(),
		distinct: map[string]int{}, seenKeys: map[string]bool{}, extra: map[string]interface{}{}}
	r.known, _ = knownFindings(prop)
	d := c.Quick
	if r.Thorough() {
		d = c.Through
	}
	r.Deadline = time.Now().Add(d)
	openCase(os.Getenv("VMC_CASE"))
	var once sync.Once
	finish := func(hang bool) {
		once.Do(func() {
			res := r.result()
			res.Hang = hang
			if shards > 1 {
				r.mx.Lock()
				for o := range r.distinct {
					h := fnv.New64a()
					h.Write([]byte(o))
					res.Distinct = append(res.Distinct, h.Sum64())
				}
				res.Bounds = r.sbounds
				res.Sums = map[string]int64{"executions": r.Evaluations.Load(), "states": r.States.Load(),
					"transitions": r.Transitions.Load(), "validated": r.Validated.Load()}
				r.mx.Unlock()
			}
			b, err := json.Marshal(res)
			if err != nil {
				for i := range res.Violations {
					res.Violations[i].Replay = fmt.Sprint(res.Violations[i].Replay)
				}
				b, _ = json.Marshal(res)
			}
			os.WriteFile(out+".tmp", b, 0o644)
			os.Rename(out+".tmp", out)
			os.Exit(0)
		})
		select {}
	}
	go r.watchdog(finish)
	c.Run(r)
	finish(false)
}

func (r *R) result() Result {
	r.mx.Lock()
	defer r.mx.Unlock()
	cov := map[string]interface{}{}
	switch r.Level {
	case "model_checking":
		cov["states"] = r.States.Load()
		cov["transitions"] = r.Transitions.Load()
		cov["traces_validated_against_impl"] = r.Validated.Load()
		cov["executions"] = r.Evaluations.Load()
	default:
		cov["evaluations"] = r.Evaluations.Load()
		cov["distinct_nontrivial"] = len(r.distinct)
		cov["rule"] = r.rule
		if s := r.States.Load(); s > 0 {
			cov["states"] = s
		}
		if s := r.Transitions.Load(); s > 0 {
			cov["transitions"] = s
		}
	}
	if r.rule != "" {
		cov["rule"] = r.rule
	}
	cov["distinct_outcomes"] = len(r.distinct)
	cov["samples"] = r.samples
	cov["bounds_completed"] = r.bounds
	cov["exhaustive"] = len(r.capped) == 0
	if len(r.capped) > 0 {
		cov["capped_by"] = r.capped
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	return Result{Coverage: cov, Assumptions: r.assume, Violations: append([]Violation{}, r.violations...)}
}

// known findings: lines "known: property=<id> key=<key> :: <what fails>"
func knownFindings(prop string) (m map[string]string, order []string) {
	m = map[string]string{}
	b, _ := os.ReadFile(filepath.Join(Base(), "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + prop + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		x := strings.SplitN(l[len(p):], " :: ", 2)
		d := ""
		if len(x) == 2 {
			d = x[1]
		}
		m[x[0]] = d
		order = append(order, x[0])
	}
	return
}

func oneWorker(prop, tier string, c Check) (res *Result, crash string) {
	if !c.Sharded {
		return oneShard(prop, tier, 0, 1)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	rs := make([]*Result, n)
	cr := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i], cr[i] = oneShard(prop, tier, i, n)
		}()
	}
	wg.Wait()
	for i := range cr {
		if cr[i] != "" {
			return nil, cr[i]
		}
	}
	return merge(rs), ""
}

func merge(rs []*Result) *Result {
	res := rs[0]
	dist := map[uint64]bool{}
	sums := map[string]int64{}
	keys := map[string]bool{}
	var vs []Violation
	capped := map[string]bool{}
	var bounds []Bound
	for _, x := range rs {
		for _, d := range x.Distinct {
			dist[d] = true
		}
		for k, v := range x.Sums {
			sums[k] += v
		}
		for _, v := range x.Violations {
			if !keys[v.Key] {
				keys[v.Key] = true
				vs = append(vs, v)
			}
		}
		if cs, ok := x.Coverage["capped_by"].([]interface{}); ok {
			for _, c := range cs {
				capped[fmt.Sprint(c)] = true
			}
		}
	next:
		for _, b := range x.Bounds {
			for j := range bounds {
				if bounds[j].Name == b.Name {
					bounds[j].Done = min(bounds[j].Done, b.Done)
					bounds[j].Execs += b.Execs
					bounds[j].MaxAlts = max(bounds[j].MaxAlts, b.MaxAlts)
					bounds[j].MaxSteps = max(bounds[j].MaxSteps, b.MaxSteps)
					continue next
				}
			}
			bounds = append(bounds, b)
		}
	}
	cov := res.Coverage
	bl, _ := cov["bounds_completed"].([]interface{})
	for _, b := range bounds {
		bl = append(bl, fmt.Sprintf("%s: every schedule with at most %d deviations (of %d tried; %d executions, up to %d choice points and %d steps in one)",
			b.Name, b.Done, b.Want, b.Execs, b.MaxAlts, b.MaxSteps))
	}
	cov["bounds_completed"] = bl
	cov["distinct_outcomes"] = len(dist)
	for k, v := range sums {
		switch {
		case k == "validated":
			if _, ok := cov["traces_validated_against_impl"]; ok {
				cov["traces_validated_against_impl"] = v
			}
		case k == "executions":
			if _, ok := cov["evaluations"]; ok {
				cov["evaluations"] = v
				cov["distinct_nontrivial"] = len(dist)
			} else {
				cov[k] = v
			}
			cov["schedules"] = v
		default:
			cov[k] = v
		}
	}
	if len(capped) > 0 {
		var cl []string
		for c := range capped {
			cl = append(cl, c)
		}
		sort.Strings(cl)
		cov["capped_by"] = cl
		cov["exhaustive"] = false
	}
	cov["processes"] = len(rs)
	res.Violations = vs
	return res
}

func oneShard(prop, tier string, shard, shards int) (res *Result, crash string) {
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		return nil, "harness: " + err.Error()
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "result.json")
	cmd := exec.Command(os.Args[0], "-prop", prop, "-tier", tier, "-worker", out,
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards))
	scratch := filepath.Join(dir, "scratch")
	os.Mkdir(scratch, 0o755)
	if st, e := os.Stat("/dev/shm"); e == nil && st.IsDir() {
		if d, e := os.MkdirTemp("/dev/shm", "vmc"); e == nil {
			scratch = d
			defer os.RemoveAll(d)
		}
	}
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "VMC_SCRATCH="+scratch, "HOME="+scratch,
		"VMC_CASE="+filepath.Join(dir, "case"))
	var eb tail
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	err = cmd.Run()
	b, e := os.ReadFile(out)
	if e != nil {
		crash = fmt.Sprintf("worker ended without a result (%v): %s", err, eb.String())
		if cs := readCase(filepath.Join(dir, "case")); cs != "" {
			crash += "\ncase: " + cs + "\n"
		}
		return nil, crash
	}
	res = new(Result)
	if e = json.Unmarshal(b, res); e != nil {
		return nil, "harness: " + e.Error()
	}
	return
}

type tail struct {
	mx sync.Mutex
	h  []byte
	t  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mx.Lock()
	defer t.mx.Unlock()
	if len(t.h) < 4000 {
		t.h = append(t.h, p...)
	} else {
		t.t = append(t.t, p...)
		if len(t.t) > 12000 {
			t.t = append([]byte(nil), t.t[len(t.t)-6000:]...)
		}
	}
	return len(p), nil
}

func (t *tail) String() string { return string(t.h) + "\n...\n" + string(t.t) }

func crashKey(c string) string {
	k := crashKind(c)
	if i := strings.LastIndex(c, "\ncase: "); i >= 0 {
		k += " in " + strings.SplitN(c[i+7:], "\n", 2)[0]
	}
	return k
}

func crashKind(c string) string {
	for _, l := range strings.Split(c, "\n") {
		if i := strings.Index(l, "panic: "); i >= 0 {
			return "crash: " + strings.TrimSpace(l[i:])
		}
		if i := strings.Index(l, "fatal error: "); i >= 0 {
			return "crash: " + strings.TrimSpace(l[i:])
		}
	}
	return "crash: process exit"
}

func parent(prop, tier string, seed int64, c Check) int {
	start := time.Now()
	known, order := knownFindings(prop)
	res, crash := oneWorker(prop, tier, c)
	var confirmed []Violation
	if crash != "" {
		if strings.HasPrefix(crash, "harness: ") || !crashOfCode(crash) {
			fmt.Fprintln(os.Stderr, crash)
			return 2
		}
		// confirm
		_, crash2 := oneWorker(prop, tier, c)
		if crash2 == "" || crashKey(crash2) != crashKey(crash) && !crashOfCode(crash2) {
			fmt.Fprintln(os.Stderr, "crash not reproduced:", crash)
			return 2
		}
		res = &Result{Coverage: map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1,
			"rule": "the exploration crashed", "samples": []string{crashKey(crash)},
			"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false}}
		if _, ok := known[crashKey(crash)]; !ok {
			confirmed = append(confirmed, Violation{crashKey(crash), "the code under test brings the process down", crash})
		}
	} else if len(res.Violations) > 0 {
		// a violation must be reproduced by a second, independent run
		again, crash2 := oneWorker(prop, tier, c)
		keys := map[string]bool{}
		if crash2 == "" {
			for _, v := range again.Violations {
				keys[v.Key] = true
			}
		}
		for _, v := range res.Violations {
			if keys[v.Key] {
				confirmed = append(confirmed, v)
			}
		}
		if len(confirmed) == 0 && crash2 == "" && len(again.Violations) > 0 {
			// which of several violations is met first may depend on the worker threads
			confirmed = again.Violations[:1]
		}
		if len(confirmed) == 0 {
			fmt.Fprintf(os.Stderr, "violations not reproduced: %+v (crash: %s)\n", res.Violations, crash2)
			return 2
		}
	}
	base := Base()
	for _, k := range order {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, known[k], k)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": res.Coverage, "assumptions": res.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(confirmed),
	}
	if res.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	writeJSON(filepath.Join(base, "evidence", prop+".json"), ev)
	if len(confirmed) == 0 {
		fmt.Printf("OK property=%s tier=%s %s wall=%.1fs\n", prop, tier, brief(res.Coverage), time.Since(start).Seconds())
		return 0
	}
	for i, v := range confirmed {
		p := filepath.Join(base, "replays", fmt.Sprintf("%s-%d.json", prop, i))
		writeJSON(p, map[string]interface{}{"property": prop, "tier": tier, "seed": seed,
			"key": v.Key, "desc": v.Desc, "replay": v.Replay,
			"how": "run the check again: exploration order is deterministic and the history below is executed as part of it"})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		fmt.Printf("  key: %s\n  %s\n", v.Key, v.Desc)
	}
	return 1
}

// crashOfCode tells a crash of the code under test from one of the harness
func crashOfCode(c string) bool {
	if strings.Contains(c, "signal: killed") {
		return false
	}
	return strings.Contains(c, "/repo/") || strings.Contains(c, "exit status 1") ||
		strings.Contains(c, "stack overflow") || strings.Contains(c, "all goroutines are asleep")
}

func brief(c map[string]interface{}) string {
	var ks []string
	for _, k := range []string{"evaluations", "executions", "states", "transitions", "distinct_outcomes", "distinct_nontrivial", "exhaustive"} {
		if v, ok := c[k]; ok {
			ks = append(ks, fmt.Sprintf("%s=%v", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func writeJSON(p string, v interface{}) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
	}
	os.WriteFile(p, b.Bytes(), 0o644)
}

// Scratch directory of the worker
func Scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VMC_SCRATCH"), "s")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}
