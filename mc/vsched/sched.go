// Package vsched is a cooperative scheduler for instrumented Go code. One
// goroutine runs at a time; at every synchronisation operation the scheduler
// decides who runs next, following a given list of deviations from a
// deterministic default, so that every schedule within a deviation bound can
// be enumerated and replayed. Channels, locks, goroutines, timers and the
// clock are emulated with the semantics of the Go runtime.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Dev is a deviation from the default schedule: at choice point Pos take
// alternative Alt (1..)
type Dev struct{ Pos, Alt int }

// Outcome of an execution
type Outcome struct {
	Kind  string // "", "deadlock", "panic", "steps", "race"
	Text  string
	Stack string
	// Alts is the number of alternatives of every choice point
	Alts []uint8
	// Diverged: a deviation was not possible at its choice point
	Diverged bool
	Steps    int
	Preempt  int
}

// Opts of an execution
type Opts struct {
	MaxSteps int  // default 400000
	Race     bool // happens-before race detection of recorded accesses
	Seed     uint64
	Log      bool // keep a log of the schedule
	SyncOnly bool // statements are no scheduling points
}

// G is an emulated goroutine
type G struct {
	id    int
	wake  chan struct{}
	en    func() bool // nil: runnable
	idle  bool        // runs only when nobody else can
	what  string
	exit  bool
	vc    VC
	w     *waiter
	local interface{}
}

// Sched is one execution
type Sched struct {
	opts     Opts
	devs     []Dev
	nextDev  int
	gs       []*G
	cur      *G
	gid      int
	epoch    uint64
	out      Outcome
	aborting bool
	fin      chan struct{}
	exited   chan struct{}
	chans    map[uintptr]*hchan
	seen     map[interface{}]int
	timers   []*Timer
	tseq     int
	ticks    int // of periodic timers while nothing else is possible
	now      int64
	rnd      uint64
	shadow   map[uintptr]*shadow
	free     int // >0: no choices (set-up phases)
	log      []string
}

// S is the execution going on, if any
var S *Sched

var epoch uint64

// Epoch of the execution; synchronisation objects that outlive an execution
// are reset when they meet a new one
func Epoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Base of the virtual clock
var Base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// Run executes body as the main goroutine under the schedule given by devs
func Run(body func(), devs []Dev, opts Opts) *Outcome {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 400000
	}
	epoch++
	s := &Sched{opts: opts, devs: devs, epoch: epoch, fin: make(chan struct{}, 1), exited: make(chan struct{}),
		chans: map[uintptr]*hchan{}, seen: map[interface{}]int{}, rnd: opts.Seed*0x9E3779B97F4A7C15 + 12345}
	if opts.Race {
		s.shadow = map[uintptr]*shadow{}
	}
	S = s
	g := s.spawn(body, true)
	s.cur = g
	g.wake <- struct{}{}
	<-s.fin
	// end of the execution: unwind what is left, one by one
	s.aborting = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if g.exit {
			continue
		}
		s.cur = g
		g.wake <- struct{}{}
		<-s.exited
	}
	S = nil
	if s.nextDev < len(s.devs) && s.out.Kind == "" {
		s.out.Diverged = true
	}
	return &s.out
}

func (s *Sched) spawn(fn func(), main bool) *G {
	s.gid++
	g := &G{id: s.gid, wake: make(chan struct{}, 1)}
	if s.opts.Race {
		if s.cur != nil {
			g.vc = s.cur.vc.clone()
			s.cur.vc.tick(s.cur.id)
		}
		g.vc.tick(g.id)
	}
	s.gs = append(s.gs, g)
	go func() {
		<-g.wake
		defer func() {
			e := recover()
			g.exit = true
			if s.aborting {
				s.exited <- struct{}{}
				return
			}
			if e != nil {
				s.finish("panic", fmt.Sprint(e), string(debug.Stack()))
				return
			}
			if main {
				s.finish("", "", "")
				return
			}
			s.drop(g)
			next := s.pick(nil)
			if next == nil {
				return // finished
			}
			s.cur = next
			next.wake <- struct{}{}
		}()
		if s.aborting {
			return
		}
		fn()
	}()
	return g
}

func (s *Sched) drop(g *G) {
	for i := range s.gs {
		if s.gs[i] == g {
			s.gs = append(s.gs[:i:i], s.gs[i+1:]...)
			return
		}
	}
}

func (s *Sched) finish(kind, text, stack string) {
	s.out.Kind, s.out.Text, s.out.Stack = kind, text, stack
	if kind == "deadlock" || kind == "steps" {
		var b strings.Builder
		for _, g := range s.gs {
			if !g.exit {
				fmt.Fprintf(&b, "g%d: %s\n", g.id, g.what)
			}
		}
		buf := make([]byte, 1<<20)
		s.out.Stack = b.String() + string(buf[:runtime.Stack(buf, true)])
	}
	s.fin <- struct{}{}
}

// pick the next goroutine; g is the one that stops at a scheduling point, or
// nil if it exited. Returns nil if the execution is over.
func (s *Sched) pick(g *G) *G {
	s.out.Steps++
	if s.out.Steps > s.opts.MaxSteps {
		s.finish("steps", fmt.Sprintf("no end after %d steps", s.opts.MaxSteps), "")
		return nil
	}
	var arr [64]*G
	for {
		en := arr[:0]
		// default order: the current goroutine goes on; otherwise round robin by age
		start := 0
		if g != nil {
			if !g.idle && (g.en == nil || g.en()) {
				en = append(en, g)
			}
			for i := range s.gs {
				if s.gs[i] == g {
					start = i + 1
					break
				}
			}
		} else {
			start = s.lastIdx()
		}
		if len(en) == 1 && s.free > 0 {
			return g
		}
		var idle *G
		n := len(s.gs)
		for k := 0; k < n; k++ {
			x := s.gs[(start+k)%n]
			if x.idle && idle == nil {
				idle = x
			}
			if x == g || x.idle || x.exit {
				continue
			}
			if x.en == nil || x.en() {
				en = append(en, x)
			}
		}
		switch {
		case len(en) == 0 && idle != nil:
			return idle
		case len(en) == 0:
			if s.fireNext() {
				continue
			}
			s.finish("deadlock", "all goroutines are blocked", "")
			return nil
		case len(en) == 1 || s.free > 0:
			return en[0]
		}
		i := s.choose(len(en))
		if i != 0 && len(en) > 0 && en[0] == g {
			s.out.Preempt++
		}
		return en[i]
	}
}

func (s *Sched) lastIdx() int {
	for i, g := range s.gs {
		if g.id > s.cur.id {
			return i
		}
	}
	return 0
}

func (s *Sched) choose(n int) int {
	if n > 255 {
		n = 255
	}
	pos := len(s.out.Alts)
	s.out.Alts = append(s.out.Alts, uint8(n))
	if s.nextDev < len(s.devs) && s.devs[s.nextDev].Pos == pos {
		a := s.devs[s.nextDev].Alt
		s.nextDev++
		if a >= n {
			s.out.Diverged = true
			return 0
		}
		return a
	}
	return 0
}

// switchTo the picked goroutine and wait to be picked again
func (s *Sched) yield(g *G) {
	next := s.pick(g)
	if next == nil {
		// over: wait for the unwinding
		<-g.wake
		runtime.Goexit()
	}
	if next != g {
		s.cur = next
		next.wake <- struct{}{}
		<-g.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	if s.opts.Log {
		s.log = append(s.log, fmt.Sprintf("g%d %s", g.id, g.what))
	}
}

// Point is a scheduling point before a non-blocking operation
func Point(what string) {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	g := s.cur
	g.en, g.what = nil, what
	s.yield(g)
}

// P is the statement-level scheduling point
func P() {
	if s := S; s != nil && s.opts.SyncOnly && !s.aborting {
		return
	}
	Point("stmt")
}

// Block until the condition holds
func Block(what string, en func() bool) {
	s := S
	if s == nil {
		if en() {
			return
		}
		panic("vsched: blocked outside an execution: " + what)
	}
	if s.aborting {
		runtime.Goexit()
	}
	g := s.cur
	g.en, g.what = en, what
	s.yield(g)
	g.en = nil
}

// Idle waits until every other goroutine is blocked; timers do not advance
func Idle() {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	g := s.cur
	g.idle, g.what = true, "idle"
	s.yield(g)
	g.idle = false
}

// Free runs fn without choices: the default schedule only
func Free(fn func()) {
	S.free++
	fn()
	S.free--
}

// SetFree switches choices off (true) or on for everybody
func SetFree(f bool) {
	if f {
		S.free++
	} else {
		S.free--
	}
}

// Choose among n alternatives; every one but 0 costs a deviation
func Choose(n int) int {
	if n <= 1 || S == nil || S.free > 0 {
		return 0
	}
	return S.choose(n)
}

// Go starts a goroutine
func Go(fn func()) {
	s := S
	if s == nil {
		panic("vsched: go outside an execution")
	}
	if s.aborting {
		return
	}
	s.spawn(fn, false)
	Point("go")
}

// Aborting execution: nothing matters any more
func Aborting() bool { return S != nil && S.aborting }

// ID of the current goroutine
func ID() int { return S.cur.id }

// Goroutines still alive, with what they wait for
func Goroutines() (ws []string) {
	for _, g := range S.gs {
		if !g.exit {
			ws = append(ws, fmt.Sprintf("g%d %s", g.id, g.what))
		}
	}
	return
}

// NumG is the number of live goroutines
func NumG() int { return len(S.gs) }

// Log of the schedule so far
func Log() []string { return S.log }

// Fail ends the execution with a finding
func Fail(kind, text string) {
	s := S
	if s == nil || s.aborting {
		return
	}
	g := s.cur
	s.finish(kind, text, string(debug.Stack()))
	<-g.wake
	runtime.Goexit()
}

// Rand is a deterministic generator
func Rand() uint64 {
	if S == nil {
		grnd += 0x9E3779B97F4A7C15
		return mix(grnd)
	}
	S.rnd += 0x9E3779B97F4A7C15
	return mix(S.rnd)
}

var grnd uint64 = 7

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
