package vsched

import (
	"sort"
	"time"
)

// Timer of the virtual clock
type Timer struct {
	At     int64
	Period int64
	C      chan time.Time
	F      func()
	seq    int
	active bool
	Daemon bool // does not keep an execution alive (tickers)
}

// Now of the virtual clock; every reading is distinct
func Now() time.Time {
	if S == nil {
		gnow++
		return Base.Add(-time.Hour + time.Duration(gnow)*time.Microsecond)
	}
	S.now += 1000
	return Base.Add(time.Duration(S.now))
}

var gnow int64

// Start a timer
func (t *Timer) Start(d time.Duration) {
	s := S
	if s == nil || s.aborting {
		return
	}
	if d < 0 {
		d = 0
	}
	t.At = s.now + int64(d)
	s.tseq++
	t.seq = s.tseq
	if !t.active {
		t.active = true
		s.timers = append(s.timers, t)
	}
}

// Stop a timer
func (t *Timer) Stop() bool {
	s := S
	if s == nil {
		return false
	}
	was := t.active
	s.remove(t)
	return was
}

// Drain the channel (timers of Go 1.23 and later keep no stale value; go.mod
// of the repository predates that, so nothing is drained there)
func (s *Sched) remove(t *Timer) {
	t.active = false
	for i := range s.timers {
		if s.timers[i] == t {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return
		}
	}
}

// maxTicks of periodic timers while nothing else happens
const maxTicks = 40

// fireNext advances the clock to the earliest timer and fires it, with
// all timers of the same moment: what they wake up is in a race
func (s *Sched) fireNext() bool {
	var t *Timer
	for _, x := range s.timers {
		if t == nil || x.At < t.At || x.At == t.At && x.seq < t.seq {
			t = x
		}
	}
	if t == nil {
		return false
	}
	// only periodic timers left: if they fire many times and nothing else
	// becomes possible, then it is a deadlock
	idle := true
	for _, x := range s.timers {
		idle = idle && x.Daemon
	}
	if s.ticks++; !idle {
		s.ticks = 0
	}
	if s.ticks > maxTicks {
		return false
	}
	if t.At > s.now {
		s.now = t.At
	}
	// all timers of this moment
	at := t.At
	var due []*Timer
	for _, x := range s.timers {
		if x.At == at {
			due = append(due, x)
		}
	}
	sort.SliceStable(due, func(i, j int) bool { return due[i].seq < due[j].seq })
	for _, x := range due {
		s.fire(x)
	}
	return true
}

func (s *Sched) fire(t *Timer) {
	if t.Period > 0 {
		t.At += t.Period
		s.tseq++
		t.seq = s.tseq
	} else {
		s.remove(t)
	}
	if t.F != nil {
		s.spawn(t.F, false)
		return
	}
	hc(t.C).trySend(Base.Add(time.Duration(s.now)))
}

// Sleep on the virtual clock
func Sleep(d time.Duration) {
	t := &Timer{C: make(chan time.Time, 1)}
	t.Start(d)
	Recv(t.C)
}

// Elapsed virtual time
func Elapsed() time.Duration { return time.Duration(S.now) }

// PendingTimers on the virtual clock
func PendingTimers() int { return len(S.timers) }
