// Checks L01, L02, L03: the logger.
package main

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/skycoin/cxo/node/log"

	"vmc/core"
	"vmc/vsched"
)

func main() {
	if x := os.Getenv("VMC_FATAL"); x != "" {
		fatalChild(x)
		return
	}
	core.Main(map[string]core.Check{
		"L01": {Level: "model_checking", Run: l01, Sharded: true, Quick: 100 * time.Second},
		"L02": {Level: "model_checking", Run: l02},
		"L03": {Level: "model_checking", Run: l03},
	})
}

type rec struct {
	b bytes.Buffer
	n int // writes
}

func (r *rec) Write(p []byte) (int, error) { r.n++; return r.b.Write(p) }

func line(prefix, msg string) string {
	if !strings.HasSuffix(msg, "\n") {
		msg += "\n"
	}
	return prefix + msg
}

type args struct {
	name string
	fmt  string
	a    []interface{}
}

var argSets = []args{
	{"none", "plain", nil},
	{"one", "v=%v", []interface{}{"x"}},
	{"two strings", "%s-%s", []interface{}{"a", "b"}},
	{"ints", "%d %d", []interface{}{1, 2}},
	{"mixed", "%v|%v|%v", []interface{}{1, "s", 2.5}},
	{"percent", "100%% %s", []interface{}{"50%"}},
	{"newline", "line %s\n", []interface{}{"end\n"}},
	{"nil", "%v", []interface{}{nil}},
	{"error", "%v", []interface{}{errors.New("e")}},
	{"slice", "%v", []interface{}{[]int{1, 2}}},
	{"five", "%v %v %v %v %v", []interface{}{1, 2, 3, 4, 5}},
	{"spare capacity", "%v %v", append(make([]interface{}, 0, 8), "p", "q")},
	{"empty string", "%s", []interface{}{""}},
	{"long", "%s", []interface{}{strings.Repeat("long ", 2000)}},
	{"lines", "%s\n%s", []interface{}{"a\nb", "\n"}},
}

type call struct {
	name  string
	debug bool
	panic bool
	do    func(l log.Logger, pin log.Pin, a args) (file string, ln int)
	want  func(a args) string
}

func at() (string, int) {
	_, f, l, _ := runtime.Caller(1)
	return filepath.Base(f), l
}

var calls = []call{
	{"Print", false, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Print(a.a...); return at() }, func(a args) string { return fmt.Sprint(a.a...) }},
	{"Println", false, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Println(a.a...); return at() }, func(a args) string { return fmt.Sprintln(a.a...) }},
	{"Printf", false, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Printf(a.fmt, a.a...); return at() }, func(a args) string { return fmt.Sprintf(a.fmt, a.a...) }},
	{"Debug", true, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Debug(p, a.a...); return at() }, func(a args) string { return "[DBG] " + fmt.Sprint(a.a...) }},
	{"Debugln", true, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Debugln(p, a.a...); return at() }, func(a args) string { return "[DBG] " + fmt.Sprintln(a.a...) }},
	{"Debugf", true, false, func(l log.Logger, p log.Pin, a args) (string, int) { l.Debugf(p, a.fmt, a.a...); return at() }, func(a args) string { return "[DBG] " + fmt.Sprintf(a.fmt, a.a...) }},
	{"Panic", false, true, func(l log.Logger, p log.Pin, a args) (string, int) { l.Panic(a.a...); return at() }, func(a args) string { return fmt.Sprint(a.a...) }},
	{"Panicln", false, true, func(l log.Logger, p log.Pin, a args) (string, int) { l.Panicln(a.a...); return at() }, func(a args) string { return fmt.Sprintln(a.a...) }},
	{"Panicf", false, true, func(l log.Logger, p log.Pin, a args) (string, int) { l.Panicf(a.fmt, a.a...); return at() }, func(a args) string { return fmt.Sprintf(a.fmt, a.a...) }},
}

// trimmed equality for the empty Debugln: "[DBG] \n" and "[DBG]\n" say the same
func same(got, want string) bool {
	norm := func(s string) string {
		ls := strings.Split(s, "\n")
		for i := range ls {
			ls[i] = strings.TrimRight(ls[i], " ")
		}
		return strings.Join(ls, "\n")
	}
	return norm(got) == norm(want)
}

func l01(r *core.R) {
	r.Rule("a case is (configuration, logger reconfiguration history, call kind, pin, arguments); the bytes written are compared with what the standard formatting gives, or with nothing if gated")
	pins := []log.Pin{0, 1, 2, 3, 4, 1 << 20, 1 << 63, log.All, log.All &^ 1}
	if r.Thorough() {
		for i := uint(0); i < 64; i++ {
			pins = append(pins, 1<<i, log.All&^(1<<i))
		}
	}
	prefixes := []string{"", "[node] ", "p%d:"}
	type job struct {
		debug bool
		conf  log.Pin
		pref  string
	}
	var jobs []job
	for _, d := range []bool{false, true} {
		for _, c := range pins {
			for _, p := range prefixes {
				jobs = append(jobs, job{d, c, p})
			}
		}
	}
	flags := []int{0, stdlog.Lshortfile, stdlog.Lmsgprefix, -1}
	each := func(f func(i int)) {
		for i := r.Shard; i < len(jobs) && !r.Full(); i += r.Shards {
			f(i)
		}
	}
	each(func(i int) {
		j := jobs[i]
		argSets := append([]args(nil), argSets...)
		for k := range argSets {
			c := make([]interface{}, len(argSets[k].a), cap(argSets[k].a))
			copy(c, argSets[k].a)
			argSets[k].a = c
		}
		for _, fl := range flags {
			w := new(rec)
			c := log.NewConfig()
			c.Prefix, c.Debug, c.Pins, c.Output = j.pref, j.debug, j.conf, w
			l := log.NewLogger(c)
			wantPins := j.conf
			if !j.debug {
				wantPins = log.No
			}
			if l.Pins() != wantPins {
				r.Violate(fmt.Sprintf("Pins debug=%v conf=%x", j.debug, uint(j.conf)), fmt.Sprintf("Pins() = %x", uint(l.Pins())), nil)
			}
			if fl >= 0 {
				l.SetFlags(fl)
			}
			for _, pin := range pins {
				for _, cl := range calls {
					if !cl.debug && pin != 0 {
						continue
					}
					for _, a := range argSets {
						w.b.Reset()
						w.n = 0
						key := fmt.Sprintf("debug=%v conf=%x prefix=%q flags=%d %s pin=%x args=%s", j.debug, uint(j.conf), j.pref, fl, cl.name, uint(pin), a.name)
						var file string
						var ln int
						p := core.Catch(func() { file, ln = cl.do(l, pin, a) })
						r.Evaluations.Add(1)
						r.Transitions.Add(1)
						r.Validated.Add(1)
						if full := a.a[:cap(a.a)]; a.name == "spare capacity" && (len(full) != 8 || full[0] != "p" || full[1] != "q" || full[2] != nil || full[3] != nil) {
							r.Violate(key, fmt.Sprintf("the caller's arguments were changed to %v", full), nil)
						}
						if (p != "") != cl.panic {
							r.Violate(key, "panic expected: "+fmt.Sprint(cl.panic)+" got: "+p, nil)
							continue
						}
						shown := !cl.debug || (j.debug && j.conf&pin != 0)
						got := w.b.String()
						if !shown {
							if got != "" {
								r.Violate(key, fmt.Sprintf("a gated message was written: %q", got), nil)
							}
							r.Outcome("gated")
							continue
						}
						msg := cl.want(a)
						if w.n != 1 {
							r.Violate(key, fmt.Sprintf("%d writes instead of one: %q", w.n, got), nil)
							continue
						}
						ok := false
						want := ""
						switch fl {
						case 0:
							want = line(j.pref, msg)
							ok = same(got, want)
						case stdlog.Lmsgprefix:
							want = line(j.pref, msg)
							ok = same(got, want)
						case stdlog.Lshortfile:
							if cl.panic { // the call does not return its position
								re := regexp.MustCompile(`^` + regexp.QuoteMeta(j.pref) + `main\.go:\d+: `)
								loc := re.FindString(got)
								want = loc + line("", msg)
							} else {
								want = line(fmt.Sprintf("%s%s:%d: ", j.pref, file, ln), msg)
							}
							ok = same(got, want)
						case -1: // defaults: time and short file
							re := regexp.MustCompile(`^` + regexp.QuoteMeta(j.pref) + `\d\d:\d\d:\d\d main\.go:\d+: `)
							loc := re.FindString(got)
							want = "<prefix time file:line: >" + line("", msg)
							ok = loc != "" && same(got[len(loc):], line("", msg))
						}
						if !ok {
							r.Violate(key, fmt.Sprintf("written %q, want %q", got, want), nil)
						}
						r.Outcome(msg)
					}
				}
			}
			r.States.Add(1)
		}
	})
	concurrent(r)
	if r.Shard != 0 {
		return
	}
	r.Sample("debug=true conf=3 prefix=\"[node] \" Debugf pin=2 args=mixed")
	r.Bound("all of %d configurations x %d flag settings x %d pins x %d call kinds x %d argument shapes", len(jobs), len(flags), len(pins), len(calls), len(argSets))
	long(r)
	position(r)
	// reconfiguration histories
	ops := []string{"prefix A", "prefix B", "output 1", "output 2", "flags 0", "flags msgprefix", "Print", "Debug shown", "Debug hidden", "Error"}
	r.DFS("reconfiguration", ops, r.Pick(4, 5), func(h []int) core.Step {
		o := [2]*rec{{}, {}}
		c := log.NewConfig()
		c.Prefix, c.Debug, c.Pins, c.Output = "0:", true, 2, o[0]
		l := log.NewLogger(c)
		l.SetFlags(0)
		var want [2]string
		pref, cur := "0:", 0
		for _, x := range h {
			switch x {
			case 0, 1:
				pref = string(rune('A'+x)) + ":"
				l.SetPrefix(pref)
			case 2, 3:
				cur = x - 2
				l.SetOutput(o[cur])
			case 4:
				l.SetFlags(0)
			case 5:
				l.SetFlags(stdlog.Lmsgprefix)
			case 6:
				l.Print("m")
				want[cur] += pref + "m\n"
			case 7:
				l.Debug(3, "m")
				want[cur] += pref + "[DBG] m\n"
			case 8:
				l.Debug(5, "m")
			case 9:
				l.Error(errors.New("e"), "m")
				want[cur] += pref + "*\n"
			}
		}
		r.Validated.Add(1)
		for i := range o {
			g := regexp.MustCompile(`(?m)^(.:)\[ERR\].*$`).ReplaceAllString(o[i].b.String(), "$1*")
			g = regexp.MustCompile(`(?m)^(.:)\[\[ERR\].*$`).ReplaceAllString(g, "$1*")
			if g != want[i] {
				return core.Step{Bad: fmt.Sprintf("output %d holds %q, want %q", i, g, want[i])}
			}
		}
		return core.Step{Canon: fmt.Sprint(pref, cur, want)}
	})
	// two loggers do not influence each other
	ops2 := []string{"a.prefix", "b.prefix", "a.Print", "b.Print", "a.Debug", "b.Debug", "a.Error", "a.output", "new a with debug off", "new b with debug on"}
	r.DFS("two loggers", ops2, r.Pick(4, 5), func(h []int) core.Step {
		var o [2]*rec
		var l [2]log.Logger
		var pref [2]string
		var dbg [2]bool
		var want [2]string
		mk := func(i int, d bool) {
			if o[i] == nil {
				o[i] = &rec{}
			}
			c := log.NewConfig()
			c.Prefix, c.Debug, c.Output = fmt.Sprint(i, ":"), d, o[i]
			l[i] = log.NewLogger(c)
			l[i].SetFlags(0)
			pref[i], dbg[i] = c.Prefix, d
		}
		mk(0, true)
		mk(1, false)
		for _, x := range h {
			switch x {
			case 0, 1:
				pref[x] += "!"
				l[x].SetPrefix(pref[x])
			case 2, 3:
				l[x-2].Print("m")
				want[x-2] += pref[x-2] + "m\n"
			case 4, 5:
				l[x-4].Debugf(1, "m")
				if dbg[x-4] {
					want[x-4] += pref[x-4] + "[DBG] m\n"
				}
			case 6:
				l[0].Errorln(errors.New("e"), "m")
				want[0] += pref[0] + "*\n"
			case 7:
				want[0] = ""
				o[0] = &rec{}
				l[0].SetOutput(o[0])
			case 8:
				mk(0, false)
			case 9:
				mk(1, true)
			}
		}
		r.Validated.Add(1)
		for i := range o {
			g := regexp.MustCompile(`(?m)\[ERR\].*$`).ReplaceAllString(o[i].b.String(), "*")
			if g != want[i] {
				return core.Step{Bad: fmt.Sprintf("logger %d wrote %q, want %q", i, g, want[i])}
			}
		}
		return core.Step{Canon: fmt.Sprint(pref, dbg, want)}
	})
	// defaults
	c := log.NewConfig()
	if c.Debug || c.Pins != log.All || c.Prefix != "" || c.Output != nil && c.Output != io.Writer(os.Stderr) {
		r.Violate("NewConfig", fmt.Sprintf("%+v", c), nil)
	}
	// fatal variants, in a child process
	for _, dbg := range []string{"on", "off"} {
		for _, k := range []string{"Fatal", "Fatalln", "Fatalf"} {
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "VMC_FATAL="+k+" "+dbg)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			err := cmd.Run()
			r.Evaluations.Add(1)
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 || eb.String() != "F:bye 7\n" {
				r.Violate(k+" debug "+dbg, fmt.Sprintf("ended with %v, wrote %q", err, eb.String()), nil)
			}
		}
	}
}

// long: thousands of messages, many of them equal, through one logger
func long(r *core.R) {
	for _, n := range []int{1, 7, 100} { // so many equal ones in a row
		w := new(rec)
		c := log.NewConfig()
		c.Prefix, c.Debug, c.Pins, c.Output = "P:", true, 1, w
		l := log.NewLogger(c)
		l.SetFlags(0)
		for i := 0; i < r.Pick(6000, 100000); i++ {
			w.b.Reset()
			w.n = 0
			k := i / n
			var want string
			switch m := fmt.Sprint("m", k%50); k % 8 {
			case 0:
				l.Print(m)
				want = m
			case 1:
				l.Println(m)
				want = m
			case 2:
				l.Printf("%s", m)
				want = m
			case 3:
				l.Debug(1, m)
				want = "[DBG] " + m
			case 4:
				l.Debugln(3, m)
				want = "[DBG] " + m
			case 5:
				l.Debugf(1, "%s", m)
				want = "[DBG] " + m
			case 6:
				l.Debug(2, m)
				w.n++
			case 7:
				l.Error(errors.New("e"), m)
				if !strings.HasPrefix(w.b.String(), "P:[ERR]") || !strings.HasSuffix(w.b.String(), m+"\n") {
					want = "error"
				}
			}
			r.Evaluations.Add(1)
			if want != "" {
				want = "P:" + want + "\n"
			}
			if k%8 == 7 && want == "" {
				want = w.b.String()
			}
			if w.n != 1 || w.b.String() != want {
				r.Violate(fmt.Sprintf("long history, %d equal in a row", n), fmt.Sprintf("message %d: written %q (%d writes), want %q", i, w.b.String(), w.n, want), nil)
				break
			}
		}
	}
	r.Bound("%d messages of every kind through one logger, each repeated 1, 7 or 100 times", r.Pick(6000, 100000))
}

// position: error reports have the position of the caller, as other messages
func position(r *core.R) {
	for _, a := range argSets {
		for v, name := range []string{"Error", "Errorln", "Errorf"} {
			w := new(rec)
			c := log.NewConfig()
			c.Prefix, c.Output = "P:", w
			l := log.NewLogger(c)
			var first string
			for again := 0; again < 3; again++ {
				w.b.Reset()
				w.n = 0
				l.SetFlags(again % 2 * stdlog.Lshortfile)
				var file string
				var ln int
				err := errors.New("e")
				switch v {
				case 0:
					func() { l.Error(err, a.a...); file, ln = at() }()
				case 1:
					func() { l.Errorln(err, a.a...); file, ln = at() }()
				case 2:
					func() { l.Errorf(err, a.fmt, a.a...); file, ln = at() }()
				}
				r.Evaluations.Add(1)
				got := w.b.String()
				if again == 0 {
					first = strings.TrimPrefix(got, "P:")
				}
				loc := "P:"
				if again == 1 {
					loc = fmt.Sprintf("P:%s:%d: ", file, ln)
				}
				if w.n != 1 || got != loc+first {
					r.Violate(name+" with position, args="+a.name, fmt.Sprintf("written %q (%d writes), want %q with %q", got, w.n, first, loc), nil)
					break
				}
			}
		}
	}
}

// concurrent: simultaneous calls, every schedule within a bound
func concurrent(r *core.R) {
	cs := []struct {
		name string
		do   func(l log.Logger, m string)
		want string
	}{
		{"Print", func(l log.Logger, m string) { l.Print(m) }, "%s"},
		{"Debug", func(l log.Logger, m string) { l.Debug(1, m) }, "[DBG] %s"},
		{"Debugln", func(l log.Logger, m string) { l.Debugln(1, m) }, "[DBG] %s"},
		{"Debugf", func(l log.Logger, m string) { l.Debugf(1, "%s", m) }, "[DBG] %s"},
		{"hidden Debug", func(l log.Logger, m string) { l.Debug(2, m) }, ""},
		{"Error", func(l log.Logger, m string) { l.Error(errors.New("e"), m) }, "[ERR]*%s"},
		{"Errorln", func(l log.Logger, m string) { l.Errorln(errors.New("e"), m) }, "[ERR]*%s"},
		{"Errorf", func(l log.Logger, m string) { l.Errorf(errors.New("e"), "%s", m) }, "[ERR]*%s"},
	}
	for i := range cs {
		for j := i; j < len(cs); j++ {
			two := [2]int{i, j}
			r.Explore(core.Scenario{
				Name:  fmt.Sprintf("%s and %s at once", cs[i].name, cs[j].name),
				Bound: r.Pick(4, 6), Secs: time.Duration(r.Pick(2, 20)) * time.Second,
				Opts: vsched.Opts{Race: true, MaxSteps: 20000},
				Setup: func() (func(), func() (string, string, string)) {
					w := new(rec)
					return func() {
							c := log.NewConfig()
							c.Prefix, c.Debug, c.Pins, c.Output = "P:", true, 1, w
							l := log.NewLogger(c)
							l.SetFlags(0)
							left := 2
							for g, k := range two {
								vsched.Go(func() {
									for n := 0; n < 2; n++ {
										cs[k].do(l, fmt.Sprintf("m%d%d", g, n))
									}
									left--
								})
							}
							vsched.Block("join", func() bool { return left == 0 })
						}, func() (string, string, string) {
							var got [2][]string
							bad := ""
							for _, ln := range strings.Split(strings.TrimSuffix(w.b.String(), "\n"), "\n") {
								ln = strings.TrimPrefix(ln, "P:")
								if k := strings.LastIndex(ln, "m"); k >= 0 && strings.HasPrefix(ln, "[ERR]") {
									ln = "[ERR]*" + ln[k:]
								}
								if len(ln) >= 2 && (ln[len(ln)-2] == '0' || ln[len(ln)-2] == '1') {
									g := ln[len(ln)-2] - '0'
									got[g] = append(got[g], ln)
								} else if ln != "" {
									bad = fmt.Sprintf("unexpected line %q", ln)
								}
							}
							n := 0
							for g, k := range two {
								var want []string
								if cs[k].want != "" {
									want = []string{fmt.Sprintf(cs[k].want, fmt.Sprintf("m%d0", g)), fmt.Sprintf(cs[k].want, fmt.Sprintf("m%d1", g))}
								}
								n += len(want)
								if fmt.Sprint(got[g]) != fmt.Sprint(want) {
									bad = fmt.Sprintf("wrote %q, want %q", got[g], want)
								}
							}
							if bad == "" && w.n != n {
								bad = fmt.Sprintf("%d writes, want %d", w.n, n)
							}
							if bad != "" {
								return "messages", bad, ""
							}
							return "", "", w.b.String()
						}
				},
			})
		}
	}
}

func fatalChild(x string) {
	c := log.NewConfig() // default output
	c.Prefix = "F:"
	c.Debug = strings.HasSuffix(x, "on")
	l := log.NewLogger(c)
	l.SetFlags(0)
	switch strings.Fields(x)[0] {
	case "Fatal":
		l.Fatal("bye ", 7)
	case "Fatalln":
		l.Fatalln("bye", 7)
	case "Fatalf":
		l.Fatalf("bye %d", 7)
	}
}

func l02(r *core.R) {
	r.Rule("a case is (error text, call variant, message, debug and pins setting); the single line written must hold the tag, the error text verbatim and the formatted message, in this order")
	alpha := []string{"e", "%", "d", "s", " ", "\n", "!", "%!"}
	var texts []string
	core.Seqs(len(alpha), 0, r.Pick(4, 5), func(h []int) bool {
		s := ""
		for _, x := range h {
			s += alpha[x]
		}
		texts = append(texts, s)
		return true
	})
	texts = append(texts, "%s%d%v%%", "100% sure", "%[1]d", "%[3]*.[2]*[1]f", "[x]", "日本", strings.Repeat("x", 5000))
	var typedNil *ptrErr
	kinds := []error{io.EOF, os.ErrNotExist, io.ErrUnexpectedEOF, context.Canceled, fmt.Errorf("outer: %w", io.EOF), fmt.Errorf("%w", errors.New("inner")),
		errors.Join(errors.New("a"), errors.New("b")), &os.PathError{Op: "open", Path: "x%y", Err: os.ErrPermission}, typedNil, &ptrErr{"%d"}, valErr{"v"}, numErr(3),
		strErr{"text"}, wrapErr{errors.New("hidden")}, sliceErr{"a", "b"}, errors.New("")}
	r.Parallel(len(texts)+1+len(kinds), func(i int) {
		var err error
		text := ""
		if i < len(texts) {
			text = texts[i]
			err = errors.New(text)
		} else if i > len(texts) {
			err = kinds[i-len(texts)-1]
			text = err.Error()
		}
		for _, dbg := range []bool{false, true} {
			for _, a := range argSets {
				if a.name == "spare capacity" {
					a.a = append(make([]interface{}, 0, 8), "p", "q")
				}
				for v, name := range []string{"Error", "Errorln", "Errorf"} {
					w := new(rec)
					c := log.NewConfig()
					c.Prefix, c.Debug, c.Output = "P:", dbg, w
					l := log.NewLogger(c)
					l.SetFlags(0)
					msgs := []string{}
					p := core.Catch(func() {
						switch v {
						case 0:
							l.Error(err, a.a...)
							msgs = append(msgs, fmt.Sprint(a.a...))
						case 1:
							l.Errorln(err, a.a...)
							s := fmt.Sprintln(a.a...)
							msgs = append(msgs, s[:len(s)-1], fmt.Sprint(a.a...))
						case 2:
							l.Errorf(err, a.fmt, a.a...)
							msgs = append(msgs, fmt.Sprintf(a.fmt, a.a...))
						}
					})
					r.Evaluations.Add(1)
					r.Transitions.Add(1)
					r.States.Add(1)
					r.Validated.Add(1)
					got := w.b.String()
					if a.name == "spare capacity" && (a.a[0] != "p" || a.a[1] != "q" || a.a[:8][2] != nil || a.a[:8][3] != nil) {
						r.Violate(name+" arguments", fmt.Sprintf("the caller's arguments were changed to %v", a.a[:8]), nil)
					}
					key := fmt.Sprintf("%s err=%q args=%s", name, text, a.name)
					if i == len(texts) {
						key = fmt.Sprintf("%s err=nil args=%s", name, a.name)
					}
					if p != "" {
						r.Violate(key, p, nil)
						continue
					}
					r.Outcome(got)
					if w.n != 1 {
						r.Violate(key, fmt.Sprintf("%d writes: %q", w.n, got), nil)
						continue
					}
					ok := false
					for _, m := range msgs {
						ok = ok || shape(got, text, m)
					}
					if !ok {
						r.Violate(key, fmt.Sprintf("written %q, want tag, error text and %q", got, msgs), nil)
					}
				}
			}
		}
	})
	r.Bound("%d error texts (all strings of up to %d symbols over %q, special ones and kinds of errors; and nil) x 2 x %d argument shapes x 3 variants", len(texts)+1+len(kinds), r.Pick(4, 5), alpha, len(argSets))
	r.Sample("Errorf err=%q args=mixed", texts[len(texts)/2])
}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.s
}

type valErr struct{ s string }

func (e valErr) Error() string { return e.s + "!" }

type numErr int

func (e numErr) Error() string { return fmt.Sprintf("number %d", int(e)) }

type strErr struct{ s string }

func (e strErr) Error() string  { return "error " + e.s }
func (e strErr) String() string { return "string " + e.s }

type wrapErr struct{ in error }

func (e wrapErr) Error() string { return "other text" }
func (e wrapErr) Unwrap() error { return e.in }

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ",") }

// shape: "P:" "[ERR]" ... text ... message "\n", with only separators between
// (blanks, punctuation, a label such as err=)
func shape(got, text, msg string) bool {
	got = strings.TrimRight(got, " \n")
	msg = strings.TrimRight(msg, " \n")
	const head = "P:[ERR]"
	if !strings.HasPrefix(got, head) || !strings.HasSuffix(got, msg) {
		return false
	}
	if len(got) < len(head)+len(msg) {
		return false
	}
	mid := got[len(head) : len(got)-len(msg)]
	// a trailing blank or line end of the text may have been trimmed with an empty message
	for _, t := range []string{text, strings.TrimRight(text, " \n")} {
		if t != text && msg != "" {
			continue
		}
		i := strings.Index(mid, t)
		for i >= 0 {
			if sep(mid[:i]) && sep(mid[i+len(t):]) {
				return true
			}
			k := strings.Index(mid[i+1:], t)
			if k < 0 || t == "" {
				break
			}
			i += 1 + k
		}
		// the nil error has no text of its own
		if text == "" && len(mid) < 40 {
			return true
		}
	}
	return false
}

func sep(s string) bool { return len(s) <= 8 && !strings.ContainsAny(s, "%\n") }

func l03(r *core.R) {
	r.Rule("a case is (initial configuration, command line); the parsed configuration is compared with the values given, and a logger made from it is exercised")
	inits := []log.Config{log.NewConfig(), {Prefix: "i ", Debug: true, Pins: 6}, {Prefix: "", Debug: false, Pins: log.No}, {Prefix: "100%d\n", Debug: true, Pins: 1<<40 | 3}}
	type fl struct {
		arg  string
		set  func(c *log.Config)
		kind int
	}
	fls := []fl{
		{"-log-prefix=[x] ", func(c *log.Config) { c.Prefix = "[x] " }, 0},
		{"-log-prefix=", func(c *log.Config) { c.Prefix = "" }, 0},
		{"-debug", func(c *log.Config) { c.Debug = true }, 1},
		{"-debug=false", func(c *log.Config) { c.Debug = false }, 1},
		{"-debug-pins=0", func(c *log.Config) { c.Pins = 0 }, 2},
		{"-debug-pins=1", func(c *log.Config) { c.Pins = 1 }, 2},
		{"-debug-pins=5", func(c *log.Config) { c.Pins = 5 }, 2},
		{"-debug-pins=18446744073709551615", func(c *log.Config) { c.Pins = log.All }, 2},
	}
	old := flag.CommandLine
	oldArgs := os.Args
	defer func() { flag.CommandLine = old; os.Args = oldArgs }()
	for ii, ini := range inits {
		ii, ini := ii, ini
		core.Seqs(len(fls), 0, r.Pick(3, 4), func(h []int) bool {
			flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
			flag.CommandLine.SetOutput(io.Discard)
			c := ini
			want := ini
			var argv []string
			for _, x := range h {
				argv = append(argv, fls[x].arg)
				fls[x].set(&want)
			}
			key := fmt.Sprintf("init %d args %q", ii, argv)
			var err error
			p := core.Catch(func() {
				c.FromFlags()
				os.Args = append([]string{"x"}, argv...)
				err = flag.CommandLine.Parse(argv)
			})
			r.Evaluations.Add(1)
			r.States.Add(1)
			r.Transitions.Add(int64(len(h)))
			r.Validated.Add(1)
			if p != "" || err != nil {
				r.Violate(key, fmt.Sprint(p, err), nil)
				return !r.Full()
			}
			okPins := c.Pins == want.Pins || (!want.Debug && c.Pins == log.No)
			if c.Prefix != want.Prefix || c.Debug != want.Debug || !okPins {
				r.Violate(key, fmt.Sprintf("parsed %+v, want %+v", c, want), nil)
				return !r.Full()
			}
			w := new(rec)
			c.Output = w
			l := log.NewLogger(c)
			l.SetFlags(0)
			ws := ""
			for _, pin := range []log.Pin{1, 2, 4, log.All} {
				l.Debug(pin, "m")
				if want.Debug && pin&want.Pins != 0 {
					ws += want.Prefix + "[DBG] m\n"
				}
			}
			if w.b.String() != ws {
				r.Violate(key, fmt.Sprintf("logger wrote %q, want %q", w.b.String(), ws), nil)
			}
			r.Outcome(fmt.Sprintf("%+v", want))
			if len(h) == 2 {
				r.Sample("%s", key)
			}
			return !r.Full()
		})
	}
	r.Bound("every command line of up to %d of %d flag settings from %d initial configurations", r.Pick(3, 4), len(fls), len(inits))
}
