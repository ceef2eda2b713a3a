package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// cxocli executes a command
func (w *world) cxocli(cmd string) (out, fail string, code int) {
	var o, e bytes.Buffer
	c := exec.Command(os.Getenv("VMC_CXOCLI"), "-a", w.rpc, "-e", cmd)
	c.Stdout, c.Stderr = &o, &e
	c.Env = []string{"HOME=/nonexistent"}
	if err := c.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(20*time.Second, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	return o.String(), e.String(), c.ProcessState.ExitCode()
}

// cliDo does an operation; the result is the one of the local call if the tool succeeds or fails as this
func (w *world) cliDo(o op, addr, pk string) string {
	n := strings.ToLower(netNames[o.t])
	cmd := map[int]string{oShare: "share feed " + pk, oDont: "don't share feed " + pk,
		oConnect: n + " connect " + addr, oDisconnect: n + " disconnect " + addr,
		oSub: n + " subscribe " + addr + " " + pk, oUnsub: n + " unsubscribe " + addr + " " + pk}[o.kind]
	_, fail, code := w.cxocli(cmd)
	if code == 0 && fail == "" {
		return ""
	}
	if code == 0 || fail == "" {
		return fmt.Sprintf("exit code %d, but %q", code, fail)
	}
	return "error: " + w.name(strings.TrimSpace(fail))
}

var hexKey = regexp.MustCompile(`\b[0-9a-f]{66}\b`)

func feedSet(fs []cipher.PubKey) (s []string) {
	for _, f := range fs {
		s = append(s, f.Hex())
	}
	return
}

// lines of output that mention addresses
func withAddr(out string) (s []string) {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "://") {
			s = append(s, strings.TrimSpace(l))
		}
	}
	return
}

func asSet(ss []string) string {
	m := map[string]int{}
	for _, s := range ss {
		m[s]++
	}
	return fmt.Sprint(m)
}

// rootShown: the output tells of the Root
func rootShown(out string, r *registry.Root) bool {
	for _, s := range []string{r.Hash.Hex(), r.Pub.Hex(), r.Sig.Hex(), r.Prev.Hex(), r.Reg.String(), string(r.Descriptor)} {
		if !strings.Contains(out, s) {
			return false
		}
	}
	for _, d := range r.Refs {
		if !strings.Contains(out, d.Short()) {
			return false
		}
	}
	return regexp.MustCompile(fmt.Sprintf(`(?m)\bnonce:?\s+%d$`, r.Nonce)).MatchString(out) &&
		regexp.MustCompile(fmt.Sprintf(`(?m)\bseq:?\s+%d$`, r.Seq)).MatchString(out)
}

// lookCLI compares what the tool shows with the local API
func (w *world) lookCLI() string {
	n := w.n
	get := func(cmd string) (string, string) {
		out, fail, code := w.cxocli(cmd)
		if code != 0 {
			return out, "error: " + w.name(strings.TrimSpace(fail))
		}
		return out, strings.TrimSpace(fail)
	}
	if out, fail := get("list feeds"); fail != "" || asSet(hexKey.FindAllString(out, -1)) != asSet(feedSet(n.Feeds())) {
		return fmt.Sprintf("list feeds: %q %q", out, fail)
	}
	for i, o := range owners {
		out, fail := get("is shareing " + o.pk.Hex())
		yes, no := strings.Contains(out, "yes"), strings.Contains(out, "no")
		if fail != "" || yes == no || yes != n.IsSharing(o.pk) {
			return fmt.Sprintf("is shareing: feed%d: %q %q", i, out, fail)
		}
		var have []string
		for _, c := range n.ConnectionsOfFeed(o.pk) {
			have = append(have, c.String())
		}
		out, fail = get("connections of feed " + o.pk.Hex())
		if fail != "" || asSet(have) != asSet(withAddr(out)) {
			return fmt.Sprintf("connections of feed: feed%d: %q %q, locally %v", i, out, fail, have)
		}
	}
	var out, fail string
	var have []string
	if !await(func() bool {
		have = nil
		for _, x := range n.Connections() {
			have = append(have, x.String()+"(✓)")
		}
		for _, x := range w.mute {
			have = append(have, "↓ "+x.GetLocalAddr().Network()+"://"+x.GetLocalAddr().String()+"(⌛)")
		}
		out, fail = get("connections")
		return fail == "" && asSet(have) == asSet(withAddr(out))
	}) {
		return fmt.Sprintf("connections: %q %q, locally %v", out, fail, have)
	}
	for t, name := range []string{"tcp", "udp"} {
		a := n.TCP().Address()
		if t == 1 {
			a = n.UDP().Address()
		}
		if out, fail = get(name + " address"); fail != "" && a != "" || !strings.Contains(out, a) || a == "" && strings.Contains(out, ":") {
			return fmt.Sprintf("%s address: %q %q, locally %q", name, out, fail, a)
		}
	}
	return ""
}

// commands with every kind of argument, on a node with Root objects
func commands(r *core.R) {
	w := newWorld(true, true)
	w.cli = true
	defer w.close()
	for _, f := range owners {
		if err := w.n.Share(f.pk); err != nil {
			panic(err)
		}
	}
	c := w.n.Container()
	n := 0
	bad := func(key, f string, a ...interface{}) {
		r.Violate("commands: "+key, fmt.Sprintf(f, a...), nil)
	}
	check := func(cmd string, fn func(out, fail string, code int)) {
		n++
		r.Evaluations.Add(1)
		core.Case("cxocli " + cmd)
		before := w.state()
		out, fail, code := w.cxocli(cmd)
		if (code == 0) != (fail == "") || code > 1 || code < 0 {
			bad("exit code", "%s: exit code %d, %q", cmd, code, fail)
		}
		if after := w.state(); after != before {
			bad("effect", "%s: was\n%s\nis\n%s", cmd, before, after)
		}
		fn(out, fail, code)
	}
	for _, s := range sels {
		pk := owners[s.f].pk
		args := fmt.Sprintf("%s %d %d", pk.Hex(), s.nonce, s.seq)
		root, err := c.Root(pk, s.nonce, s.seq)
		check("root info "+args, func(out, fail string, code int) {
			if err != nil && !strings.Contains(fail, err.Error()) || err == nil && (code != 0 || !rootShown(out, root)) {
				bad("root info", "%+v: %q %q, locally %v", s, out, fail, err)
			}
		})
		tree := ""
		if err == nil {
			var p registry.Pack
			if p, err = c.Pack(root, nil); err == nil {
				tree, err = root.Tree(p)
			}
		}
		check("root tree "+args, func(out, fail string, code int) {
			if err != nil && !strings.Contains(fail, err.Error()) || err == nil && (code != 0 || !strings.Contains(out, tree)) {
				bad("root tree", "%+v: %q %q, locally %q %v", s, out, fail, tree, err)
			}
		})
	}
	for i, o := range owners {
		root, err := c.LastRoot(o.pk, c.ActiveHead(o.pk))
		check("last root "+o.pk.Hex(), func(out, fail string, code int) {
			if err != nil && !strings.Contains(fail, err.Error()) || err == nil && (code != 0 || !rootShown(out, root)) {
				bad("last root", "feed%d: %q %q, locally %v", i, out, fail, err)
			}
		})
	}
	check("stat", func(out, fail string, code int) {
		st := w.n.Stat()
		ok := code == 0 && asSet(hexKey.FindAllString(out, -1)) == asSet(feedSet(c.Feeds()))
		for _, fs := range st.Feeds {
			for _, h := range fs.Heads {
				if h.Len > 0 {
					ok = ok && strings.Contains(out, h.Last.Hash.Hex()) && (h.Len == 1 || strings.Contains(out, h.First.Hash.Hex()))
				}
			}
		}
		for name, v := range map[string]string{"amount of all objects": st.AllObjects.Amount.String(), "volume of all objects": st.AllObjects.Volume.String(),
			"amount of used objects": st.UsedObjects.Amount.String(), "volume of used objects": st.UsedObjects.Volume.String()} {
			ok = ok && regexp.MustCompile(name+`:\s+`+regexp.QuoteMeta(v)+`\n`).MatchString(out)
		}
		if !ok {
			bad("stat", "%q %q, locally %+v", out, fail, st.Stat)
		}
	})
	// what isn't a command, or has other arguments, fails and does nothing
	pk, p2 := owners[0].pk.Hex(), owners[2].pk.Hex()
	addr := w.addr(1, 0)
	args := map[string][]string{
		"share feed": {pk}, "don't share feed": {pk}, "is shareing": {pk}, "connections of feed": {pk}, "last root": {p2},
		"tcp connect": {addr}, "tcp disconnect": {addr}, "udp connect": {addr}, "udp disconnect": {addr},
		"tcp subscribe": {addr, pk}, "tcp unsubscribe": {addr, pk}, "udp subscribe": {addr, pk}, "udp unsubscribe": {addr, pk},
		"root info": {p2, "1", "0"}, "root tree": {p2, "1", "0"},
		"list feeds": {}, "tcp address": {}, "udp address": {}, "connections": {}, "stat": {},
	}
	wrong := func(a string) (bs []string) {
		if a == addr {
			return nil
		}
		if len(a) < 5 {
			return []string{"-1", "x", "18446744073709551616", "1.5"}
		}
		return []string{a[:64], a + "00", "zz" + a[2:], a[:65]}
	}
	for cmd, as := range args {
		refused := func(l []string) {
			line := cmd
			if len(l) > 0 {
				line += " " + strings.Join(l, " ")
			}
			check(line, func(out, fail string, code int) {
				if code != 1 || fail == "" {
					bad("wrong arguments accepted", "%s: exit code %d %q %q", line, code, out, fail)
				}
			})
		}
		for i := 0; i < len(as); i++ {
			refused(as[:i]) // missing
			for _, v := range wrong(as[i]) {
				l := append([]string(nil), as...)
				l[i] = v
				refused(l)
			}
		}
		refused(append(append([]string(nil), as...), "more"))
	}
	for _, cmd := range []string{"", " ", "x", "share", "sharefeed " + pk, "tcp", "udp connec " + addr, "root", "quitx", "connections of", "help me more", "tcp subscrib " + addr + " " + pk} {
		if cmd == "" {
			continue // interactive
		}
		check(cmd, func(out, fail string, code int) {
			if code != 1 && !strings.HasPrefix(cmd, "help") && !strings.HasPrefix(cmd, "quit") {
				bad("no such command", "%q: exit code %d %q %q", cmd, code, out, fail)
			}
		})
	}
	for _, cmd := range []string{"help", "quit", "exit"} {
		check(cmd, func(out, fail string, code int) {
			if code != 0 {
				bad(cmd, "%d %q", code, fail)
			}
		})
	}
	r.Validated.Add(int64(n))
	r.Bound("commands: %d command lines of cxocli, with missing, wrong and additional arguments, on a node with three feeds and Root objects", n)
}
