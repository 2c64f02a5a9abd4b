package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// Calls that follow one another or run side by side.

var callTexts = []string{
	"a = 1\n",
	"b = x\n",
	"a = \"s\"\n",
	"a = 'p${x}\\n%{y}'\n",
	"a = <<EOF\none ${x}\nEOF\n",
	"a = <<-X\nEOF\nX\n",
	"a = -x * 2 + f(1, y).z[3] ? p : q\n",
	"a = [1, x, [2]]\n",
	"a = {k: 1, \"l\" = x}\n",
	"// c\na = 1 // d\n/* e */\n",
	"b \"l\" m {\n\tk = 1\n\n\tc {\n\t\t// x\n\t}\n}\n",
	"def f(x: int) -> t {\n\tval y = x\n\ty\n}\n",
	"type t object {\n\ta: int = 1\n}\n",
	"type e enum {\n\tA: 1\n\tB: 2\n}\n",
	"input i: (x, y) -> z = 0x1F\n",
	"a = if x { 1 } else { 2.5 }\n",
	"a = switch x { case 1, 2: { y } default: { null } }\n",
	"a = 1\r\n\r\nb = true\n",
	"",
	"\n\n",
	// Not programs.
	"a = = 1\n",
	"a = \"open",
	"a = <<EOF\nopen",
	"a = 1 )",
	"b {",
	"é = 1",
	"a = \"${\"",
	"a = \"\\u12\"",
	// Odd sizes.
	"a = 123456789012345678901234567890\n",
	"a = 0.1\n",
	"long_name.of.many.parts = 1\n",
}

const (
	callParse = iota
	callReader
	callBytes
	callFormat
	callScramble
	callClone
	callKinds
	// Of a tree that several goroutines share.
	callSharedFormat = iota
	callSharedClone
	callSharedWalk
	callSharedString
)

// A call is a kind of call on a text.
type call struct{ kind, text int }

func (x call) String() string { return fmt.Sprintf("%d:%d", x.kind, x.text) }

func callsOf(s string) []call {
	var out []call
	for _, f := range strings.Split(s, ".") {
		k, t, _ := strings.Cut(f, ":")
		x := call{}
		x.kind, _ = strconv.Atoi(k)
		x.text, _ = strconv.Atoi(t)
		out = append(out, x)
	}
	return out
}

func callList(xs []call) string {
	var out []string
	for _, x := range xs {
		out = append(out, x.String())
	}
	return strings.Join(out, ".")
}

func describeCalls(xs []call) string {
	names := []string{"ParseString", "Parse", "ParseBytes", "parse and format", "parse and overwrite", "clone and overwrite", "", "format the shared tree", "clone the shared tree", "walk the shared tree", "format the parts of the shared tree"}
	var out []string
	for _, x := range xs {
		out = append(out, fmt.Sprintf("%s %q", names[x.kind], callTexts[x.text]))
	}
	if len(out) > 4 {
		out = append([]string{"..."}, out[len(out)-4:]...)
	}
	return strings.Join(out, ", ")
}

func formatOf(a *etx.AST) string {
	s := ""
	if err := guard(func() { s = a.FormattedString() }); err != nil {
		return fmt.Sprintf("panic: %v", err)
	}
	return s
}

// do makes a call and writes down what it gave.
func (x call) do(shared *etx.AST) string {
	src := callTexts[x.text]
	switch x.kind {
	case callParse:
		return outcome(etx.ParseString(src))
	case callReader:
		return outcome(etx.Parse(strings.NewReader(src)))
	case callBytes:
		return outcome(etx.ParseBytes([]byte(src)))
	case callFormat:
		a, err := etx.ParseString(src)
		if err != nil {
			return outcome(a, err)
		}
		first := formatOf(a)
		return first + "\x00" + formatOf(a)
	case callScramble:
		a, err := etx.ParseString(src)
		s := outcome(a, err)
		if a != nil {
			scramble(reflect.ValueOf(a))
		}
		return s
	case callClone:
		a, err := etx.ParseString(src)
		if err != nil {
			return outcome(a, err)
		}
		c := a.Clone()
		s := formatOf(c)
		scramble(reflect.ValueOf(c))
		return s + "\x00" + dump(a)
	case callSharedFormat:
		return formatOf(shared)
	case callSharedClone:
		return dump(shared.Clone())
	case callSharedWalk:
		n := 0
		var walk func(x etx.Node)
		walk = func(x etx.Node) {
			n++
			for _, c := range x.Children() {
				if c != nil && !reflect.ValueOf(c).IsNil() {
					walk(c)
				}
			}
		}
		for _, c := range shared.Children() {
			walk(c)
		}
		return fmt.Sprint(n, " nodes")
	case callSharedString:
		s := ""
		nodes(reflect.ValueOf(shared), func(v reflect.Value) {
			if m, ok := v.Addr().Interface().(etx.FormattedStringer); ok {
				_ = guard(func() { s += m.FormattedString() + "\x00" })
			}
		})
		return s
	}
	panic("unknown call")
}

func sum(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

// Every call on its own, in a process of its own.

var baselines = map[call]string{}

func baseline(x call) string {
	if s, ok := baselines[x]; ok {
		return s
	}
	s, err := child("ETX_CALL=" + x.String())
	if err != nil {
		s = "the process died: " + s
	}
	baselines[x] = s
	return s
}

func child(env string) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), env, "GOMEMLIMIT=2GiB", "GOGC=800", "GOMAXPROCS=2")
	var out bytes.Buffer
	cmd.Stdout = &out
	err = cmd.Run()
	return strings.TrimSpace(out.String()), err
}

// childMain is what such a process does.
func childMain() {
	mc.NoMemo = os.Getenv("ETX_CALL") != "" || os.Getenv("ETX_HISTORY") != ""
	if s := os.Getenv("ETX_CALL"); s != "" {
		fmt.Println(sum(callsOf(s)[0].do(nil)))
		os.Exit(0)
	}
	if s := os.Getenv("ETX_HISTORY"); s != "" {
		list, sums, _ := strings.Cut(s, " ")
		want := strings.Split(sums, ".")
		for i, x := range callsOf(list) {
			if got := sum(x.do(nil)); got != want[i] {
				fmt.Println(i)
				os.Exit(0)
			}
		}
		fmt.Println("ok")
		os.Exit(0)
	}
}

// history decides "history CALLS": every call gives what it gives alone.
func history(desc string) string {
	xs := callsOf(strings.TrimPrefix(desc, "history "))
	var want []string
	for _, x := range xs {
		want = append(want, baseline(x))
	}
	out, err := child("ETX_HISTORY=" + callList(xs) + " " + strings.Join(want, "."))
	if err != nil {
		return "the process died: " + out
	}
	if out == "ok" {
		return ""
	}
	i, err := strconv.Atoi(out)
	if err != nil {
		return "no answer: " + out
	}
	return fmt.Sprintf("after %d calls, the last ones %s, %s gives another result than on its own", i, describeCalls(xs[:i]), describeCalls(xs[i:i+1]))
}

// longHistory decides "long STYLE": all small programs one after another, then
// again from the last to the first, then each twice: always the same.
func longHistory(desc string, beat func()) string {
	style, err := strconv.Atoi(strings.TrimPrefix(desc, "long "))
	if err != nil {
		return err.Error()
	}
	var srcs []string
	for _, first := range append(roots(), holes()...) {
		mc.Explore(1, func() bool { return false }, func(ch *mc.Chooser) bool {
			g := &gen{c: ch}
			tree := g.tree(first)
			if g.skip != "" {
				return true
			}
			e := &emitter{}
			e.ast(tree)
			if t := layOut(e.items, styles[style], nil); t.skip == "" && len(t.src) < 4000 {
				srcs = append(srcs, t.src)
			}
			return true
		})
	}
	give := func(src string) string {
		beat()
		a, err := parse(src)
		s := outcome(a, err)
		if err == nil {
			s += "\x00" + formatOf(a)
		}
		return sum(s)
	}
	first := make([]string, len(srcs))
	for i, src := range srcs {
		first[i] = give(src)
	}
	for round := 0; round < 2; round++ {
		for i := len(srcs) - 1; i >= 0; i-- {
			for k := 0; k <= round; k++ {
				if got := give(srcs[i]); got != first[i] {
					return fmt.Sprintf("after %d other calls, parsing and formatting give another result\nsource:\n%s", len(srcs), srcs[i])
				}
			}
		}
	}
	return ""
}

// Calls side by side.

// siteVisits is how often each call can be preempted at the same statement.
var siteVisits = 8

type together struct {
	calls  []call
	shared int // text of the shared tree, or -1
	want   []string
	before string
}

func newTogether(calls []call) *together {
	t := &together{calls: calls, shared: -1}
	for _, x := range calls {
		var tree *etx.AST
		if x.kind > callKinds {
			t.shared = x.text
			tree, _ = etx.ParseString(callTexts[x.text])
			t.before = dump(tree)
		}
		t.want = append(t.want, x.do(tree))
	}
	return t
}

// run makes the calls under the scheduler.
func (t *together) run(ch *mc.Chooser) (*mc.Sched, string) {
	got := make([]string, len(t.calls))
	var tree *etx.AST
	if t.shared >= 0 {
		tree, _ = etx.ParseString(callTexts[t.shared])
	}
	s := mc.Run(ch, 3000000, func() {
		for i, x := range t.calls {
			i, x := i, x
			mc.Go(func() { got[i] = x.do(tree) })
		}
	})
	switch {
	case s.Panic != "":
		return s, s.Panic
	case s.Race != "":
		return s, s.Race
	case s.Horizon:
		return s, "no end after 3000000 steps"
	case s.Deadlock:
		return s, "deadlock"
	}
	for i := range got {
		if got[i] != t.want[i] {
			return s, fmt.Sprintf("%s at the same time as the others gives another result than on its own: %s", describeCalls(t.calls[i:i+1]), around(t.want[i], got[i]))
		}
	}
	if tree != nil {
		if d := dump(tree); d != t.before {
			return s, "the shared tree changed: " + around(t.before, d)
		}
	}
	return s, ""
}

// sideBySide decides "interVISITS CALLS PICKS".
func sideBySide(desc string) string {
	f := strings.Split(desc+" ", " ")
	siteVisits, _ = strconv.Atoi(strings.TrimPrefix(f[0], "inter"))
	control()
	_, msg := newTogether(callsOf(f[1])).run(&mc.Chooser{Prefix: expand(f[2])})
	return msg
}

func control() {
	mc.SiteVisits = siteVisits
	mc.TrackRaces = true
	mc.IterCost = 1
}

func (r *readRun) interleave(budget int, calls ...call) bool {
	t := newTogether(calls)
	control()
	bad := false
	st := mc.Explore(budget, r.c.Stop, func(ch *mc.Chooser) bool {
		r.slot.Begin(fmt.Sprintf("inter%d %s ", siteVisits, callList(calls)) + compress(ch.Prefix))
		_, msg := t.run(ch)
		r.slot.End()
		if msg != "" {
			r.c.Violate(fmt.Sprintf("inter%d %s ", siteVisits, callList(calls))+compress(ch.Picks()), "%s\ncalls: %s", msg, describeCalls(calls))
			bad = true
			return false
		}
		return true
	})
	r.seen += st.Executions
	r.steps += st.Decisions
	r.c.Max("longest_schedule", int64(st.MaxPoints))
	r.c.Count("schedules", st.Executions)
	if st.Diverged > 0 {
		r.c.Capped("executions that do not repeat")
	}
	return !bad && !st.Capped
}

// compress writes picks down with runs of zeros shortened.
func compress(picks []int) string {
	var out []string
	zeros := 0
	flush := func() {
		if zeros > 0 {
			out = append(out, fmt.Sprintf("z%d", zeros))
		}
		zeros = 0
	}
	for _, p := range picks {
		if p == 0 {
			zeros++
			continue
		}
		flush()
		out = append(out, strconv.Itoa(p))
	}
	flush()
	return strings.Join(out, ",")
}

func expand(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ",") {
		if n, ok := strings.CutPrefix(f, "z"); ok {
			k, _ := strconv.Atoi(n)
			out = append(out, make([]int, k)...)
		} else if n, err := strconv.Atoi(f); err == nil {
			out = append(out, n)
		}
	}
	return out
}

func effectsRun(c *kit.Ctx) {
	ph := phase(c)
	r := &readRun{c: c, slot: c.Slot(0)}
	defer func() {
		c.Count("states", r.seen)
		c.Count("transitions", r.steps)
		c.Count("traces_validated_against_impl", parses.Load()+r.seen)
	}()
	if c.Thorough() {
		siteVisits = 64
	}
	// Side by side.
	side := func(budget int, calls ...call) bool {
		if c.Stop() {
			return false
		}
		if !c.Mine() {
			return true
		}
		return r.interleave(budget, calls...)
	}
	// Pairs of these texts.
	texts := []int{0, 3, 4, 6, 8, 9, 10, 12, 14, 17, 20, 21}
	if c.Thorough() {
		texts = upTo(len(callTexts))
	}
	for i, t := range texts {
		for j, u := range texts {
			if j < i {
				continue
			}
			if !side(1, call{callParse, t}, call{callParse, u}) || (i == j || c.Thorough()) && !side(1, call{callFormat, t}, call{callFormat, u}) {
				return
			}
		}
	}
	ph("parse and format, one preemption")
	shared := []int{0, 3, 4, 6, 9, 10}
	if c.Thorough() {
		shared = upTo(18)
	}
	for _, t := range shared {
		for k := callSharedFormat; k <= callSharedString; k++ {
			for l := k; l <= callSharedString; l++ {
				if !side(1, call{k, t}, call{l, t}) {
					return
				}
			}
			if c.Thorough() && (!side(1, call{k, t}, call{callParse, t}) || !side(1, call{callBytes, t}, call{callReader, t})) {
				return
			}
		}
	}
	ph("shared trees, one preemption")
	hist := func(xs []call) bool {
		if c.Stop() {
			return false
		}
		if !c.Mine() {
			return true
		}
		desc := "history " + callList(xs)
		return r.try(desc, len(xs), func() string { return history(desc) })
	}
	var all []call
	for k := 0; k < callKinds; k++ {
		for t := range callTexts {
			if k == callReader || k == callBytes {
				if !c.Thorough() && t%3 != k%3 {
					continue
				}
			}
			all = append(all, call{k, t})
		}
	}
	for _, x := range all {
		// The same call again and again, then every other call after it.
		var xs []call
		for i := 0; i < 20; i++ {
			xs = append(xs, x)
		}
		if !hist(xs) {
			return
		}
		xs = nil
		for i, y := range all {
			if i%2 == 0 || c.Thorough() || x.text < 4 {
				xs = append(xs, x, y)
			}
		}
		if !hist(xs) {
			return
		}
	}
	ph("pairs")
	var some []call
	for _, t := range []int{0, 3, 4, 6, 10, 11, 20, 21} {
		some = append(some, call{callParse, t})
		if t < 20 {
			some = append(some, call{callFormat, t}, call{callScramble, t})
		}
	}
	for _, x := range some {
		for _, y := range some {
			var xs []call
			for _, z := range some {
				xs = append(xs, x, y, z)
			}
			if !hist(xs) {
				return
			}
		}
	}
	ph("triples")
	for i := range styles {
		if c.Mine() {
			desc := fmt.Sprintf("long %d", i)
			if !r.try(desc, 1, func() string { return longHistory(desc, func() { r.slot.Begin(desc) }) }) {
				return
			}
		}
	}
	ph("long histories")
	if c.Thorough() {
		small := []int{0, 1, 20}
		for i, t := range small {
			for _, u := range small[i:] {
				if !side(2, call{callParse, t}, call{callParse, u}) || !side(2, call{callFormat, t}, call{callParse, u}) || !side(1, call{callParse, t}, call{callParse, u}, call{callFormat, 0}) {
					return
				}
			}
			if t < 20 && (!side(2, call{callSharedFormat, t}, call{callSharedFormat, t}) || !side(2, call{callSharedFormat, t}, call{callSharedClone, t})) {
				return
			}
		}
		ph("two preemptions")
	}
	mc.TrackRaces = false
	mc.IterCost = -1
	if c.Thorough() {
		standard(c, p14)
		return
	}
	programs(c, plan{budget: 1, firsts: append(roots(), holes()...), styles: upTo(len(styles)), all: true}, p14)
	programs(c, plan{budget: 2, firsts: roots(), styles: upTo(len(styles))}, p14)
	ladders(c, p14)
	ph("programs")
}
