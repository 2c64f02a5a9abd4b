package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// Every string of a length over an alphabet, in a frame.

// spell runs f on every string of n letters in every frame.
func spell(c *kit.Ctx, letters []string, n int, frames [][2]string, f func(src string) string) {
	slot := c.Slot(0)
	idx := make([]int, n)
	var seen, steps int64
	for {
		if c.Stop() {
			break
		}
		if c.Mine() {
			var sb strings.Builder
			for _, i := range idx {
				sb.WriteString(letters[i])
			}
			for _, fr := range frames {
				src := fr[0] + sb.String() + fr[1]
				seen++
				steps += int64(n)
				if !runBytes(c, slot, src, f) {
					return
				}
				if seen == 5000 {
					c.Sample(fmt.Sprintf("%q", src))
				}
			}
		}
		k := n - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(letters) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			break
		}
	}
	c.Count("states", seen)
	c.Count("transitions", steps)
}

func runBytes(c *kit.Ctx, slot *kit.Slot, src string, f func(src string) string) bool {
	desc := "bytes " + hex.EncodeToString([]byte(src))
	if len(desc) > 12000 {
		panic("case too long")
	}
	slot.Begin(desc)
	var msg string
	if m := kit.Guard(func() { msg = f(src) }); m != "" {
		msg = m
	}
	slot.End()
	if msg != "" {
		c.Violate(desc, "%s\nsource: %q", msg, src)
		return false
	}
	return true
}

func unhex(desc string) string {
	b, err := hex.DecodeString(strings.TrimPrefix(desc, "bytes "))
	if err != nil {
		panic("bad case " + desc)
	}
	return string(b)
}

func letters(s string) []string { return strings.Split(s, "") }

func allBytes() []string {
	var out []string
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}))
	}
	return out
}

// p01 decides a single source.
func p01(src string) string {
	for i, f := range []func() (*etx.AST, error){
		func() (*etx.AST, error) { return parse(src) },
		func() (*etx.AST, error) { return etx.ParseBytes([]byte(src)) },
		func() (*etx.AST, error) { return etx.Parse(strings.NewReader(src)) },
	} {
		tree, err := f()
		name := []string{"ParseString", "ParseBytes", "Parse"}[i]
		if err == nil && tree == nil {
			return name + " returns neither a tree nor an error"
		}
		if err != nil {
			if tree != nil {
				return name + " returns both a tree and an error"
			}
			if err.Error() == "" {
				return name + " returns an error without text"
			}
		}
		if i == 0 && len(src) > 40 {
			// The other two only on short sources: P10 compares them.
			break
		}
	}
	return ""
}

// A tower is a nest of constructs, complete or cut off.
type tower struct{ start, open, core, shut, end string }

var towers = []tower{
	{"a = ", "(", "x", ")", "\n"},
	{"a = ", "[", "x", "]", "\n"},
	{"a = ", "[x,", "x", "]", "\n"},
	{"a = ", "{k:", "x", "}", "\n"},
	{"a = ", "f(", "x", ")", "\n"},
	{"a = ", "f(x,", "x", ")", "\n"},
	{"a = ", "x[", "x", "]", "\n"},
	{"a = ", "x[1:", "x", "]", "\n"},
	{"a = ", "if x {", "x", "}", "\n"},
	{"a = ", "if x {x} else {", "x", "}", "\n"},
	{"a = if ", "(", "x", ")", "{x}\n"},
	{"a = ", "switch x { case x: {", "x", "}}", "\n"},
	{"a = ", "x ? ", "x", " : x", "\n"},
	{"a = ", "x ? x : ", "x", "", "\n"},
	{"a = ", "-(", "x", ")", "\n"},
	{"a = ", "-", "x", "", "\n"},
	{"a = ", "!", "x", "", "\n"},
	{"a = ", "x.", "x", "", "\n"},
	{"a = ", "x().", "x", "", "\n"},
	{"a = x", "[1]", "", "", "\n"},
	{"a = x", "()", "", "", "\n"},
	{"a = ", "x || ", "x", "", "\n"},
	{"a = ", "x + (", "x", ")", "\n"},
	{"a = ", "x * x + ", "x", "", "\n"},
	{"a = ", "x << ", "x", "", "\n"},
	{"a = ", `"${`, "x", `}"`, "\n"},
	{"a = ", `"%{`, "x", `}"`, "\n"},
	{"a = ", "'\\\\", "", "'", "\n"},
	{"a = ", "<<E\n${", "x", "}\nE\n", "\n"},
	{"", "b {", "k = 1", "}", "\n"},
	{"", "b x \"y\" {", "k = 1", "}", "\n"},
	{"b ", "x ", "", "", "{}\n"},
	{"def f(x: ", "(", "x", ") -> x", ") {}\n"},
	{"def f(x: ", "() -> ", "x", "", ") {}\n"},
	{"def f() ", "(", "x", ")", " {}\n"},
	{"def f() {", "val x = if x {", "x", "}\n", "}\n"},
	{"input x: ", "(x, ", "x", ") -> x", "\n"},
	{"type t object { a: ", "() -> ", "x", "", "}\n"},
	{"type t enum { ", "a: 1\n", "", "", "}\n"},
	{"", "/*", "", "*/", "\n"},
	{"", "//", "", "\n", ""},
	{"", "\n", "", "", ""},
	{"a = ", "0", "1", "", ""},
	{"a = ", "1_", "1", "", ""},
	{"a = ", "a-", "a", "", ""},
	{"a = \"", "$", "", "\"", ""},
	{"a = \"", "\\u0041", "", "\"", ""},
	{"a = <<E\n", "$", "", "\nE", "\n"},
	{"a = <<", "-", "E", "", "\n"},
}

// A tower is given as "tower I N CUT": with CUT parts closed (-1: all).
func towerSource(i, n, cut int) string {
	t := towers[i]
	s := t.start + strings.Repeat(t.open, n)
	switch cut {
	case 0:
		return s
	case 1:
		return s + t.core
	case 2:
		return s + t.core + strings.Repeat(t.shut, n/2)
	case 3:
		return s + t.core + strings.Repeat(t.shut, n+1) + t.end
	}
	return s + t.core + strings.Repeat(t.shut, n) + t.end
}

// mixSource is a tower whose levels are two constructs in turn.
func mixSource(i, j, n, cut int) string {
	t, u := towers[i], towers[j]
	s := t.start + strings.Repeat(t.open+u.open, n) + u.core
	if cut == 0 {
		return s
	}
	return s + strings.Repeat(u.shut+t.shut, n) + t.end
}

func towerText(desc string) string {
	var n [4]int
	f := strings.Fields(desc)
	for k := range f[1:] {
		n[k], _ = strconv.Atoi(f[k+1])
	}
	if f[0] == "mix" {
		return mixSource(n[0], n[1], n[2], n[3])
	}
	return towerSource(n[0], n[1], n[2])
}

func runTower(desc string) string {
	src := towerText(desc)
	if tree, err := parse(src); (tree == nil) == (err == nil) {
		return "neither or both of tree and error"
	}
	return ""
}

func bytesRun(c *kit.Ctx) {
	ph := phase(c)
	slot := c.Slot(0)
	var seen, steps int64
	sizes := []int{1, 2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48, 49, 50, 51, 52, 64, 100, 200, 500}
	if c.Thorough() {
		sizes = append(sizes, 1000, 1500)
	}
	run := func(desc string, n int) bool {
		if c.Stop() {
			return false
		}
		if !c.Mine() {
			return true
		}
		seen++
		steps += int64(n)
		slot.Begin(desc)
		var msg string
		if m := kit.Guard(func() { msg = runTower(desc) }); m != "" {
			msg = m
		}
		slot.End()
		if msg != "" {
			c.Violate(desc, "%s\nsource: %q", msg, towerText(desc))
		}
		return msg == ""
	}
	for _, n := range sizes {
		for i := range towers {
			for cut := 0; cut < 5; cut++ {
				if !run(fmt.Sprintf("tower %d %d %d", i, n, cut), n) {
					return
				}
			}
		}
	}
	mixed := []int{4, 12, 40}
	if c.Thorough() {
		mixed = []int{3, 4, 8, 12, 16, 24, 40, 100}
	}
	slow := map[string]bool{}
	for _, f := range c.Findings() {
		if q, what, ok := quoted(f, "repeated="); ok {
			slow[q] = true
			_ = what
		}
	}
	for _, n := range mixed {
		for i := range towers {
			for j := range towers {
				for cut := 0; cut < 2; cut++ {
					if slow[mixSource(i, j, 2, cut)] {
						// A listed finding.
						if n == mixed[0] && c.Mine() && stillSlow(i, j, cut) {
							c.KnownFinding(fmt.Sprintf("%q and so on takes time exponential in the number of levels", mixSource(i, j, 2, cut)))
						}
						continue
					}
					if !run(fmt.Sprintf("mix %d %d %d %d", i, j, n, cut), 2*n) {
						return
					}
				}
			}
		}
	}
	c.Count("states", seen)
	c.Count("transitions", steps)
	ph("towers")
	open := [][2]string{{"", ""}, {"a=\"", ""}, {"a=<<E\n", ""}}
	closed := [][2]string{{"", "\n"}, {"a=\"", "\"\n"}, {"a=<<E\n", "\nE\n"}, {"a = ", "\n"}, {"b {", "}\n"}, {"a=\"${", "}\"\n"}}
	one := [][2]string{{"", ""}}
	inString := [][2]string{{"a=\"", ""}, {"a=\"", "\"\n"}, {"a='", "'\n"}}
	inHeredoc := [][2]string{{"a=<<E\n", ""}, {"a=<<E\n", "\nE\n"}, {"a=<<-E\n", "\nE\n"}}
	few := letters("a1.-\"'\\${}%()[]<\n\r =:/*,?u_E!|&>#é\x00")
	spell(c, allBytes(), 1, append(open, closed...), p01)
	spell(c, allBytes(), 2, open, p01)
	ph("all bytes")
	spell(c, few, 1, closed, p01)
	spell(c, few, 2, closed, p01)
	spell(c, few, 3, one, p01)
	ph("few letters")
	for n := 1; n <= c.Pick(4, 6); n++ {
		spell(c, letters("\"'\\u0${}%a\n"), n, inString, p01)
	}
	for n := 1; n <= c.Pick(5, 6); n++ {
		spell(c, letters("E-\n${%x "), n, inHeredoc, p01)
	}
	ph("strings and heredocs")
	for n := 1; n <= c.Pick(9, 11); n++ {
		spell(c, letters("0g\""), n, [][2]string{{"a=\"\\u", ""}}, p01)
	}
	for n := 1; n <= c.Pick(6, 8); n++ {
		spell(c, letters("/*#\na"), n, [][2]string{{"", ""}}, p01)
	}
	for n := 1; n <= c.Pick(4, 5); n++ {
		spell(c, letters("01x_boe.-+f"), n, [][2]string{{"a=", ""}}, p01)
	}
	for n := 1; n <= c.Pick(3, 4); n++ {
		spell(c, letters("<-EF\n \"${}"), n, [][2]string{{"a=<<", ""}, {"a=", ""}}, p01)
	}
	ph("numbers, comments")
	// Damaged programs.
	var dam, damSteps int64
	damage := func(p *program) string {
		src := p.text.src
		if len(src) > 2000 {
			return ""
		}
		try := func(s string) bool {
			dam++
			damSteps += int64(len(s))
			return runBytes(c, slot, s, p01)
		}
		for i := range src {
			if c.Stop() || !try(src[:i]) || !try(src[i:]) || !try(src[:i]+src[i+1:]) {
				return ""
			}
			for _, b := range []string{"\"", "'", "${", "{", "}", "(", "\n", "\\", "<<E\n", "/*", "\xff"} {
				if !try(src[:i] + b + src[i:]) {
					return ""
				}
			}
		}
		return ""
	}
	programs(c, plan{budget: c.Pick(1, 2), firsts: append(roots(), holes()...), styles: upTo(len(styles))}, damage)
	c.Count("states", dam)
	c.Count("transitions", damSteps)
	ph("damaged programs")
	each := func(src string, toks []tok) string { return p01(src) }
	sequences(c, alphabet, 2, upTo(len(frames)), each)
	ph("sequences")
	c.Count("traces_validated_against_impl", parses.Load())
	if c.Worker == 0 {
		deepNesting(c)
	}
}

// quoted splits a finding whose input is given as a quoted string.
func quoted(f, key string) (input, rest string, ok bool) {
	f, ok = strings.CutPrefix(f, key)
	if !ok {
		return "", "", false
	}
	q, err := strconv.QuotedPrefix(f)
	if err != nil {
		return "", "", false
	}
	input, err = strconv.Unquote(q)
	return input, strings.TrimSpace(f[len(q):]), err == nil
}

// stillSlow tells whether four more levels take many times longer.
func stillSlow(i, j, cut int) bool {
	var d [2]time.Duration
	for k, n := range []int{6, 10} {
		best := time.Hour
		for t := 0; t < 2; t++ {
			begin := time.Now()
			_, _ = parse(mixSource(i, j, n, cut))
			if e := time.Since(begin); e < best {
				best = e
			}
		}
		d[k] = best
	}
	return d[1] > 5*d[0]
}

// deepNesting runs the listed finding: it ends the process, so it has one of
// its own.
func deepNesting(c *kit.Ctx) {
	what := ""
	for _, f := range c.Findings() {
		if strings.HasPrefix(f, "nested-parentheses=") {
			what = f
		}
	}
	self, err := os.Executable()
	if err != nil || what == "" {
		return
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "ETX_DEEP=1", "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	var exit *exec.ExitError
	if errors.As(err, &exit) && strings.Contains(string(out), "stack overflow") {
		c.KnownFinding(what)
	}
}

func deep() {
	_, err := etx.ParseString("a = " + strings.Repeat("(", 30000) + "x" + strings.Repeat(")", 30000) + "\n")
	fmt.Println(err == nil)
	os.Exit(0)
}
