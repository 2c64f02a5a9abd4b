package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// Readers that divide a text, pause and fail as told.

var errReader = errors.New("the reader failed")

// A division says how a text is read.
type division struct {
	cuts     []int // where a read ends
	chunk    int   // the most that one read gives; 0: no limit
	pauses   int   // reads of nothing before every read of something
	with     bool  // the last bytes come together with the end (or the failure)
	scribble bool  // what is left of the buffer is used as scratch space
	failAt   int   // fail after that many bytes; -1: never
	kind     int   // which error
}

func (d division) String() string {
	cuts := make([]string, len(d.cuts))
	for i, c := range d.cuts {
		cuts[i] = fmt.Sprint(c)
	}
	return fmt.Sprintf("%d/%d/%t/%t/%d/%d/%s", d.chunk, d.pauses, d.with, d.scribble, d.failAt, d.kind, strings.Join(cuts, "."))
}

func divisionOf(s string) division {
	f := strings.Split(s, "/")
	d := division{}
	_, _ = fmt.Sscan(f[0], &d.chunk)
	_, _ = fmt.Sscan(f[1], &d.pauses)
	_, _ = fmt.Sscan(f[2], &d.with)
	_, _ = fmt.Sscan(f[3], &d.scribble)
	_, _ = fmt.Sscan(f[4], &d.failAt)
	_, _ = fmt.Sscan(f[5], &d.kind)
	for _, c := range strings.Split(f[6], ".") {
		n := 0
		if _, err := fmt.Sscan(c, &n); err == nil {
			d.cuts = append(d.cuts, n)
		}
	}
	return d
}

var readerErrors = []error{errReader, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}

type dividedReader struct {
	text   string
	d      division
	pos    int
	paused int
	ended  bool
	after  int // reads after the end
}

func (r *dividedReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(r.text)
	end := error(io.EOF)
	if r.d.failAt >= 0 {
		limit = r.d.failAt
		end = readerErrors[r.d.kind]
	}
	if r.ended {
		r.after++
		return 0, end
	}
	if r.paused < r.d.pauses {
		r.paused++
		r.scratch(p)
		return 0, nil
	}
	r.paused = 0
	if r.pos >= limit {
		r.ended = true
		return 0, end
	}
	n := limit - r.pos
	if r.d.chunk > 0 && n > r.d.chunk {
		n = r.d.chunk
	}
	for _, c := range r.d.cuts {
		if c > r.pos && c < r.pos+n {
			n = c - r.pos
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.text[r.pos:r.pos+n])
	r.pos += n
	r.scratch(p[n:])
	if r.pos == limit && r.d.with {
		r.ended = true
		return n, end
	}
	return n, nil
}

func (r *dividedReader) scratch(p []byte) {
	if r.d.scribble {
		for i := range p {
			p[i] = "= x\n"[i%4]
		}
	}
}

// readCase decides "read DIVISION HEX" and "big KIND SIZE DIVISION".
func readCase(desc string) string {
	f := strings.SplitN(desc+" ", " ", 5)
	if f[0] == "big" {
		src, _ := bigSource(f[1], f[2])
		if msg := p10(src); msg != "" {
			return msg
		}
		return readsAlike(src, divisionOf(f[3]), nil)
	}
	b, err := hex.DecodeString(f[2])
	if err != nil {
		panic("bad case " + desc)
	}
	return readsAlike(string(b), divisionOf(f[1]), nil)
}

func clipped(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// readsAlike compares Parse on a reader with ParseString.
func readsAlike(src string, d division, want *string) string {
	r := &dividedReader{text: src, d: d}
	tree, err := etx.Parse(r)
	parses.Add(1)
	if d.failAt >= 0 {
		switch {
		case err == nil:
			return fmt.Sprintf("the reader fails after %d bytes of %q (%s), but Parse does not", d.failAt, clipped(src), d)
		case tree != nil:
			return fmt.Sprintf("the reader fails after %d bytes of %q (%s) and Parse returns a tree", d.failAt, clipped(src), d)
		case !errors.Is(err, readerErrors[d.kind]):
			return fmt.Sprintf("the reader fails after %d bytes of %q (%s), but Parse reports something else: %v", d.failAt, clipped(src), d, err)
		}
		return ""
	}
	var w string
	if want == nil {
		w = outcome(parse(src))
	} else {
		w = *want
	}
	if got := outcome(tree, err); got != w {
		return fmt.Sprintf("reading %q in parts (%s): %s", clipped(src), d, around(w, got))
	}
	return ""
}

// p10 compares the three ways to parse a text.
func p10(src string) string {
	want := outcome(parse(src))
	data := []byte(src)
	tree, err := etx.ParseBytes(data)
	if string(data) != src {
		return fmt.Sprintf("ParseBytes changed its argument: %q", data)
	}
	for i := range data {
		data[i] = '='
	}
	if got := outcome(tree, err); got != want {
		return fmt.Sprintf("ParseString and ParseBytes differ: %s", around(want, got))
	}
	if got := outcome(etx.Parse(strings.NewReader(src))); got != want {
		return fmt.Sprintf("ParseString and Parse differ: %s", around(want, got))
	}
	return ""
}

var shortTexts = []string{
	"", "a", "a=1", "a = é\n", "a='x'", "a=\"é\"", "a=<<E\nE", "b{}", "a", "a=", "=", "a=\"", "\r\n", "//é", "/**/", "/*", "a=1\r\n", "a=\xff", "\xff", "a='\xff'",
	"\xef\xbb\xbfa=1", "a='\x00'", "\x00", " a=1 ", "a=1\n\n", "\n\na=1", "a=é", "€=1", "a='€'",
}

// bigSource makes a program of a size.
func bigSource(kind, size string) (string, int) {
	n := 0
	_, _ = fmt.Sscan(size, &n)
	fill := func(head, tail string) string {
		k := n - len(head) - len(tail)
		if k < 0 {
			k = 0
		}
		return head + strings.Repeat("x", k) + tail
	}
	switch kind {
	case "comment":
		return fill("//", "\na = 1\n"), n
	case "multiline":
		return fill("/*", "\né*/\na = 1\n"), n
	case "string":
		return fill("a = \"", "\"\nb = 2\n"), n
	case "heredoc":
		return fill("a = <<E\n", "\nE\nb = 2\n"), n
	case "ident":
		return fill("a", " = 1"), n
	case "broken":
		return fill("a = 1\n//", "\nb = = 2\n"), n
	case "open":
		return fill("a = 1\nb = \"", ""), n
	case "blank":
		k := n - 12
		if k < 0 {
			k = 0
		}
		return "a = 1\n" + strings.Repeat("\n", k) + "b = 2\n", n
	case "many":
		var sb strings.Builder
		for i := 0; sb.Len() < n; i++ {
			fmt.Fprintf(&sb, "a%d = é%d // x\n", i, i)
		}
		return strings.ReplaceAll(sb.String(), "= é", "= z"), n
	}
	panic("unknown text " + kind)
}

type readRun struct {
	c           *kit.Ctx
	slot        *kit.Slot
	seen, steps int64
}

func (r *readRun) try(desc string, n int, f func() string) bool {
	if r.c.Stop() {
		return false
	}
	r.seen++
	r.steps += int64(n)
	r.slot.Begin(desc)
	var msg string
	if m := kit.Guard(func() { msg = f() }); m != "" {
		msg = m
	}
	r.slot.End()
	if msg != "" {
		r.c.Violate(desc, "%s", msg)
	}
	if r.seen == 500 || r.seen == 5000 {
		r.c.Sample(clipped(desc))
	}
	return msg == ""
}

// divided tries one division of a text.
func (r *readRun) divided(src, h string, want *string, d division) bool {
	desc := "read " + d.String() + " " + h
	return r.try(desc, len(d.cuts)+1, func() string { return readsAlike(src, d, want) })
}

// compositions tries every division of a short text into parts.
func (r *readRun) compositions(src string) bool {
	h := hex.EncodeToString([]byte(src))
	want := outcome(parse(src))
	n := len(src)
	if n == 0 {
		n = 1
	}
	for mask := 0; mask < 1<<(n-1); mask++ {
		var cuts []int
		for i := 0; i < n-1; i++ {
			if mask>>i&1 == 1 {
				cuts = append(cuts, i+1)
			}
		}
		for _, with := range []bool{false, true} {
			for _, pauses := range []int{0, 1, 3} {
				for _, scribble := range []bool{false, true} {
					if !r.divided(src, h, &want, division{cuts: cuts, with: with, pauses: pauses, scribble: scribble, failAt: -1}) {
						return false
					}
				}
			}
			for f := 0; f <= len(src); f++ {
				if mask < 64 || f == len(src) {
					for k := range readerErrors {
						if !r.divided(src, h, &want, division{cuts: cuts, with: with, scribble: k == 1, failAt: f, kind: k}) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// divisions tries every division of a longer text into two or three parts, or
// into equal ones, and every failure.
func (r *readRun) divisions(src string) bool {
	h := hex.EncodeToString([]byte(src))
	want := outcome(parse(src))
	try := func(d division) bool { return r.divided(src, h, &want, d) }
	for chunk := 1; chunk <= 8; chunk++ {
		for _, with := range []bool{false, true} {
			for pauses := 0; pauses < 2; pauses++ {
				if !try(division{chunk: chunk, with: with, pauses: pauses, scribble: true, failAt: -1}) {
					return false
				}
			}
		}
	}
	for i := 1; i < len(src); i++ {
		if !try(division{cuts: []int{i}, failAt: -1}) || !try(division{cuts: []int{i}, with: true, scribble: true, pauses: 1, failAt: -1}) {
			return false
		}
		if len(src) <= r.c.Pick(30, 80) {
			for j := i + 1; j < len(src); j++ {
				if !try(division{cuts: []int{i, j}, failAt: -1}) {
					return false
				}
			}
		}
	}
	for f := 0; f <= len(src); f++ {
		for k := 0; k < 2; k++ {
			if !try(division{failAt: f, kind: k}) || !try(division{failAt: f, kind: k, with: true, scribble: true}) || !try(division{failAt: f, kind: k, chunk: 1}) {
				return false
			}
		}
	}
	return true
}

func readersRun(c *kit.Ctx) {
	ph := phase(c)
	r := &readRun{c: c, slot: c.Slot(0)}
	defer func() {
		c.Count("states", r.seen)
		c.Count("transitions", r.steps)
		c.Count("traces_validated_against_impl", parses.Load())
	}()
	for _, s := range shortTexts {
		if c.Mine() && !r.compositions(s) {
			return
		}
	}
	for n := 0; n <= 2; n++ {
		if !bodies(c, letters("a=1\n\"é \r"), n, r.compositions) {
			return
		}
	}
	ph("compositions")
	// Sizes around those of common buffers.
	kinds := []string{"comment", "multiline", "string", "heredoc", "ident", "broken", "open", "blank", "many"}
	for _, size := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} {
		if size > 65536 && !c.Thorough() {
			continue
		}
		for _, kind := range kinds {
			if kind == "blank" && size > 8192 || kind == "many" && size > 16384 {
				continue
			}
			for off := -2; off <= 2; off++ {
				if !c.Mine() {
					continue
				}
				src, _ := bigSource(kind, fmt.Sprint(size+off))
				want := outcome(parse(src))
				ds := []division{{failAt: -1}, {with: true, failAt: -1}, {chunk: 511, failAt: -1}, {chunk: 512, with: true, failAt: -1}, {chunk: 4096, failAt: -1}, {chunk: 4095, pauses: 1, failAt: -1},
					{cuts: []int{size}, failAt: -1}, {cuts: []int{size - 1}, with: true, failAt: -1}, {failAt: len(src)}, {failAt: len(src), with: true}, {failAt: len(src) - 1, with: true}, {failAt: size - 8}, {failAt: size / 2, with: true}, {failAt: 500}}
				if size <= 4096 {
					ds = append(ds, division{chunk: 1, failAt: -1}, division{chunk: 3, with: true, failAt: -1})
				}
				for _, d := range ds {
					if d.failAt > len(src) {
						continue
					}
					desc := fmt.Sprintf("big %s %d %s", kind, size+off, d)
					if !r.try(desc, len(src)/512, func() string { return readsAlike(src, d, &want) }) {
						return
					}
				}
				if msg := p10(src); msg != "" {
					c.Violate(fmt.Sprintf("big %s %d %s", kind, size+off, division{failAt: -1}), "%s", msg)
					return
				}
			}
		}
	}
	ph("sizes")
	three := func(p *program) string { return p10(p.text.src) }
	programs(c, plan{budget: 2, firsts: roots(), styles: upTo(len(styles))}, three)
	programs(c, plan{budget: c.Pick(1, 2), firsts: holes(), styles: upTo(len(styles))}, three)
	ladders(c, three)
	ph("programs")
	each := func(src string, toks []tok) string { return p10(src) }
	sequences(c, alphabet, 2, upTo(len(frames)), each)
	few := letters("a1.-\"'\\${}%()[]<\n\r =:/*,?u_E!|&>#é\x00\xff")
	for n := 0; n <= c.Pick(2, 3); n++ {
		spell(c, few, n, [][2]string{{"", ""}, {"a=", ""}, {"a=\"", ""}, {" ", " "}, {"\n\ta=1\r\n", "\r\n"}}, p10)
	}
	spell(c, allBytes(), 1, [][2]string{{"", ""}, {"a='", "'"}, {"a=1 ", ""}}, p10)
	spell(c, allBytes(), 2, [][2]string{{"", ""}}, p10)
	ph("sequences")
	// Divisions of programs, whole and cut off.
	parts := func(p plan, cut bool) {
		programs(c, p, func(p *program) string {
			src := p.text.src
			if len(src) > 600 || !r.divisions(src) || !cut {
				return ""
			}
			for _, n := range []int{len(src) / 3, len(src) / 2, len(src) - 1} {
				if n > 0 {
					r.divisions(src[:n] + "\"")
					r.divisions(src[:n])
				}
			}
			return ""
		})
	}
	if c.Thorough() {
		parts(plan{budget: 0, firsts: append(roots(), holes()...), styles: []int{0, 1, 2}, all: true}, true)
		parts(plan{budget: 1, firsts: append(roots(), holes()...), styles: []int{0, 1, 2}}, false)
	} else {
		parts(plan{budget: 0, firsts: append(roots(), holes()...), styles: []int{0, 1, 2}, all: true}, true)
		parts(plan{budget: 1, firsts: append(roots(), holes()...), styles: []int{0}}, false)
	}
	ph("divisions")
}
