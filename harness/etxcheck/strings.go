package main

import (
	"encoding/hex"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// Strings and heredocs: a reader of their bodies that knows nothing of the
// parser.

type verdict int

const (
	fine    verdict = iota
	broken          // no program can look like this
	unknown         // not for this reader to say
)

var (
	identAhead = regexp.MustCompile(`^[A-Za-z]\w*(-\w+)*`)
	longCode   = regexp.MustCompile(`^[0-9a-fA-F]{8}`)
	shortCode  = regexp.MustCompile(`^[0-9a-fA-F]{4}`)
	keywords   = map[string]bool{"if": true, "else": true, "switch": true, "case": true, "true": true, "false": true, "null": true}
)

// A shape is the list of fragments of a string, neighbouring texts as one.
type fragments struct{ sb strings.Builder }

func (f *fragments) add(kind, s string) {
	if kind == "text" {
		last := f.sb.String()
		if strings.HasSuffix(last, "\x02") {
			f.sb.Reset()
			f.sb.WriteString(strings.TrimSuffix(last, "\x02") + s + "\x02")
			return
		}
		f.sb.WriteString("text " + s + "\x02")
		return
	}
	f.sb.WriteString(kind + " " + s + "\x01")
}

// readString reads a string whose opening quote q is just before pos.
func readString(src string, pos int, q byte) (shape string, end int, v verdict) {
	var f fragments
	text := pos
	flush := func() {
		if pos > text {
			f.add("text", src[text:pos])
		}
	}
	for pos < len(src) {
		rest := src[pos:]
		switch {
		case rest[0] == q:
			flush()
			return f.sb.String(), pos + 1, fine
		case strings.HasPrefix(rest, `\u`):
			flush()
			code := longCode.FindString(rest[2:])
			if code == "" {
				code = shortCode.FindString(rest[2:])
			}
			if code == "" {
				return "", 0, broken
			}
			f.add("unicode", code)
			pos += 2 + len(code)
			text = pos
		case rest[0] == '\\':
			if len(rest) < 2 || rest[1] == '\n' {
				return "", 0, broken
			}
			if rest[1] >= 0x80 {
				return "", 0, unknown
			}
			flush()
			f.add("escaped", rest[:2])
			pos += 2
			text = pos
		case strings.HasPrefix(rest, "$${"), strings.HasPrefix(rest, "%%{"):
			pos += 3
		case strings.HasPrefix(rest, "${"), strings.HasPrefix(rest, "%{"):
			flush()
			inner, end, v := readInterpolation(src, pos+2)
			if v != fine {
				return "", 0, v
			}
			f.add(kindOf(rest[0]), inner)
			pos = end
			text = pos
		default:
			pos++
		}
	}
	return "", 0, broken
}

func kindOf(c byte) string {
	if c == '$' {
		return "expression"
	}
	return "directive"
}

// readInterpolation reads a name or a string up to the closing brace.
func readInterpolation(src string, pos int) (shape string, end int, v verdict) {
	blank := func() {
		for pos < len(src) && (src[pos] == ' ' || src[pos] == '\t') {
			pos++
		}
	}
	blank()
	if pos >= len(src) {
		return "", 0, broken
	}
	if name := identAhead.FindString(src[pos:]); name != "" && !keywords[name] {
		shape = name
		pos += len(name)
	} else if src[pos] == '"' || src[pos] == '\'' {
		s, e, v := readString(src, pos+1, src[pos])
		if v != fine {
			return "", 0, v
		}
		shape = "<" + s + ">"
		pos = e
	} else {
		return "", 0, unknown
	}
	blank()
	if pos >= len(src) || src[pos] != '}' {
		return "", 0, unknown
	}
	return shape, pos + 1, fine
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// readHeredoc reads the body of a heredoc that starts at pos, the beginning of
// a line. afterBrace tells that an interpolation is directly followed by the
// delimiter, a listed finding.
func readHeredoc(src string, pos int, delim string, tabs bool) (shape string, end int, v verdict, afterBrace bool) {
	var f fragments
	text := pos
	flush := func() {
		if pos > text {
			f.add("text", src[text:pos])
		}
	}
	isDelim := func(s string) bool {
		return strings.HasPrefix(s, delim) && (len(s) == len(delim) || !isWord(s[len(delim)]))
	}
	start := true
	for pos < len(src) {
		rest := src[pos:]
		if start {
			if isDelim(rest) {
				flush()
				return f.sb.String(), pos + len(delim), fine, afterBrace
			}
			if t := strings.TrimLeft(rest, "\t "); tabs && len(t) < len(rest) && isDelim(t) {
				return "", 0, unknown, afterBrace
			}
		}
		start = rest[0] == '\n'
		switch {
		case strings.HasPrefix(rest, "$${"), strings.HasPrefix(rest, "%%{"):
			pos += 3
		case strings.HasPrefix(rest, "${"), strings.HasPrefix(rest, "%{"):
			flush()
			inner, end, v := readInterpolation(src, pos+2)
			if v != fine {
				return "", 0, v, afterBrace
			}
			f.add(kindOf(rest[0]), inner)
			pos = end
			text = pos
			if isDelim(src[pos:]) {
				afterBrace = true
			}
		default:
			pos++
		}
	}
	return "", 0, broken, afterBrace
}

// What the parser made of a string or heredoc.

func exprShape(x *etx.Expr) string {
	if v := stringIn(x); v != nil {
		return "<" + stringShape(v) + ">"
	}
	return shapeExpr(x)
}

// stringIn gives the string that an expression consists of, if it does.
func stringIn(x *etx.Expr) *etx.ValueString {
	if x == nil || x.Left == nil || x.Left.ConditionOp {
		return nil
	}
	p := postfix(x)
	if p.Value.Value == nil || p.Value.Value.Str == nil {
		return nil
	}
	s := p.Value.Value.Str
	// Nothing else around it.
	p.Value.Value.Str = &etx.ValueString{}
	defer func() { p.Value.Value.Str = s }()
	if shapeExpr(x) != `""` {
		return nil
	}
	return s
}

func stringShape(s *etx.ValueString) string {
	var f fragments
	for _, x := range s.Fragment {
		n := 0
		for _, set := range []bool{x.Escaped != "", x.Unicode != "", x.Expr != nil, x.Directive != nil, x.Text != ""} {
			if set {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("a fragment with %d kinds", n)
		}
		switch {
		case x.Escaped != "":
			f.add("escaped", x.Escaped)
		case x.Unicode != "":
			f.add("unicode", x.Unicode)
		case x.Expr != nil:
			f.add("expression", exprShape(x.Expr))
		case x.Directive != nil:
			f.add("directive", exprShape(x.Directive))
		default:
			f.add("text", x.Text)
		}
	}
	return f.sb.String()
}

func heredocShape(h *etx.Heredoc) string {
	var f fragments
	for _, x := range h.Fragments {
		switch {
		case x.Expr != nil && x.Directive == nil && x.Text == "":
			f.add("expression", exprShape(x.Expr))
		case x.Directive != nil && x.Expr == nil && x.Text == "":
			f.add("directive", exprShape(x.Directive))
		case x.Text != "" && x.Expr == nil && x.Directive == nil:
			f.add("text", x.Text)
		default:
			return "a fragment of no kind or several"
		}
	}
	return f.sb.String()
}

// A stringPlace is where a string or heredoc stands; nth is the number of
// strings before it in the tree.
type stringPlace struct {
	before, after string
	nth           int
	heredoc       bool
	simple        *etx.AST
}

var stringPlaces = []*stringPlace{
	{before: "a = ", after: "\n"},
	{before: "a = [p, ", after: "]\n"},
	{before: "a = f(", after: ", q)\n"},
	{before: "a = {", after: ": p}\n"},
	{before: "a = \"${", after: "}\"\n", nth: 1},
	{before: "a = <<E\n%{ ", after: " }\nE\n"},
	{before: "type t enum {\n\tk: ", after: "\n}\n"},
	{before: "b l {\n\tk = ", after: " + p\n}\n"},
	{before: "a = \"p\" == ", after: "", nth: 1},
}

var heredocPlaces = []*stringPlace{
	{before: "a = ", after: "\n", heredoc: true},
	{before: "a = [p, ", after: "\n]\n", heredoc: true},
	{before: "a = f(", after: ", q)\n", heredoc: true},
	{before: "a = {k: ", after: "\n}\n", heredoc: true},
	{before: "a = \"${", after: "}\"\n", heredoc: true},
	{before: "b l {\n\tk = ", after: "\n\tl = 1\n}\n", heredoc: true},
	{before: "a = ", after: "", heredoc: true},
}

// lift takes the string or heredoc out of a tree.
func (p *stringPlace) lift(a *etx.AST) (s *etx.ValueString, h *etx.Heredoc, rest *etx.AST) {
	n := 0
	nodesOf(a, func(x any) {
		switch x := x.(type) {
		case *etx.ValueString:
			if !p.heredoc && n == p.nth && s == nil {
				c := *x
				s = &c
				x.Fragment = nil
			}
			n++
		case *etx.Heredoc:
			if p.heredoc && h == nil {
				c := *x
				h = &c
				x.Fragments = nil
				x.Delimiter = etx.HeredocDelimiter{}
			}
		}
	})
	return s, h, a
}

func init() {
	for _, p := range stringPlaces {
		p := p
		p.simple, _ = etx.ParseString(p.before + `"q"` + p.after)
	}
	for _, p := range heredocPlaces {
		p.simple, _ = etx.ParseString(p.before + "<<Q\nq\nQ" + p.after)
	}
	for _, p := range append(append([]*stringPlace{}, stringPlaces...), heredocPlaces...) {
		if p.simple != nil {
			_, _, p.simple = p.lift(p.simple)
		}
	}
}

// stringCase decides "string PLACE QUOTE HEX" and "heredoc PLACE DELIM HEX".
func stringCase(desc string) string {
	f := strings.SplitN(desc+" ", " ", 5)
	n, _ := strconv.Atoi(f[1])
	b, err := hex.DecodeString(f[3])
	if err != nil {
		panic("bad case " + desc)
	}
	if f[0] == "string" {
		return quotedString(stringPlaces[n], f[2][0], string(b))
	}
	return heredocText(heredocPlaces[n], f[2], string(b))
}

func quotedString(p *stringPlace, q byte, body string) string {
	start := p.before + string(q) + body + string(q)
	src := start + p.after
	want, end, v := readString(src, len(p.before)+1, q)
	return p.decide(src, want, end == len(start), v, "", false)
}

func heredocText(p *stringPlace, delim, body string) string {
	name := strings.TrimPrefix(delim, "-")
	open := p.before + "<<" + delim + "\n"
	start := open + body + name
	src := start + p.after
	want, end, v, after := readHeredoc(src, len(open), name, name != delim)
	if after {
		v = unknown
	}
	return p.decide(src, want, end == len(start), v, name, name != delim)
}

func (p *stringPlace) decide(src, want string, whole bool, v verdict, delim string, tabs bool) string {
	if v == unknown || v == fine && !whole {
		return ""
	}
	tree, err := parse(src)
	if v == broken {
		if err == nil {
			return fmt.Sprintf("%q is accepted", src)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%q is rejected: %v", src, err)
	}
	s, h, rest := p.lift(tree)
	if p.simple == nil {
		return fmt.Sprintf("the plainest string is rejected in %q", p.before)
	}
	got := ""
	switch {
	case p.heredoc && h == nil || !p.heredoc && s == nil:
		return fmt.Sprintf("%q has no string", src)
	case p.heredoc:
		if h.Delimiter.Delimiter != delim || h.Delimiter.LeadingTabs != tabs {
			return fmt.Sprintf("the delimiter of %q is %q, leading tabs %v", src, h.Delimiter.Delimiter, h.Delimiter.LeadingTabs)
		}
		got = heredocShape(h)
	default:
		got = stringShape(s)
	}
	if got != want {
		return fmt.Sprintf("the content of %q is %q instead of %q", src, got, want)
	}
	if d := diff(p.simple, rest, cmpContent); d != "" {
		return fmt.Sprintf("what is around the string in %q: %s", src, d)
	}
	return ""
}

type stringRun struct {
	c           *kit.Ctx
	slot        *kit.Slot
	seen, steps int64
}

func (r *stringRun) try(desc string, n int) bool {
	r.seen++
	r.steps += int64(n)
	if len(desc) > 14000 {
		panic("case too long")
	}
	r.slot.Begin(desc)
	var msg string
	if m := kit.Guard(func() { msg = stringCase(desc) }); m != "" {
		msg = m
	}
	r.slot.End()
	if msg != "" {
		r.c.Violate(desc, "%s", msg)
	}
	if r.seen == 777 || r.seen == 9000 {
		f := strings.Fields(desc)
		b, _ := hex.DecodeString(f[len(f)-1])
		r.c.Sample(fmt.Sprintf("%s %s: %q", f[0], f[2], b))
	}
	return msg == ""
}

// bodies calls f with every sequence of n letters that is this worker's.
func bodies(c *kit.Ctx, letters []string, n int, f func(body string) bool) bool {
	idx := make([]int, n)
	for {
		if c.Stop() {
			return false
		}
		if c.Mine() {
			var sb strings.Builder
			for _, i := range idx {
				sb.WriteString(letters[i])
			}
			if !f(sb.String()) {
				return false
			}
		}
		k := n - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(letters) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			return true
		}
	}
}

var (
	stringAtoms = []string{"a", "u", `"`, "'", `\`, "0041", "d", "$", "%", "{", "}", "\n", "é", " ", "${x}", "%{x}", "$${", "%%{", "//", "#", "<<EOF\n", "/*", "${\"", "{x"}
	fewAtoms    = []string{"u", `"`, "'", `\`, "00", "4e", "$", "%", "{", "}", "\n", "x"}
	hereAtoms   = []string{"EOF", "E", "a1_b", "x", "-", " ", "\t", "\n", "$", "%", "{", "}", "${x}", "%{x}", "$${", "%%{", `"`, `\`, "//", "é", "<<E", ")"}
	fewHere     = []string{"E", "_", " ", "\n", "$", "%", "{", "}", "x"}
)

func (r *stringRun) strings(places []int, letters []string, n int) bool {
	return bodies(r.c, letters, n, func(body string) bool {
		h := hex.EncodeToString([]byte(body))
		for _, p := range places {
			for _, q := range []string{`"`, "'"} {
				if !r.try(fmt.Sprintf("string %d %s %s", p, q, h), n) {
					return false
				}
			}
		}
		return true
	})
}

func (r *stringRun) heredocs(places []int, delims, letters []string, n int) bool {
	return bodies(r.c, letters, n, func(body string) bool {
		ends := []string{"\n"}
		if body == "" || strings.HasSuffix(body, "\n") {
			ends = append(ends, "")
		} else if n <= 2 {
			ends = append(ends, "", " ", "\n\t")
		}
		for _, e := range ends {
			h := hex.EncodeToString([]byte(body + e))
			for _, p := range places {
				for _, d := range delims {
					if !r.try(fmt.Sprintf("heredoc %d %s %s", p, d, h), n) {
						return false
					}
				}
			}
		}
		return true
	})
}

func stringsRun(c *kit.Ctx) {
	ph := phase(c)
	r := &stringRun{c: c, slot: c.Slot(0)}
	defer func() {
		c.Count("states", r.seen)
		c.Count("transitions", r.steps)
		c.Count("traces_validated_against_impl", parses.Load())
	}()
	stringFindings(c)
	everyPlace, everyHere := upTo(len(stringPlaces)), upTo(len(heredocPlaces))
	delims := []string{"EOF", "-EOF", "E", "-E", "a1_b", "X"}
	// All characters.
	for i := 1; i < 0x180; i++ {
		for _, s := range []string{string(rune(i)), "\\" + string(rune(i)), "a" + string(rune(i)) + "b", "$" + string(rune(i)), "é%" + string(rune(i)) + "\n"} {
			if !c.Mine() {
				continue
			}
			h := hex.EncodeToString([]byte(s))
			ok := r.try("string 0 \" "+h, 1) && r.try("string 0 ' "+h, 1) && r.try("string 4 ' "+h, 1)
			h = hex.EncodeToString([]byte(s + "\n"))
			if !ok || !r.try("heredoc 0 EOF "+h, 1) || !r.try("heredoc 2 -EOF "+h, 1) {
				return
			}
		}
	}
	ph("all characters")
	// Long bodies.
	for _, n := range []int{8, 17, 33, 64, 129, 257, 500} {
		for i, a := range stringAtoms {
			for _, b := range append([]string{""}, stringAtoms[i:]...) {
				if c.Stop() {
					return
				}
				if !c.Mine() {
					continue
				}
				h := hex.EncodeToString([]byte(strings.Repeat(a+b, n)))
				if len(h) < 13000 && (!r.try("string 0 \" "+h, n) || !r.try("string 0 ' "+h, n)) {
					return
				}
			}
		}
		for i, a := range hereAtoms {
			for _, b := range append([]string{""}, hereAtoms[i:]...) {
				if c.Stop() {
					return
				}
				if !c.Mine() {
					continue
				}
				for _, e := range []string{"\n", "x\n"} {
					h := hex.EncodeToString([]byte(strings.Repeat(a+b, n) + e))
					if len(h) < 13000 && (!r.try("heredoc 0 EOF "+h, n) || !r.try("heredoc 2 -E "+h, n)) {
						return
					}
				}
			}
		}
	}
	ph("long")
	// Delimiters.
	for _, d := range []string{"a", "_", "0", "a0", "A_B_C", "if", "null", "true", "EOFEOF", strings.Repeat("Long_", 20)} {
		for _, tabs := range []string{"", "-"} {
			for n := 0; n <= 2; n++ {
				letters := append([]string{d, d + "x", "x" + d, d + d, strings.ToLower(d), d[:len(d)-1]}, "\n", " ", "$", "${x}")
				if !r.heredocs([]int{0, 1}, []string{tabs + d}, letters, n) {
					return
				}
			}
		}
	}
	ph("delimiters")
	for n := 0; n <= c.Pick(3, 4); n++ {
		if !r.strings(everyPlace, stringAtoms, n) || !r.heredocs(everyHere, delims, hereAtoms, n) {
			return
		}
	}
	ph("every place")
	if !r.strings([]int{0}, stringAtoms, 4) || !r.heredocs([]int{0}, []string{"EOF", "-E"}, hereAtoms, 4) {
		return
	}
	ph("4 in one place")
	for n := 5; n <= c.Pick(5, 7); n++ {
		if !r.strings([]int{0}, fewAtoms, n) || !r.heredocs([]int{0}, []string{"E"}, fewHere, n) {
			return
		}
	}
	ph("small alphabets")
}

// stringFindings runs the listed findings.
func stringFindings(c *kit.Ctx) {
	if c.Worker != 0 {
		return
	}
	for _, f := range c.Findings() {
		src, what, ok := quoted(f, "input=")
		if !ok {
			continue
		}
		open := strings.Index(src, "\n") + 1
		delim := strings.TrimSuffix(src[strings.Index(src, "<<")+2:open], "\n")
		want, _, _, _ := readHeredoc(src, open, delim, false)
		tree, err := parse(src)
		got := ""
		if err == nil {
			if _, h, _ := heredocPlaces[0].lift(tree); h != nil {
				got = heredocShape(h)
			}
		}
		if got != want {
			c.KnownFinding(fmt.Sprintf("%q %s", src, what))
		}
	}
}
