package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// P17: the formatter's layout.

func p17(p *program) string {
	got, err := parse(p.text.src)
	if err != nil || scope(got) != "" {
		return ""
	}
	out := got.FormattedString()
	if msg := tidy(out); msg != "" {
		return msg + "\nformatted:\n" + out
	}
	if msg := bare(got, out); msg != "" {
		return msg
	}
	if p.items == nil {
		return ""
	}
	st := 0
	for i := range styles {
		if strings.HasPrefix(p.desc, "plain ") && strings.Fields(p.desc)[2] == fmt.Sprint(i) {
			st = i
		}
	}
	t := layOut(p.items, styles[(st+1)%len(styles)], nil)
	if t.skip != "" {
		return ""
	}
	other, err := parse(t.src)
	if err != nil || canon(other) != canon(got) || scope(other) != "" {
		return ""
	}
	if a, b := withoutBlanks(out), withoutBlanks(other.FormattedString()); a != b {
		return fmt.Sprintf("the same program in another layout is formatted differently: %s\nother layout:\n%s", around(a, b), t.src)
	}
	return ""
}

// bare prints the tree without its positions and parents, as one that was put
// together by hand.
func bare(got *etx.AST, out string) string {
	tree := deepCopy(reflect.ValueOf(got)).Interface().(*etx.AST)
	nodes(reflect.ValueOf(tree), func(v reflect.Value) {
		v.FieldByName("ASTNode").SetZero()
	})
	if again := tree.FormattedString(); again != out {
		return fmt.Sprintf("the same tree without positions and parents is formatted differently: %s\nformatted:\n%s", around(out, again), out)
	}
	return ""
}

func p17Source(src string) string {
	got, err := parse(src)
	if err != nil || scope(got) != "" {
		return ""
	}
	out := got.FormattedString()
	if msg := tidy(out); msg != "" {
		return msg + "\nformatted:\n" + out
	}
	if msg := bare(got, out); msg != "" {
		return msg
	}
	return ""
}

func withoutBlanks(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// tidy looks at the layout of a formatted program: every line that starts with
// a token is indented by one tab for each construct that is open around it.
func tidy(s string) string {
	if s == "" {
		return ""
	}
	if !strings.HasSuffix(s, "\n") || strings.HasSuffix(s, "\n\n") {
		return "a formatted program should end with one line break"
	}
	type frame struct {
		close byte
		deep  bool // opened at the end of a line
		quote byte // the string that this interpolation is in
	}
	var open []frame
	line := 1
	bol := true // at the start of a line, before its first token
	tabs := 0
	depth := func() int {
		n := 0
		for _, f := range open {
			if f.deep {
				n++
			}
		}
		return n
	}
	inString := func() bool {
		for _, f := range open {
			if f.quote != 0 {
				return true
			}
		}
		return false
	}
	first := func(i int) string {
		// The first token of a line: after the closing brackets it starts with.
		if !bol {
			return ""
		}
		bol = false
		if inString() {
			return ""
		}
		n := 0
		for j := i; j < len(s) && strings.IndexByte(")]}", s[j]) >= 0 && n < len(open); j++ {
			n++
		}
		keep := open
		open = open[:len(open)-n]
		want := depth()
		open = keep
		if tabs != want {
			return fmt.Sprintf("line %d is indented by %d tabs instead of %d", line, tabs, want)
		}
		return ""
	}
	i := 0
	text := func(quote byte) { // inside a string
		for i < len(s) {
			switch {
			case s[i] == '\\':
				i++
			case s[i] == quote:
				i++
				return
			case i+1 < len(s) && (s[i] == '$' || s[i] == '%') && s[i] != s[i-1] && s[i+1] == '{':
				i += 2
				open = append(open, frame{'}', i < len(s) && s[i] == '\n', quote})
				return
			}
			if i < len(s) && s[i] == '\n' {
				line++
			}
			i++
		}
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\n':
			if i > 0 && (s[i-1] == ' ' || s[i-1] == '\t') && !inString() {
				return fmt.Sprintf("line %d ends with white space", line)
			}
			line++
			bol, tabs = true, 0
			i++
			continue
		case c == '\t' && bol:
			tabs++
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			if bol && !inString() && c == ' ' {
				return fmt.Sprintf("line %d starts with a space", line)
			}
			i++
			continue
		}
		if msg := first(i); msg != "" {
			return msg
		}
		switch {
		case c == '#' || strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
			if s[i-1] == ' ' || s[i-1] == '\t' { // the text of the comment
				line++
				i++
				bol, tabs = true, 0
			}
		case strings.HasPrefix(s[i:], "/*"):
			end := strings.Index(s[i+2:], "*/")
			if end < 0 {
				return ""
			}
			line += strings.Count(s[i:i+2+end+2], "\n")
			i += 2 + end + 2
		case c == '"' || c == '\'':
			i++
			text(c)
		case c == '{' || c == '[' || c == '(':
			open = append(open, frame{map[byte]byte{'{': '}', '[': ']', '(': ')'}[c], s[i+1] == '\n', 0})
			i++
		case c == '}' || c == ']' || c == ')':
			if len(open) == 0 {
				return ""
			}
			f := open[len(open)-1]
			open = open[:len(open)-1]
			i++
			if f.close != c {
				return fmt.Sprintf("line %d has a %c where a %c is open", line, c, f.close)
			}
			if f.quote != 0 {
				text(f.quote)
			}
		default:
			i++
		}
	}
	return ""
}
