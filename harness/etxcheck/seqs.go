package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/alecthomas/participle/v2/lexer"
	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// An atom is what a sequence consists of: a token, or several that belong
// together.
type atom struct {
	text string
	toks []tok
}

func at(kind byte, texts ...string) []atom {
	var out []atom
	for _, t := range texts {
		out = append(out, atom{t, []tok{{kind, t}}})
	}
	return out
}

func cat(lists ...[]atom) []atom {
	var out []atom
	for _, l := range lists {
		out = append(out, l...)
	}
	return out
}

var (
	lineComment = []atom{{"// c\n", []tok{{kLine, "// c"}, lfTok}}}
	lineBreak   = []atom{{"\n", []tok{lfTok}}}
	alphabet    = cat(
		at(kIdent, "a"), at(kNumber, "1"), at(kString, `"s"`),
		at(kPunct, "=", ":", "{", "}", "(", ")", "[", "]", ",", ".", "-", "*", "?", "->"),
		lineBreak,
		at(kKeyword, "if", "else", "switch", "case"),
		at(kIdent, "default", "val", "def", "type", "enum", "object", "input", "null", "true"),
		at(kMulti, "/* c */"), lineComment,
		at(kPunct, "!", "||", "==", "=>"),
	)
)

// core is the part of the alphabet that longer sequences are made of.
func core() []atom {
	var out []atom
	for _, a := range alphabet {
		if !strings.Contains(" * ? object input null true -> => def type enum || == ", " "+a.text+" ") {
			out = append(out, a)
		}
	}
	return out
}

// A frame is a program with a gap for a sequence.
type frame struct{ before, after []atom }

func seq(words string) []atom {
	var out []atom
	for _, w := range strings.Fields(words) {
		found := false
		for _, a := range alphabet {
			if a.text == w {
				out = append(out, a)
				found = true
			}
		}
		if w == "LF" {
			out = append(out, lineBreak...)
			found = true
		}
		if !found {
			out = append(out, at(kIdent, w)...)
		}
	}
	return out
}

var frames = []frame{
	{nil, nil},
	{seq("a ="), nil},
	{seq("a = a"), nil},
	{seq("a = a LF"), seq("a = 1")},
	{seq("b {"), seq("}")},
	{seq("b { a = a"), seq("}")},
	{seq("def f ("), seq(") { a }")},
	{seq("def f ( )"), seq("{ a }")},
	{seq("def f ( ) {"), seq("}")},
	{seq("def f ( ) { val a"), seq("}")},
	{seq("type t enum {"), seq("}")},
	{seq("type t object { a :"), seq("}")},
	{seq("a = ["), seq("]")},
	{seq("a = [ a"), seq("a ]")},
	{seq("a = { k :"), seq("}")},
	{seq("a = {"), seq("}")},
	{seq("a = f ("), seq(")")},
	{seq("a = f ( a"), seq(")")},
	{seq("a = a ["), seq("]")},
	{seq("a = a [ 1 ]"), nil},
	{seq("a = if a"), seq("}")},
	{seq("a = if a { a }"), seq("a }")},
	{seq("a = switch a {"), seq("}")},
	{seq("a = switch a { case a"), seq("{ a } }")},
	{seq("a = switch a { case 1 : { a }"), seq("}")},
	{seq("a = a ?"), seq("a")},
	{seq("input a"), seq("a")},
	{seq("input a : ("), seq(") -> a")},
	{seq("type"), seq("{ a : 1 }")},
	{seq("b a"), seq("}")},
}

// join writes atoms down.
func join(as []atom) string {
	var sb strings.Builder
	for i, a := range as {
		if i > 0 && as[i-1].text != "\n" {
			sb.WriteString(" ")
		}
		sb.WriteString(a.text)
	}
	return sb.String()
}

func tokensOf(as []atom) []tok {
	var out []tok
	for _, a := range as {
		out = append(out, a.toks...)
	}
	return out
}

// judge decides what the parser did with a sequence of tokens: an accepted one
// has a well-formed tree that accounts for it, a refused one has an error at a
// position of the source and no tree.
func judge(prop, src string, toks []tok) string {
	tree, err := parse(src)
	if err != nil {
		if prop != "P13" {
			return ""
		}
		return refused(src, tree, err)
	}
	if tree == nil {
		return "neither tree nor error"
	}
	e := &emitter{unit: true}
	e.ast(tree)
	if e.bad != "" {
		return "accepted with a malformed tree: " + e.bad
	}
	if msg := match(e.items, toks); msg != "" {
		return "accepted, but " + msg
	}
	return ""
}

func refused(src string, tree *etx.AST, err error) string {
	if tree != nil {
		return fmt.Sprintf("refused (%v), but a tree is returned", err)
	}
	if err.Error() == "" {
		return "refused without a message"
	}
	var at interface{ Position() lexer.Position }
	if !errors.As(err, &at) {
		return fmt.Sprintf("the error has no position: %v", err)
	}
	if msg := inside(src, at.Position()); msg != "" {
		return fmt.Sprintf("%s: error %v", msg, err)
	}
	return ""
}

// sequences runs f on every frame filled with every sequence of n atoms.
func sequences(c *kit.Ctx, alphabet []atom, n int, which []int, f func(src string, toks []tok) string) {
	slot := c.Slot(0)
	idx := make([]int, n)
	var seen, steps int64
	for _, fr := range which {
		for i := range idx {
			idx[i] = 0
		}
		for {
			if c.Stop() {
				break
			}
			if c.Mine() {
				as := append([]atom{}, frames[fr].before...)
				for _, i := range idx {
					as = append(as, alphabet[i])
				}
				as = append(as, frames[fr].after...)
				src := join(as)
				seen++
				steps += int64(len(as))
				desc := describe(as)
				slot.Begin(desc)
				var msg string
				if m := kit.Guard(func() { msg = f(src, tokensOf(as)) }); m != "" {
					msg = m
				}
				slot.End()
				if msg != "" {
					c.Violate(desc, "%s\nsource:\n%s", msg, src)
					return
				}
				if seen == 4000 {
					c.Sample(src)
				}
			}
			k := n - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(alphabet) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 {
				break
			}
		}
	}
	c.Count("states", seen)
	c.Count("transitions", steps)
}

// A case of tokens is described by kind and text of each.
func describe(as []atom) string {
	var sb strings.Builder
	sb.WriteString("tokens")
	for _, a := range as {
		sb.WriteString("\x01")
		sb.WriteString(a.text)
		for _, t := range a.toks {
			sb.WriteString("\x02")
			sb.WriteByte(t.kind)
			sb.WriteString(t.text)
		}
	}
	return sb.String()
}

func undescribe(desc string) []atom {
	var out []atom
	for _, f := range strings.Split(desc, "\x01")[1:] {
		p := strings.Split(f, "\x02")
		a := atom{text: p[0]}
		for _, t := range p[1:] {
			a.toks = append(a.toks, tok{t[0], t[1:]})
		}
		out = append(out, a)
	}
	return out
}

// mutants runs f on every single-token change of the programs of a plan.
func mutants(c *kit.Ctx, pl plan, others []atom, f func(src string, toks []tok) string) {
	slot := c.Slot(0)
	var seen, steps int64
	programs(c, pl, func(p *program) string {
		e := &emitter{unit: true}
		e.ast(p.tree)
		if e.bad != "" {
			return ""
		}
		t := layOut(e.items, styles[pl.styles[0]], nil)
		if t.skip != "" {
			return ""
		}
		var as []atom
		for i := 0; i < len(t.toks); i++ {
			k := t.toks[i].tok
			if k.kind == kLine && i+1 < len(t.toks) {
				as = append(as, atom{k.text + "\n", []tok{k, lfTok}})
				i++
				continue
			}
			if k.kind == kLF && k.text != "\n" {
				return ""
			}
			as = append(as, atom{k.text, []tok{k}})
		}
		try := func(m []atom) string {
			src := join(m)
			seen++
			steps += int64(len(m))
			slot.Begin(describe(m))
			msg := f(src, tokensOf(m))
			if msg != "" {
				c.Violate(describe(m), "%s\nsource:\n%s", msg, src)
				return msg
			}
			return ""
		}
		splice := func(i, cut int, put ...atom) []atom {
			out := append([]atom{}, as[:i]...)
			out = append(out, put...)
			return append(out, as[i+cut:]...)
		}
		for i := range as {
			if c.Stop() {
				return ""
			}
			if try(splice(i, 1)) != "" || try(splice(i, 0, as[i])) != "" || try(as[:i]) != "" {
				return ""
			}
			if i+1 < len(as) && try(splice(i, 2, as[i+1], as[i])) != "" {
				return ""
			}
			for _, o := range others {
				if try(splice(i, 1, o)) != "" || try(splice(i, 0, o)) != "" {
					return ""
				}
			}
		}
		return ""
	})
	c.Count("states", seen)
	c.Count("transitions", steps)
}
