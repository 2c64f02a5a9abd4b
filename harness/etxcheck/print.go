package main

import (
	"strings"
	"unicode/utf8"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A style is a way to lay a program out.
type style struct {
	name   string
	space  string
	tight  bool // no space around brackets, separators and dots
	packed bool // none around operators either
	optLF  int  // 0: none, 1: always, 2: in turn
	lfs    int  // line breaks where any number may stand; -1: 0, 1, 2 in turn
	comma  int  // 0: where needed, 1: always, 2: in turn
	assign int  // 0: =, 1: :, 2: in turn
	label  int  // 0: bare where possible, 1: ", 2: '
	eof    bool // line break at the end
}

var styles = []style{
	{name: "plain", space: " ", optLF: 1, lfs: 1, comma: 1, eof: true},
	{name: "one-line", space: " ", optLF: 0, lfs: 0, comma: 0, label: 1},
	{name: "tight", space: " ", tight: true, optLF: 0, lfs: 0, comma: 1, assign: 1, label: 2},
	{name: "packed", space: "\t", tight: true, packed: true, optLF: 1, lfs: 0, comma: 0, assign: 2, eof: true},
	{name: "wide", space: "  \t ", optLF: 2, lfs: 2, comma: 2, assign: 2, label: 1},
	{name: "mixed", space: " ", tight: true, optLF: 2, lfs: -1, comma: 2, assign: 1, eof: true},
}

// A ptok is a token in its place.
type ptok struct {
	tok
	pos etx.Position
}

// A text is a program laid out.
type text struct {
	src  string
	toks []ptok
	skip string // why the tree has no text in this layout
}

type printer struct {
	st      style
	c       *mc.Chooser // deviations from the style, one by one
	turn    int
	out     strings.Builder
	pos     etx.Position
	toks    []ptok
	marks   []*etx.ASTNode
	prev    tok
	started bool
	skip    string
}

func (p *printer) write(s string) {
	p.out.WriteString(s)
	p.pos.Offset += len(s)
	if n := strings.Count(s, "\n"); n > 0 {
		p.pos.Line += n
		p.pos.Column = utf8.RuneCountInString(s[strings.LastIndex(s, "\n")+1:]) + 1
	} else {
		p.pos.Column += utf8.RuneCountInString(s)
	}
}

// pick is def, or with one deviation another value below n.
func (p *printer) pick(n, def int) int {
	if p.c == nil {
		return def
	}
	k := p.c.Choose(n, 1)
	if k == 0 {
		return def
	}
	if k <= def {
		return k - 1
	}
	return k
}

func (p *printer) inTurn(v int) int {
	if v == 2 {
		p.turn++
		return p.turn % 2
	}
	return v
}

const operators = "|| && | ^ & == != < <= > >= << >> + - * / % ? ! ~ = -> :"

func isOperator(t tok) bool {
	return t.kind == kPunct && strings.Contains(" "+operators+" ", " "+t.text+" ")
}

func isBracket(t tok) bool {
	return t.kind == kPunct && strings.Contains("()[]{},", t.text)
}

// gap is the white space between two tokens.
func (p *printer) gap(a, b tok) string {
	switch {
	case b.kind == kGlued, b.kind == kHereEnd:
		return ""
	case a.kind == kLine && b.kind == kLF:
		return ""
	case !p.started, a.kind == kLF, b.kind == kLF:
		if p.st.space != " " {
			return p.st.space
		}
		return ""
	case a.kind == kHeredoc:
		return ""
	case isOperator(a) && (a.text == "-" || a.text == "!" || a.text == "~" || a.text == "+") && p.prevUnary():
		if p.st.tight || p.st.packed || p.st.space == " " {
			return ""
		}
		return p.st.space
	}
	dot := a.text == "." && a.kind == kPunct || b.text == "." && b.kind == kPunct
	if dot && a.kind != kNumber && b.kind != kNumber {
		if p.st.space == " " || p.st.tight {
			return ""
		}
		return p.st.space
	}
	if !p.st.tight || a.kind == kNumber && dot || b.kind == kHeredoc || a.kind == kHere || b.kind == kHere {
		return p.st.space
	}
	if (isBracket(a) || isBracket(b)) && b.kind != kHeredoc {
		if a.text == "<<" || b.kind == kLine || b.kind == kMulti {
			return p.st.space
		}
		return ""
	}
	if p.st.packed {
		if isOperator(a) && a.text != "<<" && !isOperator(b) && b.kind != kLine && b.kind != kMulti {
			return ""
		}
		if isOperator(b) && b.text != "-" && b.text != "->" && !isOperator(a) && a.kind != kHereEnd {
			return ""
		}
	}
	return p.st.space
}

// prevUnary tells whether the last token was a prefix operator.
func (p *printer) prevUnary() bool {
	if len(p.toks) < 2 {
		return len(p.toks) == 1
	}
	b := p.toks[len(p.toks)-2].tok
	if b.kind == kGlued && (b.text == "${" || b.text == "%{") {
		return true
	}
	return isOperator(b) || b.kind == kKeyword || b.kind == kLF || b.kind == kPunct && strings.Contains("([{,", b.text)
}

func (p *printer) tok(t tok) {
	p.write(p.gap(p.prev, t))
	for _, m := range p.marks {
		m.Pos = p.pos
	}
	p.marks = p.marks[:0]
	p.toks = append(p.toks, ptok{t, p.pos})
	p.write(t.text)
	p.prev = t
	p.started = true
}

func (p *printer) lf(n int) {
	for ; n > 0; n-- {
		marks := p.marks
		p.marks = nil
		p.tok(tok{kLF, "\n"})
		p.marks = marks
	}
}

// resolve replaces the alternatives.
func (p *printer) resolve(items []item, out []item) []item {
	for _, it := range items {
		if it.k != iAlt {
			out = append(out, it)
			continue
		}
		def := 0
		if len(it.alts[0]) == 0 {
			// Nothing, unless a deviation says otherwise.
		} else if it.alts[0][0].tok.text == "=" {
			def = p.inTurn(p.st.assign)
		} else if it.alts[0][0].k == iTok {
			switch {
			case len(it.alts) == 3:
				def = p.st.label
			case p.st.label == 2:
				def = 1
			}
		} else {
			def = p.st.label & 1
		}
		out = p.resolve(it.alts[p.pick(len(it.alts), def)], out)
	}
	return out
}

// required is the next token that must come.
func required(items []item) (tok, bool) {
	for _, it := range items {
		if it.k == iTok {
			return it.tok, true
		}
	}
	return tok{}, false
}

func mayFollow(t tok, safe string) bool {
	if t.kind == kPunct {
		return strings.Contains(safe, t.text) && len(t.text) == 1
	}
	return strings.IndexByte(safe, t.kind) >= 0
}

func layOut(items []item, st style, c *mc.Chooser) text {
	p := &printer{st: st, c: c}
	p.pos = etx.Position{Line: 1, Column: 1}
	items = p.resolve(items, nil)
	for i, it := range items {
		next, more := required(items[i+1:])
		lfNext := more && next.kind == kLF
		switch it.k {
		case iTok:
			p.tok(it.tok)
		case iMark:
			p.marks = append(p.marks, it.node)
		case iLFs:
			if lfNext {
				p.skip = "blank lines where line breaks are swallowed"
			}
			def := st.lfs
			if def < 0 {
				p.turn++
				def = p.turn % 3
			}
			p.lf(p.pick(3, def))
		case iOptLF:
			if lfNext || p.pick(2, p.inTurn(st.optLF)) == 1 {
				p.lf(1)
			}
		case iEnd:
			switch {
			case lfNext:
				p.lf(1)
			case !more:
				def := 0
				if st.eof {
					def = 1
				}
				p.lf(p.pick(2, def))
			case !mayFollow(next, it.safe):
				p.lf(1)
			default:
				p.lf(p.pick(2, p.inTurn(st.optLF)))
			}
		case iSep:
			comma := p.pick(2, p.inTurn(st.comma)) == 1
			lf := lfNext || p.pick(2, p.inTurn(st.optLF)) == 1
			if !comma && !lf && !(more && mayFollow(next, it.safe)) {
				comma = true
			}
			if comma {
				p.tok(tok{kPunct, ","})
			}
			if lf {
				p.lf(1)
			}
		case iEOL:
			if more {
				p.lf(1)
			} else {
				def := 0
				if st.eof {
					def = 1
				}
				p.lf(p.pick(2, def))
			}
		}
		if it.k == iTok && it.tok.kind == kMulti && lfNext && !(i+1 < len(items) && items[i+1].k == iTok) {
			p.skip = "blank line after a comment without line break"
		}
	}
	return text{src: p.out.String(), toks: p.toks, skip: p.skip}
}
