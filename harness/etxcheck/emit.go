package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// The concrete syntax of the language, written down independently of the
// parser: emit turns a tree into the sequence of tokens it stands for, with
// the freedom the syntax leaves (optional separators, spellings). Printing
// such a sequence gives a program whose tree is known; matching it against the
// tokens of a source decides whether a tree accounts for the source.

// Token kinds.
const (
	kIdent   = 'i'
	kNumber  = 'n'
	kKeyword = 'k' // if, else, switch, case: no identifiers
	kPunct   = 'p'
	kLF      = 'l'
	kQuote   = 'q' // opening quote
	kGlued   = 's' // within a string or heredoc: no white space before it
	kLine    = 'c' // comment up to the end of the line
	kMulti   = 'm'
	kHeredoc = 'h' // <<EOF and line end
	kHereEnd = 'e'
	kString  = 'S' // a whole string, in unit mode
	kHere    = 'H' // a whole heredoc, in unit mode
)

type tok struct {
	kind byte
	text string
}

// Item kinds.
const (
	iTok   = iota
	iMark  // the node starts at the next token
	iLFs   // any number of line breaks
	iOptLF // one line break or none
	iEnd   // as iOptLF, but without it the next token must be one of safe
	iSep   // optional comma, then optional line break
	iAlt   // one of several sequences
	iEOL   // line break, or the end of the source
)

type item struct {
	k    int
	tok  tok
	node *etx.ASTNode
	safe string // kinds (and punctuation) that may follow an absent separator
	alts [][]item
}

type emitter struct {
	items []item
	bad   string
	unit  bool // strings and heredocs as one token
}

func (e *emitter) mark(n *etx.ASTNode) { e.items = append(e.items, item{k: iMark, node: n}) }

func (e *emitter) t(kind byte, text string) {
	e.items = append(e.items, item{k: iTok, tok: tok{kind, text}})
}

func (e *emitter) p(text string)      { e.t(kPunct, text) }
func (e *emitter) lfs()               { e.items = append(e.items, item{k: iLFs}) }
func (e *emitter) optLF()             { e.items = append(e.items, item{k: iOptLF}) }
func (e *emitter) end(safe string)    { e.items = append(e.items, item{k: iEnd, safe: safe}) }
func (e *emitter) sep(safe string)    { e.items = append(e.items, item{k: iSep, safe: safe}) }
func (e *emitter) alt(alts ...[]item) { e.items = append(e.items, item{k: iAlt, alts: alts}) }

func (e *emitter) fail(format string, args ...any) {
	if e.bad == "" {
		e.bad = fmt.Sprintf(format, args...)
	}
}

// one checks that exactly one alternative of a node is set.
func (e *emitter) one(what string, set ...bool) {
	n := 0
	for _, s := range set {
		if s {
			n++
		}
	}
	if n != 1 {
		e.fail("%s with %d alternatives set", what, n)
	}
}

func (e *emitter) emptyLine(s string) {
	if s == "" {
		e.fail("empty line without text")
	}
	for _, c := range s {
		if c != '\n' && c != '\r' {
			e.fail("empty line holding %q", s)
		}
		e.t(kLF, string(c))
	}
}

const (
	afterItem  = "ickm}" // what may follow an item without a line break
	afterValue = "insqSckm}])"
)

func (e *emitter) ast(a *etx.AST) {
	for _, it := range a.Items {
		if it == nil {
			e.fail("nil item")
			return
		}
		e.mark(&it.ASTNode)
		e.one("root item", it.EmptyLine != "", it.Decl != nil, it.Func != nil, it.Type != nil, it.Block != nil, it.Attribute != nil, it.Comment != nil)
		switch {
		case it.EmptyLine != "":
			e.emptyLine(it.EmptyLine)
		case it.Decl != nil:
			e.decl(&it.Decl.ASTNode, it.Decl.DeclType, "input output const val", it.Decl.Label, it.Decl.Type, it.Decl.Value)
			e.end(afterItem)
		case it.Func != nil:
			e.fn(it.Func)
			e.end(afterItem)
		case it.Type != nil:
			e.typ(it.Type)
			e.end(afterItem)
		case it.Block != nil:
			e.block(it.Block)
			e.end(afterItem)
		case it.Attribute != nil:
			e.attribute(it.Attribute)
		case it.Comment != nil:
			e.comment(it.Comment)
		}
	}
}

func (e *emitter) comment(c *etx.Comment) {
	e.mark(&c.ASTNode)
	e.one("comment", c.Multiline != "", len(c.SingleLine) > 0)
	if c.Multiline != "" {
		text := c.Multiline
		lf := ""
		if l := len(text); strings.HasSuffix(text, "\n") || strings.HasSuffix(text, "\r") {
			text, lf = text[:l-1], text[l-1:]
		}
		if !strings.HasPrefix(text, "/*") || !strings.HasSuffix(text, "*/") || len(text) < 4 {
			e.fail("comment with text %q", text)
		}
		e.t(kMulti, text)
		if lf != "" {
			e.t(kLF, lf)
		}
	}
	for _, l := range c.SingleLine {
		if !(strings.HasPrefix(l, "//") || strings.HasPrefix(l, "#")) || strings.Contains(l, "\n") {
			e.fail("comment with text %q", l)
		}
		e.t(kLine, l)
		e.items = append(e.items, item{k: iEOL})
	}
}

func (e *emitter) ident(n *etx.Ident) {
	if n == nil || len(n.Parts) == 0 {
		e.fail("identifier without parts")
		return
	}
	e.mark(&n.ASTNode)
	for i, p := range n.Parts {
		if i > 0 {
			e.p(".")
		}
		e.t(kIdent, p)
	}
}

func (e *emitter) name(s string) {
	if s == "" {
		e.fail("missing name")
	}
	e.t(kIdent, s)
}

func (e *emitter) attribute(a *etx.Attribute) {
	e.mark(&a.ASTNode)
	e.name(a.Key)
	if a.Value == nil {
		e.end("ckm}")
		return
	}
	e.assign()
	e.expr(a.Value)
	e.end(afterItem)
}

func (e *emitter) assign() {
	e.alt([]item{{k: iTok, tok: tok{kPunct, "="}}}, []item{{k: iTok, tok: tok{kPunct, ":"}}})
}

func (e *emitter) block(b *etx.Block) {
	e.mark(&b.ASTNode)
	e.name(b.Name)
	for _, l := range b.Labels {
		quoted := func(q string) []item {
			if e.unit {
				return []item{{k: iTok, tok: tok{kString, q + l + q}}}
			}
			return []item{{k: iTok, tok: tok{kQuote, q}}, {k: iTok, tok: tok{kGlued, l}}, {k: iTok, tok: tok{kGlued, q}}}
		}
		if identLike(l) {
			e.alt([]item{{k: iTok, tok: tok{kIdent, l}}}, quoted(`"`), quoted(`'`))
		} else {
			e.alt(quoted(`"`), quoted(`'`))
		}
	}
	e.p("{")
	e.optLF()
	for _, it := range b.Body {
		if it == nil {
			e.fail("nil item")
			return
		}
		e.mark(&it.ASTNode)
		e.one("block item", it.EmptyLine != "", it.Block != nil, it.Attribute != nil, it.Comment != nil)
		switch {
		case it.EmptyLine != "":
			e.emptyLine(it.EmptyLine)
		case it.Block != nil:
			e.block(it.Block)
			e.end(afterItem)
		case it.Attribute != nil:
			e.attribute(it.Attribute)
		case it.Comment != nil:
			e.comment(it.Comment)
		}
	}
	e.p("}")
}

var bareLabel = regexp.MustCompile(`^[A-Za-z](-?[0-9A-Za-z_])*$`)

func identLike(s string) bool {
	return bareLabel.MatchString(s) && s != "if" && s != "else" && s != "switch" && s != "case"
}

func (e *emitter) decl(n *etx.ASTNode, kind, kinds, label string, typ *etx.ParameterType, value *etx.Expr) {
	e.mark(n)
	if !strings.Contains(" "+kinds+" ", " "+kind+" ") {
		e.fail("declaration of kind %q", kind)
	}
	e.name(kind)
	e.name(label)
	if typ != nil {
		e.p(":")
		e.ptype(typ)
	}
	if value != nil {
		e.p("=")
		e.expr(value)
	}
}

func (e *emitter) ptype(t *etx.ParameterType) {
	e.mark(&t.ASTNode)
	e.one("type", t.Ident != nil, t.Func != nil)
	switch {
	case t.Ident != nil:
		e.ident(t.Ident)
	case t.Func != nil:
		e.mark(&t.Func.ASTNode)
		e.p("(")
		for i, p := range t.Func.Parameters {
			if i > 0 {
				e.p(",")
			}
			e.ptype(p)
		}
		e.p(")")
		e.p("->")
		e.ptype(&t.Func.Return)
	}
}

func (e *emitter) fn(f *etx.Func) {
	e.mark(&f.ASTNode)
	e.t(kIdent, "def")
	e.name(f.Label)
	e.p("(")
	for i, p := range f.Parameters {
		if i > 0 {
			e.p(",")
		}
		e.mark(&p.ASTNode)
		e.name(p.Label)
		if p.Type != nil {
			e.p(":")
			e.ptype(p.Type)
		}
	}
	e.p(")")
	if len(f.Return) > 0 {
		list := func() []item {
			x := &emitter{unit: e.unit}
			x.p("(")
			for i, r := range f.Return {
				if i > 0 {
					x.p(",")
				}
				x.ptype(r)
			}
			x.p(")")
			if x.bad != "" {
				e.fail("%s", x.bad)
			}
			return x.items
		}
		if len(f.Return) == 1 && f.Return[0].Func == nil {
			x := &emitter{unit: e.unit}
			x.ptype(f.Return[0])
			e.alt(x.items, list())
		} else {
			e.items = append(e.items, list()...)
		}
	} else {
		e.alt([]item{}, []item{{k: iTok, tok: tok{kPunct, "("}}, {k: iTok, tok: tok{kPunct, ")"}}})
	}
	e.lfs()
	e.p("{")
	e.lfs()
	for _, s := range f.Body {
		if s == nil {
			e.fail("nil statement")
			return
		}
		e.mark(&s.ASTNode)
		e.one("statement", s.EmptyLine != "", s.Comment != nil, s.Decl != nil, s.Expr != nil)
		switch {
		case s.EmptyLine != "":
			e.emptyLine(s.EmptyLine)
		case s.Comment != nil:
			e.comment(s.Comment)
		case s.Decl != nil:
			e.decl(&s.Decl.ASTNode, s.Decl.DeclType, "const val", s.Decl.Label, s.Decl.Type, s.Decl.Value)
			e.end(afterValue)
		case s.Expr != nil:
			e.expr(s.Expr)
			e.end(afterValue)
		}
	}
	e.p("}")
}

func (e *emitter) typ(t *etx.Type) {
	e.mark(&t.ASTNode)
	e.t(kIdent, "type")
	e.name(t.Label)
	e.one("type definition", t.Enum != nil, t.Object != nil)
	switch {
	case t.Enum != nil:
		e.t(kIdent, "enum")
		e.p("{")
		e.lfs()
		if len(t.Enum.Items) > 0 {
			e.mark(&t.Enum.ASTNode)
		}
		for _, it := range t.Enum.Items {
			e.mark(&it.ASTNode)
			e.one("enum item", it.EmptyLine != "", it.Comment != nil, it.Label != "")
			switch {
			case it.EmptyLine != "":
				e.emptyLine(it.EmptyLine)
			case it.Comment != nil:
				e.comment(it.Comment)
			default:
				e.name(it.Label)
				e.p(":")
				e.expr(&it.Value)
				e.end("icm}")
			}
		}
	case t.Object != nil:
		e.t(kIdent, "object")
		e.p("{")
		e.lfs()
		if len(t.Object.Items) > 0 {
			e.mark(&t.Object.ASTNode)
		}
		for _, it := range t.Object.Items {
			e.mark(&it.ASTNode)
			e.one("object item", it.EmptyLine != "", it.Comment != nil, it.Label != "")
			switch {
			case it.EmptyLine != "":
				e.emptyLine(it.EmptyLine)
			case it.Comment != nil:
				e.comment(it.Comment)
			default:
				e.name(it.Label)
				e.p(":")
				e.ptype(&it.Type)
				e.end("icm}")
			}
		}
	}
	e.p("}")
}

func (e *emitter) expr(x *etx.Expr) {
	if x == nil {
		e.fail("missing expression")
		return
	}
	e.mark(&x.ASTNode)
	e.one("expression", x.Left != nil, x.If != nil, x.Switch != nil)
	switch {
	case x.Left != nil:
		c := x.Left
		e.mark(&c.ASTNode)
		e.level(reflect.ValueOf(&c.Condition).Elem(), 0)
		if c.ConditionOp {
			e.p("?")
			e.expr(c.TrueExpr)
			e.p(":")
			e.expr(c.FalseExpr)
		} else if c.TrueExpr != nil || c.FalseExpr != nil {
			e.fail("branches without a conditional operator")
		}
	case x.If != nil:
		i := x.If
		e.mark(&i.ASTNode)
		e.t(kKeyword, "if")
		e.level(reflect.ValueOf(&i.Condition).Elem(), 0)
		e.lfs()
		e.p("{")
		e.lfs()
		if i.Left != nil {
			e.expr(i.Left)
		}
		e.lfs()
		e.p("}")
		e.lfs()
		if i.Right != nil {
			e.t(kKeyword, "else")
			e.p("{")
			e.lfs()
			e.expr(i.Right)
			e.lfs()
			e.p("}")
		}
	case x.Switch != nil:
		s := x.Switch
		e.mark(&s.ASTNode)
		e.t(kKeyword, "switch")
		e.level(reflect.ValueOf(&s.Selector).Elem(), 0)
		e.lfs()
		e.p("{")
		e.lfs()
		for _, c := range s.Cases {
			e.mark(&c.ASTNode)
			e.one("case", c.Default, len(c.Conditions) > 0)
			if c.Default {
				e.t(kIdent, "default")
			} else {
				e.t(kKeyword, "case")
				for i, x := range c.Conditions {
					if i > 0 {
						e.p(",")
					}
					e.level(reflect.ValueOf(x).Elem(), 0)
				}
			}
			e.p(":")
			e.lfs()
			e.p("{")
			e.lfs()
			e.expr(c.Expr)
			e.lfs()
			e.p("}")
			e.lfs()
		}
		e.p("}")
	}
}

// levels lists the operators from the loosest to the tightest, as documented.
var levels = [][]string{
	{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"},
}

var unaries = []string{"-", "!", "~", "+"}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func astNode(v reflect.Value) *etx.ASTNode {
	return v.FieldByName("ASTNode").Addr().Interface().(*etx.ASTNode)
}

// level emits a binary expression of level l or the unary below the last.
func (e *emitter) level(v reflect.Value, l int) {
	e.mark(astNode(v))
	if l == len(levels) {
		u := v.Addr().Interface().(*etx.ExprUnary)
		if u.Op != "" {
			if !contains(unaries, u.Op) {
				e.fail("unary operator %q", u.Op)
			}
			e.p(u.Op)
		}
		e.postfix(&u.Right)
		return
	}
	e.level(v.FieldByName("Left"), l+1)
	op, right := v.FieldByName("Op").String(), v.FieldByName("Right")
	if (op == "") != right.IsNil() {
		e.fail("operator %q and its right side do not go together", op)
		return
	}
	if op != "" {
		if !contains(levels[l], op) {
			e.fail("operator %q on the level of %v", op, levels[l])
		}
		e.p(op)
		e.level(right.Elem(), l)
	}
}

func (e *emitter) postfix(p *etx.ExprPostfix) {
	e.mark(&p.ASTNode)
	e.primary(&p.Value)
	if p.Index != nil {
		e.p("[")
		e.expr(p.Index)
		e.p("]")
	}
	if p.Post != nil {
		e.p(".")
		e.postfix(p.Post)
	}
}

func (e *emitter) primary(p *etx.ExprPrimary) {
	e.mark(&p.ASTNode)
	e.one("operand", p.SubExpression != nil, p.Value != nil, p.Ident != nil)
	switch {
	case p.SubExpression != nil:
		e.p("(")
		e.expr(p.SubExpression)
		e.p(")")
	case p.Value != nil:
		e.value(p.Value)
	case p.Ident != nil:
		e.ident(p.Ident)
		for _, m := range p.Monads {
			e.p("(")
			if len(m.Values) > 0 {
				e.mark(&m.ASTNode)
			}
			for i, v := range m.Values {
				if i > 0 {
					e.p(",")
				}
				e.expr(v)
			}
			e.p(")")
		}
		if p.Post != nil {
			e.p(".")
			e.postfix(p.Post)
		}
		return
	}
	if len(p.Monads) > 0 || p.Post != nil {
		e.fail("call parameters without a function")
	}
}

func (e *emitter) value(v *etx.Value) {
	e.mark(&v.ASTNode)
	e.one("value", v.Null, v.Bool != nil, v.Number != nil, v.Str != nil, v.Heredoc != nil, v.List != nil, v.Map != nil)
	switch {
	case v.Null:
		e.t(kIdent, "null")
	case v.Bool != nil:
		e.t(kIdent, fmt.Sprint(v.Bool.Value))
	case v.Number != nil:
		e.t(kNumber, v.Number.Source)
	case v.Str != nil:
		e.str(v.Str)
	case v.Heredoc != nil:
		e.heredoc(v.Heredoc)
	case v.List != nil:
		e.mark(&v.List.ASTNode)
		e.p("[")
		e.lfs()
		for _, it := range v.List.Items {
			e.mark(&it.ASTNode)
			e.one("list item", it.EmptyLine != "", it.Value != nil, it.Comment != nil)
			switch {
			case it.EmptyLine != "":
				e.emptyLine(it.EmptyLine)
			case it.Comment != nil:
				e.comment(it.Comment)
			case it.Value != nil:
				e.expr(it.Value)
				e.sep(afterValue)
			}
		}
		e.p("]")
	case v.Map != nil:
		e.mark(&v.Map.ASTNode)
		e.p("{")
		e.lfs()
		for _, it := range v.Map.Items {
			e.mark(&it.ASTNode)
			e.one("map item", it.EmptyLine != "", it.Key != nil, it.Comment != nil)
			switch {
			case it.EmptyLine != "":
				e.emptyLine(it.EmptyLine)
			case it.Comment != nil:
				e.comment(it.Comment)
			default:
				e.mark(&it.Key.ASTNode)
				e.one("map key", it.Key.Ident != nil, it.Key.Str != nil)
				if it.Key.Ident != nil {
					e.ident(it.Key.Ident)
				} else if it.Key.Str != nil {
					e.str(it.Key.Str)
				}
				e.assign()
				e.expr(it.Value)
				e.sep(afterValue)
			}
		}
		e.p("}")
	}
}

func quoteOf(s *etx.ValueString) string {
	for _, f := range s.Fragment {
		if f.Text == `"` {
			return `'`
		}
	}
	return `"`
}

func (e *emitter) str(s *etx.ValueString) {
	e.mark(&s.ASTNode)
	if e.unit {
		e.t(kString, unitString(s, e))
		return
	}
	q := quoteOf(s)
	e.t(kQuote, q)
	for _, f := range s.Fragment {
		e.mark(&f.ASTNode)
		e.one("string fragment", f.Escaped != "", f.Unicode != "", f.Expr != nil, f.Directive != nil, f.Text != "")
		switch {
		case f.Escaped != "":
			e.t(kGlued, f.Escaped)
		case f.Unicode != "":
			e.t(kGlued, `\u`)
			e.t(kGlued, f.Unicode)
		case f.Expr != nil:
			e.t(kGlued, "${")
			e.expr(f.Expr)
			e.p("}")
		case f.Directive != nil:
			e.t(kGlued, "%{")
			e.expr(f.Directive)
			e.p("}")
		default:
			e.t(kGlued, f.Text)
		}
	}
	e.t(kGlued, q)
}

// unitString is the canonical spelling of a string without interpolations.
func unitString(s *etx.ValueString, e *emitter) string {
	q := quoteOf(s)
	out := q
	for _, f := range s.Fragment {
		switch {
		case f.Escaped != "":
			out += f.Escaped
		case f.Unicode != "":
			out += `\u` + f.Unicode
		case f.Expr != nil || f.Directive != nil:
			x, open := f.Expr, "${"
			if x == nil {
				x, open = f.Directive, "%{"
			}
			in := &emitter{unit: true}
			in.expr(x)
			if in.bad != "" {
				e.fail("%s", in.bad)
			}
			out += open
			for _, t := range plainTokens(in.items) {
				out += " " + t.text
			}
			out += " }"
		default:
			out += f.Text
		}
	}
	return out + q
}

// plainTokens resolves items without choices.
func plainTokens(items []item) []tok {
	var out []tok
	for _, it := range items {
		switch it.k {
		case iTok:
			out = append(out, it.tok)
		case iAlt:
			out = append(out, plainTokens(it.alts[0])...)
		case iSep:
			out = append(out, tok{kPunct, ","})
		}
	}
	return out
}

func (e *emitter) heredoc(h *etx.Heredoc) {
	e.mark(&h.ASTNode)
	start := "<<"
	if h.Delimiter.LeadingTabs {
		start += "-"
	}
	start += h.Delimiter.Delimiter + "\n"
	if e.unit {
		text := start
		for _, f := range h.Fragments {
			if f.Expr != nil || f.Directive != nil {
				e.fail("interpolation in unit mode")
			}
			text += f.Text
		}
		e.t(kHere, text+h.Delimiter.Delimiter)
		return
	}
	e.t(kHeredoc, start)
	for _, f := range h.Fragments {
		e.mark(&f.ASTNode)
		e.one("heredoc fragment", f.Expr != nil, f.Directive != nil, f.Text != "")
		switch {
		case f.Expr != nil:
			e.t(kGlued, "${")
			e.expr(f.Expr)
			e.p("}")
		case f.Directive != nil:
			e.t(kGlued, "%{")
			e.expr(f.Directive)
			e.p("}")
		default:
			e.t(kGlued, f.Text)
		}
	}
	e.t(kHereEnd, h.Delimiter.Delimiter)
}
