package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A gen builds a program by making choices; alternative 0 of every choice is
// the plainest one, every other costs one deviation.
type gen struct {
	c       *mc.Chooser
	names   int
	noBrace int    // within an interpolation, where a brace ends it
	skip    string // why the choices made describe no program
}

func (g *gen) choose(n int) int { return g.c.Choose(n, 1) }
func (g *gen) flip() bool       { return g.choose(2) == 1 }

func (g *gen) invalid(why string) {
	if g.skip == "" {
		g.skip = why
	}
}

func (g *gen) fresh() string {
	g.names++
	return fmt.Sprintf("x%d", g.names)
}

// label is a plain name, or one that exercises the rule for names.
func (g *gen) label() string {
	n := g.fresh()
	switch g.choose(4) {
	case 1:
		return n + "-a_1"
	case 2:
		return "iffy" + n
	case 3:
		return strings.ToUpper(n) + "_"
	}
	return n
}

// Contexts: what stands at the top of a program.
var rootKinds = []string{"attribute", "input", "output", "const", "val", "func", "enum", "object", "block", "line-comment", "comment", "empty"}

func (g *gen) program(first int) *etx.AST {
	a := &etx.AST{}
	kind := first
	for n := 0; ; n++ {
		a.Items = append(a.Items, g.rootItem(rootKinds[kind]))
		if n > 4 {
			break
		}
		k := g.choose(len(rootKinds) + 1)
		if k == 0 {
			break
		}
		kind = k - 1
	}
	var prevLine, prevEmpty bool
	for _, it := range a.Items {
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
	}
	return a
}

func (g *gen) rootItem(kind string) *etx.RootItem {
	it := &etx.RootItem{}
	switch kind {
	case "attribute":
		it.Attribute = g.attribute()
	case "input", "output", "const", "val":
		it.Decl = g.decl(kind)
	case "func":
		it.Func = g.fn()
	case "enum":
		it.Type = g.enum()
	case "object":
		it.Type = g.object()
	case "block":
		it.Block = g.block()
	case "line-comment":
		it.Comment = g.comment(false)
	case "comment":
		it.Comment = g.comment(true)
	case "empty":
		it.EmptyLine = g.empty()
	}
	return it
}

func (g *gen) empty() string {
	return []string{"\n", "\n\n", "\n\n\n", "\r\n"}[g.choose(4)]
}

func (g *gen) comment(multi bool) *etx.Comment {
	if multi {
		return &etx.Comment{Multiline: []string{"/* m */\n", "/* m */", "/**/\n", "/* é\n // *** */\n", "/*\n\n*/"}[g.choose(5)]}
	}
	n := g.names + 1
	g.names++
	return &etx.Comment{SingleLine: [][]string{
		{fmt.Sprintf("// c%d", n)}, {fmt.Sprintf("# c%d", n)}, {"//"}, {fmt.Sprintf("// c%d", n), "# é /* d"}, {fmt.Sprintf("#c%d\"${", n), "//", "#"},
	}[g.choose(5)]}
}

// anyComment is one of both kinds.
func (g *gen) anyComment() *etx.Comment { return g.comment(g.flip()) }

func (g *gen) attribute() *etx.Attribute {
	a := &etx.Attribute{Key: g.label()}
	if !g.flip() {
		a.Value = g.expr()
	}
	return a
}

func (g *gen) decl(kind string) *etx.Decl {
	d := &etx.Decl{DeclType: kind, Label: g.label()}
	if g.flip() {
		d.Type = g.ptype()
	}
	if !g.flip() {
		d.Value = g.expr()
	}
	return d
}

func (g *gen) ptype() *etx.ParameterType {
	switch g.choose(4) {
	case 1:
		return &etx.ParameterType{Ident: g.dotted(2)}
	case 2:
		return &etx.ParameterType{Func: &etx.FuncSignature{Return: etx.ParameterType{Ident: g.dotted(1)}}}
	case 3:
		f := &etx.FuncSignature{Parameters: []*etx.ParameterType{g.ptype()}}
		if g.flip() {
			f.Parameters = append(f.Parameters, g.ptype())
		}
		f.Return = *g.ptype()
		return &etx.ParameterType{Func: f}
	}
	return &etx.ParameterType{Ident: g.dotted(1)}
}

func (g *gen) dotted(n int) *etx.Ident {
	id := &etx.Ident{}
	for ; n > 0; n-- {
		id.Parts = append(id.Parts, g.fresh())
	}
	return id
}

func (g *gen) block() *etx.Block {
	b := &etx.Block{Name: g.label()}
	switch g.choose(5) {
	case 1:
		b.Labels = []string{g.fresh()}
	case 2:
		b.Labels = []string{"a label é"}
	case 3:
		b.Labels = []string{g.fresh(), "1.x", g.fresh()}
	case 4:
		b.Labels = []string{"#", "//", "{ }", "/**/"}
	}
	var prevLine, prevEmpty bool
	kind := g.choose(5)
	for n := 0; n < 4; n++ {
		it := &etx.BlockItem{}
		switch kind {
		case 0: // the default body is one attribute
			if n > 0 {
				return b
			}
			it.Attribute = g.attribute()
		case 1:
			if n == 0 {
				return b
			}
			it.Attribute = g.attribute()
		case 2:
			it.Block = g.block()
		case 3:
			it.Comment = g.anyComment()
		case 4:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		b.Body = append(b.Body, it)
		kind = g.choose(5)
	}
	return b
}

func (g *gen) fn() *etx.Func {
	f := &etx.Func{Label: g.label()}
	for n := []int{1, 0, 2, 3}[g.choose(4)]; n > 0; n-- {
		p := &etx.FuncParameter{Label: g.fresh()}
		if g.flip() {
			p.Type = g.ptype()
		}
		f.Parameters = append(f.Parameters, p)
	}
	for n := g.choose(4); n > 0; n-- {
		f.Return = append(f.Return, g.ptype())
	}
	var prevLine, prevEmpty bool
	kind := g.choose(5)
	for n := 0; n < 4; n++ {
		it := &etx.FuncStatement{}
		switch kind {
		case 0: // the default body is one expression
			if n > 0 {
				return f
			}
			it.Expr = g.expr()
		case 1:
			if n == 0 {
				return f
			}
			it.Expr = g.expr()
		case 2:
			d := &etx.FuncDecl{DeclType: []string{"val", "const"}[g.choose(2)], Label: g.label()}
			if g.flip() {
				d.Type = g.ptype()
			}
			if !g.flip() {
				d.Value = g.expr()
			}
			it.Decl = d
		case 3:
			it.Comment = g.anyComment()
		case 4:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		f.Body = append(f.Body, it)
		kind = g.choose(5)
	}
	return f
}

func (g *gen) enum() *etx.Type {
	t := &etx.Type{Label: g.label(), Enum: &etx.TypeEnum{}}
	var prevLine, prevEmpty bool
	kind := g.choose(4)
	for n := 0; n < 4; n++ {
		it := &etx.TypeEnumItem{}
		switch kind {
		case 0:
			if n > 0 {
				return t
			}
			it.Label, it.Value = g.label(), *g.expr()
		case 1:
			if n == 0 {
				return t
			}
			it.Label, it.Value = g.label(), *g.expr()
		case 2:
			it.Comment = g.anyComment()
		case 3:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		t.Enum.Items = append(t.Enum.Items, it)
		kind = g.choose(4)
	}
	return t
}

func (g *gen) object() *etx.Type {
	t := &etx.Type{Label: g.label(), Object: &etx.TypeObject{}}
	var prevLine, prevEmpty bool
	kind := g.choose(4)
	for n := 0; n < 4; n++ {
		it := &etx.TypeObjectItem{}
		switch kind {
		case 0:
			if n > 0 {
				return t
			}
			it.Label, it.Type = g.label(), *g.ptype()
		case 1:
			if n == 0 {
				return t
			}
			it.Label, it.Type = g.label(), *g.ptype()
		case 2:
			it.Comment = g.anyComment()
		case 3:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		t.Object.Items = append(t.Object.Items, it)
		kind = g.choose(4)
	}
	return t
}

func (g *gen) expr() *etx.Expr {
	n := 4
	if g.noBrace > 0 {
		n = 2
	}
	switch g.choose(n) {
	case 1:
		return &etx.Expr{Left: &etx.ExprConditional{Condition: *g.chain(), ConditionOp: true, TrueExpr: g.expr(), FalseExpr: g.expr()}}
	case 2:
		i := &etx.ExprIf{Condition: *g.chain()}
		switch g.choose(4) {
		case 0:
			i.Left = g.expr()
		case 1:
			i.Left = g.expr()
			i.Right = g.expr()
		case 2:
		case 3:
			i.Right = g.expr()
		}
		return &etx.Expr{If: i}
	case 3:
		s := &etx.ExprSwitch{Selector: *g.chain()}
		for n := []int{1, 0, 2, 3}[g.choose(4)]; n > 0; n-- {
			c := &etx.ExprCase{}
			if g.flip() {
				c.Default = true
			} else {
				c.Conditions = append(c.Conditions, g.chain())
				for m := g.choose(3); m > 0; m-- {
					c.Conditions = append(c.Conditions, g.chain())
				}
			}
			c.Expr = g.expr()
			s.Cases = append(s.Cases, c)
		}
		return &etx.Expr{Switch: s}
	}
	return &etx.Expr{Left: &etx.ExprConditional{Condition: *g.chain()}}
}

// An operand with the operator that follows it.
type link struct {
	unary etx.ExprUnary
	op    string
}

func allBinary() []string {
	var all []string
	for _, l := range levels {
		all = append(all, l...)
	}
	return all
}

var binaries = allBinary()

func (g *gen) chain() *etx.ExprLogicalOr {
	var links []link
	for {
		l := link{unary: g.unary()}
		if len(links) < 6 {
			if k := g.choose(len(binaries) + 1); k > 0 {
				l.op = binaries[k-1]
			}
		}
		links = append(links, l)
		if l.op == "" {
			break
		}
	}
	out := &etx.ExprLogicalOr{}
	buildLevel(reflect.ValueOf(out).Elem(), links, 0)
	return out
}

// buildLevel groups the operands by the documented precedence: the loosest
// operators split first, one level after the other.
func buildLevel(v reflect.Value, links []link, l int) {
	if l == len(levels) {
		v.Set(reflect.ValueOf(links[0].unary))
		return
	}
	for i, k := range links[:len(links)-1] {
		if contains(levels[l], k.op) {
			v.FieldByName("Op").SetString(k.op)
			right := reflect.New(v.Type())
			buildLevel(right.Elem(), links[i+1:], l)
			v.FieldByName("Right").Set(right)
			links = links[:i+1]
			break
		}
	}
	buildLevel(v.FieldByName("Left"), links, l+1)
}

func (g *gen) unary() etx.ExprUnary {
	u := etx.ExprUnary{}
	if k := g.choose(len(unaries) + 1); k > 0 {
		u.Op = unaries[k-1]
	}
	u.Right = *g.postfix(false)
	return u
}

// postfix: afterName tells that a name and a dot come right before, so that a
// name here would belong to them.
func (g *gen) postfix(afterName bool) *etx.ExprPostfix {
	p := &etx.ExprPostfix{Value: g.primary(afterName)}
	if p.Value.Post == nil {
		if g.flip() {
			p.Index = g.expr()
		}
		if (p.Value.Ident == nil || p.Index != nil) && g.flip() {
			p.Post = g.postfix(false)
			if startsWithNumber(p.Post) {
				g.invalid("a dot before a number")
			}
		}
	}
	return p
}

func startsWithNumber(p *etx.ExprPostfix) bool {
	return p.Value.Value != nil && p.Value.Value.Number != nil
}

func (g *gen) primary(afterName bool) etx.ExprPrimary {
	k := g.choose(6)
	if afterName {
		if k >= 3 {
			g.invalid("a name after a name and a dot")
		}
		if k == 0 {
			return etx.ExprPrimary{SubExpression: g.expr()}
		}
	}
	switch k {
	case 1:
		return etx.ExprPrimary{Value: g.value()}
	case 2:
		return etx.ExprPrimary{SubExpression: g.expr()}
	case 3: // a call
		p := etx.ExprPrimary{Ident: g.name()}
		for n := []int{1, 2, 3}[g.choose(3)]; n > 0; n-- {
			m := &etx.ExprInvocationParams{}
			for n := []int{1, 0, 2, 3}[g.choose(4)]; n > 0; n-- {
				m.Values = append(m.Values, g.expr())
			}
			p.Monads = append(p.Monads, m)
		}
		if g.flip() {
			p.Post = g.postfix(false)
			if startsWithNumber(p.Post) {
				g.invalid("a dot before a number")
			}
		}
		return p
	case 4: // a name, a dot and something else than a name
		p := etx.ExprPrimary{Ident: g.name(), Post: g.postfix(true)}
		if startsWithNumber(p.Post) {
			g.invalid("a dot before a number")
		}
		if v := p.Post.Value.Value; v != nil && (v.Null || v.Bool != nil) {
			g.invalid("a name after a name and a dot")
		}
		return p
	case 5:
		return etx.ExprPrimary{Ident: &etx.Ident{Parts: []string{[]string{"if_x", "x-if", "e5", "nullable", "trueish", "null_", "E1", "default-x"}[g.choose(8)]}}}
	}
	return etx.ExprPrimary{Ident: g.name()}
}

func (g *gen) name() *etx.Ident { return g.dotted(1 + g.choose(3)) }

var numbers = []string{"1", "0", "1.5", ".5", "1e3", "2.5E-1_0", "0x1F", "0b101", "0o17", "1_000", "18446744073709551617"}

func (g *gen) value() *etx.Value {
	n := 9
	if g.noBrace > 0 {
		n = 8
	}
	switch g.choose(n) {
	case 1:
		return &etx.Value{Str: g.str()}
	case 2:
		return &etx.Value{List: g.list()}
	case 3:
		return &etx.Value{Null: true}
	case 4:
		return &etx.Value{Bool: &etx.ValueBool{Value: true}}
	case 5:
		return &etx.Value{Bool: &etx.ValueBool{}}
	case 6:
		return &etx.Value{Heredoc: g.heredoc()}
	case 7:
		return &etx.Value{Number: &etx.ValueNumber{Source: numbers[1+g.choose(len(numbers)-1)]}}
	case 8:
		return &etx.Value{Map: g.mapping()}
	}
	return &etx.Value{Number: &etx.ValueNumber{Source: numbers[0]}}
}

func (g *gen) inner() *etx.Expr {
	g.noBrace++
	x := g.expr()
	g.noBrace--
	return x
}

func (g *gen) str() *etx.ValueString {
	s := &etx.ValueString{}
	n := []int{1, 0, 2, 3}[g.choose(4)]
	for i := 0; i < n; i++ {
		f := &etx.StringFragment{}
		k := g.choose(13)
		if i > 0 {
			p := s.Fragment[i-1]
			plain := p.Text != "" && len(p.Text) > 1
			if k == 0 && plain && p.Text != "$${" && p.Text != "%%{" {
				k = 1 // two plain texts in a row are one
			}
			if (p.Text == "$" || p.Text == "%") && k != 0 && k != 1 {
				g.invalid("a lone $ or % before something special")
			}
		}
		switch k {
		case 0:
			f.Text = fmt.Sprintf("st é%d{}", g.names)
			g.names++
		case 1:
			f.Escaped = `\"`
		case 2:
			f.Escaped = `\\`
		case 3:
			f.Escaped = `\n`
		case 4:
			f.Unicode = "00e9"
		case 5:
			f.Unicode = "0001F600"
		case 6:
			f.Expr = g.inner()
		case 7:
			f.Directive = g.inner()
		case 8:
			f.Text = "$"
		case 9:
			f.Text = "%"
		case 10:
			f.Text = "'"
		case 11:
			f.Text = "$${"
		case 12:
			f.Text = "%%{"
		}
		s.Fragment = append(s.Fragment, f)
	}
	return s
}

func (g *gen) heredoc() *etx.Heredoc {
	h := &etx.Heredoc{}
	h.Delimiter.Delimiter = []string{"EOF", "E_1", "X"}[g.choose(3)]
	h.Delimiter.LeadingTabs = g.flip()
	text := func(s string) { h.Fragments = append(h.Fragments, &etx.HeredocFragment{Text: s}) }
	switch g.choose(9) {
	case 0:
		text("one\n")
	case 1:
	case 2:
		text("\n")
	case 3:
		text("a\n\n \"b' // c\n")
	case 4:
		text("a ")
		h.Fragments = append(h.Fragments, &etx.HeredocFragment{Expr: g.inner()})
		text("\n")
	case 5:
		h.Fragments = append(h.Fragments, &etx.HeredocFragment{Directive: g.inner()})
		text(" z\n")
	case 6:
		text("$${ %%{ $ % } \\n\n")
	case 7:
		text(h.Delimiter.Delimiter + "x\n " + h.Delimiter.Delimiter + "\n")
	case 8:
		h.Fragments = append(h.Fragments, &etx.HeredocFragment{Expr: g.inner()}, &etx.HeredocFragment{Expr: g.inner()})
		text("\té\n")
	}
	return h
}

func (g *gen) list() *etx.ValueList {
	l := &etx.ValueList{}
	var prevLine, prevEmpty bool
	kind := g.choose(4)
	for n := 0; n < 4; n++ {
		it := &etx.ListItem{}
		switch kind {
		case 0:
			if n > 0 {
				return l
			}
			it.Value = g.expr()
		case 1:
			if n == 0 {
				return l
			}
			it.Value = g.expr()
		case 2:
			it.Comment = g.anyComment()
		case 3:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		l.Items = append(l.Items, it)
		kind = g.choose(4)
	}
	return l
}

func (g *gen) mapping() *etx.ValueMap {
	m := &etx.ValueMap{}
	entry := func(it *etx.MapItem) {
		switch g.choose(3) {
		case 0:
			it.Key = &etx.MapKey{Ident: g.dotted(1)}
		case 1:
			it.Key = &etx.MapKey{Str: g.str()}
		case 2:
			it.Key = &etx.MapKey{Ident: g.dotted(2)}
		}
		it.Value = g.expr()
	}
	var prevLine, prevEmpty bool
	kind := g.choose(4)
	for n := 0; n < 4; n++ {
		it := &etx.MapItem{}
		switch kind {
		case 0:
			if n > 0 {
				return m
			}
			entry(it)
		case 1:
			if n == 0 {
				return m
			}
			entry(it)
		case 2:
			it.Comment = g.anyComment()
		case 3:
			it.EmptyLine = g.empty()
		}
		line := it.Comment != nil && len(it.Comment.SingleLine) > 0
		if line && prevLine || it.EmptyLine != "" && prevEmpty {
			g.invalid("adjacent items merge")
		}
		prevLine, prevEmpty = line, it.EmptyLine != ""
		m.Items = append(m.Items, it)
		kind = g.choose(4)
	}
	return m
}
