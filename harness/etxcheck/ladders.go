package main

import (
	"fmt"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A rung builds a program of size n.
type rung struct {
	name  string
	sizes []int
	build func(g *gen, n int) *etx.AST
}

func (g *gen) many(n int) []*etx.Expr {
	var out []*etx.Expr
	for ; n > 0; n-- {
		out = append(out, g.plain())
	}
	return out
}

func (g *gen) nest(n int, wrap func(x *etx.Expr) *etx.Expr) *etx.AST {
	x := g.plain()
	for ; n > 0; n-- {
		x = wrap(x)
	}
	return g.attr(x)
}

var (
	counts = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 49, 50, 51, 52, 63, 64, 65, 100, 127, 128, 129}
	depths = []int{1, 2, 3, 4, 5, 6}
)

var rungs = []rung{
	{"attributes", counts, func(g *gen, n int) *etx.AST {
		a := &etx.AST{}
		for ; n > 0; n-- {
			a.Items = append(a.Items, g.attr(g.plain()).Items...)
		}
		return a
	}},
	{"list items", counts, func(g *gen, n int) *etx.AST {
		l := &etx.ValueList{}
		for _, x := range g.many(n) {
			l.Items = append(l.Items, &etx.ListItem{Value: x})
		}
		return g.attr(valueExpr(&etx.Value{List: l}))
	}},
	{"map items", counts, func(g *gen, n int) *etx.AST {
		m := &etx.ValueMap{}
		for _, x := range g.many(n) {
			m.Items = append(m.Items, &etx.MapItem{Key: &etx.MapKey{Ident: g.id()}, Value: x})
		}
		return g.attr(valueExpr(&etx.Value{Map: m}))
	}},
	{"arguments", counts, func(g *gen, n int) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{Values: g.many(n)}}})}))
	}},
	{"parts of a name", counts[1:], func(g *gen, n int) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.dotted(n)})}))
	}},
	{"calls", counts[1:], func(g *gen, n int) *etx.AST {
		p := etx.ExprPrimary{Ident: g.id()}
		for ; n > 0; n-- {
			p.Monads = append(p.Monads, &etx.ExprInvocationParams{Values: g.many(1)})
		}
		return g.attr(exprOf(link{unary: primaryUnary(p)}))
	}},
	{"parameters", counts, func(g *gen, n int) *etx.AST {
		f := &etx.Func{Label: g.fresh(), Body: []*etx.FuncStatement{{Expr: g.plain()}}}
		for ; n > 0; n-- {
			f.Parameters = append(f.Parameters, &etx.FuncParameter{Label: g.fresh(), Type: &etx.ParameterType{Ident: g.id()}})
		}
		return &etx.AST{Items: []*etx.RootItem{{Func: f}}}
	}},
	{"results", counts, func(g *gen, n int) *etx.AST {
		f := &etx.Func{Label: g.fresh(), Body: []*etx.FuncStatement{{Expr: g.plain()}}}
		for ; n > 0; n-- {
			f.Return = append(f.Return, &etx.ParameterType{Ident: g.id()})
		}
		return &etx.AST{Items: []*etx.RootItem{{Func: f}}}
	}},
	{"statements", counts, func(g *gen, n int) *etx.AST {
		f := &etx.Func{Label: g.fresh()}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				f.Body = append(f.Body, &etx.FuncStatement{Decl: &etx.FuncDecl{DeclType: "val", Label: g.fresh(), Value: g.plain()}})
			} else {
				f.Body = append(f.Body, &etx.FuncStatement{Expr: g.plain()})
			}
		}
		return &etx.AST{Items: []*etx.RootItem{{Func: f}}}
	}},
	{"labels", counts, func(g *gen, n int) *etx.AST {
		b := &etx.Block{Name: g.fresh()}
		for ; n > 0; n-- {
			b.Labels = append(b.Labels, g.fresh())
		}
		return &etx.AST{Items: []*etx.RootItem{{Block: b}}}
	}},
	{"block items", counts, func(g *gen, n int) *etx.AST {
		b := &etx.Block{Name: g.fresh()}
		for ; n > 0; n-- {
			b.Body = append(b.Body, &etx.BlockItem{Attribute: &etx.Attribute{Key: g.fresh(), Value: g.plain()}})
		}
		return &etx.AST{Items: []*etx.RootItem{{Block: b}}}
	}},
	{"enum items", counts, func(g *gen, n int) *etx.AST {
		t := &etx.TypeEnum{}
		for _, x := range g.many(n) {
			t.Items = append(t.Items, &etx.TypeEnumItem{Label: g.fresh(), Value: *x})
		}
		return &etx.AST{Items: []*etx.RootItem{{Type: &etx.Type{Label: g.fresh(), Enum: t}}}}
	}},
	{"object items", counts, func(g *gen, n int) *etx.AST {
		t := &etx.TypeObject{}
		for ; n > 0; n-- {
			t.Items = append(t.Items, &etx.TypeObjectItem{Label: g.fresh(), Type: etx.ParameterType{Ident: g.id()}})
		}
		return &etx.AST{Items: []*etx.RootItem{{Type: &etx.Type{Label: g.fresh(), Object: t}}}}
	}},
	{"cases", counts, func(g *gen, n int) *etx.AST {
		s := &etx.ExprSwitch{Selector: g.plain().Left.Condition}
		for _, x := range g.many(n) {
			s.Cases = append(s.Cases, &etx.ExprCase{Conditions: []*etx.ExprLogicalOr{&g.plain().Left.Condition}, Expr: x})
		}
		return g.attr(&etx.Expr{Switch: s})
	}},
	{"conditions", counts[1:], func(g *gen, n int) *etx.AST {
		s := &etx.ExprCase{Expr: g.plain()}
		for ; n > 0; n-- {
			s.Conditions = append(s.Conditions, &g.plain().Left.Condition)
		}
		return g.attr(&etx.Expr{Switch: &etx.ExprSwitch{Selector: g.plain().Left.Condition, Cases: []*etx.ExprCase{s}}})
	}},
	{"comment lines", counts[1:], func(g *gen, n int) *etx.AST {
		c := &etx.Comment{}
		for ; n > 0; n-- {
			c.SingleLine = append(c.SingleLine, "// "+g.fresh())
		}
		a := &etx.AST{Items: []*etx.RootItem{{Comment: c}}}
		a.Items = append(a.Items, g.attr(g.plain()).Items...)
		return a
	}},
	{"blank lines", counts[1:], func(g *gen, n int) *etx.AST {
		a := &etx.AST{Items: []*etx.RootItem{{EmptyLine: strings.Repeat("\n", n)}}}
		a.Items = append(a.Items, g.attr(g.plain()).Items...)
		return a
	}},
	{"string fragments", counts, func(g *gen, n int) *etx.AST {
		s := &etx.ValueString{}
		for i := 0; i < n; i++ {
			f := &etx.StringFragment{Text: "t" + g.fresh()}
			if i%2 == 1 {
				f = &etx.StringFragment{Expr: g.plain()}
			}
			s.Fragment = append(s.Fragment, f)
		}
		return g.attr(valueExpr(&etx.Value{Str: s}))
	}},
	{"heredoc lines", counts, func(g *gen, n int) *etx.AST {
		h := &etx.Heredoc{Delimiter: etx.HeredocDelimiter{Delimiter: "EOF"}}
		t := ""
		for ; n > 0; n-- {
			t += g.fresh() + "\n"
		}
		if t != "" {
			h.Fragments = []*etx.HeredocFragment{{Text: t}}
		}
		return g.attr(valueExpr(&etx.Value{Heredoc: h}))
	}},
	{"long name", counts[1:], func(g *gen, n int) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: &etx.Ident{Parts: []string{strings.Repeat("n", n)}}})}))
	}},
	{"long string", counts[1:], func(g *gen, n int) *etx.AST {
		return g.attr(valueExpr(&etx.Value{Str: &etx.ValueString{Fragment: []*etx.StringFragment{{Text: strings.Repeat("é", n)}}}}))
	}},
	{"operands", counts[1:], func(g *gen, n int) *etx.AST {
		var links []link
		for i := 0; i < n; i++ {
			links = append(links, link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id()}), op: "+"})
		}
		links[n-1].op = ""
		return g.attr(exprOf(links...))
	}},
	{"operands of all levels", counts[1:], func(g *gen, n int) *etx.AST {
		var links []link
		for i := 0; i < n; i++ {
			links = append(links, link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id()}), op: binaries[i*7%len(binaries)]})
		}
		links[n-1].op = ""
		return g.attr(exprOf(links...))
	}},
	{"conditionals", counts[1:12], func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return &etx.Expr{Left: &etx.ExprConditional{Condition: g.plain().Left.Condition, ConditionOp: true, TrueExpr: g.plain(), FalseExpr: x}}
		})
	}},
	{"nested parentheses", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr { return exprOf(sub(x)) })
	}},
	{"nested lists", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return valueExpr(&etx.Value{List: &etx.ValueList{Items: []*etx.ListItem{{Value: x}}}})
		})
	}},
	{"nested maps", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return valueExpr(&etx.Value{Map: &etx.ValueMap{Items: []*etx.MapItem{{Key: &etx.MapKey{Ident: g.id()}, Value: x}}}})
		})
	}},
	{"nested calls", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{Values: []*etx.Expr{x}}}})})
		})
	}},
	{"nested ifs", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return &etx.Expr{If: &etx.ExprIf{Condition: g.plain().Left.Condition, Left: x, Right: g.plain()}}
		})
	}},
	{"nested switches", depths, func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return &etx.Expr{Switch: &etx.ExprSwitch{Selector: g.plain().Left.Condition, Cases: []*etx.ExprCase{{Default: true, Expr: x}}}}
		})
	}},
	{"nested strings", depths[:4], func(g *gen, n int) *etx.AST {
		return g.nest(n, func(x *etx.Expr) *etx.Expr {
			return valueExpr(&etx.Value{Str: &etx.ValueString{Fragment: []*etx.StringFragment{{Text: "t "}, {Expr: x}}}})
		})
	}},
	{"nested blocks", []int{1, 2, 3, 4, 5, 6, 8, 12, 20}, func(g *gen, n int) *etx.AST {
		b := &etx.Block{Name: g.fresh(), Body: []*etx.BlockItem{{Attribute: &etx.Attribute{Key: g.fresh(), Value: g.plain()}}}}
		for ; n > 0; n-- {
			b = &etx.Block{Name: g.fresh(), Body: []*etx.BlockItem{{Block: b}}}
		}
		return &etx.AST{Items: []*etx.RootItem{{Block: b}}}
	}},
	{"nested function types", []int{1, 2, 3, 4, 5, 6, 8}, func(g *gen, n int) *etx.AST {
		t := &etx.ParameterType{Ident: g.id()}
		for ; n > 0; n-- {
			t = &etx.ParameterType{Func: &etx.FuncSignature{Parameters: []*etx.ParameterType{t}, Return: etx.ParameterType{Ident: g.id()}}}
		}
		return &etx.AST{Items: []*etx.RootItem{{Decl: &etx.Decl{DeclType: "val", Label: g.fresh(), Type: t}}}}
	}},
}

func ladder(desc string) *program {
	var i, n, s int
	if _, err := fmt.Sscanf(desc, "ladder %d %d %d", &i, &n, &s); err != nil {
		panic(err)
	}
	g := &gen{c: &mc.Chooser{}}
	p := &program{desc: desc, tree: rungs[i].build(g, n)}
	e := &emitter{}
	e.ast(p.tree)
	p.items = e.items
	p.text = layOut(e.items, styles[s], nil)
	return p
}

// ladders runs f on the constructs grown to many sizes.
func ladders(c *kit.Ctx, f func(p *program) string) {
	slot := c.Slot(0)
	var seen int64
	for i, r := range rungs {
		for _, n := range r.sizes {
			for s := 0; s < 4; s++ {
				if c.Stop() {
					return
				}
				if !c.Mine() {
					continue
				}
				p := ladder(fmt.Sprintf("ladder %d %d %d", i, n, s))
				if p.text.skip != "" {
					continue
				}
				seen++
				slot.Begin(p.desc)
				var msg string
				if m := kit.Guard(func() { msg = f(p) }); m != "" {
					msg = m
				}
				slot.End()
				if msg != "" {
					c.Violate(p.desc, "%s (%s, size %d)", msg, r.name, n)
					return
				}
			}
		}
	}
	c.Count("states", seen)
	c.Count("transitions", seen)
}
