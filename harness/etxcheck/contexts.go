package main

import (
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// A context is a program with a hole for an expression.
type context struct {
	name    string
	noBrace bool
	build   func(g *gen, x *etx.Expr) *etx.AST
}

func (g *gen) id() *etx.Ident { return g.dotted(1) }

func primaryUnary(p etx.ExprPrimary) etx.ExprUnary {
	return etx.ExprUnary{Right: etx.ExprPostfix{Value: p}}
}

func chainOf(links ...link) *etx.ExprLogicalOr {
	out := &etx.ExprLogicalOr{}
	buildLevel(reflect.ValueOf(out).Elem(), links, 0)
	return out
}

func exprOf(links ...link) *etx.Expr {
	return &etx.Expr{Left: &etx.ExprConditional{Condition: *chainOf(links...)}}
}

func (g *gen) plain() *etx.Expr {
	return exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id()})})
}

func valueExpr(v *etx.Value) *etx.Expr {
	return exprOf(link{unary: primaryUnary(etx.ExprPrimary{Value: v})})
}

func (g *gen) attr(x *etx.Expr) *etx.AST {
	return &etx.AST{Items: []*etx.RootItem{{Attribute: &etx.Attribute{Key: g.fresh(), Value: x}}}}
}

func sub(x *etx.Expr) link {
	return link{unary: primaryUnary(etx.ExprPrimary{SubExpression: x})}
}

// condOf is the hole as a condition, which takes no conditional: any other
// expression goes in parentheses.
func condOf(x *etx.Expr) *etx.ExprLogicalOr {
	if x.Left != nil && !x.Left.ConditionOp {
		return &x.Left.Condition
	}
	return chainOf(sub(x))
}

var contexts = []context{
	{"attribute", false, func(g *gen, x *etx.Expr) *etx.AST { return g.attr(x) }},
	{"attribute before another", false, func(g *gen, x *etx.Expr) *etx.AST {
		a := g.attr(x)
		a.Items = append(a.Items, g.attr(g.plain()).Items...)
		return a
	}},
	{"input", false, func(g *gen, x *etx.Expr) *etx.AST {
		return &etx.AST{Items: []*etx.RootItem{{Decl: &etx.Decl{DeclType: "input", Label: g.fresh(), Type: &etx.ParameterType{Ident: g.id()}, Value: x}}}}
	}},
	{"block attribute", false, func(g *gen, x *etx.Expr) *etx.AST {
		return &etx.AST{Items: []*etx.RootItem{{Block: &etx.Block{Name: g.fresh(), Labels: []string{"l"}, Body: []*etx.BlockItem{
			{Attribute: &etx.Attribute{Key: g.fresh(), Value: x}}, {Attribute: &etx.Attribute{Key: g.fresh(), Value: g.plain()}}}}}}}
	}},
	{"enum value", false, func(g *gen, x *etx.Expr) *etx.AST {
		return &etx.AST{Items: []*etx.RootItem{{Type: &etx.Type{Label: g.fresh(), Enum: &etx.TypeEnum{Items: []*etx.TypeEnumItem{
			{Label: g.fresh(), Value: *x}, {Label: g.fresh(), Value: *g.plain()}}}}}}}
	}},
	{"statement", false, func(g *gen, x *etx.Expr) *etx.AST {
		return &etx.AST{Items: []*etx.RootItem{{Func: &etx.Func{Label: g.fresh(), Body: []*etx.FuncStatement{
			{Expr: g.plain()}, {Expr: x}, {Expr: g.plain()}}}}}}
	}},
	{"local value", false, func(g *gen, x *etx.Expr) *etx.AST {
		return &etx.AST{Items: []*etx.RootItem{{Func: &etx.Func{Label: g.fresh(), Body: []*etx.FuncStatement{
			{Decl: &etx.FuncDecl{DeclType: "val", Label: g.fresh(), Value: x}}, {Expr: g.plain()}}}}}}
	}},
	{"list item", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{List: &etx.ValueList{Items: []*etx.ListItem{{Value: g.plain()}, {Value: x}, {Value: g.plain()}}}}))
	}},
	{"list item before a comment", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{List: &etx.ValueList{Items: []*etx.ListItem{{Value: x}, {Comment: &etx.Comment{SingleLine: []string{"// c"}}}}}}))
	}},
	{"map value", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{Map: &etx.ValueMap{Items: []*etx.MapItem{
			{Key: &etx.MapKey{Ident: g.id()}, Value: x}, {Key: &etx.MapKey{Str: &etx.ValueString{Fragment: []*etx.StringFragment{{Text: "k"}}}}, Value: g.plain()}}}}))
	}},
	{"argument", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{Values: []*etx.Expr{g.plain(), x, g.plain()}}}})}))
	}},
	{"second call", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{}, {Values: []*etx.Expr{x}}}})}))
	}},
	{"index", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: etx.ExprUnary{Right: etx.ExprPostfix{Value: etx.ExprPrimary{Ident: g.id()}, Index: x}}}))
	}},
	{"parentheses", false, func(g *gen, x *etx.Expr) *etx.AST { return g.attr(exprOf(sub(x))) }},
	{"negated parentheses with member", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: etx.ExprUnary{Op: "-", Right: etx.ExprPostfix{Value: etx.ExprPrimary{SubExpression: x},
			Post: &etx.ExprPostfix{Value: etx.ExprPrimary{Ident: g.id()}}}}}))
	}},
	{"left factor", false, func(g *gen, x *etx.Expr) *etx.AST {
		a := sub(x)
		a.op = "*"
		return g.attr(exprOf(a, link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id()})}))
	}},
	{"right subtrahend", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id()}), op: "-"}, sub(x)))
	}},
	{"ternary condition", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Left: &etx.ExprConditional{Condition: *condOf(x), ConditionOp: true, TrueExpr: g.plain(), FalseExpr: g.plain()}})
	}},
	{"true branch", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Left: &etx.ExprConditional{Condition: g.plain().Left.Condition, ConditionOp: true, TrueExpr: x, FalseExpr: g.plain()}})
	}},
	{"false branch", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Left: &etx.ExprConditional{Condition: g.plain().Left.Condition, ConditionOp: true, TrueExpr: g.plain(), FalseExpr: x}})
	}},
	{"if condition", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{If: &etx.ExprIf{Condition: *condOf(x), Left: g.plain()}})
	}},
	{"if body", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{If: &etx.ExprIf{Condition: g.plain().Left.Condition, Left: x, Right: g.plain()}})
	}},
	{"else body", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{If: &etx.ExprIf{Condition: g.plain().Left.Condition, Left: g.plain(), Right: x}})
	}},
	{"selector", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Switch: &etx.ExprSwitch{Selector: *condOf(x), Cases: []*etx.ExprCase{{Default: true, Expr: g.plain()}}}})
	}},
	{"case condition", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Switch: &etx.ExprSwitch{Selector: g.plain().Left.Condition, Cases: []*etx.ExprCase{
			{Conditions: []*etx.ExprLogicalOr{&g.plain().Left.Condition, condOf(x)}, Expr: g.plain()}, {Default: true, Expr: g.plain()}}}})
	}},
	{"case body", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(&etx.Expr{Switch: &etx.ExprSwitch{Selector: g.plain().Left.Condition, Cases: []*etx.ExprCase{
			{Conditions: []*etx.ExprLogicalOr{&g.plain().Left.Condition}, Expr: x}, {Default: true, Expr: g.plain()}}}})
	}},
	{"interpolation", true, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{Str: &etx.ValueString{Fragment: []*etx.StringFragment{{Text: "a "}, {Expr: x}, {Text: " b"}}}}))
	}},
	{"directive", true, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{Str: &etx.ValueString{Fragment: []*etx.StringFragment{{Directive: x}}}}))
	}},
	{"heredoc interpolation", true, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(valueExpr(&etx.Value{Heredoc: &etx.Heredoc{Delimiter: etx.HeredocDelimiter{Delimiter: "EOF"},
			Fragments: []*etx.HeredocFragment{{Text: "é "}, {Expr: x}, {Text: "\n"}}}}))
	}},
	{"member", false, func(g *gen, x *etx.Expr) *etx.AST {
		return g.attr(exprOf(link{unary: primaryUnary(etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{}},
			Post: &etx.ExprPostfix{Value: etx.ExprPrimary{Ident: g.id(), Monads: []*etx.ExprInvocationParams{{Values: []*etx.Expr{x}}}}}})}))
	}},
	{"nested maps and lists", false, func(g *gen, x *etx.Expr) *etx.AST {
		in := valueExpr(&etx.Value{List: &etx.ValueList{Items: []*etx.ListItem{{Value: x}}}})
		return g.attr(valueExpr(&etx.Value{Map: &etx.ValueMap{Items: []*etx.MapItem{{Key: &etx.MapKey{Ident: g.id()}, Value: in}, {Key: &etx.MapKey{Ident: g.id()}, Value: g.plain()}}}}))
	}},
}
