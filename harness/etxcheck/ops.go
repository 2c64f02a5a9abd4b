package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// The precedence table of the README, loosest first.
var precedence = [][]string{
	{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"},
}

var binaryOps []string

func init() {
	for _, l := range precedence {
		binaryOps = append(binaryOps, l...)
	}
}

func levelOf(op string) int {
	for i, l := range precedence {
		for _, o := range l {
			if o == op {
				return i
			}
		}
	}
	panic("no operator " + op)
}

// A term is an expression as written and how it has to be understood:
// operations in parentheses, prefix operators in braces, written parentheses
// as corners.
type term struct{ src, shape string }

func atoms(words ...string) []term {
	var out []term
	for _, w := range words {
		out = append(out, term{w, w})
	}
	return out
}

func prefixed(op string, t term) term { return term{op + t.src, "{" + op + t.shape + "}"} }
func paren(t term) term               { return term{"(" + t.src + ")", "<" + t.shape + ">"} }
func ternary(c, t, f term) term {
	return term{c.src + " ? " + t.src + " : " + f.src, "(" + c.shape + " ? " + t.shape + " : " + f.shape + ")"}
}

// binary groups operands by the table.
func binary(operands []term, ops []string) term {
	var src strings.Builder
	for i, o := range operands {
		if i > 0 {
			src.WriteString(" " + ops[i-1] + " ")
		}
		src.WriteString(o.src)
	}
	return term{src.String(), group(operands, ops)}
}

func group(operands []term, ops []string) string {
	if len(ops) == 0 {
		return operands[0].shape
	}
	loosest := len(precedence)
	for _, o := range ops {
		if l := levelOf(o); l < loosest {
			loosest = l
		}
	}
	s := "("
	from := 0
	for i, o := range ops {
		if levelOf(o) == loosest {
			s += group(operands[from:i+1], ops[from:i]) + " " + o + " "
			from = i + 1
		}
	}
	return s + group(operands[from:], ops[from:]) + ")"
}

// How the parser understood an expression.

func shapeExpr(x *etx.Expr) string {
	switch {
	case x == nil:
		return "nothing"
	case x.Left == nil:
		return "no operation"
	}
	c := shapeLevel(reflect.ValueOf(x.Left.Condition))
	if !x.Left.ConditionOp {
		return c
	}
	return "(" + c + " ? " + shapeExpr(x.Left.TrueExpr) + " : " + shapeExpr(x.Left.FalseExpr) + ")"
}

func shapeLevel(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case etx.ExprUnary:
		if x.Op == "" {
			return shapePostfix(&x.Right)
		}
		return "{" + x.Op + shapePostfix(&x.Right) + "}"
	}
	left := shapeLevel(v.FieldByName("Left"))
	if v.FieldByName("Right").IsNil() {
		return left
	}
	s := "("
	for {
		s += shapeLevel(v.FieldByName("Left"))
		if v.FieldByName("Right").IsNil() {
			return s + ")"
		}
		s += " " + v.FieldByName("Op").String() + " "
		v = v.FieldByName("Right").Elem()
	}
}

func shapePostfix(x *etx.ExprPostfix) string {
	s := shapePrimary(&x.Value)
	if x.Index != nil {
		s += "[" + shapeExpr(x.Index) + "]"
	}
	if x.Post != nil {
		s += "." + shapePostfix(x.Post)
	}
	return s
}

func shapePrimary(x *etx.ExprPrimary) string {
	s := ""
	switch {
	case x.SubExpression != nil:
		s = "<" + shapeExpr(x.SubExpression) + ">"
	case x.Value != nil:
		v := x.Value
		switch {
		case v.Number != nil:
			s = v.Number.Source
		case v.Null:
			s = "null"
		case v.Bool != nil:
			s = strconv.FormatBool(v.Bool.Value)
		case v.Str != nil:
			s = `"`
			for _, f := range v.Str.Fragment {
				if f.Expr != nil {
					s += "${" + shapeExpr(f.Expr) + "}"
				}
				s += f.Text
			}
			s += `"`
		case v.List != nil:
			s = "["
			for i, it := range v.List.Items {
				if i > 0 {
					s += ", "
				}
				s += shapeExpr(it.Value)
			}
			s += "]"
		}
	case x.Ident != nil:
		s = strings.Join(x.Ident.Parts, ".")
	}
	for _, m := range x.Monads {
		s += "("
		for i, a := range m.Values {
			if i > 0 {
				s += ", "
			}
			s += shapeExpr(a)
		}
		s += ")"
	}
	if x.Post != nil {
		s += "." + shapePostfix(x.Post)
	}
	return s
}

// A place is where an expression stands.
type place struct {
	before, after string
	noTernary     bool
	shape         func(a *etx.AST) string
}

func attrValue(a *etx.AST) *etx.Expr { return a.Items[0].Attribute.Value }
func primary(x *etx.Expr) *etx.ExprPrimary {
	return &postfix(x).Value
}
func postfix(x *etx.Expr) *etx.ExprPostfix {
	v := reflect.ValueOf(x.Left.Condition)
	for isLevel(v.Type()) {
		v = v.FieldByName("Left")
	}
	u := v.Interface().(etx.ExprUnary)
	return &u.Right
}

var places = []place{
	{"x = ", "\n", false, func(a *etx.AST) string { return shapeExpr(attrValue(a)) }},
	{"x: ", "", false, func(a *etx.AST) string { return shapeExpr(attrValue(a)) }},
	{"x = [p, ", ", q]\n", false, func(a *etx.AST) string {
		l := primary(attrValue(a)).Value.List
		if len(l.Items) != 3 {
			return fmt.Sprintf("%d items", len(l.Items))
		}
		return shapeExpr(l.Items[1].Value)
	}},
	{"x = {k: ", ", l = 1}\n", false, func(a *etx.AST) string { return shapeExpr(primary(attrValue(a)).Value.Map.Items[0].Value) }},
	{"x = f(p, ", ", q)\n", false, func(a *etx.AST) string {
		v := primary(attrValue(a)).Monads[0].Values
		if len(v) != 3 {
			return fmt.Sprintf("%d arguments", len(v))
		}
		return shapeExpr(v[1])
	}},
	{"x = y[", "]\n", false, func(a *etx.AST) string { return shapeExpr(postfix(attrValue(a)).Index) }},
	{"x = (", ") + 1\n", false, func(a *etx.AST) string { return shapeExpr(primary(attrValue(a)).SubExpression) }},
	{"x = if ", " { y }\n", true, func(a *etx.AST) string { return shapeLevel(reflect.ValueOf(attrValue(a).If.Condition)) }},
	{"x = if y { ", " } else { z }\n", false, func(a *etx.AST) string { return shapeExpr(attrValue(a).If.Left) }},
	{"x = if y { z } else {\n", "\n}\n", false, func(a *etx.AST) string { return shapeExpr(attrValue(a).If.Right) }},
	{"x = switch ", " { default: { y } }\n", true, func(a *etx.AST) string { return shapeLevel(reflect.ValueOf(attrValue(a).Switch.Selector)) }},
	{"x = switch y { case p, ", ": { z } }\n", true, func(a *etx.AST) string {
		return shapeLevel(reflect.ValueOf(*attrValue(a).Switch.Cases[0].Conditions[1]))
	}},
	{"x = switch y { default: { ", " } }\n", false, func(a *etx.AST) string { return shapeExpr(attrValue(a).Switch.Cases[0].Expr) }},
	{"x = \"p${", "}q\"\n", false, func(a *etx.AST) string { return shapeExpr(primary(attrValue(a)).Value.Str.Fragment[1].Expr) }},
	{"x = <<E\n${", "}\nE\n", false, func(a *etx.AST) string { return shapeExpr(primary(attrValue(a)).Value.Heredoc.Fragments[0].Expr) }},
	{"b \"l\" {\n\tx = ", "\n}\n", false, func(a *etx.AST) string { return shapeExpr(a.Items[0].Block.Body[0].Attribute.Value) }},
	{"input x: t = ", "\n", false, func(a *etx.AST) string { return shapeExpr(a.Items[0].Decl.Value) }},
	{"def f() {\n\tval x = ", "\n}\n", false, func(a *etx.AST) string { return shapeExpr(a.Items[0].Func.Body[0].Decl.Value) }},
	{"def f() {\n\t", "\n}\n", false, func(a *etx.AST) string { return shapeExpr(a.Items[0].Func.Body[0].Expr) }},
	{"type t enum {\n\tx: ", "\n\ty: 1\n}\n", false, func(a *etx.AST) string { return shapeExpr(&a.Items[0].Type.Enum.Items[0].Value) }},
}

// An ops case is "ops PLACE src\x01shape".
func opsCase(desc string) string {
	f := strings.SplitN(desc, " ", 3)
	n, _ := strconv.Atoi(f[1])
	src, shape, _ := strings.Cut(f[2], "\x01")
	return understood(places[n], src, shape)
}

func understood(p place, src, shape string) string {
	full := p.before + src + p.after
	tree, err := parse(full)
	if err != nil {
		return fmt.Sprintf("%q is rejected: %v", full, err)
	}
	if got := p.shape(tree); got != shape {
		return fmt.Sprintf("%q is understood as %s instead of %s", full, got, shape)
	}
	return ""
}

type opsRun struct {
	c           *kit.Ctx
	slot        *kit.Slot
	seen, steps int64
}

func (r *opsRun) try(pl int, t term, steps int) bool {
	if r.c.Stop() {
		return false
	}
	if !r.c.Mine() {
		return true
	}
	r.seen++
	r.steps += int64(steps)
	desc := fmt.Sprintf("ops %d %s\x01%s", pl, t.src, t.shape)
	r.slot.Begin(desc)
	var msg string
	if m := kit.Guard(func() { msg = understood(places[pl], t.src, t.shape) }); m != "" {
		msg = m
	}
	r.slot.End()
	if msg != "" {
		r.c.Violate(desc, "%s", msg)
	}
	if r.seen == 500 || r.seen == 3000 {
		r.c.Sample(places[pl].before + t.src + places[pl].after)
	}
	return msg == ""
}

// eachOps runs f on every sequence of n binary operators.
func eachOps(n int, f func(ops []string) bool) bool {
	idx := make([]int, n)
	ops := make([]string, n)
	for {
		for i, k := range idx {
			ops[i] = binaryOps[k]
		}
		if !f(ops) {
			return false
		}
		k := n - 1
		for k >= 0 {
			idx[k]++
			if idx[k] < len(binaryOps) {
				break
			}
			idx[k] = 0
			k--
		}
		if k < 0 {
			return true
		}
	}
}

func operatorsRun(c *kit.Ctx) {
	r := &opsRun{c: c, slot: c.Slot(0)}
	names := atoms("a", "b", "c", "d", "e", "f")
	ph := phase(c)
	// Every sequence of operators between plain operands.
	deepest := c.Pick(4, 5)
	for n := 0; n <= deepest; n++ {
		if !eachOps(n, func(ops []string) bool { return r.try(0, binary(names[:n+1], ops), n) }) {
			return
		}
	}
	ph("operators")
	// In every place.
	for pl := range places {
		for n := 0; n <= c.Pick(2, 3); n++ {
			if !eachOps(n, func(ops []string) bool { return r.try(pl, binary(names[:n+1], ops), n) }) {
				return
			}
		}
	}
	ph("places")
	// Operands of every kind, one or two in a row.
	kinds := atoms("1", "0x1F", "1.5", "true", "null", `"s"`, "[p, q]", "g()", "g(p, q)", "g()()", "p.q", "p[0]", "p[0].q", "p.q[r]", "g(p).q", "g().q[0]", `"s"[0]`, "p.q.r", "g(p)[q]")
	kinds = append(kinds, paren(names[0]), paren(binary(names[:2], []string{"+"})), paren(ternary(names[0], names[1], names[2])),
		paren(prefixed("-", names[0])), paren(paren(names[0])))
	inner := binary(names[:2], []string{"||"})
	kinds = append(kinds, term{"p[" + inner.src + "]", "p[" + inner.shape + "]"}, term{"g(" + inner.src + ")", "g(" + inner.shape + ")"},
		term{"(" + inner.src + ")[0]", "<" + inner.shape + ">[0]"}, term{"(" + inner.src + ").q", "<" + inner.shape + ">.q"})
	bare := len(kinds)
	for _, op := range []string{"-", "!", "~", "+"} {
		for _, k := range kinds[:bare] {
			kinds = append(kinds, prefixed(op, k))
		}
		kinds = append(kinds, prefixed(op, names[0]))
	}
	for n := 0; n <= c.Pick(2, 3); n++ {
		for at := 0; at <= n; at++ {
			for _, k := range kinds {
				operands := append([]term{}, names[:n+1]...)
				operands[at] = k
				if !eachOps(n, func(ops []string) bool { return r.try(0, binary(operands, ops), n+1) }) {
					return
				}
			}
		}
	}
	ph("operands")
	for _, k := range kinds {
		for _, l := range kinds {
			if !eachOps(1, func(ops []string) bool {
				if !c.Thorough() && ops[0] != precedence[levelOf(ops[0])][0] {
					return true
				}
				return r.try(0, binary([]term{k, l}, ops), 3)
			}) {
				return
			}
		}
	}
	for pl := range places {
		for _, k := range kinds {
			if !eachOps(1, func(ops []string) bool {
				return r.try(pl, binary([]term{k, names[0]}, ops), 2) && r.try(pl, binary([]term{names[0], k}, ops), 2)
			}) {
				return
			}
		}
	}
	ph("two operands")
	// Parentheses around every run of operands, also one in another.
	for n := 2; n <= c.Pick(3, 4); n++ {
		if !eachOps(n, func(ops []string) bool {
			for i := 0; i <= n; i++ {
				for j := i + 1; j <= n; j++ {
					wrap := func(x term) bool {
						operands := append(append(append([]term{}, names[:i]...), x), names[j+1:n+1]...)
						rest := append(append([]string{}, ops[:i]...), ops[j:]...)
						return r.try(0, binary(operands, rest), n+2)
					}
					in := binary(names[i:j+1], ops[i:j])
					if !wrap(paren(in)) {
						return false
					}
					if n == 2 && (!wrap(prefixed("!", paren(in))) || !wrap(prefixed("-", paren(in)))) {
						return false
					}
					for k := i; n == 3 && k < j; k++ {
						inner := append(append(append([]term{}, names[i:k]...), paren(binary(names[k:k+2], ops[k:k+1]))), names[k+2:j+1]...)
						innerOps := append(append([]string{}, ops[i:k]...), ops[k+1:j]...)
						if len(innerOps) > 0 && !wrap(paren(binary(inner, innerOps))) {
							return false
						}
					}
				}
			}
			return true
		}) {
			return
		}
	}
	ph("parentheses")
	// The conditional operator.
	var parts []term
	for n := 0; n <= 1; n++ {
		eachOps(n, func(ops []string) bool { parts = append(parts, binary(names[:n+1], ops)); return true })
	}
	for _, a := range parts {
		for _, b := range parts {
			for _, f := range parts {
				if !r.try(0, ternary(a, b, f), 3) {
					return
				}
			}
		}
	}
	ph("conditional")
	few := []term{names[0], parts[1], parts[9], parts[len(parts)-1], prefixed("!", names[1]), paren(ternary(names[0], names[1], names[2]))}
	var nested []term
	for _, a := range few {
		for _, b := range few {
			nested = append(nested, ternary(a, b, names[2]), ternary(a, names[3], b))
		}
	}
	for _, a := range few {
		for _, b := range nested {
			for _, x := range []term{ternary(a, b, a), ternary(a, a, b), ternary(paren(b), a, a), ternary(a, paren(b), b), ternary(a, b, b),
				binary([]term{paren(a), paren(b)}, []string{"+"})} {
				for pl, p := range places {
					if p.noTernary {
						continue
					}
					if pl > 0 && a != few[0] && !c.Thorough() {
						continue
					}
					if !r.try(pl, x, 6) {
						return
					}
				}
			}
		}
	}
	ph("nested conditionals")
	// Written without spaces or across tabs.
	for _, gap := range []string{"", "\t", "   "} {
		if !eachOps(2, func(ops []string) bool {
			for k, o := range [][]string{{"1", "2", "3"}, {"(a)", "(b)", "(c)"}, {"a", "b", "c"}, {"-1", "!b", "~c"}} {
				s := ""
				for i, x := range o {
					if i > 0 {
						op := ops[i-1]
						if gap == "" && (op == "-" && k >= 2 || op == "<<" && k >= 2) {
							return true // a hyphenated name, a heredoc
						}
						s += gap + op + gap
					}
					s += x
				}
				var operands []term
				for _, x := range o {
					t := term{x, x}
					switch k {
					case 1:
						t.shape = "<" + x[1:2] + ">"
					case 3:
						t.shape = "{" + x + "}"
					}
					operands = append(operands, t)
				}
				if k == 0 && gap == "" && (ops[0] == "<<" || ops[1] == "<<") {
					continue
				}
				if !r.try(0, term{s, group(operands, ops)}, 2) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	ph("spacing")
	c.Count("states", r.seen)
	c.Count("transitions", r.steps)
	c.Count("traces_validated_against_impl", parses.Load())
}
