package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// P18: every part of a tree prints as itself.

func p18(p *program) string { return partsOf(p.text.src) }

func partsOf(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	return eachPart(reflect.ValueOf(got), func(n any) string {
		if msg := partAlone(n); msg != "" {
			return msg
		}
		return lambdaOf(n)
	})
}

// eachPart calls f for every node of a tree, the inner ones first, that is not
// equal to one it was called for before. It ends at the first complaint.
func eachPart(root reflect.Value, f func(n any) string) string {
	msg := ""
	var walk func(v reflect.Value) digest
	walk = func(v reflect.Value) digest {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type() == floatType {
				return digest{1, 2}
			}
			return walk(v.Elem())
		case reflect.Slice:
			s := newDigest(uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				s.add(walk(v.Index(i)))
			}
			return s
		case reflect.String:
			s := newDigest(3)
			s.addString(v.String())
			return s
		case reflect.Bool:
			if v.Bool() {
				return digest{5, 6}
			}
			return digest{7, 8}
		case reflect.Struct:
			t := layoutOf(v.Type())
			s := newDigest(t.id)
			for _, i := range t.fields {
				s.add(walk(v.Field(i)))
			}
			if t.node && msg == "" {
				if _, done := partsSeen.LoadOrStore(s, nil); !done {
					msg = f(v.Addr().Interface())
				}
			}
			return s
		}
		return digest{9, 10}
	}
	walk(root)
	return msg
}

// digest is a hash of 128 bits.
type digest struct{ a, b uint64 }

func newDigest(x uint64) digest { return digest{0x9e3779b97f4a7c15 ^ x, 0xc2b2ae3d27d4eb4f + x} }

func (s *digest) word(x uint64) {
	s.a = (s.a ^ x) * 0x100000001b3
	s.a ^= s.a >> 29
	s.b = (s.b + x) * 0xd6e8feb86659fd93
	s.b ^= s.b >> 32
}

func (s *digest) add(x digest) {
	s.word(x.a)
	s.word(x.b)
}

func (s *digest) addString(x string) {
	s.word(uint64(len(x)))
	for i := 0; i < len(x); i++ {
		s.word(uint64(x[i]) + 1)
	}
}

type typeLayout struct {
	id     uint64
	node   bool
	fields []int
}

var typeLayouts sync.Map

func layoutOf(t reflect.Type) *typeLayout {
	if l, ok := typeLayouts.Load(t); ok {
		return l.(*typeLayout)
	}
	l := &typeLayout{}
	h := newDigest(0)
	h.addString(t.Name())
	l.id = h.a
	for i := 0; i < t.NumField(); i++ {
		switch f := t.Field(i); {
		case f.Type == nodeType:
			l.node = true
		case f.IsExported():
			l.fields = append(l.fields, i)
		}
	}
	typeLayouts.Store(t, l)
	return l
}

// A stand is where a part of one kind stands on its own in a program.
type stand struct {
	before, after string
	// lift finds what stands at the place, in the form that canon compares;
	// nil when something else is there.
	lift func(items []*etx.RootItem) any
}

var partsSeen sync.Map

func partAlone(n any) string {
	pl, want, ok := spotOf(n)
	if !ok {
		return ""
	}
	why := ""
	if !strict {
		why = outOfScopeAt(reflect.ValueOf(n))
	}
	modulo := plainText
	switch why {
	case "":
	case whyLines:
		modulo = withoutTabs
	default:
		return ""
	}
	form := canon(want)
	printed, ok := n.(etx.FormattedStringer)
	if !ok {
		return fmt.Sprintf("a %T cannot be printed", n)
	}
	out := printed.FormattedString()
	src := pl.before + out + pl.after
	// A part that only wraps another prints the same text, which was read back.
	key := newDigest(11)
	key.addString(src)
	key.addString(form)
	if _, done := partsSeen.LoadOrStore(key, nil); done {
		return ""
	}
	again, err := parse(src)
	if err != nil {
		return fmt.Sprintf("a %T prints as something that is rejected: %v\nprinted: %q in\n%s", n, err, out, src)
	}
	var items []*etx.RootItem
	for _, it := range again.Items {
		if it.EmptyLine == "" {
			items = append(items, it)
		}
	}
	if len(items) != 1 {
		return fmt.Sprintf("a %T prints as %d items\nprinted: %q in\n%s", n, len(items), out, src)
	}
	x := pl.lift(items)
	if x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil() {
		return fmt.Sprintf("a %T prints as something else\nprinted: %q in\n%s", n, out, src)
	}
	if a, b := modulo(form), modulo(canon(x)); a != b {
		return fmt.Sprintf("a %T prints as something else: %s\nprinted: %q in\n%s", n, around(a, b), out, src)
	}
	return ""
}

// valueOf is the value of the attribute that the program consists of.
func valueOf(items []*etx.RootItem) *etx.Expr {
	if len(items) != 1 || items[0].Attribute == nil {
		return nil
	}
	return items[0].Attribute.Value
}

// primaryOf is the operand that an expression consists of.
func primaryOf(items []*etx.RootItem) *etx.ExprPrimary {
	x := valueOf(items)
	if x == nil || x.Left == nil || x.Left.ConditionOp {
		return nil
	}
	v := reflect.ValueOf(x.Left.Condition)
	for isLevel(v.Type()) {
		if !v.FieldByName("Right").IsNil() {
			return nil
		}
		v = v.FieldByName("Left")
	}
	u := v.Interface().(etx.ExprUnary)
	if u.Op != "" || u.Right.Index != nil || u.Right.Post != nil {
		return nil
	}
	return &u.Right.Value
}

func literalOf(items []*etx.RootItem) *etx.Value {
	if p := primaryOf(items); p != nil {
		return p.Value
	}
	return nil
}

func kind[T any](f func(items []*etx.RootItem) *T) func(items []*etx.RootItem) any {
	return func(items []*etx.RootItem) any {
		if x := f(items); x != nil {
			return x
		}
		return nil
	}
}

// spotOf tells where a part can stand on its own, and what must stand there.
func spotOf(n any) (stand, any, bool) {
	literal := func(f func(v *etx.Value) any) stand {
		return stand{"a = ", "\n", func(items []*etx.RootItem) any {
			v := literalOf(items)
			if v == nil {
				return nil
			}
			return f(v)
		}}
	}
	expr := stand{"a = ", "\n", kind(valueOf)}
	no := stand{}
	switch x := n.(type) {
	case *etx.RootItem:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items }}, []*etx.RootItem{x}, x.EmptyLine == ""
	case *etx.Decl:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items[0].Decl }}, x, true
	case *etx.Func:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items[0].Func }}, x, true
	case *etx.Type:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items[0].Type }}, x, true
	case *etx.Block:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items[0].Block }}, x, true
	case *etx.Attribute:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items[0].Attribute }}, x, true
	case *etx.Comment:
		return stand{"", "\n", func(items []*etx.RootItem) any { return items }}, []*etx.RootItem{{Comment: x}}, true

	case *etx.BlockItem:
		return stand{"b {\n", "\n}\n", func(items []*etx.RootItem) any {
			if items[0].Block == nil {
				return nil
			}
			return items[0].Block.Body
		}}, []*etx.BlockItem{x}, x.EmptyLine == ""
	case *etx.FuncStatement:
		return stand{"def f() {\n", "\n}\n", body}, []*etx.FuncStatement{x}, x.EmptyLine == ""
	case *etx.FuncDecl:
		return stand{"def f() {\n", "\n}\n", body}, []*etx.FuncStatement{{Decl: x}}, true
	case *etx.FuncParameter:
		return stand{"def f(", ") {}\n", func(items []*etx.RootItem) any {
			if items[0].Func == nil {
				return nil
			}
			return items[0].Func.Parameters
		}}, []*etx.FuncParameter{x}, true
	case *etx.ParameterType:
		return stand{"input x: ", "\n", kind(typeOf)}, x, x.Ident != nil || x.Func != nil
	case *etx.FuncSignature:
		return stand{"input x: ", "\n", kind(typeOf)}, &etx.ParameterType{Func: x}, true
	case *etx.Ident:
		return stand{"input x: ", "\n", kind(typeOf)}, &etx.ParameterType{Ident: x}, true

	case *etx.TypeEnum:
		return stand{"type t enum {", "\n}\n", enumOf}, x.Items, true
	case *etx.TypeEnumItem:
		return stand{"type t enum {\n", "\n}\n", enumOf}, []*etx.TypeEnumItem{x}, x.EmptyLine == ""
	case *etx.TypeObject:
		return stand{"type t object {", "\n}\n", objectOf}, x.Items, true
	case *etx.TypeObjectItem:
		return stand{"type t object {\n", "\n}\n", objectOf}, []*etx.TypeObjectItem{x}, x.EmptyLine == ""

	case *etx.Expr:
		// The value of an item that is a comment is not written.
		return expr, x, x.Left != nil || x.If != nil || x.Switch != nil
	case *etx.ExprConditional:
		return expr, &etx.Expr{Left: x}, true
	case *etx.ExprIf:
		return expr, &etx.Expr{If: x}, true
	case *etx.ExprSwitch:
		return expr, &etx.Expr{Switch: x}, true
	case *etx.ExprUnary, *etx.ExprPostfix, *etx.ExprPrimary:
		return expr, x, true
	case *etx.ExprCase:
		return stand{"a = switch s {\n", "\n}\n", func(items []*etx.RootItem) any {
			if v := valueOf(items); v != nil && v.Switch != nil {
				return v.Switch.Cases
			}
			return nil
		}}, []*etx.ExprCase{x}, true
	case *etx.ExprInvocationParams:
		return stand{"a = f(", ")\n", func(items []*etx.RootItem) any {
			if p := primaryOf(items); p != nil {
				return p.Monads
			}
			return nil
		}}, []*etx.ExprInvocationParams{x}, true

	case *etx.Value:
		return literal(func(v *etx.Value) any { return v }), x, true
	case *etx.ValueBool:
		return literal(func(v *etx.Value) any { return v.Bool }), x, true
	case *etx.ValueNumber:
		return literal(func(v *etx.Value) any { return v.Number }), x, true
	case *etx.ValueString:
		return literal(func(v *etx.Value) any { return v.Str }), x, true
	case *etx.ValueList:
		return literal(func(v *etx.Value) any { return v.List }), x, true
	case *etx.ValueMap:
		return literal(func(v *etx.Value) any { return v.Map }), x, true
	case *etx.ListItem:
		return stand{"a = [\n", "]\n", func(items []*etx.RootItem) any {
			if v := literalOf(items); v != nil && v.List != nil {
				return v.List.Items
			}
			return nil
		}}, []*etx.ListItem{x}, x.EmptyLine == ""
	case *etx.MapItem:
		return stand{"a = {\n", "\n}\n", mapOf}, []*etx.MapItem{x}, x.EmptyLine == ""
	case *etx.MapKey:
		return stand{"a = {\n", ": {}\n}\n", func(items []*etx.RootItem) any {
			m, _ := mapOf(items).([]*etx.MapItem)
			if len(m) != 1 {
				return nil
			}
			return m[0].Key
		}}, x, true
	case *etx.StringFragment:
		quote := `"`
		if strings.Contains(x.Text, quote) {
			quote = "'"
		}
		return stand{"a = " + quote, quote + "\n", func(items []*etx.RootItem) any {
			if v := literalOf(items); v != nil && v.Str != nil {
				return v.Str.Fragment
			}
			return nil
		}}, []*etx.StringFragment{x}, true
	case *etx.HeredocFragment:
		return stand{"a = <<ZZ9\n", "\nZZ9\n", func(items []*etx.RootItem) any {
			if v := literalOf(items); v != nil && v.Heredoc != nil {
				return v.Heredoc.Fragments
			}
			return nil
		}}, []*etx.HeredocFragment{x, {Text: "\n"}}, true
	}
	if isLevel(reflect.TypeOf(n).Elem()) {
		return expr, n, true
	}
	return no, nil, false
}

func body(items []*etx.RootItem) any {
	if items[0].Func == nil {
		return nil
	}
	return items[0].Func.Body
}

func typeOf(items []*etx.RootItem) *etx.ParameterType {
	if items[0].Decl == nil {
		return nil
	}
	return items[0].Decl.Type
}

func enumOf(items []*etx.RootItem) any {
	if items[0].Type == nil || items[0].Type.Enum == nil {
		return nil
	}
	return items[0].Type.Enum.Items
}

func objectOf(items []*etx.RootItem) any {
	if items[0].Type == nil || items[0].Type.Object == nil {
		return nil
	}
	return items[0].Type.Object.Items
}

func mapOf(items []*etx.RootItem) any {
	if v := literalOf(items); v != nil && v.Map != nil {
		return v.Map.Items
	}
	return nil
}

// lambdaOf builds a lambda from a part. The parser cannot make one, so that its
// printed form is read in pieces: a comment, parameters and an expression.
func lambdaOf(n any) string {
	f := &etx.Func{Label: "f"}
	l := &etx.Lambda{Expr: *plainExpr()}
	switch x := n.(type) {
	case *etx.Func:
		f.Parameters = x.Parameters
	case *etx.Expr:
		if x.Left == nil && x.If == nil && x.Switch == nil || outOfScopeAt(reflect.ValueOf(x)) != "" {
			return ""
		}
		l.Expr = *x
	case *etx.Comment:
		l.Comment = x
	default:
		return ""
	}
	for _, p := range f.Parameters {
		lp := &etx.LambdaParameter{Label: p.Label, Type: p.Type}
		if a, b := lp.FormattedString(), p.FormattedString(); a != b {
			if msg := partIn("def f(", a, ") {}\n", []*etx.FuncParameter{p}); msg != "" {
				return msg
			}
		}
		l.Parameters = append(l.Parameters, lp)
	}
	out := l.FormattedString()
	rest := out
	if l.Comment != nil {
		var ok bool
		if rest, ok = strings.CutPrefix(out, l.Comment.FormattedString()); !ok {
			return fmt.Sprintf("a lambda prints without its comment: %q", out)
		}
	}
	params, value, ok := strings.Cut(rest, etx.OpLambda)
	if !ok {
		return fmt.Sprintf("a lambda prints without its arrow: %q", out)
	}
	if msg := partIn("def f", params, " {}\n", f.Parameters); msg != "" {
		return "a lambda: " + msg
	}
	if msg := partIn("a = ", value, "\n", &l.Expr); msg != "" {
		return "a lambda: " + msg
	}
	return ""
}

var plainExpr = sync.OnceValue(func() *etx.Expr {
	tree, err := parse("a = x\n")
	if err != nil {
		panic(err)
	}
	return valueOf(tree.Items)
})

func partIn(before, text, after string, want any) string {
	src := before + text + after
	tree, err := parse(src)
	if err != nil {
		return fmt.Sprintf("%q prints as part of it and is rejected: %v", text, err)
	}
	var x any
	if items := tree.Items; len(items) > 0 {
		switch {
		case items[0].Func != nil:
			x = items[0].Func.Parameters
		default:
			x = valueOf(items[:1])
		}
	}
	if a, b := canon(want), canon(x); a != b {
		return fmt.Sprintf("%q prints as part of it, which is something else: %s", text, around(a, b))
	}
	return ""
}
