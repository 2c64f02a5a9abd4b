package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"unicode/utf8"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// P16: the JSON form holds the whole tree.

func p16(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return ""
	}
	return jsonForm(got)
}

func p16Source(src string) string {
	if !utf8.ValidString(src) {
		return "" // JSON text is Unicode
	}
	got, err := parse(src)
	if err != nil {
		return ""
	}
	return jsonForm(got)
}

func jsonForm(got *etx.AST) string {
	text, err := json.Marshal(got)
	if err != nil {
		return fmt.Sprintf("the tree has no JSON form: %v", err)
	}
	back := &etx.AST{}
	if err := json.Unmarshal(text, back); err != nil {
		return fmt.Sprintf("the JSON form cannot be read: %v\n%s", err, text)
	}
	if d := diff(got, back, cmpContent); d != "" {
		return fmt.Sprintf("the tree read from its JSON form differs: %s\n%s", d, text)
	}
	var a, b []*big.Float
	numbers := func(root *etx.AST, to *[]*big.Float) {
		nodesOf(root, func(n any) {
			if x, ok := n.(*etx.ValueNumber); ok {
				*to = append(*to, x.Value)
			}
		})
	}
	numbers(got, &a)
	numbers(back, &b)
	for i := range a {
		if i >= len(b) || (a[i] == nil) != (b[i] == nil) {
			return fmt.Sprintf("a number is missing in the JSON form\n%s", text)
		}
		if a[i] != nil && !near(a[i], b[i]) {
			return fmt.Sprintf("the number %s is %s in the JSON form\n%s", a[i].Text('g', 25), b[i].Text('g', 25), text)
		}
	}
	again, err := json.Marshal(back)
	if err != nil {
		return fmt.Sprintf("the tree read from JSON has no JSON form: %v", err)
	}
	third := &etx.AST{}
	if err := json.Unmarshal(again, third); err != nil {
		return fmt.Sprintf("the JSON form cannot be read: %v\n%s", err, again)
	}
	if d := diff(back, third, cmpContent); d != "" {
		return fmt.Sprintf("the tree read from its JSON form differs: %s\n%s", d, again)
	}
	return ""
}

// near: equal to double precision, which is what JSON promises for numbers.
func near(x, y *big.Float) bool {
	if x.IsInf() || y.IsInf() || x.Sign() == 0 {
		return x.Cmp(y) == 0
	}
	d := new(big.Float).SetPrec(2000).Sub(x, y)
	d.Quo(d.Abs(d), new(big.Float).SetPrec(2000).Abs(x))
	return d.Cmp(new(big.Float).SetMantExp(big.NewFloat(1), -50)) <= 0
}

// Every node, copied out of and back into its tree, must be found again:
// P08 after changes.

// regrown clones a tree, replaces parts of it by their clones, and moves its
// items into another tree; UpdateParentRefs has to put all parents right.
func regrown(got *etx.AST, parts bool) string {
	clone := got.Clone()
	clone.UpdateParentRefs()
	if msg := family(clone); msg != "" {
		return "in the clone after UpdateParentRefs: " + msg
	}
	if msg := family(got); msg != "" {
		return "after UpdateParentRefs of the clone: " + msg
	}
	if parts {
		msg := ""
		replace := func(at reflect.Value) {
			m := at.MethodByName("Clone")
			if msg != "" || !at.CanSet() || !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 || m.Type().Out(0) != at.Type() {
				return
			}
			at.Set(m.Call(nil)[0])
			clone.UpdateParentRefs()
			if x := family(clone); x != "" {
				msg = fmt.Sprintf("after replacing a %s by its clone and UpdateParentRefs: %s", at.Type().Elem().Name(), x)
			}
		}
		var walk func(v reflect.Value)
		walk = func(v reflect.Value) {
			switch v.Kind() {
			case reflect.Ptr:
				if !v.IsNil() && v.Type() != floatType {
					replace(v)
					walk(v.Elem())
				}
			case reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			case reflect.Struct:
				if v.Type() == nodeType {
					return
				}
				for i := 0; i < v.NumField(); i++ {
					if v.Type().Field(i).IsExported() {
						walk(v.Field(i))
					}
				}
			}
		}
		walk(reflect.ValueOf(clone).Elem())
		if msg != "" {
			return msg
		}
	}
	whole := &etx.AST{Items: append(append([]*etx.RootItem{}, clone.Items...), got.Items...)}
	whole.UpdateParentRefs()
	if msg := family(whole); msg != "" {
		return "after moving the items into another tree and UpdateParentRefs: " + msg
	}
	return ""
}

// lambdas clones lambda expressions, which only a caller can build, made of
// the parts of a program.
func lambdas(got *etx.AST) string {
	var comment *etx.Comment
	var typ *etx.ParameterType
	var expr *etx.Expr
	nodesOf(got, func(n any) {
		switch x := n.(type) {
		case *etx.Comment:
			if comment == nil {
				comment = x
			}
		case *etx.ParameterType:
			if typ == nil {
				typ = x
			}
		case *etx.Expr:
			if expr == nil {
				expr = x
			}
		}
	})
	if expr == nil {
		expr = &etx.Expr{}
	}
	at := func(i int) etx.ASTNode {
		return etx.ASTNode{Pos: etx.Position{Filename: "f", Offset: 10 * i, Line: i, Column: i + 1}}
	}
	plain := &etx.LambdaParameter{ASTNode: at(2), Label: "p"}
	typed := &etx.LambdaParameter{ASTNode: at(3), Label: "q", Type: typ}
	for _, params := range [][]*etx.LambdaParameter{nil, {plain}, {typed}, {plain, typed}, {typed, plain, typed.Clone()}} {
		for _, co := range []*etx.Comment{nil, comment} {
			n := &etx.Lambda{ASTNode: at(1), Comment: co, Parameters: params, Expr: *expr}
			if msg := clones(reflect.ValueOf(n), false); msg != "" {
				return msg
			}
		}
	}
	if msg := clones(reflect.ValueOf(plain), false); msg != "" {
		return msg
	}
	return clones(reflect.ValueOf(typed), false)
}
