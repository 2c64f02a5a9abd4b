package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

var (
	nodeType  = reflect.TypeOf(etx.ASTNode{})
	floatType = reflect.TypeOf(&big.Float{})
)

// What diff compares.
const (
	cmpContent = 1 << iota
	cmpPos     // positions of nodes that have one in want
	cmpValue   // values of numbers
)

// diff says where two trees differ, ignoring parents.
func diff(want, got any, what int) string {
	return diffV("", reflect.ValueOf(want), reflect.ValueOf(got), what)
}

func diffV(path string, a, b reflect.Value, what int) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %s instead of %s", path, b.Type(), a.Type())
	}
	if a.Type() == nodeType {
		p, q := a.Interface().(etx.ASTNode).Pos, b.Interface().(etx.ASTNode).Pos
		p.Filename, q.Filename = "", ""
		if what&cmpPos != 0 && p != (etx.Position{}) && p != q {
			return fmt.Sprintf("%s: position %d (%d:%d) instead of %d (%d:%d)", path, q.Offset, q.Line, q.Column, p.Offset, p.Line, p.Column)
		}
		return ""
	}
	if a.Type() == floatType {
		if what&cmpValue == 0 {
			return ""
		}
		x, y := a.Interface().(*big.Float), b.Interface().(*big.Float)
		if (x == nil) != (y == nil) || x != nil && x.Cmp(y) != 0 {
			return fmt.Sprintf("%s: number %v instead of %v", path, y, x)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			if a.IsNil() {
				return fmt.Sprintf("%s: set to %s but should be absent", path, short(b))
			}
			return fmt.Sprintf("%s: missing, should be %s", path, short(a))
		}
		if a.IsNil() {
			return ""
		}
		return diffV(path, a.Elem(), b.Elem(), what)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			p := path + "." + f.Name
			if f.Anonymous {
				p = path
			}
			if d := diffV(p, a.Field(i), b.Field(i), what); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements instead of %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffV(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), what); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q instead of %q", path, b.String(), a.String())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v instead of %v", path, b.Bool(), a.Bool())
		}
		return ""
	case reflect.Interface, reflect.Func, reflect.Chan:
		return ""
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %v instead of %v", path, b, a)
		}
		return ""
	}
}

func short(v reflect.Value) string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v.Type().Name()
}

// isLevel tells whether t is a binary expression type.
func isLevel(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	_, l := t.FieldByName("Left")
	_, o := t.FieldByName("Op")
	_, r := t.FieldByName("Right")
	return l && o && r
}

// canon writes a tree down without layout: no positions, blank lines, quotes
// or redundant parentheses; operators of one level in a row are a flat list.
func canon(n any) string {
	var sb strings.Builder
	canonV(&sb, reflect.ValueOf(n))
	return sb.String()
}

func canonV(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Type() == floatType {
			return
		}
		canonV(sb, v.Elem())
		return
	case reflect.Slice:
		sb.WriteString("[")
		canonItems(sb, v)
		sb.WriteString("]")
		return
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
		return
	case reflect.Struct:
	default:
		fmt.Fprintf(sb, "%v", v)
		return
	}
	if isLevel(v.Type()) {
		if v.FieldByName("Right").IsNil() {
			canonV(sb, v.FieldByName("Left"))
			return
		}
		sb.WriteString("(")
		for {
			canonV(sb, v.FieldByName("Left"))
			op := v.FieldByName("Op").String()
			if op == "" {
				break
			}
			sb.WriteString(" " + op + " ")
			v = v.FieldByName("Right").Elem()
		}
		sb.WriteString(")")
		return
	}
	switch x := v.Interface().(type) {
	case etx.Expr:
		if x.Left != nil && !x.Left.ConditionOp {
			canonV(sb, reflect.ValueOf(x.Left.Condition))
			return
		}
	case etx.ExprUnary:
		if x.Op == "" {
			canonV(sb, reflect.ValueOf(x.Right))
			return
		}
	case etx.ExprPostfix:
		if x.Index == nil && x.Post == nil {
			canonV(sb, reflect.ValueOf(x.Value))
			return
		}
	case etx.ExprPrimary:
		if x.SubExpression != nil {
			canonV(sb, reflect.ValueOf(x.SubExpression))
			return
		}
		if x.Value != nil {
			canonV(sb, reflect.ValueOf(x.Value))
			return
		}
	case etx.Comment:
		if x.Multiline != "" {
			fmt.Fprintf(sb, "comment %q", strings.TrimRight(x.Multiline, "\r\n"))
			return
		}
	}
	sb.WriteString(v.Type().Name() + "{")
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || f.Type == nodeType || v.Field(i).IsZero() {
			continue
		}
		if v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0 {
			continue
		}
		sb.WriteString(f.Name + ":")
		canonV(sb, v.Field(i))
		sb.WriteString(" ")
	}
	sb.WriteString("}")
}

// canonItems leaves out blank lines and joins runs of comments and of text.
func canonItems(sb *strings.Builder, v reflect.Value) {
	textRun := ""
	flush := func() {
		if textRun != "" {
			fmt.Fprintf(sb, "text %q ", textRun)
			textRun = ""
		}
	}
	for i := 0; i < v.Len(); i++ {
		it := v.Index(i)
		for it.Kind() == reflect.Ptr && !it.IsNil() {
			it = it.Elem()
		}
		if it.Kind() == reflect.Struct {
			if f := it.FieldByName("EmptyLine"); f.IsValid() && f.String() != "" {
				continue
			}
			if f := it.FieldByName("Comment"); f.IsValid() && !f.IsNil() {
				c := f.Interface().(*etx.Comment)
				flush()
				if c.Multiline != "" {
					fmt.Fprintf(sb, "comment %q ", strings.TrimRight(c.Multiline, "\r\n"))
				}
				for _, l := range c.SingleLine {
					fmt.Fprintf(sb, "comment %q ", strings.TrimRight(l, "\r"))
				}
				continue
			}
			if f := it.FieldByName("Text"); f.IsValid() && f.String() != "" {
				textRun += f.String()
				continue
			}
		}
		flush()
		canonV(sb, it)
		sb.WriteString(" ")
	}
	flush()
}

// nodes calls f for every node struct of a tree in the order of the fields.
func nodes(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != floatType {
			nodes(v.Elem(), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nodes(v.Index(i), f)
		}
	case reflect.Struct:
		if v.Type() == nodeType {
			return
		}
		if _, ok := v.Type().FieldByName("ASTNode"); ok {
			f(v)
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				nodes(v.Field(i), f)
			}
		}
	}
}

// deepCopy copies a tree without its parents.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if v.Type() == floatType {
			return reflect.ValueOf(new(big.Float).Copy(v.Interface().(*big.Float)))
		}
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(deepCopy(v.Elem()))
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Field(i).Kind() != reflect.Interface {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return out
	default:
		return v
	}
}

// nodesOf calls f with a pointer to every node of a tree.
func nodesOf(a *etx.AST, f func(n any)) {
	nodes(reflect.ValueOf(a), func(v reflect.Value) { f(v.Addr().Interface()) })
}
