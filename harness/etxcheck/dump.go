package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// dump writes down everything about a tree: contents, positions, parents.
func dump(a *etx.AST) string {
	if a == nil {
		return "no tree"
	}
	ids := map[*etx.ASTNode]int{}
	nodes(reflect.ValueOf(a), func(v reflect.Value) { ids[astNode(v)] = len(ids) })
	var sb strings.Builder
	dumpV(&sb, reflect.ValueOf(a), ids)
	return sb.String()
}

func dumpV(sb *strings.Builder, v reflect.Value, ids map[*etx.ASTNode]int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("-")
			return
		}
		if v.Type() == floatType {
			f := v.Interface().(*big.Float)
			fmt.Fprintf(sb, "%s/%d", f.Text('p', 0), f.Prec())
			return
		}
		dumpV(sb, v.Elem(), ids)
	case reflect.Slice:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpV(sb, v.Index(i), ids)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Struct:
		if v.Type() == nodeType {
			n := v.Addr().Interface().(*etx.ASTNode)
			up := "-"
			if n.Parent != nil && !reflect.ValueOf(n.Parent).IsNil() {
				up = "elsewhere"
				if id, ok := ids[n.Parent.Node()]; ok {
					up = fmt.Sprint(id)
				}
			}
			fmt.Fprintf(sb, "%s@%d:%d:%d^%s ", n.Pos.Filename, n.Pos.Offset, n.Pos.Line, n.Pos.Column, up)
			return
		}
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				dumpV(sb, v.Field(i), ids)
				sb.WriteString(";")
			}
		}
		sb.WriteString("}")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Interface, reflect.Func, reflect.Chan, reflect.Map:
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

// outcome is what a call to the parser gave.
func outcome(a *etx.AST, err error) string {
	if err != nil {
		s := "error " + err.Error()
		if a != nil {
			s += " and a tree"
		}
		return s
	}
	return dump(a)
}
