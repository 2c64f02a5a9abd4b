package main

import (
	"go/ast"
	"reflect"
)

var (
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// rewriteNode rewrites the children of n, then n itself, bottom up.
func rewriteNode(n ast.Node, f func(ast.Node) ast.Node) ast.Node {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return n
	}
	if v.Elem().Kind() == reflect.Struct {
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			fld := s.Field(i)
			switch fld.Kind() {
			case reflect.Slice:
				if fld.Type().Elem().Implements(nodeType) {
					rewriteSlice(fld, f)
				}
			case reflect.Ptr, reflect.Interface:
				if !fld.Type().Implements(nodeType) || fld.IsNil() {
					continue
				}
				if _, ok := fld.Interface().(*ast.CommentGroup); ok {
					continue
				}
				out := rewriteNode(fld.Interface().(ast.Node), f)
				if w, ok := out.(*wrapped); ok {
					if l, isLabel := n.(*ast.LabeledStmt); isLabel {
						l.Stmt = w.stmt
						w.stmt = l
						return w
					}
					out = &ast.BlockStmt{List: append(append([]ast.Stmt{}, w.pre...), w.stmt)}
				}
				fld.Set(reflect.ValueOf(out).Convert(fld.Type()))
			}
		}
	}
	return f(n)
}

func rewriteSlice(fld reflect.Value, f func(ast.Node) ast.Node) {
	out := reflect.MakeSlice(fld.Type(), 0, fld.Len())
	for j := 0; j < fld.Len(); j++ {
		e := fld.Index(j)
		if (e.Kind() == reflect.Ptr || e.Kind() == reflect.Interface) && e.IsNil() {
			out = reflect.Append(out, e)
			continue
		}
		r := rewriteNode(e.Interface().(ast.Node), f)
		if w, ok := r.(*wrapped); ok && fld.Type().Elem() == stmtType {
			for _, p := range w.pre {
				out = reflect.Append(out, reflect.ValueOf(p))
			}
			out = reflect.Append(out, reflect.ValueOf(w.stmt))
			continue
		}
		out = reflect.Append(out, reflect.ValueOf(r))
	}
	if fld.Len() > 0 {
		fld.Set(out)
	}
}
