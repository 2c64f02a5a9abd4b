package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

// instrumentMemo wraps every construction of a participle parser whose
// arguments only depend on package-level things in verifmc.Memo, so that the
// parser is built once per call site instead of once per parse.
func instrumentMemo(p *pkgInfo) (map[*ast.File]bool, int, error) {
	need := map[*ast.File]bool{}
	n := 0
	for _, f := range p.files {
		f := f
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			rewriteNode(d, func(x ast.Node) ast.Node {
				call, ok := x.(*ast.CallExpr)
				if !ok {
					return x
				}
				sel, ok := call.Fun.(*ast.SelectorExpr)
				if !ok || sel.Sel.Name != "MustBuild" {
					return x
				}
				id, ok := sel.X.(*ast.Ident)
				if !ok {
					return x
				}
				pn, ok := p.info.Uses[id].(*types.PkgName)
				if !ok || pn.Imported().Path() != "github.com/alecthomas/participle/v2" {
					return x
				}
				for _, a := range call.Args {
					if !packageLevelOnly(p, a) {
						return x
					}
				}
				n++
				need[f] = true
				typ := &ast.StarExpr{X: &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent("Parser")}}
				lit := &ast.FuncLit{
					Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: typ}}}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}},
				}
				return &ast.CallExpr{Fun: mcSel("Memo"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}, lit}}
			})
		}
	}
	return need, n, nil
}

// packageLevelOnly tells whether e mentions no local variable and no mutable
// package variable.
func packageLevelOnly(p *pkgInfo, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, is := n.(*ast.FuncLit); is {
			ok = false
		}
		id, is := n.(*ast.Ident)
		if !is {
			return true
		}
		if v, is := p.info.Uses[id].(*types.Var); is && !v.IsField() {
			ok = false
		}
		return true
	})
	return ok
}

// usesNativeSync tells whether the package synchronises in ways that the shims
// do not model.
func usesNativeSync(p *pkgInfo) bool {
	found := false
	for _, f := range p.files {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync/atomic"` || im.Path.Value == `"unsafe"` {
				found = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if sel, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok {
					if pn, ok := p.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync" {
						switch sel.Sel.Name {
						case "Mutex", "RWMutex", "WaitGroup", "Once":
						default:
							found = true
						}
					}
				}
			}
			return true
		})
	}
	return found
}

// An access is a use of a package variable: true for writing.
type accessSet map[string]bool

// packageAccesses finds, for every statement, the package variables that its
// own expressions (not the statements nested in it) use.
func packageAccesses(p *pkgInfo) map[ast.Stmt]accessSet {
	pkgVar := func(id *ast.Ident) (string, types.Type) {
		v, ok := p.info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			return "", nil
		}
		if v.Pkg() != p.pkg {
			return "", nil
		}
		if isSyncType(v.Type()) {
			return "", nil
		}
		return v.Name(), v.Type()
	}
	var root func(e ast.Expr) *ast.Ident
	root = func(e ast.Expr) *ast.Ident {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			return root(x.X)
		case *ast.IndexExpr:
			return root(x.X)
		case *ast.SliceExpr:
			return root(x.X)
		case *ast.StarExpr:
			return root(x.X)
		case *ast.ParenExpr:
			return root(x.X)
		}
		return nil
	}
	out := map[ast.Stmt]accessSet{}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			st, ok := n.(ast.Stmt)
			if _, block := n.(*ast.BlockStmt); !ok || block {
				return true
			}
			set := accessSet{}
			write := func(e ast.Expr) {
				if id := root(e); id != nil {
					if name, _ := pkgVar(id); name != "" {
						set[name] = true
					}
				}
			}
			ast.Inspect(st, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
					return false
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						write(l)
					}
				case *ast.IncDecStmt:
					write(n.X)
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						write(n.Key)
						write(n.Value)
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						write(n.X)
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "copy" || id.Name == "clear") && len(n.Args) > 0 {
						if _, ok := p.info.Uses[id].(*types.Builtin); ok {
							write(n.Args[0])
						}
					}
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
						if s := p.info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
							// A method with pointer receiver on the variable itself.
							if fn, ok := s.Obj().(*types.Func); ok {
								sig := fn.Type().(*types.Signature)
								_, ptr := sig.Recv().Type().(*types.Pointer)
								_, isPtr := s.Recv().(*types.Pointer)
								if ptr && !isPtr && !isSyncType(s.Recv()) {
									write(sel.X)
								}
							}
						}
					}
				case *ast.Ident:
					if name, _ := pkgVar(n); name != "" && !set[name] {
						set[name] = false
					}
				}
				return true
			})
			if len(set) > 0 {
				out[st] = set
			}
			return true
		})
	}
	// Only variables that are written somewhere matter.
	written := map[string]bool{}
	for _, s := range out {
		for name, w := range s {
			if w {
				written[name] = true
			}
		}
	}
	for st, s := range out {
		for name := range s {
			if !written[name] {
				delete(s, name)
			}
		}
		if len(s) == 0 {
			delete(out, st)
		}
	}
	return out
}

func isSyncType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// instrumentPoints puts a scheduling point before every statement of the
// package's functions, and reports the package variables it uses.
func instrumentPoints(p *pkgInfo, need map[*ast.File]bool, access map[ast.Stmt]accessSet) error {
	site := 0
	point := func() ast.Stmt {
		site++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: mcSel("StepAt"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(site)}}}}
	}
	for _, f := range p.files {
		f := f
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
				continue
			}
			rewriteNode(fd, func(x ast.Node) ast.Node {
				add := func(list []ast.Stmt) []ast.Stmt {
					var out []ast.Stmt
					for _, s := range list {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
						default:
							out = append(out, point())
							need[f] = true
						}
						set := access[s]
						if l, ok := s.(*ast.LabeledStmt); ok {
							set = access[l.Stmt]
						}
						for _, name := range sortedNames(set) {
							out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: mcSel("Access"), Args: []ast.Expr{
								&ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", name)}, ast.NewIdent(fmt.Sprint(set[name]))}}})
						}
						out = append(out, s)
					}
					return out
				}
				switch b := x.(type) {
				case *ast.BlockStmt:
					b.List = add(b.List)
				case *ast.CaseClause:
					b.Body = add(b.Body)
				case *ast.CommClause:
					b.Body = add(b.Body)
				}
				return x
			})
		}
	}
	return nil
}

func sortedNames(s accessSet) []string {
	var out []string
	for n := range s {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
