package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mcImport = "github.com/hexbee-net/etxe/zzverif/mc"

// A pkgInfo is a type-checked package of the repository.
type pkgInfo struct {
	fset  *token.FileSet
	dir   string
	names []string // file paths
	files []*ast.File
	info  *types.Info
	pkg   *types.Package
}

type listed struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
}

// loadPkg parses and type-checks the package in dir (relative to /repo).
func loadPkg(repo, pattern string) (*pkgInfo, error) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles", pattern)
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	exports := map[string]string{}
	var last listed
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[l.ImportPath] = l.Export
		last = l
	}
	p := &pkgInfo{fset: token.NewFileSet(), dir: last.Dir}
	for _, f := range last.GoFiles {
		name := filepath.Join(last.Dir, f)
		file, err := parser.ParseFile(p.fset, name, nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.names = append(p.names, name)
		p.files = append(p.files, file)
	}
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	p.pkg, err = conf.Check(last.ImportPath, p.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	return p, nil
}

// write prints the (rewritten) files into out and returns the overlay entries.
func (p *pkgInfo) write(out string, needMC map[*ast.File]bool) (map[string]string, error) {
	ov := map[string]string{}
	for i, f := range p.files {
		var head strings.Builder
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if constraint.IsGoBuild(c.Text) && c.Pos() < f.Package {
					head.WriteString(c.Text + "\n\n")
				}
			}
		}
		f.Comments = nil
		stripDocs(f)
		if needMC[f] {
			addImport(f, mcImport)
		}
		dropUnused(f, "sync")
		var buf bytes.Buffer
		buf.WriteString(head.String())
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			return nil, fmt.Errorf("print %s: %w", p.names[i], err)
		}
		name := filepath.Join(out, filepath.Base(p.dir)+"__"+filepath.Base(p.names[i]))
		if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
			return nil, err
		}
		ov[p.names[i]] = name
	}
	return ov, nil
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
}

func addImport(f *ast.File, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("verifmc"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// dropUnused removes the import of path if nothing refers to it any more.
func dropUnused(f *ast.File, path string) {
	name := path
	used := false
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				is := s.(*ast.ImportSpec)
				if v, _ := strconv.Unquote(is.Path.Value); v == path && is.Name != nil {
					name = is.Name.Name
				}
			}
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
					used = true
				}
			}
			return true
		})
	}
	if used {
		return
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			var keep []ast.Spec
			for _, s := range g.Specs {
				if v, _ := strconv.Unquote(s.(*ast.ImportSpec).Path.Value); v != path {
					keep = append(keep, s)
				}
			}
			if len(keep) == 0 {
				continue
			}
			g.Specs = keep
		}
		decls = append(decls, d)
	}
	f.Decls = decls
}

// ///////////////////////////////////// concurrency and map order

// concRewriter replaces channels, select, go, sync types and map iteration by
// the shims of package mc.
type concRewriter struct {
	p    *pkgInfo
	used bool
	n    int
	err  error

	conc bool // channels, goroutines, locks
	maps bool // map iteration
}

func instrumentConc(p *pkgInfo, conc, maps bool) (map[*ast.File]bool, error) {
	need := map[*ast.File]bool{}
	for _, f := range p.files {
		r := &concRewriter{p: p, conc: conc, maps: maps}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			rewriteNode(d, r.rewrite)
		}
		if r.err != nil {
			return nil, r.err
		}
		need[f] = r.used
	}
	return need, nil
}

func mcSel(name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifmc"), Sel: ast.NewIdent(name)}
}

func (r *concRewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.p.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.p.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if iface, ok := tp.Constraint().Underlying().(*types.Interface); ok && iface.NumEmbeddeds() == 1 {
			if u, ok := iface.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return iface.EmbeddedType(0).Underlying()
		}
		return nil
	}
	return t.Underlying()
}

func (r *concRewriter) isChan(e ast.Expr) bool {
	_, ok := coreType(r.typeOf(e)).(*types.Chan)
	return ok
}

func (r *concRewriter) isMap(e ast.Expr) bool {
	_, ok := coreType(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *concRewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.p.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *concRewriter) fresh(prefix string) string {
	r.n++
	return fmt.Sprintf("verif%s%d", prefix, r.n)
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

// rewrite is called on a node whose children are already rewritten; orig is
// the node as type-checked (the same pointer when only children changed).
func (r *concRewriter) rewrite(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.ChanType:
		if !r.conc {
			return n
		}
		r.used = true
		return &ast.StarExpr{X: &ast.IndexExpr{X: mcSel("Chan"), Index: n.Value}}

	case *ast.SendStmt:
		if !r.conc {
			return n
		}
		return &ast.ExprStmt{X: method(n.Chan, "Send", n.Value)}

	case *ast.UnaryExpr:
		if r.conc && n.Op == token.ARROW {
			return method(n.X, "Recv")
		}

	case *ast.AssignStmt:
		if r.conc && len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			n.Rhs[0] = recv2(n.Rhs[0])
		}

	case *ast.ValueSpec:
		if r.conc && len(n.Names) == 2 && len(n.Values) == 1 {
			n.Values[0] = recv2(n.Values[0])
		}

	case *ast.CallExpr:
		if !r.conc {
			return n
		}
		switch {
		case r.isBuiltin(n.Fun, "make") && len(n.Args) > 0 && isShimChan(n.Args[0]):
			r.used = true
			idx := n.Args[0].(*ast.StarExpr).X.(*ast.IndexExpr).Index
			return &ast.CallExpr{Fun: &ast.IndexExpr{X: mcSel("MakeChan"), Index: idx}, Args: n.Args[1:]}
		case r.isBuiltin(n.Fun, "make") && len(n.Args) > 0 && r.isChan(n.Args[0]):
			r.err = fmt.Errorf("make of a named channel type")
		case r.isBuiltin(n.Fun, "close"):
			return method(n.Args[0], "Close")
		case r.isBuiltin(n.Fun, "len") && len(n.Args) == 1 && r.isChan(n.Args[0]):
			r.used = true
			return &ast.CallExpr{Fun: mcSel("Len"), Args: n.Args}
		case r.isBuiltin(n.Fun, "cap") && len(n.Args) == 1 && r.isChan(n.Args[0]):
			r.used = true
			return &ast.CallExpr{Fun: mcSel("Cap"), Args: n.Args}
		}

	case *ast.GoStmt:
		if !r.conc {
			return n
		}
		r.used = true
		if lit, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: mcSel("Go"), Args: []ast.Expr{lit}}}
		}
		blk := &ast.BlockStmt{}
		call := &ast.CallExpr{Fun: n.Call.Fun, Ellipsis: n.Call.Ellipsis}
		for _, a := range n.Call.Args {
			name := r.fresh("Arg")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			call.Args = append(call.Args, ast.NewIdent(name))
		}
		if _, ok := n.Call.Fun.(*ast.FuncLit); !ok {
			name := r.fresh("Fun")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{n.Call.Fun}})
			call.Fun = ast.NewIdent(name)
		}
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
		blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: mcSel("Go"), Args: []ast.Expr{body}}})
		return blk

	case *ast.RangeStmt:
		if r.conc && r.isChan(n.X) {
			ok := ast.NewIdent(r.fresh("OK"))
			ch := ast.NewIdent(r.fresh("Ch"))
			key := n.Key
			tok := n.Tok
			if key == nil {
				key = ast.NewIdent("_")
				tok = token.DEFINE
			}
			if tok == token.ASSIGN {
				// v = range ch: assign in the body.
				v := ast.NewIdent(r.fresh("V"))
				n.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}, n.Body.List...)
				key = v
			}
			f := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{method(ch, "Recv2")}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(ch, "Recv2")}},
				Body: n.Body,
			}
			return &wrapped{pre: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{n.X}}}, stmt: f}
		}
		if r.maps && r.isMap(n.X) {
			r.used = true
			it := ast.NewIdent(r.fresh("It"))
			f := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: mcSel("Map"), Args: []ast.Expr{n.X}}}},
				Cond: method(it, "Next"),
				Body: n.Body,
			}
			var lhs, rhs []ast.Expr
			add := func(e ast.Expr, field string) {
				if e == nil {
					return
				}
				if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
					return
				}
				lhs = append(lhs, e)
				rhs = append(rhs, &ast.SelectorExpr{X: it, Sel: ast.NewIdent(field)})
			}
			add(n.Key, "K")
			add(n.Value, "V")
			if len(lhs) > 0 {
				f.Body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: n.Tok, Rhs: rhs}}, n.Body.List...)}
			}
			return f
		}

	case *ast.SelectStmt:
		if !r.conc {
			return n
		}
		return r.selectStmt(n)

	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok && r.conc {
			if pn, ok := r.p.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync" {
				switch n.Sel.Name {
				case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond":
					r.used = true
					return mcSel(n.Sel.Name)
				default:
					if n.Sel.Name != "Map" && n.Sel.Name != "Pool" && n.Sel.Name != "Locker" {
						r.err = fmt.Errorf("sync.%s is not modelled", n.Sel.Name)
					}
				}
			}
		}
	}
	return n
}

func isShimChan(e ast.Expr) bool {
	s, ok := e.(*ast.StarExpr)
	if !ok {
		return false
	}
	i, ok := s.X.(*ast.IndexExpr)
	if !ok {
		return false
	}
	sel, ok := i.X.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "verifmc" && sel.Sel.Name == "Chan"
}

// recv2 turns x.Recv() (just produced from <-x) into x.Recv2().
func recv2(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 0 {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Recv" && s.Sel.NamePos == token.NoPos {
			s.Sel.Name = "Recv2"
		}
	}
	return e
}

func (r *concRewriter) selectStmt(n *ast.SelectStmt) ast.Node {
	r.used = true
	idx, val, ok := ast.NewIdent(r.fresh("Idx")), ast.NewIdent(r.fresh("Val")), ast.NewIdent(r.fresh("Ok"))
	call := &ast.CallExpr{Fun: mcSel("Select")}
	sw := &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{}}
	hasDefault := false
	i := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		clause := &ast.CaseClause{Body: cc.Body}
		if cc.Comm == nil {
			hasDefault = true
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}
			sw.Body.List = append(sw.Body.List, clause)
			continue
		}
		clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}
		i++
		switch c := cc.Comm.(type) {
		case *ast.ExprStmt: // x.Send(v) or x.Recv()
			ce, isCall := c.X.(*ast.CallExpr)
			if !isCall {
				r.err = fmt.Errorf("select case not understood")
				return n
			}
			ch := ce.Fun.(*ast.SelectorExpr).X
			if len(ce.Args) == 1 {
				call.Args = append(call.Args, &ast.CallExpr{Fun: mcSel("SendCase"), Args: []ast.Expr{ch, ce.Args[0]}})
			} else {
				call.Args = append(call.Args, &ast.CallExpr{Fun: mcSel("RecvCase"), Args: []ast.Expr{ch}})
			}
		case *ast.AssignStmt:
			ce, isCall := unparen(c.Rhs[0]).(*ast.CallExpr)
			if !isCall {
				r.err = fmt.Errorf("select case not understood")
				return n
			}
			ch := ce.Fun.(*ast.SelectorExpr).X
			call.Args = append(call.Args, &ast.CallExpr{Fun: mcSel("RecvCase"), Args: []ast.Expr{ch}})
			rhs := []ast.Expr{&ast.CallExpr{Fun: mcSel("ValOf"), Args: []ast.Expr{ch, val}}}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, ok)
			}
			clause.Body = append([]ast.Stmt{&ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: rhs}}, clause.Body...)
		default:
			r.err = fmt.Errorf("select case not understood")
			return n
		}
		sw.Body.List = append(sw.Body.List, clause)
	}
	call.Args = append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDefault))}, call.Args...)
	assign := &ast.AssignStmt{Lhs: []ast.Expr{idx, val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}}
	use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, ok}}
	// A function that ends in a select without default case needs a
	// terminating statement after the switch.
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"mc: select"`}}}}}})
	return &wrapped{pre: []ast.Stmt{assign, use}, stmt: sw}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// wrapped is a statement that needs others before it; label moves inside.
type wrapped struct {
	ast.BadStmt
	pre  []ast.Stmt
	stmt ast.Stmt
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
