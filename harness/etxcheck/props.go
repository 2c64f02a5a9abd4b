package main

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
)

// parsed gives the tree of a program, or "" when the parser refuses it or
// builds another tree, which is P03's business.
func (p *program) parsed() *etx.AST {
	got, err := parse(p.text.src)
	if err != nil || diff(p.tree, got, cmpContent) != "" {
		return nil
	}
	return got
}

// P03: the tree is the one that the program describes.
func p03(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return fmt.Sprintf("rejected: %v", err)
	}
	return diff(p.tree, got, cmpContent)
}

// P02: the tree accounts for every token.
func p02(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return ""
	}
	return accounts(got, p.text.toks)
}

// P07: positions.
func p07(p *program) string {
	got, err := parse(p.text.src)
	if err != nil || diff(p.tree, got, cmpContent) != "" {
		return ""
	}
	if msg := diff(p.tree, got, cmpContent|cmpPos); msg != "" {
		return msg
	}
	return moved(p.text.src, got)
}

// moved writes the same program at another place (after comments on the same
// and on an earlier line) and with other line ends, and compares where its
// nodes are then.
func moved(src string, got *etx.AST) string {
	places := placesOf(got)
	compare := func(name, other string, to func(p etx.Position) etx.Position, skip int) string {
		tree, err := parse(other)
		if err != nil {
			return ""
		}
		have := placesOf(tree)
		if len(have) != len(places)+skip {
			return ""
		}
		for i, x := range places {
			y := have[i+skip]
			if x.pos.Line == 0 && y.pos.Line == 0 {
				continue // a part that is not written
			}
			if x.kind != y.kind {
				return ""
			}
			if want := to(x.pos); want.Offset != y.pos.Offset || want.Line != y.pos.Line || want.Column != y.pos.Column {
				return fmt.Sprintf("%s at %d:%d (offset %d) is at %d:%d (offset %d) instead of %d:%d (offset %d) %s", x.kind, x.pos.Line, x.pos.Column, x.pos.Offset,
					y.pos.Line, y.pos.Column, y.pos.Offset, want.Line, want.Column, want.Offset, name)
			}
		}
		return ""
	}
	lead := "/* é\U0001F600 */"
	msg := compare("after "+lead, lead+src, func(p etx.Position) etx.Position {
		if p.Offset += len(lead); p.Line == 1 {
			p.Column += utf8.RuneCountInString(lead)
		}
		return p
	}, 2)
	if msg != "" {
		return msg
	}
	lead = "/* \n\u00e9 */"
	msg = compare("after a comment of two lines", lead+src, func(p etx.Position) etx.Position {
		if p.Offset += len(lead); p.Line == 1 {
			p.Column += 4
		}
		p.Line++
		return p
	}, 2)
	if msg != "" || strings.Contains(src, "<<") || strings.Contains(src, "\r") || !strings.Contains(src, "\n") {
		return msg
	}
	return compare("with CR LF line ends", strings.ReplaceAll(src, "\n", "\r\n"), func(p etx.Position) etx.Position {
		p.Offset += p.Line - 1
		return p
	}, 0)
}

type spot struct {
	kind string
	pos  etx.Position
}

// placesOf lists the nodes of a tree that have a position, empty lines left out.
func placesOf(a *etx.AST) []spot {
	var out []spot
	nodesOf(a, func(n any) {
		v := reflect.ValueOf(n).Elem()
		if f := v.FieldByName("EmptyLine"); f.IsValid() && f.String() != "" {
			return
		}
		switch n.(type) {
		case *etx.ValueBool, *etx.ValueNumber:
			return
		}
		if node, ok := n.(etx.Node); ok {
			out = append(out, spot{v.Type().Name(), node.Node().Pos})
		}
	})
	return out
}

// P08: children and parents.
func p08(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return ""
	}
	if msg := family(got); msg != "" {
		return msg
	}
	return regrown(got, p.deviations() <= 1)
}

// family compares the tree that Children describes with the one the fields
// describe.
func family(root *etx.AST) string {
	// Every node in the order of the source, with its parent, by the fields.
	type entry struct {
		n      *etx.ASTNode
		parent *etx.ASTNode
		typ    string
		needed bool
	}
	var want []entry
	var walk func(v reflect.Value, parent *etx.ASTNode, needed bool)
	walk = func(v reflect.Value, parent *etx.ASTNode, needed bool) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && v.Type() != floatType {
				walk(v.Elem(), parent, needed)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), parent, needed)
			}
		case reflect.Struct:
			if v.Type() == nodeType {
				return
			}
			if _, ok := v.Type().FieldByName("ASTNode"); ok {
				n := astNode(v)
				want = append(want, entry{n, parent, v.Type().Name(), needed})
				parent = n
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() {
					continue
				}
				// A part that is held by value but was not written may be reported or not.
				set := needed
				if v.Field(i).Kind() == reflect.Struct && f.Type != nodeType && empty(v.Field(i)) {
					set = false
				}
				walk(v.Field(i), parent, set)
			}
		}
	}
	walk(reflect.ValueOf(root.Items), nil, true)
	known := map[*etx.ASTNode]entry{}
	for _, e := range want {
		known[e.n] = e
	}
	seen := map[*etx.ASTNode]bool{}
	var order []*etx.ASTNode
	var visit func(n etx.Node, parent etx.Node, depth int) string
	visit = func(n etx.Node, parent etx.Node, depth int) string {
		if n == nil || reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil() {
			return fmt.Sprintf("a child of %T is nil", parent)
		}
		id := n.Node()
		if id == nil {
			return fmt.Sprintf("%T without node", n)
		}
		e, ok := known[id]
		if !ok {
			return fmt.Sprintf("child %T of %T is not part of the tree", n, parent)
		}
		if got := reflect.TypeOf(n).Elem().Name(); got != e.typ {
			return fmt.Sprintf("child reported as %s is a %s", got, e.typ)
		}
		if seen[id] {
			return fmt.Sprintf("%T is reached twice", n)
		}
		seen[id] = true
		order = append(order, id)
		var up *etx.ASTNode
		if parent != nil {
			up = parent.Node()
		}
		if up != e.parent {
			return fmt.Sprintf("%T is reported as child of %T, which it is not part of", n, parent)
		}
		if !e.needed {
			// Something not written: nothing is said about it.
			return ""
		}
		if (id.Parent == nil) != (parent == nil) || parent != nil && id.Parent.Node() != up {
			return fmt.Sprintf("the parent of %T is %T instead of %T", n, id.Parent, parent)
		}
		for _, c := range n.Children() {
			if msg := visit(c, n, depth+1); msg != "" {
				return msg
			}
		}
		return ""
	}
	for _, c := range root.Children() {
		if msg := visit(c, nil, 0); msg != "" {
			return msg
		}
	}
	at := map[*etx.ASTNode]int{}
	for i, e := range want {
		at[e.n] = i
		if e.needed && !seen[e.n] {
			return fmt.Sprintf("%s at %d:%d is not reached through Children", e.typ, e.n.Pos.Line, e.n.Pos.Column)
		}
	}
	last := -1
	for _, n := range order {
		if !known[n].needed {
			continue
		}
		if at[n] < last {
			return fmt.Sprintf("%s at %d:%d comes out of order", known[n].typ, n.Pos.Line, n.Pos.Column)
		}
		last = at[n]
	}
	return ""
}

// empty tells whether nothing of a by-value part was written.
func empty(v reflect.Value) bool {
	e := true
	nodes(v, func(n reflect.Value) {
		for i := 0; i < n.NumField(); i++ {
			if n.Type().Field(i).Type == nodeType {
				continue
			}
			switch n.Field(i).Kind() {
			case reflect.Ptr, reflect.Slice, reflect.String, reflect.Bool:
				if !n.Field(i).IsZero() {
					e = false
				}
			}
		}
	})
	return e
}

// P09: clones.
func p09(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return ""
	}
	if msg := clones(reflect.ValueOf(got), p.deviations() <= 1); msg != "" || p.deviations() > 1 {
		return msg
	}
	return lambdas(got)
}

// deviations is the number of choices that were not the first one.
func (p *program) deviations() int {
	f := strings.Split(p.desc, " ")
	if f[0] == "ladder" {
		return 2
	}
	n := 0
	for _, i := range ints(f[len(f)-1]) {
		if i != 0 {
			n++
		}
	}
	return n
}

// clones clones a tree, or every node of it.
func clones(root reflect.Value, parts bool) string {
	msg := ""
	try := func(v reflect.Value) {
		if msg != "" {
			return
		}
		m := v.Addr().MethodByName("Clone")
		if !m.IsValid() {
			return
		}
		msg = cloneOne(v.Addr(), m)
	}
	try(root.Elem())
	if parts {
		nodes(root, try)
	}
	return msg
}

func cloneOne(v, m reflect.Value) string {
	if m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return ""
	}
	name := v.Elem().Type().Name()
	before := deepCopy(v)
	out := m.Call(nil)[0]
	if out.Kind() == reflect.Struct {
		x := reflect.New(out.Type())
		x.Elem().Set(out)
		out = x
	}
	if out.Type() != v.Type() {
		// The method promoted from the embedded node: this type has no clone.
		return ""
	}
	if out.IsNil() {
		return "the clone of " + name + " is nil"
	}
	const all = cmpContent | cmpPos | cmpValue
	if d := diffV(name, v, out, all); d != "" {
		return "clone differs: " + d
	}
	if d := diffV(name, before, v, all); d != "" {
		return "cloning changed the original: " + d
	}
	if d := shared(name, v, out); d != "" {
		return "clone shares " + d
	}
	scramble(out)
	if d := diffV(name, before, v, all); d != "" {
		return "changing the clone changed the original: " + d
	}
	return ""
}

// shared looks for memory that two trees have in common.
func shared(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return ""
		}
		if a.Pointer() == b.Pointer() && a.Elem().Type().Size() > 0 {
			return path
		}
		if a.Type() == floatType {
			return ""
		}
		return shared(path, a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() > 0 && b.Len() > 0 && a.Pointer() == b.Pointer() {
			return path
		}
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if d := shared(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		if a.Type() == nodeType {
			x, y := a.Interface().(etx.ASTNode).Parent, b.Interface().(etx.ASTNode).Parent
			if x != nil && y != nil && x.Node() != nil && x.Node() == y.Node() {
				return path + ".Parent, the parent of the original"
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() {
				if d := shared(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

// scramble overwrites everything in a tree.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == floatType {
			v.Interface().(*big.Float).SetInt64(777)
			return
		}
		scramble(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
			if v.Index(i).Kind() == reflect.Ptr && v.Index(i).CanSet() {
				v.Index(i).Set(reflect.Zero(v.Index(i).Type()))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Field(i).CanSet() {
				scramble(v.Field(i))
				if v.Field(i).Kind() == reflect.Ptr {
					v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
				}
			}
		}
	case reflect.String:
		v.SetString(v.String() + "*")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64:
		v.SetInt(v.Int() + 1000)
	}
}

// Formatting.

const (
	whyHeredoc = "heredoc"
	whyLines   = "multi-line token in an indented construct"
)

// strict turns the exclusions off.
var strict = false

func scope(a *etx.AST) string {
	if strict {
		return ""
	}
	return outOfScope(a)
}

// listedInputs runs the inputs of the listed findings with nothing excluded.
func listedInputs(c *kit.Ctx, f func(src string) string) {
	if c.Worker != 0 || f == nil {
		return
	}
	for _, x := range c.Findings() {
		src, what, ok := quoted(x, "input=")
		if !ok {
			continue
		}
		strict = true
		msg := ""
		if m := kit.Guard(func() { msg = f(src) }); m != "" {
			msg = m
		}
		strict = false
		if msg != "" {
			c.KnownFinding(fmt.Sprintf("%q %s", src, what))
		}
	}
}

// outOfScope tells why formatting this tree is subject to a listed finding.
func outOfScope(a *etx.AST) string { return outOfScopeAt(reflect.ValueOf(a)) }

// outOfScopeAt is the same for a part that is not inside another.
func outOfScopeAt(root reflect.Value) string {
	why := ""
	literal := func(p *etx.ExprPrimary) *etx.Value {
		for p.SubExpression != nil {
			x := p.SubExpression
			if x.Left == nil || x.Left.ConditionOp {
				return nil
			}
			v := reflect.ValueOf(x.Left.Condition)
			for isLevel(v.Type()) {
				if !v.FieldByName("Right").IsNil() {
					return nil
				}
				v = v.FieldByName("Left")
			}
			u := v.Interface().(etx.ExprUnary)
			if u.Op != "" || u.Right.Index != nil || u.Right.Post != nil {
				return nil
			}
			p = &u.Right.Value
		}
		return p.Value
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && v.Type() != floatType {
				walk(v.Elem(), depth)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth)
			}
		case reflect.Struct:
			switch x := v.Addr().Interface().(type) {
			case *etx.Heredoc:
				why = whyHeredoc
			case *etx.Block:
				for _, l := range x.Labels {
					if strings.Contains(l, "\n") && depth > 0 {
						if why == "" {
							why = whyLines
						}
					}
				}
				depth++
			case *etx.Func, *etx.Type, *etx.ValueList, *etx.ValueMap, *etx.ExprIf, *etx.ExprSwitch, *etx.ExprCase:
				depth++
			case *etx.StringFragment:
				if depth > 0 && strings.Contains(x.Text, "\n") {
					if why == "" {
						why = whyLines
					}
				}
				if x.Expr != nil || x.Directive != nil {
					depth++
				}
			case *etx.Comment:
				if depth > 0 && strings.Contains(strings.TrimSuffix(x.Multiline, "\n"), "\n") {
					if why == "" {
						why = whyLines
					}
				}
			case *etx.ExprPostfix:
				if x.Post != nil {
					if l := literal(&x.Post.Value); l != nil && (l.Number != nil || l.Null || l.Bool != nil) {
						why = "member access on a literal"
					}
				}
			case *etx.ExprPrimary:
				if x.Post != nil {
					if l := literal(&x.Post.Value); l != nil && (l.Number != nil || l.Null || l.Bool != nil) {
						why = "member access on a literal"
					}
				}
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() && v.Type().Field(i).Type != nodeType {
					walk(v.Field(i), depth)
				}
			}
		}
	}
	walk(root, 0)
	return why
}

// P11: formatted programs parse to the same tree.
func p11(p *program) string { return formatted(p.text.src) }

func formatted(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	switch scope(got) {
	case whyHeredoc:
		if printed(got, plainText) != "" {
			return printedAround(got)
		}
		return ""
	case whyLines:
		return printed(got, withoutTabs)
	case "":
		return printed(got, plainText)
	default:
		_ = got.FormattedString()
		return ""
	}
}

func plainText(s string) string { return s }

var tabsInside = regexp.MustCompile(`(\\n)(\\t)+`)

// withoutTabs undoes the insertion of tabs into multi-line tokens in a canonical
// form (a listed finding).
func withoutTabs(s string) string { return tabsInside.ReplaceAllString(s, "$1") }

// printed compares a tree with the one its formatted form has.
func printed(got *etx.AST, modulo func(string) string) string {
	out := got.FormattedString()
	again, err := parse(out)
	if err != nil {
		return fmt.Sprintf("the formatted program is rejected: %v\nformatted:\n%s", err, out)
	}
	if a, b := modulo(canon(got)), modulo(canon(again)); a != b {
		return fmt.Sprintf("the formatted program means something else: %s\nformatted:\n%s", around(a, b), out)
	}
	return ""
}

// printedAround decides a tree whose heredocs print as the listed finding says:
// the content of each of them (what is between the delimiters), and the rest.
func printedAround(got *etx.AST) string {
	var list []*etx.Heredoc
	rest := deepCopy(reflect.ValueOf(got)).Interface().(*etx.AST)
	nodesOf(rest, func(x any) {
		if v, ok := x.(*etx.Value); ok && v.Heredoc != nil {
			list = append(list, v.Heredoc)
			v.Heredoc = nil
			v.Str = &etx.ValueString{}
		}
	})
	if outOfScope(rest) == "" {
		if msg := printed(rest, plainText); msg != "" {
			return "with its heredocs left out: " + msg
		}
	}
	for _, h := range list {
		nested := false
		nodes(reflect.ValueOf(h), func(e reflect.Value) {
			x := e.Addr().Interface()
			if v, ok := x.(*etx.Value); ok && (v.Heredoc != nil || v.Str != nil) {
				nested = true // indented or not: left to the programs without
			}
		})
		if nested {
			continue
		}
		text := h.FormattedString()
		shape := func(src string) string {
			tree, err := parse(src)
			if err != nil {
				return "rejected: " + err.Error()
			}
			_, x, _ := heredocPlaces[0].lift(tree)
			if x == nil {
				return "no heredoc"
			}
			return fmt.Sprintf("%s %v %s", x.Delimiter.Delimiter, x.Delimiter.LeadingTabs, canon(x))
		}
		want := fmt.Sprintf("%s %v %s", h.Delimiter.Delimiter, h.Delimiter.LeadingTabs, canon(h))
		if shape("a = "+text+"\n") == want {
			continue
		}
		head := "<<" + h.Delimiter.Delimiter
		if h.Delimiter.LeadingTabs {
			head = "<<-" + h.Delimiter.Delimiter
		}
		body, ok := strings.CutPrefix(text, head)
		tail := "\n" + h.Delimiter.Delimiter
		if !ok || !strings.HasSuffix(body, tail) {
			return fmt.Sprintf("a heredoc prints without its delimiters: %q", text)
		}
		body = strings.TrimSuffix(body, tail)
		if !strings.HasSuffix(body, "\n") {
			continue // another listed finding
		}
		if got := shape("a = " + head + "\n" + body + h.Delimiter.Delimiter + "\n"); got != want {
			return fmt.Sprintf("the content of a heredoc prints as something else: %s\nprinted: %q", around(want, got), text)
		}
	}
	return ""
}

func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-30, i+50
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return strings.ToValidUTF8(s[lo:hi], "?")
	}
	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}

// P12: formatting twice.
func p12(p *program) string { return stable(p.text.src) }

func stable(src string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	modulo := plainText
	switch scope(got) {
	case "":
	case whyLines:
		modulo = func(s string) string { return leadingTabs.ReplaceAllString(s, "") }
	default:
		return ""
	}
	once := got.FormattedString()
	again, err := parse(once)
	if err != nil {
		return ""
	}
	if twice := again.FormattedString(); modulo(twice) != modulo(once) {
		return fmt.Sprintf("formatting the formatted program changes it: %s\nformatted:\n%s\nformatted again:\n%s", around(once, twice), once, twice)
	}
	return ""
}

var leadingTabs = regexp.MustCompile(`(?m)^\t+`)

// P15: comments.
func p15(p *program) string {
	var want []string
	for _, t := range p.text.toks {
		if t.kind == kLine || t.kind == kMulti {
			want = append(want, strings.TrimRight(t.text, "\r"))
		}
	}
	return kept(p.text.src, want)
}

func p15Source(src string) string {
	want, ok := scanComments(src)
	if !ok {
		return ""
	}
	return kept(src, want)
}

// scanComments finds the comments of a source that has no strings but "s".
func scanComments(src string) (out []string, ok bool) {
	for i := 0; i < len(src); {
		rest := src[i:]
		switch {
		case strings.HasPrefix(rest, "//") || rest[0] == '#':
			n := strings.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			out = append(out, strings.TrimRight(rest[:n], "\r"))
			i += n
		case strings.HasPrefix(rest, "/*"):
			n := strings.Index(rest[2:], "*/")
			if n < 0 {
				return nil, false
			}
			out = append(out, rest[:n+4])
			i += n + 4
		case strings.HasPrefix(rest, `"s"`):
			i += 3
		case rest[0] == '"' || rest[0] == '\'' || strings.HasPrefix(rest, "<<"):
			return nil, false
		default:
			i++
		}
	}
	return out, true
}

// kept compares the comments of a source with those of its tree and of its
// formatted form.
func kept(src string, want []string) string {
	got, err := parse(src)
	if err != nil {
		return ""
	}
	have := commentsOf(got)
	if strings.Join(have, "\x00") != strings.Join(want, "\x00") {
		return fmt.Sprintf("the tree has the comments %q, the source %q", have, want)
	}
	if len(want) == 0 {
		return ""
	}
	modulo := plainText
	switch scope(got) {
	case "":
	case whyLines:
		modulo = func(s string) string { return leadingTabs.ReplaceAllString(s, "") }
	default:
		return ""
	}
	out := got.FormattedString()
	again, err := parse(out)
	if err != nil {
		return "" // P11
	}
	if have = commentsOf(again); modulo(strings.Join(have, "\x00")) != modulo(strings.Join(want, "\x00")) {
		return fmt.Sprintf("the formatted program has the comments %q, the source %q\nformatted:\n%s", have, want, out)
	}
	return ""
}

func commentsOf(a *etx.AST) []string {
	var out []string
	nodes(reflect.ValueOf(a), func(v reflect.Value) {
		if c, ok := v.Addr().Interface().(*etx.Comment); ok {
			if c.Multiline != "" {
				out = append(out, strings.TrimRight(c.Multiline, "\r\n"))
			}
			for _, l := range c.SingleLine {
				out = append(out, strings.TrimRight(l, "\r"))
			}
		}
	})
	return out
}

// P14: reading a tree leaves it alone.
func p14(p *program) string {
	got, err := parse(p.text.src)
	if err != nil {
		return ""
	}
	return readOnly(got)
}

func readOnly(got *etx.AST) string {
	const all = cmpContent | cmpPos | cmpValue
	before := deepCopy(reflect.ValueOf(got)).Interface().(*etx.AST)
	parents := parentsOf(got)
	first := ""
	for round := 0; round < 2; round++ {
		for _, op := range []struct {
			name string
			f    func()
		}{
			{"formatting", func() {
				s := ""
				_ = guard(func() { s = got.FormattedString() })
				if first == "" {
					first = s
				} else if s != first {
					first = "\x00formatting twice gives different texts"
				}
			}},
			{"walking", func() {
				for _, c := range got.Children() {
					visitAll(c)
				}
			}},
			{"cloning", func() { _ = got.Clone() }},
			{"formatting a part", func() {
				nodes(reflect.ValueOf(got), func(v reflect.Value) {
					if m, ok := v.Addr().Interface().(etx.FormattedStringer); ok {
						_ = guard(func() { _ = m.FormattedString() })
					}
				})
			}},
		} {
			op.f()
			if d := diff(before, got, all); d != "" {
				return fmt.Sprintf("%s changed the tree: %s", op.name, d)
			}
			if d := sameParents(parents, parentsOf(got)); d != "" {
				return fmt.Sprintf("%s changed a parent: %s", op.name, d)
			}
		}
	}
	if strings.HasPrefix(first, "\x00") {
		return first[1:]
	}
	return ""
}

func guard(f func()) (err any) {
	defer func() { err = recover() }()
	f()
	return nil
}

func visitAll(n etx.Node) {
	for _, c := range n.Children() {
		if c != nil && !reflect.ValueOf(c).IsNil() {
			visitAll(c)
		}
	}
}

func parentsOf(a *etx.AST) []etx.Node {
	var out []etx.Node
	nodes(reflect.ValueOf(a), func(v reflect.Value) { out = append(out, astNode(v).Parent) })
	return out
}

func sameParents(a, b []etx.Node) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("node %d", i)
		}
	}
	return ""
}

// inside tells what is wrong with a position in a source.
func inside(src string, p etx.Position) string {
	if p.Offset < 0 || p.Offset > len(src) {
		return fmt.Sprintf("offset %d is outside the source of %d bytes", p.Offset, len(src))
	}
	head := src[:p.Offset]
	line := 1 + strings.Count(head, "\n")
	column := utf8.RuneCountInString(head[strings.LastIndex(head, "\n")+1:]) + 1
	if p.Line != line || p.Column != column {
		return fmt.Sprintf("line %d, column %d do not fit offset %d (%d:%d)", p.Line, p.Column, p.Offset, line, column)
	}
	return ""
}
