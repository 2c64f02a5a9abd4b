package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/dag"
)

// A keyer names the vertices; its key of 0 is the zero value.
type keyer[K comparable] struct {
	name string
	key  func(i int) K
	val  func(x int) any // what the graph holds for value x of the model; nil: x
	twin bool            // a second graph with the same vertices is in use at the same time
}

func (kr keyer[K]) value(x int) any {
	if kr.val != nil {
		return kr.val(x)
	}
	return x
}

// holds tells whether v is the value of vertex i.
func (w *world[K]) holds(v any, i int) bool {
	if n, ok := v.(int); ok && w.kr.val == nil {
		return n == w.m.val[i]
	}
	return reflect.DeepEqual(v, w.kr.value(w.m.val[i]))
}

// Values that are zero, nil, or cannot be compared with ==.
func fromZero(x int) any { return x - value(1, 0) }

func oftenNil(x int) any {
	if x%2 == value(1, 0)%2 {
		return nil
	}
	return x
}

func slice(x int) any { return []int{x} }

func nilPointer(x int) any {
	if x == value(2, 0) {
		return (*int)(nil)
	}
	return &numbers[x]
}

// numbers gives every value one address, so that histories can be compared.
var numbers = func() *[4096]int {
	var out [4096]int
	for i := range out {
		out[i] = i
	}
	return &out
}()

func allEqual(x int) any { return "same" }

var intKeys = keyer[int]{"int", func(i int) int { return i }, nil, false}

var negKeys = keyer[int]{"bigint", func(i int) int {
	if i == 0 {
		return 0
	}
	return -i * 1000003
}, oftenNil, false}

var strKeys = keyer[string]{"string", func(i int) string {
	if i == 0 {
		return ""
	}
	return strings.Repeat("v", i%3+1) + fmt.Sprint(i)
}, fromZero, false}

type pair struct {
	A int
	B string
}

var structKeys = keyer[pair]{"struct", func(i int) pair {
	if i == 0 {
		return pair{}
	}
	return pair{i % 2, fmt.Sprint(i / 2)}
}, slice, false}

// The keys of a struct or array may have zero parts without being zero.
var arrayKeys = keyer[[2]int8]{"array", func(i int) [2]int8 { return [2]int8{int8(i % 2), int8(i / 2)} }, oftenNil, false}

var floatKeys = keyer[float64]{"float", func(i int) float64 { return float64(i) / 4 }, nilPointer, false}

var byteKeys = keyer[uint8]{"uint8", func(i int) uint8 { return uint8(i) }, slice, true}

var runeKeys = keyer[rune]{"rune", func(i int) rune { return rune(i) * 'z' }, allEqual, false}

type world[K comparable] struct {
	kr  keyer[K]
	idx map[K]int
	g   *dag.AcyclicGraph[K, any]
	m   *model
	g2  *dag.AcyclicGraph[K, any] // the twin
}

func newWorld[K comparable](kr keyer[K], n int) *world[K] {
	w := &world[K]{kr: kr, g: dag.NewAcyclicGraph[K, any](), m: newModel(n), idx: make(map[K]int, n+2)}
	for i := n + 1; i >= 0; i-- {
		w.idx[kr.key(i)] = i
	}
	if kr.twin {
		w.g2 = dag.NewAcyclicGraph[K, any]()
	}
	return w
}

// outcome is what the model allows an operation to return.
type outcome struct {
	ok   bool
	errs []error
}

func (o outcome) matches(err error) bool {
	if o.ok {
		return err == nil
	}
	for _, e := range o.errs {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

func (o outcome) String() string {
	if o.ok {
		return "success"
	}
	var s []string
	for _, e := range o.errs {
		s = append(s, fmt.Sprintf("%q", e))
	}
	return strings.Join(s, " or ")
}

func (m *model) vertexOutcome(v int) outcome {
	switch {
	case v == 0:
		return outcome{errs: []error{dag.ErrVertexIDEmpty}}
	case !m.present[v]:
		return outcome{errs: []error{dag.ErrVertexNotFound}}
	}
	return outcome{ok: true}
}

// edgeOutcome covers the conditions on the two end points.
func (m *model) edgeOutcome(a, b int) outcome {
	var errs []error
	if a == 0 {
		errs = append(errs, dag.ErrEdgeSourceIDEmpty)
	} else if !m.present[a] {
		errs = append(errs, dag.ErrEdgeSourceIDNotFound)
	}
	if b == 0 {
		errs = append(errs, dag.ErrEdgeTargetIDEmpty)
	} else if !m.present[b] {
		errs = append(errs, dag.ErrEdgeTargetIDNotFound)
	}
	if a == b {
		errs = append(errs, dag.ErrEdgeSourceTargetIdentical)
	}
	return outcome{ok: len(errs) == 0, errs: errs}
}

// expect returns what o must return in the current model state.
func (m *model) expect(o op) outcome {
	switch o.k {
	case opAdd:
		switch {
		case o.a == 0:
			return outcome{errs: []error{dag.ErrVertexIDEmpty}}
		case m.present[o.a]:
			return outcome{errs: []error{dag.ErrVertexDuplicate}}
		}
	case opDel, opAnc, opDesc, opWalkUp, opWalkDn:
		return m.vertexOutcome(o.a)
	case opEdge:
		out := m.edgeOutcome(o.a, o.b)
		switch {
		case !out.ok:
			return out
		case m.adj[o.a][o.b]:
			return outcome{errs: []error{dag.ErrEdgeDuplicate}}
		case m.reach(o.b, false)[o.a] != 0:
			return outcome{errs: []error{dag.ErrEdgeLoop}}
		}
	case opUnedge:
		out := m.edgeOutcome(o.a, o.b)
		switch {
		case !out.ok:
			return out
		case !m.adj[o.a][o.b]:
			return outcome{errs: []error{dag.ErrEdgeNotFound}}
		}
	}
	return outcome{ok: true}
}

// apply changes the model; it is only called for operations that succeed.
func (m *model) apply(o op) {
	switch o.k {
	case opAdd:
		m.present[o.a] = true
		m.val[o.a] = value(o.a, o.b)
	case opDel:
		m.present[o.a] = false
		m.val[o.a] = 0
		for i := range m.adj {
			m.adj[i][o.a] = false
			m.adj[o.a][i] = false
		}
	case opEdge:
		m.adj[o.a][o.b] = true
	case opUnedge:
		m.adj[o.a][o.b] = false
	case opReduce:
		*m = *m.reduced()
	}
}

// do runs o against the graph only.
func (w *world[K]) do(o op) error {
	ka, kb := w.kr.key(o.a), w.kr.key(o.b)
	var err error
	switch o.k {
	case opAdd:
		err = w.g.AddVertex(ka, w.kr.value(value(o.a, o.b)))
	case opDel:
		err = w.g.DeleteVertex(ka)
	case opEdge:
		err = w.g.AddEdge(ka, kb)
	case opUnedge:
		err = w.g.DeleteEdge(ka, kb)
	case opAnc:
		_, err = w.g.GetAncestors(ka)
	case opDesc:
		_, err = w.g.GetDescendants(ka)
	case opWalkUp:
		_, err = w.g.GetOrderedAncestors(ka)
	case opWalkDn:
		_, err = w.g.GetOrderedDescendants(ka)
	case opReduce:
		w.g.ReduceTransitively()
	case opQueries:
		w.queries()
	}
	if w.g2 != nil {
		w.mirror(o)
	}
	return err
}

// mirror does the opposite to the twin, whose edges run the other way.
func (w *world[K]) mirror(o op) {
	ka, kb := w.kr.key(o.a), w.kr.key(o.b)
	g := w.g2
	switch o.k {
	case opAdd:
		_ = g.AddVertex(ka, "twin")
	case opDel:
		_ = g.DeleteVertex(ka)
		_ = g.AddVertex(ka, "new twin")
	case opEdge:
		_ = g.AddEdge(kb, ka)
		_, _ = g.GetDescendants(kb)
		_, _ = g.GetAncestors(ka)
	case opUnedge:
		_ = g.DeleteEdge(kb, ka)
	case opAnc, opWalkUp:
		_, _ = g.GetDescendants(ka)
	case opDesc, opWalkDn:
		_, _ = g.GetAncestors(ka)
	case opReduce:
		g.ReduceTransitively()
	}
}

// queries calls everything that only reads.
func (w *world[K]) queries() {
	w.g.GetOrder()
	w.g.GetSize()
	w.g.GetLeaves()
	w.g.GetRoots()
	w.g.GetVertices()
	_ = w.g.String()
	for i := 0; i <= w.m.n+1; i++ {
		k := w.kr.key(i)
		_, _ = w.g.GetVertex(k)
		_, _ = w.g.GetParents(k)
		_, _ = w.g.GetChildren(k)
		for j := 0; j <= w.m.n+1; j++ {
			_, _ = w.g.IsEdge(k, w.kr.key(j))
		}
	}
}

// step runs o against graph and model.
func (w *world[K]) step(o op) (want outcome, err error) {
	want = w.m.expect(o)
	err = w.do(o)
	if want.ok {
		w.m.apply(o)
	}
	return want, err
}

// ///////////////////////////////////// observation

func (w *world[K]) name(k K) string {
	if i, ok := w.idx[k]; ok {
		return fmt.Sprint(i)
	}
	return fmt.Sprintf("unknown key %v", k)
}

func (w *world[K]) diffMap(what string, got map[K]any, want map[int]bool) error {
	if len(got) == len(want) {
		same := true
		for k, v := range got {
			i, ok := w.idx[k]
			if !ok || !want[i] || !w.holds(v, i) {
				same = false
				break
			}
		}
		if same {
			return nil
		}
	}
	var g, x []string
	for k, v := range got {
		g = append(g, fmt.Sprintf("%s=%v", w.name(k), v))
	}
	for i := range want {
		x = append(x, fmt.Sprintf("%d=%v", i, w.kr.value(w.m.val[i])))
	}
	sort.Strings(g)
	sort.Strings(x)
	return fmt.Errorf("%s is {%s}, should be {%s} (history gives %s)", what, strings.Join(g, " "), strings.Join(x, " "), w.m)
}

// structure compares everything but reachability with the model.
func (w *world[K]) structure() error {
	m := w.m
	if got := w.g.GetOrder(); got != m.order() {
		return fmt.Errorf("GetOrder() is %d, should be %d (%s)", got, m.order(), m)
	}
	if got := w.g.GetSize(); got != m.size() {
		return fmt.Errorf("GetSize() is %d, should be %d (%s)", got, m.size(), m)
	}
	all, roots, leaves := map[int]bool{}, map[int]bool{}, map[int]bool{}
	for v := 1; v <= m.n; v++ {
		if !m.present[v] {
			continue
		}
		all[v] = true
		in, out := map[int]bool{}, map[int]bool{}
		for x := 1; x <= m.n; x++ {
			if m.adj[x][v] {
				in[x] = true
			}
			if m.adj[v][x] {
				out[x] = true
			}
		}
		if len(in) == 0 {
			roots[v] = true
		}
		if len(out) == 0 {
			leaves[v] = true
		}
		k := w.kr.key(v)
		ps, err := w.g.GetParents(k)
		if err != nil {
			return fmt.Errorf("GetParents(%d): %v", v, err)
		}
		if err := w.diffMap(fmt.Sprintf("GetParents(%d)", v), ps, in); err != nil {
			return err
		}
		cs, err := w.g.GetChildren(k)
		if err != nil {
			return fmt.Errorf("GetChildren(%d): %v", v, err)
		}
		if err := w.diffMap(fmt.Sprintf("GetChildren(%d)", v), cs, out); err != nil {
			return err
		}
		val, err := w.g.GetVertex(k)
		if err != nil || !w.holds(val, v) {
			return fmt.Errorf("GetVertex(%d) is %v, %v, should be %v", v, val, err, w.kr.value(m.val[v]))
		}
	}
	if err := w.diffMap("GetVertices()", w.g.GetVertices(), all); err != nil {
		return err
	}
	if err := w.diffMap("GetRoots()", w.g.GetRoots(), roots); err != nil {
		return err
	}
	if err := w.diffMap("GetLeaves()", w.g.GetLeaves(), leaves); err != nil {
		return err
	}
	for a := 1; a <= m.n; a++ {
		for b := 1; b <= m.n; b++ {
			if a == b || !m.present[a] || !m.present[b] {
				continue
			}
			got, err := w.g.IsEdge(w.kr.key(a), w.kr.key(b))
			if err != nil || got != m.adj[a][b] {
				return fmt.Errorf("IsEdge(%d, %d) is %v, %v, should be %v", a, b, got, err, m.adj[a][b])
			}
		}
	}
	return w.text()
}

// text checks the printed form: one line per vertex and per edge, below their headings.
func (w *world[K]) text() error {
	var want []string
	for v := 1; v <= w.m.n; v++ {
		if w.m.present[v] {
			want = append(want, fmt.Sprintf("Vertices:  %v", w.kr.key(v)))
		}
		for x := 1; x <= w.m.n; x++ {
			if w.m.adj[v][x] {
				want = append(want, fmt.Sprintf("Edges:  %v -> %v", w.kr.key(v), w.kr.key(x)))
			}
		}
	}
	want = append(want, fmt.Sprintf("DAG Vertices: %d - Edges: %d", w.m.order(), w.m.size()), "Vertices:", "Edges:")
	got := strings.Split(strings.TrimRight(w.g.String(), "\n"), "\n")
	head := ""
	for i, l := range got {
		if l == "Vertices:" || l == "Edges:" {
			head = l
		} else {
			got[i] = head + l
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("String() has the lines %q, should have %q", got, want)
	}
	return nil
}

// closure compares ancestors and descendants with the model; order says how
// the vertices are visited.
func (w *world[K]) closure(order int) error {
	n := w.m.n
	for i := 1; i <= n; i++ {
		v := i
		if order&1 != 0 {
			v = n + 1 - i
		}
		if !w.m.present[v] {
			continue
		}
		for j := 0; j < 2; j++ {
			back := (j == 0) != (order&2 != 0)
			want := map[int]bool{}
			for x, d := range w.m.reach(v, back) {
				if d != 0 {
					want[x] = true
				}
			}
			var got map[K]any
			var err error
			what := "GetDescendants"
			if back {
				what = "GetAncestors"
				got, err = w.g.GetAncestors(w.kr.key(v))
			} else {
				got, err = w.g.GetDescendants(w.kr.key(v))
			}
			if err != nil {
				return fmt.Errorf("%s(%d): %v", what, v, err)
			}
			if err := w.diffMap(fmt.Sprintf("%s(%d)", what, v), got, want); err != nil {
				return err
			}
		}
	}
	return nil
}

// edges reads the edges of the graph itself.
func (w *world[K]) edges() *model {
	o := newModel(w.m.n)
	for a := 1; a <= o.n; a++ {
		cs, err := w.g.GetChildren(w.kr.key(a))
		if err != nil {
			continue
		}
		o.present[a] = true
		for k := range cs {
			if b, ok := w.idx[k]; ok {
				o.adj[a][b] = true
			}
		}
		for b := 1; b <= o.n; b++ {
			if is, err := w.g.IsEdge(w.kr.key(a), w.kr.key(b)); err == nil && is {
				o.adj[a][b] = true
			}
		}
	}
	return o
}

// badErrors checks the error of every query on invalid IDs.
func (w *world[K]) badErrors() error {
	m := w.m
	for v := 0; v <= m.n+1; v++ {
		want := m.vertexOutcome(v)
		k := w.kr.key(v)
		check := func(what string, err error) error {
			if !want.matches(err) {
				return fmt.Errorf("%s(%d) returned %v, should be %s (%s)", what, v, err, want, m)
			}
			return nil
		}
		_, err := w.g.GetVertex(k)
		if e := check("GetVertex", err); e != nil {
			return e
		}
		_, err = w.g.GetParents(k)
		if e := check("GetParents", err); e != nil {
			return e
		}
		_, err = w.g.GetChildren(k)
		if e := check("GetChildren", err); e != nil {
			return e
		}
		if !want.ok {
			_, err = w.g.GetAncestors(k)
			if e := check("GetAncestors", err); e != nil {
				return e
			}
			_, err = w.g.GetDescendants(k)
			if e := check("GetDescendants", err); e != nil {
				return e
			}
			_, err = w.g.GetOrderedAncestors(k)
			if e := check("GetOrderedAncestors", err); e != nil {
				return e
			}
			_, err = w.g.GetOrderedDescendants(k)
			if e := check("GetOrderedDescendants", err); e != nil {
				return e
			}
			if e := check("AncestorsWalker", walkerErr(w.g, k, true)); e != nil {
				return e
			}
			if e := check("DescendantsWalker", walkerErr(w.g, k, false)); e != nil {
				return e
			}
		}
		for x := 0; x <= m.n+1; x++ {
			want := m.edgeOutcome(v, x)
			got, err := w.g.IsEdge(k, w.kr.key(x))
			if !want.matches(err) || (err != nil && got) {
				return fmt.Errorf("IsEdge(%d, %d) returned %v, %v, should be %s (%s)", v, x, got, err, want, m)
			}
		}
	}
	return nil
}

// ///////////////////////////////////// canonical form of the real object

// canon appends a deep, address-free, name-free form of v.
func canon(b []byte, v reflect.Value, depth int) []byte {
	if depth > 14 {
		return append(b, '~')
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 't')
		}
		return append(b, 'f')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return appendInt(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return appendInt(b, int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return append(b, fmt.Sprint(v.Float())...)
	case reflect.String:
		b = append(b, '"')
		b = append(b, v.String()...)
		return append(b, '"')
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return append(b, '0')
		}
		b = append(b, '&')
		return canon(b, v.Elem(), depth+1)
	case reflect.Struct:
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			b = canon(b, v.Field(i), depth+1)
			b = append(b, ',')
		}
		return append(b, '}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return append(b, '0')
		}
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = canon(b, v.Index(i), depth+1)
			b = append(b, ',')
		}
		return append(b, ']')
	case reflect.Map:
		if v.IsNil() {
			return append(b, '0')
		}
		var entries []string
		it := v.MapRange()
		for it.Next() {
			e := canon(nil, it.Key(), depth+1)
			e = append(e, ':')
			e = canon(e, it.Value(), depth+1)
			entries = append(entries, string(e))
		}
		sort.Strings(entries)
		b = append(b, '(')
		for _, e := range entries {
			b = append(b, e...)
			b = append(b, ' ')
		}
		return append(b, ')')
	}
	return append(b, '?')
}

func appendInt(b []byte, i int64) []byte {
	return strconv.AppendInt(b, i, 10)
}
