package main

import (
	"fmt"
	"hash/maphash"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// replays counts the histories run against the real graph.
var replays atomic.Int64

func replay[K comparable](kr keyer[K], n int, hist []op) *world[K] {
	replays.Add(1)
	w := newWorld(kr, n)
	for _, o := range hist {
		w.step(o)
	}
	return w
}

// dump writes down everything the graph answers about itself.
func (w *world[K]) dump(closures bool) string {
	var sb strings.Builder
	put := func(what string, m map[K]any, err error) {
		if err != nil {
			fmt.Fprintf(&sb, "%s: error %v\n", what, err)
			return
		}
		var e []string
		for k, v := range m {
			e = append(e, fmt.Sprintf("%s=%v", w.name(k), v))
		}
		sort.Strings(e)
		fmt.Fprintf(&sb, "%s: %s\n", what, strings.Join(e, " "))
	}
	fmt.Fprintf(&sb, "order %d size %d\n", w.g.GetOrder(), w.g.GetSize())
	put("vertices", w.g.GetVertices(), nil)
	put("roots", w.g.GetRoots(), nil)
	put("leaves", w.g.GetLeaves(), nil)
	for v := 1; v <= w.m.n; v++ {
		k := w.kr.key(v)
		val, err := w.g.GetVertex(k)
		fmt.Fprintf(&sb, "%d is %v %v\n", v, val, err)
		m, err := w.g.GetParents(k)
		put(fmt.Sprintf("parents of %d", v), m, err)
		m, err = w.g.GetChildren(k)
		put(fmt.Sprintf("children of %d", v), m, err)
		if closures {
			m, err = w.g.GetAncestors(k)
			put(fmt.Sprintf("ancestors of %d", v), m, err)
			m, err = w.g.GetDescendants(k)
			put(fmt.Sprintf("descendants of %d", v), m, err)
		}
		for x := 1; x <= w.m.n; x++ {
			if is, err := w.g.IsEdge(k, w.kr.key(x)); is || (err != nil && x != v) {
				fmt.Fprintf(&sb, "edge %d-%d %v %v\n", v, x, is, err)
			}
		}
	}
	lines := strings.Split(w.g.String(), "\n")
	sort.Strings(lines)
	sb.WriteString(strings.Join(lines, "\n"))
	return sb.String()
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			other := "nothing"
			if i < len(y) {
				other = fmt.Sprintf("%q", y[i])
			}
			return fmt.Sprintf("%q became %s", x[i], other)
		}
	}
	return "more lines than before"
}

// check decides whether the last operation of hist keeps prop. Each property
// reads only what it speaks about.
func check[K comparable](prop string, kr keyer[K], n int, hist []op) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	prefix, last := hist[:len(hist)-1], hist[len(hist)-1]
	at := func(format string, args ...any) string {
		return fmt.Sprintf("after %s: ", last) + fmt.Sprintf(format, args...)
	}
	switch prop {
	case "D01":
		before := replay(kr, n, prefix).edges()
		w := replay(kr, n, prefix)
		err := w.do(last)
		after := w.edges()
		if !after.acyclic() {
			return at("the graph has a cycle (%s)", after)
		}
		if last.k == opEdge && last.a != last.b && before.present[last.a] && before.present[last.b] && !before.adj[last.a][last.b] {
			closes := before.reach(last.b, false)[last.a] != 0
			if closes && err == nil {
				return at("an edge that closes a cycle was accepted (%s)", before)
			}
			if !closes && err != nil {
				return at("an edge that closes no cycle was refused: %v (%s)", err, before)
			}
		}
		if last.k == opEdge && err != nil && after.String() != before.String() {
			return at("the refused edge changed the edges from %s to %s", before, after)
		}
	case "D02":
		w := replay(kr, n, hist)
		if err := w.structure(); err != nil {
			return at("%v", err)
		}
	case "D03":
		orders := []int{0, 3}
		if n >= 4 {
			orders = []int{(last.a + last.b + len(hist)) % 4}
		}
		for _, o := range orders {
			w := replay(kr, n, hist)
			if err := w.closure(o); err != nil {
				return at("%v", err)
			}
			// And once more from the caches.
			if n < 30 {
				if err := w.closure(3 - o); err != nil {
					return at("asked again: %v", err)
				}
			}
		}
	case "D04":
		w := replay(kr, n, prefix)
		if last.k == opQueries {
			base := w.dump(false)
			if err := w.badErrors(); err != nil {
				return at("%v", err)
			}
			if now := w.dump(false); now != base {
				return at("refused queries changed the graph: %s", diffLine(base, now))
			}
			return ""
		}
		want := w.m.expect(last)
		err := w.do(last)
		if !want.matches(err) {
			return at("returned %v, should be %s (%s)", err, want, w.m)
		}
		if !want.ok {
			base := replay(kr, n, prefix).dump(true)
			if now := w.dump(true); now != base {
				return at("the refused operation changed the graph: %s", diffLine(base, now))
			}
		}
	case "D05":
		if last.k != opReduce {
			return ""
		}
		ref := replay(kr, n, prefix)
		base := ref.edges()
		baseVal := fmt.Sprint(vals(ref))
		w := replay(kr, n, hist)
		if got := fmt.Sprint(vals(w)); got != baseVal {
			return at("the vertices were %s and are %s", baseVal, got)
		}
		got, want := w.edges(), base.reduced()
		if got.String() != want.String() {
			return at("the edges are %s, the transitive reduction of %s is %s", got, base, want)
		}
		if s := w.g.GetSize(); s != want.size() {
			return at("GetSize() is %d, should be %d", s, want.size())
		}
		for v := 1; v <= n; v++ {
			if !want.present[v] {
				continue
			}
			ps, err := w.g.GetParents(kr.key(v))
			if err != nil {
				return at("GetParents(%d): %v", v, err)
			}
			for x := 1; x <= n; x++ {
				if _, ok := ps[kr.key(x)]; ok != want.adj[x][v] {
					return at("GetParents(%d) disagrees about %d (%s)", v, x, want)
				}
			}
		}
		w.m = base.clone()
		w.m.val = ref.m.val
		if err := w.closure(0); err != nil {
			return at("reachability changed: %v", err)
		}
		w.g.ReduceTransitively()
		if again := w.edges(); again.String() != want.String() {
			return at("reducing twice gives %s, once %s", again, want)
		}
	case "D08":
		if last.k == opQueries {
			for round := 0; round < 2; round++ {
				base := replay(kr, n, prefix).dump(true)
				w := replay(kr, n, prefix)
				if round == 1 {
					w.closure(0)
				}
				for _, c := range w.collect() {
					c.spoil()
				}
				if now := w.dump(true); now != base {
					return at("writing to returned collections changed the graph: %s", diffLine(base, now))
				}
			}
			return ""
		}
		w := replay(kr, n, prefix)
		cs := w.collect()
		old := make([]string, len(cs))
		for i, c := range cs {
			old[i] = c.show()
		}
		_ = w.do(last)
		_ = w.dump(true)
		for i, c := range cs {
			if now := c.show(); now != old[i] {
				return at("%s was %s and turned into %s", c.name, old[i], now)
			}
		}
	}
	return ""
}

func vals[K comparable](w *world[K]) []string {
	var out []string
	for k, v := range w.g.GetVertices() {
		out = append(out, w.name(k)+"="+fmt.Sprint(v))
	}
	sort.Strings(out)
	return out
}

// A collection the graph returned.
type collection[K comparable] struct {
	name string
	m    map[K]any
	s    []K
	kr   keyer[K]
	n    int
}

func (c collection[K]) show() string {
	b := canon(nil, reflect.ValueOf(c.m), 0)
	return string(canon(b, reflect.ValueOf(c.s), 0))
}

// spoil overwrites everything in the collection.
func (c collection[K]) spoil() {
	if c.m != nil {
		for i := 0; i <= c.n+1; i++ {
			k := c.kr.key(i)
			if _, ok := c.m[k]; ok && i%2 == 0 {
				delete(c.m, k)
			} else {
				c.m[k] = 777
			}
		}
	}
	for i := range c.s {
		c.s[i] = c.kr.key(c.n + 1)
	}
	if cap(c.s) > len(c.s) {
		x := c.s[:cap(c.s)]
		for i := range x {
			x[i] = c.kr.key(c.n + 1)
		}
	}
}

// collect calls every operation that returns a collection.
func (w *world[K]) collect() []collection[K] {
	var out []collection[K]
	add := func(name string, m map[K]any, s []K) {
		out = append(out, collection[K]{name, m, s, w.kr, w.m.n})
	}
	add("GetVertices()", w.g.GetVertices(), nil)
	add("GetRoots()", w.g.GetRoots(), nil)
	add("GetLeaves()", w.g.GetLeaves(), nil)
	for v := 1; v <= w.m.n; v++ {
		if !w.m.present[v] {
			continue
		}
		k := w.kr.key(v)
		p, _ := w.g.GetParents(k)
		add(fmt.Sprintf("GetParents(%d)", v), p, nil)
		c, _ := w.g.GetChildren(k)
		add(fmt.Sprintf("GetChildren(%d)", v), c, nil)
		a, _ := w.g.GetAncestors(k)
		add(fmt.Sprintf("GetAncestors(%d)", v), a, nil)
		d, _ := w.g.GetDescendants(k)
		add(fmt.Sprintf("GetDescendants(%d)", v), d, nil)
		oa, _ := w.g.GetOrderedAncestors(k)
		add(fmt.Sprintf("GetOrderedAncestors(%d)", v), nil, oa)
		od, _ := w.g.GetOrderedDescendants(k)
		add(fmt.Sprintf("GetOrderedDescendants(%d)", v), nil, od)
	}
	return out
}

// ///////////////////////////////////// cases

// caseDesc names a case: keys, map order, vertices, history.
func caseDesc(prop, kr string, order mc.Order, n int, hist []op) string {
	return fmt.Sprintf("seq %s %d %d %s", kr, order, n, histString(hist))
}

func runNamed(prop, kr string, n int, hist []op) string {
	switch kr {
	case "int":
		return check(prop, intKeys, n, hist)
	case "bigint":
		return check(prop, negKeys, n, hist)
	case "string":
		return check(prop, strKeys, n, hist)
	case "struct":
		return check(prop, structKeys, n, hist)
	case "array":
		return check(prop, arrayKeys, n, hist)
	case "float":
		return check(prop, floatKeys, n, hist)
	case "rune":
		return check(prop, runeKeys, n, hist)
	case "uint8":
		return check(prop, byteKeys, n, hist)
	}
	panic("unknown keys " + kr)
}

func replaySeq(c *kit.Ctx, desc string) {
	var kr string
	var order, n int
	if _, err := fmt.Sscanf(desc, "seq %s %d %d", &kr, &order, &n); err != nil {
		panic(err)
	}
	hist, err := parseHist(strings.Join(strings.Fields(desc)[4:], " "))
	if err != nil {
		panic(err)
	}
	mc.DefaultOrder = mc.Order(order)
	if msg := runNamed(c.Prop, kr, n, hist); msg != "" {
		c.Violate(desc, "%s", msg)
	}
}

// alphabet of the exploration of prop with n vertices.
func alphabet(prop string, n int, rich bool) []op {
	var out []op
	lo, hi := 1, n
	if prop == "D04" {
		lo, hi = 0, n+1
	}
	variants := 1
	if rich && (prop == "D02" || prop == "D03") {
		variants = 2
	}
	for v := lo; v <= hi; v++ {
		if v <= n {
			for i := 0; i < variants; i++ {
				out = append(out, op{opAdd, v, i})
			}
		}
		out = append(out, op{opDel, v, 0}, op{opAnc, v, 0}, op{opDesc, v, 0})
		for x := lo; x <= hi; x++ {
			if x != v || v == 1 || prop == "D04" {
				out = append(out, op{opEdge, v, x}, op{opUnedge, v, x})
			}
		}
	}
	out = append(out, op{opReduce, 0, 0})
	if prop != "D01" && prop != "D05" {
		out = append(out, op{opQueries, 0, 0})
	}
	if rich && (prop == "D02" || prop == "D03") {
		out = append(out, op{opWalkUp, 1, 0}, op{opWalkDn, 1, 0})
	}
	return out
}

type node struct {
	hist []op
}

var seed = maphash.MakeSeed()

// bfs explores every state the real graph can get into with n vertices, and
// checks every transition of it.
func bfs[K comparable](c *kit.Ctx, kr keyer[K], order mc.Order, n, maxDepth int, rich bool) {
	const maxStates = 1 << 25
	mc.DefaultOrder = order
	abc := alphabet(c.Prop, n, rich)
	var mu sync.Mutex
	seen := map[[2]uint64]bool{}
	seed2 := maphash.MakeSeed()
	identity := func(w *world[K]) [2]uint64 {
		b := canon(nil, reflect.ValueOf(w.g), 0)
		b = append(b, w.m.String()...)
		return [2]uint64{maphash.Bytes(seed, b), maphash.Bytes(seed2, b)}
	}
	start := newWorld(kr, n)
	seen[identity(start)] = true
	frontier := []node{{nil}}
	states, transitions := int64(1), int64(0)
	full := false
	threads := runtime.GOMAXPROCS(0)
	if os.Getenv("VERIF_SERIAL") != "" {
		threads = 1
	}
	for depth := 0; len(frontier) > 0 && !c.Stop(); depth++ {
		if depth >= maxDepth {
			c.Capped(fmt.Sprintf("%d vertices: histories of %d operations", n, maxDepth))
			break
		}
		c.Max(fmt.Sprintf("depth_%d_vertices", n), int64(depth+1))
		var next []node
		var pos atomic.Int64
		var wg sync.WaitGroup
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func(slot *kit.Slot) {
				defer wg.Done()
				var mine []node
				done := int64(0)
				for {
					i := int(pos.Add(1)) - 1
					if i >= len(frontier) || c.Stop() {
						break
					}
					st := frontier[i]
					for _, o := range abc {
						hist := append(append(make([]op, 0, len(st.hist)+1), st.hist...), o)
						desc := caseDesc(c.Prop, kr.name, order, n, hist)
						slot.Begin(desc)
						done++
						msg := check(c.Prop, kr, n, hist)
						if msg != "" {
							c.Violate(desc, "%s", msg)
							slot.End()
							break
						}
						var id [2]uint64
						if bad := kit.Guard(func() { id = identity(replay(kr, n, hist)) }); bad == "" {
							mu.Lock()
							if !seen[id] {
								if len(seen) >= maxStates {
									full = true
								} else {
									seen[id] = true
									mine = append(mine, node{hist})
								}
							}
							mu.Unlock()
						}
						slot.End()
					}
				}
				mu.Lock()
				next = append(next, mine...)
				states += int64(len(mine))
				transitions += done
				mu.Unlock()
			}(c.Slot(t))
		}
		wg.Wait()
		if full {
			c.Capped(fmt.Sprintf("%d vertices: %d states", n, maxStates))
			break
		}
		frontier = next
	}
	c.Count("states", states)
	c.Count("transitions", transitions)
	c.Max(fmt.Sprintf("states_%d_vertices", n), states)
}

// ///////////////////////////////////// shape families

type edge struct{ a, b int }

type shape struct {
	name  string
	n     int
	edges []edge
}

func shapes(max int, big []int) []shape {
	var out []shape
	add := func(name string, n int, es []edge) {
		out = append(out, shape{name, n, es})
	}
	sizes := []int{}
	for n := 2; n <= max; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, big...)
	for _, n := range sizes {
		var chain, rchain, starOut, starIn, complete, ladder, tree, rtree, hourglass []edge
		for i := 1; i < n; i++ {
			chain = append(chain, edge{i, i + 1})
			rchain = append(rchain, edge{i + 1, i})
			starOut = append(starOut, edge{1, i + 1})
			starIn = append(starIn, edge{i + 1, 1})
			tree = append(tree, edge{(i + 1) / 2, i + 1})
			rtree = append(rtree, edge{i + 1, (i + 1) / 2})
			if i+2 <= n {
				ladder = append(ladder, edge{i, i + 2})
			}
			ladder = append(ladder, edge{i, i + 1})
			mid := (n + 1) / 2
			if i < mid {
				hourglass = append(hourglass, edge{i, mid})
			} else {
				hourglass = append(hourglass, edge{mid, i + 1})
			}
			if n <= 24 {
				for j := i + 1; j <= n; j++ {
					complete = append(complete, edge{i, j})
				}
			}
		}
		add("chain", n, chain)
		add("reverse chain", n, rchain)
		if n > 2 {
			add("star out", n, starOut)
			add("star in", n, starIn)
		}
		if n > 3 {
			add("ladder", n, ladder)
			add("tree", n, tree)
			add("reverse tree", n, rtree)
			add("hourglass", n, hourglass)
			if complete != nil {
				add("complete", n, complete)
			}
			// Two layers joined completely.
			if n <= 24 {
				var layers []edge
				h := n / 2
				for i := 1; i <= h; i++ {
					for j := h + 1; j <= n; j++ {
						layers = append(layers, edge{j, i})
					}
				}
				add("layers", n, layers)
			}
			// Diamonds in a row.
			var dia []edge
			for i := 1; i+3 <= n; i += 3 {
				dia = append(dia, edge{i, i + 1}, edge{i, i + 2}, edge{i + 1, i + 3}, edge{i + 2, i + 3})
			}
			add("diamonds", n, dia)
			// A chain with a shortcut over everything.
			add("chain with shortcut", n, append(append([]edge{}, chain...), edge{1, n}))
		}
	}
	return out
}

// histories that build s.
func (s shape) builds(warm int) [][]op {
	var adds []op
	for i := 1; i <= s.n; i++ {
		adds = append(adds, op{opAdd, i, 0})
	}
	mk := func(order func(i int) int) []op {
		h := append([]op{}, adds...)
		for i := range s.edges {
			e := s.edges[order(i)]
			h = append(h, op{opEdge, e.a, e.b})
			if warm == 2 {
				h = append(h, op{opDesc, e.a, 0}, op{opAnc, e.b, 0})
			}
		}
		if warm == 1 || warm == 3 {
			for i := 1; i <= s.n; i++ {
				v := i
				if warm == 3 {
					v = s.n + 1 - i
				}
				h = append(h, op{opDesc, v, 0}, op{opAnc, v, 0})
			}
		}
		return h
	}
	m := len(s.edges)
	return [][]op{
		mk(func(i int) int { return i }),
		mk(func(i int) int { return m - 1 - i }),
		mk(func(i int) int { // odd ones first
			h := m / 2
			if i < h {
				return 2*i + 1
			}
			return 2 * (i - h)
		}),
	}
}

// steps to take from a built shape.
func (s shape) tails(prop string, small bool) [][]op {
	var out [][]op
	one := func(ops ...op) { out = append(out, ops) }
	vs := map[int]bool{1: true, 2: true, (s.n + 1) / 2: true, s.n: true}
	if s.n > 2 {
		vs[s.n-1] = true
	}
	if small {
		for i := 1; i <= s.n; i++ {
			vs[i] = true
		}
	}
	es := map[edge]bool{}
	for i, e := range s.edges {
		if small || i == 0 || i == len(s.edges)/2 || i == len(s.edges)-1 {
			es[e] = true
		}
	}
	one(op{opQueries, 0, 0})
	one(op{opReduce, 0, 0})
	for _, v := range sortedInts(vs) {
		one(op{opDel, v, 0})
		one(op{opDel, v, 0}, op{opAdd, v, 1})
		one(op{opDel, v, 0}, op{opReduce, 0, 0})
		for _, x := range sortedInts(vs) {
			if x != v {
				one(op{opEdge, v, x})
				one(op{opEdge, v, x}, op{opReduce, 0, 0})
			}
		}
	}
	for _, e := range s.edges {
		if es[e] {
			one(op{opUnedge, e.a, e.b})
			one(op{opUnedge, e.a, e.b}, op{opEdge, e.b, e.a})
			one(op{opUnedge, e.a, e.b}, op{opReduce, 0, 0})
			one(op{opReduce, 0, 0}, op{opUnedge, e.a, e.b})
		}
	}
	return out
}

func sortedInts(m map[int]bool) []int { return sorted(m) }

// families runs the shapes, each step of every tail being checked.
func families(c *kit.Ctx, krs []string, order mc.Order, max int, big []int, smallMax int) {
	mc.DefaultOrder = order
	type job struct {
		kr   string
		n    int
		hist []op
	}
	jobs := make(chan job, 256)
	var wg sync.WaitGroup
	var count atomic.Int64
	threads := runtime.GOMAXPROCS(0)
	if os.Getenv("VERIF_SERIAL") != "" {
		threads = 1
	}
	for t := 0; t < threads; t++ {
		wg.Add(1)
		go func(slot *kit.Slot) {
			defer wg.Done()
			for j := range jobs {
				if c.Stop() {
					continue
				}
				desc := caseDesc(c.Prop, j.kr, order, j.n, j.hist)
				slot.Begin(desc)
				if msg := runNamed(c.Prop, j.kr, j.n, j.hist); msg != "" {
					c.Violate(desc, "%s", msg)
				}
				slot.End()
				count.Add(1)
			}
		}(c.Slot(t))
	}
	wantR := c.Prop == "D05"
	for _, kr := range krs {
		for _, s := range shapes(max, big) {
			for warm := 0; warm < 4; warm++ {
				for bi, b := range s.builds(warm) {
					if bi > 0 && s.n > max {
						continue
					}
					// The last step of the building itself.
					if !wantR {
						jobs <- job{kr, s.n, b}
					}
					for _, tail := range s.tails(c.Prop, s.n <= smallMax) {
						if c.Stop() {
							break
						}
						if wantR && tail[len(tail)-1].k != opReduce {
							continue
						}
						if s.n > max && len(tail) > 1 && tail[len(tail)-1].k != opReduce {
							continue
						}
						h := append(append(make([]op, 0, len(b)+len(tail)), b...), tail...)
						jobs <- job{kr, s.n, h}
					}
				}
			}
			c.Max("largest_shape", int64(s.n))
		}
	}
	close(jobs)
	wg.Wait()
	c.Count("shape_histories", count.Load())
}

// runSeq is the whole exploration of one of the history properties.
func runSeq(c *kit.Ctx) {
	defer func() { c.Count("traces_validated_against_impl", replays.Load()) }()
	c.Sample(caseDesc(c.Prop, "int", mc.Ascending, 3, []op{{opAdd, 1, 0}, {opAdd, 2, 0}, {opEdge, 1, 2}, {opDesc, 1, 0}, {opEdge, 2, 1}}))
	c.Sample(caseDesc(c.Prop, "string", mc.Descending, 3, []op{{opAdd, 3, 0}, {opAdd, 2, 0}, {opEdge, 3, 2}, {opDel, 2, 0}, {opReduce, 0, 0}}))
	bfs(c, intKeys, mc.Ascending, 3, 1000, true)
	bfs(c, strKeys, mc.Descending, 3, 1000, false)
	bfs(c, structKeys, mc.Rotated, 3, 1000, false)
	if c.Stop() {
		return
	}
	max, big := c.Pick(9, 16), []int{17, 33, 66}
	if !c.Thorough() && (c.Prop == "D04" || c.Prop == "D08") {
		max, big = 6, []int{17, 40}
	}
	families(c, []string{"int"}, mc.Ascending, max, big, c.Pick(5, 10))
	families(c, []string{"string"}, mc.Descending, c.Pick(6, 14), []int{20}, c.Pick(5, 8))
	families(c, []string{"bigint", "struct", "array", "float", "rune", "uint8"}, mc.Rotated, 5, nil, 5)
	if c.Stop() {
		return
	}
	if c.Thorough() {
		families(c, []string{"int"}, mc.Descending, 2, []int{130, 260}, 2)
		bfs(c, intKeys, mc.Ascending, 4, 1000, false)
		bfs(c, intKeys, mc.Descending, 4, 1000, false)
		bfs(c, intKeys, mc.Ascending, 5, 7, false)
	} else {
		depth := 9
		if c.Prop != "D01" && c.Prop != "D05" {
			depth = 8
		}
		bfs(c, intKeys, mc.Ascending, 4, depth, false)
	}
}
