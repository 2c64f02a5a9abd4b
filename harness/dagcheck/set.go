package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A set over a universe of small numbers as the model sees it; nil sets are
// the model nil.
type mset map[int]bool

func (s mset) String() string {
	if s == nil {
		return "nil"
	}
	var e []string
	for _, k := range sorted(s) {
		e = append(e, fmt.Sprint(k))
	}
	return "{" + strings.Join(e, ",") + "}"
}

func parseSet(f string) mset {
	if f == "nil" {
		return nil
	}
	s := mset{}
	for _, x := range strings.Split(strings.Trim(f, "{}"), ",") {
		var i int
		if _, err := fmt.Sscan(x, &i); err == nil {
			s[i] = true
		}
	}
	return s
}

func mkSet[K comparable](kr keyer[K], s mset) dag.Set[K] {
	if s == nil {
		return nil
	}
	out := make(dag.Set[K])
	for _, k := range sorted(s) {
		out.Add(kr.key(k))
	}
	return out
}

// comparisons with the model.
var comparisons atomic.Int64

func sameSet[K comparable](kr keyer[K], got dag.Set[K], want mset) error {
	comparisons.Add(1)
	if len(got) != len(want) {
		return fmt.Errorf("has %d elements (%v), should be %v", len(got), got, want)
	}
	for k := range want {
		if !got.Includes(kr.key(k)) {
			return fmt.Errorf("lacks %d (%v), should be %v", k, got, want)
		}
	}
	return nil
}

// checkPair runs every binary operation on a and b.
func checkPair[K comparable](kr keyer[K], universe int, a, b mset) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	inter, diff := mset{}, mset{}
	for k := range a {
		if b[k] {
			inter[k] = true
		} else {
			diff[k] = true
		}
	}
	ops := []struct {
		name string
		f    func(x, y dag.Set[K]) dag.Set[K]
		want mset
	}{
		{"Intersection", func(x, y dag.Set[K]) dag.Set[K] { return x.Intersection(y) }, inter},
		{"Difference", func(x, y dag.Set[K]) dag.Set[K] { return x.Difference(y) }, diff},
	}
	for _, o := range ops {
		x, y := mkSet(kr, a), mkSet(kr, b)
		got := o.f(x, y)
		if err := sameSet(kr, got, o.want); err != nil {
			return fmt.Sprintf("%s of %v and %v %v", o.name, a, b, err)
		}
		if err := sameSet(kr, x, a); err != nil {
			return fmt.Sprintf("%s changed its receiver: it %v", o.name, err)
		}
		if err := sameSet(kr, y, b); err != nil {
			return fmt.Sprintf("%s changed its argument: it %v", o.name, err)
		}
		if e := independent(kr, universe, got, x, a, y, b, o.want); e != "" {
			return fmt.Sprintf("%s of %v and %v: %s", o.name, a, b, e)
		}
	}
	if a != nil {
		// With itself.
		x := mkSet(kr, a)
		if err := sameSet(kr, x.Intersection(x), a); err != nil {
			return fmt.Sprintf("Intersection of %v with itself %v", a, err)
		}
		if err := sameSet(kr, x.Difference(x), mset{}); err != nil {
			return fmt.Sprintf("Difference of %v with itself %v", a, err)
		}
		if err := sameSet(kr, x, a); err != nil {
			return fmt.Sprintf("the set changed: it %v", err)
		}
	}
	return ""
}

// independent writes to the result and to the operands in turn.
func independent[K comparable](kr keyer[K], universe int, got, x dag.Set[K], a mset, y dag.Set[K], b mset, want mset) string {
	for _, s := range []dag.Set[K]{x, y} {
		if s == nil {
			continue
		}
		for i := 0; i <= universe; i++ {
			k := kr.key(i)
			if s.Includes(k) {
				s.Delete(k)
			} else {
				s.Add(k)
			}
		}
	}
	if err := sameSet(kr, got, want); err != nil {
		return fmt.Sprintf("the result follows changes of the operands: it %v", err)
	}
	xs, ys := fmt.Sprint(x), fmt.Sprint(y)
	for i := 0; i <= universe; i++ {
		k := kr.key(i)
		if got.Includes(k) {
			got.Delete(k)
		} else {
			got.Add(k)
		}
	}
	if fmt.Sprint(x) != xs || fmt.Sprint(y) != ys {
		return "the operands follow changes of the result"
	}
	return ""
}

// checkOne runs every unary operation on a; preds are subsets of the universe.
func checkOne[K comparable](kr keyer[K], universe int, a mset, preds []mset) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	for i := 0; i <= universe; i++ {
		x := mkSet(kr, a)
		if x.Includes(kr.key(i)) != a[i] {
			return fmt.Sprintf("Includes(%d) of %v is wrong", i, a)
		}
		if a == nil {
			continue
		}
		with, without := mset{i: true}, mset{}
		for k := range a {
			with[k] = true
			if k != i {
				without[k] = true
			}
		}
		x.Add(kr.key(i))
		if err := sameSet(kr, x, with); err != nil {
			return fmt.Sprintf("%v after Add(%d) %v", a, i, err)
		}
		x = mkSet(kr, a)
		x.Delete(kr.key(i))
		if err := sameSet(kr, x, without); err != nil {
			return fmt.Sprintf("%v after Delete(%d) %v", a, i, err)
		}
	}
	for _, p := range preds {
		x := mkSet(kr, a)
		want := mset{}
		for k := range a {
			if p[k] {
				want[k] = true
			}
		}
		asked := map[K]int{}
		got := x.Filter(func(v K) bool {
			asked[v]++
			for k := range p {
				if kr.key(k) == v {
					return true
				}
			}
			return false
		})
		if err := sameSet(kr, got, want); err != nil {
			return fmt.Sprintf("Filter of %v by %v %v", a, p, err)
		}
		if err := sameSet(kr, x, a); err != nil {
			return fmt.Sprintf("Filter changed its receiver: it %v", err)
		}
		if e := independent(kr, universe, got, x, a, nil, nil, want); e != "" {
			return fmt.Sprintf("Filter of %v by %v: %s", a, p, e)
		}
	}
	x := mkSet(kr, a)
	list := x.List()
	var names []string
	for _, k := range list {
		names = append(names, fmt.Sprint(k))
	}
	var want []string
	for k := range a {
		want = append(want, fmt.Sprint(kr.key(k)))
	}
	sort.Strings(names)
	sort.Strings(want)
	if strings.Join(names, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("List of %v is %v", a, list)
	}
	for i := range list {
		list[i] = kr.key(universe)
	}
	if err := sameSet(kr, x, a); err != nil {
		return fmt.Sprintf("List shares memory with its set: it %v", err)
	}
	cp := x.Copy()
	if err := sameSet(kr, cp, a); err != nil {
		return fmt.Sprintf("Copy of %v %v", a, err)
	}
	if e := independent(kr, universe, cp, x, a, nil, nil, a); e != "" {
		return fmt.Sprintf("Copy of %v: %s", a, e)
	}
	return ""
}

// setCase runs "set KEYS ORDER UNIVERSE A B" or "set ... A" .
func setCase(kr string, universe int, a, b mset, pair bool, preds []mset) string {
	switch kr {
	case "string":
		return setCaseK(strKeys, universe, a, b, pair, preds)
	case "struct":
		return setCaseK(structKeys, universe, a, b, pair, preds)
	case "float":
		return setCaseK(floatKeys, universe, a, b, pair, preds)
	}
	return setCaseK(intKeys, universe, a, b, pair, preds)
}

func setCaseK[K comparable](kr keyer[K], universe int, a, b mset, pair bool, preds []mset) string {
	if pair {
		return checkPair(kr, universe, a, b)
	}
	return checkOne(kr, universe, a, preds)
}

func subsets(universe int) []mset {
	var out []mset
	for mask := 0; mask < 1<<universe; mask++ {
		s := mset{}
		for i := 0; i < universe; i++ {
			if mask>>i&1 == 1 {
				s[i] = true
			}
		}
		out = append(out, s)
	}
	return out
}

// predicates of larger universes.
func bigPreds(universe int) []mset {
	out := []mset{{}}
	for _, f := range []func(i int) bool{
		func(i int) bool { return true },
		func(i int) bool { return i%2 == 0 },
		func(i int) bool { return i%2 == 1 },
		func(i int) bool { return i < universe/2 },
		func(i int) bool { return i == 0 },
		func(i int) bool { return i == universe-1 },
		func(i int) bool { return i != universe-1 },
	} {
		s := mset{}
		for i := 0; i < universe; i++ {
			if f(i) {
				s[i] = true
			}
		}
		out = append(out, s)
	}
	return out
}

func predsFor(universe int) []mset {
	if universe <= 4 {
		return subsets(universe)
	}
	return bigPreds(universe)
}

func replaySet(c *kit.Ctx, desc string) {
	f := strings.Fields(desc)
	var order, universe int
	_, _ = fmt.Sscan(f[2], &order)
	_, _ = fmt.Sscan(f[3], &universe)
	mc.DefaultOrder = mc.Order(order)
	a := parseSet(f[4])
	var b mset
	pair := len(f) > 5
	if pair {
		b = parseSet(f[5])
	}
	if msg := setCase(f[1], universe, a, b, pair, predsFor(universe)); msg != "" {
		c.Violate(desc, "%s", msg)
	}
}

func runSets(c *kit.Ctx) {
	slot := c.Slot(0)
	n := int64(0)
	run := func(kr string, order mc.Order, universe int, a, b mset, pair bool) {
		if c.Stop() {
			return
		}
		desc := fmt.Sprintf("set %s %d %d %v", kr, order, universe, a)
		if pair {
			desc += " " + b.String()
		}
		slot.Begin(desc)
		n++
		if msg := setCase(kr, universe, a, b, pair, predsFor(universe)); msg != "" {
			c.Violate(desc, "%s", msg)
		}
		slot.End()
	}
	c.Sample("set int 0 4 {0,2} {1,2}")
	c.Sample("set string 1 4 nil {3}")
	for _, order := range []mc.Order{mc.Ascending, mc.Descending, mc.Rotated} {
		mc.DefaultOrder = order
		for _, kr := range []string{"int", "string", "struct", "float"} {
			u := c.Pick(4, 6)
			all := append([]mset{nil}, subsets(u)...)
			for _, a := range all {
				run(kr, order, u, a, nil, false)
				for _, b := range all {
					run(kr, order, u, a, b, true)
				}
			}
		}
		// Sizes: [0,x) against [y, y+z).
		max := c.Pick(24, 40)
		span := func(lo, n int) mset {
			s := mset{}
			for i := lo; i < lo+n; i++ {
				s[i] = true
			}
			return s
		}
		sizes := []int{}
		for i := 0; i <= max; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 65, 130)
		for _, x := range sizes {
			run("int", order, 140, span(0, x), nil, false)
			for _, z := range sizes {
				for _, y := range []int{0, 1, x / 2, x - 1, x} {
					if y < 0 || (x > max && z > max && y > 1) {
						continue
					}
					run("int", order, x+z+1, span(0, x), span(y, z), true)
				}
			}
		}
	}
	c.Count("states", n)
	// Sequences of Add and Delete.
	depth := c.Pick(6, 8)
	seqs := int64(0)
	var rec func(hist []op)
	rec = func(hist []op) {
		if c.Stop() {
			return
		}
		if len(hist) > 0 {
			desc := "set-seq " + histString(hist)
			slot.Begin(desc)
			seqs++
			if msg := setSeq(hist); msg != "" {
				c.Violate(desc, "%s", msg)
			}
			slot.End()
		}
		if len(hist) == depth {
			return
		}
		for _, k := range []byte{opAdd, opDel} {
			for v := 0; v < 3; v++ {
				rec(append(append([]op{}, hist...), op{k, v, 0}))
			}
		}
	}
	rec(nil)
	c.Count("sequences", seqs)
	c.Count("transitions", comparisons.Load())
	c.Count("traces_validated_against_impl", n+seqs)
}

// setSeq applies adds and deletes and checks the result.
func setSeq(hist []op) string {
	s := make(dag.Set[int])
	m := mset{}
	for _, o := range hist {
		if o.k == opAdd {
			s.Add(o.a)
			m[o.a] = true
		} else {
			s.Delete(o.a)
			delete(m, o.a)
		}
	}
	if err := sameSet(intKeys, s, m); err != nil {
		return fmt.Sprintf("the set %v", err)
	}
	if l := s.List(); len(l) != len(m) {
		return fmt.Sprintf("List is %v, the set is %v", l, m)
	}
	return ""
}
