package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A scene is one walk situation: a history that builds the graph, the start,
// the direction and what the consumer does.
type scene struct {
	kr    string
	n     int
	hist  []op
	start int
	up    bool
	mode  string // what the consumer does
	k     int    // parameter of the mode
}

func (s scene) String() string {
	dir := "down"
	if s.up {
		dir = "up"
	}
	return fmt.Sprintf("walk %s %d %d %s %s %d | %s", s.kr, s.n, s.start, dir, s.mode, s.k, histString(s.hist))
}

func parseScene(str string) (scene, []int, error) {
	var s scene
	var dir string
	picks := []int(nil)
	if i := strings.Index(str, " @ "); i >= 0 {
		for _, f := range strings.Fields(str[i+3:]) {
			var x int
			if _, err := fmt.Sscan(f, &x); err != nil {
				return s, nil, err
			}
			picks = append(picks, x)
		}
		str = str[:i]
	}
	head, hist, _ := strings.Cut(str, " |")
	if _, err := fmt.Sscanf(head, "walk %s %d %d %s %s %d", &s.kr, &s.n, &s.start, &dir, &s.mode, &s.k); err != nil {
		return s, nil, err
	}
	s.up = dir == "up"
	h, err := parseHist(hist)
	s.hist = h
	return s, picks, err
}

func (s scene) run(c *mc.Chooser) (string, int) {
	switch s.kr {
	case "string":
		return runScene(c, strKeys, s)
	case "struct":
		return runScene(c, structKeys, s)
	}
	return runScene(c, intKeys, s)
}

// judge compares what a complete walk returned with the model.
func (w *world[K]) judge(got []K, start int, up, complete bool) string {
	dist := w.m.reach(start, up)
	seen := map[int]bool{}
	last := 0
	var names []string
	for _, k := range got {
		names = append(names, w.name(k))
	}
	for _, k := range got {
		i, ok := w.idx[k]
		switch {
		case !ok || dist[i] == 0:
			return fmt.Sprintf("the walk %v visits %s, which it cannot reach (%s)", names, w.name(k), w.m)
		case seen[i]:
			return fmt.Sprintf("the walk %v visits %d twice (%s)", names, i, w.m)
		case dist[i] < last:
			return fmt.Sprintf("the walk %v is not breadth first (%s)", names, w.m)
		case dist[i] > last+1:
			return fmt.Sprintf("the walk %v skips a level (%s)", names, w.m)
		}
		seen[i] = true
		last = dist[i]
	}
	// Breadth first: a level is finished before the next one starts.
	want := 0
	for i, d := range dist {
		if d != 0 {
			want++
			if (complete || d < last) && !seen[i] {
				return fmt.Sprintf("the walk %v leaves out %d (%s)", names, i, w.m)
			}
		}
	}
	return ""
}

func runScene[K comparable](c *mc.Chooser, kr keyer[K], s scene) (string, int) {
	msg := ""
	fail := func(m string) {
		if msg == "" && m != "" {
			msg = m
		}
	}
	// The history is not part of the schedule.
	w := replay(kr, s.n, s.hist)
	body := func() {
		start := kr.key(s.start)
		drain := func(x walk[K], limit int) []K {
			var got []K
			for len(got) < limit {
				k, ok := x.recv()
				if !ok {
					return got
				}
				got = append(got, k)
			}
			return append(got, start) // never valid: too many
		}
		limit := 4*s.n + 8
		open := func(up bool) walk[K] {
			x, err := startWalk(w.g, start, up)
			if err != nil {
				panic(fmt.Sprint("walker refused a known vertex: ", err))
			}
			return x
		}
		switch s.mode {
		case "all": // drain the walker
			fail(w.judge(drain(open(s.up), limit), s.start, s.up, true))
		case "get": // the ordered list
			var got []K
			var err error
			if s.up {
				got, err = w.g.GetOrderedAncestors(start)
			} else {
				got, err = w.g.GetOrderedDescendants(start)
			}
			if err != nil {
				fail(fmt.Sprint("error ", err))
			}
			fail(w.judge(got, s.start, s.up, true))
		case "two", "both": // two walks at once, drained in turn
			a, b := open(s.up), open(s.up != (s.mode == "both"))
			bUp := s.up != (s.mode == "both")
			var ga, gb []K
			for da, db := false, false; !da || !db; {
				if !da {
					k, ok := a.recv()
					if da = !ok; ok {
						ga = append(ga, k)
					}
				}
				if !db {
					k, ok := b.recv()
					if db = !ok; ok {
						gb = append(gb, k)
					}
				}
				if len(ga)+len(gb) > 2*limit {
					fail("the walk does not end")
					break
				}
			}
			fail(w.judge(ga, s.start, s.up, true))
			fail(w.judge(gb, s.start, bUp, true))
		case "para": // two walks drained by two goroutines
			var ga, gb []K
			m := newMailbox()
			spawn(func() {
				ga = drain(open(s.up), limit)
				m.put()
			})
			gb = drain(open(!s.up), limit)
			m.wait()
			fail(w.judge(ga, s.start, s.up, true))
			fail(w.judge(gb, s.start, !s.up, true))
		case "query": // queries between the vertices
			x := open(s.up)
			var got []K
			for len(got) < limit {
				k, ok := x.recv()
				if !ok {
					break
				}
				got = append(got, k)
				_, _ = w.g.GetAncestors(k)
				_, _ = w.g.GetDescendants(start)
				_ = w.g.String()
			}
			fail(w.judge(got, s.start, s.up, true))

		// Stopping.
		case "stop-drain", "stop-drop", "stop-again": // receive k, stop, then ...
			x := open(s.up)
			var got []K
			ended := false
			for len(got) < s.k && !ended {
				k, ok := x.recv()
				if ended = !ok; ok {
					got = append(got, k)
				}
			}
			x.stop()
			before := len(got)
			if s.mode == "stop-drop" {
				fail(w.judge(got, s.start, s.up, false))
				return
			}
			got = append(got, drain(x, limit)...)
			if extra := len(got) - before; extra > 1 {
				fail(fmt.Sprintf("%d more vertices after the walk was stopped", extra))
			}
			fail(w.judge(got, s.start, s.up, false))
			if s.mode == "stop-again" {
				fail(w.judge(drain(open(s.up), limit), s.start, s.up, true))
			}
		case "stop-end": // stop a walk that is over
			x := open(s.up)
			got := drain(x, limit)
			x.stop()
			fail(w.judge(got, s.start, s.up, true))
			if _, ok := x.recv(); ok {
				fail("a vertex after the end")
			}
		case "stop-other": // another goroutine stops while this one drains
			x := open(s.up)
			m := newMailbox()
			spawn(func() {
				x.stop()
				m.put()
			})
			got := drain(x, limit)
			m.wait()
			fail(w.judge(got, s.start, s.up, false))
		case "stop-drop-other": // receive k, leave; another goroutine stops
			x := open(s.up)
			spawn(func() { x.stop() })
			var got []K
			for len(got) < s.k {
				k, ok := x.recv()
				if !ok {
					break
				}
				got = append(got, k)
			}
			fail(w.judge(got, s.start, s.up, false))
		case "stop-one": // two walks, one of them stopped after k
			a, b := open(s.up), open(s.up)
			var ga []K
			for len(ga) < s.k {
				k, ok := a.recv()
				if !ok {
					break
				}
				ga = append(ga, k)
			}
			a.stop()
			fail(w.judge(ga, s.start, s.up, false))
			fail(w.judge(drain(b, limit), s.start, s.up, true))
		default:
			panic("unknown mode " + s.mode)
		}
	}
	bad, steps := execute(c, body)
	if bad != "" {
		return bad, steps
	}
	return msg, steps
}

func replayWalk(c *kit.Ctx, desc string) {
	s, picks, err := parseScene(desc)
	if err != nil {
		panic(err)
	}
	mc.IterCost = 0
	n := 1
	if !controlled {
		n = 200
	}
	for i := 0; i < n; i++ {
		if msg, _ := s.run(&mc.Chooser{Prefix: picks}); msg != "" {
			c.Violate(desc, "%s", msg)
			return
		}
	}
}

// explore runs every execution of s within the bound.
func (s scene) explore(c *kit.Ctx, slot *kit.Slot, bound, iterCost int) {
	mc.IterCost = iterCost
	if !controlled {
		slot.Begin(s.String())
		for i := 0; i < 4; i++ {
			msg, _ := s.run(&mc.Chooser{})
			c.Count("traces_validated_against_impl", 1)
			if msg != "" {
				c.Violate(s.String(), "%s", msg)
				break
			}
		}
		slot.End()
		return
	}
	steps := int64(0)
	st := mc.Explore(bound, c.Stop, func(ch *mc.Chooser) bool {
		if slot != nil {
			slot.Begin(s.String() + picksString(ch.Prefix))
		}
		msg, n := s.run(ch)
		steps += int64(n)
		slot.End()
		if msg != "" {
			c.Violate(s.String()+picksString(ch.Picks()), "%s", msg)
			return false
		}
		return true
	})
	if os.Getenv("VERIF_PROFILE") != "" {
		c.Count(fmt.Sprintf("prof n=%d %s %v", s.n, s.mode, bound), st.Executions)
	}
	c.Count("states", st.Nodes)
	c.Count("transitions", steps)
	c.Count("traces_validated_against_impl", st.Executions)
	c.Count("scenes", 1)
	if st.Diverged > 0 {
		c.Capped("nondeterminism the scheduler does not control")
		c.Count("diverged", st.Diverged)
	}
	c.Max("longest_decision_sequence", int64(st.MaxPoints))
}

func picksString(p []int) string {
	var sb strings.Builder
	sb.WriteString(" @")
	for _, x := range p {
		fmt.Fprintf(&sb, " %d", x)
	}
	return sb.String()
}

// allDAGs calls f with every DAG of n vertices whose edges go upwards.
func allDAGs(n int, f func(es []edge)) {
	var pairs []edge
	for i := 1; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			pairs = append(pairs, edge{i, j})
		}
	}
	for mask := 0; mask < 1<<len(pairs); mask++ {
		var es []edge
		for i, p := range pairs {
			if mask>>i&1 == 1 {
				es = append(es, p)
			}
		}
		f(es)
	}
}

// ways to come to the same graph.
func ways(n int, es []edge) [][]op {
	var plain, warm, toggled, extra []op
	for i := 1; i <= n; i++ {
		plain = append(plain, op{opAdd, i, 0})
	}
	for _, e := range es {
		plain = append(plain, op{opEdge, e.a, e.b})
	}
	warm = append(warm, plain...)
	for i := 1; i <= n; i++ {
		warm = append(warm, op{opAnc, i, 0}, op{opDesc, i, 0})
	}
	// Edges that were there and are gone again.
	has := map[edge]bool{}
	for _, e := range es {
		has[e] = true
	}
	for i := 1; i <= n; i++ {
		toggled = append(toggled, op{opAdd, i, 0})
	}
	for i := 1; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			toggled = append(toggled, op{opEdge, i, j}, op{opDesc, i, 0})
		}
	}
	for i := 1; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			if !has[edge{i, j}] {
				toggled = append(toggled, op{opUnedge, i, j})
			}
		}
	}
	// A vertex n+1 below everything, deleted; vertices added backwards.
	x := n + 1
	extra = append(extra, op{opAdd, x, 0})
	for i := n; i >= 1; i-- {
		extra = append(extra, op{opAdd, i, 0}, op{opEdge, i, x}, op{opAnc, x, 0})
	}
	for i := len(es) - 1; i >= 0; i-- {
		extra = append(extra, op{opEdge, es[i].a, es[i].b})
	}
	extra = append(extra, op{opDel, x, 0})
	return [][]op{plain, warm, toggled, extra}
}

func runWalks(c *kit.Ctx) {
	slot := c.Slot(0)
	c.Sample(scene{"int", 4, ways(3, []edge{{1, 2}, {1, 3}})[0], 1, false, "all", 0}.String())
	small := func(n int) {
		allDAGs(n, func(es []edge) {
			for wi, h := range ways(n, es) {
				for v := 1; v <= n; v++ {
					for _, up := range []bool{false, true} {
						modes := []string{"all", "get"}
						if wi == 0 {
							modes = []string{"all", "get", "query"}
							if n <= 3 {
								modes = append(modes, "two", "both", "para")
							}
						}
						for _, mode := range modes {
							if !c.Mine() || c.Stop() {
								continue
							}
							bound := 1
							switch {
							case wi == 0:
								bound = 2
							}
							ic := 0
							if mode == "query" {
								if n > 3 {
									continue
								}
								bound, ic = 1, 1
							}
							if c.Thorough() {
								bound++
							}
							kr := []string{"int", "string", "struct", "int"}[wi]
							scene{kr, n + 1, h, v, up, mode, 0}.explore(c, slot, bound, ic)
						}
					}
				}
			}
		})
	}
	small(1)
	small(2)
	small(3)
	// Larger shapes: iteration orders deviate from ascending at a cost.
	for _, s := range shapes(c.Pick(8, 12), []int{20, 45, 70}) {
		for bi, h := range s.builds(0) {
			if bi > 0 && s.n > 12 {
				continue
			}
			starts := map[int]bool{1: true, s.n: true, (s.n + 1) / 2: true}
			for _, v := range sorted(starts) {
				for _, up := range []bool{false, true} {
					for _, mode := range []string{"all", "get"} {
						if !c.Mine() || c.Stop() {
							continue
						}
						bound := 1
						if s.n > 12 {
							bound = 0
						}
						scene{"int", s.n, h, v, up, mode, 0}.explore(c, slot, bound, 1)
					}
				}
			}
		}
		c.Max("largest_shape", int64(s.n))
	}
	small(4)
	if !c.Stop() {
		c.Max("exhaustive_vertices", 4)
	}
	if !c.Stop() {
		// Every DAG of five vertices, every iteration order.
		allDAGs(5, func(es []edge) {
			h := ways(5, es)[0]
			for v := 1; v <= 5; v++ {
				for _, up := range []bool{false, true} {
					if !c.Mine() || c.Stop() {
						continue
					}
					scene{"int", 6, h, v, up, "get", 0}.explore(c, slot, 0, 0)
					scene{"int", 6, h, v, up, "all", 0}.explore(c, slot, c.Pick(1, 2), c.Pick(1, 0))
				}
			}
		})
		c.Max("exhaustive_vertices", 5)
	}
}

func runStops(c *kit.Ctx) {
	slot := c.Slot(0)
	c.Sample(scene{"int", 4, ways(3, []edge{{1, 2}, {1, 3}})[0], 1, false, "stop-drain", 1}.String())
	one := func(kr string, n int, h []op, v int, up bool, reach, bound, iterCost int) {
		try := func(mode string, k int) {
			if mode == "stop-one" && n > 12 || !c.Mine() || c.Stop() {
				return
			}
			scene{kr, n, h, v, up, mode, k}.explore(c, slot, bound, iterCost)
		}
		for k := 0; k <= reach+1; k++ {
			if reach > 8 && k > 2 && k < reach-1 && k != reach/2 {
				continue
			}
			for _, mode := range []string{"stop-drain", "stop-drop", "stop-again", "stop-drop-other", "stop-one"} {
				if mode == "stop-drop-other" && k > reach+1 {
					continue
				}
				try(mode, k)
			}
		}
		try("stop-end", 0)
		try("stop-other", 0)
	}
	small := func(n int) {
		allDAGs(n, func(es []edge) {
			for wi, h := range ways(n, es) {
				if wi > 0 && n > 3 {
					continue
				}
				for v := 1; v <= n; v++ {
					for _, up := range []bool{false, true} {
						m := replay(intKeys, n+1, h).m
						reach := 0
						for _, d := range m.reach(v, up) {
							if d != 0 {
								reach++
							}
						}
						bound := 1
						if wi == 0 && n <= 3 {
							bound = 2
						}
						if c.Thorough() && n <= 3 {
							bound++
						}
						one([]string{"int", "string", "struct", "int"}[wi], n+1, h, v, up, reach, bound, 0)
					}
				}
			}
		})
	}
	small(1)
	small(2)
	small(3)
	for _, s := range shapes(c.Pick(5, 10), []int{c.Pick(18, 40)}) {
		h := s.builds(0)[0]
		m := replay(intKeys, s.n, h).m
		for _, v := range []int{1, s.n, (s.n + 1) / 2} {
			for _, up := range []bool{false, true} {
				reach := 0
				for _, d := range m.reach(v, up) {
					if d != 0 {
						reach++
					}
				}
				bound := 1
				if c.Thorough() && s.n <= 10 {
					bound = 2
				}
				one("int", s.n, h, v, up, reach, bound, 1<<20)
			}
		}
		c.Max("largest_shape", int64(s.n))
	}
	small(4)
}
