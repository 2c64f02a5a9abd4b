// etxcheck decides the properties of the language package.
package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/hexbee-net/etxe/pkg/etx"
	"github.com/hexbee-net/etxe/zzverif/kit"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

// A program of the model: its tree, laid out.
type program struct {
	desc  string
	tree  *etx.AST
	text  text
	items []item
}

// tree builds the tree that the choices describe: a root construct and what
// follows it, or (for first beyond the root constructs) a context around an
// expression.
func (g *gen) tree(first int) *etx.AST {
	if first < len(rootKinds) {
		return g.program(first)
	}
	cx := contexts[first-len(rootKinds)]
	if cx.noBrace {
		g.noBrace++
	}
	return cx.build(g, g.expr())
}

func picks(ch *mc.Chooser) string {
	var s []string
	for _, p := range ch.Picks() {
		s = append(s, strconv.Itoa(p))
	}
	return strings.Join(s, ",")
}

func ints(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(f); err == nil {
			out = append(out, n)
		}
	}
	return out
}

// fromDesc rebuilds a program from its description.
func fromDesc(desc string) *program {
	f := strings.Split(desc, " ")
	first, _ := strconv.Atoi(f[1])
	st, _ := strconv.Atoi(f[2])
	ch := &mc.Chooser{Prefix: ints(f[3])}
	g := &gen{c: ch}
	tree := g.tree(first)
	if g.skip != "" {
		panic("not a program: " + desc)
	}
	e := &emitter{}
	e.ast(tree)
	if f[0] == "plain" || st > 0 {
		ch = nil
	}
	return &program{desc: desc, tree: tree, items: e.items, text: layOut(e.items, styles[st], ch)}
}

// A plan says which programs to explore.
type plan struct {
	budget int
	firsts []int // root constructs and contexts
	styles []int // layouts; with several, they take turns unless all is set
	all    bool
	layout bool // every single deviation from the first style counts as a choice
}

func upTo(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func roots() []int { return upTo(len(rootKinds)) }

func holes() []int {
	var out []int
	for i := range contexts {
		out = append(out, len(rootKinds)+i)
	}
	return out
}

// programs runs f on every program of the plan.
func programs(c *kit.Ctx, pl plan, f func(p *program) string) {
	slot := c.Slot(0)
	var seen, choices int64
	turn := 0
	for _, first := range pl.firsts {
		first := first
		st := mc.Explore(pl.budget, c.Stop, func(ch *mc.Chooser) bool {
			g := &gen{c: ch}
			tree := g.tree(first)
			if g.skip != "" {
				return true
			}
			treePoints := len(ch.Points)
			if !pl.layout && !c.Mine() {
				return true
			}
			e := &emitter{}
			e.ast(tree)
			if e.bad != "" {
				panic("the generator made a malformed tree: " + e.bad)
			}
			one := func(s int, kind string, lc *mc.Chooser) bool {
				t := layOut(e.items, styles[s], lc)
				if t.skip != "" || pl.layout && lc != nil && !c.Mine() {
					return true
				}
				p := &program{tree: tree, text: t, items: e.items, desc: fmt.Sprintf("%s %d %d %s", kind, first, s, picks(ch))}
				seen++
				choices += int64(len(ch.Points))
				slot.Begin(p.desc)
				var msg string
				if m := kit.Guard(func() { msg = f(p) }); m != "" {
					msg = m
				}
				slot.End()
				if msg != "" {
					c.Violate(p.desc, "%s\nsource:\n%s", msg, t.src)
					return false
				}
				if seen == 40 || seen == 4000 {
					c.Sample(t.src)
				}
				return true
			}
			if pl.layout {
				return one(0, "gen", ch)
			}
			_ = treePoints
			if pl.all {
				for _, s := range pl.styles {
					if !one(s, "plain", nil) {
						return false
					}
				}
				return true
			}
			turn++
			return one(pl.styles[turn%len(pl.styles)], "plain", nil)
		})
		if st.Capped || c.Stop() {
			break
		}
	}
	c.Count("states", seen)
	c.Count("transitions", choices)
}

var parses atomic.Int64

func parse(src string) (*etx.AST, error) {
	parses.Add(1)
	return etx.ParseString(src)
}

func main() {
	if os.Getenv("ETX_DEEP") != "" {
		deep()
	}
	childMain()
	kit.Main(table)
}
