// Package mc is the run-time half of the model checker: a deviation-bounded
// explorer of choice sequences, a cooperative scheduler with channel and lock
// shims that follow the Go semantics, and map iterators whose order is chosen
// by the explorer instead of by the Go run time.
package mc

// A Point is one decision of an execution.
type Point struct {
	N    int // number of alternatives
	Cost int // what taking any alternative but 0 costs
	Pick int
}

// A Chooser replays a prefix of decisions and takes alternative 0 afterwards.
type Chooser struct {
	Prefix   []int
	Points   []Point
	Diverged bool // the prefix did not fit the execution (uncontrolled nondeterminism)
}

// Choose makes a decision among n alternatives.
func (c *Chooser) Choose(n, cost int) int {
	if n <= 1 {
		return 0
	}
	pick := 0
	if i := len(c.Points); i < len(c.Prefix) {
		pick = c.Prefix[i]
		if pick >= n {
			c.Diverged = true
			pick = n - 1
		}
	}
	c.Points = append(c.Points, Point{N: n, Cost: cost, Pick: pick})
	return pick
}

// Picks returns the decisions taken.
func (c *Chooser) Picks() []int {
	out := make([]int, len(c.Points))
	for i, p := range c.Points {
		out[i] = p.Pick
	}
	// Trailing zeros are the default continuation.
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

// Stats of an exploration.
type Stats struct {
	Executions int64
	Decisions  int64
	MaxPoints  int
	Diverged   int64
	Nodes      int64 // distinct nodes of the decision tree
	Capped     bool
}

func (s *Stats) Add(o Stats) {
	s.Executions += o.Executions
	s.Decisions += o.Decisions
	s.Diverged += o.Diverged
	s.Nodes += o.Nodes
	if o.MaxPoints > s.MaxPoints {
		s.MaxPoints = o.MaxPoints
	}
	s.Capped = s.Capped || o.Capped
}

// Explore runs every execution whose decisions deviate from the default at a
// total cost of at most budget (budget < 0: no bound). run returns false to
// stop the exploration. It is a depth-first search without recursion.
func Explore(budget int, stop func() bool, run func(c *Chooser) bool) Stats {
	var st Stats
	type item struct{ prefix []int }
	stack := []item{{nil}}
	for len(stack) > 0 {
		if stop != nil && stop() {
			st.Capped = true
			return st
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c := &Chooser{Prefix: it.prefix}
		ok := run(c)
		st.Executions++
		st.Decisions += int64(len(c.Points))
		if d := len(c.Points) - len(it.prefix) + 1; d > 0 {
			st.Nodes += int64(d)
		}
		if len(c.Points) > st.MaxPoints {
			st.MaxPoints = len(c.Points)
		}
		if c.Diverged || len(c.Points) < len(it.prefix) {
			st.Diverged++
		}
		if !ok {
			return st
		}
		spent := 0
		for i, p := range c.Points {
			if i >= len(it.prefix) {
				if budget < 0 || spent+p.Cost <= budget {
					for alt := p.N - 1; alt >= 1; alt-- {
						np := make([]int, i+1)
						for j := 0; j < i; j++ {
							np[j] = c.Points[j].Pick
						}
						np[i] = alt
						stack = append(stack, item{np})
					}
				}
			}
			if p.Pick != 0 {
				spent += p.Cost
			}
		}
	}
	return st
}
