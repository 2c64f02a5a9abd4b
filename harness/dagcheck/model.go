package main

import (
	"fmt"
	"sort"
	"strings"
)

// model is the reference: a plain adjacency matrix. Vertex 0 is the empty ID,
// 1..n can be added, n+1 is never added.
type model struct {
	n       int
	present []bool
	val     []int
	adj     [][]bool // adj[a][b]: edge a -> b
}

func newModel(n int) *model {
	m := &model{n: n, present: make([]bool, n+2), val: make([]int, n+2), adj: make([][]bool, n+2)}
	for i := range m.adj {
		m.adj[i] = make([]bool, n+2)
	}
	return m
}

func (m *model) clone() *model {
	c := newModel(m.n)
	copy(c.present, m.present)
	copy(c.val, m.val)
	for i := range m.adj {
		copy(c.adj[i], m.adj[i])
	}
	return c
}

func (m *model) size() int {
	s := 0
	for _, r := range m.adj {
		for _, e := range r {
			if e {
				s++
			}
		}
	}
	return s
}

func (m *model) order() int {
	s := 0
	for _, p := range m.present {
		if p {
			s++
		}
	}
	return s
}

// reach returns the distance of every vertex reachable from v over at least
// one edge (0: not reachable); back follows edges backwards.
func (m *model) reach(v int, back bool) []int {
	dist := make([]int, len(m.adj))
	queue := []int{v}
	for head := 0; head < len(queue); head++ {
		x := queue[head]
		for y := range m.adj {
			e := m.adj[x][y]
			if back {
				e = m.adj[y][x]
			}
			if e && dist[y] == 0 {
				dist[y] = 1
				if x != v {
					dist[y] = dist[x] + 1
				}
				queue = append(queue, y)
			}
		}
	}
	return dist
}

func (m *model) acyclic() bool {
	for v := range m.adj {
		if m.reach(v, false)[v] != 0 {
			return false
		}
	}
	return true
}

// reduced returns the transitive reduction.
func (m *model) reduced() *model {
	r := m.clone()
	reach := make([][]int, len(m.adj))
	for v := range m.adj {
		reach[v] = m.reach(v, false)
	}
	for a := range m.adj {
		for b := range m.adj {
			if !m.adj[a][b] {
				continue
			}
			for c := range m.adj {
				if c != b && m.adj[a][c] && reach[c][b] != 0 {
					r.adj[a][b] = false
					break
				}
			}
		}
	}
	return r
}

func (m *model) String() string {
	var sb strings.Builder
	for i := 1; i <= m.n; i++ {
		if m.present[i] {
			fmt.Fprintf(&sb, "%d=%d ", i, m.val[i])
		}
	}
	for a := range m.adj {
		for b := range m.adj {
			if m.adj[a][b] {
				fmt.Fprintf(&sb, "%d>%d ", a, b)
			}
		}
	}
	return sb.String()
}

// An op of a history.
type op struct {
	k    byte
	a, b int
}

// Operation kinds.
const (
	opAdd     = 'A' // AddVertex(a), value variant b
	opDel     = 'D' // DeleteVertex(a)
	opEdge    = 'E' // AddEdge(a, b)
	opUnedge  = 'X' // DeleteEdge(a, b)
	opAnc     = 'N' // GetAncestors(a)
	opDesc    = 'S' // GetDescendants(a)
	opReduce  = 'R' // ReduceTransitively
	opQueries = 'Q' // every other query
	opWalkUp  = 'U' // GetOrderedAncestors(a)
	opWalkDn  = 'W' // GetOrderedDescendants(a)
)

func (o op) String() string {
	switch o.k {
	case opReduce, opQueries:
		return string(o.k)
	case opAdd, opEdge, opUnedge:
		return fmt.Sprintf("%c%d-%d", o.k, o.a, o.b)
	}
	return fmt.Sprintf("%c%d", o.k, o.a)
}

func histString(h []op) string {
	s := make([]string, len(h))
	for i, o := range h {
		s[i] = o.String()
	}
	return strings.Join(s, " ")
}

func parseHist(s string) ([]op, error) {
	var out []op
	for _, f := range strings.Fields(s) {
		o := op{k: f[0]}
		if len(f) > 1 {
			if strings.Contains(f, "-") {
				if _, err := fmt.Sscanf(f[1:], "%d-%d", &o.a, &o.b); err != nil {
					return nil, err
				}
			} else if _, err := fmt.Sscanf(f[1:], "%d", &o.a); err != nil {
				return nil, err
			}
		}
		out = append(out, o)
	}
	return out, nil
}

// value is what vertex v holds; variant 1 is the zero value.
func value(v, variant int) int {
	if variant == 1 {
		return 0
	}
	return v*10 + variant
}

func sorted(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
