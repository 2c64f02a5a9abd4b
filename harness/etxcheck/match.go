package main

import (
	"fmt"
	"regexp"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// accounts says how a tree and the tokens of its source do not fit.
func accounts(a *etx.AST, toks []ptok) string {
	e := &emitter{}
	e.ast(a)
	if e.bad != "" {
		return "malformed tree: " + e.bad
	}
	plain := make([]tok, len(toks))
	for i, t := range toks {
		plain[i] = t.tok
	}
	return match(e.items, plain)
}

// A nondeterministic automaton over tokens.
type nfa struct {
	eps  [][]int
	edge []map[tok]int
}

func (n *nfa) state() int {
	n.eps = append(n.eps, nil)
	n.edge = append(n.edge, nil)
	return len(n.eps) - 1
}

func (n *nfa) on(from int, t tok, to int) {
	if n.edge[from] == nil {
		n.edge[from] = map[tok]int{}
	}
	n.edge[from][t] = to
}

func (n *nfa) skip(from, to int) { n.eps[from] = append(n.eps[from], to) }

var (
	lfTok    = tok{kLF, "\n"}
	oldOctal = regexp.MustCompile(`^0[0-9_]+$`)
)

func normal(t tok) tok {
	switch {
	case t.kind == kLF:
		return lfTok
	case t.kind == kNumber && oldOctal.MatchString(t.text):
		return tok{kNumber, "0o" + t.text[1:]}
	}
	return t
}

func (n *nfa) add(from int, items []item) int {
	for _, it := range items {
		switch it.k {
		case iMark:
			continue
		}
		to := n.state()
		switch it.k {
		case iTok:
			n.on(from, normal(it.tok), to)
		case iLFs:
			mid := n.state()
			n.skip(from, mid)
			n.on(mid, lfTok, mid)
			n.skip(mid, to)
		case iOptLF, iEnd, iEOL:
			n.skip(from, to)
			n.on(from, lfTok, to)
		case iSep:
			mid := n.state()
			n.skip(from, mid)
			n.on(from, tok{kPunct, ","}, mid)
			n.skip(mid, to)
			n.on(mid, lfTok, to)
		case iAlt:
			for _, alt := range it.alts {
				start := n.state()
				n.skip(from, start)
				n.skip(n.add(start, alt), to)
			}
		}
		from = to
	}
	return from
}

// match says where the tokens leave what the items allow.
func match(items []item, toks []tok) string {
	n := &nfa{}
	end := n.add(n.state(), items)
	cur := map[int]bool{}
	var add func(s int)
	add = func(s int) {
		if cur[s] {
			return
		}
		cur[s] = true
		for _, t := range n.eps[s] {
			add(t)
		}
	}
	add(0)
	for i, t := range toks {
		prev := cur
		cur = map[int]bool{}
		for s := range prev {
			if to, ok := n.edge[s][normal(t)]; ok {
				add(to)
			}
		}
		if len(cur) == 0 {
			var want []string
			for s := range prev {
				for e := range n.edge[s] {
					want = append(want, fmt.Sprintf("%q", e.text))
				}
			}
			return fmt.Sprintf("the tree does not account for token %d %q (it has %v there)", i+1, t.text, want)
		}
	}
	if !cur[end] {
		return "the tree holds more than the source"
	}
	return ""
}
