//go:build mcconc

package main

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

const controlled = true

// A walk under way.
type walk[K comparable] struct {
	ids *mc.Chan[K]
	sig *mc.Chan[bool]
}

func (w walk[K]) recv() (K, bool) { return w.ids.Recv2() }
func (w walk[K]) stop()           { w.sig.Send(true) }

func startWalk[K comparable](g *dag.AcyclicGraph[K, any], k K, up bool) (walk[K], error) {
	if up {
		a, b, err := g.AncestorsWalker(k)
		return walk[K]{a, b}, err
	}
	a, b, err := g.DescendantsWalker(k)
	return walk[K]{a, b}, err
}

func walkerErr[K comparable](g *dag.AcyclicGraph[K, any], k K, up bool) error {
	_, err := startWalk(g, k, up)
	return err
}

// results of a goroutine of the consumer.
type mailbox struct{ c *mc.Chan[bool] }

func newMailbox() mailbox { return mailbox{mc.MakeChan[bool](1)} }
func (m mailbox) put()    { m.c.Send(true) }
func (m mailbox) wait()   { m.c.Recv() }

func spawn(f func()) { mc.Go(f) }

// execute runs body as the consumer and reports what went wrong.
func execute(c *mc.Chooser, body func()) (bad string, steps int) {
	s := mc.Run(c, 20000, body)
	switch {
	case s.Panic != "":
		return s.Panic, s.Steps
	case s.Horizon:
		return "no end after 20000 steps", s.Steps
	case s.Deadlock:
		return "deadlock: the consumer waits for ever", s.Steps
	case len(s.Leaked) > 0:
		return "goroutine left behind: " + s.Leaked[0], s.Steps
	}
	return "", s.Steps
}
