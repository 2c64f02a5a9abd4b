//go:build !mcconc

package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/zzverif/mc"
)

const controlled = false

// A walk under way.
type walk[K comparable] struct {
	ids chan K
	sig chan bool
}

func (w walk[K]) recv() (K, bool) {
	k, ok := <-w.ids
	return k, ok
}
func (w walk[K]) stop() { w.sig <- true }

func startWalk[K comparable](g *dag.AcyclicGraph[K, any], k K, up bool) (walk[K], error) {
	if up {
		a, b, err := g.AncestorsWalker(k)
		return walk[K]{a, b}, err
	}
	a, b, err := g.DescendantsWalker(k)
	return walk[K]{a, b}, err
}

func walkerErr[K comparable](g *dag.AcyclicGraph[K, any], k K, up bool) error {
	_, err := startWalk(g, k, up)
	return err
}

type mailbox struct{ c chan bool }

func newMailbox() mailbox { return mailbox{make(chan bool, 1)} }
func (m mailbox) put()    { m.c <- true }
func (m mailbox) wait()   { <-m.c }

func spawn(f func()) { go f() }

// execute runs body with the real scheduler.
func execute(c *mc.Chooser, body func()) (bad string, steps int) {
	before := runtime.NumGoroutine()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("panic: ", r)
			}
		}()
		body()
		done <- ""
	}()
	select {
	case bad = <-done:
	case <-time.After(5 * time.Second):
		return "deadlock: the consumer waits for ever", 0
	}
	if bad != "" {
		return bad, 0
	}
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= before {
			return "", 0
		}
		time.Sleep(time.Duration(i) * 100 * time.Microsecond)
	}
	return "goroutine left behind", 0
}
