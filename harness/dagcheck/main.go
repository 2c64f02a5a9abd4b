// dagcheck decides the properties of the graph package.
package main

import (
	"strings"

	"github.com/hexbee-net/etxe/zzverif/kit"
)

func main() {
	seqWhat := "every state of the real graph object (all fields, caches included) reachable by the public operations over 3 and 4 named vertices, " +
		"every operation applied in every one of them; graph shapes up to 70 vertices, with every single operation after them"
	seqAssume := []string{"IDs are not nil interfaces", "single goroutine, as the package documents no locking"}
	seq := &kit.Check{
		InProc:      true,
		Run:         runSeq,
		Replay:      replayAny,
		What:        seqWhat,
		Assumptions: seqAssume,
	}
	kit.Main(map[string]*kit.Check{
		"D01": seq, "D02": seq, "D03": seq, "D04": seq, "D05": seq, "D08": seq,
		"D06": {Run: runWalks, Replay: replayAny,
			What:        "every schedule (within the preemption bound) and every map iteration order of the walks over every DAG of up to 4 (thorough: 5) vertices, every start and direction, after several ways to build the graph; larger shapes with the default order",
			Assumptions: []string{"the graph is not changed while it is walked", "the scheduler switches at channel and lock operations only: code between them is atomic"}},
		"D07": {Run: runStops, Replay: replayAny,
			What:        "every schedule (within the preemption bound) of a walk against consumers that stop it before, between and after any number of vertices, from the same or another goroutine, and then drain or abandon it",
			Assumptions: []string{"the consumer sends one stop signal", "the scheduler switches at channel and lock operations only: code between them is atomic"}},
		"D09": {InProc: true, Run: runSets, Replay: replayAny,
			What:        "every pair of sets over a four-element universe, nil included, under every operation and every filter predicate; sets of 0 to 40 elements with every overlap",
			Assumptions: []string{"sets are filled with Add"}},
	})
}

func replayAny(c *kit.Ctx, desc string) {
	switch {
	case strings.HasPrefix(desc, "seq "):
		replaySeq(c, desc)
	case strings.HasPrefix(desc, "walk "):
		replayWalk(c, desc)
	case strings.HasPrefix(desc, "set-seq "):
		hist, err := parseHist(strings.TrimPrefix(desc, "set-seq "))
		if err != nil {
			panic(err)
		}
		if msg := setSeq(hist); msg != "" {
			c.Violate(desc, "%s", msg)
		}
	case strings.HasPrefix(desc, "set "):
		replaySet(c, desc)
	default:
		panic("unknown case " + desc)
	}
}
