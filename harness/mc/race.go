package mc

import "fmt"

// Happens-before order of the goroutines of a controlled execution, to tell
// whether two accesses to a package variable are ordered by synchronisation.
// Every operation on a lock counts as acquire and release, and nothing is
// reported once a channel was used, so the order may be stronger than the real
// one, never weaker.

type clock map[int]int

func (c clock) join(o clock) {
	for k, v := range o {
		if v > c[k] {
			c[k] = v
		}
	}
}

func (c clock) copy() clock {
	out := clock{}
	out.join(c)
	return out
}

type access struct {
	write clock // time of the last write by each goroutine
	read  clock
}

// TrackRaces turns the tracking on.
var TrackRaces = false

// synced orders the current goroutine after all who used the object before.
func (s *Sched) synced(obj *clock) {
	g := s.cur
	if g == nil || !TrackRaces {
		return
	}
	if *obj == nil {
		*obj = clock{}
	}
	g.vc.join(*obj)
	obj.join(g.vc)
	g.vc[g.id]++
}

// Access records that a package variable is read or written.
func Access(name string, write bool) {
	s := S
	if s == nil || !TrackRaces || s.raceOff || s.killed || s.cur == nil {
		return
	}
	if s.vars == nil {
		s.vars = map[string]*access{}
	}
	a := s.vars[name]
	if a == nil {
		a = &access{clock{}, clock{}}
		s.vars[name] = a
	}
	g := s.cur
	clash := func(c clock, what string) {
		for id, at := range c {
			if id != g.id && at > g.vc[id] && s.Race == "" {
				kind := "read"
				if write {
					kind = "write"
				}
				s.Race = fmt.Sprintf("data race on package variable %s: %s and %s without synchronisation", name, what, kind)
			}
		}
	}
	clash(a.write, "write")
	if write {
		clash(a.read, "read")
		a.write[g.id] = g.vc[g.id]
	} else {
		a.read[g.id] = g.vc[g.id]
	}
}

func racesOff() {
	if S != nil {
		S.raceOff = true
	}
}
