package mc

import (
	"fmt"
	"reflect"
	"runtime/debug"
)

// S is the scheduler of the controlled execution under way, or nil.
var S *Sched

// PreemptCost is what switching away from a runnable goroutine costs.
const PreemptCost = 1

type gState int

const (
	runnable gState = iota
	parked
	finished
)

type gor struct {
	id    int
	name  string
	state gState
	wake  chan struct{}
	why   string
	vc    clock
	sites []int
}

// A Sched runs goroutines one at a time, switching only at the operations of
// the shims, as its Chooser says.
type Sched struct {
	c        *Chooser
	gs       []*gor
	cur      *gor
	done     chan struct{}
	killed   bool
	Steps    int
	MaxSteps int

	vars    map[string]*access
	raceOff bool

	// Outcome.
	Race     string // unordered accesses to a package variable
	Panic    string // first panic of any goroutine
	Deadlock bool   // main could not finish
	Horizon  bool   // step limit reached
	Leaked   []string
}

type killSignal struct{}

// Run executes body (as the main goroutine) under c.
// When body has returned, the other goroutines run on until none can move; the
// ones that are left then are reported in Leaked.
func Run(c *Chooser, maxSteps int, body func()) *Sched {
	s := &Sched{c: c, done: make(chan struct{}), MaxSteps: maxSteps}
	S = s
	defer func() { S = nil }()
	g := s.newG("main")
	s.cur = g
	go s.runG(g, body)
	g.wake <- struct{}{}
	<-s.done
	main := s.gs[0]
	if main.state != finished && s.Panic == "" && !s.Horizon {
		s.Deadlock = true
	}
	if s.Panic == "" && !s.Horizon {
		for _, x := range s.gs[1:] {
			if x.state != finished {
				s.Leaked = append(s.Leaked, x.name+" blocked in "+x.why)
			}
		}
	}
	// Unwind what is left so that no real goroutine stays behind.
	s.killed = true
	for _, x := range s.gs {
		if x.state != finished {
			s.cur = x
			x.wake <- struct{}{}
			<-s.done
		}
	}
	return s
}

func (s *Sched) newG(name string) *gor {
	g := &gor{id: len(s.gs), name: fmt.Sprintf("%s#%d", name, len(s.gs)), wake: make(chan struct{}), vc: clock{}}
	if s.cur != nil && TrackRaces {
		// What the parent did before is ordered before everything here.
		g.vc.join(s.cur.vc)
		s.cur.vc[s.cur.id]++
	}
	g.vc[g.id] = 1
	s.gs = append(s.gs, g)
	return g
}

func (s *Sched) runG(g *gor, f func()) {
	<-g.wake
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killSignal); !ok && s.Panic == "" {
				s.Panic = fmt.Sprintf("%s: panic: %v", g.name, r)
				if debugStacks {
					s.Panic += "\n" + string(debug.Stack())
				}
			}
		}
		g.state = finished
		if s.killed || s.Panic != "" {
			s.killed = true
			s.done <- struct{}{}
			return
		}
		s.next(g)
	}()
	if s.killed {
		return
	}
	f()
}

var debugStacks = false

// next hands the token to some runnable goroutine (g gave it up for good).
func (s *Sched) next(g *gor) {
	en := s.enabled(nil)
	if len(en) == 0 {
		s.done <- struct{}{}
		return
	}
	x := en[s.c.Choose(len(en), 0)]
	s.cur = x
	x.wake <- struct{}{}
}

func (s *Sched) enabled(first *gor) []*gor {
	var out []*gor
	if first != nil && first.state == runnable {
		out = append(out, first)
	}
	for _, x := range s.gs {
		if x != first && x.state == runnable {
			out = append(out, x)
		}
	}
	return out
}

// SiteVisits bounds, if positive, at how many of its visits of the same
// statement a goroutine can be preempted there (the first ones count).
var SiteVisits = 0

// StepAt is a scheduling point at a statement.
func StepAt(site int) {
	s := S
	if s == nil {
		return
	}
	if SiteVisits > 0 && !s.killed {
		g := s.cur
		for len(g.sites) <= site {
			g.sites = append(g.sites, 0)
		}
		g.sites[site]++
		if g.sites[site] > SiteVisits {
			s.Steps++
			if s.MaxSteps <= 0 || s.Steps <= s.MaxSteps {
				return
			}
		}
	}
	s.step()
}

// Step is a scheduling point: any runnable goroutine may go on.
func Step() {
	s := S
	if s == nil {
		return
	}
	s.step()
}

func (s *Sched) step() {
	g := s.cur
	if s.killed {
		panic(killSignal{})
	}
	s.Steps++
	if s.MaxSteps > 0 && s.Steps > s.MaxSteps {
		s.Horizon = true
		s.killed = true
		panic(killSignal{})
	}
	en := s.enabled(g)
	if len(en) <= 1 {
		return
	}
	x := en[s.c.Choose(len(en), PreemptCost)]
	if x != g {
		s.switchTo(g, x)
	}
}

func (s *Sched) switchTo(g, x *gor) {
	s.cur = x
	x.wake <- struct{}{}
	<-g.wake
	if s.killed {
		panic(killSignal{})
	}
}

// Yield lets another goroutine run, if any can.
func Yield() {
	s := S
	if s == nil {
		return
	}
	g := s.cur
	if s.killed {
		panic(killSignal{})
	}
	en := s.enabled(g)
	if len(en) <= 1 {
		return
	}
	s.switchTo(g, en[1:][s.c.Choose(len(en)-1, 0)])
}

// park blocks the current goroutine until another one readies it.
func (s *Sched) park(why string) {
	g := s.cur
	g.state = parked
	g.why = why
	en := s.enabled(nil)
	if len(en) == 0 {
		s.done <- struct{}{}
	} else {
		x := en[s.c.Choose(len(en), 0)]
		s.cur = x
		x.wake <- struct{}{}
	}
	<-g.wake
	if s.killed {
		panic(killSignal{})
	}
}

func (s *Sched) ready(g *gor) { g.state = runnable }

// Go starts a goroutine.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	g := s.newG("goroutine")
	go s.runG(g, f)
	s.step()
}

// ///////////////////////////////////// channels

type waiter[T any] struct {
	g    *gor
	sel  *selState
	idx  int
	val  T
	ok   bool
	done bool
}

type selState struct {
	fired       bool
	panicClosed bool

	idx int
	val any
	ok  bool
}

// Chan stands in for chan T.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]

	native chan T // outside controlled executions
}

// MakeChan stands in for make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		c.cap = n[0]
	}
	if S == nil {
		c.native = make(chan T, c.cap)
	}
	return c
}

func pop[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func live[T any](q []*waiter[T]) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan[T]) canSend() bool {
	return c.closed || live(c.recvq) || len(c.buf) < c.cap
}

func (c *Chan[T]) canRecv() bool {
	return c.closed || len(c.buf) > 0 || live(c.sendq)
}

func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.val, w.ok, w.done = v, true, true
		if w.sel != nil {
			w.sel.val, w.sel.ok = v, true
		}
		S.ready(w.g)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.done, w.ok = true, true
			S.ready(w.g)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		w.done, w.ok = true, true
		S.ready(w.g)
		return w.val, true
	}
	return v, false // closed
}

// Send stands in for c <- v.
func (c *Chan[T]) Send(v T) {
	racesOff()
	if c == nil {
		S.step()
		S.park("send on nil channel")
		panic("unreachable")
	}
	if c.native != nil {
		c.native <- v
		return
	}
	s := S
	s.step()
	if c.canSend() {
		c.doSend(v)
		return
	}
	w := &waiter[T]{g: s.cur, val: v}
	c.sendq = append(c.sendq, w)
	s.park("channel send")
	if !w.ok {
		panic("send on closed channel")
	}
}

// Recv stands in for <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 stands in for v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	racesOff()
	if c == nil {
		S.step()
		S.park("receive on nil channel")
		panic("unreachable")
	}
	if c.native != nil {
		v, ok := <-c.native
		return v, ok
	}
	s := S
	s.step()
	if c.canRecv() {
		return c.doRecv()
	}
	w := &waiter[T]{g: s.cur}
	c.recvq = append(c.recvq, w)
	s.park("channel receive")
	return w.val, w.ok
}

// TrySend is a send that gives up instead of blocking.
func (c *Chan[T]) TrySend(v T) bool {
	racesOff()
	if c.native != nil {
		select {
		case c.native <- v:
			return true
		default:
			return false
		}
	}
	S.step()
	if !c.canSend() {
		return false
	}
	c.doSend(v)
	return true
}

// Close stands in for close(c).
func (c *Chan[T]) Close() {
	racesOff()
	if c == nil {
		panic("close of nil channel")
	}
	if c.native != nil {
		close(c.native)
		return
	}
	s := S
	s.step()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		w := pop(&c.recvq)
		if w == nil {
			break
		}
		var zero T
		w.val, w.ok, w.done = zero, false, true
		if w.sel != nil {
			w.sel.val, w.sel.ok = zero, false
		}
		s.ready(w.g)
	}
	for {
		w := pop(&c.sendq)
		if w == nil {
			break
		}
		w.ok, w.done = false, true
		if w.sel != nil {
			w.sel.panicClosed = true
		}
		s.ready(w.g)
	}
}

func Len[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	if c.native != nil {
		return len(c.native)
	}
	return len(c.buf)
}

func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// A Case of a select.
type Case interface {
	ready() bool
	fire() (any, bool)
	enqueue(sel *selState, idx int)
	native() reflect.SelectCase
}

type recvCase[T any] struct{ c *Chan[T] }

func (r recvCase[T]) ready() bool { return r.c != nil && r.c.canRecv() }
func (r recvCase[T]) fire() (any, bool) {
	v, ok := r.c.doRecv()
	return v, ok
}
func (r recvCase[T]) enqueue(sel *selState, idx int) {
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, &waiter[T]{g: S.cur, sel: sel, idx: idx})
	}
}

func (r recvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c.raw())}
}

type sendCase[T any] struct {
	c *Chan[T]
	v T
}

func (r sendCase[T]) ready() bool { return r.c != nil && r.c.canSend() }
func (r sendCase[T]) fire() (any, bool) {
	r.c.doSend(r.v)
	return nil, true
}
func (r sendCase[T]) enqueue(sel *selState, idx int) {
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, &waiter[T]{g: S.cur, sel: sel, idx: idx, val: r.v})
	}
}

func (r sendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.c.raw()), Send: reflect.ValueOf(&r.v).Elem()}
}

func (c *Chan[T]) raw() chan T {
	if c == nil {
		return nil
	}
	return c.native
}

func RecvCase[T any](c *Chan[T]) Case      { return recvCase[T]{c} }
func SendCase[T any](c *Chan[T], v T) Case { return sendCase[T]{c, v} }

// Select stands in for a select statement; it returns the index of the case
// taken, -1 for default.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	racesOff()
	s := S
	if s == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.native())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1, nil, false
		}
		if rc[i].Dir == reflect.SelectSend {
			return i, nil, true
		}
		return i, v.Interface(), ok
	}
	s.step()
	var en []int
	for i, c := range cases {
		if c.ready() {
			en = append(en, i)
		}
	}
	if len(en) > 0 {
		i := en[s.c.Choose(len(en), 0)]
		v, ok := cases[i].fire()
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	sel := &selState{}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	s.park("select")
	if sel.panicClosed {
		panic("send on closed channel")
	}
	return sel.idx, sel.val, sel.ok
}

// Val converts the value received by Select.
func Val[T any](v any) T {
	if v == nil {
		var zero T
		return zero
	}
	return v.(T)
}

// ValOf converts the value received from c by Select.
func ValOf[T any](c *Chan[T], v any) T { return Val[T](v) }
