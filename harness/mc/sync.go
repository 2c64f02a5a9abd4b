package mc

// Mutex stands in for sync.Mutex.
type Mutex struct {
	vc     clock
	locked bool
	q      []*gor
	real   realMutex
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.real.Lock()
		return
	}
	s.step()
	for m.locked {
		m.q = append(m.q, s.cur)
		s.park("Mutex.Lock")
	}
	m.locked = true
	s.synced(&m.vc)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		return m.real.TryLock()
	}
	s.step()
	if m.locked {
		return false
	}
	m.locked = true
	s.synced(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.synced(&m.vc)
	wakeAll(s, &m.q)
	s.step()
}

func wakeAll(s *Sched, q *[]*gor) {
	for _, g := range *q {
		s.ready(g)
	}
	*q = nil
}

// RWMutex stands in for sync.RWMutex (writers are not preferred).
type RWMutex struct {
	vc      clock
	writer  bool
	readers int
	q       []*gor
	real    realRWMutex
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		m.real.Lock()
		return
	}
	s.step()
	for m.writer || m.readers > 0 {
		m.q = append(m.q, s.cur)
		s.park("RWMutex.Lock")
	}
	m.writer = true
	s.synced(&m.vc)
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil {
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	s.synced(&m.vc)
	wakeAll(s, &m.q)
	s.step()
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		m.real.RLock()
		return
	}
	s.step()
	for m.writer {
		m.q = append(m.q, s.cur)
		s.park("RWMutex.RLock")
	}
	m.readers++
	s.synced(&m.vc)
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.synced(&m.vc)
	wakeAll(s, &m.q)
	s.step()
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	vc   clock
	n    int
	q    []*gor
	real realWaitGroup
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.real.Add(d)
		return
	}
	s.step()
	w.n += d
	s.synced(&w.vc)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(s, &w.q)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		w.real.Wait()
		return
	}
	s.step()
	for w.n > 0 {
		w.q = append(w.q, s.cur)
		s.park("WaitGroup.Wait")
	}
	s.synced(&w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*gor
}

func NewCond(l interface {
	Lock()
	Unlock()
}) *Cond {
	return &Cond{L: l}
}

func (c *Cond) Wait() {
	s := S
	c.q = append(c.q, s.cur)
	g := s.cur
	g.state = parked
	g.why = "Cond.Wait"
	s.ready(g)
	c.L.Unlock()
	for in(c.q, g) {
		s.park("Cond.Wait")
	}
	c.L.Lock()
}

func in(q []*gor, g *gor) bool {
	for _, x := range q {
		if x == g {
			return true
		}
	}
	return false
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		if S != nil {
			S.ready(g)
			S.step()
		}
	}
}

func (c *Cond) Broadcast() {
	if S != nil {
		wakeAll(S, &c.q)
		S.step()
	}
}
