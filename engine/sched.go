package main

import (
	"fmt"
	"go/types"
)

// Goroutines of the program under test are engine goroutines that pass a baton: exactly one runs.

type G struct {
	id     int
	resume chan struct{}
	exited chan struct{}
	dead   bool
	ready  func() bool // nil: runnable
	idle   int         // >0: waiting for quiescence with this priority
	loose  bool
	what   string
	vc     vclock
	daemon bool
	fr     *frame
	depth  int
	tag    int
}

type mutexState struct {
	locked  bool
	readers int
	waiting int
	vc      vclock
	rvc     vclock
	owner   *G
}
type wgState struct {
	n  int64
	vc vclock
}
type onceState struct {
	done, running bool
	vc            vclock
}
type condState struct {
	waiting []*bool
	vc      vclock
}

func (p *Path) newG(parent *G) *G {
	g := &G{id: len(p.gs), resume: make(chan struct{}, 1), exited: make(chan struct{})}
	if parent != nil {
		parent.vc.inc(parent.id)
		g.vc = parent.vc.clone()
		g.tag = parent.tag
	}
	g.vc.inc(g.id)
	p.gs = append(p.gs, g)
	return g
}

func (p *Path) spawn(fr *frame, body func()) {
	if len(p.gs) > 4000 {
		p.abort("cut", "more than 4000 goroutines")
	}
	g := p.newG(p.cur)
	p.event("go g%d", g.id)
	go func() {
		select {
		case <-g.resume:
		case <-p.kill:
			close(g.exited)
			return
		}
		p.runG(g, body, false)
	}()
	p.schedPoint("go")
}

func (p *Path) event(f string, args ...interface{}) {
	if len(p.events) < 400 && p.cur != nil {
		p.events = append(p.events, fmt.Sprintf("g%d: ", p.cur.id)+fmt.Sprintf(f, args...))
	}
}

func (p *Path) runnable(incIdle bool) []*G {
	var out []*G
	for _, g := range p.gs {
		if g.dead || g.idle > 0 {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	if len(out) == 0 && incIdle {
		var best *G
		for _, g := range p.gs {
			if !g.dead && g.idle > 0 && (best == nil || g.idle < best.idle) {
				best = g
			}
		}
		if best != nil {
			best.idle = 0
			best.ready = nil
			loose := best.loose
			best.loose = false
			for _, o := range p.gs {
				o.vc.inc(o.id)
				if !loose {
					best.vc.join(o.vc)
				}
			}
			out = append(out, best)
		}
	}
	return out
}

// pickNext selects the next goroutine to run when the current one cannot continue.
func (p *Path) pickNext(fromSelf bool) *G {
	rs := p.runnable(true)
	if len(rs) == 0 {
		msg := "all goroutines are blocked (deadlock):"
		for _, g := range p.gs {
			if !g.dead {
				msg += fmt.Sprintf(" g%d in %s;", g.id, g.what)
			}
		}
		p.abort("violation", msg)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	if p.explore > 0 {
		return rs[p.chooseSched(len(rs))]
	}
	// deterministic: first after current in id order
	for _, g := range rs {
		if g.id > p.cur.id {
			return g
		}
	}
	return rs[0]
}

func (p *Path) chooseSched(n int) int {
	c := p.w.ctx
	t := p.fresh("sched", 8)
	p.schedN++
	p.assume(c.Ult(t, c.constant(8, uint64(n))))
	return int(p.concretise(t))
}

func (p *Path) switchTo(g *G) {
	me := p.cur
	if g == me {
		return
	}
	p.cur = g
	g.resume <- struct{}{}
	select {
	case <-me.resume:
	case <-p.kill:
		panic(killed{})
	}
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(what string, ready func() bool) {
	if p.isStd {
		panic(unsupported("blocking in package initialisation"))
	}
	me := p.cur
	for !ready() {
		me.ready = ready
		me.what = what
		p.event("blocks in %s", what)
		n := p.pickNext(true)
		p.switchTo(n)
	}
	me.ready = nil
}

func (p *Path) waitIdle(prio int) {
	me := p.cur
	me.idle = prio + 1
	me.loose = prio >= 1000 // it learns nothing from the others
	me.what = "waiting for quiescence"
	n := p.pickNext(true)
	p.switchTo(n)
	me.idle = 0
}

// schedPoint is called before visible operations; in exploring mode it may switch.
func (p *Path) schedPoint(what string) {
	if p.isStd {
		return
	}
	if p.explore > 0 && p.preempts < p.explore-1 {
		rs := p.runnable(false)
		if len(rs) > 1 {
			// current first
			order := []*G{p.cur}
			for _, g := range rs {
				if g != p.cur {
					order = append(order, g)
				}
			}
			k := p.chooseSched(len(order))
			if k > 0 {
				p.preempts++
				p.event("preempted at %s", what)
				p.switchTo(order[k])
			}
		}
	}
}

// ---------------------------------------------------------------- vector clocks and races

type vclock []int

func (v *vclock) inc(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type raceAcc struct {
	g, clk int
	where  string
}
type raceCell struct {
	w     *raceAcc
	reads []raceAcc
}

func (p *Path) raceCheck(rc *raceCell, write bool, where func() string, what string) {
	g := p.cur
	now := g.vc.at(g.id) + 1 // a goroutine's clock ticks before it lets others know it
	if rc.w != nil && rc.w.g != g.id && rc.w.clk > g.vc.at(rc.w.g) {
		p.race(what, rc.w.where, where(), true, write)
	}
	if write {
		for _, r := range rc.reads {
			if r.g != g.id && r.clk > g.vc.at(r.g) {
				p.race(what, r.where, where(), false, true)
			}
		}
		rc.reads = rc.reads[:0]
		rc.w = &raceAcc{g.id, now, where()}
		return
	}
	for i := range rc.reads {
		if rc.reads[i].g == g.id {
			rc.reads[i].clk = now
			return
		}
	}
	rc.reads = append(rc.reads, raceAcc{g.id, now, where()})
}

func (p *Path) race(what, a, b string, w1, w2 bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	p.w.st.Races++
	p.abort("violation", fmt.Sprintf("unsynchronised access to %s: %s at %s and %s at %s", what, k(w1), a, k(w2), b))
}

// raceRange is raceMem for the elements of a slice (of a long one, those at its ends).
func (p *Path) raceRange(fr *frame, a []Value, write bool) {
	for i := range a {
		if i < 8 || i >= len(a)-8 {
			p.raceMem(fr, &a[i], write, "memory")
		}
	}
}

func (p *Path) raceMem(fr *frame, cell *Value, write bool, what string) {
	if len(p.gs) < 2 {
		return
	}
	rc := p.races[cell]
	if rc == nil {
		rc = &raceCell{}
		p.races[cell] = rc
	}
	p.raceCheck(rc, write, fr.where, what)
	switch x := (*cell).(type) { // its parts too
	case Struct:
		p.raceRange(fr, x, write)
	case Array:
		p.raceRange(fr, x, write)
	}
}

// ---------------------------------------------------------------- channels

type Chan struct {
	buf          []chanItem
	cap          int
	closed       bool
	sendq, recvq []*waiter
	vc           vclock   // of close
	slots        []vclock // of the last receive from each place of the buffer
	sent, rcvd   int      // through the buffer
	elem         types.Type
}

func (ch *Chan) slot(n int) *vclock {
	if len(ch.slots) == 0 {
		ch.slots = make([]vclock, ch.cap)
	}
	return &ch.slots[n%ch.cap]
}

type chanItem struct {
	v  Value
	vc vclock
}

type selState struct {
	done  bool
	index int
}

type waiter struct {
	sel   *selState
	index int
	val   Value
	ok    bool
	panic bool
	g     *G
	vc    vclock
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (p *Path) sendReady(ch *Chan) bool {
	return ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap
}
func (p *Path) recvReady(ch *Chan) bool {
	return len(ch.buf) > 0 || hasWaiter(ch.sendq) || ch.closed
}

func (p *Path) doSend(ch *Chan, v Value) {
	if ch.closed {
		p.plainPanic("send on closed channel")
	}
	me := p.cur
	me.vc.inc(me.id)
	if w := popWaiter(&ch.recvq); w != nil {
		w.val, w.ok = v, true
		w.sel.done, w.sel.index = true, w.index
		if ch.cap > 0 { // as if through the buffer
			me.vc.join(*ch.slot(ch.sent))
			ch.sent++
			w.g.vc.join(me.vc)
			*ch.slot(ch.rcvd) = w.g.vc.clone()
			ch.rcvd++
			return
		}
		w.g.vc.join(me.vc)
		me.vc.join(w.vc)
		return
	}
	// the receive that freed the slot happens before this send completes
	me.vc.join(*ch.slot(ch.sent))
	ch.sent++
	ch.buf = append(ch.buf, chanItem{v, me.vc.clone()})
}

func (p *Path) doRecv(ch *Chan) (Value, bool) {
	me := p.cur
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chanItem(nil), ch.buf[1:]...)
		me.vc.inc(me.id)
		me.vc.join(it.vc)
		*ch.slot(ch.rcvd) = me.vc.clone()
		ch.rcvd++
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, chanItem{w.val, w.vc})
			w.sel.done, w.sel.index = true, w.index
			w.g.vc.join(*ch.slot(ch.sent))
			ch.sent++
		}
		return it.v, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		w.sel.done, w.sel.index = true, w.index
		me.vc.inc(me.id)
		w.g.vc.join(me.vc)
		me.vc.join(w.vc)
		return w.val, true
	}
	// closed
	me.vc.join(ch.vc)
	return p.w.zero(ch.elem), false
}

func (p *Path) chanSend(ch *Chan, v Value) {
	if ch == nil {
		p.block("send on nil channel", func() bool { return false })
	}
	p.schedPoint("send")
	if p.sendReady(ch) {
		p.doSend(ch, v)
		return
	}
	me := p.cur
	me.vc.inc(me.id)
	w := &waiter{sel: &selState{}, val: v, g: me, vc: me.vc.clone()}
	ch.sendq = append(ch.sendq, w)
	p.block("channel send", func() bool { return w.sel.done })
	if w.panic {
		p.plainPanic("send on closed channel")
	}
}

func (p *Path) chanRecv(ch *Chan) (Value, bool) {
	if ch == nil {
		p.block("receive on nil channel", func() bool { return false })
	}
	p.schedPoint("recv")
	if p.recvReady(ch) {
		return p.doRecv(ch)
	}
	me := p.cur
	me.vc.inc(me.id)
	w := &waiter{sel: &selState{}, g: me, vc: me.vc.clone()}
	ch.recvq = append(ch.recvq, w)
	p.block("channel receive", func() bool { return w.sel.done })
	return w.val, w.ok
}

func (p *Path) chanClose(ch *Chan) {
	if ch == nil {
		p.plainPanic("close of nil channel")
	}
	p.schedPoint("close")
	if ch.closed {
		p.plainPanic("close of closed channel")
	}
	me := p.cur
	me.vc.inc(me.id)
	ch.closed = true
	ch.vc.join(me.vc)
	for w := popWaiter(&ch.recvq); w != nil; w = popWaiter(&ch.recvq) {
		w.val, w.ok = p.w.zero(ch.elem), false
		w.sel.done, w.sel.index = true, w.index
		w.g.vc.join(me.vc)
	}
	for w := popWaiter(&ch.sendq); w != nil; w = popWaiter(&ch.sendq) {
		w.panic = true
		w.sel.done, w.sel.index = true, w.index
	}
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

// doSelect returns the chosen index (-1: default), received value and ok.
func (p *Path) doSelect(cases []selCase, blocking bool) (int, Value, bool) {
	p.schedPoint("select")
	var ready []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if (c.send && p.sendReady(c.ch)) || (!c.send && p.recvReady(c.ch)) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && p.explore > 0 {
			k = p.chooseSched(len(ready))
		}
		i := ready[k]
		c := cases[i]
		if c.send {
			p.doSend(c.ch, c.val)
			return i, nil, false
		}
		v, ok := p.doRecv(c.ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	me := p.cur
	me.vc.inc(me.id)
	st := &selState{}
	ws := make([]*waiter, len(cases))
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{sel: st, index: i, val: c.val, g: me, vc: me.vc.clone()}
		ws[i] = w
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	p.block("select", func() bool { return st.done })
	w := ws[st.index]
	if cases[st.index].send {
		if w.panic {
			p.plainPanic("send on closed channel")
		}
		return st.index, nil, false
	}
	return st.index, w.val, w.ok
}

// ---------------------------------------------------------------- locks

func (p *Path) mutex(m *Value) *mutexState {
	s := p.mutexes[m]
	if s == nil {
		s = &mutexState{}
		p.mutexes[m] = s
	}
	return s
}

func (p *Path) lock(m *Value) {
	p.schedPoint("Lock")
	s := p.mutex(m)
	if s.locked || s.readers > 0 {
		// a waiting writer keeps out new readers
		s.waiting++
		p.block("Mutex.Lock", func() bool { return !s.locked && s.readers == 0 })
		s.waiting--
	}
	p.take(s)
}

func (p *Path) take(s *mutexState) {
	s.locked = true
	s.owner = p.cur
	p.cur.vc.join(s.vc)
	p.cur.vc.join(s.rvc)
}

func (p *Path) unlock(m *Value) {
	s := p.mutex(m)
	if !s.locked {
		p.abort("violation", "fatal error: sync: unlock of unlocked mutex")
	}
	p.cur.vc.inc(p.cur.id)
	s.vc.join(p.cur.vc)
	s.locked = false
	p.schedPoint("Unlock")
}

func (p *Path) rlock(m *Value) {
	p.schedPoint("RLock")
	s := p.mutex(m)
	if s.locked || s.waiting > 0 {
		p.block("RWMutex.RLock", func() bool { return !s.locked && s.waiting == 0 })
	}
	s.readers++
	p.cur.vc.join(s.vc)
}

func (p *Path) runlock(m *Value) {
	s := p.mutex(m)
	if s.readers == 0 {
		p.abort("violation", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	p.cur.vc.inc(p.cur.id)
	s.rvc.join(p.cur.vc) // orders later writers only, not other readers
	s.readers--
	p.schedPoint("RUnlock")
}
