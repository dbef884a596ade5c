package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks and race detection ----

type vclock map[int]uint64

func (v vclock) copy() vclock {
	n := vclock{}
	for k, x := range v {
		n[k] = x
	}
	return n
}

func (v *vclock) join(o vclock) {
	if *v == nil {
		*v = vclock{}
	}
	for k, x := range o {
		if x > (*v)[k] {
			(*v)[k] = x
		}
	}
}

func (v *vclock) tick(id int) {
	if *v == nil {
		*v = vclock{}
	}
	(*v)[id]++
}

type access struct {
	wg    int
	wt    uint64
	wpos  string
	reads map[int]uint64
	rpos  string
}

type syncState struct {
	locked  bool
	readers int
	count   int64
	vc      vclock
	rvc     vclock
	waiting int
}

func (w *W) ss(c *V) *syncState {
	if w.syncSt == nil {
		w.syncSt = map[*V]*syncState{}
	}
	s := w.syncSt[c]
	if s == nil {
		s = &syncState{}
		w.syncSt[c] = s
	}
	return s
}

func (w *W) acc(c *V) *access {
	if w.accs == nil {
		w.accs = map[*V]*access{}
	}
	a := w.accs[c]
	if a == nil {
		a = &access{wg: -1}
		w.accs[c] = a
	}
	return a
}

func (w *W) race(what, a, b string) {
	w.violation(fmt.Sprintf("data race: %s: %s / %s", what, a, b), nil)
	w.end(endViolation, "race")
}

func (w *W) shortWhere() string {
	s := w.where()
	for i := 0; i+2 < len(s); i++ {
		if s[i:i+3] == " < " {
			return s[:i]
		}
	}
	return s
}

func (w *W) readAcc(a *access, what string) {
	g := w.cur
	if a.wg >= 0 && a.wg != g.id && a.wt > g.vc[a.wg] {
		w.race(what, "read at "+w.shortWhere(), "write at "+a.wpos)
	}
	if a.reads == nil {
		a.reads = map[int]uint64{}
	}
	if a.reads[g.id] != g.vc[g.id] {
		a.reads[g.id] = g.vc[g.id]
		a.rpos = w.shortWhere()
	}
}

func (w *W) writeAcc(a *access, what string) {
	g := w.cur
	if a.wg >= 0 && a.wg != g.id && a.wt > g.vc[a.wg] {
		w.race(what, "write at "+w.shortWhere(), "write at "+a.wpos)
	}
	for id, t := range a.reads {
		if id != g.id && t > g.vc[id] {
			w.race(what, "write at "+w.shortWhere(), "read at "+a.rpos)
		}
	}
	if a.wg != g.id || a.wt != g.vc[g.id] {
		a.wg, a.wt = g.id, g.vc[g.id]
		a.wpos = w.shortWhere()
	}
}

func (w *W) raceRead(c *V) {
	if w.inInit > 0 {
		return
	}
	if a, ok := c.p.(*Agg); ok {
		for i := range a.f {
			w.raceRead(&a.f[i])
		}
		return
	}
	w.readAcc(w.acc(c), "variable")
}

func (w *W) raceWrite(c *V) {
	if w.inInit > 0 {
		return
	}
	if _, ok := c.p.(*Agg); ok {
		return // the leaves are stored one by one
	}
	w.writeAcc(w.acc(c), "variable")
}

func (w *W) raceMap(m *MapObj, write bool) {
	if w.inInit > 0 {
		return
	}
	if m.acc == nil || m.born != w.epoch {
		if m.born == w.epoch {
			m.acc = &access{wg: -1}
		} else {
			return // a package-level table, only read
		}
	}
	if write {
		w.writeAcc(m.acc, "map")
	} else {
		w.readAcc(m.acc, "map")
	}
}

// ---- goroutines ----

func (w *W) spawn(fn *Fn, args, free []V) {
	fn = w.ready(fn)
	g := &Gor{id: len(w.gs)}
	if len(w.gs) > 400 {
		w.end(endHang, "more than 400 goroutines")
	}
	w.cur.vc.tick(w.cur.id)
	g.vc = w.cur.vc.copy()
	g.vc.tick(g.id)
	w.cur.vc.tick(w.cur.id)
	w.gs = append(w.gs, g)
	w.multi = true
	me := w.cur
	w.cur = g
	if fn.intr != nil {
		w.callDst = -1
		fn.intr(w, args)
		if w.blockOn != nil {
			w.unsupported("go statement on a blocking primitive")
		}
		g.done = true
	} else {
		w.pushCall(fn, args, free, -1)
	}
	w.cur = me
}

func (w *W) runnable(g *Gor) bool {
	return !g.done && (g.ready == nil || g.ready())
}

// offerSwitch is a scheduling point before a synchronisation operation. It
// returns true if another goroutine was chosen to run instead.
func (w *W) offerSwitch() bool {
	if w.preempts >= w.run.h.Sched {
		return false
	}
	var others []*Gor
	for _, g := range w.gs {
		if g != w.cur && w.runnable(g) {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := w.chooseDef(len(others) + 1)
	if k == 0 {
		w.cur.syncOK = true
		return false
	}
	w.preempts++
	w.cur.syncOK = true
	w.switchTo(others[k-1])
	return true
}

func (w *W) switchTo(g *Gor) {
	g.ready = nil
	w.cur = g
}

// yieldBlocked switches away from a goroutine that cannot proceed.
func (w *W) yieldBlocked() {
	w.pickNext()
}

func (w *W) pickNext() bool {
	var c []*Gor
	live := false
	for _, g := range w.gs {
		if !g.done {
			live = true
			if w.runnable(g) {
				c = append(c, g)
			}
		}
	}
	if len(c) == 0 {
		if !live {
			return false
		}
		if w.gs[0].done {
			return false
		}
		why := ""
		for _, g := range w.gs {
			if !g.done {
				why += fmt.Sprintf("g%d: %s; ", g.id, g.why)
			}
		}
		w.end(endHang, "deadlock: %s", why)
	}
	k := 0
	if w.schedOn && len(c) > 1 {
		k = w.chooseDef(len(c))
	}
	w.switchTo(c[k])
	return true
}

// goroutineDone is called when the current goroutine has no frames left. The
// path ends when the main goroutine ends.
func (w *W) goroutineDone() bool {
	w.cur.done = true
	if w.cur == w.gs[0] || w.cur.id < 0 {
		return false
	}
	return w.pickNext()
}

// acquire joins the clock of a synchronisation object.
func (w *W) acquire(vc vclock) { w.cur.vc.join(vc) }

func (w *W) release(vc *vclock) {
	vc.join(w.cur.vc)
	w.cur.vc.tick(w.cur.id)
}

func (w *W) block(why string, f func() bool) V {
	w.blockOn = f
	w.blockWhy = why
	return V{}
}

func (w *W) lock(c *V, write bool) V {
	s := w.ss(c)
	if write {
		if s.locked || s.readers > 0 {
			return w.block("Lock", func() bool { return !s.locked && s.readers == 0 })
		}
		s.locked = true
		w.acquire(s.vc)
		w.acquire(s.rvc)
		return V{}
	}
	if s.locked {
		return w.block("RLock", func() bool { return !s.locked })
	}
	s.readers++
	w.acquire(s.vc)
	return V{}
}

func (w *W) unlock(c *V, write bool) V {
	s := w.ss(c)
	if write {
		if !s.locked {
			w.end(endPanic, "fatal error: sync: unlock of unlocked mutex")
		}
		s.locked = false
		w.release(&s.vc)
		return V{}
	}
	if s.readers <= 0 {
		w.end(endPanic, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	s.readers--
	w.release(&s.rvc)
	return V{}
}

func (w *W) wgAdd(c *V, d int64) V {
	s := w.ss(c)
	s.count += d
	w.release(&s.vc)
	if s.count < 0 {
		w.goPanicMsg("sync: negative WaitGroup counter")
	}
	return V{}
}

func (w *W) wgWait(c *V) V {
	s := w.ss(c)
	if s.count > 0 {
		return w.block("WaitGroup.Wait", func() bool { return s.count <= 0 })
	}
	w.acquire(s.vc)
	return V{}
}

// offer is a value a goroutine blocked in a send holds out to the receivers of
// an unbuffered channel.
type offer struct {
	v     V
	vc    vclock
	taken bool
	by    vclock // clock of the receiver
}

// chanOp executes channel operations. It returns false when the goroutine has
// to wait; the operation is then executed again when it can proceed.
func (w *W) chanOp(fr *Frame, ins *Ins) bool {
	if ins.op == iSelect {
		return w.selectOp(fr, ins)
	}
	if w.schedOn && w.multi && !w.cur.syncOK && w.cur.offer == nil {
		if w.offerSwitch() {
			return false
		}
	}
	w.cur.syncOK = false
	cv := w.get(fr, ins.a)
	if cv.p == nil {
		w.waitFor("operation on nil channel", func() bool { return false })
		return false
	}
	c := cv.p.(*ChanObj)
	if ins.op == iSend {
		if o := w.cur.offer; o != nil {
			if o.taken {
				w.cur.offer = nil
				w.acquire(o.by)
				return true
			}
			if c.closed {
				w.goPanicMsg("send on closed channel")
			}
			w.waitFor("chan send", func() bool { return o.taken || c.closed })
			return false
		}
		if c.closed {
			w.goPanicMsg("send on closed channel")
		}
		if c.cap == 0 {
			o := w.offerTo(c, w.get(fr, ins.b))
			w.cur.offer = o
			w.waitFor("chan send", func() bool { return o.taken || c.closed })
			return false
		}
		if len(c.buf) >= c.cap {
			w.waitFor("chan send", func() bool { return len(c.buf) < c.cap || c.closed })
			return false
		}
		w.acquire(c.rvc)
		c.buf = append(c.buf, w.get(fr, ins.b))
		w.release(&c.vc)
		return true
	}
	w.stopWaiting()
	if !c.canReceive() {
		c.waiting++
		w.cur.waitsFor = append(w.cur.waitsFor, c)
		w.waitFor("chan receive", c.canReceive)
		return false
	}
	v, ok := w.receive(c, ins.t.Underlying().(*types.Chan).Elem())
	if ins.flag {
		v = V{p: Tuple{v, fromB(ok)}}
	}
	if ins.dst >= 0 {
		fr.regs[ins.dst] = v
	}
	return true
}

func (w *W) waitFor(why string, ready func() bool) {
	w.cur.ready = ready
	w.cur.why = why
	w.cur.syncOK = true
	w.pickNext()
}

func (w *W) offerTo(c *ChanObj, v V) *offer {
	o := &offer{v: v, vc: w.cur.vc.copy()}
	w.cur.vc.tick(w.cur.id)
	c.offers = append(c.offers, o)
	return o
}

func (c *ChanObj) canReceive() bool { return len(c.buf) > 0 || len(c.offers) > 0 || c.closed }

// canSend tells if a select may send without waiting.
func (c *ChanObj) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && len(c.offers) < c.waiting
}

// stopWaiting takes the current goroutine off the channels it waited for.
func (w *W) stopWaiting() {
	for _, c := range w.cur.waitsFor {
		c.waiting--
	}
	w.cur.waitsFor = nil
}

func (w *W) receive(c *ChanObj, elem types.Type) (v V, ok bool) {
	switch {
	case len(c.buf) > 0:
		v, ok = c.buf[0], true
		c.buf = c.buf[1:]
		w.acquire(c.vc)
		w.release(&c.rvc)
	case len(c.offers) > 0:
		o := c.offers[0]
		c.offers = c.offers[1:]
		v, ok = o.v, true
		w.acquire(o.vc)
		o.taken = true
		o.by = w.cur.vc.copy()
		w.cur.vc.tick(w.cur.id)
	default:
		v = zeroV(elem)
		w.acquire(c.vc)
	}
	return v, ok
}

func (w *W) selectOp(fr *Frame, ins *Ins) bool {
	in := ins.x.(*ssa.Select)
	if w.schedOn && w.multi && !w.cur.syncOK {
		if w.offerSwitch() {
			return false
		}
	}
	w.cur.syncOK = false
	w.stopWaiting()
	chans := make([]*ChanObj, len(in.States))
	var open []int
	for i, s := range in.States {
		cv := w.get(fr, ins.args[2*i])
		if cv.p == nil {
			continue
		}
		c := cv.p.(*ChanObj)
		chans[i] = c
		if s.Dir == types.SendOnly && c.canSend() || s.Dir == types.RecvOnly && c.canReceive() {
			open = append(open, i)
		}
	}
	chosen := -1
	switch {
	case len(open) > 1:
		chosen = open[w.chooseDef(len(open))]
	case len(open) == 1:
		chosen = open[0]
	case in.Blocking:
		for i, s := range in.States {
			if chans[i] != nil && s.Dir == types.RecvOnly {
				chans[i].waiting++
				w.cur.waitsFor = append(w.cur.waitsFor, chans[i])
			}
		}
		states := in.States
		w.waitFor("select", func() bool {
			for i, s := range states {
				if c := chans[i]; c != nil && (s.Dir == types.SendOnly && c.canSend() || s.Dir == types.RecvOnly && c.canReceive()) {
					return true
				}
			}
			return false
		})
		return false
	}
	rv := Tuple{V{n: uint64(int64(chosen))}, V{}}
	for i, s := range in.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		elem := s.Chan.Type().Underlying().(*types.Chan).Elem()
		v := zeroV(elem)
		if i == chosen {
			var ok bool
			v, ok = w.receive(chans[i], elem)
			rv[1] = fromB(ok)
		}
		rv = append(rv, v)
	}
	if chosen >= 0 && in.States[chosen].Dir == types.SendOnly {
		c := chans[chosen]
		if c.closed {
			w.goPanicMsg("send on closed channel")
		}
		v := w.get(fr, ins.args[2*chosen+1])
		if c.cap == 0 {
			w.offerTo(c, v) // a receiver is waiting
		} else {
			w.acquire(c.rvc)
			c.buf = append(c.buf, v)
			w.release(&c.vc)
		}
	}
	if ins.dst >= 0 {
		fr.regs[ins.dst] = V{p: rv}
	}
	return true
}
