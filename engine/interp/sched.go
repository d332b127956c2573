package interp

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program. One runs at a time; control moves only
// when the running one blocks or ends. The next one is the longest waiting, and on
// the other node (see rt.ReverseMaps) the latest, so that the two orders of any two
// goroutines both occur.
type task struct {
	resume  chan struct{}
	cond    func() bool
	started bool
	fn      Value
	args    []Value
	depth   int
	stack   []*code
	gone    chan struct{}
}

type killed struct{}

type sched struct {
	cur, main *task
	queue     []*task
	live      map[*task]bool
	fail      any
	killing   bool
}

func (w *Worker) sch() *sched {
	if w.scheduler == nil {
		m := &task{resume: make(chan struct{}), started: true}
		w.scheduler = &sched{cur: m, main: m, live: map[*task]bool{}}
	}
	return w.scheduler
}

func (w *Worker) goStmt(f Value, args []Value) {
	s := w.sch()
	t := &task{resume: make(chan struct{}), fn: f, args: args, gone: make(chan struct{})}
	s.queue = append(s.queue, t)
}

func (w *Worker) nextTask() *task {
	s := w.scheduler
	n := len(s.queue)
	for i := 0; i < n; i++ {
		k := i
		if w.mapRev {
			k = n - 1 - i
		}
		t := s.queue[k]
		if t.cond == nil || t.cond() {
			s.queue = append(append([]*task(nil), s.queue[:k]...), s.queue[k+1:]...)
			return t
		}
	}
	return nil
}

// handTo makes t the running goroutine; the caller stops touching w.
func (w *Worker) handTo(t *task) {
	s := w.scheduler
	s.cur = t
	w.depth, w.stack = t.depth, t.stack
	if !t.started {
		t.started = true
		s.live[t] = true
		go w.taskMain(t)
		return
	}
	t.resume <- struct{}{}
}

// wait suspends the running goroutine until it is resumed.
func (w *Worker) wait(me *task) {
	<-me.resume
	s := w.scheduler
	if s.killing {
		panic(killed{})
	}
	if me == s.main && s.fail != nil {
		r := s.fail
		s.fail = nil
		panic(r)
	}
}

func (w *Worker) switchFrom(me, t *task) {
	if t == me {
		return
	}
	me.depth, me.stack = w.depth, append([]*code(nil), w.stack...)
	w.handTo(t)
	w.wait(me)
}

func (w *Worker) deadlock() {
	s := w.scheduler
	r := targetPanic{w.mkError("all goroutines are asleep - deadlock!")}
	if s.cur == s.main {
		panic(r)
	}
	panic(r) // reaches taskMain, which hands it to the main goroutine
}

// block suspends the running goroutine until cond holds.
func (w *Worker) block(cond func() bool) {
	if cond() {
		return
	}
	s := w.sch()
	me := s.cur
	me.cond = cond
	s.queue = append(s.queue, me)
	t := w.nextTask()
	if t == nil {
		s.queue = s.queue[:len(s.queue)-1]
		w.deadlock()
	}
	w.switchFrom(me, t)
}

// gosched lets the others run first.
func (w *Worker) gosched() {
	s := w.sch()
	me := s.cur
	t := w.nextTask()
	if t == nil {
		return
	}
	me.cond = nil
	s.queue = append(s.queue, me)
	w.switchFrom(me, t)
}

func (w *Worker) taskMain(t *task) {
	s := w.scheduler
	defer close(t.gone)
	defer func() {
		r := recover()
		delete(s.live, t)
		if _, is := r.(killed); is {
			return
		}
		if r == nil {
			if n := w.nextTask(); n != nil {
				w.handTo(n)
				return
			}
			r = targetPanic{w.mkError("all goroutines are asleep - deadlock!")}
		}
		s.fail = r
		for i, q := range s.queue {
			if q == s.main {
				s.queue = append(append([]*task(nil), s.queue[:i]...), s.queue[i+1:]...)
				break
			}
		}
		w.handTo(s.main)
	}()
	w.callValue(nil, t.fn, t.args)
}

// endTasks removes what is left of the path's goroutines.
func (w *Worker) endTasks() {
	s := w.scheduler
	if s == nil {
		return
	}
	s.killing = true
	for t := range s.live {
		t.resume <- struct{}{}
		<-t.gone
	}
	w.scheduler = nil
}

type chanv struct {
	buf     []Value
	cap     int
	closed  bool
	waiting int // receivers
	sent    int
	taken   int
	zero    func() Value
}

func (w *Worker) makeChan(t types.Type, n Value) *chanv {
	el := t.Underlying().(*types.Chan).Elem()
	return &chanv{cap: int(w.asInt(n)), zero: func() Value { return w.zero(el) }}
}

func (w *Worker) chanOf(v Value) *chanv {
	if c, ok := v.(*chanv); ok {
		return c
	}
	w.badPoison(v)
	w.unsup("channel is %T", v)
	return nil
}

func never() bool { return false }

func (c *chanv) canSend() bool {
	return c.closed || len(c.buf) < c.cap || (c.cap == 0 && c.waiting > len(c.buf))
}
func (c *chanv) canRecv() bool { return len(c.buf) > 0 || c.closed }

func (w *Worker) chSend(v Value, x Value) {
	c := w.chanOf(v)
	if c == nil {
		w.block(never)
	}
	if c.cap == 0 {
		// a rendezvous: offered at once, finished when taken
		if !c.closed {
			c.buf = append(c.buf, x)
			c.sent++
			me := c.sent
			w.block(func() bool { return c.taken >= me || c.closed })
			if c.taken >= me {
				return
			}
		}
		w.panicStr("send on closed channel")
	}
	w.block(c.canSend)
	if c.closed {
		w.panicStr("send on closed channel")
	}
	c.buf = append(c.buf, x)
	c.sent++
}

func (w *Worker) chRecv(v Value) (Value, bool) {
	c := w.chanOf(v)
	if c == nil {
		w.block(never)
	}
	c.waiting++
	w.block(c.canRecv)
	c.waiting--
	return c.take()
}

func (c *chanv) take() (Value, bool) {
	if len(c.buf) > 0 {
		x := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		c.taken++
		return x, true
	}
	return c.zero(), false
}

func (w *Worker) chClose(v Value) {
	c := w.chanOf(v)
	if c == nil {
		w.panicStr("close of nil channel")
	}
	if c.closed {
		w.panicStr("close of closed channel")
	}
	c.closed = true
}

func (w *Worker) selectStmt(x *ssa.Select, chans, sends []Value) Value {
	n := len(chans)
	ready := func() int {
		for i := 0; i < n; i++ {
			k := i
			if w.mapRev {
				k = n - 1 - i
			}
			c := w.chanOf(chans[k])
			if c == nil {
				continue
			}
			if x.States[k].Dir == types.SendOnly && c.canSend() || x.States[k].Dir == types.RecvOnly && c.canRecv() {
				return k
			}
		}
		return -1
	}
	k := ready()
	if k < 0 && x.Blocking {
		for i, c := range chans {
			if x.States[i].Dir == types.RecvOnly && w.chanOf(c) != nil {
				w.chanOf(c).waiting++
			}
		}
		w.block(func() bool { return ready() >= 0 })
		for i, c := range chans {
			if x.States[i].Dir == types.RecvOnly && w.chanOf(c) != nil {
				w.chanOf(c).waiting--
			}
		}
		k = ready()
	}
	r := tuple{int64(k), false}
	for i, st := range x.States {
		if st.Dir == types.SendOnly {
			if i == k {
				c := w.chanOf(chans[i])
				if c.closed {
					w.panicStr("send on closed channel")
				}
				c.buf = append(c.buf, sends[i])
				c.sent++
			}
			continue
		}
		if i == k {
			v, ok := w.chanOf(chans[i]).take()
			r[1] = ok
			r = append(r, v)
		} else {
			r = append(r, w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return r
}

func (w *Worker) schedTable() map[string]Intrinsic {
	m := map[string]Intrinsic{}
	cell := func(w *Worker, v Value) *Value {
		p := v.(*Value)
		if p == nil {
			w.nilDeref()
		}
		st := (*p).(structure)
		return &st[len(st)-1] // WaitGroup.sema
	}
	add := func(w *Worker, v Value, d int64) {
		c := cell(w, v)
		n := (*c).(int64) + d
		if n < 0 {
			w.panicStr("sync: negative WaitGroup counter")
		}
		w.set(c, n)
	}
	m["(*sync.WaitGroup).Add"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		add(w, a[0], w.asInt(a[1]))
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		add(w, a[0], -1)
		return nil
	}
	m["(*sync.WaitGroup).Wait"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		c := cell(w, a[0])
		w.block(func() bool { return (*c).(int64) == 0 })
		return nil
	}
	gs := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { w.gosched(); return nil }
	m["runtime.Gosched"] = gs
	m["time.Sleep"] = gs
	m["runtime.NumGoroutine"] = func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value { return int64(1) }
	ncpu := func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.mapRev {
			return int64(2)
		}
		return int64(8)
	}
	m["runtime.NumCPU"] = ncpu
	m["runtime.GOMAXPROCS"] = ncpu
	// iter.Pull runs the (finite) sequence at once
	pull := func(n int) Intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []Value) Value {
			var items []tuple
			done, ran := false, false
			sig := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature).Results()
			next := &native{func(w *Worker, _ []Value) Value {
				if !ran {
					ran = true
					if !done {
						w.callValue(fr, a[0], []Value{&native{func(w *Worker, x []Value) Value {
							items = append(items, append(tuple(nil), x...))
							return true
						}}})
					}
				}
				if done || len(items) == 0 {
					r := tuple{}
					for i := 0; i < n; i++ {
						r = append(r, w.zero(sig.At(i).Type()))
					}
					return append(r, false)
				}
				t := items[0]
				items = items[1:]
				return append(append(tuple(nil), t...), true)
			}}
			stop := &native{func(w *Worker, _ []Value) Value { done = true; return nil }}
			return tuple{next, stop}
		}
	}
	m["iter.Pull"] = pull(1)
	m["iter.Pull2"] = pull(2)
	return m
}

var _ = fmt.Sprint
