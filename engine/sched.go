package main

// Goroutines, channels, select, mutexes and wait groups. One goroutine runs
// at a time; at every operation on one of these the explorer picks, as a
// decision of the path, which of the runnable goroutines goes on. All
// interleavings of these operations are explored; code between two of them
// runs without interruption.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type waitSend struct {
	v     V
	taken bool
}

type Chan struct {
	cap    int
	buf    []V
	sendq  []*waitSend
	recvw  int // receivers that wait
	closed bool
}

type thr struct {
	wake     chan struct{}
	ready    func() bool // nil: runnable
	done     bool
	kill     bool
	exited   chan struct{}
	arena    []V
	arenaPos int
	depth    int
}

type sched struct {
	w       *Worker
	threads []*thr
	cur     *thr
	fatal   interface{}
	locks   map[*V]*lockSt
}

type lockSt struct {
	writer  bool
	readers int
	count   int // wait group
}

type killSig struct{}

// exitSig unwinds everything when the program calls os.Exit.
type exitSig struct{ code V }

func (w *Worker) scheduler() *sched {
	if w.sched == nil {
		m := &thr{}
		w.sched = &sched{w: w, threads: []*thr{m}, cur: m, locks: map[*V]*lockSt{}}
	}
	return w.sched
}

func (s *sched) main() *thr { return s.threads[0] }

// killAll ends all goroutines but the main one, which has ended.
func (s *sched) killAll() {
	for _, t := range s.threads[1:] {
		if !t.done {
			t.kill = true
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	s.threads = s.threads[:1]
}

func (s *sched) save(t *thr) { t.arena, t.arenaPos, t.depth = s.w.arena, s.w.arenaPos, s.w.depth }
func (s *sched) load(t *thr) {
	s.w.arena, s.w.arenaPos, s.w.depth = t.arena, t.arenaPos, t.depth
	s.cur = t
}

// pickNext chooses the goroutine that goes on.
func (s *sched) pickNext() (next *thr) {
	defer func() {
		if e := recover(); e != nil {
			s.fatal = e
			next = s.main()
		}
	}()
	var en []*thr
	c := s.cur
	if !c.done && (c.ready == nil || c.ready()) {
		en = append(en, c)
	}
	for _, t := range s.threads {
		if t != c && !t.done && (t.ready == nil || t.ready()) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		s.fatal = &targetPanic{msg: "all goroutines are asleep - deadlock!", v: s.w.rtErrV("all goroutines are asleep - deadlock!")}
		return s.main()
	}
	if len(en) == 1 {
		return en[0]
	}
	return en[s.w.pick(len(en))]
}

// yield lets others run; it returns when this goroutine was picked and ready holds.
func (s *sched) yield(ready func() bool) {
	me := s.cur
	me.ready = ready
	next := s.pickNext()
	if next != me {
		s.save(me)
		s.load(next)
		next.wake2(s)
		s.wait(me)
	}
	me.ready = nil
	if me == s.main() && s.fatal != nil {
		e := s.fatal
		s.fatal = nil
		panic(e)
	}
}

func (t *thr) wake2(s *sched) {
	t.wake <- struct{}{}
}

func (s *sched) wait(t *thr) {
	<-t.wake
	if t.kill {
		panic(killSig{})
	}
}

func (w *Worker) spawn(cf *cfunc, args, free []V) {
	if w.spec {
		panic(specFail{})
	}
	s := w.scheduler()
	if s.main().wake == nil {
		s.main().wake = make(chan struct{}, 1)
	}
	if len(s.threads) > 40 {
		unsup("too many goroutines")
	}
	t := &thr{wake: make(chan struct{}, 1), exited: make(chan struct{})}
	s.threads = append(s.threads, t)
	go func() {
		defer close(t.exited)
		<-t.wake
		if t.kill {
			return
		}
		func() {
			defer func() {
				e := recover()
				if e == nil {
					return
				}
				if _, ok := e.(killSig); ok {
					return
				}
				s.fatal = e
			}()
			w.call(cf, args, free, nil)
		}()
		if t.kill {
			return
		}
		t.done = true
		next := s.main()
		if s.fatal == nil {
			next = s.pickNext()
		}
		s.load(next)
		next.wake2(s)
	}()
	s.yield(nil)
}

func chanOf(c V) *Chan {
	x, _ := c.p.(*Chan)
	return x
}

func (w *Worker) threads() *sched {
	if w.spec {
		panic(specFail{})
	}
	return w.scheduler()
}

func never() bool { return false }

func (w *Worker) chanPanic(msg string) {
	panic(&targetPanic{msg: msg, v: w.rtErrV(msg)})
}

func (w *Worker) chanSend(c, v V) {
	s := w.threads()
	ch := chanOf(c)
	if ch == nil {
		s.yield(never)
		return
	}
	s.yield(nil)
	if ch.closed {
		w.chanPanic("send on closed channel")
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return
	}
	ws := &waitSend{v: v}
	ch.sendq = append(ch.sendq, ws)
	s.yield(func() bool { return ws.taken || ch.closed })
	if !ws.taken {
		w.chanPanic("send on closed channel")
	}
}

func (ch *Chan) canRecv() bool { return ch != nil && (len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed) }

func (ch *Chan) take(elem types.Type) (V, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]V(nil), ch.buf[1:]...)
		if len(ch.sendq) > 0 {
			ws := ch.sendq[0]
			ch.sendq = append([]*waitSend(nil), ch.sendq[1:]...)
			ws.taken = true
			ch.buf = append(ch.buf, ws.v)
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		ws := ch.sendq[0]
		ch.sendq = append([]*waitSend(nil), ch.sendq[1:]...)
		ws.taken = true
		return ws.v, true
	}
	return zeroV(elem), false
}

func (w *Worker) chanRecv(c V, elem types.Type) (V, bool) {
	s := w.threads()
	ch := chanOf(c)
	if ch == nil {
		s.yield(never)
	} else {
		ch.recvw++
	}
	s.yield(ch.canRecv)
	ch.recvw--
	return ch.take(elem)
}

func (w *Worker) chanClose(c V) {
	s := w.threads()
	ch := chanOf(c)
	if ch == nil {
		w.chanPanic("close of nil channel")
	}
	s.yield(nil)
	if ch.closed {
		w.chanPanic("close of closed channel")
	}
	ch.closed = true
}

// canSend: without waiting.
func (ch *Chan) canSend() bool {
	return ch != nil && (ch.closed || len(ch.buf) < ch.cap || ch.cap == 0 && ch.recvw > len(ch.sendq))
}

func (w *Worker) selectStmt(fr *frame, ci *cinstr) V {
	s := w.threads()
	x := ci.aux.(*ssa.Select)
	n := len(x.States)
	chans := make([]*Chan, n)
	sends := make([]V, n)
	for i := range x.States {
		chans[i] = chanOf(fr.val(ci.args[2*i]))
		if x.States[i].Dir == types.SendOnly {
			sends[i] = fr.val(ci.args[2*i+1])
		}
	}
	can := func(i int) bool {
		if x.States[i].Dir == types.SendOnly {
			return chans[i].canSend()
		}
		return chans[i].canRecv()
	}
	anyone := func() bool {
		for i := range chans {
			if can(i) {
				return true
			}
		}
		return false
	}
	s.yield(nil)
	if x.Blocking && !anyone() {
		for i, c := range chans {
			if c != nil && x.States[i].Dir != types.SendOnly {
				c.recvw++
			}
		}
		s.yield(anyone)
		for i, c := range chans {
			if c != nil && x.States[i].Dir != types.SendOnly {
				c.recvw--
			}
		}
	}
	var en []int
	for i := range chans {
		if can(i) {
			en = append(en, i)
		}
	}
	out := []V{{n: ^uint64(0)}, vBool(false)}
	var elems []types.Type
	for _, st := range x.States {
		if st.Dir != types.SendOnly {
			elems = append(elems, st.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	vals := make([]V, len(elems))
	for i := range vals {
		vals[i] = zeroV(elems[i])
	}
	if len(en) > 0 {
		k := en[w.pick(len(en))]
		out[0] = V{n: uint64(k)}
		ch := chans[k]
		if x.States[k].Dir == types.SendOnly {
			if ch.closed {
				w.chanPanic("send on closed channel")
			}
			if len(ch.buf) < ch.cap {
				ch.buf = append(ch.buf, sends[k])
			} else {
				ws := &waitSend{v: sends[k]}
				ch.sendq = append(ch.sendq, ws)
				s.yield(func() bool { return ws.taken })
			}
		} else {
			r := 0
			for i := 0; i < k; i++ {
				if x.States[i].Dir != types.SendOnly {
					r++
				}
			}
			v, ok := ch.take(elems[r])
			out[1] = vBool(ok)
			vals[r] = v
		}
	}
	return V{p: &Struct{f: append(out, vals...)}}
}

// ---- locks and wait groups: only once there are goroutines -------------------------------

func (s *sched) lockOf(p V) *lockSt {
	k, _ := p.p.(*V)
	if k == nil {
		s.w.nilDeref()
	}
	l := s.locks[k]
	if l == nil {
		l = &lockSt{}
		s.locks[k] = l
	}
	return l
}

func lockOp(f func(w *Worker, s *sched, l *lockSt, args []V)) intrinsic {
	return func(w *Worker, fr *frame, args []V) V {
		if w.spec {
			panic(specFail{})
		}
		s := w.scheduler()
		f(w, s, s.lockOf(args[0]), args)
		return V{}
	}
}

func init() {
	for _, n := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
		intrinsics[n+"Lock"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) {
			s.yield(func() bool { return !l.writer && l.readers == 0 })
			l.writer = true
			if w.iso != nil {
				w.iso.held++
			}
		})
		intrinsics[n+"Unlock"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) {
			if !l.writer {
				w.chanPanic("sync: unlock of unlocked mutex")
			}
			l.writer = false
			if w.iso != nil && w.iso.held > 0 {
				w.iso.held--
			}
		})
	}
	intrinsics["(*sync.RWMutex).RLock"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) {
		s.yield(func() bool { return !l.writer })
		l.readers++
	})
	intrinsics["(*sync.RWMutex).RUnlock"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) {
		if l.readers == 0 {
			w.chanPanic("sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
	})
	add := func(w *Worker, l *lockSt, n int) {
		l.count += n
		if l.count < 0 {
			w.chanPanic("sync: negative WaitGroup counter")
		}
	}
	intrinsics["(*sync.WaitGroup).Add"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) { add(w, l, w.concInt(a[1])) })
	intrinsics["(*sync.WaitGroup).Done"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) { s.yield(nil); add(w, l, -1) })
	intrinsics["(*sync.WaitGroup).Wait"] = lockOp(func(w *Worker, s *sched, l *lockSt, a []V) { s.yield(func() bool { return l.count == 0 }) })
	intrinsics["runtime.Gosched"] = func(w *Worker, fr *frame, a []V) V {
		if w.sched != nil && !w.spec {
			w.sched.yield(nil)
		}
		return V{}
	}
	// CatchExit runs f as a process: until it returns, or any goroutine calls os.Exit.
	symAPI["CatchExit"] = func(w *Worker, fr *frame, a []V) (r V) {
		if w.spec {
			panic(specFail{})
		}
		s := w.scheduler()
		depth := w.depth
		arena, pos := w.arena, w.arenaPos
		defer func() {
			e := recover()
			s.killAll()
			if x, ok := e.(exitSig); ok {
				w.depth, w.arena, w.arenaPos = depth, arena, pos
				s.cur = s.main()
				r = x.code
				return
			}
			if e != nil {
				panic(e)
			}
		}()
		w.callV(a[0], nil)
		return V{n: 0}
	}
	intrinsics["os.Exit"] = func(w *Worker, fr *frame, a []V) V {
		if w.spec {
			panic(specFail{})
		}
		panic(exitSig{a[0]})
	}
}

// parseArgs models flags.ParseArgs of go-flags for structs of switches.
func parseArgs(w *Worker, fr *frame, a []V) V {
	x, _ := a[0].p.(*Iface)
	if x == nil {
		unsup("flags.ParseArgs of nil")
	}
	pt, _ := x.ti.t.Underlying().(*types.Pointer)
	var st *types.Struct
	if pt != nil {
		st, _ = pt.Elem().Underlying().(*types.Struct)
	}
	if st == nil {
		unsup("flags.ParseArgs of %s", x.ti.t)
	}
	long, short := map[string]int{}, map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		b, _ := st.Field(i).Type().Underlying().(*types.Basic)
		l, s := tag.Get("long"), tag.Get("short")
		if l == "" && s == "" {
			continue
		}
		if b == nil || b.Kind() != types.Bool {
			unsup("flags: option that isn't a switch")
		}
		if l != "" {
			long[l] = i
		}
		if s != "" {
			short[s] = i
		}
	}
	var rest []V
	fail := func(msg string) V {
		e := w.callFn(w.prog.ImportedPackage("errors").Func("New"), vStr(msg))
		return tuple(V{}, e)
	}
	var args []V
	if sl, _ := a[1].p.(*Slice); sl != nil {
		args = sl.a.v[sl.off : sl.off+sl.len]
	}
	for i := 0; i < len(args); i++ {
		s := w.needStr(args[i])
		idx := -1
		switch {
		case s == "--":
			rest = append(rest, args[i+1:]...)
			i = len(args)
			continue
		case strings.HasPrefix(s, "--"):
			k, ok := long[s[2:]]
			if !ok {
				return fail("unknown flag `" + s[2:] + "'")
			}
			idx = k
		case len(s) > 1 && s[0] == '-':
			k, ok := short[s[1:]]
			if !ok {
				return fail("unknown flag `" + s[1:] + "'")
			}
			idx = k
		default:
			rest = append(rest, args[i])
			continue
		}
		p, _ := x.v.p.(*V)
		if p == nil {
			w.nilDeref()
		}
		w.storePtr(V{p: &p.p.(*Struct).f[idx]}, vBool(true))
	}
	if len(rest) == 0 {
		return tuple(V{}, V{})
	}
	return tuple(V{p: &Slice{a: &Arr{v: rest}, len: len(rest), cap: len(rest)}}, V{})
}

func init() {
	intrinsics["github.com/jessevdk/go-flags.ParseArgs"] = parseArgs
	symAPI["Sprintf"] = func(w *Worker, fr *frame, a []V) V { return w.format(a[0], a[1]) }
}
