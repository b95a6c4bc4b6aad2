// Package sched runs goroutines one at a time under an explorer's control.
//
// cmd/rewrite replaces the go statements, channel operations, sync and
// sync/atomic uses and NumCPU calls of the code under test with calls into
// this package. While no exploration is active they behave like the originals.
// While one is, every goroutine parks before each of them and Run decides who
// goes on.
//
// Hand-offs between goroutines use the runtime's semaphores, which the race
// detector does not see, so that it orders the program's memory accesses by
// the program's own synchronisation only: channel operations are real ones,
// mutexes and wait groups report their edges. The code that runs on the
// explored goroutines is therefore kept free of instrumentation (norace, no
// maps, no append).
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

type kind int

const (
	kStart kind = iota
	kPoint
	kSend
	kRecv
	kSelect
	kClose
	kLock
	kRLock
	kWait
	kCond
	kDraw
	kResume
	kAdd
	kEnd
)

var kindName = [...]string{"start", "step", "send", "receive", "select", "close", "lock", "rlock", "wait", "cond", "draw", "resume", "add", "end"}

// Case is one case of a select statement.
type Case struct {
	send bool
	ch   interface{}
}

type thread struct {
	id       int
	sema     uint32
	next     *thread
	kind     kind
	ch       interface{}
	cases    []Case
	hasDef   bool
	pick     int
	rdv      bool // the granted channel operation meets a partner
	lock     *lockState
	wait     *int
	cond     *condState
	drawKind string
	drawN    int64
	drawI    int64
	drawF    float64
	drawOK   bool
	done     bool
	pan      interface{}
	stack    string
	hash     uint64 // of everything this goroutine has done and learnt
	spawned  uint64
	name     uint64
	draws    int
}

type closed struct {
	ch   interface{}
	next *closed
}

var (
	active  bool
	first   *thread
	last    *thread
	nThread int
	running *thread
	ctl     uint32
	shut    *closed
	cpus    int
)

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + a<<6 + a>>2
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	return a ^ a>>31
}

// Active tells whether an exploration is running.
//
//go:norace
//go:noinline
func Active() bool { return active }

//go:norace
//go:noinline
func park(t *thread) {
	semrelease(&ctl, false, 0)
	semacquire(&t.sema)
	running = t
}

// Go starts f on a new goroutine.
//
//go:norace
//go:noinline
func Go(f func()) {
	if !active {
		go f()
		return
	}
	p := running
	p.spawned++
	t := newThread(mix(p.hash, 100+p.spawned))
	go runThread(t, f)
}

//go:norace
//go:noinline
func newThread(name uint64) *thread {
	t := &thread{id: nThread, kind: kStart, name: name, hash: name}
	nThread++
	if first == nil {
		first = t
	} else {
		last.next = t
	}
	last = t
	return t
}

//go:norace
//go:noinline
func runThread(t *thread, f func()) {
	semacquire(&t.sema)
	running = t
	guarded(t, f)
	t.kind = kEnd
	t.done = true
	releaseMerge(unsafe.Pointer(&endToken))
	semrelease(&ctl, false, 0)
}

var endToken byte

//go:norace
//go:noinline
func guarded(t *thread, f func()) {
	defer caught(t)
	f()
}

//go:norace
//go:noinline
func caught(t *thread) {
	if r := recover(); r != nil {
		t.pan = r
		t.stack = string(debug.Stack())
	}
}

// Point lets another goroutine go on.
//
//go:norace
//go:noinline
func Point() {
	if !active {
		return
	}
	t := running
	t.kind = kPoint
	park(t)
}

// P marks a call of f as a point where other goroutines may go on.
//
//go:norace
//go:noinline
func P[T any](f T) T {
	Point()
	return f
}

// Sleep stands for time.Sleep.
//
//go:norace
//go:noinline
func Sleep(d time.Duration) {
	if active {
		Point()
		return
	}
	time.Sleep(d)
}

// Gosched stands for runtime.Gosched.
//
//go:norace
//go:noinline
func Gosched() {
	if active {
		Point()
		return
	}
	runtime.Gosched()
}

// NumCPU stands for runtime.NumCPU.
//
//go:norace
//go:noinline
func NumCPU() int {
	if active {
		return cpus
	}
	return runtime.NumCPU()
}

// GOMAXPROCS stands for runtime.GOMAXPROCS.
//
//go:norace
//go:noinline
func GOMAXPROCS(n int) int {
	if active {
		return cpus
	}
	return runtime.GOMAXPROCS(n)
}

// NumGoroutine stands for runtime.NumGoroutine.
//
//go:norace
//go:noinline
func NumGoroutine() int {
	if active {
		Point()
		n := 0
		for t := first; t != nil; t = t.next {
			if !t.done {
				n++
			}
		}
		return n
	}
	return runtime.NumGoroutine()
}

// Draw asks the explorer for a random draw of the running goroutine.
//
//go:norace
//go:noinline
func Draw(kind string, n int64) (int64, float64, bool) {
	t := running
	t.kind = kDraw
	t.drawKind, t.drawN = kind, n
	park(t)
	return t.drawI, t.drawF, t.drawOK
}

//go:norace
//go:noinline
func before(k kind, ch interface{}) *thread {
	t := running
	t.kind, t.ch, t.rdv = k, ch, false
	park(t)
	return t
}

//go:norace
//go:noinline
func after(t *thread) {
	if t.rdv {
		t.rdv = false
		t.kind = kResume
		park(t)
	}
}

// Sender sends on ch.
//
//go:norace
//go:noinline
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
//go:noinline
func send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	t := before(kSend, ch)
	ch <- v
	after(t)
}

// Recv receives from ch.
//
//go:norace
//go:noinline
func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	t := before(kRecv, ch)
	v := <-ch
	after(t)
	return v
}

// Recv2 receives from ch and tells whether the value was sent.
//
//go:norace
//go:noinline
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	t := before(kRecv, ch)
	v, ok := <-ch
	after(t)
	return v, ok
}

// Close closes ch.
//
//go:norace
//go:noinline
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	before(kClose, ch)
	close(ch)
	markShut(ch)
}

//go:norace
//go:noinline
func markShut(ch interface{}) { shut = &closed{ch, shut} }

// SendCase and RecvCase are cases of Select.
//
//go:norace
//go:noinline
func SendCase[T any](ch chan<- T) Case { return Case{true, ch} }

//go:norace
//go:noinline
func RecvCase[T any](ch <-chan T) Case { return Case{false, ch} }

// Self is the number of the running goroutine (0: the main one).
//
//go:norace
//go:noinline
func Self() int { return running.id }

// Len stands for len of a channel.
//
//go:norace
//go:noinline
func Len[T any](ch <-chan T) int {
	if Active() {
		Point()
	}
	return len(ch)
}

// Select decides which case goes on (-1: the default); the caller then performs
// that case with one of the Sel functions. Only while an exploration is active.
//
//go:norace
//go:noinline
func Select(hasDefault bool, cases ...Case) Picked {
	t := running
	t.kind, t.cases, t.hasDef, t.rdv = kSelect, cases, hasDefault, false
	park(t)
	return Picked{t.pick, t}
}

// Picked is the chosen case.
type Picked struct {
	I int
	t *thread // two goroutines that meet run at once, self would not do
}

// Sending is the send of a select case.
type Sending[T any] struct {
	Ch chan<- T
	V  T
}

// SelSend prepares the send of a select case.
//
//go:norace
//go:noinline
func SelSend[T any](ch chan<- T) func(T) Sending[T] {
	return func(v T) Sending[T] { return Sending[T]{ch, v} }
}

// Send performs it.
//
//go:norace
//go:noinline
func (s Sending[T]) Send(p Picked) {
	s.Ch <- s.V
	after(p.t)
}

// SelRecv performs the receive of a select case.
//
//go:norace
//go:noinline
func SelRecv[T any](p Picked, ch <-chan T) T {
	v := <-ch
	after(p.t)
	return v
}

// SelRecv2 performs the two-valued receive of a select case.
//
//go:norace
//go:noinline
func SelRecv2[T any](p Picked, ch <-chan T) (T, bool) {
	v, ok := <-ch
	after(p.t)
	return v, ok
}

// ---- the controller ----

// Config bounds one execution.
type Config struct {
	CPUs     int
	Preempt  int // switches away from a goroutine that could go on; -1: any number
	MaxSteps int
	Locks    bool // also the locks of packages that start no goroutines
	Choose   func(n int) int
	// Draw answers a random draw; who names the goroutine in a way that does not
	// depend on the schedule, k counts its draws.
	Draw func(who uint64, k int, kind string, n int64) (int64, float64, bool)
	// Seen is asked at every choice with a hash of the history up to it, in
	// which operations that do not depend on each other have no order.
	Seen func(key uint64)
}

// Result describes one execution.
type Result struct {
	Steps    int
	Returned bool     // the main function returned
	Blocked  []string // goroutines that can never go on
	Panic    string   // first panic
	Endless  bool     // MaxSteps reached
	Threads  int
	AfterEnd int // steps taken by other goroutines once the main function had returned
	Trace    []byte
}

// OK tells whether every goroutine ended normally.
func (r *Result) OK() bool {
	return r.Returned && len(r.Blocked) == 0 && r.Panic == "" && !r.Endless
}

func chanInfo(ch interface{}) (v reflect.Value, isNil bool) {
	v = reflect.ValueOf(ch)
	return v, v.IsNil()
}

func sameChan(a, b interface{}) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

func isShut(ch interface{}) bool {
	for c := shut; c != nil; c = c.next {
		if sameChan(c.ch, ch) {
			return true
		}
	}
	return false
}

// partners of an unbuffered operation: goroutines ready for the other side.
func partners(t *thread, send bool, ch interface{}) (ps []*thread, cs []int) {
	for u := first; u != nil; u = u.next {
		if u == t || u.done {
			continue
		}
		switch u.kind {
		case kSend, kRecv:
			if (u.kind == kSend) != send && sameChan(u.ch, ch) {
				ps, cs = append(ps, u), append(cs, -1)
			}
		case kSelect:
			for i, k := range u.cases {
				if k.send != send && !reflect.ValueOf(k.ch).IsNil() && sameChan(k.ch, ch) {
					ps, cs = append(ps, u), append(cs, i)
				}
			}
		}
	}
	return
}

func chanEnabled(t *thread, send bool, ch interface{}) bool {
	v, null := chanInfo(ch)
	if null {
		return false
	}
	if isShut(ch) {
		return true
	}
	if send && v.Len() < v.Cap() || !send && v.Len() > 0 {
		return true
	}
	if v.Cap() == 0 {
		ps, _ := partners(t, send, ch)
		return len(ps) > 0
	}
	return false
}

func enabled(t *thread) bool {
	switch t.kind {
	case kSend:
		return chanEnabled(t, true, t.ch)
	case kRecv:
		return chanEnabled(t, false, t.ch)
	case kSelect:
		if t.hasDef {
			return true
		}
		for _, c := range t.cases {
			if chanEnabled(t, c.send, c.ch) {
				return true
			}
		}
		return false
	case kLock:
		return !t.lock.held && t.lock.readers == 0
	case kRLock:
		return !t.lock.held
	case kWait:
		return *t.wait == 0
	case kCond:
		return t.cond == nil
	}
	return true
}

func describe(t *thread) string {
	s := fmt.Sprintf("goroutine %d blocked in %s", t.id, kindName[t.kind])
	if t.kind == kSend || t.kind == kRecv {
		s += fmt.Sprintf(" on %T", t.ch)
	}
	return s
}

// Run executes main and everything it starts until nothing can go on.
func Run(cfg Config, main func()) *Result {
	if active {
		panic("nested exploration")
	}
	first, last, nThread, running, ctl, shut = nil, nil, 0, nil, 0, nil
	cpus = cfg.CPUs
	active, lazyOn = true, cfg.Locks
	sync.VerifNoPool = true
	defer func() { active, sync.VerifNoPool = false, false }()
	res := &Result{}
	t0 := newThread(1)
	go runThread(t0, main)
	var cur *thread
	budget := cfg.Preempt
	h := &history{chans: map[uintptr]*chanHist{}, locks: map[*lockState]uint64{}, waits: map[*int]uint64{}}
	for {
		// goroutines able to go on, the current one first
		var en []*thread
		if cur != nil && !cur.done && enabled(cur) {
			en = append(en, cur)
		}
		curOn := len(en) == 1
		for t := first; t != nil; t = t.next {
			if t != cur && !t.done && enabled(t) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			if waitsForTimer() {
				continue
			}
			break
		}
		if res.Steps >= cfg.MaxSteps {
			res.Endless = true
			break
		}
		i := local(en)
		if i < 0 {
			i = 0
			if len(en) > 1 && (!curOn || budget != 0) {
				if cfg.Seen != nil {
					k := h.key()
					if budget >= 0 {
						k = mix(mix(k, uint64(budget)), 7)
						if curOn {
							k = mix(k, cur.name)
						}
					}
					cfg.Seen(k)
				}
				i = cfg.Choose(len(en))
				if i != 0 && curOn {
					budget--
				}
			}
		}
		t := en[i]
		if t.kind != kStart {
			cur = t
		}
		res.Steps++
		res.Trace = append(res.Trace, byte(t.id))
		if t0.done {
			res.AfterEnd++
		}
		n := 1
		p := grant(t, cfg)
		h.step(t, p)
		if p != nil {
			n = 2
			semrelease(&p.sema, false, 0)
		}
		semrelease(&t.sema, false, 0)
		for ; n > 0; n-- {
			semacquire(&ctl)
		}
	}
	acquire(unsafe.Pointer(&endToken))
	res.Returned = t0.done && t0.pan == nil
	for t := first; t != nil; t = t.next {
		res.Threads++
		if t.pan != nil && res.Panic == "" {
			res.Panic = fmt.Sprintf("goroutine %d: panic: %v at %s", t.id, t.pan, place(t.stack))
		}
		if !t.done && !res.Endless {
			res.Blocked = append(res.Blocked, describe(t))
		}
	}
	return res
}

func place(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/sched/") && !strings.Contains(l, "/go1.") {
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " < ")
}

// waitsForTimer gives channels fed from outside (timers) a moment.
func waitsForTimer() bool {
	ext := false
	for t := first; t != nil; t = t.next {
		if t.done {
			continue
		}
		if t.kind == kRecv && timer(t.ch) {
			ext = true
		}
		if t.kind == kSelect {
			for _, c := range t.cases {
				ext = ext || !c.send && timer(c.ch)
			}
		}
	}
	if ext {
		time.Sleep(time.Millisecond)
	}
	return ext
}

var timeType = reflect.TypeOf(time.Time{})

func timer(ch interface{}) bool {
	t := reflect.TypeOf(ch)
	return t.Elem() == timeType
}

// grant prepares what t is about to do; a partner is returned if it meets one.
func grant(t *thread, cfg Config) *thread {
	switch t.kind {
	case kDraw:
		t.drawI, t.drawF, t.drawOK = cfg.Draw(t.name, t.draws, t.drawKind, t.drawN)
		t.draws++
	case kSend, kRecv:
		return meet(t, t.kind == kSend, t.ch, cfg)
	case kSelect:
		var on []int
		for i, c := range t.cases {
			if chanEnabled(t, c.send, c.ch) {
				on = append(on, i)
			}
		}
		if len(on) == 0 {
			t.pick = -1
			return nil
		}
		k := 0
		if len(on) > 1 {
			k = cfg.Choose(len(on))
		}
		t.pick = on[k]
		return meet(t, t.cases[t.pick].send, t.cases[t.pick].ch, cfg)
	}
	return nil
}

func meet(t *thread, send bool, ch interface{}, cfg Config) *thread {
	v, _ := chanInfo(ch)
	if isShut(ch) || v.Cap() > 0 {
		return nil
	}
	ps, cs := partners(t, send, ch)
	k := 0
	if len(ps) > 1 {
		k = cfg.Choose(len(ps))
	}
	p := ps[k]
	if cs[k] >= 0 {
		p.pick = cs[k]
	}
	t.rdv, p.rdv = true, true
	return p
}

// local finds a goroutine whose next step concerns nobody else.
func local(en []*thread) int {
	for i, t := range en {
		if t.kind == kStart || t.kind == kDraw || t.kind == kResume {
			return i
		}
	}
	return -1
}

// history folds every step into the hash of the goroutine that makes it,
// together with the steps of others it depends on. Two executions in which all
// goroutines have equal hashes are in the same state (as long as there is no
// data race, which the race detector would report).
type history struct {
	chans map[uintptr]*chanHist
	locks map[*lockState]uint64
	waits map[*int]uint64
}

type chanHist struct {
	sends, recvs []uint64
	shut         uint64
}

func (h *history) of(ch interface{}) *chanHist {
	p := reflect.ValueOf(ch).Pointer()
	if h.chans[p] == nil {
		h.chans[p] = &chanHist{}
	}
	return h.chans[p]
}

func (h *history) key() uint64 {
	k := uint64(0)
	for t := first; t != nil; t = t.next {
		x := mix(t.name, t.hash)
		if t.done {
			x = mix(x, 3)
		}
		k += x
	}
	return k
}

func (h *history) step(t, partner *thread) {
	switch t.kind {
	case kStart, kResume:
	case kDraw:
		t.hash = mix(mix(t.hash, uint64(t.drawI)), 11)
	case kSend, kRecv:
		h.chanStep(t, partner, t.kind == kSend, t.ch)
	case kSelect:
		t.hash = mix(t.hash, uint64(20+t.pick))
		if t.pick >= 0 {
			h.chanStep(t, partner, t.cases[t.pick].send, t.cases[t.pick].ch)
		}
	case kClose:
		c := h.of(t.ch)
		t.hash = mix(mix(t.hash, 12), lastOf(c.sends))
		c.shut = t.hash
	case kLock, kRLock:
		t.hash = mix(mix(t.hash, 13), h.locks[t.lock])
		h.locks[t.lock] = t.hash
	case kAdd:
		t.hash = mix(t.hash, 14)
		h.waits[t.wait] += t.hash
	case kWait:
		t.hash = mix(mix(t.hash, 15), h.waits[t.wait])
	default: // depends on everything
		t.hash = mix(mix(t.hash, 16), h.key())
	}
}

func lastOf(l []uint64) uint64 {
	if len(l) == 0 {
		return 0
	}
	return l[len(l)-1]
}

func (h *history) chanStep(t, p *thread, send bool, ch interface{}) {
	c := h.of(ch)
	if p != nil {
		a, b := t, p
		if !send {
			a, b = p, t
		}
		e := mix(mix(a.hash, b.hash), 17)
		a.hash, b.hash = mix(e, 1), mix(e, 2)
		c.sends, c.recvs = append(c.sends, e), append(c.recvs, e)
		return
	}
	size := reflect.ValueOf(ch).Cap()
	if send {
		e := mix(mix(t.hash, 18), lastOf(c.sends))
		if k := len(c.sends) - size; k >= 0 && k < len(c.recvs) {
			e = mix(e, c.recvs[k])
		}
		t.hash = e
		c.sends = append(c.sends, e)
		return
	}
	if k := len(c.recvs); k < len(c.sends) {
		t.hash = mix(mix(t.hash, 19), c.sends[k])
		c.recvs = append(c.recvs, t.hash)
		return
	}
	t.hash = mix(mix(t.hash, 20), c.shut)
}
