package eng

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property and the exploration that decides it.
type Prop struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Assume []string
	Run    func(c *Ctx)
	Serial bool // needs a single process
}

// Registry of all properties.
var Registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Registry[p.ID] = p }

// Panic is a recovered panic of the code under test.
type Panic struct {
	Val   interface{}
	Stack string
}

func (p *Panic) String() string {
	if p == nil {
		return "<no panic>"
	}
	return fmt.Sprintf("panic: %v", p.Val)
}

func newPanic(r interface{}) *Panic {
	if s, ok := r.(stopSentinel); ok {
		panic(s)
	}
	return &Panic{r, shortStack()}
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

// Try runs f and returns its panic, if any.
func Try(f func()) (p *Panic) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(divergence); ok {
				panic(r)
			}
			p = newPanic(r)
		}
	}()
	f()
	return nil
}

// Failure is one disagreement with the property.
type Failure struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Case   string `json:"case"`
}

type stopSentinel struct{}

// Ctx is one (shard of a) run of a property's exploration.
type Ctx struct {
	Prop, Tier string
	Shard, N   int
	All        bool // keep going after failures (development)
	Scratch    string

	idx      int
	cur      string
	curBuf   []byte
	progress atomic.Uint64
	states   map[uint64]struct{}
	trans    uint64
	traces   uint64
	outcomes map[uint64]struct{}
	samples  []string
	fails    []Failure
	failSigs map[string]bool
	known    map[string]bool
	knownHit map[string]bool
	caps     map[string]bool
	counts   map[string]uint64
	start    time.Time
	limit    time.Duration
	expired  bool
}

// Thorough tells whether the deeper bounds are asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Mine numbers the next case and tells whether this shard runs it.
func (c *Ctx) Mine() bool {
	i := c.idx
	c.idx++
	return i%c.N == c.Shard && !c.Expired()
}

// MineKey tells whether this shard runs the case of this name: for cases whose
// number may differ from process to process.
func (c *Ctx) MineKey(a ...interface{}) bool {
	c.idx++
	h := fnv.New32a()
	fmt.Fprint(h, a...)
	return int(h.Sum32()%uint32(c.N)) == c.Shard && !c.Expired()
}

// Expired tells whether the internal time limit has passed.
func (c *Ctx) Expired() bool {
	if !c.expired && time.Since(c.start) > c.limit {
		c.expired = true
		c.capped("internal time limit reached")
	}
	return c.expired
}

func (c *Ctx) capped(why string) { c.caps[why] = true }

// Case names the execution about to run (kept across crashes).
func (c *Ctx) Case(format string, a ...interface{}) {
	if len(a) == 0 {
		c.cur = format
	} else {
		c.cur = fmt.Sprintf(format, a...)
	}
	c.progress.Add(1)
	resetDraws()
	if c.curBuf != nil {
		n := copy(c.curBuf[:len(c.curBuf)-1], c.cur)
		c.curBuf[n] = 0
	}
}

// CurCase returns the current case.
func (c *Ctx) CurCase() string { return c.cur }

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// State records a distinct model state.
func (c *Ctx) State(s string) bool {
	h := hash(s)
	if _, ok := c.states[h]; ok {
		return false
	}
	c.states[h] = struct{}{}
	return true
}

// Trans counts transitions (steps of the real code compared with the model).
func (c *Ctx) Trans(n int) { c.trans += uint64(n) }

// Trace counts one complete execution validated against the implementation.
func (c *Ctx) Trace() { c.traces++; c.progress.Add(1) }

// Outcome records a distinct observed outcome.
func (c *Ctx) Outcome(s string) { c.outcomes[hash(s)] = struct{}{} }

// Count adds to a named counter in the evidence.
func (c *Ctx) Count(name string, n int) { c.counts[name] += uint64(n) }

// Sample keeps a few cases for the evidence file.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.samples) < 3 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

// Fail reports a disagreement. sig identifies the failing input.
func (c *Ctx) Fail(sig string, format string, a ...interface{}) {
	if c.known[sig] {
		c.knownHit[sig] = true
		return
	}
	if c.failSigs[sig] {
		return
	}
	c.failSigs[sig] = true
	c.fails = append(c.fails, Failure{sig, fmt.Sprintf(format, a...), c.cur})
	max := 3
	if c.All {
		max = 200
	}
	if len(c.fails) >= max {
		panic(stopSentinel{})
	}
}

// Known tells whether the failing input sig is a recorded finding.
func (c *Ctx) Known(sig string) bool { return c.known[sig] }

// Result is what one shard reports to the parent.
type Result struct {
	States, Outcomes []uint64
	Trans, Traces    uint64
	Samples          []string
	Fails            []Failure
	KnownHit         []string
	Caps             []string
	Counts           map[string]uint64
	Done             bool
	Cases            int
}

func keys(m map[uint64]struct{}) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

func skeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *Ctx) result(done bool) *Result {
	return &Result{keys(c.states), keys(c.outcomes), c.trans, c.traces, c.samples,
		c.fails, skeys(c.knownHit), skeys(c.caps), c.counts, done, c.idx}
}

// RunShard runs the property in this process.
func RunShard(p *Prop, tier string, shard, n int, all bool, known map[string]bool, scratch, curFile string, limit time.Duration, emit func(*Result)) {
	c := &Ctx{Prop: p.ID, Tier: tier, Shard: shard, N: n, All: all, Scratch: scratch,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, failSigs: map[string]bool{},
		known: known, knownHit: map[string]bool{}, caps: map[string]bool{}, counts: map[string]uint64{},
		start: time.Now(), limit: limit}
	if curFile != "" {
		if f, err := os.OpenFile(curFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600); err == nil {
			f.Truncate(1 << 16)
			if b, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.curBuf = b
			}
			f.Close()
		}
	}
	go func() { // watchdog: a single small case that neither ends nor bounds its memory
		last := uint64(0)
		since := time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if v := c.progress.Load(); v != last {
				last, since = v, time.Now()
			}
			var ms runtime.MemStats
			if time.Since(since) > 2*time.Second {
				runtime.ReadMemStats(&ms)
			}
			if time.Since(since) > 150*time.Second || ms.HeapAlloc > 3<<30 {
				os.Exit(97)
			}
		}
	}()
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopSentinel); ok {
					return
				}
				c.fails = append(c.fails, Failure{"harness-panic", fmt.Sprintf("%v\n%s", r, debug.Stack()), c.cur})
			}
		}()
		p.Run(c)
		done = true
	}()
	emit(c.result(done))
}
