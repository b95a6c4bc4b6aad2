// Package eng is a small explicit-state / stateless model-checking engine: it
// enumerates cases and nondeterministic choices (random draws, map iteration
// order), records what was covered and turns disagreements with a reference
// model into replayable violations.
package eng

import (
	"math"
	"math/rand"
	"sync"
	_ "unsafe"

	"verif/mc/sched"
)

// The two seams below exist only in the overlaid standard library (see
// tools/overlay.py): every draw of math/rand's global source and the starting
// point of every map iteration is decided by the explorer.

//go:linkname verifIter internal/runtime/maps.VerifIter
var verifIter func(used uint64) uint64

var (
	cur    *Chooser // non-nil while code under test runs inside Chooser.Call
	mapRot uint64   // constant rotation used when no Chooser decides
)

func iterHook(used uint64) uint64 {
	if sched.Active() {
		return mapRot
	}
	ch := cur
	if ch != nil && ch.opt.Maps && used > 1 {
		n := used
		if n > 8 {
			n = 8
		}
		return uint64(ch.chooseMap(int(n)))
	}
	return mapRot
}

func randHook(kind string, n int64) (int64, float64, bool) {
	if kind == "perm" { // asked by Perm and Shuffle before they draw numbers
		if cur == nil && !sched.Active() {
			return 0, 0, true
		}
		kind = "seed"
	}
	if sched.Active() { // on a goroutine of the explored program
		return sched.Draw(kind, n)
	}
	ch := cur
	if ch == nil {
		return fixedDraw(kind, n)
	}
	return ch.draw(kind, n)
}

// Draws that nobody explores come from a sequence that starts anew with each
// case and each rand.Seed.
var fixed struct {
	sync.Mutex
	state uint64
}

func resetDraws() {
	fixed.Lock()
	fixed.state = 1
	fixed.Unlock()
}

func fixedDraw(kind string, n int64) (int64, float64, bool) {
	if kind == "seed" {
		resetDraws()
		return 0, 0, true
	}
	next := func() uint64 { // splitmix64
		fixed.state += 0x9e3779b97f4a7c15
		z := fixed.state
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	fixed.Lock()
	defer fixed.Unlock()
	switch kind {
	case "intn":
		if n <= 0 {
			return 0, 0, false
		}
		return int64(next()>>1) % n, 0, true
	case "float":
		return 0, float64(next()>>40) / (1 << 24), true
	case "norm":
		u, v := float64(next()>>11+1)/(1<<53), float64(next()>>11)/(1<<53)
		return 0, math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v), true
	}
	return int64(next() >> 1), 0, true
}

func init() {
	rand.VerifHook = randHook
	verifIter = iterHook
}

// InstallHooks (re)installs the seams; UninstallHooks lets the runtime decide.
func InstallHooks()   { verifIter = iterHook; rand.VerifHook = randHook }
func UninstallHooks() { verifIter = nil; rand.VerifHook = nil }

// SetMapRot fixes the slot at which every map iteration starts (all iteration
// orders the runtime can produce for maps of up to eight entries are reached
// by rotations 0..7).
func SetMapRot(r int) { mapRot = uint64(r) }

// Draws answers the random draws of explored goroutines.
type Draws func(who uint64, k int, kind string, n int64) (int64, float64, bool)

// Sched runs main and the goroutines it starts under the explorer's control:
// ch decides who goes on and, unless draw is given, what is drawn. A nil ch
// takes the first choice everywhere. States reached before, by operations that
// differ only in the order of independent ones, are not explored again (which
// needs draws that depend on the goroutine only).
func (ch *Chooser) Sched(cpus, preempt int, locks bool, maxSteps int, draw Draws, main func()) (r *sched.Result, p *Panic) {
	cfg := sched.Config{CPUs: cpus, Preempt: preempt, Locks: locks, MaxSteps: maxSteps, Draw: draw, Choose: func(int) int { return 0 }}
	if ch != nil {
		cfg.Choose = ch.Choose
		if draw == nil {
			cfg.Draw = func(_ uint64, _ int, kind string, n int64) (int64, float64, bool) { return ch.draw(kind, n) }
		} else {
			cfg.Seen = ch.seen
		}
	}
	p = Try(func() { r = sched.Run(cfg, main) })
	return r, p
}

// SchedFirst runs main under the scheduler's first schedule, with draws decided by ch.
func (ch *Chooser) SchedFirst(cpus, maxSteps int, main func()) (r *sched.Result, p *Panic) {
	cfg := sched.Config{CPUs: cpus, MaxSteps: maxSteps, Choose: func(int) int { return 0 },
		Draw: func(_ uint64, _ int, kind string, n int64) (int64, float64, bool) { return ch.draw(kind, n) }}
	p = Try(func() { r = sched.Run(cfg, main) })
	return r, p
}

func (ch *Chooser) seen(key uint64) {
	if ch.frozen || len(ch.pts) < len(ch.prefix) {
		return
	}
	if ch.visited[key] {
		ch.frozen = true
		return
	}
	ch.visited[key] = true
}

// Pruned tells whether this execution joined one explored before.
func (ch *Chooser) Pruned() bool { return ch.frozen }

// SchedFixed runs main under the scheduler's first schedule; each draw depends
// on the goroutine and on the number of draws it has made.
func SchedFixed(cpus, maxSteps int, main func()) (*sched.Result, *Panic) {
	return (*Chooser)(nil).Sched(cpus, 0, false, maxSteps, FixedDraws, main)
}

// FixedDraws gives draws which depend on the goroutine and its count of draws.
func FixedDraws(who uint64, k int, kind string, n int64) (int64, float64, bool) {
	h := who*0x9e3779b97f4a7c15 + uint64(k)*0xbf58476d1ce4e5b9 + 1
	h ^= h >> 31
	h *= 0x94d049bb133111eb
	h ^= h >> 29
	switch kind {
	case "intn":
		if n <= 0 {
			return 0, 0, false
		}
		return int64(h>>1) % n, 0, true
	case "float":
		return 0, float64(h>>40) / (1 << 24), true
	case "norm":
		return 0, float64(int64(h>>40)-(1<<23)) / (1 << 22), true
	}
	return int64(h >> 1), 0, true
}
