package eng

import "fmt"

// Opt bounds one exploration of nondeterministic choices.
type Opt struct {
	Maps      bool                  // branch on map iteration order
	MapDev    int                   // at most this many iterations deviate from slot 0 (bound on deviations)
	MaxPoints int                   // branch at the first MaxPoints choice points only (0: all)
	MaxExec   int                   // stop after this many executions (0: none); a hit is reported as incomplete
	IntDom    func(n int) []int     // values tried for a draw from [0,n); nil: all
	Floats    []float64             // values tried for Float64 draws
	Norms     []float64             // values tried for NormFloat64 draws
	NormDom   func(k int) []float64 // values tried for the k-th draw if that is NormFloat64; nil: Norms
	MaxDraws  int                   // more draws than this in one execution is reported as a livelock
}

type point struct {
	n, c  int
	isMap bool
}

// Chooser replays a prefix of choices and takes default choices afterwards.
type Chooser struct {
	opt    Opt
	prefix []int
	pts    []point
	devs   int
	draws  int
	Log    []string

	visited map[uint64]bool // states seen in this exploration
	frozen  bool            // the rest has been explored
}

// Livelock is the panic value used when one execution draws without end.
type Livelock struct{ Draws int }

func (l Livelock) Error() string { return fmt.Sprintf("no progress after %d random draws", l.Draws) }

// Choose returns a value in [0,n); the explorer tries all of them.
func (ch *Chooser) Choose(n int) int { return ch.choose(n, false) }

func (ch *Chooser) choose(n int, isMap bool) int {
	if n <= 0 {
		panic(fmt.Sprintf("choose(%d)", n))
	}
	if ch.frozen {
		return 0
	}
	i := len(ch.pts)
	c := 0
	if i < len(ch.prefix) {
		c = ch.prefix[i]
		if c >= n {
			panic(divergence{i, c, n})
		}
	}
	ch.pts = append(ch.pts, point{n, c, isMap})
	if isMap && c != 0 {
		ch.devs++
	}
	return c
}

type divergence struct{ i, c, n int }

func (d divergence) Error() string {
	return fmt.Sprintf("replay diverged at point %d: choice %d of %d", d.i, d.c, d.n)
}

func (ch *Chooser) chooseMap(n int) int {
	if ch.opt.MapDev == 0 {
		return 0
	}
	return ch.choose(n, true)
}

func (ch *Chooser) tick() {
	ch.draws++
	m := ch.opt.MaxDraws
	if m == 0 {
		m = 20000
	}
	if ch.draws > m {
		panic(Livelock{ch.draws})
	}
}

var defFloats = []float64{0, 0.25, 0.5, 0.75, 1 - 1.0/(1<<53)}
var defNorms = []float64{-1, 0.5, 1}

func (ch *Chooser) intn(n int) int {
	ch.tick()
	if ch.opt.IntDom != nil {
		d := ch.opt.IntDom(n)
		return d[(ch.Choose(len(d))+ch.rotation())%len(d)]
	}
	return (ch.Choose(n) + ch.rotation()) % n
}

// rotation makes redraw loops progress by default, whatever the number of
// draws in each round.
func (ch *Chooser) rotation() int { return ch.draws - 1 + (ch.draws-1)/64 }

func (ch *Chooser) draw(kind string, n int64) (int64, float64, bool) {
	switch kind {
	case "intn":
		v := ch.intn(int(n))
		ch.Log = append(ch.Log, fmt.Sprintf("intn(%d)=%d", n, v))
		return int64(v), 0, true
	case "float":
		ch.tick()
		fs := ch.opt.Floats
		if fs == nil {
			fs = defFloats
		}
		v := fs[ch.Choose(len(fs))]
		ch.Log = append(ch.Log, fmt.Sprintf("float=%v", v))
		return 0, v, true
	case "norm":
		ch.tick()
		fs := ch.opt.Norms
		if ch.opt.NormDom != nil {
			fs = ch.opt.NormDom(ch.draws - 1)
		} else if fs == nil {
			fs = defNorms
		}
		v := fs[ch.Choose(len(fs))]
		ch.Log = append(ch.Log, fmt.Sprintf("norm=%v", v))
		return 0, v, true
	case "int63":
		ch.tick()
		v := []int64{0, 1, 2, 3, 1 << 62}[ch.Choose(5)]
		return v, 0, true
	case "seed":
		return 0, 0, true
	}
	return 0, 0, false
}

// Call runs code under test with its random draws and map orders decided by ch.
// Panics are returned.
func (ch *Chooser) Call(f func()) (p *Panic) {
	old := cur
	defer func() {
		cur = old
		if r := recover(); r != nil {
			if d, ok := r.(divergence); ok {
				panic(d)
			}
			p = newPanic(r)
		}
	}()
	cur = ch
	f()
	return nil
}

// Explore runs body once for every combination of choices within the bounds.
func (c *Ctx) Explore(opt Opt, body func(ch *Chooser)) (execs int, complete bool) {
	if opt.MapDev > 0 {
		opt.Maps = true
	}
	var prefix []int
	complete = true
	visited := map[uint64]bool{}
	defer func() {
		for k := range visited { // states of explored schedules
			c.states[k^hash(c.cur)] = struct{}{}
		}
	}()
	for {
		ch := &Chooser{opt: opt, prefix: prefix, visited: visited}
		c.progress.Add(1)
		had := len(c.fails)
		body(ch)
		execs++
		c.Trans(len(ch.pts))
		if len(c.fails) > had {
			return execs, false
		}
		// next prefix: advance the last choice that still has an alternative
		i := len(ch.pts) - 1
		if opt.MaxPoints > 0 && i >= opt.MaxPoints {
			i = opt.MaxPoints - 1
			c.capped("choice points beyond the bound take their default")
		}
		next := -1
		for ; i >= 0; i-- {
			p := ch.pts[i]
			if p.c+1 >= p.n {
				continue
			}
			if p.isMap {
				d := 0
				for _, q := range ch.pts[:i] {
					if q.isMap && q.c != 0 {
						d++
					}
				}
				if d+1 > opt.MapDev {
					continue
				}
			}
			next = i
			break
		}
		if next < 0 {
			return execs, complete
		}
		prefix = make([]int, next+1)
		for j := 0; j < next; j++ {
			prefix[j] = ch.pts[j].c
		}
		prefix[next] = ch.pts[next].c + 1
		if opt.MaxExec > 0 && execs >= opt.MaxExec {
			c.capped("execution cap reached")
			return execs, false
		}
		if c.Expired() {
			return execs, false
		}
	}
}

// Choices returns the choice sequence taken, for replay.
func (ch *Chooser) Choices() []int {
	r := make([]int, len(ch.pts))
	for i, p := range ch.pts {
		r[i] = p.c
	}
	return r
}

// ReplayNorms returns a chooser that draws the given NormFloat64 values.
func ReplayNorms(v []float64) *Chooser {
	return &Chooser{opt: Opt{MaxDraws: 20000, NormDom: func(k int) []float64 {
		if k < len(v) {
			return v[k : k+1]
		}
		return []float64{1}
	}}}
}
