package props

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C34", Run: runC34,
		Rule:   "every multiset of up to n rows over small alphabets of a feature and the class (neighbouring and huge floating point numbers included), every sample size, maximum depth and number of trees, every outcome of the random draws up to a number of choice points: the real trees are walked beside every sample that could have grown them, and the scores of every combination of values compared with the published formula; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one split",
		Assume: []string{"further draws than the bound on choice points take different values in turn", "a Float64 draw is one of 0, 0.5 and the largest below 1", "sample sizes are at least 2 where the formula is checked"}})
}

// isoC is the average path length of an unsuccessful search among n points.
func isoC(n int) float64 {
	if n <= 1 {
		return 0
	}
	return 2*(math.Log(float64(n-1))+0.5772156649) - 2*float64(n-1)/float64(n)
}

func isoForest(f *trees.IsolationForest) []*cart {
	v := reflect.ValueOf(f).Elem()
	for i := 0; i < v.NumField(); i++ {
		if k := v.Field(i).Kind(); k != reflect.Slice {
			continue
		}
		r := []*cart{}
		for j := 0; j < v.Field(i).Len(); j++ {
			if n := cartOf(v.Field(i).Index(j)); n != nil {
				r = append(r, n)
			}
		}
		if len(r) > 0 && len(r) == v.Field(i).Len() {
			return r
		}
	}
	return nil
}

func isoParts(x [][]float64, rows []int, n *cart) (l, r []int) {
	for _, i := range rows {
		if x[i][n.f] <= n.thr {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

// isoGrown decides whether a sample (row numbers, with repetitions) could
// have grown the tree.
func isoGrown(x [][]float64, n *cart, sample []int, depth, max int) error {
	same := true
	for _, i := range sample {
		same = same && feq2(x[i], x[sample[0]])
	}
	if n == nil {
		if depth < max && !same {
			return fmt.Errorf("different rows %v are not separated at depth %d", sample, depth)
		}
		return nil
	}
	if depth >= max {
		return fmt.Errorf("split at depth %d, the maximum is %d", depth, max)
	}
	if n.f < 0 || n.f >= len(x[0]) {
		return fmt.Errorf("split on feature %d of %d", n.f, len(x[0]))
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, i := range sample {
		lo, hi = math.Min(lo, x[i][n.f]), math.Max(hi, x[i][n.f])
	}
	if !(n.thr >= lo && n.thr < hi) {
		return fmt.Errorf("threshold %v outside of [%v,%v), the values of feature %d in rows %v", n.thr, lo, hi, n.f, sample)
	}
	l, r := isoParts(x, sample, n)
	for _, s := range []struct {
		n    *cart
		rows []int
		size float64
	}{{n.l, l, n.lp}, {n.r, r, n.rp}} {
		if float64(len(s.rows)) != s.size {
			return fmt.Errorf("%v rows recorded for %v", s.size, s.rows)
		}
		if err := isoGrown(x, s.n, s.rows, depth+1, max); err != nil {
			return err
		}
	}
	return nil
}

func feq2(a, b []float64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isoPath is the path length of a row; a leaf of more than one row stands for a tree of its own.
func isoPath(n *cart, x []float64) float64 {
	for d := 1.0; ; d++ {
		size := n.rp
		next := n.r
		if x[n.f] <= n.thr {
			size, next = n.lp, n.l
		}
		if next == nil {
			return d + isoC(int(size))
		}
		n = next
	}
}

func isoOne(c *eng.Ctx, ch *eng.Chooser, x [][]float64, kind, nTrees, max, sub, fits int, seen map[string]bool) error {
	n, dim := len(x), len(x[0])
	feats, cls := make([][]float64, n), make([]float64, n)
	for i := range x {
		feats[i], cls[i] = x[i][:dim-1], x[i][dim-1]
	}
	t := cartTab(feats, cls, 0)
	g, w, _ := makeKind(kind, t)
	if g == nil {
		return nil
	}
	if kind == 8 {
		t = w
	}
	f := trees.NewIsolationForest(nTrees, max, sub)
	p := ch.Call(func() {
		for i := 0; i < fits; i++ {
			f.Fit(g)
		}
	})
	if p != nil {
		return fmt.Errorf("Fit: %v", p)
	}
	forest := isoForest(&f)
	if forest == nil {
		c.Count("forests of unknown structure", 1)
		seen["unknown"] = true
	} else if len(forest) != nTrees {
		return fmt.Errorf("%d trees instead of %d", len(forest), nTrees)
	}
	// columns as the forest numbers them: its own order or any other, the class last
	own := []int{}
	for _, a := range base.NonClassFloatAttributes(g) {
		for j, d := range t.A {
			if d.GetName() == a.GetName() && j != 0 {
				own = append(own, j-1)
			}
		}
	}
	own = append(own, dim-1)
	order := [][]int{own}
	perms(dim, func(p []int) { order = append(order, append([]int{}, p...)) })
	// queries: every combination of values seen, in two column orders
	vals := make([][]float64, dim)
	for j := range vals {
		set := map[float64]bool{-1e9: true, 1e9: true}
		for i := range x {
			set[x[i][j]] = true
		}
		for v := range set {
			vals[j] = append(vals[j], v)
		}
		sortFloats(vals[j])
	}
	var q [][]float64
	radix := []int{}
	for _, v := range vals {
		radix = append(radix, len(v))
	}
	tuples(radix, func(ix []int) {
		row := []float64{}
		for j := range ix {
			row = append(row, vals[j][ix[j]])
		}
		q = append(q, row)
	})
	q = append(q, x...) // equal rows again
	qf, qc := make([][]float64, len(q)), make([]float64, len(q))
	for i := range q {
		qf[i], qc[i] = q[i][:dim-1], q[i][dim-1]
	}
	qt := cartTab(qf, qc, 0)
	qt.A = t.A
	var scores []float64
	for lay := 0; lay < 2; lay++ {
		if lay == 1 {
			qt = reverseCols(qt)
		}
		qg := buildDense(qt, 0)
		var s []float64
		if p := eng.Try(func() { s = f.Predict(qg) }); p != nil {
			return fmt.Errorf("Predict: %v", p)
		}
		if len(s) != len(q) {
			return fmt.Errorf("%d scores for %d rows", len(s), len(q))
		}
		if lay == 1 {
			for i := range s {
				if s[i] != scores[i] {
					return fmt.Errorf("row %v scored %v, and %v in another column order", q[i], scores[i], s[i])
				}
			}
		}
		scores = s
	}
	c.Trans(len(q))
	byRow := map[string]float64{}
	for i, s := range scores {
		if !(s >= 0 && s <= 1) {
			return fmt.Errorf("row %v scored %v", q[i], s)
		}
		k := fmt.Sprint(q[i])
		if v, ok := byRow[k]; ok && v != s {
			return fmt.Errorf("equal rows %v scored %v and %v", q[i], v, s)
		}
		byRow[k] = s
	}
	if forest == nil {
		return nil
	}
	var first error
	for _, p := range order {
		err := isoForest1(x, q, scores, p, isoForest(&f), max, sub, seen)
		if err == nil {
			c.Outcome(fmt.Sprint(scores))
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return first
}

func isoForest1(x, q [][]float64, scores []float64, p []int, forest []*cart, max, sub int, seen map[string]bool) error {
	whole := make([]bool, len(forest))
	for ti, n := range forest {
		renumber(n, p)
		whole[ti] = n.l == nil && n.r == nil && int(n.lp+n.rp) != sub
		root := n
		if whole[ti] {
			root = nil
		} else {
			seen[fmt.Sprint("feature ", n.f)] = true
			seen["left"] = seen["left"] || n.l != nil
			seen["right"] = seen["right"] || n.r != nil
			// between which values of the feature?
			below := math.Inf(-1)
			for i := range x {
				if v := x[i][n.f]; v <= n.thr {
					below = math.Max(below, v)
				}
			}
			seen[fmt.Sprint("feature ", n.f, " above ", below)] = true
		}
		var err error
		ok := false
		isoSamples(len(x), sub, func(sample []int) {
			if !ok {
				e := isoGrown(x, root, sample, 0, max)
				ok = e == nil
				if err == nil || ok {
					err = e
				}
			}
		})
		if !ok {
			return fmt.Errorf("tree %d fits no sample of %d rows: %v", ti, sub, err)
		}
	}
	if sub < 2 {
		return nil
	}
	for i, row := range q {
		mean := 0.0
		for ti, n := range forest {
			if whole[ti] {
				mean += isoC(sub)
			} else {
				mean += isoPath(n, row)
			}
		}
		mean /= float64(len(forest))
		if want := math.Pow(2, -mean/isoC(sub)); math.Abs(want-scores[i]) > 1e-9 {
			return fmt.Errorf("row %v scored %v, want %v for the average path length %v", row, scores[i], want, mean)
		}
	}
	return nil
}

// isoSamples enumerates the multisets of k of n things.
func isoSamples(n, k int, f func([]int)) {
	s := make([]int, k)
	var rec func(i, from int)
	rec = func(i, from int) {
		if i == k {
			f(append([]int{}, s...))
			return
		}
		for v := from; v < n; v++ {
			s[i] = v
			rec(i+1, v)
		}
	}
	rec(0, 0)
}

func runC34(c *eng.Ctx) {
	next := math.Nextafter(2, 3)
	type cfg struct{ trees, max, sub, rows, points, fits int }
	cfgs := []cfg{{1, 0, 2, 2, 0, 1}, {1, 1, 2, 3, 9, 1}, {1, 3, 2, 3, 9, 1}, {1, 2, 3, 2, 9, 1}, {1, 3, 1, 2, 0, 1}, {2, 2, 2, 2, 9, 1}, {1, 3, 3, 3, 7, 1}, {1, 1, 2, 2, 9, 2}}
	if c.Thorough() {
		cfgs = append(cfgs, cfg{1, 3, 3, 3, 11, 1}, cfg{1, 4, 4, 3, 9, 1}, cfg{2, 2, 2, 3, 11, 1}, cfg{3, 1, 2, 2, 12, 1}, cfg{1, 3, 4, 4, 8, 1})
	}
	rows := [][][]float64{
		{{0, 1}, {2, 1}, {next, 1}, {2, 5}, {1e308, -1e308}, {-1e308, 1}},
		{{0, 0, 3}, {1, 0, 3}, {0, 2, 3}, {1, 2, 4}},
		{{0, 1}, {2, 1}, {4, 1}},
	}
	for _, al := range rows {
		for _, k := range cfgs {
			isoSamples(len(al), k.rows, func(ms []int) {
				if !c.Mine() {
					return
				}
				x := [][]float64{}
				for _, i := range ms {
					x = append(x, al[i])
				}
				kinds := []int{0}
				if k.rows == 2 && k.trees == 1 {
					kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
				}
				for _, kind := range kinds {
					c.Case("rows %v, %d trees, maximum depth %d, samples of %d, fitted %d times, %s", x, k.trees, k.max, k.sub, k.fits, kindNames[kind])
					c.State(c.CurCase())
					seen := map[string]bool{}
					bad := false
					execs, _ := c.Explore(eng.Opt{Floats: []float64{0, 0.5, 1 - 1.0/(1<<53)}, MaxPoints: k.points, MaxDraws: 400}, func(ch *eng.Chooser) {
						err := isoOne(c, ch, x, kind, k.trees, k.max, k.sub, k.fits, seen)
						if err != nil {
							err = fmt.Errorf("%v (draws %v)", err, ch.Log)
						}
						bad = failErr(c, err) || bad
						c.Trace()
					})
					if bad || seen["unknown"] {
						continue
					}
					// some draws split on each feature that tells rows apart
					for j := range x[0] {
						differ := false
						for i := range x {
							differ = differ || x[i][j] != x[0][j]
						}
						if name := fmt.Sprint("feature ", j); k.max > 0 && k.sub > 1 && differ != seen[name] {
							failErr(c, fmt.Errorf("no draw of %d splits the root on %s, rows that differ there: %v", execs, name, differ))
						}
						// ... and between any two values of it
						vals := []float64{}
						for i := range x {
							vals = append(vals, x[i][j])
						}
						sortFloats(vals)
						distinct := 1
						// (the chosen draws reach the middle and the end of a range)
						even := math.Abs(vals[0]) < 100 && math.Abs(vals[len(vals)-1]) < 100
						for i := 1; i < len(vals); i++ {
							even = even && (vals[i] == vals[i-1] || vals[i]-vals[i-1] > 0.5)
						}
						for i := 1; i < len(vals) && even; i++ {
							if vals[i] == vals[i-1] {
								continue
							}
							distinct++
							if k.max > 0 && k.sub > 1 && !seen[fmt.Sprint("feature ", j, " above ", vals[i-1])] {
								failErr(c, fmt.Errorf("no draw of %d splits the root on feature %d between %v and %v", execs, j, vals[i-1], vals[i]))
							}
						}
						// ... and splits what is on either side of it
						for _, side := range []string{"left", "right"} {
							if k.max > 1 && k.sub > 2 && distinct > 2 && !seen[side] {
								failErr(c, fmt.Errorf("no draw of %d splits the %s side of the root's split", execs, side))
							}
						}
					}
				}
			})
		}
	}
	c.Sample("rows [[0 1] [2 1]], samples of 2: the draws 0,0 give a tree without splits, 0,1 a split on the feature")
	c34large(c)
	c34rare(c)
}
