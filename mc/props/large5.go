package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

// ownOrder is the order in which a grid lists its features, as columns of x
// (the class is column at of the table).
func ownOrder(g base.FixedDataGrid, t *Tab, at int) []int {
	own := []int{}
	for _, a := range base.NonClassFloatAttributes(g) {
		for j, d := range t.A {
			if d.GetName() == a.GetName() && j != at {
				if j > at {
					j--
				}
				own = append(own, j)
			}
		}
	}
	return own
}

func c33large(c *eng.Ctx) {
	for _, crit := range []string{"gini", "entropy", "mae", "mse"} {
		for _, s := range []struct{ n, dim, classes int }{{9, 1, 2}, {17, 4, 3}, {33, 2, 9}, {40, 12, 2}, {65, 5, 17}, {130, 3, 4}, {130, 30, 3}} {
			for pat := 0; pat < 4; pat++ {
				for tgt := 0; tgt < 3; tgt++ {
					for _, max := range []int{-1, 1, 2, 3, 5} {
						if !c.Mine() {
							continue
						}
						x, y := bigPoints(s.n, s.dim, pat), make([]float64, s.n)
						labels := []int64{}
						for i := 0; i < s.classes; i++ {
							labels = append(labels, int64((i+1)%s.classes*3-1))
						}
						for i := range y {
							h := mix(uint64(i + pat*1000))
							switch tgt {
							case 1: // of the features
								h = uint64(math.Abs(x[i][0]) + 2*math.Abs(x[i][s.dim/2]))
							case 2: // mostly one
								h %= 3
								h /= 2
							}
							y[i] = float64(labels[h%uint64(s.classes)])
							if !isClassifier(crit) {
								y[i] = y[i]/7 + float64(h%101)
							}
						}
						kind := (s.n + pat + tgt + max + 1) % numKinds
						at := []int{0, s.dim, s.dim / 2}[(pat+tgt)%3]
						c.Case("large %d rows of %d features, %d classes, pattern %d, targets %d, %s, maximum depth %d, %s, class in column %d", s.n, s.dim, s.classes, pat, tgt, crit, max, kindNames[kind], at)
						c.State(c.CurCase())
						failErr(c, short(try(func() error {
							t := cartTab(x, y, at)
							g, w, _ := makeKind(kind, t)
							if kind == 8 {
								t = w
							}
							m := cartMake(crit, max, labels)
							if tgt == 0 { // fitted before with other rows
								o := &Tab{A: t.A, Class: t.Class, V: t.V[:s.n/2]}
								if err := m.Fit(buildDense(o, 0)); err != nil {
									return err
								}
							}
							if err := m.Fit(g); err != nil {
								return err
							}
							// queries: the training rows, mixed ones, and the thresholds
							q := bigQuery(t)
							own := ownOrder(g, t, at)
							if cartRoot(m) == nil {
								c.Count("trees of unknown structure", 1)
								return nil
							}
							var first error
							var root *cart
							for _, p := range [][]int{own, seq(s.dim)} {
								root = cartRoot(m)
								renumber(root, p)
								eps := 1e-9
								for _, v := range y {
									eps = math.Max(eps, 1e-9*math.Abs(v)*math.Max(1, math.Abs(v)))
								}
								splits := 0
								err := checkCart(crit, root, x, y, seq(s.n), 1, max, &splits)
								if err != nil && root.l == nil && root.r == nil && root.lp == root.rp {
									err = unsplit(crit, x, y, seq(s.n), 1, max, eps)
									if err == nil {
										err = leafValue(crit, y, seq(s.n), root.lp)
									}
								}
								if err == nil {
									first = nil
									c.Outcome(fmt.Sprint(splits))
									break
								}
								if first == nil {
									first = err
								}
							}
							if first != nil {
								return first
							}
							i := 0
							var add func(n *cart)
							add = func(n *cart) {
								if n == nil {
									return
								}
								for _, v := range []float64{n.thr, math.Nextafter(n.thr, -1e308)} {
									r := append([]string{}, t.V[i%s.n]...)
									j := n.f
									if j >= at {
										j++
									}
									r[j] = fb(v)
									q.V = append(q.V, r)
									i++
								}
								add(n.l)
								add(n.r)
							}
							add(root)
							feats := []int{}
							for j := range t.A {
								if j != at {
									feats = append(feats, j)
								}
							}
							for lay := 0; lay < 2; lay++ {
								qt := q
								if lay == 1 {
									qt = reverseCols(q)
								}
								pred := cartPredict(m, buildDense(qt, lay))
								if len(pred) != q.rows() {
									return fmt.Errorf("%d predictions for %d rows", len(pred), q.rows())
								}
								for i := range q.V {
									if want := cartEnd(root, rowFloats(q, i, feats)); pred[i] != want {
										return fmt.Errorf("row %d predicted as %v, its leaf says %v (column order %d)", i, pred[i], want, lay)
									}
								}
								c.Trans(q.rows())
							}
							c.Trace()
							return nil
						})))
					}
				}
			}
		}
	}
}

// isoCould checks what holds for every sample a tree could have grown from.
func isoCould(x [][]float64, n *cart, rows []int, depth, max int) error {
	if depth >= max {
		return fmt.Errorf("split at depth %d, the maximum is %d", depth, max)
	}
	if n.f < 0 || n.f >= len(x[0]) {
		return fmt.Errorf("split on feature %d of %d", n.f, len(x[0]))
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, i := range rows {
		lo, hi = math.Min(lo, x[i][n.f]), math.Max(hi, x[i][n.f])
	}
	if !(n.thr >= lo && n.thr < hi) {
		return fmt.Errorf("threshold %v outside of [%v,%v), the values of feature %d of the rows which get there", n.thr, lo, hi, n.f)
	}
	l, r := isoParts(x, rows, n)
	for _, s := range []struct {
		n    *cart
		rows []int
		size float64
	}{{n.l, l, n.lp}, {n.r, r, n.rp}} {
		if len(s.rows) == 0 || s.size < 1 || s.size != math.Floor(s.size) {
			return fmt.Errorf("%v rows recorded on a side with %d rows", s.size, len(s.rows))
		}
		if s.n != nil {
			if s.n.lp+s.n.rp != s.size {
				return fmt.Errorf("%v rows recorded, %v and %v on the sides of their split", s.size, s.n.lp, s.n.rp)
			}
			if err := isoCould(x, s.n, s.rows, depth+1, max); err != nil {
				return err
			}
		} else if s.size > 1 && depth+1 < max {
			// only equal rows may stay together; some must be equal or drawn twice
			continue
		}
	}
	return nil
}

func c34large(c *eng.Ctx) {
	for _, s := range []struct{ n, dim, trees, max, sub int }{{9, 2, 10, 4, 8}, {17, 1, 5, 20, 17}, {65, 4, 100, 8, 64}, {300, 3, 20, 10, 256}, {300, 12, 7, 3, 100}, {130, 2, 3, 100, 300}, {40, 5, 33, 6, 2}, {300, 2, 128, 8, 16}} {
		for pat := 0; pat < 4; pat++ {
			for lay := 0; lay < 3; lay++ {
				if !c.Mine() {
					continue
				}
				x := bigPoints(s.n, s.dim+1, pat) // the class counts too
				build := func(x [][]float64) *Tab {
					f, k := make([][]float64, len(x)), make([]float64, len(x))
					for i := range x {
						f[i], k[i] = x[i][:s.dim], x[i][s.dim]
					}
					return cartTab(f, k, 0)
				}
				t := build(x)
				kind := (s.n + pat + lay*3) % numKinds
				g, w, _ := makeKind(kind, t)
				if kind == 8 {
					t = w
				}
				c.Case("large %d rows of %d features, pattern %d, %d trees, maximum depth %d, samples of %d, %s", s.n, s.dim, pat, s.trees, s.max, s.sub, kindNames[kind])
				c.State(c.CurCase())
				c.Explore(eng.Opt{MaxExec: 3, MaxPoints: 5, MaxDraws: 1 << 21}, func(ch *eng.Chooser) {
					failErr(c, short(try(func() error {
						f := trees.NewIsolationForest(s.trees, s.max, s.sub)
						if p := ch.Call(func() {
							for r := 0; r < 1+lay%2; r++ {
								f.Fit(g)
							}
						}); p != nil {
							return fmt.Errorf("Fit: %v", p)
						}
						q := append(append([][]float64{}, x...), bigPoints(30, s.dim+1, (pat+1)%4)...)
						qt := build(q)
						qt.A = t.A
						scores := f.Predict(buildDense(qt, 0))
						other := f.Predict(buildDense(reverseCols(qt), 1))
						if len(scores) != len(q) || len(other) != len(q) {
							return fmt.Errorf("%d and %d scores for %d rows", len(scores), len(other), len(q))
						}
						byRow := map[string]float64{}
						for i, v := range scores {
							if !(v >= 0 && v <= 1) || v != other[i] {
								return fmt.Errorf("row %d scored %v, and %v in another column order", i, v, other[i])
							}
							k := fmt.Sprint(q[i])
							if o, ok := byRow[k]; ok && o != v {
								return fmt.Errorf("equal rows scored %v and %v", o, v)
							}
							byRow[k] = v
						}
						c.Trans(len(q))
						if isoForest(&f) == nil {
							c.Count("forests of unknown structure", 1)
							return nil
						}
						var first error
						for _, p := range [][]int{append(ownOrder(g, t, 0), s.dim), seq(s.dim + 1)} {
							err := func() error {
								forest := isoForest(&f)
								if len(forest) != s.trees {
									return fmt.Errorf("%d trees instead of %d", len(forest), s.trees)
								}
								whole := make([]bool, len(forest))
								for i, n := range forest {
									renumber(n, p)
									whole[i] = n.l == nil && n.r == nil && int(n.lp+n.rp) != s.sub
									if whole[i] {
										continue // a sample of equal rows
									}
									if int(n.lp+n.rp) != s.sub {
										return fmt.Errorf("tree %d was grown from %v rows, not %d", i, n.lp+n.rp, s.sub)
									}
									if err := isoCould(x, n, seq(s.n), 0, s.max); err != nil {
										return fmt.Errorf("tree %d: %v", i, err)
									}
								}
								for r, row := range q {
									mean := 0.0
									for i, n := range forest {
										if whole[i] {
											mean += isoC(s.sub)
										} else {
											mean += isoPath(n, row)
										}
									}
									mean /= float64(len(forest))
									if want := math.Pow(2, -mean/isoC(s.sub)); math.Abs(want-scores[r]) > 1e-9 {
										return fmt.Errorf("row %d scored %v, want %v for the average path length %v", r, scores[r], want, mean)
									}
								}
								return nil
							}()
							if err == nil {
								first = nil
								break
							}
							if first == nil {
								first = err
							}
						}
						if first == nil {
							c.Trace()
						}
						return first
					})))
				})
			}
		}
	}
}

func c35large(c *eng.Ctx) {
	treeBig(c, []int{9, 33, 100}, func(t *Tab, what string) {
		m := len(t.A) - 1
		ks := map[int]bool{1: true, 2: true, m - 1: true, m: true, m + 1: true}
		for k := 1; k <= m+1; k++ {
			if !ks[k] {
				continue
			}
			kind := (t.rows() + m + k) % numKinds
			g, shown, _ := makeKind(kind, t)
			if g == nil || kind == 8 || !sameCols(shown, t) || shown.rows() != t.rows() {
				g, kind = buildDense(t, k&1), 0
			}
			c.Case("%s, random tree of %d attributes, %s", what, k, kindNames[kind])
			c.State(c.CurCase())
			c.Explore(eng.Opt{MaxPoints: 4, MaxDraws: 100000, MaxExec: 3}, func(ch *eng.Chooser) {
				failErr(c, short(try(func() error {
					tree := trees.NewRandomTree(k)
					var err error
					if p := ch.Call(func() { err = tree.Fit(g) }); p != nil || err != nil {
						return fmt.Errorf("%v %v", p, err)
					}
					if err := walkTree(t, tree.Root, seq(t.rows()), seq(m), func(n *trees.DecisionTreeNode, rows, cols []int) error {
						if len(classCounts(t, rows)) == 1 || len(cols) == 0 {
							if n.Children != nil {
								return fmt.Errorf("node %v with columns %v was split", n.ClassDist, cols)
							}
							return nil
						}
						rule := n.SplitRule
						if n.Children == nil {
							rule = nil
						}
						c.Trans(1)
						if k > 2 && len(cols) > 9 && len(cols)-k > 2 {
							return nil
						}
						return ruleOfSome(t, rows, cols, k, rule)
					}); err != nil {
						return err
					}
					q := bigQuery(t)
					p, e := tree.Predict(buildDense(q, 0))
					c.Outcome(fmt.Sprint(k, len(ruleThresholds(tree.Root, nil))))
					c.Trace()
					return checkTreePredict(q, p, tree.Root, p, e)
				})))
			})
		}
		if t.rows() > 33 {
			return
		}
		for _, s := range []struct{ size, k, cpus, lay int }{{2, m, 2, 0}, {5, (m + 1) / 2, 1, 1}, {12, 1, 3, 0}, {20, m, 1, 1}, {7, m - 1, 1, 0}, {3, m + 1, 2, 0}} {
			c35forest(c, t, s.lay, s.size, s.k, s.cpus, 2)
		}
	})
}

// c36large: many members, features, classes and query rows; one schedule and
// a few which switch at the first opportunities.
func c36large(c *eng.Ctx) {
	feats0, cats0, steps0 := bagFeats, bagCats, maxSteps
	defer func() { bagFeats, bagCats, maxSteps = feats0, cats0, steps0 }()
	for _, s := range []struct{ models, cpus, all, feats, cats, rows int }{
		{5, 1, 3, 2, 3, 9}, {9, 2, 9, 5, 5, 33}, {12, 8, 17, 16, 12, 65}, {17, 4, 6, 6, 2, 130}, {33, 3, 5, 1, 40, 20}, {64, 2, 3, 0, 4, 17}, {10, 33, 12, 3, 9, 40}, {16, 16, 20, 0, 3, 300}, {6, 2, 4, 9, 3, 20}, {300, 3, 3, 0, 3, 9}, {600, 2, 3, 2, 2, 5}, {8, 3, 3, 1, 4, 24},
	} {
		for pat := 0; pat < 8; pat++ {
			if s.models > 256 && pat < 4 {
				continue
			}
			if !c.Mine() {
				continue
			}
			bagFeats, maxSteps = s.all, 10000+1000*s.models
			bagCats = nil
			for i := 0; i < s.cats; i++ {
				bagCats = append(bagCats, fmt.Sprintf("k%d", (i*7+3)%(s.cats+5)+10*i))
			}
			v := make([][]int, s.models)
			for m := range v {
				for r := 0; r < s.rows; r++ {
					h := int(mix(uint64(m*s.rows+r+pat*77777)) % uint64(s.cats))
					switch pat {
					case 1: // a bare majority
						h = (r + m*2/(s.models+1)) % s.cats
					case 2: // the last members agree
						if m > s.models/2 {
							h = r % s.cats
						}
					case 3: // the first members agree
						if m <= s.models/2 {
							h = (r + 1) % s.cats
						}
					case 4: // all agree, on another class for each row
						h = r % s.cats
					case 5: // all but a few agree
						h = r % s.cats
						if m > s.models*6/7 {
							h = (r + 1) % s.cats
						}
					case 6: // exactly as many for two classes
						h = (r + m%2) % s.cats
					case 7: // as many for each class
						h = (r + m) % s.cats
					}
					v[m] = append(v[m], h)
				}
			}
			bc := bagCase{s.models, s.cpus, s.feats, 0, v}
			c.Case("large bag of %d members, %d processors, %d of %d features, %d classes, %d rows, votes of pattern %d", s.models, s.cpus, s.feats, s.all, s.cats, s.rows, pat)
			c.State(c.CurCase())
			c.Explore(eng.Opt{MaxExec: 2}, func(ch *eng.Chooser) {
				b, ms, done := bagMake(bc)
				if bagFit(c, bc, b, ms, done, ch, 0) {
					first := ""
					for rot := 0; rot < 4; rot++ {
						eng.SetMapRot(rot)
						ok := bagAsk(c, bc, b, ms, done, ch, 0, bagTab(s.rows, 0.5))
						eng.SetMapRot(0)
						if !ok {
							break
						}
						if rot == 0 {
							first = bagAnswer
						}
						if bagAnswer != first {
							c.Fail("ties", "asked again, the answer is %.200s, was %.200s", bagAnswer, first)
							break
						}
					}
				}
				c.Trace()
			})
		}
	}
}

func c37large(c *eng.Ctx) {
	for _, n := range []int{4, 5, 8, 9, 17, 40, 270} {
		cats := []string{}
		for i := 0; i < n; i++ {
			cats = append(cats, fmt.Sprintf("k%d", (i*7+3)%(n+5)+10*i))
		}
		for at := 0; at <= 3; at++ {
			for _, rows := range []int{n, 33, 100, 300} {
				if n > 256 && (at > 0 || rows > n) {
					continue
				}
				if !c.Mine() {
					continue
				}
				for pat := 0; pat < 3; pat++ {
					labels := []int{}
					for i := 0; i < rows; i++ {
						l := int(mix(uint64(i+pat*991)) % uint64(n))
						if pat == 1 { // some classes don't occur
							l = l / 2 * 2 % n
						}
						labels = append(labels, l)
					}
					t := ovaTab(cats, at, labels)
					c.Case("large training on %d rows, %d classes, class in column %d, pattern %d", rows, n, at, pat)
					c.State(c.CurCase())
					eachKind(t, func(name string, g base.FixedDataGrid, want *Tab) {
						err := try(func() error {
							m, members := ovaMake()
							m.Fit(g)
							c.Trans(1)
							return ovaFitted(want, members())
						})
						if err != nil {
							err = short(fmt.Errorf("%s: %v", name, err))
						}
						if !failErr(c, err) {
							c.Trace()
						}
					})
				}
				for kind := 0; kind < numKinds; kind++ {
					for pat := 0; pat < 4; pat++ {
						if n > 256 && (rows == n || pat != kind%4) {
							continue
						}
						c.Case("large query of kind %d, %d rows, %d classes, class in column %d, scores of pattern %d", kind, rows, n, at, pat)
						c.State(c.CurCase())
						sc := func(r, k int) float64 {
							h := mix(uint64(r*n + k + pat*31))
							switch pat {
							case 0:
								return float64(h%2001)/1000 - 1
							case 1: // hardly different
								return 1 - float64((k+r)%n)*1e-12
							case 2: // all negative and huge
								return -float64(h%1000+1) * 1e200
							}
							if k == (r*3+1)%n {
								return 1e-300
							}
							return 0
						}
						order := seq(n)
						if pat%2 == 1 {
							for i := range order {
								order[i] = (i + n/2) % n
							}
						}
						failErr(c, short(ovaAsk(c, cats, rows, sc, at, order, kind)))
						c.Trace()
					}
				}
			}
		}
	}
}
