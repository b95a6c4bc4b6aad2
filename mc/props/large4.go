package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func c27large(c *eng.Ctx) {
	for _, n := range []int{9, 17, 33, 65, 130, 300} {
		for _, dim := range []int{1, 2, 5, 9} {
			for pat := 0; pat < 5; pat++ {
				for lay := 0; lay < 2; lay++ {
					if !c.Mine() {
						continue
					}
					var pts [][]float64
					if pat < 4 {
						pts = bigPoints(n, dim, pat)
					} else { // chains of different lengths, visited out of order
						pts = bigPoints(n, dim, 0)
						at := 0.0
						for i := 0; i < n; i++ {
							at++
							if mix(uint64(i))%9 == 0 {
								at += 3
							}
							for j := range pts[i*7%n] {
								pts[i*7%n][j] = 0
							}
							pts[i*7%n][i%dim*0] = at
						}
						if gcd(7, n) != 1 {
							continue
						}
					}
					defs := []AD{{'C', "k", []string{"u", "v"}}}
					for j := 0; j < dim; j++ {
						defs = append(defs, AD{'F', fmt.Sprintf("x%d", j), nil})
					}
					t := mkTab(defs, 0, nil)
					for i, p := range pts {
						r := []string{ub(uint64(i & 1))}
						for _, v := range p {
							r = append(r, fb(v))
						}
						t.V = append(t.V, r)
					}
					kind := (n + dim*3 + pat*5 + lay*7) % numKinds
					g, tt, _ := makeKind(kind, t)
					if g == nil || kind == 8 || lay == 0 {
						g, tt, kind = buildDense(t, 0), t, 0
					}
					cols := features(tt)
					as := []base.Attribute{}
					for _, j := range cols {
						as = append(as, tt.A[j])
					}
					nr := tt.rows()
					for _, m := range metricDefs[:2] {
						ds := make([][]float64, nr)
						all := []float64{}
						for i := range ds {
							ds[i] = make([]float64, nr)
							for j := range ds[i] {
								ds[i][j] = m.ref(rowFloats(tt, i, cols), rowFloats(tt, j, cols))
								if i != j {
									all = append(all, ds[i][j])
								}
							}
						}
						sortFloats(all)
						for _, q := range []float64{0, 0.01, 0.05, 0.2, 0.5, 1} {
							// a radius between two distances
							at := int(q * float64(len(all)-1))
							eps := all[at] + 1e-6
							for at < len(all) && all[at] <= eps {
								at++
							}
							if at < len(all) && all[at]-eps < 1e-6 {
								continue
							}
							for _, min := range []int{1, 2, 3, 4, 7, 12, n / 4, n / 2, n, n + 1} {
								c.Case("large %d points of dimension %d, pattern %d, %s, %s, radius %v, minimum %d", n, dim, pat, kindNames[kind], m.name, eps, min)
								c.State(c.CurCase())
								failErr(c, short(try(func() error {
									cm, err := clustering.DBSCAN(g, clustering.DBSCANParameters{ClusterParameters: clustering.ClusterParameters{Attributes: as, Metric: m.f}, Eps: eps, MinCount: min})
									if err != nil {
										return err
									}
									c.Trans(1)
									c.Trace()
									c.Outcome(fmt.Sprint(len(cm)))
									return checkDensity(cm, func(i, j int) float64 { return ds[i][j] }, nr, eps, min)
								})))
							}
						}
					}
				}
			}
		}
	}
}

func c28large(c *eng.Ctx) {
	for _, n := range []int{9, 16, 17, 65, 300, 1025} {
		for _, k := range []int{1, 2, 3, 8, 9, 16, 65, 300} {
			if k > n || !c.Mine() {
				continue
			}
			for rot := 0; rot < 3; rot++ {
				as := make([]int, n)
				for i := range as {
					as[i] = int(mix(uint64(i*k+rot)) % uint64(k))
					if i < k {
						as[i] = i
					}
				}
				build := func(as []int, id func(int) int, order []int) clustering.ClusterMap {
					m := clustering.ClusterMap{}
					for _, r := range order {
						m[id(as[r])] = append(m[id(as[r])], r)
					}
					return m
				}
				ids := []func(int) int{func(i int) int { return i }, func(i int) int { return k - 1 - i }, func(i int) int { return i*31 - 7 }, func(i int) int { return (i + 1) % (k + 1) }}
				rev := make([]int, n)
				for i := range rev {
					rev[i] = n - 1 - i
				}
				c.Case("large %d rows in %d clusters, %d", n, k, rot)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					eng.SetMapRot(rot)
					defer eng.SetMapRot(0)
					m1 := build(as, ids[0], seq(n))
					for v, id := range ids {
						m2 := build(as, id, [][]int{rev, seq(n)}[v%2])
						inv, err := m2.Invert()
						if err != nil || len(inv) != n {
							return fmt.Errorf("inverse has %d rows of %d: %v", len(inv), n, err)
						}
						for r, a := range as {
							if inv[r] != id(a) {
								return fmt.Errorf("row %d is said to be in cluster %d, it is in %d", r, inv[r], id(a))
							}
						}
						for _, p := range [][2]clustering.ClusterMap{{m1, m2}, {m2, m1}} {
							if eq, err := p[0].Equals(p[1]); !eq || err != nil {
								return fmt.Errorf("the same clusters renumbered (%d) aren't equal: %v", v, err)
							}
						}
						// one row in another cluster
						for _, r := range []int{0, n / 2, n - 1} {
							if k < 2 {
								break
							}
							for _, to := range []int{(as[r] + 1) % k, (as[r] + k - 1) % k, k} {
								b := append([]int{}, as...)
								b[r] = to
								m3 := build(b, id, seq(n))
								if samePart(as, b) {
									continue
								}
								for _, p := range [][2]clustering.ClusterMap{{m1, m3}, {m3, m1}} {
									if eq, _ := p[0].Equals(p[1]); eq {
										return fmt.Errorf("row %d is in another cluster, yet equal", r)
									}
									c.Trans(1)
								}
							}
							bad := build(as, id, seq(n))
							at := id((as[r] + 1) % k)
							bad[at] = append(bad[at], r)
							if _, err := bad.Invert(); err == nil {
								return fmt.Errorf("row %d is in two clusters, yet inverted", r)
							}
						}
						// two rows of different clusters swapped
						for _, r := range []int{0, n / 2} {
							for s := n - 1; s > r; s-- {
								if as[r] != as[s] {
									b := append([]int{}, as...)
									b[r], b[s] = b[s], b[r]
									if eq, _ := m1.Equals(build(b, id, rev)); eq != samePart(as, b) {
										return fmt.Errorf("rows %d and %d swapped clusters, equal: %v", r, s, eq)
									}
									c.Trans(1)
									break
								}
							}
						}
					}
					c.Trace()
					return nil
				})))
			}
		}
	}
}

// samePart: two assignments are the same partition.
func samePart(a, b []int) bool {
	f, g := map[int]int{}, map[int]int{}
	for i := range a {
		if x, ok := f[a[i]]; ok && x != b[i] {
			return false
		}
		if x, ok := g[b[i]]; ok && x != a[i] {
			return false
		}
		f[a[i]], g[b[i]] = b[i], a[i]
	}
	return true
}

func c29large(c *eng.Ctx) {
	for _, n := range []int{9, 33, 65, 130} {
		for _, dim := range []int{1, 2, 3} {
			for comps := 1; comps <= 6; comps++ {
				for pat := 0; pat < 4; pat++ {
					if !c.Mine() {
						continue
					}
					kind := (n + dim*3 + pat*5 + comps) % numKinds
					if kind == 8 {
						kind = 0
					}
					defs := []AD{{'C', "k", []string{"u", "v"}}}
					for j := 0; j < dim; j++ {
						defs = append(defs, AD{'F', fmt.Sprintf("x%d", j), nil})
					}
					table := func(pts [][]float64) *Tab {
						t := mkTab(defs, 0, nil)
						for i, p := range pts {
							r := []string{ub(uint64(i & 1))}
							for _, v := range p {
								r = append(r, fb(v))
							}
							t.V = append(t.V, r)
						}
						return t
					}
					t, q := table(bigPoints(n, dim, pat)), table(append(bigPoints(40, dim, (pat+1)%4), bigPoints(n, dim, pat)...))
					g, tt, _ := makeKind(kind, t)
					c.Case("large %d points of dimension %d, pattern %d, %d components, %s", n, dim, pat, comps, kindNames[kind])
					c.State(c.CurCase())
					c.Explore(eng.Opt{MaxExec: 3, MaxPoints: 4, Floats: []float64{0.1, 0.9}}, func(ch *eng.Chooser) {
						failErr(c, short(try(func() error {
							m, err := clustering.NewExpectationMaximization(comps)
							if err != nil {
								return err
							}
							for round := 0; round < 2; round++ { // other data first
								var fg base.FixedDataGrid = buildDense(q, 0)
								ft := q
								if round == 1 {
									fg, ft = g, tt
								}
								var ferr error
								if p := ch.Call(func() { ferr = m.Fit(fg) }); p != nil {
									return fmt.Errorf("fitting crashes: %v", p)
								}
								if ferr != nil {
									return ferr
								}
								var first error
								a1, err := m.Predict(fg)
								if err != nil {
									return err
								}
								rq := reverseCols(q)
								a2, err := m.Predict(buildDense(rq, 0))
								if err != nil {
									return err
								}
								cols := features(ft)
								fits := false
								perms(dim, func(p []int) {
									var c1, c2 []int
									for _, j := range p {
										c1 = append(c1, cols[j])
										c2 = append(c2, len(rq.A)-1-features(q)[j])
									}
									err := checkEM(m, comps, ft, a1, c1)
									if err == nil {
										err = checkEM(m, comps, rq, a2, c2)
									}
									if err == nil {
										fits = true
									} else if first == nil {
										first = err
									}
								})
								if !fits {
									return fmt.Errorf("fit %d: %v", round+1, first)
								}
								c.Outcome(fmt.Sprint(len(a1), len(a2)))
								c.Trans(2)
							}
							c.Trace()
							return nil
						})))
					})
				}
			}
		}
	}
}

// treeBig enumerates large training sets of trees: many rows, attributes,
// categories and classes. pat 0: the class is mixed, 1: a function of a numeric and a
// categorical attribute, 2: mostly of one attribute with exceptions,
// 3: few different rows.
func treeBig(c *eng.Ctx, sizes []int, f func(t *Tab, what string)) {
	for si, s := range []struct {
		defs          string
		cats, classes int
	}{
		{"FF", 2, 3}, {"FCB", 4, 2}, {"CCCC", 9, 5}, {"FFFFFF", 2, 2}, {"CFBCF", 17, 12}, {"CC", 40, 2}, {"FCCFBBCFCFFC", 5, 4}, {"CCCCCCCCCCCCCCCCCCCC", 2, 3}, {"BBBBBBBBB", 2, 2}, {"CFC", 11, 70}, {"FC", 70, 40}, {"CB", 300, 200},
	} {
		for _, n := range sizes {
			for pat := 0; pat < 4; pat++ {
				if !c.Mine() {
					continue
				}
				f(treeTab(s.defs, n, s.cats, s.classes, pat, si), fmt.Sprintf("large %s (%d categories, %d classes), %d rows, pattern %d", s.defs, s.cats, s.classes, n, pat))
			}
		}
	}
}

func treeTab(kinds string, n, cats, classes, pat, salt int) *Tab {
	cn, kn := []string{}, []string{}
	for i := 0; i < cats; i++ {
		cn = append(cn, fmt.Sprintf("p%d", i))
	}
	for i := 0; i < classes; i++ {
		kn = append(kn, fmt.Sprintf("u%d", (i+1)%classes))
	}
	defs := []AD{}
	for j := range kinds {
		defs = append(defs, AD{kinds[j], fmt.Sprintf("a%d", j), cn})
	}
	defs = append(defs, AD{'C', "k", kn})
	t := mkTab(defs, len(kinds), nil)
	for i := 0; i < n; i++ {
		r := []string{}
		sum := uint64(0)
		for j := range kinds {
			h := mix(uint64(i*len(kinds)+j) + uint64(salt)<<32)
			if pat == 3 {
				h = mix(uint64(i%7*len(kinds)+j) + uint64(salt)<<32)
			}
			switch kinds[j] {
			case 'F':
				v := float64(h%1000)/8 - 30
				if (j+salt)%3 == 1 {
					v = float64(h % 4)
				}
				if v > 5 && j < 3 {
					sum += uint64(j + 1)
				}
				r = append(r, fb(v))
			case 'B':
				if j < 3 {
					sum += h & 1
				}
				r = append(r, string([]byte{byte(h & 1)}))
			default:
				if j < 3 {
					sum += h % uint64(cats) * 3
				}
				r = append(r, ub(h%uint64(cats)))
			}
		}
		h := mix(uint64(i) + 12345)
		switch pat {
		case 0, 3:
			sum = h
		case 2:
			if h%8 == 0 {
				sum = h >> 9
			}
		}
		t.V = append(t.V, append(r, ub(sum%uint64(classes))))
	}
	return t
}

// bigQuery: the training rows, and rows with the columns of different rows.
func bigQuery(t *Tab) *Tab {
	q := &Tab{A: t.A, Class: t.Class}
	q.V = append(q.V, t.V...)
	for i := range t.V {
		r := append([]string{}, t.V[i]...)
		for j := range r {
			if (i+j)%3 == 0 {
				r[j] = t.V[(i*5+j*j+1)%len(t.V)][j]
			}
		}
		q.V = append(q.V, r)
	}
	return q
}

func c30large(c *eng.Ctx) {
	treeBig(c, []int{9, 17, 40, 100, 300}, func(t *Tab, what string) {
		m := len(t.A) - 1
		rows := seq(t.rows())
		for gi, rg := range ruleGens {
			kind := (t.rows() + m + gi) % numKinds
			g, shown, _ := makeKind(kind, t)
			if g == nil || kind == 8 || kind == 5 || !sameCols(shown, t) || shown.rows() != t.rows() {
				g, kind = buildDense(t, gi&1), 0
			}
			c.Case("%s, %s, %s", what, rg.name, kindNames[kind])
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				tree := trees.NewID3DecisionTreeFromRule(0, rg.gen)
				for round := 0; round < 2; round++ { // fitted before with other rows
					fg := g
					if round == 0 {
						o := &Tab{A: t.A, Class: t.Class, V: t.V[:t.rows()/2+1]}
						fg = buildDense(o, 0)
					}
					if err := tree.Fit(fg); err != nil {
						return err
					}
				}
				if err := walkTree(t, tree.Root, rows, seq(m), func(n *trees.DecisionTreeNode, rows, cols []int) error {
					counts := classCounts(t, rows)
					if len(counts) == 1 || len(cols) == 0 {
						if n.Children != nil {
							return fmt.Errorf("node %v with columns %v was split", counts, cols)
						}
						return nil
					}
					rule := n.SplitRule
					if n.Children == nil {
						rule = nil
					}
					c.Trans(1)
					return checkRule(rg.name, t, rows, cols, rule)
				}); err != nil {
					return err
				}
				q := bigQuery(t)
				p, err := tree.Predict(buildDense(q, 0))
				if err := checkTreePredict(q, p, tree.Root, p, err); err != nil {
					return err
				}
				c.Trans(q.rows())
				c.Outcome(fmt.Sprint(what, len(ruleThresholds(tree.Root, nil))))
				c.Trace()
				if q.rows() > 60 {
					q.V = q.V[q.rows()-60:]
				}
				return checkProba(q, tree.Root)
			})))
		}
		// rules taken without regard to the rows
		c.Case("%s, arbitrary rules", what)
		c.State(c.CurCase())
		failErr(c, short(try(func() error {
			for salt := 0; salt < 3; salt++ {
				k := 0
				s := &scripted{t: t, choose: func(n int) int {
					k++
					x := int(mix(uint64(k*7+salt)) % uint64(n))
					if x < 2 && k < 4 {
						x = n - 1
					}
					return x
				}}
				root := trees.InferID3Tree(buildDense(t, 0), s)
				want := []string{}
				if err := walkTree(t, root, rows, seq(m), func(n *trees.DecisionTreeNode, rows, cols []int) error {
					counts := classCounts(t, rows)
					if len(counts) == 1 || len(cols) == 0 {
						if n.Children != nil {
							return fmt.Errorf("node %v with columns %v was split", counts, cols)
						}
						return nil
					}
					want = append(want, shownSite(t, rows, cols))
					return nil
				}); err != nil {
					return err
				}
				if !same(sorted(want), sorted(s.seen)) {
					return fmt.Errorf("rules were asked for at %d nodes, want %d", len(s.seen), len(want))
				}
				q := bigQuery(t)
				p, err := root.Predict(buildDense(q, 0))
				if err := checkTreePredict(q, p, root, p, err); err != nil {
					return err
				}
				c.Trans(q.rows())
			}
			c.Trace()
			return nil
		})))
	})
}

func sameCols(a, b *Tab) bool {
	if len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if !a.A[i].Equals(b.A[i]) {
			return false
		}
	}
	return true
}

func c31large(c *eng.Ctx) {
	treeBig(c, []int{9, 33, 100, 300}, func(t *Tab, what string) {
		m := len(t.A) - 1
		rows := seq(t.rows())
		for gi, rg := range ruleGens {
			kind := (t.rows() + m + gi*2) % numKinds
			g, shown, _ := makeKind(kind, t)
			if g == nil || kind == 8 || !sameCols(shown, t) || shown.rows() != t.rows() {
				g, kind = buildDense(t, gi&1), 0
			}
			c.Case("%s, %s, %s", what, rg.name, kindNames[kind])
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				if err := checkRule(rg.name, t, rows, seq(m), rg.gen.GenerateSplitRule(g)); err != nil {
					return err
				}
				// each alone, all but one, runs, all in another order
				sets := [][]int{}
				for j := 0; j < m; j++ {
					sets = append(sets, []int{j})
					but := []int{}
					for i := m - 1; i >= 0; i-- {
						if i != j {
							but = append(but, i)
						}
					}
					if m > 1 {
						sets = append(sets, but, seq(j+1))
					}
				}
				for _, o := range orders(m) {
					if len(uniq(o)) == len(o) && len(o) > 0 {
						sets = append(sets, o)
					}
				}
				for _, sel := range sets {
					as := []base.Attribute{}
					for _, j := range sel {
						as = append(as, t.A[j])
					}
					rule := rg.gen.GetSplitRuleFromSelection(as, g)
					if err := checkRule(rg.name, t, rows, sel, rule); err != nil {
						return fmt.Errorf("of columns %v: %v", sel, err)
					}
					c.Trans(1)
					c.Outcome(fmt.Sprint(rg.name, rule))
				}
				c.Trace()
				return nil
			})))
		}
	})
}

func uniq(x []int) map[int]bool {
	m := map[int]bool{}
	for _, i := range x {
		m[i] = true
	}
	return m
}

func c32large(c *eng.Ctx) {
	treeBig(c, []int{12, 40, 120}, func(t *Tab, what string) {
		for _, rg := range ruleGens {
			root := trees.InferID3Tree(buildDense(t, 0), rg.gen)
			for ps := 0; ps < 6; ps++ {
				p := &Tab{A: t.A, Class: t.Class}
				switch ps {
				case 0: // the training rows
					p.V = t.V
				case 1: // some of them, with other classes here and there
					p.V = bigQuery(t).V[t.rows():]
				case 2:
					p.V = bigQuery(t).V[:t.rows()/3]
				case 3: // the class shifted
					for i, r := range t.V {
						r = append([]string{}, r...)
						r[len(r)-1] = t.V[(i+1)%len(t.V)][len(r)-1]
						p.V = append(p.V, r)
					}
				case 4:
					p.V = bigQuery(t).V
				case 5: // one row of every third, repeated
					for i := range t.V {
						p.V = append(p.V, t.V[i-i%3])
					}
				}
				var pg base.FixedDataGrid = buildDense(p, ps&1)
				if kind := (ps + t.rows()) % numKinds; kind == 2 || kind == 3 || kind == 6 {
					if g, _, _ := makeKind(kind, p); g != nil {
						pg = g
					}
				}
				c.Case("%s, %s, pruned with set %d", what, rg.name, ps)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					n := cloneTree(root)
					before, err := hits(n, pg)
					if err != nil {
						return err
					}
					n.Prune(pg)
					after, err := hits(n, pg)
					if err != nil {
						return err
					}
					if after < before {
						return fmt.Errorf("%d correct after pruning, %d before", after, before)
					}
					if err := prunedFrom(n, root); err != nil {
						return err
					}
					if err := pays(n, p, seq(p.rows())); err != nil {
						return err
					}
					q := bigQuery(t)
					pr, err := n.Predict(buildDense(q, 0))
					c.Trans(q.rows())
					c.Outcome(fmt.Sprint(after-before, len(ruleThresholds(n, nil))))
					c.Trace()
					return checkTreePredict(q, pr, n, pr, err)
				})))
			}
		}
	})
}

var _ = math.Inf
