package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C21", Run: runC21,
		Rule:   "every multiset of up to n training rows over five points and two classes (three orders), for six column layouts (class last or first, categorical or numeric class, further non-numeric columns), distances near zero, equal, and differing only in the last digits; every distance, search, weighting, optimisation switch and number of neighbours, in every kind of grid: each prediction must win the vote of some valid set of nearest rows, and be the same when the row is predicted alone; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two classes in training",
		Assume: []string{"at least one neighbour is asked for", "cosine is asked for non-zero points", "distances within 1e-9 count as equal, and any of the tied rows may vote"}})
}

// winners are the classes that can win the vote of k nearest rows.
func winners(dist []float64, cls []string, k int, weighted bool) map[string]bool {
	s := append([]float64{}, dist...)
	sortFloats(s)
	kth := s[k-1]
	must, may := []int{}, []int{}
	for i, d := range dist {
		switch {
		case d < kth-1e-9:
			must = append(must, i)
		case d <= kth+1e-9:
			may = append(may, i)
		}
	}
	res := map[string]bool{}
	need := k - len(must)
	for mask := 0; mask < 1<<uint(len(may)); mask++ {
		sel := append([]int{}, must...)
		for b, i := range may {
			if mask>>uint(b)&1 == 1 {
				sel = append(sel, i)
			}
		}
		if len(sel) != len(must)+need {
			continue
		}
		tally := map[string]float64{}
		exact := map[string]bool{}
		for _, i := range sel {
			w := 1.0
			if weighted {
				w = 1 / dist[i]
				if dist[i] < 1e-9 {
					exact[cls[i]] = true
					continue
				}
			}
			tally[cls[i]] += w
		}
		if len(exact) > 0 { // infinite weight
			for k := range exact {
				res[k] = true
			}
			continue
		}
		top := 0.0
		for _, v := range tally {
			top = math.Max(top, v)
		}
		for k, v := range tally {
			if v >= top*(1-1e-9) {
				res[k] = true
			}
		}
	}
	return res
}

// features are the numeric, non-class columns of a table.
func features(t *Tab) []int {
	r := []int{}
	for j, a := range t.A {
		if a.GetType() == base.Float64Type && !t.Class[j] {
			r = append(r, j)
		}
	}
	return r
}

func rowFloats(t *Tab, row int, cols []int) []float64 {
	r := make([]float64, len(cols))
	for i, j := range cols {
		r[i] = base.UnpackBytesToFloat([]byte(t.V[row][j]))
	}
	return r
}

func classCol(t *Tab) int {
	for j := range t.A {
		if t.Class[j] {
			return j
		}
	}
	return -1
}

func runC21(c *eng.Ctx) {
	K := AD{'C', "k", []string{"b", "a"}}
	KF := AD{'F', "k", nil}
	X, Y := AD{'F', "x", nil}, AD{'F', "y", nil}
	C := AD{'C', "c", []string{"p", "q"}}
	B := AD{'B', "b", nil}
	schemas := []struct {
		defs  []AD
		class int
	}{
		{[]AD{X, Y, K}, 2},
		{[]AD{K, X, Y}, 0},
		{[]AD{C, X, B, K}, 3},
		{[]AD{X, Y, KF}, 2},
		{[]AD{KF, X, Y}, 0},
		{[]AD{C, X, KF}, 2},
	}
	alphas := []struct {
		pts, qs [][]float64
		zero    bool
	}{
		{[][]float64{{0, 0}, {1, 0}, {1, 1}, {-2, 3}, {3.5, -1}}, [][]float64{{0, 0}, {1, 0}, {1, 1}, {-2, 3}, {3.5, -1}, {0.5, 0.5}, {10, 10}, {0, -1}}, true},
		{[][]float64{{1, 0}, {2, 0}, {1, 1}, {-1, 2}, {0.5, -3}}, [][]float64{{1, 0}, {3, 3}, {-1, 2}, {0.1, -0.6}, {-5, -5}, {0.3, 0.3}}, false},
		{[][]float64{{1e6, 1}, {1e6, 0}, {1e6, -2}, {1e6 + 1e-3, 0}, {-1e6, 0}}, [][]float64{{0, 0}, {1e6, 0.25}}, true},
	}
	make := func(si int, rows [][]float64, cls []int) *Tab {
		s := schemas[si]
		t := mkTab(s.defs, s.class, nil)
		for i, p := range rows {
			r := []string{}
			for j, d := range s.defs {
				switch {
				case j == s.class && d.Kind == 'F':
					r = append(r, fb(float64(cls[i]+1)))
				case j == s.class:
					r = append(r, ub(uint64(cls[i])))
				case d.Name == "x":
					r = append(r, fb(p[0]))
				case d.Name == "y":
					r = append(r, fb(p[1]))
				case d.Kind == 'B':
					r = append(r, string([]byte{byte(i & 1)}))
				default:
					r = append(r, ub(uint64(i&1)))
				}
			}
			t.V = append(t.V, r)
		}
		return t
	}
	type cfg struct {
		dist, alg     string
		weighted, opt bool
	}
	cfgs := []cfg{}
	for _, d := range []string{"euclidean", "manhattan", "cosine"} {
		for _, a := range []string{"linear", "kdtree"} {
			for w := 0; w < 2; w++ {
				for o := 0; o < 2; o++ {
					if o == 1 && (a != "linear" || d == "cosine") {
						continue
					}
					cfgs = append(cfgs, cfg{d, a, w == 1, o == 1})
				}
			}
		}
	}
	// check predicts q after training on t and compares with every valid vote.
	check := func(tk, qk int, t, q *Tab, cf cfg, k int, single bool) error {
		g, tt, _ := makeKind(tk, t)
		qg, qt, _ := makeKind(qk, q)
		if g == nil || qg == nil || (tk == 8) != (qk == 8) {
			return nil
		}
		m := newKNN(cf.dist, cf.alg, k, cf.weighted, cf.opt)
		if err := m.Fit(g); err != nil {
			return err
		}
		p, err := m.Predict(qg)
		if k > tt.rows() {
			if err == nil && qt.rows() > 0 {
				return fmt.Errorf("%d neighbours of %d rows", k, tt.rows())
			}
			return nil
		}
		if err != nil {
			return err
		}
		if _, n := p.Size(); n != qt.rows() {
			return fmt.Errorf("%d predictions for %d rows", n, qt.rows())
		}
		cols, qcols := features(tt), features(qt)
		ref := metricRef(cf.dist)
		cls := []string{}
		cc := classCol(tt)
		for i := range tt.V {
			cls = append(cls, tt.A[cc].GetStringFromSysVal([]byte(tt.V[i][cc])))
		}
		for i := range qt.V {
			x := rowFloats(qt, i, qcols)
			if cf.dist == "cosine" && isZero(x) {
				continue
			}
			d := []float64{}
			for r := range tt.V {
				d = append(d, ref(x, rowFloats(tt, r, cols)))
			}
			w := winners(d, cls, k, cf.weighted)
			got := base.GetClass(p, i)
			if !w[got] {
				return fmt.Errorf("row %v predicted as %q, the votes allow %v (distances %v of %v)", x, got, w, d, cls)
			}
			c.Trans(1)
			c.Outcome(fmt.Sprint(got, w, d, k))
			if single {
				one := &Tab{A: q.A, Class: q.Class, V: q.V[i : i+1]}
				og, _, _ := makeKind(qk, one)
				op, err := m.Predict(og)
				if err != nil {
					return err
				}
				if base.GetClass(op, 0) != got {
					return fmt.Errorf("row %v predicted as %q alone and as %q among others", x, base.GetClass(op, 0), got)
				}
			}
		}
		return nil
	}
	for ai, al := range alphas {
		for n := 0; n <= c.Pick(3, 4); n++ {
			tuples(power(2*len(al.pts), n), func(ix []int) {
				for i := 1; i < n; i++ {
					if ix[i] < ix[i-1] {
						return
					}
				}
				if !c.Mine() {
					return
				}
				s := 0
				for _, i := range ix {
					s += i
				}
				for ord := 0; ord < 3; ord++ {
					if n < 2 && ord > 0 || n == 2 && ord > 1 {
						break
					}
					pts, cls := [][]float64{}, []int{}
					for i := range ix {
						j := i
						switch ord {
						case 1:
							j = n - 1 - i
						case 2:
							j = (i + 1) % n
						}
						pts, cls = append(pts, al.pts[ix[j]/2]), append(cls, ix[j]%2)
					}
					for si := range schemas {
						if si > 0 && (n > 2 && (s+ord)%3 != si%3 && !c.Thorough() || ai == 2) {
							continue
						}
						t := make(si, pts, cls)
						q := make(si, al.qs, append([]int{}, 0, 1, 1, 0, 1, 0, 0, 1)[:len(al.qs)])
						c.Case("train %s query %s", t, q)
						c.State(t.String())
						kinds := [][2]int{{0, 0}}
						if n == 1 && ord == 0 || n == 2 && (s+si)%3 == 0 || c.Thorough() && n == 2 {
							for a := 1; a < numKinds; a++ {
								kinds = append(kinds, [2]int{a, 0}, [2]int{0, a})
							}
							kinds = append(kinds, [2]int{1, 1}, [2]int{2, 2}, [2]int{5, 6}, [2]int{8, 8})
						}
						if n == 0 {
							kinds = [][2]int{{0, 0}, {3, 3}}
						}
						for _, kk := range kinds {
							for _, cf := range cfgs {
								if cf.dist == "cosine" {
									zero := al.zero
									if zero || si == 2 || si == 5 { // one column: only the sign counts, zero occurs
										continue
									}
								}
								for k := 1; k <= n+1; k++ {
									err := try(func() error { return check(kk[0], kk[1], t, q, cf, k, n < 3 && kk == [2]int{0, 0}) })
									if err != nil {
										err = fmt.Errorf("%s/%s, %v, k=%d: %v", kindNames[kk[0]], kindNames[kk[1]], cf, k, err)
									}
									if !failErr(c, err) {
										c.Trace()
									}
								}
							}
						}
					}
				}
			})
		}
	}
	// Queries without rows.
	if c.Mine() {
		c.Case("empty query")
		t := make(0, alphas[0].pts, []int{0, 1, 0, 1, 0})
		q := make(0, nil, nil)
		for _, cf := range cfgs {
			failErr(c, try(func() error { return check(0, 0, t, q, cf, 2, false) }))
		}
		for _, bad := range []cfg{{"nonsense", "linear", false, false}, {"euclidean", "nonsense", false, false}} {
			failErr(c, try(func() error {
				m := newKNN(bad.dist, bad.alg, 1, false, true)
				m.Fit(buildDense(t, 0))
				if _, err := m.Predict(buildDense(t, 0)); err == nil {
					return fmt.Errorf("%v accepted", bad)
				}
				return nil
			}))
		}
	}
	c.Sample("(1,1):b (1,1):a (-2,3):a, manhattan by k-d tree, weighted, 2 neighbours of (0.5,0.5)")
	c21large(c)
	c21near(c)
	c21many(c)
}
