package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

// bigPoints: pattern 0 scattered, 1 on a coarse grid (with repeats), 2 on a
// line in order, 3 two far clusters.
func bigPoints(n, dim, pat int) [][]float64 {
	r := make([][]float64, n)
	for i := range r {
		r[i] = make([]float64, dim)
		for j := range r[i] {
			h := mix(uint64(i*dim + j + pat*100003))
			switch pat {
			case 0:
				r[i][j] = float64(h%200001)/100 - 1000
			case 1:
				r[i][j] = float64(h%5) - 1.5
			case 2:
				r[i][j] = float64(i) * float64(j+1) / 8
			case 3:
				r[i][j] = float64(h%1000)/100 + float64(i%2)*1e4 + 1
			}
		}
	}
	return r
}

func anyZero(r [][]float64) bool {
	for _, x := range r {
		if isZero(x) {
			return true
		}
	}
	return false
}

// tiesAt counts the rows as far away as the k-th nearest.
func tiesAt(d []float64, k int) int {
	s := append([]float64{}, d...)
	sortFloats(s)
	n := 0
	for _, x := range d {
		if math.Abs(x-s[k-1]) <= 1e-9 {
			n++
		}
	}
	return n
}

func c21large(c *eng.Ctx) {
	for _, s := range []struct{ n, dim, classes int }{{9, 1, 3}, {17, 3, 4}, {65, 2, 3}, {64, 9, 7}, {130, 5, 40}, {300, 17, 3}, {40, 40, 2}} {
		for pat := 0; pat < 4; pat++ {
			for layout := 0; layout < 3; layout++ { // class last, first, in the middle with other columns
				if !c.Mine() {
					continue
				}
				names := []string{}
				for i := 0; i < s.classes; i++ {
					names = append(names, fmt.Sprintf("k%d", (i*11)%s.classes+100*(i%2)))
				}
				build := func(pts [][]float64, salt int) *Tab {
					defs := []AD{}
					for j := 0; j < s.dim; j++ {
						if layout == 2 && j == s.dim/2 {
							defs = append(defs, AD{'C', "c", []string{"p", "q"}}, AD{'C', "k", names}, AD{'B', "b", nil})
						}
						defs = append(defs, AD{'F', fmt.Sprintf("x%d", j), nil})
					}
					cls := s.dim / 2
					if layout < 2 {
						cls = []int{s.dim, 0}[layout]
						defs = append(defs, AD{})
						copy(defs[cls+1:], defs[cls:])
						defs[cls] = AD{'C', "k", names}
					} else {
						cls++
					}
					t := mkTab(defs, cls, nil)
					for i, p := range pts {
						row, x := []string{}, 0
						for j, d := range defs {
							switch {
							case j == cls:
								row = append(row, ub(mix(uint64(i+salt))%uint64(s.classes)))
							case d.Kind == 'F':
								row = append(row, fb(p[x]))
								x++
							case d.Kind == 'B':
								row = append(row, string([]byte{byte(i & 1)}))
							default:
								row = append(row, ub(uint64(i&1)))
							}
						}
						t.V = append(t.V, row)
					}
					return t
				}
				pts := bigPoints(s.n, s.dim, pat)
				qs := append(bigPoints(12, s.dim, (pat+1)%4), pts[0], pts[s.n/2], pts[s.n-1])
				for i := 0; i < 6; i++ {
					v := append([]float64{}, pts[i*s.n/6]...)
					v[i%s.dim] += 0.37
					qs = append(qs, v)
				}
				t, q := build(pts, 0), build(qs, 5)
				other := build(bigPoints(s.n/2+1, s.dim, 3-pat), 9)
				kk := [2]int{(s.n + pat + layout) % numKinds, (s.dim + pat*3 + layout) % numKinds}
				if kk[0] == 8 || kk[1] == 8 {
					kk = [2]int{0, 5}
				}
				for _, cf := range []struct {
					dist, alg     string
					weighted, opt bool
				}{{"euclidean", "linear", false, false}, {"euclidean", "linear", true, true}, {"manhattan", "linear", false, true}, {"manhattan", "kdtree", true, false}, {"euclidean", "kdtree", false, false}, {"cosine", "linear", true, false}, {"cosine", "kdtree", false, false}, {"manhattan", "linear", true, false}} {
					for _, k := range []int{1, 2, 3, 5, 8, s.n / 2, s.n - 1, s.n} {
						if k > s.n || cf.dist == "cosine" && (anyZero(pts) || anyZero(qs)) {
							continue
						}
						c.Case("large %d rows of %d features, %d classes, pattern %d, layout %d, %v k=%d", s.n, s.dim, s.classes, pat, layout, cf, k)
						c.State(c.CurCase())
						err := try(func() error {
							g, tt, _ := makeKind(kk[0], t)
							qg, qt, _ := makeKind(kk[1], q)
							m := newKNN(cf.dist, cf.alg, k, cf.weighted, cf.opt)
							if layout == 1 { // trained on something else before
								if err := m.Fit(buildDense(other, 0)); err != nil {
									return err
								}
								if _, n := other.A, other.rows(); k <= n {
									if _, err := m.Predict(qg); err != nil {
										return err
									}
								}
							}
							if err := m.Fit(g); err != nil {
								return err
							}
							p, err := m.Predict(qg)
							if err != nil {
								return err
							}
							cols, qcols, cc := features(tt), features(qt), classCol(tt)
							cls := []string{}
							for i := range tt.V {
								cls = append(cls, tt.A[cc].GetStringFromSysVal([]byte(tt.V[i][cc])))
							}
							ref := metricRef(cf.dist)
							for i := range qt.V {
								x := rowFloats(qt, i, qcols)
								d := []float64{}
								for r := range tt.V {
									d = append(d, ref(x, rowFloats(tt, r, cols)))
								}
								if tiesAt(d, k) > 8 {
									continue
								}
								c.Trans(1)
								w := winners(d, cls, k, cf.weighted)
								if got := base.GetClass(p, i); !w[got] {
									return fmt.Errorf("row %d of the query predicted as %q, the votes allow %v", i, got, w)
								}
							}
							return nil
						})
						if !failErr(c, short(err)) {
							c.Trace()
						}
					}
				}
			}
		}
	}
}

func c22large(c *eng.Ctx) {
	for _, n := range []int{9, 17, 33, 65, 130, 300, 601, c.Pick(1100, 2500)} {
		for _, dim := range []int{1, 2, 3, 7, 17} {
			for pat := 0; pat < 4; pat++ {
				if !c.Mine() {
					continue
				}
				pts := bigPoints(n, dim, pat)
				qs := append(bigPoints(4, dim, (pat+1)%4), pts[0], pts[n/2], pts[n-1])
				for i := 0; i < 4; i++ {
					v := append([]float64{}, pts[i*n/4]...)
					v[i%dim] += 0.37
					qs = append(qs, v)
				}
				c.Case("large %d points of dimension %d, pattern %d", n, dim, pat)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					kd := kdtree.New()
					if err := kd.Build(pts); err != nil {
						return err
					}
					orig := fmt.Sprint(pts)
					for _, m := range metricDefs {
						if m.name == "cosine" && (anyZero(pts) || anyZero(qs)) {
							continue
						}
						for qi, q := range qs {
							for _, k := range []int{1, 2, 5, 16, 17, n / 2, n} {
								if k > n {
									continue
								}
								rows, dist, err := kd.Search(k, m.f, q)
								if err == nil {
									err = checkSearch(pts, q, k, rows, dist, m.ref)
								}
								if err != nil {
									return fmt.Errorf("%s, k=%d, query %d: %v", m.name, k, qi, err)
								}
								c.Trans(1)
							}
						}
					}
					if fmt.Sprint(pts) != orig {
						return fmt.Errorf("points changed")
					}
					c.Trace()
					return nil
				})))
			}
		}
	}
}

func c23large(c *eng.Ctx) {
	for _, n := range []int{9, 17, 65, 300} {
		for _, dim := range []int{1, 2, 9, 33} {
			for pat := 0; pat < 4; pat++ {
				if !c.Mine() {
					continue
				}
				pts := bigPoints(n, dim, pat)
				qs := append(bigPoints(6, dim, (pat+1)%4), pts[0], pts[n-1])
				flat, tgt := []float64{}, []float64{}
				for i, p := range pts {
					flat = append(flat, p...)
					tgt = append(tgt, float64(mix(uint64(i))%100000)/8)
				}
				for _, dist := range []string{"euclidean", "manhattan"} {
					c.Case("large %d points of dimension %d, pattern %d, %s", n, dim, pat, dist)
					c.State(c.CurCase())
					failErr(c, short(try(func() error {
						m := knn.NewKnnRegressor(dist)
						for round := 0; round < 2; round++ { // other data first
							tg, fl, ps := tgt, flat, pts
							if round == 0 {
								ps = bigPoints(2*n, dim, 3-pat)
								tg, fl = nil, nil
								for i, p := range ps {
									fl, tg = append(fl, p...), append(tg, float64(i))
								}
							}
							m.Fit(append([]float64{}, tg...), append([]float64{}, fl...), len(ps), dim)
							for _, q := range qs {
								d := []float64{}
								for _, p := range ps {
									d = append(d, metricRef(dist)(p, q))
								}
								for _, k := range []int{1, 2, 3, 10, len(ps) / 2, len(ps)} {
									if k > len(ps) || tiesAt(d, k) > 12 {
										continue
									}
									got := m.Predict(mat.NewDense(1, dim, append([]float64{}, q...)), k)
									ok := false
									want := means(d, tg, k)
									for _, w := range want {
										ok = ok || near(got, w)
									}
									if !ok {
										return fmt.Errorf("%d nearest average %v, want one of %v", k, got, want)
									}
									c.Trans(1)
								}
							}
						}
						c.Trace()
						return nil
					})))
				}
			}
		}
	}
}

func c24large(c *eng.Ctx) {
	for _, dim := range []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025} {
		for pat := 0; pat < 11; pat++ {
			if !c.Mine() {
				continue
			}
			x, y := make([]float64, dim), make([]float64, dim)
			for i := range x {
				h := mix(uint64(i + pat*5000))
				switch pat {
				case 0:
					x[i], y[i] = float64(i), float64(dim-i)
				case 1:
					x[i], y[i] = float64(h%19)-9, float64(h>>20%19)-9
				case 2: // differ in the last element alone
					x[i], y[i] = float64(h%7), float64(h%7)
					if i == dim-1 {
						y[i]++
					}
				case 3: // differ in one element in the middle, hugely
					x[i], y[i] = 1, 1
					if i == dim/2 {
						y[i] = -1e9
					}
				case 4:
					x[i], y[i] = float64(h%1000)/1e6, -float64(h>>20%1000)/1e6
				case 5: // equal
					x[i], y[i] = float64(h%19)-9, float64(h%19)-9
				case 6: // sparse
					if h%9 == 0 {
						x[i] = 2
					}
					if h>>20%9 == 0 {
						y[i] = -3
					}
				case 7: // parallel
					x[i], y[i] = float64(i+1), 3*float64(i+1)
				case 8: // tiny
					x[i], y[i] = (float64(h%19)-9)/(1<<30), (float64(h>>20%19)-9)/(1<<34)
				case 9: // huge
					x[i], y[i] = (float64(h%19)-9)*(1<<30), (float64(h>>20%19)-9)*(1<<20)
				case 10: // one tiny, one huge
					x[i], y[i] = (float64(h%19)-9)/(1<<30), (float64(h>>20%19)-9)*(1<<30)
				}
			}
			c.Case("large vectors of dimension %d, pattern %d", dim, pat)
			c.State(c.CurCase())
			for si := range vecShapes {
				a, b := vecShapes[si](x), vecShapes[(si+2*(pat%2))%4](y)
				failErr(c, short(try(func() error {
					for _, m := range metricDefs {
						if m.name == "cosine" && (isZero(x) || isZero(y)) {
							continue
						}
						d, e, w := m.f.Distance(a, b), m.f.Distance(b, a), m.ref(x, y)
						if !near(d, w) || !near(d, e) || d < 0 || pat == 5 && d > 1e-9 {
							return fmt.Errorf("%s distance is %v one way and %v the other, want %v", m.name, d, e, w)
						}
						c.Trans(2)
					}
					dot, sq := 0.0, 0.0
					for i := range x {
						dot += x[i] * y[i]
						sq += (x[i] - y[i]) * (x[i] - y[i])
					}
					if v := pairwise.NewEuclidean().InnerProduct(a, b); !near(v, dot) {
						return fmt.Errorf("inner product is %v, want %v", v, dot)
					}
					if v := pairwise.NewCosine().Dot(a, b); !near(v, dot) {
						return fmt.Errorf("dot product is %v, want %v", v, dot)
					}
					for _, deg := range []int{0, 1, 2, 3, 5, 8} {
						k := pairwise.NewPolyKernel(deg)
						w, wd := math.Pow(dot+1, float64(deg)), math.Pow(sq+1, float64(deg))
						if v, u := k.InnerProduct(a, b), k.InnerProduct(b, a); !near(v, w) || !near(u, w) {
							return fmt.Errorf("polynomial kernel of degree %d is %v, swapped %v, want %v", deg, v, u, w)
						}
						if v := k.Distance(a, b); !near(v, math.Sqrt(wd)) {
							return fmt.Errorf("polynomial kernel norm of degree %d is %v, want %v", deg, v, math.Sqrt(wd))
						}
					}
					for _, g := range []float64{0, 1e-6, 0.01, 2} {
						k := pairwise.NewRBFKernel(g)
						w := math.Exp(-g * sq)
						if v, u := k.InnerProduct(a, b), k.InnerProduct(b, a); !near(v, w) || !near(u, w) {
							return fmt.Errorf("radial-basis kernel of width %v is %v, swapped %v, want %v", g, v, u, w)
						}
					}
					if !matKeeps(a, x) || !matKeeps(b, y) {
						return fmt.Errorf("arguments changed")
					}
					c.Trans(10)
					c.Trace()
					return nil
				})))
			}
		}
	}
}

func c25large(c *eng.Ctx) {
	// many rows and classes
	for _, s := range []struct{ n, classes int }{{17, 2}, {65, 5}, {300, 12}, {300, 40}, {1025, 3}} {
		for pat := 0; pat < 5; pat++ {
			for kind := 0; kind < numKinds; kind++ {
				if !c.Mine() {
					continue
				}
				names, rev := []string{}, []string{}
				for i := 0; i < s.classes; i++ {
					names = append(names, fmt.Sprintf("c%d", i))
					rev = append(rev, fmt.Sprintf("c%d", s.classes-1-i))
				}
				t := mkTab([]AD{{'F', "x", nil}, {'C', "k", names}}, 1, nil)
				q := mkTab([]AD{{'C', "k", rev}}, 0, nil)
				want := map[string]map[string]int{}
				tc, pc := make([]int, s.n), make([]int, s.n)
				for i := 0; i < s.n; i++ {
					h := mix(uint64(i + pat*999))
					a, b := int(h%uint64(s.classes)), int(h>>20%uint64(s.classes))
					switch pat {
					case 0:
						b = a
					case 1:
						if h>>40%3 > 0 {
							b = a
						}
					case 2: // one class is never predicted
						if b == 0 {
							b = 1
						}
					case 3: // one class never occurs
						if a == s.classes-1 {
							a = 0
						}
					}
					tc[i], pc[i] = a, b
					t.V = append(t.V, []string{fb(float64(i)), ub(uint64(a))})
					q.V = append(q.V, []string{ub(uint64(s.classes - 1 - b))})
				}
				c.Case("large %d rows, %d classes, pattern %d, %s", s.n, s.classes, pat, kindNames[kind])
				g, shown, _ := makeKind(kind, t)
				if g == nil || unorderedKind(kind) || kind == 8 {
					continue
				}
				c.State(c.CurCase())
				for i := range shown.V {
					a, b := fmt.Sprintf("c%d", tc[i]), fmt.Sprintf("c%d", pc[i])
					if want[a] == nil {
						want[a] = map[string]int{}
					}
					want[a][b]++
				}
				failErr(c, short(try(func() error {
					for i := range shown.V {
						if base.GetClass(g, i) != fmt.Sprintf("c%d", tc[i]) {
							return nil // a view in another order
						}
					}
					m, err := evaluation.GetConfusionMatrix(g, buildDense(q, 0))
					if err != nil {
						return err
					}
					sum := 0
					for a := range m {
						for b, v := range m[a] {
							sum += v
							if v != want[a][b] {
								return fmt.Errorf("%d rows of %s were predicted as %s, want %d", v, a, b, want[a][b])
							}
						}
					}
					if sum != s.n {
						return fmt.Errorf("%d rows counted of %d", sum, s.n)
					}
					c.Trace()
					c.Trans(s.n)
					return checkScores(m, names)
				})))
			}
		}
	}
	// matrices of many classes and of huge counts
	for _, n := range []int{1, 2, 4, 5, 8, 13, 30} {
		for pat := 0; pat < 10; pat++ {
			for _, unit := range []int{1, 1000, 1 << 33} {
				if !c.Mine() {
					continue
				}
				names := []string{}
				for i := 0; i < n; i++ {
					names = append(names, fmt.Sprintf("class%d", i*37%n))
				}
				m := evaluation.ConfusionMatrix{}
				total := 0
				for i := range names {
					for j := range names {
						h := mix(uint64(i*n+j) + uint64(pat)*777)
						v := int(h%7) * unit
						if h>>30%uint64(2+pat) == 0 {
							continue
						}
						if pat%3 == 0 && i != j || v == 0 {
							continue
						}
						if m[names[i]] == nil {
							m[names[i]] = map[string]int{}
						}
						m[names[i]][names[j]] = v
						total += v
					}
				}
				if total == 0 {
					continue
				}
				c.Case("large matrix of %d classes, pattern %d, counts in units of %d", n, pat, unit)
				c.State(c.CurCase())
				if !failErr(c, short(try(func() error { return checkScores(m, names) }))) {
					c.Trace()
				}
				c.Trans(1)
			}
		}
	}
}

func c26large(c *eng.Ctx) {
	defs := []AD{{'F', "x", nil}, {'C', "c", []string{"p", "q"}}, {'C', "k", []string{"u", "v", "w"}}}
	for _, n := range []int{17, 65, 300} {
		for _, folds := range []int{2, 5, 10, 16, 64, 301} {
			if folds > 64 && n < 300 {
				continue
			}
			for kind := 0; kind < numKinds; kind++ {
				if !c.Mine() {
					continue
				}
				t := mkTab(defs, 2, nil)
				for i := 0; i < n; i++ {
					t.V = append(t.V, []string{fb(float64(i)), ub(uint64(i / 2 % 2)), ub(uint64(i % 3))})
				}
				g, shown, _ := makeKind(kind, t)
				if g == nil {
					continue
				}
				want := make([]string, shown.rows())
				for i := range want {
					want[i] = shown.row(i)
				}
				want = sorted(want)
				c.Case("large cross-validation of %d rows, %d folds, %s", n, folds, kindNames[kind])
				c.Explore(eng.Opt{MaxExec: 6, MaxPoints: 2, IntDom: func(m int) []int {
					if m < 3 {
						return seq(m)
					}
					return []int{0, m / 2, m - 1}
				}}, func(ch *eng.Chooser) {
					r := &recorder{t: shown}
					var ms []evaluation.ConfusionMatrix
					var err error
					if p := ch.Call(func() { ms, err = evaluation.GenerateCrossFoldValidationConfusionMatrices(g, r, folds) }); p != nil {
						c.Fail("panic", "%v", p)
						return
					}
					if err == nil {
						err = checkFolds(r, ms, want, folds)
					}
					c.State(fmt.Sprint(n, folds, kind, ch.Choices()))
					if !failErr(c, short(err)) {
						c.Trace()
					}
					c.Trans(folds)
				})
			}
		}
	}
	for _, n := range []int{6, 17, 65, 300} {
		for pat := 0; pat < 4; pat++ {
			if !c.Mine() {
				continue
			}
			ms := make([]evaluation.ConfusionMatrix, n)
			sc := make([]float64, n)
			mean, vr := 0.0, 0.0
			for i := range ms {
				sc[i] = float64(mix(uint64(i+pat*999))%1000)/float64(1+pat*300) - float64(pat)
				ms[i] = evaluation.ConfusionMatrix{fmt.Sprint(i): nil}
				mean += sc[i] / float64(n)
			}
			for i := range ms {
				vr += (sc[i] - mean) * (sc[i] - mean) / float64(n)
			}
			c.Case("large: %d scores, pattern %d", n, pat)
			failErr(c, try(func() error {
				m, v := evaluation.GetCrossValidatedMetric(ms, func(m evaluation.ConfusionMatrix) float64 {
					for k := range m {
						i := 0
						fmt.Sscan(k, &i)
						return sc[i]
					}
					return math.NaN()
				})
				if !near(m, mean) || math.Abs(v-vr) > 1e-6*(1+vr) {
					return fmt.Errorf("mean %v variance %v, want %v %v", m, v, mean, vr)
				}
				return nil
			}))
		}
	}
}
