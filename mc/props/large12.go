package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/knn"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

// c02gaps: views of long grids that map only some of the rows, or rows that the source lacks.
func c02gaps(c *eng.Ctx) {
	for _, n := range []int{40, 1500, 5000} {
		src := bigTab("FCB", 1, n, 5)
		swap, some, past := map[int]int{0: n - 1, n - 1: 0}, map[int]int{}, map[int]int{}
		for i := 0; i < n; i += 3 {
			some[i] = n - 1 - i
		}
		for i := 0; i < n+n/2; i++ {
			past[i] = i * 2 / 3
		}
		for mi, m := range []map[int]int{swap, some, past} {
			for _, cl := range [][]int{nil, {2, 0}} {
				if !c.Mine() {
					continue
				}
				c.Case("deep source rows=%d map of rows %d columns %v", n, mi, cl)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					v, want := applySel(buildDense(src, mi%3), src, rowSel{kind: "map", m: m}, cl)
					if err := sameTab(v, want); err != nil {
						return err
					}
					return readBoth(v)
				})))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}

// manyTexts: categories of which only the end or one late one differs.
func manyTexts(n int, long bool) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("t%d", i)
		if long {
			s = fmt.Sprintf("%s%d", strings.Repeat("the same beginning ", 4), i)
		}
		r = append(r, s)
	}
	return r
}

// c10lists: two lists of categories that differ at one place only.
func c10lists(c *eng.Ctx) {
	for _, n := range []int{1, 2, 9, 65, 257, 300, 1100, 70000} {
		for _, long := range []bool{false, true} {
			for _, at := range []int{-1, 0, n / 2, n - 1} {
				for how := 0; how < 4; how++ {
					if !c.Mine() {
						continue
					}
					if n > 2000 && (how != 1 || long) {
						continue // making a list takes as long as its square
					}
					c.Case("lists of %d texts (long %v) that differ at %d in way %d", n, long, at, how)
					failErr(c, short(try(func() error {
						mk := func(v []string) *base.CategoricalAttribute {
							a := base.NewCategoricalAttribute()
							a.SetName("c")
							if n > 2000 {
								// a list in JSON is taken as it is
								b := "[\"" + strings.Join(v, "\",\"") + "\"]"
								if err := a.UnmarshalJSON([]byte("{\"values\":" + b + "}")); err != nil {
									panic(err)
								}
								return a
							}
							for _, s := range v {
								a.GetSysValFromString(s)
							}
							return a
						}
						v := manyTexts(n, long)
						w := append([]string{}, v...)
						if at >= 0 {
							switch how {
							case 0:
								w[at] += "x"
							case 1:
								w[at] = "other"
							case 2:
								w[at], w[0] = w[0], w[at]
							case 3:
								w[at] = " " + w[at]
							}
						}
						a, b := mk(v), mk(w)
						want := same(v, w)
						for _, x := range []bool{a.Equals(b), b.Equals(a), a.Compatible(b), b.Compatible(a)} {
							if x != want {
								return fmt.Errorf("equal %v, reversed %v, compatible %v, reversed %v, want %v", a.Equals(b), b.Equals(a), a.Compatible(b), b.Compatible(a), want)
							}
						}
						return nil
					})))
					c.Trace()
					c.Trans(4)
				}
			}
		}
	}
}

// fileTab is a table of more than a megabyte of text.
func fileTab(n int) *Tab {
	t := bigTab("FCF", 1, n, 40)
	for i := range t.V {
		t.V[i][0] = fb(float64(i))
		t.V[i][2] = fb(float64(mix(uint64(i))%1000000) / 4)
	}
	for _, a := range t.A {
		if f, ok := a.(*base.FloatAttribute); ok {
			f.Precision = 2
		}
	}
	return t
}

// longFiles: documents of some megabytes.
func longFiles(c *eng.Ctx, run func(g base.FixedDataGrid, t *Tab) error) {
	for _, n := range []int{c.Pick(40000, 300000), 100000} {
		if !c.Mine() {
			continue
		}
		c.Case("a document of %d rows", n)
		c.State(c.CurCase())
		failErr(c, short(try(func() error {
			t := fileTab(n)
			return run(buildDense(t, 0), t)
		})))
		c.Trace()
		c.Trans(n)
	}
}

func c12files(c *eng.Ctx) {
	longFiles(c, func(g base.FixedDataGrid, t *Tab) error {
		var b bytes.Buffer
		names, cells := []string{"x", "c", "y"}, [][]string{}
		b.WriteString("x,c,y\n")
		for i := range t.V {
			r := []string{}
			for j, a := range t.A {
				r = append(r, a.GetStringFromSysVal([]byte(t.V[i][j])))
			}
			cells = append(cells, r)
			b.WriteString(strings.Join(r, ",") + "\n")
		}
		return c12plain(b.String(), names, cells, true)
	})
}

func c13files(c *eng.Ctx) {
	longFiles(c, func(g base.FixedDataGrid, t *Tab) error { return c13one(c, g, t, 0) })
}

func c14files(c *eng.Ctx) {
	longFiles(c, func(g base.FixedDataGrid, t *Tab) error { return c14one(c, g, t, 0) })
	// names and texts with unusual ends
	odd := []string{"#x", "_a", "a_", ".b", "b.", "-c", "c-", ";d", "?", "!e", "@f", "x;", "/g", "//h", "*", "é", "1", "a:b", "$", "&k", "~", "|", "=m", "+", "<n>", "[o]", "(p)", "A", "REAL", "real", "data", "NaN", "\\q"}
	for i, o := range odd {
		for _, q := range []string{odd[(i+1)%len(odd)], odd[(i*7+5)%len(odd)]} {
			if !c.Mine() {
				continue
			}
			for k := 0; k < 3; k++ {
				for lay := 0; lay < 3; lay++ {
					c.Case("text or name %q beside %q, %s, layout %d", o, q, kindNames[k], lay)
					c.State(c.CurCase())
					failErr(c, try(func() error {
						defs := []AD{{'C', o, []string{q, o}}, {'F', q, nil}}
						rows := [][]string{{ub(1), fb(1)}, {ub(0), fb(2)}, {ub(1), fb(3)}}
						switch lay {
						case 1:
							defs = []AD{{'F', o, nil}, {'C', q, []string{o, q}}}
							rows = [][]string{{fb(1), ub(1)}, {fb(2), ub(0)}}
						case 2:
							defs = []AD{{'C', o, []string{o}}, {'C', q, []string{q, o}}}
							rows = [][]string{{ub(0), ub(1)}, {ub(0), ub(0)}}
						}
						if o == q {
							return nil
						}
						g, w, _ := makeKind(k, mkTab(defs, 1, rows))
						if g == nil {
							return nil
						}
						return c14one(c, g, w, k)
					}))
					c.Trace()
					c.Trans(3)
				}
			}
		}
	}
}

// relNear: within a relative error of 1e-9 however small the numbers are.
func relNear(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// c24near: vectors next to each other, matrices of any shape.
func c24near(c *eng.Ctx) {
	for _, b := range []float64{0, 1, -3.5, 1000, 1e-12, 1e9} {
		for _, e := range []float64{1e-3, 1e-6, 1e-9, 1e-13, 1e-20, 1e-100} {
			for dim := 1; dim <= 4; dim++ {
				for mask := 1; mask < 1<<uint(dim); mask++ {
					if !c.Mine() {
						continue
					}
					x, y := []float64{}, []float64{}
					zero := true
					for i := 0; i < dim; i++ {
						v := b * float64(i+1)
						x = append(x, v)
						if mask>>uint(i)&1 == 1 {
							v += e
						}
						y = append(y, v)
						zero = zero && (b == 0)
					}
					c.Case("vectors %v and %v", x, y)
					c.State(c.CurCase())
					failErr(c, try(func() error {
						for si := 0; si < 2; si++ {
							for _, m := range metricDefs[:4] {
								d, r, w := m.f.Distance(vecShapes[si](x), vecShapes[si](y)), m.f.Distance(vecShapes[si](y), vecShapes[si](x)), m.ref(x, y)
								if !relNear(d, w) || !relNear(r, w) {
									return fmt.Errorf("%s distance is %v one way and %v the other, want %v", m.name, d, r, w)
								}
							}
							if zero {
								continue
							}
							d, w := metricDefs[4].f.Distance(vecShapes[si](x), vecShapes[si](y)), exactCosine(x, y)
							if math.Abs(d-w) > 3e-15 {
								return fmt.Errorf("cosine distance is %v, want %v", d, w)
							}
						}
						return nil
					}))
					c.Trace()
					c.Trans(10)
				}
			}
		}
	}
	for r := 1; r <= 5; r++ {
		for k := 1; k <= 5; k++ {
			for at := 0; at < r*k; at++ {
				if !c.Mine() {
					continue
				}
				x, y := []float64{}, []float64{}
				for i := 0; i < r*k; i++ {
					x, y = append(x, float64(mix(uint64(i))%9)-4), append(y, float64(mix(uint64(i))%9)-4)
				}
				y[at] += 5.5
				c.Case("%d by %d matrices that differ in element %d", r, k, at)
				c.State(c.CurCase())
				failErr(c, try(func() error {
					a, b := mat.NewDense(r, k, append([]float64{}, x...)), mat.NewDense(r, k, append([]float64{}, y...))
					for _, m := range metricDefs {
						if m.name == "cosine" && (isZero(x) || isZero(y)) {
							continue
						}
						if d, w := m.f.Distance(a, b), m.ref(x, y); !near(d, w) {
							return fmt.Errorf("%s distance is %v, want %v", m.name, d, w)
						}
					}
					return nil
				}))
				c.Trace()
				c.Trans(5)
			}
		}
	}
}

// exactCosine computes with 300 bits.
func exactCosine(x, y []float64) float64 {
	f := func(v float64) *big.Float { return new(big.Float).SetPrec(300).SetFloat64(v) }
	xx, yy, xy := f(0), f(0), f(0)
	for i := range x {
		xx.Add(xx, new(big.Float).SetPrec(300).Mul(f(x[i]), f(x[i])))
		yy.Add(yy, new(big.Float).SetPrec(300).Mul(f(y[i]), f(y[i])))
		xy.Add(xy, new(big.Float).SetPrec(300).Mul(f(x[i]), f(y[i])))
	}
	d := new(big.Float).SetPrec(300).Mul(xx, yy)
	d.Sqrt(d)
	d.Quo(xy, d)
	r, _ := d.Sub(f(1), d).Float64()
	return r
}

// nearRings: points at almost the same distance from the origin, in turn nearer and farther.
func nearRings(dim, n int, rel float64) (pts [][]float64, order []int) {
	for i := 0; i < n; i++ {
		p := make([]float64, dim)
		p[i%dim] = 1 + rel*float64(i*5%n)
		if i/dim%2 == 1 {
			p[i%dim] *= -1
		}
		pts = append(pts, p)
	}
	order = make([]int, n)
	for i := range pts {
		order[i*5%n] = i
	}
	return
}

// c2xnear: neighbours are told apart by a relative difference of 1e-8 to 1e-6.
func c2xnear(c *eng.Ctx, run func(pts [][]float64, order []int, what string) error) {
	for dim := 1; dim <= 3; dim++ {
		for _, n := range []int{2, 3, 4, 6, 7, 9, 12} {
			for _, rel := range []float64{1e-3, 1e-5, 1e-6, 1e-7, 2e-8} {
				if !c.Mine() {
					continue
				}
				pts, order := nearRings(dim, n, rel)
				what := fmt.Sprintf("%d points of dimension %d at distances 1+i*%v", n, dim, rel)
				c.Case("%s", what)
				c.State(what)
				failErr(c, short(try(func() error { return run(pts, order, what) })))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}

func c21near(c *eng.Ctx) {
	c2xnear(c, func(pts [][]float64, order []int, what string) error {
		n, dim := len(pts), len(pts[0])
		defs := []AD{}
		for j := 0; j < dim; j++ {
			defs = append(defs, AD{'F', fmt.Sprintf("x%d", j), nil})
		}
		q := make([]string, dim+1)
		for j := 0; j < dim; j++ {
			q[j] = fb(0)
		}
		q[dim] = ub(0)
		for first := 0; first < n; first++ { // whose class is asked for
			for _, names := range [][]string{{"a", "b"}, {"b", "a"}} {
				d := append(defs[:dim:dim], AD{'C', "k", names})
				t := mkTab(d, dim, nil)
				cls := make([]string, n)
				dist := make([]float64, n)
				for i, p := range pts {
					r := []string{}
					s := 0.0
					for _, v := range p {
						r = append(r, fb(v))
						s += v * v
					}
					k := 0
					if n%2 == 0 {
						k = (i*3 + first) / 2 % 2
					}
					if i == order[first] {
						k = 1
					}
					t.V = append(t.V, append(r, ub(uint64(k))))
					cls[i], dist[i] = names[k], math.Sqrt(s)
				}
				qg := buildDense(mkTab(d, dim, [][]string{q, q}), 0)
				for _, alg := range []string{"linear", "kdtree"} {
					for _, metric := range []string{"euclidean", "manhattan"} {
						for k := 1; k <= n && k <= 4; k++ {
							for how := 0; how < 3; how++ {
								m := newKNN(metric, alg, k, how == 1, how == 2)
								if err := m.Fit(buildDense(t, 0)); err != nil {
									return err
								}
								want := winners(dist, cls, k, how == 1)
								for rot := 0; rot < 2; rot++ {
									eng.SetMapRot(rot)
									p, err := m.Predict(qg)
									eng.SetMapRot(0)
									if err != nil {
										return err
									}
									for i := 0; i < 2; i++ {
										if got := base.GetClass(p, i); !want[got] {
											return fmt.Errorf("%s %s k=%d way %d, class %v: %q, want one of %v", metric, alg, k, how, names, got, want)
										}
									}
								}
							}
						}
					}
				}
			}
		}
		return nil
	})
}

func c22near(c *eng.Ctx) {
	c2xnear(c, func(pts [][]float64, order []int, what string) error {
		n, dim := len(pts), len(pts[0])
		kd := kdtree.New()
		if err := kd.Build(pts); err != nil {
			return err
		}
		qs := [][]float64{make([]float64, dim)}
		for j := 0; j < dim; j++ {
			for _, v := range []float64{1, -1} {
				q := make([]float64, dim)
				q[j] = v
				qs = append(qs, q)
			}
		}
		for _, m := range metricDefs[:3] {
			for _, q := range qs {
				for k := 1; k <= n; k++ {
					rows, dist, err := kd.Search(k, m.f, q)
					if err == nil {
						err = checkSearch(pts, q, k, rows, dist, m.ref)
					}
					if err != nil {
						return fmt.Errorf("%s, k=%d, query %v: %v", m.name, k, q, err)
					}
				}
			}
		}
		return nil
	})
}

func c23near(c *eng.Ctx) {
	c2xnear(c, func(pts [][]float64, order []int, what string) error {
		n, dim := len(pts), len(pts[0])
		flat, tgt := []float64{}, make([]float64, n)
		for i, p := range pts {
			flat = append(flat, p...)
			tgt[i] = float64(uint64(1) << uint(i))
		}
		for _, dist := range []string{"euclidean", "manhattan"} {
			m := knn.NewKnnRegressor(dist)
			m.Fit(append([]float64{}, tgt...), append([]float64{}, flat...), n, dim)
			sum := 0.0
			for k := 1; k <= n; k++ {
				sum += tgt[order[k-1]]
				if got := m.Predict(mat.NewDense(1, dim, nil), k); !near(got, sum/float64(k)) {
					return fmt.Errorf("%s: the %d nearest average %v, want %v", dist, k, got, sum/float64(k))
				}
			}
		}
		return nil
	})
}

// c22plane: the nearest point is just across the plane of a point that is far away on it.
func c22plane(c *eng.Ctx) {
	for dim := 2; dim <= 4; dim++ {
		for axis := 0; axis < dim; axis++ {
			for _, side := range []float64{1, -1} {
				for _, rel := range []float64{1e-2, 1e-4, 1e-6, 1e-7, 2e-8} {
					for more := 0; more < 6; more++ {
						if !c.Mine() {
							continue
						}
						at := func(v float64, off int) []float64 {
							p := make([]float64, dim)
							p[axis] = v
							if off > 0 {
								p[(axis+off)%dim] = 5
							}
							return p
						}
						pts := [][]float64{at(-side, 0), at(side*(1-3*rel), 1), at(side*(1-2*rel), 0)}
						for i := 0; i < more; i++ { // far away on both sides
							pts = append(pts, at(side*float64(7-14*(i%2)), i%dim))
						}
						c.Case("points %v", pts)
						c.State(c.CurCase())
						failErr(c, short(try(func() error {
							kd := kdtree.New()
							if err := kd.Build(pts); err != nil {
								return err
							}
							for _, m := range metricDefs[:3] {
								for k := 1; k <= len(pts); k++ {
									rows, dist, err := kd.Search(k, m.f, make([]float64, dim))
									if err == nil {
										err = checkSearch(pts, make([]float64, dim), k, rows, dist, m.ref)
									}
									if err != nil {
										return fmt.Errorf("%s, k=%d: %v", m.name, k, err)
									}
								}
							}
							return nil
						})))
						c.Trace()
						c.Trans(3 * len(pts))
					}
				}
			}
		}
	}
}

// c25spread: scores that differ little beside their size.
func c25spread(c *eng.Ctx) {
	for _, off := range []float64{0, 1, -1e3, 1e6, 1e9} {
		for _, step := range []float64{1, 1e-2, 1e-3} {
			for n := 1; n <= 12; n++ {
				if !c.Mine() {
					continue
				}
				sc, ms := []float64{}, []evaluation.ConfusionMatrix{}
				sum := new(big.Float).SetPrec(300)
				for i := 0; i < n; i++ {
					v := off + step*float64(i*i%7)
					sc = append(sc, v)
					ms = append(ms, evaluation.ConfusionMatrix{fmt.Sprint(i): nil})
					sum.Add(sum, new(big.Float).SetPrec(300).SetFloat64(v))
				}
				cnt := new(big.Float).SetPrec(300).SetFloat64(float64(n))
				mean, vr := new(big.Float).SetPrec(300).Quo(sum, cnt), new(big.Float).SetPrec(300)
				for _, v := range sc {
					d := new(big.Float).SetPrec(300).SetFloat64(v)
					d.Sub(d, mean)
					vr.Add(vr, d.Mul(d, d))
				}
				wm, _ := mean.Float64()
				wv, _ := vr.Quo(vr, cnt).Float64()
				c.Case("%d scores %v+%v*...", n, off, step)
				c.State(c.CurCase())
				failErr(c, try(func() error {
					m, v := evaluation.GetCrossValidatedMetric(ms, func(m evaluation.ConfusionMatrix) float64 {
						for k := range m {
							i := 0
							fmt.Sscan(k, &i)
							return sc[i]
						}
						return math.NaN()
					})
					// the mean is rounded once per score, and each difference by as much
					eps := math.Abs(off) * float64(n) * 3e-16
					if !near(m, wm) || math.Abs(v-wv) > 1e-9*wv+4*eps*(eps+math.Sqrt(wv)) {
						return fmt.Errorf("mean %v variance %v, want %v %v", m, v, wm, wv)
					}
					return nil
				}))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}
