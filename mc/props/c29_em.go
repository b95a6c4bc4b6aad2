package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/clustering"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C29", Run: runC29,
		Rule:   "every sequence of up to n points of small grids in one, two or three dimensions, one to three components, every outcome of the initialising draws over a set of fractions (bounded executions), with and without a class and with every kind of grid for small sets; the training rows and further rows (far away, none at all, columns in another order) are assigned: the cluster map must put each row once, into a component of highest density computed from the fitted parameters by elimination; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two components",
		Assume: []string{"densities that agree to nine digits may be ranked either way", "the fitted parameters themselves are those the model reports"}})
}

// logDensity of x under a normal distribution, by Gaussian elimination.
func logDensity(x, mean []float64, cov [][]float64) (float64, error) {
	n := len(x)
	a := make([][]float64, n)
	for i := range a {
		a[i] = append(append([]float64{}, cov[i]...), x[i]-mean[i])
	}
	det := 1.0
	for i := 0; i < n; i++ {
		if !(a[i][i] > 0) {
			return 0, fmt.Errorf("covariance %v is not positive definite", cov)
		}
		det *= a[i][i]
		for j := i + 1; j < n; j++ {
			f := a[j][i] / a[i][i]
			for k := i; k <= n; k++ {
				a[j][k] -= f * a[i][k]
			}
		}
	}
	d := make([]float64, n)
	for i := n - 1; i >= 0; i-- {
		d[i] = a[i][n]
		for j := i + 1; j < n; j++ {
			d[i] -= a[i][j] * d[j]
		}
		d[i] /= a[i][i]
	}
	q := 0.0
	for i := range d {
		q += d[i] * (x[i] - mean[i])
	}
	return -0.5 * (q + math.Log(det) + float64(n)*math.Log(2*math.Pi)), nil
}

func checkEM(m *clustering.ExpectationMaximization, comps int, q *Tab, cm clustering.ClusterMap, cols []int) error {
	in := map[int]int{}
	for id, rows := range cm {
		if id < 0 || id >= comps {
			return fmt.Errorf("component %d of %d", id, comps)
		}
		for _, r := range rows {
			if _, ok := in[r]; ok || r < 0 || r >= q.rows() {
				return fmt.Errorf("row %d in %v", r, cm)
			}
			in[r] = id
		}
	}
	if len(in) != q.rows() {
		return fmt.Errorf("%d rows in %v", q.rows(), cm)
	}
	if n, f := m.Params.Means.Dims(); n != comps || f != len(cols) || len(m.Params.Covs) != comps {
		return fmt.Errorf("parameters of %d components and %d attributes", n, f)
	}
	for r := range q.V {
		x := rowFloats(q, r, cols)
		ld := make([]float64, comps)
		best := math.Inf(-1)
		for k := range ld {
			mean, cov := make([]float64, len(cols)), make([][]float64, len(cols))
			for i := range mean {
				mean[i] = m.Params.Means.At(k, i)
				cov[i] = make([]float64, len(cols))
				for j := range mean {
					cov[i][j] = m.Params.Covs[k].At(i, j)
				}
			}
			var err error
			if ld[k], err = logDensity(x, mean, cov); err != nil {
				return err
			}
			best = math.Max(best, ld[k])
		}
		if got := ld[in[r]]; got < best-1e-8*(1+math.Abs(best)) {
			return fmt.Errorf("row %d %v is in component %d, log densities %v, clusters %v", r, x, in[r], ld, cm)
		}
	}
	return nil
}

func runC29(c *eng.Ctx) {
	B, C := AD{'B', "b", nil}, AD{'C', "c", []string{"p", "q"}}
	X, Y, Z, K := AD{'F', "x", nil}, AD{'F', "y", nil}, AD{'F', "z", nil}, AD{'C', "k", []string{"u", "v"}}
	for _, s := range []struct {
		defs []AD
		cls  int
		al   []float64
		q, t int
	}{
		{[]AD{X, K}, 1, []float64{0, 1, 3, -8.5}, 4, 5},
		{[]AD{X}, -1, []float64{0, 1, 1e6}, 3, 5},
		{[]AD{X, Y}, -1, []float64{0, 1, 5}, 3, 4},
		{[]AD{K, X, Y}, 0, []float64{0, 2}, 4, 5},
		{[]AD{B, X, C, K}, 3, []float64{0, 2, 3}, 3, 4},
		{[]AD{X, Y, Z}, -1, []float64{0, 3}, 3, 4},
	} {
		dim := 0
		for _, d := range s.defs {
			if d.Kind == 'F' {
				dim++
			}
		}
		per := power(len(s.al), dim)
		pts := [][]float64{}
		tuples(per, func(ix []int) {
			p := []float64{}
			for _, i := range ix {
				p = append(p, s.al[i])
			}
			pts = append(pts, p)
		})
		table := func(rows [][]float64) *Tab {
			t := mkTab(s.defs, s.cls, nil)
			for r, p := range rows {
				row := []string{}
				f := 0
				for _, d := range s.defs {
					if d.Kind == 'B' {
						row = append(row, string([]byte{byte(r & 1)}))
					} else if d.Kind == 'C' {
						row = append(row, ub(uint64(r&1)))
					} else {
						row = append(row, fb(p[f]))
						f++
					}
				}
				t.V = append(t.V, row)
			}
			return t
		}
		qrows := [][]float64{}
		for _, v := range []float64{0, 0.5, 2, -3, 40, 1e5} {
			p := make([]float64, dim)
			for i := range p {
				p[i] = v
				if i > 0 {
					p[i] = v / 2
				}
			}
			qrows = append(qrows, p)
		}
		for n := 0; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(len(pts), n), func(ix []int) {
				if !c.Mine() {
					return
				}
				rows := [][]float64{}
				sum := 0
				for _, i := range ix {
					rows = append(rows, pts[i])
					sum += i
				}
				t := table(rows)
				c.Case("points %v", rows)
				c.State(t.String())
				for comps := 1; comps <= 3; comps++ {
					kinds := []int{(sum + comps) % numKinds}
					if n <= 1 {
						kinds = seq(numKinds)
					}
					for _, kind := range kinds {
						g, tt, _ := makeKind(kind, t)
						if g == nil {
							continue
						}
						fl := []float64{0, 0.5, 0.999}
						if comps*dim > 3 {
							fl = []float64{0.1, 0.9}
						}
						c.Explore(eng.Opt{Floats: fl, MaxExec: c.Pick(30, 100)}, func(ch *eng.Chooser) {
							failErr(c, try(func() error {
								m, err := clustering.NewExpectationMaximization(comps)
								if err != nil {
									return err
								}
								if _, err := m.Predict(g); err == nil {
									return fmt.Errorf("%d components: predicts before fitting", comps)
								}
								var ferr error
								if p := ch.Call(func() { ferr = m.Fit(g) }); p != nil {
									return fmt.Errorf("%s, %d components, draws %v: fitting crashes: %v", kindNames[kind], comps, ch.Choices(), p)
								}
								if n < comps {
									if ferr == nil {
										return fmt.Errorf("%d components for %d rows", comps, n)
									}
									return nil
								}
								if ferr != nil {
									return ferr
								}
								c.Trans(1)
								// The model doesn't say which column of its
								// parameters belongs to which attribute
								type ans struct {
									q    *Tab
									cm   clustering.ClusterMap
									cols []int
								}
								answers := []ans{}
								for qi, q := range []*Tab{tt, table(qrows), table(nil), reverseCols(table(qrows))} {
									qg := g
									if qi > 0 {
										if kind == 8 {
											continue
										}
										qg = buildDense(q, 0)
									}
									cm, err := m.Predict(qg)
									if err != nil {
										return err
									}
									cols := features(tt)
									if qi == 3 {
										cols = nil
										for _, j := range features(tt) {
											cols = append(cols, len(q.A)-1-j)
										}
									}
									c.Outcome(fmt.Sprint(len(cm), comps, qi))
									answers = append(answers, ans{q, cm, cols})
								}
								var first error
								fits := false
								perms(dim, func(p []int) {
									for qi, a := range answers {
										cols := []int{}
										for _, j := range p {
											cols = append(cols, a.cols[j])
										}
										if err := checkEM(m, comps, a.q, a.cm, cols); err != nil {
											if first == nil {
												first = fmt.Errorf("%s, %d components, draws %v, query %d: %v", kindNames[kind], comps, ch.Choices(), qi, err)
											}
											return
										}
									}
									fits = true
								})
								if !fits {
									return first
								}
								return nil
							}))
							if comps > 1 {
								c.Trace()
							}
						})
					}
				}
			})
		}
	}
	failErr(c, try(func() error {
		for _, k := range []int{0, -1} {
			if _, err := clustering.NewExpectationMaximization(k); err == nil {
				return fmt.Errorf("%d components are accepted", k)
			}
		}
		return nil
	}))
	c.Sample("x = 0 1 3, two components starting at the fractions 0 and 0.999 of the range")
	c29large(c)
}
