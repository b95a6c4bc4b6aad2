package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C40", Run: runC40,
		Rule:   "every multiset of up to n rows over integer values of 1..3 numeric attributes and a numeric class (first, middle or last column; with or without a categorical and a binary column to be ignored; rows in ascending, descending or rotated order; every kind of grid): predictions of the training rows and of other rows (alone, together, columns in another order, none) must be those of the exact rational least-squares solution; too few rows and predicting before fitting must be errors; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: full column rank",
		Assume: []string{"rank-deficient training sets have no unique fit and are skipped", "predictions agree to 1e-6"}})
}

// multisets calls f with every nondecreasing sequence of k numbers below n.
func multisets(n, k int, f func(ix []int)) {
	ix := make([]int, k)
	var rec func(p, from int)
	rec = func(p, from int) {
		if p == k {
			f(ix)
			return
		}
		for v := from; v < n; v++ {
			ix[p] = v
			rec(p+1, v)
		}
	}
	rec(0, 0)
}

// leastSquares is the exact solution of the normal equations, intercept first.
func leastSquares(x [][]int64, y []int64) []*big.Rat {
	p := 1
	if len(x) > 0 {
		p += len(x[0])
	}
	at := func(i, j int) int64 {
		if j == 0 {
			return 1
		}
		return x[i][j-1]
	}
	m := make([][]*big.Rat, p)
	for a := range m {
		m[a] = make([]*big.Rat, p+1)
		for b := 0; b <= p; b++ {
			var s int64
			for i := range x {
				if b < p {
					s += at(i, a) * at(i, b)
				} else {
					s += at(i, a) * y[i]
				}
			}
			m[a][b] = big.NewRat(s, 1)
		}
	}
	for a := 0; a < p; a++ {
		piv := -1
		for r := a; r < p; r++ {
			if m[r][a].Sign() != 0 {
				piv = r
				break
			}
		}
		if piv < 0 {
			return nil
		}
		m[a], m[piv] = m[piv], m[a]
		for r := 0; r < p; r++ {
			if r == a {
				continue
			}
			f := new(big.Rat).Quo(m[r][a], m[a][a])
			for b := a; b <= p; b++ {
				m[r][b] = new(big.Rat).Sub(m[r][b], new(big.Rat).Mul(f, m[a][b]))
			}
		}
	}
	sol := make([]*big.Rat, p)
	for a := range sol {
		sol[a] = new(big.Rat).Quo(m[a][p], m[a][a])
	}
	return sol
}

func runC40(c *eng.Ctx) {
	type shape struct {
		feats, cls int // class position among features
		junk       bool
		xs, ys     []int64
		q, t       int
	}
	shapes := []shape{
		{1, 1, false, []int64{-2, 0, 1, 3}, []int64{-1, 0, 2}, 4, 5},
		{1, 0, true, []int64{-1, 0, 2}, []int64{-1, 0, 2}, 4, 5},
		{2, 2, false, []int64{-1, 0, 2}, []int64{-1, 1}, 4, 5},
		{2, 1, true, []int64{0, 1}, []int64{-2, 3}, 5, 6},
		{2, 0, false, []int64{-3, 1}, []int64{-1, 0, 4}, 4, 5},
		{3, 3, false, []int64{0, 1}, []int64{0, 3}, 5, 6},
		{3, 0, true, []int64{-1, 2}, []int64{-1, 4}, 5, 5},
	}
	for si, s := range shapes {
		defs := []AD{}
		cc := -1
		fcols := []int{}
		for f := 0; f <= s.feats; f++ {
			if f == s.cls {
				cc = len(defs)
				defs = append(defs, AD{'F', "y", nil})
			}
			if f < s.feats {
				fcols = append(fcols, len(defs))
				defs = append(defs, AD{'F', fmt.Sprintf("x%d", s.feats-f), nil})
			}
			if f == 0 && s.junk {
				defs = append(defs, AD{'C', "note", []string{"u", "v"}}, AD{'B', "flag", nil})
			}
		}
		table := func(x [][]int64, y []int64) *Tab {
			t := mkTab(defs, cc, nil)
			for i := range x {
				row := make([]string, len(defs))
				for j, d := range defs {
					switch {
					case j == cc:
						row[j] = fb(float64(y[i]))
					case d.Kind == 'C':
						row[j] = ub(uint64((i + 1) % 2))
					case d.Kind == 'B':
						row[j] = string([]byte{byte(i % 2)})
					}
				}
				for f, j := range fcols {
					row[j] = fb(float64(x[i][f]))
				}
				t.V = append(t.V, row)
			}
			return t
		}
		per := len(s.ys)
		for f := 0; f < s.feats; f++ {
			per *= len(s.xs)
		}
		// queries: corners inside and outside the alphabet
		qx := [][]int64{}
		tuples(power(3, s.feats), func(ix []int) {
			r := []int64{}
			for _, v := range ix {
				r = append(r, []int64{-7, 0, 4}[v])
			}
			qx = append(qx, r)
		})
		qy := make([]int64, len(qx))
		for i := range qy {
			qy[i] = int64(100 + i)
		}
		for n := 0; n <= c.Pick(s.q, s.t); n++ {
			multisets(per, n, func(ix []int) {
				if !c.Mine() {
					return
				}
				x, y := [][]int64{}, []int64{}
				sum := 0
				for k := range ix {
					v := ix[k]
					sum += v
					r := []int64{}
					y = append(y, s.ys[v%len(s.ys)])
					v /= len(s.ys)
					for f := 0; f < s.feats; f++ {
						r = append(r, s.xs[v%len(s.xs)])
						v /= len(s.xs)
					}
					x = append(x, r)
				}
				if n > 1 { // another order of the rows
					k := sum % n
					x, y = append(append([][]int64{}, x[k:]...), x[:k]...), append(append([]int64{}, y[k:]...), y[:k]...)
					if sum%2 == 1 {
						for i := 0; i < n/2; i++ {
							x[i], x[n-1-i], y[i], y[n-1-i] = x[n-1-i], x[i], y[n-1-i], y[i]
						}
					}
				}
				t := table(x, y)
				c.Case("shape %d: x=%v y=%v", si, x, y)
				c.State(t.String())
				if n < s.feats+1 {
					failErr(c, try(func() error {
						m := linear_models.NewLinearRegression()
						if _, err := m.Predict(buildDense(t, 0)); err == nil {
							return fmt.Errorf("predicting before fitting is not an error")
						}
						if err := m.Fit(buildDense(t, 0)); err == nil {
							return fmt.Errorf("fitting %d attributes to %d rows is not an error", s.feats, n)
						}
						if _, err := m.Predict(buildDense(t, 0)); err == nil {
							return fmt.Errorf("predicting after a failed fit is not an error")
						}
						c.Trans(3)
						c.Outcome("few")
						return nil
					}))
					return
				}
				sol := leastSquares(x, y)
				if sol == nil {
					c.Count("rank_deficient", 1)
					return
				}
				beta := []float64{}
				for _, r := range sol {
					f, _ := r.Float64()
					beta = append(beta, f)
				}
				c.Trace()
				kinds := []int{sum % numKinds}
				if n == s.feats+1 {
					kinds = seq(numKinds)
				}
				for _, kind := range kinds {
					g, w, _ := makeKind(kind, t)
					if g == nil {
						g, w, _ = makeKind(0, t)
						kind = 0
					}
					_ = w
					failErr(c, try(func() error {
						m := linear_models.NewLinearRegression()
						if err := m.Fit(g); err != nil {
							return err
						}
						ask := func(what string, g base.FixedDataGrid, x [][]int64) error {
							p, err := m.Predict(g)
							if err != nil {
								return fmt.Errorf("%s: %v", what, err)
							}
							cols, r := p.Size()
							if r != len(x) || cols != 1 {
								return fmt.Errorf("%s: predictions of size %dx%d for %d rows", what, cols, r, len(x))
							}
							sp, err := p.GetAttribute(p.AllClassAttributes()[0])
							if err != nil {
								return err
							}
							for i := range x {
								c.Trans(1)
								want := beta[0]
								for f := range x[i] {
									want += beta[f+1] * float64(x[i][f])
								}
								got := base.UnpackBytesToFloat(p.Get(sp, i))
								if !(math.Abs(got-want) <= 1e-6*(1+math.Abs(want))) {
									return fmt.Errorf("%s (%s): row %v predicts %v, least squares gives %v", what, kindNames[kind], x[i], got, want)
								}
								c.Outcome(fmt.Sprintf("%.4f", want))
							}
							return nil
						}
						if err := ask("training rows", g, x); err != nil {
							return err
						}
						if kind == 8 {
							q, _, _ := makeKind(8, table(qx, qy))
							return ask("other rows", q, qx)
						}
						qk := (sum + n) % numKinds
						q, _, _ := makeKind(qk, table(qx, qy))
						if q == nil || qk == 8 {
							q = buildDense(table(qx, qy), 0)
						}
						if err := ask("other rows", q, qx); err != nil {
							return err
						}
						if err := ask("columns in another order", buildDense(reverseCols(table(qx, qy)), sum%3), qx); err != nil {
							return err
						}
						if err := ask("no rows", buildDense(table(nil, nil), 0), nil); err != nil {
							return err
						}
						i := sum % len(qx)
						return ask("alone", buildDense(table(qx[i:i+1], qy[i:i+1]), 0), qx[i:i+1])
					}))
				}
			})
		}
	}
	c.Sample("rows (x1=-1,y=0) (x1=0,y=2) (x1=2,y=-1): intercept and slope from the normal equations, predictions of -7, 0, 4")
	c40large(c)
}
