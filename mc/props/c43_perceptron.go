package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/perceptron"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C43", Run: runC43,
		Rule:   "every sequence of up to n rows over 1..3 integer features and two classes (categorical or binary class, first or last, with or without a categorical column to be ignored; every kind of grid), learning rates and thresholds: labels of every point of a grid (alone, together, columns in another order, no rows) against a reference that runs the ten epochs of averaged perceptron updates; some data is presented 20 times over; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: both classes in training",
		Assume: []string{"a score within 1e-9 of the threshold may be labelled either way"}})
}

// avgPerceptron runs the averaged perceptron for ten epochs.
func avgPerceptron(x [][]float64, cls []int, lr, thr float64) []float64 {
	p := len(x[0])
	w, sum, steps := make([]float64, p), make([]float64, p), 0.0
	for e := 0; e < perceptron.MaxEpochs; e++ {
		for i := range x {
			s := 0.0
			for f := range w {
				s += w[f] * x[i][f]
			}
			got, want := -1.0, -1.0
			if s >= thr {
				got = 1
			}
			if cls[i] == 1 {
				want = 1
			}
			if got != want {
				for f := range w {
					w[f] += lr * (want - got) * x[i][f]
				}
			}
			for f := range w {
				sum[f] += w[f]
			}
			steps++
		}
	}
	for f := range sum {
		sum[f] /= steps
	}
	return sum
}

func runC43(c *eng.Ctx) {
	type shape struct {
		feats            int
		first, junk, bin bool
		xs               []float64
		lr, thr          float64
		q, t             int
	}
	shapes := []shape{
		{1, false, false, false, []float64{-1, 0, 2}, 0.5, 0.5, 4, 5},
		{1, true, false, true, []float64{-2, 0, 1}, 1.25, -0.5, 4, 5},
		{2, false, false, false, []float64{-1, 0, 2}, 0.25, 0.25, 3, 4},
		{2, true, true, false, []float64{-1, 0, 2}, 0.5, 0, 3, 3},
		{2, false, true, true, []float64{0, 1}, 1, 0.5, 4, 4},
		{3, false, false, false, []float64{-1, 1}, 0.5, 0.5, 3, 4},
		{3, true, true, true, []float64{0, 2}, 0.5, 1, 3, 3},
	}
	for si, s := range shapes {
		defs := []AD{}
		K := AD{'C', "k", []string{"no", "yes"}}
		if s.bin {
			K = AD{'B', "k", nil}
		}
		cc := -1
		if s.first {
			cc = 0
			defs = append(defs, K)
		}
		fc := []int{}
		for f := 0; f < s.feats; f++ {
			fc = append(fc, len(defs))
			defs = append(defs, AD{'F', fmt.Sprintf("x%d", s.feats-f), nil})
			if f == 0 && s.junk {
				defs = append(defs, AD{'C', "note", []string{"u", "v"}})
			}
		}
		if !s.first {
			cc = len(defs)
			defs = append(defs, K)
		}
		table := func(x [][]float64, cls []int) *Tab {
			t := mkTab(defs, cc, nil)
			for i := range x {
				row := make([]string, len(defs))
				for j, d := range defs {
					switch {
					case j == cc && s.bin:
						row[j] = string([]byte{byte(cls[i])})
					case j == cc:
						row[j] = ub(uint64(cls[i]))
					case d.Kind == 'C':
						row[j] = ub(uint64(i % 2))
					}
				}
				for f, j := range fc {
					row[j] = fb(x[i][f])
				}
				t.V = append(t.V, row)
			}
			return t
		}
		qx, qc := [][]float64{}, []int{}
		tuples(power(4, s.feats), func(ix []int) {
			r := []float64{}
			for _, v := range ix {
				r = append(r, []float64{-3, 0, 1, 2}[v])
			}
			qx = append(qx, r)
			qc = append(qc, len(qc)%2)
		})
		per := 2
		for f := 0; f < s.feats; f++ {
			per *= len(s.xs)
		}
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(per, n), func(ix []int) {
				if !c.Mine() {
					return
				}
				x, cls := [][]float64{}, []int{}
				sum := 0
				both := [2]bool{}
				for _, v := range ix {
					sum += v
					cls = append(cls, v%2)
					both[v%2] = true
					v /= 2
					r := []float64{}
					for f := 0; f < s.feats; f++ {
						r = append(r, s.xs[v%len(s.xs)])
						v /= len(s.xs)
					}
					x = append(x, r)
				}
				t := table(x, cls)
				c.Case("shape %d: x=%v classes=%v", si, x, cls)
				c.State(t.String())
				if both[0] && both[1] {
					c.Trace()
				}
				names := []string{}
				for _, b := range []string{"\x00", "\x01"} {
					v := []byte(b)
					if !s.bin {
						v = base.PackU64ToBytes(uint64(b[0]))
					}
					names = append(names, t.A[cc].GetStringFromSysVal(v))
				}
				ask := func(m *perceptron.AveragePerceptron, w []float64, what string, g base.FixedDataGrid, x [][]float64, from int) error {
					p := m.Predict(g)
					if p == nil {
						return fmt.Errorf("%s: no predictions", what)
					}
					if cols, r := p.Size(); r != len(x) || cols != 1 {
						return fmt.Errorf("%s: predictions of size %dx%d for %d rows", what, cols, r, len(x))
					}
					for i := range x {
						c.Trans(1)
						v := -s.thr
						for f := range w {
							v += w[f] * x[i][f]
						}
						if math.Abs(v) < 1e-9 {
							continue
						}
						want := names[0]
						if v > 0 {
							want = names[1]
						}
						got := base.GetClass(p, i)
						c.Outcome(fmt.Sprint(got, v > 0, i))
						if got != want {
							return fmt.Errorf("%s: row %v scores %v, labelled %q, want %q", what, x[i], v+s.thr, got, want)
						}
					}
					return nil
				}
				kinds := []int{sum % numKinds}
				if n <= 2 {
					kinds = seq(numKinds)
				}
				w := avgPerceptron(x, cls, s.lr, s.thr)
				for _, kind := range kinds {
					g, _, _ := makeKind(kind, t)
					if g == nil || unorderedKind(kind) {
						g, kind = buildDense(t, 0), 0
					}
					failErr(c, try(func() error {
						m := perceptron.NewAveragePerceptron(s.feats, s.lr, s.thr, 0.1)
						m.Fit(g)
						if err := ask(m, w, "training rows in "+kindNames[kind], g, x, 0); err != nil {
							return err
						}
						q, _, _ := makeKind((sum+kind)%8, table(qx, qc))
						if q == nil {
							q = buildDense(table(qx, qc), 0)
						}
						if err := ask(m, w, "all points", q, qx, 0); err != nil {
							return err
						}
						if err := ask(m, w, "columns in another order", buildDense(reverseCols(table(qx, qc)), sum%3), qx, 0); err != nil {
							return err
						}
						if err := ask(m, w, "no rows", buildDense(table(nil, nil), 0), nil, 0); err != nil {
							return err
						}
						for i := range qx {
							if n > 2 && i != sum%len(qx) {
								continue
							}
							if err := ask(m, w, "alone", buildDense(table(qx[i:i+1], qc[i:i+1]), 0), qx[i:i+1], i); err != nil {
								return err
							}
						}
						return nil
					}))
				}
				// presented often
				if n > 3 || sum%7 != 0 {
					return
				}
				failErr(c, try(func() error {
					rx, rc := [][]float64{}, []int{}
					for r := 0; r < 20; r++ {
						rx = append(rx, x...)
						rc = append(rc, cls...)
					}
					m := perceptron.NewAveragePerceptron(s.feats, s.lr, s.thr, 0.1)
					m.Fit(buildDense(table(rx, rc), 0))
					return ask(m, avgPerceptron(rx, rc, s.lr, s.thr), "presented 20 times", buildDense(table(qx, qc), 0), qx, 0)
				}))
			})
		}
	}
	c.Sample("rows (-1):no (2):yes (0):no, rate 0.5, threshold 0.5, query -3, 0, 1, 2")
	c43large(c)
}
