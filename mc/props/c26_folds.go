package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C26", Run: runC26,
		Rule:   "every outcome of every random draw of cross-validating up to n rows in 1..m folds with a recording classifier (every training and test set is compared row by row), failing at every call, and with real classifiers; every vector of up to five scores for the mean and variance; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two folds",
		Assume: []string{"folds without rows are legal: their matrix is empty"}})
}

// recorder is a classifier that notes what it is shown.
type recorder struct {
	base.BaseClassifier
	t      *Tab
	trains [][]string
	tests  [][]string
	cls    [][]string // classes of the test rows
	calls  int
	failAt int
}

func gridRows(g base.FixedDataGrid) []string {
	t, err := readGrid(g)
	if err != nil {
		panic(err)
	}
	r := make([]string, t.rows())
	for i := range r {
		r[i] = t.row(i)
	}
	return r
}

func (r *recorder) call() error {
	r.calls++
	if r.calls == r.failAt {
		return fmt.Errorf("told to fail")
	}
	return nil
}

func (r *recorder) Fit(g base.FixedDataGrid) error {
	if len(r.trains) != len(r.tests) {
		return fmt.Errorf("trained twice")
	}
	r.trains = append(r.trains, gridRows(g))
	return r.call()
}

func (r *recorder) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	if len(r.trains) != len(r.tests)+1 {
		return nil, fmt.Errorf("predicting before training")
	}
	rows := gridRows(g)
	r.tests = append(r.tests, rows)
	p := base.GeneratePredictionVector(g)
	cls := []string{}
	for i := range rows {
		cls = append(cls, base.GetClass(g, i))
	}
	r.cls = append(r.cls, cls)
	for i := range rows {
		base.SetClass(p, i, predictFor(rows[i]))
	}
	return p, r.call()
}

// predictFor is an arbitrary but fixed function of a row.
func predictFor(row string) string {
	s := 0
	for _, b := range row {
		s = (s*7 + int(b)) % 1009
	}
	return string(rune('u' + s%3))
}

func (r *recorder) Save(string) error                                         { return nil }
func (r *recorder) Load(string) error                                         { return nil }
func (r *recorder) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (r *recorder) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (r *recorder) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }
func (r *recorder) String() string                                            { return "recorder" }

func runC26(c *eng.Ctx) {
	defs := []AD{{'F', "x", nil}, {'C', "c", []string{"p", "q"}}, {'C', "k", []string{"u", "v", "w"}}}
	mk := func(n int, dup bool) *Tab {
		t := mkTab(defs, 2, nil)
		for i := 0; i < n; i++ {
			x := float64(i)
			if dup {
				x = float64(i / 2)
			}
			t.V = append(t.V, []string{fb(x), ub(uint64(i / 2 % 2)), ub(uint64(i % 3))})
		}
		return t
	}
	maxRows, maxFolds := c.Pick(6, 7), c.Pick(4, 5)
	for n := 0; n <= maxRows; n++ {
		for folds := 1; folds <= maxFolds; folds++ {
			for kind := 0; kind < numKinds; kind++ {
				if n > 3 && kind > 0 || n == 0 && kind > 0 {
					continue
				}
				for _, dup := range []bool{false, true} {
					if !c.Mine() {
						continue
					}
					t := mk(n, dup)
					g, shown, _ := makeKind(kind, t)
					if g == nil {
						continue
					}
					want := make([]string, shown.rows())
					for i := range want {
						want[i] = shown.row(i)
					}
					want = sorted(want)
					n := len(want)
					c.Case("%d rows, %d folds, %s, dup=%v", n, folds, kindNames[kind], dup)
					c.Explore(eng.Opt{MaxExec: c.Pick(20000, 100000)}, func(ch *eng.Chooser) {
						r := &recorder{t: shown}
						var ms []evaluation.ConfusionMatrix
						var err error
						if p := ch.Call(func() { ms, err = evaluation.GenerateCrossFoldValidationConfusionMatrices(g, r, folds) }); p != nil {
							c.Fail("panic", "draws %v: %v", ch.Choices(), p)
							return
						}
						c.State(fmt.Sprint(n, folds, kind, dup, ch.Choices()))
						if err == nil {
							err = checkFolds(r, ms, want, folds)
						}
						if err != nil {
							c.Fail(err.Error(), "draws %v: %v", ch.Choices(), err)
							return
						}
						c.Trans(folds)
						c.Trace()
						c.Outcome(fmt.Sprint(r.tests))
					})
					for at := 1; at <= 2*folds; at++ {
						r := &recorder{t: shown, failAt: at}
						failErr(c, try(func() error {
							_, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(g, r, folds)
							if err == nil {
								return fmt.Errorf("error of call %d was dropped", at)
							}
							if r.calls != at {
								return fmt.Errorf("%d calls after failing at %d", r.calls, at)
							}
							return nil
						}))
					}
				}
			}
		}
	}
	// Real classifiers: the matrices are those of training and testing by hand.
	for n := 2; n <= c.Pick(4, 5); n++ {
		for folds := 2; folds <= 3; folds++ {
			for m := 0; m < 2; m++ {
				if !c.Mine() {
					continue
				}
				t := mkTab([]AD{defs[0], defs[2]}, 1, nil)
				for i := 0; i < n; i++ {
					t.V = append(t.V, []string{fb(float64(i * i)), ub(uint64(i * 2 % 3))})
				}
				g := buildDense(t, 0)
				c.Case("real classifier %d, %d rows, %d folds", m, n, folds)
				make := func() base.Classifier {
					if m == 0 {
						return knn.NewKnnClassifier("euclidean", "linear", 1)
					}
					return trees.NewID3DecisionTree(0)
				}
				c.Explore(eng.Opt{MaxExec: c.Pick(20000, 100000)}, func(ch *eng.Chooser) {
					spy := &spyCls{Classifier: make()}
					var ms []evaluation.ConfusionMatrix
					var err error
					p := ch.Call(func() { ms, err = evaluation.GenerateCrossFoldValidationConfusionMatrices(g, spy, folds) })
					c.Trans(folds)
					if spy.empty {
						return // no training rows: up to the classifier
					}
					if p != nil {
						c.Fail("panic", "draws %v: %v", ch.Choices(), p)
						return
					}
					err2 := try(func() error {
						if err != nil {
							return err
						}
						for i, tr := range spy.trains {
							cls := make()
							if err := cls.Fit(tr); err != nil {
								return err
							}
							p, err := cls.Predict(spy.tests[i])
							if err != nil {
								return err
							}
							want := map[string]map[string]int{}
							_, k := p.Size()
							for j := 0; j < k; j++ {
								a, b := base.GetClass(spy.tests[i], j), base.GetClass(p, j)
								if want[a] == nil {
									want[a] = map[string]int{}
								}
								want[a][b]++
							}
							if fmt.Sprint(want) != fmt.Sprint(map[string]map[string]int(ms[i])) {
								return fmt.Errorf("fold %d: %v, want %v", i, ms[i], want)
							}
						}
						return nil
					})
					if err2 != nil {
						c.Fail(err2.Error(), "draws %v: %v", ch.Choices(), err2)
						return
					}
					c.Trace()
				})
			}
		}
	}
	// Mean and variance.
	alpha := []float64{0, 1, 0.25, -3}
	for n := 1; n <= 5; n++ {
		tuples(power(len(alpha), n), func(ix []int) {
			if !c.Mine() {
				return
			}
			ms := make([]evaluation.ConfusionMatrix, n)
			mean, vr := 0.0, 0.0
			for i := range ms {
				ms[i] = evaluation.ConfusionMatrix{fmt.Sprint(ix[i]): nil}
				mean += alpha[ix[i]] / float64(n)
			}
			for i := range ms {
				vr += (alpha[ix[i]] - mean) * (alpha[ix[i]] - mean) / float64(n)
			}
			c.Case("scores %v", ix)
			failErr(c, try(func() error {
				m, v := evaluation.GetCrossValidatedMetric(ms, func(m evaluation.ConfusionMatrix) float64 {
					for k := range m {
						i := 0
						fmt.Sscan(k, &i)
						return alpha[i]
					}
					return math.NaN()
				})
				if math.Abs(m-mean) > 1e-9 || math.Abs(v-vr) > 1e-9 {
					return fmt.Errorf("mean %v variance %v, want %v %v", m, v, mean, vr)
				}
				c.Trans(1)
				return nil
			}))
		})
	}
	c.Sample("4 rows, 3 folds, fold of each row 0 2 2 0: fold 1 is empty")
	c26large(c)
}

type spyCls struct {
	base.Classifier
	trains, tests []base.FixedDataGrid
	empty         bool
}

func (s *spyCls) Fit(g base.FixedDataGrid) error {
	s.trains = append(s.trains, g)
	if _, n := g.Size(); n == 0 {
		s.empty = true
		return fmt.Errorf("nothing to train on")
	}
	return s.Classifier.Fit(g)
}

func (s *spyCls) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	s.tests = append(s.tests, g)
	return s.Classifier.Predict(g)
}

func checkFolds(r *recorder, ms []evaluation.ConfusionMatrix, want []string, folds int) error {
	if len(r.trains) != folds || len(r.tests) != folds || len(ms) != folds {
		return fmt.Errorf("%d trainings, %d tests and %d matrices for %d folds", len(r.trains), len(r.tests), len(ms), folds)
	}
	all := []string{}
	for i := range r.tests {
		all = append(all, r.tests[i]...)
		if both := sorted(append(append([]string{}, r.tests[i]...), r.trains[i]...)); !same(both, want) {
			return fmt.Errorf("fold %d: training and test rows together are %v, want %v", i, both, want)
		}
	}
	if !same(sorted(all), want) {
		return fmt.Errorf("tested rows are %v, want %v", sorted(all), want)
	}
	for i, m := range ms {
		w := map[string]map[string]int{}
		for j, row := range r.tests[i] {
			cls := r.cls[i][j]
			p := predictFor(row)
			if w[cls] == nil {
				w[cls] = map[string]int{}
			}
			w[cls][p]++
		}
		for a := range w {
			for b, v := range w[a] {
				if m[a][b] != v {
					return fmt.Errorf("fold %d: %v, want %v", i, m, w)
				}
			}
		}
		sum := 0
		for a := range m {
			for _, v := range m[a] {
				sum += v
			}
		}
		if sum != len(r.tests[i]) {
			return fmt.Errorf("fold %d: %v, want %v", i, m, w)
		}
	}
	return nil
}
