package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C45", Run: runC45,
		Rule:   "every algorithm of the library (all classifiers, regressors, ensembles, the neural net, clusterers, filters, evaluation and every way of saving) on every sequence of up to n of five representative rows, on every kind of grid, with queries equal to the training grid, sharing its attributes, or with their own class categories: a snapshot of every cell, attribute and class attribute of all grids (and of the stored grids behind views) is compared after each step; predictions are then overwritten, and the inputs are, to see that they share nothing; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: steps that succeed on at least two rows",
		Assume: []string{"random draws take up to three outcomes at the first points and a default sequence after", "goroutines run under one schedule"}})
}

// step is one operation; result is a prediction grid or nil.
type step struct {
	name string
	pred bool
	do   func() (base.FixedDataGrid, error)
}

type subject struct {
	name  string
	data  byte
	nfit  int
	steps func(train, query base.FixedDataGrid, dir string) []step
}

func err0(f func() error) func() (base.FixedDataGrid, error) {
	return func() (base.FixedDataGrid, error) { return nil, f() }
}

func fitOf(m interface{}, g base.FixedDataGrid) func() (base.FixedDataGrid, error) {
	return err0(func() error {
		switch f := m.(type) {
		case interface {
			Fit(base.FixedDataGrid) error
		}:
			return f.Fit(g)
		case interface{ Fit(base.FixedDataGrid) }:
			f.Fit(g)
			return nil
		}
		panic("no Fit")
	})
}

func predOf(m interface{}, g base.FixedDataGrid) func() (base.FixedDataGrid, error) {
	return func() (base.FixedDataGrid, error) {
		switch f := m.(type) {
		case interface {
			Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
		}:
			return f.Predict(g)
		case interface {
			Predict(base.FixedDataGrid) base.FixedDataGrid
		}:
			return f.Predict(g), nil
		}
		panic("no Predict")
	}
}

func subjects() []subject {
	var r []subject
	simple := func(name string, data byte, nfit int, mk func() interface{}) {
		r = append(r, subject{name, data, nfit, func(t, q base.FixedDataGrid, dir string) []step {
			m := mk()
			return []step{{"fit", false, fitOf(m, t)}, {"predict", true, predOf(m, q)}, {"predict again", true, predOf(m, q)}, {"predict training", true, predOf(m, t)}}
		}})
	}
	for _, s := range savables() {
		s := s
		r = append(r, subject{s.name, s.data, s.nfit, func(t, q base.FixedDataGrid, dir string) []step {
			m, l := s.make(), s.make()
			path := filepath.Join(dir, "m.cls")
			return []step{
				{"fit", false, err0(func() error { s.fit(m, t); return nil })},
				{"predict", true, predOf(m, q)},
				{"predict training", true, predOf(m, t)},
				{"save", false, err0(func() error { return m.Save(path) })},
				{"load", false, err0(func() error { return l.Load(path) })},
				{"predict loaded", true, predOf(l, q)},
			}
		}})
	}
	simple("knn-weighted-cosine", 'N', 2, func() interface{} { return newKNN("cosine", "linear", 2, true, false) })
	simple("id3-pruned", 'M', 2, func() interface{} { return trees.NewID3DecisionTree(0.5) })
	simple("id3-ratio-pruned", 'M', 2, func() interface{} {
		return trees.NewID3DecisionTreeFromRule(0.4, new(trees.InformationGainRatioRuleGenerator))
	})
	r = append(r, subject{"tree-prune", 'M', 2, func(t, q base.FixedDataGrid, dir string) []step {
		m := trees.NewRandomTree(2)
		id3 := trees.NewID3DecisionTree(0)
		return []step{
			{"fit", false, fitOf(m, t)}, {"prune", false, err0(func() error { m.Prune(q); return nil })}, {"predict", true, predOf(m, q)},
			{"fit id3", false, fitOf(id3, t)}, {"prune by training", false, err0(func() error { id3.Root.Prune(t); return nil })},
			{"probabilities", false, err0(func() error {
				_, err := id3.PredictProba(base.NewInstancesViewFromVisible(q, []int{0}, q.AllAttributes()))
				return err
			})}}
	}})
	simple("bernoulli-nb", 'B', 1, func() interface{} { return naive.NewBernoulliNBClassifier() })
	simple("linear-regression", 'S', 3, func() interface{} { return linear_models.NewLinearRegression() })
	simple("logistic-l2", 'S', 2, func() interface{} {
		m, err := linear_models.NewLogisticRegression("l2", 1, 1e-3)
		if err != nil {
			panic(err)
		}
		return m
	})
	simple("logistic-l1", 'S', 2, func() interface{} {
		m, err := linear_models.NewLogisticRegression("l1", 1, 1e-3)
		if err != nil {
			panic(err)
		}
		return m
	})
	simple("multi-svc-primal", 'N', 2, func() interface{} { return ensemble.NewMultiLinearSVC("l2", "l2", false, 1, 1e-3, nil) })
	simple("neural-net", 'N', 1, func() interface{} {
		m := neural.NewMultiLayerNet([]int{2})
		m.MaxIterations = 3
		return m
	})
	simple("neural-net-float", 'S', 1, func() interface{} {
		m := neural.NewMultiLayerNet([]int{})
		m.MaxIterations = 3
		return m
	})
	simple("perceptron", 'P', 1, func() interface{} { return perceptron.NewAveragePerceptron(2, 0.5, 0, 0.1) })
	for _, crit := range []string{"gini", "entropy"} {
		crit := crit
		r = append(r, subject{"cart-" + crit, 'S', 1, func(t, q base.FixedDataGrid, dir string) []step {
			m := trees.NewDecisionTreeClassifier(crit, -1, []int64{0, 1})
			return []step{{"fit", false, fitOf(m, t)},
				{"predict", false, err0(func() error { m.Predict(q); return nil })},
				{"evaluate", false, err0(func() error { _, err := m.Evaluate(q); return err })},
				{"evaluate training", false, err0(func() error { _, err := m.Evaluate(t); return err })}}
		}})
	}
	for _, crit := range []string{"mae", "mse"} {
		crit := crit
		r = append(r, subject{"cart-" + crit, 'S', 1, func(t, q base.FixedDataGrid, dir string) []step {
			m := trees.NewDecisionTreeRegressor(crit, -1)
			return []step{{"fit", false, fitOf(m, t)},
				{"predict", false, err0(func() error { m.Predict(q); return nil })},
				{"predict training", false, err0(func() error { m.Predict(t); return nil })}}
		}})
	}
	r = append(r, subject{"isolation-forest", 'S', 2, func(t, q base.FixedDataGrid, dir string) []step {
		m := trees.NewIsolationForest(2, 3, 2)
		return []step{{"fit", false, fitOf(&m, t)},
			{"predict", false, err0(func() error { m.Predict(q); return nil })},
			{"predict training", false, err0(func() error { m.Predict(t); return nil })}}
	}})
	r = append(r, subject{"dbscan", 'N', 1, func(t, q base.FixedDataGrid, dir string) []step {
		return []step{{"cluster", false, err0(func() error {
			_, err := clustering.DBSCAN(t, clustering.DBSCANParameters{
				ClusterParameters: clustering.ClusterParameters{Attributes: base.NonClassFloatAttributes(t), Metric: pairwise.NewEuclidean()}, Eps: 2, MinCount: 2})
			return err
		})}}
	}})
	r = append(r, subject{"em", 'N', 3, func(t, q base.FixedDataGrid, dir string) []step {
		m, err := clustering.NewExpectationMaximization(2)
		if err != nil {
			panic(err)
		}
		return []step{{"fit", false, err0(func() error { return m.Fit(t) })},
			{"predict", false, err0(func() error { _, err := m.Predict(q); return err })},
			{"predict training", false, err0(func() error { _, err := m.Predict(t); return err })}}
	}})
	// filters: every cell of the filtered grid is read and copied
	filt := func(name string, data byte, mk func(t base.FixedDataGrid) base.Filter, want func(a base.Attribute) bool) {
		r = append(r, subject{name, data, 2, func(t, q base.FixedDataGrid, dir string) []step {
			var f base.Filter
			read := func(g base.FixedDataGrid) func() (base.FixedDataGrid, error) {
				return err0(func() error {
					l := base.NewLazilyFilteredInstances(g, f)
					if _, err := readGrid(l); err != nil {
						return err
					}
					base.NewDenseCopy(l)
					return nil
				})
			}
			return []step{
				{"train", false, err0(func() error {
					f = mk(t)
					for _, a := range t.AllAttributes() {
						if want(a) {
							if err := f.AddAttribute(a); err != nil {
								return err
							}
						}
					}
					return f.Train()
				})},
				{"filter training", false, read(t)}, {"filter", false, read(q)},
			}
		}})
	}
	isClass := func(a base.Attribute) bool { return a.GetName() == "class" }
	isFloat := func(a base.Attribute) bool { _, ok := a.(*base.FloatAttribute); return ok && !isClass(a) }
	filt("binning", 'N', func(t base.FixedDataGrid) base.Filter { return filters.NewBinningFilter(t, 3) }, isFloat)
	filt("chimerge", 'N', func(t base.FixedDataGrid) base.Filter { return filters.NewChiMergeFilter(t, 0.9) }, isFloat)
	filt("binary", 'M', func(t base.FixedDataGrid) base.Filter { return filters.NewBinaryConvertFilter() }, func(base.Attribute) bool { return true })
	filt("float", 'M', func(t base.FixedDataGrid) base.Filter { return filters.NewFloatConvertFilter() }, func(base.Attribute) bool { return true })
	r = append(r, subject{"saving", 'M', 0, savingSteps}, subject{"saving-numbers", 'S', 0, savingSteps})
	r = append(r, subject{"evaluation", 'M', 2, func(t, q base.FixedDataGrid, dir string) []step {
		m := trees.NewID3DecisionTree(0)
		var p base.FixedDataGrid
		return []step{{"fit", false, fitOf(m, t)}, {"predict", true, func() (base.FixedDataGrid, error) { var err error; p, err = m.Predict(q); return p, err }},
			{"confusion matrix", false, err0(func() error {
				before, err := readGrid(p)
				if err != nil {
					return err
				}
				was := snapTab(before, p)
				cf, err := evaluation.GetConfusionMatrix(q, p)
				if err != nil {
					return err
				}
				evaluation.GetSummary(cf)
				evaluation.GetAccuracy(cf)
				if now, err := snapGrid(p); err != nil || now != was {
					return impure{fmt.Sprintf("evaluation changed the predictions from\n%s\nto\n%s %v", was, now, err)}
				}
				return nil
			})},
			{"cross validation", false, err0(func() error {
				_, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(t, trees.NewID3DecisionTree(0), 2)
				return err
			})},
			{"cross validation of KNN", false, err0(func() error {
				_, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(t, trees.NewRandomTree(1), 2)
				return err
			})},
		}
	}})
	return r
}

func savingSteps(t, q base.FixedDataGrid, dir string) []step {
	file := func(n string) string { return filepath.Join(dir, n) }
	return []step{
		{"serialize", false, err0(func() error { var b bytes.Buffer; return base.SerializeInstances(t, &b) })},
		{"serialize to file", false, err0(func() error { return base.SerializeInstancesToFile(t, file("g.bin")) })},
		{"csv", false, err0(func() error { return base.SerializeInstancesToCSV(t, file("g.csv")) })},
		{"csv stream", false, err0(func() error { var b bytes.Buffer; return base.SerializeInstancesToCSVStream(t, &b) })},
		{"arff", false, err0(func() error { return base.SerializeInstancesToDenseARFF(t, file("g.arff"), "r") })},
		{"text", false, err0(func() error { _ = fmt.Sprint(t); return nil })},
	}
}

// impure is an error that breaks the property.
type impure struct{ s string }

func (i impure) Error() string { return i.s }

// snapTab renders a grid with everything a caller can see of it.
func snapTab(t *Tab, g base.FixedDataGrid) string {
	var b strings.Builder
	for _, a := range g.AllAttributes() {
		b.WriteString(attrKey(a))
		if f, ok := a.(*base.FloatAttribute); ok {
			fmt.Fprintf(&b, "~%d", f.Precision)
		}
		b.WriteString(";")
	}
	b.WriteString(" class ")
	for _, a := range g.AllClassAttributes() {
		b.WriteString(attrKey(a) + ";")
	}
	b.WriteString("\n" + t.String())
	return b.String()
}

func snapGrid(g base.FixedDataGrid) (string, error) {
	t, err := readGrid(g)
	if err != nil {
		return "", err
	}
	return snapTab(t, g), nil
}

func mustSnap(g base.FixedDataGrid) string {
	s, err := snapGrid(g)
	if err != nil {
		s = "unreadable: " + err.Error()
	}
	return s
}

// checkResult decides whether a prediction grid is one, and shares nothing.
func checkResult(p, q base.FixedDataGrid, stored base.FixedDataGrid) error {
	_, n := q.Size()
	nc, np := p.Size()
	if np != n {
		return fmt.Errorf("%d predictions for %d rows", np, n)
	}
	names := func(as []base.Attribute) string {
		s := map[string]int{}
		for _, a := range as {
			s[a.GetName()]++
		}
		return fmt.Sprint(s)
	}
	cls := names(q.AllClassAttributes())
	if names(p.AllAttributes()) != cls || names(p.AllClassAttributes()) != cls || nc != len(q.AllClassAttributes()) {
		return fmt.Errorf("predictions have attributes %v and classes %v, the grid's classes are %v", p.AllAttributes(), p.AllClassAttributes(), cls)
	}
	was, pwas := mustSnap(q), mustSnap(p)
	u, ok := p.(base.UpdatableDataGrid)
	if !ok {
		return nil
	}
	scribble := func(g base.UpdatableDataGrid, mask byte) {
		_, n := g.Size()
		for _, a := range g.AllAttributes() {
			s, err := g.GetAttribute(a)
			if err != nil {
				panic(err)
			}
			for i := 0; i < n; i++ {
				v := append([]byte{}, g.Get(s, i)...)
				v[0] ^= mask
				g.Set(s, i, v)
			}
		}
	}
	scribble(u, 1)
	if now := mustSnap(q); now != was {
		return fmt.Errorf("writing to the predictions changes the grid from\n%s\nto\n%s", was, now)
	}
	scribble(u, 1)
	if su, ok := stored.(base.UpdatableDataGrid); ok {
		scribble(su, 1)
		now := mustSnap(p)
		scribble(su, 1)
		if now != pwas {
			return fmt.Errorf("writing to the grid changes the predictions from\n%s\nto\n%s", pwas, now)
		}
	}
	if now := mustSnap(p); now != pwas {
		panic("scribbling is not undone")
	}
	return nil
}

// pure runs a subject and compares all grids before and after each step.
func pure(c *eng.Ctx, ch *eng.Chooser, s subject, t, q, tStore, qStore base.FixedDataGrid, dir string, plain bool) error {
	grids := []struct {
		name string
		g    base.FixedDataGrid
		was  string
	}{{"training grid", t, mustSnap(t)}, {"query", q, mustSnap(q)}, {"stored training grid", tStore, mustSnap(tStore)}, {"stored query", qStore, mustSnap(qStore)}}
	for _, st := range s.steps(t, q, dir) {
		var res base.FixedDataGrid
		var err error
		r, p := ch.SchedFirst(2, 200000, func() { res, err = st.do() })
		for _, g := range grids {
			if now := mustSnap(g.g); now != g.was {
				return fmt.Errorf("%s changed the %s from\n%s\nto\n%s", st.name, g.name, g.was, now)
			}
		}
		if i, ok := err.(impure); ok {
			return fmt.Errorf("%s: %v", st.name, i)
		}
		if p != nil || r.Panic != "" || !r.Returned || err != nil {
			why := fmt.Sprint(err)
			if p != nil {
				why = p.String()
			} else if r.Panic != "" {
				why = r.Panic
			} else if !r.Returned {
				why = "no return"
			}
			if plain && err == nil {
				return fmt.Errorf("%s: %.300s", st.name, why)
			}
			c.Count("steps refused: "+s.name+" "+st.name, 1)
			if os.Getenv("C45_WHY") != "" {
				c.Count(fmt.Sprintf("why: %s %s: %.150s", s.name, st.name, why), 1)
			}
			return nil
		}
		c.Trans(1)
		if st.pred {
			if res == nil {
				if plain {
					return fmt.Errorf("%s: no result", st.name)
				}
				continue
			}
			in, store := q, qStore
			if strings.Contains(st.name, "training") {
				in, store = t, tStore
			}
			if err := checkResult(res, in, store); err != nil {
				return fmt.Errorf("%s: %v", st.name, err)
			}
			c.Outcome(s.name + mustSnap(res))
		}
	}
	return nil
}

// ownClass replaces the class attribute of a table by one with other categories.
func ownClass(t *Tab, cats []string) *Tab {
	r := t.clone()
	at := classCol(t)
	if _, ok := t.A[at].(*base.CategoricalAttribute); !ok {
		return nil
	}
	r.A[at] = AD{'C', t.A[at].GetName(), cats}.make()
	for i := range r.V {
		r.V[i][at] = ub(0)
	}
	return r
}

func runC45(c *eng.Ctx) {
	dir := filepath.Join(c.Scratch, "c45")
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	max := c.Pick(3, 4)
	for _, s := range subjects() {
		data := s.data
		if data == 'P' {
			data = 'N'
		}
		rows := fleetRows(data)
		for n := s.nfit; n <= max; n++ {
			tuples(power(len(rows), n), func(ix []int) {
				if !c.Thorough() && n == max && (ix[0]+2*ix[n-1])%3 != 0 || !c.Mine() {
					return
				}
				sel := [][]int{}
				for _, i := range ix {
					r := append([]int{}, rows[i]...)
					if s.data == 'P' { // a perceptron knows two classes
						r[len(r)-1] %= 2
					}
					sel = append(sel, r)
				}
				t := fleetTab(data, sel)
				if s.data == 'P' {
					t = ownClassOf(t, []string{"u", "v"})
				}
				c.Case("%s trained on rows %v", s.name, ix)
				c.State(fmt.Sprint(s.name, ix))
				kinds := []int{0}
				if n <= 2 || n == 3 && ix[0] < ix[1] && ix[1] < ix[2] || c.Thorough() {
					kinds = seq(numKinds)
				}
				for _, k := range kinds {
					for mode := 0; mode < 4; mode++ {
						if k != 0 && mode == 1 || mode >= 2 && n > 2 {
							continue
						}
						g, w, st := makeKind(k, t)
						if g == nil {
							continue
						}
						var q, qs base.FixedDataGrid
						ok := true
						switch mode {
						case 0: // a few rows, same attributes
							qt := w.selectRC(append(seq(w.rows()), seq(w.rows())...), seq(len(w.A)))
							q = buildDense(qt, k%3)
							qs = q
						case 1: // the training grid itself
							q, qs = g, st
						default: // attributes of its own
							ct := ownClass(w, [][]string{{"z"}, {"w", "u", "v"}}[mode-2])
							if ok = ct != nil; ok {
								qt := ct.clone()
								q, _, qs = makeKind(k, qt)
								ok = q != nil
							}
						}
						if !ok {
							continue
						}
						var fail error
						c.Explore(eng.Opt{MaxPoints: 3, MaxExec: c.Pick(4, 12), MaxDraws: 20000, IntDom: intEnds, Floats: []float64{0.25, 0.75}, Norms: []float64{0.5, -1}}, func(ch *eng.Chooser) {
							if fail == nil {
								if fail = pure(c, ch, s, g, q, st, qs, dir, k == 0 && mode <= 1); fail != nil {
									fail = fmt.Errorf("%s, query %d: %v", kindNames[k], mode, fail)
								}
							}
						})
						if !failErr(c, fail) {
							c.Trace()
						}
					}
				}
			})
		}
	}
	c.Sample("bagged-trees trained on rows 0 1 of a filtered view, query with classes w u v: fit, predict, save, load")
	c45large(c)
}

func intEnds(n int) []int {
	switch n {
	case 1:
		return []int{0}
	case 2:
		return []int{0, 1}
	}
	return []int{0, n / 2, n - 1}
}

func ownClassOf(t *Tab, cats []string) *Tab {
	r := t.clone()
	at := classCol(t)
	r.A[at] = AD{'C', t.A[at].GetName(), cats}.make()
	return r
}
