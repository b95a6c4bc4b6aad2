package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C46", Run: runC46,
		Rule:   "every sequence up to a depth of training on one of six data sets (other rows, classes, numbers and orders of columns), loading a model trained on one of them, saving, predicting and being asked something unanswerable, on one instance of every learner (all savable classifiers, regressions, logistic and multi-class support vectors, neural nets, perceptron, CART trees, isolation forests, mixtures); after every operation the answers for the current data set's query are compared with those of a new instance which has done nothing but the last training or loading, and a second instance trained before must not have changed. Non-trivial: sequences with two trainings or loadings",
		Assume: []string{"random draws depend on the goroutine and its count of draws since training began; goroutines run under one schedule", "after a training or loading that fails nothing is required until the next one that succeeds"}})
}

// learner is one instance of something that is trained.
type learner struct {
	fit  func(g base.FixedDataGrid) error
	ask  func(g base.FixedDataGrid) (string, error)
	save func(path string) error
	load func(path string) error
}

type learnerKind struct {
	name string
	data byte
	make func() learner
}

// gridText is a grid's class column as text.
func gridText(p base.FixedDataGrid, err error) (string, error) {
	if err != nil {
		return "", err
	}
	if p == nil {
		return "", fmt.Errorf("no predictions")
	}
	t, err := readGrid(p)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for i := range t.V {
		for j, a := range t.A {
			b.WriteString(a.GetStringFromSysVal([]byte(t.V[i][j])))
			if a.GetType() == base.Float64Type {
				fmt.Fprintf(&b, "/%x", t.V[i][j])
			}
			b.WriteString(" ")
		}
	}
	return b.String(), nil
}

func asLearner(m interface{}) learner {
	l := learner{
		fit: func(g base.FixedDataGrid) error { _, err := fitOf(m, g)(); return err },
		ask: func(g base.FixedDataGrid) (string, error) { return gridText(predOf(m, g)()) },
	}
	if s, ok := m.(model); ok {
		l.save, l.load = s.Save, s.Load
	}
	return l
}

func learnerKinds() []learnerKind {
	var r []learnerKind
	for _, s := range savables() {
		s := s
		r = append(r, learnerKind{s.name, s.data, func() learner {
			m := s.make()
			l := asLearner(m)
			l.fit = func(g base.FixedDataGrid) error { s.fit(m, g); return nil }
			return l
		}})
	}
	add := func(name string, data byte, mk func() interface{}) {
		r = append(r, learnerKind{name, data, func() learner { return asLearner(mk()) }})
	}
	add("knn-weighted-3", 'N', func() interface{} { return newKNN("euclidean", "linear", 3, true, true) })
	add("id3-pruned", 'M', func() interface{} { return trees.NewID3DecisionTree(0.5) })
	add("id3-ratio", 'M', func() interface{} {
		return trees.NewID3DecisionTreeFromRule(0, new(trees.InformationGainRatioRuleGenerator))
	})
	add("random-tree-2", 'M', func() interface{} { return trees.NewRandomTree(2) })
	add("bag of 3 features", 'M', func() interface{} { return bag(3, trees.NewRandomTree(2), trees.NewID3DecisionTree(0)) })
	add("bernoulli-nb", 'B', func() interface{} { return naive.NewBernoulliNBClassifier() })
	add("linear-regression", 'S', func() interface{} { return linear_models.NewLinearRegression() })
	for _, pen := range []string{"l1", "l2"} {
		pen := pen
		add("logistic-"+pen, 'S', func() interface{} {
			m, err := linear_models.NewLogisticRegression(pen, 1, 1e-3)
			if err != nil {
				panic(err)
			}
			return m
		})
	}
	add("svc-auto", 'S', func() interface{} {
		m := svc()
		m.Param.WeightClassesAutomatically = true
		return m
	})
	add("multi-svc-weights", 'N', func() interface{} {
		return ensemble.NewMultiLinearSVC("l2", "l2", false, 1, 1e-3, map[string]float64{"u0": 2, "u1": 1, "u2": 0.5})
	})
	add("neural-net", 'N', func() interface{} {
		m := neural.NewMultiLayerNet([]int{3})
		m.MaxIterations = 3
		return m
	})
	add("neural-net-float", 'S', func() interface{} {
		m := neural.NewMultiLayerNet([]int{})
		m.MaxIterations = 3
		return m
	})
	add("perceptron", 'P', func() interface{} { return perceptron.NewAveragePerceptron(2, 0.5, 0.25, 0.1) })
	for _, crit := range []string{"gini", "entropy"} {
		crit := crit
		r = append(r, learnerKind{"cart-" + crit, 'S', func() learner {
			m := trees.NewDecisionTreeClassifier(crit, -1, []int64{0, 1})
			return learner{fit: func(g base.FixedDataGrid) error { return m.Fit(g) },
				ask: func(g base.FixedDataGrid) (string, error) { return fmt.Sprint(m.Predict(g)), nil }}
		}})
	}
	for _, crit := range []string{"mae", "mse"} {
		crit := crit
		r = append(r, learnerKind{"cart-" + crit, 'S', func() learner {
			m := trees.NewDecisionTreeRegressor(crit, 3)
			return learner{fit: func(g base.FixedDataGrid) error { return m.Fit(g) },
				ask: func(g base.FixedDataGrid) (string, error) { return fmt.Sprint(m.Predict(g)), nil }}
		}})
	}
	r = append(r, learnerKind{"isolation-forest", 'S', func() learner {
		m := trees.NewIsolationForest(3, 4, 5)
		return learner{fit: func(g base.FixedDataGrid) error { m.Fit(g); return nil },
			ask: func(g base.FixedDataGrid) (string, error) { return fmt.Sprint(m.Predict(g)), nil }}
	}})
	r = append(r, learnerKind{"em", 'N', func() learner {
		m, err := clustering.NewExpectationMaximization(2)
		if err != nil {
			panic(err)
		}
		return learner{fit: func(g base.FixedDataGrid) error { return m.Fit(g) },
			ask: func(g base.FixedDataGrid) (string, error) {
				cm, err := m.Predict(g)
				if err != nil {
					return "", err
				}
				_, n := g.Size()
				of := make([]int, n)
				for k, rows := range cm {
					for _, i := range rows {
						of[i] = k
					}
				}
				return fmt.Sprint(of), nil
			}}
	}})
	return r
}

// historySets are the data sets a learner of the given kind of data is trained on.
func historySets(data byte) []*Tab {
	type set struct {
		kinds      string
		n, classes int
		pat, salt  int
		rev        bool
	}
	sets := map[byte][]set{
		'N': {{"FF", 4, 3, 1, 0, false}, {"FF", 9, 2, 0, 1, false}, {"FFF", 6, 4, 1, 2, false}, {"FF", 7, 3, 0, 3, true}, {"F", 5, 2, 1, 4, false}, {"FF", 7, 3, 0, 3, false}},
		'M': {{"FCB", 5, 3, 1, 0, false}, {"FCB", 9, 2, 0, 1, false}, {"CFBF", 7, 4, 1, 2, false}, {"FCB", 6, 3, 0, 3, true}, {"CCC", 6, 2, 1, 4, false}, {"FCB", 6, 3, 0, 3, false}},
		'B': {{"BBB", 5, 3, 1, 0, false}, {"BBB", 9, 2, 0, 1, false}, {"BBBB", 7, 4, 1, 2, false}, {"BBB", 6, 3, 0, 3, true}, {"BB", 6, 2, 1, 4, false}, {"BBB", 6, 3, 0, 3, false}},
		'P': {{"FF", 4, 2, 1, 0, false}, {"FF", 9, 2, 0, 1, false}, {"FF", 6, 2, 1, 2, true}, {"FF", 1, 2, 0, 3, false}, {"FCF", 5, 2, 1, 4, false}, {"FF", 6, 2, 1, 2, false}},
	}
	sets['S'] = sets['N']
	var r []*Tab
	for _, s := range sets[data] {
		t := treeTab(s.kinds, s.n, 3, s.classes, s.pat, s.salt)
		if data == 'S' {
			k := len(t.A) - 1
			t.A[k] = AD{'F', "k", nil}.make()
			for i := range t.V {
				t.V[i][k] = fb(float64((i*i + s.salt) / 2 % 2))
			}
		}
		if len(r) == 4 { // everything has other names, the class too
			for _, a := range t.A {
				a.SetName("z" + a.GetName())
			}
		}
		if s.rev {
			t = reverseCols(t)
		}
		r = append(r, t)
	}
	return r
}

func runC46(c *eng.Ctx) {
	dir := filepath.Join(c.Scratch, "c46")
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	path := filepath.Join(dir, "h.cls")
	// run runs f under one schedule with draws which depend on the goroutine only
	run := func(f func() error) (err error) {
		srand(1)
		r, p := eng.SchedFixed(2, 400000, func() { err = f() })
		if p != nil {
			return fmt.Errorf("panic: %v", p)
		}
		if r.Panic != "" || !r.Returned {
			return fmt.Errorf("no return: %.200s", r.Panic)
		}
		return err
	}
	c46inplace(c, run)
	for _, k := range learnerKinds() {
		sets := historySets(k.data)
		var train, query []base.FixedDataGrid
		for i, t := range sets {
			train = append(train, buildDense(t, i%3))
			query = append(query, buildDense(bigQuery(t), 0))
		}
		odd := buildDense(mkTab([]AD{{'F', "other", nil}, {'C', "cls", []string{"x"}}}, 1, [][]string{{fb(1), ub(0)}}), 0)
		answer := func(l learner, i int) (s string, err error) {
			err = run(func() error {
				var err error
				s, err = l.ask(query[i])
				return err
			})
			return s, err
		}
		// what a new instance answers
		type ref struct {
			ok, loads bool
			text      string
			file      string
		}
		refs := make([]ref, len(sets))
		savable := false
		usable := 0
		c.Case("%s: new instances", k.name)
		for i := range sets {
			l := k.make()
			savable = l.save != nil
			if err := run(func() error { return l.fit(train[i]) }); err != nil {
				c.Count(fmt.Sprintf("%s refuses set %d", k.name, i), 1)
				continue
			}
			s, err := answer(l, i)
			if err != nil {
				c.Count(fmt.Sprintf("%s doesn't answer for set %d", k.name, i), 1)
				continue
			}
			refs[i] = ref{ok: true, text: s}
			usable++
			if savable {
				f := filepath.Join(dir, fmt.Sprintf("ref%d.cls", i))
				if err := run(func() error { return l.save(f) }); err == nil {
					refs[i].loads, refs[i].file = true, f
				}
			}
		}
		if usable < 3 {
			c.Fail("few", "%s can be trained on %d of the data sets only", k.name, usable)
		}
		// operations: 0..5 fit, 6..11 load, 12 save, 13 ask twice in another layout, 14 the unanswerable
		ops := []int{0, 1, 2, 3, 4, 5, 13, 14}
		if savable {
			ops = append(ops, 6, 7, 8, 9, 10, 11, 12)
		}
		name := func(op int) string {
			switch {
			case op < 6:
				return fmt.Sprintf("fit %d", op)
			case op < 12:
				return fmt.Sprintf("load %d", op-6)
			}
			return []string{"save", "ask", "ask something else"}[op-12]
		}
		few := []int{0, 2, 3, 4, 13, 14}
		if savable {
			few = append(few, 6, 8, 10, 12)
		}
		sequence := func(ops, ix []int) {
			if ops[ix[0]] >= 12 || !c.Mine() {
				return
			}
			trainings := 0
			what := ""
			for _, o := range ix {
				what += name(ops[o]) + ", "
				if ops[o] < 12 {
					trainings++
				}
			}
			c.Case("%s: %s", k.name, what)
			c.State(k.name + what)
			failErr(c, short(try(func() error {
				l := k.make()
				// another instance, which isn't touched
				other, at := k.make(), (ops[ix[0]]+2*ops[ix[len(ix)-1]])%len(sets)
				if refs[at].ok {
					if err := run(func() error { return other.fit(train[at]) }); err != nil {
						return err
					}
				}
				cur := -1
				for step, o := range ix {
					op := ops[o]
					var err error
					switch {
					case op < 6:
						cur = -1
						if err = run(func() error { return l.fit(train[op]) }); err == nil && refs[op].ok {
							cur = op
						}
						if err != nil && refs[op].ok {
							return fmt.Errorf("step %d: %s: %v; a new instance can", step, name(op), err)
						}
					case op < 12:
						if !refs[op-6].loads {
							return nil
						}
						cur = op - 6
						if err = run(func() error { return l.load(refs[cur].file) }); err != nil {
							return fmt.Errorf("step %d: %s: %v", step, name(op), err)
						}
					case op == 12 && cur >= 0:
						if err = run(func() error { return l.save(path) }); err != nil {
							return fmt.Errorf("step %d: saving: %v", step, err)
						}
						n := k.make()
						if err = run(func() error { return n.load(path) }); err != nil {
							return fmt.Errorf("step %d: loading what was saved: %v", step, err)
						}
						s, err := answer(n, cur)
						if err != nil || s != refs[cur].text {
							return fmt.Errorf("step %d: a new instance loaded from the file answers %v %v, want %v", step, s, err, refs[cur].text)
						}
					case op == 13 && cur >= 0:
						for _, g := range []base.FixedDataGrid{train[cur], buildDense(reverseCols(bigQuery(sets[cur])), 0)} {
							run(func() error { _, err := l.ask(g); return err })
						}
					case op == 14:
						run(func() error { _, err := l.ask(odd); return err })
					}
					if cur < 0 {
						continue
					}
					s, err := answer(l, cur)
					if err != nil {
						return fmt.Errorf("step %d: after %s: %v", step, name(op), err)
					}
					if s != refs[cur].text {
						return fmt.Errorf("step %d: after %s answers\n%v\nwant\n%v", step, name(op), s, refs[cur].text)
					}
					c.Trans(1)
					c.Outcome(k.name + s)
				}
				if refs[at].ok {
					if s, err := answer(other, at); err != nil || s != refs[at].text {
						return fmt.Errorf("another instance trained before answers\n%v %v\nwant\n%v", s, err, refs[at].text)
					}
				}
				if trainings > 1 {
					c.Trace()
				}
				return nil
			})))
		}
		deep := c.Pick(2, 3)
		tuples(power(len(ops), deep), func(ix []int) { sequence(ops, ix) })
		tuples(power(len(few), deep+1), func(ix []int) { sequence(few, ix) })
	}
	c.Sample("id3: fit 0, load 3, fit 1: answers those of a new tree fitted to 1")
}
