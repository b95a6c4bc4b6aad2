package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
	"verif/mc/sched"
)

func init() {
	eng.Register(&eng.Prop{ID: "C47", Run: runC47,
		Rule:   "every pair of read operations (sizes, columns, values, rows in order, text, copies, decompositions, distributions, samples, folds, comparisons, CSV) by two goroutines on every kind of grid, every pair of predictions by two goroutines with one trained model of every learner, and every pair of trainings of two models on one grid; all schedules at synchronisation operations up to a bound on switches away from a running goroutine, under the race detector; each result is compared with that of the operation alone. Non-trivial: executions with two goroutines",
		Assume: []string{"goroutines switch at synchronisation operations; between them the race detector's happens-before analysis covers every interleaving", "random draws depend on the goroutine and its count of draws"}})
}

// reader is an operation which only reads a grid.
type reader struct {
	name string
	read func(g base.FixedDataGrid) (string, error)
}

func gridReaders() []reader {
	show := func(gs ...base.FixedDataGrid) (string, error) {
		s := ""
		for _, g := range gs {
			t, err := gridText(g, nil)
			if err != nil {
				return "", err
			}
			s += t + "\n"
		}
		return s, nil
	}
	named := func(m map[string]base.FixedDataGrid) (string, error) {
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := ""
		for _, k := range keys {
			t, err := show(m[k])
			if err != nil {
				return "", err
			}
			s += k + ": " + t
		}
		return s, nil
	}
	first := func(g base.FixedDataGrid, t int) base.Attribute {
		for _, a := range base.NonClassAttributes(g) {
			if a.GetType() == t {
				return a
			}
		}
		return nil
	}
	return []reader{
		{"size and columns", func(g base.FixedDataGrid) (string, error) {
			s := ""
			for _, a := range g.AllAttributes() {
				s += a.String()
			}
			for _, a := range g.AllClassAttributes() {
				s += a.GetName()
			}
			w, h := g.Size()
			return fmt.Sprint(s, w, h), nil
		}},
		{"values", func(g base.FixedDataGrid) (string, error) { return show(g) }},
		{"rows in order", func(g base.FixedDataGrid) (string, error) {
			s := ""
			err := g.MapOverRows(base.ResolveAllAttributes(g), func(r [][]byte, i int) (bool, error) {
				s += fmt.Sprintf("%d%x ", i, r)
				return true, nil
			})
			return s, err
		}},
		{"text", func(g base.FixedDataGrid) (string, error) { return fmt.Sprint(g) + g.RowString(0), nil }},
		{"copy", func(g base.FixedDataGrid) (string, error) { return show(base.NewDenseCopy(g)) }},
		{"structural copy", func(g base.FixedDataGrid) (string, error) {
			d := base.NewStructuralCopy(g)
			if err := d.Extend(1); err != nil {
				return "", err
			}
			return show(d)
		}},
		{"classes", func(g base.FixedDataGrid) (string, error) {
			_, n := g.Size()
			s := ""
			for i := 0; i < n; i++ {
				s += base.GetClass(g, i)
			}
			return fmt.Sprint(s, base.GetClassDistribution(g)), nil
		}},
		{"split by value", func(g base.FixedDataGrid) (string, error) {
			if a := first(g, base.CategoricalType); a != nil {
				return named(base.DecomposeOnAttributeValues(g, a))
			}
			return "", nil
		}},
		{"split by threshold", func(g base.FixedDataGrid) (string, error) {
			if a := first(g, base.Float64Type); a != nil {
				s, err := named(base.DecomposeOnNumericAttributeThreshold(g, a, 1.5))
				return fmt.Sprint(s, base.GetClassDistributionAfterThreshold(g, a, 1.5)), err
			}
			return "", nil
		}},
		{"sort lazily", func(g base.FixedDataGrid) (string, error) {
			a := first(g, base.Float64Type)
			if a == nil {
				return "", nil
			}
			v, err := base.LazySort(g, base.Descending, base.ResolveAttributes(g, []base.Attribute{a}))
			if err != nil {
				return "", err
			}
			return show(v)
		}},
		{"sample", func(g base.FixedDataGrid) (string, error) { return show(base.SampleWithReplacement(g, 3)) }},
		{"shuffle lazily", func(g base.FixedDataGrid) (string, error) { return show(base.LazyShuffle(g)) }},
		{"train and test", func(g base.FixedDataGrid) (string, error) { return show(base.InstancesTrainTestSplit(g, 0.5)) }},
		{"compare with itself", func(g base.FixedDataGrid) (string, error) {
			return fmt.Sprint(base.InstancesAreEqual(g, g), base.CheckStrictlyCompatible(g, g), len(base.CheckCompatible(g, g))), nil
		}},
		{"prediction vector", func(g base.FixedDataGrid) (string, error) {
			p := base.GeneratePredictionVector(g)
			_, n := g.Size()
			for i := 0; i < n; i++ {
				base.SetClass(p, i, base.GetClass(g, i))
			}
			cm, err := evaluation.GetConfusionMatrix(g, p)
			return fmt.Sprint(evaluation.GetAccuracy(cm)), err
		}},
		{"as CSV", func(g base.FixedDataGrid) (string, error) {
			var b bytes.Buffer
			err := base.SerializeInstancesToCSVStream(g, &b)
			return b.String(), err
		}},
		{"as ARFF", func(g base.FixedDataGrid) (string, error) {
			var b bytes.Buffer
			err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, g.AllAttributes(), "r")
			return b.String(), err
		}},
		{"packed", func(g base.FixedDataGrid) (string, error) {
			var b bytes.Buffer
			err := base.SerializeInstances(g, &b)
			return fmt.Sprint(b.Len()), err
		}},
		{"discretise", func(g base.FixedDataGrid) (string, error) {
			return filtered(g, filters.NewChiMergeFilter(g, 0.9), base.Float64Type)
		}},
		{"bin", func(g base.FixedDataGrid) (string, error) {
			return filtered(g, filters.NewBinningFilter(g, 2), base.Float64Type)
		}},
		{"convert to bits", func(g base.FixedDataGrid) (string, error) {
			return filtered(g, filters.NewBinaryConvertFilter(), base.CategoricalType)
		}},
		{"cluster", func(g base.FixedDataGrid) (string, error) {
			as := base.NonClassFloatAttributes(g)
			if len(as) == 0 {
				return "", nil
			}
			m, err := clustering.DBSCAN(g, clustering.DBSCANParameters{
				ClusterParameters: clustering.ClusterParameters{Attributes: as, Metric: pairwise.NewEuclidean()}, Eps: 2, MinCount: 2})
			return fmt.Sprint(m), err
		}},
		{"as a matrix", func(g base.FixedDataGrid) (string, error) {
			as := base.NonClassFloatAttributes(g)
			if len(as) == 0 {
				return "", nil
			}
			sort.Slice(as, func(i, j int) bool { return as[i].GetName() < as[j].GetName() })
			m, err := base.ConvertAllRowsToMat64(as, g)
			if err != nil {
				return "", err
			}
			return fmt.Sprint(len(m), mat.Formatted(m[len(m)-1])), nil
		}},
	}
}

// filtered shows a grid through a filter trained for its columns of one type.
func filtered(g base.FixedDataGrid, f base.Filter, t int) (string, error) {
	for _, a := range base.NonClassAttributes(g) {
		if a.GetType() == t {
			if err := f.AddAttribute(a); err != nil {
				return "", err
			}
		}
	}
	if err := f.Train(); err != nil {
		return "", err
	}
	return gridText(base.NewLazilyFilteredInstances(g, f), nil)
}

// readKind makes the grids of makeKind and, beyond them, some seen through the library's filters.
func readKind(k int, t *Tab) base.FixedDataGrid {
	if k < numKinds {
		g, _, _ := makeKind(k, t)
		return g
	}
	g := buildDense(t, 0)
	var f base.Filter
	want := base.Float64Type
	switch k - numKinds {
	case 0:
		f, want = filters.NewFloatConvertFilter(), base.CategoricalType
	case 1:
		f, want = filters.NewBinaryConvertFilter(), base.CategoricalType
	case 2:
		f = filters.NewBinningFilter(g, 2)
	case 3:
		f = filters.NewChiMergeFilter(g, 0.9)
	}
	for _, a := range base.NonClassAttributes(g) {
		if a.GetType() == want {
			if err := f.AddAttribute(a); err != nil {
				panic(err)
			}
		}
	}
	if err := f.Train(); err != nil {
		panic(err)
	}
	return base.NewLazilyFilteredInstances(g, f)
}

// together runs fs as goroutines under every schedule; alone are their results by themselves.
func together(c *eng.Ctx, sig, what string, preempt, points int, fs []func() (string, error), alone []string) bool {
	good := true
	body := func(ch *eng.Chooser) {
		res := make([]string, len(fs))
		errs := make([]error, len(fs))
		races := sched.RaceErrors()
		r, p := ch.Sched(2, preempt, preempt > 0, 400000, sameDraws, func() {
			done := make(chan int, len(fs))
			for i, f := range fs {
				i, f := i, f
				sched.Go(func() {
					res[i], errs[i] = f()
					sched.Sender(done)(i)
				})
			}
			for range fs {
				sched.Recv(done)
			}
		})
		if !ended(c, sig, what, ch, r, p, races) {
			good = false
			return
		}
		for i := range fs {
			if errs[i] != nil {
				c.Fail(sig, "%s: operation %d: %v (schedule %v)", what, i, errs[i], shorten(fmt.Sprint(r.Trace)))
				good = false
			} else if res[i] != alone[i] {
				c.Fail(sig, "%s: operation %d returns %s alone but %s together with the other (schedule %v)", what, i, shorten(alone[i]), shorten(res[i]), shorten(fmt.Sprint(r.Trace)))
				good = false
			}
		}
		c.Trans(r.Steps)
		c.Trace()
		c.Outcome(fmt.Sprint(res))
	}
	c.Explore(eng.Opt{MaxPoints: points}, body)
	return good
}

func runC47(c *eng.Ctx) {
	dir := filepath.Join(c.Scratch, "c47")
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	preempt := c.Pick(0, 1)
	rs := gridReaders()
	for ti, t := range []*Tab{treeTab("FCBF", 5, 3, 3, 1, 0), treeTab("CF", 3, 2, 2, 0, 1)} {
		pre := preempt
		if ti == 1 {
			pre = 1
		}
		for k := 0; k < numKinds+4; k++ {
			for i := range rs {
				for j := i; j < len(rs); j++ {
					if !c.Mine() {
						continue
					}
					what := fmt.Sprintf("table %d, %s: %s and %s", ti, append(kindNames[:numKinds:numKinds], "as-floats", "as-bits", "binned", "chimerged")[k], rs[i].name, rs[j].name)
					c.Case("%s", what)
					g := readKind(k, t)
					if g == nil {
						continue
					}
					var fs []func() (string, error)
					for _, x := range []int{i, j} {
						x := x
						fs = append(fs, func() (string, error) { return rs[x].read(g) })
					}
					var alone []string
					for x := range fs {
						h := readKind(k, t)
						s, ok := aloneText(c, what, func() (string, error) { return rs[[]int{i, j}[x]].read(h) })
						if !ok {
							break
						}
						alone = append(alone, s)
					}
					if len(alone) < 2 {
						continue
					}
					together(c, "grids", what, pre, 0, fs, alone)
				}
			}
		}
	}
	// models
	for _, k := range learnerKinds() {
		sets := historySets(k.data)
		for _, i := range []int{2, 3} {
			train := buildDense(sets[i], i%3)
			qs := []base.FixedDataGrid{buildDense(bigQuery(sets[i]), 0), train, buildDense(bigQuery(sets[i]), 1)}
			fitted := func(what string) (learner, bool) {
				l := k.make()
				srand(1)
				_, ok := aloneText(c, what, func() (string, error) { return "", l.fit(train) })
				return l, ok
			}
			c.Case("%s set %d alone", k.name, i)
			l, ok := fitted(k.name + ": training")
			if !ok {
				continue
			}
			alone := make([]string, len(qs))
			for q := range qs {
				if alone[q], ok = aloneText(c, k.name+": asking", func() (string, error) { return l.ask(qs[q]) }); !ok {
					break
				}
			}
			if !ok {
				continue
			}
			for _, pair := range [][]int{{0, 0}, {0, 1}, {1, 2}, {1, 1}} {
				if !c.Mine() {
					continue
				}
				what := fmt.Sprintf("%s set %d: asked %v", k.name, i, pair)
				c.Case("%s", what)
				l, ok := fitted(what)
				if !ok {
					continue
				}
				var fs []func() (string, error)
				var want []string
				for _, q := range pair {
					q := q
					fs = append(fs, func() (string, error) { return l.ask(qs[q]) })
					want = append(want, alone[q])
				}
				together(c, "ask "+k.name, what, 0, c.Pick(4, 6), fs, want)
			}
			// saved while asked, and saved twice
			if l.save != nil {
				for how := 0; how < 3; how++ {
					if !c.Mine() {
						continue
					}
					what := fmt.Sprintf("%s set %d: saved or loaded (%d)", k.name, i, how)
					c.Case("%s", what)
					l, ok := fitted(what)
					if !ok {
						continue
					}
					save := func(path string) func() (string, error) {
						return func() (string, error) {
							if err := l.save(path); err != nil {
								return "", err
							}
							m := k.make()
							if err := m.load(path); err != nil {
								return "", err
							}
							return m.ask(qs[0])
						}
					}
					a, b := filepath.Join(dir, "a.cls"), filepath.Join(dir, "b.cls")
					if _, ok := aloneText(c, what, save(a)); !ok {
						continue
					}
					load := func() (string, error) {
						m := k.make()
						if err := m.load(a); err != nil {
							return "", err
						}
						return m.ask(qs[0])
					}
					ask := func() (string, error) { return l.ask(qs[0]) }
					fs := [][]func() (string, error){{save(b), ask}, {save(b), save(a)}, {load, load}}[how]
					together(c, "save "+k.name, what, 0, c.Pick(4, 6), fs, []string{alone[0], alone[0]})
				}
			}
			// two models trained on one grid, and one asked while the other is trained
			for how := 0; how < 2; how++ {
				if strings.Contains(k.name, "svc") || strings.HasPrefix(k.name, "logistic") {
					continue // their solver draws from the C library's one sequence
				}
				if !c.Mine() {
					continue
				}
				what := fmt.Sprintf("%s set %d: trained twice at once (%d)", k.name, i, how)
				c.Case("%s", what)
				l, ok := fitted(what)
				if !ok {
					continue
				}
				trains := func() (string, error) {
					l := k.make()
					if err := l.fit(train); err != nil {
						return "", err
					}
					return l.ask(qs[0])
				}
				t, ok := aloneText(c, what, trains)
				if !ok {
					continue
				}
				if how == 0 {
					together(c, "train "+k.name, what, 0, c.Pick(4, 6), []func() (string, error){trains, trains}, []string{t, t})
				} else {
					together(c, "train "+k.name, what, 0, c.Pick(4, 6), []func() (string, error){trains, func() (string, error) { return l.ask(qs[1]) }}, []string{t, alone[1]})
				}
			}
		}
	}
	c47large(c)
	c.Sample("attr-view: text and shuffle lazily by two goroutines: the same results as alone, no race")
}

// aloneText is what f returns when nothing else runs.
func aloneText(c *eng.Ctx, what string, f func() (string, error)) (string, bool) {
	var s string
	var err error
	r, p := (*eng.Chooser)(nil).Sched(2, 0, false, 400000, sameDraws, func() { s, err = f() })
	if p != nil || r.Panic != "" || !r.Returned || err != nil {
		c.Fail("alone", "%s: %v %v alone: %v %v", what, s, p, err, r)
		return "", false
	}
	return s, true
}

func sameDraws(who uint64, k int, kind string, n int64) (int64, float64, bool) {
	return eng.FixedDraws(1, k, kind, n)
}

func shorten(s string) string {
	if len(s) > 300 {
		return s[:150] + " ... " + s[len(s)-150:]
	}
	return s
}
