package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/meta"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C37", Run: runC37,
		Rule:   "every vector of classes of up to n rows over two to four categories, on every kind of grid and class position, with recording members (what each was trained on is compared cell by cell); every table of scores over negative, zero, fractional and large values for up to two rows and three classes; queries with reordered columns and with class attributes of their own; members that fail; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two rows of different classes",
		Assume: []string{"equal highest scores may give any of the classes that have it", "a single category is refused"}})
}

// scorer is a member that notes what it is trained on and answers from a table.
type scorer struct {
	base.BaseClassifier
	class   string
	fits    []*Tab
	asked   []*Tab
	scores  []float64
	failFit bool
	failAsk bool
	err     error
}

func (s *scorer) Fit(g base.FixedDataGrid) error {
	t, err := readGrid(g)
	if err != nil {
		s.err = err
	}
	s.fits = append(s.fits, t)
	if s.failFit {
		return fmt.Errorf("%s cannot learn", s.class)
	}
	return nil
}

func (s *scorer) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	t, err := readGrid(g)
	if err != nil {
		s.err = err
	}
	s.asked = append(s.asked, t)
	if s.failAsk {
		return nil, fmt.Errorf("%s cannot answer", s.class)
	}
	p := base.GeneratePredictionVector(g)
	sp := base.ResolveAttributes(p, p.AllClassAttributes())[0]
	for i, x := range s.scores {
		p.Set(sp, i, base.PackFloatToBytes(x))
	}
	return p, nil
}

func (s *scorer) Save(string) error                                         { return nil }
func (s *scorer) Load(string) error                                         { return nil }
func (s *scorer) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (s *scorer) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (s *scorer) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }
func (s *scorer) String() string                                            { return "scorer" }

func ovaMake() (*meta.OneVsAllModel, func() map[string]*scorer) {
	var all []*scorer
	m := meta.NewOneVsAllModel(func(c string) base.Classifier {
		s := &scorer{class: c}
		all = append(all, s)
		return s
	})
	return m, func() map[string]*scorer {
		r := map[string]*scorer{}
		for _, s := range all {
			if len(s.fits) > 0 || r[s.class] == nil {
				if o := r[s.class]; o != nil && len(o.fits) > 0 {
					s.err = fmt.Errorf("two members of class %s were trained", s.class)
				}
				r[s.class] = s
			}
		}
		return r
	}
}

// binaryTab is what the member of a class must be trained on.
func binaryTab(t *Tab, class string) *Tab {
	r := t.clone()
	at := classCol(t)
	r.A[at] = base.NewFloatAttribute(t.A[at].GetName())
	for i := range r.V {
		x := 0.0
		if t.A[at].GetStringFromSysVal([]byte(t.V[i][at])) == class {
			x = 1
		}
		r.V[i][at] = fb(x)
	}
	return r
}

func ovaFitted(t *Tab, members map[string]*scorer) error {
	at := classCol(t)
	cats := t.A[at].(*base.CategoricalAttribute).GetValues()
	if len(members) != len(cats) {
		return fmt.Errorf("%d members for the classes %q", len(members), cats)
	}
	for _, k := range cats {
		s := members[k]
		if s == nil {
			return fmt.Errorf("no member for class %q", k)
		}
		if s.err != nil {
			return s.err
		}
		if len(s.fits) != 1 {
			return fmt.Errorf("member of class %q was trained %d times", k, len(s.fits))
		}
		if err := sameRows(s.fits[0], binaryTab(t, k)); err != nil {
			return fmt.Errorf("member of class %q was trained on other data: %v", k, err)
		}
	}
	return nil
}

// sameRows compares tables as multisets of rows.
func sameRows(got, want *Tab) error {
	if got.schema() != want.schema() {
		return fmt.Errorf("attributes %s, want %s", got.schema(), want.schema())
	}
	g, w := got.multiset(), want.multiset()
	if !same(g, w) {
		return fmt.Errorf("rows\n%v\nwant\n%v", g, w)
	}
	return nil
}

// ovaDefs has the class at the given position.
func ovaDefs(cats []string, at int) []AD {
	f := []AD{{'F', "x", nil}, {'C', "c", []string{"p", "q"}}, {'B', "b", nil}}
	r := append([]AD{}, f[:at]...)
	r = append(r, AD{'C', "class", cats})
	return append(r, f[at:]...)
}

func ovaTab(cats []string, at int, labels []int) *Tab {
	defs := ovaDefs(cats, at)
	t := mkTab(defs, at, nil)
	for i, l := range labels {
		f := []string{fb(float64(i) - 1.5), ub(uint64(i % 2)), string([]byte{byte(i / 2 % 2)})}
		row := append([]string{}, f[:at]...)
		row = append(row, ub(uint64(l)))
		t.V = append(t.V, append(row, f[at:]...))
	}
	return t
}

var ovaCats = [][]string{{"u", "v"}, {"v", "u", "w"}, {"10", "9", "", "x y"}}

func runC37(c *eng.Ctx) {
	// what members are trained on
	for _, cats := range ovaCats {
		for n := 1; n <= c.Pick(5, 6); n++ {
			tuples(power(len(cats), n), func(labels []int) {
				for at := 0; at <= 3; at++ {
					if !c.Mine() {
						continue
					}
					t := ovaTab(cats, at, labels)
					c.Case("training on labels %v of %q, class in column %d", labels, cats, at)
					c.State(fmt.Sprint(cats, labels, at))
					eachKind(t, func(name string, g base.FixedDataGrid, want *Tab) {
						err := try(func() error {
							m, members := ovaMake()
							m.Fit(g)
							if err := ovaFitted(want, members()); err != nil {
								return err
							}
							// fit again: the new members replace the old ones
							m.Fit(g)
							c.Trans(2)
							return nil
						})
						if err != nil {
							err = fmt.Errorf("%s: %v", name, err)
						}
						if !failErr(c, err) {
							c.Trace()
						}
					})
				}
			})
		}
	}
	// every table of scores
	alph := []float64{-1, 0, 0.5, 3}
	if c.Thorough() {
		alph = []float64{-1e9, -0.25, 0, 0.5, 1}
	}
	for _, cats := range ovaCats[:2] {
		for rows := 1; rows <= 2; rows++ {
			tuples(power(len(alph), rows*len(cats)), func(ix []int) {
				if !c.Mine() {
					return
				}
				c.Case("scores %v of %d rows, classes %q", ix, rows, cats)
				sc := func(r, k int) float64 { return alph[ix[r*len(cats)+k]] }
				failErr(c, ovaAsk(c, cats, rows, sc, 0, seq(len(cats)), 0))
				c.Trace()
			})
		}
	}
	// kinds of query: other columns, categories of their own
	for _, cats := range ovaCats {
		perms(len(cats), func(p []int) {
			p = append([]int{}, p...)
			for best := 0; best < len(cats); best++ {
				for at := 0; at <= 3; at++ {
					for kind := 0; kind < numKinds; kind++ {
						if !c.Mine() {
							continue
						}
						c.Case("query of kind %d, class in column %d, categories ordered %v of %q, best class %d", kind, at, p, cats, best)
						c.State(fmt.Sprint("q", kind, at, p, cats, best))
						sc := func(r, k int) float64 {
							if k == (best+r)%len(cats) {
								return -0.5
							}
							return -1 - float64(k)
						}
						failErr(c, ovaAsk(c, cats, 3, sc, at, p, kind))
						c.Trace()
					}
				}
			}
		})
	}
	// members that fail
	for _, cats := range ovaCats {
		for bad := range cats {
			for phase := 0; phase < 2; phase++ {
				if !c.Mine() {
					continue
				}
				c.Case("member %q of %q fails in phase %d", cats[bad], cats, phase)
				failErr(c, ovaFailing(cats, bad, phase))
				c.Trace()
			}
		}
	}
	c.Sample("scores -1 -1 -0.5 of classes v u w: w; query with classes ordered w v u")
	c37large(c)
}

func ovaAsk(c *eng.Ctx, cats []string, rows int, sc func(r, k int) float64, at int, order []int, kind int) error {
	return try(func() error {
		labels := seq(len(cats))
		t := ovaTab(cats, at, labels)
		m, members := ovaMake()
		m.Fit(buildDense(t, 0))
		ms := members()
		if err := ovaFitted(t, ms); err != nil {
			return err
		}
		for k, name := range cats {
			ms[name].scores = nil
			for r := 0; r < rows; r++ {
				ms[name].scores = append(ms[name].scores, sc(r, k))
			}
		}
		// a query with equal attributes, or with reordered categories
		var qcats []string
		own := !sort.IntsAreSorted(order)
		for _, k := range order {
			qcats = append(qcats, cats[k])
		}
		ql := make([]int, rows)
		q := ovaTab(qcats, at, ql)
		if !own { // the same attributes
			q.A = t.A
		}
		if kind%2 == 1 {
			q = reverseCols(q)
		}
		g, w, _ := makeKind(kind, q)
		if g == nil {
			return nil
		}
		p, err := m.Predict(g)
		if err != nil {
			return err
		}
		if _, n := p.Size(); n != rows {
			return fmt.Errorf("%d predictions for %d rows", n, rows)
		}
		for r := 0; r < rows; r++ {
			top := math.Inf(-1)
			for k := range cats {
				top = math.Max(top, sc(r, k))
			}
			got, ok := base.GetClass(p, r), false
			row := []float64{}
			for k := range cats {
				ok = ok || got == cats[k] && sc(r, k) == top
				row = append(row, sc(r, k))
			}
			if !ok {
				return fmt.Errorf("row %d with scores %v of %q predicted as %q (kind %s, query categories %q)", r, row, cats, got, kindNames[kind], qcats)
			}
			c.Outcome(fmt.Sprint(row, got))
		}
		for _, k := range cats {
			if ms[k].err != nil {
				return ms[k].err
			}
			if len(ms[k].asked) != 1 {
				return fmt.Errorf("member %q asked %d times", k, len(ms[k].asked))
			}
			// everything but the class is shown unchanged
			strip := func(t *Tab) *Tab {
				cols := []int{}
				for j := range t.A {
					if !t.Class[j] {
						cols = append(cols, j)
					}
				}
				return t.selectRC(seq(t.rows()), cols)
			}
			if got, want := strip(ms[k].asked[0]).String(), strip(w).String(); got != want {
				return fmt.Errorf("member %q asked about other data:\n%s\nwant\n%s", k, got, want)
			}
		}
		c.Trans(rows)
		return nil
	})
}

func ovaFailing(cats []string, bad, phase int) error {
	return try(func() error {
		t := ovaTab(cats, 1, seq(len(cats)))
		var ms []*scorer
		m := meta.NewOneVsAllModel(func(k string) base.Classifier {
			s := &scorer{class: k, scores: make([]float64, len(cats))}
			s.failFit = phase == 0 && k == cats[bad]
			s.failAsk = phase == 1 && k == cats[bad]
			ms = append(ms, s)
			return s
		})
		err, returns := fitErr(m, buildDense(t, 0))
		if phase == 0 {
			if err == nil {
				return fmt.Errorf("training fails for %q, and no error is returned (Fit has a result: %v)", cats[bad], returns)
			}
			return nil
		}
		if err != nil {
			return err
		}
		if _, err := m.Predict(buildDense(t, 0)); err == nil {
			return fmt.Errorf("predicting fails for %q, and no error is returned", cats[bad])
		}
		return nil
	})
}

// fitErr trains a model and returns its error, if it has one to return.
func fitErr(m interface{}, g base.FixedDataGrid) (error, bool) {
	switch f := m.(type) {
	case interface {
		Fit(base.FixedDataGrid) error
	}:
		return f.Fit(g), true
	case interface{ Fit(base.FixedDataGrid) }:
		f.Fit(g)
	}
	return nil, false
}
