package props

import (
	"fmt"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C35", Run: runC35,
		Rule:   "every table of up to n rows of schemas of two to four attributes, every number of considered attributes and every outcome of the draws up to a bound on choice points: the attributes chosen over all outcomes are compared with those that are the best of some set of the requested size; whole random trees and forests of one to three trees grown under every outcome up to a bound on executions; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two attributes that are not the class",
		Assume: []string{"draws beyond the bound on choice points take a default that goes through all values", "forests are grown under one schedule (C36 explores schedules)"}})
}

// subsetsOf calls f with every subset of k of cols.
func subsetsOf(cols []int, k int, f func([]int)) {
	if k > len(cols) {
		k = len(cols)
	}
	var rec func(i int, cur []int)
	rec = func(i int, cur []int) {
		if len(cur) == k {
			f(append([]int{}, cur...))
			return
		}
		if len(cols)-i < k-len(cur) {
			return
		}
		rec(i+1, append(cur, cols[i]))
		rec(i+1, cur)
	}
	rec(0, nil)
}

// ruleOfSome decides whether rule is right for some set of k of cols.
func ruleOfSome(t *Tab, rows, cols []int, k int, rule *trees.DecisionTreeRule) error {
	var last error
	ok := false
	subsetsOf(cols, k, func(s []int) {
		if ok {
			return
		}
		if last = checkRule("gain", t, rows, s, rule); last == nil {
			ok = true
		}
	})
	if ok {
		return nil
	}
	return fmt.Errorf("%v is not the best of any %d of the columns %v (%v)", rule, k, cols, last)
}

// bestGain is the best gain of splitting on a column; ok: it can be split.
func bestGain(t *Tab, rows []int, col int) (float64, bool) {
	if t.A[col].GetType() != base.Float64Type {
		return scoreSplit("gain", t, rows, col, 0)
	}
	best, any := 0.0, false
	for _, x := range thresholds(t, rows, col) {
		if s, ok := scoreSplit("gain", t, rows, col, x); ok && (!any || s > best) {
			best, any = s, true
		}
	}
	return best, any
}

// mustReach are the columns that are strictly the best of some k of cols.
func mustReach(t *Tab, rows, cols []int, k int) []int {
	var r []int
	for _, j := range cols {
		s, ok := bestGain(t, rows, j)
		if !ok {
			continue
		}
		below := 0
		for _, o := range cols {
			if o == j {
				continue
			}
			if so, ok := bestGain(t, rows, o); !ok || so < s-1e-9 {
				below++
			}
		}
		if k > len(cols) {
			k = len(cols)
		}
		if below >= k-1 {
			r = append(r, j)
		}
	}
	return r
}

func colOf(t *Tab, a base.Attribute) int {
	for j := range t.A {
		if t.A[j].Equals(a) {
			return j
		}
	}
	return -1
}

// graded has four attributes of different gain.
func graded(n int, classAt int) *Tab {
	C := func(n string) AD { return AD{'C', n, []string{"p", "q"}} }
	defs := []AD{C("g0"), C("g1"), {'F', "g2", nil}, {'B', "g3", nil}}[:n]
	col := [][]int{
		{0, 0, 0, 0, 1, 1, 1, 1}, // tells the class
		{0, 0, 0, 1, 1, 1, 1, 1},
		{0, 0, 1, 1, 1, 1, 1, 1},
		{0, 1, 0, 1, 0, 1, 0, 1},
	}
	k := AD{'C', "k", []string{"u", "v"}}
	var all []AD
	var v [][]string
	all = append(all, defs[:classAt]...)
	all = append(all, k)
	all = append(all, defs[classAt:]...)
	for r := 0; r < 8; r++ {
		row := []string{}
		for i, d := range defs {
			if i == classAt {
				row = append(row, ub(uint64(r/4)))
			}
			x := col[i][r]
			switch d.Kind {
			case 'F':
				row = append(row, fb(float64(3*x)))
			case 'B':
				row = append(row, string([]byte{byte(x)}))
			default:
				row = append(row, ub(uint64(x)))
			}
		}
		if classAt == len(defs) {
			row = append(row, ub(uint64(r/4)))
		}
		v = append(v, row)
	}
	return mkTab(all, classAt, v)
}

// lastClass moves the class column to the end.
func lastClass(t *Tab) *Tab {
	r := &Tab{}
	at := classCol(t)
	order := []int{}
	for j := range t.A {
		if j != at {
			order = append(order, j)
		}
	}
	order = append(order, at)
	for _, j := range order {
		r.A = append(r.A, t.A[j])
		r.Class = append(r.Class, t.Class[j])
	}
	for i := range t.V {
		row := []string{}
		for _, j := range order {
			row = append(row, t.V[i][j])
		}
		r.V = append(r.V, row)
	}
	return r
}

func c35rules(c *eng.Ctx, t *Tab, g base.FixedDataGrid, k int, what string) {
	m := len(t.A) - 1
	rows := seq(t.rows())
	reached := map[int]bool{}
	var fail error
	_, complete := c.Explore(eng.Opt{MaxPoints: m + 2, MaxDraws: 500, MaxExec: c.Pick(4000, 30000)}, func(ch *eng.Chooser) {
		if fail != nil {
			return
		}
		gen := &trees.RandomTreeRuleGenerator{Attributes: k}
		var rule *trees.DecisionTreeRule
		if p := ch.Call(func() { rule = gen.GenerateSplitRule(g) }); p != nil {
			fail = fmt.Errorf("%v", p)
		} else {
			fail = ruleOfSome(t, rows, seq(m), k, rule)
		}
		if fail != nil {
			fail = fmt.Errorf("%s, %d of %d attributes considered, draws %.400v: %v", what, k, m, fmt.Sprint(ch.Log), fail)
			return
		}
		if rule != nil && rule.SplitAttr != nil {
			reached[colOf(t, rule.SplitAttr)] = true
		}
		c.Outcome(fmt.Sprint(k, rule))
	})
	if fail == nil && complete {
		for _, j := range mustReach(t, rows, seq(m), k) {
			if !reached[j] {
				fail = fmt.Errorf("%s, %d of %d attributes considered: no outcome of the draws splits on %v, the best of some %d", what, k, m, t.A[j], k)
			}
		}
	}
	if !failErr(c, fail) {
		c.Trace()
	}
}

func c35tree(c *eng.Ctx, t *Tab, g base.FixedDataGrid, k int, what string) {
	m := len(t.A) - 1
	var fail error
	c.Explore(eng.Opt{MaxPoints: c.Pick(7, 10), MaxDraws: 2000, MaxExec: c.Pick(60, 400)}, func(ch *eng.Chooser) {
		if fail != nil {
			return
		}
		tree := trees.NewRandomTree(k)
		var err error
		if p := ch.Call(func() { err = tree.Fit(g) }); p != nil {
			err = fmt.Errorf("%v", p)
		}
		if err == nil {
			err = walkTree(t, tree.Root, seq(t.rows()), seq(m), func(n *trees.DecisionTreeNode, rows, cols []int) error {
				if len(classCounts(t, rows)) == 1 || len(cols) == 0 {
					if n.Children != nil {
						return fmt.Errorf("node %v with columns %v was split", n.ClassDist, cols)
					}
					return nil
				}
				rule := n.SplitRule
				if n.Children == nil {
					rule = nil
				}
				return ruleOfSome(t, rows, cols, k, rule)
			})
		}
		if err == nil {
			q := treeQuery(t, ruleThresholds(tree.Root, nil))
			p, e := tree.Predict(buildDense(q, 0))
			err = checkTreePredict(q, p, tree.Root, p, e)
			c.Outcome(tree.Root.String())
		}
		if err != nil {
			fail = fmt.Errorf("%s, random tree of %d of %d attributes, draws %.400v: %v", what, k, m, fmt.Sprint(ch.Log), err)
		}
	})
	if !failErr(c, fail) {
		c.Trace()
	}
}

// splitCols are the columns a tree splits on.
func splitCols(t *Tab, n *trees.DecisionTreeNode, m map[int]bool) map[int]bool {
	if n.Children != nil {
		m[colOf(t, n.SplitRule.SplitAttr)] = true
	}
	for _, ch := range n.Children {
		splitCols(t, ch, m)
	}
	return m
}

func rootOf(m base.Classifier) *trees.DecisionTreeNode {
	switch x := m.(type) {
	case *trees.ID3DecisionTree:
		return x.Root
	case *trees.RandomTree:
		return x.Root
	}
	return nil
}

func c35forest(c *eng.Ctx, t *Tab, layout, size, k, cpus, maxExec int) {
	t0 := lastClass(t)
	m := len(t0.A) - 1
	c.Case("forest of %d trees of %d features on %d processors, layout %d, table %s", size, k, cpus, layout, t)
	c.State(fmt.Sprint(t, layout, size, k))
	var fail error
	per := t.rows() + k + 2
	reached := map[int]bool{}
	_, complete := c.Explore(eng.Opt{MaxPoints: size * per, MaxDraws: 5000 + 20*size*per, MaxExec: maxExec}, func(ch *eng.Chooser) {
		if fail != nil {
			return
		}
		err := func() error {
			f := ensemble.NewRandomForest(size, k)
			g := buildDense(t, layout)
			var err error
			r, p := ch.SchedFirst(cpus, 5000+200*size, func() { err = f.Fit(g) })
			if p != nil || r.Panic != "" || !r.Returned {
				return fmt.Errorf("Fit: %v %+v", p, r)
			}
			if k > m {
				if err == nil {
					return fmt.Errorf("no error for %d features of %d", k, m)
				}
				return nil
			}
			if err != nil {
				return err
			}
			if len(f.Model.Models) != size {
				return fmt.Errorf("%d trees", len(f.Model.Models))
			}
			var roots []*trees.DecisionTreeNode
			thr := []float64{}
			for i, tr := range f.Model.Models {
				root := rootOf(tr)
				if root == nil {
					return fmt.Errorf("tree %d wasn't trained", i)
				}
				n := 0
				for _, x := range root.ClassDist {
					n += x
				}
				if n != t.rows() {
					return fmt.Errorf("tree %d was trained on %d of %d rows", i, n, t.rows())
				}
				cols := splitCols(t0, root, map[int]bool{})
				for j := range cols {
					if j < 0 || j >= m {
						return fmt.Errorf("tree %d splits on something which isn't an attribute: %v", i, root)
					}
					reached[j] = true
				}
				if k > 0 && len(cols) > k {
					return fmt.Errorf("tree %d of %d features splits on %d: %v", i, k, len(cols), root)
				}
				thr = ruleThresholds(root, thr)
				roots = append(roots, root)
			}
			var q *Tab
			if t0.rows() > 8 {
				q = bigQuery(t0)
			} else {
				q = treeQuery(t0, thr)
			}
			for lay := 0; lay < 2; lay++ {
				qt := q
				if lay == 1 {
					qt = reverseCols(q)
				}
				var pred base.FixedDataGrid
				r, p := ch.SchedFirst(cpus, 50000+200*size*q.rows(), func() { pred, err = f.Predict(buildDense(qt, 0)) })
				if p != nil || r.Panic != "" || !r.Returned {
					return fmt.Errorf("Predict: %v %+v", p, r)
				}
				if err != nil {
					return err
				}
				if _, n := pred.Size(); n != q.rows() {
					return fmt.Errorf("%d predictions for %d rows", n, q.rows())
				}
				for i := 0; i < q.rows(); i++ {
					votes, clear := map[string]int{}, true
					for _, root := range roots {
						end, ok := treeEnd(q, root, i)
						clear = clear && ok
						votes[end.Class]++
					}
					if !clear { // some tree never saw this value
						continue
					}
					got := base.GetClass(pred, i)
					for k, v := range votes {
						if v > votes[got] {
							return fmt.Errorf("row %s predicted as %q, %d trees of %v say %q", q.row(i), got, v, votes, k)
						}
					}
				}
			}
			s := []string{}
			for _, r := range roots {
				s = append(s, r.String())
			}
			sort.Strings(s)
			c.Outcome(fmt.Sprint(s))
			return nil
		}()
		if err != nil {
			fail = fmt.Errorf("draws %.400v: %v", fmt.Sprint(ch.Log), err)
		}
	})
	if fail == nil && complete && k > 0 && k <= m {
		for _, j := range mustReach(t0, seq(t0.rows()), seq(m), k) {
			if s, ok := bestGain(t0, seq(t0.rows()), j); ok && s > 1e-9 && !reached[j] {
				fail = fmt.Errorf("no outcome of the draws has a tree with %v", t0.A[j])
			}
		}
	}
	if !failErr(c, fail) {
		c.Trace()
	}
}

func runC35(c *eng.Ctx) {
	for n := 2; n <= 4; n++ {
		for at := 0; at <= n; at++ {
			t := graded(n, at)
			for k := 1; k <= n+1; k++ {
				for lay := 0; lay < 2; lay++ {
					if !c.Mine() {
						continue
					}
					c.Case("graded table of %d attributes, class at %d, %d considered, layout %d", n, at, k, lay)
					c.State(fmt.Sprint(n, at, k, lay))
					g := buildDense(t, lay)
					t0 := lastClass(t)
					c35rules(c, t0, g, k, "graded")
					c35tree(c, t0, g, k, "graded")
				}
			}
		}
	}
	i := 0
	treeSchemas(c, func(t *Tab) {
		m := len(t.A) - 1
		if m < 2 || t.rows() < 2 {
			return
		}
		c.Case("table=%s", t)
		c.State(t.String())
		i++
		kind := 0
		if i%4 == 0 {
			kind = []int{2, 3, 6, 7}[i/4%4]
		}
		g, _, _ := makeKind(kind, t)
		if g == nil {
			g = buildDense(t, 0)
			kind = 0
		}
		for k := 1; k <= m+1; k++ {
			c35rules(c, t, g, k, kindNames[kind])
			c35tree(c, t, g, k, kindNames[kind])
		}
	})
	// forests
	for _, t := range c35small() {
		for size := 1; size <= 3; size++ {
			for k := 0; k <= len(t.A); k++ {
				for cpus := 1; cpus <= 2; cpus++ {
					for lay := 0; lay < 2; lay++ {
						if (cpus == 2 || lay == 1) && size == 1 || !c.Mine() {
							continue
						}
						exec := c.Pick(300, 3000)
						if size == 1 {
							exec = c.Pick(3000, 100000)
						}
						c35forest(c, t, lay, size, k, cpus, exec)
					}
				}
			}
		}
	}
	c.Sample("graded table of 4 attributes, 2 considered: every pair of attributes drawn, the three best are reached")
	c35large(c)
}

// c35small are the training sets of forests.
func c35small() []*Tab {
	C := func(n string) AD { return AD{'C', n, []string{"p", "q"}} }
	F := func(n string) AD { return AD{'F', n, nil} }
	k2, k3 := AD{'C', "k", []string{"u", "v"}}, AD{'C', "k", []string{"u", "v", "w"}}
	u := func(x int) string { return ub(uint64(x)) }
	b := func(x int) string { return string([]byte{byte(x)}) }
	f := func(x float64) string { return fb(x) }
	return []*Tab{
		mkTab([]AD{C("a"), C("b"), k2}, 2, [][]string{{u(0), u(1), u(0)}, {u(1), u(1), u(1)}}),
		mkTab([]AD{C("a"), k2, C("b")}, 1, [][]string{{u(0), u(0), u(1)}, {u(1), u(1), u(0)}}),
		mkTab([]AD{F("x"), F("y"), k2}, 2, [][]string{{f(-1), f(2), u(0)}, {f(0.5), f(-1), u(1)}}),
		mkTab([]AD{k3, F("x"), C("a"), {'B', "b", nil}}, 0, [][]string{{u(0), f(1), u(0), b(0)}, {u(1), f(2), u(1), b(1)}, {u(2), f(3), u(1), b(0)}}),
		mkTab([]AD{F("x"), C("a"), k3}, 2, [][]string{{f(1), u(0), u(0)}, {f(2), u(1), u(1)}, {f(3), u(1), u(2)}}),
		mkTab([]AD{F("x"), F("y"), {'B', "b", nil}, k2}, 3, [][]string{{f(1), f(1), b(0), u(0)}, {f(1), f(2), b(1), u(1)}, {f(2), f(1), b(1), u(1)}, {f(2), f(2), b(0), u(0)}}),
	}
}
