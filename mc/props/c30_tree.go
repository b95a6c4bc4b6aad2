package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C30", Run: runC30,
		Rule:   "every filling of 1..n rows of schemas of one to three attributes of every type, every real rule generator, and a scripted generator taking every choice of rule (any attribute, any threshold, none) at every node; the real tree is walked beside the rows that reach each node, then every combination of attribute values is predicted, with probabilities; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: trees with at least one split",
		Assume: []string{"numeric alphabet of four values; more rows than six or more than three attributes behave alike"}})
}

// treeSite is what a tree node is grown from: the rows that reach it and the columns left.
func treeSite(t *Tab, rows, cols []int) string {
	r := append([]int{}, rows...)
	sort.Ints(r)
	v := make([]string, len(r))
	for i, x := range r {
		v[i] = fmt.Sprintf("%x", strings.Join(t.V[x], ";"))
	}
	sort.Strings(v)
	cs := append([]int{}, cols...)
	sort.Ints(cs)
	return fmt.Sprint(v, cs)
}

// checkTree walks a real tree along the rows that reach each node.
// sites receives every node at which a rule must have been asked for.
func checkTree(t *Tab, n *trees.DecisionTreeNode, rows, cols []int, sites *[]string) error {
	return walkTree(t, n, rows, cols, func(n *trees.DecisionTreeNode, rows, cols []int) error {
		counts := classCounts(t, rows)
		if len(counts) == 1 || len(cols) == 0 {
			if n.Children != nil {
				return fmt.Errorf("node %v with columns %v was split", counts, cols)
			}
			return nil
		}
		if sites != nil {
			*sites = append(*sites, treeSite(t, rows, cols))
		}
		return nil
	})
}

func distEq(a, b map[string]int) bool {
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

func walkTree(t *Tab, n *trees.DecisionTreeNode, rows, cols []int, visit func(n *trees.DecisionTreeNode, rows, cols []int) error) error {
	counts := classCounts(t, rows)
	if !distEq(counts, n.ClassDist) {
		return fmt.Errorf("class counts %v at a node reached by %v", n.ClassDist, counts)
	}
	for k, v := range counts {
		if v > counts[n.Class] {
			return fmt.Errorf("class %q at a node with counts %v (%s=%d)", n.Class, counts, k, v)
		}
	}
	if err := visit(n, rows, cols); err != nil {
		return err
	}
	if n.Children == nil {
		return nil
	}
	col := -1
	left := []int{}
	for _, j := range cols {
		if n.SplitRule != nil && t.A[j].Equals(n.SplitRule.SplitAttr) {
			col = j
		} else {
			left = append(left, j)
		}
	}
	if col < 0 {
		return fmt.Errorf("node split on %v with columns %v left", n.SplitRule, cols)
	}
	parts := splitOf(t, rows, col, n.SplitRule.SplitVal)
	if len(parts) != len(n.Children) {
		return fmt.Errorf("%d children for the branches %v", len(n.Children), parts)
	}
	for k, p := range parts {
		ch := n.Children[k]
		if ch == nil {
			return fmt.Errorf("no child for branch %q", k)
		}
		if err := walkTree(t, ch, p, left, visit); err != nil {
			return fmt.Errorf("under %v=%q: %v", n.SplitRule, k, err)
		}
	}
	return nil
}

// treeEnd follows a row through a tree; ok: its whole path exists.
func treeEnd(t *Tab, n *trees.DecisionTreeNode, row int) (end *trees.DecisionTreeNode, ok bool) {
	for n.Children != nil {
		col := -1
		for j := range t.A {
			if t.A[j].Equals(n.SplitRule.SplitAttr) {
				col = j
			}
		}
		next := n.Children[branchOf(t, row, col, n.SplitRule.SplitVal)]
		if next == nil {
			return n, false
		}
		n = next
	}
	return n, true
}

// leafClasses are the classes a tree can predict.
func leafClasses(n *trees.DecisionTreeNode, m map[string]bool) map[string]bool {
	if n.Children == nil {
		m[n.Class] = true
	}
	for _, ch := range n.Children {
		leafClasses(ch, m)
	}
	return m
}

// treeQuery is every combination of attribute values, thresholds included.
func treeQuery(t *Tab, extra []float64) *Tab {
	m := len(t.A) - 1
	alph := make([][]string, m)
	for j := 0; j < m; j++ {
		switch a := t.A[j].(type) {
		case *base.FloatAttribute:
			set := map[float64]bool{}
			for _, v := range append([]float64{-1, 0.5, 2, 10, -0.25, 0, 50}, extra...) {
				set[v] = true
			}
			vs := []float64{}
			for v := range set {
				vs = append(vs, v)
			}
			sortFloats(vs)
			for _, v := range vs {
				alph[j] = append(alph[j], fb(v))
			}
		case *base.CategoricalAttribute:
			for i := range a.GetValues() {
				alph[j] = append(alph[j], ub(uint64(i)))
			}
		default:
			alph[j] = []string{"\x00", "\x01"}
		}
	}
	q := &Tab{A: t.A, Class: t.Class}
	radix := make([]int, m)
	for j := range radix {
		radix[j] = len(alph[j])
	}
	tuples(radix, func(ix []int) {
		r := make([]string, m+1)
		for j := 0; j < m; j++ {
			r[j] = alph[j][ix[j]]
		}
		r[m] = ub(0)
		q.V = append(q.V, r)
	})
	return q
}

// checkTreePredict compares the predictions of a tree with its paths.
func checkTreePredict(q *Tab, g base.FixedDataGrid, root *trees.DecisionTreeNode, p base.FixedDataGrid, err error) error {
	if err != nil {
		return err
	}
	if _, n := p.Size(); n != q.rows() {
		return fmt.Errorf("%d predictions for %d rows", n, q.rows())
	}
	possible := leafClasses(root, map[string]bool{})
	for i := 0; i < q.rows(); i++ {
		end, ok := treeEnd(q, root, i)
		got := base.GetClass(p, i)
		if ok && got != end.Class {
			return fmt.Errorf("row %s predicted as %q, its path ends at %q (%v)", q.row(i), got, end.Class, end.ClassDist)
		}
		if !ok && !leafClasses(end, map[string]bool{})[got] {
			return fmt.Errorf("row %s predicted as %q, which no leaf under its path predicts", q.row(i), got)
		}
		if !possible[got] {
			return fmt.Errorf("row %s predicted as %q", q.row(i), got)
		}
	}
	return nil
}

// checkProba compares predicted probabilities with the leaf's frequencies.
func checkProba(q *Tab, root *trees.DecisionTreeNode) error {
	id3 := &trees.ID3DecisionTree{Root: root}
	for i := 0; i < q.rows(); i++ {
		end, ok := treeEnd(q, root, i)
		one := &Tab{A: q.A, Class: q.Class, V: q.V[i : i+1]}
		pr, err := id3.PredictProba(buildDense(one, 0))
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
		n, seen := 0, map[string]bool{}
		for _, v := range end.ClassDist {
			n += v
		}
		for j, x := range pr {
			if seen[x.ClassValue] {
				return fmt.Errorf("class %q twice in %v", x.ClassValue, pr)
			}
			seen[x.ClassValue] = true
			if !feq(x.Probability, float64(end.ClassDist[x.ClassValue])/float64(n)) {
				return fmt.Errorf("row %s: probabilities %v at a node with %v", q.row(i), pr, end.ClassDist)
			}
			if j > 0 && pr[j-1].Probability < x.Probability {
				return fmt.Errorf("row %s: probabilities %v are not sorted", q.row(i), pr)
			}
		}
		for k, v := range end.ClassDist {
			if v > 0 && !seen[k] {
				return fmt.Errorf("row %s: no probability for %q in %v", q.row(i), k, pr)
			}
		}
	}
	return nil
}

// scripted is a rule generator that takes every choice.
type scripted struct {
	choose func(n int) int
	t      *Tab
	seen   []string
	err    error
}

func (s *scripted) GenerateSplitRule(f base.FixedDataGrid) *trees.DecisionTreeRule {
	m := len(s.t.A) - 1
	cols := []int{}
	for j := 0; j < m; j++ {
		if _, err := f.GetAttribute(s.t.A[j]); err == nil {
			cols = append(cols, j)
		}
	}
	// The rows shown, restricted to what is left of them.
	_, n := f.Size()
	v := []string{}
	opts := []*trees.DecisionTreeRule{nil, {SplitAttr: nil}}
	for _, j := range cols {
		if s.t.A[j].GetType() != base.Float64Type {
			opts = append(opts, &trees.DecisionTreeRule{SplitAttr: s.t.A[j]})
			continue
		}
		for _, x := range []float64{-5, -1, 0, 2} {
			opts = append(opts, &trees.DecisionTreeRule{SplitAttr: s.t.A[j], SplitVal: x})
		}
	}
	for r := 0; r < n; r++ {
		p := []string{base.GetClass(f, r)}
		for _, j := range cols {
			sp, _ := f.GetAttribute(s.t.A[j])
			p = append(p, fmt.Sprintf("%x", f.Get(sp, r)))
		}
		v = append(v, strings.Join(p, ";"))
	}
	sort.Strings(v)
	s.seen = append(s.seen, fmt.Sprint(v, cols))
	return opts[s.choose(len(opts))]
}

func shownSite(t *Tab, rows, cols []int) string {
	v := []string{}
	k := len(t.A) - 1
	for _, r := range rows {
		p := []string{t.A[k].GetStringFromSysVal([]byte(t.V[r][k]))}
		for _, j := range cols {
			p = append(p, fmt.Sprintf("%x", t.V[r][j]))
		}
		v = append(v, strings.Join(p, ";"))
	}
	sort.Strings(v)
	return fmt.Sprint(v, cols)
}

func ruleThresholds(n *trees.DecisionTreeNode, r []float64) []float64 {
	if n.Children != nil && n.SplitRule != nil && !math.IsInf(n.SplitRule.SplitVal, 0) {
		r = append(r, n.SplitRule.SplitVal)
	}
	for _, ch := range n.Children {
		r = ruleThresholds(ch, r)
	}
	return r
}

func runC30(c *eng.Ctx) {
	shapes := func(n *trees.DecisionTreeNode) string { return n.String() }
	treeSchemas(c, func(t *Tab) {
		m := len(t.A) - 1
		c.Case("table=%s", t)
		c.State(t.String())
		kinds := []int{0}
		if t.rows() <= 2 || c.Thorough() {
			kinds = []int{0, 2, 3, 6, 7}
		}
		rows := seq(t.rows())
		for _, kind := range kinds {
			g, _, _ := makeKind(kind, t)
			if g == nil {
				continue
			}
			for _, rg := range ruleGens {
				err := try(func() error {
					tree := trees.NewID3DecisionTreeFromRule(0, rg.gen)
					if err := tree.Fit(g); err != nil {
						return err
					}
					var rec func(n *trees.DecisionTreeNode, rows, cols []int) error
					rec = func(n *trees.DecisionTreeNode, rows, cols []int) error {
						return walkTree(t, n, rows, cols, func(n *trees.DecisionTreeNode, rows, cols []int) error {
							counts := classCounts(t, rows)
							if len(counts) == 1 || len(cols) == 0 {
								if n.Children != nil {
									return fmt.Errorf("node %v with columns %v was split", counts, cols)
								}
								return nil
							}
							// A node that was not split had no usable rule.
							if n.Children == nil {
								sub := &Tab{A: t.A, Class: t.Class}
								for _, r := range rows {
									sub.V = append(sub.V, t.V[r])
								}
								at := []base.Attribute{}
								for _, j := range cols {
									at = append(at, t.A[j])
								}
								r := rg.gen.GetSplitRuleFromSelection(at, buildDense(sub, 0))
								if r != nil && r.SplitAttr != nil {
									return fmt.Errorf("node %v not split although %v is a rule", counts, r)
								}
							}
							return nil
						})
					}
					if err := rec(tree.Root, rows, seq(m)); err != nil {
						return err
					}
					q := treeQuery(t, ruleThresholds(tree.Root, nil))
					qg := buildDense(q, 0)
					p, err := tree.Predict(qg)
					if err := checkTreePredict(q, qg, tree.Root, p, err); err != nil {
						return err
					}
					c.Trans(q.rows())
					c.Outcome(shapes(tree.Root))
					return checkProba(q, tree.Root)
				})
				if err != nil {
					err = fmt.Errorf("%s, %s: %v", kindNames[kind], rg.name, err)
				}
				if !failErr(c, err) {
					c.Trace()
				}
			}
		}
		// Every choice of rules.
		if t.rows() > c.Pick(4, 5) {
			return
		}
		g := buildDense(t, 0)
		c.Explore(eng.Opt{MaxExec: c.Pick(3000, 60000)}, func(ch *eng.Chooser) {
			s := &scripted{choose: ch.Choose, t: t}
			var root *trees.DecisionTreeNode
			if p := ch.Call(func() { root = trees.InferID3Tree(g, s) }); p != nil {
				c.Fail("panic", "choices %v: %v", ch.Choices(), p)
				return
			}
			err := try(func() error {
				want := []string{}
				err := walkTree(t, root, rows, seq(m), func(n *trees.DecisionTreeNode, rows, cols []int) error {
					counts := classCounts(t, rows)
					if len(counts) == 1 || len(cols) == 0 {
						if n.Children != nil {
							return fmt.Errorf("node %v with columns %v was split", counts, cols)
						}
						return nil
					}
					want = append(want, shownSite(t, rows, cols))
					return nil
				})
				if err != nil {
					return err
				}
				if !same(sorted(want), sorted(s.seen)) {
					return fmt.Errorf("rules were asked for\n%v\nwant\n%v", sorted(s.seen), sorted(want))
				}
				q := treeQuery(t, ruleThresholds(root, nil))
				qg := buildDense(q, 0)
				p, err := root.Predict(qg)
				c.Trans(q.rows())
				c.Outcome(shapes(root))
				return checkTreePredict(q, qg, root, p, err)
			})
			if err != nil {
				c.Fail(err.Error(), "choices %v: %v", ch.Choices(), err)
				return
			}
			c.Trace()
		})
	})
	c.Sample("F,C2,B with classes u,v, rows (-1,p,0,u) (2,q,0,v), scripted: split x at -5, then c, then no rule")
	c30large(c)
	c30near(c)
}
