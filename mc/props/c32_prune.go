package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C32", Run: runC32,
		Rule:   "every tree grown by the real generators (and by every scripted choice of rules) from every small training table of schemas of one to three attributes, pruned with every multiset of up to n rows of the schema, stored or seen through views; the accuracy before and after is counted independently, the pruned tree is compared with the original node by node, and every combination of attribute values is predicted; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: trees with at least one split",
		Assume: []string{"pruning sets of more than the bound behave alike"}})
}

// cloneTree copies the structure of a tree.
func cloneTree(n *trees.DecisionTreeNode) *trees.DecisionTreeNode {
	m := *n
	m.ClassDist = map[string]int{}
	for k, v := range n.ClassDist {
		m.ClassDist[k] = v
	}
	if n.SplitRule != nil {
		r := *n.SplitRule
		m.SplitRule = &r
	}
	if n.Children != nil {
		m.Children = map[string]*trees.DecisionTreeNode{}
		for k, ch := range n.Children {
			m.Children[k] = cloneTree(ch)
		}
	}
	return &m
}

// prunedFrom tells whether n is old with some branches removed.
func prunedFrom(n, old *trees.DecisionTreeNode) error {
	if !distEq(n.ClassDist, old.ClassDist) || n.Class != old.Class {
		return fmt.Errorf("node %v %q was %v %q before", n.ClassDist, n.Class, old.ClassDist, old.Class)
	}
	if n.Children == nil {
		return nil
	}
	if len(n.Children) != len(old.Children) {
		return fmt.Errorf("a node lost some of its children: %d of %d", len(n.Children), len(old.Children))
	}
	if !n.SplitRule.SplitAttr.Equals(old.SplitRule.SplitAttr) || n.SplitRule.SplitVal != old.SplitRule.SplitVal {
		return fmt.Errorf("rule %v was %v", n.SplitRule, old.SplitRule)
	}
	for k, ch := range n.Children {
		o := old.Children[k]
		if o == nil {
			return fmt.Errorf("new child %q", k)
		}
		if err := prunedFrom(ch, o); err != nil {
			return err
		}
	}
	return nil
}

// hits counts the rows a tree predicts correctly.
func hits(n *trees.DecisionTreeNode, g base.FixedDataGrid) (int, error) {
	p, err := n.Predict(g)
	if err != nil {
		return 0, err
	}
	_, r := g.Size()
	k := 0
	for i := 0; i < r; i++ {
		if base.GetClass(g, i) == base.GetClass(p, i) {
			k++
		}
	}
	return k, nil
}

// pays checks that every split left earns its place: with a leaf instead,
// fewer of the pruning rows (of those which get there) were predicted correctly.
func pays(n *trees.DecisionTreeNode, t *Tab, rows []int) error {
	if n.Children == nil || len(rows) == 0 {
		return nil
	}
	sub := map[*trees.DecisionTreeNode][]int{}
	with, leaf := 0, 0
	for _, i := range rows {
		end, ok := treeEnd(t, n, i)
		if !ok {
			return nil // a value no training row had
		}
		cls := t.A[len(t.A)-1].GetStringFromSysVal([]byte(t.V[i][len(t.A)-1]))
		if end.Class == cls {
			with++
		}
		if n.Class == cls {
			leaf++
		}
		next := end
		for _, ch := range n.Children {
			if holds(ch, end) {
				next = ch
			}
		}
		sub[next] = append(sub[next], i)
	}
	if leaf >= with {
		return fmt.Errorf("the split %v predicts %d of the %d pruning rows which get there, a leaf would predict %d", n.SplitRule, with, len(rows), leaf)
	}
	for ch, rs := range sub {
		if err := pays(ch, t, rs); err != nil {
			return err
		}
	}
	return nil
}

// holds tells whether m is in the tree n.
func holds(n, m *trees.DecisionTreeNode) bool {
	if n == m {
		return true
	}
	for _, ch := range n.Children {
		if holds(ch, m) {
			return true
		}
	}
	return false
}

func runC32(c *eng.Ctx) {
	C := func(n string) AD { return AD{'C', n, []string{"p", "q", "r"}} }
	C2 := func(n string) AD { return AD{'C', n, []string{"p", "q"}} }
	F := func(n string) AD { return AD{'F', n, nil} }
	k2, k3 := AD{'C', "k", []string{"u", "v"}}, AD{'C', "k", []string{"u", "v", "w"}}
	kinds := []int{0, 2, 3, 6}
	for _, s := range []struct {
		defs         []AD
		tq, tt       int // rows of training sets
		pq, pt       int // rows of pruning sets
		fvals        int
		scripts, max int
	}{
		{[]AD{F("x"), k2}, 3, 4, 3, 4, 3, 0, 0},
		{[]AD{C("c"), k2}, 3, 4, 3, 4, 0, 0, 0},
		{[]AD{C("c"), F("x"), k2}, 3, 3, 2, 3, 2, 2, 40},
		{[]AD{C2("c"), AD{'B', "b", nil}, k2}, 3, 4, 2, 3, 0, 3, 40},
		{[]AD{F("x"), F("y"), k2}, 3, 4, 2, 2, 2, 2, 40},
		{[]AD{C2("c"), k3}, 3, 4, 3, 4, 0, 2, 40},
		{[]AD{C2("c"), C2("d"), F("x"), k2}, 2, 3, 1, 2, 2, 2, 20},
	} {
		alph := make([][]string, len(s.defs))
		per := 1
		for i, d := range s.defs {
			alph[i] = d.vals()
			if d.Kind == 'F' {
				alph[i] = []string{fb(-1), fb(0.5), fb(10)}[:s.fvals]
			}
			per *= len(alph[i])
		}
		table := func(ix []int) *Tab {
			t := mkTab(s.defs, len(s.defs)-1, nil)
			for _, k := range ix {
				r := make([]string, len(alph))
				for j := range alph {
					r[j] = alph[j][k%len(alph[j])]
					k /= len(alph[j])
				}
				t.V = append(t.V, r)
			}
			return t
		}
		multisets := func(n int, f func(ix []int)) {
			tuples(power(per, n), func(ix []int) {
				for i := 1; i < n; i++ {
					if ix[i] < ix[i-1] {
						return
					}
				}
				f(ix)
			})
		}
		// All pruning sets, built once; their numbers include a threshold of the trees.
		train, trainPer := alph, per
		alph, per = append([][]string{}, alph...), 1
		for i, d := range s.defs {
			if d.Kind == 'F' {
				alph[i] = append(append([]string{}, alph[i]...), fb(-0.25))
			}
			per *= len(alph[i])
		}
		type pset struct {
			t *Tab
			g base.FixedDataGrid
		}
		sets := []pset{}
		for n := 0; n <= c.Pick(s.pq, s.pt); n++ {
			multisets(n, func(ix []int) {
				t := table(ix)
				for _, k := range kinds {
					if k != 0 && (n == 0 || (ix[0]+n+k)%5 != 0) {
						continue
					}
					if g, _, _ := makeKind(k, t); g != nil {
						sets = append(sets, pset{t, g})
					}
				}
			})
		}
		alph, per = train, trainPer
		prune := func(root *trees.DecisionTreeNode, q *Tab, qg base.FixedDataGrid, via func(*trees.DecisionTreeNode, base.FixedDataGrid)) error {
			for _, ps := range sets {
				c.Trans(1)
				err := try(func() error {
					n := cloneTree(root)
					before, err := hits(n, ps.g)
					if err != nil {
						return err
					}
					via(n, ps.g)
					after, err := hits(n, ps.g)
					if err != nil {
						return err
					}
					if after < before {
						return fmt.Errorf("%d correct after pruning, %d before", after, before)
					}
					if err := prunedFrom(n, root); err != nil {
						return err
					}
					if err := pays(n, ps.t, seq(ps.t.rows())); err != nil {
						return err
					}
					if _, rows := ps.g.Size(); rows != ps.t.rows() {
						return fmt.Errorf("pruning set changed")
					}
					p, err := n.Predict(qg)
					if err := checkTreePredict(q, qg, n, p, err); err != nil {
						return err
					}
					if n.Children == nil && root.Children != nil {
						c.Count("pruned to a leaf", 1)
					}
					return nil
				})
				if err != nil {
					return fmt.Errorf("pruned with %s: %v", ps.t, err)
				}
			}
			return nil
		}
		plain := func(n *trees.DecisionTreeNode, g base.FixedDataGrid) { n.Prune(g) }
		viaRT := func(n *trees.DecisionTreeNode, g base.FixedDataGrid) {
			r := trees.NewRandomTree(1)
			r.Root = n
			r.Prune(g)
			*n = *r.Root
		}
		for n := 1; n <= c.Pick(s.tq, s.tt); n++ {
			multisets(n, func(ix []int) {
				if !c.Mine() {
					return
				}
				t := table(ix)
				c.Case("trained on %s", t)
				c.State(t.String())
				g := buildDense(t, 0)
				seen := map[string]bool{}
				one := func(root *trees.DecisionTreeNode, how string) error {
					if key := root.String() + fmt.Sprint(root.ClassDist); seen[key] {
						return nil
					} else {
						seen[key] = true
					}
					q := treeQuery(t, nil)
					qg := buildDense(q, 0)
					c.Trace()
					c.Outcome(root.String())
					if err := prune(root, q, qg, plain); err != nil {
						return fmt.Errorf("%s: %v\ntree %v", how, err, root)
					}
					if len(seen) == 1 {
						return prune(root, q, qg, viaRT)
					}
					return nil
				}
				for _, rg := range ruleGens {
					failErr(c, try(func() error { return one(trees.InferID3Tree(g, rg.gen), rg.name) }))
				}
				if n <= s.scripts {
					c.Explore(eng.Opt{MaxExec: c.Pick(s.max, 50*s.max)}, func(ch *eng.Chooser) {
						gen := &scripted{choose: ch.Choose, t: t}
						var root *trees.DecisionTreeNode
						if p := ch.Call(func() { root = trees.InferID3Tree(g, gen) }); p != nil {
							c.Fail("panic", "%v", p)
							return
						}
						failErr(c, try(func() error { return one(root, fmt.Sprint("choices ", ch.Choices())) }))
					})
				}
				// Training with a part of the rows held back for pruning.
				if n >= 2 && len(s.defs) <= 3 {
					fitted := false
					c.Explore(eng.Opt{MaxExec: c.Pick(200, 2000), IntDom: func(n int) []int {
						if n > 10 {
							return []int{0, 50, 51, 100}
						}
						return seq(n)
					}}, func(ch *eng.Chooser) {
						tree := trees.NewID3DecisionTree(0.5)
						g := buildDense(t, 0)
						var err error
						if p := ch.Call(func() { err = tree.Fit(g) }); p != nil {
							c.Fail("panic", "draws %v: %v", ch.Choices(), p)
							return
						}
						if err != nil {
							return // no row was drawn for training
						}
						fitted = true
						failErr(c, try(func() error {
							for k, v := range tree.Root.ClassDist {
								if v > classCounts(t, seq(n))[k] {
									return fmt.Errorf("%d rows of class %q in training", v, k)
								}
							}
							q := treeQuery(t, nil)
							qg := buildDense(q, 0)
							p, err := tree.Predict(qg)
							c.Trans(1)
							return checkTreePredict(q, qg, tree.Root, p, err)
						}))
					})
					if !fitted {
						c.Fail("never fitted", "training with a held back part failed for every draw")
					}
				}
			})
		}
	}
	c.Sample("x,k: training (-1,u) (0.5,v) (10,u), pruning (0.5,u) (10,u)")
	c32large(c)
}
