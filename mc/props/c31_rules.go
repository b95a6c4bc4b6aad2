package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C31", Run: runC31,
		Rule:   "every filling of 1..n rows of schemas of two or three attributes (categorical with two or three values, numeric, binary) and two or three classes, every generator, every subset and order of candidates, on stored grids, views and filtered grids: the chosen attribute and threshold are scored from the true class counts and compared with the best of all candidates; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two rows",
		Assume: []string{"numeric thresholds are chosen by information gain by every generator, and lie halfway between neighbouring values", "scores within 1e-9 count as equal"}})
}

// splitOf distributes rows over the branches of a split.
func splitOf(t *Tab, rows []int, col int, thr float64) map[string][]int {
	m := map[string][]int{}
	for _, r := range rows {
		m[branchOf(t, r, col, thr)] = append(m[branchOf(t, r, col, thr)], r)
	}
	return m
}

func branchOf(t *Tab, r, col int, thr float64) string {
	v := []byte(t.V[r][col])
	if t.A[col].GetType() == base.Float64Type {
		if base.UnpackBytesToFloat(v) > thr {
			return "1"
		}
		return "0"
	}
	return t.A[col].GetStringFromSysVal(v)
}

func classCounts(t *Tab, rows []int) map[string]int {
	k := len(t.A) - 1
	m := map[string]int{}
	for _, r := range rows {
		m[t.A[k].GetStringFromSysVal([]byte(t.V[r][k]))]++
	}
	return m
}

func entropy(m map[string]int) float64 {
	n, e := 0.0, 0.0
	for _, v := range m {
		n += float64(v)
	}
	for _, v := range m {
		p := float64(v) / n
		e -= p * math.Log2(p)
	}
	return e
}

func giniOf(m map[string]int) float64 {
	n, e := 0.0, 1.0
	for _, v := range m {
		n += float64(v)
	}
	for _, v := range m {
		p := float64(v) / n
		e -= p * p
	}
	return e
}

// scoreSplit rates a split; greater is better. ok: the split is allowed.
func scoreSplit(gen string, t *Tab, rows []int, col int, thr float64) (score float64, ok bool) {
	sp := splitOf(t, rows, col, thr)
	n := float64(len(rows))
	h, g, iv := 0.0, 0.0, 0.0
	for _, part := range sp {
		p := float64(len(part)) / n
		h += p * entropy(classCounts(t, part))
		g += p * giniOf(classCounts(t, part))
		iv -= p * math.Log2(p)
	}
	gain := entropy(classCounts(t, rows)) - h
	switch gen {
	case "ratio":
		if len(sp) < 2 {
			return 0, false
		}
		return gain / iv, true
	case "gini":
		return -g, true
	}
	return gain, true
}

// thresholds between neighbouring values of a numeric column.
func thresholds(t *Tab, rows []int, col int) []float64 {
	set := map[float64]bool{}
	for _, r := range rows {
		set[base.UnpackBytesToFloat([]byte(t.V[r][col]))] = true
	}
	v := []float64{}
	for x := range set {
		v = append(v, x)
	}
	sortFloats(v)
	r := []float64{}
	for i := 0; i+1 < len(v); i++ {
		m := v[i]/2 + v[i+1]/2
		if !(m >= v[i] && m < v[i+1]) {
			m = v[i]
		}
		r = append(r, m)
	}
	return r
}

// checkRule decides whether rule is one of the best for the candidate columns.
func checkRule(gen string, t *Tab, rows []int, cands []int, rule *trees.DecisionTreeRule) error {
	const eps = 1e-9
	any := false
	atLeast := math.Inf(-1)
	var bestOf = map[int][]float64{} // thresholds of best information gain
	for _, col := range cands {
		ths := []float64{0}
		if t.A[col].GetType() == base.Float64Type {
			all := thresholds(t, rows, col)
			top := math.Inf(-1)
			for _, x := range all {
				s, _ := scoreSplit("gain", t, rows, col, x)
				top = math.Max(top, s)
			}
			ths = nil
			for _, x := range all {
				if s, _ := scoreSplit("gain", t, rows, col, x); s >= top-eps {
					ths = append(ths, x)
				}
			}
		}
		lo, usable := math.Inf(1), false
		for _, x := range ths {
			if s, ok := scoreSplit(gen, t, rows, col, x); ok {
				lo, usable = math.Min(lo, s), true
			}
		}
		if usable {
			any = true
			atLeast = math.Max(atLeast, lo)
			bestOf[col] = ths
		}
	}
	if rule == nil || rule.SplitAttr == nil {
		if any {
			return fmt.Errorf("no split chosen although one of score %v exists", atLeast)
		}
		return nil
	}
	col := -1
	for _, k := range cands {
		if t.A[k].Equals(rule.SplitAttr) {
			col = k
		}
	}
	if col < 0 {
		return fmt.Errorf("split on %v, which is not a candidate", rule.SplitAttr)
	}
	ths, ok := bestOf[col]
	if !ok {
		return fmt.Errorf("split on %v, which cannot be split", rule.SplitAttr)
	}
	if t.A[col].GetType() == base.Float64Type {
		hit := false
		for _, x := range ths {
			hit = hit || feq(x, rule.SplitVal)
		}
		if !hit {
			return fmt.Errorf("threshold %v of %v, the best are %v", rule.SplitVal, rule.SplitAttr, ths)
		}
	}
	s, _ := scoreSplit(gen, t, rows, col, rule.SplitVal)
	if s < atLeast-eps {
		return fmt.Errorf("split %v has score %v, the best has %v", rule, s, atLeast)
	}
	return nil
}

type ruleGen interface {
	trees.RuleGenerator
	GetSplitRuleFromSelection([]base.Attribute, base.FixedDataGrid) *trees.DecisionTreeRule
}

var ruleGens = []struct {
	name string
	gen  ruleGen
}{
	{"gain", new(trees.InformationGainRuleGenerator)},
	{"ratio", new(trees.InformationGainRatioRuleGenerator)},
	{"gini", new(trees.GiniCoefficientRuleGenerator)},
}

// treeSchemas enumerates training sets for trees: f gets every table.
func treeSchemas(c *eng.Ctx, f func(t *Tab)) {
	C2 := func(n string) AD { return AD{'C', n, []string{"p", "q"}} }
	C3 := AD{'C', "c", []string{"p", "q", "r"}}
	F := func(n string) AD { return AD{'F', n, nil} }
	B := AD{'B', "b", nil}
	k2, k3 := AD{'C', "k", []string{"u", "v"}}, AD{'C', "k", []string{"u", "v", "w"}}
	for _, s := range []struct {
		defs []AD
		q, t int
		vals int // numeric alphabet
	}{
		{[]AD{F("x"), k3}, 4, 5, 4},
		{[]AD{F("x"), k2}, 5, 6, 4},
		{[]AD{F("x"), F("y"), k2}, 3, 4, 3},
		{[]AD{C3, F("x"), k2}, 3, 4, 3},
		{[]AD{C2("c"), B, k3}, 3, 4, 0},
		{[]AD{C2("c"), C3n("d"), k2}, 3, 4, 0},
		{[]AD{F("x"), C2("c"), B, k2}, 2, 3, 3},
		{[]AD{C2("c"), C2("d"), B, k2}, 3, 4, 0},
	} {
		alph := make([][]string, len(s.defs))
		for i, d := range s.defs {
			alph[i] = d.vals()
			if d.Kind == 'F' {
				alph[i] = []string{fb(-1), fb(0.5), fb(2), fb(10)}[:s.vals]
			}
		}
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			// rows are drawn in non-decreasing order, then also reversed
			per := 1
			for _, a := range alph {
				per *= len(a)
			}
			tuples(power(per, n), func(ix []int) {
				for i := 1; i < n; i++ {
					if ix[i] < ix[i-1] {
						return
					}
				}
				for rev := 0; rev < 2; rev++ {
					if rev == 1 && (n == 1 || !c.Thorough() && (ix[0]+ix[n-1])%3 != 0) {
						continue
					}
					if !c.Mine() {
						continue
					}
					v := make([][]string, n)
					for r := range v {
						k := ix[r]
						if rev == 1 {
							k = ix[n-1-r]
						}
						v[r] = make([]string, len(alph))
						for j := range alph {
							v[r][j] = alph[j][k%len(alph[j])]
							k /= len(alph[j])
						}
					}
					t := mkTab(s.defs, len(s.defs)-1, v)
					f(t)
				}
			})
		}
	}
}

// C3n is a categorical definition with three values.
func C3n(n string) AD { return AD{'C', n, []string{"p", "q", "r"}} }

func runC31(c *eng.Ctx) {
	treeSchemas(c, func(t *Tab) {
		m := len(t.A) - 1
		rows := seq(t.rows())
		c.Case("table=%s", t)
		c.State(t.String())
		kinds := []int{0}
		if t.rows() <= 2 || c.Thorough() {
			kinds = []int{0, 2, 3, 6, 7}
		}
		for _, k := range kinds {
			g, _, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			for _, rg := range ruleGens {
				err := try(func() error {
					if err := checkRule(rg.name, t, rows, seq(m), rg.gen.GenerateSplitRule(g)); err != nil {
						return fmt.Errorf("%s: %v", rg.name, err)
					}
					for mask := 1; mask < 1<<uint(m); mask++ {
						sel := []int{}
						for j := 0; j < m; j++ {
							if mask>>uint(j)&1 == 1 {
								sel = append(sel, j)
							}
						}
						for o := 0; o < 2; o++ {
							as := []base.Attribute{}
							for i := range sel {
								if o == 1 {
									i = len(sel) - 1 - i
								}
								as = append(as, t.A[sel[i]])
							}
							rule := rg.gen.GetSplitRuleFromSelection(as, g)
							if err := checkRule(rg.name, t, rows, sel, rule); err != nil {
								return fmt.Errorf("%s of %v: %v", rg.name, as, err)
							}
							c.Outcome(fmt.Sprint(rg.name, rule))
							c.Trans(1)
						}
					}
					return nil
				})
				if err != nil {
					err = fmt.Errorf("%s: %v", kindNames[k], err)
				}
				if !failErr(c, err) {
					c.Trace()
				}
			}
		}
	})
	c.Sample("F,C2,B with classes u,v: rows (-1,p,0,u) (2,q,0,v), all candidate subsets")
	c31large(c)
	c31extreme(c)
}
