package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C09", Run: runC09,
		Rule:   "every filling of 0..n rows of schemas with numeric, categorical and binary columns and every class column x every kind of grid x every attribute and threshold (each value, below, between and above): GetClassDistribution, ...ByCategoricalValue, ...ByBinaryFloatValue, ...AfterSplit, ...AfterThreshold, DecomposeOnAttributeValues and DecomposeOnNumericAttributeThreshold compared with counting over the table; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: two rows in different branches",
		Assume: []string{"numbers are grouped by their printed text when decomposing by value"}})
}

func runC09(c *eng.Ctx) {
	cats := []string{"z", "a", "m"}
	type sc struct {
		defs  []AD
		class int
		n     int
	}
	F := func(n string) AD { return AD{'F', n, nil} }
	C := func(n string, k int) AD { return AD{'C', n, cats[:k]} }
	B := func(n string) AD { return AD{'B', n, nil} }
	scs := []sc{
		{[]AD{C("y", 3)}, 0, 3}, {[]AD{F("x"), C("y", 2)}, 1, 3}, {[]AD{C("y", 2), F("x")}, 0, c.Pick(3, 4)}, {[]AD{C("u", 3), C("y", 2)}, 1, c.Pick(3, 4)}, {[]AD{B("b"), C("y", 3)}, 1, 3},
		{[]AD{F("x"), B("b"), C("y", 2)}, 2, 2}, {[]AD{F("x"), F("y")}, 1, c.Pick(2, 3)}, {[]AD{C("u", 2), B("y")}, 1, 3}, {[]AD{C("u", 2), F("x"), C("y", 2)}, 2, 2},
	}
	for si, s := range scs {
		for n := 0; n <= s.n; n++ {
			allValues(s.defs, n, func(v [][]string) {
				if !c.Mine() {
					return
				}
				t := mkTab(s.defs, s.class, v)
				c.State(fmt.Sprint(si) + t.String())
				for k := 0; k < numKinds; k++ {
					g, w, _ := makeKind(k, t)
					if g == nil {
						continue
					}
					c.Case("%s schema=%d class=%d table=%s", kindNames[k], si, s.class, w)
					if !failErr(c, try(func() error { return c09one(c, g, w, s.class) })) {
						c.Trace()
					}
				}
			})
		}
	}
	c.Sample("F,C2 class: 3 rows, threshold between values, view-of-view")
	c.Sample("C3,C2: DecomposeOnAttributeValues on the class attribute itself")
	c09large(c)
	c09near(c)
}

func c09cmp(name string, got, want map[string]map[string]int) error {
	f := func(m map[string]map[string]int) string {
		s := []string{}
		for k, v := range m {
			for l, n := range v {
				s = append(s, fmt.Sprintf("%q/%q=%d", k, l, n))
			}
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	}
	if f(got) != f(want) {
		return fmt.Errorf("%s = %s, want %s", name, f(got), f(want))
	}
	return nil
}

func c09one(c *eng.Ctx, g base.FixedDataGrid, t *Tab, class int) error {
	return c09th(c, g, t, class, []float64{-3, -2, -1, 0, 1.5, 2, 3, 4, math.Inf(1)})
}

func c09th(c *eng.Ctx, g base.FixedDataGrid, t *Tab, class int, ths []float64) error {
	text := func(i, j int) string { return t.A[j].GetStringFromSysVal([]byte(t.V[i][j])) }
	add := func(m map[string]map[string]int, a, b string) {
		if m[a] == nil {
			m[a] = map[string]int{}
		}
		m[a][b]++
	}
	cls := func(i int) string { return text(i, class) }
	want := map[string]map[string]int{}
	for i := range t.V {
		add(want, "", cls(i))
	}
	if err := c09cmp("GetClassDistribution", map[string]map[string]int{"": base.GetClassDistribution(g)}, want); err != nil {
		return err
	}
	switch a := t.A[class].(type) {
	case *base.CategoricalAttribute:
		w := make([]int, len(a.GetValues()))
		for i := range t.V {
			w[base.UnpackBytesToU64([]byte(t.V[i][class]))]++
		}
		if r := base.GetClassDistributionByCategoricalValue(g); fmt.Sprint(r) != fmt.Sprint(w) {
			return fmt.Errorf("GetClassDistributionByCategoricalValue = %v, want %v", r, w)
		}
	case *base.FloatAttribute:
		w := make([]int, 2)
		for i := range t.V {
			if num(a, t.V[i][class]) > 0.5 {
				w[1]++
			} else {
				w[0]++
			}
		}
		if r := base.GetClassDistributionByBinaryFloatValue(g); fmt.Sprint(r) != fmt.Sprint(w) {
			return fmt.Errorf("GetClassDistributionByBinaryFloatValue = %v, want %v", r, w)
		}
	}
	c.Trans(2)
	for j := range t.A {
		want := map[string]map[string]int{}
		part := map[string][]int{}
		for i := range t.V {
			add(want, text(i, j), cls(i))
			part[text(i, j)] = append(part[text(i, j)], i)
		}
		if err := c09cmp("GetClassDistributionAfterSplit "+t.A[j].GetName(), base.GetClassDistributionAfterSplit(g, t.A[j]), want); err != nil {
			return err
		}
		if err := c09parts("DecomposeOnAttributeValues "+t.A[j].GetName(), base.DecomposeOnAttributeValues(g, t.A[j]), t, j, part); err != nil {
			return err
		}
		c.Trans(2)
		if _, ok := t.A[j].(*base.FloatAttribute); !ok {
			continue
		}
		for _, th := range ths {
			want := map[string]map[string]int{}
			part := map[string][]int{}
			for i := range t.V {
				b := "0"
				if num(t.A[j], t.V[i][j]) > th {
					b = "1"
				}
				add(want, b, cls(i))
				part[b] = append(part[b], i)
			}
			n := fmt.Sprintf(" %s>%v", t.A[j].GetName(), th)
			if err := c09cmp("GetClassDistributionAfterThreshold"+n, base.GetClassDistributionAfterThreshold(g, t.A[j], th), want); err != nil {
				return err
			}
			if err := c09parts("DecomposeOnNumericAttributeThreshold"+n, base.DecomposeOnNumericAttributeThreshold(g, t.A[j], th), t, j, part); err != nil {
				return err
			}
			c.Trans(2)
		}
		c.Outcome(fmt.Sprint(part))
	}
	return nil
}

func c09parts(name string, got map[string]base.FixedDataGrid, t *Tab, j int, part map[string][]int) error {
	if len(got) != len(part) {
		return fmt.Errorf("%s: %d parts, want %d", name, len(got), len(part))
	}
	cols := append(seq(j), seq(len(t.A))[j+1:]...)
	for k, rows := range part {
		p, ok := got[k]
		if !ok {
			return fmt.Errorf("%s: no part %q", name, k)
		}
		w := t.selectRC(rows, cols)
		if len(cols) == 0 {
			if cn, rn := p.Size(); cn != 0 || rn != len(rows) {
				return fmt.Errorf("%s part %q: size %d,%d", name, k, cn, rn)
			}
			continue
		}
		r, err := readAs(p, w)
		if err == nil {
			err = readBoth(p)
		}
		if err != nil {
			return fmt.Errorf("%s part %q: %v", name, k, err)
		}
		if !same(r.multiset(), w.multiset()) {
			return fmt.Errorf("%s part %q: rows %v, want %v", name, k, r.multiset(), w.multiset())
		}
		nc := 0
		for _, x := range w.Class {
			if x {
				nc++
			}
		}
		if len(p.AllClassAttributes()) != nc {
			return fmt.Errorf("%s part %q: class attributes %v", name, k, p.AllClassAttributes())
		}
	}
	return nil
}
