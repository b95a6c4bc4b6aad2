package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C06", Run: runC06,
		Rule:   "every ordered pair of small grids from a family (schemas differing in attribute count, type, name, category list and order; 0-2 rows; all cell values of a small alphabet; every kind of grid) goes through InstancesAreEqual, CheckCompatible and CheckStrictlyCompatible in both directions and is compared with the definition on tables; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: pairs that differ in exactly one respect",
		Assume: []string{"columns correspond by name and type; categories are compared by their text, as the sort tests of the repository require", "attribute names are unique within a grid"}})
}

type eqGrid struct {
	t    *Tab
	kind int
	lay  [][]int // groups by layout: nil for non-dense
}

// textRows renders values for comparison across grids.
func eqKey(t *Tab) map[string]string {
	r := map[string]string{}
	for j, a := range t.A {
		k := fmt.Sprintf("%s/%d", a.GetName(), a.GetType())
		s := ""
		for i := range t.V {
			v := fmt.Sprintf("%x", t.V[i][j])
			if ca, ok := a.(*base.CategoricalAttribute); ok {
				v = ca.GetStringFromSysVal([]byte(t.V[i][j]))
			}
			s += v + ";"
		}
		r[k] = s
	}
	return r
}

func eqModel(a, b *Tab) bool {
	if len(a.A) != len(b.A) || a.rows() != b.rows() {
		return false
	}
	x, y := eqKey(a), eqKey(b)
	for k := range x {
		if v, ok := y[k]; !ok || v != x[k] {
			return false
		}
	}
	return true
}

func compatModel(a, b *Tab) bool {
	if len(a.A) != len(b.A) {
		return false
	}
	for _, x := range a.A {
		ok := false
		for _, y := range b.A {
			ok = ok || x.Equals(y)
		}
		if !ok {
			return false
		}
	}
	return true
}

// strictModel: stored in the same named groups in the same order.
func strictModel(a, b base.FixedDataGrid) bool {
	x, ok1 := a.(*base.DenseInstances)
	y, ok2 := b.(*base.DenseInstances)
	if !ok1 || !ok2 {
		return false
	}
	gx, gy := x.AllAttributeGroups(), y.AllAttributeGroups()
	if len(gx) != len(gy) {
		return false
	}
	for n, g := range gx {
		h, ok := gy[n]
		if !ok || len(g.Attributes()) != len(h.Attributes()) {
			return false
		}
		for i := range g.Attributes() {
			if !g.Attributes()[i].Equals(h.Attributes()[i]) {
				return false
			}
		}
	}
	return true
}

func runC06(c *eng.Ctx) {
	pq, qp := []string{"p", "q"}, []string{"q", "p"}
	schemas := [][]AD{
		{},
		{{'F', "x", nil}},
		{{'F', "y", nil}},
		{{'B', "x", nil}},
		{{'C', "x", pq}},
		{{'C', "x", qp}},
		{{'C', "x", []string{"p", "q", "r"}}},
		{{'F', "x", nil}, {'F', "y", nil}},
		{{'F', "y", nil}, {'F', "x", nil}},
		{{'F', "x", nil}, {'C', "c", pq}},
		{{'F', "x", nil}, {'C', "c", qp}},
		{{'C', "c", pq}, {'F', "x", nil}},
		{{'F', "x", nil}, {'B', "b", nil}},
		{{'B', "b", nil}, {'B', "d", nil}},
	}
	maxRows := 2
	type item struct {
		g    base.FixedDataGrid
		t    *Tab
		name string
	}
	items := []item{}
	for si, defs := range schemas {
		for n := 0; n <= maxRows; n++ {
			allValues2(defs, n, func(v [][]string) {
				class := -1
				t := mkTab(defs, class, v)
				for k := 0; k < numKinds; k++ {
					if k > 0 && (n == 0 || len(defs) == 2 && n == 2 && k != 5 && k != 2) {
						continue
					}
					g, w, _ := makeKind(k, t)
					if g == nil {
						continue
					}
					items = append(items, item{g, w, fmt.Sprintf("s%d/%s/%s", si, kindNames[k], t)})
				}
			})
		}
	}
	c.Count("grids", len(items))
	for i := range items {
		if !c.Mine() {
			continue
		}
		for j := range items {
			a, b := items[i], items[j]
			c.Case("A=%s B=%s", a.name, b.name)
			var e1, e2, st bool
			var co []base.Attribute
			p := eng.Try(func() {
				e1 = base.InstancesAreEqual(a.g, b.g)
				e2 = base.InstancesAreEqual(b.g, a.g)
				co = base.CheckCompatible(a.g, b.g)
				st = base.CheckStrictlyCompatible(a.g, b.g)
			})
			c.Trans(4)
			if p != nil {
				c.Fail(c.CurCase(), "%v at %s", p, p.Stack)
				continue
			}
			want := eqModel(a.t, b.t)
			if e1 != want || e2 != want {
				c.Fail(c.CurCase(), "InstancesAreEqual = %v, reversed %v, want %v", e1, e2, want)
			}
			cm := compatModel(a.t, b.t)
			if (co != nil) != cm && len(a.t.A) > 0 {
				c.Fail(c.CurCase(), "CheckCompatible = %v, want compatible = %v", co, cm)
			}
			if cm {
				x := a.g.AllAttributes()
				if len(co) != len(x) {
					c.Fail(c.CurCase(), "CheckCompatible returned %d attributes of %d", len(co), len(x))
				} else {
					for k := range co {
						if co[k] != x[k] {
							c.Fail(c.CurCase(), "CheckCompatible attribute %d is %s, want %s", k, co[k], x[k])
						}
					}
				}
			}
			if w := strictModel(a.g, b.g); st != w {
				c.Fail(c.CurCase(), "CheckStrictlyCompatible = %v, want %v", st, w)
			}
			c.Trace()
			c.Outcome(fmt.Sprint(want, cm, st))
		}
		c.State(items[i].name)
	}
	c.Sample("A: x/F rows [0,1.5] vs B: x/F rows [0,-2] -> different, compatible")
	c.Sample("A: x/C[p q] row 0 vs B: x/C[q p] row 1 -> equal (same text), not compatible")
	c06large(c)
	c06near(c)
}

// allValues2 fills from a two-value alphabet.
func allValues2(defs []AD, rows int, f func(v [][]string)) {
	alph := make([][]string, len(defs))
	for i, d := range defs {
		alph[i] = d.vals()
		if len(alph[i]) > 2 {
			alph[i] = alph[i][:2]
		}
	}
	radix := []int{}
	for r := 0; r < rows; r++ {
		for i := range defs {
			radix = append(radix, len(alph[i]))
		}
	}
	tuples(radix, func(ix []int) {
		v := make([][]string, rows)
		for r := range v {
			v[r] = make([]string, len(defs))
			for c := range defs {
				v[r][c] = alph[c][ix[r*len(defs)+c]]
			}
		}
		f(v)
	})
}
