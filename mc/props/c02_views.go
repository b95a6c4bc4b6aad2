package props

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C02", Run: runC02,
		Rule:   "every source table of the family x every selection of rows (all sequences with repetition up to the length bound; all row maps) x every ordered column selection, alone and stacked on a second view, is built on the real code and compared with the selected table through Get, MapOverRows, GetClass and RowString; then every single-cell write to the source and every class-attribute change is repeated; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: selections that are not the identity",
		Assume: []string{"row maps use keys within the resulting size (others have no documented meaning)", "sources of up to 3 rows and 3 columns with pairwise distinct cells"}})
}

// c02src: distinct cells everywhere, so that any mix-up shows.
func c02src(defs string, rows int, class int) *Tab {
	t := &Tab{}
	for j := range defs {
		d := AD{defs[j], fmt.Sprintf("a%d", j), []string{"p", "q", "r"}}
		t.A = append(t.A, d.make())
		t.Class = append(t.Class, j == class)
	}
	for i := 0; i < rows; i++ {
		r := []string{}
		for j := range defs {
			switch defs[j] {
			case 'F':
				r = append(r, fb(float64(10*i+j+1)))
			case 'C':
				r = append(r, ub(uint64((i+j)%3)))
			case 'B':
				r = append(r, string([]byte{byte((i + j) % 2)}))
			}
		}
		t.V = append(t.V, r)
	}
	return t
}

type rowSel struct {
	kind string // all, vis, map
	vis  []int
	m    map[int]int
}

func (s rowSel) String() string {
	switch s.kind {
	case "vis":
		return fmt.Sprint("vis", s.vis)
	case "map":
		return fmt.Sprint("map", s.m)
	}
	return "all"
}

// resolve gives the source row of every row.
func (s rowSel) resolve(n int) []int {
	switch s.kind {
	case "vis":
		return s.vis
	case "map":
		size := n
		if len(s.m) > size {
			size = len(s.m)
		}
		r := make([]int, size)
		for i := range r {
			r[i] = i
			if v, ok := s.m[i]; ok {
				r[i] = v
			}
		}
		return r
	}
	return seq(n)
}

func rowSels(n, maxLen int) []rowSel {
	out := []rowSel{{kind: "all"}}
	for l := 0; l <= maxLen; l++ {
		if n == 0 && l > 0 {
			break
		}
		tuples(power(n, l), func(ix []int) {
			out = append(out, rowSel{kind: "vis", vis: append([]int{}, ix...)})
		})
	}
	// maps: every key in 0..n-1 absent or mapped; plus total maps of n+1 keys
	tuples(power(n+1, n), func(ix []int) {
		m := map[int]int{}
		for i, v := range ix {
			if v < n {
				m[i] = v
			}
		}
		out = append(out, rowSel{kind: "map", m: m})
	})
	tuples(power(n, n+1), func(ix []int) {
		m := map[int]int{}
		for i, v := range ix {
			m[i] = v
		}
		out = append(out, rowSel{kind: "map", m: m})
	})
	return out
}

func colSels(n int) [][]int {
	out := [][]int{nil} // nil: all columns of the source
	for mask := 1; mask < 1<<n; mask++ {
		idx := []int{}
		for j := 0; j < n; j++ {
			if mask>>j&1 == 1 {
				idx = append(idx, j)
			}
		}
		perms(len(idx), func(p []int) {
			s := make([]int, len(p))
			for i := range p {
				s[i] = idx[p[i]]
			}
			out = append(out, s)
		})
	}
	return out
}

// view applies the selections to grid and model. hidden reports whether
// the view has the rows in unspecified iteration order.
func applySel(g base.FixedDataGrid, t *Tab, rs rowSel, cs []int) (base.FixedDataGrid, *Tab) {
	cols := cs
	if cols == nil {
		cols = seq(len(t.A))
	}
	want := t.selectRC(rs.resolve(t.rows()), cols)
	attrs := []base.Attribute{}
	for _, j := range cols {
		attrs = append(attrs, t.A[j])
	}
	switch {
	case rs.kind == "vis":
		return base.NewInstancesViewFromVisible(g, rs.vis, attrs), want
	case rs.kind == "map" && cs == nil:
		return base.NewInstancesViewFromRows(g, rs.m), want
	case rs.kind == "map":
		return base.NewInstancesViewFromAttrs(base.NewInstancesViewFromRows(g, rs.m), attrs), want
	case cs == nil:
		return base.NewInstancesViewFromRows(g, nil), want
	}
	return base.NewInstancesViewFromAttrs(g, attrs), want
}

func checkView(v base.FixedDataGrid, want *Tab, ordered bool) error {
	if err := sameTab(v, want); err != nil {
		return err
	}
	all := v.AllAttributes()
	if ordered {
		for i, a := range all {
			if !a.Equals(want.A[i]) {
				return fmt.Errorf("attribute %d is %s, want %s", i, a, want.A[i])
			}
		}
	}
	// text and class lookups
	cls := []int{}
	for j, b := range want.Class {
		if b {
			cls = append(cls, j)
		}
	}
	for i := range want.V {
		parts := []string{}
		for _, a := range all {
			for j, b := range want.A {
				if a.Equals(b) {
					parts = append(parts, a.GetStringFromSysVal([]byte(want.V[i][j])))
				}
			}
		}
		if s := v.RowString(i); s != strings.Join(parts, " ") {
			return fmt.Errorf("RowString(%d) = %q, want %q", i, s, strings.Join(parts, " "))
		}
		if len(cls) == 1 {
			w := want.A[cls[0]].GetStringFromSysVal([]byte(want.V[i][cls[0]]))
			if s := base.GetClass(v, i); s != w {
				return fmt.Errorf("GetClass(%d) = %q, want %q", i, s, w)
			}
		}
	}
	for _, a := range want.A {
		if b := base.GetAttributeByName(v, a.GetName()); b == nil || !b.Equals(a) {
			return fmt.Errorf("GetAttributeByName(%s) = %v", a.GetName(), b)
		}
	}
	return nil
}

func runC02(c *eng.Ctx) {
	maxRows := 3
	schemas := []struct {
		defs  string
		class int
	}{{"F", -1}, {"FC", 1}, {"CF", 0}, {"FCB", 1}, {"BCF", 0}, {"FFC", 2}}
	for _, sc := range schemas {
		for n := 0; n <= maxRows; n++ {
			src := c02src(sc.defs, n, sc.class)
			sels := rowSels(n, c.Pick(3, 4))
			for _, cs := range colSels(len(sc.defs)) {
				for _, rs := range sels {
					if !c.Mine() {
						continue
					}
					c.Case("src=%s class=%d rows=%d sel=%v cols=%v", sc.defs, sc.class, n, rs, cs)
					c.State(c.CurCase())
					for layout := 0; layout < 2; layout++ {
						d := buildDense(src, layout)
						v, want := applySel(d, src, rs, cs)
						err := func() (err error) {
							p := eng.Try(func() { err = checkView(v, want, cs != nil || rs.kind == "vis") })
							if p != nil {
								err = fmt.Errorf("%v at %s", p, p.Stack)
							}
							return
						}()
						if failErr(c, err) {
							continue
						}
						c.Trace()
						c.Trans(1 + len(want.V)*len(want.A))
						if failErr(c, c02mutate(d, src, v, rs, cs)) {
							continue
						}
						c.Trans(len(src.V)*len(src.A) + len(src.A))
					}
					c.Outcome(fmt.Sprint(rs.kind, len(rs.vis), len(rs.m), cs))
				}
			}
		}
	}
	// views on views
	n := 2
	for _, sc := range schemas[1:] {
		src := c02src(sc.defs, n, sc.class)
		outer := rowSels(n, c.Pick(2, 3))
		cols := colSels(len(sc.defs))
		for _, cs := range cols {
			for _, rs := range outer {
				if !c.Mine() {
					continue
				}
				for layout := 0; layout < 2; layout++ {
					d := buildDense(src, layout)
					v, mid := applySel(d, src, rs, cs)
					for _, cs2 := range colSels(len(mid.A)) {
						for _, rs2 := range rowSels(mid.rows(), 2) {
							if mid.rows() > 2 && (rs2.kind == "map" && len(rs2.m) > mid.rows()) {
								continue
							}
							c.Case("stack src=%s rows=%d sel=%v cols=%v then sel=%v cols=%v layout=%d", sc.defs, n, rs, cs, rs2, cs2, layout)
							v2, want := applySel(v, mid, rs2, cs2)
							err := func() (err error) {
								p := eng.Try(func() { err = checkView(v2, want, cs2 != nil || rs2.kind == "vis") })
								if p != nil {
									err = fmt.Errorf("%v at %s", p, p.Stack)
								}
								return
							}()
							if !failErr(c, err) {
								c.Trace()
								c.Trans(1 + len(want.V)*len(want.A))
								c.State(c.CurCase())
							}
						}
					}
				}
			}
		}
	}
	c.Sample("source FCB with 3 rows, visible rows [2 0 2], columns [2 0]")
	c.Sample("source CF with 2 rows, row map {0:1 1:0 2:1}, all columns")
	c.Sample("view of a view: row map {1:0} then visible rows [1 1], columns [1 0]")
	c02large(c)
	c02deep(c)
	c02gaps(c)
	c02twins(c)
}

// c02mutate: writes to the source appear, class changes stay in the view.
func c02mutate(d *base.DenseInstances, src *Tab, v base.FixedDataGrid, rs rowSel, cs []int) (err error) {
	cols := cs
	if cols == nil {
		cols = seq(len(src.A))
	}
	p := eng.Try(func() {
		cur := src.clone()
		for i := range src.V {
			for j, a := range src.A {
				s, e := d.GetAttribute(a)
				if e != nil {
					err = e
					return
				}
				nv := ""
				switch a.GetType() {
				case base.Float64Type:
					nv = fb(1000 + float64(10*i+j))
				case base.BinaryType:
					nv = string([]byte{1 - cur.V[i][j][0]})
				default:
					nv = ub((base.UnpackBytesToU64([]byte(cur.V[i][j])) + 1) % 3)
				}
				d.Set(s, i, []byte(nv))
				cur.V[i][j] = nv
				if e := sameTab(v, cur.selectRC(rs.resolve(src.rows()), cols)); e != nil {
					err = fmt.Errorf("after writing row %d column %d of the source: %v", i, j, e)
					return
				}
			}
		}
		// class changes
		want := cur.selectRC(rs.resolve(src.rows()), cols)
		for k, j := range cols {
			flip := src.A[j]
			// an equal attribute made separately must do as well
			cp := equalAttr(flip)
			if want.Class[k] {
				err = v.RemoveClassAttribute(cp)
			} else {
				err = v.AddClassAttribute(cp)
			}
			if err != nil {
				return
			}
			want.Class[k] = !want.Class[k]
			if err = sameTab(v, want); err != nil {
				err = fmt.Errorf("after changing class attribute %d: %v", j, err)
				return
			}
			if e := sameTab(d, cur); e != nil {
				err = fmt.Errorf("class change in the view changed the source: %v", e)
				return
			}
		}
		// hidden attributes cannot be made class attributes
		for j := range src.A {
			shown := false
			for _, k := range cols {
				shown = shown || k == j
			}
			if !shown {
				if v.AddClassAttribute(src.A[j]) == nil {
					err = fmt.Errorf("hidden attribute %d accepted as class", j)
				}
				if _, e := v.GetAttribute(src.A[j]); e == nil {
					err = fmt.Errorf("hidden attribute %d resolved", j)
				}
			}
		}
	})
	if p != nil {
		return fmt.Errorf("%v at %s", p, p.Stack)
	}
	return err
}

// equalAttr makes a separate attribute equal to a.
func equalAttr(a base.Attribute) base.Attribute {
	switch b := a.(type) {
	case *base.FloatAttribute:
		n := base.NewFloatAttribute(b.GetName())
		n.Precision = b.Precision
		return n
	case *base.BinaryAttribute:
		return base.NewBinaryAttribute(b.GetName())
	case *base.CategoricalAttribute:
		n := base.NewCategoricalAttribute()
		n.SetName(b.GetName())
		for _, s := range b.GetValues() {
			n.GetSysValFromString(s)
		}
		return n
	}
	panic("attribute kind")
}
