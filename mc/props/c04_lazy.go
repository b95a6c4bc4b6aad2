package props

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C04", Run: runC04,
		Rule:   "every schema x class position x row count x subset of filtered attributes x filter (4 harness filters: same-type, one-to-two, narrowing, identity; the library's FloatConvert, BinaryConvert, Binning and ChiMerge filters) x kind of source (stored, column view, row view, row map, a second grid with equal but separate attributes), optionally filtered twice; compared with the table of transformed cells through Get, MapOverRows with every column order, Size, attribute and class lists, RowString; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one filtered attribute",
		Assume: []string{"filtered attributes get names that do not collide with unfiltered ones"}})
}

// hFilter is a harness filter with a known meaning.
type hFilter struct {
	kind  int // 0 same type, 1 one-to-two, 2 to another width, 3 identity
	attrs []base.Attribute
	maps  []base.FilteredAttribute
}

func (f *hFilter) AddAttribute(a base.Attribute) error                   { f.attrs = append(f.attrs, a); return nil }
func (f *hFilter) GetAttributesAfterFiltering() []base.FilteredAttribute { return f.maps }
func (f *hFilter) String() string                                        { return fmt.Sprintf("hFilter%d", f.kind) }
func (f *hFilter) Train() error {
	for _, a := range f.attrs {
		switch f.kind {
		case 0:
			b := equalAttr(a)
			b.SetName(a.GetName() + "'")
			f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: b})
		case 1:
			f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: base.NewFloatAttribute(a.GetName() + "_1")})
			f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: base.NewFloatAttribute(a.GetName() + "_2")})
		case 2:
			if a.GetType() == base.BinaryType {
				f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: base.NewFloatAttribute(a.GetName())})
			} else {
				f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: base.NewBinaryAttribute(a.GetName())})
			}
		case 3:
			f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: a})
		}
	}
	return nil
}

// num reads any stored value as a number.
func num(a base.Attribute, b string) float64 {
	switch a.GetType() {
	case base.Float64Type:
		return base.UnpackBytesToFloat([]byte(b))
	case base.BinaryType:
		return float64(b[0])
	}
	return float64(base.UnpackBytesToU64([]byte(b)))
}

func (f *hFilter) Transform(o, n base.Attribute, b []byte) []byte {
	found := false
	for _, m := range f.maps {
		if m.Old.Equals(o) && m.New.Equals(n) {
			found = true
		}
	}
	if !found {
		panic(fmt.Sprintf("Transform(%s,%s): not a pair of this filter", o, n))
	}
	v := num(o, string(b))
	switch f.kind {
	case 0:
		switch o.GetType() {
		case base.Float64Type:
			return base.PackFloatToBytes(v*2 + 1)
		case base.BinaryType:
			return []byte{1 - b[0]}
		}
		return base.PackU64ToBytes(uint64(2 - int(v)))
	case 1:
		if strings.HasSuffix(n.GetName(), "_1") {
			return base.PackFloatToBytes(v + 0.5)
		}
		return base.PackFloatToBytes(-v - 100)
	case 2:
		if n.GetType() == base.BinaryType {
			return []byte{byte(int(v) % 2)}
		}
		return base.PackFloatToBytes(v - 7)
	}
	return b
}

// c04want applies a filter to a table, cell by cell.
func c04want(t *Tab, f base.Filter) *Tab {
	w := &Tab{}
	type col struct {
		src int
		fa  *base.FilteredAttribute
	}
	cols := []col{}
	maps := f.GetAttributesAfterFiltering()
	for j, a := range t.A {
		hit := false
		for i := range maps {
			if maps[i].Old.Equals(a) {
				cols = append(cols, col{j, &maps[i]})
				w.A = append(w.A, maps[i].New)
				w.Class = append(w.Class, t.Class[j])
				hit = true
			}
		}
		if !hit {
			cols = append(cols, col{j, nil})
			w.A = append(w.A, a)
			w.Class = append(w.Class, t.Class[j])
		}
	}
	for _, r := range t.V {
		row := []string{}
		for _, cl := range cols {
			if cl.fa == nil {
				row = append(row, r[cl.src])
			} else {
				row = append(row, string(f.Transform(cl.fa.Old, cl.fa.New, []byte(r[cl.src]))))
			}
		}
		w.V = append(w.V, row)
	}
	return w
}

func c04check(g *base.LazilyFilteredInstances, want *Tab) error {
	cols, rows := g.Size()
	if cols != len(want.A) || rows != want.rows() {
		return fmt.Errorf("Size() = %d,%d; want %d,%d", cols, rows, len(want.A), want.rows())
	}
	if err := checkView(g, want, true); err != nil {
		return err
	}
	// row iteration over every pair of columns
	n := len(want.A)
	var err error
	asked := func(ix []int) {
		specs := []base.AttributeSpec{}
		for _, j := range ix {
			s, e := g.GetAttribute(want.A[j])
			if e != nil {
				err = e
				return
			}
			if !s.GetAttribute().Equals(want.A[j]) {
				err = fmt.Errorf("GetAttribute(%s) resolved to %s", want.A[j], s.GetAttribute())
				return
			}
			specs = append(specs, s)
		}
		e := g.MapOverRows(specs, func(v [][]byte, r int) (bool, error) {
			for i, j := range ix {
				if string(v[i]) != want.V[r][j] {
					err = fmt.Errorf("MapOverRows(columns %v) row %d cell %d = %x, want %x", ix, r, i, v[i], want.V[r][j])
				}
			}
			return true, nil
		})
		if e != nil {
			err = e
		}
	}
	tuples([]int{n, n}, asked)
	for j := 0; j < n; j++ {
		asked([]int{j})
	}
	asked(seq(n))
	if n > 0 {
		asked([]int{n - 1, 0, n / 2, n - 1, 0})
	}
	return err
}

func c04sources(t *Tab, other *Tab) []base.FixedDataGrid {
	out := []base.FixedDataGrid{}
	for _, k := range []int{0, 1, 3, 4, 5} {
		if g, _, _ := makeKind(k, t); g != nil {
			out = append(out, g)
		}
	}
	out = append(out, buildDense(other, 0)) // equal attributes, separately made
	return out
}

func runC04(c *eng.Ctx) {
	schemas := []string{"F", "C", "FC", "FB", "CFB", "FCF", "BCF"}
	for _, sc := range schemas {
		for class := -1; class < len(sc); class++ {
			for n := 0; n <= 3; n++ {
				for mask := 0; mask < 1<<len(sc); mask++ {
					for fk := 0; fk < 8; fk++ {
						if !c.Mine() {
							continue
						}
						c.Case("schema=%s class=%d rows=%d filtered=%b filter=%d", sc, class, n, mask, fk)
						var err error
						p := eng.Try(func() { err = c04one(c, sc, class, n, mask, fk) })
						if p != nil {
							err = fmt.Errorf("%v at %s", p, p.Stack)
						}
						failErr(c, err)
					}
				}
			}
		}
	}
	c.Sample("schema=FCF class=1 rows=3, columns 0 and 1 filtered one-to-two, source a row view")
	c.Sample("schema=BCF, FloatConvert of the 3-valued column only, source with equal but separate attributes")
	c04large(c)
}

func c04filter(fk int, src base.FixedDataGrid, t *Tab, mask int) (base.Filter, error) {
	var f base.Filter
	switch fk {
	case 0, 1, 2, 3:
		f = &hFilter{kind: fk}
	case 4:
		f = filters.NewFloatConvertFilter()
	case 5:
		f = filters.NewBinaryConvertFilter()
	case 6:
		f = filters.NewBinningFilter(src, 2)
	case 7:
		f = filters.NewChiMergeFilter(src, 0.9)
	}
	for j, a := range t.A {
		if mask>>j&1 == 0 {
			continue
		}
		if err := f.AddAttribute(a); err != nil {
			return nil, err
		}
	}
	return f, f.Train()
}

func c04one(c *eng.Ctx, sc string, class, n, mask, fk int) error {
	t := c02src(sc, n, class)
	if fk >= 6 { // discretisers take numbers only, and rows to learn from
		for j := range sc {
			if mask>>j&1 == 1 && sc[j] != 'F' {
				return nil
			}
		}
		if n == 0 || fk == 7 && (class < 0 || mask>>uint(class)&1 == 1) {
			return nil
		}
	}
	other := &Tab{Class: t.Class, V: t.V}
	for _, a := range t.A {
		other.A = append(other.A, equalAttr(a))
	}
	base0 := buildDense(t, 0)
	for si, src := range c04sources(t, other) {
		f, err := c04filter(fk, base0, t, mask)
		if err != nil {
			return err
		}
		g := base.NewLazilyFilteredInstances(src, f)
		want := c04want(inOrder(t, src), f)
		if fk == 6 || fk == 7 {
			// the attributes are made afresh by every call; values by position
			want = c04renew(want, g)
			if want == nil {
				return fmt.Errorf("source %d: attribute list does not match the filter's", si)
			}
		}
		if err := c04check(g, want); err != nil {
			return fmt.Errorf("source %d: %v", si, err)
		}
		c.Trace()
		c.State(want.String())
		c.Trans(want.rows()*len(want.A) + 1)
		// class attributes by old and by new name
		for j, a := range t.A {
			w2 := &Tab{A: want.A, V: want.V, Class: append([]bool{}, want.Class...)}
			news := []int{}
			for k, b := range want.A {
				if c04from(f, a, b) {
					news = append(news, k)
				}
			}
			if t.Class[j] {
				err = g.RemoveClassAttribute(a)
			} else {
				err = g.AddClassAttribute(a)
			}
			if err != nil {
				return err
			}
			for _, k := range news {
				w2.Class[k] = !t.Class[j]
			}
			if err := sameTab(g, w2); err != nil {
				return fmt.Errorf("source %d: after toggling class attribute %d: %v", si, j, err)
			}
			for _, k := range news {
				if t.Class[j] {
					err = g.AddClassAttribute(want.A[k])
				} else {
					err = g.RemoveClassAttribute(want.A[k])
				}
				if err != nil {
					return err
				}
			}
			// adding or removing one of several new attributes treats that one alone
			// or all of them; only the full round trip is specified
			if err := sameTab(g, want); err != nil {
				return fmt.Errorf("source %d: after toggling class attribute %d back: %v", si, j, err)
			}
		}
		// filtered once more
		if fk < 4 {
			f2 := &hFilter{kind: (fk + 1) % 4}
			for k, a := range want.A {
				if k%2 == 0 {
					f2.AddAttribute(a)
				}
			}
			f2.Train()
			g2 := base.NewLazilyFilteredInstances(g, f2)
			if err := c04check(g2, c04want(want, f2)); err != nil {
				return fmt.Errorf("source %d, filtered twice: %v", si, err)
			}
			c.Trace()
		}
		c.Outcome(fmt.Sprint(fk, si, len(want.A)))
	}
	return nil
}

// inOrder puts the columns of t in the order in which g lists them.
func inOrder(t *Tab, g base.FixedDataGrid) *Tab {
	idx := []int{}
	for _, a := range g.AllAttributes() {
		for j, b := range t.A {
			if a.Equals(b) {
				idx = append(idx, j)
			}
		}
	}
	if len(idx) != len(t.A) {
		panic("columns of the source do not match the model")
	}
	return t.selectRC(seq(t.rows()), idx)
}

// c04from: b is what the filter makes of a.
func c04from(f base.Filter, a, b base.Attribute) bool {
	hit := false
	for _, m := range f.GetAttributesAfterFiltering() {
		if m.Old.Equals(a) {
			hit = true
			if m.New.Equals(b) {
				return true
			}
		}
	}
	return !hit && a.Equals(b)
}

func c04renew(w *Tab, g *base.LazilyFilteredInstances) *Tab {
	all := g.AllAttributes()
	if len(all) != len(w.A) {
		return nil
	}
	for i := range all {
		if !all[i].Equals(w.A[i]) {
			return nil
		}
	}
	return &Tab{A: all, Class: w.Class, V: w.V}
}
