// Package props holds one exploration per property.
package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

// AD defines one attribute of a small grid.
type AD struct {
	Kind byte // F, C or B
	Name string
	Cats []string
}

func (d AD) make() base.Attribute {
	switch d.Kind {
	case 'F':
		return base.NewFloatAttribute(d.Name)
	case 'B':
		return base.NewBinaryAttribute(d.Name)
	case 'C':
		c := base.NewCategoricalAttribute()
		c.SetName(d.Name)
		for _, s := range d.Cats {
			c.GetSysValFromString(s)
		}
		return c
	}
	panic("kind")
}

func fb(f float64) string { return string(base.PackFloatToBytes(f)) }
func ub(u uint64) string  { return string(base.PackU64ToBytes(u)) }

// Alphabets of stored values per attribute kind.
var floatAlpha = []float64{0, 1.5, -2, 3}

func (d AD) vals() []string {
	switch d.Kind {
	case 'F':
		r := []string{}
		for _, f := range floatAlpha {
			r = append(r, fb(f))
		}
		return r
	case 'B':
		return []string{"\x00", "\x01"}
	}
	r := []string{}
	for i := range d.Cats {
		r = append(r, ub(uint64(i)))
	}
	return r
}

// Tab is the reference model of a grid: named columns, rows of stored values.
type Tab struct {
	A     []base.Attribute
	Class []bool
	V     [][]string // [row][col]
}

func (t *Tab) rows() int { return len(t.V) }

// row renders one row independently of column order.
func (t *Tab) row(i int) string {
	p := make([]string, len(t.A))
	for j, a := range t.A {
		p[j] = fmt.Sprintf("%s/%d=%x", a.GetName(), a.GetType(), t.V[i][j])
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func (t *Tab) schema() string {
	p := make([]string, len(t.A))
	for j, a := range t.A {
		p[j] = attrKey(a)
		if t.Class[j] {
			p[j] = "*" + p[j]
		}
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func attrKey(a base.Attribute) string {
	if a == nil {
		return "<nil>"
	}
	s := fmt.Sprintf("%s/%d", a.GetName(), a.GetType())
	if c, ok := a.(*base.CategoricalAttribute); ok {
		s += fmt.Sprintf("%q", c.GetValues())
	}
	return s
}

// String renders the table, column order independent, row order dependent.
func (t *Tab) String() string {
	var b strings.Builder
	b.WriteString(t.schema())
	for i := range t.V {
		b.WriteString("\n" + t.row(i))
	}
	return b.String()
}

func (t *Tab) multiset() []string {
	r := make([]string, len(t.V))
	for i := range t.V {
		r[i] = t.row(i)
	}
	sort.Strings(r)
	return r
}

func (t *Tab) clone() *Tab {
	n := &Tab{append([]base.Attribute{}, t.A...), append([]bool{}, t.Class...), nil}
	for _, r := range t.V {
		n.V = append(n.V, append([]string{}, r...))
	}
	return n
}

// selectRC is the model of a view.
func (t *Tab) selectRC(rows []int, cols []int) *Tab {
	n := &Tab{}
	for _, c := range cols {
		n.A = append(n.A, t.A[c])
		n.Class = append(n.Class, t.Class[c])
	}
	for _, r := range rows {
		row := []string{}
		for _, c := range cols {
			row = append(row, t.V[r][c])
		}
		n.V = append(n.V, row)
	}
	return n
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// buildDense stores the table in a fresh grid. layout 0: default groups,
// 1: one named group per attribute, 2: named groups in reverse order.
func buildDense(t *Tab, layout int) *base.DenseInstances {
	d := base.NewDenseInstances()
	specs := make([]base.AttributeSpec, len(t.A))
	switch layout {
	case 0:
		for i, a := range t.A {
			specs[i] = d.AddAttribute(a)
		}
	default:
		for k := range t.A {
			i := k
			if layout == 2 {
				i = len(t.A) - 1 - k
			}
			size := 8
			if t.A[i].GetType() == base.BinaryType {
				size = 0
			}
			g := fmt.Sprintf("g%d", i)
			if err := d.CreateAttributeGroup(g, size); err != nil {
				panic(err)
			}
			s, err := d.AddAttributeToAttributeGroup(t.A[i], g)
			if err != nil {
				panic(err)
			}
			specs[i] = s
		}
	}
	for i, a := range t.A {
		if t.Class[i] {
			if err := d.AddClassAttribute(a); err != nil {
				panic(err)
			}
		}
	}
	d.Extend(len(t.V))
	for r := range t.V {
		for c := range t.A {
			d.Set(specs[c], r, []byte(t.V[r][c]))
		}
	}
	return d
}

// mkTab builds a model table. class<0: no class.
func mkTab(defs []AD, class int, v [][]string) *Tab {
	t := &Tab{V: v}
	for i, d := range defs {
		t.A = append(t.A, d.make())
		t.Class = append(t.Class, i == class)
	}
	return t
}

// readGrid reads a grid cell by cell.
func readGrid(g base.FixedDataGrid) (*Tab, error) {
	t := &Tab{}
	cols, rows := g.Size()
	t.A = g.AllAttributes()
	if len(t.A) != cols {
		return nil, fmt.Errorf("Size says %d columns, AllAttributes has %d", cols, len(t.A))
	}
	cls := g.AllClassAttributes()
	specs := make([]base.AttributeSpec, len(t.A))
	t.Class = make([]bool, len(t.A))
	nc := 0
	for i, a := range t.A {
		s, err := g.GetAttribute(a)
		if err != nil {
			return nil, err
		}
		specs[i] = s
		for _, c := range cls {
			if c.Equals(a) {
				t.Class[i] = true
			}
		}
		if t.Class[i] {
			nc++
		}
	}
	if nc != len(cls) {
		return nil, fmt.Errorf("%d class attributes, %d of them columns", len(cls), nc)
	}
	for r := 0; r < rows; r++ {
		row := make([]string, len(specs))
		for c := range specs {
			row[c] = string(g.Get(specs[c], r))
		}
		t.V = append(t.V, row)
	}
	return t, nil
}

// readByMap reads a grid by iterating over its rows.
func readByMap(g base.FixedDataGrid) (*Tab, error) {
	t := &Tab{}
	_, rows := g.Size()
	t.A = g.AllAttributes()
	t.Class = make([]bool, len(t.A))
	for i, a := range t.A {
		for _, c := range g.AllClassAttributes() {
			if c.Equals(a) {
				t.Class[i] = true
			}
		}
	}
	specs := base.ResolveAttributes(g, t.A)
	t.V = make([][]string, rows)
	var bad error
	err := g.MapOverRows(specs, func(v [][]byte, r int) (bool, error) {
		if r < 0 || r >= rows {
			bad = fmt.Errorf("row number %d of %d", r, rows)
			return false, nil
		}
		if t.V[r] != nil {
			bad = fmt.Errorf("row %d visited twice", r)
			return false, nil
		}
		if len(v) != len(specs) {
			bad = fmt.Errorf("row %d: %d cells for %d attributes", r, len(v), len(specs))
			return false, nil
		}
		t.V[r] = make([]string, len(v))
		for i := range v {
			t.V[r][i] = string(v[i])
		}
		return true, nil
	})
	if err != nil {
		return nil, err
	}
	if bad != nil {
		return nil, bad
	}
	for r := range t.V {
		if t.V[r] == nil {
			return nil, fmt.Errorf("row %d never visited", r)
		}
	}
	return t, nil
}

// sameTab compares a grid with its model through both access paths.
func sameTab(g base.FixedDataGrid, want *Tab) (err error) {
	p := eng.Try(func() {
		var got *Tab
		got, err = readGrid(g)
		if err == nil && got.String() != want.String() {
			err = fmt.Errorf("cell reads give\n%s\nwant\n%s", got, want)
		}
		if err != nil {
			return
		}
		got, err = readByMap(g)
		if err == nil && got.String() != want.String() {
			err = fmt.Errorf("row iteration gives\n%s\nwant\n%s", got, want)
		}
	})
	if p != nil {
		return fmt.Errorf("%v at %s", p, p.Stack)
	}
	return err
}

// tuples calls f with every tuple over radices.
func tuples(radix []int, f func(ix []int)) {
	ix := make([]int, len(radix))
	for _, r := range radix {
		if r == 0 {
			return
		}
	}
	for {
		f(ix)
		i := len(ix) - 1
		for ; i >= 0; i-- {
			ix[i]++
			if ix[i] < radix[i] {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func power(n, k int) []int {
	r := make([]int, k)
	for i := range r {
		r[i] = n
	}
	return r
}

func perms(n int, f func(p []int)) {
	p := seq(n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// allValues enumerates every filling of rows x defs from the attributes' alphabets.
func allValues(defs []AD, rows int, f func(v [][]string)) {
	alph := make([][]string, len(defs))
	radix := []int{}
	for i, d := range defs {
		alph[i] = d.vals()
	}
	for r := 0; r < rows; r++ {
		for i := range defs {
			radix = append(radix, len(alph[i]))
		}
	}
	tuples(radix, func(ix []int) {
		v := make([][]string, rows)
		for r := range v {
			v[r] = make([]string, len(defs))
			for c := range defs {
				v[r][c] = alph[c][ix[r*len(defs)+c]]
			}
		}
		f(v)
	})
}

func feq(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func defsString(defs []AD) string {
	s := ""
	for _, d := range defs {
		s += string(d.Kind)
		if d.Kind == 'C' {
			s += fmt.Sprint(len(d.Cats))
		}
	}
	return s
}

func failErr(c *eng.Ctx, err error) bool {
	if err != nil {
		c.Fail(c.CurCase(), "%v", err)
		return true
	}
	return false
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// readAs reads the grid cell by cell in the column order of t.
func readAs(g base.FixedDataGrid, t *Tab) (*Tab, error) {
	r := &Tab{A: t.A, Class: t.Class}
	cols, rows := g.Size()
	if cols != len(t.A) {
		return nil, fmt.Errorf("%d columns, want %d", cols, len(t.A))
	}
	specs := make([]base.AttributeSpec, cols)
	for j, a := range t.A {
		s, err := g.GetAttribute(a)
		if err != nil {
			return nil, err
		}
		specs[j] = s
	}
	for i := 0; i < rows; i++ {
		row := make([]string, cols)
		for j := range specs {
			row[j] = string(g.Get(specs[j], i))
		}
		r.V = append(r.V, row)
	}
	return r, nil
}

// try runs f and turns a panic into an error.
func try(f func() error) (err error) {
	p := eng.Try(func() { err = f() })
	if p != nil {
		err = fmt.Errorf("%v at %s", p, p.Stack)
	}
	return
}

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

func sortFloats(v []float64) { sort.Float64s(v) }

// reverseCols is the same table with its columns in the opposite order.
func reverseCols(t *Tab) *Tab {
	cols := []int{}
	for j := len(t.A) - 1; j >= 0; j-- {
		cols = append(cols, j)
	}
	return t.selectRC(seq(t.rows()), cols)
}
