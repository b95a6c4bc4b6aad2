package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"gonum.org/v1/gonum/mat"
)

// idFilter maps its attributes to fresh ones with the same values.
type idFilter struct {
	maps []base.FilteredAttribute
}

func (f *idFilter) AddAttribute(a base.Attribute) error {
	f.maps = append(f.maps, base.FilteredAttribute{Old: a, New: a})
	return nil
}
func (f *idFilter) GetAttributesAfterFiltering() []base.FilteredAttribute { return f.maps }
func (f *idFilter) String() string                                        { return "id" }
func (f *idFilter) Train() error                                          { return nil }
func (f *idFilter) Transform(o, n base.Attribute, b []byte) []byte        { return b }

const numKinds = 11

// kindNames label the grids made by makeKind.
var kindNames = []string{"dense", "dense-own-groups", "dense-reverse-groups", "attr-view", "visible-view", "rowmap-view", "view-of-view", "filtered", "matrix", "filtered-view", "rowmap-of-filtered"}

// makeKind returns a grid of the given kind which shows exactly the table it
// also returns (t itself except for matrices, whose attributes are generated).
// The last result is the stored grid behind it. nil: not applicable.
func makeKind(k int, t *Tab) (base.FixedDataGrid, *Tab, base.FixedDataGrid) {
	n := t.rows()
	switch k {
	case 0, 1, 2:
		if k > 0 && len(t.A) < 2 {
			return nil, nil, nil
		}
		d := buildDense(t, k)
		return d, t, d
	case 3: // a column in front and one behind are hidden
		s := &Tab{}
		x1, x2 := base.NewFloatAttribute("hidden1"), base.NewBinaryAttribute("hidden2")
		s.A = append(append([]base.Attribute{x1}, t.A...), x2)
		s.Class = append(append([]bool{false}, t.Class...), false)
		for _, r := range t.V {
			s.V = append(s.V, append(append([]string{fb(77)}, r...), "\x01"))
		}
		d := buildDense(s, 0)
		return base.NewInstancesViewFromAttrs(d, t.A), t, d
	case 4: // rows reversed with a hidden one in the middle
		if n == 0 {
			return nil, nil, nil
		}
		s := &Tab{A: t.A, Class: t.Class}
		for i := n - 1; i >= 0; i-- {
			s.V = append(s.V, t.V[i])
			if i == n-1 {
				s.V = append(s.V, t.V[0])
			}
		}
		d := buildDense(s, 0)
		rows := []int{}
		for i := 0; i < n-1; i++ {
			rows = append(rows, n-i)
		}
		rows = append(rows, 0)
		return base.NewInstancesViewFromVisible(d, rows, t.A), t, d
	case 5: // rows rotated by a map
		s := &Tab{A: t.A, Class: t.Class}
		m := map[int]int{}
		for i := range t.V {
			s.V = append(s.V, t.V[(i+1)%n])
			m[(i+1)%n] = i
		}
		d := buildDense(s, 0)
		return base.NewInstancesViewFromRows(d, m), t, d
	case 6: // reversed by a map, then columns hidden
		s := &Tab{}
		x1 := base.NewFloatAttribute("hidden1")
		s.A = append([]base.Attribute{x1}, t.A...)
		s.Class = append([]bool{false}, t.Class...)
		m := map[int]int{}
		for i := range t.V {
			s.V = append(s.V, append([]string{fb(55)}, t.V[n-1-i]...))
			m[i] = n - 1 - i
		}
		d := buildDense(s, 1)
		v := base.NewInstancesViewFromRows(d, m)
		return base.NewInstancesViewFromAttrs(v, t.A), t, d
	case 7:
		if len(t.A) < 2 {
			return nil, nil, nil
		}
		d := buildDense(t, 0)
		f := &idFilter{}
		for i := range t.A {
			if i%2 == 0 && !t.Class[i] {
				f.AddAttribute(t.A[i])
			}
		}
		return base.NewLazilyFilteredInstances(d, f), t, d
	case 8:
		if n == 0 || len(t.A) == 0 {
			return nil, nil, nil
		}
		for _, a := range t.A {
			if _, ok := a.(*base.FloatAttribute); !ok {
				return nil, nil, nil
			}
		}
		m := mat.NewDense(n, len(t.A), nil)
		s := &Tab{Class: t.Class, V: t.V}
		for j := range t.A {
			s.A = append(s.A, base.NewFloatAttribute(fmt.Sprint(j)))
			for i := range t.V {
				m.Set(i, j, base.UnpackBytesToFloat([]byte(t.V[i][j])))
			}
		}
		g := base.InstancesFromMat64(n, len(t.A), m)
		for j := range t.A {
			if t.Class[j] {
				g.AddClassAttribute(s.A[j])
			}
		}
		return g, s, g
	case 9: // a filter over a row-selecting view
		v, w, d := makeKind(4, t)
		if v == nil {
			return nil, nil, nil
		}
		f := &idFilter{}
		for i := range t.A {
			if i%2 == 1 && !t.Class[i] {
				f.AddAttribute(t.A[i])
			}
		}
		return base.NewLazilyFilteredInstances(v, f), w, d
	case 10: // reversed rows of a filtered grid
		if len(t.A) < 2 {
			return nil, nil, nil
		}
		s := &Tab{A: t.A, Class: t.Class}
		m := map[int]int{}
		for i := range t.V {
			s.V = append(s.V, t.V[n-1-i])
			m[i] = n - 1 - i
		}
		f, _, d := makeKind(7, s)
		return base.NewInstancesViewFromRows(f, m), t, d
	}
	panic("kind")
}

// unorderedKind: row iteration promises no order.
func unorderedKind(k int) bool { return k == 4 || k == 9 }

// eachKind calls f for every applicable kind of grid.
func eachKind(t *Tab, f func(name string, g base.FixedDataGrid, want *Tab)) {
	for k := 0; k < numKinds; k++ {
		if g, w, _ := makeKind(k, t); g != nil {
			f(kindNames[k], g, w)
		}
	}
}
