package props

import (
	"bytes"
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C07", Run: runC07,
		Rule:   "for every filling of 0..n rows of several schemas from alphabets of negative, tiny, nearly equal, infinite and fractional numbers, categories and bits, every ordered list of sort columns and both directions: Sort on stored grids of three layouts and LazySort on every kind of grid; the result must be ordered, hold the same whole rows (every row carries its own number), and LazySort must leave its source alone; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: two rows that differ in a sort column",
		Assume: []string{"NaN is outside the domain", "Sort is documented for stored grids only; LazySort takes any grid"}})
}

// cmpVal compares two stored values in sort order.
func cmpVal(a base.Attribute, x, y string) int {
	if _, ok := a.(*base.FloatAttribute); ok {
		f, g := num(a, x), num(a, y)
		switch {
		case f < g:
			return -1
		case f > g:
			return 1
		}
		return 0
	}
	if _, ok := a.(*base.CategoricalAttribute); ok {
		f, g := base.UnpackBytesToU64([]byte(x)), base.UnpackBytesToU64([]byte(y))
		switch {
		case f < g:
			return -1
		case f > g:
			return 1
		}
		return 0
	}
	return bytes.Compare([]byte(x), []byte(y))
}

// sortedBy tells whether the grid's rows are ordered by the columns of t.
func sortedBy(g base.FixedDataGrid, t *Tab, cols []int, desc bool) error {
	got, err := readAs(g, t)
	if err != nil {
		return err
	}
	if a, b := got.multiset(), t.multiset(); !same(a, b) {
		return fmt.Errorf("rows are %v, want %v", a, b)
	}
	for i := 1; i < len(got.V); i++ {
		for _, col := range cols {
			k := cmpVal(t.A[col], got.V[i-1][col], got.V[i][col])
			if desc {
				k = -k
			}
			if k > 0 {
				return fmt.Errorf("row %d (%s) before row %d (%s)", i-1, got.row(i-1), i, got.row(i))
			}
			if k < 0 {
				break
			}
		}
	}
	return nil
}

// sortLists returns every ordered list of distinct columns out of the first m.
func sortLists(m, maxLen int) [][]int {
	r := [][]int{{}}
	for l := 1; l <= maxLen; l++ {
		tuples(power(m, l), func(ix []int) {
			for i := range ix {
				for j := range ix[:i] {
					if ix[i] == ix[j] {
						return
					}
				}
			}
			r = append(r, append([]int{}, ix...))
		})
	}
	return r
}

func runC07(c *eng.Ctx) {
	inf := math.Inf(1)
	full := []float64{math.Inf(-1), -300.5, -2, -1e-300, math.Copysign(0, -1), 0, 5e-324, 0.1, math.Nextafter(0.1, 1), 1.5, 256, 65536.25, inf}
	mid := []float64{-2, -1, 0.1, math.Nextafter(0.1, 1), 300}
	few := []float64{-1, 0, 2}
	type sc struct {
		kinds string
		alpha []float64
		n     int
		all   bool // every kind of grid
	}
	scs := []sc{{"F", full, c.Pick(3, 4), true}, {"F", mid, c.Pick(5, 6), false}, {"FF", mid, 2, true}, {"FF", few, c.Pick(3, 4), false}, {"FC", few, 3, true},
		{"CF", few, c.Pick(2, 3), true}, {"CC", nil, 3, true}, {"B", nil, 5, true}, {"BF", few, 3, true}, {"FB", few, 3, true}, {"BBF", few, 2, false}, {"FCB", few, c.Pick(2, 3), false}, {"FFF", few, 2, true}}
	cats := []string{"z", "a", "m"} // index order differs from text order
	for _, s := range scs {
		m := len(s.kinds)
		defs := []AD{}
		alph := [][]string{}
		for j := 0; j < m; j++ {
			d := AD{s.kinds[j], fmt.Sprintf("%c%d", s.kinds[j], j), nil}
			vals := []string{}
			switch d.Kind {
			case 'F':
				for _, f := range s.alpha {
					vals = append(vals, fb(f))
				}
			case 'C':
				d.Cats = cats
				vals = d.vals()
			case 'B':
				vals = d.vals()
			}
			defs = append(defs, d)
			alph = append(alph, vals)
		}
		defs = append(defs, AD{'F', "rowid", nil})
		lists := sortLists(m, m)
		for n := 0; n <= s.n; n++ {
			radix := []int{}
			for i := 0; i < n; i++ {
				for j := 0; j < m; j++ {
					radix = append(radix, len(alph[j]))
				}
			}
			tuples(radix, func(ix []int) {
				if !c.Mine() {
					return
				}
				v := make([][]string, n)
				for i := range v {
					for j := 0; j < m; j++ {
						v[i] = append(v[i], alph[j][ix[i*m+j]])
					}
					v[i] = append(v[i], fb(float64(i)+0.5))
				}
				t := mkTab(defs, m-1, v)
				c.State(t.String())
				for _, cols := range lists {
					for _, desc := range []bool{false, true} {
						dir := base.Ascending
						if desc {
							dir = base.Descending
						}
						for k := 0; k < numKinds; k++ {
							if k > 0 && !s.all && k != 1 && k != 5 {
								continue
							}
							if k == 8 && s.kinds != "F" {
								continue
							}
							for lazy := 0; lazy < 2; lazy++ {
								if lazy == 0 && k > 2 {
									continue
								}
								g, w, store := makeKind(k, t)
								if g == nil {
									continue
								}
								c.Case("%s of %s values=%v columns=%v desc=%v lazy=%d", kindNames[k], s.kinds, ix, cols, desc, lazy)
								as := []base.Attribute{}
								for _, col := range cols {
									as = append(as, w.A[col])
								}
								err := func() (err error) {
									p := eng.Try(func() {
										specs := base.ResolveAttributes(g, as)
										var out base.FixedDataGrid
										if lazy == 0 {
											out, err = base.Sort(g, dir, specs)
											if err == nil {
												err = sortedBy(g, w, cols, desc)
											}
										} else {
											before := ""
											if store != nil {
												b, _ := readGrid(store)
												before = b.String()
											}
											out, err = base.LazySort(g, dir, specs)
											if err == nil {
												a, _ := readGrid(store)
												if a.String() != before {
													err = fmt.Errorf("LazySort changed its source")
												}
											}
										}
										if err == nil {
											err = sortedBy(out, w, cols, desc)
										}
										if err == nil {
											err = readBoth(out)
										}
									})
									if p != nil {
										err = fmt.Errorf("%v at %s", p, p.Stack)
									}
									return
								}()
								c.Trans(1)
								if !failErr(c, err) {
									c.Trace()
								}
							}
						}
					}
				}
			})
		}
	}
	// long columns: every byte of the keys matters in one go
	for _, n := range []int{17, 64, 300} {
		for variant := 0; variant < c.Pick(6, 24); variant++ {
			if !c.Mine() {
				continue
			}
			t := mkTab([]AD{{'F', "x", nil}, {'C', "c", cats}, {'F', "rowid", nil}}, 1, nil)
			for i := 0; i < n; i++ {
				f := math.Float64frombits(uint64(i*(variant+1)*2654435761) << uint(variant%5*8))
				if math.IsNaN(f) {
					f = float64(i) - 7
				}
				t.V = append(t.V, []string{fb(f), ub(uint64((i * 7) % 3)), fb(float64(i))})
			}
			c.Case("long n=%d variant=%d", n, variant)
			for _, cols := range [][]int{{0}, {1, 0}, {0, 1}} {
				for _, desc := range []bool{false, true} {
					dir := base.Ascending
					if desc {
						dir = base.Descending
					}
					d := buildDense(t, 0)
					as := []base.Attribute{}
					for _, col := range cols {
						as = append(as, t.A[col])
					}
					l, err := base.LazySort(d, dir, base.ResolveAttributes(d, as))
					if err == nil {
						err = sortedBy(l, t, cols, desc)
					}
					if failErr(c, err) {
						continue
					}
					o, err := base.Sort(d, dir, base.ResolveAttributes(d, as))
					if err == nil {
						err = sortedBy(o, t, cols, desc)
					}
					if !failErr(c, err) {
						c.Trace()
					}
				}
			}
		}
	}
	c.Sample("F values [-2 300 0.1] sorted ascending on every kind of grid")
	c.Sample("CF, columns [1 0], descending, lazy, on a filtered view")
	c07large(c)
	c07deep(c)
}

// readBoth compares cell reads with row iteration.
func readBoth(g base.FixedDataGrid) error {
	a, err := readGrid(g)
	if err != nil {
		return err
	}
	b, err := readByMap(g)
	if err != nil {
		return err
	}
	if a.String() != b.String() {
		return fmt.Errorf("cell reads give\n%s\nrow iteration gives\n%s", a, b)
	}
	return nil
}
