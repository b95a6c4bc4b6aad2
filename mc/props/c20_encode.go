package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C20", Run: runC20,
		Rule:   "numeric and binary conversion of every list of up to three columns (numeric, binary, categorical with one to four values), every subset of them given to the filter, every class column (converted or not), rows covering all values, every kind of grid and an equal grid the filter wasn't made for: encodings cell by cell, read singly and by iteration; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: a column of three or more categories is converted",
		Assume: []string{"no other column has the name of a generated one"}})
}

func runC20(c *eng.Ctx) {
	nums := []float64{0, 1, -1, 0.25, -3.5, math.Copysign(0, -1), 1e-300, math.Inf(-1)}
	cat := []string{"p", "q", "r", "s"}
	kinds := 6 // F, B, C1..C4
	mkDef := func(k, j int) AD {
		n := fmt.Sprintf("a%d", 9-j)
		switch k {
		case 0:
			return AD{'F', n, nil}
		case 1:
			return AD{'B', n, nil}
		}
		return AD{'C', n, cat[:k-1]}
	}
	for cols := 1; cols <= 3; cols++ {
		tuples(power(kinds, cols), func(kx []int) {
			defs := []AD{}
			for j, k := range kx {
				defs = append(defs, mkDef(k, j))
			}
			for cls := -1; cls < cols; cls++ {
				if !c.Mine() {
					continue
				}
				t := mkTab(defs, cls, nil)
				for i := 0; i < 8; i++ {
					row := []string{}
					for j, k := range kx {
						switch {
						case k == 0:
							row = append(row, fb(nums[(i+3*j)%len(nums)]))
						case k == 1:
							row = append(row, string([]byte{byte((i >> uint(j)) & 1)}))
						default:
							row = append(row, ub(uint64((i+j)%(k-1))))
						}
					}
					t.V = append(t.V, row)
				}
				c.State(t.String())
				for mask := 1; mask < 1<<uint(cols); mask++ {
					for fk := 0; fk < 2; fk++ {
						for kind := 0; kind < numKinds; kind++ {
							if cols == 3 && !c.Thorough() && (kind+mask+cls)%4 != 0 {
								continue
							}
							g, w, _ := makeKind(kind, t)
							if g == nil {
								continue
							}
							c.Case("%v class=%d filtered=%b binary=%d %s", defsString(defs), cls, mask, fk, kindNames[kind])
							failErr(c, try(func() error {
								var f base.Filter = filters.NewFloatConvertFilter()
								if fk == 1 {
									f = filters.NewBinaryConvertFilter()
								}
								for j := range w.A {
									if mask>>uint(j)&1 == 1 {
										if err := f.AddAttribute(w.A[j]); err != nil {
											return err
										}
									}
								}
								if err := f.Train(); err != nil {
									return err
								}
								news := map[int][]base.Attribute{}
								for _, fa := range f.GetAttributesAfterFiltering() {
									found := false
									for j := range w.A {
										if w.A[j].Equals(fa.Old) && mask>>uint(j)&1 == 1 {
											news[j] = append(news[j], fa.New)
											found = true
										}
									}
									if !found {
										return fmt.Errorf("the filter converts %v, which it wasn't given", fa.Old)
									}
								}
								grids := []base.FixedDataGrid{g}
								if kind == 0 {
									e := mkTab(defs, cls, t.V)
									grids = append(grids, buildDense(e, 1))
								}
								for _, src := range grids {
									lg := base.NewLazilyFilteredInstances(src, f)
									if err := c20check(c, lg, w, kx, mask, fk, news); err != nil {
										return err
									}
									if err := sameTab(src, w); err != nil {
										return fmt.Errorf("the source changed: %v", err)
									}
								}
								return nil
							}))
						}
					}
				}
			}
		})
	}
	c.Sample("column of three categories p,q,r: rows p,q,r become (1,0,0) (0,1,0) (0,0,1)")
	c20large(c)
}

func c20check(c *eng.Ctx, lg base.FixedDataGrid, w *Tab, kx []int, mask, fk int, news map[int][]base.Attribute) error {
	n := len(w.V)
	if _, r := lg.Size(); r != n {
		return fmt.Errorf("%d rows of %d", r, n)
	}
	total := 0
	read := func(a base.Attribute) ([]float64, error) {
		var want base.Attribute = base.NewFloatAttribute("")
		if fk == 1 {
			want = base.NewBinaryAttribute("")
		}
		if a.GetType() != want.GetType() {
			return nil, fmt.Errorf("column %v is not of the requested type", a)
		}
		sp, err := lg.GetAttribute(a)
		if err != nil {
			return nil, err
		}
		val := func(b []byte) float64 {
			if fk == 1 {
				return float64(b[0])
			}
			return base.UnpackBytesToFloat(b)
		}
		r := []float64{}
		for i := 0; i < n; i++ {
			r = append(r, val(lg.Get(sp, i)))
		}
		err = lg.MapOverRows([]base.AttributeSpec{sp}, func(b [][]byte, i int) (bool, error) {
			if !bitsEq(val(b[0]), r[i]) {
				return false, fmt.Errorf("row %d of %v iterates as %v, reads as %v", i, a, val(b[0]), r[i])
			}
			return true, nil
		})
		return r, err
	}
	for j, k := range kx {
		if mask>>uint(j)&1 == 0 {
			total++
			sp, err := lg.GetAttribute(w.A[j])
			if err != nil {
				return err
			}
			for i := range w.V {
				if string(lg.Get(sp, i)) != w.V[i][j] {
					return fmt.Errorf("row %d of %v changed, though it isn't converted", i, w.A[j])
				}
			}
			continue
		}
		total += len(news[j])
		cols := [][]float64{}
		for _, a := range news[j] {
			r, err := read(a)
			if err != nil {
				return err
			}
			cols = append(cols, r)
		}
		want := 1
		if k > 3 {
			want = k - 1
		}
		if len(cols) != want {
			return fmt.Errorf("%v becomes %d columns, want %d", w.A[j], len(cols), want)
		}
		if want > 1 {
			c.Trace()
		}
		code := map[string]string{} // category -> encoding
		used := map[string]string{}
		for i := range w.V {
			c.Trans(1)
			enc := []float64{}
			ones := 0
			for _, col := range cols {
				enc = append(enc, col[i])
				if k >= 1 && col[i] != 0 && col[i] != 1 {
					return fmt.Errorf("row %d of %v is encoded as %v", i, w.A[j], col[i])
				}
				if col[i] == 1 {
					ones++
				}
			}
			switch {
			case k == 0:
				v := num(w.A[j], w.V[i][j])
				if fk == 0 && !bitsEq(enc[0], v) || fk == 1 && enc[0] != map[bool]float64{true: 1, false: 0}[v != 0] {
					return fmt.Errorf("number %v becomes %v", v, enc[0])
				}
			case k == 1:
				if enc[0] != float64(w.V[i][j][0]) {
					return fmt.Errorf("bit %d becomes %v", w.V[i][j][0], enc[0])
				}
			default:
				if want > 1 && ones != 1 {
					return fmt.Errorf("row %d of %v has the encoding %v", i, w.A[j], enc)
				}
				e := fmt.Sprint(enc)
				if o, ok := code[w.V[i][j]]; ok && o != e {
					return fmt.Errorf("a category of %v is encoded as %v and as %v", w.A[j], o, e)
				}
				if o, ok := used[e]; ok && o != w.V[i][j] {
					return fmt.Errorf("two categories of %v are encoded as %v", w.A[j], e)
				}
				code[w.V[i][j]], used[e] = e, w.V[i][j]
				if want > 1 {
					// the column of a category is named after it
					for x, a := range news[j] {
						s := w.A[j].GetName() + "_" + w.A[j].GetStringFromSysVal([]byte(w.V[i][j]))
						if (enc[x] == 1) != (a.GetName() == s) {
							return fmt.Errorf("category %s of %v sets column %v", s, w.A[j], a)
						}
					}
				}
			}
			c.Outcome(fmt.Sprint(k, fk, enc))
		}
		if w.Class[j] {
			for _, a := range news[j] {
				found := false
				for _, b := range lg.AllClassAttributes() {
					found = found || a.Equals(b)
				}
				if !found {
					return fmt.Errorf("the converted class column %v isn't a class", a)
				}
			}
		}
	}
	if cnt, _ := lg.Size(); cnt != total {
		return fmt.Errorf("%d columns, want %d", cnt, total)
	}
	return nil
}
