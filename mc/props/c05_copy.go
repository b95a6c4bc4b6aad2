package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C05", Run: runC05,
		Rule:   "every schema x set of class attributes x row count x kind of source grid (11 kinds) x map iteration order (one deviation): full copy, structural copy, prediction vector and layout copy compared with the table, then every single cell of each copy and every class mark is changed and the source re-read, then every cell of the stored source is changed and the copy re-read; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one row",
		Assume: []string{"the contents of a fresh prediction vector are zero values", "attributes themselves are shared between source and copy by design; only cells, sizes and class marks are required to be independent"}})
}

func runC05(c *eng.Ctx) {
	for _, sc := range []string{"F", "C", "B", "FC", "BC", "FCB", "BFBF", "BBBBBBBBBC", "CCBF"} {
		for n := 0; n <= c.Pick(3, 4); n++ {
			for cm := 0; cm < 1<<len(sc); cm++ {
				if len(sc) > 5 && cm&(cm-1) != 0 && cm != 1<<len(sc)-1 {
					continue
				}
				for k := 0; k < numKinds; k++ {
					if !c.Mine() {
						continue
					}
					t := c02src(sc, n, -1)
					for j := range sc {
						t.Class[j] = cm>>j&1 == 1
					}
					c.Case("%s of %s rows=%d class set=%b", kindNames[k], sc, n, cm)
					c.Explore(eng.Opt{MapDev: 1, MaxExec: 60}, func(ch *eng.Chooser) {
						var err error
						p := ch.Call(func() { err = c05one(c, k, t) })
						if p != nil {
							err = fmt.Errorf("%v at %s", p, p.Stack)
						}
						if !failErr(c, err) {
							c.Trace()
							c.State(c.CurCase())
						}
					})
				}
			}
		}
	}
	c.Sample("rowmap-view of FCB, 3 rows, class attributes {1,2}: copied, then row 2 column 0 of the copy overwritten")
	c05large(c)
	c05deep(c)
	c05alias(c)
}

func flipVal(a base.Attribute, v string) string {
	switch a.GetType() {
	case base.Float64Type:
		return fb(base.UnpackBytesToFloat([]byte(v)) + 0.125)
	case base.BinaryType:
		return string([]byte{v[0] ^ 1})
	}
	return ub((base.UnpackBytesToU64([]byte(v)) + 1) % 3)
}

// writeAll overwrites every cell of d one by one; after each write f must agree.
func writeAll(d base.UpdatableDataGrid, f func(i int, a base.Attribute) error) error {
	_, rows := d.Size()
	for i := 0; i < rows; i++ {
		for _, a := range d.AllAttributes() {
			s, err := d.GetAttribute(a)
			if err != nil {
				return err
			}
			d.Set(s, i, []byte(flipVal(a, string(d.Get(s, i)))))
			if err := f(i, a); err != nil {
				return fmt.Errorf("after writing row %d of %s: %v", i, a, err)
			}
		}
	}
	return nil
}

func c05one(c *eng.Ctx, k int, t *Tab) error {
	g, want, store := makeKind(k, t)
	if g == nil {
		return nil
	}
	c.Trans(4)
	// full copy
	cp := base.NewDenseCopy(g)
	if err := sameTab(cp, want); err != nil {
		return fmt.Errorf("full copy: %v", err)
	}
	// structural copy
	st := base.NewStructuralCopy(g)
	if err := sameTab(st, &Tab{A: want.A, Class: want.Class}); err != nil {
		return fmt.Errorf("structural copy: %v", err)
	}
	st.Extend(1)
	// prediction vector
	pv := base.GeneratePredictionVector(g)
	pw := &Tab{}
	zero := []string{}
	for j, a := range want.A {
		if want.Class[j] {
			pw.A = append(pw.A, a)
			pw.Class = append(pw.Class, true)
			if a.GetType() == base.BinaryType {
				zero = append(zero, "\x00")
			} else {
				zero = append(zero, fb(0))
			}
		}
	}
	for range want.V {
		pw.V = append(pw.V, zero)
	}
	if err := sameTab(pv, pw); err != nil {
		return fmt.Errorf("prediction vector: %v", err)
	}
	// layout copy of a stored grid
	if d, ok := g.(*base.DenseInstances); ok {
		for sub := 0; sub <= len(want.A); sub++ {
			attrs := want.A[:sub]
			lc := base.CopyDenseInstances(d, attrs)
			if err := sameTab(lc, &Tab{A: attrs, Class: make([]bool, sub)}); err != nil {
				return fmt.Errorf("layout copy: %v", err)
			}
			lw := &Tab{A: attrs, Class: make([]bool, sub)}
			lc.Extend(want.rows())
			for i := range want.V {
				lw.V = append(lw.V, want.V[i][:sub])
				for j := range attrs {
					s, err := lc.GetAttribute(attrs[j])
					if err != nil {
						return err
					}
					lc.Set(s, i, []byte(want.V[i][j]))
				}
			}
			if err := sameTab(lc, lw); err != nil {
				return fmt.Errorf("layout copy after filling it: %v", err)
			}
		}
	}
	// independence: writes to the copies
	unchanged := func(int, base.Attribute) error { c.Trans(1); return sameTab(g, want) }
	if err := writeAll(cp, unchanged); err != nil {
		return fmt.Errorf("source changed with the copy: %v", err)
	}
	if err := writeAll(pv, unchanged); err != nil {
		return fmt.Errorf("source changed with the prediction vector: %v", err)
	}
	if err := writeAll(st, unchanged); err != nil {
		return fmt.Errorf("source changed with the structural copy: %v", err)
	}
	// class marks
	cp2 := base.NewDenseCopy(g)
	for j, a := range want.A {
		if want.Class[j] {
			cp2.RemoveClassAttribute(a)
		} else {
			cp2.AddClassAttribute(a)
		}
	}
	cp2.Extend(2)
	if err := sameTab(g, want); err != nil {
		return fmt.Errorf("source changed with the copy's class attributes or size: %v", err)
	}
	// writes to the source
	if u, ok := store.(base.UpdatableDataGrid); ok {
		cp3, pv3 := base.NewDenseCopy(g), base.GeneratePredictionVector(g)
		err := writeAll(u, func(int, base.Attribute) error {
			c.Trans(1)
			if err := sameTab(cp3, want); err != nil {
				return err
			}
			return sameTab(pv3, pw)
		})
		if err != nil {
			return fmt.Errorf("copy changed with the source: %v", err)
		}
	}
	c.Outcome(fmt.Sprint(k, len(pw.A), want.rows()))
	return nil
}
