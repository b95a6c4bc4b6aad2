package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

// deepRows: numbers of rows past what any table or counter on the way is made for.
func deepRows(c *eng.Ctx) []int { return []int{1500, c.Pick(5000, 70000)} }

// c02deep: a few selections of rows of long sources.
func c02deep(c *eng.Ctx) {
	for _, n := range deepRows(c) {
		src := bigTab("FCB", 1, n, 5)
		rev := orders(n)[0]
		twice := append(append([]int{}, rev...), seq(n)...)
		for ri, vis := range [][]int{rev, twice, {n - 1, 0, n / 2, n - 1}, seq(n)} {
			for _, cl := range [][]int{nil, {2, 0}} {
				if !c.Mine() {
					continue
				}
				c.Case("deep source rows=%d row selection %d columns %v", n, ri, cl)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					v, want := applySel(buildDense(src, ri%3), src, rowSel{kind: "vis", vis: vis}, cl)
					return sameTab(v, want)
				})))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}

// c03deep: iteration over long grids.
func c03deep(c *eng.Ctx) {
	stop := fmt.Errorf("stop here")
	for _, n := range deepRows(c) {
		t := bigTab("FBC", 0, n, 5)
		for k := 0; k < numKinds; k++ {
			if !c.Mine() {
				continue
			}
			if g, _, _ := makeKind(k, t); g == nil {
				continue
			}
			for _, st := range []int{-1, n - 1} {
				c.Case("deep %s rows=%d stop=%d", kindNames[k], n, st)
				if !failErr(c, short(try(func() error { return c03opt(c, eng.Opt{MaxExec: 1}, k, t, []int{2, 0}, st, 0, stop) }))) {
					c.Trace()
				}
				c.Trans(n)
			}
		}
	}
}

// c07deep: long grids sorted by a number with many equal values.
func c07deep(c *eng.Ctx) {
	for _, n := range deepRows(c) {
		if n > 5000 {
			n = 20000
		}
		t := bigTab("FCB", 1, n, 40)
		for i := range t.V {
			h := mix(uint64(i))
			t.V[i][0] = fb(float64(int64(h%97)-40) / 2)
			t.V[i][1] = ub(h >> 20 % 40)
		}
		for k := 0; k < numKinds; k++ {
			for _, desc := range []bool{false, true} {
				if !c.Mine() {
					continue
				}
				g, w, store := makeKind(k, t)
				if g == nil {
					continue
				}
				c.Case("deep sort of %s n=%d descending=%v", kindNames[k], n, desc)
				c.State(c.CurCase())
				dir := base.Ascending
				if desc {
					dir = base.Descending
				}
				failErr(c, short(try(func() error {
					as := []base.Attribute{w.A[0], w.A[1]}
					l, err := base.LazySort(g, dir, base.ResolveAttributes(g, as))
					if err != nil {
						return err
					}
					if err := sortedBy(l, w, []int{0, 1}, desc); err != nil {
						return fmt.Errorf("lazy: %v", err)
					}
					if g != store {
						return nil
					}
					u := g.(base.UpdatableDataGrid)
					o, err := base.Sort(u, dir, base.ResolveAttributes(u, as))
					if err != nil {
						return err
					}
					if err := sortedBy(o, w, []int{0, 1}, desc); err != nil {
						return fmt.Errorf("in place: %v", err)
					}
					return nil
				})))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}

// c09near: values and thresholds next to each other, and category texts that differ in blanks
// or case only.
func c09near(c *eng.Ctx) {
	for vi, v := range []float64{0, 1, -1, 0.1, 1e9, 1e-9, 1e15, 1e300} {
		near := []float64{v, math.Nextafter(v, math.Inf(1)), math.Nextafter(v, math.Inf(-1)), v + 1e-13, v - 1e-13, v + 1e-7, v - 1e-7, v * (1 + 1e-7), v * (1 - 1e-7)}
		for k := 0; k < numKinds; k++ {
			for n := 1; n <= 2; n++ {
				if !c.Mine() {
					continue
				}
				t := mkTab([]AD{{'F', "x", nil}, {'C', "k", []string{" a", "a", "a ", "", "\ta", "A"}}}, 1, nil)
				for r := 0; r < n; r++ {
					for i, x := range near {
						t.V = append(t.V, []string{fb(x), ub(uint64((i + r) % 6))})
					}
				}
				g, w, _ := makeKind(k, t)
				if g == nil {
					continue
				}
				c.Case("values next to %v (%d of each), %s", v, n, kindNames[k])
				c.State(c.CurCase())
				failErr(c, short(try(func() error { return c09th(c, g, w, 1, near) })))
				c.Trace()
			}
		}
		_ = vi
	}
	texts := []string{" a", "a", "a ", "", "\ta", "A", "á", "a b", "a  b", "0", "1", "00"}
	for k := 0; k < numKinds; k++ {
		for class := 0; class < 2; class++ {
			if !c.Mine() {
				continue
			}
			t := mkTab([]AD{{'C', "c", texts}, {'C', "d", append(texts[3:len(texts):len(texts)], texts[:3]...)}}, class, nil)
			for i := 0; i < 30; i++ {
				t.V = append(t.V, []string{ub(uint64(i % 12)), ub(uint64(i * 7 / 3 % 12))})
			}
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("texts that differ in blanks or case, class %d, %s", class, kindNames[k])
			c.State(c.CurCase())
			failErr(c, short(try(func() error { return c09one(c, g, w, class) })))
			c.Trace()
		}
	}
	for _, n := range deepRows(c) {
		for k := 0; k < numKinds; k++ {
			if !c.Mine() {
				continue
			}
			t := bigTab("FCB", 1, n, 7)
			for i := range t.V {
				t.V[i][0] = fb(float64(mix(uint64(i))%7) - 2)
			}
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("deep %s rows=%d", kindNames[k], n)
			c.State(c.CurCase())
			failErr(c, short(try(func() error { return c09th(c, g, w, 1, []float64{0, 2.5}) })))
			c.Trace()
		}
	}
}

// c12odd: cells that begin with a character other readers give a meaning, in every position.
func c12odd(c *eng.Ctx) {
	odd := []string{"#x", "#", "%x", ";x", "//x", "--", "-x", "@x", "'x'", "*", "?", "NA", "NaN", "nan", "Inf", "-Inf", "null", "\\N", "=1", "!x", "0x10", "1_0", "1e", "1.2.3", "1,5", "$1", "1 2", "\ufeffx", "x\ty", "x;y", "a:b", "true", "１", "\x00", "-", "+", "."}
	for oi, o := range odd {
		for at := 0; at < 8; at++ {
			if !c.Mine() {
				continue
			}
			for kind := 0; kind < 2; kind++ {
				cells := [][]string{{"1.5", "a"}, {"2.25", "b"}, {"3", "a"}}
				names := []string{"x", "y"}
				if kind == 1 {
					for i := range cells {
						cells[i][0] = "t" + cells[i][0]
					}
				}
				if at < 6 {
					cells[at/2][at%2] = o
				} else {
					names[at%2] = o
				}
				for h := 0; h < 2; h++ {
					for style := 0; style < 4; style++ {
						doc := csvDoc(names, cells, h == 1, style)
						if len(doc) > 2 && doc[:3] == "\ufeff" {
							continue // a mark at the very beginning of a file has a meaning of its own
						}
						c.Case("document %q header=%d", doc, h)
						c.State(doc)
						if !failErr(c, try(func() error { return c12plain(doc, names, cells, h == 1) })) {
							c.Trace()
						}
						c.Trans(3)
					}
				}
			}
		}
		_ = oi
	}
}

// c30near: values that only full precision tells apart, and grids with nothing but the class.
func c30near(c *eng.Ctx) {
	for _, b := range []float64{1, 1e3, 1e9, 1e15, -1e9, 1e-20, 0} {
		for _, step := range []float64{1e-7, 1e-9, 1e-12} {
			for pat := 0; pat < 4; pat++ {
				if !c.Mine() {
					continue
				}
				at := func(i int) float64 {
					if b == 0 {
						return float64(i) * step
					}
					v := b * (1 + float64(i)*step)
					if b == 1e15 {
						v = b + float64(i)
					}
					return v
				}
				t := mkTab([]AD{{'F', "x", nil}, {'C', "k", []string{"u", "v"}}}, 1, nil)
				q := mkTab([]AD{{'F', "x", nil}, {'C', "k", []string{"u", "v"}}}, 1, nil)
				for i := 0; i < 6; i++ {
					k := []int{i % 2, i / 2 % 2, i / 3, (i*i + 1) / 3 % 2}[pat]
					if len(t.V) == 0 || t.V[len(t.V)-1][0] != fb(at(2*i)) {
						t.V = append(t.V, []string{fb(at(2 * i)), ub(uint64(k))})
					}
					for _, d := range []int{-1, 0, 1} {
						q.V = append(q.V, []string{fb(at(2*i + d)), ub(0)})
					}
				}
				for _, rg := range ruleGens {
					c.Case("values %v(1+i*%v), pattern %d, %s", b, step, pat, rg.name)
					c.State(c.CurCase())
					failErr(c, short(try(func() error {
						tree := trees.NewID3DecisionTreeFromRule(0, rg.gen)
						if err := tree.Fit(buildDense(t, 0)); err != nil {
							return err
						}
						if err := walkTree(t, tree.Root, seq(t.rows()), []int{0}, func(n *trees.DecisionTreeNode, rows, cols []int) error { return nil }); err != nil {
							return err
						}
						x := q.clone()
						for _, th := range ruleThresholds(tree.Root, nil) {
							for _, v := range []float64{th, math.Nextafter(th, math.Inf(1)), math.Nextafter(th, math.Inf(-1))} {
								x.V = append(x.V, []string{fb(v), ub(1)})
							}
						}
						p, err := tree.Predict(buildDense(x, 0))
						c.Trans(x.rows())
						return checkTreePredict(x, p, tree.Root, p, err)
					})))
					c.Trace()
				}
			}
		}
	}
	for n := 1; n <= 7; n++ {
		for pat := 0; pat < 27; pat++ {
			if !c.Mine() {
				continue
			}
			for kind := 0; kind < numKinds; kind++ {
				t := mkTab([]AD{{'C', "k", []string{"u", "v", "w"}}}, 0, nil)
				for i := 0; i < n; i++ {
					t.V = append(t.V, []string{ub([]uint64{uint64(pat % 3), uint64(pat / 3 % 3), uint64(pat / 9)}[i%3])})
				}
				g, w, _ := makeKind(kind, t)
				if g == nil || !sameCols(w, t) || w.rows() == 0 {
					continue
				}
				for _, rg := range ruleGens {
					c.Case("only a class, %d rows, pattern %d, %s, %s", n, pat, kindNames[kind], rg.name)
					c.State(c.CurCase())
					failErr(c, short(try(func() error {
						tree := trees.NewID3DecisionTreeFromRule(0, rg.gen)
						if err := tree.Fit(g); err != nil {
							return err
						}
						count, most := classCounts(w, seq(w.rows())), 0
						for _, v := range count {
							if v > most {
								most = v
							}
						}
						p, err := tree.Predict(buildDense(t, 0))
						if err != nil {
							return err
						}
						if _, r := p.Size(); r != n {
							return fmt.Errorf("%d predictions of %d rows", r, n)
						}
						for i := 0; i < n; i++ {
							if x := base.GetClass(p, i); count[x] != most {
								return fmt.Errorf("row %d is predicted as %q, the classes are %v", i, x, count)
							}
						}
						return nil
					})))
					c.Trans(n)
					c.Trace()
				}
			}
		}
	}
}

// c05deep: copies of long grids, written to in a few places on either side.
func c05deep(c *eng.Ctx) {
	for _, n := range deepRows(c) {
		for _, cyc := range []string{"FCB", "B"} {
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				t := bigTab(cyc, len(cyc)-1, n, 3)
				c.Case("deep %s rows=%d columns %s", kindNames[k], n, cyc)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					g, want, store := makeKind(k, t)
					if g == nil {
						return nil
					}
					write := func(d base.UpdatableDataGrid) error {
						_, rows := d.Size()
						for _, i := range []int{0, rows / 2, rows - 1} {
							for _, a := range d.AllAttributes() {
								s, err := d.GetAttribute(a)
								if err != nil {
									return err
								}
								d.Set(s, i, []byte(flipVal(a, string(d.Get(s, i)))))
							}
						}
						return nil
					}
					cp := base.NewDenseCopy(g)
					if err := sameTab(cp, want); err != nil {
						return fmt.Errorf("full copy: %v", err)
					}
					pv := base.GeneratePredictionVector(g)
					if _, r := pv.Size(); r != want.rows() {
						return fmt.Errorf("prediction vector of %d rows", r)
					}
					for _, d := range []base.UpdatableDataGrid{cp, pv} {
						if err := write(d); err != nil {
							return err
						}
						if err := sameTab(g, want); err != nil {
							return fmt.Errorf("source changed with the copy: %v", err)
						}
					}
					if u, ok := store.(base.UpdatableDataGrid); ok {
						cp := base.NewDenseCopy(g)
						if err := write(u); err != nil {
							return err
						}
						if err := sameTab(cp, want); err != nil {
							return fmt.Errorf("copy changed with the source: %v", err)
						}
					}
					return nil
				})))
				c.Trace()
				c.Trans(n)
			}
		}
	}
}
