package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

// c47large: readers of grids with many columns or rows, and models of many features asked many rows.
func c47large(c *eng.Ctx) {
	rs := gridReaders()
	names := append(kindNames[:numKinds:numKinds], "as-floats", "as-bits", "binned", "chimerged")
	for ti, t := range []*Tab{treeTab(cycle("FCBF", 20), 4, 3, 3, 1, 0), treeTab("FCB", 150, 7, 3, 1, 2)} {
		for k := 0; k < numKinds+4; k++ {
			for i := range rs {
				for _, j := range []int{i, (i + 1) % len(rs), 1} {
					if ti == 1 && (k+i+j)%3 > 0 && !c.Thorough() {
						continue
					}
					if !c.Mine() {
						continue
					}
					what := fmt.Sprintf("large table %d, %s: %s and %s", ti, names[k], rs[i].name, rs[j].name)
					c.Case("%s", what)
					g := readKind(k, t)
					if g == nil {
						continue
					}
					// The order of columns made by a filter differs from grid to grid, so what each
					// operation returns alone is asked of the same grid afterwards.
					var fs []func() (string, error)
					got := make([]map[string]bool, 2)
					for p, x := range []int{i, j} {
						p, x := p, x
						got[p] = map[string]bool{}
						fs = append(fs, func() (string, error) {
							s, err := rs[x].read(g)
							got[p][s] = true
							return "", err
						})
					}
					if !together(c, "large grids", what, 0, 1, fs, []string{"", ""}) {
						continue
					}
					for p, x := range []int{i, j} {
						s, ok := aloneText(c, what, func() (string, error) { return rs[x].read(g) })
						if !ok {
							break
						}
						delete(got[p], s)
						for other := range got[p] {
							c.Fail("large grids", "%s: operation %d returns %s alone but %s together with the other", what, p, shorten(s), shorten(other))
							break
						}
					}
				}
			}
		}
	}
	for _, k := range learnerKinds() {
		kinds := map[byte]string{'N': "F", 'S': "F", 'M': "FCB", 'B': "B", 'P': "F"}[k.data]
		if kinds == "" {
			continue
		}
		for _, cols := range []int{12, 35} {
			if !c.Mine() {
				continue
			}
			classes := 4
			if k.data == 'P' || k.data == 'S' {
				classes = 2
			}
			t := treeTab(cycle(kinds, cols), 40, 3, classes, 1, 5)
			q := treeTab(cycle(kinds, cols), 140, 3, classes, 1, 9)
			for _, x := range []*Tab{t, q} {
				if k.data == 'S' {
					n := len(x.A) - 1
					x.A[n] = AD{'F', "k", nil}.make()
					for i := range x.V {
						x.V[i][n] = fb(float64(i / 2 % 2))
					}
				}
			}
			what := fmt.Sprintf("%s with %d features asked by two", k.name, cols)
			c.Case("%s", what)
			l := k.make()
			srand(1)
			train := buildDense(t, 0)
			if _, ok := aloneText(c, what, func() (string, error) { return "", l.fit(train) }); !ok {
				continue
			}
			qs := []base.FixedDataGrid{buildDense(q, 0), train}
			var fs []func() (string, error)
			var alone []string
			for i := range qs {
				i := i
				fs = append(fs, func() (string, error) { return l.ask(qs[i]) })
				s, ok := aloneText(c, what, fs[i])
				if !ok {
					break
				}
				alone = append(alone, s)
			}
			if len(alone) == 2 {
				together(c, "large ask "+k.name, what, 0, 1, fs, alone)
			}
		}
	}
}

// c46inplace: the grids a model was trained on and asked are written to (and grow) between the
// calls; what counts is what they hold when they are passed.
func c46inplace(c *eng.Ctx, run func(func() error) error) {
	put := func(d *base.DenseInstances, t *Tab) error {
		_, rows := d.Size()
		if t.rows() > rows {
			if err := d.Extend(t.rows() - rows); err != nil {
				return err
			}
		}
		for j, a := range t.A {
			s, err := d.GetAttribute(a)
			if err != nil {
				return err
			}
			for i := range t.V {
				d.Set(s, i, []byte(t.V[i][j]))
			}
		}
		return nil
	}
	for _, k := range learnerKinds() {
		kinds := map[byte]string{'N': "FF", 'S': "FF", 'M': "FCB", 'B': "BBB", 'P': "FF"}[k.data]
		if kinds == "" {
			continue
		}
		tab := func(n, salt int) *Tab {
			classes := 3
			if k.data == 'P' || k.data == 'S' {
				classes = 2
			}
			t := treeTab(kinds, n, 3, classes, 1, salt)
			if k.data == 'S' {
				x := len(t.A) - 1
				t.A[x] = AD{'F', "k", nil}.make()
				for i := range t.V {
					t.V[i][x] = fb(float64((i*i + salt) / 2 % 2))
				}
			}
			return t
		}
		for grow := 0; grow < 2; grow++ {
			for view := 0; view < 2; view++ {
				for salt := 0; salt < c.Pick(2, 6); salt++ {
					if !c.Mine() {
						continue
					}
					what := fmt.Sprintf("%s: grids written to between calls, growing %d, through a view %d, data %d", k.name, grow, view, salt)
					c.Case("%s", what)
					c.State(what)
					failErr(c, short(try(func() error {
						n := 7
						g, q := buildDense(tab(n, salt*10), salt%3), buildDense(tab(n, salt*10+50), 0)
						show := func(d *base.DenseInstances) base.FixedDataGrid { return d }
						if view == 1 {
							show = func(d *base.DenseInstances) base.FixedDataGrid {
								return base.NewInstancesViewFromAttrs(d, d.AllAttributes())
							}
						}
						l := k.make()
						var gv, qv base.FixedDataGrid
						for round := 0; round < 3; round++ {
							if round > 0 {
								n += 2 * grow
								if err := put(g, tab(n, salt*10+round)); err != nil {
									return err
								}
								if err := put(q, tab(n, salt*10+50+round)); err != nil {
									return err
								}
							}
							if gv == nil {
								gv, qv = show(g), show(q)
							}
							ask := func(l learner, x base.FixedDataGrid) (s string, err error) {
								err = run(func() (err error) { s, err = l.ask(x); return })
								return
							}
							fresh := k.make()
							ft := buildDense(tab(n, salt*10+round), 0)
							ferr := run(func() error { return fresh.fit(ft) })
							err := run(func() error { return l.fit(gv) })
							if (ferr == nil) != (err == nil) {
								return fmt.Errorf("round %d: training: %v, a new instance: %v", round, err, ferr)
							}
							if err != nil {
								l = k.make()
								continue
							}
							for time := 0; time < 2; time++ {
								salt2 := salt*10 + 50 + round + 3*time
								if err := put(q, tab(n, salt2)); err != nil {
									return err
								}
								want, werr := ask(fresh, buildDense(tab(n, salt2), 0))
								got, err := ask(l, qv)
								if (werr == nil) != (err == nil) || got != want {
									return fmt.Errorf("round %d, question %d: answers\n%v %v\nwant\n%v %v", round, time, got, err, want, werr)
								}
								c.Trans(1)
								c.Outcome(got)
							}
						}
						c.Trace()
						return nil
					})))
				}
			}
		}
	}
}
