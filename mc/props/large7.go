package props

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

// wideTabs gives tables of many rows, columns or categories.
func wideTabs(c *eng.Ctx, kinds []string, f func(t *Tab, what string)) {
	for _, defs := range kinds {
		for _, s := range []struct{ cols, rows, cats int }{
			{1, 300, 300}, {2, 70, 33}, {2, 130, 64}, {2, 131, 65}, {2, 200, 100}, {3, 256, 128}, {3, 258, 129}, {3, 257, 255}, {3, 300, 257},
			{2, 5000, 6}, {9, 20, 10}, {17, 65, 7}, {33, 31, 16}, {64, 7, 3}, {65, 8, 2}, {130, 6, 5}, {c.Pick(200, 600), 5, 3},
		} {
			if !c.Mine() {
				continue
			}
			t := bigTab(cycle(defs, s.cols), s.cols-1, s.rows, s.cats)
			f(t, fmt.Sprintf("large: %d columns like %s, %d rows, %d categories", s.cols, defs, s.rows, s.cats))
		}
	}
}

// c02twins: columns which share a name and differ in their type.
func c02twins(c *eng.Ctx) {
	for _, sc := range []string{"FC", "CF", "FCB", "BFC", "CBF"} {
		for class := 0; class < len(sc); class++ {
			src := c02src(sc, 2, class)
			for _, a := range src.A {
				a.SetName("twin")
			}
			for _, cs := range colSels(len(sc)) {
				for _, rs := range rowSels(2, 2) {
					if !c.Mine() {
						continue
					}
					c.Case("columns of one name: src=%s class=%d sel=%v cols=%v", sc, class, rs, cs)
					if failErr(c, try(func() error {
						v, want := applySel(buildDense(src, 0), src, rs, cs)
						all := v.AllAttributes()
						if len(all) != len(want.A) {
							return fmt.Errorf("%d attributes, want %d", len(all), len(want.A))
						}
						for j, a := range want.A {
							s, err := v.GetAttribute(a)
							if err != nil {
								return err
							}
							for i := range want.V {
								if got := string(v.Get(s, i)); got != want.V[i][j] {
									return fmt.Errorf("row %d column %d is %x, want %x", i, j, got, want.V[i][j])
								}
							}
							cls := false
							for _, b := range v.AllClassAttributes() {
								cls = cls || a.Equals(b)
							}
							if cls != want.Class[j] {
								return fmt.Errorf("column %d (%s) is a class attribute: %v", j, a, cls)
							}
						}
						n := 0
						for _, b := range want.Class {
							if b {
								n++
							}
						}
						if m := len(v.AllClassAttributes()); m != n {
							return fmt.Errorf("%d class attributes, want %d", m, n)
						}
						return nil
					})) {
						continue
					}
					c.Trace()
					c.Trans(1)
				}
			}
		}
	}
}

// c06near: numbers which differ by less than is printed.
func c06near(c *eng.Ctx) {
	for _, n := range []int{2, 65, 300, 1100} {
		for _, long := range []bool{false, true} {
			for _, at := range []int{0, n / 2, n - 1} {
				for k := 0; k < numKinds; k++ {
					if !c.Mine() {
						continue
					}
					v := manyTexts(n, long)
					w := append([]string{}, v...)
					w[at] += "x"
					tab := func(cats []string) *Tab {
						return mkTab([]AD{{'F', "x", nil}, {'C', "k", cats}}, 1, [][]string{{fb(1), ub(uint64(at))}, {fb(2), ub(0)}})
					}
					c.Case("%s of %d categories (long %v) that differ in category %d", kindNames[k], n, long, at)
					failErr(c, short(try(func() error {
						a, _, _ := makeKind(k, tab(v))
						b, _, _ := makeKind(k, tab(w))
						e, _, _ := makeKind(k, tab(v))
						if a == nil || k == 8 || unorderedKind(k) {
							return nil
						}
						if x, y := base.InstancesAreEqual(a, b), base.InstancesAreEqual(a, e); x || !y {
							return fmt.Errorf("equal %v, to itself %v", x, y)
						}
						if x, y := base.CheckStrictlyCompatible(a, b), base.CheckStrictlyCompatible(a, e); x || y != strictModel(a, e) {
							return fmt.Errorf("strictly compatible %v, to itself %v", x, y)
						}
						if x, y := base.CheckCompatible(a, b), base.CheckCompatible(a, e); x != nil || y == nil {
							return fmt.Errorf("compatible %v, to itself %v", x, y)
						}
						return nil
					})))
					c.Trans(6)
					c.Trace()
				}
			}
		}
	}
	vals := []float64{1, 1.001, 1.0010000000000001, 1.004, 1e9, 1e9 + 1e-6, 0.30000000000000004, 0.3, 5e-324, 1e-300, 0, -1e-9, 1e300, 1.0000000000000002e300}
	for k := 0; k < numKinds; k++ {
		for i, x := range vals {
			for j, y := range vals {
				for n := 1; n <= 3; n += 2 {
					if !c.Mine() {
						continue
					}
					c.Case("%s of %d rows ending in %v, and in %v", kindNames[k], n, x, y)
					failErr(c, try(func() error {
						tab := func(v float64) *Tab {
							t := mkTab([]AD{{'C', "c", []string{"p", "q"}}, {'F', "x", nil}, {'B', "b", nil}}, 0, nil)
							for r := 0; r < n; r++ {
								t.V = append(t.V, []string{ub(uint64(r % 2)), fb(float64(r)), "\x01"})
							}
							t.V[n-1][1] = fb(v)
							return t
						}
						a, _, _ := makeKind(k, tab(x))
						b, _, _ := makeKind((k*3+n)%3, tab(y))
						if a == nil || k == 8 {
							return nil
						}
						if e1, e2 := base.InstancesAreEqual(a, b), base.InstancesAreEqual(b, a); e1 != (i == j) || e2 != (i == j) {
							return fmt.Errorf("equal: %v, reversed %v", e1, e2)
						}
						return nil
					}))
					c.Trans(2)
					c.Trace()
				}
			}
		}
	}
}

// c10texts: long texts which share their beginnings or ends, and many printed digits.
func c10texts(c *eng.Ctx) {
	var long []string
	for _, n := range []int{7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300, 5000} {
		p := strings.Repeat("x", n)
		long = append(long, p, p+"a", p+"b", "a"+p, "b"+p, p+" ", p[:n/2]+"é"+p[n/2:], strings.ToUpper(p))
	}
	var ops []int
	for i := range long {
		ops = append(ops, i)
	}
	ops = append(ops, len(long))
	ops = append(ops, orders(len(long))[1]...)
	if c.Mine() {
		c.Case("long texts")
		failErr(c, short(try(func() error { return c10cat(c, long, ops) })))
		c.Trace()
	}
	for _, i := range orders(len(long)) {
		if !c.Mine() {
			continue
		}
		c.Case("long texts in the order %v", i)
		failErr(c, short(try(func() error { return c10cat(c, long, i) })))
		c.Trace()
	}
}

// c12large: documents of many columns, rows and categories.
func c12large(c *eng.Ctx) {
	wideTabs(c, []string{"FC", "C", "CCF", "F"}, func(t *Tab, what string) {
		c.Case("%s", what)
		names := make([]string, len(t.A))
		cells := make([][]string, len(t.V))
		for j, a := range t.A {
			names[j] = a.GetName()
			for i := range t.V {
				cells[i] = append(cells[i], a.GetStringFromSysVal([]byte(t.V[i][j])))
			}
		}
		for h := 0; h < 2; h++ {
			failErr(c, short(try(func() error { return c12plain(csvDoc(names, cells, h == 1, 0), names, cells, h == 1) })))
		}
		c.Trans(len(t.V))
		c.Trace()
	})
}

// c13large: grids of many columns, rows and categories, and texts with blanks around them.
func c13large(c *eng.Ctx) {
	wideTabs(c, []string{"FCB", "C", "BF"}, func(t *Tab, what string) {
		for k := 0; k < numKinds; k++ {
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("%s, %s", what, kindNames[k])
			failErr(c, short(try(func() error { return c13one(c, g, w, k) })))
			c.Trans(len(t.V))
			c.Trace()
		}
	})
	odd := []string{" a", "a ", "  ", "a", "\ta\t", "", " a,b ", "A"}
	for i := range odd {
		for j := range odd {
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				t := mkTab([]AD{{'F', " x ", nil}, {'C', "c ", odd}}, 1, [][]string{{fb(1), ub(uint64(i))}, {fb(2.5), ub(uint64(j))}})
				g, w, _ := makeKind(k, t)
				if g == nil {
					continue
				}
				c.Case("texts %q and %q, %s", odd[i], odd[j], kindNames[k])
				failErr(c, try(func() error {
					var buf bytes.Buffer
					if err := base.SerializeInstancesToCSVStream(g, &buf); err != nil {
						return err
					}
					rec, err := csv.NewReader(&buf).ReadAll()
					if err != nil {
						return err
					}
					want := printed(w)
					if len(rec) != 3 {
						return fmt.Errorf("%d records", len(rec))
					}
					var rows, wrows []string
					for r := 1; r < 3; r++ {
						x, y := "", ""
						for q, h := range rec[0] {
							col, ok := want[h]
							if !ok {
								return fmt.Errorf("header %q", rec[0])
							}
							x += fmt.Sprintf("%q;", rec[r][q])
							y += fmt.Sprintf("%q;", col[r-1])
						}
						rows, wrows = append(rows, x), append(wrows, y)
					}
					if unorderedKind(k) {
						rows, wrows = sorted(rows), sorted(wrows)
					}
					if !same(rows, wrows) {
						return fmt.Errorf("records %s, want %s", rows, wrows)
					}
					return nil
				}))
				c.Trans(1)
				c.Trace()
			}
		}
	}
}

// c14large: grids of many columns, rows and categories.
func c14large(c *eng.Ctx) {
	wideTabs(c, []string{"FC", "C", "CCF"}, func(t *Tab, what string) {
		for k := 0; k < numKinds; k++ {
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("%s, %s", what, kindNames[k])
			failErr(c, short(try(func() error { return c14one(c, g, w, k) })))
			c.Trans(len(t.V))
			c.Trace()
		}
	})
}

// c15large: grids of many columns, rows and categories.
func c15large(c *eng.Ctx) {
	wideTabs(c, []string{"FCB", "C", "BF", "B"}, func(t *Tab, what string) {
		for k := 0; k < numKinds; k++ {
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("%s, %s", what, kindNames[k])
			failErr(c, short(try(func() error {
				var buf bytes.Buffer
				if err := base.SerializeInstances(g, &buf); err != nil {
					return err
				}
				r, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
				if err != nil {
					return err
				}
				return sameRestored(r, w, unorderedKind(k))
			})))
			c.Trans(len(t.V))
			c.Trace()
		}
	})
}

// c05alias: categories added to prediction vectors stay with them.
func c05alias(c *eng.Ctx) {
	for k := 0; k < numKinds; k++ {
		for n := 0; n <= 9; n++ {
			for order := 0; order < 6; order++ {
				if !c.Mine() {
					continue
				}
				c.Case("%s with %d classes, order %d of adding to two prediction vectors and the source", kindNames[k], n, order)
				failErr(c, try(func() error {
					cats := []string{}
					cls := AD{'C', "y", nil}.make()
					for i := 0; i < n; i++ {
						cats = append(cats, fmt.Sprint("k", i))
						cls.GetSysValFromString(cats[i])
					}
					t := mkTab([]AD{{'F', "x", nil}, {'C', "y", nil}}, 1, [][]string{{fb(1), ub(0)}, {fb(2), ub(0)}})
					t.A[1] = cls
					g, w, _ := makeKind(k, t)
					if g == nil {
						return nil
					}
					if len(g.AllClassAttributes()) != 1 {
						return nil
					}
					own := g.AllClassAttributes()[0].(*base.CategoricalAttribute)
					pv := []base.FixedDataGrid{base.GeneratePredictionVector(g), base.GeneratePredictionVector(g)}
					sets := []*base.CategoricalAttribute{own}
					for _, p := range pv {
						sets = append(sets, p.AllClassAttributes()[0].(*base.CategoricalAttribute))
					}
					for step := 0; step < 2; step++ {
						for _, i := range perms3[order] {
							sets[i].GetSysValFromString(fmt.Sprint("new ", i, step))
						}
					}
					for i, a := range sets {
						want := append(append([]string{}, cats...), fmt.Sprint("new ", i, 0), fmt.Sprint("new ", i, 1))
						if got := a.GetValues(); strings.Join(got, "|") != strings.Join(want, "|") {
							return fmt.Errorf("categories of %d (0: source) are %q, want %q", i, got, want)
						}
					}
					_ = w
					return nil
				}))
				c.Trans(6)
				c.Trace()
			}
		}
	}
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// c15names: names and categories with blanks and signs at their ends.
func c15names(c *eng.Ctx) {
	names := []string{" a", "a ", "\ta", "a\n", "", " ", "é ", "A", "a", "\"", "a,b", "\\", "a'", "1"}
	for i, x := range names {
		for j, y := range names {
			for cls := 0; cls < 3; cls++ {
				if i == j || !c.Mine() {
					continue
				}
				c.Case("columns %q and %q, class %d, categories alike", x, y, cls)
				t := mkTab([]AD{{'C', x, []string{x, y}}, {'C', y, []string{y, x, x + "."}}}, cls%2, [][]string{{ub(0), ub(2)}, {ub(1), ub(0)}, {ub(0), ub(1)}})
				t.Class[1] = cls > 0
				for k := 0; k < 3; k++ {
					g, w, _ := makeKind(k, t)
					failErr(c, short(try(func() error {
						var buf bytes.Buffer
						if err := base.SerializeInstances(g, &buf); err != nil {
							return err
						}
						r, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
						if err != nil {
							return err
						}
						return sameRestored(r, w, unorderedKind(k))
					})))
				}
				c.Trans(3)
				c.Trace()
			}
		}
	}
}

// extremes are numbers next to each other, very large and very small ones.
var extremes = []float64{0, 5e-324, 1e-323, 1, 1.0000000000000002, 1.0000000000000004, 1e16, 1e16 + 2, 1e308, 1.7e308, math.MaxFloat64, -1e308, -1.7e308, -math.MaxFloat64}

// c31extreme: thresholds between such numbers.
func c31extreme(c *eng.Ctx) {
	for n := 2; n <= c.Pick(3, 4); n++ {
		tuples(power(len(extremes), n), func(ix []int) {
			for mask := 1; mask < 1<<uint(n-1); mask++ {
				if !c.Mine() {
					continue
				}
				t := mkTab([]AD{{'F', "x", nil}, {'C', "y", []string{"u", "v"}}}, 1, nil)
				for i := range ix {
					t.V = append(t.V, []string{fb(extremes[ix[i]]), ub(uint64(mask >> uint(i) & 1))})
				}
				c.Case("table=%s", t)
				g, _, _ := makeKind(0, t)
				for _, rg := range ruleGens {
					failErr(c, try(func() error {
						if err := checkRule(rg.name, t, seq(n), []int{0}, rg.gen.GenerateSplitRule(g)); err != nil {
							return fmt.Errorf("%s: %v", rg.name, err)
						}
						return nil
					}))
				}
				c.Trans(3)
				c.Trace()
			}
		})
	}
}

// c19wide: intervals of many rows and classes, so that their statistic is large.
func c19wide(c *eng.Ctx) {
	for _, classes := range []int{2, 3, 4, 5, 8, 12, 30, 101, c.Pick(200, 700)} {
		for _, rep := range []int{1, 3, 10, 60, c.Pick(200, 900)} {
			for pat := 0; pat < 5; pat++ {
				for _, sig := range []float64{0.5, 0.9, 0.99} {
					if pat == 4 && (rep < 10 || rep > 60 || classes > 12) {
						continue
					}
					if classes*rep > c.Pick(4000, 12000) || !c.Mine() {
						continue
					}
					K := AD{'C', "y", nil}
					for k := 0; k < classes; k++ {
						K.Cats = append(K.Cats, fmt.Sprint("k", k))
					}
					t := mkTab([]AD{K, {'F', "x", nil}}, 0, nil)
					fs := []chiEntry{}
					nv := 5
					if pat == 4 {
						nv = 45 + rep
					}
					for v := 0; v < nv; v++ {
						e := chiEntry{lower: float64(v)}
						for k := 0; k < classes; k++ {
							n := 0
							switch pat {
							case 0: // alternating halves of the classes
								if (k+v)%2 == 0 {
									n = rep
								}
							case 1: // shifting weights
								n = (k+v)%3*rep + 1
							case 2: // the first intervals alike
								n = rep + v/3*(k%4)*rep
							case 3: // nearly alike
								n = rep + int(mix(uint64(k*7+v)))&1
							case 4: // many intervals
								if (k+v)%2 == 0 {
									n = rep + v*v%97 + k
								}
							}
							if n > 0 {
								e.add(k, n)
							}
							for i := 0; i < n; i++ {
								t.V = append(t.V, []string{ub(uint64(k)), fb(float64(v))})
							}
						}
						if len(e.n) > 0 {
							fs = append(fs, e)
						}
					}
					c.Case("ChiMerge of %d classes, %d rows, pattern %d, significance %v", classes, len(t.V), pat, sig)
					c.State(c.CurCase())
					want := chiOutcomes(fs, classes, sig, 2, 1000)
					failErr(c, short(try(func() error {
						g := buildDense(t, 0)
						f := filters.NewChiMergeFilter(g, sig)
						f.MinRows, f.MaxRows = 2, 1000
						if err := f.AddAttribute(t.A[1]); err != nil {
							return err
						}
						if err := f.Train(); err != nil {
							return err
						}
						idx, _, all, err := cats(base.NewLazilyFilteredInstances(g, f), "x")
						if err != nil {
							return err
						}
						got := make([]float64, len(all))
						for i := range t.V {
							v := base.UnpackBytesToFloat([]byte(t.V[len(t.V)-1-i][1]))
							got[idx[len(t.V)-1-i]] = v
						}
						if _, ok := want[fmt.Sprint(got)]; !ok {
							return fmt.Errorf("intervals from %v, want one of %v", got, want)
						}
						return nil
					})))
					c.Trans(len(t.V))
					c.Trace()
				}
			}
		}
	}
}

// c21many: many rows to label, many rows to search.
func c21many(c *eng.Ctx) {
	for _, n := range []int{5, 70, 520, c.Pick(1030, 3000)} {
		for _, nq := range []int{130, 300} {
			for dim := 1; dim <= 3; dim++ {
				for ci, cf := range []struct {
					dist, alg     string
					weighted, opt bool
				}{{"euclidean", "linear", false, true}, {"euclidean", "linear", false, false}, {"euclidean", "kdtree", true, false}, {"manhattan", "kdtree", false, false}, {"manhattan", "linear", true, true}} {
					for _, kind := range []int{1, 2, 5} {
						for _, k := range []int{1, 5} {
							if !c.Mine() {
								continue
							}
							c.Case("%d rows to label by %d rows of %d features, %v, k=%d, %s", nq, n, dim, cf, k, kindNames[kind])
							c.State(c.CurCase())
							build := func(pts [][]float64, salt int) *Tab {
								defs := []AD{}
								for j := 0; j < dim; j++ {
									defs = append(defs, AD{'F', fmt.Sprint("x", j), nil})
								}
								t := mkTab(append(defs, AD{'C', "k", []string{"u", "v", "w", "x"}}), dim, nil)
								for i, p := range pts {
									row := []string{}
									for _, x := range p {
										row = append(row, fb(x))
									}
									t.V = append(t.V, append(row, ub(mix(uint64(i+salt))%4)))
								}
								return t
							}
							pts, qs := bigPoints(n, dim, ci%2*2), bigPoints(nq, dim, 2-ci%2*2)
							for i := range qs {
								qs[i][i%dim] += float64(i%7) * 0.13
							}
							t, q := build(pts, 1), build(qs, 2)
							failErr(c, short(try(func() error {
								g, _, _ := makeKind(kind, t)
								qg, _, _ := makeKind(kind, q)
								m := newKNN(cf.dist, cf.alg, k, cf.weighted, cf.opt)
								if err := m.Fit(g); err != nil {
									return err
								}
								p, err := m.Predict(qg)
								if err != nil {
									return err
								}
								cls := []string{}
								for i := range t.V {
									cls = append(cls, t.A[dim].GetStringFromSysVal([]byte(t.V[i][dim])))
								}
								ref := metricRef(cf.dist)
								d := make([]float64, n)
								for i := range qs {
									if i > 20 && i%16 != 0 && i != nq-1 && n > 100 {
										continue
									}
									for r := range pts {
										d[r] = ref(qs[i], pts[r])
									}
									if tiesAt(d, k) > 8 {
										continue
									}
									c.Trans(1)
									w := winners(d, cls, k, cf.weighted)
									if got := base.GetClass(p, i); !w[got] {
										return fmt.Errorf("row %d predicted as %q, the votes allow %v", i, got, w)
									}
								}
								return nil
							})))
							c.Trace()
						}
					}
				}
			}
		}
	}
}

// c38precise: models whose thresholds and rows differ in the last digits only.
func c38precise(c *eng.Ctx) {
	path := filepath.Join(c.Scratch, "c38p.cls")
	defer os.Remove(path)
	for _, s := range savables() {
		if s.data != 'M' && (s.data != 'N' || s.group != "knn" && s.group != "bag") {
			continue
		}
		for _, at := range []float64{0, 1, 1.0 / 3, -1e9 / 7, 1e-300, 1e300, 123456789.123456789} {
			for step := 0; step < 3; step++ {
				for n := 2; n <= 6; n += 2 {
					if !c.Mine() || s.name == "knn-cosine-linear-2" && at == 0 {
						continue
					}
					vals := []float64{at}
					for i := 1; i < n; i++ {
						last := vals[len(vals)-1]
						x := last
						switch step {
						case 0:
							x = math.Nextafter(x, math.Inf(1))
						case 1:
							x += math.Abs(at)*1e-12 + 1e-300
						case 2:
							x += math.Abs(at) * 1e-7 / 3
						}
						if x > last {
							vals = append(vals, x)
						}
					}
					qs := append([]float64{}, vals...)
					for i := 1; i < len(vals); i++ {
						m := vals[i-1]/2 + vals[i]/2
						qs = append(qs, m, math.Nextafter(m, math.Inf(1)), math.Nextafter(m, math.Inf(-1)))
					}
					defs := fleetDefs(s.data)
					build := func(xs []float64) *Tab {
						t := mkTab(defs, len(defs)-1, nil)
						for i, x := range xs {
							row := []string{}
							for j, d := range defs {
								switch {
								case d.Kind == 'F' && j == 0, d.Kind == 'F' && s.data == 'M':
									row = append(row, fb(x))
								case d.Kind == 'F':
									row = append(row, fb(at))
								case d.Kind == 'B':
									row = append(row, "\x01")
								case j == len(defs)-1:
									row = append(row, ub(uint64(i%3)))
								default:
									row = append(row, ub(0))
								}
							}
							t.V = append(t.V, row)
						}
						return t
					}
					c.Case("%s trained on %v", s.name, vals)
					c.State(c.CurCase())
					if len(vals) < s.nfit {
						continue
					}
					failErr(c, short(try(func() error { return c38one(c, path, s, buildDense(build(vals), 0), build(qs), s.make) })))
				}
			}
		}
	}
}

// c34rare: a single row which differs from many others can be drawn.
func c34rare(c *eng.Ctx) {
	for _, n := range []int{2, 17, 130, 300, c.Pick(600, 1100)} {
		for _, at := range []int{0, 1, 15, 16, 127, 128, 255, 256, n / 2, n - 2, n - 1} {
			if at >= n || at < 0 || !c.Mine() {
				continue
			}
			c.Case("row %d of %d differs", at, n)
			c.State(c.CurCase())
			failErr(c, try(func() error {
				x, y := make([][]float64, n), make([]float64, n)
				for i := range x {
					x[i] = []float64{1, 2}
				}
				x[at] = []float64{5, 2}
				t := cartTab(x, y, 0)
				rand.Seed(1)
				f := trees.NewIsolationForest(1, 20, 12*n)
				f.Fit(buildDense(t, 0))
				s := f.Predict(buildDense(t, 0))
				for i := range s {
					if i != at && s[i] != s[at] {
						return nil
					}
				}
				return fmt.Errorf("it is scored like the others (%v) by a sample of %d rows", s[at], 12*n)
			}))
			c.Trans(n)
			c.Trace()
		}
	}
}
