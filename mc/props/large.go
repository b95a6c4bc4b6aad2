package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

// Large structured inputs: sizes around the powers of two (and the sizes at
// which buffers grow), filled by fixed patterns which make every cell of a
// column (nearly) unique, so that any mix-up shows.

// bigTab has rows rows; every numeric cell is different, categories have
// cats values, bits follow no short period.
func bigTab(defs string, class, rows, cats int) *Tab {
	names := make([]string, cats)
	for i := range names {
		names[i] = fmt.Sprintf("v%d", i)
	}
	t := &Tab{}
	for j := range defs {
		t.A = append(t.A, AD{defs[j], fmt.Sprintf("a%d", j), names}.make())
		t.Class = append(t.Class, j == class)
	}
	for i := 0; i < rows; i++ {
		r := make([]string, len(defs))
		for j := range defs {
			h := mix(uint64(i*len(defs) + j))
			switch defs[j] {
			case 'F':
				r[j] = fb(float64(i*len(defs)+j) + 0.5)
			case 'C':
				// every category occurs if there are enough rows
				r[j] = ub(uint64((i*7 + j*3 + i/cats) % cats))
			case 'B':
				r[j] = string([]byte{byte(h >> 17 & 1)})
			}
		}
		t.V = append(t.V, r)
	}
	return t
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// cycle repeats the kinds up to n columns.
func cycle(kinds string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = kinds[i%len(kinds)]
	}
	return string(b)
}

// short keeps messages about large grids readable.
func short(err error) error {
	if err == nil {
		return nil
	}
	if s := err.Error(); len(s) > 600 {
		return fmt.Errorf("%s ... %s", s[:300], s[len(s)-300:])
	}
	return err
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// orders are rearrangements and selections of 0..n-1.
func orders(n int) [][]int {
	rev, even, twice, stride, last := []int{}, []int{}, []int{}, []int{}, []int{n - 1}
	k := 2*n/3 + 1
	for gcd(k, n) != 1 {
		k++
	}
	for i := 0; i < n; i++ {
		rev = append(rev, n-1-i)
		if i%2 == 0 {
			even = append(even, i)
		}
		twice = append(twice, i/2, n-1-i/3)
		stride = append(stride, i*k%n)
	}
	return [][]int{rev, even, twice, stride, last}
}

func c02large(c *eng.Ctx) {
	for _, n := range []int{17, 64, 65, 130, 300} {
		for _, m := range []int{2, 9, 17, 40, 70} {
			defs := cycle("FCBFB", m)
			src := bigTab(defs, m/2, n, 5)
			rs := []rowSel{{kind: "all"}}
			for _, o := range orders(n) {
				rs = append(rs, rowSel{kind: "vis", vis: o})
			}
			full, sparse, more := map[int]int{}, map[int]int{0: n - 1, n - 1: 3, n / 2: n / 2}, map[int]int{}
			for i := 0; i < n; i++ {
				full[i] = orders(n)[3][i]
				more[i], more[i+n] = n-1-i, i
			}
			pairs, one := []int{}, make([]int, n+3)
			for i := 0; i < n; i++ {
				pairs = append(pairs, i, i)
				if i%5 == 0 {
					pairs = append(pairs, i)
				}
			}
			for i := range one {
				one[i] = n / 3
			}
			rs = append(rs, rowSel{kind: "vis", vis: pairs}, rowSel{kind: "vis", vis: one})
			rs = append(rs, rowSel{kind: "map", m: full}, rowSel{kind: "map", m: sparse}, rowSel{kind: "map", m: more})
			cs := append([][]int{nil}, orders(m)...)
			cs = append(cs[:3], cs[4:]...) // no column twice
			for ri, r := range rs {
				for ci, cl := range cs {
					if (ri+ci+n)%3 != 0 && !c.Thorough() && m > 17 {
						continue
					}
					if !c.Mine() {
						continue
					}
					c.Case("large source rows=%d columns=%d row selection %d (%s) column selection %d", n, m, ri, r.kind, ci)
					c.State(c.CurCase())
					err := try(func() error {
						d := buildDense(src, ri%3)
						v, want := applySel(d, src, r, cl)
						if err := checkView(v, want, cl != nil || r.kind == "vis"); err != nil {
							return err
						}
						// a view of it, and a write to the source seen through both
						o := orders(want.rows())[(ri+ci)%4]
						v2, want2 := applySel(v, want, rowSel{kind: "vis", vis: o}, nil)
						if err := checkView(v2, want2, false); err != nil {
							return fmt.Errorf("view of the view: %v", err)
						}
						cur := src.clone()
						for _, i := range []int{0, n / 2, n - 1} {
							for _, j := range []int{0, m / 2, m - 1} {
								s, err := d.GetAttribute(src.A[j])
								if err != nil {
									return err
								}
								nv := flipVal(src.A[j], cur.V[i][j])
								d.Set(s, i, []byte(nv))
								cur.V[i][j] = nv
							}
						}
						cols := cl
						if cols == nil {
							cols = seq(m)
						}
						want = cur.selectRC(r.resolve(n), cols)
						if err := sameTab(v, want); err != nil {
							return fmt.Errorf("after writes: %v", err)
						}
						if err := sameTab(v2, want.selectRC(o, seq(len(cols)))); err != nil {
							return fmt.Errorf("view of the view after writes: %v", err)
						}
						return nil
					})
					if !failErr(c, short(err)) {
						c.Trace()
					}
					c.Trans(n * m)
				}
			}
		}
	}
}

func c03large(c *eng.Ctx) {
	stop := fmt.Errorf("stop here")
	for _, n := range []int{17, 65, 300, 1025} {
		for _, m := range []int{2, 9, 33} {
			t := bigTab(cycle("FBCBB", m), 0, n, 5)
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				for ci, ix := range append(orders(m), seq(m), []int{m - 1, 0, m - 1, 1}) {
					for _, st := range []int{-1, 0, n / 2, n - 1} {
						for how := 0; how < 3; how++ {
							if st < 0 && how > 0 {
								break
							}
							c.Case("large %s rows=%d columns=%d request %d stop=%d how=%d", kindNames[k], n, m, ci, st, how)
							if g, _, _ := makeKind(k, t); g == nil {
								continue
							}
							c.State(c.CurCase())
							if !failErr(c, short(try(func() error { return c03opt(c, eng.Opt{MaxExec: 1}, k, t, ix, st, how, stop) }))) {
								c.Trace()
							}
							c.Trans(n)
						}
					}
				}
			}
		}
	}
}

func c04large(c *eng.Ctx) {
	for _, s := range []struct {
		m, n int
		cyc  string
	}{{3, 130, "FCB"}, {9, 65, "BFBC"}, {17, 17, "FCB"}, {34, 3, "FB"}, {2, 600, "FC"}} {
		sc := cycle(s.cyc, s.m)
		for _, class := range []int{-1, 0, s.m - 1} {
			for _, mask := range []int{0, 1, 1<<s.m - 1, 0x2aaaaaaaa & (1<<s.m - 1), 1 << (s.m - 1)} {
				for fk := 0; fk < 8; fk++ {
					if !c.Mine() {
						continue
					}
					c.Case("large schema=%s class=%d rows=%d filtered=%b filter=%d", sc, class, s.n, mask, fk)
					failErr(c, short(try(func() error { return c04one(c, sc, class, s.n, mask, fk) })))
				}
			}
		}
	}
}

func c05large(c *eng.Ctx) {
	for _, s := range []struct {
		n, m int
	}{{17, 3}, {65, 3}, {12, 20}, {3, 70}, {130, 1}, {c.Pick(130, 513), 2}} {
		for _, cyc := range []string{"FCB", "BBF"} {
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				t := bigTab(cycle(cyc, s.m), s.m-1, s.n, 3)
				c.Case("large %s rows=%d columns=%d of %s", kindNames[k], s.n, s.m, cyc)
				if !failErr(c, short(try(func() error { return c05one(c, k, t) }))) {
					c.Trace()
					c.State(c.CurCase())
				}
			}
		}
	}
}

// c06large: large grids that differ in one cell, one name, one category or the order of rows.
func c06large(c *eng.Ctx) {
	for _, n := range []int{1, 17, 65, 300} {
		for _, m := range []int{1, 2, 9, 40} {
			t := bigTab(cycle("FCB", m), m-1, n, 5)
			vars := []*Tab{t}
			names := []string{"equal"}
			add := func(name string, v *Tab) { vars, names = append(vars, v), append(names, name) }
			for _, i := range []int{0, n / 2, n - 1} {
				for _, j := range []int{0, m / 2, m - 1} {
					v := t.clone()
					v.V[i][j] = flipVal(t.A[j], t.V[i][j])
					add(fmt.Sprintf("cell %d,%d", i, j), v)
				}
			}
			add("reversed rows", t.selectRC(orders(n)[0], seq(m)))
			add("reversed columns", reverseCols(t))
			add("one row less", t.selectRC(seq(n-1), seq(m)))
			if m > 1 {
				add("one column less", t.selectRC(seq(n), seq(m-1)))
			}
			for _, j := range []int{0, m - 1} {
				v := t.clone()
				a := equalAttr(v.A[j])
				a.SetName("other")
				v.A[j] = a
				add(fmt.Sprintf("name %d", j), v)
			}
			if m > 1 {
				v := t.clone()
				a := equalAttr(v.A[1])
				a.GetSysValFromString("one more")
				v.A[1] = a
				add("longer category list", v)
			}
			for vi := range vars {
				for k := 0; k < numKinds; k++ {
					if !c.Mine() {
						continue
					}
					c.Case("large rows=%d columns=%d variant %q seen through %s", n, m, names[vi], kindNames[k])
					g, w, _ := makeKind(k, vars[vi])
					if g == nil {
						continue
					}
					c.State(c.CurCase())
					for _, k0 := range []int{0, 5} {
						h, hw, _ := makeKind(k0, t)
						err := try(func() error {
							want := eqModel(w, hw)
							if x, y := base.InstancesAreEqual(g, h), base.InstancesAreEqual(h, g); x != want || y != want {
								return fmt.Errorf("InstancesAreEqual = %v, reversed %v, want %v", x, y, want)
							}
							cm := compatModel(w, hw)
							if x := base.CheckCompatible(g, h); (x != nil) != cm || cm && len(x) != m {
								return fmt.Errorf("CheckCompatible gives %d attributes, want compatible = %v", len(x), cm)
							}
							cm = compatModel(hw, w)
							if x := base.CheckCompatible(h, g); (x != nil) != cm {
								return fmt.Errorf("reversed CheckCompatible gives %d attributes, want compatible = %v", len(x), cm)
							}
							st := strictModel(g, h)
							if x, y := base.CheckStrictlyCompatible(g, h), base.CheckStrictlyCompatible(h, g); x != st || y != st {
								return fmt.Errorf("CheckStrictlyCompatible = %v, reversed %v, want %v", x, y, st)
							}
							return nil
						})
						if !failErr(c, short(err)) {
							c.Trace()
						}
						c.Trans(7)
					}
				}
			}
		}
	}
}

// c07large: categories with indices of more than one byte, more rows.
func c07large(c *eng.Ctx) {
	for _, n := range []int{300, 700, c.Pick(1100, 5000)} {
		for _, cats := range []int{3, 300, 70000} {
			if cats > 300 && n > 300 {
				continue
			}
			t := bigTab("FCBF", 1, n, cats)
			for i := range t.V {
				h := mix(uint64(i))
				t.V[i][0] = fb(float64(int64(h%7)-3) / 2)
				if cats > 255 {
					t.V[i][1] = ub(h >> 20 % uint64(cats))
				}
			}
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				for _, cols := range [][]int{{1}, {0, 1}, {1, 0}, {2, 1, 0}, {0, 2, 1, 3}} {
					for _, desc := range []bool{false, true} {
						c.Case("large sort of %s n=%d categories=%d columns=%v descending=%v", kindNames[k], n, cats, cols, desc)
						g, w, store := makeKind(k, t)
						if g == nil {
							continue
						}
						dir := base.Ascending
						if desc {
							dir = base.Descending
						}
						as := []base.Attribute{}
						for _, j := range cols {
							as = append(as, w.A[j])
						}
						c.State(c.CurCase())
						err := try(func() error {
							l, err := base.LazySort(g, dir, base.ResolveAttributes(g, as))
							if err != nil {
								return err
							}
							if err := sortedBy(l, w, cols, desc); err != nil {
								return fmt.Errorf("lazy: %v", err)
							}
							if err := sameTab(g, w); err != nil {
								return fmt.Errorf("the lazy sort changed its source: %v", err)
							}
							if g != store {
								return nil
							}
							u := g.(base.UpdatableDataGrid)
							o, err := base.Sort(u, dir, base.ResolveAttributes(u, as))
							if err != nil {
								return err
							}
							if err := sortedBy(o, w, cols, desc); err != nil {
								return fmt.Errorf("in place: %v", err)
							}
							return nil
						})
						if !failErr(c, short(err)) {
							c.Trace()
						}
						c.Trans(n)
					}
				}
			}
		}
	}
}

func c08large(c *eng.Ctx) {
	for _, n := range []int{9, 17, 65, 300} {
		t := bigTab("FBC", 2, n, n)
		for k := 0; k < numKinds; k++ {
			for op := 0; op < 4; op++ {
				for _, sz := range [][]int{{0}, {0}, {0, 37, 100}, {0, 1, n - 1, n, 2*n + 1}}[op] {
					if !c.Mine() {
						continue
					}
					if g, _, _ := makeKind(k, t); g == nil {
						continue
					}
					c08opt(c, &eng.Opt{MaxExec: 12, MaxPoints: 3, IntDom: func(m int) []int {
						if m < 3 {
							return seq(m)
						}
						return []int{0, m / 2, m - 1}
					}}, t, k, op, sz, true)
				}
			}
		}
	}
}

func c09large(c *eng.Ctx) {
	for _, s := range []struct {
		n, m, cats, class int
		cyc               string
	}{{17, 3, 3, 1, "FCB"}, {65, 3, 20, 1, "FCB"}, {300, 3, 300, 1, "BCF"}, {300, 4, 2, 2, "CFBF"}, {40, 17, 4, 3, "CFBF"}, {40, 9, 12, 0, "CFB"}, {600, 2, 290, 1, "CC"}} {
		for k := 0; k < numKinds; k++ {
			if !c.Mine() {
				continue
			}
			t := bigTab(cycle(s.cyc, s.m), s.class, s.n, s.cats)
			for i := range t.V {
				for j := range t.A {
					if _, ok := t.A[j].(*base.FloatAttribute); ok {
						t.V[i][j] = fb(math.Floor(float64(mix(uint64(i*s.m+j))%40)/4)/2 - 2)
					}
				}
			}
			g, w, _ := makeKind(k, t)
			c.Case("large %s rows=%d columns=%d categories=%d", kindNames[k], s.n, s.m, s.cats)
			if g == nil {
				continue
			}
			c.State(c.CurCase())
			if !failErr(c, short(try(func() error { return c09one(c, g, w, s.class) }))) {
				c.Trace()
			}
		}
	}
}

func c10large(c *eng.Ctx) {
	for _, n := range []int{17, 64, 130, 257, c.Pick(300, 700)} {
		for pat := 0; pat < 4; pat++ {
			if !c.Mine() {
				continue
			}
			texts := make([]string, n)
			ops := []int{}
			for i := range texts {
				texts[i] = []string{fmt.Sprint(i), fmt.Sprintf("%d.%d", i, mix(uint64(i))%97), fmt.Sprintf("é%x", i*i), fmt.Sprintf("%*d", i%9, i)}[pat]
			}
			for i := range texts {
				ops = append(ops, int(mix(uint64(i))%uint64(n)))
				if i%41 == 40 {
					ops = append(ops, n) // through JSON
				}
			}
			ops = append(ops, n)
			ops = append(ops, orders(n)[pat]...)
			c.Case("large: %d texts like %q", n, texts[n-1])
			if !failErr(c, short(try(func() error { return c10cat(c, texts, ops) }))) {
				c.Trace()
			}
		}
	}
}
