package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"gonum.org/v1/gonum/mathext"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C19", Run: runC19,
		Rule:   "equal-width binning: every vector of up to n values over an alphabet (negative, tiny, equal, far apart), every number of bins, every kind of grid, one or two filtered columns; ChiMerge: every multiset of up to n (value, class) rows over five values and one to three classes, several significance levels and row limits, against all outcomes of a reference merge (ties may merge in any number); the trained filter is applied to the training grid and to another grid of points between, below and above; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two distinct values",
		Assume: []string{"the largest training value is binned into a last category of its own (as the library's reference data has it)", "a chi-squared percentile within 0.002 of the significance may merge or not", "values less than 0.0002 widths below a bin may be put into it"}})
}

func runC19(c *eng.Ctx) {
	c19bins(c)
	c19chi(c)
	c.Sample("values 0:a 0:b 2:a 30:b 30:b, significance 0.9: first and second interval merge while the statistic is insignificant")
	c19large(c)
	c19wide(c)
}

// cats reads the categories of one column, by row.
func cats(g base.FixedDataGrid, name string) (idx []int, text []string, all []string, err error) {
	var at *base.CategoricalAttribute
	for _, a := range g.AllAttributes() {
		if a.GetName() == name {
			x, ok := a.(*base.CategoricalAttribute)
			if !ok {
				return nil, nil, nil, fmt.Errorf("%s is %v", name, a)
			}
			at = x
		}
	}
	if at == nil {
		return nil, nil, nil, fmt.Errorf("no column %s", name)
	}
	all = at.GetValues()
	sp, err := g.GetAttribute(at)
	if err != nil {
		return
	}
	_, rows := g.Size()
	for i := 0; i < rows; i++ {
		b := g.Get(sp, i)
		v := int(base.UnpackBytesToU64(b))
		if v < 0 || v >= len(all) {
			return nil, nil, nil, fmt.Errorf("row %d has category %d of %q", i, v, all)
		}
		idx = append(idx, v)
		text = append(text, at.GetStringFromSysVal(b))
	}
	err = g.MapOverRows([]base.AttributeSpec{sp}, func(r [][]byte, i int) (bool, error) {
		if int(base.UnpackBytesToU64(r[0])) != idx[i] {
			return false, fmt.Errorf("row %d iterates as category %d, reads as %d", i, base.UnpackBytesToU64(r[0]), idx[i])
		}
		return true, nil
	})
	return
}

// others checks that the columns which aren't discretised keep their cells.
func others(g base.FixedDataGrid, w *Tab, filtered map[int]bool) error {
	for j, a := range w.A {
		if filtered[j] {
			continue
		}
		sp, err := g.GetAttribute(a)
		if err != nil {
			return err
		}
		for i := range w.V {
			if string(g.Get(sp, i)) != w.V[i][j] {
				return fmt.Errorf("cell %d of unfiltered column %s changed", i, a.GetName())
			}
		}
	}
	cls := []string{}
	for _, a := range g.AllClassAttributes() {
		cls = append(cls, a.GetName())
	}
	want := []string{}
	for j, a := range w.A {
		if w.Class[j] {
			want = append(want, a.GetName())
		}
	}
	if !same(cls, want) {
		return fmt.Errorf("class attributes %v, want %v", cls, want)
	}
	return nil
}

func c19bins(c *eng.Ctx) {
	alpha := []float64{-2, 0, 0.001, 1, 1.5, 7}
	query := []float64{-50, -2, -1, 0, 0.0005, 0.4, 1.25, 3, 6.9, 7, 8, 1e6}
	K := AD{'C', "k", []string{"u", "v"}}
	for _, two := range []bool{false, true} {
		defs := []AD{{'F', "x", nil}, {'F', "y", nil}, K}
		for n := 1; n <= c.Pick(4, 5); n++ {
			tuples(power(len(alpha), n), func(ix []int) {
				if !c.Mine() {
					return
				}
				t := mkTab(defs, 2, nil)
				vals := [2][]float64{}
				sum := 0
				for i, v := range ix {
					sum += v
					x, y := alpha[v], alpha[(2*v+i+1)%len(alpha)]*0.5-1
					vals[0] = append(vals[0], x)
					vals[1] = append(vals[1], y)
					t.V = append(t.V, []string{fb(x), fb(y), ub(uint64(i % 2))})
				}
				q := mkTab(defs, 2, nil)
				for i, v := range query {
					q.V = append(q.V, []string{fb(v), fb(v / 2), ub(uint64(i % 2))})
				}
				c.Case("bins of %v two=%v", vals[0], two)
				c.State(t.String())
				for _, bins := range []int{1, 2, 3, 4, 10} {
					kinds := []int{(sum + bins) % numKinds}
					if n <= 2 {
						kinds = seq(numKinds)
					}
					for _, kind := range kinds {
						g, w, _ := makeKind(kind, t)
						if g == nil {
							g, w, kind = buildDense(t, 0), t, 0
						}
						failErr(c, try(func() error {
							f := filters.NewBinningFilter(g, bins)
							filtered := map[int]bool{0: true}
							if err := f.AddAttribute(w.A[0]); err != nil {
								return err
							}
							if two {
								filtered[1] = true
								if err := f.AddAttribute(w.A[1]); err != nil {
									return err
								}
							}
							if err := f.AddAttribute(w.A[2]); err == nil {
								return fmt.Errorf("a categorical column may be binned")
							}
							if err := f.AddAttribute(base.NewFloatAttribute("absent")); err == nil {
								return fmt.Errorf("an absent column may be binned")
							}
							if err := f.Train(); err != nil {
								return err
							}
							lg := base.NewLazilyFilteredInstances(g, f)
							if err := others(lg, w, filtered); err != nil {
								return err
							}
							ql := base.NewLazilyFilteredInstances(buildDense(q, 0), f)
							for col := 0; col < 2; col++ {
								if !filtered[col] {
									continue
								}
								lo, hi := math.Inf(1), math.Inf(-1)
								for _, v := range vals[col] {
									lo, hi = math.Min(lo, v), math.Max(hi, v)
								}
								if lo < hi {
									c.Trace()
								}
								check := func(what string, grid base.FixedDataGrid, vs []float64) error {
									idx, _, all, err := cats(grid, defs[col].Name)
									if err != nil {
										return fmt.Errorf("%s: %v", what, err)
									}
									if lo < hi && len(all) != bins+1 {
										return fmt.Errorf("%d bins give the categories %q", bins, all)
									}
									for i, v := range vs {
										c.Trans(1)
										if v >= hi && lo == hi {
											if v == hi && idx[i] != 0 {
												return fmt.Errorf("%s: the only value %v has category %d", what, v, idx[i])
											}
											continue
										}
										want := 0
										switch {
										case v <= lo:
										case v >= hi:
											want = bins
										default:
											p := (v - lo) * float64(bins) / (hi - lo)
											want = int(math.Floor(p))
											if r := p - math.Floor(p); r > 1-2e-4 && idx[i] == want+1 {
												want++
											}
										}
										c.Outcome(fmt.Sprint(want, bins))
										if idx[i] != want {
											return fmt.Errorf("%s in %s, %d bins of [%v,%v]: %v is in category %d, want %d", what, kindNames[kind], bins, lo, hi, v, idx[i], want)
										}
										for j := range vs {
											if vs[j] < v && idx[j] > idx[i] {
												return fmt.Errorf("%s: %v is in a higher category than %v", what, vs[j], v)
											}
										}
									}
									return nil
								}
								if err := check("training", lg, vals[col]); err != nil {
									return err
								}
								qv := query
								if col == 1 {
									qv = nil
									for _, v := range query {
										qv = append(qv, v/2)
									}
								}
								if kind != 8 {
									if err := check("another grid", ql, qv); err != nil {
										return err
									}
								}
							}
							return sameTab(g, w)
						}))
					}
				}
			})
		}
	}
}

type chiEntry struct {
	lower float64
	n     []int
}

func (e *chiEntry) add(k, by int) {
	for len(e.n) <= k {
		e.n = append(e.n, 0)
	}
	e.n[k] += by
}

func (e chiEntry) at(k int) int {
	if k < len(e.n) {
		return e.n[k]
	}
	return 0
}

func chiStat(a, b chiEntry) float64 {
	ta, tb := 0, 0
	n := len(a.n)
	if len(b.n) > n {
		n = len(b.n)
	}
	for k := 0; k < n; k++ {
		ta += a.at(k)
		tb += b.at(k)
	}
	s := 0.0
	for k := 0; k < n; k++ {
		cl := a.at(k) + b.at(k)
		if cl == 0 {
			continue
		}
		for _, e := range []struct{ o, t int }{{a.at(k), ta}, {b.at(k), tb}} {
			ex := float64(cl) * float64(e.t) / float64(ta+tb)
			s += (float64(e.o) - ex) * (float64(e.o) - ex) / math.Max(ex, 0.5)
		}
	}
	return s
}

// chiOutcomes are all interval boundaries ChiMerge may end with.
func chiOutcomes(f []chiEntry, classes int, sig float64, min, max int) map[string][]float64 {
	out := map[string][]float64{}
	seen := map[string]bool{}
	key := func(f []chiEntry) (string, []float64) {
		l := []float64{}
		for _, e := range f {
			l = append(l, e.lower)
		}
		return fmt.Sprint(l), l
	}
	var run func(f []chiEntry)
	run = func(f []chiEntry) {
		k, l := key(f)
		if seen[k] {
			return
		}
		seen[k] = true
		if len(f) <= min {
			out[k] = l
			return
		}
		st := []float64{}
		low := math.Inf(1)
		for i := 0; i+1 < len(f); i++ {
			st = append(st, chiStat(f[i], f[i+1]))
			low = math.Min(low, st[i])
		}
		p := 0.0
		if classes > 1 && low > 0 {
			p = mathext.GammaIncReg(float64(classes-1)/2, low/2)
		}
		if len(f) <= max {
			if p > sig-2e-3 {
				out[k] = l
			}
			if p > sig+2e-3 {
				return
			}
		}
		ties := []int{}
		for i, s := range st {
			if s-low < 1e-9 {
				ties = append(ties, i)
			}
		}
		for m := 1; m < 1<<uint(len(ties)); m++ {
			join := map[int]bool{}
			for b, i := range ties {
				if m>>uint(b)&1 == 1 {
					join[i+1] = true
				}
			}
			nf := []chiEntry{}
			for i, e := range f {
				if join[i] {
					for k := range e.n {
						nf[len(nf)-1].add(k, e.n[k])
					}
				} else {
					nf = append(nf, chiEntry{e.lower, append([]int{}, e.n...)})
				}
			}
			run(nf)
		}
	}
	run(f)
	return out
}

func c19chi(c *eng.Ctx) {
	alpha := []float64{-1.5, 0, 1e-7, 2, 30}
	query := []float64{-99, -1.5, -1, 0, 5e-8, 1e-7, 1, 2, 2.5, 30, 31, 1e9}
	for classes := 1; classes <= 3; classes++ {
		K := AD{'C', "k", []string{"u", "v", "w"}}
		defs := []AD{K, {'F', "x", nil}, {'F', "y", nil}}
		for n := 1; n <= c.Pick([]int{0, 7, 6, 5}[classes], []int{0, 8, 7, 6}[classes]); n++ {
			multisets(len(alpha)*classes, n, func(ix []int) {
				if !c.Mine() {
					return
				}
				t := mkTab(defs, 0, nil)
				vals := []float64{}
				freq := map[float64]*chiEntry{}
				sum := 0
				for k := range ix {
					v := ix[(k*3+1)%n] // some order of the rows
					if n%3 == 0 {
						v = ix[n-1-k]
					}
					sum += v * (k + 1)
					x := alpha[v/classes]
					vals = append(vals, x)
					if freq[x] == nil {
						freq[x] = &chiEntry{lower: x}
					}
					freq[x].add(v%classes, 1)
					t.V = append(t.V, []string{ub(uint64(v % classes)), fb(x), fb(float64(k))})
				}
				fs := []chiEntry{}
				for _, e := range freq {
					fs = append(fs, *e)
				}
				sort.Slice(fs, func(i, j int) bool { return fs[i].lower < fs[j].lower })
				seen := map[int]bool{}
				for _, e := range fs {
					for k, v := range e.n {
						if v > 0 {
							seen[k] = true
						}
					}
				}
				if len(fs) > 1 {
					c.Trace()
				}
				q := mkTab(defs, 0, nil)
				for i, v := range query {
					q.V = append(q.V, []string{ub(uint64(i % classes)), fb(v), fb(0)})
				}
				c.Case("ChiMerge of %v (value*%d+class)", ix, classes)
				c.State(t.String())
				for si, sig := range []float64{0.9, 0.5, 0.99} {
					min, max := 2, n
					if si > 0 && sum%3 == 0 {
						min, max = 3, 4
					} else if si > 0 && sum%3 == 1 {
						min, max = 2, 3
					}
					kind := (sum + si) % numKinds
					g, w, _ := makeKind(kind, t)
					if g == nil {
						g, w, kind = buildDense(t, 0), t, 0
					}
					if max <= min {
						max = min + 1
					}
					want := chiOutcomes(fs, len(seen), sig, min, max)
					failErr(c, try(func() error {
						f := filters.NewChiMergeFilter(g, sig)
						if si > 0 {
							f.MinRows, f.MaxRows = min, max
						}
						if err := f.AddAttribute(w.A[1]); err != nil {
							return err
						}
						if err := f.AddAttribute(w.A[0]); err == nil {
							return fmt.Errorf("a categorical column may be discretised")
						}
						if err := f.Train(); err != nil {
							return err
						}
						lg := base.NewLazilyFilteredInstances(g, f)
						if err := others(lg, w, map[int]bool{1: true}); err != nil {
							return err
						}
						idx, text, all, err := cats(lg, "x")
						if err != nil {
							return err
						}
						// the categories seen in training tell the intervals
						lower := map[int]float64{}
						name := map[int]string{}
						for i, v := range vals {
							if l, ok := lower[idx[i]]; !ok || v < l {
								lower[idx[i]] = v
							}
							if s, ok := name[idx[i]]; ok && s != text[i] {
								return fmt.Errorf("category %d is both %q and %q", idx[i], s, text[i])
							}
							name[idx[i]] = text[i]
						}
						got := []float64{}
						for i := 0; i < len(all); i++ {
							l, ok := lower[i]
							if !ok {
								return fmt.Errorf("no training value is in category %d of %q", i, all)
							}
							got = append(got, l)
						}
						c.Outcome(fmt.Sprint(got))
						if _, ok := want[fmt.Sprint(got)]; !ok {
							return fmt.Errorf("%s, significance %v, rows %d..%d: intervals from %v, want one of %v", kindNames[kind], sig, min, max, got, want)
						}
						place := func(v float64) int {
							k := 0
							for i, l := range got {
								if v >= l {
									k = i
								}
							}
							return k
						}
						for i, v := range vals {
							c.Trans(1)
							if idx[i] != place(v) {
								return fmt.Errorf("intervals from %v: %v is in category %d", got, v, idx[i])
							}
						}
						qi, _, _, err := cats(base.NewLazilyFilteredInstances(buildDense(q, 0), f), "x")
						if err != nil {
							return err
						}
						for i, v := range query {
							c.Trans(1)
							if qi[i] != place(v) {
								return fmt.Errorf("intervals from %v: %v of another grid is in category %d", got, v, qi[i])
							}
						}
						return sameTab(g, w)
					}))
				}
			})
		}
	}
}
