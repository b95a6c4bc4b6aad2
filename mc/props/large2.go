package props

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/utilities"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

// c17large: many keys in one file, long values, long keys.
func c17large(c *eng.Ctx) {
	vals := c17values(false)
	for _, n := range []int{9, 40, 120} {
		for pat := 0; pat < 4; pat++ {
			if !c.Mine() {
				continue
			}
			c.Case("large: %d keys, pattern %d", n, pat)
			c.State(c.CurCase())
			path := filepath.Join(c.Scratch, "c17l.cls")
			err := try(func() error {
				defer os.Remove(path)
				md := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "T", ClassifierVersion: "1.0", ClassifierMetadata: map[string]interface{}{"n": float64(n)}}
				s, err := base.CreateSerializedClassifierStub(path, md)
				if err != nil {
					return err
				}
				key := func(i int) string {
					switch pat {
					case 1:
						return strings.Repeat("k", i+1) // every key is a prefix of the next
					case 2:
						return strings.Repeat("d/", i%50) + fmt.Sprint(i)
					case 3:
						return fmt.Sprintf("%d%s", i, strings.Repeat("ä", 3*i))
					}
					return fmt.Sprint(i)
				}
				long := make([]string, n)
				for i := 0; i < n; i++ {
					if i%5 == 4 {
						b := make([]byte, 1<<uint(i%19)-i%3*(i%19/2))
						for k := range b {
							b[k] = byte(mix(uint64(i + k)))
						}
						long[i] = string(b)
						err = s.WriteBytesForKey(key(i), b)
					} else {
						err = vals[(i*7+pat)%len(vals)].write(s, key(i))
					}
					if err != nil {
						return fmt.Errorf("storing value %d: %v", i, err)
					}
				}
				if err := s.Close(); err != nil {
					return err
				}
				d, err := base.ReadSerializedClassifierStub(path)
				if err != nil {
					return err
				}
				defer d.Close()
				if d.Metadata.ClassifierMetadata["n"] != float64(n) {
					return fmt.Errorf("metadata %v", d.Metadata)
				}
				for _, i := range append(orders(n)[3], orders(n)[0]...) {
					c.Trans(1)
					if i%5 == 4 {
						b, err := d.GetBytesForKey(key(i))
						if err != nil || string(b) != long[i] {
							return fmt.Errorf("%d bytes under key %d came back as %d (%v)", len(long[i]), i, len(b), err)
						}
					} else if err := vals[(i*7+pat)%len(vals)].read(d, key(i)); err != nil {
						return fmt.Errorf("value %d: %v", i, err)
					}
				}
				for _, k := range []string{key(n), key(n) + "x", ""} {
					if _, err := d.GetBytesForKey(k); err == nil {
						return fmt.Errorf("reading missing key %.40q is no error", k)
					}
				}
				return nil
			})
			if !failErr(c, short(err)) {
				c.Trace()
			}
		}
	}
}

func c18large(c *eng.Ctx) {
	for _, s := range [][2]int{{1, 70}, {17, 9}, {65, 2}, {130, 17}, {513, 3}, {1025, 1}} {
		n, m := s[0], s[1]
		for k := 0; k < numKinds; k++ {
			if !c.Mine() {
				continue
			}
			t := bigTab(cycle("F", m), m-1, n, 3)
			c.Case("large conversion of %s rows=%d columns=%d", kindNames[k], n, m)
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				for _, ix := range append(orders(m), seq(m)) {
					attrs := []base.Attribute{}
					for _, j := range ix {
						attrs = append(attrs, w.A[j])
					}
					all, err := base.ConvertAllRowsToMat64(attrs, g)
					if err != nil || len(all) != n {
						return fmt.Errorf("%d rows of %d (%v)", len(all), n, err)
					}
					for i := 0; i < n; i++ {
						one, err := base.ConvertRowToMat64(attrs, g, i)
						if err != nil {
							return err
						}
						for _, x := range []*mat.Dense{all[i], one} {
							if a, b := x.Dims(); a != 1 || b != len(ix) {
								return fmt.Errorf("row %d is %dx%d", i, a, b)
							}
							for p, j := range ix {
								c.Trans(1)
								if !bitsEq(x.At(0, p), num(w.A[j], w.V[i][j])) {
									return fmt.Errorf("row %d column %d is %v", i, j, x.At(0, p))
								}
							}
						}
					}
				}
				c.Trace()
				return nil
			})))
			// a matrix as a grid, followed by writes to the matrix
			if k == 8 {
				failErr(c, short(try(func() error {
					whole := mat.NewDense(n+2, m+3, nil)
					data := whole.Slice(1, n+1, 2, m+2).(*mat.Dense)
					g := base.InstancesFromMat64(n, m, data)
					for round := 0; round < 2; round++ {
						v := &Tab{A: w.A, Class: make([]bool, m)}
						for i := 0; i < n; i++ {
							row := []string{}
							for j := 0; j < m; j++ {
								f := float64(mix(uint64(i*m+j+round)) % 100000)
								data.Set(i, j, f)
								row = append(row, fb(f))
							}
							v.V = append(v.V, row)
						}
						if err := sameTab(g, v); err != nil {
							return err
						}
					}
					return nil
				})))
			}
		}
		// data frames
		if !c.Mine() {
			continue
		}
		for cls := 0; cls < m; cls += 1 + m/3 {
			c.Case("large frame rows=%d columns=%d class=%d", n, m, cls)
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				se := []dataframe.Series{}
				cell := func(i, j int) interface{} {
					h := mix(uint64(i*m + j))
					if h%11 == 0 && j%3 != 2 {
						return nil
					}
					switch j % 3 {
					case 0:
						return float64(i*m+j) + 0.25
					case 1:
						return int64(h>>20) - 1<<40
					}
					return fmt.Sprintf("t%d", h>>40%uint64(1+j*40))
				}
				for j := 0; j < m; j++ {
					vs := []interface{}{}
					for i := 0; i < n; i++ {
						vs = append(vs, cell(i, j))
					}
					name := fmt.Sprintf("c%d", m-j)
					switch j % 3 {
					case 0:
						se = append(se, dataframe.NewSeriesFloat64(name, nil, vs...))
					case 1:
						se = append(se, dataframe.NewSeriesInt64(name, nil, vs...))
					default:
						se = append(se, dataframe.NewSeriesString(name, nil, vs...))
					}
				}
				g := base.ConvertDataFrameToInstances(dataframe.NewDataFrame(se...), cls)
				if a, b := g.Size(); a != m || b != n {
					return fmt.Errorf("size %dx%d, want %dx%d", a, b, m, n)
				}
				if ca := g.AllClassAttributes(); len(ca) != 1 || ca[0].GetName() != se[cls].Name() {
					return fmt.Errorf("class %v, want column %d", ca, cls)
				}
				for j := 0; j < m; j++ {
					at := base.GetAttributeByName(g, se[j].Name())
					if at == nil {
						return fmt.Errorf("no attribute %s", se[j].Name())
					}
					sp, err := g.GetAttribute(at)
					if err != nil {
						return err
					}
					for i := 0; i < n; i++ {
						c.Trans(1)
						b := g.Get(sp, i)
						switch x := cell(i, j).(type) {
						case nil:
							if !math.IsNaN(base.UnpackBytesToFloat(b)) {
								return fmt.Errorf("row %d column %d is not missing", i, j)
							}
						case float64:
							if !bitsEq(x, base.UnpackBytesToFloat(b)) {
								return fmt.Errorf("row %d column %d is %v, want %v", i, j, base.UnpackBytesToFloat(b), x)
							}
						case int64:
							if float64(x) != base.UnpackBytesToFloat(b) {
								return fmt.Errorf("row %d column %d is %v, want %v", i, j, base.UnpackBytesToFloat(b), x)
							}
						case string:
							if at.GetStringFromSysVal(b) != x {
								return fmt.Errorf("row %d column %d is %q, want %q", i, j, at.GetStringFromSysVal(b), x)
							}
						}
					}
				}
				c.Trace()
				return nil
			})))
		}
	}
	for _, n := range []int{4, 5, 8, 9, 16, 17, 33, 65, 129, 300, 1025} {
		if !c.Mine() {
			continue
		}
		c.Case("large vector %d", n)
		failErr(c, try(func() error {
			v := make([]float64, n)
			col := mat.NewDense(n, 2, nil)
			for i := range v {
				v[i] = float64(mix(uint64(i)) % 1000)
				col.Set(i, 1, v[i])
			}
			for _, m := range []*mat.Dense{utilities.FloatsToMatrix(append([]float64{}, v...)), utilities.VectorToMatrix(mat.NewVecDense(n, append([]float64{}, v...))), utilities.VectorToMatrix(col.ColView(1))} {
				if a, b := m.Dims(); a != 1 || b != n {
					return fmt.Errorf("%dx%d matrix of a vector of %d", a, b, n)
				}
				for i := range v {
					if m.At(0, i) != v[i] {
						return fmt.Errorf("element %d is %v, want %v", i, m.At(0, i), v[i])
					}
				}
			}
			return nil
		}))
	}
}

func c19large(c *eng.Ctx) {
	K := AD{'C', "k", []string{"u", "v", "w"}}
	// equal-width binning of many values, with many bins
	for _, n := range []int{17, 65, 300} {
		for pat := 0; pat < 6; pat++ {
			for _, bins := range []int{1, 7, 10, 64, 255, 300, 1000} {
				if !c.Mine() {
					continue
				}
				vals := []float64{}
				lo, hi := math.Inf(1), math.Inf(-1)
				t := mkTab([]AD{{'F', "x", nil}, {'F', "y", nil}, K}, 2, nil)
				for i := 0; i < n; i++ {
					h := mix(uint64(i + pat*1000))
					v := [6]float64{float64(i), float64(n-i) * 0.1, float64(h%1000) - 500, math.Exp(float64(h%40)) - 1e6, float64(i%3) * 1e-9, -float64(h%10) - 1e5}[pat]
					vals = append(vals, v)
					lo, hi = math.Min(lo, v), math.Max(hi, v)
					t.V = append(t.V, []string{fb(v), fb(float64(i)), ub(uint64(i % 3))})
				}
				kind := (n + pat + bins) % numKinds
				c.Case("large binning of %d values (pattern %d) into %d bins, %s", n, pat, bins, kindNames[kind])
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					g, w, _ := makeKind(kind, t)
					if g == nil {
						g, w = buildDense(t, 0), t
					}
					f := filters.NewBinningFilter(g, bins)
					if err := f.AddAttribute(w.A[0]); err != nil {
						return err
					}
					if err := f.Train(); err != nil {
						return err
					}
					lg := base.NewLazilyFilteredInstances(g, f)
					if err := others(lg, w, map[int]bool{0: true}); err != nil {
						return err
					}
					idx, _, all, err := cats(lg, "x")
					if err != nil {
						return err
					}
					if len(all) != bins+1 {
						return fmt.Errorf("%d bins give %d categories", bins, len(all))
					}
					for i, v := range vals {
						c.Trans(1)
						p := (v - lo) * float64(bins) / (hi - lo)
						d := float64(idx[i]) - math.Floor(p)
						// a value next to the edge of a bin may be on either side
						if !(d == 0 || d == 1 && p-math.Floor(p) > 1-2e-4 || d == -1 && p-math.Floor(p) < 1e-9) {
							return fmt.Errorf("%v is in category %d of %d, want %v", v, idx[i], bins, math.Floor(p))
						}
						if v == hi && idx[i] != bins {
							return fmt.Errorf("the largest value is in category %d", idx[i])
						}
						for j := range vals {
							if vals[j] < v && idx[j] > idx[i] {
								return fmt.Errorf("%v is in a higher category than %v", vals[j], v)
							}
						}
					}
					c.Trace()
					return nil
				})))
			}
		}
	}
	// ChiMerge of many values
	for _, n := range []int{17, 40, 65, 130} {
		for pat := 0; pat < 8; pat++ {
			for _, sig := range []float64{0.9, 0.99} {
				for _, max := range []int{5, 12, 1000} {
					if !c.Mine() {
						continue
					}
					t := mkTab([]AD{K, {'F', "x", nil}}, 0, nil)
					freq := map[float64]*chiEntry{}
					vals := []float64{}
					cls := map[int]bool{}
					for i := 0; i < n; i++ {
						h := mix(uint64(i*13 + pat*7777))
						x := float64(h%uint64(6+2*pat)) - 3
						k := int(h >> 13 % uint64(2+pat%2))
						if pat%3 == 0 && x > 2 {
							k = 0
						}
						if freq[x] == nil {
							freq[x] = &chiEntry{lower: x}
						}
						freq[x].add(k, 1)
						cls[k] = true
						vals = append(vals, x)
						t.V = append(t.V, []string{ub(uint64(k)), fb(x)})
					}
					fs := []chiEntry{}
					for _, e := range freq {
						fs = append(fs, *e)
					}
					sort.Slice(fs, func(i, j int) bool { return fs[i].lower < fs[j].lower })
					c.Case("large ChiMerge of %d rows, %d values, pattern %d, significance %v, at most %d", n, len(fs), pat, sig, max)
					c.State(c.CurCase())
					want := chiOutcomes(fs, len(cls), sig, 2, max)
					failErr(c, short(try(func() error {
						g := buildDense(t, 0)
						f := filters.NewChiMergeFilter(g, sig)
						f.MinRows, f.MaxRows = 2, max
						if err := f.AddAttribute(t.A[1]); err != nil {
							return err
						}
						if err := f.Train(); err != nil {
							return err
						}
						idx, _, all, err := cats(base.NewLazilyFilteredInstances(g, f), "x")
						if err != nil {
							return err
						}
						lower := map[int]float64{}
						for i, v := range vals {
							if l, ok := lower[idx[i]]; !ok || v < l {
								lower[idx[i]] = v
							}
						}
						got := []float64{}
						for i := range all {
							got = append(got, lower[i])
						}
						if _, ok := want[fmt.Sprint(got)]; !ok || len(lower) != len(all) {
							return fmt.Errorf("intervals from %v, want one of %v", got, want)
						}
						for i, v := range vals {
							c.Trans(1)
							k := 0
							for j, l := range got {
								if v >= l {
									k = j
								}
							}
							if idx[i] != k {
								return fmt.Errorf("%v is in category %d of %v", v, idx[i], got)
							}
						}
						c.Trace()
						return nil
					})))
				}
			}
		}
	}
}

func c20large(c *eng.Ctx) {
	for _, s := range []struct{ cats, cols, n int }{{5, 3, 17}, {9, 2, 65}, {17, 3, 40}, {64, 2, 130}, {65, 1, 130}, {256, 1, 300}, {257, 2, 300}, {4, 17, 12}, {2, 40, 9}} {
		for cyc := 0; cyc < 4; cyc++ {
			defs := cycle([]string{"C", "FC", "BC", "CBF"}[cyc], s.cols)
			kx := []int{}
			for _, d := range defs {
				kx = append(kx, map[rune]int{'F': 0, 'B': 1, 'C': s.cats + 1}[d])
			}
			for _, mask := range []int{1<<uint(s.cols) - 1, 1, 1 << uint(s.cols-1), 0x5555555555 & (1<<uint(s.cols) - 1)} {
				for fk := 0; fk < 2; fk++ {
					for kind := 0; kind < numKinds; kind++ {
						if !c.Mine() {
							continue
						}
						t := bigTab(defs, s.cols-1, s.n, s.cats)
						g, w, _ := makeKind(kind, t)
						if g == nil {
							continue
						}
						c.Case("large %s... %d columns of %d categories, filtered=%b binary=%d %s", defs[:1], s.cols, s.cats, mask, fk, kindNames[kind])
						c.State(c.CurCase())
						failErr(c, short(try(func() error {
							var f base.Filter = filters.NewFloatConvertFilter()
							if fk == 1 {
								f = filters.NewBinaryConvertFilter()
							}
							for j := range w.A {
								if mask>>uint(j)&1 == 1 {
									if err := f.AddAttribute(w.A[j]); err != nil {
										return err
									}
								}
							}
							if err := f.Train(); err != nil {
								return err
							}
							news := map[int][]base.Attribute{}
							for _, fa := range f.GetAttributesAfterFiltering() {
								for j := range w.A {
									if w.A[j].Equals(fa.Old) {
										news[j] = append(news[j], fa.New)
									}
								}
							}
							return c20check(c, base.NewLazilyFilteredInstances(g, f), w, kx, mask, fk, news)
						})))
					}
				}
			}
		}
	}
}
