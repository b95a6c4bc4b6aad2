package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/utilities"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C18", Run: runC18,
		Rule:   "rows to matrices: every kind of grid over an alphabet of unusual numbers, every list of up to three (repeated) attributes; matrices as grids: every small matrix, its own storage or part of a larger one, every set of class columns, followed by writes to the matrix; data frames: every combination of up to three columns (float, integer, text, generic float32) and up to n rows over an alphabet with missing values, every class column; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two rows",
		Assume: []string{"missing numbers of a data frame are NaN, missing texts the empty category", "integers beyond 2^53 are rounded to the nearest float64"}})
}

var oddFloats = []float64{0, -2.5, 1e-9, 1234567.890625, math.MaxFloat64, 0.1 + 0.2, math.Inf(-1), math.NaN(), math.Copysign(0, -1), 5e-324}

func bitsEq(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

func runC18(c *eng.Ctx) {
	c18rows(c)
	c18matrix(c)
	c18frames(c)
	c18vectors(c)
	c18large(c)
	c18wide(c)
	c18gaps(c)
}

func c18rows(c *eng.Ctx) {
	for _, junk := range []bool{false, true} {
		defs := []AD{{'F', "a", nil}, {'F', "b", nil}, {'F', "c", nil}}
		fc := []int{0, 1, 2}
		if junk {
			defs = []AD{{'C', "k", []string{"u", "v"}}, {'F', "a", nil}, {'B', "f", nil}, {'F', "b", nil}, {'F', "c", nil}}
			fc = []int{1, 3, 4}
		}
		for n := 0; n <= c.Pick(3, 4); n++ {
			for start := 0; start < len(oddFloats); start++ {
				for step := 1; step <= 3; step++ {
					for cls := -1; cls < len(defs); cls++ {
						if !c.Mine() {
							continue
						}
						t := mkTab(defs, cls, nil)
						at := start
						for i := 0; i < n; i++ {
							row := []string{}
							for _, d := range defs {
								switch d.Kind {
								case 'F':
									row = append(row, fb(oddFloats[at%len(oddFloats)]))
									at += step
								case 'B':
									row = append(row, string([]byte{byte(i % 2)}))
								default:
									row = append(row, ub(uint64(i%2)))
								}
							}
							t.V = append(t.V, row)
						}
						c.Case("rows=%d values from %d step %d, class %d, mixed=%v", n, start, step, cls, junk)
						c.State(t.String())
						if n > 1 {
							c.Trace()
						}
						for kind := 0; kind < numKinds; kind++ {
							g, w, _ := makeKind(kind, t)
							if g == nil {
								continue
							}
							failErr(c, try(func() error {
								for l := 1; l <= 3; l++ {
									var err error
									tuples(power(3, l), func(ix []int) {
										if err != nil {
											return
										}
										attrs := []base.Attribute{}
										for _, v := range ix {
											attrs = append(attrs, w.A[fc[v]])
										}
										check := func(what string, m *mat.Dense, r int) {
											if a, b := m.Dims(); a != 1 || b != l {
												err = fmt.Errorf("%s of %s: %dx%d for %d attributes", what, kindNames[kind], a, b, l)
												return
											}
											for j, v := range ix {
												c.Trans(1)
												want := num(w.A[fc[v]], w.V[r][fc[v]])
												if !bitsEq(m.At(0, j), want) {
													err = fmt.Errorf("%s of %s: columns %v, row %d column %d is %v, want %v", what, kindNames[kind], ix, r, j, m.At(0, j), want)
												}
											}
										}
										all, e := base.ConvertAllRowsToMat64(attrs, g)
										if e != nil || len(all) != n {
											err = fmt.Errorf("ConvertAllRowsToMat64 of %s: %d rows of %d, %v", kindNames[kind], len(all), n, e)
											return
										}
										for r := 0; r < n; r++ {
											m, e := base.ConvertRowToMat64(attrs, g, r)
											if e != nil {
												err = e
												return
											}
											check("ConvertRowToMat64", m, r)
											check("ConvertAllRowsToMat64", all[r], r)
										}
										// matrices of different rows share nothing
										if n > 1 {
											all[0].Set(0, 0, 42)
											check("ConvertAllRowsToMat64 after a write to the first", all[1], 1)
										}
									})
									if err != nil {
										return err
									}
								}
								for j, a := range w.A {
									if a.GetType() == base.Float64Type {
										continue
									}
									c.Outcome("not a number")
									l := []base.Attribute{w.A[fc[0]], w.A[j]}
									if _, err := base.ConvertAllRowsToMat64(l, g); err == nil {
										return fmt.Errorf("ConvertAllRowsToMat64 accepts %v", w.A[j])
									}
									if n > 0 {
										if _, err := base.ConvertRowToMat64(l, g, 0); err == nil {
											return fmt.Errorf("ConvertRowToMat64 accepts %v", w.A[j])
										}
									}
								}
								c.Outcome(fmt.Sprint("rows", n, kind))
								return sameTab(g, w)
							}))
						}
					}
				}
			}
		}
	}
}

func c18matrix(c *eng.Ctx) {
	for _, s := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 3}} {
		rows, cols := s[0], s[1]
		for start := 0; start < len(oddFloats); start++ {
			for step := 1; step <= 3; step++ {
				for part := 0; part < 2; part++ {
					for mask := 0; mask < 1<<uint(cols); mask++ {
						if !c.Mine() {
							continue
						}
						c.Case("matrix %dx%d values from %d step %d, part=%d, classes %b", rows, cols, start, step, part, mask)
						failErr(c, try(func() error {
							whole := mat.NewDense(rows+1, cols+1, nil)
							data := mat.NewDense(rows, cols, nil)
							if part == 1 {
								data = whole.Slice(1, rows+1, 1, cols+1).(*mat.Dense)
							}
							at := start
							t := &Tab{}
							for i := 0; i < rows; i++ {
								row := []string{}
								for j := 0; j < cols; j++ {
									v := oddFloats[at%len(oddFloats)]
									at += step
									data.Set(i, j, v)
									row = append(row, fb(v))
								}
								t.V = append(t.V, row)
							}
							g := base.InstancesFromMat64(rows, cols, data)
							if g.Data != data {
								return fmt.Errorf("another matrix is wrapped")
							}
							for j := 0; j < cols; j++ {
								a := base.NewFloatAttribute(fmt.Sprint(j))
								t.A = append(t.A, a)
								t.Class = append(t.Class, mask>>uint(j)&1 == 1)
								// all are classes for a while
								if err := g.AddClassAttribute(a); err != nil {
									return err
								}
							}
							for j := range t.A {
								if !t.Class[j] {
									if err := g.RemoveClassAttribute(t.A[j]); err != nil {
										return err
									}
								}
							}
							if err := sameTab(g, t); err != nil {
								return err
							}
							c.State(t.String())
							for j, a := range g.AllAttributes() {
								if a.GetName() != fmt.Sprint(j) {
									return fmt.Errorf("attribute %d is called %s", j, a.GetName())
								}
							}
							// every write to the matrix is seen
							for i := 0; i < rows; i++ {
								for j := 0; j < cols; j++ {
									v := float64(10*i+j) + 0.5
									data.Set(i, j, v)
									t.V[i][j] = fb(v)
									c.Trans(1)
									if err := sameTab(g, t); err != nil {
										return fmt.Errorf("after writing %d,%d: %v", i, j, err)
									}
								}
							}
							if _, err := g.GetAttribute(base.NewFloatAttribute("nothing")); err == nil {
								return fmt.Errorf("an attribute is found that isn't there")
							}
							if err := g.AddClassAttribute(base.NewFloatAttribute("nothing")); err == nil {
								return fmt.Errorf("an absent attribute became the class")
							}
							sh := g.String()
							if !strings.Contains(sh, fmt.Sprintf("%d row(s) %d attribute(s)", rows, cols)) {
								return fmt.Errorf("shown as %q", sh)
							}
							c.Outcome(fmt.Sprint("matrix", s, mask))
							if rows > 1 {
								c.Trace()
							}
							return sameTab(g, t)
						}))
					}
				}
			}
		}
	}
}

type frameCol struct {
	kind byte // f loat, i nteger, s tring, g eneric float32
	vals []interface{}
}

func c18frames(c *eng.Ctx) {
	alpha := map[byte][]interface{}{
		'f': {nil, -2.5, 1e-9, 0.1 + 0.2, 1234567.890625, 1e300},
		'i': {nil, int64(0), int64(-7), int64(1) << 52, int64(-1) << 60},
		's': {"x", "", "1.50", nil, "ein Wort", "x"},
		'g': {float32(0.1), float32(-3), float32(1e-20)},
	}
	kinds := []byte{'f', 'i', 's', 'g'}
	for cols := 1; cols <= 3; cols++ {
		tuples(power(len(kinds), cols), func(kx []int) {
			for n := 0; n <= c.Pick(3, 4); n++ {
				radix := []int{}
				for _, k := range kx {
					for i := 0; i < n; i++ {
						r := len(alpha[kinds[k]])
						if cols*n > 4 && r > 2 {
							r = 2
						}
						if cols*n > 8 {
							r = 1
						}
						radix = append(radix, r)
					}
				}
				kx := append([]int{}, kx...)
				tuples(radix, func(ix []int) {
					if !c.Mine() {
						return
					}
					off := 0
					for _, v := range ix {
						off += v
					}
					cells := make([][]interface{}, cols)
					var se []dataframe.Series
					for j, k := range kx {
						a := alpha[kinds[k]]
						for i := 0; i < n; i++ {
							x := ix[j*n+i]
							if cols*n > 4 {
								x += off + i*3 + j
							}
							cells[j] = append(cells[j], a[x%len(a)])
						}
						name := fmt.Sprintf("c%d", cols-j)
						switch kinds[k] {
						case 'f':
							se = append(se, dataframe.NewSeriesFloat64(name, nil, cells[j]...))
						case 'i':
							se = append(se, dataframe.NewSeriesInt64(name, nil, cells[j]...))
						case 's':
							se = append(se, dataframe.NewSeriesString(name, nil, cells[j]...))
						case 'g':
							se = append(se, dataframe.NewSeriesGeneric(name, float32(0), nil, cells[j]...))
						}
					}
					c.Case("frame of %d rows: %v kinds %v", n, cells, kx)
					c.State(fmt.Sprint(n, kx, cells))
					if n > 1 {
						c.Trace()
					}
					for cls := 0; cls < cols; cls++ {
						failErr(c, try(func() error {
							df := dataframe.NewDataFrame(se...)
							before := df.String()
							g := base.ConvertDataFrameToInstances(df, cls)
							if a, b := g.Size(); a != cols || b != n {
								return fmt.Errorf("size %dx%d, want %dx%d", a, b, cols, n)
							}
							ca := g.AllClassAttributes()
							if len(ca) != 1 || ca[0].GetName() != se[cls].Name() {
								return fmt.Errorf("class %v, want column %d", ca, cls)
							}
							names := []string{}
							for j := range se {
								names = append(names, se[j].Name())
							}
							have := []string{}
							for _, a := range g.AllAttributes() {
								have = append(have, a.GetName())
							}
							sort.Strings(names)
							sort.Strings(have)
							if !same(names, have) {
								return fmt.Errorf("attributes %v, want %v", have, names)
							}
							for j := range se {
								var at base.Attribute
								for _, a := range g.AllAttributes() {
									if a.GetName() == se[j].Name() {
										at = a
									}
								}
								isText := kinds[kx[j]] == 's'
								if (at.GetType() == base.CategoricalType) != isText {
									return fmt.Errorf("column %d of kind %c has attribute %v", j, kinds[kx[j]], at)
								}
								sp, err := g.GetAttribute(at)
								if err != nil {
									return err
								}
								for i := 0; i < n; i++ {
									c.Trans(1)
									v := g.Get(sp, i)
									if isText {
										want, _ := cells[j][i].(string)
										if got := at.GetStringFromSysVal(v); got != want {
											return fmt.Errorf("row %d column %d is %q, want %q", i, j, got, want)
										}
										continue
									}
									want := math.NaN()
									switch x := cells[j][i].(type) {
									case float64:
										want = x
									case int64:
										want = float64(x)
									case float32:
										want = float64(x)
									}
									if got := base.UnpackBytesToFloat(v); !bitsEq(got, want) {
										return fmt.Errorf("row %d column %d is %v, want %v", i, j, got, want)
									}
								}
							}
							c.Outcome(fmt.Sprint("frame", cols, n, kx, cls))
							if df.String() != before {
								return fmt.Errorf("the data frame changed")
							}
							return nil
						}))
					}
				})
			}
		})
	}
}

func c18vectors(c *eng.Ctx) {
	for n := 1; n <= 3; n++ {
		tuples(power(len(oddFloats), n), func(ix []int) {
			if !c.Mine() {
				return
			}
			v := []float64{}
			for _, x := range ix {
				v = append(v, oddFloats[x])
			}
			c.Case("vector %v", v)
			failErr(c, try(func() error {
				col := mat.NewDense(n, 2, nil)
				for i := range v {
					col.Set(i, 1, v[i])
				}
				for _, m := range []*mat.Dense{utilities.FloatsToMatrix(append([]float64{}, v...)), utilities.VectorToMatrix(mat.NewVecDense(n, append([]float64{}, v...))), utilities.VectorToMatrix(col.ColView(1))} {
					c.Trans(1)
					if a, b := m.Dims(); a != 1 || b != n {
						return fmt.Errorf("%dx%d matrix of a vector of %d", a, b, n)
					}
					for i := range v {
						if !bitsEq(m.At(0, i), v[i]) {
							return fmt.Errorf("element %d of %v is %v", i, v, m.At(0, i))
						}
					}
				}
				return nil
			}))
		})
	}
	c.Sample("frame with a float column (0.1+0.2, missing) and a text column, the latter as class")
}
