package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C27", Run: runC27,
		Rule:   "every sequence of up to n points of a small grid in one or two dimensions, every radius and minimum count of small sets, several distances, every choice of clustering attributes and every kind of grid, and every subset of a wider range of rows being close together, under several map iteration orders: cores, borders and noise are computed from the definition; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one core and one other point",
		Assume: []string{"a border point near several clusters may belong to any one of them", "points exactly at the radius are within it; radii are chosen so that rounding does not decide"}})
}

// checkDensity compares a cluster map with the definition.
func checkDensity(m clustering.ClusterMap, dist func(i, j int) float64, n int, eps float64, min int) error {
	in := map[int]int{}
	for id, rows := range m {
		if len(rows) == 0 {
			return fmt.Errorf("cluster %d is empty", id)
		}
		for _, r := range rows {
			if r < 0 || r >= n {
				return fmt.Errorf("row %d in %v", r, m)
			}
			if _, ok := in[r]; ok {
				return fmt.Errorf("row %d twice in %v", r, m)
			}
			in[r] = id
		}
	}
	core := make([]bool, n)
	for i := range core {
		k := 0
		for j := 0; j < n; j++ {
			if dist(i, j) <= eps {
				k++
			}
		}
		core[i] = k >= min
	}
	comp := make([]int, n)
	for i := range comp {
		comp[i] = i
	}
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if core[i] && core[j] && dist(i, j) <= eps && comp[i] < comp[j] {
					comp[j], ch = comp[i], true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		ci, ok := in[i]
		if core[i] {
			if !ok {
				return fmt.Errorf("core row %d is in no cluster of %v", i, m)
			}
			for j := 0; j < i; j++ {
				if core[j] && (comp[i] == comp[j]) != (ci == in[j]) {
					return fmt.Errorf("core rows %d and %d: connected=%v, clusters %v", j, i, comp[i] == comp[j], m)
				}
			}
			continue
		}
		border, own := false, false
		for j := 0; j < n; j++ {
			if core[j] && dist(i, j) <= eps {
				border = true
				own = own || ok && in[j] == ci
			}
		}
		if border && !ok {
			return fmt.Errorf("border row %d is in no cluster of %v", i, m)
		}
		if ok && !own {
			return fmt.Errorf("row %d is in a cluster none of whose cores is near: %v", i, m)
		}
	}
	return nil
}

// wideC27 lets every subset of a wider range of rows be close together, and
// every other row be far from all.
func wideC27(c *eng.Ctx) {
	n := c.Pick(10, 17)
	for mask := 0; mask < 1<<uint(n); mask++ {
		if !c.Mine() {
			continue
		}
		t := mkTab([]AD{{'F', "x", nil}}, -1, nil)
		xs := make([]float64, n)
		size := 0
		for i := range xs {
			xs[i] = float64(100 * (i + 1))
			if mask>>uint(i)&1 == 1 {
				xs[i] = float64(i % 3)
				size++
			}
			t.V = append(t.V, []string{fb(xs[i])})
		}
		c.Case("%d rows, those of mask %b are near", n, mask)
		c.State(t.String())
		g := buildDense(t, 0)
		for min := size; min <= size+1; min++ {
			if min < 2 {
				continue // The far rows are clusters, too
			}
			failErr(c, try(func() error {
				cm, err := clustering.DBSCAN(g, clustering.DBSCANParameters{ClusterParameters: clustering.ClusterParameters{Attributes: t.A, Metric: metricDefs[0].f}, Eps: 5, MinCount: min})
				if err != nil {
					return err
				}
				c.Trans(1)
				return checkDensity(cm, func(i, j int) float64 {
					d := xs[i] - xs[j]
					if d < 0 {
						d = -d
					}
					return d
				}, n, 5, min)
			}))
		}
		c.Trace()
	}
}

func runC27(c *eng.Ctx) {
	X, Y, K := AD{'F', "x", nil}, AD{'F', "y", nil}, AD{'C', "k", []string{"u", "v"}}
	for _, s := range []struct {
		defs []AD
		al   []float64
		dim  int // coordinates in use
		q, t int
		eps  []float64
	}{
		{[]AD{X, K}, []float64{0, 1, 2, 3, 5}, 1, 5, 7, []float64{0, 1, 1.5, 2, 10}},
		{[]AD{X, Y, K}, []float64{0, 1, 2}, 2, 4, 5, []float64{0.5, 1, 1.5}},
		{[]AD{K, X}, []float64{0, 1, 2, 4}, 1, 4, 5, []float64{1, 2}},
	} {
		per := len(s.al)
		if s.dim == 2 {
			per *= per
		}
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(per, n), func(ix []int) {
				if !c.Mine() {
					return
				}
				cls := 0
				if s.defs[0].Name == "k" {
					cls = 0
				} else {
					cls = len(s.defs) - 1
				}
				t := mkTab(s.defs, cls, nil)
				sum := 0
				for r, p := range ix {
					sum += p
					row := []string{}
					for _, d := range s.defs {
						switch d.Name {
						case "x":
							row = append(row, fb(s.al[p%len(s.al)]))
						case "y":
							row = append(row, fb(s.al[p/len(s.al)]))
						default:
							row = append(row, ub(uint64(r&1)))
						}
					}
					t.V = append(t.V, row)
				}
				c.Case("points %v of %v", ix, s.defs)
				c.State(t.String())
				kinds := []int{0}
				if n <= 3 {
					kinds = []int{0, 1, 3, 4, 5, 6, 7, 10}
				}
				sets := [][]base.Attribute{}
				cols := features(t)
				for mask := 1; mask < 1<<uint(len(cols)); mask++ {
					as := []base.Attribute{}
					for b, j := range cols {
						if mask>>uint(b)&1 == 1 {
							as = append(as, t.A[j])
						}
					}
					sets = append(sets, as)
				}
				for _, k := range kinds {
					g, tt, _ := makeKind(k, t)
					if g == nil {
						continue
					}
					for si, as := range sets {
						if n > 3 && si < len(sets)-1 {
							continue
						}
						fc := []int{}
						for j := range tt.A {
							for _, a := range as {
								if tt.A[j].Equals(a) {
									fc = append(fc, j)
								}
							}
						}
						for mi, m := range metricDefs[:3] {
							if mi > 0 && s.dim == 1 || mi > 0 && n > 3 && (sum+mi)%3 != 0 {
								continue
							}
							ds := make([][]float64, n)
							for i := range ds {
								ds[i] = make([]float64, n)
								for j := range ds[i] {
									ds[i][j] = m.ref(rowFloats(tt, i, fc), rowFloats(tt, j, fc))
								}
							}
							for _, eps := range s.eps {
								for min := 0; min <= n+1; min++ {
									rot := (sum + min) % 3
									eng.SetMapRot(rot)
									err := try(func() error {
										cm, err := clustering.DBSCAN(g, clustering.DBSCANParameters{ClusterParameters: clustering.ClusterParameters{Attributes: as, Metric: m.f}, Eps: eps, MinCount: min})
										if err != nil {
											return err
										}
										c.Trans(1)
										c.Outcome(fmt.Sprint(len(cm), len(cm[1]), n))
										return checkDensity(cm, func(i, j int) float64 { return ds[i][j] }, n, eps, min)
									})
									eng.SetMapRot(0)
									if err != nil {
										err = fmt.Errorf("%s, %v, %s, radius %v, minimum %d: %v", kindNames[k], as, m.name, eps, min, err)
									}
									if !failErr(c, err) {
										c.Trace()
									}
								}
							}
						}
					}
				}
			})
		}
	}
	wideC27(c)
	c.Sample("x = 1 0 2 3, radius 1, minimum 3: row 0 is a core, row 1 a border point visited later")
	c27large(c)
}
