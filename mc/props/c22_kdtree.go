package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/kdtree"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C22", Run: runC22,
		Rule:   "every multiset of up to n points of a grid in one to three dimensions, in several orders, every query on and between the points, every number of neighbours, every distance: the reported rows are distinct, their distances are the true ones in order, and equal the smallest ones found by exhaustive search; asking for too many neighbours or another dimension is an error; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two points",
		Assume: []string{"at least one neighbour is asked for", "cosine is asked for non-zero vectors", "grids of up to nine points show every tie and split"}})
}

// checkSearch compares one search with exhaustive search.
func checkSearch(pts [][]float64, q []float64, k int, rows []int, dist []float64, ref func(x, y []float64) float64) error {
	if len(rows) != k || len(dist) != k {
		return fmt.Errorf("%d rows and %d distances for %d neighbours", len(rows), len(dist), k)
	}
	all := make([]float64, len(pts))
	for i := range pts {
		all[i] = ref(pts[i], q)
	}
	best := append([]float64{}, all...)
	sortFloats(best)
	seen := map[int]bool{}
	for i, r := range rows {
		if r < 0 || r >= len(pts) || seen[r] {
			return fmt.Errorf("rows %v", rows)
		}
		seen[r] = true
		if !near(dist[i], all[r]) {
			return fmt.Errorf("row %d reported at %v, its distance is %v", r, dist[i], all[r])
		}
		if !near(dist[i], best[i]) {
			return fmt.Errorf("neighbour %d is at %v, want %v (rows %v)", i, dist[i], best[i], rows)
		}
	}
	return nil
}

func runC22(c *eng.Ctx) {
	for _, s := range []struct {
		dim     int
		al      []float64
		extra   []float64 // further coordinates of queries
		q, t    int
		nonZero bool
	}{
		{1, []float64{0, 1, -2, 3.5, 4}, []float64{0.5, -1, 10}, 6, 7, false},
		{2, []float64{0, 1, -2}, []float64{0.5, 5}, 5, 6, false},
		{2, []float64{1, 2, -3}, []float64{0.5, -0.5}, 5, 7, true},
		{2, []float64{0, 1}, []float64{0.5, -4}, 6, 8, false},
		{3, []float64{1, -1}, []float64{0.25}, 4, 5, true},
		{3, []float64{0, 2}, []float64{1}, 4, 6, false},
	} {
		pts := [][]float64{}
		tuples(power(len(s.al), s.dim), func(ix []int) {
			p := []float64{}
			for _, i := range ix {
				p = append(p, s.al[i])
			}
			pts = append(pts, p)
		})
		qs := [][]float64{}
		qal := append(append([]float64{}, s.al...), s.extra...)
		tuples(power(len(qal), s.dim), func(ix []int) {
			p := []float64{}
			for _, i := range ix {
				p = append(p, qal[i])
			}
			qs = append(qs, p)
		})
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(len(pts), n), func(ix []int) {
				for i := 1; i < n; i++ {
					if ix[i] < ix[i-1] {
						return
					}
				}
				if !c.Mine() {
					return
				}
				for ord := 0; ord < 3; ord++ {
					if n == 1 && ord > 0 {
						break
					}
					data := make([][]float64, n)
					for i := range data {
						j := i
						if ord == 1 {
							j = n - 1 - i
						} else if ord == 2 {
							j = (i*2 + n/2) % n
							if n%2 == 0 {
								j = (i + n/2) % n
							}
						}
						data[i] = append([]float64{}, pts[ix[j]]...)
					}
					orig := fmt.Sprint(data)
					c.Case("points %s", orig)
					c.State(orig)
					err := try(func() error {
						kd := kdtree.New()
						if err := kd.Build(data); err != nil {
							return err
						}
						for _, m := range metricDefs {
							if m.name == "cosine" && !s.nonZero {
								continue
							}
							for _, q := range qs {
								for k := 1; k <= n; k++ {
									rows, dist, err := kd.Search(k, m.f, q)
									if err != nil {
										return err
									}
									if err := checkSearch(data, q, k, rows, dist, m.ref); err != nil {
										return fmt.Errorf("%s, k=%d, query %v: %v", m.name, k, q, err)
									}
									c.Trans(1)
								}
							}
							if _, _, err := kd.Search(n+1, m.f, qs[0]); err == nil {
								return fmt.Errorf("%d neighbours among %d points", n+1, n)
							}
							if _, _, err := kd.Search(1, m.f, append([]float64{1}, qs[0]...)); err == nil {
								return fmt.Errorf("query with %d features accepted", s.dim+1)
							}
							if _, _, err := kd.Search(1, m.f, qs[0][1:]); err == nil {
								return fmt.Errorf("query with %d features accepted", s.dim-1)
							}
						}
						if fmt.Sprint(data) != orig {
							return fmt.Errorf("points became %v", data)
						}
						return nil
					})
					if !failErr(c, err) {
						c.Trace()
					}
				}
			})
		}
	}
	if c.Mine() {
		c.Case("build errors")
		failErr(c, try(func() error {
			if kdtree.New().Build(nil) == nil {
				return fmt.Errorf("a tree without points was built")
			}
			for i := 0; i < 3; i++ {
				d := [][]float64{{1, 2}, {1, 2}, {1, 2}}
				d[i] = []float64{1}
				if kdtree.New().Build(d) == nil {
					return fmt.Errorf("ragged points %v accepted", d)
				}
			}
			// Building again replaces the points.
			kd := kdtree.New()
			kd.Build([][]float64{{0, 0}, {1, 1}, {2, 2}})
			if err := kd.Build([][]float64{{5, 5}, {6, 6}}); err != nil {
				return err
			}
			rows, dist, err := kd.Search(2, metricDefs[0].f, []float64{0, 0})
			if err != nil {
				return err
			}
			return checkSearch([][]float64{{5, 5}, {6, 6}}, []float64{0, 0}, 2, rows, dist, metricDefs[0].ref)
		}))
	}
	c.Sample("points (0,0) (1,-2) (1,-2) (0,1), query (0.5,5), 3 neighbours by cosine, manhattan, ...")
	c22large(c)
	c22near(c)
	c22plane(c)
}
