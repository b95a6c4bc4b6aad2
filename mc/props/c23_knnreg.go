package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/knn"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C23", Run: runC23,
		Rule:   "every training sequence of up to n points of a small grid with distinct targets (and with equal and opposite ones), every query on and between the points, every number of neighbours, both distances, after fitting other data first: the prediction must be the mean of some valid set of nearest rows; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two points",
		Assume: []string{"at least one and at most as many neighbours as rows are asked for"}})
}

// means are the averages of the targets of k nearest rows.
func means(dist, tgt []float64, k int) []float64 {
	s := append([]float64{}, dist...)
	sortFloats(s)
	kth := s[k-1]
	sum, n := 0.0, 0
	may := []int{}
	for i, d := range dist {
		if d < kth-1e-9 {
			sum += tgt[i]
			n++
		} else if d <= kth+1e-9 {
			may = append(may, i)
		}
	}
	r := []float64{}
	for mask := 0; mask < 1<<uint(len(may)); mask++ {
		t, m := sum, n
		for b, i := range may {
			if mask>>uint(b)&1 == 1 {
				t += tgt[i]
				m++
			}
		}
		if m == k {
			r = append(r, t/float64(k))
		}
	}
	return r
}

func runC23(c *eng.Ctx) {
	targets := [][]float64{{1, 20, 300, 4000, 50000}, {5, 5, -5, 0, 2.5}, {-1, 1e9, 0.25, 3, -7}}
	for _, s := range []struct {
		dim  int
		pts  []float64
		qs   []float64
		q, t int
	}{
		{1, []float64{0, 1, -2, 3.5}, []float64{0.5, -1, 10, 1e6}, 4, 5},
		{2, []float64{0, 1, -2}, []float64{0.5, 5}, 3, 4},
		{3, []float64{0, 2}, []float64{1}, 3, 4},
	} {
		var pts, qs [][]float64
		tuples(power(len(s.pts), s.dim), func(ix []int) {
			p := []float64{}
			for _, i := range ix {
				p = append(p, s.pts[i])
			}
			pts = append(pts, p)
		})
		qa := append(append([]float64{}, s.pts...), s.qs...)
		tuples(power(len(qa), s.dim), func(ix []int) {
			p := []float64{}
			for _, i := range ix {
				p = append(p, qa[i])
			}
			qs = append(qs, p)
		})
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(len(pts), n), func(ix []int) {
				if !c.Mine() {
					return
				}
				flat := []float64{}
				for _, i := range ix {
					flat = append(flat, pts[i]...)
				}
				for ti, tg := range targets {
					if ti > 0 && n > 3 && (ix[0]+ix[n-1])%4 != 0 {
						continue
					}
					tgt := append([]float64{}, tg[:n]...)
					c.Case("points %v targets %v", flat, tgt)
					c.State(fmt.Sprint(flat, tgt))
					for _, dist := range []string{"euclidean", "manhattan"} {
						ref := metricRef(dist)
						failErr(c, try(func() error {
							m := knn.NewKnnRegressor(dist)
							if ti == 1 { // data of an earlier training
								old := append([]float64{}, flat...)
								m.Fit([]float64{9, 9, 9}, append(old, make([]float64, 3*s.dim)...)[:3*s.dim], 3, s.dim)
							}
							data := append([]float64{}, flat...)
							m.Fit(tgt, data, n, s.dim)
							for _, q := range qs {
								v := append([]float64{}, q...)
								d := make([]float64, n)
								for i, x := range ix {
									d[i] = ref(pts[x], q)
								}
								for k := 1; k <= n; k++ {
									got := m.Predict(mat.NewDense(1, s.dim, v), k)
									ok := false
									want := means(d, tgt, k)
									for _, w := range want {
										ok = ok || near(got, w)
									}
									if !ok {
										return fmt.Errorf("%s: %d nearest of %v average %v, want one of %v", dist, k, q, got, want)
									}
									c.Trans(1)
									c.Outcome(fmt.Sprint(got))
								}
								if fmt.Sprint(v) != fmt.Sprint(q) {
									return fmt.Errorf("query became %v", v)
								}
							}
							if fmt.Sprint(data) != fmt.Sprint(flat) || fmt.Sprint(tgt) != fmt.Sprint(tg[:n]) {
								return fmt.Errorf("training data changed")
							}
							c.Trace()
							return nil
						}))
					}
				}
			})
		}
	}
	for r := 1; r <= 3; r++ {
		for v := 0; v <= 4; v++ {
			if v == r || !c.Mine() {
				continue
			}
			c.Case("%d rows, %d targets", r, v)
			if p := eng.Try(func() { knn.NewKnnRegressor("euclidean").Fit(make([]float64, v), make([]float64, 2*r), r, 2) }); p == nil {
				failErr(c, fmt.Errorf("accepted"))
			}
			c.Case("%d rows of 2, %d numbers", r, 2*r+v-r)
			if p := eng.Try(func() { knn.NewKnnRegressor("euclidean").Fit(make([]float64, r), make([]float64, 2*r+v-r), r, 2) }); p == nil {
				failErr(c, fmt.Errorf("accepted"))
			}
		}
	}
	c.Sample("points 0 1 -2 with targets 1 20 300: 2 nearest of 0.5")
	c23large(c)
	c23near(c)
}
