package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/pca"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C44", Run: runC44,
		Rule:   "every integer matrix over an alphabet up to 4x3 (and 2x4), every number of components (none, each, more than features), as own storage or part of a larger matrix: column variances against the eigenvalues of the covariance (Jacobi), correlations, distances, Fit+Transform against FitTransform, other rows alone and together, refitting, inputs unchanged; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: rank two or more",
		Assume: []string{"asked for all components, a matrix with fewer rows than columns may give as many as it has rows", "agreement to 1e-7"}})
}

// eigenvalues of a symmetric matrix by Jacobi rotations, descending.
func eigenvalues(a [][]float64) []float64 {
	n := len(a)
	for sweep := 0; sweep < 60; sweep++ {
		off := 0.0
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				off += a[p][q] * a[p][q]
				if a[p][q] == 0 {
					continue
				}
				th := (a[q][q] - a[p][p]) / (2 * a[p][q])
				t := 1 / (math.Abs(th) + math.Sqrt(th*th+1))
				if th < 0 {
					t = -t
				}
				co := 1 / math.Sqrt(t*t+1)
				si := t * co
				for k := 0; k < n; k++ {
					x, y := a[k][p], a[k][q]
					a[k][p], a[k][q] = co*x-si*y, si*x+co*y
				}
				for k := 0; k < n; k++ {
					x, y := a[p][k], a[q][k]
					a[p][k], a[q][k] = co*x-si*y, si*x+co*y
				}
			}
		}
		if off < 1e-24 {
			break
		}
	}
	r := []float64{}
	for i := range a {
		r = append(r, a[i][i])
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(r)))
	return r
}

func runC44(c *eng.Ctx) {
	three := []float64{-1, 0, 2}
	two := []float64{0, 3}
	for _, s := range []struct {
		n, p  int
		alpha []float64
		deep  bool
	}{{1, 1, three, false}, {1, 3, three, false}, {2, 1, three, false}, {2, 2, []float64{-1, 0, 2, 5}, false}, {3, 1, three, false}, {3, 2, three, false}, {2, 3, three, false}, {4, 2, three, false}, {3, 3, two, false}, {2, 4, two, false}, {4, 3, two, false}, {3, 3, three, true}, {5, 3, two, true}, {4, 4, two, true}} {
		if s.deep && !c.Thorough() {
			continue
		}
		tuples(power(len(s.alpha), s.n*s.p), func(ix []int) {
			if !c.Mine() {
				return
			}
			data := []float64{}
			sum := 0
			for _, v := range ix {
				sum += v
				data = append(data, s.alpha[v])
			}
			c.Case("%dx%d %v", s.n, s.p, data)
			c44one(c, s.n, s.p, data, sum, seq(s.p+2))
		})
	}
	c.Sample("3x2 matrix (-1,0) (2,2) (0,-1), one and two components")
	c44large(c)
}

// c44one checks one n x p matrix with every number of components of ks.
func c44one(c *eng.Ctx, n, p int, data []float64, sum int, ks []int) {
	close := func(a, b float64) bool { return math.Abs(a-b) <= 1e-7*(1+math.Abs(b)) }
	dist := func(a, b []float64) float64 {
		s := 0.0
		for i := range a {
			s += (a[i] - b[i]) * (a[i] - b[i])
		}
		return math.Sqrt(s)
	}
	rowsOf := func(m *mat.Dense) [][]float64 {
		r, _ := m.Dims()
		out := [][]float64{}
		for i := 0; i < r; i++ {
			out = append(out, mat.Row(nil, i, m))
		}
		return out
	}
	c.State(fmt.Sprint(n, p, data))
	build := func(n int, v []float64, part bool) (*mat.Dense, func() error) {
		whole := mat.NewDense(n, p, append([]float64{}, v...))
		m := whole
		if part { // a window of a larger matrix
			whole = mat.NewDense(n+2, p+2, nil)
			for i := 0; i < n+2; i++ {
				for j := 0; j < p+2; j++ {
					whole.Set(i, j, 99)
				}
			}
			m = whole.Slice(1, n+1, 1, p+1).(*mat.Dense)
			for i := 0; i < n; i++ {
				for j := 0; j < p; j++ {
					m.Set(i, j, v[i*p+j])
				}
			}
		}
		before := mat.DenseCopyOf(whole)
		return m, func() error {
			if !mat.Equal(before, whole) {
				return fmt.Errorf("the matrix passed in was modified")
			}
			return nil
		}
	}
	orig := [][]float64{}
	for i := 0; i < n; i++ {
		orig = append(orig, data[i*p:(i+1)*p])
	}
	cov := make([][]float64, p)
	mean := make([]float64, p)
	for j := range mean {
		for i := range orig {
			mean[j] += orig[i][j] / float64(n)
		}
	}
	for a := range cov {
		cov[a] = make([]float64, p)
		for b := range cov[a] {
			for i := range orig {
				cov[a][b] += (orig[i][a] - mean[a]) * (orig[i][b] - mean[b])
			}
		}
	}
	eig := eigenvalues(cov)
	rank := 0
	for _, e := range eig {
		if e > 1e-9 {
			rank++
		}
	}
	if rank > 1 {
		c.Trace()
	}
	min := n
	if p < min {
		min = p
	}
	query := []float64{}
	for i := 0; i < 3*p; i++ {
		query = append(query, []float64{4, -2, 0, 1, 7}[(i*(i+sum))%5])
	}
	for _, k := range ks {
		failErr(c, try(func() error {
			m, kept := build(n, data, sum%2 == 1)
			out := rowsOf(pca.NewPCA(k).FitTransform(m))
			if err := kept(); err != nil {
				return fmt.Errorf("%d components: FitTransform: %v", k, err)
			}
			if len(out) != n {
				return fmt.Errorf("%d components: %d rows", k, len(out))
			}
			w := len(out[0])
			full := k == 0 || k >= p
			if k > 0 && k <= p && w != k || (k == 0 || k > p) && w != min && w != p {
				return fmt.Errorf("%d components asked, %d given", k, w)
			}
			v := make([]float64, w)
			for a := 0; a < w; a++ {
				for b := a; b < w; b++ {
					d, ma := 0.0, 0.0
					for i := range out {
						d += out[i][a] * out[i][b]
						ma += out[i][a]
					}
					if !close(ma, 0) {
						return fmt.Errorf("%d components: column %d of %v is not centred", k, a, out)
					}
					if a == b {
						v[a] = d
					} else if !close(d, 0) {
						return fmt.Errorf("%d components: columns %d and %d of %v are correlated", k, a, b, out)
					}
				}
				c.Trans(1)
				if !close(v[a], eig[a]) {
					return fmt.Errorf("%d components: variances %v, want the largest of %v", k, v, eig)
				}
			}
			c.Outcome(fmt.Sprintf("%.3f", v))
			if full {
				for i := range out {
					for j := range out {
						if !close(dist(out[i], out[j]), dist(orig[i], orig[j])) {
							return fmt.Errorf("%d components: rows %d and %d are %v apart, were %v", k, i, j, dist(out[i], out[j]), dist(orig[i], orig[j]))
						}
					}
				}
			}
			// separately, on an instance that was fitted before
			m, kept = build(n, data, sum%3 == 1)
			other, _ := build(3, query, false)
			m2 := pca.NewPCA(k)
			if sum%2 == 0 {
				m2.Fit(other)
			}
			if r := m2.Fit(m); r != m2 {
				return fmt.Errorf("Fit returned another model")
			}
			if err := kept(); err != nil {
				return fmt.Errorf("%d components: Fit: %v", k, err)
			}
			for round := 0; round < 2; round++ {
				sep := rowsOf(m2.Transform(m))
				if err := kept(); err != nil {
					return fmt.Errorf("%d components: Transform: %v", k, err)
				}
				for i := range out {
					if len(sep) != len(out) || len(sep[i]) != w {
						return fmt.Errorf("%d components: Transform gives another size than FitTransform", k)
					}
					for j := range out[i] {
						if !close(sep[i][j], out[i][j]) {
							return fmt.Errorf("%d components: Fit and Transform (round %d) give %v, FitTransform %v", k, round, sep, out)
						}
					}
				}
				// other rows
				q, qkept := build(3, query, sum%2 == 0)
				qo := rowsOf(m2.Transform(q))
				if err := qkept(); err != nil {
					return fmt.Errorf("%d components: Transform: %v", k, err)
				}
				for i := range qo {
					one, _ := build(1, query[i*p:(i+1)*p], false)
					o := rowsOf(m2.Transform(one))[0]
					for j := range o {
						if len(o) != w || !close(o[j], qo[i][j]) {
							return fmt.Errorf("%d components: row %v alone gives %v, together %v", k, one, o, qo[i])
						}
					}
					if full && n >= p {
						for j := range out {
							if !close(dist(qo[i], out[j]), dist(query[i*p:(i+1)*p], orig[j])) {
								return fmt.Errorf("%d components: a new row and row %d are %v apart, were %v", k, j, dist(qo[i], out[j]), dist(query[i*p:(i+1)*p], orig[j]))
							}
						}
					}
				}
			}
			return nil
		}))
	}
}
