package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C24", Run: runC24,
		Rule:   "every pair of vectors of dimension one to three (four) over an alphabet of zero, positive, negative, tiny and large values, as columns, rows and parts of larger matrices, for every distance and kernel with every degree and width of a small set: compared with the definition and with the swapped arguments; every triple of vectors for the triangle inequality; different shapes must be refused; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: vectors that differ",
		Assume: []string{"results within a relative error of 1e-9 count as equal", "the angle of a zero vector is undefined, so cosine is checked on non-zero vectors"}})
}

var metricDefs = []struct {
	name string
	f    pairwise.PairwiseDistanceFunc
	ref  func(x, y []float64) float64
}{
	{"euclidean", pairwise.NewEuclidean(), func(x, y []float64) float64 {
		s := 0.0
		for i := range x {
			s += (x[i] - y[i]) * (x[i] - y[i])
		}
		return math.Sqrt(s)
	}},
	{"manhattan", pairwise.NewManhattan(), func(x, y []float64) float64 {
		s := 0.0
		for i := range x {
			s += math.Abs(x[i] - y[i])
		}
		return s
	}},
	{"chebyshev", pairwise.NewChebyshev(), func(x, y []float64) float64 {
		s := 0.0
		for i := range x {
			s = math.Max(s, math.Abs(x[i]-y[i]))
		}
		return s
	}},
	{"canberra", pairwise.NewCranberra(), func(x, y []float64) float64 {
		s := 0.0
		for i := range x {
			if d := math.Abs(x[i]) + math.Abs(y[i]); d != 0 {
				s += math.Abs(x[i]-y[i]) / d
			}
		}
		return s
	}},
	{"cosine", pairwise.NewCosine(), func(x, y []float64) float64 {
		xx, yy, xy := 0.0, 0.0, 0.0
		for i := range x {
			xx += x[i] * x[i]
			yy += y[i] * y[i]
			xy += x[i] * y[i]
		}
		return 1 - xy/math.Sqrt(xx)/math.Sqrt(yy)
	}},
}

func metricRef(name string) func(x, y []float64) float64 {
	for _, m := range metricDefs {
		if m.name == name {
			return m.ref
		}
	}
	panic(name)
}

func isZero(x []float64) bool {
	for _, v := range x {
		if v != 0 {
			return false
		}
	}
	return true
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// shapes are the ways a vector can be stored.
var vecShapes = []func(v []float64) *mat.Dense{
	func(v []float64) *mat.Dense { return mat.NewDense(len(v), 1, append([]float64{}, v...)) },
	func(v []float64) *mat.Dense { return mat.NewDense(1, len(v), append([]float64{}, v...)) },
	func(v []float64) *mat.Dense { // a column of a larger matrix
		m := mat.NewDense(len(v)+2, 3, nil)
		m.Apply(func(i, j int, _ float64) float64 { return float64(100 + 10*i + j) }, m)
		for i := range v {
			m.Set(i+1, 1, v[i])
		}
		return m.Slice(1, 1+len(v), 1, 2).(*mat.Dense)
	},
	func(v []float64) *mat.Dense { // a row of a larger matrix
		m := mat.NewDense(3, len(v)+2, nil)
		m.Apply(func(i, j int, _ float64) float64 { return float64(100 + 10*i + j) }, m)
		for i := range v {
			m.Set(1, i+1, v[i])
		}
		return m.Slice(1, 2, 1, 1+len(v)).(*mat.Dense)
	},
}

func matKeeps(m *mat.Dense, v []float64) bool {
	r, c := m.Dims()
	k := 0
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if m.At(i, j) != v[k] {
				return false
			}
			k++
		}
	}
	return k == len(v)
}

func runC24(c *eng.Ctx) {
	alpha := []float64{0, 1, -2, 0.5, 3e4, -1e-3}
	for dim := 1; dim <= c.Pick(3, 4); dim++ {
		al := alpha
		if dim == 4 {
			al = alpha[:4]
		}
		tuples(power(len(al), 2*dim), func(ix []int) {
			if !c.Mine() {
				return
			}
			x, y := make([]float64, dim), make([]float64, dim)
			for i := range x {
				x[i], y[i] = al[ix[i]], al[ix[dim+i]]
			}
			c.Case("x=%v y=%v", x, y)
			c.State(fmt.Sprint(x, y))
			same := fmt.Sprint(x) == fmt.Sprint(y)
			for si := range vecShapes {
				for sj := range vecShapes {
					if (si+sj)%2 == 1 { // a row and a column: different shapes
						continue
					}
					if si != sj && dim == 3 && !c.Thorough() && (ix[0]+ix[3])%3 != 0 {
						continue
					}
					a, b := vecShapes[si](x), vecShapes[sj](y)
					err := try(func() error {
						for _, m := range metricDefs {
							if m.name == "cosine" && (isZero(x) || isZero(y)) {
								continue
							}
							d := m.f.Distance(a, b)
							e := m.f.Distance(b, a)
							w := m.ref(x, y)
							if !near(d, w) {
								return fmt.Errorf("%s distance is %v, want %v", m.name, d, w)
							}
							if !near(d, e) {
								return fmt.Errorf("%s distance is %v one way and %v the other", m.name, d, e)
							}
							if d < 0 {
								return fmt.Errorf("%s distance is %v", m.name, d)
							}
							if same && d > 1e-12 {
								return fmt.Errorf("%s distance of equal vectors is %v", m.name, d)
							}
							c.Trans(2)
							c.Outcome(fmt.Sprint(m.name, d))
						}
						dot, sq := 0.0, 0.0
						for i := range x {
							dot += x[i] * y[i]
							sq += (x[i] - y[i]) * (x[i] - y[i])
						}
						if v := pairwise.NewEuclidean().InnerProduct(a, b); !near(v, dot) {
							return fmt.Errorf("inner product is %v, want %v", v, dot)
						}
						if v := pairwise.NewCosine().Dot(a, b); !near(v, dot) {
							return fmt.Errorf("dot product is %v, want %v", v, dot)
						}
						for deg := 0; deg <= 3; deg++ {
							k := pairwise.NewPolyKernel(deg)
							w := 1.0
							wd := 1.0
							for i := 0; i < deg; i++ {
								w *= dot + 1
								wd *= sq + 1
							}
							if v := k.InnerProduct(a, b); !near(v, w) {
								return fmt.Errorf("polynomial kernel of degree %d is %v, want %v", deg, v, w)
							}
							if v := k.InnerProduct(b, a); !near(v, w) {
								return fmt.Errorf("polynomial kernel of degree %d is %v swapped, want %v", deg, v, w)
							}
							if v := k.Distance(a, b); !near(v, math.Sqrt(wd)) {
								return fmt.Errorf("polynomial kernel norm of degree %d is %v, want %v", deg, v, math.Sqrt(wd))
							}
							c.Trans(3)
						}
						for _, g := range []float64{0, 0.1, 2} {
							k := pairwise.NewRBFKernel(g)
							w := math.Exp(-g * sq)
							if v := k.InnerProduct(a, b); !near(v, w) {
								return fmt.Errorf("radial-basis kernel of width %v is %v, want %v", g, v, w)
							}
							if v := k.InnerProduct(b, a); !near(v, w) {
								return fmt.Errorf("radial-basis kernel of width %v is %v swapped, want %v", g, v, w)
							}
							c.Trans(2)
						}
						if !matKeeps(a, x) || !matKeeps(b, y) {
							return fmt.Errorf("arguments became %v and %v", mat.Formatted(a.T()), mat.Formatted(b.T()))
						}
						return nil
					})
					if err != nil {
						err = fmt.Errorf("shapes %d %d: %v", si, sj, err)
					}
					if !failErr(c, err) {
						c.Trace()
					}
				}
			}
			// The same matrix twice.
			failErr(c, try(func() error {
				a := vecShapes[0](x)
				for _, m := range metricDefs {
					if m.name == "cosine" && isZero(x) {
						continue
					}
					if d := m.f.Distance(a, a); d > 1e-12 || d < 0 {
						return fmt.Errorf("%s distance of a vector to itself is %v", m.name, d)
					}
				}
				if !matKeeps(a, x) {
					return fmt.Errorf("argument changed")
				}
				return nil
			}))
		})
	}
	// Different shapes.
	for r1 := 1; r1 <= 3; r1++ {
		for c1 := 1; c1 <= 3; c1++ {
			for r2 := 1; r2 <= 3; r2++ {
				for c2 := 1; c2 <= 3; c2++ {
					if !c.Mine() || r1 == r2 && c1 == c2 {
						continue
					}
					a, b := mat.NewDense(r1, c1, nil), mat.NewDense(r2, c2, nil)
					c.Case("%dx%d and %dx%d", r1, c1, r2, c2)
					for _, m := range metricDefs {
						if p := eng.Try(func() { m.f.Distance(a, b) }); p == nil {
							failErr(c, fmt.Errorf("%s accepts different shapes", m.name))
						}
						c.Trans(1)
					}
				}
			}
		}
	}
	// Triangle inequality.
	for dim := 1; dim <= 2; dim++ {
		al := alpha
		if dim == 2 && !c.Thorough() {
			al = alpha[:4]
		}
		tuples(power(len(al), 3*dim), func(ix []int) {
			if !c.Mine() {
				return
			}
			v := [3][]float64{}
			for i := range v {
				for j := 0; j < dim; j++ {
					v[i] = append(v[i], al[ix[i*dim+j]])
				}
			}
			c.Case("triangle %v", v)
			failErr(c, try(func() error {
				a, b, d := vecShapes[0](v[0]), vecShapes[0](v[1]), vecShapes[0](v[2])
				for _, m := range metricDefs {
					if m.name == "cosine" {
						continue
					}
					ab, bd, ad := m.f.Distance(a, b), m.f.Distance(b, d), m.f.Distance(a, d)
					if ad > ab+bd+1e-9*(1+ab+bd) {
						return fmt.Errorf("%s: %v > %v + %v", m.name, ad, ab, bd)
					}
				}
				c.Trans(12)
				return nil
			}))
		})
	}
	c.Sample("x=(1,-2) y=(30000,0.5), rows of a larger matrix")
	c24large(c)
	c24near(c)
}
