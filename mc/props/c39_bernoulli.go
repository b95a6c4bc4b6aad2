package props

import (
	"fmt"
	"math/big"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/naive"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C39", Run: runC39,
		Rule:   "every training set of up to n rows over 1..3 binary features and two or three classes (categorical with unused values, or binary class; class first or last; every kind of grid for small sets), asked every combination of feature values, alone, together and with the columns in another order: the answer must have the largest prior times likelihoods in exact rational arithmetic; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two classes in training",
		Assume: []string{"an absent feature that every row of a class has counts as 1/(rows+1)", "classes of exactly equal score may both be answered"}})
}

// nbBest are the classes of highest score of a query row, exactly.
func nbBest(rows [][]int, cls []string, q []int) map[string]bool {
	n := map[string]int{}
	for _, c := range cls {
		n[c]++
	}
	var top *big.Rat
	best := map[string]bool{}
	for c, nc := range n {
		s := big.NewRat(int64(nc), int64(len(cls)))
		for f, v := range q {
			has := 0
			for i, r := range rows {
				if cls[i] == c && r[f] > 0 {
					has++
				}
			}
			switch {
			case v > 0:
				s.Mul(s, big.NewRat(int64(has+1), int64(nc+1)))
			case has == nc:
				s.Mul(s, big.NewRat(1, int64(nc+1)))
			default:
				s.Mul(s, big.NewRat(int64(nc-has), int64(nc+1)))
			}
		}
		d := 1
		if top != nil {
			d = s.Cmp(top)
		}
		if d > 0 {
			top, best = s, map[string]bool{}
		}
		if d >= 0 {
			best[c] = true
		}
	}
	return best
}

func runC39(c *eng.Ctx) {
	F := func(n int) []AD {
		return []AD{{'B', "b", nil}, {'B', "d", nil}, {'B', "e", nil}}[:n]
	}
	K := AD{'C', "k", []string{"w", "b", "unused", "a"}}
	KB := AD{'B', "k", nil}
	codes := [][]uint64{{0, 1, 3}, {0, 1, 0}}
	for _, s := range []struct {
		feats, classes int
		first, bin     bool
		q, t           int
	}{{1, 3, false, false, 6, 7}, {2, 2, true, false, 5, 6}, {3, 2, false, false, 4, 5}, {2, 3, false, false, 4, 5}, {2, 2, false, true, 5, 6}} {
		defs := F(s.feats)
		k := K
		if s.bin {
			k = KB
		}
		cc := s.feats
		if s.first {
			defs, cc = append([]AD{k}, defs...), 0
		} else {
			defs = append(append([]AD{}, defs...), k)
		}
		code := codes[0]
		if s.bin {
			code = codes[1]
		}
		table := func(rows [][]int, cls []int, rev bool) *Tab {
			t := mkTab(defs, cc, nil)
			for i, r := range rows {
				row := []string{}
				f := 0
				for j := range defs {
					switch {
					case j == cc && s.bin:
						row = append(row, string([]byte{byte(code[cls[i]])}))
					case j == cc:
						row = append(row, ub(code[cls[i]]))
					default:
						row = append(row, string([]byte{byte(r[f])}))
						f++
					}
				}
				t.V = append(t.V, row)
			}
			if rev {
				return reverseCols(t)
			}
			return t
		}
		queries, qcls := [][]int{}, []int{}
		tuples(power(2, s.feats), func(ix []int) {
			queries = append(queries, append([]int{}, ix...))
			qcls = append(qcls, len(qcls)%2)
		})
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			per := s.classes << uint(s.feats)
			tuples(power(per, n), func(ix []int) {
				if !c.Mine() {
					return
				}
				rows, cls := [][]int{}, []int{}
				seen := map[int]bool{}
				sum := 0
				for _, v := range ix {
					sum += v
					r := []int{}
					for f := 0; f < s.feats; f++ {
						r = append(r, v>>uint(f)&1)
					}
					rows = append(rows, r)
					cls = append(cls, v>>uint(s.feats))
					seen[v>>uint(s.feats)] = true
				}
				t := table(rows, cls, false)
				c.Case("features=%d class=%v rows %v", s.feats, k, ix)
				c.State(t.String())
				names := []string{}
				for i := range cls {
					names = append(names, t.A[cc].GetStringFromSysVal([]byte(t.V[i][cc])))
				}
				kinds := []int{0}
				if n <= 2 {
					kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 9, 10}
				}
				for _, kind := range kinds {
					g, _, _ := makeKind(kind, t)
					if g == nil {
						continue
					}
					failErr(c, try(func() error {
						m := naive.NewBernoulliNBClassifier()
						if err := m.Fit(g); err != nil {
							return err
						}
						best := []map[string]bool{}
						for _, q := range queries {
							best = append(best, nbBest(rows, names, q))
						}
						ask := func(what string, g base.FixedDataGrid, from int, cnt int) error {
							p, err := m.Predict(g)
							if err != nil {
								return fmt.Errorf("%s: %v", what, err)
							}
							if _, r := p.Size(); r != cnt {
								return fmt.Errorf("%s: %d predictions of %d rows", what, r, cnt)
							}
							for i := 0; i < cnt; i++ {
								c.Trans(1)
								got := base.GetClass(p, i)
								c.Outcome(fmt.Sprint(got, best[from+i]))
								if !best[from+i][got] {
									return fmt.Errorf("%s: row %v of %s is %q, best %v", what, queries[from+i], kindNames[kind], got, best[from+i])
								}
							}
							return nil
						}
						qt := table(queries, qcls, false)
						qg, _, _ := makeKind((sum+kind)%8, qt)
						if qg != nil {
							if err := ask("together in "+kindNames[(sum+kind)%8], qg, 0, len(queries)); err != nil {
								return err
							}
						}
						if err := ask("other column order", buildDense(table(queries, qcls, true), 0), 0, len(queries)); err != nil {
							return err
						}
						if n <= 3 {
							for i := range queries {
								if err := ask("alone", buildDense(table(queries[i:i+1], qcls[i:i+1], false), 0), i, 1); err != nil {
									return err
								}
							}
						}
						return nil
					}))
				}
				if len(seen) > 1 {
					c.Trace()
				}
			})
		}
	}
	c.Sample("rows (1,0):w (1,1):b (0,0):w, query (1,1)")
	c39large(c)
}
