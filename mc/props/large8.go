package props

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/neural"
	"verif/mc/eng"
)

// c42wide: networks with many classes. Which neuron stands for which class is left open, but
// each winning neuron must stand for one class of its own.
func c42wide(c *eng.Ctx) {
	for _, k := range []int{4, 9, 11, 17, 33, 65} {
		for _, hidden := range [][]int{{}, {12}, {20, 9}} {
			for pat := 0; pat < 2; pat++ {
				if !c.Mine() {
					continue
				}
				cats := []string{}
				for i := 0; i < k; i++ {
					cats = append(cats, fmt.Sprintf("u%d", (i*7+3)%(k+5)+10*i))
				}
				rows := [][]string{}
				for i := 0; i < 2*k; i++ {
					a := 2 * math.Pi * float64(i%k) / float64(k)
					rows = append(rows, []string{fb(3 * math.Cos(a)), ub(uint64(i % k)), fb(3 * math.Sin(a))})
				}
				defs := []AD{{'F', "x", nil}, {'C', "k", cats}, {'F', "y", nil}}
				c.Case("network with %d classes, hidden layers %v, pattern %d", k, hidden, pat)
				c.State(c.CurCase())
				bad := false
				c.Explore(eng.Opt{NormDom: func(i int) []float64 {
					return []float64{(float64(mix(uint64(i+pat*77))%100) - 49.5) / 10}
				}, MaxDraws: 20000}, func(ch *eng.Chooser) {
					if bad {
						return
					}
					bad = failErr(c, short(try(func() error {
						m := neural.NewMultiLayerNet(hidden)
						m.MaxIterations, m.LearningRate = 40, 0.5
						g := buildDense(mkTab(defs, 1, rows), pat)
						if p := ch.Call(func() { m.Fit(g) }); p != nil {
							return fmt.Errorf("Fit panics: %v", p)
						}
						p := m.Predict(g)
						net := netOf(m)
						if net == nil {
							c.Outcome("no network inside")
							return nil
						}
						total := 2 + k
						for _, h := range hidden {
							total += h
						}
						ref := newRefNet(total, 2, 0)
						for s := 0; s < total; s++ {
							for t := 2; t < total; t++ {
								if w := net.GetWeight(s+1, t+1); w != 0 {
									ref.w[s][t], ref.has[s][t] = w, true
								}
							}
							ref.b[s] = net.GetBias(s + 1)
						}
						var first error
						for swap := 0; swap < 2; swap++ {
							err := func() error {
								class, of := map[int]string{}, map[string]int{}
								for i, r := range rows {
									v := make([]float64, total)
									v[swap] = base.UnpackBytesToFloat([]byte(r[0]))
									v[1-swap] = base.UnpackBytesToFloat([]byte(r[2]))
									for l := 0; l <= len(hidden); l++ {
										v, _ = ref.step(v)
									}
									best, second := -1, math.Inf(-1)
									for o := total - k; o < total; o++ {
										if best < 0 || v[o] > v[best] {
											if best >= 0 {
												second = math.Max(second, v[best])
											}
											best = o
										} else {
											second = math.Max(second, v[o])
										}
									}
									if v[best]-second < 1e-9 {
										continue
									}
									got := base.GetClass(p, i)
									if w, ok := class[best]; ok && w != got {
										return fmt.Errorf("output neuron %d wins for rows of class %s and %s", best+1, w, got)
									}
									if o, ok := of[got]; ok && o != best {
										return fmt.Errorf("row %d is %s, which stands for the output neurons %d and %d", i, got, o+1, best+1)
									}
									class[best], of[got] = got, best
									c.Trans(1)
								}
								c.Outcome(fmt.Sprint(k, " classes, winners ", len(class)))
								return nil
							}()
							if err == nil {
								return nil
							}
							if first == nil {
								first = err
							}
						}
						return first
					})))
				})
				c.Trace()
			}
		}
	}
}
