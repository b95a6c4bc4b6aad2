package props

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

// wideFleet is a larger table of a kind of data of the fleet.
func wideFleet(data byte, n, wide, pat int) *Tab {
	kinds := map[byte]string{'N': "F", 'M': "CFB", 'B': "B", 'S': "F", 'P': "F"}[data]
	classes := 2 + wide/2
	if data == 'P' {
		classes = 2
	}
	t := treeTab(cycle(kinds, wide), n, 5, classes, pat, int(data))
	k := len(t.A) - 1
	if data == 'S' {
		t.A[k] = AD{'F', "k", nil}.make()
		for i := range t.V {
			t.V[i][k] = fb(float64(base.UnpackBytesToU64([]byte(t.V[i][k])) % 2))
		}
	}
	return t
}

func c38large(c *eng.Ctx) {
	svs := savables()
	big := func(name, group string, data byte, mk func() model) {
		svs = append(svs, savable{name, group, data, 2, mk, fitAny})
	}
	big("bag of 12 trees", "bag", 'M', func() model {
		b := bag(4)
		for i := 0; i < 12; i++ {
			if i%3 == 0 {
				b.AddModel(trees.NewID3DecisionTree(0))
			} else {
				b.AddModel(trees.NewRandomTree(2))
			}
		}
		return b
	})
	big("forest of 20", "rf", 'M', func() model { return ensemble.NewRandomForest(20, 3) })
	big("knn of 7", "knn", 'N', func() model { return newKNN("euclidean", "linear", 7, true, false) })
	big("kd-tree of 5", "knn", 'N', func() model { return newKNN("euclidean", "kdtree", 5, false, false) })
	big("bag of bags", "bag", 'B', func() model {
		b := bag(0)
		for i := 0; i < 3; i++ {
			in := bag(0)
			for j := 0; j < 11; j++ {
				in.AddModel(naive.NewBernoulliNBClassifier())
			}
			b.AddModel(nested{in, fmt.Sprint("inner", i)})
		}
		return nested{b, "outer"}
	})
	big("one against all of bags", "ova", 'N', func() model {
		return meta.NewOneVsAllModel(func(string) base.Classifier { return svc() })
	})
	path := filepath.Join(c.Scratch, "c38l.cls")
	defer os.Remove(path)
	for _, s := range svs {
		for _, z := range []struct{ n, wide int }{{17, 3}, {65, 12}, {c.Pick(130, 300), 6}} {
			for pat := 0; pat < c.Pick(2, 4); pat++ {
				if !c.Mine() {
					continue
				}
				t := wideFleet(s.data, z.n, z.wide, pat+1)
				k := (z.n + pat + len(s.name)) % numKinds
				if k == 8 || unorderedKind(k) {
					k = 0
				}
				c.Case("large: %s trained on %d rows of %d features, pattern %d, %s", s.name, z.n, z.wide, pat, kindNames[k])
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					g, _, _ := makeKind(k, t)
					q := bigQuery(t)
					if len(q.V) > 60 {
						q.V = append(append([][]string{}, q.V[:20]...), q.V[len(q.V)-40:]...)
					}
					return c38one(c, path, s, g, q, s.make)
				})))
			}
		}
	}
}

// nbTops are the classes whose score is within 1e-9 (of its logarithm) of the highest.
func nbTops(rows [][]int, cls []string, q []int) map[string]bool {
	n := map[string]int{}
	has := map[string][]int{}
	for i, c := range cls {
		n[c]++
		if has[c] == nil {
			has[c] = make([]int, len(q))
		}
		for f := range q {
			has[c][f] += rows[i][f]
		}
	}
	score := map[string]float64{}
	top := math.Inf(-1)
	for c, nc := range n {
		s := math.Log(float64(nc)) - math.Log(float64(len(cls)))
		for f, v := range q {
			switch h := has[c][f]; {
			case v > 0:
				s += math.Log(float64(h+1)) - math.Log(float64(nc+1))
			case h == nc:
				s -= math.Log(float64(nc + 1))
			default:
				s += math.Log(float64(nc-h)) - math.Log(float64(nc+1))
			}
		}
		score[c] = s
		top = math.Max(top, s)
	}
	r := map[string]bool{}
	for c, s := range score {
		if s >= top-1e-9 {
			r[c] = true
		}
	}
	return r
}

func c39large(c *eng.Ctx) {
	for _, z := range []struct{ n, feats, classes int }{{9, 17, 2}, {17, 9, 5}, {33, 65, 3}, {65, 8, 20}, {130, 33, 4}, {300, 200, 2}, {300, 5, 9}, {40, 1500, 3}, {600, 6, 2}} {
		for pat := 0; pat < 6; pat++ {
			for kind := 0; kind < numKinds; kind++ {
				if z.feats > 1000 && kind%3 != pat%3 {
					continue
				}
				if !c.Mine() {
					continue
				}
				at := []int{0, z.feats, z.feats / 2}[(pat+kind)%3]
				c.Case("large: %d rows of %d features, %d classes, pattern %d, %s, class in column %d", z.n, z.feats, z.classes, pat, kindNames[kind], at)
				c.State(c.CurCase())
				names := []string{"unused"}
				for i := 0; i < z.classes; i++ {
					names = append(names, fmt.Sprintf("u%d", z.classes-i))
				}
				defs := []AD{}
				for j := 0; j <= z.feats; j++ {
					if j == at {
						defs = append(defs, AD{'C', "k", names})
					}
					if j < z.feats {
						defs = append(defs, AD{'B', fmt.Sprintf("b%d", j), nil})
					}
				}
				build := func(rows [][]int, cls []int) *Tab {
					t := mkTab(defs, at, nil)
					for i, r := range rows {
						row := []string{}
						for j := 0; j <= z.feats; j++ {
							if j == at {
								row = append(row, ub(uint64(cls[i]+1)))
							}
							if j < z.feats {
								row = append(row, string([]byte{byte(r[j])}))
							}
						}
						t.V = append(t.V, row)
					}
					return t
				}
				rows, cls, label := [][]int{}, []int{}, []string{}
				for i := 0; i < z.n; i++ {
					k := int(mix(uint64(i+pat)) % uint64(z.classes))
					if pat == 3 { // one class has most rows
						k *= int(mix(uint64(i)) >> 20 % 2)
					}
					r := []int{}
					for j := 0; j < z.feats; j++ {
						h := mix(uint64(i*z.feats + j + pat*7919))
						v := int(h & 1)
						switch {
						case pat == 1 && h%8 != 0: // of the class
							v = (k + j) % 2
						case pat == 2: // rare
							v = int(h % 16 / 15)
						case pat == 3 && j%5 == 0: // always there for one class
							v = 0
							if k == j%z.classes {
								v = 1
							}
						case pat == 4: // almost always there
							v = 1
							if i%(z.n-1) == j {
								v = 0
							}
						case pat == 5 && i > 2: // likewise, for one class
							v = k & 1
						}
						r = append(r, v)
					}
					rows, cls, label = append(rows, r), append(cls, k), append(label, names[k+1])
				}
				failErr(c, short(try(func() error {
					m := naive.NewBernoulliNBClassifier()
					if kind%2 == 1 { // fitted before with other rows
						if err := m.Fit(buildDense(build(rows[:z.n/3], cls[:z.n/3]), 0)); err != nil {
							return err
						}
					}
					g, _, _ := makeKind(kind, build(rows, cls))
					if g == nil {
						return nil
					}
					if err := m.Fit(g); err != nil {
						return err
					}
					qr := append([][]int{}, rows...)
					for i := range rows {
						r := append([]int{}, rows[i]...)
						for j := range r {
							if (i+j)%3 == 0 {
								r[j] = 1 - r[j]
							}
						}
						qr = append(qr, r)
					}
					if len(qr) > 60 {
						qr = append(append([][]int{}, qr[:20]...), qr[len(qr)-40:]...)
					}
					qc := make([]int, len(qr))
					for lay := 0; lay < 3; lay++ {
						qt := build(qr, qc)
						if lay == 1 {
							qt = reverseCols(qt)
						}
						qs, from := qr, 0
						if lay == 2 {
							from = 7
							qt.V, qs = qt.V[from:from+1], qs[from:from+1]
						}
						p, err := m.Predict(buildDense(qt, (kind+lay)%3))
						if err != nil {
							return err
						}
						if _, n := p.Size(); n != len(qs) {
							return fmt.Errorf("%d predictions of %d rows", n, len(qs))
						}
						for i, r := range qs {
							c.Trans(1)
							best := nbTops(rows, label, r)
							if got := base.GetClass(p, i); !best[got] {
								return fmt.Errorf("layout %d: query %d is %q, best %v", lay, i, got, best)
							}
						}
						c.Outcome(fmt.Sprint(len(qs)))
					}
					c.Trace()
					return nil
				})))
			}
		}
	}
}

func c40large(c *eng.Ctx) {
	for _, z := range []struct{ n, feats int }{{10, 1}, {17, 4}, {33, 12}, {65, 2}, {130, 7}, {300, 3}, {20, 18}} {
		for pat := 0; pat < 6; pat++ {
			for kind := 0; kind < numKinds; kind++ {
				if !c.Mine() {
					continue
				}
				unit := 1.0 // of the attributes
				switch pat {
				case 4:
					unit = 1.0 / (1 << 30)
				case 5:
					unit = 1 << 24
				}
				junk := (pat+kind)%2 == 1
				at := []int{0, z.feats, z.feats / 2}[(pat+kind)%3]
				c.Case("large: %d rows of %d attributes, pattern %d, %s, class in column %d, other columns %v", z.n, z.feats, pat, kindNames[kind], at, junk)
				c.State(c.CurCase())
				x, y := [][]int64{}, []int64{}
				for i := 0; i < z.n; i++ {
					r := []int64{}
					sum := int64(0)
					for j := 0; j < z.feats; j++ {
						h := mix(uint64(i*z.feats + j + pat*7919))
						v := int64(h%41) - 20
						switch pat {
						case 1:
							v = int64(h % 3)
						case 2: // far from the origin
							v = 100 + int64(h%9)
						}
						sum += v * int64(j+1)
						r = append(r, v)
					}
					v := int64(mix(uint64(i+pat*31))%101) - 50
					if pat == 3 { // exactly linear
						v = sum - 7
					}
					x, y = append(x, r), append(y, v)
				}
				sol := leastSquares(x, y)
				if sol == nil {
					c.Count("rank_deficient", 1)
					continue
				}
				beta := []float64{}
				for _, r := range sol {
					f, _ := r.Float64()
					beta = append(beta, f)
				}
				build := func(x [][]int64, y []int64) *Tab {
					fx, fy := make([][]float64, len(x)), make([]float64, len(x))
					for i := range x {
						fy[i] = float64(y[i])
						for _, v := range x[i] {
							fx[i] = append(fx[i], float64(v)*unit)
						}
					}
					t := cartTab(fx, fy, at)
					if !junk {
						return t
					}
					r := &Tab{A: append([]base.Attribute{}, t.A[:1]...), Class: append([]bool{}, t.Class[:1]...)}
					r.A = append(append(r.A, AD{'C', "note", []string{"u", "v"}}.make(), AD{'B', "flag", nil}.make()), t.A[1:]...)
					r.Class = append(append(r.Class, false, false), t.Class[1:]...)
					for i := range t.V {
						v := append([]string{}, t.V[i][0], ub(uint64(i%2)), string([]byte{byte(i / 2 % 2)}))
						r.V = append(r.V, append(v, t.V[i][1:]...))
					}
					return r
				}
				if len(x) == 0 {
					continue
				}
				failErr(c, short(try(func() error {
					m := linear_models.NewLinearRegression()
					if pat%2 == 1 {
						o := build(x[:z.feats+2], y[:z.feats+2])
						if kind%2 == 0 {
							for _, a := range o.A {
								a.SetName("z" + a.GetName())
							}
						}
						if err := m.Fit(buildDense(o, 0)); err != nil {
							return err
						}
					}
					t := build(x, y)
					g, _, _ := makeKind(kind, t)
					k8 := g != nil && kind == 8
					if g == nil {
						g = buildDense(t, 0)
					}
					if err := m.Fit(g); err != nil {
						return err
					}
					qx := [][]int64{}
					for i := range x {
						r := append([]int64{}, x[i]...)
						for j := range r {
							if (i+j)%3 == 0 {
								r[j] = -r[j] + int64(i)
							}
						}
						qx = append(qx, r)
					}
					for lay := 0; lay < 4; lay++ {
						qs := qx
						qt := build(qx, make([]int64, len(qx)))
						q := base.FixedDataGrid(nil)
						switch {
						case lay == 0:
							qs, q = x, g
						case k8:
							continue
						case lay == 1:
							q = buildDense(qt, kind%3)
						case lay == 2:
							q = buildDense(reverseCols(qt), kind%3)
						case lay == 3:
							qt.V, qs = qt.V[3:4], qs[3:4]
							q = buildDense(qt, 0)
						}
						p, err := m.Predict(q)
						if err != nil {
							return err
						}
						if cols, n := p.Size(); n != len(qs) || cols != 1 {
							return fmt.Errorf("predictions of size %dx%d of %d rows", cols, n, len(qs))
						}
						sp, err := p.GetAttribute(p.AllClassAttributes()[0])
						if err != nil {
							return err
						}
						for i, r := range qs {
							c.Trans(1)
							want, scale := beta[0], 1+math.Abs(beta[0])
							for j := range r {
								want += beta[j+1] * float64(r[j])
								scale += math.Abs(beta[j+1] * float64(r[j]))
							}
							if got := base.UnpackBytesToFloat(p.Get(sp, i)); !(math.Abs(got-want) <= 1e-6*scale) {
								return fmt.Errorf("layout %d: row %d predicts %v, least squares gives %v", lay, i, got, want)
							}
						}
						c.Outcome(fmt.Sprint(len(qs)))
					}
					c.Trace()
					return nil
				})))
			}
		}
	}
}

func c42large(c *eng.Ctx) {
	// raw networks in layers
	for _, layers := range [][]int{{3, 17, 2}, {5, 9, 9, 4}, {1, 33, 1}, {8, 20, 12, 20, 3}} {
		for f := range netFuncs {
			for pat := 0; pat < 3; pat++ {
				if !c.Mine() {
					continue
				}
				n := 0
				layer := []int{}
				for l, k := range layers {
					n += k
					for i := 0; i < k; i++ {
						layer = append(layer, l)
					}
				}
				ref := newRefNet(n, layers[0], f)
				edges := [][2]int{}
				for s := 0; s < n; s++ {
					for t := layers[0]; t < n; t++ {
						h := mix(uint64(s*n + t + pat*7919))
						skip := pat == 2 && layer[t] > layer[s]+1 && h%5 == 0
						if layer[t] == layer[s]+1 || skip {
							edges = append(edges, [2]int{s, t})
							if pat == 0 || h%4 != 0 {
								ref.w[s][t], ref.has[s][t] = (float64(h>>8%200)-99.5)/400, true
							}
						}
					}
				}
				for t := layers[0]; t < n; t++ {
					ref.b[t] = (float64(mix(uint64(t))%200) - 99.5) / 300
				}
				c.Case("large raw network of layers %v, %s, pattern %d", layers, netFuncNames[f], pat)
				c.State(c.CurCase())
				failErr(c, short(try(func() error {
					x := make([]float64, n)
					for i := 0; i < layers[0]; i++ {
						x[i] = float64(i%3) - 0.75
					}
					return rawTrain(c, ref, func() *neural.Network {
						net := neural.NewNetwork(n, layers[0], netFuncs[f])
						for _, e := range edges {
							if ref.has[e[0]][e[1]] {
								net.SetWeight(e[0]+1, e[1]+1, ref.w[e[0]][e[1]])
							}
						}
						for t := range ref.b {
							net.SetBias(t+1, ref.b[t])
						}
						return net
					}, x, edges)
				})))
				c.Trace()
			}
		}
	}
	// layered networks
	F := func(n string) AD { return AD{'F', n, nil} }
	cats := func(k int) []string {
		r := []string{}
		for i := 0; i < k; i++ {
			r = append(r, fmt.Sprintf("u%d", (i+1)%k))
		}
		return r
	}
	for si, s := range []struct {
		defs  []AD
		class int
	}{
		{[]AD{F("x"), F("z"), AD{'C', "k", cats(5)}}, 2},
		{[]AD{AD{'C', "k", cats(2)}, F("x"), F("z"), F("a")}, 0},
		{[]AD{F("x"), F("y"), AD{'B', "b", nil}}, 1},
		{[]AD{AD{'C', "a", cats(3)}, AD{'C', "k", cats(3)}}, 1},
	} {
		isC := make([]bool, len(s.defs))
		isC[s.class] = true
		mk := func(defs []AD, v [][]string) *Tab {
			t := mkTab(defs, -1, v)
			for j := range defs {
				t.Class[j] = defs[j].Name == s.defs[s.class].Name
			}
			return t
		}
		split := func(row []string) (in, out []float64) {
			for j, d := range s.defs {
				if isC[j] {
					out = append(out, neuronVals(d, row[j])...)
				} else {
					in = append(in, neuronVals(d, row[j])...)
				}
			}
			return in, out
		}
		for li, hidden := range [][]int{{17}, {5, 7, 3}, {33}, {}} {
			for _, n := range []int{17, 40} {
				for pat := 0; pat < 2; pat++ {
					if !c.Mine() {
						continue
					}
					rows := [][]string{}
					for i := 0; i < n; i++ {
						row := []string{}
						for j, d := range s.defs {
							h := mix(uint64(i*len(s.defs) + j + pat*7919))
							switch {
							case d.Kind == 'F' && isC[j]:
								row = append(row, fb(float64(h%5)/4))
							case d.Kind == 'F':
								row = append(row, fb(float64(h%17)/8-1))
							default:
								v := d.vals()
								row = append(row, v[h%uint64(len(v))])
							}
						}
						rows = append(rows, row)
					}
					in0, out0 := split(rows[0])
					sizes := append(append([]int{len(in0)}, hidden...), len(out0))
					t := mk(s.defs, rows)
					sum := si*5 + li*3 + n + pat
					c.Case("large layered network, shape %d, hidden layers %v, %d rows, pattern %d", si, hidden, n, pat)
					c.State(c.CurCase())
					bad := false
					c.Explore(eng.Opt{NormDom: func(k int) []float64 {
						return []float64{(float64(mix(uint64(k+pat))%100) - 49.5) / 20}
					}, MaxDraws: 5000}, func(ch *eng.Chooser) {
						if !bad {
							bad = failErr(c, short(layered(c, ch, s.defs, isC, hidden, sizes, t, rows, rows[:7], split, mk, sum, true)))
						}
					})
					c.Trace()
				}
			}
		}
	}
}

func c43large(c *eng.Ctx) {
	for _, z := range []struct{ n, feats int }{{9, 1}, {17, 5}, {33, 30}, {65, 2}, {130, 9}, {300, 4}, {600, 2}, {2100, 1}} {
		for pat := 0; pat < 4; pat++ {
			for kind := 0; kind < numKinds; kind++ {
				if !c.Mine() {
					continue
				}
				at := []int{0, z.feats, z.feats / 2}[(pat+kind)%3]
				bin := (pat+kind)%2 == 1
				lr, thr := []float64{0.5, 1.25, 0.25}[(pat+kind)%3], []float64{0, 0.5, -0.5}[pat%3]
				k := kind
				if unorderedKind(k) || k == 8 {
					k = 0
				}
				c.Case("large: %d rows of %d features, pattern %d, %s, class in column %d, rate %v, threshold %v", z.n, z.feats, pat, kindNames[k], at, lr, thr)
				c.State(c.CurCase())
				defs := []AD{}
				K := AD{'C', "k", []string{"no", "yes"}}
				if bin {
					K = AD{'B', "k", nil}
				}
				cc := -1
				fc := []int{}
				for j := 0; j <= z.feats; j++ {
					if j == at {
						cc = len(defs)
						defs = append(defs, K)
					}
					if j < z.feats {
						fc = append(fc, len(defs))
						defs = append(defs, AD{'F', fmt.Sprintf("x%02d", z.feats-j), nil})
						if j%4 == 1 {
							defs = append(defs, AD{'C', fmt.Sprintf("note%d", j), []string{"u", "v"}})
						}
					}
				}
				cv := func(v int) string {
					if bin {
						return string([]byte{byte(v)})
					}
					return ub(uint64(v))
				}
				build := func(x [][]float64, cls []int) *Tab {
					t := mkTab(defs, cc, nil)
					for i := range x {
						row := make([]string, len(defs))
						for j, d := range defs {
							switch {
							case j == cc:
								row[j] = cv(cls[i])
							case d.Kind == 'C':
								row[j] = ub(uint64((i + j) % 2))
							}
						}
						for f, j := range fc {
							row[j] = fb(x[i][f])
						}
						t.V = append(t.V, row)
					}
					return t
				}
				x, cls := [][]float64{}, []int{}
				for i := 0; i < z.n; i++ {
					r := []float64{}
					sum := 0.0
					for j := 0; j < z.feats; j++ {
						h := mix(uint64(i*z.feats + j + pat*7919))
						v := float64(h%17)/4 - 2
						if pat == 2 {
							v = float64(h % 2)
						}
						sum += v * float64(j%3-1)
						r = append(r, v)
					}
					v := int(mix(uint64(i+pat*31)) % 2)
					if pat == 1 || pat == 2 {
						v = 0
						if sum+r[0] > 0.5 {
							v = 1
						}
					}
					x, cls = append(x, r), append(cls, v)
				}
				failErr(c, short(try(func() error {
					m := perceptron.NewAveragePerceptron(z.feats, lr, thr, 0.1)
					w := avgPerceptron(x, cls, lr, thr)
					g, _, _ := makeKind(k, build(x, cls))
					if g == nil {
						g = buildDense(build(x, cls), 0)
					}
					m.Fit(g)
					names := []string{}
					a := build(x, cls).A[cc]
					for v := 0; v < 2; v++ {
						names = append(names, a.GetStringFromSysVal([]byte(cv(v))))
					}
					qx := append([][]float64{}, x...)
					for i := range x {
						r := append([]float64{}, x[i]...)
						for j := range r {
							if (i+j)%3 == 0 {
								r[j] = float64(i%7) - r[j]
							}
						}
						qx = append(qx, r)
					}
					for i, scale := range []float64{-1.5, 0.3, 0.6, 0.9, 0.99, 1.01, 1.1, 1.5, 2, 4} { // next to the threshold
						v := 0.0
						for f := range w {
							v += w[f] * x[i%len(x)][f]
						}
						if v == 0 {
							continue
						}
						r := append([]float64{}, x[i%len(x)]...)
						for f := range r {
							r[f] *= scale * (thr + 1e-3) / v
						}
						qx = append(qx, r)
					}
					for lay := 0; lay < 4; lay++ {
						qs := qx
						qt := build(qx, make([]int, len(qx)))
						q := buildDense(qt, kind%3)
						switch lay {
						case 1:
							q = buildDense(reverseCols(qt), kind%3)
						case 2:
							qt.V, qs = qt.V[5:6], qs[5:6]
							q = buildDense(qt, 0)
						}
						var p base.FixedDataGrid
						if lay == 3 {
							qs = x
							p = m.Predict(g)
						} else {
							p = m.Predict(q)
						}
						if p == nil {
							return fmt.Errorf("layout %d: no predictions", lay)
						}
						if _, n := p.Size(); n != len(qs) {
							return fmt.Errorf("layout %d: %d predictions of %d rows", lay, n, len(qs))
						}
						for i, r := range qs {
							c.Trans(1)
							v := -thr
							for f := range w {
								v += w[f] * r[f]
							}
							want := names[0]
							if v > 0 {
								want = names[1]
							}
							if got := base.GetClass(p, i); math.Abs(v) > 1e-9 && got != want {
								return fmt.Errorf("layout %d: row %d scores %v, labelled %q, want %q", lay, i, v+thr, got, want)
							}
						}
					}
					c.Outcome(fmt.Sprintf("%.6v", w))
					c.Trace()
					return nil
				})))
			}
		}
	}
}

func c44large(c *eng.Ctx) {
	for _, z := range []struct{ n, p int }{{9, 2}, {10, 6}, {17, 3}, {6, 10}, {33, 12}, {65, 5}, {100, 20}, {12, 12}, {140, 3}, {300, 2}, {c.Pick(40, 130), 33}} {
		for pat := 0; pat < 6; pat++ {
			if !c.Mine() {
				continue
			}
			data := []float64{}
			for i := 0; i < z.n; i++ {
				for j := 0; j < z.p; j++ {
					h := mix(uint64(i*z.p + j + pat*7919))
					v := float64(h%25)/4 - 3
					switch pat {
					case 1: // of different scales
						v /= float64(1 + j)
					case 2: // of low rank
						u := mix(uint64(i + 5))
						v = float64(u%5) - 2 + float64(j%3)*float64(u>>8%3)
					case 3: // far from the origin
						v += 20
					case 4: // one column constant
						if j == z.p/2 {
							v = 2
						}
					case 5:
						v = float64(h % 2)
					}
					data = append(data, v)
				}
			}
			c.Case("large %dx%d, pattern %d", z.n, z.p, pat)
			c.State(c.CurCase())
			ks := []int{0, 1, 2, z.p / 2, z.p - 1, z.p, z.p + 3}
			c44one(c, z.n, z.p, data, z.n+pat, ks)
		}
	}
}

func c45large(c *eng.Ctx) {
	dir := filepath.Join(c.Scratch, "c45l")
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	for _, s := range subjects() {
		for zi, z := range []struct{ n, wide int }{{17, 5}, {40, 11}, {9, 20}} {
			for kind := 0; kind < numKinds; kind++ {
				if !c.Thorough() && (kind+zi)%3 != len(s.name)%3 || !c.Mine() {
					continue
				}
				if strings.HasPrefix(s.name, "perceptron") {
					z.wide = 2
				}
				t := wideFleet(s.data, z.n, z.wide, zi+1)
				mode := (kind + zi) % 3
				c.Case("large: %s trained on %d rows of %d features, %s, query %d", s.name, z.n, z.wide, kindNames[kind], mode)
				c.State(c.CurCase())
				g, w, st := makeKind(kind, t)
				if g == nil {
					continue
				}
				q, qs := g, st
				if mode != 0 {
					qt := bigQuery(w)
					if mode == 2 {
						qt = ownClass(qt, []string{"w", "u", "v"})
					}
					if qt == nil {
						continue
					}
					q = buildDense(qt, kind%3)
					qs = q
				}
				var fail error
				c.Explore(eng.Opt{MaxPoints: 1, MaxExec: 2, MaxDraws: 200000, IntDom: intEnds, Floats: []float64{0.25, 0.75}, Norms: []float64{0.5, -1}}, func(ch *eng.Chooser) {
					if fail == nil {
						if fail = pure(c, ch, s, g, q, st, qs, dir, kind == 0 && mode <= 1); fail != nil {
							fail = short(fail)
						}
					}
				})
				if !failErr(c, fail) {
					c.Trace()
				}
			}
		}
	}
}

func c41large(c *eng.Ctx) {
	vals := []float64{-3, -0.5, 0, 1, 2}
	for _, z := range []struct{ n, dim, classes int }{{9, 1, 2}, {17, 2, 3}, {33, 4, 2}, {40, 12, 2}, {65, 3, 6}, {130, 5, 4}, {c.Pick(130, 300), 20, 3}} {
		for pat := 0; pat < 4; pat++ {
			for si, s := range linSpecs {
				for ki, C := range []float64{0.05, 1} {
					if !c.Mine() {
						continue
					}
					x, y := make([][]float64, z.n), make([]float64, z.n)
					for i := range x {
						sum := 0.0
						for j := 0; j < z.dim; j++ {
							h := mix(uint64(i*z.dim + j + pat*7919))
							v := float64(h%17)/8 - 1
							switch {
							case pat == 1:
								v = float64(h%3) - 1
							case pat == 2 && h>>8%4 != 0: // sparse
								v = 0
							}
							if j < 3 {
								sum += v
							}
							x[i] = append(x[i], v)
						}
						k := int(mix(uint64(i+pat*31)) % uint64(z.classes))
						if pat == 3 || pat == 1 {
							k = int(sum+30) % z.classes
						}
						y[i] = float64([]int{3, -1, 0, 7, 2, 12}[k])
						if z.classes == 2 {
							y[i] = float64(k)
						}
					}
					kind := (si + ki + pat + z.n) % numKinds
					at := []int{0, z.dim, z.dim / 2}[(pat+si)%3]
					w := ""
					if s.loss != "" && z.classes == 2 {
						w = []string{"", "2,1", "auto"}[(pat+ki)%3]
					}
					c.Case("large: %d rows of %d features, %d classes, pattern %d, %v, C=%v, weights %q, %s, class in column %d", z.n, z.dim, z.classes, pat, s, C, w, kindNames[kind], at)
					c.State(c.CurCase())
					if !failErr(c, short(linOne(c, s, C, w, x, y, vals, kind, at))) {
						c.Trace()
					}
				}
			}
		}
	}
}
