package props

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/neural"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C42", Run: runC42,
		Rule:   "raw networks: every acyclic network of up to 4 (thorough 5) neurons with weights from {absent, 0.004, -1.5, 2}, biases, three activation functions, all inputs: activations after k steps (also networks with cycles, from every start), back-propagated errors, two weight and bias updates with a connection added and one removed in between, against reverse-mode differentiation written separately. Layered networks: every data set of up to n rows over mixed inputs and float, binary and categorical classes, 0..3 hidden layers, every drawn weight small once, 0..4 passes, several convergence limits: structure, weights after training and predictions (own columns order, equal attributes, other class order) against simulated online gradient descent; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters)",
		Assume: []string{"a tie within 1e-9 between two classes, of an output with 0.5, or of the mean squared error with the limit, may go either way", "connections of a neuron with itself are not trained"}})
}

// ---- reference -------------------------------------------------------------

// refNet is a network: w[s][t] is the weight of the connection from s to t.
type refNet struct {
	n, in int
	f     int // activation function of the other neurons
	w     [][]float64
	has   [][]bool
	b     []float64
}

var netFuncs = []neural.NeuralFunction{neural.Sigmoid, neural.Linear, neural.SoftplusRectifier}
var netFuncNames = []string{"sigmoid", "linear", "softplus"}

func act(f int, z float64) float64 {
	switch f {
	case 0:
		return 1 / (1 + math.Exp(-z))
	case 1:
		return z
	}
	if z > 30 {
		return z + math.Exp(-z)
	}
	return math.Log1p(math.Exp(z))
}

func dact(f int, z float64) float64 {
	switch f {
	case 0:
		return act(0, z) * (1 - act(0, z))
	case 1:
		return 1
	}
	return act(0, z)
}

func newRefNet(n, in, f int) *refNet {
	r := &refNet{n: n, in: in, f: f, b: make([]float64, n)}
	for i := 0; i < n; i++ {
		r.w = append(r.w, make([]float64, n))
		r.has = append(r.has, make([]bool, n))
		if i < in {
			r.w[i][i], r.has[i][i] = 1, true
		}
	}
	return r
}

func (r *refNet) fn(t int) int {
	if t < r.in {
		return 1
	}
	return r.f
}

// step computes one synchronous step.
func (r *refNet) step(a []float64) (next, z []float64) {
	next, z = make([]float64, r.n), make([]float64, r.n)
	for t := 0; t < r.n; t++ {
		z[t] = r.b[t]
		for s := 0; s < r.n; s++ {
			if r.has[s][t] {
				z[t] += r.w[s][t] * a[s]
			}
		}
		next[t] = act(r.fn(t), z[t])
	}
	return next, z
}

// deltas is the gradient of the weighted outputs with respect to the sums of
// the neurons of an acyclic network.
func (r *refNet) deltas(z, e []float64) []float64 {
	d := make([]float64, r.n)
	done := make([]bool, r.n)
	var get func(s int) float64
	get = func(s int) float64 {
		if done[s] {
			return d[s]
		}
		v := e[s]
		for t := 0; t < r.n; t++ {
			if r.has[s][t] && t != s {
				v += r.w[s][t] * get(t)
			}
		}
		d[s], done[s] = v*dact(r.fn(s), z[s]), true
		return d[s]
	}
	for s := r.in; s < r.n; s++ {
		get(s)
	}
	return d
}

func (r *refNet) update(out, d []float64, lr float64) {
	for s := range r.w {
		for t := range r.w {
			if r.has[s][t] && s != t {
				r.w[s][t] += lr * out[s] * d[t]
			}
		}
		if s >= r.in {
			r.b[s] += lr * d[s]
		}
	}
}

func (r *refNet) clone() *refNet {
	o := newRefNet(r.n, r.in, r.f)
	copy(o.b, r.b)
	for i := range r.w {
		copy(o.w[i], r.w[i])
		copy(o.has[i], r.has[i])
	}
	return o
}

// diff compares the network with the code's.
func (r *refNet) diff(n *neural.Network) error {
	for s := 0; s < r.n; s++ {
		for t := 0; t < r.n; t++ {
			if got := n.GetWeight(s+1, t+1); !nearR(got, r.w[s][t]) || (!r.has[s][t] && got != 0) {
				return fmt.Errorf("weight %d->%d is %v, want %v", s+1, t+1, got, r.w[s][t])
			}
		}
		if got := n.GetBias(s + 1); !nearR(got, r.b[s]) {
			return fmt.Errorf("bias of %d is %v, want %v", s+1, got, r.b[s])
		}
	}
	return nil
}

// nearR compares to nine digits.
func nearR(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) == math.IsNaN(b)
	}
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func col(v []float64) *mat.Dense { return mat.NewDense(len(v), 1, append([]float64{}, v...)) }

func diffCol(what string, got *mat.Dense, want []float64, from int) error {
	for i := from; i < len(want); i++ {
		if !nearR(got.At(i, 0), want[i]) {
			return fmt.Errorf("%s: neuron %d has %v, want %v", what, i+1, got.At(i, 0), want[i])
		}
	}
	return nil
}

// ---- raw networks ----------------------------------------------------------

func rawNets(c *eng.Ctx) {
	// derivatives of the activation functions, in terms of their output
	for f := range netFuncs {
		if !c.Mine() {
			continue
		}
		for _, z := range []float64{-30, -3, -1, -0.25, 0, 0.25, 0.5, 1, 2, 5, 20, 700, 710, 1000} {
			c.Case("%s at %v", netFuncNames[f], z)
			failErr(c, try(func() error {
				a := netFuncs[f].Forward(z)
				if !nearR(a, act(f, z)) {
					return fmt.Errorf("forward gives %v, want %v", a, act(f, z))
				}
				if d := netFuncs[f].Backward(a); !nearR(d, dact(f, z)) {
					return fmt.Errorf("backward gives %v, want the derivative %v", d, dact(f, z))
				}
				return nil
			}))
		}
	}
	alpha := []float64{0, 0.004, -1.5, 2}
	type shape struct {
		n, in    int
		rev, cyc bool
		alpha    []float64
	}
	shapes := []shape{
		{2, 1, false, false, alpha}, {3, 1, false, false, alpha}, {3, 1, true, false, alpha}, {3, 2, false, false, alpha},
		{4, 2, false, false, alpha}, {4, 2, true, false, alpha}, {4, 1, true, false, []float64{0, 0.004, -1.5}},
		{3, 1, false, true, []float64{0, 0.5, -1.5}}, {3, 0, false, true, []float64{0, -0.5}},
	}
	if c.Thorough() {
		shapes = append(shapes, shape{4, 1, false, false, alpha}, shape{4, 1, true, false, alpha}, shape{5, 2, false, false, []float64{0, 0.004, -1.5}}, shape{5, 1, true, false, []float64{0, 0.004, -1.5}}, shape{4, 2, false, true, []float64{0, -0.5}})
	}
	for _, sh := range shapes {
		// order of the neurons that are not inputs
		pos := seq(sh.n)
		if sh.rev {
			for i := sh.in; i < sh.n; i++ {
				pos[i] = sh.n - 1 - (i - sh.in)
			}
		}
		edges := [][2]int{}
		for s := 0; s < sh.n; s++ {
			for t := sh.in; t < sh.n; t++ {
				if (s < t || sh.cyc) && (sh.cyc || s != t) {
					edges = append(edges, [2]int{pos[s], pos[t]})
				}
			}
		}
		ins := [][]float64{}
		tuples(power(3, sh.in), func(ix []int) {
			v := make([]float64, sh.n)
			for i, k := range ix {
				v[i] = []float64{1, -2, 0.5}[k]
			}
			ins = append(ins, v)
		})
		tuples(power(len(sh.alpha), len(edges)), func(ix []int) {
			if !c.Mine() || c.Expired() {
				return
			}
			base := newRefNet(sh.n, sh.in, 0)
			used := 0
			for k, e := range edges {
				if v := sh.alpha[ix[k]]; v != 0 {
					base.w[e[0]][e[1]], base.has[e[0]][e[1]] = v, true
					used++
				}
			}
			for f := range netFuncs {
				for bi, bias := range []float64{0, 0.5} {
					if sh.n == 5 && (f+bi)%2 == 0 {
						continue
					}
					ref := base.clone()
					ref.f = f
					for t := sh.in; t < sh.n; t++ {
						ref.b[t] = bias * float64(t-sh.in+1)
					}
					c.Case("%d neurons, %d inputs, %s, weights %v, biases %v", sh.n, sh.in, netFuncNames[f], ref.w, ref.b)
					c.State(fmt.Sprint(ref.w, ref.b, f))
					if used > 1 {
						c.Trace()
					}
					mk := func() *neural.Network {
						n := neural.NewNetwork(sh.n, sh.in, netFuncs[f])
						for _, e := range edges {
							if ref.has[e[0]][e[1]] {
								n.SetWeight(e[0]+1, e[1]+1, ref.w[e[0]][e[1]])
							}
						}
						for t := range ref.b {
							n.SetBias(t+1, ref.b[t])
						}
						return n
					}
					for _, x := range ins {
						if failErr(c, try(func() error {
							if sh.cyc {
								return rawCyclic(c, ref, mk, x)
							}
							return rawTrain(c, ref, mk, x, edges)
						})) {
							return
						}
					}
				}
			}
		})
	}
}

// rawCyclic checks every number of steps, and an update by arbitrary errors.
func rawCyclic(c *eng.Ctx, ref *refNet, mk func() *neural.Network, x []float64) error {
	for start := 0; start < 2; start++ {
		a := append([]float64{}, x...)
		if start == 1 {
			for i := range a {
				a[i] += float64(i) - 0.5
			}
		}
		from := append([]float64{}, a...)
		for k := 0; k <= 3; k++ {
			n := mk()
			v := col(from)
			n.Activate(v, k)
			c.Trans(1)
			if err := diffCol(fmt.Sprintf("activation from %v after %d steps", from, k), v, a, 0); err != nil {
				return err
			}
			a, _ = ref.step(a)
		}
		r, n := ref.clone(), mk()
		e := make([]float64, ref.n)
		for i := range e {
			e[i] = float64(i+1) / 4
		}
		n.UpdateWeights(col(from), col(e), 0.5)
		n.UpdateBias(col(e), 0.5)
		r.update(from, e, 0.5)
		if err := r.diff(n); err != nil {
			return fmt.Errorf("update by errors %v: %v", e, err)
		}
	}
	return nil
}

// rawTrain checks activation, error and two updates of an acyclic network.
func rawTrain(c *eng.Ctx, ref *refNet, mk func() *neural.Network, x []float64, edges [][2]int) error {
	for mode := 0; mode < 4; mode++ {
		r, n := ref.clone(), mk()
		if err := r.diff(n); err != nil {
			return fmt.Errorf("as built: %v", err)
		}
		lr := []float64{0.5, 0.9}[mode%2]
		for round := 0; round < 3; round++ {
			var z []float64
			a := append([]float64{}, x...)
			for k := 0; k < r.n; k++ {
				a, z = r.step(a)
			}
			out := col(x)
			n.Activate(out, r.n)
			if err := diffCol(fmt.Sprintf("input %v, update %d: activation", x, round), out, a, 0); err != nil {
				return err
			}
			e := make([]float64, r.n)
			for t := r.in; t < r.n; t++ { // the last neuron is the output, or every one
				if mode < 2 && t != edges[len(edges)-1][1] {
					continue
				}
				e[t] = float64(t%2) + 0.25*float64(round) - a[t]
			}
			d := r.deltas(z, e)
			ec := col(e)
			got := n.Error(out, ec, r.n+1)
			if err := diffCol(fmt.Sprintf("input %v, update %d, output errors %v: back-propagated error", x, round, e), got, d, r.in); err != nil {
				return err
			}
			if err := diffCol("errors passed in", ec, e, 0); err != nil {
				return err
			}
			if err := diffCol("outputs passed in", out, a, 0); err != nil {
				return err
			}
			n.UpdateWeights(out, got, lr)
			n.UpdateBias(got, lr)
			r.update(a, d, lr)
			c.Trans(1)
			if err := r.diff(n); err != nil {
				return fmt.Errorf("input %v, output errors %v: after update %d: %v", x, e, round+1, err)
			}
			if round == 0 && mode >= 1 {
				// add the first absent connection, cut the last present one
				for _, e := range edges {
					if !r.has[e[0]][e[1]] {
						r.w[e[0]][e[1]], r.has[e[0]][e[1]] = 0.7, true
						n.SetWeight(e[0]+1, e[1]+1, 0.7)
						break
					}
				}
				for i := len(edges) - 1; i >= 0; i-- {
					if e := edges[i]; mode >= 2 && r.has[e[0]][e[1]] {
						r.w[e[0]][e[1]], r.has[e[0]][e[1]] = 0, false
						n.SetWeight(e[0]+1, e[1]+1, 0)
						break
					}
				}
			}
		}
	}
	return nil
}

// ---- layered networks ------------------------------------------------------

// netOf finds the network inside (nil if there is no such field).
func netOf(m *neural.MultiLayerNet) *neural.Network {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(&neural.Network{}) {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*neural.Network)
		}
	}
	return nil
}

// neurons of one attribute: the values it sets
func neuronVals(d AD, v string) []float64 {
	switch d.Kind {
	case 'F':
		return []float64{base.UnpackBytesToFloat([]byte(v))}
	case 'B':
		return []float64{float64(v[0])}
	}
	k := int(base.UnpackBytesToU64([]byte(v)))
	if len(d.Cats) <= 2 {
		return []float64{float64(k)}
	}
	r := make([]float64, len(d.Cats))
	r[k] = 1
	return r
}

func layeredNets(c *eng.Ctx) {
	F := func(n string) AD { return AD{'F', n, nil} }
	C := func(n string, k int) AD { return AD{'C', n, []string{"u", "v", "w"}[:k]} }
	type shape struct {
		defs    []AD
		class   []int
		fs      []float64 // values of float inputs
		predict bool
		q, t    int
	}
	shapes := []shape{
		{[]AD{F("x"), F("y")}, []int{1}, []float64{1, -2}, true, 3, 5},
		{[]AD{F("x2"), F("x1"), F("y")}, []int{2}, []float64{0, 1}, true, 2, 4},
		{[]AD{F("y"), F("x"), F("y0")}, []int{0, 2}, []float64{1, -2}, true, 2, 2},
		{[]AD{F("x"), C("k", 2)}, []int{1}, []float64{1, -2}, true, 3, 5},
		{[]AD{C("k", 3), F("x")}, []int{0}, []float64{1, -2}, true, 2, 3},
		{[]AD{F("x"), C("k", 1)}, []int{1}, []float64{1, -2}, true, 2, 3},
		{[]AD{C("k", 2), C("a", 3), AD{'B', "b", nil}}, []int{0}, nil, true, 2, 2},
		{[]AD{C("a", 2), F("y"), AD{'B', "b", nil}}, []int{1}, nil, true, 2, 2},
		{[]AD{F("x"), AD{'B', "b", nil}, C("a", 3)}, []int{1}, []float64{1, -2}, false, 2, 2},
		{[]AD{F("x"), C("a", 3), AD{'F', "y", nil}}, []int{1, 2}, []float64{1, -2}, false, 2, 2},
		{[]AD{C("k", 2)}, []int{0}, nil, true, 2, 6},
	}
	layouts := [][]int{{}, {1}, {2}, {2, 1}, {1, 2, 1}}
	for si, s := range shapes {
		isC := make([]bool, len(s.defs))
		for _, j := range s.class {
			isC[j] = true
		}
		vals := make([][]string, len(s.defs))
		radix := []int{}
		for j, d := range s.defs {
			switch {
			case d.Kind == 'F' && isC[j]:
				vals[j] = []string{fb(0), fb(1)}
			case d.Kind == 'F':
				for _, f := range s.fs {
					vals[j] = append(vals[j], fb(f))
				}
			default:
				vals[j] = d.vals()
			}
			radix = append(radix, len(vals[j]))
		}
		all := [][]string{} // every row
		tuples(radix, func(ix []int) {
			row := []string{}
			for j, k := range ix {
				row = append(row, vals[j][k])
			}
			all = append(all, row)
		})
		mk := func(defs []AD, v [][]string) *Tab {
			t := mkTab(defs, -1, v)
			for j := range defs {
				for _, k := range s.class {
					if defs[j].Name == s.defs[k].Name {
						t.Class[j] = true
					}
				}
			}
			return t
		}
		// inputs and targets of a row, in the order of the columns
		split := func(row []string) (in, out []float64) {
			for j, d := range s.defs {
				if isC[j] {
					out = append(out, neuronVals(d, row[j])...)
				} else {
					in = append(in, neuronVals(d, row[j])...)
				}
			}
			return in, out
		}
		in0, out0 := split(all[0])
		I, O := len(in0), len(out0)
		for n := 1; n <= c.Pick(s.q, s.t); n++ {
			tuples(power(len(all), n), func(ix []int) {
				if !c.Mine() || c.Expired() {
					return
				}
				sum := 0
				rows := [][]string{}
				for i, k := range ix {
					sum += (i + 1) * k
					rows = append(rows, all[k])
				}
				t := mk(s.defs, rows)
				for li, hidden := range layouts {
					if n > 2 && (sum+li)%len(layouts) != 0 {
						continue
					}
					sizes := append(append([]int{I}, hidden...), O)
					draws := 0
					for l := 1; l < len(sizes); l++ {
						draws += sizes[l] * (1 + sizes[l-1])
					}
					for small := -1; small < draws; small++ {
						if small >= 0 && (sum+li)%3 != 0 {
							continue
						}
						c.Case("shape %d, hidden layers %v, draw %d is small, rows %s", si, hidden, small, t)
						c.State(fmt.Sprint(t, hidden, small))
						if n > 1 {
							c.Trace()
						}
						bad := false
						c.Explore(eng.Opt{NormDom: func(k int) []float64 {
							if k == small {
								return []float64{0.03}
							}
							v := (float64(k%7) + 1.5) * float64(1-2*(k%2))
							if k == sum%5 {
								return []float64{v, -12.5, 4.5}
							}
							return []float64{v + float64(k)/16}
						}, MaxDraws: 500}, func(ch *eng.Chooser) {
							if bad {
								return
							}
							bad = failErr(c, layered(c, ch, s.defs, isC, hidden, sizes, t, rows, all, split, mk, sum, s.predict))
						})
						if bad {
							return
						}
					}
				}
			})
		}
	}
}

// layered checks one data set, network layout and sequence of draws.
func layered(c *eng.Ctx, ch *eng.Chooser, defs []AD, isC []bool, hidden, sizes []int, t *Tab, rows, all [][]string, split func([]string) ([]float64, []float64), mk func([]AD, [][]string) *Tab, sum int, predict bool) error {
	I, O := sizes[0], sizes[len(sizes)-1]
	total := 0
	layer := []int{}
	for l, k := range sizes {
		total += k
		for j := 0; j < k; j++ {
			layer = append(layer, l)
		}
	}
	kind := sum % numKinds
	g, _, _ := makeKind(kind, t)
	if g == nil || unorderedKind(kind) || kindNames[kind] == "matrix" {
		g, kind = buildDense(t, 0), 0
	}
	// every training starts from the same draws
	prefix := ch
	var script []float64
	run := func(iters int, conv, lr float64, m *neural.MultiLayerNet) error {
		m.MaxIterations, m.Convergence, m.LearningRate = iters, conv, lr
		if script == nil {
			n0 := len(prefix.Log)
			if p := prefix.Call(func() { m.Fit(g) }); p != nil {
				return fmt.Errorf("%s: Fit panics: %v", kindNames[kind], p)
			}
			for _, l := range prefix.Log[n0:] {
				var v float64
				fmt.Sscanf(l, "norm=%g", &v)
				script = append(script, v)
			}
			return nil
		}
		r := eng.ReplayNorms(script)
		if p := r.Call(func() { m.Fit(g) }); p != nil {
			return fmt.Errorf("%s: Fit panics: %v", kindNames[kind], p)
		}
		return nil
	}
	m0 := neural.NewMultiLayerNet(hidden)
	if err := run(0, 0.001, 0.5, m0); err != nil {
		return err
	}
	n0 := netOf(m0)
	if n0 == nil {
		c.Outcome("no network inside")
		return nil
	}
	// structure
	init := newRefNet(total, I, 0)
	for s := 0; s < total; s++ {
		for t := 0; t < total; t++ {
			w := n0.GetWeight(s+1, t+1)
			want := layer[t] == layer[s]+1
			if s == t && s < I {
				if w != 1 {
					return fmt.Errorf("input %d is connected to itself with %v, want 1", s+1, w)
				}
				continue
			}
			if (w != 0) != want {
				return fmt.Errorf("the weight from neuron %d (layer %d) to %d (layer %d) is %v", s+1, layer[s]+1, t+1, layer[t]+1, w)
			}
			init.w[s][t], init.has[s][t] = w, want
		}
		init.b[s] = n0.GetBias(s + 1)
		if (init.b[s] != 0) != (s >= I) {
			return fmt.Errorf("the bias of neuron %d (layer %d of %d) is %v", s+1, layer[s]+1, len(sizes), init.b[s])
		}
	}
	// assignments of columns to neurons which explain everything seen so far
	type asg struct{ in, out []int }
	cands := []asg{}
	perms(I, func(p []int) {
		in := append([]int{}, p...)
		perms(O, func(q []int) {
			cands = append(cands, asg{in, append([]int{}, q...)})
		})
	})
	forward := func(r *refNet, a asg, in []float64) (v, z []float64) {
		v = make([]float64, total)
		for j, x := range in {
			v[a.in[j]] = x
		}
		for k := 1; k < len(sizes); k++ {
			v, z = r.step(v)
		}
		return v, z
	}
	// simulate trains; amb: a stop decision was too close to call
	simulate := func(a asg, iters int, conv, lr float64) (r *refNet, amb bool) {
		r = init.clone()
		for k := 0; k < iters; k++ {
			mse := 0.0
			for _, row := range rows {
				in, out := split(row)
				v, z := forward(r, a, in)
				e := make([]float64, total)
				for j, y := range out {
					o := total - O + a.out[j]
					e[o] = y - v[o]
					mse += e[o] * e[o]
				}
				r.update(v, r.deltas(z, e), lr)
			}
			mse /= float64(len(rows))
			if math.Abs(mse-conv) < 1e-9 {
				return r, true
			}
			if mse < conv {
				c.Outcome(fmt.Sprint("stop", k, iters))
				break
			}
		}
		return r, false
	}
	type want struct {
		iters    int
		conv, lr float64
	}
	trained := []*neural.MultiLayerNet{m0}
	wants := []want{{0, 0.001, 0.5}}
	for k, w := range []want{{1, 0.001, 0.5}, {3, 0.3, 0.9}, {2, 1e9, 0.5}, {4, 0.6, -0.5 + float64(sum%4)}} {
		m := neural.NewMultiLayerNet(hidden)
		if k == 1 { // trained before
			m = m0
			trained, wants = nil, nil
		}
		if err := run(w.iters, w.conv, w.lr, m); err != nil {
			return err
		}
		nw := netOf(m)
		kept := []asg{}
		var err error
		for _, a := range cands {
			r, amb := simulate(a, w.iters, w.conv, w.lr)
			if amb {
				kept = append(kept, a)
				continue
			}
			if e := r.diff(nw); e == nil {
				kept = append(kept, a)
			} else if err == nil {
				err = e
			}
		}
		c.Trans(1)
		if len(kept) == 0 {
			return fmt.Errorf("%s, %d passes, convergence %v, learning rate %v: %v", kindNames[kind], w.iters, w.conv, w.lr, err)
		}
		cands = kept
		trained, wants = append(trained, m), append(wants, w)
	}
	if !predict {
		return nil
	}
	// predictions of every row, in several forms
	rev := []AD{}
	for j := len(defs) - 1; j >= 0; j-- {
		rev = append(rev, defs[j])
	}
	other := append([]AD{}, defs...) // classes in another order
	for j, d := range defs {
		if isC[j] && d.Kind == 'C' {
			other[j].Cats = nil
			for k := len(d.Cats) - 1; k >= 0; k-- {
				other[j].Cats = append(other[j].Cats, d.Cats[k])
			}
		}
	}
	flip := func(v [][]string) [][]string {
		r := [][]string{}
		for _, row := range v {
			o := []string{}
			for j := len(row) - 1; j >= 0; j-- {
				o = append(o, row[j])
			}
			r = append(r, o)
		}
		return r
	}
	for ti, m := range trained {
		last := netOf(m)
		r := init.clone()
		for s := range r.w {
			for t := range r.w {
				r.w[s][t] = last.GetWeight(s+1, t+1)
			}
			r.b[s] = last.GetBias(s + 1)
		}
		qt := mk(defs, all)
		qk := (sum + ti) % 9
		qg, _, _ := makeKind(qk, qt)
		if qg == nil || unorderedKind(qk) || kindNames[qk] == "matrix" {
			qg = buildDense(qt, 0)
		}
		type query struct {
			what string
			g    base.FixedDataGrid
			rows [][]string
		}
		qs := []query{{"training rows", g, rows}, {"all rows", qg, all}, {"columns reversed", buildDense(mk(rev, flip(all)), (sum+ti)%3), all},
			{"classes in another order", buildDense(mk(other, all), 0), all}, {"one row", buildDense(mk(defs, all[len(all)-1:]), 0), all[len(all)-1:]}, {"no rows", buildDense(mk(defs, nil), 0), nil}}
		for _, q := range qs {
			var p base.FixedDataGrid
			if pn := eng.Try(func() { p = m.Predict(q.g) }); pn != nil {
				return fmt.Errorf("%s: Predict panics: %v", q.what, pn)
			}
			nc := 0
			for j := range isC {
				if isC[j] {
					nc++
				}
			}
			if cols, n := p.Size(); n != len(q.rows) || cols != nc {
				return fmt.Errorf("%s: predictions of size %dx%d, want %dx%d", q.what, cols, n, nc, len(q.rows))
			}
			kept := []asg{}
			var err error
			for _, a := range cands {
				e := func() error {
					for i, row := range q.rows {
						in, _ := split(row)
						v, _ := forward(r, a, in)
						o := []float64{}
						for j := 0; j < O; j++ {
							o = append(o, v[total-O+a.out[j]])
						}
						if e := samePrediction(c, p, i, defs, isC, o); e != nil {
							return fmt.Errorf("row %q: %v", row, e)
						}
					}
					return nil
				}()
				if e == nil {
					kept = append(kept, a)
				} else if err == nil {
					err = e
				}
			}
			if len(kept) == 0 {
				return fmt.Errorf("after %+v: %s: %v", wants[ti], q.what, err)
			}
			cands = kept
		}
	}
	return nil
}

// samePrediction compares row i of p with the outputs o.
func samePrediction(c *eng.Ctx, p base.FixedDataGrid, i int, defs []AD, isC []bool, o []float64) error {
	k := 0
	for j, d := range defs {
		if !isC[j] {
			continue
		}
		a := base.GetAttributeByName(p, d.Name)
		if a == nil {
			return fmt.Errorf("no predicted column %s", d.Name)
		}
		spec, err := p.GetAttribute(a)
		if err != nil {
			return err
		}
		got := p.Get(spec, i)
		if d.Kind == 'F' {
			if v := base.UnpackBytesToFloat(got); !nearR(v, o[k]) {
				return fmt.Errorf("predicted %s is %v, want %v", d.Name, v, o[k])
			}
			k++
			continue
		}
		name := a.GetStringFromSysVal(got)
		ok := map[string]bool{}
		if len(d.Cats) <= 2 {
			if o[k] > 0.5-1e-9 {
				ok[d.Cats[len(d.Cats)-1]] = true
			}
			if o[k] < 0.5+1e-9 || len(d.Cats) == 1 {
				ok[d.Cats[0]] = true
			}
		} else {
			best := math.Inf(-1)
			for x := range d.Cats {
				best = math.Max(best, o[k+x])
			}
			for x, n := range d.Cats {
				if o[k+x] > best-1e-9 {
					ok[n] = true
				}
			}
		}
		c.Outcome(name)
		if !ok[name] {
			return fmt.Errorf("predicted %s is %q, outputs %v stand for %v", d.Name, name, o, d.Cats)
		}
		return nil
	}
	return nil
}

func runC42(c *eng.Ctx) {
	rawNets(c)
	layeredNets(c)
	c.Sample("neurons 1,2 -> 3 -> 4, sigmoid, weights 0.004 -1.5 2, input (1,-2), target 1")
	c42large(c)
	c42wide(c)
}
