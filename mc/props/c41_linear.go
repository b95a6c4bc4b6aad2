package props

import (
	"fmt"
	"io/ioutil"
	"math"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C41", Run: runC41,
		Rule:   "every multiset of up to n rows over small alphabets of one to three features (negative, zero and positive) and two or three classes, every solver: the weights of the real model are compared with the training objective in every direction of the axes, predictions of every combination of feature values (together, reversed, alone, columns reordered, after saving and loading) with the side of the learned hyperplane, and separable training sets must be reproduced; every combination of parameter texts; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: both classes present",
		Assume: []string{"class labels are integers", "models have no intercept (the library trains without one): separable means by a hyperplane through the origin", "rows within 1e-9 of a hyperplane may get either class, but always the same one"}})
}

type linModel interface {
	Fit(base.FixedDataGrid) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

type linSpec struct {
	loss, penalty string // logistic if loss is empty
	dual          bool
}

var linSpecs = []linSpec{{"l1", "l2", true}, {"l2", "l2", true}, {"l2", "l2", false}, {"l2", "l1", false}, {"", "l2", false}, {"", "l1", false}}

func (s linSpec) String() string {
	if s.loss == "" {
		return "logistic " + s.penalty
	}
	return fmt.Sprintf("svc loss %s penalty %s dual %v", s.loss, s.penalty, s.dual)
}

func (s linSpec) make(C, eps float64) (linModel, error) {
	if s.loss == "" {
		return linear_models.NewLogisticRegression(s.penalty, C, eps)
	}
	return linear_models.NewLinearSVC(s.loss, s.penalty, s.dual, C, eps)
}

// linWeights reads the learned weights: labels and, for each decision function, one weight per feature.
func linWeights(c *eng.Ctx, m linModel) (labels []float64, w [][]float64, err error) {
	v := reflect.ValueOf(m).Elem().FieldByName("model")
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() || v.Type() != reflect.TypeOf(&linear_models.Model{}) {
		return nil, nil, nil
	}
	return exported(c, reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface().(*linear_models.Model))
}

func exported(c *eng.Ctx, model *linear_models.Model) (labels []float64, w [][]float64, err error) {
	path := filepath.Join(c.Scratch, "w")
	if err := linear_models.Export(model, path); err != nil {
		return nil, nil, err
	}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	in := false
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		nums := []float64{}
		for _, t := range f {
			if v, err := strconv.ParseFloat(t, 64); err == nil {
				nums = append(nums, v)
			}
		}
		switch {
		case in:
			if w == nil {
				w = make([][]float64, len(nums))
			}
			for k := range nums {
				w[k] = append(w[k], nums[k])
			}
		case f[0] == "label":
			labels = nums
		case f[0] == "w":
			in = true
		}
	}
	return labels, w, nil
}

func nearW(a, b [][]float64, eps float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if math.Abs(a[i][j]-b[i][j]) > eps {
				return false
			}
		}
	}
	return true
}

func dot(w, x []float64) float64 {
	s := 0.0
	for j := range x {
		s += w[j] * x[j]
	}
	return s
}

// objective is what the solver minimises for one decision function.
func (s linSpec) objective(w []float64, x [][]float64, pos []bool, cost []float64) float64 {
	o := 0.0
	for _, v := range w {
		if s.penalty == "l1" {
			o += math.Abs(v)
		} else {
			o += v * v / 2
		}
	}
	for i := range x {
		d := dot(w, x[i])
		if !pos[i] {
			d = -d
		}
		switch s.loss {
		case "":
			if d > 0 {
				o += cost[i] * math.Log1p(math.Exp(-d))
			} else {
				o += cost[i] * (-d + math.Log1p(math.Exp(d)))
			}
		case "l1":
			o += cost[i] * math.Max(0, 1-d)
		case "l2":
			o += cost[i] * math.Max(0, 1-d) * math.Max(0, 1-d)
		}
	}
	return o
}

// through tells whether some hyperplane with small integer coefficients
// through the origin separates the marked rows from the others.
func through(x [][]float64, pos []bool) bool {
	found := false
	tuples(power(5, len(x[0])), func(ix []int) {
		ok := true
		for i := range x {
			d := 0.0
			for j := range ix {
				d += float64(ix[j]-2) * x[i][j]
			}
			ok = ok && (pos[i] && d >= 1 || !pos[i] && d <= -1)
		}
		found = found || ok
	})
	return found
}

func linPredict(m linModel, g base.FixedDataGrid, n int) ([]float64, error) {
	p, err := m.Predict(g)
	if err != nil {
		return nil, err
	}
	attrs := p.AllClassAttributes()
	cols, rows := p.Size()
	if len(attrs) != 1 || cols != 1 || rows != n {
		return nil, fmt.Errorf("predictions have %d columns (%d class) and %d rows for %d", cols, len(attrs), rows, n)
	}
	spec, err := p.GetAttribute(attrs[0])
	if err != nil {
		return nil, err
	}
	r := []float64{}
	for i := 0; i < rows; i++ {
		r = append(r, base.UnpackBytesToFloat(p.Get(spec, i)))
	}
	return r, nil
}

func linOne(c *eng.Ctx, s linSpec, C float64, weights string, x [][]float64, y []float64, vals []float64, kind, at int) error {
	return try(func() error {
		n, dim := len(x), len(x[0])
		srand(n + kind)
		t := cartTab(x, y, at)
		g, w0, _ := makeKind(kind, t)
		if g == nil {
			return nil
		}
		if kind == 8 {
			t = w0
		}
		m, err := s.make(C, 1e-6)
		if err != nil {
			return err
		}
		svc, _ := m.(*linear_models.LinearSVC)
		count := map[float64]int{}
		for _, v := range y {
			count[v]++
		}
		cost := make([]float64, n)
		for i := range cost {
			cost[i] = C
			switch {
			case weights == "2,1" && y[i] == 0:
				cost[i] *= 2
			case weights == "auto":
				cost[i] /= float64(count[y[i]])
			}
		}
		switch weights {
		case "2,1":
			svc.Param.ClassWeights = []float64{2, 1}
		case "auto":
			svc.Param.WeightClassesAutomatically = true
		}
		if err := m.Fit(g); err != nil {
			return err
		}
		labels, w, err := linWeights(c, m)
		if err != nil {
			return err
		}
		for _, v := range w {
			if len(v) < dim {
				return fmt.Errorf("%d weights for %d features", len(v), dim)
			}
		}
		// queries
		radix := make([]int, dim)
		for j := range radix {
			radix[j] = len(vals)
		}
		var qx [][]float64
		var qy []float64
		add := func(x []float64, y float64) {
			qx, qy = append(qx, append([]float64{}, x...)), append(qy, y)
		}
		if dim > 3 { // mixtures of the training rows
			for i := range x {
				row := append([]float64{}, x[i]...)
				for j := range row {
					if (i+j)%3 == 0 {
						row[j] = vals[(i*5+j)%len(vals)]
					}
				}
				add(row, y[i])
			}
		} else {
			tuples(radix, func(ix []int) {
				row := []float64{}
				for _, i := range ix {
					row = append(row, vals[i])
				}
				add(row, y[len(qx)%n])
			})
		}
		if len(w) == 1 && dim == 2 { // on the hyperplane
			add([]float64{w[0][1], -w[0][0]}, y[0])
			add([]float64{-w[0][1], w[0][0]}, y[0])
		}
		first := len(qx)
		for i := range x {
			add(x[i], y[i])
		}
		q := cartTab(qx, qy, at)
		q.A = t.A
		pred, err := linPredict(m, buildDense(q, 0), len(qx))
		if err != nil {
			return err
		}
		c.Trans(len(qx))
		same := func(what string, got []float64, of func(i int) int) error {
			for i := range got {
				if got[i] != pred[of(i)] {
					return fmt.Errorf("row %v predicted as %v, and %v %s", qx[of(i)], pred[of(i)], got[i], what)
				}
			}
			return nil
		}
		id := func(i int) int { return i }
		got, err := linPredict(m, buildDense(reverseCols(q), 0), len(qx))
		if err != nil {
			return err
		}
		if err := same("with the columns in another order", got, id); err != nil {
			return err
		}
		rev := q.clone()
		for i := range rev.V {
			rev.V[i] = q.V[len(q.V)-1-i]
		}
		if got, err = linPredict(m, buildDense(rev, 0), len(qx)); err != nil {
			return err
		}
		if err := same("with the rows in another order", got, func(i int) int { return len(qx) - 1 - i }); err != nil {
			return err
		}
		for i := range qx {
			if (i%3 == 0 || i >= first) && (n < 9 || i%11 == 0) {
				one := q.clone()
				one.V = q.V[i : i+1]
				if got, err = linPredict(m, buildDense(one, 0), 1); err != nil {
					return err
				}
				if err := same("alone", got, func(int) int { return i }); err != nil {
					return err
				}
			}
		}
		if got, err = linPredict(m, g, n); err != nil {
			return err
		}
		if err := same("in the training grid", got, func(i int) int { return first + i }); err != nil {
			return err
		}
		if svc != nil {
			path := filepath.Join(c.Scratch, "svc")
			if err := svc.Save(path); err != nil {
				return err
			}
			re, err := linSpecs[3].make(C/50, 0.1)
			if err != nil {
				return err
			}
			if err := re.(*linear_models.LinearSVC).Load(path); err != nil {
				return err
			}
			for lay := 0; lay < 2; lay++ {
				qt := q
				if lay == 1 {
					qt = reverseCols(q)
				}
				if got, err = linPredict(re, buildDense(qt, 0), len(qx)); err != nil {
					return err
				}
				if err := same("after saving and loading", got, id); err != nil {
					return err
				}
			}
			if err := re.Fit(g); err != nil {
				return err
			}
			if _, v, err := linWeights(c, re); err != nil || s.penalty == "l2" && !s.dual && C < 1000 && !nearW(v, w, 1e-3) {
				return fmt.Errorf("weights %v, and %v (%v) when trained again after loading", w, v, err)
			}
		}
		// learned classes
		for i := range pred {
			if count[pred[i]] == 0 {
				return fmt.Errorf("row %v predicted as %v, which is no class", qx[i], pred[i])
			}
		}
		sep := dim <= 3
		for k := range count {
			if !sep {
				break
			}
			pos := make([]bool, n)
			for i := range y {
				pos[i] = y[i] == k
			}
			sep = sep && through(x, pos)
		}
		if sep && C >= 1000 && len(count) > 1 {
			c.Count("separable training sets", 1)
			for i := range x {
				if pred[first+i] != y[i] {
					return fmt.Errorf("separable, but row %v of class %v is predicted as %v", x[i], y[i], pred[first+i])
				}
			}
		}
		c.Outcome(fmt.Sprint(s, pred))
		if w == nil || len(labels) != len(count) {
			if w != nil {
				return fmt.Errorf("labels %v, classes %v", labels, count)
			}
			c.Count("models of unknown structure", 1)
			return nil
		}
		if len(count) < 2 {
			return nil
		}
		// The weights follow the grid's own column order, or any other.
		own := []int{}
		for _, a := range base.NonClassFloatAttributes(g) {
			for j, d := range t.A {
				if d.GetName() == a.GetName() && j != at {
					if j > at {
						j--
					}
					own = append(own, j)
				}
			}
		}
		order := [][]int{own}
		if dim > 4 {
			order = append(order, seq(dim))
		} else {
			perms(dim, func(p []int) { order = append(order, append([]int{}, p...)) })
		}
		var worst error
		for _, p := range order {
			v := make([][]float64, len(w))
			for k := range w {
				v[k] = make([]float64, dim)
				for j, to := range p {
					v[k][to] = w[k][j]
				}
			}
			err := s.learned(x, y, qx, pred, labels, v, cost, C)
			if err == nil {
				return nil
			}
			if worst == nil {
				worst = err
			}
		}
		return worst
	})
}

// learned compares predictions with the weights and the weights with the objective.
func (s linSpec) learned(x [][]float64, y []float64, qx [][]float64, pred, labels []float64, w [][]float64, cost []float64, C float64) error {
	// the side of the hyperplane
	for i, row := range qx {
		if len(w) == 1 {
			d := dot(w[0], row)
			want := labels[1]
			if d > 0 {
				want = labels[0]
			}
			if math.Abs(d) > 1e-9 && pred[i] != want {
				return fmt.Errorf("row %v predicted as %v: weights %v say %v", row, pred[i], w[0], want)
			}
			continue
		}
		best := math.Inf(-1)
		for k := range w {
			best = math.Max(best, dot(w[k], row))
		}
		for k := range w {
			if labels[k] == pred[i] && dot(w[k], row) < best-1e-9 {
				return fmt.Errorf("row %v predicted as %v: weights %v", row, pred[i], w)
			}
		}
	}
	// the weights minimise the objective
	if C < 1000 {
		for k := range w {
			pos := make([]bool, len(x))
			for i := range y {
				pos[i] = y[i] == labels[k]
			}
			v := append([]float64{}, w[k]...)
			o := s.objective(v, x, pos, cost)
			for j := range v {
				for _, d := range []float64{-0.1, -0.02, 0.02, 0.1} {
					v[j] += d
					if p := s.objective(v, x, pos, cost); p < o-1e-5*(1+o) {
						return fmt.Errorf("weights %v for class %v have objective %v, %v have %v", w[k], labels[k], o, v, p)
					}
					v[j] = w[k][j]
				}
			}
		}
	}
	return nil
}

// rawOne uses the solvers without grids; a bias is one more feature of that value.
func rawOne(c *eng.Ctx, s linSpec, solver int, bias float64, x [][]float64, y []float64, vals []float64) error {
	return try(func() error {
		srand(len(x))
		m := linear_models.Train(linear_models.NewProblem(x, y, bias), linear_models.NewParameter(solver, 1, 1e-6))
		labels, w, err := exported(c, m)
		if err != nil {
			return err
		}
		re := &linear_models.Model{}
		if err := linear_models.Load(re, filepath.Join(c.Scratch, "w")); err != nil {
			return err
		}
		dim := len(x[0])
		with := func(x []float64) []float64 {
			x = append([]float64{}, x...)
			if bias > 0 {
				x = append(x, bias)
			}
			return x
		}
		for k := range w {
			if len(w[k]) < len(with(x[0])) {
				return fmt.Errorf("%d weights for %d features, bias %v", len(w[k]), dim, bias)
			}
			w[k] = w[k][:len(with(x[0]))]
		}
		var xx, qx [][]float64
		var pred []float64
		for i := range x {
			xx = append(xx, with(x[i]))
		}
		radix := make([]int, dim)
		for j := range radix {
			radix[j] = len(vals)
		}
		tuples(radix, func(ix []int) {
			row := []float64{}
			for _, i := range ix {
				row = append(row, vals[i])
			}
			p := linear_models.Predict(m, row)
			if q := linear_models.Predict(re, row); p != q && err == nil {
				err = fmt.Errorf("row %v predicted as %v, and %v after Export and Load", row, p, q)
			}
			qx, pred = append(qx, with(row)), append(pred, p)
		})
		c.Trans(len(qx))
		if err != nil {
			return err
		}
		cost := make([]float64, len(x))
		for i := range cost {
			cost[i] = 1
		}
		if len(labels) < 2 {
			return nil
		}
		return s.learned(xx, y, qx, pred, labels, w, cost, 1)
	})
}

func runC41(c *eng.Ctx) {
	// parameters
	texts := []string{"l1", "l2", "", "L2", "hinge"}
	for _, loss := range texts {
		for _, pen := range texts {
			for _, dual := range []bool{false, true} {
				if !c.Mine() {
					continue
				}
				c.Case("loss %q penalty %q dual %v", loss, pen, dual)
				c.State(c.CurCase())
				valid := loss == "l1" && pen == "l2" && dual || loss == "l2" && pen == "l2" || loss == "l2" && pen == "l1" && !dual
				failErr(c, try(func() error {
					_, err := linear_models.NewLinearSVC(loss, pen, dual, 1, 1e-3)
					if (err == nil) != valid {
						return fmt.Errorf("NewLinearSVC returns error %v", err)
					}
					if loss == "" {
						_, err := linear_models.NewLogisticRegression(pen, 1, 1e-3)
						if (err == nil) != (pen == "l1" || pen == "l2") {
							return fmt.Errorf("NewLogisticRegression returns error %v", err)
						}
					}
					return nil
				}))
				c.Trace()
			}
		}
	}
	type space struct {
		feats  []float64
		dim    int
		labels []float64
		q, t   int
	}
	spaces := []space{
		{[]float64{-1, 0, 2}, 1, []float64{0, 1}, 4, 6},
		{[]float64{-1, 0, 2}, 2, []float64{0, 1}, 2, 4},
		{[]float64{-1, 0.5}, 2, []float64{-1, 1}, 3, 4},
		{[]float64{-1, 1}, 2, []float64{1, 2, 7}, 3, 4},
		{[]float64{0, 3}, 3, []float64{0, 1}, 2, 3},
	}
	for si, sp := range spaces {
		per := len(sp.labels)
		for j := 0; j < sp.dim; j++ {
			per *= len(sp.feats)
		}
		vals := []float64{-3, -0.5, 0, 1, 2}
		for n := 1; n <= c.Pick(sp.q, sp.t); n++ {
			multisets(per, n, func(ix []int) {
				if !c.Mine() {
					return
				}
				x, y := make([][]float64, n), make([]float64, n)
				for i, k := range ix {
					for j := 0; j < sp.dim; j++ {
						x[i] = append(x[i], sp.feats[k%len(sp.feats)])
						k /= len(sp.feats)
					}
					y[i] = sp.labels[k]
				}
				c.Case("features %v classes %v", x, y)
				c.State(c.CurCase())
				for _, s := range linSpecs {
					solver, ok := map[linSpec]int{{"l2", "l2", false}: linear_models.L2R_L2LOSS_SVC, {"", "l2", false}: linear_models.L2R_LR, {"l1", "l2", true}: linear_models.L2R_L1LOSS_SVC_DUAL}[s]
					for _, bias := range []float64{0, 1, 2} {
						if ok {
							if err := rawOne(c, s, solver, bias, x, y, vals); err != nil {
								failErr(c, fmt.Errorf("%v, bias %v, without grids: %v", s, bias, err))
							} else {
								c.Trace()
							}
						}
					}
					type run struct {
						C float64
						w string
						k int
					}
					runs := []run{{1, "", 0}, {1000, "", 0}}
					if s.loss != "" && si < 2 {
						runs = append(runs, run{1, "2,1", 0}, run{1, "auto", 0})
					}
					if n == 2 {
						for k := 1; k <= 10; k++ {
							runs = append(runs, run{1, "", k})
						}
					}
					for _, r := range runs {
						at := (n + r.k) % (sp.dim + 1)
						err := linOne(c, s, r.C, r.w, x, y, vals, r.k, at)
						if err != nil {
							err = fmt.Errorf("%v, C=%v, weights %q, %s, class in column %d: %v", s, r.C, r.w, kindNames[r.k], at, err)
						}
						if !failErr(c, err) {
							c.Trace()
						}
					}
				}
			})
		}
	}
	c.Sample("features [[-1] [2]] classes [0 1]: separated by the sign of the feature")
	c41large(c)
}
