package props

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C33", Run: runC33,
		Rule:   "every sequence (or multiset, in two orders) of up to n rows over small alphabets of one or two features (neighbouring floating point numbers, huge and negative ones included) and labels or targets, every criterion and maximum depth: the real tree is walked beside the rows that reach each node, every split's impurity is compared with every other possible split of those rows, and predictions on every combination of feature values, thresholds included, with the leaf they lead to; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: trees with at least one split",
		Assume: []string{"impurities within 1e-9 (relative to the largest target) count as equal", "the list of labels given to the constructor contains every label"}})
}

// cart is a copy of a real tree.
type cart struct {
	l, r       *cart
	thr        float64
	f          int
	lp, rp     float64
	structured bool
}

func cartOf(v reflect.Value) *cart {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	num := func(names ...string) (float64, bool) {
		for _, n := range names {
			f := v.FieldByName(n)
			if f.IsValid() {
				if f.Kind() == reflect.Float64 {
					return f.Float(), true
				}
				return float64(f.Int()), true
			}
		}
		return 0, false
	}
	if v.Kind() != reflect.Struct || !v.FieldByName("Left").IsValid() || !v.FieldByName("Right").IsValid() {
		return nil
	}
	n := &cart{l: cartOf(v.FieldByName("Left")), r: cartOf(v.FieldByName("Right"))}
	var a, b, c, d bool
	n.thr, a = num("Threshold")
	var f float64
	f, b = num("Feature")
	n.f = int(f)
	n.lp, c = num("LeftLabel", "LeftPred")
	n.rp, d = num("RightLabel", "RightPred")
	if !(a && b && c && d) {
		return nil
	}
	return n
}

// impurity of the targets of some rows.
func impurity(crit string, y []float64, rows []int) float64 {
	n := float64(len(rows))
	cnt := map[float64]int{}
	mean := 0.0
	for _, r := range rows {
		cnt[y[r]]++
		mean += y[r] / n
	}
	if len(cnt) <= 1 {
		return 0
	}
	s := 0.0
	switch crit {
	case "gini":
		s = 1
		for _, k := range cnt {
			s -= float64(k) / n * float64(k) / n
		}
	case "entropy":
		for _, k := range cnt {
			s -= float64(k) / n * math.Log2(float64(k)/n)
		}
	case "mae":
		for _, r := range rows {
			s += math.Abs(y[r]-mean) / n
		}
	case "mse":
		for _, r := range rows {
			s += (y[r] - mean) * (y[r] - mean) / n
		}
	}
	return s
}

func cartParts(x [][]float64, rows []int, f int, thr float64) (l, r []int) {
	for _, i := range rows {
		if x[i][f] < thr {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

func weighted(crit string, y []float64, l, r []int) float64 {
	n := float64(len(l) + len(r))
	return float64(len(l))/n*impurity(crit, y, l) + float64(len(r))/n*impurity(crit, y, r)
}

// bestSplit is the lowest impurity of any split that leaves rows on both sides.
func bestSplit(crit string, x [][]float64, y []float64, rows []int) float64 {
	best := math.Inf(1)
	for f := range x[0] {
		for _, at := range rows {
			l, r := cartParts(x, rows, f, x[at][f])
			if len(l) > 0 && len(r) > 0 {
				best = math.Min(best, weighted(crit, y, l, r))
			}
		}
	}
	return best
}

func isClassifier(crit string) bool { return crit == "gini" || crit == "entropy" }

// leafValue decides whether v is what a leaf with these rows predicts.
func leafValue(crit string, y []float64, rows []int, v float64) error {
	cnt := map[float64]int{}
	sum, big := 0.0, 0.0
	for _, r := range rows {
		cnt[y[r]]++
		sum += y[r]
		big = math.Max(big, math.Abs(y[r]))
	}
	if isClassifier(crit) {
		for k, n := range cnt {
			if n > cnt[v] {
				return fmt.Errorf("label %v for targets %v (%d of them are %v)", v, cnt, n, k)
			}
		}
		return nil
	}
	if mean := sum / float64(len(rows)); math.Abs(mean-v) > 1e-9*(1+big) {
		return fmt.Errorf("value %v for targets %v, their mean is %v", v, cnt, mean)
	}
	return nil
}

// checkCart compares a node that rows reach with every split it could have.
func checkCart(crit string, n *cart, x [][]float64, y []float64, rows []int, depth, max int, splits *int) error {
	scale := 1.0
	for _, v := range y {
		scale = math.Max(scale, math.Abs(v))
		if crit == "mse" {
			scale = math.Max(scale, v*v)
		}
	}
	eps := 1e-9 * scale
	whole := impurity(crit, y, rows)
	if n.f < 0 || n.f >= len(x[0]) {
		return fmt.Errorf("split on feature %d of %d", n.f, len(x[0]))
	}
	l, r := cartParts(x, rows, n.f, n.thr)
	if whole == 0 {
		return fmt.Errorf("rows %v with equal targets are split", rows)
	}
	if max >= 0 && depth > max {
		return fmt.Errorf("split at depth %d, the maximum is %d", depth, max)
	}
	if len(l) == 0 || len(r) == 0 {
		return fmt.Errorf("split of rows %v at feature %d < %v has an empty side", rows, n.f, n.thr)
	}
	best, got := bestSplit(crit, x, y, rows), weighted(crit, y, l, r)
	if got > best+eps {
		return fmt.Errorf("split of rows %v at feature %d < %v has impurity %v, the best has %v", rows, n.f, n.thr, got, best)
	}
	*splits++
	for _, side := range []struct {
		ch   *cart
		v    float64
		rows []int
	}{{n.l, n.lp, l}, {n.r, n.rp, r}} {
		if side.ch != nil {
			if err := checkCart(crit, side.ch, x, y, side.rows, depth+1, max, splits); err != nil {
				return err
			}
			continue
		}
		if err := leafValue(crit, y, side.rows, side.v); err != nil {
			return err
		}
		if err := unsplit(crit, x, y, side.rows, depth+1, max, eps); err != nil {
			return err
		}
	}
	return nil
}

// unsplit decides whether rows may stay together.
func unsplit(crit string, x [][]float64, y []float64, rows []int, depth, max int, eps float64) error {
	if max >= 0 && depth > max {
		return nil
	}
	whole, best := impurity(crit, y, rows), bestSplit(crit, x, y, rows)
	if best < whole-eps {
		return fmt.Errorf("rows %v with impurity %v are not split, the best split has %v", rows, whole, best)
	}
	return nil
}

// cartEnd follows a row to a prediction.
func cartEnd(n *cart, x []float64) float64 {
	for {
		if x[n.f] < n.thr {
			if n.l == nil {
				return n.lp
			}
			n = n.l
		} else {
			if n.r == nil {
				return n.rp
			}
			n = n.r
		}
	}
}

type cartTree interface {
	Fit(base.FixedDataGrid) error
}

func cartPredict(m cartTree, g base.FixedDataGrid) []float64 {
	switch t := m.(type) {
	case *trees.CARTDecisionTreeClassifier:
		r := []float64{}
		for _, v := range t.Predict(g) {
			r = append(r, float64(v))
		}
		return r
	case *trees.CARTDecisionTreeRegressor:
		return t.Predict(g)
	}
	panic("model")
}

func cartRoot(m cartTree) *cart {
	switch t := m.(type) {
	case *trees.CARTDecisionTreeClassifier:
		return cartOf(reflect.ValueOf(t.RootNode))
	case *trees.CARTDecisionTreeRegressor:
		return cartOf(reflect.ValueOf(t.RootNode))
	}
	panic("model")
}

// cartTab stores features and targets; the class is column at.
func cartTab(x [][]float64, y []float64, at int) *Tab {
	defs := []AD{}
	for j := range x[0] {
		defs = append(defs, AD{'F', fmt.Sprint("f", j), nil})
	}
	all := append([]AD{}, defs[:at]...)
	all = append(all, AD{'F', "y", nil})
	all = append(all, defs[at:]...)
	t := mkTab(all, at, nil)
	for i := range x {
		row := []string{}
		for j := range x[i] {
			row = append(row, fb(x[i][j]))
		}
		full := append([]string{}, row[:at]...)
		full = append(full, fb(y[i]))
		t.V = append(t.V, append(full, row[at:]...))
	}
	return t
}

func cartMake(crit string, max int, labels []int64) cartTree {
	if isClassifier(crit) {
		return trees.NewDecisionTreeClassifier(crit, int64(max), labels)
	}
	return trees.NewDecisionTreeRegressor(crit, int64(max))
}

func cartOne(c *eng.Ctx, crit string, max int, labels []int64, x [][]float64, y []float64, kind, at int) error {
	return try(func() error {
		t := cartTab(x, y, at)
		g, w, _ := makeKind(kind, t)
		if g == nil {
			return nil
		}
		if kind == 8 { // a matrix has attributes of its own
			t = w
		}
		m := cartMake(crit, max, labels)
		if err := m.Fit(g); err != nil {
			return err
		}
		rows := seq(len(x))
		// the training rows as the query; column order as trained
		pred := cartPredict(m, g)
		if len(pred) != len(x) {
			return fmt.Errorf("%d predictions for %d rows", len(pred), len(x))
		}
		if cartRoot(m) == nil {
			c.Count("trees of unknown structure", 1)
			return nil
		}
		// The numbers that the tree gives to the features follow the grid's
		// own column order, or any other.
		var first error
		own := []int{}
		for _, a := range base.NonClassFloatAttributes(g) {
			for j, d := range t.A {
				if d.GetName() == a.GetName() && j != at {
					if j > at {
						j--
					}
					own = append(own, j)
				}
			}
		}
		order := [][]int{own}
		perms(len(x[0]), func(p []int) { order = append(order, append([]int{}, p...)) })
		for _, p := range order {
			err := cartTree1(c, crit, max, m, t, p, x, y, at, rows, pred)
			if err == nil {
				return nil
			}
			if first == nil {
				first = err
			}
		}
		return first
	})
}

func renumber(n *cart, p []int) {
	if n != nil {
		if n.f >= 0 && n.f < len(p) {
			n.f = p[n.f]
		}
		renumber(n.l, p)
		renumber(n.r, p)
	}
}

func cartTree1(c *eng.Ctx, crit string, max int, m cartTree, t *Tab, p []int, x [][]float64, y []float64, at int, rows []int, pred []float64) error {
	return try(func() error {
		root := cartRoot(m)
		renumber(root, p)
		eps := 1e-9
		for _, v := range y {
			eps = math.Max(eps, 1e-9*math.Abs(v)*math.Max(1, math.Abs(v)))
		}
		splits := 0
		if root.l == nil && root.r == nil && root.lp == root.rp && unsplit(crit, x, y, rows, 1, max, eps) == nil {
			// one leaf
			for _, v := range []float64{root.lp, root.rp} {
				if err := leafValue(crit, y, rows, v); err != nil {
					return fmt.Errorf("a tree without splits: %v", err)
				}
			}
		} else if err := checkCart(crit, root, x, y, rows, 1, max, &splits); err != nil {
			return err
		}
		// every combination of values, in training and in another column order
		vals := make([][]float64, len(x[0]))
		for j := range vals {
			set := map[float64]bool{-1e300: true, 0: true, 1e300: true}
			for i := range x {
				set[x[i][j]] = true
			}
			var add func(n *cart)
			add = func(n *cart) {
				if n != nil {
					if n.f == j {
						set[n.thr] = true
						set[math.Nextafter(n.thr, -1e308)] = true
					}
					add(n.l)
					add(n.r)
				}
			}
			add(root)
			for v := range set {
				vals[j] = append(vals[j], v)
			}
			sortFloats(vals[j])
		}
		radix := []int{}
		for _, v := range vals {
			radix = append(radix, len(v))
		}
		var qx [][]float64
		var qy []float64
		tuples(radix, func(ix []int) {
			row := []float64{}
			for j := range ix {
				row = append(row, vals[j][ix[j]])
			}
			qx = append(qx, row)
			qy = append(qy, y[len(qx)%len(y)])
		})
		q := cartTab(qx, qy, at)
		q.A = t.A
		for lay := 0; lay < 2; lay++ {
			qt := q
			if lay == 1 {
				qt = reverseCols(q)
			}
			qg := buildDense(qt, 0)
			pred := cartPredict(m, qg)
			if len(pred) != len(qx) {
				return fmt.Errorf("%d predictions for %d rows", len(pred), len(qx))
			}
			right := 0.0
			for i := range qx {
				if want := cartEnd(root, qx[i]); pred[i] != want {
					return fmt.Errorf("row %v predicted as %v, its leaf says %v (column order %d)", qx[i], pred[i], want, lay)
				}
				if pred[i] == qy[i] {
					right++
				}
			}
			if cl, ok := m.(*trees.CARTDecisionTreeClassifier); ok {
				acc, err := cl.Evaluate(qg)
				if err != nil || math.Abs(acc-right/float64(len(qx))) > 1e-9 {
					return fmt.Errorf("accuracy %v (%v), want %v of %d", acc, err, right, len(qx))
				}
			}
			c.Trans(len(qx))
		}
		c.Outcome(fmt.Sprint(crit, max, splits, pred))
		return nil
	})
}

func runC33(c *eng.Ctx) {
	next := math.Nextafter(2, 3)
	type space struct {
		feats  [][]float64
		labels []float64
		q, t   int
		all    bool
	}
	cls := []space{
		{[][]float64{{-1, 0, 2, next}}, []float64{0, 1, 2}, 3, 4, true},
		{[][]float64{{-1, 0, 2, next}}, []float64{1, 2}, 6, 8, false},
		{[][]float64{{1e308, 1.5e308, -1e308}}, []float64{-1, 1}, 4, 6, false},
		{[][]float64{{0.5, 1.5, 2, 2.25}}, []float64{0, 1}, 4, 6, false},
		{[][]float64{{-1, 0.5, 2}, {0, 1, 3}}, []float64{0, 1}, 4, 5, false},
		{[][]float64{{0, 1}, {0, 1}}, []float64{3, 7, 0}, 4, 6, false},
		{[][]float64{{0, 1}, {0, 1}, {-1, 1}}, []float64{0, 1}, 3, 5, false},
	}
	reg := []space{
		{[][]float64{{-1, 0, 2, next}}, []float64{0, 1, 0.1, -3}, 4, 5, false},
		{[][]float64{{-1, 0.5, 2}, {0, 1}}, []float64{1, 0.1, 5}, 3, 5, false},
		{[][]float64{{0, 1}, {0, 1}}, []float64{-2, 0.7, 1}, 4, 6, false},
	}
	run := func(sp space, crits []string) {
		per := len(sp.labels)
		for _, f := range sp.feats {
			per *= len(f)
		}
		labels := []int64{}
		for _, l := range sp.labels {
			labels = append(labels, int64(l))
		}
		for n := 1; n <= c.Pick(sp.q, sp.t); n++ {
			tuples(power(per, n), func(ix []int) {
				sorted := true
				for i := 1; i < n; i++ {
					sorted = sorted && ix[i-1] <= ix[i]
				}
				if !sorted && !sp.all || !c.Mine() {
					return
				}
				for rev := 0; rev < 2; rev++ {
					if rev == 1 && (sp.all || n == 1) {
						continue
					}
					x, y := make([][]float64, n), make([]float64, n)
					for i := range ix {
						k := ix[i]
						if rev == 1 {
							k = ix[n-1-i]
						}
						for _, f := range sp.feats {
							x[i] = append(x[i], f[k%len(f)])
							k /= len(f)
						}
						y[i] = sp.labels[k]
					}
					c.Case("features %v targets %v", x, y)
					c.State(fmt.Sprint(x, y))
					for _, crit := range crits {
						for _, max := range []int{-1, 0, 1, 2} {
							kinds := []int{0}
							if n <= 2 {
								kinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
							}
							for _, k := range kinds {
								at := (k + n) % (len(sp.feats) + 1)
								err := cartOne(c, crit, max, labels, x, y, k, at)
								if err != nil {
									err = fmt.Errorf("%s, maximum depth %d, %s, class in column %d: %v", crit, max, kindNames[k], at, err)
								}
								if !failErr(c, err) {
									c.Trace()
								}
							}
						}
					}
				}
			})
		}
	}
	for _, s := range cls {
		run(s, []string{"gini", "entropy"})
	}
	for _, s := range reg {
		run(s, []string{"mae", "mse"})
	}
	c.Sample("features [[2] [2.0000000000000004]] targets [0 1]: one split, both rows reproduced")
	c33large(c)
}
