package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C25", Run: runC25,
		Rule:   "every pair of true and predicted class vectors of up to n rows over three or four classes, stored in every kind of grid with differently ordered categories (and numeric and binary classes); every confusion matrix over a small alphabet of counts, absent entries and absent rows included, with all its derived scores and reports under several map iteration orders; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: matrices with at least one wrong prediction",
		Assume: []string{"scores that divide zero by zero may be NaN, or zero", "scores within 1e-9 of the exact value count as equal"}})
}

func ratio(a, b float64) []float64 {
	if b == 0 {
		return []float64{math.NaN(), 0}
	}
	return []float64{a / b}
}

func oneOf(got float64, want []float64) bool {
	for _, w := range want {
		if math.IsNaN(got) && math.IsNaN(w) || math.Abs(got-w) < 1e-9 {
			return true
		}
	}
	return false
}

// checkScores compares every score of a matrix with its definition.
func checkScores(m evaluation.ConfusionMatrix, names []string) error {
	n := len(names)
	k := make([][]float64, n)
	total, right := 0.0, 0.0
	row, col := make([]float64, n), make([]float64, n)
	for i := range k {
		k[i] = make([]float64, n)
		for j := range k[i] {
			k[i][j] = float64(m[names[i]][names[j]])
			total += k[i][j]
			row[i] += k[i][j]
			col[j] += k[i][j]
		}
		right += k[i][i]
	}
	macroP, macroR := 0.0, 0.0
	nP, nR := 0.0, 0.0
	undefP, undefR := false, false
	for i, c := range names {
		tp, fp, fn := k[i][i], col[i]-k[i][i], row[i]-k[i][i]
		tn := total - tp - fp - fn
		for _, x := range []struct {
			what string
			got  float64
			want []float64
		}{
			{"true positives", evaluation.GetTruePositives(c, m), []float64{tp}},
			{"false positives", evaluation.GetFalsePositives(c, m), []float64{fp}},
			{"false negatives", evaluation.GetFalseNegatives(c, m), []float64{fn}},
			{"true negatives", evaluation.GetTrueNegatives(c, m), []float64{tn}},
			{"precision", evaluation.GetPrecision(c, m), ratio(tp, tp+fp)},
			{"recall", evaluation.GetRecall(c, m), ratio(tp, tp+fn)},
			{"F1", evaluation.GetF1Score(c, m), f1(tp, fp, fn)},
		} {
			if !oneOf(x.got, x.want) {
				return fmt.Errorf("%s of %q is %v, want %v", x.what, c, x.got, x.want)
			}
		}
		_, isRef := m[c]
		occurs := isRef || col[i] > 0
		if isRef {
			nR++
			if row[i] == 0 {
				undefR = true
			} else {
				macroR += tp / row[i]
			}
		}
		if occurs {
			nP++
			if col[i] == 0 {
				undefP = true
			} else {
				macroP += tp / col[i]
			}
		}
	}
	macro := func(sum, n float64, undef bool) []float64 {
		w := ratio(sum, n)
		if undef {
			w = append(w, math.NaN())
		}
		return w
	}
	for _, x := range []struct {
		what string
		got  float64
		want []float64
	}{
		{"accuracy", evaluation.GetAccuracy(m), ratio(right, total)},
		{"micro precision", evaluation.GetMicroPrecision(m), ratio(right, total)},
		{"micro recall", evaluation.GetMicroRecall(m), ratio(right, total)},
		{"macro precision", evaluation.GetMacroPrecision(m), macro(macroP, nP, undefP)},
		{"macro recall", evaluation.GetMacroRecall(m), macro(macroR, nR, undefR)},
	} {
		if !oneOf(x.got, x.want) {
			return fmt.Errorf("%s is %v, want %v", x.what, x.got, x.want)
		}
	}
	// Reports.
	lines := map[string][]string{}
	for _, l := range strings.Split(evaluation.GetSummary(m), "\n") {
		if f := strings.Fields(l); len(f) == 7 {
			lines[f[0]] = f
		}
	}
	near := func(got string, want []float64) bool {
		v, err := strconv.ParseFloat(got, 64)
		for _, w := range want {
			if err == nil && (math.IsNaN(v) && math.IsNaN(w) || math.Abs(v-w) <= 0.0001) {
				return true
			}
		}
		return false
	}
	header := []string{}
	for i, l := range strings.Split(evaluation.ShowConfusionMatrix(m), "\n") {
		f := strings.Fields(l)
		if i == 0 {
			header = f[2:]
		}
		if i < 2 || len(f) == 0 {
			continue
		}
		for j, h := range header {
			if j+1 >= len(f) || f[j+1] != strconv.Itoa(m[f[0]][h]) {
				return fmt.Errorf("shown matrix:\n%s", evaluation.ShowConfusionMatrix(m))
			}
		}
	}
	for i, c := range names {
		if row[i]+col[i] == 0 {
			continue
		}
		f := lines[c]
		if f == nil {
			return fmt.Errorf("class %q is missing in the summary\n%s", c, evaluation.GetSummary(m))
		}
		tp, fp, fn := k[i][i], col[i]-k[i][i], row[i]-k[i][i]
		if !near(f[1], []float64{tp}) || !near(f[2], []float64{fp}) || !near(f[3], []float64{total - tp - fp - fn}) ||
			!near(f[4], ratio(tp, tp+fp)) || !near(f[5], ratio(tp, tp+fn)) || !near(f[6], f1(tp, fp, fn)) {
			return fmt.Errorf("summary of %q: %v", c, f)
		}
		shown := false
		for _, h := range header {
			shown = shown || h == c
		}
		if !shown {
			return fmt.Errorf("class %q is missing in the shown matrix\n%s", c, evaluation.ShowConfusionMatrix(m))
		}
	}
	return nil
}

// f1 is the harmonic mean of precision and recall.
func f1(tp, fp, fn float64) []float64 {
	if tp == 0 {
		return []float64{math.NaN(), 0}
	}
	return []float64{2 * tp / (2*tp + fp + fn)}
}

func runC25(c *eng.Ctx) {
	classDefs := []AD{
		{'C', "k", []string{"a", "b", "c"}},
		{'C', "k", []string{"c", "b", "a"}},
		{'C', "k", []string{"unused", "b", "c", "a"}},
		{'B', "k", nil},
		{'F', "k", nil},
	}
	texts := func(d AD, v int) string { // class v (0..2) in the storage of d
		switch d.Kind {
		case 'B':
			return string([]byte{byte(v & 1)})
		case 'F':
			return fb([]float64{1, 2.5, -3}[v])
		}
		for i, s := range d.Cats {
			if s == string(rune('a'+v)) {
				return ub(uint64(i))
			}
		}
		panic("class")
	}
	build := func(d AD, kind int, v []int) base.FixedDataGrid {
		t := mkTab([]AD{{'F', "x", nil}, d}, 1, nil)
		for i, x := range v {
			t.V = append(t.V, []string{fb(float64(i)), texts(d, x)})
		}
		g, shown, _ := makeKind(kind, t)
		if g == nil || len(shown.V) != len(v) || unorderedKind(kind) {
			return nil
		}
		for i := range v { // views that rearrange rows are not what is wanted here
			if shown.V[i][len(shown.A)-1] != t.V[i][1] {
				return nil
			}
		}
		return g
	}
	max := c.Pick(4, 5)
	for n := 0; n <= max; n++ {
		tuples(power(9, n), func(ix []int) {
			if !c.Mine() {
				return
			}
			tv, pv := make([]int, n), make([]int, n)
			s := 0
			for i, x := range ix {
				tv[i], pv[i] = x/3, x%3
				s += x
			}
			c.Case("true %v predicted %v", tv, pv)
			c.State(fmt.Sprint(tv, pv))
			for rd, d := range classDefs {
				for gd, e := range classDefs {
					if (d.Kind != 'C' || e.Kind != 'C') && d.Kind != e.Kind {
						continue
					}
					if n > 2 && rd*gd > 0 && (s+rd+gd)%4 != 0 && !c.Thorough() {
						continue
					}
					kinds := [][2]int{{0, 0}}
					if n <= 2 && n > 0 {
						kinds = nil
						for a := 0; a < numKinds; a++ {
							kinds = append(kinds, [2]int{a, 0}, [2]int{0, a})
						}
					}
					for _, kk := range kinds {
						r, g := build(d, kk[0], tv), build(e, kk[1], pv)
						if r == nil || g == nil {
							continue
						}
						failErr(c, try(func() error {
							m, err := evaluation.GetConfusionMatrix(r, g)
							if err != nil {
								return err
							}
							want := map[string]map[string]int{}
							sum := 0
							for i := range tv {
								a, b := base.GetClass(r, i), base.GetClass(g, i)
								if d.Kind == 'C' && (a != string(rune('a'+tv[i])) || b != string(rune('a'+pv[i]))) {
									return fmt.Errorf("classes %q %q of row %d", a, b, i)
								}
								if want[a] == nil {
									want[a] = map[string]int{}
								}
								want[a][b]++
							}
							for a := range m {
								for b, v := range m[a] {
									sum += v
									if v != want[a][b] {
										return fmt.Errorf("%v, want %v", m, want)
									}
								}
							}
							if sum != n {
								return fmt.Errorf("%v has %d rows, want %v", m, sum, want)
							}
							c.Trans(1)
							c.Outcome(fmt.Sprint(m))
							c.Trace()
							if n > 0 && rd == 0 && gd == 0 {
								return checkScores(m, []string{"a", "b", "c"})
							}
							return nil
						}))
					}
				}
			}
			// different numbers of rows
			failErr(c, try(func() error {
				r, g := build(classDefs[0], 0, tv), build(classDefs[0], 0, append(pv, 0))
				if _, err := evaluation.GetConfusionMatrix(r, g); err == nil {
					return fmt.Errorf("%d and %d rows compared", n, n+1)
				}
				if _, err := evaluation.GetConfusionMatrix(g, r); err == nil {
					return fmt.Errorf("%d and %d rows compared", n+1, n)
				}
				return nil
			}))
		})
	}
	// All small matrices.
	vals := []int{-1, 1, 4}
	if c.Thorough() {
		vals = []int{-1, 0, 1, 4}
	}
	names := []string{"a", "b", "c"}
	tuples(power(len(vals), 9), func(ix []int) {
		if !c.Mine() {
			return
		}
		m := evaluation.ConfusionMatrix{}
		for i, x := range ix {
			if v := vals[x]; v >= 0 {
				if m[names[i/3]] == nil {
					m[names[i/3]] = map[string]int{}
				}
				m[names[i/3]][names[i%3]] = v
			}
		}
		if len(m) == 0 {
			return
		}
		c.Case("matrix %v", m)
		c.State(fmt.Sprint(m))
		for rot := 0; rot < c.Pick(2, 4); rot++ {
			eng.SetMapRot(rot)
			err := try(func() error { return checkScores(m, names) })
			eng.SetMapRot(0)
			c.Trans(1)
			if !failErr(c, err) {
				c.Trace()
			}
		}
	})
	c.Sample("matrix a:{a:1 b:4} c:{b:1}: class b was predicted but never occurs")
	c25large(c)
	c25spread(c)
}
