package props

import (
	"fmt"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C08", Run: runC08,
		Rule:   "every outcome of every random draw of Shuffle, LazyShuffle, InstancesTrainTestSplit and SampleWithReplacement on grids of 0..n rows (distinct rows and rows with duplicates) of every kind; the result must hold exactly the prescribed whole rows and every permutation / sample must be reachable; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two rows",
		Assume: []string{"draws of the split percentage (0..100) are reduced to 0, 100 and the values next to the threshold", "the train/test split may shuffle a stored source in place, as the code does"}})
}

func runC08(c *eng.Ctx) {
	maxN := c.Pick(4, 5)
	for _, dup := range []bool{false, true} {
		for n := 0; n <= maxN; n++ {
			t := mkTab([]AD{{'F', "x", nil}, {'B', "b", nil}, {'C', "c", []string{"p", "q", "r", "s", "t"}}}, 2, nil)
			for i := 0; i < n; i++ {
				k := i
				if dup {
					k = i / 2
				}
				t.V = append(t.V, []string{fb(float64(k) - 1.5), string([]byte{byte(k & 1)}), ub(uint64(k))})
			}
			for k := 0; k < numKinds; k++ {
				if g, _, _ := makeKind(k, t); g == nil {
					continue
				}
				for op := 0; op < 4; op++ {
					sizes := []int{0}
					switch op {
					case 2:
						sizes = []int{0, 30, 50, 100}
						if n > 4 {
							sizes = []int{50}
						}
					case 3:
						sizes = seq(min(n+2, 5))
						if n == 0 {
							sizes = []int{0}
						}
					}
					for _, sz := range sizes {
						if !c.Mine() {
							continue
						}
						c08one(c, t, k, op, sz, dup)
					}
				}
			}
		}
	}
	c.Sample("Shuffle of 4 rows, view-of-view, all 24 outcomes")
	c.Sample("SampleWithReplacement(filtered, 5) of 3 rows, all 243 outcomes")
	c08large(c)
}

func c08one(c *eng.Ctx, t *Tab, k, op, sz int, dup bool) { c08opt(c, nil, t, k, op, sz, dup) }

// c08opt: large replaces the options of the exploration.
func c08opt(c *eng.Ctx, large *eng.Opt, t *Tab, k, op, sz int, dup bool) {
	n := t.rows()
	name := []string{"Shuffle", "LazyShuffle", "Split", "Sample"}[op]
	opt := eng.Opt{}
	if op == 2 {
		opt.IntDom = func(m int) []int {
			if m != 101 {
				r := seq(m)
				return r
			}
			d := map[int]bool{}
			r := []int{}
			for _, v := range []int{0, sz, sz + 1, 100} {
				if v < 101 && !d[v] {
					d[v] = true
					r = append(r, v)
				}
			}
			return r
		}
		if n > 3 { // one shuffle for the larger grids
			dom := opt.IntDom
			opt.IntDom = func(m int) []int {
				if m != 101 {
					return []int{m - 1}
				}
				return dom(m)
			}
		}
	}
	seen := map[string]bool{}
	if large != nil {
		opt = *large
	}
	c.Explore(opt, func(ch *eng.Chooser) {
		g, w, store := makeKind(k, t)
		before, _ := readAs(g, w)
		sb, _ := readGrid(store)
		want := w.multiset()
		var a, b base.FixedDataGrid
		p := ch.Call(func() {
			switch op {
			case 0:
				a = base.Shuffle(g)
			case 1:
				a = base.LazyShuffle(g)
			case 2:
				a, b = base.InstancesTrainTestSplit(g, float64(sz)/100)
			case 3:
				a = base.SampleWithReplacement(g, sz)
			}
		})
		c.Case("%s %d of %s rows=%d dup=%v draws=%v", name, sz, kindNames[k], n, dup, ch.Log)
		err := try(func() error {
			if p != nil {
				return fmt.Errorf("%v at %s", p, p.Stack)
			}
			ga, err := readAs(a, w)
			if err != nil {
				return err
			}
			rows := ga.multiset()
			if err := readBoth(a); err != nil {
				return err
			}
			key := ga.String()
			if op == 2 {
				gb, err := readAs(b, w)
				if err != nil {
					return err
				}
				if err := readBoth(b); err != nil {
					return err
				}
				rows = append(rows, gb.multiset()...)
				sort.Strings(rows)
				key += "|" + gb.String()
			}
			seen[key] = true
			c.State(fmt.Sprint(name, sz, k, dup) + key)
			if op != 3 {
				if !same(rows, want) {
					return fmt.Errorf("rows %v, want a rearrangement of %v", rows, want)
				}
			} else {
				if len(rows) != sz {
					return fmt.Errorf("%d rows, want %d", len(rows), sz)
				}
				for _, r := range rows {
					ok := false
					for _, x := range want {
						ok = ok || x == r
					}
					if !ok {
						return fmt.Errorf("row %s is no row of the source", r)
					}
				}
			}
			cls := a.AllClassAttributes()
			if len(cls) != 1 || !cls[0].Equals(w.A[2]) {
				return fmt.Errorf("class attributes %v", cls)
			}
			if !(op == 0 || op == 2) || k > 2 {
				after, err := readAs(g, w)
				if err != nil {
					return err
				}
				sa, err := readGrid(store)
				if err != nil {
					return err
				}
				if after.String() != before.String() || sa.String() != sb.String() {
					return fmt.Errorf("the source changed")
				}
			}
			return nil
		})
		if !failErr(c, err) {
			c.Trace()
		}
	})
	// reachability of every outcome
	if dup {
		return
	}
	want := -1
	switch {
	case op < 2:
		want = 1
		for i := 2; i <= n; i++ {
			want *= i
		}
	case op == 3:
		want = 1
		for i := 0; i < sz; i++ {
			want *= n
		}
	}
	c.Case("%s %d of %s rows=%d: outcomes", name, sz, kindNames[k], n)
	if want >= 0 && len(seen) != want {
		c.Fail(c.CurCase(), "%d different results are reachable, want %d", len(seen), want)
	}
	c.Outcome(fmt.Sprint(op, n, len(seen)))
}
