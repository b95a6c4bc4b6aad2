package props

import (
	"errors"
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C03", Run: runC03,
		Rule:   "for every table schema x row count x kind of grid (11 kinds: stored in 3 layouts, 4 views, filtered, matrix, filter over view, view over filter) x every ordered list of columns with repetition up to length 3 (incl. the empty list): a full iteration, and one stopped after every row in each of the four ways a callback can answer, compared with the table; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one row and one column requested",
		Assume: []string{"row-selecting views (NewInstancesViewFromVisible) promise no row order, so only exactly-once is required of them; all map orders up to one deviation are explored"}})
}

func runC03(c *eng.Ctx) {
	errStop := errors.New("stop here")
	for _, sc := range []struct {
		defs  string
		class int
	}{{"F", -1}, {"C", 0}, {"B", -1}, {"FCB", 1}, {"FF", 1}, {"BFB", -1}, {"CFBF", 0}, {"BBBBBBBBBF", -1}} {
		for n := 0; n <= c.Pick(4, 5); n++ {
			t := c02src(sc.defs, n, sc.class)
			for k := 0; k < numKinds; k++ {
				if g, _, _ := makeKind(k, t); g == nil {
					continue
				}
				m := len(t.A)
				maxL := 3
				if m > 4 {
					maxL = 2
				}
				for l := 0; l <= maxL; l++ {
					tuples(power(m, l), func(ix []int) {
						if !c.Mine() {
							return
						}
						for stop := -1; stop < n; stop++ {
							for how := 0; how < 3; how++ {
								if stop < 0 && how > 0 {
									break
								}
								c.Case("%s of %s rows=%d columns=%v stop=%d how=%d", kindNames[k], sc.defs, n, ix, stop, how)
								if !failErr(c, c03one(c, k, t, ix, stop, how, errStop)) {
									c.Trace()
									c.State(c.CurCase())
									c.Trans(n + 1)
								}
							}
						}
					})
				}
			}
		}
	}
	c.Sample("rowmap-view of FCB rows=3 columns=[2 0 2], callback answers (true,error) at row 1")
	c.Sample("filtered of CFBF rows=4 columns=[3 1], full iteration")
	c03large(c)
	c03deep(c)
}

func c03one(c *eng.Ctx, k int, t *Tab, ix []int, stop, how int, errStop error) error {
	return c03opt(c, eng.Opt{MapDev: 1}, k, t, ix, stop, how, errStop)
}

func c03opt(c *eng.Ctx, opt eng.Opt, k int, t *Tab, ix []int, stop, how int, errStop error) error {
	g, want, _ := makeKind(k, t)
	specs := make([]base.AttributeSpec, len(ix))
	for i, j := range ix {
		s, err := g.GetAttribute(want.A[j])
		if err != nil {
			return err
		}
		specs[i] = s
	}
	ordered := !unorderedKind(k)
	var res error
	c.Explore(opt, func(ch *eng.Chooser) {
		if res != nil {
			return
		}
		seen := make([]bool, want.rows())
		calls, last := 0, -1
		var bad error
		var ret error
		p := ch.Call(func() {
			ret = g.MapOverRows(specs, func(v [][]byte, r int) (bool, error) {
				calls++
				if stop >= 0 && calls > stop+1 {
					if bad == nil {
						bad = fmt.Errorf("callback called again (row %d) after it stopped the iteration", r)
					}
					return false, nil
				}
				switch {
				case r < 0 || r >= want.rows():
					bad = fmt.Errorf("row number %d of %d", r, want.rows())
				case seen[r]:
					bad = fmt.Errorf("row %d visited twice", r)
				case ordered && r != last+1:
					bad = fmt.Errorf("row %d visited after row %d", r, last)
				case len(v) != len(ix):
					bad = fmt.Errorf("%d cells passed, %d requested", len(v), len(ix))
				default:
					seen[r] = true
					for i, j := range ix {
						if string(v[i]) != want.V[r][j] {
							bad = fmt.Errorf("row %d: cell %d (column %d) = %x, want %x", r, i, j, v[i], want.V[r][j])
						}
					}
				}
				last = r
				if stop >= 0 && calls == stop+1 {
					switch how {
					case 0:
						return false, nil
					case 1:
						return true, errStop
					case 2:
						return false, errStop
					}
				}
				return true, nil
			})
		})
		switch {
		case p != nil:
			res = fmt.Errorf("%v at %s", p, p.Stack)
		case bad != nil:
			res = bad
		case stop < 0 && ret != nil:
			res = fmt.Errorf("full iteration returned %v", ret)
		case stop < 0 && calls != want.rows():
			res = fmt.Errorf("%d callbacks for %d rows", calls, want.rows())
		case stop >= 0 && calls != stop+1:
			res = fmt.Errorf("%d callbacks although the callback stopped at number %d", calls, stop+1)
		case stop >= 0 && how == 0 && ret != nil:
			res = fmt.Errorf("iteration that was merely stopped returned %v", ret)
		case stop >= 0 && how > 0 && ret != errStop:
			res = fmt.Errorf("callback error was not returned (got %v)", ret)
		}
		if res == nil && want.rows() > 0 && len(ix) > 0 {
			c.Outcome(fmt.Sprint(calls, ret != nil))
		}
	})
	return res
}
