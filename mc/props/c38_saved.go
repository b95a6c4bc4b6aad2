package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C38", Run: runC38,
		Rule:   "every kind of savable classifier (nearest neighbours, trees, bagged and nested ensembles, forest, naive Bayes, linear and one-vs-all support vectors) trained on every multiset of up to n of five representative rows, on pairs of rows of the whole alphabet and on every kind of grid, saved and loaded into a fresh instance (twice, and saved again after loading): predictions on every combination of feature values, under several map iteration orders, are compared before saving, after saving and after loading; every kind's file is offered to every other kind; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: training data of two or more rows",
		Assume: []string{"a fresh instance is made with the same constructor arguments", "members drawn at random use one fixed seed per case; the draws are C35's subject", "rows of an unordered view of training data may be saved in another order, which decides ties between neighbours"}})
}

// predTab predicts the whole query under several map iteration orders.
func predTab(m model, g *Tab) (string, error) {
	out := ""
	for rot := 0; rot < 3; rot++ {
		eng.SetMapRot(rot)
		p, err := m.Predict(buildDense(g, 0))
		eng.SetMapRot(0)
		if err != nil {
			return "", err
		}
		_, n := p.Size()
		if n != g.rows() {
			return "", fmt.Errorf("%d predictions for %d rows", n, g.rows())
		}
		out += "|"
		for i := 0; i < n; i++ {
			out += base.GetClass(p, i) + " "
		}
	}
	return out, nil
}

func runC38(c *eng.Ctx) {
	svs := savables()
	path := filepath.Join(c.Scratch, "c38.cls")
	defer os.Remove(path)
	tmp := filepath.Join(c.Scratch, "tmp")
	os.MkdirAll(tmp, 0700)
	defer os.RemoveAll(tmp)
	os.Setenv("TMPDIR", tmp)
	max := c.Pick(4, 5)
	one := func(s savable, g base.FixedDataGrid, q *Tab, fresh func() model) error {
		return c38one(c, path, s, g, q, fresh)
	}
	for _, s := range svs {
		rows := fleetRows(s.data)
		q := fleetQuery(s.data)
		run := func(name string, t *Tab) {
			c.Case("%s trained on %s", s.name, name)
			c.State(s.name + name)
			failErr(c, try(func() error { return one(s, buildDense(t, 0), q, s.make) }))
		}
		for n := s.nfit; n <= max; n++ {
			tuples(power(len(rows), n), func(ix []int) {
				for i := 1; i < len(ix); i++ {
					if ix[i] < ix[i-1] {
						return
					}
				}
				if !c.Mine() {
					return
				}
				sel := [][]int{}
				for _, i := range ix {
					sel = append(sel, rows[i])
				}
				run(fmt.Sprint("rows ", ix), fleetTab(s.data, sel))
			})
		}
		// every pair of rows of the whole alphabet
		full := [][]int{}
		radix := []int{}
		for _, d := range fleetDefs(s.data) {
			radix = append(radix, len(fleetVals(s.data, d)))
		}
		tuples(radix, func(x []int) { full = append(full, append([]int{}, x...)) })
		for i := range full {
			for j := i; j < len(full); j++ {
				if (c.Thorough() || len(full) <= 24 || (i+j)%7 == 0) && c.Mine() {
					run(fmt.Sprint("rows ", full[i], full[j]), fleetTab(s.data, [][]int{full[i], full[j]}))
				}
			}
		}
		// every kind of grid
		for k := 1; k < numKinds; k++ {
			if !c.Mine() || unorderedKind(k) && s.group == "knn" {
				continue
			}
			g, _, _ := makeKind(k, fleetTab(s.data, rows))
			if g == nil || k == 8 {
				continue
			}
			c.Case("%s trained on %s", s.name, kindNames[k])
			c.State(s.name + kindNames[k])
			failErr(c, try(func() error { return one(s, g, q, s.make) }))
		}
		if s.name == "random-forest" {
			for n := 0; n < 5; n++ {
				c.Case("forest of 2 loaded into one of %d", n)
				failErr(c, try(func() error {
					return one(s, buildDense(fleetTab(s.data, rows), 0), q, func() model { return ensemble.NewRandomForest(n, n) })
				}))
			}
		}
	}
	// files of other kinds
	for _, s := range svs {
		rows := fleetRows(s.data)
		for _, o := range svs {
			if o.group == s.group || !c.Mine() {
				continue
			}
			c.Case("%s loads a file saved by %s", o.name, s.name)
			failErr(c, try(func() error {
				m := s.make()
				s.fit(m, buildDense(fleetTab(s.data, rows), 0))
				if err := m.Save(path); err != nil {
					return err
				}
				if err := o.make().Load(path); err == nil {
					return fmt.Errorf("no error")
				}
				c.Trace()
				return nil
			}))
		}
	}
	// nothing is left behind
	if l, _ := os.ReadDir(tmp); len(l) > 0 {
		c.Case("files left in the temporary directory")
		c.Fail("temp-files", "%d temporary files left, e.g. %s", len(l), l[0].Name())
	}
	c.Sample("bagged-trees trained on rows [0 1 1], saved, loaded, saved, loaded")
	c38large(c)
	c38precise(c)
}

// c38one checks one model: before saving, after saving and after loading.
func c38one(c *eng.Ctx, path string, s savable, g base.FixedDataGrid, q *Tab, fresh func() model) error {
	rand.Seed(1)
	m := s.make()
	s.fit(m, g)
	before, err := predTab(m, q)
	if err != nil {
		return err
	}
	if err := m.Save(path); err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	after, err := predTab(m, q)
	if err != nil || after != before {
		return fmt.Errorf("predictions changed by saving: %v %v, before %v", after, err, before)
	}
	cur := m
	for round := 1; round <= 2; round++ {
		l := fresh()
		if err := l.Load(path); err != nil {
			return fmt.Errorf("loading (round %d): %v", round, err)
		}
		got, err := predTab(l, q)
		if err != nil {
			return err
		}
		if got != before {
			return fmt.Errorf("round %d: loaded model predicts\n%v\nwant\n%v", round, got, before)
		}
		c.Trans(3 * q.rows())
		c.Outcome(got)
		cur = l
		if err := cur.Save(path); err != nil {
			return fmt.Errorf("saving the loaded model: %v", err)
		}
	}
	c.Trace()
	return nil
}
