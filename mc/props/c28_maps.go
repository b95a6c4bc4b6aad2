package props

import (
	"fmt"

	"github.com/sjwhitworth/golearn/clustering"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C28", Run: runC28,
		Rule:   "every pair of assignments of up to n rows to up to n clusters (some rows unassigned), with every renumbering of the second map's clusters from a set of identifiers, reversed row lists, empty clusters and rows listed twice; map iteration orders rotated; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least two clusters",
		Assume: []string{"whether maps that differ only in empty clusters are equal is left open"}})
}

func runC28(c *eng.Ctx) {
	n := c.Pick(4, 5)
	ids := [][]int{{0, 1, 2, 3, 4}, {3, 0, 7, 1, -2}, {1, 2, 0, 5, 3}, {-1, 9, 4, 3, 0}}
	build := func(as []int, id []int, rev bool, empty int) clustering.ClusterMap {
		m := clustering.ClusterMap{}
		for i := range as {
			r := i
			if rev {
				r = len(as) - 1 - i
			}
			if as[r] > 0 {
				k := id[as[r]-1]
				m[k] = append(m[k], r)
			}
		}
		for e := 0; e < empty; e++ {
			m[100+e*7-100*e] = append([]int{}, m[100+e*7-100*e]...)
		}
		return m
	}
	part := func(as []int) string { // canonical partition
		ren := map[int]int{0: 0}
		s := ""
		for _, a := range as {
			if _, ok := ren[a]; !ok {
				ren[a] = len(ren)
			}
			s += fmt.Sprint(ren[a], " ")
		}
		return s
	}
	all := [][]int{}
	tuples(power(n+1, n), func(ix []int) { all = append(all, append([]int{}, ix...)) })
	// Inverting.
	for _, as := range all {
		if !c.Mine() {
			continue
		}
		c.Case("invert %v", as)
		c.State(fmt.Sprint(as))
		for _, id := range ids {
			m := build(as, id, false, 0)
			failErr(c, try(func() error {
				inv, err := m.Invert()
				if err != nil {
					return err
				}
				k := 0
				for r, a := range as {
					if a == 0 {
						continue
					}
					k++
					if got, ok := inv[r]; !ok || got != id[a-1] {
						return fmt.Errorf("%v inverted is %v", m, inv)
					}
				}
				if k != len(inv) {
					return fmt.Errorf("%v inverted is %v", m, inv)
				}
				// A row that occurs twice, in the same or another cluster.
				for r, a := range as {
					if a == 0 {
						continue
					}
					for _, k := range id[:n] {
						bad := clustering.ClusterMap{}
						for x, y := range m {
							bad[x] = append([]int{}, y...)
						}
						bad[k] = append(bad[k], r)
						if _, err := bad.Invert(); err == nil {
							return fmt.Errorf("%v inverted", bad)
						}
						if eq, err := bad.Equals(m); eq || err == nil {
							return fmt.Errorf("%v compared with %v: %v", bad, m, eq)
						}
						if eq, err := m.Equals(bad); eq || err == nil {
							return fmt.Errorf("%v compared with %v: %v", m, bad, eq)
						}
						c.Trans(3)
					}
				}
				c.Trans(1)
				c.Trace()
				return nil
			}))
		}
	}
	// Comparing. The first map's clusters come in order of appearance.
	for _, a := range all {
		top := 0
		canon := true
		for _, x := range a {
			if x > top+1 {
				canon = false
			}
			if x > top {
				top = x
			}
		}
		if !canon {
			continue
		}
		for bi, b := range all {
			if !c.Mine() {
				continue
			}
			c.Case("%v and %v", a, b)
			want := part(a) == part(b)
			for v := 0; v < 6; v++ {
				rev := (bi+v)%2 == 1
				m1, m2 := build(a, ids[0], false, v/2), build(b, ids[v%4], rev, v/2)
				if v >= 4 {
					// as many clusters in both
					m1, m2 = build(a, ids[0], false, 0), build(b, ids[v%4], rev, 0)
					for e := 0; len(m1) < len(m2); e++ {
						m1[50-e] = nil
					}
					for e := 0; len(m2) < len(m1); e++ {
						m2[(e+3)*(2*v-9)*100] = []int{}
					}
				}
				eng.SetMapRot(v)
				err := try(func() error {
					e1, err1 := m1.Equals(m2)
					e2, err2 := m2.Equals(m1)
					c.Trans(2)
					open := len(m1) != len(m2) // differ in empty clusters
					if open && want {
						return nil
					}
					if e1 != want || e2 != want {
						return fmt.Errorf("%v and %v: %v, %v; want %v", m1, m2, e1, e2, want)
					}
					if want && (err1 != nil || err2 != nil) {
						return fmt.Errorf("%v and %v: %v %v", m1, m2, err1, err2)
					}
					return nil
				})
				eng.SetMapRot(0)
				c.Outcome(fmt.Sprint(want, len(m1)))
				if !failErr(c, err) {
					c.Trace()
				}
			}
		}
	}
	c.Sample("{0:[0 1] 1:[2]} and {3:[1 0] 7:[2]}")
	c28large(c)
}
