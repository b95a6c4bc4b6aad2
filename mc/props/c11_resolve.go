package props

import (
	"fmt"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C11", Run: runC11,
		Rule:   "every list of up to 4 attributes (with repetition; given as the grid's own objects or as equal copies) resolved against every kind of grid, plus systematic orders of all attributes of grids of 13..130 columns; every pair of attribute lists up to length 3-4 over a family with same-name and equal attributes through Intersect/Difference (by equality and by reference, under every map order deviation); class/non-class selections of every class marking on every kind of grid. Non-trivial: lists with more than one attribute",
		Assume: []string{"the ...References variants and NonClassAttributes promise sets, not orders, as documented"}})
}

func runC11(c *eng.Ctx) {
	for _, defs := range []string{"F", "FCB", "BFCB", "CFBFCB"} {
		t := c02src(defs, 2, len(defs)-1)
		for k := 0; k < numKinds; k++ {
			if g, _, _ := makeKind(k, t); g == nil {
				continue
			}
			for l := 0; l <= c.Pick(4, 5); l++ {
				if len(defs) > 4 && l > c.Pick(3, 4) {
					continue
				}
				tuples(power(len(defs), l), func(ix []int) {
					if !c.Mine() {
						return
					}
					for eq := 0; eq < 2; eq++ {
						c.Case("%s of %s list=%v equal-copies=%d", kindNames[k], defs, ix, eq)
						g, w, _ := makeKind(k, t)
						if !failErr(c, try(func() error { return c11resolve(g, w, ix, eq == 1) })) {
							c.Trace()
							c.State(c.CurCase())
						}
						c.Trans(l + 1)
					}
				})
			}
		}
	}
	// long lists
	for _, n := range []int{12, 13, 20, 51, 64, c.Pick(130, 600)} {
		for kk := 0; kk < numKinds; kk++ {
			if !c.Mine() {
				continue
			}
			defs := ""
			for i := 0; i < n; i++ {
				defs += string("FCFBF"[i%5])
			}
			t := c02src(defs, 1, n-1)
			for j := range t.A {
				switch defs[j] {
				case 'F':
					t.V[0][j] = fb(float64(j) + 0.5)
				}
			}
			g, w, _ := makeKind(kk, t)
			if g == nil {
				continue
			}
			orders := [][]int{seq(n)}
			rev := make([]int, n)
			for i := range rev {
				rev[i] = n - 1 - i
			}
			orders = append(orders, rev)
			for _, s := range []int{1, 5, 7, 11, 17} {
				if n%s == 0 && s > 1 {
					continue
				}
				for off := 0; off < 3; off++ {
					o := make([]int, n)
					for i := range o {
						o[i] = (i*s + off) % n
					}
					orders = append(orders, o)
				}
			}
			for i := 0; i+1 < n; i++ { // one swapped pair
				o := seq(n)
				o[i], o[i+1] = o[i+1], o[i]
				orders = append(orders, o)
			}
			for oi, o := range orders {
				c.Case("%s of %d columns order=%d", kindNames[kk], n, oi)
				if !failErr(c, try(func() error { return c11resolve(g, w, o, oi%2 == 1) })) {
					c.Trace()
				}
				c.Trans(n)
			}
		}
	}
	// set operations
	fam := []base.Attribute{}
	for _, d := range []AD{{'F', "x", nil}, {'F', "x", nil}, {'B', "x", nil}, {'F', "y", nil}, {'C', "x", []string{"p"}}, {'C', "x", []string{"p", "q"}}, {'C', "x", []string{"p"}}} {
		fam = append(fam, d.make())
	}
	lists := [][]int{}
	for l := 0; l <= 3; l++ {
		tuples(power(len(fam), l), func(ix []int) { lists = append(lists, append([]int{}, ix...)) })
	}
	pick := func(ix []int) []base.Attribute {
		r := []base.Attribute{}
		for _, i := range ix {
			r = append(r, fam[i])
		}
		return r
	}
	ptrs := func(a []base.Attribute, set bool) string {
		s := []string{}
		seen := map[string]bool{}
		for _, x := range a {
			k := fmt.Sprintf("%p", x)
			if set && seen[k] {
				continue
			}
			seen[k] = true
			s = append(s, k)
		}
		if set {
			sort.Strings(s)
		}
		return fmt.Sprint(s)
	}
	for li := range lists {
		for lj := range lists {
			if len(lists[li])+len(lists[lj]) > c.Pick(5, 6) || !c.Mine() {
				continue
			}
			c.Case("sets %v %v", lists[li], lists[lj])
			a, b := pick(lists[li]), pick(lists[lj])
			var wi, wd, ri, rd []base.Attribute
			for _, x := range a {
				e, p := false, false
				for _, y := range b {
					e = e || attrKey(x) == attrKey(y)
					p = p || x == y
				}
				if e {
					wi = append(wi, x)
				} else {
					wd = append(wd, x)
				}
				if p {
					ri = append(ri, x)
				} else {
					rd = append(rd, x)
				}
			}
			check := func(name string, got, want []base.Attribute, set bool) {
				if ptrs(got, set) != ptrs(want, set) {
					c.Fail(c.CurCase()+name, "%s = %v, want %v", name, got, want)
				}
			}
			check("AttributeIntersect", base.AttributeIntersect(a, b), wi, false)
			check("AttributeDifference", base.AttributeDifference(a, b), wd, false)
			for rot := 0; rot < 2; rot++ {
				eng.SetMapRot(rot)
				gi := base.AttributeIntersectReferences(a, b)
				gd := base.AttributeDifferenceReferences(a, b)
				check("AttributeIntersectReferences", gi, ri, true)
				check("AttributeDifferenceReferences", gd, rd, true)
				if ptrs(gi, true) != ptrs(sortedPtrs(gi), true) || len(gi) > len(a) || len(gd) > len(a) {
					c.Fail(c.CurCase(), "reference sets hold duplicates")
				}
			}
			eng.SetMapRot(0)
			if ptrs(a, false) != ptrs(pick(lists[li]), false) || ptrs(b, false) != ptrs(pick(lists[lj]), false) {
				c.Fail(c.CurCase(), "arguments changed")
			}
			c.Trans(4)
			c.Trace()
			c.Outcome(fmt.Sprint(len(wi), len(wd), len(ri), len(rd)))
		}
	}
	// class selections
	for _, defs := range []string{"F", "FF", "FCB", "CFFB", "FBCF"} {
		for mask := 0; mask < 1<<uint(len(defs)); mask++ {
			for k := 0; k < numKinds; k++ {
				if !c.Mine() {
					continue
				}
				t := c02src(defs, 2, -1)
				for j := range t.A {
					t.Class[j] = mask>>uint(j)&1 == 1
				}
				g, w, _ := makeKind(k, t)
				if g == nil {
					continue
				}
				c.Case("classes %s of %s mask=%b", kindNames[k], defs, mask)
				c.State(c.CurCase())
				if !failErr(c, try(func() error { return c11class(g, w) })) {
					c.Trace()
				}
				c.Trans(3)
			}
		}
	}
	c.Sample("view-of-view of BFCB, list [3 1 1 0], equal copies")
	c.Sample("130 columns, order i*7 mod 130")
	c11equal(c)
}

func sortedPtrs(a []base.Attribute) []base.Attribute { return a }

func c11names(a []base.Attribute) []string {
	r := []string{}
	for _, x := range a {
		r = append(r, attrKey(x))
	}
	sort.Strings(r)
	return r
}

func c11class(g base.FixedDataGrid, t *Tab) error {
	nc, ncf, cl := []base.Attribute{}, []base.Attribute{}, []base.Attribute{}
	for j, a := range t.A {
		if t.Class[j] {
			cl = append(cl, a)
			continue
		}
		nc = append(nc, a)
		if a.GetType() == base.Float64Type {
			ncf = append(ncf, a)
		}
	}
	if x := c11names(g.AllClassAttributes()); !same(x, c11names(cl)) {
		return fmt.Errorf("AllClassAttributes %v, want %v", x, c11names(cl))
	}
	if x := c11names(base.NonClassAttributes(g)); !same(x, c11names(nc)) {
		return fmt.Errorf("NonClassAttributes %v, want %v", x, c11names(nc))
	}
	if x := c11names(base.NonClassFloatAttributes(g)); !same(x, c11names(ncf)) {
		return fmt.Errorf("NonClassFloatAttributes %v, want %v", x, c11names(ncf))
	}
	for j, a := range t.A {
		b := base.GetAttributeByName(g, a.GetName())
		if b == nil || !b.Equals(t.A[j]) {
			return fmt.Errorf("GetAttributeByName(%s) = %v", a.GetName(), b)
		}
	}
	if b := base.GetAttributeByName(g, "nobody"); b != nil {
		return fmt.Errorf("GetAttributeByName(nobody) = %v", b)
	}
	return nil
}

func c11resolve(g base.FixedDataGrid, t *Tab, ix []int, copies bool) error {
	as := []base.Attribute{}
	for _, i := range ix {
		if copies {
			as = append(as, equalAttr(t.A[i]))
		} else {
			as = append(as, t.A[i])
		}
	}
	specs := base.ResolveAttributes(g, as)
	if len(specs) != len(ix) {
		return fmt.Errorf("%d locations for %d attributes", len(specs), len(ix))
	}
	_, rows := g.Size()
	for p, i := range ix {
		if a := specs[p].GetAttribute(); !a.Equals(t.A[i]) {
			return fmt.Errorf("location %d is of %s, want %s", p, a, t.A[i])
		}
		for r := 0; r < rows; r++ {
			if v := string(g.Get(specs[p], r)); v != t.V[r][i] {
				return fmt.Errorf("location %d row %d holds %x, want %x", p, r, v, t.V[r][i])
			}
		}
	}
	all := base.ResolveAllAttributes(g)
	x := g.AllAttributes()
	if len(all) != len(x) {
		return fmt.Errorf("ResolveAllAttributes: %d of %d", len(all), len(x))
	}
	for p := range all {
		if !all[p].GetAttribute().Equals(x[p]) {
			return fmt.Errorf("ResolveAllAttributes %d is %s, want %s", p, all[p].GetAttribute(), x[p])
		}
	}
	// same name, other type or domain: not there
	for _, a := range t.A {
		var o base.Attribute
		switch a.GetType() {
		case base.Float64Type:
			o = base.NewBinaryAttribute(a.GetName())
		case base.BinaryType:
			o = base.NewFloatAttribute(a.GetName())
		default:
			o = equalAttr(a)
			o.GetSysValFromString("one more")
		}
		if _, err := g.GetAttribute(o); err == nil {
			return fmt.Errorf("%s resolved although the grid has %s", o, a)
		}
	}
	return nil
}
