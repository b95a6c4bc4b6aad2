package props

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C01", Run: runC01,
		Rule: "every sequence of grid operations up to the depth bound is executed on a fresh real grid and on a table model and compared after every step; plus every schema of a family that crosses byte and page boundaries with all cells written and rewritten. Non-trivial: sequences in which at least one cell was written",
		Assume: []string{"operations documented to panic (adding attributes after allocation, out-of-range rows, wrong value width) are only required to leave the grid unchanged",
			"alphabet: 3 attribute kinds, default and named groups, up to 3 rows, 2 values per kind"}})
}

type g1op struct {
	name string
	kind byte // a: add attr, g: add attr to group, e: extend, s: set, c: class on, r: class off
	ak   byte
	grp  string
	size int
	n    int
	row  int
	val  int
	col  int
}

// grid model: columns in groups
type m1 struct {
	groups []struct {
		name string
		cols []int
	}
	attrs  []base.Attribute
	defs   []AD
	specs  []base.AttributeSpec
	class  []bool
	vals   [][]string // [col][row]
	rows   int
	frozen bool
	writes int
}

func (m *m1) zero(col int) string {
	if m.defs[col].Kind == 'B' {
		return "\x00"
	}
	return strings.Repeat("\x00", 8)
}

func (m *m1) key() string {
	var b strings.Builder
	for i := range m.attrs {
		fmt.Fprintf(&b, "%c%v%x;", m.defs[i].Kind, m.class[i], m.vals[i])
	}
	fmt.Fprintf(&b, "%d%v%v", m.rows, m.frozen, m.groups)
	return b.String()
}

func (m *m1) addCol(d AD, a base.Attribute, grp string) int {
	gi := -1
	for i := range m.groups {
		if m.groups[i].name == grp {
			gi = i
		}
	}
	if gi < 0 {
		m.groups = append(m.groups, struct {
			name string
			cols []int
		}{grp, nil})
		gi = len(m.groups) - 1
	}
	m.groups[gi].cols = append(m.groups[gi].cols, len(m.attrs))
	m.attrs = append(m.attrs, a)
	m.defs = append(m.defs, d)
	m.class = append(m.class, false)
	m.vals = append(m.vals, nil)
	return len(m.attrs) - 1
}

func (m *m1) check(d *base.DenseInstances) error {
	cols, rows := d.Size()
	if cols != len(m.attrs) || rows != m.rows {
		return fmt.Errorf("Size() = %d,%d; want %d,%d", cols, rows, len(m.attrs), m.rows)
	}
	all := d.AllAttributes()
	if len(all) != len(m.attrs) {
		return fmt.Errorf("AllAttributes has %d, want %d", len(all), len(m.attrs))
	}
	// every attribute once; within a group in the order added
	pos := map[base.Attribute]int{}
	for i, a := range all {
		pos[a] = i
	}
	for _, a := range m.attrs {
		if _, ok := pos[a]; !ok {
			return fmt.Errorf("attribute %s missing from AllAttributes", a)
		}
	}
	for _, g := range m.groups {
		for k := 1; k < len(g.cols); k++ {
			if pos[m.attrs[g.cols[k]]] != pos[m.attrs[g.cols[k-1]]]+1 {
				return fmt.Errorf("order of group %s in AllAttributes", g.name)
			}
		}
	}
	nc := 0
	cls := d.AllClassAttributes()
	for i, a := range m.attrs {
		n := 0
		for _, c := range cls {
			if c == a {
				n++
			}
		}
		if m.class[i] {
			nc++
		}
		if (n == 1) != m.class[i] || n > 1 {
			return fmt.Errorf("class marking of %s: listed %d times, want %v", a, n, m.class[i])
		}
	}
	if nc != len(cls) {
		return fmt.Errorf("%d class attributes, want %d", len(cls), nc)
	}
	for i, a := range m.attrs {
		s, err := d.GetAttribute(a)
		if err != nil {
			return err
		}
		if s.GetAttribute() != a {
			return fmt.Errorf("GetAttribute(%s) resolves to %s", a, s.GetAttribute())
		}
		for r := 0; r < m.rows; r++ {
			if got := string(d.Get(s, r)); got != m.vals[i][r] {
				return fmt.Errorf("cell (%s,%d) = %x, want %x", a, r, got, m.vals[i][r])
			}
			if got := string(d.Get(m.specs[i], r)); got != m.vals[i][r] {
				return fmt.Errorf("cell (%s,%d) via first spec = %x, want %x", a, r, got, m.vals[i][r])
			}
		}
	}
	return nil
}

func (m *m1) apply(d *base.DenseInstances, op g1op) error {
	switch op.kind {
	case 'a', 'g':
		name := fmt.Sprintf("%c%d", op.ak, len(m.attrs))
		def := AD{op.ak, name, []string{"x", "y"}}
		a := def.make()
		if op.kind == 'a' {
			var s base.AttributeSpec
			p := eng.Try(func() { s = d.AddAttribute(a) })
			if m.frozen {
				if p == nil {
					return fmt.Errorf("AddAttribute accepted after storage was allocated")
				}
				return nil
			}
			if p != nil {
				return fmt.Errorf("AddAttribute: %v", p)
			}
			g := map[byte]string{'F': "FLOAT0", 'C': "CAT0", 'B': "BIN0"}[op.ak]
			m.addCol(def, a, g)
			m.specs = append(m.specs, s)
			return nil
		}
		have := false
		for i := range m.groups {
			have = have || m.groups[i].name == op.grp
		}
		if !have {
			err := d.CreateAttributeGroup(op.grp, op.size)
			if (err != nil) != m.frozen {
				return fmt.Errorf("CreateAttributeGroup after allocation=%v: err=%v", m.frozen, err)
			}
			if m.frozen {
				return nil
			}
		}
		var s base.AttributeSpec
		var err error
		if p := eng.Try(func() { s, err = d.AddAttributeToAttributeGroup(a, op.grp) }); p != nil {
			return fmt.Errorf("AddAttributeToAttributeGroup: %v", p)
		}
		if m.frozen {
			if err == nil {
				return fmt.Errorf("AddAttributeToAttributeGroup accepted after storage was allocated")
			}
			return nil
		}
		if err != nil {
			return err
		}
		m.addCol(def, a, op.grp)
		m.specs = append(m.specs, s)
	case 'e':
		if err := d.Extend(op.n); err != nil {
			return err
		}
		m.frozen = true
		m.rows += op.n
		for i := range m.vals {
			for len(m.vals[i]) < m.rows {
				m.vals[i] = append(m.vals[i], m.zero(i))
			}
		}
	case 's':
		col, row := m.pick(op)
		v := m.defs[col].vals()[op.val]
		buf := []byte(v)
		d.Set(m.specs[col], row, buf)
		for i := range buf { // the grid must not keep the caller's buffer
			buf[i] ^= 0xff
		}
		m.vals[col][row] = v
		m.writes++
	case 'c', 'r':
		col := op.col
		if col < 0 {
			col = len(m.attrs) - 1
		}
		var err error
		if op.kind == 'c' {
			err = d.AddClassAttribute(m.attrs[col])
		} else {
			err = d.RemoveClassAttribute(m.attrs[col])
		}
		if err != nil {
			return err
		}
		m.class[col] = op.kind == 'c'
	}
	return nil
}

func (m *m1) pick(op g1op) (int, int) {
	col, row := op.col, op.row
	if col < 0 {
		col = len(m.attrs) - 1
	}
	if row < 0 {
		row = m.rows - 1
	}
	return col, row
}

func (m *m1) enabled(op g1op) bool {
	switch op.kind {
	case 'a', 'g':
		return len(m.attrs) < 4
	case 'e':
		return m.rows < 3
	case 's':
		if len(m.attrs) == 0 || m.rows == 0 {
			return false
		}
		col, row := m.pick(op)
		if op.col < 0 && len(m.attrs) == 1 || op.row < 0 && m.rows == 1 {
			return false // same as the first
		}
		return m.vals[col][row] != m.defs[col].vals()[op.val]
	case 'c', 'r':
		if len(m.attrs) == 0 || op.col < 0 && len(m.attrs) == 1 {
			return false
		}
		col := op.col
		if col < 0 {
			col = len(m.attrs) - 1
		}
		return m.class[col] != (op.kind == 'c')
	}
	return true
}

func runC01(c *eng.Ctx) {
	ops := []g1op{
		{name: "F", kind: 'a', ak: 'F'}, {name: "C", kind: 'a', ak: 'C'}, {name: "B", kind: 'a', ak: 'B'},
		{name: "gF", kind: 'g', ak: 'F', grp: "gf", size: 8}, {name: "gB", kind: 'g', ak: 'B', grp: "gb", size: 0},
		{name: "gB1", kind: 'g', ak: 'B', grp: "gb1", size: 1},
		{name: "E1", kind: 'e', n: 1}, {name: "E2", kind: 'e', n: 2}, {name: "E0", kind: 'e', n: 0},
		{name: "S001", kind: 's', col: 0, row: 0, val: 1}, {name: "S000", kind: 's', col: 0, row: 0, val: 0},
		{name: "Sl01", kind: 's', col: -1, row: 0, val: 1}, {name: "S0l1", kind: 's', col: 0, row: -1, val: 1},
		{name: "Sll1", kind: 's', col: -1, row: -1, val: 1},
		{name: "c0", kind: 'c', col: 0}, {name: "cl", kind: 'c', col: -1}, {name: "r0", kind: 'r', col: 0},
	}
	depth := c.Pick(6, 7)
	// A: depth-first over all sequences; each is re-executed on a fresh grid
	var run func(pre []int)
	exec := func(path []int) (*m1, bool) {
		d := base.NewDenseInstances()
		m := &m1{}
		for k, o := range path {
			if !m.enabled(ops[o]) {
				return nil, false
			}
			var err error
			p := eng.Try(func() {
				err = m.apply(d, ops[o])
				if err == nil && k == len(path)-1 {
					err = m.check(d)
				}
			})
			if p != nil {
				err = fmt.Errorf("%v at %s", p, p.Stack)
			}
			if err != nil {
				c.Fail(c.CurCase(), "after %s: %v", ops[o].name, err)
				return nil, false
			}
		}
		c.Trans(1)
		if c.State(m.key()) && m.writes > 0 {
			c.Count("states_with_writes", 1)
		}
		c.Trace()
		return m, true
	}
	// breadth-first with state deduplication: sequences reaching the same
	// model state (same layout, same contents) have the same futures
	name := func(path []int) string {
		s := make([]string, len(path))
		for i, o := range path {
			s[i] = ops[o].name
		}
		return "seq " + strings.Join(s, " ")
	}
	run = func(pre []int) {
		if len(pre) == depth {
			return
		}
		for o := range ops {
			path := append(append([]int{}, pre...), o)
			if len(path) == 2 && !c.Mine() {
				continue
			}
			c.Case(name(path))
			m, ok := exec(path)
			if !ok {
				continue
			}
			if len(path) == depth && m.writes > 1 {
				c.Sample("%s", name(path))
			}
			run(path)
		}
	}
	run(nil)
	// B: schemas crossing byte (8 bits) and page (512 words) boundaries
	type fam struct {
		kinds string
		rows  int
	}
	var fams []fam
	for n := 1; n <= 18; n++ {
		for rows := 1; rows <= 3; rows++ {
			fams = append(fams, fam{strings.Repeat("B", n), rows}, fam{strings.Repeat("BF", n), rows}, fam{strings.Repeat("CBF", (n+2)/3), rows})
		}
	}
	for _, n := range []int{510, 511, 512, 513, 1022, 1023, 1024, 1025} {
		fams = append(fams, fam{strings.Repeat("F", n), 2}, fam{strings.Repeat("C", n), 2})
	}
	if c.Thorough() {
		for _, n := range []int{32766, 32767, 32768, 32769} {
			fams = append(fams, fam{strings.Repeat("B", n), 2})
		}
		for _, n := range []int{511, 512, 513, 1023, 1024} {
			fams = append(fams, fam{strings.Repeat("FC", n), 2})
		}
	} else {
		fams = append(fams, fam{strings.Repeat("B", 32768), 2})
	}
	for _, f := range fams {
		if !c.Mine() {
			continue
		}
		k := f.kinds
		if len(k) > 40 {
			k = fmt.Sprintf("%s...x%d", k[:3], len(k))
		}
		c.Case("wide %s rows=%d", k, f.rows)
		var err error
		p := eng.Try(func() { err = wideCase(f.kinds, f.rows, c) })
		if p != nil {
			err = fmt.Errorf("%v at %s", p, p.Stack)
		}
		failErr(c, err)
		c.Trace()
		c.State(c.CurCase())
	}
	c01deep(c)
}

// wideCase writes a distinct pattern into every cell, rewrites every cell once
// and re-reads all cells of the grid after growing it.
func wideCase(kinds string, rows int, c *eng.Ctx) error {
	d := base.NewDenseInstances()
	n := len(kinds)
	specs := make([]base.AttributeSpec, n)
	attrs := make([]base.Attribute, n)
	for i := 0; i < n; i++ {
		attrs[i] = AD{kinds[i], fmt.Sprintf("a%d", i), nil}.make()
		specs[i] = d.AddAttribute(attrs[i])
	}
	d.Extend(rows)
	val := func(i, r, gen int) string {
		switch kinds[i] {
		case 'F':
			return fb(float64(i+1)*1.25 + float64(r*100000+gen*7000000))
		case 'C':
			return ub(uint64(i + r*100000 + gen*7000000 + 1))
		}
		h := (uint(i)*2654435761 + uint(r)*40503) >> 3
		return string([]byte{byte((h ^ uint(gen)) & 1)})
	}
	want := make([][]string, n)
	for i := range want {
		want[i] = make([]string, rows)
		for r := range want[i] {
			want[i][r] = strings.Repeat("\x00", len(val(i, r, 0)))
		}
	}
	verify := func(step string) error {
		for i := range want {
			for r := range want[i] {
				if got := string(d.Get(specs[i], r)); got != want[i][r] {
					return fmt.Errorf("%s: cell (%d,%d) = %x, want %x", step, i, r, got, want[i][r])
				}
			}
		}
		c.Trans(n * rows)
		return nil
	}
	small := n*rows <= 64
	for gen := 0; gen < 2; gen++ {
		for i := 0; i < n; i++ {
			for r := 0; r < rows; r++ {
				want[i][r] = val(i, r, gen)
				d.Set(specs[i], r, []byte(want[i][r]))
				if small {
					if err := verify(fmt.Sprintf("write %d/%d/%d", gen, i, r)); err != nil {
						return err
					}
				}
			}
		}
		if err := verify(fmt.Sprintf("pass %d", gen)); err != nil {
			return err
		}
		d.Extend(1)
		for i := range want {
			want[i] = append(want[i], strings.Repeat("\x00", len(want[i][0])))
		}
		rows++
		if err := verify("grow"); err != nil {
			return err
		}
	}
	if cols, rs := d.Size(); cols != n || rs != rows {
		return fmt.Errorf("Size %d,%d want %d,%d", cols, rs, n, rows)
	}
	if n <= 2000 {
		for i := range attrs {
			s, err := d.GetAttribute(attrs[i])
			if err != nil {
				return err
			}
			if string(d.Get(s, 0)) != want[i][0] {
				return fmt.Errorf("GetAttribute(%d) resolves to another column", i)
			}
		}
	}
	return nil
}
