package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C12", Run: runC12,
		Rule:   "every document of r rows x k columns (r*k bounded) over an alphabet of cell texts (numbers in many spellings, words, blanks, padded, quoted, empty) x with/without header x raw/quoted/CRLF spelling, parsed from a stream and compared with an independent table of typed cells; templates: every subset, order and retyping of the columns; attribute groups: every assignment of columns to groups; plus every malformed document of a list. Non-trivial: at least one row",
		Assume: []string{"column names of one document are distinct", "documents are what encoding/csv accepts; a cell with only blanks is an empty text, not a missing value", "column types are determined by the first data row, as documented"}})
}

// csvCell quotes a cell for a document.
func csvCell(s string, quoted bool) string {
	if quoted || strings.ContainsAny(s, ",\"\n\r") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// isNumText: sign, digits with an optional point followed by digits, exponent.
func isNumText(s string) bool {
	s = strings.Trim(s, " ")
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	d := func() int {
		n := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
			n++
		}
		return n
	}
	n := d()
	if i < len(s) && s[i] == '.' {
		i++
		if d() == 0 {
			return false
		}
	} else if n == 0 {
		return false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if d() == 0 {
			return false
		}
	}
	return i == len(s)
}

// csvTable is the model of a parsed document. attrs fixes some columns'
// attributes (nil: by the first row). ok=false: the document has a cell that
// its column's type cannot hold.
func csvTable(names []string, cells [][]string, attrs []base.Attribute) (t *Tab, ok bool) {
	t = &Tab{}
	for j, n := range names {
		var a base.Attribute
		if attrs != nil && attrs[j] != nil {
			a = equalAttr(attrs[j])
		} else if len(cells) > 0 && isNumText(cells[0][j]) {
			a = base.NewFloatAttribute(n)
		} else {
			a = AD{'C', n, nil}.make()
		}
		t.A = append(t.A, a)
		t.Class = append(t.Class, j == len(names)-1)
	}
	for _, row := range cells {
		r := make([]string, len(names))
		for j, s := range row {
			switch a := t.A[j].(type) {
			case *base.CategoricalAttribute:
				r[j] = ub(0)
				if s != "" {
					r[j] = string(a.GetSysValFromString(strings.TrimSpace(s)))
				}
			case *base.FloatAttribute:
				r[j] = ub(0)
				if s != "" {
					f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
					if err != nil {
						return nil, false
					}
					r[j] = fb(f)
				}
			case *base.BinaryAttribute:
				r[j] = "\x00"
				if s != "" {
					f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
					if err != nil {
						return nil, false
					}
					if f > 0 {
						r[j] = "\x01"
					}
				}
			}
		}
		t.V = append(t.V, r)
	}
	return t, true
}

func csvDoc(names []string, cells [][]string, header bool, style int) string {
	nl := "\n"
	if style == 2 {
		nl = "\r\n"
	}
	lines := []string{}
	add := func(row []string) {
		c := []string{}
		for _, s := range row {
			c = append(c, csvCell(s, style == 1 || len(row) == 1 && s == ""))
		}
		lines = append(lines, strings.Join(c, ","))
	}
	if header {
		add(names)
	}
	for _, r := range cells {
		add(r)
	}
	d := strings.Join(lines, nl)
	if style != 3 && d != "" {
		d += nl
	}
	return d
}

func runC12(c *eng.Ctx) {
	full := []string{"1", " 2.5 ", "-3e2", "", "a", " b c", "x,\"y\"", "+.5", "7.0625", "ab\ncd", " ", "1e999"}
	six := full[:c.Pick(6, 8)]
	few := []string{"1", "", "a ", "-.5"}
	type sc struct {
		rows, cols int
		alpha      []string
	}
	for _, s := range []sc{{1, 1, full}, {1, 2, full}, {2, 1, full}, {3, 1, full}, {1, 3, six}, {2, 2, six}, {4, 1, six}, {3, 2, few}, {2, 3, few}, {1, 5, few}} {
		names := []string{"x", " y", "z,1", "é", "w"}[:s.cols]
		tuples(power(len(s.alpha), s.rows*s.cols), func(ix []int) {
			if !c.Mine() {
				return
			}
			cells := make([][]string, s.rows)
			for i := range cells {
				for j := 0; j < s.cols; j++ {
					cells[i] = append(cells[i], s.alpha[ix[i*s.cols+j]])
				}
			}
			for h := 0; h < 2; h++ {
				for style := 0; style < 4; style++ {
					doc := csvDoc(names, cells, h == 1, style)
					c.Case("document %q header=%d", doc, h)
					c.State(doc)
					if !failErr(c, try(func() error { return c12plain(doc, names, cells, h == 1) })) {
						c.Trace()
					}
					c.Trans(s.rows)
				}
			}
			// the file entry point
			if ix[0] == 0 && c.Shard == 0 {
				doc := csvDoc(names, cells, true, 0)
				p := filepath.Join(c.Scratch, "c12.csv")
				os.WriteFile(p, []byte(doc), 0600)
				failErr(c, try(func() error {
					g, err := base.ParseCSVToInstances(p, true)
					t, ok := csvTable(trimAll(names), cells, nil)
					if (err == nil) != ok {
						return fmt.Errorf("file: error %v, want ok=%v", err, ok)
					}
					if !ok {
						return nil
					}
					return sameTab(g, t)
				}))
			}
		})
	}
	c12long(c)
	c12templates(c)
	c12groups(c)
	// malformed input is an error
	for i, d := range []struct {
		doc string
		h   bool
	}{{"", false}, {"", true}, {"\n\n", true}, {"\n", false}, {"a,b\n1\n", true}, {"a,b\n1,2,3\n", true}, {"1,2\n3\n", false}, {"a\n\"x\n", true}, {"a\nx\"y\n", true}, {"a\n\"x\"y\n", true}, {"a\n1\nx\n", true}, {"1\n1e999\n", false}, {"1\n--1\n", false}, {"\"", false}, {"a,\"", true}} {
		if !c.Mine() {
			continue
		}
		c.Case("malformed %q header=%v", d.doc, d.h)
		failErr(c, try(func() error {
			g, err := base.ParseCSVToInstancesFromReader(strings.NewReader(d.doc), d.h)
			if err == nil {
				return fmt.Errorf("no error (got %v)", g)
			}
			tpl := buildDense(mkTab([]AD{{'F', "a", nil}, {'F', "b", nil}}, 1, nil), 0)
			if i < 12 {
				if _, err := base.ParseCSVToTemplatedInstancesFromReader(strings.NewReader(d.doc), d.h, tpl); err == nil {
					return fmt.Errorf("no error with a template")
				}
			}
			if _, err := base.ParseCSVToInstancesWithAttributeGroupsFromReader(strings.NewReader(d.doc), map[string]string{"a": "g"}, nil, nil, d.h); err == nil {
				return fmt.Errorf("no error with groups")
			}
			return nil
		}))
		c.Trace()
	}
	for _, h := range []string{"a\n", "a,b", "x,y,z\n\n"} {
		if !c.Mine() {
			continue
		}
		c.Case("header only %q", h)
		failErr(c, try(func() error {
			g, err := base.ParseCSVToInstancesFromReader(strings.NewReader(h), true)
			if err != nil {
				return err
			}
			cn, rn := g.Size()
			if rn != 0 || cn != strings.Count(h, ",")+1 {
				return fmt.Errorf("size %d,%d", cn, rn)
			}
			return nil
		}))
	}
	if c.Mine() {
		c.Case("missing file")
		failErr(c, try(func() error {
			if _, err := base.ParseCSVToInstances("/nonexistent/x.csv", true); err == nil {
				return fmt.Errorf("no error")
			}
			return nil
		}))
	}
	c.Sample("document %q header=1", csvDoc([]string{"x", " y"}, [][]string{{"1", "a"}, {"", " b c"}}, true, 0))
	c.Sample("template [y:C x:F] for columns x,y,extra")
	c12large(c)
	c12odd(c)
	c12files(c)
	c12paths(c)
}

// c12long: one cell is longer than any buffer on the way.
func c12long(c *eng.Ctx) {
	for _, n := range []int{4095, 4096, 65535, 65536, 70000, 300000} {
		for kind := 0; kind < 3; kind++ {
			long := strings.Repeat("a", n)
			if kind == 1 {
				long = strings.Repeat("0", n-1) + "7"
			} else if kind == 2 {
				long = strings.Repeat("b,\n", n/3)
			}
			for at := 0; at < 8; at++ {
				if !c.Mine() {
					continue
				}
				cells := [][]string{{"1.5", "a"}, {"2.25", "b"}, {"3", "a"}, {"4", "c"}}
				if j := at % 2; kind != 1 && j == 0 {
					for i := range cells {
						cells[i][0] = "t" + cells[i][0]
					}
				}
				cells[at/2][at%2] = long
				for h := 0; h < 2; h++ {
					for style := 0; style < 3; style++ {
						doc := csvDoc([]string{"x", "y"}, cells, h == 1, style)
						c.Case("document with a cell of %d bytes (%.3q...) in row %d, column %d, header=%d, style %d", n, long, at/2, at%2, h, style)
						if !failErr(c, try(func() error { return c12plain(doc, []string{"x", "y"}, cells, h == 1) })) {
							c.Trace()
						}
						c.Trans(4)
					}
				}
			}
		}
	}
}

func trimAll(s []string) []string {
	r := []string{}
	for _, x := range s {
		r = append(r, strings.TrimSpace(x))
	}
	return r
}

func c12plain(doc string, names []string, cells [][]string, header bool) error {
	r := strings.NewReader(doc)
	n, err := base.ParseCSVGetRowsFromReader(r)
	want := len(cells)
	if header {
		want++
	}
	if err != nil || n != want {
		return fmt.Errorf("ParseCSVGetRows = %d, %v, want %d", n, err, want)
	}
	nm := trimAll(names)
	if !header {
		for i := range nm {
			nm[i] = fmt.Sprint(i)
		}
	}
	if x := base.ParseCSVSniffAttributeNamesFromReader(r, header); !same(x, nm) {
		return fmt.Errorf("names %q, want %q", x, nm)
	}
	t, ok := csvTable(nm, cells, nil)
	g, err := base.ParseCSVToInstancesFromReader(r, header)
	if !ok {
		if err == nil {
			return fmt.Errorf("a cell that is no number was accepted")
		}
		return nil
	}
	if err != nil {
		return err
	}
	if err := sameTab(g, t); err != nil {
		return err
	}
	cls := g.AllClassAttributes()
	if len(cls) != 1 || !cls[0].Equals(t.A[len(t.A)-1]) {
		return fmt.Errorf("class attributes %v", cls)
	}
	// printed precision: the longest fraction of the first six lines
	prec := 0
	for i, l := range strings.Split(strings.ReplaceAll(doc, "\r\n", "\n"), "\n") {
		if i > 5 {
			break
		}
		for p := 0; p < len(l); p++ {
			if l[p] == '.' && p > 0 && l[p-1] >= '0' && l[p-1] <= '9' {
				q := p + 1
				for q < len(l) && l[q] >= '0' && l[q] <= '9' {
					q++
				}
				if q-p-1 > prec {
					prec = q - p - 1
				}
			}
		}
	}
	for _, a := range g.AllAttributes() {
		if f, ok := a.(*base.FloatAttribute); ok && f.Precision < prec {
			return fmt.Errorf("precision %d, the document has numbers with %d decimals", f.Precision, prec)
		}
	}
	return nil
}

func c12templates(c *eng.Ctx) {
	// The template: a categorical, a numeric, a binary column (some left out), in any order, in several layouts.
	tdefs := []AD{{'C', "c", []string{"q", "p"}}, {'F', "f", nil}, {'B', "b", nil}}
	docs := [][]string{{"c", "f", "b"}, {"f", "c", "b"}, {"b", "f", "c"}, {"c", "b", "f"}}
	cellOf := map[string][]string{"c": {"p", "q", " r", ""}, "f": {"1", "-2.5", ""}, "b": {"0", "1", "-1"}, "extra": {"7", "e"}}
	for mask := 1; mask < 8; mask++ {
		sub := []AD{}
		for j := range tdefs {
			if mask>>uint(j)&1 == 1 {
				sub = append(sub, tdefs[j])
			}
		}
		perms(len(sub), func(p []int) {
			order := append([]int{}, p...)
			for layout := 0; layout < 3; layout++ {
				for class := 0; class < len(sub); class++ {
					for _, cols := range append(docs, []string{"c", "f", "b", "extra"}, []string{"extra"}, []string{"f", "c"}) {
						// the document keeps only the template's columns unless it is the "extra"/missing one
						names := []string{}
						for _, n := range cols {
							in := n == "extra" || len(cols) == 2
							for _, d := range sub {
								in = in || d.Name == n
							}
							if in {
								names = append(names, n)
							}
						}
						radix := []int{}
						for i := 0; i < 2; i++ {
							for _, n := range names {
								radix = append(radix, len(cellOf[n]))
							}
						}
						if !c.Mine() {
							continue
						}
						defs := []AD{}
						for _, q := range order {
							defs = append(defs, sub[q])
						}
						tuples(radix, func(ix []int) {
							if len(names) > 2 && ix[0]+ix[len(names)] > 3 && !c.Thorough() {
								return
							}
							cells := make([][]string, 2)
							for i := range cells {
								for j, n := range names {
									cells[i] = append(cells[i], cellOf[n][ix[i*len(names)+j]])
								}
							}
							c.Case("template %s class=%d layout=%d names=%v cells=%q", defsNames(defs), class, layout, names, cells)
							if !failErr(c, try(func() error { return c12tpl(defs, class, layout, names, cells) })) {
								c.Trace()
							}
							c.Trans(2)
						})
					}
				}
			}
		})
	}
}

func defsNames(d []AD) string {
	s := ""
	for _, x := range d {
		s += x.Name
	}
	return s
}

func c12tpl(defs []AD, class, layout int, names []string, cells [][]string) error {
	t := mkTab(defs, class, [][]string{zeroRow(defs)})
	tpl := buildDense(t, layout)
	before := t.schema()
	doc := csvDoc(names, cells, true, 0)
	attrs := make([]base.Attribute, len(names))
	missing, extra := 0, false
	for j, n := range names {
		for _, a := range t.A {
			if a.GetName() == n {
				attrs[j] = a
			}
		}
		extra = extra || attrs[j] == nil
	}
	for _, d := range defs {
		hit := false
		for _, n := range names {
			hit = hit || n == d.Name
		}
		if !hit {
			missing++
		}
	}
	// model: the template's columns in the template's order
	m, ok := csvTable(names, cells, attrs)
	g, err := base.ParseCSVToTemplatedInstancesFromReader(strings.NewReader(doc), true, tpl)
	if !ok || extra {
		if err == nil {
			return fmt.Errorf("accepted although the document does not fit the template")
		}
		return nil
	}
	if err != nil {
		return err
	}
	w := &Tab{}
	for j, a := range t.A {
		w.Class = append(w.Class, t.Class[j])
		src := -1
		for q, n := range names {
			if n == a.GetName() {
				src = q
			}
		}
		if src >= 0 {
			w.A = append(w.A, m.A[src])
		} else {
			w.A = append(w.A, equalAttr(a))
		}
		for i := range cells {
			if len(w.V) <= i {
				w.V = append(w.V, nil)
			}
			v := zeroRow(defs)[j]
			if src >= 0 {
				v = m.V[i][src]
			}
			w.V[i] = append(w.V[i], v)
		}
	}
	if err := sameTab(g, w); err != nil {
		return err
	}
	// indices agree with the template's: known texts kept their index
	for j, d := range defs {
		a, ok := t.A[j].(*base.CategoricalAttribute)
		if !ok {
			continue
		}
		for i, s := range d.Cats {
			if a.GetValues()[i] != s {
				return fmt.Errorf("category %d of the template became %q", i, a.GetValues()[i])
			}
		}
	}
	if _, rows := tpl.Size(); rows != 1 || len(before) == 0 {
		return fmt.Errorf("the template has %d rows now", rows)
	}
	return nil
}

func zeroRow(defs []AD) []string {
	r := []string{}
	for _, d := range defs {
		if d.Kind == 'B' {
			r = append(r, "\x00")
		} else {
			r = append(r, ub(0))
		}
	}
	return r
}

func c12groups(c *eng.Ctx) {
	cells := [][]string{{"1", "a", "2.5", "b"}, {"", "c", "-1", "a"}}
	names := []string{"n", "t", "m", "u"}
	groups := []string{"", "A", "B"}
	for h := 0; h < 2; h++ {
		tuples(power(3, 4), func(ix []int) {
			for cls := 0; cls < 1<<4; cls++ {
				for over := 0; over < 3; over++ {
					if !c.Mine() {
						continue
					}
					nm := names
					if h == 0 {
						nm = []string{"0", "1", "2", "3"}
					}
					c.Case("groups %v classes=%b override=%d header=%d", ix, cls, over, h)
					ag, cg := map[string]string{}, map[string]string{}
					attrs := make([]base.Attribute, 4)
					ov := map[int]base.Attribute{}
					switch over {
					case 1:
						ov[0] = AD{'C', nm[0], nil}.make()
					case 2:
						ov[2] = AD{'B', nm[2], nil}.make()
					}
					mixed := false
					for j := range nm {
						attrs[j] = ov[j]
						if ix[j] == 0 {
							continue
						}
						if cls>>uint(j)&1 == 1 {
							cg[nm[j]] = "cls" + groups[ix[j]]
						} else {
							ag[nm[j]] = groups[ix[j]]
						}
						// only attributes of one type can share a group
						for q := 0; q < j; q++ {
							if ix[q] == ix[j] && cls>>uint(j)&1 == cls>>uint(q)&1 && kindAt(q, over) != kindAt(j, over) {
								mixed = true
							}
						}
					}
					if mixed {
						continue
					}
					if !failErr(c, try(func() error {
						t, ok := csvTable(nm, cells, attrs)
						if !ok {
							return fmt.Errorf("model")
						}
						for j := range t.Class {
							t.Class[j] = ix[j] != 0 && cls>>uint(j)&1 == 1
						}
						doc := csvDoc(names, cells, h == 1, 0)
						g, err := base.ParseCSVToInstancesWithAttributeGroupsFromReader(strings.NewReader(doc), ag, cg, ov, h == 1)
						if err != nil {
							return err
						}
						if err := sameTab(g, t); err != nil {
							return err
						}
						for j, n := range nm {
							want := ag[n] + cg[n]
							if want == "" {
								continue
							}
							grp, err := g.GetAttributeGroup(want)
							if err != nil {
								return err
							}
							hit := false
							for _, a := range grp.Attributes() {
								hit = hit || a.Equals(t.A[j])
							}
							if !hit {
								return fmt.Errorf("%s is not in group %s", n, want)
							}
						}
						return nil
					})) {
						c.Trace()
					}
				}
			}
		})
	}
}

func kindAt(col, over int) byte {
	if over == 1 && col == 0 {
		return 'C'
	}
	if over == 2 && col == 2 {
		return 'B'
	}
	return "FCFC"[col]
}
