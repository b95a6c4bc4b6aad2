package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C14", Run: runC14,
		Rule:   "every filling of 0..n rows of schemas of numbers and categories, every class marking, every kind of grid, serialised to ARFF (writer and file: fresh, longer, shorter) and parsed back; plus every combination of layout options (keyword case, comments, blank lines, category list spelling, data spacing, line ends) for hand-made documents. Non-trivial: at least one row",
		Assume: []string{"names and category texts use no blanks at the ends, commas, quotes, braces or a leading %; the dense ARFF subset has no quoting", "every categorical attribute has at least one category; binary attributes are written as numbers and not part of the round trip"}})
}

func runC14(c *eng.Ctx) {
	cats := []string{"yes", "No", "@home", "a b", "a%b", "-1"}
	scs := []struct {
		kinds string
		k     int
		n     int
	}{{"F", 0, 3}, {"C", 6, 3}, {"FC", 3, c.Pick(2, 3)}, {"CF", 3, c.Pick(2, 3)}, {"CC", 3, 3}, {"FF", 0, 2}, {"FCF", 2, 2}, {"CFC", 2, 2}}
	fvals := []string{fb(0), fb(-1.25), fb(0.005), fb(1e6)}
	for si, s := range scs {
		m := len(s.kinds)
		for n := 0; n <= s.n; n++ {
			defs := []AD{}
			radix := []int{}
			for j := range s.kinds {
				defs = append(defs, AD{s.kinds[j], fmt.Sprintf("At_%d-x", j), cats[:s.k]})
			}
			for i := 0; i < n*m; i++ {
				if s.kinds[i%m] == 'F' {
					radix = append(radix, len(fvals))
				} else {
					radix = append(radix, s.k)
				}
			}
			tuples(radix, func(ix []int) {
				for class := -1; class < m; class++ {
					if !c.Mine() {
						continue
					}
					v := make([][]string, n)
					for i := range ix {
						x := ""
						if s.kinds[i%m] == 'F' {
							x = fvals[ix[i]]
						} else {
							x = ub(uint64(ix[i]))
						}
						v[i/m] = append(v[i/m], x)
					}
					t := mkTab(defs, class, v)
					for j := range t.A {
						if f, ok := t.A[j].(*base.FloatAttribute); ok {
							f.Precision = 2 + 2*(j%2)
						}
					}
					c.State(fmt.Sprint(si, class) + t.String())
					for k := 0; k < numKinds; k++ {
						g, w, _ := makeKind(k, t)
						if g == nil {
							continue
						}
						for rot := 0; rot < m; rot++ {
							c.Case("schema=%s class=%d %s rot=%d table=%s", s.kinds, class, kindNames[k], rot, w)
							eng.SetMapRot(rot)
							err := try(func() error { return c14one(c, g, w, k) })
							eng.SetMapRot(0)
							c.Trans(n + 1)
							if !failErr(c, err) {
								c.Trace()
							}
						}
					}
				}
			})
		}
	}
	c14docs(c)
	// a line longer than any fixed buffer must not lose rows silently
	for _, l := range []int{1000, 70000, 200000} {
		if !c.Mine() {
			continue
		}
		c.Case("category of length %d", l)
		failErr(c, try(func() error {
			t := mkTab([]AD{{'F', "x", nil}, {'C', "c", []string{"u", strings.Repeat("v", l)}}}, 1, [][]string{{fb(1), ub(0)}, {fb(2), ub(1)}, {fb(3), ub(0)}})
			p := filepath.Join(c.Scratch, "c14.arff")
			os.Remove(p)
			if err := base.SerializeInstancesToDenseARFF(buildDense(t, 0), p, "r"); err != nil {
				return err
			}
			g, err := base.ParseDenseARFFToInstances(p)
			if err != nil {
				if l < 60000 {
					return err
				}
				return nil // reported
			}
			return sameTab(g, t)
		}))
		c.Trace()
	}
	c.Sample("CF rows=2 filtered, class 0")
	c.Sample("@ATTRIBUTE c {a,b, c}, comment between data rows, CRLF")
	c14large(c)
	c14files(c)
}

func c14check(p string, t *Tab, ordered bool) error {
	n, err := base.ParseARFFGetRows(p)
	if err != nil || n != t.rows() {
		return fmt.Errorf("ParseARFFGetRows = %d, %v, want %d", n, err, t.rows())
	}
	as := base.ParseARFFGetAttributes(p)
	if len(as) != len(t.A) {
		return fmt.Errorf("ParseARFFGetAttributes: %v", as)
	}
	for _, a := range as {
		hit := false
		for _, b := range t.A {
			hit = hit || a.Equals(b)
		}
		if !hit {
			return fmt.Errorf("ParseARFFGetAttributes: %s", a)
		}
	}
	g, err := base.ParseDenseARFFToInstances(p)
	if err != nil {
		return err
	}
	got, err := readAs(g, t)
	if err != nil {
		return err
	}
	if err := readBoth(g); err != nil {
		return err
	}
	if got.rows() != t.rows() {
		return fmt.Errorf("%d rows came back of %d", got.rows(), t.rows())
	}
	want, back := printed(t), printed(got)
	if !ordered {
		return nil
	}
	for k := range want {
		if fmt.Sprintf("%q", back[k]) != fmt.Sprintf("%q", want[k]) {
			return fmt.Errorf("column %q came back as %q, want %q", k, back[k], want[k])
		}
	}
	for j := range t.A {
		if t.A[j].GetType() == base.CategoricalType {
			for i := range t.V {
				if got.V[i][j] != t.V[i][j] {
					return fmt.Errorf("stored value row %d column %d changed", i, j)
				}
			}
		}
	}
	return nil
}

func c14one(c *eng.Ctx, g base.FixedDataGrid, t *Tab, kind int) error {
	p := filepath.Join(c.Scratch, "c14.arff")
	var buf bytes.Buffer
	if err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&buf, g, t.A, "rel"); err != nil {
		return err
	}
	// the given order is the order of the header
	at := 0
	for _, l := range strings.Split(buf.String(), "\n") {
		if strings.HasPrefix(l, "@attribute ") {
			if at >= len(t.A) || strings.Fields(l)[1] != t.A[at].GetName() {
				return fmt.Errorf("header line %q is number %d", l, at)
			}
			at++
		}
	}
	if at != len(t.A) {
		return fmt.Errorf("%d attributes in the header", at)
	}
	os.WriteFile(p, buf.Bytes(), 0600)
	if err := c14check(p, t, !unorderedKind(kind)); err != nil {
		return fmt.Errorf("writer: %v in %q", err, buf.String())
	}
	if kind > 2 && kind != 7 {
		return nil
	}
	for v := 0; v < 3; v++ {
		os.Remove(p)
		switch v {
		case 1:
			os.WriteFile(p, bytes.Repeat([]byte("old,\n"), 500), 0600)
		case 2:
			os.WriteFile(p, []byte("o"), 0600)
		}
		if err := base.SerializeInstancesToDenseARFF(g, p, "rel"); err != nil {
			return fmt.Errorf("file variant %d: %v", v, err)
		}
		if err := c14check(p, t, true); err != nil {
			b, _ := os.ReadFile(p)
			return fmt.Errorf("file variant %d: %v in %q", v, err, b)
		}
		if err := base.SerializeInstancesToDenseARFFWithAttributes(g, t.A, p, "rel"); err != nil {
			return fmt.Errorf("file variant %d: %v", v, err)
		}
		b, _ := os.ReadFile(p)
		if !bytes.Equal(b, buf.Bytes()) {
			return fmt.Errorf("file variant %d holds %q, want %q", v, b, buf.Bytes())
		}
	}
	return nil
}

func c14docs(c *eng.Ctx) {
	kw := [][3]string{{"@relation", "@attribute", "@data"}, {"@RELATION", "@ATTRIBUTE", "@DATA"}, {"@Relation", "@Attribute", "@Data "}}
	lists := []string{"{%s,%s,%s}", "{%s, %s, %s}", "{%s,%s, %s}", "{ %s , %s ,%s }", "{%s ,%s,%s }"}
	junk := []string{"", "% comment\n", "\n", "% @data\n", "%\n\n"}
	junkD := []string{"", "% 1,a\n", "\n", "%\n\n"}
	sep := []string{",", ", ", " ,"}
	nl := []string{"\n", "\r\n"}
	cat := []string{"red", "Blue", "c_3"}
	tuples([]int{len(kw), len(lists), len(junk), len(junkD), len(sep), len(nl), 2, 4}, func(ix []int) {
		if !c.Mine() {
			return
		}
		k, n := kw[ix[0]], ix[7]
		d := junk[ix[2]] + k[0] + " r\n" + junk[ix[2]] + k[1] + " x REAL\n" + junk[ix[2]] + k[1] + " c " + fmt.Sprintf(lists[ix[1]], cat[0], cat[1], cat[2]) + "\n" + k[1] + "\ty   real\n" + junk[ix[2]] + k[2] + "\n"
		t := mkTab([]AD{{'F', "x", nil}, {'C', "c", cat}, {'F', "y", nil}}, 2, nil)
		for i := 0; i < n; i++ {
			d += junkD[ix[3]] + fmt.Sprintf("%d.5%s%s%s-%d", i, sep[ix[4]], cat[i%3], sep[ix[4]], i) + "\n"
			t.V = append(t.V, []string{fb(float64(i) + 0.5), ub(uint64(i % 3)), fb(-float64(i))})
		}
		d += junkD[ix[3]]
		if ix[6] == 1 {
			d = strings.TrimRight(d, "\n")
		}
		d = strings.ReplaceAll(d, "\n", nl[ix[5]])
		c.Case("document %q", d)
		c.State(d)
		p := filepath.Join(c.Scratch, "c14.arff")
		os.WriteFile(p, []byte(d), 0600)
		if !failErr(c, try(func() error {
			if err := c14check(p, t, true); err != nil {
				return err
			}
			g, err := base.ParseDenseARFFToInstances(p)
			if err != nil {
				return err
			}
			if cl := g.AllClassAttributes(); len(cl) != 1 || cl[0].GetName() != "y" {
				return fmt.Errorf("class attributes %v", cl)
			}
			return sameTab(g, t)
		})) {
			c.Trace()
		}
		c.Trans(n + 3)
	})
	// malformed
	head := "@relation r\n@attribute x real\n@attribute c {a,b}\n@data\n"
	for _, d := range []string{"", "@data\n1,2\n", head + "1,a,3\n", head + "1,zzz\n", head + "x,a\n", head + "\"1,a\n", "@attribute x {a,b\n@data\na\n", "@attribute x string\n@data\na\n", head + "?,a\n"} {
		if !c.Mine() {
			continue
		}
		c.Case("malformed %q", d)
		p := filepath.Join(c.Scratch, "c14.arff")
		os.WriteFile(p, []byte(d), 0600)
		failErr(c, try(func() error {
			if g, err := base.ParseDenseARFFToInstances(p); err == nil {
				return fmt.Errorf("no error (got %v)", g)
			}
			return nil
		}))
		c.Trace()
	}
}
