package props

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"os"
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C13", Run: runC13,
		Rule:   "every filling of 0..n rows of schemas of numbers (three precisions), categories (texts with commas, quotes, line breaks, signs) and bits with every class marking, on every kind of grid and under every rotation of map iteration: the CSV bytes are read with encoding/csv and compared cell by cell with the table, then parsed by the library with the grid as template and compared to printed precision; files: fresh, longer and shorter existing ones. Non-trivial: at least one row and two columns",
		Assume: []string{"category texts and column names are non-empty, without surrounding blanks and carriage returns (parsing trims), and column names are distinct"}})
}

// printed renders the table by its attributes' texts, per column name.
func printed(t *Tab) map[string][]string {
	r := map[string][]string{}
	for j, a := range t.A {
		col := []string{}
		for i := range t.V {
			col = append(col, a.GetStringFromSysVal([]byte(t.V[i][j])))
		}
		r[a.GetName()] = col
	}
	return r
}

func runC13(c *eng.Ctx) {
	cats := []string{"a,b", "say \"x\"", "two\nlines", "-1", "é"}
	type col struct {
		d    AD
		prec int
		vals []string
	}
	F := func(n string, p int, f ...float64) col {
		v := []string{}
		for _, x := range f {
			v = append(v, fb(x))
		}
		return col{AD{'F', n, nil}, p, v}
	}
	C := func(n string, k int) col {
		d := AD{'C', n, cats[:k]}
		return col{d, 0, d.vals()}
	}
	B := func(n string) col { return col{AD{'B', n, nil}, 0, []string{"\x00", "\x01"}} }
	scs := []struct {
		cols []col
		n    int
	}{
		{[]col{F("x", 2, 0, -1.25, 0.005, 1e6, 1e-9)}, 3},
		{[]col{C("n,\"1\"", 5)}, 3},
		{[]col{B("b")}, 3},
		{[]col{F("x", 0, -0.4, 0.5, 7), C("c", 3)}, 2},
		{[]col{C("c", 3), F("two\nlines", 6, -1.2345678, 123456.5), B("b")}, 2},
		{[]col{F("x", 2, -1, 2.5), F("y", 4, 0.0625, 3), C("c", 2), C("d", 2)}, c.Pick(1, 2)},
		{[]col{B("b"), B("e"), F("x", 1, 1.25), C("c", 2)}, 2},
	}
	for si, s := range scs {
		m := len(s.cols)
		for n := 0; n <= s.n; n++ {
			radix := []int{}
			for i := 0; i < n; i++ {
				for _, k := range s.cols {
					radix = append(radix, len(k.vals))
				}
			}
			tuples(radix, func(ix []int) {
				for cls := 0; cls < 1<<uint(m); cls++ {
					if m > 2 && cls&(cls-1) != 0 && cls != 3 && cls != 1<<uint(m)-1 && !c.Thorough() {
						continue
					}
					if !c.Mine() {
						continue
					}
					t := &Tab{}
					for j, k := range s.cols {
						a := k.d.make()
						if f, ok := a.(*base.FloatAttribute); ok {
							f.Precision = k.prec
						}
						t.A = append(t.A, a)
						t.Class = append(t.Class, cls>>uint(j)&1 == 1)
					}
					for i := 0; i < n; i++ {
						r := []string{}
						for j, k := range s.cols {
							r = append(r, k.vals[ix[i*m+j]])
						}
						t.V = append(t.V, r)
					}
					c.State(fmt.Sprint(si, cls) + t.String())
					for k := 0; k < numKinds; k++ {
						g, w, _ := makeKind(k, t)
						if g == nil {
							continue
						}
						for rot := 0; rot < min(m, 4); rot++ {
							c.Case("schema=%d class=%b %s rot=%d table=%s", si, cls, kindNames[k], rot, w)
							eng.SetMapRot(rot)
							err := try(func() error { return c13one(c, g, w, k) })
							eng.SetMapRot(0)
							c.Trans(n + 1)
							if !failErr(c, err) {
								c.Trace()
							}
						}
					}
				}
			})
		}
	}
	// more rows than one buffer of the writer
	for _, n := range []int{c.Pick(300, 2000)} {
		for k := 0; k < numKinds; k++ {
			if !c.Mine() {
				continue
			}
			t := c02src("FCB", n, 1)
			g, w, _ := makeKind(k, t)
			if g == nil {
				continue
			}
			c.Case("%s of FCB rows=%d", kindNames[k], n)
			if !failErr(c, try(func() error { return c13one(c, g, w, k) })) {
				c.Trace()
			}
		}
	}
	c.Sample("C3,F6,B rows=2 view-of-view, rotation 2")
	c13large(c)
	c13files(c)
}

func c13one(c *eng.Ctx, g base.FixedDataGrid, t *Tab, kind int) error {
	var buf bytes.Buffer
	if err := base.SerializeInstancesToCSVStream(g, &buf); err != nil {
		return err
	}
	rec, err := csv.NewReader(bytes.NewReader(buf.Bytes())).ReadAll()
	if err != nil {
		return err
	}
	if len(rec) != t.rows()+1 || len(rec[0]) != len(t.A) {
		return fmt.Errorf("%d records of %d columns, want %d of %d", len(rec), len(rec[0]), t.rows()+1, len(t.A))
	}
	want := printed(t)
	if unorderedKind(kind) {
		// such views promise no row order: compare whole records
		a, b := []string{}, []string{}
		for i := 0; i < t.rows(); i++ {
			x, y := "", ""
			for j, h := range rec[0] {
				x += rec[i+1][j] + "|"
				y += want[h][i] + "|"
			}
			a, b = append(a, x), append(b, y)
		}
		if fmt.Sprint(sorted(a)) != fmt.Sprint(sorted(b)) {
			return fmt.Errorf("records %q, want %q", a, b)
		}
	}
	seen := map[string]bool{}
	for j, h := range rec[0] {
		w, ok := want[h]
		if !ok || seen[h] {
			return fmt.Errorf("header %q", rec[0])
		}
		seen[h] = true
		if unorderedKind(kind) {
			continue
		}
		for i := range w {
			if rec[i+1][j] != w[i] {
				return fmt.Errorf("record %d column %q is %q, want %q", i+1, h, rec[i+1][j], w[i])
			}
		}
	}
	// round trip
	tpl := buildDense(t, 0)
	if d, ok := g.(*base.DenseInstances); ok {
		tpl = d
	}
	r, err := base.ParseCSVToTemplatedInstancesFromReader(bytes.NewReader(buf.Bytes()), true, tpl)
	if err != nil {
		return fmt.Errorf("parsing %q: %v", buf.String(), err)
	}
	got, err := readAs(r, t)
	if err != nil {
		return err
	}
	if unorderedKind(kind) {
		return nil
	}
	if got.rows() != t.rows() {
		return fmt.Errorf("%d rows came back of %d", got.rows(), t.rows())
	}
	back := printed(got)
	for n := range want {
		if fmt.Sprintf("%q", back[n]) != fmt.Sprintf("%q", want[n]) {
			return fmt.Errorf("column %q came back as %q, want %q", n, back[n], want[n])
		}
	}
	for j := range t.A {
		if t.A[j].GetType() != base.Float64Type {
			for i := range t.V {
				if got.V[i][j] != t.V[i][j] {
					return fmt.Errorf("stored value row %d column %d changed", i, j)
				}
			}
		}
	}
	nc := 0
	for _, x := range t.Class {
		if x {
			nc++
		}
	}
	if len(r.AllClassAttributes()) != nc {
		return fmt.Errorf("class attributes %v", r.AllClassAttributes())
	}
	// files
	if kind > 3 || t.rows() > 2 {
		return nil
	}
	for v := 0; v < 3; v++ {
		p := filepath.Join(c.Scratch, "c13.csv")
		os.Remove(p)
		switch v {
		case 1:
			os.WriteFile(p, bytes.Repeat([]byte("old,"), 500), 0600)
		case 2:
			os.WriteFile(p, []byte("o"), 0600)
		}
		if err := base.SerializeInstancesToCSV(g, p); err != nil {
			return fmt.Errorf("file variant %d: %v", v, err)
		}
		b, _ := os.ReadFile(p)
		if !bytes.Equal(b, buf.Bytes()) {
			return fmt.Errorf("file variant %d holds %q, want %q", v, b, buf.Bytes())
		}
	}
	return nil
}
