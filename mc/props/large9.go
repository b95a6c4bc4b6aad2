package props

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	dataframe "github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"gonum.org/v1/gonum/mat"
	"verif/mc/eng"
)

// c01deep: grids of many rows, extended again and again, cells cleared and set far down.
func c01deep(c *eng.Ctx) {
	for _, n := range []int{1000, 5000, 20000} {
		for layout := 0; layout < 3; layout++ {
			if !c.Mine() {
				continue
			}
			c.Case("deep grid of %d rows, layout %d", n, layout)
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				t := mkTab(func() []AD {
					r := []AD{{'F', "f", nil}, {'C', "c", nil}, {'F', "g", nil}}
					for i := 0; i < 9; i++ {
						r = append(r, AD{'B', fmt.Sprintf("b%d", i), nil})
					}
					return r
				}(), 1, nil)
				d := buildDense(t, layout)
				specs := base.ResolveAttributes(d, t.A)
				val := func(gen, i, j int) string {
					h := mix(uint64(gen*1000003 + i*17 + j))
					switch t.A[j].(type) {
					case *base.BinaryAttribute:
						return string([]byte{byte(h >> 13 & 1)})
					case *base.FloatAttribute:
						return fb(float64(h%100000) / 8)
					}
					return ub(h)
				}
				at := map[base.Attribute]int{}
				for j, a := range t.A {
					at[a] = j
				}
				gens, rows := []int{}, 0
				check := func(step string) error {
					if _, b := d.Size(); b != rows {
						return fmt.Errorf("%s: %d rows, want %d", step, b, rows)
					}
					for _, s := range specs {
						j := at[s.GetAttribute()]
						for i := 0; i < rows; i++ {
							if got := string(d.Get(s, i)); got != val(gens[i], i, j) {
								return fmt.Errorf("%s: cell (%d,%s) is %x, want %x", step, i, t.A[j].GetName(), got, val(gens[i], i, j))
							}
						}
					}
					c.Trans(rows * len(specs))
					return nil
				}
				write := func(gen, from, to, step int) {
					for i := from; i < to; i += step {
						gens[i] = gen
						for _, s := range specs {
							d.Set(s, i, []byte(val(gen, i, at[s.GetAttribute()])))
						}
					}
				}
				for gen, add := range []int{n / 2, 1, n / 4, 7, n / 4} {
					if err := d.Extend(add); err != nil {
						return err
					}
					for i := 0; i < add; i++ {
						gens = append(gens, 0)
					}
					rows += add
					write(gen, rows-add, rows, 1)
					if err := check(fmt.Sprintf("extension %d", gen)); err != nil {
						return err
					}
				}
				write(9, 0, rows, 3)
				write(11, 0, rows, 2)
				if err := check("rewritten"); err != nil {
					return err
				}
				c.Trace()
				return nil
			})))
		}
	}
}

// c18wide: matrices of many columns as grids.
func c18wide(c *eng.Ctx) {
	for _, s := range [][2]int{{3, 129}, {2, 257}, {2, 400}, {1, 1100}, {300, 5}} {
		if !c.Mine() {
			continue
		}
		n, m := s[0], s[1]
		c.Case("matrix of %dx%d as a grid", n, m)
		c.State(c.CurCase())
		failErr(c, short(try(func() error {
			x := mat.NewDense(n, m, nil)
			w := &Tab{}
			for j := 0; j < m; j++ {
				w.A = append(w.A, base.NewFloatAttribute(fmt.Sprint(j)))
				w.Class = append(w.Class, j%37 == 5)
			}
			for i := 0; i < n; i++ {
				row := []string{}
				for j := 0; j < m; j++ {
					f := float64(i*m+j) + 0.5
					x.Set(i, j, f)
					row = append(row, fb(f))
				}
				w.V = append(w.V, row)
			}
			g := base.InstancesFromMat64(n, m, x)
			for j := range w.A {
				if w.Class[j] {
					if err := g.AddClassAttribute(w.A[j]); err != nil {
						return err
					}
				}
			}
			if err := sameTab(g, w); err != nil {
				return err
			}
			all := g.AllAttributes()
			if len(all) != m {
				return fmt.Errorf("%d attributes", len(all))
			}
			for order := 0; order < 2; order++ {
				as := append([]base.Attribute{}, all...)
				if order == 1 {
					for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
						as[i], as[j] = as[j], as[i]
					}
				}
				specs := base.ResolveAttributes(g, as)
				rows := 0
				err := g.MapOverRows(specs, func(row [][]byte, i int) (bool, error) {
					if i != rows || len(row) != m {
						return false, fmt.Errorf("row %d (%d cells), want row %d", i, len(row), rows)
					}
					rows++
					for k, b := range row {
						var j int
						fmt.Sscan(specs[k].GetAttribute().GetName(), &j)
						if string(b) != w.V[i][j] {
							return false, fmt.Errorf("iterating: cell (%d,%d) is %x, want %x", i, j, b, w.V[i][j])
						}
						c.Trans(1)
					}
					return true, nil
				})
				if err != nil || rows != n {
					return fmt.Errorf("%d rows: %v", rows, err)
				}
			}
			c.Trace()
			return nil
		})))
	}
}

// c18frames: columns which start with many missing values, and numbers with many digits.
func c18gaps(c *eng.Ctx) {
	digits := []float64{0.1 + 0.2, 1.0 / 3, 2.0 / 3, 1e-310, 5e-324, 1.7976931348623157e308, 123456789.123456789, 4503599627370497.5, 9007199254740993, 1e22, -0.30000000000000004, 3.0000000000000004e-7}
	for _, gap := range []int{0, 1, 2, 9, 10, 11, 12, 40, 300} {
		for tail := 1; tail < 4; tail++ {
			if !c.Mine() {
				continue
			}
			c.Case("frame: %d missing values, then %d present ones", gap, tail*4)
			c.State(c.CurCase())
			failErr(c, short(try(func() error {
				var ss, fs, is []interface{}
				for i := 0; i < gap; i++ {
					ss, fs, is = append(ss, nil), append(fs, nil), append(is, nil)
				}
				for i := 0; i < 4*tail; i++ {
					ss = append(ss, fmt.Sprintf("%d.5", (i*3)%5))
					fs = append(fs, digits[(i+tail)%len(digits)])
					is = append(is, int64(1)<<uint(53-i)+1-int64(i%2))
				}
				df := dataframe.NewDataFrame(dataframe.NewSeriesString("s", nil, ss...), dataframe.NewSeriesFloat64("f", nil, fs...), dataframe.NewSeriesInt64("i", nil, is...))
				g := base.ConvertDataFrameToInstances(df, 0)
				if a, b := g.Size(); a != 3 || b != gap+4*tail {
					return fmt.Errorf("%d columns, %d rows", a, b)
				}
				sp := [3]base.AttributeSpec{}
				for j, nm := range []string{"s", "f", "i"} {
					s, err := g.GetAttribute(base.GetAttributeByName(g, nm))
					if err != nil {
						return err
					}
					sp[j] = s
				}
				if _, ok := sp[0].GetAttribute().(*base.CategoricalAttribute); !ok {
					return fmt.Errorf("text column became %v", sp[0].GetAttribute())
				}
				for i := gap; i < gap+4*tail; i++ {
					c.Trans(3)
					if got := sp[0].GetAttribute().GetStringFromSysVal(g.Get(sp[0], i)); got != ss[i] {
						return fmt.Errorf("text %q became %q", ss[i], got)
					}
					if got := base.UnpackBytesToFloat(g.Get(sp[1], i)); !bitsEq(got, fs[i].(float64)) {
						return fmt.Errorf("number %v became %v", fs[i], got)
					}
					if got := base.UnpackBytesToFloat(g.Get(sp[2], i)); got != float64(is[i].(int64)) {
						return fmt.Errorf("number %v became %v", is[i], got)
					}
				}
				for i := 0; i < gap; i++ {
					for j := 1; j < 3; j++ {
						if f := base.UnpackBytesToFloat(g.Get(sp[j], i)); f == f {
							return fmt.Errorf("missing value %d of column %d became %v", i, j, f)
						}
					}
				}
				c.Trace()
				return nil
			})))
		}
	}
}

// c17attrs: many attributes, and attributes with long names, stored under one key.
func c17attrs(c *eng.Ctx) {
	for _, n := range []int{1, 9, 10, 11, 99, 100, 101, 150, 300} {
		for pat := 0; pat < 3; pat++ {
			if !c.Mine() {
				continue
			}
			c.Case("%d attributes under a key, names of pattern %d", n, pat)
			c.State(c.CurCase())
			path := filepath.Join(c.Scratch, "c17a.cls")
			failErr(c, short(try(func() error {
				defer os.Remove(path)
				md := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "T", ClassifierVersion: "1.0"}
				s, err := base.CreateSerializedClassifierStub(path, md)
				if err != nil {
					return err
				}
				as := []base.Attribute{}
				for i := 0; i < n; i++ {
					nm := fmt.Sprintf("a%d", i*7%n)
					if pat > 0 {
						nm = strings.Repeat("é"[:2], 1+i*3) + nm
					}
					d := AD{"FCB"[i%3], nm, nil}
					if pat == 2 {
						nm = strings.Repeat("long name ", 12+i%40)
						d = AD{"FCB"[i%3], nm, nil}
					}
					if d.Kind == 'C' {
						for k := 0; k <= i%13; k++ {
							d.Cats = append(d.Cats, fmt.Sprint("v", (k*5)%17))
						}
					}
					as = append(as, d.make())
				}
				if err := s.WriteAttributesForKey("A", as); err != nil {
					return err
				}
				if err := s.WriteAttributeForKey("B", as[n-1]); err != nil {
					return err
				}
				if err := s.Close(); err != nil {
					return err
				}
				d, err := base.ReadSerializedClassifierStub(path)
				if err != nil {
					return err
				}
				defer d.Close()
				got, err := d.GetAttributesForKey("A")
				if err != nil || len(got) != n {
					return fmt.Errorf("%d of %d attributes came back (%v)", len(got), n, err)
				}
				for i := range got {
					c.Trans(1)
					if attrKey(got[i]) != attrKey(as[i]) || !got[i].Equals(as[i]) {
						return fmt.Errorf("attribute %d came back as %s, stored %s", i, attrKey(got[i]), attrKey(as[i]))
					}
				}
				b, err := d.GetAttributeForKey("B")
				if err != nil || attrKey(b) != attrKey(as[n-1]) {
					return fmt.Errorf("attribute came back as %v (%v)", b, err)
				}
				// matched with a grid which has them in another order
				if pat < 2 {
					g := base.NewDenseInstances()
					for i := n - 1; i >= 0; i-- {
						g.AddAttribute(as[i])
					}
					m, err := base.ReplaceDeserializedAttributesWithVersionsFromInstances(got, g)
					if err != nil || len(m) != n {
						return fmt.Errorf("matching: %d attributes (%v)", len(m), err)
					}
					for i := range m {
						if m[i] != as[i] {
							return fmt.Errorf("attribute %d was matched with %s, stored %s", i, attrKey(m[i]), attrKey(as[i]))
						}
					}
				}
				c.Trace()
				return nil
			})))
		}
	}
	// attributes of one name and different types or categories
	defs := []AD{{'F', "a", nil}, {'B', "a", nil}, {'C', "a", []string{"x", "y"}}, {'C', "a", []string{"y", "x"}}, {'C', "a", []string{"x"}}, {'F', "b", nil}}
	for _, p := range [][]int{{0, 1, 2, 5}, {2, 0, 1, 5}, {1, 2, 0}, {5, 1, 0}, {3, 0, 1}, {0, 3}, {1, 0}, {3, 1}, {4, 5}} {
		if !c.Mine() {
			continue
		}
		c.Case("matching among attributes of one name %v", p)
		failErr(c, short(try(func() error {
			g := base.NewDenseInstances()
			in := []base.Attribute{}
			for _, i := range p {
				a := defs[i].make()
				in = append(in, a)
				g.AddAttribute(a)
			}
			for _, d := range defs {
				raw, err := base.SerializeAttribute(d.make())
				if err != nil {
					return err
				}
				a, err := base.DeserializeAttribute(raw)
				if err != nil || attrKey(a) != attrKey(d.make()) {
					return fmt.Errorf("attribute %s came back as %v (%v)", attrKey(d.make()), a, err)
				}
				var want base.Attribute
				for _, x := range in {
					if want == nil && x.Equals(a) {
						want = x
					}
				}
				got, err := base.ReplaceDeserializedAttributeWithVersionFromInstances(a, g)
				if (want == nil) != (err != nil) || want != nil && got != want {
					return fmt.Errorf("%s was matched with %s (%v), want %s", attrKey(a), attrKey(got), err, attrKey(want))
				}
				c.Trans(1)
			}
			c.Trace()
			return nil
		})))
	}
}

// c15long: columns with long names and long categories.
func c15long(c *eng.Ctx) {
	for _, n := range []int{63, 64, 99, 100, 101, 255, 256, 300, 1025, 5000} {
		if !c.Mine() {
			continue
		}
		c.Case("columns whose names have %d bytes", n)
		long := strings.Repeat("n", n-1)
		t := mkTab([]AD{{'C', long + "x", []string{long + "1", long + "2", long}}, {'F', long + "y", nil}, {'B', long, nil}}, 0,
			[][]string{{ub(0), fb(2.5), "\x01"}, {ub(1), fb(-1), "\x00"}, {ub(2), fb(0), "\x01"}})
		for k := 0; k < 7; k++ {
			g, w, _ := makeKind(k, t)
			failErr(c, short(try(func() error {
				var buf bytes.Buffer
				if err := base.SerializeInstances(g, &buf); err != nil {
					return err
				}
				r, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
				if err != nil {
					return err
				}
				return sameRestored(r, w, unorderedKind(k))
			})))
			c.Trans(1)
		}
		c.Trace()
	}
}

// c11equal: the class is named by an equal attribute which is another object.
func c11equal(c *eng.Ctx) {
	defs := []AD{{'F', "a", nil}, {'C', "k", []string{"x", "y"}}, {'B', "b", nil}, {'F', "c", nil}}
	rows := [][]string{{fb(1), ub(0), "\x01", fb(2)}, {fb(3), ub(1), "\x00", fb(4)}}
	for k := 0; k < numKinds; k++ {
		for mask := 0; mask < 16; mask++ {
			for first := 0; first < 2; first++ {
				if !c.Mine() {
					continue
				}
				ds, vs := defs, rows
				if k == 8 {
					ds = []AD{{'F', "0", nil}, {'F', "1", nil}, {'F', "2", nil}, {'F', "3", nil}}
					vs = [][]string{{fb(1), fb(2), fb(3), fb(4)}}
				}
				t := mkTab(ds, -1, vs)
				for j := range t.Class {
					t.Class[j] = first == 1 && mask>>uint(j)&1 == 1 && j != 2
				}
				c.Case("%s: classes %04b named by equal attributes (%d)", kindNames[k], mask, first)
				c.State(c.CurCase())
				g, w, _ := makeKind(k, t)
				if g == nil {
					continue
				}
				ug, ok := g.(base.UpdatableDataGrid)
				var add func(base.Attribute) error
				if ok {
					add = ug.AddClassAttribute
				} else if x, ok := g.(interface{ AddClassAttribute(base.Attribute) error }); ok {
					add = x.AddClassAttribute
				}
				if add == nil {
					continue
				}
				failErr(c, short(try(func() error {
					want, wantF := map[string]bool{}, map[string]bool{}
					for j := range w.A {
						if mask>>uint(j)&1 == 1 {
							if err := add(ds[j].make()); err != nil {
								return err
							}
						} else {
							want[attrKey(w.A[j])] = true
							if ds[j].Kind == 'F' {
								wantF[attrKey(w.A[j])] = true
							}
						}
					}
					if n := len(g.AllClassAttributes()); n != len(w.A)-len(want) {
						return fmt.Errorf("%d class attributes, want %d", n, len(w.A)-len(want))
					}
					for _, x := range []struct {
						what string
						got  []base.Attribute
						want map[string]bool
					}{{"NonClassAttributes", base.NonClassAttributes(g), want}, {"NonClassFloatAttributes", base.NonClassFloatAttributes(g), wantF}} {
						got := map[string]bool{}
						for _, a := range x.got {
							got[attrKey(a)] = true
							if !x.want[attrKey(a)] {
								return fmt.Errorf("%s contains the class %s", x.what, attrKey(a))
							}
						}
						if len(got) != len(x.want) || len(x.got) != len(got) {
							return fmt.Errorf("%s has %d attributes, want %d", x.what, len(x.got), len(x.want))
						}
					}
					c.Trans(1)
					c.Trace()
					return nil
				})))
			}
		}
	}
}

// c12paths: reading a file is reading its bytes, whatever its size.
func c12paths(c *eng.Ctx) {
	for _, size := range []int{1, 4000, 5000, 66000, 140000, 1100000} {
		for hdr := 0; hdr < 2; hdr++ {
			if !c.Mine() {
				continue
			}
			c.Case("file of more than %d bytes, header %d", size, hdr)
			c.State(c.CurCase())
			var b bytes.Buffer
			if hdr == 1 {
				b.WriteString("one,two,three\n")
			}
			for i := 0; b.Len() < size || i < 3; i++ {
				fmt.Fprintf(&b, "%d.%d,v%d,%d\n", i, i%1000, i%7, i*3)
			}
			data := b.Bytes()
			path := filepath.Join(c.Scratch, fmt.Sprintf("c12p%d-%d.csv", size, hdr))
			failErr(c, short(try(func() error {
				if err := ioutil.WriteFile(path, data, 0600); err != nil {
					return err
				}
				defer os.Remove(path)
				for ask := 0; ask < 2; ask++ {
					h := hdr == 1 != (ask == 1 && size < 100000)
					rd := func() *bytes.Reader { return bytes.NewReader(data) }
					n1, e1 := base.ParseCSVGetRows(path)
					n2, e2 := base.ParseCSVGetRowsFromReader(rd())
					if n1 != n2 || (e1 == nil) != (e2 == nil) || n1 != bytes.Count(data, []byte("\n")) {
						return fmt.Errorf("rows: %d (%v) from the file, %d (%v) from its bytes", n1, e1, n2, e2)
					}
					n1, e1 = base.ParseCSVEstimateFilePrecision(path)
					n2, e2 = base.ParseCSVEstimateFilePrecisionFromReader(rd())
					if n1 != n2 || (e1 == nil) != (e2 == nil) {
						return fmt.Errorf("precision: %d (%v) from the file, %d (%v) from its bytes", n1, e1, n2, e2)
					}
					s1 := base.ParseCSVSniffAttributeNames(path, h)
					s2 := base.ParseCSVSniffAttributeNamesFromReader(rd(), h)
					if !same(s1, s2) {
						return fmt.Errorf("names: %q from the file, %q from its bytes", s1, s2)
					}
					keys := func(as []base.Attribute) (r []string) {
						for _, a := range as {
							r = append(r, attrKey(a))
						}
						return
					}
					for w, p := range [][2][]base.Attribute{{base.ParseCSVGetAttributes(path, h), base.ParseCSVGetAttributesFromReader(rd(), h)}, {base.ParseCSVSniffAttributeTypes(path, h), base.ParseCSVSniffAttributeTypesFromReader(rd(), h)}} {
						if !same(keys(p[0]), keys(p[1])) {
							return fmt.Errorf("attributes (%d): %q from the file, %q from its bytes", w, keys(p[0]), keys(p[1]))
						}
					}
					d1, e1 := base.ParseCSVToInstances(path, h)
					d2, e2 := base.ParseCSVToInstancesFromReader(rd(), h)
					if err := sameGrids("plain", d1, e1, d2, e2); err != nil {
						return err
					}
					if e2 == nil {
						tp := base.NewStructuralCopy(d2)
						d3, e3 := base.ParseCSVToTemplatedInstances(path, h, tp)
						tp2 := base.NewStructuralCopy(d2)
						d4, e4 := base.ParseCSVToTemplatedInstancesFromReader(rd(), h, tp2)
						if err := sameGrids("with a template", d3, e3, d4, e4); err != nil {
							return err
						}
						if err := sameGrids("with a template against plain", d3, e3, d2, e2); err != nil {
							return err
						}
					}
					nm := s2
					ag, cg := map[string]string{nm[0]: "G"}, map[string]string{nm[1]: "H"}
					ov := map[int]base.Attribute{2: AD{'C', nm[2], nil}.make()}
					d5, e5 := base.ParseCSVToInstancesWithAttributeGroups(path, ag, cg, ov, h)
					ov = map[int]base.Attribute{2: AD{'C', nm[2], nil}.make()}
					d6, e6 := base.ParseCSVToInstancesWithAttributeGroupsFromReader(rd(), ag, cg, ov, h)
					if err := sameGrids("with groups", d5, e5, d6, e6); err != nil {
						return err
					}
					if e2 == nil {
						_, rows := d2.Size()
						if want := bytes.Count(data, []byte("\n")); h && rows != want-1 || !h && rows != want {
							return fmt.Errorf("%d rows of %d lines, header %v", rows, want, h)
						}
						c.Trans(3 * rows)
					}
				}
				c.Trace()
				return nil
			})))
		}
	}
}

// sameGrids: the same outcome, the same columns in the same order, the same cells.
func sameGrids(what string, a *base.DenseInstances, ae error, b *base.DenseInstances, be error) error {
	if (ae == nil) != (be == nil) {
		return fmt.Errorf("%s: errors %v and %v", what, ae, be)
	}
	if ae != nil {
		return nil
	}
	x, err := readGrid(a)
	if err != nil {
		return err
	}
	y, err := readGrid(b)
	if err != nil {
		return err
	}
	if x.schema() != y.schema() || x.rows() != y.rows() {
		return fmt.Errorf("%s: %s with %d rows, and %s with %d rows", what, x.schema(), x.rows(), y.schema(), y.rows())
	}
	for i := range x.V {
		if p, q := x.row(i), y.row(i); p != q {
			return fmt.Errorf("%s: row %d is %s and %s", what, i, p, q)
		}
	}
	return nil
}
