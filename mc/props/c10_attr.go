package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C10", Run: runC10,
		Rule:   "categorical attributes: every sequence of up to n operations (convert one of 6 unusual texts, look one up, JSON round trip, compare) in lockstep with a list of texts; numeric attributes: every number text of the alphabet x precision 0..6, binary attributes every number text; every ordered pair of a family of attributes for Equals/Compatible; every list of up to three attributes serialised and matched against a grid; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: sequences that repeat a text",
		Assume: []string{"texts are valid UTF-8", "equality compares category lists in order, because stored indices depend on it"}})
}

func runC10(c *eng.Ctx) {
	texts := []string{"a", "", "A", " a", "\"q\",\n", "é\u2028\x00", "12", "NaN"}
	nt := c.Pick(6, 8)
	// operations: 0..nt-1 convert, nt lookup of an unknown, nt+1 JSON round trip
	depth := c.Pick(6, 7)
	for l := 0; l <= depth; l++ {
		tuples(power(nt+1, l), func(ix []int) {
			if !c.Mine() {
				return
			}
			c.Case("categorical operations %v", ix)
			if !failErr(c, try(func() error { return c10cat(c, texts[:nt], ix) })) {
				c.Trace()
			}
		})
	}
	// numbers
	nums := []string{"0", "-0", "1", "1.5", "-1.25", "0.005", "0.015", "1e300", "-1e-300", "123456789.987654321", "0x1p-2", "1_0", "+3", ".5", "5.", "Inf", "-inf", "NaN", "1e400", "", "abc", "1,5", " 1", "99999999999999999999"}
	for _, s := range nums {
		for _, p := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 15, 17, 20} {
			if !c.Mine() {
				continue
			}
			c.Case("number %q precision %d", s, p)
			f, perr := strconv.ParseFloat(s, 64)
			failErr(c, try(func() error {
				a := base.NewFloatAttribute("x")
				a.Precision = p
				b, err := a.CheckSysValFromString(s)
				if (err != nil) != (perr != nil) {
					return fmt.Errorf("CheckSysValFromString error %v, want %v", err, perr)
				}
				q := eng.Try(func() { b = a.GetSysValFromString(s) })
				if (q != nil) != (perr != nil) {
					return fmt.Errorf("GetSysValFromString panic %v, want failure %v", q, perr)
				}
				if perr != nil {
					return nil
				}
				if string(b) != fb(f) || math.Float64bits(a.GetFloatFromSysVal(b)) != math.Float64bits(f) {
					return fmt.Errorf("stored %x, want %x", b, fb(f))
				}
				t := a.GetStringFromSysVal(b)
				if t != strconv.FormatFloat(f, 'f', p, 64) {
					return fmt.Errorf("printed %q, want %q", t, strconv.FormatFloat(f, 'f', p, 64))
				}
				g := a.GetFloatFromSysVal(a.GetSysValFromString(t))
				if !(g == f || math.IsNaN(f) && math.IsNaN(g) || math.Abs(g-f) <= 0.5000001*math.Pow(10, -float64(p))) {
					return fmt.Errorf("came back as %v", g)
				}
				return c10json(a, p)
			}))
			failErr(c, try(func() error {
				a := base.NewBinaryAttribute("x")
				var b []byte
				q := eng.Try(func() { b = a.GetSysValFromString(s) })
				if (q != nil) != (perr != nil) {
					return fmt.Errorf("binary: panic %v, want failure %v", q, perr)
				}
				if perr != nil {
					return nil
				}
				w := "0"
				if f > 0 {
					w = "1"
				}
				if t := a.GetStringFromSysVal(b); t != w || len(b) != 1 || t != a.GetStringFromSysVal(a.GetSysValFromString(t)) {
					return fmt.Errorf("binary: %x printed %q, want %q", b, t, w)
				}
				return nil
			}))
			c.Trans(4)
			c.Trace()
		}
	}
	// bytes
	for i := 0; i < 64; i++ {
		for _, d := range []uint64{0, 1, 0xff} {
			u := uint64(1)<<uint(i) ^ d
			c.Case("bytes of %x", u)
			if !c.Mine() {
				continue
			}
			b := make([]byte, 8)
			base.PackU64ToBytesInline(u, b)
			if base.UnpackBytesToU64(b) != u || base.UnpackBytesToU64(base.PackU64ToBytes(u)) != u {
				c.Fail(c.CurCase(), "does not come back")
			}
			f := math.Float64frombits(u)
			base.PackFloatToBytesInline(f, b)
			if math.Float64bits(base.UnpackBytesToFloat(b)) != u || math.Float64bits(base.UnpackBytesToFloat(base.PackFloatToBytes(f))) != u {
				c.Fail(c.CurCase(), "number does not come back")
			}
			c.Trace()
		}
	}
	// equality and compatibility, JSON lists
	fam := []func() base.Attribute{}
	for _, n := range []string{"x", "y", "", "X", "x\"\n", "é"} {
		name := n
		fam = append(fam, func() base.Attribute { return AD{'F', name, nil}.make() }, func() base.Attribute { return AD{'B', name, nil}.make() })
		for _, cs := range [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"A"}, {"a "}, {"a", "B"}, {""}} {
			cats := cs
			fam = append(fam, func() base.Attribute { return AD{'C', name, cats}.make() })
		}
	}
	dom := func(a base.Attribute) string {
		if x, ok := a.(*base.CategoricalAttribute); ok {
			return strings.Join(append([]string{fmt.Sprint(len(x.GetValues()))}, x.GetValues()...), "|")
		}
		return ""
	}
	for i := range fam {
		for j := range fam {
			if !c.Mine() {
				continue
			}
			a, b := fam[i](), fam[j]()
			c.Case("%s ? %s", a, b)
			comp := a.GetType() == b.GetType() && dom(a) == dom(b)
			eq := comp && a.GetName() == b.GetName()
			if a.Equals(b) != eq || a.Compatible(b) != comp {
				c.Fail(c.CurCase(), "Equals=%v Compatible=%v, want %v %v", a.Equals(b), a.Compatible(b), eq, comp)
			}
			if b.SetName(a.GetName()); a.Equals(b) != comp {
				c.Fail(c.CurCase(), "Equals after renaming=%v, want %v", a.Equals(b), comp)
			}
			for k := range fam {
				d := fam[k]()
				failErr(c, try(func() error {
					l := []base.Attribute{fam[i](), fam[j](), d}
					js := make([]string, 3)
					for q := range l {
						s, err := base.SerializeAttribute(l[q])
						if err != nil {
							return err
						}
						js[q] = string(s)
						m, err := base.MarshalAttribute(l[q])
						if err != nil || m["name"] != l[q].GetName() {
							return fmt.Errorf("MarshalAttribute %v %v", m, err)
						}
					}
					r, err := base.DeserializeAttributes([]byte("[" + strings.Join(js, ",") + "]"))
					if err != nil || len(r) != 3 {
						return fmt.Errorf("DeserializeAttributes: %d, %v", len(r), err)
					}
					g := base.NewDenseInstances()
					for q := range l {
						if !r[q].Equals(l[q]) || !l[q].Equals(r[q]) {
							return fmt.Errorf("%s came back as %s", l[q], r[q])
						}
						g.AddAttribute(l[q])
					}
					m, err := base.ReplaceDeserializedAttributesWithVersionsFromInstances(r, g)
					if err != nil || len(m) != 3 {
						return fmt.Errorf("Replace...: %v", err)
					}
					for q := range l {
						want := l[q]
						for z := 0; z < q; z++ {
							if l[z].Equals(l[q]) {
								want = l[z]
								break
							}
						}
						if m[q] != want {
							return fmt.Errorf("attribute %d matched %p, want %p", q, m[q], want)
						}
					}
					o := base.NewDenseInstances()
					o.AddAttribute(l[0])
					if _, err := base.ReplaceDeserializedAttributeWithVersionFromInstances(r[1], o); (err == nil) != l[1].Equals(l[0]) {
						return fmt.Errorf("matching %s in a grid of %s: error %v", r[1], l[0], err)
					}
					return nil
				}))
				c.Trans(5)
			}
			c.Trace()
			c.State(c.CurCase())
		}
	}
	c.Sample("categorical: convert a, convert \"\", JSON round trip, convert a, convert A")
	c.Sample("number \"0.005\" precision 2")
	c10large(c)
	c10lists(c)
	c10texts(c)
}

func c10json(a base.Attribute, prec int) error {
	s, err := base.SerializeAttribute(a)
	if err != nil {
		return err
	}
	b, err := base.DeserializeAttribute(s)
	if err != nil {
		return err
	}
	if !b.Equals(a) || !a.Equals(b) {
		return fmt.Errorf("JSON gives %s, want %s", b, a)
	}
	if f, ok := b.(*base.FloatAttribute); ok && f.Precision != prec {
		return fmt.Errorf("JSON gives precision %d, want %d", f.Precision, prec)
	}
	return nil
}

func c10cat(c *eng.Ctx, texts []string, ops []int) error {
	var a base.Attribute = AD{'C', "cat", nil}.make()
	model := []string{}
	for _, o := range ops {
		c.Trans(1)
		switch {
		case o < len(texts):
			b := a.GetSysValFromString(texts[o])
			want := -1
			for i, s := range model {
				if s == texts[o] {
					want = i
				}
			}
			if want < 0 {
				want = len(model)
				model = append(model, texts[o])
			}
			if string(b) != ub(uint64(want)) {
				return fmt.Errorf("%q stored as %x, want index %d", texts[o], b, want)
			}
		default:
			s, err := base.SerializeAttribute(a)
			if err != nil {
				return err
			}
			n, err := base.DeserializeAttribute(s)
			if err != nil {
				return err
			}
			if !n.Equals(a) || !a.Equals(n) {
				return fmt.Errorf("JSON gives %s, want %s", n, a)
			}
			a = n
		}
		ca := a.(*base.CategoricalAttribute)
		if !same(ca.GetValues(), model) {
			return fmt.Errorf("values %q, want %q", ca.GetValues(), model)
		}
		for i, s := range model {
			b := []byte(ub(uint64(i)))
			if ca.GetStringFromSysVal(b) != s || ca.GetUsrVal(b) != s || string(ca.GetSysVal(s)) != string(b) {
				return fmt.Errorf("index %d is %q / %q / %x, want %q", i, ca.GetStringFromSysVal(b), ca.GetUsrVal(b), ca.GetSysVal(s), s)
			}
		}
		if ca.GetSysVal("unknown") != nil {
			return fmt.Errorf("unknown text has a stored form")
		}
		if eng.Try(func() { ca.GetStringFromSysVal([]byte(ub(uint64(len(model))))) }) == nil {
			return fmt.Errorf("an index without category has a text")
		}
		c.State(fmt.Sprintf("%q", model))
	}
	return nil
}
