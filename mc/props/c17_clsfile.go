package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C17", Run: runC17,
		Rule:   "every sequence of up to n stored values (byte strings around the container's block size, numbers, JSON, attributes, attribute lists, grids with and without rows, nested metadata) under every assignment of keys (prefixes of each other, nested, long, not ASCII), every order of reading them back, with a read of every missing key in between; the same comparison on a family of large inputs (every size of a list around buffer and word sizes x patterns of data x layouts or kinds of grid x parameters). Non-trivial: at least one value",
		Assume: []string{"keys (and the keys they expand to) are distinct and do not end in '/'"}})
}

type c17val struct {
	name  string
	write func(s *base.ClassifierSerializer, k string) error
	read  func(d *base.ClassifierDeserializer, k string) error
}

func c17values(thorough bool) []c17val {
	var r []c17val
	for _, b := range []string{"", "x", "\x00\xff", strings.Repeat("q", 511), strings.Repeat("ab", 256), strings.Repeat("z", 5000)} {
		b := b
		r = append(r, c17val{fmt.Sprintf("bytes[%d]", len(b)),
			func(s *base.ClassifierSerializer, k string) error { return s.WriteBytesForKey(k, []byte(b)) },
			func(d *base.ClassifierDeserializer, k string) error {
				g, err := d.GetBytesForKey(k)
				if err != nil || string(g) != b {
					return fmt.Errorf("bytes %q came back as %q (%v)", b, g, err)
				}
				t, err := d.GetStringForKey(k)
				if err != nil || t != b {
					return fmt.Errorf("string %q came back as %q (%v)", b, t, err)
				}
				return nil
			}})
	}
	for _, u := range []uint64{0, 1 << 63, 258} {
		u := u
		r = append(r, c17val{fmt.Sprintf("u64 %d", u),
			func(s *base.ClassifierSerializer, k string) error { return s.WriteU64ForKey(k, u) },
			func(d *base.ClassifierDeserializer, k string) error {
				g, err := d.GetU64ForKey(k)
				if err != nil || g != u {
					return fmt.Errorf("number %d came back as %d (%v)", u, g, err)
				}
				return nil
			}})
	}
	for _, j := range []string{`null`, `{"a":[1,-2.5,"<x>"],"b":null}`, `"s"`} {
		var v interface{}
		json.Unmarshal([]byte(j), &v)
		r = append(r, c17val{"json " + j,
			func(s *base.ClassifierSerializer, k string) error { return s.WriteJSONForKey(k, v) },
			func(d *base.ClassifierDeserializer, k string) error {
				var g interface{}
				err := d.GetJSONForKey(k, &g)
				if err != nil || !reflect.DeepEqual(g, v) {
					return fmt.Errorf("json %v came back as %v (%v)", v, g, err)
				}
				return nil
			}})
	}
	defs := []AD{{'F', "f", nil}, {'C', "c", []string{"u", "", "<w>"}}, {'B', "b", nil}}
	sameAttr := func(a, b base.Attribute) error {
		x, _ := base.SerializeAttribute(a)
		y, err := base.SerializeAttribute(b)
		if err != nil || !bytes.Equal(x, y) || !a.Equals(b) || !b.Equals(a) {
			return fmt.Errorf("attribute %s came back as %s", x, y)
		}
		return nil
	}
	for _, d := range defs {
		a := d.make()
		r = append(r, c17val{"attribute " + string(d.Kind),
			func(s *base.ClassifierSerializer, k string) error { return s.WriteAttributeForKey(k, a) },
			func(d *base.ClassifierDeserializer, k string) error {
				g, err := d.GetAttributeForKey(k)
				if err != nil {
					return err
				}
				return sameAttr(a, g)
			}})
	}
	for n := 0; n < 4; n += 3 {
		as := []base.Attribute{}
		for i := 0; i < n; i++ {
			as = append(as, defs[(i+1)%3].make())
		}
		r = append(r, c17val{fmt.Sprintf("attributes[%d]", n),
			func(s *base.ClassifierSerializer, k string) error { return s.WriteAttributesForKey(k, as) },
			func(d *base.ClassifierDeserializer, k string) error {
				g, err := d.GetAttributesForKey(k)
				if err != nil {
					return err
				}
				if len(g) != len(as) {
					return fmt.Errorf("%d attributes came back as %d", len(as), len(g))
				}
				for i := range as {
					if err := sameAttr(as[i], g[i]); err != nil {
						return err
					}
				}
				return nil
			}})
	}
	for _, s := range []struct {
		defs string
		rows int
		data bool
	}{{"FCB", 3, true}, {"CF", 2, false}, {"F", 0, true}, {"FB", 70, true}} {
		t := c02src(s.defs, s.rows, 0)
		w := t
		if !s.data {
			w = &Tab{A: t.A, Class: t.Class}
		}
		g := buildDense(t, 0)
		inc := s.data
		r = append(r, c17val{fmt.Sprintf("grid %s rows=%d data=%v", s.defs, s.rows, inc),
			func(s *base.ClassifierSerializer, k string) error { return s.WriteInstancesForKey(k, g, inc) },
			func(d *base.ClassifierDeserializer, k string) error {
				g, err := d.GetInstancesForKey(k)
				if err != nil {
					return err
				}
				return sameRestored(g, w, false)
			}})
	}
	md := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "inner", ClassifierVersion: "2", ClassifierMetadata: map[string]interface{}{"n": 3.0}}
	r = append(r, c17val{"metadata",
		func(s *base.ClassifierSerializer, k string) error { return s.WriteMetadataAtPrefix(k, md) },
		func(d *base.ClassifierDeserializer, k string) error {
			g, err := d.ReadMetadataAtPrefix(k)
			if err != nil || !reflect.DeepEqual(g, md) {
				return fmt.Errorf("metadata %v came back as %v (%v)", md, g, err)
			}
			return nil
		}})
	return r
}

func runC17(c *eng.Ctx) {
	vals := c17values(c.Thorough())
	long := strings.Repeat("k", 120)
	keySets := [][]string{{"a", "ab", "a/b", "b"}, {"x/y/z", "x/y", "x", "x/y/zz"}, {long, long + "l", "é ü", "A"}, {"data", "DATA", "MANIFEST/x", "cls"}}
	metas := []base.ClassifierMetadataV1{
		{FormatVersion: 1, ClassifierName: "T", ClassifierVersion: "1.0", ClassifierMetadata: map[string]interface{}{}},
		{FormatVersion: 1, ClassifierName: "", ClassifierVersion: "", ClassifierMetadata: nil},
		{FormatVersion: 1, ClassifierName: "é\"", ClassifierVersion: "1", ClassifierMetadata: map[string]interface{}{"a": []interface{}{1.5, "x", nil, true}, "b": map[string]interface{}{"c": -1.0}}},
	}
	path := filepath.Join(c.Scratch, "c17.cls")
	defer os.Remove(path)
	type lenRun struct{ n, sets int }
	runs := []lenRun{{0, 4}, {1, 4}, {2, 4}, {3, c.Pick(1, 4)}}
	if c.Thorough() {
		runs = append(runs, lenRun{4, 1})
	}
	for _, lr := range runs {
		step := 1
		if lr.n == 4 { // four values: one of each group
			step = 3
		}
		m := (len(vals) + step - 1) / step
		tuples(power(m, lr.n), func(ix []int) {
			for ks := 0; ks < lr.sets; ks++ {
				if !c.Mine() {
					continue
				}
				md := metas[(ks+len(ix))%3]
				names := []string{}
				for i, v := range ix {
					names = append(names, keySets[ks][i]+"="+vals[v*step].name)
				}
				c.Case("values %.700q metadata=%d", names, (ks+len(ix))%3)
				c.State(fmt.Sprint(names))
				failErr(c, try(func() error {
					s, err := base.CreateSerializedClassifierStub(path, md)
					if err != nil {
						return err
					}
					for i, v := range ix {
						if err := vals[v*step].write(s, keySets[ks][i]); err != nil {
							return fmt.Errorf("storing value %d: %v", i, err)
						}
					}
					if err := s.Close(); err != nil {
						return err
					}
					d, err := base.ReadSerializedClassifierStub(path)
					if err != nil {
						return err
					}
					defer d.Close()
					if !reflect.DeepEqual(*d.Metadata, md) {
						return fmt.Errorf("metadata %v came back as %v", md, *d.Metadata)
					}
					perms(len(ix), func(p []int) {
						if err != nil {
							return
						}
						for _, i := range p {
							if e := vals[ix[i]*step].read(d, keySets[ks][i]); e != nil {
								err = fmt.Errorf("read order %v, value %d: %v", p, i, e)
								return
							}
						}
						c.Trans(len(ix))
						c.Trace()
					})
					if err != nil {
						return err
					}
					for i := len(ix); i <= len(ix)+1; i++ {
						k := "none"
						if i < len(keySets[ks]) {
							k = keySets[ks][i]
						}
						var j interface{}
						_, e1 := d.GetBytesForKey(k)
						_, e2 := d.GetStringForKey(k)
						e3 := d.GetJSONForKey(k, &j)
						_, e4 := d.GetU64ForKey(k)
						_, e5 := d.GetAttributeForKey(k)
						_, e6 := d.GetAttributesForKey(k)
						_, e7 := d.GetInstancesForKey(k)
						_, e8 := d.ReadMetadataAtPrefix(k)
						for n, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8} {
							if e == nil {
								return fmt.Errorf("reading missing key %.40q by getter %d is no error", k, n)
							}
						}
					}
					return nil
				}))
			}
		})
	}
	c.Sample("%s", "bytes[512] under a, attributes[3] under ab, grid under a/b; read in all six orders")
	c17large(c)
	c17attrs(c)
}
