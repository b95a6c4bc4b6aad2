package props

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C15", Run: runC15,
		Rule:   "every filling of 0..n rows of schemas over numbers (incl. NaN, infinities, -0, denormal), categories (unusual texts) and bits with every class marking, on every kind of grid and under map rotations: saved and restored; every row count up to a bound and around 4096 and 32768 bytes; saved bytes delivered with every chunk size, with every single (thorough: double) short read, and with EOF together with the last bytes; files fresh, longer and shorter. Non-trivial: at least one row",
		Assume: []string{"attribute names within a grid are distinct"}})
}

// chunkReader delivers data in bounded pieces.
type chunkReader struct {
	b      []byte
	off    int64
	size   int   // most bytes per read (0: no limit)
	stops  []int // positions reads do not cross
	eofNow bool  // report EOF together with the last bytes
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := len(r.b) - int(r.off)
	if n > len(p) {
		n = len(p)
	}
	if r.size > 0 && n > r.size {
		n = r.size
	}
	for _, s := range r.stops {
		if int(r.off) < s && int(r.off)+n > s {
			n = s - int(r.off)
		}
	}
	copy(p, r.b[r.off:int(r.off)+n])
	r.off += int64(n)
	if r.eofNow && r.off == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (r *chunkReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += r.off
	case 2:
		off += int64(len(r.b))
	}
	r.off = off
	return off, nil
}

// sameRestored compares a restored grid with the table and the attributes in full.
func sameRestored(g base.FixedDataGrid, t *Tab, unordered bool) error {
	if unordered {
		got, err := readGrid(g)
		if err != nil {
			return err
		}
		if got.schema() != t.schema() || !same(got.multiset(), t.multiset()) {
			return fmt.Errorf("restored\n%s\nwant (any order)\n%s", got, t)
		}
	} else if err := sameTab(g, t); err != nil {
		return err
	}
	cls := []string{}
	for j, a := range t.A {
		s, err := g.GetAttribute(a)
		if err != nil {
			return err
		}
		x, err := base.SerializeAttribute(a)
		if err != nil {
			return err
		}
		y, err := base.SerializeAttribute(s.GetAttribute())
		if err != nil || !bytes.Equal(x, y) {
			return fmt.Errorf("attribute %s came back as %s (%v)", x, y, err)
		}
		if t.Class[j] {
			cls = append(cls, a.GetName())
		}
	}
	got := []string{}
	for _, a := range g.AllClassAttributes() {
		got = append(got, a.GetName())
	}
	if !same(sorted(got), sorted(cls)) {
		return fmt.Errorf("class attributes %q, want %q", got, cls)
	}
	return nil
}

func runC15(c *eng.Ctx) {
	type col struct {
		d    AD
		prec int
		vals []string
	}
	fl := []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(-1), 5e-324, -1.5, math.MaxFloat64}
	fv := func(k int) (r []string) {
		for _, f := range fl[len(fl)-k:] {
			r = append(r, fb(f))
		}
		return
	}
	C := func(n string, cats ...string) col {
		d := AD{'C', n, cats}
		return col{d, 0, d.vals()}
	}
	B := func(n string) col { return col{AD{'B', n, nil}, 0, []string{"\x00", "\x01"}} }
	F := func(n string, p, k int) col { return col{AD{'F', n, nil}, p, fv(k)} }
	scs := []struct {
		cols []col
		n    int
	}{
		{[]col{F("x", 2, 7)}, 3},
		{[]col{B("b")}, 5},
		{[]col{C("c", "a\x00b", "", "\"}", "é\n")}, 3},
		{[]col{F("x/\"y\"", 0, 3), C("c", "u", "v")}, 2},
		{[]col{B("b"), F("x", 9, 3), C("c", "u", "v")}, c.Pick(1, 2)},
		{[]col{B("b"), B("d"), B("e")}, 2},
		{[]col{C("c", "u", "v"), F("x", 2, 2), B("b"), C("e", "v", "u")}, c.Pick(1, 2)},
		{nil, 0},
	}
	for si, s := range scs {
		m := len(s.cols)
		for n := 0; n <= s.n; n++ {
			radix := []int{}
			for i := 0; i < n; i++ {
				for _, k := range s.cols {
					radix = append(radix, len(k.vals))
				}
			}
			tuples(radix, func(ix []int) {
				for cls := 0; cls < 1<<uint(m); cls++ {
					if !c.Mine() {
						continue
					}
					t := &Tab{}
					for j, k := range s.cols {
						a := k.d.make()
						if f, ok := a.(*base.FloatAttribute); ok {
							f.Precision = k.prec
						}
						t.A = append(t.A, a)
						t.Class = append(t.Class, cls>>uint(j)&1 == 1)
					}
					for i := 0; i < n; i++ {
						r := []string{}
						for j, k := range s.cols {
							r = append(r, k.vals[ix[i*m+j]])
						}
						t.V = append(t.V, r)
					}
					c.State(fmt.Sprint(si, cls) + t.String())
					for k := 0; k < numKinds; k++ {
						g, w, _ := makeKind(k, t)
						if g == nil {
							continue
						}
						for rot := 0; rot < max(1, min(m, 3)); rot++ {
							c.Case("schema=%d class=%b %s rot=%d table=%s", si, cls, kindNames[k], rot, w)
							eng.SetMapRot(rot)
							err := try(func() error {
								var buf bytes.Buffer
								if err := base.SerializeInstances(g, &buf); err != nil {
									return err
								}
								r, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
								if err != nil {
									return err
								}
								if err := sameRestored(r, w, unorderedKind(k)); err != nil {
									return err
								}
								if k > 5 || n == 0 {
									return nil
								}
								if err := sameTab(g, w); err != nil {
									return fmt.Errorf("source changed: %v", err)
								}
								return nil
							})
							eng.SetMapRot(0)
							c.Trans(n + 1)
							if !failErr(c, err) {
								c.Trace()
							}
						}
					}
				}
			})
		}
	}
	if c.Mine() {
		c.Case("not-utf8: category texts \\xe8 and \\xe9, column name \\xff")
		t := mkTab([]AD{{'C', "\xff", []string{"\xe8", "\xe9"}}}, 0, [][]string{{ub(0)}, {ub(1)}})
		if err := try(func() error {
			var buf bytes.Buffer
			if err := base.SerializeInstances(buildDense(t, 0), &buf); err != nil {
				return err
			}
			r, err := base.DeserializeInstances(bytes.NewReader(buf.Bytes()))
			if err != nil {
				return err
			}
			return sameTab(r, t)
		}); err != nil {
			c.Fail("not-utf8", "%v", err)
		}
	}
	// row counts
	counts := []int{}
	for n := 0; n <= c.Pick(140, 700); n++ {
		counts = append(counts, n)
	}
	for _, n := range []int{240, 256, 341, 455, 511, 512, 513, 1023, 1024, 1025, 1364, 1365, 1366, 2048, 4095, 4096, 4097, 5461, 5462, 8191, 8193} {
		counts = append(counts, n)
	}
	for _, defs := range []string{"F", "FCB", "B", "CF"} {
		for _, n := range counts {
			if !c.Mine() {
				continue
			}
			c.Case("rows=%d of %s", n, defs)
			t := c02src(defs, n, len(defs)-1)
			g := buildDense(t, 0)
			if !failErr(c, try(func() error {
				var buf bytes.Buffer
				if err := base.SerializeInstances(g, &buf); err != nil {
					return err
				}
				for _, sz := range []int{0, 1, 511} {
					if sz > 0 && n > 1100 && !c.Thorough() {
						continue
					}
					r, err := base.DeserializeInstances(&chunkReader{b: buf.Bytes(), size: sz})
					if err != nil {
						return fmt.Errorf("chunks of %d: %v", sz, err)
					}
					if err := sameRestored(r, t, false); err != nil {
						return fmt.Errorf("chunks of %d: %v", sz, err)
					}
				}
				return nil
			})) {
				c.Trace()
			}
			c.Trans(n + 1)
			c.State(fmt.Sprint(defs, n))
		}
	}
	// chunkings
	for _, sh := range []struct {
		defs string
		n    int
	}{{"F", 1}, {"FCB", 3}, {"CFB", 100}} {
		t := c02src(sh.defs, sh.n, 0)
		var buf bytes.Buffer
		if err := base.SerializeInstances(buildDense(t, 0), &buf); err != nil {
			c.Fail("chunk-save", "%v", err)
			return
		}
		L := buf.Len()
		one := func(r *chunkReader) {
			r.b = buf.Bytes()
			for e := 0; e < 2; e++ {
				r.off, r.eofNow = 0, e == 1
				c.Case("chunks of %s x%d (%d bytes): size=%d stops=%v eof-with-data=%v", sh.defs, sh.n, L, r.size, r.stops, r.eofNow)
				if !failErr(c, try(func() error {
					g, err := base.DeserializeInstances(r)
					if err != nil {
						return err
					}
					return sameRestored(g, t, false)
				})) {
					c.Trace()
				}
				c.Trans(1)
			}
			c.State(fmt.Sprint(sh.defs, r.size, r.stops))
		}
		for sz := 1; sz <= L; sz++ {
			if c.Mine() {
				one(&chunkReader{size: sz})
			}
		}
		for a := 1; a < L; a++ {
			if c.Mine() {
				one(&chunkReader{stops: []int{a}})
			}
			if c.Thorough() && sh.n < 100 {
				for b := a + 1; b < L; b++ {
					if c.Mine() {
						one(&chunkReader{stops: []int{a, b}})
					}
				}
			}
		}
	}
	// files
	for v := 0; v < 3; v++ {
		for n := 0; n < 4; n++ {
			if !c.Mine() {
				continue
			}
			t := c02src("FCB", n, 1)
			c.Case("file variant %d rows=%d", v, n)
			failErr(c, try(func() error {
				var buf bytes.Buffer
				g := buildDense(t, 0)
				if err := base.SerializeInstances(g, &buf); err != nil {
					return err
				}
				p := filepath.Join(c.Scratch, "c15.gz")
				os.Remove(p)
				switch v {
				case 1:
					os.WriteFile(p, bytes.Repeat([]byte{9}, 9000), 0600)
				case 2:
					os.WriteFile(p, []byte("o"), 0600)
				}
				if err := base.SerializeInstancesToFile(g, p); err != nil {
					return err
				}
				b, _ := os.ReadFile(p)
				f, err := os.Open(p)
				if err != nil {
					return err
				}
				defer f.Close()
				r, err := base.DeserializeInstances(f)
				if err != nil {
					return err
				}
				if len(b) != buf.Len() {
					return fmt.Errorf("file has %d bytes, stream %d", len(b), buf.Len())
				}
				c.Trace()
				return sameRestored(r, t, false)
			}))
		}
	}
	c.Sample("CFB rows=100, short read at byte 17")
	c15large(c)
	c15names(c)
	c15long(c)
}
