package props

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"verif/mc/eng"
)

func init() {
	eng.Register(&eng.Prop{ID: "C16", Run: runC16,
		Rule:   "saved grids of every attribute kind and files of every kind of savable classifier: every cut, every byte with every bit flipped (thorough: set to every value), every entry missing or cut anywhere; every file operation of a save or load (open, read, write with nothing, half or all but one byte written, seek, sync, close) failing once or from then on, then the same again without failures; writers and readers failing at every byte; liblinear's own files cut anywhere and with every size limit. Either an error is reported or what was saved comes back; failures of writes, syncs and closes of the saved file are reported",
		Assume: []string{"bytes of the compressed file's header that carry no data (time, system) may change unnoticed", "liblinear's own files have no checksum: only cuts of them are covered", "text formats (CSV, ARFF) can't tell a cut file: only failing storage is covered"}})
}

var errFault = errors.New("injected fault")

// fileFault makes the n-th file operation fail (all from there on if sticky).
type fileFault struct {
	at, cut int // cut: bytes of a failing write that go through: 0 none, 1 half, 2 all but one
	sticky  bool
	n       int
	ops     []string // what was done ("op name")
	hit     string
}

func (f *fileFault) hook(op, name string, n int) (int, error) {
	f.ops = append(f.ops, op+" "+name)
	k := f.n
	f.n++
	if f.at < 0 || k < f.at || k > f.at && !f.sticky {
		return 0, nil
	}
	if f.hit == "" {
		f.hit = op + " " + name
	}
	w := 0
	if k == f.at && op == "write" {
		w = []int{0, n / 2, n - 1}[f.cut]
		if w < 0 {
			w = 0
		}
	}
	return w, errFault
}

// during runs g while file operations ask f. A panic is an error, too.
func (f *fileFault) during(g func() error) (err error, p *eng.Panic) {
	f.n, f.ops, f.hit = 0, nil, ""
	os.VerifFile = f.hook
	p = eng.Try(func() { err = g() })
	os.VerifFile = nil
	return err, p
}

// errStopWrite is a writer which fails after k bytes.
type limitWriter struct {
	k      int
	whole  bool // reject the write that exceeds the limit instead of writing a part
	sticky bool
	failed bool
	got    []byte
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.failed && w.sticky {
		return 0, errFault
	}
	if !w.failed && len(w.got)+len(p) > w.k {
		w.failed = true
		n := w.k - len(w.got)
		if w.whole {
			n = 0
		}
		w.got = append(w.got, p[:n]...)
		return n, errFault
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// faultReader fails in the at-th read.
type faultReader struct {
	chunkReader
	at, n  int
	sticky bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	k := r.n
	r.n++
	if k == r.at || r.sticky && k > r.at {
		return 0, errFault
	}
	return r.chunkReader.Read(p)
}

// entries of a compressed archive
type entry struct {
	name string
	body []byte
}

func unpackTar(b []byte) ([]entry, error) {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	r := tar.NewReader(z)
	out := []entry{}
	for {
		h, err := r.Next()
		if err == io.EOF {
			return out, nil
		} else if err != nil {
			return nil, err
		}
		body, err := ioutil.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out = append(out, entry{h.Name, body})
	}
}

func packTar(es []entry) []byte {
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, gzip.NoCompression)
	w := tar.NewWriter(z)
	for _, e := range es {
		w.WriteHeader(&tar.Header{Name: e.name, Size: int64(len(e.body))})
		w.Write(e.body)
	}
	w.Close()
	z.Close()
	return b.Bytes()
}

// damages calls f for every damaged version of the file.
func damages(c *eng.Ctx, b []byte, every bool, f func(what string, d []byte) bool) {
	for k := 0; k < len(b); k++ {
		if !f(fmt.Sprintf("cut to %d of %d bytes", k, len(b)), b[:k]) {
			return
		}
	}
	d := append([]byte{}, b...)
	for i := range b {
		vals := []byte{}
		if every {
			for v := 1; v < 256; v++ {
				vals = append(vals, b[i]^byte(v))
			}
		} else {
			for bit := 0; bit < 8; bit++ {
				vals = append(vals, b[i]^(1<<uint(bit)))
			}
		}
		for _, v := range vals {
			d[i] = v
			if !f(fmt.Sprintf("byte %d of %d is %#x instead of %#x", i, len(b), v, b[i]), d) {
				return
			}
		}
		d[i] = b[i]
	}
}

// entryDamages calls f for every version with one entry missing or cut.
func entryDamages(c *eng.Ctx, b []byte, f func(what string, d []byte) bool) error {
	es, err := unpackTar(b)
	if err != nil {
		return fmt.Errorf("what was saved is no archive: %v", err)
	}
	for i, e := range es {
		rest := append(append([]entry{}, es[:i]...), es[i+1:]...)
		if !f("without "+e.name, packTar(rest)) {
			return nil
		}
		if !f("ends before "+e.name, packTar(es[:i])) {
			return nil
		}
		step := 1
		if m := c.Pick(100, 1000); len(e.body) > m {
			step = len(e.body)/m + 1
		}
		for k := 0; k < len(e.body); k += step {
			cut := append([]entry{}, es...)
			cut[i] = entry{e.name, e.body[:k]}
			if !f(fmt.Sprintf("%s cut to %d of %d bytes", e.name, k, len(e.body)), packTar(cut)) {
				return nil
			}
		}
	}
	return nil
}

// faultTables are the grids saved.
func faultTables() []*Tab {
	C := AD{'C', "k", []string{"u", "v", "w w"}}
	long := mkTab([]AD{{'F', "x", nil}, C}, 1, nil)
	for i := 0; i < 40; i++ {
		long.V = append(long.V, []string{fb(float64(i) * 1.37), ub(uint64(i % 3))})
	}
	return []*Tab{
		mkTab([]AD{{'F', "x", nil}}, -1, [][]string{{fb(1.5)}}),
		mkTab([]AD{{'F', "x", nil}, C, {'B', "b", nil}}, 1, [][]string{{fb(1.5), ub(1), "\x01"}, {fb(-2), ub(2), "\x00"}}),
		mkTab([]AD{C, {'F', "x", nil}}, 0, nil),
		mkTab([]AD{{'B', "b", nil}, {'B', "c", nil}}, 1, [][]string{{"\x01", "\x00"}, {"\x00", "\x01"}, {"\x01", "\x01"}}),
		long,
	}
}

// texts are tables with columns that text formats can hold.
func textTable() *Tab {
	return mkTab([]AD{{'F', "x", nil}, {'F', "y", nil}, {'C', "k", []string{"u", "v"}}}, 2, [][]string{{fb(1.5), fb(2), ub(0)}, {fb(-2), fb(0), ub(1)}, {fb(3), fb(1), ub(1)}})
}

func runC16(c *eng.Ctx) {
	dir := filepath.Join(c.Scratch, "c16")
	tmp := filepath.Join(dir, "tmp")
	os.MkdirAll(tmp, 0700)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", tmp)
	damagedGrids(c)
	damagedModels(c, dir)
	streams(c)
	gridFiles(c, dir)
	modelFiles(c, dir)
	nativeFiles(c, dir)
	c.Sample("2 rows x 3 columns, saved, byte 10 flipped")
	c.Sample("bagged trees, the third sync during save fails")
}

func damagedGrids(c *eng.Ctx) {
	for ti, t := range faultTables() {
		var buf bytes.Buffer
		if err := base.SerializeInstances(buildDense(t, 0), &buf); err != nil {
			c.Case("table %d", ti)
			c.Fail("saving", "%v", err)
			continue
		}
		load := func(what string, d []byte) bool {
			if !c.MineKey("grid", ti, what) {
				return true
			}
			c.Case("grid %d %s", ti, what)
			c.State(fmt.Sprint("grid", ti, what))
			c.Trans(1)
			return !failErr(c, try(func() error {
				g, err := base.DeserializeInstances(bytes.NewReader(d))
				if err != nil {
					c.Outcome("error")
					return nil
				}
				c.Outcome("restored")
				return sameRestored(g, t, false)
			}))
		}
		c.Case("grid %d", ti)
		c.Trace()
		load("undamaged", buf.Bytes())
		every := c.Thorough() || ti == 0
		damages(c, buf.Bytes(), every, load)
		failErr(c, entryDamages(c, buf.Bytes(), load))
	}
}

// faultModel trains one model of every kind.
func faultModel(s savable) (model, *Tab) {
	rows := fleetRows(s.data)
	rand.Seed(1)
	m := s.make()
	s.fit(m, buildDense(fleetTab(s.data, rows[:4]), 0))
	return m, fleetQuery(s.data)
}

func damagedModels(c *eng.Ctx, dir string) {
	path := filepath.Join(dir, "damaged.cls")
	for si, s := range savables() {
		c.Case("%s", s.name)
		m, q := faultModel(s)
		want, err := predTab(m, q)
		if err == nil {
			err = m.Save(path)
		}
		b, e2 := ioutil.ReadFile(path)
		if err != nil || e2 != nil {
			c.Fail("saving", "%v %v", err, e2)
			continue
		}
		k := 0
		load := func(what string, d []byte) bool {
			if !c.MineKey(s.name, what) || c.Expired() {
				return true
			}
			c.Case("%s: %s", s.name, what)
			c.State(s.name + what)
			c.Trans(1)
			return !failErr(c, try(func() error {
				if err := ioutil.WriteFile(path, d, 0600); err != nil {
					panic(err)
				}
				l := s.make()
				if err := l.Load(path); err != nil {
					c.Outcome("error")
					return nil
				}
				c.Outcome("restored")
				got, err := predTab(l, q)
				if err != nil || got != want {
					return fmt.Errorf("loaded without an error, predicts\n%s %v\nwant\n%s", got, err, want)
				}
				return nil
			}))
		}
		load("undamaged", b)
		c.Trace()
		// the same outer format protects them all: bit flips are spread over the kinds
		damages(c, b, false, func(what string, d []byte) bool {
			k++
			if len(d) == len(b) && !c.Thorough() && (k+si)%5 != 0 {
				return true
			}
			return load(what, d)
		})
		failErr(c, entryDamages(c, b, load))
	}
}

// streams writes to writers that fail at every byte and reads from failing readers.
func streams(c *eng.Ctx) {
	type format struct {
		name  string
		write func(g base.FixedDataGrid, w io.Writer) error
	}
	fs := []format{
		{"binary", func(g base.FixedDataGrid, w io.Writer) error { return base.SerializeInstances(g, w) }},
		{"CSV", func(g base.FixedDataGrid, w io.Writer) error { return base.SerializeInstancesToCSVStream(g, w) }},
		{"ARFF", func(g base.FixedDataGrid, w io.Writer) error {
			return base.SerializeInstancesToWriterDenseARFFWithAttributes(w, g, g.AllAttributes(), "r")
		}},
	}
	tabs := append(faultTables(), textTable())
	big := mkTab([]AD{{'F', "x", nil}, {'C', "k", []string{"u", "v"}}}, 1, nil)
	for i := 0; i < 700; i++ { // more than buffers hold
		big.V = append(big.V, []string{fb(float64(i*i*i)*1.375 + 0.1), ub(uint64(i % 2))})
	}
	tabs = append(tabs, big)
	for _, f := range fs {
		for ti, t := range tabs {
			g := buildDense(t, 0)
			var all bytes.Buffer
			if err := f.write(g, &all); err != nil {
				c.Case("%s, table %d", f.name, ti)
				c.Fail("saving", "%v", err)
				continue
			}
			step := 1
			if all.Len() > 4000 {
				step = c.Pick(37, 5)
			}
			for k := 0; k < all.Len(); k += step {
				for mode := 0; mode < 4; mode++ {
					if !c.MineKey(f.name, ti, k, mode) {
						continue
					}
					c.Case("%s, table %d: the writer fails after %d of %d bytes, mode %d", f.name, ti, k, all.Len(), mode)
					c.State(fmt.Sprint(f.name, ti, k, mode))
					c.Trans(1)
					failErr(c, try(func() error {
						if err := f.write(g, &limitWriter{k: k, whole: mode%2 == 1, sticky: mode >= 2}); err == nil {
							return fmt.Errorf("no error reported")
						}
						return nil
					}))
				}
			}
		}
	}
	// reading
	for ti, t := range faultTables() {
		var buf bytes.Buffer
		base.SerializeInstances(buildDense(t, 0), &buf)
		readFaults(c, fmt.Sprintf("grid %d", ti), buf.Bytes(), func(r io.ReadSeeker) error {
			g, err := base.DeserializeInstances(r)
			if err != nil {
				return nil
			}
			return sameRestored(g, t, false)
		})
	}
	t := textTable()
	var buf bytes.Buffer
	base.SerializeInstancesToCSVStream(buildDense(t, 0), &buf)
	for name, parse := range csvParsers() {
		readFaults(c, "CSV "+name, buf.Bytes(), func(r io.ReadSeeker) error {
			g, err := parse(r)
			if err != nil {
				return nil
			}
			return sameText(g, t)
		})
	}
}

func csvParsers() map[string]func(r io.ReadSeeker) (*base.DenseInstances, error) {
	return map[string]func(r io.ReadSeeker) (*base.DenseInstances, error){
		"parsed": func(r io.ReadSeeker) (*base.DenseInstances, error) {
			return base.ParseCSVToInstancesFromReader(r, true)
		},
		"templated": func(r io.ReadSeeker) (*base.DenseInstances, error) {
			return base.ParseCSVToTemplatedInstancesFromReader(r, true, buildDense(textTable(), 0))
		},
		"grouped": func(r io.ReadSeeker) (*base.DenseInstances, error) {
			return base.ParseCSVToInstancesWithAttributeGroupsFromReader(r, map[string]string{"x": "a"}, map[string]string{"k": "b"}, nil, true)
		},
	}
}

// sameText compares the shown values only.
func sameText(g base.FixedDataGrid, t *Tab) error {
	cols, rows := g.Size()
	if rows != t.rows() || cols != len(t.A) {
		return fmt.Errorf("no error, but %dx%d instead of %dx%d", cols, rows, len(t.A), t.rows())
	}
	for j, a := range t.A {
		b := base.GetAttributeByName(g, a.GetName())
		if b == nil {
			return fmt.Errorf("no error, but column %s is missing", a.GetName())
		}
		s, err := g.GetAttribute(b)
		if err != nil {
			return err
		}
		for i := range t.V {
			x, y := b.GetStringFromSysVal(g.Get(s, i)), a.GetStringFromSysVal([]byte(t.V[i][j]))
			if _, ok := a.(*base.FloatAttribute); ok {
				x, y = fmt.Sprint(base.UnpackBytesToFloat(g.Get(s, i))), fmt.Sprint(base.UnpackBytesToFloat([]byte(t.V[i][j])))
			}
			if x != y {
				return fmt.Errorf("no error, but row %d, %s is %q instead of %q", i, a.GetName(), x, y)
			}
		}
	}
	return nil
}

// readFaults makes every read fail in turn.
func readFaults(c *eng.Ctx, what string, b []byte, f func(r io.ReadSeeker) error) {
	for _, size := range []int{1, 7, 64} {
		n := &faultReader{chunkReader: chunkReader{b: b, size: size}, at: -1}
		c.Case("%s: read in pieces of %d", what, size)
		if failErr(c, try(func() error { return f(n) })) {
			return
		}
		total := n.n
		for at := 0; at < total; at++ {
			for _, sticky := range []bool{false, true} {
				if !c.MineKey(what, at, size, sticky) {
					continue
				}
				c.Case("%s: read %d of %d in pieces of %d fails (also afterwards: %v)", what, at, total, size, sticky)
				c.State(fmt.Sprint(what, at, size, sticky))
				c.Trans(1)
				if failErr(c, try(func() error {
					return f(&faultReader{chunkReader: chunkReader{b: b, size: size}, at: at, sticky: sticky})
				})) {
					return
				}
			}
		}
	}
}

// fileFaults runs do with every file operation failing in turn. must tells
// whether do has to report the failure of an operation; after checks the result
// of every run (with the error it returned).
func fileFaults(c *eng.Ctx, what string, reset func(), do func() error, must func(op string) bool, after func(err error) error) {
	none := &fileFault{at: -1}
	reset()
	err, p := none.during(do)
	c.Case("%s", what)
	if p != nil {
		c.Fail("panic", "%v", p)
		return
	}
	if err != nil {
		c.Fail("error", "%v", err)
		return
	}
	if failErr(c, after(nil)) {
		return
	}
	ops := none.ops
	for at := range ops {
		for mode := 0; mode < 6; mode++ {
			if !c.MineKey(what, at, mode) || mode >= 2 && len(ops[at]) > 5 && ops[at][:5] != "write" {
				continue
			}
			f := &fileFault{at: at, sticky: mode%2 == 1, cut: mode / 2}
			c.Case("%s: operation %d of %d (%s) fails, mode %d", what, at, len(ops), filepath.Base(ops[at])+" "+ops[at][:4], mode)
			c.State(fmt.Sprint(what, at, mode))
			c.Trans(1)
			c.Trace()
			if failErr(c, try(func() error {
				reset()
				err, p := f.during(do)
				if p != nil {
					return fmt.Errorf("panics: %v", p)
				}
				if err == nil && must(f.hit) {
					return fmt.Errorf("the failure of %q is not reported", f.hit)
				}
				c.Outcome(fmt.Sprint(err == nil))
				if err := after(err); err != nil {
					return fmt.Errorf("reported %v: %v", err, err)
				}
				// and again, with everything working
				if err := do(); err != nil {
					return fmt.Errorf("afterwards, without failures: %v", err)
				}
				if err := after(nil); err != nil {
					return fmt.Errorf("afterwards, without failures: %v", err)
				}
				return nil
			})) {
				return
			}
		}
	}
}

func opOn(path string) func(string) bool {
	return func(hit string) bool {
		return hit == "write "+path || hit == "sync "+path || hit == "close "+path || hit == "open "+path
	}
}

// gridFiles saves grids to files and reads files with failing operations.
func gridFiles(c *eng.Ctx, dir string) {
	path := filepath.Join(dir, "grid")
	remove := func() { os.Remove(path) }
	for ti, t := range faultTables() {
		g := buildDense(t, ti%3)
		read := func() error {
			b, err := ioutil.ReadFile(path)
			if err != nil {
				return err
			}
			r, err := base.DeserializeInstances(bytes.NewReader(b))
			if err != nil {
				return err
			}
			return sameRestored(r, t, false)
		}
		fileFaults(c, fmt.Sprintf("saving grid %d", ti), remove, func() error { return base.SerializeInstancesToFile(g, path) }, opOn(path), func(err error) error {
			if err != nil {
				return nil
			}
			return read()
		})
		remove()
	}
	t := textTable()
	g := buildDense(t, 0)
	csv := func(path string) (*base.DenseInstances, error) { return base.ParseCSVToInstances(path, true) }
	for _, f := range []struct {
		name string
		save func() error
		load map[string]func(string) (*base.DenseInstances, error)
	}{
		{"CSV", func() error { return base.SerializeInstancesToCSV(g, path) }, map[string]func(string) (*base.DenseInstances, error){
			"parsed":    csv,
			"templated": func(p string) (*base.DenseInstances, error) { return base.ParseCSVToTemplatedInstances(p, true, g) },
			"grouped": func(p string) (*base.DenseInstances, error) {
				return base.ParseCSVToInstancesWithAttributeGroups(p, map[string]string{"x": "a"}, map[string]string{"k": "b"}, nil, true)
			}}},
		{"ARFF", func() error { return base.SerializeInstancesToDenseARFF(g, path, "r") }, map[string]func(string) (*base.DenseInstances, error){"parsed": base.ParseDenseARFFToInstances}},
	} {
		fileFaults(c, "saving as "+f.name, remove, f.save, opOn(path), func(err error) error {
			if err != nil {
				return nil
			}
			for _, l := range f.load {
				r, err := l(path)
				if err != nil {
					return err
				}
				if err := sameText(r, t); err != nil {
					return err
				}
			}
			return nil
		})
		remove()
		if err := f.save(); err != nil {
			c.Fail("saving", "%v", err)
			continue
		}
		for name, l := range f.load {
			var r *base.DenseInstances
			fileFaults(c, f.name+" "+name, func() {}, func() (err error) { r, err = l(path); return err }, func(string) bool { return false }, func(err error) error {
				if err != nil {
					return nil
				}
				return sameText(r, t)
			})
		}
	}
	// places where nothing can be saved or found
	for _, p := range []string{dir, filepath.Join(dir, "none", "x"), filepath.Join(dir, "none")} {
		if !c.MineKey("grid", p) {
			continue
		}
		c.Case("grid files at %q", filepath.Base(p))
		failErr(c, try(func() error {
			if filepath.Base(p) != "none" {
				if base.SerializeInstancesToFile(g, p) == nil || base.SerializeInstancesToCSV(g, p) == nil || base.SerializeInstancesToDenseARFF(g, p, "r") == nil {
					return fmt.Errorf("saving reports no error")
				}
			}
			for _, f := range []func() error{
				func() error { _, err := csv(p); return err },
				func() error { _, err := base.ParseDenseARFFToInstances(p); return err },
				func() error { _, err := base.ParseCSVGetRows(p); return err },
			} {
				if f() == nil {
					return fmt.Errorf("loading reports no error")
				}
			}
			return nil
		}))
	}
}

// modelFiles saves and loads every kind of classifier with failing operations.
func modelFiles(c *eng.Ctx, dir string) {
	path := filepath.Join(dir, "model.cls")
	for _, s := range savables() {
		if c.Expired() {
			return
		}
		c.Case("%s", s.name)
		m, q := faultModel(s)
		want, err := predTab(m, q)
		if err != nil {
			c.Fail("predicting", "%v", err)
			continue
		}
		check := func(l model) error {
			got, err := predTab(l, q)
			if err != nil || got != want {
				return fmt.Errorf("predicts\n%s %v\nwant\n%s", got, err, want)
			}
			return nil
		}
		fileFaults(c, "saving "+s.name, func() { os.Remove(path) }, func() error { return m.Save(path) }, opOn(path), func(err error) error {
			if err != nil {
				return check(m)
			}
			l := s.make()
			if err := l.Load(path); err != nil {
				return fmt.Errorf("saved, but can't be loaded: %v", err)
			}
			return check(l)
		})
		os.Remove(path)
		if err := m.Save(path); err != nil {
			c.Fail("saving", "%v", err)
			continue
		}
		var l model
		fileFaults(c, "loading "+s.name, func() {}, func() error { l = s.make(); return l.Load(path) }, func(string) bool { return false }, func(err error) error {
			if err != nil {
				return nil
			}
			return check(l)
		})
		// no place to save to
		for _, p := range []string{dir, filepath.Join(dir, "none", "x")} {
			if !c.MineKey(s.name, p) {
				continue
			}
			c.Case("%s at %q", s.name, filepath.Base(p))
			failErr(c, try(func() error {
				if m.Save(p) == nil {
					return fmt.Errorf("saving reports no error")
				}
				if s.make().Load(p) == nil {
					return fmt.Errorf("loading reports no error")
				}
				return nil
			}))
		}
		if c.MineKey(s.name, "tmp") && (s.group == "svc" || s.group == "ova" || s.group == "msvc") {
			c.Case("%s without a place for temporary files", s.name)
			failErr(c, try(func() error {
				defer os.Setenv("TMPDIR", os.Getenv("TMPDIR"))
				os.Setenv("TMPDIR", filepath.Join(dir, "none"))
				if m.Save(path+"2") == nil {
					return fmt.Errorf("saving reports no error")
				}
				if s.make().Load(path) == nil {
					return fmt.Errorf("loading reports no error")
				}
				return nil
			}))
		}
		// storage that is full after k bytes, for everything including liblinear
		if s.group != "svc" && s.group != "ova" && s.group != "bag" && !c.Thorough() {
			continue
		}
		os.Remove(path)
		m.Save(path)
		st, err := os.Stat(path)
		if err != nil {
			c.Fail("saving", "%v", err)
			continue
		}
		for k := int64(0); k < st.Size(); k++ {
			if !c.MineKey(s.name, k) || !c.Thorough() && k%11 != 0 {
				continue
			}
			c.Case("saving %s with files of at most %d of %d bytes", s.name, k, st.Size())
			c.State(fmt.Sprint(s.name, "limit", k))
			failErr(c, try(func() error {
				os.Remove(path)
				if err := fileLimit(k, func() error { return m.Save(path) }); err == nil {
					return fmt.Errorf("no error reported")
				}
				return nil
			}))
		}
	}
}

// fileLimit runs f while files can't grow beyond k bytes.
func fileLimit(k int64, f func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(k)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	return f()
}

// nativeFiles are those liblinear writes and reads itself.
func nativeFiles(c *eng.Ctx, dir string) {
	path := filepath.Join(dir, "native")
	for solver, name := range map[int]string{linear_models.L2R_L2LOSS_SVC_DUAL: "two classes", linear_models.MCSVM_CS: "three classes", linear_models.L2R_LR: "three classes, logistic", linear_models.L1R_LR: "bias"} {
		x := [][]float64{{1, 0.25}, {0, 1.125}, {2, 1}, {0.3, 3}, {4, 0}, {3, -1}}
		y := []float64{0, 1, 2, 1, 2, 0}
		if name == "two classes" {
			y = []float64{0, 1, 0, 1, 0, 0}
		}
		bias := -1.0
		if name == "bias" {
			bias = 1
		}
		srand(1)
		m := linear_models.Train(linear_models.NewProblem(x, y, bias), linear_models.NewParameter(solver, 1, 0.01))
		ask := func(m *linear_models.Model) string {
			s := ""
			for i := -3; i <= 3; i++ {
				for j := -3; j <= 3; j++ {
					s += fmt.Sprint(linear_models.Predict(m, []float64{float64(i) * 0.75, float64(j) * 1.25}), " ")
				}
			}
			return s
		}
		want := ask(m)
		c.Case("native file, %s", name)
		if err := linear_models.Export(m, path); err != nil {
			c.Fail("saving", "%v", err)
			continue
		}
		b, err := ioutil.ReadFile(path)
		if err != nil {
			c.Fail("saving", "%v", err)
			continue
		}
		for k := 0; k <= len(b); k++ {
			if !c.MineKey(name, k) {
				continue
			}
			c.Case("native file, %s: cut to %d of %d bytes", name, k, len(b))
			c.State(fmt.Sprint("native", name, k))
			c.Trans(2)
			failErr(c, try(func() error {
				if err := ioutil.WriteFile(path, b[:k], 0600); err != nil {
					panic(err)
				}
				l := &linear_models.Model{}
				if err := linear_models.Load(l, path); err != nil {
					if k == len(b) {
						return err
					}
				} else {
					// nothing but space may be missing
					if len(bytes.TrimSpace(b[k:])) > 0 {
						return fmt.Errorf("loaded without an error")
					}
					if got := ask(l); got != want {
						return fmt.Errorf("predicts %s, want %s", got, want)
					}
				}
				if k == len(b) {
					return nil
				}
				if err := fileLimit(int64(k), func() error { return linear_models.Export(m, path) }); err == nil {
					return fmt.Errorf("saved with %d bytes of space without an error", k)
				}
				return nil
			}))
		}
		if c.MineKey(name, "none") {
			c.Case("native file, %s: no place", name)
			failErr(c, try(func() error {
				if linear_models.Export(m, "/dev/full") == nil || linear_models.Export(m, filepath.Join(dir, "none", "x")) == nil {
					return fmt.Errorf("saving reports no error")
				}
				if linear_models.Load(&linear_models.Model{}, filepath.Join(dir, "none")) == nil {
					return fmt.Errorf("loading reports no error")
				}
				return nil
			}))
		}
	}
}
