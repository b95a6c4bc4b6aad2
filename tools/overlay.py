#!/usr/bin/env python3
"""overlay.py OUTDIR: writes patched copies of standard-library files and overlay.json.

math/rand/rand.go            top-level draws ask rand.VerifHook first
internal/runtime/maps/*.go      map iteration asks maps.VerifIter where to start; hashes
                                have no random seed (large maps iterate in hash order)
sync/pool.go                    pools can be turned off (they order goroutines by chance)
os/file.go, os/file_posix.go    file operations ask os.VerifFile whether they fail
"""
import json, os, re, subprocess, sys
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
R = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip() + "/src/"
s = open(R + "math/rand/rand.go").read()
s += "\n// VerifHook, when set, decides the draws of the global source.\nvar VerifHook func(kind string, n int64) (int64, float64, bool)\n"
def top(name, params, ret, body):
    """Insert body at the start of the top-level function name."""
    global s
    m = re.search(r"(?m)^func %s\(%s\)%s \{" % (name, re.escape(params), (" " + re.escape(ret)) if ret else ""), s)
    assert m, name
    i = m.end()
    s = s[:i] + "\n\tif VerifHook != nil {\n" + body + "\n\t}\n\t" + s[i:].lstrip()
I = "\t\tif v, _, ok := VerifHook(\"%s\", %s); ok {\n\t\t\treturn %s\n\t\t}"
top("Intn", "n int", "int", I % ("intn", "int64(n)", "int(v)"))
top("Int31n", "n int32", "int32", I % ("intn", "int64(n)", "int32(v)"))
top("Int63n", "n int64", "int64", I % ("intn", "n", "v"))
top("Int63", "", "int64", I % ("int63", "0", "v"))
top("Uint32", "", "uint32", I % ("int63", "0", "uint32(v>>31)"))
top("Uint64", "", "uint64", I % ("int63", "0", "uint64(v)"))
top("Int31", "", "int32", I % ("int63", "0", "int32(v>>32)"))
top("Int", "", "int", I % ("int63", "0", "int(v)"))
F = "\t\tif _, f, ok := VerifHook(\"%s\", 0); ok {\n\t\t\treturn %s\n\t\t}"
top("Float64", "", "float64", F % ("float", "f"))
top("Float32", "", "float32", F % ("float", "float32(f)"))
top("NormFloat64", "", "float64", F % ("norm", "f"))
top("Perm", "n int", "[]int", """		if _, _, ok := VerifHook("perm", 0); ok {
			m := make([]int, n)
			for i := 0; i < n; i++ {
				j := Intn(i + 1)
				m[i] = m[j]
				m[j] = i
			}
			return m
		}""")
top("Shuffle", "n int, swap func(i, j int)", "", """		if _, _, ok := VerifHook("perm", 0); ok {
			for i := n - 1; i > 0; i-- {
				swap(i, Intn(i+1))
			}
			return
		}""")
top("Seed", "seed int64", "", """		if _, _, ok := VerifHook("seed", 0); ok {
			return
		}""")
open(out + "/rand.go", "w").write(s)
t = open(R + "internal/runtime/maps/table.go").read()
a = "it.entryOffset = rand()\n\tit.dirOffset = rand()"
assert a in t
t = t.replace(a, """if VerifIter != nil {
		it.entryOffset = VerifIter(m.used)
		it.dirOffset = 0
	} else {
		it.entryOffset = rand()
		it.dirOffset = rand()
	}""")
t += "\n// VerifIter, when set, decides where an iteration starts.\nvar VerifIter func(used uint64) uint64\n"
mapfiles = {"table.go": t}
for n in ("map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go", "runtime_alg.go"):
    mapfiles[n] = open(R + "internal/runtime/maps/" + n).read()
for n, x in mapfiles.items():
    x = re.sub(r"\bm\.seed(?=[,)])", "uintptr(0)", x)
    if n == "runtime_alg.go":
        assert x.count("bootstrapRand()") == 2
        x = x.replace("bootstrapRand()", "(uint64(i+1) * 0x9e3779b97f4a7c15)")
    open(out + "/map_" + n, "w").write(x)
u = open(R + "sync/pool.go").read()
for f, r in (("Put(x any)", "return"), ("Get() any", "if p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil")):
    a = "func (p *Pool) %s {\n" % f
    assert a in u
    u = u.replace(a, a + "\tif VerifNoPool {\n\t\t%s\n\t}\n" % r)
u += "\n// VerifNoPool, when set, turns pools off.\nvar VerifNoPool bool\n"
open(out + "/pool.go", "w").write(u)
def ins(text, sig, body, after=""):
    """Insert body at the start of the function with this signature (or after a piece of it)."""
    i = text.index("\n" + sig + " {\n") + len(sig) + 4
    if after:
        i = text.index(after, i) + len(after)
    return text[:i] + body + text[i:]
valid = lambda op, r: '\tif err := f.checkValid("%s"); err != nil {\n\t\treturn %serr\n\t}\n' % (op, r)
f = open(R + "os/file.go").read()
ask = '\tif VerifFile != nil {\n\t\tif _, err := VerifFile("%s", f.name, 0); err != nil {\n\t\t\treturn %serr\n\t\t}\n\t}\n'
f = ins(f, "func (f *File) Read(b []byte) (n int, err error)", ask % ("read", "0, "), valid("read", "0, "))
f = ins(f, "func (f *File) ReadAt(b []byte, off int64) (n int, err error)", ask % ("read", "0, "), valid("read", "0, "))
f = ins(f, "func (f *File) Seek(offset int64, whence int) (ret int64, err error)", ask % ("seek", "0, "), valid("seek", "0, "))
for sig, part in (("func (f *File) Write(b []byte) (n int, err error)", "f.write(b[:n])"), ("func (f *File) WriteAt(b []byte, off int64) (n int, err error)", "f.pwrite(b[:n], off)")):
    f = ins(f, sig, '''	if VerifFile != nil {
		if n, err := VerifFile("write", f.name, len(b)); err != nil {
			if n > 0 {
				n, _ = %s
			}
			return n, err
		}
	}
''' % part, valid("write", "0, "))
f = ins(f, "func (f *File) ReadFrom(r io.Reader) (n int64, err error)", "\tif VerifFile != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n", valid("write", "0, "))
f = ins(f, "func (f *File) WriteTo(w io.Writer) (n int64, err error)", "\tif VerifFile != nil {\n\t\treturn genericWriteTo(f, w)\n\t}\n", valid("read", "0, "))
f = ins(f, "func OpenFile(name string, flag int, perm FileMode) (*File, error)", '''	if VerifFile != nil {
		if _, err := VerifFile("open", name, flag); err != nil {
			return nil, err
		}
	}
''')
f += "\n// VerifFile, when set, decides which file operations fail (and how many bytes are written before).\nvar VerifFile func(op, name string, n int) (int, error)\n"
open(out + "/file.go", "w").write(f)
g = open(R + "os/file_posix.go").read()
g = ins(g, "func (f *File) Close() error", '''	if VerifFile != nil && f != nil && f.file != nil {
		if _, err := VerifFile("close", f.name, 0); err != nil {
			f.file.close()
			return err
		}
	}
''')
g = ins(g, "func (f *File) Sync() error", '''	if VerifFile != nil {
		_, err := VerifFile("sync", f.name, 0)
		return err
	}
''', valid("sync", ""))
open(out + "/file_posix.go", "w").write(g)
rep = {R + "os/file.go": out + "/file.go",
       R + "os/file_posix.go": out + "/file_posix.go",
       R + "math/rand/rand.go": out + "/rand.go",
       R + "sync/pool.go": out + "/pool.go",
       **{R + "internal/runtime/maps/" + n: out + "/map_" + n for n in mapfiles}}
json.dump({"Replace": rep}, open(out + "/overlay.json", "w"))
