package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// C33: everything opened is released by closing, and refused calls retain nothing.

func init() {
	reg("C33", "handles",
		"case: 1..3 packages (single or split; sound, truncated, with wrong offsets or tables, with absent or directory data file) are opened by generated access modes and called in a generated order through package, subdirectory and union, handles are closed in a generated order before or after the packages. A call repeated three times must not retain more after the third than after the second; when all is closed, no descriptor or mapping of the files may remain (collecting of garbage is off). Non-trivial: a handle of a file was open and a call was refused.",
		1500, 30000, genC33, runC33)
	reg("C33", "scripts",
		"case: script program of C20 run in this process; after each script only packages left open by it may retain descriptors. Non-trivial: a call is refused and a package is finalised.",
		200, 4000, genC33s, runC33s)
	reg("C33", "many",
		"case: 40..120 files are packed, extracted, or processed by a script (packed, enumerated, reopened) by utilities that may hold only 20..32 descriptors, without collecting of garbage. Non-trivial: more files than descriptors.",
		80, 1600, genC33m, runC33m)
}

// resources are descriptors and mapped bytes for each path below the directory.
type resources map[string][2]int64

func (r resources) String() string {
	var s []string
	for _, k := range sortedKeys(r) {
		s = append(s, fmt.Sprintf("%s: %d descriptors, %d bytes mapped", filepath.Base(k), r[k][0], r[k][1]))
	}
	return strings.Join(s, "; ")
}

func takeResources(dir string) resources {
	var r = resources{}
	list, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, de := range list {
		if p, err := os.Readlink("/proc/self/fd/" + de.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			var x = r[p]
			x[0]++
			r[p] = x
		}
	}
	maps, err := os.ReadFile("/proc/self/maps")
	must(err)
	for _, l := range strings.Split(string(maps), "\n") {
		var i = strings.Index(l, dir+"/")
		if i < 0 {
			continue
		}
		lo, rest, _ := strings.Cut(l, "-")
		hi, _, _ := strings.Cut(rest, " ")
		a, err := strconv.ParseInt(lo, 16, 64)
		must(err)
		b, err := strconv.ParseInt(hi, 16, 64)
		must(err)
		var x = r[l[i:]]
		x[1] += b - a
		r[l[i:]] = x
	}
	return r
}

// exceeds returns what is in r over s.
func (r resources) exceeds(s resources) resources {
	var d = resources{}
	for p, x := range r {
		var y = s[p]
		if x[0] > y[0] || x[1] > y[1] {
			d[p] = [2]int64{max(0, x[0]-y[0]), max(0, x[1]-y[1])}
		}
	}
	return d
}

type c33Pkg struct {
	Files  []c01File
	Split  bool
	Mode   string
	Damage string
	At     int
}

type c33Op struct {
	K string
	P int    // package or union
	H int    // handle
	A string // name
	N int
}

type c33Case struct {
	Pkgs []c33Pkg
	Ops  []c33Op
	Last bool // packages are closed before handles
}

func genC33(t *rapid.T) (c c33Case) {
	var names []string
	for i, n := 0, ri(t, "packages", 1, 3); i < n; i++ {
		var p = c33Pkg{Files: genTreeFiles(t, 1, 7), Split: rapid.Bool().Draw(t, "split"), Mode: pick(t, "mode", tgrModes)}
		if chance(t, "damaged", 45) {
			p.Damage = pick(t, "damage", []string{"offset", "size", "cut", "cut", "cut", "table", "nodata", "dirdata", "empty"})
			p.At = ri(t, "at", 0, 1<<16)
		}
		for _, f := range p.Files {
			names = append(names, f.Key)
			if d := path.Dir(f.Key); d != "." {
				names = append(names, d)
			}
		}
		c.Pkgs = append(c.Pkgs, p)
	}
	names = append(names, ".", "absent", "", "@pack", "@pack/0")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (op c33Op) {
		op.K = pick(t, "op", []string{"open", "open", "open", "open", "readfile", "readfile", "stat", "readdir", "glob", "sub", "read", "read", "fstat", "dirlist", "close", "close", "reopen", "badopen", "info", "walk"})
		op.P = ri(t, "pkg", 0, len(c.Pkgs)) // the last is union
		op.H = ri(t, "handle", 0, 7)
		op.A = pick(t, "name", names)
		op.N = ri(t, "n", 0, 40)
		return
	}), 1, 24).Draw(t, "ops")
	c.Last = rapid.Bool().Draw(t, "handles last")
	return
}

// fsAll is what both packages and unions give.
type fsAll interface {
	fs.FS
	fs.SubFS
	fs.StatFS
	fs.GlobFS
	fs.ReadFileFS
	fs.ReadDirFS
}

func runC33(c *Ctx, cs c33Case) error {
	var dir, err = filepath.EvalSymlinks(c.Dir())
	must(err)
	defer debug.SetGCPercent(debug.SetGCPercent(-1))

	type opened struct {
		pkg     *wpk.Package
		tpath   string
		dpath   string
		tagger  wpk.Tagger
		present bool
	}
	var ops []*opened
	var union = &wpk.Union{}
	for i, p := range cs.Pkgs {
		var files = append([]c01File{}, p.Files...)
		wpt, wpf := encPkg(files, nil, p.Split)
		var o = &opened{}
		switch p.Damage {
		case "offset", "size":
			wpt = damageTag(wpt, p.Split, map[string]uint16{"offset": 1, "size": 2}[p.Damage], p.At)
		case "cut":
			if p.Split {
				wpf = wpf[:p.At%(len(wpf)+1)]
			} else {
				wpt = wpt[:p.At%(len(wpt)+1)]
			}
		case "table":
			wpt = bytes.Clone(wpt)
			wpt[p.At%len(wpt)] ^= byte(1 + p.At>>8)
		}
		o.tpath, o.dpath = saveImage(dir, fmt.Sprintf("p%d", i), p.Split, wpt, wpf)
		switch p.Damage {
		case "nodata":
			o.dpath = filepath.Join(dir, fmt.Sprintf("nodata%d", i))
		case "dirdata":
			o.dpath = filepath.Join(dir, fmt.Sprintf("dir%d", i))
			must(os.Mkdir(o.dpath, 0o755))
		case "empty":
			o.dpath = filepath.Join(dir, fmt.Sprintf("empty%d", i))
			must(os.WriteFile(o.dpath, nil, 0o644))
		}
		ops = append(ops, o)
	}

	var refused, opens, reads int
	// thrice repeats the call, which releases everything itself
	var thrice = func(what string, f func() error) error {
		var err1, err2, err3 = f(), f(), error(nil)
		var r2 = takeResources(dir)
		err3 = f()
		var r3 = takeResources(dir)
		if d := r3.exceeds(r2); len(d) > 0 {
			return fmt.Errorf("%s (result %v) retains %v", what, err3, d)
		}
		if err1 != nil || err2 != nil || err3 != nil {
			refused++
			c.Label("refused %s", strings.Fields(what)[0])
		}
		return nil
	}
	var load = func(i int) (func(), error) {
		var o = ops[i]
		var pkg = wpk.NewPackage()
		if err := pkg.OpenFile(o.tpath); err != nil {
			return nil, err
		}
		tgr, err := makeTagger(cs.Pkgs[i].Mode, o.dpath)
		if err != nil {
			return nil, err
		}
		pkg.Tagger = tgr
		return func() { o.pkg, o.tagger, o.present = pkg, tgr, true }, nil
	}
	for i, o := range ops {
		var set func()
		var err = thrice("opening of package", func() (err error) {
			if set, err = load(i); err != nil {
				return
			}
			set()
			return o.tagger.Close()
		})
		if err != nil {
			return fmt.Errorf("package %d: %w", i, err)
		}
		if o.present {
			if set, err = load(i); err != nil {
				return fmt.Errorf("package %d can not be opened once more: %w", i, err)
			}
			set()
			union.List = append(union.List, o.pkg)
			c.Label("opened %s %s", cs.Pkgs[i].Mode, cs.Pkgs[i].Damage)
		}
	}
	var target = func(i int) fsAll {
		if i >= len(ops) {
			return union
		}
		if !ops[i].present {
			return nil
		}
		return ops[i].pkg
	}
	var handles []fs.File
	for n, op := range cs.Ops {
		var fsys = target(op.P)
		if fsys == nil {
			continue
		}
		var h fs.File
		if len(handles) > 0 {
			h = handles[op.H%len(handles)]
		}
		var err error
		switch op.K {
		case "open":
			err = thrice(fmt.Sprintf("open %q", op.A), func() error {
				f, err := fsys.Open(op.A)
				if err == nil {
					io.Copy(io.Discard, io.LimitReader(f, int64(op.N)))
					f.Close()
				}
				return err
			})
			if err == nil {
				if f, err := fsys.Open(op.A); err == nil {
					handles = append(handles, f)
					if fi, err := f.Stat(); err == nil && !fi.IsDir() {
						opens++
					}
				}
			}
		case "readfile":
			err = thrice(fmt.Sprintf("readfile %q", op.A), func() error {
				_, err := fsys.ReadFile(op.A)
				if err == nil {
					reads++
				}
				return err
			})
		case "stat":
			err = thrice(fmt.Sprintf("stat %q", op.A), func() error { _, err := fsys.Stat(op.A); return err })
		case "readdir":
			err = thrice(fmt.Sprintf("readdir %q", op.A), func() error { _, err := fsys.ReadDir(op.A); return err })
		case "glob":
			err = thrice("glob", func() error { _, err := fsys.Glob("*/*"); return err })
		case "sub":
			err = thrice(fmt.Sprintf("sub %q", op.A), func() error {
				sub, err := fsys.Sub(op.A)
				if err != nil {
					return err
				}
				list, err := fs.Glob(sub, "*")
				for _, k := range list {
					if _, e := fs.ReadFile(sub, k); e != nil {
						err = e
					}
				}
				return err
			})
		case "walk":
			err = thrice("walk", func() error {
				return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
					if err != nil || d.IsDir() {
						return nil
					}
					if f, err := fsys.Open(p); err == nil {
						io.Copy(io.Discard, f)
						f.Close()
					}
					return nil
				})
			})
		case "reopen":
			if op.P < len(ops) {
				err = thrice("reopening of package", func() error { return ops[op.P].pkg.OpenFile(ops[op.P].tpath) })
			}
		case "badopen":
			err = thrice("opening of absent", func() error { return wpk.NewPackage().OpenFile(filepath.Join(dir, "absent")) })
		case "info":
			if op.P < len(ops) {
				err = thrice("information", func() error {
					f, err := os.Open(ops[op.P].tpath)
					must(err)
					defer f.Close()
					_, _, err = wpk.GetPackageInfo(f)
					return err
				})
			}
		case "read":
			if h != nil {
				err = thrice("read", func() error {
					_, err := h.Read(make([]byte, op.N))
					if s, ok := h.(io.Seeker); ok {
						s.Seek(0, io.SeekStart)
					}
					return err
				})
			}
		case "fstat":
			if h != nil {
				err = thrice("fstat", func() error { _, err := h.Stat(); return err })
			}
		case "dirlist":
			if d, ok := h.(fs.ReadDirFile); ok {
				err = thrice("dirlist", func() error { _, err := d.ReadDir(op.N % 4); return err })
			}
		case "close":
			if h != nil {
				var i = op.H % len(handles)
				handles = append(handles[:i:i], handles[i+1:]...)
				h.Close()
			}
		}
		if err != nil {
			return fmt.Errorf("operation %d: %w", n, err)
		}
	}
	var closeHandles = func() {
		for _, h := range handles {
			h.Close()
		}
	}
	if !cs.Last {
		closeHandles()
	}
	// the union closes its members
	union.Close()
	if cs.Last {
		closeHandles()
	}
	if r := takeResources(dir); len(r) > 0 {
		return fmt.Errorf("after closing of everything: %v", r)
	}
	if opens > 0 && refused > 0 {
		c.NonTrivial()
	}
	c.Count("open handles", opens)
	c.Count("refused calls", refused)
	c.Count("whole files", reads)
	return nil
}

// damageTag sets the highest byte of the first tag with given identifier.
func damageTag(wpt []byte, split bool, id uint16, at int) []byte {
	wpt = bytes.Clone(wpt)
	h, ok := parseRawHeader(wpt)
	if !ok {
		return wpt
	}
	var places []int
	var p = int(h.FttOffset)
	for rec := 0; p+2 <= len(wpt); rec++ {
		var n = int(wpt[p]) | int(wpt[p+1])<<8
		var e = min(p+2+n, len(wpt))
		for q := p + 2; q+4 <= e; {
			var tid, l = uint16(wpt[q]) | uint16(wpt[q+1])<<8, int(wpt[q+2]) | int(wpt[q+3])<<8
			if rec > 0 && tid == id && l > 0 && q+4+l <= e {
				places = append(places, q+4+l-1)
			}
			q += 4 + l
		}
		p = e
		if n == 0 && rec > 0 {
			break
		}
	}
	if len(places) > 0 {
		wpt[places[at%len(places)]] = 0x7f
	}
	return wpt
}

func genC33s(t *rapid.T) (p LProg) {
	p = genC20(t)
	p.Run = 0
	p.Dump = false
	return
}

func runC33s(c *Ctx, p LProg) error {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	var left = map[string]bool{}
	w, err := runProgHook(c, p, func(w *lWorld) error {
		dir, err := filepath.EvalSymlinks(w.dir)
		must(err)
		for p := range w.left {
			left[filepath.Join(dir, filepath.Base(p))] = true
		}
		for p, x := range takeResources(dir) {
			if !left[p] {
				return fmt.Errorf("%q has %d descriptors and %d bytes mapped", filepath.Base(p), x[0], x[1])
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if w.stats["errors"] > 0 && len(left) == 0 {
		c.NonTrivial()
	}
	return nil
}

type c33Many struct {
	Files []TreeFile
	Limit int
	What  string
	Split bool
	PM    string
	Mime  bool
	Time  bool
	Srcs  int
}

func genC33m(t *rapid.T) (c c33Many) {
	c.Limit = ri(t, "limit", 20, 32)
	var n = ri(t, "files", 40, 120)
	for i := 0; i < n; i++ {
		var f = TreeFile{Key: fmt.Sprintf("d%d/f%d%s", i%ri(t, "dirs", 1, 9), i, pick(t, "ext", []string{"", ".png", ".txt", ".zz"})), Blob: Blob{ri(t, "len", 0, 400), uint32(i + 1)}}
		c.Files = append(c.Files, f)
	}
	c.What = pick(t, "what", []string{"pack", "extract", "extract", "sources", "packages", "build"})
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	c.Mime = rapid.Bool().Draw(t, "mime")
	c.Time = rapid.Bool().Draw(t, "time")
	c.Srcs = ri(t, "srcs", 33, 60)
	return
}

// runFew runs the utility with limited number of descriptors.
func runFew(limit int, name string, args ...string) (string, error) {
	return runUtilCmd("/bin/sh", "", false, append([]string{"-c",
		fmt.Sprintf("ulimit -n %d; GOGC=off; export GOGC; exec \"$0\" \"$@\"", limit), filepath.Join(binDir, name)}, args...)...)
}

func runC33m(c *Ctx, cs c33Many) error {
	var dir = c.Dir()
	var want = map[string]string{}
	for _, f := range cs.Files {
		want[f.Key] = string(f.Blob.Bytes())
	}
	c.NonTrivial()
	c.Label("%s %s", cs.What, cs.PM)
	var dst = filepath.Join(dir, "p.wpk")
	var p1, p2 = dst, dst
	if cs.Split {
		p1, p2 = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
	}
	var check = func(tool string, o string, err error) error {
		if !succeeded(o, err) {
			return fmt.Errorf("%s of %d files with %d descriptors: %v\n%s", tool, len(cs.Files), cs.Limit, err, tailText(o))
		}
		return nil
	}
	switch cs.What {
	case "pack", "sources":
		var srcs []string
		if cs.What == "pack" {
			writeTree(filepath.Join(dir, "src"), cs.Files)
			srcs = []string{filepath.Join(dir, "src")}
		} else {
			for i, f := range cs.Files {
				var s = filepath.Join(dir, fmt.Sprintf("src%d", i%cs.Srcs))
				writeTree(s, []TreeFile{f})
				if i < cs.Srcs {
					srcs = append(srcs, s)
				}
			}
		}
		var args = []string{"-src", strings.Join(srcs, ";"), "-dst", dst}
		if cs.Split {
			args = append(args, "-split")
		}
		if cs.Mime {
			args = append(args, "-mime")
		}
		o, err := runFew(cs.Limit, "pack", args...)
		if err := check("pack", o, err); err != nil {
			return err
		}
	case "extract", "packages":
		var n = 1
		if cs.What == "packages" {
			n = cs.Srcs
		}
		var srcs []string
		for i := 0; i < n; i++ {
			var files []c01File
			for j := i; j < len(cs.Files); j += n {
				files = append(files, c01File{Key: cs.Files[j].Key, Blob: cs.Files[j].Blob})
			}
			wpt, wpf := encPkg(files, nil, cs.Split)
			p, _ := saveImage(dir, fmt.Sprintf("x%d", i), cs.Split, wpt, wpf)
			srcs = append(srcs, p)
		}
		var args = []string{"-src", strings.Join(srcs, ";"), "-dst", filepath.Join(dir, "out"), "-md", "-pm", cs.PM}
		if cs.Time {
			args = append(args, "-ft")
		}
		o, err := runFew(cs.Limit, "extract", args...)
		if err := check("extract", o, err); err != nil {
			return err
		}
		got, _ := readTree(filepath.Join(dir, "out"))
		return diffTrees(got, want)
	case "build":
		var src = filepath.Join(dir, "src")
		writeTree(src, cs.Files)
		var s strings.Builder
		for i := 0; i < cs.Limit+8; i++ {
			fmt.Fprintf(&s, "assert(#path.enum(%s) > 0)\n", q(src))
			fmt.Fprintf(&s, "assert(checkfile(%s))\n", q(filepath.Join(src, cs.Files[0].Key)))
			fmt.Fprintf(&s, "assert(not pcall(path.enum, %s))\n", q(filepath.Join(src, "absent")))
		}
		fmt.Fprintf(&s, "local p = wpk.new()\np.automime = %v\np.crc32 = true\np.md5 = %v\n", cs.Mime, cs.Time)
		if cs.Split {
			fmt.Fprintf(&s, "p:begin(%s, %s)\n", q(p1), q(p2))
		} else {
			fmt.Fprintf(&s, "p:begin(%s)\n", q(p1))
		}
		for i, f := range cs.Files {
			fmt.Fprintf(&s, "p:putfile(%s, %s)\n", q(f.Key), q(filepath.Join(src, f.Key)))
			if i%3 == 0 {
				fmt.Fprintf(&s, "assert(not pcall(p.putfile, p, 'absent', %s))\n", q(filepath.Join(src, "absent")))
				fmt.Fprintf(&s, "assert(not pcall(p.putfile, p, %s, %s))\n", q(f.Key), q(filepath.Join(src, f.Key)))
			}
		}
		s.WriteString("p:finalize()\n")
		for i := 0; i < cs.Limit+8; i++ {
			var bad = q(filepath.Join(dir, "no", "dir"))
			fmt.Fprintf(&s, "do local b = wpk.new() assert(not pcall(b.begin, b, %s, %s)) end\n", q(filepath.Join(dir, "junk.wpt")), bad)
			fmt.Fprintf(&s, "do local b = wpk.new() assert(not pcall(b.load, b, %s)) end\n", bad)
			fmt.Fprintf(&s, "do local b = wpk.new() b:load(%s, %s) b:append() b:putdata('x%d', 'data') b:finalize() end\n", q(p1), q(map[bool]string{true: p2}[cs.Split]), i)
			want[fmt.Sprintf("x%d", i)] = "data"
		}
		var scr = filepath.Join(dir, "s.lua")
		must(os.WriteFile(scr, []byte(s.String()), 0o644))
		if o, err := runFew(cs.Limit, "build", scr); err != nil || strings.TrimSpace(o) != "" {
			return fmt.Errorf("build of %d files with %d descriptors: %v\n%s", len(cs.Files), cs.Limit, err, tailText(o))
		}
	}
	got, err := packageFiles(p1, p2, cs.PM)
	if err != nil {
		return err
	}
	return diffTrees(got, want)
}

func tailText(s string) string {
	if len(s) > 600 {
		return "…" + s[len(s)-600:]
	}
	return s
}
