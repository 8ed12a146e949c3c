package main

import (
	"fmt"
	"mime"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

func init() {
	reg("C22", "roundtrip", "at least two files in nested directories go through both utilities",
		500, 10000, genC22, runC22)
	reg("C22", "several", "an entry stands in place of an older file or of an entry of another package",
		150, 3000, genC22s, runC22s)
	reg("C22", "broken", "a file of the package can not be written completely",
		120, 2400, genC22b, runC22b)
	reg("C23", "hostile", "an entry name leads outside of the destination, or an odd name stays inside",
		700, 14000, genC23, runC23)
	reg("C24", "options", "several sources or options, all files are read back",
		450, 9000, genC24, runC24)
	reg("C24", "failures", "a source file can not be packed",
		250, 5000, genC24f, runC24f)
}

var deepKey = strings.Repeat("deep/", 60) + "f"

func genTree(t *rapid.T, name string, lo, hi int, big bool) (res []TreeFile) {
	var keys []string
	if rapid.Bool().Draw(t, name+"-clustered") {
		keys = genClusteredKeys(t, lo, hi)
	} else {
		keys = genKeys(t, lo, hi)
	}
	if chance(t, name+"-odd", 30) {
		for _, k := range []string{"img/...", "..x", "img/..d/f", "$HOME", "%PATH%/f", "-src", "d/~", "a;b", " lead", "trail ", "bad\xff\xfeutf", ".hid/f", "img/.x/f", ".f", "img/.f", "_under", "Makefile", "core", "a.wpt", "x*y?", "[a]/f", "new\nline", deepKey, strings.Repeat("n", 235)} {
			if chance(t, "oddname", 30) && !slices.Contains(keys, k) {
				keys = append(keys, k)
			}
		}
	}
	for _, k := range keys {
		var f = TreeFile{Key: k, Blob: genBlob(t, big)}
		if chance(t, "magic", 10) {
			f.Text = []byte(pick(t, "head", lMagics).head)
		}
		res = append(res, f)
	}
	return
}

// C22: pack and extract.

type c22Case struct {
	Files []TreeFile
	Empty []string // directories without files
	Links map[string]string
	Split bool
	PM    string
	Args  []string
	MkDst bool
	Slash bool // trailing slashes
	Rel   bool // relative paths
	Dst   string
}

func genC22(t *rapid.T) (c c22Case) {
	c.Files = genTree(t, "tree", 0, 10, true)
	if chance(t, "emptydirs", 25) {
		c.Empty = []string{"empty", "img/void"}
	}
	if len(c.Files) > 0 && chance(t, "link", 15) {
		c.Links = map[string]string{"Link.to": pick(t, "target", c.Files).Key}
	}
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", []string{"bulk", "mmap", "fsys", ""})
	for _, a := range []string{"-mime", "-link", "-log=false"} {
		if chance(t, "arg", 30) {
			c.Args = append(c.Args, a)
		}
	}
	c.MkDst = rapid.Bool().Draw(t, "mkdst")
	c.Slash = rapid.Bool().Draw(t, "slash")
	c.Rel = chance(t, "relative", 30)
	c.Dst = pick(t, "dst", []string{"p.wpk", "p", "p.tar.wpk", "дом.wpk", "p q.wpk", "p.wpt", "v1.2/p", "pk.d/p.x", ".hid/p"})
	return
}

func runC22(c *Ctx, cs c22Case) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	var src, out = filepath.Join(dir, "src"), filepath.Join(dir, "out", "deep")
	var want = writeTree(src, cs.Files)
	for _, d := range cs.Empty {
		must(os.MkdirAll(filepath.Join(src, d), 0o755))
	}
	for _, l := range sortedKeys(cs.Links) {
		must(os.Symlink(filepath.Join(src, cs.Links[l]), filepath.Join(src, l)))
		want[l] = want[filepath.ToSlash(filepath.Clean(cs.Links[l]))]
	}
	var before = treeSnapshot(src, "")
	var name = func(p string) string {
		if cs.Rel {
			r, err := filepath.Rel(dir, p)
			must(err)
			return r
		}
		return p
	}
	var sl = ""
	if cs.Slash {
		sl = "/"
	}
	var dst = filepath.Join(dir, cs.Dst)
	must(os.MkdirAll(filepath.Dir(dst), 0o777))
	var args = append([]string{"-src", name(src) + sl, "-dst", name(dst)}, cs.Args...)
	var pkgfile = dst
	if cs.Split {
		args = append(args, "-split")
		pkgfile = strings.TrimSuffix(dst, path.Ext(cs.Dst)) + ".wpt"
	}
	o, err := runUtilCmd(filepath.Join(binDir, "pack"), dir, false, args...)
	if !succeeded(o, err) {
		return fmt.Errorf("pack %q: %v\n%s", args, err, o)
	}
	args = []string{"-src", name(pkgfile), "-dst", name(out) + sl}
	if cs.PM != "" {
		args = append(args, "-pm", cs.PM)
	}
	if cs.MkDst {
		args = append(args, "-md")
	} else {
		must(os.MkdirAll(out, 0o755))
	}
	o, err = runUtilCmd(filepath.Join(binDir, "extract"), dir, false, args...)
	if !succeeded(o, err) {
		return fmt.Errorf("extract %q: %v\n%s", args, err, o)
	}
	got, _ := readTree(out)
	if err = diffTrees(got, want); err != nil {
		return fmt.Errorf("extracted tree: %w", err)
	}
	if err = diffSnapshots(before, treeSnapshot(src, "")); err != nil {
		return fmt.Errorf("source tree: %w", err)
	}
	var deep int
	for k := range want {
		if strings.Contains(k, "/") {
			deep++
		}
	}
	c.Label("split %v, mode %s", cs.Split, cs.PM)
	c.Count("files", len(want))
	if len(want) >= 2 && deep > 0 {
		c.NonTrivial()
	}
	return nil
}

// a file that can not be written is reported

type c22b struct {
	Files []TreeFile
	Bad   int
	Kind  string // full: no space for the data; dir: there is a directory with this name; file: a file in place of directory
	Split bool
	PM    string
	More  int `json:",omitempty"` // 1: one more package is extracted after this one, 2: before it
}

func genC22b(t *rapid.T) (c c22b) {
	c.Files = genTree(t, "tree", 1, 5, true)
	c.Bad = ri(t, "bad", 0, len(c.Files)-1)
	c.Kind = pick(t, "kind", []string{"full", "full", "dir", "cut", "nopkg", "baddata"})
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	c.More = ri(t, "more", 0, 2)
	if c.Files[c.Bad].Blob.Len == 0 {
		c.Files[c.Bad].Blob = Blob{33, 5}
	}
	return
}

func runC22b(c *Ctx, cs c22b) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	var files []c01File
	for _, f := range cs.Files {
		files = append(files, c01File{Key: f.Key, Blob: f.Blob})
	}
	wpt, wpf := encPkg(files, nil, cs.Split)
	pkgfile, datfile := saveImage(dir, "p", cs.Split, wpt, wpf)
	var out = filepath.Join(dir, "out")
	must(os.MkdirAll(out, 0o777))
	must(os.Chmod(out, 0o777))
	var bad = filepath.Join(out, cs.Files[cs.Bad].Key)
	must(os.MkdirAll(filepath.Dir(bad), 0o777))
	must(filepath.Walk(out, func(p string, fi os.FileInfo, err error) error { return os.Chmod(p, 0o777) }))
	switch cs.Kind {
	case "full":
		must(os.Symlink("/dev/full", bad))
	case "dir":
		must(os.MkdirAll(bad, 0o777))
	case "cut": // the data is shorter than its description
		fi, err := os.Stat(datfile)
		must(err)
		if cs.Split {
			must(os.Truncate(datfile, fi.Size()-1))
		} else {
			must(os.Truncate(datfile, fi.Size()-2))
		}
	case "nopkg":
		must(os.WriteFile(pkgfile, wpt[:40], 0o644))
	case "baddata":
		if !cs.Split {
			return nil
		}
		must(os.Remove(datfile))
	}
	if cs.Kind == "cut" && cs.Split && cs.Files[len(cs.Files)-1].Blob.Len == 0 {
		return nil // whose file loses the byte depends on the tail
	}
	if cs.More > 0 {
		var good, _ = encPkg([]c01File{{Key: "zz-good", Blob: Blob{7, 7}}}, nil, false)
		var goodfile, _ = saveImage(dir, "q", false, good, nil)
		if cs.More == 1 {
			pkgfile += ";" + goodfile
		} else {
			pkgfile = goodfile + ";" + pkgfile
		}
		c.Label("two packages")
	}
	o, err := runNobody("extract", dir, "-src", pkgfile, "-dst", out, "-pm", cs.PM)
	if !reported(o, err) {
		return fmt.Errorf("extract by %s (%s of %q) does not report the failure: %v\n%s", cs.PM, cs.Kind, cs.Files[cs.Bad].Key, err, o)
	}
	c.Label("%s", cs.Kind)
	c.NonTrivial()
	return nil
}

// C23: hostile names.

type c23Case struct {
	Pkgs  [][]c01File
	Split bool
	PM    string
	FT    bool
	MkDst bool
}

const c23Depth = 5 // directories between the scratch and the destination

// almostUp are odd names of directories that resemble a reference to the parent directory.
var almostUp = []string{" ..", ".. ", "\t..", "..\t", " .. ", "..\n", "..\r", "%2e%2e", "%2E%2E", "..%2f..", "%252e%252e", "$VQUP", "${VQUP}", "%VQUP%",
	"'..'", "\"..\"", "...", "....", "․․", "．．", "..\u200b", "\ufeff..", ".\x01.", "\x7f..", ". .", "~", "$HOME", "..:", "..;", "*", "&#46;&#46;", ".\u0307."}

func genHostile(t *rapid.T) string {
	switch ri(t, "nameclass", 0, 11) {
	case 0, 1, 2:
		return genKey(t)
	case 10, 11:
		// it is an inner name while nobody trims, decodes or expands it
		var up = pick(t, "almost up", almostUp)
		return strings.Repeat(up+"/", ri(t, "ups", 1, 3)) + pick(t, "leaf", []string{"canary", "evil", "dst2/x", "dst2", "x/y", "canary "})
	case 3:
		return strings.Repeat("../", ri(t, "ups", 1, c23Depth)) + pick(t, "leaf", []string{"canary", "evil", "dst/in", "dst", "dst2/x", "x/y"})
	case 4:
		return pick(t, "dir", dirPool) + strings.Repeat("/..", ri(t, "ups", 1, 3)) + "/" + pick(t, "leaf", []string{"canary", "evil", "dst/in", "q"})
	case 5:
		return pick(t, "prefix", []string{"@ABS@/", "/@ABS@/", "file://@ABS@/"}) + pick(t, "leaf", []string{"canary", "evil", "l0/canary"})
	case 6:
		return strings.ReplaceAll(strings.Repeat("../", ri(t, "ups", 1, 3))+pick(t, "leaf", []string{"canary", "evil"}), "/", pick(t, "sep", []string{"\\", "\\\\", "//", "/./", "\\/"}))
	case 7:
		return pick(t, "odd", []string{"..", ".", "/", "//", "./a", "a/./b", "a//b", "./../canary", "..\\canary", "a/", "/a", "//a/b", ".../x", "..x/y", "a/..", "a/../b", "a/b/../../c", "\x00", "a\x00b", "C:\\x", "~/x", "-", "a/../../dst/z", "dst2", "../dst2", "..dst"})
	case 8:
		return rapid.StringOfN(rapid.RuneFrom([]rune("./\\ab")), 1, 10, -1).Draw(t, "random")
	}
	return genLeaf(t)
}

func genC23(t *rapid.T) (c c23Case) {
	for i, n := 0, pick(t, "packages", []int{1, 1, 1, 2}); i < n; i++ {
		var g = rapid.Custom(func(t *rapid.T) c01File {
			var f = c01File{Key: genHostile(t), Blob: genBlob(t, false)}
			if rapid.Bool().Draw(t, "times") {
				f.Tags = []Tag{{5, make([]byte, 12)}, {6, make([]byte, 12)}}
			}
			return f
		})
		c.Pkgs = append(c.Pkgs, rapid.SliceOfNDistinct(g, 1, 5, func(f c01File) string { return strings.ReplaceAll(f.Key, "\\", "/") }).Draw(t, "files"))
	}
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	c.FT = rapid.Bool().Draw(t, "ft")
	c.MkDst = rapid.Bool().Draw(t, "mkdst")
	return
}

func runC23(c *Ctx, cs c23Case) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	// directories with canary files on each level, all of them can be written by the utility
	var level = dir
	for i := 0; i < c23Depth+1; i++ {
		level = filepath.Join(level, fmt.Sprintf("l%d", i))
		must(os.Mkdir(level, 0o777))
		must(os.Chmod(level, 0o777))
		for _, n := range []string{"canary", "dst2"} {
			must(os.WriteFile(filepath.Join(level, n), []byte("canary"), 0o666))
			must(os.Chmod(filepath.Join(level, n), 0o666))
		}
	}
	must(os.WriteFile(filepath.Join(dir, "canary"), []byte("canary"), 0o666))
	must(os.Chmod(filepath.Join(dir, "canary"), 0o666))
	var dst = filepath.Join(level, "dst")
	if !cs.MkDst {
		must(os.Mkdir(dst, 0o777))
		must(os.Chmod(dst, 0o777))
	}
	var list []string
	var inside = map[string][]string{} // contents that may be in the file
	var hostile, odd, conflict bool
	for i, files := range cs.Pkgs {
		var fs []c01File
		for _, f := range files {
			f.Key = strings.ReplaceAll(f.Key, "@ABS@", strings.TrimPrefix(dir, "/"))
			fs = append(fs, f)
			var name = strings.ReplaceAll(f.Key, "\\", "/")
			var full = path.Join(dst, name)
			switch {
			case strings.Contains(name, "\x00"):
				hostile = true // can not be a file name
			case strings.HasPrefix(full, dst+"/"):
				var rel = full[len(dst)+1:]
				inside[rel] = append(inside[rel], string(f.Blob.Bytes()))
				odd = odd || name != rel
				if strings.HasSuffix(name, "/") || strings.HasSuffix(name, "/.") || strings.HasSuffix(name, "/..") || strings.Contains(name, "..") {
					conflict = true // may be refused
				}
			default:
				hostile = true
			}
		}
		wpt, wpf := encPkg(fs, nil, cs.Split)
		p, _ := saveImage(dir, fmt.Sprintf("p%d", i), cs.Split, wpt, wpf)
		list = append(list, p)
	}
	for a := range inside {
		for b := range inside {
			if strings.HasPrefix(b, a+"/") {
				conflict = true
			}
		}
	}
	var args = []string{"-src", strings.Join(list, ";"), "-dst", dst, "-pm", cs.PM}
	if cs.FT {
		args = append(args, "-ft")
	}
	if cs.MkDst {
		args = append(args, "-md")
	}
	var before = treeSnapshot(dir, dst)
	o, err := runNobody("extract", dir, args...)
	if e := diffSnapshots(before, treeSnapshot(dir, dst)); e != nil {
		return fmt.Errorf("outside of the destination %w\n%s", e, o)
	}
	var ok = succeeded(o, err)
	if !ok && !reported(o, err) {
		return fmt.Errorf("extraction ended without a report: %v\n%s", err, o)
	}
	if !ok && !hostile && !conflict {
		return fmt.Errorf("extraction of inner names has failed: %v\n%s", err, o)
	}
	if ok {
		got, _ := readTree(dst)
		for _, k := range sortedKeys(inside) {
			g, has := got[k]
			if !has {
				return fmt.Errorf("%q is not extracted and no failure is reported\n%s", k, o)
			}
			var same bool
			for _, w := range inside[k] {
				same = same || w == g
			}
			if !same {
				return fmt.Errorf("content of extracted %q is wrong", k)
			}
		}
		for k := range got {
			if inside[k] == nil && !hostile {
				return fmt.Errorf("unexpected file %q", k)
			}
		}
	}
	switch {
	case hostile && ok:
		c.Label("hostile, done")
	case hostile:
		c.Label("hostile, reported")
	case odd:
		c.Label("odd, done %v", ok)
	default:
		c.Label("plain, done %v", ok)
	}
	if hostile || odd {
		c.NonTrivial()
	}
	return nil
}

// C24: options of packing.

type c24Case struct {
	Srcs  [][]TreeFile
	Mime  bool
	Link  bool
	Split bool
	Log   string
	Slash bool
	Empty bool // empty items in the list of sources
	Sniff bool
	PM    string
	Old   bool // there is an older package in place
}

var c24Exts = []string{"", ".txt", ".png", ".JPG", ".html", ".unknown-ext", ".xyzzy", ".tar.gz", ".json", ".", ".Css"}

func genC24(t *rapid.T) (c c24Case) {
	var used = map[string]bool{}
	for i, n := 0, pick(t, "sources", []int{1, 2, 2, 3}); i < n; i++ {
		var files []TreeFile
		for _, f := range genTree(t, "tree", 0, 5, true) {
			if chance(t, "ext", 50) {
				f.Key += pick(t, "extension", c24Exts)
			}
			switch ri(t, "content", 0, 5) {
			case 0:
				f.Text = []byte(pick(t, "sniff", []string{"<html><body>", "plain text\n", "{\"a\": 1}", "<?xml version=\"1.0\"?>", "\xef\xbb\xbfutf", "%!PS-Adobe-", "\x00\x01\x02"}))
			case 1:
				f.Text = []byte(strings.Repeat("t", pick(t, "textlen", []int{510, 511, 512, 513})))
			}
			if used[f.Key] || used[strings.ToLower(f.Key)] {
				continue
			}
			used[f.Key] = true
			files = append(files, f)
		}
		c.Srcs = append(c.Srcs, files)
	}
	// names of one source are not directories of another
	c.Mime = rapid.Bool().Draw(t, "mime")
	c.Link = rapid.Bool().Draw(t, "link")
	c.Split = rapid.Bool().Draw(t, "split")
	c.Log = pick(t, "log", []string{"", "-log=false", "-log"})
	c.Slash = rapid.Bool().Draw(t, "slash")
	c.Empty = chance(t, "emptyitem", 20)
	c.PM = pick(t, "pm", tgrModes)
	c.Old = chance(t, "old", 30)
	return
}

func (cs c24Case) args(dir string) (args, srcs []string, dst string) {
	for i := range cs.Srcs {
		var s = filepath.Join(dir, fmt.Sprintf("src%d", i))
		if cs.Slash {
			s += "/"
		}
		srcs = append(srcs, s)
	}
	var sep = ";"
	if cs.Empty {
		sep = ";;"
	}
	dst = filepath.Join(dir, "p.wpk")
	args = []string{"-src", strings.Join(srcs, sep), "-dst", dst}
	if cs.Mime {
		args = append(args, "-mime")
	}
	if cs.Link {
		args = append(args, "-link")
	}
	if cs.Split {
		args = append(args, "-split")
	}
	if cs.Log != "" {
		args = append(args, cs.Log)
	}
	return
}

func runC24(c *Ctx, cs c24Case) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	type file struct{ data, orig string }
	var want = map[string]file{}
	var size int
	for i, files := range cs.Srcs {
		var s = filepath.Join(dir, fmt.Sprintf("src%d", i))
		for k, v := range writeTree(s, files) {
			want[k] = file{v, s + "/" + k}
			size += len(v)
		}
	}
	args, _, dst := cs.args(dir)
	var pkgfile, datfile = dst, dst
	if cs.Split {
		pkgfile, datfile = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
	}
	if cs.Old {
		for _, f := range []string{pkgfile, datfile} {
			must(os.WriteFile(f, Blob{300000, 7}.Bytes(), 0o644))
		}
	}
	o, err := runUtil("pack", args...)
	if !succeeded(o, err) {
		return fmt.Errorf("pack %q: %v\n%s", args, err, o)
	}
	pkg, err := openDisk(pkgfile, datfile, cs.PM)
	if err != nil {
		return fmt.Errorf("opening of the package: %w", err)
	}
	defer pkg.Close()
	if pkg.IsSplitted() != cs.Split {
		return fmt.Errorf("split state is %v", pkg.IsSplitted())
	}
	if int(pkg.DataSize()) != size {
		return fmt.Errorf("data size is %d, want %d", pkg.DataSize(), size)
	}
	var seen = map[string]bool{}
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		w, ok := want[fkey]
		if !ok {
			err = fmt.Errorf("unexpected file %q", fkey)
			return false
		}
		seen[fkey] = true
		link, haslink := ts.TagStr(wpk.TIDlink)
		if haslink != cs.Link || cs.Link && link != w.orig {
			err = fmt.Errorf("link of %q is %q, %v, want %q", fkey, link, haslink, w.orig)
			return false
		}
		mtype, hasmime := ts.TagStr(wpk.TIDmime)
		var wm = mime.TypeByExtension(path.Ext(fkey))
		if wm == "" {
			wm = http.DetectContentType([]byte(w.data[:min(512, len(w.data))]))
		}
		if hasmime != cs.Mime || cs.Mime && mtype != wm {
			err = fmt.Errorf("content type of %q is %q, %v, want %q", fkey, mtype, hasmime, wm)
			return false
		}
		return true
	})
	if err != nil {
		return err
	}
	for _, k := range sortedKeys(want) {
		if !seen[k] {
			return fmt.Errorf("file %q is absent, success was announced", k)
		}
		b, err := pkg.ReadFile(k)
		if err != nil {
			return err
		}
		if d := diffBytes(b, []byte(want[k].data)); d != "" {
			return fmt.Errorf("content of %q: %s", k, d)
		}
		fi, err := os.Stat(want[k].orig)
		must(err)
		ts, _ := pkg.GetTagset(k)
		if t, ok := ts.TagTime(wpk.TIDmtime); !ok || !t.Equal(fi.ModTime()) {
			return fmt.Errorf("modification time of %q is %v, %v, want %v", k, t, ok, fi.ModTime())
		}
	}
	c.Label("sources %d, mime %v, link %v, split %v", len(cs.Srcs), cs.Mime, cs.Link, cs.Split)
	if len(want) > 0 && (len(cs.Srcs) > 1 || cs.Mime || cs.Link) {
		c.NonTrivial()
	}
	return nil
}

type c24f struct {
	C24   c24Case
	Kind  string
	Which int
}

func genC24f(t *rapid.T) (c c24f) {
	c.C24 = genC24(t)
	c.C24.Old = false
	c.Kind = pick(t, "kind", []string{"duplicate", "duplicate", "dangling", "loop", "dirlink", "noaccess", "noaccessdir", "full", "nosrc", "nodst"})
	c.Which = ri(t, "which", 0, 20)
	return
}

func runC24f(c *Ctx, cs c24f) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	var keys []TreeFile
	for i, files := range cs.C24.Srcs {
		writeTree(filepath.Join(dir, fmt.Sprintf("src%d", i)), files)
		keys = append(keys, files...)
	}
	var last = filepath.Join(dir, fmt.Sprintf("src%d", len(cs.C24.Srcs)-1))
	args, _, dst := cs.C24.args(dir)
	switch cs.Kind {
	case "duplicate":
		if len(keys) == 0 {
			return nil
		}
		var k = keys[cs.Which%len(keys)]
		args[1] += ";" + filepath.Join(dir, "again")
		writeTree(filepath.Join(dir, "again"), []TreeFile{{Key: k.Key, Blob: Blob{5, 77}}, {Key: "other", Blob: Blob{5, 78}}})
	case "dangling":
		must(os.Symlink(filepath.Join(dir, "nothing"), filepath.Join(last, "L.dangling")))
	case "loop":
		must(os.Symlink("L.loop", filepath.Join(last, "L.loop")))
	case "dirlink":
		must(os.Symlink(dir, filepath.Join(last, "L.dir")))
	case "noaccess":
		must(os.WriteFile(filepath.Join(last, "L.locked"), []byte("secret"), 0o600))
	case "noaccessdir":
		must(os.Mkdir(filepath.Join(last, "L.lockeddir"), 0o700))
		must(os.WriteFile(filepath.Join(last, "L.lockeddir", "f"), []byte("secret"), 0o600))
	case "full":
		if cs.C24.Split {
			if len(keys) == 0 {
				return nil
			}
			var size int
			for _, k := range keys {
				size += k.Blob.Len + len(k.Text)
			}
			if size == 0 {
				return nil
			}
			must(os.Symlink("/dev/full", filepath.Join(dir, "p.wpf")))
		} else {
			must(os.Symlink("/dev/full", dst))
		}
	case "nosrc":
		args[1] += ";" + filepath.Join(dir, "absent")
	case "nodst":
		args[3] = filepath.Join(dir, "absent", "p.wpk")
	}
	o, err := runNobody("pack", dir, args...)
	if !reported(o, err) {
		return fmt.Errorf("failure (%s) is not reported: %v\n%s", cs.Kind, err, o)
	}
	c.Label("%s", cs.Kind)
	c.NonTrivial()
	return nil
}

// several packages given by a list, extracted over older content

type c22s struct {
	Pkgs  [][]TreeFile
	Split []bool
	Old   []TreeFile // what is in the destination before
	PM    string
	FT    bool
	Empty bool
}

func genC22s(t *rapid.T) (c c22s) {
	var all []TreeFile
	for i, n := 0, ri(t, "packages", 2, 3); i < n; i++ {
		var files = genTree(t, "tree", 0, 5, true)
		var used = map[string]bool{}
		for _, f := range files {
			used[f.Key] = true
		}
		for _, f := range all { // the same name again, with other content
			if !used[f.Key] && chance(t, "again", 30) {
				used[f.Key] = true
				files = append(files, TreeFile{Key: f.Key, Blob: genBlob(t, true)})
			}
		}
		all = append(all, files...)
		c.Pkgs = append(c.Pkgs, files)
		c.Split = append(c.Split, rapid.Bool().Draw(t, "split"))
	}
	for _, f := range all {
		if chance(t, "old", 30) {
			c.Old = append(c.Old, TreeFile{Key: f.Key, Blob: genBlob(t, true)})
		}
	}
	if chance(t, "unrelated", 50) {
		c.Old = append(c.Old, TreeFile{Key: "Unrelated.old", Blob: Blob{40, 9}})
	}
	c.PM = pick(t, "pm", tgrModes)
	c.FT = rapid.Bool().Draw(t, "ft")
	c.Empty = chance(t, "emptyitem", 20)
	return
}

func runC22s(c *Ctx, cs c22s) error {
	var dir = c.Dir()
	var out = filepath.Join(dir, "out")
	var all []TreeFile
	var conflict = map[string]bool{}
	for _, files := range cs.Pkgs {
		all = append(all, files...)
	}
	for _, f := range all { // a file of one package is a directory of another
		for d := path.Dir(f.Key); d != "." && d != "/"; d = path.Dir(d) {
			conflict[d] = true
		}
	}
	for _, f := range all {
		if conflict[f.Key] {
			return nil
		}
	}
	var want = writeTree(out, cs.Old)
	var list []string
	var twice int
	for i, files := range cs.Pkgs {
		var src = filepath.Join(dir, fmt.Sprintf("src%d", i))
		for k, v := range writeTree(src, files) {
			if _, ok := want[k]; ok {
				twice++
			}
			want[k] = v
		}
		var dst = filepath.Join(dir, fmt.Sprintf("p%d.wpk", i))
		var args = []string{"-src", src, "-dst", dst}
		if cs.Split[i] {
			args = append(args, "-split")
			dst = filepath.Join(dir, fmt.Sprintf("p%d.wpt", i))
		}
		o, err := runUtil("pack", args...)
		if !succeeded(o, err) {
			return fmt.Errorf("pack %q: %v\n%s", args, err, o)
		}
		list = append(list, dst)
	}
	var sep = ";"
	if cs.Empty {
		sep = ";;"
	}
	var args = []string{"-src", strings.Join(list, sep), "-dst", out, "-pm", cs.PM}
	if cs.FT {
		args = append(args, "-ft")
	}
	o, err := runUtil("extract", args...)
	if !succeeded(o, err) {
		return fmt.Errorf("extract %q: %v\n%s", args, err, o)
	}
	got, _ := readTree(out)
	if err = diffTrees(got, want); err != nil {
		return fmt.Errorf("extracted tree: %w", err)
	}
	c.Label("packages %d, overwritten %v", len(cs.Pkgs), twice > 0)
	if twice > 0 {
		c.NonTrivial()
	}
	return nil
}
