package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// refTree is the directory tree implied by names.
type refTree struct {
	size map[string]int             // files
	dirs map[string]map[string]bool // directory -> children
}

func newRefTree(files []c01File) *refTree {
	var t = &refTree{map[string]int{}, map[string]map[string]bool{}}
	for _, f := range files {
		if _, ok := t.size[f.Key]; ok {
			continue // first wins
		}
		t.size[f.Key] = f.Blob.Len
		var k = f.Key
		for {
			var d, b = path.Split(k)
			d = strings.TrimSuffix(d, "/")
			if d == "" {
				d = "."
			}
			if t.dirs[d] == nil {
				t.dirs[d] = map[string]bool{}
			}
			t.dirs[d][b] = true
			if d == "." {
				break
			}
			k = d
		}
	}
	return t
}

func joinName(dir, name string) string {
	if dir == "." || dir == "" {
		return name
	}
	return dir + "/" + name
}

// checkEntry compares a directory entry.
func (t *refTree) checkEntry(dir string, de fs.DirEntry) error {
	var full = joinName(dir, de.Name())
	size, isfile := t.size[full]
	if de.IsDir() == isfile {
		return fmt.Errorf("entry %q of %q: IsDir is %v", de.Name(), dir, de.IsDir())
	}
	if de.Type().IsDir() == isfile || de.Type()&^fs.ModeType != 0 {
		return fmt.Errorf("entry %q of %q: type is %v", de.Name(), dir, de.Type())
	}
	fi, err := de.Info()
	if err != nil {
		return fmt.Errorf("entry %q of %q: info: %w", de.Name(), dir, err)
	}
	if fi.IsDir() == isfile || fi.Mode().IsDir() == isfile || fi.Name() != de.Name() {
		return fmt.Errorf("entry %q of %q: info gives name %q, mode %v, dir %v", de.Name(), dir, fi.Name(), fi.Mode(), fi.IsDir())
	}
	if isfile && fi.Size() != int64(size) {
		return fmt.Errorf("entry %q of %q: size %d, want %d", de.Name(), dir, fi.Size(), size)
	}
	return nil
}

func (t *refTree) checkList(dir, what string, list []fs.DirEntry) error {
	var got []string
	for _, de := range list {
		got = append(got, de.Name())
	}
	var want = sortedKeys(t.dirs[dir])
	if !slices.Equal(got, want) {
		return fmt.Errorf("%s of %q: got %q, want %q", what, dir, got, want)
	}
	for _, de := range list {
		if err := t.checkEntry(dir, de); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	return nil
}

// checkFS compares the file system with the tree. Steps are portions of incremental listing.
func (t *refTree) checkFS(fsys fs.FS, steps []int, content func(string) []byte) (err error) {
	rd, ok := fsys.(fs.ReadDirFS)
	if !ok {
		return errors.New("ReadDir is not supported")
	}
	for _, dir := range sortedKeys(t.dirs) {
		list, err := rd.ReadDir(dir)
		if err != nil {
			return fmt.Errorf("listing of %q: %w", dir, err)
		}
		if err = t.checkList(dir, "listing", list); err != nil {
			return err
		}
		if list, err = fs.ReadDir(fsys, dir); err != nil {
			return fmt.Errorf("fs.ReadDir of %q: %w", dir, err)
		}
		if err = t.checkList(dir, "fs.ReadDir", list); err != nil {
			return err
		}
		fi, err := fs.Stat(fsys, dir)
		if err != nil {
			return fmt.Errorf("stat of directory %q: %w", dir, err)
		}
		if !fi.IsDir() || !fi.Mode().IsDir() {
			return fmt.Errorf("stat of directory %q: mode %v", dir, fi.Mode())
		}
		if dir != "." && fi.Name() != path.Base(dir) {
			return fmt.Errorf("stat of directory %q: name %q", dir, fi.Name())
		}
		// opened directory
		for pass := 0; pass < 2; pass++ {
			f, err := fsys.Open(dir)
			if err != nil {
				return fmt.Errorf("opening of directory %q: %w", dir, err)
			}
			fi, err := f.Stat()
			if err != nil || !fi.IsDir() || (dir != "." && fi.Name() != path.Base(dir)) {
				return fmt.Errorf("opened directory %q: stat gives %v, %v", dir, fi, err)
			}
			df, ok := f.(fs.ReadDirFile)
			if !ok {
				return fmt.Errorf("opened directory %q can not be listed", dir)
			}
			var list []fs.DirEntry
			if pass == 0 {
				list, err = df.ReadDir(-1)
				if err != nil {
					return fmt.Errorf("opened directory %q: %w", dir, err)
				}
				if l2, err := df.ReadDir(-1); len(l2) != 0 || err != nil {
					return fmt.Errorf("opened directory %q: second full listing gives %d entries, %v", dir, len(l2), err)
				}
				if _, err := df.ReadDir(1); err != io.EOF {
					return fmt.Errorf("opened directory %q: listing after the end gives %v", dir, err)
				}
			} else {
				for i := 0; ; i++ {
					if i > 10000 {
						return fmt.Errorf("opened directory %q: incremental listing is endless", dir)
					}
					var n = 1
					if len(steps) > 0 {
						n = steps[i%len(steps)]
					}
					l, err := df.ReadDir(n)
					if len(l) > n {
						return fmt.Errorf("opened directory %q: %d entries instead of %d", dir, len(l), n)
					}
					list = append(list, l...)
					_ = append(l, bogusEntry{}) // a portion belongs to the caller
					if err == io.EOF {
						if len(l) > 0 {
							return fmt.Errorf("opened directory %q: end is reported with %d entries", dir, len(l))
						}
						break
					}
					if err != nil {
						return fmt.Errorf("opened directory %q: %w", dir, err)
					}
					if len(l) == 0 {
						return fmt.Errorf("opened directory %q: empty portion without the end", dir)
					}
				}
				if _, err := df.ReadDir(1); err != io.EOF {
					return fmt.Errorf("opened directory %q: listing after the end gives %v", dir, err)
				}
			}
			if err = t.checkList(dir, fmt.Sprintf("opened directory listing (pass %d)", pass), list); err != nil {
				return err
			}
			f.Close()
		}
		if b, err := fs.ReadFile(fsys, dir); err == nil {
			return fmt.Errorf("directory %q is read as a file with %d bytes", dir, len(b))
		}
	}
	if _, ok := fsys.(fs.SubFS); ok {
		var n = len(t.dirs) + len(t.size)
		for i, names := range [][]string{sortedKeys(t.dirs), sortedKeys(t.size)} {
			if len(names) == 0 {
				continue
			}
			var k = names[len(t.size)%len(names)] // some of names, some of spellings
			if k == "." {
				continue
			}
			for j, list := 0, oddNames(k); j < 2; j++ {
				if err := checkOdd(fsys, list[(n+i+3*j)%len(list)]); err != nil {
					return err
				}
			}
		}
	}
	for _, k := range sortedKeys(t.size) {
		fi, err := fs.Stat(fsys, k)
		if err != nil || fi.IsDir() || !fi.Mode().IsRegular() || fi.Size() != int64(t.size[k]) || fi.Name() != path.Base(k) {
			return fmt.Errorf("stat of file %q: %v, %v", k, fi, err)
		}
		f, err := fsys.Open(k)
		if err != nil {
			return fmt.Errorf("opening of %q: %w", k, err)
		}
		fi, err = f.Stat()
		if err != nil || fi.IsDir() || fi.Size() != int64(t.size[k]) || fi.Name() != path.Base(k) {
			return fmt.Errorf("opened file %q: stat gives %v, %v", k, fi, err)
		}
		b, err := io.ReadAll(f)
		f.Close()
		if err != nil {
			return fmt.Errorf("reading of %q: %w", k, err)
		}
		var want = content(k)
		if d := diffBytes(b, want); d != "" {
			return fmt.Errorf("opened file %q: %s", k, d)
		}
		b, err = fs.ReadFile(fsys, k)
		if err != nil {
			return fmt.Errorf("fs.ReadFile of %q: %w", k, err)
		}
		if d := diffBytes(b, want); d != "" {
			return fmt.Errorf("fs.ReadFile of %q: %s", k, d)
		}
	}
	// walking
	var seen []string
	err = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return fmt.Errorf("walking at %q: %w", p, err)
		}
		seen = append(seen, p)
		_, isfile := t.size[p]
		_, isdir := t.dirs[p]
		if d.IsDir() != isdir || isfile == isdir {
			return fmt.Errorf("walking: %q is directory: %v", p, d.IsDir())
		}
		return nil
	})
	if err != nil {
		return err
	}
	if len(seen) != len(t.size)+len(t.dirs) {
		return fmt.Errorf("walking visits %q", seen)
	}
	return nil
}

// checkAbsent tests that the name is reported as not existing.
// bogusEntry is an entry which is not in any directory.
type bogusEntry struct{ fs.DirEntry }

func (bogusEntry) Name() string { return "\x00bogus" }

// oddNames gives spellings of existing name which are not valid names
// of file system, so they must be rejected.
func oddNames(name string) []string {
	var list = []string{"./" + name, name + "/", name + "/.", "../" + name, name + "//", name + "/../" + path.Base(name)}
	if i := strings.IndexByte(name, '/'); i >= 0 {
		list = append(list, name[:i]+"/"+name[i:], name[:i]+"/."+name[i:])
	}
	return list
}

func checkOdd(fsys fs.FS, name string) error {
	var rejected = func(err error) bool {
		return errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrInvalid)
	}
	if f, err := fsys.Open(name); !rejected(err) {
		return fmt.Errorf("opening of not valid name %q: %v, %v", name, f, err)
	}
	if fi, err := fs.Stat(fsys, name); !rejected(err) {
		return fmt.Errorf("stat of not valid name %q: %v, %v", name, fi, err)
	}
	if b, err := fs.ReadFile(fsys, name); !rejected(err) {
		return fmt.Errorf("reading of not valid name %q: %x, %v", name, b, err)
	}
	if l, err := fs.ReadDir(fsys, name); !rejected(err) {
		return fmt.Errorf("listing of not valid name %q: %d entries, %v", name, len(l), err)
	}
	if s, err := fsys.(fs.SubFS).Sub(name); !rejected(err) {
		return fmt.Errorf("sub of not valid name %q: %T, %v", name, s, err)
	}
	return nil
}

func checkAbsent(fsys fs.FS, name string) error {
	if f, err := fsys.Open(name); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("opening of absent %q: %v, %v", name, f, err)
	}
	if fi, err := fs.Stat(fsys, name); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("stat of absent %q: %v, %v", name, fi, err)
	}
	if b, err := fs.ReadFile(fsys, name); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("reading of absent %q: %x, %v", name, b, err)
	}
	if l, err := fs.ReadDir(fsys, name); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("listing of absent %q: %d entries, %v", name, len(l), err)
	}
	if s, err := fsys.(fs.SubFS).Sub(name); !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("sub of absent %q: %v, %v", name, s, err)
	}
	return nil
}

type c11Case struct {
	Live   bool // not reopened package
	Files  []c01File
	Absent []string
	Steps  []int
	Del    []int // deleted after packing
}

func init() {
	reg("C11", "tree",
		"case: 1..14 names in clustered directories with prefix siblings and upper/lower case twins, live or reopened package, some files deleted again, portions of incremental listing, absent names (prefixes, extensions, other case, below a file). All directories and files by every call against a reference tree. Non-trivial: at least 2 directories besides the root.",
		15000, 300000, genC11, runC11)
	reg("C12", "sub",
		"case: twin packages with the same files; 1..10 operations run through a sub-workspace on one and with prefixed names on the other: lookup, stat, open, read, listing, glob, nested sub, pack, rename, renamedir, alias, delete, settag; outcome classes, results and whole contents are compared after every step, and the sub view against the reference tree. Non-trivial: at least one successful change through the sub-workspace.",
		15000, 300000, genC12, runC12)
	reg("C13", "glob",
		"case: 0..12 names with special characters and patterns derived from names by replacing parts with *, ?, classes and escapes, or malformed; package, sub-workspace and union of two. Non-trivial: at least one name matches and one does not.",
		50000, 1000000, genC13, runC13)
	reg("C14", "union",
		"case: 1..4 packages with overlapping clustered names of different content, each a root or a view on its own sub-workspace; all calls compared with a first-wins merge, also subs of the union and special package entries. Non-trivial: at least one name present in two members.",
		15000, 300000, genC14, runC14)
	reg("C15", "slashes",
		"case: twin packages with the same files; 1..12 operations (pack, lookup, stat, open, read, listing, sub, glob of a literal name, rename, alias, directory rename, delete, tagset put) with names spelled by slashes on one and by a generated mix of backslashes on the other, through root, sub-workspace or union; outcomes and contents compared after each step, stored names have no backslash. Non-trivial: at least one operation with a backslash inside of the name succeeds.",
		20000, 400000, genC15, runC15)
}

func genTreeFiles(t *rapid.T, lo, hi int) (fs []c01File) {
	for _, k := range genClusteredKeys(t, lo, hi) {
		fs = append(fs, c01File{Key: k, Blob: Blob{ri(t, "len", 0, 30), uint32(ri(t, "seed", 1, 1<<16))}, Tags: maybeTags(t)})
	}
	return
}

func genC11(t *rapid.T) (c c11Case) {
	c.Live = rapid.Bool().Draw(t, "live")
	c.Files = genTreeFiles(t, 1, 14)
	for i := range c.Files {
		if chance(t, "del", 10) {
			c.Del = append(c.Del, i)
		}
	}
	for i, n := 0, ri(t, "absent", 1, 5); i < n; i++ {
		c.Absent = append(c.Absent, genAbsent(t, c.Files))
	}
	c.Steps = rapid.SliceOfN(rapid.IntRange(1, 4), 1, 3).Draw(t, "steps")
	return
}

func genAbsent(t *rapid.T, files []c01File) string {
	if len(files) == 0 || chance(t, "free", 20) {
		return genKey(t)
	}
	var k = pick(t, "of", files).Key
	switch ri(t, "how", 0, 5) {
	case 0:
		return k[:ri(t, "cut", 1, len(k))]
	case 1:
		return k + "/x"
	case 2:
		return k + "1"
	case 3:
		return strings.ToUpper(k)
	case 4:
		return "zz/" + k
	}
	return path.Dir(k) + "1"
}

func runC11(c *Ctx, cs c11Case) error {
	var r = newRig(modeSingleSame, nil)
	if err := r.begin(); err != nil {
		return err
	}
	for _, f := range cs.Files {
		if err := r.do(Op{K: "put", A: f.Key, Blob: f.Blob, Tags: f.Tags}); err != nil {
			return err
		}
	}
	var left []c01File
	for i, f := range cs.Files {
		if slices.Contains(cs.Del, i) && len(cs.Del) < len(cs.Files) {
			if err := r.do(Op{K: "del", A: f.Key}); err != nil {
				return err
			}
		} else {
			left = append(left, f)
		}
	}
	if err := r.sync(); err != nil {
		return err
	}
	if !cs.Live {
		if err := r.reopen(); err != nil {
			return err
		}
	}
	r.pkg.Tagger = memTagger{r.wpt.Bytes()}
	var tree = newRefTree(left)
	if len(tree.dirs) > 2 {
		c.NonTrivial()
	}
	c.Label("dirs %d", len(tree.dirs))
	var content = func(k string) []byte { return r.m.find(k).Data }
	if err := tree.checkFS(r.pkg, cs.Steps, content); err != nil {
		return err
	}
	for _, a := range cs.Absent {
		_, isfile := tree.size[a]
		_, isdir := tree.dirs[a]
		if isfile || isdir || !fs.ValidPath(a) || a == wpk.PackName {
			continue
		}
		c.Count("absent_names", 1)
		if err := checkAbsent(r.pkg, a); err != nil {
			return err
		}
	}
	// the same through sub-directories
	for _, d := range sortedKeys(tree.dirs) {
		if d == "." {
			continue
		}
		sub, err := r.pkg.Sub(d)
		if err != nil {
			return fmt.Errorf("sub of %q: %w", d, err)
		}
		var inner []c01File
		for _, f := range left {
			if strings.HasPrefix(f.Key, d+"/") {
				var f2 = f
				f2.Key = f.Key[len(d)+1:]
				inner = append(inner, f2)
			}
		}
		if err := newRefTree(inner).checkFS(sub, cs.Steps, func(k string) []byte { return content(d + "/" + k) }); err != nil {
			return fmt.Errorf("sub of %q: %w", d, err)
		}
	}
	return nil
}

type c12Op struct {
	K    string
	A, B string
	Blob Blob `json:",omitempty"`
	Flag bool `json:",omitempty"`
	TID  uint16
}

type c12Case struct {
	Dir   string
	Two   bool // sub of sub
	Files []c01File
	Ops   []c12Op
}

func genC12(t *rapid.T) (c c12Case) {
	c.Dir = pick(t, "dir", []string{"img", "img/d", "a b", "d"})
	c.Two = strings.Contains(c.Dir, "/") && rapid.Bool().Draw(t, "two")
	var name = rapid.Custom(func(t *rapid.T) string {
		var d = pick(t, "nd", []string{"", "", "d/", "d/e/", "img/", "x/"})
		return d + pick(t, "nl", []string{"f", "g.bin", "h", "long-name.txt"})
	})
	var outside = []string{"img1/f", "img1/d/f", "im/f", "f", "g.bin", "img/dd/f", "img/d1/f", "a b1/f", "a/f", "d1/f", "dd/g.bin", "zz/f"}
	var keys = map[string]bool{}
	for i, n := 0, ri(t, "inside", 1, 6); i < n; i++ {
		keys[c.Dir+"/"+name.Draw(t, "name")] = true
	}
	for i, n := 0, ri(t, "outside", 0, 6); i < n; i++ {
		keys[pick(t, "out", outside)] = true
	}
	for i, k := range sortedKeys(keys) {
		c.Files = append(c.Files, c01File{Key: k, Blob: Blob{ri(t, "len", 0, 12), uint32(i + 1)}})
	}
	c.Files = rapid.Permutation(c.Files).Draw(t, "order")
	var live []string
	for _, f := range c.Files {
		if strings.HasPrefix(f.Key, c.Dir+"/") {
			live = append(live, f.Key[len(c.Dir)+1:])
		}
	}
	var old = func() string {
		if chance(t, "any", 25) {
			return name.Draw(t, "new name")
		}
		return pick(t, "live", live)
	}
	var dir = func() string {
		return pick(t, "subdir", []string{"d", "d/e", "img", "x", "y", "d", "."})
	}
	for i, n := 0, ri(t, "ops", 1, 10); i < n; i++ {
		var op = c12Op{K: pick(t, "k", []string{"lookup", "stat", "open", "read", "list", "glob", "sub", "put", "put", "rename", "renamedir", "alias", "del", "settag", "full", "trim"})}
		switch op.K {
		case "list", "sub":
			op.A = dir()
			op.B = old()
		case "glob":
			op.A = pick(t, "pat", []string{"*", "d/*", "*/*", "?", "f", "[fg]*", "d/e/?", "x*", "[", "*.bin", "d/[!a-f]*"})
		case "renamedir":
			op.A, op.B, op.Flag = pick(t, "rd", []string{"d", "d/e", "img", "x", ""}), pick(t, "nd", []string{"d", "y", "img", "d/e", "y/z", ""}), rapid.Bool().Draw(t, "skip")
		case "put":
			op.A = name.Draw(t, "name")
			if chance(t, "existing", 15) {
				op.A = pick(t, "live", live)
			}
			op.Blob = Blob{ri(t, "len", 0, 12), uint32(ri(t, "seed", 100, 1<<16))}
			live = append(live, op.A)
		case "rename", "alias":
			op.A, op.B = old(), name.Draw(t, "to")
			live = append(live, op.B)
		case "settag":
			op.A, op.TID = old(), genTID(t)
			op.Blob = Blob{ri(t, "len", 0, 12), uint32(ri(t, "seed", 100, 1<<16))}
		case "trim":
			op.A = pick(t, "full", append(outside, c.Dir, c.Dir+"/", c.Dir+"1/f", c.Dir+"/f", c.Dir+"/d/f"))
		default:
			op.A = old()
		}
		c.Ops = append(c.Ops, op)
	}
	return
}

// entriesOf describes directory entries.
func entriesOf(list []fs.DirEntry, err error) string {
	var s []string
	for _, de := range list {
		var size int64 = -1
		if fi, err := de.Info(); err == nil && !fi.IsDir() {
			size = fi.Size()
		}
		s = append(s, fmt.Sprintf("%q dir=%v size=%d", de.Name(), de.IsDir(), size))
	}
	return errClass(err) + " " + strings.Join(s, ", ")
}

func dumpPkg(pkg *wpk.Package) string {
	var sb strings.Builder
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		tags, err := decTags(ts)
		fmt.Fprintf(&sb, "%q:", k)
		for _, t := range tags {
			fmt.Fprintf(&sb, " %d=%x", t.ID, t.Val)
		}
		b, rerr := pkg.ReadFile(k)
		fmt.Fprintf(&sb, " data=%x %v %v\n", b, rerr, err)
		return true
	})
	return sb.String()
}

func firstDiff(a, b string) string {
	var la, lb = strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range max(len(la), len(lb)) {
		var x, y = "-", "-"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("%s  versus  %s", clip(x, 400), clip(y, 400))
		}
	}
	return ""
}

// liveTagger reads content from the growing file.
type liveTagger struct{ m *MemFile }

func (t liveTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return memTagger{t.m.buf}.OpenTagset(ts)
}
func (t liveTagger) Close() error { return nil }

func twins(files []c01File) (a, b *Rig, err error) {
	for i := 0; i < 2; i++ {
		var r *Rig
		if r, err = rigOf(false, true, files, nil); err != nil {
			return
		}
		r.pkg.Tagger = liveTagger{r.wpt}
		if i == 0 {
			a = r
		} else {
			b = r
		}
	}
	return
}

func readAllClass(f fs.File, err error) string {
	if err != nil {
		return errClass(err)
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return "stat " + err.Error()
	}
	if fi.IsDir() {
		if d, ok := f.(fs.ReadDirFile); ok {
			return "dir " + entriesOf(d.ReadDir(-1))
		}
		return "dir"
	}
	b, err := io.ReadAll(f)
	return fmt.Sprintf("file %q %d %x %v", fi.Name(), fi.Size(), b, err)
}

func statClass(fi fs.FileInfo, err error) string {
	if err != nil {
		return errClass(err)
	}
	if fi.IsDir() {
		return fmt.Sprintf("dir %q", fi.Name())
	}
	return fmt.Sprintf("file %q %d %v", fi.Name(), fi.Size(), fi.Mode())
}

func runC12(c *Ctx, cs c12Case) error {
	a, b, err := twins(cs.Files)
	if err != nil {
		return err
	}
	var sub fs.FS
	if cs.Two {
		var i = strings.IndexByte(cs.Dir, '/')
		if sub, err = a.pkg.Sub(cs.Dir[:i]); err == nil {
			sub, err = sub.(fs.SubFS).Sub(cs.Dir[i+1:])
		}
	} else {
		sub, err = a.pkg.Sub(cs.Dir)
	}
	if err != nil {
		return fmt.Errorf("sub: %w", err)
	}
	var s = sub.(*wpk.Package)
	var root = b.pkg
	var pre = cs.Dir + "/"
	for i, op := range cs.Ops {
		var got, want string
		var fullA = pre + op.A
		switch op.K {
		case "lookup":
			t1, ok1 := s.GetTagset(op.A)
			t2, ok2 := root.GetTagset(fullA)
			got = fmt.Sprintf("%v %v %x", s.HasTagset(op.A), ok1, string(t1))
			want = fmt.Sprintf("%v %v %x", root.HasTagset(fullA), ok2, string(t2))
		case "stat":
			got, want = statClass(s.Stat(op.A)), statClass(root.Stat(fullA))
		case "open":
			got, want = readAllClass(s.Open(op.A)), readAllClass(root.Open(fullA))
		case "read":
			b1, e1 := s.ReadFile(op.A)
			b2, e2 := root.ReadFile(fullA)
			got, want = fmt.Sprintf("%x %s", b1, errClass(e1)), fmt.Sprintf("%x %s", b2, errClass(e2))
		case "list":
			fullA = joinDir(cs.Dir, op.A)
			got, want = entriesOf(s.ReadDir(op.A)), entriesOf(root.ReadDir(fullA))
		case "glob":
			r1, e1 := s.Glob(op.A)
			r2, e2 := root.Glob(pre + op.A)
			for i := range r2 {
				r2[i] = strings.TrimPrefix(r2[i], pre)
			}
			got, want = fmt.Sprintf("%q %v", sorted(r1), e1 != nil), fmt.Sprintf("%q %v", sorted(r2), e2 != nil)
		case "sub":
			n1, e1 := s.Sub(op.A)
			n2, e2 := root.Sub(joinDir(cs.Dir, op.A))
			got, want = errClass(e1), errClass(e2)
			if e1 == nil && e2 == nil {
				var p1, p2 = n1.(*wpk.Package), n2.(*wpk.Package)
				got, want = dumpPkg(p1), dumpPkg(p2)
				if op.A != "." {
					got += statClass(p1.Stat("f")) + p1.FullPath("f")
					want += statClass(p2.Stat("f")) + joinDir(cs.Dir, op.A) + "/f"
				}
			}
		case "put":
			_, e1 := s.PackData(a.wpt, blobReader(op.Blob), op.A)
			_, e2 := root.PackData(b.wpt, blobReader(op.Blob), fullA)
			got, want = errClass(e1), errClass(e2)
			if e1 == nil {
				c.NonTrivial()
			}
		case "rename":
			e1, e2 := s.Rename(op.A, op.B), root.Rename(fullA, pre+op.B)
			got, want = errClass(e1), errClass(e2)
			if e1 == nil {
				c.NonTrivial()
			}
		case "alias":
			e1, e2 := s.PutAlias(op.A, op.B), root.PutAlias(fullA, pre+op.B)
			got, want = errClass(e1), errClass(e2)
			if e1 == nil {
				c.NonTrivial()
			}
		case "renamedir":
			n1, e1 := s.RenameDir(op.A, op.B, op.Flag)
			n2, e2 := root.RenameDir(pre+op.A, pre+op.B, op.Flag)
			got, want = fmt.Sprint(n1, errClass(e1)), fmt.Sprint(n2, errClass(e2))
			if n1 > 0 {
				c.NonTrivial()
			}
		case "del":
			t1, ok1 := s.DelTagset(op.A)
			t2, ok2 := root.DelTagset(fullA)
			got, want = fmt.Sprintf("%v %x", ok1, string(t1)), fmt.Sprintf("%v %x", ok2, string(t2))
			if ok1 {
				c.NonTrivial()
			}
		case "settag":
			t1, ok1 := s.GetTagset(op.A)
			t2, ok2 := root.GetTagset(fullA)
			got, want = fmt.Sprint(ok1), fmt.Sprint(ok2)
			if ok1 && ok2 {
				s.SetTagset(op.A, wpk.CopyTagset(t1).Set(op.TID|256, op.Blob.Bytes()))
				root.SetTagset(fullA, wpk.CopyTagset(t2).Set(op.TID|256, op.Blob.Bytes()))
			}
		case "full":
			got, want = s.FullPath(op.A)+" "+s.TrimPath(s.FullPath(op.A)), fullA+" "+op.A
		case "trim":
			// path outside of workspace gives an empty string
			got = s.TrimPath(op.A)
			switch {
			case op.A == cs.Dir || op.A == pre:
				want = "."
			case strings.HasPrefix(op.A, pre):
				want = op.A[len(pre):]
				if s.FullPath(got) != op.A {
					return fmt.Errorf("step %d: full path of %q is %q, want %q", i, got, s.FullPath(got), op.A)
				}
			}
		}
		c.Label("op %s", op.K)
		if got != want {
			return fmt.Errorf("step %d: %s %q %q through sub %q gives %s, with prefixed names gives %s", i, op.K, op.A, op.B, cs.Dir, clip(got, 500), clip(want, 500))
		}
		if d := firstDiff(dumpPkg(a.pkg), dumpPkg(b.pkg)); d != "" {
			return fmt.Errorf("step %d: after %s %q %q through sub %q packages differ: %s", i, op.K, op.A, op.B, cs.Dir, d)
		}
		// the view
		var inner []c01File
		var data = map[string][]byte{}
		var keys []string
		b.pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			if strings.HasPrefix(k, pre) {
				inner = append(inner, c01File{Key: k[len(pre):], Blob: Blob{Len: int(ts.Size())}})
				data[k[len(pre):]], _ = b.pkg.ReadFile(k)
				keys = append(keys, k[len(pre):])
			}
			return true
		})
		ks, _ := snapshot(s)
		if !slices.Equal(ks, keys) {
			return fmt.Errorf("step %d: sub %q shows %q, want %q", i, cs.Dir, ks, keys)
		}
		if len(inner) == 0 {
			if _, err := a.pkg.Sub(cs.Dir); !errors.Is(err, fs.ErrNotExist) {
				return fmt.Errorf("step %d: sub of empty %q: %v", i, cs.Dir, err)
			}
			break
		}
		if i == len(cs.Ops)-1 {
			if t := newRefTree(inner); !t.conflict() {
				if err := t.checkFS(s, []int{1, 2}, func(k string) []byte { return data[k] }); err != nil {
					return fmt.Errorf("after step %d: sub %q: %w", i, cs.Dir, err)
				}
			}
		}
	}
	return nil
}

// conflict says that a name is both a file and a directory.
func (t *refTree) conflict() bool {
	for d := range t.dirs {
		if _, ok := t.size[d]; ok {
			return true
		}
	}
	return false
}

func joinDir(dir, name string) string {
	if name == "." || name == "" {
		return dir
	}
	return joinName(dir, name)
}

type c13Case struct {
	Keys  []string
	Keys2 []string // second package of the union
	Pats  []string
	Sub   string
}

func genPattern(t *rapid.T, keys []string) string {
	var base string
	if len(keys) > 0 && chance(t, "derived", 80) {
		base = pick(t, "of", keys)
	} else {
		base = genKey(t)
	}
	var out []string
	for _, r := range base {
		var s = string(r)
		switch ri(t, "p", 0, 13) {
		case 0:
			s = "?"
		case 1:
			s = "*"
		case 2:
			s = "[" + s + "]"
		case 3:
			s = "[^" + pick(t, "neg", []string{"a", "z", s, "0-9"}) + "]"
		case 4:
			s = "[a-z]"
		case 5:
			s = ""
		case 6:
			s = s + "*"
		}
		out = append(out, s)
	}
	var p = strings.Join(out, "")
	switch ri(t, "form", 0, 11) {
	case 0:
		p = "*"
	case 1:
		p = path.Dir(base) + "/*"
	case 2:
		p = "*/" + path.Base(base)
	case 3:
		p = base
	case 4:
		p += pick(t, "bad", []string{"[", "[a", "[]a]", "[a-]", "[-a]", "[^]", "*[", "[!a-", "a[b", "[a-b-c]"})
	}
	return p
}

// Characters that have a meaning in patterns only are left out of the names of other checks.
func genC13(t *rapid.T) (c c13Case) {
	var g = rapid.Custom(func(t *rapid.T) string {
		if chance(t, "special", 25) {
			return pick(t, "sp", []string{"", "d/", "img/"}) + string(rapid.SliceOfN(rapid.SampledFrom([]rune("ab[]*?-^!.é")), 1, 5).Draw(t, "rs"))
		}
		return genKey(t)
	})
	c.Keys = rapid.SliceOfNDistinct(g, 0, 12, rapid.ID[string]).Draw(t, "keys")
	c.Keys2 = rapid.SliceOfNDistinct(g, 0, 6, rapid.ID[string]).Draw(t, "keys2")
	if len(c.Keys) > 0 && rapid.Bool().Draw(t, "common") {
		var k = pick(t, "ck", c.Keys)
		if !slices.Contains(c.Keys2, k) {
			c.Keys2 = append(c.Keys2, k)
		}
	}
	c.Sub = pick(t, "sub", []string{"img", "d", "дир"})
	for i, n := 0, ri(t, "pats", 1, 4); i < n; i++ {
		c.Pats = append(c.Pats, genPattern(t, append(append([]string{}, c.Keys...), c.Keys2...)))
	}
	return
}

// goodPattern is a validator of pattern syntax (without backslashes).
func goodPattern(p string) bool {
	var r = []rune(p)
	for i := 0; i < len(r); i++ {
		if r[i] != '[' {
			continue
		}
		i++
		if i < len(r) && r[i] == '^' {
			i++
		}
		var n int
		for {
			if i < len(r) && r[i] == ']' && n > 0 {
				break
			}
			// lo
			if i >= len(r) || r[i] == '-' || r[i] == ']' {
				return false
			}
			i++
			if i >= len(r) {
				return false
			}
			if r[i] == '-' {
				i++
				if i >= len(r) || r[i] == '-' || r[i] == ']' {
					return false
				}
				i++
				if i >= len(r) {
					return false
				}
			}
			n++
		}
	}
	return true
}

func pkgOfKeys(keys []string, mark byte) (*wpk.Package, error) {
	var files []c01File
	for i, k := range keys {
		files = append(files, c01File{Key: k, Blob: Blob{int(mark) + i, uint32(mark)}})
	}
	wpt, _ := encPkg(files, nil, false)
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
		return nil, err
	}
	pkg.Tagger = memTagger{wpt}
	return pkg, nil
}

func runC13(c *Ctx, cs c13Case) error {
	p1, err := pkgOfKeys(cs.Keys, 1)
	if err != nil {
		return err
	}
	p2, err := pkgOfKeys(cs.Keys2, 9)
	if err != nil {
		return err
	}
	type view struct {
		name string
		fs   fs.GlobFS
		keys []string
	}
	var inner []string
	for _, k := range cs.Keys {
		if strings.HasPrefix(k, cs.Sub+"/") {
			inner = append(inner, k[len(cs.Sub)+1:])
		}
	}
	var views = []view{{"package", p1, cs.Keys}, {"union", &wpk.Union{List: []*wpk.Package{p1, p2}}, append(append([]string{}, cs.Keys...), cs.Keys2...)}}
	if len(inner) > 0 {
		s, err := p1.Sub(cs.Sub)
		if err != nil {
			return err
		}
		views = append(views, view{"sub " + cs.Sub, s.(fs.GlobFS), inner})
	}
	for _, pat := range cs.Pats {
		var good = goodPattern(pat)
		for _, v := range views {
			got, err := v.fs.Glob(pat)
			if !good {
				c.Label("malformed")
				if err == nil {
					return fmt.Errorf("%s: malformed pattern %q is not reported", v.name, pat)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: pattern %q: %w", v.name, pat, err)
			}
			var want = map[string]bool{}
			for _, k := range v.keys {
				m, err := path.Match(pat, k)
				if err != nil {
					infraf("pattern %q: %v", pat, err)
				}
				if m {
					want[k] = true
				}
			}
			if !slices.Equal(sorted(got), sortedKeys(want)) {
				return fmt.Errorf("%s with %q: pattern %q gives %q, want %q", v.name, v.keys, pat, got, sortedKeys(want))
			}
			if len(want) > 0 && len(want) < len(v.keys) {
				c.NonTrivial()
			}
			if len(want) > 1 {
				c.Label("several matches")
			}
		}
	}
	return nil
}

type c14Pkg struct {
	Sub   string // workspace of the member
	Files []c01File
}

type c14Case struct {
	Pkgs   []c14Pkg
	Steps  []int
	Absent []string
	Glob   []string
	// closing of these members fails
	CloseErr []bool
}

// closeTagger counts closing.
type closeTagger struct {
	memTagger
	n   *int
	err error
}

func (t closeTagger) Close() error {
	*t.n++
	return t.err
}

func genC14(t *rapid.T) (c c14Case) {
	var pool = genClusteredKeys(t, 2, 10)
	var n = ri(t, "pkgs", 1, 4)
	if chance(t, "none", 2) {
		n = 0
	}
	for i := 0; i < n; i++ {
		var p c14Pkg
		if chance(t, "sub", 35) {
			p.Sub = pick(t, "ws", []string{"ws", "w/s", "img", "other", "@pack"})
		}
		for j, k := range pool {
			if chance(t, "has", 55) {
				p.Files = append(p.Files, c01File{Key: k, Blob: Blob{ri(t, "len", 1, 25), uint32(1 + i*100 + j)}, Tags: maybeTags(t)})
			}
		}
		p.Files = rapid.Permutation(p.Files).Draw(t, "order")
		if p.Sub != "" && len(p.Files) == 0 {
			p.Sub = ""
		}
		c.Pkgs = append(c.Pkgs, p)
	}
	var files0 []c01File
	if n > 0 {
		files0 = c.Pkgs[0].Files
	}
	c.Steps = rapid.SliceOfN(rapid.IntRange(1, 4), 1, 3).Draw(t, "steps")
	for i := 0; i < 3; i++ {
		c.Absent = append(c.Absent, genAbsent(t, files0))
	}
	c.CloseErr = rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, "close errors")
	for i := 0; i < 2; i++ {
		c.Glob = append(c.Glob, genPattern(t, pool))
	}
	return
}

func checkUnion(u *wpk.Union, files []c01File, cs c14Case) error {
	var tree = newRefTree(files)
	var data = map[string][]byte{}
	for _, f := range files {
		if _, ok := data[f.Key]; !ok {
			data[f.Key] = f.Blob.Bytes()
		}
	}
	var want = sortedKeys(data)
	if got := sorted(u.AllKeys()); !slices.Equal(got, want) {
		return fmt.Errorf("all keys are %q, want %q", got, want)
	}
	if len(want) == 0 {
		for _, k := range []string{"f", "d/f"} {
			if err := checkAbsent(u, k); err != nil {
				return err
			}
		}
		return nil
	}
	if err := tree.checkFS(u, cs.Steps, func(k string) []byte { return data[k] }); err != nil {
		return err
	}
	for _, pat := range append([]string{"*", "*/*"}, cs.Glob...) {
		got, err := u.Glob(pat)
		if (err == nil) != goodPattern(pat) {
			return fmt.Errorf("glob %q: %v", pat, err)
		}
		if err != nil {
			continue
		}
		var w []string
		for _, k := range want {
			if ok, _ := path.Match(pat, k); ok {
				w = append(w, k)
			}
		}
		if !slices.Equal(sorted(got), w) {
			return fmt.Errorf("glob %q gives %q, want %q", pat, got, w)
		}
	}
	for _, a := range cs.Absent {
		_, isfile := tree.size[a]
		_, isdir := tree.dirs[a]
		if isfile || isdir || !fs.ValidPath(a) {
			continue
		}
		if err := checkAbsent(u, a); err != nil {
			return err
		}
	}
	return nil
}

func runC14(c *Ctx, cs c14Case) error {
	var u = &wpk.Union{}
	var all []c01File
	var count = map[string]int{}
	var roots = true
	var images [][]byte
	var closed = make([]int, len(cs.Pkgs))
	var failing bool
	var closeErr = func(i int) error {
		if i < len(cs.CloseErr) && cs.CloseErr[i] {
			failing = true
			return fmt.Errorf("can not close %d", i)
		}
		return nil
	}
	for i, p := range cs.Pkgs {
		var files []c01File
		for _, f := range p.Files {
			all = append(all, f)
			count[f.Key]++
			if p.Sub != "" {
				f.Key = p.Sub + "/" + f.Key
			}
			files = append(files, f)
		}
		if p.Sub != "" {
			roots = false
			files = append(files, c01File{Key: "outside", Blob: Blob{5, 3}}, c01File{Key: p.Sub + "1/outside", Blob: Blob{5, 4}})
		}
		wpt, _ := encPkg(files, []Tag{{114, []byte{byte(i)}}}, false)
		images = append(images, wpt)
		var pkg = wpk.NewPackage()
		if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
			return err
		}
		pkg.Tagger = closeTagger{memTagger{wpt}, &closed[i], closeErr(i)}
		if p.Sub != "" {
			s, err := pkg.Sub(p.Sub)
			if err != nil {
				return fmt.Errorf("sub of member: %w", err)
			}
			pkg = s.(*wpk.Package)
		}
		u.List = append(u.List, pkg)
	}
	for _, n := range count {
		if n > 1 {
			c.NonTrivial()
		}
	}
	c.Label("members %d", len(cs.Pkgs))
	if !roots {
		c.Label("with sub-workspaces")
	}
	if err := checkUnion(u, all, cs); err != nil {
		return err
	}
	// subs of the union
	for _, d := range sortedKeys(newRefTree(all).dirs) {
		if d == "." {
			continue
		}
		s, err := u.Sub(d)
		if err != nil {
			return fmt.Errorf("sub of %q: %w", d, err)
		}
		var inner []c01File
		for _, f := range all {
			if strings.HasPrefix(f.Key, d+"/") {
				f.Key = f.Key[len(d)+1:]
				inner = append(inner, f)
			}
		}
		var cs2 = cs
		cs2.Absent = nil
		if err := checkUnion(s.(*wpk.Union), inner, cs2); err != nil {
			return fmt.Errorf("sub of %q: %w", d, err)
		}
	}
	if roots {
		for i := range u.List {
			f, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, i))
			if err != nil {
				return fmt.Errorf("special entry %d: %w", i, err)
			}
			b, err := io.ReadAll(f)
			f.Close()
			if err != nil {
				return fmt.Errorf("special entry %d: %w", i, err)
			}
			if !bytes.HasPrefix(images[i], b) {
				return fmt.Errorf("special entry %d gives other content than the package", i)
			}
			var h, _ = parseRawHeader(images[i])
			if uint64(len(b)) < h.DatOff+h.DatLen {
				return fmt.Errorf("special entry %d gives %d bytes, the data ends at %d", i, len(b), h.DatOff+h.DatLen)
			}
		}
		for _, bad := range []string{fmt.Sprint(len(u.List)), "999999999", "4294967296", "18446744073709551616", "x", "-1", "+0", "0x0", "0b0", "0o0", "0_0", " 0", "0 ", "0.", "0/0", "00x0"} {
			if f, err := u.Open(wpk.PackName + "/" + bad); err == nil {
				return fmt.Errorf("special entry %q of %d members is opened: %v", bad, len(u.List), f)
			}
		}
	}
	if err := u.Close(); (err != nil) != failing {
		return fmt.Errorf("closing gives %v, failures %v", err, cs.CloseErr)
	}
	for i, n := range closed {
		if n == 0 {
			return fmt.Errorf("member %d of %d is not closed, failures %v", i, len(closed), cs.CloseErr)
		}
	}
	return nil
}

type c15Case struct {
	View  string // "", "sub", "union"
	Files []c01File
	Ops   []c12Op
	Bits  []int // which slashes are replaced
}

func genC15(t *rapid.T) (c c15Case) {
	c.View = pick(t, "view", []string{"", "", "sub", "union"})
	var name = rapid.Custom(func(t *rapid.T) string {
		var d = pick(t, "nd", []string{"", "img/", "img/d/", "img/d/e/", "d/", "img1/"})
		var s = d + pick(t, "nl", []string{"f", "g.bin", "longer-name.txt"})
		if rare(t, "longname", 1) {
			s = longName(t, s)
		}
		return s
	})
	var pre string
	if c.View == "sub" {
		pre = "ws/"
	}
	var keys = rapid.SliceOfNDistinct(name, 1, 7, rapid.ID[string]).Draw(t, "keys")
	for i, k := range keys {
		c.Files = append(c.Files, c01File{Key: pre + k, Blob: Blob{ri(t, "len", 0, 12), uint32(i + 1)}})
	}
	var live = append([]string{}, keys...)
	var old = func() string {
		if chance(t, "any", 20) {
			return name.Draw(t, "new name")
		}
		return pick(t, "live", live)
	}
	var kinds = []string{"lookup", "stat", "open", "read", "list", "glob", "sub", "opendir", "statdir"}
	if c.View != "union" {
		kinds = append(kinds, "put", "put", "rename", "rename", "renamedir", "renamedir", "alias", "alias", "del", "settag", "base")
	}
	var dirs = []string{"img/d", "img", "img/d/e", "d", "img1", "x/y", "img/x"}
	for i, n := 0, ri(t, "ops", 1, 12); i < n; i++ {
		var op = c12Op{K: pick(t, "k", kinds), A: old()}
		switch op.K {
		case "list", "sub", "opendir", "statdir":
			op.A = pick(t, "dir", dirs)
		case "renamedir":
			op.A, op.B, op.Flag = pick(t, "olddir", dirs), pick(t, "newdir", dirs), rapid.Bool().Draw(t, "skip")
			if chance(t, "tail", 30) {
				op.A += "/"
			}
			if chance(t, "tail", 30) {
				op.B += "/"
			}
		case "put":
			op.Blob = Blob{ri(t, "len", 0, 12), uint32(ri(t, "seed", 100, 1<<16))}
			if chance(t, "new", 75) {
				op.A = name.Draw(t, "name")
			}
			live = append(live, op.A)
		case "rename", "alias":
			op.B = name.Draw(t, "to")
			live = append(live, op.B)
		case "settag":
			op.TID = genTID(t)
			op.Blob = Blob{ri(t, "len", 0, 12), uint32(ri(t, "seed", 100, 1<<16))}
		}
		c.Ops = append(c.Ops, op)
		c.Bits = append(c.Bits, ri(t, "bits", 1, 15))
	}
	return
}

// backslashed replaces chosen slashes.
func backslashed(s string, bits int) string {
	var b = []byte(s)
	var n int
	for i := range b {
		if b[i] == '/' {
			if bits&(1<<(n%4)) != 0 {
				b[i] = '\\'
			}
			n++
		}
	}
	return string(b)
}

func runC15(c *Ctx, cs c15Case) error {
	a, b, err := twins(cs.Files)
	if err != nil {
		return err
	}
	type iface interface {
		fs.FS
		fs.StatFS
		fs.ReadFileFS
		fs.ReadDirFS
		fs.GlobFS
		fs.SubFS
	}
	var va, vb iface = a.pkg, b.pkg
	var pa, pb = a.pkg, b.pkg
	switch cs.View {
	case "sub":
		s1, err1 := a.pkg.Sub("ws")
		s2, err2 := b.pkg.Sub("ws")
		if err1 != nil || err2 != nil {
			return fmt.Errorf("sub: %v, %v", err1, err2)
		}
		pa, pb = s1.(*wpk.Package), s2.(*wpk.Package)
		va, vb = pa, pb
	case "union":
		other, err := pkgOfKeys([]string{"img/d/f", "other/f", "img/g.bin"}, 60)
		if err != nil {
			return err
		}
		va, vb = &wpk.Union{List: []*wpk.Package{a.pkg, other}}, &wpk.Union{List: []*wpk.Package{b.pkg, other}}
	}
	for i, op := range cs.Ops {
		var bs = func(s string) string { return backslashed(s, cs.Bits[i]) }
		var A, B = bs(op.A), bs(op.B)
		var got, want string
		var okay bool
		switch op.K {
		case "lookup":
			t1, ok1 := pa.GetTagset(A)
			t2, ok2 := pb.GetTagset(op.A)
			got = fmt.Sprintf("%v %v %x", pa.HasTagset(A), ok1, string(t1))
			want = fmt.Sprintf("%v %v %x", pb.HasTagset(op.A), ok2, string(t2))
			okay = ok2
		case "stat", "statdir":
			got, want = statClass(va.Stat(A)), statClass(vb.Stat(op.A))
			okay = want != "notexist"
		case "open", "opendir":
			got, want = readAllClass(va.Open(A)), readAllClass(vb.Open(op.A))
			okay = want != "notexist"
		case "read":
			b1, e1 := va.ReadFile(A)
			b2, e2 := vb.ReadFile(op.A)
			got, want = fmt.Sprintf("%x %s", b1, errClass(e1)), fmt.Sprintf("%x %s", b2, errClass(e2))
			okay = e2 == nil
		case "list":
			got, want = entriesOf(va.ReadDir(A)), entriesOf(vb.ReadDir(op.A))
			okay = len(want) > 5
		case "glob":
			r1, e1 := va.Glob(A)
			r2, e2 := vb.Glob(op.A)
			got, want = fmt.Sprintf("%q %v", sorted(r1), e1), fmt.Sprintf("%q %v", sorted(r2), e2)
			okay = len(r2) > 0
		case "sub":
			n1, e1 := va.Sub(A)
			n2, e2 := vb.Sub(op.A)
			got, want = errClass(e1), errClass(e2)
			okay = e2 == nil
			if e1 == nil && e2 == nil {
				got, want = treeDump(n1), treeDump(n2)
			}
		case "put":
			t1, e1 := pa.PackData(a.wpt, blobReader(op.Blob), A)
			t2, e2 := pb.PackData(b.wpt, blobReader(op.Blob), op.A)
			got, want = fmt.Sprintf("%s %x", errClass(e1), string(t1)), fmt.Sprintf("%s %x", errClass(e2), string(t2))
			okay = e2 == nil
		case "rename":
			e1, e2 := pa.Rename(A, B), pb.Rename(op.A, op.B)
			got, want, okay = errClass(e1), errClass(e2), e2 == nil
		case "alias":
			e1, e2 := pa.PutAlias(A, B), pb.PutAlias(op.A, op.B)
			got, want, okay = errClass(e1), errClass(e2), e2 == nil
		case "renamedir":
			n1, e1 := pa.RenameDir(A, B, op.Flag)
			n2, e2 := pb.RenameDir(op.A, op.B, op.Flag)
			got, want = fmt.Sprint(n1, errClass(e1)), fmt.Sprint(n2, errClass(e2))
			okay = n2 > 0
		case "del":
			t1, ok1 := pa.DelTagset(A)
			t2, ok2 := pb.DelTagset(op.A)
			got, want = fmt.Sprintf("%v %x", ok1, string(t1)), fmt.Sprintf("%v %x", ok2, string(t2))
			okay = ok2
		case "base":
			got, want = fmt.Sprintf("%x", string(pa.BaseTagset(64, 0, A))), fmt.Sprintf("%x", string(pb.BaseTagset(64, 0, op.A)))
			okay = true
		case "settag":
			t1, ok1 := pa.GetTagset(A)
			t2, ok2 := pb.GetTagset(op.A)
			got, want, okay = fmt.Sprint(ok1), fmt.Sprint(ok2), ok2
			if ok1 && ok2 {
				pa.SetTagset(A, wpk.CopyTagset(t1).Set(op.TID|256, op.Blob.Bytes()))
				pb.SetTagset(op.A, wpk.CopyTagset(t2).Set(op.TID|256, op.Blob.Bytes()))
			}
		}
		c.Label("op %s", op.K)
		if got != want {
			return fmt.Errorf("step %d: %s %q %q gives %s, with slashes gives %s", i, op.K, A, B, clip(got, 500), clip(want, 500))
		}
		if okay && strings.Contains(A, "\\") {
			c.NonTrivial()
		}
		var d1, d2 = dumpPkg(a.pkg), dumpPkg(b.pkg)
		if d := firstDiff(d1, d2); d != "" {
			return fmt.Errorf("step %d: after %s %q %q packages differ: %s", i, op.K, A, B, d)
		}
		for _, k := range sortedKeysOf(a.pkg) {
			if strings.Contains(k, "\\") {
				return fmt.Errorf("step %d: after %s %q %q stored name is %q", i, op.K, A, B, k)
			}
			ts, _ := a.pkg.GetTagset(k)
			if ts.Path() != k {
				return fmt.Errorf("step %d: after %s %q %q path tag of %q is %q", i, op.K, A, B, k, ts.Path())
			}
		}
	}
	return nil
}

func sortedKeysOf(pkg *wpk.Package) []string {
	k, _ := snapshot(pkg)
	return sorted(k)
}

// treeDump describes everything visible in the file system.
func treeDump(fsys fs.FS) string {
	var sb strings.Builder
	fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&sb, "%q error %s\n", p, errClass(err))
			return nil
		}
		fmt.Fprintf(&sb, "%q %v", p, d.IsDir())
		if !d.IsDir() {
			b, err := fs.ReadFile(fsys, p)
			fmt.Fprintf(&sb, " %x %v", b, err)
		}
		sb.WriteByte('\n')
		return nil
	})
	return sb.String()
}
