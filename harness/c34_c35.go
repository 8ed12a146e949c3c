package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing/fstest"
	"testing/iotest"
	"text/template"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// C34: one opened package is used by many goroutines.

type c34Op struct {
	K   string
	A   int    `json:",omitempty"` // number of the file
	D   string `json:",omitempty"` // directory or pattern
	Off int64  `json:",omitempty"`
	N   int    `json:",omitempty"` // bytes, or size of pieces
	Y   int    `json:",omitempty"` // yields: every Y-th piece
}

type c34Case struct {
	Mode    string
	Split   bool
	View    string    // "" root, "union", or directory
	Files   []c01File // of the package
	Info    []Tag     `json:",omitempty"`
	More    []c01File // of the second member of union
	Live    []Blob    // files packed by the goroutine while others read, a flush of the split package after each with odd length
	Back    int       // number of live files that are packed from pieces
	Shared  int       // handles opened before the start and used by all goroutines
	Workers [][]c34Op
}

func init() {
	reg("C34", "goroutines",
		"case: package of 1..8 files opened in one of 3 modes, split or not; root, subdirectory or union; 2..8 goroutines do 1..12 readings of whole files, by pieces with yields, at offsets of own and of common handles, stats, listings, walks, globs, subdirectories, tags; in 2/5 of cases one more goroutine appends up to 8 files and flushes, and they are read as soon as packing returned; race detector. Non-trivial: at least two goroutines read content.",
		700, 12000, genC34, runC34)
	reg("C35", "http",
		"case: 1..10 files with names that need escaping, index pages, modification times, up to 6 other tags, contents of text and binary kinds; root, subdirectory or union of two, opened in 3 modes; 1..12 requests (GET, HEAD, ranges, several ranges, conditions, directories, absent names) to the file server of standard library over the package and over fstest.MapFS of the same files; answers are compared as a whole. Non-trivial: a range, condition or directory is answered.",
		2000, 40000, genC35, runC35)
	reg("C35", "tools",
		"case: the same trees given to zip and tar AddFS, os.CopyFS, template.ParseFS, fs.WalkDir, fs.Sub, fs.Glob, iotest.TestReader for each file, and fstest.MapFS as a reference. Non-trivial: at least two directories or 3 files.",
		400, 10000, genC35, runC35Tools)
}

func genC34(t *rapid.T) (c c34Case) {
	c.Mode, c.Split = pick(t, "mode", tgrModes), rapid.Bool().Draw(t, "split")
	var n = ri(t, "files", 1, 8)
	var dirs = []string{"", "img/", "img/d/", "img2/"}
	for i := 0; i < n; i++ {
		var f = c01File{Key: fmt.Sprintf("%sf%d", pick(t, "dir", dirs), i), Blob: genBlob(t, false)}
		if chance(t, "tagged", 30) {
			f.Tags = genTags(t, 2)
		}
		c.Files = append(c.Files, f)
	}
	switch ri(t, "view", 0, 5) {
	case 0:
		c.View = "union"
		for i := 0; i < 4; i++ {
			c.More = append(c.More, c01File{Key: fmt.Sprintf("%sf%d", pick(t, "dir2", dirs), i), Blob: Blob{ri(t, "len2", 1, 50), uint32(900 + i)}})
		}
	case 1:
		for _, f := range c.Files {
			if strings.HasPrefix(f.Key, "img/") {
				c.View = "img"
			}
		}
	}
	if chance(t, "live", 40) {
		for i := 0; i < ri(t, "livenum", 1, 8); i++ {
			c.Live = append(c.Live, Blob{pick(t, "livelen", []int{0, 1, 30, 101, 4096, 5001}), uint32(500 + i)})
		}
		c.Back = ri(t, "pieces", 0, 8)
	}
	c.Shared = ri(t, "shared", 0, 3)
	if chance(t, "info", 40) {
		c.Info = genTags(t, 2)
	}
	var kinds = []string{"read", "read", "pieces", "pieces", "readat", "shared", "shared", "stat", "list", "walk", "glob", "absent", "sub", "tags", "enum", "info", "whole"}
	if len(c.Live) > 0 {
		kinds = append(kinds, "new", "new", "new")
	}
	for w := ri(t, "workers", 2, 8); w > 0; w-- {
		var ops []c34Op
		for i := ri(t, "ops", 1, 12); i > 0; i-- {
			var op = c34Op{K: pick(t, "op", kinds), A: ri(t, "file", 0, 20)}
			switch op.K {
			case "pieces":
				op.N, op.Y = pick(t, "n", []int{1, 7, 64, 1000, 4096}), ri(t, "y", 0, 3)
			case "readat", "shared":
				op.Off, op.N = int64(pick(t, "off", []int{0, 0, 1, 5, 100, 4000})), pick(t, "n", []int{1, 10, 512, 5000})
			case "list", "walk", "sub":
				op.D = pick(t, "d", []string{".", "img", "img/d", "img2", "d", "none"})
			case "glob":
				op.D = pick(t, "g", []string{"*", "*/*", "img*/f?", "f[0-4]"})
			}
			ops = append(ops, op)
		}
		c.Workers = append(c.Workers, ops)
	}
	return
}

// viewOf gives what the view shows: names and files.
func viewOf(files []c01File, view string) (res []c01File) {
	for _, f := range files {
		if view != "" && view != "union" {
			if !strings.HasPrefix(f.Key, view+"/") {
				continue
			}
			f.Key = f.Key[len(view)+1:]
		}
		res = append(res, f)
	}
	return
}

func runC34(c *Ctx, cs c34Case) error {
	var wpt, wpf = encPkg(cs.Files, cs.Info, cs.Split)
	var pp, dp = saveImage(c.Dir(), "p", cs.Split, wpt, wpf)
	pkg, err := openDisk(pp, dp, cs.Mode)
	if err != nil {
		return err
	}
	defer pkg.Close()
	var size0 = pkg.DataSize()
	// bytes of the package up to the end of data
	var image = wpt[:min(len(wpt), wpk.HeaderSize+int(size0))]
	if cs.Split {
		image = wpf[:size0]
	}
	var list = viewOf(cs.Files, cs.View)
	var v fsAll = pkg
	switch cs.View {
	case "":
	case "union":
		var wpt2, _ = encPkg(cs.More, nil, false)
		var pp2, _ = saveImage(c.Dir(), "more", false, wpt2, nil)
		pkg2, err := openDisk(pp2, pp2, cs.Mode)
		if err != nil {
			return err
		}
		defer pkg2.Close()
		v = &wpk.Union{List: []*wpk.Package{pkg, pkg2}}
		for _, f := range cs.More {
			if !slices.ContainsFunc(list, func(x c01File) bool { return x.Key == f.Key }) {
				list = append(list, f)
			}
		}
	default:
		s, err := pkg.Sub(cs.View)
		if err != nil {
			return fmt.Errorf("sub %q: %w", cs.View, err)
		}
		v = s.(fsAll)
	}
	if len(list) == 0 {
		return nil
	}
	var data = map[string][]byte{}
	var dirs = map[string]map[string]bool{".": {}}
	for _, f := range list {
		data[f.Key] = f.Blob.Bytes()
		for k := f.Key; k != "."; k = path.Dir(k) {
			if dirs[path.Dir(k)] == nil {
				dirs[path.Dir(k)] = map[string]bool{}
			}
			dirs[path.Dir(k)][path.Base(k)] = true
		}
	}
	var live = len(cs.Live) > 0
	// a name is known when packing returned
	var liveKey = func(i int) string { return fmt.Sprintf("live%d", i) }
	var isLive = func(k string) bool { return strings.HasPrefix(path.Base(k), "live") }
	var shared []wpk.RFile
	for i := 0; i < cs.Shared; i++ {
		f, err := v.Open(list[i%len(list)].Key)
		if err != nil {
			return err
		}
		defer f.Close()
		shared = append(shared, f.(wpk.RFile))
	}
	var published atomic.Int64

	var readAt = func(f io.ReaderAt, want []byte, off int64, n int) error {
		var buf = make([]byte, n)
		got, err := f.ReadAt(buf, off)
		var rest = want[min(off, int64(len(want))):]
		rest = rest[:min(len(rest), n)]
		if err != nil && (err != io.EOF || got == n) || err == nil && got < n || !bytes.Equal(buf[:got], rest) {
			return fmt.Errorf("%d bytes at %d of %d: gives %d, %v, %s", n, off, len(want), got, err, diffBytes(buf[:got], rest))
		}
		return nil
	}
	// names without those that are packed meanwhile
	var old = func(names []string) (res []string) {
		for _, k := range names {
			if !live || !isLive(k) {
				res = append(res, k)
			}
		}
		return sorted(res)
	}
	var do = func(op c34Op) error {
		var file = list[op.A%len(list)]
		var want = data[file.Key]
		switch op.K {
		case "read":
			b, err := v.ReadFile(file.Key)
			if err != nil {
				return err
			}
			if d := diffBytes(b, want); d != "" {
				return fmt.Errorf("content of %q: %s", file.Key, d)
			}
		case "pieces":
			f, err := v.Open(file.Key)
			if err != nil {
				return err
			}
			var got []byte
			var buf = make([]byte, op.N)
			for i := 1; ; i++ {
				n, err := f.Read(buf)
				got = append(got, buf[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					f.Close()
					return err
				}
				if op.Y > 0 && i%op.Y == 0 {
					runtime.Gosched()
				}
				if len(got) > len(want) {
					break
				}
			}
			if fi, err := f.Stat(); err != nil || fi.Size() != int64(len(want)) {
				f.Close()
				return fmt.Errorf("stat of opened %q: %v, %v", file.Key, fi, err)
			}
			if err := f.Close(); err != nil {
				return fmt.Errorf("close: %w", err)
			}
			if d := diffBytes(got, want); d != "" {
				return fmt.Errorf("content of %q by pieces: %s", file.Key, d)
			}
		case "readat":
			f, err := v.Open(file.Key)
			if err != nil {
				return err
			}
			defer f.Close()
			return readAt(f.(io.ReaderAt), want, op.Off, op.N)
		case "shared":
			if len(shared) == 0 {
				return nil
			}
			var i = op.A % len(shared)
			return readAt(shared[i], data[list[i%len(list)].Key], op.Off, op.N)
		case "stat":
			fi, err := v.Stat(file.Key)
			if err != nil || fi.Size() != int64(len(want)) || fi.IsDir() || fi.Name() != path.Base(file.Key) {
				return fmt.Errorf("stat of %q: %v, %v", file.Key, fi, err)
			}
		case "list":
			entries, err := v.ReadDir(op.D)
			var names []string
			for _, e := range entries {
				names = append(names, e.Name())
			}
			if kids, ok := dirs[op.D]; !ok && err == nil || ok && err != nil {
				return fmt.Errorf("listing of %q: %v", op.D, err)
			} else if got, want := old(names), sortedKeys(kids); !slices.Equal(got, want) {
				return fmt.Errorf("listing of %q: %q, want %q", op.D, got, want)
			}
		case "walk":
			if dirs[op.D] == nil {
				return nil
			}
			var got []string
			if err := fs.WalkDir(v, op.D, func(p string, d fs.DirEntry, err error) error {
				if err == nil && !d.IsDir() {
					got = append(got, p)
				}
				return err
			}); err != nil {
				return err
			}
			var want []string
			for k := range data {
				if op.D == "." || strings.HasPrefix(k, op.D+"/") {
					want = append(want, k)
				}
			}
			if got, want := old(got), sorted(want); !slices.Equal(got, want) {
				return fmt.Errorf("walk of %q: %q, want %q", op.D, got, want)
			}
		case "glob":
			names, err := v.Glob(op.D)
			if err != nil {
				return err
			}
			var want []string
			for k := range data {
				if ok, _ := path.Match(op.D, k); ok {
					want = append(want, k)
				}
			}
			if got, want := old(names), sorted(want); !slices.Equal(got, want) {
				return fmt.Errorf("glob of %q: %q, want %q", op.D, got, want)
			}
		case "absent":
			if f, err := v.Open(file.Key + "-"); errClass(err) != "notexist" {
				return fmt.Errorf("open of absent name: %v, %v", f, err)
			}
			if _, err := v.ReadFile(file.Key + "/x"); errClass(err) != "notexist" {
				return fmt.Errorf("reading of absent name: %v", err)
			}
		case "sub":
			s, err := v.Sub(op.D)
			if dirs[op.D] == nil {
				if err == nil {
					return fmt.Errorf("sub %q is given", op.D)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("sub %q: %w", op.D, err)
			}
			for _, k := range sortedKeys(data) {
				var rel = k
				if op.D != "." {
					if !strings.HasPrefix(k, op.D+"/") {
						continue
					}
					rel = k[len(op.D)+1:]
				}
				b, err := fs.ReadFile(s, rel)
				if err != nil {
					return fmt.Errorf("%q at sub %q: %w", rel, op.D, err)
				}
				if d := diffBytes(b, data[k]); d != "" {
					return fmt.Errorf("content of %q at sub %q: %s", rel, op.D, d)
				}
			}
		case "tags":
			if p, ok := v.(*wpk.Package); ok {
				ts, ok := p.GetTagset(file.Key)
				if !ok {
					return fmt.Errorf("tags of %q are not found", file.Key)
				}
				for _, tag := range file.Tags {
					if val, ok := ts.Get(tag.ID); !ok || !bytes.Equal(val, tag.Val) {
						return fmt.Errorf("tag %d of %q is %x, want %x", tag.ID, file.Key, val, tag.Val)
					}
				}
			}
		case "enum":
			if p, ok := v.(*wpk.Package); ok {
				var names []string
				p.Enum(func(k string, ts wpk.TagsetRaw) bool {
					names = append(names, k)
					return true
				})
				if got, want := old(names), sortedKeys(data); !slices.Equal(got, want) {
					return fmt.Errorf("enumeration gives %q, want %q", got, want)
				}
			}
		case "info":
			if pkg.IsSplitted() != cs.Split {
				return fmt.Errorf("split is reported as %v", !cs.Split)
			}
			if n := pkg.DataSize(); n < size0 || !live && n > size0 {
				return fmt.Errorf("data size is %d, it was %d", n, size0)
			}
			if d := diffBytes(pkg.GetInfo(), tagset(cs.Info)); d != "" {
				return fmt.Errorf("package information: %s", d)
			}
		case "whole":
			// the package itself: its header can be under writing, and data is added
			if live && cs.Mode == "bulk" {
				return nil
			}
			var name = wpk.PackName
			var from fs.FS = pkg
			if cs.View == "union" {
				from, name = v, wpk.PackName+"/0"
			}
			f, err := from.Open(name)
			if err != nil {
				return fmt.Errorf("open of %q: %w", name, err)
			}
			defer f.Close()
			fi, err := f.Stat()
			if err != nil {
				return fmt.Errorf("stat of %q: %w", name, err)
			}
			if n := fi.Size(); n < int64(len(image)) || !live && n > int64(len(image)) {
				return fmt.Errorf("size of %q is %d, at start it was %d", name, n, len(image))
			}
			var buf = make([]byte, len(image))
			if _, err := io.ReadFull(f, buf); err != nil {
				return fmt.Errorf("reading of %q: %w", name, err)
			}
			var from0 = 0
			if !cs.Split {
				from0 = wpk.HeaderSize
			}
			if d := diffBytes(buf[from0:], image[from0:]); d != "" {
				return fmt.Errorf("content of %q: %s", name, d)
			}
		case "new":
			var n = int(published.Load())
			if n == 0 || cs.Mode == "bulk" {
				runtime.Gosched()
				return nil
			}
			var i = op.A % n
			if op.A%3 == 0 {
				i = n - 1
			}
			b, err := v.ReadFile(liveKey(i))
			if err != nil {
				return fmt.Errorf("reading of just packed %q: %w", liveKey(i), err)
			}
			if d := diffBytes(b, cs.Live[i].Bytes()); d != "" {
				return fmt.Errorf("content of just packed %q: %s", liveKey(i), d)
			}
		}
		return nil
	}

	var errs = make([]error, len(cs.Workers)+1)
	var wg sync.WaitGroup
	var start = make(chan struct{})
	var readers = 0
	for w, ops := range cs.Workers {
		var reads = false
		for _, op := range ops {
			c.Label("op %s", op.K)
			reads = reads || op.K == "read" || op.K == "pieces" || op.K == "shared" || op.K == "readat"
		}
		if reads {
			readers++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[w] = guard(func() error {
				for i, op := range ops {
					if err := do(op); err != nil {
						return fmt.Errorf("goroutine %d, call %d, %s: %w", w, i, js(op), err)
					}
				}
				return nil
			})
		}()
	}
	if readers > 1 {
		c.NonTrivial()
	}
	var wf, df *os.File
	if live {
		c.Label("files are packed meanwhile, %s", cs.Mode)
		wf, err = os.OpenFile(pp, os.O_RDWR, 0)
		must(err)
		defer wf.Close()
		df = wf
		var wpfw io.WriteSeeker
		if cs.Split {
			df, err = os.OpenFile(dp, os.O_RDWR, 0)
			must(err)
			defer df.Close()
			wpfw = df
		}
		if err := pkg.Append(wf, wpfw); err != nil {
			return fmt.Errorf("append: %w", err)
		}
		var into = pkg
		if cs.View != "" && cs.View != "union" {
			into = v.(*wpk.Package)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[len(cs.Workers)] = guard(func() error {
				for i, b := range cs.Live {
					var r = blobReader(b)
					if i < cs.Back {
						r = &yieldReader{b: b.Bytes(), frag: []int{1 + b.Len/3}, yield: []int{1}}
					}
					if _, err := into.PackData(df, r, liveKey(i)); err != nil {
						return fmt.Errorf("packing of %q: %w", liveKey(i), err)
					}
					published.Store(int64(i + 1))
					if cs.Split && b.Len%2 == 1 {
						if err := pkg.Sync(wf, df); err != nil {
							return fmt.Errorf("flush: %w", err)
						}
					}
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if !live {
		return nil
	}
	var wpfw io.WriteSeeker
	if cs.Split {
		wpfw = df
	}
	if err := pkg.Sync(wf, wpfw); err != nil {
		return fmt.Errorf("finalise: %w", err)
	}
	again, err := openDisk(pp, dp, cs.Mode)
	if err != nil {
		return fmt.Errorf("reopen: %w", err)
	}
	defer again.Close()
	var prefix string
	if cs.View != "" && cs.View != "union" {
		prefix = cs.View + "/"
	}
	var all = append([]c01File{}, cs.Files...)
	for i, b := range cs.Live {
		all = append(all, c01File{Key: prefix + liveKey(i), Blob: b})
	}
	for _, f := range all {
		b, err := again.ReadFile(f.Key)
		if err != nil {
			return fmt.Errorf("finalised %q: %w", f.Key, err)
		}
		if d := diffBytes(b, f.Blob.Bytes()); d != "" {
			return fmt.Errorf("content of finalised %q: %s", f.Key, d)
		}
	}
	if n := again.TagsetNum(); n != len(all) {
		return fmt.Errorf("finalised package has %d files, want %d", n, len(all))
	}
	return nil
}

// C35: consumers of file systems from the standard library.

type c35File struct {
	Key  string
	Text string // content is text repeated
	Len  int
	Time int64 // modification time in seconds, 0 if absent
	Tags []Tag `json:",omitempty"` // other tags, some before the obligatory ones
	Lead int   `json:",omitempty"`
}

func (f c35File) bytes() []byte {
	if f.Text == "" {
		return Blob{f.Len, 7}.Bytes()
	}
	return []byte(strings.Repeat(f.Text, f.Len/len(f.Text)+1)[:f.Len])
}

type c35Req struct {
	Path   string
	Head   bool              `json:",omitempty"`
	Header map[string]string `json:",omitempty"`
}

type c35Case struct {
	View  string // root, sub, union
	Split bool
	Files []c35File
	More  []c35File
	Reqs  []c35Req
	Glob  []string
}

// c35Tags are tags that must not change how the file is seen.
func c35Tags(t *rapid.T) (res []Tag) {
	var ids = rapid.SliceOfNDistinct(rapid.SampledFrom([]uint16{4, 6, 7, 8, 9, 10, 11, 14, 21, 100, 110, 111, 112, 113, 114, 115, 116, 117, 500, 65535}), 0, 6, rapid.ID[uint16]).Draw(t, "tids")
	for _, id := range ids {
		switch id {
		case 6, 7, 8:
			var tm = time.Unix(int64(ri(t, "othertime", 1, 2_000_000_000)), 0)
			if rapid.Bool().Draw(t, "wide") {
				res = append(res, Tag{id, wpk.TimeTag(tm)})
			} else {
				res = append(res, Tag{id, wpk.UnixmsTag(tm)})
			}
		case 9:
			res = append(res, Tag{id, pick(t, "attr", [][]byte{{0, 0, 0, 0x80}, {255, 1, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 8}})})
		default:
			res = append(res, Tag{id, pick(t, "val", [][]byte{{}, []byte("text/html"), []byte("dir/"), []byte("a.txt"), {1}, {0, 0, 0, 0, 1, 0, 0, 0}})})
		}
	}
	return
}

// maybeTags are such tags for a part of files.
func maybeTags(t *rapid.T) []Tag {
	if chance(t, "tagged", 30) {
		return c35Tags(t)
	}
	return nil
}

var c35Leafs = []string{"a.txt", "b.html", "index.html", "c", "d e.css", "x#y.js", "q?.png", "100%.txt", "%41.txt", "é.xml", "文.json", "z.unknown", "A.TXT", "&amp;.htm", "<b>.txt", "~t", "a+b.svg", "..a", "a..", "'q'.txt", "a:b", "+", "colon:"}
var c35Dirs = []string{"", "", "dir/", "dir/sub/", "dir2/", "d/", "sp ace/", "%2e/", "dir/index.html.d/"}
var c35Texts = []string{"", "hello world\n", "<html><body>x</body></html>", "%PDF-1.4 ", "\x89PNG\r\n\x1a\n", "{\"a\":1}", "é文", "{{.X}} "}

func genC35(t *rapid.T) (c c35Case) {
	c.View, c.Split = pick(t, "view", []string{"root", "root", "sub", "union"}), rapid.Bool().Draw(t, "split")
	var files = func(lo, hi int) (res []c35File) {
		var seen = map[string]bool{}
		for i := ri(t, "files", lo, hi); i > 0; i-- {
			var f = c35File{Key: pick(t, "dir", c35Dirs) + pick(t, "leaf", c35Leafs), Text: pick(t, "text", c35Texts)}
			f.Len = pick(t, "len", []int{0, 1, 10, 100, 511, 512, 513, 3000})
			if chance(t, "timed", 60) {
				f.Time = int64(ri(t, "time", 1, 2_000_000_000))
			}
			if chance(t, "tagged", 50) {
				f.Tags = c35Tags(t)
				f.Lead = ri(t, "lead", 0, len(f.Tags))
			}
			if !seen[f.Key] {
				seen[f.Key] = true
				res = append(res, f)
			}
		}
		return
	}
	c.Files = files(1, 10)
	if c.View == "union" {
		c.More = files(1, 5)
	}
	var names = []string{"none", "dir/none", "dir", "dir/", "", "dir2/", "dir/sub", "sp ace/", "dir//a.txt", "index.html", "dir/index.html", "dir/../a.txt", "a.txt/", "dir/./a.txt"}
	for _, f := range append(append([]c35File{}, c.Files...), c.More...) {
		names = append(names, f.Key, f.Key)
	}
	for i := ri(t, "reqs", 1, 12); i > 0; i-- {
		var r = c35Req{Path: pick(t, "path", names), Head: chance(t, "head", 20), Header: map[string]string{}}
		switch ri(t, "cond", 0, 7) {
		case 0, 1, 2:
			var a, b = ri(t, "from", 0, 600), ri(t, "to", 0, 1200)
			r.Header["Range"] = pick(t, "range", []string{
				fmt.Sprintf("bytes=%d-%d", a, b), fmt.Sprintf("bytes=%d-", a), fmt.Sprintf("bytes=-%d", a),
				fmt.Sprintf("bytes=%d-%d,%d-%d", a, a+b, b, a+b), "bytes=0-0,-1", "bytes=5-1", "chars=0-5", "bytes=9999-",
			})
			if chance(t, "ifrange", 20) {
				r.Header["If-Range"] = time.Unix(int64(ri(t, "time", 1, 2_000_000_000)), 0).UTC().Format(http.TimeFormat)
			}
		case 3:
			r.Header[pick(t, "if", []string{"If-Modified-Since", "If-Unmodified-Since"})] = time.Unix(int64(ri(t, "time", 1, 2_000_000_000)), 0).UTC().Format(http.TimeFormat)
		}
		c.Reqs = append(c.Reqs, r)
	}
	c.Glob = rapid.SliceOfN(rapid.SampledFrom([]string{"*", "*/*", "*.txt", "dir/*", "dir*/*.html", "[a-d]*", "*/*/*", "?", "none*", "%*"}), 1, 4).Draw(t, "glob")
	return
}

// stdFS makes the package and the reference of the same files.
func (cs *c35Case) stdFS(c *Ctx, mode string) (v fsAll, ref fstest.MapFS, done func(), err error) {
	ref = fstest.MapFS{}
	var pkgs []*wpk.Package
	done = func() {
		for _, p := range pkgs {
			p.Close()
		}
	}
	for i, files := range [][]c35File{cs.Files, cs.More} {
		if len(files) == 0 {
			continue
		}
		var recs [][]byte
		var body []byte
		var base = 64
		if cs.Split {
			base = 0
		}
		for _, f := range files {
			var data = f.bytes()
			var key = f.Key
			if cs.View == "sub" {
				key = "top/level/" + key
			}
			var tags = []Tag{{1, uintBytes(uint64(base + len(body)))}, {2, uintBytes(uint64(len(data)))}, {3, []byte(key)}}
			var mf = &fstest.MapFile{Data: data, Mode: 0o444}
			if f.Time > 0 {
				mf.ModTime = time.Unix(f.Time, 0)
				tags = append(tags, Tag{uint16(wpk.TIDmtime), wpk.TimeTag(mf.ModTime)})
			}
			if _, ok := ref[f.Key]; !ok {
				ref[f.Key] = mf
			}
			recs = append(recs, encTags(slices.Concat(f.Tags[:f.Lead], tags, f.Tags[f.Lead:])))
			body = append(body, data...)
		}
		if cs.View == "sub" { // neighbours
			for _, k := range []string{"top/level2/a.txt", "top/a.txt", "a.txt"} {
				recs = append(recs, encTags([]Tag{{1, uintBytes(uint64(base))}, {2, uintBytes(0)}, {3, []byte(k)}}))
			}
		}
		var wpt, wpf []byte
		var table = encTable(append([][]byte{encTags(nil)}, recs...))
		if cs.Split {
			wpt = append(rawHeader{signReady, uint64(len(recs)), 64, uint64(len(table)), 0, uint64(len(body))}.bytes(), table...)
			wpf = body
		} else {
			wpt = append(append(rawHeader{signReady, uint64(len(recs)), uint64(64 + len(body)), uint64(len(table)), 64, uint64(len(body))}.bytes(), body...), table...)
		}
		var pp, dp = saveImage(c.Dir(), fmt.Sprintf("%s%d", mode, i), cs.Split, wpt, wpf)
		p, err := openDisk(pp, dp, mode)
		if err != nil {
			return nil, nil, done, err
		}
		pkgs = append(pkgs, p)
	}
	v = pkgs[0]
	switch cs.View {
	case "union":
		v = &wpk.Union{List: pkgs}
	case "sub":
		s, err := fs.Sub(pkgs[0], "top/level")
		if err != nil {
			return nil, nil, done, err
		}
		v = s.(fsAll)
	}
	return
}

// clean drops names which are files and directories at once.
func (cs c35Case) clean() c35Case {
	var dirs = map[string]bool{}
	for _, f := range append(append([]c35File{}, cs.Files...), cs.More...) {
		for d := path.Dir(f.Key); d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	var drop = func(l []c35File) []c35File {
		return slices.DeleteFunc(slices.Clone(l), func(f c35File) bool { return dirs[f.Key] })
	}
	cs.Files, cs.More = drop(cs.Files), drop(cs.More)
	return cs
}

func runC35(c *Ctx, cs c35Case) error {
	cs = cs.clean()
	if len(cs.Files) == 0 || (cs.View == "union" && len(cs.More) == 0) {
		return nil
	}
	c.Label("view %s", cs.View)
	for _, mode := range tgrModes {
		v, ref, done, err := cs.stdFS(c, mode)
		if err != nil {
			done()
			return err
		}
		var ask = func(h http.Handler, r c35Req) (code int, head http.Header, body []byte) {
			var u = url.URL{Path: "/" + r.Path}
			var meth = http.MethodGet
			if r.Head {
				meth = http.MethodHead
			}
			var req = httptest.NewRequest(meth, "http://host/", nil)
			req.URL.Path, req.URL.RawPath = u.Path, u.EscapedPath()
			for k, val := range r.Header {
				req.Header.Set(k, val)
			}
			var rec = httptest.NewRecorder()
			h.ServeHTTP(rec, req)
			head, body = rec.Result().Header, rec.Body.Bytes()
			if mt, par, err := mime.ParseMediaType(head.Get("Content-Type")); err == nil && mt == "multipart/byteranges" {
				head.Set("Content-Type", mt)
				body = bytes.ReplaceAll(body, []byte(par["boundary"]), []byte("boundary"))
			}
			return rec.Code, head, body
		}
		for _, r := range cs.Reqs {
			c1, h1, b1 := ask(http.FileServer(http.FS(v)), r)
			c2, h2, b2 := ask(http.FileServer(http.FS(ref)), r)
			var bad error
			if c1 != c2 {
				bad = fmt.Errorf("status is %d, want %d", c1, c2)
			} else if js(h1) != js(h2) {
				bad = fmt.Errorf("answer %d has header %s, want %s", c1, js(h1), js(h2))
			} else if d := diffBytes(b1, b2); d != "" {
				bad = fmt.Errorf("answer %d: %s", c1, d)
			}
			if bad != nil {
				done()
				return fmt.Errorf("%s: request %s: %w", mode, js(r), bad)
			}
			c.Label("answer %d", c1)
			if c1 != 200 || strings.HasSuffix(r.Path, "/") {
				c.NonTrivial()
			}
		}
		done()
	}
	return nil
}

func runC35Tools(c *Ctx, cs c35Case) error {
	cs = cs.clean()
	if len(cs.Files) == 0 || (cs.View == "union" && len(cs.More) == 0) {
		return nil
	}
	c.Label("view %s", cs.View)
	for _, mode := range tgrModes {
		v, ref, done, err := cs.stdFS(c, mode)
		if err == nil {
			err = c35Tools(c, cs, v, ref, filepath.Join(c.Dir(), "copy-"+mode))
		}
		done()
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
	}
	return nil
}

// slashFS refuses names with back slashes and leading slashes, as the suite of standard library wants it.
type slashFS struct{ fsAll }

func (s slashFS) bad(name string) error {
	if strings.Contains(name, "\\") || strings.HasPrefix(name, "/") {
		return &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	return nil
}

func (s slashFS) Open(name string) (fs.File, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return s.fsAll.Open(name)
}

func (s slashFS) ReadFile(name string) ([]byte, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return s.fsAll.ReadFile(name)
}

// Glob finds directories also, unlike glob of package.
func (s slashFS) Glob(pattern string) ([]string, error) { return fs.Glob(noGlob{s.fsAll}, pattern) }

type noGlob struct{ f fsAll }

func (n noGlob) Open(name string) (fs.File, error)          { return n.f.Open(name) }
func (n noGlob) Stat(name string) (fs.FileInfo, error)      { return n.f.Stat(name) }
func (n noGlob) ReadDir(name string) ([]fs.DirEntry, error) { return n.f.ReadDir(name) }

func (s slashFS) Sub(name string) (fs.FS, error) {
	f, err := s.fsAll.Sub(name)
	if err != nil {
		return nil, err
	}
	return slashFS{f.(fsAll)}, nil
}

func c35Tools(c *Ctx, cs c35Case, v fsAll, ref fstest.MapFS, dst string) error {
	var names = sortedKeys(ref)
	var dirs = map[string]bool{}
	for _, k := range names {
		dirs[path.Dir(k)] = true
	}
	if len(dirs) > 1 || len(names) > 2 {
		c.NonTrivial()
	}
	// walk
	type ent struct {
		P, N string
		D    bool
		T    fs.FileMode
		S    int64
		M    int64
	}
	var walk = func(f fs.FS) (res []ent, err error) {
		err = fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			fi, err := d.Info()
			if err != nil {
				return err
			}
			var e = ent{p, d.Name(), d.IsDir(), d.Type(), 0, fi.ModTime().Unix()}
			if fi.IsDir() != d.IsDir() || fi.Name() != d.Name() || fi.Mode().Type() != d.Type() {
				return fmt.Errorf("entry %q differs from its information", p)
			}
			if !d.IsDir() {
				e.S = fi.Size()
			}
			if p == "." { // the name of the root is a matter of taste
				e.N = ""
			}
			res = append(res, e)
			return nil
		})
		return
	}
	w1, err := walk(v)
	if err != nil {
		return fmt.Errorf("walk: %w", err)
	}
	w2, err := walk(ref)
	must(err)
	if !slices.Equal(w1, w2) {
		return fmt.Errorf("walk gives %s, want %s", js(w1), js(w2))
	}
	// the suite of standard library, except for its expectations about back slashes
	if err := fstest.TestFS(slashFS{v}, names...); err != nil {
		return err
	}
	// zip
	var buf bytes.Buffer
	var zw = zip.NewWriter(&buf)
	if err := zw.AddFS(v); err != nil {
		return fmt.Errorf("zip: %w", err)
	}
	must(zw.Close())
	zr, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	if err != nil {
		return fmt.Errorf("zip: %w", err)
	}
	var got = map[string]string{}
	for _, f := range zr.File {
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		r, err := f.Open()
		if err != nil {
			return fmt.Errorf("zip: %w", err)
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return fmt.Errorf("zip: %w", err)
		}
		got[f.Name] = string(b)
	}
	var want = map[string]string{}
	for k, f := range ref {
		want[k] = string(f.Data)
	}
	if err := diffTrees(got, want); err != nil {
		return fmt.Errorf("zip: %w", err)
	}
	// tar
	buf.Reset()
	var tw = tar.NewWriter(&buf)
	if err := tw.AddFS(v); err != nil {
		return fmt.Errorf("tar: %w", err)
	}
	must(tw.Close())
	got = map[string]string{}
	var tr = tar.NewReader(&buf)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("tar: %w", err)
		}
		if h.Typeflag == tar.TypeDir {
			continue
		}
		b, err := io.ReadAll(tr)
		if err != nil {
			return fmt.Errorf("tar: %w", err)
		}
		if f := ref[h.Name]; f != nil && !f.ModTime.IsZero() && h.ModTime.Unix() != f.ModTime.Unix() {
			return fmt.Errorf("tar: time of %q is %v, want %v", h.Name, h.ModTime, f.ModTime)
		}
		got[h.Name] = string(b)
	}
	if err := diffTrees(got, want); err != nil {
		return fmt.Errorf("tar: %w", err)
	}
	// copy to disk
	if err := os.CopyFS(dst, v); err != nil {
		return fmt.Errorf("copy: %w", err)
	}
	disk, _ := readTree(dst)
	if err := diffTrees(disk, want); err != nil {
		return fmt.Errorf("copy: %w", err)
	}
	// patterns
	for _, g := range cs.Glob {
		l1, err := fs.Glob(v, g)
		if err != nil {
			return fmt.Errorf("glob %q: %w", g, err)
		}
		l2, err := fs.Glob(ref, g)
		must(err)
		l2 = slices.DeleteFunc(l2, func(k string) bool { return ref[k] == nil }) // files only
		if !slices.Equal(sorted(l1), sorted(l2)) {
			return fmt.Errorf("glob %q gives %q, want %q", g, l1, l2)
		}
		if len(l2) > 0 {
			t1, err1 := template.ParseFS(v, g)
			t2, err2 := template.ParseFS(fstest.MapFS(ref), g)
			// directories among the matches of the reference are its error
			if err2 == nil {
				if err1 != nil {
					return fmt.Errorf("templates %q: %w", g, err1)
				}
				var d1, d2 = t1.DefinedTemplates(), t2.DefinedTemplates()
				if len(d1) != len(d2) {
					return fmt.Errorf("templates %q: %s, want %s", g, d1, d2)
				}
			}
		}
	}
	// subdirectories
	for _, d := range sortedKeys(dirs) {
		s1, err := fs.Sub(v, d)
		if err != nil {
			return fmt.Errorf("sub %q: %w", d, err)
		}
		s2, err := fs.Sub(ref, d)
		must(err)
		w1, err := walk(s1)
		if err != nil {
			return fmt.Errorf("walk of sub %q: %w", d, err)
		}
		w2, err := walk(s2)
		must(err)
		if !slices.Equal(w1, w2) {
			return fmt.Errorf("walk of sub %q gives %s, want %s", d, js(w1), js(w2))
		}
	}
	// handles
	for _, k := range names {
		f, err := v.Open(k)
		if err != nil {
			return err
		}
		err = iotest.TestReader(f, ref[k].Data)
		f.Close()
		if err != nil {
			return fmt.Errorf("file %q: %w", k, err)
		}
	}
	return nil
}
