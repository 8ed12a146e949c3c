package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Packages with positions and sizes beyond 4 GiB, held as sparse files.

func init() {
	reg("C01", "huge",
		"case: layout and 1..4 files, some of contents up to 34 GiB that are mostly holes, packed to a sparse writer, finalised and reopened by the quick reader and by opening; compared: names, sizes, positions of content. Non-trivial: the data passes over 4 GiB.",
		1500, 20000, func(t *rapid.T) farCase { return genFar(t, 1, true) },
		func(c *Ctx, cs farCase) error { return runFar(c, cs, true) })
	reg("C02", "far",
		"case: independently encoded or packed base with files placed behind gaps of up to 34 GiB and content of the same size with holes, 1..3 append sessions of 0..5 operations (put, alias, rename, delete, set tag, flush when split); after each finalise the sparse package is reopened and compared with the model. Non-trivial: at least one append session at positions over 4 GiB.",
		3000, 60000, func(t *rapid.T) farCase { return genFar(t, 3, false) },
		func(c *Ctx, cs farCase) error { return runFar(c, cs, false) })
	reg("C10", "far",
		"case: independently encoded single or split package with files behind gaps of up to 34 GiB, saved as sparse file, and 1..10 readings by open, seek, random access and whole reading through mapping and file sections. Non-trivial: a file behind 4 GiB is read.",
		1500, 30000, genFarRead, runFarRead)
}

const sparsePage = 1 << 12

var zeroPage [sparsePage]byte

// farStreamed is the number of bytes that were copied through, if the code
// under test does not take the shortcut of farReader.
var farStreamed int64

// farBudget is how much can be copied through before holes become short.
const farBudget = 40 << 30

// Sparse is a file of pages.
type Sparse struct {
	pages map[int64][]byte
	size  int64
	pos   int64
}

func newSparse() *Sparse { return &Sparse{pages: map[int64][]byte{}} }

// WriteAt skips nothing, but writing of zeros to absent page does not create it.
func (s *Sparse) WriteAt(p []byte, off int64) (n int, err error) {
	for n < len(p) {
		var no, in = (off + int64(n)) / sparsePage, int((off + int64(n)) % sparsePage)
		var k = min(sparsePage-in, len(p)-n)
		var page = s.pages[no]
		if page == nil && !bytes.Equal(p[n:n+k], zeroPage[:k]) {
			page = make([]byte, sparsePage)
			s.pages[no] = page
		}
		if page != nil {
			copy(page[in:], p[n:n+k])
		}
		n += k
	}
	s.size = max(s.size, off+int64(len(p)))
	return
}

// clear makes the hole.
func (s *Sparse) clear(off, n int64) {
	for no, page := range s.pages {
		var a, b = max(off-no*sparsePage, 0), min(off+n-no*sparsePage, sparsePage)
		if a < b {
			clear(page[a:b])
		}
	}
	s.size = max(s.size, off+n)
}

func (s *Sparse) Write(p []byte) (n int, err error) {
	n, err = s.WriteAt(p, s.pos)
	s.pos += int64(n)
	return
}

func (s *Sparse) ReadAt(p []byte, off int64) (n int, err error) {
	if off < 0 {
		return 0, errors.New("negative position")
	}
	for n < len(p) && off+int64(n) < s.size {
		var no, in = (off + int64(n)) / sparsePage, int((off + int64(n)) % sparsePage)
		var k = int(min(int64(min(sparsePage-in, len(p)-n)), s.size-off-int64(n)))
		if page := s.pages[no]; page != nil {
			copy(p[n:n+k], page[in:])
		} else {
			clear(p[n : n+k])
		}
		n += k
	}
	if n < len(p) {
		err = io.EOF
	}
	return
}

func (s *Sparse) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

// reader gives content of the file.
func (s *Sparse) reader() *io.SectionReader { return io.NewSectionReader(s, 0, s.size) }

// save writes pages that are not empty.
func (s *Sparse) save(fpath string) {
	f, err := os.Create(fpath)
	must(err)
	defer f.Close()
	must(f.Truncate(s.size))
	for no, page := range s.pages {
		_, err = f.WriteAt(page[:min(sparsePage, s.size-no*sparsePage)], no*sparsePage)
		must(err)
	}
}

// farBlob is content with zeros inside.
type farBlob struct {
	Head Blob
	Hole int64
	Tail Blob
}

func (b farBlob) size() int64 { return int64(b.Head.Len) + b.Hole + int64(b.Tail.Len) }

func (b farBlob) writeAt(s *Sparse, off int64) {
	s.WriteAt(b.Head.Bytes(), off)
	s.clear(off+int64(b.Head.Len), b.Hole)
	s.WriteAt(b.Tail.Bytes(), off+int64(b.Head.Len)+b.Hole)
}

// small gives the content without holes.
func (b farBlob) small() []byte { return append(b.Head.Bytes(), b.Tail.Bytes()...) }

// ref gives sparse copy of the content.
func (b farBlob) ref() *Sparse {
	var s = newSparse()
	b.writeAt(s, 0)
	return s
}

// farReader gives the content and makes holes in sparse writer at once.
type farReader struct {
	b   farBlob
	ref *io.SectionReader
}

func newFarReader(b farBlob) *farReader { return &farReader{b, b.ref().reader()} }

func (r *farReader) Read(p []byte) (n int, err error) {
	n, err = r.ref.Read(p)
	farStreamed += int64(n)
	return
}

func (r *farReader) WriteTo(w io.Writer) (n int64, err error) {
	if s, ok := w.(*Sparse); ok {
		r.b.writeAt(s, s.pos)
		s.pos += r.b.size()
		return r.b.size(), nil
	}
	return io.Copy(w, r.ref)
}

// probes are positions with lengths that are compared.
func (b farBlob) probes() (list [][2]int64) {
	var size = b.size()
	var add = func(at, n int64) {
		at = max(at, 0)
		if n = min(n, size-at); n > 0 {
			list = append(list, [2]int64{at, n})
		}
	}
	if b.Hole == 0 {
		add(0, size)
		return
	}
	add(0, int64(b.Head.Len)+16)
	add(int64(b.Head.Len)+b.Hole-16, int64(b.Tail.Len)+16)
	for at := int64(1) << 30; at < size; at += 1 << 30 {
		add(at-8, 16)
	}
	return
}

func (b farBlob) same(r io.ReaderAt, base int64) error {
	var ref = b.ref()
	for _, p := range b.probes() {
		var want, got = make([]byte, p[1]), make([]byte, p[1])
		ref.ReadAt(want, p[0])
		if n, err := r.ReadAt(got, base+p[0]); n < len(got) {
			return fmt.Errorf("reading of %d bytes at %d: %d, %w", p[1], p[0], n, err)
		}
		if d := diffBytes(got, want); d != "" {
			return fmt.Errorf("content at %d: %s", p[0], d)
		}
	}
	return nil
}

type farFile struct {
	Key  string
	Gap  int64 // free space before
	Blob farBlob
}

type farOp struct {
	K    string
	A    string  `json:",omitempty"`
	B    string  `json:",omitempty"`
	Blob farBlob `json:",omitempty"`
	Val  []byte  `json:",omitempty"`
}

type farSess struct {
	Reopen bool
	Ops    []farOp
}

type farCase struct {
	Mode int
	Base []farFile // independently encoded package, if it's given
	Tail int64     // free space after the files in data region
	Sess []farSess
}

var farGaps = []int64{0, 1<<31 - 100, 1 << 31, 1<<32 - 200, 1 << 32, 1<<32 + 65536, 1 << 33, 1 << 35}

func genFarGap(t *rapid.T, label string) int64 {
	var g = pick(t, label, farGaps)
	if g > 0 {
		g += int64(ri(t, label+" delta", -150, 70000))
	}
	return g
}

func genFarBlob(t *rapid.T, percent int) (b farBlob) {
	b.Head = genBlob(t, false)
	if chance(t, "hole", percent) {
		b.Hole = genFarGap(t, "hole size")
		if farStreamed > farBudget {
			b.Hole = min(b.Hole, 1<<16)
		} else if farStreamed > 1<<20 {
			b.Hole = min(b.Hole, 1<<32+1<<16)
		}
		b.Tail = genBlob(t, false)
	}
	return
}

func genFar(t *rapid.T, maxSess int, fresh bool) (c farCase) {
	c.Mode = ri(t, "mode", 0, 2)
	var g = &histGen{small: true}
	var kinds = []string{"put", "put", "put", "alias", "rename", "del", "settag"}
	if c.Mode == modeSplit {
		kinds = append(kinds, "flush")
	}
	var percent = 30
	if fresh {
		kinds, percent = []string{"put"}, 60
	} else if chance(t, "base", 75) {
		var n = ri(t, "files", 0, 3)
		for i := 0; i < n; i++ {
			var f = farFile{Key: g.key(t), Gap: genFarGap(t, "gap"), Blob: genFarBlob(t, 15)}
			if !g.has(f.Key) {
				g.add(f.Key)
				c.Base = append(c.Base, f)
			}
		}
		if rapid.Bool().Draw(t, "end gap") {
			c.Tail = genFarGap(t, "tail")
		}
	}
	var n = ri(t, "sessions", 1, maxSess)
	for i := 0; i < n; i++ {
		var s = farSess{Reopen: rapid.Bool().Draw(t, "reopen")}
		var k = ri(t, "ops", 0, 4)
		for j := 0; j < k; j++ {
			var op = farOp{K: pick(t, "op", kinds)}
			switch op.K {
			case "put":
				op.A, op.Blob = g.fresh(t), genFarBlob(t, percent)
				g.add(op.A)
			case "alias", "rename":
				op.A, op.B = g.old(t), g.fresh(t)
				if g.has(op.A) && !g.has(op.B) {
					g.add(op.B)
					if op.K == "rename" {
						g.rm(op.A)
					}
				}
			case "del":
				op.A = g.old(t)
				g.rm(op.A)
			case "settag":
				op.A, op.Val = g.old(t), []byte(pick(t, "val", []string{"", "x", "longer value"}))
			}
			s.Ops = append(s.Ops, op)
		}
		c.Sess = append(c.Sess, s)
	}
	return
}

// encFar makes sparse package.
func encFar(files []farFile, tail int64, split bool) (wpt, wpf *Sparse, datlen int64) {
	wpt, wpf = newSparse(), newSparse()
	var dat, pos = wpt, int64(64)
	if split {
		dat, pos = wpf, 0
	}
	var base = pos
	var recs = [][]byte{nil}
	for _, f := range files {
		pos += f.Gap
		f.Blob.writeAt(dat, pos)
		recs = append(recs, encTags([]Tag{{1, uintBytes(uint64(pos))}, {2, uintBytes(uint64(f.Blob.size()))}, {3, []byte(f.Key)}}))
		pos += f.Blob.size()
	}
	pos += tail
	dat.clear(pos, 0)
	var table = encTable(recs)
	var h = rawHeader{signReady, uint64(len(files)), 64, uint64(len(table)), uint64(base), uint64(pos - base)}
	if !split {
		h.FttOffset = uint64(pos)
	}
	wpt.WriteAt(h.bytes(), 0)
	wpt.WriteAt(table, int64(h.FttOffset))
	return wpt, wpf, pos - base
}

type farEnt struct {
	key  string
	blob farBlob
	val  []byte
	has  bool
}

func runFar(c *Ctx, cs farCase, huge bool) error {
	var split = cs.Mode == modeSplit
	var ents []*farEnt
	var find = func(key string) int {
		return slices.IndexFunc(ents, func(e *farEnt) bool { return e.key == key })
	}
	var pkg = wpk.NewPackage()
	var wpt, wpf, datlen = encFar(cs.Base, cs.Tail, split)
	var begun bool
	if len(cs.Base) == 0 && cs.Tail == 0 {
		wpt, wpf, datlen = newSparse(), newSparse(), 0
	} else {
		begun = true
		if err := pkg.OpenStream(wpt.reader()); err != nil {
			return fmt.Errorf("opening of the base: %w", err)
		}
		for _, f := range cs.Base {
			ents = append(ents, &farEnt{key: f.Key, blob: f.Blob})
		}
	}
	var data = wpt
	if split {
		data = wpf
	}
	var parts = func() (io.WriteSeeker, io.WriteSeeker) {
		switch cs.Mode {
		case modeSingleNil:
			return wpt, nil
		case modeSingleSame:
			return wpt, wpt
		}
		return wpt, wpf
	}
	var check = func() error {
		hdr, _, err := wpk.GetPackageInfo(wpt.reader())
		if err != nil {
			return fmt.Errorf("quick reader: %w", err)
		}
		if hdr.Count() != len(ents) || int64(hdr.DataSize()) != datlen {
			return fmt.Errorf("quick reader: %d entries of %d bytes, want %d of %d", hdr.Count(), hdr.DataSize(), len(ents), datlen)
		}
		var p = wpk.NewPackage()
		if err = p.OpenStream(wpt.reader()); err != nil {
			return fmt.Errorf("open: %w", err)
		}
		if p.TagsetNum() != len(ents) || int64(p.DataSize()) != datlen || p.IsSplitted() != split {
			return fmt.Errorf("open: %d entries of %d bytes, want %d of %d", p.TagsetNum(), p.DataSize(), len(ents), datlen)
		}
		var i int
		p.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			var e = ents[i]
			i++
			if fkey != e.key {
				err = fmt.Errorf("file %d is %q, want %q", i-1, fkey, e.key)
				return false
			}
			var off, size = ts.Pos()
			if int64(size) != e.blob.size() || ts.Size() != e.blob.size() {
				err = fmt.Errorf("%q: size is %d, want %d", fkey, size, e.blob.size())
				return false
			}
			if err = e.blob.same(data, int64(off)); err != nil {
				err = fmt.Errorf("%q: %w", fkey, err)
				return false
			}
			if v, ok := ts.Get(300); ok != e.has || !bytes.Equal(v, e.val) {
				err = fmt.Errorf("%q: tag is %q, %v, want %q, %v", fkey, v, ok, e.val, e.has)
				return false
			}
			return true
		})
		return err
	}
	for i, s := range cs.Sess {
		var a, b = parts()
		if !begun {
			if err := pkg.Begin(a, b); err != nil {
				return fmt.Errorf("begin: %w", err)
			}
			begun = true
		} else {
			if s.Reopen {
				pkg = wpk.NewPackage()
				if err := pkg.OpenStream(wpt.reader()); err != nil {
					return fmt.Errorf("session %d: %w", i, err)
				}
			}
			wpt.pos, wpf.pos = 0, 0
			if err := pkg.Append(a, b); err != nil {
				return fmt.Errorf("session %d: append: %w", i, err)
			}
			if datlen > 1<<32 {
				c.NonTrivial()
			}
		}
		for j, op := range s.Ops {
			var at = fmt.Sprintf("session %d operation %d (%s)", i, j, op.K)
			c.Label("op %s", op.K)
			var x, y = find(op.A), find(op.B)
			var err error
			var want = "ok"
			switch op.K {
			case "put":
				_, err = pkg.PackData(data, newFarReader(op.Blob), op.A)
				if x >= 0 {
					want = "exist"
				} else {
					ents = append(ents, &farEnt{key: op.A, blob: op.Blob})
					datlen += op.Blob.size()
				}
			case "alias", "rename":
				if op.K == "alias" {
					err = pkg.PutAlias(op.A, op.B)
				} else {
					err = pkg.Rename(op.A, op.B)
				}
				if x < 0 {
					want = "notexist"
				} else if y >= 0 {
					want = "exist"
				} else {
					var e = *ents[x]
					e.key = op.B
					if op.K == "rename" {
						ents = slices.Delete(ents, x, x+1)
					}
					ents = append(ents, &e)
				}
			case "del":
				if _, ok := pkg.DelTagset(op.A); ok != (x >= 0) {
					return fmt.Errorf("%s: %v", at, ok)
				}
				if x >= 0 {
					ents = slices.Delete(ents, x, x+1)
				}
			case "settag":
				if x >= 0 {
					ts, _ := pkg.GetTagset(op.A)
					pkg.SetTagset(op.A, wpk.CopyTagset(ts).Set(300, op.Val))
					ents[x].val, ents[x].has = op.Val, true
				}
			case "flush":
				if err = pkg.Sync(a, b); err == nil {
					err = check()
				}
			}
			if got := errClass(err); got != want {
				return fmt.Errorf("%s: got %v, want %s", at, err, want)
			}
		}
		if err := pkg.Sync(a, b); err != nil {
			return fmt.Errorf("session %d: finalise: %w", i, err)
		}
		if err := check(); err != nil {
			return fmt.Errorf("after session %d: %w", i, err)
		}
		if i == 0 && len(cs.Base) == 0 && datlen > 1<<32 {
			c.Label("packed over 4G")
			if huge {
				c.NonTrivial()
			}
		}
	}
	c.Label("mode %d", cs.Mode)
	if datlen > 1<<32 {
		c.Label("data over 4G")
	}
	return nil
}

type farReadOp struct {
	File int
	K    string
	At   int64 // from the begin, or from the end if it's negative
	N    int
}

type farReadCase struct {
	Split bool
	Sub   bool
	Files []farFile
	Ops   []farReadOp
}

func genFarRead(t *rapid.T) (c farReadCase) {
	c.Split, c.Sub = rapid.Bool().Draw(t, "split"), rapid.Bool().Draw(t, "sub")
	var n = ri(t, "files", 1, 4)
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, farFile{Key: fmt.Sprintf("ws/f%d.bin", i), Gap: genFarGap(t, "gap"), Blob: genFarBlob(t, 15)})
	}
	for i := ri(t, "opsnum", 1, 10); i > 0; i-- {
		var op = farReadOp{File: ri(t, "file", 0, n-1), K: pick(t, "k", []string{"whole", "whole", "readat", "seek", "stat"})}
		op.N = pick(t, "n", []int{1, 5, 64, 4096, 70000})
		op.At = int64(ri(t, "at", -100, 100))
		if b := c.Files[op.File].Blob; b.Hole > 0 && rapid.Bool().Draw(t, "hole end") {
			op.At = int64(b.Head.Len) + b.Hole + int64(ri(t, "at2", -50, 50))
		}
		c.Ops = append(c.Ops, op)
	}
	return
}

func runFarRead(c *Ctx, cs farReadCase) error {
	var wpt, wpf, _ = encFar(cs.Files, 0, cs.Split)
	var pp = filepath.Join(c.Dir(), "p.wpt")
	var dp = pp
	wpt.save(pp)
	if cs.Split {
		dp = filepath.Join(c.Dir(), "p.wpf")
		wpf.save(dp)
	}
	for _, mode := range []string{"mmap", "fsys"} {
		root, err := openDisk(pp, dp, mode)
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
		err = farRead(c, cs, root)
		root.Close()
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
	}
	var pos int64
	for i, f := range cs.Files {
		pos += f.Gap
		if pos >= 1<<32 && slices.ContainsFunc(cs.Ops, func(op farReadOp) bool { return op.File == i && op.K != "stat" }) {
			c.NonTrivial()
		}
		pos += f.Blob.size()
	}
	return nil
}

func farRead(c *Ctx, cs farReadCase, root *wpk.Package) error {
	var pkg = root
	if cs.Sub {
		s, err := root.Sub("ws")
		if err != nil {
			return err
		}
		pkg = s.(*wpk.Package)
	}
	for i, op := range cs.Ops {
		var file = cs.Files[op.File]
		var name = file.Key
		if cs.Sub {
			name = strings.TrimPrefix(name, "ws/")
		}
		var size = file.Blob.size()
		var at = fmt.Sprintf("operation %d (%s at=%d n=%d) on %q of %d bytes", i, op.K, op.At, op.N, file.Key, size)
		c.Label("op %s", op.K)
		if op.K == "whole" && file.Blob.Hole == 0 {
			b, err := pkg.ReadFile(name)
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			if d := diffBytes(b, file.Blob.small()); d != "" {
				return fmt.Errorf("%s: %s", at, d)
			}
			continue
		}
		if op.K == "stat" {
			fi, err := fs.Stat(pkg, name)
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			if fi.Size() != size || fi.IsDir() || fi.Name() != filepath.Base(name) {
				return fmt.Errorf("%s: size %d, dir %v, name %q", at, fi.Size(), fi.IsDir(), fi.Name())
			}
			continue
		}
		f, err := pkg.Open(name)
		if errors.Is(err, syscall.ENOMEM) && file.Blob.Hole > 0 {
			c.Label("no address space to map the hole") // limit of the environment
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		err = func() error {
			var rf = f.(wpk.RFile)
			if end, err := rf.Seek(0, io.SeekEnd); err != nil || end != size {
				return fmt.Errorf("end is %d, %v", end, err)
			}
			if op.K == "whole" {
				return file.Blob.same(rf, 0)
			}
			var ref = file.Blob.ref()
			var off = op.At
			if off < 0 {
				off += size
			}
			off = max(off, 0)
			var want, got = make([]byte, op.N), make([]byte, op.N)
			wn, _ := ref.ReadAt(want, off)
			var n int
			var err error
			if op.K == "readat" {
				n, err = rf.ReadAt(got, off)
			} else {
				var pos int64
				if op.At < 0 && size+op.At >= 0 {
					pos, err = rf.Seek(op.At, io.SeekEnd)
				} else {
					pos, err = rf.Seek(off, io.SeekStart)
				}
				if err != nil || pos != off {
					return fmt.Errorf("position is %d, %v, want %d", pos, err, off)
				}
				n, err = io.ReadFull(rf, got)
			}
			if n != wn {
				return fmt.Errorf("%d bytes, %v, want %d", n, err, wn)
			}
			if d := diffBytes(got[:n], want[:wn]); d != "" {
				return errors.New(d)
			}
			return nil
		}()
		if e := f.Close(); err == nil && e != nil {
			err = fmt.Errorf("closing: %w", e)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
	}
	return nil
}
