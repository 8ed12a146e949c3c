package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
	"pgregory.net/rapid"
)

// C16: concurrent packing and reading.

type c16Op struct {
	K     string
	A     string `json:",omitempty"`
	Blob  Blob   `json:",omitempty"`
	Frag  []int  `json:",omitempty"` // pieces of the data stream
	Yield []int  `json:",omitempty"` // what to do between the pieces: 0 nothing, 1 Gosched, >1 sleep microseconds
	Tags  []Tag  `json:",omitempty"`
	Form  int    `json:",omitempty"` // 1: name with back slashes, 2: through the package of subdirectory
}

type c16Case struct {
	Split   bool
	Parsed  bool // package is opened from bytes and extended
	Pre     []c01File
	Workers [][]c16Op
}

func init() {
	reg("C16", "concurrent", "at least two goroutines pack files at the same time", 400, 8000, genC16, runC16)
	reg("C17", "model", "overwriting, deletion or removal of the last on a non-empty map, or changes during iteration", 3000, 60000, genC17, runC17)
	reg("C17", "concurrent", "at least two goroutines change the map", 2000, 60000, genC17c, runC17c)
	reg("C18", "header", "all header fields are arbitrary", 10000, 200000, genC18h, runC18h)
	reg("C18", "table", "table with at least one file or package information", 1500, 30000, genC18t, runC18t)
	reg("C18", "values", "stream with more than one value delivered by pieces", 20000, 400000, genC18v, runC18v)
}

func genPieces(t *rapid.T) (frag, yield []int) {
	frag = rapid.SliceOfN(rapid.IntRange(1, 40), 0, 4).Draw(t, "frag")
	for range frag {
		yield = append(yield, pick(t, "yield", []int{0, 1, 1, 2, 50}))
	}
	return
}

func genC16(t *rapid.T) (c c16Case) {
	c.Split, c.Parsed = rapid.Bool().Draw(t, "split"), rapid.Bool().Draw(t, "parsed")
	var dup = []string{"img/dup", "dup", "img/d/dup2"}
	if chance(t, "pre", 60) {
		c.Pre = genSmallFiles(t, 3)
	}
	if chance(t, "predup", 10) {
		c.Pre = append(c.Pre, c01File{Key: "dup", Blob: Blob{5, 77}})
	}
	var n = ri(t, "workers", 2, 6)
	var kinds = []string{"pack", "pack", "pack", "packfile", "packdup", "packdup", "lookup", "enum", "list", "glob", "stat", "info", "getinfo", "size", "num"}
	if c.Split {
		kinds = append(kinds, "flush")
	}
	for w := 0; w < n; w++ {
		var ops []c16Op
		var k = ri(t, "ops", 1, 7)
		for i := 0; i < k; i++ {
			var op = c16Op{K: pick(t, "op", kinds)}
			switch op.K {
			case "pack", "packfile":
				op.A = fmt.Sprintf("%sw%d-%d", pick(t, "dir", []string{"", "img/", "img/d/"}), w, i)
				op.Blob = Blob{ri(t, "len", 0, 200), uint32(1 + w*100 + i)}
				op.Frag, op.Yield = genPieces(t)
				op.Form = pick(t, "form", []int{0, 0, 0, 1, 2})
				if chance(t, "tagged", 25) {
					op.Tags = []Tag{{300, []byte{byte(w), byte(i)}}}
				}
			case "packdup":
				op.A = pick(t, "dup", dup)
				op.Blob = Blob{ri(t, "len", 1, 100), uint32(1 + w*100 + i)}
				op.Frag, op.Yield = genPieces(t)
				op.Form = pick(t, "form", []int{0, 0, 0, 1, 2})
				if rapid.Bool().Draw(t, "asfile") {
					op.K = "packdupfile"
				}
			case "lookup", "stat":
				op.A = pick(t, "name", append([]string{"w0", "img/w1-0", "w1-1", "w0-0", "img/d/w2-2", "img"}, dup...))
			case "list":
				op.A = pick(t, "dir", []string{".", "img", "img/d"})
			case "glob":
				op.A = pick(t, "glob", []string{"*", "img/*", "*/d/*"})
			case "info":
				op.Tags = []Tag{{110, []byte(fmt.Sprintf("info %d %d", w, i))}}
			}
			ops = append(ops, op)
		}
		c.Workers = append(c.Workers, ops)
	}
	return
}

// yieldReader is a stream that lets other goroutines run between its pieces.
type yieldReader struct {
	b     []byte
	frag  []int
	yield []int
	i     int
}

func (r *yieldReader) Read(p []byte) (int, error) {
	var k, y = len(p), 0
	if len(r.frag) > 0 {
		k, y = min(k, r.frag[r.i%len(r.frag)]), r.yield[r.i%len(r.yield)]
		r.i++
	}
	switch {
	case y == 1:
		runtime.Gosched()
	case y > 1:
		time.Sleep(time.Duration(y) * time.Microsecond)
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	var n = copy(p[:k], r.b)
	r.b = r.b[n:]
	return n, nil
}

// memInfo and memFSFile is file of a file system in memory.
type memInfo struct {
	name  string
	size  int64
	mtime time.Time
	sys   any
}

func (fi memInfo) Name() string       { return fi.name }
func (fi memInfo) Size() int64        { return fi.size }
func (fi memInfo) Mode() fs.FileMode  { return 0o644 }
func (fi memInfo) ModTime() time.Time { return fi.mtime }
func (fi memInfo) IsDir() bool        { return false }
func (fi memInfo) Sys() any           { return fi.sys }

type memFSFile struct {
	io.Reader
	fi memInfo
}

func (f memFSFile) Stat() (fs.FileInfo, error) { return f.fi, nil }
func (f memFSFile) Close() error               { return nil }

var c16Time = time.Unix(1700000000, 123456789)

func runC16(c *Ctx, cs c16Case) error {
	var order []int
	for i := range cs.Pre {
		order = append(order, i)
	}
	r, err := rigOf(cs.Split, cs.Parsed, cs.Pre, order)
	if err != nil {
		return err
	}
	type result struct {
		op  c16Op
		err error // returned by the package
		bad error // violation seen by the operation
	}
	var pre = map[string]bool{}
	for _, f := range cs.Pre {
		pre[f.Key] = true
	}
	var known = map[string]bool{}
	for k := range pre {
		known[k] = true
	}
	for _, w := range cs.Workers {
		for _, op := range w {
			if strings.HasPrefix(op.K, "pack") {
				known[op.A] = true
			}
		}
	}
	var lens = map[string]map[int64]bool{}
	for _, f := range cs.Pre {
		lens[f.Key] = map[int64]bool{int64(f.Blob.Len): true}
	}
	for _, w := range cs.Workers {
		for _, op := range w {
			if strings.HasPrefix(op.K, "pack") {
				if lens[op.A] == nil {
					lens[op.A] = map[int64]bool{}
				}
				lens[op.A][int64(op.Blob.Len)] = true
			}
		}
	}
	var checkTs = func(key string, ts wpk.TagsetRaw) error {
		var tsi = ts.Iterator()
		for tsi.Next() {
		}
		if tsi.Failed() {
			return fmt.Errorf("tagset of %q is broken", key)
		}
		if ts.Path() != key {
			return fmt.Errorf("tagset of %q has path %q", key, ts.Path())
		}
		if !lens[key][ts.Size()] {
			return fmt.Errorf("tagset of %q has size %d", key, ts.Size())
		}
		return nil
	}
	var allInfo = map[string]bool{"": true}
	for _, w := range cs.Workers {
		for _, op := range w {
			if op.K == "info" {
				allInfo[string(tagset(op.Tags))] = true
			}
		}
	}
	var do = func(op c16Op, packed map[string]bool, size *uint) (res result) {
		res.op = op
		var pkg, name = r.pkg, op.A
		if strings.HasPrefix(op.K, "pack") {
			if op.Form == 1 {
				name = strings.ReplaceAll(name, "/", "\\")
			} else if op.Form == 2 && strings.HasPrefix(name, "img/") {
				pkg, name = &wpk.Package{FTT: r.pkg.FTT, Workspace: "img"}, name[4:]
			}
		}
		switch op.K {
		case "pack", "packdup":
			var ts wpk.TagsetRaw
			ts, res.err = pkg.PackData(r.data(), &yieldReader{b: op.Blob.Bytes(), frag: op.Frag, yield: op.Yield}, name)
			if res.err == nil {
				res.bad = checkTs(op.A, ts)
			}
		case "packfile", "packdupfile":
			var f = memFSFile{&yieldReader{b: op.Blob.Bytes(), frag: op.Frag, yield: op.Yield}, memInfo{name: "x", size: int64(op.Blob.Len), mtime: c16Time}}
			var ts wpk.TagsetRaw
			ts, res.err = pkg.PackFile(r.data(), f, name)
			if res.err == nil {
				res.bad = checkTs(op.A, ts)
			}
		case "lookup":
			ts, ok := r.pkg.GetTagset(op.A)
			if ok {
				res.bad = checkTs(op.A, ts)
			} else if r.pkg.HasTagset(op.A) && !known[op.A] {
				res.bad = fmt.Errorf("unknown %q is present", op.A)
			} else if pre[op.A] || packed[op.A] {
				res.bad = fmt.Errorf("%q is not found", op.A)
			}
		case "stat":
			fi, err := r.pkg.Stat(op.A)
			if err != nil && (pre[op.A] || packed[op.A]) {
				res.bad = fmt.Errorf("stat of %q: %w", op.A, err)
			}
			if err == nil && !fi.IsDir() && !lens[op.A][fi.Size()] {
				res.bad = fmt.Errorf("stat of %q gives size %d", op.A, fi.Size())
			}
		case "enum":
			var seen = map[string]bool{}
			r.pkg.Enum(func(key string, ts wpk.TagsetRaw) bool {
				if seen[key] {
					res.bad = fmt.Errorf("%q is enumerated twice", key)
				} else if !known[key] {
					res.bad = fmt.Errorf("unknown %q is enumerated", key)
				} else if err := checkTs(key, ts); err != nil {
					res.bad = err
				}
				seen[key] = true
				return res.bad == nil
			})
			for k := range pre {
				if res.bad == nil && !seen[k] {
					res.bad = fmt.Errorf("%q is not enumerated", k)
				}
			}
			for k := range packed {
				if res.bad == nil && !seen[k] {
					res.bad = fmt.Errorf("%q is packed but not enumerated", k)
				}
			}
		case "list":
			list, _ := r.pkg.ReadDir(op.A)
			var seen = map[string]bool{}
			for _, de := range list {
				var name = joinName(op.A, de.Name())
				if seen[name] {
					res.bad = fmt.Errorf("%q is listed twice", name)
				}
				seen[name] = true
				if !de.IsDir() && !known[name] {
					res.bad = fmt.Errorf("unknown %q is listed", name)
				}
			}
			for k := range packed {
				if i := strings.LastIndexByte(k, '/'); res.bad == nil && !seen[k] && ((i < 0 && op.A == ".") || (i > 0 && k[:i] == op.A)) {
					res.bad = fmt.Errorf("%q is packed but not listed", k)
				}
			}
		case "glob":
			list, err := r.pkg.Glob(op.A)
			if err != nil {
				res.bad = err
			}
			for _, k := range list {
				if !known[k] {
					res.bad = fmt.Errorf("unknown %q at glob", k)
				}
			}
		case "num":
			if n := r.pkg.TagsetNum(); n > len(known) || n < len(pre) {
				res.bad = fmt.Errorf("number of tagsets is %d", n)
			}
		case "info":
			r.pkg.SetInfo(tagset(op.Tags))
		case "getinfo":
			if ts := r.pkg.GetInfo(); !allInfo[string(ts)] {
				res.bad = fmt.Errorf("package information is %x", []byte(ts))
			}
		case "size":
			if n := r.pkg.DataSize(); n < *size {
				res.bad = fmt.Errorf("data size was %d, now %d", *size, n)
			} else {
				*size = n
			}
			if r.pkg.IsSplitted() != cs.Split {
				res.bad = fmt.Errorf("split is reported as %v", !cs.Split)
			}
		case "flush":
			if err := r.sync(); err != nil {
				res.bad = fmt.Errorf("flush: %w", err)
			}
		}
		if res.err == nil && strings.HasPrefix(op.K, "pack") {
			if len(op.Tags) > 0 {
				ts, ok := r.pkg.GetTagset(op.A)
				if !ok {
					res.bad = fmt.Errorf("%q is packed but not found", op.A)
				}
				r.pkg.SetupTagset(wpk.CopyTagset(ts).Put(op.Tags[0].ID, op.Tags[0].Val))
			}
			packed[op.A] = true
		}
		return
	}
	var results = make([][]result, len(cs.Workers))
	var wg sync.WaitGroup
	var start = make(chan struct{})
	var panics = make([]error, len(cs.Workers))
	for w, ops := range cs.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var packed = map[string]bool{}
			var size uint
			panics[w] = guard(func() error {
				for _, op := range ops {
					results[w] = append(results[w], do(op, packed, &size))
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()

	var packers int
	var winners = map[string]c16Op{}
	var tries = map[string]int{}
	var infos [][]Tag
	for w := range cs.Workers {
		if panics[w] != nil {
			return panics[w]
		}
		var packs bool
		var info []Tag
		for _, res := range results[w] {
			if res.bad != nil {
				return fmt.Errorf("goroutine %d, %s: %w", w, res.op.K, res.bad)
			}
			if res.op.K == "info" {
				info = res.op.Tags
			}
			if !strings.HasPrefix(res.op.K, "pack") {
				continue
			}
			packs = true
			tries[res.op.A]++
			switch errClass(res.err) {
			case "ok":
				if prev, ok := winners[res.op.A]; ok {
					return fmt.Errorf("packing of %q succeeded twice: %s and %s", res.op.A, js(prev), js(res.op))
				}
				if pre[res.op.A] {
					return fmt.Errorf("packing of existing %q succeeded", res.op.A)
				}
				winners[res.op.A] = res.op
			case "exist":
				if !pre[res.op.A] && !strings.HasPrefix(res.op.K, "packdup") {
					return fmt.Errorf("packing of %q: %w", res.op.A, res.err)
				}
			default:
				return fmt.Errorf("packing of %q: %w", res.op.A, res.err)
			}
		}
		if packs {
			packers++
		}
		if info != nil {
			infos = append(infos, info)
		}
	}
	if packers > 1 {
		c.NonTrivial()
	}
	var races int
	for k, n := range tries {
		if n > 1 {
			races++
		}
		if _, ok := winners[k]; !ok && !pre[k] {
			return fmt.Errorf("no packing of %q succeeded", k)
		}
	}
	if races > 0 {
		c.Label("the same name is packed several times")
	}
	c.Label("goroutines %d", len(cs.Workers))
	if cs.Split {
		c.Label("split")
	}

	for k, op := range winners {
		r.m.put(k, op.Blob.Bytes(), op.Tags)
		if strings.HasSuffix(op.K, "file") {
			ts, _ := r.pkg.GetTagset(k)
			var e = r.m.find(k)
			for _, id := range []uint16{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime} {
				if v, ok := ts.Get(id); ok {
					e.Tags[id] = bytes.Clone(v)
				}
			}
			if !ts.ModTime().Equal(c16Time) {
				return fmt.Errorf("modification time of %q is %v", k, ts.ModTime())
			}
		}
	}
	// the last flush refers to files whose bytes are already in place
	var check = func(partial bool) error {
		var pkg = wpk.NewPackage()
		if err := pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())); err != nil {
			return fmt.Errorf("open: %w", err)
		}
		pkg.Tagger = memTagger{r.data().Bytes()}
		type region struct {
			off, end uint
			key      string
		}
		var regs []region
		var bad error
		var n int
		pkg.Enum(func(key string, ts wpk.TagsetRaw) bool {
			n++
			var e = r.m.find(key)
			if e == nil {
				bad = fmt.Errorf("unexpected file %q", key)
				return false
			}
			b, err := pkg.ReadFile(key)
			if err != nil {
				bad = fmt.Errorf("reading of %q: %w", key, err)
				return false
			}
			if d := diffBytes(b, e.Data); d != "" {
				bad = fmt.Errorf("content of %q: %s", key, d)
				return false
			}
			var off, size = ts.Pos()
			if size > 0 {
				regs = append(regs, region{off, off + size, key})
			}
			return true
		})
		if bad != nil {
			return bad
		}
		sort.Slice(regs, func(i, j int) bool { return regs[i].off < regs[j].off })
		for i := 1; i < len(regs); i++ {
			if regs[i].off < regs[i-1].end {
				return fmt.Errorf("files %q and %q overlap", regs[i-1].key, regs[i].key)
			}
		}
		if partial {
			return nil
		}
		if n != len(r.m.Ents) {
			return fmt.Errorf("%d files in the package, want %d", n, len(r.m.Ents))
		}
		hdr, info, err := wpk.GetPackageInfo(bytes.NewReader(r.wpt.Bytes()))
		if err != nil {
			return err
		}
		if hdr.Count() != n {
			return fmt.Errorf("header count is %d, want %d", hdr.Count(), n)
		}
		if len(infos) > 0 {
			var ok bool
			for _, x := range infos {
				ok = ok || bytes.Equal(info, tagset(x))
			}
			if !ok {
				return fmt.Errorf("package info is %q", string(info))
			}
		}
		return nil
	}
	if cs.Split {
		var flushed = cs.Parsed
		for w := range results {
			for _, res := range results[w] {
				flushed = flushed || res.op.K == "flush"
			}
		}
		if flushed && bytes.HasPrefix(r.wpt.buf, []byte(signReady)) {
			c.Label("flush concurrent with packing")
			if err := check(true); err != nil {
				return fmt.Errorf("after last flush: %w", err)
			}
		}
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("sync: %w", err)
	}
	if err := check(false); err != nil {
		return err
	}
	// tags of the live package
	for _, e := range r.m.Ents {
		ts, ok := r.pkg.GetTagset(e.Key)
		if !ok {
			return fmt.Errorf("%q is absent", e.Key)
		}
		if err := checkTags(ts, e, e.Key); err != nil {
			return err
		}
	}
	return nil
}

// C17: ordered map.

type c17Op struct {
	K  string
	A  int     `json:",omitempty"`
	V  int     `json:",omitempty"`
	In []c17Op `json:",omitempty"` // changes during iteration
	N  int     `json:",omitempty"` // stop iteration after so many pairs
}

type c17Case struct {
	Cap int
	Ops []c17Op
}

type kv struct{ k, v int }

type kvList []kv

func (l kvList) find(k int) int {
	for i, p := range l {
		if p.k == k {
			return i
		}
	}
	return -1
}

func (l kvList) del(i int) kvList { return append(append(kvList{}, l[:i]...), l[i+1:]...) }

func genC17Op(t *rapid.T, deep bool) (op c17Op) {
	var kinds = []string{"set", "set", "set", "push", "push", "has", "get", "get", "del", "del", "pop", "len"}
	if deep {
		kinds = append(kinds, "range", "range", "init")
	}
	op.K = pick(t, "op", kinds)
	op.A, op.V = ri(t, "key", 0, 7), ri(t, "val", 0, 1000)
	if op.K == "range" {
		op.N = pick(t, "stop", []int{0, 0, 0, 1, 2, 3})
		var n = pick(t, "nested", []int{0, 0, 1, 2, 4})
		for i := 0; i < n; i++ {
			op.In = append(op.In, genC17Op(t, false))
		}
	}
	if op.K == "init" && !chance(t, "reinit", 15) {
		op.K = "get"
	}
	return
}

func genC17(t *rapid.T) (c c17Case) {
	c.Cap = pick(t, "cap", []int{0, 0, 1, 3, 16})
	var n = pick(t, "length", []int{3, 8, 15, 30, 60})
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genC17Op(t, true))
	}
	return
}

func runC17(c *Ctx, cs c17Case) error {
	var m util.SeqMap[int, int]
	var l kvList
	m.Init(cs.Cap)
	var pairs = func() (s kvList) {
		m.Range(func(k, v int) bool { s = append(s, kv{k, v}); return true })
		return
	}
	var do func(op c17Op) error
	do = func(op c17Op) error {
		var i = l.find(op.A)
		switch op.K {
		case "set":
			m.Poke(op.A, op.V)
			if i >= 0 {
				l = append(kvList{}, l...)
				l[i].v = op.V
				c.NonTrivial()
			} else {
				l = append(append(kvList{}, l...), kv{op.A, op.V})
			}
		case "push":
			m.Push(op.A, op.V)
			if i < 0 {
				l = append(append(kvList{}, l...), kv{op.A, op.V})
			}
		case "has":
			if m.Has(op.A) != (i >= 0) {
				return fmt.Errorf("Has(%d) gives %v", op.A, i < 0)
			}
		case "get":
			v, ok := m.Peek(op.A)
			if ok != (i >= 0) || (ok && v != l[i].v) {
				return fmt.Errorf("Peek(%d) gives %d, %v", op.A, v, ok)
			}
		case "del":
			v, ok := m.Delete(op.A)
			if ok != (i >= 0) || (ok && v != l[i].v) {
				return fmt.Errorf("Delete(%d) gives %d, %v", op.A, v, ok)
			}
			if ok {
				l = l.del(i)
				c.NonTrivial()
			}
		case "pop":
			k, v, ok := m.Pop()
			if ok != (len(l) > 0) {
				return fmt.Errorf("Pop gives %v of %d pairs", ok, len(l))
			}
			if ok {
				if p := l[len(l)-1]; p.k != k || p.v != v {
					return fmt.Errorf("Pop gives %d:%d, want %d:%d", k, v, p.k, p.v)
				}
				l = l.del(len(l) - 1)
				c.NonTrivial()
			}
		case "len":
			if m.Len() != len(l) {
				return fmt.Errorf("Len gives %d, want %d", m.Len(), len(l))
			}
		case "init":
			m.Init(op.V % 5)
			l = nil
		case "range":
			var snap = l
			var got kvList
			var bad error
			m.Range(func(k, v int) bool {
				got = append(got, kv{k, v})
				if n := len(got); n <= len(op.In) && bad == nil {
					c.Label("change during iteration")
					if bad = do(op.In[n-1]); bad != nil {
						return false
					}
				}
				return op.N == 0 || len(got) < op.N
			})
			if bad != nil {
				return fmt.Errorf("during iteration: %w", bad)
			}
			if op.N > 0 && len(snap) > op.N {
				snap = snap[:op.N]
			}
			if !slices.Equal(got, snap) {
				return fmt.Errorf("iteration gives %v, want %v", got, snap)
			}
		}
		return nil
	}
	for i, op := range cs.Ops {
		if err := do(op); err != nil {
			return fmt.Errorf("step %d, %s: %w", i, js(op), err)
		}
		c.Label("op %s", op.K)
		if got := pairs(); !slices.Equal(got, l) {
			return fmt.Errorf("step %d, %s: map is %v, want %v", i, js(op), got, l)
		}
		if m.Len() != len(l) {
			return fmt.Errorf("step %d: length is %d, want %d", i, m.Len(), len(l))
		}
		for k := 0; k < 8; k++ {
			var j = l.find(k)
			v, ok := m.Peek(k)
			if ok != (j >= 0) || (ok && v != l[j].v) || m.Has(k) != ok {
				return fmt.Errorf("step %d, %s: lookup of %d gives %d, %v, map should be %v", i, js(op), k, v, ok, l)
			}
		}
	}
	return nil
}

type c17cCase struct {
	Pop     bool
	Workers [][]c17Op
}

func genC17c(t *rapid.T) (c c17cCase) {
	c.Pop = rapid.Bool().Draw(t, "pop")
	var n = ri(t, "workers", 2, 5)
	for w := 0; w < n; w++ {
		var kinds = []string{"set", "set", "push", "has", "get", "del", "len", "range", "yield"}
		if c.Pop {
			kinds = []string{"push", "push", "set", "pop", "del", "len", "range", "has", "yield"}
		}
		var ops []c17Op
		var k = pick(t, "length", []int{2, 6, 15, 40})
		for i := 0; i < k; i++ {
			ops = append(ops, c17Op{K: pick(t, "op", kinds), A: ri(t, "key", 0, 5), V: ri(t, "val", 0, 1000)})
		}
		c.Workers = append(c.Workers, ops)
	}
	return
}

func runC17c(c *Ctx, cs c17cCase) error {
	var m util.SeqMap[int, int]
	m.Init(0)
	var nw = len(cs.Workers)
	var models = make([]kvList, nw)
	var taken = make([]kvList, nw)
	var errs = make([]error, nw)
	var mut = make([]bool, nw)
	var wg sync.WaitGroup
	var start = make(chan struct{})
	for w, ops := range cs.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			var l kvList
			var fresh int
			errs[w] = guard(func() error {
				for i, op := range ops {
					// keys of each goroutine are its own; with removing of the last they are never used again
					var k = w*1000 + op.A
					if cs.Pop && (op.K == "push" || op.K == "set") {
						fresh++
						k = w*1000 + 10 + fresh
					}
					if cs.Pop && op.K == "del" && fresh > 0 {
						k = w*1000 + 10 + 1 + op.A%fresh
					}
					var at = l.find(k)
					switch op.K {
					case "yield":
						runtime.Gosched()
					case "set", "push":
						mut[w] = true
						if op.K == "set" {
							m.Poke(k, op.V)
						} else {
							m.Push(k, op.V)
						}
						if at < 0 {
							l = append(l, kv{k, op.V})
						} else if op.K == "set" {
							l[at].v = op.V
						}
					case "del":
						v, ok := m.Delete(k)
						if !cs.Pop && (ok != (at >= 0) || (ok && v != l[at].v)) {
							return fmt.Errorf("goroutine %d step %d: Delete(%d) gives %d, %v", w, i, k, v, ok)
						}
						if ok {
							mut[w] = true
							if cs.Pop {
								taken[w] = append(taken[w], kv{k, v})
							} else {
								l = l.del(at)
							}
						}
					case "pop":
						if k, v, ok := m.Pop(); ok {
							mut[w] = true
							taken[w] = append(taken[w], kv{k, v})
						}
					case "has":
						if ok := m.Has(k); !cs.Pop && ok != (at >= 0) {
							return fmt.Errorf("goroutine %d step %d: Has(%d) gives %v", w, i, k, ok)
						}
					case "get":
						v, ok := m.Peek(k)
						if !cs.Pop && (ok != (at >= 0) || (ok && v != l[at].v)) {
							return fmt.Errorf("goroutine %d step %d: Peek(%d) gives %d, %v", w, i, k, v, ok)
						}
					case "len":
						if n := m.Len(); n < 0 || (!cs.Pop && n < len(l)) {
							return fmt.Errorf("goroutine %d step %d: Len gives %d", w, i, n)
						}
					case "range":
						var own kvList
						var seen = map[int]bool{}
						var dup bool
						m.Range(func(k, v int) bool {
							dup = dup || seen[k]
							seen[k] = true
							if k/1000 == w {
								own = append(own, kv{k, v})
							}
							return true
						})
						if dup {
							return fmt.Errorf("goroutine %d step %d: a key is visited twice", w, i)
						}
						if !cs.Pop && fmt.Sprint(own) != fmt.Sprint(l) {
							return fmt.Errorf("goroutine %d step %d: own pairs are %v, want %v", w, i, own, l)
						}
					}
				}
				return nil
			})
			models[w] = l
		}()
	}
	close(start)
	wg.Wait()
	var muts int
	for w := range errs {
		if errs[w] != nil {
			return errs[w]
		}
		if mut[w] {
			muts++
		}
	}
	if muts > 1 {
		c.NonTrivial()
	}
	var rest kvList
	m.Range(func(k, v int) bool { rest = append(rest, kv{k, v}); return true })
	if m.Len() != len(rest) {
		return fmt.Errorf("length is %d, %d pairs are visited", m.Len(), len(rest))
	}
	for _, p := range rest {
		if v, ok := m.Peek(p.k); !ok || v != p.v {
			return fmt.Errorf("pair %v is visited, lookup gives %d, %v", p, v, ok)
		}
	}
	if !cs.Pop {
		c.Label("own keys")
		for w := range models {
			var own kvList
			for _, p := range rest {
				if p.k/1000 == w {
					own = append(own, p)
				}
			}
			if fmt.Sprint(own) != fmt.Sprint(models[w]) {
				return fmt.Errorf("pairs of goroutine %d are %v, want %v", w, own, models[w])
			}
		}
		return nil
	}
	c.Label("with removing of the last")
	var all = append(kvList{}, rest...)
	for w := range taken {
		all = append(all, taken[w]...)
	}
	var want kvList
	for w := range models {
		want = append(want, models[w]...)
	}
	var byKey = func(l kvList) { sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k }) }
	byKey(all)
	byKey(want)
	if fmt.Sprint(all) != fmt.Sprint(want) {
		return fmt.Errorf("pairs that were removed or are left: %v, were inserted: %v", all, want)
	}
	return nil
}

// C18: encodings.

type c18hCase struct {
	Sign []byte
	Vals [5]uint64
	Tail int
	Frag []int
	EOF  bool
	Zero bool
}

func genC18h(t *rapid.T) (c c18hCase) {
	switch ri(t, "sign", 0, 2) {
	case 0:
		c.Sign = []byte(signReady)
	case 1:
		c.Sign = []byte(signBuild)
	default:
		c.Sign = rapid.SliceOfN(rapid.Byte(), 24, 24).Draw(t, "signbytes")
	}
	for i := range c.Vals {
		c.Vals[i] = genU64(t)
	}
	c.Tail = ri(t, "tail", 0, 5)
	c.Frag = rapid.SliceOfN(rapid.IntRange(1, 30), 0, 4).Draw(t, "frag")
	c.EOF, c.Zero = rapid.Bool().Draw(t, "eof"), chance(t, "zero", 20)
	return
}

func isEOF(err error) bool { return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) }

func runC18h(c *Ctx, cs c18hCase) error {
	c.NonTrivial()
	var enc = rawHeader{string(cs.Sign), cs.Vals[0], cs.Vals[1], cs.Vals[2], cs.Vals[3], cs.Vals[4]}.bytes()
	var tail = bytes.Repeat([]byte{0xA5}, cs.Tail)
	var src = append(append([]byte{}, enc...), tail...)
	var h1, h2 wpk.Header
	if n, err := h1.Parse(src); n != 64 || err != nil {
		return fmt.Errorf("Parse gives %d, %v", n, err)
	}
	var fr = &fragReader{b: src, sizes: cs.Frag, eof: cs.EOF, zero: cs.Zero}
	if n, err := h2.ReadFrom(fr); n != 64 || err != nil {
		return fmt.Errorf("ReadFrom gives %d, %v", n, err)
	}
	if fr.pos != 64 {
		return fmt.Errorf("ReadFrom takes %d bytes of the stream", fr.pos)
	}
	if h1 != h2 {
		return fmt.Errorf("Parse gives %v, ReadFrom gives %v", h1, h2)
	}
	if uint64(h1.Count()) != cs.Vals[0] || uint64(h1.FttSize()) != cs.Vals[2] || uint64(h1.DataSize()) != cs.Vals[4] {
		return fmt.Errorf("header reports count %d, table size %d, data size %d", h1.Count(), h1.FttSize(), h1.DataSize())
	}
	var out bytes.Buffer
	if n, err := h1.WriteTo(&out); n != 64 || err != nil {
		return fmt.Errorf("WriteTo gives %d, %v", n, err)
	}
	if d := diffBytes(out.Bytes(), enc); d != "" {
		return fmt.Errorf("written header: %s", d)
	}
	for k := 0; k < 64; k++ {
		var h wpk.Header
		if _, err := h.Parse(enc[:k]); err == nil {
			return fmt.Errorf("Parse of %d bytes succeeds", k)
		}
		var h3 wpk.Header
		if n, err := h3.ReadFrom(&fragReader{b: enc[:k], sizes: cs.Frag, eof: cs.EOF}); err == nil {
			return fmt.Errorf("ReadFrom of %d bytes succeeds", k)
		} else if n > int64(k) {
			return fmt.Errorf("ReadFrom of %d bytes reports %d", k, n)
		}
		if _, _, err := wpk.GetPackageInfo(bytes.NewReader(enc[:k])); err == nil {
			return fmt.Errorf("GetPackageInfo of %d bytes succeeds", k)
		}
		if err := wpk.NewPackage().OpenStream(bytes.NewReader(enc[:k])); err == nil {
			return fmt.Errorf("open of %d bytes succeeds", k)
		}
	}
	c.Count("prefixes", 64)
	return nil
}

type c18tCase struct {
	Files []c01File
	Info  []Tag
	Tail  int
	Frag  []int
	EOF   bool
	Zero  bool
	Split bool
}

func genC18t(t *rapid.T) (c c18tCase) {
	c.Files = genSmallFiles(t, 5)
	c.Info = genTags(t, 3)
	c.Tail = ri(t, "tail", 0, 5)
	c.Frag = rapid.SliceOfN(rapid.IntRange(1, 30), 0, 4).Draw(t, "frag")
	c.EOF, c.Zero, c.Split = rapid.Bool().Draw(t, "eof"), chance(t, "zero", 20), rapid.Bool().Draw(t, "split")
	return
}

func runC18t(c *Ctx, cs c18tCase) error {
	if len(cs.Files) > 0 || len(cs.Info) > 0 {
		c.NonTrivial()
	}
	var base uint64
	if !cs.Split {
		base = 64
	}
	var total int
	for _, f := range cs.Files {
		total += f.Blob.Len
	}
	var hdr wpk.Header
	if _, err := hdr.Parse(rawHeader{signReady, uint64(len(cs.Files)), 64, 0, base, uint64(total)}.bytes()); err != nil {
		return err
	}
	var mk = func() *wpk.Package {
		var p = wpk.NewPackage()
		p.Init(&hdr)
		return p
	}
	var recs = [][]byte{encTags(cs.Info)}
	var pkg = mk()
	pkg.SetInfo(tagset(cs.Info))
	var off = base
	for _, f := range cs.Files {
		var tags = append([]Tag{{1, uintBytes(off)}, {2, uintBytes(uint64(f.Blob.Len))}, {3, []byte(f.Key)}}, f.Tags...)
		off += uint64(f.Blob.Len)
		recs = append(recs, encTags(tags))
		pkg.SetupTagset(tagset(tags))
	}
	var enc = encTable(recs)
	var out bytes.Buffer
	n, err := pkg.FTT.WriteTo(&out)
	if err != nil {
		return fmt.Errorf("WriteTo: %w", err)
	}
	if n != int64(out.Len()) {
		return fmt.Errorf("WriteTo reports %d bytes, %d are written", n, out.Len())
	}
	if d := diffBytes(out.Bytes(), enc); d != "" {
		return fmt.Errorf("written table: %s", d)
	}
	var same = func(p *wpk.Package) error {
		if d := diffBytes(p.GetInfo(), recs[0]); d != "" {
			return fmt.Errorf("package info: %s", d)
		}
		var i = 0
		var bad error
		p.Enum(func(key string, ts wpk.TagsetRaw) bool {
			if i >= len(cs.Files) || key != cs.Files[i].Key {
				bad = fmt.Errorf("unexpected file %q at %d", key, i)
				return false
			}
			i++
			if d := diffBytes(ts, recs[i]); d != "" {
				bad = fmt.Errorf("tagset of %q: %s", key, d)
				return false
			}
			return true
		})
		if bad == nil && i != len(cs.Files) {
			bad = fmt.Errorf("%d files, want %d", i, len(cs.Files))
		}
		return bad
	}
	var src = append(append([]byte{}, enc...), bytes.Repeat([]byte{0xA5}, cs.Tail)...)
	var p1, p2 = mk(), mk()
	if n, err := p1.FTT.Parse(src); err != nil || n != int64(len(enc)) {
		return fmt.Errorf("Parse gives %d, %v, table has %d bytes", n, err, len(enc))
	}
	if err := same(p1); err != nil {
		return fmt.Errorf("Parse: %w", err)
	}
	var fr = &fragReader{b: src, sizes: cs.Frag, eof: cs.EOF, zero: cs.Zero}
	if n, err := p2.FTT.ReadFrom(fr); err != nil || n != int64(len(enc)) {
		return fmt.Errorf("ReadFrom gives %d, %v, table has %d bytes", n, err, len(enc))
	}
	if fr.pos != int64(len(enc)) {
		return fmt.Errorf("ReadFrom takes %d bytes of the stream, table has %d", fr.pos, len(enc))
	}
	if err := same(p2); err != nil {
		return fmt.Errorf("ReadFrom: %w", err)
	}
	var cuts []int // all positions, or some of them and both ends of long tables
	for k := range enc {
		if n := len(enc); n <= 5000 || k < 16 || k >= n-16 || k%(n/40) == 0 || n < 100000 && k%(n/200) == 0 {
			cuts = append(cuts, k)
		}
	}
	for _, k := range cuts {
		if n, err := mk().FTT.Parse(enc[:k:k]); err == nil {
			return fmt.Errorf("Parse of %d bytes of %d succeeds", k, len(enc))
		} else if n > int64(k) {
			return fmt.Errorf("Parse of %d bytes reports %d", k, n)
		}
		if n, err := mk().FTT.ReadFrom(&fragReader{b: enc[:k], sizes: cs.Frag, eof: cs.EOF}); err == nil {
			return fmt.Errorf("ReadFrom of %d bytes of %d succeeds", k, len(enc))
		} else if n > int64(k) {
			return fmt.Errorf("ReadFrom of %d bytes reports %d", k, n)
		}
	}
	c.Count("prefixes", len(cuts))
	// the whole package is also read from a stream that delivers it in pieces
	wpt, wpf := encPkg(cs.Files, cs.Info, cs.Split)
	var p3 = wpk.NewPackage()
	if err := p3.OpenStream(&fragReader{b: wpt, sizes: cs.Frag, eof: cs.EOF, zero: cs.Zero}); err != nil {
		return fmt.Errorf("open of the fragmented stream: %w", err)
	}
	if err := same(p3); err != nil {
		return fmt.Errorf("open of the fragmented stream: %w", err)
	}
	_, info, err := wpk.GetPackageInfo(&fragReader{b: wpt, sizes: cs.Frag, eof: cs.EOF, zero: cs.Zero})
	if err != nil {
		return fmt.Errorf("GetPackageInfo of the fragmented stream: %w", err)
	}
	if d := diffBytes(info, recs[0]); d != "" {
		return fmt.Errorf("GetPackageInfo of the fragmented stream: %s", d)
	}
	_ = wpf
	return nil
}

type c18Val struct {
	W    int // 2, 4, 8 integers, 32, 64 floats
	Bits uint64
}

type c18vCase struct {
	Vals []c18Val
	Frag []int
	EOF  bool
	Zero bool
}

func genC18v(t *rapid.T) (c c18vCase) {
	c.Vals = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c18Val {
		return c18Val{pick(t, "width", []int{2, 4, 8, 32, 64}), genU64(t)}
	}), 1, 8).Draw(t, "vals")
	c.Frag = rapid.SliceOfN(rapid.IntRange(1, 9), 0, 4).Draw(t, "frag")
	c.EOF, c.Zero = rapid.Bool().Draw(t, "eof"), chance(t, "zero", 20)
	return
}

func runC18v(c *Ctx, cs c18vCase) error {
	if len(cs.Vals) > 1 && len(cs.Frag) > 0 {
		c.NonTrivial()
	}
	var enc []byte
	var out bytes.Buffer
	for _, v := range cs.Vals {
		var err error
		var buf [8]byte
		var w []byte
		switch v.W {
		case 2:
			enc = le.AppendUint16(enc, uint16(v.Bits))
			err = util.WriteU16(&out, uint16(v.Bits))
			util.SetU16(buf[:], uint16(v.Bits))
			w = buf[:2]
			if util.GetU16(w) != uint16(v.Bits) {
				return fmt.Errorf("GetU16 of %x", v.Bits)
			}
		case 4:
			enc = le.AppendUint32(enc, uint32(v.Bits))
			err = util.WriteU32(&out, uint32(v.Bits))
			util.SetU32(buf[:], uint32(v.Bits))
			w = buf[:4]
			if util.GetU32(w) != uint32(v.Bits) {
				return fmt.Errorf("GetU32 of %x", v.Bits)
			}
		case 8:
			enc = le.AppendUint64(enc, v.Bits)
			err = util.WriteU64(&out, v.Bits)
			util.SetU64(buf[:], v.Bits)
			w = buf[:8]
			if util.GetU64(w) != v.Bits {
				return fmt.Errorf("GetU64 of %x", v.Bits)
			}
		case 32:
			var f = math.Float32frombits(uint32(v.Bits))
			enc = le.AppendUint32(enc, uint32(v.Bits))
			err = util.WriteF32(&out, f)
			util.SetF32(buf[:], f)
			w = buf[:4]
			if math.Float32bits(util.GetF32(w)) != uint32(v.Bits) {
				return fmt.Errorf("GetF32 of %x", v.Bits)
			}
		case 64:
			var f = math.Float64frombits(v.Bits)
			enc = le.AppendUint64(enc, v.Bits)
			err = util.WriteF64(&out, f)
			util.SetF64(buf[:], f)
			w = buf[:8]
			if math.Float64bits(util.GetF64(w)) != v.Bits {
				return fmt.Errorf("GetF64 of %x", v.Bits)
			}
		}
		if err != nil {
			return err
		}
		if d := diffBytes(w, enc[len(enc)-len(w):]); d != "" {
			return fmt.Errorf("value %x of type %d in a slice: %s", v.Bits, v.W, d)
		}
	}
	if d := diffBytes(out.Bytes(), enc); d != "" {
		return fmt.Errorf("written values: %s", d)
	}
	var read = func(r io.Reader) (err error) {
		for i, v := range cs.Vals {
			var got, want uint64
			switch v.W {
			case 2:
				var x uint16
				x, err = util.ReadU16(r)
				got, want = uint64(x), v.Bits&0xffff
			case 4:
				var x uint32
				x, err = util.ReadU32(r)
				got, want = uint64(x), v.Bits&0xffffffff
			case 8:
				got, err = util.ReadU64(r)
				want = v.Bits
			case 32:
				var x float32
				x, err = util.ReadF32(r)
				got, want = uint64(math.Float32bits(x)), v.Bits&0xffffffff
			case 64:
				var x float64
				x, err = util.ReadF64(r)
				got, want = math.Float64bits(x), v.Bits
			}
			if err != nil {
				return err
			}
			if got != want {
				return fmt.Errorf("value %d of type %d is read as %x, want %x", i, v.W, got, want)
			}
		}
		return nil
	}
	if err := read(&fragReader{b: enc, sizes: cs.Frag, eof: cs.EOF, zero: cs.Zero}); err != nil {
		return err
	}
	for k := 0; k < len(enc); k++ {
		if err := read(&fragReader{b: enc[:k], sizes: cs.Frag, eof: cs.EOF}); err == nil {
			return fmt.Errorf("reading from %d bytes of %d succeeds", k, len(enc))
		} else if !isEOF(err) {
			return fmt.Errorf("reading from %d bytes of %d: %w", k, len(enc), err)
		}
	}
	c.Count("prefixes", len(enc))
	return nil
}
