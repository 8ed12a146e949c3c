package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
	"pgregory.net/rapid"
)

// MEntry is a file of the model.
type MEntry struct {
	Key  string
	Data []byte
	Tags map[uint16][]byte
}

// Model is the reference of package: ordered list of named files.
type Model struct {
	Ents    []*MEntry
	Info    []Tag
	DatSize int
	idx     map[string]*MEntry // for big models, nil if it is not built
}

func (m *Model) clone() *Model {
	var c = &Model{Info: append([]Tag{}, m.Info...), DatSize: m.DatSize}
	for _, e := range m.Ents {
		c.Ents = append(c.Ents, e.clone(e.Key))
	}
	return c
}

func (e *MEntry) clone(key string) *MEntry {
	var c = &MEntry{Key: key, Data: e.Data, Tags: map[uint16][]byte{}}
	for k, v := range e.Tags {
		c.Tags[k] = v
	}
	return c
}

func (m *Model) find(key string) *MEntry {
	if len(m.Ents) > 64 {
		if len(m.idx) != len(m.Ents) {
			m.idx = make(map[string]*MEntry, len(m.Ents))
			for _, e := range m.Ents {
				m.idx[e.Key] = e
			}
		}
		return m.idx[key]
	}
	for _, e := range m.Ents {
		if e.Key == key {
			return e
		}
	}
	return nil
}

func (m *Model) keys() (ks []string) {
	for _, e := range m.Ents {
		ks = append(ks, e.Key)
	}
	return
}

func (m *Model) put(key string, data []byte, tags []Tag) bool {
	m.DatSize += len(data)
	if m.find(key) != nil {
		m.DatSize -= len(data)
		return false
	}
	var e = &MEntry{Key: key, Data: data, Tags: map[uint16][]byte{}}
	for _, t := range tags {
		e.Tags[t.ID] = t.Val
	}
	m.add(e)
	return true
}

func (m *Model) add(e *MEntry) {
	m.Ents = append(m.Ents, e)
	if m.idx != nil {
		m.idx[e.Key] = e
	}
}

func (m *Model) del(key string) bool {
	for i, e := range m.Ents {
		if e.Key == key {
			m.Ents = append(m.Ents[:i:i], m.Ents[i+1:]...)
			if len(m.Ents) <= 64 {
				m.idx = nil
			}
			delete(m.idx, key)
			return true
		}
	}
	return false
}

// errClass reduces an error to what the properties state.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	}
	return "error"
}

func (m *Model) rename(a, b string) string {
	var e = m.find(a)
	if e == nil {
		return "notexist"
	}
	if m.find(b) != nil {
		return "exist"
	}
	m.del(a)
	m.add(e.clone(b))
	return "ok"
}

func (m *Model) alias(a, b string) string {
	var e = m.find(a)
	if e == nil {
		return "notexist"
	}
	if m.find(b) != nil {
		return "exist"
	}
	m.add(e.clone(b))
	return "ok"
}

// renameDir follows the documented semantics: files below olddir go to newdir.
func (m *Model) renameDir(olddir, newdir string, skip bool) (count int, res string) {
	res = "ok"
	var pre = func(s string) string {
		if s != "" && !strings.HasSuffix(s, "/") {
			s += "/"
		}
		return s
	}
	olddir, newdir = pre(olddir), pre(newdir)
	for _, e := range append([]*MEntry{}, m.Ents...) {
		if !strings.HasPrefix(e.Key, olddir) {
			continue
		}
		switch m.rename(e.Key, newdir+e.Key[len(olddir):]) {
		case "ok":
			count++
		case "exist":
			if !skip {
				return count, "exist"
			}
		}
	}
	return
}

// Op is an operation of a history.
type Op struct {
	K    string
	A    string `json:",omitempty"`
	B    string `json:",omitempty"`
	Blob Blob   `json:",omitempty"`
	Tags []Tag  `json:",omitempty"`
	TID  uint16 `json:",omitempty"`
	Val  []byte `json:",omitempty"`
	Flag bool   `json:",omitempty"`
}

// Sess is a session: begin or append, operations, finalise.
type Sess struct {
	Reopen bool  // use a freshly opened package object
	Anew   bool  `json:",omitempty"` // begin another package by the same object
	Drop   bool  `json:",omitempty"` // previous session was left without finalising, given with Anew
	Info   []Tag `json:",omitempty"` // information given with Anew
	Pre    []Op  `json:",omitempty"` // operations on names and tags before the append call
	Ops    []Op
}

// Modes of package layout.
const (
	modeSingleNil = iota
	modeSingleSame
	modeSplit
)

// Hist is a whole history.
type Hist struct {
	Mode  int
	Sess  []Sess
	Begun bool `json:",omitempty"` // sync the empty package first
}

// Rig is the package under test with its files.
type Rig struct {
	mode     int
	wpt, wpf *MemFile
	log      *WLog
	pkg      *wpk.Package
	m        *Model
}

func newRig(mode int, flt *Fault) *Rig {
	var r = &Rig{mode: mode, log: &WLog{}, m: &Model{}}
	r.wpt = &MemFile{id: 0, log: r.log, flt: flt}
	r.wpf = &MemFile{id: 1, log: r.log, flt: flt}
	r.pkg = wpk.NewPackage()
	return r
}

func (r *Rig) split() bool { return r.mode == modeSplit }

// parts returns both writers as callers give it to the library.
func (r *Rig) parts() (wpt, wpf io.WriteSeeker) {
	switch r.mode {
	case modeSingleNil:
		return r.wpt, nil
	case modeSingleSame:
		return r.wpt, r.wpt
	default:
		return r.wpt, r.wpf
	}
}

func (r *Rig) data() *MemFile {
	if r.split() {
		return r.wpf
	}
	return r.wpt
}

func (r *Rig) begin() error { a, b := r.parts(); return r.pkg.Begin(a, b) }

// before makes operations of the session that precede the append call.
func (r *Rig) before(s Sess) error {
	for j, op := range s.Pre {
		if err := r.do(op); err != nil {
			return fmt.Errorf("operation %d before append: %w", j, err)
		}
	}
	return nil
}

func (r *Rig) append() error { a, b := r.parts(); return r.pkg.Append(a, b) }
func (r *Rig) sync() error   { a, b := r.parts(); return r.pkg.Sync(a, b) }

func (r *Rig) reopen() error {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())); err != nil {
		return fmt.Errorf("reopening failed: %w", err)
	}
	r.pkg = pkg
	return nil
}

// do applies the operation to the package and to the model and compares the outcome.
func (r *Rig) do(op Op) error {
	switch op.K {
	case "put":
		var data = op.Blob.Bytes()
		ts, err := r.pkg.PackData(r.data(), blobReader(op.Blob), op.A)
		var want = "ok"
		if !r.m.put(op.A, data, op.Tags) {
			want = "exist"
		}
		if got := errClass(err); got != want {
			return fmt.Errorf("packing %q: got %s (%v), want %s", op.A, got, err, want)
		}
		if err == nil && len(op.Tags) > 0 {
			for _, t := range op.Tags {
				ts = ts.Put(t.ID, t.Val)
			}
			r.pkg.SetTagset(op.A, ts)
		}
	case "alias":
		var want = r.m.alias(op.A, op.B)
		if err := r.pkg.PutAlias(op.A, op.B); errClass(err) != want {
			return fmt.Errorf("alias %q -> %q: got %v, want %s", op.A, op.B, err, want)
		}
	case "rename":
		var want = r.m.rename(op.A, op.B)
		if err := r.pkg.Rename(op.A, op.B); errClass(err) != want {
			return fmt.Errorf("rename %q -> %q: got %v, want %s", op.A, op.B, err, want)
		}
	case "renamedir":
		var n, want = r.m.renameDir(op.A, op.B, op.Flag)
		got, err := r.pkg.RenameDir(op.A, op.B, op.Flag)
		if errClass(err) != want || got != n {
			return fmt.Errorf("renamedir %q -> %q skip=%v: got %d, %v, want %d, %s", op.A, op.B, op.Flag, got, err, n, want)
		}
	case "del":
		var want = r.m.del(op.A)
		if _, ok := r.pkg.DelTagset(op.A); ok != want {
			return fmt.Errorf("deletion of %q: got %v, want %v", op.A, ok, want)
		}
	case "settag", "addtag", "deltag":
		var e = r.m.find(op.A)
		ts, ok := r.pkg.GetTagset(op.A)
		if ok != (e != nil) {
			return fmt.Errorf("lookup of %q: got %v, want %v", op.A, ok, e != nil)
		}
		if e == nil {
			return nil
		}
		ts = wpk.CopyTagset(ts)
		switch op.K {
		case "settag":
			ts = ts.Set(op.TID, op.Val)
			e.Tags[op.TID] = op.Val
		case "addtag":
			ts = ts.Add(op.TID, op.Val)
			if _, has := e.Tags[op.TID]; !has {
				e.Tags[op.TID] = op.Val
			}
		case "deltag":
			ts = ts.Del(op.TID)
			delete(e.Tags, op.TID)
		}
		if op.Flag {
			r.pkg.SetupTagset(ts)
		} else {
			r.pkg.SetTagset(op.A, ts)
		}
	case "info":
		r.pkg.SetInfo(tagset(op.Tags))
		r.m.Info = op.Tags
	case "flush":
		if err := r.sync(); err != nil {
			return fmt.Errorf("sync: %w", err)
		}
	default:
		infraf("unknown operation %q", op.K)
	}
	return nil
}

// memTagger gives access to content in memory through the slice file of the library.
type memTagger struct{ b []byte }

func (t memTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) { return bulk.NewSliceFile(t.b, ts) }
func (t memTagger) Close() error                                   { return nil }

func tagErr(err error) error { return err }

// checkTags compares tagset of the file with the model.
func checkTags(ts wpk.TagsetRaw, e *MEntry, fullkey string) error {
	var seen = map[uint16]bool{}
	var tsi = ts.Iterator()
	for tsi.Next() {
		var id = tsi.TID()
		if seen[id] {
			return fmt.Errorf("%q: tag %d is met twice", e.Key, id)
		}
		seen[id] = true
		switch id {
		case wpk.TIDoffset:
		case wpk.TIDsize:
		case wpk.TIDpath:
			if s, _ := tsi.Tag().TagStr(); s != fullkey {
				return fmt.Errorf("%q: path tag is %q", fullkey, s)
			}
		default:
			v, ok := e.Tags[id]
			if !ok {
				return fmt.Errorf("%q: unexpected tag %d", e.Key, id)
			}
			if d := diffBytes(tsi.Tag(), v); d != "" {
				return fmt.Errorf("%q: tag %d: %s", e.Key, id, d)
			}
			if got, ok := ts.Get(id); !ok || !bytes.Equal(got, v) {
				return fmt.Errorf("%q: lookup of tag %d gives %x, %v, want %x", e.Key, id, got, ok, v)
			}
		}
	}
	if tsi.Failed() || !tsi.Passed() {
		return fmt.Errorf("%q: tagset is broken", e.Key)
	}
	if !seen[1] || !seen[2] || !seen[3] {
		return fmt.Errorf("%q: required tags are absent", e.Key)
	}
	if len(seen) != len(e.Tags)+3 {
		return fmt.Errorf("%q: %d tags, want %d", e.Key, len(seen), len(e.Tags)+3)
	}
	if ts.Size() != int64(len(e.Data)) {
		return fmt.Errorf("%q: size %d, want %d", e.Key, ts.Size(), len(e.Data))
	}
	return nil
}

func checkInfo(ts wpk.TagsetRaw, want []Tag) error {
	if d := diffBytes(ts, tagset(want)); d != "" {
		return fmt.Errorf("package info: %s", d)
	}
	return nil
}

// checkPkg compares opened or live package (workspace is root) with the model.
func checkPkg(pkg *wpk.Package, m *Model) error {
	var keys []string
	var err error
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		keys = append(keys, fkey)
		var e = m.find(fkey)
		if e == nil {
			err = fmt.Errorf("unexpected file %q", fkey)
			return false
		}
		err = checkTags(ts, e, fkey)
		return err == nil
	})
	if err != nil {
		return err
	}
	if strings.Join(keys, "\x00") != strings.Join(m.keys(), "\x00") {
		return fmt.Errorf("files are %q, want %q", keys, m.keys())
	}
	if pkg.TagsetNum() != len(m.Ents) {
		return fmt.Errorf("tagsets number is %d, want %d", pkg.TagsetNum(), len(m.Ents))
	}
	for _, e := range m.Ents {
		if !pkg.HasTagset(e.Key) {
			return fmt.Errorf("file %q is absent", e.Key)
		}
		b, err := pkg.ReadFile(e.Key)
		if err != nil {
			return fmt.Errorf("reading of %q: %w", e.Key, err)
		}
		if d := diffBytes(b, e.Data); d != "" {
			return fmt.Errorf("content of %q: %s", e.Key, d)
		}
	}
	return checkInfo(pkg.GetInfo(), m.Info)
}

// checkImage opens the bytes of package files and compares it with the model.
func checkImage(m *Model, split bool, wpt, wpf []byte) error {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
		return fmt.Errorf("open: %w", err)
	}
	if split {
		pkg.Tagger = memTagger{wpf}
	} else {
		pkg.Tagger = memTagger{wpt}
	}
	return checkPkg(pkg, m)
}

// checkHeader compares what the header reports.
func checkHeader(m *Model, split bool, wpt []byte) error {
	hdr, info, err := wpk.GetPackageInfo(bytes.NewReader(wpt))
	if err != nil {
		return fmt.Errorf("package info: %w", err)
	}
	if err = hdr.IsReady(); err != nil {
		return fmt.Errorf("header: %w", err)
	}
	if hdr.Count() != len(m.Ents) {
		return fmt.Errorf("header count is %d, want %d", hdr.Count(), len(m.Ents))
	}
	if int(hdr.DataSize()) != m.DatSize {
		return fmt.Errorf("header data size is %d, want %d", hdr.DataSize(), m.DatSize)
	}
	var pkg = wpk.NewPackage()
	if err = pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
		return fmt.Errorf("open: %w", err)
	}
	if pkg.IsSplitted() != split {
		return fmt.Errorf("split state is %v, want %v", pkg.IsSplitted(), split)
	}
	if int(pkg.DataSize()) != m.DatSize {
		return fmt.Errorf("data size is %d, want %d", pkg.DataSize(), m.DatSize)
	}
	return checkInfo(info, m.Info)
}

var tgrModes = []string{"bulk", "mmap", "fsys"}

func makeTagger(mode, fpath string) (wpk.Tagger, error) {
	switch mode {
	case "bulk":
		return bulk.MakeTagger(fpath)
	case "mmap":
		return mmap.MakeTagger(fpath)
	default:
		return fsys.MakeTagger(fpath)
	}
}

// saveImage writes package files to the directory and returns the path to open.
func saveImage(dir, name string, split bool, wpt, wpf []byte) (pkgpath, datpath string) {
	pkgpath = filepath.Join(dir, name+".wpk")
	datpath = pkgpath
	if split {
		pkgpath = filepath.Join(dir, name+".wpt")
		datpath = filepath.Join(dir, name+".wpf")
		must(os.WriteFile(datpath, wpf, 0o644))
	}
	must(os.WriteFile(pkgpath, wpt, 0o644))
	return
}

// openDisk opens package with given access mode.
func openDisk(pkgpath, datpath, mode string) (*wpk.Package, error) {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenFile(pkgpath); err != nil {
		return nil, err
	}
	var err error
	if pkg.Tagger, err = makeTagger(mode, datpath); err != nil {
		return nil, err
	}
	return pkg, nil
}

// histGen generates histories and tracks live names.
type histGen struct {
	live   []string
	big    bool
	small  bool // narrow names pool
	kinds  []string
	maxtag int
}

func (g *histGen) key(t *rapid.T) string {
	if g.small {
		return genSmallKey(t)
	}
	return genKey(t)
}

func (g *histGen) old(t *rapid.T) string {
	if len(g.live) == 0 || chance(t, "absent", 8) {
		return g.key(t)
	}
	return pick(t, "old", g.live)
}

func (g *histGen) fresh(t *rapid.T) string {
	if len(g.live) > 0 && chance(t, "taken", 12) {
		return pick(t, "taken key", g.live)
	}
	return g.key(t)
}

func (g *histGen) has(k string) bool {
	for _, s := range g.live {
		if s == k {
			return true
		}
	}
	return false
}

func (g *histGen) add(k string) {
	if !g.has(k) {
		g.live = append(g.live, k)
	}
}

func (g *histGen) rm(k string) {
	for i, s := range g.live {
		if s == k {
			g.live = append(g.live[:i:i], g.live[i+1:]...)
			return
		}
	}
}

func (g *histGen) dir(t *rapid.T) string {
	if len(g.live) > 0 && chance(t, "livedir", 75) {
		var k = pick(t, "of", g.live)
		if i := strings.LastIndexByte(k, '/'); i > 0 {
			var d = k[:i]
			if j := strings.IndexByte(d, '/'); j > 0 && rapid.Bool().Draw(t, "top") {
				d = d[:j]
			}
			return d
		}
	}
	if g.small {
		return pick(t, "sdir", []string{"img", "img1", "img/d"})
	}
	return genDir(t)
}

func (g *histGen) op(t *rapid.T) Op {
	var op = Op{K: pick(t, "op", g.kinds)}
	switch op.K {
	case "put":
		op.A = g.fresh(t)
		op.Blob = genBlob(t, g.big)
		if g.maxtag > 0 {
			op.Tags = genTags(t, g.maxtag)
		}
		g.add(op.A)
	case "alias":
		op.A, op.B = g.old(t), g.fresh(t)
		if g.has(op.A) {
			g.add(op.B)
		}
	case "rename":
		op.A, op.B = g.old(t), g.fresh(t)
		if g.has(op.A) && !g.has(op.B) {
			g.rm(op.A)
			g.add(op.B)
		}
	case "renamedir":
		op.A, op.B, op.Flag = g.dir(t), g.dir(t), rapid.Bool().Draw(t, "skip")
		var m Model
		for _, k := range g.live {
			m.put(k, nil, nil)
		}
		m.renameDir(op.A, op.B, op.Flag)
		g.live = m.keys()
	case "del":
		op.A = g.old(t)
		g.rm(op.A)
	case "settag", "addtag":
		op.A, op.TID, op.Val = g.old(t), genTID(t), genVal(t, true)
		op.Flag = rapid.Bool().Draw(t, "setup")
	case "deltag":
		op.A, op.TID = g.old(t), genTID(t)
		op.Flag = rapid.Bool().Draw(t, "setup")
	case "info":
		op.Tags = genTags(t, 3)
	}
	return op
}

func (g *histGen) hist(t *rapid.T, maxSess, maxOps int) Hist {
	var h = Hist{Mode: ri(t, "mode", 0, 2)}
	return g.fill(t, h, maxSess, maxOps)
}

func (g *histGen) fill(t *rapid.T, h Hist, maxSess, maxOps int) Hist {
	var kinds = g.kinds
	if h.Mode == modeSplit {
		g.kinds = append(append([]string{}, kinds...), "flush")
	}
	var n = ri(t, "sessions", 1, maxSess)
	for i := 0; i < n; i++ {
		var s = Sess{Reopen: rapid.Bool().Draw(t, "reopen")}
		if i > 0 && chance(t, "before append", 30) {
			var all = g.kinds
			g.kinds = nil
			for _, kind := range all {
				if kind != "put" && kind != "flush" {
					g.kinds = append(g.kinds, kind)
				}
			}
			for j := ri(t, "pre", 1, 3); j > 0; j-- {
				s.Pre = append(s.Pre, g.op(t))
			}
			g.kinds = all
		}
		var k = ri(t, "ops", 0, maxOps)
		for j := 0; j < k; j++ {
			s.Ops = append(s.Ops, g.op(t))
		}
		h.Sess = append(h.Sess, s)
	}
	g.kinds = kinds
	return h
}
