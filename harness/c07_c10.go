package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime/debug"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

type c07Case struct {
	Split  bool
	Parsed bool // operate on a package opened from bytes, tagsets share one memory block
	Files  []c01File
	Order  []int // position of the path tag among other tags
	Ops    []Op
}

type c08Case struct {
	Parsed   bool
	Sub      string // workspace, empty for root
	Keys     []string
	Old, New string
	Skip     bool
	Slash    int // trailing slashes: bit 0 for old, bit 1 for new
}

type c09Case struct {
	Hist Hist
}

type c10Op struct {
	H      int
	K      string
	N      int
	Off    int64
	Whence int
}

type c10Case struct {
	Split bool
	Files []c01File
	Sub   string
	Opens []int // files opened by handles
	How   []int
	Ops   []c10Op
}

func init() {
	reg("C07", "names",
		"case: package made by an independent encoder (path tag at any place among other tags) or packed live, then 1..14 operations rename, alias, delete, retag (copied or in place with equal length) with names of equal, longer and shorter length, present and absent; after every operation every other entry keeps its tagset bytes and the whole content equals the model; at the end it is finalised and reopened. Non-trivial: at least one successful rename or alias and one other successful operation after it.",
		25000, 500000, genC07, runC07)
	reg("C08", "renamedir",
		"case: 1..12 files in clustered directories, old and new directory (present, absent, nested in each other, prefix siblings, root, equal), skip mode, with or without trailing slash, through root or a sub-workspace. Validity oracle: files outside untouched, each moved file at its relative place, count, collisions. Non-trivial: at least one file below the old directory.",
		40000, 800000, genC08, runC08)
	reg("C09", "info",
		"case: session history with information changes (any tags incl. path, offset, size; also packages without files); whenever the package is openable both readers are compared with each other and with the last finalised model. Non-trivial: information present at some finalise.",
		20000, 400000, genC09, runC09)
	reg("C10", "handles",
		"case: 1..5 files with boundary sizes (around 4K, 32K, 64K, 128K and page offsets), 1..4 handles on them, 1..20 read, read-at, seek, read-all, stat and reopen operations, executed in bulk, mmap and fsys modes against bytes.Reader. Non-trivial: two handles or a seek, and a non-empty file.",
		4000, 80000, genC10, runC10)
}

// rawPkg returns bytes of package parts with the path tag of each file placed among other tags.
func rawPkg(files []c01File, order []int, info []Tag, split bool) (wpt, wpf []byte) {
	var data []byte
	var base uint64
	if !split {
		base = 64
	}
	var recs = [][]byte{encTags(info)}
	for i, f := range files {
		var b = f.Blob.Bytes()
		var tags = append([]Tag{{1, uintBytes(base + uint64(len(data)))}, {2, uintBytes(uint64(len(b)))}}, f.Tags...)
		var k = 2
		if i < len(order) {
			k = order[i] % (len(tags) + 1)
		}
		tags = append(tags[:k:k], append([]Tag{{3, []byte(f.Key)}}, tags[k:]...)...)
		recs = append(recs, encTags(tags))
		data = append(data, b...)
	}
	var table = encTable(recs)
	var h = rawHeader{signReady, uint64(len(files)), 64, uint64(len(table)), base, uint64(len(data))}
	if split {
		return append(h.bytes(), table...), data
	}
	h.FttOffset += uint64(len(data))
	return append(append(h.bytes(), data...), table...), nil
}

// rigOf makes the rig with given files, packed live or parsed from bytes.
func rigOf(split, parsed bool, files []c01File, order []int) (*Rig, error) {
	var mode = modeSingleSame
	if split {
		mode = modeSplit
	}
	var r = newRig(mode, nil)
	if parsed {
		r.wpt.buf, r.wpf.buf = rawPkg(files, order, nil, split)
		if err := r.reopen(); err != nil {
			return nil, err
		}
		for _, f := range files {
			r.m.put(f.Key, f.Blob.Bytes(), f.Tags)
		}
		if err := r.append(); err != nil {
			return nil, err
		}
		return r, nil
	}
	if err := r.begin(); err != nil {
		return nil, err
	}
	for _, f := range files {
		if err := r.do(Op{K: "put", A: f.Key, Blob: f.Blob, Tags: f.Tags}); err != nil {
			return nil, err
		}
	}
	return r, nil
}

var sameLen = []string{"img/fileA", "img/fileB", "img/fileC", "imgXfileA", "other/abc"}

func genC07(t *rapid.T) (c c07Case) {
	c.Split, c.Parsed = rapid.Bool().Draw(t, "split"), chance(t, "parsed", 60)
	var key = func(t *rapid.T) string {
		switch ri(t, "kc", 0, 3) {
		case 0, 1:
			return pick(t, "same", sameLen)
		case 2:
			return genSmallKey(t)
		}
		return genKey(t)
	}
	var keys = rapid.SliceOfNDistinct(rapid.Custom(key), 1, 5, rapid.ID[string]).Draw(t, "keys")
	for _, k := range keys {
		c.Files = append(c.Files, c01File{k, Blob{ri(t, "len", 0, 20), uint32(ri(t, "seed", 1, 1<<16))}, genTags(t, 3), 0})
		c.Order = append(c.Order, ri(t, "order", 0, 5))
	}
	var live = append([]string{}, keys...)
	var old = func() string {
		if chance(t, "absent", 12) {
			return key(t)
		}
		return pick(t, "old", live)
	}
	for i, n := 0, ri(t, "ops", 1, 14); i < n; i++ {
		var op = Op{K: pick(t, "op", []string{"rename", "rename", "alias", "alias", "del", "settag", "deltag", "inplace"})}
		op.A = old()
		switch op.K {
		case "rename", "alias":
			if op.B = key(t); chance(t, "taken", 10) {
				op.B = pick(t, "live", live)
			}
			live = append(live, op.B)
		case "settag":
			op.TID, op.Val, op.Flag = genTID(t), genVal(t, false), rapid.Bool().Draw(t, "setup")
		case "deltag":
			op.TID = genTID(t)
			for _, f := range c.Files {
				if f.Key == op.A && len(f.Tags) > 0 {
					op.TID = pick(t, "tag", f.Tags).ID
				}
			}
		case "inplace":
			op.TID = uint16(ri(t, "nth", 0, 5))
			op.Val = []byte{byte(ri(t, "fill", 0, 255))}
		}
		c.Ops = append(c.Ops, op)
	}
	return
}

// snapshot keeps tagset bytes of all entries.
func snapshot(pkg *wpk.Package) (keys []string, m map[string]string) {
	m = map[string]string{}
	pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		keys = append(keys, k)
		m[k] = string(ts)
		return true
	})
	return
}

func runC07(c *Ctx, cs c07Case) error {
	r, err := rigOf(cs.Split, cs.Parsed, cs.Files, cs.Order)
	if err != nil {
		return err
	}
	r.pkg.Tagger = memTagger{r.data().Bytes()}
	var moved, after int
	for i, op := range cs.Ops {
		_, before := snapshot(r.pkg)
		var touched = map[string]bool{}
		if op.K == "inplace" {
			// the tag gets other value of the same length in place, it changes only this entry
			var e = r.m.find(op.A)
			ts, ok := r.pkg.GetTagset(op.A)
			if ok != (e != nil) {
				return fmt.Errorf("step %d: lookup of %q gives %v", i, op.A, ok)
			}
			if e == nil || len(e.Tags) == 0 {
				continue
			}
			var ids = sortedKeys(e.Tags)
			var id = ids[int(op.TID)%len(ids)]
			var v = bytes.Repeat(op.Val, len(e.Tags[id]))
			r.pkg.SetTagset(op.A, ts.Set(id, v))
			e.Tags[id] = v
			touched[op.A] = true
			after++
		} else {
			var had = r.m.find(op.A) != nil && r.m.find(op.B) == nil
			if err := r.do(op); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			switch {
			case op.K == "rename" && had:
				touched[op.A], touched[op.B] = true, true
				moved++
			case op.K == "alias" && had:
				touched[op.B] = true
				moved++
			case op.K == "del", op.K == "settag", op.K == "deltag":
				touched[op.A] = true
				if had && moved > 0 {
					after++
				}
			}
		}
		if moved > 1 || moved > 0 && after > 0 {
			c.NonTrivial()
		}
		_, now := snapshot(r.pkg)
		for _, k := range sortedKeys(before) {
			if !touched[k] && now[k] != before[k] {
				return fmt.Errorf("step %d: %s %q %q changes tagset of %q from %x to %x", i, op.K, op.A, op.B, k, before[k], now[k])
			}
		}
		if err := checkPkg(r.pkg, r.m); err != nil {
			return fmt.Errorf("step %d: after %s %q %q: %w", i, op.K, op.A, op.B, err)
		}
		c.Label("op %s", op.K)
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("finalise: %w", err)
	}
	return checkImage(r.m, r.split(), r.wpt.Bytes(), r.wpf.Bytes())
}

func genC08(t *rapid.T) (c c08Case) {
	var dirs = []string{"img", "img1", "im", "img/d", "img/img", "img/d/img", "d", "d/img", "x", "img1/d", "img/img/d"}
	var g = rapid.Custom(func(t *rapid.T) string {
		var leaf = pick(t, "leaf", []string{"f", "g.bin", "longer-name-of-the-file.txt"})
		if chance(t, "root", 10) {
			return leaf
		}
		return pick(t, "dir", dirs) + "/" + leaf
	})
	c.Keys = rapid.SliceOfNDistinct(g, 1, 12, rapid.ID[string]).Draw(t, "keys")
	var dir = func(label string) string {
		switch ri(t, label+"c", 0, 9) {
		case 0:
			return ""
		case 1, 2, 3, 4:
			var k = pick(t, label+"of", c.Keys)
			if d := path.Dir(k); d != "." {
				return d
			}
		}
		return pick(t, label, dirs)
	}
	c.Old, c.New = dir("old"), dir("new")
	c.Skip = rapid.Bool().Draw(t, "skip")
	c.Parsed = rapid.Bool().Draw(t, "parsed")
	c.Slash = ri(t, "slash", 0, 5)
	if chance(t, "sub", 35) {
		c.Sub = pick(t, "ws", []string{"ws", "img", "a/b"})
	}
	return
}

func runC08(c *Ctx, cs c08Case) error {
	var pre string
	if cs.Sub != "" {
		pre = cs.Sub + "/"
	}
	var files []c01File
	for i, k := range cs.Keys {
		files = append(files, c01File{pre + k, Blob{i + 1, uint32(i + 1)}, []Tag{{100, []byte{byte(i)}}, {10, []byte(k)}}, 0})
	}
	if cs.Sub != "" {
		// outside of the workspace
		for i, k := range []string{"img/f", cs.Sub + "1/img/f", "outer"} {
			files = append(files, c01File{"zz" + k, Blob{90 + i, uint32(100 + i)}, nil, 0})
			if k != "img/f" {
				files = append(files, c01File{k, Blob{95 + i, uint32(200 + i)}, nil, 0})
			}
		}
	}
	r, err := rigOf(false, cs.Parsed, files, []int{0, 1, 2, 3, 4})
	if err != nil {
		return err
	}
	r.pkg.Tagger = memTagger{r.data().Bytes()}
	var pkg = r.pkg
	if cs.Sub != "" {
		sub, err := r.pkg.Sub(cs.Sub)
		if err != nil {
			return fmt.Errorf("sub: %w", err)
		}
		pkg = sub.(*wpk.Package)
	}
	var olddir, newdir = cs.Old, cs.New
	if cs.Slash&1 != 0 && olddir != "" {
		olddir += "/"
	}
	if cs.Slash&2 != 0 && newdir != "" {
		newdir += "/"
	}
	n, rerr := pkg.RenameDir(olddir, newdir, cs.Skip)
	var ocls = errClass(rerr)

	// where each file can be
	var below = func(k string) (string, bool) {
		if !strings.HasPrefix(k, pre) {
			return "", false
		}
		k = k[len(pre):]
		var d = strings.TrimSuffix(olddir, "/")
		if d == "" {
			return k, true
		}
		if strings.HasPrefix(k, d+"/") {
			return k[len(d)+1:], true
		}
		return "", false
	}
	var target = func(rel string) string {
		if d := strings.TrimSuffix(newdir, "/"); d != "" {
			return pre + d + "/" + rel
		}
		return pre + rel
	}
	var before = map[string]bool{}
	for _, f := range files {
		before[f.Key] = true
	}
	var now = map[string]string{} // content -> name
	var m = &Model{}
	var moved, matched, static int
	keys, _ := snapshot(r.pkg)
	for _, k := range keys {
		b, err := r.pkg.ReadFile(k)
		if err != nil {
			return fmt.Errorf("reading of %q: %w", k, err)
		}
		if _, dup := now[string(b)]; dup {
			return fmt.Errorf("content of %q is met twice", k)
		}
		now[string(b)] = k
	}
	if len(keys) != len(files) {
		return fmt.Errorf("renaming %q -> %q: %d files become %d: %q", olddir, newdir, len(files), len(keys), keys)
	}
	var clash bool
	for _, f := range files {
		var data = f.Blob.Bytes()
		k, ok := now[string(data)]
		if !ok {
			return fmt.Errorf("renaming %q -> %q: content of %q is lost", olddir, newdir, f.Key)
		}
		m.put(k, data, f.Tags)
		rel, in := below(f.Key)
		if !in {
			if k != f.Key {
				return fmt.Errorf("renaming %q -> %q: file %q outside of the directory becomes %q", olddir, newdir, f.Key, k)
			}
			continue
		}
		matched++
		var to = target(rel)
		var occupied = before[to]
		var _, occupantMoves = below(to)
		if occupied {
			clash = true
		}
		switch k {
		case to:
			if to != f.Key {
				moved++
				if occupied && !occupantMoves {
					return fmt.Errorf("renaming %q -> %q: %q is moved over existing %q", olddir, newdir, f.Key, to)
				}
			}
		case f.Key:
			if !occupied && (cs.Skip || rerr == nil) {
				return fmt.Errorf("renaming %q -> %q: %q is not moved", olddir, newdir, f.Key)
			}
			if occupied && !occupantMoves {
				static++
			}
		default:
			return fmt.Errorf("renaming %q -> %q: %q becomes %q, want %q", olddir, newdir, f.Key, k, to)
		}
	}
	if n != moved && !(olddir == newdir && n <= matched) && strings.TrimSuffix(olddir, "/") != strings.TrimSuffix(newdir, "/") {
		return fmt.Errorf("renaming %q -> %q: count is %d, moved %d", olddir, newdir, n, moved)
	}
	var same = strings.TrimSuffix(olddir, "/") == strings.TrimSuffix(newdir, "/")
	switch {
	case ocls == "ok":
		if !cs.Skip && static > 0 && !same {
			return fmt.Errorf("renaming %q -> %q: collision is not reported", olddir, newdir)
		}
	case ocls == "exist":
		if cs.Skip || !clash {
			return fmt.Errorf("renaming %q -> %q, skip=%v: unexpected %v", olddir, newdir, cs.Skip, rerr)
		}
	default:
		return fmt.Errorf("renaming %q -> %q: unexpected %v", olddir, newdir, rerr)
	}
	var order = m.keys()
	_ = order
	if err := checkPkgUnordered(r.pkg, m); err != nil {
		return fmt.Errorf("renaming %q -> %q: %w", olddir, newdir, err)
	}
	if matched > 0 {
		c.NonTrivial()
	}
	c.Label("result %s", ocls)
	if cs.Sub != "" {
		c.Label("sub-workspace")
	}
	if clash {
		c.Label("collision")
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("finalise: %w", err)
	}
	var p2 = wpk.NewPackage()
	if err := p2.OpenStream(bytes.NewReader(r.wpt.Bytes())); err != nil {
		return fmt.Errorf("open: %w", err)
	}
	p2.Tagger = memTagger{r.data().Bytes()}
	return checkPkgUnordered(p2, m)
}

// checkPkgUnordered compares the package with the model without order of files.
func checkPkgUnordered(pkg *wpk.Package, m *Model) error {
	keys, _ := snapshot(pkg)
	var m2 = &Model{Info: m.Info}
	for _, k := range keys {
		var e = m.find(k)
		if e == nil {
			return fmt.Errorf("unexpected file %q", k)
		}
		m2.Ents = append(m2.Ents, e)
	}
	if len(keys) != len(m.Ents) {
		return fmt.Errorf("files are %q, want %q", keys, m.keys())
	}
	return checkPkg(pkg, m2)
}

func genC09(t *rapid.T) (c c09Case) {
	var g = &histGen{small: true, maxtag: 1, kinds: []string{"info", "info", "put", "del", "info", "settag"}}
	c.Hist = g.hist(t, 4, 4)
	for i := range c.Hist.Sess {
		for j := range c.Hist.Sess[i].Ops {
			var op = &c.Hist.Sess[i].Ops[j]
			if op.K == "info" && chance(t, "special", 25) {
				op.Tags = append(op.Tags, Tag{3, []byte("img/f")}, Tag{1, []byte{64}}, Tag{2, []byte{0}})
			}
			if op.K == "info" && chance(t, "big", 6) {
				op.Tags = append(op.Tags, Tag{60000, Blob{pick(t, "biglen", []int{30000, 40000}), 5}.Bytes()})
			}
		}
	}
	return
}

func runC09(c *Ctx, cs c09Case) error {
	var h = cs.Hist
	var r = newRig(h.Mode, nil)
	var last *Model // finalised state
	var withInfo, compared int
	var check = func(at string, ready bool) error {
		hdr, info, err1 := wpk.GetPackageInfo(bytes.NewReader(r.wpt.Bytes()))
		var pkg = wpk.NewPackage()
		var err2 = pkg.OpenStream(bytes.NewReader(r.wpt.Bytes()))
		if (err1 == nil) != (err2 == nil) {
			return fmt.Errorf("%s: quick reader gives %v, opening gives %v", at, err1, err2)
		}
		if err2 != nil {
			if ready || r.split() {
				return fmt.Errorf("%s: %w", at, err2)
			}
			if !errors.Is(err1, wpk.ErrSignPre) || !errors.Is(err2, wpk.ErrSignPre) {
				return fmt.Errorf("%s: unfinished package gives %v and %v", at, err1, err2)
			}
			return nil
		}
		compared++
		if d := diffBytes(info, pkg.GetInfo()); d != "" {
			return fmt.Errorf("%s: quick reader and opening give different information: %s", at, d)
		}
		if hdr.Count() != pkg.TagsetNum() {
			return fmt.Errorf("%s: quick reader gives %d entries, opening gives %d", at, hdr.Count(), pkg.TagsetNum())
		}
		if hdr.DataSize() != pkg.DataSize() {
			return fmt.Errorf("%s: quick reader gives data size %d, opening gives %d", at, hdr.DataSize(), pkg.DataSize())
		}
		if err := hdr.IsReady(); err != nil {
			return fmt.Errorf("%s: header: %w", at, err)
		}
		var want = &Model{}
		if last != nil {
			want = last
		}
		if err := checkInfo(info, want.Info); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		var keys, _ = snapshot(pkg)
		if strings.Join(keys, "\n") != strings.Join(want.keys(), "\n") {
			return fmt.Errorf("%s: files are %q, want %q", at, keys, want.keys())
		}
		for _, k := range want.keys() {
			if !pkg.HasTagset(k) {
				return fmt.Errorf("%s: no %q", at, k)
			}
		}
		return nil
	}
	for i, s := range h.Sess {
		if i == 0 {
			if err := r.begin(); err != nil {
				return fmt.Errorf("begin: %w", err)
			}
		} else {
			if s.Reopen {
				if err := r.reopen(); err != nil {
					return fmt.Errorf("session %d: %w", i, err)
				}
				if err := checkInfo(r.pkg.GetInfo(), last.Info); err != nil {
					return fmt.Errorf("session %d: reopened: %w", i, err)
				}
			}
			if err := r.before(s); err != nil {
				return fmt.Errorf("session %d: %w", i, err)
			}
			if err := r.append(); err != nil {
				return fmt.Errorf("session %d: append: %w", i, err)
			}
		}
		if err := check(fmt.Sprintf("session %d start", i), false); err != nil {
			return err
		}
		for j, op := range s.Ops {
			if err := r.do(op); err != nil {
				return fmt.Errorf("session %d operation %d: %w", i, j, err)
			}
			if op.K == "flush" {
				last = r.m.clone()
			}
			if err := checkInfo(r.pkg.GetInfo(), r.m.Info); err != nil {
				return fmt.Errorf("session %d operation %d: %w", i, j, err)
			}
			if err := check(fmt.Sprintf("session %d operation %d", i, j), false); err != nil {
				return err
			}
		}
		if err := r.sync(); err != nil {
			return fmt.Errorf("session %d: finalise: %w", i, err)
		}
		last = r.m.clone()
		if len(last.Info) > 0 {
			withInfo++
			if len(last.Ents) == 0 {
				c.Label("info without files")
			}
		}
		if err := check(fmt.Sprintf("session %d end", i), true); err != nil {
			return err
		}
	}
	c.Count("compared_states", compared)
	c.Label("mode %d", h.Mode)
	if withInfo > 0 {
		c.NonTrivial()
	}
	return nil
}

func genC10(t *rapid.T) (c c10Case) {
	c.Split = rapid.Bool().Draw(t, "split")
	var n = ri(t, "files", 1, 5)
	if rapid.Bool().Draw(t, "sub") {
		c.Sub = pick(t, "ws", []string{"ws", "a/b"})
	}
	for i := 0; i < n; i++ {
		var k = fmt.Sprintf("%s%d.bin", pick(t, "dir", []string{"", "d/", "d/e/"}), i)
		if c.Sub != "" {
			k = c.Sub + "/" + k
		}
		var b = genBlob(t, true)
		if b.Seed == 0 {
			b.Seed = 9
		}
		if i == 0 && rapid.Bool().Draw(t, "filler") { // shifts the following files near the mapping granularity
			b.Len = pick(t, "fill", []int{65536 - 64, 65536, 4096 - 64, 65536 - 64 - 5}) + ri(t, "fd", -2, 2)
		}
		c.Files = append(c.Files, c01File{Key: k, Blob: b, Tags: maybeTags(t)})
	}
	var hn = ri(t, "handles", 1, 4)
	for i := 0; i < hn; i++ {
		c.Opens = append(c.Opens, ri(t, "of", 0, n-1))
		c.How = append(c.How, ri(t, "how", 0, 2))
	}
	var on = ri(t, "opsnum", 1, 20)
	for i := 0; i < on; i++ {
		var op = c10Op{H: ri(t, "h", 0, hn-1), K: pick(t, "k", []string{"read", "read", "readat", "readat", "seek", "seek", "all", "stat", "reopen", "full", "other", "closed"})}
		var size = c.Files[c.Opens[op.H]].Blob.Len
		var around = func(label string) int64 {
			switch ri(t, label+"c", 0, 4) {
			case 0:
				return int64(ri(t, label, -3, 3))
			case 1:
				return int64(size + ri(t, label, -3, 3))
			case 2:
				return int64(-size + ri(t, label, -3, 3))
			case 3:
				return int64(ri(t, label, -size, size))
			}
			return int64(ri(t, label, 0, size+2))
		}
		op.N = pick(t, "n", []int{0, 1, 2, 5, 16, 512, 4096, 70000})
		if rapid.Bool().Draw(t, "exact") {
			op.N = size + ri(t, "dn", -1, 1)
			if op.N < 0 {
				op.N = 0
			}
		}
		op.Off = around("off")
		op.Whence = ri(t, "whence", 0, 2)
		c.Ops = append(c.Ops, op)
	}
	return
}

type c10Handle struct {
	f    wpk.RFile
	ref  *bytes.Reader
	data []byte
	file c01File
}

func runC10(c *Ctx, cs c10Case) error {
	wpt, wpf := encPkg(cs.Files, nil, cs.Split)
	// something follows the data in the file, that never should be seen
	if cs.Split {
		wpf = append(wpf, "tail of the file that belongs to nobody"...)
	}
	var pp, dp = saveImage(c.Dir(), "p", cs.Split, wpt, wpf)
	for _, mode := range tgrModes {
		pkg, err := openDisk(pp, dp, mode)
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
		err = c10Mode(cs, pkg)
		pkg.Close()
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
	}
	var seeks, big bool
	for _, op := range cs.Ops {
		seeks = seeks || op.K == "seek"
		c.Label("op %s", op.K)
	}
	for _, k := range cs.Opens {
		big = big || cs.Files[k].Blob.Len > 0
	}
	if (seeks || len(cs.Opens) > 1) && big {
		c.NonTrivial()
	}
	return nil
}

// usedClosed calls closed handle.
func (h *c10Handle) usedClosed(op c10Op, rest []byte) (err error) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("use of the closed file: %v", p)
		}
	}()
	var buf = make([]byte, min(op.N+1, 100))
	n, err := h.f.ReadAt(buf, 0)
	if want := min(len(buf), len(h.data)); err == nil && n != want || n > want || !bytes.Equal(buf[:n], h.data[:n]) {
		return fmt.Errorf("closed file gives at the beginning %d bytes %x, %v", n, buf[:n], err)
	}
	if n, err = h.f.Read(buf); n > len(rest) || !bytes.Equal(buf[:n], rest[:n]) || n == 0 && err == nil || n == 0 && err == io.EOF && len(rest) > 0 {
		return fmt.Errorf("closed file gives %d bytes %x, %v, %d bytes remained", n, buf[:n], err, len(rest))
	}
	h.f.Seek(op.Off, op.Whence)
	if fi, err := h.f.Stat(); err == nil && fi.Size() != int64(len(h.data)) {
		return fmt.Errorf("closed file has size %d", fi.Size())
	}
	h.f.Close() // outcome depends on the mode
	return nil
}

func c10Mode(cs c10Case, root *wpk.Package) error {
	var pkg = root
	var trim = 0
	if cs.Sub != "" {
		s, err := root.Sub(cs.Sub)
		if err != nil {
			return err
		}
		pkg, trim = s.(*wpk.Package), len(cs.Sub)+1
	}
	var open = func(file c01File, how int) (*c10Handle, error) {
		var name = file.Key[trim:]
		var f fs.File
		var err error
		switch how {
		case 0:
			f, err = pkg.Open(name)
		case 1:
			f, err = root.Open(file.Key)
		default:
			ts, ok := pkg.GetTagset(name)
			if !ok {
				return nil, fmt.Errorf("%q is not found", name)
			}
			f, err = pkg.OpenTagset(ts)
		}
		if err != nil {
			return nil, fmt.Errorf("opening of %q: %w", name, err)
		}
		rf, ok := f.(wpk.RFile)
		if !ok {
			return nil, fmt.Errorf("file %q is not random access", name)
		}
		var data = file.Blob.Bytes()
		return &c10Handle{rf, bytes.NewReader(data), data, file}, nil
	}
	var hs []*c10Handle
	defer func() {
		for _, h := range hs {
			h.f.Close()
		}
	}()
	for i, k := range cs.Opens {
		h, err := open(cs.Files[k], cs.How[i])
		if err != nil {
			return err
		}
		hs = append(hs, h)
	}
	for i, op := range cs.Ops {
		var h = hs[op.H]
		var where = fmt.Sprintf("operation %d (%s n=%d off=%d whence=%d) on %q of %d bytes", i, op.K, op.N, op.Off, op.Whence, h.file.Key, len(h.data))
		var pos, _ = h.ref.Seek(0, io.SeekCurrent)
		var rest []byte
		if pos < int64(len(h.data)) {
			rest = h.data[pos:]
		}
		switch op.K {
		case "read":
			var buf = make([]byte, op.N)
			n, err := h.f.Read(buf)
			if n < 0 || n > len(buf) || n > len(rest) || !bytes.Equal(buf[:n], rest[:n]) {
				return fmt.Errorf("%s: got %d bytes %x", where, n, cut(buf[:min(max(n, 0), len(buf))], 0))
			}
			if op.N > 0 {
				if n == 0 && (err != io.EOF || len(rest) > 0) {
					return fmt.Errorf("%s: no bytes, %v, %d bytes remained", where, err, len(rest))
				}
				if n > 0 && err != nil && !(err == io.EOF && n == len(rest)) {
					return fmt.Errorf("%s: %w", where, err)
				}
			}
			h.ref.Seek(pos+int64(n), io.SeekStart)
		case "full":
			var buf = make([]byte, op.N)
			n, err := io.ReadFull(h.f, buf)
			var want = min(op.N, len(rest))
			if n != want || !bytes.Equal(buf[:n], rest[:n]) || (err == nil) != (n == op.N) {
				return fmt.Errorf("%s: got %d bytes, %v, want %d bytes", where, n, err, want)
			}
			h.ref.Seek(pos+int64(n), io.SeekStart)
		case "readat":
			var buf = make([]byte, op.N)
			n, err := h.f.ReadAt(buf, op.Off)
			if op.Off < 0 {
				if err == nil || n != 0 {
					return fmt.Errorf("%s: no error at negative offset", where)
				}
				break
			}
			var want []byte
			if op.Off < int64(len(h.data)) {
				want = h.data[op.Off:]
			}
			if len(want) > op.N {
				want = want[:op.N]
			}
			if n != len(want) || !bytes.Equal(buf[:n], want) {
				return fmt.Errorf("%s: got %d bytes, want %d", where, n, len(want))
			}
			if n < op.N && err != io.EOF {
				return fmt.Errorf("%s: short reading gives %v", where, err)
			}
			if n == op.N && err != nil && !(err == io.EOF && op.Off+int64(n) >= int64(len(h.data))) {
				return fmt.Errorf("%s: %w", where, err)
			}
			for _, b := range buf[n:] {
				if b != 0 {
					return fmt.Errorf("%s: bytes after the end of file are exposed", where)
				}
			}
		case "seek":
			n1, err1 := h.f.Seek(op.Off, op.Whence)
			n2, err2 := h.ref.Seek(op.Off, op.Whence)
			if (err1 == nil) != (err2 == nil) || (err1 == nil && n1 != n2) {
				return fmt.Errorf("%s: got %d, %v, want %d, %v", where, n1, err1, n2, err2)
			}
		case "all":
			b, err := io.ReadAll(h.f)
			if err != nil || !bytes.Equal(b, rest) {
				return fmt.Errorf("%s: %s, %v", where, diffBytes(b, rest), err)
			}
			h.ref.Seek(max(pos, int64(len(h.data))), io.SeekStart)
		case "stat":
			fi, err := h.f.Stat()
			if err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			if fi.Name() != path.Base(h.file.Key) || fi.Size() != int64(len(h.data)) || fi.IsDir() || fi.Mode().IsDir() {
				return fmt.Errorf("%s: name %q, size %d, mode %v, dir %v", where, fi.Name(), fi.Size(), fi.Mode(), fi.IsDir())
			}
		case "closed": // a closed handle gives an error or the same bytes
			if err := h.f.Close(); err != nil {
				return fmt.Errorf("%s: closing: %w", where, err)
			}
			if err := h.usedClosed(op, rest); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			h2, err := open(h.file, op.Whence)
			if err != nil {
				return err
			}
			hs[op.H] = h2
		case "reopen":
			if err := h.f.Close(); err != nil {
				return fmt.Errorf("%s: closing: %w", where, err)
			}
			h2, err := open(h.file, op.Whence)
			if err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			hs[op.H] = h2
		case "other":
			var file = cs.Files[op.N%len(cs.Files)]
			b, err := pkg.ReadFile(file.Key[trim:])
			if err != nil {
				return fmt.Errorf("%s: reading of %q: %w", where, file.Key, err)
			}
			if d := diffBytes(b, file.Blob.Bytes()); d != "" {
				return fmt.Errorf("%s: whole reading of %q: %s", where, file.Key, d)
			}
			b, err = fs.ReadFile(pkg, file.Key[trim:])
			if d := diffBytes(b, file.Blob.Bytes()); d != "" || err != nil {
				return fmt.Errorf("%s: fs.ReadFile of %q: %s, %v", where, file.Key, d, err)
			}
		}
	}
	return nil
}
