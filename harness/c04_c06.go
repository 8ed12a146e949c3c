package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

type c04Case struct {
	Split    bool
	Mut      string // how it was made
	Wpt, Wpf []byte
}

func init() {
	reg("C04", "malformed",
		"case: bytes of package parts made by an independent encoder and then left valid, truncated, bit-flipped, changed in a header field, record length, tag ID or length, given hand-made records with duplicated, missing, odd-width or out-of-range tags, spliced with another package, or fully random with or without a valid signature. Opened, enumerated, read by 3 access modes. Non-trivial: the bytes differ from a valid package and the signature is accepted.",
		9000, 180000, genC04, runC04)
	reg("C05", "tagset",
		"case: starting tagset (with or without spare capacity filled by garbage) and 1..20 operations put, add, set, delete with values of 0..3000 (rarely 65535) bytes over a pool of IDs with 0 and 65535; compared with an ordered list after every step. Non-trivial: at least one set or delete of a present tag followed by another present tag.",
		40000, 800000, genC05, runC05)
	reg("C05", "walk",
		"case: any bytes as a tagset: encoded tags (IDs may repeat), cut or extended by up to 12 bytes, or random small bytes; walking, counting and lookup are compared with an independent reading of the well-formed beginning, and an iterator refuses changes. Non-trivial: well-formed tags followed by a broken rest.",
		40000, 800000, genC05Raw, runC05Raw)
	reg("C06", "typed",
		"case: one value of one of 10 types with boundary classes (powers of two +-1, limits, NaN, negative and far times), stored among other tags and read back; and one payload of width 0..16 read by each typed reader. Non-trivial: every case whose value is not zero.",
		100000, 2000000, genC06, runC06)
}

var oddU64 = []uint64{0, 1, 2, 63, 64, 65, 127, 128, 255, 256, 1 << 15, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 64, math.MaxUint64 - 1, math.MaxUint64}

func genSmallFiles(t *rapid.T, hi int) (fs []c01File) {
	var n = ri(t, "files", 0, hi)
	var seen = map[string]bool{}
	for i := 0; i < n; i++ {
		var f = c01File{Key: genKey(t), Blob: Blob{ri(t, "len", 0, 40), uint32(ri(t, "seed", 1, 1<<16))}}
		if seen[f.Key] {
			continue
		}
		seen[f.Key] = true
		if rapid.Bool().Draw(t, "tagged") {
			f.Tags = genTags(t, 2)
		}
		fs = append(fs, f)
	}
	return
}

func genC04(t *rapid.T) (c c04Case) {
	c.Split = rapid.Bool().Draw(t, "split")
	var info []Tag
	if rapid.Bool().Draw(t, "info") {
		info = genTags(t, 2)
	}
	var files = genSmallFiles(t, 5)
	c.Wpt, c.Wpf = encPkg(files, info, c.Split)
	var muts = []string{"none", "truncate", "flip", "header", "header", "tablebyte", "tablebyte", "records", "records", "records", "records", "splice", "cutdata", "random", "randomsigned", "swap"}
	c.Mut = pick(t, "mut", muts)
	var h, _ = parseRawHeader(c.Wpt)
	switch c.Mut {
	case "truncate":
		c.Wpt = c.Wpt[:ri(t, "len", 0, len(c.Wpt))]
	case "cutdata":
		if c.Split {
			c.Wpf = c.Wpf[:ri(t, "len", 0, len(c.Wpf))]
		} else {
			c.Wpt = append(c.Wpt, genVal(t, false)...)
		}
	case "flip":
		for i, n := 0, ri(t, "n", 1, 4); i < n; i++ {
			c.Wpt[ri(t, "at", 0, len(c.Wpt)-1)] ^= 1 << ri(t, "bit", 0, 7)
		}
	case "header":
		for i, n := 0, ri(t, "n", 1, 2); i < n; i++ {
			var k = ri(t, "field", 0, 4)
			var p = []*uint64{&h.FttCount, &h.FttOffset, &h.FttSize, &h.DatOff, &h.DatLen}[k]
			switch ri(t, "how", 0, 2) {
			case 0:
				*p = pick(t, "odd", oddU64)
			case 1:
				*p += uint64(int64(ri(t, "delta", -70, 70)))
			default:
				*p = uint64(len(c.Wpt)) + uint64(int64(ri(t, "rel", -70, 3)))
			}
		}
		if chance(t, "sign", 20) {
			h.Sign = signBuild
		}
		copy(c.Wpt, h.bytes())
	case "tablebyte":
		var lo, hi = int(h.FttOffset), int(h.FttOffset + h.FttSize)
		for i, n := 0, ri(t, "n", 1, 3); i < n; i++ {
			c.Wpt[ri(t, "at", lo, hi-1)] = byte(pick(t, "val", []int{0, 1, 2, 3, 4, 8, 12, 127, 128, 254, 255, '\\', '/'}))
		}
	case "records":
		// hand-made records with a consistent header
		var recs = [][]byte{encTags(info)}
		var dat = h.DatLen
		var n = ri(t, "recs", 1, 4)
		for i := 0; i < n; i++ {
			recs = append(recs, encTags(genBadRecord(t, h.DatOff, dat)))
			if chance(t, "cut", 5) {
				var r = recs[len(recs)-1]
				recs[len(recs)-1] = r[:ri(t, "cutlen", 0, len(r))]
			}
		}
		var table = encTable(recs)
		var data = c.Wpt[64:64]
		if !c.Split {
			data = c.Wpt[64 : 64+h.DatLen]
		}
		var h2 = rawHeader{signReady, uint64(n), 64 + uint64(len(data)), uint64(len(table)), h.DatOff, dat}
		if chance(t, "badcount", 20) {
			h2.FttCount = uint64(ri(t, "count", 0, 200))
		}
		if chance(t, "baddat", 20) {
			h2.DatLen = pick(t, "dat", oddU64)
		}
		if chance(t, "inner", 20) && h2.DatLen > 4 { // data area declared smaller than the file
			h2.DatLen -= 3
			h2.DatOff += 2
		}
		c.Wpt = append(append(h2.bytes(), append([]byte{}, data...)...), table...)
	case "splice":
		var w2, f2 = encPkg(genSmallFiles(t, 4), info, c.Split)
		var a, b = ri(t, "cut1", 0, len(c.Wpt)), ri(t, "cut2", 0, len(w2))
		c.Wpt = append(append([]byte{}, c.Wpt[:a]...), w2[b:]...)
		if rapid.Bool().Draw(t, "data too") {
			c.Wpf = f2
		}
	case "swap":
		c.Wpt, c.Wpf = c.Wpf, c.Wpt
	case "random", "randomsigned":
		c.Wpt = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
		if c.Mut == "randomsigned" {
			h.Sign = pick(t, "sign", []string{signReady, signReady, signBuild})
			if rapid.Bool().Draw(t, "plausible") {
				h = rawHeader{h.Sign, uint64(ri(t, "cnt", 0, 5)), 64, uint64(len(c.Wpt)), uint64(pick(t, "do", []int{0, 64})), uint64(ri(t, "dl", 0, 300))}
			}
			c.Wpt = append(h.bytes(), c.Wpt...)
		}
	}
	return
}

// genBadRecord draws tags of a file record with some defect or without it.
func genBadRecord(t *rapid.T, base, datlen uint64) (tags []Tag) {
	var num = func(label string, around ...uint64) []byte {
		var v uint64
		switch ri(t, label+" class", 0, 4) {
		case 0:
			v = pick(t, label, oddU64)
		case 1:
			v = pick(t, label, around) + uint64(int64(ri(t, label+" d", -3, 3)))
		default:
			v = base + uint64(ri(t, label+" in", 0, int(datlen)))
			if label == "size" {
				v = uint64(ri(t, label+" in", 0, int(datlen)))
			}
		}
		switch ri(t, label+" width", 0, 9) {
		case 0:
			return le.AppendUint64(nil, v)
		case 1:
			return append(uintBytes(v), 0) // odd width
		case 2:
			return nil
		}
		return uintBytes(v)
	}
	var one = func(id int) Tag {
		switch id {
		case 1:
			return Tag{1, num("offset", 0, base, base+datlen, math.MaxUint64)}
		case 2:
			return Tag{2, num("size", 0, datlen, math.MaxUint64, math.MaxUint64-base)}
		case 3:
			return Tag{3, []byte(pick(t, "path", []string{"f", "g", "img/f", "img\\f", "", "/", "..", "../x", "f/", "@pack", ".", "a\x00b", "\\", "d/f"}))}
		}
		return Tag{genTID(t), genVal(t, false)}
	}
	for id := 1; id <= 3; id++ {
		if !chance(t, "absent", 4) {
			tags = append(tags, one(id))
		}
		if chance(t, "dup", 8) {
			tags = append(tags, one(id))
		}
	}
	if rapid.Bool().Draw(t, "more") {
		tags = append(tags, one(ri(t, "which", 1, 4)))
	}
	if chance(t, "shuffle", 30) {
		tags = rapid.Permutation(tags).Draw(t, "perm")
	}
	return
}

// allocOf measures bytes allocated by the function.
func allocOf(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func runC04(c *Ctx, cs c04Case) error {
	c.Label("mut %s", cs.Mut)
	var total = uint64(len(cs.Wpt) + len(cs.Wpf))
	var limit = 300*total + 1<<18
	var hdr, hok = parseRawHeader(cs.Wpt)
	if hok && (hdr.Sign == signReady || hdr.Sign == signBuild) && cs.Mut != "none" {
		c.NonTrivial()
	}
	var check = func(what string, f func()) error {
		var err = guard(func() error {
			if n := allocOf(f); n > limit {
				return fmt.Errorf("%d bytes are allocated for a package of %d bytes", n, total)
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	}
	// quick information
	if err := check("package info", func() { wpk.GetPackageInfo(bytes.NewReader(cs.Wpt)) }); err != nil {
		return err
	}
	var pkg = wpk.NewPackage()
	var oerr error
	if err := check("open", func() { oerr = pkg.OpenStream(bytes.NewReader(cs.Wpt)) }); err != nil {
		return err
	}
	if oerr != nil {
		c.Label("rejected")
		if cs.Mut == "none" {
			return fmt.Errorf("valid package is rejected: %w", oerr)
		}
		return nil
	}
	c.Label("accepted")
	if !hok || (hdr.Sign != signReady && hdr.Sign != signBuild) {
		return fmt.Errorf("package with incorrect signature is accepted")
	}
	var pp, dp string
	var whole = cs.Wpt
	if cs.Split {
		whole = cs.Wpf
	}
	pp, dp = saveImage(c.Dir(), "p", cs.Split, cs.Wpt, cs.Wpf)
	_ = pp
	type ent struct {
		key  string
		ts   wpk.TagsetRaw
		cand [][2]uint64
		dup  bool
	}
	var ents []ent
	var eerr error
	if err := check("enumeration", func() {
		pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
			ents = append(ents, ent{key: k, ts: ts})
			return true
		})
	}); err != nil {
		return err
	}
	for i := range ents {
		var e = &ents[i]
		tags, err := decTags(e.ts)
		if err != nil {
			return fmt.Errorf("entry %q with broken tagset is accepted", e.key)
		}
		var offs, sizes []uint64
		for _, tag := range tags {
			if v, ok := uintVal(tag.Val); ok {
				switch tag.ID {
				case 1:
					offs = append(offs, v)
				case 2:
					sizes = append(sizes, v)
				}
			}
		}
		var in = func(o, s uint64) bool {
			e1, c1 := bits.Add64(o, s, 0)
			e2, c2 := bits.Add64(hdr.DatOff, hdr.DatLen, 0)
			return c1 == 0 && c2 == 0 && o >= hdr.DatOff && e1 <= e2
		}
		e.dup = len(offs) > 1 || len(sizes) > 1
		for _, o := range offs {
			for _, s := range sizes {
				if in(o, s) {
					e.cand = append(e.cand, [2]uint64{o, s})
				}
			}
		}
		if len(e.cand) == 0 {
			return fmt.Errorf("entry %q (offsets %d, sizes %d) lies outside of the declared data %d+%d", e.key, offs, sizes, hdr.DatOff, hdr.DatLen)
		}
		// what the entry itself reports
		o, s := e.ts.Pos()
		if !in(uint64(o), uint64(s)) {
			return fmt.Errorf("entry %q at %d+%d lies outside of the declared data %d+%d", e.key, o, s, hdr.DatOff, hdr.DatLen)
		}
	}
	c.Count("entries", len(ents))
	var opened int
	for _, mode := range tgrModes {
		tgr, err := makeTagger(mode, dp)
		must(err)
		pkg.Tagger = tgr
		for _, e := range ents {
			var got []byte
			var rerr error
			var verify = func(what string) error {
				if rerr != nil {
					return nil
				}
				opened++
				for _, cd := range e.cand {
					if cd[0]+cd[1] <= uint64(len(whole)) && bytes.Equal(got, whole[cd[0]:cd[0]+cd[1]]) {
						return nil
					}
				}
				return fmt.Errorf("%s: %s of %q gives %x, that is not the range %v of the file of %d bytes", mode, what, e.key, clip(string(got), 40), e.cand, len(whole))
			}
			if err := check(mode+": reading of "+e.key, func() { got, rerr = pkg.ReadFile(e.key) }); err != nil {
				eerr = err
				break
			}
			if eerr = verify("whole reading"); eerr != nil {
				break
			}
			var okOne = rerr == nil
			if err := check(mode+": reading through a union of "+e.key, func() {
				got, rerr = (&wpk.Union{List: []*wpk.Package{pkg}}).ReadFile(e.key)
			}); err != nil {
				eerr = err
				break
			}
			if eerr = verify("reading through a union"); eerr != nil {
				break
			}
			if e.key != wpk.PackName && okOne != (rerr == nil) {
				eerr = fmt.Errorf("%s: %q is read from the package: %v, from a union with only this package: %v", mode, e.key, okOne, rerr)
				break
			}
			if err := check(mode+": opening of "+e.key, func() {
				var f io.ReadCloser
				if f, rerr = pkg.Tagger.OpenTagset(e.ts); rerr == nil {
					got, rerr = io.ReadAll(f)
					f.Close()
				}
			}); err != nil {
				eerr = err
				break
			}
			if eerr = verify("reading of opened file"); eerr != nil {
				break
			}
			if eerr = check(mode+": file system calls", func() {
				pkg.Stat(e.key)
				if f, err := pkg.Open(e.key); err == nil {
					f.Stat()
					f.Close()
				}
			}); eerr != nil {
				break
			}
		}
		if eerr == nil {
			eerr = check(mode+": directory calls", func() {
				pkg.ReadDir(".")
				if f, err := pkg.Open(wpk.PackName); err == nil {
					io.Copy(io.Discard, f)
					f.Close()
				}
				if s, err := pkg.Sub("img"); err == nil {
					_ = s
				}
			})
		}
		tgr.Close()
		if eerr != nil {
			return eerr
		}
	}
	c.Count("reads", opened)
	// the same from the disk file
	var p2 = wpk.NewPackage()
	if err := p2.OpenFile(filepath.Join(c.Dir(), filepath.Base(pp))); err != nil {
		return fmt.Errorf("opening from file fails, from stream does not: %w", err)
	}
	if _, err := os.Stat(pp); err != nil {
		infraf("package file disappeared")
	}
	return nil
}

type c05Op struct {
	K    string
	ID   uint16
	Val  Blob
	Self int // take the value from other tag
}

type c05Case struct {
	Init []Tag
	Cap  int // spare capacity
	Ops  []c05Op
}

var c05IDs = []uint16{0, 1, 2, 3, 255, 256, 65535, 770}

func genC05(t *rapid.T) (c c05Case) {
	var g = rapid.Custom(func(t *rapid.T) Tag { return Tag{pick(t, "id", c05IDs), genVal(t, false)} })
	c.Init = rapid.SliceOfNDistinct(g, 0, 5, func(x Tag) uint16 { return x.ID }).Draw(t, "init")
	c.Cap = pick(t, "cap", []int{-1, 0, 1, 3, 7, 50, 1000})
	for i, n := 0, ri(t, "ops", 1, 20); i < n; i++ {
		var op = c05Op{K: pick(t, "k", []string{"put", "add", "addok", "set", "setok", "set", "setok", "del", "delok", "setself"}), ID: pick(t, "id", c05IDs)}
		switch ri(t, "class", 0, 12) {
		case 0:
			op.Val.Len = pick(t, "len", []int{254, 255, 256, 257, 3000})
		case 1:
			if chance(t, "huge", 20) {
				op.Val.Len = pick(t, "len", []int{65534, 65535})
			}
		default:
			op.Val.Len = ri(t, "len", 0, 9)
		}
		op.Val.Seed = uint32(ri(t, "seed", 1, 1<<16))
		op.Self = ri(t, "self", 0, 7)
		c.Ops = append(c.Ops, op)
	}
	return
}

type tagList []Tag

func (l tagList) find(id uint16) int {
	for i, t := range l {
		if t.ID == id {
			return i
		}
	}
	return -1
}

func compareTagset(ts wpk.TagsetRaw, m tagList) error {
	if ts.Num() != len(m) {
		return fmt.Errorf("number of tags is %d, want %d", ts.Num(), len(m))
	}
	var tsi = ts.Iterator()
	for round := 0; round < 2; round++ {
		var i int
		for tsi.Next() {
			if i >= len(m) {
				return fmt.Errorf("more than %d tags", len(m))
			}
			if tsi.TID() != m[i].ID {
				return fmt.Errorf("tag %d has ID %d, want %d", i, tsi.TID(), m[i].ID)
			}
			if d := diffBytes(tsi.Tag(), m[i].Val); d != "" {
				return fmt.Errorf("tag %d with ID %d: %s", i, m[i].ID, d)
			}
			if tsi.TagLen() != len(m[i].Val) {
				return fmt.Errorf("tag %d length is %d, want %d", i, tsi.TagLen(), len(m[i].Val))
			}
			i++
		}
		if i != len(m) || tsi.Failed() || !tsi.Passed() {
			return fmt.Errorf("iteration gives %d tags of %d, failed=%v, passed=%v", i, len(m), tsi.Failed(), tsi.Passed())
		}
		tsi.Reset()
	}
	for _, id := range append([]uint16{4, 257, 65534}, c05IDs...) {
		var k = m.find(id)
		if ts.Has(id) != (k >= 0) {
			return fmt.Errorf("presence of tag %d is %v, want %v", id, ts.Has(id), k >= 0)
		}
		v, ok := ts.Get(id)
		if ok != (k >= 0) {
			return fmt.Errorf("lookup of tag %d is %v, want %v", id, ok, k >= 0)
		}
		if k >= 0 {
			if d := diffBytes(v, m[k].Val); d != "" {
				return fmt.Errorf("value of tag %d: %s", id, d)
			}
		}
	}
	if tags, err := decTags(ts); err != nil || len(tags) != len(m) {
		return fmt.Errorf("encoded tagset is broken")
	}
	return nil
}

func runC05(c *Ctx, cs c05Case) error {
	var ts wpk.TagsetRaw
	var m tagList
	for _, tag := range cs.Init {
		ts = ts.Put(tag.ID, tag.Val)
		m = append(m, tag)
	}
	switch {
	case cs.Cap == 0:
		ts = ts[:len(ts):len(ts)]
	case cs.Cap > 0:
		var b = Blob{len(ts) + cs.Cap, 77}.Bytes()
		copy(b, ts)
		ts = wpk.TagsetRaw(b[:len(ts)])
	}
	for n, op := range cs.Ops {
		var val = op.Val.Bytes()
		var k = m.find(op.ID)
		if op.K == "setself" {
			if op.Self < len(m) {
				v, ok := ts.Get(m[op.Self].ID)
				if !ok {
					return fmt.Errorf("step %d: tag %d is lost", n, m[op.Self].ID)
				}
				val = append([]byte{}, v...)
			}
			op.K = "setok"
		}
		if k >= 0 && k < len(m)-1 && op.K != "put" && op.K != "add" && op.K != "addok" {
			c.NonTrivial()
			c.Label("middle %s", op.K)
		}
		var flag, want bool
		var flagged = true
		switch op.K {
		case "put":
			if k >= 0 {
				continue // Put is for initialization, it makes duplicates
			}
			ts, flagged = ts.Put(op.ID, val), false
			m = append(m, Tag{op.ID, val})
		case "add", "addok":
			if op.K == "add" {
				ts, flagged = ts.Add(op.ID, val), false
			} else {
				ts, flag = ts.AddOk(op.ID, val)
			}
			if want = k < 0; want {
				m = append(m, Tag{op.ID, val})
			}
		case "set", "setok":
			if op.K == "set" {
				ts, flagged = ts.Set(op.ID, val), false
			} else {
				ts, flag = ts.SetOk(op.ID, val)
			}
			if want = k < 0; want {
				m = append(m, Tag{op.ID, val})
			} else {
				m[k].Val = val
			}
		case "del", "delok":
			if op.K == "del" {
				ts, flagged = ts.Del(op.ID), false
			} else {
				ts, flag = ts.DelOk(op.ID)
			}
			if want = k >= 0; want {
				m = append(m[:k:k], m[k+1:]...)
			}
		}
		if flagged && flag != want {
			return fmt.Errorf("step %d: %s of tag %d returns %v, want %v", n, op.K, op.ID, flag, want)
		}
		if err := compareTagset(ts, m); err != nil {
			return fmt.Errorf("step %d: after %s of tag %d with %d bytes: %w", n, op.K, op.ID, len(val), err)
		}
	}
	return compareTagset(wpk.CopyTagset(ts), m)
}

type c06Case struct {
	Type   string
	U      uint64
	Sec    int64
	Ns     int
	Len    int // for unsigned with given length
	Str    string
	Before []Tag
	After  []Tag
	Width  Blob // payload for width check
}

func genU64(t *rapid.T) uint64 {
	switch ri(t, "uclass", 0, 3) {
	case 0:
		return pick(t, "odd", oddU64)
	case 1:
		return uint64(1)<<ri(t, "pow", 0, 63) + uint64(int64(ri(t, "d", -1, 1)))
	case 2:
		return uint64(ri(t, "small", 0, 1000))
	}
	return rapid.Uint64().Draw(t, "u")
}

func genC06(t *rapid.T) (c c06Case) {
	c.Type = pick(t, "type", []string{"str", "bool", "byte", "u16", "u32", "u64", "uint", "uintlen", "number", "unixms", "time", "time", "unixms"})
	c.U = genU64(t)
	if c.Type == "number" && rapid.Bool().Draw(t, "special") {
		c.U = math.Float64bits(pick(t, "f", []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, -123456.789}))
	}
	switch ri(t, "secclass", 0, 3) {
	case 0:
		c.Sec = int64(ri(t, "sec", -3000, 3000))
	case 1:
		c.Sec = rapid.Int64Range(-1<<43, 1<<43).Draw(t, "sec")
	case 2:
		c.Sec = pick(t, "sec", []int64{0, -1, 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 253402300800, -62135596800, 9000000000000, -9000000000000})
	default:
		c.Sec = rapid.Int64Range(1000000000, 2000000000).Draw(t, "sec")
	}
	c.Ns = pick(t, "ns", []int{0, 1, 999, 1000, 999999, 1000000, 1000001, 123456789, 500000000, 999000000, 999999999})
	if rapid.Bool().Draw(t, "anyns") {
		c.Ns = ri(t, "nsec", 0, 999999999)
	}
	c.Len = pick(t, "ulen", []int{1, 2, 4, 8})
	c.Str = rapid.StringN(0, 20, 60).Draw(t, "str")
	c.Before = genTags(t, 2)
	c.After = genTags(t, 2)
	c.Width = Blob{ri(t, "width", 0, 16), uint32(ri(t, "wseed", 0, 1<<16))}
	return
}

func runC06(c *Ctx, cs c06Case) error {
	c.Label("type %s", cs.Type)
	const tid = 777
	var tag wpk.TagRaw
	var tm = time.Unix(cs.Sec, int64(cs.Ns))
	if cs.U%3 == 0 {
		tm = tm.UTC()
	}
	var u = cs.U
	var width = -1
	switch cs.Type {
	case "str":
		tag, width = wpk.StrTag(cs.Str), len(cs.Str)
	case "bool":
		tag, width = wpk.BoolTag(u&1 == 1), 1
	case "byte":
		tag, width = wpk.ByteTag(byte(u)), 1
	case "u16":
		tag, width = wpk.Uint16Tag(uint16(u)), 2
	case "u32":
		tag, width = wpk.Uint32Tag(uint32(u)), 4
	case "u64":
		tag, width = wpk.Uint64Tag(u), 8
	case "uint":
		tag, width = wpk.UintTag(uint(u)), len(uintBytes(u))
	case "uintlen":
		if cs.Len < 8 {
			u &= 1<<(8*cs.Len) - 1
		}
		tag, width = wpk.UintLenTag(uint(u), cs.Len), cs.Len
	case "number":
		tag, width = wpk.NumberTag(math.Float64frombits(u)), 8
	case "unixms":
		tag, width = wpk.UnixmsTag(tm), 8
	case "time":
		tag, width = wpk.TimeTag(tm), 12
	}
	if len(tag) != width {
		return fmt.Errorf("%s value has width %d, want %d", cs.Type, len(tag), width)
	}
	if u != 0 || cs.Sec != 0 || cs.Str != "" {
		c.NonTrivial()
	}
	var ts = tagset(cs.Before).Put(tid, tag)
	for _, x := range cs.After {
		ts = ts.Add(x.ID, x.Val)
	}
	ts = wpk.CopyTagset(ts)
	raw, ok := ts.Get(tid)
	if !ok {
		return fmt.Errorf("stored tag is not found")
	}
	var bad = func(got any, ok, gok bool, eq bool) error {
		if ok && gok && eq {
			return nil
		}
		return fmt.Errorf("%s value (u=%d, sec=%d, ns=%d, str=%q) is read back as %v, %v (getter: %v)", cs.Type, u, cs.Sec, cs.Ns, cs.Str, got, ok, gok)
	}
	switch cs.Type {
	case "str":
		a, ok1 := raw.TagStr()
		b, ok2 := ts.TagStr(tid)
		return bad(a, ok1, ok2, a == cs.Str && b == cs.Str)
	case "bool":
		a, ok1 := raw.TagBool()
		b, ok2 := ts.TagBool(tid)
		if err := bad(a, ok1, ok2, a == (u&1 == 1) && a == b); err != nil {
			return err
		}
	case "byte":
		a, ok1 := raw.TagByte()
		b, ok2 := ts.TagByte(tid)
		if err := bad(a, ok1, ok2, a == byte(u) && a == b); err != nil {
			return err
		}
	case "u16":
		a, ok1 := raw.TagUint16()
		b, ok2 := ts.TagUint16(tid)
		if err := bad(a, ok1, ok2, a == uint16(u) && a == b); err != nil {
			return err
		}
	case "u32":
		a, ok1 := raw.TagUint32()
		b, ok2 := ts.TagUint32(tid)
		if err := bad(a, ok1, ok2, a == uint32(u) && a == b); err != nil {
			return err
		}
	case "u64":
		a, ok1 := raw.TagUint64()
		b, ok2 := ts.TagUint64(tid)
		if err := bad(a, ok1, ok2, a == u && a == b); err != nil {
			return err
		}
	case "uint", "uintlen":
		a, ok1 := raw.TagUint()
		b, ok2 := ts.TagUint(tid)
		if err := bad(a, ok1, ok2, uint64(a) == u && a == b); err != nil {
			return err
		}
	case "number":
		a, ok1 := raw.TagNumber()
		b, ok2 := ts.TagNumber(tid)
		if err := bad(a, ok1, ok2, math.Float64bits(a) == u && math.Float64bits(b) == u); err != nil {
			return err
		}
	case "unixms":
		a, ok1 := raw.TagTime()
		b, ok2 := ts.TagTime(tid)
		// the instant is kept to the millisecond
		var d = tm.Sub(a)
		if err := bad(a, ok1, ok2, a.Equal(b) && d >= 0 && d < time.Millisecond && a.Nanosecond()%1000000 == 0); err != nil {
			return err
		}
		m, ok3 := raw.TagUnixms()
		m2, ok4 := ts.TagUnixms(tid)
		if err := bad(m, ok3, ok4, m == m2 && m == tm.UnixMilli()); err != nil {
			return err
		}
	case "time":
		a, ok1 := raw.TagTime()
		b, ok2 := ts.TagTime(tid)
		if err := bad(a, ok1, ok2, a.Equal(b) && a.Equal(tm)); err != nil {
			return err
		}
		m, ok3 := raw.TagUnixms()
		m2, ok4 := ts.TagUnixms(tid)
		if err := bad(m, ok3, ok4, m == m2 && m == tm.UnixMilli()); err != nil {
			return err
		}
	}
	// payload of any width
	var p = wpk.TagRaw(cs.Width.Bytes())
	var w = wpk.TagsetRaw{}.Put(5, []byte{1}).Put(tid, p)
	var oks = map[string][2]bool{}
	var widths = map[string][]int{"bool": {1}, "byte": {1}, "u16": {2}, "u32": {4}, "u64": {8}, "number": {8}, "uint": {1, 2, 4, 8}, "time": {8, 12}, "unixms": {8, 12}}
	{
		_, a := p.TagBool()
		_, b := w.TagBool(tid)
		oks["bool"] = [2]bool{a, b}
		_, a = p.TagByte()
		_, b = w.TagByte(tid)
		oks["byte"] = [2]bool{a, b}
		_, a = p.TagUint16()
		_, b = w.TagUint16(tid)
		oks["u16"] = [2]bool{a, b}
		_, a = p.TagUint32()
		_, b = w.TagUint32(tid)
		oks["u32"] = [2]bool{a, b}
		_, a = p.TagUint64()
		_, b = w.TagUint64(tid)
		oks["u64"] = [2]bool{a, b}
		_, a = p.TagNumber()
		_, b = w.TagNumber(tid)
		oks["number"] = [2]bool{a, b}
		_, a = p.TagUint()
		_, b = w.TagUint(tid)
		oks["uint"] = [2]bool{a, b}
		_, a = p.TagTime()
		_, b = w.TagTime(tid)
		oks["time"] = [2]bool{a, b}
		_, a = p.TagUnixms()
		_, b = w.TagUnixms(tid)
		oks["unixms"] = [2]bool{a, b}
	}
	for _, k := range sortedKeys(oks) {
		var want bool
		for _, n := range widths[k] {
			want = want || n == len(p)
		}
		if oks[k][0] != want || oks[k][1] != want {
			return fmt.Errorf("%s reader of payload with %d bytes gives %v, want %v", k, len(p), oks[k], want)
		}
	}
	// absent tag
	if err := absentTag(w, 778); err != nil {
		return err
	}
	// a width that is not an integer's is refused
	if n := len(p); n != 1 && n != 2 && n != 4 && n != 8 {
		if !panics(func() { wpk.UintLenTag(uint(u), n) }) {
			return fmt.Errorf("unsigned value of %d bytes is not refused", n)
		}
	}
	return nil
}

// absentTag checks that no typed reader gives a value for the tag that is not there.
func absentTag(ts wpk.TagsetRaw, tid uint16) error {
	var oks = map[string]bool{}
	_, oks["str"] = ts.TagStr(tid)
	_, oks["bool"] = ts.TagBool(tid)
	_, oks["byte"] = ts.TagByte(tid)
	_, oks["u16"] = ts.TagUint16(tid)
	_, oks["u32"] = ts.TagUint32(tid)
	_, oks["u64"] = ts.TagUint64(tid)
	_, oks["uint"] = ts.TagUint(tid)
	_, oks["number"] = ts.TagNumber(tid)
	_, oks["time"] = ts.TagTime(tid)
	_, oks["unixms"] = ts.TagUnixms(tid)
	_, oks["raw"] = ts.Get(tid)
	oks["has"] = ts.Has(tid)
	for _, k := range sortedKeys(oks) {
		if oks[k] {
			return fmt.Errorf("%s reader gives a value for the absent tag %d", k, tid)
		}
	}
	return nil
}

func panics(f func()) (yes bool) {
	defer func() {
		if p := recover(); p != nil {
			if inf, ok := p.(Infra); ok {
				panic(inf)
			}
			yes = true
		}
	}()
	f()
	return
}

type c05RawCase struct {
	Tags []Tag
	Cut  int // bytes cut off at the end
	Ext  []byte
	Rand []byte // used instead of all
}

func genC05Raw(t *rapid.T) (c c05RawCase) {
	if chance(t, "random", 20) {
		c.Rand = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 3, 4, 5, 255}), 0, 40).Draw(t, "rand")
		return
	}
	c.Tags = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Tag { return Tag{pick(t, "id", c05IDs), genVal(t, false)} }), 0, 5).Draw(t, "tags")
	if rapid.Bool().Draw(t, "cut?") {
		c.Cut = ri(t, "cut", 1, 12)
	} else if rapid.Bool().Draw(t, "ext?") {
		c.Ext = rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "ext")
	}
	return
}

// runC05Raw compares walking over any bytes with an independent reading of them.
func runC05Raw(c *Ctx, cs c05RawCase) error {
	var b []byte
	if cs.Rand != nil {
		b = append(b, cs.Rand...)
	} else {
		b = append(encTags(cs.Tags), cs.Ext...)
		b = b[:max(0, len(b)-cs.Cut)]
	}
	// reference reading of the well-formed beginning
	var m tagList
	var pos int
	for len(b)-pos >= 4 {
		var id, n = uint16(b[pos]) | uint16(b[pos+1])<<8, int(b[pos+2]) | int(b[pos+3])<<8
		if len(b)-pos-4 < n {
			break
		}
		m = append(m, Tag{id, b[pos+4 : pos+4+n : pos+4+n]})
		pos += 4 + n
	}
	var broken = pos != len(b)
	if broken && len(m) > 0 {
		c.NonTrivial()
	}
	c.Label("broken %v", broken)
	var orig = append([]byte{}, b...)
	b = b[:len(b):len(b)]
	var ts = wpk.TagsetRaw(b)
	if n := ts.Num(); n != len(m) {
		return fmt.Errorf("number of tags in %x is %d, want %d", orig, n, len(m))
	}
	var tsi = ts.Iterator()
	for round := 0; round < 2; round++ {
		for i, tag := range m {
			if tsi.Failed() {
				return fmt.Errorf("iteration over %x has failed before tag %d", orig, i)
			}
			if !tsi.Next() {
				return fmt.Errorf("iteration over %x stops before tag %d", orig, i)
			}
			if tsi.TID() != tag.ID || !bytes.Equal(tsi.Tag(), tag.Val) || tsi.TagLen() != len(tag.Val) {
				return fmt.Errorf("iteration over %x gives at %d tag %d %x, want %d %x", orig, i, tsi.TID(), tsi.Tag(), tag.ID, tag.Val)
			}
		}
		for k := 0; k < 3; k++ {
			if tsi.Next() {
				return fmt.Errorf("iteration over %x gives more than %d tags", orig, len(m))
			}
			if tsi.Failed() != broken || tsi.Passed() == broken {
				return fmt.Errorf("iteration over %x ends with failed=%v, passed=%v, want failed=%v", orig, tsi.Failed(), tsi.Passed(), broken)
			}
			if broken && (len(tsi.Tag()) != 0 || tsi.TagLen() != 0) {
				return fmt.Errorf("failed iteration over %x gives tag of %d bytes", orig, tsi.TagLen())
			}
		}
		// an iterator is not for changes
		for i, f := range []func(){
			func() { tsi.Put(3, []byte{1}) }, func() { tsi.Add(4, []byte{1}) }, func() { tsi.AddOk(4, []byte{1}) },
			func() { tsi.Set(3, []byte{1}) }, func() { tsi.SetOk(3, []byte{1}) }, func() { tsi.Del(3) }, func() { tsi.DelOk(3) },
		} {
			if !panics(f) {
				return fmt.Errorf("change number %d through an iterator is not refused", i)
			}
		}
		tsi.Reset()
	}
	for _, id := range append([]uint16{4, 257, 65534}, c05IDs...) {
		var k = m.find(id)
		if k < 0 {
			if err := absentTag(ts, id); err != nil {
				return fmt.Errorf("%x: %w", orig, err)
			}
			continue
		}
		if v, ok := ts.Get(id); !ok || !ts.Has(id) || !bytes.Equal(v, m[k].Val) {
			return fmt.Errorf("tag %d of %x is read as %x, %v, want %x", id, orig, v, ok, m[k].Val)
		}
		if v, ok := ts.TagStr(id); !ok || v != string(m[k].Val) {
			return fmt.Errorf("tag %d of %x is read as %q, %v, want %q", id, orig, v, ok, m[k].Val)
		}
	}
	var cp = wpk.CopyTagset(ts)
	if !bytes.Equal(b, orig) || !bytes.Equal(cp, orig) {
		return fmt.Errorf("reading changes the tagset, or the copy differs")
	}
	if len(cp) > 0 {
		cp[0]++
		if !bytes.Equal(b, orig) {
			return fmt.Errorf("the copy shares bytes with the original")
		}
	}
	return nil
}
