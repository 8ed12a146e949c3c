package main

import (
	"bytes"
	"cmp"
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Blob is content given by length and seed.
type Blob struct {
	Len  int
	Seed uint32 `json:",omitempty"`
}

// Bytes returns deterministic content of the blob.
func (b Blob) Bytes() []byte {
	var buf = make([]byte, b.Len)
	if b.Seed == 0 {
		return buf // zeros
	}
	var x = splitmix(uint64(b.Seed))
	for i := range buf {
		if i%8 == 0 {
			x = splitmix(x)
		}
		buf[i] = byte(x >> (8 * (i % 8)))
	}
	return buf
}

func ri(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func chance(t *rapid.T, label string, percent int) bool {
	// shrinks to false
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

// rare is true with this probability; integers of rapid are biased to small ones and limits of the range.
func rare(t *rapid.T, label string, permille int) bool {
	var v = rapid.Uint64().Draw(t, label)
	return v > 1<<16 && v < 1<<63 && splitmix(v)%1000 < uint64(permille)*3
}

func pick[T any](t *rapid.T, label string, list []T) T {
	return rapid.SampledFrom(list).Draw(t, label)
}

var bigLens = []int{4096, 65536, 65472, 131072, 100000, 8192, 512, 32768}

// genBlob draws content; big says whether the boundary size classes are included.
func genBlob(t *rapid.T, big bool) Blob {
	var b Blob
	switch c := ri(t, "blobclass", 0, 20); {
	case c <= 11:
		b.Len = ri(t, "len", 1, 24)
	case c <= 13:
		b.Len = 0
	case c <= 17:
		b.Len = ri(t, "len", 100, 700)
	default:
		if big {
			b.Len = pick(t, "biglen", bigLens) + ri(t, "dlen", -2, 2)
		} else {
			b.Len = ri(t, "len", 1, 64)
		}
	}
	b.Seed = uint32(ri(t, "seed", 0, 1<<20))
	return b
}

var dirPool = []string{"img", "img1", "img10", "d", "Img", "дир", "a b", "doc.d", "im", "sub-dir_x", "z", "日本", "img-", "d.d", " d", "img ", "é", "e\u0301", "IMG", ".git", ".d", "node_modules", "~tmp", "@eaDir", "12", "lost+found"}
var leafPool = []string{"f.txt", "f", "F.txt", "f1", "g.bin", "файл.txt", "no ext", ".hidden", "x.tar.gz", "very-long-file-name-to-make-the-tags-longer-than-anything-else.data", "a+b(c).dat", "q", " lead", "trail ", "é.txt", "e\u0301.txt", "f.TXT", "f ", "q.", "file%20name", "$HOME", "-", "q~", ".f", "0", "f.tmp", "Thumbs.db", "f.wpk", "f.wpf", "index.html", "f.txt.bak", "#f#", "CON"}

// genKey draws a valid file name. Directory and leaf names never coincide,
// so no name is a directory of another.
func genKey(t *rapid.T) string {
	var n = pick(t, "depth", []int{0, 0, 1, 1, 1, 2, 2, 3})
	var segs []string
	for i := 0; i < n; i++ {
		segs = append(segs, genSeg(t))
	}
	segs = append(segs, genLeaf(t))
	return strings.Join(segs, "/")
}

// genSeg draws a name of directory.
func genSeg(t *rapid.T) string {
	if chance(t, "odddir", 6) {
		var rs = rapid.SliceOfN(rapid.RuneFrom([]rune("abcXYZ019 .,;:!?#$%&'()[]{}@+-=~^_`|<>\"*éжΩ€𝄞\t\n")), 1, 8).Draw(t, "odd")
		return "D" + string(rs) + "_"
	}
	return pick(t, "dir", dirPool)
}

func genLeaf(t *rapid.T) string {
	if chance(t, "oddleaf", 12) {
		var rs = rapid.SliceOfN(rapid.RuneFrom([]rune("abcXYZ019 .,;:!?#$%&'()[]{}@+-=~^_`|<>\"*éжΩ€𝄞\t\n")), 1, 12).Draw(t, "odd")
		return "L" + string(rs) + "." + "e"
	}
	return pick(t, "leaf", leafPool)
}

// genSmallKey draws from a narrow pool, so that collisions are frequent.
func genSmallKey(t *rapid.T) string {
	var d = pick(t, "sdir", []string{"", "img/", "img1/", "img/d/"})
	return d + pick(t, "sleaf", []string{"f", "g.bin", "f1", "longer-name-than-the-others.txt"})
}

func genDir(t *rapid.T) string {
	var n = pick(t, "depth", []int{1, 1, 1, 2, 2, 3})
	var segs []string
	for i := 0; i < n; i++ {
		segs = append(segs, genSeg(t))
	}
	return strings.Join(segs, "/")
}

var longLens = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 20000, 32767, 32768, 32769}

// stretch makes the text long once in a while: by a filler inside of it, or by repeating.
func stretch(t *rapid.T, b []byte, permille int) []byte {
	if !rare(t, "stretch", permille) {
		return b
	}
	var n = pick(t, "longlen", append(longLens[6:len(longLens):len(longLens)], 65535, 65536, 65537, 100000))
	if len(b) == 0 || chance(t, "filler", 60) {
		var i = ri(t, "at", 0, len(b))
		var fill = bytes.Repeat([]byte(pick(t, "fill", []string{"x", "x", "X", " ", "\xd0", "/ab"})), n)[:n]
		return slices.Concat(b[:i], fill, b[i:])
	}
	return append(bytes.Repeat(b, n/len(b)), b...)
}

// longName makes long name or long path of given one.
func longName(t *rapid.T, key string) string {
	var n = pick(t, "namelen", longLens)
	var dir, leaf = path.Split(key)
	if rapid.Bool().Draw(t, "longleaf") {
		return dir + strings.Repeat("L", n) + leaf
	}
	return dir + strings.Repeat("Deep/", n/5+1) + leaf
}

// genKeys draws list of unique names.
func genKeys(t *rapid.T, lo, hi int) []string {
	var g = rapid.Custom(genKey)
	return rapid.SliceOfNDistinct(g, lo, hi, rapid.ID[string]).Draw(t, "keys")
}

// genClusteredKeys draws names that share few directories.
func genClusteredKeys(t *rapid.T, lo, hi int) []string {
	var dirs = rapid.SliceOfN(rapid.Custom(genDir), 1, 3).Draw(t, "dirs")
	dirs = append(dirs, "")
	for _, d := range dirs[:len(dirs)-1] {
		// parents and prefix siblings
		if i := strings.LastIndexByte(d, '/'); i > 0 {
			dirs = append(dirs, d[:i])
		}
		dirs = append(dirs, d+"1")
	}
	var g = rapid.Custom(func(t *rapid.T) string {
		var d = pick(t, "cdir", dirs)
		if d != "" && chance(t, "deeper", 30) {
			d += "/" + genSeg(t)
		}
		var leaf = genLeaf(t)
		if d == "" {
			return leaf
		}
		return d + "/" + leaf
	})
	return rapid.SliceOfNDistinct(g, lo, hi, rapid.ID[string]).Draw(t, "keys")
}

// Tag is a tag with its payload.
type Tag struct {
	ID  uint16
	Val []byte
}

var tidPool = []uint16{4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 23, 100, 110, 111, 112, 113, 114, 115, 116, 300, 32768, 65535}

func genTID(t *rapid.T) uint16 {
	if chance(t, "anytid", 10) {
		return uint16(pick(t, "tid", []int{0, 26, 99, 101, 255, 256, 257, 1000, 65534, 0x0101}))
	}
	return pick(t, "tid", tidPool)
}

func genVal(t *rapid.T, big bool) []byte {
	var n int
	switch c := ri(t, "valclass", 0, 12); {
	case c <= 7:
		n = ri(t, "vlen", 1, 14)
	case c <= 8:
		n = 0
	case c <= 10:
		n = pick(t, "vlen", []int{20, 32, 64, 254, 255, 256, 257})
	default:
		if big {
			n = pick(t, "vlen", []int{1000, 3000})
		} else {
			n = 16
		}
	}
	var b = Blob{n, uint32(ri(t, "vseed", 1, 1<<16))}
	return b.Bytes()
}

// genTags draws tags with unique IDs other than offset, size and path.
func genTags(t *rapid.T, hi int) []Tag {
	var g = rapid.Custom(func(t *rapid.T) Tag { return Tag{genTID(t), genVal(t, true)} })
	return rapid.SliceOfNDistinct(g, 0, hi, func(x Tag) uint16 { return x.ID }).Draw(t, "tags")
}

func tagset(tags []Tag) wpk.TagsetRaw {
	var ts wpk.TagsetRaw
	for _, t := range tags {
		ts = ts.Put(t.ID, t.Val)
	}
	return ts
}

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	var ks = make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}

func sorted(s []string) []string {
	var r = append([]string{}, s...)
	sort.Strings(r)
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func js(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// diffBytes describes the difference of two contents.
func diffBytes(got, want []byte) string {
	if string(got) == string(want) {
		return ""
	}
	var i = 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("got %d bytes, want %d bytes, first difference at %d (got %x, want %x)", len(got), len(want), i, cut(got, i), cut(want, i))
}

func cut(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	var e = i + 16
	if e > len(b) {
		e = len(b)
	}
	return b[i:e]
}
