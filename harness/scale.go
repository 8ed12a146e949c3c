package main

import (
	"fmt"
	"math/rand/v2"
	"path"
	"strings"

	"github.com/schwarzlichtbezirk/wpk/util"
	"pgregory.net/rapid"
)

// Parts `scale`: the same oracles on cases with many entries. A case is a few numbers, everything
// else follows from its seed, so that the failure is shrunk by the number of entries.

type scaleCase struct {
	N    int    // number of entries
	Seed uint64 // of all the rest
	Dirs int    // number of directories
	Long int    // additional length of names
	Mode int
	Ops  int
	Flag bool
}

// scaleSizes are numbers around the limits of counters and buffers.
var scaleSizes = []int{65, 127, 129, 255, 256, 257, 300, 511, 513, 700}
var scaleBigSizes = []int{1000, 1023, 1024, 1025, 2047, 2049, 3000, 4095, 4097}

func genScale(big, ops int, huge bool) func(*rapid.T) scaleCase {
	return func(t *rapid.T) (c scaleCase) {
		var sizes = scaleSizes
		if big > 0 && chance(t, "big", big) {
			sizes = scaleBigSizes
		}
		if huge && big > 0 && chance(t, "huge", 1+big/10) {
			sizes = []int{5000, 8200, 10000, 16500}
		}
		c.N = pick(t, "n", sizes)
		if rapid.Bool().Draw(t, "other") {
			c.N = ri(t, "less", 1, c.N)
		}
		c.Seed = uint64(ri(t, "seed", 1, 1<<30))
		c.Dirs = pick(t, "dirs", []int{1, 3, 10, 40})
		c.Long = pick(t, "long", []int{0, 0, 20, 300})
		c.Mode = ri(t, "mode", 0, 2)
		if ops > 0 {
			c.Ops = ri(t, "ops", 1, ops)
		}
		c.Flag = rapid.Bool().Draw(t, "flag")
		return
	}
}

func (s scaleCase) rnd(part uint64) *rand.Rand { return rand.New(rand.NewPCG(s.Seed, part)) }

// dirs returns directories of a tree, the first is root.
func (s scaleCase) dirs() []string {
	var r = s.rnd(1)
	var res = []string{""}
	for i := 1; i < max(s.Dirs, 1); i++ {
		var p = res[r.IntN(len(res))]
		if strings.Count(p, "/") > 4 {
			p = ""
		}
		var leaf = fmt.Sprintf("dir%d", i)
		if i > 1 && r.IntN(3) == 0 { // prefix of a sibling
			leaf = path.Base(res[1+r.IntN(i-1)]) + fmt.Sprint(i)
		}
		res = append(res, joinDir(p, leaf))
	}
	return res
}

func (s scaleCase) keys() (res []string) {
	var r = s.rnd(2)
	var dirs = s.dirs()
	for i := 0; i < s.N; i++ {
		var ext = []string{"", ".txt", ".b", "-é"}[r.IntN(4)]
		var long string
		if s.Long > 0 {
			long = strings.Repeat("-x", r.IntN(s.Long/2+1))
		}
		res = append(res, joinDir(dirs[r.IntN(len(dirs))], fmt.Sprintf("f%d%s%s", i, long, ext)))
	}
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return
}

func (s scaleCase) files(tags int) (res []c01File) {
	var r = s.rnd(3)
	for _, k := range s.keys() {
		var f = c01File{Key: k, Blob: Blob{r.IntN(30), uint32(r.IntN(1 << 20))}, How: r.IntN(2)}
		if r.IntN(200) == 0 {
			f.Blob.Len = 4000 + r.IntN(2000)
		}
		var ids = map[uint16]bool{}
		for i := 0; i < tags && r.IntN(3) == 0; i++ {
			var id = tidPool[r.IntN(len(tidPool))]
			if !ids[id] {
				ids[id] = true
				f.Tags = append(f.Tags, Tag{id, Blob{1 + r.IntN(20), uint32(i + 1)}.Bytes()})
			}
		}
		res = append(res, f)
	}
	return
}

// ops returns operations on the names.
func (s scaleCase) ops(n int, kinds []string) (res []Op) {
	var r = s.rnd(4)
	var keys = s.keys()
	for i := 0; i < n; i++ {
		var op = Op{K: kinds[r.IntN(len(kinds))], A: keys[r.IntN(len(keys))]}
		switch op.K {
		case "put":
			op.A = fmt.Sprintf("new/n%d", r.IntN(n))
			op.Blob = Blob{r.IntN(30), uint32(i + 1)}
		case "rename", "alias":
			op.B = keys[r.IntN(len(keys))]
			if r.IntN(4) > 0 {
				op.B = fmt.Sprintf("moved/%d", r.IntN(n))
				keys = append(keys, op.B)
			}
		case "settag", "deltag":
			op.TID, op.Val = tidPool[r.IntN(len(tidPool))], Blob{r.IntN(20), uint32(i + 1)}.Bytes()
			op.Flag = r.IntN(2) == 0
		}
		res = append(res, op)
	}
	return
}

func init() {
	const about = "case: the check of the other part on 1..16500 entries (numbers around 128, 256, 512, 1024, 2048, 4096 preferred) in 1..40 directories with names up to 300 bytes longer, made from a seed. Non-trivial: as there, or over 64 entries."
	regScale := func(id string, quick, thorough, big, ops int, run func(*Ctx, scaleCase) error) {
		var about = about
		if id == "C17" {
			about = strings.Replace(about, "16500", "4097", 1)
		}
		reg(id, "scale", about, quick, thorough, genScale(big, ops, id != "C17"), func(c *Ctx, s scaleCase) error {
			if s.N > 64 {
				c.NonTrivial()
			}
			return run(c, s)
		})
	}
	regScale("C01", 20, 400, 20, 0, func(c *Ctx, s scaleCase) error {
		var cs = c01Case{Mode: s.Mode, Files: s.files(2)}
		if s.Flag {
			cs.Info = []Tag{{114, []byte("many")}}
		}
		return runC01(c, cs)
	})
	reg("C01", "millions", "case: packages with 65534..70000 files, and tables over 16 MiB. Non-trivial: all.", 1, 8,
		func(t *rapid.T) (s scaleCase) {
			s.N = pick(t, "n", []int{65534, 65535, 65536, 65537, 70000})
			s.Seed, s.Dirs = uint64(ri(t, "seed", 1, 1<<30)), pick(t, "dirs", []int{1, 300})
			s.Mode = ri(t, "mode", 0, 2)
			s.Long = pick(t, "long", []int{0, 500})
			return
		}, func(c *Ctx, s scaleCase) error {
			c.NonTrivial()
			return runC01(c, c01Case{Mode: s.Mode, Files: s.files(0)})
		})
	regScale("C02", 25, 500, 15, 60, func(c *Ctx, s scaleCase) error {
		var h = Hist{Mode: s.Mode}
		var first Sess
		for _, f := range s.files(1) {
			first.Ops = append(first.Ops, Op{K: "put", A: f.Key, Blob: f.Blob, Tags: f.Tags})
		}
		var more = s.ops(s.Ops, []string{"put", "put", "alias", "rename", "del", "del", "settag", "deltag"})
		h.Sess = []Sess{first, {Reopen: s.Flag, Ops: more[:len(more)/2]}, {Reopen: !s.Flag, Ops: more[len(more)/2:]}}
		return runC02(c, h)
	})
	regScale("C07", 20, 400, 5, 20, func(c *Ctx, s scaleCase) error {
		var cs = c07Case{Split: s.Mode == 2, Parsed: s.Flag, Files: s.files(2)}
		for i := range cs.Files {
			cs.Order = append(cs.Order, i%6)
		}
		cs.Ops = s.ops(s.Ops, []string{"alias", "rename", "rename", "del", "settag", "deltag"})
		return runC07(c, cs)
	})
	regScale("C08", 40, 800, 5, 0, func(c *Ctx, s scaleCase) error {
		var r = s.rnd(5)
		var cs = c08Case{Parsed: s.Flag, Keys: s.keys(), Skip: r.IntN(2) == 0}
		var dirs = append(s.dirs(), "other/place")
		cs.Old, cs.New = dirs[r.IntN(len(dirs))], dirs[r.IntN(len(dirs))]
		if r.IntN(3) == 0 {
			cs.Sub = "ws"
		}
		// some collisions
		for i, k := range cs.Keys {
			if i%7 == 0 && strings.HasPrefix(k, cs.Old+"/") {
				if k2 := joinDir(cs.New, k[len(cs.Old)+1:]); !contains(cs.Keys, k2) {
					cs.Keys = append(cs.Keys, k2)
				}
			}
		}
		return runC08(c, cs)
	})
	regScale("C11", 12, 240, 5, 0, func(c *Ctx, s scaleCase) error {
		var cs = c11Case{Live: s.Flag, Files: s.files(0), Absent: []string{"dir", "f", "dir1/none"}, Steps: []int{1 + s.N/3, 1, 256}}
		var r = s.rnd(5)
		for i := range cs.Files {
			if r.IntN(10) == 0 {
				cs.Del = append(cs.Del, i)
			}
		}
		return runC11(c, cs)
	})
	regScale("C13", 25, 500, 10, 0, func(c *Ctx, s scaleCase) error {
		var cs = c13Case{Keys: s.keys(), Sub: "dir1"}
		var other = s
		other.Seed++
		cs.Keys2 = other.keys()
		cs.Pats = []string{"*", "f*", "*/*", "dir1/*", "*/*/*.txt", "dir1*/f[0-4]*", "f?", "dir?/f*[!t]", "*é"}
		return runC13(c, cs)
	})
	regScale("C14", 10, 200, 0, 0, func(c *Ctx, s scaleCase) error {
		// many members, or many files
		var cs = c14Case{Steps: []int{100, 7}, Absent: []string{"dir", "f"}, Glob: []string{"*", "dir1/*", "*/*"}}
		var n = 3
		if s.Flag {
			n, s.N = s.N/2+1, 20
		}
		var files = s.files(0)
		var r = s.rnd(5)
		for i := 0; i < n; i++ {
			var p c14Pkg
			if r.IntN(4) == 0 && s.Mode > 0 {
				p.Sub = fmt.Sprintf("ws%d", i)
			}
			for j, f := range files {
				if r.IntN(n) < 2 {
					f.Blob = Blob{1 + r.IntN(20), uint32(1 + i*100 + j)}
					p.Files = append(p.Files, f)
				}
			}
			if len(p.Files) == 0 {
				p.Sub = ""
			}
			cs.Pkgs = append(cs.Pkgs, p)
			cs.CloseErr = append(cs.CloseErr, r.IntN(50) == 0)
		}
		return runC14(c, cs)
	})
	regScale("C17", 15, 400, 30, 0, func(c *Ctx, s scaleCase) error {
		var r = s.rnd(5)
		var cs = c17Case{Cap: r.IntN(3) * 100}
		var n = s.N/2 + 1
		for i := 0; i < n; i++ {
			cs.Ops = append(cs.Ops, c17Op{K: []string{"set", "push"}[r.IntN(2)], A: r.IntN(n), V: i})
		}
		for i := 0; i < s.N; i++ {
			cs.Ops = append(cs.Ops, c17Op{K: []string{"set", "push", "del", "del", "del", "pop", "get", "has", "len"}[r.IntN(9)], A: r.IntN(n), V: i})
		}
		if s.Flag { // nearly everything is removed and comes again
			for i := 0; i < n; i++ {
				cs.Ops = append(cs.Ops, c17Op{K: "del", A: i})
			}
			for i := 0; i < n; i++ {
				cs.Ops = append(cs.Ops, c17Op{K: "push", A: r.IntN(n), V: i})
			}
		}
		return runC17(c, cs)
	})
	reg("C17", "long", "case: a map of 1..100000 numbers (powers of two preferred), up to 12 deletions, removals of the last, re-insertions and changes, then the whole map against a list. Non-trivial: over 4096 pairs.", 4, 60,
		func(t *rapid.T) (s scaleCase) {
			s.N = pick(t, "n", []int{100, 4097, 5000, 8193, 10001, 16385, 32769, 65535, 65537, 100000})
			s.Seed, s.Ops, s.Mode = uint64(ri(t, "seed", 1, 1<<30)), ri(t, "ops", 1, 12), ri(t, "cap", 0, 2)
			return
		}, runLongMap)
	regScale("C18", 6, 120, 20, 0, func(c *Ctx, s scaleCase) error {
		var cs = c18tCase{Files: s.files(3), Tail: s.Mode * 5, Frag: []int{1 + int(s.Seed%5000), 4096, 3}, EOF: s.Flag}
		return runC18t(c, cs)
	})
}

func runLongMap(c *Ctx, s scaleCase) error {
	var m util.SeqMap[int, int]
	var r = s.rnd(1)
	m.Init(s.N * s.Mode / 2)
	type pair struct{ k, v int }
	var list []pair
	for i := 0; i < s.N; i++ {
		m.Poke(i*3, i)
		list = append(list, pair{i * 3, i})
	}
	var check = func(at string) error {
		if n := m.Len(); n != len(list) {
			return fmt.Errorf("%s: length is %d, want %d", at, n, len(list))
		}
		var i int
		var bad error
		m.Range(func(k, v int) bool {
			if i >= len(list) || list[i] != (pair{k, v}) {
				bad = fmt.Errorf("%s: iteration gives %d=%d as pair %d of %d", at, k, v, i, len(list))
				return false
			}
			i++
			return true
		})
		if bad == nil && i != len(list) {
			bad = fmt.Errorf("%s: iteration gives %d pairs of %d", at, i, len(list))
		}
		if bad != nil {
			return bad
		}
		for i, p := range list {
			if v, ok := m.Peek(p.k); !ok || v != p.v {
				return fmt.Errorf("%s: value of key %d is %d, %v, want %d (pair %d of %d)", at, p.k, v, ok, p.v, i, len(list))
			}
		}
		return nil
	}
	for i := 0; i < s.Ops; i++ {
		var n = 0
		if len(list) > 0 {
			n = r.IntN(len(list))
			if r.IntN(3) == 0 {
				n = r.IntN(min(3, len(list)))
			}
		}
		switch op := r.IntN(6); {
		case op < 3 && len(list) > 0:
			var p = list[n]
			if v, ok := m.Delete(p.k); !ok || v != p.v {
				return fmt.Errorf("deletion of key %d gives %d, %v, want %d", p.k, v, ok, p.v)
			}
			list = append(list[:n], list[n+1:]...)
			if r.IntN(2) == 0 {
				m.Push(p.k, -1)
				list = append(list, pair{p.k, -1})
			}
		case op == 3 && len(list) > 0:
			var p = list[len(list)-1]
			if k, v, ok := m.Pop(); !ok || k != p.k || v != p.v {
				return fmt.Errorf("removal of the last gives %d=%d, %v, want %d=%d", k, v, ok, p.k, p.v)
			}
			list = list[:len(list)-1]
		case op == 4 && len(list) > 0:
			m.Poke(list[n].k, -2-i)
			list[n].v = -2 - i
		default:
			m.Poke(1+i*3, i)
			list = append(list, pair{1 + i*3, i})
		}
	}
	if s.N > 4096 {
		c.NonTrivial()
	}
	return check(fmt.Sprintf("after %d operations", s.Ops))
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
