package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"
)

func init() {
	reg("C19", "tags", "a tag operation changes a tag and an operation is refused, and the result is reopened",
		250, 5000, genC19, runC19)
	reg("C19", "names", "the script prints tables with named tags",
		6, 120, genC19n, runC19n)
	reg("C20", "scripts", "a package is finalised or flushed with files, and a call is refused",
		450, 9000, genC20, runC20)
	reg("C21", "auto", "files are packed with automatic tags of at least two options",
		250, 5000, genC21, runC21)
	reg("C15", "lua",
		"case: script program of C20, where names in the calls of the Lua API are spelled with backslashes by a half; results of all calls and the built packages are compared with the model that knows slashes only. Non-trivial: a call with a backslash inside of the name gives a result.",
		250, 5000, genC15l, runC15l)
}

func genC15l(t *rapid.T) (p LProg) {
	p = genC20(t)
	for _, ops := range p.Scripts {
		for i := range ops {
			ops[i].BS = chance(t, "bs", 60)
		}
	}
	p.Run = 0
	return
}

func runC15l(c *Ctx, p LProg) error {
	w, err := runProg(c, p)
	if err != nil {
		return err
	}
	if w.stats["spelled"] > 0 {
		c.NonTrivial()
	}
	c.Count("calls with backslashes", w.stats["spelled"])
	return nil
}

// C19: tag operations.

var lUnnamed = []float64{0, 15, 26, 99, 102, 117, 300, 32768, 65535}

// genTagKey draws the key of a tag, mostly valid.
func genTagKey(t *rapid.T, invalid bool) LV {
	var c = ri(t, "keyclass", 0, 19)
	switch {
	case c <= 9:
		return lstr(pick(t, "keyname", lNameList[0:]))
	case c <= 13:
		return lnum(float64(lNames[pick(t, "keyname", lNameList)]))
	case c <= 17 || !invalid:
		return lnum(pick(t, "keynum", lUnnamed))
	}
	switch ri(t, "badkey", 0, 7) {
	case 0:
		return lbool(true)
	case 1:
		return lstr("unknown")
	case 2:
		return lnum(1.5)
	case 3:
		return lnum(65536)
	case 4:
		return lnum(-1)
	case 5:
		return lstr("10")
	case 6:
		return lstr("")
	}
	return lnum(65536 + 10)
}

// genTagValue draws a value for the tag, invalid sometimes.
func genTagValue(t *rapid.T, id uint16) LV {
	var bad = chance(t, "badval", 12)
	if bad {
		switch ri(t, "badkind", 0, 2) {
		case 0:
			return ltab([]LKV{{lnum(1), lstr("x")}})
		case 1:
			return lnil()
		}
	}
	var uints = []float64{0, 1, 7, 255, 256, 65535, 65536, 70000, 4294967295, 4294967296, 1 << 53, 1 << 62, 1 << 63}
	switch lType(id) {
	case ltUint:
		if bad {
			return pick(t, "val", []LV{lnum(-1), lnum(-70000), {K: "num", X: "nan"}, {K: "num", X: "inf"}, {K: "num", X: "-inf"}, lnum(1 << 64), lstr(""), lstr("abc"), lstr("-5"), lstr("1.5"), lstr("99999999999999999999"), lstr("0x10")})
		}
		switch ri(t, "kind", 0, 3) {
		case 0:
			return lstr(fmt.Sprintf("%.0f", pick(t, "ustr", uints[:12])))
		case 1:
			return lbool(rapid.Bool().Draw(t, "bool"))
		}
		return lnum(pick(t, "unum", uints))
	case ltBin:
		if bad {
			return pick(t, "val", []LV{lnum(-3), {K: "num", X: "nan"}, lnum(1 << 64), lstr("abc"), lstr("zz"), lstr("0x12"), lbool(true), lbool(false)})
		}
		if chance(t, "binnum", 30) {
			return lnum(pick(t, "unum", uints))
		}
		var s = fmt.Sprintf("%x", Blob{pick(t, "binlen", []int{0, 1, 4, 8, 16, 20, 64, 300}), uint32(ri(t, "bseed", 1, 999))}.Bytes())
		if rapid.Bool().Draw(t, "upper") {
			s = strings.ToUpper(s)
		}
		return lstr(s)
	case ltStr:
		switch ri(t, "kind", 0, 5) {
		case 0:
			return lnum(pick(t, "num", []float64{0, 1, -1, 1.5, 1e15, 123456789, -0.25}))
		case 1:
			return lbool(rapid.Bool().Draw(t, "bool"))
		case 2:
			return LV{K: "str", S: Blob{pick(t, "slen", []int{0, 1, 255, 256, 1000}), uint32(ri(t, "bseed", 1, 999))}.Bytes()}
		}
		return lstr(pick(t, "str", []string{"text/plain", "a;b", "метка", "", "false", "0", "with \"quotes\"", "two\nlines", "12"}))
	case ltTime:
		if bad {
			return pick(t, "val", []LV{lbool(true), lstr("yesterday"), lstr(""), lstr("2020-13-01T00:00:00Z"), lstr("1600000000"), {K: "num", X: "nan"}, {K: "num", X: "inf"}, {K: "num", X: "-inf"}, lnum(1 << 63)})
		}
		if rapid.Bool().Draw(t, "timenum") {
			return lnum(float64(pick(t, "ms", []int{0, 1, 999, 1000, 1600000000123, -1, -1001, -62135596800000, 253402300799999})))
		}
		return lstr(pick(t, "iso", []string{"2021-03-04T05:06:07.089Z", "2021-03-04T05:06:07Z", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999Z",
			"2021-03-04T05:06:07.5+05:30", "1601-01-01T00:00:00-08:00", "9999-12-31T23:59:59.999Z", "0001-01-01T00:00:00Z"}))
	}
	switch ri(t, "kind", 0, 3) {
	case 0:
		return lnum(pick(t, "num", []float64{0, 1, 255, 256, 65536, 4294967296, 1 << 53, -1, 0.5, -2.25, 1e10, 3e-5, math.MaxFloat64}))
	case 1:
		return lbool(rapid.Bool().Draw(t, "bool"))
	}
	return LV{K: "str", S: pick(t, "str", [][]byte{[]byte("abc"), {}, {0, 1, 255, 254}, []byte("true"), []byte("12")})}
}

// genTagTable draws a table with different tags.
func genTagTable(t *rapid.T, hi int, invalid bool) (res []LKV) {
	res = []LKV{}
	var used = map[uint16]bool{}
	for i, n := 0, ri(t, "ntags", 0, hi); i < n; i++ {
		var k = genTagKey(t, invalid)
		id, ok := lTID(k)
		if ok && id >= 1 && id <= 3 && !invalid {
			continue
		}
		if ok && used[id] {
			continue
		}
		used[id] = ok
		var v = genTagValue(t, id)
		if !invalid {
			if _, good := lConv(id, v); !good || v.isnil() {
				continue
			}
		}
		res = append(res, LKV{k, v})
	}
	return
}

var lKeys = []string{"f.txt", "img/a", "img/b.png", "img/d/c", "img1/a", "дир/имя", "x y/z.JPG"}

func genC19(t *rapid.T) (p LProg) {
	p.Split = []bool{rapid.Bool().Draw(t, "split")}
	p.Objs = 1
	p.Dump = true
	p.NoTimes = true
	p.Bulk = pick(t, "access", tgrModes)
	if chance(t, "util", 6) {
		p.Run = ri(t, "run", 1, 2)
	}
	var keys = lKeys[:ri(t, "nkeys", 1, 3)]
	for s, n := 0, pick(t, "nscripts", []int{1, 1, 1, 2}); s < n; s++ {
		var ops []LOp
		if s == 0 {
			ops = append(ops, LOp{K: "begin"})
			for _, k := range keys {
				ops = append(ops, LOp{K: "putdata", A: k, Blob: genBlob(t, false), Tags: genTagTable(t, 2, false)})
			}
		} else {
			ops = append(ops, LOp{K: "load"})
			if chance(t, "append", 80) {
				ops = append(ops, LOp{K: "append"})
			}
		}
		ops = append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (op LOp) {
			op.A = pick(t, "key", keys)
			if chance(t, "absent", 5) {
				op.A = "absent"
			}
			op.BS = chance(t, "backslash", 15)
			switch op.K = pick(t, "op", []string{"settag", "settag", "addtag", "deltag", "settags", "addtags", "deltags", "hastag", "gettag", "gettag", "setupinfo", "label", "reload", "sync", "putalias", "putdata"}); op.K {
			case "settag", "addtag", "deltag", "hastag", "gettag":
				op.Key = genTagKey(t, true)
				var id, _ = lTID(op.Key)
				op.Val = genTagValue(t, id)
				if chance(t, "nilkey", 2) {
					op.Key = lnil()
				}
			case "settags", "addtags":
				op.Tags = genTagTable(t, 4, chance(t, "invalid", 25))
			case "deltags":
				op.Tags = genTagTable(t, 4, chance(t, "invalid", 25))
				for i := range op.Tags {
					if op.Tags[i].V.isnil() {
						op.Tags[i].V = lbool(false)
					}
				}
			case "setupinfo":
				if chance(t, "named", 50) {
					for _, k := range []string{"label", "link", "version", "author", "comment"} {
						if rapid.Bool().Draw(t, "has "+k) {
							op.Tags = append(op.Tags, LKV{lstr(k), lstr(pick(t, "text", []string{"", "some", "текст"}))})
						}
					}
					break
				}
				for _, kv := range genTagTable(t, 4, chance(t, "invalid", 25)) {
					if id, _ := lTID(kv.K); id != 4 {
						op.Tags = append(op.Tags, kv)
					}
				}
			case "label":
				op.Val = lstr(pick(t, "label", []string{"", "one", "второй", "b\x00in"}))
			case "putalias":
				op.B = "alias"
			case "putdata":
				op.A = "new"
				op.Blob = genBlob(t, false)
				op.Tags = genTagTable(t, 3, chance(t, "invalid", 40))
			}
			return
		}), 3, 14).Draw(t, "ops")...)
		ops = expandSync(ops)
		ops = append(ops, LOp{K: "finalize"})
		p.Scripts = append(p.Scripts, ops)
	}
	return
}

// expandSync replaces the short operations by sequences.
func expandSync(ops []LOp) (res []LOp) {
	for _, op := range ops {
		switch op.K {
		case "reload":
			res = append(res, LOp{O: op.O, K: "finalize"}, LOp{O: op.O, K: "load", Slot: op.Slot}, LOp{O: op.O, K: "append"})
		case "sync":
			res = append(res, LOp{O: op.O, K: "flush"})
		default:
			res = append(res, op)
		}
	}
	return
}

func runC19(c *Ctx, p LProg) error {
	w, err := runProg(c, p)
	if err != nil {
		return err
	}
	var refused, tagged bool
	for k := range w.stats {
		refused = refused || strings.HasPrefix(k, "error in ")
	}
	for _, sc := range p.Scripts {
		for _, op := range sc {
			tagged = tagged || strings.HasSuffix(op.K, "tag") || strings.HasSuffix(op.K, "tags")
		}
	}
	if refused && tagged && w.slots[0].state == "ready" {
		c.NonTrivial()
	}
	return nil
}

// names of tags in returned tables do not depend on the run

type c19n struct{ Tags, Info []LKV }

func genC19n(t *rapid.T) (c c19n) {
	c.Tags = genTagTable(t, 4, false)
	var rest []LKV
	for _, kv := range c.Tags {
		if id, _ := lTID(kv.K); id != 12 && id != 14 {
			rest = append(rest, kv)
		}
	}
	c.Tags = append(rest, LKV{lnum(12), lstr("01020304")}, LKV{lnum(14), lstr("0102030405060708")})
	for _, kv := range c.Tags {
		if id, _ := lTID(kv.K); id != 4 {
			c.Info = append(c.Info, kv)
		}
	}
	return
}

func runC19n(c *Ctx, cs c19n) error {
	var dir = c.Dir()
	var scr = filepath.Join(dir, "s.lua")
	var first string
	for i := 0; i < 10; i++ {
		var out = filepath.Join(dir, fmt.Sprintf("out%d", i))
		var pkg = filepath.Join(dir, "p.wpk")
		var text = "local OUT = assert(io.open(" + q(out) + ", \"wb\"))\n" + luaPrelude +
			"local o = wpk.new()\n" +
			call("o", "begin", q(pkg)) + "\n" +
			call("o", "putdata", q("f"), q("data"), ltab(cs.Tags).code()) + "\n" +
			call("o", "setupinfo", ltab(cs.Info).code()) + "\n" +
			call("o", "gettags", q("f")) + "\n" +
			call("o", "getinfo") + "\n" +
			call("o", "finalize") + "\nOUT:close()\n"
		must(os.WriteFile(scr, []byte(text), 0o644))
		o, err := runUtil("build", scr)
		if err != nil || strings.TrimSpace(o) != "" {
			return fmt.Errorf("build: %v %s", err, o)
		}
		raw, err := os.ReadFile(out)
		if err != nil {
			return err
		}
		if i == 0 {
			first = string(raw)
			if strings.Contains(first, "err") || strings.Count(first, "\n") != 6 {
				return fmt.Errorf("the script has failed: %s", first)
			}
		} else if first != string(raw) {
			return fmt.Errorf("tables returned to the script differ from run to run:\n%s\n%s", first, raw)
		}
	}
	c.NonTrivial()
	return nil
}

// C20: scripts.

func genSrc(t *rapid.T) (s LSrc) {
	s.Blob = genBlob(t, true)
	var tm = genTime(t, false)
	s.Sec, s.Nano = tm.Sec, tm.Nano
	if chance(t, "magic", 25) {
		s.Text = []byte(pick(t, "magichead", lMagics).head)
	}
	s.Gone = chance(t, "gone", 12)
	return
}

func genC20(t *rapid.T) (p LProg) {
	p.Split = rapid.SliceOfN(rapid.Bool(), 1, 2).Draw(t, "split")
	if chance(t, "both layouts", 35) {
		p.Split = []bool{true, false}
	}
	p.Objs = ri(t, "objs", 1, 2)
	p.Dump = chance(t, "dump", 60)
	p.Bulk = pick(t, "access", tgrModes)
	if chance(t, "util", 10) {
		p.Run = ri(t, "run", 1, 2)
	}
	p.Srcs = rapid.SliceOfN(rapid.Custom(genSrc), 1, 3).Draw(t, "srcs")
	p.Pats = rapid.SliceOfN(rapid.SampledFrom([]string{"*", "img/*", "*/*", "*/*/*", "img\\*", "img*/[a-b]*", "f.*", "?*/a", "x y\\z.JPG", "img/\\*"}), 0, 2).Draw(t, "pats")
	var keys = append([]string{}, lKeys...)
	keys = append(keys, "img/e", "img2/a", "d/b.png")
	for s, n := 0, pick(t, "nscripts", []int{1, 1, 2, 2, 3}); s < n; s++ {
		var ops []LOp
		if chance(t, "info first", 20) {
			ops = append(ops, LOp{K: "label", Val: lstr("early")})
		}
		if s == 0 || chance(t, "fresh", 15) {
			if chance(t, "badfirst", 15) {
				ops = append(ops, LOp{K: "badbegin", Flag: rapid.Bool().Draw(t, "baddata")})
			}
			ops = append(ops, LOp{K: "begin"})
		} else {
			ops = append(ops, LOp{K: "load"}, LOp{K: "append"})
		}
		ops = append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (op LOp) {
			if p.Objs > 1 && chance(t, "second", 30) {
				op.O = 1
			}
			if len(p.Split) > 1 && chance(t, "slot", 35) {
				op.Slot = 1
			}
			op.A, op.B = pick(t, "key", keys), pick(t, "key2", keys)
			op.BS = chance(t, "backslash", 15)
			op.K = pick(t, "op", []string{"putdata", "putdata", "putdata", "putdata", "putfile", "putfile", "putfile", "putalias", "putalias", "rename", "renamedir", "delalias",
				"setupinfo", "label", "flush", "finalize", "append", "begin", "load", "reload", "hasfile", "filesize", "gettags", "globname", "globdir", "globerr", "tostring", "badbegin", "badload", "readonly", "settag"})
			switch op.K {
			case "putdata":
				op.Blob = genBlob(t, true)
				if chance(t, "withtags", 35) {
					op.Tags = genTagTable(t, 3, chance(t, "invalid", 20))
				}
			case "putfile":
				op.Src = ri(t, "src", 0, len(p.Srcs)-1)
				if chance(t, "withtags", 35) {
					op.Tags = genTagTable(t, 3, chance(t, "invalid", 20))
				}
			case "renamedir":
				op.A = pick(t, "dir", []string{"img", "img1", "img/d", "дир", "none", "x y"})
				op.B = pick(t, "dir2", []string{"img", "img1", "img2", "new/dir", "d"})
				if chance(t, "flag", 50) {
					op.Val = lbool(rapid.Bool().Draw(t, "skip"))
				}
			case "setupinfo":
				for _, kv := range genTagTable(t, 3, chance(t, "invalid", 20)) {
					if id, _ := lTID(kv.K); id != 4 {
						op.Tags = append(op.Tags, kv)
					}
				}
			case "label":
				op.Val = lstr(pick(t, "label", []string{"", "one", "второй"}))
			case "badbegin":
				op.Flag = rapid.Bool().Draw(t, "baddata")
			case "readonly":
				op.A = pick(t, "prop", []string{"pkgpath", "datpath", "recnum", "tagnum", "fftsize", "datasize"})
			case "settag":
				op.Key, op.Val = lstr(pick(t, "tag", []string{"comment", "label", "attr"})), lnum(float64(ri(t, "num", 0, 999)))
			}
			return
		}), 3, 18).Draw(t, "ops")...)
		if chance(t, "busy", 20) {
			var sl = ri(t, "busy slot", 0, len(p.Split)-1)
			var o = ri(t, "busy obj", 0, p.Objs-1)
			ops = append(ops, LOp{O: o, Slot: sl, K: "putdata", A: "from/f", Blob: genBlob(t, false)}, LOp{O: o, Slot: sl, K: "putdata", A: "taken/f", Blob: genBlob(t, false)},
				LOp{O: o, Slot: sl, K: "renamedir", A: "from", B: "taken", Val: lbool(chance(t, "skip", 25))})
		}
		if rapid.Bool().Draw(t, "say") {
			ops = append(ops, LOp{K: "tostring"})
		}
		ops = expandSync(ops)
		if chance(t, "switch", 25) {
			// the same object goes over to another package
			var o = ri(t, "switched", 0, p.Objs-1)
			var put = func(sl int) LOp {
				return LOp{O: o, K: "putdata", A: pick(t, "key", keys), Blob: genBlob(t, false), Slot: sl}
			}
			for o := 0; o < p.Objs; o++ {
				ops = append(ops, LOp{O: o, K: "finalize"})
			}
			for i := ri(t, "switches", 1, 4); i > 0; i-- {
				var sl = ri(t, "to slot", 0, len(p.Split)-1)
				if rapid.Bool().Draw(t, "begin") {
					ops = append(ops, LOp{O: o, K: "begin", Slot: sl})
				} else {
					ops = append(ops, LOp{O: o, K: "load", Slot: sl})
					if chance(t, "before append", 30) {
						ops = append(ops, LOp{O: o, K: pick(t, "edit", []string{"rename", "delalias", "putalias"}), A: pick(t, "key", keys), B: pick(t, "key2", keys)})
					}
					ops = append(ops, LOp{O: o, K: "append"})
				}
				ops = append(ops, put(sl), LOp{O: o, K: "finalize"})
			}
		}
		if chance(t, "finish", 85) {
			for o := 0; o < p.Objs; o++ {
				ops = append(ops, LOp{O: o, K: "finalize"})
			}
		}
		p.Scripts = append(p.Scripts, ops)
	}
	return
}

func runC20(c *Ctx, p LProg) error {
	w, err := runProg(c, p)
	if err != nil {
		return err
	}
	var files int
	for _, sl := range w.slots {
		c.Label("%s", map[bool]string{true: "split ", false: "single "}[sl.split]+sl.state)
		if sl.disk != nil {
			files += len(sl.disk.ents)
			c.Label("left open: %v", sl.dead)
		}
	}
	c.Label("%d scripts", len(p.Scripts))
	c.Label("run by %s", []string{"library", "utility", "utility at once"}[p.Run])
	if files > 0 && w.stats["errors"] > 0 {
		c.NonTrivial()
	}
	return nil
}

// C21: automatic tags.

var lOpts = []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

var lAutoTID = map[string]float64{"autofid": 4, "automime": 10, "crc32": 12, "crc64": 14, "md5": 20, "sha1": 21, "sha224": 22, "sha256": 23, "sha384": 24, "sha512": 25}

func genC21(t *rapid.T) (p LProg) {
	p.Split = []bool{rapid.Bool().Draw(t, "split")}
	p.Objs = 1
	p.Dump = chance(t, "dump", 30)
	p.Bulk = pick(t, "access", tgrModes)
	if chance(t, "util", 5) {
		p.Run = ri(t, "run", 1, 2)
	}
	p.Srcs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) LSrc {
		var s = genSrc(t)
		s.Gone = false
		return s
	}), 1, 3).Draw(t, "srcs")
	var exts = sortedKeys(lMimeExt)
	var serial int
	for s, n := 0, pick(t, "nscripts", []int{1, 2, 2, 3}); s < n; s++ {
		var ops []LOp
		if s == 0 {
			ops = append(ops, LOp{K: "begin"})
		} else {
			ops = append(ops, LOp{K: "load"}, LOp{K: "append"})
		}
		for _, o := range lOpts {
			if chance(t, "option", 40) {
				ops = append(ops, LOp{K: "opt", A: o, Flag: true})
			}
		}
		if chance(t, "secret", 50) {
			ops = append(ops, LOp{K: "secret", Val: LV{K: "str", S: Blob{pick(t, "seclen", []int{0, 1, 20, 64, 65, 128, 129, 200}), uint32(ri(t, "secseed", 1, 99))}.Bytes()}})
		}
		ops = append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (op LOp) {
			op.K = pick(t, "op", []string{"putdata", "putdata", "putdata", "putfile", "putfile", "opt", "secret", "putalias", "rename", "delalias", "reload", "sync"})
			op.A = fmt.Sprintf("f%d", ri(t, "old", 0, 9))
			switch op.K {
			case "putdata", "putfile":
				op.A = fmt.Sprintf("f%d", serial)
				serial++
				switch ri(t, "extclass", 0, 6) {
				case 0, 1:
				case 2, 3:
					op.A += pick(t, "ext", exts)
				case 4:
					op.A += strings.ToUpper(pick(t, "ext", exts))
				case 5:
					// nothing but the extension
					op.A += "/" + pick(t, "ext", append([]string{".", ".hidden", ".PNG"}, exts...))
				default:
					op.A = pick(t, "odd", []string{"d.png/", "d/", "a.tar/"}) + op.A + pick(t, "oddext", []string{"", ".", ".unknown-ext", ".xyzzy", ".tar.gz", ".txt.bin", fmt.Sprintf(".e%d", ri(t, "anyext", 0, 1<<30))})
				}
				op.Blob = genBlob(t, true)
				op.Src = ri(t, "src", 0, len(p.Srcs)-1)
				if op.K == "putdata" {
					switch ri(t, "head", 0, 4) {
					case 0:
						op.Text = []byte(pick(t, "magic", lMagics).head)
					case 1:
						op.Text = []byte("plain text of the file ")
						op.Blob.Seed = 0
					case 2:
						// binary bytes come later
						op.Text = []byte(strings.Repeat("t", pick(t, "textlen", []int{31, 32, 63, 127, 255, 256, 257, 510, 511, 512, 513, 600})) + pick(t, "later", []string{"", "ustar\x00", "\x89PNG"}))
					}
				}
				if chance(t, "explicit", 40) {
					op.Tags = []LKV{}
					for i, n := 0, ri(t, "ntags", 1, 3); i < n; i++ {
						var o = pick(t, "opttag", lOpts)
						var dup bool
						for _, kv := range op.Tags {
							dup = dup || kv.K.N == lAutoTID[o]
						}
						if dup {
							continue
						}
						var v = lstr(pick(t, "hex", []string{"00", "00000000", "0123456789abcdef", ""}))
						if o == "autofid" {
							v = lnum(float64(pick(t, "fid", []int{1, 2, 3, 5, 7, 255, 256, 70000})))
						} else if o == "automime" {
							v = lstr(pick(t, "mime", []string{"text/x-own", "", "image/png"}))
						}
						op.Tags = append(op.Tags, LKV{lnum(lAutoTID[o]), v})
					}
				}
			case "opt":
				op.A = pick(t, "option", lOpts)
				op.Flag = rapid.Bool().Draw(t, "on")
			case "secret":
				op.Val = lstr(pick(t, "key", []string{"", "k", "package-private-key"}))
			case "putalias", "rename":
				op.B = fmt.Sprintf("moved%d.png", ri(t, "to", 0, 9))
			}
			return
		}), 3, 14).Draw(t, "ops")...)
		ops = expandSync(ops)
		ops = append(ops, LOp{K: "finalize"})
		p.Scripts = append(p.Scripts, ops)
	}
	return
}

func runC21(c *Ctx, p LProg) error {
	w, err := runProg(c, p)
	if err != nil {
		return err
	}
	var sl = w.slots[0]
	if sl.disk == nil {
		return nil
	}
	var kinds = map[uint16]bool{}
	for _, e := range sl.disk.ents {
		for id := range e.tags {
			if id > 8 {
				kinds[id] = true
			}
		}
		if e.fid != nil {
			kinds[4] = true
		}
		if m, ok := e.tags[10]; ok {
			c.Label("type %s", clip(string(m), 40))
		}
	}
	c.Label("%d sessions", len(p.Scripts))
	if len(kinds) >= 2 {
		c.NonTrivial()
	}
	return nil
}

var _ = time.Now
