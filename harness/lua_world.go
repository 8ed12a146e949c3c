package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"math"
	"mime"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/h2non/filetype"
	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	lua "github.com/yuin/gopher-lua"
)

// LV is a Lua value of a generated program.
type LV struct {
	K string  // nil, bool, num, str, tab
	B bool    `json:",omitempty"`
	N float64 `json:",omitempty"`
	X string  `json:",omitempty"` // "nan", "inf", "-inf" instead of number
	S []byte  `json:",omitempty"`
	T []LKV   `json:",omitempty"`
}

// LKV is a table field.
type LKV struct{ K, V LV }

func lnil() LV            { return LV{K: "nil"} }
func lbool(b bool) LV     { return LV{K: "bool", B: b} }
func lnum(n float64) LV   { return LV{K: "num", N: n} }
func lstr(s string) LV    { return LV{K: "str", S: []byte(s)} }
func ltab(t []LKV) LV     { return LV{K: "tab", T: t} }
func (v LV) isnil() bool  { return v.K == "nil" }
func (v LV) str() string  { return string(v.S) }
func (v LV) finite() bool { return v.X == "" }
func (v LV) num() float64 {
	switch v.X {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	}
	return v.N
}

func luaQuote(b []byte) string {
	var s strings.Builder
	s.WriteByte('"')
	for _, c := range b {
		if c >= ' ' && c < 127 && c != '"' && c != '\\' {
			s.WriteByte(c)
		} else {
			fmt.Fprintf(&s, "\\%03d", c)
		}
	}
	s.WriteByte('"')
	return s.String()
}

// code returns Lua expression of the value.
func (v LV) code() string {
	switch v.K {
	case "bool":
		return strconv.FormatBool(v.B)
	case "num":
		switch v.X {
		case "nan":
			return "(0/0)"
		case "inf":
			return "(1/0)"
		case "-inf":
			return "(-1/0)"
		}
		return "(" + strconv.FormatFloat(v.N, 'g', 17, 64) + ")"
	case "str":
		return luaQuote(v.S)
	case "tab":
		var s []string
		for _, kv := range v.T {
			s = append(s, "["+kv.K.code()+"]="+kv.V.code())
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return "nil"
}

// RV is a value returned by a script.
type RV struct {
	K byte // n, b, d, s, t, x (unprintable)
	B bool
	N float64
	S string
	T map[string]RV
}

func (v RV) String() string {
	switch v.K {
	case 'n':
		return "nil"
	case 'b':
		return strconv.FormatBool(v.B)
	case 'd':
		return strconv.FormatFloat(v.N, 'g', -1, 64)
	case 's':
		return strconv.Quote(clip(v.S, 80))
	case 't':
		var s []string
		for _, k := range sortedKeys(v.T) {
			s = append(s, k+"="+v.T[k].String())
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return "?"
}

func (v RV) eq(w RV) bool {
	if v.K != w.K || v.B != w.B || v.S != w.S || len(v.T) != len(w.T) {
		return false
	}
	if v.N != w.N && !(v.N != v.N && w.N != w.N) {
		return false
	}
	for k, x := range v.T {
		if y, ok := w.T[k]; !ok || !x.eq(y) {
			return false
		}
	}
	return true
}

func rnum(n float64) RV { return RV{K: 'd', N: n} }
func rstr(s string) RV  { return RV{K: 's', S: s} }
func rbool(b bool) RV   { return RV{K: 'b', B: b} }

const luaPrelude = `
local function hex(s)
	local t = {}
	for i = 1, #s do t[i] = string.format("%02x", string.byte(s, i)) end
	return table.concat(t)
end
local function ser(v)
	local t = type(v)
	if t == "nil" then return "n" end
	if t == "boolean" then return v and "b1" or "b0" end
	if t == "number" then return "d"..string.format("%.17g", v).."," end
	if t == "string" then return "s"..hex(v).."," end
	if t == "table" then
		local ks = {}
		for k, x in pairs(v) do ks[#ks+1] = ser(k)..ser(x) end
		table.sort(ks)
		return "{"..table.concat(ks).."}"
	end
	return "x"
end
local function R(f)
	local r = {n = 0}
	local function fill(...)
		r.n = select("#", ...)
		for i = 1, r.n do r[i] = (select(i, ...)) end
	end
	fill(pcall(f))
	if not r[1] then OUT:write("err ", hex(tostring(r[2])), "\n") OUT:flush() return end
	OUT:write("ok ")
	for i = 2, r.n do OUT:write(ser(r[i])) end
	OUT:write("\n") OUT:flush()
end
local function one(f)
	local ok, v = pcall(f)
	if ok then return v end
	return "error: "..tostring(v)
end
local function rd(p)
	local f = assert(io.open(p, "rb"))
	local s = f:read("*a")
	f:close()
	return s
end
local function D(o, names, pats)
	local t = {}
	for i, k in ipairs(names) do
		if one(function() return o:hasfile(k) end) == true then
			t["size:"..k] = one(function() return o:filesize(k) end)
			t["tags:"..k] = one(function() return o:gettags(k) end)
		end
	end
	for i, p in ipairs(pats) do
		local ok, l = pcall(function() return {o:glob(p)} end)
		local g = "error"
		if ok then g = {} for j, n in ipairs(l) do g[n] = (g[n] or 0) + 1 end end
		t["glob:"..p] = g
	end
	t.tagnum = o.tagnum
	t.recnum = o.recnum
	t.datasize = o.datasize
	t.sumsize = one(function() return o:sumsize() end)
	t.label = o.label
	t.info = one(function() return o:getinfo() end)
	t.pkgpath = o.pkgpath
	t.datpath = o.datpath
	OUT:write("dump ", ser(t), "\n") OUT:flush()
end
`

// parseRV parses one serialised value.
func parseRV(s string) (v RV, rest string, err error) {
	if s == "" {
		return v, s, errors.New("empty value")
	}
	v.K = s[0]
	s = s[1:]
	switch v.K {
	case 'n', 'x':
		return v, s, nil
	case 'b':
		if s == "" {
			break
		}
		v.B = s[0] == '1'
		return v, s[1:], nil
	case 'd', 's':
		var i = strings.IndexByte(s, ',')
		if i < 0 {
			break
		}
		if v.K == 's' {
			b, e := hex.DecodeString(s[:i])
			v.S = string(b)
			return v, s[i+1:], e
		}
		switch s[:i] {
		case "nan", "NaN", "-nan":
			v.N = math.NaN()
		default:
			v.N, err = strconv.ParseFloat(s[:i], 64)
		}
		return v, s[i+1:], err
	case '{':
		v.K = 't'
		v.T = map[string]RV{}
		for {
			if s == "" {
				return v, s, errors.New("open table")
			}
			if s[0] == '}' {
				return v, s[1:], nil
			}
			var k, x RV
			if k, s, err = parseRV(s); err != nil {
				return
			}
			if x, s, err = parseRV(s); err != nil {
				return
			}
			switch k.K {
			case 's':
				v.T[k.S] = x
			case 'd':
				v.T["#"+strconv.FormatFloat(k.N, 'g', -1, 64)] = x
			default:
				return v, s, errors.New("odd table key")
			}
		}
	}
	return v, s, fmt.Errorf("bad value %q", s)
}

// Reference table of tag names and types.

const (
	ltAny = iota
	ltUint
	ltBin
	ltStr
	ltTime
)

var lNames = map[string]uint16{
	"offset": 1, "size": 2, "path": 3, "fid": 4, "mtime": 5, "atime": 6, "ctime": 7, "btime": 8, "attr": 9, "mime": 10,
	"crc32": 12, "crc32ieee": 11, "crc32c": 12, "crc32k": 13, "crc64": 14, "crc64iso": 14,
	"md5": 20, "sha1": 21, "sha224": 22, "sha256": 23, "sha384": 24, "sha512": 25, "tmbjpeg": 100, "tmbwebp": 101,
	"label": 110, "link": 111, "keywords": 112, "category": 113, "version": 114, "author": 115, "comment": 116,
}

var lNameList = sortedKeys(lNames)

func lType(id uint16) int {
	switch {
	case id == 1 || id == 2 || id == 4 || id == 9:
		return ltUint
	case id >= 5 && id <= 8:
		return ltTime
	case id == 3 || id == 10 || id >= 110 && id <= 116:
		return ltStr
	case id >= 11 && id <= 14 || id >= 20 && id <= 25 || id == 100 || id == 101:
		return ltBin
	}
	return ltAny
}

const lISO = "2006-01-02T15:04:05.999Z07:00"

// lTID resolves the tag key.
func lTID(k LV) (id uint16, ok bool) {
	switch k.K {
	case "num":
		var n = k.num()
		if n >= 0 && n <= 65535 && n == math.Trunc(n) {
			return uint16(n), true
		}
	case "str":
		id, ok = lNames[k.str()]
		return
	}
	return 0, false
}

// lConv is the documented conversion of value to the tag.
func lConv(id uint16, v LV) (raw []byte, ok bool) {
	var n = v.num()
	var isint = v.K == "num" && n == math.Trunc(n) && v.finite()
	switch lType(id) {
	case ltUint, ltBin:
		switch {
		case v.K == "num":
			if n > -1 && n < 1<<64 {
				return uintBytes(uint64(n)), true
			}
		case v.K == "str" && lType(id) == ltBin:
			if raw, err := hex.DecodeString(v.str()); err == nil {
				return raw, true
			}
		case v.K == "str":
			if i, err := strconv.ParseInt(v.str(), 10, 64); err == nil && i >= 0 {
				return uintBytes(uint64(i)), true
			}
		case v.K == "bool" && lType(id) == ltUint:
			if v.B {
				return []byte{1}, true
			}
			return []byte{0}, true
		}
	case ltStr:
		switch v.K {
		case "num":
			return []byte(lua.LNumber(n).String()), true
		case "str":
			return v.S, true
		case "bool":
			return []byte(strconv.FormatBool(v.B)), true
		}
	case ltTime:
		switch v.K {
		case "num":
			if n >= -1<<63 && n < 1<<63 {
				return le.AppendUint64(nil, uint64(int64(n))), true
			}
		case "str":
			if t, err := time.Parse(lISO, v.str()); err == nil {
				return le.AppendUint32(le.AppendUint64(nil, uint64(t.Unix())), uint32(t.Nanosecond())), true
			}
		}
	default:
		switch v.K {
		case "num":
			if isint && n >= 0 && n < 1<<63 {
				return uintBytes(uint64(n)), true
			}
			return le.AppendUint64(nil, math.Float64bits(n)), true
		case "str":
			return v.S, true
		case "bool":
			if v.B {
				return []byte{1}, true
			}
			return []byte{0}, true
		}
	}
	return nil, false
}

// lRead is the documented representation of the tag.
func lRead(id uint16, raw []byte) RV {
	switch lType(id) {
	case ltUint:
		v, _ := uintVal(raw)
		return rnum(float64(v))
	case ltBin:
		return rstr(hex.EncodeToString(raw))
	case ltTime:
		var t time.Time
		if len(raw) == 8 {
			t = time.UnixMilli(int64(le.Uint64(raw)))
		} else {
			t = time.Unix(int64(le.Uint64(raw)), int64(le.Uint32(raw[8:])))
		}
		return rstr(t.UTC().Format(lISO))
	}
	return rstr(string(raw))
}

// LEnt is a file of the model.
type LEnt struct {
	key  string
	data []byte
	tags map[uint16][]byte
	free map[uint16]bool // tags that may be present with any value
	fid  *lFid           // automatic ID
	rec  int             // identity of data record
}

type lFid struct {
	val   uint64
	known bool
}

func (e *LEnt) clone(key string) *LEnt {
	var c = *e
	c.key = key
	c.tags, c.free = map[uint16][]byte{}, map[uint16]bool{}
	for k, v := range e.tags {
		c.tags[k] = v
	}
	for k := range e.free {
		c.free[k] = true
	}
	return &c
}

func (e *LEnt) set(id uint16, raw []byte) (isnew bool) {
	_, has := e.tags[id]
	isnew = !has && !(id == 4 && e.fid != nil)
	e.tags[id] = raw
	delete(e.free, id)
	if id == 4 {
		e.fid = nil
	}
	return
}

func (e *LEnt) has(id uint16) bool {
	_, ok := e.tags[id]
	return ok || id <= 3 && id > 0 || id == 4 && e.fid != nil
}

func (e *LEnt) del(id uint16) bool {
	var ok = e.has(id)
	delete(e.tags, id)
	delete(e.free, id)
	if id == 4 {
		e.fid = nil
	}
	return ok
}

// LPack is content of package.
type LPack struct {
	ents    map[string]*LEnt
	info    map[uint16][]byte
	infoany bool // information is not asserted
	datsize int
}

func newLPack() *LPack { return &LPack{ents: map[string]*LEnt{}, info: map[uint16][]byte{}} }

func (p *LPack) clone() *LPack {
	var c = &LPack{ents: map[string]*LEnt{}, info: map[uint16][]byte{}, infoany: p.infoany, datsize: p.datsize}
	for k, e := range p.ents {
		c.ents[k] = e.clone(k)
	}
	for k, v := range p.info {
		c.info[k] = v
	}
	return c
}

func (p *LPack) sumsize() (n int) {
	for _, e := range p.ents {
		n += len(e.data)
	}
	return
}

// recnum is number of data records, ok is false if it can not be predicted.
func (p *LPack) recnum() (n int, ok bool) {
	var m = map[int]bool{}
	for _, e := range p.ents {
		if len(e.data) == 0 {
			return 0, false
		}
		m[e.rec] = true
	}
	return len(m), true
}

// lSlot is a place of package on disk.
type lSlot struct {
	split   bool
	wpt     string
	wpf     string
	state   string // absent, notready, ready
	disk    *LPack // content if ready
	version int
	writer  *lObj // object with opened writing
	dead    bool  // writing was left without finalising
}

// lObj is a Lua package object.
type lObj struct {
	pack    *LPack
	open    bool
	slot    *lSlot
	version int
	opts    map[string]bool
	secret  string
	everset bool // information was set since begin
	used    bool
}

// LOp is an operation of generated script. Operations that have no stated result in current state are skipped.
type LOp struct {
	O    int `json:",omitempty"`
	K    string
	A, B string `json:",omitempty"`
	Slot int    `json:",omitempty"`
	Src  int    `json:",omitempty"`
	Blob Blob   `json:",omitempty"`
	Text []byte `json:",omitempty"`
	Tags []LKV  `json:",omitempty"`
	Key  LV     `json:",omitempty"`
	Val  LV     `json:",omitempty"`
	Flag bool   `json:",omitempty"`
	BS   bool   `json:",omitempty"`
}

func (op LOp) data() []byte {
	return append(append([]byte{}, op.Text...), op.Blob.Bytes()...)
}

// LSrc is a source file on disk.
type LSrc struct {
	Text []byte `json:",omitempty"`
	Blob Blob
	Sec  int64 `json:",omitempty"`
	Nano int64 `json:",omitempty"`
	Gone bool  `json:",omitempty"` // there is no such file
}

// LProg is a generated program: several scripts over the same packages.
type LProg struct {
	Split   []bool
	Srcs    []LSrc `json:",omitempty"`
	Scripts [][]LOp
	Objs    int
	Run     int // 0: machine of the library, 1: build utility for each script, 2: once for all
	Dump    bool
	Bulk    string   // access mode for final check
	Pats    []string `json:",omitempty"`
	NoTimes bool     `json:",omitempty"` // remove time tags after each packing
}

type lExpect struct {
	code string
	err  bool             // error is expected
	vals []RV             // expected values
	free bool             // values are not asserted
	fn   func([]RV) error // or checked by function
	dump func(RV) error   // for dumps
	desc string
}

type lWorld struct {
	dir    string
	prog   LProg
	slots  []*lSlot
	objs   []*lObj
	srcs   []string
	pool   map[string]bool
	recs   int
	big    map[string]string // saved data for scripts
	bad    int
	stats  map[string]int
	junk   int
	values map[string]bool
	left   map[string]bool // package files left open by scripts
}

func newLWorld(dir string, prog LProg) *lWorld {
	var w = &lWorld{dir: dir, prog: prog, pool: map[string]bool{}, big: map[string]string{}, left: map[string]bool{}, stats: map[string]int{}}
	for i, s := range prog.Split {
		var sl = &lSlot{split: s, state: "absent", wpt: filepath.Join(dir, fmt.Sprintf("p%d.wpk", i))}
		if s {
			sl.wpt = filepath.Join(dir, fmt.Sprintf("p%d.wpt", i))
			sl.wpf = filepath.Join(dir, fmt.Sprintf("p%d.wpf", i))
		}
		w.slots = append(w.slots, sl)
	}
	for i, s := range prog.Srcs {
		var p = filepath.Join(dir, fmt.Sprintf("src%d", i))
		w.srcs = append(w.srcs, p)
		if s.Gone {
			continue
		}
		must(os.WriteFile(p, s.bytes(), 0o644))
		must(os.Chtimes(p, time.Unix(s.Sec, s.Nano), time.Unix(s.Sec, s.Nano)))
	}
	for _, sc := range prog.Scripts {
		for _, op := range sc {
			for _, s := range []string{op.A, op.B} {
				if s != "" {
					w.pool[s] = true
				}
			}
		}
	}
	return w
}

func (s LSrc) bytes() []byte { return append(append([]byte{}, s.Text...), s.Blob.Bytes()...) }

func (w *lWorld) obj(i int) (o *lObj, name string) {
	i %= len(w.objs)
	return w.objs[i], fmt.Sprintf("o%d", i+1)
}

// compile turns operations of the script to the text and expectations.
func (w *lWorld) compile(ops []LOp, out string) (text string, exp []lExpect) {
	w.objs = nil
	var s strings.Builder
	fmt.Fprintf(&s, "local OUT = assert(io.open(%s, \"wb\"))\n", luaQuote([]byte(out)))
	s.WriteString(luaPrelude)
	for i := 0; i < w.prog.Objs; i++ {
		w.objs = append(w.objs, &lObj{pack: newLPack(), opts: map[string]bool{}})
		fmt.Fprintf(&s, "local o%d = wpk.new()\n", i+1)
	}
	var add = func(e lExpect) {
		exp = append(exp, e)
		s.WriteString(e.code + "\n")
	}
	for _, op := range ops {
		var o, name = w.obj(op.O)
		for _, e := range w.step(o, name, op) {
			add(e)
		}
		if w.prog.Dump {
			add(w.dump(o, name))
		}
	}
	if !w.prog.Dump {
		for i := range w.objs {
			var o, name = w.obj(i)
			add(w.dump(o, name))
		}
	}
	s.WriteString("OUT:close()\n")
	// packages left open remain as they are on disk
	for _, sl := range w.slots {
		if sl.writer != nil {
			sl.writer, sl.dead = nil, true
			w.left[sl.wpt], w.left[sl.wpf] = true, true
		}
	}
	return s.String(), exp
}

func (w *lWorld) spell(s string, bs bool) string {
	if bs {
		return strings.ReplaceAll(s, "/", "\\")
	}
	return s
}

func q(s string) string { return luaQuote([]byte(s)) }

func call(name, method string, args ...string) string {
	return fmt.Sprintf("R(function() return %s:%s(%s) end)", name, method, strings.Join(args, ", "))
}

// convTable converts the table of tags, ok is false on any wrong field.
func convTable(t []LKV) (res map[uint16][]byte, ok bool) {
	res = map[uint16][]byte{}
	ok = true
	for _, kv := range t {
		if kv.K.isnil() || kv.V.isnil() {
			continue
		}
		id, good := lTID(kv.K)
		if !good || id >= 1 && id <= 3 {
			ok = false
			continue
		}
		raw, good := lConv(id, kv.V)
		if !good {
			ok = false
			continue
		}
		res[id] = raw
	}
	return
}

// hasNilKey reports the table that can not be built by Lua.
func hasNilKey(t []LKV) bool {
	for _, kv := range t {
		if kv.K.isnil() || kv.K.X == "nan" {
			return true
		}
	}
	return false
}

// step applies operation to the model and returns the calls with their expected results.
func (w *lWorld) step(o *lObj, name string, op LOp) (res []lExpect) {
	var p = o.pack
	var a, b = w.spell(op.A, op.BS), w.spell(op.B, op.BS)
	var e = lExpect{}
	var one = func() []lExpect {
		e.desc = op.K
		if e.err {
			w.stats["errors"]++
			w.stats["error in "+op.K]++
		} else {
			w.stats["calls"]++
			if strings.Contains(e.code, `\092`) && (a != op.A || b != op.B) {
				w.stats["spelled"]++
			}
		}
		return []lExpect{e}
	}
	switch op.K {
	case "begin":
		var sl = w.slots[op.Slot%len(w.slots)]
		e.code = call(name, "begin", q(sl.wpt))
		if sl.split {
			e.code = call(name, "begin", q(sl.wpt), q(sl.wpf))
		}
		if o.open {
			e.err = true
			return one()
		}
		if sl.writer != nil {
			return nil
		}
		var old = p
		o.pack = newLPack()
		o.pack.infoany = o.used
		if !o.used {
			o.pack.info = old.info
		}
		o.open, o.slot, o.used = true, sl, true
		sl.writer, sl.state, sl.disk, sl.dead = o, "notready", nil, false
		if sl.split { // whether it can be read before the first flush is not asserted
			sl.state = "begun"
		}
		sl.version++
		return one()
	case "badbegin":
		var dir = filepath.Join(w.dir, "nodir", "x")
		w.junk++
		if op.Flag {
			e.code = call(name, "begin", q(filepath.Join(w.dir, fmt.Sprintf("junk%d", w.junk))), q(dir))
		} else {
			e.code = call(name, "begin", q(dir))
		}
		e.err = true
		return one()
	case "load", "badload":
		var sl = w.slots[op.Slot%len(w.slots)]
		e.code = call(name, "load", q(sl.wpt))
		if sl.split {
			e.code = call(name, "load", q(sl.wpt), q(sl.wpf))
		}
		if op.K == "badload" {
			e.code = call(name, "load", q(filepath.Join(w.dir, "absent.wpk")))
			e.err = true
			return one()
		}
		if !o.open && sl.state == "begun" {
			return nil
		}
		if o.open || sl.state != "ready" {
			e.err = true
			return one()
		}
		o.pack = sl.disk.clone()
		o.slot, o.version, o.used = sl, sl.version, true
		return one()
	case "append":
		e.code = call(name, "append")
		if o.open || o.slot == nil {
			e.err = true
			return one()
		}
		if o.slot.writer != nil || o.slot.version != o.version || o.slot.state != "ready" {
			return nil
		}
		o.open = true
		o.slot.writer, o.slot.dead = o, false
		if !o.slot.split {
			o.slot.state = "notready"
		}
		o.slot.version++
		return one()
	case "flush", "finalize":
		e.code = call(name, op.K)
		if !o.open || op.K == "flush" && !o.slot.split {
			e.err = true
			return one()
		}
		o.slot.state, o.slot.disk = "ready", o.pack.clone()
		if op.K == "finalize" {
			o.open = false
			o.slot.writer = nil
			o.slot.version++
			o.version = o.slot.version
		}
		return one()
	case "putdata", "putfile":
		var data []byte
		var src string
		if op.K == "putdata" {
			data = op.data()
			if len(data) > 256 {
				if w.big[string(data)] == "" {
					var f = filepath.Join(w.dir, fmt.Sprintf("data%d", len(w.big)))
					must(os.WriteFile(f, data, 0o644))
					w.big[string(data)] = f
				}
				src = "rd(" + q(w.big[string(data)]) + ")"
			} else {
				src = luaQuote(data)
			}
		} else {
			if len(w.prog.Srcs) == 0 {
				return nil
			}
			var i = op.Src % len(w.prog.Srcs)
			data = w.prog.Srcs[i].bytes()
			src = q(w.srcs[i])
			e.err = w.prog.Srcs[i].Gone
		}
		if hasNilKey(op.Tags) {
			return nil
		}
		if op.Tags == nil {
			e.code = call(name, op.K, q(a), src)
		} else {
			e.code = call(name, op.K, q(a), src, ltab(op.Tags).code())
		}
		tags, ok := convTable(op.Tags)
		if !o.open || !ok || p.ents[op.A] != nil || e.err {
			e.err = true
			return one()
		}
		var ent = &LEnt{key: op.A, data: data, tags: map[uint16][]byte{}, free: map[uint16]bool{5: true, 6: true, 7: true, 8: true}, rec: w.recs}
		w.recs++
		if op.K == "putfile" {
			var s = w.prog.Srcs[op.Src%len(w.prog.Srcs)]
			ent.set(5, le.AppendUint32(le.AppendUint64(nil, uint64(s.Sec)), uint32(s.Nano)))
		}
		o.auto(ent)
		for id, raw := range tags {
			ent.set(id, raw)
		}
		p.ents[op.A] = ent
		p.datsize += len(data)
		res = one()
		if w.prog.NoTimes {
			res = append(res, lExpect{code: call(name, "deltags", q(op.A), "{mtime=true, atime=1, [7]=\"\", btime={}}"), free: true, desc: "deltags"})
			for id := uint16(5); id <= 8; id++ {
				ent.del(id)
			}
		}
		return res
	case "putalias", "rename":
		e.code = call(name, op.K, q(a), q(b))
		var src = p.ents[op.A]
		if src == nil || p.ents[op.B] != nil {
			e.err = true
			return one()
		}
		p.ents[op.B] = src.clone(op.B)
		if op.K == "rename" {
			delete(p.ents, op.A)
		}
		return one()
	case "renamedir":
		e.code = call(name, op.K, q(a), q(b))
		if op.Val.K == "bool" {
			e.code = call(name, op.K, q(a), q(b), op.Val.code())
		}
		var skip = op.Val.K != "bool" || op.Val.B
		var from, to = op.A + "/", op.B + "/"
		var moved []string
		var taken bool
		for k := range p.ents {
			if strings.HasPrefix(k, from) {
				moved = append(moved, k)
			}
		}
		sort.Strings(moved)
		for _, k := range moved {
			var n = to + k[len(from):]
			w.pool[n] = true
			if p.ents[n] != nil || strings.HasPrefix(n, from) {
				taken = true
			}
		}
		// order of the files takes part in the result
		if strings.HasPrefix(to, from) || strings.HasPrefix(from, to) {
			return nil
		}
		if taken && !skip {
			if len(moved) > 1 {
				return nil
			}
			e.err = true
			return one()
		}
		var n int
		for _, k := range moved {
			var nk = to + k[len(from):]
			if p.ents[nk] == nil {
				p.ents[nk] = p.ents[k].clone(nk)
				delete(p.ents, k)
				n++
			}
		}
		e.vals = []RV{rnum(float64(n))}
		return one()
	case "delalias":
		e.code = call(name, op.K, q(a))
		e.vals = []RV{rbool(p.ents[op.A] != nil)}
		delete(p.ents, op.A)
		return one()
	case "setupinfo":
		if hasNilKey(op.Tags) {
			return nil
		}
		e.code = call(name, op.K, ltab(op.Tags).code())
		tags, ok := convTable(op.Tags)
		if !ok {
			e.err = true
			return one()
		}
		p.info, p.infoany = tags, false
		return one()
	case "label":
		e.code = fmt.Sprintf("R(function() %s.label = %s end)", name, luaQuote(op.Val.S))
		p.info[110] = op.Val.S
		return one()
	case "opt":
		e.code = fmt.Sprintf("R(function() %s.%s = %v return %s.%s end)", name, op.A, op.Flag, name, op.A)
		e.vals = []RV{rbool(op.Flag)}
		o.opts[op.A] = op.Flag
		delete(w.pool, op.A)
		return one()
	case "secret":
		e.code = fmt.Sprintf("R(function() %s.secret = %s return %s.secret end)", name, luaQuote(op.Val.S), name)
		e.vals = []RV{rstr(op.Val.str())}
		o.secret = op.Val.str()
		return one()
	case "readonly":
		e.code = fmt.Sprintf("R(function() %s.%s = 1 end)", name, op.A)
		delete(w.pool, op.A)
		e.err = true
		return one()
	case "hasfile":
		e.code = call(name, op.K, q(a))
		e.vals = []RV{rbool(p.ents[op.A] != nil)}
		return one()
	case "filesize":
		e.code = call(name, op.K, q(a))
		if p.ents[op.A] == nil {
			e.err = true
			return one()
		}
		e.vals = []RV{rnum(float64(len(p.ents[op.A].data)))}
		return one()
	case "gettags":
		e.code = fmt.Sprintf("R(function() return type(%s:gettags(%s)) end)", name, q(a))
		if p.ents[op.A] == nil {
			e.err = true
			return one()
		}
		e.vals = []RV{rstr("table")}
		return one()
	case "globname", "globdir":
		// names that match, in order
		var pat = a
		if op.K == "globdir" {
			pat = w.spell(path.Dir(op.A)+"/*", op.BS)
		}
		var names []string
		for _, k := range sortedKeys(p.ents) {
			if ok, _ := path.Match(strings.ReplaceAll(pat, "\\", "/"), k); ok {
				names = append(names, k)
			}
		}
		e.code = fmt.Sprintf("R(function() local t = {%s:glob(%s)} table.sort(t) return #t, table.concat(t, '|') end)", name, q(pat))
		e.vals = []RV{rnum(float64(len(names))), rstr(strings.Join(names, "|"))}
		return one()
	case "globerr":
		e.code = call(name, "glob", q("a["))
		e.err = true
		return one()
	case "tostring":
		n, ok := p.recnum()
		if !ok || p.infoany {
			return nil
		}
		e.code = fmt.Sprintf("R(function() return tostring(%s) end)", name)
		var want = fmt.Sprintf("files: %d, aliases: %d, datasize: %d", n, len(p.ents)-n, p.datsize)
		for _, x := range []struct {
			id uint16
			n  string
		}{{110, "label"}, {111, "link"}, {114, "version"}, {115, "author"}, {116, "comment"}} {
			if v, ok := p.info[x.id]; ok {
				want += fmt.Sprintf(", %s: %s", x.n, v)
			}
		}
		e.vals = []RV{rstr(want)}
		return one()
	case "hastag", "gettag", "deltag", "settag", "addtag":
		var args = []string{q(a), op.Key.code()}
		if op.K == "settag" || op.K == "addtag" {
			args = append(args, op.Val.code())
		}
		e.code = call(name, op.K, args...)
		var ent = p.ents[op.A]
		id, ok := lTID(op.Key)
		if ent == nil || !ok {
			e.err = true
			return one()
		}
		if ent.free[id] && op.K != "settag" {
			return nil
		}
		switch op.K {
		case "hastag":
			e.vals = []RV{rbool(ent.has(id))}
			return one()
		case "gettag":
			switch {
			case id == 1:
				e.fn = func(v []RV) error {
					if len(v) != 1 || v[0].K != 'd' {
						return fmt.Errorf("offset is %v", v)
					}
					return nil
				}
			case id == 2:
				e.vals = []RV{rnum(float64(len(ent.data)))}
			case id == 3:
				e.vals = []RV{rstr(op.A)}
			case id == 4 && ent.fid != nil:
				var f = ent.fid
				e.fn = func(v []RV) error {
					if len(v) != 1 || v[0].K != 'd' {
						return fmt.Errorf("file ID is %v", v)
					}
					return f.bind(v[0].N)
				}
			case ent.tags[id] != nil:
				e.vals = []RV{lRead(id, ent.tags[id])}
			default:
				if raw, ok := ent.tags[id]; ok {
					e.vals = []RV{lRead(id, raw)}
				} else {
					e.fn = func(v []RV) error {
						if len(v) > 1 || len(v) == 1 && v[0].K != 'n' {
							return fmt.Errorf("absent tag is %v", v)
						}
						return nil
					}
				}
			}
			return one()
		}
		if id >= 1 && id <= 3 {
			e.err = true
			return one()
		}
		if op.K == "deltag" {
			e.vals = []RV{rbool(ent.del(id))}
			return one()
		}
		raw, ok := lConv(id, op.Val)
		if !ok {
			e.err = true
			return one()
		}
		if op.K == "settag" {
			if ent.free[id] {
				e.free = true
			}
			e.vals = []RV{rbool(ent.set(id, raw))}
			return one()
		}
		var isnew = !ent.has(id)
		if isnew {
			ent.set(id, raw)
		}
		e.vals = []RV{rbool(isnew)}
		return one()
	case "settags", "addtags", "deltags":
		if hasNilKey(op.Tags) {
			return nil
		}
		e.code = call(name, op.K, q(a), ltab(op.Tags).code())
		var ent = p.ents[op.A]
		if op.K == "deltags" {
			var ids []uint16
			var ok = true
			for _, kv := range op.Tags {
				if kv.V.isnil() {
					continue
				}
				id, good := lTID(kv.K)
				if !good || id >= 1 && id <= 3 {
					ok = false
				}
				ids = append(ids, id)
			}
			if ent == nil || !ok {
				e.err = true
				return one()
			}
			for _, id := range ids {
				if ent.free[id] {
					return nil
				}
			}
			var n int
			for _, id := range ids {
				if ent.del(id) {
					n++
				}
			}
			e.vals = []RV{rnum(float64(n))}
			return one()
		}
		tags, ok := convTable(op.Tags)
		if ent == nil || !ok {
			e.err = true
			return one()
		}
		var n int
		for _, id := range sortedKeys(tags) {
			if op.K == "addtags" {
				if ent.free[id] {
					return nil
				}
			}
		}
		for _, id := range sortedKeys(tags) {
			if op.K == "settags" {
				ent.set(id, tags[id])
			} else if !ent.has(id) {
				ent.set(id, tags[id])
				n++
			}
		}
		if op.K == "addtags" {
			e.vals = []RV{rnum(float64(n))}
		}
		return one()
	}
	infraf("unknown operation %q", op.K)
	return nil
}

func (f *lFid) bind(n float64) error {
	if n != math.Trunc(n) || n < 0 {
		return fmt.Errorf("file ID is %v", n)
	}
	if f.known && f.val != uint64(n) {
		return fmt.Errorf("file ID is %v, it was %d", n, f.val)
	}
	f.known, f.val = true, uint64(n)
	return nil
}

// auto adds automatic tags of the options.
func (o *lObj) auto(e *LEnt) {
	if o.opts["autofid"] {
		e.fid = &lFid{}
	}
	if o.opts["automime"] {
		e.set(10, []byte(lMime(e.key, e.data)))
	}
	var sum = func(opt string, id uint16, h hash.Hash) {
		if o.opts[opt] {
			h.Write(e.data)
			e.set(id, h.Sum(nil))
		}
	}
	var k = []byte(o.secret)
	sum("crc32", 12, crc32.New(crc32.MakeTable(crc32.Castagnoli)))
	sum("crc64", 14, crc64.New(crc64.MakeTable(crc64.ISO)))
	sum("md5", 20, hmac.New(md5.New, k))
	sum("sha1", 21, hmac.New(sha1.New, k))
	sum("sha224", 22, hmac.New(sha256.New224, k))
	sum("sha256", 23, hmac.New(sha256.New, k))
	sum("sha384", 24, hmac.New(sha512.New384, k))
	sum("sha512", 25, hmac.New(sha512.New, k))
}

// lMagics are contents with well-known types.
var lMagics = []struct{ head, mime string }{
	{"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR", "image/png"},
	{"\xff\xd8\xff\xe0\x00\x10JFIF\x00", "image/jpeg"},
	{"GIF89a\x01\x00\x01\x00", "image/gif"},
	{"%PDF-1.4\n%", "application/pdf"},
	{"\x1f\x8b\x08\x00\x00\x00\x00\x00", "application/gzip"},
	{"PK\x03\x04\x14\x00\x00\x00", "application/zip"},
	{"fLaC\x00\x00\x00\x22", "audio/x-flac"},
}

// lMime is the content type of the file by its extension or else by its content.
func lMime(key string, data []byte) string {
	var ext = strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}, path.Ext(key))
	if t := mime.TypeByExtension(ext); t != "" {
		return t
	}
	if t, ok := lMimeExt[ext]; ok {
		return t
	}
	for _, m := range lMagics {
		if bytes.HasPrefix(data, []byte(m.head)) {
			return m.mime
		}
	}
	// the library takes the first 8 Kb padded by zeros
	var buf = make([]byte, 8192)
	copy(buf, data)
	if kind, err := filetype.Match(buf); err == nil && kind != filetype.Unknown {
		return kind.MIME.Value
	}
	return "application/octet-stream"
}

// normTags turns a table of tags to identifiers.
func normTags(v RV) (res map[uint16]RV, err error) {
	if v.K != 't' {
		return nil, fmt.Errorf("tags are %v", v)
	}
	res = map[uint16]RV{}
	for k, x := range v.T {
		var id uint16
		if n, ok := lNames[k]; ok {
			id = n
		} else if strings.HasPrefix(k, "#") {
			n, err := strconv.ParseUint(k[1:], 10, 16)
			if err != nil {
				return nil, fmt.Errorf("tag key %q", k)
			}
			id = uint16(n)
		} else {
			return nil, fmt.Errorf("tag key %q", k)
		}
		if _, ok := res[id]; ok {
			return nil, fmt.Errorf("tag %d is met twice", id)
		}
		res[id] = x
	}
	return
}

// dump makes expectation for the whole state of the object.
func (w *lWorld) dump(o *lObj, name string) (e lExpect) {
	e.desc = "state"
	var p = o.pack.clone()
	var names []string
	for k := range w.pool {
		names = append(names, k)
	}
	for k := range p.ents {
		if !w.pool[k] {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var ql, pl []string
	for _, n := range names {
		ql = append(ql, q(n))
	}
	for _, n := range w.prog.Pats {
		pl = append(pl, q(n))
	}
	e.code = fmt.Sprintf("D(%s, {%s}, {%s})", name, strings.Join(ql, ","), strings.Join(pl, ","))
	var open, slot = o.open, o.slot
	e.dump = func(v RV) error {
		for _, n := range names {
			sz, has := v.T["size:"+n]
			var ent = p.ents[n]
			if has != (ent != nil) {
				return fmt.Errorf("hasfile(%q) is %v, want %v", n, has, ent != nil)
			}
			if !has {
				continue
			}
			if !sz.eq(rnum(float64(len(ent.data)))) {
				return fmt.Errorf("filesize(%q) is %v, want %d", n, sz, len(ent.data))
			}
			tags, err := normTags(v.T["tags:"+n])
			if err != nil {
				return fmt.Errorf("gettags(%q): %w", n, err)
			}
			if err = ent.checkRead(tags); err != nil {
				return fmt.Errorf("gettags(%q): %w", n, err)
			}
		}
		var num = func(k string, want int) error {
			if x := v.T[k]; !x.eq(rnum(float64(want))) {
				return fmt.Errorf("%s is %v, want %d", k, x, want)
			}
			return nil
		}
		if err := num("tagnum", len(p.ents)); err != nil {
			return err
		}
		if err := num("datasize", p.datsize); err != nil {
			return err
		}
		if err := num("sumsize", p.sumsize()); err != nil {
			return err
		}
		if n, ok := p.recnum(); ok {
			if err := num("recnum", n); err != nil {
				return err
			}
		}
		for _, pat := range w.prog.Pats {
			var want = RV{K: 't', T: map[string]RV{}}
			for k := range p.ents {
				m, err := path.Match(strings.ReplaceAll(pat, "\\", "/"), k)
				must(err)
				if m {
					want.T[k] = rnum(1)
				}
			}
			if got := v.T["glob:"+pat]; !got.eq(want) {
				return fmt.Errorf("glob(%q) is %v, want %v", pat, got, want)
			}
		}
		if !p.infoany {
			info, err := normTags(v.T["info"])
			if err != nil {
				return fmt.Errorf("getinfo: %w", err)
			}
			delete(info, 4)
			for id, raw := range p.info {
				if id == 4 {
					continue
				}
				if x, ok := info[id]; !ok || !x.eq(lRead(id, raw)) {
					return fmt.Errorf("getinfo: tag %d is %v, want %v", id, x, lRead(id, raw))
				}
				delete(info, id)
			}
			if len(info) > 0 {
				return fmt.Errorf("getinfo: unexpected tags %v", info)
			}
			var want = RV{}
			if raw, ok := p.info[110]; ok {
				want = rstr(string(raw))
			}
			if got := v.T["label"]; !got.eq(want) {
				return fmt.Errorf("label is %v, want %v", got, want)
			}
		}
		var pp, dp = RV{}, RV{}
		if open {
			pp = rstr(slot.wpt)
			if slot.split {
				dp = rstr(slot.wpf)
			}
		}
		if got := v.T["pkgpath"]; !got.eq(pp) {
			return fmt.Errorf("pkgpath is %v, want %v", got, pp)
		}
		if got := v.T["datpath"]; !got.eq(dp) {
			return fmt.Errorf("datpath is %v, want %v", got, dp)
		}
		return nil
	}
	return
}

// checkRead compares tags given by the script API.
func (e *LEnt) checkRead(tags map[uint16]RV) error {
	if x := tags[1]; x.K != 'd' {
		return fmt.Errorf("offset is %v", x)
	}
	if x := tags[2]; !x.eq(rnum(float64(len(e.data)))) {
		return fmt.Errorf("size is %v, want %d", x, len(e.data))
	}
	if x := tags[3]; !x.eq(rstr(e.key)) {
		return fmt.Errorf("path is %v, want %q", x, e.key)
	}
	for id, x := range tags {
		if id >= 1 && id <= 3 || e.free[id] {
			continue
		}
		if id == 4 && e.fid != nil {
			if x.K != 'd' {
				return fmt.Errorf("file ID is %v", x)
			}
			if err := e.fid.bind(x.N); err != nil {
				return err
			}
			continue
		}
		raw, ok := e.tags[id]
		if !ok {
			return fmt.Errorf("unexpected tag %d is %v", id, x)
		}
		if want := lRead(id, raw); !x.eq(want) {
			return fmt.Errorf("tag %d is %v, want %v", id, x, want)
		}
	}
	for id, raw := range e.tags {
		if _, ok := tags[id]; !ok {
			return fmt.Errorf("tag %d is absent, want %v", id, lRead(id, raw))
		}
	}
	if _, ok := tags[4]; !ok && e.fid != nil {
		return errors.New("automatic file ID is absent")
	}
	return nil
}

// runScript executes compiled script and compares its results.
func (w *lWorld) compare(exp []lExpect, out string) error {
	raw, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("the script has not started: %w", err)
	}
	var lines = strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n")
	if len(raw) == 0 {
		lines = nil
	}
	for i, e := range exp {
		if i >= len(lines) {
			return fmt.Errorf("the script was broken at call %d: %s", i, e.code)
		}
		var fail = func(format string, a ...any) error {
			return fmt.Errorf("call %d: %s\n%s", i, clip(e.code, 400), fmt.Sprintf(format, a...))
		}
		kind, tail, _ := strings.Cut(lines[i], " ")
		var vals []RV
		if kind != "err" {
			for tail != "" {
				var v RV
				if v, tail, err = parseRV(tail); err != nil {
					return fail("unreadable result %q: %v", lines[i], err)
				}
				vals = append(vals, v)
			}
		}
		if e.dump != nil {
			if kind != "dump" || len(vals) != 1 {
				return fail("no state dump")
			}
			if err := e.dump(vals[0]); err != nil {
				return fail("state of the package: %v", err)
			}
			continue
		}
		if e.free {
			continue
		}
		if kind == "err" {
			if !e.err {
				b, _ := hex.DecodeString(tail)
				return fail("unexpected error: %s", b)
			}
			continue
		}
		if e.err {
			return fail("error is expected, got %v", vals)
		}
		if e.fn != nil {
			if err := e.fn(vals); err != nil {
				return fail("%v", err)
			}
			continue
		}
		if len(vals) != len(e.vals) {
			return fail("results are %v, want %v", vals, e.vals)
		}
		for j := range vals {
			if !vals[j].eq(e.vals[j]) {
				return fail("results are %v, want %v", vals, e.vals)
			}
		}
	}
	if len(lines) > len(exp) {
		return fmt.Errorf("odd results of the script: %q", lines[len(exp):])
	}
	return nil
}

// checkDisk compares packages on the disk with the model.
func (w *lWorld) checkDisk() error {
	for i, sl := range w.slots {
		var at = fmt.Sprintf("package %d", i)
		if sl.state == "begun" {
			continue
		}
		var pkg = wpk.NewPackage()
		var err = pkg.OpenFile(sl.wpt)
		if sl.state != "ready" {
			if err == nil {
				return fmt.Errorf("%s is opened, but it was not finalised", at)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		var dat = sl.wpt
		if sl.split {
			dat = sl.wpf
		}
		if pkg.Tagger, err = makeTagger(w.prog.Bulk, dat); err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		err = checkLPack(pkg, sl.disk)
		pkg.Tagger.Close()
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if pkg.IsSplitted() != sl.split {
			return fmt.Errorf("%s: split state is %v", at, pkg.IsSplitted())
		}
	}
	return nil
}

func checkLPack(pkg *wpk.Package, p *LPack) (err error) {
	var seen = map[string]bool{}
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var e = p.ents[fkey]
		if e == nil {
			err = fmt.Errorf("unexpected file %q", fkey)
			return false
		}
		if seen[fkey] {
			err = fmt.Errorf("file %q is met twice", fkey)
			return false
		}
		seen[fkey] = true
		err = e.checkRaw(ts)
		return err == nil
	})
	if err != nil {
		return
	}
	for _, k := range sortedKeys(p.ents) {
		if !seen[k] {
			return fmt.Errorf("file %q is absent", k)
		}
		b, err := pkg.ReadFile(k)
		if err != nil {
			return fmt.Errorf("reading of %q: %w", k, err)
		}
		if d := diffBytes(b, p.ents[k].data); d != "" {
			return fmt.Errorf("content of %q: %s", k, d)
		}
	}
	if int(pkg.DataSize()) != p.datsize {
		return fmt.Errorf("data size is %d, want %d", pkg.DataSize(), p.datsize)
	}
	if !p.infoany {
		tags, err := decTags(pkg.GetInfo())
		if err != nil {
			return err
		}
		var n int
		for _, t := range tags {
			raw, ok := p.info[t.ID]
			if !ok {
				return fmt.Errorf("unexpected tag %d of package information", t.ID)
			}
			if d := diffBytes(t.Val, raw); d != "" {
				return fmt.Errorf("tag %d of package information: %s", t.ID, d)
			}
			n++
		}
		if n != len(p.info) {
			return fmt.Errorf("package information has %d tags, want %d", n, len(p.info))
		}
	}
	// automatic IDs are not repeated
	var fids = map[uint64]*lFid{}
	for _, k := range sortedKeys(p.ents) {
		var f = p.ents[k].fid
		if f == nil {
			continue
		}
		if g := fids[f.val]; g != nil && g != f {
			return fmt.Errorf("automatic file ID %d of %q is used by another file", f.val, k)
		}
		fids[f.val] = f
	}
	return nil
}

func (e *LEnt) checkRaw(ts wpk.TagsetRaw) error {
	tags, err := decTags(ts)
	if err != nil {
		return fmt.Errorf("%q: %w", e.key, err)
	}
	var seen = map[uint16]bool{}
	for _, t := range tags {
		if seen[t.ID] {
			return fmt.Errorf("%q: tag %d is met twice", e.key, t.ID)
		}
		seen[t.ID] = true
		switch {
		case t.ID == 1 || e.free[t.ID]:
		case t.ID == 2:
			if n, ok := uintVal(t.Val); !ok || n != uint64(len(e.data)) {
				return fmt.Errorf("%q: size is %x, want %d", e.key, t.Val, len(e.data))
			}
		case t.ID == 3:
			if string(t.Val) != e.key {
				return fmt.Errorf("%q: path tag is %q", e.key, t.Val)
			}
		case t.ID == 4 && e.fid != nil:
			n, ok := uintVal(t.Val)
			if !ok {
				return fmt.Errorf("%q: file ID is %x", e.key, t.Val)
			}
			if err := e.fid.bind(float64(n)); err != nil {
				return fmt.Errorf("%q: %w", e.key, err)
			}
		default:
			raw, ok := e.tags[t.ID]
			if !ok {
				return fmt.Errorf("%q: unexpected tag %d is %x", e.key, t.ID, t.Val)
			}
			if d := diffBytes(t.Val, raw); d != "" {
				return fmt.Errorf("%q: tag %d: %s", e.key, t.ID, d)
			}
		}
	}
	for id := range e.tags {
		if !seen[id] {
			return fmt.Errorf("%q: tag %d is absent", e.key, id)
		}
	}
	if e.fid != nil && !seen[4] {
		return fmt.Errorf("%q: automatic file ID is absent", e.key)
	}
	if !seen[1] || !seen[2] || !seen[3] {
		return fmt.Errorf("%q: required tags are absent", e.key)
	}
	return nil
}

// runProg runs all scripts of the program and checks each of them.
func runProg(c *Ctx, prog LProg) (*lWorld, error) { return runProgHook(c, prog, nil) }

// runProgHook calls the hook after each script run in this process.
func runProgHook(c *Ctx, prog LProg, hook func(*lWorld) error) (*lWorld, error) {
	var w = newLWorld(c.Dir(), prog)
	var all []string
	var exps [][]lExpect
	var outs []string
	for i, ops := range prog.Scripts {
		var out = filepath.Join(w.dir, fmt.Sprintf("out%d", i))
		var scr = filepath.Join(w.dir, fmt.Sprintf("script%d.lua", i))
		text, exp := w.compile(ops, out)
		must(os.WriteFile(scr, []byte(text), 0o644))
		if prog.Run == 2 {
			all, exps, outs = append(all, scr), append(exps, exp), append(outs, out)
			continue
		}
		var err error
		if prog.Run == 1 {
			var o string
			if o, err = runUtil("build", scr); err == nil && strings.TrimSpace(o) != "" {
				err = errors.New(o)
			}
		} else {
			err = luawpk.RunLuaVM(scr)
		}
		if e := w.compare(exp, out); e != nil {
			if err != nil {
				e = fmt.Errorf("%w\nend of the script: %w", e, err)
			}
			return w, fmt.Errorf("script %d: %w", i, e)
		}
		if err != nil {
			return w, fmt.Errorf("script %d: %w", i, err)
		}
		if hook != nil {
			if err = hook(w); err != nil {
				return w, fmt.Errorf("after script %d: %w", i, err)
			}
		}
		if err = w.checkDisk(); err != nil {
			return w, fmt.Errorf("after script %d: %w", i, err)
		}
	}
	if prog.Run == 2 {
		o, err := runUtil("build", all...)
		for i := range all {
			if e := w.compare(exps[i], outs[i]); e != nil {
				return w, fmt.Errorf("script %d: %w\noutput: %s", i, e, o)
			}
		}
		if err != nil || strings.TrimSpace(o) != "" {
			return w, fmt.Errorf("scripts: %v %s", err, o)
		}
		if err = w.checkDisk(); err != nil {
			return w, fmt.Errorf("after all scripts: %w", err)
		}
	}
	for k, n := range w.stats {
		if k == "calls" || k == "errors" {
			c.Count(k, n)
		} else {
			c.Label("%s", k)
		}
	}
	return w, nil
}

var _ = slices.Sort[[]int]
