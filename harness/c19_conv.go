package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	lua "github.com/yuin/gopher-lua"
	"pgregory.net/rapid"
)

// C19: conversion of values called directly, for all types of tags that are documented, and reading
// of tags made by other writers.

// Identifiers of tags of each type added by an application, as luawpk allows it.
const convBase = 200 // small: Lua tables keep integer keys in arrays

var convTypes = []int{luawpk.TTany, luawpk.TTbin, luawpk.TTstr, luawpk.TTbool, luawpk.TTuint, luawpk.TTnum, luawpk.TTtime}

func init() {
	for i, tt := range convTypes {
		luawpk.TidType[wpk.TID(convBase+i)] = tt
		var name = fmt.Sprintf("x-app-%d", i)
		luawpk.NameTid[name] = wpk.TID(convBase + i)
		luawpk.TidName[wpk.TID(convBase+i)] = name
	}
	reg("C19", "convert",
		"case: a value (number, string, boolean, nil, table) for a tag of each documented type, converted directly and by the table form; and a raw payload of width 0..17 or 8 bytes of a float converted back. Non-trivial: the value can be converted.",
		60000, 1200000, genC19c, runC19c)
	reg("C19", "foreign",
		"case: a package made by an independent encoder whose files and information have tags of known and unknown numbers with payloads of any width; a Lua script loads it and reads every tag singly and as tables. Non-trivial: some payload has a width that its type can not have.",
		2500, 50000, genC19f, runC19f)
}

type c19cCase struct {
	Type int // index of convTypes
	Val  LV
	Raw  []byte
}

func genC19c(t *rapid.T) (c c19cCase) {
	c.Type = ri(t, "type", 0, len(convTypes)-1)
	switch ri(t, "class", 0, 3) {
	case 0:
		c.Val = genTagValue(t, uint16(convBase+c.Type))
	case 1:
		c.Val = genTagValue(t, pick(t, "other", []uint16{4, 5, 11, 110, 300}))
	case 2:
		c.Val = lstr(pick(t, "str", []string{"", "false", "true", "False", "0", "1", "no", "nil", " ", "12", "-12", "1.5", "1e3", "-0.25", ".5", "1e400", "abc", "1,5", "+7", "00", "0a", "FFFF", "18446744073709551615"}))
	default:
		c.Val = pick(t, "num", []LV{lnum(0), lnum(math.Copysign(0, -1)), lnum(1), lnum(-1), lnum(0.5), lnum(-0.5), lnum(2), lnum(255), lnum(256), lnum(1e300), lbool(true), lbool(false), lnil(), ltab(nil), {K: "num", X: "inf"}, {K: "num", X: "-inf"}})
	}
	switch ri(t, "rawclass", 0, 4) {
	case 0:
		c.Raw = le.AppendUint64(nil, math.Float64bits(pick(t, "f", []float64{0, 1, -1, 0.1, math.MaxFloat64, -2.5e-300, math.Inf(1)})))
	case 1:
		c.Raw = make([]byte, ri(t, "zeros", 0, 13))
	case 2:
		c.Raw = append(make([]byte, ri(t, "zeros", 0, 7)), byte(ri(t, "last", 0, 2)))
	default:
		c.Raw = Blob{ri(t, "width", 0, 17), uint32(ri(t, "seed", 1, 1<<16))}.Bytes()
		if len(c.Raw) == 8 || len(c.Raw) == 12 {
			c.Raw[6], c.Raw[7] = 0, 0 // years are in the range of the calendar
			c.Raw[5] &= 0x1f
			if len(c.Raw) == 12 {
				c.Raw[5], c.Raw[4], c.Raw[11] = 0, c.Raw[4]&0x1f, c.Raw[11]&0x1f
			}
		}
	}
	return
}

func (v LV) value(ls *lua.LState) lua.LValue {
	switch v.K {
	case "bool":
		return lua.LBool(v.B)
	case "num":
		return lua.LNumber(v.num())
	case "str":
		return lua.LString(v.str())
	case "tab":
		var t = ls.NewTable()
		for _, kv := range v.T {
			t.RawSet(kv.K.value(ls), kv.V.value(ls))
		}
		return t
	}
	return lua.LNil
}

// convWant gives documented tag for the value; known is false if the documentation does not say.
func convWant(tt int, v LV) (raw []byte, ok, known bool) {
	switch tt {
	case luawpk.TTbool:
		var b bool
		switch v.K {
		case "num":
			b = v.num() != 0
		case "str":
			b = len(v.S) > 0 && v.str() != "false"
		case "bool":
			b = v.B
		default:
			return nil, false, true
		}
		if b {
			return []byte{1}, true, true
		}
		return []byte{0}, true, true
	case luawpk.TTnum:
		var f float64
		switch v.K {
		case "num":
			f = v.num()
		case "str":
			if strings.Trim(v.str(), "0123456789.+-e") != "" || v.str() == "" {
				// not a number in any sense
				return nil, false, strings.Trim(strings.ToLower(v.str()), "0123456789.+-exinfa_pbcdo\t\n ") != "" || v.str() == ""
			}
			var err error
			if f, err = strconv.ParseFloat(v.str(), 64); err != nil {
				return nil, false, true
			}
		case "bool":
			return nil, false, false
		default:
			return nil, false, true
		}
		return le.AppendUint64(nil, math.Float64bits(f)), true, true
	}
	var id = map[int]uint16{luawpk.TTany: 300, luawpk.TTbin: 11, luawpk.TTstr: 110, luawpk.TTuint: 4, luawpk.TTtime: 5}[tt]
	if v.K == "nil" || v.K == "tab" {
		return nil, false, true
	}
	raw, ok = lConv(id, v)
	return raw, ok, true
}

// readWant gives documented value of the payload.
func readWant(tt int, raw []byte) (v RV, ok, known bool) {
	var n = len(raw)
	var isint = n == 1 || n == 2 || n == 4 || n == 8
	switch tt {
	case luawpk.TTbool:
		var nz = bytes.Trim(raw, "\x00")
		return rbool(len(nz) > 0), isint, n == 1 || !isint
	case luawpk.TTuint:
		if !isint {
			return RV{}, false, true
		}
		return lRead(4, raw), true, true
	case luawpk.TTnum:
		if n != 8 {
			return RV{}, false, true
		}
		return rnum(math.Float64frombits(le.Uint64(raw))), true, true
	case luawpk.TTtime:
		if n != 8 && n != 12 {
			return RV{}, false, true
		}
		return lRead(5, raw), true, true
	case luawpk.TTbin:
		return lRead(11, raw), true, true
	}
	return rstr(string(raw)), true, true
}

func toRV(v lua.LValue) RV {
	switch x := v.(type) {
	case lua.LNumber:
		return rnum(float64(x))
	case lua.LString:
		return rstr(string(x))
	case lua.LBool:
		return rbool(bool(x))
	case *lua.LNilType:
		return RV{K: 'n'}
	case *lua.LTable:
		var r = RV{K: 't', T: map[string]RV{}}
		x.ForEach(func(k, v lua.LValue) { r.T[k.String()] = toRV(v) })
		return r
	}
	return RV{K: 'x'}
}

func runC19c(c *Ctx, cs c19cCase) error {
	initLuaVM()
	var tid = wpk.TID(convBase + cs.Type)
	var tt = convTypes[cs.Type]
	c.Label("type %d", tt)
	c.Label("value %s", cs.Val.K)
	var lv = cs.Val.value(luaVM)

	raw, ok, known := convWant(tt, cs.Val)
	tag, err := luawpk.ValueToTag(tid, lv)
	if known {
		if (err == nil) != ok {
			return fmt.Errorf("value %s for tag of type %d gives %x, %v, want %x, %v", cs.Val.code(), tt, tag, err, raw, ok)
		}
		if ok && !bytes.Equal(tag, raw) {
			return fmt.Errorf("value %s for tag of type %d gives %x, want %x", cs.Val.code(), tt, tag, raw)
		}
	}
	if ok {
		c.NonTrivial()
	}
	// the same in a table, with the numeric and the named key
	for _, key := range []lua.LValue{lua.LNumber(tid), lua.LString(fmt.Sprintf("x-app-%d", cs.Type))} {
		id, err := luawpk.ValueToTID(key)
		if err != nil || id != tid {
			return fmt.Errorf("key %v gives tag %d, %v", key, id, err)
		}
		if cs.Val.isnil() {
			continue
		}
		var lt = luaVM.NewTable()
		lt.RawSet(key, lv)
		var old = wpk.TagsetRaw{}.Put(9, []byte{1})
		ts, err := luawpk.TableToTagset(lt, old)
		if known && (err == nil) != ok {
			return fmt.Errorf("table with value %s for tag of type %d gives %x, %v, want %v", cs.Val.code(), tt, ts, err, ok)
		}
		if known && ok {
			if v, is := ts.Get(tid); !is || !bytes.Equal(v, raw) || ts.Num() != 2 || !ts.Has(9) {
				return fmt.Errorf("table with value %s for tag of type %d gives %x, want %x", cs.Val.code(), tt, ts, raw)
			}
		}
		tids, err := luawpk.TableToTIDs(lt)
		if err != nil || len(tids) != 1 || tids[0] != tid {
			return fmt.Errorf("table with key %v gives tags %d, %v", key, tids, err)
		}
	}
	// back
	want, ok, known := readWant(tt, cs.Raw)
	v, err := luawpk.TagToValue(tid, cs.Raw)
	if known && (err == nil) != ok {
		return fmt.Errorf("tag %x of type %d gives %v, %v, want %s, %v", cs.Raw, tt, v, err, want, ok)
	}
	if ok && err == nil && !toRV(v).eq(want) {
		return fmt.Errorf("tag %x of type %d gives %s, want %s", cs.Raw, tt, toRV(v), want)
	}
	return nil
}

type c19fCase struct {
	Files []c01File
	Info  []Tag
	Split bool
}

func genC19f(t *rapid.T) (c c19fCase) {
	var ids = []uint16{0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 20, 25, 99, 100, 110, 111, 116, 300, 65535, convBase, convBase + 1, convBase + 2, convBase + 3, convBase + 4, convBase + 5, convBase + 6}
	var tag = rapid.Custom(func(t *rapid.T) Tag {
		var x = Tag{ID: pick(t, "id", ids)}
		x.Val = Blob{pick(t, "width", []int{0, 1, 1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 8, 9, 11, 12, 12, 13, 300}), uint32(ri(t, "seed", 1, 1<<16))}.Bytes()
		if n := len(x.Val); n == 8 || n == 12 {
			copy(x.Val[5:8], []byte{1, 0, 0})
			if n == 12 {
				copy(x.Val[4:8], []byte{1, 0, 0, 0})
				x.Val[11] &= 0x1f
			}
		}
		return x
	})
	var tags = func() []Tag {
		return rapid.SliceOfNDistinct(tag, 0, 5, func(x Tag) uint16 { return x.ID }).Draw(t, "tags")
	}
	for i, k := range []string{"f", "img/g"} {
		c.Files = append(c.Files, c01File{Key: k, Blob: Blob{ri(t, "len", 0, 9), uint32(i + 1)}, Tags: tags()})
	}
	for _, x := range tags() {
		if x.ID != 4 && x.ID != 3 {
			c.Info = append(c.Info, x)
		}
	}
	c.Split = rapid.Bool().Draw(t, "split")
	return
}

func foreignType(id uint16) int {
	if id >= convBase && int(id) < convBase+len(convTypes) {
		return convTypes[id-convBase]
	}
	switch lType(id) {
	case ltUint:
		return luawpk.TTuint
	case ltTime:
		return luawpk.TTtime
	case ltBin:
		return luawpk.TTbin
	case ltStr:
		return luawpk.TTstr
	}
	return luawpk.TTany
}

func runC19f(c *Ctx, cs c19fCase) error {
	initLuaVM()
	var dir = c.Dir()
	wpt, wpf := encPkg(cs.Files, cs.Info, cs.Split)
	var p1, p2 = filepath.Join(dir, "p.wpk"), ""
	if cs.Split {
		p1, p2 = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
		must(os.WriteFile(p2, wpf, 0o644))
	}
	must(os.WriteFile(p1, wpt, 0o644))
	var ls = luaVM
	// call runs the method under protection
	var call = func(method string, args ...lua.LValue) (RV, error) {
		var o = ls.GetGlobal("OBJ")
		var f = ls.GetField(o, method)
		var top = ls.GetTop()
		var err = ls.CallByParam(lua.P{Fn: f, NRet: 1, Protect: true}, append([]lua.LValue{o}, args...)...)
		if err != nil {
			ls.SetTop(top)
			if strings.Contains(err.Error(), "runtime error:") {
				return RV{}, fmt.Errorf("unexpected failure: %w", err)
			}
			return RV{K: 'e', S: err.Error()}, nil
		}
		var v = toRV(ls.Get(-1))
		ls.SetTop(top)
		return v, nil
	}
	if err := ls.DoString("OBJ = wpk.new()"); err != nil {
		return err
	}
	defer ls.SetGlobal("OBJ", lua.LNil)
	var args = []lua.LValue{lua.LString(p1)}
	if cs.Split {
		args = append(args, lua.LString(p2))
	}
	if v, err := call("load", args...); err != nil || v.K == 'e' {
		return fmt.Errorf("package of other writer is not loaded: %v %s", err, v.S)
	}
	var odd bool
	var all = map[string][]Tag{}
	for _, f := range cs.Files {
		all[f.Key] = f.Tags
	}
	var compareTable = func(what string, v RV, tags []Tag) error {
		if v.K == 'e' {
			for _, x := range tags {
				if _, ok, _ := readWant(foreignType(x.ID), x.Val); !ok {
					return nil
				}
			}
			return fmt.Errorf("%s raises %s", what, v.S)
		}
		for _, x := range tags {
			want, ok, known := readWant(foreignType(x.ID), x.Val)
			if !ok || !known {
				continue
			}
			var name = luawpk.TidName[x.ID]
			if name == "" {
				name = strconv.Itoa(int(x.ID))
			}
			got, is := v.T[name]
			if !is || !got.eq(want) {
				return fmt.Errorf("%s has tag %d (%x) as %s, want %s", what, x.ID, x.Val, got, want)
			}
		}
		return nil
	}
	for _, key := range sortedKeys(all) {
		for _, x := range all[key] {
			want, ok, known := readWant(foreignType(x.ID), x.Val)
			if !ok {
				odd = true
			}
			for _, k := range []lua.LValue{lua.LNumber(x.ID), lua.LString(luawpk.TidName[x.ID])} {
				if k == lua.LString("") {
					continue
				}
				v, err := call("gettag", lua.LString(key), k)
				if err != nil {
					return err
				}
				if known && (v.K != 'e') != ok {
					return fmt.Errorf("tag %v of %q (%x) is read as %s %s, want readable %v", k, key, x.Val, v, v.S, ok)
				}
				if ok && v.K != 'e' && !v.eq(want) {
					return fmt.Errorf("tag %v of %q (%x) is read as %s, want %s", k, key, x.Val, v, want)
				}
				if v, err := call("hastag", lua.LString(key), k); err != nil || !v.eq(rbool(true)) {
					return fmt.Errorf("tag %v of %q: presence is %s, %v", k, key, v, err)
				}
			}
		}
		v, err := call("gettags", lua.LString(key))
		if err != nil {
			return err
		}
		if err := compareTable(fmt.Sprintf("table of tags of %q", key), v, all[key]); err != nil {
			return err
		}
	}
	v, err := call("getinfo")
	if err != nil {
		return err
	}
	if err := compareTable("table of information", v, cs.Info); err != nil {
		return err
	}
	if odd {
		c.NonTrivial()
	}
	return nil
}
