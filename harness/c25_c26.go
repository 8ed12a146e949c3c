package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"github.com/schwarzlichtbezirk/wpk/util"
	lua "github.com/yuin/gopher-lua"
	"pgregory.net/rapid"
)

func init() {
	reg("C25", "envfmt",
		"case: string of 1..12 pieces (text, delimiters, the three reference forms, broken references) over names that are defined in the map, in the process environment, in both or nowhere, any values; util.Envfmt and Lua path.envfmt are compared with a scanner that rewrites the string piece by piece. Strings that can be read in two ways (an undefined %A% whose last % starts another name) are not asserted. Non-trivial: a defined and an undefined or broken reference in one string, or a reference at its end.",
		100000, 2000000, genC25, runC25)
	reg("C26", "strings",
		"case: 2 strings of any bytes, rich in separators, letters and dots; the helpers are compared with bytewise definitions and the argument with its copy. Non-trivial: the string has a separator or letters of both cases.",
		100000, 2000000, genC26s, runC26s)
	reg("C26", "lua",
		"case: arguments for the Lua path, hex and time functions; results are compared with the standard functions. Non-trivial: the path has at least two elements.",
		20000, 400000, genC26l, runC26l)
	reg("C26", "files",
		"case: generated directory tree on disk; checkfile, path.enum, path.glob, wpk.DirExists, wpk.FileExists are compared with the tree. Non-trivial: the tree has a subdirectory and a file.",
		4000, 80000, genC26f, runC26f)
}

// C25: environment references.

type c25Case struct {
	Text []byte
	Map  map[string]string
	Env  map[string]string
	Nil  bool // no map is given
}

var envNames = []string{"VQA", "VQ_B", "_VQC", "q", "Z", "_", "VQLONG_NAME_1", "VQA1", "x9", "z", "aZz", strings.Repeat("VQ_", 100)}

// envOdd are not names of variables, even when something is defined by them.
var envOdd = []string{"", "9a", "9", "a-b", "VQ.A", "é", "`", "a`", "@", "[", "a[", "{", "a{", ":", "a:", "/", "a@b", "VQA^"}

func genC25(t *rapid.T) (c c25Case) {
	c.Map, c.Env = map[string]string{}, map[string]string{}
	var val = func(name string) string {
		if rare(t, "longval", 2) {
			return strings.Repeat("long/", pick(t, "vallen", longLens)/5)
		}
		return pick(t, "val-"+name, []string{"", "v", "/go", "C:\\dir x", "$VQA", "%q%", "a-much-longer-value/of/the/variable", "é", "}", "${"})
	}
	for _, n := range envNames {
		switch ri(t, "def-"+n, 0, 5) {
		case 0, 1:
			c.Map[n] = val(n)
		case 2:
			c.Env[n] = val(n)
		case 3:
			c.Map[n], c.Env[n] = val(n), val(n+"e")
		}
	}
	if chance(t, "odd defined", 40) {
		for _, n := range envOdd {
			c.Map[n] = "odd value"
		}
	}
	c.Nil = chance(t, "nil", 25)
	var n = ri(t, "pieces", 1, 12)
	for i := 0; i < n; i++ {
		var nm = pick(t, "name", envNames)
		if chance(t, "odd", 8) {
			nm = pick(t, "oddname", append([]string{"nope"}, envOdd...))
		}
		var s string
		switch ri(t, "piece", 0, 11) {
		case 0, 1:
			s = pick(t, "text", []string{"/", "a", "/bin/", "home", " ", "-", "\\x", "é", "9", "_", "."})
		case 2, 3, 4:
			s = "$" + nm
		case 5, 6:
			s = "${" + nm + "}"
		case 7, 8:
			s = "%" + nm + "%"
		case 9:
			s = pick(t, "delim", []string{"$", "%", "{", "}", "${", "$$", "%%", "${}", "$%"})
		case 10:
			s = pick(t, "broken", []string{"${" + nm, "%" + nm, "${" + nm + "-}", "%" + nm + "/"})
		default:
			s = string(rapid.SliceOfN(rapid.SampledFrom([]byte("$%{}Aa_9/\x00\xff-")), 0, 4).Draw(t, "bytes"))
		}
		c.Text = append(c.Text, s...)
	}
	c.Text = stretch(t, c.Text, 3)
	return
}

func nameLen(s string) int {
	var i = 0
	for i < len(s) {
		var ch = s[i]
		if ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || i > 0 && ch >= '0' && ch <= '9' {
			i++
			continue
		}
		break
	}
	return i
}

// refEnvfmt rewrites the string. An undefined reference is passed as a whole or by one character.
func refEnvfmt(s string, look func(string) (string, bool), whole bool) (res string, defs, undefs, broken, last int) {
	var sb strings.Builder
	for s != "" {
		var n, l = 0, 0 // length of the name, length of the reference
		var name string
		switch {
		case strings.HasPrefix(s, "${"):
			if n = nameLen(s[2:]); n > 0 && len(s) > n+2 && s[n+2] == '}' {
				name, l = s[2:n+2], n+3
			}
		case s[0] == '$':
			if n = nameLen(s[1:]); n > 0 {
				name, l = s[1:n+1], n+1
			}
		case s[0] == '%':
			if n = nameLen(s[1:]); n > 0 && len(s) > n+1 && s[n+1] == '%' {
				name, l = s[1:n+1], n+2
			}
		}
		if l > 0 {
			if v, ok := look(name); ok {
				sb.WriteString(v)
				s = s[l:]
				defs++
			} else {
				undefs++
				if !whole {
					l = 1
				}
				sb.WriteString(s[:l])
				s = s[l:]
			}
			if s == "" {
				last++
			}
			continue
		}
		if s[0] == '$' || s[0] == '%' {
			broken++
		}
		sb.WriteByte(s[0])
		s = s[1:]
	}
	return sb.String(), defs, undefs, broken, last
}

func runC25(c *Ctx, cs c25Case) error {
	var saved = map[string]*string{}
	for _, n := range envNames {
		if v, ok := os.LookupEnv(n); ok {
			saved[n] = &v
		} else {
			saved[n] = nil
		}
		if v, ok := cs.Env[n]; ok {
			must(os.Setenv(n, v))
		} else {
			must(os.Unsetenv(n))
		}
	}
	defer func() {
		for n, v := range saved {
			if v != nil {
				os.Setenv(n, *v)
			} else {
				os.Unsetenv(n)
			}
		}
	}()
	var try = func(m map[string]string, what string, f func(string) string) error {
		var look = func(n string) (string, bool) {
			if v, ok := m[n]; ok {
				return v, true
			}
			return os.LookupEnv(n)
		}
		var text = string(cs.Text)
		var want, defs, undefs, broken, last = refEnvfmt(text, look, true)
		var other, _, _, _, _ = refEnvfmt(text, look, false)
		if want != other {
			c.Label("can be read in two ways")
			return nil
		}
		if defs > 0 && undefs+broken > 0 || last > 0 {
			c.NonTrivial()
		}
		switch {
		case defs > 0 && undefs > 0:
			c.Label("defined and undefined")
		case defs > 0 && broken > 0:
			c.Label("defined and broken")
		case defs > 0:
			c.Label("defined only")
		case undefs > 0:
			c.Label("undefined only")
		}
		if last > 0 {
			c.Label("reference at the end")
		}
		var arg = string(cs.Text)
		var got = f(arg)
		if got != want {
			return fmt.Errorf("%s of %q gives %q, want %q", what, text, got, want)
		}
		if arg != text {
			return fmt.Errorf("%s has changed its argument from %q to %q", what, text, arg)
		}
		return nil
	}
	var m = cs.Map
	if cs.Nil {
		m = nil
	}
	if err := try(m, "Envfmt", func(s string) string { return util.Envfmt(s, m) }); err != nil {
		return err
	}
	return try(nil, "path.envfmt", func(s string) string {
		res, err := luaCall("path.envfmt", lua.LString(s))
		if err != nil || len(res) != 1 {
			return fmt.Sprintf("%v, error %v", res, err)
		}
		return res[0].String()
	})
}

// luaVM is the machine for calls of single functions.
var luaVM *lua.LState

func initLuaVM() {
	if luaVM == nil {
		luaVM = lua.NewState()
		luawpk.InitLuaVM(luaVM)
	}
}

// luaCall calls the function of the Lua API with given arguments.
func luaCall(fn string, args ...lua.LValue) (res []lua.LValue, err error) {
	initLuaVM()
	var ls = luaVM
	var f lua.LValue
	for i, p := range strings.Split(fn, ".") {
		if i == 0 {
			f = ls.GetGlobal(p)
		} else {
			f = ls.GetField(f, p)
		}
	}
	var top = ls.GetTop()
	if err = ls.CallByParam(lua.P{Fn: f, NRet: lua.MultRet, Protect: true}, args...); err != nil {
		ls.SetTop(top)
		return nil, err
	}
	for i := top + 1; i <= ls.GetTop(); i++ {
		res = append(res, ls.Get(i))
	}
	ls.SetTop(top)
	return
}

func showVals(vals []lua.LValue) string {
	var s []string
	for _, v := range vals {
		s = append(s, fmt.Sprintf("%s %q", v.Type(), v.String()))
	}
	return strings.Join(s, ", ")
}

// C26: helpers.

type c26s struct{ A, B []byte }

func genBytesStr(t *rapid.T, name string) []byte {
	if chance(t, name+"-any", 20) {
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, name)
	}
	return stretch(t, rapid.SliceOfN(rapid.SampledFrom([]byte("aAzZbM\\//.@[`{_09 \xc3\x9f\xd0\x90:")), 0, 14).Draw(t, name), 10)
}

func genC26s(t *rapid.T) (c c26s) {
	c.A, c.B = genBytesStr(t, "a"), genBytesStr(t, "b")
	return
}

func mapBytes(b []byte, f func(byte) byte) string {
	var r = make([]byte, len(b))
	for i, v := range b {
		r[i] = f(v)
	}
	return string(r)
}

func slashB(v byte) byte {
	if v == '\\' {
		return '/'
	}
	return v
}

func lowerB(v byte) byte {
	if v >= 'A' && v <= 'Z' {
		return v - 'A' + 'a'
	}
	return v
}

func upperB(v byte) byte {
	if v >= 'a' && v <= 'z' {
		return v - 'a' + 'A'
	}
	return v
}

func refJoin(dir, base string) (string, bool) {
	if dir == "" || dir == "." {
		return base, true
	}
	if base == "" || base == "." {
		return dir, true
	}
	if strings.HasSuffix(dir, "//") || strings.HasPrefix(base, "//") {
		return "", false // not defined what to do with several separators
	}
	return strings.TrimSuffix(dir, "/") + "/" + strings.TrimPrefix(base, "/"), true
}

func runC26s(c *Ctx, cs c26s) error {
	var text = string(cs.A)
	if strings.ContainsAny(text, "/\\") || strings.ToLower(text) != text && strings.ToUpper(text) != text {
		c.NonTrivial()
	}
	var conv = []struct {
		name string
		f    func(string) string
		ref  func(byte) byte
	}{
		{"ToSlash", util.ToSlash, slashB},
		{"ToLower", util.ToLower, lowerB},
		{"ToUpper", util.ToUpper, upperB},
		{"ToKey", util.ToKey, func(v byte) byte { return lowerB(slashB(v)) }},
	}
	for _, f := range conv {
		var arg = string(cs.A)
		var got = f.f(arg)
		if want := mapBytes(cs.A, f.ref); got != want {
			return fmt.Errorf("%s(%q) is %q, want %q", f.name, text, got, want)
		}
		if arg != text {
			return fmt.Errorf("%s has changed its argument %q to %q", f.name, text, arg)
		}
		if again := f.f(got); again != got {
			return fmt.Errorf("%s is not idempotent on %q", f.name, text)
		}
	}
	if got := string(util.S2B(text)); got != text {
		return fmt.Errorf("S2B(%q) is %q", text, got)
	}
	var buf = append([]byte{}, cs.A...)
	if got := util.B2S(buf); got != text {
		return fmt.Errorf("B2S(%q) is %q", text, got)
	}

	var a, b = string(cs.A), string(cs.B)
	if want, ok := refJoin(a, b); ok {
		if got := util.JoinPath(a, b); got != want {
			return fmt.Errorf("JoinPath(%q, %q) is %q, want %q", a, b, got, want)
		}
		if os.PathSeparator == '/' {
			if got := util.JoinFilePath(a, b); got != want {
				return fmt.Errorf("JoinFilePath(%q, %q) is %q, want %q", a, b, got, want)
			}
		}
		c.Label("joined")
	}

	// name without extension
	var base = a[strings.LastIndexAny(a, "/\\")+1:]
	if strings.Count(base, ".") <= 1 {
		var want = base
		if i := strings.IndexByte(base, '.'); i >= 0 {
			want = base[:i]
		}
		if got := util.PathName(a); got != want {
			return fmt.Errorf("PathName(%q) is %q, want %q", a, got, want)
		}
		c.Label("name")
	}

	// parts of splitted package
	if s := a[strings.LastIndexByte(a, '/')+1:]; s != "" {
		var stem = a
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			stem = a[:len(a)-len(s)+i]
		}
		if got := wpk.MakeTagsPath(a); got != stem+".wpt" {
			return fmt.Errorf("MakeTagsPath(%q) is %q, want %q", a, got, stem+".wpt")
		}
		if got := wpk.MakeDataPath(a); got != stem+".wpf" {
			return fmt.Errorf("MakeDataPath(%q) is %q, want %q", a, got, stem+".wpf")
		}
		c.Label("parts")
	}
	return nil
}

type c26l struct {
	P      [][]byte
	Pat    string
	Hex    string
	Bin    []byte
	Milli  int64
	Layout string
	Text   string
}

var timeLayouts = []string{"", luawpk.ISO8601, "02 Jan 06 15:04 MST", "Mon Jan _2 15:04:05 2006", "2006-01-02", time.RFC3339Nano, time.RFC1123Z, "15h"}

func genC26l(t *rapid.T) (c c26l) {
	var seg = func() []byte {
		return []byte(pick(t, "seg", []string{"a", "b.txt", "..", ".", "", "/", "c/d", "a.b.c", "/x/", "\\y", "dir.d/f", "é", "x y", "//"}))
	}
	var n = ri(t, "n", 1, 4)
	for i := 0; i < n; i++ {
		if chance(t, "anypath", 15) {
			c.P = append(c.P, genBytesStr(t, "p"))
		} else {
			var p = seg()
			if rapid.Bool().Draw(t, "two") {
				p = append(append(p, '/'), seg()...)
			}
			c.P = append(c.P, p)
		}
	}
	c.Pat = genPattern(t, []string{string(c.P[0])})
	c.Bin = stretch(t, rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "bin"), 10)
	c.Hex = pick(t, "hex", []string{"", "00", "ff", "FFaa09", "abc", "zz", "0x10", "a b"})
	if rapid.Bool().Draw(t, "ms") {
		c.Milli = int64(ri(t, "milli", -60000000000000, 250000000000000))
	} else {
		c.Milli = pick(t, "mill", []int64{0, 1, -1, 999, 1000, -999, -1000, -1001, 1700000000123, 1 << 40})
	}
	c.Layout = pick(t, "layout", timeLayouts)
	c.Text = pick(t, "text", []string{"", "x", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.678Z", "2020-01-02T03:04:05.6+05:00", "1969-12-31T23:59:59.999Z", "2020-13-02T03:04:05Z"})
	return
}

func runC26l(c *Ctx, cs c26l) error {
	var elems []string
	var vals []lua.LValue
	for _, p := range cs.P {
		elems = append(elems, string(p))
		vals = append(vals, lua.LString(p))
	}
	var p = elems[0]
	if strings.Count(p, "/") >= 1 {
		c.NonTrivial()
	}
	// expect compares results of the call; nil means that an error has to be raised
	var expect = func(fn string, args []lua.LValue, want ...lua.LValue) error {
		res, err := luaCall(fn, args...)
		if want == nil {
			if err == nil {
				return fmt.Errorf("%s(%s) gives %s, want an error", fn, showVals(args), showVals(res))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s(%s): %w", fn, showVals(args), err)
		}
		if showVals(res) != showVals(want) {
			return fmt.Errorf("%s(%s) gives %s, want %s", fn, showVals(args), showVals(res), showVals(want))
		}
		return nil
	}
	var errs []error
	var one = vals[:1]
	var str = func(s string) lua.LValue { return lua.LString(s) }
	errs = append(errs,
		expect("path.toslash", one, str(strings.ReplaceAll(p, "\\", "/"))),
		expect("path.clean", one, str(path.Clean(p))),
		expect("path.volume", one, str(filepath.VolumeName(p))),
		expect("path.dir", one, str(path.Dir(p))),
		expect("path.base", one, str(path.Base(p))),
		expect("path.ext", one, str(path.Ext(p))),
		expect("path.join", vals, str(path.Join(elems...))),
	)
	var d, f = path.Split(p)
	errs = append(errs, expect("path.split", one, str(d), str(f)))
	if base := p[strings.LastIndexAny(p, "/\\")+1:]; strings.Count(base, ".") <= 1 {
		errs = append(errs, expect("path.name", one, str(strings.SplitN(base, ".", 2)[0])))
	}
	var args = []lua.LValue{str(p), str(cs.Pat)}
	if ok, err := path.Match(cs.Pat, p); err != nil {
		errs = append(errs, expect("path.match", args))
		c.Label("malformed pattern")
	} else {
		errs = append(errs, expect("path.match", args, lua.LBool(ok)))
		c.Label("match %v", ok)
	}
	// hex
	errs = append(errs, expect("bin2hex", []lua.LValue{str(string(cs.Bin))}, str(hex.EncodeToString(cs.Bin))),
		expect("hex2bin", []lua.LValue{str(hex.EncodeToString(cs.Bin))}, str(string(cs.Bin))))
	if b, err := hex.DecodeString(cs.Hex); err != nil {
		errs = append(errs, expect("hex2bin", []lua.LValue{str(cs.Hex)}))
		c.Label("bad hex")
	} else {
		errs = append(errs, expect("hex2bin", []lua.LValue{str(cs.Hex)}, str(string(b))))
	}
	// time
	var layout = cs.Layout
	args = []lua.LValue{lua.LNumber(cs.Milli)}
	if layout != "" {
		args = append(args, str(layout))
	} else {
		layout = luawpk.ISO8601
	}
	var formatted = time.UnixMilli(cs.Milli).Format(layout)
	errs = append(errs, expect("milli2time", args, str(formatted)))
	args[0] = str(formatted)
	if tm, err := time.Parse(layout, formatted); err == nil {
		errs = append(errs, expect("time2milli", args, lua.LNumber(tm.UnixMilli())))
		if layout == luawpk.ISO8601 && tm.UnixMilli() != cs.Milli {
			infraf("reference of time conversion is wrong for %d", cs.Milli)
		}
	} else {
		errs = append(errs, expect("time2milli", args))
	}
	args[0] = str(cs.Text)
	if tm, err := time.Parse(layout, cs.Text); err == nil {
		errs = append(errs, expect("time2milli", args, lua.LNumber(tm.UnixMilli())))
		c.Label("time text is parsed")
	} else {
		errs = append(errs, expect("time2milli", args))
	}
	return errors.Join(errs...)
}

type c26f struct {
	Files  []string
	Dirs   []string
	Links  []string `json:",omitempty"` // targets of symbolic links
	Absent string
	Pat    string
	N      int
}

func genC26f(t *rapid.T) (c c26f) {
	c.Files = genKeys(t, 0, 8)
	c.Dirs = rapid.SliceOfN(rapid.Custom(genDir), 0, 2).Draw(t, "dirs")
	if chance(t, "links", 40) {
		for i, n := 0, ri(t, "nlinks", 1, 3); i < n; i++ {
			var to = "nope"
			if len(c.Files) > 0 && !chance(t, "dangling", 25) {
				to = pick(t, "to", c.Files)
				if chance(t, "todir", 40) {
					to = path.Dir(to)
				}
			}
			c.Links = append(c.Links, to)
		}
	}
	c.Absent = pick(t, "absent", []string{"nope", "img/nope", "nope/f", "."})
	c.Pat = pick(t, "pat", []string{"*", "*/*", "*.txt", "img*", "nope*", "*/*/*", "f?", "d/*", "["})
	c.N = ri(t, "n", -1, 9)
	return
}

func runC26f(c *Ctx, cs c26f) error {
	var dir = c.Dir()
	var kids = map[string]bool{} // direct children, true for a file
	for _, k := range cs.Files {
		must(os.MkdirAll(filepath.Join(dir, path.Dir(k)), 0o755))
		must(os.WriteFile(filepath.Join(dir, k), []byte(k), 0o644))
	}
	for _, k := range cs.Dirs {
		must(os.MkdirAll(filepath.Join(dir, k), 0o755))
	}
	for i, k := range cs.Links {
		must(os.Symlink(filepath.Join(dir, k), filepath.Join(dir, fmt.Sprintf("link%d", i))))
		c.Label("links")
	}
	ents, err := os.ReadDir(dir)
	must(err)
	var files, dirs int
	var dangling = map[string]bool{} // links to nowhere
	for _, e := range ents {
		fi, err := os.Stat(filepath.Join(dir, e.Name()))
		if err != nil {
			dangling[e.Name()] = true
			continue
		}
		kids[e.Name()] = !fi.IsDir()
		if fi.IsDir() {
			dirs++
		} else {
			files++
		}
	}
	if files > 0 && dirs > 0 {
		c.NonTrivial()
	}
	for name, file := range kids {
		var p = filepath.Join(dir, name)
		res, err := luaCall("checkfile", lua.LString(p))
		if err != nil || len(res) != 2 || res[0] != lua.LTrue || res[1] != lua.LBool(file) {
			return fmt.Errorf("checkfile(%q) gives %s, %v; it is a file: %v", name, showVals(res), err, file)
		}
		if ok, err := wpk.FileExists(p); err != nil || ok != file {
			return fmt.Errorf("FileExists(%q) gives %v, %v", name, ok, err)
		}
		if ok, err := wpk.DirExists(p); err != nil || ok == file {
			return fmt.Errorf("DirExists(%q) gives %v, %v", name, ok, err)
		}
	}
	if cs.Absent != "." {
		var p = filepath.Join(dir, cs.Absent)
		if _, err := os.Stat(p); errors.Is(err, os.ErrNotExist) {
			res, err := luaCall("checkfile", lua.LString(p))
			if err != nil || len(res) < 1 || res[0] != lua.LFalse {
				return fmt.Errorf("checkfile of absent %q gives %s, %v", cs.Absent, showVals(res), err)
			}
			if ok, err := wpk.FileExists(p); err != nil || ok {
				return fmt.Errorf("FileExists of absent gives %v, %v", ok, err)
			}
			if ok, err := wpk.DirExists(p); err != nil || ok {
				return fmt.Errorf("DirExists of absent gives %v, %v", ok, err)
			}
		}
	}
	for name := range dangling {
		var p = filepath.Join(dir, name)
		res, err := luaCall("checkfile", lua.LString(p))
		if err != nil || len(res) < 1 || res[0] != lua.LFalse {
			return fmt.Errorf("checkfile of dangling link %q gives %s, %v", name, showVals(res), err)
		}
		f, err1 := wpk.FileExists(p)
		d, err2 := wpk.DirExists(p)
		if f || d || err1 != nil || err2 != nil {
			return fmt.Errorf("FileExists and DirExists of dangling link give %v, %v, %v, %v", f, err1, d, err2)
		}
		kids[name] = true // it is still listed
	}
	// path.enum
	var args = []lua.LValue{lua.LString(dir)}
	var n = cs.N
	if n >= 0 {
		args = append(args, lua.LNumber(n))
	}
	if !(n > 0 && len(kids) == 0) {
		res, err := luaCall("path.enum", args...)
		if err != nil || len(res) != 1 {
			return fmt.Errorf("path.enum: %s, %v", showVals(res), err)
		}
		tb, ok := res[0].(*lua.LTable)
		if !ok {
			return fmt.Errorf("path.enum gives %s", showVals(res))
		}
		var want = len(kids)
		if n > 0 && n < want {
			want = n
		}
		var seen = map[string]bool{}
		for i := 1; i <= tb.Len(); i++ {
			var s = tb.RawGetInt(i).String()
			if _, ok := kids[s]; !ok || seen[s] {
				return fmt.Errorf("path.enum gives unexpected or repeated name %q", s)
			}
			seen[s] = true
		}
		if len(seen) != want {
			return fmt.Errorf("path.enum with n=%d gives %d names of %d", n, len(seen), len(kids))
		}
	}
	// path.glob
	var pat = dir + "/" + cs.Pat
	want, werr := filepath.Glob(pat)
	res, err := luaCall("path.glob", lua.LString(pat))
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("path.glob(%q): %v, want %v", cs.Pat, err, werr)
	}
	var got []string
	for _, v := range res {
		got = append(got, v.String())
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := range want {
		want[i] = strings.ReplaceAll(want[i], "\\", "/")
	}
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		return fmt.Errorf("path.glob(%q) gives %q, want %q", cs.Pat, got, want)
	}
	c.Count("glob results", bits.Len(uint(len(want))))
	return nil
}
