package main

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"pgregory.net/rapid"
)

// C32: running of scripts.

type c32Script struct {
	Dir   string
	Acts  []string // log, pack, globals, set
	Fail  string   // "", syntax, error, errtab, nilcall, wpk, bare, absent, return
	At    int
	Env   int  // 0 plain path, 1..3 by environment reference
	After bool // something is written after the failure
	Call  string
	Name  string
}

// calls that are refused by the reason of the name %s
var c32Calls = []string{"load", "putfile", "putdata", "rename", "rename2", "renamedir", "putalias", "filesize", "hastag", "gettag", "settag", "addtag", "deltag", "gettags", "settags", "addtags", "deltags", "begin", "error", "key"}

type c32Case struct {
	Scripts []c32Script
	API     bool // luawpk.RunLuaVM instead of the utility
}

func init() {
	reg("C32", "scripts",
		"case: 0..4 scripts in different directories that log, pack files, read the given globals, and may fail at any statement in one of several ways (syntax, error call, error object, call of nil, refused package call, absent file); run by the build utility with plain paths or environment references, or one by one by RunLuaVM. Non-trivial: a script fails or several scripts run.",
		350, 7000, genC32, runC32)
}

func genC32(t *rapid.T) (c c32Case) {
	for i, n := 0, ri(t, "scripts", 0, 4); i < n; i++ {
		var s = c32Script{Dir: pick(t, "dir", []string{"", "a", "a/b", "дир", "with space"})}
		for j, m := 0, ri(t, "acts", 0, 4); j < m; j++ {
			s.Acts = append(s.Acts, pick(t, "act", []string{"log", "pack", "globals", "set"}))
		}
		if chance(t, "fails", 30) {
			s.Fail = pick(t, "fail", []string{"syntax", "error", "error", "errtab", "errnil", "errnone", "nilcall", "wpk", "wpk", "absent", "return"})
			s.At = ri(t, "at", 0, len(s.Acts))
			s.After = rapid.Bool().Draw(t, "after")
		}
		if s.Fail == "wpk" {
			s.Call = pick(t, "call", c32Calls)
			s.Name = pick(t, "name", []string{"nothing", "100%", "50%done", "a%sb", "%d%v%!x", "%%", "%[1]s", "дом %x", "sp ace", "q'uo", "a%2fb"})
		}
		s.Env = ri(t, "env", 0, 3)
		c.Scripts = append(c.Scripts, s)
	}
	c.API = chance(t, "api", 30)
	return
}

func runC32(c *Ctx, cs c32Case) error {
	var dir = c.Dir()
	must(os.Setenv("VP_SCRIPT_DIR", dir))
	var out = filepath.Join(dir, "out")
	must(os.WriteFile(out, nil, 0o644))
	var args []string
	var wantOut, wantLog []string
	var wantPkg = map[string]string{} // package file and the only file in it
	var failMsg string
	var failed = -1
	var running = true
	var texts []string
	var paths []string
	for i, s := range cs.Scripts {
		var sd = filepath.Join(dir, s.Dir)
		must(os.MkdirAll(sd, 0o755))
		var p = filepath.Join(sd, fmt.Sprintf("script%d.lua", i))
		var arg = p
		switch s.Env {
		case 1:
			arg = strings.Replace(p, dir, "$VP_SCRIPT_DIR", 1)
		case 2:
			arg = strings.Replace(p, dir, "${VP_SCRIPT_DIR}", 1)
		case 3:
			arg = strings.Replace(p, dir, "%VP_SCRIPT_DIR%", 1)
		}
		args, paths = append(args, arg), append(paths, p)
		var b strings.Builder
		fmt.Fprintf(&b, "local function say(s) local f = assert(io.open(%s, 'ab')) f:write(s, '\\n') f:close() end\n", q(out))
		var live = running && s.Fail != "syntax" && s.Fail != "absent"
		var say = func(text, expr string) {
			fmt.Fprintf(&b, "say(%s)\n", expr)
			if live {
				wantOut = append(wantOut, text)
			}
		}
		say(fmt.Sprintf("begin %d", i), fmt.Sprintf("'begin %d'", i))
		// each script has globals of its own
		say("nil", "tostring(LEFT)")
		var fail = func() {
			var msg string
			switch s.Fail {
			case "syntax":
				msg = fmt.Sprintf("script%d.lua", i)
				fmt.Fprintf(&b, "local = = )\n")
			case "absent":
				msg = fmt.Sprintf("script%d.lua", i)
			case "error":
				msg = fmt.Sprintf("boom-%d", i)
				fmt.Fprintf(&b, "do error('%s') end\n", msg)
			case "errtab":
				fmt.Fprintf(&b, "do error({}) end\n")
			case "errnil":
				fmt.Fprintf(&b, "do error(nil) end\n")
			case "errnone":
				fmt.Fprintf(&b, "do error() end\n")
			case "nilcall":
				msg = fmt.Sprintf("script%d.lua", i)
				fmt.Fprintf(&b, "local none = nil; none()\n")
			case "wpk":
				msg = fmt.Sprintf("%s-%d", s.Name, i)
				b.WriteString("do " + c32Refused(dir, s.Call, msg) + " end\n")
			case "return":
				fmt.Fprintf(&b, "do return 5 end\n")
			}
			if live || running && (s.Fail == "syntax" || s.Fail == "absent") {
				if s.Fail != "return" {
					failed, failMsg, running = i, msg, false
				}
			}
			live = false
		}
		for j, a := range s.Acts {
			if s.Fail != "" && j == s.At {
				fail()
				if !s.After {
					break
				}
			}
			switch a {
			case "log":
				var m = fmt.Sprintf("message %d.%d", i, j)
				fmt.Fprintf(&b, "log(%s)\n", q(m))
				if live {
					wantLog = append(wantLog, m)
				}
			case "set":
				fmt.Fprintf(&b, "LEFT = %d\nwpk.LEFT = %d\n", j, j)
			case "pack":
				var pk = filepath.Join(dir, fmt.Sprintf("p%d-%d.wpk", i, j))
				fmt.Fprintf(&b, "do local o = wpk.new() o:begin(%s) o:putdata('f', 'data %d.%d') o:finalize() end\n", q(pk), i, j)
				if live {
					wantPkg[pk] = fmt.Sprintf("data %d.%d", i, j)
				}
			case "globals":
				say(sd, "scrdir")
				say("string string", "type(buildvers)..' '..type(buildtime)")
				say(filepath.ToSlash(os.TempDir()), "tmpdir")
				if cs.API {
					x, err := os.Executable()
					must(err)
					say(filepath.Dir(x), "bindir")
				} else {
					say(filepath.Clean(binDir), "bindir")
				}
			}
		}
		if s.Fail != "" && s.At == len(s.Acts) {
			fail()
		}
		if !(s.Fail == "return" && s.At == len(s.Acts)) && (s.Fail == "" || s.After) {
			// nothing can stand after the return except of the end
			say(fmt.Sprintf("end %d", i), fmt.Sprintf("'end %d'", i))
		}
		texts = append(texts, b.String())
		if s.Fail != "absent" {
			must(os.WriteFile(p, []byte(b.String()), 0o644))
		}
	}
	var o string
	if cs.API {
		var buf bytes.Buffer
		log.SetOutput(&buf)
		defer log.SetOutput(os.Stderr)
		for i, p := range paths {
			err := luawpk.RunLuaVM(p)
			if (err != nil) != (i == failed) {
				return fmt.Errorf("script %d gives %v, want failure %v\n%s", i, err, i == failed, texts[i])
			}
			if err != nil {
				if !strings.Contains(err.Error(), failMsg) {
					return fmt.Errorf("error of script %d is %q, it says nothing of %q", i, err, failMsg)
				}
				break
			}
		}
		o = buf.String()
	} else {
		var err error
		o, err = runUtil("build", args...)
		if failed < 0 {
			if err != nil {
				return fmt.Errorf("build %q: %v\n%s", args, err, o)
			}
			// only messages of scripts are in the log
			var lines = strings.Split(strings.TrimSpace(o), "\n")
			if strings.TrimSpace(o) == "" {
				lines = nil
			}
			if len(lines) != len(wantLog) {
				return fmt.Errorf("log is %q, want messages %q", lines, wantLog)
			}
		} else if strings.Contains(o, "panic:") || strings.TrimSpace(o) == "" || !strings.Contains(o, failMsg) {
			return fmt.Errorf("build does not report failure of script %d (%s): %v %q\n%s", failed, cs.Scripts[failed].Fail, err, o, texts[failed])
		}
	}
	var rest = o
	for _, m := range wantLog {
		var i = strings.Index(rest, m)
		if i < 0 {
			return fmt.Errorf("message %q is absent in the log %q", m, o)
		}
		rest = rest[i+len(m):]
	}
	raw, err := os.ReadFile(out)
	must(err)
	var got = strings.Split(strings.TrimSuffix(string(raw), "\n"), "\n")
	if len(raw) == 0 {
		got = nil
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", wantOut) {
		return fmt.Errorf("scripts did %q, want %q (failure in script %d)\n%s", got, wantOut, failed, o)
	}
	ents, err := filepath.Glob(filepath.Join(dir, "*.wpk"))
	must(err)
	sort.Strings(ents)
	if want := sortedKeys(wantPkg); fmt.Sprint(ents) != fmt.Sprint(want) {
		return fmt.Errorf("packages made by scripts are %q, want %q", ents, want)
	}
	for _, p := range ents {
		files, err := packageFiles(p, p, "bulk")
		if err != nil || len(files) != 1 || files["f"] != wantPkg[p] {
			return fmt.Errorf("package %q has %q, %v, want %q", p, files, err, wantPkg[p])
		}
	}
	if failed >= 0 {
		c.Label("fails by %s", cs.Scripts[failed].Fail)
	}
	if failed >= 0 || len(cs.Scripts) > 1 {
		c.NonTrivial()
	}
	return nil
}

// c32Refused returns statements the last of which is refused because of the name.
func c32Refused(dir, call, name string) string {
	var n = q(name)
	var stage = fmt.Sprintf("local o = wpk.new() o:begin(%s) o:putdata('some', 'x') ", q(filepath.Join(dir, "stage")))
	switch call {
	case "load":
		return fmt.Sprintf("wpk.new():load(%s)", q(filepath.Join(dir, name)))
	case "begin":
		return fmt.Sprintf("wpk.new():begin(%s)", q(filepath.Join(dir, name, "p.wpk")))
	case "error":
		return fmt.Sprintf("error(%s)", n)
	case "putfile":
		return stage + fmt.Sprintf("o:putfile('f', %s)", q(filepath.Join(dir, name)))
	case "putdata":
		return stage + fmt.Sprintf("o:putdata(%s, 'y') o:putdata(%s, 'z')", n, n)
	case "rename":
		return stage + fmt.Sprintf("o:rename(%s, 'new')", n)
	case "rename2":
		return stage + fmt.Sprintf("o:putdata(%s, 'y') o:rename('some', %s)", n, n)
	case "renamedir":
		return stage + fmt.Sprintf("o:putdata('d1/'..%s, 'y') o:putdata('d2/'..%s, 'z') o:renamedir('d1', 'd2', false)", n, n)
	case "putalias":
		return stage + fmt.Sprintf("o:putalias(%s, 'new')", n)
	case "key":
		return stage + fmt.Sprintf("o:settags('some', {[%s] = 'x'})", n)
	case "filesize", "gettags":
		return stage + fmt.Sprintf("o:%s(%s)", call, n)
	case "hastag", "gettag", "deltag":
		return stage + fmt.Sprintf("o:%s(%s, 'mime')", call, n)
	case "settag", "addtag":
		return stage + fmt.Sprintf("o:%s(%s, 'mime', 'x')", call, n)
	case "settags", "addtags", "deltags":
		return stage + fmt.Sprintf("o:%s(%s, {mime = 'x'})", call, n)
	}
	panic(call)
}
