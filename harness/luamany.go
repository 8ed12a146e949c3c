package main

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"

	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"pgregory.net/rapid"
)

// Parts `many`: scripts with loops over a great number of files.

type luaManyCase struct {
	N       []int // files of each session
	Split   bool
	Flush   int  // flush after each number of files, 0 never
	Alias   int  // alias for each file with the number that divides by
	Del     int  // number of deleted names
	Move    bool // the first directory is renamed
	Fid     bool // options
	Crc     bool
	OwnFid  int // explicit number of the first file of each session, 0 if it is automatic
	SameObj bool
}

func init() {
	reg("C20", "many",
		"case: a script with loops over 1..20000 files (rarely 66000) in 1..3 sessions by the same or new objects, aliases, deletions, renaming of a directory, flushes; queries are compared inside of the script with values computed beforehand, the package through the Go API with the list of files. Non-trivial: over 255 names.",
		6, 100, genLuaMany, runLuaMany)
	reg("C21", "many",
		"case: as in C20 `many` with automatic numbers and checksums: numbers are unique over all sessions, checksums belong to contents. Non-trivial: over 255 names.",
		6, 100, func(t *rapid.T) (c luaManyCase) {
			c = genLuaMany(t)
			c.Fid, c.Crc = true, true
			return
		}, runLuaMany)
	reg("C26", "many",
		"case: a directory with 1..12000 files and some subdirectories: path.glob, path.enum in a script, fed by one call. Non-trivial: over 255 files.",
		4, 60, func(t *rapid.T) (c luaDirCase) {
			c.N = pick(t, "n", []int{1, 100, 256, 1000, 2500, 5000, 5100, 6000, 12000})
			c.Dirs = ri(t, "dirs", 0, 3)
			return
		}, runLuaDir)
}

func genLuaMany(t *rapid.T) (c luaManyCase) {
	for i := ri(t, "sessions", 1, 3); i > 0; i-- {
		c.N = append(c.N, pick(t, "n", []int{1, 10, 127, 200, 255, 256, 257, 300, 1000, 2000, 4096, 5000, 5200, 7000}))
	}
	if chance(t, "huge", 8) {
		c.N[0] = pick(t, "hugen", []int{20000, 65535, 66000})
	}
	c.Split = rapid.Bool().Draw(t, "split")
	if c.Split {
		c.Flush = pick(t, "flush", []int{0, 0, 1000, 300})
	}
	c.Alias = pick(t, "alias", []int{0, 2, 7, 100})
	c.Del = pick(t, "del", []int{0, 1, 20})
	c.Move = rapid.Bool().Draw(t, "move") && c.N[0] <= 2000
	c.Fid, c.Crc = rapid.Bool().Draw(t, "fid"), rapid.Bool().Draw(t, "crc")
	c.OwnFid = pick(t, "ownfid", []int{0, 0, 0, 1, 250, 65530})
	c.SameObj = rapid.Bool().Draw(t, "sameobj")
	return
}

func runLuaMany(c *Ctx, cs luaManyCase) error {
	type ent struct {
		key   string
		id    int // number of content
		alias bool
		fid   bool // has automatic or own number
	}
	var list []ent
	var src strings.Builder
	var say = func(f string, a ...any) { fmt.Fprintf(&src, f+"\n", a...) }
	var dir = c.Dir()
	var pp, dp = filepath.Join(dir, "m.wpk"), ""
	var args = luaQuote([]byte(pp))
	if cs.Split {
		pp, dp = filepath.Join(dir, "m.wpt"), filepath.Join(dir, "m.wpf")
		args = luaQuote([]byte(pp)) + ", " + luaQuote([]byte(dp))
	}
	var content = func(i int) string { return fmt.Sprintf("content %d", i) }
	var id, sum, data int
	say("local function same(what, got, want) if got ~= want then error(what..' gives '..tostring(got)..', want '..tostring(want)) end end")
	say("local pkg = wpk.new()")
	for s, n := range cs.N {
		if s > 0 && !cs.SameObj {
			say("pkg = wpk.new()")
			say("pkg:load(%s)", args)
		}
		say("pkg.autofid, pkg.crc32 = %v, %v", cs.Fid, cs.Crc)
		if s == 0 {
			say("pkg:begin(%s)", args)
		} else {
			say("pkg:append()")
		}
		say("for i = %d, %d do", id+1, id+n)
		say("  local name = 'd'..(i %% 5)..'/f'..i")
		if cs.OwnFid > 0 && s == 0 {
			say("  if i == %d then pkg:putdata(name, 'content '..i, {fid=%d}) else", id+1, cs.OwnFid)
		} else {
			say("  do")
		}
		say("  pkg:putdata(name, 'content '..i) end")
		if cs.Alias > 0 {
			say("  if i %% %d == 0 then pkg:putalias(name, 'alias/a'..i) end", cs.Alias)
		}
		if cs.Flush > 0 {
			say("  if i %% %d == 0 then pkg:flush() end", cs.Flush)
		}
		say("end")
		for i := id + 1; i <= id+n; i++ {
			list = append(list, ent{fmt.Sprintf("d%d/f%d", i%5, i), i, false, cs.Fid || cs.OwnFid > 0 && s == 0 && i == 1})
			sum += len(content(i))
			data += len(content(i))
			if cs.Alias > 0 && i%cs.Alias == 0 {
				list = append(list, ent{fmt.Sprintf("alias/a%d", i), i, true, cs.Fid || cs.OwnFid > 0 && s == 0 && i == 1})
				sum += len(content(i))
			}
		}
		id += n
		for k := 0; k < cs.Del && len(list) > 1; k++ {
			var j = (k*7919 + s) % len(list)
			say("same('delalias', pkg:delalias(%q), true)", list[j].key)
			sum -= len(content(list[j].id))
			list = append(list[:j:j], list[j+1:]...)
		}
		if cs.Move && s == 0 {
			var moved []ent
			var rest []ent
			for _, e := range list {
				if strings.HasPrefix(e.key, "d1/") {
					e.key = "moved/to" + e.key[2:]
					moved = append(moved, e)
				} else {
					rest = append(rest, e)
				}
			}
			list = append(rest, moved...)
			say("same('renamedir', pkg:renamedir('d1', 'moved/to'), %d)", len(moved))
		}
		say("same('tagnum', pkg.tagnum, %d)", len(list))
		say("same('sumsize', pkg:sumsize(), %d)", sum)
		say("same('datasize', pkg.datasize, %d)", data)
		for _, g := range []string{"*/*", "alias/*", "*", "d[0-3]/*", "moved/to/f*"} {
			var n = 0
			var last string
			for _, e := range list {
				var ok = g == "*/*" && strings.Count(e.key, "/") == 1 || g == "alias/*" && strings.HasPrefix(e.key, "alias/") ||
					g == "d[0-3]/*" && e.key[0] == 'd' && e.key[1] <= '3' || g == "moved/to/f*" && strings.HasPrefix(e.key, "moved/to/")
				if ok {
					n, last = n+1, e.key
				}
			}
			say("same('glob %s', select('#', pkg:glob('%s')), %d)", g, g, n)
			say("local t = {pkg:glob('%s')}", g)
			say("same('list of %s', #t, %d)", g, n)
			if n > 0 {
				say("same('last of %s', t[#t], %q)", g, last)
			}
		}
		if len(list) > 0 {
			var e = list[len(list)/2]
			say("same('filesize', pkg:filesize(%q), %d)", e.key, len(content(e.id)))
		}
		say("pkg:finalize()")
	}
	if len(list) > 255 {
		c.NonTrivial()
	}
	c.Count("files", len(list))
	var script = filepath.Join(dir, "many.lua")
	must(os.WriteFile(script, []byte(src.String()), 0o644))
	if err := luawpk.RunLuaVM(script); err != nil {
		return fmt.Errorf("script: %w", err)
	}
	if dp == "" {
		dp = pp
	}
	pkg, err := openDisk(pp, dp, tgrModes[id%len(tgrModes)])
	if err != nil {
		return err
	}
	defer pkg.Close()
	if n := pkg.TagsetNum(); n != len(list) {
		return fmt.Errorf("package has %d names, want %d", n, len(list))
	}
	var fids = map[uint]int{}
	var last uint
	for k, e := range list {
		ts, ok := pkg.GetTagset(e.key)
		if !ok {
			return fmt.Errorf("%q is absent", e.key)
		}
		if k%(1+len(list)/500) == 0 {
			b, err := pkg.ReadFile(e.key)
			if err != nil {
				return err
			}
			if string(b) != content(e.id) {
				return fmt.Errorf("content of %q is %q, want %q", e.key, b, content(e.id))
			}
		}
		fid, ok := ts.TagUint(4)
		if ok != e.fid {
			return fmt.Errorf("number of %q: %v, want %v", e.key, ok, e.fid)
		}
		if ok {
			if other, ok := fids[fid]; ok && other != e.id && !(e.id == 1 && cs.OwnFid > 0) && !(other == 1 && cs.OwnFid > 0) {
				return fmt.Errorf("%q has number %d of the other file, content %d", e.key, fid, other)
			}
			fids[fid] = e.id
			last = max(last, fid)
		}
		crc, ok := ts.Get(12)
		if ok != cs.Crc {
			return fmt.Errorf("checksum of %q: %v, want %v", e.key, ok, cs.Crc)
		}
		if ok {
			if want := crc32.Checksum([]byte(content(e.id)), crc32.MakeTable(crc32.Castagnoli)); string(crc) != string(binary.BigEndian.AppendUint32(nil, want)) {
				return fmt.Errorf("checksum of %q is %x, want %x", e.key, []byte(crc), want)
			}
		}
	}
	return nil
}

type luaDirCase struct{ N, Dirs int }

func runLuaDir(c *Ctx, cs luaDirCase) error {
	var dir = filepath.Join(c.Dir(), "tree")
	must(os.MkdirAll(dir, 0o755))
	for i := 0; i < cs.Dirs; i++ {
		must(os.MkdirAll(filepath.Join(dir, fmt.Sprintf("dir%d", i)), 0o755))
	}
	for i := 0; i < cs.N; i++ {
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.x", i)), nil, 0o644))
	}
	if cs.N > 255 {
		c.NonTrivial()
	}
	var src strings.Builder
	var say = func(f string, a ...any) { fmt.Fprintf(&src, f+"\n", a...) }
	say("local function same(what, got, want) if got ~= want then error(what..' gives '..tostring(got)..', want '..tostring(want)) end end")
	say("local dir = %s", luaQuote([]byte(dir)))
	say("same('glob', select('#', path.glob(dir..'/*.x')), %d)", cs.N)
	say("same('glob of all', #{path.glob(dir..'/*')}, %d)", cs.N+cs.Dirs)
	say("local n = 0; for k, v in pairs(path.enum(dir)) do n = n + 1 end")
	say("same('enum', n, %d)", cs.N+cs.Dirs)
	var script = filepath.Join(c.Dir(), "dir.lua")
	must(os.WriteFile(script, []byte(src.String()), 0o644))
	if err := luawpk.RunLuaVM(script); err != nil {
		return fmt.Errorf("script: %w", err)
	}
	return nil
}
