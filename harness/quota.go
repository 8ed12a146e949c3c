package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Part `quota` of C27: the utilities and scripts under a limit of the size of written files.

type quotaCase struct {
	Tool  string // pack, extract, build
	Files []TreeFile
	Base  []c01File // build: what is in the package before
	Split bool
	Mime  bool
	Flush []int // build, split: after which files
	Old   bool  // there are older files
	PM    string
	Limit int // permilles of the biggest size, or
	Near  int // distance to the end of the biggest file if Limit is zero
}

func init() {
	reg("C27", "quota",
		"case: pack, extract, or build (with a script that makes or extends a package) run with a limit of the size of any file, at a generated point before, at, or after the sizes they need. Beyond the limit writing fails: the failure must be reported, no success announced, no package be taken for complete, no file of the destination have other content than a beginning of its own. Within the limit results must be identical to a run without limit. Non-trivial: the limit is below the need.",
		250, 5000, genQuota, runQuota)
}

func genQuota(t *rapid.T) (c quotaCase) {
	c.Tool = pick(t, "tool", []string{"pack", "extract", "build"})
	c.Files = genTree(t, "tree", 1, 6, true)
	c.Split = rapid.Bool().Draw(t, "split")
	c.Mime = rapid.Bool().Draw(t, "mime")
	c.Old = chance(t, "old", 30)
	c.PM = pick(t, "pm", tgrModes)
	if c.Tool == "build" && rapid.Bool().Draw(t, "append") {
		for _, f := range genTreeFiles(t, 1, 4) {
			f.Key = "base older/" + f.Key
			f.Tags = nil
			c.Base = append(c.Base, f)
		}
	}
	if c.Tool == "build" && c.Split {
		for i := range c.Files {
			if chance(t, "flush", 25) {
				c.Flush = append(c.Flush, i)
			}
		}
	}
	if rapid.Bool().Draw(t, "far") {
		c.Limit = ri(t, "limit", 1, 1050)
	} else {
		c.Near = ri(t, "near", -2, 80)
	}
	return
}

// runLimited runs the utility that can not write any file beyond the limit.
func runLimited(limit int64, wd, name string, args ...string) (string, error) {
	var ctx, cancel = context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var buf bytes.Buffer
	var cmd = exec.CommandContext(ctx, filepath.Join(binDir, name), args...)
	cmd.Dir, cmd.Stdout, cmd.Stderr = wd, &buf, &buf
	if limit >= 0 {
		var old syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}))
		var err = cmd.Start()
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		must(err)
	} else {
		must(cmd.Start())
	}
	var err = cmd.Wait()
	if ctx.Err() != nil {
		return buf.String(), fmt.Errorf("%s got no end in 60 seconds", name)
	}
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		must(err)
	}
	return buf.String(), err
}

func (cs quotaCase) script(dir, pk, dat string) string {
	var b strings.Builder
	var q = func(s string) string { return luaQuote([]byte(s)) }
	b.WriteString("local o = wpk.new()\n")
	if cs.Mime {
		b.WriteString("o.automime, o.sha256 = true, true\n")
	}
	var p = q(pk)
	if dat != "" {
		p += ", " + q(dat)
	}
	if len(cs.Base) > 0 {
		fmt.Fprintf(&b, "o:load(%s)\no:append()\n", p)
	} else {
		fmt.Fprintf(&b, "o:begin(%s)\n", p)
	}
	for i, f := range cs.Files {
		fmt.Fprintf(&b, "o:putfile(%s, %s)\n", q(f.Key), q(filepath.Join(dir, "src", f.Key)))
		for _, k := range cs.Flush {
			if k == i {
				b.WriteString("o:flush()\n")
			}
		}
	}
	b.WriteString("o:finalize()\n")
	return b.String()
}

func runQuota(c *Ctx, cs quotaCase) error {
	var dir = c.Dir()
	var src = filepath.Join(dir, "src")
	var content = writeTree(src, cs.Files)

	// run gets the outputs of the run
	var run = func(sub string, limit int64) (d string, o string, err error) {
		d = filepath.Join(dir, sub)
		must(os.MkdirAll(d, 0o755))
		switch cs.Tool {
		case "pack":
			var pk = filepath.Join(d, "p.wpk")
			var args = []string{"-src", src, "-dst", pk}
			if cs.Split {
				args = append(args, "-split")
			}
			if cs.Mime {
				args = append(args, "-mime")
			}
			if cs.Old {
				for _, e := range []string{".wpk", ".wpt", ".wpf"} {
					if cs.Split == (e != ".wpk") {
						must(os.WriteFile(filepath.Join(d, "p"+e), []byte("older file"), 0o666))
					}
				}
			}
			o, err = runLimited(limit, dir, "pack", args...)
		case "extract":
			var files []c01File
			for _, f := range cs.Files {
				files = append(files, c01File{Key: f.Key, Blob: f.Blob})
			}
			wpt, wpf := encPkg(files, nil, cs.Split)
			p, _ := saveImage(dir, "p", cs.Split, wpt, wpf)
			if cs.Old {
				for _, f := range cs.Files[:len(cs.Files)/2] {
					var p = filepath.Join(d, f.Key)
					must(os.MkdirAll(filepath.Dir(p), 0o755))
					must(os.WriteFile(p, make([]byte, 3000), 0o644))
				}
			}
			o, err = runLimited(limit, dir, "extract", "-src", p, "-dst", d, "-pm", cs.PM)
		case "build":
			var pk, dat = filepath.Join(d, "p.wpk"), ""
			if cs.Split {
				pk, dat = filepath.Join(d, "p.wpt"), filepath.Join(d, "p.wpf")
			}
			if len(cs.Base) > 0 {
				wpt, wpf := encPkg(cs.Base, nil, cs.Split)
				saveImage(d, "p", cs.Split, wpt, wpf)
			}
			var scr = filepath.Join(dir, "s.lua")
			must(os.WriteFile(scr, []byte(cs.script(dir, pk, dat)), 0o644))
			o, err = runLimited(limit, dir, "build", scr)
		}
		return
	}
	var fine = func(o string, err error) bool {
		if cs.Tool == "build" {
			return err == nil && strings.TrimSpace(o) == ""
		}
		return succeeded(o, err)
	}

	d0, o, err := run("free", -1)
	if !fine(o, err) {
		return fmt.Errorf("%s without a limit: %v\n%s", cs.Tool, err, o)
	}
	want, _ := readTree(d0)
	var sizes []int
	var added int
	for _, f := range cs.Files {
		added += len(content[filepath.ToSlash(filepath.Clean(f.Key))])
	}
	for k, v := range want {
		if cs.Tool == "build" && strings.HasSuffix(k, ".wpf") && added == 0 {
			continue // nothing is written there
		}
		sizes = append(sizes, len(v))
	}
	sort.Ints(sizes)
	var need = sizes[len(sizes)-1]
	var limit = need * cs.Limit / 1000
	if cs.Limit == 0 {
		limit = max(need-cs.Near, 0)
	}

	d1, o, err := run("limited", int64(limit))
	got, _ := readTree(d1)
	c.Label("%s", cs.Tool)
	if limit == need && !fine(o, err) {
		// the call that looks for the end of the source at the limit may be denied
		c.Label("exactly at the limit")
	} else if limit >= need {
		c.Label("enough")
		if !fine(o, err) {
			return fmt.Errorf("%s fails with a limit of %d bytes for a file, it needs %d: %v\n%s", cs.Tool, limit, need, err, o)
		}
		if cs.Tool == "extract" {
			return diffTrees(got, want)
		}
		return cs.openResult(d1, content, true)
	}
	if limit < need {
		c.NonTrivial()
		c.Label("short")
	}
	if cs.Tool == "build" {
		if strings.TrimSpace(o) == "" || strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:") {
			return fmt.Errorf("build of files with up to %d bytes does not report the failure with a limit of %d: %v\n%s", need, limit, err, o)
		}
	} else if !reported(o, err) {
		return fmt.Errorf("%s of files with up to %d bytes does not report the failure with a limit of %d: %v\n%s", cs.Tool, need, limit, err, o)
	}
	if cs.Tool != "extract" {
		if err = cs.openResult(d1, content, false); err != nil {
			return fmt.Errorf("%s with a limit of %d bytes for a file of %d: %w", cs.Tool, limit, need, err)
		}
		return nil
	}
	// at most one file is a part of itself
	var parts, absent int
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		switch {
		case !ok:
			absent++
		case g == want[k]:
		case cs.Old && g == string(make([]byte, 3000)): // not overwritten yet
			absent++
		case !strings.HasPrefix(want[k], g):
			return fmt.Errorf("extract with a limit of %d bytes: %q has foreign content, %s", limit, k, diffBytes([]byte(g), []byte(want[k])))
		default:
			parts++
		}
	}
	if parts > 1 {
		return fmt.Errorf("extract with a limit of %d bytes goes on after a failure: %d incomplete files", limit, parts)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("extract makes unknown file %q", k)
		}
	}
	return nil
}

// openResult checks the package of the directory. A broken one must not be opened with anything
// but a state for that it was synchronized.
func (cs quotaCase) openResult(d string, content map[string]string, whole bool) error {
	var p1, p2 = filepath.Join(d, "p.wpk"), filepath.Join(d, "p.wpk")
	if cs.Split {
		p1, p2 = filepath.Join(d, "p.wpt"), filepath.Join(d, "p.wpf")
	}
	got, err := packageFiles(p1, p2, cs.PM)
	if !whole && err != nil {
		// broken at opening only, not at reading
		var pkg = wpk.NewPackage()
		if pkg.OpenFile(p1) == nil {
			return fmt.Errorf("the broken package opens, but is unreadable: %w", err)
		}
		return nil
	}
	if err != nil {
		return err
	}
	var state = map[string]string{}
	for _, f := range cs.Base {
		state[f.Key] = string(f.Blob.Bytes())
	}
	if !whole && (len(cs.Base) > 0 || cs.Split) && diffTrees(got, state) == nil {
		return nil // a split package is accessible from its begin
	}
	for i, f := range cs.Files {
		state[f.Key] = content[filepath.ToSlash(filepath.Clean(f.Key))]
		for _, k := range cs.Flush {
			if !whole && i == k && diffTrees(got, state) == nil {
				return nil
			}
		}
	}
	if whole {
		return diffTrees(got, state)
	}
	return fmt.Errorf("it opens with %d files, in no state that was synchronized", len(got))
}
