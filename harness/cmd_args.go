package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// C22 and C24: wrong arguments of utilities are reported before anything is done, references to the
// environment in them are expanded.

type cmdArgs struct {
	Srcs   [][]TreeFile
	Faults []string
	Where  int  // the place of wrong source in the list
	Env    bool // paths are given by environment variables
	Split  bool
	PM     string
	Md     bool
	Old    bool // the destination has something already
}

func init() {
	reg("C22", "arguments",
		"case: the extract utility is called for 1..3 packages with any set of wrong arguments (absent or directory as source, no source, no destination, absent destination, file as destination, unknown mode), paths are given plainly or by environment references. Non-trivial: something is wrong.",
		220, 4400, genArgsExtract, runArgsExtract)
	reg("C24", "arguments",
		"case: the pack utility is called for 1..3 directories with any set of wrong arguments (absent or file as source, no source, no destination, absent directory of destination, directory as destination), paths are given plainly or by environment references. Non-trivial: something is wrong.",
		220, 4400, genArgsPack, runArgsPack)
}

func genArgs(t *rapid.T, faults []string) (c cmdArgs) {
	for i, n := 0, ri(t, "sources", 1, 3); i < n; i++ {
		var files = genTree(t, "tree", 1, 3, false)
		for j := range files {
			files[j].Key = fmt.Sprintf("s%d/%s", i, files[j].Key)
		}
		c.Srcs = append(c.Srcs, files)
	}
	if !chance(t, "right", 25) {
		c.Faults = append(c.Faults, pick(t, "fault", faults))
		if chance(t, "more", 25) {
			if f := pick(t, "fault", faults); f[:3] != c.Faults[0][:3] {
				c.Faults = append(c.Faults, f)
			}
		}
	}
	c.Where = ri(t, "where", 0, len(c.Srcs))
	c.Env = rapid.Bool().Draw(t, "env")
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	c.Md = rapid.Bool().Draw(t, "md")
	c.Old = rapid.Bool().Draw(t, "old")
	return
}

func genArgsExtract(t *rapid.T) cmdArgs {
	return genArgs(t, []string{"src-missing", "src-none", "src-dir", "dst-none", "dst-missing", "dst-file", "pm-bad"})
}

func genArgsPack(t *rapid.T) cmdArgs {
	return genArgs(t, []string{"src-missing", "src-none", "src-file", "dst-none", "dst-missing", "dst-dir"})
}

func (cs cmdArgs) has(f string) bool {
	for _, x := range cs.Faults {
		if x == f {
			return true
		}
	}
	return false
}

// spell writes the path as it is or by reference to environment.
func (cs cmdArgs) spell(dir, p string, i int) string {
	if !cs.Env {
		return p
	}
	must(os.Setenv("VP_SCRATCH_DIR", dir))
	return strings.Replace(p, dir, []string{"$VP_SCRATCH_DIR", "${VP_SCRATCH_DIR}", "%VP_SCRATCH_DIR%"}[i%3], 1)
}

// list inserts the wrong source.
func (cs cmdArgs) list(dir string, srcs []string) string {
	var l []string
	for i, s := range srcs {
		l = append(l, cs.spell(dir, s, i))
	}
	var w string
	switch {
	case cs.has("src-none"):
		return strings.Repeat(";", cs.Where)
	case cs.has("src-missing"):
		w = filepath.Join(dir, "nowhere")
	case cs.has("src-dir"):
		w = filepath.Join(dir, "a-directory")
	case cs.has("src-file"):
		w = filepath.Join(dir, "a-file")
	}
	if w != "" {
		l = append(l[:cs.Where:cs.Where], append([]string{w}, l[cs.Where:]...)...)
	}
	return strings.Join(l, ";")
}

func (cs cmdArgs) prepare(dir string) {
	must(os.Chmod(dir, 0o777))
	must(os.MkdirAll(filepath.Join(dir, "a-directory", "inner"), 0o777))
	must(os.WriteFile(filepath.Join(dir, "a-file"), []byte("some file"), 0o666))
}

func runArgsExtract(c *Ctx, cs cmdArgs) error {
	var dir = c.Dir()
	cs.prepare(dir)
	var srcs []string
	var want = map[string]string{}
	for i, tree := range cs.Srcs {
		var files []c01File
		for _, f := range tree {
			files = append(files, c01File{Key: f.Key, Blob: f.Blob})
			want[f.Key] = string(f.Blob.Bytes())
		}
		wpt, wpf := encPkg(files, nil, cs.Split)
		p, _ := saveImage(dir, fmt.Sprintf("p%d", i), cs.Split, wpt, wpf)
		srcs = append(srcs, p)
	}
	var out = filepath.Join(dir, "out", "deep")
	if !cs.Md {
		must(os.MkdirAll(out, 0o777))
	}
	if cs.Old {
		must(os.MkdirAll(out, 0o777))
		must(os.WriteFile(filepath.Join(out, "older"), []byte("older file"), 0o666))
		want["older"] = "older file"
	}
	var args = []string{"-src", cs.list(dir, srcs)}
	var md = cs.Md
	switch {
	case cs.has("dst-none"):
		md = false
	case cs.has("dst-missing"):
		md = false
		args = append(args, "-dst", filepath.Join(dir, "no", "such", "place"))
	case cs.has("dst-file"):
		args = append(args, "-dst", filepath.Join(dir, "a-file"))
	default:
		args = append(args, "-dst", cs.spell(dir, out, 1))
	}
	if md {
		args = append(args, "-md")
	}
	if cs.has("pm-bad") {
		args = append(args, "-pm", "zip")
	} else {
		args = append(args, "-pm", cs.PM)
	}
	return cs.judge(c, "extract", args, func() error {
		got, _ := readTree(out)
		return diffTrees(got, want)
	})
}

func runArgsPack(c *Ctx, cs cmdArgs) error {
	var dir = c.Dir()
	cs.prepare(dir)
	var srcs []string
	var want = map[string]string{}
	for i, tree := range cs.Srcs {
		var src = filepath.Join(dir, fmt.Sprintf("src%d", i))
		for k, v := range writeTree(src, tree) {
			want[k] = v
		}
		srcs = append(srcs, src)
	}
	var dst = filepath.Join(dir, "p.wpk")
	if cs.Old {
		for _, e := range []string{".wpk", ".wpt", ".wpf"} {
			must(os.WriteFile(filepath.Join(dir, "p"+e), []byte("older file"), 0o666))
		}
	}
	var args = []string{"-src", cs.list(dir, srcs)}
	if cs.Split && !cs.has("dst-dir") {
		args = append(args, "-split")
	}
	switch {
	case cs.has("dst-none"):
	case cs.has("dst-missing"):
		args = append(args, "-dst", filepath.Join(dir, "no", "such", "place.wpk"))
	case cs.has("dst-dir"):
		args = append(args, "-dst", filepath.Join(dir, "a-directory"))
	default:
		args = append(args, "-dst", cs.spell(dir, dst, 2))
	}
	return cs.judge(c, "pack", args, func() error {
		var p1, p2 = dst, dst
		if cs.Split {
			p1, p2 = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
		}
		got, err := packageFiles(p1, p2, cs.PM)
		if err != nil {
			return err
		}
		return diffTrees(got, want)
	})
}

func (cs cmdArgs) judge(c *Ctx, tool string, args []string, check func() error) error {
	var dir = c.Dir()
	var before = treeSnapshot(dir, "")
	o, err := runUtil(tool, args...)
	if len(cs.Faults) == 0 {
		c.Label("right arguments")
		if !succeeded(o, err) {
			return fmt.Errorf("%s %q: %v\n%s", tool, args, err, o)
		}
		if err := check(); err != nil {
			return fmt.Errorf("%s %q: %w", tool, args, err)
		}
		return nil
	}
	c.NonTrivial()
	for _, f := range cs.Faults {
		c.Label("%s", f)
	}
	if !reported(o, err) {
		return fmt.Errorf("%s %q with %q does not report it: %v\n%s", tool, args, cs.Faults, err, o)
	}
	var after = treeSnapshot(dir, "")
	if tool == "extract" && cs.Md {
		// destination can be created
		for _, p := range []string{filepath.Join(dir, "out"), filepath.Join(dir, "out", "deep")} {
			if _, ok := before[p]; !ok {
				delete(after, p)
			} else {
				after[p] = before[p]
			}
		}
	}
	if err := diffSnapshots(before, after); err != nil {
		return fmt.Errorf("%s %q with %q: %w", tool, args, cs.Faults, err)
	}
	return nil
}

// packageFiles reads all files of the package.
func packageFiles(p1, p2, mode string) (map[string]string, error) {
	pkg, err := openDisk(p1, p2, mode)
	if err != nil {
		return nil, err
	}
	defer pkg.Close()
	var res = map[string]string{}
	pkg.Enum(func(fkey string, _ wpk.TagsetRaw) bool {
		var b []byte
		if b, err = pkg.ReadFile(fkey); err != nil {
			return false
		}
		res[fkey] = string(b)
		return true
	})
	return res, err
}
