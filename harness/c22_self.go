package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// Packages which stand among the files that they are made of.

func init() {
	reg("C22", "self", "the package is written inside of the source tree, or it is replaced by its own content, with other files around",
		60, 1200, genC22self, runC22self)
}

type c22self struct {
	Files []TreeFile
	Dir   string // directory of the tree with the package
	Name  string // name of the package without extension
	Old   Blob   // content of the file with this name before
	Kind  string // pack: written inside of the source, extract: replaced by its own content
	Split bool
	PM    string
}

func genC22self(t *rapid.T) (c c22self) {
	c.Files = genTree(t, "tree", 0, 7, true)
	c.Dir = "."
	if len(c.Files) > 0 && chance(t, "deep", 50) {
		c.Dir = path.Dir(path.Clean(pick(t, "dir", c.Files).Key))
	}
	if strings.ContainsAny(c.Dir, "$%;\\") { // has own meaning in arguments
		c.Dir = "."
	}
	c.Name = pick(t, "name", []string{"p", "0p", "~p"})
	c.Old = Blob{ri(t, "old", 0, 90), uint32(ri(t, "oldseed", 0, 99))}
	c.Kind = pick(t, "kind", []string{"pack", "extract"})
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	return
}

func runC22self(c *Ctx, cs c22self) error {
	var dir = c.Dir()
	must(os.Chmod(dir, 0o777))
	var src, out = filepath.Join(dir, "src"), filepath.Join(dir, "out")
	var want = writeTree(src, cs.Files)
	must(os.MkdirAll(out, 0o777))
	var own, data = path.Join(cs.Dir, cs.Name+".wpk"), path.Join(cs.Dir, cs.Name+".wpk")
	if cs.Split {
		own, data = path.Join(cs.Dir, cs.Name+".wpt"), path.Join(cs.Dir, cs.Name+".wpf")
	}
	for _, k := range []string{own, data} {
		if fi, err := os.Stat(filepath.Join(src, k)); err == nil && fi.IsDir() {
			return nil
		}
	}
	// size of written files is limited, endless writing should not fill the disk
	var run = func(name string, args ...string) (string, error) {
		return runUtilCmd("/bin/sh", dir, false, append([]string{"-c", "ulimit -f 131072; exec \"$0\" \"$@\"", filepath.Join(binDir, name)}, args...)...)
	}
	var pack = []string{"-src", src, "-dst"}
	if cs.Split {
		pack = []string{"-split", "-src", src, "-dst"}
	}
	c.Label("%s split %v mode %s", cs.Kind, cs.Split, cs.PM)

	if cs.Kind == "pack" {
		if cs.Old.Len > 0 {
			must(os.WriteFile(filepath.Join(src, own), cs.Old.Bytes(), 0o644))
		}
		delete(want, own)
		delete(want, data)
		o, err := run("pack", append(pack, filepath.Join(src, cs.Dir, cs.Name+".wpk"))...)
		if !succeeded(o, err) {
			return fmt.Errorf("pack with destination %q inside of the source: %v\n%s", own, err, o)
		}
		o, err = run("extract", "-src", filepath.Join(src, own), "-dst", out, "-pm", cs.PM)
		if !succeeded(o, err) {
			return fmt.Errorf("extract of package that was written inside of the source: %v\n%s", err, o)
		}
		got, _ := readTree(out)
		if err := diffTrees(got, want); err != nil {
			return fmt.Errorf("package %q was written inside of the source: extracted tree: %w", own, err)
		}
		if len(want) > 1 {
			c.NonTrivial()
		}
		return nil
	}

	// the package holds a file with the name of its own data file
	must(os.WriteFile(filepath.Join(src, data), cs.Old.Bytes(), 0o644))
	want[data] = string(cs.Old.Bytes())
	o, err := run("pack", append(pack, filepath.Join(dir, cs.Name+".wpk"))...)
	if !succeeded(o, err) {
		return fmt.Errorf("pack: %v\n%s", err, o)
	}
	must(os.MkdirAll(filepath.Join(out, cs.Dir), 0o777))
	for _, k := range []string{own, data} {
		b, err := os.ReadFile(filepath.Join(dir, path.Base(k)))
		must(err)
		must(os.WriteFile(filepath.Join(out, k), b, 0o644))
		if _, ok := want[k]; !ok {
			want[k] = string(b) // remains as it is
		}
	}
	o, err = run("extract", "-src", filepath.Join(out, own), "-dst", out, "-pm", cs.PM)
	if !succeeded(o, err) {
		return fmt.Errorf("extract by %s over its own file %q: %v\n%s", cs.PM, data, err, o)
	}
	got, _ := readTree(out)
	if err := diffTrees(got, want); err != nil {
		return fmt.Errorf("extract by %s over its own file %q: %w", cs.PM, data, err)
	}
	if len(want) > 1 {
		c.NonTrivial()
	}
	return nil
}
