package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Parts `clash` of C11 and C14: a name can be a file and, at the same time, a directory of other files. Which of them is
// listed by the parent directory is not stated, but all other calls give the file.

type clashPkg struct {
	Sub  string
	Keys []string
	Lens []int
}

type clashCase struct {
	Union bool
	Pkgs  []clashPkg
}

func init() {
	reg("C11", "clash",
		"case: a package whose names are built of two words, so that files have names of directories; opening, stat and reading of each name must give the file if there is one, directories otherwise, and listings have each child once. Non-trivial: some name is both file and directory.",
		1500, 30000, func(t *rapid.T) clashCase { return genClash(t, false) }, runClash)
	reg("C14", "clash",
		"case: a union of 1..4 packages or their sub-workspaces whose names are built of two words, so that files have names of directories in the same or another package; opening, stat and reading of each name must give the first file of the name if there is one, directories otherwise, and listings have each child once. Non-trivial: some name is both file and directory.",
		1500, 30000, func(t *rapid.T) clashCase { return genClash(t, true) }, runClash)
}

func genClash(t *rapid.T, union bool) (c clashCase) {
	c.Union = union
	var n = 1
	if union {
		n = ri(t, "members", 1, 4)
	}
	for i := 0; i < n; i++ {
		var p clashPkg
		if chance(t, "sub", 30) {
			p.Sub = pick(t, "ws", []string{"a", "ws", "a/b"})
		}
		p.Keys = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "a.b"}), 1, 4).Draw(t, "words"), "/")
		}), 1, 6, rapid.ID[string]).Draw(t, "keys")
		for range p.Keys {
			p.Lens = append(p.Lens, ri(t, "len", 0, 40))
		}
		c.Pkgs = append(c.Pkgs, p)
	}
	return
}

func runClash(c *Ctx, cs clashCase) error {
	var files []c01File
	var u = &wpk.Union{}
	for i, p := range cs.Pkgs {
		var own []c01File
		for j, k := range p.Keys {
			var f = c01File{Key: k, Blob: Blob{p.Lens[j], uint32(1 + i*100 + j)}}
			files = append(files, f)
			f.Key = path.Join(p.Sub, k)
			own = append(own, f)
		}
		wpt, _ := encPkg(own, nil, false)
		var pkg = wpk.NewPackage()
		if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
			return err
		}
		pkg.Tagger = memTagger{wpt}
		if p.Sub != "" {
			s, err := pkg.Sub(p.Sub)
			if err != nil {
				return fmt.Errorf("sub %q: %w", p.Sub, err)
			}
			pkg = s.(*wpk.Package)
		}
		u.List = append(u.List, pkg)
	}
	var v fsAll = u
	if !cs.Union {
		v = u.List[0]
	}
	return checkClash(c, v, files, true)
}

func checkClash(c *Ctx, v fsAll, list []c01File, deep bool) error {
	var files = map[string][]byte{}
	var kids = map[string]map[string]int{".": {}} // 1: file, 2: directory
	for _, f := range list {
		if _, ok := files[f.Key]; !ok {
			files[f.Key] = f.Blob.Bytes()
		}
		for k, bit := f.Key, 1; k != "."; k, bit = path.Dir(k), 2 {
			var d = path.Dir(k)
			if kids[d] == nil {
				kids[d] = map[string]int{}
			}
			kids[d][path.Base(k)] |= bit
		}
	}
	for d, m := range kids {
		for k, bits := range m {
			if bits == 3 {
				c.NonTrivial()
			}
			var name = path.Join(d, k)
			fi, err := v.Stat(name)
			if err != nil {
				return fmt.Errorf("stat of %q: %w", name, err)
			}
			f, err := v.Open(name)
			if err != nil {
				return fmt.Errorf("open of %q: %w", name, err)
			}
			ofi, err := f.Stat()
			if err != nil {
				return fmt.Errorf("stat of opened %q: %w", name, err)
			}
			data, ok := files[name]
			for how, fi := range map[string]fs.FileInfo{"stat": fi, "open": ofi} {
				if fi.IsDir() == ok {
					return fmt.Errorf("%s of %q: directory %v, there is a file %v", how, name, fi.IsDir(), ok)
				}
				if ok && fi.Size() != int64(len(data)) {
					return fmt.Errorf("%s of %q: size is %d, want %d", how, name, fi.Size(), len(data))
				}
				if fi.Name() != k {
					return fmt.Errorf("%s of %q: name is %q", how, name, fi.Name())
				}
			}
			b, err := v.ReadFile(name)
			if ok {
				if err != nil {
					return fmt.Errorf("reading of %q: %w", name, err)
				}
				if d := diffBytes(b, data); d != "" {
					return fmt.Errorf("content of %q: %s", name, d)
				}
				if b, err = io.ReadAll(f); err != nil {
					return fmt.Errorf("reading of opened %q: %w", name, err)
				}
				if d := diffBytes(b, data); d != "" {
					return fmt.Errorf("content of opened %q: %s", name, d)
				}
			} else if err == nil {
				return fmt.Errorf("directory %q is read as a file", name)
			}
			f.Close()
		}
		entries, err := v.ReadDir(d)
		if err != nil {
			return fmt.Errorf("listing of %q: %w", d, err)
		}
		var got []string
		for _, e := range entries {
			got = append(got, e.Name())
			if bits := m[e.Name()]; bits == 1 && e.IsDir() || bits == 2 && !e.IsDir() {
				return fmt.Errorf("listing of %q: entry %q is directory: %v", d, e.Name(), e.IsDir())
			}
		}
		if want := sortedKeys(m); !slices.Equal(got, want) {
			return fmt.Errorf("listing of %q is %q, want %q", d, got, want)
		}
	}
	var want []string
	for _, k := range sortedKeys(files) {
		if !strings.Contains(k, "/") {
			want = append(want, k)
		}
	}
	got, err := v.Glob("*")
	if err != nil || !slices.Equal(sorted(got), sorted(want)) {
		return fmt.Errorf("glob is %q, %v, want %q", got, err, want)
	}
	if !deep {
		return nil
	}
	for _, d := range sortedKeys(kids) {
		if d == "." {
			continue
		}
		var inner []c01File
		for _, f := range list {
			if strings.HasPrefix(f.Key, d+"/") {
				f.Key = f.Key[len(d)+1:]
				inner = append(inner, f)
			}
		}
		sub, err := v.Sub(d)
		if err != nil {
			return fmt.Errorf("sub %q: %w", d, err)
		}
		if err = checkClash(c, sub.(fsAll), inner, false); err != nil {
			return fmt.Errorf("in sub %q: %w", d, err)
		}
	}
	return nil
}
