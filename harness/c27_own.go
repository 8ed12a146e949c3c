package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Part `own` of C27: the source of packing is the file which the package is written to.

func init() {
	reg("C27", "own",
		"case: files are packed to a package on the disk, single or split; in between the data file of this package is given as a source, by its name, a hard link or a symbolic link. The call must fail, with nothing written (the data file keeps its size), no entry, and the other files are in the package as usual. Written size is limited, so an endless copying fails. Non-trivial: there are files before and after the call.",
		60, 1200, genOwn, runOwn)
}

type ownCase struct {
	Files []c01File
	At    int // files before the call
	Split bool
	Link  string
	Again bool // in the append session
}

func genOwn(t *rapid.T) (c ownCase) {
	c.Files = genTreeFiles(t, 0, 6)
	c.At = ri(t, "at", 0, len(c.Files))
	c.Split = rapid.Bool().Draw(t, "split")
	c.Link = pick(t, "link", []string{"", "hard", "sym"})
	c.Again = rapid.Bool().Draw(t, "again")
	return
}

func runOwn(c *Ctx, cs ownCase) (err error) {
	var dir = c.Dir()
	var wpt, wpf = filepath.Join(dir, "p.wpk"), ""
	if cs.Split {
		wpt, wpf = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
	}
	var f1, f2 *os.File
	if f1, err = os.Create(wpt); err != nil {
		infraf("%v", err)
	}
	defer f1.Close()
	var w, name = f1, wpt
	if cs.Split {
		if f2, err = os.Create(wpf); err != nil {
			infraf("%v", err)
		}
		defer f2.Close()
		w, name = f2, wpf
	}
	var pkg = wpk.NewPackage()
	if f2 == nil {
		err = pkg.Begin(f1, nil)
	} else {
		err = pkg.Begin(f1, f2)
	}
	if err != nil {
		return err
	}
	var end = func() error {
		if f2 == nil {
			return pkg.Sync(f1, nil)
		}
		return pkg.Sync(f1, f2)
	}
	var own = func() error {
		var src = name
		if cs.Link != "" {
			src = filepath.Join(dir, "link")
			os.Remove(src)
			if cs.Link == "hard" {
				must(os.Link(name, src))
			} else {
				must(os.Symlink(name, src))
			}
		}
		file, err := os.Open(src)
		must(err)
		defer file.Close()
		before, err := w.Stat()
		must(err)
		var old syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1 << 22, Max: old.Max}))
		ts, err := pkg.PackFile(w, file, "its own file")
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		if err == nil {
			return fmt.Errorf("package is put into itself with %d bytes", ts.Size())
		}
		after, serr := w.Stat()
		must(serr)
		if after.Size() != before.Size() {
			return fmt.Errorf("package is put into itself: its size was %d and becomes %d: %v", before.Size(), after.Size(), err)
		}
		if pkg.HasTagset("its own file") {
			return fmt.Errorf("there is an entry of refused file")
		}
		return nil
	}
	for i, f := range cs.Files {
		if i == cs.At {
			if err = own(); err != nil {
				return err
			}
		}
		if _, err = pkg.PackData(w, bytes.NewReader(f.Blob.Bytes()), f.Key); err != nil {
			return err
		}
	}
	if cs.At == len(cs.Files) {
		if err = own(); err != nil {
			return err
		}
	}
	if err = end(); err != nil {
		return err
	}
	if cs.Again {
		pkg = wpk.NewPackage()
		if err = pkg.OpenFile(wpt); err != nil {
			return err
		}
		if f2 == nil {
			err = pkg.Append(f1, nil)
		} else {
			err = pkg.Append(f1, f2)
		}
		if err != nil {
			return err
		}
		if err = own(); err != nil {
			return fmt.Errorf("in append session: %w", err)
		}
		if err = end(); err != nil {
			return err
		}
	}
	for _, mode := range tgrModes {
		p, err := openDisk(wpt, name, mode)
		if err != nil {
			return err
		}
		var n int
		p.Enum(func(string, wpk.TagsetRaw) bool { n++; return true })
		if n != len(cs.Files) {
			p.Close()
			return fmt.Errorf("%d files in package, want %d", n, len(cs.Files))
		}
		for _, f := range cs.Files {
			b, err := p.ReadFile(f.Key)
			if err != nil || !bytes.Equal(b, f.Blob.Bytes()) {
				p.Close()
				return fmt.Errorf("content of %q after the refused call is wrong: %v", f.Key, err)
			}
		}
		p.Close()
	}
	c.Label("split %v link %q", cs.Split, cs.Link)
	if cs.At > 0 && cs.At < len(cs.Files) {
		c.NonTrivial()
	}
	return nil
}
