package main

import (
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// runUtil runs one of the utilities.
func runUtil(name string, args ...string) (out string, err error) {
	return runUtilCmd(filepath.Join(binDir, name), "", false, args...)
}

var nobodyBin string

// runNobody runs the utility by an unprivileged user.
func runNobody(name, wd string, args ...string) (out string, err error) {
	if nobodyBin == "" {
		d, err := os.MkdirTemp(scratchRoot, "bin")
		must(err)
		must(os.Chmod(d, 0o755))
		for _, n := range []string{"pack", "extract"} {
			b, err := os.ReadFile(filepath.Join(binDir, n))
			must(err)
			must(os.WriteFile(filepath.Join(d, n), b, 0o755))
		}
		nobodyBin = d
	}
	return runUtilCmd(filepath.Join(nobodyBin, name), wd, true, args...)
}

func runUtilCmd(path, wd string, nobody bool, args ...string) (string, error) {
	var ctx, cancel = context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var cmd = exec.CommandContext(ctx, path, args...)
	cmd.Dir = wd
	if nobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		cmd.Env = []string{"PATH=/usr/bin:/bin", "TMPDIR=" + scratchRoot, "VQUP=..", "HOME=.."}
	}
	b, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return string(b), fmt.Errorf("%s got no end in 60 seconds", filepath.Base(path))
	}
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		must(err) // it was not started
	}
	return string(b), err
}

// succeeded reports whether the utility has announced success.
func succeeded(out string, err error) bool {
	return err == nil && strings.HasSuffix(strings.TrimSpace(out), "done.")
}

var (
	stampRe    = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)
	progressRe = regexp.MustCompile(`^(starts|source folder|source package:|destination (path|file|tags part|files part): |#\d+ |packed: |unpacked: |write tags table|done\.)`)
)

// reported reports whether the utility ended with a message about failure:
// something besides of the usual messages about progress.
func reported(out string, err error) bool {
	if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "SIG") {
		return false
	}
	if succeeded(out, err) || strings.TrimSpace(out) == "" {
		return false
	}
	if err != nil {
		return true
	}
	var stamped bool
	for _, l := range strings.Split(out, "\n") {
		if st := stampRe.FindString(l); st != "" {
			stamped = true
			if !progressRe.MatchString(l[len(st):]) {
				return true
			}
		}
	}
	return !stamped
}

// readTree returns contents of all files below the directory, and all directories.
func readTree(root string) (files map[string]string, dirs []string) {
	files = map[string]string{}
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		if d.IsDir() {
			dirs = append(dirs, rel)
			return nil
		}
		if d.Type() != 0 {
			files[rel] = "special " + d.Type().String()
			return nil
		}
		b, err := os.ReadFile(p)
		files[rel] = string(b)
		return err
	}))
	return
}

// writeTree makes files below the directory.
func writeTree(root string, files []TreeFile) map[string]string {
	var res = map[string]string{}
	must(os.MkdirAll(root, 0o755))
	for _, f := range files {
		var p = filepath.Join(root, f.Key)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		var b = append(append([]byte{}, f.Text...), f.Blob.Bytes()...)
		must(os.WriteFile(p, b, 0o644))
		if f.Sec != 0 {
			must(os.Chtimes(p, time.Unix(f.Sec, 0), time.Unix(f.Sec, f.Nano)))
		}
		res[filepath.ToSlash(filepath.Clean(f.Key))] = string(b)
	}
	return res
}

// TreeFile is a file of a generated tree.
type TreeFile struct {
	Key  string
	Text []byte `json:",omitempty"`
	Blob Blob
	Sec  int64 `json:",omitempty"`
	Nano int64 `json:",omitempty"`
}

func diffTrees(got, want map[string]string) error {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("file %q is absent", k)
		}
		if d := diffBytes([]byte(g), []byte(want[k])); d != "" {
			return fmt.Errorf("content of %q: %s", k, d)
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("unexpected file %q", k)
		}
	}
	return nil
}

// treeSnapshot describes everything below the root except of one directory.
func treeSnapshot(root, except string) map[string]string {
	var res = map[string]string{}
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p == except {
			return fs.SkipDir
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		var s = fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %d %x %d", fi.Size(), sha256.Sum256(b), fi.ModTime().UnixNano())
		}
		res[p] = s
		return nil
	}))
	return res
}

func diffSnapshots(a, b map[string]string) error {
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			return fmt.Errorf("%q was created", p)
		}
		if a[p] != b[p] {
			return fmt.Errorf("%q was changed: %s, now %s", p, a[p], b[p])
		}
	}
	for _, p := range sortedKeys(a) {
		if _, ok := b[p]; !ok {
			return fmt.Errorf("%q was deleted", p)
		}
	}
	return nil
}
