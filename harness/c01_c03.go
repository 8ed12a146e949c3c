package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

type c01File struct {
	Key  string
	Blob Blob
	Tags []Tag `json:",omitempty"`
	How  int   // 0: SetTagset, 1: SetupTagset
}

type c01Case struct {
	Mode  int
	Files []c01File
	Info  []Tag `json:",omitempty"`
}

func init() {
	reg("C01", "roundtrip",
		"case: layout (single with nil data writer, single with same writer, split), 0..14 files with unique valid names, content length classes 0, 1..24, 100..700 and +-2 around 512, 4K, 8K, 32K, 64K-64, 64K, 100000, 128K, up to 4 tags of 0..3000 bytes each, optional package info; packed, finalised, reopened from bytes and from disk through bulk, mmap and fsys. Non-trivial: at least 2 files and at least one extra tag or boundary size.",
		6000, 120000, genC01, runC01)
	reg("C02", "history",
		"case: layout and 1..5 sessions of 0..8 operations (put with tags, alias, rename, renamedir, delete, set/add/delete tag, info, flush when split), each later session appended through the same or a freshly opened object (with up to 3 edits of names and tags made before the append call), or begins another package by the same object; after each finalise the bytes are reopened and compared with the model (names in order, content, tags, info, header). Non-trivial: at least 2 sessions and an edit other than put.",
		10000, 200000, func(t *rapid.T) Hist {
			var g = &histGen{big: true, maxtag: 2, small: rapid.Bool().Draw(t, "small"),
				kinds: []string{"put", "put", "put", "put", "alias", "rename", "rename", "del", "settag", "addtag", "deltag", "info", "renamedir"}}
			var h = g.hist(t, 5, 8)
			for i := range h.Sess {
				if i > 0 && chance(t, "anew", 12) {
					h.Sess[i].Anew = true
					h.Sess[i].Drop = rapid.Bool().Draw(t, "drop")
					h.Sess[i].Info = genTags(t, 2)
				}
			}
			return h
		}, runC02)
	reg("C03", "crash",
		"case: a history as in C02 with small contents; every prefix of the sequence of write calls (plus the middle of every write longer than the header) is taken as crash point and the resulting files are opened. Non-trivial: at least one crash point lies in a session after a completed finalise or flush and changed content.",
		12000, 240000, func(t *rapid.T) Hist {
			var g = &histGen{maxtag: 2, small: true,
				kinds: []string{"put", "put", "put", "alias", "rename", "del", "settag", "settag", "deltag", "info"}}
			var h = Hist{Mode: pick(t, "mode", []int{2, 2, 2, 2, 0, 1})}
			return g.fill(t, h, 4, 5)
		}, runC03)
}

func genC01(t *rapid.T) c01Case {
	var c = c01Case{Mode: ri(t, "mode", 0, 2)}
	var keys []string
	if rapid.Bool().Draw(t, "clustered") {
		keys = genClusteredKeys(t, 0, 14)
	} else {
		keys = genKeys(t, 0, 14)
	}
	for i, k := range keys {
		if i < 2 && rare(t, "long", 20) {
			k = longName(t, k)
		}
		c.Files = append(c.Files, c01File{k, genBlob(t, true), genTags(t, 4), ri(t, "how", 0, 1)})
	}
	if chance(t, "info", 60) {
		c.Info = genTags(t, 4)
	}
	return c
}

func runC01(c *Ctx, cs c01Case) error {
	var r = newRig(cs.Mode, nil)
	if err := r.begin(); err != nil {
		return fmt.Errorf("begin: %w", err)
	}
	if len(cs.Info) > 0 {
		r.pkg.SetInfo(tagset(cs.Info))
		r.m.Info = cs.Info
	}
	var tagged, boundary bool
	for _, f := range cs.Files {
		var data = f.Blob.Bytes()
		ts, err := r.pkg.PackData(r.data(), blobReader(f.Blob), f.Key)
		if err != nil {
			return fmt.Errorf("packing of %q: %w", f.Key, err)
		}
		for _, tag := range f.Tags {
			ts = ts.Put(tag.ID, tag.Val)
		}
		if f.How == 0 {
			r.pkg.SetTagset(f.Key, ts)
		} else {
			r.pkg.SetupTagset(ts)
		}
		r.m.put(f.Key, data, f.Tags)
		tagged = tagged || len(f.Tags) > 0
		boundary = boundary || len(data) == 0 || len(data) >= 500
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("finalise: %w", err)
	}
	c.Label("mode %d", cs.Mode)
	c.Label("files %d", len(cs.Files)/5*5)
	if boundary {
		c.Label("boundary size")
	}
	if len(cs.Files) >= 2 && (tagged || boundary) {
		c.NonTrivial()
	}
	var wpt, wpf = r.wpt.Bytes(), r.wpf.Bytes()
	if err := checkImage(r.m, r.split(), wpt, wpf); err != nil {
		return err
	}
	if err := checkHeader(r.m, r.split(), wpt); err != nil {
		return err
	}
	var pp, dp = saveImage(c.Dir(), "p", r.split(), wpt, wpf)
	for _, mode := range tgrModes {
		pkg, err := openDisk(pp, dp, mode)
		if err != nil {
			return fmt.Errorf("%s: opening: %w", mode, err)
		}
		err = checkPkg(pkg, r.m)
		if err1 := pkg.Close(); err == nil && err1 != nil {
			err = fmt.Errorf("closing: %w", err1)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", mode, err)
		}
	}
	return nil
}

func runC02(c *Ctx, h Hist) error {
	var r = newRig(h.Mode, nil)
	var edits, appended int
	for i, s := range h.Sess {
		if i == 0 {
			if err := r.begin(); err != nil {
				return fmt.Errorf("begin: %w", err)
			}
		} else if s.Anew {
			// another package, nothing of previous one passes to it
			var n = newRig(h.Mode, nil)
			n.pkg = r.pkg
			r = n
			r.pkg.SetInfo(tagset(s.Info))
			r.m.Info = s.Info
			if err := r.begin(); err != nil {
				return fmt.Errorf("session %d: begin: %w", i, err)
			}
			c.Label("begun anew")
		} else {
			if s.Reopen {
				if err := r.reopen(); err != nil {
					return fmt.Errorf("session %d: %w", i, err)
				}
			}
			if err := r.before(s); err != nil {
				return fmt.Errorf("session %d: %w", i, err)
			}
			if len(s.Pre) > 0 {
				c.Label("edited before append")
			}
			if err := r.append(); err != nil {
				return fmt.Errorf("session %d: append: %w", i, err)
			}
		}
		for j, op := range s.Ops {
			if err := r.do(op); err != nil {
				return fmt.Errorf("session %d operation %d: %w", i, j, err)
			}
			if op.K != "put" {
				edits++
				c.Label("op %s", op.K)
			} else if i > 0 {
				appended++
			}
		}
		if i+1 < len(h.Sess) && h.Sess[i+1].Anew && h.Sess[i+1].Drop {
			continue // never finalised
		}
		if err := r.sync(); err != nil {
			return fmt.Errorf("session %d: finalise: %w", i, err)
		}
		var wpt, wpf = r.wpt.Bytes(), r.wpf.Bytes()
		if err := checkImage(r.m, r.split(), wpt, wpf); err != nil {
			return fmt.Errorf("after session %d: %w", i, err)
		}
		if err := checkHeader(r.m, r.split(), wpt); err != nil {
			return fmt.Errorf("after session %d: %w", i, err)
		}
	}
	c.Label("mode %d", h.Mode)
	c.Label("sessions %d", len(h.Sess))
	if appended > 0 {
		c.Label("data appended")
	}
	if len(h.Sess) >= 2 && edits > 0 {
		c.NonTrivial()
	}
	return nil
}

func runC03(c *Ctx, h Hist) error {
	var r = newRig(h.Mode, nil)
	r.log.On = true
	type mark struct {
		from, to int    // range of log entries
		old, new *Model // state that could be visible
		sync     bool
		body     bool // single package: surely not ready
	}
	var marks []mark
	var last *Model // last completed
	var step = func(sync, body bool, f func() error) error {
		var from = len(r.log.Entries)
		if err := f(); err != nil {
			return err
		}
		var mk = mark{from: from, to: len(r.log.Entries), old: last, sync: sync, body: body}
		if sync {
			last = r.m.clone()
			mk.new = last
		}
		marks = append(marks, mk)
		return nil
	}
	for i, s := range h.Sess {
		if i == 0 {
			if err := step(false, false, r.begin); err != nil {
				return err
			}
		} else {
			if s.Reopen {
				if err := r.reopen(); err != nil {
					return err
				}
			}
			if err := r.before(s); err != nil {
				return err
			}
			if err := step(false, false, r.append); err != nil {
				return err
			}
		}
		for _, op := range s.Ops {
			if err := step(op.K == "flush", op.K != "flush", func() error { return r.do(op) }); err != nil {
				return err
			}
		}
		if err := step(true, false, r.sync); err != nil {
			return err
		}
	}

	var imgs [2][]byte
	var apply = func(e WEntry, n int) { imgs[e.File] = writeAt(imgs[e.File], e.Off, e.Data[:n]) }
	var points, changed int
	var check = func(at string, mk mark, done bool) error {
		points++
		var allowed []*Model
		var mustOpen bool
		switch {
		case mk.sync && done:
			allowed, mustOpen = []*Model{mk.new}, true
		case mk.sync:
			allowed = append(allowed, mk.new)
			if mk.old != nil {
				allowed = append(allowed, mk.old)
				mustOpen = r.split()
			} else if r.split() {
				allowed = append(allowed, &Model{})
			}
		default:
			if mk.old != nil {
				allowed = append(allowed, mk.old)
				mustOpen = r.split()
				if mk.body {
					changed++
				}
			} else if r.split() {
				allowed = append(allowed, &Model{})
			}
		}
		var pkg = wpk.NewPackage()
		var err = pkg.OpenStream(bytes.NewReader(imgs[0]))
		if err != nil {
			if mustOpen {
				return fmt.Errorf("crash %s: package is not accessible: %w", at, err)
			}
			if !r.split() && (mk.body || mk.sync) && !errors.Is(err, wpk.ErrSignPre) {
				return fmt.Errorf("crash %s: unfinished package is not reported as not ready: %w", at, err)
			}
			return nil
		}
		if !r.split() && mk.body {
			return fmt.Errorf("crash %s: unfinished single-file package is opened as ready", at)
		}
		var first error
		for _, m := range allowed {
			var e = checkImage(m, r.split(), imgs[0], imgs[1])
			if e == nil {
				return nil
			}
			if first == nil {
				first = e
			}
		}
		return fmt.Errorf("crash %s: package is opened with a content that was never finalised: %v", at, first)
	}
	for mi, mk := range marks {
		for i := mk.from; i < mk.to; i++ {
			var e = r.log.Entries[i]
			if len(e.Data) > wpk.HeaderSize {
				// torn write
				var saved = append([]byte{}, imgs[e.File]...)
				apply(e, len(e.Data)/2)
				if err := check(fmt.Sprintf("in the middle of write %d (step %d)", i, mi), mk, false); err != nil {
					return err
				}
				imgs[e.File] = saved
			}
			apply(e, len(e.Data))
			if err := check(fmt.Sprintf("after write %d (step %d)", i, mi), mk, i == mk.to-1); err != nil {
				return err
			}
		}
		if mk.from == mk.to { // nothing is written by this step
			if err := check(fmt.Sprintf("after step %d", mi), mk, true); err != nil {
				return err
			}
		}
	}
	c.Count("crash_points", points)
	c.Label("mode %d", h.Mode)
	c.Label("sessions %d", len(h.Sess))
	if changed > 0 {
		c.NonTrivial()
	}
	return nil
}
