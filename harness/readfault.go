package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"

	"github.com/schwarzlichtbezirk/wpk"
	"pgregory.net/rapid"
)

// Part `reading` of C27: failures of the data file while stored files are read.

type rfFault struct {
	Key  int    // file of the list
	Kind string // open, error, eof, or none
	At   int    // bytes given before the failure
	Step int    // size of portions
	With bool   // the failure comes together with the last portion
}

type rfCase struct {
	View   string
	Files  []c01File
	Faults []rfFault
}

func init() {
	reg("C27", "reading",
		"case: files of a package (directly, by subdirectory or union) are read while the data file fails to open, fails or ends after a generated number of bytes, or gives content in small portions. A failure must be returned with no content announced as complete; files without failure must be exact. Non-trivial: a failure fired before the end of a file.",
		3000, 60000, genReadFault, runReadFault)
}

func init() {
	reg("C27", "opening",
		"case: a package is opened and its information is read quickly from a stream whose k-th call (reading or seeking) fails, for every k, and from a stream that gives small portions. Each failure must be returned. Non-trivial: every case with at least three calls.",
		1500, 30000, genOpenFault, runOpenFault)
}

type ofCase struct {
	Files []c01File
	Info  []Tag
	Split bool
	Step  int
	Part  bool // the failing reading gives a half of its bytes
}

func genOpenFault(t *rapid.T) (c ofCase) {
	c.Files = genTreeFiles(t, 0, 6)
	for i := range c.Files {
		c.Files[i].Tags = nil
	}
	if rapid.Bool().Draw(t, "info") {
		c.Info = []Tag{{114, []byte("label")}, {300, make([]byte, ri(t, "infolen", 0, 300))}}
	}
	c.Split = rapid.Bool().Draw(t, "split")
	c.Step = pick(t, "step", []int{1, 3, 16, 1000})
	c.Part = rapid.Bool().Draw(t, "part")
	return
}

// faultStream fails at the call with given number.
type faultStream struct {
	r     *bytes.Reader
	step  int
	k, n  int
	part  bool
	fired string
}

func (s *faultStream) Read(b []byte) (int, error) {
	s.n++
	if len(b) > s.step {
		b = b[:s.step]
	}
	if s.n == s.k {
		s.fired = "read"
		if s.part {
			n, _ := s.r.Read(b[:len(b)/2])
			return n, errDevice
		}
		return 0, errDevice
	}
	return s.r.Read(b)
}

func (s *faultStream) Seek(off int64, whence int) (int64, error) {
	s.n++
	if s.n == s.k {
		s.fired = "seek"
		return 0, errDevice
	}
	return s.r.Seek(off, whence)
}

func runOpenFault(c *Ctx, cs ofCase) error {
	wpt, _ := encPkg(cs.Files, cs.Info, cs.Split)
	for what, open := range map[string]func(io.ReadSeeker) error{
		"opening": func(r io.ReadSeeker) error {
			var pkg = wpk.NewPackage()
			if err := pkg.OpenStream(r); err != nil {
				return err
			}
			var n int
			pkg.Enum(func(string, wpk.TagsetRaw) bool { n++; return true })
			if n != len(cs.Files) {
				return fmt.Errorf("%d entries, want %d", n, len(cs.Files))
			}
			return checkInfoTags(pkg.GetInfo(), cs.Info)
		},
		"information": func(r io.ReadSeeker) error {
			hdr, info, err := wpk.GetPackageInfo(r)
			if err != nil {
				return err
			}
			if hdr.Count() != len(cs.Files) {
				return fmt.Errorf("%d entries, want %d", hdr.Count(), len(cs.Files))
			}
			return checkInfoTags(info, cs.Info)
		},
	} {
		var s = &faultStream{r: bytes.NewReader(wpt), step: cs.Step}
		if err := open(s); err != nil {
			return fmt.Errorf("%s by portions of %d: %w", what, cs.Step, err)
		}
		var calls = s.n
		if calls >= 3 {
			c.NonTrivial()
		}
		for k := 1; k <= calls; k++ {
			if k > 20 && k < calls-20 {
				continue
			}
			s = &faultStream{r: bytes.NewReader(wpt), step: cs.Step, k: k, part: cs.Part}
			var err = open(s)
			if s.fired == "" {
				continue
			}
			c.Count("failures at "+s.fired, 1)
			if err == nil && cs.Part {
				continue // the given part was enough, content is right
			}
			if !errors.Is(err, errDevice) {
				return fmt.Errorf("%s: failure of call %d of %d (%s) gives %v", what, k, calls, s.fired, err)
			}
		}
	}
	return nil
}

func checkInfoTags(info wpk.TagsetRaw, want []Tag) error {
	if d := diffBytes(info, encTags(want)); d != "" {
		return fmt.Errorf("information: %s", d)
	}
	return nil
}

func genReadFault(t *rapid.T) (c rfCase) {
	c.View = pick(t, "view", []string{"package", "sub", "union", "union"})
	c.Files = genTreeFiles(t, 1, 6)
	for i := range c.Files {
		var f = rfFault{Key: i, Kind: pick(t, "kind", []string{"none", "none", "open", "error", "error", "eof"})}
		f.At = ri(t, "at", 0, c.Files[i].Blob.Len)
		f.Step = pick(t, "step", []int{1, 2, 7, 1000})
		f.With = rapid.Bool().Draw(t, "with")
		c.Faults = append(c.Faults, f)
	}
	return
}

var errDevice = errors.New("device failure")

// faultTagger gives files that fail as the plan says.
type faultTagger struct {
	memTagger
	plan  map[string]rfFault
	fired *int
}

func (t faultTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	var f = t.plan[ts.Path()]
	if f.Kind == "open" {
		*t.fired++
		return nil, errDevice
	}
	r, err := t.memTagger.OpenTagset(ts)
	if err != nil {
		return nil, err
	}
	return &faultFile{RFile: r, f: f, fired: t.fired}, nil
}

type faultFile struct {
	wpk.RFile
	f     rfFault
	n     int
	fired *int
}

func (f *faultFile) fail() error {
	switch f.f.Kind {
	case "error":
		*f.fired++
		return errDevice
	case "eof":
		*f.fired++
		return io.EOF
	}
	return nil
}

func (f *faultFile) Read(b []byte) (n int, err error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) > f.f.Step {
		b = b[:f.f.Step]
	}
	if f.f.Kind != "none" {
		if f.n >= f.f.At {
			return 0, f.fail()
		}
		if len(b) > f.f.At-f.n {
			b = b[:f.f.At-f.n]
		}
	}
	n, err = f.RFile.Read(b)
	f.n += n
	if err == nil && f.f.With && f.f.Kind != "none" && f.n >= f.f.At {
		err = f.fail()
	}
	return
}

// ReadAt obeys the plan with the offset as the place.
func (f *faultFile) ReadAt(b []byte, off int64) (n int, err error) {
	if f.f.Kind != "none" && off+int64(len(b)) > int64(f.f.At) {
		var k = max(0, int64(f.f.At)-off)
		n, err = f.RFile.ReadAt(b[:k], off)
		if err == nil {
			err = f.fail()
		}
		return
	}
	return f.RFile.ReadAt(b, off)
}

func runReadFault(c *Ctx, cs rfCase) error {
	var pre = ""
	if cs.View == "sub" {
		pre = "w s"
	}
	var files []c01File
	var fired int
	var tgr = faultTagger{plan: map[string]rfFault{}, fired: &fired}
	for i, f := range cs.Files {
		f.Key = path.Join(pre, f.Key)
		files = append(files, f)
		tgr.plan[f.Key] = cs.Faults[i]
	}
	wpt, _ := encPkg(files, nil, false)
	tgr.b = wpt
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
		return err
	}
	pkg.Tagger = tgr
	var v fsAll = pkg
	switch cs.View {
	case "sub":
		s, err := pkg.Sub(pre)
		if err != nil {
			return err
		}
		v = s.(fsAll)
	case "union":
		v = &wpk.Union{List: []*wpk.Package{pkg}}
	}
	for i, f := range cs.Files {
		var p = cs.Faults[i]
		var data = f.Blob.Bytes()
		for _, how := range []string{"ReadFile", "Open"} {
			fired = 0
			var b []byte
			var err error
			if how == "ReadFile" {
				b, err = v.ReadFile(f.Key)
			} else {
				var h fs.File
				if h, err = v.Open(f.Key); err == nil {
					b, err = io.ReadAll(h)
					h.Close()
				}
			}
			var at = fmt.Sprintf("%s of %q with %d bytes, %s after %d by %d", how, f.Key, len(data), p.Kind, p.At, p.Step)
			var broken = p.Kind == "open" || p.Kind != "none" && p.At < len(data)
			if broken && how == "Open" && p.Kind == "eof" {
				continue // the caller gets what the file gives
			}
			if broken {
				if fired > 0 {
					c.NonTrivial()
					c.Label("%s %s", how, p.Kind)
				}
				if err == nil {
					return fmt.Errorf("%s: %d bytes and no error", at, len(b))
				}
				if p.Kind != "eof" && !errors.Is(err, errDevice) {
					return fmt.Errorf("%s: error is %v, want the failure itself", at, err)
				}
				continue
			}
			if p.Kind == "error" {
				continue // failure after the last byte can be seen or not
			}
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			if d := diffBytes(b, data); d != "" {
				return fmt.Errorf("%s: %s", at, d)
			}
		}
	}
	return nil
}
