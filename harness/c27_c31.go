package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
	"pgregory.net/rapid"
)

// C27: input and output failures.

type c27Op struct {
	K    string
	A    string `json:",omitempty"`
	B    string `json:",omitempty"`
	Blob Blob   `json:",omitempty"`
	Frag []int  `json:",omitempty"` // pieces of the source
	At   int    `json:",omitempty"` // the source fails after so many bytes
	Tags []Tag  `json:",omitempty"`
}

type c27Sess struct {
	Reopen bool
	Ops    []c27Op
}

type c27Case struct {
	Mode  int
	Pre   []c01File // files of the package that is extended, if Ext
	Ext   bool
	Sess  []c27Sess
	Kind  string // of the output failure
	Part  int
	Len   int // how many following operations of that kind fail too
	Retry bool
	Open  bool // open the file again after failed finalising
}

func init() {
	reg("C27", "faults", "a write, seek or read failed during packing, appending or finalising", 4000, 80000, genC27, runC27)
	reg("C28", "times", "source with modification time other than zero", 8000, 160000, genC28, runC28)
	reg("C28", "extracted", "a file with original times is extracted with the option",
		600, 12000, genC28x, runC28x)
	reg("C29", "limit", "tagset or package information near or above the size limit", 2000, 40000, genC29, runC29)
	reg("C29", "single", "a tag or a name does not fit in its tagset",
		4000, 80000, genC29s, runC29s)
	reg("C30", "snapshots", "a reader opened before later packing is read after it", 4000, 80000, genC30, runC30)
	reg("C31", "aliasing", "returned or passed bytes are overwritten by the caller", 12000, 240000, genC31, runC31)
}

func genC27(t *rapid.T) (c c27Case) {
	c.Mode = ri(t, "mode", 0, 2)
	c.Ext = rapid.Bool().Draw(t, "ext")
	if c.Ext {
		c.Pre = genSmallFiles(t, 3)
	}
	var n = pick(t, "sessions", []int{1, 1, 2})
	for s := 0; s < n; s++ {
		var ses = c27Sess{Reopen: rapid.Bool().Draw(t, "reopen")}
		var k = pick(t, "ops", []int{1, 2, 3, 5})
		for i := 0; i < k; i++ {
			var kinds = []string{"put", "put", "put", "putfile", "badput", "badfile", "alias", "rename", "del", "info"}
			if c.Mode == modeSplit {
				kinds = append(kinds, "flush")
			}
			var op = c27Op{K: pick(t, "op", kinds)}
			switch op.K {
			case "put", "putfile", "badput", "badfile":
				op.A = genSmallKey(t)
				op.Blob = Blob{ri(t, "len", 0, 60), uint32(ri(t, "seed", 1, 1<<16))}
				op.Frag = rapid.SliceOfN(rapid.IntRange(5, 40), 0, 2).Draw(t, "frag")
				op.At = ri(t, "failat", 0, op.Blob.Len)
			case "alias", "rename":
				op.A, op.B = genSmallKey(t), genSmallKey(t)
			case "del":
				op.A = genSmallKey(t)
			case "info":
				op.Tags = genTags(t, 2)
			}
			ses.Ops = append(ses.Ops, op)
		}
		c.Sess = append(c.Sess, ses)
	}
	c.Kind = pick(t, "kind", []string{"write", "write", "short", "seek"})
	if c.Kind == "short" {
		c.Part = pick(t, "part", []int{1, 2, 3, 10, 24, 30, 63})
	}
	c.Len = pick(t, "series", []int{0, 0, 0, 1, 2, 4})
	c.Retry = rapid.Bool().Draw(t, "retry")
	c.Open = rapid.Bool().Draw(t, "open")
	return
}

// failReader fails after its content.
type failReader struct {
	io.Reader
}

func (r failReader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF {
		err = ErrInjected
	}
	return n, err
}

type badStat struct{ io.Reader }

func (f badStat) Stat() (fs.FileInfo, error) { return nil, ErrInjected }
func (f badStat) Close() error               { return nil }

func runC27(c *Ctx, cs c27Case) error {
	var total int
	for at := 1; ; at++ {
		var f = &Fault{Kind: cs.Kind, At: at, Part: cs.Part, Len: cs.Len}
		if err := runC27At(c, cs, f); err != nil {
			return fmt.Errorf("%s number %d fails: %w", cs.Kind, at, err)
		}
		if !f.Hit {
			break
		}
		total++
		c.NonTrivial()
		if at > 400 {
			infraf("too many operations")
		}
	}
	c.Count("injected faults", total)
	c.Label("fault %s", cs.Kind)
	return nil
}

func runC27At(c *Ctx, cs c27Case, flt *Fault) error {
	var r *Rig
	var err error
	if cs.Ext {
		var order []int
		for i := range cs.Pre {
			order = append(order, i)
		}
		r = newRig(cs.Mode, nil)
		r.wpt.buf, r.wpf.buf = rawPkg(cs.Pre, order, nil, cs.Mode == modeSplit)
		if err = r.reopen(); err != nil {
			return err
		}
		for _, f := range cs.Pre {
			r.m.put(f.Key, f.Blob.Bytes(), f.Tags)
		}
	} else {
		r = newRig(cs.Mode, nil)
	}
	r.wpt.flt, r.wpf.flt = flt, flt

	// call runs the operation; a failed output operation has to be reported by it.
	var call = func(what string, f func() error) (bool, error) {
		var before = flt.hits
		var err = f()
		var hit = flt.hits > before
		if hit && err == nil {
			return false, fmt.Errorf("%s reports success", what)
		}
		if !hit && err != nil {
			return false, fmt.Errorf("%s: %w", what, err)
		}
		return !hit, nil
	}
	// insist repeats the operation until the fault is gone.
	var insist = func(what string, f func() error) error {
		for i := 0; ; i++ {
			ok, err := call(what, f)
			if ok || err != nil {
				return err
			}
			if i > 50 {
				infraf("%s fails forever", what)
			}
		}
	}
	var put = func(op c27Op, again bool) error {
		var data = op.Blob.Bytes()
		var src io.Reader = &fragReader{b: data, sizes: op.Frag}
		var bad = !again && (op.K == "badput" || op.K == "badfile")
		if op.K == "put" && len(op.Frag) == 0 {
			src = bytes.NewReader(data)
		}
		if bad {
			src = failReader{&fragReader{b: data[:op.At], sizes: op.Frag, eof: op.At%2 == 1}}
		}
		var had = r.m.find(op.A) != nil
		var before = flt.hits
		var ts wpk.TagsetRaw
		var err error
		switch op.K {
		case "put", "badput":
			ts, err = r.pkg.PackData(r.data(), src, op.A)
		case "badfile":
			if bad && op.At%3 == 0 {
				ts, err = r.pkg.PackFile(r.data(), badStat{bytes.NewReader(data)}, op.A)
			} else {
				ts, err = r.pkg.PackFile(r.data(), memFSFile{src, memInfo{mtime: c16Time}}, op.A)
			}
		default:
			ts, err = r.pkg.PackFile(r.data(), memFSFile{src, memInfo{mtime: c16Time}}, op.A)
		}
		var hit = flt.hits > before
		var should = hit || bad || had
		if should && err == nil {
			return fmt.Errorf("packing of %q reports success", op.A)
		}
		if !should && err != nil {
			return fmt.Errorf("packing of %q: %w", op.A, err)
		}
		if had && !hit && !bad && !errors.Is(err, fs.ErrExist) {
			return fmt.Errorf("packing of existing %q: %w", op.A, err)
		}
		if err == nil {
			var tags []Tag
			if v, ok := ts.Get(wpk.TIDmtime); ok {
				tags = []Tag{{wpk.TIDmtime, bytes.Clone(v)}}
			}
			r.m.put(op.A, data, tags)
		} else if !had && r.pkg.HasTagset(op.A) {
			return fmt.Errorf("packing of %q failed (%v), but the file is present", op.A, err)
		}
		if bad {
			c.NonTrivial()
			c.Label("source failure")
		}
		return nil
	}
	var sync = func(ses int) error {
		for i := 0; ; i++ {
			ok, err := call("finalising", r.sync)
			if err != nil {
				return err
			}
			if ok {
				break
			}
			c.Label("failed finalising")
			if i > 50 {
				infraf("finalising fails forever")
			}
			// the failure changes nothing at the live package
			if err = r.compareLive(); err != nil {
				return fmt.Errorf("after failed finalising: %w", err)
			}
			if cs.Open {
				// files that are already finalised remain, or it is seen that the package is not ready
				if pkg := wpk.NewPackage(); pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())) == nil {
					pkg.Tagger = memTagger{r.data().Bytes()}
					var bad error
					pkg.Enum(func(key string, ts wpk.TagsetRaw) bool {
						_, bad = pkg.ReadFile(key)
						return bad == nil
					})
					if bad != nil {
						return fmt.Errorf("reading after failed finalising: %w", bad)
					}
				}
			}
			if !cs.Retry {
				// more files are packed before the next attempt
				if err = put(c27Op{K: "put", A: fmt.Sprintf("after-%d-%d", ses, i), Blob: Blob{33, uint32(i + 5)}}, false); err != nil {
					return fmt.Errorf("after failed finalising: %w", err)
				}
			}
		}
		if err := checkImage(r.m, r.split(), r.wpt.Bytes(), r.data().Bytes()); err != nil {
			return fmt.Errorf("after finalising: %w", err)
		}
		return nil
	}
	for i, ses := range cs.Sess {
		if i == 0 && !cs.Ext {
			if err = insist("begin", r.begin); err != nil {
				return err
			}
		} else {
			if i > 0 && ses.Reopen {
				if err = r.reopen(); err != nil {
					return err
				}
			}
			if err = insist("append", r.append); err != nil {
				return err
			}
		}
		for _, op := range ses.Ops {
			switch op.K {
			case "put", "putfile", "badput", "badfile":
				var hits, had = flt.hits, r.m.find(op.A) != nil
				if err = put(op, false); err != nil {
					return err
				}
				if !had && r.m.find(op.A) == nil && cs.Retry && (flt.hits > hits || strings.HasPrefix(op.K, "bad")) {
					if err = put(op, true); err != nil {
						return fmt.Errorf("second attempt: %w", err)
					}
				}
			case "flush":
				if err = sync(i); err != nil {
					return fmt.Errorf("flush: %w", err)
				}
			default:
				if err = r.do(Op{K: op.K, A: op.A, B: op.B, Tags: op.Tags}); err != nil {
					return err
				}
			}
		}
		if err = sync(i); err != nil {
			return err
		}
	}
	return nil
}

// compareLive compares names and tags of the live package with the model.
func (r *Rig) compareLive() error {
	var keys []string
	var bad error
	r.pkg.Enum(func(key string, ts wpk.TagsetRaw) bool {
		keys = append(keys, key)
		var e = r.m.find(key)
		if e == nil {
			bad = fmt.Errorf("unexpected file %q", key)
			return false
		}
		bad = checkTags(ts, e, key)
		return bad == nil
	})
	if bad != nil {
		return bad
	}
	if strings.Join(keys, "\x00") != strings.Join(r.m.keys(), "\x00") {
		return fmt.Errorf("files are %q, want %q", keys, r.m.keys())
	}
	return checkInfo(r.pkg.GetInfo(), r.m.Info)
}

// C28: times of files.

type c28Time struct {
	Sec  int64
	Nano int64
}

func (t c28Time) time() time.Time { return time.Unix(t.Sec, t.Nano).UTC() }

type c28File struct {
	Key  string
	Kind string // disk, map, pack, spec, plain
	T    [4]c28Time
	Has  [4]bool // for package source
	Len  int
	Wide bool
}

type c28Case struct {
	Mode  int
	Files []c28File
}

func genTime(t *rapid.T, wide bool) c28Time {
	var x c28Time
	switch c := ri(t, "timeclass", 0, 6); {
	case c <= 1:
		x.Sec = int64(ri(t, "sec", 1_000_000_000, 1_900_000_000))
	case c == 2:
		x.Sec = int64(ri(t, "sec", -2_000_000_000, 0))
	case c == 3:
		x.Sec = pick(t, "sec", []int64{0, -1, 1, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 32, 4102444800})
	case c == 4 && wide:
		x.Sec = int64(ri(t, "sec", -62135596800, 253402300799))
	default:
		x.Sec = int64(ri(t, "sec", 0, 4_000_000_000))
	}
	x.Nano = pick(t, "nano", []int64{0, 1, 999_999_999, 1_000_000, 123_456_789, 500_000_000, 999, 1_000})
	if rapid.Bool().Draw(t, "anynano") {
		x.Nano = int64(ri(t, "nanos", 0, 999_999_999))
	}
	return x
}

func genC28(t *rapid.T) (c c28Case) {
	c.Mode = ri(t, "mode", 0, 2)
	var n = ri(t, "files", 1, 5)
	for i := 0; i < n; i++ {
		var f = c28File{Key: fmt.Sprintf("f%d", i), Len: ri(t, "len", 0, 20), Kind: pick(t, "kind", []string{"disk", "map", "pack", "spec", "plain"})}
		if rapid.Bool().Draw(t, "deep") {
			f.Key = "img/" + f.Key
		}
		for j := range f.T {
			f.T[j] = genTime(t, f.Kind != "disk")
			f.Has[j] = rapid.Bool().Draw(t, "has")
		}
		c.Files = append(c.Files, f)
	}
	return
}

// specInfo is file info that implements times.Timespec by itself.
type specInfo struct {
	memInfo
	t   [4]time.Time
	has [4]bool
}

func (s specInfo) AccessTime() time.Time { return s.t[1] }
func (s specInfo) ChangeTime() time.Time { return s.t[2] }
func (s specInfo) BirthTime() time.Time  { return s.t[3] }
func (s specInfo) HasChangeTime() bool   { return s.has[2] }
func (s specInfo) HasBirthTime() bool    { return s.has[3] }

type specFile struct {
	io.Reader
	fi fs.FileInfo
}

func (f specFile) Stat() (fs.FileInfo, error) { return f.fi, nil }
func (f specFile) Close() error               { return nil }

var timeTIDs = [4]uint16{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime}

// source opens the file of given kind and says what times it has; nil means that it is not stated.
func (f c28File) source(c *Ctx, i int) (file fs.File, want [4]*time.Time) {
	var data = Blob{f.Len, uint32(i + 1)}.Bytes()
	var tm [4]time.Time
	for j := range tm {
		tm[j] = f.T[j].time()
	}
	var set = func(j int, x time.Time) { want[j] = &x }
	switch f.Kind {
	case "disk":
		var fpath = filepath.Join(c.Dir(), fmt.Sprintf("src%d", i))
		must(os.WriteFile(fpath, data, 0o644))
		must(os.Chtimes(fpath, tm[1], tm[0]))
		fi, err := os.Stat(fpath)
		must(err)
		set(0, fi.ModTime())
		if st, ok := fi.Sys().(*syscall.Stat_t); ok {
			set(1, time.Unix(st.Atim.Unix()))
			set(2, time.Unix(st.Ctim.Unix()))
		}
		file, err = os.Open(fpath)
		must(err)
	case "map":
		var mf = &fstest.MapFile{Data: data, ModTime: tm[0]}
		if f.Has[1] {
			mf.Sys = "something"
		}
		var err error
		file, err = fstest.MapFS{"x": mf}.Open("x")
		must(err)
		set(0, tm[0])
	case "pack":
		var tags = []Tag{{1, uintBytes(64)}, {2, uintBytes(uint64(f.Len))}, {3, []byte("x")}}
		for j, id := range timeTIDs {
			if f.Has[j] || j == 0 {
				var v = le.AppendUint64(nil, uint64(tm[j].Unix()))
				tags = append(tags, Tag{id, le.AppendUint32(v, uint32(tm[j].Nanosecond()))})
				if j != 1 || !tm[j].IsZero() { // zero access time is the same as absent
					set(j, tm[j])
				}
			}
		}
		var table = encTable([][]byte{nil, encTags(tags)})
		var img = append(rawHeader{signReady, 1, 64 + uint64(f.Len), uint64(len(table)), 64, uint64(f.Len)}.bytes(), data...)
		img = append(img, table...)
		var p = wpk.NewPackage()
		if err := p.OpenStream(bytes.NewReader(img)); err != nil {
			infraf("source package: %w", err)
		}
		p.Tagger = memTagger{img}
		var err error
		if file, err = p.Open("x"); err != nil {
			infraf("source package: %w", err)
		}
	case "spec":
		var fi = specInfo{memInfo{name: "x", size: int64(f.Len), mtime: tm[0]}, tm, f.Has}
		file = specFile{bytes.NewReader(data), fi}
		set(0, tm[0])
		if !tm[1].IsZero() {
			set(1, tm[1])
		}
		for j := 2; j < 4; j++ {
			if f.Has[j] {
				set(j, tm[j])
			}
		}
	default:
		var fi = memInfo{name: "x", size: int64(f.Len), mtime: tm[0]}
		if f.Has[2] {
			fi.sys = struct{ a int }{1}
		}
		file = memFSFile{bytes.NewReader(data), fi}
		set(0, tm[0])
	}
	return
}

func checkTimes(ts wpk.TagsetRaw, want [4]*time.Time) error {
	var got = [4]time.Time{ts.ModTime(), ts.AccessTime(), ts.ChangeTime(), ts.BirthTime()}
	for j, name := range []string{"modification", "access", "change", "birth"} {
		if want[j] == nil {
			continue
		}
		if !got[j].Equal(*want[j]) {
			return fmt.Errorf("%s time is %v, source has %v", name, got[j].UTC(), want[j].UTC())
		}
		if x, ok := ts.TagTime(timeTIDs[j]); !ok || !x.Equal(*want[j]) {
			return fmt.Errorf("%s time tag gives %v, %v, source has %v", name, x.UTC(), ok, want[j].UTC())
		}
	}
	if want[2] != nil && !ts.HasChangeTime() {
		return errors.New("there is no change time")
	}
	if want[3] != nil && !ts.HasBirthTime() {
		return errors.New("there is no birth time")
	}
	return nil
}

func runC28(c *Ctx, cs c28Case) error {
	var r = newRig(cs.Mode, nil)
	if err := r.begin(); err != nil {
		return err
	}
	var wants [][4]*time.Time
	for i, f := range cs.Files {
		file, want := f.source(c, i)
		ts, err := r.pkg.PackFile(r.data(), file, f.Key)
		file.Close()
		if err != nil {
			return fmt.Errorf("packing of %q from %s: %w", f.Key, f.Kind, err)
		}
		if err = checkTimes(ts, want); err != nil {
			return fmt.Errorf("packed %q from %s: %w", f.Key, f.Kind, err)
		}
		wants = append(wants, want)
		c.Label("source %s", f.Kind)
		if !want[0].IsZero() {
			c.NonTrivial()
		}
		if want[0].Unix() < 0 {
			c.Label("before 1970")
		}
		if want[0].Nanosecond() != 0 {
			c.Label("with nanoseconds")
		}
	}
	if err := r.sync(); err != nil {
		return err
	}
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())); err != nil {
		return err
	}
	pkg.Tagger = memTagger{r.data().Bytes()}
	for i, f := range cs.Files {
		ts, ok := pkg.GetTagset(f.Key)
		if !ok {
			return fmt.Errorf("%q is absent", f.Key)
		}
		if err := checkTimes(ts, wants[i]); err != nil {
			return fmt.Errorf("reopened %q from %s: %w", f.Key, f.Kind, err)
		}
		fi, err := pkg.Stat(f.Key)
		if err != nil {
			return err
		}
		if !fi.ModTime().Equal(*wants[i][0]) {
			return fmt.Errorf("stat of %q: modification time is %v, source has %v", f.Key, fi.ModTime(), *wants[i][0])
		}
		file, err := pkg.Open(f.Key)
		if err != nil {
			return err
		}
		fi, err = file.Stat()
		if err != nil {
			return err
		}
		if !fi.ModTime().Equal(*wants[i][0]) {
			return fmt.Errorf("stat of opened %q: modification time is %v, source has %v", f.Key, fi.ModTime(), *wants[i][0])
		}
		file.Close()
	}
	// the times survive repacking from this package to another
	var r2 = newRig(modeSingleNil, nil)
	if err := r2.begin(); err != nil {
		return err
	}
	for i, f := range cs.Files {
		file, err := pkg.Open(f.Key)
		if err != nil {
			return err
		}
		ts, err := r2.pkg.PackFile(r2.data(), file, f.Key)
		if err != nil {
			return fmt.Errorf("repacking of %q: %w", f.Key, err)
		}
		if err = checkTimes(ts, wants[i]); err != nil {
			return fmt.Errorf("repacked %q from %s: %w", f.Key, f.Kind, err)
		}
	}
	return nil
}

// extraction with original times

type c28x struct {
	Files []c28xFile
	Old   []int // indexes of files that exist in the destination before
	Split bool
	PM    string
	Plain bool // without the option
	Pack  bool // package is made by the utility
	MkDst bool
}

type c28xFile struct {
	Key   string
	Len   int
	M, A  c28Time
	Times bool
}

func genC28x(t *rapid.T) (c c28x) {
	var keys []string
	if rapid.Bool().Draw(t, "clustered") {
		keys = genClusteredKeys(t, 1, 8)
	} else {
		keys = genKeys(t, 1, 8)
	}
	for i, k := range keys {
		var f = c28xFile{Key: k, Len: pick(t, "len", []int{0, 1, 30, 5000, 70000}), M: genTime(t, false), A: genTime(t, false)}
		f.Times = chance(t, "times", 85)
		if f.M.time().IsZero() || f.A.time().IsZero() {
			f.Times = false
		}
		c.Files = append(c.Files, f)
		if chance(t, "old", 25) {
			c.Old = append(c.Old, i)
		}
	}
	c.Split = rapid.Bool().Draw(t, "split")
	c.PM = pick(t, "pm", tgrModes)
	c.Plain = chance(t, "plain", 15)
	c.Pack = chance(t, "bypack", 40)
	c.MkDst = chance(t, "mkdst", 30)
	return
}

func statTimes(p string) (m, a time.Time) {
	fi, err := os.Stat(p)
	must(err)
	return fi.ModTime(), time.Unix(fi.Sys().(*syscall.Stat_t).Atim.Unix())
}

func runC28x(c *Ctx, cs c28x) error {
	var dir = c.Dir()
	var out = filepath.Join(dir, "out")
	var blob = func(i int) []byte { return Blob{cs.Files[i].Len, uint32(i + 1)}.Bytes() }
	var pkgfile, datfile string
	if cs.Pack {
		var src = filepath.Join(dir, "src")
		for i, f := range cs.Files {
			var p = filepath.Join(src, f.Key)
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, blob(i), 0o644))
			if f.Times {
				must(os.Chtimes(p, f.A.time(), f.M.time()))
			}
		}
		pkgfile = filepath.Join(dir, "p.wpk")
		datfile = pkgfile
		var args = []string{"-src", src, "-dst", pkgfile}
		if cs.Split {
			pkgfile, datfile = filepath.Join(dir, "p.wpt"), filepath.Join(dir, "p.wpf")
			args = append(args, "-split")
		}
		if o, err := runUtil("pack", args...); !succeeded(o, err) {
			return fmt.Errorf("pack %q: %v\n%s", args, err, o)
		}
	} else {
		var files []c01File
		for i, f := range cs.Files {
			var cf = c01File{Key: f.Key, Blob: Blob{f.Len, uint32(i + 1)}}
			if f.Times {
				for _, x := range []struct {
					id uint16
					t  time.Time
				}{{wpk.TIDmtime, f.M.time()}, {wpk.TIDatime, f.A.time()}} {
					var v = le.AppendUint64(nil, uint64(x.t.Unix()))
					cf.Tags = append(cf.Tags, Tag{x.id, le.AppendUint32(v, uint32(x.t.Nanosecond()))})
				}
			}
			files = append(files, cf)
		}
		wpt, wpf := encPkg(files, nil, cs.Split)
		pkgfile, datfile = saveImage(dir, "p", cs.Split, wpt, wpf)
	}
	if !cs.MkDst {
		must(os.Mkdir(out, 0o755))
		for _, i := range cs.Old {
			var p = filepath.Join(out, cs.Files[i].Key)
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, Blob{20000, 99}.Bytes(), 0o644))
			must(os.Chtimes(p, time.Unix(1e9, 5), time.Unix(1e9, 5)))
		}
	}
	var args = []string{"-src", pkgfile, "-dst", out, "-pm", cs.PM}
	if !cs.Plain {
		args = append(args, "-ft")
	}
	if cs.MkDst {
		args = append(args, "-md")
	}
	var start = time.Now().Add(-5 * time.Second) // clock of the file system may be late
	if o, err := runUtil("extract", args...); !succeeded(o, err) {
		return fmt.Errorf("extract %q: %v\n%s", args, err, o)
	}
	pkg, err := openDisk(pkgfile, datfile, cs.PM)
	if err != nil {
		return err
	}
	defer pkg.Close()
	var ref = filepath.Join(dir, "reference")
	must(os.WriteFile(ref, nil, 0o644))
	var timed int
	for i, f := range cs.Files {
		var p = filepath.Join(out, f.Key)
		m, a := statTimes(p)
		got, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if d := diffBytes(got, blob(i)); d != "" {
			return fmt.Errorf("content of %q: %s", f.Key, d)
		}
		ts, ok := pkg.GetTagset(f.Key)
		if !ok {
			return fmt.Errorf("%q is absent", f.Key)
		}
		var at = ts.AccessTime()
		if !cs.Pack {
			at = f.A.time()
		} else if _, ok := ts.TagTime(wpk.TIDatime); !ok {
			return fmt.Errorf("%q is packed from disk without access time", f.Key)
		}
		switch {
		case cs.Plain:
			if m.Before(start) {
				return fmt.Errorf("%q is extracted without the option, its modification time is %v", f.Key, m)
			}
		case f.Times:
			must(os.Chtimes(ref, at, f.M.time()))
			wm, wa := statTimes(ref)
			if !m.Equal(wm) {
				return fmt.Errorf("extracted %q has modification time %v, original is %v (%v on this file system)", f.Key, m.UTC(), f.M.time().UTC(), wm.UTC())
			}
			if !a.Equal(wa) {
				return fmt.Errorf("extracted %q has access time %v, original is %v (%v on this file system)", f.Key, a.UTC(), at.UTC(), wa.UTC())
			}
			timed++
		}
	}
	c.Label("by pack %v, option %v", cs.Pack, !cs.Plain)
	if timed > 0 {
		c.NonTrivial()
	}
	return nil
}

// C29: limit of tagset size.

type c29Case struct {
	Mode   int
	Flush  bool // something is finalised before
	Sizes  []int
	Info   int // size of package information
	Chunks int
	Reduce string // del, set, file
}

func genC29(t *rapid.T) (c c29Case) {
	c.Mode = ri(t, "mode", 0, 2)
	c.Flush = rapid.Bool().Draw(t, "flush")
	var size = func(name string) int {
		switch pick(t, name, []int{0, 0, 1, 1, 2, 3}) {
		case 0:
			return 0
		case 1:
			return 65535 + ri(t, name+"-d", -3, 6)
		case 2:
			return pick(t, name+"-s", []int{65536, 65537, 65540, 65600, 70000, 131071, 131072, 131200, 65535, 65534})
		}
		return ri(t, name+"-n", 30, 200000)
	}
	var n = ri(t, "files", 1, 3)
	for i := 0; i < n; i++ {
		c.Sizes = append(c.Sizes, size("size"))
	}
	c.Info = size("info")
	c.Chunks = pick(t, "chunks", []int{1, 2, 5, 30})
	c.Reduce = pick(t, "reduce", []string{"del", "set", "file"})
	return
}

// grow adds tags until the tagset has exactly given size.
func grow(ts wpk.TagsetRaw, size, chunks int) (wpk.TagsetRaw, []Tag) {
	var tags []Tag
	var id uint16 = 1000
	for len(ts) < size {
		var k = size - len(ts) - 4
		if k < 0 {
			return ts, tags // can not have that size
		}
		var part = min(size/chunks+1, 60000)
		if k > part+4 {
			k = part
		}
		var v = Blob{k, uint32(id)}.Bytes()
		ts = ts.Put(id, v)
		tags = append(tags, Tag{id, v})
		id++
	}
	return ts, tags
}

func runC29(c *Ctx, cs c29Case) error {
	var r = newRig(cs.Mode, nil)
	if err := r.begin(); err != nil {
		return err
	}
	if err := r.do(Op{K: "put", A: "first", Blob: Blob{20, 3}, Tags: []Tag{{110, []byte("a")}}}); err != nil {
		return err
	}
	if cs.Flush {
		if err := r.sync(); err != nil {
			return err
		}
		if err := r.append(); err != nil {
			return err
		}
	}
	var before = r.m.clone()
	var over []string
	for i, size := range cs.Sizes {
		var key = fmt.Sprintf("file%d", i)
		if err := r.do(Op{K: "put", A: key, Blob: Blob{10 + i, uint32(i + 1)}}); err != nil {
			return err
		}
		ts, _ := r.pkg.GetTagset(key)
		ts, tags := grow(wpk.CopyTagset(ts), size, cs.Chunks)
		r.pkg.SetTagset(key, ts)
		var e = r.m.find(key)
		for _, t := range tags {
			e.Tags[t.ID] = t.Val
		}
		if len(ts) > 65535 {
			over = append(over, key)
		}
		if len(ts) > 65500 {
			c.NonTrivial()
		}
		switch {
		case len(ts) == 65535:
			c.Label("file tagset of maximum size")
		case len(ts) == 65536:
			c.Label("file tagset above the maximum by 1")
		case len(ts) > 65535:
			c.Label("file tagset above the maximum")
		}
	}
	var bigInfo bool
	if cs.Info > 0 {
		its, tags := grow(nil, cs.Info, cs.Chunks)
		r.pkg.SetInfo(its)
		r.m.Info = tags
		bigInfo = len(its) > 65535
		if len(its) > 65500 {
			c.NonTrivial()
			c.Label("information near or above the maximum")
		}
	}
	if len(over) > 0 || bigInfo {
		for n := 0; n < 2; n++ {
			var err = r.sync()
			if err == nil {
				return fmt.Errorf("finalising of oversized tagsets %q (info: %v) succeeds", over, bigInfo)
			}
			if !errors.Is(err, wpk.ErrRangeTSSize) {
				return fmt.Errorf("finalising of oversized tagsets fails by other error: %w", err)
			}
			// what is in the file does not pass for the new package
			var pkg = wpk.NewPackage()
			if pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())) == nil {
				var old = before
				if !cs.Flush {
					old = &Model{}
				}
				if err := checkImage(old, r.split(), r.wpt.Bytes(), r.data().Bytes()); err != nil {
					return fmt.Errorf("after refused finalising: %w", err)
				}
			}
			if err := r.compareLive(); err != nil {
				return fmt.Errorf("after refused finalising: %w", err)
			}
		}
		for _, key := range over {
			ts, _ := r.pkg.GetTagset(key)
			ts = wpk.CopyTagset(ts)
			var e = r.m.find(key)
			switch cs.Reduce {
			case "del":
				for id := range e.Tags {
					ts = ts.Del(id)
				}
				e.Tags = map[uint16][]byte{}
				r.pkg.SetTagset(key, ts)
			case "set":
				for id := range e.Tags {
					ts = ts.Set(id, []byte{1})
					e.Tags[id] = []byte{1}
				}
				r.pkg.SetTagset(key, ts)
			default:
				r.pkg.DelTagset(key)
				r.m.del(key)
			}
		}
		if bigInfo {
			r.pkg.SetInfo(tagset([]Tag{{110, []byte("x")}}))
			r.m.Info = []Tag{{110, []byte("x")}}
		}
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("finalising: %w", err)
	}
	if err := checkImage(r.m, r.split(), r.wpt.Bytes(), r.data().Bytes()); err != nil {
		return fmt.Errorf("after finalising: %w", err)
	}
	_, info, err := wpk.GetPackageInfo(bytes.NewReader(r.wpt.Bytes()))
	if err != nil {
		return err
	}
	return checkInfo(info, r.m.Info)
}

// tags and names that are longer than a single tag can be

type c29s struct {
	Mode  int
	Flush bool
	Kind  string // put, set, add, info, pack, rename, alias, renamedir
	Had   int    // size of the tag that is replaced, -1 if it was absent
	Len   int    // of the tag or the name
	More  []Tag  // other tags of the file
	Back  bool   // put the former tagset back, otherwise delete the entry
	After bool   // something is packed after it
}

func genC29s(t *rapid.T) (c c29s) {
	c.Mode = ri(t, "mode", 0, 2)
	c.Flush = rapid.Bool().Draw(t, "flush")
	c.Kind = pick(t, "kind", []string{"put", "set", "set", "add", "info", "pack", "rename", "alias", "renamedir"})
	c.Had = pick(t, "had", []int{-1, -1, 0, 1, 10, 400, ri(t, "hadlen", 0, 3000)})
	var base = c.Had
	switch pick(t, "lenclass", []int{0, 0, 1, 1, 2, 3}) {
	case 0: // equal modulo 65536
		c.Len = 65536*ri(t, "times", 1, 2) + max(base, 0)
	case 1:
		c.Len = 65535 + ri(t, "delta", -80, 30)
	case 2:
		c.Len = ri(t, "len", 65000, 140000)
	default:
		c.Len = pick(t, "len", []int{65536, 65537, 131072, 65535, 65500, 65400, 196608, 65537 + 20})
	}
	for _, tag := range genTags(t, 2) {
		if tag.ID != 2000 {
			c.More = append(c.More, tag)
		}
	}
	c.Back = rapid.Bool().Draw(t, "back")
	c.After = rapid.Bool().Draw(t, "after")
	return
}

func runC29s(c *Ctx, cs c29s) error {
	var r = newRig(cs.Mode, nil)
	if err := r.begin(); err != nil {
		return err
	}
	const tid = 2000
	var tags = append([]Tag{}, cs.More...)
	if cs.Had >= 0 {
		tags = append(tags, Tag{tid, Blob{cs.Had, 12}.Bytes()})
	}
	for _, op := range []Op{
		{K: "put", A: "first", Blob: Blob{20, 3}, Tags: []Tag{{110, []byte("a")}}},
		{K: "put", A: "dir/file", Blob: Blob{33, 4}, Tags: tags},
	} {
		if err := r.do(op); err != nil {
			return err
		}
	}
	var oldinfo []Tag
	if cs.Kind == "info" {
		oldinfo = tags
		r.pkg.SetInfo(tagset(tags))
		r.m.Info = tags
	}
	if cs.Flush {
		if err := r.sync(); err != nil {
			return err
		}
		if err := r.append(); err != nil {
			return err
		}
	}
	var before = r.m.clone()
	const key = "dir/file"
	ts, ok := r.pkg.GetTagset(key)
	if !ok {
		return fmt.Errorf("%q is absent", key)
	}
	var saved = append(wpk.TagsetRaw{}, ts...)
	var val = Blob{cs.Len, 77}.Bytes()
	var long = strings.Repeat("n", cs.Len)
	var size int         // of the tagset that is stored
	var bad = key        // entry with it
	var undo = func() {} // puts back what was
	var want = before.clone()
	switch cs.Kind {
	case "put", "set", "add":
		var n = wpk.CopyTagset(ts)
		switch {
		case cs.Kind == "put" && cs.Had < 0:
			n = n.Put(tid, val)
		case cs.Kind == "add" && cs.Had < 0:
			n = n.Add(tid, val)
		default:
			n = n.Set(tid, val)
		}
		r.pkg.SetTagset(key, n)
		size = len(saved) + 4 + len(val)
		if cs.Had >= 0 {
			size -= 4 + cs.Had
		}
		want.find(key).Tags[tid] = val
		undo = func() { r.pkg.SetTagset(key, saved) }
	case "info":
		var n = tagset(tags)
		var l []Tag
		size = len(n) + 4 + len(val)
		for _, t := range tags {
			if t.ID != tid {
				l = append(l, t)
			}
		}
		if cs.Had >= 0 {
			size -= 4 + cs.Had
			// place of the tag is kept
			l = append([]Tag{}, tags...)
			l[len(l)-1] = Tag{tid, val}
		} else {
			l = append(l, Tag{tid, val})
		}
		r.pkg.SetInfo(n.Set(tid, val))
		want.Info = l
		undo = func() { r.pkg.SetInfo(tagset(oldinfo)) }
	case "pack":
		if _, err := r.pkg.PackData(r.data(), bytes.NewReader([]byte("some data")), long); err != nil {
			return fmt.Errorf("packing with name of %d bytes: %w", cs.Len, err)
		}
		want.put(long, []byte("some data"), nil)
		bad = long
		undo = func() { r.pkg.DelTagset(long) }
	case "alias":
		if err := r.pkg.PutAlias(key, long); err != nil {
			return fmt.Errorf("alias with name of %d bytes: %w", cs.Len, err)
		}
		want.alias(key, long)
		bad = long
		undo = func() { r.pkg.DelTagset(long) }
	case "rename":
		if err := r.pkg.Rename(key, long); err != nil {
			return fmt.Errorf("renaming to name of %d bytes: %w", cs.Len, err)
		}
		want.rename(key, long)
		bad = long
		undo = func() { r.pkg.DelTagset(long); r.pkg.SetTagset(key, saved) }
	case "renamedir":
		n, err := r.pkg.RenameDir("dir", long, false)
		if err != nil || n != 1 {
			return fmt.Errorf("renaming of directory to name of %d bytes: %d, %w", cs.Len, n, err)
		}
		want.rename(key, long+"/file")
		bad = long + "/file"
		undo = func() { r.pkg.DelTagset(long + "/file"); r.pkg.SetTagset(key, saved) }
	}
	switch cs.Kind {
	case "pack":
		t, _ := r.pkg.GetTagset(bad)
		size = len(t)
	case "alias", "rename":
		size = len(saved) - len(key) + len(long)
	case "renamedir":
		size = len(saved) - len("dir") + len(long)
	}
	if cs.After {
		if _, err := r.pkg.PackData(r.data(), bytes.NewReader([]byte("the last")), "last"); err != nil {
			return err
		}
		before.put("last", []byte("the last"), nil)
		want.put("last", []byte("the last"), nil)
	}
	if size <= 65535 {
		c.Label("%s fits", cs.Kind)
		if err := r.sync(); err != nil {
			return fmt.Errorf("finalising of tagset with %d bytes (%s): %w", size, cs.Kind, err)
		}
		r.m = want
		return checkImage(r.m, r.split(), r.wpt.Bytes(), r.data().Bytes())
	}
	c.Label("%s is refused", cs.Kind)
	c.NonTrivial()
	for n := 0; n < 2; n++ {
		var err = r.sync()
		if err == nil {
			return fmt.Errorf("finalising of tagset with %d bytes (%s) succeeds", size, cs.Kind)
		}
		if !errors.Is(err, wpk.ErrRangeTSSize) {
			return fmt.Errorf("finalising of tagset with %d bytes (%s) fails by other error: %w", size, cs.Kind, err)
		}
	}
	if cs.Back || cs.Kind == "info" {
		undo()
	} else {
		r.pkg.DelTagset(bad)
		switch cs.Kind {
		case "put", "set", "add", "rename", "renamedir":
			before.del(key)
		}
	}
	if err := r.sync(); err != nil {
		return fmt.Errorf("finalising after the tags are reduced: %w", err)
	}
	// renaming and putting back moves the entry to the end, the order is of no importance here
	var pkg = wpk.NewPackage()
	pkg.Tagger = memTagger{r.data().Bytes()}
	if err := pkg.OpenStream(bytes.NewReader(r.wpt.Bytes())); err != nil {
		return fmt.Errorf("opening after the tags are reduced: %w", err)
	}
	var keys []string
	pkg.Enum(func(k string, _ wpk.TagsetRaw) bool { keys = append(keys, k); return true })
	if len(keys) != len(before.Ents) {
		return fmt.Errorf("there are %d files after the tags are reduced, want %d", len(keys), len(before.Ents))
	}
	for _, k := range keys {
		var e = before.find(k)
		if e == nil {
			return fmt.Errorf("unexpected file with name of %d bytes after the tags are reduced", len(k))
		}
		b, err := pkg.ReadFile(k)
		if err != nil {
			return err
		}
		if d := diffBytes(b, e.Data); d != "" {
			return fmt.Errorf("content of %q after the tags are reduced: %s", k, d)
		}
		ts, _ := pkg.GetTagset(k)
		for id, v := range e.Tags {
			if got, ok := ts.Get(id); !ok || !bytes.Equal(got, v) {
				return fmt.Errorf("tag %d of %q differs after the tags are reduced", id, k)
			}
		}
	}
	_, info, err := wpk.GetPackageInfo(bytes.NewReader(r.wpt.Bytes()))
	if err != nil {
		return err
	}
	return checkInfo(info, before.Info)
}

// C30: reading of split package while it is being extended.

type c30Step struct {
	Op   Op
	Read []string // access modes of readers that are opened after the operation
	Hold bool
}

type c30Sess struct {
	Reopen bool
	Steps  []c30Step
}

type c30Case struct {
	Same bool // package object goes on after finalising without opening
	Sess []c30Sess
}

func genC30(t *rapid.T) (c c30Case) {
	var g = &histGen{small: rapid.Bool().Draw(t, "small"), big: true, maxtag: 2, kinds: []string{"put", "put", "put", "alias", "rename", "del", "settag", "info", "flush", "flush", "renamedir"}}
	var n = ri(t, "sessions", 1, 3)
	for i := 0; i < n; i++ {
		var s = c30Sess{Reopen: rapid.Bool().Draw(t, "reopen")}
		var k = pick(t, "steps", []int{2, 4, 7, 12})
		for j := 0; j < k; j++ {
			var st = c30Step{Op: g.op(t)}
			if chance(t, "read", 45) {
				st.Read = append(st.Read, pick(t, "tagger", tgrModes))
				st.Hold = chance(t, "hold", 70)
			}
			s.Steps = append(s.Steps, st)
		}
		c.Sess = append(c.Sess, s)
	}
	return
}

type c30Reader struct {
	pkg   *wpk.Package
	m     *Model
	mode  string
	born  int
	files map[string]fs.File
}

func (rd *c30Reader) check() error {
	if err := checkPkg(rd.pkg, rd.m); err != nil {
		return err
	}
	for key, f := range rd.files {
		if _, err := f.(io.Seeker).Seek(0, io.SeekStart); err != nil {
			return fmt.Errorf("seek in opened %q: %w", key, err)
		}
		b, err := io.ReadAll(f)
		if err != nil {
			return fmt.Errorf("reading of opened %q: %w", key, err)
		}
		if d := diffBytes(b, rd.m.find(key).Data); d != "" {
			return fmt.Errorf("opened %q: %s", key, d)
		}
	}
	return nil
}

func runC30(c *Ctx, cs c30Case) error {
	var wptName, wpfName = filepath.Join(c.Dir(), "p.wpt"), filepath.Join(c.Dir(), "p.wpf")
	wpt, err := os.OpenFile(wptName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	must(err)
	defer wpt.Close()
	wpf, err := os.OpenFile(wpfName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	must(err)
	defer wpf.Close()

	var m = &Model{}
	var pkg = wpk.NewPackage()
	var flushed *Model
	var readers []*c30Reader
	defer func() {
		for _, rd := range readers {
			for _, f := range rd.files {
				f.Close()
			}
			rd.pkg.Tagger.Close()
		}
	}()
	var step, packs int
	var look = func(modes []string, hold bool) error {
		if flushed == nil {
			return nil
		}
		for _, mode := range modes {
			p, err := openDisk(wptName, wpfName, mode)
			if err != nil {
				return fmt.Errorf("opening by another reader (%s): %w", mode, err)
			}
			var rd = &c30Reader{pkg: p, m: flushed.clone(), mode: mode, born: packs, files: map[string]fs.File{}}
			if hold && len(readers) < 12 {
				readers = append(readers, rd)
				for i, k := range flushed.keys() {
					if i%2 == 0 {
						f, err := p.Open(k)
						if err != nil {
							return fmt.Errorf("another reader (%s) opens %q: %w", mode, k, err)
						}
						rd.files[k] = f
					}
				}
			}
			err = rd.check()
			if err == nil && p.IsSplitted() != true {
				err = errors.New("package is not splitted")
			}
			if !(hold && len(rd.files) > 0) {
				defer p.Tagger.Close()
			}
			if err != nil {
				return fmt.Errorf("another reader (%s): %w", mode, err)
			}
			c.Count("readers opened", 1)
		}
		return nil
	}
	var old = func() error {
		for _, rd := range readers {
			if err := rd.check(); err != nil {
				return fmt.Errorf("reader (%s) opened before: %w", rd.mode, err)
			}
			if rd.born < packs {
				c.NonTrivial()
				c.Count("checks of old readers after packing", 1)
			}
		}
		return nil
	}
	var rig = &Rig{mode: modeSplit, log: &WLog{}, m: m, pkg: pkg}
	for i, s := range cs.Sess {
		if i == 0 {
			if err = pkg.Begin(wpt, wpf); err != nil {
				return err
			}
		} else {
			if s.Reopen {
				pkg = wpk.NewPackage()
				if err = pkg.OpenFile(wptName); err != nil {
					return fmt.Errorf("session %d: %w", i, err)
				}
				rig.pkg = pkg
			}
			if err = pkg.Append(wpt, wpf); err != nil {
				return err
			}
			if err = look([]string{"fsys"}, false); err != nil {
				return fmt.Errorf("session %d, just begun: %w", i, err)
			}
		}
		for j, st := range s.Steps {
			step++
			switch st.Op.K {
			case "flush":
				if err = pkg.Sync(wpt, wpf); err != nil {
					return err
				}
				flushed = m.clone()
				c.Label("flush")
			case "put":
				var data = st.Op.Blob.Bytes()
				ts, err := pkg.PackData(wpf, blobReader(st.Op.Blob), st.Op.A)
				if m.put(st.Op.A, data, st.Op.Tags) {
					if err != nil {
						return err
					}
					packs++
					for _, t := range st.Op.Tags {
						ts = ts.Put(t.ID, t.Val)
					}
					pkg.SetTagset(st.Op.A, ts)
				} else if !errors.Is(err, fs.ErrExist) {
					return fmt.Errorf("packing of existing %q: %v", st.Op.A, err)
				}
			default:
				if err = rig.do(st.Op); err != nil {
					return err
				}
			}
			if err = look(st.Read, st.Hold); err != nil {
				return fmt.Errorf("session %d, after step %d (%s): %w", i, j, st.Op.K, err)
			}
			if len(st.Read) > 0 || st.Op.K == "flush" {
				if err = old(); err != nil {
					return fmt.Errorf("session %d, after step %d (%s): %w", i, j, st.Op.K, err)
				}
			}
		}
		if err = pkg.Sync(wpt, wpf); err != nil {
			return err
		}
		flushed = m.clone()
		if err = look(tgrModes[i%3:i%3+1], i == 0); err != nil {
			return fmt.Errorf("session %d, finalised: %w", i, err)
		}
		if err = old(); err != nil {
			return fmt.Errorf("session %d, finalised: %w", i, err)
		}
	}
	return nil
}

// C31: private data.

type c31Op struct {
	K string
	A int // file
	B int
	T Tag
}

type c31Case struct {
	Split  bool
	Disk   string // access mode, or empty for a package in memory
	Parsed bool
	Sub    bool
	Union  bool
	Files  []c01File
	Ops    []c31Op
}

func genC31(t *rapid.T) (c c31Case) {
	c.Split, c.Parsed = rapid.Bool().Draw(t, "split"), rapid.Bool().Draw(t, "parsed")
	c.Disk = pick(t, "disk", []string{"", "", "bulk", "mmap", "fsys"})
	c.Union = chance(t, "union", 30)
	c.Files = genSmallFiles(t, 4)
	c.Files = append(c.Files, c01File{Key: "img/last", Blob: Blob{ri(t, "len", 1, 5000), 9}, Tags: []Tag{{110, []byte("label")}, {300, []byte{1, 2, 3}}}})
	var kinds = []string{"read", "read", "tagcopy", "tagcopy", "putback", "valbuf"}
	if c.Disk == "" {
		kinds = append(kinds, "pack", "pack", "infobuf", "alias", "rename")
	}
	var n = pick(t, "ops", []int{1, 3, 6, 12})
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, c31Op{K: pick(t, "op", kinds), A: ri(t, "file", 0, 5), B: ri(t, "how", 0, 7), T: Tag{pick(t, "tid", []uint16{1000, 110, 300, 4, 0}), genVal(t, false)}})
	}
	return
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

func runC31(c *Ctx, cs c31Case) error {
	var order []int
	for i := range cs.Files {
		order = append(order, i)
	}
	r, err := rigOf(cs.Split, cs.Parsed || cs.Disk != "", cs.Files, order)
	if err != nil {
		return err
	}
	var pkg = r.pkg
	if cs.Disk != "" {
		wpt, wpf := rawPkg(cs.Files, order, nil, cs.Split)
		pkgpath, datpath := saveImage(c.Dir(), "p", cs.Split, wpt, wpf)
		if pkg, err = openDisk(pkgpath, datpath, cs.Disk); err != nil {
			return err
		}
		r.pkg = pkg
		c.Label("access %s", cs.Disk)
	} else {
		pkg.Tagger = liveTagger{r.data()}
		c.Label("access live")
	}
	var closed bool
	defer func() {
		if !closed {
			pkg.Tagger.Close()
		}
	}()
	var readFile = pkg.ReadFile
	if cs.Union {
		var u = &wpk.Union{List: []*wpk.Package{pkg}}
		readFile = u.ReadFile
		c.Label("through union")
	}
	type kept struct {
		b    []byte
		want []byte
		key  string
	}
	var slices []kept
	var whole = func(what string) error {
		if err := checkPkgUnordered(pkg, r.m); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		for _, s := range slices {
			if d := diffBytes(s.b, s.want); d != "" {
				return fmt.Errorf("%s: slice got before from %q: %s", what, s.key, d)
			}
		}
		return nil
	}
	var n = 0
	for i, op := range cs.Ops {
		var e = r.m.Ents[op.A%len(r.m.Ents)]
		var what = fmt.Sprintf("step %d, %s of %q", i, op.K, e.Key)
		switch op.K {
		case "read":
			b, err := readFile(e.Key)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if d := diffBytes(b, e.Data); d != "" {
				return fmt.Errorf("%s: %s", what, d)
			}
			if op.B < 5 {
				scribble(b)
				// spare capacity belongs to the caller as well
				scribble(b[len(b):cap(b)])
				if len(b) > 0 {
					c.NonTrivial()
				}
			}
			slices = append(slices, kept{b, bytes.Clone(b), e.Key})
		case "tagcopy", "putback":
			ts, ok := pkg.GetTagset(e.Key)
			if !ok {
				return fmt.Errorf("%s: is absent", what)
			}
			var cp = wpk.CopyTagset(ts)
			if d := diffBytes(cp, ts); d != "" {
				return fmt.Errorf("%s: copy differs: %s", what, d)
			}
			c.NonTrivial()
			if op.K == "tagcopy" {
				switch op.B {
				case 0:
					cp = cp.Put(op.T.ID, op.T.Val)
				case 1, 2:
					cp = cp.Set(op.T.ID, op.T.Val)
				case 3:
					cp = cp.Del(op.T.ID)
				case 4:
					cp = cp.Del(wpk.TIDpath)
				case 5:
					cp = cp.Set(wpk.TIDsize, wpk.UintTag(1)).Set(wpk.TIDoffset, wpk.UintTag(7))
				}
				scribble(cp[:cap(cp)])
				scribble(cp)
				break
			}
			var val = bytes.Clone(op.T.Val)
			switch op.B % 3 {
			case 0:
				cp = cp.Set(op.T.ID, val)
				e.Tags[op.T.ID] = op.T.Val
			case 1:
				cp = cp.Add(op.T.ID, val)
				if _, ok := e.Tags[op.T.ID]; !ok {
					e.Tags[op.T.ID] = op.T.Val
				}
			default:
				cp = cp.Del(op.T.ID)
				delete(e.Tags, op.T.ID)
			}
			if err := checkPkgTagsOnly(pkg, r.m, e.Key); err != nil {
				return fmt.Errorf("%s, not put back yet: %w", what, err)
			}
			pkg.SetTagset(e.Key, cp)
			scribble(val) // buffer of the tag value can be reused
		case "valbuf":
			// buffer of a tag value is reused
			ts, _ := pkg.GetTagset(e.Key)
			var val = bytes.Clone(op.T.Val)
			pkg.SetTagset(e.Key, wpk.CopyTagset(ts).Set(op.T.ID, val))
			e.Tags[op.T.ID] = op.T.Val
			scribble(val)
			c.NonTrivial()
		case "pack":
			n++
			var key = fmt.Sprintf("new%d", n)
			var data = Blob{op.B * 300, uint32(n)}.Bytes()
			var buf = bytes.Clone(data)
			var src io.Reader = bytes.NewReader(buf)
			if op.A%2 == 0 {
				src = bytes.NewBuffer(buf)
			}
			if _, err := pkg.PackData(r.data(), src, key); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			scribble(buf)
			r.m.put(key, data, nil)
			c.NonTrivial()
		case "infobuf":
			var val = bytes.Clone(op.T.Val)
			pkg.SetInfo(wpk.TagsetRaw{}.Put(op.T.ID, val))
			r.m.Info = []Tag{op.T}
			scribble(val)
			// editing of a copy of the information
			var cp = wpk.CopyTagset(pkg.GetInfo()).Set(op.T.ID, []byte("other")).Put(77, []byte{1})
			scribble(cp)
		case "alias", "rename":
			n++
			var key = fmt.Sprintf("img/new%d", n)
			if err := r.do(Op{K: op.K, A: e.Key, B: key}); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			// the tags of alias are its own
			ts, _ := pkg.GetTagset(key)
			pkg.SetTagset(key, wpk.CopyTagset(ts).Set(111, []byte("own")))
			r.m.find(key).Tags[111] = []byte("own")
		}
		c.Label("op %s", op.K)
		if err := whole(what); err != nil {
			return err
		}
	}
	if cs.Disk == "" {
		if err := r.sync(); err != nil {
			return err
		}
		if err := checkImageUnordered(r.m, r.split(), r.wpt.Bytes(), r.data().Bytes()); err != nil {
			return fmt.Errorf("finalised: %w", err)
		}
		return nil
	}
	for _, e := range r.m.Ents {
		b, err := readFile(e.Key)
		if err != nil {
			return err
		}
		slices = append(slices, kept{b, e.Data, e.Key})
	}
	closed = true
	if err := pkg.Tagger.Close(); err != nil {
		return fmt.Errorf("close: %w", err)
	}
	for _, s := range slices {
		if d := diffBytes(s.b, s.want); d != "" {
			return fmt.Errorf("after close: slice got before from %q: %s", s.key, d)
		}
		scribble(s.b)
	}
	c.Label("slices used after close")
	return nil
}

// checkPkgTagsOnly compares tagsets of the files other than given with the model.
func checkPkgTagsOnly(pkg *wpk.Package, m *Model, but string) (err error) {
	pkg.Enum(func(key string, ts wpk.TagsetRaw) bool {
		var e = m.find(key)
		if key == but || e == nil {
			return true
		}
		err = checkTags(ts, e, key)
		return err == nil
	})
	return
}

func checkImageUnordered(m *Model, split bool, wpt, data []byte) error {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(wpt)); err != nil {
		return err
	}
	pkg.Tagger = memTagger{data}
	return checkPkgUnordered(pkg, m)
}

var _ = util.ToSlash
