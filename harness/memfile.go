package main

import (
	"bytes"
	"errors"
	"io"
)

// WEntry is one write call.
type WEntry struct {
	File int
	Off  int64
	Data []byte
}

// WLog is common history of write calls of several files.
type WLog struct {
	Entries []WEntry
	On      bool
}

// ErrInjected is the failure injected by the harness.
var ErrInjected = errors.New("injected fault")

// Fault makes the operation with number At (counted over all files that share it) to fail.
// Kind: "write" fails without writing, "short" writes a part and fails, "seek" fails a seek.
// With Sticky all following operations of that kind fail too until it is cleared.
type Fault struct {
	Kind   string
	At     int
	Part   int // bytes written at short write
	Len    int // so many following operations of that kind fail too
	Sticky bool
	n      int
	hits   int
	Hit    bool
}

func (f *Fault) hit(kind string) bool {
	if f == nil || (f.Kind != kind && !(f.Kind == "short" && kind == "write")) {
		return false
	}
	f.n++
	if f.n >= f.At && (f.n <= f.At+f.Len || f.Sticky) {
		f.Hit = true
		f.hits++
		return true
	}
	return false
}

// MemFile is a file in memory.
type MemFile struct {
	id  int
	buf []byte
	pos int64
	log *WLog
	flt *Fault
}

func (m *MemFile) Write(p []byte) (n int, err error) {
	var full = p
	var fail = m.flt.hit("write")
	if fail {
		if m.flt.Kind != "short" {
			return 0, ErrInjected
		}
		var k = m.flt.Part
		if k >= len(p) {
			k = len(p) - 1
		}
		if k < 0 {
			k = 0
		}
		full = p[:k]
	}
	if m.log != nil && m.log.On && len(full) > 0 {
		m.log.Entries = append(m.log.Entries, WEntry{m.id, m.pos, append([]byte{}, full...)})
	}
	m.buf = writeAt(m.buf, m.pos, full)
	m.pos += int64(len(full))
	if fail {
		return len(full), ErrInjected
	}
	return len(p), nil
}

func writeAt(buf []byte, off int64, p []byte) []byte {
	if len(p) == 0 {
		return buf
	}
	if end := int(off) + len(p); end > len(buf) {
		if end > cap(buf) {
			var nb = make([]byte, end, end*2)
			copy(nb, buf)
			buf = nb
		} else {
			var old = len(buf)
			buf = buf[:end]
			clear(buf[old:])
		}
	}
	copy(buf[off:], p)
	return buf
}

func (m *MemFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if m.pos >= int64(len(m.buf)) {
		return 0, io.EOF
	}
	var n = copy(p, m.buf[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	if m.flt.hit("seek") {
		return 0, ErrInjected
	}
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.buf))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = off
	return off, nil
}

func (m *MemFile) Bytes() []byte { return append([]byte{}, m.buf...) }

// fragReader delivers bytes in pieces of given sizes (repeated), sometimes with EOF at the last piece.
type fragReader struct {
	b     []byte
	pos   int64
	sizes []int
	i     int
	eof   bool // give io.EOF together with last bytes
	zero  bool // give (0, nil) between the pieces
	z     bool
}

func (r *fragReader) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= int64(len(r.b)) {
		return 0, io.EOF
	}
	if r.zero {
		if r.z = !r.z; r.z {
			return 0, nil
		}
	}
	var k = len(p)
	if len(r.sizes) > 0 {
		if s := r.sizes[r.i%len(r.sizes)]; s > 0 && s < k {
			k = s
		}
		r.i++
	}
	n = copy(p[:k], r.b[r.pos:])
	r.pos += int64(n)
	if r.eof && r.pos == int64(len(r.b)) {
		err = io.EOF
	}
	return
}

func (r *fragReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(len(r.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

// blobReader gives the content of the blob by one of ways that readers are allowed to use,
// the way depends on the blob only.
func blobReader(b Blob) io.Reader {
	var data = b.Bytes()
	var r = &fragReader{b: data}
	switch (uint32(b.Len) + b.Seed) % 10 {
	case 0: // all at once with io.EOF
		r.eof = true
	case 1: // in pieces, the last with io.EOF
		r.eof, r.sizes = true, []int{700, 1, 9000}
	case 2: // nothing from time to time
		r.zero, r.sizes = true, []int{3000, 3}
	case 3:
		r.eof, r.zero, r.sizes = true, true, []int{1 << 14}
	case 4: // one byte
		if len(data) < 200 {
			r.sizes = []int{1}
		}
	default:
		return bytes.NewReader(data)
	}
	return struct{ io.Reader }{r}
}
