package main

import (
	"encoding/binary"
	"errors"
)

// Independent encoder and decoder of the documented package format.

var le = binary.LittleEndian

const (
	signReady = "Whirlwind 3.4 Package   "
	signBuild = "Whirlwind 3.4 Prebuild  "
)

// rawHeader is the header as the format defines it.
type rawHeader struct {
	Sign                                         string
	FttCount, FttOffset, FttSize, DatOff, DatLen uint64
}

func (h rawHeader) bytes() []byte {
	var b = make([]byte, 64)
	copy(b, h.Sign)
	for i, v := range []uint64{h.FttCount, h.FttOffset, h.FttSize, h.DatOff, h.DatLen} {
		le.PutUint64(b[24+8*i:], v)
	}
	return b
}

func parseRawHeader(b []byte) (h rawHeader, ok bool) {
	if len(b) < 64 {
		return
	}
	h.Sign = string(b[:24])
	for i, p := range []*uint64{&h.FttCount, &h.FttOffset, &h.FttSize, &h.DatOff, &h.DatLen} {
		*p = le.Uint64(b[24+8*i:])
	}
	return h, true
}

// encTags encodes tags one after another.
func encTags(tags []Tag) (b []byte) {
	for _, t := range tags {
		b = le.AppendUint16(b, t.ID)
		b = le.AppendUint16(b, uint16(len(t.Val)))
		b = append(b, t.Val...)
	}
	return
}

var errBroken = errors.New("broken tagset")

// decTags decodes a tagset.
func decTags(b []byte) (tags []Tag, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return tags, errBroken
		}
		var id, n = le.Uint16(b), int(le.Uint16(b[2:]))
		if len(b)-4 < n {
			return tags, errBroken
		}
		tags = append(tags, Tag{id, b[4 : 4+n]})
		b = b[4+n:]
	}
	return
}

// uintVal decodes variable width number.
func uintVal(b []byte) (uint64, bool) {
	switch len(b) {
	case 1:
		return uint64(b[0]), true
	case 2:
		return uint64(le.Uint16(b)), true
	case 4:
		return uint64(le.Uint32(b)), true
	case 8:
		return le.Uint64(b), true
	}
	return 0, false
}

// uintBytes encodes the number with shortest width.
func uintBytes(v uint64) []byte {
	switch {
	case v < 1<<8:
		return []byte{byte(v)}
	case v < 1<<16:
		return le.AppendUint16(nil, uint16(v))
	case v < 1<<32:
		return le.AppendUint32(nil, uint32(v))
	}
	return le.AppendUint64(nil, v)
}

// encTable encodes records of the tags table, first one is package info.
func encTable(recs [][]byte) (b []byte) {
	for _, r := range recs {
		b = le.AppendUint16(b, uint16(len(r)))
		b = append(b, r...)
	}
	return le.AppendUint16(b, 0)
}

// encPkg makes package of the files.
func encPkg(files []c01File, info []Tag, split bool) (wpt, wpf []byte) {
	var data []byte
	var base uint64
	if !split {
		base = 64
	}
	var recs = [][]byte{encTags(info)}
	for _, f := range files {
		var b = f.Blob.Bytes()
		var tags = []Tag{{1, uintBytes(base + uint64(len(data)))}, {2, uintBytes(uint64(len(b)))}, {3, []byte(f.Key)}}
		recs = append(recs, encTags(append(tags, f.Tags...)))
		data = append(data, b...)
	}
	var table = encTable(recs)
	var h = rawHeader{signReady, uint64(len(files)), 64, uint64(len(table)), base, uint64(len(data))}
	if split {
		return append(h.bytes(), table...), data
	}
	h.FttOffset += uint64(len(data))
	return append(append(h.bytes(), data...), table...), nil
}
