package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"hash/crc32"
)

// ZEntry is one archive member as the simulated build tool writes it.
type ZEntry struct {
	Name    string
	Data    []byte
	Deflate bool
	DD      bool // data descriptor
	Extra   int  // extra field bytes in the local header
	IsDir   bool
	CExtra  int // extra field bytes in the central directory
}

func le16(v int) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, uint16(v)); return b }
func le32(v uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, v)
	return b
}
func le64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

func deflateBytes(d []byte) []byte {
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, 6)
	w.Write(d)
	w.Close()
	return b.Bytes()
}

// zipSections writes the local entries and the central directory; base is the
// number of bytes in front of the archive (a prepended file).
func zipSections(entries []ZEntry, base int) (data, cd []byte) {
	var d, c bytes.Buffer
	for _, e := range entries {
		off := base + d.Len()
		comp := e.Data
		method := 0
		if e.Deflate {
			comp = deflateBytes(e.Data)
			method = 8
		}
		crc := crc32.ChecksumIEEE(e.Data)
		flags := 0
		if e.DD {
			flags |= 8
		}
		hcrc, hcs, hus := crc, uint32(len(comp)), uint32(len(e.Data))
		if e.DD {
			hcrc, hcs, hus = 0, 0, 0
		}
		extra := make([]byte, 0)
		if e.Extra >= 4 {
			extra = append(extra, le16(0xd935)...)
			extra = append(extra, le16(e.Extra-4)...)
			extra = append(extra, make([]byte, e.Extra-4)...)
		}
		d.Write(le32(0x04034b50))
		d.Write(le16(20))
		d.Write(le16(flags))
		d.Write(le16(method))
		d.Write(le16(0x6020))
		d.Write(le16(0x4a21))
		d.Write(le32(hcrc))
		d.Write(le32(hcs))
		d.Write(le32(hus))
		d.Write(le16(len(e.Name)))
		d.Write(le16(len(extra)))
		d.WriteString(e.Name)
		d.Write(extra)
		d.Write(comp)
		if e.DD {
			d.Write(le32(0x08074b50))
			d.Write(le32(crc))
			d.Write(le32(uint32(len(comp))))
			d.Write(le32(uint32(len(e.Data))))
		}
		c.Write(le32(0x02014b50))
		c.Write(le16(20))
		c.Write(le16(20))
		c.Write(le16(flags))
		c.Write(le16(method))
		c.Write(le16(0x6020))
		c.Write(le16(0x4a21))
		c.Write(le32(crc))
		c.Write(le32(uint32(len(comp))))
		c.Write(le32(uint32(len(e.Data))))
		cx := 0
		if e.CExtra >= 4 {
			cx = e.CExtra
		}
		c.Write(le16(len(e.Name)))
		c.Write(le16(cx))
		c.Write(le16(0))
		c.Write(le16(0))
		c.Write(le16(0))
		if e.IsDir {
			c.Write(le32(0x10))
		} else {
			c.Write(le32(0))
		}
		c.Write(le32(uint32(off)))
		c.WriteString(e.Name)
		if cx > 0 {
			c.Write(le16(0xd935))
			c.Write(le16(cx - 4))
			c.Write(filler(uint64(off)+1, cx-4))
		}
	}
	return d.Bytes(), c.Bytes()
}

func eocdRec(n int, cdSize, cdOff int, comment []byte) []byte {
	var b bytes.Buffer
	b.Write(le32(0x06054b50))
	b.Write(le16(0))
	b.Write(le16(0))
	b.Write(le16(n))
	b.Write(le16(n))
	b.Write(le32(uint32(cdSize)))
	b.Write(le32(uint32(cdOff)))
	b.Write(le16(len(comment)))
	b.Write(comment)
	return b.Bytes()
}
