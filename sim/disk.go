package main

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"
)

// Simulated storage: what a client reads an APK from.

// Fault is one injected storage fault. At is the index of the reader operation
// it strikes (-1: any operation touching [Off,Off+Len)).
type Fault struct {
	Kind string `json:"kind"` // eio, partial, sticky, eof, seek, shrink, sector
	At   int    `json:"at"`
	Off  int64  `json:"off,omitempty"`
	Len  int64  `json:"len,omitempty"`
}

// ReadEnv describes how the storage delivers the bytes.
type ReadEnv struct {
	Seeker  bool    `json:"seeker,omitempty"` // no ReaderAt
	Init    int64   `json:"init,omitempty"`   // position of the reader when handed over
	Chunk   int     `json:"chunk,omitempty"`  // largest number of bytes one Read delivers
	Rand    uint64  `json:"rand,omitempty"`   // chunk sizes vary, from this seed
	Zero    int     `json:"zero,omitempty"`   // every Zero-th Read delivers nothing, without an error
	EOFWith bool    `json:"eofwith,omitempty"`
	Lat     int64   `json:"lat,omitempty"` // nanoseconds per operation
	Faults  []Fault `json:"faults,omitempty"`
	Trunc   int64   `json:"trunc,omitempty"` // the file ends here
}

var errIO = &fs.PathError{Op: "read", Path: "sim", Err: syscall.EIO}

type diskFile struct {
	s      *Sim
	data   []byte
	env    ReadEnv
	pos    int64
	ops    int
	reads  int
	rng    *Rng
	sticky bool
	size   int64
	fired  int
	hit    uint64
	closed int
	after  int // operations after close
}

func newDiskFile(s *Sim, data []byte, env ReadEnv) *diskFile {
	if env.Trunc > 0 && env.Trunc < int64(len(data)) {
		data = data[:env.Trunc]
	}
	d := &diskFile{s: s, data: data, env: env, pos: env.Init, size: int64(len(data))}
	if d.pos > d.size {
		d.pos = d.size
	}
	if env.Rand != 0 {
		d.rng = NewRng(env.Rand)
	}
	return d
}

// strike returns the fault hitting this operation, if any.
func (d *diskFile) strike(op string, off, n int64) (string, int64) {
	idx := d.ops
	d.ops++
	d.s.Ctr.Reads++
	d.s.nowNs += d.env.Lat
	d.s.point()
	if d.closed > 0 {
		d.after++
	}
	if d.sticky {
		return "eio", 0
	}
	for i := range d.env.Faults {
		f := &d.env.Faults[i]
		switch f.Kind {
		case "sector":
			if op != "seek" && off < f.Off+f.Len && off+n > f.Off {
				d.fired++
				d.s.fault("bad-sector")
				k := f.Off - off
				if k < 0 {
					k = 0
				}
				return "partial", k
			}
		case "shrink":
			if idx >= f.At && d.size > f.Off {
				d.fired++
				d.s.fault("file-shrinks")
				d.size = f.Off
			}
		case "stall": // the storage answers, but not before everybody else is done
			if idx >= f.At && d.hit&(1<<uint(i)) == 0 {
				d.hit |= 1 << uint(i)
				d.s.stall()
			}
		default:
			if idx < f.At || d.hit&(1<<uint(i)) != 0 {
				continue
			}
			if (f.Kind == "seek") != (op == "seek") {
				continue
			}
			d.hit |= 1 << uint(i)
			d.fired++
			d.s.fault(f.Kind)
			switch f.Kind {
			case "sticky":
				d.sticky = true
				return "eio", 0
			case "partial":
				return "partial", f.Len
			}
			return f.Kind, 0
		}
	}
	return "", 0
}

func (d *diskFile) fetch(b []byte, off int64) int {
	if off >= d.size {
		return 0
	}
	return copy(b, d.data[off:d.size])
}

func (d *diskFile) Read(b []byte) (int, error) {
	n, err := d.read(b)
	d.s.event("read", int64(len(b)), int64(n), errCode(err))
	return n, err
}

func errCode(err error) int64 {
	switch {
	case err == nil:
		return 0
	case err == io.EOF:
		return 1
	}
	return 2
}

func (d *diskFile) read(b []byte) (int, error) {
	f, k := d.strike("read", d.pos, int64(len(b)))
	switch f {
	case "eio":
		return 0, errIO
	case "eof":
		return 0, io.EOF
	case "partial":
		if k > int64(len(b)) {
			k = int64(len(b))
		}
		n := d.fetch(b[:k], d.pos)
		d.pos += int64(n)
		return n, errIO
	}
	if len(b) == 0 {
		return 0, nil
	}
	d.reads++
	if d.env.Zero > 0 && d.reads%d.env.Zero == 0 {
		d.s.Ctr.Faults["zero-read"]++
		return 0, nil
	}
	want := len(b)
	if c := d.env.Chunk; c > 0 {
		if d.rng != nil {
			c = 1 + d.rng.N(c)
		}
		if want > c {
			want = c
			d.s.Ctr.Faults["short-read"]++
		}
	}
	n := d.fetch(b[:want], d.pos)
	d.pos += int64(n)
	if n == 0 {
		return 0, io.EOF
	}
	if d.env.EOFWith && d.pos >= d.size {
		d.s.Ctr.Faults["data-with-eof"]++
		return n, io.EOF
	}
	return n, nil
}

func (d *diskFile) readAt(b []byte, off int64) (int, error) {
	n, err := d.readAt0(b, off)
	d.s.event("readat", off, int64(n), errCode(err))
	return n, err
}

func (d *diskFile) readAt0(b []byte, off int64) (int, error) {
	f, k := d.strike("readat", off, int64(len(b)))
	switch f {
	case "eio":
		return 0, errIO
	case "eof":
		return 0, io.EOF
	case "partial":
		if k > int64(len(b)) {
			k = int64(len(b))
		}
		return d.fetch(b[:k], off), errIO
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := d.fetch(b, off)
	if n < len(b) || d.env.EOFWith && off+int64(n) >= d.size && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

func (d *diskFile) Seek(off int64, whence int) (int64, error) {
	f, _ := d.strike("seek", 0, 0)
	if f == "seek" || f == "eio" {
		d.s.event("seek", off, int64(whence), 2)
		return 0, errIO
	}
	switch whence {
	case io.SeekCurrent:
		off += d.pos
	case io.SeekEnd:
		off += d.size
	}
	d.s.event("seek", off, int64(whence), 0)
	if off < 0 {
		return 0, errors.New("seek before start")
	}
	d.pos = off
	return off, nil
}

// fullReader also offers ReadAt.
type fullReader struct{ *diskFile }

func (f fullReader) ReadAt(b []byte, off int64) (int, error) { return f.readAt(b, off) }

func (d *diskFile) asReader() io.ReadSeeker {
	if d.env.Seeker {
		return d
	}
	return fullReader{d}
}

// ---- the path API: os.Open and the *os.File methods are routed here ----

type simFile struct {
	d      *diskFile
	name   string
	closed bool
}

type simDisk struct {
	files map[string]func(s *Sim) (*diskFile, error)
	open  map[*os.File]*simFile
}

var disk = &simDisk{files: map[string]func(*Sim) (*diskFile, error){}, open: map[*os.File]*simFile{}}

const simRoot = "/sim/"

func (k *simDisk) Open(name string, flag int, perm os.FileMode) (*os.File, error) {
	if theSim == nil || !strings.HasPrefix(name, simRoot) {
		return os.SimOpenFile(name, flag, perm)
	}
	mk := k.files[name]
	if mk == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	d, err := mk(theSim)
	if err != nil {
		theSim.event("open", 2, 0, 0)
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	f, err := os.SimOpenFile("/dev/null", os.O_RDONLY, 0)
	if err != nil {
		panic(err)
	}
	sf := &simFile{d: d, name: name}
	k.open[f] = sf
	theSim.handles[sf] = true
	theSim.event("open", 0, 0, 0)
	return f, nil
}

func (k *simDisk) get(f *os.File) *simFile { return k.open[f] }

func (k *simDisk) Read(f *os.File, b []byte) (int, error) {
	if sf := k.get(f); sf != nil {
		if sf.closed {
			return 0, os.ErrClosed
		}
		return sf.d.Read(b)
	}
	return f.SimRead(b)
}

func (k *simDisk) ReadAt(f *os.File, b []byte, off int64) (int, error) {
	if sf := k.get(f); sf != nil {
		if sf.closed {
			return 0, os.ErrClosed
		}
		return sf.d.readAt(b, off)
	}
	return f.SimReadAt(b, off)
}

func (k *simDisk) Seek(f *os.File, off int64, whence int) (int64, error) {
	if sf := k.get(f); sf != nil {
		if sf.closed {
			return 0, os.ErrClosed
		}
		return sf.d.Seek(off, whence)
	}
	return f.SimSeek(off, whence)
}

func (k *simDisk) Close(f *os.File) error {
	if sf := k.get(f); sf != nil {
		if sf.closed {
			return os.ErrClosed
		}
		sf.closed = true
		sf.d.closed++
		if theSim != nil {
			delete(theSim.handles, sf)
			theSim.event("close", 0, 0, 0)
		}
		return nil
	}
	return f.SimClose()
}

func (k *simDisk) Stat(f *os.File) (os.FileInfo, error) {
	if sf := k.get(f); sf != nil {
		if sf.closed {
			return nil, os.ErrClosed
		}
		return simInfo{sf.name, sf.d.size}, nil
	}
	return f.SimStat()
}

func (k *simDisk) StatPath(name string) (os.FileInfo, error, bool) {
	if theSim == nil || !strings.HasPrefix(name, simRoot) {
		return nil, nil, false
	}
	mk := k.files[name]
	if mk == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}, true
	}
	d, err := mk(theSim)
	if err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}, true
	}
	return simInfo{name, d.size}, nil, true
}

// reset forgets a finished run and releases the real handles behind it.
func (k *simDisk) reset() {
	for f := range k.open {
		f.SimClose()
	}
	k.open = map[*os.File]*simFile{}
	k.files = map[string]func(*Sim) (*diskFile, error){}
}

type simInfo struct {
	name string
	size int64
}

func (i simInfo) Name() string       { return i.name[len(simRoot):] }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() os.FileMode  { return 0644 }
func (i simInfo) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() interface{}   { return nil }
