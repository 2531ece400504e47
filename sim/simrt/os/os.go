// Package os is the simulated stand-in for the standard package: files live in
// a simulated file system provided by the harness.
package os

import (
	"errors"
	"io"
	std "os"
	"simrt"
	"syscall"
	"time"
)

// Handle is an open simulated file.
type Handle interface {
	Read(p []byte) (int, error)
	Readdirnames(n int) ([]string, error)
	Close() error
}

// SimOpen opens a simulated file; set by the harness.
var SimOpen func(name string) (Handle, error)

// File is the simulated os.File.
type File struct {
	name string
	h    Handle
}

var errNoFS = errors.New("simulated: no such file")

func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	simrt.YS()
	if SimOpen == nil {
		return nil, &PathError{Op: "open", Path: name, Err: errNoFS}
	}
	h, err := SimOpen(name)
	if err != nil {
		return nil, &PathError{Op: "open", Path: name, Err: err}
	}
	return &File{name: name, h: h}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) Read(p []byte) (int, error) {
	simrt.YS()
	if f == nil {
		return 0, std.ErrInvalid
	}
	n, err := f.h.Read(p)
	if err != nil && err != io.EOF {
		err = &PathError{Op: "read", Path: f.name, Err: err}
	}
	return n, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	simrt.YS()
	if f == nil {
		return nil, std.ErrInvalid
	}
	return f.h.Readdirnames(n)
}

// DirEntry of the simulated file system.
type simEntry struct{ name string }

func (e simEntry) Name() string            { return e.name }
func (e simEntry) IsDir() bool             { return false }
func (e simEntry) Type() FileMode          { return std.ModeSymlink }
func (e simEntry) Info() (FileInfo, error) { return nil, errNoFS }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	names, err := f.Readdirnames(n)
	var out []DirEntry
	for _, x := range names {
		out = append(out, simEntry{x})
	}
	return out, err
}

func (f *File) Close() error {
	simrt.YS()
	if f == nil {
		return std.ErrInvalid
	}
	return f.h.Close()
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []DirEntry
	for {
		es, err := f.ReadDir(64)
		out = append(out, es...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// Executable and Readlink name the simulated executable.
func Executable() (string, error) { return "/proc/self/exe", nil }

func Readlink(name string) (string, error) {
	if name == "/proc/self/exe" {
		return name, nil
	}
	return std.Readlink(name)
}

type simInfo struct {
	name string
	size int64
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() FileMode     { return 0444 }
func (i simInfo) ModTime() time.Time { return time.Time{} }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() any           { return nil }

func (f *File) Readdir(n int) ([]FileInfo, error) {
	names, err := f.Readdirnames(n)
	var out []FileInfo
	for _, x := range names {
		out = append(out, simInfo{name: x})
	}
	return out, err
}

// Stat reports size 0, as for the files of /proc.
func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, std.ErrInvalid
	}
	return simInfo{name: f.name}, nil
}

// plain hides the other methods of f from io.Copy.
type plain struct{ f *File }

func (p plain) Read(b []byte) (int, error) { return p.f.Read(b) }

func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, plain{f}) }

func (f *File) no(op string) error {
	simrt.YS()
	return &PathError{Op: op, Path: f.name, Err: errors.ErrUnsupported}
}

func (f *File) Fd() uintptr                             { return 3 }
func (f *File) ReadAt(p []byte, off int64) (int, error) { return 0, f.no("read") }
func (f *File) Seek(off int64, whence int) (int64, error) {
	return 0, f.no("seek")
}
func (f *File) ReadFrom(r io.Reader) (int64, error)      { return 0, f.no("write") }
func (f *File) Write(p []byte) (int, error)              { return 0, f.no("write") }
func (f *File) WriteAt(p []byte, off int64) (int, error) { return 0, f.no("write") }
func (f *File) WriteString(s string) (int, error)        { return 0, f.no("write") }
func (f *File) Sync() error                              { return f.no("sync") }
func (f *File) Truncate(n int64) error                   { return f.no("truncate") }
func (f *File) Chdir() error                             { return f.no("chdir") }
func (f *File) Chmod(m FileMode) error                   { return f.no("chmod") }
func (f *File) Chown(u, g int) error                     { return f.no("chown") }
func (f *File) SetDeadline(t time.Time) error            { return f.no("set deadline") }
func (f *File) SetReadDeadline(t time.Time) error        { return f.no("set deadline") }
func (f *File) SetWriteDeadline(t time.Time) error       { return f.no("set deadline") }
func (f *File) SyscallConn() (syscall.RawConn, error)    { return nil, f.no("syscall") }
