// Package zembed replaces embed.FS in the rewritten sources.
package zembed

import (
	realembed "embed"
	"io/fs"
	"testing/fstest"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

// FS wraps an embedded file system with the simulator's fault layer.
type FS struct {
	real realembed.FS
	name string
}

// Wrap is called by the rewritten embed declarations.
func Wrap(name string, f realembed.FS) FS { return FS{real: f, name: name} }

func (f FS) Open(name string) (fs.File, error) {
	if b, on := zzsim.Replaced(f.name + "/" + name); on {
		m := fstest.MapFS{}
		if b != nil {
			m[name] = &fstest.MapFile{Data: b}
		}
		for _, x := range zzsim.ReplacedIn(f.name + "/" + name) {
			y, _ := zzsim.Replaced(f.name + "/" + name + "/" + x)
			m[name+"/"+x] = &fstest.MapFile{Data: y}
		}
		return m.Open(name)
	}
	file, err := f.real.Open(name)
	if err != nil {
		return nil, err
	}
	if err := zzsim.ReadFault(f.name + "/" + name); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	st, err := file.Stat()
	if err != nil || st.IsDir() {
		return file, err
	}
	data, err := f.real.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return &memFile{File: file, data: zzsim.Damage(f.name+"/"+name, data)}, nil
}

func (f FS) ReadDir(name string) ([]fs.DirEntry, error) {
	if _, on := zzsim.Replaced(""); on {
		m := fstest.MapFS{}
		for _, x := range zzsim.ReplacedIn(f.name + "/" + name) {
			m[x] = &fstest.MapFile{}
		}
		return m.ReadDir(".")
	}
	return f.real.ReadDir(name)
}

func (f FS) ReadFile(name string) ([]byte, error) {
	if b, on := zzsim.Replaced(f.name + "/" + name); on {
		if b == nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
		}
		return append([]byte{}, b...), nil
	}
	data, err := f.real.ReadFile(name)
	if err != nil {
		return nil, err
	}
	if err := zzsim.ReadFault(f.name + "/" + name); err != nil {
		return nil, &fs.PathError{Op: "read", Path: name, Err: err}
	}
	return zzsim.Damage(f.name+"/"+name, data), nil
}

type memFile struct {
	fs.File
	data []byte
	off  int
}

func (m *memFile) Read(p []byte) (int, error) {
	if m.off >= len(m.data) {
		return 0, eof
	}
	n := len(p)
	if zzsim.ShortReads() && n > 1 {
		n = 1 + zzsim.FaultN(n)
	}
	n = copy(p[:n], m.data[m.off:])
	m.off += n
	return n, nil
}
