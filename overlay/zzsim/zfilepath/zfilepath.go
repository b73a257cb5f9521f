// Package zfilepath replaces the functions of path/filepath that touch the disk.
package zfilepath

import (
	"io/fs"
	"path"
	"path/filepath"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim/zos"
)

func Glob(p string) ([]string, error) { return zos.Glob(p) }

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	d, err := zos.Getwd()
	return filepath.Join(d, p), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := zos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	st, err := zos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(st), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := zos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}
