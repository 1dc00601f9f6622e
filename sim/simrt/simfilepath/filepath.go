// Package simfilepath replaces the file system walking parts of path/filepath.
package simfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"simrt/simos"
)

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return fn(p, nil, err)
		}
		i, e := d.Info()
		return fn(p, i, e)
	})
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}
func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Glob(pattern string) ([]string, error) {
	dir, f := path.Split(pattern)
	es, err := simos.ReadDir(path.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range es {
		ok, err := path.Match(f, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, dir+e.Name())
		}
	}
	return out, nil
}
func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join(simos.Cwd, p), nil
}
func EvalSymlinks(p string) (string, error) { return path.Clean(p), nil }
