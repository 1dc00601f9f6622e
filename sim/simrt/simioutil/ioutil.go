// Package simioutil replaces io/ioutil.
package simioutil

import (
	"io"
	"io/fs"
	"simrt/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)                 { return simos.ReadFile(name) }
func ReadDir(name string) ([]fs.FileInfo, error)           { return simos.ReadDirInfo(name) }
func WriteFile(name string, b []byte, m fs.FileMode) error { return simos.WriteFile(name, b, m) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
