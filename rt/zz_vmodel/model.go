// Package zz_vmodel holds Go replacements for standard library functions whose bodies depend on
// the runtime (unsafe, assembly, system calls). They are interpreted by the symbolic executor in
// place of the originals.
package zz_vmodel

import (
	"io"
	"math/big"
	"errors"
	"io/fs"
	"os"
	"reflect"
	"sync"
	"syscall"
	"net/http"
)

func syncMapEntries(m *sync.Map) []any
func swap(s any, i, j int)
func event(what string)

func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	e := syncMapEntries(m)
	for i := 0; i+1 < len(e); i += 2 {
		if !f(e[i], e[i+1]) {
			return
		}
	}
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	isComparable := reflect.TypeOf(target).Comparable()
	return is(err, target, isComparable)
}

func is(err, target error, targetComparable bool) bool {
	for {
		if targetComparable && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if is(err, target, targetComparable) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	val := reflect.ValueOf(target)
	typ := val.Type()
	if typ.Kind() != reflect.Ptr || val.IsNil() {
		panic("errors: target must be a non-nil pointer")
	}
	return as(err, target, val, typ.Elem())
}

func as(err error, target any, targetVal reflect.Value, targetType reflect.Type) bool {
	for {
		if reflect.TypeOf(err).AssignableTo(targetType) {
			targetVal.Elem().Set(reflect.ValueOf(err))
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if as(err, target, targetVal, targetType) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// insertion sort is stable; sort.Slice only promises an unstable order, for which any sorted
// permutation is allowed (equal elements keep their order here).
func SortSlice(x any, less func(i, j int) bool) {
	n := reflect.ValueOf(x).Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	n := reflect.ValueOf(x).Len()
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

func ReflectSwapper(x any) func(i, j int) {
	return func(i, j int) { swap(x, i, j) }
}

// ---- the outside world: every access is an event and fails ----

func notExist(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT}
}

func OsReadFile(name string) ([]byte, error) {
	event("os.ReadFile")
	return nil, notExist("open", name)
}

func OsOpen(name string) (*os.File, error) {
	event("os.Open")
	return nil, notExist("open", name)
}

func OsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	event("os.OpenFile")
	return nil, notExist("open", name)
}

func OsStat(name string) (os.FileInfo, error) {
	event("os.Stat")
	return nil, notExist("stat", name)
}

func OsReadDir(name string) ([]os.DirEntry, error) {
	event("os.ReadDir")
	return nil, notExist("open", name)
}

func OsWriteFile(name string, data []byte, perm os.FileMode) error {
	event("os.WriteFile")
	return notExist("open", name)
}

type dirFS struct{ name string }

func (d dirFS) Open(name string) (fs.File, error) {
	event("os.DirFS.Open")
	return nil, notExist("open", name)
}

func OsDirFS(dir string) fs.FS { return dirFS{dir} }

var errNet = errors.New("network access")

func HttpGet(url string) (*http.Response, error) {
	event("http.Get")
	return nil, errNet
}

func HttpClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	event("http.Client.Do")
	return nil, errNet
}

func HttpClientGet(c *http.Client, url string) (*http.Response, error) {
	event("http.Client.Get")
	return nil, errNet
}

var randState int64 = 12345

// RandInt is an arbitrary but fixed stream: nothing checked here depends on the values drawn.
func RandInt(r io.Reader, max *big.Int) (*big.Int, error) {
	randState = (randState*1103515245 + 12345) & 0x7fffffff
	return big.NewInt((randState >> 8) % max.Int64()), nil
}
