// Package filepath is path/filepath as it is on Windows: the lexical functions
// work with backslashes, and slashes are understood. It lets a build for this
// machine see file names as a build for Windows would.
package filepath

import (
	"errors"
	"io/fs"
	"path"
	real "path/filepath"
	"strings"
)

const (
	Separator     = '\\'
	ListSeparator = ';'
)

var (
	ErrBadPattern = real.ErrBadPattern
	SkipDir       = real.SkipDir
	SkipAll       = real.SkipAll
)

type WalkFunc = real.WalkFunc

func FromSlash(p string) string { return strings.ReplaceAll(p, "/", `\`) }
func ToSlash(p string) string   { return strings.ReplaceAll(p, `\`, "/") }

// VolumeName is a drive letter, or \\host\share.
func VolumeName(p string) string {
	s := ToSlash(p)
	if len(s) >= 2 && s[1] == ':' && ('a' <= s[0]|0x20 && s[0]|0x20 <= 'z') {
		return p[:2]
	}
	if len(s) > 2 && s[0] == '/' && s[1] == '/' && s[2] != '/' {
		n := 0
		for i := 2; i < len(s); i++ {
			if s[i] == '/' {
				if n++; n == 2 {
					return p[:i]
				}
			}
		}
		return p
	}
	return ""
}

func Clean(p string) string {
	v := VolumeName(p)
	rest := ToSlash(p[len(v):])
	if rest == "" {
		if len(v) > 1 && v[1] != ':' {
			return FromSlash(v)
		}
		return v + "."
	}
	return FromSlash(v) + FromSlash(path.Clean(rest))
}

func Join(elem ...string) string {
	var parts []string
	for _, e := range elem {
		if e != "" {
			parts = append(parts, e)
		}
	}
	if len(parts) == 0 {
		return ""
	}
	s := parts[0]
	for _, e := range parts[1:] {
		switch c := s[len(s)-1]; {
		case c == '/' || c == '\\':
			// no double slash, which would be a host
			s += strings.TrimLeft(e, `/\`)
		case c == ':':
			s += e
		default:
			s += `\` + e
		}
	}
	return Clean(s)
}

func Split(p string) (dir, file string) {
	i := strings.LastIndexAny(p, `/\`)
	if v := len(VolumeName(p)); i < v {
		i = v - 1
	}
	return p[:i+1], p[i+1:]
}

func Base(p string) string {
	if p == "" {
		return "."
	}
	p = strings.TrimRight(p[len(VolumeName(p)):], `/\`)
	if p == "" {
		return `\`
	}
	return p[strings.LastIndexAny(p, `/\`)+1:]
}

func Dir(p string) string {
	v := VolumeName(p)
	d, _ := Split(p)
	return v + Clean(d[len(v):])
}

func Ext(p string) string {
	_, f := Split(p)
	if i := strings.LastIndexByte(f, '.'); i >= 0 {
		return f[i:]
	}
	return ""
}

func IsAbs(p string) bool {
	v := VolumeName(p)
	return v != "" && (len(v) > 2 || len(p) > 2 && (p[2] == '\\' || p[2] == '/'))
}

func IsLocal(p string) bool {
	s := path.Clean(ToSlash(p))
	return p != "" && s != ".." && !strings.HasPrefix(s, "../") && !strings.HasPrefix(s, "/") && !strings.Contains(p, ":")
}

func Localize(p string) (string, error) {
	if !fs.ValidPath(p) || strings.ContainsAny(p, `\:`) {
		return "", errors.New("invalid path")
	}
	return FromSlash(p), nil
}

func SplitList(p string) []string {
	if p == "" {
		return []string{}
	}
	return strings.Split(p, ";")
}

func Match(pattern, name string) (bool, error) {
	return path.Match(ToSlash(pattern), ToSlash(name))
}

func HasPrefix(p, prefix string) bool {
	return strings.HasPrefix(strings.ToLower(p), strings.ToLower(prefix))
}

// What looks at the files of this machine: Windows would find them by either
// kind of slash.

func under(p string) string { return ToSlash(p) }

func each(ps []string, err error) ([]string, error) {
	for i := range ps {
		ps[i] = FromSlash(ps[i])
	}
	return ps, err
}

func one(p string, err error) (string, error) { return FromSlash(p), err }

func Abs(p string) (string, error)            { return one(real.Abs(under(p))) }
func EvalSymlinks(p string) (string, error)   { return one(real.EvalSymlinks(under(p))) }
func Rel(base, target string) (string, error) { return one(real.Rel(under(base), under(target))) }
func Glob(pattern string) ([]string, error)   { return each(real.Glob(under(pattern))) }
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return real.WalkDir(under(root), func(p string, d fs.DirEntry, err error) error { return fn(FromSlash(p), d, err) })
}
func Walk(root string, fn WalkFunc) error {
	return real.Walk(under(root), func(p string, i fs.FileInfo, err error) error { return fn(FromSlash(p), i, err) })
}
