package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
)

type asset struct {
	name string // as asked for, "/data/astro/astro-1950.json"
	data []byte
}

func assets(c *fw.Ctx) (as []asset) {
	fs, err := filepath.Glob(filepath.Join(c.Repo, "data", "astro", "*.json"))
	if err != nil || len(fs) < 100 {
		panic(fw.HarnessError("no almanac files"))
	}
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		as = append(as, asset{"/data/astro/" + filepath.Base(f), b})
	}
	return as
}

func same(in string, want []byte, got []byte, err error) *fw.Fail {
	if err != nil {
		return fw.Failf(in, fmt.Sprintf("%d bytes", len(want)), err)
	}
	if !bytes.Equal(want, got) {
		return fw.Failf(in, fmt.Sprintf("%d bytes: %.60q", len(want), want), fmt.Sprintf("%d bytes: %.60q", len(got), got))
	}
	return nil
}

func c13(c *fw.Ctx) {
	if err := os.Chdir(c.Repo); err != nil {
		panic(fw.HarnessError(err.Error()))
	}
	as := assets(c)
	c.EnumFine("every file by every way in", len(as), func(i int) *fw.Fail {
		a := as[i]
		base := path.Base(a.name)
		forms := []string{a.name, "/data//astro/" + base, "/data/./astro/" + base, "/data/astro/../astro/" + base, "//data/astro/" + base, "/data/x/../astro/" + base,
			a.name + "/", a.name + "/.", a.name + "/x/.."}
		// each of them is the first one to be used of some files
		forms = append(forms[i%len(forms):], forms[:i%len(forms)]...)
		for round := 0; round < 3; round++ {
			for _, local := range []bool{false, true} {
				for _, nm := range forms {
					in := fmt.Sprintf("%s (local %v, round %d)", nm, local, round)
					b, err := suriya.FSByte(local, nm)
					if f := same("bytes of "+in, a.data, b, err); f != nil {
						return f
					}
					scribble(b)
					s, err := suriya.FSString(local, nm)
					if f := same("text of "+in, a.data, []byte(s), err); f != nil {
						return f
					}
					b = suriya.FSMustByte(local, nm)
					if f := same("must bytes of "+in, a.data, b, nil); f != nil {
						return f
					}
					scribble(b)
					if f := same("must text of "+in, a.data, []byte(suriya.FSMustString(local, nm)), nil); f != nil {
						return f
					}
					h, err := suriya.FS(local).Open(nm)
					if err != nil {
						return fw.Failf("open "+in, "a file", err)
					}
					st, err := h.Stat()
					if err != nil || st.Name() != base || st.Size() != int64(len(a.data)) || st.IsDir() {
						return fw.Failf("stat "+in, fmt.Sprintf("%s, %d bytes", base, len(a.data)), fmt.Sprint(st, err))
					}
					b, err = io.ReadAll(h)
					if f := same("read "+in, a.data, b, err); f != nil {
						return f
					}
					if err := h.Close(); err != nil {
						return fw.Failf("close "+in, "no error", err)
					}
					c.Traces(5)
				}
				for _, d := range []string{"", "/data", "/data/astro"} {
					in := fmt.Sprintf("%s under %q (local %v, round %d)", a.name, d, local, round)
					h, err := suriya.Dir(local, d).Open(strings.TrimPrefix(a.name, d))
					if err != nil {
						return fw.Failf("open "+in, "a file", err)
					}
					b, err := io.ReadAll(h)
					if f := same("read "+in, a.data, b, err); f != nil {
						return f
					}
					h.Close()
					c.Traces(1)
				}
			}
		}
		c.States(1)
		if i%60 == 2 {
			c.Sample("%s: %d bytes, embedded and local agree with the repository", a.name, len(a.data))
		}
		return nil
	})
	missing := []string{"", "x", "/data/astro/astro-1899.json", "/data/astro/astro-2041.json", "/data/astro/astro-1950", "data/astro/astro-1950.json", "/data/astro/ASTRO-1950.json", "/astro-1950.json", "/data/astro/astro-1950.json/x", "/etc/passwd", "/data/../etc/passwd"}
	c.EnumFine("absent files", len(missing)*2, func(i int) *fw.Fail {
		nm, local := missing[i/2], i%2 == 1
		in := fmt.Sprintf("%q (local %v)", nm, local)
		if b, err := suriya.FSByte(local, nm); err == nil || !os.IsNotExist(err) {
			return fw.Failf(in, "not there", fmt.Sprintf("%d bytes, %v", len(b), err))
		}
		if s, err := suriya.FSString(local, nm); err == nil || s != "" {
			return fw.Failf(in, "not there", s)
		}
		if h, err := suriya.FS(local).Open(nm); err == nil || !os.IsNotExist(err) {
			return fw.Failf(in+" opened", "not there", fmt.Sprint(h, err))
		}
		for _, f := range []func(){func() { suriya.FSMustByte(local, nm) }, func() { suriya.FSMustString(local, nm) }} {
			if !panics(f) {
				return fw.Failf(in+" required", "a panic", "none")
			}
		}
		c.Traces(1)
		return nil
	})
	// directories that are part of the embedded tree
	c.EnumFine("directories", 3, func(i int) *fw.Fail {
		nm := []string{"/", "/data", "/data/astro"}[i]
		h, err := suriya.FS(false).Open(nm)
		if err != nil {
			return fw.Failf(nm, "a directory", err)
		}
		st, err := h.Stat()
		if err != nil || !st.IsDir() {
			return fw.Failf(nm, "a directory", fmt.Sprint(st, err))
		}
		c.Traces(1)
		return nil
	})
	c.EnumFine("served over HTTP", len(as)*2, func(i int) *fw.Fail { return served(c, as[i/2], i%2 == 1) })
	c.EnumFine("files left open", len(as), func(i int) *fw.Fail {
		a := as[i]
		runtime.GC()
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		fds := func() int {
			es, err := os.ReadDir("/proc/self/fd")
			if err != nil {
				panic(fw.HarnessError(err.Error()))
			}
			return len(es)
		}
		for _, w := range []struct {
			name string
			f    func(local bool)
		}{
			{"FSByte", func(l bool) { suriya.FSByte(l, a.name) }},
			{"FSString", func(l bool) { suriya.FSString(l, a.name) }},
			{"FSMustByte", func(l bool) { suriya.FSMustByte(l, a.name) }},
			{"FSMustString", func(l bool) { suriya.FSMustString(l, a.name) }},
			{"FSByte of an absent file", func(l bool) { suriya.FSByte(l, a.name+"x") }},
			{"open and close", func(l bool) {
				if h, err := suriya.FS(l).Open(a.name); err == nil {
					h.Close()
				}
			}},
			{"open, stat, read and close", func(l bool) {
				if h, err := suriya.Dir(l, "/data").Open(strings.TrimPrefix(a.name, "/data")); err == nil {
					h.Stat()
					io.ReadAll(h)
					h.Close()
				}
			}},
		} {
			for _, local := range []bool{false, true} {
				before := fds()
				for n := 0; n < 8; n++ {
					w.f(local)
				}
				if after := fds(); after >= before+8 {
					return fw.Failf(fmt.Sprintf("%s of %s (local %v), eight times", w.name, a.name, local), fmt.Sprintf("%d open files, as before", before), after)
				}
				c.Steps(8)
			}
		}
		c.Traces(1)
		return nil
	})
	// operation sequences on two handles, over two files, against plain readers
	type op struct {
		name string
		f    func(m *fsModel) *fw.Fail
	}
	var ops []op
	names := []string{"/data/astro/astro-1900.json", "/data/astro/astro-1950.json"}
	content := map[string][]byte{}
	for _, a := range as {
		content[a.name] = a.data
	}
	for h := 0; h < 2; h++ {
		h := h
		for f := 0; f < 2; f++ {
			f := f
			ops = append(ops, op{fmt.Sprintf("open%d(%s)", h, path.Base(names[f])), func(m *fsModel) *fw.Fail { return m.open(h, names[f], content[names[f]]) }})
		}
		for _, n := range []int{10, 100000} {
			n := n
			ops = append(ops, op{fmt.Sprintf("read%d(%d)", h, n), func(m *fsModel) *fw.Fail { return m.read(h, n) }})
		}
		ops = append(ops, op{fmt.Sprintf("seek%d(start+7)", h), func(m *fsModel) *fw.Fail { return m.seek(h, 7, io.SeekStart) }})
		ops = append(ops, op{fmt.Sprintf("seek%d(end-5)", h), func(m *fsModel) *fw.Fail { return m.seek(h, -5, io.SeekEnd) }})
		ops = append(ops, op{fmt.Sprintf("seek%d(here+3)", h), func(m *fsModel) *fw.Fail { return m.seek(h, 3, io.SeekCurrent) }})
		ops = append(ops, op{fmt.Sprintf("seek%d(before the start)", h), func(m *fsModel) *fw.Fail { return m.seek(h, -1, io.SeekStart) }})
		ops = append(ops, op{fmt.Sprintf("stat%d", h), func(m *fsModel) *fw.Fail { return m.stat(h) }})
		ops = append(ops, op{fmt.Sprintf("close%d", h), func(m *fsModel) *fw.Fail { return m.close(h) }})
	}
	ops = append(ops, op{"bytes(astro-1950)", func(m *fsModel) *fw.Fail {
		b, err := suriya.FSByte(m.local[0], names[1])
		f := same("bytes", content[names[1]], b, err)
		scribble(b)
		return f
	}})
	ops = append(ops, op{"bytes(absent)", func(m *fsModel) *fw.Fail {
		if _, err := suriya.FSByte(m.local[1], "/data/astro/astro-1850.json"); err == nil {
			return fw.Failf("absent file", "an error", "none")
		}
		return nil
	}})
	depth := 5
	if c.Thorough {
		depth = 6
	}
	power := func(n int) int {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(ops)
		}
		return total
	}
	// a handle of the embedded file and one of the local file, or two local ones
	c.Enum("operation sequences with local files", power(depth-2)*3, func(i int) *fw.Fail {
		m := &fsModel{local: [2]bool{i%3 != 0, i%3 != 1}}
		defer m.closeAll()
		seq := []string{fmt.Sprintf("local files: %v", m.local)}
		for k, v := 0, i/3; k < depth-2; k, v = k+1, v/len(ops) {
			o := ops[v%len(ops)]
			seq = append(seq, o.name)
			if f := o.f(m); f != nil {
				f.Input = strings.Join(seq, " ") + ": " + f.Input
				return f
			}
			c.MarkString("reader states", m.key())
			c.Steps(1)
		}
		c.Traces(1)
		return nil
	})
	c.Enum("operation sequences", power(depth), func(i int) *fw.Fail {
		m := &fsModel{}
		seq := []string{}
		for k, v := 0, i; k < depth; k, v = k+1, v/len(ops) {
			o := ops[v%len(ops)]
			seq = append(seq, o.name)
			if f := o.f(m); f != nil {
				f.Input = strings.Join(seq, " ") + ": " + f.Input
				return f
			}
			c.MarkString("reader states", m.key())
			c.Steps(1)
		}
		c.Traces(1)
		if i%20_011 == 5 {
			c.Sample("%s", strings.Join(seq, " "))
		}
		return nil
	})
}

// scribble does what a caller may do with the bytes it was given.
func scribble(b []byte) {
	for i := range b {
		b[i] = 'x'
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// served fetches a file, whole and in parts, through a file server.
func served(c *fw.Ctx, a asset, local bool) *fw.Fail {
	n := len(a.data)
	for _, under := range []string{"", "/data", "/data/astro"} {
		server := http.FileServer(suriya.FS(local))
		if under != "" {
			server = http.FileServer(suriya.Dir(local, under))
		}
		target := strings.TrimPrefix(a.name, under)
		last := ""
		for round := 0; round < 2; round++ {
			for _, r := range []struct {
				method, part string
				code, from   int
				to           int
			}{
				{"GET", "", 200, 0, n}, {"HEAD", "", 200, 0, 0}, {"GET", "bytes=0-0", 206, 0, 1}, {"GET", "bytes=-5", 206, n - 5, n},
				{"GET", fmt.Sprintf("bytes=%d-", n/2), 206, n / 2, n}, {"GET", "bytes=10-29", 206, 10, 30}, {"GET", fmt.Sprintf("bytes=%d-", n), 416, 0, 0},
			} {
				q := httptest.NewRequest(r.method, "http://almanac"+target, nil)
				in := fmt.Sprintf("%s %s under %q, local %v", r.method, target, under, local)
				if r.part != "" {
					q.Header.Set("Range", r.part)
					in += ", " + r.part
				}
				w := httptest.NewRecorder()
				server.ServeHTTP(w, q)
				if w.Code != r.code {
					return fw.Failf(in, r.code, w.Code)
				}
				if r.code != 416 {
					if f := same(in, a.data[r.from:r.to], w.Body.Bytes(), nil); f != nil {
						return f
					}
					if l := w.Header().Get("Content-Length"); r.part == "" && l != fmt.Sprint(n) {
						return fw.Failf(in, fmt.Sprintf("length %d", n), l)
					}
					if l := w.Header().Get("Last-Modified"); last != "" && l != last {
						return fw.Failf(in, "modified "+last, "modified "+l)
					} else {
						last = l
					}
				}
				c.Traces(1)
			}
		}
		w := httptest.NewRecorder()
		server.ServeHTTP(w, httptest.NewRequest("GET", "http://almanac"+target+"x", nil))
		if w.Code != 404 {
			return fw.Failf(fmt.Sprintf("GET %sx under %q, local %v", target, under, local), 404, w.Code)
		}
	}
	c.States(1)
	return nil
}

type fsModel struct {
	local [2]bool
	name  [2]string
	data  [2][]byte
	pos   [2]int64
	h     [2]http.File
}

func (m *fsModel) key() string {
	return fmt.Sprint(m.name, m.pos, m.h[0] != nil, m.h[1] != nil)
}

func (m *fsModel) open(i int, name string, data []byte) *fw.Fail {
	h, err := suriya.FS(m.local[i]).Open(name)
	if err != nil {
		return fw.Failf("open "+name, "a file", err)
	}
	if m.local[i] && m.h[i] != nil {
		m.h[i].Close()
	}
	m.h[i], m.name[i], m.data[i], m.pos[i] = h, name, data, 0
	return nil
}

func (m *fsModel) read(i, n int) *fw.Fail {
	if m.h[i] == nil {
		return nil
	}
	b := make([]byte, n)
	k, err := io.ReadFull(m.h[i], b)
	want := m.data[i][min(m.pos[i], int64(len(m.data[i]))):]
	if len(want) > n {
		want = want[:n]
	}
	if !bytes.Equal(b[:k], want) || err != nil && len(want) == n {
		return fw.Failf(fmt.Sprintf("read of %d at %d", n, m.pos[i]), fmt.Sprintf("%d bytes %.40q", len(want), want), fmt.Sprintf("%d bytes %.40q (%v)", k, b[:k], err))
	}
	m.pos[i] += int64(k)
	return nil
}

func (m *fsModel) seek(i int, off int64, whence int) *fw.Fail {
	if m.h[i] == nil {
		return nil
	}
	p, err := m.h[i].Seek(off, whence)
	want := off
	if whence == io.SeekEnd {
		want += int64(len(m.data[i]))
	} else if whence == io.SeekCurrent {
		want += m.pos[i]
	}
	if want < 0 {
		if err == nil {
			return fw.Failf("seek before the start", "an error", p)
		}
		return nil
	}
	if err != nil || p != want {
		return fw.Failf("seek", want, fmt.Sprint(p, err))
	}
	m.pos[i] = want
	return nil
}

func (m *fsModel) stat(i int) *fw.Fail {
	if m.h[i] == nil {
		return nil
	}
	st, err := m.h[i].Stat()
	if err != nil || st.Name() != path.Base(m.name[i]) || st.Size() != int64(len(m.data[i])) || st.IsDir() {
		return fw.Failf("stat of "+m.name[i], fmt.Sprintf("%s, %d bytes", path.Base(m.name[i]), len(m.data[i])), fmt.Sprint(st, err))
	}
	return nil
}

func (m *fsModel) closeAll() {
	for _, h := range m.h {
		if h != nil {
			h.Close()
		}
	}
}

func (m *fsModel) close(i int) *fw.Fail {
	if m.h[i] == nil {
		return nil
	}
	err := m.h[i].Close()
	m.h[i] = nil
	m.name[i], m.data[i], m.pos[i] = "", nil, 0
	if err != nil {
		return fw.Failf("close", "no error", err)
	}
	return nil
}
