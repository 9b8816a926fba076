package main

import (
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/mc/fw"
)

// ---------------------------------------------------------------- C31

// The script that fetches the almanac runs against stand-ins for curl, date and
// sleep, which are this program under other names. They share a clock, a plan (how
// long each request takes, which one fails) and a log, in the directory
// VERIF_FETCH.

// standIn plays the part of the program it was started as.
func standIn() bool {
	dir := os.Getenv("VERIF_FETCH")
	if dir == "" {
		return false
	}
	read := func(name string) string {
		b, _ := os.ReadFile(filepath.Join(dir, name))
		return string(b)
	}
	clock := func(add int) int {
		ms, _ := strconv.Atoi(read("clock"))
		if add != 0 {
			os.WriteFile(filepath.Join(dir, "clock"), []byte(strconv.Itoa(ms+add)), 0644)
		}
		return ms
	}
	switch filepath.Base(os.Args[0]) {
	case "date":
		ms := clock(3)
		for _, a := range os.Args[1:] {
			switch a {
			case "+%s":
				fmt.Println(ms / 1000)
			case "+%s%3N":
				fmt.Println(ms)
			case "+%s%N":
				fmt.Printf("%d000000\n", ms)
			case "+%s.%N":
				fmt.Printf("%d.%03d000000\n", ms/1000, ms%1000)
			default:
				fmt.Println(time.UnixMilli(int64(ms)).UTC().Format(time.UnixDate))
			}
		}
	case "sleep":
		for _, a := range os.Args[1:] {
			f := 1000.0
			if strings.HasSuffix(a, "m") {
				f *= 60
			}
			s, err := strconv.ParseFloat(strings.TrimRight(a, "sm"), 64)
			if err != nil || s < 0 {
				fmt.Fprintln(os.Stderr, "sleep: invalid time interval", a)
				os.Exit(1)
			}
			clock(int(s * f))
		}
		if start, _ := strconv.Atoi(read("start")); clock(0) > start+600_000 {
			// ten minutes without a request: it does not end
			os.WriteFile(filepath.Join(dir, "forever"), nil, 0644)
			syscall.Kill(os.Getppid(), syscall.SIGKILL)
		}
	case "curl":
		at := clock(0)
		out, target, query, show := "", "", "", ""
		fail, keep := false, false
		for i := 1; i < len(os.Args); i++ {
			a := os.Args[i]
			switch {
			case a == "-o" || a == "--output":
				i++
				out = os.Args[i]
			case a == "-d" || a == "--data" || a == "--data-urlencode":
				i++
				query += "&" + os.Args[i]
			case a == "-m" || a == "--max-time" || a == "--connect-timeout" || a == "--retry" || a == "-A" || a == "-H":
				i++
			case a == "-w" || a == "--write-out":
				i++
				show = os.Args[i]
			case a == "--fail":
				fail = true
			case a == "--fail-with-body":
				fail, keep = true, true
			case strings.HasPrefix(a, "--"):
			case strings.HasPrefix(a, "-"):
				fail = fail || strings.Contains(a, "f")
				if strings.HasSuffix(a, "o") {
					i++
					out = os.Args[i]
				}
			default:
				target = a
			}
		}
		if query != "" {
			if strings.Contains(target, "?") {
				target += query
			} else {
				target += "?" + query[1:]
			}
		}
		n := strings.Count(read("log"), "\n")
		l, _ := os.OpenFile(filepath.Join(dir, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		fmt.Fprintf(l, "%d %s\n", at, target)
		l.Close()
		// plan: milliseconds for each request, "f" for one that fails, "p" for one
		// that fails half way, "e" for one that the service answers with an error
		step := "0"
		if p := strings.Fields(read("plan")); len(p) > 0 {
			step = p[n%len(p)]
		}
		ms, _ := strconv.Atoi(strings.TrimRight(step, "fpe"))
		clock(ms)
		os.WriteFile(filepath.Join(dir, "start"), []byte(strconv.Itoa(at+ms)), 0644)
		body, status := answer(target), "200"
		code := 0
		if strings.HasSuffix(step, "f") {
			body, code = "", 6
		} else if strings.HasSuffix(step, "p") {
			body, code = body[:len(body)/2], 18
		} else if strings.HasSuffix(step, "e") {
			status, body = "503", "<html>Service Unavailable</html>"
			if fail {
				code = 22
			}
			if fail && !keep {
				body = ""
			}
		}
		var err error
		if out != "" && (body != "" || code == 0) {
			err = os.WriteFile(out, []byte(body), 0644)
		} else if out == "" {
			_, err = fmt.Print(body)
		}
		if err != nil && code == 0 {
			code = 23
		}
		if code == 6 {
			status = "000"
		}
		fmt.Print(strings.NewReplacer("%{http_code}", status, "%{response_code}", status, `\n`, "\n", "%{exitcode}", strconv.Itoa(code)).Replace(show))
		os.Exit(code)
	default:
		return false
	}
	return true
}

var ownClock = regexp.MustCompile(`SECONDS|EPOCH|%\([^)]*\)T`)

const clockShim = `
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long long ms(void) {
	char name[4096];
	long long v = 0;
	const char *d = getenv("VERIF_FETCH");
	snprintf(name, sizeof name, "%s/clock", d ? d : "");
	FILE *f = fopen(name, "r");
	if (f) {
		if (fscanf(f, "%lld", &v) != 1) v = 0;
		fclose(f);
	}
	return v;
}
time_t time(time_t *t) {
	time_t v = ms() / 1000;
	if (t) *t = v;
	return v;
}
int gettimeofday(struct timeval *t, void *z) {
	long long v = ms();
	t->tv_sec = v / 1000;
	t->tv_usec = v % 1000 * 1000;
	return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
	long long v = ms();
	t->tv_sec = v / 1000;
	t->tv_nsec = v % 1000 * 1000000;
	return 0;
}
`

func answer(target string) string {
	u, err := url.Parse(target)
	if err != nil {
		return "?"
	}
	return fmt.Sprintf(`{"success":true,"error":null,"response":[],"asked":%q}`, u.Query().Get("from"))
}

// wholeYear tells whether moons asked for up to a date are all those of a year, and
// no day of the next one. The service takes a date for its first moment: it never
// answered with a moon of 31 December when asked for moons up to then.
func wholeYear(y int, to string) bool {
	for _, f := range []string{"2006/01/02", "2006/1/2", "2006-01-02", "01/02/2006", "2006/01/02 15:04", "2006/01/02 15:04:05", "2006-01-02 15:04", "2006-01-02 15:04:05", "2006-01-02T15:04", "2006-01-02T15:04:05", "2006-01-02T15:04:05Z07:00"} {
		if t, err := time.Parse(f, strings.TrimSpace(to)); err == nil {
			return !t.Before(time.Date(y, 12, 31, 23, 59, 0, 0, time.UTC)) && t.Before(time.Date(y+1, 1, 2, 0, 0, 0, 0, time.UTC))
		}
	}
	s, err := strconv.ParseInt(to, 10, 64)
	return err == nil && s >= time.Date(y, 12, 31, 23, 59, 0, 0, time.UTC).Unix() && s < time.Date(y+1, 1, 2, 0, 0, 0, 0, time.UTC).Unix()
}

type request struct {
	at     int // milliseconds
	target string
}

func c31(c *fw.Ctx) {
	script := filepath.Join(c.Repo, "utils", "get-astromoons.sh")
	if _, err := os.Stat(script); err != nil {
		panic(fw.HarnessError("no script"))
	}
	bin := filepath.Join(c.Scratch, "bin")
	self, err := os.Executable()
	if err != nil {
		panic(fw.HarnessError(err.Error()))
	}
	os.MkdirAll(bin, 0755)
	for _, n := range []string{"curl", "date", "sleep"} {
		if err := os.Symlink(self, filepath.Join(bin, n)); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
	}
	// a script that asks bash for the time gets that of the stand-ins too
	var preload []string
	if text, err := os.ReadFile(script); err == nil && ownClock.Match(text) {
		src, lib := filepath.Join(c.Scratch, "clock.c"), filepath.Join(c.Scratch, "clock.so")
		os.WriteFile(src, []byte(clockShim), 0644)
		if out, err := exec.Command("gcc", "-shared", "-fPIC", "-o", lib, src).CombinedOutput(); err != nil {
			c.Capped("the script asks bash for the time, which could not be replaced: " + string(out))
			return
		}
		preload = []string{"LD_PRELOAD=" + lib}
	}
	late, lates, forever := false, 0, false
	before := func(work string) {}
	run := func(env []string, start int, plan string, args ...string) (rs []request, code int, files map[string]string) {
		dir := filepath.Join(c.Scratch, "fetch")
		work := filepath.Join(dir, "work")
		os.RemoveAll(dir)
		os.MkdirAll(work, 0755)
		os.WriteFile(filepath.Join(dir, "clock"), []byte(strconv.Itoa(start)), 0644)
		os.WriteFile(filepath.Join(dir, "start"), []byte(strconv.Itoa(start)), 0644)
		os.WriteFile(filepath.Join(dir, "plan"), []byte(plan), 0644)
		os.WriteFile(filepath.Join(dir, "log"), nil, 0644)
		before(work)
		cmd := exec.Command("timeout", append([]string{"100", "/bin/bash", script}, args...)...)
		cmd.Dir = work
		cmd.Env = append([]string{"PATH=" + bin + ":/usr/bin:/bin", "HOME=" + work, "VERIF_FETCH=" + dir}, append(preload, env...)...)
		err := cmd.Run()
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else if err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		if code == 124 {
			late = true
			lates++
		}
		_, err = os.Stat(filepath.Join(dir, "forever"))
		forever = err == nil
		b, _ := os.ReadFile(filepath.Join(dir, "log"))
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			if p := strings.SplitN(l, " ", 2); len(p) == 2 {
				at, _ := strconv.Atoi(p[0])
				rs = append(rs, request{at, p[1]})
			}
		}
		files = map[string]string{}
		es, _ := os.ReadDir(work)
		for _, e := range es {
			if !e.Type().IsRegular() {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(work, e.Name()))
			files[e.Name()] = string(b)
		}
		c.States(1)
		c.Steps(len(rs))
		c.Traces(1)
		return
	}
	keys := []string{"CLIENT_ID=an-id", "CLIENT_SECRET=a-secret"}
	wrong := func(in string, rs []request, from, to int) *fw.Fail {
		n := to - from + 1
		if n < 0 {
			n = 0
		}
		if len(rs) != n {
			return fw.Failf(in, fmt.Sprintf("%d requests", n), fmt.Sprintf("%d: %v", len(rs), rs))
		}
		for k, r := range rs {
			u, err := url.Parse(r.target)
			if err != nil {
				return fw.Failf(in, "an address", r.target)
			}
			q, y := u.Query(), from+k
			limit, _ := strconv.Atoi(q.Get("limit"))
			if !strings.Contains(u.Path, "sunmoon/moonphases/london,uk") || q.Get("from") != fmt.Sprintf("%d/01/01", y) || !wholeYear(y, q.Get("to")) || limit < 208 || q.Get("client_id") != "an-id" || q.Get("client_secret") != "a-secret" {
				return fw.Failf(in, fmt.Sprintf("a request for all moons of %d in London, with the keys", y), r.target)
			}
			if k%10 == 0 && k >= 10 && r.at < rs[k-10].at+60000 {
				return fw.Failf(in, fmt.Sprintf("request %d a minute or more after request %d", k+1, k-9), fmt.Sprintf("%.3f s after it", float64(r.at-rs[k-10].at)/1000))
			}
		}
		return nil
	}
	check := func(in string, start int, plan string, from, to int) *fw.Fail {
		late = false
		if lates > 1 {
			c.Capped("what came after two runs that took more than 100 s")
			return nil
		}
		rs, code, files := run(keys, start, plan, strconv.Itoa(from), strconv.Itoa(to))
		if forever {
			return fw.Failf(in, "an end", "still waiting after ten minutes")
		}
		if late {
			c.Capped("a run that took more than 100 s")
			return nil
		}
		if f := wrong(in, rs, from, to); f != nil {
			return f
		}
		if code != 0 {
			return fw.Failf(in, "success", fmt.Sprint("exit ", code))
		}
		for y := from; y <= to; y++ {
			name := fmt.Sprintf("astro-%d.json", y)
			if w := fmt.Sprintf(`{"success":true,"error":null,"response":[],"asked":"%d/01/01"}`, y); files[name] != w {
				return fw.Failf(in+": "+name, w, files[name])
			}
			delete(files, name)
		}
		if len(files) != 0 {
			return fw.Failf(in, "no other files", fmt.Sprint(files))
		}
		return nil
	}
	speeds := []string{"0", "40", "900", "2500", "5900", "6000", "6100", "7000", "61000", "100 3000 0", "9000 1", "59000 0 0 0 0"}
	starts := []int{1_000_000_000, 1_000_000_999, 1_000_059_500}
	most := span(c, 25, 62)
	c.EnumFine("years, speeds", (most+1)*len(speeds), func(i int) *fw.Fail {
		n, s := i/len(speeds), speeds[i%len(speeds)]
		from := []int{1900, 1999, 2034}[i%3]
		in := fmt.Sprintf("%d %d, requests that take %s ms, from %d ms", from, from+n-1, s, starts[i%3])
		if i%48 == 0 {
			c.Sample("%s", in)
		}
		return check(in, starts[i%3], s, from, from+n-1)
	})
	slow := []int{30000, 57000, 59990, 60000, 61500, 125000}
	positions := 12
	c.EnumFine("one slow request", len(slow)*positions*2, func(i int) *fw.Fail {
		at, s := i%positions, slow[i/positions%len(slow)]
		p := make([]string, 24)
		for k := range p {
			p[k] = []string{"0", "1500"}[i/positions/len(slow)]
		}
		p[at*2] = strconv.Itoa(s)
		return check(fmt.Sprintf("24 years, request %d of which takes %d ms, the others %s", at*2+1, s, p[(at*2+1)%24]), starts[i%3], strings.Join(p, " "), 1950, 1973)
	})
	c.EnumFine("a request that fails", 3*12*5, func(i int) *fw.Fail {
		n := []int{1, 3, 12}[i%3]
		at := i / 3 % 12
		if at >= n {
			return nil
		}
		p := make([]string, n)
		for k := range p {
			p[k] = "100"
		}
		p[at] += []string{"f", "p", "e", "", ""}[i/36]
		in := fmt.Sprintf("%d years, request %d of which fails%s", n, at+1, []string{"", " half way", ", answered with an error", " for want of room for the answer", " since a directory is in the way of the answer"}[i/36])
		before = func(work string) {
			name := filepath.Join(work, fmt.Sprintf("astro-%d.json", 2000+at))
			switch i / 36 {
			case 3:
				os.Symlink("/dev/full", name)
			case 4:
				os.Mkdir(name, 0755)
			}
		}
		defer func() { before = func(string) {} }()
		late = false
		if lates > 1 {
			c.Capped("what came after two runs that took more than 100 s")
			return nil
		}
		rs, code, files := run(keys, starts[i%3], strings.Join(p, " "), "2000", strconv.Itoa(1999+n))
		if late {
			c.Capped("a run that took more than 100 s")
			return nil
		}
		if code == 0 && len(rs) <= n {
			return fw.Failf(in, "a failure", fmt.Sprint("success, with ", files))
		}
		return nil
	})
	none := [][]string{{}, {"2000"}, {"", "2001"}}
	c.EnumFine("arguments or keys that are missing", 3*4, func(i int) *fw.Fail {
		env := [][]string{keys, keys[:1], keys[1:], {}}[i%4]
		args := none[i/4]
		in := fmt.Sprint(env, args)
		rs, code, files := run(env, starts[0], "0", args...)
		if code == 0 || len(rs) != 0 || len(files) != 0 {
			return fw.Failf(in, "a failure, nothing asked for and nothing written", fmt.Sprint("exit ", code, ", ", rs, files))
		}
		if i%4 != 0 {
			rs, code, files = run(env, starts[0], "0", "2000", "2001")
			if code == 0 || len(rs) != 0 || len(files) != 0 {
				return fw.Failf(fmt.Sprint(env, " 2000 2001"), "a failure, nothing asked for and nothing written", fmt.Sprint("exit ", code, ", ", rs, files))
			}
		}
		return nil
	})
}
