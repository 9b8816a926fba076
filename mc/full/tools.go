package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/ref"
)

type ran struct {
	out, err string
	code     int
}

// environment is what programs see besides the usual.
var environment []string

// invoke runs a program in dir; a prefix command may set limits first.
func invoke(dir, tz string, prefix []string, prog string, args ...string) ran {
	all := append(append(append([]string{}, prefix...), prog), args...)
	cmd := exec.Command(all[0], all[1:]...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TZ=" + tz}, environment...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := ran{o.String(), e.String(), 0}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(fw.HarnessError(err.Error()))
		}
		r.code = x.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	return r
}

func cli(dir, tz string, args ...string) ran {
	return invoke(dir, tz, nil, os.Getenv("VERIF_CLI"), args...)
}

// ---------------------------------------------------------------- caldays

// the shape of the published JSON
type jDay struct {
	Date         *time.Time
	UposathaMoon []struct {
		Date                                                                                    *time.Time
		Calendar, Status, S_Number, S_Total, U_Days, M_Days, LunarMonth, LunarSeason, LunarYear *int
		Phase, Event, Source, Comments                                                          *string
		HasAdhikavara                                                                           *bool
	}
	HalfMoon []struct {
		Date  *time.Time
		Phase *string
	}
	AstroMoon []struct {
		Date  *time.Time
		Phase *string
	}
	MajorEvents []struct {
		Date                 *time.Time
		Calendar             *int
		Summary, Description *string
	}
	Events []interface{}
}

func jText(raw json.RawMessage) (string, error) {
	var d jDay
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&d); err != nil {
		return "", err
	}
	if d.Date == nil {
		return "", fmt.Errorf("no date")
	}
	// back into the package's own type, to be written like the model's days;
	// every field must have been there
	var c suriya.CalDay
	c.Date = *d.Date
	for _, u := range d.UposathaMoon {
		if u.Date == nil || u.Calendar == nil || u.Status == nil || u.S_Number == nil || u.S_Total == nil || u.U_Days == nil || u.M_Days == nil || u.LunarMonth == nil || u.LunarSeason == nil || u.LunarYear == nil || u.Phase == nil || u.Event == nil || u.HasAdhikavara == nil {
			return "", fmt.Errorf("an uposatha lacks fields")
		}
		c.UposathaMoon = append(c.UposathaMoon, suriya.UposathaMoon{Date: *u.Date, Calendar: *u.Calendar, Status: *u.Status, Phase: *u.Phase, Event: *u.Event, S_Number: *u.S_Number, S_Total: *u.S_Total,
			U_Days: *u.U_Days, M_Days: *u.M_Days, LunarMonth: *u.LunarMonth, LunarSeason: *u.LunarSeason, LunarYear: *u.LunarYear, HasAdhikavara: *u.HasAdhikavara})
	}
	for _, h := range d.HalfMoon {
		if h.Date == nil || h.Phase == nil {
			return "", fmt.Errorf("a half moon lacks fields")
		}
		c.HalfMoon = append(c.HalfMoon, suriya.HalfMoon{Date: *h.Date, Phase: *h.Phase})
	}
	for _, a := range d.AstroMoon {
		if a.Date == nil || a.Phase == nil {
			return "", fmt.Errorf("an astronomical moon lacks fields")
		}
		c.AstroMoon = append(c.AstroMoon, suriya.AstroMoon{Date: *a.Date, Phase: *a.Phase})
	}
	for _, m := range d.MajorEvents {
		if m.Date == nil || m.Calendar == nil || m.Summary == nil || m.Description == nil {
			return "", fmt.Errorf("a major event lacks fields")
		}
		if *m.Description != *m.Summary || *m.Calendar != 0 {
			return "", fmt.Errorf("major event %q described as %q", *m.Summary, *m.Description)
		}
		c.MajorEvents = append(c.MajorEvents, suriya.MajorEvent{Date: *m.Date, Summary: *m.Summary})
	}
	return calText(&c), nil
}

// parseCalDays checks one JSON text against the model's days.
func parseCalDays(in, text string, want []string) *fw.Fail {
	var m map[string][]json.RawMessage
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		return fw.Failf(in, "JSON, years with their days", fmt.Sprintf("%v: %.200q", err, text))
	}
	var ys []int
	for k := range m {
		y, err := strconv.Atoi(k)
		if err != nil || strconv.Itoa(y) != k {
			return fw.Failf(in, "years", k)
		}
		ys = append(ys, y)
	}
	sort.Ints(ys)
	n := 0
	for _, y := range ys {
		for _, raw := range m[strconv.Itoa(y)] {
			g, err := jText(raw)
			if err != nil {
				return fw.Failf(in, "a day", fmt.Sprintf("%v: %s", err, raw))
			}
			if n >= len(want) {
				return fw.Failf(in, fmt.Sprintf("%d days", len(want)), "too much: "+g)
			}
			if !strings.HasPrefix(g, fmt.Sprintf("%04d-", y)) {
				return fw.Failf(in, fmt.Sprintf("a day of %d under %d", y, y), g)
			}
			if g != want[n] {
				return fw.Failf(fmt.Sprintf("%s, entry %d", in, n), want[n], g)
			}
			n++
		}
	}
	if n < len(want) {
		return fw.Failf(in, fmt.Sprintf("%d days, then %s", len(want), want[n]), fmt.Sprintf("%d days", n))
	}
	return nil
}

// ---------------------------------------------------------------- ical

func modelIcal(exc bool, from, to int) (out []string) {
	if from > to {
		return nil
	}
	names := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}
	add := func(day int, s string) {
		if day >= from && day <= to {
			a, b := midnight(day), midnight(day+1)
			out = append(out, fmt.Sprintf("%s to %s %s", a.Format("20060102"), b.Format("20060102"), s))
		}
	}
	for _, m := range moonsFrom(exc, yearOf(from), yearOf(to)) {
		if m.Phase == "new" {
			add(m.Day, fmt.Sprintf("New Moon - %d day %s %d/%d", m.UDays, names[m.Season], m.SNum, m.STot))
			add(m.Day+8, "Waxing Moon")
		} else {
			add(m.Day, fmt.Sprintf("Full Moon - %d day %s %d/%d", m.UDays, names[m.Season], m.SNum, m.STot))
			add(m.Day+8, "Waning Moon")
		}
		for _, e := range majorsOf(m) {
			add(e.Day, e.Summary)
		}
	}
	return
}

func parseIcal(in, text string, want []string, before, after time.Time) (uids []string, fl *fw.Fail) {
	if !strings.HasSuffix(text, "\r\n") {
		return nil, fw.Failf(in, "lines that end in CR LF", fmt.Sprintf("%.80q", text))
	}
	lines := strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n")
	if lines[0] != "BEGIN:VCALENDAR" || lines[len(lines)-1] != "END:VCALENDAR" {
		return nil, fw.Failf(in, "one VCALENDAR", lines[0]+" ... "+lines[len(lines)-1])
	}
	head := map[string]string{}
	var ev map[string]string
	var got []string
	seen := map[string]bool{}
	last := ""
	for _, l := range lines[1 : len(lines)-1] {
		k := strings.IndexByte(l, ':')
		if k < 0 {
			return nil, fw.Failf(in, "NAME:VALUE", l)
		}
		n, v := l[:k], l[k+1:]
		switch {
		case l == "BEGIN:VEVENT":
			if ev != nil {
				return nil, fw.Failf(in, "events one after the other", "nested")
			}
			ev = map[string]string{}
		case l == "END:VEVENT":
			if ev == nil {
				return nil, fw.Failf(in, "BEGIN before END", l)
			}
			id := ev["UID"]
			if id == "" || seen[id] {
				return nil, fw.Failf(in, "an identifier of its own for every event", fmt.Sprintf("%q", id))
			}
			seen[id] = true
			uids = append(uids, id)
			st, err := time.Parse("20060102T150405Z", ev["DTSTAMP"])
			if err != nil || st.Before(before.Add(-2*time.Second)) || st.After(after.Add(2*time.Second)) {
				return nil, fw.Failf(in+": time stamp of an event", fmt.Sprint(before.UTC()), ev["DTSTAMP"])
			}
			a, b := ev["DTSTART;VALUE=DATE"], ev["DTEND;VALUE=DATE"]
			if a < last {
				return nil, fw.Failf(in, "events by date", last+" before "+a)
			}
			last = a
			got = append(got, fmt.Sprintf("%s to %s %s", a, b, ev["SUMMARY"]))
			ev = nil
		case ev != nil:
			if _, twice := ev[n]; twice {
				return nil, fw.Failf(in, n+" once", l)
			}
			ev[n] = v
		default:
			head[n] = v
		}
	}
	if ev != nil {
		return nil, fw.Failf(in, "every event ended", "one is not")
	}
	if head["VERSION"] != "2.0" || head["PRODID"] == "" || head["CALSCALE"] != "GREGORIAN" || head["METHOD"] != "PUBLISH" || !strings.Contains(head["X-WR-CALNAME"], "Mahānikāya") {
		return nil, fw.Failf(in+": head", "version 2.0, product, Gregorian, published, Mahānikāya", head)
	}
	return uids, sameBag(in, want, got)
}

// ---------------------------------------------------------------- both commands

type command struct {
	name  string
	check func(in, text string, from, to int, before, after time.Time) *fw.Fail
}

var badDates = []string{"2015", "2015-13-01", "2015-02-30", "2015-00-10", "2015-1-1", "15-01-01", "01-01-2015", "2015/01/01", "2015-01-01T00:00:00Z", "2015-02-29", "2100-02-29", "x", " 2015-01-01", "2015-01-01 ", "-1", "2015-04-31", "20150101"}

func commands(c *fw.Ctx, name string, k command) {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		panic(fw.HarnessError("no command line program"))
	}
	dir := c.Scratch
	decoy(c, dir)
	old := strings.Repeat("what was in the file before\n", 40000)
	iso := func(d int) string { return dstr(d) }
	// the ranges, and every way of giving them
	type rng struct{ from, to int }
	var rs []rng
	years := []int{1900, 1969, 1970, 1994, 2003, 2004, 2009, 2012, 2015, 2016, 2033, 2040, 2100}
	if c.Thorough {
		years = nil
		for y := 1890; y <= 2060; y++ {
			years = append(years, y)
		}
	}
	for _, y := range years {
		ends := []int{ref.Days(y, 1, 1), ref.Days(y, 1, 2), ref.Days(y, 3, 1) - 1, ref.Days(y, 3, 1), ref.Days(y, 7, 15), ref.Days(y, 8, 2), ref.Days(y, 12, 30), ref.Days(y, 12, 31), ref.Days(y+1, 1, 1), ref.Days(y+1, 12, 31), ref.Days(y+3, 6, 30)}
		for _, a := range ends {
			for _, b := range ends {
				rs = append(rs, rng{a, b})
			}
		}
	}
	// long ones, early and late ones
	for _, r := range [][6]int{{1890, 1, 1, 2060, 12, 31}, {1899, 12, 31, 1903, 1, 1}, {640, 1, 1, 700, 12, 31}, {998, 6, 1, 1002, 6, 1}, {999, 12, 31, 1000, 1, 1}, {3900, 1, 1, 3999, 12, 31},
		{1280, 2, 1, 1295, 4, 1}, {1800, 1, 1, 1900, 12, 31}, {2030, 5, 5, 2036, 5, 4}} {
		rs = append(rs, rng{ref.Days(r[0], r[1], r[2]), ref.Days(r[3], r[4], r[5])})
	}
	zones := []string{"UTC", "Asia/Bangkok", "Pacific/Pago_Pago", "Pacific/Kiritimati"}
	c.EnumFine("ranges", len(rs), func(i int) *fw.Fail {
		r := rs[i]
		tz := zones[i%len(zones)]
		in := fmt.Sprintf("%s --from %s --to %s (TZ %s)", name, iso(r.from), iso(r.to), tz)
		before := time.Now()
		p := cli(dir, tz, name, "--from", iso(r.from), "--to", iso(r.to))
		if p.code != 0 {
			return fw.Failf(in, "exit 0", fmt.Sprintf("exit %d %s", p.code, p.err))
		}
		if f := k.check(in, p.out, r.from, r.to, before, time.Now()); f != nil {
			return f
		}
		c.States(1)
		c.Traces(1)
		// into a file: nothing there, a shorter and a longer file before
		for v, pre := range []string{"", "short", old} {
			f := filepath.Join(dir, "out")
			os.Remove(f)
			if v > 0 {
				if err := os.WriteFile(f, []byte(pre), 0644); err != nil {
					panic(fw.HarnessError(err.Error()))
				}
			}
			before := time.Now()
			p := cli(dir, tz, name, "--output", "out", "--to", iso(r.to), "--from", iso(r.from))
			b, err := os.ReadFile(f)
			if p.code != 0 || err != nil {
				return fw.Failf(in+" --output", "exit 0 and a file", fmt.Sprintf("exit %d %s %v", p.code, p.err, err))
			}
			if strings.TrimSpace(p.out) != "" {
				return fw.Failf(in+" --output", "nothing on standard output", p.out)
			}
			if f := k.check(fmt.Sprintf("%s --output over a file of %d bytes", in, len(pre)), string(b), r.from, r.to, before, time.Now()); f != nil {
				return f
			}
			c.Steps(1)
			c.Traces(1)
			if !c.Thorough && i%4 != 0 {
				break
			}
		}
		if i%192 == 0 {
			c.Sample("%s", in)
		}
		return nil
	})
	c.EnumFine("dates that are none", len(badDates)*3, func(i int) *fw.Fail {
		bad := badDates[i/3]
		args := [][]string{{"--from", bad, "--to", "2015-12-31"}, {"--from", "2015-01-01", "--to", bad}, {"--from", bad, "--to", bad}}[i%3]
		f := filepath.Join(dir, "kept")
		if err := os.WriteFile(f, []byte(old), 0644); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		in := fmt.Sprintf("%s %q", name, args)
		p := cli(dir, "UTC", append([]string{name}, args...)...)
		if p.code == 0 {
			return fw.Failf(in, "a failure", fmt.Sprintf("exit 0 and %.80q", p.out))
		}
		p = cli(dir, "UTC", append([]string{name, "--output", "kept"}, args...)...)
		b, err := os.ReadFile(f)
		if p.code == 0 || err != nil || string(b) != old {
			return fw.Failf(in+" --output", "a failure, the file as it was", fmt.Sprintf("exit %d, file of %d bytes", p.code, len(b)))
		}
		p = cli(dir, "UTC", append([]string{name, "--output", "new"}, args...)...)
		if _, err := os.Stat(filepath.Join(dir, "new")); p.code == 0 || err == nil {
			return fw.Failf(in+" --output", "a failure and no file", fmt.Sprintf("exit %d", p.code))
		}
		c.States(1)
		c.Steps(3)
		return nil
	})
	wrong := [][]string{{"--form", "2015-01-01"}, {"--since=2015-01-01"}, {"-x"}, {"--from"}, {"--from", "2015-01-01", "--to"}, {"--to=2015-01-31", "--From=2015-01-01"},
		{"--from", "2015-01-01", "--to", "2015-01-31", "--outptu", "other"}, {"--from", "2015-01-01", "--to", "2015-01-31", "--output"}, {"--from", "2015-01-01", "--=", "--to", "2015-01-31"}, {"---from", "2015-01-01"}}
	c.EnumFine("options that are none", len(wrong), func(i int) *fw.Fail {
		f := filepath.Join(dir, "kept")
		if err := os.WriteFile(f, []byte(old), 0644); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		for _, args := range [][]string{append([]string{name}, wrong[i]...), append([]string{name, "--output", "kept"}, wrong[i]...)} {
			p := cli(dir, "UTC", args...)
			b, err := os.ReadFile(f)
			if p.code == 0 || err != nil || string(b) != old {
				return fw.Failf(fmt.Sprintf("%q", args), "a failure, the file kept as it was", fmt.Sprintf("exit %d, file of %d bytes", p.code, len(b)))
			}
			c.Steps(1)
		}
		c.States(1)
		return nil
	})
	ranges := [][2]int{{ref.Days(2015, 1, 2), ref.Days(2015, 1, 1)}, {ref.Days(2015, 1, 1), ref.Days(2015, 1, 5)}, {ref.Days(2015, 1, 1), ref.Days(2015, 1, 31)}, {ref.Days(2015, 1, 1), ref.Days(2015, 12, 31)}, {ref.Days(1990, 1, 1), ref.Days(2020, 12, 31)}}
	c.EnumFine("places that cannot be written", 6*len(ranges), func(i int) *fw.Fail {
		if err := os.MkdirAll(filepath.Join(dir, "adir"), 0755); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		r := ranges[i/6]
		args := []string{name, "--from", iso(r[0]), "--to", iso(r[1])}
		if i%6 == 3 {
			p := invoke(dir, "UTC", []string{"/bin/bash", "-c", `exec "$@" >/dev/full`, "bash"}, bin, args...)
			if p.code == 0 {
				return fw.Failf(fmt.Sprint(args, " with standard output on a full device"), "a failure", "exit 0")
			}
			c.States(1)
			c.Steps(1)
			return nil
		}
		if i%6 > 3 { // standard output is a pipe that nobody reads, with and without a signal
			rd, wr, err := os.Pipe()
			if err != nil {
				panic(fw.HarnessError(err.Error()))
			}
			rd.Close()
			defer wr.Close()
			trap := []string{"", "trap '' PIPE; "}[i%6-4]
			cmd := exec.Command("/bin/bash", append([]string{"-c", trap + `exec "$@"`, "bash", bin}, args...)...)
			cmd.Dir, cmd.Stdout = dir, wr
			cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TZ=UTC"}
			if err := cmd.Run(); err == nil {
				return fw.Failf(fmt.Sprint(args, " with standard output on a pipe that nobody reads (", trap, ")"), "a failure", "exit 0")
			} else if _, ok := err.(*exec.ExitError); !ok {
				panic(fw.HarnessError(err.Error()))
			}
			c.States(1)
			c.Steps(1)
			return nil
		}
		out := []string{"no-such-dir/out", "adir", "/dev/full"}[i%6]
		p := cli(dir, "UTC", append(args, "--output", out)...)
		if p.code == 0 {
			return fw.Failf(fmt.Sprint(args, " --output "+out), "a failure", "exit 0")
		}
		if _, err := os.Stat(filepath.Join(dir, "no-such-dir")); err == nil {
			return fw.Failf(fmt.Sprint(args, " --output "+out), "nothing created", "the directory was")
		}
		c.States(1)
		c.Steps(1)
		return nil
	})
	// file size limits from nothing upwards, for small and large calendars, to
	// the output file or to standard output: success is only said of a complete file
	type limit struct{ r, bytes, to int }
	var limits []limit
	for to := 0; to < 2; to++ {
		for r := 0; r < 4; r++ {
			step := []int{1, 40, 160, 1024}[r]
			for k := 0; k < 40; k++ {
				limits = append(limits, limit{r, k * step, to})
			}
		}
		for k := 4096; k <= 1<<20; k *= 2 {
			limits = append(limits, limit{4, k - 1, to}, limit{4, k, to})
		}
	}
	c.EnumFine("space running out", len(limits), func(i int) *fw.Fail {
		l := limits[i]
		r := ranges[l.r]
		os.Remove(filepath.Join(dir, "limited"))
		before := time.Now()
		args := []string{name, "--from", iso(r[0]), "--to", iso(r[1])}
		script := `exec prlimit --fsize="$1" "${@:2}"`
		if l.to == 0 {
			args = append(args, "--output", "limited")
		} else {
			script += " >limited"
		}
		p := invoke(dir, "UTC", []string{"/bin/bash", "-c", script, "bash", strconv.Itoa(l.bytes)}, bin, args...)
		if p.code == 0 {
			b, _ := os.ReadFile(filepath.Join(dir, "limited"))
			in := fmt.Sprintf("%v into a file of at most %d bytes, said to have succeeded", args, l.bytes)
			c.Info("limits that were enough", 1)
			return k.check(in, string(b), r[0], r[1], before, time.Now())
		}
		c.Info("limits that were not enough", 1)
		c.States(1)
		c.Steps(1)
		return nil
	})
	faults(c, dir, len(ranges)*2, func(i int) ([]string, string, func(in, text string) *fw.Fail) {
		r := ranges[i/2]
		args := []string{name, "--from", iso(r[0]), "--to", iso(r[1])}
		out := ""
		if i%2 == 1 {
			out = "faulty"
			args = append(args, "--output", out)
		}
		before := time.Now()
		return args, out, func(in, text string) *fw.Fail {
			return k.check(in, text, r[0], r[1], before, time.Now())
		}
	})
	// ways of writing the same
	c.EnumFine("spellings", 4*3*6*2, func(i int) *fw.Fail {
		r := ranges[1+i/24%3]
		flag := func(k int, n, v string) []string {
			d := []string{"--", "-"}[k%2]
			if k/2%2 == 0 {
				return []string{d + n, v}
			}
			return []string{d + n + "=" + v}
		}
		to := []string{"", "sub/out", dir + "/out", "with space", "link", "../" + filepath.Base(dir) + "/x.y"}[i/4%6]
		parts := [][]string{flag(i, "from", iso(r[0])), flag(i, "to", iso(r[1]))}
		if to != "" {
			parts = append(parts, flag(i/2, "output", to))
		}
		args := []string{name}
		for k := range parts {
			if i/72 == 1 {
				k = len(parts) - 1 - k
			}
			args = append(args, parts[k]...)
		}
		os.MkdirAll(filepath.Join(dir, "sub"), 0755)
		os.Remove(filepath.Join(dir, "link"))
		if err := os.Symlink("linked", filepath.Join(dir, "link")); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		before := time.Now()
		p := cli(dir, "UTC", args...)
		text := p.out
		if to != "" && p.code == 0 {
			if !filepath.IsAbs(to) {
				to = filepath.Join(dir, to)
			}
			b, err := os.ReadFile(to)
			if err != nil {
				return fw.Failf(fmt.Sprint(args), "a file", err)
			}
			text = string(b)
			os.Remove(to)
		}
		if p.code != 0 {
			return fw.Failf(fmt.Sprint(args), "exit 0", p.err)
		}
		c.States(1)
		c.Steps(1)
		return k.check(fmt.Sprint(args), text, r[0], r[1], before, time.Now())
	})
	// the clock: dates that are left out are of the year it is, in the local
	// zone, and of one year even if it turns meanwhile
	clocked := os.Getenv("VERIF_CLOCKED")
	if clocked == "" {
		c.Capped("the clock cannot be controlled with this tool chain")
	}
	type clock struct {
		sec  int64 // the clock turns from the last nanosecond of sec-1 to sec
		year int
		zone string
		n    int
		args int
	}
	var clocks []clock
	clockYears := []int{1903, 1970, 1971, 1995, 1998, 2000, 2016, 2025, 2033, 2038, 2100}
	if c.Thorough {
		clockYears = nil
		for y := 1903; y <= 2110; y++ {
			clockYears = append(clockYears, y)
		}
	}
	clockZones := append([]string{"America/Santiago", "Africa/Cairo", "Pacific/Kiritimati"}, zones...)
	for _, y := range clockYears {
		for _, z := range clockZones {
			loc, err := time.LoadLocation(z)
			if err != nil {
				panic(fw.HarnessError(err.Error()))
			}
			sec := yearTurn(y, loc)
			for args := 0; args < 4; args++ {
				for n := 0; n <= 3; n++ {
					clocks = append(clocks, clock{sec, y, z, n, args})
				}
				clocks = append(clocks, clock{sec, y, z, 1 << 30, args})
			}
			for m := 1; m <= 12; m++ { // within the year
				sec := time.Date(y, time.Month(m), m*5%28+1, 11+m, 30, 0, 0, loc).Unix()
				clocks = append(clocks, clock{sec, y, z, 0, m % 3})
			}
		}
	}
	c.EnumFine("the clock", len(clocks), func(i int) *fw.Fail {
		k1 := clocks[i]
		if clocked == "" {
			return nil
		}
		args := []string{name}
		if k1.args&1 != 0 {
			args = append(args, "--from", iso(ref.Days(k1.year-2, 7, 9)))
		}
		if k1.args&2 != 0 {
			args = append(args, "--to", iso(ref.Days(k1.year+1, 2, 28)))
		}
		environment = []string{fmt.Sprintf("VERIF_CLOCK=%d %d %d", k1.sec-1, k1.sec, k1.n)}
		p := invoke(dir, k1.zone, nil, clocked, args...)
		environment = nil
		in := fmt.Sprintf("%v, TZ %s, clock at %v", args, k1.zone, time.Unix(k1.sec, 0).UTC())
		years := []int{k1.year}
		if k1.n > 0 {
			in += fmt.Sprintf(" from reading %d on, just before that until then", k1.n+1)
			years = []int{k1.year - 1, k1.year}
		}
		if k1.n > 1<<20 {
			in = fmt.Sprintf("%v, TZ %s, clock just before %v", args, k1.zone, time.Unix(k1.sec, 0).UTC())
			years = years[:1]
		}
		if p.code != 0 {
			return fw.Failf(in, "exit 0", p.err)
		}
		var bad *fw.Fail
		for _, y := range years {
			from, to := ref.Days(y, 1, 1), ref.Days(y, 12, 31)
			if k1.args&1 != 0 {
				from = ref.Days(k1.year-2, 7, 9)
			}
			if k1.args&2 != 0 {
				to = ref.Days(k1.year+1, 2, 28)
			}
			f := k.check(in, p.out, from, to, time.Unix(k1.sec-1, 0), time.Unix(k1.sec, 0))
			if f == nil {
				c.States(1)
				c.Steps(1)
				c.Traces(1)
				return nil
			}
			if bad == nil {
				bad = f
			}
		}
		return bad
	})
	c.EnumFine("dates left out", 4*len(zones), func(i int) *fw.Fail {
		tz := zones[i%len(zones)]
		for try := 0; ; try++ {
			before := time.Now()
			loc, err := time.LoadLocation(tz)
			if err != nil {
				loc = time.UTC
			}
			y := before.In(loc).Year()
			from, to := ref.Days(y, 1, 1), ref.Days(y, 12, 31)
			args := []string{name}
			if i/len(zones)&1 != 0 {
				from = ref.Days(y-2, 7, 9)
				args = append(args, "--from", iso(from))
			}
			if i/len(zones)&2 != 0 {
				to = ref.Days(y+1, 2, 28)
				args = append(args, "--to", iso(to))
			}
			p := cli(dir, tz, args...)
			after := time.Now()
			if after.In(loc).Year() != y && try == 0 {
				continue // the year turned meanwhile
			}
			if p.code != 0 {
				return fw.Failf(fmt.Sprint(args), "exit 0", p.err)
			}
			c.States(1)
			c.Steps(1)
			return k.check(fmt.Sprint(args, " TZ ", tz), p.out, from, to, before, after)
		}
	})
}

func c22(c *fw.Ctx) {
	commands(c, "caldays", command{"caldays", func(in, text string, from, to int, before, after time.Time) *fw.Fail {
		return parseCalDays(in, text, modelRange(c, false, from, to))
	}})
	// the published data of 2014-2017 (from before the quarters were included)
	c.EnumFine("published data", 1, func(int) *fw.Fail {
		b, err := os.ReadFile(filepath.Join(c.Repo, "suriya", "testdata", "caldays-from-2014-01-01-to-2017-12-31.json"))
		if err != nil {
			return nil
		}
		p := cli(c.Scratch, "UTC", "caldays", "--from", "2014-01-01", "--to", "2017-12-31")
		b = bytes.Replace(b, []byte("Visākha"), []byte("Vesākha"), -1) // written so at the time
		w, err1 := published(b)
		g, err2 := published([]byte(p.out))
		if err1 != nil || err2 != nil {
			return fw.Failf("published data", "JSON", fmt.Sprint(err1, err2))
		}
		c.Traces(1)
		return sameBag("the data published for 2014-2017", w, g)
	})
}

func published(b []byte) (out []string, err error) {
	var m map[string][]map[string]interface{}
	if err = json.Unmarshal(b, &m); err != nil {
		return
	}
	for y, ds := range m {
		for _, d := range ds {
			if a, ok := d["AstroMoon"].([]interface{}); ok && len(a) == 1 {
				p := a[0].(map[string]interface{})["Phase"]
				if p == "waxing" || p == "waning" {
					delete(d, "AstroMoon")
					if len(d) == 1 {
						continue
					}
				}
			}
			j, _ := json.Marshal(d)
			out = append(out, y+" "+string(j))
		}
	}
	return
}

func c23(c *fw.Ctx) {
	commands(c, "ical", command{"ical", func(in, text string, from, to int, before, after time.Time) *fw.Fail {
		_, f := parseIcal(in, text, modelIcal(false, from, to), before, after)
		return f
	}})
	c.EnumFine("published data", 1, func(int) *fw.Fail {
		b, err := os.ReadFile(filepath.Join(c.Repo, "suriya", "testdata", "mahanikaya-from-2013-01-01-to-2017-12-31.ical"))
		if err != nil {
			return nil
		}
		p := cli(c.Scratch, "UTC", "ical", "--from", "2013-01-01", "--to", "2017-12-31")
		b = bytes.Replace(b, []byte("Visākha"), []byte("Vesākha"), -1) // written so at the time
		strip := func(s string) (out []string) {
			for i, l := range strings.Split(strings.TrimSpace(s), "\n") {
				l = strings.TrimRight(l, "\r")
				if !strings.HasPrefix(l, "UID:") && !strings.HasPrefix(l, "DTSTAMP:") {
					out = append(out, fmt.Sprintf("%05d %s", i, l))
				}
			}
			return
		}
		c.Traces(1)
		return sameBag("the data published for 2013-2017", strip(string(b)), strip(p.out))
	})
	c.EnumFine("identifiers over runs", 1, func(int) *fw.Fail {
		seen := map[string]bool{}
		for r := 0; r < 10; r++ {
			t := time.Now()
			p := cli(c.Scratch, "UTC", "ical", "--from", "2015-01-01", "--to", "2015-12-31")
			ids, f := parseIcal("ical 2015", p.out, modelIcal(false, ref.Days(2015, 1, 1), ref.Days(2015, 12, 31)), t, time.Now())
			if f != nil {
				return f
			}
			for _, id := range ids {
				if seen[id] {
					return fw.Failf("identifiers over runs", "never the same twice", id)
				}
				seen[id] = true
			}
		}
		return nil
	})
	clocked := os.Getenv("VERIF_CLOCKED")
	if clocked == "" {
		c.Capped("runs at the same instant, for want of a build with a clock of one's own")
		return
	}
	c.EnumFine("identifiers of runs at the same instant", 24, func(i int) *fw.Fail {
		defer func() { environment = nil }()
		sec := int64([]int{0, 1, 1_000_000_000, 1_420_070_400, 1_797_033_600, 4_102_444_800}[i%6])
		before := []int{0, 1, 5, 1 << 30}[i/6]
		environment = []string{fmt.Sprintf("VERIF_CLOCK=%d %d %d", sec, sec, before)}
		seen := map[string]int{}
		for r := 0; r < 4; r++ {
			p := invoke(c.Scratch, []string{"UTC", "Asia/Bangkok"}[r%2], nil, clocked, "ical", "--from", "2015-01-01", "--to", "2015-03-31")
			n := 0
			for _, l := range strings.Split(p.out, "\n") {
				if strings.HasPrefix(l, "UID") {
					if k, was := seen[l]; was {
						return fw.Failf(fmt.Sprintf("runs %d and %d at second %d, clock readings alike", k+1, r+1, sec), "identifiers of their own", strings.TrimSpace(l))
					}
					seen[l] = r
					n++
				}
			}
			if n == 0 {
				return fw.Failf(fmt.Sprintf("ical at second %d", sec), "entries", p.out+p.err)
			}
			c.Steps(n)
			c.Traces(1)
		}
		c.States(1)
		return nil
	})
}

// ---------------------------------------------------------------- C26

// sinceLast is the number of years since the last extra month and extra day, for a
// year that has one.
func sinceLast(y int) (dm, dv string) {
	n := 1
	if ref.Am(y) {
		for !ref.Am(y - n) {
			n++
		}
		return fmt.Sprint(n), ""
	}
	if ref.Av(y, false) {
		for !ref.Av(y-n, false) {
			n++
		}
		return "", fmt.Sprint(n)
	}
	return "", ""
}

// anyYears looks at both tables of the tool for all years.
func anyYears(c *fw.Ctx, prog string) {
	const from, block = 660, 60
	c.EnumFine("tables of any years", (hi-from)/block, func(i int) *fw.Fail {
		a := from + i*block
		b := a + block - 1
		simple := invoke(c.Scratch, "UTC", nil, prog, "simple", fmt.Sprint(a), fmt.Sprint(b))
		whole := invoke(c.Scratch, "UTC", nil, prog, "whole", fmt.Sprint(a), fmt.Sprint(b))
		s, w := strings.Split(simple.out, "\n"), strings.Split(whole.out, "\n")
		in := fmt.Sprintf("tables of %d-%d", a, b)
		if len(s) != block+2 || len(w) != block+2 || s[0] != "CE year,BE year,nM,dM,nV,dV,K,A,T" {
			return fw.Failf(in, fmt.Sprint(block+2, " lines"), fmt.Sprint(len(s), len(w), s[0], simple.err, whole.err))
		}
		tab := table(false)
		for y := a; y <= b; y++ {
			e := ref.Elements(y)
			dm, dv := sinceLast(y)
			nm, nv := ref.FMod(y-1984, 19)+1, ref.FMod(y-1984, 57)+1
			if want, got := fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d", y, e.BE, nm, dm, nv, dv, e.K, e.Av, e.Tithi), s[1+y-a]; got != want {
				return fw.Failf(fmt.Sprintf("simple table, row of %d", y), want, got)
			}
			if dv == "" && ref.WouldAv(y) {
				dv = "x"
			}
			want := fmt.Sprintf("%d;%d;%d;%d;%d;%d;%s;%d;%s;%s;", y, e.BE, e.K, e.Av, e.Tithi, nm, dm, nv, dv, dstr(tab.Asalha(y)))
			if got := w[1+y-a]; !strings.HasPrefix(got, want) {
				return fw.Failf(fmt.Sprintf("table, row of %d", y), want, got)
			}
			c.States(1)
			c.Traces(2)
		}
		return nil
	})
}

func c26(c *fw.Ctx) {
	bin := os.Getenv("VERIF_YEARS")
	committed := map[string][]string{}
	if b, err := os.ReadFile(filepath.Join(c.Repo, "utils", "years.csv")); err == nil {
		for _, l := range strings.Split(string(b), "\n")[1:] {
			f := strings.Split(l, ";")
			if len(f) >= 14 {
				committed[f[0]] = f
			}
		}
	}
	zones := []string{"UTC", "Asia/Bangkok", "Pacific/Pago_Pago", "America/Santiago", "Africa/Cairo", "Pacific/Kiritimati"}
	pre := []string{"", "x\n", strings.Repeat("1970;2513;old;row\n", 5000)}
	c.EnumFine("table", len(zones)*len(pre), func(i int) *fw.Fail {
		dir := filepath.Join(c.Scratch, fmt.Sprint("table", i))
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		f := filepath.Join(dir, "years.csv")
		if p := pre[i/len(zones)]; p != "" {
			if err := os.WriteFile(f, []byte(p), 0644); err != nil {
				panic(fw.HarnessError(err.Error()))
			}
		}
		in := fmt.Sprintf("years table over a file of %d bytes, TZ %s", len(pre[i/len(zones)]), zones[i%len(zones)])
		r := invoke(dir, zones[i%len(zones)], nil, bin)
		b, err := os.ReadFile(f)
		if r.code != 0 || err != nil {
			return fw.Failf(in, "a table", fmt.Sprintf("exit %d %s %v", r.code, r.err, err))
		}
		lines := strings.Split(string(b), "\n")
		if lines[len(lines)-1] != "" {
			return fw.Failf(in, "a last line that ends", lines[len(lines)-1])
		}
		lines = lines[:len(lines)-1]
		if len(lines) != 1+2041-1970+1 {
			return fw.Failf(in, "73 lines", len(lines))
		}
		if w := "CE year;BE year;K;A;T;nM;dM;nV;dV;Asalha by Calc.;Asalha in Calendar;test;source;comments"; lines[0] != w {
			return fw.Failf(in, w, lines[0])
		}
		tab := table(false)
		for k, l := range lines[1:] {
			y := 1970 + k
			e := ref.Elements(y)
			dm, dv := sinceLast(y)
			if dv == "" && ref.WouldAv(y) {
				dv = "x"
			}
			a := dstr(tab.Asalha(y))
			w := fmt.Sprintf("%d;%d;%d;%d;%d;%d;%s;%d;%s;%s", y, e.BE, e.K, e.Av, e.Tithi, ref.FMod(y-1984, 19)+1, dm, ref.FMod(y-1984, 57)+1, dv, a)
			f := strings.Split(l, ";")
			if len(f) < 14 {
				return fw.Failf(in+": "+l, "14 columns", len(f))
			}
			if g := strings.Join(f[:10], ";"); g != w {
				return fw.Failf(fmt.Sprintf("%s: row of %d", in, y), w, g)
			}
			res := ""
			if f[10] != "" {
				res = "FAIL"
				if f[10] == a {
					res = "OK"
				}
			}
			if f[11] != res {
				return fw.Failf(fmt.Sprintf("%s: test of %d", in, y), res, f[11])
			}
			if o := committed[f[0]]; o != nil && strings.Join(o[10:], ";") != strings.Join(f[10:], ";") {
				return fw.Failf(fmt.Sprintf("%s: calendar, source and comment of %d", in, y), strings.Join(o[10:], ";"), strings.Join(f[10:], ";"))
			}
			c.States(1)
			c.Traces(1)
			if k%30 == 25 {
				c.Sample("%s", l)
			}
		}
		// and again, over its own output
		invoke(dir, "UTC", nil, bin)
		b2, _ := os.ReadFile(f)
		if !bytes.Equal(b, b2) {
			return fw.Failf(in+", run again", "the same table", "another")
		}
		c.Steps(1)
		return nil
	})
	if prog := os.Getenv("VERIF_TABLES"); prog != "" {
		anyYears(c, prog)
	}
	// a table that cannot be written completely is not said to have been
	c.EnumFine("places that cannot be written", 3, func(i int) *fw.Fail {
		dir := filepath.Join(c.Scratch, fmt.Sprint("bad", i))
		f := filepath.Join(dir, "years.csv")
		err := os.MkdirAll(dir, 0755)
		switch i {
		case 0:
			err = os.Symlink("/dev/full", f)
		case 1:
			err = os.Mkdir(f, 0755)
		case 2:
			err = os.Symlink("no-such-dir/years.csv", f)
		}
		if err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		if r := invoke(dir, "UTC", nil, bin); r.code == 0 {
			return fw.Failf("years table over "+[]string{"a full device", "a directory", "a link to nowhere"}[i], "a failure", "exit 0")
		}
		c.States(1)
		c.Steps(1)
		return nil
	})
	c.EnumFine("space running out", 500, func(i int) *fw.Fail {
		dir := filepath.Join(c.Scratch, "limited")
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		f := filepath.Join(dir, "years.csv")
		os.Remove(f)
		limit := i * 16
		r := invoke(dir, "UTC", []string{"/bin/bash", "-c", `exec prlimit --fsize="$1" "${@:2}"`, "bash", strconv.Itoa(limit)}, bin)
		b, _ := os.ReadFile(f)
		c.States(1)
		c.Steps(1)
		if r.code == 0 && len(strings.Split(string(b), "\n")) != 74 {
			return fw.Failf(fmt.Sprintf("years table into a file of at most %d bytes", limit), "73 lines, or a failure", fmt.Sprintf("exit 0 and %d bytes", len(b)))
		}
		if r.code != 0 {
			c.Info("limits that were not enough", 1)
		}
		return nil
	})
	want := ""
	faults(c, c.Scratch, 1, func(int) ([]string, string, func(in, text string) *fw.Fail) {
		return nil, "years.csv", func(in, text string) *fw.Fail {
			if want == "" {
				r := invoke(c.Scratch, "UTC", nil, bin)
				b, err := os.ReadFile(filepath.Join(c.Scratch, "years.csv"))
				if err != nil || r.code != 0 {
					return fw.Failf("years table", "a table", r.err)
				}
				want = string(b)
			}
			if text != want {
				return fw.Failf(in, want, text)
			}
			return nil
		}
	})
}

// faults runs a program with every one of its operations on files (opening for
// writing, writes, syncs, closing) failing in every way, and whatever that
// loses lost: success is only said of a complete file. The i-th run has some
// arguments and writes to a file or to standard output.
func faults(c *fw.Ctx, dir string, n int, run func(i int) (args []string, out string, check func(in, text string) *fw.Fail)) {
	prog := os.Getenv("VERIF_FAULTY")
	if prog == "" {
		c.Capped("no faults in files other than running out of space: the tool chain's os package cannot be replaced")
		return
	}
	ways := []string{"ENOSPC", "EIO", "EDQUOT", "ENOSPC half", "EIO half", "EDQUOT half"}
	const most = 400
	c.EnumFine("faults in files", n*len(ways)*2, func(i int) *fw.Fail {
		defer func() { environment = nil }()
		way := strings.Fields(ways[i/2%len(ways)])
		mark := filepath.Join(dir, "mark")
		for k := 1; ; k++ {
			args, out, check := run(i / 2 / len(ways))
			os.Remove(mark)
			if out != "" {
				os.Remove(filepath.Join(dir, out))
				if i%2 == 1 {
					if err := os.WriteFile(filepath.Join(dir, out), []byte(strings.Repeat("before ", 20000)), 0644); err != nil {
						panic(fw.HarnessError(err.Error()))
					}
				}
			}
			environment = []string{fmt.Sprintf("VERIF_FAULT=%d", k), "VERIF_FAULT_ERRNO=" + way[0], "VERIF_FAULT_MARK=" + mark}
			if len(way) > 1 {
				environment = append(environment, "VERIF_FAULT_HALF=1")
			}
			p := invoke(dir, "UTC", nil, prog, args...)
			b, _ := os.ReadFile(mark)
			in := fmt.Sprintf("%v, operation %d on files (%s) fails: %v", args, k, b, way)
			if len(b) == 0 {
				in = fmt.Sprintf("%v with no fault", args)
				if p.code != 0 {
					return fw.Failf(in, "exit 0", fmt.Sprintf("exit %d %s", p.code, p.err))
				}
			}
			c.Steps(1)
			if p.code == 0 {
				text := p.out
				if out != "" {
					t, err := os.ReadFile(filepath.Join(dir, out))
					if err != nil {
						return fw.Failf(in+", said to have succeeded", "a file", err)
					}
					text = string(t)
				}
				if f := check(in+", said to have succeeded", text); f != nil {
					return f
				}
			}
			if len(b) == 0 {
				break
			}
			c.Info("faults met", 1)
			if k == most {
				c.Capped(fmt.Sprintf("only the first %d operations on files of %v", most, args))
				break
			}
		}
		c.States(1)
		return nil
	})
}

// yearTurn is the first second of a year in a zone (found by looking, since
// midnight may not exist there: zones have changed at New Year).
func yearTurn(y int, loc *time.Location) int64 {
	t := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	lo, hi := t-30*3600, t+30*3600
	for hi-lo > 1 {
		if m := (lo + hi) / 2; time.Unix(m, 0).In(loc).Year() < y {
			lo = m
		} else {
			hi = m
		}
	}
	return hi
}
