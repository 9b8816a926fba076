// Command full decides the properties of the event calendar and the tools.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/ref"
)

const (
	lo = 639
	hi = 4000
)

var locals = []*time.Location{
	time.UTC,
	time.FixedZone("east", 7*3600),
	time.FixedZone("west", -11*3600),
	zone("America/Santiago"), // summer time, the clock changes at midnight
	zone("Asia/Beirut"),
	time.FixedZone("far east", 14*3600), // where noon UTC is another day
	zone("Pacific/Apia"),                // a whole day left out in 2011
}

func zone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

// setting is the environment a question is asked in.
type setting struct {
	zone int
	exc  bool
}

func (s setting) String() string {
	return fmt.Sprintf("local zone %v, official exceptions %v", locals[s.zone], s.exc)
}

func (s setting) apply() {
	time.Local = locals[s.zone]
	suriya.UseExceptions = s.exc
}

func reset() {
	time.Local = time.UTC
	suriya.UseExceptions = false
}

var settings = []setting{{0, false}, {1, false}, {2, false}, {3, false}, {4, false}, {5, false}, {6, false}, {0, true}, {2, true}, {4, true}}

var tables = map[bool]*ref.Table{}

func table(exc bool) *ref.Table {
	if tables[exc] == nil {
		tables[exc] = ref.NewTable(lo-1, hi+3, exc)
	}
	return tables[exc]
}

func civilDay(t time.Time) int {
	y, m, d := t.Date()
	return ref.Days(y, int(m), d)
}

func dstr(day int) string {
	y, m, d := ref.Civil(day)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

func yearOf(day int) int { y, _, _ := ref.Civil(day); return y }

func midnight(day int) time.Time {
	y, m, d := ref.Civil(day)
	return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
}

// stamp writes a day the way it must come out: midnight UTC of the day.
func stamp(t time.Time) string { return t.Format("2006-01-02T15:04:05.999999999Z07:00") }

// moonsFrom lists the model's uposathas of the lunar years that begin before
// the solar years from-1 to to+1.
func moonsFrom(exc bool, from, to int) (ms []ref.Moon) {
	t := table(exc)
	a, b := from-1, to+1
	if a < lo-1 {
		a = lo - 1
	}
	if b > hi+2 {
		b = hi + 2
	}
	for y := a; y <= b; y++ {
		ms = append(ms, t.Moons(y)...)
	}
	return
}

// firstFull is the full moon of Kattika before solar year y, as a caller who
// starts the succession there writes it.
func firstFull(exc bool, y int) suriya.UposathaMoon {
	return suriya.UposathaMoon{Date: midnight(table(exc).Kattika(y)), Phase: "full", S_Number: 8, S_Total: 8,
		U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: y - 1 + 543}
}

func toImpl(m ref.Moon) suriya.UposathaMoon {
	return suriya.UposathaMoon{Date: midnight(m.Day), Phase: m.Phase, Event: m.Event, S_Number: m.SNum, S_Total: m.STot,
		U_Days: m.UDays, M_Days: m.MDays, LunarMonth: m.Month, LunarSeason: m.Season, LunarYear: m.BE, HasAdhikavara: m.HasAv}
}

// the parts of an uposatha each property is about
func succession(u *suriya.UposathaMoon) string {
	return fmt.Sprintf("%s %s month %d of %d days, %d days after the last, extra day %v", stamp(u.Date), u.Phase, u.LunarMonth, u.M_Days, u.U_Days, u.HasAdhikavara)
}

func successionR(m ref.Moon) string {
	return fmt.Sprintf("%sT00:00:00Z %s month %d of %d days, %d days after the last, extra day %v", dstr(m.Day), m.Phase, m.Month, m.MDays, m.UDays, m.HasAv)
}

func seasonal(u *suriya.UposathaMoon) string {
	return fmt.Sprintf("%s: %d of %d in season %d of BE %d", u.Date.Format("2006-01-02"), u.S_Number, u.S_Total, u.LunarSeason, u.LunarYear)
}

func seasonalR(m ref.Moon) string {
	return fmt.Sprintf("%s: %d of %d in season %d of BE %d", dstr(m.Day), m.SNum, m.STot, m.Season, m.BE)
}

// listing splits what a solar year's listing contains.
type listing struct {
	us    []suriya.UposathaMoon
	hs    []suriya.HalfMoon
	ms    []suriya.MajorEvent
	other []string
}

func list(y int) (l listing) {
	for _, e := range suriya.GenerateSolarYear(y) {
		switch v := interface{}(e).(type) {
		case suriya.UposathaMoon:
			l.us = append(l.us, v)
		case *suriya.UposathaMoon:
			l.us = append(l.us, *v)
		case suriya.HalfMoon:
			l.hs = append(l.hs, v)
		case *suriya.HalfMoon:
			l.hs = append(l.hs, *v)
		case suriya.MajorEvent:
			l.ms = append(l.ms, v)
		case *suriya.MajorEvent:
			l.ms = append(l.ms, *v)
		default:
			l.other = append(l.other, fmt.Sprintf("%T %v", e, e))
		}
	}
	return
}

// sameBag compares two multisets of written out items.
func sameBag(in string, want, got []string) *fw.Fail {
	w, g := append([]string{}, want...), append([]string{}, got...)
	sort.Strings(w)
	sort.Strings(g)
	i, j := 0, 0
	var missing, extra []string
	for i < len(w) || j < len(g) {
		switch {
		case j == len(g) || i < len(w) && w[i] < g[j]:
			missing = append(missing, w[i])
			i++
		case i == len(w) || g[j] < w[i]:
			extra = append(extra, g[j])
			j++
		default:
			i++
			j++
		}
	}
	if len(missing)+len(extra) == 0 {
		return nil
	}
	return fw.Failf(in, fmt.Sprintf("%d items, among them: %s", len(w), few(missing)), fmt.Sprintf("%d items; of those missing: %d; too much: %s", len(g), len(missing), few(extra)))
}

func few(s []string) string {
	if len(s) > 6 {
		return strings.Join(s[:6], " | ") + fmt.Sprintf(" | and %d more", len(s)-6)
	}
	return strings.Join(s, " | ")
}

// major events as the model has them
type major struct {
	Day     int
	Summary string
}

var majorNames = map[string][]major{
	"magha":    {{0, "Māgha Pūjā"}},
	"vesakha":  {{0, "Vesākha Pūjā"}},
	"asalha":   {{0, "Āsāḷha Pūjā"}, {1, "First day of Vassa"}},
	"pavarana": {{0, "Pavāraṇā Day"}, {0, "Last day of Vassa"}},
}

func majorsOf(m ref.Moon) (out []major) {
	for _, x := range majorNames[m.Event] {
		out = append(out, major{m.Day + x.Day, x.Summary})
	}
	return
}

// the almanac, read from the repository's files by ourselves
type astro struct {
	T     time.Time
	Phase string
}

var almanacCache map[int][]astro

func almanac(c *fw.Ctx) map[int][]astro {
	if almanacCache != nil {
		return almanacCache
	}
	names := []string{"new", "waxing", "full", "waning"}
	out := map[int][]astro{}
	fs, _ := filepath.Glob(filepath.Join(c.Repo, "data", "astro", "astro-*.json"))
	if len(fs) < 100 {
		panic(fw.HarnessError("no almanac files"))
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		var d struct {
			Success  bool
			Error    *struct{ Code string }
			Response []struct {
				DateTimeISO string
				Code        int
			}
		}
		if err := json.Unmarshal(b, &d); err != nil {
			panic(fw.HarnessError(f + ": " + err.Error()))
		}
		var y int
		if _, err := fmt.Sscanf(filepath.Base(f), "astro-%d.json", &y); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
		if !d.Success || d.Error != nil && d.Error.Code != "" {
			continue
		}
		for _, m := range d.Response {
			t, err := time.Parse(time.RFC3339, m.DateTimeISO)
			if err != nil {
				panic(fw.HarnessError(err.Error()))
			}
			t = t.UTC()
			if t.Year() != y {
				panic(fw.HarnessError("an almanac moon outside its year's file: " + f))
			}
			out[y] = append(out[y], astro{t, names[m.Code]})
		}
	}
	almanacCache = out
	return out
}

func allMoons(c *fw.Ctx) (ms []astro) {
	a := almanac(c)
	var ys []int
	for y := range a {
		ys = append(ys, y)
	}
	sort.Ints(ys)
	for _, y := range ys {
		ms = append(ms, a[y]...)
	}
	return
}

// dump writes everything a value holds (the package's own texts leave out most).
func dump(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// decoy puts an almanac of other moons where a program that looks for local
// files would find it: what is embedded must be used.
func decoy(c *fw.Ctx, dir string) {
	d := filepath.Join(dir, "data", "astro")
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(fw.HarnessError(err.Error()))
	}
	fs, _ := filepath.Glob(filepath.Join(c.Repo, "data", "astro", "astro-*.json"))
	for _, f := range fs {
		y := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(f), "astro-"), ".json")
		text := fmt.Sprintf(`{"success":true,"error":null,"response":[{"timestamp":0,"dateTimeISO":"%s-05-05T05:05:05+00:00","code":1,"name":"first quarter"}]}`, y)
		if err := os.WriteFile(filepath.Join(d, filepath.Base(f)), []byte(text), 0644); err != nil {
			panic(fw.HarnessError(err.Error()))
		}
	}
	if err := os.Chdir(dir); err != nil {
		panic(fw.HarnessError(err.Error()))
	}
}
