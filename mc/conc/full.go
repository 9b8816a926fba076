//go:build full

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func dt(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }

func solar(y int) func() string {
	return func() string {
		var out []string
		es := suriya.GenerateSolarYear(y)
		for _, e := range es {
			out = append(out, fmt.Sprintf("%v %s %s", e.GetDate().Unix(), e.String(), js(e)))
		}
		mine := append(es[:0:0], es...)
		keep("GenerateSolarYear", func() string { return js(mine) })
		for i := range es { // the caller may do what it likes with its own
			es[i] = nil
		}
		sort.Strings(out)
		return strings.Join(out, "\n")
	}
}

func next(from suriya.UposathaMoon, n int) func() string {
	return func() string {
		u := from
		var out []string
		for i := 0; i < n; i++ {
			u = u.NextUposatha()
			out = append(out, js(u))
			x := u
			keep("NextUposatha", func() string { return js(x) })
		}
		return strings.Join(out, "\n")
	}
}

func calDays(from, to time.Time) func() string {
	return func() string {
		ds := suriya.GetCalDays(from, to)
		s := js(ds)
		for i := range ds {
			for k := range ds[i].UposathaMoon {
				ds[i].UposathaMoon[k].Phase = "scribbled"
			}
			for k := range ds[i].AstroMoon {
				ds[i].AstroMoon[k].Phase = "scribbled"
			}
			for k := range ds[i].HalfMoon {
				ds[i].HalfMoon[k].Phase = "scribbled"
			}
			for k := range ds[i].MajorEvents {
				ds[i].MajorEvents[k].Summary = "scribbled"
			}
			ds[i].Date = ds[i].Date.AddDate(7, 0, 0)
		}
		keep("GetCalDays", func() string { return js(ds) })
		return s
	}
}

func astro(from, to time.Time) func() string {
	return func() string {
		ms := suriya.GetAstroMoons(from, to)
		s := js(ms)
		for i := range ms {
			ms[i] = suriya.AstroMoon{Phase: "scribbled"}
		}
		keep("GetAstroMoons", func() string { return js(ms) })
		return s
	}
}

func dayOps() string {
	var d suriya.CalDay
	u := suriya.UposathaMoon{Date: dt(2015, 7, 30), Phase: "full", U_Days: 15, LunarSeason: 2, S_Number: 10, S_Total: 10}
	a := suriya.AstroMoon{Date: dt(2015, 7, 31), Phase: "full"}
	m := suriya.MajorEvent{Date: dt(2015, 7, 30), Summary: "x"}
	u.AddToDay(&d)
	a.AddToDay(&d)
	m.AddToDay(&d)
	e := suriya.HalfMoon{Date: dt(2015, 8, 7), Phase: "waning"}
	out := suriya.AddHalfMoonDays([]suriya.CalDay{d})
	keep("AddHalfMoonDays", func() string { return js(out) + js(d) })
	return js(out) + d.String() + e.String()
}

func init() {
	kattika := suriya.UposathaMoon{Date: dt(2014, 11, 6), Phase: "full", S_Number: 8, S_Total: 8, U_Days: 15, M_Days: 29, LunarMonth: 12, LunarSeason: 3, LunarYear: 2557}
	jettha := suriya.UposathaMoon{Date: dt(2015, 7, 1), Phase: "full", S_Number: 8, S_Total: 10, U_Days: 15, M_Days: 29, LunarMonth: 8, LunarSeason: 2, LunarYear: 2558}
	kat := func(y int) suriya.UposathaMoon {
		u := kattika
		u.Date = suriya.CalculatePreviousKattika(y)
		u.LunarYear = y - 1 + 543
		return u
	}
	fullClasses = []class{
		{"solar years 1890-2060", 171, func(i int) func() string { return solar(1890 + i) }},
		{"solar years 640-840", 201, func(i int) func() string { return solar(640 + i) }},
		{"uposathas from Kattika before 1890-2060", 171, func(i int) func() string { return func() string { return next(kat(1890+i), 27)() } }},
		{"months of 1930-1934", 60, func(i int) func() string { return calDays(dt(1930, 1+i, 1), dt(1930, 2+i, 9)) }},
		{"years 1995-2020", 26, func(i int) func() string { return calDays(dt(1995+i, 1, 1), dt(1995+i, 12, 31)) }},
		{"astronomical moons of two years", 160, func(i int) func() string { return astro(dt(1895+i, 6, 1), dt(1897+i, 6, 1)) }},
		{"astronomical moons of some days", 400, func(i int) func() string { return astro(dt(2014, 1, 1+i*3), dt(2014, 1, 9+i*3)) }},
	}
	fullOps = []op{
		{"four uposathas from Kattika 2014", next(kattika, 4)},
		{"two uposathas from July 2015", next(jettha, 2)},
		{"solar year 2016", solar(2016)},
		{"solar year 2015", solar(2015)},
		{"solar year 1995", solar(1995)},
		{"days around Asalha 2016", calDays(dt(2016, 7, 1), dt(2016, 8, 3))},
		{"days around New Year 2015", calDays(dt(2014, 12, 20), dt(2015, 1, 12))},
		{"astronomical moons of 2015", astro(dt(2015, 1, 1), dt(2015, 12, 31))},
		{"astronomical moons 2003-2004", astro(dt(2003, 11, 1), dt(2004, 2, 1))},
		{"a day put together", dayOps},
		{"dates of 2015", dates(2015)},
	}
}
