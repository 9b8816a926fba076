package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	suriya "github.com/splendidmoons/suriya-go"

	"verif/mc/fw"
)

// ---------------------------------------------------------------- C35

// This program was built with an almanac that has, besides what the repository
// has, answers of every kind for the years from 2100 on (see mc/answers).
type answered struct {
	Year  int
	Kind  string
	Moons []struct {
		T     time.Time
		Phase string
	}
}

func c35(c *fw.Ctx) {
	var ys []answered
	b, err := os.ReadFile(os.Getenv("VERIF_ANSWERS"))
	if err != nil {
		c.Capped("nothing looked at: no answers could be put into the almanac")
		return
	}
	if err := json.Unmarshal(b, &ys); err != nil {
		panic(fw.HarnessError(err.Error()))
	}
	for _, y := range ys { // what is to be read is there
		name := fmt.Sprintf("/data/astro/astro-%d.json", y.Year)
		if _, err := suriya.FSByte(false, name); (err != nil) != (y.Kind == "absent") {
			c.Capped("nothing looked at: the answers put into the almanac are not found")
			return
		}
	}
	first, last := ys[0].Year, ys[len(ys)-1].Year
	kindsOf := func(from, to time.Time) (s string) {
		for y := from.UTC().Year(); y <= to.UTC().Year() && y <= from.UTC().Year()+5; y++ {
			k := "absent"
			if y >= first && y <= last {
				k = ys[y-first].Kind
			}
			s += ", " + k
		}
		if s == "" {
			return "none"
		}
		return s[2:]
	}
	ask := func(from, to time.Time) (fail *fw.Fail) {
		in := fmt.Sprintf("astronomical moons from %s to %s, the answers of these years: %s", stamp(from), stamp(to), kindsOf(from, to))
		defer func() {
			if r := recover(); r != nil {
				fail = fw.Failf(in, "moons", fmt.Sprint("panic: ", r))
			}
		}()
		var w []string
		for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
			if y < first || y > last {
				continue
			}
			for _, m := range ys[y-first].Moons {
				if !m.T.Before(from) && !m.T.After(to) {
					w = append(w, stamp(m.T)+" "+m.Phase)
				}
			}
		}
		var g []string
		for _, m := range suriya.GetAstroMoons(from, to) {
			g = append(g, stamp(m.Date)+" "+m.Phase)
		}
		for k := 0; k < len(w) || k < len(g); k++ {
			a, b := "no more", "no more"
			if k < len(w) {
				a = w[k]
			}
			if k < len(g) {
				b = g[k]
			}
			if a != b {
				return fw.Failf(fmt.Sprintf("%s: number %d", in, k), a, b)
			}
		}
		c.Steps(len(w))
		c.Traces(1)
		return nil
	}
	day := func(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC) }
	n := span(c, 4, 5)
	c.Enum("years together", len(ys)+2, func(i int) *fw.Fail {
		y := first - 1 + i
		for k := 0; k <= n+1; k++ {
			end := day(y+k, 12, 31).Add(24*time.Hour - 1)
			for _, r := range [][2]time.Time{{day(y, 1, 1), end}, {day(y, 6, 15), end}, {day(y, 1, 1), day(y+k, 6, 15)}, {day(y, 1, 1).Add(-time.Nanosecond), end.Add(time.Nanosecond)}} {
				if f := ask(r[0], r[1]); f != nil {
					return f
				}
			}
		}
		c.States(1)
		return nil
	})
	c.Enum("ends at a moon", len(ys), func(i int) *fw.Fail {
		for _, m := range ys[i].Moons {
			for _, d := range []time.Duration{-1, 0, 1} {
				for k := 0; k < n; k++ {
					t := m.T.Add(d)
					if f := ask(t, day(m.T.Year()+k, 12, 31).Add(24*time.Hour-1)); f != nil {
						return f
					}
					if f := ask(day(m.T.Year()-k, 1, 1), t); f != nil {
						return f
					}
				}
			}
		}
		return nil
	})
	c.Enum("the whole time", 1, func(int) *fw.Fail {
		return ask(day(2090, 1, 1), day(last+20, 1, 1))
	})
	c.Enum("in calendars", len(ys)-n+1, func(i int) *fw.Fail {
		from, to := day(first+i, 1, 1), day(first+i+n-1, 12, 31)
		in := fmt.Sprintf("astronomical moons in the calendar from %s to %s, the answers of these years: %s", stamp(from), stamp(to), kindsOf(from, to))
		want := map[string]string{}
		for _, y := range ys[i : i+n] {
			for _, m := range y.Moons {
				want[m.T.Format("2006-01-02")] = stamp(m.T) + " " + m.Phase
			}
		}
		for _, d := range suriya.GetCalDays(from, to) {
			k, g := d.Date.Format("2006-01-02"), ""
			if len(d.AstroMoon) > 0 {
				g = stamp(d.AstroMoon[0].Date) + " " + d.AstroMoon[0].Phase
			}
			if g != want[k] {
				return fw.Failf(in+": "+k, want[k], g)
			}
			delete(want, k)
			c.Steps(1)
		}
		if len(want) > 0 {
			return fw.Failf(in, fmt.Sprint("also ", want), "not there")
		}
		c.Traces(1)
		return nil
	})
	for _, y := range ys[:6] {
		c.Sample("%d: %s, %d moons", y.Year, y.Kind, len(y.Moons))
	}
}
