package main

import (
	"fmt"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/ref"
)

func span(c *fw.Ctx, q, t int) int {
	if c.Thorough {
		return t
	}
	return q
}

// zones are the reckonings of a day asked about: where the calendar is kept,
// and to both ends of the earth.
var zones = []*time.Location{time.FixedZone("+07", 7*3600), time.FixedZone("-11", -11*3600), time.FixedZone("+14", 14*3600)}

func dateIn(day int, z *time.Location) time.Time {
	d := midnight(day)
	return time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, z)
}

// eachMoon walks the succession: from the Kattika full moon before every year
// through several lunar years, and from every single state by itself.
func eachMoon(c *fw.Ctx, got func(*suriya.UposathaMoon) string, want func(ref.Moon) string) {
	walk := span(c, 12, 100)
	for _, s := range settings {
		s := s
		tab := table(s.exc)
		c.Enum("succession, "+s.String(), hi-lo+1, func(i int) *fw.Fail {
			s.apply()
			defer reset()
			y := lo + i
			u := firstFull(s.exc, y)
			n := 0
			for z := y; z < y+walk && z <= hi; z++ {
				for _, m := range tab.Moons(z) {
					u = u.NextUposatha()
					n++
					if w, g := want(m), got(&u); w != g {
						return fw.Failf(fmt.Sprintf("uposatha %d after the Kattika full moon before %d (%v)", n, y, s), w, g)
					}
					c.Steps(1)
				}
			}
			// the last state is the Kattika full moon the next walk begins with
			if g := civilDay(u.Date); g != tab.Kattika(min(y+walk, hi+1)) {
				return fw.Failf(fmt.Sprintf("end of the lunar year %d (%v)", y, s), dstr(tab.Kattika(y+walk)), dstr(g))
			}
			c.Traces(1)
			return nil
		})
		c.Enum("from every state, "+s.String(), hi-lo+1, func(i int) *fw.Fail {
			s.apply()
			defer reset()
			y := lo + i
			prev := tab.Moons(y - 1)
			last := prev[len(prev)-1]
			for _, m := range tab.Moons(y) {
				u := toImpl(last)
				before := dump(u)
				v := u.NextUposatha()
				if dump(u) != before {
					return fw.Failf("the uposatha asked for its successor ("+successionR(last)+")", before, dump(u))
				}
				if w, g := want(m), got(&v); w != g {
					return fw.Failf(fmt.Sprintf("successor of %s (%v)", successionR(last), s), w, g)
				}
				// asked of a value with a time of day: nothing but the time moves along
				u.Date = u.Date.Add(9*time.Hour + 59*time.Minute)
				v = u.NextUposatha()
				if v.Date.Sub(u.Date) != time.Duration(m.UDays)*24*time.Hour {
					return fw.Failf(fmt.Sprintf("successor of %s at 09:59 (%v)", successionR(last), s), m.UDays, v.Date.Sub(u.Date))
				}
				v.Date = midnight(m.Day)
				if w, g := want(m), got(&v); w != g {
					return fw.Failf(fmt.Sprintf("successor of %s at 09:59 (%v)", successionR(last), s), w, g)
				}
				// asked of the same day as another zone reckons it
				z := zones[(y+m.Month)%len(zones)]
				u.Date = dateIn(last.Day, z)
				v = u.NextUposatha()
				if !v.Date.Equal(u.Date.AddDate(0, 0, m.UDays)) || v.U_Days != m.UDays {
					return fw.Failf(fmt.Sprintf("successor of %s in %v (%v)", successionR(last), u.Date.Location(), s), u.Date.AddDate(0, 0, m.UDays), v.Date)
				}
				v.Date = midnight(m.Day)
				if w, g := want(m), got(&v); w != g {
					return fw.Failf(fmt.Sprintf("successor of %s in %v (%v)", successionR(last), u.Date.Location(), s), w, g)
				}
				c.States(1)
				c.Steps(3)
				c.Traces(1)
				if y%700 == 563 && m.Month == 8 {
					c.Sample("%s", successionR(m))
				}
				last = m
			}
			return nil
		})
	}
	ownTables(c, "succession", func(in string, y int) *fw.Fail {
		u := firstFull(true, y-1)
		for z := y - 1; z <= y+3; z++ {
			for _, m := range table(true).Moons(z) {
				u = u.NextUposatha()
				if w, g := want(m), got(&u); w != g {
					return fw.Failf(fmt.Sprintf("succession from Kattika before %d, %s", y-1, in), w, g)
				}
				c.Steps(1)
			}
		}
		c.Traces(1)
		return nil
	})
}

// ownTables runs f under tables of exceptions that a user could give: one or two
// entries around every year of two centuries.
func ownTables(c *fw.Ctx, what string, f func(in string, y int) *fw.Fail) {
	first, last := 1900, 2100
	if c.Thorough {
		first, last = 1000, 3000
	}
	c.Enum(what+" under exceptions of one's own", last-first+1, func(i int) *fw.Fail {
		y := first + i
		old := tables[true]
		defer func() {
			suriya.AdhikavaraExceptions = ref.Official()
			ref.Exceptions = ref.Official()
			tables[true] = old
			reset()
		}()
		for v := 0; v < 6; v++ {
			tab := map[int]bool{y: v&1 != 0}
			if v >= 2 {
				tab[y+1] = v&2 == 0
			}
			if v&1 != 0 && ref.Am(y) || tab[y+1] && ref.Am(y+1) {
				continue // an extra month and an extra day exclude each other
			}
			suriya.AdhikavaraExceptions = tab
			suriya.UseExceptions = true
			ref.Exceptions = tab
			tables[true] = ref.NewTable(y-5, y+8, true)
			if f := f(fmt.Sprintf("own exceptions %v", tab), y); f != nil {
				return f
			}
		}
		return nil
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c15(c *fw.Ctx) {
	eachMoon(c, succession, successionR)
	// the same uposathas in the listings
	listed(c, func(y int, s setting, l *listing, ms []ref.Moon) *fw.Fail {
		var w, g []string
		for _, m := range ms {
			if yearOf(m.Day) == y {
				w = append(w, successionR(m))
			}
		}
		for i := range l.us {
			g = append(g, succession(&l.us[i]))
		}
		return sameBag(fmt.Sprintf("uposathas listed for %d (%v)", y, s), w, g)
	})
}

func c16(c *fw.Ctx) {
	eachMoon(c, seasonal, seasonalR)
	listed(c, func(y int, s setting, l *listing, ms []ref.Moon) *fw.Fail {
		var w, g []string
		for _, m := range ms {
			if yearOf(m.Day) == y {
				w = append(w, seasonalR(m))
			}
		}
		for i := range l.us {
			g = append(g, seasonal(&l.us[i]))
		}
		return sameBag(fmt.Sprintf("seasons of the uposathas listed for %d (%v)", y, s), w, g)
	})
}

// listed runs f on the listing of every solar year.
func listed(c *fw.Ctx, f func(y int, s setting, l *listing, ms []ref.Moon) *fw.Fail) {
	for _, s := range settings {
		s := s
		c.Enum("listings, "+s.String(), hi-lo+1, func(i int) *fw.Fail {
			s.apply()
			defer reset()
			y := lo + i
			l := list(y)
			c.Traces(1)
			return f(y, s, &l, moonsFrom(s.exc, y, y))
		})
	}
	ownTables(c, "listings", func(in string, y int) *fw.Fail {
		for z := y - 1; z <= y+3; z++ {
			l := list(z)
			c.Traces(1)
			if f := f(z, setting{0, true}, &l, moonsFrom(true, z, z)); f != nil {
				f.Input = in + ": " + f.Input
				return f
			}
		}
		return nil
	})
}

func c17(c *fw.Ctx) {
	listed(c, func(y int, s setting, l *listing, ms []ref.Moon) *fw.Fail {
		in := fmt.Sprintf("%d (%v)", y, s)
		if len(l.other) > 0 {
			return fw.Failf("listing of "+in, "uposathas, half moons and major events", few(l.other))
		}
		var wu, gu, wh, gh []string
		for _, m := range ms {
			if yearOf(m.Day) == y {
				wu = append(wu, dstr(m.Day)+"T00:00:00Z "+m.Phase)
				c.States(1)
			}
			if yearOf(m.Day+8) == y {
				p := "waning"
				if m.Phase == "new" {
					p = "waxing"
				}
				wh = append(wh, dstr(m.Day+8)+"T00:00:00Z "+p)
				c.States(1)
			}
		}
		for i := range l.us {
			u := &l.us[i]
			gu = append(gu, stamp(u.Date)+" "+u.Phase)
			if u.Status != 2 || u.Calendar != 0 {
				return fw.Failf(fmt.Sprintf("uposatha of %s in the listing of %s", stamp(u.Date), in), "confirmed, calendar 0", fmt.Sprint("status ", u.Status, ", calendar ", u.Calendar))
			}
			if d := u.GetDate(); !d.Equal(u.Date) || u.Date.Year() != y {
				return fw.Failf("an uposatha in the listing of "+in, fmt.Sprint("in ", y), fmt.Sprint(d, " ", u.Date))
			}
		}
		for i := range l.hs {
			h := &l.hs[i]
			gh = append(gh, stamp(h.Date)+" "+h.Phase)
			if d := h.GetDate(); !d.Equal(h.Date) || h.Date.Year() != y {
				return fw.Failf("a half moon in the listing of "+in, fmt.Sprint("in ", y), fmt.Sprint(d, " ", h.Date))
			}
		}
		if f := sameBag("uposathas listed for "+in, wu, gu); f != nil {
			return f
		}
		c.Steps(1)
		return sameBag("half moons listed for "+in, wh, gh)
	})
	// from one year's listing to the next nothing is lost, given twice or out of step
	for _, s := range settings {
		s := s
		c.Enum("successive listings, "+s.String(), hi-lo, func(i int) *fw.Fail {
			s.apply()
			defer reset()
			y := lo + i
			a, b := list(y), list(y+1)
			lastU, firstU := latest(a.us), earliest(b.us)
			if g := firstU - lastU; g != 14 && g != 15 {
				return fw.Failf(fmt.Sprintf("last uposatha of %d and first of %d (%v)", y, y+1, s), "14 or 15 days apart", g)
			}
			c.Steps(1)
			return nil
		})
	}
}

func latest(us []suriya.UposathaMoon) int {
	d := -1 << 40
	for _, u := range us {
		if x := civilDay(u.Date); x > d {
			d = x
		}
	}
	return d
}

func earliest(us []suriya.UposathaMoon) int {
	d := 1 << 40
	for _, u := range us {
		if x := civilDay(u.Date); x < d {
			d = x
		}
	}
	return d
}

func c18(c *fw.Ctx) {
	eachMoon(c, func(u *suriya.UposathaMoon) string { return stamp(u.Date) + " event " + u.Event },
		func(m ref.Moon) string { return dstr(m.Day) + "T00:00:00Z event " + m.Event })
	listed(c, func(y int, s setting, l *listing, ms []ref.Moon) *fw.Fail {
		in := fmt.Sprintf("major events listed for %d (%v)", y, s)
		var w, g []string
		for _, m := range ms {
			if yearOf(m.Day) != y {
				continue
			}
			for _, e := range majorsOf(m) {
				w = append(w, dstr(e.Day)+"T00:00:00Z "+e.Summary+" / "+e.Summary)
			}
		}
		for i := range l.ms {
			e := &l.ms[i]
			g = append(g, stamp(e.Date)+" "+e.Summary+" / "+e.Description)
			if e.Calendar != 0 || !e.GetDate().Equal(e.Date) || e.String() != e.Summary {
				return fw.Failf(in, "calendar 0, its own date and title", dump(*e))
			}
		}
		if f := sameBag(in, w, g); f != nil {
			return f
		}
		// once a year each, and where they must be with respect to each other
		day := map[string]int{}
		for i := range l.ms {
			day[l.ms[i].Summary] = civilDay(l.ms[i].Date)
		}
		if len(l.ms) != 6 || len(day) != 6 {
			return fw.Failf(in, "each of the six once", fmt.Sprint(day))
		}
		a := day["Āsāḷha Pūjā"]
		var su suriya.SuriyaYear
		su.Init(y)
		if ap := civilDay(su.AsalhaPuja()); ap != a {
			return fw.Failf(in+": Āsāḷha Pūjā", "on the date the year itself gives, "+dstr(ap), dstr(a))
		}
		if v := day["First day of Vassa"]; v != a+1 {
			return fw.Failf(in+": first day of Vassa", dstr(a+1), dstr(v))
		}
		if p := day["Pavāraṇā Day"]; p != a+30+29+30 {
			return fw.Failf(in+": Pavāraṇā", "three lunar months after Āsāḷha", dstr(p))
		}
		if day["Pavāraṇā Day"] != day["Last day of Vassa"] {
			return fw.Failf(in+": last day of Vassa", "on Pavāraṇā", dstr(day["Last day of Vassa"]))
		}
		if !(day["Māgha Pūjā"] < day["Vesākha Pūjā"] && day["Vesākha Pūjā"] < a) {
			return fw.Failf(in, "Māgha, Vesākha, Āsāḷha in order", fmt.Sprint(day))
		}
		c.States(6)
		c.Steps(1)
		if y%600 == 563 {
			c.Sample("%d: Māgha %s Vesākha %s Āsāḷha %s Pavāraṇā %s", y, dstr(day["Māgha Pūjā"]), dstr(day["Vesākha Pūjā"]), dstr(a), dstr(day["Pavāraṇā Day"]))
		}
		return nil
	})
}
