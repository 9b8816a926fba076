package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/soh335/ical"
	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/ref"
)

// ---------------------------------------------------------------- C28

// c28: calendar events as iCalendar events.
func c28(c *fw.Ctx) {
	phases := map[string]string{"new": "New", "full": "Full", "waxing": "Waxing", "waning": "Waning"}
	seasons := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}
	zones := []*time.Location{time.UTC, time.FixedZone("ICT", 7*3600), time.FixedZone("west", -11*3600), time.FixedZone("half", 5*3600+1800), time.FixedZone("far east", 14*3600)}
	// and two of the database; where the clock changes that day its end is not claimed
	for _, n := range []string{"Asia/Bangkok", "America/New_York"} {
		if l, err := time.LoadLocation(n); err == nil {
			zones = append(zones, l)
		}
	}
	seen := map[string]bool{}
	one := func(in string, e ical.VEvent, at time.Time, text string, before time.Time) *fw.Fail {
		after := time.Now()
		if !e.DTSTART.Equal(at) || e.DTSTART.Format("2006-01-02 -0700") != at.Format("2006-01-02 -0700") {
			return fw.Failf(in+": start", stamp(at), stamp(e.DTSTART))
		}
		if end := at.Add(24 * time.Hour); !e.DTEND.Equal(end) || e.DTEND.Format("2006-01-02 -0700") != end.Format("2006-01-02 -0700") {
			return fw.Failf(in+": end", stamp(end), stamp(e.DTEND))
		}
		if e.SUMMARY != text {
			return fw.Failf(in+": summary", text, e.SUMMARY)
		}
		if !e.AllDay {
			return fw.Failf(in, "for the whole day", "not")
		}
		if w := at.Location().String(); e.TZID != w && !(w == "UTC" && e.TZID == "") {
			return fw.Failf(in+": zone", w, e.TZID)
		}
		if e.DTSTAMP.Before(before.Add(-time.Second)) || e.DTSTAMP.After(after.Add(time.Second)) {
			return fw.Failf(in+": stamp", before, e.DTSTAMP)
		}
		if e.UID == "" || seen[e.UID] {
			return fw.Failf(in, "an identifier of its own", fmt.Sprintf("%q again", e.UID))
		}
		seen[e.UID] = true
		var b bytes.Buffer
		if err := e.EncodeIcal(&b); err != nil {
			return fw.Failf(in+", written", "no error", err)
		}
		for _, l := range []string{"SUMMARY:" + text + "\r\n", at.Format("VALUE=DATE:20060102\r\n"), at.Add(24 * time.Hour).Format("VALUE=DATE:20060102\r\n")} {
			if !strings.Contains(b.String(), l) {
				return fw.Failf(in+", written", l, b.String())
			}
		}
		c.States(1)
		c.Traces(1)
		return nil
	}
	hours := []time.Duration{0, 10*time.Hour + 43*time.Minute + 21*time.Second, 24*time.Hour - 1}
	first, last := ref.Days(1900, 1, 1), ref.Days(2060, 12, 31)
	if c.Thorough {
		first, last = ref.Days(639, 1, 1), ref.Days(4000, 12, 31)
	}
	c.Enum("every day", last-first+1, func(i int) *fw.Fail {
		time.Local = locals[i%len(locals)]
		defer reset()
		y, m, d := ref.Civil(first + i)
		for k, z := range zones {
			at := time.Date(y, time.Month(m), d, 0, 0, 0, 0, z).Add(hours[(i+k)%3])
			if !at.AddDate(0, 0, 1).Equal(at.Add(24 * time.Hour)) {
				continue
			}
			before := time.Now()
			p := []string{"new", "full"}[i%2]
			u := suriya.UposathaMoon{Date: at, Phase: p, U_Days: 14 + i%2, S_Number: 1 + i%10, S_Total: 8 + i%3*2%4, LunarSeason: 1 + i%3, Status: 2}
			if f := one(fmt.Sprintf("%s uposatha of %s", p, stamp(at)), u.IcalEvent(), at, fmt.Sprintf("%s Moon - %d day %s %d/%d", phases[p], u.U_Days, seasons[u.LunarSeason], u.S_Number, u.S_Total), before); f != nil {
				return f
			}
			p = []string{"waxing", "waning"}[i%2]
			h := suriya.HalfMoon{Date: at, Phase: p}
			if f := one(fmt.Sprintf("%s half moon of %s", p, stamp(at)), h.IcalEvent(), at, phases[p]+" Moon", before); f != nil {
				return f
			}
			p = []string{"new", "waxing", "full", "waning"}[i%4]
			a := suriya.AstroMoon{Date: at, Phase: p}
			if f := one(fmt.Sprintf("%s astronomical moon of %s", p, stamp(at)), a.IcalEvent(), at, phases[p]+" Moon", before); f != nil {
				return f
			}
			t := []string{"Māgha Pūjā", "First day of Vassa", "Kaṭhina at 10", ""}[i%4]
			me := suriya.MajorEvent{Date: at, Summary: t, Description: "about " + t}
			if f := one(fmt.Sprintf("major event %q of %s", t, stamp(at)), me.IcalEvent(), at, t, before); f != nil {
				return f
			}
			ev := suriya.Event{Date: at, Summary: t, Calendar: i % 4}
			if f := one(fmt.Sprintf("event %q of %s", t, stamp(at)), ev.IcalEvent(), at, t, before); f != nil {
				return f
			}
		}
		if i%5000 == 77 {
			c.Sample("%04d-%02d-%02d in %d zones, five kinds of event", y, m, d, len(zones))
		}
		return nil
	})
	// what the calendar itself produces
	c.Enum("listings", hi-lo+1, func(i int) *fw.Fail {
		y := lo + i
		before := time.Now()
		var w, g []string
		for _, m := range moonsFrom(false, y, y) {
			name := strings.Title(m.Phase)
			half := map[string]string{"new": "Waxing", "full": "Waning"}[m.Phase]
			if yearOf(m.Day) == y {
				w = append(w, fmt.Sprintf("%s to %s %s Moon - %d day %s %d/%d", dstr(m.Day), dstr(m.Day+1), name, m.UDays, seasons[m.Season], m.SNum, m.STot))
				for _, e := range majorsOf(m) {
					w = append(w, fmt.Sprintf("%s to %s %s", dstr(e.Day), dstr(e.Day+1), e.Summary))
				}
			}
			if yearOf(m.Day+8) == y {
				w = append(w, fmt.Sprintf("%s to %s %s Moon", dstr(m.Day+8), dstr(m.Day+9), half))
			}
		}
		for _, e := range suriya.GenerateSolarYear(y) {
			x, ok := e.(interface{ IcalEvent() ical.VEvent })
			if !ok {
				return fw.Failf(fmt.Sprintf("%T in the listing of %d", e, y), "an iCalendar event can be made of it", "not")
			}
			v := x.IcalEvent()
			if f := one(fmt.Sprintf("%v in the listing of %d", e, y), v, e.GetDate(), e.String(), before); f != nil {
				return f
			}
			g = append(g, fmt.Sprintf("%s to %s %s", v.DTSTART.Format("2006-01-02"), v.DTEND.Format("2006-01-02"), v.SUMMARY))
		}
		c.Steps(len(g))
		return sameBag(fmt.Sprintf("iCalendar events of %d", y), w, g)
	})
}

// ---------------------------------------------------------------- C29

// generic is JSON as data, compared field by field.
func generic(text []byte) (interface{}, error) {
	var v interface{}
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	err := dec.Decode(&v)
	return v, err
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	g, err := generic(b)
	if err != nil {
		return err.Error()
	}
	b, _ = json.Marshal(g)
	return string(b)
}

type obj = map[string]interface{}

func jsonTime(t time.Time) string { return t.Format(time.RFC3339Nano) }

func uObj(u suriya.UposathaMoon) obj {
	return obj{"Date": jsonTime(u.Date), "Calendar": u.Calendar, "Status": u.Status, "Phase": u.Phase, "Event": u.Event, "S_Number": u.S_Number, "S_Total": u.S_Total, "U_Days": u.U_Days,
		"M_Days": u.M_Days, "LunarMonth": u.LunarMonth, "LunarSeason": u.LunarSeason, "LunarYear": u.LunarYear, "HasAdhikavara": u.HasAdhikavara, "Source": u.Source, "Comments": u.Comments}
}
func hObj(h suriya.HalfMoon) obj  { return obj{"Date": jsonTime(h.Date), "Phase": h.Phase} }
func aObj(a suriya.AstroMoon) obj { return obj{"Date": jsonTime(a.Date), "Phase": a.Phase} }
func eObj(e suriya.Event) obj {
	return obj{"Date": jsonTime(e.Date), "Calendar": e.Calendar, "Summary": e.Summary, "Description": e.Description}
}

func dObj(d suriya.CalDay) obj {
	o := obj{"Date": jsonTime(d.Date)}
	var l []obj
	for _, u := range d.UposathaMoon {
		l = append(l, uObj(u))
	}
	if l != nil {
		o["UposathaMoon"] = l
	}
	l = nil
	for _, u := range d.HalfMoon {
		l = append(l, hObj(u))
	}
	if l != nil {
		o["HalfMoon"] = l
	}
	l = nil
	for _, u := range d.AstroMoon {
		l = append(l, aObj(u))
	}
	if l != nil {
		o["AstroMoon"] = l
	}
	l = nil
	for _, u := range d.MajorEvents {
		l = append(l, eObj(suriya.Event(u)))
	}
	if l != nil {
		o["MajorEvents"] = l
	}
	l = nil
	for _, u := range d.Events {
		l = append(l, eObj(u))
	}
	if l != nil {
		o["Events"] = l
	}
	return o
}

// c29: calendar days as JSON, there and back.
func c29(c *fw.Ctx) {
	both := func(in string, d suriya.CalDay) *fw.Fail {
		b, err := json.Marshal(d)
		if err != nil {
			return fw.Failf(in, "JSON", err)
		}
		g, err := generic(b)
		if err != nil {
			return fw.Failf(in, "JSON", err)
		}
		gs, _ := json.Marshal(g)
		if w := canon(dObj(d)); w != string(gs) {
			return fw.Failf(in+" as JSON", w, string(gs))
		}
		var back suriya.CalDay
		if err := json.Unmarshal(b, &back); err != nil {
			return fw.Failf(in+" read back", "the same day", err)
		}
		if w, g := canon(dObj(d)), canon(dObj(back)); w != g {
			return fw.Failf(in+" read back", w, g)
		}
		// by pointer and inside a list it is the same
		b2, err := json.Marshal([]*suriya.CalDay{&d})
		if err != nil || string(b2) != "["+string(b)+"]" {
			return fw.Failf(in+" in a list", "["+string(b)+"]", fmt.Sprint(string(b2), err))
		}
		c.States(1)
		c.Steps(2)
		c.Traces(1)
		return nil
	}
	at := []time.Time{time.Date(2015, 7, 30, 0, 0, 0, 0, time.UTC), time.Date(2015, 7, 31, 10, 43, 21, 0, time.UTC), time.Date(640, 1, 2, 23, 59, 59, 999999999, time.UTC), time.Date(2012, 2, 29, 6, 0, 0, 0, time.FixedZone("", 7*3600)), {}}
	texts := []string{"", "Āsāḷha Pūjā", "a \"quote\", <b> & \\ \n tab\t", "\u2028 ก"}
	c.Enum("fields of an uposatha", 1<<15, func(i int) *fw.Fail {
		var u suriya.UposathaMoon
		on := func(k int) bool { return i>>uint(k)&1 == 1 }
		set := func(k int, p *int, v int) {
			if on(k) {
				*p = v
			}
		}
		if on(0) {
			u.Date = at[i/7%4]
		}
		set(1, &u.Calendar, 3)
		set(2, &u.Status, 2)
		if on(3) {
			u.Phase = "full"
		}
		if on(4) {
			u.Event = "asalha"
		}
		set(5, &u.S_Number, 9)
		set(6, &u.S_Total, 10)
		set(7, &u.U_Days, 14)
		set(8, &u.M_Days, 29)
		set(9, &u.LunarMonth, 13)
		set(10, &u.LunarSeason, -1)
		set(11, &u.LunarYear, 2558)
		u.HasAdhikavara = on(12)
		if on(13) {
			u.Source = texts[1+i/5%3]
		}
		if on(14) {
			u.Comments = texts[1+i/3%3]
		}
		d := suriya.CalDay{Date: at[i%5]}
		d.SetUposathaMoon(u)
		return both(fmt.Sprintf("an uposatha with fields %015b", i), d)
	})
	c.Enum("parts of a day", 5*5*3*3*3*4*4*4, func(i int) *fw.Fail {
		d := suriya.CalDay{Date: at[i%5]}
		t := at[i/5%5]
		n := i / 25
		if n%3 > 0 {
			d.SetUposathaMoon(suriya.UposathaMoon{Date: t, Phase: []string{"new", "full"}[n%3-1]})
		}
		if n /= 3; n%3 > 0 {
			d.SetHalfMoon(suriya.HalfMoon{Date: t, Phase: []string{"waxing", "waning"}[n%3-1]})
		}
		if n /= 3; n%3 > 0 {
			d.SetAstroMoon(suriya.AstroMoon{Date: t, Phase: []string{"new", ""}[n%3-1]})
		}
		n /= 3
		for k := 0; k < n%4; k++ {
			e := suriya.MajorEvent{Date: d.Date, Summary: texts[k], Description: texts[(k+i)%4], Calendar: k}
			e.AddToDay(&d)
		}
		n /= 4
		for k := 0; k < n%4; k++ {
			e := suriya.Event{Date: d.Date, Summary: texts[(k+1)%4], Description: texts[(k+n)%4], Calendar: k}
			e.AddToDay(&d)
		}
		return both(fmt.Sprintf("day %d", i), d)
	})
	for _, s := range settings {
		s := s
		first, last := 1890, 2050
		if s == (setting{}) {
			first, last = lo, hi
		}
		c.EnumFine("calendars of whole years, "+s.String(), last-first+1, func(i int) *fw.Fail {
			s.apply()
			defer reset()
			y := first + i
			days := suriya.GetCalDays(midnight(ref.Days(y, 1, 1)), midnight(ref.Days(y, 12, 31)))
			for _, d := range days {
				if f := both(fmt.Sprintf("%s (%v)", stamp(d.Date), s), d); f != nil {
					return f
				}
			}
			// the calendar as a whole
			b, err := json.Marshal(map[string][]suriya.CalDay{"x": days})
			if err != nil {
				return fw.Failf(fmt.Sprint("calendar of ", y), "JSON", err)
			}
			var back map[string][]suriya.CalDay
			if err := json.Unmarshal(b, &back); err != nil {
				return fw.Failf(fmt.Sprint("calendar of ", y, " read back"), "the same", err)
			}
			b2, _ := json.Marshal(back)
			if !bytes.Equal(b, b2) {
				return fw.Failf(fmt.Sprint("calendar of ", y, " read back and written again"), "the same text", "another")
			}
			if i%400 == 7 && len(days) > 9 {
				c.Sample("%.300s", dump(days[9]))
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------- C30

// c30: the almanac against the theory of the moon's motion.
func c30(c *fw.Ctx) {
	const tolerance = 180 // seconds; the theory leaves out terms of up to 30 s
	names := []string{"new", "waxing", "full", "waning"}
	at := func(s float64) time.Time { return time.Unix(int64(math.Floor(s)), 0).UTC() }
	// the phases of 1902 to 18 May 2033, where the almanac ends
	from, to := time.Date(1902, 1, 1, 12, 0, 0, 0, time.UTC), time.Date(2033, 5, 21, 0, 0, 0, 0, time.UTC)
	var qs []int
	q := -5000
	for ; at(ref.Phase(q)).Before(from); q++ {
	}
	for ; at(ref.Phase(q)).Before(to); q++ {
		qs = append(qs, q)
	}
	if len(qs) < 6400 {
		panic(fw.HarnessError(fmt.Sprint("phases: ", len(qs))))
	}
	c.Enum("phases of the moon", len(qs), func(i int) *fw.Fail {
		t := ref.Phase(qs[i])
		p := names[ref.FMod(qs[i], 4)]
		in := fmt.Sprintf("the %s moon of %s", p, at(t).Format("2006-01-02"))
		got := suriya.GetAstroMoons(at(t-3*86400), at(t+3*86400))
		c.States(1)
		if len(got) == 0 {
			if c.Known(in) || at(t).Year() == 1970 && c.Known("the moons of 1970") {
				return nil
			}
			return fw.Failf(in, "in the almanac", "not there")
		}
		if len(got) > 1 {
			return fw.Failf(in, "once in the almanac", dump(got))
		}
		if got[0].Phase != p {
			return fw.Failf(in, p, got[0].Phase)
		}
		e := float64(got[0].Date.Unix()) - t
		if e > tolerance || e < -tolerance {
			return fw.Failf(in, at(t), got[0].Date)
		}
		c.Traces(1)
		if i%900 == 9 {
			c.Sample("%s: almanac %s, theory %+.0f s", in, stamp(got[0].Date), -e)
		}
		return nil
	})
	c.Enum("moons of the almanac", 2040-1890, func(i int) *fw.Fail {
		y := 1890 + i
		ms := suriya.GetAstroMoons(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 23, 59, 59, 999999999, time.UTC))
		for k, m := range ms {
			j := sort.Search(len(qs), func(j int) bool { return ref.Phase(qs[j]) > float64(m.Date.Unix())-86400 })
			if j == len(qs) || math.Abs(ref.Phase(qs[j])-float64(m.Date.Unix())) > tolerance {
				return fw.Failf(fmt.Sprintf("almanac of %d: %s %s", y, m.Phase, stamp(m.Date)), "a phase of the moon", "none at that time")
			}
			if k > 0 && !ms[k-1].Date.Before(m.Date) {
				return fw.Failf(fmt.Sprintf("almanac of %d", y), "in order", stamp(ms[k-1].Date)+" before "+stamp(m.Date))
			}
			c.Steps(1)
		}
		return nil
	})
}
