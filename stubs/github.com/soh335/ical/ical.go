// Package ical is an offline stand-in for github.com/soh335/ical, which cannot
// be fetched in this sandbox.  It has the same exported types, fields and
// methods and writes the same text as the original (bound to it by the
// .ical file committed in the repository's suriya/testdata, which the check of
// the ical command compares against).
package ical

import (
	"io"
	"time"
)

const (
	stampLayout    = "20060102T150405Z"
	dateLayout     = "20060102"
	dateTimeLayout = "20060102T150405"
)

type VComponent interface {
	EncodeIcal(w io.Writer) error
}

type VCalendar struct {
	VERSION          string
	PRODID           string
	URL              string
	NAME             string
	X_WR_CALNAME     string
	DESCRIPTION      string
	X_WR_CALDESC     string
	TIMEZONE_ID      string
	X_WR_TIMEZONE    string
	REFRESH_INTERVAL string
	X_PUBLISHED_TTL  string
	COLOR            string
	CALSCALE         string
	METHOD           string
	VComponent       []VComponent
}

func NewBasicVCalendar() *VCalendar {
	return &VCalendar{VERSION: "2.0", CALSCALE: "GREGORIAN"}
}

func (c *VCalendar) Encode(w io.Writer) error {
	out := &writer{w: w}
	out.line("BEGIN", ":", "VCALENDAR")
	out.line("VERSION", ":", c.VERSION)
	for _, kv := range [][3]string{
		{"PRODID", ":", c.PRODID},
		{"URL", ":", c.URL},
		{"NAME", ":", c.NAME},
		{"X-WR-CALNAME", ":", c.X_WR_CALNAME},
		{"DESCRIPTION", ":", c.DESCRIPTION},
		{"X-WR-CALDESC", ":", c.X_WR_CALDESC},
		{"TIMEZONE-ID", ":", c.TIMEZONE_ID},
		{"X-WR-TIMEZONE", ":", c.X_WR_TIMEZONE},
		{"REFRESH-INTERVAL", ";VALUE=DURATION:", c.REFRESH_INTERVAL},
		{"X-PUBLISHED-TTL", ":", c.X_PUBLISHED_TTL},
		{"COLOR", ":", c.COLOR},
		{"CALSCALE", ":", c.CALSCALE},
		{"METHOD", ":", c.METHOD},
	} {
		if kv[2] != "" {
			out.line(kv[0], kv[1], kv[2])
		}
	}
	for _, comp := range c.VComponent {
		if out.err != nil {
			return out.err
		}
		if err := comp.EncodeIcal(w); err != nil {
			return err
		}
	}
	out.line("END", ":", "VCALENDAR")
	return out.err
}

type VEvent struct {
	UID         string
	DTSTAMP     time.Time
	DTSTART     time.Time
	DTEND       time.Time
	SUMMARY     string
	DESCRIPTION string
	TZID        string
	AllDay      bool
}

func (e *VEvent) EncodeIcal(w io.Writer) error {
	layout, format := dateTimeLayout, ""
	if e.AllDay {
		layout, format = dateLayout, "VALUE=DATE"
	} else {
		layout = dateTimeLayout
		if e.TZID == "" || e.TZID == "UTC" {
			layout += "Z"
		}
	}
	prop := func(name string) string {
		s := name
		if e.TZID != "" && e.TZID != "UTC" {
			s += ";TZID=" + e.TZID
		}
		if format != "" {
			s += ";" + format
		}
		return s
	}
	out := &writer{w: w}
	out.line("BEGIN", ":", "VEVENT")
	out.line("DTSTAMP", ":", e.DTSTAMP.UTC().Format(stampLayout))
	out.line("UID", ":", e.UID)
	if e.TZID != "" && e.TZID != "UTC" {
		out.line("TZID", ":", e.TZID)
	}
	out.line("SUMMARY", ":", e.SUMMARY)
	if e.DESCRIPTION != "" {
		out.line("DESCRIPTION", ":", e.DESCRIPTION)
	}
	out.line(prop("DTSTART"), ":", e.DTSTART.Format(layout))
	out.line(prop("DTEND"), ":", e.DTEND.Format(layout))
	out.line("END", ":", "VEVENT")
	return out.err
}

type writer struct {
	w   io.Writer
	err error
}

func (o *writer) line(name, sep, value string) {
	if o.err == nil {
		_, o.err = io.WriteString(o.w, name+sep+value+"\r\n")
	}
}
