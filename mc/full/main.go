package main

import "verif/mc/fw"

func main() {
	if standIn() {
		return
	}
	bound := func(q, t string) func(bool) string {
		return func(th bool) string {
			if th {
				return t
			}
			return q
		}
	}
	same := func(s string) func(bool) string { return bound(s, s) }
	const mc = "model_checking"
	const years = "every lunar year CE 639-4000, under seven local zones and with the official exceptions, and 200 years under tables of exceptions of one's own; "
	fw.Main(map[string]*fw.Check{
		"C15": {Level: mc, Run: c15, Rule: "states: uposathas of the model under one setting; transitions: steps of the implementation from a state; traces: steps, walks and listings compared with the model",
			Bounds: bound(years+"walks of 12 lunar years from every Kattika, single steps from every state, all listings", years+"walks of 100 lunar years, single steps from every state, all listings")},
		"C16": {Level: mc, Run: c16, Rule: "as C15", Bounds: bound(years+"walks of 12 lunar years", years+"walks of 100 lunar years")},
		"C17": {Level: mc, Run: c17, Rule: "states: uposathas and half moons of the model under one setting; transitions: year to next year; traces: listings compared with the model", Bounds: bound(years+"listing of every solar year", years+"listing of every solar year")},
		"C18": {Level: mc, Run: c18, Rule: "states: major events under one setting; transitions: steps of the succession and listings; traces: compared with the model", Bounds: bound(years+"walks of 12 lunar years, all listings", years+"walks of 100 lunar years, all listings")},
		"C19": {Level: mc, Run: c19, Rule: "states: date ranges under one setting; transitions: calendar days in them; traces: ranges compared with the model",
			Bounds: bound("every pair of days in 25 windows of 60 days (10 of them under more zones and exceptions); whole years CE 639-4000; spans of 2 to 6 years 1895-2050; every single day 1895-2045 (thorough CE 639-4000); two turns of the year in any century; three ranges of 150 to 300 years; 2000 reversed ranges", "every pair of days in 25 windows of 160 days; whole years under every setting; spans of 2 to 13 years")},
		"C20": {Level: mc, Run: c20, Rule: "states: windows; transitions: moons in them; traces: windows compared with the almanac files",
			Bounds: bound("windows that end at, a nanosecond or a second beside every moon of the almanac (four zones); windows of up to 30 years 1885-2051, and of any length to 12,000 years", "as quick for every zone; windows of up to 160 years")},
		"C21": {Level: mc, Run: c21, Rule: "states: distinct model states of a day reached; transitions: operations; traces: operation sequences compared with the model",
			Bounds: bound("operation sequences up to length 5 over 16 operations, and all of three operations over and over to 72; all arrangements of 6 days", "operation sequences up to length 6; all arrangements of 7 days")},
		"C22": {Level: mc, Run: c22, Rule: "states: invocations with distinct arguments or environment; transitions: further runs of them; traces: outputs compared with the model",
			Assumptions: []string{"the command line package is a stand-in (the real one is not in this sandbox)"},
			Bounds:      bound("11 x 11 range ends around 13 years, four local zones, three states of the output file, 17 malformed dates, five ranges on six places that cannot be written, 354 file size limits; spellings of flags and paths; the turn of 11 years in six zones between any two readings of the clock", "the same around every year 1890-2060; the turn of every year 1903-2110")},
		"C23": {Level: mc, Run: c23, Rule: "as C22",
			Assumptions: []string{"the command line and ical packages are stand-ins (the real ones are not in this sandbox); the ical stand-in writes exactly the committed ical file"},
			Bounds:      bound("as C22", "as C22")},
		"C24": {Level: mc, Run: c24, Rule: "states: uposathas; transitions: ages computed by the implementation; traces: uposathas compared with the almanac",
			Assumptions: []string{"the almanac data in the repository"},
			Bounds:      bound("almanac: 1902-2032; age of the moon: CE 639-4000", "the same")},
		"C25": {Level: mc, Run: c25, Rule: "states: names and texts; transitions: years; traces: compared with the model", Bounds: bound("all names, all texts of the alphabet, all listings CE 639-4000", "the same")},
		"C26": {Level: mc, Run: c26, Rule: "states: rows; transitions: runs over their own output; traces: rows compared with the model", Bounds: same("all rows, six local zones, three states of the output file, places that cannot be written, 500 file size limits; both table functions CE 660-3960")},
		"C28": {Level: mc, Run: c28, Rule: "states: events made into iCalendar events; transitions: events of the listings; traces: iCalendar events compared with the model",
			Assumptions: []string{"the ical and uuid packages are stand-ins (the real ones are not in this sandbox)"},
			Bounds:      bound("every day of 1900-2060 in seven zones under seven local zones in turn, five kinds of event; all listings CE 639-4000", "every day of CE 639-4000 in seven zones under seven local zones in turn, five kinds of event; all listings CE 639-4000")},
		"C29": {Level: mc, Run: c29, Rule: "states: calendar days; transitions: writings and readings; traces: JSON compared with the model",
			Bounds: same("all 32,768 subsets of the fields of an uposatha; all combinations of parts of a day with up to 3 events of each kind; the calendars of CE 639-4000 (1890-2050 under the other settings)")},
		"C30": {Level: mc, Run: c30, Rule: "states: phases of the moon by the theory; transitions: moons of the almanac; traces: phases compared",
			Assumptions: []string{"the theory of the moon's motion (Meeus), good to 3 minutes"},
			Bounds:      same("every phase of the moon from 1902 to May 2033")},
		"C31": {Level: mc, Run: c31, Rule: "states: runs of the script; transitions: requests; traces: runs compared with what is claimed",
			Assumptions: []string{"curl, date and sleep are stand-ins that share a clock (nothing is fetched)"},
			Bounds:      bound("0 to 25 years at twelve patterns of speed and three places in a second; one slow request at each of 12 places among 24; each request of up to 12 failing", "0 to 62 years at twelve patterns of speed; the rest as quick")},
		"C32": {Level: mc, Run: c32, Rule: "states: years, days counts and angles by the thousand; transitions: answers; traces: runs of the 32 bit build compared with this one",
			Assumptions: []string{"a 386 build stands for 32 bit machines"},
			Bounds:      same("every year CE 638-4000 with its days 1-400 and its calendar, 2,000,000 day counts and 10,000 far ones (to 5·10^7), 2,000,000 angles, the almanac 1890-2049")},
		"C33": {Level: mc, Run: c33, Rule: "states: years, days counts and angles by the thousand; transitions: answers; traces: runs of the build with fused operations compared with this one",
			Assumptions: []string{"a build for amd64 v3 stands for arm64 and others that fuse operations"},
			Bounds:      same("every year CE 638-24000 with its days 1-400, to 4000 with its calendar, 2,000,000 day counts, 2,000,000 angles")},
		"C34": {Level: mc, Run: c34, Rule: "states: files and years; transitions: answers; traces: runs of the build with the file names of Windows compared with this one",
			Assumptions: []string{"a stand-in for path/filepath as it is on Windows; the rest of a build for Windows is compiled, not run"},
			Bounds:      same("all files of the almanac 1890-2049, calendars of every year CE 639-4000, 80 runs of the commands")},
		"C35": {Level: mc, Run: c35, Rule: "states: years with their answers; transitions: moons; traces: windows compared with the moons answered",
			Assumptions: []string{"an almanac generated with answers of all kinds, in the place of those of the repository"},
			Bounds:      bound("every sequence of four answers out of six kinds in consecutive years; windows of up to five years around each, and beside every moon; calendars of each sequence", "every sequence of five answers")},
	})
}
