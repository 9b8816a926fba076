package main

import "verif/mc/fw"

func main() {
	bound := func(q, t string) func(bool) string {
		return func(th bool) string {
			if th {
				return t
			}
			return q
		}
	}
	const mc = "model_checking"
	same := func(s string) func(bool) string { return bound(s, s) }
	fw.Main(map[string]*fw.Check{
		"C01": {Level: mc, Run: c01, Rule: "states: years, each a distinct state (kammacubala, avoman, tithi) of the model's single closed cycle; transitions: year to next year and year to year+800, on the implementation; traces: model years compared with the implementation",
			Bounds: bound("66,432,000 years from CE 638: four turns of all 16,608,000 states of (kammacubala, avoman, tithi), every uccabala with it; 27,000 years beyond, to 2^33, near powers of two and ten", "265,728,000 years; 27,000 years beyond, to 2^33, near powers of two and ten")},
		"C02": {Level: mc, Run: c02, Rule: "states: years, one per reachable state of the calendar machine; transitions: each year with its successors; traces: verdicts compared with the model",
			Bounds: same("all 16,608,000 states from CE 639; 27,000 years beyond, to 2^33, near powers of two and ten; reused values for 4000 years")},
		"C03": {Level: mc, Run: c03, Rule: "as C02", Bounds: same("all 16,608,000 states from CE 639, 27,000 years beyond, to 2^33, near powers of two and ten, no exceptions in use")},
		"C04": {Level: mc, Run: c04, Rule: "as C02", Bounds: bound("all 16,608,000 years from CE 660 and 27,000 years beyond, to 2^33, near powers of two and ten; exceptions in use: CE 660-4000", "all 16,608,000 years from CE 660 and 27,000 years beyond, to 2^33, near powers of two and ten; exceptions in use: CE 660-4000")},
		"C05": {Level: mc, Run: c05, Rule: "states: years under one local zone; transitions: Kattika to the next Kattika; traces: dates and lengths compared with the model",
			Bounds: bound("dates CE 639-10000, to 4000 under six other local zones; lengths of all 16,608,000 years", "dates CE 639-25000, to 10000 under six other local zones; lengths of all 16,608,000 years")},
		"C06": {Level: mc, Run: c06, Rule: "states: years under one local zone; transitions: Kattika to Asalha Puja; traces: dates compared with the model", Bounds: same("CE 639-4000 under seven local zones")},
		"C07": {Level: mc, Run: c07, Rule: "states: (year, switching history); transitions: switch operations; traces: histories compared with the model",
			Bounds: same("histories of one switch: CE 639-4000; of up to four: CE 1700-2300; tables of the user's with one or two entries, replaced or edited in place, around each year of CE 1500-2600 (thorough 700-3900); tables of every p-th year of sixty, p to 6 (12)")},
		"C08": {Level: mc, Run: c08, Rule: "states: distinct positions reached; transitions: year to next year; traces: years compared", Bounds: bound("CE -10 to 10 million; near powers of two and ten to 2^50", "CE -200 to 200 million; near powers of two and ten to 2^50")},
		"C09": {Level: mc, Run: c09, Rule: "states: day counts under one local zone; transitions: day to next day; traces: dates compared with the model",
			Bounds: bound("elapsed days -300,000 to 3,700,000 (CE -184 to 10768) under seven local zones; 10,000 far days, the farthest beside 2^36 and 9*10^10", "elapsed days -300,000 to 59,700,000; far days to 2^38")},
		"C10": {Level: mc, Run: c10, Rule: "states: (year, lunar year day); transitions: day to next day; traces: days compared with the model", Bounds: bound("CE 638-200000, days 1-400", "CE 638-3000000, days 1-400")},
		"C11": {Level: mc, Run: c11, Rule: "states: (year, lunar year day); transitions: day to next day; traces: positions compared with the model, to the fourth decimal where they are cut there",
			Assumptions: []string{"the solar equation is taken as the repository's tests pin it (134 sin|mean sun - 80|)"},
			Bounds:      bound("CE 638-100000, days 1-400", "CE 638-2000000, days 1-400")},
		"C12": {Level: mc, Run: c12, Rule: "states: angles; transitions: conversions there and back; traces: angles compared", Bounds: bound("every arcminute of 200 turns with 7 fractions, and of single turns as far as 2^20 turns off; every triple of -1..12, -1..30, -61..121", "every arcminute of 2000 turns with 7 fractions, single turns to 2^24; every triple")},
		"C13": {Level: mc, Run: c13, Rule: "states: distinct model states (file, cursors, open handles) reached by operation sequences; transitions: operations; traces: operation sequences compared with the model",
			Bounds: bound("all 141 embedded files, every path form, whole and in parts over HTTP; all operation sequences up to length 5 over 22 operations on two handles, up to length 3 with local files", "operation sequences up to length 6")},
	})
}
