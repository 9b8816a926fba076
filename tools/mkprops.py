#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json (kept in step with each other).
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state))

EX = "exhaustive enumeration of the calendar state machine on the implementation, against an integer reference model"
SEQ = "exhaustive enumeration of operation sequences on the implementation, against a reference model"

prop("C01", "Elements of every year follow the Suriyayatra formulas and ranges",
 "For every Common Era year from 638 on, the year's elements are those of the Suriyayatra procedure: BE = CE+543, CS = CE-638, the elapsed days, the remaining 800ths of a day (1-800), the age of the moon's apogee (0-3231), the avoman (0-691), the elapsed months and the tithi (0-29). Consecutive years are 365 days apart, or 366 after a year reported as leap, and 800 years are exactly 292207 days. Setting a value that held another year before gives the same elements, and the elements written as text are these numbers.",
 ["inputs","histories"], "66,432,000 years from CE 638 (four turns of the closed cycle of kammacubala, avoman and tithi, so every apogee with each), 27,000 years beyond, to 2^33, near powers of two and ten; each also set on a value that held another year; the text form for CE 638-200637",
 "The tests check nine years; the elements have a period of 16.6 million years, and rare combinations (kammacubala 207/208, avoman wrap, tithi 0/29) decide the intercalations.",
 ["suriya_year.go","suriya.go"], [("elements of the year","SuriyaYear.Init"),("text","SuriyaYear.SuriyaValuesString, SuriyaYear.String"),("leap years","SuriyaYear.Is_Suriya_Leap")],
 EX, "All 16,608,000 reachable (kammacubala, avoman, tithi) states; the state space is proved closed by walking the model's cycle on each run.")
prop("C02", "Extra months fall exactly where the tithi rule puts them",
 "A year qualifies for an extra month exactly when its tithi is 24 or more, or 5 or less; it has the extra month exactly when it qualifies and the year after does not. So no two consecutive years have one, and after a year with one the next follows in two or three years. The verdict depends on nothing but the year.",
 ["inputs","histories"], "every year CE 639 to 16,608,638, i.e. every reachable state of the calendar, 27,000 years beyond, to 2^33, near powers of two and ten, and values reused from other years",
 "The tests compare some dozens of modern years; the alternation must hold in every state of the cycle.",
 ["suriya_year.go"], [("qualification by tithi","SuriyaYear.Would_Be_Adhikamasa"),("the last of two qualifying years","SuriyaYear.Is_Adhikamasa")],
 EX, "All reachable states of the year machine and their successors.")
prop("C03", "Extra days fall exactly where the avoman rule and postponement put them",
 "With the official exceptions off, a year qualifies for an extra day when its avoman is at most 126 in a leap year or below 137 otherwise. A year with an extra month never has an extra day; if it qualified, its extra day is given in the following year. Every other year has an extra day exactly if it qualifies or takes over a postponed one.",
 ["inputs"], "every year CE 639 to 16,608,638, i.e. every reachable state of the calendar, and 27,000 years beyond, to 2^33, near powers of two and ten",
 "The tests compare some dozens of modern years; a postponed day and the boundary avoman values are rare.",
 ["suriya_year.go"], [("qualification by avoman","SuriyaYear.Would_Be_Adhikavara"),("postponement","SuriyaYear.Has_Carried_Adhikavara"),("verdict","SuriyaYear.Is_Adhikavara")],
 EX, "All reachable states of the year machine and their successors.")
prop("C04", "Years since the last extra month and extra day are exact",
 "For every year from CE 660 on, the number of years since the last extra month (1-3) and since the last extra day (1-7) is exactly the distance to the latest earlier year that has one. From one year to the next the number grows by one, or starts again at one after a year that has it. The exceptions switch is honoured: with it on, the distance counts the official extra days.",
 ["inputs","configurations"], "every year CE 660 to 16,608,659 and 27,000 years beyond, to 2^33, near powers of two and ten, with exceptions off; CE 660-3999 with exceptions on",
 "The tests do not call these; they search backwards with a cut-off that must never be reached.",
 ["suriya_year.go"], [("backward search with cut-off","SuriyaYear.DeltaAdhikamasa, SuriyaYear.DeltaAdhikavara")],
 EX, "All reachable states; the cut-off is shown never to be reached in any of them.")
prop("C05", "Kattika full moons chain by the lengths of the lunar years",
 "The Kattika full moon before a year is a midnight UTC date in the year before it, whatever the local time zone, and from it to the next one there are exactly as many days as the length given for that lunar year. The length is 384 days with an extra month, 355 with an extra day, 354 otherwise.",
 ["inputs","configurations"], "dates: every year CE 639-10000 in UTC (date within the year before: CE 639-4000), to 4000 under local zones +7, -11, +14, two with summer time and one that left out a day; lengths: every year CE 639 to 16,608,638",
 "The tests check no Kattika dates; the chain steps in both directions from 2015 and one wrong year shifts all beyond it.",
 ["helpers.go","suriya_year.go"], [("stepping from a known date in both directions","CalculatePreviousKattika"),("length","SuriyaYear.YearLength")],
 EX, "Every year of the dated calendar in seven local zones; every reachable state for the lengths.")
prop("C06", "Asalha Puja is the full moon day 236, 237 or 266 days after Kattika",
 "For every year CE 639-4000, with exceptions off, Asalha Puja is a midnight UTC date of that year, 236 days after the Kattika full moon before it, one more in a year with an extra day, 30 more in a year with an extra month. On that day the calculated age of the moon is 14 or 15. The local time zone makes no difference.",
 ["inputs","configurations"], "every year CE 639-4000 under local zones UTC, +7, -11, +14, two with summer time and one that left out a day",
 "The tests check 1950-2020 or so in the zone of the machine.",
 ["suriya_year.go","helpers.go","suriya_day.go"], [("date","SuriyaYear.AsalhaPuja"),("age of the moon","SuriyaDay.Init")],
 EX, "Every year of the dated calendar in seven local zones.")
prop("C07", "The official exceptions change exactly the listed years, at any time",
 "Switching the official exceptions on gives no extra day in 1994 and one in 1997, and so moves Kattika and Asalha Puja dates between these years by one day (Asalha Puja of 1994, 1995 and 1996 one day earlier) and nothing else; extra months never change. The answer depends only on the switch at the time of asking, not on earlier settings or questions. A table of exceptions given by the user likewise changes the years it lists only, and only while switched on.",
 ["inputs","histories","configurations"], "every year CE 639-4000 after one setting; every year 1700-2300 after every switching history of up to four settings; tables of one or two entries of the user's, put in place of the official one or written into it, around each year of 1500-2600 (thorough 700-3900); tables of every p-th year of sixty",
 "The tests set the switch once for a few years; a remembered result or a rule that leaks beyond the listed years needs other histories.",
 ["suriya.go","suriya_year.go","helpers.go"], [("switch and table","UseExceptions, AdhikavaraExceptions"),("use","SuriyaYear.Is_Adhikavara")],
 "exhaustive enumeration of switching histories on the implementation, against a reference model", "All switching histories up to length 4.",
 [("UseExceptions","whether the exceptions apply","suriya.go"),("AdhikavaraExceptions","the listed years","suriya.go")])
prop("C08", "Positions in the 57 and 19 year cycles advance by one every year",
 "1984 is year 1 of both the 57 year and the 19 year cycle; every following year is one further, and after year 57 (19) comes year 1 again. This holds for all years, also before the first counted cycle.",
 ["inputs"], "every year CE -10 to 10 million; years near powers of two and ten to 2^50",
 "The tests check no cycle positions.",
 ["suriya_year.go"], [("cycle positions","SuriyaYear.AdhikavaraCyclePos, SuriyaYear.AdhikamasaCyclePos")],
 EX, "All years of a range with every residue thousands of times, on both sides of the first counted cycle.")
prop("C09", "Day counts and civil dates correspond one to one",
 "Elapsed day 484049 of the era is 5 July 1963, and every day count is the civil (Gregorian) date as many days before or after it, the same date in UTC whatever the local time zone. Consecutive day counts are exactly 24 hours apart, at any distance from the reference.",
 ["inputs","configurations"], "every day count from -300,000 to 3,700,000 (CE -184 to 10768) under local zones UTC, +7, -11, +14, two with summer time and one that left out a day; 10,000 far ones around multiples of the step sizes, powers of two and of ten, to 9*10^10",
 "The tests check two or three dates; the conversion works in steps of 103,240 days, whose boundaries they do not reach.",
 ["helpers.go"], [("stepping by durations below the overflow","HorakhunToDate")],
 EX, "Every day of 10,900 years.")
prop("C10", "Whole-number elements of every lunar day follow from the day count",
 "For every day 1-400 of the lunar year of CE 638-200000, the day's elapsed days, 800ths of a day, apogee, avoman, elapsed months and tithi are those of the Suriyayatra procedure for that day count; on the day of the new year they equal the year's own elements. The same day addressed from two neighbouring years has the same elements, the next day is one day and one or two tithi on, and setting a value that held another day before makes no difference.",
 ["inputs","histories"], "every year CE 638-200000, every lunar year day 1-400 that is not before the era",
 "The tests check three days.",
 ["suriya_day.go"], [("elements of the day","SuriyaDay.Init")],
 EX, "79.7 million days, each with its successor and its other address.")
prop("C11", "Sun and moon positions follow the procedure and stay in the circle",
 "For every day 1-400 of the lunar year of CE 638-100000, the mean and true sun, the mean and true moon and the mansion are those of the procedure: mean sun in whole arcminutes less 3, equation of the sun 134'·sin|mean sun - 80| in whole arcminutes, mean moon from true sun, avoman and tithi less 40', equation of the moon 296'·sin(mean moon - apogee), sun and true moon cut off after the fourth decimal. Mean and true moon lie within 0-360 degrees and the mansion within 1-28. From day to day the sun moves 0.9-1.1 and the moon 11-15.5 degrees.",
 ["inputs"], "every year CE 638-100000, every lunar year day 1-400 that is not before the era",
 "The tests check three days of summer; negative angles, wraps of the circle and the ends of the year are not reached.",
 ["suriya_day.go","helpers.go"], [("positions","SuriyaDay.Init"),("keeping angles in the circle","NormalizeDegree"),("arcminute notation","DegreeToRal, RalToDegree")],
 EX, "39.7 million days; the oracle is exact up to floating point where a cut falls on the value itself.")
prop("C12", "Degree notation converts there and back and angles normalise",
 "An angle in degrees, of either sign, becomes rasi, angsa 0-29 and lipda 0-59 that are its whole arcminutes (1800, 60 and 1 arcminutes), and the text form shows the same three numbers. Rasi, angsa and lipda become degrees cut off after the fourth decimal, so that going there and back never loses more than a minute. Bringing an angle into the circle gives the same direction within 0-360 and leaves angles already there alone.",
 ["inputs"], "every arcminute from -36000 to 36000 degrees with seven fractions of a minute, and of single turns as far as 2^20 turns away; every rasi -1..12, angsa -1..30, lipda -61..121",
 "The tests reach these through three days only.",
 ["helpers.go"], [("notation","DegreeToRal, DegreeToRalString, RalToDegree"),("normalising","NormalizeDegree")],
 EX, "Every arcminute of 200 turns.")
prop("C13", "The embedded almanac is the data files, through independent handles",
 "Every file of the almanac is available from inside the program with exactly the bytes, size and name of the file in the repository, by every access function, by any equivalent spelling of its path, embedded or local, first time or again, whatever callers did with the bytes they were given; a file that is not there is reported as missing. Open handles are independent: reading, seeking, inspecting or closing one never affects another, even of the same file. The files can be served over HTTP, whole or in parts, and asking for a file leaves none open.",
 ["inputs","histories"], "all 141 files, nine spellings, all access functions, the bytes given out written over each time, a file server; all sequences of five operations (of 22) on two handles over two files, three where local files take part",
 "No test touches the embedded data, 141 compressed files decompressed on first use.",
 ["data.go","data/astro"], [("decompression once","_escFile, sync.Once"),("file systems","FS, Dir, FSByte, FSString and the Must forms")],
 SEQ, "All files; all operation sequences up to length 5.")
prop("C14", "Calculations are safe to run concurrently and independent of history",
 "Any calculation of years, days, dates, angles or names and any access to the embedded data gives the same answer when it runs at the same time as others, at any interleaving, as when it runs alone, without data races, deadlocks or panics. It also gives the same answer after any history of other calls and of switching the exceptions on and off (the switch set at the time of asking being all that counts), and what a call returned stays as it was.",
 ["schedules","histories"], "16 representative calls: every pair under every schedule with one preemption at any statement and two near shared variables; triples with one; all histories of three calls or switches; each pair running freely under the race detector",
 "The tests are sequential and each starts from what the others left.",
 ["data.go","suriya.go","suriya_year.go","suriya_day.go","helpers.go"], [("no package state besides switches","suriya.go"),("decompression guarded by sync.Once","data.go")],
 "stateless exploration of the instrumented implementation under a preemption-bounded scheduler, plus exhaustive call histories", "Preemption bound 1 at every statement and 2 near shared variables; the race detector run is a separate, free-running pass.",
 [("_escData","decompressed files","data.go"),("UseExceptions","switch","suriya.go")])
prop("C15", "Uposathas succeed each other with the right dates, phases and months",
 "From any uposatha the next one is a new moon after a full moon and a full moon after a new moon: a new moon opens the next month and lies 14 days on in a 29 day month and 15 days on in a 30 day one, the full moon closes it 15 days later. Months 1-12 follow each other, odd ones of 30 and even ones of 29 days, except that in a year with an extra month a second eighth month (13) of 30 days follows the eighth, and in a year with an extra day the eighth has 30 days and its new moon alone is marked for it. From each Kattika full moon this leads exactly to the next, and the yearly listings contain the same uposathas.",
 ["inputs","histories","configurations"], "every lunar year CE 639-4000: every single state, walks of twelve years from every Kattika, all yearly listings; local zones UTC, +7, -11, +14, two with summer time and one that left out a day; exceptions off and on; tables of exceptions of the user's with one or two entries, 1900-2100",
 "Not even compiled by the existing tests.",
 ["uposatha_moon.go","cal_day.go","suriya_year.go"], [("successor","UposathaMoon.NextUposatha"),("listing","GenerateSolarYear")],
 EX, "Every state of the succession under ten settings.")
prop("C16", "Uposathas are numbered right within season and lunar year",
 "Each lunar year begins after the Kattika full moon and has three seasons of four months in order: eight uposathas each, ten in the hot season of a year with an extra month. Every uposatha carries its place (counting from 1) and the total of its season, the season, and the Buddhist Era year, which advances with the first uposatha after Kattika.",
 ["inputs","histories","configurations"], "as C15: every lunar year CE 639-4000, seven local zones, exceptions off and on, the user's own tables, succession and yearly listings",
 "Not even compiled by the existing tests.",
 ["uposatha_moon.go","cal_day.go"], [("numbering","UposathaMoon.NextUposatha"),("start of the listing","GenerateSolarYear")],
 EX, "Every state of the succession under ten settings.")
prop("C17", "A solar year's listing has every uposatha and half moon exactly once",
 "The listing of a solar year contains every uposatha that falls in it, exactly once and marked confirmed, and every half moon that falls in it exactly once: eight days after each uposatha, waxing after a new and waning after a full moon, including those that follow an uposatha of the year before. Nothing in it lies outside the year, and the listings of consecutive years join without gap or overlap.",
 ["inputs","configurations"], "every solar year CE 639-4000, local zones UTC, +7, -11, +14, two with summer time and one that left out a day, exceptions off and on; tables of exceptions of the user's with one or two entries, 1900-2100",
 "Not even compiled by the existing tests; the turn of the year differs from year to year.",
 ["cal_day.go","uposatha_moon.go"], [("listing","GenerateSolarYear")],
 EX, "Every year under ten settings.")
prop("C18", "Each year has its six major events on the right full moons",
 "Each solar year has exactly one each of Māgha, Vesākha and Āsāḷha Pūjā, first day of Vassa, Pavāraṇā and last day of Vassa: on the full moons of months 3, 6, 8 and 11, and in a year with an extra month of 4, 7, 13 and 11. Āsāḷha Pūjā is on the date the year's own calculation gives, Vassa begins the day after and ends on Pavāraṇā, 89 days after Āsāḷha Pūjā. The uposatha on such a day carries the event, and no other does.",
 ["inputs","configurations"], "every solar year CE 639-4000, local zones UTC, +7, -11, +14, two with summer time and one that left out a day, exceptions off and on; tables of exceptions of the user's with one or two entries, 1900-2100",
 "Not even compiled by the existing tests.",
 ["uposatha_moon.go","cal_day.go","major_event.go","suriya_year.go"], [("event of a full moon","UposathaMoon.NextUposatha"),("major events","GenerateSolarYear")],
 EX, "Every year under ten settings.")
prop("C19", "The calendar of a date range is complete, sorted and free of duplicates",
 "For UTC dates from and to, the calendar contains exactly the days of the range, both ends included, on which there is an uposatha, half moon, major event or astronomical moon, each day once and in order, and each day has everything that falls on it and nothing else. It does not matter how the range is cut, which time zone is local or what lies outside the range; from after to gives nothing.",
 ["inputs","configurations"], "every pair of days in 25 windows of 60 days (year ends, data gaps, exceptions, leap days); whole years CE 639-4000; every single day 1895-2045; spans of 2-6 years 1895-2050, the whole almanac and spans of 300 years; local zones UTC, +7, -11, +14, two with summer time and one that left out a day; exceptions off and on",
 "Not even compiled by the existing tests; ends of ranges, year ends and years without almanac data matter.",
 ["cal_day.go","astro_moon.go","uposatha_moon.go","half_moon.go","major_event.go"], [("collecting and merging by day","GetCalDays, mergeIntoCalDays, findCalDay"),("listing","GenerateSolarYear")],
 EX, "All date pairs of the windows.")
prop("C20", "Astronomical moons of any window are exactly the almanac's",
 "For any two instants, in whatever time zone they are written, the astronomical moons between them, both included, are exactly those of the almanac in order of time, as UTC instants with their phase (new, waxing, full, waning). Years the almanac does not have contribute nothing and hide nothing of the other years.",
 ["inputs"], "windows that end at, one nanosecond or one second beside every one of the 6432 moons, in four zones; windows of up to 30 years 1885-2051 and of any length to 12,000 years; reversed windows",
 "Not even compiled by the existing tests.",
 ["astro_moon.go","aeris_moon.go","data.go"], [("reading the yearly files","GetAstroMoons"),("phase codes","phaseCodes")],
 EX, "Every moon as a window end.")
prop("C21", "Putting events on a day keeps the newest moon and every event",
 "A calendar day holds at most one uposatha, one half moon and one astronomical moon, each time the one put there last, and all its major and other events in the order they came; asking for a moon it does not have gives an empty one. A day copied from another is a day of its own: what is put on either never shows on the other. Its date is that of the event added last, days sort by date, and its text names its moons. Adding half moon days to a list of days appends one eight days after each uposatha with phase new (waxing) or full (waning) and leaves the given days, and any that follow them in the caller's list, as they were.",
 ["histories","inputs"], "all sequences of five of 16 operations on a day, and of three repeated to 72; all arrangements of six days of six kinds, sorted; all lists of six days of six kinds, at the end of the caller's list or followed by others; all sequences on a day and a copy of it",
 "Not even compiled by the existing tests.",
 ["cal_day.go","event.go","major_event.go","half_moon.go","astro_moon.go","uposatha_moon.go"], [("setters and getters","CalDay methods, AddToDay"),("order","CalDaySlice"),("derived half moons","AddHalfMoonDays")],
 SEQ, "All operation sequences up to length 5.")
prop("C22", "The caldays command prints the calendar as JSON by year, all or nothing",
 "The caldays command writes, for the given dates, a JSON object with one key per year and under it that year's days in order, exactly the calendar of the range in the published field names; the same to standard output or, replacing whatever was there, to the output file. Dates left out mean 1 January and 31 December of the current year, of one and the same year even if the year turns meanwhile. A malformed date, an option that does not exist or lacks its value, a place that cannot be written (standard output too), a full disk or a file that fails when it is closed ends in failure, and a malformed date or option leaves an existing output file untouched.",
 ["inputs","fault_sequences","configurations"], "11 x 11 range ends around each of 13 years, local zones of four places, no/shorter/longer output file before; 17 malformed dates; ten wrong options; six unwritable places (standard output on a full device and on a pipe that nobody reads among them) with five ranges; file size limits from 0 up, byte by byte for the smallest calendar, for the output file and standard output; every single operation on files (opening, writing, closing) failing in six ways; other spellings of flags and paths, symbolic links; dates left out when the year turns, in six zones, between any two readings of the clock",
 "Not even compiled by the existing tests.",
 ["suriya/suriya.go","cal_day.go"], [("command","actionCalDays, cliInit"),("JSON form","CalDay")],
 "exhaustive enumeration of invocations and write faults on the real program, against a reference model", "The program is built with a stand-in for its command line package.")
prop("C23", "The ical command prints one all-day entry per calendar event",
 "The ical command writes a well-formed iCalendar with, for the given dates, one all-day entry (start the day, end the next day) for every uposatha, half moon and major event, titled with its text, in order of date, and none for astronomical moons. Every entry has an identifier never used for another entry or in another run, and a UTC time stamp of the run. Output file, dates left out and failures are as for the JSON output.",
 ["inputs","fault_sequences","configurations"], "as C22; the file published for 2013-2017",
 "Not even compiled by the existing tests.",
 ["suriya/suriya.go","calendar_event.go","cal_day.go"], [("command","actionIcal"),("entry","icalEvent")],
 "exhaustive enumeration of invocations and write faults on the real program, against a reference model", "The program is built with stand-ins for its command line, ical and uuid packages; the ical one is bound to the committed ical file.")
prop("C24", "The calendar keeps step with the real moon",
 "Every uposatha of 1902-2032 lies near the astronomical moon of its phase in the almanac: the moon is at most 0.8 days before and 2.4 days after the uposatha's midnight. In every year CE 639-4000 the calculated age of the moon is 14-16 on full moon and 28-30 (0) on new moon uposathas.",
 ["inputs"], "every uposatha 1902-2032 for which the almanac has data; every uposatha CE 639-4000",
 "Tests compare a few dates; the drift of calendar against moon shows over centuries.",
 ["uposatha_moon.go","cal_day.go","suriya_day.go","astro_moon.go"], [("intercalation","SuriyaYear"),("succession","UposathaMoon.NextUposatha")],
 EX, "Every uposatha, against the almanac and against the implementation's own lunar ages.")
prop("C25", "Names and displayed texts are right and agree with the calendar",
 "Month, season, calendar and status names map to their numbers and unknown names to 0, season numbers to their names and unknown numbers to nothing. The text of an uposatha is phase, days, season and place (such as \"New Moon - 14 day Hemanta 1/8\"), of another moon its phase, of an event its title, and of a moon without phase empty. The texts in the yearly listings are those of the events that fall there.",
 ["inputs"], "all names and several that are none; all phases, seasons -2..5, 14/15 days and places; all listings CE 639-4000",
 "Not tested.",
 ["helpers.go","uposatha_moon.go","half_moon.go","astro_moon.go","major_event.go","event.go"], [("lookups","MonthToInt, SeasonToInt, SeasonName, CalendarToInt, StatusToInt"),("texts","String methods")],
 EX, "The whole alphabet of names and texts.")
prop("C26", "The years table tool writes the right row for every year",
 "The table tool ends in success or failure as the table could be written or not: it replaces years.csv in its working directory by a header and one row for each year 1970-2041, with the year's elements, cycle positions, years since the last extra month and extra day in years that have one (x where the extra day is postponed), and the calculated date of Asalha Puja; OK or FAIL exactly where a published date agrees or not. It gives the same table whatever was in the file before and in any time zone. The simple form of the table has the same numbers.",
 ["inputs","configurations","fault_sequences"], "all rows, six local zones, three states of the file, twice; a file or directory that cannot be written; 500 file size limits; every single operation on files failing in six ways; both forms of the table for every year CE 660-3960",
 "Not compiled by the existing tests.",
 ["utils/years-csv.go","suriya_year.go"], [("table","yearsCsv")],
 "exhaustive enumeration of invocations on the real program, against a reference model", "All rows.")
prop("C27", "Calendars can be produced concurrently and independently of history",
 "Listing years, stepping through uposathas, reading astronomical moons and putting together calendars give the same answer when they run at the same time as others, at any interleaving, as when they run alone, without data races, deadlocks or panics. They give the same answer after any history of other calls, of switching the exceptions, and of callers changing what they were given before, and what a caller holds never changes later.",
 ["schedules","histories"], "11 representative calls: every pair under every schedule with one preemption at any statement (long ones: near shared variables) and two near shared variables; triples with one; all histories of three; each pair running freely under the race detector",
 "Not even compiled by the existing tests.",
 ["cal_day.go","astro_moon.go","uposatha_moon.go","data.go"], [("no package state","cal_day.go, astro_moon.go"),("decompression guarded by sync.Once","data.go")],
 "stateless exploration of the instrumented implementation under a preemption-bounded scheduler, plus exhaustive call histories", "Preemption bound 1 at every statement and 2 near shared variables; the race detector run is a separate, free-running pass.")
prop("C28", "Every calendar event becomes an all-day iCalendar event of its own",
 "Any uposatha, half moon, major event, astronomical moon or other event can be made into an iCalendar event: it starts at the event's date and ends 24 hours later, lasts all day, has the event's text as its title, the zone of its date, the present as its stamp and an identifier that no other event has, also when the same event is converted again. Written out, it says the same days and title. A moon that is not there has an empty title.",
 ["inputs"], "every day 1900-2060 in UTC, +7, -11, +5:30, +14 and two zones of the database at three times of day, under seven local zones in turn, with each of five kinds of event; all listings CE 639-4000",
 "Not even compiled by the existing tests.",
 ["calendar_event.go","event.go","uposatha_moon.go","half_moon.go","major_event.go","astro_moon.go"], [("conversion","icalEvent"),("methods","IcalEvent of each kind")],
 EX, "Every day of 161 years; the ical and uuid packages are stand-ins. Zones with summer time, where 24 hours are not always a day, are not claimed.")
prop("C29", "A calendar day written as JSON is complete and reads back the same",
 "Every calendar day and everything on it, written as JSON, has exactly the published field names with the values it holds, nothing left out, added or renamed whatever the values are, and read back it is the same day with the same moons and events. Lists of days keep their order.",
 ["inputs"], "all 32,768 subsets of the fields of an uposatha; all combinations of the parts of a day with up to three events of each kind; the calendars of every year CE 639-4000, and of 1890-2050 under four other local zones and with exceptions",
 "Not even compiled by the existing tests.",
 ["cal_day.go","uposatha_moon.go","half_moon.go","astro_moon.go","major_event.go","event.go"], [("fields","struct tags of CalDay, UposathaMoon, HalfMoon, AstroMoon, MajorEvent, Event")],
 EX, "All subsets of fields and parts.")
prop("C30", "The almanac has every phase of the moon at its true time",
 "From 1902 to May 2033 the almanac that the program carries has every new, waxing, full and waning moon exactly once, of the right phase, within three minutes of the time astronomical theory gives, and no others.",
 ["inputs"], "every phase of the moon from 1902 to May 2033 (6,500), and every moon of the almanac",
 "No test looks at the almanac, 6432 moons in 141 files.",
 ["astro_moon.go","data.go","data/astro"], [("almanac","GetAstroMoons, _escData")],
 "exhaustive enumeration of the almanac read by the implementation, against an independent model of the moon's motion", "Every phase; known findings: 19 moons on 30 or 31 December and the year 1970, which the source the files were fetched from did not give.")

prop("C31", "The almanac script fetches every year once, ten a minute at most",
 "The script that fetches the almanac asks the service once for each year of its range, in order, for all its moons at London (UTC) from its first moment to its last, and puts each answer in the file of its year, nothing else. After every ten requests it waits until a minute has passed since the first of them, however long requests take and wherever in a second it starts. A request that fails, that the service answers with an error, or whose answer cannot be written ends in failure; without keys or years it asks for nothing and fails.",
 ["inputs","fault_sequences","schedules"], "0 to 25 years at twelve patterns of speed and three starts within a second; one slow request (six lengths) at each of twelve places among 24; each request of up to twelve failing, at once, half way, by an answer of the service or for want of a place for the answer; all combinations of missing keys and years",
 "Not tested at all; the service's limit depends on the timing of a whole history of requests.",
 ["utils/get-astromoons.sh"], [("waiting","the while loops of get-astromoons.sh")],
 "exhaustive enumeration of request timings and faults on the real script under a virtual clock", "curl, date and sleep are stand-ins that share a clock; nothing is fetched.")

prop("C32", "Calculations and calendars are the same on 32 bit machines",
 "A program built for a machine with 32 bit integers gives the same elements, days, dates, angles, listings, calendars and astronomical moons as one built for 64 bits, for every year CE 638-4000: nothing overflows, crashes or loses precision, in the library or in the commands.",
 ["inputs"], "every year CE 638-4000 with its days 1-400 and its calendar, with exceptions; 2,000,000 day counts and 10,000 far ones (137,000 years); 2,000,000 angles; the almanac; 80 runs of the commands",
 "Tests run on the developer's machine; which products exceed 2^31 depends on the year.",
 ["suriya_year.go","suriya_day.go","helpers.go","cal_day.go","uposatha_moon.go","suriya/suriya.go"], [("products","Init of SuriyaYear and SuriyaDay; HorakhunToDate, DegreeToRal")],
 "exhaustive enumeration of inputs on a 386 build and the build for this machine, in lockstep", "The 64 bit build is compared with the models by the other properties.")

prop("C33", "Calculations are the same on machines that fuse multiply and add",
 "A program built for a machine that joins a multiplication and an addition into one operation without rounding in between (ARM, newer Intel) gives the same elements, sun and moon positions, dates, angles, listings and calendars as one built for a machine that does not.",
 ["inputs"], "every year CE 638-24000 with its days 1-400; calendars CE 639-4000; 2,000,000 day counts; 2,000,000 angles; 80 runs of the commands",
 "Tests run on the developer's machine, and only a few days in ten thousand are close enough to the last decimal kept.",
 ["suriya_day.go","helpers.go","suriya_year.go"], [("floating point","SuriyaDay.Init, DegreeToRal, RalToDegree, NormalizeDegree")],
 "exhaustive enumeration of inputs on a build with fused operations and the build for this machine, in lockstep", "amd64 v3 stands for the machines that fuse; the plain build is compared with the models by the other properties.")

prop("C34", "The almanac and the calendars are the same under Windows file names",
 "Where file names are separated by backslashes, as on Windows, the embedded almanac's files are found under the same names with the same content, and the astronomical moons, calendars and output of the commands are the same as anywhere else. The program can be built for Windows and macOS.",
 ["inputs","configurations"], "all files of the almanac 1890-2049 by three ways of access; astronomical moons of these years; calendars of every year CE 639-4000; 80 runs of the commands",
 "Tests run on the developer's machine; a missing file is passed over in silence.",
 ["astro_moon.go","data.go","cal_day.go","suriya/suriya.go"], [("file names","GetAstroMoons, _escStaticFS.prepare, _escData")],
 "exhaustive enumeration of inputs on a build with the file names of Windows and the build for this machine, in lockstep", "path/filepath is a stand-in with the behaviour on Windows; nothing runs under Windows itself.")

prop("C35", "Failed answers in the almanac add no moons and hide none",
 "Whatever answers of the service the almanac has for the years asked about, in any order: an answer marked as successful and without an error contributes its moons, as UTC instants in whatever zone and form they are written; an answer that is not successful, that carries an error, or that is not there contributes none, hides none of the other years and never stops the program. The same moons are on the days of the calendars.",
 ["inputs","histories"], "every sequence of four (thorough: five) answers out of six kinds in consecutive years; windows of one to six years and windows that end beside each moon; calendars of each sequence",
 "The answers in the repository are all successful; what becomes of others shows only with another almanac.",
 ["astro_moon.go","aeris_moon.go","cal_day.go","data.go"], [("answers","GetAstroMoons, AerisResp"),("into days","GetCalDays")],
 "exhaustive enumeration of sequences of answers (de Bruijn) built into the implementation, against the moons answered", "The almanac is replaced; the code that reads it is the repository's. No claim on answers that are not JSON.")

with open(V+"/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        a={"files":p["files"],"mechanism":[{"name":n,"where":w} for n,w in p["mech"]]}
        if p["state"]: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in p["state"]]
        a["hook_needed"]=None
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],"quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why"],"anchors":a},ensure_ascii=False)+"\n")
m={"version":1,"setup_cmd":"bash setup.sh","checks":[{"property":p["id"],"quick_cmd":"bash run.sh "+p["id"],"thorough_cmd":"bash run.sh "+p["id"]+" --tier thorough","evidence_file":"evidence/"+p["id"]+".json","technique":"model checking: "+p["tech"],"level":"model_checking","level_note":p["note"]} for p in P],"not_applicable":[],
 "notes":"No hooks in /repo: instrumentation is inserted into a scratch copy."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1,ensure_ascii=False); open(V+"/MANIFEST.json","a").write("\n")
