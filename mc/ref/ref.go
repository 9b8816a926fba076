// Package ref is the reference model of the calendar, written from the
// published Suriyayatra procedure in integer arithmetic.  It shares nothing with
// the code under test (not even package time).
package ref

// ---- civil dates (proleptic Gregorian), days since 1970-01-01 ----

func Days(y, m, d int) int {
	if m <= 2 {
		y--
	}
	era := fdiv(y, 400)
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func Civil(z int) (y, m, d int) {
	z += 719468
	era := fdiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

func fdiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func FDiv(a, b int) int { return fdiv(a, b) }
func FMod(a, b int) int { return a - b*fdiv(a, b) }

// ---- elements of the year ----

type Year struct {
	Year, BE, CS, H, K, U, Av, Mas, Tithi int
}

// Elements of the solar new year.  800ths of a day since the epoch: 292207 for
// each elapsed year, 373 at the start.
func Elements(y int) Year {
	cs := y - 638
	a := cs*292207 + 373
	e := Year{Year: y, BE: y + 543, CS: cs}
	e.H = fdiv(a, 800) + 1
	e.K = 800 - FMod(a, 800)
	e.U = FMod(e.H+2611, 3232)
	e.Av, e.Mas, e.Tithi = Lunar(e.H)
	return e
}

// Lunar age of the day with the given elapsed day count: 703 tithi to 692 days.
func Lunar(h int) (avoman, masaken, tithi int) {
	t := 11*h + 650
	l := h + fdiv(t, 692)
	return FMod(t, 692), fdiv(l, 30), FMod(l, 30)
}

// State is the part of the year's elements the intercalation depends on, and
// Step the successor function of the abstract calendar machine.
type State struct{ K, Av, T int }

func Start() State { e := Elements(638); return State{e.K, e.Av, e.Tithi} }

func (s State) Leap() bool { return s.K <= 207 }

func (s State) Step() State {
	d := 365
	k := s.K - 207
	if k <= 0 {
		k += 800
		d = 366
	}
	a := s.Av + 11*d
	return State{k, a % 692, (s.T + d + a/692) % 30}
}

func (s State) Qualifies() bool { return s.T >= 24 || s.T <= 5 }

func (s State) WouldAv() bool {
	if s.Leap() {
		return s.Av <= 126
	}
	return s.Av < 137
}

func (s State) Index() int { return ((s.K-1)*692+s.Av)*30 + s.T }

const NStates = 800 * 692 * 30

func stateOf(y int) State { e := Elements(y); return State{e.K, e.Av, e.Tithi} }

func Qualifies(y int) bool { return stateOf(y).Qualifies() }
func Am(y int) bool        { return Qualifies(y) && !Qualifies(y+1) }
func WouldAv(y int) bool   { return stateOf(y).WouldAv() }
func Carried(y int) bool   { return Am(y-1) && WouldAv(y-1) }

// Exceptions is the table of exceptions; a check may put its own in its place.
var Exceptions = Official()

func Official() map[int]bool { return map[int]bool{1994: false, 1997: true} }

func Av(y int, exceptions bool) bool {
	if exceptions {
		if v, ok := Exceptions[y]; ok {
			return v
		}
	}
	return !Am(y) && (Carried(y) || WouldAv(y))
}

func Length(y int, exceptions bool) int {
	switch {
	case Am(y):
		return 384
	case Av(y, exceptions):
		return 355
	}
	return 354
}

// Table holds the day (since 1970-01-01) of the Kattika full moon before each
// solar year of a range.
type Table struct {
	Lo, Hi int
	Exc    bool
	kat    []int
}

func NewTable(lo, hi int, exc bool) *Table {
	t := &Table{Lo: lo, Hi: hi, Exc: exc, kat: make([]int, hi-lo+2)}
	k := Days(2015, 11, 25)
	for y := 2016; y <= hi+1; y++ {
		if y >= lo {
			t.kat[y-lo] = k
		}
		k += Length(y, exc)
	}
	k = Days(2015, 11, 25)
	for y := 2016; y >= lo; y-- {
		if y <= hi+1 {
			t.kat[y-lo] = k
		}
		k -= Length(y-1, exc)
	}
	return t
}

func (t *Table) Kattika(y int) int { return t.kat[y-t.Lo] }

func (t *Table) Asalha(y int) int {
	n := 4 * 59
	if Am(y) {
		n += 30
	} else if Av(y, t.Exc) {
		n++
	}
	return t.Kattika(y) + n
}

// ---- uposathas ----

type Moon struct {
	Day    int // days since 1970-01-01
	Phase  string
	Month  int
	MDays  int
	UDays  int
	Season int
	SNum   int
	STot   int
	BE     int
	Event  string
	HasAv  bool
}

// Month list of the lunar year that follows the Kattika full moon before solar
// year y.
type Month struct{ Num, Days, Season int }

func Months(y int, exc bool) (ms []Month) {
	am, av := Am(y), Av(y, exc)
	for i := 1; i <= 12; i++ {
		d := 29
		if i%2 == 1 || i == 8 && av {
			d = 30
		}
		ms = append(ms, Month{i, d, (i-1)/4 + 1})
		if i == 8 && am {
			ms = append(ms, Month{13, 30, 2})
		}
	}
	return ms
}

// Moons lists the uposathas of the lunar year that follows Kattika(y).
func (t *Table) Moons(y int) (out []Moon) {
	am, av := Am(y), Av(y, t.Exc)
	ms := Months(y, t.Exc)
	inSeason := map[int]int{}
	for _, m := range ms {
		inSeason[m.Season] += 2
	}
	events := map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
	if am {
		events = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
	}
	day := t.Kattika(y)
	count := map[int]int{}
	for _, m := range ms {
		for _, phase := range []string{"new", "full"} {
			u := 15
			if phase == "new" {
				u = m.Days - 15
			}
			day += u
			count[m.Season]++
			x := Moon{Day: day, Phase: phase, Month: m.Num, MDays: m.Days, UDays: u, Season: m.Season,
				SNum: count[m.Season], STot: inSeason[m.Season], BE: y + 543}
			if phase == "full" {
				x.Event = events[m.Num]
			} else {
				x.HasAv = m.Num == 8 && av
			}
			out = append(out, x)
		}
	}
	return out
}
