// Command core decides the properties of the calculation core.
package main

import (
	"fmt"
	"math"
	"sort"
	"time"
	_ "time/tzdata"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/ref"
)

const (
	y0    = 638            // first year of the era
	full  = ref.NStates    // period of (kammacubala, avoman, tithi) in years
	lo    = 639            // first year whose neighbours are in the era
	hiCal = 4000           // last year of the dated calendar we make claims on
	full4 = 4 * 16_608_000 // covers the uccabala cycle as well (see C01)
)

var locals = []*time.Location{
	time.UTC,
	time.FixedZone("east", 7*3600),
	time.FixedZone("west", -11*3600),
	zone("America/Santiago"), // summer time, the clock changes at midnight
	zone("Asia/Beirut"),
	time.FixedZone("far east", 14*3600), // where noon UTC is another day
	zone("Pacific/Apia"),                // a whole day left out in 2011
}

func zone(name string) *time.Location {
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

func mkYear(y int) (su suriya.SuriyaYear) { su.Init(y); return }

func elems(su suriya.SuriyaYear) ref.Year {
	return ref.Year{Year: su.Year, BE: su.BE_Year, CS: su.CS_Year, H: su.Horakhun, K: su.Kammacubala,
		U: su.Uccabala, Av: su.Avoman, Mas: su.Masaken, Tithi: su.Tithi}
}

func civilDay(t time.Time) int {
	y, m, d := t.Date()
	return ref.Days(y, int(m), d)
}

func dstr(day int) string {
	y, m, d := ref.Civil(day)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

// closure checks on the model alone that the abstract calendar machine returns
// to its start after exactly NStates years and visits every state once, so that
// enumerating that many years enumerates every reachable state.
func closure(c *fw.Ctx) {
	c.EnumFine("model closure", 1, func(int) *fw.Fail {
		seen := make([]uint64, (ref.NStates+63)/64)
		s := ref.Start()
		n := 0
		for {
			i := s.Index()
			if seen[i>>6]&(1<<uint(i&63)) != 0 {
				break
			}
			seen[i>>6] |= 1 << uint(i&63)
			n++
			s = s.Step()
		}
		if s != ref.Start() || n != ref.NStates {
			panic(fw.HarnessError("the model's state space is not one cycle"))
		}
		c.Info("model states (closed cycle)", n)
		return nil
	})
}

func yearsQT(c *fw.Ctx, quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// ---------------------------------------------------------------- C01

// farYears are years from 2^20 to 2^33, around powers of two and of ten and the
// limits of smaller kinds of numbers in what is calculated from them.
func farYears() (ys []int) {
	near := func(y int) {
		for d := -130; d <= 130; d++ {
			if y+d > 1<<20 && y+d <= 1<<33 {
				ys = append(ys, y+d)
			}
		}
	}
	for k := uint(20); k <= 33; k++ {
		near(1 << k)
		near(3 << (k - 1))
		near(1<<k + 638)
		// elapsed days, 800ths of them, and 692nds of a tithi near a power of two
		for w := k; w <= 52; w++ {
			near((1<<w)/365 + 638)
			near((1<<w)/292207 + 638)
			near((1<<w)/(365*703) + 638)
		}
	}
	for p := 10_000_000; p <= 1<<33; p *= 10 {
		for k := 1; k < 10; k++ {
			near(k * p)
		}
	}
	sort.Ints(ys)
	n := 0
	for i, y := range ys {
		if i == 0 || y != ys[n-1] {
			ys[n] = y
			n++
		}
	}
	return ys[:n]
}

func c01(c *fw.Ctx) {
	closure(c)
	var dirty suriya.SuriyaYear
	n := yearsQT(c, full4, 4*full4)
	year := func(i, y int) *fw.Fail {
		want := ref.Elements(y)
		su := mkYear(y)
		if got := elems(su); got != want {
			return fw.Failf(fmt.Sprintf("year %d", y), fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got))
		}
		// a value that held another year before
		dirty.Init(y)
		if got := elems(dirty); got != want {
			return fw.Failf(fmt.Sprintf("year %d set on a value used before", y), fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got))
		}
		// declarative invariants, on the implementation's values
		e := elems(su)
		if 800*e.H-e.K != 292207*e.CS+373 || e.K < 1 || e.K > 800 ||
			e.Tithi < 0 || e.Tithi > 29 || e.Av < 0 || e.Av > 691 || e.U < 0 || e.U > 3231 ||
			(30*e.Mas+e.Tithi) != e.H+(11*e.H+650-e.Av)/692 {
			return fw.Failf(fmt.Sprintf("year %d", y), "elements consistent and in range", fmt.Sprintf("%+v", e))
		}
		nx := mkYear(y + 1)
		d := nx.Horakhun - su.Horakhun
		if d != 365 && d != 366 || (d == 366) != su.Is_Suriya_Leap() {
			return fw.Failf(fmt.Sprintf("years %d and %d", y, y+1), "365 days, or 366 after a leap year", fmt.Sprintf("%d days, leap=%v", d, su.Is_Suriya_Leap()))
		}
		st := ref.State{K: e.K, Av: e.Av, T: e.Tithi}.Step()
		if (st != ref.State{K: nx.Kammacubala, Av: nx.Avoman, T: nx.Tithi}) {
			return fw.Failf(fmt.Sprintf("years %d and %d", y, y+1), fmt.Sprintf("%+v", st), fmt.Sprintf("%+v", elems(nx)))
		}
		far := mkYear(y + 800)
		if far.Horakhun-su.Horakhun != 292207 || far.Kammacubala != su.Kammacubala {
			return fw.Failf(fmt.Sprintf("years %d and %d", y, y+800), "292207 days apart, same kammacubala", fmt.Sprintf("%d days", far.Horakhun-su.Horakhun))
		}
		if i < 8000 {
			for k, u := range usedYears(y) {
				u.Init(y)
				if got := elems(u); got != want {
					return fw.Failf(fmt.Sprintf("year %d set on value %d with numbers of its own", y, k), fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got))
				}
			}
		}
		c.States(1)
		c.Steps(2)
		c.Traces(1)
		if i%4_000_037 == 1325 {
			c.Sample("%+v", e)
		}
		return nil
	}
	c.Enum("elements of the year", n, func(i int) *fw.Fail { return year(i, y0+i) })
	far := farYears()
	c.Enum("elements of the year, far years", len(far), func(i int) *fw.Fail { return year(full, far[i]) })
	c.Enum("values as text", yearsQT(c, 200_000, 2_000_000), func(i int) *fw.Fail {
		y := y0 + i
		e := ref.Elements(y)
		su := mkYear(y)
		want := fmt.Sprintf("CE: %d\nBE: %d\nCS: %d\nHorakhun: %d\nKammacubala: %d\nUccabala: %d\nAvoman: %d\nMasaken: %d\nTithi: %d\n",
			e.Year, e.BE, e.CS, e.H, e.K, e.U, e.Av, e.Mas, e.Tithi)
		if got := su.SuriyaValuesString(); got != want {
			return fw.Failf(fmt.Sprintf("year %d as text", y), want, got)
		}
		if got := su.String(); got != fmt.Sprint(y) {
			return fw.Failf(fmt.Sprintf("year %d as text", y), y, got)
		}
		c.Traces(1)
		return nil
	})
}

// ---------------------------------------------------------------- C02, C03, C04

// usedYears are values a caller may set to year y: with numbers of their own, or
// those of another year and already the name of this one.
func usedYears(y int) []suriya.SuriyaYear {
	other := mkYear(y + 1)
	other.Year = y
	mixed := mkYear(y)
	mixed.Tithi, mixed.Avoman = (mixed.Tithi+7)%30, (mixed.Avoman+101)%692
	named := mkYear(y + 19)
	named.Year, named.BE_Year, named.CS_Year = y, y+543, y-638
	return []suriya.SuriyaYear{{Year: y}, {Year: y, BE_Year: y + 543, CS_Year: y - 638}, {Horakhun: 484049, Kammacubala: 552, Uccabala: 1780, Avoman: 61, Masaken: 16388, Tithi: 23}, other, mixed, named}
}

func usedDays(y, n int) []suriya.SuriyaDay {
	var other, next, named suriya.SuriyaDay
	other.Init(y+1, n)
	other.Year = y
	next.Init(y, n+1)
	next.Day = n
	named.Init(y+3, n+40)
	named.Year, named.BE_Year, named.CS_Year, named.Day = y, y+543, y-638, n
	days := []suriya.SuriyaDay{{Year: y, Day: n}, {Year: y, BE_Year: y + 543, CS_Year: y - 638, Day: n}, other, next, named}
	for i := range days[2:] {
		days[2+i].Horakhun++
	}
	return days
}

func c02(c *fw.Ctx) {
	closure(c)
	year := func(i, y int) *fw.Fail {
		su := mkYear(y)
		q, q1 := ref.Qualifies(y), ref.Qualifies(y+1)
		in := fmt.Sprintf("year %d", y)
		if got := su.Would_Be_Adhikamasa(); got != q {
			return fw.Failf(in+" qualifies (tithi "+fmt.Sprint(su.Tithi)+")", q, got)
		}
		am := su.Is_Adhikamasa()
		if am != (q && !q1) {
			return fw.Failf(in+" has an extra month", q && !q1, am)
		}
		if am {
			// never twice in a row, and again after two or three years
			n1, n2, n3 := mkYear(y+1), mkYear(y+2), mkYear(y+3)
			a1, a2, a3 := n1.Is_Adhikamasa(), n2.Is_Adhikamasa(), n3.Is_Adhikamasa()
			if a1 || !(a2 || a3) {
				return fw.Failf(in+" has an extra month; the next three years", "not the next; the second or the third", fmt.Sprint(a1, a2, a3))
			}
			if n1.Would_Be_Adhikamasa() {
				return fw.Failf(in, "the year after does not qualify", "it does")
			}
			c.Info("years with an extra month", 1)
		}
		c.States(1)
		c.Steps(1)
		c.Traces(1)
		if i%3_000_017 == 1373 {
			c.Sample("year %d: tithi %d, qualifies %v, next qualifies %v -> extra month %v", y, su.Tithi, q, q1, am)
		}
		return nil
	}
	c.Enum("extra month", full, func(i int) *fw.Fail { return year(i, lo+i) })
	far := farYears()
	c.Enum("extra month, far years", len(far), func(i int) *fw.Fail { return year(full, far[i]) })
	// The verdict depends on the value the caller holds, however it was made.
	c.Enum("reused values", 4000, func(i int) *fw.Fail {
		y := lo + i
		var su suriya.SuriyaYear
		for _, other := range []int{y + 1, y - 1, y + 7, 1984} {
			if other < y0 {
				continue
			}
			su.Init(other)
			su.Init(y)
			if su.Is_Adhikamasa() != ref.Am(y) {
				return fw.Failf(fmt.Sprintf("year %d on a value that held %d", y, other), ref.Am(y), su.Is_Adhikamasa())
			}
			c.Steps(1)
		}
		return nil
	})
}

func c03(c *fw.Ctx) {
	closure(c)
	suriya.UseExceptions = false
	year := func(i, y int) *fw.Fail {
		su := mkYear(y)
		in := fmt.Sprintf("year %d", y)
		am, prevAm := ref.Am(y), ref.Am(y-1)
		q, pq := ref.WouldAv(y), ref.WouldAv(y-1)
		if got := su.Would_Be_Adhikavara(); got != q {
			return fw.Failf(fmt.Sprintf("%s qualifies (leap %v, avoman %d)", in, su.Is_Suriya_Leap(), su.Avoman), q, got)
		}
		if got := su.Has_Carried_Adhikavara(); got != (prevAm && pq) {
			return fw.Failf(in+" takes over a postponed extra day", prevAm && pq, got)
		}
		av := su.Is_Adhikavara()
		want := !am && (q || prevAm && pq)
		if av != want {
			return fw.Failf(in+" has an extra day", want, av)
		}
		if av && su.Is_Adhikamasa() {
			return fw.Failf(in, "not both an extra month and an extra day", "both")
		}
		// a day postponed by an extra month is given in the next year
		nx := mkYear(y + 1)
		if su.Is_Adhikamasa() && q && !nx.Is_Adhikavara() {
			return fw.Failf(in+" postpones its extra day; the next year", "has it", "has not")
		}
		if av {
			c.Info("years with an extra day", 1)
			if !q {
				c.Info("of which postponed from the year before", 1)
			}
		}
		c.States(1)
		c.Steps(1)
		c.Traces(1)
		if i%3_000_017 == 1370 {
			c.Sample("year %d: leap %v avoman %d extra month %v, postponed %v -> extra day %v", y, su.Is_Suriya_Leap(), su.Avoman, am, prevAm && pq, av)
		}
		return nil
	}
	c.Enum("extra day", full, func(i int) *fw.Fail { return year(i, lo+i) })
	far := farYears()
	c.Enum("extra day, far years", len(far), func(i int) *fw.Fail { return year(full, far[i]) })
}

func c04(c *fw.Ctx) {
	closure(c)
	suriya.UseExceptions = false
	n := full
	const from = 660
	year := func(i, y int) *fw.Fail {
		su := mkYear(y)
		dm, dv := su.DeltaAdhikamasa(), su.DeltaAdhikavara()
		wm, wv := 1, 1
		for !ref.Am(y - wm) {
			wm++
		}
		for !ref.Av(y-wv, false) {
			wv++
		}
		if dm != wm {
			return fw.Failf(fmt.Sprintf("years since the last extra month before %d", y), wm, dm)
		}
		if dv != wv {
			return fw.Failf(fmt.Sprintf("years since the last extra day before %d", y), wv, dv)
		}
		if dm > 3 || dv > 12 {
			return fw.Failf(fmt.Sprintf("year %d", y), "extra month within 3 years, extra day within 12", fmt.Sprint(dm, " ", dv))
		}
		// as a step of the sequence: restart at one after an occurrence, else one more
		nx := mkYear(y + 1)
		sm, sv := dm+1, dv+1
		if su.Is_Adhikamasa() {
			sm = 1
		}
		if su.Is_Adhikavara() {
			sv = 1
		}
		if nx.DeltaAdhikamasa() != sm || nx.DeltaAdhikavara() != sv {
			return fw.Failf(fmt.Sprintf("step from %d to %d", y, y+1), fmt.Sprint(sm, " ", sv), fmt.Sprint(nx.DeltaAdhikamasa(), " ", nx.DeltaAdhikavara()))
		}
		c.States(1)
		c.Steps(1)
		c.Traces(1)
		c.Mark("outcome pairs", uint64(dm*100+dv))
		if i%500_009 == 1360 {
			c.Sample("year %d: %d years since the last extra month, %d since the last extra day", y, dm, dv)
		}
		return nil
	}
	c.Enum("years since", n, func(i int) *fw.Fail { return year(i, from+i) })
	far := farYears()
	c.Enum("years since, far years", len(far), func(i int) *fw.Fail { return year(full, far[i]) })
	// under the official exceptions
	c.Enum("years since, with exceptions", hiCal-from, func(i int) *fw.Fail {
		suriya.UseExceptions = true
		defer func() { suriya.UseExceptions = false }()
		y := from + i
		su := mkYear(y)
		wv := 1
		for !ref.Av(y-wv, true) {
			wv++
		}
		if dv := su.DeltaAdhikavara(); dv != wv {
			return fw.Failf(fmt.Sprintf("years since the last extra day before %d, with exceptions", y), wv, dv)
		}
		c.States(1)
		c.Traces(1)
		return nil
	})
}

// ---------------------------------------------------------------- C05, C06, C07

func kattikaChain(c *fw.Ctx, hi, hiOther int) {
	tab := ref.NewTable(lo, hi+1, false)
	for li, loc := range locals {
		time.Local = loc
		hi := hi
		if li > 0 {
			hi = hiOther
		}
		c.Enum(fmt.Sprintf("Kattika chain, local zone %d", li), hi-lo+1, func(i int) *fw.Fail {
			time.Local = loc
			y := lo + i
			k := suriya.CalculatePreviousKattika(y)
			in := fmt.Sprintf("Kattika full moon before %d (local zone %v)", y, loc)
			if k.Unix() != int64(tab.Kattika(y))*86400 || k.Nanosecond() != 0 {
				return fw.Failf(in, dstr(tab.Kattika(y))+" 00:00 UTC", k)
			}
			if civilDay(k) != tab.Kattika(y) {
				return fw.Failf(in, dstr(tab.Kattika(y)), k)
			}
			if k.Year() != y-1 && y <= hiCal {
				return fw.Failf(in, fmt.Sprint("in ", y-1), k)
			}
			n := suriya.CalculatePreviousKattika(y + 1)
			su := mkYear(y)
			l := su.YearLength()
			if int64(l)*86400 != n.Unix()-k.Unix() {
				return fw.Failf(fmt.Sprintf("length of the lunar year %d", y), fmt.Sprintf("%d days, the step to the next Kattika", (n.Unix()-k.Unix())/86400), l)
			}
			c.States(1)
			c.Steps(1)
			c.Traces(1)
			if i%800 == 18 {
				c.Sample("Kattika before %d: %s, lunar year of %d days", y, k.Format("2006-01-02"), l)
			}
			return nil
		})
	}
	time.Local = time.UTC
}

func c05(c *fw.Ctx) {
	suriya.UseExceptions = false
	kattikaChain(c, yearsQT(c, 10000, 25000), yearsQT(c, hiCal, 10000))
	c.Enum("year length", full, func(i int) *fw.Fail {
		y := lo + i
		su := mkYear(y)
		l := su.YearLength()
		if w := ref.Length(y, false); l != w {
			return fw.Failf(fmt.Sprintf("length of the lunar year %d", y), w, l)
		}
		am, av := su.Is_Adhikamasa(), su.Is_Adhikavara()
		if (l == 384) != am || (l == 355) != av || l != 354 && l != 355 && l != 384 {
			return fw.Failf(fmt.Sprintf("length of the lunar year %d (extra month %v, extra day %v)", y, am, av), "354, 355 or 384 accordingly", l)
		}
		c.States(1)
		c.Traces(1)
		return nil
	})
}

func c06(c *fw.Ctx) {
	suriya.UseExceptions = false
	hi := hiCal
	tab := ref.NewTable(lo, hi+1, false)
	for li, loc := range locals {
		time.Local = loc
		c.Enum(fmt.Sprintf("Asalha Puja, local zone %d", li), hi-lo+1, func(i int) *fw.Fail {
			time.Local = loc
			y := lo + i
			su := mkYear(y)
			a := su.AsalhaPuja()
			in := fmt.Sprintf("Asalha Puja of %d (local zone %v)", y, loc)
			if a.Unix() != int64(tab.Asalha(y))*86400 || civilDay(a) != tab.Asalha(y) {
				return fw.Failf(in, dstr(tab.Asalha(y)), a)
			}
			k := suriya.CalculatePreviousKattika(y)
			off := 236
			if su.Is_Adhikamasa() {
				off = 266
			} else if su.Is_Adhikavara() {
				off = 237
			}
			if a.Unix()-k.Unix() != int64(off)*86400 {
				return fw.Failf(in, fmt.Sprintf("%d days after Kattika", off), fmt.Sprintf("%v days", a.Sub(k).Hours()/24))
			}
			if a.Year() != y {
				return fw.Failf(in, fmt.Sprint("in ", y), a)
			}
			// the day's own elements say full moon: find the lunar year day that is this date
			var d suriya.SuriyaDay
			hit := false
			base := su.Horakhun - su.Tithi // day 0
			n := civilDay(a) - civilDay(suriya.HorakhunToDate(int64(base)))
			d.Init(y, n)
			hit = civilDay(suriya.HorakhunToDate(int64(d.Horakhun))) == civilDay(a)
			if !hit {
				return fw.Failf(in, fmt.Sprintf("the date of lunar year day %d", n), dstr(civilDay(suriya.HorakhunToDate(int64(d.Horakhun)))))
			}
			if d.Tithi != 14 && d.Tithi != 15 {
				return fw.Failf(in+", age of the moon on that day", "14 or 15 (full)", d.Tithi)
			}
			c.States(1)
			c.Steps(1)
			c.Traces(1)
			c.Mark("outcome offset, tithi", uint64(off*100+d.Tithi))
			if i%700 == 24 {
				c.Sample("%s: %s, %d days after Kattika, moon aged %d", in, a.Format("2006-01-02"), off, d.Tithi)
			}
			return nil
		})
	}
	time.Local = time.UTC
}

func c07(c *fw.Ctx) {
	off := ref.NewTable(lo, hiCal+1, false)
	on := ref.NewTable(lo, hiCal+1, true)
	// every history of switching of length <= 4 before the question
	for h := 0; h < 31; h++ {
		hist := []bool{}
		for v, l := h+1, 0; v>>uint(l+1) > 0; l++ {
			hist = append(hist, v>>uint(l)&1 == 1)
		}
		lim := hiCal
		if h > 2 {
			lim = 2300
		}
		from := lo
		if h > 2 {
			from = 1700
		}
		name := fmt.Sprintf("switching history %v", hist)
		c.Enum(name, lim-from+1, func(i int) *fw.Fail {
			defer func() { suriya.UseExceptions = false }()
			y := from + i
			suriya.UseExceptions = false
			cur := false
			for _, b := range hist {
				suriya.UseExceptions = b
				cur = b
				// something is asked under every setting
				su := mkYear(1994)
				su.Is_Adhikavara()
				su = mkYear(y)
				su.AsalhaPuja()
			}
			tab := off
			if cur {
				tab = on
			}
			su := mkYear(y)
			in := fmt.Sprintf("year %d, exceptions %v after %v", y, cur, hist)
			if g, w := su.Is_Adhikavara(), ref.Av(y, cur); g != w {
				return fw.Failf(in+", extra day", w, g)
			}
			if g, w := su.Is_Adhikamasa(), ref.Am(y); g != w {
				return fw.Failf(in+", extra month", w, g)
			}
			if g, w := su.YearLength(), ref.Length(y, cur); g != w {
				return fw.Failf(in+", length", w, g)
			}
			if g, w := civilDay(suriya.CalculatePreviousKattika(y)), tab.Kattika(y); g != w {
				return fw.Failf(in+", Kattika before", dstr(w), dstr(g))
			}
			g, w := civilDay(su.AsalhaPuja()), tab.Asalha(y)
			if g != w {
				return fw.Failf(in+", Asalha Puja", dstr(w), dstr(g))
			}
			// the effect of the switch is exactly the official difference
			shift := 0
			if cur && (y == 1994 || y == 1995 || y == 1996) {
				shift = -1
			}
			if g != off.Asalha(y)+shift {
				return fw.Failf(in+", Asalha Puja against the regular calendar", dstr(off.Asalha(y)+shift), dstr(g))
			}
			if ref.Av(y, cur) != ref.Av(y, false) && y != 1994 && y != 1997 {
				return fw.Failf(in, "no difference", "different")
			}
			c.States(1)
			c.Steps(len(hist))
			c.Traces(1)
			if y >= 1993 && y <= 1997 && h < 2 {
				c.Sample("%s: extra day %v, Asalha Puja %s", in, su.Is_Adhikavara(), dstr(g))
			}
			return nil
		})
	}
	// Tables that the user replaces or edits: exactly the listed common years
	// change, and with them the dates between them and the date the chain is
	// counted from.
	own := func(in string, tab map[int]bool, use bool, a, b int) *fw.Fail {
		suriya.UseExceptions = use
		ref.Exceptions = tab
		for z := a - 3; z <= b+3; z++ {
			su := mkYear(z)
			at := fmt.Sprintf("%s, in use %v", in, use)
			w := ref.Av(z, use)
			if g := su.Is_Adhikavara(); g != w {
				return fw.Failf(fmt.Sprintf("%s: extra day of %d", at, z), w, g)
			}
			if g := su.Is_Adhikamasa(); g != ref.Am(z) {
				return fw.Failf(fmt.Sprintf("%s: extra month of %d", at, z), ref.Am(z), g)
			}
			l := ref.Length(z, use)
			if g := su.YearLength(); g != l {
				return fw.Failf(fmt.Sprintf("%s: length of %d", at, z), l, g)
			}
			// all exceptions listed lie on one side of 2015
			k := off.Kattika(z)
			for e := range tab {
				if !use || ref.Av(e, true) == ref.Av(e, false) {
					continue
				}
				d := 1
				if !tab[e] {
					d = -1
				}
				if e > 2015 && z > e {
					k += d
				} else if e <= 2015 && z <= e {
					k -= d
				}
			}
			if g := civilDay(suriya.CalculatePreviousKattika(z)); g != k {
				return fw.Failf(fmt.Sprintf("%s: Kattika before %d", at, z), dstr(k), dstr(g))
			}
			if g, w := civilDay(su.AsalhaPuja()), k+l-118; g != w {
				return fw.Failf(fmt.Sprintf("%s: Asalha Puja of %d", at, z), dstr(w), dstr(g))
			}
			c.Steps(1)
		}
		c.States(1)
		c.Traces(1)
		return nil
	}
	tidy := func() {
		suriya.AdhikavaraExceptions = ref.Official()
		suriya.UseExceptions = false
		ref.Exceptions = ref.Official()
	}
	oldest, latest := 1500, 2600
	if c.Thorough {
		oldest, latest = 700, 3900
	}
	c.EnumFine("own exceptions", latest-oldest+1, func(i int) *fw.Fail {
		y := oldest + i
		defer tidy()
		for _, want := range []bool{true, false} {
			if ref.Am(y) && want {
				continue // a year cannot have both an extra month and an extra day
			}
			tab := map[int]bool{y: want}
			// as a table of its own
			suriya.AdhikavaraExceptions = tab
			for _, use := range []bool{true, false, true} {
				if f := own(fmt.Sprintf("exceptions %v", tab), tab, use, y, y); f != nil {
					return f
				}
			}
			// written into the table that is there
			suriya.AdhikavaraExceptions = map[int]bool{}
			for _, step := range []map[int]bool{{}, tab, {}, {y: !want}, tab} {
				if ref.Am(y) && step[y] {
					continue
				}
				delete(suriya.AdhikavaraExceptions, y)
				for k, v := range step {
					suriya.AdhikavaraExceptions[k] = v
				}
				if f := own(fmt.Sprintf("exceptions %v after others", step), step, true, y, y); f != nil {
					return f
				}
			}
		}
		return nil
	})
	c.EnumFine("two own exceptions", latest-oldest+1, func(i int) *fw.Fail {
		y := oldest + i
		defer tidy()
		for d := 1; d <= 3; d++ {
			for v := 0; v < 4; v++ {
				tab := map[int]bool{y: v&1 != 0, y + d: v&2 != 0}
				if ref.Am(y) && tab[y] || ref.Am(y+d) && tab[y+d] {
					continue
				}
				suriya.AdhikavaraExceptions = tab
				if f := own(fmt.Sprintf("exceptions %v", tab), tab, true, y, y+d); f != nil {
					return f
				}
			}
		}
		return nil
	})
	// tables of many entries: every p-th year of sixty
	wins, most := 10, 6
	if c.Thorough {
		most = 12
	}
	shapes := 0
	for p := 1; p <= most; p++ {
		shapes += p
	}
	c.EnumFine("many own exceptions", wins*shapes*2, func(i int) *fw.Fail {
		defer tidy()
		first, want, v := 1700+60*(i%wins), i/wins%2 == 0, i/wins/2
		p := 1
		for v >= p {
			v -= p
			p++
		}
		tab := map[int]bool{}
		for y := first + v; y < first+60; y += p {
			if !want || !ref.Am(y) {
				tab[y] = want
			}
		}
		suriya.AdhikavaraExceptions = tab
		in := fmt.Sprintf("exceptions for every year n·%d+%d of %d-%d: %v", p, v, first, first+59, want)
		if f := own(in, tab, true, first, first+59); f != nil {
			return f
		}
		return own(in, tab, false, first, first+59)
	})
}

// ---------------------------------------------------------------- C08

func c08(c *fw.Ctx) {
	n := yearsQT(c, 20_000_000, 400_000_000)
	from := -n / 2
	var distant []int
	for k := uint(20); k <= 50; k++ {
		for d := -60; d <= 60; d++ {
			distant = append(distant, 1<<k+d, -1<<k+d, 1984+1<<k+d, 1984-1<<k+d)
		}
	}
	for p := 1_000_000; p <= 1_000_000_000_000_000; p *= 10 {
		for d := -60; d <= 60; d++ {
			distant = append(distant, p+d, -p+d)
		}
	}
	for _, cyc := range []struct {
		n   int
		pos func(suriya.SuriyaYear) int
	}{{57, func(su suriya.SuriyaYear) int { return su.AdhikavaraCyclePos() }}, {19, func(su suriya.SuriyaYear) int { return su.AdhikamasaCyclePos() }}} {
		cyc := cyc
		year := func(i, y int) *fw.Fail {
			su := suriya.SuriyaYear{Year: y}
			if y >= y0 && y <= 1<<33 {
				su = mkYear(y)
			}
			want := ref.FMod(y-1984, cyc.n) + 1
			if g := cyc.pos(su); g != want {
				return fw.Failf(fmt.Sprintf("position of %d in the %d year cycle", y, cyc.n), want, g)
			}
			nx := cyc.pos(suriya.SuriyaYear{Year: y + 1})
			if nx != cyc.pos(su)%cyc.n+1 {
				return fw.Failf(fmt.Sprintf("step from %d to %d in the %d year cycle", y, y+1, cyc.n), cyc.pos(su)%cyc.n+1, nx)
			}
			c.Steps(1)
			c.Traces(1)
			c.Mark(fmt.Sprint("position in ", cyc.n), uint64(want))
			if i%90001 == 7 {
				c.Sample("%d is year %d of the %d year cycle", y, want, cyc.n)
			}
			return nil
		}
		c.Enum(fmt.Sprintf("%d year cycle", cyc.n), n, func(i int) *fw.Fail { return year(i, from+i) })
		c.Enum(fmt.Sprintf("%d year cycle, far years", cyc.n), len(distant), func(i int) *fw.Fail { return year(0, distant[i]) })
	}
}

// ---------------------------------------------------------------- C09

func c09(c *fw.Ctx) {
	lowDay := -300_000
	n := yearsQT(c, 4_000_000, 60_000_000)
	refDay := ref.Days(1963, 7, 5) - 484049
	for li, loc := range locals {
		c.Enum(fmt.Sprintf("day count to date, local zone %d", li), n, func(i int) *fw.Fail {
			time.Local = loc
			h := lowDay + i
			t := suriya.HorakhunToDate(int64(h))
			in := fmt.Sprintf("elapsed day %d (local zone %v)", h, loc)
			if g, w := civilDay(t), refDay+h; g != w {
				return fw.Failf(in, dstr(w), dstr(g))
			}
			if g := ref.FDiv(int(t.Unix()), 86400); g != refDay+h {
				return fw.Failf(in+", as an instant", dstr(refDay+h)+" UTC", t)
			}
			n := suriya.HorakhunToDate(int64(h + 1))
			if n.Unix()-t.Unix() != 86400 {
				return fw.Failf(in+" and the next", "24 hours apart", n.Sub(t))
			}
			c.States(1)
			c.Steps(1)
			c.Traces(1)
			if i%300_007 == 6 {
				c.Sample("elapsed day %d is %s", h, t.Format("2006-01-02"))
			}
			return nil
		})
	}
	time.Local = time.UTC
	// far away, around each multiple of powers of two and of the 290 year step
	var far []int
	for _, unit := range []int{290 * 356, 290 * 365, 146097, 1 << 16, 292207} {
		for k := -200; k <= 200; k++ {
			for d := -2; d <= 2; d++ {
				far = append(far, 484049+k*unit+d)
			}
		}
	}
	// and further off, near powers of two and ten
	top := yearsQT(c, 36, 38)
	for b := 20; b <= top; b++ {
		for d := -2; d <= 2; d++ {
			far = append(far, 1<<uint(b)+d, -1<<uint(b)+d)
		}
	}
	for p := 10_000_000; p <= 10_000_000_000; p *= 10 {
		for k := 1; k <= 9; k++ {
			far = append(far, k*p, -k*p, 484049+k*p, 484049-k*p)
		}
	}
	c.EnumFine("far days", len(far), func(i int) *fw.Fail {
		h := far[i]
		t := suriya.HorakhunToDate(int64(h))
		if g, w := civilDay(t), refDay+h; g != w {
			return fw.Failf(fmt.Sprintf("elapsed day %d", h), dstr(w), dstr(g))
		}
		c.Mark("far days", uint64(h))
		c.Traces(1)
		return nil
	})
}

// ---------------------------------------------------------------- C10, C11

type dayFields struct {
	i [10]int
	f [5]float64
}

func fields(d *suriya.SuriyaDay) dayFields {
	return dayFields{[10]int{d.Year, d.BE_Year, d.CS_Year, d.Day, d.Horakhun, d.Kammacubala, d.Uccabala, d.Avoman, d.Masaken, d.Tithi},
		[5]float64{d.MeanSun, d.TrueSun, d.MeanMoon, d.TrueMoon, d.Raek}}
}

func dayLoop(c *fw.Ctx, lastQuick, lastThorough int, f func(y, n int, d *suriya.SuriyaDay) *fw.Fail) {
	last := yearsQT(c, lastQuick, lastThorough)
	var dirty suriya.SuriyaDay
	c.Enum("days of the lunar years", last-y0+1, func(i int) *fw.Fail {
		y := y0 + i
		for n := 1; n <= 400; n++ {
			if h := ref.Elements(y); h.H+n-h.Tithi < 0 {
				continue
			}
			var d suriya.SuriyaDay
			d.Init(y, n)
			dirty.Init(y, n)
			if fields(&dirty) != fields(&d) {
				return fw.Failf(fmt.Sprintf("year %d day %d on a value used before", y, n), fmt.Sprintf("%+v", d), fmt.Sprintf("%+v", dirty))
			}
			if fl := f(y, n, &d); fl != nil {
				return fl
			}
			c.States(1)
			c.Traces(1)
		}
		return nil
	})
}

func c10(c *fw.Ctx) {
	dayLoop(c, 200_000, 3_000_000, func(y, n int, d *suriya.SuriyaDay) *fw.Fail {
		e := ref.Elements(y)
		in := fmt.Sprintf("year %d day %d", y, n)
		el := n - e.Tithi
		type ints struct{ Year, BE, CS, Day, H, K, U, Av, Mas, Tithi int }
		h := e.H + el
		av, mas, ti := ref.Lunar(h)
		want := ints{y, e.BE, e.CS, n, h, e.K + 800*el, ref.FMod(h+2611, 3232), av, mas, ti}
		got := ints{d.Year, d.BE_Year, d.CS_Year, d.Day, d.Horakhun, d.Kammacubala, d.Uccabala, d.Avoman, d.Masaken, d.Tithi}
		if got != want {
			return fw.Failf(in, fmt.Sprintf("%+v", want), fmt.Sprintf("%+v", got))
		}
		if el == 0 {
			su := mkYear(y)
			s := elems(su)
			if s.H != d.Horakhun || s.K != d.Kammacubala || s.U != d.Uccabala || s.Av != d.Avoman || s.Mas != d.Masaken || s.Tithi != d.Tithi {
				return fw.Failf(in+" is the new year", fmt.Sprintf("%+v", s), fmt.Sprintf("%+v", got))
			}
			c.Info("new year days compared with the year", 1)
		}
		// the same day named from the year after
		nx := ref.Elements(y + 1)
		if m := h - nx.H + nx.Tithi; m >= 1 {
			var o suriya.SuriyaDay
			o.Init(y+1, m)
			if o.Horakhun != d.Horakhun || o.Uccabala != d.Uccabala || o.Avoman != d.Avoman || o.Masaken != d.Masaken || o.Tithi != d.Tithi {
				return fw.Failf(fmt.Sprintf("%s is year %d day %d", in, y+1, m), fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", o))
			}
			c.Info("days named from two years", 1)
		}
		if y < 3000 && n%20 == 3 {
			for k, u := range usedDays(y, n) {
				u.Init(y, n)
				if !sameDay(u, *d) {
					return fw.Failf(fmt.Sprintf("%s set on value %d with numbers of its own", in, k), fmt.Sprintf("%+v", *d), fmt.Sprintf("%+v", u))
				}
			}
		}
		// step to the next day
		var o suriya.SuriyaDay
		o.Init(y, n+1)
		dt := o.Masaken*30 + o.Tithi - d.Masaken*30 - d.Tithi
		if o.Horakhun != d.Horakhun+1 || o.Kammacubala != d.Kammacubala+800 || dt != 1 && dt != 2 {
			return fw.Failf(in+" and the next", "one day on, one or two tithi on", fmt.Sprintf("%+v", o))
		}
		c.Steps(1)
		if n == 103 && y%4000 == 563 {
			c.Sample("%s: %+v", in, got)
		}
		return nil
	})
}

func sameDay(a, b suriya.SuriyaDay) bool {
	a.Date, b.Date = b.Date, b.Date
	return a == b
}

const rad = math.Pi / 180

// circ is the distance of two angles on the circle.
func circ(a, b float64) float64 {
	d := math.Mod(a-b, 360)
	if d < 0 {
		d += 360
	}
	return math.Min(d, 360-d)
}

// cut is x with everything after the fourth decimal cut off, in ten-thousandths;
// near says that the cut may as well fall one lower or higher, because x lies on
// it within the accuracy of floating point.
func cut(x float64) (k float64, near bool) {
	y := x * 10000
	return math.Floor(y), math.Abs(y-math.Round(y)) < 1e-6
}

func isCut(got, x float64) bool {
	k, near := cut(x)
	if near {
		r := math.Round(x * 10000)
		return math.Abs(got*10000-r) < 1e-5 || math.Abs(got*10000-(r-1)) < 1e-5
	}
	return math.Abs(got*10000-k) < 1e-5
}

func c11(c *fw.Ctx) {
	const eps = 1e-8
	dayLoop(c, 100_000, 2_000_000, func(y, n int, d *suriya.SuriyaDay) *fw.Fail {
		e := ref.Elements(y)
		el := n - e.Tithi
		h := e.H + el
		av, _, ti := ref.Lunar(h)
		in := fmt.Sprintf("year %d day %d", y, n)
		a := el*800 + e.K // 800ths of a day since the new year
		// mean sun in whole arcminutes, 3 less for the longitude, to four decimals
		m := ref.FDiv(a*21600, 292207) - 3
		ms4 := ref.FDiv(m*500, 3)
		ms := float64(ms4) / 10000
		if math.Abs(d.MeanSun-ms) > eps {
			return fw.Failf(in+", mean sun", ms, d.MeanSun)
		}
		// equation of the sun in whole arcminutes, the sum to four decimals
		x := 134 * math.Sin(math.Abs(ms-80)*rad)
		ok := false
		for _, k := range []float64{math.Floor(x - 1e-9), math.Floor(x + 1e-9)} {
			ok = ok || isCut(d.TrueSun, ms+k/60)
		}
		if !ok {
			return fw.Failf(in+", true sun", ms+math.Floor(x)/60, d.TrueSun)
		}
		ts := d.TrueSun
		// mean moon: 12 degrees a tithi, the avoman in arcminutes and a 25th of it, 40 arcminutes less
		mm := ts + float64(av+av/25)/60 + 12*float64(ti) - 0.6666
		if circ(d.MeanMoon, mm) > eps {
			return fw.Failf(in+", mean moon", mm, d.MeanMoon)
		}
		if d.MeanMoon < 0 || d.MeanMoon > 360 {
			return fw.Failf(in+", mean moon", "within the circle", d.MeanMoon)
		}
		// apogee of the moon: one turn in 3232 days, 2 arcminutes more
		apo := float64(ref.FMod(h+2611, 3232))*360/3232 + 2.0/60
		tm := d.MeanMoon - 296*math.Sin((d.MeanMoon-apo)*rad)/60
		ok = false
		for _, turn := range []float64{-360, 0, 360} {
			ok = ok || isCut(d.TrueMoon, tm+turn)
		}
		if !ok {
			return fw.Failf(in+", true moon", tm, d.TrueMoon)
		}
		if d.TrueMoon < 0 || d.TrueMoon > 360 {
			return fw.Failf(in+", true moon", "within the circle", d.TrueMoon)
		}
		// lunar mansion: the circle in 27 of 13 degrees 20 minutes, counted from 1
		r := d.TrueMoon/13.3333 + 1
		if math.Abs(d.Raek-r) > eps || d.Raek < 1 || d.Raek > 28.0002 {
			return fw.Failf(in+", raek", r, d.Raek)
		}
		// the true positions stay within the greatest equation of the mean ones
		if math.Abs(d.TrueSun-d.MeanSun) > 134.0/60+1e-4 || circ(d.TrueMoon, d.MeanMoon) > 296.0/60+1e-4 {
			return fw.Failf(in, "equations of at most 134 and 296 arcminutes", fmt.Sprint(d.TrueSun-d.MeanSun, " ", circ(d.TrueMoon, d.MeanMoon)))
		}
		// one day's motion
		var o suriya.SuriyaDay
		o.Init(y, n+1)
		if ds := o.TrueSun - d.TrueSun; ds < 0.9 || ds > 1.1 {
			return fw.Failf(in+" and the next, motion of the sun", "about one degree", ds)
		}
		if dm := math.Mod(o.TrueMoon-d.TrueMoon+720, 360); dm < 11 || dm > 15.5 {
			return fw.Failf(in+" and the next, motion of the moon", "11 to 15.5 degrees", dm)
		}
		c.Steps(1)
		if n == 103 && y%3000 == 463 {
			c.Sample("%s: sun %.4f moon %.4f raek %.4f", in, d.TrueSun, d.TrueMoon, d.Raek)
		}
		return nil
	})
}

// ---------------------------------------------------------------- C12

func c12(c *fw.Ctx) {
	// every arcminute of -20..+20 turns of the circle... and fractions of it
	turns := yearsQT(c, 100, 1000)
	fr := []float64{0, 1e-7, 0.25, 0.5, 1.0 / 3, 0.75, 0.999}
	c.Enum("degrees to rasi, angsa, lipda", turns*2*21600, func(i int) *fw.Fail {
		m := i - turns*21600
		for _, f := range fr {
			deg := (float64(m) + f) / 60
			x, y, z := suriya.DegreeToRal(deg)
			in := fmt.Sprintf("%v degrees", deg)
			got := float64(1800*x + 60*y + z)
			if y < 0 || y > 29 || z < 0 || z > 59 {
				return fw.Failf(in, "0-29 degrees and 0-59 minutes", fmt.Sprint(x, ":", y, ":", z))
			}
			if d := 60*deg - got; d < -1e-6 || d > 1+1e-6 {
				return fw.Failf(in, fmt.Sprintf("the whole minutes of %v", deg), fmt.Sprint(x, ":", y, ":", z))
			}
			if s := suriya.DegreeToRalString(deg); s != fmt.Sprintf("%d:%d°%d'", x, y, z) {
				return fw.Failf(in+" as text", fmt.Sprintf("%d:%d°%d'", x, y, z), s)
			}
			// and back: never above, less than a minute and the fifth decimal below
			b := suriya.RalToDegree(x, y, z)
			if d := deg - b; d < -1e-9-1e-6 || d > 1.0/60+1.1e-4 {
				return fw.Failf(in+" there and back", deg, b)
			}
			n := suriya.NormalizeDegree(deg)
			if n < 0 || n > 360 || circ(n, deg) > 1e-6 {
				return fw.Failf(in+" brought into the circle", "0 to 360 and the same direction", n)
			}
			if deg >= 0 && deg <= 360 && n != deg {
				return fw.Failf(in+" brought into the circle", deg, n)
			}
			if nn := suriya.NormalizeDegree(n); nn != n {
				return fw.Failf(in+" brought into the circle twice", n, nn)
			}
			c.States(1)
			c.Traces(1)
			c.Steps(4)
		}
		if i%30_011 == 77 {
			x, y, z := suriya.DegreeToRal(float64(m) / 60)
			c.Sample("%d arcminutes: %d:%d:%d", m, x, y, z)
		}
		return nil
	})
	// very near a whole minute, on either side (nearer than 1e-11 the product
	// with 60 itself rounds)
	near := []float64{1e-6, 1e-7, 1e-8, 1e-9, 1e-10}
	nt := yearsQT(c, 4, 40)
	c.Enum("near whole minutes", 2*nt*21600, func(i int) *fw.Fail {
		m := i - nt*21600
		for _, e := range near {
			if m > 86400 || m < -86400 {
				e *= 100
			}
			for _, f := range []float64{e, -e} {
				deg := float64(m)/60 + f
				want := m
				if f < 0 {
					want--
				}
				x, y, z := suriya.DegreeToRal(deg)
				if 1800*x+60*y+z != want || y < 0 || y > 29 || z < 0 || z > 59 {
					return fw.Failf(fmt.Sprintf("%.12g degrees", deg), fmt.Sprintf("the whole minutes, %d:%d:%d", ref.FDiv(want, 1800), ref.FMod(ref.FDiv(want, 60), 30), ref.FMod(want, 60)), fmt.Sprint(x, ":", y, ":", z))
				}
			}
		}
		c.States(2 * len(near))
		c.Traces(2 * len(near))
		c.Steps(2 * len(near))
		return nil
	})
	// far angles: every arcminute of single turns, at growing distances
	var far []int
	for k := 25; k <= yearsQT(c, 1<<20, 1<<24); k = k*2 + 1 {
		far = append(far, k, -k)
	}
	const per = 21600
	c.Enum("far angles", len(far)*per, func(i int) *fw.Fail {
		m := far[i/per]*per + i%per
		for _, f := range []float64{0.25, 0.5, 0.75} {
			deg := (float64(m) + f) / 60
			tol := 1e-6 + math.Abs(deg)*1e-13*60
			x, y, z := suriya.DegreeToRal(deg)
			in := fmt.Sprintf("%v degrees", deg)
			if y < 0 || y > 29 || z < 0 || z > 59 || 1800*x+60*y+z != m {
				return fw.Failf(in, fmt.Sprint("the whole minutes, ", m), fmt.Sprint(x, ":", y, ":", z))
			}
			b := suriya.RalToDegree(x, y, z)
			if d := deg - b; d < -tol || d > 1.0/60+1.1e-4+tol {
				return fw.Failf(in+" there and back", deg, b)
			}
			n := suriya.NormalizeDegree(deg)
			if n < 0 || n > 360 || circ(n, float64(ref.FMod(m, per))/60+f/60) > tol {
				return fw.Failf(in+" brought into the circle", "0 to 360 and the same direction", n)
			}
			c.States(1)
			c.Traces(1)
			c.Steps(3)
		}
		return nil
	})
	c.Enum("rasi, angsa, lipda to degrees", 14*32, func(i int) *fw.Fail {
		x, y := i/32-1, i%32-1
		for z := -61; z <= 121; z++ {
			d := suriya.RalToDegree(x, y, z)
			exact := float64(1800*x+60*y+z) / 60
			in := fmt.Sprintf("%d:%d:%d", x, y, z)
			if w := float64(ref.FDiv((1800*x+60*y+z)*500, 3)) / 10000; math.Abs(d-w) > 1e-8 {
				return fw.Failf(in+" in degrees", fmt.Sprintf("%v, four decimals of %v", w, exact), d)
			}
			if y >= 0 && y <= 29 && z >= 0 && z <= 59 {
				// and back: the same, or one minute less by the cut fifth decimal
				a, b, e := suriya.DegreeToRal(d)
				if diff := 1800*x + 60*y + z - (1800*a + 60*b + e); diff < 0 || diff > 1 {
					return fw.Failf(in+" there and back", in, fmt.Sprintf("%d:%d:%d", a, b, e))
				}
			}
			c.States(1)
			c.Traces(1)
			c.Steps(1)
		}
		return nil
	})
}
