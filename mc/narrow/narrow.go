// Package narrow writes out what the calculations answer, so that the same can be
// asked of builds for other kinds of machine.
package narrow

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
)

// Kind is a family of questions; Lines(i) answers number i.
type Kind struct {
	Name  string
	N     int
	Lines func(i int) []string
}

const first, last = 638, 4000

func exceptions(on bool, f func()) {
	old := suriya.UseExceptions
	suriya.UseExceptions = on
	defer func() { suriya.UseExceptions = old }()
	f()
}

func dump(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func stamp(t time.Time) string { return t.Format("2006-01-02T15:04:05.999999999Z07:00") }

// positions are written to nine decimals: those that are cut off have four.
func positions(s suriya.SuriyaDay) string {
	return fmt.Sprintf(" %.9f %.9f %.9f %.9f %.9f", s.MeanSun, s.TrueSun, s.MeanMoon, s.TrueMoon, s.Raek)
}

// Later is the last year of the kind "later days".
const later = 24000

// Core are the questions to the calculations, Outer those to the calendar.
var Kinds = []Kind{
	{"years", last - first + 1, func(i int) (out []string) {
		y := first + i
		for _, on := range []bool{false, true} {
			exceptions(on, func() {
				var s suriya.SuriyaYear
				s.Init(y)
				l := fmt.Sprint(y, on, s.Year, s.BE_Year, s.CS_Year, s.Horakhun, s.Kammacubala, s.Uccabala, s.Avoman, s.Masaken, s.Tithi,
					s.Is_Adhikamasa(), s.Would_Be_Adhikamasa(), s.Is_Adhikavara(), s.Would_Be_Adhikavara(), s.Has_Carried_Adhikavara(), s.Is_Suriya_Leap(),
					s.AdhikamasaCyclePos(), s.AdhikavaraCyclePos(), s.YearLength(), s.SuriyaValuesString())
				if y >= 660 {
					l += fmt.Sprint(" ", s.DeltaAdhikamasa(), s.DeltaAdhikavara())
				}
				if y > first {
					l += fmt.Sprint(" ", stamp(s.AsalhaPuja()), stamp(suriya.CalculatePreviousKattika(y)))
				}
				out = append(out, l)
			})
		}
		return
	}},
	{"days", last - first + 1, func(i int) (out []string) {
		for d := 1; d <= 400; d++ {
			var s suriya.SuriyaDay
			s.Init(first+i, d)
			out = append(out, fmt.Sprint(first+i, d, s.Horakhun, s.Kammacubala, s.Uccabala, s.Avoman, s.Masaken, s.Tithi)+positions(s))
		}
		return
	}},
	{"dates", 2000, func(i int) (out []string) {
		for k := int64(0); k < 1000; k++ {
			h := int64(i-500)*1000 + k
			out = append(out, fmt.Sprint(h, stamp(suriya.HorakhunToDate(h).UTC())))
		}
		return
	}},
	{"far dates", 1000, func(i int) (out []string) {
		for k := int64(1); k <= 10; k++ {
			h := int64(i-500) * 10_007 * k
			out = append(out, fmt.Sprint(h, stamp(suriya.HorakhunToDate(h).UTC())))
		}
		return
	}},
	{"angles", 2000, func(i int) (out []string) {
		for k := 0; k < 1000; k++ {
			d := float64((i-1000)*1000+k) / 60
			r, a, l := suriya.DegreeToRal(d)
			out = append(out, fmt.Sprint(d, r, a, l, suriya.DegreeToRalString(d), suriya.RalToDegree(r, a, l))+fmt.Sprintf(" %.9f", suriya.NormalizeDegree(d)))
		}
		return
	}},
	{"listings", last - first, func(i int) (out []string) {
		y := first + 1 + i
		for _, on := range []bool{false, true} {
			if on && (y < 1990 || y > 2000) {
				continue
			}
			exceptions(on, func() {
				n := len(out)
				for _, e := range suriya.GenerateSolarYear(y) {
					out = append(out, fmt.Sprintf("%d %v %s %s", y, on, e, dump(e)))
				}
				sort.Strings(out[n:])
				for _, d := range suriya.GetCalDays(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y, 12, 31, 0, 0, 0, 0, time.UTC)) {
					var parts []string
					for _, e := range d.MajorEvents {
						parts = append(parts, dump(e))
					}
					d.MajorEvents = nil
					sort.Strings(parts)
					out = append(out, fmt.Sprintf("%v %s %s", on, dump(d), strings.Join(parts, " ")))
				}
			})
		}
		return
	}},
	{"almanac", 160, func(i int) (out []string) {
		y := 1890 + i
		for _, m := range suriya.GetAstroMoons(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC)) {
			out = append(out, dump(m))
		}
		return
	}},
	{"files", 160, func(i int) (out []string) {
		name := fmt.Sprintf("/data/astro/astro-%d.json", 1890+i)
		b, err := suriya.FSByte(false, name)
		out = append(out, fmt.Sprintf("%s %x %v", name, sha256.Sum256(b), err))
		for _, dir := range []string{"", "/data/astro"} {
			f, err := suriya.Dir(false, dir).Open(name[len(dir):])
			if err != nil {
				out = append(out, fmt.Sprint(name, dir, err))
				continue
			}
			b, _ := io.ReadAll(f)
			info, err := f.Stat()
			out = append(out, fmt.Sprintf("%s %s %x", name, dir, sha256.Sum256(b)))
			if err == nil {
				out = append(out, fmt.Sprint(info.Name(), info.Size()))
			}
		}
		return
	}},
	{"later days", later - last, func(i int) (out []string) {
		for d := 1; d <= 400; d++ {
			var s suriya.SuriyaDay
			s.Init(last+1+i, d)
			out = append(out, fmt.Sprint(last+1+i, d, s.Horakhun, s.Tithi)+positions(s))
		}
		return
	}},
}
