// Command conc explores concurrent use and histories of use: every schedule of
// small groups of calls up to a preemption bound, and every sequence of calls
// up to a length, against what each call answers alone in a fresh process state.
package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	suriya "github.com/splendidmoons/suriya-go"
	"verif/mc/fw"
	"verif/mc/sched"
)

type op struct {
	name string
	f    func() string
}

// what the calls of a history returned is kept, and looked at again when other
// calls have been made: it must not have changed in the caller's hands.
type kept struct {
	before, name string
	look         func() string
}

var (
	keeping int // one in so many, 0: none
	seen    int
	held    []kept
)

func keep(name string, look func() string) {
	if keeping == 0 {
		return
	}
	if seen++; seen%keeping == 0 {
		held = append(held, kept{look(), name, look})
	}
}

func startKeeping(every int) func() {
	held, keeping, seen = nil, every, 0
	return func() { held, keeping = nil, 0 }
}

func stillTheSame() *fw.Fail {
	for _, h := range held {
		if now := h.look(); now != h.before {
			return fw.Failf("what "+h.name+" returned, looked at again", h.before, now)
		}
	}
	return nil
}

func year(y int) func() string {
	return func() string {
		var su suriya.SuriyaYear
		su.Init(y)
		keep("Init", func() string { return su.SuriyaValuesString() })
		return fmt.Sprint(su.SuriyaValuesString(), su.Is_Adhikamasa(), su.Would_Be_Adhikamasa(), su.Is_Adhikavara(), su.Would_Be_Adhikavara(), su.Has_Carried_Adhikavara(), su.Is_Suriya_Leap(), su.YearLength(),
			su.AdhikavaraCyclePos(), su.AdhikamasaCyclePos())
	}
}

func since(y int) func() string {
	return func() string {
		var su suriya.SuriyaYear
		su.Init(y)
		return fmt.Sprint(su.DeltaAdhikamasa(), su.DeltaAdhikavara())
	}
}

func dates(y int) func() string {
	return func() string {
		var su suriya.SuriyaYear
		su.Init(y)
		return fmt.Sprint(suriya.CalculatePreviousKattika(y).Unix(), " ", su.AsalhaPuja().Unix())
	}
}

func day(y, n int) func() string {
	return func() string {
		var d suriya.SuriyaDay
		d.Init(y, n)
		keep("Init", func() string { return fmt.Sprintf("%+v", d) })
		return fmt.Sprint(d.Year, d.BE_Year, d.CS_Year, d.Day, d.Horakhun, d.Kammacubala, d.Uccabala, d.Avoman, d.Masaken, d.Tithi, d.MeanSun, d.TrueSun, d.MeanMoon, d.TrueMoon, d.Raek)
	}
}

func digest(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes %x", len(b), h.Sum64())
}

func file(y int) func() string {
	return func() string {
		nm := fmt.Sprintf("/data/astro/astro-%d.json", y)
		b, err := suriya.FSByte(false, nm)
		s, err2 := suriya.FSString(false, nm)
		keep("FSByte", func() string { return digest(b) })
		keep("FSString", func() string { return digest([]byte(s)) })
		return fmt.Sprint(digest(b), err, digest([]byte(s)), err2)
	}
}

func handle(y int) func() string {
	return func() string {
		h, err := suriya.FS(false).Open(fmt.Sprintf("/data/astro/astro-%d.json", y))
		if err != nil {
			return err.Error()
		}
		st, err := h.Stat()
		if err != nil {
			return err.Error()
		}
		p := make([]byte, 100)
		n, err := io.ReadFull(h, p)
		rest, err2 := io.ReadAll(h)
		keep("Open", func() string { return fmt.Sprint(st.Name(), st.Size(), digest(p), digest(rest)) })
		return fmt.Sprint(st.Name(), st.Size(), n, err, digest(p), err2, digest(rest), h.Close())
	}
}

func words() string {
	return fmt.Sprint(suriya.MonthToInt("2nd asalha"), suriya.MonthToInt("kattika"), suriya.SeasonToInt("vassana"), suriya.SeasonName(2), suriya.CalendarToInt("dhammayut"), suriya.StatusToInt("confirmed"))
}

func angles() string {
	x, y, z := suriya.DegreeToRal(247.7245)
	return fmt.Sprint(x, y, z, suriya.RalToDegree(8, 7, 43), suriya.DegreeToRalString(79.4833), suriya.NormalizeDegree(725.5), suriya.HorakhunToDate(503000).Unix())
}

var coreOps = []op{
	{"year 2015", year(2015)},
	{"year 2018", year(2018)},
	{"year 1994", year(1994)},
	{"since 2017", since(2017)},
	{"dates of 2013", dates(2013)},
	{"dates of 2018", dates(2018)},
	{"dates of 1996", dates(1996)},
	{"day 103 of 1963", day(1963, 103)},
	{"day 20 of 2015", day(2015, 20)},
	{"file of 1950", file(1950)},
	{"file of 2015", file(2015)},
	{"handle of 1950", handle(1950)},
	{"handle of 1960", handle(1960)},
	{"words", func() string { return words() }},
	{"angles", func() string { return angles() }},
	{"absent file", file(1850)},
	{"file of 1950 by its directory", byDir(1950)},
	{"name of 1950 by another spelling", func() string {
		h, err := suriya.FS(false).Open("/data/astro/astro-1950.json/.")
		if err != nil {
			return err.Error()
		}
		st, err := h.Stat()
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(st.Name(), st.Size())
	}},
}

func byDir(y int) func() string {
	return func() string {
		nm := fmt.Sprintf("astro-%d.json", y)
		h, err := suriya.Dir(false, "/data/astro/").Open(nm)
		if err != nil {
			return err.Error()
		}
		b, err := io.ReadAll(h)
		return fmt.Sprint(digest(b), err, digest(suriya.FSMustByte(false, "/data/astro/"+nm)), digest([]byte(suriya.FSMustString(false, "/data/astro/"+nm))))
	}
}

// classes of calls swept through in long histories: a remembered answer that
// belongs to another question, a table that overflows or a counter that runs
// out shows in these and not in the short ones.
type class struct {
	name string
	n    int
	f    func(i int) func() string
}

var coreClasses = []class{
	{"years 639-2900", 2262, func(i int) func() string { return year(639 + i) }},
	{"years since, 660-2900", 2241, func(i int) func() string { return since(660 + i) }},
	{"years far apart", 2 * len(apart), func(i int) func() string { return year([]int{2015, 2015 + apart[i/2]}[i%2]) }},
	{"days far apart", 2 * len(apart), func(i int) func() string { return day([]int{2015, 2015 + apart[i/2]}[i%2], 103) }},
	{"dates of years not too far apart", 120, func(i int) func() string {
		k := []int{16, 32, 57, 64, 100, 128, 171, 200, 228, 256, 285, 300, 399, 400, 456, 500, 512, 560, 570, 600}[i/6]
		y := []int{2015, 1999, 1650}[i/2%3]
		return dates([]int{y, y - k}[i%2])
	}},
	{"dates of 1000-2900", 1901, func(i int) func() string { return dates(1000 + i) }},
	{"days 1-100 of 1990-2020", 3100, func(i int) func() string { return day(1990+i/100, 1+i%100*4) }},
	{"day 103 of 640-2900", 2261, func(i int) func() string { return day(640+i, 103) }},
	{"files of 1890-2060", 171, func(i int) func() string { return file(1890 + i) }},
	{"handles of 1890-2060", 171, func(i int) func() string { return handle(1890 + i) }},
	{"angles", 4000, func(i int) func() string { return angle(float64(i-2000) * 0.617) }},
	{"day counts", 4000, func(i int) func() string {
		return func() string {
			return fmt.Sprint(suriya.HorakhunToDate(int64(i*271-50000)).UnixNano()/1e9, suriya.HorakhunToDate(int64(480000+i)).Unix())
		}
	}},
	{"day counts far apart", 2 * len(daysApart), func(i int) func() string {
		return func() string {
			return fmt.Sprint(suriya.HorakhunToDate(484049 + []int64{0, daysApart[i/2]}[i%2]).Unix())
		}
	}},
	{"names", 60, func(i int) func() string { return name(i) }},
}

// apart are the distances at which two years may share a place in some table.
var apart = func() (ds []int) {
	for k := 1; k <= 1<<24; k *= 2 {
		ds = append(ds, k, k-1, k+1)
	}
	for k := 1; k <= 10_000_000; k *= 10 {
		ds = append(ds, k, 2*k, 4*k, 5*k, 8*k)
	}
	for k := 1; k <= 300; k++ {
		ds = append(ds, 19*k, 57*k, 400*k, 97*k)
	}
	return ds
}()

// daysApart are distances at which a day count may be out of reach of another:
// of a duration, of 32 bits, of the steps of the conversion.
var daysApart = func() (ds []int64) {
	for k := int64(1); k <= 1<<32; k *= 2 {
		ds = append(ds, k, -k, k-1, 1-k, k+1)
	}
	for k := int64(1); k <= 40; k++ {
		ds = append(ds, 106751*k, -106751*k, 106752*k, -106752*k, 103240*k, 146097*k, -146097*k)
	}
	return ds
}()

func angle(d float64) func() string {
	return func() string {
		x, y, z := suriya.DegreeToRal(d)
		return fmt.Sprint(x, y, z, suriya.RalToDegree(x, y, z), suriya.DegreeToRalString(d), suriya.NormalizeDegree(d))
	}
}

func name(i int) func() string {
	all := []string{"null", "magasira", "phussa", "magha", "phagguna", "citta", "vesakha", "jettha", "asalha", "2nd asalha", "savana", "bhaddapada", "assayuja", "kattika",
		"hemanta", "gimhana", "vassana", "mahanikaya", "dhammayut", "srilanka", "myanmar", "draft", "predicted", "confirmed", "", "nothing", "Magha", "asalha "}
	return func() string {
		w := all[i%len(all)]
		return fmt.Sprint(suriya.MonthToInt(w), suriya.SeasonToInt(w), suriya.CalendarToInt(w), suriya.StatusToInt(w), suriya.SeasonName(i%7-2))
	}
}

var fullClasses []class

// sweeps calls everything of a class in several orders, the exceptions being
// switched in several rhythms, without ever resetting.
func sweeps(c *fw.Ctx, cs []class) {
	orders := []string{"forwards", "backwards", "in leaps", "twice each"}
	rhythms := []int{0, 1, 7}
	per := len(orders) * len(rhythms)
	c.EnumFine("sweeps", len(cs)*per, func(k int) *fw.Fail {
		cl := cs[k/per]
		order, rhythm := k%per/len(rhythms), rhythms[k%len(rhythms)]
		var alone [2][]string
		for e := 0; e < 2; e++ {
			for i := 0; i < cl.n; i++ {
				alone[e] = append(alone[e], fresh(e == 1, cl.f(i)))
			}
		}
		suriya.VerifReset()
		defer startKeeping(13)()
		exc := false
		suriya.UseExceptions = false
		m := cl.n
		if order == 3 {
			m *= 2
		}
		for j := 0; j < m; j++ {
			i := j
			switch order {
			case 1:
				i = cl.n - 1 - j
			case 2:
				i = j * 997 % cl.n
			case 3:
				i = j / 2
			}
			if rhythm > 0 && j%rhythm == 0 {
				exc = !exc
				suriya.UseExceptions = exc
			}
			if g, w := cl.f(i)(), alone[b2i(exc)][i]; g != w {
				return fw.Failf(fmt.Sprintf("%s, %s, exceptions switched every %d calls: call %d", cl.name, orders[order], rhythm, j), w, g)
			}
		}
		if f := stillTheSame(); f != nil {
			f.Input = fmt.Sprintf("%s, %s, exceptions switched every %d calls; ", cl.name, orders[order], rhythm) + f.Input
			return f
		}
		c.Steps(m)
		c.Traces(1)
		return nil
	})
}

var fullOps []op

func fresh(exc bool, f func() string) string {
	suriya.VerifReset()
	suriya.UseExceptions = exc
	return f()
}

type group struct{ ops []int }

func main() {
	if len(os.Args) > 2 && os.Args[1] == "race" {
		race(os.Args[2], os.Args[3])
		return
	}
	const mc = "model_checking"
	ck := func(ops func() []op, classes func() []class) *fw.Check {
		return &fw.Check{Level: mc, Run: func(c *fw.Ctx) { explore(c, ops(), classes()) },
			Rule:        "states: distinct (schedule) executions of groups of concurrent calls and distinct histories; transitions: scheduling points passed and calls made; traces: executions and histories compared with what each call answers alone in a fresh state",
			Assumptions: []string{"sequential consistency between the statements of the package (unsynchronised accesses are looked for in a separate free run under the race detector)"},
			Bounds: func(th bool) string {
				if th {
					return "every pair of calls: all schedules with up to 2 preemptions at every statement (where the execution has up to 2500 points; else at the statements of functions that touch shared variables) and 3 preemptions at the latter; triples with 1; histories of up to 4 calls and switches of the exceptions; sweeps over some thousands of calls of each kind in four orders"
				}
				return "every pair of calls: all schedules with 1 preemption at every statement (where the execution has up to 8000 points), 2 preemptions at the statements of functions that touch shared variables; triples of calls that use the same files with 1; histories of up to 3 calls and switches of the exceptions; sweeps over some thousands of calls of each kind in four orders"
			}}
	}
	fw.Main(map[string]*fw.Check{
		"C14": ck(func() []op { return coreOps }, func() []class { return coreClasses }),
		"C27": ck(func() []op { return fullOps }, func() []class { return fullClasses }),
	})
}

func explore(c *fw.Ctx, ops []op, classes []class) {
	n := len(ops)
	var alone [2][]string
	for _, exc := range []bool{false, true} {
		for _, o := range ops {
			alone[b2i(exc)] = append(alone[b2i(exc)], fresh(exc, o.f))
		}
	}
	instrumented := os.Getenv("VERIF_INSTRUMENTED") == "1"
	if !instrumented {
		c.Capped("no schedules: the package starts goroutines itself or could not be instrumented")
	}
	// a reset state answers like a new process
	c.EnumFine("fresh state", n, func(i int) *fw.Fail {
		for r := 0; r < 3; r++ {
			if g := fresh(false, ops[i].f); g != alone[0][i] {
				return fw.Failf(ops[i].name+" asked again in a fresh state", alone[0][i], g)
			}
		}
		return nil
	})
	one := func(name string, ids []int, fine bool, bound, max int, exc bool) *fw.Fail {
		var bodies []func() string
		var names []string
		for _, k := range ids {
			bodies = append(bodies, ops[k].f)
			names = append(names, ops[k].name)
		}
		var bad *fw.Fail
		late := false
		outcomes := map[string]bool{}
		run := func(prefix []int) sched.Result {
			suriya.VerifReset()
			suriya.UseExceptions = exc
			return sched.Execute(prefix, fine, bodies)
		}
		wrong := func(x sched.Result) (string, string) {
			if x.Bad != "" {
				return "every call answers", x.Bad
			}
			for t, k := range ids {
				if x.Results[t] != alone[b2i(exc)][k] {
					return names[t] + ": " + alone[b2i(exc)][k], x.Results[t]
				}
			}
			return "", ""
		}
		ex, capped := sched.Explore(bound, max, run, func(x sched.Result) bool {
			c.Steps(x.Points)
			outcomes[strings.Join(x.Results, "|")] = true
			if !c.Alive() {
				late = true
				return false
			}
			if x.Bad == "!diverged" {
				// the code itself is not deterministic (it goes through a map, say)
				c.Capped(fmt.Sprint("a schedule that cannot be repeated, of ", names))
				return true
			}
			w, g := wrong(x)
			if g == "" && w == "" {
				return true
			}
			// the same schedule should fail again
			note := ", which does not fail every time it is run"
			for k := 0; k < 5; k++ {
				if w2, g2 := wrong(run(x.Choices)); w2 != "" || g2 != "" {
					note = ""
					break
				}
			}
			bad = fw.Failf(fmt.Sprintf("%s at the same time, exceptions %v, schedule %s%s", strings.Join(names, " and "), exc, brief(x.Choices), note), w, g)
			return false
		})
		c.States(ex)
		c.Traces(ex)
		c.Info("schedules, "+name, ex)
		if late {
			c.Capped("time budget in " + name)
		}
		if capped {
			c.Capped(fmt.Sprintf("%d schedules of %v", max, names))
		}
		return bad
	}
	points := func(ids []int, fine bool) int {
		var bodies []func() string
		for _, k := range ids {
			bodies = append(bodies, ops[k].f)
		}
		suriya.VerifReset()
		suriya.UseExceptions = false
		return sched.Execute(nil, fine, bodies).Points
	}
	if instrumented {
		c.EnumFine("pairs", n*n, func(i int) *fw.Fail {
			a, b := i/n, i%n
			if b < a {
				return nil
			}
			ids := []int{a, b}
			p := points(ids, true)
			q := points(ids, false)
			c.Sample("%s and %s: %d points, %d of them near shared variables", ops[a].name, ops[b].name, p, q)
			if p <= 8000 {
				if f := one("1 preemption at every statement", ids, true, 1, 1<<30, false); f != nil {
					return f
				}
			} else {
				c.Info("pairs too long for preemptions at every statement", 1)
				if f := one("1 preemption near shared variables", ids, false, 1, 1<<30, false); f != nil {
					return f
				}
			}
			lim2, lim3 := 420, 0
			if c.Thorough {
				lim2, lim3 = 3000, 160
				if p <= 2500 {
					if f := one("2 preemptions at every statement", ids, true, 2, 1<<30, false); f != nil {
						return f
					}
				}
			}
			if q <= lim3 {
				return one("3 preemptions near shared variables", ids, false, 3, 1<<30, false)
			}
			if q <= lim2 {
				return one("2 preemptions near shared variables", ids, false, 2, 1<<30, false)
			}
			c.Info("pairs too long for 2 preemptions", 1)
			return nil
		})
		c.EnumFine("with exceptions", n, func(i int) *fw.Fail {
			if points([]int{i, i}, false) > 8000 {
				return nil
			}
			return one("1 preemption near shared variables, exceptions", []int{i, i}, false, 1, 1<<30, true)
		})
		c.EnumFine("triples", n*n, func(i int) *fw.Fail {
			a, b := i/n, i%n
			ids := []int{a, a, b}
			if q := points(ids, false); q > 900 && !c.Thorough || q > 4000 {
				return nil
			}
			return one("triples, 1 preemption near shared variables", ids, false, 1, 1<<30, false)
		})
	}
	// histories: calls and switches in every order
	type sym struct {
		name string
		op   int
		exc  int // 0 leave, 1 off, 2 on
	}
	var al []sym
	for i, o := range ops {
		al = append(al, sym{o.name, i, 0})
	}
	al = append(al, sym{"exceptions on", -1, 2}, sym{"exceptions off", -1, 1})
	depth := 3
	if c.Thorough {
		depth = 4
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(al)
	}
	c.Enum("histories", total, func(i int) *fw.Fail {
		suriya.VerifReset()
		exc := false
		suriya.UseExceptions = false
		defer startKeeping(1)()
		var log []string
		for k, v := 0, i; k < depth; k, v = k+1, v/len(al) {
			s := al[v%len(al)]
			log = append(log, s.name)
			if s.op < 0 {
				exc = s.exc == 2
				suriya.UseExceptions = exc
				continue
			}
			if g, w := ops[s.op].f(), alone[b2i(exc)][s.op]; g != w {
				return fw.Failf(strings.Join(log, ", then "), w, g)
			}
			c.Steps(1)
		}
		if f := stillTheSame(); f != nil {
			f.Input = strings.Join(log, ", then ") + "; " + f.Input
			return f
		}
		c.States(1)
		c.Traces(1)
		return nil
	})
	// one long history that contains every pair of symbols, never reset
	c.EnumFine("long histories", len(al), func(i int) *fw.Fail {
		suriya.VerifReset()
		defer startKeeping(1)()
		exc := false
		suriya.UseExceptions = false
		for j := range al {
			for _, k := range []int{i, j, (i + j) % len(al)} {
				s := al[k]
				if s.op < 0 {
					exc = s.exc == 2
					suriya.UseExceptions = exc
					continue
				}
				if g, w := ops[s.op].f(), alone[b2i(exc)][s.op]; g != w {
					return fw.Failf(fmt.Sprintf("%s after %d other calls", s.name, 3*j), w, g)
				}
				c.Steps(1)
			}
		}
		if f := stillTheSame(); f != nil {
			f.Input = fmt.Sprintf("long history %d; ", i) + f.Input
			return f
		}
		c.Traces(1)
		return nil
	})
	sweeps(c, classes)
	// unsynchronised accesses: the same calls, running freely, under the race detector
	bin := os.Getenv("VERIF_RACE")
	if bin == "" {
		c.Info("no race detector", 1)
		return
	}
	c.EnumFine("free runs under the race detector", n, func(i int) *fw.Fail {
		cmd := exec.Command(bin, "race", c.Prop, strconv.Itoa(i))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
		cmd.Dir = c.Scratch
		var done = make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(200 * time.Second):
				cmd.Process.Kill()
			}
		}()
		out, err := cmd.CombinedOutput()
		close(done)
		if err == nil {
			c.Info("free runs of one call against every other", 1)
			return nil
		}
		text := string(out)
		if strings.Contains(text, "DATA RACE") || strings.Contains(text, "concurrent map") || strings.Contains(text, "panic:") || strings.Contains(text, "MISMATCH") || strings.Contains(text, "fatal error: all goroutines") {
			if len(text) > 2500 {
				text = text[:2500]
			}
			return fw.Failf(ops[i].name+" at the same time as other calls, running freely", "no unsynchronised access, the same answers", text)
		}
		c.Info("free runs without an answer", 1)
		return nil
	})
}

// race runs one call against every other, freely.
func race(prop, which string) {
	ops := coreOps
	if prop == "C27" {
		ops = fullOps
	}
	k, _ := strconv.Atoi(which)
	var alone []string
	for _, o := range ops {
		alone = append(alone, fresh(false, o.f))
	}
	for j := range ops {
		for r := 0; r < 3; r++ {
			suriya.VerifReset()
			suriya.UseExceptions = false
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, o := range []int{k, j, k} {
				o := o
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if g := ops[o].f(); g != alone[o] {
						fmt.Println("MISMATCH", ops[o].name, "alone:", alone[o], "now:", g)
						os.Exit(67)
					}
				}()
			}
			close(start)
			wg.Wait()
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// brief writes a schedule as the decisions that were not "go on".
func brief(ch []int) string {
	var out []string
	for i, k := range ch {
		if k != 0 {
			out = append(out, fmt.Sprintf("at decision %d to %d", i, k))
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	if len(out) == 0 {
		return "one after the other"
	}
	return "switch " + strings.Join(out, ", ")
}
