// answers DATA.GO OUT.JSON N: adds answers of the service to an embedded almanac,
// for years from 2100 on, such that every sequence of N kinds of answer is that of
// consecutive years, and writes down which moons they are of.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

// Year is the answer for one year.
type Year struct {
	Year  int
	Kind  string
	Moons []Moon
}

type Moon struct {
	T     time.Time
	Phase string
}

var kinds = []string{"answered", "failed", "failed with a reason", "with an error", "written otherwise", "absent"}

// sequence is a de Bruijn sequence of k symbols and order n.
func sequence(k, n int) (out []int) {
	a := make([]int, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(out, out[:n-1]...)
}

func main() {
	n, _ := strconv.Atoi(os.Args[3])
	text, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	const head = "var _escData = map[string]*_escFile{\n"
	at := bytes.Index(text, []byte(head))
	if at < 0 {
		fmt.Fprintln(os.Stderr, "no embedded files found")
		os.Exit(1)
	}
	var years []Year
	var add strings.Builder
	phases := []string{"new", "waxing", "full", "waning"}
	names := []string{"new moon", "first quarter", "full moon", "last quarter"}
	for i, k := range sequence(len(kinds), n) {
		y := Year{2100 + i, kinds[k], nil}
		t := time.Date(y.Year, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(i%3) * 7 * time.Second)
		last := time.Date(y.Year, 12, 31, 23, 59, 59, 0, time.UTC)
		var rs []string
		for m := 0; ; m++ {
			p := (i + m) % 4
			shown := t
			if kinds[k] == "written otherwise" {
				shown = t.In(time.FixedZone("", []int{0, 7 * 3600, -11 * 3600, 5*3600 + 1800}[m%4]))
			}
			r := fmt.Sprintf(`{"timestamp":%d,"dateTimeISO":"%s","code":%d,"name":"%s"}`, t.Unix(), shown.Format("2006-01-02T15:04:05-07:00"), p, names[p])
			if kinds[k] == "written otherwise" {
				r = fmt.Sprintf("{ \"name\": %q,\n\t\"code\" : %d, \"illum\": {\"age\":[1,2]}, \"dateTimeISO\": \"%s\", \"timestamp\":%d }", names[p], p, shown.Format(time.RFC3339), t.Unix())
			}
			rs = append(rs, r)
			y.Moons = append(y.Moons, Moon{t, phases[p]})
			if t.Equal(last) {
				break
			}
			if t = t.Add(time.Duration(37+i%5)*24*time.Hour + 31*time.Minute + 17*time.Second); t.After(last) {
				t = last
			}
		}
		list := strings.Join(rs, ",")
		body := ""
		switch kinds[k] {
		case "answered":
			body = `{"success":true,"error":null,"response":[` + list + `]}`
		case "failed":
			body = `{"success":false,"error":null,"response":[` + list + `]}`
		case "failed with a reason":
			body = `{"success":false,"error":{"code":"maxhits_min","description":"Maximum number of minutely accesses reached."},"response":[` + []string{list, ""}[i%2] + `]}`
		case "with an error":
			body = `{"success":true,"error":{"code":"warn_no_data","description":"Valid request. No results."},"response":[` + []string{list, ""}[i%2] + `]}`
		case "written otherwise":
			body = "\n{ \"response\" : [ " + list + " ] ,\n \"profile\":{\"tz\":\"UTC\"}, \"error\" : null, \"success\" : true }\n"
		}
		if body != "" {
			var z bytes.Buffer
			e := base64.NewEncoder(base64.StdEncoding, &z)
			g := gzip.NewWriter(e)
			g.Write([]byte(body))
			g.Close()
			e.Close()
			name := fmt.Sprintf("data/astro/astro-%d.json", y.Year)
			fmt.Fprintf(&add, "\n\t\"/%s\": {\n\t\tlocal: %q,\n\t\tsize: %d,\n\t\tmodtime: 1439039565,\n\t\tcompressed: `\n%s\n`,\n\t},\n", name, name, len(body), z.String())
		}
		if kinds[k] != "answered" && kinds[k] != "written otherwise" {
			y.Moons = nil
		}
		years = append(years, y)
	}
	at += len(head)
	out := string(text[:at]) + add.String() + string(text[at:])
	if err := os.WriteFile(os.Args[1], []byte(out), 0644); err != nil {
		panic(err)
	}
	b, _ := json.Marshal(years)
	if err := os.WriteFile(os.Args[2], b, 0644); err != nil {
		panic(err)
	}
}
