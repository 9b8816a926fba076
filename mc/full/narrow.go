package main

import (
	"fmt"
	"os"
	"slices"
	"strings"

	"verif/mc/fw"
	"verif/mc/narrow"
)

// ---------------------------------------------------------------- C32, C33, C34

func c32(c *fw.Ctx) {
	lockstep(c, "a 32 bit machine", "years", "days", "dates", "far dates", "angles", "listings", "almanac")
}

func c33(c *fw.Ctx) {
	lockstep(c, "a machine that fuses multiplications with additions", "years", "days", "later days", "dates", "angles", "listings")
}

func c34(c *fw.Ctx) {
	lockstep(c, "Windows", "files", "almanac", "listings", "years")
}

// lockstep asks another build (VERIF_NARROW) the questions of some kinds, and
// compares its answers with those of this one.
func lockstep(c *fw.Ctx, what string, kinds ...string) {
	if log := os.Getenv("VERIF_NARROW_LOG"); log != "" {
		c.EnumFine("build", 1, func(int) *fw.Fail {
			return fw.Failf("a build for "+what, "programs, as for this machine", log)
		})
		return
	}
	prog := os.Getenv("VERIF_NARROW")
	if prog == "" {
		c.Capped("no programs for " + what + " can be built here")
		return
	}
	if p := invoke(c.Scratch, "UTC", nil, prog, "years", "0", "0"); p.code != 0 {
		c.Capped("programs for " + what + " cannot run here: " + p.err)
		return
	}
	const block = 20
	for _, k := range narrow.Kinds {
		k := k
		if !slices.Contains(kinds, k.Name) {
			continue
		}
		c.EnumFine(k.Name, (k.N+block-1)/block, func(b int) *fw.Fail {
			from, to := b*block, min(b*block+block, k.N)
			p := invoke(c.Scratch, "UTC", nil, prog, k.Name, fmt.Sprint(from), fmt.Sprint(to))
			got := strings.Split(strings.TrimSuffix(p.out, "\n"), "\n")
			if p.out == "" {
				got = nil
			}
			n := 0
			for i := from; i < to; i++ {
				for _, l := range k.Lines(i) {
					for _, l := range strings.Split(l, "\n") {
						if n >= len(got) || got[n] != l {
							g := "nothing: " + p.err
							if n < len(got) {
								g = got[n]
							}
							return fw.Failf(fmt.Sprintf("%s, number %d, line %d of %d-%d", k.Name, i, n+1, from, to-1), l, g)
						}
						n++
					}
				}
				c.States(1)
			}
			if n != len(got) || p.code != 0 {
				return fw.Failf(fmt.Sprintf("%s, numbers %d-%d", k.Name, from, to-1), fmt.Sprintf("%d lines, exit 0", n), fmt.Sprintf("%d lines, exit %d: %s", len(got), p.code, p.err))
			}
			c.Steps(n)
			c.Traces(1)
			if b%48 == 0 && n > 0 {
				c.Sample("%.200s", got[n/2])
			}
			return nil
		})
	}
	wide, slim := os.Getenv("VERIF_CLI"), prog+"-suriya"
	c.EnumFine("commands", 2*40, func(i int) *fw.Fail {
		y := 639 + i/2*86
		args := []string{[]string{"caldays", "ical"}[i%2], "--from", fmt.Sprintf("%04d-11-01", y), "--to", fmt.Sprintf("%04d-02-0%d", y+1+i/2%2, 1+i%9)}
		w, g := invoke(c.Scratch, "UTC", nil, wide, args...), invoke(c.Scratch, "UTC", nil, slim, args...)
		if g.code != w.code {
			return fw.Failf(fmt.Sprint(args), fmt.Sprintf("exit %d", w.code), fmt.Sprintf("exit %d: %s", g.code, g.err))
		}
		keep := func(s string) (out []string) {
			for _, l := range strings.Split(s, "\n") {
				if !strings.HasPrefix(l, "UID") && !strings.HasPrefix(l, "DTSTAMP") {
					out = append(out, l)
				}
			}
			return
		}
		a, b := keep(w.out), keep(g.out)
		for n := range a {
			if n >= len(b) || a[n] != b[n] {
				return fw.Failf(fmt.Sprint(args), a[n], few(b[min(n, len(b)):]))
			}
		}
		c.States(1)
		c.Traces(1)
		return nil
	})
}
