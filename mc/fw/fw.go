// Package fw is the explorer's frame: it enumerates a finite, ordered space of
// cases completely, splits it over single-threaded worker processes, turns the
// first disagreement (in enumeration order) into a replayable file, and writes
// the evidence of what was covered.
//
// Workers are processes, not goroutines, so that the code under test is always
// run sequentially (concurrency is explored separately, under a scheduler), and
// so that a crash, a runaway allocation or a call that never returns is seen
// and attributed to the case that caused it.
package fw

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Fail is one disagreement between the implementation and the oracle.
type Fail struct {
	Input    string `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
}

func Failf(input string, expected, got interface{}) *Fail {
	return &Fail{Input: input, Expected: fmt.Sprint(expected), Got: fmt.Sprint(got)}
}

// Check is the machinery of one property.
type Check struct {
	Level       string
	Rule        string
	Assumptions []string
	Run         func(*Ctx)
	// Bounds says in words what the run enumerated (tier dependent).
	Bounds func(thorough bool) string
}

type found struct {
	Enum  string `json:"enum"`
	Seq   int    `json:"seq"` // position of the enumeration in the check
	Index int    `json:"index"`
	Fail  Fail   `json:"fail"`
}

type childResult struct {
	Found    *found           `json:"found,omitempty"`
	Counts   map[string]int64 `json:"counts"`
	Samples  []string         `json:"samples"`
	Complete bool             `json:"complete"`
	Resume   *found           `json:"resume"` // where a fresh process is to go on
	Enums    map[string]int64 `json:"enums"`
	Info     map[string]int64 `json:"info"`
}

// Ctx is what a check sees.
type Ctx struct {
	Prop     string
	Thorough bool
	Repo     string // copy of the repository under test
	Scratch  string // private directory, removed at the end
	Seed     int64

	shard, of int
	only      *found
	from      *found // the first case of a worker that goes on for another
	began     time.Time
	looked    time.Time
	baseline  int
	seq       int
	status    []byte
	res       childResult
	marks     map[string]map[uint64]struct{}
	deadline  time.Time
	stopped   bool
	known     map[string]bool
}

const block = 64

// States adds n distinct states (distinct by construction of the enumeration).
func (c *Ctx) States(n int) { c.res.Counts["states"] += int64(n) }

// Steps adds n checked transitions.
func (c *Ctx) Steps(n int) { c.res.Counts["transitions"] += int64(n) }

// Traces adds n model traces compared with the implementation.
func (c *Ctx) Traces(n int) { c.res.Counts["traces"] += int64(n) }

// Info adds to a free counter reported in the evidence.
func (c *Ctx) Info(name string, n int) { c.res.Info[name] += int64(n) }

// Mark records a state in a set that is deduplicated over all workers.
func (c *Ctx) Mark(set string, h uint64) {
	m := c.marks[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.marks[set] = m
	}
	m[h] = struct{}{}
}

func (c *Ctx) MarkString(set, s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.Mark(set, h)
}

// Sample keeps a few written out cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if c.shard == 0 && c.only == nil && len(c.res.Samples) < 12 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, a...))
	}
}

// Stopped says that a disagreement was found and the rest can be skipped.
func (c *Ctx) Stopped() bool { return c.stopped }

// Capped marks the exploration as not exhaustive.
func (c *Ctx) Capped(why string) { c.res.Complete = false; c.res.Info["capped: "+why]++ }

// Alive says that a long case is getting on, and whether there is time left.
func (c *Ctx) Alive() bool {
	binary.LittleEndian.PutUint64(c.status[16:], binary.LittleEndian.Uint64(c.status[16:])+1)
	return time.Now().Before(c.deadline)
}

// Known says that the failure of exactly this input is a recorded finding.
func (c *Ctx) Known(input string) bool {
	if c.known[input] {
		c.Info("recorded findings met", 1)
	}
	return c.known[input]
}

// First is true in one of the workers only.
func (c *Ctx) First() bool { return c.shard == 0 }

// Enum evaluates f on every index of [0,n), in increasing order per worker.
func (c *Ctx) Enum(name string, n int, f func(i int) *Fail) { c.enum(name, n, block, f) }

// EnumFine is Enum for few, expensive cases.
func (c *Ctx) EnumFine(name string, n int, f func(i int) *Fail) { c.enum(name, n, 1, f) }

func (c *Ctx) enum(name string, n, blk int, f func(i int) *Fail) {
	seq := c.seq
	c.seq++
	if c.stopped {
		return
	}
	if c.only != nil {
		if c.only.Seq == seq {
			c.evaluate(name, seq, c.only.Index, f)
		}
		return
	}
	if c.from != nil && seq < c.from.Seq {
		return
	}
	cnt := int64(0)
	for b := c.shard; b*blk < n; b += c.of {
		if c.from != nil && seq == c.from.Seq && b*blk < c.from.Index {
			continue
		}
		if c.full() {
			c.res.Resume = &found{Enum: name, Seq: seq, Index: b * blk}
			c.stopped = true
			break
		}
		hi := b*blk + blk
		if hi > n {
			hi = n
		}
		if time.Now().After(c.deadline) {
			c.Capped("time budget in " + name)
			break
		}
		for i := b * blk; i < hi; i++ {
			cnt++
			if c.evaluate(name, seq, i, f) {
				c.res.Enums[name] += cnt
				return
			}
		}
	}
	c.res.Enums[name] += cnt
}

// full says that the process has grown by a gigabyte: code that remembers its
// answers without limit is not wrong, so a fresh process takes over.
func (c *Ctx) full() bool {
	now := time.Now()
	if c.began.IsZero() {
		c.began, c.looked, c.baseline = now, now, rss(os.Getpid())
	}
	if now.Sub(c.looked) < 100*time.Millisecond {
		return false
	}
	c.looked = now
	return rss(os.Getpid()) > c.baseline+1<<20 && now.Sub(c.began) > time.Second
}

func (c *Ctx) evaluate(name string, seq, i int, f func(int) *Fail) (stop bool) {
	binary.LittleEndian.PutUint64(c.status[0:], uint64(seq))
	binary.LittleEndian.PutUint64(c.status[8:], uint64(i))
	binary.LittleEndian.PutUint64(c.status[16:], binary.LittleEndian.Uint64(c.status[16:])+1)
	fl := guarded(f, i)
	if fl != nil {
		c.res.Found = &found{Enum: name, Seq: seq, Index: i, Fail: *fl}
		c.stopped = true
		return true
	}
	return false
}

func guarded(f func(int) *Fail, i int) (fl *Fail) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "harness error:", string(h))
				os.Exit(3)
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			fl = &Fail{Input: fmt.Sprintf("case %d", i), Expected: "a result", Got: fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	return f(i)
}

// HarnessError is panicked with for failures of the harness itself.
type HarnessError string

// ---------------------------------------------------------------- main

type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // "finding" or "fixed"
	Key      string `json:"key"`  // exact input of the failing case
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func Main(checks map[string]*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "", "copy of the repository")
	verif := flag.String("verif", "", "the /verif directory")
	scratch := flag.String("scratch", "", "scratch directory")
	child := flag.Bool("child", false, "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	only := flag.String("only", "", "seq:index")
	budget := flag.Int("budget", 0, "seconds")
	from := flag.String("from", "", "seq:index")
	replay := flag.String("replay", "", "re-run the case of a replay file")
	flag.Parse()

	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *budget == 0 {
		*budget = 600
		if *tier == "thorough" {
			*budget = 3 * 3600
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *child {
		runChild(ck, *prop, *tier, *repo, *verif, *scratch, *shard, *of, *only, *from, *budget, seed)
		return
	}
	os.Exit(runParent(ck, *prop, *tier, *repo, *verif, *scratch, *budget, seed, *replay))
}

func runChild(ck *Check, prop, tier, repo, verif, scratch string, shard, of int, only, from string, budget int, seed int64) {
	runtime.GOMAXPROCS(2)
	dir := filepath.Join(scratch, fmt.Sprintf("w%d-%d", shard, os.Getpid()))
	must(os.MkdirAll(dir, 0755))
	c := &Ctx{Prop: prop, Thorough: tier == "thorough", Repo: repo, Scratch: dir, Seed: seed,
		shard: shard, of: of, marks: map[string]map[uint64]struct{}{},
		deadline: time.Now().Add(time.Duration(budget) * time.Second)}
	c.res.Counts = map[string]int64{}
	c.res.Enums = map[string]int64{}
	c.res.Info = map[string]int64{}
	c.res.Complete = true
	c.known = map[string]bool{}
	for _, k := range loadKnown(verif) {
		if k.Property == prop && k.Kind == "finding" {
			c.known[k.Key] = true
		}
	}
	c.only, c.from = place(only), place(from)
	stf, err := os.OpenFile(os.Getenv("VERIF_STATUS"), os.O_RDWR, 0644)
	must(err)
	c.status, err = syscall.Mmap(int(stf.Fd()), 0, 32, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	out := os.NewFile(3, "result")
	// The code under test may print; keep it away from our own output.
	ck.Run(c)
	w := bufio.NewWriter(out)
	j, err := json.Marshal(c.res)
	must(err)
	w.Write(j)
	w.WriteByte('\n')
	names := []string{}
	for n := range c.marks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(w, "%s %d\n", n, len(c.marks[n]))
		for h := range c.marks[n] {
			binary.Write(w, binary.LittleEndian, h)
		}
	}
	must(w.Flush())
}

func place(s string) *found {
	p := strings.SplitN(s, ":", 2)
	if len(p) != 2 {
		return nil
	}
	seq, _ := strconv.Atoi(p[0])
	i, _ := strconv.Atoi(p[1])
	return &found{Seq: seq, Index: i}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

type worker struct {
	cmd     *exec.Cmd
	status  []byte
	outPath string
	errPath string
	done    chan error
	err     error
	ended   bool
	shard   int
	killed  string
	lastN   uint64
	lastT   time.Time
}

const stuckAfter = 240 * time.Second
const memLimitKB = 3 << 20
const tooBig = "used more than 3 GB of memory on one case"

func start(args []string, scratch, tag string) *worker {
	w := &worker{done: make(chan error, 1)}
	st := filepath.Join(scratch, "status-"+tag)
	must(os.WriteFile(st, make([]byte, 32), 0644))
	f, err := os.OpenFile(st, os.O_RDWR, 0644)
	must(err)
	w.status, err = syscall.Mmap(int(f.Fd()), 0, 32, syscall.PROT_READ, syscall.MAP_SHARED)
	must(err)
	f.Close()
	w.outPath = filepath.Join(scratch, "out-"+tag)
	w.errPath = filepath.Join(scratch, "err-"+tag)
	of, err := os.Create(w.outPath)
	must(err)
	ef, err := os.Create(w.errPath)
	must(err)
	exe, err := os.Executable()
	must(err)
	w.cmd = exec.Command(exe, args...)
	w.cmd.Env = append(os.Environ(), "VERIF_STATUS="+st)
	w.cmd.ExtraFiles = []*os.File{of}
	w.cmd.Stdout, w.cmd.Stderr = nil, ef
	must(w.cmd.Start())
	of.Close()
	ef.Close()
	w.lastT = time.Now()
	go func() { w.done <- w.cmd.Wait() }()
	return w
}

// supervise waits for all workers; a worker that makes no progress or eats the
// memory is ended and remembered.
func supervise(ws []*worker) {
	for {
		all := true
		for _, w := range ws {
			if w.ended {
				continue
			}
			select {
			case w.err = <-w.done:
				w.ended = true
				continue
			default:
			}
			all = false
			n := binary.LittleEndian.Uint64(w.status[16:])
			if n != w.lastN {
				w.lastN, w.lastT = n, time.Now()
			} else if n > 0 && time.Since(w.lastT) > stuckAfter && w.killed == "" {
				w.killed = fmt.Sprintf("did not return within %v (a case normally takes well under a second)", stuckAfter)
				w.cmd.Process.Kill()
			}
			if rss(w.cmd.Process.Pid) > memLimitKB && w.killed == "" {
				w.killed = tooBig
				w.cmd.Process.Kill()
			}
		}
		if all {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func rss(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * 4
}

func (w *worker) result(marks map[string]map[uint64]struct{}) (*childResult, *found) {
	if w.err == nil && w.killed == "" {
		f, err := os.Open(w.outPath)
		must(err)
		defer f.Close()
		r := bufio.NewReaderSize(f, 1<<20)
		line, err := r.ReadBytes('\n')
		if err == nil {
			var res childResult
			must(json.Unmarshal(line, &res))
			for {
				h, err := r.ReadString('\n')
				if err != nil {
					break
				}
				var name string
				var n int
				k := strings.LastIndexByte(h, ' ')
				name = h[:k]
				n, _ = strconv.Atoi(strings.TrimSpace(h[k+1:]))
				m := marks[name]
				if m == nil {
					m = map[uint64]struct{}{}
					marks[name] = m
				}
				var b [8]byte
				for i := 0; i < n; i++ {
					if _, err := readFull(r, b[:]); err != nil {
						must(err)
					}
					m[binary.LittleEndian.Uint64(b[:])] = struct{}{}
				}
			}
			return &res, res.Found
		}
	}
	msg, _ := os.ReadFile(w.errPath)
	if ee, ok := w.err.(*exec.ExitError); ok && ee.ExitCode() == 3 && w.killed == "" {
		fmt.Fprintln(os.Stderr, string(msg))
		fmt.Fprintln(os.Stderr, "harness error in a worker")
		os.Exit(3)
	}
	text := string(msg)
	if len(text) > 3000 {
		text = text[:3000]
	}
	got := w.killed
	if got == "" {
		got = fmt.Sprintf("the process ended abnormally (%v)\n%s", w.err, text)
	}
	seq := int(binary.LittleEndian.Uint64(w.status[0:]))
	idx := int(binary.LittleEndian.Uint64(w.status[8:]))
	return nil, &found{Enum: "", Seq: seq, Index: idx,
		Fail: Fail{Input: fmt.Sprintf("enumeration %d, case %d", seq, idx), Expected: "a result", Got: got}}
}

func readFull(r *bufio.Reader, b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := r.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func loadKnown(verif string) (ks []known) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			ks = append(ks, k)
		}
	}
	return ks
}

func runParent(ck *Check, prop, tier, repo, verif, scratch string, budget int, seed int64, replay string) int {
	t0 := time.Now()
	base := []string{"-child", "-prop", prop, "-tier", tier, "-repo", repo, "-verif", verif, "-scratch", scratch, "-budget", strconv.Itoa(budget)}
	if replay != "" {
		b, err := os.ReadFile(replay)
		must(err)
		var rf struct {
			Found found  `json:"found"`
			Tier  string `json:"tier"`
		}
		must(json.Unmarshal(b, &rf))
		base[4] = rf.Tier
		w := start(append(base, "-only", fmt.Sprintf("%d:%d", rf.Found.Seq, rf.Found.Index)), scratch, "replay")
		supervise([]*worker{w})
		_, f := w.result(map[string]map[uint64]struct{}{})
		if f == nil {
			fmt.Println("replay: the case passes")
			return 0
		}
		fmt.Printf("input:    %s\nexpected: %s\ngot:      %s\nVIOLATION property=%s replay=%s\n", f.Fail.Input, f.Fail.Expected, f.Fail.Got, prop, replay)
		return 1
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	var ws []*worker
	begin := func(shard, round int, more ...string) *worker {
		if left := budget - int(time.Since(t0).Seconds()); left > 1 {
			base[len(base)-1] = strconv.Itoa(left)
		} else {
			base[len(base)-1] = "1"
		}
		args := append(append([]string{}, base...), "-shard", strconv.Itoa(shard), "-of", strconv.Itoa(n))
		w := start(append(args, more...), scratch, fmt.Sprintf("%d-%d", shard, round))
		w.shard = shard
		return w
	}
	for i := 0; i < n; i++ {
		ws = append(ws, begin(i, 0))
	}
	supervise(ws)
	marks := map[string]map[uint64]struct{}{}
	counts := map[string]int64{}
	enums := map[string]int64{}
	info := map[string]int64{}
	var samples []string
	complete := true
	var first *found
	firstShard := 0
	for round := 1; len(ws) > 0; round++ {
		var next []*worker
		for _, w := range ws {
			res, f := w.result(marks)
			if f != nil && w.killed == tooBig {
				// the growth may be that of many cases
				a := start(append(append([]string{}, base...), "-only", fmt.Sprintf("%d:%d", f.Seq, f.Index)), scratch, "alone")
				supervise([]*worker{a})
				if _, f = a.result(map[string]map[uint64]struct{}{}); f == nil {
					info["capped: memory"]++
				}
			}
			if res != nil {
				if res.Resume != nil {
					info["fresh processes, for memory"]++
					next = append(next, begin(w.shard, round, "-from", fmt.Sprintf("%d:%d", res.Resume.Seq, res.Resume.Index)))
				}
				for k, v := range res.Counts {
					counts[k] += v
				}
				for k, v := range res.Enums {
					enums[k] += v
				}
				for k, v := range res.Info {
					info[k] += v
				}
				samples = append(samples, res.Samples...)
				complete = complete && res.Complete
			} else {
				complete = false
			}
			if f != nil && (first == nil || f.Seq < first.Seq || f.Seq == first.Seq && f.Index < first.Index) {
				first, firstShard = f, w.shard
			}
		}
		supervise(next)
		ws = next
	}
	viol := 0
	for _, k := range loadKnown(verif) {
		if k.Property == prop && k.Kind == "finding" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	replayPath := ""
	if first != nil {
		viol = 1
		complete = false
		again := 0
		for i := 0; i < 5; i++ {
			w := start(append(append([]string{}, base...), "-only", fmt.Sprintf("%d:%d", first.Seq, first.Index)), scratch, "again")
			supervise([]*worker{w})
			if _, f := w.result(map[string]map[uint64]struct{}{}); f != nil {
				again++
			}
			if first.Fail.Expected == "a result" && again == 1 {
				break // a hang or crash: once more is enough
			}
		}
		dir := filepath.Join(verif, "evidence", "replay")
		must(os.MkdirAll(dir, 0755))
		replayPath = filepath.Join(dir, prop+".json")
		rf := map[string]interface{}{"property": prop, "tier": tier, "found": first, "worker": fmt.Sprintf("%d of %d", firstShard, n),
			"alone_in_a_fresh_process": fmt.Sprintf("failed %d times when the single case was run again", again),
			"replay_cmd":               fmt.Sprintf("/verif/run.sh %s --replay %s", prop, replayPath)}
		if again == 0 {
			rf["note"] = "fails only after the cases that this worker ran before it (history-dependent)"
		}
		j, _ := json.MarshalIndent(rf, "", " ")
		must(os.WriteFile(replayPath, j, 0644))
	}
	ev := map[string]interface{}{}
	distinct := int64(0)
	sets := map[string]int{}
	for k, m := range marks {
		sets[k] = len(m)
		if !strings.HasPrefix(k, "outcome") {
			distinct += int64(len(m))
		}
	}
	cov := map[string]interface{}{"exhaustive": complete, "samples": samples, "rule": ck.Rule, "cases_per_enumeration": enums}
	if ck.Bounds != nil {
		cov["bounds"] = ck.Bounds(tier == "thorough")
	}
	if len(sets) > 0 {
		cov["distinct_sets"] = sets
	}
	if len(info) > 0 {
		cov["info"] = info
	}
	cov["states"] = counts["states"] + distinct
	cov["transitions"] = counts["transitions"]
	cov["traces_validated_against_impl"] = counts["traces"]
	if len(samples) == 0 {
		cov["samples"] = []string{"(none recorded)"}
	}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, ck.Level
	if ck.Assumptions == nil {
		ck.Assumptions = []string{}
	}
	ev["coverage"], ev["assumptions"] = cov, ck.Assumptions
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = viol
	j, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0755))
	must(os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0644))
	tot := int64(0)
	for _, v := range enums {
		tot += v
	}
	fmt.Printf("%s %s: %d cases, states=%v transitions=%v traces=%v exhaustive=%v wall=%.1fs\n", prop, tier, tot, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], complete, time.Since(t0).Seconds())
	if first != nil {
		fmt.Printf("enumeration %q case %d\ninput:    %s\nexpected: %s\ngot:      %s\n", first.Enum, first.Index, clip(first.Fail.Input), clip(first.Fail.Expected), clip(first.Fail.Got))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		return 1
	}
	return 0
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
