package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"simrt"
)

// Result is what one simulated run amounts to.
type Result struct {
	Seed    uint64           `json:"seed"`
	Profile string           `json:"p"`
	SimNs   int64            `json:"t"`
	Hash    uint64           `json:"h"`
	SwHash  uint64           `json:"s"`
	Switch  uint64           `json:"sw"`
	Counts  map[string]int64 `json:"c,omitempty"`
	Viol    []Violation      `json:"v,omitempty"`
	Nondet  bool             `json:"nd,omitempty"`
	Stuck   string           `json:"stuck,omitempty"`
	Panic   string           `json:"panic,omitempty"`
}

var current struct {
	sync.Mutex
	seed  uint64
	since time.Time
}

// execute runs and judges one scenario.
func execute(sc *Scenario, logOn bool) (w *World, res *Result) {
	w = runScenario(sc, logOn)
	var oe string
	func() {
		defer func() {
			if r := recover(); r != nil {
				oe = fmt.Sprintf("%v\n%s", r, debug.Stack())
				w.count("harness.oracle_panics")
			}
		}()
		judge(w, sc.Prop)
	}()
	w.finish()
	res = &Result{Panic: oe, Seed: sc.Seed, Profile: sc.Profile, SimNs: w.sim.Now(), Hash: w.sim.Hash, SwHash: w.sim.SwHash, Switch: w.sim.Switches, Counts: w.counts, Viol: w.viol}
	for _, f := range w.sim.FS.Faults {
		if f.Hits > 0 {
			res.Counts["fault.disk_"+f.Op+"_"+f.Err] += int64(f.Hits)
		}
	}
	if n := w.sim.Stats["preemptions"]; n > 0 {
		res.Counts["sched.preemptions"] += n
	}
	if n := w.sim.Stats["stalls"]; n > 0 {
		res.Counts["fault.stall"] += n
	}
	res.Counts["sched.mode_"+sc.Sched.Mode]++
	return
}

func cloneScenario(sc *Scenario) *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func runSeed(prop string, seed uint64, deep bool) (res *Result) {
	sc := cloneScenario(makeScenario(prop, seed, deep))
	_, res = execute(sc, false)
	return
}

// ---- worker ----

func worker(prop string, first, step uint64, count int, deep bool, recheck int) {
	debug.SetGCPercent(400)
	out := bufio.NewWriter(os.Stdout)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // whatever else prints something
	}
	var mu sync.Mutex
	emit := func(r *Result) {
		b, _ := json.Marshal(r)
		mu.Lock()
		out.Write(append(b, '\n'))
		out.Flush()
		mu.Unlock()
	}
	go func() {
		for {
			time.Sleep(time.Second)
			current.Lock()
			s, t := current.seed, current.since
			current.Unlock()
			if !t.IsZero() && time.Since(t) > stuckAfter {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit(&Result{Seed: s, Stuck: string(buf)})
				os.Exit(0)
			}
		}
	}()
	for i := 0; count == 0 || i < count; i++ {
		seed := first + uint64(i)*step
		current.Lock()
		current.seed, current.since = seed, time.Now()
		current.Unlock()
		r := runSeed(prop, seed, deep)
		if recheck > 0 && i%recheck == recheck/2 {
			if q := runSeed(prop, seed, deep); q.Hash != r.Hash || fmt.Sprint(q.Viol) != fmt.Sprint(r.Viol) {
				r.Nondet = true
			}
		}
		current.Lock()
		current.since = time.Time{}
		current.Unlock()
		emit(r)
	}
}

const stuckAfter = 25 * time.Second

// ---- findings ----

// Finding is a known defect, listed in the known-findings file.
type Finding struct {
	Prop    string
	Pattern *regexp.Regexp
	Text    string
}

// loadFindings reads lines "finding: property=<id> class=<class> match=/<regexp>/ <what fails>".
func loadFindings(file string) (out []Finding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^finding: property=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, Finding{m[1], regexp.MustCompile(m[2]), m[3]})
		}
	}
	return
}

func known(fs []Finding, prop string, v Violation) *Finding {
	for i := range fs {
		if fs[i].Prop == prop && fs[i].Pattern.MatchString(v.Class+": "+v.Detail) {
			return &fs[i]
		}
	}
	return nil
}

// ---- run ----

type stats struct {
	runs, nontrivial, nondet, unrepro int
	simNs                             int64
	switches                          uint64
	counts                            map[string]int64
	profiles                          map[string]int
	hashes                            map[uint64]bool
	ntHashes                          map[uint64]bool
}

func (s *stats) add(prop string, r *Result) {
	s.runs++
	s.simNs += r.SimNs
	s.switches += r.Switch
	s.profiles[r.Profile]++
	for k, v := range r.Counts {
		s.counts[k] += v
	}
	s.hashes[r.SwHash] = true
	if r.Nondet {
		s.nondet++
	}
	for _, k := range relevant[prop] {
		if r.Counts[k] > 0 {
			s.nontrivial++
			s.ntHashes[r.SwHash] = true
			break
		}
	}
}

func run(args []string) int {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	tier := fl.String("tier", "quick", "quick or thorough")
	seed := fl.Uint64("seed", 1, "seed")
	secs := fl.Int("secs", 0, "time limit (0 = that of the tier)")
	maxRuns := fl.Int("runs", 0, "number of runs (0 = that of the tier)")
	nw := fl.Int("workers", runtime.NumCPU(), "workers")
	evid := fl.String("evidence", "", "evidence file")
	replays := fl.String("replays", ".", "directory for replay files")
	findings := fl.String("findings", "", "known findings")
	all := fl.Bool("all", false, "report one violation of every class, not minimised (development)")
	fl.Parse(args)
	t0 := time.Now()
	deep := *tier == "thorough"
	if *secs == 0 {
		*secs = 50
		if deep {
			*secs = 720
		}
	}
	if *maxRuns == 0 && !deep {
		*maxRuns = quickRuns[*prop]
	}
	os.Setenv("ZZ_SCRATCH", scratch())
	known0 := loadFindings(*findings)
	self, _ := os.Executable()
	st := &stats{counts: map[string]int64{}, profiles: map[string]int{}, hashes: map[uint64]bool{}, ntHashes: map[uint64]bool{}}
	base := *seed * 1000000007
	type line struct {
		r    *Result
		err  string
		seed uint64
	}
	ch := make(chan line, 1000)
	var cmds []*exec.Cmd
	per := 0
	if *maxRuns > 0 {
		per = (*maxRuns + *nw - 1) / *nw
	}
	var wg sync.WaitGroup
	for i := 0; i < *nw; i++ {
		c := exec.Command(self, "worker", *prop, fmt.Sprint(base+uint64(i)), fmt.Sprint(*nw), fmt.Sprint(per), fmt.Sprint(deep))
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		var eb tail
		c.Stderr = &eb
		po, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			return 2
		}
		cmds = append(cmds, c)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rd := bufio.NewReaderSize(po, 1<<20)
			next := base + uint64(i)
			for {
				l, err := rd.ReadBytes('\n')
				if len(l) > 0 && err == nil {
					r := &Result{}
					if json.Unmarshal(l, r) == nil {
						next = r.Seed + uint64(*nw)
						ch <- line{r: r}
					}
				}
				if err != nil {
					break
				}
			}
			if err := c.Wait(); err != nil {
				ch <- line{err: fmt.Sprintf("worker %d, seed %d: %v\n%s", i, next, err, eb.String()), seed: next}
			}
		}(i)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	stopAll := func() {
		for _, c := range cmds {
			c.Process.Kill()
		}
	}
	limit := time.After(time.Duration(*secs) * time.Second)
	var hits []*Result
	var crashed []string
	var fatal []line
	stuck := []*Result{}
	knownHit := map[string]int{}
	seen := map[string]int{}
	stopping := false
	var oracleErr string
	var grace <-chan time.Time
	fresh := func(r *Result) bool {
		for _, v := range r.Viol {
			if f := known(known0, *prop, v); f != nil {
				knownHit[f.Text]++
				continue
			}
			return true
		}
		return false
	}
loop:
	for {
		select {
		case l := <-ch:
			if l.err != "" {
				if stopping {
				} else if strings.Contains(l.err, "\nfatal error: ") || strings.Contains(l.err, "exceeds 1000000000-byte limit") {
					fatal = append(fatal, l)
				} else {
					crashed = append(crashed, l.err)
				}
				continue
			}
			if l.r.Stuck != "" {
				stuck = append(stuck, l.r)
				continue
			}
			st.add(*prop, l.r)
			if l.r.Panic != "" {
				oracleErr = l.r.Panic
			}
			if fresh(l.r) {
				hits = append(hits, l.r)
				for _, v := range l.r.Viol {
					seen[v.Class]++
					if *all && seen[v.Class] <= 2 {
						fmt.Printf("seed %d %s: %s: %s\n", l.r.Seed, l.r.Profile, v.Class, v.Detail)
					}
				}
				if !*all && grace == nil {
					// a little longer, for a simpler one
					grace = time.After(1500 * time.Millisecond)
				}
			}
		case <-grace:
			break loop
		case <-limit:
			break loop
		case <-done:
			break loop
		}
	}
	stopping = true
	stopAll()
	go func() {
		for range ch {
		}
	}()
	<-done
	explored := time.Since(t0)
	if *all {
		for _, k := range keysOf(seen) {
			fmt.Println("class", k, seen[k], "of", st.runs)
		}
		for _, k := range keysOf(st.counts) {
			fmt.Println("  ", k, st.counts[k])
		}
		fmt.Printf("runs %d nontrivial %d nondet %d in %.1fs stuck %d crashed %d\n", st.runs, st.nontrivial, st.nondet, explored.Seconds(), len(stuck), len(crashed))
		for _, c := range crashed {
			fmt.Println(c)
		}
		for _, c := range fatal {
			fmt.Println(c.err)
		}
		if oracleErr != "" {
			fmt.Println(oracleErr)
		}
		for _, s := range stuck {
			fmt.Println(s.Seed, s.Stuck)
		}
		return 0
	}
	code := 0
	nviol := 0
	// the harness itself failed?
	if len(crashed) > 0 && len(hits) == 0 {
		fmt.Fprintln(os.Stderr, "simulation error:", crashed[0])
		code = 2
	}
	sort.SliceStable(hits, func(i, j int) bool { return hits[i].SimNs < hits[j].SimNs })
	os.MkdirAll(*replays, 0755)
	for _, h := range hits {
		if nviol > 0 || time.Since(t0) > time.Duration(*secs+240)*time.Second {
			break
		}
		sc := cloneScenario(makeScenario(*prop, h.Seed, deep))
		_, r := execute(sc, false)
		var cls string
		for _, v := range r.Viol {
			if known(known0, *prop, v) == nil {
				cls = v.Class
				break
			}
		}
		if cls == "" || r.Hash != h.Hash {
			st.unrepro++
			continue
		}
		file := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", *prop, h.Seed))
		if !writeReplay(file, sc, cls) || !replayOK(self, file, cls) {
			st.unrepro++
			continue
		}
		// (in a process of its own: an execution might not end)
		c := exec.Command(self, "minimise", file, file+".min", *findings)
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		if c.Run() == nil && replayOK(self, file+".min", cls) {
			os.Rename(file+".min", file)
		}
		os.Remove(file + ".min")
		nviol++
		b, _ := os.ReadFile(file)
		var rp Replay
		json.Unmarshal(b, &rp)
		for _, v := range rp.Violations {
			if v.Class == cls {
				fmt.Printf("%s: %s\n", v.Class, v.Detail)
			}
		}
		fmt.Printf("found by seed %d (profile %s); %d operations, %d schedule deviations after minimisation\n", h.Seed, h.Profile, len(rp.Scenario.Ops), len(rp.Scenario.Sched.Dev))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
		code = 1
	}
	if nviol == 0 && len(stuck) > 0 && progress[*prop] {
		// the recorder computes without end somewhere
		sc := makeScenario(*prop, stuck[0].Seed, deep)
		file := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", *prop, stuck[0].Seed))
		b, _ := json.MarshalIndent(Replay{Scenario: sc, Class: "stuck", Violations: []Violation{{"stuck", "the run does not end: " + short(stuck[0].Stuck, 3000)}}}, "", " ")
		os.WriteFile(file, b, 0644)
		if replayOK(self, file, "stuck") {
			nviol++
			fmt.Printf("stuck: the recorder computes without end\nVIOLATION property=%s replay=%s\n", *prop, file)
			code = 1
		}
	}
	if nviol == 0 && len(fatal) > 0 {
		// the recorder took the process down, in a way Go doesn't recover from
		sc := makeScenario(*prop, fatal[0].seed, deep)
		file := filepath.Join(*replays, fmt.Sprintf("%s-%d.json", *prop, fatal[0].seed))
		b, _ := json.MarshalIndent(Replay{Scenario: sc, Class: "fatal", Violations: []Violation{{"fatal", "the process dies: " + short(fatal[0].err, 3000)}}}, "", " ")
		os.WriteFile(file, b, 0644)
		if replayOK(self, file, "fatal") {
			nviol++
			fmt.Printf("fatal: the recorder brings the process down\nVIOLATION property=%s replay=%s\n", *prop, file)
			code = 1
		} else if code == 0 {
			fmt.Fprintln(os.Stderr, "simulation error:", fatal[0].err)
			code = 2
		}
	}
	if n := st.counts["harness.oracle_panics"]; n > 0 && code == 0 {
		fmt.Fprintf(os.Stderr, "the oracle failed on %d runs\n%s\n", n, oracleErr)
		code = 2
	}
	for _, k := range knownSorted(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	for _, f := range known0 {
		if f.Prop == *prop && knownHit[f.Text] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.Text)
		}
	}
	wall := time.Since(t0).Seconds()
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, *seed, st, base, deep, wall, explored.Seconds(), nviol, len(stuck))
	}
	fmt.Printf("%s: %d simulated runs, %d non-trivial, %.0f s of simulated time in %.1f s\n", *prop, st.runs, st.nontrivial, float64(st.simNs)/1e9, wall)
	if st.runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "no runs")
		return 2
	}
	return code
}

func knownSorted(m map[string]int) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		t.b = append(append([]byte(nil), t.b[:8000]...), t.b[len(t.b)-8000:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

// ---- replay ----

// Replay is a replay file: a scenario with all decisions of the scheduler, and what it leads to.
type Replay struct {
	Class      string      `json:"class"`
	Hash       string      `json:"hash"`
	Violations []Violation `json:"violations"`
	Scenario   *Scenario   `json:"scenario"`
	Log        []string    `json:"log,omitempty"`
}

func writeReplay(file string, sc *Scenario, cls string) bool {
	c := cloneScenario(sc)
	w, r := execute(c, true)
	ok := false
	for _, v := range r.Viol {
		ok = ok || v.Class == cls
	}
	if !ok {
		return false
	}
	log := w.sim.Log
	if len(log) > 400 {
		log = append(append([]string{}, log[:100]...), append([]string{"…"}, log[len(log)-300:]...)...)
	}
	b, err := json.MarshalIndent(Replay{Class: cls, Hash: fmt.Sprintf("%x", r.Hash), Violations: r.Viol, Scenario: sc, Log: log}, "", " ")
	if err != nil {
		return false
	}
	return os.WriteFile(file, b, 0644) == nil
}

func replayOK(self, file, cls string) bool {
	c := exec.Command(self, "replay", file)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	out, err := c.CombinedOutput()
	if err == nil {
		return false
	}
	return bytes.Contains(out, []byte("REPLAYED "+cls+"\n"))
}

// replay executes a replay file; exit 1 if it leads to the same violation.
func replay(args []string) int {
	verbose := len(args) > 1 && args[1] == "-v"
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rp.Class == "fatal" {
		b, _ := json.Marshal(rp.Scenario)
		self, _ := os.Executable()
		c := exec.Command(self, "scenario")
		c.Stdin = bytes.NewReader(b)
		out, err := c.CombinedOutput()
		if err != nil && (bytes.Contains(out, []byte("fatal error: ")) || bytes.Contains(out, []byte("exceeds 1000000000-byte limit"))) {
			fmt.Printf("%s\nREPLAYED fatal\n", short(string(out), 3000))
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	go func() {
		time.Sleep(stuckAfter)
		if rp.Class == "stuck" {
			fmt.Printf("the run does not end\nREPLAYED stuck\n")
			os.Exit(1)
		}
		os.Exit(2)
	}()
	w, r := execute(rp.Scenario, true)
	if verbose {
		for _, l := range w.sim.Log {
			fmt.Println(l)
		}
	}
	hit := false
	for _, v := range r.Viol {
		fmt.Printf("%s: %s\n", v.Class, v.Detail)
		hit = hit || v.Class == rp.Class
	}
	if h := fmt.Sprintf("%x", r.Hash); rp.Hash != "" && h != rp.Hash {
		fmt.Printf("schedule hash %s, recorded was %s: the code differs from the one the replay was made with\n", h, rp.Hash)
	}
	if hit {
		fmt.Printf("REPLAYED %s\n", rp.Class)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// ---- minimisation ----

// minimiseFile reads a replay file and writes a smaller one, as far as that gets.
func minimiseFile(in, out, findings string) int {
	b, err := os.ReadFile(in)
	if err != nil {
		return 2
	}
	var rp Replay
	if json.Unmarshal(b, &rp) != nil {
		return 2
	}
	best := make(chan []byte, 1)
	done := make(chan *Scenario, 1)
	go func() {
		done <- minimise(rp.Scenario, rp.Class, loadFindings(findings), 45*time.Second, func(c *Scenario) {
			b, _ := json.Marshal(Replay{Scenario: c, Class: rp.Class})
			select {
			case <-best:
			default:
			}
			best <- b
		})
	}()
	select {
	case m := <-done:
		if writeReplay(out, m, rp.Class) {
			return 0
		}
	case <-time.After(80 * time.Second):
		// one of the executions doesn't end
		select {
		case b := <-best:
			if os.WriteFile(out, b, 0644) == nil {
				return 0
			}
		default:
		}
	}
	return 2
}

func minimise(sc *Scenario, cls string, fs []Finding, budget time.Duration, better func(*Scenario)) *Scenario {
	t0 := time.Now()
	over := func() bool { return time.Since(t0) > budget }
	best := cloneScenario(sc)
	holds := func(c *Scenario) bool {
		if over() {
			return false
		}
		_, r := execute(cloneScenario(c), false)
		for _, v := range r.Viol {
			if v.Class == cls && known(fs, c.Prop, v) == nil {
				return true
			}
		}
		return false
	}
	try := func(f func(c *Scenario)) bool {
		c := cloneScenario(best)
		f(c)
		if holds(c) {
			best = c
			better(c)
			return true
		}
		return false
	}
	// a simpler schedule
	if best.Sched.Mode != "fifo" {
		if !try(func(c *Scenario) { c.Sched = simrt.Sched{Mode: "fifo", Seed: c.Sched.Seed} }) {
			try(func(c *Scenario) { c.Sched.PStall, c.Sched.MaxStal, c.Sched.StallUs = 0, 0, 0 })
			try(func(c *Scenario) { c.Sched.PMapW = 0 })
		}
	}
	for round := 0; round < 2; round++ {
		ddmin(len(best.Ops), func(keep []int) bool {
			return try(func(c *Scenario) { c.Ops = sel(c.Ops, keep) })
		})
		ddmin(len(best.Faults), func(keep []int) bool {
			return try(func(c *Scenario) { c.Faults = sel(c.Faults, keep) })
		})
		http := false
		for _, o := range best.Ops {
			http = http || o.K == "http" || o.K == "get"
		}
		try(func(c *Scenario) { c.Cfg = Cfg{JBT: c.Cfg.JBT, HTTP: http && c.Cfg.HTTP, Prom: http && c.Cfg.Prom} })
		for i := len(best.Env) - 1; i >= 0; i-- {
			i := i
			try(func(c *Scenario) { c.Env = append(c.Env[:i:i], c.Env[i+1:]...) })
		}
		try(func(c *Scenario) { c.Cfg.Builtin = false })
		try(func(c *Scenario) { c.Cfg.IVF = false })
		try(func(c *Scenario) { c.Cfg.Level = "" })
		if !http {
			try(func(c *Scenario) { c.Cfg.HTTP, c.Cfg.Prom = false, false })
		}
		for i := range best.Pubs {
			used := false
			for _, o := range best.Ops {
				used = used || (o.K == "start" || o.K == "http") && o.Pub == i
			}
			if !used {
				best.Pubs[i] = &Pub{}
				continue
			}
			i := i
			if best.Pubs[i].Audio != nil && best.Pubs[i].Video != nil {
				try(func(c *Scenario) { c.Pubs[i].Audio = nil })
				if best.Pubs[i].Audio != nil {
					try(func(c *Scenario) { c.Pubs[i].Video = nil })
				}
			}
			try(func(c *Scenario) { c.Pubs[i].GatherMs, c.Pubs[i].CloseMs, c.Pubs[i].JoinMs = 0, 0, 0 })
			get := func(c *Scenario, v int) *Stream {
				if v == 0 {
					return c.Pubs[i].Video
				}
				return c.Pubs[i].Audio
			}
			for v := 0; v < 2; v++ {
				v := v
				s := get(best, v)
				if s == nil {
					continue
				}
				ddmin(len(s.Fates), func(keep []int) bool {
					return try(func(c *Scenario) { q := get(c, v); q.Fates = sel(q.Fates, keep) })
				})
				ddmin(len(s.Pauses), func(keep []int) bool {
					return try(func(c *Scenario) { q := get(c, v); q.Pauses = sel(q.Pauses, keep) })
				})
				ddmin(len(s.TSJumps), func(keep []int) bool {
					return try(func(c *Scenario) { q := get(c, v); q.TSJumps = sel(q.TSJumps, keep) })
				})
				for _, f := range []func(q *Stream){
					func(q *Stream) { q.JitterMs = 0 }, func(q *Stream) { q.TL0 = false }, func(q *Stream) { q.Parts = false },
					func(q *Stream) { q.PadBits = false }, func(q *Stream) { q.RTX = false }, func(q *Stream) { q.MinSz, q.MaxSz = 30, 30 },
					func(q *Stream) { q.PT = 0 }, func(q *Stream) { q.KeyEvery = 0 }, func(q *Stream) { q.FirstKey = 0 },
					func(q *Stream) { q.StopMs /= 2 }, func(q *Stream) { q.StopMs /= 2 }, func(q *Stream) { q.Seq0, q.TS0, q.PID0 = 1000, 90000, 10 }} {
					f := f
					try(func(c *Scenario) { f(get(c, v)) })
				}
			}
		}
		try(func(c *Scenario) { c.EndMs = c.EndMs * 2 / 3 })
		try(func(c *Scenario) { c.NetUs = 0 })
		if over() {
			break
		}
	}
	if best.Sched.Mode == "fifo" {
		return best
	}
	// write the schedule out and minimise it
	w, _ := execute(cloneScenario(best), false)
	tr := cloneScenario(best)
	tr.Sched = simrt.Sched{Mode: "trace", Seed: best.Sched.Seed, Dev: w.sim.Devs}
	t0 = time.Now()
	if !holds(tr) {
		return best
	}
	best = tr
	ddmin(len(best.Sched.Dev), func(keep []int) bool {
		return try(func(c *Scenario) { c.Sched.Dev = sel(c.Sched.Dev, keep) })
	})
	return best
}

func sel[T any](v []T, keep []int) (o []T) {
	for _, i := range keep {
		if i < len(v) {
			o = append(o, v[i])
		}
	}
	return
}

// ddmin removes chunks of decreasing size; test gets the indices (into the current best) to keep.
func ddmin(n int, test func(keep []int) bool) {
	if n == 0 {
		return
	}
	if test(nil) {
		return
	}
	for chunk := (n + 1) / 2; chunk >= 1; {
		removed := false
		for from := 0; from < n; {
			to := from + chunk
			if to > n {
				to = n
			}
			var keep []int
			for i := 0; i < n; i++ {
				if i < from || i >= to {
					keep = append(keep, i)
				}
			}
			if len(keep) < n && test(keep) {
				n = len(keep)
				removed = true
				continue
			}
			from = to
		}
		if chunk == 1 {
			if !removed {
				break
			}
			continue
		}
		chunk = (chunk + 1) / 2
	}
}

// ---- evidence ----

func writeEvidence(file, prop, tier string, seed uint64, st *stats, base uint64, deep bool, wall, explored float64, nviol, stuck int) {
	faults := map[string]int64{}
	work := map[string]int64{}
	checked := map[string]int64{}
	for k, v := range st.counts {
		switch {
		case strings.HasPrefix(k, "fault."), strings.HasPrefix(k, "media.") && k != "media.delivered":
			faults[k] = v
		case strings.HasPrefix(k, "checked."):
			checked[k[8:]] = v
		default:
			work[k] = v
		}
	}
	var samples []any
	for i := uint64(0); i < 2; i++ {
		samples = append(samples, makeScenario(prop, base+i, deep))
	}
	hours := explored / 3600
	cov := map[string]any{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.ntHashes),
		"rule": "A case is one simulated execution of the recorder, derived from one seed: a scenario of the profiles listed, a fault sequence and a schedule. " +
			"It is non-trivial if the property's oracle compared at least one observation with an expectation (counters " + strings.Join(relevant[prop], ", ") + "); distinct if its sequence of goroutine switches differs from all others.",
		"samples":                 samples,
		"runs_per_hour":           int64(float64(st.runs) / hours),
		"seeds_per_hour":          int64(float64(st.runs) / hours),
		"first_seed":              base,
		"simulated_seconds":       float64(st.simNs) / 1e9,
		"profiles":                st.profiles,
		"faults_injected":         faults,
		"workload":                work,
		"observations_compared":   checked,
		"distinct_interleavings":  len(st.hashes),
		"interleaving_measure":    "hash over the sequence of goroutine switches of a run",
		"goroutine_switches":      st.switches,
		"reruns_that_differed":    st.nondet,
		"violations_not_replayed": st.unrepro,
		"runs_stuck":              stuck,
		"real_code":               []string{"all packages of bbb-webrtc-recorder (cmd, internal) from the working tree", "redigo (connections, pub/sub, pool)", "ebml-go (WebM writing)", "pion/webrtc media sample builder, rtp, sdp, ice candidate types", "LiveKit jitter buffer and protocol types", "prometheus client", "logrus", "koanf/viper-style configuration loading from a real file"},
		"simulated":               []string{"goroutine scheduler, channels, mutexes, wait groups, contexts", "clocks, timers, tickers", "file system (recordings)", "TCP to the broker, and the broker (redis protocol)", "peer connections (ICE/DTLS/SRTP and interceptors are stubs that deliver and take RTP/RTCP)", "LiveKit rooms (signalling is a stub)", "media publishers and their network", "signals, process start and kill", "HTTP transport", "random identifiers, map order of the recorder's maps"},
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{"the simulator's model of Go scheduling, of the file system and of the broker is faithful where the recorder can tell", "ICE, DTLS, SRTP and the interceptors of pion are not simulated", "bounds of liveness oracles are in simulated time and grow with injected stalls"},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(file), 0755)
	os.WriteFile(file, append(b, '\n'), 0644)
}

// relevant lists the counters that make a run non-trivial for a property.
var relevant = map[string][]string{
	"C01": {"checked.verdict", "checked.response"}, "C02": {"checked.verdict"}, "C03": {"checked.stop"}, "C04": {"op.raw", "checked.verdict"},
	"C05": {"media.malformed", "media.injected", "media.seqjump"}, "C06": {"checked.diskhit"}, "C07": {"checked.fsop", "checked.verdict"},
	"C08": {"checked.frame"}, "C09": {"checked.delta"}, "C10": {"checked.complete", "checked.resume"}, "C11": {"checked.time"},
	"C12": {"checked.audio", "checked.audio_complete"}, "C13": {"checked.nack", "checked.missing", "checked.pli"}, "C14": {"checked.latency", "checked.complete"},
	"C15": {"checked.flow_on", "checked.flow_off"}, "C16": {"checked.killed_file", "checked.killed_frame"}, "C17": {"checked.status"},
	"C18": {"checked.after_outage"}, "C19": {"checked.gauge"}, "C20": {"checked.resources"}, "C21": {"checked.http"}, "C22": {"checked.lk"},
	"C23": {"checked.ivf_frame"}, "C24": {"checked.reload"}, "C25": {"checked.sync"}, "C26": {"checked.position", "checked.utc"}, "C27": {"checked.reload"}, "C28": {"checked.get"},
}

// quickRuns is the number of runs of the quick tier, about 25 s on 8 cores: a fixed number, so that a run can be repeated.
var quickRuns = map[string]int{
	"C01": 32000, "C02": 20000, "C03": 32000, "C04": 22000, "C05": 4000, "C06": 13000, "C07": 40000, "C08": 12000, "C09": 26000, "C10": 14000, "C11": 28000, "C12": 28000,
	"C13": 15000, "C14": 17000, "C15": 10000, "C16": 24000, "C17": 50000, "C18": 14000, "C19": 26000, "C20": 28000, "C21": 14000, "C22": 40000, "C23": 28000, "C24": 13000, "C25": 6000, "C26": 10000, "C27": 20000, "C28": 20000,
}

// progress lists the properties that are broken when the recorder stops making progress.
var progress = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C10": true, "C12": true, "C13": true, "C14": true,
	"C15": true, "C17": true, "C18": true, "C19": true, "C20": true, "C21": true, "C22": true, "C23": true, "C24": true, "C27": true, "C28": true}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzsim run|worker|replay|one|props …")
		os.Exit(2)
	}
	code := 0
	args0 := os.Args
	arg := func(i int) string {
		if i < len(args0) {
			return args0[i]
		}
		return ""
	}
	num := func(i int) (n uint64) {
		fmt.Sscan(arg(i), &n)
		return
	}
	args := os.Args
	switch args[1] {
	case "run":
		code = run(args[2:])
	case "worker":
		worker(arg(2), num(3), num(4), int(num(5)), arg(6) == "true", 40)
	case "replay":
		code = replay(args[2:])
	case "one": // prop seed [deep]
		sc := cloneScenario(makeScenario(arg(2), num(3), arg(4) == "deep"))
		b, _ := json.MarshalIndent(sc, "", " ")
		w, r := execute(sc, true)
		for _, l := range w.sim.Log {
			fmt.Println(l)
		}
		if arg(5) == "d" {
			dump(w)
		} else if arg(5) != "q" {
			fmt.Println(string(b))
		}
		for _, v := range r.Viol {
			fmt.Printf("%s: %s\n", v.Class, v.Detail)
		}
		fmt.Println(r.Counts)
	case "scenario": // executes one from the standard input
		sc := &Scenario{}
		if err := json.NewDecoder(os.Stdin).Decode(sc); err != nil {
			panic(err)
		}
		execute(sc, false)
	case "minimise": // in out findings
		code = minimiseFile(arg(2), arg(3), arg(4))
	case "min": // prop seed class file
		sc := cloneScenario(makeScenario(arg(2), num(3), false))
		m := minimise(sc, arg(4), nil, 60*time.Second, func(*Scenario) {})
		fmt.Println(writeReplay(arg(5), m, arg(4)))
	case "props":
		for _, k := range keysOf(profiles) {
			fmt.Println(k)
		}
	default:
		code = 2
	}
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
	os.Exit(code)
}

// dump writes what became of every packet and frame (development).
func dump(w *World) {
	a := analyse(w)
	for _, r := range a.recs {
		if r.pub == nil {
			continue
		}
		for _, s := range r.pub.sources() {
			inf := a.packets(s)
			fi := a.expect(s)
			got := map[int]int64{}
			if v := a.webm(r); v != nil {
				m := a.idx(r.pub)
				typ := 1
				if !s.video {
					m, typ = a.aidx(r.pub), 2
				}
				for _, b := range v.of(typ) {
					if f := m[string(b.Data)]; f != nil {
						got[f.Idx] = b.TC + 1
					}
				}
			}
			fmt.Println("== rec", r.sid, s.kind(), "ok", r.okAt/ms, "end", r.endAt/ms)
			for _, f := range s.frames {
				fmt.Printf("frame %d key=%v bad=%v sent %d must=%v whole=%v waits=%v at=%d recorded=%v tc=%d len=%d\n", f.Idx, f.Key, f.Bad, f.SentAt/ms, fi[f.Idx].must, fi[f.Idx].whole, fi[f.Idx].waits, fi[f.Idx].at/ms, got[f.Idx] > 0, got[f.Idx]-1, len(f.Data))
				for k := f.P0; k <= f.P1; k++ {
					p := s.pkts[k]
					fmt.Printf("    pkt %d seq %d frame %d sent %d first %d read %d sends %d deliv %d nacks %d ok=%v gap=%v at=%d\n", p.Ord, p.Seq, p.Frame, p.SentAt/ms, p.FirstAt/ms, p.ReadAt/ms, p.Sends, p.Deliv, p.Nacks, inf[k].ok, inf[k].gap, inf[k].at/ms)
				}
			}
			fmt.Print("plis")
			for _, t := range s.plis {
				fmt.Print(" ", t/ms)
			}
			fmt.Println()
		}
	}
}
