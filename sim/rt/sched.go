// Package simrt is the deterministic simulation runtime: a cooperative goroutine scheduler, virtual time,
// channels, locks, a file system, a network and process control, all driven by one seed.
package simrt

import (
	"container/heap"
	"fmt"
	"net/http"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---- deterministic PRNG ----

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Float() float64       { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool     { return r.Float() < p }
func (r *Rng) Range(a, b int) int   { return a + r.Intn(b-a+1) }
func (r *Rng) Pick(xs ...int) int   { return xs[r.Intn(len(xs))] }
func (r *Rng) Fork(tag uint64) *Rng { return NewRng(r.U64() ^ tag*0xD6E8FEB86659FD93) }

// ---- schedule specification ----

// Sched says how scheduling decisions are taken. Mode "fifo", "random", "preempt", "pct" draw from Seed; mode "trace" takes
// exactly the deviations listed in Dev and the default decision everywhere else.
type Sched struct {
	Mode    string  `json:"mode"`
	Seed    uint64  `json:"seed"`
	PPre    float64 `json:"p_preempt,omitempty"`  // preemption probability per program point
	PStall  float64 `json:"p_stall,omitempty"`    // given a preemption, probability of a timed stall
	MaxStal int     `json:"max_stalls,omitempty"` // number of timed stalls allowed
	StallUs int     `json:"stall_us,omitempty"`   // maximum length of a stall in microseconds
	PctN    int     `json:"pct_n,omitempty"`
	PMapW   float64 `json:"p_mapw,omitempty"`
	Dev     []Dev   `json:"dev,omitempty"`
}

// Dev is one non-default decision: kind, the how-manieth decision of that kind, and its value.
type Dev struct {
	K string `json:"k"`
	N uint64 `json:"n"`
	V int    `json:"v"`
}

type devKey struct {
	k string
	n uint64
}

// ---- world ----

type Event struct {
	at   int64
	seq  uint64
	fn   func()
	proc *Proc
	dead bool
	idx  int
}

func (e *Event) Cancel() bool {
	if e == nil || e.dead || e.idx < 0 {
		return false
	}
	e.dead = true
	return true
}

type evHeap []*Event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *evHeap) Push(x any)   { e := x.(*Event); e.idx = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

type gstate int

const (
	gRunnable gstate = iota
	gRunning
	gBlocked
	gDone
)

// G is a simulated goroutine.
type G struct {
	ID       int
	Site     string
	Proc     *Proc
	wake     chan struct{}
	state    gstate
	killed   bool
	Why      string // what it is blocked on
	wr       wakeRes
	prio     int
	http     bool
	Born     int64
	sel      *selWait
	noSwitch int
}

type wakeRes struct {
	idx int
	val any
	ok  bool
}

// Proc is a simulated operating-system process running the recorder.
type Proc struct {
	ID       int
	Dead     bool
	ExitCode int
	ExitWhy  string // "exit", "panic: ...", "fatal: ...", "killed"
	Stack    string
	ExitAt   int64
	gs       []*G
	sigs     []sigReg
	conns    []*Conn
	files    map[*File]bool
	timers   map[*Event]string
	listen   map[string]*lstn
	mux      *http.ServeMux
	OnExit   func(p *Proc)
	Capture  bool   // keep what it prints
	Out      []byte // what it printed
}

type World struct {
	Sched     Sched
	rng       *Rng
	now       int64
	wall      int64 // offset added to now for the wall clock
	evs       evHeap
	evseq     uint64
	runq      []*G
	cur       *G
	gid       int
	back      chan struct{}
	procs     []*Proc
	Cur       *Proc // the live recorder process (may be nil)
	chans     map[uintptr]*chanState
	dev       map[devKey]int
	counts    map[string]uint64
	Devs      []Dev
	points    uint64
	nextPt    uint64
	stalls    int
	StallNs   int64
	nextPct   uint64
	spin      uint64
	Limit     int64
	MaxSteps  uint64
	steps     uint64
	Abort     string // why the run was aborted, when it was
	Hang      string
	Hash      uint64 // rolling hash over the schedule and observable events
	HashOn    bool
	Mute      bool   // program points don't count
	SwHash    uint64 // hash over scheduling switches only
	Switches  uint64
	FS        *FS
	Net       *Net
	Stats     map[string]int64
	mapw      map[uintptr]*G
	Rand      *Rng
	Ext       map[any]any
	Log       []string
	LogOn     bool
	pctPts    map[uint64]bool
	ending    bool
	CrashAtFS uint64
	fsops     uint64
	Reach     map[string]int64
	Misuse    []string
}

var W *World

const Epoch = int64(1790000000) * 1e9

func NewWorld(s Sched) *World {
	w := &World{Sched: s, rng: NewRng(s.Seed), back: make(chan struct{}), chans: map[uintptr]*chanState{},
		counts: map[string]uint64{}, Stats: map[string]int64{}, mapw: map[uintptr]*G{}, Ext: map[any]any{}, wall: Epoch,
		MaxSteps: 4000000, Reach: map[string]int64{}}
	w.Rand = NewRng(s.Seed ^ 0xABCDEF)
	if s.Mode == "trace" {
		w.dev = map[devKey]int{}
		for _, d := range s.Dev {
			w.dev[devKey{d.K, d.N}] = d.V
		}
	}
	if s.Mode == "pct" {
		w.pctPts = map[uint64]bool{}
	}
	w.FS = newFS(w)
	w.Net = newNet(w)
	w.drawNext()
	W = w
	return w
}

func (w *World) Logf(f string, a ...any) {
	if w.LogOn {
		w.Log = append(w.Log, fmt.Sprintf("[%12.6f] ", float64(w.now)/1e9)+fmt.Sprintf(f, a...))
	}
}

func (w *World) mix(x uint64) {
	w.Hash = (w.Hash ^ x) * 0x100000001b3
	w.Hash ^= w.Hash >> 29
}

// Observe folds an observable event into the run's hash.
func (w *World) Observe(s string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.mix(h)
	w.mix(uint64(w.now))
}

func (w *World) Now() int64       { return w.now }
func (w *World) Wall() int64      { return w.now + w.wall }
func (w *World) StepWall(d int64) { w.wall += d }

// At schedules fn as a world event (not tied to the recorder process).
func (w *World) At(t int64, fn func()) *Event {
	if t < w.now {
		t = w.now
	}
	w.evseq++
	e := &Event{at: t, seq: w.evseq, fn: fn}
	heap.Push(&w.evs, e)
	return e
}
func (w *World) After(d int64, fn func()) *Event { return w.At(w.now+d, fn) }

func (w *World) procAfter(p *Proc, d int64, what string, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	e := w.At(w.now+d, nil)
	e.proc = p
	e.fn = func() {
		if p != nil {
			if p.Dead {
				return
			}
			delete(p.timers, e)
		}
		fn()
	}
	if p != nil && what != "" {
		p.timers[e] = what
	}
	return e
}

// decide returns the decision of the given kind: 0 is the default.
func (w *World) decide(k string, draw func() int) int {
	n := w.counts[k]
	w.counts[k] = n + 1
	v := 0
	if w.dev != nil {
		v = w.dev[devKey{k, n}]
	} else {
		v = draw()
	}
	if v != 0 {
		w.Devs = append(w.Devs, Dev{k, n, v})
	}
	return v
}

func (w *World) choose(k string, n int) int {
	if n <= 1 {
		return 0
	}
	v := w.decide(k, func() int {
		if w.Sched.Mode == "fifo" {
			return 0
		}
		return w.rng.Intn(n)
	})
	if v >= n || v < 0 {
		v = 0
	}
	return v
}

// ---- goroutines ----

func site(skip int) string {
	_, f, l, ok := runtime.Caller(skip + 1)
	if !ok {
		return "?"
	}
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			f = f[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", f, l)
}

// Go starts a simulated goroutine in the current process.
func Go(fn func()) {
	w := W
	if w == nil {
		go fn()
		return
	}
	if w.cur == nil {
		panic("simrt.Go outside simulation")
	}
	w.checkKilled()
	w.spawn(w.cur.Proc, site(1), fn)
	P()
}

// Spawn starts a simulated goroutine in process p from the world (harness) side.
func (w *World) Spawn(p *Proc, site string, fn func()) *G {
	if p == nil || p.Dead {
		return nil
	}
	return w.spawn(p, site, fn)
}

func (w *World) spawn(p *Proc, site string, fn func()) *G {
	w.gid++
	g := &G{ID: w.gid, Site: site, Proc: p, wake: make(chan struct{}), Born: w.now}
	if w.Sched.Mode == "pct" {
		g.prio = w.rng.Intn(1 << 20)
	}
	p.gs = append(p.gs, g)
	if len(p.gs)%256 == 0 {
		live := p.gs[:0]
		for _, x := range p.gs {
			if x.state != gDone {
				live = append(live, x)
			}
		}
		p.gs = live
	}
	w.runq = append(w.runq, g)
	go func() {
		<-g.wake
		normal := false
		defer func() {
			r := recover()
			if !normal && r != nil && !g.killed {
				w.procPanic(g, r)
			}
			g.state = gDone
			w.back <- struct{}{}
		}()
		if g.killed {
			return
		}
		fn()
		normal = true
	}()
	return g
}

type fatalError struct{ msg string }

func (w *World) procPanic(g *G, r any) {
	p := g.Proc
	if p.Dead {
		return
	}
	st := string(debug.Stack())
	if fe, ok := r.(fatalError); ok {
		w.procDie(p, 2, "fatal: "+fe.msg, st)
		return
	}
	w.procDie(p, 2, fmt.Sprintf("panic: %v", r), st)
}

func (w *World) procDie(p *Proc, code int, why, stack string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.ExitCode = code
	p.ExitWhy = why
	p.Stack = trimStack(stack)
	p.ExitAt = w.now
	w.Logf("process %d ended: %s", p.ID, why)
	w.Observe("exit:" + why)
	for _, c := range p.conns {
		c.procGone()
	}
	for f := range p.files {
		f.closed = true
	}
	if w.Cur == p {
		w.Cur = nil
	}
	if p.OnExit != nil {
		p.OnExit(p)
	}
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "/internal/") || strings.Contains(l, "ebml") || strings.Contains(l, "redigo") || strings.Contains(l, "pion")) {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Kill ends the process from the outside (kill -9).
func (w *World) Kill(p *Proc, why string) { w.procDie(p, 137, why, "") }

// reap unwinds the goroutines of dead processes. Runs on the scheduler.
func (w *World) reap() {
	for _, p := range w.procs {
		if !p.Dead || p.gs == nil {
			continue
		}
		gs := p.gs
		p.gs = nil
		for i := 0; i < len(gs); i++ {
			w.unwind(gs[i])
		}
		q := w.runq[:0]
		for _, g := range w.runq {
			if g.state != gDone {
				q = append(q, g)
			}
		}
		w.runq = q
	}
}

func (w *World) unwind(g *G) {
	if g.state == gDone {
		return
	}
	g.killed = true
	sv := w.cur
	w.cur = g
	g.state = gRunning
	g.wake <- struct{}{}
	<-w.back
	w.cur = sv
}

func (w *World) checkKilled() {
	g := w.cur
	if g != nil && (g.killed || g.Proc.Dead) {
		g.killed = true
		runtime.Goexit()
	}
}

// park blocks the current goroutine until something makes it runnable.
func (w *World) park(why string) {
	g := w.cur
	g.state = gBlocked
	g.Why = why
	w.switchOut(g)
}

func (w *World) switchOut(g *G) {
	w.back <- struct{}{}
	<-g.wake
	if g.killed {
		runtime.Goexit()
	}
}

func (w *World) ready(g *G) {
	if g.state != gBlocked || g.Why == "stall" {
		return
	}
	w.unpark(g)
}

func (w *World) unpark(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	g.Why = ""
	w.runq = append(w.runq, g)
}

func (w *World) yield() {
	g := w.cur
	g.state = gRunnable
	w.runq = append(w.runq, g)
	w.switchOut(g)
}

// Cur returns the current goroutine.
func CurG() *G { return W.cur }

// P is a program point: a possible preemption.
func P() {
	w := W
	if w == nil || w.cur == nil || w.Mute {
		return
	}
	w.points++
	if w.points >= w.nextPt {
		w.pointSlow()
	}
}

// NoSwitch begins (1) or ends (-1) a part of the current goroutine that no other one may interrupt.
func NoSwitch(d int) {
	if w := W; w != nil && w.cur != nil {
		w.cur.noSwitch += d
	}
}

const spinChunk = 3000000

func (w *World) drawNext() {
	w.nextPt = w.points + spinChunk
	if w.dev != nil {
		for k := range w.dev {
			if k.k == "p" && k.n > w.points && k.n < w.nextPt {
				w.nextPt = k.n
			}
		}
		return
	}
	if w.Sched.PPre > 0 && w.Sched.Mode != "fifo" {
		// geometric distance
		n := uint64(1)
		u := w.rng.Float()
		if u < 1e-12 {
			u = 1e-12
		}
		n += uint64(-ln(u) / w.Sched.PPre)
		if w.points+n < w.nextPt {
			w.nextPt = w.points + n
		}
	}
}

func (w *World) pointSlow() {
	g := w.cur
	if g.killed {
		w.nextPt = w.points + spinChunk
		return
	}
	if g.noSwitch > 0 {
		w.drawNext()
		return
	}
	at := w.points
	v := 0
	if w.dev != nil {
		v = w.dev[devKey{"p", at}]
	} else if w.Sched.PPre > 0 && w.Sched.Mode != "fifo" && at-w.spin < spinChunk {
		v = 1
		if w.stalls < w.Sched.MaxStal && w.rng.P(w.Sched.PStall) {
			v = 2 + w.rng.Intn(w.Sched.StallUs+1)
		}
	}
	w.drawNext()
	if at-w.spin >= spinChunk {
		w.Hang = "goroutine " + g.Site + " does not stop computing"
		w.procDie(g.Proc, 3, "hang: "+w.Hang, string(debug.Stack()))
		w.checkKilled()
		return
	}
	if v == 0 {
		return
	}
	w.Devs = append(w.Devs, Dev{"p", at, v})
	if v == 1 {
		if len(w.runq) == 0 {
			return
		}
		w.Stats["preemptions"]++
		if w.Sched.Mode == "pct" {
			g.prio = -int(at)
		}
		w.yield()
		return
	}
	w.stall(int64(v-1) * 1000)
}

func (w *World) stall(d int64) {
	w.stalls++
	w.StallNs += d
	w.Stats["stalls"]++
	g := w.cur
	w.procAfter(g.Proc, d, "", func() { w.unpark(g) })
	w.park("stall")
}

func ln(x float64) float64 {
	// natural logarithm, deterministic on all platforms: ln(x) via atanh series after range reduction
	if x <= 0 {
		return -1e9
	}
	k := 0
	for x < 0.5 {
		x *= 2
		k--
	}
	for x > 1 {
		x /= 2
		k++
	}
	y := (x - 1) / (x + 1)
	y2 := y * y
	s, t := 0.0, y
	for i := 1; i < 40; i += 2 {
		s += t / float64(i)
		t *= y2
	}
	return 2*s + float64(k)*0.6931471805599453
}

// Run runs the world until virtual time limit, or until no goroutine can run and no event is left.
func (w *World) Run(until int64) {
	w.Limit = until
	for {
		if w.Abort != "" {
			return
		}
		w.steps++
		if w.steps > w.MaxSteps {
			w.Abort = "step limit"
			return
		}
		w.reapIfNeeded()
		var next *Event
		for len(w.evs) > 0 && (w.evs[0].dead || (w.evs[0].proc != nil && w.evs[0].proc.Dead)) {
			heap.Pop(&w.evs)
		}
		if len(w.evs) > 0 {
			next = w.evs[0]
		}
		if len(w.runq) > 0 {
			if next != nil && next.at <= w.now {
				// an event is due while goroutines are runnable: either may go first
				if w.choose("e", 2) == 1 {
					w.fire()
					continue
				}
			}
			i := 0
			if len(w.runq) > 1 {
				switch {
				case w.dev != nil:
					i = w.choose("r", len(w.runq))
				case w.Sched.Mode == "pct":
					n := len(w.runq)
					i = w.decide("r", func() int {
						b := 0
						for j := 1; j < n; j++ {
							if w.runq[j].prio > w.runq[b].prio {
								b = j
							}
						}
						return b
					})
				default:
					i = w.choose("r", len(w.runq))
				}
			}
			g := w.runq[i]
			w.runq = append(w.runq[:i], w.runq[i+1:]...)
			if g.Proc.Dead {
				continue
			}
			w.runG(g)
			continue
		}
		if next == nil {
			return
		}
		if next.at > until {
			w.now = until
			return
		}
		w.fire()
	}
}

func (w *World) reapIfNeeded() {
	for _, p := range w.procs {
		if p.Dead && p.gs != nil {
			w.reap()
			return
		}
	}
}

func (w *World) fire() {
	e := heap.Pop(&w.evs).(*Event)
	if e.at > w.now {
		w.now = e.at
	}
	if e.dead || (e.proc != nil && e.proc.Dead) {
		return
	}
	w.mix(e.seq)
	w.spin = w.points
	e.fn()
}

func (w *World) runG(g *G) {
	w.cur = g
	g.state = gRunning
	w.spin = w.points
	w.Switches++
	w.SwHash = (w.SwHash ^ uint64(g.ID)) * 0x100000001b3
	w.mix(uint64(g.ID)<<32 ^ uint64(w.now))
	g.wake <- struct{}{}
	<-w.back
	w.cur = nil
}

// End kills everything that is left, so that the real goroutines disappear.
func (w *World) End() {
	w.ending = true
	for _, p := range w.procs {
		if !p.Dead {
			p.Dead = true
			p.ExitWhy = ""
		}
	}
	w.reap()
	W = nil
}

// NewProc creates a process and runs main in it.
func (w *World) NewProc(main func()) *Proc {
	p := &Proc{ID: len(w.procs) + 1, files: map[*File]bool{}, timers: map[*Event]string{}, listen: map[string]*lstn{}}
	w.procs = append(w.procs, p)
	w.Cur = p
	w.spawn(p, "main", func() {
		main()
		// main returned: the process exits with status 0
		w.procDie(p, 0, "main returned", "")
	})
	return p
}

// Live lists the goroutines of p that have not finished.
func (p *Proc) Live() []*G {
	var r []*G
	for _, g := range p.gs {
		if g.state != gDone {
			r = append(r, g)
		}
	}
	return r
}

func (p *Proc) Timers() []string {
	var r []string
	for e, s := range p.timers {
		if !e.dead {
			r = append(r, s)
		}
	}
	sort.Strings(r)
	return r
}

func (p *Proc) OpenFiles() []string {
	var r []string
	for f := range p.files {
		r = append(r, f.name)
	}
	sort.Strings(r)
	return r
}

func (g *G) Blocked() bool { return g.state == gBlocked }

// Exit is os.Exit.
func Exit(code int) {
	w := W
	if w == nil || w.cur == nil {
		panic("os.Exit outside simulation")
	}
	w.checkKilled()
	w.procDie(w.cur.Proc, code, fmt.Sprintf("exit %d", code), string(debug.Stack()))
	w.checkKilled()
}

// Fatal is an unrecoverable runtime error of the Go runtime (for example concurrent map writes).
func (w *World) fatal(msg string) {
	g := w.cur
	w.procDie(g.Proc, 2, "fatal: "+msg, string(debug.Stack()))
	w.checkKilled()
}

func (w *World) Fatalf(f string, a ...any) { w.fatal(fmt.Sprintf(f, a...)) }
