package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"simrt"
)

// gen builds random scenarios. Every choice comes from one seed.
type gen struct {
	r        *simrt.Rng
	sc       *Scenario
	prop     string
	deep     bool // longer runs
	sids     int
	sidStyle int
	nsid     int
	trk      int
}

type profile struct {
	name string
	w    int
	f    func(g *gen)
}

func (g *gen) p(x float64) bool { return g.r.P(x) }
func (g *gen) n(a, b int) int   { return g.r.Range(a, b) }
func pick[T any](g *gen, v ...T) T {
	return v[g.r.Intn(len(v))]
}

// makeScenario derives a scenario from a property and a seed.
func makeScenario(prop string, seed uint64, deep bool) *Scenario {
	g := &gen{r: simrt.NewRng(seed*0x9E3779B97F4A7C15 + hashStr(prop)), prop: prop, deep: deep}
	g.sc = &Scenario{Prop: prop, Seed: seed}
	ps := profiles[prop]
	tot := 0
	for _, p := range ps {
		tot += p.w
	}
	x := g.r.Intn(tot)
	for _, p := range ps {
		if x < p.w {
			g.sc.Profile = p.name
			g.schedule()
			p.f(g)
			break
		}
		x -= p.w
	}
	if g.p(0.3) {
		g.share()
	}
	return g.sc
}

// share puts all LiveKit recordings into the same room.
func (g *gen) share() {
	sids, pubs := map[string]bool{}, map[int]bool{}
	for _, o := range g.sc.Ops {
		if o.K != "start" {
			continue
		}
		if sids[o.Sid] || o.Sid == "" || pubs[o.Pub] {
			return
		}
		sids[o.Sid], pubs[o.Pub] = true, true
	}
	for i, p := range g.sc.Pubs {
		if p.Room != "" && !p.Shared {
			p.Shared, p.Part, p.ExtraID = true, g.r.Intn(4), fmt.Sprintf("TR_other%d", i)
		}
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (g *gen) schedule() {
	s := &g.sc.Sched
	s.Seed = g.r.U64()
	switch x := g.r.Intn(100); {
	case x < 12:
		s.Mode = "fifo"
	case x < 50:
		s.Mode = "random"
	case x < 80:
		s.Mode = "preempt"
		s.PPre = pick(g, 0.001, 0.005, 0.02, 0.1)
	default:
		s.Mode = "pct"
		s.PPre = pick(g, 0.0005, 0.003, 0.01)
	}
	if s.Mode != "fifo" && g.p(0.3) {
		if s.PPre == 0 {
			s.PPre = 0.001
		}
		s.PStall = pick(g, 0.02, 0.1, 0.5)
		s.MaxStal = g.n(1, 4)
		s.StallUs = pick(g, 500, 3000, 20000, 60000)
	}
	if s.Mode != "fifo" && g.p(0.3) {
		s.PMapW = pick(g, 0.02, 0.2)
		if s.MaxStal == 0 && g.p(0.5) {
			s.MaxStal, s.StallUs = g.n(1, 3), pick(g, 3000, 20000, 40000)
			s.PMapW = pick(g, 0.2, 0.6)
		}
	}
}

// noStalls keeps the scheduler's timed stalls out of runs whose oracle is about time.
func (g *gen) noStalls() {
	s := &g.sc.Sched
	s.PStall, s.MaxStal, s.StallUs = 0, 0, 0
}

func (g *gen) cfgBasics() {
	c := &g.sc.Cfg
	if g.p(0.25) {
		c.Builtin = true
	}
	if g.p(0.15) {
		c.IVF = true
	}
	if g.p(0.1) {
		c.Level = pick(g, "trace", "debug", "info")
	}
	if g.p(0.3) {
		c.JB = pick(g, 64, 128, 256, 1024)
	}
	if g.p(0.3) {
		c.JBT = pick(g, 100, 150, 300, 500)
	}
	if g.p(0.2) {
		c.VQ = pick(g, 32, 64, 128, 512)
	}
	if g.p(0.2) {
		c.AQ = pick(g, 8, 16, 64)
	}
	if g.p(0.1) {
		c.Password = "secret"
	}
	if g.p(0.12) {
		g.sc.NetUs = pick(g, 1000, 5000, 30000)
	}
}

func (g *gen) seq0() uint16 {
	switch g.r.Intn(4) {
	case 0:
		return uint16(65536 - g.n(1, 400))
	case 1:
		return uint16(g.r.Intn(5) - 2)
	}
	return uint16(g.r.U64())
}

func (g *gen) ts0(clock int) uint32 {
	switch g.r.Intn(4) {
	case 0:
		return uint32(1<<32 - int64(g.n(1, 5000)*clock))
	case 1:
		return 0
	case 2:
		return uint32(1<<31 - int64(g.n(1, 3000)*clock))
	}
	return uint32(g.r.U64())
}

func (g *gen) ssrc() uint32 { return uint32(g.r.U64())&0x7fffffff | 1 }

func (g *gen) video(durMs int) *Stream {
	g.trk++
	s := &Stream{Seed: g.r.U64(), SSRC: g.ssrc(), Seq0: g.seq0(), TS0: g.ts0(90), StartMs: g.n(0, 300), StopMs: durMs, TrackID: fmt.Sprintf("TR_V%d", g.trk)}
	s.PIDMode = pick(g, 15, 15, 7, 0)
	s.PID0 = uint16(g.r.U64()) & 0x7fff
	if g.p(0.3) {
		s.PID0 = uint16(0x7fff - g.r.Intn(60))
	}
	if s.PIDMode == 7 {
		s.PID0 &= 0x7f
	}
	s.TL0 = g.p(0.25)
	s.Parts = g.p(0.2)
	s.PadBits = g.p(0.15)
	s.FrameMs = pick(g, 20, 33, 33, 40, 66, 100)
	s.MinSz = g.n(30, 300)
	s.MaxSz = s.MinSz + pick(g, 0, 200, 1000, 3000)
	s.PktSz = pick(g, 0, 1100, 500, 250)
	s.PLIMs = g.n(0, 200)
	s.LagMs = g.n(2, 60)
	if g.p(0.3) {
		s.KeyEvery = g.n(5, 60)
	}
	if g.p(0.15) {
		s.FirstKey = g.n(1, 20)
	}
	if g.p(0.12) {
		d := pick(g, [2]int{16, 16}, [2]int{64, 36}, [2]int{180, 320}, [2]int{1280, 720}, [2]int{1920, 1080}, [2]int{3840, 2160}, [2]int{2160, 3840}, [2]int{8192, 8192})
		s.W, s.H = d[0], d[1]
	}
	if g.p(0.1) {
		s.Scale = g.n(1, 15)
	}
	if g.p(0.08) {
		s.MinSz = g.n(10, 30)
		s.MaxSz = s.MinSz + g.n(0, 20)
	}
	return s
}

func (g *gen) audio(durMs int) *Stream {
	g.trk++
	s := &Stream{Seed: g.r.U64(), SSRC: g.ssrc(), Seq0: g.seq0(), TS0: g.ts0(48), StartMs: g.n(0, 300), StopMs: durMs, FrameMs: pick(g, 20, 20, 10, 40, 60), LagMs: g.n(2, 60), TrackID: fmt.Sprintf("TR_A%d", g.trk)}
	s.MinSz = g.n(10, 60)
	s.MaxSz = s.MinSz + g.n(0, 100)
	s.PadBits = g.p(0.1)
	if g.p(0.15) {
		s.DTX = g.n(1, 20)
	}
	return s
}

// pub is a publisher that sends for durMs; kind: "v", "a", "av" or "" for any.
func (g *gen) pub(kind string, durMs int) *Pub {
	p := &Pub{ConnMs: g.n(10, 250), RTTMs: g.n(4, 120), GatherMs: pick(g, 0, 0, 5, 40), CloseMs: pick(g, 0, 0, 5, 30)}
	if kind == "" {
		kind = pick(g, "v", "a", "av", "av")
	}
	if kind != "a" {
		p.Video = g.video(durMs)
	}
	if kind != "v" {
		p.Audio = g.audio(durMs)
	}
	p.AudioFirst = g.p(0.4)
	if g.p(0.1) {
		p.Idle = pick(g, "inactive", "recvonly")
	}
	p.Full = g.p(0.2)
	if g.p(0.1) {
		p.Dir = pick(g, "sendrecv", "none")
	}
	return p
}

func (s *Stream) pkts() int {
	n := (s.StopMs - s.StartMs) / s.FrameMs
	if s.PktSz > 0 || s.MaxSz > 1000 {
		z := s.PktSz
		if z == 0 {
			z = 1000
		}
		n = n * (1 + (s.MinSz+s.MaxSz)/2/z)
	}
	if n < 10 {
		n = 10
	}
	return n
}

func (s *Stream) fate(p int, k string, n int) { s.Fates = append(s.Fates, Fate{p, k, n}) }

// reorder: everything arrives, within ms.
func (g *gen) reorder(s *Stream, maxMs int) {
	n := s.pkts()
	rate := pick(g, 0.01, 0.05, 0.2)
	for i := 0; i < n; i++ {
		if g.p(rate) || i == 0 && g.p(0.1) {
			s.fate(i, "delay", g.n(1, maxMs))
		}
	}
	if g.p(0.3) {
		s.JitterMs = g.n(1, maxMs/3+1)
	}
}

func (g *gen) dups(s *Stream) {
	n := s.pkts()
	rate := pick(g, 0.01, 0.05, 0.3)
	for i := 0; i < n; i++ {
		if g.p(rate) {
			s.fate(i, "dup", pick(g, 0, 1, 10, 50, 300))
		}
	}
}

func (g *gen) pads(s *Stream) {
	n := s.pkts()
	rate := pick(g, 0.01, 0.05, 0.05, 0.4)
	for i := 1; i < n; i++ {
		if g.p(rate) {
			s.fate(i, "pad", g.n(1, 4))
		}
	}
}

// losses: sparse losses, bursts, or both, in packets from..to.
func (g *gen) losses(s *Stream, from, to int) {
	kind := g.r.Intn(4)
	lost := func() int {
		if s.RTX {
			return pick(g, 1, 1, 2, 4, 99)
		}
		return 99
	}
	if kind != 1 {
		rate := pick(g, 0.003, 0.01, 0.04, 0.12)
		for i := from; i < to; i++ {
			if g.p(rate) {
				s.fate(i, "drop", lost())
			}
		}
	}
	if kind != 0 {
		for b := g.n(1, 3); b > 0; b-- {
			at := from + g.r.Intn(to-from+1)
			l := pick(g, 1, 2, 3, 8, 20, 60)
			for i := at; i < at+l && i < to; i++ {
				s.fate(i, "drop", lost())
			}
		}
	}
}

// network disturbs a stream: everything from nothing to a mess.
func (g *gen) network(s *Stream) {
	if s == nil {
		return
	}
	s.RTX = g.p(0.5)
	n := s.pkts()
	if g.p(0.75) {
		g.losses(s, 0, n)
	}
	if g.p(0.4) {
		g.reorder(s, pick(g, 5, 40, 120, 400))
	}
	if g.p(0.3) {
		g.dups(s)
	}
	if g.p(0.3) {
		g.pads(s)
	}
	if g.p(0.08) {
		g.freeze(s)
	}
}

// big: key frames of some hundred packets.
func (g *gen) big(s *Stream) {
	if s == nil || !g.p(0.05) {
		return
	}
	s.KeySz = g.n(100, 420) * 1024
	s.PktSz = 1200
	s.KeyEvery = pick(g, 0, 0, 20)
	g.sc.Cfg.JB, g.sc.Cfg.VQ = 0, 0
}

// freeze: the network holds everything back for a while.
func (g *gen) freeze(s *Stream) {
	for i := g.n(1, 2); i > 0; i-- {
		s.fate(g.n(1, s.pkts()), "freeze", pick(g, g.n(50, 500), g.n(100, 2500), g.n(1900, 4500)))
	}
}

func (g *gen) jbt() int {
	if g.sc.Cfg.JBT == 0 {
		return 200
	}
	return g.sc.Cfg.JBT
}

// deliverAll: reordering and duplication within the tolerance, no loss.
func (g *gen) deliverAll(s *Stream) {
	if s == nil {
		return
	}
	max := g.jbt()
	if max > 400 {
		max = 400
	}
	max -= 100
	if max > 5 && g.p(0.6) {
		g.reorder(s, g.n(4, max))
	}
	if g.p(0.4) {
		g.dups(s)
	}
	if g.p(0.3) {
		g.pads(s)
	}
}

func (g *gen) sid() string {
	g.nsid++
	g.sids++
	if g.sids == 1 && g.p(0.25) {
		g.sidStyle = g.n(1, 4)
	}
	n, m := (g.sids-1)/3, (g.sids-1)%3
	switch g.sidStyle {
	case 1:
		return fmt.Sprintf("10c87dfe8a1b4c3dafe1-1732000000000-%d", g.nsid)
	case 2:
		return [...]string{"s", "S", "ſ"}[m] + fmt.Sprint(n)
	case 3:
		return [...]string{"", " ", "\t"}[m] + fmt.Sprintf("s%d", n)
	case 4:
		return fmt.Sprintf("s%d", n) + [...]string{"", " ", "\x00"}[m]
	}
	return fmt.Sprintf("s%d", g.nsid)
}

func (g *gen) file() string {
	g.nsid++
	return pick(g, "", "m/", "meeting/sub/") + fmt.Sprintf("r%d.webm", g.nsid)
}

func (g *gen) add(p *Pub) int {
	g.sc.Pubs = append(g.sc.Pubs, p)
	return len(g.sc.Pubs) - 1
}

func (g *gen) op(o Op) *Op {
	c := o
	if !utf8.ValidString(c.S) {
		c.Raw, c.S = []byte(c.S), ""
	}
	if c.At < 0 {
		c.At = 0
	}
	g.sc.Ops = append(g.sc.Ops, &c)
	return &c
}

func (g *gen) start(at int, sid string, pub int, file string) *Op {
	o := Op{At: at, K: "start", Sid: sid, Pub: pub, File: file}
	if g.sc.Pubs[pub].Room != "" {
		o.Adapter = "livekit"
	} else if g.p(0.3) {
		o.SDP = pick(g, "legacy", "noadapter", "legacyms")
	}
	return g.op(o)
}

func (g *gen) stop(at int, sid string) *Op { return g.op(Op{At: at, K: "stop", Sid: sid}) }

// session is a plain recording: start, media, stop. It returns its session id and publisher.
func (g *gen) session(at, dur int, kind string) (string, *Pub) {
	p := g.pub(kind, dur)
	i := g.add(p)
	sid := g.sid()
	g.start(at, sid, i, g.file())
	g.stop(at+dur+g.n(0, 600), sid)
	return sid, p
}

// openSession has no stop request.
func (g *gen) openSession(at, dur int, kind string) (string, int) {
	p := g.pub(kind, dur)
	i := g.add(p)
	sid := g.sid()
	g.start(at, sid, i, g.file())
	return sid, i
}

// end sets the end of the run: after the last operation, with time to settle.
func (g *gen) end(settle int) {
	last := 0
	for _, o := range g.sc.Ops {
		if o.At > last {
			last = o.At
		}
	}
	g.sc.EndMs = last + settle
}

func (g *gen) last() int {
	last := 0
	for _, o := range g.sc.Ops {
		if o.At > last {
			last = o.At
		}
	}
	return last
}

// livekit turns a publisher into a LiveKit room.
func (g *gen) livekit(p *Pub) {
	p.Room = "lk"
	p.JoinMs = pick(g, 0, 5, 60, 300)
	p.GatherMs, p.PCErr, p.NoConn = 0, "", false
	if g.p(0.2) {
		p.SubMs = pick(g, g.n(1, 20), g.n(10, 400))
	}
	if p.Video != nil && p.Video.PIDMode == 0 {
		p.Video.PIDMode = 15
	}
	p.Extra = g.p(0.3)
}

// probe makes sure the recorder still serves requests.
func (g *gen) probe(at int) {
	g.op(Op{At: at, K: "status"})
	g.session(at+50, g.n(600, 1200), pick(g, "v", "a", "av"))
}

// dur is the usual length of a recording.
func (g *gen) dur() int {
	if g.deep && g.p(0.3) {
		return g.n(5000, 15000)
	}
	return pick(g, g.n(800, 2000), g.n(2000, 4500), g.n(3000, 7000))
}

var badSDPs = []string{"none", "badb64", "badjson", "rawsdp", "badsdp", "emptysdp", "answer", "badtype", "nomid", "noice", "nofp", "null", "num", "noopts"}

func (g *gen) badSDP() string { return badSDPs[g.r.Intn(len(badSDPs))] }

// badStart is a start request that fails, in one of many ways.
func (g *gen) badStart(at int, sid string) *Op {
	p := g.pub(pick(g, "v", "a", "av"), 500)
	i := g.add(p)
	o := Op{At: at, K: "start", Sid: sid, Pub: i, File: g.file()}
	switch g.r.Intn(10) {
	case 0, 1:
		o.SDP = g.badSDP()
	case 9:
		o.Sid = ""
		if g.p(0.5) {
			o.Adapter = "mediasoup"
		}
	case 2:
		p.PCErr = "setlocal"
	case 3:
		p.PCErr = "new"
	case 4:
		o.File = pick(g, "x.mp4", "noext", "x.WEBM.txt", "", "a/b.mkv", "x.webm.tmp")
	case 5:
		o.File = pick(g, "../x.webm", "a/../../y.webm", "../../etc/z.webm", "../outside/keep.webm")
	case 6:
		o.Adapter = pick(g, "janus", "LIVEKIT", "x")
	case 7:
		g.livekit(p)
		o.Adapter = "livekit"
		o.SDP = pick(g, "noroom", "notracks", "noopts")
	default:
		g.livekit(p)
		o.Adapter = "livekit"
		if g.p(0.5) {
			p.JoinErr = true
		} else {
			p.SubErr = true
		}
	}
	return g.op(o)
}

// ---- C01 ----

func genStarts(g *gen) {
	g.cfgBasics()
	if g.p(0.1) {
		g.sc.Cfg.DevNull = true
	}
	n := g.n(2, 6)
	t := g.n(180, 400)
	var sids []string
	var files []string
	for i := 0; i < n; i++ {
		sid := g.sid()
		if len(sids) > 0 && g.p(0.3) {
			sid = sids[g.r.Intn(len(sids))]
		}
		sids = append(sids, sid)
		switch x := g.r.Intn(10); {
		case x < 4:
			g.badStart(t, sid)
			if g.p(0.5) { // the id is free again
				t += g.n(30, 1200)
				j := g.add(g.pub("", g.n(300, 1500)))
				g.start(t, sid, j, g.file())
			}
		default:
			p := g.pub("", g.n(300, 2000))
			if g.p(0.2) {
				g.livekit(p)
			}
			if g.p(0.15) {
				p.GatherMs = pick(g, g.n(50, 900), g.n(500, 6000))
			}
			if g.p(0.1) {
				p.NoConn = true
			}
			j := g.add(p)
			f := g.file()
			if len(files) > 0 && g.p(0.2) {
				f = files[g.r.Intn(len(files))]
				if g.p(0.4) {
					f = "elsewhere/" + f[strings.LastIndexByte(f, '/')+1:]
				}
			}
			files = append(files, f)
			g.start(t, sid, j, f)
		}
		if g.p(0.3) {
			t += g.n(0, 5)
		} else {
			t += g.n(20, 900)
		}
		if g.p(0.3) {
			g.stop(t, sids[g.r.Intn(len(sids))])
			t += g.n(0, 300)
		}
	}
	t += g.n(100, 1500)
	for _, s := range sids {
		if g.p(0.8) {
			g.stop(t+g.n(0, 50), s)
		}
	}
	if g.sc.Cfg.Prom = g.p(0.5); g.sc.Cfg.Prom {
		g.op(Op{At: t + 4500, K: "get", S: "/metrics"})
	}
	if g.p(0.2) {
		g.sc.Faults = append(g.sc.Faults, &simrt.FSFault{Op: pick(g, "mkdir", "stat", "open"), After: g.n(0, 4), Count: g.n(1, 2), Err: pick(g, "EIO", "EACCES", "ENOSPC", "EROFS")})
	}
	g.lostReplies()
	g.end(5000)
}

// ---- C02 ----

func genExclusive(g *gen) {
	g.cfgBasics()
	sids := []string{g.sid(), g.sid()}
	t := g.n(180, 400)
	for i := g.n(4, 9); i > 0; i-- {
		sid := sids[g.r.Intn(len(sids))]
		switch x := g.r.Intn(10); {
		case x < 5:
			p := g.pub("", g.n(400, 4000))
			if g.p(0.2) {
				g.livekit(p)
			}
			if g.p(0.2) {
				p.CloseMs = g.n(10, 300)
			}
			j := g.add(p)
			g.start(t, sid, j, g.file())
		case x < 6:
			g.badStart(t, sid)
		case x < 8:
			g.stop(t, sid)
		case x < 9 && len(g.sc.Pubs) > 0:
			j := g.r.Intn(len(g.sc.Pubs))
			if g.sc.Pubs[j].Room != "" {
				g.op(Op{At: t, K: "kick", Pub: j})
			} else {
				g.op(Op{At: t, K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
			}
		default:
			if len(g.sc.Pubs) > 0 {
				j := g.r.Intn(len(g.sc.Pubs))
				if g.sc.Pubs[j].Room == "" {
					g.op(Op{At: t, K: "endtrack", Pub: j, S: pick(g, "", "video", "audio")})
				}
			}
		}
		t += pick(g, 0, g.n(0, 4), g.n(5, 60), g.n(200, 1500))
	}
	// the ids are usable again
	t += g.n(300, 1500)
	for _, s := range sids {
		g.stop(t, s)
	}
	t += 2500
	for _, s := range sids {
		j := g.add(g.pub("", g.n(400, 1200)))
		g.start(t, s, j, g.file())
	}
	t += g.n(500, 1800)
	for _, s := range sids {
		g.stop(t, s)
	}
	g.lostReplies()
	g.end(5000)
}

// ---- C03 ----

func genEnds(g *gen) {
	g.cfgBasics()
	if g.p(0.08) {
		g.sc.Cfg.DevNull = true
	}
	n := g.n(1, 3)
	for k := 0; k < n; k++ {
		at := g.n(180, 1500)
		p := g.pub("", g.n(1000, 5000))
		if g.p(0.25) {
			g.livekit(p)
		}
		if g.p(0.3) {
			p.CloseMs = g.n(1, 200)
		}
		if g.p(0.08) {
			p.NoConn = true
		}
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil && g.p(0.3) {
				g.network(s)
			}
		}
		j := g.add(p)
		sid := g.sid()
		g.start(at, sid, j, g.file())
		// one or several ends, close together
		end := at + pick(g, g.n(0, 5), g.n(5, 400), g.n(400, 5000))
		for m := g.n(1, 3); m > 0; m-- {
			e := end + pick(g, 0, 0, g.n(0, 3), g.n(0, 40), g.n(0, 1500))
			switch x := g.r.Intn(10); {
			case x < 4:
				g.stop(e, sid)
			case x < 7:
				if p.Room != "" {
					g.op(Op{At: e, K: "kick", Pub: j})
				} else {
					g.op(Op{At: e, K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
					if g.p(0.3) {
						g.op(Op{At: e + pick(g, 0, g.n(0, 30)), K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
					}
				}
			default:
				if p.Room != "" {
					g.stop(e, sid)
				} else {
					g.op(Op{At: e, K: "endtrack", Pub: j, S: pick(g, "", "video", "audio")})
				}
			}
		}
		if g.p(0.3) {
			g.stop(end+g.n(0, 3000), pick(g, sid, "nobody", ""))
		}
		if g.p(0.2) {
			g.stop(at+g.n(-100, 10), sid)
		}
	}
	g.lostReplies()
	g.end(4500)
}

// genSlowEnd: the disk is slow when the recording ends.
func genSlowEnd(g *gen) {
	genEnds(g)
	g.sc.Faults = append(g.sc.Faults, &simrt.FSFault{Path: ".webm", Op: pick(g, "write", "write", "close", "any"), After: g.n(0, 60), Count: g.n(1, 8), Err: "SLOW", Ms: g.n(1, 60)})
}

// ---- C04 ----

func (g *gen) rawMsg(pub int) string {
	str := func() string {
		return pick(g, `""`, `"raw1"`, `1`, `-1`, `1e400`, `null`, `true`, `[]`, `{}`, `{"a":[1,2]}`, `"raw\u0000"`, `"rawÿ"`, `"raw`+fmt.Sprint(g.r.U64())+`"`)
	}
	id := func() string {
		return pick(g, `"startRecording"`, `"stopRecording"`, `"getRecorderStatus"`, `"startrecording"`, `"recorderStatus"`, `"startRecordingResponse"`, `"recordingStopped"`, `"recordingRtpStatusChanged"`, `"stopRecordingResponse"`, `"getRecordings"`, `"x"`, `""`, `null`, `7`, `{}`, `[]`)
	}
	switch g.r.Intn(16) {
	case 0:
		return pick(g, "", " ", "null", "true", "0", `""`, "[]", "{}", "[{}]", "\x00", "\xff\xfe\xfd", "{", `{"id"`, `{"id":`, "}", "hello", `{"id":"startRecording"`, `{"id":"startRecording"}}`)
	case 1:
		return `{"id":` + id() + `}`
	case 2:
		return `{"id":"startRecording","recordingSessionId":` + str() + `,"fileName":` + str() + `,"sdp":` + str() + `}`
	case 3:
		return `{"id":"stopRecording","recordingSessionId":` + str() + `}`
	case 4:
		return `{"id":"startRecording","recordingSessionId":"raw` + fmt.Sprint(g.n(1, 3)) + `","fileName":"raw.webm","adapter":` + str() + `,"adapterOptions":` + str() + `}`
	case 5:
		return `{"id":"startRecording","recordingSessionId":"raw2","fileName":"raw.webm","adapter":"mediasoup","adapterOptions":{"mediasoup":` + pick(g, str(), `{"sdp":`+str()+`}`, `{"SDP":"x"}`) + `}}`
	case 6:
		return `{"id":"startRecording","recordingSessionId":"raw3","fileName":"raw.webm","adapter":"livekit","adapterOptions":{"livekit":` + pick(g, str(), `{"room":`+str()+`}`, `{"room":"x","trackIds":`+str()+`}`, `{"room":"x","trackIds":[]}`, `{"room":"","trackIds":["a"]}`, `{"room":"nosuch","trackIds":["a",""]}`) + `}}`
	case 7:
		return `{"id":"startRecording","fileName":"raw.webm"}`
	case 8:
		return `{"id":"getRecorderStatus","x":` + str() + `}`
	case 9:
		// deep nesting
		n := g.n(10, 2000)
		b := make([]byte, 0, 2*n)
		for i := 0; i < n; i++ {
			b = append(b, '[')
		}
		for i := 0; i < n; i++ {
			b = append(b, ']')
		}
		return pick(g, string(b), `{"id":`+string(b)+`}`, `{"id":"startRecording","adapterOptions":`+string(b)+`}`)
	case 10:
		return `{"id":"startRecordingResponse","recordingSessionId":` + str() + `,"status":` + str() + `,"sdp":` + str() + `}`
	case 11:
		return `{"id":` + id() + `,"recordingSessionId":` + str() + `,"timestampUTC":` + str() + `,"timestampHR":` + str() + `,"filename":` + str() + `}`
	case 12:
		n := g.n(1000, 60000)
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a'
		}
		return `{"id":"startRecording","recordingSessionId":"raw4","fileName":"` + string(b) + `","sdp":"x"}`
	case 13:
		return `[{"id":"startRecording"},{"id":"stopRecording"}]`
	case 14:
		b := make([]byte, g.n(1, 60))
		for i := range b {
			b[i] = byte(g.r.U64())
		}
		return string(b)
	default:
		return `{"id":"startRecording","id":` + id() + `,"recordingSessionId":"raw5","recordingSessionId":` + str() + `,"fileName":"x.webm","adapterOptions":null,"sdp":null}`
	}
}

func genRaw(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.HTTP = g.p(0.2)
	d := g.n(1500, 4000)
	g.session(g.n(180, 300), d, "")
	t := g.n(200, 600)
	for i := g.n(3, 14); i > 0; i-- {
		switch x := g.r.Intn(10); {
		case x < 6:
			k := "raw"
			if g.p(0.15) {
				k = "other"
			}
			g.op(Op{At: t, K: k, S: g.rawMsg(0)})
		case x < 8:
			g.badStart(t, g.sid())
		case x < 9:
			g.stop(t, pick(g, "", "nobody", "raw1"))
		default:
			g.op(Op{At: t, K: "status"})
		}
		t += pick(g, 0, g.n(0, 20), g.n(50, 500))
	}
	if t < d {
		t = d
	}
	g.probe(t + 800)
	g.end(4000)
}

// ---- C05 ----

func (g *gen) badMedia(s *Stream) {
	n := s.pkts()
	rate := pick(g, 0.01, 0.05, 0.3)
	only := -1
	if g.p(0.3) {
		only = g.r.Intn(16)
	}
	for i := 0; i < n; i++ {
		if g.p(rate) {
			v := g.r.Intn(16)
			if only >= 0 {
				v = only
			}
			s.fate(i, "bad", v)
		}
	}
	if g.p(0.3) {
		for i := g.n(1, 4); i > 0; i-- {
			s.TSJumps = append(s.TSJumps, [2]int{g.n(1, 60), pick(g, 500, -500, 60000, 3600000, -3600000, 47721858, 23860929, 1, -1)})
		}
	}
	if g.p(0.25) {
		for i := g.n(1, 3); i > 0; i-- {
			s.fate(g.r.Intn(n), "seqjump", pick(g, 1, 50, 600, 3000, 20000, 32767, 32768, 40000, 60000))
		}
	}
}

func genHostile(g *gen) {
	g.cfgBasics()
	d := g.n(2000, 5000)
	g.session(g.n(180, 500), d, "") // a clean one beside it
	p := g.pub("", d)
	if g.p(0.25) {
		g.livekit(p)
	}
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s == nil {
			continue
		}
		if g.p(0.4) {
			g.network(s)
		}
		g.badMedia(s)
		if g.p(0.1) {
			s.PT = pick(g, 97, 0, 127, 8)
		}
	}
	j := g.add(p)
	sid := g.sid()
	at := g.n(180, 500)
	g.start(at, sid, j, g.file())
	if g.p(0.6) {
		for i := g.n(1, 25); i > 0; i-- {
			k := pick(g, "video", "audio")
			if p.Video == nil {
				k = "audio"
			} else if p.Audio == nil {
				k = "video"
			}
			g.op(Op{At: at + g.n(200, d), K: "inject", Pub: j, S: k, N: g.r.Intn(8)})
		}
	}
	g.stop(at+d+g.n(0, 400), sid)
	if g.p(0.5) {
		g.probe(at + d + 800)
	}
	g.end(4500)
}

// ---- C06 ----

func genDisk(g *gen) {
	g.cfgBasics()
	d := g.n(1500, 5000)
	g.session(g.n(180, 500), d, "")
	p := g.pub("", d)
	if g.p(0.2) {
		g.livekit(p)
	}
	j := g.add(p)
	sid := g.sid()
	at := g.n(180, 600)
	f := pick(g, "", "bad/") + "faulty.webm"
	g.start(at, sid, j, f)
	only := ""
	if g.p(0.15) {
		// only the copy is hit
		g.sc.Cfg.IVF = true
		only = ".ivf"
	}
	if only == "" && g.p(0.15) {
		// it can't be opened for some time
		g.sc.Cfg.IVF = false
		d += g.n(1000, 4000)
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil {
				s.StopMs += 5000
			}
		}
		g.sc.Faults = append(g.sc.Faults, &simrt.FSFault{Path: "faulty", Op: "open", Err: pick(g, "ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS"), Count: g.n(1, 4)})
	}
	for k := g.n(0, 2); k > 0 || len(g.sc.Faults) == 0; k-- {
		op := pick(g, "open", "write", "write", "write", "seek", "close", "mkdir", "stat", "any")
		if only != "" {
			op = pick(g, "open", "write", "write", "seek", "close", "any")
		}
		ft := &simrt.FSFault{Path: "faulty" + only, Op: op, Err: pick(g, "ENOSPC", "EIO", "EIO", "EACCES", "EMFILE", "EROFS")}
		if op == "mkdir" {
			ft.Path = "bad"
		}
		if op == "write" {
			ft.After = pick(g, 0, 1, 2, g.n(0, 10), g.n(0, 100))
			if g.p(0.3) {
				ft.Err = "SHORT"
			}
		}
		if op == "any" {
			ft.After = g.n(0, 60)
		}
		ft.Count = pick(g, 0, 0, 1, g.n(1, 10))
		if g.p(0.15) {
			ft.Err = "SLOW"
			ft.Ms = g.n(1, 100)
			ft.Count = g.n(1, 8)
		}
		g.sc.Faults = append(g.sc.Faults, ft)
	}
	e := at + d + g.n(0, 500)
	if g.p(0.2) {
		if p.Room != "" {
			g.op(Op{At: e, K: "kick", Pub: j})
		} else {
			g.op(Op{At: e, K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
		}
	}
	g.stop(e, sid)
	// the id is reusable
	if g.p(0.7) {
		t := e + 2800
		i := g.add(g.pub("", g.n(500, 1200)))
		g.start(t, sid, i, g.file())
		g.stop(t+g.n(600, 1600), sid)
	}
	if g.sc.Cfg.Prom = g.p(0.3); g.sc.Cfg.Prom {
		g.op(Op{At: g.last() + 4500, K: "get", S: "/metrics"})
	}
	g.end(4500)
}

// ---- C07 ----

var hostileNames = []string{"../x.webm", "../../x.webm", "a/../../x.webm", "/etc/x.webm", "/var/lib/rec/x.webm", "/var/lib/outside/keep.webm", "../outside/keep.webm", "../rec2/y.webm", "a/./b.webm", "a//b.webm", "./c.webm",
	"..webm", ".webm", "../.webm", "..", ".", "", "/", "a/", "a/.webm", "x.WEBM", "x.webm/", "x.webm/..", "dir/../ok.webm", "a/b/c/d/e.webm", "..\\x.webm", "....//x.webm", "a/.../b.webm", "rec/../../rec/x.webm", "../rec/x.webm", "../recording/x.webm",
	"../rec-evil/x.webm", "../rec2/../rec/z.webm", "\x00.webm", "a\x00b.webm", "~/x.webm", "$HOME/x.webm", "%2e%2e/x.webm", "x.webm\n", "-.webm", "keep.webm"}

func genNames(g *gen) {
	g.cfgBasics()
	c := &g.sc.Cfg
	if g.p(0.15) {
		c.DevNull = true
	}
	if g.p(0.3) {
		c.FileMode = pick(g, "0600", "0640", "0660", "0644")
		c.DirMode = pick(g, "0700", "0750", "0770", "0755")
	}
	t := g.n(180, 400)
	var names []string
	var sids []string
	for i := g.n(2, 6); i > 0; i-- {
		sid := g.sid()
		p := g.pub("", g.n(300, 2500))
		if g.p(0.2) {
			g.livekit(p)
		}
		if g.p(0.2) {
			p.ConnMs = g.n(200, 2000)
		}
		var f string
		switch x := g.r.Intn(10); {
		case x < 4:
			f = hostileNames[g.r.Intn(len(hostileNames))]
		case x < 7 && len(names) > 0:
			f = names[g.r.Intn(len(names))]
			if g.p(0.3) {
				f = pick(g, "./"+f, "q/../"+f, f+"/../"+f, "//"+f)
			}
		default:
			f = g.file()
		}
		names = append(names, f)
		j := g.add(p)
		g.start(t, sid, j, f)
		sids = append(sids, sid)
		if g.p(0.3) {
			// the file appears now or a little later
			pt := t + pick(g, -50, -1, 0, 1, g.n(0, 100), g.n(0, 2000))
			g.op(Op{At: pt, K: "put", File: pathClean(c.dir() + "/" + f), S: "someone else's file"})
		}
		if g.p(0.1) {
			g.op(Op{At: t - 20, K: "put", File: ivfOf(pathClean(c.dir() + "/" + f)), S: "someone else's ivf"})
		}
		if g.p(0.35) {
			g.stop(t+pick(g, g.n(0, 10), g.n(300, 2500)), sid)
		}
		t += pick(g, 0, g.n(0, 5), g.n(20, 1500))
	}
	t += g.n(200, 2500)
	for _, s := range sids {
		g.stop(t, s)
	}
	if g.p(0.3) {
		// again, with a name used before
		j := g.add(g.pub("", 500))
		sid := g.sid()
		g.start(t+2500, sid, j, names[g.r.Intn(len(names))])
		g.stop(t+3200, sid)
	}
	g.end(3500)
}

// genSameFile: recordings with one file name, one after another and at the same time.
func genSameFile(g *gen) {
	g.cfgBasics()
	f := g.file()
	t := g.n(180, 400)
	for i := g.n(2, 4); i > 0; i-- {
		p := g.pub("", g.n(500, 2500))
		if g.p(0.3) {
			p.ConnMs = g.n(200, 1500)
		}
		j := g.add(p)
		sid := g.sid()
		f := f
		if g.p(0.35) {
			// another file of the same name
			f = pick(g, "other/", "other2/", "o/p/") + f[strings.LastIndexByte(f, 0x2f)+1:]
		}
		g.start(t, sid, j, f)
		e := t + pick(g, g.n(0, 300), g.n(500, 2500))
		g.stop(e, sid)
		t += pick(g, g.n(0, 3), g.n(0, 100), g.n(0, 3000))
	}
	g.end(3500)
}

// ---- media (C08, C09, C10, C11, C12, C23) ----

func genLossy(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "v", "av"), g.dur())
	g.network(p.Video)
	if p.Audio != nil && g.p(0.5) {
		g.network(p.Audio)
	}
	g.big(p.Video)
	g.one(p)
}

// one records one publisher.
func (g *gen) one(p *Pub) {
	j := g.add(p)
	sid := g.sid()
	at := g.n(180, 400)
	g.start(at, sid, j, g.file())
	d := p.durMs()
	g.stop(at+p.ConnMs+d+g.n(-200, 900), sid)
	g.end(3000)
}

func (p *Pub) durMs() int {
	d := 0
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s != nil && s.StopMs > d {
			d = s.StopMs
		}
	}
	return d
}

func genLKLossy(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "av"), g.dur())
	g.livekit(p)
	if g.p(0.2) {
		// a screen
		s := p.Video
		s.FrameMs = pick(g, 150, 300, 450, 1000)
		s.PktSz = pick(g, 0, 250, 250)
		s.StopMs = g.n(6000, 12000)
		if g.p(0.5) {
			// every other packet for a while
			s.PktSz = pick(g, 60, 100)
			s.MinSz, s.MaxSz = 70, 190
			n := s.pkts()
			for i := g.n(5, n); i < n && !g.p(0.1); i++ {
				if g.p(0.5) {
					s.fate(i, "drop", 99)
				}
			}
		}
	}
	if g.p(0.1) {
		// the first packets
		for i := g.n(1, 4); i > 0; i-- {
			p.Video.fate(i-1, "drop", 99)
		}
	}
	if g.p(0.7) {
		g.losses(p.Video, 0, p.Video.pkts())
	}
	if g.p(0.4) {
		g.reorder(p.Video, pick(g, 5, 40, 90, 300))
	}
	if g.p(0.2) {
		g.pads(p.Video)
	}
	if p.Audio != nil && g.p(0.5) {
		g.losses(p.Audio, 0, p.Audio.pkts())
	}
	g.one(p)
}

// genTinyLoss: losses at frame boundaries of small streams, where it is easy to get wrong.
func genTinyLoss(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "v", "av"), g.n(800, 3000))
	s := p.Video
	s.PktSz = pick(g, 60, 100, 0)
	s.MinSz = g.n(30, 60)
	s.MaxSz = s.MinSz + pick(g, 0, 60, 150, 300)
	s.FrameMs = pick(g, 10, 20, 33)
	s.KeyEvery = pick(g, 0, 0, 2, 3, 5, 10)
	n := s.pkts()
	if g.p(0.12) {
		// as many frames as there are picture IDs are lost at once
		s.PIDMode = 7
		s.PktSz = 0
		s.MinSz, s.MaxSz = 30, 60
		s.FrameMs = 10
		s.KeyEvery = pick(g, 0, 0, 50)
		s.StopMs = g.n(3000, 4500)
		for i, k := g.n(5, 120), 128+pick(g, 0, 0, 0, 128, -1, 1); k > 0; i, k = i+1, k-1 {
			s.fate(i, "drop", 99)
		}
		g.one(p)
		return
	}
	g.losses(s, g.r.Intn(3), n)
	if g.p(0.4) {
		g.pads(s)
	}
	if g.p(0.3) {
		g.reorder(s, pick(g, 3, 30, 150, 300))
	}
	if g.p(0.2) {
		g.dups(s)
	}
	g.one(p)
}

// genMalformed: single malformed packets, or frames that take too long, in streams
// where nothing else tells that something is missing.
func genMalformed(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "v", "av"), g.n(1500, 5000))
	s := p.Video
	s.PIDMode = pick(g, 0, 0, 0, 15, 7)
	s.PktSz = pick(g, 60, 100, 250, 0)
	s.MinSz = g.n(30, 200)
	s.MaxSz = s.MinSz + pick(g, 0, 100, 300)
	s.KeyEvery = pick(g, 0, 0, 0, 7, 40)
	s.PLIMs = pick(g, 0, 50, 400, 1500)
	n := s.pkts()
	for i := g.n(1, 3); i > 0; i-- {
		if g.p(0.35) {
			s.StopMs = 4000 + g.n(2000, 6000)
			s.fate(g.n(2, n), "freeze", g.n(1900, 4000))
		} else {
			s.fate(g.n(1, n), "bad", pick(g, 1, 5, 6, 7, 8, 10, 11, 12, 12, 15))
		}
	}
	if g.p(0.2) {
		g.losses(s, 1, n)
	}
	if g.p(0.2) {
		g.reorder(s, g.n(4, 60))
	}
	g.one(p)
}

// genLong: long recordings with few frames, long pauses and long waits.
func genLong(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "av", "av"), g.n(40000, 150000))
	if g.deep {
		p = g.pub(pick(g, "v", "av", "av"), g.n(60000, 400000))
	}
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s == nil {
			continue
		}
		clk := 48
		if s == p.Video {
			clk = 90
			s.FrameMs = pick(g, 100, 300, 500, 1000)
			s.MaxSz, s.PktSz = s.MinSz+g.n(0, 200), 0
			s.KeyEvery = 0
			if g.p(0.4) {
				s.KeyEvery = g.n(12000, 30000) / s.FrameMs
				s.PLIMs = pick(g, -1, -1, 100)
			}
		} else {
			s.FrameMs = pick(g, 20, 60, 60)
		}
		if g.p(0.6) {
			base := pick(g, int64(1)<<32, int64(1)<<32, int64(1)<<31)
			s.TS0 = uint32(base - int64(g.n(0, s.StopMs))*int64(clk) - int64(g.r.Intn(90)))
		}
		if g.p(0.6) {
			for t := g.n(2000, 30000); t < s.StopMs-5000; t += g.n(3000, 40000) {
				l := pick(g, g.n(1000, 9000), g.n(9000, 40000))
				s.Pauses = append(s.Pauses, [2]int{t, t + l})
				t += l
			}
		}
		for i := g.n(0, 5); i > 0; i-- {
			s.fate(g.n(1, s.pkts()), "drop", 99)
		}
		if g.p(0.2) {
			s.fate(g.n(1, s.pkts()), "freeze", g.n(100, 4000))
		}
		if g.p(0.2) {
			s.StartMs = g.n(300, 9000)
		}
	}
	if g.p(0.1) {
		g.livekit(p)
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil {
				s.Fates = nil
			}
		}
	}
	g.one(p)
	for i := g.n(0, 2); i > 0; i-- {
		g.op(Op{At: g.n(100, g.last()), K: "wall", Ms: pick(g, -3600000, -5000, 5000, 3600000)})
	}
}

// genNoVideo: the video of a recording never comes, or late.
func genNoVideo(g *gen) {
	g.cfgBasics()
	p := g.pub("av", g.n(13000, 24000))
	v := p.Video
	switch g.r.Intn(4) {
	case 0: // nothing at all
		v.StartMs = v.StopMs + 100000
	case 1: // late
		v.StartMs = g.n(6000, 14000)
	case 2: // never a key frame
		v.FirstKey, v.KeyEvery, v.PLIMs = 1<<20, 0, -1
	default: // the key frame comes late
		v.FirstKey, v.KeyEvery, v.PLIMs = g.n(6000, 14000)/v.FrameMs, 0, -1
	}
	a := p.Audio
	if g.p(0.5) {
		g.deliverAll(a)
	} else {
		g.losses(a, 0, a.pkts())
	}
	if g.p(0.3) {
		t := g.n(500, 9000)
		a.Pauses = append(a.Pauses, [2]int{t, t + g.n(500, 6000)})
	}
	if g.p(0.3) {
		a.StartMs = g.n(300, 3000)
	}
	if g.p(0.15) {
		g.livekit(p)
		a.Fates = nil
	}
	g.one(p)
}

// genBlackout: nothing arrives for long, up to several times the size of any buffer.
func genBlackout(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "v", "av"), g.n(4000, 8000))
	s := p.Video
	s.FrameMs = pick(g, 5, 10, 20)
	s.MinSz, s.MaxSz, s.PktSz = g.n(30, 60), 0, pick(g, 0, 60, 30)
	s.KeyEvery = pick(g, 0, 0, 10, 50)
	s.RTX = g.p(0.3)
	n := s.pkts()
	if s.PktSz == 30 {
		n *= 2
	}
	l := pick(g, g.n(60, 500), g.n(500, 1100), g.n(1000, 3000))
	a := g.n(5, 60)
	if a+l > n-200 {
		s.StopMs += (a + l + 200 - n) * s.FrameMs
	}
	for i := a; i < a+l; i++ {
		s.fate(i, "drop", 99)
	}
	if g.p(0.6) {
		// the sequence numbers wrap around meanwhile, or close to that
		s.Seq0 = uint16(65536 - (a + g.n(-3, l+3)))
	}
	if g.p(0.2) {
		g.losses(s, a+l, a+l+60)
	}
	if g.p(0.2) {
		g.pads(s)
	}
	g.one(p)
}

// genSync: audio and video start, pause and get lost at different times.
func genSync(g *gen) {
	g.cfgBasics()
	p := g.pub("av", g.n(3000, 9000))
	if g.p(0.15) {
		p = g.pub("av", g.n(14000, 20000))
	}
	for _, s := range []*Stream{p.Video, p.Audio} {
		if g.p(0.4) {
			s.StartMs = pick(g, g.n(0, 1000), g.n(500, 4000), s.StopMs/2)
		}
		if g.p(0.5) {
			// silence around the start of the other
			o := p.Audio
			if s == p.Audio {
				o = p.Video
			}
			t := s.StartMs + g.n(50, 1500)
			if g.p(0.6) {
				t = o.StartMs - g.n(0, 1500)
			}
			if t > s.StartMs {
				s.Pauses = append(s.Pauses, [2]int{t, t + g.n(300, 4000)})
			}
		}
		if g.p(0.1) {
			// a long one in the middle of it
			t := s.StartMs + g.n(500, 2500)
			d := g.n(4000, 25000)
			s.Pauses = append(s.Pauses, [2]int{t, t + d})
			for _, o := range []*Stream{p.Video, p.Audio} {
				o.StopMs = max(o.StopMs, t+d+g.n(1000, 2500))
			}
		}
		if g.p(0.2) {
			g.network(s)
		} else if g.p(0.3) {
			g.deliverAll(s)
		}
	}
	if g.p(0.3) {
		p.Video.FirstKey = g.n(1, 2500/p.Video.FrameMs)
		if g.p(0.5) {
			p.Video.PLIMs = -1
		}
	}
	if g.p(0.1) {
		g.livekit(p)
		p.Video.Fates, p.Audio.Fates = nil, nil
	}
	g.one(p)
}

func genPauses(g *gen) {
	g.cfgBasics()
	p := g.pub("", g.n(4000, 9000))
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s != nil {
			g.pauses(s)
			if g.p(0.4) {
				g.network(s)
			}
		}
	}
	g.one(p)
}

func (g *gen) pauses(s *Stream) {
	t := g.n(300, 2500)
	for t < s.StopMs-300 {
		l := pick(g, g.n(200, 1200), g.n(1000, 3000))
		s.Pauses = append(s.Pauses, [2]int{t, t + l})
		t += l + g.n(300, 3000)
	}
}

func genDelivered(g *gen) {
	g.cfgBasics()
	if g.p(0.15) {
		// two recordings at a time
		g.session(g.n(180, 900), g.n(1000, 3000), "")
	}
	p := g.pub(pick(g, "v", "av", "av"), g.dur())
	g.big(p.Video)
	if g.p(0.15) {
		g.livekit(p)
		if p.Video != nil && g.p(0.5) {
			g.reorder(p.Video, g.n(4, 80))
		}
		if p.Video != nil && p.Video.PIDMode != 0 && g.p(0.3) {
			g.pads(p.Video)
		}
		if p.Video != nil && g.p(0.3) {
			g.dups(p.Video)
		}
	} else {
		for _, s := range []*Stream{p.Video, p.Audio} {
			g.deliverAll(s)
		}
	}
	if g.p(0.2) {
		p.Video.Pauses = append(p.Video.Pauses, [2]int{1000, g.n(1300, 2500)})
	}
	g.one(p)
}

// genRecover: a period of loss, then a clean one.
func genRecover(g *gen) {
	g.cfgBasics()
	d := g.n(6000, 9000)
	p := g.pub(pick(g, "v", "av"), d)
	if g.p(0.15) {
		g.livekit(p)
	}
	s := p.Video
	g.big(s)
	s.RTX = g.p(0.4)
	n := s.pkts()
	g.losses(s, 0, n/3)
	if p.Room == "" {
		if g.p(0.3) {
			g.pads(s)
		}
		if g.p(0.3) {
			g.reorder(s, pick(g, 10, 100, 400))
		}
		if g.p(0.15) {
			s.fate(g.n(1, n/3), "seqjump", pick(g, 20, 300, 700, 3000))
		}
	}
	if g.p(0.3) {
		a := g.n(500, 2500)
		s.Pauses = append(s.Pauses, [2]int{a, a + g.n(300, 2000)})
	}
	if g.p(0.3) {
		// a blackout: everything of a time range is lost
		a := g.n(5, n/4)
		for i := a; i < a+n/5; i++ {
			s.fate(i, "drop", 99)
		}
	}
	g.one(p)
}

func genClock(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "v", "av", "a"), g.dur())
	for i, s := range []*Stream{p.Video, p.Audio} {
		if s == nil {
			continue
		}
		clk := 90
		if i == 1 {
			clk = 48
		}
		if g.p(0.6) {
			// the timestamp wraps (or passes its middle) during the recording
			base := pick(g, int64(1)<<32, int64(1)<<32, int64(1)<<31)
			s.TS0 = uint32(base - int64(g.n(0, s.StopMs))*int64(clk) - int64(g.r.Intn(90)))
		}
		if g.p(0.4) {
			g.network(s)
		}
		if g.p(0.3) {
			g.pauses(s)
		}
		if g.p(0.3) {
			s.TSJumps = append(s.TSJumps, [2]int{g.n(2, 40), pick(g, 100, 1000, 5000, 20000, 29000)})
		}
	}
	if g.p(0.15) {
		g.livekit(p)
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil {
				var keep []Fate
				for _, f := range s.Fates {
					if f.K == "drop" {
						keep = append(keep, f)
					}
				}
				s.Fates = keep
			}
		}
	}
	g.one(p)
	for i := g.n(0, 3); i > 0; i-- {
		g.op(Op{At: g.n(100, g.last()), K: "wall", Ms: pick(g, -3600000, -5000, -100, 100, 5000, 3600000, 86400000)})
	}
}

func genAudio(g *gen) {
	g.cfgBasics()
	p := g.pub(pick(g, "a", "a", "av"), g.dur())
	mode := g.r.Intn(3)
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s == nil {
			continue
		}
		switch mode {
		case 0:
			g.deliverAll(s)
		case 1:
			g.network(s)
		}
	}
	if mode == 2 && g.p(0.5) {
		g.deliverAll(p.Audio)
	}
	if g.p(0.2) {
		g.pauses(p.Audio)
	}
	if p.Video != nil && g.p(0.35) {
		// one track falls behind the other and catches up
		g.freeze(pick(g, p.Audio, p.Video))
	}
	if g.p(0.15) {
		g.livekit(p)
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil {
				s.Fates = nil
			}
		}
	}
	g.one(p)
}

// ---- C13 ----

func genNack(g *gen) {
	g.cfgBasics()
	p := g.pub("", g.n(3000, 8000))
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s == nil {
			continue
		}
		s.RTX = g.p(0.6)
		if g.p(0.8) {
			g.losses(s, 1, s.pkts())
		}
		if g.p(0.4) {
			g.reorder(s, pick(g, 5, 40, 120))
		}
		if g.p(0.2) {
			g.dups(s)
		}
	}
	if p.Video != nil && g.p(0.4) {
		p.Video.PLIMs = pick(g, -1, 500, 1500)
	}
	if p.Video != nil && g.p(0.2) {
		p.Video.FirstKey = g.n(20, 90)
	}
	if g.p(0.1) && p.Video != nil {
		g.livekit(p)
		p.Video.Fates = nil
	}
	g.one(p)
}

// genCycle: a stream long enough for its sequence numbers to come round, and
// what happened to some of them happens to them again.
func genCycle(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.JB, g.sc.Cfg.VQ = 0, 0
	p := g.pub("v", 1000)
	s := p.Video
	s.FrameMs = pick(g, 20, 33)
	s.StartMs, s.FirstKey = g.n(0, 50), 0
	s.MinSz, s.MaxSz, s.PktSz = 0, 0, 30
	s.KeySz, s.Parts, s.PadBits, s.Scale = 0, false, false, 0
	s.MinSz = 30 * g.n(55, 65)
	s.MaxSz = s.MinSz + 60
	s.KeyEvery = pick(g, 10, 30)
	per := (s.MinSz + 29) / 30
	s.StopMs = (65536/per+g.n(60, 200))*s.FrameMs + s.StartMs
	n := s.pkts()
	s.RTX = true
	for i := g.n(3, 30); i > 0; i-- {
		at, l := g.n(1, n-65536), pick(g, 1, 1, 2, 5)
		k, x := "drop", pick(g, 1, 1, 2)
		if g.p(0.3) {
			k, x = "delay", g.n(5, 60)
		}
		for j := at; j < at+l; j++ {
			if k == "drop" && g.p(0.2) {
				s.fate(j, k, 99)
			} else {
				s.fate(j, k, x)
			}
			s.fate(j+65536, k, x)
		}
	}
	if g.p(0.3) {
		b := g.n(1, n-65536)
		for j := b; j < b+g.n(5, 40); j++ {
			s.fate(j, "drop", 99)
		}
	}
	g.one(p)
}

// ---- C14 ----

func genLatency(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.Builtin = false
	p := g.pub("v", g.n(2000, 6000))
	s := p.Video
	s.KeyEvery, s.FirstKey = 1, 0
	s.MinSz, s.MaxSz, s.PktSz = g.n(30, 60), 0, 1000
	s.FrameMs = pick(g, 5, 10, 20, 40)
	s.Parts, s.PadBits = false, g.p(0.1)
	n := s.pkts()
	s.RTX = g.p(0.3)
	if g.p(0.85) {
		g.losses(s, 1, n)
	}
	if g.p(0.5) {
		g.reorder(s, pick(g, 5, 40, 100, 300))
	}
	if g.p(0.3) {
		g.dups(s)
	}
	if g.p(0.2) {
		g.pads(s)
	}
	g.one(p)
}

// ---- C15 ----

func genFlow(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.JBT = pick(g, 0, 100, 200, 300)
	for k := g.n(1, 2); k > 0; k-- {
		p := g.pub("", g.n(5000, 14000))
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s == nil {
				continue
			}
			if g.p(0.8) {
				t := g.n(300, 4000)
				for t < s.StopMs-300 {
					l := pick(g, g.n(200, 1200), g.n(900, 1100), g.n(1500, 5000))
					s.Pauses = append(s.Pauses, [2]int{t, t + l})
					t += l + pick(g, g.n(50, 1200), g.n(1500, 5000))
				}
			}
			if g.p(0.15) {
				s.StartMs = g.n(500, 3500)
			}
			if g.p(0.15) {
				g.network(s)
			}
		}
		if g.p(0.2) {
			g.livekit(p)
			for _, s := range []*Stream{p.Video, p.Audio} {
				if s != nil {
					s.Fates = nil
				}
			}
		}
		j := g.add(p)
		sid := g.sid()
		at := g.n(180, 600)
		g.start(at, sid, j, g.file())
		g.stop(at+p.durMs()+pick(g, g.n(0, 500), g.n(2000, 5000)), sid)
	}
	if g.p(0.15) {
		g.op(Op{At: g.n(500, 5000), K: "wall", Ms: pick(g, -3600000, -2000, 2000, 3600000)})
	}
	g.lostReplies()
	g.end(3000)
}

// ---- C16 ----

func genKill(g *gen) {
	g.cfgBasics()
	for k := g.n(1, 2); k > 0; k-- {
		p := g.pub("", g.n(2000, 6000))
		if g.p(0.1) {
			g.livekit(p)
		}
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil && g.p(0.3) && p.Room == "" {
				g.network(s)
			}
		}
		j := g.add(p)
		sid := g.sid()
		at := g.n(180, 600)
		f := g.file()
		g.start(at, sid, j, f)
		if g.p(0.3) {
			g.stop(at+g.n(500, 5000), sid)
		}
		// after the restart, the same file name once more
		if g.p(0.6) {
			i := g.add(g.pub("", g.n(500, 1500)))
			g.start(9000+g.n(0, 500), sid, i, f)
			g.stop(11500, sid)
		}
	}
	if g.p(0.5) {
		g.op(Op{At: g.n(500, 7000), K: "kill", Ms: g.n(50, 1000)})
	} else {
		g.sc.KillWrite = pick(g, g.n(1, 12), g.n(1, 150), g.n(20, 400))
		g.sc.Torn = pick(g, 0, 100, g.n(0, 100))
	}
	if g.p(0.15) {
		g.op(Op{At: g.n(7200, 9500), K: "kill", Ms: g.n(50, 500)})
	}
	if g.last() < 9000 {
		g.probe(9000)
	}
	g.end(3000)
}

// genWatch: a long recording, so that whatever is on disk is there for long.
func genWatch(g *gen) {
	g.cfgBasics()
	p := g.pub("", g.n(4000, 9000))
	for _, s := range []*Stream{p.Video, p.Audio} {
		if s != nil && g.p(0.5) {
			g.network(s)
		}
	}
	g.one(p)
	g.op(Op{At: g.last() - g.n(0, 1500), K: "kill", Ms: 100})
}

// ---- C17, C18 ----

// lostReplies: messages arrive, but the recorder isn't told so.
func (g *gen) lostReplies() {
	if !g.p(0.08) {
		return
	}
	t := 100
	if n := len(g.sc.Ops); n > 0 {
		t = g.last()
	}
	for i := g.n(1, 3); i > 0; i-- {
		g.op(Op{At: g.n(100, t), K: "broker", S: "lostreply", N: g.n(1, 2)})
	}
}

func (g *gen) outages(from, to, n int) {
	for ; n > 0; n-- {
		k := pick(g, "reset", "reset", "close", "refuse", "refuse", "subreset", "stall", "busy", "full", "lostreply")
		o := Op{At: g.n(from, to), K: "broker", S: k, N: g.n(1, 2)}
		switch k {
		case "refuse":
			o.Ms = pick(g, g.n(1, 200), g.n(200, 4000), g.n(2000, 12000))
		case "stall", "busy", "full":
			o.Ms = pick(g, g.n(1, 300), g.n(200, 4000))
		}
		g.op(o)
		if k == "full" && g.p(0.6) {
			g.op(Op{At: o.At + g.n(0, o.Ms), K: "broker", S: pick(g, "reset", "subreset")})
		}
	}
}

func genStatus(g *gen) {
	g.cfgBasics()
	t := g.n(150, 400)
	for i := g.n(1, 6); i > 0; i-- {
		g.op(Op{At: t, K: "status"})
		t += pick(g, 0, 0, g.n(0, 10), g.n(50, 1500))
	}
	if g.p(0.4) {
		g.session(g.n(180, 500), g.n(800, 2000), "")
	}
	if g.p(0.5) {
		g.outages(500, t+500, g.n(1, 3))
		t = g.last() + 12000
		for _, o := range g.sc.Ops {
			if o.K == "broker" && o.At+o.Ms+12000 > t {
				t = o.At + o.Ms + 12000
			}
		}
		for i := g.n(1, 3); i > 0; i-- {
			g.op(Op{At: t, K: "status"})
			t += g.n(0, 600)
		}
	}
	if g.p(0.2) {
		g.op(Op{At: g.n(400, t), K: "kill", Ms: g.n(50, 800)})
	}
	if g.p(0.15) {
		g.op(Op{At: g.n(200, t), K: "hup", S: "same"})
	}
	g.lostReplies()
	g.end(5000)
}

func genOutage(g *gen) {
	g.cfgBasics()
	d := g.n(3000, 7000)
	p := g.pub("", d)
	j := g.add(p)
	sid := g.sid()
	at := g.n(180, 400)
	g.start(at, sid, j, g.file())
	n := g.n(1, 4)
	g.outages(g.n(100, 300), at+d, n)
	end := 0
	for _, o := range g.sc.Ops {
		if o.K == "broker" && o.At+o.Ms > end {
			end = o.At + o.Ms
		}
	}
	// requests around and during the outages
	for i := g.n(0, 4); i > 0; i-- {
		t := g.n(300, end+500)
		switch g.r.Intn(3) {
		case 0:
			g.op(Op{At: t, K: "status"})
		case 1:
			i := g.add(g.pub("", 1000))
			g.start(t, g.sid(), i, g.file())
		default:
			g.stop(t, pick(g, "nobody", sid))
		}
	}
	t := end + 9000
	if at+d > t {
		t = at + d
	}
	g.op(Op{At: t, K: "status"})
	g.stop(t+20, sid)
	g.probe(t + 1500)
	g.end(4500)
}

// genHang: the broker vanishes without a trace; noticing that takes minutes.
func genHang(g *gen) {
	g.cfgBasics()
	d := g.n(1500, 4000)
	g.session(g.n(180, 400), d, "a")
	at := g.n(500, 3000)
	k := pick(g, "vanish", "hang", "stall")
	o := Op{At: at, K: "broker", S: k, Ms: g.n(1000, 90000)}
	if k == "vanish" {
		o.Ms = 0
	}
	g.op(o)
	t := at + o.Ms + 170000
	g.op(Op{At: t, K: "status"})
	g.probe(t + 500)
	g.end(4500)
}

// ---- C19, C20 ----

func genMany(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.Prom = true
	if g.p(0.2) {
		g.sc.Cfg.HTTP = true
	}
	n := g.n(2, 6)
	if g.deep {
		n = g.n(4, 12)
	}
	t := g.n(180, 400)
	type live struct {
		sid string
		j   int
	}
	var ls []live
	for i := 0; i < n; i++ {
		switch x := g.r.Intn(10); {
		case x < 3:
			sid := g.sid()
			if len(ls) > 0 && g.p(0.3) {
				sid = ls[g.r.Intn(len(ls))].sid
			}
			g.badStart(t, sid)
		case x < 4 && g.sc.Cfg.HTTP:
			j := g.add(g.pub("", g.n(300, 1500)))
			o := g.op(Op{At: t, K: "http", Pub: j})
			if g.p(0.3) {
				o.SDP = g.badSDP()
			}
			g.op(Op{At: t + g.n(2000, 4000), K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
		default:
			sid := g.sid()
			p := g.pub("", g.n(300, 3000))
			if g.p(0.25) {
				g.livekit(p)
			}
			if g.p(0.1) {
				p.NoConn = true
			}
			for _, s := range []*Stream{p.Video, p.Audio} {
				if s != nil && g.p(0.2) {
					g.network(s)
				}
			}
			j := g.add(p)
			g.start(t, sid, j, g.file())
			ls = append(ls, live{sid, j})
			if g.p(0.15) {
				g.sc.Faults = append(g.sc.Faults, &simrt.FSFault{Path: fmt.Sprintf("r%d.", g.nsid), Op: pick(g, "open", "write", "close", "seek"), After: g.n(0, 8), Err: pick(g, "EIO", "ENOSPC")})
			}
		}
		if g.p(0.4) && len(ls) > 0 {
			k := g.r.Intn(len(ls))
			g.endOne(t+pick(g, 0, g.n(0, 10), g.n(100, 2000)), ls[k].sid, ls[k].j)
		}
		t += pick(g, 0, g.n(0, 5), g.n(100, 800))
		if g.p(0.3) {
			t += 4500
			g.op(Op{At: t, K: "get", S: "/metrics"})
			t += 10
		}
	}
	t += g.n(200, 2500)
	for _, l := range ls {
		g.endOne(t+g.n(0, 100), l.sid, l.j)
		if g.p(0.3) {
			g.endOne(t+g.n(0, 100), l.sid, l.j)
		}
	}
	t = g.last()
	for _, l := range ls {
		g.stop(t+300, l.sid)
	}
	if g.p(0.25) {
		g.outages(400, t, 1)
		for _, o := range g.sc.Ops {
			if o.K == "broker" && o.At+o.Ms > t {
				t = o.At + o.Ms
			}
		}
		t += 10000
		for _, l := range ls {
			g.stop(t, l.sid)
		}
	}
	g.op(Op{At: g.last() + 5500, K: "get", S: "/metrics"})
	g.lostReplies()
	g.end(5000)
	if g.p(0.3) && g.sc.Faults == nil {
		for i := 0; i < 2; i++ {
			g.sc.Ops = append(g.sc.Ops, &Op{At: g.n(300, 3000), K: "wall", Ms: pick(g, -5000, 5000)})
		}
	}
}

func (g *gen) endOne(t int, sid string, j int) {
	p := g.sc.Pubs[j]
	switch x := g.r.Intn(10); {
	case x < 5:
		g.stop(t, sid)
	case p.Room != "":
		g.op(Op{At: t, K: "kick", Pub: j})
	case x < 8:
		g.op(Op{At: t, K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
	default:
		g.op(Op{At: t, K: "endtrack", Pub: j, S: pick(g, "", "video", "audio")})
	}
}

// ---- C21 ----

func genHTTP(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.HTTP = true
	t := g.n(180, 400)
	n := g.n(2, 7)
	for i := 0; i < n; i++ {
		p := g.pub("", g.n(200, 1000))
		if g.p(0.3) {
			p.GatherMs = g.n(10, 500)
		}
		if g.p(0.05) {
			p.GatherMs = g.n(1000, 9000)
		}
		if g.p(0.1) {
			p.PCErr = pick(g, "new", "setlocal")
		}
		j := g.add(p)
		o := g.op(Op{At: t, K: "http", Pub: j})
		if g.p(0.25) {
			for o.SDP = g.badSDP(); o.SDP == "noopts"; {
				o.SDP = g.badSDP()
			}
		}
		if g.p(0.1) {
			o.S, o.SDP = pick(g, "GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS"), ""
		} else if g.p(0.05) {
			o.SDP = "none"
		}
		if g.p(0.15) {
			// the caller hangs up
			o.Ms = pick(g, g.n(1, 10), 1+p.GatherMs+g.n(0, 6), g.n(1, 100))
		}
		if g.p(0.3) {
			g.op(Op{At: t + g.n(0, 50), K: "other", S: g.otherMsg()})
		}
		if g.p(0.2) {
			g.op(Op{At: t + g.n(0, 20), K: "raw", S: g.rawMsg(0)})
		}
		if g.p(0.15) {
			g.op(Op{At: t + g.n(0, 50), K: "get", S: pick(g, "/", "/index.html", "/sdp", "/nosuch")})
		}
		if g.p(0.2) {
			i := g.add(g.pub("", 500))
			sid := g.sid()
			g.start(t+g.n(0, 20), sid, i, g.file())
			g.stop(t+g.n(400, 900), sid)
		}
		t += pick(g, 0, 0, g.n(0, 10), g.n(100, 1500))
	}
	if g.p(0.15) {
		g.outages(300, t, 1)
		if g.p(0.7) {
			// a request whose answer was lost is still waiting for it
			g.op(Op{At: t + g.n(7000, 20000), K: "http", Pub: g.add(g.pub("", 500))})
		}
	}
	for j := range g.sc.Pubs {
		if g.p(0.7) {
			g.op(Op{At: t + g.n(1500, 3000), K: "ice", Pub: j, N: pick(g, 5, 6, 7)})
		}
	}
	end := g.last()
	for _, o := range g.sc.Ops {
		if o.At+o.Ms > end {
			end = o.At + o.Ms
		}
	}
	g.end(end - g.last() + pick(g, 6000, 48000))
}

func (g *gen) otherMsg() string {
	return pick(g, `{"id":"startRecordingResponse","recordingSessionId":"zz","status":"ok","sdp":"bm9wZQ=="}`,
		`{"id":"startRecordingResponse","recordingSessionId":"","status":"ok","sdp":""}`,
		`{"id":"startRecordingResponse"}`,
		`{"id":"startRecordingResponse","status":"ok","sdp":null}`,
		`{"id":"startRecordingResponse","recordingSessionId":7}`,
		`{"id":"recordingStopped","recordingSessionId":"zz"}`,
		`{"id":"recordingRtpStatusChanged","recordingSessionId":"zz","status":"flowing"}`,
		`{"id":"recorderStatus"}`, `{}`, `null`, `not json`, ``, `[1,2]`, `{"id":5}`, g.rawMsg(0))
}

// ---- C22 ----

func genLK(g *gen) {
	g.cfgBasics()
	for k := g.n(1, 3); k > 0; k-- {
		p := g.pub("", g.n(1500, 6000))
		g.livekit(p)
		p.LatePub = 0
		if g.p(0.3) {
			for _, s := range []*Stream{p.Video, p.Audio} {
				if s != nil {
					g.losses(s, 0, s.pkts())
				}
			}
		}
		if p.Video != nil && p.Audio != nil && g.p(0.25) {
			pick(g, p.Video, p.Audio).NotAsked = true
		}
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil && g.p(0.3) {
				g.pauses(s)
			}
		}
		if g.p(0.08) {
			p.JoinErr = true
		} else if g.p(0.08) {
			p.SubErr = true
		}
		j := g.add(p)
		sid := g.sid()
		at := g.n(180, 900)
		g.start(at, sid, j, g.file())
		e := at + p.JoinMs + pick(g, g.n(0, 20), g.n(20, 500), g.n(1000, 6500))
		for m := g.n(1, 2); m > 0; m-- {
			switch x := g.r.Intn(10); {
			case x < 4:
				g.stop(e+g.n(0, 20), sid)
			case x < 7:
				g.op(Op{At: e + g.n(0, 20), K: "kick", Pub: j})
			case x < 8:
				g.op(Op{At: e, K: "unpub", Pub: j, S: pick(g, "", "video", "audio")})
			default:
				g.stop(e, sid)
			}
		}
		g.stop(e+1500, sid)
	}
	if g.p(0.3) {
		g.session(g.n(180, 900), g.n(800, 2000), "")
	}
	g.end(9000)
}

// genLKShared is what a meeting looks like: every recording is of other tracks
// of the same room.
func genLKShared(g *gen) {
	g.cfgBasics()
	room := pick(g, "lk", "meeting", "lk room/ä")
	style := g.r.Intn(4)
	var ids []string
	type run struct {
		sid string
		pub int
		at  int
	}
	var runs []run
	for k := g.n(2, 4); k > 0; k-- {
		p := g.pub("", g.n(1500, 5000))
		g.livekit(p)
		p.LatePub = 0
		p.Room, p.Shared, p.Part = room, true, g.r.Intn(3)
		p.Extra = g.p(0.3)
		p.ExtraID = fmt.Sprintf("TR_other%d", k)
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s == nil {
				continue
			}
			if len(ids) > 0 && g.p(0.4) {
				// one identifier is the beginning of another
				s.TrackID = pick(g, ids...) + fmt.Sprint(len(ids))
			}
			ids = append(ids, s.TrackID)
			if p.Extra && g.p(0.5) {
				p.ExtraID = s.TrackID + "x"
			}
			if g.p(0.2) {
				g.losses(s, 0, s.pkts())
			}
		}
		if p.Video != nil && p.Audio != nil && g.p(0.3) {
			pick(g, p.Video, p.Audio).NotAsked = true
		}
		j := g.add(p)
		sid := g.sid()
		if style != 0 {
			sid = [...]string{"", "10c87dfe8a1b4c3dafe1-1732000000000-", "00:11:22:33:44:55/", "User "}[style] + sid
		}
		at := pick(g, g.n(180, 900), 180+g.n(0, 3))
		g.start(at, sid, j, g.file())
		runs = append(runs, run{sid, j, at + p.JoinMs})
	}
	if g.p(0.25) {
		// the meeting ends
		e := g.n(1500, 6000)
		for _, r := range runs {
			g.op(Op{At: e + g.n(0, 5), K: "kick", Pub: r.pub})
		}
	}
	end := 0
	for _, r := range runs {
		e := r.at + pick(g, g.n(0, 20), g.n(20, 500), g.n(1000, 6500))
		switch g.r.Intn(6) {
		case 0:
			g.op(Op{At: e, K: "kick", Pub: r.pub})
		case 1:
			g.op(Op{At: e, K: "unpub", Pub: r.pub, S: pick(g, "", "video", "audio")})
		default:
			g.stop(e, r.sid)
		}
		end = max(end, e)
	}
	for _, r := range runs {
		g.stop(end+1500+g.n(0, 50), r.sid)
	}
	g.end(9000)
}

// ---- C23 ----

func genIVF(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.IVF = true
	switch g.r.Intn(4) {
	case 0:
		genDeliveredInner(g)
	case 1:
		p := g.pub(pick(g, "v", "av"), g.dur())
		g.livekit(p)
		g.one(p)
	default:
		p := g.pub(pick(g, "v", "v", "av"), g.dur())
		g.network(p.Video)
		if g.p(0.3) {
			p.Video.TS0 = uint32(1<<32 - int64(g.n(0, p.Video.StopMs))*90)
		}
		g.one(p)
		if g.p(0.3) {
			// it ends in another way
			sid := g.sc.Ops[0].Sid
			g.sc.Ops = g.sc.Ops[:1]
			g.endOne(g.n(800, 3000), sid, 0)
			g.stop(g.last()+1000, sid)
			g.end(3000)
		}
	}
}

func withIVF(f func(*gen)) func(*gen) {
	return func(g *gen) {
		f(g)
		g.sc.Cfg.IVF = true
	}
}

func genDeliveredInner(g *gen) {
	p := g.pub(pick(g, "v", "av", "av"), g.dur())
	for _, s := range []*Stream{p.Video, p.Audio} {
		g.deliverAll(s)
	}
	g.one(p)
}

// ---- C24 ----

func genReload(g *gen) {
	g.cfgBasics()
	alt := func() *Cfg {
		c := g.sc.Cfg
		c.Dir = pick(g, "", "/var/lib/rec2")
		c.FileMode = pick(g, "", "0640", "0644")
		c.DirMode = pick(g, "", "0750", "0755")
		c.IVF = g.p(0.5)
		c.Builtin = g.p(0.5)
		c.VQ = pick(g, 0, 64, 512)
		if g.p(0.1) {
			c.DevNull = true
		}
		c.HTTP = g.p(0.2)
		c.Prom = g.p(0.2)
		if g.p(0.3) {
			c.JBT = pick(g, 100, 300)
		}
		c.Ports = g.n(0, 5)
		c.LKHost = pick(g, "", "ws://livekit2", "wss://livekit3")
		c.LKKey = pick(g, "", "", "k2")
		if g.p(0.3) {
			c.ICE = g.someICE()
		}
		c.Omit = g.p(0.5)
		c.Plain = g.p(0.3)
		return &c
	}
	if g.p(0.5) {
		g.sc.Faults = append(g.sc.Faults, &simrt.FSFault{Path: pick(g, "/var/lib/rec", ".webm", "/sub"), Op: pick(g, "stat", "open", "mkdir", "any"), After: g.n(0, 3), Count: g.n(1, 20), Err: "SLOW", Ms: g.n(1, 25)})
	}
	t := g.n(180, 400)
	n := g.n(2, 4)
	for i := 0; i < n; i++ {
		d := g.n(800, 2500)
		_, p := g.session(t, d, "")
		if g.p(0.3) {
			g.livekit(p)
		}
		if g.p(0.5) {
			// while the recording is being set up
			g.op(Op{At: t + g.n(0, 25), K: "hup", S: "changed", N: g.n(0, 900), Cfg: alt()})
		}
		t += pick(g, g.n(0, 10), g.n(100, 1500))
	}
	for i := g.n(0, 4); i > 0; i-- {
		o := Op{At: g.n(160, t+1000), K: "hup", S: pick(g, "same", "changed", "changed", "changed", "missing", "garbage", "half", "empty", "types", "badval", "badval"), N: g.n(0, 900)}
		o.Cfg = alt()
		g.op(o)
	}
	sortOps(g.sc)
	t = g.last() + 600
	g.session(t, g.n(600, 1500), "")
	g.end(3500)
}

// someICE is a list of ICE servers.
func (g *gen) someICE() string {
	return pick(g, "", "", `[{"urls":["stun:stun.example.org:3478"]}]`, `[{"urls":["stun:10.0.0.1:3478","stun:10.0.0.2:3478"]}]`,
		`[{"urls":["turn:turn.example.org:3478?transport=udp"],"username":"u1","credential":"c1"}]`,
		`[{"urls":["stun:stun.example.org:3478"]},{"urls":["turns:turn.example.org:443?transport=tcp"],"username":"u2","credential":"s e:c#2"}]`)
}

// genConfig: settings from the environment, the file and the defaults.
func genConfig(g *gen) {
	g.cfgBasics()
	some := func(c *Cfg) {
		c.Dir = pick(g, "", "/var/lib/rec2")
		c.FileMode = pick(g, "", "", "0640", "0644")
		c.DirMode = pick(g, "", "", "0750", "0755")
		c.IVF = g.p(0.3)
		c.DevNull = g.p(0.05)
		c.Ports = pick(g, 0, 0, g.n(1, 5))
		c.LKHost = pick(g, "", "ws://livekit2", "wss://livekit3")
		c.LKKey = pick(g, "", "k2", "key3")
		c.HTTP = g.p(0.15)
		c.Prom = g.p(0.15)
		c.Port = pick(g, 0, 0, 8081, 9000)
		c.PromAddr = pick(g, "", "", "127.0.0.1:3201", "0.0.0.0:9100", ":9101")
		c.ICE = g.someICE()
		c.Omit = g.p(0.6)
		c.Plain = g.p(0.4)
	}
	some(&g.sc.Cfg)
	if g.p(0.4) {
		g.sc.Cfg.RAddr = pick(g, "", "10.20.0.5:6380", "redis.internal:6379")
		g.sc.Cfg.Password = pick(g, "", "secret", "2024", "p#: x")
		if g.p(0.25) {
			g.sc.Cfg.RNet, g.sc.Cfg.RAddr = "unix", "/run/redis.sock"
		}
	}
	redis := g.sc.Cfg
	if g.p(0.3) {
		for i := g.n(1, 5); i > 0; i-- {
			g.sc.Dump = append(g.sc.Dump, pick(g, pick(g, dumpKeys...), pick(g, dumpKeys...), pick(g, dumpKeys...), "recorder", "webrtc", "http", "prometheus", "pubsub.channels", "all", "nothing", "nothing.here", "recorder.nothing", "recorder.directory.nothing", "webrtc.iceServers.9.nothing", "webrtc.iceServers.x.nothing", "webrtc.iceServers.0.nothing"))
			if g.p(0.25) {
				i := len(g.sc.Dump) - 1
				g.sc.Dump[i] = pick(g, dumpKeys...) + "!" + pick(g, "HTTP_PORT=80x", "RECORDER_WRITEIVFCOPY=maybe", "WEBRTC_JITTERBUFFER=many", "WEBRTC_RTCMINPORT=70000", "HTTP_ENABLE=on!", fmt.Sprint("!", g.n(0, 30)))
			}
		}
	}
	if g.p(0.75) {
		var c Cfg
		for _, e := range []string{"RECORDER_DIRECTORY=" + pick(g, "/var/lib/rec2", "/srv/rec"), "RECORDER_FILEMODE=" + pick(g, "0640", "0660"), "RECORDER_DIRFILEMODE=" + pick(g, "0750", "0770"),
			"RECORDER_WRITEIVFCOPY=" + pick(g, "true", "false"), "RECORDER_WRITETODEVNULL=false", "WEBRTC_RTCMINPORT=" + pick(g, "25577", "28577"), "LIVEKIT_HOST=ws://livekit4", "LIVEKIT_APIKEY=key4", "HTTP_ENABLE=" + pick(g, "true", "false"), "HTTP_PORT=8082", "PROMETHEUS_ENABLE=" + pick(g, "true", "false"), "PROMETHEUS_LISTENADDRESS=127.0.0.1:3202",
			"PUBSUB_ADAPTERS_REDIS_ADDRESS=" + pick(g, "10.20.0.6:6379", "redis.internal:6380"), "PUBSUB_ADAPTERS_REDIS_PASSWORD=" + pick(g, "secret2", "1234", "a=b c"), "PUBSUB_CHANNELS_SUBSCRIBE=to-other", "PUBSUB_CHANNELS_PUBLISH=from-other"} {
			if g.p(0.3) {
				g.sc.Env = append(g.sc.Env, e)
			}
		}
		_ = c.withEnv(g.sc.Env)
	}
	t := g.n(180, 400)
	for i := g.n(1, 3); i > 0; i-- {
		_, p := g.session(t, g.n(500, 1500), "")
		if g.p(0.4) {
			g.livekit(p)
		}
		t = g.last() + g.n(400, 1000)
		if g.p(0.6) {
			c := redis
			some(&c)
			g.op(Op{At: t, K: "hup", S: pick(g, "changed", "changed", "changed", "same", "missing", "garbage", "badval", "types"), N: g.n(0, 900), Cfg: &c})
			t += g.n(700, 1500)
		}
	}
	g.session(t, g.n(500, 1200), "")
	g.end(3000)
}

func sortOps(sc *Scenario) {
	o := sc.Ops
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j].At < o[j-1].At; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

// genEverything: a bit of everything at once.
func genEverything(g *gen) {
	g.cfgBasics()
	g.sc.Cfg.Prom = g.p(0.3)
	n := g.n(2, 4)
	t := g.n(180, 400)
	for i := 0; i < n; i++ {
		p := g.pub("", g.n(800, 4000))
		if g.p(0.2) {
			g.livekit(p)
		}
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil && p.Room == "" && g.p(0.4) {
				g.network(s)
			}
			if s != nil && g.p(0.2) {
				g.pauses(s)
			}
		}
		j := g.add(p)
		sid := g.sid()
		g.start(t, sid, j, g.file())
		g.endOne(t+g.n(300, 4500), sid, j)
		g.stop(t+5000, sid)
		if g.p(0.2) {
			g.badStart(t+g.n(0, 2000), sid)
		}
		if g.p(0.2) {
			g.op(Op{At: t + g.n(0, 2000), K: "raw", S: g.rawMsg(0)})
		}
		if g.p(0.15) {
			g.op(Op{At: t + g.n(0, 2000), K: "wall", Ms: pick(g, -5000, 5000)})
		}
		t += pick(g, 0, g.n(0, 20), g.n(200, 2000))
	}
	g.end(4500)
}

var profiles = map[string][]profile{
	"C01": {{"starts", 8, genStarts}, {"everything", 1, genEverything}},
	"C02": {{"ids", 8, genExclusive}, {"everything", 1, genEverything}},
	"C03": {{"ends", 8, genEnds}, {"slow-disk-ends", 2, genSlowEnd}, {"everything", 1, genEverything}},
	"C04": {{"raw", 8, genRaw}, {"starts", 1, genStarts}},
	"C05": {{"hostile", 8, genHostile}},
	"C06": {{"disk", 8, genDisk}},
	"C07": {{"names", 6, genNames}, {"same-file", 3, genSameFile}},
	"C08": {{"cycle", 1, genCycle}, {"lossy", 300, genLossy}, {"tiny-loss", 300, genTinyLoss}, {"livekit", 150, genLKLossy}, {"hostile", 150, genHostile}, {"malformed", 75, genMalformed}, {"delivered", 75, genDelivered}},
	"C09": {{"lossy", 4, genLossy}, {"tiny-loss", 5, genTinyLoss}, {"malformed", 2, genMalformed}, {"livekit", 2, genLKLossy}, {"pauses", 1, genPauses}, {"delivered", 1, genDelivered}},
	"C10": {{"delivered", 500, genDelivered}, {"recover", 500, genRecover}, {"blackout", 100, genBlackout}, {"pauses", 100, genPauses}, {"cycle", 1, genCycle}},
	"C11": {{"clock", 8, genClock}, {"long", 1, genLong}, {"lossy", 2, genLossy}, {"pauses", 2, genPauses}},
	"C12": {{"audio", 8, genAudio}, {"no-video", 2, genNoVideo}, {"long", 1, genLong}, {"pauses", 1, genPauses}, {"delivered", 2, genDelivered}},
	"C13": {{"nack", 800, genNack}, {"cycle", 1, genCycle}, {"recover", 1, genRecover}},
	"C14": {{"latency", 8, genLatency}, {"blackout", 1, genBlackout}, {"delivered", 2, genDelivered}},
	"C15": {{"flow", 8, genFlow}, {"everything", 1, genEverything}},
	"C16": {{"kill", 8, genKill}, {"watch", 2, genWatch}},
	"C17": {{"status", 8, genStatus}, {"outage", 1, genOutage}},
	"C18": {{"outage", 10, genOutage}, {"hang", 1, genHang}},
	"C19": {{"many", 8, genMany}},
	"C20": {{"many", 8, genMany}, {"livekit", 1, genLK}, {"ends", 1, genEnds}},
	"C21": {{"http", 8, genHTTP}},
	"C22": {{"livekit", 8, genLK}, {"livekit-shared", 6, genLKShared}, {"livekit-lossy", 3, genLKLossy}},
	"C23": {{"ivf", 8, genIVF}, {"ivf-late", 1, withIVF(genNoVideo)}, {"ivf-pauses", 1, withIVF(genPauses)}, {"ivf-clock", 1, withIVF(genClock)}, {"ivf-many", 1, withIVF(genMany)}, {"ivf-lossy", 1, withIVF(genLossy)}},
	"C24": {{"reload", 8, genReload}},
	"C27": {{"config", 8, genConfig}},
	"C28": {{"media", 8, genMedia}},
	"C26": {{"flow", 4, genFlow}, {"everything", 1, genEverything}, {"sync", 1, genSync}, {"clock", 2, genClock}, {"status", 1, genStatus}, {"no-video", 1, genNoVideo}},
	"C25": {{"sync", 8, genSync}, {"no-video", 1, genNoVideo}, {"clock", 1, genClock}, {"long", 1, genLong}},
}
