package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	boot "github.com/bigbluebutton/bbb-webrtc-recorder/internal/zzsimboot"
	"github.com/google/uuid"
	"github.com/livekit/protocol/livekit"
	lksdk "github.com/livekit/server-sdk-go/v2"
	"github.com/pion/rtcp"
	"github.com/pion/webrtc/v3"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"
	"github.com/spf13/pflag"

	"simrt"
)

const (
	chToFile   = "to-recorder"
	chFromFile = "from-recorder"
)

// Msg is an event of the recorder as seen on its channel.
type Msg struct {
	At       int64           `json:"-"`
	Seq      int             `json:"-"`
	Proc     int             `json:"-"`
	Chan     string          `json:"-"`
	Raw      string          `json:"-"`
	Subs     int             `json:"-"`
	FromRec  bool            `json:"-"`
	Bad      bool            `json:"-"`
	Id       string          `json:"id"`
	Sid      string          `json:"recordingSessionId"`
	Status   string          `json:"status"`
	Error    *string         `json:"error"`
	SDP      *string         `json:"sdp"`
	FileName *string         `json:"fileName"`
	Reason   string          `json:"reason"`
	TsHR     json.Number     `json:"timestampHR"`
	UTC      string          `json:"timestampUTC"`
	Millis   json.Number     `json:"timestamp"`
	Wall     int64           `json:"-"`
	Ver      string          `json:"appVersion"`
	Inst     string          `json:"instanceId"`
	Snap     map[string]Snap `json:"-"`
	Gate     bool            `json:"-"`
}

// Snap is the state of a file at some moment.
type Snap struct {
	Len   int
	Hash  uint64
	Opens int
}

// Req is a message the world sent to the recorder.
type Req struct {
	Op   *Op
	Idx  int
	At   int64
	Seq  int
	N    int // recorder subscribers that got it
	Proc int
	Run  *PubRun
	Resp []*Msg
	HTTP *HTTPRun
}

// PubRun is one use of a publisher by one start request.
type PubRun struct {
	w           *World
	idx         int
	uid         int
	spec        *Pub
	offer       string // raw SDP
	pc          *webrtc.SimPC
	pcs         []*webrtc.SimPC
	room        *lksdk.SimRoom
	req         *Req
	video       *Source
	audio       *Source
	connAt      int64
	answered    bool
	wrongAnswer string
	fate        string
	fateAt      int64
	subs        map[string]int
	unsubOther  []string
	iceEnd      int64 // the world ended the connection
	kickAt      int64
	closedAt    int64 // the recorder closed it
	roomTracks  map[string]*lksdk.SimRoomTrack
	trackEnd    int64
	byData      map[string]*Frame
	byAudio     map[string]*Frame
}

func (p *PubRun) down() bool {
	if p.room != nil {
		return p.room.Left || p.room.Gone || p.room.Proc.Dead
	}
	return p.pc == nil || p.pc.Closed || p.pc.Proc.Dead
}

func (p *PubRun) sources() (o []*Source) {
	if p.video != nil {
		o = append(o, p.video)
	}
	if p.audio != nil {
		o = append(o, p.audio)
	}
	return
}

type HTTPRun struct {
	Op   *Op
	Idx  int
	At   int64
	Res  simrt.HTTPResult
	Run  *PubRun
	Req  *Req
	Proc int

	// a GET request's file, before and after
	Seen, After *[]byte
	Dir         bool     // it was a directory
	Others      []string // what is elsewhere
}

type Gauge struct {
	At   int64
	Val  float64
	OK   bool
	Proc int
}

type SubRec struct {
	At   int64
	Seq  int
	Chan string
	Proc int
	Conn int
}

type Fault struct {
	From, To int64
	Kind     string
}

// ProcRun is one life of the recorder process.
type ProcRun struct {
	P          *simrt.Proc
	StartAt    int64
	Base       map[string]int
	BaseTimers int
	BaseOK     bool
	WorldKill  bool
	WorldExit  bool
	Listens    []string // addresses it served at, a while after its start
	ListensOK  bool
}

// World is one simulated execution.
type World struct {
	sc        *Scenario
	sim       *simrt.World
	rng       *simrt.Rng
	broker    *Broker
	procs     []*ProcRun
	dumps     []*DumpRun
	chTo      string // the channels
	chFrom    string
	msgs      []*Msg
	reqs      []*Req
	pubs      []*PubRun
	https     []*HTTPRun
	gauges    []*Gauge
	subs      []SubRec
	outages   []Fault
	seq       int
	probs     []string
	counts    map[string]int64
	lk        *lksdk.SimHooks
	pcs       *webrtc.SimHooks
	cfgFile   string
	trace     []string
	viol      []Violation
	byOffer   map[string]*PubRun
	hups      []int64
	killedAt  []int64
	killSnap  map[int]map[string][]byte
	wallSteps int
	wallLog   [][2]int64 // when, by how much
	endNs     int64
	fileSnap  map[string]int
	diskW     map[string][]WriteRec
	ops       int
	pokes     map[int]bool
	puts      map[string]string
	unpubd    map[string]bool // tracks of shared rooms that are gone
	putAt     map[string]int64
	writes    int
}

type WriteRec struct {
	At  int64
	Len int
}

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func (w *World) fail(class, f string, a ...any) {
	for _, v := range w.viol {
		if v.Class == class {
			return
		}
	}
	w.viol = append(w.viol, Violation{class, fmt.Sprintf(f, a...)})
}

func (w *World) problem(s string) { w.probs = append(w.probs, s) }
func (w *World) count(k string)   { w.counts[k]++ }
func (w *World) tracef(f string, a ...any) {
	if w.sim != nil && w.sim.LogOn {
		w.sim.Logf(f, a...)
	}
}

var scratchDir string

func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "zzsim")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

func (w *World) writeCfg(c *Cfg) {
	var b strings.Builder
	def := func(s, d string) string {
		if s == "" {
			return d
		}
		return s
	}
	n := func(v, d int) int {
		if v == 0 {
			return d
		}
		return v
	}
	sect := ""
	// line writes a setting unless it may be left out
	line := func(path, val string, isDefault bool) {
		if isDefault && c.Omit {
			return
		}
		i := strings.LastIndexByte(path, '.')
		if path[:i] != sect {
			sect = path[:i]
			if !strings.Contains(sect, ".") {
				fmt.Fprintf(&b, "%s:\n", sect)
			}
		}
		fmt.Fprintf(&b, "%s%s: %s\n", strings.Repeat("  ", strings.Count(path, ".")), path[i+1:], val)
	}
	num := func(path string, v, d int) { line(path, strconv.Itoa(n(v, d)), v == 0) }
	flag := func(path string, v, d bool) { line(path, strconv.FormatBool(v), v == d) }
	mode := func(path, v, d string) {
		m := def(v, d)
		if !c.Plain {
			m = "\"" + m + "\""
		}
		line(path, m, v == "")
	}
	line("recorder.directory", c.dir(), false)
	mode("recorder.dirFileMode", c.DirMode, "0700")
	mode("recorder.fileMode", c.FileMode, "0600")
	flag("recorder.writeToDevNull", c.DevNull, false)
	flag("recorder.writeIVFCopy", c.IVF, false)
	num("recorder.videoPacketQueueSize", c.VQ, 256)
	num("recorder.audioPacketQueueSize", c.AQ, 32)
	flag("recorder.useCustomSampler", !c.Builtin, true)
	fmt.Fprintf(&b, "pubsub:\n  channels:\n    subscribe: %s\n    publish: %s\n", chToFile, chFromFile)
	if !c.Omit {
		b.WriteString("  adapter: redis\n")
	}
	if network, addr := c.redis(); !c.Omit || c.RNet != "" || c.RAddr != "" || c.Password != "" {
		sect = "pubsub"
		b.WriteString("  adapters:\n    redis:\n")
		line("pubsub.adapters.redis.address", addr, c.RAddr == "")
		line("pubsub.adapters.redis.network", network, c.RNet == "")
		line("pubsub.adapters.redis.password", strconv.Quote(c.Password), c.Password == "")
	}
	line("webrtc.rtcMinPort", strconv.Itoa(int(c.ports()[0])), c.Ports == 0)
	line("webrtc.rtcMaxPort", strconv.Itoa(int(c.ports()[1])), true)
	line("webrtc.iceServers", def(c.ICE, "[]"), c.ICE == "")
	num("webrtc.jitterBuffer", c.JB, 512)
	num("webrtc.jitterBufferPktTimeout", c.JBT, 200)
	flag("http.enable", c.HTTP, false)
	line("http.port", c.httpAddr()[1:], c.Port == 0)
	flag("prometheus.enable", c.Prom, false)
	line("prometheus.listenAddress", c.promAddr(), c.PromAddr == "")
	level := def(c.Level, "error")
	if l := os.Getenv("ZZ_LEVEL"); l != "" {
		level = l // for debugging
	}
	line("livekit.host", c.lkHost(), false)
	line("livekit.apiKey", c.lkKey(), false)
	line("livekit.apiSecret", "s", false)
	line("log.level", level, false)
	w.putCfg(b.String())
}

const envPrefix = "BBBRECORDER_"

func (w *World) putCfg(s string) {
	if err := os.WriteFile(w.cfgFile, []byte(s), 0600); err != nil {
		panic(err)
	}
}

type simUUID struct{ r *simrt.Rng }

func (u simUUID) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(u.r.U64())
	}
	return len(b), nil
}

// dump lets the recorder print settings before it is started for good.
func (w *World) dump(keys []string) {
	if len(keys) == 0 {
		w.startProc()
		return
	}
	w.globals()
	// KEY, or KEY!ENV=VALUE, or KEY!!N: with a setting that can't be read
	key, bad, isBad := strings.Cut(keys[0], "!")
	os.Args = append(os.Args, "--dump", key)
	d := &DumpRun{Key: key, At: w.sim.Now(), Bad: bad}
	undo := func() {}
	if n, ok := strings.CutPrefix(bad, "!"); ok {
		b, _ := os.ReadFile(w.cfgFile)
		i, _ := strconv.Atoi(n)
		w.putCfg(badVal(string(b), i))
		undo = func() { w.putCfg(string(b)) }
	} else if isBad {
		k, v, _ := strings.Cut(bad, "=")
		was, had := os.LookupEnv(envPrefix + k)
		os.Setenv(envPrefix+k, v)
		undo = func() {
			os.Unsetenv(envPrefix + k)
			if had {
				os.Setenv(envPrefix+k, was)
			}
		}
	}
	w.dumps = append(w.dumps, d)
	d.P = w.sim.NewProc(func() {
		boot.Reset()
		boot.Main()
	})
	d.P.Capture = true
	// It is alone, and how far a library gets with a bad setting depends on the order of Go's maps
	w.sim.Mute = true
	w.sim.After(100*ms, func() { // the first of them takes no time
		if !d.P.Dead {
			w.sim.Kill(d.P, "dump")
		}
	})
	d.P.OnExit = func(*simrt.Proc) {
		undo()
		w.sim.Mute = false
		w.sim.After(ms/10, func() { w.dump(keys[1:]) })
	}
}

// DumpRun is a process that was asked for a setting.
type DumpRun struct {
	P   *simrt.Proc
	Key string
	Bad string // what can't be read
	At  int64
}

func (w *World) globals() {
	os.Args = []string{"recorder", "-c", w.cfgFile}
	pflag.CommandLine = pflag.NewFlagSet("recorder", pflag.PanicOnError)
	reg := prometheus.NewRegistry()
	prometheus.DefaultRegisterer, prometheus.DefaultGatherer = reg, reg
	uuid.SetRand(simUUID{simrt.NewRng(w.sc.Seed + uint64(len(w.procs)))})
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.ErrorLevel)
	logrus.StandardLogger().ExitFunc = simrt.Exit
	logrus.StandardLogger().ReplaceHooks(logrus.LevelHooks{})
}

func (w *World) startProc() {
	w.globals()
	pr := &ProcRun{StartAt: w.sim.Now()}
	w.procs = append(w.procs, pr)
	pr.P = w.sim.NewProc(func() {
		boot.Reset()
		boot.Main()
	})
	n := len(w.procs) - 1
	w.sim.After(1000*ms, func() { w.supervise(n) })
	w.sim.After(1500*ms+w.sim.StallNs, func() {
		if !pr.P.Dead {
			pr.Listens, pr.ListensOK = pr.P.Listens(), true
		}
	})
	w.sim.After(150*ms, func() {
		// idle: it has subscribed a while ago, and was asked for nothing yet
		ready := false
		for _, s := range w.subs {
			ready = ready || s.Proc == n && s.Chan == w.chTo && s.At <= w.sim.Now()-20*ms-w.sim.StallNs
		}
		if !pr.P.Dead && ready {
			pr.Base = siteCount(pr.P)
			pr.BaseTimers = len(pr.P.Timers())
			pr.BaseOK = true
		}
	})
}

// noBroker tells if a process gave up at its start because the broker could not
// be reached then.
func (w *World) noBroker(i int) bool {
	p := w.procs[i]
	for _, s := range w.subs {
		if s.Proc == i {
			return false
		}
	}
	return p.P.Dead && p.P.ExitWhy == "exit 1" && w.inOutage(p.StartAt, p.P.ExitAt)
}

// supervise starts a process that gave up for want of a broker again, like the
// service manager does.
func (w *World) supervise(n int) {
	if n != len(w.procs)-1 || len(w.procs) > 40 {
		return
	}
	if w.noBroker(n) {
		w.count("fault.boot_without_broker")
		w.startProc()
		return
	}
	for _, s := range w.subs {
		if s.Proc == n {
			return
		}
	}
	w.sim.After(1000*ms, func() { w.supervise(n) })
}

func siteCount(p *simrt.Proc) map[string]int {
	m := map[string]int{}
	for _, g := range p.Live() {
		m[g.Site]++
	}
	return m
}

func (w *World) proc() *ProcRun { return w.procs[len(w.procs)-1] }
func (w *World) alive() bool    { return !w.proc().P.Dead }

// runScenario executes one scenario and leaves the recorded history in the World.
func runScenario(sc *Scenario, logOn bool) *World {
	w := &World{sc: sc, counts: map[string]int64{}, byOffer: map[string]*PubRun{}, killSnap: map[int]map[string][]byte{},
		diskW: map[string][]WriteRec{}, fileSnap: map[string]int{}, puts: map[string]string{}, unpubd: map[string]bool{}, putAt: map[string]int64{}}
	w.rng = simrt.NewRng(sc.Seed ^ 0x5EED)
	w.cfgFile = filepath.Join(scratch(), "recorder.yml")
	w.sim = simrt.NewWorld(sc.Sched)
	w.sim.LogOn = logOn
	w.endNs = int64(sc.EndMs) * ms
	w.sim.FS.MkdirWorld("/var/lib/rec")
	w.sim.FS.MkdirWorld("/var/lib/rec2")
	w.sim.FS.MkdirWorld("/srv/rec")
	w.sim.FS.MkdirWorld("/var/lib/outside")
	w.sim.FS.PutWorld("/var/lib/outside/keep.webm", []byte("precious"))
	for _, f := range sc.Faults {
		c := *f
		c.Hits, c.Last = 0, 0
		w.sim.FS.Faults = append(w.sim.FS.Faults, &c)
	}
	w.sim.FS.OnWrite = func(p string, ino *simrt.Inode) {
		w.diskW[p] = append(w.diskW[p], WriteRec{w.sim.Now(), len(ino.Data)})
	}
	if sc.KillWrite > 0 {
		w.sim.FS.OnOp = w.killAtWrite
	}
	w.broker = &Broker{w: w, password: w.cfg().Password}
	network, addr := w.cfg().redis()
	w.sim.Net.Servers[network+"!"+addr] = w.broker
	if n := w.sc.NetUs; n > 0 {
		rng := simrt.NewRng(w.sc.Seed*0x9E3779B97F4A7C15 + 77)
		w.sim.Net.Latency = func() int64 {
			if rng.P(0.3) {
				return 200000 + int64(rng.Intn(n))*1000
			}
			return 200000 + int64(rng.Intn(n/10+1))*1000
		}
		w.count("fault.far_broker")
	}
	w.setupPC()
	w.setupLK()
	w.writeCfg(&sc.Cfg)
	for _, e := range sc.Env {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(envPrefix+k, v)
	}
	defer func() {
		for _, e := range sc.Env {
			k, _, _ := strings.Cut(e, "=")
			os.Unsetenv(envPrefix + k)
		}
	}()
	w.chTo, w.chFrom = chToFile, chFromFile
	for _, e := range sc.Env {
		k, v, _ := strings.Cut(e, "=")
		switch k {
		case "PUBSUB_CHANNELS_SUBSCRIBE":
			w.chTo = v
		case "PUBSUB_CHANNELS_PUBLISH":
			w.chFrom = v
		}
	}
	w.dump(sc.Dump)
	for i, op := range sc.Ops {
		i, op := i, op
		w.sim.At(int64(op.At)*ms, func() { w.do(i, op) })
	}
	w.sim.Run(w.endNs)
	if os.Getenv("ZZ_HASH") != "" {
		fmt.Fprintf(os.Stderr, "hash %x\n", w.sim.Hash)
	}
	return w
}

// finish releases the world; the history stays.
func (w *World) finish() { w.sim.End() }

func (w *World) setupPC() {
	h := webrtc.SimWorld()
	w.pcs = h
	cur := func() *PubRun { return nil }
	_ = cur
	h.NewErr = func() error {
		// the request being processed is not known here; the fault applies to the next publisher that asks for it
		for _, p := range w.pubs {
			if p.spec.PCErr == "new" && p.req != nil && p.req.N > 0 && p.fate == "" && len(p.req.Resp) == 0 {
				p.fate = "newerr"
				p.fateAt = w.sim.Now()
				w.count("fault.pc_new")
				return errors.New("simulated failure of NewPeerConnection")
			}
		}
		return nil
	}
	find := func(s *webrtc.SimPC) *PubRun {
		if s.UserData != nil {
			return s.UserData.(*PubRun)
		}
		for _, p := range w.pubs {
			if p.offer != "" && s.Offer != "" && originOf(s.Offer) == originOf(p.offer) {
				s.UserData = p
				p.pcs = append(p.pcs, s)
				return p
			}
		}
		return nil
	}
	h.SetLocalErr = func(s *webrtc.SimPC) error {
		if p := find(s); p != nil && p.spec.PCErr == "setlocal" {
			w.count("fault.pc_setlocal")
			return errors.New("simulated failure of SetLocalDescription")
		}
		return nil
	}
	h.GatherDelay = func(s *webrtc.SimPC) int64 {
		if p := find(s); p != nil {
			return int64(p.spec.GatherMs) * ms
		}
		return 0
	}
	h.CloseDelay = func(s *webrtc.SimPC) int64 {
		if p := find(s); p != nil {
			return int64(p.spec.CloseMs) * ms
		}
		return 0
	}
	h.OnAnswer = func(s *webrtc.SimPC) { find(s) }
	h.OnClosed = func(s *webrtc.SimPC) {
		if p := find(s); p != nil {
			w.tracef("pub%d connection closed by the recorder", p.idx)
			if p.pc == s {
				p.closedAt = w.sim.Now()
			}
		}
	}
	h.OnRTCP = func(s *webrtc.SimPC, pk []rtcp.Packet) {
		p := find(s)
		if p == nil {
			return
		}
		w.feedback(p, pk)
	}
}

func (w *World) feedback(p *PubRun, pk []rtcp.Packet) {
	for _, r := range pk {
		switch v := r.(type) {
		case *rtcp.PictureLossIndication:
			for _, s := range p.sources() {
				if s.spec.SSRC == v.MediaSSRC {
					s.pli()
				}
			}
		case *rtcp.FullIntraRequest:
			for _, s := range p.sources() {
				if s.spec.SSRC == v.MediaSSRC {
					s.pli()
				}
			}
		case *rtcp.TransportLayerNack:
			for _, s := range p.sources() {
				if s.spec.SSRC == v.MediaSSRC {
					s.nack(nackSeqs(v))
				}
			}
		}
	}
}

func originOf(sdp string) string {
	for _, l := range strings.Split(sdp, "\n") {
		if strings.HasPrefix(l, "o=") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// ---- operations ----

func (w *World) newRun(op *Op, req *Req) *PubRun {
	if op.Pub < 0 || op.Pub >= len(w.sc.Pubs) {
		return nil
	}
	spec := w.sc.Pubs[op.Pub]
	p := &PubRun{w: w, idx: op.Pub, uid: len(w.pubs) + 1, spec: spec, req: req, subs: map[string]int{}, roomTracks: map[string]*lksdk.SimRoomTrack{}}
	p.offer = makeOffer(p)
	w.pubs = append(w.pubs, p)
	return p
}

func makeOffer(p *PubRun) string {
	var b strings.Builder
	fmt.Fprintf(&b, "v=0\r\no=- %d 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n", 70000+p.uid)
	mids := []string{}
	n := 0
	if p.spec.Video != nil {
		mids = append(mids, strconv.Itoa(n))
		n++
	}
	if p.spec.Audio != nil {
		mids = append(mids, strconv.Itoa(n))
		n++
	}
	idle := p.spec.Idle != "" && (p.spec.Video == nil || p.spec.Audio == nil)
	if idle {
		mids = append(mids, strconv.Itoa(n))
	}
	fmt.Fprintf(&b, "a=group:BUNDLE %s\r\na=msid-semantic: WMS\r\n", strings.Join(mids, " "))
	n = 0
	m := func(kind, pt, codec string, s *Stream) {
		pts := pt
		if p.spec.Full {
			pts += " 97 98 99 100 101"
		}
		fmt.Fprintf(&b, "m=%s 9 UDP/TLS/RTP/SAVPF %s\r\nc=IN IP4 0.0.0.0\r\na=rtcp:9 IN IP4 0.0.0.0\r\na=ice-ufrag:uf%d\r\na=ice-pwd:passwordpasswordpassword%d\r\na=fingerprint:sha-256 AA:BB:CC:DD:EE:FF:00:11:22:33:44:55:66:77:88:99:AA:BB:CC:DD:EE:FF:00:11:22:33:44:55:66:77:88:99\r\na=setup:actpass\r\na=mid:%d\r\n",
			kind, pts, p.uid, p.uid, n)
		dir := p.spec.Dir
		if dir == "" {
			dir = "sendonly"
		}
		if s == nil {
			dir = p.spec.Idle
		}
		if dir != "none" {
			fmt.Fprintf(&b, "a=%s\r\n", dir)
		}
		fmt.Fprintf(&b, "a=rtcp-mux\r\na=rtpmap:%s %s\r\n", pt, codec)
		if p.spec.Full {
			b.WriteString(browserLines(kind, pt, p.uid))
		}
		if s != nil {
			fmt.Fprintf(&b, "a=ssrc:%d cname:c\r\n", s.SSRC)
		}
		n++
	}
	video := func() {
		if p.spec.Video != nil || idle {
			m("video", "96", "VP8/90000", p.spec.Video)
		}
	}
	audio := func() {
		if p.spec.Audio != nil || idle {
			m("audio", "111", "opus/48000/2", p.spec.Audio)
		}
	}
	if p.spec.AudioFirst {
		audio()
		video()
	} else {
		video()
		audio()
	}
	return b.String()
}

// browserLines are the lines a browser has in addition in its offer: feedback,
// header extensions, other codecs, candidates.
func browserLines(kind, pt string, uid int) string {
	var b strings.Builder
	b.WriteString("a=rtcp-rsize\r\na=extmap-allow-mixed\r\n")
	for i, e := range []string{"urn:ietf:params:rtp-hdrext:toffset", "http://www.webrtc.org/experiments/rtp-hdrext/abs-send-time", "urn:3gpp:video-orientation",
		"http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01", "http://www.webrtc.org/experiments/rtp-hdrext/playout-delay",
		"http://www.webrtc.org/experiments/rtp-hdrext/video-content-type", "http://www.webrtc.org/experiments/rtp-hdrext/video-timing",
		"http://www.webrtc.org/experiments/rtp-hdrext/color-space", "urn:ietf:params:rtp-hdrext:sdes:mid", "urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id"} {
		fmt.Fprintf(&b, "a=extmap:%d %s\r\n", i+1, e)
	}
	for _, f := range []string{"goog-remb", "transport-cc", "ccm fir", "nack", "nack pli"} {
		fmt.Fprintf(&b, "a=rtcp-fb:%s %s\r\n", pt, f)
	}
	for _, t := range []string{"97", "98", "99", "100", "101"} {
		if kind == "audio" {
			fmt.Fprintf(&b, "a=rtpmap:%s telephone-event/%s000\r\na=fmtp:%s 0-16\r\n", t, t[len(t)-1:]+"8", t)
			continue
		}
		fmt.Fprintf(&b, "a=rtpmap:%s H264/90000\r\na=rtcp-fb:%s nack pli\r\na=fmtp:%s level-asymmetry-allowed=1;packetization-mode=1;profile-level-id=42e01f\r\n", t, t, t)
	}
	for i := 0; i < 14; i++ {
		fmt.Fprintf(&b, "a=candidate:%d 1 udp %d 10.%d.%d.%d %d typ host generation 0 ufrag uf%d network-id %d network-cost 50\r\n", 1000000+i*7919, 2113937151-i, uid%250, i, 3+i, 50000+i, uid, i+1)
	}
	return b.String()
}

// sdpField encodes the offer as the request carries it; kind selects a defect.
func sdpField(kind string, p *PubRun) string {
	enc := func(typ, sdp string) string {
		j, _ := json.Marshal(map[string]string{"type": typ, "sdp": sdp})
		return base64.StdEncoding.EncodeToString(j)
	}
	switch kind {
	case "", "ok", "legacy", "noadapter", "legacyms":
		return enc("offer", p.offer)
	case "none":
		return ""
	case "badb64":
		return "!!!not base64!!!"
	case "badjson":
		return base64.StdEncoding.EncodeToString([]byte(`{"type":"offer","sdp":`))
	case "rawsdp":
		return p.offer
	case "badsdp":
		return enc("offer", "v=0\r\nthis is not sdp")
	case "emptysdp":
		return enc("offer", "")
	case "answer":
		return enc("answer", p.offer)
	case "badtype":
		return enc("bogus", p.offer)
	case "nomid":
		return enc("offer", strings.ReplaceAll(p.offer, "a=mid:", "a=nomid:"))
	case "noice":
		return enc("offer", strings.ReplaceAll(p.offer, "a=ice-ufrag:", "a=x:"))
	case "nofp":
		return enc("offer", strings.ReplaceAll(p.offer, "a=fingerprint:", "a=x:"))
	case "null":
		return base64.StdEncoding.EncodeToString([]byte(`null`))
	case "num":
		return base64.StdEncoding.EncodeToString([]byte(`17`))
	}
	return enc("offer", p.offer)
}

// sdpValid says whether the kind is a usable offer.
func sdpValid(kind string) bool {
	switch kind {
	case "", "ok", "legacy", "noadapter", "legacyms":
		return true
	}
	return false
}

func (w *World) startMsg(op *Op, run *PubRun) string {
	m := map[string]any{"id": "startRecording", "fileName": op.File}
	if op.Sid != "" {
		m["recordingSessionId"] = op.Sid
	}
	if op.Adapter == "livekit" {
		m["adapter"] = "livekit"
		ids := []string{}
		for _, s := range []*Stream{run.spec.Video, run.spec.Audio} {
			if s != nil && !s.NotAsked {
				ids = append(ids, s.TrackID)
			}
		}
		lk := map[string]any{"room": run.roomName(), "trackIds": ids}
		switch op.SDP {
		case "noroom":
			delete(lk, "room")
		case "notracks":
			delete(lk, "trackIds")
		case "noopts":
			return mustJSON(m)
		}
		m["adapterOptions"] = map[string]any{"livekit": lk}
		return mustJSON(m)
	}
	sdp := sdpField(op.SDP, run)
	switch op.SDP {
	case "legacy":
		m["sdp"] = sdp
		return mustJSON(m)
	case "legacyms":
		m["adapter"] = "mediasoup"
		m["sdp"] = sdp
		return mustJSON(m)
	case "noadapter":
	default:
		m["adapter"] = op.Adapter
		if op.Adapter == "" {
			m["adapter"] = "mediasoup"
		}
	}
	if op.SDP == "noopts" {
		return mustJSON(m)
	}
	o := map[string]any{}
	if sdp != "" {
		o["sdp"] = sdp
	}
	m["adapterOptions"] = map[string]any{"mediasoup": o}
	return mustJSON(m)
}

func (p *PubRun) roomName() string {
	if p.spec.Shared {
		return p.spec.Room
	}
	if p.spec.Room == "" {
		return fmt.Sprintf("room%d", p.uid)
	}
	return fmt.Sprintf("%s%d", p.spec.Room, p.uid)
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (w *World) send(op *Op, i int, msg string, run *PubRun) *Req {
	w.seq++
	r := &Req{Op: op, Idx: i, At: w.sim.Now(), Seq: w.seq, Run: run, Proc: len(w.procs) - 1}
	w.reqs = append(w.reqs, r)
	if run != nil {
		run.req = r
	}
	w.tracef("-> %s", short(msg, 160))
	if w.netOK() {
		r.N = w.broker.publish(w.chTo, msg, false)
	}
	return r
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (w *World) netOK() bool { return true }

func (w *World) do(i int, op *Op) {
	w.count("op." + op.K)
	w.ops++
	switch op.K {
	case "start":
		run := w.newRun(op, nil)
		w.send(op, i, w.startMsg(op, run), run)
	case "stop":
		w.send(op, i, mustJSON(map[string]any{"id": "stopRecording", "recordingSessionId": op.Sid}), nil)
	case "status":
		w.send(op, i, `{"id":"getRecorderStatus"}`, nil)
	case "raw":
		w.send(op, i, op.text(), nil)
	case "other":
		w.broker.publish(w.chFrom, op.text(), false)
	case "ice":
		if p := w.latest(op.Pub); p != nil && p.pc != nil {
			st := webrtc.ICEConnectionState(op.N)
			w.tracef("pub%d ICE %s", p.idx, st)
			if st > webrtc.ICEConnectionStateConnected && p.iceEnd == 0 {
				p.iceEnd = w.sim.Now()
			}
			w.count("fault.ice_" + st.String())
			p.pc.SetState(st)
		}
	case "endtrack":
		if p := w.latest(op.Pub); p != nil {
			for _, s := range p.sources() {
				if op.S == "" || op.S == s.kind() {
					s.end()
					w.count("fault.track_end")
				}
			}
		}
	case "broker":
		w.brokerFault(op)
	case "http":
		run := w.newRun(op, nil)
		hr := &HTTPRun{Op: op, Idx: i, At: w.sim.Now(), Run: run, Proc: len(w.procs) - 1}
		w.https = append(w.https, hr)
		method := "POST"
		if op.S != "" {
			method = op.S
		}
		w.sim.HTTP(w.proc().P, w.cfg().httpAddr(), method, "/sdp", "", sdpField(op.SDP, run), int64(op.Ms)*ms, &hr.Res)
		w.pollHTTP(hr)
	case "get":
		if op.S == "/metrics" {
			g := &Gauge{At: w.sim.Now(), Proc: len(w.procs) - 1}
			w.gauges = append(w.gauges, g)
			res := &simrt.HTTPResult{}
			w.sim.HTTP(w.proc().P, w.cfg().promAddr(), "GET", "/metrics", "", "", 0, res)
			w.sim.After(2*ms, func() {
				if res.Done {
					g.Val, g.OK = parseGauge(res.Body)
				}
			})
			return
		}
		hr := &HTTPRun{Op: op, Idx: i, At: w.sim.Now(), Proc: len(w.procs) - 1}
		w.https = append(w.https, hr)
		hr.Seen, hr.Others = w.serveable(op.S)
		if f, ok := w.mediaFile(op.S); ok {
			i := w.sim.FS.Peek(f)
			hr.Dir = i != nil && i.IsDir()
		}
		w.sim.HTTP(w.proc().P, w.cfg().httpAddr(), "GET", op.S, op.File, "", 0, &hr.Res)
		w.pollGet(hr)
	case "hup":
		w.hup(op)
	case "int":
		w.proc().WorldExit = true
		w.sim.Signal(w.proc().P, os.Interrupt)
	case "kill":
		w.kill(op.Ms)
	case "put":
		if w.sim.FS.Peek(op.File) == nil {
			w.sim.FS.PutWorld(op.File, []byte(op.S))
			w.puts[op.File] = op.S
			w.putAt[op.File] = w.sim.Now()
		}
	case "wall":
		w.sim.StepWall(int64(op.Ms) * ms)
		w.count("fault.wall_step")
		w.wallSteps++
		w.wallLog = append(w.wallLog, [2]int64{w.sim.Now(), int64(op.Ms) * ms})
	case "kick":
		if p := w.latest(op.Pub); p != nil && p.room != nil {
			if p.kickAt == 0 {
				p.kickAt = w.sim.Now()
			}
			p.room.Kick()
			w.count("fault.room_kick")
		}
	case "unpub":
		if p := w.latest(op.Pub); p != nil && p.room != nil {
			for _, s := range p.sources() {
				if op.S == "" || op.S == s.kind() {
					if t := p.roomTracks[s.spec.TrackID]; t != nil {
						s.stopped = true
						s.ended = w.sim.Now()
						p.room.Unpublish(t)
						if p.spec.Shared {
							// everyone in the room is told
							w.unpubd[t.SID] = true
							for _, o := range w.lk.Rooms {
								if o != p.room && o.Joined && o.Info.RoomName == p.room.Info.RoomName && !o.Gone {
									o.UnpublishSID(t.SID)
								}
							}
						}
						w.count("fault.unpublish")
					}
				}
			}
		}
	case "inject":
		if p := w.latest(op.Pub); p != nil {
			for _, s := range p.sources() {
				if (op.S == s.kind()) && s.track != nil {
					w.count("media.injected")
					s.injected++
					s.track.Deliver(injectRaw(s, op.N, w.rng))
				}
			}
		}
	default:
		panic("unknown op " + op.K)
	}
}

func (w *World) latest(pub int) *PubRun {
	for i := len(w.pubs) - 1; i >= 0; i-- {
		if w.pubs[i].idx == pub && (w.pubs[i].pc != nil || w.pubs[i].room != nil) {
			return w.pubs[i]
		}
	}
	return nil
}

func (w *World) kill(restartMs int) {
	pr := w.proc()
	if pr.P.Dead {
		return
	}
	pr.WorldKill = true
	w.count("fault.kill")
	w.killedAt = append(w.killedAt, w.sim.Now())
	n := len(w.procs) - 1
	w.sim.Kill(pr.P, "killed")
	w.snapKill(n)
	if restartMs >= 0 {
		w.sim.After(int64(restartMs)*ms, func() { w.startProc() })
	}
}

// killAtWrite kills the process in the middle of a write.
func (w *World) killAtWrite(op, p string, n int) (bool, int) {
	if op != "write" || !strings.HasSuffix(p, ".webm") {
		return false, 0
	}
	w.writes++
	if w.writes != w.sc.KillWrite {
		return false, 0
	}
	pr := w.proc()
	pr.WorldKill = true
	w.count("fault.kill_in_write")
	w.killedAt = append(w.killedAt, w.sim.Now())
	i := len(w.procs) - 1
	w.sim.After(0, func() {
		w.snapKill(i)
		w.sim.After(500*ms, func() { w.startProc() })
	})
	return true, n * w.sc.Torn / 100
}

func (w *World) snapKill(n int) {
	m := map[string][]byte{}
	for _, f := range w.sim.FS.List() {
		if ino := w.sim.FS.Peek(f); ino != nil && !ino.ByWorld {
			m[f] = append([]byte(nil), ino.Data...)
		}
	}
	w.killSnap[n] = m
}

func (w *World) hup(op *Op) {
	w.count("fault.hup_" + op.S)
	switch op.S {
	case "same":
		w.writeCfg(&w.sc.Cfg)
	case "changed":
		w.writeCfg(op.Cfg)
	case "missing":
		os.Remove(w.cfgFile)
	case "garbage":
		w.putCfg("recorder: [unclosed\n\t- x: {{{")
	case "half":
		w.writeCfg(op.Cfg)
		b, _ := os.ReadFile(w.cfgFile)
		w.putCfg(halfCfg(string(b), op.N))
	case "empty":
		w.putCfg("")
	case "badval": // a usable file but for one value
		w.writeCfg(op.Cfg)
		b, _ := os.ReadFile(w.cfgFile)
		w.putCfg(badVal(string(b), op.N))
	case "types":
		w.putCfg("recorder:\n  videoPacketQueueSize: many\n")
	}
	w.hups = append(w.hups, w.sim.Now())
	w.sim.Signal(w.proc().P, syscall.SIGHUP)
}

// halfCfg cuts a configuration in the middle of a key or of a quoted value, so
// that what is left is no usable configuration.
func halfCfg(s string, n int) string {
	var cuts []int
	indent := func(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }
	at, prev := 0, "x:"
	for _, l := range strings.SplitAfter(s, "\n") {
		if i := strings.IndexByte(l, '"'); i >= 0 {
			cuts = append(cuts, at+i+1)
		}
		if indent(l) <= indent(prev) && at > 0 && len(l) > indent(l)+3 {
			cuts = append(cuts, at+indent(l)+2)
		}
		at, prev = at+len(l), l
	}
	return s[:cuts[n%len(cuts)]]
}

// badVal replaces a number or a truth value with a word.
func badVal(s string, n int) string {
	lines := strings.Split(s, "\n")
	var at []int
	for i, l := range lines {
		if _, v, ok := strings.Cut(l, ": "); ok {
			_, err := strconv.ParseInt(v, 10, 64)
			if v == "true" || v == "false" || err == nil && !strings.Contains(strings.ToLower(l), "mode") {
				at = append(at, i)
			}
		}
	}
	if len(at) == 0 {
		return s + "http:\n  port: many\n"
	}
	i := at[n%len(at)]
	k, _, _ := strings.Cut(lines[i], ": ")
	lines[i] = k + ": many"
	return strings.Join(lines, "\n")
}

func (w *World) brokerFault(op *Op) {
	w.count("fault.broker_" + op.S)
	now := w.sim.Now()
	n := w.sim.Net
	end := now + int64(op.Ms)*ms
	w.tracef("broker fault %s for %d ms", op.S, op.Ms)
	if op.S == "lostreply" { // the next messages arrive, but the connection breaks before it is told
		w.broker.lose += op.N
		return
	}
	w.outages = append(w.outages, Fault{now, end, op.S})
	switch op.S {
	case "reset": // all connections reset, reachable again at once
		w.broker.dropAll(true)
	case "close":
		w.broker.dropAll(false)
	case "refuse":
		w.broker.dropAll(true)
		n.Refuse = true
		w.sim.After(int64(op.Ms)*ms, func() { n.Refuse = false })
	case "vanish":
		w.broker.vanishAll()
	case "hang":
		w.broker.vanishAll()
		n.Hang = true
		w.sim.After(int64(op.Ms)*ms, func() { n.Hang = false })
	case "stall":
		n.Stall = true
		w.sim.After(int64(op.Ms)*ms, func() { n.Unstall() })
	case "busy": // commands are answered with an error
		w.broker.busy = true
		w.sim.After(int64(op.Ms)*ms, func() { w.broker.busy = false })
	case "full": // no more connections
		w.broker.full = true
		w.sim.After(int64(op.Ms)*ms, func() { w.broker.full = false })
	case "subreset": // only the subscriber connections
		for _, bc := range w.broker.conns {
			if !bc.dead && len(bc.subs) > 0 {
				bc.c.Drop(true)
				bc.dead = true
				bc.subs = nil
			}
		}
	default:
		panic("broker fault " + op.S)
	}
}

func (w *World) inOutage(from, to int64) bool {
	for _, o := range w.outages {
		if o.From <= to && from <= o.To+1 {
			return true
		}
	}
	return false
}

func (w *World) onSubscribed(bc *bconn, ch string) {
	w.seq++
	w.subs = append(w.subs, SubRec{w.sim.Now(), w.seq, ch, len(w.procs) - 1, bc.c.ID})
	w.tracef("broker: recorder subscribed to %s", ch)
	w.sim.Observe("sub " + ch)
}

func (w *World) snapFiles() map[string]Snap {
	m := map[string]Snap{}
	for _, f := range w.sim.FS.List() {
		ino := w.sim.FS.Peek(f)
		if ino == nil || ino.ByWorld {
			continue
		}
		h := fnv.New64a()
		h.Write(ino.Data)
		m[f] = Snap{len(ino.Data), h.Sum64(), ino.Opens}
	}
	return m
}

func (w *World) onPublish(ch, raw string, fromRec bool, subs int) {
	if ch != w.chFrom && !(fromRec && ch == w.chTo) {
		if fromRec {
			w.problem("recorder published on unknown channel " + ch)
		}
		return
	}
	w.seq++
	m := &Msg{At: w.sim.Now(), Seq: w.seq, Chan: ch, Raw: raw, Subs: subs, FromRec: fromRec, Proc: len(w.procs) - 1}
	if err := json.Unmarshal([]byte(raw), m); err != nil {
		m.Bad = true
	}
	m.Wall = w.sim.Wall()
	w.tracef("<- [%s] %s", ch, short(raw, 200))
	w.sim.Observe("pub " + m.Id + m.Sid + m.Status)
	if ch == w.chTo {
		// the HTTP endpoint talks to the recorder through the broker
		if m.Id == "startRecording" {
			w.onHTTPStart(m)
		}
		return
	}
	if fromRec {
		w.msgs = append(w.msgs, m)
		if m.Id == "recordingStopped" {
			m.Snap = w.snapFiles()
		}
		w.onMsg(m)
	}
}

// onMsg is the SFU's reaction to an event.
func (w *World) onMsg(m *Msg) {
	if m.Id != "startRecordingResponse" || m.Status != "ok" {
		return
	}
	if m.SDP != nil && *m.SDP != "" {
		if p := w.pubOfAnswer(*m.SDP); p != nil {
			w.connect(p)
		}
	}
}

// pubOfAnswer finds the publisher whose offer is answered.
func (w *World) pubOfAnswer(enc string) *PubRun {
	sdp := decodeAnswer(enc)
	n := answerPC(sdp)
	if n < 0 || n >= len(w.pcs.PCs) {
		return nil
	}
	pc := w.pcs.PCs[n]
	p, _ := pc.UserData.(*PubRun)
	if p == nil {
		return nil
	}
	p.pc = pc
	return p
}

func decodeAnswer(enc string) string {
	b, err := base64.StdEncoding.DecodeString(enc)
	if err != nil {
		return ""
	}
	var d struct{ Type, SDP string }
	if json.Unmarshal(b, &d) != nil || d.Type != "answer" {
		return ""
	}
	return d.SDP
}

func answerPC(sdp string) int {
	i := strings.Index(sdp, "a=simpc:")
	if i < 0 {
		return -1
	}
	s := sdp[i+8:]
	j := strings.IndexAny(s, "\r\n")
	if j < 0 {
		j = len(s)
	}
	n, err := strconv.Atoi(s[:j])
	if err != nil {
		return -1
	}
	return n
}

// connect brings the media connection up after the answer arrived at the publisher.
func (w *World) connect(p *PubRun) {
	if p.answered {
		return
	}
	p.answered = true
	if p.spec.NoConn {
		w.count("fault.ice_never")
		return
	}
	pc := p.pc
	w.sim.After(int64(p.spec.ConnMs)*ms/2, func() { pc.SetState(webrtc.ICEConnectionStateChecking) })
	w.sim.After(int64(p.spec.ConnMs)*ms, func() {
		if pc.Closed || pc.Proc.Dead || p.iceEnd != 0 {
			return
		}
		pc.SetState(webrtc.ICEConnectionStateConnected)
		p.connAt = w.sim.Now()
		w.tracef("pub%d connected", p.idx)
		if st := p.spec.Video; st != nil {
			p.video = newSource(w, p, st, true)
			p.video.track = pc.AddTrack(webrtc.RTPCodecTypeVideo, st.SSRC, p.video.pt(), webrtc.MimeTypeVP8, 90000, 0)
			p.video.hook()
			p.video.begin(p.connAt)
		}
		if st := p.spec.Audio; st != nil {
			p.audio = newSource(w, p, st, false)
			p.audio.track = pc.AddTrack(webrtc.RTPCodecTypeAudio, st.SSRC, p.audio.pt(), webrtc.MimeTypeOpus, 48000, 2)
			p.audio.hook()
			p.audio.begin(p.connAt)
		}
	})
}

// onHTTPStart notes a start request the HTTP endpoint made.
func (w *World) onHTTPStart(m *Msg) {
	var q struct {
		FileName       string
		AdapterOptions struct{ Mediasoup struct{ SDP string } }
		SDP            string
	}
	json.Unmarshal([]byte(m.Raw), &q)
	sdp := q.AdapterOptions.Mediasoup.SDP
	if sdp == "" {
		sdp = q.SDP
	}
	for _, h := range w.https {
		if h.Run == nil || h.Req != nil || sdpField(h.Op.SDP, h.Run) != sdp {
			continue
		}
		op := &Op{At: int(m.At / ms), K: "start", Sid: m.Sid, File: q.FileName, SDP: h.Op.SDP, Pub: h.Op.Pub}
		h.Req = &Req{Op: op, Idx: h.Idx, At: m.At, Seq: m.Seq, N: m.Subs, Run: h.Run, Proc: m.Proc, HTTP: h}
		h.Run.req = h.Req
		w.reqs = append(w.reqs, h.Req)
		return
	}
	w.problem("start request of the HTTP endpoint without a caller")
}

func (s *Source) hook() {
	s.track.OnRead = func(raw []byte) {
		if len(raw) < 4 {
			return
		}
		if s.pub.room != nil {
			s.feed = append(s.feed, feedItem{s.w.sim.Now(), raw})
		}
		q := uint16(raw[2])<<8 | uint16(raw[3])
		if p := s.bySeq[q]; p != nil && p.ReadAt == 0 {
			p.ReadAt = s.w.sim.Now()
		}
	}
}

func (w *World) pollHTTP(hr *HTTPRun) {
	w.sim.After(1*ms, func() {
		if hr.Res.Gone {
			w.count("fault.http_hangup")
			return
		}
		if hr.Res.Done {
			w.tracef("HTTP %d answered after %d ms: code %d %s", hr.Idx, (hr.Res.End-hr.At)/ms, hr.Res.Code, short(hr.Res.Body, 60))
			w.sim.Observe("http " + strconv.Itoa(hr.Res.Code))
			if hr.Res.Code == 200 {
				if p := w.pubOfAnswer(hr.Res.Body); p != nil {
					w.connect(p)
				}
			}
			return
		}
		if !w.proc().P.Dead {
			w.pollHTTP(hr)
		}
	})
}

// cfg is the configuration the recorder was started with.
func (w *World) cfg() *Cfg { return w.sc.Cfg.withEnv(w.sc.Env) }

// mediaFile is the file a request is about.
func (w *World) mediaFile(target string) (string, bool) {
	u, err := url.Parse(target)
	if err != nil || !strings.HasPrefix(u.Path, "/media/") {
		return "", false
	}
	return path.Clean(w.cfg().dir() + path.Clean("/"+strings.TrimPrefix(u.Path, "/media/"))), true
}

// serveable takes a copy of the file a request is about, and of what there is outside the
// directory of recordings.
func (w *World) serveable(target string) (*[]byte, []string) {
	var got *[]byte
	if f, ok := w.mediaFile(target); ok {
		if i := w.sim.FS.Peek(f); i != nil && !i.IsDir() {
			b := append([]byte(nil), i.Data...)
			got = &b
		}
	}
	var o []string
	for f, s := range w.puts {
		if !strings.HasPrefix(f, w.cfg().dir()+"/") && len(s) > 4 {
			o = append(o, s)
		}
	}
	sort.Strings(o)
	return got, o
}

func (w *World) pollGet(hr *HTTPRun) {
	w.sim.After(1*ms, func() {
		if hr.Res.Done {
			w.tracef("GET %s answered: code %d %s", hr.Op.S, hr.Res.Code, short(hr.Res.Body, 60))
			w.sim.Observe("get " + strconv.Itoa(hr.Res.Code))
			hr.After, _ = w.serveable(hr.Op.S)
		} else if !w.proc().P.Dead {
			w.pollGet(hr)
		}
	})
}

func parseGauge(b string) (float64, bool) {
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "recorder_sessions ") {
			f, err := strconv.ParseFloat(strings.TrimSpace(l[len("recorder_sessions "):]), 64)
			return f, err == nil
		}
	}
	return 0, false
}

// ---- LiveKit ----

func (w *World) setupLK() {
	h := lksdk.SimWorld()
	w.lk = h
	take := func(r *lksdk.SimRoom, p *PubRun) *PubRun {
		r.UserData = p
		p.room = r
		return p
	}
	// Whose connection it is: in a room of its own, that of the request which
	// named the room. Several recordings can share a room; the identity or at
	// the latest the tracks that are subscribed to tell which one this is.
	find := func(r *lksdk.SimRoom) *PubRun {
		if r.UserData != nil {
			return r.UserData.(*PubRun)
		}
		var best *PubRun
		for i := len(w.pubs) - 1; i >= 0; i-- {
			p := w.pubs[i]
			if p.req == nil || p.req.Op.Adapter != "livekit" || p.roomName() != r.Info.RoomName {
				continue
			}
			if !p.spec.Shared {
				return take(r, p)
			}
			if sid := p.req.Op.Sid; p.room == nil && strings.HasSuffix(r.Info.ParticipantIdentity, sid) && (best == nil || len(sid) > len(best.req.Op.Sid)) {
				best = p
			}
		}
		if best != nil {
			return take(r, best)
		}
		return nil
	}
	findBy := func(r *lksdk.SimRoom, track string) *PubRun {
		if p := find(r); p != nil {
			return p
		}
		for _, p := range w.pubs {
			if p.req != nil && p.req.Op.Adapter == "livekit" && p.roomName() == r.Info.RoomName && p.room == nil && p.spec.has(track) {
				return take(r, p)
			}
		}
		return nil
	}
	h.Join = func(r *lksdk.SimRoom) (int64, []*livekit.ParticipantInfo, error) {
		p := find(r)
		if p == nil {
			for _, o := range w.sc.Pubs {
				if o.Shared && o.Room == r.Info.RoomName {
					return int64(o.JoinMs) * ms, w.roomInfo(r.Info.RoomName), nil
				}
			}
			return 0, nil, errors.New("no such room")
		}
		if p.spec.JoinErr {
			w.count("fault.lk_join")
			return int64(p.spec.JoinMs) * ms, nil, errors.New("simulated join failure")
		}
		if p.spec.Shared {
			w.count("media.shared_room")
			return int64(p.spec.JoinMs) * ms, w.roomInfo(r.Info.RoomName), nil
		}
		return int64(p.spec.JoinMs) * ms, []*livekit.ParticipantInfo{w.partInfo(p)}, nil
	}
	h.OnJoined = func(r *lksdk.SimRoom) {
		// A server knows a participant by its identity: whoever joins under
		// the same one replaces the earlier connection
		for _, o := range h.Rooms {
			if o != r && o.Joined && o.Info.RoomName == r.Info.RoomName && o.Info.ParticipantIdentity == r.Info.ParticipantIdentity && !o.Left && !o.Gone && !o.Proc.Dead {
				w.tracef("the connection %d to room %s replaces connection %d", r.N, r.Info.RoomName, o.N)
				w.count("fault.room_replaced")
				o.Kick()
			}
		}
	}
	h.OnSubscribe = func(r *lksdk.SimRoom, sid string, on bool) error {
		p := findBy(r, sid)
		if p == nil {
			return nil
		}
		if p.spec.SubErr {
			w.count("fault.lk_subscribe")
			return errors.New("simulated subscription failure")
		}
		if !on {
			return nil
		}
		p.subs[sid]++
		if p.subs[sid] > 1 {
			return nil
		}
		w.tracef("pub%d subscribed to %s", p.idx, sid)
		var st *Stream
		video := false
		if p.spec.Video != nil && p.spec.Video.TrackID == sid {
			st, video = p.spec.Video, true
		} else if p.spec.Audio != nil && p.spec.Audio.TrackID == sid {
			st = p.spec.Audio
		}
		if st == nil {
			p.unsubOther = append(p.unsubOther, sid)
			return nil
		}
		w.sim.After(int64(p.spec.ConnMs)*ms, func() { w.startRoomTrack(p, r, st, video) })
		return nil
	}
	h.OnPLI = func(r *lksdk.SimRoom, rp *lksdk.RemoteParticipant, ssrc uint32) {
		if p := find(r); p != nil {
			w.feedback(p, []rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
		}
	}
	h.Delay = func(r *lksdk.SimRoom, what string) int64 {
		p := find(r)
		if p == nil {
			return 0
		}
		if what == "close" {
			return int64(p.spec.CloseMs) * ms
		}
		return int64(p.spec.SubMs) * ms
	}
	h.OnLeft = func(r *lksdk.SimRoom) {
		p := find(r)
		if p == nil {
			return
		}
		if p.room == r {
			p.closedAt = w.sim.Now()
			w.tracef("pub%d room left", p.idx)
		}
	}
}

func (w *World) partInfo(p *PubRun) *livekit.ParticipantInfo {
	pi := &livekit.ParticipantInfo{Sid: fmt.Sprintf("PA_%d", p.uid), Identity: fmt.Sprintf("user%d", p.uid), State: livekit.ParticipantInfo_ACTIVE}
	if st := p.spec.Video; st != nil {
		pi.Tracks = append(pi.Tracks, &livekit.TrackInfo{Sid: st.TrackID, Type: livekit.TrackType_VIDEO, Name: "v", MimeType: "video/VP8"})
	}
	if st := p.spec.Audio; st != nil {
		pi.Tracks = append(pi.Tracks, &livekit.TrackInfo{Sid: st.TrackID, Type: livekit.TrackType_AUDIO, Name: "a", MimeType: "audio/opus"})
	}
	if p.spec.Extra {
		id := "TR_other"
		if p.spec.ExtraID != "" {
			id = p.spec.ExtraID
		}
		pi.Tracks = append(pi.Tracks, &livekit.TrackInfo{Sid: id, Type: livekit.TrackType_VIDEO, Name: "o", MimeType: "video/VP8"})
	}
	return pi
}

// roomInfo is what a shared room has.
func (w *World) roomInfo(room string) (out []*livekit.ParticipantInfo) {
	m := map[int]*livekit.ParticipantInfo{}
	for i, o := range w.sc.Pubs {
		if !o.Shared || o.Room != room {
			continue
		}
		pi := m[o.Part]
		if pi == nil {
			pi = &livekit.ParticipantInfo{Sid: fmt.Sprintf("PA_s%d", o.Part), Identity: fmt.Sprintf("user%d", o.Part), State: livekit.ParticipantInfo_ACTIVE}
			m[o.Part] = pi
			out = append(out, pi)
		}
		for _, t := range w.partInfo(&PubRun{spec: o, uid: i}).Tracks {
			if !w.unpubd[t.Sid] {
				pi.Tracks = append(pi.Tracks, t)
			}
		}
	}
	return out
}

func (w *World) startRoomTrack(p *PubRun, r *lksdk.SimRoom, st *Stream, video bool) {
	if r.Left || r.Gone || r.Proc.Dead {
		return
	}
	if p.connAt == 0 {
		p.connAt = w.sim.Now()
	}
	s := newSource(w, p, st, video)
	mime, clock, ch := "video/VP8", uint32(90000), uint16(0)
	if !video {
		mime, clock, ch = "audio/opus", 48000, 2
	}
	t := r.StartTrack(st.TrackID, st.SSRC, s.pt(), mime, clock, ch)
	if t == nil {
		return
	}
	p.roomTracks[st.TrackID] = t
	s.track = t.SimTrack
	s.hook()
	if video {
		p.video = s
	} else {
		p.audio = s
	}
	s.begin(w.sim.Now())
}

// injectRaw makes an arbitrary received packet.
func injectRaw(s *Source, variant int, r *simrt.Rng) []byte {
	last := uint16(s.seq)
	mk := func(seq uint16, ts uint32, marker bool, pl []byte) []byte {
		b := make([]byte, 12, 12+len(pl))
		b[0] = 0x80
		b[1] = s.pt()
		if marker {
			b[1] |= 0x80
		}
		b[2], b[3] = byte(seq>>8), byte(seq)
		b[4], b[5], b[6], b[7] = byte(ts>>24), byte(ts>>16), byte(ts>>8), byte(ts)
		b[8], b[9], b[10], b[11] = byte(s.spec.SSRC>>24), byte(s.spec.SSRC>>16), byte(s.spec.SSRC>>8), byte(s.spec.SSRC)
		return append(b, pl...)
	}
	ts := uint32(r.U64())
	switch variant % 8 {
	case 0: // random sequence number
		pl, m := badPayload([]byte{0x10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, true, r.Intn(16), r)
		return mk(uint16(r.U64()), ts, m, pl)
	case 1: // old packet
		return mk(last-uint16(r.Intn(2000)), ts, r.P(0.5), []byte{0x10, 0x31, 0, 0, 1, 2, 3})
	case 2: // far future
		return mk(last+uint16(1000+r.Intn(30000)), ts, r.P(0.5), []byte{0x10, 0x31, 0, 0, 1, 2, 3})
	case 3: // empty payload
		return mk(last+uint16(r.Intn(3)), ts, r.P(0.5), nil)
	case 4: // half the number space away
		return mk(last+32768, ts, true, []byte{0x90, 0x80})
	case 5: // padding only
		b := mk(last+uint16(r.Intn(3)), ts, false, []byte{0, 0, 0, 4})
		b[0] |= 0x20
		return b
	case 6: // with header extension and CSRC
		b := mk(last-1, ts, true, nil)
		b[0] |= 0x11
		return append(b, 1, 2, 3, 4, 0xbe, 0xde, 0, 1, 0x10, 0xaa, 0, 0, 0x10, 0x00)
	default:
		pl, m := badPayload([]byte{0x90, 0x80, 0x81, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, true, r.Intn(16), r)
		return mk(last-uint16(r.Intn(5)), ts, m, pl)
	}
}

func keysOf[V any](m map[string]V) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
