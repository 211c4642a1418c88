package main

import (
	"bytes"
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/livekit/server-sdk-go/v2/pkg/jitter"
	"github.com/pion/rtp"
	"github.com/pion/rtp/codecs"

	"simrt"
)

// Rec is a recording the recorder said it started.
type Rec struct {
	sid   string
	resp  *Msg
	req   *Req
	pub   *PubRun
	file  string
	proc  int
	stop  *Msg
	flows []*Msg
	okAt  int64
	// the end as the world knows it
	causes []Cause
	endAt  int64 // first cause, or the end of the run / the process
	web    *WebM
	parsed bool
}

type Cause struct {
	At   int64
	Kind string
	Soft bool // may end the recording, need not
}

func (r *Rec) lk() bool { return r.req != nil && r.req.Op.Adapter == "livekit" }

// Analysis is what the oracles know about a run.
type Analysis struct {
	w      *World
	sc     *Scenario
	cfg    *Cfg // as overridden by the environment
	recs   []*Rec
	resps  map[*Req][]*Msg
	extra  []*Msg // responses nobody asked for
	strayF []*Msg
	strayS []*Msg
	status []*Msg
	slack  int64 // how much later than usual things may happen
	jbt    int64
}

func analyse(w *World) *Analysis {
	a := &Analysis{w: w, sc: w.sc, cfg: w.sc.Cfg.withEnv(w.sc.Env), resps: map[*Req][]*Msg{}}
	a.jbt = int64(a.cfg.JBT) * ms
	if a.jbt == 0 {
		a.jbt = 200 * ms
	}
	a.slack = w.sim.StallNs + 50*ms
	// handling of control messages is sequential: slow ones hold up others
	slow := int64(0)
	for _, p := range w.pubs {
		slow += int64(p.spec.GatherMs+p.spec.JoinMs+p.spec.CloseMs) * ms
	}
	for _, f := range w.sim.FS.Faults {
		if f.Err == "SLOW" {
			slow += int64(f.Hits*f.Ms) * ms
		}
	}
	// (every message takes a connection, a request and a reply)
	slow += int64(w.sc.NetUs) * 4000 * int64(4+len(w.sc.Ops))
	a.slack += slow
	a.match()
	return a
}

// end of life of process n
func (a *Analysis) procEnd(n int) int64 {
	p := a.w.procs[n].P
	if p.Dead {
		return p.ExitAt
	}
	return a.w.endNs
}

func (a *Analysis) match() {
	w := a.w
	waiting := map[string][]*Req{}
	type key struct {
		proc int
		sid  string
	}
	live := map[key]*Rec{}
	ri := 0
	for _, m := range w.msgs {
		for ri < len(w.reqs) && w.reqs[ri].Seq < m.Seq {
			r := w.reqs[ri]
			ri++
			if r.Op.K == "start" && r.N > 0 {
				k := fmt.Sprint(r.Proc, "/", r.Op.Sid)
				waiting[k] = append(waiting[k], r)
			}
		}
		k := key{m.Proc, m.Sid}
		switch m.Id {
		case "startRecordingResponse":
			q := waiting[fmt.Sprint(m.Proc, "/", m.Sid)]
			var r *Req
			if m.Status == "ok" && m.SDP != nil && *m.SDP != "" {
				if p := w.pubOfAnswer(*m.SDP); p != nil {
					for i, x := range q {
						if x.Run == p {
							r = x
							waiting[fmt.Sprint(m.Proc, "/", m.Sid)] = append(append([]*Req(nil), q[:i]...), q[i+1:]...)
							break
						}
					}
				}
			}
			if r == nil && len(q) > 0 {
				r = q[0]
				waiting[fmt.Sprint(m.Proc, "/", m.Sid)] = q[1:]
			}
			if r == nil {
				if !a.rawSid(m.Sid) {
					a.extra = append(a.extra, m)
				}
				if m.Status != "ok" {
					continue
				}
			} else {
				a.resps[r] = append(a.resps[r], m)
				r.Resp = append(r.Resp, m)
			}
			if m.Status != "ok" {
				continue
			}
			rec := &Rec{sid: m.Sid, resp: m, req: r, proc: m.Proc, okAt: m.At}
			if m.FileName != nil {
				rec.file = *m.FileName
			}
			if r != nil {
				rec.pub = r.Run
			}
			// (the end of the first one may have got lost in an outage)
			if l := live[k]; l != nil && !w.inOutage(l.okAt, m.At) {
				w.fail("two_live_recordings", "session %q: a second recording was started (t=%dms) while the first one (t=%dms) was not reported stopped", m.Sid, m.At/ms, l.okAt/ms)
			}
			live[k] = rec
			a.recs = append(a.recs, rec)
		case "recordingRtpStatusChanged":
			if l := live[k]; l != nil {
				l.flows = append(l.flows, m)
			} else {
				a.strayF = append(a.strayF, m)
			}
		case "recordingStopped":
			if l := live[k]; l != nil {
				l.stop = m
				delete(live, k)
			} else {
				a.strayS = append(a.strayS, m)
			}
		case "recorderStatus":
			a.status = append(a.status, m)
		}
	}
	for _, r := range a.recs {
		a.causesOf(r)
	}
}

func (a *Analysis) rawSid(s string) bool {
	return strings.HasPrefix(s, "raw") || s == "" && a.w.counts["op.raw"] > 0
}

func (a *Analysis) causesOf(r *Rec) {
	w := a.w
	add := func(at int64, k string) { r.causes = append(r.causes, Cause{At: at, Kind: k}) }
	for _, q := range w.reqs {
		if q.Op.K == "stop" && q.Op.Sid == r.sid && q.N > 0 && q.Proc == r.proc && r.req != nil && q.Seq > r.req.Seq {
			// it may have ended an earlier recording of that id
			if r.stop == nil || q.Seq < r.stop.Seq {
				// a request that waits for its turn is lost with the connection
				r.causes = append(r.causes, Cause{q.At, "stop request", w.inOutage(q.At-100*ms, q.At+3000*ms+a.slack)})
			}
		}
	}
	if p := r.pub; p != nil {
		if p.iceEnd > 0 {
			add(p.iceEnd, "connection ended")
		}
		if p.kickAt > 0 {
			add(p.kickAt, "room disconnected")
		}
		if !r.lk() {
			for _, s := range p.sources() {
				if s.ended > 0 {
					// a track nothing was ever received of is unknown to the recorder
					seen := false
					for _, p := range s.pkts {
						seen = seen || p.FirstAt > 0
					}
					r.causes = append(r.causes, Cause{s.ended, "track ended", !seen})
				}
			}
		}
	}
	sort.SliceStable(r.causes, func(i, j int) bool { return r.causes[i].At < r.causes[j].At })
	r.endAt = a.procEnd(r.proc)
	if len(r.causes) > 0 && r.causes[0].At < r.endAt {
		r.endAt = r.causes[0].At
	}
	if r.stop != nil && r.stop.At < r.endAt {
		r.endAt = r.stop.At
	}
}

// ---- process ----

func (a *Analysis) checkAlive() {
	w := a.w
	for i, p := range w.procs {
		if p.P.Dead && !p.WorldKill && !p.WorldExit {
			if w.sim.Hang != "" {
				w.fail("hang", "the recorder does not make progress: %s (t=%dms)", w.sim.Hang, p.P.ExitAt/ms)
				continue
			}
			if w.noBroker(i) {
				continue
			}
			w.fail("process_died", "recorder process %d ended by itself at t=%dms: %s %s", i, p.P.ExitAt/ms, p.P.ExitWhy, short(p.P.Stack, 1500))
		}
	}
	if w.sim.Abort != "" {
		w.fail("step_limit", "the run did not end within the step limit: the recorder spins (%s)", w.sim.Abort)
	}
	if len(w.sim.Misuse) > 0 {
		w.fail("misuse", "%s", w.sim.Misuse[0])
	}
}

// ---- files ----

func (a *Analysis) webm(r *Rec) *WebM {
	if r.parsed {
		return r.web
	}
	r.parsed = true
	if r.file == "" || r.file == "/dev/null" {
		return nil
	}
	ino := a.w.sim.FS.Peek(r.file)
	if ino == nil || ino.ByWorld || ino.Created < r.req0() {
		return nil
	}
	for _, x := range a.recs {
		if x != r && x.file == r.file && x.okAt > r.okAt && ino.Created >= x.req0() && (r.stop != nil && r.stop.At <= ino.Created || x.proc != r.proc) {
			return nil // it is of a later recording
		}
	}
	r.web = parseWebM(ino.Data)
	return r.web
}

func (r *Rec) req0() int64 {
	if r.req != nil {
		return r.req.At
	}
	return 0
}

// diskHit says whether an injected disk fault may have hit this recording; one
// that hit nothing but the IVF copy doesn't count, unless it's slow.
func (a *Analysis) diskHit(r *Rec) bool {
	for _, f := range a.w.sim.FS.Faults {
		if strings.HasSuffix(f.Path, ".ivf") && f.Err != "SLOW" {
			continue
		}
		if f.Hits > 0 && (f.Path == "" || strings.Contains(r.file, f.Path) || strings.Contains(ivfOf(r.file), f.Path) || strings.Contains(path.Dir(r.file), f.Path)) {
			return true
		}
	}
	return false
}

// ivfHit says whether one may have hit its copy.
func (a *Analysis) ivfHit(r *Rec) bool {
	for _, f := range a.w.sim.FS.Faults {
		if f.Hits > 0 && strings.HasSuffix(f.Path, ".ivf") && strings.Contains(ivfOf(r.file), f.Path) {
			return true
		}
	}
	return a.diskHit(r)
}

func ivfOf(f string) string { return strings.TrimSuffix(f, path.Ext(f)) + ".ivf" }

// ---- truth about streams ----

// PInfo is what must have become of a packet.
type PInfo struct {
	ok  bool  // arrived within the reordering tolerance
	at  int64 // when it is handed to the recorder at the latest
	gap bool  // packets in front of it are lost
}

func (a *Analysis) packets(s *Source) []PInfo {
	if s.info != nil {
		return s.info
	}
	n := len(s.pkts)
	inf := make([]PInfo, n)
	s.info = inf
	if s.pub.room != nil {
		a.lkPackets(s)
		return inf
	}
	jbt := a.jbt
	size := a.cfg.JB
	if size == 0 {
		size = 512
	}
	tol := jbt
	if tol > 400*ms {
		tol = 400 * ms
	}
	tol -= 70*ms + a.w.sim.StallNs
	// time of the first delivery of any later packet
	later := make([]int64, n+1)
	later[n] = 1 << 62
	for i := n - 1; i >= 0; i-- {
		later[i] = later[i+1]
		if f := s.pkts[i].FirstAt; f > 0 && f < later[i] {
			later[i] = f
		}
	}
	// first packet that was delivered
	first := -1
	for i, p := range s.pkts {
		if p.FirstAt > 0 && (first < 0 || p.FirstAt < s.pkts[first].FirstAt) {
			first = i
		}
	}
	if first < 0 {
		return inf
	}
	for i := first; i < n; i++ {
		p := s.pkts[i]
		if p.FirstAt == 0 {
			continue
		}
		inf[i].ok = p.FirstAt <= later[i+1] || p.FirstAt <= later[i+1]+tol
		if inf[i].ok && p.FirstAt > later[i+1] {
			// how many overtook it?
			over := 0
			for j := i + 1; j < n && j <= i+2*size; j++ {
				if f := s.pkts[j].FirstAt; f > 0 && f <= p.FirstAt && s.pkts[j].SeqX-p.SeqX >= int64(size-8) {
					over++
				}
			}
			if over > 0 {
				inf[i].ok = false
			}
		}
	}
	// a jump by half the range of sequence numbers is one backwards
	back := false
	for i := first + 1; i < n; i++ {
		back = back || s.pkts[i].SeqX-s.pkts[i-1].SeqX >= 30000
		if back {
			inf[i].ok = false
		}
	}
	// large jumps drop what is held back
	maxX, maxAt := int64(-1), int64(0)
	for i := first; i < n; i++ {
		p := s.pkts[i]
		if !inf[i].ok {
			continue
		}
		if maxX >= 0 && p.SeqX-maxX >= int64(size-8) {
			for j := i - 1; j >= first; j-- {
				if s.pkts[j].FirstAt > 0 && s.pkts[j].FirstAt < p.FirstAt-jbt-200*ms-a.w.sim.StallNs {
					break
				}
				inf[j].ok = false
			}
		}
		maxX, maxAt = p.SeqX, p.FirstAt
	}
	_ = maxAt
	release := func() {
		var at, hold int64
		prev := s.pkts[first].SeqX
		lost := false
		for i := first; i < n; i++ {
			p := s.pkts[i]
			if p.SeqX != prev && p.SeqX != prev+1 {
				lost = true
				if i < n && later[i]+jbt+90*ms > hold {
					hold = later[i] + jbt + 90*ms
				}
			}
			prev = p.SeqX
			if !inf[i].ok {
				lost = true
				if later[i+1] < 1<<62 && later[i+1]+jbt+90*ms > hold {
					hold = later[i+1] + jbt + 90*ms
				}
				continue
			}
			if p.FirstAt > at {
				at = p.FirstAt
			}
			inf[i].at = at
			if hold > at {
				inf[i].at = hold
			}
			inf[i].gap = lost
			lost = false
		}
	}
	release()
	// the buffer only has so much room
	full := false
	for i := first; i < n; i++ {
		if !inf[i].ok {
			continue
		}
		for j := i + 1; j < n && s.pkts[j].SeqX-s.pkts[i].SeqX < int64(3*size); j++ {
			q := s.pkts[j]
			if q.SeqX-s.pkts[i].SeqX >= int64(size-8) && q.FirstAt > 0 && q.FirstAt <= inf[i].at+a.w.sim.StallNs {
				inf[i].ok, inf[i].at, inf[i].gap = false, 0, false
				full = true
				break
			}
		}
	}
	if full {
		release()
	}
	if first < n {
		inf[first].gap = true
	}
	return inf
}

// lkPackets: the jitter buffer of LiveKit tracks is a library's; what it hands over
// is computed by giving it the packets the recorder read.
func (a *Analysis) lkPackets(s *Source) {
	saved := simrt.W
	simrt.W = nil
	defer func() { simrt.W = saved }()
	var d rtp.Depacketizer = &codecs.OpusPacket{}
	if s.video {
		d = &codecs.VP8Packet{}
	}
	const latency = 200 * ms
	mk := func() *jitter.Buffer { return jitter.NewBuffer(d, uint32(s.clock()*1000), time.Duration(latency)) }
	b := mk()
	started, start := false, int64(-1)
	next := func(p *rtp.Packet) (out []*rtp.Packet, bad bool) {
		defer func() {
			if recover() != nil {
				out, bad = nil, true
			}
		}()
		b.Push(p)
		return b.Pop(false), false
	}
	var last *Pkt
	for _, it := range s.feed {
		var p rtp.Packet
		if p.Unmarshal(it.raw) != nil {
			continue
		}
		if start < 0 {
			start = it.at
		} else if !started {
			if e := it.at - start - latency; e < ms+a.w.sim.StallNs && e > -ms-a.w.sim.StallNs {
				s.vague = true
			}
			if it.at-start > latency && d.IsPartitionHead(p.Payload) {
				b = mk()
				start = it.at
			}
		}
		out, bad := next(&p)
		if bad {
			b = mk()
			started, start = false, -1
			a.w.count("lk.buffer_panic")
		}
		for _, q := range out {
			started = true
			k := s.bySeq[q.SequenceNumber]
			if k == nil || s.info[k.Ord].ok {
				continue
			}
			i := &s.info[k.Ord]
			i.ok, i.at, i.gap = true, it.at, last == nil || last.SeqX+1 != k.SeqX
			if i.gap && last != nil && last.SeqX < k.SeqX {
				// padding is not handed over
				i.gap = false
				for o := last.Ord + 1; o < k.Ord; o++ {
					if m := s.pkts[o]; m.Frame >= 0 || m.FirstAt == 0 || m.ReadAt == 0 || m.ReadAt > it.at {
						i.gap = true
					} else {
						s.info[o] = PInfo{ok: true, at: it.at}
					}
				}
				if k.Ord-last.Ord != int(k.SeqX-last.SeqX) {
					i.gap = true
				}
			}
			last = k
		}
	}
	if s.vague {
		for i := range s.info {
			s.info[i] = PInfo{}
		}
	}
}

// FInfo is what must have become of a frame.
type FInfo struct {
	must  bool
	at    int64
	whole bool
	waits bool // whole, but a key frame has to come first
}

// expect computes which frames have to be in the recording.
func (a *Analysis) expect(s *Source) []FInfo {
	w := a.w
	if s.finfo != nil {
		return s.finfo
	}
	inf := a.packets(s)
	out := make([]FInfo, len(s.frames))
	s.finfo = out
	waiting := true
	prevP1 := -1
	for i, f := range s.frames {
		whole := !f.Bad
		gap := false
		for k := prevP1 + 1; k <= f.P1; k++ {
			if k < f.P0 {
				// padding in front of the frame
				if !inf[k].ok || inf[k].gap {
					gap = true
				}
				continue
			}
			if !inf[k].ok || s.pub.room != nil && s.pkts[k].Frame < 0 {
				// (LiveKit: padding inside of a frame is not handed over)
				whole = false
			} else if inf[k].gap {
				if k == f.P0 {
					gap = true
				} else {
					whole = false
				}
			}
			if inf[k].at > out[i].at {
				out[i].at = inf[k].at
			}
		}
		// a frame may be given up if it takes more than 2 s to assemble
		if whole && out[i].at-s.pkts[f.P0].FirstAt > 1700*ms-w.sim.StallNs {
			whole = false
		}
		prevP1 = f.P1
		out[i].whole = whole
		if !whole || gap {
			waiting = true
		}
		if !whole {
			continue
		}
		if !s.video || f.Key {
			out[i].must = true
			waiting = false
		} else if !waiting {
			out[i].must = true
		} else {
			out[i].waits = true
		}
	}
	return out
}

// cutoff is until when media must be in the recording.
func (a *Analysis) cutoff(r *Rec) int64 {
	return r.endAt - 120*ms - a.w.sim.StallNs
}

func (a *Analysis) idx(p *PubRun) map[string]*Frame {
	if p.byData == nil {
		p.byData = map[string]*Frame{}
		for _, s := range p.sources() {
			if s.video {
				for _, f := range s.frames {
					p.byData[string(f.Data)] = f
				}
			}
		}
	}
	return p.byData
}

func (a *Analysis) aidx(p *PubRun) map[string]*Frame {
	if p.byAudio == nil {
		p.byAudio = map[string]*Frame{}
		if p.audio != nil {
			for _, f := range p.audio.frames {
				p.byAudio[string(f.Data)] = f
			}
		}
	}
	return p.byAudio
}

// mixed says whether an unknown block contains anything of a frame that was sent well-formed.
func mixed(s *Source, b []byte) *Frame {
	if s == nil {
		return nil
	}
	for _, f := range s.frames {
		if f.Bad {
			continue
		}
		for i := f.P0; i <= f.P1; i++ {
			p := s.pkts[i]
			if p.Frame != f.Idx {
				continue
			}
			// the last bytes of a packet are unique
			if len(p.Raw) < 30 {
				continue
			}
			t := p.Raw[len(p.Raw)-12:]
			if s.spec.PadBits && i%3 == 1 {
				t = p.Raw[len(p.Raw)-19 : len(p.Raw)-7]
			}
			if bytes.Contains(b, t) {
				return f
			}
		}
	}
	return nil
}

func (s *Source) hasBad() bool {
	if s == nil {
		return false
	}
	if s.injected > 0 {
		return true
	}
	for _, f := range s.frames {
		if f.Bad {
			return true
		}
	}
	return false
}

// hostile: the publisher itself sent something no sender would (a timestamp
// jump of one track also spoils the other track of the same file: the
// container interleaves them by time).
func (s *Source) hostile() bool {
	return s != nil && (s.hasBad() || len(s.spec.TSJumps) > 0)
}

// checkWebM: the file is well-formed.
func (a *Analysis) checkWebM(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || a.diskHit(r) {
		return
	}
	ino := w.sim.FS.Peek(r.file)
	if v.Err != "" {
		w.fail("malformed_file", "%s: %s (of %d bytes)", r.file, v.Err, len(ino.Data))
		return
	}
	if r.stop != nil && v.Truncated {
		w.fail("truncated_file", "%s was reported stopped but ends in an incomplete element", r.file)
	}
	if r.stop != nil && !v.HeaderOK && len(ino.Data) > 0 {
		w.fail("malformed_file", "%s has no complete header", r.file)
	}
	w.count("checked.file")
}

// checkIntegrity: C08 for one recording.
func (a *Analysis) checkIntegrity(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || v.Err != "" {
		return
	}
	m := a.idx(r.pub)
	last := -1
	for n, b := range v.of(1) {
		if r.pub.video == nil {
			w.fail("foreign_frame", "%s: video block %d (%d bytes, tc %d), but the publisher sent no video", r.file, n, len(b.Data), b.TC)
			return
		}
		f := m[string(b.Data)]
		if f == nil {
			if r.pub.video.injected > 0 {
				continue
			}
			if r.pub.video.hasBad() {
				if g := mixed(r.pub.video, b.Data); g != nil {
					w.fail("spliced_frame", "%s: video block %d (%d bytes) is not a frame that was sent but contains data of frame %d", r.file, n, len(b.Data), g.Idx)
				}
				continue
			}
			w.fail("foreign_frame", "%s: video block %d (%d bytes, tc %d) is no frame the publisher sent%s", r.file, n, len(b.Data), b.TC, a.nearest(r, b.Data))
			return
		}
		w.count("checked.frame")
		if b.Key != f.Key {
			w.fail("key_flag", "%s: video block %d is frame %d with key=%v but is flagged %v", r.file, n, f.Idx, f.Key, b.Key)
		}
		if r.pub.video.injected > 0 {
			// packets nobody sent may have taken the place of others
		} else if f.Idx == last {
			w.fail("repeated_frame", "%s: frame %d is recorded twice", r.file, f.Idx)
		} else if f.Idx < last {
			w.fail("frame_order", "%s: frame %d is recorded after frame %d", r.file, f.Idx, last)
		}
		last = f.Idx
	}
}

func (a *Analysis) nearest(r *Rec, b []byte) string {
	if r.pub.video == nil {
		return ""
	}
	var s []string
	for _, f := range r.pub.video.frames {
		for i := f.P0; i <= f.P1; i++ {
			raw := r.pub.video.pkts[i].Raw
			if len(raw) > 30 && bytes.Contains(b, raw[len(raw)-12:]) {
				s = append(s, fmt.Sprintf("%d", f.Idx))
				break
			}
		}
		if len(s) > 5 {
			break
		}
	}
	if len(s) == 0 {
		return ""
	}
	return " (it has data of frames " + strings.Join(s, ",") + ")"
}

// checkDecodable: C09 for one recording.
func (a *Analysis) checkDecodable(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || v.Err != "" {
		return
	}
	m := a.idx(r.pub)
	last := -1
	known := true
	for n, b := range v.of(1) {
		f := m[string(b.Data)]
		if f == nil {
			if r.pub.video.hasBad() {
				known = false
				continue
			}
			return
		}
		if f.Key {
			last, known = f.Idx, true
			continue
		}
		w.count("checked.delta")
		if n == 0 {
			w.fail("starts_with_delta", "%s: the first video block is frame %d, not a key frame", r.file, f.Idx)
		}
		if known && last >= 0 && f.Idx != last+1 {
			// frames that were malformed on purpose cannot be told from padding
			blind := false
			for i := last + 1; i < f.Idx && i < len(r.pub.video.frames); i++ {
				if r.pub.video.frames[i].Bad && r.pub.video.frames[i].Blind {
					blind = true
				}
			}
			if !blind {
				w.fail("missing_reference", "%s: delta frame %d follows frame %d: frame %d it depends on is not in the recording", r.file, f.Idx, last, f.Idx-1)
			}
		}
		last, known = f.Idx, true
	}
}

// checkComplete: what arrived is in the recording (C10 and others).
func (a *Analysis) checkComplete(r *Rec) {
	w := a.w
	if r.file == "/dev/null" || r.pub == nil || r.pub.video == nil || a.diskHit(r) || r.pub.video.injected > 0 {
		return
	}
	s := r.pub.video
	inf := a.expect(s)
	cut := a.cutoff(r)
	if !a.procQuiet(r) {
		return
	}
	v := a.webm(r)
	got := map[int]bool{}
	if v != nil {
		m := a.idx(r.pub)
		for _, b := range v.of(1) {
			if f := m[string(b.Data)]; f != nil {
				got[f.Idx] = true
			}
		}
	}
	for i, f := range s.frames {
		if !inf[i].must {
			continue
		}
		at := inf[i].at
		if a.cfg.Builtin {
			// the frame is known to be complete when the next one begins
			at = 1 << 62
			for j := i + 1; j < len(s.frames); j++ {
				if t := inf[j].at; inf[j].whole && t > 0 {
					at = t
					break
				}
			}
		}
		if at > cut {
			continue
		}
		w.count("checked.complete")
		if !got[f.Idx] {
			what := "the recording does not have it"
			if v == nil {
				what = "there is no file"
			}
			w.fail("missing_frame", "%s: frame %d (key=%v, sent at %dms) arrived completely by %dms and its references are recorded, but %s (recording ended at %dms)", r.file, f.Idx, f.Key, f.SentAt/ms, at/ms, what, r.endAt/ms)
			return
		}
	}
}

// procQuiet: the process of the recording was not killed before the recording was closed.
func (a *Analysis) procQuiet(r *Rec) bool { return r.stop != nil }

// checkTimes: C11 for one recording.
func (a *Analysis) checkTimes(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || v.Err != "" {
		return
	}
	m := a.idx(r.pub)
	var base, prev *Frame
	var baseTC int64
	for _, b := range v.of(1) {
		f := m[string(b.Data)]
		if f == nil {
			if r.pub.video.hasBad() {
				base = nil
			}
			continue
		}
		// RTP timestamps only say how much later a frame is, up to half their range
		if base == nil || f.TSx < prev.TSx || f.TSx-prev.TSx >= 1<<31 {
			base, baseTC, prev = f, b.TC, f
			continue
		}
		prev = f
		want := float64(f.TSx-base.TSx) / 90
		got := float64(b.TC - baseTC)
		w.count("checked.time")
		if got-want > 1.01 || want-got > 1.01 {
			w.fail("timestamp", "%s: frames %d and %d are %.1f ms apart by their RTP timestamps but %.0f ms in the recording", r.file, base.Idx, f.Idx, want, got)
			return
		}
	}
	am := a.aidx(r.pub)
	base, prev = nil, nil
	for _, b := range v.of(2) {
		f := am[string(b.Data)]
		if f == nil {
			base = nil
			continue
		}
		if base == nil || f.TSx < prev.TSx || f.TSx-prev.TSx >= 1<<31 {
			base, baseTC, prev = f, b.TC, f
			continue
		}
		prev = f
		want := float64(f.TSx-base.TSx) / 48
		got := float64(b.TC - baseTC)
		w.count("checked.audio_time")
		if got-want > 1.01 || want-got > 1.01 {
			w.fail("audio_timestamp", "%s: audio packets %d and %d are %.1f ms apart by their RTP timestamps but %.0f ms in the recording", r.file, base.Idx, f.Idx, want, got)
			return
		}
	}
	for _, typ := range []int{1, 2} {
		last := int64(-1 << 62)
		for i, b := range v.of(typ) {
			if b.TC < last {
				w.fail("time_backwards", "%s: timestamp of block %d of track type %d goes back from %d to %d ms", r.file, i, typ, last, b.TC)
				return
			}
			last = b.TC
		}
	}
}

// checkAudio: C12 for one recording.
func (a *Analysis) checkAudio(r *Rec, complete bool) {
	w := a.w
	if r.pub == nil || r.file == "/dev/null" {
		return
	}
	v := a.webm(r)
	s := r.pub.audio
	got := map[int]bool{}
	lastGot := -1
	if v != nil {
		if v.Err != "" {
			return
		}
		m := a.aidx(r.pub)
		last := -1
		for n, b := range v.of(2) {
			f := m[string(b.Data)]
			if f == nil {
				if s.hasBad() {
					continue
				}
				w.fail("foreign_audio", "%s: audio block %d (%d bytes) is no packet the publisher sent", r.file, n, len(b.Data))
				return
			}
			w.count("checked.audio")
			if f.Idx == last {
				w.fail("repeated_audio", "%s: audio packet %d is recorded twice", r.file, f.Idx)
			} else if f.Idx < last {
				w.fail("audio_order", "%s: audio packet %d is recorded after %d", r.file, f.Idx, last)
			}
			last = f.Idx
			lastGot = last
			got[f.Idx] = true
		}
	}
	_ = lastGot
	if !complete || s == nil || s.injected > 0 || a.diskHit(r) || r.stop == nil {
		return
	}
	cut := a.cutoff(r)
	inf := a.packets(s)
	// recording can start when the first packet arrives, or with the first key frame of the video
	from := int64(0)
	if r.pub.spec.Video != nil && !(r.lk() && r.pub.spec.Video.NotAsked) {
		from = 1 << 62
		if v != nil {
			m := a.idx(r.pub)
			for _, b := range v.of(1) {
				if f := m[string(b.Data)]; f != nil {
					if t, ok := r.pub.video.complete(f); ok {
						from = t + a.jbt + 150*ms + w.sim.StallNs
						if r.lk() {
							if fi := a.expect(r.pub.video); fi[f.Idx].at > from {
								from = fi[f.Idx].at + w.sim.StallNs + 20*ms
							}
						}
						if a.cfg.Builtin {
							fi := a.expect(r.pub.video)
							for j := f.Idx + 1; j < len(fi); j++ {
								if fi[j].at > 0 {
									if t := fi[j].at + a.jbt + 400*ms; t > from {
										from = t
									}
									break
								}
							}
						}
					}
					break
				}
			}
		}
	}
	// but not for ever
	t0, unwaited := int64(-1), 1<<30
	for i, f := range s.frames {
		if pi := inf[f.P0]; pi.ok && !f.Bad && from > pi.at && unwaited > i {
			if t0 < 0 {
				t0 = f.TSx
			}
			if f.TSx-t0 > 10100*48 {
				unwaited = i
				w.count("checked.audio_unwaited")
			}
		}
	}
	for _, f := range s.frames {
		pi := inf[f.P0]
		if !pi.ok || f.Bad || pi.at < from && f.Idx < unwaited {
			continue
		}
		at := pi.at
		if at > cut {
			continue
		}
		w.count("checked.audio_complete")
		if !got[f.Idx] {
			w.fail("missing_audio", "%s: audio packet %d (sent at %dms) arrived by %dms but is not in the recording (which ended at %dms, could start at %dms)", r.file, f.Idx, f.SentAt/ms, pi.at/ms, r.endAt/ms, from/ms)
			return
		}
	}
}

// checkSync: C25 for one recording. The recorder only knows when something
// arrives, so the tracks can be off by as much as arrivals are late, and by the
// distance of what is recorded around the point where the second one starts.
func (a *Analysis) checkSync(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || v.Err != "" || r.pub.video == nil || r.pub.audio == nil {
		return
	}
	if r.pub.video.hostile() || r.pub.audio.hostile() || a.diskHit(r) {
		return
	}
	type blk struct {
		f        *Frame
		tc       int64
		at, late int64
	}
	get := func(typ int, s *Source, m map[string]*Frame) (o []blk) {
		for _, b := range v.of(typ) {
			if f := m[string(b.Data)]; f != nil {
				t, ok := s.complete(f)
				if !ok {
					return nil
				}
				o = append(o, blk{f, b.TC, t, t - f.SentAt})
			}
		}
		return
	}
	vs, as := get(1, r.pub.video, a.idx(r.pub)), get(2, r.pub.audio, a.aidx(r.pub))
	if len(vs) == 0 || len(as) == 0 {
		return
	}
	x, y := vs, as // x starts first
	if vs[0].tc > as[0].tc || vs[0].tc == as[0].tc && vs[0].at > as[0].at {
		x, y = as, vs
	}
	y0 := y[0]
	// how far apart what is recorded of the first track is around the start of the second
	tol := 300*ms + a.jbt + w.sim.StallNs
	i := 0
	for i+1 < len(x) && x[i+1].tc <= y0.tc {
		i++
	}
	gap := int64(0)
	for j := i - 2; j <= i+3; j++ {
		if j > 0 && j < len(x) {
			if d := x[j].f.SentAt - x[j-1].f.SentAt; d > gap {
				gap = d
			}
		}
	}
	if d := y0.f.SentAt - x[len(x)-1].f.SentAt; d > gap {
		gap = d // the first one had ended
	}
	late := y0.late
	for j := i - 2; j <= i+3; j++ {
		if j >= 0 && j < len(x) && x[j].late > late {
			late = x[j].late
		}
	}
	off := (y0.tc-x[i].tc)*ms - (y0.f.SentAt - x[i].f.SentAt)
	if off < 0 {
		off = -off
	}
	w.count("checked.sync")
	if off > tol+gap+late {
		w.fail("out_of_sync", "%s: audio and video are off by %d ms: frame %d/%s recorded at %d ms was sent %d ms after %d, recorded at %d ms (tolerance %d ms)", r.file, off/ms, y0.f.Idx, map[bool]string{true: "video", false: "audio"}[y[0] == vs[0]], y0.tc, (y0.f.SentAt-x[i].f.SentAt)/ms, x[i].f.Idx, x[i].tc, (tol+gap+late)/ms)
	}
}

// lostAnswer tells if the response to the start of what m belongs to may have
// been lost with the broker.
func (a *Analysis) lostAnswer(m *Msg) bool {
	for _, q := range a.w.reqs {
		if q.Op.K == "start" && q.Op.Sid == m.Sid && q.Seq < m.Seq && q.N > 0 && len(q.Resp) == 0 && a.w.inOutage(q.At, m.At) {
			return true
		}
	}
	return false
}

// checkLifecycle: C03 (and what C02, C22 need of it).
func (a *Analysis) checkLifecycle() {
	w := a.w
	for _, m := range a.strayS {
		if a.rawSid(m.Sid) {
			continue
		}
		had := false
		for _, r := range a.recs {
			if r.sid == m.Sid && r.proc == m.Proc && r.stop != nil && r.stop.Seq < m.Seq {
				had = true
			}
		}
		if had {
			w.fail("stopped_twice", "recordingStopped for %q was published again at t=%dms", m.Sid, m.At/ms)
		} else if !w.inOutage(m.At-3000*ms-a.slack, m.At) && !a.lostAnswer(m) {
			w.fail("stopped_without_recording", "recordingStopped for %q at t=%dms, no recording of that id was reported started", m.Sid, m.At/ms)
		}
	}
	for _, m := range a.strayF {
		had := false
		for _, r := range a.recs {
			if r.sid == m.Sid && r.proc == m.Proc && r.stop != nil && r.stop.Seq < m.Seq {
				had = true
			}
		}
		if had {
			w.fail("event_after_stopped", "an event for %q was published at t=%dms after its recording was reported stopped: %s", m.Sid, m.At/ms, m.Raw)
		} else if !w.inOutage(m.At-3000*ms-a.slack, m.At) && !a.lostAnswer(m) {
			w.fail("event_without_recording", "an event for %q was published at t=%dms, no recording of that id was reported started: %s", m.Sid, m.At/ms, m.Raw)
		}
	}
	for _, r := range a.recs {
		if a.rawSid(r.sid) {
			continue
		}
		bound := a.slack + 1500*ms
		hard := -1
		for i, c := range r.causes {
			if !c.Soft {
				hard = i
				break
			}
		}
		// it may have ended while nothing could be published
		for i := 0; i < hard && r.stop == nil; i++ {
			if at := r.causes[i].At; w.inOutage(at-1000*ms, at+bound) {
				hard = -1
			}
		}
		if r.stop == nil {
			if hard >= 0 {
				c := r.causes[hard]
				if c.At < r.okAt {
					c.At = r.okAt
				}
				if c.At+bound < a.procEnd(r.proc) && !w.inOutage(c.At-1000*ms, c.At+bound) {
					w.fail("not_reported_stopped", "recording %q: %s at t=%dms, but no recordingStopped was published until t=%dms", r.sid, c.Kind, c.At/ms, a.procEnd(r.proc)/ms)
				}
			}
			continue
		}
		w.count("checked.stop")
		if len(r.causes) == 0 || r.causes[0].At > r.stop.At {
			w.fail("stopped_without_cause", "recording %q was reported stopped (%s) at t=%dms although nothing ended it", r.sid, r.stop.Reason, r.stop.At/ms)
			continue
		}
		if hard < 0 {
			continue
		}
		c := r.causes[hard]
		if c.At < r.okAt {
			c.At = r.okAt
		}
		if r.stop.At > c.At+bound && !w.inOutage(c.At-1000*ms, r.stop.At) {
			w.fail("stopped_late", "recording %q: %s at t=%dms, reported stopped only at t=%dms", r.sid, c.Kind, c.At/ms, r.stop.At/ms)
		}
	}
}

// checkFinal: the file was complete when its end was reported.
func (a *Analysis) checkFinal(r *Rec) {
	w := a.w
	if r.stop == nil || r.file == "" || r.file == "/dev/null" {
		return
	}
	final := w.snapFiles()
	for _, f := range []string{r.file, ivfOf(r.file)} {
		ino := w.sim.FS.Peek(f)
		if ino == nil || ino.ByWorld {
			continue
		}
		if ino.Created < r.req0() {
			continue
		}
		s, there := r.stop.Snap[f]
		fin := final[f]
		if ino.Created > r.stop.At || !there {
			w.fail("file_created_after_stopped", "%s appeared after its recording %q was reported stopped", f, r.sid)
			continue
		}
		if s.Opens > 0 {
			w.fail("not_closed_when_stopped", "%s was still open when its recording %q was reported stopped", f, r.sid)
		}
		if s.Hash != fin.Hash || s.Len != fin.Len {
			w.fail("written_after_stopped", "%s changed (%d -> %d bytes) after its recording %q was reported stopped", f, s.Len, fin.Len, r.sid)
		}
		w.count("checked.final")
	}
}

// checkSubstance: the file named in the response is where the media is.
func (a *Analysis) checkSubstance(r *Rec) {
	w := a.w
	if r.req == nil || r.resp.FileName == nil {
		return
	}
	for _, f := range w.sim.FS.List() {
		ino := w.sim.FS.Peek(f)
		if ino == nil || ino.ByWorld || !strings.HasSuffix(f, ".webm") || f == r.file || r.pub == nil {
			continue
		}
		other := false
		for _, x := range a.recs {
			if x.file == f && x != r {
				other = true
			}
		}
		if other {
			continue
		}
		v := parseWebM(ino.Data)
		m := a.idx(r.pub)
		for _, b := range v.of(1) {
			if m[string(b.Data)] != nil {
				w.fail("wrong_file_name", "the response for %q names %s but its media is in %s", r.sid, r.file, f)
				return
			}
		}
		ma := a.aidx(r.pub)
		for _, b := range v.of(2) {
			if ma[string(b.Data)] != nil {
				w.fail("wrong_file_name", "the response for %q names %s but its media is in %s", r.sid, r.file, f)
				return
			}
		}
	}
	// nothing but its own media is in there
	if v := a.webm(r); v != nil && v.Err == "" && r.pub != nil {
		for _, p := range w.pubs {
			if p == r.pub {
				continue
			}
			m, ma := a.idx(p), a.aidx(p)
			for _, b := range v.Blocks {
				if m[string(b.Data)] != nil || ma[string(b.Data)] != nil {
					w.fail("media_of_another", "%s of recording %q holds media of another recording", r.file, r.sid)
					return
				}
			}
		}
	}
}

// ---- start requests ----

type verdict int

const (
	vAny verdict = iota
	vOK
	vFail
)

// expectStart says what the answer to a start request has to be.
func (a *Analysis) expectStart(r *Req) (verdict, string) {
	w := a.w
	op := r.Op
	resp := r.Resp[0]
	if op.Sid == "" {
		return vFail, "it has no session id"
	}
	if r.HTTP != nil || len(w.hups) > 0 && r.Proc != 0 {
		return vAny, ""
	}
	// is the id in use?
	any := false
	for _, x := range a.recs {
		if x.sid != op.Sid || x.proc != r.Proc || x.resp == resp || x.resp.Seq > resp.Seq {
			continue
		}
		if x.stop != nil && x.stop.Seq < r.Seq {
			continue // free again before
		}
		// requests take effect in the order they are sent in
		freed := false
		for _, q := range w.reqs {
			if q.Op.K == "stop" && q.Op.Sid == op.Sid && q.N == 1 && x.req != nil && q.Seq > x.req.Seq && q.Seq < r.Seq && q.Proc == r.Proc {
				freed = true
			}
		}
		if freed {
			w.count("checked.reused")
			continue
		}
		ended := x.stop != nil && x.stop.Seq < resp.Seq
		for _, c := range x.causes {
			if c.At <= resp.At {
				ended = true
			}
		}
		if !ended {
			return vFail, "its session id is in use"
		}
		any = true
	}
	// responses and stop events may have been lost
	if w.inOutage(0, resp.At) {
		any = true
	}
	// a stop request, or the end of the room, may come while it is being served
	for _, q := range w.reqs {
		if q.Op.K == "stop" && q.Op.Sid == op.Sid && q.Seq > r.Seq && q.At <= resp.At {
			any = true
		}
	}
	if r.Run.kickAt != 0 && r.Run.kickAt <= resp.At {
		any = true
	}
	switch op.Adapter {
	case "livekit":
		if op.SDP == "noroom" || op.SDP == "notracks" || op.SDP == "noopts" {
			return vFail, "its options are incomplete"
		}
		p := r.Run.spec
		asked := 0
		for _, s := range []*Stream{p.Video, p.Audio} {
			if s != nil && !s.NotAsked {
				asked++
			}
		}
		if asked == 0 {
			return vFail, "it names no tracks"
		}
		if p.JoinErr {
			return vFail, "the room cannot be joined"
		}
		if p.SubErr {
			return vFail, "subscribing fails"
		}
	case "", "mediasoup":
		if !sdpValid(op.SDP) {
			return vFail, "its SDP is unusable (" + op.SDP + ")"
		}
		if r.Run.spec.PCErr != "" {
			if r.Run.spec.PCErr == "new" {
				// which request the failing call belongs to is clear only if no other one was being served
				alone := r.Run.fate == "newerr"
				for _, q := range w.reqs {
					if q != r && q.Op.K == "start" && q.N > 0 && q.At <= r.Run.fateAt && (len(q.Resp) == 0 || q.Resp[0].At >= r.Run.fateAt) {
						alone = false
					}
				}
				if alone {
					return vFail, "the peer connection fails"
				}
				any = true
			} else {
				return vFail, "the peer connection fails"
			}
		}
		for _, p := range w.pubs {
			if p != r.Run && p.fate == "newerr" && p.req != nil && p.req.At <= resp.At {
				any = true
			}
			if p != r.Run && p.spec.PCErr == "new" {
				any = true
			}
		}
	default:
		return vFail, "its adapter is unknown"
	}
	if r.Run.fate == "newerr" {
		any = true
	}
	// the file
	may, open := []*Cfg{a.cfg}, false
	if len(w.hups) > 0 {
		may, open = a.configs(r.At, resp.At)
	}
	if open || len(may) == 0 {
		return vAny, ""
	}
	v, why := a.expectFile(r, may[0])
	for _, c := range may[1:] {
		if x, _ := a.expectFile(r, c); x != v {
			return vAny, ""
		}
	}
	if v == vFail {
		return v, why
	}
	if any || v == vAny {
		return vAny, ""
	}
	return vOK, ""
}

func weird(f string) bool {
	return f == "" || strings.ContainsAny(f, "\x00") || strings.HasSuffix(f, "/") || len(f) > 200 || strings.Contains(f, "/./") || strings.HasPrefix(path.Base(f), ".")
}

func (a *Analysis) expectFile(r *Req, cfg *Cfg) (verdict, string) {
	w := a.w
	f := r.Op.File
	resp := r.Resp[0]
	for _, x := range w.sim.FS.Faults {
		if x.Hits > 0 && x.Err != "SLOW" && (x.Op == "stat" || x.Op == "mkdir" || x.Op == "any") {
			return vAny, ""
		}
	}
	if path.Ext(f) != ".webm" {
		return vFail, "its file name has no supported extension"
	}
	if cfg.DevNull {
		return vOK, ""
	}
	full := path.Clean(cfg.dir() + "/" + f)
	if !strings.HasPrefix(full, cfg.dir()+"/") {
		return vFail, "its file is outside of the recording directory"
	}
	if weird(f) || !modeOK(cfg.FileMode) || !modeOK(cfg.DirMode) {
		return vAny, ""
	}
	// a component of the path may be a file
	for d := path.Dir(full); len(d) > len(cfg.dir()); d = path.Dir(d) {
		if ino := w.sim.FS.Peek(d); ino != nil && !ino.IsDir() {
			return vAny, ""
		}
	}
	// does it exist, or is another recording going to write it?
	if ino := w.sim.FS.Peek(full); ino != nil {
		if ino.Created < r.At {
			return vFail, "its file exists already"
		}
		if ino.Created <= resp.At {
			return vAny, ""
		}
	}
	if ino := w.sim.FS.Peek(ivfOf(full)); ino != nil && cfg.IVF {
		return vAny, ""
	}
	for _, x := range a.recs {
		if x.proc != r.Proc || x.resp == resp || x.resp.Seq > resp.Seq || path.Clean(x.file) != full {
			continue
		}
		if x.stop != nil && x.stop.Seq < r.Seq {
			continue
		}
		if len(x.causes) == 0 || x.causes[0].At > resp.At {
			return vFail, "another recording is being written to its file"
		}
		return vAny, ""
	}
	return vOK, ""
}

func modeOK(s string) bool { return s == "" || len(s) == 4 && s[0] == '0' }

// checkResponses: C01.
func (a *Analysis) checkResponses(expectToo bool) {
	w := a.w
	for _, m := range a.extra {
		if !w.inOutage(m.At-3000*ms-a.slack, m.At) {
			w.fail("unrequested_response", "a startRecordingResponse for %q at t=%dms answers no request (or one answered before): %s", m.Sid, m.At/ms, short(m.Raw, 200))
		}
	}
	for _, r := range w.reqs {
		if r.Op.K != "start" || r.N == 0 {
			continue
		}
		if len(r.Resp) == 0 {
			bound := a.slack + 2500*ms
			if r.At+bound < a.procEnd(r.Proc) && !w.inOutage(r.At-1000*ms, r.At+bound) {
				w.fail("no_response", "start request for %q at t=%dms (op %d) was not answered until t=%dms", r.Op.Sid, r.At/ms, r.Idx, a.procEnd(r.Proc)/ms)
			}
			continue
		}
		if r.N > 1 {
			continue // delivered more than once
		}
		w.count("checked.response")
		m := r.Resp[0]
		a.checkTruth(r, m)
		if expectToo {
			v, why := a.expectStart(r)
			switch {
			case v == vOK && m.Status != "ok":
				w.fail("valid_start_refused", "start request for %q at t=%dms (op %d) is valid, but was refused: %s", r.Op.Sid, r.At/ms, r.Idx, str(m.Error))
			case v == vFail && m.Status == "ok":
				w.fail("bad_start_accepted", "start request for %q at t=%dms (op %d) cannot succeed (%s), but was answered ok", r.Op.Sid, r.At/ms, r.Idx, why)
			}
			if v != vAny {
				w.count("checked.verdict")
			}
		}
	}
}

func str(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func (a *Analysis) checkTruth(r *Req, m *Msg) {
	w := a.w
	switch m.Status {
	case "ok":
		if m.Error != nil && *m.Error != "" {
			w.fail("untruthful_response", "the response for %q is ok but has an error: %s", m.Sid, *m.Error)
		}
		if r.Op.Adapter != "livekit" {
			if str(m.SDP) == "" {
				w.fail("no_answer", "the response for %q is ok but has no SDP answer", m.Sid)
			} else if p := w.pubOfAnswer(*m.SDP); p != r.Run {
				w.fail("wrong_answer", "the SDP in the response for %q does not answer the offer of the request", m.Sid)
			} else if p.pc != nil && p.pc.Answer != "" && decodeAnswer(*m.SDP) != p.pc.Answer {
				w.fail("wrong_answer", "the SDP in the response for %q is not the local description", m.Sid)
			}
		}
		if str(m.FileName) == "" {
			w.fail("no_file_name", "the response for %q is ok but has no file name", m.Sid)
		} else if len(w.hups) == 0 {
			want := path.Clean(a.cfg.dir() + "/" + r.Op.File)
			if a.cfg.DevNull {
				want = "/dev/null"
			}
			if r.HTTP == nil && path.Clean(*m.FileName) != want {
				w.fail("wrong_file_name", "the response for %q names %s, requested was %s", m.Sid, *m.FileName, want)
			}
		}
	case "failed":
		if str(m.Error) == "" {
			w.fail("untruthful_response", "the response for %q is failed but has no error", m.Sid)
		}
		if str(m.SDP) != "" {
			w.fail("untruthful_response", "the response for %q is failed but has an SDP", m.Sid)
		}
	default:
		w.fail("untruthful_response", "the response for %q has status %q", m.Sid, m.Status)
	}
}

// ---- status ----

func (a *Analysis) checkStatus() {
	w := a.w
	for n := range w.procs {
		got, subs, asked := 0, 0, 0
		inst := ""
		for _, m := range a.status {
			if m.Proc != n {
				continue
			}
			got++
			if m.Inst == "" || m.Ver == "" {
				w.fail("status_incomplete", "recorderStatus without version or instance id: %s", m.Raw)
			}
			if inst != "" && m.Inst != inst {
				w.fail("instance_changed", "the instance id of a running process changed from %s to %s", inst, m.Inst)
			}
			inst = m.Inst
			w.count("checked.status")
		}
		for k := 0; k < n; k++ {
			for _, m := range a.status {
				if m.Proc == k && inst != "" && m.Inst == inst {
					w.count("same_instance_id_after_restart")
				}
			}
		}
		end := a.procEnd(n)
		margin := a.slack + 1000*ms
		maxWant, minWant := 0, 0
		for _, s := range w.subs {
			if s.Proc == n && s.Chan == w.chTo {
				subs++
				maxWant++
				if s.At+margin < end && !w.inOutage(s.At, s.At+margin) {
					minWant++
				}
			}
		}
		for _, r := range w.reqs {
			if r.Proc == n && r.Op.K == "status" && r.N > 0 {
				asked++
				maxWant += r.N
				if r.At+margin < end && !w.inOutage(r.At, r.At+margin) {
					minWant++
				}
			}
			if r.Proc == n && r.Op.K == "raw" && strings.Contains(r.Op.S, "getRecorderStatus") {
				maxWant += r.N
			}
		}
		if got < minWant {
			w.fail("status_missing", "%d recorderStatus messages for %d subscriptions and %d requests", got, subs, asked)
		}
		if got > maxWant {
			w.fail("status_surplus", "%d recorderStatus messages for %d subscriptions and %d requests", got, subs, asked)
		}
		// each within its time
		for _, s := range w.subs {
			if s.Proc != n || s.Chan != w.chTo || s.At+margin >= end || w.inOutage(s.At, s.At+margin) {
				continue
			}
			ok := false
			for _, m := range a.status {
				ok = ok || m.Proc == n && m.At >= s.At && m.At <= s.At+margin
			}
			if !ok {
				w.fail("not_announced", "the recorder subscribed at t=%dms but did not announce itself within %dms", s.At/ms, margin/ms)
			}
		}
		for _, r := range w.reqs {
			if r.Proc != n || r.Op.K != "status" || r.N == 0 || r.At+margin >= end || w.inOutage(r.At, r.At+margin) {
				continue
			}
			ok := false
			for _, m := range a.status {
				ok = ok || m.Proc == n && m.At >= r.At && m.At <= r.At+margin
			}
			if !ok {
				w.fail("status_unanswered", "getRecorderStatus at t=%dms was not answered within %dms", r.At/ms, margin/ms)
			}
		}
	}
}

// ---- gauge ----

func (a *Analysis) checkGauge() {
	w := a.w
	for _, g := range w.gauges {
		if g.Proc >= len(w.procs) || g.At+10*ms > a.procEnd(g.Proc) {
			continue
		}
		quiet := true
		from := g.At - 2000*ms - a.slack
		for _, r := range w.reqs {
			if (r.Op.K == "start" || r.Op.K == "stop") && r.At > from && r.At <= g.At+5*ms {
				quiet = false
			}
			if r.Op.K == "start" && r.N > 0 && r.Proc == g.Proc && r.At <= g.At && len(r.Resp) == 0 && !w.inOutage(r.At-1000*ms, r.At+3000*ms+a.slack) {
				quiet = false
			}
		}
		for _, m := range w.msgs {
			if m.Id != "recorderStatus" && m.Id != "recordingRtpStatusChanged" && m.At > from && m.At <= g.At+5*ms {
				quiet = false
			}
		}
		n := 0
		for _, r := range a.recs {
			if r.proc != g.Proc || r.okAt > g.At {
				continue
			}
			for _, c := range r.causes {
				if c.At > from && c.At <= g.At+5*ms {
					quiet = false
				}
			}
			if r.stop == nil || r.stop.At > g.At {
				n++
			}
		}
		if w.inOutage(0, g.At) {
			// events may have been lost: judge by causes
			n = 0
			for _, r := range a.recs {
				if r.proc != g.Proc || r.okAt > g.At || r.stop != nil && r.stop.At <= g.At {
					continue
				}
				running := true
				for _, c := range r.causes {
					if c.At <= g.At {
						if c.Soft {
							quiet = false
						}
						running = false
					}
				}
				if running {
					n++
				}
			}
			for _, r := range w.reqs {
				if r.Op.K == "start" && r.N > 0 && len(r.Resp) == 0 {
					quiet = false
				}
			}
		}
		if !quiet {
			continue
		}
		if !g.OK {
			w.fail("gauge_unavailable", "the session gauge could not be read at t=%dms", g.At/ms)
			continue
		}
		w.count("checked.gauge")
		if int(g.Val) != n {
			w.fail("gauge", "the session gauge is %v at t=%dms, %d recordings are running", g.Val, g.At/ms, n)
		}
	}
}

// ---- resources ----

func (a *Analysis) checkResources() {
	w := a.w
	pr := w.proc()
	n := len(w.procs) - 1
	if pr.P.Dead || !pr.BaseOK {
		return
	}
	quiet := w.endNs - 6000*ms - 2*a.slack
	for _, o := range w.outages {
		settle := 12000 * ms
		if o.Kind == "vanish" || o.Kind == "hang" || o.Kind == "stall" {
			settle = 90000 * ms // nobody notices before the next health check
		}
		if o.To+settle+2*a.slack > w.endNs {
			return
		}
	}
	for _, r := range w.reqs {
		if r.At > quiet {
			return
		}
		if r.Op.K == "start" && r.N > 0 && r.Proc == n && len(r.Resp) == 0 && w.inOutage(r.At-1000*ms, r.At+3000*ms+a.slack) {
			return // what was answered is lost: it might be running
		}
	}
	for _, r := range a.recs {
		if r.proc != n {
			continue
		}
		if r.stop == nil || r.stop.At > quiet {
			return
		}
	}
	for _, h := range w.https {
		// (an answer that doesn't come is waited for for some time)
		if h.At > quiet || !h.Res.Done && h.At+45000*ms > w.endNs {
			return
		}
	}
	w.count("checked.resources")
	for i, pc := range w.pcs.PCs {
		if pc.Proc == pr.P && !pc.Closed {
			w.fail("connection_leaked", "peer connection %d is still open although no recording is running", i)
		}
	}
	for _, r := range w.lk.Rooms {
		if r.Proc == pr.P && !r.Left && !r.Gone && r.Joined {
			w.fail("room_leaked", "the LiveKit room %q was not left although no recording is running (connection %d)", r.Info.RoomName, r.N)
		}
	}
	if f := pr.P.OpenFiles(); len(f) > 0 {
		w.fail("file_leaked", "files are still open although no recording is running: %v", f)
	}
	cur := siteCount(pr.P)
	for _, k := range keysOf(cur) {
		if cur[k] > pr.Base[k] {
			w.fail("goroutine_leaked", "%d goroutines started at %s are still there although no recording is running (%d when the process was idle)", cur[k], k, pr.Base[k])
		}
	}
	open := 0
	for _, bc := range w.broker.conns {
		if bc.c.Owner() == pr.P && bc.c.IsOpen() {
			open++
		}
	}
	need := 1
	if a.cfg.HTTP {
		need = 2
	}
	if open > need {
		w.fail("broker_connection_leaked", "%d connections to the broker are open although no recording is running (%d are subscribed)", open, need)
	}
	if t := pr.P.Timers(); len(t) > pr.BaseTimers {
		w.fail("timer_leaked", "timers are still running although no recording is: %v", t)
	}
}

var _ = simrt.NewRng
