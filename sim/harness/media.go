package main

import (
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3"

	"simrt"
)

const ms = int64(1000000)

// Frame is one frame (or Opus packet) a publisher sent: the ground truth.
type Frame struct {
	Idx    int
	TS     uint32
	TSx    int64 // unwrapped
	Key    bool
	Data   []byte
	SentAt int64
	P0, P1 int  // packet ordinals
	Bad    bool // was sent malformed on purpose
	W, H   int
	PID    uint16
	Blind  bool // malformed in a way that looks like padding
}

// Pkt is one RTP packet of a stream.
type Pkt struct {
	Ord     int
	Seq     uint16
	SeqX    int64
	Frame   int // -1 padding
	Raw     []byte
	SentAt  int64
	FirstAt int64 // first delivery to the recorder's receive queue
	Deliv   int
	Sends   int
	Lost    int // remaining transmissions to lose
	ReadAt  int64
	Nacks   int
	NackAt  []int64
	Bad     bool
	Delayed int
}

// Source is a running stream.
type Source struct {
	w         *World
	pub       *PubRun
	spec      *Stream
	video     bool
	rng       *simrt.Rng
	track     *simrt_Track
	frames    []*Frame
	pkts      []*Pkt
	bySeq     map[uint16]*Pkt
	seq       int64
	tsx       int64
	wantKey   bool
	keyAt     int64
	started   int64
	stopped   bool
	lastFwd   int64
	plis      []int64
	nackMsgs  []NackRec
	fates     map[int][]Fate
	tsAdd     int64
	pidNext   uint16
	tl0       uint8
	pliSched  bool
	lastKeyAt int64
	ended     int64
	info      []PInfo
	finfo     []FInfo
	injected  int
	vague     bool
	frozen    int64 // the network holds packets back until then
	held      int64
	feed      []feedItem // what the recorder read (LiveKit)
}

type feedItem struct {
	at  int64
	raw []byte
}

type NackRec struct {
	At   int64
	Seqs []uint16
	Pkts []*Pkt // the last packets sent with these numbers
}

type simrt_Track = webrtc.SimTrack

func newSource(w *World, p *PubRun, st *Stream, video bool) *Source {
	s := &Source{w: w, pub: p, spec: st, video: video, rng: simrt.NewRng(st.Seed), bySeq: map[uint16]*Pkt{}, fates: map[int][]Fate{}}
	for _, f := range st.Fates {
		s.fates[f.P] = append(s.fates[f.P], f)
	}
	s.seq = int64(st.Seq0)
	s.tsx = int64(st.TS0)
	s.pidNext = st.PID0
	return s
}

func (s *Source) clock() int64 {
	if s.video {
		return 90
	}
	return 48
}

// begin starts sending; t0 is the time the connection came up.
func (s *Source) begin(t0 int64) {
	st := s.spec
	s.started = t0 + int64(st.StartMs)*ms
	first := st.FirstKey == 0
	s.wantKey = first
	n := 0
	var tick func()
	next := func(after int64) int64 {
		t := after + int64(st.FrameMs)*ms
		for _, p := range st.Pauses {
			a, b := t0+int64(p[0])*ms, t0+int64(p[1])*ms
			if t >= a && t < b {
				t = b
			}
		}
		return t
	}
	tick = func() {
		now := s.w.sim.Now()
		if s.stopped || s.pub.down() {
			return
		}
		if now > t0+int64(st.StopMs)*ms {
			return
		}
		s.emit(n, now, t0)
		n++
		s.w.sim.At(next(now), tick)
	}
	s.w.sim.At(s.started, tick)
	if st.EndMs > 0 {
		s.w.sim.At(t0+int64(st.EndMs)*ms, func() { s.end() })
	}
}

func (s *Source) end() {
	if s.stopped {
		return
	}
	s.stopped = true
	s.ended = s.w.sim.Now()
	if s.track != nil {
		s.track.End()
	}
	s.w.tracef("pub%d %s track ended", s.pub.idx, s.kind())
}

func (s *Source) kind() string {
	if s.video {
		return "video"
	}
	return "audio"
}

func (s *Source) emit(n int, now, t0 int64) {
	st := s.spec
	// media time follows the sending time, plus configured jumps
	for _, j := range st.TSJumps {
		if j[0] == n {
			s.tsAdd += int64(j[1]) * s.clock()
		}
	}
	tsx := int64(st.TS0) + (now-s.started)/ms*s.clock() + s.tsAdd
	f := &Frame{Idx: n, TSx: tsx, TS: uint32(tsx), SentAt: now}
	if s.video {
		f.Key = s.wantKey && n >= st.FirstKey
		if st.KeyEvery > 0 && n >= st.FirstKey && (n-st.FirstKey)%st.KeyEvery == 0 {
			f.Key = true
		}
		if n == st.FirstKey && st.FirstKey >= 0 {
			f.Key = true
		}
		if f.Key {
			s.wantKey = false
			s.lastKeyAt = now
		}
		s.fillVideo(f)
	} else {
		s.fillAudio(f)
	}
	s.frames = append(s.frames, f)
	s.packetize(f)
}

func (s *Source) size() int {
	st := s.spec
	if st.MaxSz <= st.MinSz {
		return st.MinSz
	}
	return s.rng.Range(st.MinSz, st.MaxSz)
}

// fillVideo makes a unique VP8 frame: a valid frame header followed by unique bytes.
func (s *Source) fillVideo(f *Frame) {
	n := s.size()
	hdr := 3
	if f.Key {
		hdr = 10
		if s.spec.MaxSz > 40 {
			n += s.spec.MaxSz
		}
	}
	if f.Key && s.spec.KeySz > 0 {
		n = s.spec.KeySz
	}
	if n < hdr+7 {
		n = hdr + 7
	}
	b := make([]byte, n)
	part := n - hdr
	if part > 7 {
		part = 7
	}
	tag := uint32(part)<<5 | 1<<4
	if !f.Key {
		tag |= 1
	}
	b[0], b[1], b[2] = byte(tag), byte(tag>>8), byte(tag>>16)
	if f.Key {
		b[3], b[4], b[5] = 0x9d, 0x01, 0x2a
		f.W, f.H = 320+int(s.spec.Seed%7)*16, 240+int(s.spec.Seed%5)*16
		if s.spec.W > 0 {
			f.W, f.H = s.spec.W, s.spec.H
		}
		// the upper two bits ask for upscaling when it is shown
		binary.LittleEndian.PutUint16(b[6:], uint16(f.W|s.spec.Scale&3<<14))
		binary.LittleEndian.PutUint16(b[8:], uint16(f.H|s.spec.Scale>>2&3<<14))
	}
	binary.BigEndian.PutUint16(b[hdr:], uint16(s.pub.uid))
	binary.BigEndian.PutUint32(b[hdr+2:], uint32(f.Idx))
	for i := hdr + 6; i < n; i++ {
		b[i] = byte(s.rng.U64())
	}
	f.Data = b
}

func (s *Source) fillAudio(f *Frame) {
	if d := s.spec.DTX; d > 0 && f.Idx/d%2 == 1 {
		// silence
		f.Data = []byte{byte(s.pub.uid), byte(f.Idx >> 8), byte(f.Idx)}
		return
	}
	n := s.size()
	if n < 8 {
		n = 8
	}
	b := make([]byte, n)
	b[0] = 0x78 // 20 ms, stereo off
	b[1] = byte(s.pub.uid)
	binary.BigEndian.PutUint32(b[2:], uint32(f.Idx))
	for i := 6; i < n; i++ {
		b[i] = byte(s.rng.U64())
	}
	f.Data = b
}

func (s *Source) descriptor(f *Frame, start bool, part int) []byte {
	st := s.spec
	var d []byte
	b0 := byte(part & 7)
	if start {
		b0 |= 0x10
	}
	if st.PIDMode == 0 && !st.TL0 {
		return []byte{b0}
	}
	b0 |= 0x80
	var x byte
	if st.PIDMode != 0 {
		x |= 0x80
	}
	if st.TL0 {
		x |= 0x40 | 0x20
	}
	d = append(d, b0, x)
	switch st.PIDMode {
	case 7:
		d = append(d, byte(f.PID&0x7f))
	case 15:
		d = append(d, 0x80|byte(f.PID>>8&0x7f), byte(f.PID))
	}
	if st.TL0 {
		d = append(d, s.tl0, byte(f.Idx%2)<<6)
	}
	return d
}

func (s *Source) packetize(f *Frame) {
	st := s.spec
	pkt := st.PktSz
	if pkt == 0 {
		pkt = 1000
	}
	f.P0 = len(s.pkts)
	if !s.video {
		s.addFates()
		f.P0 = len(s.pkts)
		s.send(f, f.Data, false)
		f.P1 = len(s.pkts) - 1
		return
	}
	f.PID = s.pidNext
	s.pidNext++
	if st.PIDMode == 7 {
		s.pidNext &= 0x7f
	} else {
		s.pidNext &= 0x7fff
	}
	s.tl0++
	first := true
	part := 0
	for off := 0; off < len(f.Data); {
		n := len(f.Data) - off
		if n > pkt {
			n = pkt
		}
		s.addFates()
		if first {
			f.P0 = len(s.pkts)
		}
		start := first
		if !first && st.Parts && part < 7 && off > 0 {
			part++
			start = true
		}
		pl := append(append([]byte(nil), s.descriptor(f, start, part)...), f.Data[off:off+n]...)
		off += n
		s.send(f, pl, off >= len(f.Data))
		first = false
	}
	f.P1 = len(s.pkts) - 1
}

// addFates applies the fates that put something in front of the next packet.
func (s *Source) addFates() {
	for _, ft := range s.fates[len(s.pkts)] {
		switch ft.K {
		case "pad":
			for i := 0; i < ft.N; i++ {
				s.sendPad()
			}
		case "freeze":
			s.frozen = s.w.sim.Now() + int64(ft.N)*ms
			s.w.count("media.freeze")
		case "seqjump":
			s.seq += int64(ft.N)
			s.w.count("media.seqjump")
		}
	}
}

func (s *Source) pt() uint8 {
	if s.spec.PT != 0 {
		return uint8(s.spec.PT)
	}
	if s.video {
		return 96
	}
	return 111
}

func (s *Source) sendPad() {
	ts := s.spec.TS0
	if n := len(s.frames); n > 0 {
		ts = s.frames[n-1].TS
	}
	h := rtp.Packet{Header: rtp.Header{Version: 2, Padding: true, PayloadType: s.pt(), SequenceNumber: uint16(s.seq), Timestamp: ts, SSRC: s.spec.SSRC}, PaddingSize: 32}
	raw, err := h.Marshal()
	if err != nil {
		panic(err)
	}
	p := &Pkt{Ord: len(s.pkts), Seq: uint16(s.seq), SeqX: s.seq, Frame: -1, Raw: raw}
	s.seq++
	s.pkts = append(s.pkts, p)
	s.bySeq[p.Seq] = p
	s.w.count("media.padding")
	s.transmit(p, 0)
}

func (s *Source) send(f *Frame, payload []byte, marker bool) {
	ord := len(s.pkts)
	p := &Pkt{Ord: ord, Seq: uint16(s.seq), SeqX: s.seq, Frame: f.Idx}
	var delay int64
	var dups []int64
	for _, ft := range s.fates[ord] {
		switch ft.K {
		case "drop":
			n := ft.N
			if n == 0 {
				n = 1
			}
			p.Lost = n
		case "delay":
			delay += int64(ft.N) * ms
			p.Delayed = ft.N
			s.w.count("media.delay")
		case "dup":
			dups = append(dups, int64(ft.N)*ms)
		case "bad":
			payload, marker = badPayload(payload, marker, ft.N, s.rng)
			f.Bad = true
			p.Bad = true
			if ft.N%16 == 0 {
				f.Blind = true
			}
			s.w.count("media.malformed")
		}
	}
	hdr := rtp.Header{Version: 2, Marker: marker && s.video, PayloadType: s.pt(), SequenceNumber: p.Seq, Timestamp: f.TS, SSRC: s.spec.SSRC}
	pk := rtp.Packet{Header: hdr, Payload: payload}
	if s.spec.PadBits && ord%3 == 1 {
		pk.Header.Padding = true
		pk.PaddingSize = 7
	}
	raw, err := pk.Marshal()
	if err != nil {
		panic(err)
	}
	p.Raw = raw
	s.seq++
	s.pkts = append(s.pkts, p)
	s.bySeq[p.Seq] = p
	if s.spec.JitterMs > 0 {
		delay += int64(s.rng.Intn(s.spec.JitterMs*1000)) * 1000
	}
	s.transmit(p, delay)
	for _, d := range dups {
		s.w.count("media.dup")
		s.transmit(p, delay+d)
	}
}

// transmit puts a packet on the network.
func (s *Source) transmit(p *Pkt, extra int64) {
	now := s.w.sim.Now()
	if p.SentAt == 0 {
		p.SentAt = now
	}
	p.Sends++
	if p.Lost > 0 {
		p.Lost--
		s.w.count("media.loss")
		return
	}
	if now < s.frozen && now+extra < s.frozen {
		extra = s.frozen - now + s.held*20000
		s.held++
		p.Delayed = int(extra / ms)
	} else if now >= s.frozen {
		s.held = 0
	}
	s.w.sim.After(int64(s.spec.LagMs)*ms+extra, func() { s.deliver(p) })
}

func (s *Source) deliver(p *Pkt) {
	if s.track == nil || s.track.Ended() || s.pub.down() {
		return
	}
	if s.track.Deliver(p.Raw) {
		p.Deliv++
		s.w.count("media.delivered")
		if p.FirstAt == 0 {
			p.FirstAt = s.w.sim.Now()
		}
	}
}

// rtcp handles feedback for this stream.
func (s *Source) pli() {
	now := s.w.sim.Now()
	s.plis = append(s.plis, now)
	s.w.count("rtcp.pli")
	if s.spec.PLIMs < 0 || s.pliSched {
		return
	}
	s.pliSched = true
	s.w.sim.After(int64(s.pub.spec.RTTMs/2+s.spec.PLIMs)*ms, func() { s.pliSched = false; s.wantKey = true })
}

func (s *Source) nack(seqs []uint16) {
	now := s.w.sim.Now()
	rec := NackRec{At: now, Seqs: seqs}
	for _, q := range seqs {
		rec.Pkts = append(rec.Pkts, s.bySeq[q])
	}
	s.nackMsgs = append(s.nackMsgs, rec)
	s.w.count("rtcp.nack")
	for _, p := range rec.Pkts {
		p := p
		if p == nil {
			continue
		}
		p.Nacks++
		p.NackAt = append(p.NackAt, now)
		if s.spec.RTX && now-p.SentAt < 5000*ms {
			s.w.sim.After(int64(s.pub.spec.RTTMs/2)*ms, func() {
				s.w.count("media.rtx")
				s.transmit(p, 0)
			})
		}
	}
}

func nackSeqs(n *rtcp.TransportLayerNack) (out []uint16) {
	for _, pr := range n.Nacks {
		out = append(out, pr.PacketID)
		for i := 0; i < 16; i++ {
			if pr.LostPackets&(1<<i) != 0 {
				out = append(out, pr.PacketID+uint16(i)+1)
			}
		}
	}
	return
}

// complete reports whether every packet of the frame was delivered, and when the last one was.
func (s *Source) complete(f *Frame) (int64, bool) {
	if f.Bad {
		return 0, false
	}
	var t int64
	for i := f.P0; i <= f.P1; i++ {
		p := s.pkts[i]
		if p.Frame != f.Idx {
			continue
		}
		if p.FirstAt == 0 {
			return 0, false
		}
		if p.FirstAt > t {
			t = p.FirstAt
		}
	}
	return t, true
}

// badPayload mangles a payload.
func badPayload(pl []byte, marker bool, n int, r *simrt.Rng) ([]byte, bool) {
	switch n % 16 {
	case 0:
		return nil, marker
	case 1:
		return pl[:1], marker
	case 2:
		return []byte{0x90}, marker // X bit, nothing follows
	case 3:
		return []byte{0x90, 0x80}, marker // picture id announced, missing
	case 4:
		return []byte{0x90, 0x80, 0x80}, marker // 15 bit picture id cut short
	case 5:
		return []byte{0x90, 0xf0, 0x80, 0x01}, marker
	case 6:
		return []byte{0x10}, true // start of frame without payload
	case 7:
		return []byte{0x10, 0x00, 0x00, 0x00, 0x9d}, true // key frame header cut short
	case 8:
		return []byte{0x10, 0x10, 0x02, 0x00, 0x9d, 0x01, 0x2a, 0x40}, true
	case 9:
		b := make([]byte, 1+r.Intn(20))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b, r.P(0.5)
	case 10:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, true
	case 11:
		return []byte{0x00}, true
	case 12:
		return pl, !marker
	case 13:
		b := append([]byte(nil), pl...)
		if len(b) > 1 {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
		return b, marker
	case 14:
		return []byte{0x90, 0xe0, 0x80, 0x01, 0x05}, true
	default:
		return []byte{0x10, 0x00}, true
	}
}

func sortedInts(m map[int]bool) (o []int) {
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return
}

var _ = fmt.Sprint
