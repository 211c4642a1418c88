package webrtc

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/pion/interceptor"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/webrtc/v3/pkg/rtcerr"

	"simrt"
)

// This file replaces the network-facing half of pion's PeerConnection. What remains real: SDP parsing and the
// checks of SetRemoteDescription, MediaEngine, SettingEngine, the types, RTP parsing of received packets.

// SimHooks is what the simulated world decides about peer connections.
type SimHooks struct {
	NewErr      func() error           // error of NewPeerConnection
	SetLocalErr func(*SimPC) error     // error of SetLocalDescription
	GatherDelay func(*SimPC) int64     // nanoseconds until candidates are gathered
	CloseDelay  func(*SimPC) int64     // nanoseconds until Close is reported by the state callback
	OnNew       func(*SimPC)
	OnAnswer    func(*SimPC)
	OnRTCP      func(*SimPC, []rtcp.Packet)
	OnClosed    func(*SimPC)
	PCs         []*SimPC
}

// SimPC is the world's side of one PeerConnection.
type SimPC struct {
	PC      *PeerConnection
	Proc    *simrt.Proc
	N       int
	Offer   string
	Answer  string
	Remote  *SessionDescription
	Local   *SessionDescription
	Closed  bool
	ClosedAt int64
	gather  chan struct{}
	gathered bool
	gathering bool
	Tracks  []*SimTrack
	trs     []*RTPTransceiver
	stateQ  []ICEConnectionState
	drain   bool
	UserData any
	Ports   [2]uint16 // local ports it may use
	ICE     []ICEServer
}

type simKey struct{}

func SimWorld() *SimHooks {
	w := simrt.W
	if h, ok := w.Ext[simKey{}].(*SimHooks); ok {
		return h
	}
	h := &SimHooks{}
	w.Ext[simKey{}] = h
	return h
}

func (pc *PeerConnection) sim() *SimPC {
	s, _ := simrt.W.Ext[pc].(*SimPC)
	if s == nil {
		panic("PeerConnection was not created by the simulation")
	}
	return s
}

func (api *API) NewPeerConnection(configuration Configuration) (*PeerConnection, error) {
	w := simrt.W
	simrt.Point()
	h := SimWorld()
	s := &SimPC{Proc: simrt.CurG().Proc, N: len(h.PCs)}
	pc := &PeerConnection{isClosed: &atomicBool{}, isNegotiationNeeded: &atomicBool{}, api: api, configuration: configuration,
		signalingState: SignalingStateStable, greaterMid: -1,
		statsID: fmt.Sprintf("PeerConnection-%d", s.N), log: api.settingEngine.LoggerFactory.NewLogger("pc")}
	pc.iceConnectionState.Store(ICEConnectionStateNew)
	pc.connectionState.Store(PeerConnectionStateNew)
	for _, server := range configuration.getICEServers() {
		if err := server.validate(); err != nil {
			return nil, err
		}
	}
	if h.NewErr != nil {
		if err := h.NewErr(); err != nil {
			return nil, err
		}
	}
	s.PC = pc
	s.Ports = [2]uint16{api.settingEngine.ephemeralUDP.PortMin, api.settingEngine.ephemeralUDP.PortMax}
	s.ICE = configuration.ICEServers
	s.gather = make(chan struct{})
	w.Ext[pc] = s
	h.PCs = append(h.PCs, s)
	if h.OnNew != nil {
		h.OnNew(s)
	}
	return pc, nil
}

func (pc *PeerConnection) AddTransceiverFromKind(kind RTPCodecType, init ...RTPTransceiverInit) (t *RTPTransceiver, err error) {
	simrt.Point()
	if pc.isClosed.get() {
		return nil, &rtcerr.InvalidStateError{Err: ErrConnectionClosed}
	}
	dir := RTPTransceiverDirectionSendrecv
	if len(init) == 1 {
		dir = init[0].Direction
	}
	t = &RTPTransceiver{kind: kind, api: pc.api}
	t.receiver.Store(pc.newReceiver(kind))
	t.setDirection(dir)
	t.setCurrentDirection(RTPTransceiverDirection(Unknown))
	s := pc.sim()
	s.trs = append(s.trs, t)
	pc.rtpTransceivers = append(pc.rtpTransceivers, t)
	return t, nil
}

func (pc *PeerConnection) newReceiver(kind RTPCodecType) *RTPReceiver {
	return &RTPReceiver{kind: kind, api: pc.api, closed: make(chan interface{}), received: make(chan interface{})}
}

func (pc *PeerConnection) SetRemoteDescription(desc SessionDescription) error {
	simrt.Point()
	if pc.isClosed.get() {
		return &rtcerr.InvalidStateError{Err: ErrConnectionClosed}
	}
	s := pc.sim()
	if _, err := desc.Unmarshal(); err != nil {
		return err
	}
	if desc.Type != SDPTypeOffer {
		return &rtcerr.InvalidModificationError{Err: fmt.Errorf("unexpected description type %s", desc.Type)}
	}
	for _, m := range desc.parsed.MediaDescriptions {
		if getMidValue(m) == "" {
			return errPeerConnRemoteDescriptionWithoutMidValue
		}
	}
	if _, _, _, err := extractICEDetails(desc.parsed, pc.log); err != nil {
		return err
	}
	if _, _, err := extractFingerprint(desc.parsed); err != nil {
		return err
	}
	s.Remote = &desc
	s.Offer = desc.SDP
	pc.signalingState.Set(SignalingStateHaveRemoteOffer)
	return nil
}

func (pc *PeerConnection) CreateAnswer(*AnswerOptions) (SessionDescription, error) {
	simrt.Point()
	s := pc.sim()
	switch {
	case s.Remote == nil:
		return SessionDescription{}, &rtcerr.InvalidStateError{Err: ErrNoRemoteDescription}
	case pc.isClosed.get():
		return SessionDescription{}, &rtcerr.InvalidStateError{Err: ErrConnectionClosed}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "v=0\r\no=- %d 2 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\na=fingerprint:sha-256 %s\r\na=simpc:%d\r\na=group:BUNDLE",
		1000+s.N, strings.TrimSuffix(strings.Repeat("AB:", 32), ":"), s.N)
	for _, m := range s.Remote.parsed.MediaDescriptions {
		fmt.Fprintf(&b, " %s", getMidValue(m))
	}
	b.WriteString("\r\n")
	for _, m := range s.Remote.parsed.MediaDescriptions {
		pt := "96"
		cod := "VP8/90000"
		if m.MediaName.Media == "audio" {
			pt, cod = "111", "opus/48000/2"
		}
		fmt.Fprintf(&b, "m=%s 9 UDP/TLS/RTP/SAVPF %s\r\nc=IN IP4 0.0.0.0\r\na=setup:active\r\na=mid:%s\r\na=ice-ufrag:sim%d\r\na=ice-pwd:simpasswordsimpasswordsim%d\r\na=rtcp-mux\r\na=rtpmap:%s %s\r\na=recvonly\r\n",
			m.MediaName.Media, pt, getMidValue(m), s.N, s.N, pt, cod)
	}
	return SessionDescription{Type: SDPTypeAnswer, SDP: b.String()}, nil
}

func (pc *PeerConnection) CreateOffer(*OfferOptions) (SessionDescription, error) {
	return SessionDescription{}, errors.New("not simulated: CreateOffer")
}

func (pc *PeerConnection) SetLocalDescription(desc SessionDescription) error {
	simrt.Point()
	s := pc.sim()
	h := SimWorld()
	if pc.isClosed.get() {
		return &rtcerr.InvalidStateError{Err: ErrConnectionClosed}
	}
	if h.SetLocalErr != nil {
		if err := h.SetLocalErr(s); err != nil {
			return err
		}
	}
	s.Local = &desc
	// The candidates become part of the description as they are found
	full := desc
	full.SDP = strings.ReplaceAll(desc.SDP, "a=rtcp-mux\r\n", fmt.Sprintf("a=rtcp-mux\r\na=candidate:1 1 udp 2130706431 10.0.0.1 %d typ host\r\na=end-of-candidates\r\n", 20000+s.N))
	s.Answer = full.SDP
	pc.signalingState.Set(SignalingStateStable)
	s.gathering = true
	d := int64(0)
	if h.GatherDelay != nil {
		d = h.GatherDelay(s)
	}
	simrt.W.After(d, func() {
		if !s.gathered {
			s.gathered = true
			s.Local = &full
			simrt.CloseWorld(s.gather)
		}
	})
	if h.OnAnswer != nil {
		h.OnAnswer(s)
	}
	return nil
}

func GatheringCompletePromise(pc *PeerConnection) (gatherComplete <-chan struct{}) {
	simrt.Point()
	return pc.sim().gather
}

func (pc *PeerConnection) LocalDescription() *SessionDescription {
	simrt.Point()
	return pc.sim().Local
}
func (pc *PeerConnection) CurrentLocalDescription() *SessionDescription  { return pc.sim().Local }
func (pc *PeerConnection) PendingLocalDescription() *SessionDescription  { return nil }
func (pc *PeerConnection) RemoteDescription() *SessionDescription        { return pc.sim().Remote }
func (pc *PeerConnection) CurrentRemoteDescription() *SessionDescription { return pc.sim().Remote }
func (pc *PeerConnection) PendingRemoteDescription() *SessionDescription { return nil }
func (pc *PeerConnection) ICEGatheringState() ICEGatheringState {
	if s := pc.sim(); s.gathered {
		return ICEGatheringStateComplete
	} else if s.gathering {
		return ICEGatheringStateGathering
	}
	return ICEGatheringStateNew
}
func (pc *PeerConnection) GetTransceivers() []*RTPTransceiver { return pc.sim().trs }
func (pc *PeerConnection) GetReceivers() (r []*RTPReceiver) {
	for _, t := range pc.sim().trs {
		r = append(r, t.Receiver())
	}
	return
}
func (pc *PeerConnection) GetSenders() []*RTPSender                       { return nil }
func (pc *PeerConnection) AddICECandidate(candidate ICECandidateInit) error { return nil }
func (pc *PeerConnection) OnICECandidate(f func(*ICECandidate))            {}
func (pc *PeerConnection) OnICEGatheringStateChange(f func(ICEGathererState)) {
}
func (pc *PeerConnection) GetStats() StatsReport { return StatsReport{} }

func (pc *PeerConnection) OnTrack(f func(*TrackRemote, *RTPReceiver)) {
	simrt.Point()
	pc.onTrackHandler = f
}

func (pc *PeerConnection) OnICEConnectionStateChange(f func(ICEConnectionState)) {
	simrt.Point()
	pc.onICEConnectionStateChangeHandler.Store(f)
}

func (pc *PeerConnection) OnConnectionStateChange(f func(PeerConnectionState)) {
	simrt.Point()
	pc.onConnectionStateChangeHandler.Store(f)
}

func (pc *PeerConnection) WriteRTCP(pkts []rtcp.Packet) error {
	simrt.Point()
	s := pc.sim()
	if pc.isClosed.get() {
		return io.ErrClosedPipe
	}
	for _, p := range pkts {
		if _, err := p.Marshal(); err != nil {
			return err
		}
	}
	if h := SimWorld(); h.OnRTCP != nil {
		h.OnRTCP(s, pkts)
	}
	return nil
}

func (pc *PeerConnection) Close() error {
	simrt.Point()
	if pc.isClosed.swap(true) {
		return nil
	}
	s := pc.sim()
	s.shut()
	simrt.Point()
	return nil
}

func (s *SimPC) shut() {
	w := simrt.W
	s.Closed = true
	s.ClosedAt = w.Now()
	s.PC.signalingState.Set(SignalingStateClosed)
	for _, t := range s.Tracks {
		t.End()
	}
	h := SimWorld()
	if h.OnClosed != nil {
		h.OnClosed(s)
	}
	if !s.gathered && s.gathering {
		// closing ends gathering
		s.gathered = true
		simrt.CloseWorld(s.gather)
	}
	d := int64(0)
	if h.CloseDelay != nil {
		d = h.CloseDelay(s)
	}
	w.After(d, func() { s.SetState(ICEConnectionStateClosed) })
}

// SetState reports an ICE connection state, in order, one callback at a time.
func (s *SimPC) SetState(st ICEConnectionState) {
	w := simrt.W
	if s.Proc.Dead {
		return
	}
	if s.Closed && st != ICEConnectionStateClosed {
		return
	}
	cur := s.PC.iceConnectionState.Load().(ICEConnectionState)
	if len(s.stateQ) > 0 {
		cur = s.stateQ[len(s.stateQ)-1]
	}
	if cur == st || cur == ICEConnectionStateClosed {
		return
	}
	s.stateQ = append(s.stateQ, st)
	if !s.drain {
		s.drain = true
		w.Spawn(s.Proc, "pion/ice state", s.drainStates)
	}
}

func (s *SimPC) drainStates() {
	defer func() { s.drain = false }()
	for len(s.stateQ) > 0 {
		st := s.stateQ[0]
		s.stateQ = s.stateQ[1:]
		s.PC.iceConnectionState.Store(st)
		if f, ok := s.PC.onICEConnectionStateChangeHandler.Load().(func(ICEConnectionState)); ok && f != nil {
			f(st)
		}
		ps := PeerConnectionStateNew
		switch st {
		case ICEConnectionStateChecking:
			ps = PeerConnectionStateConnecting
		case ICEConnectionStateConnected, ICEConnectionStateCompleted:
			ps = PeerConnectionStateConnected
		case ICEConnectionStateDisconnected:
			ps = PeerConnectionStateDisconnected
		case ICEConnectionStateFailed:
			ps = PeerConnectionStateFailed
		case ICEConnectionStateClosed:
			ps = PeerConnectionStateClosed
		}
		if s.PC.connectionState.Load().(PeerConnectionState) != ps {
			s.PC.connectionState.Store(ps)
			if f, ok := s.PC.onConnectionStateChangeHandler.Load().(func(PeerConnectionState)); ok && f != nil {
				simrt.W.Spawn(s.Proc, "pion/connection state", func() { f(ps) })
			}
		}
		simrt.Point()
	}
}

// ---- tracks ----

// SimTrack is the world's side of one incoming track.
type SimTrack struct {
	Track    *TrackRemote
	Receiver *RTPReceiver
	PC       *SimPC
	Proc     *simrt.Proc
	q        [][]byte
	qbytes   int
	wq       simrt.WaitQ
	ended    bool
	deadline time.Time
	dlEv     *simrt.Event
	Started  bool // handler was called
	Dropped  int  // packets lost because the reader was too slow
	Read     int
	ReadErr  int
	OnRead   func(raw []byte)
	Handler  func(*TrackRemote, *RTPReceiver)
	HandlerDone bool
}

const simQueueMax = 1000 * 1000 // pion's SRTP receive buffer

// SimNewTrack makes a track that is not bound to a PeerConnection (LiveKit).
func SimNewTrack(p *simrt.Proc, kind RTPCodecType, ssrc uint32, pt uint8, mime string, clock uint32, ch uint16, id, stream string) *SimTrack {
	c := RTPCodecParameters{RTPCodecCapability: RTPCodecCapability{MimeType: mime, ClockRate: clock, Channels: ch}, PayloadType: PayloadType(pt)}
	r := &RTPReceiver{kind: kind, api: &API{settingEngine: &SettingEngine{}, mediaEngine: &MediaEngine{}}, closed: make(chan interface{}), received: make(chan interface{})}
	t := &TrackRemote{id: id, streamID: stream, payloadType: PayloadType(pt), kind: kind, ssrc: SSRC(ssrc), codec: c, receiver: r,
		params: RTPParameters{Codecs: []RTPCodecParameters{c}}}
	s := &SimTrack{Track: t, Receiver: r, Proc: p}
	r.tracks = []trackStreams{{track: t}}
	simrt.W.Ext[t] = s
	simrt.W.Ext[r] = s
	return s
}

// AddTrack makes a new incoming track; OnTrack is called when its first packet is there.
func (s *SimPC) AddTrack(kind RTPCodecType, ssrc uint32, pt uint8, mime string, clock uint32, ch uint16) *SimTrack {
	t := SimNewTrack(s.Proc, kind, ssrc, pt, mime, clock, ch, fmt.Sprintf("track%d", ssrc), "stream")
	t.PC = s
	s.Tracks = append(s.Tracks, t)
	if s.Closed {
		t.ended = true
	}
	return t
}

// Deliver hands a received RTP packet to the track; it reports whether it was taken.
func (t *SimTrack) Deliver(raw []byte) bool {
	if t.ended || t.Proc.Dead {
		return false
	}
	if t.qbytes+len(raw)+2 > simQueueMax {
		t.Dropped++
		return false
	}
	t.q = append(t.q, append([]byte(nil), raw...))
	t.qbytes += len(raw) + 2
	if !t.Started && t.PC != nil {
		t.Started = true
		h := t.PC.PC.onTrackHandler
		if h != nil {
			simrt.W.Spawn(t.Proc, "pion/OnTrack", func() { h(t.Track, t.Receiver); t.HandlerDone = true })
		}
	}
	t.wq.Wake()
	return true
}

// End ends the track: once the queued packets are read, reads report io.EOF.
func (t *SimTrack) End() {
	if t.ended {
		return
	}
	t.ended = true
	t.wq.Wake()
}

func (t *SimTrack) Ended() bool { return t.ended }
func (t *SimTrack) Queued() int { return len(t.q) }

func (t *TrackRemote) simT() *SimTrack {
	s, _ := simrt.W.Ext[t].(*SimTrack)
	if s == nil {
		panic("track was not created by the simulation")
	}
	return s
}

func (t *TrackRemote) Read(b []byte) (n int, attributes interceptor.Attributes, err error) {
	simrt.Point()
	s := t.simT()
	for {
		if len(s.q) > 0 {
			p := s.q[0]
			s.q = s.q[1:]
			s.qbytes -= len(p) + 2
			if len(p) > len(b) {
				s.ReadErr++
				return 0, nil, io.ErrShortBuffer
			}
			s.Read++
			if s.OnRead != nil {
				s.OnRead(p)
			}
			return copy(b, p), interceptor.Attributes{}, nil
		}
		if s.ended {
			return 0, nil, io.EOF
		}
		if !s.deadline.IsZero() && !simrt.Now().Before(s.deadline) {
			return 0, nil, simTimeout{}
		}
		s.wq.Wait("TrackRemote.Read")
	}
}

type simTimeout struct{}

func (simTimeout) Error() string   { return "i/o timeout" }
func (simTimeout) Timeout() bool   { return true }
func (simTimeout) Temporary() bool { return true }

func (t *TrackRemote) ReadRTP() (*rtp.Packet, interceptor.Attributes, error) {
	b := make([]byte, 1460)
	i, attributes, err := t.Read(b)
	if err != nil {
		return nil, nil, err
	}
	r := &rtp.Packet{}
	if err := r.Unmarshal(b[:i]); err != nil {
		t.simT().ReadErr++
		return nil, nil, err
	}
	return r, attributes, nil
}

func (t *TrackRemote) SetReadDeadline(deadline time.Time) error {
	s := t.simT()
	s.dlEv.Cancel()
	s.dlEv = nil
	s.deadline = deadline
	if !deadline.IsZero() {
		d := simrt.Until(deadline)
		if d < 0 {
			d = 0
		}
		s.dlEv = simrt.W.After(int64(d), func() { s.wq.Wake() })
	}
	return nil
}

func (r *RTPReceiver) simT() *SimTrack {
	s, _ := simrt.W.Ext[r].(*SimTrack)
	return s
}

func (r *RTPReceiver) Read(b []byte) (n int, a interceptor.Attributes, err error) {
	s := r.simT()
	for s != nil && !s.ended {
		s.wq.Wait("RTPReceiver.Read")
	}
	return 0, nil, io.EOF
}

func (r *RTPReceiver) ReadRTCP() ([]rtcp.Packet, interceptor.Attributes, error) {
	_, _, err := r.Read(nil)
	return nil, nil, err
}

func (r *RTPReceiver) Stop() error {
	simrt.Point()
	if s := r.simT(); s != nil {
		s.End()
	}
	return nil
}

func (r *RTPReceiver) SetReadDeadline(t time.Time) error { return nil }
