package lksdk

import (
	"errors"
	"sort"

	"github.com/livekit/protocol/livekit"
	"github.com/pion/webrtc/v3"

	"simrt"
)

// This file replaces signalling and transport of the LiveKit client. What remains real: Room, RoomCallback,
// RemoteParticipant, RemoteTrackPublication and the dispatch of their callbacks.

// SimHooks is what the simulated world decides about LiveKit rooms.
type SimHooks struct {
	Join        func(*SimRoom) (delay int64, parts []*livekit.ParticipantInfo, err error)
	OnJoined    func(*SimRoom)
	OnSubscribe func(*SimRoom, string, bool) error
	OnPLI       func(*SimRoom, *RemoteParticipant, uint32)
	OnLeft      func(*SimRoom)
	Delay       func(r *SimRoom, what string) int64 // how long something takes
	Rooms       []*SimRoom
}

// SimRoom is the world's side of one room connection.
type SimRoom struct {
	Room   *Room
	Proc   *simrt.Proc
	N      int
	URL    string
	Info   ConnectInfo
	Auto   bool
	Joined bool
	Left   bool // left by the recorder
	LeftAt int64
	Gone   bool // disconnected by the server
	Tracks []*SimRoomTrack
	UserData any
}

type SimRoomTrack struct {
	*webrtc.SimTrack
	SID  string
	Pub  *RemoteTrackPublication
	Part *RemoteParticipant
	Done bool // the subscription callback returned
}

type simKey struct{}

func SimWorld() *SimHooks {
	w := simrt.W
	if h, ok := w.Ext[simKey{}].(*SimHooks); ok {
		return h
	}
	h := &SimHooks{}
	w.Ext[simKey{}] = h
	return h
}

func (r *Room) sim() *SimRoom { s, _ := simrt.W.Ext[r].(*SimRoom); return s }

func (r *Room) Join(url string, info ConnectInfo, opts ...ConnectOption) error {
	simrt.Point()
	h := SimWorld()
	params := &connectParams{AutoSubscribe: true}
	for _, o := range opts {
		o(params)
	}
	s := &SimRoom{Room: r, Proc: simrt.CurG().Proc, N: len(h.Rooms), URL: url, Info: info, Auto: params.AutoSubscribe}
	h.Rooms = append(h.Rooms, s)
	simrt.W.Ext[r] = s
	simrt.W.Ext[r.engine.client] = s
	if h.Join == nil {
		return errors.New("no LiveKit server")
	}
	d, parts, err := h.Join(s)
	wait(d, "LiveKit join")
	if err != nil {
		return err
	}
	r.lock.Lock()
	r.name = info.RoomName
	r.lock.Unlock()
	r.setSid("RM_"+info.RoomName, false)
	for _, pi := range parts {
		r.addRemoteParticipant(pi, true)
	}
	s.Joined = true
	if h.OnJoined != nil {
		h.OnJoined(s)
	}
	return nil
}

func wait(d int64, why string) {
	if d <= 0 {
		return
	}
	var q simrt.WaitQ
	ok := false
	simrt.W.After(d, func() { ok = true; q.Wake() })
	for !ok {
		q.Wait(why)
	}
}

func (s *SimRoom) delay(what string) int64 {
	if h := SimWorld(); h.Delay != nil {
		return h.Delay(s, what)
	}
	return 0
}

func (r *Room) JoinWithToken(url, token string, opts ...ConnectOption) error {
	return r.Join(url, ConnectInfo{RoomName: token}, opts...)
}

func (r *Room) Disconnect() {
	simrt.Point()
	s := r.sim()
	if s == nil {
		return
	}
	s.close(true)
	simrt.Point()
}

func (s *SimRoom) close(own bool) {
	// (the engine closes its connections in the background)
	end := func() {
		for _, t := range s.Tracks {
			t.End()
		}
	}
	if d := s.delay("close"); d > 0 {
		simrt.W.After(d, end)
	} else {
		end()
	}
	if !own || s.Left {
		return
	}
	s.Left = true
	s.LeftAt = simrt.W.Now()
	if h := SimWorld(); h.OnLeft != nil {
		h.OnLeft(s)
	}
}

func (r *Room) cleanup() {
	if s := r.sim(); s != nil {
		s.close(false)
	}
	r.setSid("", true)
}

func (r *Room) GetRemoteParticipants() []*RemoteParticipant {
	simrt.Point()
	r.lock.RLock()
	defer r.lock.RUnlock()
	m := map[string]*RemoteParticipant{}
	for k, rp := range r.remoteParticipants {
		m[string(k)] = rp
	}
	var out []*RemoteParticipant
	for _, k := range simrt.MapKeys(m) {
		out = append(out, m[k])
	}
	return out
}

func (p *baseParticipant) TrackPublications() []TrackPublication {
	simrt.Point()
	m := map[string]TrackPublication{}
	p.tracks.Range(func(_, value interface{}) bool {
		t := value.(TrackPublication)
		m[t.SID()] = t
		return true
	})
	out := make([]TrackPublication, 0)
	for _, k := range simrt.MapKeys(m) {
		out = append(out, m[k])
	}
	return out
}

func (p *RemoteTrackPublication) SetSubscribed(subscribed bool) error {
	simrt.Point()
	s, _ := simrt.W.Ext[p.client].(*SimRoom)
	if s == nil {
		return errors.New("no room")
	}
	if s.Left || s.Gone {
		return ErrCannotDialSignal
	}
	var err error
	if h := SimWorld(); h.OnSubscribe != nil {
		err = h.OnSubscribe(s, p.sid.Load(), subscribed)
	}
	wait(s.delay("signal"), "LiveKit signalling")
	return err
}

func (p *RemoteTrackPublication) setReceiverAndTrack(r *webrtc.RTPReceiver, t *webrtc.TrackRemote) {
	p.lock.Lock()
	p.receiver = r
	p.track = t
	p.lock.Unlock()
}

func (p *RemoteTrackPublication) updateSettings() {}

func (p *RemoteParticipant) WritePLI(ssrc webrtc.SSRC) {
	simrt.Point()
	s, _ := simrt.W.Ext[p.client].(*SimRoom)
	if s == nil || s.Left {
		return
	}
	if h := SimWorld(); h.OnPLI != nil {
		h.OnPLI(s, p, uint32(ssrc))
	}
}

// ---- world side ----

// Update adds or updates a participant, from a signalling message.
func (s *SimRoom) Update(pi *livekit.ParticipantInfo) {
	if s.Left || s.Proc.Dead {
		return
	}
	simrt.W.Spawn(s.Proc, "lksdk/signal", func() {
		s.Room.addRemoteParticipant(pi, true)
	})
}

func (s *SimRoom) find(sid string) (*RemoteParticipant, *RemoteTrackPublication) {
	var ids []string
	m := map[string]*RemoteParticipant{}
	for k, rp := range s.Room.remoteParticipants {
		ids = append(ids, string(k))
		m[string(k)] = rp
	}
	sort.Strings(ids)
	for _, k := range ids {
		if pub := m[k].getPublication(sid); pub != nil {
			return m[k], pub
		}
	}
	return nil, nil
}

// StartTrack makes the media of a subscribed publication arrive.
func (s *SimRoom) StartTrack(sid string, ssrc uint32, pt uint8, mime string, clock uint32, ch uint16) *SimRoomTrack {
	if s.Left || s.Proc.Dead {
		return nil
	}
	rp, pub := s.find(sid)
	if pub == nil {
		return nil
	}
	kind := webrtc.RTPCodecTypeAudio
	if pub.Kind() == TrackKindVideo {
		kind = webrtc.RTPCodecTypeVideo
	}
	t := &SimRoomTrack{SimTrack: webrtc.SimNewTrack(s.Proc, kind, ssrc, pt, mime, clock, ch, sid, rp.sid+"|"+sid), SID: sid, Pub: pub, Part: rp}
	s.Tracks = append(s.Tracks, t)
	t.Started = true
	simrt.W.Spawn(s.Proc, "lksdk/OnTrack", func() {
		rp.addSubscribedMediaTrack(t.Track, sid, t.Receiver)
		t.Done = true
	})
	return t
}

// Unpublish ends a track from the publisher's side.
func (s *SimRoom) Unpublish(t *SimRoomTrack) {
	if s.Left || s.Proc.Dead {
		return
	}
	simrt.W.Spawn(s.Proc, "lksdk/signal", func() { t.Part.unpublishTrack(t.SID, true) })
	t.End()
}

// UnpublishSID tells the client that a track is gone which it may not be subscribed to.
func (s *SimRoom) UnpublishSID(sid string) {
	if s.Left || s.Proc.Dead {
		return
	}
	simrt.W.Spawn(s.Proc, "lksdk/signal", func() {
		if rp, pub := s.find(sid); pub != nil {
			rp.unpublishTrack(sid, true)
		}
	})
}

// Kick disconnects the client from the server's side.
func (s *SimRoom) Kick() {
	if s.Left || s.Gone || s.Proc.Dead {
		return
	}
	s.Gone = true
	simrt.W.Spawn(s.Proc, "lksdk/disconnect", func() { s.Room.handleDisconnect() })
}
