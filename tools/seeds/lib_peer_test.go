package @NAME@_test

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/turn/v2"
	pion "github.com/pion/webrtc/v3"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
)

// bus is the pubsub of a recorder without a broker.
type bus struct {
	m   sync.Mutex
	out []map[string]interface{}
	at  []time.Time
}

func (b *bus) Subscribe(string, pubsub.PubSubHandler, func() error) {}
func (b *bus) Publish(_ string, msg []byte) {
	b.m.Lock()
	defer b.m.Unlock()
	m := map[string]interface{}{}
	json.Unmarshal(msg, &m)
	b.out = append(b.out, m)
	b.at = append(b.at, time.Now())
}

func (b *bus) events(id string) (ev []map[string]interface{}, at []time.Time) {
	b.m.Lock()
	defer b.m.Unlock()
	for i, m := range b.out {
		if m["id"] == id {
			ev = append(ev, m)
			at = append(at, b.at[i])
		}
	}
	return
}

// wire is a network that can be cut.
type wire struct {
	net.PacketConn
	cut atomic.Bool
}

func (w *wire) ReadFrom(b []byte) (int, net.Addr, error) {
	for {
		n, a, err := w.PacketConn.ReadFrom(b)
		if err != nil || !w.cut.Load() {
			return n, a, err
		}
	}
}

func (w *wire) WriteTo(b []byte, a net.Addr) (int, error) {
	if w.cut.Load() {
		return len(b), nil
	}
	return w.PacketConn.WriteTo(b, a)
}

// relay is a TURN server on the loopback interface, which is all the network this needs.
func relay(t *testing.T) pion.ICEServer {
	l, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s, err := turn.NewServer(turn.ServerConfig{
		Realm:       "demo",
		AuthHandler: func(u, r string, _ net.Addr) ([]byte, bool) { return turn.GenerateAuthKey(u, r, "demo"), true },
		PacketConnConfigs: []turn.PacketConnConfig{{
			PacketConn:            l,
			RelayAddressGenerator: &turn.RelayAddressGeneratorStatic{RelayAddress: net.ParseIP("127.0.0.1"), Address: "127.0.0.1"},
		}},
	})
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { s.Close() })
	return pion.ICEServer{URLs: []string{"turn:" + l.LocalAddr().String() + "?transport=udp"}, Username: "demo", Credential: "demo"}
}

// publisher is connected to a recorder and sends it video and/or audio.
type publisher struct {
	t            *testing.T
	dir          string
	bus          *bus
	srv          *server.Server
	pc           *pion.PeerConnection
	video, audio *pion.TrackLocalStaticRTP
	lose         func() // the connection
	m            sync.Mutex
	nacks        []uint16
	nackAt       []time.Time
	plis         []time.Time
}

func publish(t *testing.T, video, audio bool, change func(*config.Config)) *publisher {
	p := &publisher{t: t, dir: t.TempDir(), bus: &bus{}}
	cfg := (&config.Config{}).GetDefaults()
	cfg.Recorder.Directory = p.dir
	ice := reflect.ValueOf(&cfg.WebRTC.ICEServers).Elem() // of whatever type has these three fields
	one := reflect.New(ice.Type().Elem()).Elem()
	r := relay(t)
	one.FieldByName("URLs").Set(reflect.ValueOf(r.URLs))
	one.FieldByName("Username").Set(reflect.ValueOf(r.Username))
	one.FieldByName("Credential").Set(reflect.ValueOf(r.Credential))
	ice.Set(reflect.Append(reflect.Zero(ice.Type()), one))
	if change != nil {
		change(cfg)
	}
	p.srv = server.NewServer(cfg, p.bus)

	m := &pion.MediaEngine{}
	m.RegisterCodec(pion.RTPCodecParameters{RTPCodecCapability: pion.RTPCodecCapability{MimeType: pion.MimeTypeVP8, ClockRate: 90000, RTCPFeedback: []pion.RTCPFeedback{{Type: "nack", Parameter: "pli"}}}, PayloadType: 96}, pion.RTPCodecTypeVideo)
	m.RegisterCodec(pion.RTPCodecParameters{RTPCodecCapability: pion.RTPCodecCapability{MimeType: pion.MimeTypeOpus, ClockRate: 48000, Channels: 2}, PayloadType: 111}, pion.RTPCodecTypeAudio)
	se := pion.SettingEngine{}
	se.SetIncludeLoopbackCandidate(true)
	l, err := net.ListenPacket("udp4", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	w := &wire{PacketConn: l}
	se.SetICEUDPMux(pion.NewICEUDPMux(nil, w))
	p.lose = func() { w.cut.Store(true) }
	if p.pc, err = pion.NewAPI(pion.WithMediaEngine(m), pion.WithSettingEngine(se)).NewPeerConnection(pion.Configuration{}); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { p.pc.Close() })
	connected := make(chan bool)
	var once sync.Once
	p.pc.OnConnectionStateChange(func(s pion.PeerConnectionState) {
		if s == pion.PeerConnectionStateConnected {
			once.Do(func() { close(connected) })
		}
	})
	add := func(kind, mime string) *pion.TrackLocalStaticRTP {
		tr, err := pion.NewTrackLocalStaticRTP(pion.RTPCodecCapability{MimeType: mime}, kind, "demo")
		if err != nil {
			t.Fatal(err)
		}
		s, err := p.pc.AddTrack(tr)
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			for {
				ps, _, err := s.ReadRTCP()
				if err != nil {
					return
				}
				p.m.Lock()
				for _, r := range ps {
					switch r := r.(type) {
					case *rtcp.PictureLossIndication:
						p.plis = append(p.plis, time.Now())
					case *rtcp.TransportLayerNack:
						for _, n := range r.Nacks {
							for _, seq := range n.PacketList() {
								p.nacks = append(p.nacks, seq)
								p.nackAt = append(p.nackAt, time.Now())
							}
						}
					}
				}
				p.m.Unlock()
			}
		}()
		return tr
	}
	if audio {
		p.audio = add("audio", pion.MimeTypeOpus)
	}
	if video {
		p.video = add("video", pion.MimeTypeVP8)
	}
	offer, err := p.pc.CreateOffer(nil)
	if err != nil {
		t.Fatal(err)
	}
	gathered := pion.GatheringCompletePromise(p.pc)
	if err := p.pc.SetLocalDescription(offer); err != nil {
		t.Fatal(err)
	}
	<-gathered
	req, _ := json.Marshal(map[string]interface{}{
		"id": "startRecording", "recordingSessionId": "demo", "fileName": "demo.webm", "sdp": signal.Encode(*p.pc.LocalDescription()),
	})
	p.srv.HandlePubSub(context.Background(), req)
	ev, _ := p.bus.events("startRecordingResponse")
	if len(ev) != 1 || ev[0]["status"] != "ok" {
		t.Fatalf("start: %v", ev)
	}
	answer := pion.SessionDescription{}
	signal.Decode(fmt.Sprint(ev[0]["sdp"]), &answer)
	if err := p.pc.SetRemoteDescription(answer); err != nil {
		t.Fatal(err)
	}
	select {
	case <-connected:
	case <-time.After(20 * time.Second):
		t.Fatal("not connected")
	}
	return p
}

func (p *publisher) sendVideo(ps ...*rtp.Packet) {
	for _, q := range ps {
		if err := p.video.WriteRTP(q); err != nil {
			p.t.Error(err)
		}
	}
}

func (p *publisher) stop() string {
	p.srv.HandlePubSub(context.Background(), []byte(`{"id": "stopRecording", "recordingSessionId": "demo"}`))
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		if ev, _ := p.bus.events("recordingStopped"); len(ev) > 0 {
			break
		}
		if time.Now().After(end) {
			p.t.Fatal("not stopped")
		}
	}
	return filepath.Join(p.dir, "demo.webm")
}
