package server_test

import (
	"context"
	"encoding/json"
	"testing"
	"time"

	dto "github.com/prometheus/client_model/go"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
)

type quiet struct{ out []string }

func (b *quiet) Subscribe(string, pubsub.PubSubHandler, func() error) {}
func (b *quiet) Publish(_ string, msg []byte)                        { b.out = append(b.out, string(msg)) }

// A start that fails, with either adapter, doesn't change the number of recordings.
func TestDemo(t *testing.T) {
	cfg := (&config.Config{}).GetDefaults()
	cfg.Recorder.Directory = t.TempDir()
	cfg.LiveKit.Host = "ws://127.0.0.1:1"
	cfg.LiveKit.APIKey, cfg.LiveKit.APISecret = "key", "secret"
	b := &quiet{}
	s := server.NewServer(cfg, b)
	for _, opt := range []string{`"adapter": "livekit", "adapterOptions": {"livekit": {"room": "r", "trackIds": ["TR_V"]}}`, `"adapter": "mediasoup", "adapterOptions": {"mediasoup": {"sdp": "eyJ0eXBlIjoib2ZmZXIiLCJzZHAiOiJ2PTANCiJ9"}}`} {
		msg := `{"id": "startRecording", "recordingSessionId": "demo", "fileName": "x.webm", ` + opt + `}`
		if !json.Valid([]byte(msg)) {
			t.Fatal(msg)
		}
		s.HandlePubSub(context.Background(), []byte(msg))
		time.Sleep(time.Second)
		var m dto.Metric
		if err := prometheus.Sessions.Write(&m); err != nil {
			t.Fatal(err)
		}
		if v := m.GetGauge().GetValue(); v != 0 {
			t.Fatalf("%v recordings, after %q", v, b.out)
		}
	}
}
