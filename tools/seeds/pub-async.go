package server_test

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
)

// slow is a connection to a broker on which the first message takes longer.
type slow struct {
	m   sync.Mutex
	out []string
}

func (b *slow) Subscribe(string, pubsub.PubSubHandler, func() error) {}
func (b *slow) Publish(_ string, msg []byte) {
	m := map[string]interface{}{}
	json.Unmarshal(msg, &m)
	if fmt.Sprint(m["recordingSessionId"]) == "first" {
		time.Sleep(500 * time.Millisecond)
	}
	b.m.Lock()
	defer b.m.Unlock()
	b.out = append(b.out, fmt.Sprint(m["recordingSessionId"]))
}

// What happened first is told first.
func TestDemo(t *testing.T) {
	cfg := (&config.Config{}).GetDefaults()
	cfg.Recorder.Directory = t.TempDir()
	b := &slow{}
	s := server.NewServer(cfg, b)
	for _, id := range []string{"first", "second"} {
		// fails: there's no such file type
		s.HandlePubSub(context.Background(), []byte(`{"id": "startRecording", "recordingSessionId": "`+id+`", "fileName": "x.txt", "sdp": "eyJ0eXBlIjoib2ZmZXIiLCJzZHAiOiJ2PTANCiJ9"}`))
	}
	time.Sleep(2 * time.Second)
	b.m.Lock()
	defer b.m.Unlock()
	if fmt.Sprint(b.out) != "[first second]" {
		t.Fatalf("answered in the order %v", b.out)
	}
}
