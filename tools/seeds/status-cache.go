package server_test

import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
)

// A status says when it was made.
func TestDemo(t *testing.T) {
	b := &bus{}
	s := server.NewServer((&config.Config{}).GetDefaults(), b)
	for i := 0; i < 3; i++ {
		t0 := time.Now().UnixMilli()
		s.HandlePubSub(context.Background(), []byte(`{"id":"getRecorderStatus"}`))
		ev, _ := b.events("recorderStatus")
		if len(ev) != i+1 {
			t.Fatalf("%d answers to %d requests", len(ev), i+1)
		}
		if ts, _ := ev[i]["timestamp"].(float64); int64(ts) < t0 || int64(ts) > time.Now().UnixMilli() {
			t.Fatalf("answer %d is from %d ms before the request", i, t0-int64(ts))
		}
		time.Sleep(100 * time.Millisecond)
	}
}
