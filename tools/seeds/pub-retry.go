package pubsub_test

import (
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// A message is published once, also if the broker goes away before it says so.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	b.m.Lock()
	b.lose = true
	b.m.Unlock()
	r.Publish("from", []byte("once"))
	time.Sleep(300 * time.Millisecond)
	if p := b.published(); len(p) != 1 {
		t.Fatalf("published: %q", p)
	}
}
