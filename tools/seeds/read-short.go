package pubsub_test

import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// Nothing being said for a while is no reason to give up a healthy connection: requests would be lost.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	go r.Subscribe("to", func(_ context.Context, m []byte) {}, func() error { return nil })
	for end := time.Now().Add(45 * time.Second); time.Now().Before(end); {
		time.Sleep(200 * time.Millisecond)
	}
	b.m.Lock()
	defer b.m.Unlock()
	if b.nsub != 1 || len(b.subs) != 1 {
		t.Fatalf("subscribed %d times, %d subscriptions now", b.nsub, len(b.subs))
	}
}
