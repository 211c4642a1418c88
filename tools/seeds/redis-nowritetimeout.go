package pubsub_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// A connection on which nothing happens for a while is fine: it isn't given up.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	var starts, msgs atomic.Int32
	go r.Subscribe("to", func(_ context.Context, m []byte) { msgs.Add(1) }, func() error { starts.Add(1); return nil })
	time.Sleep(2 * time.Second)
	for i := 0; i < 75; i++ {
		time.Sleep(time.Second)
		if b.subscribers() != 1 {
			t.Fatalf("%d subscribers after %d s: requests sent now are lost", b.subscribers(), i)
		}
	}
	b.send("to", "hello")
	time.Sleep(time.Second)
	if starts.Load() != 1 || msgs.Load() != 1 {
		t.Fatalf("subscribed %d times, got %d messages", starts.Load(), msgs.Load())
	}
}
