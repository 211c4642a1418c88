package pubsub_test

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// Whenever it subscribed, also after the broker was gone, the recorder says so.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	var starts atomic.Int32
	go r.Subscribe("to", func(_ context.Context, m []byte) {}, func() error { starts.Add(1); return nil })
	for i := int32(1); i <= 3; i++ {
		for end := time.Now().Add(20 * time.Second); starts.Load() < i || b.subscribers() == 0; {
			if time.Now().After(end) {
				t.Fatalf("subscribed %d times, announced %d times", i, starts.Load())
			}
			time.Sleep(20 * time.Millisecond)
		}
		b.dropAll()
	}
}
