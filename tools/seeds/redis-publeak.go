package pubsub_test

import (
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// What the broker refuses leaves no connection behind.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	b.m.Lock()
	b.errs = true
	b.m.Unlock()
	for i := 0; i < 20; i++ {
		r.Publish("from", []byte("x"))
	}
	for end := time.Now().Add(5 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		b.m.Lock()
		n := len(b.all)
		b.m.Unlock()
		if n <= 2 {
			return
		}
		if time.Now().After(end) {
			t.Fatalf("%d connections are left", n)
		}
	}
}
