package pubsub_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// The broker closes connections (it restarts, or they idle): whatever is published
// while it is reachable gets there.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	for i := 0; i < 6; i++ {
		r.Publish("from", []byte(fmt.Sprint(i)))
		time.Sleep(100 * time.Millisecond)
		if i%2 == 1 {
			b.dropAll()
			time.Sleep(300 * time.Millisecond)
		}
	}
	if p := b.published(); len(p) != 6 {
		t.Fatalf("only %v arrived", p)
	}
}
