package pubsub_test

import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// The connection to the broker goes dead without being closed (nothing is ever
// answered again): the recorder notices and subscribes again.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp"})
	got := make(chan string, 10)
	go r.Subscribe("to", func(_ context.Context, m []byte) { got <- string(m) }, func() error { return nil })
	for i := 0; b.subscribers() == 0; i++ {
		if i > 100 {
			t.Fatal("never subscribed")
		}
		time.Sleep(50 * time.Millisecond)
	}
	// a firewall forgets the connection
	b.m.Lock()
	for c := range b.subs {
		b.dead[c] = true
		delete(b.subs, c)
	}
	b.m.Unlock()
	for end := time.Now().Add(130 * time.Second); ; {
		if b.send("to", "hello") > 0 {
			select {
			case <-got:
				return
			case <-time.After(5 * time.Second):
				t.Fatal("subscribed, but messages don't arrive")
			}
		}
		if time.Now().After(end) {
			t.Fatal("two minutes after the connection went dead the recorder hasn't subscribed again")
		}
		time.Sleep(100 * time.Millisecond)
	}
}
