package pubsub_test

import (
	"context"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

// The password that is configured is the one the broker is given.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	b.pass = "secret"
	r := pubsub.NewRedis(config.Redis{Address: b.addr(), Network: "tcp", Password: "secret"})
	started := make(chan bool, 10)
	go r.Subscribe("to", func(context.Context, []byte) {}, func() error { started <- true; return nil })
	select {
	case <-started:
	case <-time.After(5 * time.Second):
		t.Fatal("not subscribed")
	}
	r.Publish("from", []byte("x"))
	for i := 0; len(b.published()) == 0; i++ {
		if i == 50 {
			t.Fatal("nothing is published")
		}
		time.Sleep(100 * time.Millisecond)
	}
}
