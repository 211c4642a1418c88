package server_test

import (
	"testing"
	"time"
)

// A recording ends when the connection to its publisher is lost.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	time.Sleep(time.Second) // no media yet
	p.lose()
	for end := time.Now().Add(18 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		if ev, _ := p.bus.events("recordingStopped"); len(ev) == 1 {
			return
		}
		if time.Now().After(end) {
			t.Fatal("the recording goes on without a connection")
		}
	}
}
