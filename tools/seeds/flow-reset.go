package server_test

import (
	"testing"
	"time"
)

// Five frames a second, as a screen that is shared may have, is media that flows.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	for i := 0; i < 40; i++ {
		p.sendVideo(v.frame(i == 0, 300, 1)...)
		v.ts += 18000
		time.Sleep(200 * time.Millisecond)
	}
	ev, _ := p.bus.events("recordingRtpStatusChanged")
	p.stop()
	if len(ev) != 1 {
		t.Fatalf("reported %v", ev)
	}
}
