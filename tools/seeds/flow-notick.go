package server_test

import (
	"testing"
	"time"
)

// Media that starts and stops is reported, once each, also if none of it can be
// recorded (there is no key frame).
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(33 * time.Millisecond) {
		p.sendVideo(v.frame(false, 300, 1)...)
		v.ts += 2970
	}
	time.Sleep(3 * time.Second)
	p.stop()
	ev, _ := p.bus.events("recordingRtpStatusChanged")
	if len(ev) != 2 || ev[0]["status"] == ev[1]["status"] {
		t.Fatalf("reported %v", ev)
	}
}
