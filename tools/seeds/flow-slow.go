package server_test

import (
	"testing"
	"time"
)

// That media stopped flowing is reported soon.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	for i := 0; i < 50; i++ {
		p.sendVideo(v.frame(i == 0, 300, 1)...)
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	for end := time.Now().Add(5 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		ev, _ := p.bus.events("recordingRtpStatusChanged")
		if len(ev) == 2 && ev[0]["status"] == "flowing" && ev[1]["status"] == "not_flowing" {
			break
		}
		if time.Now().After(end) {
			t.Fatalf("reported %v", ev)
		}
	}
	p.stop()
}
