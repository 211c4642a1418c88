package server_test

import (
	"testing"
	"time"

	"github.com/pion/rtp"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
)

// What arrives late, but within the configured time, is recorded.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, func(c *config.Config) {
		c.WebRTC.JitterBuffer = 64
		c.WebRTC.JitterBufferPktTimeout = 800
	})
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	for i, late := 0, []*rtp.Packet(nil); i < 75; i++ {
		ps := v.frame(i == 0, 300, 2)
		if i == 40 {
			late, ps = ps[1:], ps[:1]
		}
		if i == 48 {
			ps = append(ps, late...)
		}
		p.sendVideo(ps...)
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	time.Sleep(time.Second)
	if b := readWebm(t, p.stop()); len(b) < 74 {
		t.Fatalf("only %d frames of 75 were recorded", len(b))
	}
}
