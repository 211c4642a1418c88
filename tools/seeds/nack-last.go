package server_test

import (
	"testing"
	"time"
)

// Lost packets are asked for while there's still time to send them again.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	var lost uint16
	for i := 0; i < 90; i++ {
		ps := v.frame(i%30 == 0, 300, 1)
		if i == 40 {
			lost = ps[0].SequenceNumber
		} else {
			p.sendVideo(ps...)
		}
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	p.stop()
	p.m.Lock()
	defer p.m.Unlock()
	for _, s := range p.nacks {
		if s == lost {
			return
		}
	}
	t.Fatalf("packet %d wasn't asked for: %v", lost, p.nacks)
}
