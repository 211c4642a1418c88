package server_test

import (
	"testing"
	"time"
)

// Packets lost from a large frame are asked for.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 1920, h: 1080}
	var lost []uint16
	for i := 0; i < 60; i++ {
		n := 2
		if i == 30 || i == 40 {
			n = 160
		}
		ps := v.frame(i%30 == 0, n*1000, n)
		if n > 2 {
			lost = append(lost, ps[5].SequenceNumber)
			ps = append(ps[:5:5], ps[6:]...)
		}
		p.sendVideo(ps...)
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	p.stop()
	p.m.Lock()
	defer p.m.Unlock()
	for _, l := range lost {
		for _, s := range p.nacks {
			if s == l {
				return
			}
		}
	}
	t.Fatalf("packets %v weren't asked for: %v", lost, p.nacks)
}
