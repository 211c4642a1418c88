package server_test

import (
	"testing"
	"time"
)

// A packet that is lost for good is asked for ten times, not forever.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	for i := 0; i < 450; i++ {
		ps := v.frame(i%50 == 0, 900, 4)
		if i == 60 {
			ps = append(ps[:1], ps[3]) // two packets never make it
		}
		p.sendVideo(ps...)
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	p.stop()
	p.m.Lock()
	defer p.m.Unlock()
	n := map[uint16]int{}
	for _, s := range p.nacks {
		n[s]++
	}
	if len(n) < 2 {
		t.Fatalf("the packets weren't asked for: %v", n)
	}
	for s, c := range n {
		if c > 10 {
			t.Errorf("packet %d was asked for %d times", s, c)
		}
	}
}
