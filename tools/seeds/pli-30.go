package server_test

import (
	"testing"
	"time"
)

// Key frames are requested every few seconds.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	from := time.Now()
	for i := 0; i < 300; i++ {
		p.sendVideo(v.frame(i == 0, 300, 1)...)
		v.ts += 3600
		time.Sleep(40 * time.Millisecond)
	}
	p.stop()
	p.m.Lock()
	defer p.m.Unlock()
	n := 0
	for _, at := range p.plis {
		if at.Sub(from) > 4*time.Second {
			n++
		}
	}
	if n == 0 {
		t.Fatalf("no key frame was requested after the first seconds: %v", p.plis)
	}
}
