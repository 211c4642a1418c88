package server_test

import (
	"testing"
	"time"
)

// A lost packet is asked for, even if it has the number of one that was given
// up 65536 packets ago.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 1, w: 320, h: 240}
	sent := 0
	frame := func(key bool, n int) {
		ps := v.frame(key, 60*n, n)
		for i := range ps {
			if sent++; sent == 5000 || sent == 5000+65536 {
				ps = append(ps[:i:i], ps[i+1:]...) // one packet never makes it
				sent += len(ps) - i
				break
			}
		}
		p.sendVideo(ps...)
		v.ts += 1800
		time.Sleep(20 * time.Millisecond)
	}
	start := time.Now()
	for i := 0; sent < 5000+65536; i++ {
		frame(i%50 == 0, 40)
	}
	second := time.Now()
	for i := 0; i < 100; i++ {
		frame(i%50 == 0, 4)
	}
	p.stop()
	p.m.Lock()
	defer p.m.Unlock()
	seq := uint16(100 + 4999)
	first, again := 0, 0
	for i, s := range p.nacks {
		if s == seq && p.nackAt[i].Before(second.Add(-5*time.Second)) {
			first++
		} else if s == seq {
			again++
		}
	}
	t.Logf("packet %d was asked for %d times, then %d times (sent in %v)", seq, first, again, second.Sub(start))
	if first == 0 {
		t.Fatal("the first one wasn't asked for")
	}
	if again == 0 {
		t.Error("the second one wasn't asked for")
	}
}
