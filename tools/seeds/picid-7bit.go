package recorder_test

import "testing"

// A 7 bit picture ID wraps around every 128 frames: nothing may be lost then.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 300; i++ {
		for _, p := range v.frame(i == 0, 200, 1) {
			pl := p.Payload[1:]
			p.Payload = append([]byte{0x90, 0x80, byte(i+7) & 0x7f}, pl...)
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	if n := len(readWebm(t, file)); n != 300 {
		t.Fatalf("%d of 300 frames were recorded", n)
	}
}
