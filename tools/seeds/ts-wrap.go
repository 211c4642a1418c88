package recorder_test

import "testing"

// RTP timestamps wrap around at 2^32.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 1<<32 - 90*1000, w: 320, h: 240}
	for i := 0; i < 60; i++ {
		for _, p := range v.frame(i == 0, 200, 2) {
			rec.PushVideo(p)
		}
		v.ts += 3600
	}
	rec.Close()
	bs := readWebm(t, file)
	if len(bs) != 60 {
		t.Fatalf("%d of 60 frames were recorded", len(bs))
	}
	for i, b := range bs {
		if d := b.tc - bs[0].tc - int64(i)*40; d < -2 || d > 2 {
			t.Fatalf("frame %d is at %d ms instead of %d ms", i, b.tc-bs[0].tc, i*40)
		}
	}
}
