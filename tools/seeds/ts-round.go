package recorder_test

import "testing"

// Timestamps follow the RTP clock, however many frames there were.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 5000, w: 320, h: 240}
	const frames = 1500
	for i := 0; i < frames; i++ {
		for _, p := range v.frame(i == 0, 200, 1) {
			rec.PushVideo(p)
		}
		v.ts += 3003 // 33.37 ms
	}
	rec.Close()
	bs := readWebm(t, file)
	if len(bs) != frames {
		t.Fatalf("%d frames were recorded", len(bs))
	}
	for i, b := range bs {
		want := int64(i) * 3003 / 90
		if b.tc-bs[0].tc < want-5 || b.tc-bs[0].tc > want+5 {
			t.Fatalf("frame %d is at %d ms instead of %d ms", i, b.tc-bs[0].tc, want)
		}
	}
}
