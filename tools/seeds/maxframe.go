package recorder_test

import "testing"

// Frames may be large.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 1920, h: 1080}
	for i := 0; i < 20; i++ {
		size := 600
		if i == 0 {
			size = 400000
		}
		for _, p := range v.frame(i == 0, size, 1+size/1000) {
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	if n := len(readWebm(t, file)); n != 20 {
		t.Fatalf("%d of 20 frames were recorded", n)
	}
}
