package recorder_test

import "testing"

// A frame that isn't valid is dropped, and so must be what depends on it.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 20; i++ {
		size := 600
		if i == 10 {
			size = 5
		}
		for _, p := range v.frame(i == 0, size, 1) {
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	n := len(readWebm(t, file))
	if n != 10 && n != 20 {
		t.Fatalf("%d frames were recorded, frame 10 isn't among them but later ones are", n)
	}
}
