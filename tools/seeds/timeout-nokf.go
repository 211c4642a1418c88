package recorder_test

import (
	"testing"
	"time"
)

// A frame that took too long is dropped: the ones that depend on it must not be
// recorded.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 20; i++ {
		for k, p := range v.frame(i == 0, 600, 3) {
			if i == 10 && k == 2 {
				time.Sleep(2200 * time.Millisecond)
			}
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	n := len(readWebm(t, file))
	if n != 10 && n != 20 {
		t.Fatalf("%d frames were recorded, frame 10 isn't among them but later ones are", n)
	}
}
