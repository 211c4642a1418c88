package recorder_test

import (
	"testing"
	"time"
)

// A frame may take a while to arrive.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 20; i++ {
		for k, p := range v.frame(i == 0, 600, 3) {
			if i == 10 && k == 2 {
				time.Sleep(500 * time.Millisecond)
			}
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	if n := len(readWebm(t, file)); n != 20 {
		t.Fatalf("%d of 20 frames were recorded", n)
	}
}
