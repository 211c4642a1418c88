package recorder_test

import (
	"os"
	"testing"
)

// The end of a recording is its end: packets that come later start nothing.
func TestDemo(t *testing.T) {
	for _, custom := range []bool{true, false} {
		rec, file := newRec(t, custom, false)
		rec.SetHasVideo(true)
		v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
		rec.Close()
		for i := 0; i < 10; i++ {
			for _, p := range v.frame(i == 0, 600, 2) {
				rec.PushVideo(p)
			}
			v.ts += 3000
		}
		if _, err := os.Stat(file); err == nil {
			t.Fatal("a recording that was closed has begun")
		}
	}
}
