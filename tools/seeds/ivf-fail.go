package recorder_test

import (
	"os"
	"strings"
	"testing"
)

// The copy can't be written; the recording can.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, true)
	if err := os.Mkdir(strings.TrimSuffix(file, ".webm")+".ivf", 0700); err != nil {
		t.Fatal(err)
	}
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 100; i++ {
		for _, p := range v.frame(i%20 == 0, 300, 1) {
			rec.PushVideo(p)
		}
		v.ts += 3000
	}
	rec.Close()
	if n := len(readWebm(t, file)); n != 100 {
		t.Fatalf("%d of 100 frames were recorded", n)
	}
}
