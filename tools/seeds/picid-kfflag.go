package recorder_test

import "testing"

// A frame is missing (its packets were never numbered, as an SFU that dropped it
// would do): nothing that depends on it may be recorded until the next key frame.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, pids: true, pid: 200, w: 320, h: 240}
	want := 0
	for i := 0; i < 40; i++ {
		if i == 10 {
			v.pid++
		}
		for _, p := range v.frame(i == 0 || i == 30, 200, 1) {
			rec.PushVideo(p)
		}
		if i < 10 || i >= 30 {
			want++
		}
		v.ts += 3000
	}
	rec.Close()
	if n := len(readWebm(t, file)); n != want {
		t.Fatalf("%d frames were recorded, %d can be decoded", n, want)
	}
}
