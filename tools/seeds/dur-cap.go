package recorder_test

import "testing"

// Audio and video are in step also after the camera was off for a while.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	seq, ts := uint16(500), uint32(48000)
	for i := 0; i < 1500; i++ { // 20 ms each
		if i < 100 || i > 1300 {
			for _, p := range v.frame(i == 0 || i == 1301, 300, 1) {
				rec.PushVideo(p)
			}
		}
		v.ts += 1800
		rec.PushAudio(opus(seq, ts))
		seq++
		ts += 960
	}
	rec.Close()
	last := map[int]int64{}
	for _, b := range readWebm(t, file) {
		last[b.track] = b.tc
	}
	if len(last) != 2 {
		t.Fatalf("tracks: %v", last)
	}
	var a []int64
	for _, x := range last {
		a = append(a, x)
	}
	if d := a[0] - a[1]; d < -500 || d > 500 {
		t.Fatalf("the last audio packet and video frame were captured together, in the recording they're %d ms apart", d)
	}
}
