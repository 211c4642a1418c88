package recorder_test

import "testing"

// Video stalls for long while audio goes on, then comes at once: both are recorded.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	videos := 0
	video := func(key bool) {
		for _, p := range v.frame(key, 200, 1) {
			rec.PushVideo(p)
		}
		videos++
		v.ts += 1800 // 20 ms
	}
	audios := 0
	audio := func() {
		rec.PushAudio(opus(uint16(500+audios), uint32(audios*960)))
		audios++
	}
	for i := 0; i < 50; i++ {
		video(i == 0)
		audio()
	}
	for i := 0; i < 600; i++ { // 12 s
		audio()
	}
	for i := 0; i < 600; i++ {
		video(false)
	}
	for i := 0; i < 50; i++ {
		video(false)
		audio()
	}
	rec.Close()
	n := map[int]int{}
	for _, b := range readWebm(t, file) {
		n[b.track]++
	}
	if n[1] != videos || n[2] < audios-2 {
		t.Fatalf("%d of %d video frames and %d of %d audio packets were recorded", n[1], videos, n[2], audios)
	}
}
