package recorder_test

import (
	"testing"
	"time"
)

type requests []time.Time

func (r *requests) RequestKeyframe()                  { *r = append(*r, time.Now()) }
func (r *requests) RequestKeyframeForSSRC(ssrc uint32) { *r = append(*r, time.Now()) }

// Publishers aren't flooded with requests for key frames: one a second is enough.
func TestDemo(t *testing.T) {
	for _, custom := range []bool{true, false} {
		rec, _ := newRec(t, custom, false)
		rec.SetHasVideo(true)
		rq := &requests{}
		rec.SetKeyframeRequester(rq)
		v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
		for i := 0; i < 140; i++ {
			ps := v.frame(i == 0, 300, 3)
			if i == 60 {
				ps = ps[:1]
			}
			for _, p := range ps {
				rec.PushVideo(p)
			}
			v.ts += 2700
			time.Sleep(30 * time.Millisecond)
		}
		rec.Close()
		if len(*rq) == 0 {
			t.Errorf("no key frame was requested")
		}
		for i := 1; i < len(*rq); i++ {
			if d := (*rq)[i].Sub((*rq)[i-1]); d < 900*time.Millisecond {
				t.Errorf("key frames were requested %v after each other", d)
				break
			}
		}
	}
}
