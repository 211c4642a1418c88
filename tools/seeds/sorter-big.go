package recorder_test

import (
	"os"
	"testing"
	"time"
)

// A recorder that's killed leaves all but the latest media behind, also if only one
// of the two tracks sends anything.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	seq, ts := uint16(500), uint32(48000)
	for i := 0; i < 3000; i++ {
		for _, p := range v.frame(i%100 == 0, 1000, 1) {
			rec.PushVideo(p)
		}
		v.ts += 3600
		if i < 50 {
			// then it's muted
			rec.PushAudio(opus(seq, ts))
			rec.PushAudio(opus(seq+1, ts+960))
			seq, ts = seq+2, ts+1920
		}
	}
	time.Sleep(500 * time.Millisecond)
	st, err := os.Stat(file)
	if err != nil {
		t.Fatal(err)
	}
	size := st.Size()
	rec.Close()
	if size < 2000000 {
		t.Fatalf("after two minutes of video of 1 kB a frame there are %d bytes in the file", size)
	}
}
