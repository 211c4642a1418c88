package recorder_test

import (
	"testing"

	"github.com/pion/rtp"
)

// Whatever a publisher sends, the recorder keeps running, and so does the recording.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 30; i++ {
		for _, p := range v.frame(i%15 == 0, 300, 1) {
			rec.PushVideo(p)
		}
		v.ts += 3000
		if i == 10 {
			// no more than the first bytes of a key frame
			for _, n := range []int{1, 2, 3, 4, 6, 7, 8, 9} {
				data := append([]byte{0x10}, []byte{0x10, 0, 0, 0x9d, 0x01, 0x2a, 0x40, 1, 0xf0, 0}[:n]...)
				rec.PushVideo(&rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SSRC: 77, SequenceNumber: v.seq, Timestamp: v.ts, Marker: true}, Payload: data})
				v.seq++
				v.ts += 3000
			}
		}
	}
	rec.Close()
	if n := len(readWebm(t, file)); n < 26 {
		t.Fatalf("only %d frames were recorded", n)
	}
}
