package recorder_test

import (
	"bytes"
	"testing"
)

// Every recorded frame is one that was sent, also of a recording with audio,
// where video may have to wait until it's written.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	var sent [][]byte
	seq, ts := uint16(500), uint32(48000)
	for i := 0; i < 100; i++ {
		var f []byte
		for _, p := range v.frame(i%20 == 0, 200+i*7%400, 2) {
			f = append(f, p.Payload[1:]...)
			rec.PushVideo(p)
		}
		sent = append(sent, f)
		v.ts += 3600
		for k := 0; k < 2; k++ {
			rec.PushAudio(opus(seq, ts))
			seq++
			ts += 960
		}
	}
	rec.Close()
	n := 0
	for _, b := range readWebm(t, file) {
		if b.track != 1 && len(b.data) < 50 {
			continue
		}
		for n < len(sent) && !bytes.Equal(sent[n], b.data) {
			n++
		}
		if n == len(sent) {
			t.Fatalf("recorded at %d ms: %d bytes that are no frame that was sent, or not in order", b.tc, len(b.data))
		}
		n++
	}
	if n < 90 {
		t.Fatalf("only the first %d frames were recorded", n)
	}
}
