package recorder_test

import (
	"encoding/binary"
	"os"
	"strings"
	"testing"
)

// readIVF lists the frames of an IVF file.
func readIVF(t *testing.T, file string) (count int, frames [][]byte) {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 32 || string(b[:4]) != "DKIF" {
		t.Fatalf("%v: not an IVF file: %q", err, b)
	}
	count = int(binary.LittleEndian.Uint32(b[24:]))
	for p := 32; p < len(b); {
		n := 0
		if p+12 <= len(b) {
			n = int(binary.LittleEndian.Uint32(b[p:]))
		}
		if p+12+n > len(b) {
			t.Fatalf("frame %d is cut off", len(frames))
		}
		frames = append(frames, b[p+12:p+12+n])
		p += 12 + n
	}
	return
}

func TestDemo(t *testing.T) {
	for _, custom := range []bool{true, false} {
		rec, file := newRec(t, custom, true)
		rec.SetHasVideo(true)
		v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
		var sent [][]byte
		const total = 101
		for i := 0; i < total; i++ {
			if i == 20 {
				v.w, v.h = 640, 360 // the publisher changes its resolution
			}
			var f []byte
			for _, p := range v.frame(i%20 == 0, 100+i, 1) {
				rec.PushVideo(p)
				f = append(f, p.Payload[1:]...)
			}
			sent = append(sent, f)
			v.ts += 3000
		}
		// to the sampler a frame is complete with the start of the next one
		rec.Close()
		count, frames := readIVF(t, strings.TrimSuffix(file, ".webm")+".ivf")
		webm := readWebm(t, file)
		if len(frames) != len(webm) || count != len(frames) {
			t.Fatalf("%d frames of the %d in the recording, the header says %d", len(frames), len(webm), count)
		}
		for i, f := range frames {
			if string(f) != string(sent[i]) {
				t.Fatalf("frame %d isn't what was sent", i)
			}
		}
	}
}
