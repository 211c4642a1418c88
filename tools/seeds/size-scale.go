package recorder_test

import (
	"bytes"
	"os"
	"testing"
)

// The picture size in the file is that of the video, whether or not it asks for upscaling.
func TestDemo(t *testing.T) {
	for _, scale := range []byte{0, 0x40, 0xc0} {
		rec, file := newRec(t, true, false)
		rec.SetHasVideo(true)
		v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
		for i := 0; i < 20; i++ {
			for _, p := range v.frame(i == 0, 600, 1) {
				if i == 0 {
					p.Payload[8] |= scale // of the width: a payload descriptor of one byte comes first
					p.Payload[10] |= scale
				}
				rec.PushVideo(p)
			}
			v.ts += 3000
		}
		rec.Close()
		b, err := os.ReadFile(file)
		if err != nil {
			t.Fatal(err)
		}
		size := func(id byte) (n int) {
			i := bytes.Index(b, []byte{0xe0}) // Video
			for i = i + bytes.IndexByte(b[i:], id); ; {
				l := int(b[i+1] & 0x7f)
				if b[i+1]&0x80 == 0 { // longer
					l = int(b[i+8])
					i += 7
				}
				for _, x := range b[i+2 : i+2+l] {
					n = n<<8 | int(x)
				}
				return
			}
		}
		if w, h := size(0xb0), size(0xba); w != 320 || h != 240 {
			t.Errorf("with scaling bits %x: %dx%d", scale, w, h)
		}
	}
}
