package recorder_test

import "testing"

// All audio is recorded, however little there is to it.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasAudio(true)
	for i := 0; i < 60; i++ {
		p := opus(uint16(i), uint32(i*960))
		if i > 20 && i < 40 {
			p.Payload = []byte{0x78, byte(i), 0xfe}
		}
		rec.PushAudio(p)
	}
	rec.Close()
	// The last one's duration isn't known
	if n := len(readWebm(t, file)); n < 59 {
		t.Fatalf("%d of 60 packets were recorded", n)
	}
}
