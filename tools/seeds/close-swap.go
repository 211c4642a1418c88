package recorder_test

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
	"time"
)

// open tells whether this process has the file open.
func open(file string) bool {
	file, _ = filepath.EvalSymlinks(file)
	l, _ := os.ReadDir("/proc/self/fd")
	for _, e := range l {
		if to, _ := os.Readlink("/proc/self/fd/" + e.Name()); to == file {
			return true
		}
	}
	return false
}

// All that was received is in the file once it is closed.
func TestDemo(t *testing.T) {
	rec, file := newRec(t, true, false)
	rec.SetHasVideo(true)
	rec.SetHasAudio(true)
	v := &vp8{seq: 100, ts: 9000, w: 320, h: 240}
	for i := 0; i < 50; i++ {
		for _, p := range v.frame(i == 0, 600, 2) {
			rec.PushVideo(p)
		}
		v.ts += 1800
		rec.PushAudio(opus(uint16(i), uint32(i*960)))
	}
	rec.Close()
	for i := 0; open(file); i++ {
		if i == 20 {
			t.Fatal("the file is still open")
		}
		time.Sleep(100 * time.Millisecond)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	if n := bytes.Count(b, []byte{0xa3}); n < 90 {
		t.Fatalf("the file ends early: %d bytes", len(b))
	}
	video := 0
	for _, x := range readWebm(t, file) {
		if x.track == 1 {
			video++
		}
	}
	if video != 50 {
		t.Fatalf("%d of 50 frames are in the file", video)
	}
}
