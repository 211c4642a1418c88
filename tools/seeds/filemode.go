package recorder_test

import (
	"context"
	"os"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// Folders and files are created with the modes that are configured for them.
func TestDemo(t *testing.T) {
	defer syscall.Umask(syscall.Umask(0))
	dir := t.TempDir()
	cfg := config.Recorder{Directory: dir, DirFileMode: "0750", FileMode: "0640", VideoPacketQueueSize: 64, AudioPacketQueueSize: 16, UseCustomSampler: true}
	rec, err := recorder.NewRecorder(context.Background(), cfg, "meeting/sub/a.webm")
	if err != nil {
		t.Fatal(err)
	}
	rec.SetHasAudio(true)
	for i := 0; i < 20; i++ {
		rec.PushAudio(opus(uint16(i), uint32(i*960)))
	}
	rec.Close()
	for name, mode := range map[string]os.FileMode{"meeting": 0750, "meeting/sub": 0750, "meeting/sub/a.webm": 0640} {
		st, err := os.Stat(filepath.Join(dir, name))
		if err != nil {
			t.Fatal(err)
		}
		if st.Mode().Perm() != mode {
			t.Errorf("%s has mode %o instead of %o", name, st.Mode().Perm(), mode)
		}
	}
}
