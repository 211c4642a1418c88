package recorder_test

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// The folders of a recording are made as needed.
func TestDemo(t *testing.T) {
	cfg := (&config.Config{}).GetDefaults().Recorder
	cfg.Directory = t.TempDir()
	for _, f := range []string{"a.webm", "b/c.webm", "b/d.webm", "e/f/g/h.webm"} {
		r, err := recorder.NewRecorder(context.Background(), cfg, f)
		if err != nil {
			t.Fatalf("%s: %v", f, err)
		}
		if _, err := os.Stat(filepath.Dir(filepath.Join(cfg.Directory, f))); err != nil {
			t.Errorf("%s: %v", f, err)
		}
		r.Close()
	}
}
