package recorder_test

import (
	"context"
	"os"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// Settings take effect in whatever notation.
func TestDemo(t *testing.T) {
	for _, mode := range []string{"0640", "0o640", "416", "0x1a0", "0b110100000"} {
		cfg := (&config.Config{}).GetDefaults().Recorder
		cfg.Directory = t.TempDir()
		cfg.FileMode = mode
		_, m, err := recorder.ValidateAndPrepareFile(context.Background(), cfg, "demo.webm")
		if err != nil || m != os.FileMode(0640) {
			t.Fatalf("file mode %s: %v, %v", mode, m, err)
		}
	}
}
