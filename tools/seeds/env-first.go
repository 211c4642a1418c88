package config_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
)

// The environment overrides the file, which overrides the defaults.
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "demo.yml")
	os.WriteFile(f, []byte("recorder:\n  directory: /from/file\n  fileMode: \"0640\"\nwebrtc:\n  jitterBuffer: 77\n"), 0600)
	t.Setenv("BBBRECORDER_RECORDER_DIRECTORY", "/from/env")
	t.Setenv("BBBRECORDER_HTTP_PORT", "8123")
	cfg := (&config.Config{}).GetDefaults()
	if _, err := cfg.Load(config.App{Name: "demo"}, f); err != nil {
		t.Fatal(err)
	}
	if cfg.Recorder.Directory != "/from/env" || cfg.HTTP.Port != 8123 {
		t.Errorf("from the environment: %q, %d", cfg.Recorder.Directory, cfg.HTTP.Port)
	}
	if cfg.Recorder.FileMode != "0640" || cfg.WebRTC.JitterBuffer != 77 {
		t.Errorf("from the file: %q, %d", cfg.Recorder.FileMode, cfg.WebRTC.JitterBuffer)
	}
	if cfg.Recorder.DirFileMode != "0700" || cfg.WebRTC.RTCMinPort != 24577 {
		t.Errorf("defaults: %q, %d", cfg.Recorder.DirFileMode, cfg.WebRTC.RTCMinPort)
	}
}
