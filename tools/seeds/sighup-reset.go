package pubsub_test

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

// Reload signals don't end the process, at whatever moment they come.
func TestDemo(t *testing.T) {
	b := newBroker(t)
	dir := t.TempDir()
	bin := filepath.Join(dir, "recorder")
	if out, err := exec.Command("go", "build", "-o", bin, "github.com/bigbluebutton/bbb-webrtc-recorder/cmd/bbb-webrtc-recorder").CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	// it takes a while to read
	y := fmt.Sprintf("recorder:\n  directory: %s\npubsub:\n  channels: {subscribe: to, publish: from}\n  adapter: redis\n  adapters:\n    redis: {address: %q, network: tcp}\n", dir, b.addr())
	for i := 0; i < 3000; i++ {
		y += fmt.Sprintf("# line %d\n", i)
	}
	cfg := filepath.Join(dir, "config.yml")
	if err := os.WriteFile(cfg, []byte(y), 0600); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(bin, "-c", cfg)
	c.Dir = dir
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	defer func() { c.Process.Kill() }()
	for i := 0; b.subscribers() == 0; i++ {
		if i == 100 {
			t.Fatal("it doesn't start")
		}
		time.Sleep(100 * time.Millisecond)
	}
	for i := 0; i < 3000; i++ {
		c.Process.Signal(syscall.SIGHUP)
		time.Sleep(time.Duration(i%20) * 50 * time.Microsecond)
		select {
		case err := <-done:
			t.Fatalf("the recorder ended after %d reload signals: %v", i+1, err)
		default:
		}
	}
}
