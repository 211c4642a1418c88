package server_test

import (
	"strings"
	"testing"
)

// The answer is the one to the caller's offer, which may be long.
func TestDemo(t *testing.T) {
	url := serveHTTP(t, t.TempDir())
	for _, n := range []int{10, 1000, 4000, 9000, 70000} {
		offer := strings.Repeat("0123456789", n/10)
		if c, a := post(t, url+"/sdp", offer); c != 200 || a != "answer to "+offer {
			t.Fatalf("offer of %d bytes: status %d, answer to %d bytes", n, c, len(a)-10)
		}
	}
}
