package server_test

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

// Only a POST with an offer starts a recording.
func TestDemo(t *testing.T) {
	url := serveHTTP(t, t.TempDir())
	for _, method := range []string{"GET", "PUT", "PATCH", "DELETE", "POST"} {
		for _, body := range []string{"", "offer"} {
			q, err := http.NewRequest(method, url+"/sdp", strings.NewReader(body))
			if err != nil {
				t.Fatal(err)
			}
			r, err := http.DefaultClient.Do(q)
			if err != nil {
				t.Fatal(err)
			}
			b, _ := io.ReadAll(r.Body)
			r.Body.Close()
			if ok := method == "POST" && body != ""; ok != (r.StatusCode == 200) {
				t.Errorf("%s with %q: status %d, %q", method, body, r.StatusCode, b)
			}
		}
	}
}
