package server_test

import (
	"net/url"
	"os"
	"path/filepath"
	"testing"
)

// A recording is found whatever its name looks like.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	u := serveHTTP(t, dir)
	for _, name := range []string{"a.webm", "a b.webm", "50%.webm", "a%41.webm", "a%2e.webm", "a+b#c?.webm"} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte("this is "+name), 0600); err != nil {
			t.Fatal(err)
		}
	}
	for _, name := range []string{"a.webm", "a b.webm", "50%.webm", "a%41.webm", "a%2e.webm", "a+b#c?.webm"} {
		if c, b := get(t, u+"/media/"+url.PathEscape(name)); c != 200 || b != "this is "+name {
			t.Errorf("%s: status %d, %q", name, c, b)
		}
	}
	// no file
	if c, b := get(t, u+"/media/a%2541.webm.x"); c != 404 {
		t.Errorf("status %d, %q", c, b)
	}
}
