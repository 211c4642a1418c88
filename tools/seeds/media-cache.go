package server_test

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// A recording is served as it is.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	url := serveHTTP(t, dir)
	f, err := os.Create(filepath.Join(dir, "demo.webm"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	all := ""
	for i := 0; i < 4; i++ {
		s := strings.Repeat(string(rune('a'+i)), 1000)
		f.WriteString(s)
		all += s
		if c, b := get(t, url+"/media/demo.webm"); c != 200 || b != all {
			t.Fatalf("with %d bytes in the file: status %d, %d bytes", len(all), c, len(b))
		}
	}
}
