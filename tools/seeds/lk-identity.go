package livekit_test

import (
	"context"
	"encoding/base64"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/livekit"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// Recordings in one room are participants of their own: a server throws the first
// one out when there's a second with the same identity.
func TestDemo(t *testing.T) {
	var m sync.Mutex
	seen := map[string]string{}
	current := ""
	sub := regexp.MustCompile(`"sub":"([^"]*)"`)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		m.Lock()
		defer m.Unlock()
		tok := r.URL.Query().Get("access_token")
		if tok == "" {
			tok = strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")
		}
		if p := strings.Split(tok, "."); len(p) == 3 {
			b, _ := base64.RawURLEncoding.DecodeString(p[1])
			if x := sub.FindSubmatch(b); x != nil {
				seen[current] = string(x[1])
			}
		}
		w.WriteHeader(http.StatusUnauthorized)
	}))
	defer srv.Close()
	ids := map[string]string{}
	for _, sid := range []string{"10c87dfe8a1b4c3dafe1-1732000000000-7", "10c87dfe8a1b4c3dafe1-1732000000000-8", "10c87dfe8a1b4c3dafe1-1732000000001-7", "a", "b"} {
		m.Lock()
		current = sid
		m.Unlock()
		lk := livekit.NewLiveKitWebRTC(context.WithValue(context.Background(), "session", sid),
			config.LiveKit{Host: strings.Replace(srv.URL, "http", "ws", 1), APIKey: "key", APISecret: "secretsecretsecretsecretsecretsecret"}, "room", []string{"TR_1"})
		rec := recorder.NewWebmRecorder(filepath.Join(t.TempDir(), "x.webm"), 0600, 256, 32, true, false)
		lk.SetFlowCallback(func(bool, time.Duration, bool) {})
		if err := lk.Init(rec); err == nil {
			t.Fatal("there is no such server")
		}
		m.Lock()
		id := seen[sid]
		m.Unlock()
		if id == "" {
			t.Fatalf("%s: no identity", sid)
		}
		if o := ids[id]; o != "" {
			t.Fatalf("sessions %s and %s are both participant %s", o, sid, id)
		}
		ids[id] = sid
	}
}
