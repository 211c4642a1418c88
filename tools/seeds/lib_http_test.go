package @NAME@_test

import (
	"context"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
)

// loop is the broker between the HTTP endpoint and a recorder that answers every
// offer with "answer to" and the offer.
type loop struct {
	m sync.Mutex
	h map[string]pubsub.PubSubHandler
}

func (l *loop) Subscribe(channel string, h pubsub.PubSubHandler, _ func() error) {
	l.m.Lock()
	l.h[channel] = h
	l.m.Unlock()
}

func (l *loop) Publish(channel string, msg []byte) {
	var m struct {
		Sid            string `json:"recordingSessionId"`
		AdapterOptions struct {
			Mediasoup struct {
				SDP string `json:"sdp"`
			} `json:"mediasoup"`
		} `json:"adapterOptions"`
	}
	json.Unmarshal(msg, &m)
	r, _ := json.Marshal(map[string]string{"id": "startRecordingResponse", "recordingSessionId": m.Sid, "status": "ok", "sdp": "answer to " + m.AdapterOptions.Mediasoup.SDP})
	l.m.Lock()
	h := l.h["from"]
	l.m.Unlock()
	go h(context.Background(), r)
}

// serveHTTP starts the endpoint for the recordings in dir; it can only be done once.
func serveHTTP(t *testing.T, dir string) string {
	n, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := n.Addr().(*net.TCPAddr)
	n.Close()
	cfg := (&config.Config{}).GetDefaults()
	cfg.PubSub.Channels = config.Channels{Subscribe: "to", Publish: "from"}
	cfg.HTTP.Port = addr.Port
	cfg.Recorder.Directory = dir
	server.NewHTTPServer(cfg, &loop{h: map[string]pubsub.PubSubHandler{}}).Serve()
	url := "http://" + addr.String()
	for i := 0; ; i++ {
		if r, err := http.Get(url + "/favicon.ico"); err == nil {
			r.Body.Close()
			return url
		} else if i == 100 {
			t.Fatal(err)
		}
		time.Sleep(50 * time.Millisecond)
	}
}

func post(t *testing.T, url, body string) (int, string) {
	r, err := http.Post(url, "text/plain", strings.NewReader(body))
	if err != nil {
		t.Fatal(err)
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}

func get(t *testing.T, url string) (int, string) {
	r, err := http.Get(url)
	if err != nil {
		t.Fatal(err)
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, string(b)
}
