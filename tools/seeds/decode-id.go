package events_test

import (
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
)

// Whatever is published on the channel, the process goes on.
func TestDemo(t *testing.T) {
	for _, m := range []string{`{"id": 5}`, `{"id": null}`, `{"id": {}}`, `{"id": ["startRecording"]}`, `{}`, `[]`, `5`, ``} {
		if e := events.Decode([]byte(m)); e != nil && e.IsValid() && e.StartRecording() != nil {
			t.Fatalf("%s is a request", m)
		}
	}
}
