package server_test

import (
	"context"
	"encoding/json"
	"fmt"
	"testing"

	pion "github.com/pion/webrtc/v3"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
)

// Sessions are told apart by their ids.
func TestDemo(t *testing.T) {
	p := publish(t, true, false, nil) // "demo"
	for _, id := range []string{"Demo", "DEMO", "demo ", "demo2"} {
		pc, err := pion.NewPeerConnection(pion.Configuration{})
		if err != nil {
			t.Fatal(err)
		}
		defer pc.Close()
		if _, err := pc.AddTransceiverFromKind(pion.RTPCodecTypeVideo, pion.RTPTransceiverInit{Direction: pion.RTPTransceiverDirectionSendrecv}); err != nil {
			t.Fatal(err)
		}
		offer, err := pc.CreateOffer(nil)
		if err != nil {
			t.Fatal(err)
		}
		j, _ := json.Marshal(map[string]interface{}{"id": "startRecording", "recordingSessionId": id, "fileName": fmt.Sprintf("x%x.webm", id), "sdp": signal.Encode(offer)})
		p.srv.HandlePubSub(context.Background(), j)
		ev, _ := p.bus.events("startRecordingResponse")
		if last := ev[len(ev)-1]; last["recordingSessionId"] != id || last["status"] != "ok" {
			t.Errorf("%q beside \"demo\": %v", id, last)
		}
		p.srv.HandlePubSub(context.Background(), []byte(fmt.Sprintf(`{"id": "stopRecording", "recordingSessionId": %q}`, id)))
		if ev, _ := p.bus.events("recordingStopped"); len(ev) == 0 || ev[len(ev)-1]["recordingSessionId"] != id {
			t.Errorf("%q is not stopped: %v", id, ev)
		}
	}
	p.stop()
}
