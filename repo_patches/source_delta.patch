From b0fec93d2eeeae639003ad3c5285961dd8b996c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 01/29] fix: WebRTC setters and Init must work on the same
 object

Value receivers made every setter modify a copy, so that every mediasoup
start failed with 'connStateCallbackFn is not set' and Close dereferenced a
nil peer connection.
---
 internal/webrtc/webrtc.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..38c00f5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,7 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 1aa14d9e923e58aee589e48bfc464012fd874cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 02/29] fix: undecodable control messages must not crash the
 recorder

events.Decode returns nil for anything that is not a JSON object with a
known shape; HandlePubSub dereferenced it.
---
 internal/server/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..379ad92 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -30,7 +30,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 	log.Trace(string(msg))
 	event := events.Decode(msg)
 
-	if !event.IsValid() {
+	if event == nil || !event.IsValid() {
 		return
 	}
 
@@ -39,7 +39,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			log.Error("incorrect startRecording event")
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
-- 
2.43.0


From ac773a427e3aad973859a7c136d8869cda40da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 03/29] fix: a failed start is answered once and leaves nothing
 behind

Starting a mediasoup recording that failed published both a success and a
failure response; for both adapters the session stayed registered, the
session gauge stayed incremented and the connection stayed open.
---
 internal/server/server.go  |  9 +++++++--
 internal/server/session.go | 12 ++++++++++++
 internal/webrtc/webrtc.go  |  4 ++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 379ad92..d7df263 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -83,6 +83,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			if _, err := sess.StartRecording(e); err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.Abort()
 				s.PublishPubSub(e.Fail(err))
 				return
 			}
@@ -99,6 +100,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			var sdp string
+			var sess *Session
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
@@ -107,17 +109,20 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 				}()
 
 				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+				sess = NewSession(e.SessionId, s, wrtc, nil, rec)
 				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
 			}()
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
+				sess.Abort()
 				s.PublishPubSub(e.Fail(err))
+				return
 			}
 
+			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
 			log.WithField("session", ctx.Value("session")).Error(err)
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..bc8e23d 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -95,3 +95,15 @@ func (s *Session) StopRecording() time.Duration {
 	}
 	return 0
 }
+
+// Abort releases everything a recording that failed to start has acquired
+func (s *Session) Abort() {
+	s.StopRecording()
+	if s.webrtc != nil {
+		s.webrtc.Close()
+	}
+	if s.livekit != nil {
+		s.livekit.Close()
+	}
+	s.server.CloseSession(s.id)
+}
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 38c00f5..750d290 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -507,6 +507,10 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 }
 
 func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 62334bcdeed1b63828521c3408c26a23c172c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/29] fix: a recording ends once, and is silent afterwards

The end of a recording was reported by every track and by the connection
state callback independently, without synchronisation, and on stop the
connection and its tracks stayed alive and kept reporting. The end of an
old recording could also remove a new session that reuses its id.
---
 internal/server/server.go  | 17 +++++----
 internal/server/session.go | 73 +++++++++++++++++++++++++-------------
 2 files changed, 59 insertions(+), 31 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index d7df263..0eb456c 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
@@ -45,7 +44,12 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
 
-		_, ok := s.sessions.Load(e.SessionId)
+		prev, ok := s.sessions.Load(e.SessionId)
+		if ok && prev.(*Session).ending() {
+			// The id is free again once the end of its session was reported
+			<-prev.(*Session).ended
+			_, ok = s.sessions.Load(e.SessionId)
+		}
 		if ok {
 			err := fmt.Errorf("session %s already exists", e.SessionId)
 			log.Error(err)
@@ -138,9 +142,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess.(*Session).End("stopped")
 		}
 
 	case "getRecorderStatus":
@@ -159,6 +161,7 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
+	close(sess.ended)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index bc8e23d..da1f148 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -18,7 +19,9 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
+	m        sync.Mutex
 	stopped  bool
+	ended    chan struct{} // closed once the end of the session was reported
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -28,6 +31,7 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 		webrtc:   wrtc,
 		livekit:  lk,
 		recorder: recorder,
+		ended:    make(chan struct{}),
 	}
 }
 
@@ -39,22 +43,15 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
-				}
+				s.End(state.String())
 			}
 		})
 		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
 			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
+				s.reportFlow(isFlowing, timestamp)
 			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
+				s.End("closed")
 			}
-			s.server.PublishPubSub(message)
 		})
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
@@ -69,14 +66,11 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
 		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
 			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
+				s.reportFlow(isFlowing, timestamp)
 			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
+				s.End("closed")
 			}
-			s.server.PublishPubSub(message)
 		})
 
 		if err := s.livekit.Init(s.recorder); err != nil {
@@ -87,23 +81,54 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
+func (s *Session) reportFlow(isFlowing bool, timestamp time.Duration) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
 	}
-	return 0
 }
 
-// Abort releases everything a recording that failed to start has acquired
-func (s *Session) Abort() {
-	s.StopRecording()
+func (s *Session) ending() bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.stopped
+}
+
+// StopRecording finalizes the recording and releases its connection. It returns
+// false if that was done before.
+func (s *Session) StopRecording() (time.Duration, bool) {
+	s.m.Lock()
+	if s.stopped {
+		s.m.Unlock()
+		return 0, false
+	}
+	s.stopped = true
+	s.m.Unlock()
+
+	prometheus.Sessions.Dec()
 	if s.webrtc != nil {
 		s.webrtc.Close()
 	}
 	if s.livekit != nil {
 		s.livekit.Close()
 	}
-	s.server.CloseSession(s.id)
+	return s.recorder.Close(), true
+}
+
+// End stops the recording and reports it, once
+func (s *Session) End(reason string) {
+	if ts, ok := s.StopRecording(); ok {
+		s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
+		s.server.CloseSession(s)
+	}
+}
+
+// Abort releases everything a recording that failed to start has acquired
+func (s *Session) Abort() {
+	if _, ok := s.StopRecording(); ok {
+		s.server.CloseSession(s)
+	}
 }
-- 
2.43.0


From 241a339a2364f7456273cacec8aeb5937dd4f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 05/29] fix: no event of a recording precedes the response to
 its start request

---
 internal/server/server.go  |  2 ++
 internal/server/session.go | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 0eb456c..47bee06 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -93,6 +93,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			s.PublishPubSub(e.Success("", rec.GetFilePath()))
+			sess.Started()
 
 		case "mediasoup", "":
 			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
@@ -126,6 +127,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+			sess.Started()
 
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
diff --git a/internal/server/session.go b/internal/server/session.go
index da1f148..dd55872 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -21,6 +21,7 @@ type Session struct {
 	recorder recorder.Recorder
 	m        sync.Mutex
 	stopped  bool
+	started  chan struct{} // closed once the start request was answered
 	ended    chan struct{} // closed once the end of the session was reported
 }
 
@@ -31,6 +32,7 @@ func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWe
 		webrtc:   wrtc,
 		livekit:  lk,
 		recorder: recorder,
+		started:  make(chan struct{}),
 		ended:    make(chan struct{}),
 	}
 }
@@ -81,7 +83,14 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
+// Started is called once the start request was answered: from then on events
+// of the recording are reported
+func (s *Session) Started() {
+	close(s.started)
+}
+
 func (s *Session) reportFlow(isFlowing bool, timestamp time.Duration) {
+	<-s.started
 	s.m.Lock()
 	defer s.m.Unlock()
 
@@ -120,6 +129,7 @@ func (s *Session) StopRecording() (time.Duration, bool) {
 
 // End stops the recording and reports it, once
 func (s *Session) End(reason string) {
+	<-s.started
 	if ts, ok := s.StopRecording(); ok {
 		s.server.PublishPubSub(events.NewRecordingStopped(s.id, reason, ts/time.Millisecond))
 		s.server.CloseSession(s)
@@ -128,7 +138,7 @@ func (s *Session) End(reason string) {
 
 // Abort releases everything a recording that failed to start has acquired
 func (s *Session) Abort() {
-	if _, ok := s.StopRecording(); ok {
-		s.server.CloseSession(s)
-	}
+	s.StopRecording()
+	s.server.CloseSession(s)
+	close(s.started)
 }
-- 
2.43.0


From 576c13bae3bf14446720a4b1c2e0d02b21ad315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 06/29] fix: HTTP test endpoint answers each caller with its
 own answer

Answers were handed over through an unsynchronised map that was dereferenced
for any session on the channel; sessions of the same second collided, a failed
start was never answered.
---
 internal/server/http.go | 65 ++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..96770c5 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,21 +3,27 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
+// How long the recorder may take to answer a start request
+const answerTimeout = 30 * time.Second
+
 type HTTPServer struct {
 	cfg       *config.Config
 	port      int
@@ -37,13 +43,23 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	answerChannels := make(map[string]chan string)
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
+			if event == nil {
+				return
+			}
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				answerChan, ok := answerChannels[e.SessionId]
+				delete(answerChannels, e.SessionId)
+				m.Unlock()
+				if ok && e.SDP != nil {
+					answerChan <- *e.SDP
+				} else if ok {
+					close(answerChan)
 				}
 			}
 		},
@@ -51,15 +67,17 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
+	go s.serve(func(ctx context.Context, sdp string) (string, error) {
 		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+		sessId := fmt.Sprintf("%s-%s", t.Format("20060102150405"), uuid.New().String())
+		answerChan := make(chan string, 1)
+		m.Lock()
+		answerChannels[sessId] = answerChan
+		m.Unlock()
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
-			FileName:  fmt.Sprintf("%s.webm", t.Format("20060102150405")),
+			FileName:  fmt.Sprintf("%s.webm", sessId),
 			Adapter:   "mediasoup",
 			AdapterOptions: &events.AdapterOptions{
 				Mediasoup: &events.MediasoupConfig{
@@ -69,13 +87,26 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		ctx, cancel := context.WithTimeout(ctx, answerTimeout)
+		defer cancel()
+
+		select {
+		case answer, ok := <-answerChan:
+			if !ok {
+				return "", errors.New("recording failed to start")
+			}
+			return answer, nil
+		case <-ctx.Done():
+			m.Lock()
+			delete(answerChannels, sessId)
+			m.Unlock()
+			return "", ctx.Err()
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(context.Context, string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -84,8 +115,14 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(r.Context(), string(body))
+		if err != nil {
+			log.Error(err)
+			w.WriteHeader(http.StatusBadGateway)
+			fmt.Fprint(w, err)
+			return
+		}
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From 585f8cb13b0a264254c2f6151b89957a4f084dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 07/29] fix: a recording's file name cannot leave the recording
 directory

---
 internal/webrtc/recorder/recorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..c5989c6 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -44,6 +45,10 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		file = path.Clean(dir + string(os.PathSeparator) + file)
 		fileDir := path.Dir(file)
 
+		if !strings.HasPrefix(file, strings.TrimSuffix(dir, "/")+"/") {
+			return "", 0, fmt.Errorf("file is outside of the recording directory %s", file)
+		}
+
 		if _, err := os.Stat(fileDir); err != nil {
 			if !os.IsNotExist(err) {
 				return "", 0, fmt.Errorf("file directory is not accessible %s", fileDir)
-- 
2.43.0


From 82c651ee955534aeb385ac773d2638247fe46295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 08/29] fix: a recording never overwrites a file

---
 internal/webrtc/recorder/ivfwriter.go |  4 ++--
 internal/webrtc/recorder/recorder.go  | 22 ++++++++++++++++++++++
 internal/webrtc/recorder/webm.go      | 12 +++++++++---
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..a701f15 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -26,7 +26,7 @@ type RTPPacketWithMeta struct {
 }
 
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
@@ -34,7 +34,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ext := filepath.Ext(basePath)
 	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, fileMode)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index c5989c6..ab5a887 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -87,6 +88,23 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 	return file, fileMode, nil
 }
 
+// Files of the recordings in progress. They are only created once there is
+// something to write, until then nothing else can tell that a name is taken.
+var reserved sync.Map
+
+func reserve(file string) bool {
+	if file == os.DevNull {
+		return true
+	}
+
+	_, taken := reserved.LoadOrStore(file, true)
+	return !taken
+}
+
+func release(file string) {
+	reserved.Delete(file)
+}
+
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
@@ -98,6 +116,10 @@ func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorde
 	var r Recorder
 	switch ext {
 	case ".webm":
+		if !reserve(file) {
+			return nil, fmt.Errorf("file is already being recorded to %s", file)
+		}
+
 		r = NewWebmRecorder(
 			file,
 			fileMode,
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..9c0e03f 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -269,6 +269,8 @@ func (r *WebmRecorder) close() time.Duration {
 		r.ivfWriter = nil
 	}
 
+	release(r.file)
+
 	return r.videoTimestamp
 }
 
@@ -897,7 +899,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 func (r *WebmRecorder) startIVFWriter() error {
 	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
@@ -947,7 +949,11 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	}
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
-	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
+	flags := os.O_WRONLY | os.O_CREATE | os.O_EXCL
+	if r.file == os.DevNull {
+		flags = os.O_WRONLY
+	}
+	w, err := os.OpenFile(r.file, flags, r.fileMode)
 	if err != nil {
 		panic(err)
 	}
@@ -1036,7 +1042,7 @@ func (r *WebmRecorder) initWriter(width, height int) {
 
 	r.started = true
 
-	if r.writeIVFCopy && r.hasVideo {
+	if r.writeIVFCopy && r.hasVideo && r.file != os.DevNull {
 		if err := r.startIVFWriter(); err != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Warnf("Error starting RTP ivf: %v", err)
-- 
2.43.0


From 3039de3c9250af5d9f1890a282149c6ee8126592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 09/29] fix: the file of a recording is opened once

---
 internal/webrtc/recorder/webm.go | 35 +++++++++++++++++++-------------
 internal/webrtc/webrtc.go        | 11 ++++++++++
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9c0e03f..51e1bf5 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -22,6 +22,7 @@ const (
 	opusSampleRate      = 48000
 	vp8SampleRate       = 90000
 	secondToNanoseconds = 1000000000
+	maxAudioWaiting     = 10 * time.Second
 )
 
 type VP8PartitionTracker struct {
@@ -61,6 +62,8 @@ type WebmRecorder struct {
 	audioWriter, videoWriter       webm.BlockWriteCloser
 	audioBuilder, videoBuilder     *samplebuilder.SampleBuilder
 	audioTimestamp, videoTimestamp time.Duration
+	// How much audio was dropped while waiting for video
+	audioWaiting time.Duration
 
 	started bool
 	closed  bool
@@ -320,9 +323,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			isKf = ts == r.currKeyFrame.Timestamp
 		}
 
-		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+		if isKf && !r.started {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
@@ -369,12 +370,22 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		}
 
 		// Initialize writer here only if we have audio and no video
-		// Otherwise, we'll initialize it in pushVP8
-		if r.audioWriter == nil && r.hasAudio && !r.hasVideo {
-			r.initWriter(0, 0)
+		// Otherwise, we'll initialize it in pushVP8 - unless video just doesn't
+		// come, there's no point in losing the audio as well
+		if !r.started {
+			r.audioWaiting += sample.Duration
+
+			if !r.hasVideo || r.audioWaiting > maxAudioWaiting {
+				r.initWriter(0, 0)
+			}
 		}
 
 		if r.audioWriter != nil {
+			// Audio might start later than video
+			if !r.hasValidAudio && r.audioTimestamp < r.videoTimestamp {
+				r.audioTimestamp = r.videoTimestamp
+			}
+
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 				panic(err)
@@ -713,6 +724,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					p.SequenceNumber, p.Timestamp, pictureID)
 			r.seenKeyFrame = true
 			r.packetTimestamp = p.Timestamp
+			// Video might start later than audio
+			r.videoTimestamp = r.audioTimestamp
 		}
 
 		r.lastKeyFrameTime = time.Now()
@@ -824,14 +837,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Frame duration: %v, pts=%v, new timestamp: %v, prevPacketTS: %v, newPacketTS: %v",
 			duration, newPts, r.videoTimestamp+duration, r.packetTimestamp, p.Timestamp)
 
-	// Initialize writer if either:
-	// 1. We don't have a video writer yet and we have video
-	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
-	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
-
+	// The file is opened once: opening it again would drop what was recorded
+	if !r.started {
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
 		height := int((raw >> 16) & 0x3FFF)
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 750d290..e5554e5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -142,12 +142,23 @@ func (w *WebRTC) Init(
 	w.pc = peerConnection
 
 	for _, md := range sdpOffer.MediaDescriptions {
+		_, inactive := md.Attribute("inactive")
+		_, recvOnly := md.Attribute("recvonly")
+		sends := !inactive && !recvOnly
+
+		// The recorder needs to know upfront which tracks the file will have
 		switch md.MediaName.Media {
 		case "audio":
+			if sends {
+				rec.SetHasAudio(true)
+			}
 			if _, err = peerConnection.AddTransceiverFromKind(webrtc.RTPCodecTypeAudio); err != nil {
 				panic(err)
 			}
 		case "video":
+			if sends {
+				rec.SetHasVideo(true)
+			}
 			if _, err = peerConnection.AddTransceiverFromKind(webrtc.RTPCodecTypeVideo); err != nil {
 				panic(err)
 			}
-- 
2.43.0


From 59e18e2a32b5381ec28caa3579db169819a9ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 10/29] fix: a storage error stays inside the recording it hits

---
 internal/webrtc/recorder/ivfwriter.go |  10 ++-
 internal/webrtc/recorder/webm.go      | 101 +++++++++++++++++++++-----
 2 files changed, 92 insertions(+), 19 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a701f15..203bcfe 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -14,6 +14,7 @@ type IVFWriter struct {
 	enabled  bool
 	filePath string
 	closed   bool
+	failed   bool
 	frameCount uint64
 }
 
@@ -47,7 +48,10 @@ func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	}
 
 	// Reminder: update size on keyframes
-	ivf.writeIVFHeader(640, 480)
+	if err := ivf.writeIVFHeader(640, 480); err != nil {
+		file.Close()
+		return nil, err
+	}
 
 	return ivf, nil
 }
@@ -122,7 +126,7 @@ func (writer *IVFWriter) UpdateDimensions(width, height uint16) error {
 }
 
 func (writer *IVFWriter) WriteFrame(frameData []byte, timestamp uint32, isKeyFrame bool) error {
-	if !writer.enabled || writer.closed {
+	if !writer.enabled || writer.closed || writer.failed {
 		return nil
 	}
 
@@ -135,11 +139,13 @@ func (writer *IVFWriter) WriteFrame(frameData []byte, timestamp uint32, isKeyFra
 
 	_, err := writer.file.Write(header)
 	if err != nil {
+		writer.failed = true
 		return err
 	}
 
 	_, err = writer.file.Write(frameData)
 	if err != nil {
+		writer.failed = true
 		return err
 	}
 
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 51e1bf5..832c9e4 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -2,6 +2,7 @@ package recorder
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"os"
 	"sync"
@@ -65,8 +66,9 @@ type WebmRecorder struct {
 	// How much audio was dropped while waiting for video
 	audioWaiting time.Duration
 
-	started bool
-	closed  bool
+	started      bool
+	closed       bool
+	lastOpenTime time.Time
 
 	// Seen at least one keyframe
 	seenKeyFrame bool
@@ -244,12 +246,14 @@ func (r *WebmRecorder) close() time.Duration {
 
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
 		}
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
 		}
 	}
 	if r.started {
@@ -327,7 +331,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
-			r.initWriter(width, height)
+			if err := r.initWriter(width, height); err != nil {
+				r.RequestKeyframe()
+				continue
+			}
 		}
 
 		if r.videoWriter != nil {
@@ -336,7 +343,9 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
+				continue
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -376,7 +385,9 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 			r.audioWaiting += sample.Duration
 
 			if !r.hasVideo || r.audioWaiting > maxAudioWaiting {
-				r.initWriter(0, 0)
+				if err := r.initWriter(0, 0); err != nil {
+					continue
+				}
 			}
 		}
 
@@ -388,7 +399,9 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
+				continue
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -846,7 +859,14 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Frame dimensions: %dx%d", width, height)
 
-		r.initWriter(width, height)
+		if err := r.initWriter(width, height); err != nil {
+			r.currentFrame = nil
+			r.currentFrameInfo = nil
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
+
+			return
+		}
 	}
 
 	if r.videoWriter != nil {
@@ -948,22 +968,63 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 	}
 }
 
-func (r *WebmRecorder) initWriter(width, height int) {
+// The file of a recording. A file that fails ends there, the recording itself
+// goes on until it's stopped.
+type recordingFile struct {
+	*os.File
+	ctx    context.Context
+	failed bool
+}
+
+func (f *recordingFile) fail(err error) {
+	f.failed = true
+	log.WithField("session", f.ctx.Value("session")).
+		Errorf("Error writing to %s: %v", f.Name(), err)
+}
+
+func (f *recordingFile) Write(b []byte) (int, error) {
+	if !f.failed {
+		if _, err := f.File.Write(b); err != nil {
+			f.fail(err)
+		}
+	}
+
+	return len(b), nil
+}
+
+func (f *recordingFile) Close() error {
+	if err := f.File.Close(); err != nil {
+		f.fail(err)
+	}
+
+	return nil
+}
+
+// Fails if the file can't be opened (yet): nothing is recorded then
+func (r *WebmRecorder) initWriter(width, height int) error {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
 			Error("Cannot initialize writer: neither audio nor video tracks are present")
-		return
+		return errors.New("neither audio nor video tracks are present")
+	}
+
+	if !r.lastOpenTime.IsZero() && time.Since(r.lastOpenTime) < time.Second {
+		return errors.New("file can't be opened")
 	}
+	r.lastOpenTime = time.Now()
 
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	flags := os.O_WRONLY | os.O_CREATE | os.O_EXCL
 	if r.file == os.DevNull {
 		flags = os.O_WRONLY
 	}
-	w, err := os.OpenFile(r.file, flags, r.fileMode)
+	file, err := os.OpenFile(r.file, flags, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error opening file: %v", err)
+		return err
 	}
+	w := &recordingFile{File: file, ctx: r.ctx}
 
 	info := &webm.Info{
 		TimecodeScale: 1000000, // 1ms
@@ -1017,8 +1078,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error starting webm writers: %v", err)
+		w.Close()
+		return err
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
@@ -1029,8 +1092,10 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error starting webm writers: %v", err)
+		w.Close()
+		return err
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
@@ -1055,4 +1120,6 @@ func (r *WebmRecorder) initWriter(width, height int) {
 				Warnf("Error starting RTP ivf: %v", err)
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From cc60950e2386587c6bc027c3530b6c32a70f22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 11/29] fix: truncated VP8 packets must not crash the recorder

---
 internal/webrtc/recorder/webm.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 832c9e4..917f885 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -472,6 +472,22 @@ func validateVP8Frame(frame []byte, frameInfo *VP8FrameInfo) (bool, string) {
 	return true, ""
 }
 
+// The depacketizer panics on some truncated descriptors, and accepts packets that
+// have nothing but a descriptor
+func unmarshalVP8(vp8Packet *codecs.VP8Packet, payload []byte) (err error) {
+	defer func() {
+		if recover() != nil {
+			err = errors.New("truncated VP8 payload descriptor")
+		}
+	}()
+
+	if _, err = vp8Packet.Unmarshal(payload); err == nil && len(vp8Packet.Payload) == 0 {
+		err = errors.New("empty VP8 payload")
+	}
+
+	return err
+}
+
 func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	if len(packet.Payload) == 0 {
 		return false
@@ -479,7 +495,7 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 
 	vp8Packet := codecs.VP8Packet{}
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err := unmarshalVP8(&vp8Packet, packet.Payload); err != nil {
 		return false
 	}
 
@@ -493,11 +509,11 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 
 	vp8Packet := codecs.VP8Packet{}
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if err := unmarshalVP8(&vp8Packet, packet.Payload); err != nil {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S == 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -555,9 +571,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 	vp8Packet := codecs.VP8Packet{}
 
-	if _, err := vp8Packet.Unmarshal(p.Payload); err != nil {
+	if err := unmarshalVP8(&vp8Packet, p.Payload); err != nil {
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Failed to unmarshal VP8 packet: seq=%d, err=%v", p.SequenceNumber, err)
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
 		r.hasKeyFrame = false
 		r.RequestKeyframe()
 		return
-- 
2.43.0


From 5748089a7ac2cd3e1164802336e3e7bffeff0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 12/29] fix: nothing that depends on a lost packet is recorded

---
 internal/webrtc/recorder/webm.go | 92 ++++++++++++++++++++++++++------
 1 file changed, 77 insertions(+), 15 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 917f885..b9d8d1a 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -39,6 +39,7 @@ type VP8FrameInfo struct {
 	packets       []uint16 // seqnums packets making up this frame
 	startTime     time.Time
 	pictureID     uint16
+	hasPictureID  bool
 	isKeyFrame    bool
 	timestamp     uint32
 	size          int
@@ -92,6 +93,11 @@ type WebmRecorder struct {
 	skipSignaled     bool
 	lastProcessedSeq uint16
 	expectedNextSeq  uint16
+	// Whether expectedNextSeq and lastPictureID are known
+	seqStarted       bool
+	hasLastPictureID bool
+	// Packets missing since the last one with a payload
+	lostPackets int
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -524,6 +530,50 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 	return width, height
 }
 
+// Only the first packet of a frame starts its first partition
+func isVP8FrameStart(vp8Packet *codecs.VP8Packet) bool {
+	return vp8Packet.S == 1 && vp8Packet.PID == 0
+}
+
+// Keeps track of the packets that are missing, returns whether there are any
+// right before this one
+func (r *WebmRecorder) trackSequence(p *rtp.Packet) bool {
+	missing := 0
+	if r.seqStarted {
+		missing = int(p.SequenceNumber - r.expectedNextSeq)
+	}
+
+	r.seqStarted = true
+	r.expectedNextSeq = p.SequenceNumber + 1
+	r.lostPackets += missing
+
+	return missing > 0
+}
+
+// Tells if the missing packets before this one carried media. Others (padding)
+// might have been dropped on the way: that's harmless between two frames that
+// are known to follow each other
+func (r *WebmRecorder) isPacketLost(p *rtp.Packet, vp8Packet *codecs.VP8Packet, betweenFrames bool) bool {
+	missing := r.lostPackets
+	r.lostPackets = 0
+
+	if missing == 0 {
+		return false
+	}
+
+	if !betweenFrames || !isVP8FrameStart(vp8Packet) || vp8Packet.I == 0 || !r.hasLastPictureID {
+		return true
+	}
+
+	// 7 bits, or 15
+	mask := uint16(0x7F)
+	if p.Payload[2]&0x80 != 0 {
+		mask = 0x7FFF
+	}
+
+	return missing >= 64 || vp8Packet.PictureID != (r.lastPictureID+1)&mask
+}
+
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	if !r.hasVideo {
 		return
@@ -532,15 +582,15 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(p.Payload) == 0 || r.closed {
+	if r.closed {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	if r.trackSequence(p) {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
-					r.expectedNextSeq, p.SequenceNumber)
+					r.lastProcessedSeq+1, p.SequenceNumber)
 		}
 
 		if r.skipSignaled && r.lastSkippedSeq+1 == p.SequenceNumber {
@@ -566,9 +616,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.skipSignaled = false
 	}
 
-	r.expectedNextSeq = p.SequenceNumber + 1
 	r.lastProcessedSeq = p.SequenceNumber
 
+	// Padding
+	if len(p.Payload) == 0 {
+		return
+	}
+
 	vp8Packet := codecs.VP8Packet{}
 
 	if err := unmarshalVP8(&vp8Packet, p.Payload); err != nil {
@@ -581,6 +635,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
+	// Whatever was lost, later frames might depend on it
+	if r.isPacketLost(p, &vp8Packet, r.currentFrame == nil) {
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
+		r.hasKeyFrame = false
+		r.RequestKeyframe()
+	}
+
+	isFrameStart := isVP8FrameStart(&vp8Packet)
+
 	// Lifted from LK
 	isKeyFrame := vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
 	pictureID := vp8Packet.PictureID
@@ -595,16 +659,11 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	// further, so try and make it work but log it - prlanzarin
 	if vp8Packet.S == 1 && vp8Packet.PID > 0 {
 		log.WithField("session", r.ctx.Value("session")).
-			Warnf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
-		if r.currentFrameInfo != nil {
-			r.currentFrameInfo.packets = append(r.currentFrameInfo.packets, p.SequenceNumber)
-			r.currentFrame = append(r.currentFrame, vp8Packet.Payload[0:]...)
-			return
-		}
+			Debugf("Mid-frame partition detected: seq=%d, PID=%d", p.SequenceNumber, vp8Packet.PID)
 	}
 
 	// NEW FRAME!
-	if vp8Packet.S == 1 {
+	if isFrameStart {
 		// OLD FRAME, but not complete. Discard it.
 		if r.currentFrame != nil && len(r.currentFrame) > 0 {
 			var logMsgPkts = "none"
@@ -635,6 +694,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		r.currentFrameInfo = &VP8FrameInfo{
 			startSequence: p.SequenceNumber,
 			pictureID:     pictureID,
+			hasPictureID:  vp8Packet.I == 1,
 			isKeyFrame:    isKeyFrame,
 			timestamp:     p.Timestamp,
 			startTime:     r.frameStartTime,
@@ -732,14 +792,12 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	case !r.hasKeyFrame && !isKeyFrame:
 		log.WithField("session", r.ctx.Value("session")).
 			Tracef("Waiting for keyframe, dropping non-keyframe: seq=%d", p.SequenceNumber)
-		if !r.seenKeyFrame {
-			r.RequestKeyframe()
-		}
+		r.RequestKeyframe()
 
 		r.currentFrame = nil
 		r.currentFrameInfo = nil
 		return
-	case r.currentFrame == nil && vp8Packet.S != 1:
+	case r.currentFrame == nil && !isFrameStart:
 		log.WithField("session", r.ctx.Value("session")).
 			Debugf("Dropping continuation packet without start bit: seq=%d", p.SequenceNumber)
 		r.currentFrameInfo = nil
@@ -804,6 +862,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 			r.currentFrameInfo.endSequence = p.SequenceNumber
 			r.currentFrameInfo.size = len(r.currentFrame)
 			r.lastPictureID = r.currentFrameInfo.pictureID
+			r.hasLastPictureID = r.currentFrameInfo.hasPictureID
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame complete: seq=[%d-%d], ts=%d, packets=%d, size=%d, elapsed=%v, keyframe=%v",
@@ -852,6 +911,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 	}
 
+	// The last packet of a key frame isn't necessarily its first one
+	isKeyFrame = r.currentFrame[0]&0x1 == 0
+
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
-- 
2.43.0


From a6556923f0ad9726e2c0728aa8cdd47187d34699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 13/29] fix: built-in sampler records what was sent, also to
 the IVF copy

---
 internal/webrtc/recorder/ivfwriter.go |   5 --
 internal/webrtc/recorder/webm.go      | 110 +++++++++++++++++++-------
 2 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index 203bcfe..2b06185 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -94,11 +94,6 @@ func (writer *IVFWriter) writeIVFHeader(width, height uint16) error {
 
 	_, err := writer.file.Write(header)
 
-	if err != nil {
-		return err
-	}
-
-	_, err = writer.file.Seek(0, io.SeekStart)
 	return err
 }
 
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index b9d8d1a..8d6b251 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -75,7 +75,6 @@ type WebmRecorder struct {
 	seenKeyFrame bool
 	// Has a valid keyframe to keep recording
 	hasKeyFrame             bool
-	currKeyFrame            *rtp.Packet
 	lastKeyFrameTime        time.Time
 	keyframeRequester       KeyframeRequester
 	lastKeyframeRequestTime time.Time
@@ -98,6 +97,8 @@ type WebmRecorder struct {
 	hasLastPictureID bool
 	// Packets missing since the last one with a payload
 	lostPackets int
+	// Sequence number of the next packet given to the video builder
+	builderSeq uint16
 
 	corruptedFrameCount int
 	lastFrameSize       int
@@ -303,18 +304,52 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 	r.m.Lock()
 	defer r.m.Unlock()
 
-	if len(packet.Payload) == 0 || r.closed {
+	if r.closed {
+		return
+	}
+
+	r.trackSequence(packet)
+
+	// Padding
+	if len(packet.Payload) == 0 {
 		return
 	}
 
+	vp8Packet := codecs.VP8Packet{}
+	err := unmarshalVP8(&vp8Packet, packet.Payload)
+	isFrameStart := isVP8FrameStart(&vp8Packet)
 	isKeyFrame := IsVP8KeyFrame(packet)
 
-	if isKeyFrame {
-		r.currKeyFrame = packet
-		r.lastKeyFrameTime = time.Now()
+	// The builder is always given consecutive packets: there's no use in it
+	// waiting for those that are missing, the packets are already in order
+	if err != nil || r.isPacketLost(packet, &vp8Packet, r.videoBuilder.Len() == 0) ||
+		r.videoBuilder.Len() >= 2*max(int(r.videoPacketQueueSize), 2) {
+		r.videoBuilder = samplebuilder.New(r.videoPacketQueueSize, &codecs.VP8Packet{}, vp8SampleRate)
+		r.hasKeyFrame = false
 	}
 
-	r.videoBuilder.Push(packet)
+	if err != nil || (!isFrameStart && r.videoBuilder.Len() == 0) {
+		r.hasKeyFrame = false
+		r.RequestKeyframe()
+		return
+	}
+
+	if isFrameStart {
+		r.lastPictureID = vp8Packet.PictureID
+		r.hasLastPictureID = vp8Packet.I == 1
+	}
+
+	p := *packet
+	p.SequenceNumber = r.builderSeq
+	r.builderSeq++
+
+	// To the builder, any partition starts a frame
+	if vp8Packet.S == 1 && !isFrameStart {
+		p.Payload = append([]byte{}, packet.Payload...)
+		p.Payload[0] &^= 0x10
+	}
+
+	r.videoBuilder.Push(&p)
 	log.WithField("session", r.ctx.Value("session")).
 		Tracef("BUILTIN: VP8 RTP-DEPAY: seq=%d, ts=%d, marker=%v, S=%v, PictureID=%d, KeyFrame=%v, size=%d, PartID=%d",
 			packet.SequenceNumber, packet.Timestamp, packet.Marker, isKeyFrame,
@@ -327,26 +362,53 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		isKf := false
+		if valid, reason := validateVP8Frame(sample.Data, nil); !valid {
+			log.WithField("session", r.ctx.Value("session")).
+				Warnf("Discarding invalid VP8 frame: %s", reason)
+			r.hasKeyFrame = false
+			r.RequestKeyframe()
+			continue
+		}
+
+		isKf := sample.Data[0]&0x1 == 0
+
+		if !r.hasKeyFrame && !isKf {
+			r.RequestKeyframe()
+			continue
+		}
 
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
+		if isKf {
+			r.lastKeyFrameTime = time.Now()
+		}
+
+		if !r.seenKeyFrame {
+			r.seenKeyFrame = true
+			r.packetTimestamp = ts
+			// Video might start later than audio
+			r.videoTimestamp = r.audioTimestamp
 		}
 
-		if isKf && !r.started {
-			width, height := GetVP8KFDimension(packet)
+		if !r.started {
+			raw := uint(sample.Data[6]) | uint(sample.Data[7])<<8 | uint(sample.Data[8])<<16 | uint(sample.Data[9])<<24
+			width := int(raw & 0x3FFF)
+			height := int((raw >> 16) & 0x3FFF)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
 			if err := r.initWriter(width, height); err != nil {
+				r.hasKeyFrame = false
 				r.RequestKeyframe()
 				continue
 			}
 		}
 
+		r.hasKeyFrame = true
+
 		if r.videoWriter != nil {
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Writing VP8 frame: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-			r.videoTimestamp += sample.Duration
+			duration := time.Duration((float64(ts-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
+			r.videoTimestamp += duration
+			r.packetTimestamp = ts
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
@@ -356,10 +418,12 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("VP8 frame written: ts=%d, size=%d, KF=%v", ts, len(sample.Data), isKf)
-		}
 
-		if r.writeIVFCopy {
-			r.pushToIVFWriter(sample.Data, packet)
+			if r.writeIVFCopy {
+				r.pushToIVFWriter(sample.Data, ts, isKf)
+			}
+
+			r.hasValidVideo = true
 		}
 	}
 }
@@ -994,7 +1058,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		if r.writeIVFCopy {
-			r.pushToIVFWriter(r.currentFrame, p)
+			r.pushToIVFWriter(r.currentFrame, p.Timestamp, isKeyFrame)
 		}
 
 		r.hasValidVideo = true
@@ -1021,16 +1085,8 @@ func (r *WebmRecorder) startIVFWriter() error {
 	return nil
 }
 
-func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
-	if r.ivfWriter != nil && len(r.currentFrame) > 0 {
-		isKeyFrame := false
-
-		if r.currentFrameInfo != nil {
-			isKeyFrame = r.currentFrameInfo.isKeyFrame
-		} else {
-			isKeyFrame = IsVP8KeyFrame(p)
-		}
-
+func (r *WebmRecorder) pushToIVFWriter(frame []byte, timestamp uint32, isKeyFrame bool) {
+	if r.ivfWriter != nil && len(frame) > 0 {
 		if isKeyFrame && len(frame) >= 10 {
 			raw := uint(frame[6]) | uint(frame[7])<<8 | uint(frame[8])<<16 | uint(frame[9])<<24
 			width := uint16(raw & 0x3FFF)
@@ -1039,7 +1095,7 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 			r.ivfWriter.UpdateDimensions(width, height)
 		}
 
-		err := r.ivfWriter.WriteFrame(frame, p.Timestamp, isKeyFrame)
+		err := r.ivfWriter.WriteFrame(frame, timestamp, isKeyFrame)
 
 		if err != nil {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 25a5d4b89b990e953d58c7d724b0dd04f2e691e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 14/29] fix: missing packets hold others back once, and only
 for the configured time

---
 internal/webrtc/utils/jitter_buffer.go      | 24 ++++-
 internal/webrtc/utils/receive_log.go        |  4 +
 internal/webrtc/utils/sequence_unwrapper.go | 11 +++
 internal/webrtc/webrtc.go                   | 98 +++++++++++++--------
 4 files changed, 97 insertions(+), 40 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..e7c6b83 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -61,6 +61,7 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 				Debugf("Large sequence jump in jitter buffer: from=%d to=%d, diff=%d, resetting buffer",
 					s.end, seq, seq-s.end)
 			s.packets = make([]*rtp.Packet, s.size)
+			s.startMissingTimers(seq-s.size+1, seq)
 		} else {
 			if seq-s.end > 1 {
 				log.WithField("session", s.ctx.Value("session")).
@@ -70,6 +71,7 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 			for i := s.end + 1; i < seq; i++ {
 				s.packets[i%s.size] = nil
 			}
+			s.startMissingTimers(s.end+1, seq)
 		}
 		s.end = seq
 	}
@@ -80,12 +82,31 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Jitter buffer sli_wi: old_start=%d, new_start=%d, dropped=%d packets",
 				oldStart, s.nextStart, s.nextStart-oldStart)
+
+		for i := range s.missingPacketTimers {
+			if i < s.nextStart {
+				delete(s.missingPacketTimers, i)
+			}
+		}
 	}
 
+	delete(s.missingPacketTimers, seq)
 	s.packets[seq%s.size] = packet
 	return true
 }
 
+// A packet is missing from when a later one arrives, so that packets lost
+// together are waited for together
+func (s *JitterBuffer) startMissingTimers(from, to int64) {
+	now := time.Now()
+
+	for i := max(from, s.nextStart); i < to; i++ {
+		if _, exists := s.missingPacketTimers[i]; !exists {
+			s.missingPacketTimers[i] = now
+		}
+	}
+}
+
 func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 	skippedPacket := false
 
@@ -151,7 +172,7 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 
 // SkipPacket forces the jitter buffer to skip waiting for a specific sequence number
 func (s *JitterBuffer) SkipPacket(seq int64) {
-	if seq == s.nextStart {
+	if seq == s.nextStart && s.packets[seq%s.size] == nil {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
@@ -166,6 +187,7 @@ func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
 
 		for i := s.nextStart; i < nextPacketsStart; i++ {
 			s.packets[i%s.size] = nil
+			delete(s.missingPacketTimers, i)
 		}
 
 		s.nextStart = nextPacketsStart
diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..c9553f4 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -65,6 +65,10 @@ func (s *ReceiveLog) Add(seq uint16) {
 		}
 	} else {
 		// negative diff, seq < end (with counting for rollovers)
+		if s.end-seq >= s.size {
+			// too late, its place belongs to a later packet
+			return
+		}
 		if s.lastConsecutive+1 == seq {
 			s.lastConsecutive = seq
 			s.fixLastConsecutive() // there might be other valid packets after seq
diff --git a/internal/webrtc/utils/sequence_unwrapper.go b/internal/webrtc/utils/sequence_unwrapper.go
index ccf000f..72180dc 100644
--- a/internal/webrtc/utils/sequence_unwrapper.go
+++ b/internal/webrtc/utils/sequence_unwrapper.go
@@ -19,6 +19,17 @@ func NewSequenceUnwrapper(base int) *SequenceUnwrapper {
 	}
 }
 
+// StartAt makes the sequence start at n, one cycle up: values preceding n can be
+// told from those following it, even if n has just wrapped around
+func (sw *SequenceUnwrapper) StartAt(n uint64) {
+	sw.m.Lock()
+	defer sw.m.Unlock()
+
+	sw.started = true
+	sw.wrapArounds = int64(sw.inMax)
+	sw.highestSequenceNumber = n
+}
+
 // Unwrap accepts a uint<base> values which form a sequence, and converts the values into
 // int64 while adjusting the sequence every time a wraparound happens. For example:
 // unwrapper := NewSequenceUnwrapper(16)
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index e5554e5..5a3657b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -222,6 +223,48 @@ func (w *WebRTC) Init(
 			w.ctx,
 		)
 
+		var s1, s2 uint16
+		var lastTimestamp time.Duration
+
+		// Guards everything that keeps track of packets
+		var m sync.Mutex
+
+		// Hands packets that are in order over to the recorder
+		deliver := func() {
+			packets, skipped := jb.NextPackets()
+
+			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
+			if skipped {
+				skippedSeq, ok := jb.GetAndClearLastSkipped()
+				if ok {
+					if rec != nil {
+						rec.NotifySkippedPacket(uint16(skippedSeq))
+						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
+					}
+				}
+			}
+
+			if packets == nil {
+				return
+			}
+
+			log.WithField("session", w.ctx.Value("session")).
+				Tracef("Got %d packets from jitter buffer: first=%d, last=%d",
+					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
+
+			for _, p := range packets {
+				s2 = p.SequenceNumber
+				switch {
+				case isAudio:
+					rec.PushAudio(p)
+					lastTimestamp = rec.AudioTimestamp()
+				case isVideo:
+					rec.PushVideo(p)
+					lastTimestamp = rec.VideoTimestamp()
+				}
+			}
+		}
+
 		if true {
 			senderSSRC := rand.Uint32()
 			sentNACKs := 0
@@ -240,10 +283,8 @@ func (w *WebRTC) Init(
 						ticker.Stop()
 						return
 					case <-ticker.C:
+						m.Lock()
 						missing := rl.MissingSeqNumbers(10)
-						if missing == nil || len(missing) == 0 {
-							continue
-						}
 
 						filteredMissing := make([]uint16, 0)
 						now := time.Now()
@@ -266,7 +307,9 @@ func (w *WebRTC) Init(
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+								// The jitter buffer goes by unwrapped sequence numbers
+								next := jb.GetNextStart()
+								jb.SkipPacket(next + int64(int16(seq-uint16(next))))
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -277,6 +320,11 @@ func (w *WebRTC) Init(
 							}
 						}
 
+						// Packets might have waited long enough for those missing,
+						// even if nothing else arrives
+						deliver()
+						m.Unlock()
+
 						if len(missing) > 5 {
 							log.WithField("session", w.ctx.Value("session")).
 								Warnf("Large packet gap detected for SSRC %d: %d packets", senderSSRC, len(missing))
@@ -303,9 +351,6 @@ func (w *WebRTC) Init(
 			}()
 		}
 
-		var s1, s2 uint16
-		var lastTimestamp time.Duration
-
 		if true {
 			done := make(chan bool)
 			defer func() {
@@ -394,6 +439,11 @@ func (w *WebRTC) Init(
 			}
 			prevSeq = rtp.SequenceNumber
 
+			if packetCounter == 1 {
+				su.StartAt(uint64(rtp.SequenceNumber))
+			}
+
+			m.Lock()
 			seq = su.Unwrap(uint64(rtp.SequenceNumber))
 
 			if !jb.Add(seq, rtp) {
@@ -408,38 +458,8 @@ func (w *WebRTC) Init(
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, skipped := jb.NextPackets()
-
-			if packets == nil {
-				continue
-			}
-
-			log.WithField("session", w.ctx.Value("session")).
-				Tracef("Got %d packets from jitter buffer: first=%d, last=%d",
-					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
-
-			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
-				}
-			}
-
-			for _, p := range packets {
-				s2 = p.SequenceNumber
-				switch {
-				case isAudio:
-					rec.PushAudio(p)
-					lastTimestamp = rec.AudioTimestamp()
-				case isVideo:
-					rec.PushVideo(p)
-					lastTimestamp = rec.VideoTimestamp()
-				}
-			}
+			deliver()
+			m.Unlock()
 		}
 	})
 
-- 
2.43.0


From a743ea0c718015b422117276eb2eacd2908c41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 15/29] fix: keyframe requests of several goroutines must not
 corrupt their bookkeeping

---
 internal/webrtc/webrtc.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 5a3657b..ce0fe8b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -35,6 +36,8 @@ type WebRTC struct {
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
+	// Tracks and keyframe requests come from several goroutines
+	m                   sync.Mutex
 	videoTrackSSRCs     []uint32
 	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
@@ -184,8 +187,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -512,7 +517,11 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := slices.Clone(w.videoTrackSSRCs)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
@@ -525,6 +534,9 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Error(err)
 	}
 
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if _, exists := w.pliStats[ssrc]; !exists {
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 	}
-- 
2.43.0


From b7d3fe782eb5845ee4df063d0ab7b174201638f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 16/29] fix: subscribe again when the connection to redis is
 lost

---
 internal/pubsub/redis.go       | 38 +++++++++++++++++++++++++---------
 internal/pubsub/redis/redis.go | 16 +++++++-------
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/internal/pubsub/redis.go b/internal/pubsub/redis.go
index b90fdf4..bf3c74c 100644
--- a/internal/pubsub/redis.go
+++ b/internal/pubsub/redis.go
@@ -2,6 +2,7 @@ package pubsub
 
 import (
 	"context"
+	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/redis"
@@ -10,6 +11,9 @@ import (
 
 var _ PubSub = (*Redis)(nil)
 
+// How long to wait before connecting again
+const retryPeriod = time.Second
+
 type Redis struct {
 	config config.Redis
 	pubsub *redis.PubSub
@@ -19,16 +23,30 @@ type Redis struct {
 
 func (r *Redis) Subscribe(channel string, handler PubSubHandler, onStart func() error) {
 	log.Printf("subscribing to pubsub %s on redis %s", channel, r.config.Address)
-	r.pubsub.ListenChannels(r.ctx,
-		func() error {
-			onStart()
-			return nil
-		},
-		func(channel string, message []byte) error {
-			handler(r.ctx, message)
-			return nil
-		},
-		channel)
+	for {
+		err := r.pubsub.ListenChannels(r.ctx,
+			func() error {
+				onStart()
+				return nil
+			},
+			func(channel string, message []byte) error {
+				handler(r.ctx, message)
+				return nil
+			},
+			channel)
+
+		if r.ctx.Err() != nil {
+			return
+		}
+
+		log.Errorf("lost pubsub %s on redis %s, retrying: %v", channel, r.config.Address, err)
+
+		select {
+		case <-r.ctx.Done():
+			return
+		case <-time.After(retryPeriod):
+		}
+	}
 }
 
 func (r *Redis) Unsubscribe() {
diff --git a/internal/pubsub/redis/redis.go b/internal/pubsub/redis/redis.go
index fd9eda0..7399d7d 100644
--- a/internal/pubsub/redis/redis.go
+++ b/internal/pubsub/redis/redis.go
@@ -16,7 +16,6 @@ type PubSub struct {
 	address  string
 	password string
 	conn     redis.Conn
-	psc      redis.PubSubConn
 }
 
 func NewPubSub(network, address string, password string) (*PubSub, error) {
@@ -53,9 +52,9 @@ func (p *PubSub) ListenChannels(ctx context.Context,
 	}
 	defer c.Close()
 
-	p.psc = redis.PubSubConn{Conn: c}
+	psc := redis.PubSubConn{Conn: c}
 
-	if err := p.psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
+	if err := psc.Subscribe(redis.Args{}.AddFlat(channels)...); err != nil {
 		return err
 	}
 
@@ -64,7 +63,7 @@ func (p *PubSub) ListenChannels(ctx context.Context,
 	// Start a goroutine to receive notifications from the server.
 	go func() {
 		for {
-			switch n := p.psc.Receive().(type) {
+			switch n := psc.Receive().(type) {
 			case error:
 				done <- n
 				return
@@ -99,8 +98,11 @@ loop:
 			// Send ping to test health of connection and server. If
 			// corresponding pong is not received, then receive on the
 			// connection will timeout and the receive goroutine will exit.
-			if err = p.psc.Ping(""); err != nil {
-				break loop
+			if err = psc.Ping(""); err != nil {
+				// The receive goroutine must be gone before anyone listens again
+				c.Close()
+				<-done
+				return err
 			}
 		case <-ctx.Done():
 			break loop
@@ -111,7 +113,7 @@ loop:
 	}
 
 	// Signal the receiving goroutine to exit by unsubscribing from all channels.
-	if err := p.psc.Unsubscribe(); err != nil {
+	if err := psc.Unsubscribe(); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 005088f69e03d4708a7514cf3e76ecd8bb8ad406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 17/29] fix: start requests need a session id, and an SDP
 wherever it is

---
 internal/pubsub/events/events.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..cdd1c99 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -95,6 +95,10 @@ type StartRecording struct {
 }
 
 func (e *StartRecording) Validate() error {
+	if e.SessionId == "" {
+		return fmt.Errorf("missing recording session id")
+	}
+
 	switch e.Adapter {
 	case AdapterLiveKit:
 		if e.AdapterOptions == nil || e.AdapterOptions.LiveKit == nil {
@@ -123,7 +127,7 @@ func (e *StartRecording) Validate() error {
 		// Now, if an SDP is present, we assume it's a legacy mediasoup call
 		// and we don't need to validate the adapter.
 		// TODO remove legacy SDP field later on - prlanzarin
-		if e.SDP != "" {
+		if e.GetSDP() != "" {
 			return nil
 		}
 
-- 
2.43.0


From 40ee144631d019a04270b672f3a263ac77ada3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 18/29] fix: an unusable configuration file must not end the
 recorder on reload

---
 internal/app/app.go       |  2 +-
 internal/app/config.go    | 18 ++++++++++++++++--
 internal/config/config.go | 19 +++++++++++++++++++
 internal/config/loader.go | 14 +++++++++-----
 internal/server/server.go |  9 +++++----
 5 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..1f017a1 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -96,7 +96,7 @@ func sighupHandler() {
 			select {
 			case <-sighup:
 				log.Debug("reloading config...")
-				loadConfig()
+				reloadConfig()
 				configureLog()
 			}
 		}
diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..e24256b 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
+	log "github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
 )
 
@@ -16,8 +17,21 @@ func initConfig() *config.Config {
 
 func loadConfig() {
 	newCfg := initConfig()
-	newCfg.Load(app, flags.config)
-	*cfg = *newCfg
+	if _, err := newCfg.Load(app, flags.config); err != nil {
+		log.Fatal(err)
+	}
+	cfg.Replace(newCfg)
+}
+
+// reloadConfig keeps the current configuration unless there's a valid new one
+func reloadConfig() {
+	newCfg := initConfig()
+	found, err := newCfg.Load(app, flags.config)
+	if err != nil {
+		log.Error(err)
+	} else if found {
+		cfg.Replace(newCfg)
+	}
 }
 
 func dumpConfig() {
diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..2ed69bb 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"os"
+	"sync"
 
 	"github.com/pion/webrtc/v3"
 	log "github.com/sirupsen/logrus"
@@ -26,6 +27,24 @@ type Config struct {
 	Log        LogConfig  `yaml:"log"`
 }
 
+var m sync.RWMutex
+
+// Replace sets all of the configuration at once
+func (cfg *Config) Replace(newCfg *Config) {
+	m.Lock()
+	defer m.Unlock()
+
+	*cfg = *newCfg
+}
+
+// Snapshot returns the configuration as it is now, whatever replaces it later
+func (cfg *Config) Snapshot() Config {
+	m.RLock()
+	defer m.RUnlock()
+
+	return *cfg
+}
+
 func (cfg *Config) GetDefaults() *Config {
 	cfg.SetDefaults()
 	return cfg
diff --git a/internal/config/loader.go b/internal/config/loader.go
index 5b345e0..b754310 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -8,7 +8,8 @@ import (
 	"path"
 )
 
-func (cfg *Config) Load(app App, configFile string) {
+// Load reports whether a configuration file was found
+func (cfg *Config) Load(app App, configFile string) (bool, error) {
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -27,9 +28,10 @@ func (cfg *Config) Load(app App, configFile string) {
 			Extensions: []string{"yaml", "yml"},
 		},
 	})
-	if found, err := fileLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename())))
-	} else if !found {
+	fileFound, err := fileLoader.Load(cfg)
+	if err != nil {
+		return fileFound, errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
+	} else if !fileFound {
 		log.Debugf("no configuration file found: %s", fileLoader.GetFilename())
 	} else {
 		log.Printf("configuration loaded from file: %s", fileLoader.GetFilename())
@@ -42,7 +44,7 @@ func (cfg *Config) Load(app App, configFile string) {
 	})
 
 	if found, err := envLoader.Load(cfg); err != nil {
-		log.Fatal(errors.Wrap(err, "failed to decode configuration from environment variables"))
+		return fileFound, errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
 	} else {
@@ -50,4 +52,6 @@ func (cfg *Config) Load(app App, configFile string) {
 	}
 
 	cfg.App = app
+
+	return fileFound, nil
 }
diff --git a/internal/server/server.go b/internal/server/server.go
index 47bee06..5f2b5d5 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -43,6 +43,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
+		cfg := s.cfg.Snapshot()
 
 		prev, ok := s.sessions.Load(e.SessionId)
 		if ok && prev.(*Session).ending() {
@@ -68,7 +69,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		switch e.Adapter {
 		case "livekit":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -78,7 +79,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			wrtc := livekit.NewLiveKitWebRTC(
 				ctx,
-				s.cfg.LiveKit,
+				cfg.LiveKit,
 				e.AdapterOptions.LiveKit.Room,
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
@@ -96,7 +97,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			sess.Started()
 
 		case "mediasoup", "":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -113,7 +114,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 					}
 				}()
 
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+				wrtc := webrtc.NewWebRTC(ctx, cfg.WebRTC)
 				sess = NewSession(e.SessionId, s, wrtc, nil, rec)
 				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-- 
2.43.0


From 0573f5f4e9e94fa81fa2d3f5607fa2f8c4203064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 19/29] fix: LiveKit recordings ask for key frames, report and
 end like others

---
 internal/webrtc/livekit/livekit.go | 165 ++++++++++++++++++-----------
 1 file changed, 103 insertions(+), 62 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..0f4cb4e 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -42,6 +42,8 @@ type TrackFlowState struct {
 	lastSeqNum    uint16
 	lastTimestamp time.Duration
 	isFlowing     bool
+	// Packets received so far, and until the last check
+	packets, checkedPackets uint64
 }
 
 type LiveKitWebRTC struct {
@@ -124,7 +126,9 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
+	w.m.Lock()
 	w.room = roomClient
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
@@ -139,11 +143,13 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 }
 
 func (w *LiveKitWebRTC) Close() error {
+	// Callbacks might be waiting for the lock
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -153,6 +159,8 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
 	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
+	// The recorder needs to know which tracks the file will have before any of
+	// them starts
 	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
@@ -166,19 +174,24 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 					w.handler.SetHasAudio(true)
 				}
 
-				if err := w.subscribe(trackPublication); err != nil {
-					log.WithField("session", w.ctx.Value("session")).
-						Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
-					return nil, err
-				}
-
 				subscribedTracks = append(subscribedTracks, trackPublication)
 				remoteParticipants[remoteParticipant.Identity()] = remoteParticipant
 			}
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
+	for _, trackPublication := range subscribedTracks {
+		if err := w.subscribe(trackPublication); err != nil {
+			log.WithField("session", w.ctx.Value("session")).
+				Errorf("Failed to subscribe to track %s: %v", trackPublication.SID(), err)
+			return nil, err
+		}
+	}
+
 	return subscribedTracks, nil
 }
 
@@ -199,24 +212,39 @@ func (w *LiveKitWebRTC) subscribe(track lksdk.TrackPublication) error {
 
 func (w *LiveKitWebRTC) RequestKeyframe() {
 	w.m.Lock()
-	defer w.m.Unlock()
-
-	ssrcs := make([]string, 0, len(w.pliStats))
+	ssrcs := make([]uint32, 0, len(w.pliStats))
 
 	for ssrc := range w.pliStats {
-		ssrcs = append(ssrcs, fmt.Sprintf("%d", ssrc))
+		ssrcs = append(ssrcs, ssrc)
 	}
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
-		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
+		Tracef("Requesting keyframe for SSRCs %v", ssrcs)
 
-	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+	for _, ssrc := range ssrcs {
+		w.RequestKeyframeForSSRC(ssrc)
+	}
+}
+
+// Requests a keyframe unless that was just done
+func (w *LiveKitWebRTC) requestKeyframeAfterLoss(ssrc uint32) {
+	w.m.Lock()
+	recent := time.Since(w.pliStats[ssrc].timestamp) < time.Second
+	w.m.Unlock()
+
+	if !recent {
+		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
-	if w.room == nil {
+	w.m.Lock()
+	room := w.room
+	participants := w.remoteParticipants
+	w.m.Unlock()
+
+	if room == nil {
 		return
 	}
 
@@ -224,9 +252,10 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 		Tracef("Requesting keyframe for SSRC %d", ssrc)
 
 	// w.remoteParticipants contain all owners of the tracks we are subscribed to
-	for _, participant := range w.remoteParticipants {
+	for _, participant := range participants {
 		participant.WritePLI(webrtc.SSRC(ssrc))
 
+		w.m.Lock()
 		if _, exists := w.pliStats[ssrc]; !exists {
 			w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 		}
@@ -237,6 +266,7 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 			Tracef("Sending PLI #%d for SSRC %d to participant %s (sinceLast=%s)",
 				newCount, ssrc, participant.Identity(), now.Sub(w.pliStats[ssrc].timestamp))
 		w.pliStats[ssrc] = PLITracker{count: newCount, timestamp: now}
+		w.m.Unlock()
 	}
 }
 
@@ -247,35 +277,48 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	state, exists := w.flowState[trackID]
 
 	if !exists {
-		state = &TrackFlowState{
-			lastSeqNum:    seqNum,
-			lastTimestamp: timestamp,
-			isFlowing:     false,
-		}
+		state = &TrackFlowState{}
 		w.flowState[trackID] = state
-
-		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
+	state.packets++
 	state.lastSeqNum = seqNum
 	state.lastTimestamp = timestamp
+}
 
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
-		var latestTimestamp time.Duration
+// Reports whether packets arrived since the last check, if that changed. All
+// reports of a track come from the same goroutine.
+func (w *LiveKitWebRTC) checkFlowState(trackID string, ended bool) bool {
+	w.m.Lock()
+	state, exists := w.flowState[trackID]
 
-		for _, s := range w.flowState {
-			if s.lastTimestamp > latestTimestamp {
-				latestTimestamp = s.lastTimestamp
-			}
+	if !exists {
+		w.m.Unlock()
+		return false
+	}
+
+	wasFlowing := state.isFlowing
+	isFlowing := state.packets != state.checkedPackets && !ended
+	state.isFlowing = isFlowing
+	state.checkedPackets = state.packets
+
+	var latestTimestamp time.Duration
+
+	for _, s := range w.flowState {
+		if s.lastTimestamp > latestTimestamp {
+			latestTimestamp = s.lastTimestamp
 		}
+	}
+	w.m.Unlock()
 
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
+	if isFlowing != wasFlowing && w.flowCallback != nil {
+		w.flowCallback(isFlowing, latestTimestamp, false)
 		log.WithField("session", w.ctx.Value("session")).
 			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
+				trackID, isFlowing, latestTimestamp)
 	}
+
+	return isFlowing
 }
 
 func (w *LiveKitWebRTC) onTrackSubscribed(
@@ -312,7 +355,7 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		latency,
 		jitter.WithPacketDroppedHandler(func() {
 			if isVideo {
-				w.RequestKeyframe()
+				w.requestKeyframeAfterLoss(uint32(track.SSRC()))
 			}
 		}),
 		// TODO: plug logger
@@ -320,10 +363,16 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
+	if isVideo {
+		w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+	}
+	w.m.Unlock()
+
+	// Closed when the track ends
+	done := make(chan struct{})
 
 	if isVideo {
 		ssrc := uint32(track.SSRC())
-		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
 
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
@@ -333,10 +382,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
 			for {
@@ -350,42 +395,35 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
-		var lastSeqNum uint16
+		wasFlowing := false
 		for {
 			select {
-			case <-flowCheckDone:
+			case <-done:
 				ticker.Stop()
+				w.checkFlowState(trackID, true)
 				return
 			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
-
-				if exists && state.lastSeqNum == lastSeqNum {
-					// No new packets received == not flowing
-					w.updateFlowState(trackID, state.lastSeqNum, state.lastTimestamp)
-				}
-
-				if state.isFlowing {
-					ticker.Reset(time.Millisecond * 1000)
-				} else {
-					ticker.Reset(time.Millisecond * 100)
+				isFlowing := w.checkFlowState(trackID, false)
+
+				if isFlowing != wasFlowing {
+					if isFlowing {
+						ticker.Reset(time.Millisecond * 1000)
+					} else {
+						ticker.Reset(time.Millisecond * 100)
+					}
 				}
 
-				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
+				wasFlowing = isFlowing
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -448,6 +486,9 @@ func (w *LiveKitWebRTC) onTrackMuted(
 func (w *LiveKitWebRTC) onDisconnected() {
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Disconnected from LiveKit room %s", w.roomId)
+
+	// Ends the recording, which closes the room: don't hold up the room until then
+	go w.flowCallback(false, 0, true)
 }
 
 func (w *LiveKitWebRTC) validateInitParams() error {
-- 
2.43.0


From 5f8ee669e6f09e3a19ca2c95efdb0932d6f17f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 20/29] fix: gaps in the audio must neither crash the recorder
 nor lose what follows

---
 internal/webrtc/recorder/webm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 8d6b251..a5ec9c4 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -443,7 +443,10 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 	r.audioBuilder.Push(p)
 
 	for {
-		sample := r.audioBuilder.Pop()
+		// The packets are in order already: there's no use in waiting for those
+		// that are missing, the builder would hold back (and lose, if the recording
+		// ends) the ones after them, and crash if there's no room for the gap
+		sample, _ := r.audioBuilder.ForcePopWithTimestamp()
 		if sample == nil {
 			return
 		}
-- 
2.43.0


From 427215450ca398ffbb7bc4b070ee803d62b688c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 21/29] fix: losses must not stop or crash the jitter buffer of
 LiveKit tracks

---
 internal/webrtc/livekit/livekit.go | 67 ++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 0f4cb4e..eb523d7 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -349,17 +349,20 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}
 
 	latency := time.Duration(200) * time.Millisecond
-	buffer := jitter.NewBuffer(
-		depacketizer,
-		clockRate,
-		latency,
-		jitter.WithPacketDroppedHandler(func() {
-			if isVideo {
-				w.requestKeyframeAfterLoss(uint32(track.SSRC()))
-			}
-		}),
-		// TODO: plug logger
-	)
+	newBuffer := func() *jitter.Buffer {
+		return jitter.NewBuffer(
+			depacketizer,
+			clockRate,
+			latency,
+			jitter.WithPacketDroppedHandler(func() {
+				if isVideo {
+					w.requestKeyframeAfterLoss(uint32(track.SSRC()))
+				}
+			}),
+			// TODO: plug logger
+		)
+	}
+	buffer := newBuffer()
 
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
@@ -424,6 +427,9 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	go func() {
 		defer close(done)
 
+		var startTime time.Time
+		started := false
+
 		for {
 			packet, _, err := track.ReadRTP()
 
@@ -433,13 +439,35 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				return
 			}
 
-			buffer.Push(packet)
-			packets := buffer.Pop(false)
+			// The buffer never starts if the start of the first frame is lost
+			if startTime.IsZero() {
+				startTime = time.Now()
+			} else if !started && time.Since(startTime) > latency &&
+				depacketizer.IsPartitionHead(packet.Payload) {
+				buffer = newBuffer()
+				startTime = time.Now()
+			}
+
+			packets, err := nextPackets(buffer, packet)
+
+			if err != nil {
+				log.WithField("session", w.ctx.Value("session")).
+					Warnf("Restarting the jitter buffer of track %s: %v", trackID, err)
+				buffer = newBuffer()
+				started = false
+				startTime = time.Time{}
+
+				if isVideo {
+					w.requestKeyframeAfterLoss(uint32(track.SSRC()))
+				}
+			}
 
 			if len(packets) == 0 {
 				continue
 			}
 
+			started = true
+
 			for _, p := range packets {
 				w.updateFlowState(
 					trackID,
@@ -458,6 +486,19 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}()
 }
 
+// The buffer panics if everything it holds is too old to be used
+func nextPackets(buffer *jitter.Buffer, packet *rtp.Packet) (packets []*rtp.Packet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	buffer.Push(packet)
+
+	return buffer.Pop(false), nil
+}
+
 func (w *LiveKitWebRTC) onTrackUnsubscribed(
 	track *webrtc.TrackRemote,
 	pub *lksdk.RemoteTrackPublication,
-- 
2.43.0


From 9b48b57b067d799d61fc8772acdf5a2de686313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 22/29] fix: packets behind several gaps must not wait for more
 packets

---
 internal/webrtc/webrtc.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index ce0fe8b..74229aa 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -234,8 +234,9 @@ func (w *WebRTC) Init(
 		// Guards everything that keeps track of packets
 		var m sync.Mutex
 
-		// Hands packets that are in order over to the recorder
-		deliver := func() {
+		// Hands packets that are in order over to the recorder, returns whether
+		// there might be more behind those that are missing
+		deliver := func() bool {
 			packets, skipped := jb.NextPackets()
 
 			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
@@ -250,7 +251,7 @@ func (w *WebRTC) Init(
 			}
 
 			if packets == nil {
-				return
+				return false
 			}
 
 			log.WithField("session", w.ctx.Value("session")).
@@ -268,6 +269,8 @@ func (w *WebRTC) Init(
 					lastTimestamp = rec.VideoTimestamp()
 				}
 			}
+
+			return true
 		}
 
 		if true {
@@ -327,7 +330,8 @@ func (w *WebRTC) Init(
 
 						// Packets might have waited long enough for those missing,
 						// even if nothing else arrives
-						deliver()
+						for deliver() {
+						}
 						m.Unlock()
 
 						if len(missing) > 5 {
@@ -463,7 +467,8 @@ func (w *WebRTC) Init(
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			deliver()
+			for deliver() {
+			}
 			m.Unlock()
 		}
 	})
-- 
2.43.0


From fb789a6ccdff6a4ec81539c127f3c7f7be67f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 23/29] fix: a packet that arrives twice is no loss

---
 internal/webrtc/recorder/webm.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index a5ec9c4..771561a 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -308,6 +308,10 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		return
 	}
 
+	if r.isRepeated(packet) {
+		return
+	}
+
 	r.trackSequence(packet)
 
 	// Padding
@@ -602,6 +606,11 @@ func isVP8FrameStart(vp8Packet *codecs.VP8Packet) bool {
 	return vp8Packet.S == 1 && vp8Packet.PID == 0
 }
 
+// Retransmitted even though it had arrived: nothing is missing then
+func (r *WebmRecorder) isRepeated(p *rtp.Packet) bool {
+	return r.seqStarted && p.SequenceNumber+1 == r.expectedNextSeq
+}
+
 // Keeps track of the packets that are missing, returns whether there are any
 // right before this one
 func (r *WebmRecorder) trackSequence(p *rtp.Packet) bool {
@@ -653,6 +662,10 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
+	if r.isRepeated(p) {
+		return
+	}
+
 	if r.trackSequence(p) {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 0b56fd216d5c694ba5bc73899aac9f626bf85e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 24/29] fix: a pause of the audio around its start doesn't put
 it out of sync

The duration of the first audio sample that is written goes back to the last
one that wasn't: it has nothing to do with where it belongs in the recording.
---
 internal/webrtc/recorder/webm.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 771561a..b440f03 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -469,12 +469,14 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		}
 
 		if r.audioWriter != nil {
-			// Audio might start later than video
-			if !r.hasValidAudio && r.audioTimestamp < r.videoTimestamp {
-				r.audioTimestamp = r.videoTimestamp
+			// Audio might start later than video. What came before it isn't recorded,
+			// so its duration (or that of a pause) doesn't count
+			if r.hasValidAudio {
+				r.audioTimestamp += sample.Duration
+			} else {
+				r.audioTimestamp = max(r.audioTimestamp, r.videoTimestamp)
 			}
 
-			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
 				log.WithField("session", r.ctx.Value("session")).
 					Errorf("Error writing audio frame: %v", err)
-- 
2.43.0


From 62a62ee34a4ad25eb18c3f0b316cf7c7a26ece95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 25/29] fix: the video of a recording starts with its first
 frame written

With a first key frame that was seen but never completed, the video ended up
behind audio that was started without it.
---
 internal/webrtc/recorder/webm.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index b440f03..d9e8d01 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -385,7 +385,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.lastKeyFrameTime = time.Now()
 		}
 
-		if !r.seenKeyFrame {
+		if !r.hasValidVideo {
 			r.seenKeyFrame = true
 			r.packetTimestamp = ts
 			// Video might start later than audio
@@ -894,9 +894,6 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 				Infof("First keyframe received: seq=%d, timestamp=%d, picID=%d",
 					p.SequenceNumber, p.Timestamp, pictureID)
 			r.seenKeyFrame = true
-			r.packetTimestamp = p.Timestamp
-			// Video might start later than audio
-			r.videoTimestamp = r.audioTimestamp
 		}
 
 		r.lastKeyFrameTime = time.Now()
@@ -1004,6 +1001,13 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
+	// Video might start later than audio. It starts with the first frame that's
+	// written, that's not necessarily the first key frame seen
+	if !r.hasValidVideo {
+		r.packetTimestamp = p.Timestamp
+		r.videoTimestamp = r.audioTimestamp
+	}
+
 	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
 	newVideoTs := r.videoTimestamp + duration
 	newPts := int64(newVideoTs / time.Millisecond)
-- 
2.43.0


From e1c4fd9cd0b1a747926c718b7e109b8358815f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 26/29] fix: recordingStopped of a recording without video says
 where its audio ended

---
 internal/webrtc/recorder/webm.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index d9e8d01..b2473c6 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -246,8 +246,14 @@ func isSequenceInRange(seq, start, end uint16) bool {
 
 // Locked
 func (r *WebmRecorder) close() time.Duration {
+	// Where the recording ends: with its audio if it has no video
+	ts := r.videoTimestamp
+	if !r.hasValidVideo {
+		ts = r.audioTimestamp
+	}
+
 	if r.closed {
-		return r.videoTimestamp
+		return ts
 	}
 	r.closed = true
 
@@ -285,7 +291,7 @@ func (r *WebmRecorder) close() time.Duration {
 
 	release(r.file)
 
-	return r.videoTimestamp
+	return ts
 }
 
 func (r *WebmRecorder) Close() time.Duration {
-- 
2.43.0


From 555d9a871bdf3c882516a6fe0fa1e7cce4241d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 27/29] fix: flow events of LiveKit tracks say where the
 recording was

---
 internal/webrtc/livekit/livekit.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index eb523d7..9be3e5a 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -469,18 +469,19 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			started = true
 
 			for _, p := range packets {
-				w.updateFlowState(
-					trackID,
-					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
-				)
+				// Where the recording is, as far as this track is concerned
+				var timestamp time.Duration
 
 				switch trackKind {
 				case TrackKindVideo:
 					w.handler.PushVideo(p)
+					timestamp = w.handler.VideoTimestamp()
 				case TrackKindAudio:
 					w.handler.PushAudio(p)
+					timestamp = w.handler.AudioTimestamp()
 				}
+
+				w.updateFlowState(trackID, p.SequenceNumber, timestamp)
 			}
 		}
 	}()
-- 
2.43.0


From 0edfd07b1d40fba0b3f5c537b799d8b1b2aa3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 28/29] fix: credentials of TURN servers take effect

---
 internal/config/config.go | 18 ++++++++++++------
 internal/webrtc/webrtc.go | 11 ++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 2ed69bb..46584c7 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -4,7 +4,6 @@ import (
 	"os"
 	"sync"
 
-	"github.com/pion/webrtc/v3"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -126,11 +125,18 @@ type Channels struct {
 }
 
 type WebRTC struct {
-	ICEServers             []webrtc.ICEServer `yaml:"iceServers,omitempty"`
-	RTCMinPort             uint16             `yaml:"rtcMinPort,omitempty"`
-	RTCMaxPort             uint16             `yaml:"rtcMaxPort,omitempty"`
-	JitterBuffer           uint16             `yaml:"jitterBuffer,omitempty"`
-	JitterBufferPktTimeout uint16             `yaml:"jitterBufferPktTimeout,omitempty"`
+	ICEServers             []ICEServer `yaml:"iceServers,omitempty"`
+	RTCMinPort             uint16      `yaml:"rtcMinPort,omitempty"`
+	RTCMaxPort             uint16      `yaml:"rtcMaxPort,omitempty"`
+	JitterBuffer           uint16      `yaml:"jitterBuffer,omitempty"`
+	JitterBufferPktTimeout uint16      `yaml:"jitterBufferPktTimeout,omitempty"`
+}
+
+// ICEServer has plain types only: others can't be loaded
+type ICEServer struct {
+	URLs       []string `yaml:"urls,omitempty"`
+	Username   string   `yaml:"username,omitempty"`
+	Credential string   `yaml:"credential,omitempty"`
 }
 
 type HTTP struct {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 74229aa..2ab822b 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -90,8 +90,17 @@ func (w *WebRTC) Init(
 		return webrtc.SessionDescription{}, err
 	}
 
+	iceServers := make([]webrtc.ICEServer, 0, len(w.cfg.ICEServers))
+	for _, server := range w.cfg.ICEServers {
+		iceServers = append(iceServers, webrtc.ICEServer{
+			URLs:       server.URLs,
+			Username:   server.Username,
+			Credential: server.Credential,
+		})
+	}
+
 	cfg := webrtc.Configuration{
-		ICEServers:   w.cfg.ICEServers,
+		ICEServers:   iceServers,
 		SDPSemantics: webrtc.SDPSemanticsUnifiedPlanWithFallback,
 	}
 
-- 
2.43.0


From 4e06f4ccc1d9a713d3ef2f2fd4ec4cc747ec8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:45 +0000
Subject: [PATCH 29/29] fix: settings of the redis adapter that aren't set keep
 their values

A file with only an address, say, or an environment variable for one of the
adapter's settings replaced the others with nothing: no network, no password.
---
 internal/config/loader.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/config/loader.go b/internal/config/loader.go
index b754310..3a02657 100644
--- a/internal/config/loader.go
+++ b/internal/config/loader.go
@@ -3,6 +3,7 @@ package config
 import (
 	"fmt"
 	"github.com/crazy-max/gonfig"
+	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"path"
@@ -10,6 +11,20 @@ import (
 
 // Load reports whether a configuration file was found
 func (cfg *Config) Load(app App, configFile string) (bool, error) {
+	// The loaders replace an adapter's settings as a whole: those they don't set
+	// remain as they are
+	redis := &Redis{}
+	mergeAdapters := func() error {
+		if err := mapstructure.Decode(cfg.PubSub.Adapters["redis"], redis); err != nil {
+			return err
+		}
+		cfg.PubSub.Adapters["redis"] = redis
+		return nil
+	}
+	if err := mergeAdapters(); err != nil {
+		return false, err
+	}
+
 	// Load from file(s)
 	if configFile == "" {
 		configFile = app.Name + ".yml"
@@ -29,6 +44,9 @@ func (cfg *Config) Load(app App, configFile string) (bool, error) {
 		},
 	})
 	fileFound, err := fileLoader.Load(cfg)
+	if err == nil {
+		err = mergeAdapters()
+	}
 	if err != nil {
 		return fileFound, errors.Wrap(err, fmt.Sprintf("failed to decode configuration from file: %s", fileLoader.GetFilename()))
 	} else if !fileFound {
@@ -43,7 +61,11 @@ func (cfg *Config) Load(app App, configFile string) (bool, error) {
 		Prefix: envPrefix,
 	})
 
-	if found, err := envLoader.Load(cfg); err != nil {
+	found, err := envLoader.Load(cfg)
+	if err == nil {
+		err = mergeAdapters()
+	}
+	if err != nil {
 		return fileFound, errors.Wrap(err, "failed to decode configuration from environment variables")
 	} else if !found {
 		log.Debugf("no %s* environment variables defined", envPrefix)
-- 
2.43.0

