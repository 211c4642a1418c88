import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="internal/server/server.go"; SE="internal/server/session.go"; W="internal/webrtc/webrtc.go"; L="internal/webrtc/livekit/livekit.go"
R="internal/webrtc/recorder/recorder.go"; M="internal/webrtc/recorder/webm.go"; I="internal/webrtc/recorder/ivfwriter.go"
J="internal/webrtc/utils/jitter_buffer.go"; RL="internal/webrtc/utils/receive_log.go"; U="internal/webrtc/utils/sequence_unwrapper.go"; NK="internal/webrtc/utils/nack.go"
RD="internal/pubsub/redis/redis.go"; RW="internal/pubsub/redis.go"; EV="internal/pubsub/events/events.go"; DE="internal/pubsub/events/decode.go"; H="internal/server/http.go"; A="internal/app/app.go"; AC="internal/app/config.go"; CL="internal/config/loader.go"; PR="internal/prometheus/prometheus.go"
p("C01","Every start request gets exactly one truthful response",
"Every startRecording request that reaches the recorder is answered by exactly one startRecordingResponse carrying its session id. Status ok means a recording session now exists and the response carries the path the media will be written to and, for the mediasoup adapter, an SDP answer to that request's offer; status failed carries an error, no SDP, and leaves nothing behind: no session, no stop event later, and the same session id can be started again successfully.",
["histories","inputs","schedules","fault_sequences"],"all sequences of control messages (valid, malformed, duplicated, legacy and new formats, both adapters), all interleavings with running recordings, and failures of the peer connection, LiveKit connection or file system during start",
"The unit tests only exercise event encoding/validation helpers; no test starts a server, delivers messages over the broker or makes a start fail part-way.",
[S,SE,EV,W,L,R],[("start handling and response publishing","Server.HandlePubSub in "+S),("session start","Session.StartRecording in "+SE),("request validation","StartRecording.Validate in "+EV)],
["messages published on the outgoing channel","later control messages with the same id"])
p("C02","A session id is exclusive while its recording runs and reusable after it ended",
"A startRecording whose session id belongs to a running recording is answered with status failed and does not disturb that recording: its media, file and events continue as if the request had not been made. Once the recording with an id has ended (stopped, or its connection was lost), the id can be used for a new recording, and nothing belonging to the old recording (late media, late connection events) stops, reports on or removes the new one. Requests for a session take effect in the order they were sent in: a start that follows a stop of the same id finds the id free.",
["histories","schedules","fault_sequences"],"all interleavings of start/stop requests for few ids with connection loss, track end and delayed callbacks of earlier recordings under the same id",
"Requires interleaving of callbacks of an old connection with a new session of the same id; tests never create a session.",
[S,SE,W],[("session table","Server.sessions / CloseSession in "+S),("connection and flow callbacks","Session.StartRecording in "+SE)],
["startRecordingResponse","recordingStopped and status events per id","recorded files"])
p("C03","Each recording is reported stopped exactly once, finalised, silent afterwards",
"For every successfully started recording, whatever ends it (stop request, connection failure or close, end of its media), exactly one recordingStopped with its session id is published, and after it no further event is published for that recording. When that event is published the recording's file is complete: closed, no longer written, and containing all media the recorder had accepted. A stop request for a running recording produces that event promptly; a stop for an unknown or already ended id produces none.",
["histories","schedules","fault_sequences"],"all orders and overlaps of stop requests (including duplicates), ICE failure/disconnect/close, track EOF on one or both tracks, and reader/ticker activity",
"Race between control goroutine, ICE callback and per-track goroutines; no test runs any of them.",
[S,SE,W,M],[("stop handling","Server.HandlePubSub, Session.StopRecording in "+SE),("flow and connection callbacks","Session.StartRecording in "+SE),("finalisation","WebmRecorder.close in "+M)],
["recordingStopped/recordingRtpStatusChanged events","file contents at the time of the event and afterwards"])
p("C04","No control message can crash or wedge the recorder",
"Whatever bytes arrive on the control channel (not JSON, wrong types, unknown or missing ids, undecodable or unparsable SDP, missing adapter options, repeated or out-of-order requests), the recorder process keeps running, running recordings are unaffected, and a following valid request is served.",
["inputs","histories","fault_sequences"],"all message payloads and sequences, interleaved with running recordings",
"Tests decode a handful of well-formed events; none delivers a message to the handler, where a bad one is dereferenced or panics deep in signalling code.",
[S,DE,EV,SE,"internal/webrtc/signal/signal.go",W],[("decode and dispatch","events.Decode, Server.HandlePubSub"),("panic containment","recover in HandlePubSub")],
["process liveness","responses to following requests"])
p("C05","No media packet can crash the recorder or disturb another recording",
"Whatever RTP packets a publisher sends (empty, truncated or malformed VP8/Opus payloads, arbitrary markers, timestamps and sequence numbers, padding, duplicates, reordering, jumps), the recorder process keeps running, other recordings are complete and unaffected, and the recording itself can still be stopped and leaves a well-formed file.",
["inputs","schedules","fault_sequences"],"all packet contents and sequences on one track, in the presence of other tracks and sessions, under all interleavings of the per-track goroutines",
"A panic in any per-track goroutine ends the whole process; tests feed only well-formed packets to isolated helpers and never run the goroutines concurrently.",
[W,M,J,RL,L],[("per-track read loop and NACK/PLI/flow goroutines",W),("frame assembly","WebmRecorder.PushVideo/PushAudio in "+M),("buffers",J)],
["process liveness","files of all sessions","responses to stop requests"])
p("C06","A disk failure stays inside the recording it hits",
"If opening, writing, seeking or closing a recording's file fails (disk full, I/O error, permission, short write), the recorder process keeps running, all other recordings continue and complete unaffected, and the failed recording can still be stopped, is reported stopped exactly once, and its session id is reusable. A file that cannot be opened for a while is tried again as long as there is media for it: what arrives more than a second after the last failure, from a key frame on, is recorded. A start whose directory cannot be created is refused, and trouble with the IVF copy alone leaves the recording itself complete. What a failed IVF copy holds are whole frames of the video up to the failure, at most its end is cut short.",
["fault_sequences","schedules","crash_points"],"every file operation of any recording failing at any point, with one or many operations failing, transient or permanent, while other recordings run",
"Needs injected file-system errors at specific points under concurrency; the tests touch no files.",
[M,I,R,SE],[("file opening and writing","WebmRecorder.initWriter / close in "+M),("IVF copy",I)],
["process liveness","other sessions' files and events","recordingStopped of the failed session"])
p("C07","Recordings stay in the recording directory and never overwrite a file",
"Whatever file name a start request carries, the recorder creates or modifies files only inside the configured recording directory (or only the null device when so configured), with the configured permissions, and only files it created for that recording. A file that already existed before a recording first writes, whether from an earlier recording, another running recording, or anything else, is never truncated or modified; the start request is refused or the recording fails instead.",
["inputs","histories","schedules"],"all file names (separators, dot-dot, absolute, odd extensions), all combinations of concurrent sessions sharing a name, and files appearing between start and first media",
"The check-then-open window spans from the start request to the first key frame seconds later; no test creates a recorder.",
[R,M,I],[("path validation","ValidateAndPrepareFile in "+R),("lazy open","WebmRecorder.initWriter in "+M),("IVF copy","NewIVFWriter in "+I)],
["simulated file system: every path opened, created, truncated or written"])
p("C08","Every recorded video frame is exactly one frame that was sent",
"Each video block in a recording carries byte-for-byte the payload of exactly one video frame the publisher sent, flagged as key frame if and only if it is one; blocks appear in sending order, none twice. Lost, late, duplicated, reordered or corrupted packets never cause a spliced, truncated or mixed frame to be written. The picture size the recording states is that of its first frame (unless audio had waited ten seconds for it).",
["inputs","fault_sequences","schedules"],"all loss, duplication, reordering and delay patterns, frame sizes and packetisations, sequence/timestamp/picture-id start values including wraparound, with or without picture ids, under all goroutine interleavings",
"Depends on the combination of loss pattern, wraparound position and timing of three goroutines; tests check each buffer separately on fixed lists.",
[W,J,U,RL,M],[("reorder buffer",J),("skip signalling","OnTrack read loop in "+W+", WebmRecorder.NotifySkippedPacket in "+M),("frame assembly","WebmRecorder.pushVP8Custom in "+M)],
["video blocks parsed from the file against the frames sent"])
p("C09","Recorded video is decodable: no delta frame without its reference",
"The first video block of a recording is a key frame, and every delta frame recorded directly follows, in the publisher's frame order, the previously recorded frame: after any frame is missing from the recording, the next recorded video frame is a key frame.",
["inputs","fault_sequences","schedules"],"same as C08, including loss of whole frames, first packets, last packets and key frames",
"Needs whole-frame loss combined with timing and picture-id wraparound; no test assembles frames from a lossy stream.",
[M,W,J],[("key frame gating","hasKeyFrame/expectedNextSeq/PictureID logic in WebmRecorder.pushVP8Custom, "+M),("skip signalling",W)],
["video blocks parsed from the file against the frames sent"])
p("C10","Media that arrives is recorded, and recording resumes after loss",
"If every packet of a stream arrives (possibly duplicated, reordered or delayed within the reordering tolerance), the recording contains every frame from the first key frame on when it is stopped. After any period of loss, once packets arrive again and the publisher answers key frame requests, recording resumes within a bounded time and every later frame is recorded.",
["fault_sequences","schedules","inputs","configurations"],"all reorder/duplicate/delay patterns within tolerance, all loss bursts, both samplers, jitter-buffer and queue sizes, sequence wraparound, one or two tracks starting at different times",
"A liveness and completeness property over long streams with wraparound; tests run tens of packets without time.",
[W,J,U,M],[("reorder buffer and skip timeout",J),("give-up after NACKs",W),("key frame requests","WebmRecorder.RequestKeyframe in "+M),("writer start","WebmRecorder.initWriter in "+M)],
["video and audio blocks parsed from the file against what was sent and delivered"])
p("C11","Recorded timestamps follow the media clock",
"In every recording, the difference between the timestamps of two recorded video frames equals the difference of their RTP timestamps (within rounding to milliseconds), including across RTP timestamp wraparound, gaps and key frame waits; the differences between recorded audio packets follow their RTP timestamps likewise; timestamps of a track never decrease, no frame is lost because of its timestamp, and timestamps do not depend on wall-clock changes or scheduling. (Where a publisher's own RTP timestamps jump backwards, the difference across the jump is not specified.)",
["inputs","fault_sequences","schedules"],"all frame rates, start timestamps (including wraparound), loss gaps, arrival jitter and wall-clock steps",
"Needs long simulated streams with timestamp wrap, gaps and clock steps; there is no test for timestamps.",
[M],[("pts computation","WebmRecorder.pushVP8Custom / pushVP8Builtin / pushOpus in "+M)],
["block timestamps parsed from the file against RTP timestamps sent"])
p("C12","Audio is recorded faithfully",
"Each audio block in a recording is byte-for-byte one Opus packet the publisher sent, in order and at most once, and if every audio packet is delivered within the reordering tolerance every one is recorded (from the moment recording could start until it is stopped, up to the documented assembly lag), in audio-only recordings and beside video; audio of a recording whose video does not come is withheld for no more than about ten seconds of media.",
["fault_sequences","inputs","schedules","configurations"],"all loss, duplication, reordering patterns and sequence wraparound, DTX gaps, audio-only and audio+video recordings, any order of track arrival",
"No test runs the audio path.",
[W,M,J],[("audio path","WebmRecorder.pushOpus in "+M),("reorder buffer",J)],
["audio blocks parsed from the file against packets sent"])
p("C13","Lost packets and key frames are asked for, and asking is bounded",
"A missing packet that matters is re-requested from the sender (NACK naming exactly missing packets, never a packet that was received) until it arrives or a bounded number of attempts is used up, and a packet arriving in time because of it is recorded. While video is being received the recorder regularly asks for a key frame, asks again promptly when it has to wait for one, and never floods: requests stay bounded per second.",
["fault_sequences","schedules","histories"],"all loss patterns, retransmission delays and losses of retransmissions, sequence wraparound, track end during recovery",
"Involves tickers, retransmissions and concurrently updated state; tests only cover building NACK lists from fixed input.",
[W,RL,NK,J,M],[("NACK goroutine","OnTrack in "+W),("receive log",RL),("PLI ticker and recorder requests",W+", "+M)],
["RTCP packets the recorder sends, against packets delivered"])
p("C14","Reordering and late packets delay media only by a bounded time",
"Packets are handed to recording in sequence order, each at most once, whatever order they arrive in; a packet that never arrives holds back the packets behind it only for a bounded time that does not accumulate with the number of lost packets and does not lead to loss of packets that did arrive.",
["fault_sequences","inputs","configurations"],"all arrival orders, gaps of any length, duplicates, very late packets, sequence wraparound, and configured buffer sizes and timeouts",
"Depends on time and long histories across wraparound; the unit tests check few fixed orders.",
[J,U,W],[("jitter buffer",J),("sequence unwrapping",U),("give-up","OnTrack NACK goroutine in "+W)],
["times at which delivered media becomes recorded in the simulated run"])
p("C15","Media flow events are truthful, alternate, and are bounded in delay",
"For each running recording the recorder reports flowing once media is being received and not_flowing once it has paused, each within a bounded time; per track the two alternate, starting with flowing, and none is repeated without the other in between. Media that is steadily received is never reported as not flowing.",
["schedules","histories","fault_sequences"],"all pause/resume patterns, one or two tracks, packet rates, loss, and scheduling of the monitoring goroutine",
"Ticker driven, shares variables with the read loop; no test.",
[W,SE,L],[("flow monitor goroutine","OnTrack in "+W),("event publishing","flow callback in "+SE)],
["recordingRtpStatusChanged events against times media was delivered"])
p("C16","A crash never loses media already on disk",
"At every instant, and after the process is killed at any point, the recording file is a prefix of a well-formed WebM stream (header, tracks, then complete clusters and blocks, at most the last element cut short) containing the media accepted so far except a bounded most recent part. Media once written to a recording's file is never removed or overwritten while the recorder runs, and after a restart a new recording does not destroy it.",
["crash_points","fault_sequences","schedules"],"process kill at any point of any execution, including during track start-up with audio and video arriving in either order, and restart with the same requests",
"Needs crash injection between individual writes; no test.",
[M,R],[("writer initialisation","WebmRecorder.initWriter in "+M),("existing file check",R)],
["simulated file system contents after every operation and after the crash"])
p("C17","The recorder announces itself and answers status requests",
"Whenever the recorder has (re)subscribed to its control channel it publishes one recorderStatus with its version and instance id, and it answers every getRecorderStatus that reaches it with exactly one recorderStatus carrying the same instance id for the life of the process. A recorder started while its broker is reachable is subscribed within seconds.",
["histories","schedules","fault_sequences"],"all message sequences and broker reconnections",
"No test runs the subscription.",
[S,A,RD,RW],[("OnStart",S),("status reply","HandlePubSub in "+S)],
["recorderStatus messages on the outgoing channel"])
p("C18","The control channel survives broker outages",
"If, once the recorder is running, the connection to the message broker is lost, refused, reset or stalls, at any moment, the recorder process keeps running, running recordings continue, and within a bounded time after the broker is reachable again the recorder is subscribed and serves requests; no request that the broker delivered to the recorder is left unanswered while the broker is reachable. An outage also covers a broker that answers with errors or refuses further clients.",
["fault_sequences","schedules","histories"],"all outage positions and durations, half-open connections, restarts of the broker, resets during subscribe or publish",
"Needs a simulated broker and time (one-minute health checks); no test.",
[RD,RW,A],[("subscription loop and health check","ListenChannels in "+RD),("wrapper",RW)],
["process liveness","subscription at the broker","responses after the outage"])
p("C19","The session gauge equals the number of running recordings",
"The exported session count equals the number of recordings currently running whenever the recorder is quiet: it returns to its previous value after every failed start and after every end of a recording by whatever cause, exactly once.",
["histories","schedules","fault_sequences"],"all start/stop/failure sequences and races between causes of ending",
"Leaks only on failure and race paths; no test.",
[SE,PR,S],[("gauge","Session.StartRecording/StopRecording in "+SE)],
["exported prometheus gauge"])
p("C20","Ended recordings release everything they held",
"Within a bounded time after a recording has ended, or a start failed, its media connection or LiveKit room is closed, its files are closed, and its background activities (timers, goroutines) are gone, and the recorder holds no more connections to the broker than when idle, so that any number of recordings can be made over the life of the process.",
["histories","schedules","fault_sequences"],"all ways a recording ends or fails to start, in any order and overlap",
"Leaks are invisible to unit tests of helpers; needs the whole system observed after quiescence.",
[SE,S,W,L,M],[("closing","Session.StopRecording, WebRTC.Close, LiveKitWebRTC.Close, WebmRecorder.close")],
["live simulated goroutines, timers, open files and open connections"])
p("C21","The HTTP test endpoint gives each caller its own answer",
"When the test HTTP endpoint is enabled, every POST of an SDP offer that is answered returns the SDP answer to that caller's own offer, for any number of concurrent callers; a failed start ends the request within a bounded time, and neither HTTP requests nor unrelated broker traffic crash the recorder or block each other: a caller does not wait longer because another one's answer was lost. A request that posts no offer (another method, an empty body) is refused at once and starts nothing.",
["schedules","inputs","histories","fault_sequences"],"concurrent POSTs in the same second, failures, foreign responses on the channel, interleavings of request handlers with the subscription goroutine",
"Concurrent access to shared maps and channels; no test.",
[H],[("answer routing","HTTPServer.Serve in "+H)],
["HTTP responses per request","process liveness"])
p("C22","LiveKit recordings record, report and end like any other",
"A recording started with the livekit adapter subscribes to exactly the requested tracks, records what they carry with the same integrity as other recordings, asks for key frames regularly, reports flow changes, and ends cleanly: on a stop request or when the room disconnects the room is left, exactly one recordingStopped is published and nothing follows. Several recordings of different tracks in the same room are independent: none takes over or ends the connection of another, and the end of one leaves the others alone. No interleaving of its callbacks deadlocks.",
["schedules","histories","fault_sequences"],"all orders of track subscription, media, key frame requests, stop and room disconnection",
"Concurrency between LiveKit callbacks, tickers and recorder locks; no test.",
[L,SE,M],[("track handling","LiveKitWebRTC.onTrackSubscribed in "+L),("key frame requests","RequestKeyframe in "+L)],
["recorded files, events, PLIs and room state of the simulated LiveKit server"])
p("C23","The IVF copy equals the recorded video",
"When the IVF copy is enabled, then once a recording has ended the copy is a well-formed IVF file whose frames are exactly the video frames of the recording, in order, with their media timestamps, and whose header carries the frame count and picture size; enabling it changes nothing in the recording itself.",
["histories","fault_sequences","configurations"],"all streams, loss patterns, samplers and resolution changes",
"No test writes a file.",
[I,M],[("IVF writing",I),("hook-up","pushToIVFWriter in "+M)],
["IVF file contents against the WebM file"])
p("C24","A configuration reload never disturbs running recordings",
"A reload signal at any moment, with a valid, changed, missing or half-written configuration file, neither ends the process nor affects running recordings; recordings started afterwards use either the old or the new configuration as a whole, and an unusable file leaves the old configuration in force.",
["schedules","fault_sequences","configurations"],"all positions of reloads relative to starts and media, all contents of the configuration file at that moment",
"Race between signal handler and control goroutine; no test.",
[A,AC,CL,S],[("reload","sighupHandler in "+A+", loadConfig in "+AC)],
["process liveness, directories used by later recordings"])
p("C25","Audio and video of a recording stay in step",
"In a recording with audio and video, what arrived together plays together: the difference between the recorded times of an audio packet and a video frame equals the difference of the times at which they were captured, up to what the tracks' arrival differs by, or pauses, at the start of the later one, constantly over the whole recording. Later pauses, loss, waiting for a key frame, RTP timestamp wraparound, a track that starts late, and wall-clock steps do not shift the tracks against each other.",
["inputs","fault_sequences","schedules","configurations"],"all orders and delays in which the two tracks start, pauses around the start, loss of the first key frames, wraparound of either clock, long recordings, both samplers and both adapters",
"Needs two streams with their own clocks over time, starting at different moments, with loss; tests never have two tracks.",
[M,W,L],[("track offsets","pushOpus and pushVP8Custom/pushVP8Builtin in "+M)],
["block times of both tracks parsed from the file against the times the media was captured and arrived"])
p("C26","Events say when they happened and where the recording was",
"timestampUTC of an event is the recorder's wall-clock time when the event happened (and timestamp of recorderStatus the same in milliseconds). timestampHR of recordingStopped is the recording time of the last video frame written (of the last audio packet if the recording has no video), and timestampHR of a flow event is a position the recording of that session was at when it happened, with either adapter.",
["histories","fault_sequences","schedules","inputs"],"all ways a recording ends, audio-only, video-only and both, pauses and loss before the event, wraparound, wall-clock steps, both adapters and samplers",
"Needs a recording running over time to compare an event with; tests only cover the encoding of events.",
[W,L,M,SE,EV],[("positions","VideoTimestamp/AudioTimestamp and close in "+M),("flow events","OnTrack in "+W+", updateFlowState in "+L),("event construction",EV)],
["timestamps in the published events against block times in the file and the simulated wall clock"])
p("C27","Settings come from the environment, else the file, else the defaults",
"Every setting takes effect with the value of its environment variable (BBBRECORDER_ and its upper-case path) if there is one, else the value in the configuration file, else its documented default, whatever else the file says or leaves out and in whatever notation; the same holds after a reload, which an environment variable survives. That includes where the broker is and its password, the ICE servers with their credentials, and the addresses HTTP and metrics are served at. A value that can't be read ends the recorder when it is started (and is refused in a reload) rather than being passed over. What --dump prints is the value in force, and it fails for what is no setting.",
["configurations","histories","inputs"],"all combinations of settings given by environment, file, both or neither, quoted or not, and of reloads with other files, observed through recordings made with either adapter",
"No test loads a configuration.",
[CL,AC,A,"internal/config/config.go",SE,W,L,R],[("loading","Config.Load in "+CL+", SetDefaults in internal/config/config.go"),("reload","reloadConfig in "+AC),("printing","dumpConfig in "+AC)],
["directory, modes and IVF copy of recordings, ports of media connections, LiveKit host and key, ICE servers, broker and channels used, listening addresses, output of --dump"])
p("C28","The HTTP endpoint serves recordings as they are, and nothing else",
"With http.enable, GET /media/NAME answers with exactly the bytes of that file below the recording directory as it is at that moment (or the range of them asked for), whatever was requested before, 404 if there is none, and / serves the page; nothing outside the recording directory is ever served, however the path is written, also while recordings are made, after crashes and with the directory or port set elsewhere. Without http.enable nothing is served.",
["histories","inputs","schedules","configurations"],"all orders of requests and recordings, names that need escaping, ranges, missing files, directories, paths that lead outside in plain and escaped notation",
"No test starts the HTTP server.",
[H,A,"internal/config/config.go"],[("file server","serve in "+H),("directory","NewHTTPServer in "+H),("enabling","internal/app/app.go")],
["bodies and status codes of GET requests against the files in the simulated file system before and after"])

with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
