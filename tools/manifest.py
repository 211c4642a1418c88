import json,os
B=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation with fault injection"
props=[json.loads(l) for l in open(B+'/properties.jsonl')]
notes={
"C01":"Every request of every run is matched with the responses on the channel; ok answers are checked for session, path and an SDP answer to that very offer, failed ones for their error and for leaving nothing.",
"C02":"Few ids, starts and stops that overlap with the end of earlier recordings under the same id; the running recording must be complete and its events its own.",
"C03":"All causes of an end, alone and overlapping; the files are snapshotted at the moment the event is published and compared with their final content and with the media accepted until then.",
"C04":"Arbitrary bytes and mutated messages on the channel, interleaved with recordings that must stay complete and with valid requests that must be served.",
"C05":"Malformed, truncated, mutated and random payloads, sequence and timestamp jumps on one track beside healthy recordings.",
"C06":"Every file operation may fail (ENOSPC, EIO, EACCES, EROFS, EMFILE, short or slow writes), once or for good; other recordings must be complete.",
"C07":"Every path the recorder opens, creates, truncates or writes is seen by the simulated file system, whose content before a recording must survive it.",
"C08":"Video blocks of all files are compared byte for byte with the frames sent.",
"C09":"Recorded frames are compared with the sender's frame order.",
"C10":"Frames whose packets arrived within the tolerance must be in the file; after loss a key frame must be recorded within a bound.",
"C11":"Block timestamps of video and audio are compared with the RTP timestamps sent, across wraparound, gaps and wall-clock steps.",
"C12":"Audio blocks are compared byte for byte with the packets sent; packets that arrived in time must be there.",
"C13":"NACKs are compared with the packets missing at that moment; key frame requests with their minimum and maximum rate.",
"C14":"The time at which each packet is handed over is derived from the arrivals and compared with the moment its frame reaches the file.",
"C15":"Flow events are compared with the arrival of packets per track.",
"C16":"Snapshots of the file at random instants and at the instant the process is killed are parsed and compared with the media accepted until then.",
"C17":"Status events are compared with subscriptions and requests.",
"C18":"Broker resets, refusals, error replies, too many clients, half-open connections and stalls at any moment; then subscription, answers and running recordings are judged.",
"C19":"The exported gauge is compared with the number of running recordings whenever the recorder is quiet.",
"C20":"Connections, rooms, files, timers and goroutines alive after all recordings ended are compared with an idle recorder.",
"C21":"Concurrent HTTP posts with foreign traffic; each answer is compared with the offer it belongs to.",
"C22":"LiveKit rooms are simulated; the library's jitter buffer is replayed as the reference of what is handed over.",
"C23":"The IVF copy is parsed and compared with the recording; pictures of changing sizes.",
"C24":"SIGHUP at any moment with valid, changed, truncated or missing files; every later recording must match one configuration as a whole.",
"C25":"The recorded times of audio and video blocks are compared with the times their packets were captured and arrived, over streams with late tracks, pauses, loss and wraparound.",
"C26":"timestampUTC is compared with the simulated wall clock, timestampHR with the block times in the file.",
"C27":"Random splits of the settings over environment, file and defaults; recordings, connections and channels must show the values in force, and --dump print them.",
"C28":"GET requests for recordings, ranges, directories, missing names and paths leading outside, before, while and after recordings are made; each answer is compared with the file's bytes.",
}
checks=[]
for p in props:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":T,"level":"exploration",
    "level_note":notes[i]+" The recorder's own code (rewritten from the working tree so that goroutines, channels, locks, clocks, files and sockets are simulated) runs under a seeded scheduler; assurance is that of the runs explored (counted in the evidence). Trusted: the simulated runtime, file system, broker, and the stubs of pion's peer connection and LiveKit's room; ICE, DTLS, SRTP and pion's interceptors are not simulated."})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo: the seams are put in by a source rewriter (sim/rewriter) in a copy of the working tree at build time, so the shipped code is unchanged. Replay a violation with ./check.sh replay FILE. Repaired defects are listed in known-findings.txt."}
json.dump(m,open(B+'/MANIFEST.json','w'),indent=1); print(len(checks))
