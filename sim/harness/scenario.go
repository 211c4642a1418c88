package main

import (
	"strconv"
	"strings"

	"simrt"
)

// Scenario is everything that determines one simulated execution.
type Scenario struct {
	Prop      string           `json:"property"`
	Profile   string           `json:"profile"`
	Seed      uint64           `json:"seed"`
	Cfg       Cfg              `json:"config"`
	Env       []string         `json:"env,omitempty"`  // without the prefix
	Dump      []string         `json:"dump,omitempty"` // settings asked for before the recorder is started
	Sched     simrt.Sched      `json:"schedule"`
	Pubs      []*Pub           `json:"publishers,omitempty"`
	Ops       []*Op            `json:"ops"`
	Faults    []*simrt.FSFault `json:"disk_faults,omitempty"`
	EndMs     int              `json:"end_ms"`
	NetUs     int              `json:"net_us,omitempty"`     // the broker is up to this far away
	KillWrite int              `json:"kill_write,omitempty"` // kill the process in this write to a recording
	Torn      int              `json:"torn,omitempty"`       // percentage of it that gets written
}

// Cfg is the recorder's configuration file.
type Cfg struct {
	DirMode  string `json:"dir_mode,omitempty"`
	FileMode string `json:"file_mode,omitempty"`
	DevNull  bool   `json:"dev_null,omitempty"`
	IVF      bool   `json:"ivf,omitempty"`
	VQ       int    `json:"vq,omitempty"`
	AQ       int    `json:"aq,omitempty"`
	Builtin  bool   `json:"builtin,omitempty"`
	JB       int    `json:"jb,omitempty"`
	JBT      int    `json:"jbt,omitempty"`
	HTTP     bool   `json:"http,omitempty"`
	Prom     bool   `json:"prom,omitempty"`
	Password string `json:"password,omitempty"`
	Level    string `json:"level,omitempty"`
	Dir      string `json:"dir,omitempty"`     // "" = /var/lib/rec
	Ports    int    `json:"ports,omitempty"`   // local ports: the default range is this many thousand short
	LKHost   string `json:"lk_host,omitempty"` // "" = ws://livekit
	LKKey    string `json:"lk_key,omitempty"`  // "" = k
	Omit     bool   `json:"omit,omitempty"`    // the file leaves out what is the default anyway
	Plain    bool   `json:"plain,omitempty"`   // modes are not quoted
	Port     int    `json:"port,omitempty"`    // of the HTTP endpoint; 0 = 8080
	PromAddr string `json:"prom_addr,omitempty"`
	RNet     string `json:"redis_network,omitempty"` // "" = tcp
	RAddr    string `json:"redis_address,omitempty"` // "" = :6379
	ICE      string `json:"ice,omitempty"`           // the ICE servers, in JSON
}

// withEnv is the configuration as overridden by environment variables.
func (c *Cfg) withEnv(env []string) *Cfg {
	d := *c
	for _, e := range env {
		k, v, _ := strings.Cut(e, "=")
		switch k {
		case "RECORDER_DIRECTORY":
			d.Dir = v
		case "RECORDER_FILEMODE":
			d.FileMode = v
		case "RECORDER_DIRFILEMODE":
			d.DirMode = v
		case "RECORDER_WRITEIVFCOPY":
			d.IVF = v == "true"
		case "RECORDER_WRITETODEVNULL":
			d.DevNull = v == "true"
		case "WEBRTC_RTCMINPORT":
			n, _ := strconv.Atoi(v)
			d.Ports = (n - 24577) / 1000
		case "LIVEKIT_HOST":
			d.LKHost = v
		case "LIVEKIT_APIKEY":
			d.LKKey = v
		case "HTTP_ENABLE":
			d.HTTP = v == "true"
		case "HTTP_PORT":
			d.Port, _ = strconv.Atoi(v)
		case "PROMETHEUS_ENABLE":
			d.Prom = v == "true"
		case "PROMETHEUS_LISTENADDRESS":
			d.PromAddr = v
		case "PUBSUB_ADAPTERS_REDIS_NETWORK":
			d.RNet = v
		case "PUBSUB_ADAPTERS_REDIS_ADDRESS":
			d.RAddr = v
		case "PUBSUB_ADAPTERS_REDIS_PASSWORD":
			d.Password = v
		case "PUBSUB_CHANNELS_SUBSCRIBE", "PUBSUB_CHANNELS_PUBLISH":
		default:
			panic("environment " + e)
		}
	}
	return &d
}

func (c *Cfg) httpAddr() string {
	if c.Port != 0 {
		return ":" + strconv.Itoa(c.Port)
	}
	return ":8080"
}

func (c *Cfg) promAddr() string {
	if c.PromAddr != "" {
		return c.PromAddr
	}
	return "127.0.0.1:3200"
}

// redis is where the broker is.
func (c *Cfg) redis() (network, addr string) {
	network, addr = "tcp", ":6379"
	if c.RNet != "" {
		network = c.RNet
	}
	if c.RAddr != "" {
		addr = c.RAddr
	}
	return
}

func (c *Cfg) lkKey() string {
	if c.LKKey != "" {
		return c.LKKey
	}
	return "k"
}

func (c *Cfg) dir() string {
	if c.Dir != "" {
		return c.Dir
	}
	return "/var/lib/rec"
}

func (c *Cfg) lkHost() string {
	if c.LKHost != "" {
		return c.LKHost
	}
	return "ws://livekit"
}

func (c *Cfg) ports() [2]uint16 { return [2]uint16{uint16(24577 + 1000*c.Ports), 32768} }

// Op is one thing the world does at a given time.
//
//	start     startRecording Sid File Adapter SDP(kind) Pub
//	stop      stopRecording Sid
//	status    getRecorderStatus
//	raw       S on the control channel
//	other     S on the recorder's own response channel (from another participant)
//	ice       state N of the latest connection of Pub
//	endtrack  stream S (video/audio) of Pub ends
//	broker    S = refuse|reset|close|subreset|vanish|hang|stall|busy|full for Ms
//	http      POST (or S) /sdp with the offer of Pub (SDP = kind)
//	get       GET path S, the range File (if any)
//	hup       write configuration variant S, then SIGHUP
//	int       SIGINT
//	kill      SIGKILL; restart after Ms
//	put       a file File appears (S content)
//	wall      wall clock jumps by Ms
//	room      S = kick: the room of Pub disconnects; unpub/mute: stream
//	inject    deliver raw RTP bytes Raw to stream S of Pub
type Op struct {
	At      int    `json:"at"`
	K       string `json:"k"`
	Sid     string `json:"sid,omitempty"`
	File    string `json:"file,omitempty"`
	Adapter string `json:"adapter,omitempty"`
	SDP     string `json:"sdp,omitempty"`
	Pub     int    `json:"pub,omitempty"`
	S       string `json:"s,omitempty"`
	Raw     []byte `json:"raw,omitempty"` // S, when it is not valid UTF-8
	N       int    `json:"n,omitempty"`
	Ms      int    `json:"ms,omitempty"`
	Cfg     *Cfg   `json:"cfg,omitempty"`
}

// Pub is one publisher: a media connection with up to two streams.
type Pub struct {
	Video      *Stream `json:"video,omitempty"`
	Audio      *Stream `json:"audio,omitempty"`
	ConnMs     int     `json:"conn_ms"`             // answer -> connected
	NoConn     bool    `json:"no_conn,omitempty"`   // ICE never connects
	GatherMs   int     `json:"gather_ms,omitempty"` // candidate gathering
	CloseMs    int     `json:"close_ms,omitempty"`
	RTTMs      int     `json:"rtt_ms"`
	PCErr      string  `json:"pc_err,omitempty"` // "new", "setlocal": that call fails
	Full       bool    `json:"full,omitempty"`   // the offer has all the lines a browser's has
	Idle       string  `json:"idle,omitempty"`   // the offer also has the other medium: inactive, or recvonly
	Dir        string  `json:"dir,omitempty"`    // direction of those that are sent, none = not stated
	AudioFirst bool    `json:"audio_first,omitempty"`
	Room       string  `json:"room,omitempty"` // LiveKit room
	JoinMs     int     `json:"join_ms,omitempty"`
	JoinErr    bool    `json:"join_err,omitempty"`
	SubErr     bool    `json:"sub_err,omitempty"`
	SubMs      int     `json:"sub_ms,omitempty"` // a signalling message takes
	LatePub    int     `json:"late_pub,omitempty"`
	Extra      bool    `json:"extra,omitempty"` // the room also has a track nobody asked for
	ExtraID    string  `json:"extra_id,omitempty"`
	Shared     bool    `json:"shared,omitempty"` // the room is that of every publisher with its name
	Part       int     `json:"part,omitempty"`   // which participant of a shared room it belongs to
}

func (p *Pub) has(track string) bool {
	return p.Video != nil && p.Video.TrackID == track || p.Audio != nil && p.Audio.TrackID == track
}

// Stream is a media source and what the network does to it.
type Stream struct {
	Seed     uint64   `json:"seed"`
	SSRC     uint32   `json:"ssrc"`
	Seq0     uint16   `json:"seq0"`
	TS0      uint32   `json:"ts0"`
	PID0     uint16   `json:"pid0,omitempty"`
	PIDMode  int      `json:"pid_mode,omitempty"` // 0 none, 7, 15 bits
	TL0      bool     `json:"tl0,omitempty"`
	Parts    bool     `json:"parts,omitempty"` // partitions start with S=1, PID>0
	StartMs  int      `json:"start_ms"`
	StopMs   int      `json:"stop_ms"`
	FrameMs  int      `json:"frame_ms"`
	MinSz    int      `json:"min_sz"`
	MaxSz    int      `json:"max_sz"`
	PktSz    int      `json:"pkt_sz,omitempty"`
	KeyEvery int      `json:"key_every,omitempty"`
	FirstKey int      `json:"first_key,omitempty"` // index of the first key frame (0 = first frame)
	PLIMs    int      `json:"pli_ms"`              // reaction time to key frame requests; <0 = ignores them
	LagMs    int      `json:"lag_ms"`
	RTX      bool     `json:"rtx,omitempty"`
	Pauses   [][2]int `json:"pauses,omitempty"`
	TSJumps  [][2]int `json:"ts_jumps,omitempty"` // frame index, extra milliseconds
	Fates    []Fate   `json:"fates,omitempty"`
	EndMs    int      `json:"end_ms,omitempty"` // the track ends
	PT       int      `json:"pt,omitempty"`
	PadBits  bool     `json:"pad_bits,omitempty"`
	TrackID  string   `json:"track_id,omitempty"`
	NotAsked bool     `json:"not_asked,omitempty"` // LiveKit: not in the request
	RTXLimit int      `json:"rtx_limit,omitempty"`
	JitterMs int      `json:"jitter_ms,omitempty"`
	W        int      `json:"w,omitempty"` // picture size
	H        int      `json:"h,omitempty"`
	Scale    int      `json:"scale,omitempty"` // VP8 scaling bits
	KeySz    int      `json:"key_sz,omitempty"`
	DTX      int      `json:"dtx,omitempty"` // talks for DTX frames, is silent for as many
}

// Fate is what happens to the P-th packet of a stream.
//
//	drop  lost N times (including retransmissions)
//	delay arrives N ms later than others
//	dup   arrives again N ms later
//	pad   N padding-only packets are sent before it
//	bad   its payload is replaced by malformed bytes (variant N)
//	freeze what is sent within N ms from it on arrives at once after that
//	seqjump the sequence number jumps by N before it
type Fate struct {
	P int    `json:"p"`
	K string `json:"k"`
	N int    `json:"n,omitempty"`
}

func (s *Stream) kindVideo(p *Pub) bool { return p.Video == s }

func (o *Op) text() string {
	if len(o.Raw) > 0 {
		return string(o.Raw)
	}
	return o.S
}
