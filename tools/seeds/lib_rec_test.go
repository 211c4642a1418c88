package @NAME@_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/pion/rtp"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
)

// vp8 builds the frames of a VP8 stream, one RTP packet each unless split.
type vp8 struct {
	seq    uint16
	ts     uint32
	pid    uint16
	pids   bool // with 15 bit picture IDs
	marker bool
	w, h   int
}

func (v *vp8) frame(key bool, size, parts int) []*rtp.Packet {
	data := make([]byte, size)
	for i := range data {
		data[i] = byte(i*7 + int(v.pid))
	}
	data[0] = 0x10
	if key {
		copy(data, []byte{0x10, 0, 0, 0x9d, 0x01, 0x2a, byte(v.w), byte(v.w >> 8), byte(v.h), byte(v.h >> 8)})
	} else {
		data[0] = 0x11
	}
	var out []*rtp.Packet
	for i := 0; i < parts; i++ {
		a, b := i*size/parts, (i+1)*size/parts
		desc := []byte{0}
		if v.pids {
			desc = []byte{0x80, 0x80, 0x80 | byte(v.pid>>8&0x7f), byte(v.pid)}
		}
		if i == 0 {
			desc[0] |= 0x10
		}
		out = append(out, &rtp.Packet{
			Header:  rtp.Header{Version: 2, PayloadType: 96, SSRC: 77, SequenceNumber: v.seq, Timestamp: v.ts, Marker: i == parts-1},
			Payload: append(desc, data[a:b]...),
		})
		v.seq++
	}
	v.pid++
	return out
}

func opus(seq uint16, ts uint32) *rtp.Packet {
	return &rtp.Packet{
		Header:  rtp.Header{Version: 2, PayloadType: 111, SSRC: 88, SequenceNumber: seq, Timestamp: ts},
		Payload: []byte{0x78, byte(seq >> 8), byte(seq), 1, 2, 3, 4, 5, 6, 7, 8},
	}
}

func newRec(t *testing.T, custom, ivf bool) (*recorder.WebmRecorder, string) {
	f := filepath.Join(t.TempDir(), "demo.webm")
	return recorder.NewWebmRecorder(f, 0600, 256, 32, custom, ivf), f
}

type block struct {
	track int
	tc    int64 // ms
	key   bool
	data  []byte
}

// readWebm lists the blocks of a recording.
func readWebm(t *testing.T, file string) []block {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var out []block
	var tc int64
	num := func(p int, keep bool) (uint64, int, bool) {
		if p >= len(b) || b[p] == 0 {
			t.Fatalf("bad EBML number at %d", p)
		}
		n := 1
		for m := byte(0x80); b[p]&m == 0; m >>= 1 {
			n++
		}
		v := uint64(b[p])
		if !keep {
			v &= 1<<(8-n) - 1
		}
		ones := !keep && v == 1<<(8-n)-1
		for i := 1; i < n; i++ {
			v = v<<8 | uint64(b[p+i])
			ones = ones && b[p+i] == 0xff
		}
		return v, p + n, ones
	}
	for p := 0; p < len(b); {
		id, q, _ := num(p, true)
		sz, q, unknown := num(q, false)
		switch id {
		case 0x18538067, 0x1f43b675: // Segment, Cluster
			p = q
			continue
		case 0xe7: // Timecode
			tc = 0
			for i := 0; i < int(sz); i++ {
				tc = tc<<8 | int64(b[q+i])
			}
		case 0xa3: // SimpleBlock
			d := b[q : q+int(sz)]
			out = append(out, block{int(d[0] & 0x7f), tc + int64(int16(uint16(d[1])<<8|uint16(d[2]))), d[3]&0x80 != 0, d[4:]})
		}
		if unknown {
			t.Fatalf("element %x of unknown size", id)
		}
		p = q + int(sz)
	}
	return out
}
