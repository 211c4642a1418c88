package utils_test

import (
	"context"
	"testing"
	"time"

	"github.com/pion/rtp"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
)

// Packets are handed over once, in order, also when many of them never come.
func TestDemo(t *testing.T) {
	jb := utils.NewJitterBuffer(64, 50, context.Background())
	last := int64(0)
	take := func() {
		for {
			ps, skipped := jb.NextPackets()
			for _, p := range ps {
				s := int64(p.Timestamp)
				if s <= last {
					t.Fatalf("packet %d was handed over after %d", s, last)
				}
				last = s
			}
			if ps == nil && !skipped {
				return
			}
		}
	}
	add := func(seq int64) {
		jb.Add(seq, &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(seq), Timestamp: uint32(seq)}})
		take()
	}
	add(1000)
	for seq := int64(1002); seq < 1040; seq++ { // 1001 is lost
		add(seq)
	}
	add(1100) // and a burst after it
	for seq := int64(1101); seq < 1400; seq++ {
		time.Sleep(time.Millisecond)
		add(seq)
	}
	time.Sleep(100 * time.Millisecond)
	take()
	if last != 1399 {
		t.Fatalf("packets up to %d were handed over", last)
	}
}
