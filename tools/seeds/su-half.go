package utils_test

import (
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
)

// Packets are lost around the point where the sequence number wraps around: what
// comes next is later than what came before.
func TestDemo(t *testing.T) {
	for _, lost := range []int{0, 10, 500, 2000, 8000} {
		su := utils.NewSequenceUnwrapper(16)
		first := 65536 - lost/2 - 3
		last := su.Unwrap(uint64(first))
		for i := 1; i < 100; i++ {
			n := first + i + lost
			got := su.Unwrap(uint64(n % 65536))
			if got <= last || got-last > int64(lost)+1 {
				t.Fatalf("%d lost: %d was followed by %d", lost, last, got)
			}
			last = got
		}
	}
}
