package main

import (
	"encoding/binary"
	"fmt"
)

// Block is one media block of a WebM file.
type Block struct {
	Track int
	TC    int64 // milliseconds
	Key   bool
	Data  []byte
	Off   int // offset of the end of the block
}

type TrackInfo struct {
	Num   int
	Type  int
	Codec string
	W, H  int
	Rate  float64
	Ch    int
}

type WebM struct {
	Tracks    []TrackInfo
	Blocks    []Block
	Truncated bool   // the last element is cut short
	Err       string // anything that is not a prefix of a well-formed stream
	ErrOff    int
	HeaderOK  bool // EBML header, Segment, Info and Tracks were complete
	Scale     uint64
	App       string
	Clusters  int
}

func (w *WebM) track(typ int) int {
	for _, t := range w.Tracks {
		if t.Type == typ {
			return t.Num
		}
	}
	return -1
}

// of returns the blocks of one kind of track.
func (w *WebM) of(typ int) (o []Block) {
	n := w.track(typ)
	if n < 0 {
		return
	}
	for _, b := range w.Blocks {
		if b.Track == n {
			o = append(o, b)
		}
	}
	return
}

type ebml struct {
	b   []byte
	pos int
}

func (e *ebml) id() (uint32, bool) {
	if e.pos >= len(e.b) {
		return 0, false
	}
	c := e.b[e.pos]
	n := 1
	for m := byte(0x80); n <= 4 && c&m == 0; m >>= 1 {
		n++
	}
	if n > 4 {
		return 0, true
	}
	if e.pos+n > len(e.b) {
		return 0, false
	}
	var v uint32
	for i := 0; i < n; i++ {
		v = v<<8 | uint32(e.b[e.pos+i])
	}
	e.pos += n
	return v, true
}

func (e *ebml) size() (n int64, unknown, ok bool) {
	if e.pos >= len(e.b) {
		return 0, false, false
	}
	c := e.b[e.pos]
	l := 1
	m := byte(0x80)
	for ; l <= 8 && c&m == 0; m >>= 1 {
		l++
	}
	if l > 8 {
		return -1, false, true
	}
	if e.pos+l > len(e.b) {
		return 0, false, false
	}
	v := int64(c &^ m)
	all := v == int64(m-1)
	for i := 1; i < l; i++ {
		x := e.b[e.pos+i]
		v = v<<8 | int64(x)
		all = all && x == 0xff
	}
	e.pos += l
	return v, all, true
}

const (
	idEBML     = 0x1A45DFA3
	idSegment  = 0x18538067
	idInfo     = 0x1549A966
	idTracks   = 0x1654AE6B
	idEntry    = 0xAE
	idCluster  = 0x1F43B675
	idTimecode = 0xE7
	idSimple   = 0xA3
	idGroup    = 0xA0
	idVoid     = 0xEC
	idCRC      = 0xBF
	idCues     = 0x1C53BB6B
	idSeekHead = 0x114D9B74
	idTags     = 0x1254C367
	idPrevSize = 0xAB
	idPosition = 0xA7
)

func beUint(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

// parseWebM reads a WebM file or a prefix of one.
func parseWebM(b []byte) *WebM {
	w := &WebM{Scale: 1000000}
	e := &ebml{b: b}
	bad := func(f string, a ...any) *WebM {
		w.Err = fmt.Sprintf(f, a...)
		w.ErrOff = e.pos
		return w
	}
	if len(b) == 0 {
		return w
	}
	var clusterTC int64
	inSegment, inCluster, sawEBML, sawInfo := false, false, false, false
	segEnd, cluEnd := int64(-1), int64(-1)
	for e.pos < len(b) {
		if inCluster && cluEnd >= 0 && int64(e.pos) >= cluEnd {
			if int64(e.pos) > cluEnd {
				return bad("element overruns its cluster")
			}
			inCluster = false
		}
		if inSegment && segEnd >= 0 && int64(e.pos) >= segEnd {
			return bad("data after the end of the segment")
		}
		start := e.pos
		id, ok := e.id()
		if !ok {
			w.Truncated = true
			return w
		}
		if id == 0 {
			return bad("invalid element id at offset %d", start)
		}
		n, unk, ok := e.size()
		if !ok {
			w.Truncated = true
			return w
		}
		if n < 0 {
			return bad("invalid element size at offset %d", start)
		}
		if !sawEBML {
			if id != idEBML {
				return bad("file does not start with an EBML header (element %x)", id)
			}
			if e.pos+int(n) > len(b) {
				w.Truncated = true
				return w
			}
			sawEBML = true
			e.pos += int(n)
			continue
		}
		if !inSegment {
			if id != idSegment {
				return bad("expected Segment at offset %d, found %x", start, id)
			}
			inSegment = true
			if !unk {
				segEnd = int64(e.pos) + n
			}
			continue
		}
		if id == idEBML || id == idSegment {
			return bad("second header at offset %d", start)
		}
		if id == idCluster {
			if len(w.Tracks) == 0 {
				return bad("cluster before tracks")
			}
			inCluster = true
			cluEnd = -1
			if !unk {
				cluEnd = int64(e.pos) + n
			}
			clusterTC = -1
			w.Clusters++
			continue
		}
		if unk {
			return bad("unknown size for element %x at offset %d", id, start)
		}
		if n > 1<<30 {
			return bad("absurd element size at offset %d", start)
		}
		if e.pos+int(n) > len(b) {
			w.Truncated = true
			switch id {
			case idSimple, idGroup, idTimecode, idInfo, idTracks, idVoid, idCues, idSeekHead, idTags, idCRC, idPrevSize, idPosition:
				return w
			}
			return bad("unknown element %x at offset %d", id, start)
		}
		body := b[e.pos : e.pos+int(n)]
		e.pos += int(n)
		switch id {
		case idInfo:
			sawInfo = true
			w.parseInfo(body)
		case idTracks:
			if err := w.parseTracks(body); err != "" {
				return bad("%s", err)
			}
			w.HeaderOK = sawInfo
		case idTimecode:
			if !inCluster {
				return bad("timecode outside a cluster")
			}
			clusterTC = int64(beUint(body))
		case idSimple:
			if !inCluster || clusterTC < 0 {
				return bad("block outside a cluster or before its timecode, offset %d", start)
			}
			if err := w.block(body, clusterTC, true, e.pos); err != "" {
				return bad("%s at offset %d", err, start)
			}
		case idGroup:
			g := &ebml{b: body}
			key := true
			var blk []byte
			for g.pos < len(body) {
				gid, o1 := g.id()
				gn, _, o2 := g.size()
				if !o1 || !o2 || gid == 0 || gn < 0 || g.pos+int(gn) > len(body) {
					return bad("malformed block group at offset %d", start)
				}
				if gid == 0xA1 {
					blk = body[g.pos : g.pos+int(gn)]
				}
				if gid == 0xFB {
					key = false
				}
				g.pos += int(gn)
			}
			if blk != nil {
				if err := w.block(blk, clusterTC, false, e.pos); err != "" {
					return bad("%s at offset %d", err, start)
				}
				w.Blocks[len(w.Blocks)-1].Key = key
			}
		case idVoid, idCRC, idCues, idSeekHead, idTags, idPrevSize, idPosition:
		default:
			return bad("unknown element %x at offset %d", id, start)
		}
	}
	if inCluster && cluEnd > int64(len(b)) || segEnd > int64(len(b)) {
		w.Truncated = true
	}
	return w
}

func (w *WebM) block(b []byte, tc int64, simple bool, end int) string {
	if len(b) < 4 {
		return "short block"
	}
	if b[0]&0x80 == 0 {
		return "unsupported track number"
	}
	tn := int(b[0] & 0x7f)
	known := false
	for _, t := range w.Tracks {
		known = known || t.Num == tn
	}
	if !known {
		return fmt.Sprintf("block of undeclared track %d", tn)
	}
	rel := int64(int16(binary.BigEndian.Uint16(b[1:])))
	fl := b[3]
	if fl&0x06 != 0 {
		return "lacing"
	}
	w.Blocks = append(w.Blocks, Block{Track: tn, TC: (tc + rel) * int64(w.Scale) / 1000000, Key: simple && fl&0x80 != 0, Data: b[4:], Off: end})
	return ""
}

func (w *WebM) parseInfo(b []byte) {
	e := &ebml{b: b}
	for e.pos < len(b) {
		id, o1 := e.id()
		n, _, o2 := e.size()
		if !o1 || !o2 || id == 0 || n < 0 || e.pos+int(n) > len(b) {
			return
		}
		v := b[e.pos : e.pos+int(n)]
		switch id {
		case 0x2AD7B1:
			w.Scale = beUint(v)
		case 0x4D80:
			w.App = string(v)
		}
		e.pos += int(n)
	}
}

func (w *WebM) parseTracks(b []byte) string {
	e := &ebml{b: b}
	for e.pos < len(b) {
		id, o1 := e.id()
		n, _, o2 := e.size()
		if !o1 || !o2 || id == 0 || n < 0 || e.pos+int(n) > len(b) {
			return "malformed Tracks"
		}
		if id == idEntry {
			t := TrackInfo{}
			x := &ebml{b: b[e.pos : e.pos+int(n)]}
			for x.pos < len(x.b) {
				id, o1 := x.id()
				n, _, o2 := x.size()
				if !o1 || !o2 || id == 0 || n < 0 || x.pos+int(n) > len(x.b) {
					return "malformed TrackEntry"
				}
				v := x.b[x.pos : x.pos+int(n)]
				switch id {
				case 0xD7:
					t.Num = int(beUint(v))
				case 0x83:
					t.Type = int(beUint(v))
				case 0x86:
					t.Codec = string(v)
				case 0xE0, 0xE1:
					y := &ebml{b: v}
					for y.pos < len(v) {
						id, o1 := y.id()
						n, _, o2 := y.size()
						if !o1 || !o2 || id == 0 || n < 0 || y.pos+int(n) > len(v) {
							return "malformed Video/Audio"
						}
						switch id {
						case 0xB0:
							t.W = int(beUint(v[y.pos : y.pos+int(n)]))
						case 0xBA:
							t.H = int(beUint(v[y.pos : y.pos+int(n)]))
						case 0x9F:
							t.Ch = int(beUint(v[y.pos : y.pos+int(n)]))
						}
						y.pos += int(n)
					}
				}
				x.pos += int(n)
			}
			w.Tracks = append(w.Tracks, t)
		}
		e.pos += int(n)
	}
	if len(w.Tracks) == 0 {
		return "no tracks"
	}
	return ""
}

// IVF is a parsed IVF file.
type IVF struct {
	Err    string
	W, H   int
	Count  int
	Den    uint32
	Num    uint32
	Frames []IVFFrame
}

type IVFFrame struct {
	PTS  uint64
	Data []byte
}

func parseIVF(b []byte) *IVF {
	v := &IVF{}
	if len(b) < 32 {
		v.Err = fmt.Sprintf("file of %d bytes has no header", len(b))
		return v
	}
	if string(b[:4]) != "DKIF" || binary.LittleEndian.Uint16(b[6:]) != 32 || string(b[8:12]) != "VP80" {
		v.Err = "bad header"
		return v
	}
	v.W = int(binary.LittleEndian.Uint16(b[12:]))
	v.H = int(binary.LittleEndian.Uint16(b[14:]))
	v.Den = binary.LittleEndian.Uint32(b[16:])
	v.Num = binary.LittleEndian.Uint32(b[20:])
	v.Count = int(binary.LittleEndian.Uint32(b[24:]))
	p := 32
	for p < len(b) {
		if p+12 > len(b) {
			v.Err = "frame header cut short"
			return v
		}
		n := int(binary.LittleEndian.Uint32(b[p:]))
		ts := binary.LittleEndian.Uint64(b[p+4:])
		if n > len(b)-p-12 {
			v.Err = fmt.Sprintf("frame %d of %d bytes is cut short", len(v.Frames), n)
			return v
		}
		v.Frames = append(v.Frames, IVFFrame{ts, b[p+12 : p+12+n]})
		p += 12 + n
	}
	return v
}
