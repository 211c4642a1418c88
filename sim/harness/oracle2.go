package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
)

// ---- NACK and key frame requests (C13) ----

func (a *Analysis) sourcesOf(r *Rec) []*Source {
	if r.pub == nil {
		return nil
	}
	return r.pub.sources()
}

// recvEnd is until when the recorder was receiving this stream.
func (a *Analysis) recvEnd(r *Rec, s *Source) int64 {
	e := r.endAt
	if s.ended > 0 && s.ended < e {
		e = s.ended
	}
	return e
}

func (a *Analysis) checkNack(r *Rec) {
	w := a.w
	if r.lk() {
		return
	}
	for _, s := range a.sourcesOf(r) {
		if s.injected > 0 {
			continue
		}
		st := w.sim.StallNs
		sent := map[uint16]bool{}
		for _, p := range s.pkts {
			sent[p.Seq] = true
		}
		for _, n := range s.nackMsgs {
			var lo, hi int64 = 1 << 62, -1
			for _, p := range s.pkts {
				if p.ReadAt > 0 && p.ReadAt <= n.At {
					if p.SeqX > hi {
						hi = p.SeqX
					}
					if p.SeqX < lo {
						lo = p.SeqX
					}
				}
			}
			dup := map[uint16]bool{}
			for i, q := range n.Seqs {
				if dup[q] {
					w.fail("nack_duplicate", "one NACK of the %s stream (t=%dms) names packet %d twice", s.kind(), n.At/ms, q)
				}
				dup[q] = true
				p := n.Pkts[i] // the last one sent by then
				if p != nil && hi-p.SeqX < 30000 {
					if p.ReadAt > 0 && p.ReadAt < n.At-st-5*ms {
						w.fail("nack_received", "%s packet %d was received at t=%dms but asked for again at t=%dms", s.kind(), q, p.ReadAt/ms, n.At/ms)
					}
					if p.SeqX > hi {
						w.fail("nack_future", "%s packet %d, which is ahead of everything received, was asked for at t=%dms", s.kind(), q, n.At/ms)
					}
					w.count("checked.nack")
					continue
				}
				// not sent: it has to be in a hole between received packets
				d := int64(int16(q - uint16(hi)))
				if d >= 0 || hi+d < lo-1 {
					w.fail("nack_bogus", "%s packet %d was asked for at t=%dms; received were only packets %d to %d", s.kind(), q, n.At/ms, uint16(lo), uint16(hi))
				}
			}
		}
		end := a.recvEnd(r, s) - st - 400*ms
		first := -1
		for i, p := range s.pkts {
			if p.ReadAt > 0 && (first < 0 || p.ReadAt < s.pkts[first].ReadAt) {
				first = i
			}
		}
		if first < 0 {
			continue
		}
		big := false
		for i := 1; i < len(s.pkts); i++ {
			if s.pkts[i].SeqX-s.pkts[i-1].SeqX > 400 {
				big = true
			}
		}
		run := 0
		for i := first; i < len(s.pkts); i++ {
			if s.pkts[i].FirstAt == 0 {
				run++
				if run > 400 {
					big = true
				}
			} else {
				run = 0
			}
		}
		for i := first + 1; i < len(s.pkts); i++ {
			p := s.pkts[i]
			if len(p.NackAt) > 15 {
				w.fail("nack_unbounded", "%s packet %d was asked for %d times", s.kind(), p.Seq, len(p.NackAt))
			}
			if big {
				continue
			}
			// when were 12 later ones received?
			k := 0
			var t12 int64
			for j := i + 1; j < len(s.pkts) && j < i+600 && k < 12; j++ {
				if q := s.pkts[j]; q.ReadAt > 0 {
					k++
					if q.ReadAt > t12 {
						t12 = q.ReadAt
					}
				}
			}
			if k < 12 || t12+150*ms+st > end {
				continue
			}
			if p.ReadAt > 0 && p.ReadAt < t12+150*ms+st {
				continue
			}
			w.count("checked.missing")
			if len(p.NackAt) == 0 || p.NackAt[0] > t12+150*ms+st {
				w.fail("not_nacked", "%s packet %d is missing and 12 later packets were received by t=%dms, but it was not asked for by %dms", s.kind(), p.Seq, t12/ms, (t12+150*ms+st)/ms)
			} else if p.ReadAt == 0 && t12+1500*ms+st < end && len(p.NackAt) < 5 {
				w.fail("nacked_too_little", "%s packet %d is missing, but was asked for only %d times", s.kind(), p.Seq, len(p.NackAt))
			}
		}
	}
}

func (a *Analysis) checkPLI(r *Rec) {
	w := a.w
	if r.pub == nil || r.pub.video == nil {
		return
	}
	s := r.pub.video
	if s.injected > 0 {
		return
	}
	st := w.sim.StallNs
	end := a.recvEnd(r, s) - st
	var got []int64
	for _, p := range s.pkts {
		if p.ReadAt > 0 {
			got = append(got, p.ReadAt)
		}
	}
	if len(got) == 0 {
		return
	}
	// bounded
	for i := range s.plis {
		n := 0
		for j := i; j < len(s.plis) && s.plis[j] < s.plis[i]+1000*ms; j++ {
			n++
		}
		if n > 5 && st < 500*ms {
			w.fail("pli_flood", "%d key frame requests within a second (from t=%dms)", n, s.plis[i]/ms)
			break
		}
	}
	// regularly, while video is received
	start := got[0]
	period := 3000*ms + 500*ms + st
	lastRecv := got[0]
	lastPLI := start
	pi := 0
	for _, t := range got {
		if t > end {
			break
		}
		if t-lastRecv > 500*ms {
			// the stream paused: count anew
			lastPLI = t
		}
		lastRecv = t
		for pi < len(s.plis) && s.plis[pi] <= t {
			if s.plis[pi] > lastPLI {
				lastPLI = s.plis[pi]
			}
			pi++
		}
		if t-lastPLI > period {
			w.fail("pli_missing", "video was received from t=%dms to %dms without a key frame request", lastPLI/ms, t/ms)
			break
		}
		w.count("checked.pli")
	}
	if r.lk() || s.hasBad() || a.diskHit(r) {
		return
	}
	// promptly, while waiting for one
	inf := a.expect(s)
	rec := a.recordedFrames(r)
	var since int64
	seen := false
	for i := range s.frames {
		if rec[s.frames[i].Idx] {
			// it is not waiting
			since = 0
			continue
		}
		if s.frames[i].Key && inf[i].whole && inf[i].must {
			since = 0
			seen = true
			continue
		}
		if !inf[i].waits || inf[i].at == 0 || inf[i].at > end {
			if inf[i].must {
				since = 0
			}
			continue
		}
		if since == 0 {
			since = inf[i].at
		}
		if inf[i].at-since > 1500*ms+st {
			ok := false
			for _, t := range s.plis {
				if t >= since-1300*ms-a.jbt-st && t <= inf[i].at {
					ok = true
				}
			}
			w.count("checked.pli_prompt")
			if !ok {
				w.fail("pli_late", "the recorder waits for a key frame from t=%dms on, but had not asked for one by t=%dms (first key frame seen: %v)", since/ms, inf[i].at/ms, seen)
			}
			// and again
			since = inf[i].at
		}
	}
}

// recordedFrames are the video frames of the publisher that are in the file.
func (a *Analysis) recordedFrames(r *Rec) map[int]bool {
	got := map[int]bool{}
	if v := a.webm(r); v != nil {
		m := a.idx(r.pub)
		for _, b := range v.of(1) {
			if f := m[string(b.Data)]; f != nil {
				got[f.Idx] = true
			}
		}
	}
	return got
}

// checkResume: C10, with a publisher that answers key frame requests.
func (a *Analysis) checkResume(r *Rec) {
	w := a.w
	if r.pub == nil || r.pub.video == nil || a.diskHit(r) || r.stop == nil || r.file == "/dev/null" {
		return
	}
	s := r.pub.video
	if s.injected > 0 || s.spec.PLIMs < 0 {
		return
	}
	inf := a.expect(s)
	got := a.recordedFrames(r)
	bound := (3000+1200+int64(s.spec.PLIMs)+int64(r.pub.spec.RTTMs)+2*int64(s.spec.LagMs)+int64(s.spec.JitterMs)+6*int64(s.spec.FrameMs))*ms + a.jbt + w.sim.StallNs
	if r.lk() {
		bound += 2500 * ms
	}
	cut := a.cutoff(r)
	var since, last int64
	for i, f := range s.frames {
		if got[f.Idx] {
			since = 0
			continue
		}
		if !inf[i].whole || inf[i].at == 0 || inf[i].at > cut {
			since = 0
			continue
		}
		// a longer pause of the stream starts anew
		if since == 0 || inf[i].at-last > 1000*ms {
			since = inf[i].at
		}
		last = inf[i].at
		w.count("checked.resume")
		if inf[i].at-since > bound {
			w.fail("no_resume", "video arrives completely from t=%dms to %dms (frame %d) and the publisher answers key frame requests, but nothing is recorded", since/ms, inf[i].at/ms, f.Idx)
			return
		}
	}
}

// ---- latency (C14) ----

// checkLatency: with a stream of single-packet key frames, everything that arrives is written soon.
func (a *Analysis) checkLatency(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || r.pub.video == nil || r.pub.spec.Audio != nil || v.Err != "" || a.diskHit(r) {
		return
	}
	s := r.pub.video
	if s.injected > 0 || s.hasBad() {
		return
	}
	m := a.idx(r.pub)
	recs := w.diskW[r.file]
	written := map[int]int64{}
	k := 0
	for _, b := range v.of(1) {
		f := m[string(b.Data)]
		if f == nil {
			continue
		}
		for k < len(recs) && recs[k].Len < b.Off {
			k++
		}
		if k < len(recs) {
			written[f.Idx] = recs[k].At
		}
	}
	inf := a.packets(s)
	bound := a.jbt + 110*ms + w.sim.StallNs
	cut := a.cutoff(r)
	for i, f := range s.frames {
		if !f.Key || f.P0 != f.P1 || !inf[f.P0].ok {
			continue
		}
		p := s.pkts[f.P0]
		if p.FirstAt+bound > cut {
			continue
		}
		if i > 0 && !s.frames[i-1].Key {
			continue
		}
		t, ok := written[f.Idx]
		w.count("checked.latency")
		if !ok {
			w.fail("held_or_lost", "frame %d arrived at t=%dms (alone in packet %d) but was not written (recording ended %dms)", f.Idx, p.FirstAt/ms, p.Seq, r.endAt/ms)
			return
		}
		if t > p.FirstAt+bound {
			w.fail("held_too_long", "frame %d arrived at t=%dms but was written only at %dms; the jitter buffer may hold packets back for %dms", f.Idx, p.FirstAt/ms, t/ms, a.jbt/ms)
			return
		}
	}
}

// ---- flow events (C15) ----

func (a *Analysis) checkFlow(r *Rec) {
	w := a.w
	if w.inOutage(r.okAt-5000*ms, r.endAt+3000*ms) {
		return
	}
	st := w.sim.StallNs
	n := 0
	nt := 0
	if r.pub != nil {
		for _, s := range []*Stream{r.pub.spec.Video, r.pub.spec.Audio} {
			if s != nil && !(r.lk() && s.NotAsked) {
				nt++
			}
		}
	}
	type step struct {
		at int64
		n  int
	}
	steps := []step{{0, 0}}
	for _, m := range r.flows {
		switch m.Status {
		case "flowing":
			n++
		case "not_flowing":
			n--
		default:
			w.fail("flow_status", "flow event with status %q", m.Status)
		}
		w.count("checked.flow")
		if n < 0 {
			w.fail("flow_not_alternating", "recording %q: not_flowing at t=%dms without flowing before", r.sid, m.At/ms)
			return
		}
		if n > nt && r.pub != nil {
			w.fail("flow_not_alternating", "recording %q: flowing was reported again at t=%dms without not_flowing in between (%d tracks)", r.sid, m.At/ms, nt)
			return
		}
		steps = append(steps, step{m.At, n})
	}
	if r.pub == nil || r.resp == nil {
		return
	}
	at := func(t int64) int {
		v := 0
		for _, s := range steps {
			if s.at <= t {
				v = s.n
			}
		}
		return v
	}
	srcs := a.sourcesOf(r)
	for _, s := range srcs {
		if s.injected > 0 {
			return
		}
	}
	// delivery times per track, in hand-over order
	recv := make([][]int64, len(srcs))
	lateX := int64(0)
	for i, s := range srcs {
		inf := a.packets(s)
		for k, p := range s.pkts {
			if p.FirstAt > 0 {
				recv[i] = append(recv[i], p.FirstAt)
				if inf[k].ok && inf[k].at > p.FirstAt && inf[k].at-p.FirstAt > lateX {
					lateX = inf[k].at - p.FirstAt
				}
			}
		}
		sortInts(recv[i])
	}
	// steady: deliveries in [x,y] with no gap above g
	steady := func(ts []int64, x, y, g int64) bool {
		prev := x
		for _, t := range ts {
			if t < x {
				continue
			}
			if t > y {
				break
			}
			if t-prev > g {
				return false
			}
			prev = t
		}
		return y-prev <= g
	}
	within := func(ts []int64, x, y int64) bool {
		for _, t := range ts {
			if t >= x && t <= y {
				return true
			}
		}
		return false
	}
	ended := func(s *Source, t int64) bool {
		return s.ended != 0 && s.ended <= t || r.pub.kickAt != 0 && r.pub.kickAt <= t
	}
	hold := a.jbt + 100*ms
	if r.lk() {
		hold = 400 * ms
	}
	gap := int64(250) * ms
	if hold > 700*ms {
		return
	}
	end := r.endAt - st
	for _, m := range r.flows {
		if m.At > end {
			break
		}
		if m.Status == "flowing" {
			// something must have been received shortly before
			ok := false
			for i := range srcs {
				ok = ok || within(recv[i], m.At-1300*ms-hold-st, m.At)
			}
			if !ok {
				w.fail("flowing_untrue", "recording %q: flowing at t=%dms although nothing was received for 1.3 s", r.sid, m.At/ms)
			}
			continue
		}
		all := len(srcs) == nt
		for i, s := range srcs {
			// held back packets are not flowing either, nor is an ended track
			all = all && !ended(s, m.At) && steady(recv[i], m.At-1600*ms-hold-st, m.At, gap) && !a.lossy(s, m.At-2500*ms-hold-st, m.At)
		}
		if all {
			w.fail("not_flowing_untrue", "recording %q: not_flowing at t=%dms although media was received steadily", r.sid, m.At/ms)
		}
	}
	// bounded delay
	for t := r.okAt + 3500*ms; t < end-100*ms; t += 500 * ms {
		all, none := len(srcs) == nt && nt > 0, true
		for i, s := range srcs {
			all = all && !ended(s, t) && steady(recv[i], t-1700*ms-hold-st, t, gap) && !a.lossy(s, t-2700*ms-hold-st, t)
			none = none && !within(recv[i], t-2500*ms-hold-st, t)
		}
		if all {
			w.count("checked.flow_on")
			if at(t) != nt {
				w.fail("flowing_late", "recording %q: media of all %d tracks was received steadily for %dms up to t=%dms, but %d are reported flowing", r.sid, nt, (1700*ms+hold+st)/ms, t/ms, at(t))
				return
			}
		}
		if none && len(srcs) > 0 {
			w.count("checked.flow_off")
			if at(t) != 0 {
				w.fail("not_flowing_late", "recording %q: nothing was received for %dms up to t=%dms, but %d tracks are reported flowing", r.sid, (2500*ms+hold+st)/ms, t/ms, at(t))
				return
			}
		}
	}
}

// lossy: packets of this time range are lost or late.
func (a *Analysis) lossy(s *Source, x, y int64) bool {
	inf := a.packets(s)
	for i, p := range s.pkts {
		if p.SentAt < x-3000*ms || p.SentAt > y {
			continue
		}
		if !inf[i].ok || inf[i].gap && i > 0 {
			return true
		}
	}
	return false
}

func sortInts(t []int64) {
	for i := 1; i < len(t); i++ {
		for j := i; j > 0 && t[j] < t[j-1]; j-- {
			t[j], t[j-1] = t[j-1], t[j]
		}
	}
}

// ---- crashes (C16) ----

func (a *Analysis) checkDurable() {
	w := a.w
	for _, f := range w.sim.FS.List() {
		ino := w.sim.FS.Peek(f)
		if strings.HasSuffix(f, ".webm") && len(ino.Deletes) > 0 {
			w.fail("media_destroyed", "recorded media was overwritten: %s", ino.Deletes[0])
		}
	}
	for _, op := range w.sim.FS.Ops {
		if op.Op == "remove" && strings.HasSuffix(op.Path, ".webm") && op.N > 0 {
			w.fail("media_destroyed", "%s with %d bytes was removed at t=%dms", op.Path, op.N, op.At/ms)
		}
		if op.Op == "rename" && strings.HasSuffix(op.Path, ".webm") && op.N > 0 {
			w.fail("media_destroyed", "%s was replaced at t=%dms", op.Path, op.At/ms)
		}
	}
	for n, snap := range w.killSnap {
		for f, data := range snap {
			if !strings.HasSuffix(f, ".webm") {
				continue
			}
			ino := w.sim.FS.Peek(f)
			if ino == nil {
				w.fail("media_destroyed", "%s was there when the recorder was killed, and is gone now", f)
				continue
			}
			mine := false
			var rec *Rec
			for _, r := range a.recs {
				if r.proc == n && r.file == f {
					mine = true
					rec = r
				}
			}
			if !bytes.HasPrefix(ino.Data, data) || len(ino.Data) != len(data) {
				w.fail("media_destroyed", "%s of %d bytes, there when the recorder was killed, was changed to %d bytes later", f, len(data), len(ino.Data))
				continue
			}
			if rec != nil && a.diskHit(rec) {
				continue
			}
			v := parseWebM(data)
			if v.Err != "" {
				w.fail("not_a_prefix", "%s at the moment of the kill (%d bytes): %s", f, len(data), v.Err)
				continue
			}
			w.count("checked.killed_file")
			if mine && rec.pub != nil && rec.stop == nil {
				a.checkKilled(rec, v)
			}
		}
		for _, r := range a.recs {
			if r.proc == n && r.stop == nil && r.file != "" && r.file != "/dev/null" && snap[r.file] == nil && r.pub != nil && !a.diskHit(r) {
				a.checkKilled(r, &WebM{})
			}
		}
	}
}

// checkKilled: the file of a killed recorder has what was accepted, but for a bounded recent part.
func (a *Analysis) checkKilled(r *Rec, v *WebM) {
	w := a.w
	vq := a.cfg.VQ
	if vq == 0 {
		vq = 256
	}
	lag := vq + 16 + 6
	single := r.pub.spec.Video == nil || r.pub.spec.Audio == nil
	kill := r.endAt
	if s := r.pub.video; s != nil && s.injected == 0 && !s.hasBad() {
		inf := a.expect(s)
		got := map[int]bool{}
		m := a.idx(r.pub)
		for _, b := range v.of(1) {
			if f := m[string(b.Data)]; f != nil {
				got[f.Idx] = true
			}
		}
		var must []int
		for i := range s.frames {
			if inf[i].must && inf[i].at < kill-300*ms-w.sim.StallNs {
				must = append(must, i)
			}
		}
		l := lag
		if single {
			l = 3
		} else if au := r.pub.audio; au != nil && a.calm(s, kill) && a.calm(au, kill) && !a.cfg.Builtin && !r.lk() {
			// both tracks are received: they wait for one another only briefly
			l = 0
			for _, i := range must {
				if inf[i].at > kill-1500*ms-w.sim.StallNs-int64(s.spec.LagMs+au.spec.LagMs)*ms {
					l++
				}
			}
			l += 4
			if l > lag {
				l = lag
			}
		}
		if r.lk() {
			l += 20
		}
		if len(must) > l {
			for _, i := range must[:len(must)-l] {
				w.count("checked.killed_frame")
				if !got[i] {
					w.fail("lost_at_kill", "%s: frame %d was accepted by t=%dms, %d frames before the recorder was killed at %dms, but is not in the file", r.file, i, inf[i].at/ms, len(must), kill/ms)
					return
				}
			}
		}
	}
	if s := r.pub.audio; s != nil && single && s.injected == 0 && !s.hasBad() && !r.lk() {
		inf := a.packets(s)
		got := map[int]bool{}
		m := a.aidx(r.pub)
		for _, b := range v.of(2) {
			if f := m[string(b.Data)]; f != nil {
				got[f.Idx] = true
			}
		}
		aq := a.cfg.AQ
		if aq == 0 {
			aq = 32
		}
		var must []int
		clean := true
		for i, f := range s.frames {
			if !inf[f.P0].ok || i > 0 && inf[f.P0].gap {
				clean = false
			}
			if inf[f.P0].ok && inf[f.P0].at < kill-300*ms-w.sim.StallNs {
				must = append(must, i)
			}
		}
		l := 3
		if !clean {
			l = 2*aq + 8
		}
		if len(must) > l {
			for _, i := range must[:len(must)-l] {
				w.count("checked.killed_frame")
				if !got[i] {
					w.fail("lost_at_kill", "%s: audio packet %d was accepted by t=%dms, but is not in the file when the recorder is killed at %dms", r.file, i, inf[s.frames[i].P0].at/ms, kill/ms)
					return
				}
			}
		}
	}
}

// calm: a stream without loss, received until t.
func (a *Analysis) calm(s *Source, t int64) bool {
	inf := a.packets(s)
	last := int64(0)
	for i, p := range s.pkts {
		if p.SentAt < t-int64(s.spec.LagMs+s.spec.JitterMs+100)*ms && (!inf[i].ok || i > 0 && inf[i].gap) {
			return false
		}
		if p.FirstAt > last {
			last = p.FirstAt
		}
	}
	return last > t-400*ms && len(s.spec.Pauses) == 0 && len(s.spec.TSJumps) == 0 && s.spec.StartMs < 300 && s.spec.FrameMs <= 100
}

// ---- files (C07) ----

func (a *Analysis) checkConfined() {
	w := a.w
	cfg := a.cfg
	dirs := []string{cfg.dir()}
	fm, dm := modeOf(cfg.FileMode, 0600), modeOf(cfg.DirMode, 0700)
	hup := len(w.hups) > 0
	for _, o := range a.sc.Ops {
		if o.K == "hup" && o.Cfg != nil {
			dirs = append(dirs, o.Cfg.dir())
		}
	}
	for _, op := range w.sim.FS.Ops {
		if op.Err != "" {
			continue
		}
		switch op.Op {
		case "create", "mkdir", "write", "truncate", "remove", "rename":
		case "open":
			if op.Flag&(os.O_WRONLY|os.O_RDWR) == 0 {
				continue
			}
			if op.Path == "/dev/null" {
				if !cfg.DevNull && !hup {
					w.fail("null_device", "the recorder writes to the null device at t=%dms", op.At/ms)
				}
				continue
			}
			w.fail("existing_file_opened", "the existing file %s was opened for writing at t=%dms", op.Path, op.At/ms)
			continue
		default:
			continue
		}
		if op.Path == "/dev/null" {
			continue
		}
		in := false
		for _, d := range dirs {
			in = in || strings.HasPrefix(op.Path, d+"/")
		}
		if !in {
			w.fail("outside_directory", "%s of %s outside of the recording directory at t=%dms", op.Op, op.Path, op.At/ms)
			continue
		}
		if cfg.DevNull && !hup {
			w.fail("not_null_device", "%s of %s although recordings go to the null device", op.Op, op.Path)
		}
		if hup {
			continue
		}
		if op.Op == "create" && op.Mode.Perm() != os.FileMode(fm) {
			w.fail("file_mode", "%s was created with mode %o, configured is %o", op.Path, op.Mode.Perm(), fm)
		}
		if op.Op == "mkdir" && op.Mode.Perm() != os.FileMode(dm) {
			w.fail("dir_mode", "%s was created with mode %o, configured is %o", op.Path, op.Mode.Perm(), dm)
		}
		w.count("checked.fsop")
	}
	for _, f := range keysOf(w.puts) {
		ino := w.sim.FS.Peek(f)
		if ino == nil || !ino.ByWorld || string(ino.Data) != w.puts[f] || ino.Writes > 0 {
			w.fail("existing_file_modified", "%s, which was not made by the recorder, was modified", f)
		}
	}
	if ino := w.sim.FS.Peek("/var/lib/outside/keep.webm"); ino == nil || string(ino.Data) != "precious" {
		w.fail("existing_file_modified", "/var/lib/outside/keep.webm was modified")
	}
	// one file, one recording
	used := map[string]*Rec{}
	for _, r := range a.recs {
		f := path.Clean(r.file)
		if r.file == "" || f == "/dev/null" {
			continue
		}
		if o := used[f]; o != nil {
			if ino := w.sim.FS.Peek(f); ino != nil && !ino.ByWorld && ino.Created < r.req0() {
				w.fail("file_shared", "recording %q (started t=%dms) was given %s, which recording %q (t=%dms) had written", r.sid, r.okAt/ms, f, o.sid, o.okAt/ms)
			} else if o.proc == r.proc && (o.stop == nil || o.stop.At > r.okAt) && (len(o.causes) == 0 || o.causes[0].At > r.okAt) {
				w.fail("file_shared", "recording %q (started t=%dms) was given %s while recording %q uses it", r.sid, r.okAt/ms, f, o.sid)
			}
		}
		used[f] = r
		// a recording that is told it has a file that belongs to someone else
		if c, ok := w.puts[f]; ok {
			_ = c
			if at := w.putAt[f]; at < r.req0()-w.sim.StallNs {
				w.fail("existing_file_accepted", "recording %q was given %s, which existed before", r.sid, f)
			}
		}
	}
	for _, f := range w.sim.FS.List() {
		ino := w.sim.FS.Peek(f)
		if !ino.ByWorld && len(ino.Deletes) > 0 && strings.HasSuffix(f, ".webm") {
			w.fail("media_destroyed", "recorded media was overwritten: %s", ino.Deletes[0])
		}
	}
}

func modeOf(s string, d uint64) uint64 {
	if s == "" {
		return d
	}
	v, err := strconv.ParseUint(s, 0, 32)
	if err != nil {
		return d
	}
	return v
}

// ---- broker outages (C18) ----

func (a *Analysis) checkOutages() {
	w := a.w
	if len(w.outages) == 0 {
		return
	}
	for i, o := range w.outages {
		// the time until the next outage
		next := w.endNs
		for _, p := range w.outages[i+1:] {
			if p.From < next {
				next = p.From
			}
		}
		worst := int64(8000) * ms
		for _, p := range w.outages[:i+1] {
			if p.Kind == "vanish" || p.Kind == "hang" || p.Kind == "stall" {
				worst = 165000 * ms
			}
		}
		from := o.To
		for _, p := range w.outages[:i+1] {
			if p.To > from {
				from = p.To
			}
		}
		from += worst + a.slack
		for _, r := range w.reqs {
			if r.At < from || r.At > next || r.Proc != len(w.procs)-1 || w.proc().P.Dead && r.At >= w.proc().P.ExitAt {
				continue
			}
			w.count("checked.after_outage")
			if r.N == 0 {
				w.fail("not_resubscribed", "the broker is reachable again since t=%dms (%s), but at t=%dms the recorder is not subscribed", o.To/ms, o.Kind, r.At/ms)
				return
			}
			if r.N > 1 {
				w.fail("subscribed_twice", "at t=%dms the recorder is subscribed %d times to its control channel", r.At/ms, r.N)
			}
			if r.HTTP == nil && r.At+2500*ms+a.slack < a.procEnd(r.Proc) && r.At+2500*ms+a.slack < next {
				if r.Op.K == "start" && len(r.Resp) == 0 {
					w.fail("not_served", "start request for %q at t=%dms, after the broker was back, was not answered", r.Op.Sid, r.At/ms)
				}
			}
		}
	}
}

// ---- HTTP (C21) ----

func (a *Analysis) checkHTTP() {
	w := a.w
	for _, h := range w.https {
		if h.Op.K != "http" {
			if !h.Res.Done && h.At+3000*ms+a.slack < a.procEnd(h.Proc) {
				w.fail("http_stuck", "GET %s at t=%dms was not answered", h.Op.S, h.At/ms)
			}
			continue
		}
		end := a.procEnd(h.Proc)
		if h.Res.Gone {
			continue
		}
		// a request is over within the time the recorder may take to answer, and some
		bound := 45000*ms + a.slack
		if !h.Res.Done {
			if h.At+bound < end && !w.inOutage(h.At, h.At+bound) {
				w.fail("http_stuck", "POST /sdp at t=%dms (op %d) was not answered until t=%dms", h.At/ms, h.Idx, end/ms)
			}
			continue
		}
		w.count("checked.http")
		took := h.Res.End - h.At
		if h.Op.S != "" || h.Op.SDP == "none" {
			// no offer was posted
			what := h.Op.S + " /sdp"
			if h.Op.S == "" {
				what = "POST /sdp without an offer"
			}
			if h.Req != nil {
				w.fail("http_started", "%s at t=%dms started a recording", what, h.At/ms)
			}
			if h.Res.Code < 400 && h.Res.Code >= 0 {
				w.fail("http_bad_accepted", "%s at t=%dms got status %d", what, h.At/ms, h.Res.Code)
			}
			if took > 1000*ms+a.slack {
				w.fail("http_slow", "%s at t=%dms was refused only after %dms", what, h.At/ms, took/ms)
			}
			continue
		}
		if took > bound && !w.inOutage(h.At, h.Res.End) {
			w.fail("http_slow", "POST /sdp at t=%dms took %dms", h.At/ms, took/ms)
		}
		if h.Res.Code == 200 {
			sdp := decodeAnswer(h.Res.Body)
			p := w.pubOfAnswer(h.Res.Body)
			if sdp == "" || p == nil {
				w.fail("http_no_answer", "POST /sdp at t=%dms: status 200, but the body is no SDP answer: %s", h.At/ms, short(h.Res.Body, 80))
			} else if p != h.Run {
				w.fail("http_wrong_answer", "POST /sdp at t=%dms (publisher %d) got the answer to the offer of publisher %d", h.At/ms, h.Run.idx, p.idx)
			} else if p.pc != nil && p.pc.Answer != "" && sdp != p.pc.Answer {
				w.fail("http_wrong_answer", "POST /sdp at t=%dms (publisher %d) got another answer than the local description", h.At/ms, h.Run.idx)
			}
			// whatever becomes of the other requests
			if lim := int64(h.Run.spec.GatherMs+5000)*ms + a.slack; took > lim && h.Run.fate == "" && !w.inOutage(h.At-5000*ms-a.slack, h.Res.End) && len(w.sim.FS.Faults) == 0 {
				w.fail("http_slow", "POST /sdp at t=%dms took %dms, its offer %dms", h.At/ms, took/ms, h.Run.spec.GatherMs)
			}
			if !sdpValid(h.Op.SDP) {
				w.fail("http_bad_accepted", "POST /sdp with an unusable offer (%s) got status 200", h.Op.SDP)
			}
		} else if sdpValid(h.Op.SDP) && h.Run.spec.PCErr == "" && h.Run.fate == "" && !w.inOutage(h.At-5000*ms-a.slack, h.Res.End) && len(w.hups) == 0 && !a.anyPCErr() && len(w.sim.FS.Faults) == 0 {
			slow := 0
			for _, p := range w.pubs {
				slow += p.spec.GatherMs
			}
			if slow < 20000 && end > h.Res.End {
				w.fail("http_refused", "POST /sdp at t=%dms with a valid offer got status %d: %s", h.At/ms, h.Res.Code, short(h.Res.Body, 80))
			}
		}
		// nobody waits for the answer to another one's request
		if !sdpValid(h.Op.SDP) && took > 35000*ms+a.slack {
			w.fail("http_slow", "POST /sdp at t=%dms failed only after %dms", h.At/ms, took/ms)
		}
	}
}

func (a *Analysis) anyPCErr() bool {
	for _, p := range a.w.pubs {
		if p.spec.PCErr != "" {
			return true
		}
	}
	return false
}

// ---- LiveKit (C22) ----

func (a *Analysis) checkLK() {
	w := a.w
	for _, r := range a.recs {
		if !r.lk() || r.pub == nil {
			continue
		}
		p := r.pub
		want := map[string]bool{}
		for _, s := range []*Stream{p.spec.Video, p.spec.Audio} {
			if s != nil && !s.NotAsked {
				want[s.TrackID] = true
			}
		}
		for sid := range want {
			if p.subs[sid] == 0 {
				w.fail("track_not_subscribed", "recording %q did not subscribe to track %s it was asked to record", r.sid, sid)
			}
		}
		for _, sid := range keysOf(p.subs) {
			if !want[sid] {
				w.fail("track_subscribed", "recording %q subscribed to track %s nobody asked for", r.sid, sid)
			}
		}
		w.count("checked.lk")
		if r.stop != nil && r.stop.At+2000*ms+a.slack < a.procEnd(r.proc) && p.room != nil && !p.room.Gone && !p.room.Left {
			w.fail("room_not_left", "recording %q was reported stopped at t=%dms but its room was not left", r.sid, r.stop.At/ms)
		}
	}
	for _, q := range w.reqs {
		if q.Op.K == "start" && q.Op.Adapter == "livekit" && len(q.Resp) > 0 && q.Resp[0].Status == "failed" && q.Run.room != nil &&
			q.Run.room.Joined && !q.Run.room.Left && !q.Run.room.Gone && q.Resp[0].At+2000*ms+a.slack < a.procEnd(q.Proc) {
			w.fail("room_not_left", "the start request for %q failed but its room was not left", q.Op.Sid)
		}
	}
}

// ---- IVF (C23) ----

func (a *Analysis) checkIVF(r *Rec) {
	w := a.w
	if !a.cfg.IVF || r.file == "" || r.file == "/dev/null" || r.stop == nil || r.pub == nil || a.ivfHit(r) || len(w.hups) > 0 {
		return
	}
	v := a.webm(r)
	if v == nil || v.Err != "" || v.track(1) < 0 {
		return
	}
	f := ivfOf(r.file)
	ino := w.sim.FS.Peek(f)
	if ino == nil || ino.ByWorld || ino.Created < r.req0() {
		if _, there := w.puts[f]; there {
			return
		}
		w.fail("no_ivf", "%s has no IVF copy", r.file)
		return
	}
	c := parseIVF(ino.Data)
	if c.Err != "" {
		w.fail("bad_ivf", "%s: %s", f, c.Err)
		return
	}
	w.count("checked.ivf")
	vb := v.of(1)
	if c.Count != len(c.Frames) {
		w.fail("ivf_count", "%s has %d frames but its header says %d", f, len(c.Frames), c.Count)
	}
	if len(c.Frames) != len(vb) {
		w.fail("ivf_frames", "%s has %d frames, the recording has %d", f, len(c.Frames), len(vb))
		return
	}
	m := a.idx(r.pub)
	var lastW, lastH int
	if c.Den != 90000 || c.Num != 1 {
		w.fail("ivf_timebase", "%s has time base %d/%d", f, c.Num, c.Den)
	}
	for i, x := range c.Frames {
		if !bytes.Equal(x.Data, vb[i].Data) {
			w.fail("ivf_frames", "%s: frame %d differs from the recording's", f, i)
			return
		}
		fr := m[string(x.Data)]
		if fr == nil {
			continue
		}
		w.count("checked.ivf_frame")
		if uint32(x.PTS) != fr.TS || x.PTS>>32 != 0 && x.PTS-c.Frames[0].PTS > 1<<40 {
			w.fail("ivf_time", "%s: frame %d has timestamp %d, its RTP timestamp is %d", f, i, x.PTS, fr.TS)
			return
		}
		if fr.Key {
			lastW, lastH = fr.W, fr.H
		}
	}
	if len(c.Frames) > 0 && lastW > 0 && (c.W != lastW || c.H != lastH) {
		w.fail("ivf_size", "%s: picture size %dx%d, the video is %dx%d", f, c.W, c.H, lastW, lastH)
	}
}

// checkIVFPart: after a failure the copy still holds only frames of the recording (C06).
func (a *Analysis) checkIVFPart(r *Rec) {
	w := a.w
	if !a.cfg.IVF || r.file == "" || r.file == "/dev/null" || r.pub == nil || !a.ivfHit(r) || len(w.hups) > 0 {
		return
	}
	for _, f := range w.sim.FS.Faults {
		if f.Hits > 0 && (f.Op == "seek" || f.Op == "any" || f.Op == "") {
			return
		}
	}
	ino := w.sim.FS.Peek(ivfOf(r.file))
	if ino == nil || ino.ByWorld || ino.Created < r.req0() || r.pub.video == nil {
		return
	}
	b := ino.Data
	m := a.idx(r.pub)
	last := -1
	for n, p := 0, 32; p+12 <= len(b); n++ {
		sz := int(binary.LittleEndian.Uint32(b[p:]))
		if sz > len(b)-p-12 {
			break
		}
		f := m[string(b[p+12:p+12+sz])]
		w.count("checked.ivf_part")
		if f == nil && !r.pub.video.hasBad() || f != nil && f.Idx <= last {
			w.fail("torn_ivf", "%s: what follows frame %d is no later frame of the video (%d bytes at offset %d of %d)", ivfOf(r.file), last, sz, p, len(b))
			return
		}
		if f != nil {
			last = f.Idx
		}
		p += 12 + sz
	}
}

// checkMade: a start whose directory can't be made is not accepted (C06).
func (a *Analysis) checkMade(r *Rec) {
	w := a.w
	if r.file == "" || r.file == "/dev/null" {
		return
	}
	for _, o := range w.sim.FS.Ops {
		if o.Op == "mkdir" && o.Err != "" && o.At >= r.req0() && o.At <= r.okAt && w.sim.FS.Peek(path.Dir(r.file)) == nil {
			w.fail("accepted_without_directory", "the start of %q was accepted though the directory of %s could not be created", r.sid, r.file)
			return
		}
	}
}

// checkReopen: a file that can't be opened at first is tried again while there
// is media for it (C06).
func (a *Analysis) checkReopen(r *Rec) {
	w := a.w
	if r.file == "" || r.file == "/dev/null" || r.stop == nil || r.pub == nil || a.cfg.IVF || len(w.hups) > 0 || r.pub.video.hostile() || r.pub.audio.hostile() {
		return
	}
	if _, there := w.puts[r.file]; there {
		return
	}
	last := int64(0)
	for _, f := range w.sim.FS.Faults {
		if f.Hits == 0 {
			continue
		}
		if f.Op != "open" || f.Err == "SLOW" || !strings.Contains(r.file, f.Path) {
			return
		}
		last = max(last, f.Last)
	}
	if last == 0 {
		return
	}
	from, cut := last+1000*ms+w.sim.StallNs, a.cutoff(r)
	v := a.webm(r)
	if s := r.pub.video; s != nil {
		inf := a.expect(s)
		for i, f := range s.frames {
			if !f.Key || !inf[i].must || s.pkts[f.P0].FirstAt < from || inf[i].at > cut {
				continue
			}
			w.count("checked.reopen")
			if v != nil {
				for _, b := range v.of(1) {
					if bytes.Equal(b.Data, f.Data) {
						return
					}
				}
			}
			w.fail("not_reopened", "%s could not be opened at t=%dms, but the key frame %d that arrived from %dms to %dms is not in it", r.file, last/ms, i, s.pkts[f.P0].FirstAt/ms, inf[i].at/ms)
			return
		}
	} else if s := r.pub.audio; s != nil && r.pub.spec.Video == nil {
		inf := a.packets(s)
		for _, f := range s.frames {
			if p := s.pkts[f.P0]; inf[f.P0].ok && !f.Bad && p.FirstAt >= from && inf[f.P0].at <= cut-300*ms {
				w.count("checked.reopen")
				if v == nil || len(v.of(2)) == 0 {
					w.fail("not_reopened", "%s could not be opened at t=%dms, but nothing is in it although audio arrived from %dms on", r.file, last/ms, p.FirstAt/ms)
				}
				return
			}
		}
	}
}

// checkDims: the recording states the size of the picture.
func (a *Analysis) checkDims(r *Rec) {
	w := a.w
	v := a.webm(r)
	if v == nil || r.pub == nil || v.Err != "" || r.pub.video == nil {
		return
	}
	m := a.idx(r.pub)
	vb := v.of(1)
	if len(vb) == 0 {
		return
	}
	f := m[string(vb[0].Data)]
	if f == nil || !f.Key {
		return
	}
	// audio that waited too long opens the file first, before the size is known
	opened := false
	if ab := v.of(2); len(ab) > 0 && ab[0].Off < vb[0].Off && ab[0].TC < vb[0].TC-500 {
		opened = true
	}
	if s := r.pub.audio; s != nil && !opened {
		by, ok := r.pub.video.complete(f)
		by += a.jbt + 2500*ms + w.sim.StallNs
		lo, hi := int64(1<<62), int64(-1<<62)
		for _, g := range s.frames {
			if p := s.pkts[g.P0]; p.FirstAt > 0 && p.FirstAt <= by {
				lo, hi = min(lo, g.TSx), max(hi, g.TSx)
			}
		}
		opened = !ok || s.hostile() || hi-lo > 9500*48
		for _, j := range s.spec.TSJumps {
			opened = opened || j[1] < 0
		}
	}
	for _, t := range v.Tracks {
		if t.Type != 1 {
			continue
		}
		w.count("checked.picture_size")
		if (t.W != f.W || t.H != f.H) && !(opened && t.W == 640 && t.H == 480) {
			w.fail("picture_size", "%s states a picture size of %dx%d, the video is %dx%d", r.file, t.W, t.H, f.W, f.H)
		}
	}
}

// ---- reload (C24) ----

// effect is the observable effect of a configuration on a recording.
type effect struct {
	dir, fm, dm string
	ivf, dn     bool
	ports       [2]uint16 // of the media connection
	ice         string    // ICE servers
	host, key   string    // of the LiveKit server
}

// iceServers are the ICE servers as the configuration says them.
func iceServers(s string) string {
	var l []struct {
		URLs                 []string
		Username, Credential string
	}
	if s != "" {
		if err := json.Unmarshal([]byte(s), &l); err != nil {
			panic(err)
		}
	}
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%v %q %q;", x.URLs, x.Username, x.Credential)
	}
	return b.String()
}

func effectOf(c *Cfg) effect {
	e := effect{dir: c.dir(), fm: fmt.Sprintf("%o", modeOf(c.FileMode, 0600)), dm: fmt.Sprintf("%o", modeOf(c.DirMode, 0700)), ivf: c.IVF}
	if c.DevNull {
		e = effect{dn: true}
	}
	e.ports, e.host, e.key = c.ports(), c.lkHost(), c.lkKey()
	e.ice = iceServers(c.ICE)
	return e
}

// configs: the configurations that may be in force for what is asked for at a
// time and answered at another one. It is open if one of them is unknown.
func (a *Analysis) configs(asked, answered int64) (may []*Cfg, open bool) {
	w := a.w
	type span struct {
		at   int64
		cfg  *Cfg
		sure bool // no other signal was too close
	}
	spans := []span{{0, a.cfg, true}}
	near := 300*ms + a.slack
	k := 0
	for _, o := range a.sc.Ops {
		if o.K != "hup" {
			continue
		}
		if k >= len(w.hups) {
			break
		}
		at := w.hups[k]
		k++
		s := span{at: at, sure: k == len(w.hups) || w.hups[k] > at+near}
		switch o.S {
		case "same":
			s.cfg = a.cfg
		case "changed":
			s.cfg = o.Cfg.withEnv(a.sc.Env)
		case "empty":
			// what an empty file says is left open
		default:
			continue
		}
		spans = append(spans, s)
	}
	for i, s := range spans {
		until := int64(1 << 62)
		for _, x := range spans[i+1:] {
			if x.sure {
				until = x.at + near
				break
			}
		}
		if s.at <= answered && asked <= until {
			may = append(may, s.cfg)
			open = open || s.cfg == nil
		}
	}
	return
}

func (a *Analysis) checkReload() {
	w := a.w
	for _, r := range a.recs {
		if r.req == nil || r.proc != 0 {
			continue
		}
		may, open := a.configs(r.req.At, r.okAt)
		if open {
			continue
		}
		var got effect
		noVideo := false
		if r.file == "/dev/null" {
			got = effect{dn: true}
		} else {
			base := strings.TrimSuffix(r.file, "/"+path.Clean(r.req.Op.File))
			got.dir = base
			ino := w.sim.FS.Peek(r.file)
			if ino == nil || ino.ByWorld {
				continue
			}
			got.fm = fmt.Sprintf("%o", ino.Mode.Perm())
			if x := w.sim.FS.Peek(ivfOf(r.file)); x != nil && !x.ByWorld {
				got.ivf = true
			}
			alone := true
			for _, q := range w.reqs {
				if q != r.req && q.Op.K == "start" && q.At <= r.okAt && (len(q.Resp) == 0 || q.Resp[0].At >= r.req.At) {
					alone = false
				}
			}
			if d := path.Dir(r.file); d != base {
				for _, op := range w.sim.FS.Ops {
					if op.Op == "mkdir" && op.Path == d && op.Err == "" && op.At >= r.req.At && op.At <= r.okAt && alone {
						got.dm = fmt.Sprintf("%o", op.Mode.Perm())
					}
				}
			}
			if v := a.webm(r); v == nil || v.track(1) < 0 {
				got.ivf = false
				noVideo = true
			}
		}
		if r.pub != nil && r.pub.pc != nil {
			got.ports = r.pub.pc.Ports
			for _, x := range r.pub.pc.ICE {
				cred := ""
				if x.Credential != nil {
					cred = fmt.Sprint(x.Credential)
				}
				got.ice += fmt.Sprintf("%v %q %q;", x.URLs, x.Username, cred)
			}
		}
		if r.pub != nil && r.pub.room != nil {
			got.host, got.key = r.pub.room.URL, r.pub.room.Info.APIKey
		}
		ok := false
		var want []string
		for _, c := range may {
			e := effectOf(c)
			if got.dm == "" {
				e.dm = ""
			}
			if got.ports[1] == 0 {
				e.ports, e.ice = got.ports, got.ice
			}
			if got.host == "" {
				e.host, e.key = "", ""
			}
			if noVideo {
				e.ivf = false
			}
			b, _ := json.Marshal(c)
			want = append(want, string(b))
			ok = ok || e == got
		}
		w.count("checked.reload")
		if !ok {
			w.fail("config_mixed", "recording %q (t=%dms) was made with %+v, which is none of the configurations in force: %s", r.sid, r.okAt/ms, got, strings.Join(want, " | "))
		}
	}
}

// ---- a recording that has to be perfect ----

// checkRec runs the media checks for one recording.
func (a *Analysis) checkRec(r *Rec) {
	a.checkWebM(r)
	a.checkIntegrity(r)
	a.checkDecodable(r)
	a.checkTimes(r)
	a.checkComplete(r)
	a.checkAudio(r, true)
	a.checkSubstance(r)
}

// checkStamps: C26, the times in the recorder's events.
func (a *Analysis) checkStamps() {
	w := a.w
	for _, m := range w.msgs {
		if m.Bad || w.inOutage(m.At-20000*ms, m.At) {
			continue
		}
		var t int64
		switch {
		case m.Id == "recorderStatus":
			v, err := m.Millis.Int64()
			if err != nil {
				w.fail("bad_timestamp", "recorderStatus with timestamp %q", m.Millis)
				continue
			}
			t = v*ms + ms/2
		case m.Id == "recordingRtpStatusChanged" || m.Id == "recordingStopped":
			v, err := time.Parse(time.RFC3339Nano, m.UTC)
			if err != nil {
				w.fail("bad_timestamp", "%s of %q with timestampUTC %q", m.Id, m.Sid, m.UTC)
				continue
			}
			if _, off := v.Zone(); off != 0 {
				w.fail("bad_timestamp", "%s of %q: timestampUTC %q is not in UTC", m.Id, m.Sid, m.UTC)
			}
			t = v.UnixNano()
		default:
			continue
		}
		w.count("checked.utc")
		// published up to this long after the event was made
		slack := 250*ms + a.slack
		from, to := m.Wall-slack, m.Wall+ms
		ok := t >= from && t <= to
		for _, s := range w.wallLog {
			if s[0] <= m.At && s[0] >= m.At-slack {
				ok = ok || t >= from-s[1] && t <= to-s[1]
			}
		}
		if !ok {
			w.fail("event_time", "%s of %q published at t=%dms says %s, the clock of the recorder says %s", m.Id, m.Sid, m.At/ms, time.Unix(0, t).UTC().Format(time.RFC3339Nano), time.Unix(0, m.Wall).UTC().Format(time.RFC3339Nano))
		}
	}
}

// checkPositions: C26 for one recording, timestampHR is a position in it.
func (a *Analysis) checkPositions(r *Rec) {
	w := a.w
	if r.pub == nil || r.file == "/dev/null" || a.diskHit(r) || r.stop == nil {
		return
	}
	v := a.webm(r)
	if v != nil && v.Err != "" {
		return
	}
	hr := func(m *Msg) int64 {
		if m.TsHR == "" {
			return 0
		}
		n, err := m.TsHR.Int64()
		if err != nil {
			w.fail("bad_timestamp", "%s of %q with timestampHR %q", m.Id, m.Sid, m.TsHR)
			return -1
		}
		return n
	}
	var tc [3][]int64
	if v != nil {
		for k := 1; k <= 2; k++ {
			for _, b := range v.of(k) {
				tc[k] = append(tc[k], b.TC)
			}
		}
	}
	end := int64(0)
	for k := 2; k >= 1; k-- {
		if n := len(tc[k]); n > 0 {
			end = tc[k][n-1]
		}
	}
	w.count("checked.position")
	if got := hr(r.stop); got != end {
		w.fail("stop_position", "recordingStopped of %q says timestampHR %d, but %s ends at %d ms", r.sid, got, r.file, end)
	}
	if r.pub.video.hostile() || r.pub.audio.hostile() || w.inOutage(r.okAt, r.endAt) {
		return
	}
	// when the blocks were written, at the earliest and the latest
	type pos struct{ tc, lo, hi int64 }
	var ps [3][]pos
	for k, s := range map[int]*Source{1: r.pub.video, 2: r.pub.audio} {
		if s == nil || v == nil {
			continue
		}
		m := a.idx(r.pub)
		if k == 2 {
			m = a.aidx(r.pub)
		}
		inf := a.expect(s)
		for _, b := range v.of(k) {
			f := m[string(b.Data)]
			if f == nil {
				return
			}
			p := pos{tc: b.TC}
			if t, ok := s.complete(f); ok {
				p.lo = t
			}
			p.hi = inf[f.Idx].at
			if !inf[f.Idx].whole || p.hi == 0 || a.cfg.Builtin && k == 1 {
				p.hi = 1 << 62
			}
			ps[k] = append(ps[k], p)
		}
		if a.cfg.Builtin && k == 1 {
			// known to be complete once the next one begins
			for i := 0; i+1 < len(ps[k]); i++ {
				f := m[string(v.of(k)[i].Data)]
				if f.Idx+1 < len(inf) && inf[f.Idx+1].whole && inf[f.Idx+1].at > 0 {
					ps[k][i].hi = inf[f.Idx+1].at
				}
			}
		}
	}
	for _, m := range r.flows {
		got := hr(m)
		ok := false
		why := ""
		for k := 1; k <= 2; k++ {
			if k == 1 && r.pub.video == nil || k == 2 && r.pub.audio == nil {
				continue
			}
			// the last one that must, and all that may have been written by then
			min := 0
			for i, p := range ps[k] {
				// (nothing is reported before the request was answered)
				if p.hi < m.At-60*ms-w.sim.StallNs-a.slack && m.At > r.okAt+60*ms+a.slack {
					min = i + 1
				}
			}
			if min == 0 {
				ok = ok || got == 0
			}
			for i, p := range ps[k] {
				if i+1 >= min && p.lo <= m.At {
					ok = ok || got == p.tc
				}
			}
			if min > 0 {
				why += fmt.Sprintf(" (track %d was at %d ms by then)", k, ps[k][min-1].tc)
			}
		}
		w.count("checked.flow_position")
		if !ok {
			w.fail("flow_position", "%s of %q at t=%dms says timestampHR %d, which is no position the recording was at%s", m.Status, r.sid, m.At/ms, got, why)
			return
		}
	}
}

// setting is the effective value of a setting as --dump names it; lenient: what is off or empty may be left out.
func (a *Analysis) setting(key string) (val string, ok, lenient bool) {
	c := a.cfg
	def := func(v, d string) string {
		if v == "" {
			return d
		}
		return v
	}
	num := func(v, d int) string {
		if v == 0 {
			v = d
		}
		return strconv.Itoa(v)
	}
	onoff := func(b bool) (string, bool, bool) { return strconv.FormatBool(b), true, !b }
	switch key {
	case "recorder.directory":
		return c.dir(), true, false
	case "recorder.fileMode":
		return def(c.FileMode, "0600"), true, false
	case "recorder.dirFileMode":
		return def(c.DirMode, "0700"), true, false
	case "recorder.videoPacketQueueSize":
		return num(c.VQ, 256), true, false
	case "recorder.audioPacketQueueSize":
		return num(c.AQ, 32), true, false
	case "recorder.writeIVFCopy":
		return onoff(c.IVF)
	case "recorder.writeToDevNull":
		return onoff(c.DevNull)
	case "recorder.useCustomSampler":
		return onoff(!c.Builtin)
	case "webrtc.rtcMinPort":
		return strconv.Itoa(int(c.ports()[0])), true, false
	case "webrtc.rtcMaxPort":
		return strconv.Itoa(int(c.ports()[1])), true, false
	case "webrtc.jitterBuffer":
		return num(c.JB, 512), true, false
	case "webrtc.jitterBufferPktTimeout":
		return num(c.JBT, 200), true, false
	case "http.enable":
		return onoff(c.HTTP)
	case "http.port":
		return c.httpAddr()[1:], true, false
	case "prometheus.enable":
		return onoff(c.Prom)
	case "prometheus.listenAddress":
		return c.promAddr(), true, false
	case "pubsub.channels.subscribe":
		return a.w.chTo, true, false
	case "pubsub.channels.publish":
		return a.w.chFrom, true, false
	case "pubsub.adapter":
		return "redis", true, false
	case "pubsub.adapters.redis.network":
		n, _ := c.redis()
		return n, true, false
	case "pubsub.adapters.redis.address":
		_, n := c.redis()
		return n, true, false
	case "livekit.host":
		return c.lkHost(), true, false
	case "log.level":
		return def(c.Level, "error"), true, false
	}
	return "", false, false
}

var dumpKeys = []string{"recorder.directory", "recorder.fileMode", "recorder.dirFileMode", "recorder.videoPacketQueueSize", "recorder.audioPacketQueueSize", "recorder.writeIVFCopy",
	"recorder.writeToDevNull", "recorder.useCustomSampler", "webrtc.rtcMinPort", "webrtc.rtcMaxPort", "webrtc.jitterBuffer", "webrtc.jitterBufferPktTimeout", "http.enable", "http.port",
	"prometheus.enable", "prometheus.listenAddress", "pubsub.channels.subscribe", "pubsub.channels.publish", "pubsub.adapter", "pubsub.adapters.redis.network", "pubsub.adapters.redis.address", "livekit.host", "log.level"}

// checkServing: a process is there for its clients, at the addresses that are set.
func (a *Analysis) checkServing() {
	w := a.w
	for n, p := range w.procs {
		by := p.StartAt + 4000*ms + a.slack
		if by < a.procEnd(n) && !w.inOutage(p.StartAt, by) {
			ok := false
			for _, s := range w.subs {
				ok = ok || s.Proc == n && s.Chan == w.chTo && s.At <= by
			}
			w.count("checked.serving")
			if !ok {
				w.fail("not_serving", "a recorder started at t=%dms with its broker reachable is not subscribed to %s at t=%dms", p.StartAt/ms, w.chTo, by/ms)
			}
		}
		if p.ListensOK && !w.inOutage(p.StartAt, p.StartAt+2000*ms+a.slack) {
			var want, got []string
			if a.cfg.HTTP {
				want = append(want, hostPort(a.cfg.httpAddr()))
			}
			if a.cfg.Prom {
				want = append(want, hostPort(a.cfg.promAddr()))
			}
			for _, l := range p.Listens {
				got = append(got, hostPort(l))
			}
			sort.Strings(want)
			sort.Strings(got)
			w.count("checked.listens")
			if strings.Join(want, " ") != strings.Join(got, " ") {
				w.fail("listens", "the recorder serves HTTP at %v, its settings say %v", got, want)
			}
		}
	}
}

// hostPort is an address one may listen at, in one way of writing it.
func hostPort(s string) string {
	h, p, err := net.SplitHostPort(s)
	if err != nil {
		return s
	}
	switch h {
	case "", "0.0.0.0", "::":
		h = "*"
	case "localhost", "::1":
		h = "127.0.0.1"
	}
	return h + ":" + p
}

// checkDump: what --dump prints.
func (a *Analysis) checkDump() {
	w := a.w
	for _, d := range w.dumps {
		out := string(d.P.Out)
		if d.P.ExitWhy == "dump" && w.sim.StallNs > 0 {
			continue // it was not let run
		}
		if !d.P.Dead || !strings.HasPrefix(d.P.ExitWhy, "exit ") {
			w.fail("dump", "--dump %s did not end as it should: %s\n%s", d.Key, d.P.ExitWhy, d.P.Stack)
			continue
		}
		w.count("checked.dump")
		if d.Bad != "" {
			w.count("fault.bad_setting")
			if d.P.ExitCode == 0 || len(out) > 0 {
				w.fail("bad_setting", "with a setting that can't be read (%s) the recorder printed %q for %s and ended with %s", d.Bad, short(out, 200), d.Key, d.P.ExitWhy)
			}
			continue
		}
		for _, k := range dumpKeys {
			if k != d.Key && !strings.HasPrefix(k, d.Key+".") && d.Key != "all" {
				continue
			}
			want, _, lenient := a.setting(k)
			var v any
			if yaml.Unmarshal([]byte(out), &v) != nil {
				w.fail("dump", "--dump %s printed no YAML: %s", d.Key, short(out, 200))
				break
			}
			rest := strings.TrimPrefix(strings.TrimPrefix(k, d.Key), ".")
			if d.Key == "all" {
				rest = k
			}
			for _, f := range strings.Split(rest, ".") {
				if m, ok := v.(map[string]any); ok {
					v = m[f]
				} else if f != "" {
					v = nil
				}
			}
			if v == nil && lenient {
				continue
			}
			if strings.HasSuffix(k, "FileMode") || strings.HasSuffix(k, "fileMode") { // 0600 and 384 say the same
				m, err := strconv.ParseUint(fmt.Sprint(v), 0, 32)
				n, _ := strconv.ParseUint(want, 0, 32)
				if err == nil && m == n {
					continue
				}
			}
			if fmt.Sprint(v) != want || d.Key != k && d.P.ExitCode != 0 || d.Key == k && d.P.ExitCode != 0 {
				w.fail("dump", "--dump %s printed %q (%s), but %s is %s", d.Key, short(out, 200), d.P.ExitWhy, k, want)
			}
		}
		if known := strings.HasPrefix(d.Key, "nothing") || strings.HasSuffix(d.Key, ".nothing"); known && (d.P.ExitCode == 0 || out != "") {
			w.fail("dump", "--dump %s, which doesn't exist, printed %q and ended with %s", d.Key, short(out, 200), d.P.ExitWhy)
		}
	}
}
