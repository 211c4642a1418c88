package simrt

import (
	"time"
	"unsafe"
)

type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

// mkTime builds a time with a monotonic reading.
func mkTime(wall, mono int64) time.Time {
	sec := wall / 1e9
	ns := wall % 1e9
	var t time.Time
	r := (*timeRep)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(ns)
	r.ext = mono
	r.loc = time.UTC
	return t
}

func Now() time.Time {
	w := W
	if w == nil {
		return time.Now()
	}
	return mkTime(w.Wall(), w.now+1)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	w := W
	if w == nil {
		time.Sleep(d)
		return
	}
	w.needG("Sleep")
	w.syncPoint()
	if d <= 0 {
		return
	}
	g := w.cur
	w.procAfter(g.Proc, int64(d), "sleep", func() { w.ready(g) })
	w.park("sleep")
}

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	ev *Event
	p  *Proc
	st string
}

func (t *Timer) arm(d time.Duration) {
	w := W
	t.ev = w.procAfter(t.p, int64(d), "timer "+t.st, func() {
		t.ev = nil
		if t.f != nil {
			w.spawn(t.p, "timer "+t.st, t.f)
			return
		}
		TrySendWorld(t.c, Now())
	})
}
func NewTimer(d time.Duration) *Timer {
	w := W
	w.needG("NewTimer")
	w.checkKilled()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, p: w.cur.Proc, st: site(1)}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	w := W
	w.needG("AfterFunc")
	w.checkKilled()
	t := &Timer{f: f, p: w.cur.Proc, st: site(1)}
	t.arm(d)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func (t *Timer) disarm() bool {
	e := t.ev
	t.ev = nil
	if e == nil {
		return false
	}
	delete(t.p.timers, e)
	return e.Cancel()
}
func (t *Timer) Stop() bool { W.checkKilled(); return t.disarm() }
func (t *Timer) Reset(d time.Duration) bool {
	W.checkKilled()
	r := t.disarm()
	t.arm(d)
	return r
}

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  int64
	ev *Event
	p  *Proc
	st string
}

func (t *Ticker) arm() {
	w := W
	t.ev = w.procAfter(t.p, t.d, "ticker "+t.st, func() {
		t.arm()
		TrySendWorld(t.c, Now())
	})
}
func NewTicker(d time.Duration) *Ticker {
	w := W
	w.needG("NewTicker")
	w.checkKilled()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: int64(d), p: w.cur.Proc, st: site(1)}
	t.arm()
	return t
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func (t *Ticker) Stop() {
	W.checkKilled()
	if t.ev != nil {
		delete(t.p.timers, t.ev)
		t.ev.Cancel()
		t.ev = nil
	}
}
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	t.d = int64(d)
	t.arm()
}
