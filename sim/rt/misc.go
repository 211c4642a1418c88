package simrt

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
)

// ---- maps ----

// MapKeys returns the keys of m in an order chosen by the schedule.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	w := W
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool { return lessAny(any(ks[i]), any(ks[j])) })
	if w == nil || w.cur == nil || w.cur.killed {
		return ks
	}
	v := w.decide("m", func() int {
		if w.Sched.Mode == "fifo" {
			return 0
		}
		return w.rng.Intn(1 << 16)
	})
	if v != 0 {
		r := NewRng(uint64(v))
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get returns the present value of the entry, and whether it still exists.
func (e MapEntry[K, V]) Get() (V, bool) { v, ok := e.m[e.K]; return v, ok }

// MapEntries lists the entries of m for iteration; entries removed meanwhile report so.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	ks := MapKeys(m)
	r := make([]MapEntry[K, V], len(ks))
	for i, k := range ks {
		r[i] = MapEntry[K, V]{k, m}
	}
	return r
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for _, e := range MapEntries(m) {
			if v, ok := e.Get(); ok && !yield(e.K, v) {
				return
			}
		}
	}
}
func MapsKeys[M ~map[K]V, K comparable, V any](m M) func(func(K) bool) {
	return func(yield func(K) bool) {
		MapsAll[M](m)(func(k K, _ V) bool { return yield(k) })
	}
}
func MapsValues[M ~map[K]V, K comparable, V any](m M) func(func(V) bool) {
	return func(yield func(V) bool) {
		MapsAll[M](m)(func(_ K, v V) bool { return yield(v) })
	}
}

func lessAny(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == y.Kind() {
		switch {
		case x.CanInt():
			return x.Int() < y.Int()
		case x.CanUint():
			return x.Uint() < y.Uint()
		case x.CanFloat():
			return x.Float() < y.Float()
		case x.Kind() == reflect.String:
			return x.String() < y.String()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func mapPtr[M any](m M) uintptr { return reflect.ValueOf(m).Pointer() }

// MapW marks the start of a write to m: while it lasts, any other access is the Go runtime's fatal error.
func MapW[M any](m M) {
	w := W
	if w == nil || w.cur == nil || w.cur.killed {
		return
	}
	p := mapPtr(m)
	if p == 0 {
		return
	}
	g := w.cur
	if o := w.mapw[p]; o != nil && o != g && !o.killed {
		w.fatal("concurrent map writes at " + site(1))
	}
	if w.Sched.PMapW <= 0 && w.dev == nil {
		return
	}
	v := w.decide("w", func() int {
		if !w.rng.P(w.Sched.PMapW) {
			return 0
		}
		if w.Sched.PStall == 0 && w.stalls < w.Sched.MaxStal && w.rng.P(0.5) {
			return 2 + w.rng.Intn(w.Sched.StallUs+1)
		}
		return 1
	})
	if v == 0 || v == 1 && len(w.runq) == 0 || g.noSwitch > 0 {
		return
	}
	w.mapw[p] = g
	defer delete(w.mapw, p)
	if v > 1 {
		w.stall(int64(v-1) * 1000)
		return
	}
	w.yield()
}

// MapR marks a read of m.
func MapR[M any](m M) M {
	w := W
	if w == nil || w.cur == nil || len(w.mapw) == 0 || w.cur.killed {
		return m
	}
	if o := w.mapw[mapPtr(m)]; o != nil && o != w.cur {
		w.fatal("concurrent map read and map write at " + site(1))
	}
	return m
}

func Zero[T any](p *T) { var z T; *p = z }

// ---- random ----

func RandUint32() uint32       { return uint32(rnd().U64()) }
func RandUint64() uint64       { return rnd().U64() }
func RandInt63() int64         { return int64(rnd().U64() >> 1) }
func RandInt31() int32         { return int32(rnd().U64() >> 33) }
func RandInt() int             { return int(rnd().U64() >> 1) }
func RandIntn(n int) int       { return rnd().Intn(n) }
func RandInt31n(n int32) int32 { return int32(rnd().Intn(int(n))) }
func RandInt63n(n int64) int64 { return int64(rnd().U64() % uint64(n)) }
func RandN[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(rnd().U64() % uint64(n))
}
func RandUintN(n uint) uint       { return uint(rnd().U64() % uint64(n)) }
func RandUint32N(n uint32) uint32 { return uint32(rnd().U64() % uint64(n)) }
func RandUint64N(n uint64) uint64 { return rnd().U64() % n }
func RandFloat64() float64        { return rnd().Float() }
func RandFloat32() float32        { return float32(rnd().Float()) }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := rnd().Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, rnd().Intn(i+1))
	}
}
func RandSeed(int64) {}
func RandRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rnd().U64())
	}
	return len(b), nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) { return RandRead(b) }

var RandReader io.Reader = randReader{}

var fallback = NewRng(1)

func rnd() *Rng {
	if W == nil {
		return fallback
	}
	return W.Rand
}

// ---- signals ----

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	w := W
	w.needG("signal.Notify")
	w.checkKilled()
	w.cur.Proc.sigs = append(w.cur.Proc.sigs, sigReg{c, sig})
}
func SignalStop(c chan<- os.Signal) {
	p := W.cur.Proc
	var r []sigReg
	for _, s := range p.sigs {
		if s.ch != c {
			r = append(r, s)
		}
	}
	p.sigs = r
}

// SignalReset undoes Notify and Ignore for some signals, or all.
func SignalReset(sig ...os.Signal) {
	p := W.cur.Proc
	var r []sigReg
	for _, s := range p.sigs {
		if len(sig) == 0 {
			continue
		}
		var l []os.Signal
		for _, x := range s.sigs {
			if !hasSig(sig, x) {
				l = append(l, x)
			}
		}
		if len(l) > 0 || len(s.sigs) == 0 {
			r = append(r, sigReg{s.ch, l})
		}
	}
	p.sigs = r
}

// A registration without a channel ignores its signals.
func SignalIgnore(sig ...os.Signal) {
	SignalReset(sig...)
	p := W.cur.Proc
	p.sigs = append(p.sigs, sigReg{nil, sig})
}
func SignalIgnored(sig os.Signal) bool {
	for _, r := range W.cur.Proc.sigs {
		if r.ch == nil && (len(r.sigs) == 0 || hasSig(r.sigs, sig)) {
			return true
		}
	}
	return false
}
func hasSig(l []os.Signal, s os.Signal) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func SignalNotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sig...)
	Go(func() {
		a, b := RC(ch), RC(ctx.Done())
		if Select(false, a, b) == 0 {
			cancel()
		}
	})
	return ctx, func() {
		cancel()
		SignalStop(ch)
	}
}

// Signal delivers a signal to the process; without a handler the process ends.
func (w *World) Signal(p *Proc, s os.Signal) {
	if p == nil || p.Dead {
		return
	}
	n := false
	for _, r := range p.sigs {
		ok := len(r.sigs) == 0
		for _, x := range r.sigs {
			ok = ok || x == s
		}
		if ok {
			n = true
			if r.ch == nil {
				continue
			}
			cs := w.chst(chanPtr(r.ch), r.ch, cap(r.ch))
			if !cs.closed {
				cs.trySend(w, s)
			}
		}
	}
	if !n {
		w.procDie(p, 129, "signal: "+s.String(), "")
	}
}

// ---- HTTP ----

// lstn is an address the process listens on; requests are not delivered through a
// connection.
type lstn struct {
	h http.Handler // nil: the default handlers
}

// Listens returns the addresses the process serves at.
func (p *Proc) Listens() []string {
	var l []string
	for a, x := range p.listen {
		if x.h != nil {
			l = append(l, a)
		}
	}
	sort.Strings(l)
	return l
}

func (p *Proc) defMux() *http.ServeMux {
	if p.mux == nil {
		p.mux = http.NewServeMux()
	}
	return p.mux
}
func HTTPHandle(pat string, h http.Handler) { W.cur.Proc.defMux().Handle(pat, h) }
func HTTPHandleFunc(pat string, f func(http.ResponseWriter, *http.Request)) {
	HTTPHandle(pat, http.HandlerFunc(f))
}
func HTTPListenAndServe(addr string, h http.Handler) error {
	return (&HTTPServer{Addr: addr, Handler: h}).ListenAndServe()
}

// HTTPDir stands in for http.Dir.
type HTTPDir string

func (d HTTPDir) Open(name string) (http.File, error) {
	if strings.ContainsRune(name, 0) {
		return nil, fs.ErrNotExist
	}
	dir := string(d)
	if dir == "" {
		dir = "."
	}
	f, err := Open(path.Join(dir, path.Clean("/"+name)))
	if err != nil {
		return nil, err
	}
	return f, nil
}

type dirFS string

// DirFS stands in for os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }
func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrInvalid}
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}

// HTTPServeFile stands in for http.ServeFile.
func HTTPServeFile(rw http.ResponseWriter, r *http.Request, name string) {
	for _, e := range strings.FieldsFunc(r.URL.Path, func(c rune) bool { return c == '/' || c == '\\' }) {
		if e == ".." {
			http.Error(rw, "invalid URL path", http.StatusBadRequest)
			return
		}
	}
	f, err := Open(name)
	if err != nil {
		code := http.StatusInternalServerError
		if errors.Is(err, fs.ErrNotExist) {
			code = http.StatusNotFound
		} else if errors.Is(err, fs.ErrPermission) {
			code = http.StatusForbidden
		}
		http.Error(rw, http.StatusText(code), code)
		return
	}
	defer f.Close()
	if st, err := f.Stat(); err != nil || st.IsDir() {
		r2 := r.Clone(r.Context())
		r2.URL.Path = "/"
		http.FileServer(HTTPDir(name)).ServeHTTP(rw, r2)
	} else {
		http.ServeContent(rw, r, st.Name(), st.ModTime(), f)
	}
}

// HTTPServer stands in for http.Server.
type HTTPServer struct {
	Addr                         string
	Handler                      http.Handler
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSConfig                    *tls.Config
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(context.Context, net.Conn) context.Context
	ConnState                    func(net.Conn, http.ConnState)
	DisableGeneralOptionsHandler bool
	atDown                       []func()
	down                         bool
	q                            WaitQ
}

func (s *HTTPServer) ListenAndServe() error {
	addr := s.Addr
	if addr == "" {
		addr = ":http"
	}
	l, err := Listen("tcp", addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// listener is a listening socket; requests are not delivered through it.
type listener struct {
	p    *Proc
	addr string
	down bool
	q    WaitQ
}

func Listen(network, addr string) (net.Listener, error) {
	w := W
	w.syncPoint()
	p := w.cur.Proc
	if p.listen[addr] != nil {
		return nil, fmt.Errorf("listen %s %s: bind: address already in use", network, addr)
	}
	p.listen[addr] = &lstn{}
	return &listener{p: p, addr: addr}, nil
}
func (l *listener) Accept() (net.Conn, error) {
	for !l.down {
		l.q.Wait("accept")
	}
	return nil, net.ErrClosed
}
func (l *listener) Close() error {
	if !l.down {
		l.down = true
		delete(l.p.listen, l.addr)
		l.q.Wake()
	}
	return nil
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4zero, Port: 8080} }

func HTTPServe(l net.Listener, h http.Handler) error {
	return (&HTTPServer{Handler: h}).Serve(l)
}

func (s *HTTPServer) RegisterOnShutdown(f func()) { s.atDown = append(s.atDown, f) }
func (s *HTTPServer) SetKeepAlivesEnabled(bool)   {}
func (s *HTTPServer) at(l net.Listener) string {
	if x, ok := l.(*listener); ok {
		return x.addr
	}
	return s.Addr
}
func (s *HTTPServer) Serve(l net.Listener) error {
	w := W
	w.syncPoint()
	p := w.cur.Proc
	if x := p.listen[s.at(l)]; x != nil {
		x.h = s.Handler
		if x.h == nil {
			x.h = p.defMux()
		}
	}
	for !s.down {
		s.q.Wait("http serve")
	}
	l.Close()
	return http.ErrServerClosed
}
func (s *HTTPServer) Shutdown(ctx context.Context) error {
	for _, f := range s.atDown {
		Go(f)
	}
	return s.Close()
}
func (s *HTTPServer) Close() error {
	s.down = true
	s.q.Wake()
	return nil
}

type HTTPResult struct {
	Start, End int64
	Code       int
	Body       string
	Location   string
	Done       bool
	Panic      string
	Gone       bool // the caller did not wait
}

// HTTP performs a request against what the process serves at the address ("host:port" or
// ":port"; only the port counts). The caller hangs up after patience, if that is not 0.
func (w *World) HTTP(p *Proc, addr, method, target, rng, body string, patience int64, res *HTTPResult) {
	res.Start = w.now
	res.End = w.now
	if p == nil || p.Dead {
		res.Done = true
		res.Code = -1
		return
	}
	var h http.Handler
	port := addr[strings.LastIndex(addr, ":"):]
	for a, l := range p.listen {
		if strings.HasSuffix(a, port) && l.h != nil {
			h = l.h
		}
	}
	if h == nil {
		// nobody listens
		res.Done = true
		res.Code = -1
		return
	}
	g := w.spawn(p, "http "+method+" "+target, func() {
		rec := httptest.NewRecorder()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(fatalError); ok {
					panic(r)
				}
				// net/http recovers panics of handlers and closes the connection
				res.Panic = fmt.Sprint(r)
				res.Done = true
				res.End = w.now
			}
		}()
		ctx, cancel := WithCancel(context.Background())
		// (as in net/http)
		defer cancel()
		if patience > 0 {
			w.After(patience, func() {
				if !res.Done && !p.Dead {
					res.Gone = true
					w.spawn(p, "http hangup", cancel).http = true
				}
			})
		}
		req := httptest.NewRequest(method, target, strings.NewReader(body)).WithContext(ctx)
		if rng != "" {
			req.Header.Set("Range", rng)
		}
		h.ServeHTTP(rec, req)
		res.Code = rec.Code
		res.Body = rec.Body.String()
		res.Location = rec.Header().Get("Location")
		res.Done = true
		res.End = w.now
	})
	g.http = true
}

// BlockForever is an empty select.
func BlockForever() { W.checkKilled(); W.park("select {}") }

func Gosched() {
	w := W
	if w == nil || w.cur == nil {
		runtime.Gosched()
		return
	}
	w.checkKilled()
	if len(w.runq) > 0 {
		w.yield()
	}
}

func NumGoroutine() int { return len(W.cur.Proc.Live()) }

// WaitQ lets goroutines of the recorder wait for the world.
type WaitQ struct{ q []*G }

func (q *WaitQ) Wait(why string) {
	w := W
	w.needG(why)
	w.checkKilled()
	q.q = append(q.q, w.cur)
	w.park(why)
}
func (q *WaitQ) Wake() {
	l := q.q
	q.q = nil
	for _, g := range l {
		W.ready(g)
	}
}

// Point is an explicit scheduling point of a stub.
func Point() { W.needG("point"); W.syncPoint() }
