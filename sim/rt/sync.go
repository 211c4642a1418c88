package simrt

// Locks with the semantics of package sync. Unlock lets any waiter or newcomer take the lock.

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	owner  *G
	q      []*G
}

func takeG(w *World, q *[]*G, k string) *G {
	if len(*q) == 0 {
		return nil
	}
	i := w.choose(k, len(*q))
	g := (*q)[i]
	*q = append((*q)[:i:i], (*q)[i+1:]...)
	return g
}

func (m *Mutex) Lock() {
	w := W
	if w == nil {
		return
	}
	w.needG("Lock")
	w.syncPoint()
	for m.locked {
		m.q = append(m.q, w.cur)
		w.park("mutex")
	}
	m.locked = true
	m.owner = w.cur
}

func (m *Mutex) TryLock() bool {
	w := W
	w.syncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = w.cur
	return true
}

func (m *Mutex) Unlock() {
	w := W
	if w == nil {
		return
	}
	w.checkKilled()
	if !m.locked {
		w.fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.owner = nil
	if g := takeG(w, &m.q, "l"); g != nil {
		w.ready(g)
	}
	P()
}

type RWMutex struct {
	w       bool
	readers int
	waitW   int
	q       []*G
}

func (m *RWMutex) wakeAll(w *World) {
	for len(m.q) > 0 {
		w.ready(takeG(w, &m.q, "l"))
	}
}

func (m *RWMutex) Lock() {
	w := W
	if w == nil {
		return
	}
	w.needG("Lock")
	w.syncPoint()
	m.waitW++
	for m.w || m.readers > 0 {
		m.q = append(m.q, w.cur)
		w.park("rwmutex lock")
	}
	m.waitW--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	W.syncPoint()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	w := W
	if w == nil {
		return
	}
	w.checkKilled()
	if !m.w {
		w.fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wakeAll(w)
	P()
}
func (m *RWMutex) RLock() {
	w := W
	if w == nil {
		return
	}
	w.needG("RLock")
	w.syncPoint()
	for m.w || m.waitW > 0 {
		m.q = append(m.q, w.cur)
		w.park("rwmutex rlock")
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	W.syncPoint()
	if m.w || m.waitW > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	w := W
	if w == nil {
		return
	}
	w.checkKilled()
	if m.readers <= 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeAll(w)
	}
	P()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
	q []*G
}

func (wg *WaitGroup) Add(d int) {
	w := W
	if w == nil {
		return
	}
	w.checkKilled()
	wg.n += d
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		for len(wg.q) > 0 {
			w.ready(takeG(w, &wg.q, "l"))
		}
	}
	P()
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	w := W
	if w == nil {
		return
	}
	w.needG("Wait")
	w.syncPoint()
	for wg.n > 0 {
		wg.q = append(wg.q, w.cur)
		w.park("waitgroup")
	}
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() { defer wg.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	if W == nil {
		o.done = true
		f()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L Locker
	q []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := W
	w.needG("Cond.Wait")
	w.checkKilled()
	c.q = append(c.q, w.cur)
	g := w.cur
	g.sel = nil
	// the goroutine is queued before the lock is released
	c.L.Unlock()
	for _, x := range c.q {
		if x == g {
			w.park("cond")
			break
		}
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	w := W
	w.syncPoint()
	if len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		w.ready(g)
	}
}
func (c *Cond) Broadcast() {
	w := W
	w.syncPoint()
	q := c.q
	c.q = nil
	for _, g := range q {
		w.ready(g)
	}
}

// Map is sync.Map; every operation is atomic.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) pt() {
	if W != nil && W.cur != nil {
		W.syncPoint()
	}
}
func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Store(k, v any) { m.pt(); m.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.pt(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == o {
		m.put(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
			m.pt()
		}
	}
}
func (m *Map) Clear() { m.pt(); m.m = nil; m.keys = nil }

type Pool struct {
	New func() any
	x   []any
}

func (p *Pool) Get() any {
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) { p.x = append(p.x, v) }
