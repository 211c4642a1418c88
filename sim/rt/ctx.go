package simrt

import (
	"context"
	"time"
)

type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children map[*simCtx]bool
	order    []*simCtx
	dl       time.Time
	hasDl    bool
	timer    *Timer
	after    func()
}

type ctxKey struct{}

var simCtxKey ctxKey

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { return c.err }
func (c *simCtx) Value(k any) any {
	if k == simCtxKey {
		return c
	}
	return c.parent.Value(k)
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{}), children: map[*simCtx]bool{}}
	if p, ok := parent.Value(simCtxKey).(*simCtx); ok && p.done == parent.Done() {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children[c] = true
			p.order = append(p.order, c)
		}
	} else if d := parent.Done(); d != nil {
		Go(func() {
			switch a, b := RC(d), RC((<-chan struct{})(c.done)); Select(false, a, b) {
			case 0:
				c.cancel(parent.Err(), context.Cause(parent))
			}
		})
	}
	return c
}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	W.closeCh(W.chst(chanPtr(c.done), c.done, 0))
	if c.timer != nil {
		c.timer.disarm()
	}
	if c.after != nil {
		f := c.after
		c.after = nil
		Go(f)
	}
	for _, k := range c.order {
		if c.children[k] {
			k.cancel(err, cause)
		}
	}
	c.children = map[*simCtx]bool{}
	c.order = nil
	if p, ok := c.parent.Value(simCtxKey).(*simCtx); ok {
		delete(p.children, c)
	}
}

func WithCancel(parent context.Context) (context.Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { W.syncPoint(); c.cancel(context.Canceled, nil) }
}
func WithCancelCause(parent context.Context) (context.Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { W.syncPoint(); c.cancel(context.Canceled, e) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, CancelFunc) {
	return WithTimeout(parent, Until(d))
}
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, CancelFunc) {
	return WithTimeoutCause(parent, Until(d), cause)
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, CancelFunc) {
	c := newCtx(parent)
	c.dl = Now().Add(d)
	c.hasDl = true
	if c.err == nil {
		c.timer = AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, cause) })
	}
	return c, func() { W.syncPoint(); c.cancel(context.Canceled, nil) }
}
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	c := newCtx(ctx)
	if c.err != nil {
		Go(f)
		return func() bool { return false }
	}
	c.after = f
	return func() bool {
		if c.after == nil {
			return false
		}
		c.after = nil
		c.cancel(context.Canceled, nil)
		return true
	}
}
func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(simCtxKey).(*simCtx); ok {
		return c.cause
	}
	return context.Cause(ctx)
}
