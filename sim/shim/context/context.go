// Package context replaces the standard context package inside the simulator.
package context

import (
	rc "context"
	"errors"

	"verif/shim/time"
	"verif/simrt"
)

type (
	Context         = rc.Context
	CancelFunc      = rc.CancelFunc
	CancelCauseFunc = rc.CancelCauseFunc
)

var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

func Background() Context                        { return rc.Background() }
func TODO() Context                              { return rc.TODO() }
func WithValue(parent Context, k, v any) Context { return rc.WithValue(parent, k, v) }
func WithoutCancel(parent Context) Context       { return rc.WithoutCancel(parent) }

type ckey int

var selfKey ckey

type cctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	dl       time.Time
	hasDl    bool
	timer    *simrt.Timer
	after    func()
	up       *cctx
	vc       simrt.VC
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	simrt.Point()
	if c.err != nil {
		simrt.Acq(&c.vc)
	}
	return c.err
}
func (c *cctx) Value(k any) any {
	if k == any(&selfKey) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		simrt.S.Stop(c.timer)
	}
	simrt.Rel(&c.vc)
	simrt.CloseNB(c.done)
	if c.after != nil {
		simrt.Spawn("", c.after).Lib = true
	}
	ch := c.children
	c.children = nil
	for _, k := range ch {
		k.cancel(err, cause)
	}
	if c.up != nil {
		for i, x := range c.up.children {
			if x == c {
				ks := make([]*cctx, 0, len(c.up.children)-1)
				c.up.children = append(append(ks, c.up.children[:i]...), c.up.children[i+1:]...)
				break
			}
		}
	}
}

func newCtx(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	simrt.Point()
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&selfKey).(*cctx); ok && parent.Done() == p.Done() {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
			c.up = p
		}
	} else if d := parent.Done(); d != nil {
		simrt.Go(0, func() {
			a, b := simrt.CaseRecv(d), simrt.CaseRecv[struct{}](c.done)
			if simrt.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func cancelFn(c *cctx) CancelFunc {
	return func() {
		if simrt.Killing() {
			return
		}
		simrt.Point()
		c.cancel(Canceled, nil)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, cancelFn(c)
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if simrt.Killing() {
			return
		}
		simrt.Point()
		c.cancel(Canceled, cause)
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, cancelFn(c)
	}
	c.dl, c.hasDl = d, true
	if wait := time.Sim(d) - simrt.S.Now; c.err == nil && wait <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else if c.err == nil {
		c.timer = simrt.S.After(wait, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, cancelFn(c)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(&selfKey).(*cctx); ok {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	fired := false
	if c.err != nil {
		fired = true
		simrt.Go(0, f)
	} else {
		c.after = func() { f() }
	}
	return func() bool {
		simrt.Point()
		if fired || c.err != nil {
			return false
		}
		c.after = nil
		c.cancel(errors.New("stopped"), nil)
		return true
	}
}
