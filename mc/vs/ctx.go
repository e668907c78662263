package vs

import (
	"context"
	"os"
	"time"
)

// Deadlines of package context, on the virtual clock.

type dctx struct {
	context.Context
	dl time.Time
}

func (c *dctx) Deadline() (time.Time, bool) { return c.dl, true }

func (c *dctx) Err() error {
	e := c.Context.Err()
	if e != nil && context.Cause(c.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return e
}

// CtxWithDeadline mirrors context.WithDeadline.
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if x == nil {
		return context.WithDeadline(parent, d)
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return context.WithCancel(parent)
	}
	in, cancel := context.WithCancelCause(parent)
	c := &dctx{Context: in, dl: d}
	if Until(d) <= 0 {
		cancel(context.DeadlineExceeded)
		return c, func() {}
	}
	tm := &Timer{f: func() { cancel(context.DeadlineExceeded) }}
	tm.arm(Until(d))
	return c, func() { tm.Stop(); cancel(nil) }
}

// CtxWithTimeout mirrors context.WithTimeout.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if x == nil {
		return context.WithTimeout(parent, d)
	}
	return CtxWithDeadline(parent, Now().Add(d))
}

// SignalNotifyContext mirrors signal.NotifyContext.
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	GoNamed("", func() {
		if Select(false, RecvCase(ch), RecvCase(c.Done())) == 0 {
			cancel()
		}
	})
	return c, func() { cancel(); SignalStop(ch) }
}
