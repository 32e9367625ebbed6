// Package context replaces the standard package; deadlines are virtual and cancellation is a
// scheduling point.
package context

import (
	rc "context"
	"time"

	"vs"
)

type (
	Context         = rc.Context
	CancelFunc      = rc.CancelFunc
	CancelCauseFunc = rc.CancelCauseFunc
)

var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

func Background() Context                   { return rc.Background() }
func TODO() Context                         { return rc.TODO() }
func WithValue(p Context, k, v any) Context { return rc.WithValue(p, k, v) }
func Cause(c Context) error                 { return rc.Cause(c) }
func WithoutCancel(p Context) Context       { return rc.WithoutCancel(p) }

func AfterFunc(ctx Context, f func()) func() bool {
	state := 0
	vs.GoNamed("context.AfterFunc", func() {
		vs.Recv(ctx.Done())
		if state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		if state == 0 {
			state = 2
			return true
		}
		return false
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := rc.WithCancel(parent)
	return ctx, func() { vs.Rel("cancel"); cancel() }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	ctx, cancel := rc.WithCancelCause(parent)
	return ctx, func(e error) { vs.Rel("cancel"); cancel(e) }
}

type deadlineCtx struct {
	rc.Context
	d       time.Time
	expired bool
	cause   error
}

func (c *deadlineCtx) Deadline() (time.Time, bool) {
	if p, ok := c.Context.Deadline(); ok && p.Before(c.d) {
		return p, true
	}
	return c.d, true
}

func (c *deadlineCtx) Err() error {
	e := c.Context.Err()
	if e != nil && c.expired {
		return DeadlineExceeded
	}
	return e
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	inner, cancel := rc.WithCancelCause(parent)
	c := &deadlineCtx{Context: inner, d: d, cause: cause}
	fire := func() {
		if inner.Err() == nil {
			c.expired = true
			if cause == nil {
				cause = DeadlineExceeded
			}
			cancel(cause)
		}
	}
	left := d.Sub(vs.Now())
	if left <= 0 {
		fire()
		return c, func() {}
	}
	t := vs.StartTimer(left, 0, fire)
	return c, func() { vs.Rel("cancel"); t.Stop(); cancel(nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vs.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vs.Now().Add(d), cause)
}
