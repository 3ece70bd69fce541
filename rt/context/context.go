// Package context replaces the standard package: cancellation travels over
// simulated channels and deadlines follow the simulated clock.
package context

import (
	real "context"
	"time"

	"uniswap-simulator/zsim/simrt"
	simtime "uniswap-simulator/zsim/time"
)

type (
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

func Background() Context                       { return real.Background() }
func TODO() Context                             { return real.TODO() }
func WithValue(p Context, key, val any) Context { return real.WithValue(p, key, val) }

//go:norace
func Cause(c Context) error {
	if s, ok := c.Value(&self).(*ctx); ok {
		return s.cause
	}
	return c.Err()
}

var self int

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	timed    bool
	late     error // the cause given for the deadline
	children []*ctx
}

func (c *ctx) Done() <-chan struct{} { return c.done }

//go:norace
func (c *ctx) Err() error { simrt.Y(); return c.err }
func (c *ctx) Value(key any) any {
	if key == any(&self) {
		return c
	}
	return c.Context.Value(key)
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

//go:norace
func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	simrt.Close(c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

//go:norace
func child(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: p, done: make(chan struct{})}
	if s, ok := p.Value(&self).(*ctx); ok {
		if s.err != nil {
			c.cancel(s.err, s.cause)
		} else {
			s.children = append(s.children, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := child(p)
	return c, func() { simrt.Y(); c.cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := child(p)
	return c, func(e error) { simrt.Y(); c.cancel(Canceled, e) }
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, simtime.Now().Add(d))
}

func WithDeadline(p Context, at time.Time) (Context, CancelFunc) {
	if cur, ok := p.Deadline(); ok && cur.Before(at) {
		return WithCancel(p)
	}
	c := child(p)
	c.deadline, c.timed = at, true
	if d := simtime.Until(at); d <= 0 {
		c.cancel(DeadlineExceeded, nil)
	} else if c.err == nil {
		simtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded, c.late) })
	}
	return c, func() { simrt.Y(); c.cancel(Canceled, nil) }
}

func AfterFunc(p Context, f func()) (stop func() bool) {
	var called, stopped bool
	simrt.Go(func() {
		simrt.Recv(p.Done())
		if !stopped {
			called = true
			f()
		}
	})
	return func() bool {
		simrt.Y()
		was := called || stopped
		stopped = true
		return !was
	}
}

func WithoutCancel(p Context) Context { return real.WithoutCancel(p) }
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, simtime.Now().Add(d), cause)
}

func WithDeadlineCause(p Context, at time.Time, cause error) (Context, CancelFunc) {
	c, stop := WithDeadline(p, at)
	if s, ok := c.(*ctx); ok && s.timed {
		s.late = cause
	}
	return c, stop
}
