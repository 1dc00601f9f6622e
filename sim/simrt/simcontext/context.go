// Package simcontext replaces package context with virtual deadlines.
package simcontext

import (
	"context"
	"fmt"
	"simrt"
	"time"
)

type Context = context.Context
type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }
func WithValue(p Context, k, v any) Context {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	return context.WithValue(p, k, v)
}
func WithoutCancel(p Context) Context { return context.WithoutCancel(p) }

type key int

var self key

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children map[*ctx]int
	order    int
	after    []func()
	deadline time.Time
	hasDl    bool
	t        *simrt.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { simrt.Y(); return c.err }
func (c *ctx) Value(k any) any {
	if k == &self {
		return c
	}
	return c.parent.Value(k)
}
func (c *ctx) String() string { return fmt.Sprintf("simcontext(%p)", c) }

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	simrt.DelTimer(c.t)
	simrt.Close(c.done)
	kids := make([]*ctx, c.order)
	for k, i := range c.children {
		kids[i] = k
	}
	for _, k := range kids {
		if k != nil {
			k.cancel(err, cause)
		}
	}
	for _, f := range c.after {
		if f != nil {
			simrt.GoAs(f, false)
		}
	}
	c.children = nil
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	simrt.Y()
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&self).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			if p.children == nil {
				p.children = map[*ctx]int{}
			}
			p.children[c] = p.order
			p.order++
		}
	}
	return c
}

func (c *ctx) detach() {
	if p, ok := c.parent.Value(&self).(*ctx); ok && p.children != nil {
		delete(p.children, c)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { simrt.Y(); c.cancel(Canceled, nil); c.detach() }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { simrt.Y(); c.cancel(Canceled, e); c.detach() }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return withDl(parent, simrt.TimeNow().Add(d), d, nil)
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return withDl(parent, simrt.TimeNow().Add(d), d, cause)
}
func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return withDl(parent, t, t.Sub(simrt.TimeNow()), nil)
}
func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return withDl(parent, t, t.Sub(simrt.TimeNow()), cause)
}
func withDl(parent Context, at time.Time, d time.Duration, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || at.Before(pd) {
		c.deadline, c.hasDl = at, true
		if d <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else if c.err == nil {
			c.t = simrt.AddTimer(simrt.NowNs()+int64(d), func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { simrt.Y(); c.cancel(Canceled, nil); c.detach() }
}
func Cause(c Context) error {
	if x, ok := c.Value(&self).(*ctx); ok {
		return x.cause
	}
	return c.Err()
}
func AfterFunc(c Context, f func()) (stop func() bool) {
	x, ok := c.Value(&self).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	if x.err != nil {
		simrt.Go(f)
		return func() bool { return false }
	}
	i := len(x.after)
	x.after = append(x.after, f)
	return func() bool {
		if x.err != nil || x.after[i] == nil {
			return false
		}
		x.after[i] = nil
		return true
	}
}
