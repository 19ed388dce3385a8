package sim

import (
	"context"
	"sync"
	"time"
)

// Ctx is a context whose deadline is only ever read by the code under test and whose end is decided by the harness.
// It starts no timers, so a goroutine waiting on it can only be woken by the harness.
type Ctx struct {
	dl   time.Time
	done chan struct{}
	mu   sync.Mutex
	err  error
	Hook func(point string) // called by every method
}

func (c *Ctx) at(point string) {
	if c.Hook != nil {
		c.Hook(point)
	}
}

// NewCtx returns a context with the given deadline (zero: none).
func NewCtx(dl time.Time) *Ctx { return &Ctx{dl: dl, done: make(chan struct{})} }

func (c *Ctx) Deadline() (time.Time, bool) {
	c.at("ctx.Deadline")
	return c.dl, !c.dl.IsZero()
}

// DL is the deadline (zero: none).
func (c *Ctx) DL() time.Time { return c.dl }

func (c *Ctx) Done() <-chan struct{} {
	c.at("ctx.Done")
	return c.done
}

func (c *Ctx) Value(any) any { return nil }

func (c *Ctx) Err() error {
	c.at("ctx.Err")
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// End ends the context as if its deadline had passed (or it had been cancelled).
func (c *Ctx) End(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

// Far is the base of harness deadlines: far enough away never to be reached by the real clock.
var Far = time.Now().Add(24 * time.Hour)

// PollCtx returns a context with a deadline, so that Poll returns when the connection is idle.
func PollCtx() context.Context { return NewCtx(Far) }
