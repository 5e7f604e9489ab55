package vshim

import "sync"

// Cond is a condition variable whose managed waiters wait by yielding.
type Cond struct {
	L   sync.Locker
	mu  sync.Mutex
	seq []*bool
}

// NewCond returns a new Cond with Locker l.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	f := new(bool)
	c.mu.Lock()
	c.seq = append(c.seq, f)
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		done := *f
		c.mu.Unlock()
		if done {
			break
		}
		yield()
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	point()
	c.mu.Lock()
	if len(c.seq) > 0 {
		*c.seq[0] = true
		c.seq = c.seq[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	point()
	c.mu.Lock()
	for _, f := range c.seq {
		*f = true
	}
	c.seq = nil
	c.mu.Unlock()
}
