// Package sched runs two goroutines one statement at a time, in an order
// decided by the explorer.
package sched

import (
	"runtime"
	"sync/atomic"
	"time"
)

// Patience is how long a task may run without coming to a point before it is
// taken to wait for the other one.
var Patience = 10 * time.Millisecond

// Deadlock is how long both tasks together may make no progress.
var Deadlock = 30 * time.Second

type event struct {
	i    int
	done bool
}

type task struct {
	goid uint64
	wake chan struct{}
	done bool
	val  interface{}
}

// Run is one controlled execution.
type Run struct {
	t      [2]task
	ev     chan event
	free   atomic.Bool // control was given up: both run
	choose func() bool

	Points     int  // points at which there was a choice
	GivenUp    bool // a task waited for the other outside a point
	Deadlocked bool
	Vals       [2]interface{} // panics
}

var active atomic.Pointer[Run]

// Point is called before every statement of the code under test.
func Point() {
	r := active.Load()
	if r == nil || r.free.Load() {
		return
	}
	id := runtime.VerifGoid()
	i := 0
	if r.t[1].goid == id {
		i = 1
	} else if r.t[0].goid != id {
		return // a goroutine started by the code under test
	}
	if r.t[1-i].done {
		return
	}
	r.Points++
	if !r.choose() {
		return
	}
	r.ev <- event{i, false}
	<-r.t[i].wake
}

// Two runs f and g, starting with f; at every point choose decides whether to
// switch to the other task.
func Two(f, g func(), choose func() bool) *Run {
	r := &Run{choose: choose, ev: make(chan event)}
	ready := make(chan struct{})
	for i, fn := range []func(){f, g} {
		i, fn := i, fn
		r.t[i].wake = make(chan struct{}, 1)
		go func() {
			r.t[i].goid = runtime.VerifGoid()
			ready <- struct{}{}
			<-r.t[i].wake
			defer func() {
				r.t[i].val = recover()
				r.ev <- event{i, true}
			}()
			fn()
		}()
		<-ready
	}
	active.Store(r)
	defer active.Store(nil)
	r.t[0].wake <- struct{}{}
	patience := time.NewTimer(Patience)
	defer patience.Stop()
	deadline := time.NewTimer(Deadlock)
	defer deadline.Stop()
	for {
		select {
		case e := <-r.ev:
			next := 1 - e.i
			if e.done {
				r.t[e.i].done = true
				if r.t[next].done {
					r.Vals = [2]interface{}{r.t[0].val, r.t[1].val}
					return r
				}
			}
			if r.free.Load() {
				if !e.done {
					r.t[e.i].wake <- struct{}{}
				}
				continue
			}
			r.t[next].wake <- struct{}{}
			patience.Reset(Patience)
		case <-patience.C:
			if r.free.Load() || r.t[0].done || r.t[1].done {
				continue
			}
			// exactly one task is waiting at a point; let both run
			r.GivenUp = true
			r.free.Store(true)
			for i := range r.t {
				select {
				case r.t[i].wake <- struct{}{}:
				default:
				}
			}
		case <-deadline.C:
			r.Deadlocked = true
			r.free.Store(true)
			return r
		}
	}
}
