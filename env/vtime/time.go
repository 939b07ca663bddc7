// Package vtime stands for time: a virtual clock that advances to the next timer when every
// goroutine is blocked.
package vtime

import (
	"time"

	"github.com/flu-network/client/zzverif/sym"
)

type Time = time.Time
type Duration = time.Duration
type Month = time.Month
type Weekday = time.Weekday
type Location = time.Location

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	ANSIC       = time.ANSIC
	Kitchen     = time.Kitchen
)

const epoch = 1600000000

// Elapsed is the virtual time since the start, in nanoseconds.
var Elapsed int64

// MaxFires bounds how many timers fire on one path (0: unbounded).
var MaxFires int
var fires int

// Hold stops the clock.
var Hold bool

// Loose: what happened before a timer fires is not ordered before what is done then, unless it
// also happened before the timer was set. That is how it is in reality.
var Loose bool

type entry struct {
	at   int64
	mark int
	f    func()
	dead bool
}

var pending []*entry
var running bool

func Now() Time                   { return time.Unix(epoch, Elapsed) }
func Since(t Time) Duration       { return Now().Sub(t) }
func Until(t Time) Duration       { return t.Sub(Now()) }
func Unix(s int64, ns int64) Time { return time.Unix(s, ns) }

func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// schedule registers f to run at the given virtual time.
func schedule(d Duration, f func()) *entry {
	if d < 0 {
		d = 0
	}
	e := &entry{at: Elapsed + int64(d), f: f}
	sym.Release(&e.mark)
	pending = append(pending, e)
	if !running {
		running = true
		go clock()
	}
	return e
}

func next() *entry {
	var best *entry
	for _, e := range pending {
		if !e.dead && (best == nil || e.at < best.at) {
			best = e
		}
	}
	return best
}

func clock() {
	for {
		if Loose {
			sym.WaitIdle(1100)
		} else {
			sym.WaitIdle(100)
		}
		if Hold {
			running = false
			return
		}
		e := next()
		if e == nil {
			running = false
			return
		}
		if !FireNext() {
			running = false
			return
		}
	}
}

// Resume restarts the clock after Hold.
func Resume() {
	Hold = false
	if !running {
		running = true
		go clock()
	}
}

// FireNext advances the clock to the next timer and fires it; false if there is none or the bound
// on timer events is reached.
func FireNext() bool {
	e := next()
	if e == nil {
		return false
	}
	fires++
	if MaxFires > 0 && fires > MaxFires {
		return false
	}
	e.dead = true
	keep := pending[:0:0]
	for _, x := range pending {
		if !x.dead {
			keep = append(keep, x)
		}
	}
	pending = keep
	if e.at > Elapsed {
		Elapsed = e.at
	}
	sym.Acquire(&e.mark)
	e.f()
	return true
}

// NextBefore tells whether a timer fires up to the given time.
func NextBefore(at int64) bool {
	e := next()
	return e != nil && e.at <= at
}

func After(d Duration) <-chan Time {
	ch := make(chan Time, 1)
	schedule(d, func() { ch <- Now() })
	return ch
}

func Sleep(d Duration) {
	if d <= 0 {
		return
	}
	if Instant {
		Elapsed += int64(d)
		return
	}
	ch := make(chan struct{}, 1)
	schedule(d, func() { ch <- struct{}{} })
	<-ch
}

type Timer struct {
	C <-chan Time
	e *entry
	f func()
}

func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	t := &Timer{C: ch}
	t.f = func() {
		select {
		case ch <- Now():
		default:
		}
	}
	t.e = schedule(d, t.f)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: func() { go f() }}
	t.e = schedule(d, t.f)
	return t
}

func (t *Timer) Stop() bool {
	was := !t.e.dead
	t.e.dead = true
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := !t.e.dead
	t.e.dead = true
	t.e = schedule(d, t.f)
	return was
}

type Ticker struct {
	C <-chan Time
	e *entry
	d Duration
	c chan Time
}

func (t *Ticker) fire() {
	select {
	case t.c <- Now():
	default:
	}
	t.e = schedule(t.d, t.fire)
}

func NewTicker(d Duration) *Ticker {
	ch := make(chan Time, 1)
	t := &Ticker{C: ch, c: ch, d: d}
	t.e = schedule(d, t.fire)
	return t
}
func (t *Ticker) Stop()           { t.e.dead = true }
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// After2 lets other modelled packages schedule events.
func Schedule(d Duration, f func()) func() {
	e := schedule(d, f)
	return func() { e.dead = true }
}

// Instant makes Sleep return at once (the clock still advances).
var Instant bool
