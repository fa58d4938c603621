// Package vtime stands in for package time in the product's code (see cmd/instrument): the same clock, which Advance
// moves forward. Timers, tickers and connection deadlines follow.
package vtime

import (
	"context"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	offset time.Duration
	base   = time.Now()
	active = map[*core]struct{}{}
	limits = map[deadliner]*limit{}
	fired  int64
	armed  int64
)

type core struct {
	when   time.Time
	period time.Duration
	f      func(time.Time)
	real   *time.Timer
	gen    int
}

type deadliner interface {
	SetDeadline(time.Time) error
}

type limit struct{ read, write time.Time }

func now() time.Time { return time.Now().Add(offset) }

// Advance moves the clock.
func Advance(d time.Duration) {
	mu.Lock()
	defer mu.Unlock()
	offset += d
	n := now()
	for c := range active {
		c.arm(n)
	}
	for conn, l := range limits {
		apply(conn, l)
	}
}

// Stats returns how many timers, tickers and connection deadlines were set, and how many timers fired.
func Stats() (int64, int64) {
	mu.Lock()
	defer mu.Unlock()
	return armed, fired
}

func (c *core) arm(n time.Time) {
	if c.real != nil {
		c.real.Stop()
	}
	c.gen++
	gen := c.gen
	c.real = time.AfterFunc(max(c.when.Sub(n), 0), func() { c.fire(gen) })
}

func (c *core) fire(gen int) {
	mu.Lock()
	n := now()
	if _, ok := active[c]; !ok || c.gen != gen {
		mu.Unlock()
		return
	}
	fired++
	if c.period > 0 {
		if c.when = c.when.Add(c.period); c.when.Before(n) {
			c.when = n.Add(c.period) // missed ticks are dropped
		}
		c.arm(n)
	} else {
		delete(active, c)
	}
	f := c.f
	mu.Unlock()
	f(n)
}

func (c *core) start(d time.Duration) {
	mu.Lock()
	defer mu.Unlock()
	armed++
	n := now()
	c.when = n.Add(d)
	active[c] = struct{}{}
	c.arm(n)
}

func (c *core) stop() bool {
	mu.Lock()
	defer mu.Unlock()
	_, ok := active[c]
	delete(active, c)
	c.gen++
	if c.real != nil {
		c.real.Stop()
	}
	return ok
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	c  *core
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	ok := t.c.stop()
	t.drain()
	return ok
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.c.stop()
	t.drain()
	t.c.start(d)
	return ok
}

func (t *Timer) drain() {
	if t.ch != nil {
		select {
		case <-t.ch:
		default:
		}
	}
}

func sender(ch chan time.Time) func(time.Time) {
	return func(n time.Time) {
		select {
		case ch <- n:
		default:
		}
	}
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch, c: &core{f: sender(ch)}}
	t.c.start(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{c: &core{f: func(time.Time) { go f() }}}
	t.c.start(d)
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c *core
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, c: &core{f: sender(ch), period: d}}
	t.c.start(d)
	return t
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() { t.c.stop() }

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.c.stop()
	t.c.period = d
	t.c.start(d)
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if d > 0 {
		<-NewTimer(d).C
	}
}

// Now is time.Now.
func Now() time.Time { mu.Lock(); defer mu.Unlock(); return now() }

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// SetDeadline stands in for conn.SetDeadline.
func SetDeadline(conn deadliner, t time.Time) error {
	return set(conn, t, true, true, conn.SetDeadline)
}

// SetReadDeadline stands in for conn.SetReadDeadline.
func SetReadDeadline(conn interface{ SetReadDeadline(time.Time) error }, t time.Time) error {
	return set(conn, t, true, false, conn.SetReadDeadline)
}

// SetWriteDeadline stands in for conn.SetWriteDeadline.
func SetWriteDeadline(conn interface{ SetWriteDeadline(time.Time) error }, t time.Time) error {
	return set(conn, t, false, true, conn.SetWriteDeadline)
}

// set records a deadline of a connection that is none of the product's types: those get the call as it is, and make
// their own calls.
func set(conn any, t time.Time, read, write bool, call func(time.Time) error) error {
	d, ok := foreign(conn)
	if !ok {
		return call(t)
	}
	mu.Lock()
	defer mu.Unlock()
	armed++
	l := limits[d]
	if l == nil {
		l = &limit{}
		limits[d] = l
	}
	if read {
		l.read = t
	}
	if write {
		l.write = t
	}
	return apply(d, l)
}

func apply(d deadliner, l *limit) error {
	var err error
	if r, ok := d.(interface{ SetReadDeadline(time.Time) error }); ok {
		err = r.SetReadDeadline(real(l.read))
	}
	if w, ok := d.(interface{ SetWriteDeadline(time.Time) error }); ok {
		if e := w.SetWriteDeadline(real(l.write)); err == nil {
			err = e
		}
	}
	if _, ok := d.(interface{ SetReadDeadline(time.Time) error }); !ok {
		err = d.SetDeadline(real(l.read)) // a listener
	}
	if err != nil || l.read.IsZero() && l.write.IsZero() {
		delete(limits, d)
	}
	return err
}

func real(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	return t.Add(-offset)
}

const product = "github.com/hired/gevulot"

// foreign finds the connection under wrappers whose deadline methods are those of an embedded one.
func foreign(conn any) (deadliner, bool) {
	for range 10 {
		d, ok := conn.(deadliner)
		if !ok {
			return nil, false
		}
		v := reflect.ValueOf(conn)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if !v.IsValid() || !strings.HasPrefix(v.Type().PkgPath(), product) {
			return d, reflect.TypeOf(conn).Comparable()
		}
		m, ok := reflect.TypeOf(conn).MethodByName("SetDeadline")
		if !ok || v.Kind() != reflect.Struct {
			return nil, false
		}
		if f := runtime.FuncForPC(m.Func.Pointer()); f == nil {
			return nil, false
		} else if file, _ := f.FileLine(f.Entry()); file != "<autogenerated>" {
			return nil, false
		}
		var next any
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Anonymous && v.Field(i).CanInterface() {
				if _, ok := v.Field(i).Interface().(deadliner); ok {
					next = v.Field(i).Interface()
				}
			}
		}
		if next == nil {
			return nil, false
		}
		conn = next
	}
	return nil, false
}

type timed struct {
	context.Context
	when time.Time

	mu  sync.Mutex
	err error
}

func (c *timed) Deadline() (time.Time, bool) {
	if d, ok := c.Context.Deadline(); ok && d.Before(c.when) {
		return d, true
	}
	return c.when, true
}

func (c *timed) Err() error {
	err := c.Context.Err()
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil && c.err != nil {
		return c.err
	}
	return err
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, Until(t), nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, Until(t), cause)
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	inner, cancel := context.WithCancelCause(parent)
	c := &timed{Context: inner, when: Now().Add(d)}
	tm := AfterFunc(d, func() {
		c.mu.Lock()
		if inner.Err() == nil {
			c.err = context.DeadlineExceeded
		}
		c.mu.Unlock()
		cancel(cause)
	})
	return c, func() { tm.Stop(); cancel(nil) }
}
