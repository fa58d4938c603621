package props

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
)

// cfgN is configuration number n (1, 2, ...).
func cfgN(n int, listen string) *server.Config {
	return &server.Config{Listen: listen, DatabaseURL: fmt.Sprintf("postgres://h/%d", n)}
}

func numOf(c *server.Config) int {
	if c == nil {
		return 0
	}
	n := -1
	if _, err := fmt.Sscanf(c.DatabaseURL, "postgres://h/%d", &n); err != nil {
		_, _ = fmt.Sscanf(c.Listen, "number-%d", &n)
	}
	return n
}

// sparse is configuration number n, perhaps with an empty setting.
func sparse(n, shape int) *server.Config {
	switch (n + shape) % 5 {
	case 0:
		return cfgN(n, "")
	case 1:
		return &server.Config{Listen: fmt.Sprintf("number-%d", n)}
	}
	return cfgN(n, "a")
}

// maxInt raises an atomic to at least n.
func maxInt(a *atomic.Int64, n int64) {
	for {
		o := a.Load()
		if o >= n || a.CompareAndSwap(o, n) {
			return
		}
	}
}

// wantTrigger waits for the plan's trigger or for alternative.
func wantTrigger(t *mon.T, alternative func() bool) {
	trig := sched.Triggered()
	if trig == nil {
		return
	}
	t.AwaitSoftly(func() bool {
		select {
		case <-trig:
			return true
		default:
			return alternative()
		}
	})
}

func pushTo(src chan *server.Config, c *server.Config, stop <-chan struct{}) bool {
	select {
	case src <- c:
		return true
	case <-stop:
		return false
	}
}

// ---- C18 ----

func c18Reads(t *mon.T) {
	r := t.Rand
	capSrc := []int{0, 0, 1, 8}[r.IntN(4)]
	src := make(chan *server.Config, capSrc)
	dist := server.NewConfigDistributor(src)
	var begun atomic.Int64  // configurations whose push has begun
	var acted atomic.Int64  // newest configuration some read returned or some subscriber received
	var closing atomic.Bool // a close or the end of the source has begun
	var closed atomic.Bool  // Close has returned
	var bad atomic.Value
	fail := func(format string, args ...any) { bad.CompareAndSwap(nil, fmt.Sprintf(format, args...)) }
	var reads, closedReads, pending atomic.Int64
	stop := make(chan struct{})
	var wg sync.WaitGroup
	readers := 1 + r.IntN(8)
	perReader := 1 + r.IntN(30)
	total := 1 + r.IntN(12)
	lateFirst := r.IntN(2) == 0 // readers wait for the first configuration
	endless := int64(0)
	read := func() bool {
		lo := acted.Load()
		wasClosed := closed.Load()
		pending.Add(1)
		c, err := dist.Get()
		pending.Add(-1)
		hi := begun.Load()
		reads.Add(1)
		switch {
		case err != nil:
			if err != server.ErrConfigDistributorClosed {
				fail("a read fails with %v", err)
			}
			if !closing.Load() {
				fail("a read fails with %v before the distributor is closed", err)
			}
			closedReads.Add(1)
			return false
		case wasClosed:
			fail("a read that began after Close had returned succeeds: %v", c)
		case c == nil:
			fail("a read returns nothing and no error")
		default:
			n := int64(numOf(c))
			if n < 1 || n > hi {
				fail("a read returns %+v, which was not supplied yet (%d were)", *c, hi)
			}
			if n < lo {
				fail("a read returns configuration %d after %d had been read or received", n, lo)
			}
			maxInt(&acted, n)
		}
		return true
	}
	startReaders := func() {
		for i := 0; i < readers; i++ {
			pause := r.IntN(200)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < perReader; k++ {
					if !read() {
						return
					}
					if pause%3 == 0 {
						sleepUS(pause)
					}
				}
			}()
		}
	}
	// Subscribers that act upon what they get.
	subs := r.IntN(3)
	var subWG sync.WaitGroup
	subStop := make(chan struct{})
	startSubs := func() {
		for i := 0; i < subs; i++ {
			ch := make(chan *server.Config, r.IntN(3))
			if err := dist.Subscribe(ch); err != nil {
				fail("Subscribe fails: %v", err)
				continue
			}
			subWG.Add(1)
			go func() {
				defer subWG.Done()
				for {
					select {
					case c := <-ch:
						maxInt(&acted, int64(numOf(c)))
					case <-subStop:
						return
					}
				}
			}()
		}
	}
	shape := r.IntN(5)
	push := func(n int) bool {
		begun.Store(int64(n))
		return pushTo(src, sparse(n, shape), stop)
	}
	first := r.IntN(2) == 0 && capSrc > 0 && !lateFirst
	if first {
		push(1)
	}
	if r.IntN(2) == 0 {
		startSubs()
		startReaders()
	} else {
		startReaders()
		startSubs()
	}
	updates := make(chan struct{})
	pace := r.IntN(3)
	ur := mon.NewRand(t.Seed ^ 5)
	go func() {
		defer close(updates)
		n := 1
		if first {
			n = 2
		}
		for ; n <= total; n++ {
			if pace > 0 {
				sleepUS(ur.IntN(300 * pace))
			}
			if !push(n) {
				return
			}
		}
	}()
	readersDone := make(chan struct{})
	go func() { wg.Wait(); close(readersDone) }()
	is := func(ch chan struct{}) func() bool {
		return func() bool {
			select {
			case <-ch:
				return true
			default:
				return false
			}
		}
	}
	_ = endless
	byEnd := r.IntN(3) == 0
	switch mode := t.Int("mode"); mode {
	case 0: // all reads complete with all updates
		t.AwaitChan("reads-return", fmt.Sprintf("reads return although %d configurations were supplied", total), readersDone)
		t.AwaitChan("updates-taken", "configurations are taken", updates)
		t.Await("latest", "a read returns the last configuration", func() bool {
			c, err := dist.Get()
			if err != nil {
				t.Fail("latest", "a read fails with %v", err)
			}
			return numOf(c) == total
		})
	default: // close at some moment
		if t.Int("trigger") == 1 {
			wantTrigger(t, func() bool { return is(readersDone)() && is(updates)() })
		} else {
			sleepUS(r.IntN([]int{50, 1000, 5000}[r.IntN(3)]))
		}
	}
	closing.Store(true)
	if byEnd {
		// The source ends.
		close(stop)
		t.AwaitChan("updates-taken", "the updater ends", updates)
		close(src)
		began := acted.Load()
		_ = began
		t.Await("source-end", "reads fail with the closed error after the source ended", func() bool {
			done := make(chan error, 1)
			go func() { _, err := dist.Get(); done <- err }()
			var got error
			ok := false
			res, dump := t.AwaitSoft(func() bool {
				select {
				case got = <-done:
					ok = true
				default:
				}
				return ok
			})
			if res == mon.Stuck {
				t.Fail("hangs", "a read hangs after the source ended\n%s", dump)
			}
			return ok && got == server.ErrConfigDistributorClosed
		})
	} else {
		n := 1 + r.IntN(3)
		var cw sync.WaitGroup
		for i := 0; i < n; i++ {
			cw.Add(1)
			go func() { defer cw.Done(); dist.Close(); closed.Store(true) }()
		}
		done := make(chan struct{})
		go func() { cw.Wait(); close(done) }()
		t.AwaitChan("close-returns", "Close returns", done)
		close(stop)
	}
	t.AwaitChan("reads-return", "pending reads return after the distributor was closed", readersDone)
	for i := 0; i < 3; i++ {
		done := make(chan struct{})
		var err error
		go func() { _, err = dist.Get(); close(done) }()
		t.AwaitChan("hangs", "a read after close returns", done)
		if err != server.ErrConfigDistributorClosed {
			t.Fail("closed", "a read after close returns error %v", err)
		}
		if err := dist.Subscribe(make(chan *server.Config)); err != server.ErrConfigDistributorClosed {
			t.Fail("closed", "Subscribe after close returns error %v", err)
		}
	}
	t.AwaitChan("updates-taken", "the updater ends", updates)
	close(subStop)
	subWG.Wait()
	if m := bad.Load(); m != nil {
		t.Fail("history", "%v", m)
	}
	t.NoProductGoroutines("leak", "after close")
	t.Count("reads", int(reads.Load()))
	t.Count("reads_failed_closed", int(closedReads.Load()))
	t.Count("configurations", int(begun.Load()))
	t.Case(true, readers, perReader, total, subs, capSrc, byEnd, t.Int("mode"), t.Plan.Points, r.Uint32())
	t.Sample("%d readers x %d reads, %d configurations (source capacity %d), %d subscribers, close by end of source: %v, close during reads: %v", readers, perReader, total, capSrc, subs, byEnd, t.Int("mode") > 0)
}

// ---- C19 ----

type predicate struct {
	name string
	f    func(o, n *server.Config) bool
}

var predicates = []predicate{
	{"listen-changed", func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen }},
	{"listen-changed-later", func(o, n *server.Config) bool { return o != nil && o.Listen != n.Listen }},
	{"url-changed", func(o, n *server.Config) bool { return o == nil || o.DatabaseURL != n.DatabaseURL }},
	{"never", func(o, n *server.Config) bool { return false }},
	{"always", func(o, n *server.Config) bool { return true }},
	{"first-only", func(o, n *server.Config) bool { return o == nil }},
	{"listen-a", func(o, n *server.Config) bool { return n.Listen == "a" }},
	{"left-a", func(o, n *server.Config) bool { return o != nil && o.Listen == "a" }},
	{"even", func(o, n *server.Config) bool { return numOf(n)%2 == 0 }},
}

type subscriber struct {
	ch      chan *server.Config
	checks  []predicate
	lo, hi  int // bounds of the number of configurations when it subscribed
	mu      sync.Mutex
	got     []*server.Config
	quit    chan struct{}
	ended   chan struct{}
	unsub   bool
	quietly bool // unsubscribed when all was delivered
	atUnsub int
	last    int // configurations supplied before it was quietly unsubscribed
	name    string
}

func (s *subscriber) snapshot() []*server.Config {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*server.Config{}, s.got...)
}

func c19Updates(t *mon.T) {
	r := t.Rand
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	total := 3 + r.IntN(20)
	seq := make([]*server.Config, total+1)
	for i := 1; i <= total; i++ {
		seq[i] = cfgN(i, []string{"a", "b", "c", "a", "b", "c", ""}[r.IntN(7)])
		if i > 1 && r.IntN(6) == 0 { // an update that changes nothing
			c := *seq[i-1]
			seq[i] = &c
			if r.IntN(2) == 0 { // or brings the same object once more
				seq[i] = seq[i-1]
			}
		}
	}
	var begun, taken atomic.Int64
	stop := make(chan struct{})
	var subs []*subscriber
	var pairMu sync.Mutex
	badPair := ""
	wrap := func(p predicate) server.ConfigChangedCheckFn {
		return func(o, n *server.Config) bool {
			ok := false
			hi := int(begun.Load())
			if n.Listen == "z" {
				ok = true // an update of the closing phase
			}
			for i := 1; i <= hi && !ok; i++ {
				if *seq[i] == *n && (o == nil || i > 1 && *seq[i-1] == *o) {
					ok = true
				}
			}
			if !ok {
				pairMu.Lock()
				if badPair == "" {
					badPair = fmt.Sprintf("check called with old %+v and new %+v", o, n)
				}
				pairMu.Unlock()
			}
			return p.f(o, n)
		}
	}
	names := ""
	var spare []chan *server.Config
	subscribe := func() {
		s := &subscriber{ch: make(chan *server.Config, []int{0, 0, 1, 5, 100}[r.IntN(5)]), quit: make(chan struct{}), ended: make(chan struct{})}
		if len(spare) > 0 && r.IntN(2) == 0 { // a channel that was subscribed before
			s.ch, spare = spare[0], spare[1:]
			s.name = "again+"
			t.Count("subscribed_again", 1)
		}
		for k := r.IntN(4); k > 0; k-- {
			p := predicates[r.IntN(len(predicates))]
			s.checks = append(s.checks, p)
			s.name += p.name + "+"
		}
		s.name = strings.TrimSuffix(s.name, "+")
		var fs []server.ConfigChangedCheckFn
		for _, p := range s.checks {
			fs = append(fs, wrap(p))
		}
		// What others have received was current before this call.
		for _, o := range subs {
			if g := o.snapshot(); len(g) > 0 {
				for i := 1; i <= total; i++ {
					if seq[i] == g[len(g)-1] {
						s.lo = max(s.lo, i)
						break
					}
				}
			}
		}
		slow := r.IntN(4) == 0
		pause := 1 + r.IntN(400)
		go func() {
			defer close(s.ended)
			for {
				select {
				case c, ok := <-s.ch:
					if !ok {
						return
					}
					s.mu.Lock()
					s.got = append(s.got, c)
					s.mu.Unlock()
					if slow {
						sleepUS(pause)
					}
				case <-s.quit:
					return
				}
			}
		}()
		done := make(chan struct{})
		var err error
		go func() { err = dist.Subscribe(s.ch, fs...); close(done) }()
		t.AwaitChan("subscribe", "Subscribe returns while its channel is read", done)
		if err != nil {
			t.Fail("subscribe", "Subscribe returns %v", err)
		}
		s.hi = int(begun.Load())
		subs = append(subs, s)
		names += fmt.Sprintf("[%s]@%d-%d ", s.name, s.lo, s.hi)
		t.Count("subscribers", 1)
	}
	expected := func(s *subscriber, at int) []*server.Config {
		ok := func(o, n *server.Config) bool {
			for _, p := range s.checks {
				if p.f(o, n) {
					return true
				}
			}
			return len(s.checks) == 0
		}
		var out []*server.Config
		if at > 0 && ok(nil, seq[at]) {
			out = append(out, seq[at])
		}
		last := int(begun.Load())
		if s.quietly {
			last = s.last
		}
		for i := at + 1; i <= last; i++ {
			var o *server.Config
			if i > 1 {
				o = seq[i-1]
			}
			if ok(o, seq[i]) {
				out = append(out, seq[i])
			}
		}
		return out
	}
	same := func(a, b []*server.Config) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] == nil || *a[i] != *b[i] {
				return false
			}
		}
		return true
	}
	prefix := func(a, b []*server.Config) bool { return len(a) <= len(b) && same(a, b[:len(a)]) }
	matches := func(s *subscriber, complete bool) bool {
		g := s.snapshot()
		for at := s.lo; at <= s.hi; at++ {
			e := expected(s, at)
			if complete && same(g, e) || !complete && prefix(g, e) {
				return true
			}
		}
		return false
	}
	show := func(cs []*server.Config) string {
		b := ""
		for _, c := range cs {
			if c == nil {
				b += "nil "
				continue
			}
			b += fmt.Sprintf("%d%s ", numOf(c), c.Listen)
		}
		return b
	}
	verify := func(s *subscriber, complete bool) {
		if complete && !s.unsub {
			t.Await("delivery", "subscriber ["+s.name+"] receives every relevant configuration", func() bool {
				return matches(s, true) || !matches(s, false)
			})
		}
		if !matches(s, complete && (!s.unsub || s.quietly)) {
			t.Fail("sequence", "subscriber [%s] that subscribed when between %d and %d of %s were supplied received %s", s.name, s.lo, s.hi, show(seq[1:begun.Load()+1]), show(s.snapshot()))
		}
	}
	unsubscribe := func(s *subscriber, quietly bool) {
		if quietly {
			verify(s, true)
		}
		done := make(chan struct{})
		go func() { dist.Unsubscribe(s.ch); close(done) }()
		t.AwaitChan("unsubscribe", "Unsubscribe returns", done)
		s.unsub, s.quietly, s.last = true, quietly, int(begun.Load())
		if r.IntN(3) == 0 { // it may be subscribed again
			close(s.quit)
			<-s.ended
			for len(s.ch) > 0 {
				s.mu.Lock()
				s.got = append(s.got, <-s.ch)
				s.mu.Unlock()
			}
			spare = append(spare, s.ch)
		} else {
			close(s.ch) // a later send would panic
			<-s.ended
		}
		s.atUnsub = len(s.snapshot())
		t.Count("unsubscribed", 1)
	}
	for k := r.IntN(4); k > 0; k-- {
		subscribe()
	}
	pushing := make(chan struct{})
	pace := r.IntN(4)
	ur := mon.NewRand(t.Seed ^ 9)
	concurrent := t.Int("concurrent") == 1
	push := func(i int) bool {
		begun.Store(int64(i))
		if !pushTo(src, seq[i], stop) {
			return false
		}
		taken.Store(int64(i))
		return true
	}
	if len(subs) == 0 {
		subscribe() // a distributor without subscribers takes nothing
	}
	if concurrent {
		go func() {
			defer close(pushing)
			for i := 1; i <= total; i++ {
				if pace > 0 {
					sleepUS(ur.IntN(200 * pace))
				}
				if !push(i) {
					return
				}
			}
		}()
		for k := 2 + r.IntN(6); k > 0; k-- {
			sleepUS(r.IntN(600))
			if t.Int("trigger") == 1 {
				wantTrigger(t, func() bool { return taken.Load() == int64(total) })
			}
			switch {
			case r.IntN(3) == 0:
				i := r.IntN(len(subs))
				if !subs[i].unsub {
					unsubscribe(subs[i], false)
				}
			default:
				subscribe()
			}
		}
		t.AwaitChan("taken", "configurations are taken while subscribers read", pushing)
	} else {
		close(pushing)
		for i := 1; i <= total; i++ {
			done := make(chan struct{})
			go func() { push(i); close(done) }()
			t.AwaitChan("taken", "configurations are taken while subscribers read", done)
			if r.IntN(3) == 0 { // settle, so that the moment of subscribing is known
				for _, s := range subs {
					verify(s, true)
				}
				lo := i
				if r.IntN(2) == 0 {
					subscribe()
					s := subs[len(subs)-1]
					for _, o := range subs[:len(subs)-1] {
						if !o.unsub && len(o.checks) == 0 {
							s.lo = lo // everyone saw it, so it was current
						}
					}
				}
				if r.IntN(4) == 0 {
					k := r.IntN(len(subs))
					if !subs[k].unsub {
						unsubscribe(subs[k], true)
					}
				}
			}
		}
	}
	for _, s := range subs {
		verify(s, true)
	}
	// Close while updates still arrive: nothing is sent afterwards.
	closeEarly := r.IntN(2) == 0
	extra := make(chan struct{})
	if closeEarly {
		go func() {
			defer close(extra)
			for i := 0; i < 5; i++ {
				if !pushTo(src, cfgN(1000+i, "z"), stop) {
					return
				}
			}
		}()
		sleepUS(r.IntN(300))
	} else {
		close(extra)
	}
	done := make(chan struct{})
	go func() { dist.Close(); close(done) }()
	t.AwaitChan("close", "Close returns", done)
	close(stop)
	t.AwaitChan("close", "the updater ends", extra)
	for _, s := range subs {
		if !s.unsub {
			close(s.ch)
			<-s.ended
		}
	}
	t.NoProductGoroutines("leak", "after close")
	for _, s := range subs {
		if s.unsub && len(s.snapshot()) != s.atUnsub {
			t.Fail("after", "subscriber [%s] received something after it was unsubscribed", s.name)
		}
	}
	pairMu.Lock()
	defer pairMu.Unlock()
	if badPair != "" {
		t.Fail("checks", "%s; configurations %s", badPair, show(seq[1:]))
	}
	t.Count("configurations", total)
	n := 0
	for _, s := range subs {
		n += len(s.snapshot())
	}
	t.Count("deliveries", n)
	t.Case(true, names, show(seq[1:]))
	t.Sample("configurations %s; subscribers %s", show(seq[1:]), names)
}

// ---- C20 ----

func c20Blocked(t *mon.T) {
	r := t.Rand
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	type sub struct {
		ch      chan *server.Config
		reads   int // how many it reads before it stops
		removed bool
	}
	var subs []*sub
	stop := make(chan struct{})
	var begun, seen atomic.Int64
	history := ""
	call := func(key, what string, f func()) {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		t.AwaitChan(key, what+" returns; "+history, done)
	}
	subscribe := func() {
		s := &sub{ch: make(chan *server.Config, r.IntN(3)), reads: []int{0, 0, 1, 2}[r.IntN(4)]}
		subs = append(subs, s)
		go func() {
			for i := 0; i < s.reads; i++ {
				select {
				case <-s.ch:
				case <-stop:
					return
				}
			}
		}()
		// Subscribing itself may wait for the channel, so it runs on its own.
		done := make(chan struct{})
		go func() { _ = dist.Subscribe(s.ch); close(done) }()
		t.AwaitSoftly(func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
		history += fmt.Sprintf("subscribe(cap %d, reads %d) ", cap(s.ch), s.reads)
		t.Count("blocked_subscribers", 1)
		if r.IntN(4) == 0 { // the same channel once more
			sleepUS(r.IntN(200))
			call("resubscribe", "subscribing a blocked channel again", func() { _ = dist.Subscribe(s.ch) })
			history += "resubscribe "
			t.Count("resubscribed", 1)
		}
	}
	// A good one.
	good := make(chan *server.Config, 1)
	if err := dist.Subscribe(good); err != nil {
		t.Inconclusive("subscribe: %v", err)
	}
	var goodWG sync.WaitGroup
	goodWG.Add(1)
	go func() {
		defer goodWG.Done()
		for c := range good {
			maxInt(&seen, int64(numOf(c)))
		}
	}()
	if r.IntN(2) == 0 {
		subscribe()
	}
	total := 6 + r.IntN(20)
	// Some wait for the first configuration.
	waiting := r.IntN(5)
	var waiters []chan struct{}
	for k := 0; k < waiting; k++ {
		done := make(chan struct{})
		waiters = append(waiters, done)
		go func() {
			defer close(done)
			if c, err := dist.Get(); (err != nil && err != server.ErrConfigDistributorClosed) || (err == nil && c == nil) {
				t.Report("get", "waiting for the first configuration ends with %v, %v", c, err)
			}
		}()
	}
	if waiting > 0 {
		history += fmt.Sprintf("%d waiting ", waiting)
		sleepUS(r.IntN(400))
		t.Count("waiting_readers", waiting)
	}
	pushed := make(chan struct{})
	ur := mon.NewRand(t.Seed ^ 3)
	burst := r.IntN(2) * (2 + r.IntN(6))
	go func() {
		defer close(pushed)
		for i := 1; i <= total; i++ {
			begun.Store(int64(i))
			if !pushTo(src, sparse(i, burst), stop) {
				return
			}
			if i > burst {
				sleepUS(ur.IntN(300))
			}
		}
	}()
	t.Await("first", "the first configuration arrives", func() bool { return seen.Load() > 0 })
	for _, w := range waiters {
		t.AwaitChan("get", "reading the first configuration returns; "+history, w)
	}
	for k := 3 + r.IntN(8); k > 0; k-- {
		if t.Int("trigger") == 1 && k == 3 {
			wantTrigger(t, func() bool { return seen.Load() == int64(total) })
		}
		switch r.IntN(5) {
		case 0, 1:
			subscribe()
		case 2:
			lo := seen.Load()
			call("get", "reading the configuration", func() {
				c, err := dist.Get()
				if err != nil || int64(numOf(c)) < lo {
					t.Report("get", "reading returns %v, %v while subscribers block; %s", c, err, history)
				}
			})
			history += "get "
		case 3:
			if len(subs) > 0 {
				s := subs[r.IntN(len(subs))]
				if !s.removed {
					call("unsubscribe", "unsubscribing a blocked channel", func() { dist.Unsubscribe(s.ch) })
					close(s.ch)
					s.removed = true
					history += "unsubscribe "
					t.Count("unsubscribed_blocked", 1)
				}
			}
		default:
			call("unsubscribe", "unsubscribing an unknown channel", func() { dist.Unsubscribe(make(chan *server.Config)) })
			sleepUS(r.IntN(500))
		}
	}
	early := r.IntN(2) == 0
	if !early {
		t.AwaitChan("updates", "configurations are taken although subscribers block; "+history, pushed)
		t.Await("others", "the other subscriber receives every configuration although subscribers block; "+history, func() bool { return seen.Load() == int64(total) })
		call("get", "reading the configuration", func() {
			if c, err := dist.Get(); err != nil || numOf(c) != total {
				t.Report("get", "reading returns %v, %v, not configuration %d; %s", c, err, total, history)
			}
		})
	}
	// Some subscribe while it is being closed.
	var late []*sub
	var lateWG sync.WaitGroup
	lr := mon.NewRand(t.Seed ^ 4)
	for k := r.IntN(4); k > 0; k-- {
		s := &sub{ch: make(chan *server.Config, lr.IntN(2))}
		late = append(late, s)
		pause, again := lr.IntN(60), lr.IntN(3) == 0
		lateWG.Add(1)
		go func() {
			defer lateWG.Done()
			sleepUS(pause)
			for {
				err := dist.Subscribe(s.ch)
				if err == server.ErrConfigDistributorClosed {
					return
				}
				if err != nil {
					t.Report("subscribe", "Subscribe returns %v", err)
					return
				}
				if !again {
					return
				}
			}
		}()
	}
	if len(late) > 0 {
		sleepUS(r.IntN(60))
		t.Count("subscribers_during_close", len(late))
	}
	n := 1 + r.IntN(2)
	for i := 0; i < n; i++ {
		call("close", "Close", dist.Close)
	}
	close(stop)
	t.AwaitChan("updates", "the updater ends", pushed)
	lates := make(chan struct{})
	go func() { lateWG.Wait(); close(lates) }()
	t.AwaitChan("subscribe", "subscribing during Close returns; "+history, lates)
	for _, s := range late {
		if r.IntN(2) == 0 {
			call("unsubscribe", "Unsubscribe after Close", func() { dist.Unsubscribe(s.ch) })
			close(s.ch)
		}
	}
	for _, s := range subs {
		if !s.removed {
			if r.IntN(2) == 0 {
				call("unsubscribe", "Unsubscribe after Close", func() { dist.Unsubscribe(s.ch) })
			}
			close(s.ch)
		}
	}
	close(good)
	goodWG.Wait()
	t.NoProductGoroutines("leak", "after close; "+history)
	t.Case(true, history, total, early, t.Plan.Points)
	t.Count("configurations", int(begun.Load()))
	t.Sample("%d configurations; %s", total, history)
}

// ---- C21 ----

func c21Event(t *mon.T) {
	r := t.Rand
	var fired, observations int
	for i := 0; i < t.Int("n"); i++ {
		e := server.NewEvent()
		if e.HasFired() {
			t.Fail("unfired", "a new event reports fired")
		}
		select {
		case <-e.Done():
			t.Fail("unfired", "the channel of a new event is closed")
		default:
		}
		n, waiters, pollers := 1+r.IntN(6), r.IntN(4), r.IntN(4)
		var wins atomic.Int64
		var bad atomic.Value
		fail := func(s string) { bad.CompareAndSwap(nil, s) }
		var wg sync.WaitGroup
		gate := make(chan struct{})
		isDone := func() bool {
			select {
			case <-e.Done():
				return true
			default:
				return false
			}
		}
		var begun atomic.Bool
		for k := 0; k < n; k++ {
			again := r.IntN(3) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				begun.Store(true)
				if e.Fire() {
					wins.Add(1)
				}
				d := isDone()
				if !e.HasFired() {
					fail("HasFired is false after Fire returned")
				}
				if !d {
					fail("the channel is open after Fire returned")
				}
				if again && e.Fire() {
					wins.Add(1)
				}
			}()
		}
		for k := 0; k < waiters; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-e.Done()
				if !e.HasFired() {
					fail("the channel is closed but HasFired is false")
				}
				if !begun.Load() {
					fail("the channel is closed although nobody fired the event")
				}
			}()
		}
		polled := atomic.Int64{}
		for k := 0; k < pollers; k++ {
			mode := k % 2
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					polled.Add(1)
					if mode == 0 {
						if isDone() {
							if !e.HasFired() {
								fail("the channel is closed but HasFired is false")
							}
							return
						}
					} else if e.HasFired() {
						if !begun.Load() {
							fail("HasFired is true although nobody fired the event")
						}
						return
					}
					runtime.Gosched()
				}
			}()
		}
		if r.IntN(4) == 0 {
			sleepUS(r.IntN(50))
			if e.HasFired() || isDone() {
				t.Fail("unfired", "an event nobody fired reports fired")
			}
		}
		close(gate)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		t.AwaitChan("released", fmt.Sprintf("every call of Fire returns and every waiter is released (%d calls, %d waiters)", n, waiters), done)
		if w := wins.Load(); w != 1 {
			t.Fail("exactly-one", "%d of %d calls report that they fired the event", w, n)
		}
		if m := bad.Load(); m != nil {
			t.Fail("visible", "%v (%d calls, %d waiters, %d pollers)", m, n, waiters, pollers)
		}
		fired += n
		observations += int(polled.Load()) + waiters
		t.Case(n > 1, n, waiters, pollers, t.Plan.Points, i)
	}
	t.Count("fire_calls", fired)
	t.Count("observations", observations)
	t.Sample("%d events, plan %+v", t.Int("n"), t.Plan)
}

func init() {
	files := []string{"pkg/server/config_distributor.go", "pkg/server/event.go"}
	withSweep := func(r *mon.Run, scenario string, p map[string]int, profiles, hits, delayUS int) []mon.Task {
		var profile []mon.Task
		for k := 0; k < profiles; k++ {
			q := map[string]int{"trigger": 1}
			for a, b := range p {
				q[a] = b
			}
			profile = append(profile, r.Task(scenario, q))
		}
		return sweep(r, files, profile, hits, delayUS)
	}
	mon.Register(&mon.Property{
		ID: "C18",
		Rule: "1-8 concurrent readers, 0-2 subscribers, up to 12 numbered configurations over sources of capacity 0-8, close by call (1-3 at once) or end of the source at random moments and at each statement of the distributor (site sweep), random schedules; distinct by parameters and seed. " +
			"Oracle: single-writer register on numbered values (bounds from reads and receptions that finished before, and from supplies that began), closed errors, no read left hanging.",
		Scenarios:   map[string]func(*mon.T){"reads": c18Reads, "crowd": c18Crowd},
		MinDistinct: 500,
		Plan: func(r *mon.Run) {
			ts := withSweep(r, "reads", map[string]int{"mode": 1}, r.Pick(6, 40), r.Pick(3, 8), 3000)
			sites := sitesOf(r, files...)
			for i := 0; i < r.Pick(3000, 60000); i++ {
				tk := r.Task("reads", map[string]int{"mode": i % 2})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(12, 100); i++ {
				ts = append(ts, r.Task("crowd", map[string]int{"n": []int{300, 2000, 10000}[i%3]}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID: "C19",
		Rule: "sequences of 3-22 configurations (some changing nothing) against subscribers with 0-3 of nine kinds of checks and channels of capacity 0-100, fast and slow, subscribing and unsubscribing between and during updates (also at each statement of the distributor), closing during updates; distinct by subscribers and sequence. " +
			"Oracle: reference filter over the sequence for some subscription point within the observed bounds; arguments of the checks; channels closed right after unsubscribing (a late send panics).",
		Scenarios:   map[string]func(*mon.T){"updates": c19Updates, "backlog": c19Backlog},
		MinDistinct: 500,
		Plan: func(r *mon.Run) {
			ts := withSweep(r, "updates", map[string]int{"concurrent": 1}, r.Pick(4, 30), r.Pick(3, 8), 3000)
			sites := sitesOf(r, files...)
			for i := 0; i < r.Pick(1500, 30000); i++ {
				tk := r.Task("updates", map[string]int{"concurrent": i % 2})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(8, 60); i++ {
				ts = append(ts, r.Task("backlog", map[string]int{"n": []int{20000, 3000, 100000}[i%3], "width": i % 2 * 2000}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID: "C20",
		Rule: "subscribers that never read or stop reading (capacity 0-2) beside a good one, while up to 25 configurations arrive, the configuration is read, blocked channels are unsubscribed and closed, and the distributor is closed, at random moments and at each statement of the distributor; distinct by history. " +
			"Oracle: quiescence (no call hangs), the good subscriber gets everything, no panic from closed channels, no goroutine left.",
		Scenarios:   map[string]func(*mon.T){"blocked": c20Blocked},
		MinDistinct: 300,
		Plan: func(r *mon.Run) {
			ts := withSweep(r, "blocked", nil, r.Pick(4, 30), r.Pick(3, 8), 3000)
			sites := sitesOf(r, files...)
			for i := 0; i < r.Pick(1500, 30000); i++ {
				tk := r.Task("blocked", nil)
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C21",
		Rule:        "1-6 concurrent firing goroutines, waiters and pollers, with each statement of the event's code delayed in turn (and pairs of them) and random noise; an event with several firing goroutines is a case, distinct by parameters, plan and number. Oracle: counts of reports, flag and channel seen after each call and after each observation, release of everyone.",
		Scenarios:   map[string]func(*mon.T){"event": c21Event},
		MinDistinct: 1000,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, "pkg/server/event.go")
			var ts []mon.Task
			for k := 0; k < r.Pick(3, 20); k++ {
				for _, a := range sites {
					tk := r.Task("event", map[string]int{"n": r.Pick(40, 200)})
					tk.Plan = sched.Plan{Seed: r.Rand.Uint64(), Noise: 200, MaxSleepUS: 50, Points: []sched.Point{{Site: a, First: 1 + r.Rand.IntN(4), Count: 40, DelayUS: 50 + r.Rand.IntN(800)}}}
					if k > 0 && len(sites) > 1 {
						tk.Plan.Points = append(tk.Plan.Points, sched.Point{Site: sites[r.Rand.IntN(len(sites))], First: 1, Count: 60, DelayUS: 20 + r.Rand.IntN(500)})
					}
					ts = append(ts, tk)
				}
			}
			for i := 0; i < r.Pick(60, 1000); i++ {
				tk := r.Task("event", map[string]int{"n": 1000})
				tk.Plan = randomPlan(r.Rand, nil)
				tk.Plan.MaxSleepUS = min(tk.Plan.MaxSleepUS, 200)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
}
