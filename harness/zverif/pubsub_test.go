package zverif

import (
	"context"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

// The recorder and offline checker of published and delivered updates, shared by the
// properties about subscriptions (C10, C11, C21, C22).

type psGot struct {
	val string
	at  time.Time
}

type psSub struct {
	id       int
	ch       int // index of the address
	ep       int // endpoint
	openCall time.Time
	opened   time.Time
	closing  time.Time // Close called (zero: never)
	closed   time.Time // Close returned
	ended    time.Time // channel closed
	stalls   [][2]time.Time
	got      []psGot
}

type psPub struct {
	val        string
	ch         int
	ep         int
	pub, seq   int
	start, end time.Time
	err        error
}

type pubsub struct {
	c     *C
	mu    sync.Mutex
	subs  []*psSub
	pubs  []*psPub
	byVal map[string]*psPub
	queue []bool // per address

	open    func(ep, ch, size int) (bus.Subscription[str], error)
	publish func(ep, ch int, val string) error
	settle  time.Duration // from Subscribe's return until publications must reach it
	drain   time.Duration // from a publication's end until it must have been delivered
	sameEP  bool          // the settle time is 0 when publisher and subscriber share the endpoint
	exactNo bool          // nothing published before subscribing may be delivered
	redis   bool
	win     [][2]time.Time
	big     int // >0: payload padding
	uniq    int // keeps the payloads of cases that share a Redis apart
}

func (p *pubsub) pad(v string) string {
	if p.big == 0 {
		return v
	}
	if p.big%2 == 1 { // messages that differ at the end only
		return strings.Repeat(" ", p.big) + v
	}
	return v + " " + strings.Repeat(v, 1+p.big/len(v))
}

// subscribe opens a subscription and reads it until it is closed; stall gives the pauses
// of the reader after each message.
func (p *pubsub) subscribe(ep, ch, size int, stall func() time.Duration) (*psSub, func(), error) {
	s := &psSub{ch: ch, ep: ep, openCall: tick()}
	sub, err := p.open(ep, ch, size)
	if err != nil {
		return nil, nil, err
	}
	p.mu.Lock()
	s.opened = tick()
	s.id = len(p.subs)
	p.subs = append(p.subs, s)
	p.mu.Unlock()
	p.c.Ev("join %d %d", s.id, ch)
	go func() {
		for {
			if stall != nil {
				if d := stall(); d > 0 {
					p.mu.Lock()
					s.stalls = append(s.stalls, [2]time.Time{time.Now(), time.Now().Add(d)})
					p.mu.Unlock()
					time.Sleep(d)
				}
			}
			m, ok := <-sub.Channel()
			p.mu.Lock()
			if !ok {
				s.ended = time.Now()
				p.mu.Unlock()
				return
			}
			if m == nil {
				p.mu.Unlock()
				p.c.Violate("nil-message", "a nil update was delivered")
				continue
			}
			s.got = append(s.got, psGot{m.Value, time.Now()})
			p.mu.Unlock()
			name, _, _ := strings.Cut(strings.TrimLeft(m.Value, " "), "~")
			p.c.Ev("got %d %s", s.id, name)
		}
	}()
	return s, func() {
		p.mu.Lock()
		s.closing = tick()
		p.mu.Unlock()
		p.c.Ev("leave %d", s.id)
		switch s.id % 4 {
		case 1: // closed again while being closed
			go func() { _ = sub.Close() }()
		case 2: // closed again, maybe after another one was opened
			time.AfterFunc(time.Duration(1+s.id%7*50)*time.Millisecond, func() { _ = sub.Close() })
		}
		if !p.c.Within(10*time.Minute, func() { sub.Close() }) {
			p.c.Violate("close-hangs", "closing a subscription did not return\n%s", psrpcStacks())
		}
		p.mu.Lock()
		s.closed = tick()
		p.mu.Unlock()
	}, nil
}

// send publishes the next update of a publisher.
func (p *pubsub) send(ep, ch, pub, seq int) *psPub {
	x := &psPub{ch: ch, ep: ep, pub: pub, seq: seq, val: p.pad(fmt.Sprintf("c%d.p%d.%d~%d", ch, pub, seq, p.uniq)), start: tick()}
	p.mu.Lock()
	p.pubs = append(p.pubs, x)
	p.byVal[x.val] = x
	p.mu.Unlock()
	err := p.publish(ep, ch, x.val)
	p.mu.Lock()
	x.end, x.err = tick(), err
	p.mu.Unlock()
	p.c.Ev("pub %d %d.%d", ch, pub, seq)
	return x
}

func (p *pubsub) settled(s *psSub, x *psPub) time.Time {
	if p.sameEP && s.ep == x.ep {
		return s.opened
	}
	return s.opened.Add(p.settle)
}

// windows lists the pauses of all readers, cut at their Close.
func (p *pubsub) windows() (out [][2]time.Time) {
	for _, s := range p.subs {
		for _, w := range s.stalls {
			a, b := w[0], w[1]
			if !s.closing.IsZero() && s.closing.Before(b) {
				b = s.closing
				if a.After(b) {
					continue
				}
			}
			out = append(out, [2]time.Time{a, b})
		}
	}
	return
}

// stalledDuring: the latest end of a pause (of any subscriber) overlapping the interval.
func (p *pubsub) stalledDuring(from, to time.Time) (last time.Time) {
	for _, w := range p.win {
		if !w[0].After(to) && !w[1].Before(from) && w[1].After(last) {
			last = w[1]
		}
	}
	return
}

// check judges the whole history; end is when everything had time to be delivered.
// It returns the number of deliveries that were required and happened.
func (p *pubsub) check(end time.Time) (required int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.c
	p.win = p.windows()
	delivered := map[string][]*psSub{}
	for _, s := range p.subs {
		last := map[int]int{}
		seen := map[string]bool{}
		for _, g := range s.got {
			x := p.byVal[g.val]
			if x == nil {
				c.Violate("altered", "subscriber %d of address %d got an update nobody published: %.80q", s.id, s.ch, g.val)
				continue
			}
			if x.ch != s.ch {
				c.Violate("crossed", "subscriber %d of address %d got %s, published to address %d", s.id, s.ch, x.val, x.ch)
				continue
			}
			if seen[g.val] {
				c.Violate("duplicate", "subscriber %d got %.40s twice", s.id, g.val)
			}
			seen[g.val] = true
			if l, ok := last[x.pub]; ok && l >= x.seq {
				c.Violate("order", "subscriber %d got update %d of publisher %d after update %d", s.id, x.seq, x.pub, l)
			}
			last[x.pub] = x.seq
			if p.exactNo && x.end.Before(s.openCall) && !x.end.IsZero() {
				c.Violate("before-subscribing", "subscriber %d, opened at %v, got an update published at %v", s.id, s.openCall.Sub(c.start), x.end.Sub(c.start))
			}
			if p.exactNo && !s.closed.IsZero() && x.start.After(s.closed) {
				c.Violate("after-close", "subscriber %d got an update published after it had closed", s.id)
			}
			delivered[g.val] = append(delivered[g.val], s)
		}
		if !s.closing.IsZero() && s.ended.IsZero() && s.closing.Add(p.drain).Before(end) && p.stalledDuring(s.closing, end).IsZero() {
			c.Violate("not-closed", "the channel of subscriber %d is not closed %v after Close", s.id, end.Sub(s.closing))
		}
		if s.closing.IsZero() && !s.ended.IsZero() {
			c.Violate("closed-early", "the channel of subscriber %d was closed without Close", s.id)
		}
	}
	for _, x := range p.pubs {
		if x.err != nil {
			c.Violate("publish-error", "publishing failed: %v", x.err)
			continue
		}
		if x.end.IsZero() {
			c.Violate("publish-hangs", "publishing %.40s did not return\n%s", x.val, psrpcStacks())
			continue
		}
		got := delivered[x.val]
		if !p.queue[x.ch] {
			for _, s := range p.subs {
				if s.ch != x.ch || x.start.Before(p.settled(s, x)) || !s.closing.IsZero() && s.closing.Before(x.end) {
					continue
				}
				if !p.lasts(s, x, end) {
					continue
				}
				ok := false
				for _, g := range got {
					ok = ok || g == s
				}
				required++
				if !ok {
					c.Violate("lost", "subscriber %d (address %d, open from %v to %v) did not get %.40s, published at %v..%v", s.id, s.ch, s.opened.Sub(c.start), sub0(s.closing, c.start), x.val, x.start.Sub(c.start), x.end.Sub(c.start))
				}
			}
			continue
		}
		if len(got) > 1 {
			key := ""
			for _, s := range got {
				for _, g := range s.got {
					if g.val == x.val && p.redis && g.at.Sub(x.end) > 4900*time.Millisecond {
						key = "redis-lock-expired"
					}
				}
			}
			c.ViolateKey("twice", key, "queued update %.40s was delivered to %d subscribers (%d on endpoint %d and %d on endpoint %d)", x.val, len(got), got[0].id, got[0].ep, got[1].id, got[1].ep)
		}
		// required when someone lasts and nobody comes or goes meanwhile
		someone, quiet := false, true
		for _, s := range p.subs {
			if s.ch != x.ch {
				continue
			}
			if !s.closing.IsZero() && s.closed.Before(x.start.Add(-p.drain)) && !s.closed.IsZero() {
				continue // gone long before
			}
			if s.openCall.After(x.end.Add(p.drain)) {
				continue // came long after
			}
			if x.start.Before(p.settled(s, x)) {
				// joining: may serve it or not
				if !p.lasts(s, x, end) {
					quiet = false
				}
				continue
			}
			if p.lasts(s, x, end) {
				someone = true
			} else if !(p.sameEP && s.ep == x.ep && !s.closed.IsZero() && s.closed.Before(x.start)) {
				quiet = false // leaving: may have taken it along
			}
		}
		if someone && quiet {
			required++
			if len(got) == 0 {
				c.Violate("lost", "queued update %.40s, published at %v, was delivered to nobody", x.val, x.start.Sub(c.start))
			}
		}
	}
	return
}

func sub0(t, base time.Time) string {
	if t.IsZero() {
		return "the end"
	}
	return t.Sub(base).String()
}

// lasts: s stays subscribed (and, with everybody's pauses over, had time to read) after x.
func (p *pubsub) lasts(s *psSub, x *psPub, end time.Time) bool {
	lim := end
	if !s.closing.IsZero() {
		lim = s.closing
	}
	from := x.end
	if st := p.stalledDuring(x.start.Add(-p.drain), lim); st.After(from) {
		from = st
	}
	return !from.Add(p.drain).After(lim)
}

// ---- addresses ----

type addr struct {
	method string
	topic  []string
}

func (a addr) String() string { return a.method + "/" + strings.Join(a.topic, "/") }

// apiFabric serves open/publish through the public API.
type apiFabric struct {
	c     *C
	n     *Net
	svc   string
	addrs []addr
	eps   []psrpc.MessageBus
	sd    *info.ServiceDefinition

	mu  sync.Mutex
	cls map[string]*client.RPCClient
	srv map[int]*server.RPCServer
}

func newAPIFabric(c *C, n *Net, eps int, addrs []addr) *apiFabric {
	f := &apiFabric{c: c, n: n, svc: c.SvcName(), addrs: addrs, cls: map[string]*client.RPCClient{}, srv: map[int]*server.RPCServer{}}
	for i := 0; i < eps; i++ {
		f.eps = append(f.eps, n.Endpoint())
	}
	return f
}

func (f *apiFabric) client(ep, size int) *client.RPCClient {
	f.mu.Lock()
	defer f.mu.Unlock()
	k := strconv.Itoa(ep) + "/" + strconv.Itoa(size)
	if f.cls[k] == nil {
		f.cls[k] = f.c.Client(f.eps[ep], f.svc, "", psrpc.WithClientChannelSize(size))
	}
	return f.cls[k]
}

func (f *apiFabric) server(ep int) *server.RPCServer {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.srv[ep] == nil {
		f.srv[ep] = f.c.Server(f.eps[ep], f.svc, "")
	}
	return f.srv[ep]
}

func (f *apiFabric) pubsub(queue bool) *pubsub {
	p := &pubsub{c: f.c, uniq: nextUniq(), byVal: map[string]*psPub{}}
	for range f.addrs {
		p.queue = append(p.queue, queue)
	}
	p.open = func(ep, ch, size int) (bus.Subscription[str], error) {
		a := f.addrs[ch]
		if queue {
			return client.JoinQueue[str](context.Background(), f.client(ep, size), a.method, a.topic)
		}
		return client.Join[str](context.Background(), f.client(ep, size), a.method, a.topic)
	}
	p.publish = func(ep, ch int, val string) error {
		a := f.addrs[ch]
		return f.server(ep).Publish(context.Background(), a.method, a.topic, S(val))
	}
	p.drain = f.c.Slack()
	switch f.n.kind {
	case kLocal:
		p.exactNo, p.sameEP = true, true
		p.settle = 0
	case kRedis:
		p.settle = f.c.Slack() // subscribing is asynchronous
		p.redis = true
	case kNats:
		p.settle, p.sameEP = f.c.Slack(), true
	}
	return p
}

// stallFn pauses the reader now and then.
func stallFn(r *rand.Rand, prob float64, max time.Duration) func() time.Duration {
	return func() time.Duration {
		if r.Float64() < prob {
			return time.Duration(r.Int63n(int64(max)))
		}
		return 0
	}
}

// run drives publishers and coming and going subscribers for the given time.
type psPlan struct {
	eps, pubs, actors int
	stays             int // subscribers that stay to the end, per address
	dur               time.Duration
	gap               time.Duration
	stallProb         float64
	stallMax          time.Duration
	sizes             []int
	minStay           time.Duration
}

func (p *pubsub) run(pl psPlan, naddr int) (required int) {
	c := p.c
	r := c.Rand
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var closers []func()
	k := 0
	for a := 0; a < naddr; a++ {
		for i := 0; i < pl.stays; i++ {
			rr := c.NewRand(1000 + k)
			k++
			_, cl, err := p.subscribe(r.Intn(pl.eps), a, pl.sizes[r.Intn(len(pl.sizes))], stallFn(rr, pl.stallProb, pl.stallMax))
			if err != nil {
				c.Violate("subscribe-error", "subscribing failed: %v", err)
				return
			}
			closers = append(closers, cl)
		}
	}
	for i := 0; i < pl.actors; i++ {
		rr := c.NewRand(2000 + i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				time.Sleep(time.Duration(rr.Int63n(int64(pl.gap*4) + 1)))
				var st func() time.Duration
				if rr.Intn(2) == 0 {
					st = stallFn(c.NewRand(rr.Int()), pl.stallProb, pl.stallMax)
				}
				_, cl, err := p.subscribe(rr.Intn(pl.eps), rr.Intn(naddr), pl.sizes[rr.Intn(len(pl.sizes))], st)
				if err != nil {
					c.Violate("subscribe-error", "subscribing failed: %v", err)
					return
				}
				time.Sleep(time.Duration(rr.Int63n(int64(pl.minStay) + 1)))
				cl()
			}
		}()
	}
	for i := 0; i < pl.pubs; i++ {
		rr := c.NewRand(3000 + i)
		ep := rr.Intn(pl.eps)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for seq := 0; seq < 150; seq++ {
				select {
				case <-stop:
					return
				default:
				}
				p.send(ep, rr.Intn(naddr), i, seq)
				time.Sleep(time.Duration(rr.Int63n(int64(pl.gap) + 1)))
			}
		}()
	}
	time.Sleep(pl.dur)
	close(stop)
	if !c.Within(10*time.Minute, wg.Wait) {
		c.Violate("stuck", "publishers or subscribers did not finish\n%s", psrpcStacks())
		return
	}
	time.Sleep(pl.stallMax*2 + 2*p.drain + time.Second)
	// late pauses of readers end eventually
	for i := 0; i < 200; i++ {
		p.mu.Lock()
		last := time.Time{}
		for _, s := range p.subs {
			for _, w := range s.stalls {
				if w[1].After(last) {
					last = w[1]
				}
			}
		}
		p.mu.Unlock()
		if d := time.Until(last) + 2*p.drain; d > 0 {
			time.Sleep(d)
		} else {
			break
		}
	}
	end := time.Now()
	req := p.check(end)
	for _, cl := range closers {
		cl()
	}
	time.Sleep(p.drain + 2*pl.stallMax + time.Second)
	p.mu.Lock()
	p.win = p.windows()
	for _, s := range p.subs {
		if s.ended.IsZero() {
			if w := p.stalledDuring(s.closing, time.Now()); w.After(time.Now().Add(-p.drain)) {
				continue
			}
			n := 0
			for _, w := range s.stalls {
				if w[1].After(s.closing) {
					n++
				}
			}
			if n > 3 {
				continue // still pausing between the updates it had not read
			}
			c.Violate("not-closed", "the channel of subscriber %d is not closed %v after Close", s.id, time.Since(s.closing))
			break
		}
	}
	p.mu.Unlock()
	c.Count("deliveries_required", req)
	c.Count("published", len(p.pubs))
	c.Count("subscriptions", len(p.subs))
	return req
}

var uniqSeq int

func nextUniq() int { uniqSeq++; return uniqSeq }

var uniqMu sync.Mutex

func nextUniqSync() int { uniqMu.Lock(); defer uniqMu.Unlock(); return nextUniq() }
