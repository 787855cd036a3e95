package zverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/info"
)

// C22: the NATS bus shares subjects without losing or crossing messages.

func init() {
	reg("C22", "routes", 900, 9000, c22routes)
	reg("C22", "first", 400, 4000, c22first)
	reg("C22", "fail", 300, 3000, c22fail)
	reg("C22", "closing", 500, 5000, c22closing)
	reg("C22", "types", 60, 600, c22types)
	reg("C22", "split", 20, 200, c22split)
}

// natsFabric uses the bus API directly: many methods over few subjects.
type natsFabric struct {
	c     *C
	n     *Net
	eps   []psrpc.MessageBus
	chans []bus.Channel
	queue []bool
}

func newNatsFabric(c *C, eps int, svc string, chans []info.RequestInfo) *natsFabric {
	f := &natsFabric{c: c, n: c.FreshNet(kNats)}
	for i := 0; i < eps; i++ {
		f.eps = append(f.eps, f.n.Endpoint())
	}
	for _, ri := range chans {
		f.chans = append(f.chans, ri.GetRPCChannel())
		f.queue = append(f.queue, ri.Queue)
	}
	return f
}

func (f *natsFabric) subscribe(ep, ch, size int) (bus.Subscription[str], error) {
	if f.queue[ch] {
		return bus.SubscribeQueue[str](context.Background(), f.eps[ep], f.chans[ch], size)
	}
	return bus.Subscribe[str](context.Background(), f.eps[ep], f.chans[ch], size)
}

func (f *natsFabric) pubsub() *pubsub {
	p := &pubsub{c: f.c, uniq: nextUniq(), byVal: map[string]*psPub{}, queue: f.queue}
	p.open = f.subscribe
	p.publish = func(ep, ch int, val string) error {
		return f.eps[ep].Publish(context.Background(), f.chans[ch], S(val))
	}
	p.drain = f.c.Slack()
	p.settle, p.sameEP = f.c.Slack(), true
	return p
}

// checkSubs compares the subscriptions held by the server with the live subscribers.
func (f *natsFabric) checkSubs(want map[string]int, when string) {
	got := f.n.nats.subjects()
	for s, n := range want {
		if got[s] != n {
			f.c.Violate("subscription-count", "%s: subject %s has %d NATS subscriptions, want %d", when, s, got[s], n)
		}
	}
	for s, n := range got {
		if want[s] == 0 {
			f.c.Violate("subscription-left", "%s: subject %s has %d NATS subscriptions although no subscriber is open", when, s, n)
		}
	}
	f.c.Count("subscription_checks", 1)
}

func c22infos(c *C, svc string, queue bool, methods, topics int) (out []info.RequestInfo) {
	for t := 0; t < topics; t++ {
		var topic []string
		if t > 0 {
			topic = []string{fmt.Sprintf("t%d", t)}
		}
		for m := 0; m < methods; m++ {
			ri := info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: svc, Method: fmt.Sprintf("M%d", m), Topic: topic}, Queue: queue}
			out = append(out, ri)
		}
	}
	return
}

func c22routes(c *C) {
	r := c.Rand
	svc := c.SvcName()
	queue := r.Intn(3) == 0
	eps := 1 + r.Intn(2)
	if queue {
		eps = 1 // another member of the queue group would take messages for methods it does not serve
	}
	nm, nt := 1+r.Intn(4), 1+r.Intn(2)
	infos := c22infos(c, svc, queue, nm, nt)
	f := newNatsFabric(c, eps, svc, infos)
	p := f.pubsub()
	if r.Intn(3) == 0 {
		f.n.nats.mu.Lock()
		rr := c.LRand(9)
		f.n.nats.latency = func() time.Duration { return time.Duration(rr.Intn(3)) * time.Millisecond }
		f.n.nats.mu.Unlock()
		p.drain += 2 * time.Second
	}
	pl := psPlan{eps: eps, pubs: 1 + r.Intn(3), actors: 1 + r.Intn(6), stays: r.Intn(2), dur: time.Duration(200+r.Intn(1200)) * time.Millisecond,
		gap: []time.Duration{time.Millisecond, 5 * time.Millisecond, 30 * time.Millisecond}[r.Intn(3)], sizes: []int{1, 2, 100},
		minStay: time.Duration(1+r.Intn(3)*r.Intn(700)) * time.Millisecond}
	if r.Intn(4) == 0 {
		pl.stallProb, pl.stallMax = 0.05, 100*time.Millisecond
	}
	c.Shape("q=%v eps=%d m=%d t=%d actors=%d stays=%d gap=%v minStay=%v", queue, eps, nm, nt, pl.actors, pl.stays, pl.gap, pl.minStay)
	if p.run(pl, len(infos)) == 0 {
		c.Trivial()
	}
	f.checkSubs(map[string]int{}, "after all subscribers closed")
}

// c22first: subscribers race to open the same subject; each gets what is published once
// its own Subscribe has returned.
func c22first(c *C) {
	r := c.Rand
	svc := c.SvcName()
	infos := c22infos(c, svc, false, 3, 1)
	f := newNatsFabric(c, 1, svc, infos)
	p := f.pubsub()
	k := 2 + r.Intn(3)
	rounds := 1 + r.Intn(4)
	c.Shape("k=%d rounds=%d", k, rounds)
	var seqMu sync.Mutex
	seq := map[int]int{}
	for round := 0; round < rounds; round++ {
		var mu sync.Mutex
		var cls []func()
		var fs []func()
		for i := 0; i < k; i++ {
			ch := r.Intn(3)
			d := time.Duration(r.Intn(3)) * time.Microsecond
			n := round*10 + i
			fs = append(fs, func() {
				time.Sleep(d)
				_, cl, err := p.subscribe(0, ch, 10, nil)
				if err != nil {
					c.Violate("subscribe-error", "%v", err)
					return
				}
				seqMu.Lock()
				s := seq[n]
				seq[n]++
				seqMu.Unlock()
				p.send(0, ch, n, s)
				mu.Lock()
				cls = append(cls, cl)
				mu.Unlock()
			})
		}
		if !c.Par(time.Minute, fs...) {
			c.Violate("stuck", "subscribing did not return\n%s", psrpcStacks())
			return
		}
		time.Sleep(p.drain)
		subj := f.chans[0].Server
		f.checkSubs(map[string]int{subj: 1}, "while subscribers are open")
		var cs []func()
		cs = append(cs, cls...)
		if r.Intn(2) == 0 && round+1 < rounds {
			// closing overlaps with the openings of the next round
			go func() {
				for _, cl := range cs {
					cl()
				}
			}()
		} else {
			c.Par(time.Minute, cs...)
		}
	}
	time.Sleep(p.drain + time.Second)
	c.Count("deliveries_required", p.check(time.Now()))
	f.checkSubs(map[string]int{}, "after all subscribers closed")
}

// c22fail: subscribing fails for everyone or no one; nothing is left of a failure.
func c22fail(c *C) {
	r := c.Rand
	svc := c.SvcName()
	f := newNatsFabric(c, 1, svc, c22infos(c, svc, r.Intn(2) == 0, 3, 1))
	mode := r.Intn(3)
	c.Shape("mode=%d", mode)
	base := c.LeakBase()
	subj := f.chans[0].Server
	direct := bus.Channel{Legacy: "L" + svc, Server: "CLI." + svc}
	switch mode {
	case 0: // the connection is closed
		f.n.nconns[0].Close()
		time.Sleep(c.Slack())
	case 1: // invalid subjects
		for i := range f.chans {
			f.chans[i].Server = "SRV. ." + svc
		}
		direct.Server = "CLI. ." + svc
	case 2: // works
	}
	p := f.pubsub()
	var fs []func()
	var mu sync.Mutex
	okN, errN := 0, 0
	var cls []func()
	k := 2 + r.Intn(4)
	for i := 0; i < k; i++ {
		ch := r.Intn(3)
		fs = append(fs, func() {
			_, cl, err := p.subscribe(0, ch, 1, nil)
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				okN++
				cls = append(cls, cl)
			} else {
				errN++
			}
		})
	}
	fs = append(fs, func() {
		s, err := bus.Subscribe[str](context.Background(), f.eps[0], direct, 1)
		mu.Lock()
		defer mu.Unlock()
		if err == nil {
			okN++
			cls = append(cls, func() { s.Close() })
		} else {
			errN++
		}
	})
	for round := 0; round < 2; round++ {
		okN, errN = 0, 0
		if !c.Par(time.Minute, fs...) {
			c.Violate("stuck", "subscribing did not return\n%s", psrpcStacks())
			return
		}
		c.Ev("round %d ok=%d err=%d", round, okN, errN)
		if mode != 2 && okN > 0 {
			c.Violate("false-success", "%d of %d subscribers were told they are subscribed, but no NATS subscription can exist", okN, okN+errN)
		}
		if mode == 2 && errN > 0 {
			c.Violate("false-failure", "%d subscribers failed", errN)
		}
	}
	for _, cl := range cls {
		cl()
	}
	if mode == 1 {
		// a valid subject works afterwards on the same bus
		for i := range f.chans {
			f.chans[i].Server = subj
		}
		_, cl, err := p.subscribe(0, 0, 1, nil)
		if err != nil {
			c.Violate("false-failure", "subscribing after failures: %v", err)
			return
		}
		p.send(0, 0, 99, 0)
		time.Sleep(p.drain + time.Second)
		if p.check(time.Now()) == 0 {
			c.Trivial()
		}
		f.checkSubs(map[string]int{subj: 1}, "after failures")
		cl()
	}
	time.Sleep(c.Slack())
	f.checkSubs(map[string]int{}, "at the end")
	c.LeakCheck(base, "leak")
}

// c22closing: closing while messages keep arriving, and reading or not reading them.
func c22closing(c *C) {
	r := c.Rand
	svc := c.SvcName()
	infos := c22infos(c, svc, r.Intn(2) == 0, 2, 1)
	f := newNatsFabric(c, 1, svc, infos)
	f.chans = append(f.chans, bus.Channel{Legacy: "L" + svc, Server: "CLI." + svc})
	f.queue = append(f.queue, r.Intn(2) == 0)
	p := f.pubsub()
	base := c.LeakBase()
	k := 1 + r.Intn(4)
	reads := r.Intn(3) > 0
	c.Shape("k=%d reads=%v q=%v", k, reads, infos[0].Queue)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	pr := c.NewRand(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 400; i++ {
			select {
			case <-stop:
				return
			default:
			}
			p.send(0, pr.Intn(3), 0, i)
			if pr.Intn(4) == 0 {
				time.Sleep(time.Duration(pr.Intn(2000)) * time.Microsecond)
			}
		}
	}()
	closedN := 0
	var mu sync.Mutex
	var fs []func()
	for i := 0; i < k; i++ {
		rr := c.NewRand(10 + i)
		fs = append(fs, func() {
			for j := 0; j < 6; j++ {
				ch, size := rr.Intn(3), 1+rr.Intn(2)
				if !reads {
					s, err := f.subscribe(0, ch, size)
					if err != nil {
						c.Violate("subscribe-error", "%v", err)
						return
					}
					time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
					s.Close()
				} else {
					_, cl, err := p.subscribe(0, ch, size, nil)
					if err != nil {
						c.Violate("subscribe-error", "%v", err)
						return
					}
					time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
					cl()
				}
				mu.Lock()
				closedN++
				mu.Unlock()
			}
		})
	}
	if !c.Par(time.Minute, fs...) {
		c.Violate("close-hangs", "closing a subscriber while messages arrive did not return\n%s", psrpcStacks())
		return
	}
	close(stop)
	if !c.Within(time.Minute, wg.Wait) {
		c.Violate("stuck", "publishing did not return\n%s", psrpcStacks())
		return
	}
	time.Sleep(p.drain + time.Second)
	if reads {
		p.check(time.Now())
	}
	c.Count("closed_while_receiving", closedN)
	f.checkSubs(map[string]int{}, "at the end")
	c.LeakCheck(base, "leak")
}

// c22types: a queue and broadcast subscribers of other methods may have the same subject
// (the queue "SRV.Service.Q" and the topic "Q"); the same channel cannot be both, and the
// refused one leaves no trace.
func c22types(c *C) {
	r := c.Rand
	svc := c.SvcName()
	f := newNatsFabric(c, 1+r.Intn(2), svc, c22infos(c, svc, true, 2, 1))
	f.chans[1].Server = f.chans[0].Server
	same := c.idx%2 == 0
	if same {
		f.chans[1].Local = f.chans[0].Local
		f.eps = f.eps[:1]
	}
	f.queue[0] = r.Intn(2) == 0
	f.queue[1] = !f.queue[0]
	c.Shape("same=%v queue=%v eps=%d", same, f.queue[0], len(f.eps))
	subj := f.chans[0].Server
	p := f.pubsub()
	_, cl, err := p.subscribe(0, 0, 1, nil)
	must(err)
	closes := []func(){cl}
	_, cl, err = p.subscribe(len(f.eps)-1, 1, 1, nil)
	switch {
	case same && err == nil:
		c.Violate("mixed", "a channel is shared by a queue and a broadcast subscriber")
		closes = append(closes, cl)
	case same && !strings.Contains(err.Error(), "mismatch"):
		c.Violate("mixed", "%v", err)
	case !same && err != nil:
		c.Violate("mixed", "a queue and another method's topic with the same subject: %v", err)
	case !same:
		closes = append(closes, cl)
	}
	time.Sleep(c.Slack())
	f.checkSubs(map[string]int{subj: len(closes)}, "while open")
	for k := 0; k < 3; k++ {
		p.send(0, 0, 0, k)
		if !same {
			p.send(len(f.eps)-1, 1, 0, k)
		}
	}
	time.Sleep(p.drain)
	c.Count("deliveries_required", p.check(time.Now()))
	r.Shuffle(len(closes), func(i, j int) { closes[i], closes[j] = closes[j], closes[i] })
	for i, cl := range closes {
		cl()
		time.Sleep(c.Slack())
		f.checkSubs(map[string]int{subj: len(closes) - 1 - i}, "while closing")
	}
	_, cl, err = p.subscribe(0, 1, 1, nil)
	if err != nil {
		c.Violate("false-failure", "subscribing after the other kind had closed: %v", err)
		return
	}
	p.send(0, 1, 0, 99)
	time.Sleep(p.drain)
	c.Count("deliveries_required", p.check(time.Now()))
	cl()
	time.Sleep(c.Slack())
	f.checkSubs(map[string]int{}, "at the end")
}

// c22split: two processes register different queue routes of one service and topic (known
// finding: they share one NATS queue group, which hands either of them messages it has no
// route for).
func c22split(c *C) {
	r := c.Rand
	svc := c.SvcName()
	f := newNatsFabric(c, 2, svc, c22infos(c, svc, true, 2, 1))
	a, err := f.subscribe(0, 0, 100)
	b, err2 := f.subscribe(1, 1, 100)
	if err != nil || err2 != nil {
		c.Violate("subscribe-error", "%v %v", err, err2)
		return
	}
	time.Sleep(c.Slack())
	n := 4 + r.Intn(12)
	c.Shape("n=%d", n)
	for i := 0; i < n; i++ {
		_ = f.eps[r.Intn(2)].Publish(context.Background(), f.chans[i%2], S(fmt.Sprint(i)))
	}
	time.Sleep(c.Slack())
	got := map[string]int{}
	for k, s := range []bus.Subscription[str]{a, b} {
		for {
			select {
			case m := <-s.Channel():
				got[m.GetValue()]++
				if i := 0; true {
					fmt.Sscan(m.GetValue(), &i)
					if i%2 != k {
						c.Violate("crossed", "message %d of route %d reached route %d", i, i%2, k)
					}
				}
				c.Ev("got %d %s", k, m.GetValue())
				continue
			default:
			}
			break
		}
	}
	for i := 0; i < n; i++ {
		switch got[fmt.Sprint(i)] {
		case 0:
			c.ViolateKey("lost", "nats-queue-group-split", "message %d of route %d reached no subscriber although its route is registered", i, i%2)
		case 1:
			c.Count("deliveries_required", 1)
		default:
			c.Violate("twice", "message %d was delivered %d times", i, got[fmt.Sprint(i)])
		}
	}
	_ = a.Close()
	_ = b.Close()
}
