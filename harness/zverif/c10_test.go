package zverif

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
)

// C10: every subscriber receives every update, once and in order.
// C11: a queued update is processed by exactly one subscriber.

func init() {
	reg("C10", "churn", 800, 8000, func(c *C) { c10churn(c, false) })
	reg("C10", "stall", 400, 4000, c10stall)
	reg("C11", "churn", 800, 8000, func(c *C) { c10churn(c, true) })
	reg("C11", "turns", 300, 3000, c11turns)
	reg("C11", "lag", 10, 50, c11lag)
	reg("C11", "shared", 300, 3000, c11shared)
	reg("C11", "faults", 150, 1500, c11faults)
}

func c10addrs(c *C, method string) []addr {
	all := []addr{{method, nil}, {method, []string{"t1"}}, {method, []string{"t1", "t2"}}, {method, []string{"t2"}}, {mNormal, nil}, {mNormal, []string{"t1"}}}
	if method == mSub {
		all[4].method, all[5].method = mMulti, mMulti
	}
	n := 1 + c.Rand.Intn(4)
	c.Rand.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:n]
}

func c10churn(c *C, queue bool) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	method := mSub
	if queue {
		method = mQSub
	}
	addrs := c10addrs(c, method)
	eps := 1 + r.Intn(3)
	if queue && n.kind == kNats {
		// members of a NATS queue group serve all addresses of a subject, see C22
		for i := range addrs {
			addrs[i].method = method
		}
		addrs = uniqAddrs(addrs)
	}
	f := newAPIFabric(c, n, eps, addrs)
	p := f.pubsub(queue)
	pl := psPlan{eps: eps, pubs: 1 + r.Intn(3), actors: r.Intn(5), stays: r.Intn(3), dur: time.Duration(200+r.Intn(1500)) * time.Millisecond,
		gap: []time.Duration{time.Millisecond, 5 * time.Millisecond, 30 * time.Millisecond}[r.Intn(3)], sizes: []int{1, 2, 100}, minStay: time.Duration(50+r.Intn(2000)) * time.Millisecond}
	if r.Intn(4) == 0 {
		p.big = []int{2000, 5001}[r.Intn(2)]
	}
	if r.Intn(3) == 0 {
		pl.stallProb, pl.stallMax = 0.05, 200*time.Millisecond
	}
	if pl.stays == 0 && pl.actors == 0 {
		pl.stays = 1
	}
	for ep := 0; ep < eps; ep++ {
		f.server(ep)
		for _, sz := range pl.sizes {
			f.client(ep, sz)
		}
	}
	c.Settle()
	c.Shape("q=%v eps=%d pubs=%d actors=%d stays=%d gap=%v stall=%v n=%d", queue, eps, pl.pubs, pl.actors, pl.stays, pl.gap, pl.stallProb, len(addrs))
	if p.run(pl, len(addrs)) == 0 {
		c.Trivial()
	}
}

func uniqAddrs(as []addr) []addr {
	seen := map[string]bool{}
	var out []addr
	for _, a := range as {
		if !seen[a.String()] {
			seen[a.String()] = true
			out = append(out, a)
		}
	}
	return out
}

// c10stall: one subscriber stops reading for long, then reads again or closes; the others
// get everything in the end.
func c10stall(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	addrs := []addr{{mSub, nil}, {mSub, []string{"x"}}}
	eps := 1 + r.Intn(2)
	f := newAPIFabric(c, n, eps, addrs)
	p := f.pubsub(false)
	size := []int{1, 2, 5}[r.Intn(3)]
	for ep := 0; ep < eps; ep++ {
		f.server(ep)
		f.client(ep, size)
		f.client(ep, 100)
	}
	c.Settle()
	how := r.Intn(3) // resumes, closes while stalled, closes while stalled and drains later
	c.Shape("how=%d size=%d eps=%d", how, size, eps)
	stall := time.Duration(1+r.Intn(20)) * time.Second
	first := true
	_, closeStalled, err := p.subscribe(r.Intn(eps), 0, size, func() time.Duration {
		if first {
			first = false
			return stall
		}
		return 0
	})
	must(err)
	var cls []func()
	for i := 0; i < 1+r.Intn(3); i++ {
		_, cl, err := p.subscribe(r.Intn(eps), r.Intn(2), 100, nil)
		must(err)
		cls = append(cls, cl)
	}
	c.Settle()
	done := make(chan struct{})
	pr := c.NewRand(6)
	go func() {
		defer close(done)
		for seq := 0; seq < 40; seq++ {
			ep := pr.Intn(eps)
			p.send(ep, seq%2, ep, seq)
		}
	}()
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	// a newcomer and a leaver during the stall
	late := c.NewRand(5)
	go func() {
		_, cl, err := p.subscribe(late.Intn(eps), 0, 100, nil)
		if err == nil {
			p.mu.Lock()
			cls = append(cls, cl)
			p.mu.Unlock()
		}
	}()
	if how > 0 {
		time.Sleep(time.Duration(r.Intn(800)) * time.Millisecond)
		if !c.Within(c.Slack()+time.Second, closeStalled) {
			c.Violate("close-hangs", "closing a stalled subscription did not return\n%s", psrpcStacks())
		}
	}
	if !c.Within(stall+30*time.Second, func() { <-done }) {
		c.Violate("stuck", "publishing did not finish after the stalled subscriber had resumed or closed\n%s", psrpcStacks())
		return
	}
	time.Sleep(stall + 2*p.drain + time.Second)
	req := p.check(time.Now())
	c.Count("deliveries_required", req)
	if req == 0 {
		c.Trivial()
	}
	p.mu.Lock()
	all := append([]func(){}, cls...)
	p.mu.Unlock()
	for _, cl := range all {
		cl()
	}
	if how == 0 {
		closeStalled()
	}
	time.Sleep(p.drain + time.Second)
}

// c11turns: idle subscribers of one local bus are served in turn, whoever has left before.
func c11turns(c *C) {
	r := c.Rand
	n := c.NewNet(kLocal)
	addrs := []addr{{mQSub, nil}, {mQSub, []string{"t"}}}
	f := newAPIFabric(c, n, 1, addrs)
	p := f.pubsub(true)
	f.server(0)
	f.client(0, 100)
	type member struct {
		s  *psSub
		cl func()
	}
	var ms []member
	join := func() {
		s, cl, err := p.subscribe(0, 0, 100, nil)
		must(err)
		ms = append(ms, member{s, cl})
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		join()
	}
	seq := 0
	phases := 2 + r.Intn(4)
	c.Shape("k=%d phases=%d", len(ms), phases)
	checked := 0
	for ph := 0; ph < phases; ph++ {
		k := len(ms)
		var who []string
		var order []int
		rounds := 1 + r.Intn(3)
		for i := 0; i < k*rounds+r.Intn(3); i++ {
			x := p.send(0, 0, 0, seq)
			seq++
			time.Sleep(c.Slack())
			p.mu.Lock()
			by := -1
			for _, s := range p.subs {
				for _, g := range s.got {
					if g.val == x.val {
						by = s.id
					}
				}
			}
			p.mu.Unlock()
			order = append(order, by)
			who = append(who, strconv1(by))
		}
		for i := 0; i+k <= len(order); i++ {
			seen := map[int]bool{}
			for _, b := range order[i : i+k] {
				seen[b] = true
			}
			checked++
			if len(seen) != k {
				c.Violate("turns", "%d idle subscribers, but consecutive updates went to %v", k, who)
				break
			}
		}
		c.Ev("turns %v", who)
		// someone leaves, someone joins
		for j := 0; j < r.Intn(3); j++ {
			if len(ms) > 1 && r.Intn(2) == 0 {
				i := r.Intn(len(ms))
				ms[i].cl()
				ms = append(ms[:i], ms[i+1:]...)
			} else {
				join()
			}
		}
	}
	c.Count("turn_windows", checked)
	time.Sleep(c.Slack())
	p.check(time.Now())
	for _, m := range ms {
		m.cl()
	}
	time.Sleep(c.Slack())
}

func strconv1(i int) string { return fmt.Sprint(i) }

// c11shared: several queue subscribers on one endpoint, and others elsewhere.
func c11shared(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	eps := 1 + r.Intn(2)
	addrs := []addr{{mQSub, []string{"t"}}}
	f := newAPIFabric(c, n, eps, addrs)
	p := f.pubsub(true)
	for ep := 0; ep < eps; ep++ {
		f.server(ep)
		f.client(ep, 100)
	}
	c.Settle()
	var cls []func()
	k := 2 + r.Intn(4)
	for i := 0; i < k; i++ {
		_, cl, err := p.subscribe(r.Intn(eps), 0, 100, nil)
		must(err)
		cls = append(cls, cl)
	}
	c.Settle()
	c.Shape("k=%d eps=%d", k, eps)
	for i := 0; i < 20; i++ {
		ep := r.Intn(eps)
		p.send(ep, 0, ep, i)
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
		}
	}
	time.Sleep(p.drain + time.Second)
	req := p.check(time.Now())
	if req < 20 {
		c.Trivial()
	}
	c.Count("deliveries_required", req)
	// leave one by one; those who stay serve everything
	seq := 20
	for len(cls) > 1 {
		cls[0]()
		cls = cls[1:]
		time.Sleep(p.drain)
		ep := r.Intn(eps)
		p.send(ep, 0, ep, seq)
		seq++
		time.Sleep(p.drain)
	}
	time.Sleep(p.drain + time.Second)
	p.check(time.Now())
	cls[0]()
	time.Sleep(c.Slack())
}

// c11lag: on Redis, a queue subscriber reads updates long after another has processed them.
func c11lag(c *C) {
	r := c.Rand
	n := c.NewNet(kRedis)
	addrs := []addr{{mQSub, []string{"t"}}}
	f := newAPIFabric(c, n, 2, addrs)
	p := f.pubsub(true)
	f.server(0)
	f.client(0, 1)
	f.client(1, 1)
	c.Settle()
	lag := time.Duration(1+r.Intn(9)) * time.Second
	c.Shape("lag=%v", lag)
	_, cl0, err := p.subscribe(0, 0, 1, nil)
	must(err)
	first := true
	_, cl1, err := p.subscribe(1, 0, 1, func() time.Duration {
		if first {
			first = false
			return lag
		}
		return 0
	})
	must(err)
	c.Settle()
	for i := 0; i < 12; i++ {
		p.send(0, 0, 0, i)
	}
	time.Sleep(lag + p.drain + time.Second)
	c.Count("deliveries_required", p.check(time.Now()))
	cl0()
	cl1()
	time.Sleep(c.Slack())
}

// c11faults: commands by which the subscribers on Redis agree on who takes an update fail
// for a while. What is published then may be lost, but is never taken twice.
func c11faults(c *C) {
	r := c.Rand
	n := c.NewNet(kRedis)
	svc := c.SvcName()
	k := 2 + r.Intn(3)
	ch := bus.Channel{Legacy: svc + "|q", Server: svc + ".q"}
	var pubB psrpc.MessageBus
	type got struct{ n, by int }
	var mu sync.Mutex
	recv := map[string]*got{}
	var subs []bus.Subscription[str]
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		b := n.Endpoint()
		if i == 0 {
			pubB = b
		}
		s, err := bus.SubscribeQueue[str](context.Background(), b, ch, 100)
		must(err)
		subs = append(subs, s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range s.Channel() {
				mu.Lock()
				g := recv[m.Value]
				if g == nil {
					g = &got{}
					recv[m.Value] = g
				}
				g.n++
				c.Ev("got %d %s", i, m.Value)
				mu.Unlock()
			}
		}()
	}
	c.Settle()
	how, pct := r.Intn(3), 20+r.Intn(60)
	fr := c.LRand(5)
	hits := 0
	fault := func(on bool) {
		n.redis.mu.Lock()
		defer n.redis.mu.Unlock()
		n.redis.onCommand, n.redis.killBefore, n.redis.killAfter = nil, nil, nil
		if !on {
			return
		}
		hit := func(cmd string) bool {
			if cmd != "SET" && cmd != "SETNX" || fr.Intn(100) >= pct {
				return false
			}
			hits++
			return true
		}
		switch how {
		case 0:
			n.redis.onCommand = func(_ *redisConn, cmd string, _ []string) string {
				if hit(cmd) {
					return "LOADING injected"
				}
				return ""
			}
		case 1:
			n.redis.killBefore = func(_ *redisConn, cmd string, _ []string) bool { return hit(cmd) }
		case 2:
			n.redis.killAfter = func(_ *redisConn, cmd string, _ []string) bool { return hit(cmd) }
		}
	}
	c.Cleanup(func() { fault(false) })
	c.Shape("k=%d how=%d pct=%d", k, how, pct)
	sent := map[string]bool{} // must it arrive?
	var order []string
	for phase := 0; phase < 3; phase++ {
		on := phase == 1
		fault(on)
		for i := 0; i < 8; i++ {
			v := fmt.Sprintf("u%d-%d-%d", nextUniq(), phase, i)
			sent[v] = !on
			order = append(order, v)
			if err := pubB.Publish(context.Background(), ch, S(v)); err != nil {
				c.Violate("publish", "%v", err)
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			}
		}
		time.Sleep(2*time.Second + c.Slack())
	}
	for _, s := range subs {
		s.Close()
	}
	if !c.Within(10*time.Second, wg.Wait) {
		c.Violate("never-closed", "closed queue subscriptions keep their channels open")
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, v := range order {
		g := recv[v]
		switch {
		case g == nil && sent[v]:
			c.Violate("lost", "update %s was delivered to nobody although no command failed", v)
		case g != nil && g.n > 1:
			c.Violate("twice", "update %s was delivered %d times", v, g.n)
		}
		delete(recv, v)
	}
	for v := range recv {
		c.Violate("changed", "update %q was never published", v)
	}
	c.Count("lock_commands_failed", hits)
	if hits == 0 {
		c.Trivial()
	}
}
