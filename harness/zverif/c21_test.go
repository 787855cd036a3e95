package zverif

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/redis/go-redis/v9"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
)

// C21: the Redis bus recovers its subscriptions and keeps order.

func init() {
	reg("C21", "subs", 2400, 24000, c21subs)
	reg("C21", "publish", 1200, 12000, c21publish)
	reg("C21", "reply", 150, 1500, c21reply)
}

// redisEnv is one bus on a server of its own; cases share it while it is sound, since
// buses cannot be closed.
type redisEnv struct {
	rd      *fakeRedis
	rc      redis.UniversalClient
	bus     psrpc.MessageBus
	retries int
	uses    int
}

var c21envs = map[int]*redisEnv{}

func c21env(retries int) *redisEnv {
	e := c21envs[retries]
	if e == nil || e.uses >= 12 {
		rd := newFakeRedis()
		rd.keepPubLog = true
		e = &redisEnv{rd: rd, retries: retries}
		e.rc = redis.NewClient(&redis.Options{
			Addr: "fake:6379", Dialer: rd.dial, DisableIdentity: true, PoolSize: 40, MaxRetries: retries, Protocol: 2,
			DialTimeout: 2 * time.Second, ReadTimeout: 2 * time.Second, WriteTimeout: 2 * time.Second, DialerRetries: 1, ConnMaxIdleTime: -1,
		})
		e.bus = psrpc.NewRedisMessageBus(e.rc)
		c21envs[retries] = e
	}
	e.uses++
	e.rd.mu.Lock()
	e.rd.pubLog = nil
	e.rd.mu.Unlock()
	return e
}

func (e *redisEnv) drop() { delete(c21envs, e.retries) }

// heal ends every fault and discards the dead connections of the pool.
func (e *redisEnv) heal() {
	e.rd.mu.Lock()
	e.rd.refuseDial, e.rd.refuseDialN = false, 0
	e.rd.onCommand, e.rd.killBefore, e.rd.killAfter, e.rd.failWrite, e.rd.latency = nil, nil, nil, nil, nil
	e.rd.mu.Unlock()
}

func (e *redisEnv) flushPool() {
	ctx := context.Background()
	var cs []*redis.Conn
	for i := 0; i < 30; i++ {
		cn := e.rc.(*redis.Client).Conn()
		cn.Ping(ctx)
		cs = append(cs, cn)
	}
	for _, cn := range cs {
		cn.Close()
	}
}

func envelope(m proto.Message) string {
	v, err := proto.Marshal(m)
	must(err)
	b, err := proto.Marshal(&internal.Msg{TypeUrl: "type.googleapis.com/" + string(m.ProtoReflect().Descriptor().FullName()), Value: v})
	must(err)
	return string(b)
}

// faultPlan runs a random sequence of faults and ends them.
func (e *redisEnv) faultPlan(c *C, r *lrand, n int, cmds []string) {
	rd := e.rd
	hit := func(p float64, cmd string) bool {
		for _, x := range cmds {
			if x == cmd {
				return r.Float64() < p
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		time.Sleep([]time.Duration{0, r.Ms(20), r.Ms(400), r.Ms(2500)}[r.Intn(4)])
		k := r.Intn(9)
		switch k {
		case 0: // connections with subscriptions
			rd.killAll(func(rc *redisConn) bool { return len(rc.subs) > 0 })
		case 1:
			rd.killAll(nil)
		case 2: // the server is gone for a while
			rd.mu.Lock()
			rd.refuseDial = true
			rd.mu.Unlock()
			if r.Intn(3) > 0 {
				rd.killAll(nil)
			}
			time.Sleep(r.Ms([]int{1000, 5000, 5000, 120000}[r.Intn(4)]))
			rd.mu.Lock()
			rd.refuseDial = false
			rd.mu.Unlock()
		case 3:
			rd.mu.Lock()
			rd.refuseDialN = 1 + r.Intn(6)
			rd.mu.Unlock()
			rd.killAll(nil)
		case 4, 5, 6, 7:
			p := []float64{0.2, 0.5, 1}[r.Intn(3)]
			f := func(rc *redisConn, cmd string, args []string) bool { return hit(p, cmd) }
			rd.mu.Lock()
			switch k {
			case 4:
				rd.killBefore = f
			case 5:
				rd.killAfter = f
			case 6:
				rd.failWrite = func(data string) bool {
					for _, x := range cmds {
						if strings.Contains(data, "\r\n"+strings.ToLower(x)+"\r\n") {
							return r.Float64() < p
						}
					}
					return false
				}
			case 7:
				d := []int{5, 200, 2600}[r.Intn(3)]
				rd.latency = func(conn int) time.Duration { return r.Ms(d) }
			}
			rd.mu.Unlock()
			time.Sleep(r.Ms(3000))
			rd.mu.Lock()
			rd.killBefore, rd.killAfter, rd.failWrite, rd.latency = nil, nil, nil, nil
			rd.mu.Unlock()
		case 8: // a connection, whichever
			one := false
			rd.killAll(func(rc *redisConn) bool {
				if one || r.Intn(2) == 0 {
					return false
				}
				one = true
				return true
			})
		}
		c.Ev("fault %d", k)
		c.Count(fmt.Sprintf("faults.%d", k), 1)
	}
}

type c21sub struct {
	ch    string
	queue bool
	sub   bus.Subscription[str]
	open  bool
	mu    sync.Mutex
	got   []string
}

func c21subs(c *C) {
	r := c.LRand(1)
	e := c21env([]int{-1, 3}[r.Intn(2)])
	svc := c.SvcName()
	ok := false
	defer func() {
		e.heal()
		if !ok || c.Violated() {
			e.drop()
		}
	}()
	nch := 1 + r.Intn(5)
	name := func(i int) string { return fmt.Sprintf("%s|%d", svc, i) }
	workers := 1 + r.Intn(3)
	nf := r.Intn(5)
	pace := []int{0, 20, 400, 1500}[r.Intn(4)]
	c.Shape("nch=%d workers=%d faults=%d pace=%d retries=%d", nch, workers, nf, pace, e.retries)
	var mu sync.Mutex
	var subs []*c21sub
	sent := map[string]string{} // value -> channel
	rounds := 1 + r.Intn(2)
	rounding := 0
	var fs []func()
	steps := 2 + r.Intn(14)
	work := func() {
		var mine []*c21sub
		for i := 0; i < steps; i++ {
			if pace > 0 {
				time.Sleep(r.Ms(pace))
			}
			if len(mine) == 0 || r.Intn(2) == 0 {
				s := &c21sub{ch: name(r.Intn(nch)), queue: r.Intn(3) == 0, open: true}
				ch := psrpc.Channel{Legacy: s.ch, Server: s.ch}
				var err error
				if s.queue {
					s.sub, err = bus.SubscribeQueue[str](context.Background(), e.bus, ch, 100)
				} else {
					s.sub, err = bus.Subscribe[str](context.Background(), e.bus, ch, 100)
				}
				if err != nil {
					c.Violate("subscribe", "%v", err)
					return
				}
				go func() {
					for m := range s.sub.Channel() {
						s.mu.Lock()
						s.got = append(s.got, m.Value)
						s.mu.Unlock()
					}
				}()
				mine = append(mine, s)
				mu.Lock()
				subs = append(subs, s)
				mu.Unlock()
				c.Ev("sub %s", s.ch[len(svc):])
			} else {
				k := r.Intn(len(mine))
				s := mine[k]
				mine = append(mine[:k], mine[k+1:]...)
				if err := s.sub.Close(); err != nil {
					c.Violate("close", "%v", err)
				}
				mu.Lock()
				s.open = false
				mu.Unlock()
				c.Ev("unsub %s", s.ch[len(svc):])
			}
		}
	}
	inject := func(ch string) string {
		v := fmt.Sprintf("%s#%d", svc, nextUniqSync())
		mu.Lock()
		sent[v] = ch
		mu.Unlock()
		e.rd.inject(ch, envelope(S(v)))
		return v
	}
	for ; rounding < rounds; rounding++ {
		fs = nil
		for i := 0; i < workers; i++ {
			fs = append(fs, work)
		}
		fs = append(fs, func() { e.faultPlan(c, r, nf, []string{"SUBSCRIBE", "UNSUBSCRIBE"}) })
		if r.Intn(2) == 0 {
			fs = append(fs, func() {
				for i := 0; i < 10; i++ {
					time.Sleep(r.Ms(800))
					inject(name(r.Intn(nch)))
				}
			})
		}
		if !c.Par(10*time.Minute, fs...) {
			c.Violate("hang", "subscribing and closing while Redis fails hangs\n%s", psrpcStacks())
			return
		}
		e.heal()
		desired := func() map[string]int {
			d := map[string]int{}
			for _, s := range subs {
				if s.open {
					d[s.ch] = 1
				}
			}
			return d
		}
		actual := func() map[string]int {
			m := e.rd.subscribed()
			for k := range m {
				if !strings.HasPrefix(k, svc+"|") {
					c.Violate("foreign", "Redis has a subscription to %q", k)
				}
			}
			return m
		}
		want := desired()
		time.Sleep(6*time.Second + 2*c.Slack())
		if got := actual(); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Violate("converge", "Redis has been reachable for 6s, and is subscribed to %v, local subscribers: %v", got, want)
			return
		}
		e.flushPool()
		for probe := 0; probe < 2; probe++ {
			// the channels without subscribers too
			for i := 0; i < nch; i++ {
				v := inject(name(i))
				time.Sleep(3 * c.Slack())
				inGroup, group := 0, 0
				for k, s := range subs {
					n := 0
					s.mu.Lock()
					for _, g := range s.got {
						if g == v {
							n++
						}
					}
					s.mu.Unlock()
					switch {
					case !s.open || s.ch != name(i):
						if n > 0 {
							c.Violate("foreign", "subscriber %d of %s (open: %v) got %s sent on %s", k, s.ch, s.open, v, name(i))
						}
					case s.queue:
						inGroup += n
						group++
					case n != 1:
						c.Violate("delivery", "subscriber %d of %s got %s %d times after recovery", k, s.ch, v, n)
					default:
						c.Count("deliveries_after_recovery", 1)
					}
				}
				if group > 0 && inGroup != 1 {
					c.Violate("delivery", "the %d queue subscribers of %s got %s %d times after recovery", group, name(i), v, inGroup)
				}
			}
			time.Sleep(20 * time.Second)
			if got := actual(); fmt.Sprint(got) != fmt.Sprint(want) {
				c.Violate("stay", "later, Redis is subscribed to %v, local subscribers: %v", got, want)
				return
			}
			if probe == 0 && r.Intn(2) == 0 {
				// nothing is forgotten: a later loss of the connection recovers the same
				e.rd.killAll(nil)
				time.Sleep(3*time.Second + c.Slack())
				e.flushPool()
				if got := actual(); fmt.Sprint(got) != fmt.Sprint(want) {
					c.Violate("converge", "after a loss of the connection Redis is subscribed to %v, local subscribers: %v", got, want)
					return
				}
			}
		}
		c.Ev("converged %d", len(want))
		c.Count("convergences", 1)
		c.Count("channels_subscribed", len(want))
	}
	for k, s := range subs {
		s.mu.Lock()
		at := map[string]bool{}
		for _, g := range s.got {
			if at[g] || sent[g] != s.ch {
				c.Violate("delivery", "subscriber %d of %s got %s (sent on %s) among %v", k, s.ch, g, sent[g], s.got)
			}
			at[g] = true
		}
		s.mu.Unlock()
	}
	for _, s := range subs {
		if s.open {
			s.sub.Close()
		}
	}
	time.Sleep(c.Slack() * 3)
	if got := e.rd.subscribed(); len(got) != 0 {
		c.Violate("converge", "all subscribers are closed, and Redis is subscribed to %v", got)
	}
	if b := c21busState(e.bus); b != "" {
		c.Violate("state", "all subscribers are closed, and the bus holds %s", b)
	}
	ok = true
}

func c21busState(b psrpc.MessageBus) string {
	s := busState(b)
	var keys []string
	for k, n := range s {
		if n > 0 {
			keys = append(keys, fmt.Sprint(k, "=", n))
		}
	}
	sort.Strings(keys)
	return strings.Join(keys, " ")
}

type c21pub struct {
	ch         string
	start, end int64
	faulty     bool
}

func c21publish(c *C) {
	r := c.LRand(1)
	e := c21env([]int{-1, 3}[r.Intn(2)])
	svc := c.SvcName()
	ok := false
	defer func() {
		e.heal()
		if !ok || c.Violated() {
			e.drop()
		}
	}()
	e.flushPool()
	nch := 1 + r.Intn(4)
	nf := 0
	if r.Intn(2) == 0 {
		nf = 1 + r.Intn(4)
	} else if r.Intn(2) == 0 {
		// slow, but sound
		d := []int{3, 300, 1000}[r.Intn(3)]
		e.rd.mu.Lock()
		var lmu sync.Mutex
		last := map[int]time.Time{}
		e.rd.latency = func(conn int) time.Duration { // of a batch of replies; they time out after 2s
			lmu.Lock()
			defer lmu.Unlock()
			if time.Now().Equal(last[conn]) {
				return 0
			}
			x := r.Ms(d)
			last[conn] = time.Now().Add(x)
			return x
		}
		e.rd.mu.Unlock()
	}
	workers := 1 + r.Intn(4)
	cnt := []int{3, 20, 120}[r.Intn(3)]
	pace := []int{0, 3, 100}[r.Intn(3)]
	big := r.Intn(6) == 0
	c.Shape("nch=%d workers=%d faults=%d cnt=%d pace=%d big=%v", nch, workers, nf, cnt, pace, big)
	c.Shape("retries=%d", e.retries)
	// some commands are refused by the server, others are not concerned
	refuse := r.Intn(5) == 0
	refused := sync.Map{}
	if refuse {
		e.rd.mu.Lock()
		e.rd.onCommand = func(rc *redisConn, cmd string, args []string) string {
			if cmd == "PUBLISH" && mix64(c.seed+uint64(len(args[1]))*31+uint64(args[1][len(args[1])-1]))%4 == 0 {
				refused.Store(args[1], true) // also when the client tries again
				return "ERR refused (injected)"
			}
			return ""
		}
		e.rd.mu.Unlock()
	}
	var mu sync.Mutex
	pubs := map[string]*c21pub{} // by payload
	vals := map[string]string{}
	var seq atomic.Int64
	one := func(ch int, v string) {
		x := &c21pub{ch: fmt.Sprintf("%s|%d", svc, ch)}
		env := envelope(S(v))
		mu.Lock()
		pubs[env] = x
		vals[env] = v[:min(len(v), 30)]
		mu.Unlock()
		x.start = seq.Add(1)
		t0 := time.Now()
		err := e.bus.Publish(context.Background(), psrpc.Channel{Legacy: x.ch, Server: x.ch}, S(v))
		x.end = seq.Add(1)
		if err != nil {
			c.Violate("publish", "%v", err)
		}
		if d := time.Since(t0); d > c.Slack() {
			c.Violate("publish", "publishing took %v", d)
		}
	}
	var fs []func()
	for w := 0; w < workers; w++ {
		fs = append(fs, func() {
			for i := 0; i < cnt; i++ {
				v := fmt.Sprintf("%s.%d.%d.%d", svc, w, i, nextUniqSync())
				if big && r.Intn(5) == 0 {
					v += strings.Repeat("x", 1<<(10+r.Intn(8)))
				}
				one(r.Intn(nch), v)
				if pace > 0 && r.Intn(2) == 0 {
					time.Sleep(r.Ms(pace))
				}
			}
		})
	}
	if nf > 0 {
		fs = append(fs, func() { e.faultPlan(c, r, nf, []string{"PUBLISH"}) })
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "publishing hangs\n%s", psrpcStacks())
		return
	}
	// whatever is queued is sent, or fails
	time.Sleep(20*time.Second + time.Duration(cnt)*3*time.Second)
	e.heal()
	e.flushPool()
	time.Sleep(c.Slack())
	after := map[string]bool{}
	for ch := 0; ch < nch; ch++ {
		// after the failures everything is sent
		for i := 0; i < 5; i++ {
			v := fmt.Sprintf("%s.after.%d.%d", svc, ch, nextUniqSync())
			after[envelope(S(v))] = true
			one(ch, v)
		}
	}
	time.Sleep(2*c.Slack() + 2*time.Second)
	e.rd.mu.Lock()
	log := append([]redisPub(nil), e.rd.pubLog...)
	e.rd.mu.Unlock()
	seen := map[string]int{}
	maxStart := map[string]int64{}
	last := map[string]string{}
	for _, p := range log {
		x := pubs[p.payload]
		if x == nil {
			if strings.HasPrefix(p.channel, svc+"|") {
				c.Violate("foreign", "Redis was sent %q on %s, which nobody published", p.payload[:min(len(p.payload), 80)], p.channel)
			}
			continue
		}
		if x.ch != p.channel {
			c.Violate("channel", "%s was published on %s and sent on %s", vals[p.payload], x.ch, p.channel)
		}
		seen[p.payload]++
		if n := seen[p.payload]; n > 1 {
			if nf == 0 || e.retries < 0 {
				c.Violate("twice", "%s was sent %d times", vals[p.payload], n)
			}
			continue
		}
		if x.end < maxStart[x.ch] {
			c.Violate("order", "%s was published before %s, and sent after it", vals[p.payload], last[x.ch])
		}
		if x.start > maxStart[x.ch] {
			maxStart[x.ch], last[x.ch] = x.start, vals[p.payload]
		}
	}
	lost := 0
	for env := range pubs {
		if seen[env] > 0 {
			continue
		}
		_, ref := refused.Load(env)
		switch {
		case after[env]:
			c.Violate("lost", "%s, published when Redis was reachable again, was never sent", vals[env])
		case ref:
		case nf == 0:
			c.Violate("lost", "%s was never sent, without any failure", vals[env])
		default:
			lost++
		}
	}
	c.Count("published", len(pubs))
	c.Count("lost_in_failures", lost)
	c.Ev("published %d lost %d", len(pubs), lost)
	if len(seen) == 0 {
		c.Trivial()
	}
	ok = true
}

// c21reply has the server answer SUBSCRIBE or UNSUBSCRIBE with an error.
func c21reply(c *C) {
	r := c.LRand(1)
	e := c21env(-1)
	svc := c.SvcName()
	defer e.drop()
	bad := []string{"SUBSCRIBE", "UNSUBSCRIBE"}[r.Intn(2)]
	n := 1 + r.Intn(3)
	e.rd.mu.Lock()
	e.rd.onCommand = func(rc *redisConn, cmd string, args []string) string {
		if cmd == bad && n > 0 {
			n--
			return []string{"ERR busy", "LOADING Redis is loading the dataset in memory", "NOPERM this user has no permissions"}[r.Intn(3)]
		}
		return ""
	}
	e.rd.mu.Unlock()
	ch := psrpc.Channel{Legacy: svc + "|0", Server: svc}
	c.Shape("%s n=%d", bad, n)
	sub, err := bus.Subscribe[str](context.Background(), e.bus, ch, 10)
	must(err)
	want := map[string]int{ch.Legacy: 1}
	if bad == "UNSUBSCRIBE" {
		time.Sleep(2 * c.Slack())
		must(sub.Close())
		want = map[string]int{}
	}
	time.Sleep(30 * time.Second)
	c.Ev("refused %s", bad)
	if got := e.rd.subscribed(); fmt.Sprint(got) != fmt.Sprint(want) {
		c.ViolateKey("converge", "error-reply:"+bad, "%s was refused, and Redis is subscribed to %v, local subscribers: %v", bad, got, want)
	}
	sub.Close()
}
