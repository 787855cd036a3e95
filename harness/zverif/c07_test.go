package zverif

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
)

// C07: stream messages arrive once, in order; acknowledged means received.

func init() {
	reg("C07", "traffic", 900, 9000, c07traffic)
	reg("C07", "burst", 150, 1500, c07burst)
}

type c07cfg struct {
	kind             string
	method           string
	nstreams, nclis  int
	nsrv             int
	csize, ssize     int
	senders, msgs    int // per side
	pauseMax         time.Duration
	stopProb         float64
	closeProb        float64
	timeout          time.Duration
	lag              int
	big              bool
	bidi             bool
	expectAllSucceed bool
	faults           bool // messages and acknowledgements get lost, publishing fails before or after delivery
}

func c07traffic(c *C) {
	r := c.Rand
	g := c07cfg{kind: kinds[r.Intn(3)], method: []string{mStream, mStreamNC, mStreamAff}[r.Intn(3)], nstreams: 1 + r.Intn(4), nclis: 1 + r.Intn(2), nsrv: 1 + r.Intn(2),
		csize: []int{1, 2, 4, 100}[r.Intn(4)], ssize: []int{1, 2, 4, 100}[r.Intn(4)], senders: 1 + r.Intn(3), msgs: 1 + r.Intn(12),
		pauseMax: []time.Duration{0, 0, 10 * time.Millisecond, 300 * time.Millisecond}[r.Intn(4)], timeout: []time.Duration{200 * time.Millisecond, time.Second, 3 * time.Second}[r.Intn(3)],
		lag: []int{0, 0, 5, 100}[r.Intn(4)], big: r.Intn(5) == 0, bidi: r.Intn(3) > 0}
	if g.method == mStreamNC {
		g.nsrv = 1
	}
	if r.Intn(3) == 0 {
		g.closeProb = 0.5
	}
	if r.Intn(4) == 0 {
		g.stopProb = 0.3
	}
	if g.csize == 100 && g.ssize == 100 && g.timeout == 3*time.Second && g.closeProb == 0 && g.stopProb == 0 && g.lag < 100 && g.pauseMax <= 10*time.Millisecond {
		g.expectAllSucceed = true
	}
	if c.LRand(31).Intn(4) == 0 {
		g.faults, g.expectAllSucceed = true, false
	}
	c07run(c, g)
}

// c07burst: many messages at once in both directions through minimal buffers.
func c07burst(c *C) {
	r := c.Rand
	g := c07cfg{kind: kinds[r.Intn(3)], method: mStream, nstreams: 1 + r.Intn(3), nclis: 1, nsrv: 1,
		csize: 1 + r.Intn(3), ssize: 1 + r.Intn(3), senders: 5 + r.Intn(20), msgs: 3, timeout: 2 * time.Second, bidi: true}
	if r.Intn(4) == 0 {
		g.csize, g.ssize, g.senders = 100, 100, 150
		g.nstreams = 1
		g.timeout = 3 * time.Second
		g.msgs = 2
	}
	c07run(c, g)
}

func c07run(c *C, g c07cfg) {
	r := c.Rand
	n := c.NewNet(g.kind)
	svc := c.SvcName()
	base := c.LeakBase()
	rec := newStrec(c)
	c.Shape("%+v mode=%d", g, c.idx%4)
	var tmu sync.Mutex
	openReq := map[string]bool{}
	wrap := func(b psrpc.MessageBus, who string) psrpc.MessageBus {
		if g.lag == 0 && !g.faults {
			return b
		}
		lr := c.LRand(len(who) + int(who[len(who)-1])*7)
		return tap(b, who, func(m tapMsg) (int, error) {
			if g.lag > 0 {
				time.Sleep(lr.Ms(g.lag))
			}
			x, ok := m.Msg.(*internal.Stream)
			if !ok || !g.faults {
				return 1, nil
			}
			tmu.Lock()
			if x.GetOpen() != nil {
				openReq[x.RequestId] = true
			}
			opening := openReq[x.RequestId]
			tmu.Unlock()
			if !opening && (x.GetMessage() != nil || x.GetAck() != nil) {
				switch lr.Intn(20) {
				case 0:
					c.Count("lost", 1)
					return 0, nil
				case 1:
					c.Count("failed", 1)
					return 0, errInjected
				case 2:
					c.Count("failed_after_delivery", 1)
					return 1, errInjected
				}
			}
			return 1, nil
		})
	}
	pauser := func(k int) (func() time.Duration, bool) {
		rr := c.LRand(k)
		if rr.Float64() < g.stopProb {
			// stops reading for long
			at := rr.Intn(5)
			i := 0
			return func() time.Duration {
				i++
				if i == at {
					return 20 * time.Second
				}
				return 0
			}, true
		}
		if g.pauseMax == 0 {
			return nil, false
		}
		return func() time.Duration { return time.Duration(rr.Intn(int(g.pauseMax))) }, false
	}
	var wg sync.WaitGroup
	traffic := func(x *stSide, seed int) {
		var w sync.WaitGroup
		for s := 0; s < g.senders; s++ {
			sr := c.LRand(seed*100 + s)
			w.Add(1)
			go func() {
				defer w.Done()
				for k := 0; k < g.msgs; k++ {
					pad := 0
					if g.big {
						pad = sr.Intn(20000)
					}
					rec.send(x, s, k, pad, psrpc.WithTimeout(g.timeout))
					if sr.Intn(2) == 0 {
						time.Sleep(sr.Ms(20))
					}
				}
			}()
		}
		w.Wait()
	}
	for i := 0; i < g.nsrv; i++ {
		id := fmt.Sprintf("s%d", i)
		srv := c.Server(wrap(n.Endpoint(), id), svc, id, psrpc.WithServerChannelSize(g.ssize))
		k := 0
		var kmu sync.Mutex
		must(rec.register(srv, id, g.method, nil, func(x *stSide) error {
			kmu.Lock()
			k++
			seed := 5000 + 1000*i + k*20
			kmu.Unlock()
			p, _ := pauser(seed)
			rdone := make(chan struct{})
			go func() { rec.read(x, p); close(rdone) }()
			if g.bidi {
				traffic(x, seed)
			}
			<-rdone
			return nil
		}, nil))
	}
	var cls []*client.RPCClient
	for i := 0; i < g.nclis; i++ {
		cls = append(cls, c.Client(wrap(n.Endpoint(), fmt.Sprintf("c%d", i)), svc, "", psrpc.WithClientChannelSize(g.csize)))
	}
	c.Settle()
	var opened int
	var omu sync.Mutex
	var sides []*stSide
	var rdones []chan struct{}
	for i := 0; i < g.nstreams; i++ {
		cl := cls[i%len(cls)]
		rr := c.LRand(900 + i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, err := rec.open(context.Background(), cl, g.method, nil, fmt.Sprintf("L%d", i), psrpc.WithRequestTimeout(10*time.Second))
			if err != nil {
				c.Violate("open-failed", "opening a stream to a running server failed: %v", err)
				return
			}
			p, _ := pauser(100 + i)
			rdone := make(chan struct{})
			go func() { rec.read(x, p); close(rdone) }()
			omu.Lock()
			opened++
			sides = append(sides, x)
			rdones = append(rdones, rdone)
			omu.Unlock()
			if rr.Float64() < g.closeProb {
				go func() {
					time.Sleep(rr.Ms(100))
					rec.close(x, nil)
				}()
			}
			traffic(x, 2000+i*20)
		}()
	}
	lim := time.Duration(g.msgs)*(g.timeout+c.Slack()+time.Duration(g.lag)*4*time.Millisecond) + 60*time.Second
	if !c.Within(lim, wg.Wait) {
		c.Violate("stuck", "senders did not finish within %v\n%s", lim, psrpcStacks())
		return
	}
	// the server's senders
	time.Sleep(lim - 50*time.Second)
	_ = r
	for _, x := range sides {
		if !c.Within(g.timeout+20*time.Second, func() { rec.close(x, nil) }) {
			c.Violate("close-hangs", "closing a stream did not return\n%s", psrpcStacks())
			return
		}
	}
	for _, d := range rdones {
		if !c.Within(60*time.Second, func() { <-d }) {
			c.Violate("not-closed", "the receive channel of a closed stream stays open\n%s", psrpcStacks())
			return
		}
	}
	time.Sleep(40 * time.Second)
	d, a, f := rec.check()
	c.Count("delivered", d)
	c.Count("acknowledged", a)
	c.Count("send_failures", f)
	if d == 0 {
		c.Trivial()
	}
	if g.expectAllSucceed && f > 0 {
		for _, x := range sides {
			for _, m := range x.sends {
				if m.err != nil {
					c.Violate("send-failed", "sending to an attentive receiver failed: %v (from %v to %v)", m.err, m.start.Sub(c.start), m.end.Sub(c.start))
				}
			}
		}
	}
	// no send takes longer than its timeout
	for _, x := range sides {
		for _, m := range x.sends {
			if lim := g.timeout + c.Slack() + time.Duration(g.lag*(2+g.senders))*time.Millisecond; m.end.Sub(m.start) > lim && g.kind != kLocal {
				c.Violate("send-late", "a send with timeout %v took %v", g.timeout, m.end.Sub(m.start))
			}
		}
	}
	for _, cl := range cls {
		cl.Close()
	}
	time.Sleep(2 * time.Second)
	_ = base
}
