package zverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
)

// C28: test buses add exactly the faults asked for.

func init() {
	reg("C28", "lag", 900, 9000, c28lag)
	reg("C28", "calls", 700, 7000, c28calls)
	reg("C28", "drop", 900, 9000, c28drop)
	reg("C28", "stack", 1500, 15000, c28stack)
}

type c28lat struct {
	base, jit time.Duration
	seed      uint64
	kind      int
}

// of is the latency between two origins: fixed for the pair, and different by direction.
func (l c28lat) of(a, b string) time.Duration {
	h := mix64(l.seed + uint64(len(a))*131 + uint64(a[len(a)-1])*7 + uint64(b[len(b)-1])*100003)
	switch l.kind {
	case 0:
		return l.base
	case 1:
		return l.base + time.Duration(h%uint64(l.jit+1))
	case 2:
		if a == b {
			return 0
		}
		return l.base + time.Duration(h%5)*l.jit/5
	default:
		return time.Duration(h%3)*l.jit - time.Millisecond // sometimes negative
	}
}

type c28msg struct {
	val    string
	origin string
	pubEnd time.Time
	sentAt time.Time
	err    error
}

type c28read struct {
	val      string
	from, at time.Time
}

type c28sub struct {
	id        string
	ch        int
	stall     func() time.Duration
	opened    time.Time
	closing   time.Time
	mu        sync.Mutex
	reads     []c28read
	delivered []string
	ended     bool
}

func c28lag(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	lat := c28lat{base: r.Ms(4000), jit: r.Ms(8000), seed: uint64(r.Intn(1 << 30)), kind: r.Intn(4)}
	np := 1 + r.Intn(3)
	nch := 1 + r.Intn(2)
	var chs []psrpc.Channel
	for i := 0; i < nch; i++ {
		ch := psrpc.Channel{Legacy: fmt.Sprintf("%s|%d", svc, i), Server: fmt.Sprintf("%s.%d", svc, i)}
		if r.Intn(2) == 0 {
			ch = psrpc.Channel{Legacy: ch.Legacy, Server: svc, Local: fmt.Sprint("l", i)}
		}
		chs = append(chs, ch)
	}
	varying := r.Intn(4) == 0
	c.Shape("lat=%+v np=%d nch=%d varying=%v", lat, np, nch, varying)
	var mu sync.Mutex
	msgs := make([]map[string]*c28msg, nch)
	for i := range msgs {
		msgs[i] = map[string]*c28msg{}
	}
	chIdx := map[string]int{}
	for i, ch := range chs {
		chIdx[ch.Legacy] = i
	}
	asked := map[string]int{}
	var subs []*c28sub
	var cur *c28sub
	buses := make([]psrpc.MessageBus, np)
	for p := 0; p < np; p++ {
		id := fmt.Sprint("proc", p)
		rec := testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			s := cur
			return func() ([]byte, bool) {
				if d := s.stall(); d > 0 {
					time.Sleep(d)
				}
				t0 := time.Now()
				b, ok := next()
				t1 := time.Now()
				val := ""
				if ok {
					if m, _ := decodeEnvelope(b); m != nil {
						val, _, _ = strings.Cut(m.(str).Value, "/")
					} else {
						c.Violate("altered", "the bus hands on %x", b)
					}
				}
				s.mu.Lock()
				if ok {
					s.reads = append(s.reads, c28read{val, t0, t1})
				}
				s.mu.Unlock()
				return b, ok
			}
		})
		tapPub := testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
			return func(ctx context.Context, ch testutils.Channel, msg proto.Message) error {
				l, ok := msg.(*testutils.LaggyMessage)
				if !ok {
					c.Violate("wire", "the lagging bus sends %T", msg)
					return next(ctx, ch, msg)
				}
				m, _ := decodeEnvelope(l.Body)
				if m == nil || l.Origin != id {
					c.Violate("wire", "the lagging bus sends origin %q body %x", l.Origin, l.Body)
					return next(ctx, ch, msg)
				}
				name, _, _ := strings.Cut(m.(str).Value, "/")
				at := time.Unix(0, l.SentAt)
				mu.Lock()
				x := msgs[chIdx[ch.Legacy]][name]
				x.sentAt = at
				mu.Unlock()
				if d := time.Since(at); d < 0 || d > c.Slack() {
					c.Violate("wire", "sent at %v, %v ago", at, d)
				}
				return next(ctx, ch, msg)
			}
		})
		lag := testutils.WithLaggyBus(id, func(a, b string) time.Duration {
			mu.Lock()
			asked[a+">"+b]++
			mu.Unlock()
			return lat.of(a, b)
		})
		buses[p] = testutils.NewTestBus(n.Endpoint(), rec, testutils.WithBusOptions(lag, tapPub))
	}
	type handle struct {
		s   *c28sub
		sub bus.Subscription[str]
	}
	var hs []handle
	open := func(p, ch int, stalls bool) {
		s := &c28sub{id: fmt.Sprint("proc", p), ch: ch}
		sr := c.NewRand(1000 + len(hs))
		s.stall = func() time.Duration {
			if stalls && sr.Intn(3) == 0 {
				return time.Duration(sr.Intn(6000)) * time.Millisecond
			}
			return 0
		}
		cur = s
		sub, err := bus.Subscribe[str](context.Background(), buses[p], chs[ch], []int{1, 100, 1000}[r.Intn(3)])
		must(err)
		s.opened = time.Now()
		subs = append(subs, s)
		hs = append(hs, handle{s, sub})
		go func() {
			for m := range sub.Channel() {
				name, _, _ := strings.Cut(m.Value, "/")
				s.mu.Lock()
				s.delivered = append(s.delivered, name)
				s.mu.Unlock()
			}
			s.mu.Lock()
			s.ended = true
			s.mu.Unlock()
		}()
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		open(r.Intn(np), r.Intn(nch), r.Intn(3) == 0)
	}
	c.Settle()
	var fs []func()
	for k := 1 + r.Intn(4); k > 0; k-- {
		p, ch := r.Intn(np), r.Intn(nch)
		cnt := 1 + r.Intn(12)
		gap := []int{0, 0, 5, 300, 2500}[r.Intn(5)]
		fs = append(fs, func() {
			for i := 0; i < cnt; i++ {
				name := fmt.Sprintf("k%d.%d", k, i)
				x := &c28msg{val: name, origin: fmt.Sprint("proc", p)}
				mu.Lock()
				msgs[ch][name] = x
				mu.Unlock()
				err := buses[p].Publish(context.Background(), chs[ch], S(name+"/"+strings.Repeat("z", r.Intn(50))))
				mu.Lock()
				x.err, x.pubEnd = err, time.Now()
				mu.Unlock()
				if err != nil {
					c.Violate("publish", "%v", err)
				}
				if gap > 0 {
					time.Sleep(r.Ms(gap))
				}
			}
		})
	}
	closer := -1
	if r.Intn(3) == 0 {
		closer = r.Intn(len(hs))
		wait := r.Ms(6000)
		fs = append(fs, func() {
			time.Sleep(wait)
			hs[closer].s.closing = time.Now()
			if err := hs[closer].sub.Close(); err != nil {
				c.Violate("close", "%v", err)
			}
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "publishing or closing on a lagging bus hangs\n%s", psrpcStacks())
		return
	}
	// longest latency, and every stall in turn
	time.Sleep(13*time.Second + 45*5*time.Second)
	total := 0
	for i, h := range hs {
		if i != closer {
			h.s.closing = time.Now()
			if err := h.sub.Close(); err != nil {
				c.Violate("close", "%v", err)
			}
		}
	}
	time.Sleep(8*time.Second + c.Slack())
	for i, h := range hs {
		s := h.s
		s.mu.Lock()
		reads, delivered, ended := append([]c28read(nil), s.reads...), append([]string(nil), s.delivered...), s.ended
		s.mu.Unlock()
		at := map[string]int{}
		for k, x := range reads {
			m := msgs[s.ch][x.val]
			if m == nil {
				c.Violate("foreign", "subscriber %d read %q, which was not sent on its channel", i, x.val)
				continue
			}
			if _, ok := at[x.val]; ok {
				c.Violate("twice", "subscriber %d read %s twice", i, x.val)
			}
			at[x.val] = k
			due := m.sentAt.Add(lat.of(m.origin, s.id))
			if x.at.Before(due) {
				c.Violate("early", "%s was due at %v, and read %v before", x.val, due.Sub(c.start), due.Sub(x.at))
			}
			if x.from.Add(c.Slack()).Before(due) && x.at.After(due.Add(c.Slack())) {
				c.Violate("late", "%s was due at %v, and read %v later although the reader was waiting", x.val, due.Sub(c.start), x.at.Sub(due))
			}
			// nothing that was due before may still be waiting
			for _, b := range msgs[s.ch] {
				db := b.sentAt.Add(lat.of(b.origin, s.id))
				if db.Before(due) && !b.sentAt.Before(s.opened.Add(c.Slack())) && b.pubEnd.Add(2*c.Slack()).Before(x.at) {
					kb, ok := -1, false
					for j, y := range reads {
						if y.val == b.val {
							kb, ok = j, true
						}
					}
					if !ok || kb > k {
						c.Violate("order", "%s (due %v) was read before %s (due %v)", x.val, due.Sub(c.start), b.val, db.Sub(c.start))
					}
				}
			}
			total++
		}
		for name, m := range msgs[s.ch] {
			due := m.sentAt.Add(lat.of(m.origin, s.id))
			if _, ok := at[name]; !ok && i != closer {
				c.Violate("lost", "subscriber %d never read %s (due %v)", i, name, due.Sub(c.start))
			} else if !ok && reads != nil && due.Add(2*c.Slack()).Before(s.closing) && m.pubEnd.Add(2*c.Slack()).Before(s.closing) && s.stallFree() {
				c.Violate("lost", "subscriber %d did not read %s (due %v) before it was closed at %v", i, name, due.Sub(c.start), s.closing.Sub(c.start))
			}
		}
		if !ended {
			c.Violate("open", "subscriber %d was closed, and its channel is still open", i)
		}
		// what was read is what is delivered
		for k, v := range delivered {
			if k >= len(reads) || reads[k].val != v {
				c.Violate("delivered", "subscriber %d got %v of %v", i, delivered, reads)
				break
			}
		}
		c.Ev("reads %v", reads2(reads))
	}
	c.Count("delayed_messages", total)
	c.Count("latencies_asked", len(asked))
	if total == 0 {
		c.Trivial()
	}
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
}

func (s *c28sub) stallFree() bool {
	for i, x := range s.reads {
		if i > 0 && x.from.Sub(s.reads[i-1].at) > 700*time.Millisecond {
			return false
		}
	}
	return len(s.reads) > 0 && s.stall() == 0 && s.stall() == 0
}

func reads2(rs []c28read) (out []string) {
	for _, x := range rs {
		out = append(out, x.val)
	}
	return
}

// c28calls runs clients and servers over lagging buses: everything works, and takes as long
// as the messages it needs.
func c28calls(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	lat := c28lat{base: r.Ms(400), jit: r.Ms(900), seed: uint64(r.Intn(1 << 30)), kind: r.Intn(3)}
	lagged := func(id string) psrpc.MessageBus {
		return testutils.NewTestBus(n.Endpoint(), testutils.WithLaggyBus(id, lat.of))
	}
	s := c.Server(lagged("srv0"), svc, "")
	methods := []string{mNormal, mMulti, mSingle, mQueueNC}
	for _, m := range methods {
		must(server.RegisterHandler(s, m, nil, func(ctx context.Context, req str) (str, error) {
			if strings.HasSuffix(req.Value, "!") {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "none %s", req.Value)
			}
			return S("re " + req.Value), nil
		}, nil))
	}
	must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
		for m := range st.Channel() {
			if err := st.Send(S("re "+m.Value), psrpc.WithTimeout(time.Minute)); err != nil {
				return err
			}
		}
		return nil
	}, nil))
	cl := c.Client(lagged("cli1"), svc, "")
	c.Settle()
	there, back := max(0, lat.of("cli1", "srv0")), max(0, lat.of("srv0", "cli1"))
	c.Shape("there=%v back=%v", there, back)
	var fs []func()
	for k := 0; k < 2+r.Intn(6); k++ {
		m := append(methods, mStream, mSub)[r.Intn(6)]
		val := fmt.Sprint("v", k)
		if r.Intn(4) == 0 {
			val += "!"
		}
		wait := r.Ms(300)
		fs = append(fs, func() {
			time.Sleep(wait)
			t0 := time.Now()
			hops := there + back
			ctx := context.Background()
			var res string
			var err error
			tm := psrpc.WithRequestTimeout(time.Minute)
			sel := psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true, AffinityTimeout: 20 * time.Second})
			switch m {
			case mMulti:
				var ch <-chan *psrpc.Response[str]
				ch, err = callMulti(ctx, cl, m, nil, val, tm)
				if err == nil {
					x := <-ch
					if err = x.Err; err == nil {
						res = x.Result.Value
					}
				}
			case mStream:
				hops *= 2 // open and claim
				var st psrpc.ClientStream[str, str]
				st, err = client.OpenStream[str, str](ctx, cl, m, nil, tm, sel)
				if err != nil {
					break
				}
				opened := time.Now()
				if d := opened.Sub(t0); d < hops || d > hops+c.Slack() {
					c.Violate("time", "opening a stream took %v, the latencies add up to %v", d, hops)
				}
				t0, hops = opened, 2*(there+back)
				for i := 0; i < 2; i++ {
					if err = st.Send(S(val), psrpc.WithTimeout(time.Minute)); err != nil {
						break
					}
				}
				if d := time.Since(t0); err == nil && (d < hops || d > hops+c.Slack()) {
					c.Violate("time", "two acknowledged sends took %v, the latencies add up to %v", d, hops)
				}
				if err != nil {
					break
				}
				x := <-st.Channel()
				y := <-st.Channel()
				if x.GetValue() != "re "+val || y.GetValue() != "re "+val {
					c.Violate("result", "the stream of %s answered %v %v", val, x, y)
				}
				if err := st.Close(nil); err != nil {
					c.Violate("result", "close: %v", err)
				}
				c.Ev("stream")
				return
			case mSub:
				sub, err := client.Join[str](ctx, cl, mSub, []string{val})
				must(err)
				time.Sleep(2 * c.Slack())
				t0 := time.Now()
				if err := s.Publish(ctx, mSub, []string{val}, S(val)); err != nil {
					c.Violate("result", "publish: %v", err)
				}
				x := <-sub.Channel()
				if d := time.Since(t0); x.GetValue() != val || d < back || d > back+c.Slack() {
					c.Violate("time", "update %v arrived after %v, the latency is %v", x, d, back)
				}
				must(sub.Close())
				c.Ev("update")
				return
			case mNormal:
				hops *= 2
				res, err = call(ctx, cl, m, nil, val, tm, sel)
			default:
				res, err = call(ctx, cl, m, nil, val, tm)
			}
			d := time.Since(t0)
			if strings.HasSuffix(val, "!") && m != mStream {
				if code(err) != psrpc.NotFound || !strings.Contains(err.Error(), "none "+val) {
					c.Violate("result", "%s %s gave %q, %v", m, val, res, err)
				}
			} else if err != nil || res != "re "+val {
				c.Violate("result", "%s %s gave %q, %v", m, val, res, err)
			}
			if d < hops || d > hops+c.Slack() {
				c.Violate("time", "%s took %v, the latencies add up to %v", m, d, hops)
			}
			c.Ev("call %s", m)
		})
	}
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "calls over a lagging bus hang\n%s", psrpcStacks())
		return
	}
	s.Close(false)
	cl.Close()
	time.Sleep(70 * time.Second)
	c.LeakCheck(base, "goroutine-left")
}

// c28drop sends messages through buses with failure rates.
func c28drop(c *C) {
	r := c.LRand(1)
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	nch := 1 + r.Intn(3)
	var chs []psrpc.Channel
	for i := 0; i < nch; i++ {
		chs = append(chs, psrpc.Channel{Legacy: fmt.Sprintf("%s|%d", svc, i), Server: fmt.Sprintf("%s.%d", svc, i)})
	}
	rate0 := []float64{0, 1, 0.5}[r.Intn(3)]
	rate := testutils.NewAtomicFailureRate(rate0)
	same := rate // a copy is the same rate
	filter := -1
	opt := testutils.WithUnreliableBus(rate)
	switch r.Intn(3) {
	case 0:
		filter = r.Intn(nch)
		opt = testutils.WithUnreliableBusChannel(rate, chs[filter].Legacy)
	case 1:
		opt = testutils.WithUnreliableBusChannel(rate, "")
	}
	b := testutils.NewTestBus(n.Endpoint(), opt)
	pub := b
	if r.Intn(2) == 0 {
		pub = n.Endpoint() // rates apply where messages are read
	}
	type rd struct {
		ch  int
		sub bus.Subscription[str]
		mu  sync.Mutex
		got []string
	}
	var rs []*rd
	for k := 1 + r.Intn(4); k > 0; k-- {
		x := &rd{ch: r.Intn(nch)}
		var err error
		x.sub, err = bus.Subscribe[str](context.Background(), b, chs[x.ch], 1000)
		must(err)
		go func() {
			for m := range x.sub.Channel() {
				x.mu.Lock()
				x.got = append(x.got, m.GetValue())
				x.mu.Unlock()
			}
		}()
		rs = append(rs, x)
	}
	c.Settle()
	c.Shape("rate=%v filter=%d nch=%d subs=%d", rate0, filter, nch, len(rs))
	sent := make([][]string, nch)
	rates := map[string]float64{}
	now := rate0
	phases := 1 + r.Intn(5)
	for ph := 0; ph < phases; ph++ {
		cnt := 10 + r.Intn(20)
		if now > 0 && now < 1 {
			cnt = 300
			if now < 0.1 || now > 0.9 {
				cnt = 1000
			}
		}
		for i := 0; i < cnt; i++ {
			v := fmt.Sprintf("p%d.%d", ph, i)
			rates[v] = now
			for ch := range chs {
				if err := pub.Publish(context.Background(), chs[ch], S(v)); err != nil {
					c.Violate("publish", "%v", err)
				}
				sent[ch] = append(sent[ch], v)
			}
		}
		time.Sleep(2 * c.Slack())
		now = []float64{0, 1, 0.5, 0.1, 0.9, 0.03, 0.97}[r.Intn(7)]
		if r.Intn(2) == 0 {
			rate.SetRate(now)
		} else {
			same.SetRate(now)
		}
		if rate.Rate() != now || same.Rate() != now {
			c.Violate("rate", "set to %v, is %v and %v", now, rate.Rate(), same.Rate())
		}
	}
	for i, x := range rs {
		must(x.sub.Close())
		x.mu.Lock()
		got := append([]string(nil), x.got...)
		x.mu.Unlock()
		at := map[string]bool{}
		j := 0
		for _, v := range got {
			at[v] = true
			for j < len(sent[x.ch]) && sent[x.ch][j] != v {
				j++
			}
			if j == len(sent[x.ch]) {
				c.Violate("order", "subscriber %d got %v, sent was %v", i, got, sent[x.ch])
				break
			}
			j++
		}
		affected := filter < 0 || filter == x.ch
		drops, all := map[float64]int{}, map[float64]int{}
		for _, v := range sent[x.ch] {
			p := rates[v]
			all[p]++
			if !at[v] {
				drops[p]++
			}
			if !at[v] && (!affected || p == 0) {
				c.Violate("dropped", "subscriber %d did not get %s, sent at rate %v (channel affected: %v)", i, v, p, affected)
			}
			if at[v] && affected && p == 1 {
				c.Violate("kept", "subscriber %d got %s, sent at rate 1", i, v)
			}
		}
		for p, k := range all {
			if affected && p > 0 && p < 1 {
				// the odds of such a fraction are below exp(-k*d)
				f := float64(drops[p]) / float64(k)
				d := 0.0
				if f > 0 {
					d += f * math.Log(f/p)
				}
				if f < 1 {
					d += (1 - f) * math.Log((1-f)/(1-p))
				}
				if float64(k)*d > 25 {
					c.Violate("fraction", "subscriber %d lost %d of %d at rate %v", i, drops[p], k, p)
				}
				c.Count("fractions", 1)
			}
		}
		c.Count("messages", len(sent[x.ch]))
		c.Count("dropped", len(sent[x.ch])-len(got))
		c.Ev("got %d of %d", len(got), len(sent[x.ch]))
	}
	time.Sleep(c.Slack())
}

// c28stack compares random stacks of interceptors with a reference.
func c28stack(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet(kinds[r.Intn(3)])
	var pubTrace, readTrace []string
	var mu sync.Mutex
	note := func(t *[]string, f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		mu.Lock()
		*t = append(*t, s)
		mu.Unlock()
	}
	type step struct{ kind, name string }
	mk := func(kinds []string, pfx string) []step {
		var l []step
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, step{kinds[r.Intn(len(kinds))], fmt.Sprint(pfx, i)})
		}
		return l
	}
	pubs := mk([]string{"pass", "tag", "drop-odd", "dup", "fail-3", "reroute"}, "P")
	subsI := mk([]string{"pass", "tag", "drop-odd", "dup", "end-5"}, "S")
	other := psrpc.Channel{Legacy: svc + "|other", Server: svc + ".other"}
	main := psrpc.Channel{Legacy: svc + "|main", Server: svc + ".main"}
	chName := func(ch psrpc.Channel) string { return ch.Legacy[len(svc)+1:] }
	odd := func(v string) bool { return strings.Contains(v, "1") || strings.Contains(v, "3") }
	pubI := func(s step) testutils.PublishInterceptor {
		return func(next testutils.PublishHandler) testutils.PublishHandler {
			return func(ctx context.Context, ch testutils.Channel, msg proto.Message) error {
				v := msg.(str).Value
				note(&pubTrace, "%s %s %s", s.name, chName(ch), v)
				switch s.kind {
				case "tag":
					msg = S(v + "+" + s.name)
				case "drop-odd":
					if odd(v) {
						return nil
					}
				case "dup":
					if err := next(ctx, ch, msg); err != nil {
						return err
					}
				case "fail-3":
					if strings.Contains(v, "3") {
						return errInjected
					}
				case "reroute":
					if strings.Contains(v, "2") {
						ch = other
					}
				}
				return next(ctx, ch, msg)
			}
		}
	}
	env := func(b []byte) string {
		m, _ := decodeEnvelope(b)
		if m == nil {
			return "?"
		}
		return m.(str).Value
	}
	retag := func(b []byte, t string) []byte {
		a := &anypb.Any{}
		must(proto.Unmarshal(b, a))
		m := &anypb.Any{}
		must(m.MarshalFrom(S(env(b) + "-" + t)))
		out, err := proto.Marshal(m)
		must(err)
		return out
	}
	subI := func(s step) testutils.SubscribeInterceptor {
		return func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			if ctx.Value(c17key("sub")) != 1 {
				c.Violate("context", "a subscribe interceptor got another context")
			}
			if chName(ch) != "main" {
				return next
			}
			var again []byte
			ends := 0
			return func() ([]byte, bool) {
				if again != nil {
					b := again
					again = nil
					note(&readTrace, "%s again %s", s.name, env(b))
					return b, true
				}
				for {
					b, ok := next()
					if !ok {
						return b, ok
					}
					v := env(b)
					note(&readTrace, "%s %s", s.name, v)
					switch s.kind {
					case "tag":
						b = retag(b, s.name)
					case "drop-odd":
						if odd(v) {
							continue
						}
					case "dup":
						again = bytes.Clone(b)
					case "end-5":
						if ends++; ends == 5 {
							return nil, false
						}
					}
					return b, true
				}
			}
		}
	}
	// options in groups, on one bus or on nested ones
	var layers [][]testutils.TestBusOption
	var cur []testutils.TestBusOption
	var all []func() testutils.TestBusOption
	pi, si := 0, 0
	for pi < len(pubs) || si < len(subsI) {
		if si == len(subsI) || pi < len(pubs) && r.Intn(2) == 0 {
			s := pubs[pi]
			pi++
			all = append(all, func() testutils.TestBusOption { return testutils.WithPublishInterceptor(pubI(s)) })
		} else {
			s := subsI[si]
			si++
			all = append(all, func() testutils.TestBusOption { return testutils.WithSubscribeInterceptor(subI(s)) })
		}
	}
	for _, f := range all {
		o := f()
		if r.Intn(3) == 0 {
			o = testutils.WithBusOptions(o)
		}
		cur = append(cur, o)
		if r.Intn(4) == 0 {
			layers = append(layers, cur)
			cur = nil
		} else if r.Intn(4) == 0 {
			cur = []testutils.TestBusOption{testutils.WithBusOptions(cur...)}
		}
	}
	layers = append(layers, cur)
	inner := n.Endpoint()
	b := inner
	for i := len(layers) - 1; i >= 0; i-- {
		b = testutils.NewTestBus(b, layers[i]...)
	}
	// reference
	type pubd struct{ ch, v string }
	var wantPub, wantRead []string
	var refPub func(i int, ch, v string) ([]pubd, error)
	refPub = func(i int, ch, v string) ([]pubd, error) {
		if i == len(pubs) {
			return []pubd{{ch, v}}, nil
		}
		s := pubs[i]
		wantPub = append(wantPub, fmt.Sprintf("%s %s %s", s.name, ch, v))
		var pre []pubd
		switch s.kind {
		case "tag":
			v += "+" + s.name
		case "drop-odd":
			if odd(v) {
				return nil, nil
			}
		case "dup":
			var err error
			pre, err = refPub(i+1, ch, v)
			if err != nil {
				return pre, err
			}
		case "fail-3":
			if strings.Contains(v, "3") {
				return nil, errInjected
			}
		case "reroute":
			if strings.Contains(v, "2") {
				ch = "other"
			}
		}
		post, err := refPub(i+1, ch, v)
		return append(pre, post...), err
	}
	subCtx := context.WithValue(context.Background(), c17key("sub"), 1)
	queue := r.Intn(3) == 0
	var sub, osub bus.Subscription[str]
	var err error
	if queue {
		sub, err = bus.SubscribeQueue[str](subCtx, b, main, 5000)
	} else {
		sub, err = bus.Subscribe[str](subCtx, b, main, 5000)
	}
	must(err)
	osub, err = bus.Subscribe[str](subCtx, b, other, 5000)
	must(err)
	c.Settle()
	var arriving, others []string
	cnt := 3 + r.Intn(6)
	uniq := nextUniq() * 10
	for i := 0; i < cnt; i++ {
		// the digit decides what interceptors do
		v := fmt.Sprintf("m%d%s", i%5, c28letters(uniq+i))
		got := b.Publish(context.Background(), main, S(v))
		ps, want := refPub(0, "main", v)
		if !errors.Is(got, want) || (got == nil) != (want == nil) {
			c.Violate("publish-error", "publishing %s gave %v, want %v", v, got, want)
		}
		for _, p := range ps {
			if p.ch == "main" {
				arriving = append(arriving, p.v)
			} else {
				others = append(others, p.v)
			}
		}
		time.Sleep(c.Slack() / 4)
	}
	if queue && n.kind == kRedis { // copies are one message there
		arriving = c28distinct(arriving)
	}
	// the reading side, innermost interceptor last
	seqs := arriving
	ended := false
	for i := len(subsI) - 1; i >= 0; i-- {
		s := subsI[i]
		var out []string
		k := 0
		for _, v := range seqs {
			wantRead = append(wantRead, s.name+" "+v)
			switch s.kind {
			case "tag":
				out = append(out, v+"-"+s.name)
			case "drop-odd":
				if !odd(v) {
					out = append(out, v)
				}
			case "dup":
				out = append(out, v, v)
			case "end-5":
				if k++; k == 5 {
					ended = true
				} else {
					out = append(out, v)
				}
			default:
				out = append(out, v)
			}
			if k == 5 {
				break
			}
		}
		seqs = out
	}
	time.Sleep(2 * c.Slack())
	drain := func(s bus.Subscription[str]) (out []string, closed bool) {
		for {
			select {
			case m, ok := <-s.Channel():
				if !ok {
					return out, true
				}
				out = append(out, m.Value)
			default:
				return
			}
		}
	}
	got, closed := drain(sub)
	if fmt.Sprint(got) != fmt.Sprint(seqs) {
		c.Violate("read", "got %v, want %v (publishing %v, reading %v)", got, seqs, pubs, subsI)
	}
	if closed != ended {
		c.Violate("end", "subscription ended: %v, want %v", closed, ended)
	}
	oth, _ := drain(osub)
	if fmt.Sprint(oth) != fmt.Sprint(others) {
		c.Violate("other", "the other channel got %v, want %v", oth, others)
	}
	mu.Lock()
	gp := append([]string(nil), pubTrace...)
	var gr []string
	for _, t := range readTrace {
		if !strings.Contains(t, " again ") {
			gr = append(gr, t)
		}
	}
	mu.Unlock()
	if strings.Join(gp, ";") != strings.Join(wantPub, ";") {
		c.Violate("publish-order", "publish interceptors ran %v, want %v", gp, wantPub)
	}
	sort.Strings(gr)
	sort.Strings(wantRead)
	if !ended && strings.Join(gr, ";") != strings.Join(wantRead, ";") {
		c.Violate("read-order", "read interceptors ran %v, want %v", gr, wantRead)
	}
	c.Shape("%v %v %d %v", pubs, subsI, len(layers), queue)
	c.Ev("got %d %d", len(got), len(oth))
	c.Count("interceptor_runs", len(gp)+len(gr))
	must(sub.Close())
	must(osub.Close())
	time.Sleep(c.Slack())
}

func c28letters(n int) string {
	s := ""
	for ; n > 0; n /= 20 {
		s += string(rune('a' + n%20))
	}
	return s
}

func c28distinct(l []string) (out []string) {
	seen := map[string]bool{}
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}
