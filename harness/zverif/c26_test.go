package zverif

import (
	"context"
	"fmt"
	"sync"
	"time"
	"weak"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
)

// C26: no data races or deadlocks; nothing is left running after close. The race detector
// watches every workload of every check; these workloads aim at the shutdown of everything
// at once under full traffic, and at what remains.

func init() {
	reg("C26", "closing", 900, 9000, c26closing)
	reg("C26", "bus", 900, 9000, c26bus)
	reg("C26", "life", 900, 9000, c26life)
}

// c26closing closes clients and servers that share buses, all at once and under load.
func c26closing(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	one := n.Endpoint()
	ep := func() psrpc.MessageBus {
		if r.Intn(3) == 0 {
			return n.Endpoint()
		}
		return one
	}
	svc := c.SvcName()
	size := []int{1, 1, 2, 10}[r.Intn(4)]
	ns, ncl := 1+r.Intn(3), 1+r.Intn(3)
	c.Shape("size=%d ns=%d ncl=%d", size, ns, ncl)
	methods := []string{mNormal, mAff, mMulti, mQueueNC, mStream}
	hr := c.LRand(2)
	var ss []*server.RPCServer
	for i := 0; i < ns; i++ {
		id := fmt.Sprint("s", i)
		s := c.Server(ep(), svc, id, psrpc.WithServerChannelSize(size))
		h := func(ctx context.Context, req str) (str, error) {
			if hr.Intn(3) == 0 {
				time.Sleep(hr.Ms(20))
			}
			return S(id + req.Value), nil
		}
		for _, m := range methods {
			if m == mStream {
				must(server.RegisterStreamHandler(s, m, nil, func(st psrpc.ServerStream[str, str]) error {
					for x := range st.Channel() {
						_ = st.Send(x)
					}
					return nil
				}, nil))
			} else {
				var af server.AffinityFunc[str]
				if m == mAff {
					af = func(context.Context, str) float32 { return 0.5 }
				}
				must(server.RegisterHandler(s, m, nil, h, af))
			}
		}
		ss = append(ss, s)
	}
	var cs []*client.RPCClient
	for i := 0; i < ncl; i++ {
		cs = append(cs, c.Client(ep(), svc, "", psrpc.WithClientChannelSize(size)))
	}
	c.Settle()
	stop := make(chan struct{})
	var fs []func()
	var mu sync.Mutex
	ok, failed := 0, 0
	done := func(err error) {
		mu.Lock()
		if err == nil {
			ok++
		} else {
			failed++
		}
		mu.Unlock()
	}
	callers := 2 + r.Intn(10)
	for k := 0; k < callers; k++ {
		cl := cs[r.Intn(ncl)]
		fs = append(fs, func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				val := fmt.Sprintf("k%d.%d", k, i)
				ctx, cancel := context.WithCancel(context.Background())
				switch m := methods[r.Intn(len(methods))]; m {
				case mStream:
					st, err := client.OpenStream[str, str](ctx, cl, m, nil, psrpc.WithRequestTimeout(300*time.Millisecond))
					if err == nil {
						for j := 0; j < r.Intn(5); j++ {
							_ = st.Send(S(val), psrpc.WithTimeout(100*time.Millisecond))
						}
						_ = st.Close(nil)
					}
					done(err)
				case mMulti:
					ch, err := callMulti(ctx, cl, m, nil, val, psrpc.WithRequestTimeout(200*time.Millisecond))
					if err == nil {
						for range ch {
						}
					}
					done(err)
				default:
					if r.Intn(4) == 0 {
						time.AfterFunc(r.Ms(30), cancel)
					}
					_, err := call(ctx, cl, m, nil, val, psrpc.WithRequestTimeout(200*time.Millisecond))
					done(err)
				}
				cancel()
				if r.Intn(4) == 0 {
					time.Sleep(r.Ms(5))
				}
			}
		})
	}
	together := r.Intn(2) == 0
	wait := 100*time.Millisecond + r.Ms(200)
	fs = append(fs, func() {
		time.Sleep(wait)
		var wg sync.WaitGroup
		for i, s := range ss {
			force := r.Intn(2) == 0
			if i > 0 && r.Intn(8) == 0 {
				continue // stays open until cleanup
			}
			wg.Add(1)
			go func() { defer wg.Done(); s.Close(force) }()
			if !together {
				time.Sleep(r.Ms(10))
			}
		}
		for _, cl := range cs {
			cl.Close()
			if !together {
				time.Sleep(r.Ms(10))
			}
		}
		close(stop)
		if !c.Within(20*time.Second, wg.Wait) {
			c.Violate("deadlock", "closing the servers under load does not return\n%s", psrpcStacks())
		}
	})
	if !c.Par(time.Minute, fs...) {
		c.Violate("deadlock", "calls and closes do not return\n%s", psrpcStacks())
		return
	}
	for _, s := range ss {
		s.Close(true)
	}
	// the bus still works for others
	svc2 := c.SvcName()
	s2 := c.Server(one, svc2, "late")
	var regErr error
	if !c.Within(10*time.Second, func() {
		regErr = server.RegisterHandler(s2, mNormal, nil, func(ctx context.Context, req str) (str, error) { return req, nil }, nil)
	}) {
		c.Violate("bus-stuck", "after the shutdown nobody can subscribe to the bus\n%s", psrpcStacks())
		return
	}
	must(regErr)
	cl2 := c.Client(one, svc2, "")
	c.Settle()
	if res, err := call(context.Background(), cl2, mNormal, nil, "x"); err != nil || res != "x" {
		c.Violate("bus-stuck", "after the shutdown a call by others on the same bus gives %q, %v\n%s", res, err, psrpcStacks())
	}
	c.Count("calls_ok", ok)
	c.Count("calls_failed", failed)
	c.Ev("calls ok=%d failed=%d", ok, failed)
	if ok == 0 {
		c.Trivial()
	}
	s2.Close(false)
	cl2.Close()
	time.Sleep(2 * time.Second)
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
}

// c26bus closes many subscriptions of one bus, unread ones among them, from few goroutines.
func c26bus(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	b := n.Endpoint()
	svc := c.SvcName()
	nch := 1 + r.Intn(4)
	// channels as the library makes them: some share a subject and differ in the local part
	var chs []psrpc.Channel
	for i := 0; i < nch; i++ {
		ch := psrpc.Channel{Legacy: fmt.Sprintf("%s|%d", svc, i), Server: fmt.Sprintf("SRV.%s.%d", svc, i)}
		if r.Intn(2) == 0 {
			ch.Server = "SRV." + svc
			ch.Local = fmt.Sprint("m", i)
		}
		chs = append(chs, ch)
	}
	queue := make([]bool, nch)
	for i := range queue {
		queue[i] = chs[i].Local == "" && r.Intn(3) == 0
	}
	type member struct {
		sub  bus.Subscription[str]
		read bool
		got  int
	}
	groups := 2 + r.Intn(3)
	var gs [][]*member
	total := 0
	for g := 0; g < groups; g++ {
		var l []*member
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := r.Intn(nch)
			size := 1 + r.Intn(2)
			var sub bus.Subscription[str]
			var err error
			if queue[i] {
				sub, err = bus.SubscribeQueue[str](context.Background(), b, chs[i], size)
			} else {
				sub, err = bus.Subscribe[str](context.Background(), b, chs[i], size)
			}
			must(err)
			l = append(l, &member{sub: sub, read: r.Intn(2) == 0})
			total++
		}
		gs = append(gs, l)
	}
	c.Shape("nch=%d groups=%d total=%d", nch, groups, total)
	c.Settle()
	var fs []func()
	stop := make(chan struct{})
	for k := 0; k < 1+r.Intn(3); k++ {
		fs = append(fs, func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if err := b.Publish(context.Background(), chs[r.Intn(nch)], S(fmt.Sprint(k, ".", i))); err != nil {
					c.Violate("publish", "publishing failed: %v", err)
				}
				if kind != kLocal || r.Intn(4) == 0 {
					time.Sleep(r.Ms(3))
				}
			}
		})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	got := 0
	for _, l := range gs {
		wg.Add(1)
		wait := r.Ms(100)
		fs = append(fs, func() {
			defer wg.Done()
			var rg sync.WaitGroup
			for _, m := range l {
				if m.read {
					rg.Add(1)
					go func() {
						defer rg.Done()
						for range m.sub.Channel() {
							mu.Lock()
							got++
							mu.Unlock()
						}
					}()
				}
			}
			time.Sleep(wait)
			for i, m := range l { // one after the other, as clients and servers do
				if i%3 == 1 { // closing repeatedly and concurrently is harmless
					rg.Add(1)
					go func() {
						defer rg.Done()
						_ = m.sub.Close()
					}()
					_ = m.sub.Close()
					_ = m.sub.Close()
				} else if err := m.sub.Close(); err != nil {
					c.Violate("close", "%v", err)
				}
				if !m.read {
					rg.Add(1)
					go func() {
						defer rg.Done()
						for range m.sub.Channel() {
						}
					}()
				}
			}
			rg.Wait()
		})
	}
	fs = append(fs, func() {
		if !c.Within(10*time.Second, wg.Wait) {
			c.Violate("deadlock", "closing subscriptions does not return, or their channels are not closed\n%s", psrpcStacks())
		}
		close(stop)
	})
	if !c.Par(time.Minute, fs...) {
		c.Violate("deadlock", "publishing does not return\n%s", psrpcStacks())
		return
	}
	var sub bus.Subscription[str]
	ch := psrpc.Channel{Legacy: svc + "|late", Server: "SRV." + svc + ".late"}
	if !c.Within(10*time.Second, func() {
		var err error
		sub, err = bus.Subscribe[str](context.Background(), b, ch, 10)
		must(err)
	}) {
		c.Violate("bus-stuck", "nobody can subscribe any more\n%s", psrpcStacks())
		return
	}
	c.Settle()
	must(b.Publish(context.Background(), ch, S("late")))
	select {
	case m := <-sub.Channel():
		if m.GetValue() != "late" {
			c.Violate("bus-stuck", "got %v", m)
		}
	case <-time.After(5 * time.Second):
		c.Violate("bus-stuck", "nothing is delivered any more\n%s", psrpcStacks())
	}
	must(sub.Close())
	c.Count("delivered", got)
	c.Ev("got %d", got)
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
}

// c26actors uses every part of the API at random from many goroutines, closes everything
// at random times, and returns what must become garbage.
func c26actors(c *C, n *Net, cb *countBus, kn *canaries, r *lrand, refs *[]lifeRef, rmu *sync.Mutex) bool {
	svc := c.SvcName()
	size := []int{1, 2, 10, 100}[r.Intn(4)]
	ns, ncl := 1+r.Intn(3), 1+r.Intn(3)
	c.Shape("size=%d ns=%d ncl=%d", size, ns, ncl)
	topics := [][]string{nil, {"a"}, {"b", "c"}}
	methods := []string{mNormal, mAff, mMulti, mQueueNC, mSingle}
	streams := []string{mStream, mStreamAff, mStreamNC}
	end := time.Now().Add(300*time.Millisecond + r.Ms(700))
	var fs []func()
	remember := func(name string, alive func() bool) {
		rmu.Lock()
		*refs = append(*refs, lifeRef{name, alive})
		rmu.Unlock()
	}
	for i := 0; i < ns; i++ {
		id := fmt.Sprint("s", i)
		var opts []psrpc.ServerOption
		opts = append(opts, psrpc.WithServerID(id), psrpc.WithServerChannelSize(size))
		if r.Intn(2) == 0 {
			opts = append(opts, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		}
		s := server.NewRPCServer(newSD(svc, id), cb, opts...)
		w := weak.Make(s)
		remember("server", func() bool { return w.Value() != nil })
		h := func(ctx context.Context, req str) (str, error) {
			switch r.Intn(5) {
			case 0:
				time.Sleep(r.Ms(40))
			case 1:
				select {
				case <-ctx.Done():
				case <-time.After(r.Ms(300)):
				}
			case 2:
				return nil, psrpc.NewErrorf(psrpc.NotFound, "none")
			}
			return S(id + req.Value), nil
		}
		var af server.AffinityFunc[str]
		reg := func(m string, topic []string) error {
			if m == mStream || m == mStreamAff || m == mStreamNC {
				return server.RegisterStreamHandler(s, m, topic, func(st psrpc.ServerStream[str, str]) error {
					k := 0
					switch r.Intn(8) {
					case 0: // taken over while its handler goes on or ends
						go func() {
							st.Hijack()
							_ = st.Send(S("h"), psrpc.WithTimeout(50*time.Millisecond))
							for range st.Channel() {
							}
							_ = st.Close(nil)
						}()
					case 1: // closed by several
						go func() {
							_ = st.Err()
							_ = st.Close(psrpc.ErrRequestCanceled)
							_ = st.Err()
						}()
						if r.Intn(2) == 0 {
							return nil
						}
					}
					for x := range st.Channel() {
						_ = st.Send(x, psrpc.WithTimeout(50*time.Millisecond))
						if k++; k == 4 && r.Intn(2) == 0 {
							return psrpc.NewErrorf(psrpc.NotFound, "enough")
						}
					}
					return nil
				}, nil)
			}
			af = nil
			if m == mAff {
				af = func(context.Context, str) float32 { return float32(r.Intn(3)) / 2 }
			}
			return server.RegisterHandler(s, m, topic, h, af)
		}
		for _, m := range append(append([]string(nil), methods...), streams...) {
			if err := reg(m, nil); err != nil {
				c.Violate("register", "%v", err)
			}
		}
		fs = append(fs, func() { // registrations and publications by the server
			for time.Now().Before(end) {
				ctx := kn.ctx(context.Background(), "publish")
				switch r.Intn(4) {
				case 0:
					_ = server.RegisterHandler(s, methods[r.Intn(3)], topics[1+r.Intn(2)], h, nil)
				case 1:
					s.DeregisterHandler(methods[r.Intn(len(methods))], topics[r.Intn(3)])
				case 2:
					_ = s.Publish(ctx, mSub, topics[r.Intn(3)], S("u"))
				case 3:
					_ = s.Publish(ctx, mQSub, topics[r.Intn(3)], S(fmt.Sprint("q", nextUniqSync())))
				}
				time.Sleep(r.Ms(20))
			}
			for k := 0; k < 1+r.Intn(2); k++ {
				s.Close(r.Intn(2) == 0)
			}
		})
	}
	ok := 0
	for i := 0; i < ncl; i++ {
		cl, err := client.NewRPCClientWithStreams(newSD(svc, fmt.Sprint("c", i)), cb, psrpc.WithClientID(fmt.Sprint("c", i)), psrpc.WithClientChannelSize(size))
		if err != nil {
			c.Violate("client", "%v", err)
			return false
		}
		w := weak.Make(cl)
		remember("client", func() bool { return w.Value() != nil })
		for k := 0; k < 2+r.Intn(4); k++ {
			fs = append(fs, func() {
				for time.Now().Before(end) {
					ctx, cancel := context.WithCancel(kn.ctx(context.Background(), "call"))
					if r.Intn(3) == 0 {
						time.AfterFunc(r.Ms(60), cancel)
					}
					tm := psrpc.WithRequestTimeout(50*time.Millisecond + r.Ms(300))
					topic := topics[r.Intn(3)]
					var err error
					switch r.Intn(6) {
					case 0:
						var ch <-chan *psrpc.Response[str]
						ch, err = callMulti(ctx, cl, mMulti, topic, "m", tm)
						if err == nil && r.Intn(4) > 0 {
							for range ch {
							}
						}
					case 1, 2:
						var st psrpc.ClientStream[str, str]
						st, err = client.OpenStream[str, str](ctx, cl, streams[r.Intn(3)], nil, tm)
						if err == nil {
							sw := weak.Make(st.Context().Value(canaryKey{}).(*canaryVal))
							remember("stream context", func() bool { return sw.Value() != nil })
							for j := r.Intn(6); j > 0; j-- {
								_ = st.Send(S("x"), psrpc.WithTimeout(r.Ms(80)))
								if r.Intn(2) == 0 {
									select {
									case <-st.Channel():
									case <-time.After(r.Ms(30)):
									}
								}
							}
							if r.Intn(3) == 0 {
								go func() { _ = st.Err(); _ = st.Close(psrpc.ErrRequestCanceled) }()
							}
							_ = st.Close(nil)
						}
					case 3:
						var sub bus.Subscription[str]
						if r.Intn(2) == 0 {
							sub, err = client.Join[str](ctx, cl, mSub, topic)
						} else {
							sub, err = client.JoinQueue[str](ctx, cl, mQSub, topic)
						}
						if err == nil {
							for j := r.Intn(4); j > 0; j-- {
								select {
								case <-sub.Channel():
								case <-time.After(r.Ms(50)):
								}
							}
							if r.Intn(4) == 0 {
								go func() { _ = sub.Close() }()
							}
							_ = sub.Close()
						}
					default:
						m := methods[r.Intn(len(methods))]
						if m == mMulti {
							m = mNormal
						}
						_, err = call(ctx, cl, m, topic, "x", tm)
						if err == nil {
							rmu.Lock()
							ok++
							rmu.Unlock()
						}
					}
					cancel()
					if r.Intn(3) == 0 {
						time.Sleep(r.Ms(10))
					}
				}
				if r.Intn(2) == 0 {
					cl.Close()
				}
			})
		}
		fs = append(fs, func() {
			time.Sleep(time.Until(end) + r.Ms(400) - 200*time.Millisecond)
			cl.Close()
		})
	}
	if !c.Par(2*time.Minute, fs...) {
		c.Violate("deadlock", "not all calls and closes return\n%s", psrpcStacks())
		return false
	}
	c.Ev("ok %d", ok)
	c.Count("calls_ok", ok)
	return ok > 0
}

type lifeRef struct {
	name  string
	alive func() bool
}

func c26life(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	n := c.NewNet(kinds[r.Intn(3)])
	raw := n.Endpoint()
	before := busState(raw)
	fb := newFaultBus(raw)
	pErr, pDelay := []int{0, 0, 5}[r.Intn(3)], []int{0, 0, 10}[r.Intn(3)]
	fb.onPub = func(ch psrpc.Channel, msg proto.Message) error {
		if pDelay > 0 && r.Intn(100) < pDelay {
			time.Sleep(r.Ms(100))
		}
		if pErr > 0 && r.Intn(100) < pErr {
			return errInjected
		}
		return nil
	}
	subErr := false
	fb.onSub = func(ch psrpc.Channel, queue bool) error {
		if subErr && r.Intn(10) == 0 {
			return errInjected
		}
		return nil
	}
	c.Shape("perr=%d pdelay=%d", pErr, pDelay)
	cb := newCountBus(fb)
	kn := &canaries{}
	var refs []lifeRef
	var rmu sync.Mutex
	if !c26actors(c, n, cb, kn, r, &refs, &rmu) {
		if c.Violated() {
			return
		}
		c.Trivial()
	}
	// the longest timeouts of calls still executing, affinity timers, acknowledgements
	time.Sleep(5*time.Second + 2*c.Slack())
	c.LeakCheck(base, "goroutine-left")
	if l := cb.list(); len(l) > 0 {
		c.Violate("subscription-left", "subscriptions left open: %v", l)
	}
	if len(cb.twice) > 0 {
		c.Violate("closed-twice", "subscriptions closed twice: %v", cb.twice)
	}
	c.Count("subscriptions", cb.opened)
	if g := stateGrowth(before, busState(raw)); g != "" {
		c.Violate("bus-state", "after everything was closed the bus holds: %s", g)
	}
	left := kn.alive()
	if len(left) > 0 {
		c.Violate("context-left", "the contexts of %d finished calls are still referred to: %v", len(left), left[:min(len(left), 5)])
	}
	for _, w := range refs {
		if w.alive() {
			c.ViolateKey("object-left", w.name, "a closed %s is still referred to", w.name)
			break
		}
	}
	c.Count("objects_collected", len(refs)+len(kn.w))
}
