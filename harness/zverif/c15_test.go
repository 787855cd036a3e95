package zverif

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/server"
)

// C15: a client keeps working under any traffic and stops cleanly.

func init() {
	reg("C15", "noise", 700, 8000, c15noise)
	reg("C15", "close", 700, 8000, c15close)
	reg("C15", "setup", 200, 3000, c15setup)
}

// c15Noise makes messages for the client's channels out of those it saw.
type c15Noise struct {
	mu   sync.Mutex
	reqs []string // request ids in use or over
	strs []string
	n    int
}

func (x *c15Noise) pick(r *lrand, l *[]string) string {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(*l) == 0 || r.Intn(6) == 0 {
		return []string{"", "REQ_unknown00000", "STR_unknown00000", "x"}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		return (*l)[len(*l)-1-r.Intn(min(len(*l), 3))]
	}
	return (*l)[r.Intn(len(*l))]
}

// send publishes one unexpected message. Nothing it says may change a call in progress:
// claims repeat servers' offers and lose, responses are for calls that are over or unknown.
func (x *c15Noise) send(r *lrand, b psrpc.MessageBus, svc, cid string, over func(string) bool) {
	var ch psrpc.Channel
	var m proto.Message
	now := time.Now()
	switch r.Intn(5) {
	case 0, 1:
		ch = info.GetClaimRequestChannel(svc, cid)
		id := x.pick(r, &x.reqs)
		if !over(id) {
			return
		}
		m = &internal.ClaimRequest{RequestId: id, ServerId: "forged", Affinity: float32(r.Intn(3))}
	case 2:
		ch = info.GetResponseChannel(svc, cid)
		id := x.pick(r, &x.reqs)
		if !over(id) {
			return
		}
		m = &internal.Response{RequestId: id, ServerId: "forged", SentAt: now.UnixNano(), Error: "forged", Code: "internal"}
		if r.Intn(2) == 0 {
			m = &internal.Response{RequestId: id}
		}
	default:
		ch = info.GetStreamChannel(svc, cid)
		id := x.pick(r, &x.strs)
		s := &internal.Stream{StreamId: id, RequestId: x.pick(r, &x.reqs), SentAt: now.UnixNano(), Expiry: now.Add(time.Duration(r.Intn(3)-1) * time.Second).UnixNano()}
		switch k := r.Intn(5); {
		case k == 0:
			s.Body = &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "forged"}}
		case k == 1 && over(id):
			s.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: []byte("\x0a\x01z")}}
		case k == 2 && over(id):
			s.Body = &internal.Stream_Close{Close: &internal.StreamClose{Error: "forged", Code: "internal"}}
		case k == 3:
			s.RequestId = "REQ_unknown00000"
			s.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
		default: // no body
		}
		m = s
	}
	_ = b.Publish(context.Background(), ch, m)
	x.mu.Lock()
	x.n++
	x.mu.Unlock()
}

func c15noise(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[c.idx%3])
	base := c.LeakBase()
	svc := c.SvcName()
	size := []int{1, 1, 2, 3, 100}[r.Intn(5)]
	ns := 1 + r.Intn(5)
	dup := r.Intn(3)
	aff := []time.Duration{time.Second, 300 * time.Millisecond}[r.Intn(2)]
	c.Shape("size=%d ns=%d dup=%d aff=%v", size, ns, dup, aff)

	nz := &c15Noise{}
	var ended sync.Map // request and stream ids that are over
	known := map[string]bool{}
	over := func(id string) bool {
		nz.mu.Lock()
		k := known[id]
		nz.mu.Unlock()
		if _, ok := ended.Load(id); ok {
			return true
		}
		return !k
	}
	cid := c.IDs("c", 1)[0]
	lr := c.LRand(1)
	// servers' messages to the client are duplicated and repeated late
	wrapS := func(b psrpc.MessageBus) psrpc.MessageBus {
		return tap(b, "s", func(m tapMsg) (int, error) {
			switch m.Msg.(type) {
			case *internal.ClaimRequest, *internal.Response:
				if dup > 0 && lr.Intn(3) < dup {
					msg := proto.Clone(m.Msg)
					for k := lr.Intn(4); k >= 0; k-- {
						time.AfterFunc(time.Duration(1+lr.Intn(3000))*time.Millisecond, func() { _ = b.Publish(context.Background(), m.Channel, msg) })
					}
					c.Count("repeated", 1)
					return 1 + lr.Intn(4), nil
				}
			}
			return 1, nil
		})
	}
	wrapC := func(b psrpc.MessageBus) psrpc.MessageBus {
		return tap(b, "c", func(m tapMsg) (int, error) {
			nz.mu.Lock()
			defer nz.mu.Unlock()
			switch v := m.Msg.(type) {
			case *internal.Request:
				nz.reqs = append(nz.reqs, v.RequestId)
				known[v.RequestId] = true
				time.AfterFunc(time.Until(time.Unix(0, v.Expiry))+time.Millisecond, func() { ended.Store(v.RequestId, true) })
			case *internal.Stream:
				if v.GetOpen() != nil {
					nz.strs = append(nz.strs, v.StreamId)
					known[v.StreamId] = true
					nz.reqs = append(nz.reqs, v.RequestId)
					known[v.RequestId] = true
				}
				if v.GetClose() != nil {
					ended.Store(v.StreamId, true)
					nz.mu.Unlock()
					time.Sleep(lr.Ms(60) * time.Duration(lr.Intn(2)))
					nz.mu.Lock()
				}
			}
			return 1, nil
		})
	}
	var servers []*server.RPCServer
	for i := 0; i < ns; i++ {
		s := c.Server(wrapS(n.Endpoint()), svc, fmt.Sprintf("s%d", i))
		servers = append(servers, s)
		h := func(ctx context.Context, req str) (str, error) {
			if r0(req.Value)%3 == 0 {
				time.Sleep(time.Duration(r0(req.Value)%200) * time.Millisecond)
			}
			return S(req.Value), nil
		}
		for _, m := range []string{mNormal, mMulti, mQueueNC} {
			must(server.RegisterHandler(s, m, nil, h, nil))
		}
		must(server.RegisterHandler(s, mAff, nil, h, func(context.Context, str) float32 { return float32(1 + i%2) }))
		must(server.RegisterStreamHandler(s, mStreamNC, []string{fmt.Sprint(i)}, func(st psrpc.ServerStream[str, str]) error {
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for st.Context().Err() == nil {
						_ = st.Send(S("flood"), psrpc.WithTimeout(time.Duration(1+lr.Intn(20))*time.Millisecond))
						time.Sleep(lr.Ms(5))
					}
				}()
			}
			wg.Wait()
			return nil
		}, nil))
		must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
			for m := range st.Channel() {
				if err := st.Send(m); err != nil {
					return err
				}
			}
			return nil
		}, nil))
	}
	cb := newCountBus(wrapC(n.Endpoint()))
	cl := c.Client(cb, svc, cid, psrpc.WithClientChannelSize(size), psrpc.WithClientSelectTimeout(aff))
	c.Settle()
	before := stateSize(cl)
	subs := fmt.Sprint(cb.list())

	stop := make(chan struct{})
	var nwg sync.WaitGroup
	for k := 0; k < 1+r.Intn(3); k++ {
		nr, b := c.LRand(10+k), n.Endpoint()
		nwg.Add(1)
		go func() {
			defer nwg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(nr.Intn(100)) * time.Millisecond):
				}
				for k := nr.Intn(8); k > 0; k-- {
					nz.send(nr, b, svc, cid, over)
				}
			}
		}()
	}
	kn := &canaries{}
	var okc, streams atomic.Int64
	do := func(who, k int, rr *lrand) {
		val := fmt.Sprintf("%d.%d", who, k)
		ctx, cancel := context.WithCancel(kn.ctx(context.Background(), val))
		defer cancel()
		tmo := psrpc.WithRequestTimeout(5 * time.Second)
		switch kind := rr.Intn(10); kind {
		case 0, 1, 2:
			m := []string{mNormal, mAff, mQueueNC}[kind]
			res, err := call(ctx, cl, m, nil, val, tmo)
			if err != nil || res != val {
				c.Violate("call-fails", "%s %s: %q, %v", m, val, res, err)
			}
			okc.Add(1)
		case 3: // canceled or expired in the middle
			time.AfterFunc(rr.Ms(400), cancel)
			_, _ = call(ctx, cl, []string{mNormal, mAff, mQueueNC}[rr.Intn(3)], nil, val, psrpc.WithRequestTimeout(time.Duration(1+rr.Intn(500))*time.Millisecond))
		case 4: // answers not read
			_, err := callMulti(ctx, cl, mMulti, nil, val, psrpc.WithRequestTimeout(2*time.Second))
			if err != nil {
				c.Violate("call-fails", "multi %s: %v", val, err)
			}
			time.Sleep(rr.Ms(2500))
		case 5:
			// repeated answers count again, at least those of all servers are there
			ch, err := callMulti(ctx, cl, mMulti, nil, val, psrpc.WithRequestTimeout(3*time.Second))
			if err != nil {
				c.Violate("call-fails", "multi %s: %v", val, err)
				return
			}
			got := 0
			for m := range ch {
				if m.Err != nil || m.Result.Value != val {
					c.Violate("call-fails", "multi %s: %v %v", val, m.Result, m.Err)
				}
				got++
			}
			if got < ns || dup == 0 && got != ns {
				c.Violate("answers", "multi %s: %d answers of %d servers (dup %d)", val, got, ns, dup)
			}
			okc.Add(1)
		case 6, 7:
			st, err := client.OpenStream[str, str](ctx, cl, mStream, nil, tmo)
			if err != nil {
				c.Violate("call-fails", "stream %s: %v", val, err)
				return
			}
			streams.Add(1)
			if kind == 7 {
				// fill it without reading
				for k := 0; k < size+3 && k < 8; k++ {
					_ = st.Send(S(val), psrpc.WithTimeout(200*time.Millisecond))
				}
				time.Sleep(rr.Ms(500))
				if rr.Intn(2) == 0 {
					cancel()
				} else {
					st.Close(nil)
				}
				return
			}
			if err := st.Send(S(val)); err != nil {
				c.Violate("call-fails", "stream %s: send: %v", val, err)
			}
			select {
			case m := <-st.Channel():
				if m == nil || m.Value != val {
					c.Violate("call-fails", "stream %s: got %v, %v", val, m, st.Err())
				}
			case <-time.After(5 * time.Second):
				c.Violate("call-fails", "stream %s: no echo", val)
			}
			st.Close(nil)
			okc.Add(1)
		case 9: // the server sends without pause, the client reads little and goes
			st, err := client.OpenStream[str, str](ctx, cl, mStreamNC, []string{fmt.Sprint(rr.Intn(ns))}, tmo)
			if err != nil {
				c.Violate("call-fails", "stream %s: %v", val, err)
				return
			}
			streams.Add(1)
			for k := rr.Intn(3); k > 0; k-- {
				select {
				case <-st.Channel():
				case <-time.After(rr.Ms(100)):
				}
			}
			time.Sleep(rr.Ms(80))
			switch rr.Intn(3) {
			case 0:
				st.Close(nil)
			default:
				cancel()
			}
		case 8:
			_, err := call(ctx, cl, mNormal, []string{"nobody"}, val, psrpc.WithRequestTimeout(time.Duration(rr.Intn(500))*time.Millisecond))
			if err == nil {
				c.Violate("call-succeeds", "a call that nobody serves succeeded")
			}
		}
		c.Ev("done %s", val)
	}
	var fs []func()
	for w := 0; w < 1+r.Intn(5); w++ {
		rr := c.LRand(100 + w)
		fs = append(fs, func() {
			for k := 0; k < 5; k++ {
				do(w, k, rr)
			}
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	fs = nil
	close(stop)
	nwg.Wait()
	time.Sleep(5*time.Second + c.Slack())
	if g := stateGrowth(before, stateSize(cl)); g != "" {
		c.Violate("trace-left", "after every call and stream has ended the client holds: %s", g)
	}
	if a := kn.alive(); len(a) > 0 {
		c.Violate("trace-left", "the contexts of ended calls are still referred to: %v", a)
	}
	if s := fmt.Sprint(cb.list()); s != subs {
		c.Violate("subscriptions", "the client's subscriptions changed from %s to %s", subs, s)
	}
	res, err := call(context.Background(), cl, mNormal, nil, "last", psrpc.WithRequestTimeout(5*time.Second))
	if err != nil || res != "last" {
		c.Violate("call-fails", "the last call: %q, %v", res, err)
	}
	cl.Close()
	for _, s := range servers {
		s.Close(true)
	}
	time.Sleep(4*time.Second + c.Slack())
	if l := cb.list(); len(l) > 0 {
		c.Violate("subscriptions", "a closed client still holds %v", l)
	}
	c.LeakCheck(base, "leak")
	c.Count("calls", int(okc.Load()))
	c.Count("streams", int(streams.Load()))
	c.Count("noise", nz.n)
	if okc.Load() == 0 {
		c.Trivial()
	}
}

// c15close: calls of every kind are in flight when the client closes.
func c15close(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[c.idx%3])
	base := c.LeakBase()
	svc := c.SvcName()
	size := []int{1, 2, 100}[r.Intn(3)]
	s := c.Server(n.Endpoint(), svc, "s")
	slow := func(ctx context.Context, req str) (str, error) {
		time.Sleep(time.Duration(r0(req.Value)%1500) * time.Millisecond)
		return S(req.Value), nil
	}
	for _, m := range []string{mNormal, mAff, mMulti, mQueueNC} {
		must(server.RegisterHandler(s, m, nil, slow, nil))
	}
	ended := newTally()
	must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
		id := streamLabel(st.Context())
		for m := range st.Channel() {
			_ = st.Send(m, psrpc.WithTimeout(time.Second))
		}
		ended.add(id)
		return st.Err()
	}, nil))
	cb := newCountBus(n.Endpoint())
	cl := c.Client(cb, svc, "", psrpc.WithClientChannelSize(size))
	// updates are independent of the client once joined
	sub, err := client.Join[str](context.Background(), cl, mSub, nil)
	must(err)
	c.Settle()

	closeAt := time.Duration(r.Intn(1500)) * time.Millisecond
	closers := 1 + r.Intn(3)
	again := r.Intn(2) == 0
	c.Shape("size=%d at=%v closers=%d", size, closeAt, closers)
	t0 := time.Now()
	var mu sync.Mutex
	var closedAt time.Time // Close has returned
	kn := &canaries{}
	var refused, finished, sends int
	type strm struct {
		st psrpc.ClientStream[str, str]
		id string
	}
	var open []strm
	one := func(w, k int, rr *lrand) {
		val := fmt.Sprintf("%d.%d", w, k)
		tmo := time.Duration(100+rr.Intn(1500)) * time.Millisecond
		mu.Lock()
		isClosed := !closedAt.IsZero()
		mu.Unlock()
		start := time.Now()
		ctx := kn.ctx(context.Background(), val)
		var err error
		kind := rr.Intn(5)
		switch kind {
		case 0, 1, 2:
			var res str
			res, err = client.RequestSingle[str](ctx, cl, []string{mNormal, mAff, mQueueNC}[kind], nil, S(val), psrpc.WithRequestTimeout(tmo))
			if err == nil && res.GetValue() != val {
				c.Violate("wrong-answer", "%s got %v", val, res)
			}
		case 3:
			var ch <-chan *psrpc.Response[str]
			if ch, err = callMulti(ctx, cl, mMulti, nil, val, psrpc.WithRequestTimeout(tmo)); err == nil {
				for range ch {
				}
			}
		case 4:
			var st psrpc.ClientStream[str, str]
			id := fmt.Sprintf("st%s", val)
			if st, err = client.OpenStream[str, str](withLabel(ctx, id), cl, mStream, nil, psrpc.WithRequestTimeout(tmo)); err == nil {
				mu.Lock()
				open = append(open, strm{st, id})
				mu.Unlock()
				for k := 0; k < 3; k++ {
					if st.Send(S(val), psrpc.WithTimeout(tmo)) == nil {
						mu.Lock()
						sends++
						mu.Unlock()
					}
					select {
					case <-st.Channel():
					case <-time.After(rr.Ms(300)):
					}
				}
			}
		}
		if d := time.Since(start); kind != 4 && d > tmo+c.Slack() || kind == 4 && err != nil && d > tmo+c.Slack() {
			c.Violate("late", "%s with a timeout of %v returned after %v (%v)", val, tmo, d, err)
		}
		if isClosed && (!errors.Is(err, psrpc.ErrClientClosed) || time.Since(start) > c.Slack()) {
			c.Violate("not-refused", "a call (kind %d) on the closed client: %v", kind, err)
		}
		mu.Lock()
		if err == nil {
			finished++
		} else if isClosed {
			refused++
		}
		mu.Unlock()
		c.Ev("call %d %v", kind, err == nil)
	}
	var fs []func()
	for w := 0; w < 2+r.Intn(4); w++ {
		rr := c.LRand(100 + w)
		fs = append(fs, func() {
			time.Sleep(rr.Ms(200))
			for k := 0; k < 20 && time.Since(t0) < closeAt+time.Second; k++ {
				one(w, k, rr)
			}
		})
	}
	for k := 0; k < closers; k++ {
		d := time.Duration(r.Intn(2)*r.Intn(300)) * time.Millisecond
		fs = append(fs, func() {
			time.Sleep(closeAt + d)
			cl.Close()
			mu.Lock()
			if closedAt.IsZero() {
				closedAt = time.Now()
			}
			mu.Unlock()
			c.Ev("closed")
			if again {
				cl.Close()
			}
		})
	}
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "calls or closes do not return\n%s", psrpcStacks())
		return
	}
	fs = nil
	for k := 0; k < 4; k++ {
		one(99, k, c.LRand(999))
	}
	if _, err := client.Join[str](context.Background(), cl, mSub, nil); !errors.Is(err, psrpc.ErrClientClosed) {
		c.Violate("not-refused", "Join on the closed client: %v", err)
	}
	if _, err := client.JoinQueue[str](context.Background(), cl, mQSub, nil); !errors.Is(err, psrpc.ErrClientClosed) {
		c.Violate("not-refused", "JoinQueue on the closed client: %v", err)
	}
	time.Sleep(4*time.Second + c.Slack())
	// its streams have ended, on both sides
	for _, x := range open {
		if !c.Within(time.Minute, func() {
			for range x.st.Channel() {
			}
		}) {
			c.Violate("stream-open", "the stream %s of the closed client is not closed", x.id)
			return
		}
		if x.st.Context().Err() == nil || x.st.Err() == nil {
			c.Violate("stream-open", "the stream %s of the closed client: context %v, Err %v", x.id, x.st.Context().Err(), x.st.Err())
		}
		if err := x.st.Send(S("x")); err == nil {
			c.Violate("stream-open", "a send on the stream %s of the closed client succeeds", x.id)
		}
		if ended.get(x.id) != 1 {
			c.Violate("stream-open", "the handler of the stream %s of the closed client ended %d times", x.id, ended.get(x.id))
		}
	}
	nopen := len(open)
	open = nil
	// the subscription lives on, and ends when closed
	probe := n.Endpoint()
	must(probe.Publish(context.Background(), cl.GetInfo(mSub, nil).GetRPCChannel(), S("u")))
	select {
	case m := <-sub.Channel():
		if m == nil {
			c.Count("subscription_ended", 1)
		}
	case <-time.After(5 * time.Second):
		c.Count("subscription_silent", 1)
	}
	if l := cb.list(); len(l) > 1 {
		c.Violate("subscriptions", "the closed client still holds %v", l)
	}
	_ = sub.Close()
	time.Sleep(c.Slack())
	if l := cb.list(); len(l) > 0 {
		c.Violate("subscriptions", "the closed client still holds %v", l)
	}
	if len(cb.twice) > 0 {
		c.Violate("subscriptions", "closed twice: %v", cb.twice)
	}
	if st := stateSize(cl); sumState(st, "Methods") > 0 {
		c.Violate("trace-left", "the closed client holds %v", st)
	}
	if a := kn.alive(); len(a) > 0 {
		c.Violate("trace-left", "the contexts of ended calls are still referred to: %v", a)
	}
	s.Close(true)
	time.Sleep(c.Slack())
	c.LeakCheck(base, "leak")
	c.Count("refused", refused)
	c.Count("finished", finished)
	c.Count("open_streams", nopen)
	if finished == 0 && nopen == 0 {
		c.Trivial()
	}
}

// cutBus can end its subscriptions, as a broken connection does.
type cutBus struct {
	psrpc.MessageBus
	mu   sync.Mutex
	subs map[string][]bus.Reader
}

func (b *cutBus) keep(ch psrpc.Channel, r bus.Reader, err error) (bus.Reader, error) {
	if err == nil {
		r = &onceReader{Reader: r}
		b.mu.Lock()
		b.subs[ch.Legacy] = append(b.subs[ch.Legacy], r)
		b.mu.Unlock()
	}
	return r, err
}

type onceReader struct {
	bus.Reader
	closed atomic.Bool
}

func (r *onceReader) Close() error {
	if r.closed.Swap(true) {
		return nil
	}
	return r.Reader.Close()
}

func (b *cutBus) Subscribe(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.Subscribe(ctx, ch, size)
	return b.keep(ch, r, err)
}

func (b *cutBus) SubscribeQueue(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.SubscribeQueue(ctx, ch, size)
	return b.keep(ch, r, err)
}

func (b *cutBus) cut(ch psrpc.Channel) (n int) {
	b.mu.Lock()
	l := b.subs[ch.Legacy]
	b.mu.Unlock()
	if len(l) > 0 {
		_ = l[len(l)-1].Close() // earlier ones are closed
	}
	return len(l)
}

// c15setup: subscriptions of a client fail, or end while it works.
func c15setup(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[c.idx%3])
	base := c.LeakBase()
	svc := c.SvcName()
	s := c.Server(n.Endpoint(), svc, "s")
	must(server.RegisterHandler(s, mNormal, nil, func(ctx context.Context, req str) (str, error) {
		time.Sleep(time.Duration(r0(req.Value)%400) * time.Millisecond)
		return S(req.Value), nil
	}, nil))
	must(server.RegisterHandler(s, mMulti, nil, func(ctx context.Context, req str) (str, error) {
		time.Sleep(time.Duration(r0(req.Value)%400) * time.Millisecond)
		return S(req.Value), nil
	}, nil))
	ended := newTally()
	must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
		id := streamLabel(st.Context())
		for range st.Channel() {
		}
		ended.add(id)
		return nil
	}, nil))
	cuts := &cutBus{MessageBus: n.Endpoint(), subs: map[string][]bus.Reader{}}
	cb := newCountBus(cuts)
	fb := newFaultBus(cb)
	var fails atomic.Int32 // the how manieth subscribe from now fails
	fb.onSub = func(psrpc.Channel, bool) error {
		if fails.Add(-1) == 0 {
			return errInjected
		}
		return nil
	}
	cid := c.IDs("c", 1)[0]
	size := []int{1, 2, 100}[r.Intn(3)]
	opts := []psrpc.ClientOption{psrpc.WithClientID(cid), psrpc.WithClientChannelSize(size)}
	mk := func(streams bool) (*client.RPCClient, error) {
		sd := newSD(svc, cid)
		if streams {
			return client.NewRPCClientWithStreams(sd, fb, opts...)
		}
		return client.NewRPCClient(sd, fb, opts...)
	}
	streams := r.Intn(2) == 0
	nsubs := 2
	if streams {
		nsubs = 3
	}
	c.Shape("size=%d streams=%v", size, streams)

	// no client without its subscriptions
	c.Settle()
	base1 := c.LeakBase()
	for k := 1; k <= nsubs; k++ {
		fails.Store(int32(k))
		cl, err := mk(streams)
		if !errors.Is(err, errInjected) || cl != nil {
			c.Violate("half-made", "subscription %d of a new client fails: the client is %v, the error %v", k, cl != nil, err)
			return
		}
		if l := cb.list(); len(l) > 0 {
			c.Violate("half-made", "subscription %d of a new client fails, it leaves %v", k, l)
		}
		c.Count("refused_clients", 1)
	}
	time.Sleep(c.Slack())
	c.LeakCheck(base1, "leak")
	if c.Violated() {
		return
	}
	fails.Store(0)
	cl, err := mk(streams)
	if err != nil {
		c.Violate("half-made", "a client can't be created after subscriptions failed: %v", err)
		return
	}
	if l := cb.list(); len(l) != nsubs {
		c.Violate("subscriptions", "a new client (streams: %v) holds %v", streams, l)
	}
	c.Cleanup(cl.Close)
	own := cb.list()
	c.Settle()
	ctx := context.Background()
	for k, v := range []string{"a", "b"} {
		fails.Store(1)
		var jerr error
		if k == 0 {
			_, jerr = client.Join[str](ctx, cl, mSub, nil)
		} else {
			_, jerr = client.JoinQueue[str](ctx, cl, mQSub, nil)
		}
		var pe psrpc.Error
		if !errors.As(jerr, &pe) || pe.Code() != psrpc.Internal || !errors.Is(jerr, errInjected) {
			c.Violate("join-error", "joining (queue: %v) when the bus fails: %v", k == 1, jerr)
		}
		if l := cb.list(); fmt.Sprint(l) != fmt.Sprint(own) {
			c.Violate("subscriptions", "joining failed, the subscriptions were %v, are %v", own, l)
		}
		fails.Store(0)
		if res, err := call(ctx, cl, mNormal, nil, v, psrpc.WithRequestTimeout(5*time.Second)); err != nil || res != v {
			c.Violate("call-fails", "after joining failed: %q, %v", res, err)
		}
	}

	// calls are in flight when a subscription ends
	var mu sync.Mutex
	var cutAt time.Time
	var ok, failed, refused int
	var stop atomic.Bool
	kn := &canaries{}
	type strm struct {
		st psrpc.ClientStream[str, str]
		id string
	}
	var open []strm
	one := func(val string, rr *lrand) {
		tmo := time.Duration(100+rr.Intn(900)) * time.Millisecond
		mu.Lock()
		isCut := !cutAt.IsZero() && time.Since(cutAt) > c.Slack()
		mu.Unlock()
		start := time.Now()
		x := kn.ctx(ctx, val)
		var err error
		kind := rr.Intn(3)
		switch {
		case kind == 0 || kind == 1 && !streams:
			var res str
			if res, err = client.RequestSingle[str](x, cl, mNormal, nil, S(val), psrpc.WithRequestTimeout(tmo)); err == nil && res.GetValue() != val {
				c.Violate("wrong-answer", "%s got %v", val, res)
			}
		case kind == 1:
			var st psrpc.ClientStream[str, str]
			if st, err = client.OpenStream[str, str](withLabel(x, val), cl, mStream, nil, psrpc.WithRequestTimeout(tmo)); err == nil {
				mu.Lock()
				open = append(open, strm{st, val})
				mu.Unlock()
			}
		default:
			var ch <-chan *psrpc.Response[str]
			if ch, err = callMulti(x, cl, mMulti, nil, val, psrpc.WithRequestTimeout(tmo)); err == nil {
				for range ch {
				}
			}
		}
		if d := time.Since(start); d > tmo+c.Slack() {
			c.Violate("late", "%s (kind %d) with a timeout of %v returned after %v (%v)", val, kind, tmo, d, err)
		}
		if isCut && !errors.Is(err, psrpc.ErrClientClosed) {
			c.Violate("not-refused", "a call (kind %d) on a client whose subscription has ended: %v", kind, err)
		}
		mu.Lock()
		defer mu.Unlock()
		switch {
		case err == nil:
			ok++
		case isCut:
			refused++
		default:
			failed++
		}
	}
	which := r.Intn(nsubs)
	at := time.Duration(r.Intn(900)) * time.Millisecond
	var fs []func()
	for w := 0; w < 1+r.Intn(4); w++ {
		rr := c.LRand(100 + w)
		fs = append(fs, func() {
			for k := 0; k < 50 && !stop.Load(); k++ {
				one(fmt.Sprintf("%d.%d", w, k), rr)
				time.Sleep(rr.Ms(60))
			}
		})
	}
	fs = append(fs, func() {
		time.Sleep(at)
		ch := []psrpc.Channel{info.GetResponseChannel(svc, cid), info.GetClaimRequestChannel(svc, cid), info.GetStreamChannel(svc, cid)}[which]
		if cuts.cut(ch) == 0 {
			panic("nothing to cut")
		}
		mu.Lock()
		cutAt = time.Now()
		mu.Unlock()
		c.Ev("cut %d", which)
		time.Sleep(time.Second + c.Slack())
		stop.Store(true)
	})
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	fs = nil
	for k := 0; k < 3; k++ {
		one(fmt.Sprintf("last%d", k), c.LRand(999))
	}
	time.Sleep(4*time.Second + c.Slack())
	for _, x := range open {
		if !c.Within(time.Minute, func() {
			for range x.st.Channel() {
			}
		}) || x.st.Context().Err() == nil || x.st.Err() == nil {
			c.Violate("stream-open", "the stream %s of a client whose subscription has ended stays open", x.id)
			return
		}
		if ended.get(x.id) != 1 {
			c.Violate("stream-open", "the handler of the stream %s ended %d times", x.id, ended.get(x.id))
		}
	}
	nopen := len(open)
	open = nil
	if l := cb.list(); len(l) > 0 {
		c.Violate("subscriptions", "subscription %d of a client has ended, it holds %v", which, l)
	}
	if a := kn.alive(); len(a) > 0 {
		c.Violate("trace-left", "the contexts of ended calls are still referred to: %v", a)
	}
	cl.Close()
	s.Close(true)
	time.Sleep(c.Slack())
	c.LeakCheck(base, "leak")
	c.Count("ok", ok)
	c.Count("failed", failed)
	c.Count("refused", refused)
	c.Count("open_streams", nopen)
	c.Count(fmt.Sprintf("cut_%d", which), 1)
}

// sumState adds up all entries but those of the named map.
func sumState(m map[string]int, except string) (n int) {
	for k, v := range m {
		if len(k) < len(except) || k[len(k)-len(except):] != except {
			n += v
		}
	}
	return
}

var _ = bus.Channel{}
