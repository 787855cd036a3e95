package zverif

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C05: deadlines bound the caller and the server.

func init() {
	reg("C05", "deadlines", 1800, 18000, c05)
	reg("C05", "sends", 700, 7000, c05sends)
}

// lagBus delays messages in flight: publishing returns at once, the message is sent later.
func lagBus(b psrpc.MessageBus, who string, lag func(m tapMsg) time.Duration) psrpc.MessageBus {
	return tap(b, who, func(m tapMsg) (int, error) {
		d := lag(m)
		if d <= 0 {
			return 1, nil
		}
		time.AfterFunc(d, func() { _ = b.Publish(context.Background(), m.Channel, m.Msg) })
		return 0, nil
	})
}

type c05call struct {
	id                            string
	kind                          int // 0 rpc, 1 multi, 2 stream
	method                        string
	def, timeout, ctxIn, cancelAt time.Duration
	reqLag, claimLag, respLag     time.Duration
	handler                       time.Duration

	mu       sync.Mutex
	reqID    string
	streamID string
	arrived  time.Time // request read by the server
	started  time.Time
	deadline time.Time
	hasDl    bool
	ctxErrAt time.Time
	expiry   time.Time
	answered time.Time // response read by the client
	starts   int
}

func c05(c *C) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	svc := c.SvcName()
	slack := c.Slack() + 10*time.Millisecond
	ncalls := 1 + r.Intn(4)
	ds := func(max int) time.Duration { return time.Duration(r.Intn(max*4)) * 250 * time.Millisecond }

	var calls []*c05call
	def := []time.Duration{0, 0, 1500 * time.Millisecond, 5 * time.Second}[r.Intn(4)]
	c.Shape("def=%v mode=%d", def, c.idx%4)
	for k := 0; k < ncalls; k++ {
		x := &c05call{id: fmt.Sprintf("d%d", k), kind: r.Intn(4) % 3, def: def}
		switch x.kind {
		case 0:
			x.method = []string{mNormal, mAff, mQueueNC, mSingle}[r.Intn(4)]
		case 1:
			x.method = mMulti
		case 2:
			x.method = []string{mStream, mStreamNC, mStreamAff}[r.Intn(3)]
		}
		if r.Intn(2) == 0 {
			x.timeout = 250*time.Millisecond + ds(7)
		}
		if r.Intn(3) == 0 {
			x.ctxIn = 250*time.Millisecond + ds(7)
			if r.Intn(10) == 0 {
				x.ctxIn = -time.Second
			}
		}
		if r.Intn(4) == 0 {
			x.cancelAt = 250*time.Millisecond + ds(5)
		}
		if r.Intn(2) == 0 {
			x.reqLag = ds(4)
		}
		if r.Intn(3) == 0 {
			x.claimLag = ds(3)
		}
		if r.Intn(3) == 0 {
			x.respLag = ds(4)
		}
		x.handler = ds(5)
		if r.Intn(3) == 0 {
			x.handler = 0
		}
		calls = append(calls, x)
		c.Shape("%+v/%s/%v/%v/%v/%v/%v/%v/%v", x.kind, x.method, x.timeout, x.ctxIn, x.cancelAt, x.reqLag, x.claimLag, x.respLag, x.handler)
	}
	find := func(f func(x *c05call) bool) *c05call {
		for _, x := range calls {
			x.mu.Lock()
			ok := f(x)
			x.mu.Unlock()
			if ok {
				return x
			}
		}
		return nil
	}
	byReq := func(id string) *c05call { return find(func(x *c05call) bool { return x.reqID == id }) }
	lag := func(m tapMsg) time.Duration {
		switch v := m.Msg.(type) {
		case *internal.Request:
			if x := find(func(x *c05call) bool { return x.id == v.Metadata["call"] }); x != nil {
				x.mu.Lock()
				x.reqID = v.RequestId
				x.expiry = time.Unix(0, v.Expiry)
				x.mu.Unlock()
				return x.reqLag
			}
		case *internal.Response:
			if x := byReq(v.RequestId); x != nil {
				return x.respLag
			}
		case *internal.ClaimRequest:
			if x := byReq(v.RequestId); x != nil {
				return x.claimLag
			}
		case *internal.Stream:
			if o := v.GetOpen(); o != nil {
				if x := find(func(x *c05call) bool { return x.id == o.Metadata["call"] }); x != nil {
					x.mu.Lock()
					x.reqID, x.streamID = v.RequestId, v.StreamId
					x.expiry = time.Unix(0, v.Expiry)
					x.mu.Unlock()
					return x.reqLag
				}
			} else if v.GetAck() != nil {
				if x := byReq(v.RequestId); x != nil {
					return x.respLag
				}
			}
		}
		return 0
	}
	onRead := func(ch psrpc.Channel, b []byte) bool {
		m, _ := decodeEnvelope(b)
		now := time.Now()
		set := func(x *c05call, p func(x *c05call) *time.Time) {
			if x != nil {
				x.mu.Lock()
				if t := p(x); t.IsZero() {
					*t = now
				}
				x.mu.Unlock()
			}
		}
		arr := func(x *c05call) *time.Time { return &x.arrived }
		ans := func(x *c05call) *time.Time { return &x.answered }
		switch v := m.(type) {
		case *internal.Request:
			set(byReq(v.RequestId), arr)
		case *internal.Response:
			set(byReq(v.RequestId), ans)
		case *internal.Stream:
			if v.GetOpen() != nil {
				set(byReq(v.RequestId), arr)
			} else if v.GetAck() != nil {
				set(byReq(v.RequestId), ans)
			}
		}
		return true
	}
	start := func(ctx context.Context) *c05call {
		h := metadata.IncomingHeader(ctx)
		x := find(func(x *c05call) bool { return x.id == h.Metadata["call"] })
		if x == nil {
			c.Violate("unknown-call", "handler started for %v", h)
			return calls[0]
		}
		c.Ev("start %s", x.id)
		x.mu.Lock()
		x.starts++
		x.started = time.Now()
		x.deadline, x.hasDl = ctx.Deadline()
		x.mu.Unlock()
		return x
	}
	s := c.Server(tapRead(lagBus(n.Endpoint(), "s", lag), onRead), svc, "s")
	h := func(ctx context.Context, req str) (str, error) {
		x := start(ctx)
		if x.handler > 0 {
			// handlers mostly watch their context
			select {
			case <-ctx.Done():
				x.mu.Lock()
				x.ctxErrAt = time.Now()
				x.mu.Unlock()
				if r0(x.id)%2 == 0 {
					return nil, ctx.Err()
				}
				time.Sleep(x.handler)
			case <-time.After(x.handler):
			}
		}
		return S("ok " + req.Value), nil
	}
	for _, m := range []string{mNormal, mAff, mQueueNC, mSingle, mMulti} {
		var aff server.AffinityFunc[str]
		if m == mAff {
			aff = func(context.Context, str) float32 { return 0.5 }
		}
		must(server.RegisterHandler(s, m, nil, h, aff))
	}
	for _, m := range []string{mStream, mStreamNC, mStreamAff} {
		var aff server.StreamAffinityFunc
		if m == mStreamAff {
			aff = func(context.Context) float32 { return 0.5 }
		}
		must(server.RegisterStreamHandler(s, m, nil, func(st psrpc.ServerStream[str, str]) error {
			start(st.Context())
			<-st.Context().Done()
			return nil
		}, aff))
	}
	var copts []psrpc.ClientOption
	if def > 0 {
		copts = append(copts, psrpc.WithClientTimeout(def))
	}
	copts = append(copts, psrpc.WithClientSelectTimeout(20*time.Second))
	cl := c.Client(tapRead(lagBus(n.Endpoint(), "c", lag), onRead), svc, "c", copts...)
	c.Settle()

	outcomes := map[string]int{}
	var fs []func()
	for _, x := range calls {
		fs = append(fs, func() {
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": x.id})
			begin := time.Now()
			t := x.def
			if t == 0 {
				t = psrpc.DefaultClientTimeout
				if x.ctxIn != 0 { // a context's deadline replaces the default
					t = time.Hour
				}
			}
			var opts []psrpc.RequestOption
			if x.timeout > 0 {
				opts = append(opts, psrpc.WithRequestTimeout(x.timeout))
				t = x.timeout
			}
			if x.method == mAff || x.method == mStreamAff {
				opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true}))
			}
			end := begin.Add(t)
			if x.ctxIn != 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithDeadline(ctx, begin.Add(x.ctxIn))
				defer cancel()
				if d := begin.Add(x.ctxIn); d.Before(end) {
					end = d
				}
			}
			var canceledAt time.Time
			ctx, cancel := context.WithCancel(ctx)
			defer cancel()
			if x.cancelAt > 0 {
				canceledAt = begin.Add(x.cancelAt)
				time.AfterFunc(x.cancelAt, cancel)
			}
			c.Ev("call %s", x.id)
			var err error
			var got []string
			switch x.kind {
			case 0:
				var v string
				v, err = call(ctx, cl, x.method, nil, x.id, opts...)
				if err == nil {
					got = append(got, v)
				}
			case 1:
				var ch <-chan *psrpc.Response[str]
				ch, err = callMulti(ctx, cl, x.method, nil, x.id, opts...)
				if err == nil {
					for m := range ch {
						if m.Err != nil {
							got = append(got, "ERR "+m.Err.Error())
						} else {
							got = append(got, m.Result.Value)
						}
					}
				}
			case 2:
				var st psrpc.ClientStream[str, str]
				st, err = client.OpenStream[str, str](ctx, cl, x.method, nil, opts...)
				if err == nil {
					got = append(got, "ok "+x.id)
					defer st.Close(nil)
				}
			}
			ret := time.Now()
			c.Ev("ret %s %q %v", x.id, got, err)
			if ret.After(end.Add(slack)) && !begin.After(end) || begin.After(end) && ret.After(begin.Add(slack)) {
				c.Violate("late-return", "%s returned %v after its end at %v: %q, %v", x.id, ret.Sub(end), end.Sub(begin), got, err)
			}
			canceled := !canceledAt.IsZero() && canceledAt.Before(end)
			if canceled && ret.After(canceledAt.Add(slack)) {
				c.Violate("late-return", "%s returned %v after it was canceled at %v: %q, %v", x.id, ret.Sub(canceledAt), canceledAt.Sub(begin), got, err)
			}
			giveUp := end
			if canceled {
				giveUp = canceledAt
			}
			time.Sleep(20 * time.Second)
			x.mu.Lock()
			defer x.mu.Unlock()
			what := fmt.Sprintf("%s (%s, default %v, timeout %v, context %v, cancel %v, handler %v, lags %v %v %v)", x.id, x.method, x.def, x.timeout, x.ctxIn, x.cancelAt, x.handler, x.reqLag, x.claimLag, x.respLag)
			// the server
			if x.starts > 1 {
				c.Violate("started-twice", "%s: %d handlers", what, x.starts)
			}
			if x.starts > 0 {
				if x.arrived.IsZero() || !x.arrived.Before(end.Add(slack)) {
					c.Violate("expired-started", "%s: arrived %v after the end, its handler was started", what, x.arrived.Sub(end))
				}
				if !x.arrived.IsZero() && !x.arrived.Before(x.expiry) {
					c.Violate("expired-started", "%s: arrived %v after its expiry, its handler was started", what, x.arrived.Sub(x.expiry))
				}
				if x.kind < 2 {
					if !x.hasDl {
						c.Violate("no-handler-deadline", "%s: the handler's context has no deadline", what)
					} else {
						if x.deadline.After(end.Add(slack)) {
							c.Violate("handler-deadline", "%s: the handler's deadline is %v after the end", what, x.deadline.Sub(end))
						}
						if !canceled && code(err) == psrpc.DeadlineExceeded && x.deadline.After(ret) {
							c.Violate("handler-deadline", "%s: the handler's deadline is %v after the call returned", what, x.deadline.Sub(ret))
						}
						if x.deadline.Before(end.Add(-time.Millisecond)) {
							c.Violate("handler-deadline-early", "%s: the handler's deadline is %v before the end", what, end.Sub(x.deadline))
						}
					}
				}
			} else if !x.arrived.IsZero() && x.arrived.Before(giveUp.Add(-slack)) && x.kind != 2 && (x.method == mQueueNC || x.method == mSingle || x.method == mMulti) {
				c.Violate("valid-not-started", "%s: arrived %v before the end, but was not handled", what, giveUp.Sub(x.arrived))
			}
			if x.expiry.After(end.Add(slack)) {
				c.Violate("expiry", "%s: sent with an expiry %v after the end", what, x.expiry.Sub(end))
			}
			// the caller
			arrivedInTime := !x.answered.IsZero() && x.answered.Before(giveUp.Add(-slack))
			var o string
			switch {
			case len(got) > 0:
				o = "answer"
				for _, v := range got {
					if v != "ok "+x.id && !(x.kind == 1 && strings.HasPrefix(v, "ERR")) {
						c.Violate("wrong-answer", "%s: got %q", what, v)
					}
				}
				if x.answered.IsZero() {
					c.Violate("answer-from-nowhere", "%s: got %q, nothing arrived", what, got)
				}
				if x.kind != 1 && ret.After(x.answered.Add(slack)) {
					c.Violate("slow-return", "%s: the answer arrived %v before the call returned", what, ret.Sub(x.answered))
				}
			case x.kind == 1 && err == nil:
				o = "closed"
				if arrivedInTime {
					c.Violate("answer-dropped", "%s: the answer arrived %v before the end", what, giveUp.Sub(x.answered))
				}
				if ret.Before(giveUp) && !begin.After(end) {
					c.Violate("early-return", "%s: closed %v before the end", what, giveUp.Sub(ret))
				}
			case x.kind == 0 && x.answered.IsZero() == false && arrivedInTime && err != nil && r0(x.id)%2 == 0 && code(err) != psrpc.DeadlineExceeded && code(err) != psrpc.Canceled && code(err) != psrpc.Unavailable:
				o = "handler-error"
			default:
				o = string(code(err))
				if arrivedInTime {
					c.Violate("answer-dropped", "%s: the answer arrived %v before the end, but the call returned %v", what, giveUp.Sub(x.answered), err)
				}
				claims := x.method == mNormal || x.method == mAff || x.method == mStream || x.method == mStreamAff
				switch cd := code(err); {
				case begin.After(end): // expired before it started
					if cd != psrpc.DeadlineExceeded && !(claims && cd == psrpc.Unavailable) && cd != psrpc.Internal {
						c.Violate("wrong-error", "%s: %v (%s) for an expired context", what, err, cd)
					}
				case canceled && canceledAt.Before(end.Add(-slack)):
					if cd != psrpc.Canceled {
						c.Violate("wrong-error", "%s: %v (%s) after cancellation", what, err, cd)
					}
				case canceled || !canceledAt.IsZero() && canceledAt.Before(end.Add(slack)):
					if cd != psrpc.Canceled && cd != psrpc.DeadlineExceeded && cd != psrpc.Unavailable && !(cd == psrpc.Unknown && x.ctxErrAt.After(begin)) {
						c.Violate("wrong-error", "%s: %v (%s)", what, err, cd)
					}
				case cd == psrpc.DeadlineExceeded:
				case cd == psrpc.Unavailable && claims: // nobody was selected
				case cd == psrpc.Unknown && x.ctxErrAt.After(begin): // the handler's answer
				default:
					c.Violate("wrong-error", "%s: %v (%s) at the deadline", what, err, cd)
				}
				if code(err) != psrpc.Unknown && ret.Before(giveUp.Add(-time.Millisecond)) && !begin.After(end) {
					c.Violate("early-return", "%s: returned %v, %v before the end", what, err, giveUp.Sub(ret))
				}
			}
			c.mu.Lock()
			outcomes[o]++
			c.mu.Unlock()
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls did not return\n%s", psrpcStacks())
		return
	}
	for o, k := range outcomes {
		c.Count("outcome."+o, k)
	}
}

// c05sends: sends on a stream end with the acknowledgement, or when their time is over.
func c05sends(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	slack := c.Slack() + 10*time.Millisecond
	// lags are multiples of half a second, timeouts lie in between
	tm := func(none int) time.Duration {
		if r.Intn(4) < none {
			return 0
		}
		return 250*time.Millisecond + time.Duration(r.Intn(10))*500*time.Millisecond
	}
	lg := func() time.Duration {
		if r.Intn(3) == 0 {
			return 0
		}
		return time.Duration(r.Intn(7)) * 500 * time.Millisecond
	}
	clientTmo, openTmo, serverTmo := tm(2), tm(2), tm(2)
	first := func(ds ...time.Duration) time.Duration {
		for _, d := range ds {
			if d > 0 {
				return d
			}
		}
		return 0
	}
	own := []time.Duration{first(openTmo, clientTmo, psrpc.DefaultClientTimeout), first(serverTmo, psrpc.DefaultServerTimeout)}
	reads := r.Intn(4) != 0 // nobody reads otherwise: there is room for one or two messages
	size := []int{1, 2}[r.Intn(2)]
	if reads {
		size = 100
	}
	c.Shape("client=%v open=%v server=%v reads=%v size=%d", clientTmo, openTmo, serverTmo, reads, size)

	type send struct {
		id          string
		side        int
		tmo         time.Duration
		msgLag, ack time.Duration
		after       time.Duration
	}
	var sends []*send
	for k := 1 + r.Intn(8); k > 0; k-- {
		x := &send{id: fmt.Sprintf("m%d", k), side: r.Intn(2), tmo: tm(2), msgLag: lg(), ack: lg(), after: r0d(r)}
		if !reads {
			x.msgLag, x.ack = 0, 0
		}
		sends = append(sends, x)
		c.Shape("%+v", *x)
	}
	var mu sync.Mutex
	byReq := map[string]*send{}
	lag := func(m tapMsg) time.Duration {
		v, ok := m.Msg.(*internal.Stream)
		if !ok {
			return 0
		}
		mu.Lock()
		defer mu.Unlock()
		if x := v.GetMessage(); x != nil {
			sv := S("")
			if proto.Unmarshal(x.RawMessage, sv) == nil {
				for _, y := range sends {
					if y.id == sv.Value {
						byReq[v.RequestId] = y
						return y.msgLag
					}
				}
			}
		}
		if v.GetAck() != nil {
			if y := byReq[v.RequestId]; y != nil {
				return y.ack
			}
		}
		return 0
	}
	var sopts []psrpc.ServerOption
	if serverTmo > 0 {
		sopts = append(sopts, psrpc.WithServerTimeout(serverTmo))
	}
	var copts []psrpc.ClientOption
	if clientTmo > 0 {
		copts = append(copts, psrpc.WithClientTimeout(clientTmo))
	}
	copts = append(copts, psrpc.WithClientChannelSize(size))
	sopts = append(sopts, psrpc.WithServerChannelSize(size))
	s := c.Server(lagBus(n.Endpoint(), "s", lag), svc, "s", sopts...)
	sst := make(chan psrpc.ServerStream[str, str], 1)
	method := []string{mStream, mStreamNC}[r.Intn(2)]
	must(server.RegisterStreamHandler(s, method, nil, func(st psrpc.ServerStream[str, str]) error {
		sst <- st
		<-st.Context().Done()
		return nil
	}, nil))
	cl := c.Client(lagBus(n.Endpoint(), "c", lag), svc, "c", copts...)
	c.Settle()
	var opts []psrpc.RequestOption
	if openTmo > 0 {
		opts = append(opts, psrpc.WithRequestTimeout(openTmo))
	}
	cst, err := client.OpenStream[str, str](context.Background(), cl, method, nil, opts...)
	if err != nil {
		c.Violate("open", "open with a timeout of %v: %v", own[0], err)
		return
	}
	ss := <-sst
	type end interface {
		Send(str, ...psrpc.StreamOption) error
		Channel() <-chan str
	}
	ends := []end{cst, ss}
	var got [2]int
	if reads {
		for i, e := range ends {
			go func() {
				for range e.Channel() {
					mu.Lock()
					got[i]++
					mu.Unlock()
				}
			}()
		}
	}
	var acked [2]int
	outcomes := map[string]int{}
	var fs []func()
	for _, x := range sends {
		fs = append(fs, func() {
			time.Sleep(x.after)
			var o []psrpc.StreamOption
			t := own[x.side]
			if x.tmo > 0 {
				o = append(o, psrpc.WithTimeout(x.tmo))
				t = x.tmo
			}
			begin := time.Now()
			err := ends[x.side].Send(S(x.id), o...)
			d := time.Since(begin)
			what := fmt.Sprintf("a send of side %d (own timeout %v, stream's %v, lags %v and %v, reads %v)", x.side, x.tmo, own[x.side], x.msgLag, x.ack, reads)
			c.Ev("sent %s %v %v", x.id, d.Round(100*time.Millisecond), err)
			if d > t+slack {
				c.Violate("send-late", "%s returned after %v: %v", what, d, err)
			}
			var cd psrpc.ErrorCode
			if err != nil {
				cd = code(err)
			}
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				acked[x.side]++
				outcomes["ok"]++
				if need := x.msgLag + x.ack; d < need || d > need+slack {
					c.Violate("send-time", "%s succeeded after %v", what, d)
				}
				return
			}
			outcomes["timeout"]++
			if cd != psrpc.DeadlineExceeded {
				c.Violate("send-error", "%s: %v", what, err)
			}
			if d < t {
				c.Violate("send-early", "%s returned %v after %v", what, err, d)
			}
			if reads && x.msgLag+x.ack+slack < t {
				c.Violate("ack-dropped", "%s: the acknowledgement arrived before the end, the result is %v", what, err)
			}
		})
	}
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "sends do not return\n%s", psrpcStacks())
		return
	}
	if !reads {
		for i := range acked {
			if acked[i] > size {
				c.Violate("full", "%d messages are acknowledged, there is room for %d", acked[i], size)
			}
		}
	}
	if err := cst.Close(nil); err != nil {
		c.Violate("close", "%v", err)
	}
	time.Sleep(10 * time.Second)
	for k, v := range outcomes {
		c.Count("send_"+k, v)
	}
	if len(sends) == 0 {
		c.Trivial()
	}
}

func r0d(r *rand.Rand) time.Duration { return time.Duration(r.Intn(4)) * 700 * time.Millisecond }
