package zverif

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
)

// C18: retries follow the configured policy exactly.

func init() {
	reg("C18", "policy", 10000, 100000, c18policy)
	reg("C18", "calls", 4000, 40000, c18calls)
	reg("C18", "streams", 3000, 30000, c18streams)
}

// a policy with its reference model
type c18pol struct {
	opt   middleware.RetryOptions
	rec   func(error) bool
	desc  string
	param func(err error, attempt int) (bool, time.Duration, time.Duration)
	mu    sync.Mutex
	asked map[string][]string // errors and attempts the policy was asked about
}

// the documented default
func c18recoverable(err error) bool {
	var e psrpc.Error
	if !errors.As(err, &e) {
		if st, ok := status.FromError(err); ok {
			return st.Code() == codes.Unavailable || st.Code() == codes.DeadlineExceeded
		}
		return true
	}
	return e.Code() == psrpc.DeadlineExceeded || e.Code() == psrpc.Unavailable
}

func c18policyOf(r interface{ Intn(int) int }, unlimited bool) *c18pol {
	p := &c18pol{asked: map[string][]string{}}
	p.opt.MaxAttempts = 1 + r.Intn(5)
	if unlimited && r.Intn(6) == 0 {
		p.opt.MaxAttempts = 0
	}
	p.opt.Timeout = []time.Duration{0, 700 * time.Millisecond, 1100 * time.Millisecond}[r.Intn(3)]
	p.opt.Backoff = []time.Duration{0, 150 * time.Millisecond, 400 * time.Millisecond}[r.Intn(3)]
	p.rec = c18recoverable
	switch r.Intn(4) {
	case 0:
		p.rec = func(err error) bool { return code(err) == psrpc.NotFound || code(err) == psrpc.DeadlineExceeded }
		p.opt.IsRecoverable = p.rec
		p.desc += "own-recoverable "
	case 1:
		p.rec = func(err error) bool { return true }
		p.opt.IsRecoverable = p.rec
		p.desc += "all-recoverable "
		p.opt.MaxAttempts = max(p.opt.MaxAttempts, 1)
	}
	if r.Intn(3) == 0 {
		seed := r.Intn(1000)
		maxA := 1 + r.Intn(4)
		p.param = func(err error, attempt int) (bool, time.Duration, time.Duration) {
			h := (seed + attempt*7 + len(err.Error())) % 12
			return attempt < maxA && h != 0, []time.Duration{0, 300 * time.Millisecond, 900 * time.Millisecond}[h%3], []time.Duration{0, 80 * time.Millisecond, 600 * time.Millisecond, time.Second}[h%4]
		}
		p.opt.GetRetryParameters = p.param
		p.desc += "own-parameters "
	}
	p.desc += fmt.Sprintf("max=%d timeout=%v backoff=%v", p.opt.MaxAttempts, p.opt.Timeout, p.opt.Backoff)
	return p
}

// next is the reference: whether attempt number n, which failed with err, is repeated.
func (p *c18pol) next(err error, n int) (retry bool, timeout, wait time.Duration) {
	if p.param != nil {
		return p.param(err, n)
	}
	if !p.rec(err) || p.opt.MaxAttempts > 0 && n >= p.opt.MaxAttempts {
		return false, 0, 0
	}
	return true, p.opt.Timeout + time.Duration(n)*p.opt.Backoff, 0
}

func c18errs(r interface{ Intn(int) int }, i int) error {
	switch r.Intn(9) {
	case 0, 1, 2:
		return psrpc.NewErrorf(psrpc.Unavailable, "unavailable %d", i)
	case 3, 4:
		return psrpc.NewErrorf(psrpc.DeadlineExceeded, "deadline %d", i)
	case 5:
		return fmt.Errorf("plain %d", i)
	case 6:
		return fmt.Errorf("wrapped: %w", psrpc.NewErrorf(psrpc.Unavailable, "inner %d", i))
	case 7:
		return psrpc.NewErrorf(psrpc.NotFound, "not found %d", i)
	default:
		return status.Error([]codes.Code{codes.Internal, codes.Unavailable}[i%2], fmt.Sprintf("status %d", i))
	}
}

type c18attempt struct {
	start, end time.Time
	timeout    time.Duration // 0: none set besides the caller's
	err        error
}

// verify compares recorded attempts of one call with the policy. stop is when the caller's
// context ended (zero: never).
func (p *c18pol) verify(c *C, what string, as []c18attempt, stop time.Time, err error, returned time.Time, got, lastRes string, slack time.Duration) {
	var tr []string
	for _, a := range as {
		tr = append(tr, fmt.Sprintf("[%v..%v timeout %v: %v]", a.start.Sub(as[0].start), a.end.Sub(as[0].start), a.timeout, a.err))
	}
	bad := func(rule, f string, a ...any) {
		c.Violate(rule, "%s (%s): %s\n%s", what, p.desc, fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
	}
	timeout, wait := p.opt.Timeout, time.Duration(0)
	for i, a := range as {
		if a.timeout != timeout {
			bad("timeout", "attempt %d ran with timeout %v, the policy says %v", i+1, a.timeout, timeout)
		}
		if i > 0 {
			if d := a.start.Sub(as[i-1].end); d < wait || d > wait+slack {
				bad("wait", "attempt %d started %v after the previous one, the policy says %v", i+1, d, wait)
			}
			if !stop.IsZero() && a.start.After(stop.Add(slack)) {
				bad("after-cancel", "attempt %d started although the context had ended", i+1)
			}
		}
		last := i == len(as)-1
		if a.err == nil {
			if !last {
				bad("after-success", "attempt %d succeeded, and was repeated", i+1)
			} else if err != nil || got != lastRes {
				bad("result", "the last attempt succeeded with %q, the caller got %q, %v", lastRes, got, err)
			}
			return
		}
		var retry bool
		retry, timeout, wait = p.next(a.err, i+1)
		if !last {
			if !retry {
				bad("repeated", "attempt %d must not be repeated", i+1)
			}
			continue
		}
		if !retry {
			if err != a.err {
				bad("error", "the last attempt failed with %v, the caller got %v", a.err, err)
			}
			return
		}
		// the policy goes on: only the end of the context may prevent it
		due := a.end.Add(wait)
		if stop.IsZero() || stop.After(due.Add(slack)) {
			bad("given-up", "attempt %d must be repeated (after %v), the caller got %q, %v", i+1, wait, got, err)
			return
		}
		if !errors.Is(err, psrpc.ErrRequestCanceled) {
			bad("error", "the context ended between attempts, the caller got %v", err)
		}
		at := stop
		if at.Before(a.end) {
			at = a.end
		}
		if d := returned.Sub(at); d > slack {
			bad("late-cancel", "the context ended, the call returned %v later", d)
		}
		c.Count("canceled_between", 1)
	}
}

// c18policy drives the interceptors themselves with scripted attempts.
func c18policy(c *C) {
	r := c.Rand
	p := c18policyOf(r, true)
	icept := middleware.NewRPCRetryInterceptor(p.opt)
	sicept := middleware.NewStreamRetryInterceptor(p.opt)
	n := 1 + r.Intn(3)
	asStream := r.Intn(4) == 0
	c.Shape("stream=%v %s", asStream, p.desc)
	type script struct {
		errs   []error
		durs   []time.Duration
		aware  bool
		opts   []psrpc.RequestOption
		ctx    context.Context
		cancel context.CancelFunc
		stop   time.Duration
		dl     bool
	}
	shared := make([]psrpc.RequestOption, 0, 8)
	shared = append(shared, psrpc.WithRequestTimeout(1234*time.Millisecond))
	var fs []func()
	var mu sync.Mutex
	total := 0
	for k := 0; k < n; k++ {
		sc := &script{opts: shared, aware: r.Intn(2) == 0}
		if r.Intn(3) == 0 {
			sc.opts = nil
		}
		fails := r.Intn(8)
		if p.opt.MaxAttempts == 0 && p.param == nil {
			fails = min(fails, 7)
		}
		for i := 0; i < fails; i++ {
			sc.errs = append(sc.errs, c18errs(r, i))
			if r.Intn(5) == 0 {
				sc.errs[i] = sc.errs[max(0, i-1)]
			}
		}
		for i := 0; i <= fails; i++ {
			sc.durs = append(sc.durs, time.Duration(r.Intn(500))*time.Millisecond)
		}
		if r.Intn(2) == 0 && !asStream {
			sc.stop = time.Duration(1+r.Intn(3000)) * time.Millisecond
			sc.dl = r.Intn(2) == 0
		}
		var as []c18attempt
		fs = append(fs, func() {
			base := time.Now()
			ctx := context.Background()
			var stop time.Time
			cancel := func() {}
			if sc.stop > 0 {
				stop = base.Add(sc.stop)
				if sc.dl {
					ctx, cancel = context.WithDeadline(ctx, stop)
				} else {
					ctx, cancel = context.WithCancel(ctx)
					time.AfterFunc(sc.stop, cancel)
				}
			}
			defer cancel()
			attempt := func(ctx context.Context, timeout time.Duration) (proto.Message, error) {
				i := len(as)
				as = append(as, c18attempt{start: time.Now(), timeout: timeout})
				var err error
				if i < len(sc.errs) {
					err = sc.errs[i]
				}
				d := sc.durs[min(i, len(sc.durs)-1)]
				if sc.aware {
					select {
					case <-time.After(d):
					case <-ctx.Done():
						err = psrpc.ErrRequestCanceled
						if errors.Is(ctx.Err(), context.DeadlineExceeded) {
							err = psrpc.ErrRequestTimedOut
						}
					}
				} else {
					time.Sleep(d)
				}
				as[i].end, as[i].err = time.Now(), err
				if err != nil {
					return nil, err
				}
				return S(fmt.Sprint("res", i)), nil
			}
			var err error
			got := ""
			if asStream {
				st := sicept(psrpc.RPCInfo{}, &c18handler{send: func(msg proto.Message, opts []psrpc.StreamOption) error {
					o := &psrpc.StreamOpts{}
					for _, f := range opts {
						f(o)
					}
					_, err := attempt(ctx, o.Timeout)
					return err
				}})
				err = st.Send(S("x"))
				if err == nil {
					got = fmt.Sprint("res", len(as)-1)
				}
			} else {
				h := icept(psrpc.RPCInfo{}, func(ctx2 context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					o := &psrpc.RequestOpts{}
					for _, f := range opts {
						f(o)
					}
					own := 0
					if sc.opts != nil {
						own = 1
					}
					if ctx2 != ctx || req.(str).Value != "x" || len(opts) < own {
						c.Violate("passes-on", "an attempt got context %v, request %v, %d options", ctx2, req, len(opts))
					}
					t := o.Timeout
					if t == 1234*time.Millisecond {
						t = 0
					} else if own == 1 && t == 0 {
						c.Violate("passes-on", "an attempt lost the caller's options")
					}
					return attempt(ctx, t)
				})
				var res proto.Message
				res, err = h(ctx, S("x"), sc.opts...)
				if err == nil {
					got = res.(str).Value
				}
			}
			returned := time.Now()
			p.verify(c, fmt.Sprintf("call %d", k), as, stop, err, returned, got, fmt.Sprint("res", len(as)-1), c.Slack())
			mu.Lock()
			total += len(as)
			mu.Unlock()
			c.Ev("attempts %d %v stop=%v", len(as), err != nil, sc.stop > 0)
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "the call does not return\n%s", psrpcStacks())
		return
	}
	for _, f := range shared[:cap(shared)][1:] {
		if f != nil {
			c.Violate("options", "the caller's option slice was written to")
		}
	}
	c.Count("attempts", total)
}

type c18handler struct {
	send func(proto.Message, []psrpc.StreamOption) error
}

func (h *c18handler) Recv(proto.Message) error { return nil }
func (h *c18handler) Send(m proto.Message, o ...psrpc.StreamOption) error {
	return h.send(m, o)
}
func (h *c18handler) Close(error) error { return nil }

// c18calls: retries of real calls, counted at the server.
func c18calls(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	p := c18policyOf(r, false)
	method := []string{mNormal, mQueueNC, mAff}[r.Intn(3)]
	var mu sync.Mutex
	type rec struct {
		tries []time.Duration // requested timeouts as the server sees them
		errs  []error
		fails []int
		pass  []time.Duration
	}
	recs := map[string]*rec{}
	s := c.Server(n.Endpoint(), svc, "")
	must(server.RegisterHandler(s, method, nil, func(ctx context.Context, req str) (str, error) {
		d, _ := ctx.Deadline()
		d2 := d.Sub(metadata.IncomingHeader(ctx).SentAt)
		mu.Lock()
		x := recs[req.Value]
		k := len(x.tries)
		x.tries = append(x.tries, d2)
		f := 0
		if k < len(x.fails) {
			f = x.fails[k]
		}
		mu.Unlock()
		switch f {
		case 1:
			return nil, psrpc.NewErrorf(psrpc.Unavailable, "unavailable %d", k)
		case 2:
			<-ctx.Done() // times out
			return nil, ctx.Err()
		case 3:
			return nil, psrpc.NewErrorf(psrpc.NotFound, "not found %d", k)
		case 4:
			return nil, psrpc.NewErrorf(psrpc.DeadlineExceeded, "deadline %d", k)
		case 5:
			return nil, psrpc.NewErrorf(psrpc.Internal, "internal %d", k)
		}
		return S(fmt.Sprintf("%s#%d", req.Value, k)), nil
	}, nil))
	perRequest := r.Intn(2) == 0
	var copts []psrpc.ClientOption
	// attempts as the interceptor's next one sees them
	var watch psrpc.ClientRPCInterceptor = func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			o := &psrpc.RequestOpts{}
			for _, f := range opts {
				f(o)
			}
			res, err := next(ctx, req, opts...)
			mu.Lock()
			x := recs[req.(str).Value]
			x.errs, x.pass = append(x.errs, err), append(x.pass, o.Timeout)
			mu.Unlock()
			return res, err
		}
	}
	own := 2500 * time.Millisecond
	ro := make([]psrpc.RequestOption, 0, 6)
	ro = append(ro, psrpc.WithRequestTimeout(own))
	if perRequest {
		ro = append(ro, psrpc.WithRequestInterceptors(middleware.NewRPCRetryInterceptor(p.opt), watch))
	} else {
		copts = append(copts, middleware.WithRPCRetries(p.opt), psrpc.WithClientRPCInterceptors(watch))
	}
	cl := c.Client(n.Endpoint(), svc, "", copts...)
	c.Settle()
	c.Shape("m=%s perReq=%v %s", method, perRequest, p.desc)
	var fs []func()
	for k := 0; k < 1+r.Intn(3); k++ {
		rr := c.NewRand(10 + k)
		fs = append(fs, func() {
			for q := 0; q < 2; q++ {
				id := fmt.Sprintf("v%d.%d", k, q)
				x := &rec{}
				for i := rr.Intn(6); i > 0; i-- {
					x.fails = append(x.fails, []int{1, 1, 2, 3, 4, 5}[rr.Intn(6)])
				}
				mu.Lock()
				recs[id] = x
				mu.Unlock()
				res, err := client.RequestSingle[str](context.Background(), cl, method, nil, S(id), ro...)
				c.Settle()
				mu.Lock()
				cp := *x
				x = &cp
				mu.Unlock()
				// what the policy demands
				want, timeout := 0, p.opt.Timeout
				var ws []time.Duration
				for i := 0; ; i++ {
					if timeout == 0 {
						ws = append(ws, own)
					} else {
						ws = append(ws, timeout)
					}
					want = i + 1
					if i >= len(x.errs) || x.errs[i] == nil {
						break
					}
					var again bool
					if again, timeout, _ = p.next(x.errs[i], i+1); !again {
						break
					}
				}
				short := false // an attempt this short need not reach the server
				for _, w := range ws {
					short = short || w < 2*c.Slack()+100*time.Millisecond
				}
				if len(x.errs) != want || len(x.tries) != want && !short {
					c.Violate("attempts", "call %s (%s, fails %v): %d attempts, %d executions, want %d (%v)", id, p.desc, x.fails, len(x.errs), len(x.tries), want, x.errs)
				}
				for i := 0; i < min(want, len(x.tries), len(x.pass)); i++ {
					if x.tries[i] != ws[i] && !short || x.pass[i] != ws[i] {
						c.Violate("timeout", "call %s (%s): attempt %d ran with timeout %v (server: %v), want %v", id, p.desc, i+1, x.pass[i], x.tries[i], ws[i])
					}
				}
				if len(x.errs) > 0 {
					if last := x.errs[len(x.errs)-1]; err != last {
						c.Violate("error", "call %s: the last attempt ended with %v, the caller got %v", id, last, err)
					} else if err == nil && res.Value != fmt.Sprintf("%s#%d", id, len(x.tries)-1) {
						// the last execution's result
						c.Violate("result", "call %s returned %v", id, res)
					}
				}
				for i, f := range x.fails {
					if i < len(x.errs) && f != 0 && x.errs[i] == nil && !short {
						c.Violate("result", "call %s: attempt %d succeeded, the handler failed", id, i+1)
					}
				}
				c.Count("attempts", len(x.errs))
				c.Ev("call %v %d %v", x.fails, len(x.errs), err != nil)
			}
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "the calls do not return\n%s", psrpcStacks())
	}
	for _, f := range ro[:cap(ro)][len(ro):] {
		if f != nil {
			c.Violate("options", "the caller's option slice was written to")
		}
	}
}

// c18streams: retries of sends on real streams whose messages are lost or refused.
func c18streams(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	p := c18policyOf(r, false)
	p.opt.Timeout = max(p.opt.Timeout, 300*time.Millisecond)
	var mu sync.Mutex
	var as []c18attempt
	var refuse []int
	recvd := map[string]int{}
	s := c.Server(n.Endpoint(), svc, "", psrpc.WithServerStreamInterceptors(func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
		return &c18recv{StreamHandler: next, f: func() bool {
			mu.Lock()
			defer mu.Unlock()
			k := len(as) - 1
			return k >= 0 && k < len(refuse) && refuse[k] == 1
		}}
	}))
	must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
		for m := range st.Channel() {
			mu.Lock()
			recvd[m.Value]++
			mu.Unlock()
		}
		return nil
	}, nil))
	watch := func(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
		return &c18watch{StreamHandler: next, f: func(msg proto.Message, opts []psrpc.StreamOption) error {
			o := &psrpc.StreamOpts{}
			for _, f := range opts {
				f(o)
			}
			mu.Lock()
			k := len(as)
			as = append(as, c18attempt{start: time.Now(), timeout: o.Timeout})
			f := 0
			if k < len(refuse) {
				f = refuse[k]
			}
			mu.Unlock()
			var err error
			switch f {
			case 2:
				err = psrpc.NewErrorf(psrpc.Unavailable, "unavailable %d", k)
			case 3:
				err = psrpc.NewErrorf(psrpc.NotFound, "not found %d", k)
			default:
				err = next.Send(msg, opts...)
			}
			mu.Lock()
			as[k].end, as[k].err = time.Now(), err
			mu.Unlock()
			return err
		}}
	}
	cl := c.Client(n.Endpoint(), svc, "", middleware.WithStreamRetries(p.opt), psrpc.WithClientStreamInterceptors(watch))
	c.Settle()
	c.Shape("%s", p.desc)
	st, err := client.OpenStream[str, str](context.Background(), cl, mStream, nil)
	if err != nil {
		c.Violate("open", "%v", err)
		return
	}
	for q := 0; q < 3; q++ {
		mu.Lock()
		as, refuse = nil, nil
		for i := r.Intn(5); i > 0; i-- {
			refuse = append(refuse, []int{1, 1, 2, 3}[r.Intn(4)])
		}
		mu.Unlock()
		v := fmt.Sprint("m", q)
		err := errors.New("stuck")
		if !c.Within(time.Minute, func() { err = st.Send(S(v)) }) {
			c.Violate("hang", "the send does not return\n%s", psrpcStacks())
			return
		}
		returned := time.Now()
		c.Settle()
		p.verify(c, "send "+v, as, time.Time{}, err, returned, "", "", c.Slack())
		mu.Lock()
		if err == nil && recvd[v] != 1 {
			c.Violate("received", "%s was sent successfully and received %d times", v, recvd[v])
		}
		c.Count("attempts", len(as))
		c.Ev("send %v %d %v", refuse, len(as), err != nil)
		mu.Unlock()
	}
	_ = st.Close(nil)
}

type c18recv struct {
	psrpc.StreamHandler
	f func() bool
}

func (x *c18recv) Recv(m proto.Message) error {
	if x.f() {
		return errInjected
	}
	return x.StreamHandler.Recv(m)
}

type c18watch struct {
	psrpc.StreamHandler
	f func(proto.Message, []psrpc.StreamOption) error
}

func (x *c18watch) Send(m proto.Message, opts ...psrpc.StreamOption) error { return x.f(m, opts) }
