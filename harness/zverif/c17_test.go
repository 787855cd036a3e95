package zverif

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C17: interceptors and hooks see every call in the configured order. Every call gets a
// random plan (what each interceptor does); a reference interpreter says what each of them
// must see, and what the caller gets.

func init() {
	reg("C17", "rpc", 4000, 40000, c17rpc)
	reg("C17", "multi", 2600, 26000, c17multi)
	reg("C17", "stream", 2200, 22000, c17stream)
	reg("C17", "shared", 200, 2000, c17shared)
}

// outcome of a pass: a value or an error code and text
type c17out struct {
	val string
	err string // "" for none, else code/text
}

func (o c17out) String() string {
	if o.err != "" {
		return "E:" + o.err
	}
	return o.val
}

func c17err(s string) error {
	co, txt, _ := strings.Cut(s, "/")
	return psrpc.NewErrorf(psrpc.ErrorCode(co), "%s", txt)
}

func c17outOf(res proto.Message, err error) c17out {
	if err != nil {
		return c17out{err: string(code(err)) + "/" + err.Error()}
	}
	if res == nil {
		return c17out{val: "NIL"}
	}
	s, ok := res.(str)
	if !ok || s == nil {
		return c17out{val: fmt.Sprintf("NIL%T", res)}
	}
	return c17out{val: s.Value}
}

type c17key string

// a stage's behaviour
const (
	bPass = iota
	bAlterReq
	bAlterRes
	bAnswer
	bFail
	bMapErr
	bTwice
	bConc
	bCtx
	bOpts
	bAltErr
	bRetry
	bKinds
)

type c17plan struct {
	id      string
	client  []int // behaviours: client-wide, then per request
	server  []int
	names   []string // of client stages
	timeout []time.Duration
	hseed   int64
	dead    *c17out // the call cannot reach a server: what comes instead
	mu      sync.Mutex
	log     []string
}

func (p *c17plan) add(format string, a ...any) {
	p.mu.Lock()
	p.log = append(p.log, fmt.Sprintf(format, a...))
	p.mu.Unlock()
}

type c17state struct {
	path    string
	marks   string // context values seen
	timeout time.Duration
}

func (p *c17plan) handlerOut(path string) c17out {
	h := uint32(2166136261) ^ uint32(p.hseed)
	for _, b := range []byte(path) {
		h = (h ^ uint32(b)) * 16777619
	}
	switch (h >> 5) % 4 {
	case 0:
		return c17out{err: fmt.Sprintf("not_found/no %s", path)}
	default:
		return c17out{val: "r(" + path + ")"}
	}
}

// c17apply runs a behaviour. next is the rest of the chain.
func c17apply(name string, b int, st c17state, opts time.Duration, next func(c17state) c17out) c17out {
	switch b {
	case bAlterReq:
		st.path += "+" + name
		return next(st)
	case bAlterRes:
		o := next(st)
		if o.err == "" {
			o.val += "*" + name
		}
		return o
	case bAnswer:
		return c17out{val: "own " + name + " " + st.path}
	case bFail:
		return c17out{err: "aborted/by " + name}
	case bMapErr:
		o := next(st)
		if o.err != "" {
			return c17out{val: "saved " + name + ":" + o.err}
		}
		return o
	case bAltErr:
		o := next(st)
		if o.err != "" {
			return c17out{err: "data_loss/" + name + ":" + o.err}
		}
		return c17out{err: "out_of_range/" + name + ":" + o.val}
	case bTwice, bConc:
		var o [2]c17out
		run := func(i int) {
			s := st
			s.path += fmt.Sprintf(".%d", i)
			o[i] = next(s)
		}
		if b == bConc {
			var wg sync.WaitGroup
			for i := range o {
				wg.Add(1)
				go func() { defer wg.Done(); run(i) }()
			}
			wg.Wait()
		} else {
			run(0)
			run(1)
		}
		if o[0].err != "" && o[1].err != "" {
			return o[1]
		}
		return c17out{val: "[" + o[0].String() + "|" + o[1].String() + "]"}
	case bRetry: // the very same request again after a failure
		o := next(st)
		if o.err != "" {
			o = next(st)
		}
		return o
	case bCtx:
		st.marks += name + ","
		return next(st)
	case bOpts:
		st.timeout = opts
		return next(st)
	}
	return next(st)
}

// eval is the reference: it lists what every stage and the handler see.
func (p *c17plan) eval(deflt time.Duration) (c17out, []string) {
	var mu sync.Mutex
	var log []string
	add := func(f string, a ...any) { mu.Lock(); log = append(log, fmt.Sprintf(f, a...)); mu.Unlock() }
	var cl, sv func(i int) func(c17state) c17out
	sv = func(i int) func(c17state) c17out {
		return func(st c17state) c17out {
			if i == len(p.server) {
				add("H>%s{%s}%v", st.path, st.marks, st.timeout)
				return p.handlerOut(st.path)
			}
			n := fmt.Sprintf("S%d", i)
			add("%s>%s{%s}", n, st.path, st.marks)
			o := c17apply(n, p.server[i], st, 0, sv(i+1))
			add("%s<%s", n, o)
			return o
		}
	}
	cl = func(i int) func(c17state) c17out {
		return func(st c17state) c17out {
			if i == len(p.client) {
				if p.dead != nil {
					return *p.dead
				}
				st.marks = ""
				return sv(0)(st)
			}
			add("%s>%s{%s}", p.names[i], st.path, st.marks)
			o := c17apply(p.names[i], p.client[i], st, p.timeout[i], cl(i+1))
			add("%s<%s", p.names[i], o)
			return o
		}
	}
	o := cl(0)(c17state{path: p.id + "|", timeout: deflt})
	return o, log
}

type c17table struct {
	mu sync.Mutex
	m  map[string]*c17plan
}

func (t *c17table) get(path string) *c17plan {
	id, _, _ := strings.Cut(path, "|")
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.m[id]
}

func c17marks(ctx context.Context, names []string) string {
	s := ""
	for _, n := range names {
		if v, _ := ctx.Value(c17key(n)).(bool); v {
			s += n + ","
		}
	}
	return s
}

// clientRPC is the client interceptor of stage number k.
func (t *c17table) clientRPC(c *C, k int, name string, svc, method string) psrpc.ClientRPCInterceptor {
	return func(ri psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		if ri.Service != svc || ri.Multi {
			c.Violate("info", "interceptor %s got %+v", name, ri)
		}
		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			path := req.(str).Value
			p := t.get(path)
			if p == nil {
				c.Violate("unknown-request", "interceptor %s got request %q", name, path)
				return next(ctx, req, opts...)
			}
			i := k
			if i < 0 { // per request: counted after the client-wide ones
				i = -k - 1
			}
			p.add("%s>%s{%s}", name, path, c17marks(ctx, p.names))
			o := c17apply(name, p.client[i], c17state{path: path}, p.timeout[i], func(st c17state) c17out {
				nctx := ctx
				if st.marks != "" {
					nctx = context.WithValue(ctx, c17key(name), true)
				}
				nopts := opts
				if st.timeout != 0 {
					nopts = append(append([]psrpc.RequestOption{}, opts...), psrpc.WithRequestTimeout(st.timeout))
				}
				return c17outOf(next(nctx, S(st.path), nopts...))
			})
			p.add("%s<%s", name, o)
			if o.err != "" {
				return nil, c17err(o.err)
			}
			return S(o.val), nil
		}
	}
}

func (t *c17table) serverRPC(c *C, i int, svc string) psrpc.ServerRPCInterceptor {
	name := fmt.Sprintf("S%d", i)
	return func(ctx context.Context, req proto.Message, ri psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
		if ri.Service != svc {
			c.Violate("info", "interceptor %s got %+v", name, ri)
		}
		path := req.(str).Value
		p := t.get(path)
		if p == nil {
			c.Violate("unknown-request", "interceptor %s got request %q", name, path)
			return next(ctx, req)
		}
		p.add("%s>%s{%s}", name, path, c17marks(ctx, serverNames))
		o := c17apply(name, p.server[i], c17state{path: path}, 0, func(st c17state) c17out {
			nctx := ctx
			if st.marks != "" {
				nctx = context.WithValue(ctx, c17key(name), true)
			}
			return c17outOf(next(nctx, S(st.path)))
		})
		p.add("%s<%s", name, o)
		if o.err != "" {
			return nil, c17err(o.err)
		}
		return S(o.val), nil
	}
}

var serverNames = []string{"S0", "S1", "S2", "S3", "S4"}

func c17behaviours(r *rand.Rand, n int, server bool) (out []int) {
	doubles := 0
	for i := 0; i < n; i++ {
		b := r.Intn(bKinds)
		if r.Intn(3) == 0 {
			b = []int{bPass, bAlterReq, bAlterRes, bCtx}[r.Intn(4)]
		}
		if (b == bAnswer || b == bFail) && r.Intn(2) == 0 {
			b = bPass
		}
		if b == bOpts && server {
			b = bCtx
		}
		if b == bTwice || b == bConc || b == bRetry {
			if doubles++; doubles > 1 {
				b = bAlterReq
			}
		}
		out = append(out, b)
	}
	return
}

// split distributes interceptors over several options, some nested.
func c17split[T any](r *rand.Rand, xs []T, one func(...T) psrpc.ClientOption) (out []psrpc.ClientOption) {
	for len(xs) > 0 {
		n := 1 + r.Intn(len(xs))
		o := one(xs[:n]...)
		if r.Intn(3) == 0 {
			o = psrpc.WithClientOptions(o)
		}
		out = append(out, o)
		xs = xs[n:]
	}
	if r.Intn(3) == 0 {
		out = []psrpc.ClientOption{psrpc.WithClientOptions(out...)}
	}
	return
}

// c17trace compares a recorded log with the reference.
func c17trace(c *C, what string, got, want []string, ordered bool) {
	if !ordered {
		sort.Strings(got)
		sort.Strings(want)
	}
	g, w := strings.Join(got, "\n"), strings.Join(want, "\n")
	if g != w {
		c.Violate("trace", "%s: interceptors and handlers ran as\n%s\n\nbut must run as\n%s", what, g, w)
	}
	c.Count("interceptor_events", len(want))
}

func c17rpc(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	t := &c17table{m: map[string]*c17plan{}}
	nS := r.Intn(5)
	ncl := 1 + r.Intn(2)
	method := []string{mNormal, mAff, mQueueNC}[r.Intn(3)]
	deflt := time.Duration(2+r.Intn(3)) * time.Second

	servers := 1
	if r.Intn(3) == 0 {
		servers = 2
	}
	for k := 0; k < servers; k++ {
		var is []psrpc.ServerRPCInterceptor
		for i := 0; i < nS; i++ {
			is = append(is, t.serverRPC(c, i, svc))
		}
		var sopts []psrpc.ServerOption
		for rest := is; len(rest) > 0; {
			m := 1 + r.Intn(len(rest))
			o := psrpc.WithServerRPCInterceptors(append([]psrpc.ServerRPCInterceptor{nil}, rest[:m]...)[r.Intn(2):]...)
			if rest = rest[m:]; r.Intn(3) == 0 {
				o = psrpc.WithServerOptions(o)
			}
			sopts = append(sopts, o)
		}
		s := c.Server(n.Endpoint(), svc, "", sopts...)
		h := func(ctx context.Context, req str) (str, error) {
			path := req.Value
			p := t.get(path)
			if p == nil {
				c.Violate("unknown-request", "handler got request %q", path)
				return S(""), nil
			}
			d, _ := ctx.Deadline()
			p.add("H>%s{%s}%v", path, c17marks(ctx, serverNames), d.Sub(metadata.IncomingHeader(ctx).SentAt))
			if o := p.handlerOut(path); o.err != "" {
				return nil, c17err(o.err)
			} else {
				return S(o.val), nil
			}
		}
		must(server.RegisterHandler(s, method, nil, h, nil))
	}

	var fs []func()
	calls := 0
	nontrivial := false
	for k := 0; k < ncl; k++ {
		nC := r.Intn(4)
		nh := r.Intn(3)
		var is []psrpc.ClientRPCInterceptor
		for i := 0; i < nC; i++ {
			is = append(is, t.clientRPC(c, i, fmt.Sprintf("C%d", i), svc, method))
		}
		opts := c17split(r, is, psrpc.WithClientRPCInterceptors)
		var rh []psrpc.ClientRequestHook
		var sh []psrpc.ClientResponseHook
		type hooked struct {
			res proto.Message
			err error
		}
		var hmu sync.Mutex
		hooks := map[string][]hooked{}
		for i := 0; i < nh; i++ {
			rh = append(rh, func(_ context.Context, req proto.Message, ri psrpc.RPCInfo) {
				if ri.Method != method {
					c.Violate("info", "request hook got %+v", ri)
				}
				if p := t.get(req.(str).Value); p != nil {
					p.add("Q%d>%s", i, req.(str).Value)
				}
			})
			sh = append(sh, func(_ context.Context, req proto.Message, ri psrpc.RPCInfo, res proto.Message, err error) {
				if p := t.get(req.(str).Value); p != nil {
					p.add("A%d>%s<%s", i, req.(str).Value, c17outOf(res, err))
					hmu.Lock()
					hooks[p.id] = append(hooks[p.id], hooked{res, err})
					hmu.Unlock()
				}
			})
		}
		opts = append(opts, c17split(r, rh, psrpc.WithClientRequestHooks)...)
		opts = append(opts, c17split(r, sh, psrpc.WithClientResponseHooks)...)
		opts = append(opts, psrpc.WithClientTimeout(deflt))
		fb := newFaultBus(n.Endpoint())
		fb.onPub = func(ch psrpc.Channel, _ proto.Message) error {
			if strings.Contains(ch.Legacy, "broken") {
				return errInjected
			}
			return nil
		}
		cl := c.Client(fb, svc, "", opts...)
		for w := 0; w < 1+r.Intn(2); w++ {
			rr := c.NewRand(100 + 10*k + w)
			fs = append(fs, func() {
				for q := 0; q < 3; q++ {
					nR := rr.Intn(3)
					p := &c17plan{id: fmt.Sprintf("v%d.%d.%d", k, w, q), hseed: rr.Int63()}
					p.client = c17behaviours(rr, nC+nR, false)
					p.server = c17behaviours(rr, nS, true)
					for i := 0; i < nC+nR; i++ {
						p.timeout = append(p.timeout, time.Duration(2+rr.Intn(4))*time.Second)
						if i < nC {
							p.names = append(p.names, fmt.Sprintf("C%d", i))
						} else {
							p.names = append(p.names, fmt.Sprintf("R%d", i-nC))
						}
					}
					var topic []string
					if x := rr.Intn(10); x < 2 {
						o := c17outOf(nil, psrpc.ErrNoResponse)
						topic = []string{"nobody"}
						if method == mQueueNC {
							o = c17outOf(nil, psrpc.ErrRequestTimedOut)
						}
						if x == 0 {
							topic = []string{"broken"}
							o = c17outOf(nil, psrpc.NewError(psrpc.Internal, errInjected))
						}
						p.dead = &o
					}
					t.mu.Lock()
					calls++
					t.m[p.id] = p
					t.mu.Unlock()
					want, log := p.eval(deflt)
					var pre, post []string
					for i := 0; i < nh; i++ {
						pre = append(pre, fmt.Sprintf("Q%d>%s|", i, p.id))
						post = append(post, fmt.Sprintf("A%d>%s|<%s", i, p.id, want))
					}
					var ro []psrpc.RequestOption
					var rs []psrpc.ClientRPCInterceptor
					for i := 0; i < nR; i++ {
						rs = append(rs, t.clientRPC(c, -(nC+i)-1, fmt.Sprintf("R%d", i), svc, method))
					}
					for len(rs) > 0 {
						m := 1 + rr.Intn(len(rs))
						ro = append(ro, psrpc.WithRequestInterceptors(rs[:m]...))
						rs = rs[m:]
					}
					res, err := client.RequestSingle[str](context.Background(), cl, method, topic, S(p.id+"|"), ro...)
					got := c17outOf(res, err)
					if got != want {
						c.Violate("result", "call %s returned %s, must return %s", p.id, got, want)
					}
					ordered := true
					for _, b := range append(append([]int{}, p.client...), p.server...) {
						if b == bConc {
							ordered = false
						}
					}
					p.mu.Lock()
					rec := append([]string{}, p.log...)
					p.mu.Unlock()
					if len(rec) >= len(pre)+len(post) {
						c17trace(c, "request hooks of "+p.id, rec[:len(pre)], pre, true)
						c17trace(c, "response hooks of "+p.id, rec[len(rec)-len(post):], post, true)
						rec = rec[len(pre) : len(rec)-len(post)]
					} else {
						c.Violate("hooks", "call %s: hooks did not run: %v", p.id, rec)
					}
					c17trace(c, fmt.Sprintf("call %s (client %v %v, server %v)", p.id, p.names, p.client, p.server), rec, log, ordered)
					hmu.Lock()
					for _, h := range hooks[p.id] {
						if err != nil && h.err != err || err == nil && (h.res != proto.Message(res) || h.err != nil) {
							c.Violate("hook-result", "call %s: a response hook got (%v, %v), the caller (%v, %v)", p.id, h.res, h.err, res, err)
						}
					}
					hmu.Unlock()
					t.mu.Lock()
					nontrivial = nontrivial || len(log) > 2
					t.mu.Unlock()
					c.Ev("call %v %v %v", p.client, p.server, got.err != "")
				}
			})
		}
	}
	c.Settle()
	c.Shape("m=%s s=%d/%d cl=%d", method, nS, servers, ncl)
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	if !nontrivial {
		c.Trivial()
	}
	c.Count("calls", calls)
	// nothing is invoked afterwards
	logs := func() (k int) {
		for _, p := range t.m {
			p.mu.Lock()
			k += len(p.log)
			p.mu.Unlock()
		}
		return
	}
	before := logs()
	c.Settle()
	if after := logs(); after != before {
		c.Violate("late", "%d invocations happened after all calls had returned", after-before)
	}
}

// ---- multi-RPC ----

const (
	mPass = iota
	mAlter
	mDrop
	mDup
	mMapErr
	mToErr
	mKindsRecv
)

const (
	nPass = iota
	nAlter
	nCtx
	nOpts
	nKindsSend
	nFail
)

type c17multiPlan struct {
	id      string
	names   []string
	send    []int
	recv    []int
	timeout time.Duration
	mu      sync.Mutex
	log     []string
	hooks   []string
	closes  map[string]int
	busy    int
}

func (p *c17multiPlan) add(format string, a ...any) {
	p.mu.Lock()
	p.log = append(p.log, fmt.Sprintf(format, a...))
	p.mu.Unlock()
}

func c17recv(name string, b int, o c17out) []c17out {
	switch b {
	case mAlter:
		if o.err == "" {
			o.val += "*" + name
		}
	case mDrop:
		if len(o.String())%2 == 0 {
			return nil
		}
	case mDup:
		return []c17out{o, o}
	case mMapErr:
		if o.err != "" {
			o = c17out{val: "saved " + name + ":" + o.err}
		}
	case mToErr:
		if o.err == "" {
			o = c17out{err: "out_of_range/" + name + ":" + o.val}
		}
	}
	return []c17out{o}
}

// evalRecv lists what the stages see of one answer and what reaches the caller.
func (p *c17multiPlan) evalRecv(i int, o c17out) (log []string, out []c17out) {
	if i == len(p.names) {
		return nil, []c17out{o}
	}
	log = append(log, fmt.Sprintf("%s<%s", p.names[i], o))
	for _, x := range c17recv(p.names[i], p.recv[i], o) {
		l, oo := p.evalRecv(i+1, x)
		log, out = append(log, l...), append(out, oo...)
	}
	return
}

type c17mi struct {
	c    *C
	p    func(string) *c17multiPlan
	mine *c17multiPlan
	k    int
	next psrpc.ClientMultiRPCHandler
}

func (m *c17mi) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
	path := req.(str).Value
	m.mine = m.p(path)
	p := m.mine
	if p == nil {
		m.c.Violate("unknown-request", "multi interceptor %d got %q", m.k, path)
		return m.next.Send(ctx, req, opts...)
	}
	name := p.names[m.k]
	p.add("%s>%s{%s}%d", name, path, c17marks(ctx, p.names), len(opts))
	switch p.send[m.k] {
	case nAlter:
		path += "+" + name
	case nCtx:
		ctx = context.WithValue(ctx, c17key(name), true)
	case nOpts:
		opts = append(append([]psrpc.RequestOption{}, opts...), psrpc.WithRequestTimeout(p.timeout))
	case nFail:
		return c17err("aborted/by " + name)
	}
	return m.next.Send(ctx, S(path), opts...)
}

func (m *c17mi) Recv(msg proto.Message, err error) {
	p := m.mine
	o := c17outOf(msg, err)
	p.mu.Lock()
	p.log = append(p.log, fmt.Sprintf("%s<%s", p.names[m.k], o))
	if p.closes[p.names[m.k]] > 0 {
		m.c.Violate("recv-after-close", "call %s: interceptor %s got %s after its Close", p.id, p.names[m.k], o)
	}
	p.mu.Unlock()
	for _, x := range c17recv(p.names[m.k], p.recv[m.k], o) {
		switch {
		case x == o:
			m.next.Recv(msg, err)
		case x.err != "":
			m.next.Recv(nil, c17err(x.err))
		default:
			m.next.Recv(S(x.val), nil)
		}
	}
}

func (m *c17mi) Close() {
	p := m.mine
	p.mu.Lock()
	p.closes[p.names[m.k]]++
	p.log = append(p.log, p.names[m.k]+".close")
	p.mu.Unlock()
	m.next.Close()
}

func c17multi(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	ns := r.Intn(4)
	nS := r.Intn(3)
	ids := c.IDs("s", ns)
	for _, id := range ids {
		var is []psrpc.ServerRPCInterceptor
		for i := 0; i < nS; i++ {
			is = append(is, func(ctx context.Context, req proto.Message, ri psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
				if !ri.Multi || ri.Service != svc || ri.Method != mMulti {
					c.Violate("info", "server interceptor got %+v", ri)
				}
				res, err := next(ctx, S(fmt.Sprintf("%s/S%d", req.(str).Value, i)))
				if err != nil {
					return nil, err
				}
				return S(fmt.Sprintf("%s\\S%d", res.(str).Value, i)), nil
			})
		}
		s := c.Server(n.Endpoint(), svc, id, psrpc.WithServerRPCInterceptors(is...))
		must(server.RegisterHandler(s, mMulti, nil, func(ctx context.Context, req str) (str, error) {
			o := c17srv(id, req.Value)
			if o.err != "" {
				return nil, c17err(o.err)
			}
			return S(o.val), nil
		}, nil))
	}
	var mu sync.Mutex
	plans := map[string]*c17multiPlan{}
	find := func(path string) *c17multiPlan {
		id, _, _ := strings.Cut(path, "|")
		mu.Lock()
		defer mu.Unlock()
		return plans[id]
	}
	nC := r.Intn(4)
	nh := r.Intn(3)
	var is []psrpc.ClientMultiRPCInterceptor
	mk := func(k int) psrpc.ClientMultiRPCInterceptor {
		return func(ri psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
			if !ri.Multi || ri.Service != svc || ri.Method != mMulti {
				c.Violate("info", "multi interceptor got %+v", ri)
			}
			return &c17mi{c: c, p: find, k: k, next: next}
		}
	}
	for i := 0; i < nC; i++ {
		is = append(is, mk(i))
	}
	opts := c17split(r, is, psrpc.WithClientMultiRPCInterceptors)
	var rh []psrpc.ClientRequestHook
	var sh []psrpc.ClientResponseHook
	for i := 0; i < nh; i++ {
		rh = append(rh, func(_ context.Context, req proto.Message, ri psrpc.RPCInfo) {
			if p := find(req.(str).Value); p != nil {
				p.add("Q%d>%s", i, req.(str).Value)
			}
		})
		sh = append(sh, func(_ context.Context, req proto.Message, ri psrpc.RPCInfo, res proto.Message, err error) {
			if p := find(req.(str).Value); p != nil {
				p.add("A%d<%s", i, c17outOf(res, err))
			}
		})
	}
	opts = append(opts, c17split(r, rh, psrpc.WithClientRequestHooks)...)
	opts = append(opts, c17split(r, sh, psrpc.WithClientResponseHooks)...)
	fb := newFaultBus(n.Endpoint())
	var pubFail sync.Map
	fb.onPub = func(_ psrpc.Channel, msg proto.Message) error {
		if _, ok := pubFail.Load("now"); ok {
			return errInjected
		}
		return nil
	}
	cl := c.Client(fb, svc, "", opts...)
	c.Settle()
	c.Shape("s=%d/%d c=%d h=%d", ns, nS, nC, nh)
	work := func(w int, rr *rand.Rand) func() {
		return func() {
			for q := 0; q < 3; q++ {
				nR := rr.Intn(3)
				p := &c17multiPlan{id: fmt.Sprintf("v%d.%d", w, q), closes: map[string]int{}, timeout: time.Duration(1200+100*rr.Intn(5)) * time.Millisecond}
				fails, faulty := -1, false
				for i := 0; i < nC+nR; i++ {
					if i < nC {
						p.names = append(p.names, fmt.Sprintf("C%d", i))
					} else {
						p.names = append(p.names, fmt.Sprintf("R%d", i-nC))
					}
					s := rr.Intn(nKindsSend)
					if rr.Intn(10) == 0 {
						s = nFail
						if fails < 0 {
							fails = i
						}
					}
					p.send = append(p.send, s)
					p.recv = append(p.recv, rr.Intn(mKindsRecv))
				}
				if w == 0 && rr.Intn(8) == 0 && fails < 0 {
					faulty = true
				}
				mu.Lock()
				plans[p.id] = p
				mu.Unlock()
				// what must be seen on the way out
				var want []string
				for i := 0; i < nh; i++ {
					want = append(want, fmt.Sprintf("Q%d>%s|", i, p.id))
				}
				path, marks, timeout, no := p.id+"|", "", time.Second, 1
				var sendErr c17out
				for i, b := range p.send {
					want = append(want, fmt.Sprintf("%s>%s{%s}%d", p.names[i], path, marks, no))
					switch b {
					case nAlter:
						path += "+" + p.names[i]
					case nCtx:
						marks += p.names[i] + ","
					case nOpts:
						timeout = p.timeout
						no++
					}
					if b == nFail {
						sendErr = c17out{err: "aborted/by " + p.names[i]}
						break
					}
				}
				ro := []psrpc.RequestOption{psrpc.WithRequestTimeout(time.Second)}
				var rs []psrpc.ClientMultiRPCInterceptor
				for i := 0; i < nR; i++ {
					rs = append(rs, mk(nC+i))
				}
				if nR > 0 {
					ro = append(ro, psrpc.WithRequestInterceptors(rs...))
					// the option count that the interceptors see
					for i := range want {
						if strings.HasSuffix(want[i], "}1") || strings.HasSuffix(want[i], "}2") || strings.HasSuffix(want[i], "}3") || strings.HasSuffix(want[i], "}4") || strings.HasSuffix(want[i], "}5") {
							want[i] = want[i][:len(want[i])-1] + fmt.Sprint(int(want[i][len(want[i])-1]-'0')+1)
						}
					}
				}
				if faulty {
					pubFail.Store("now", true)
				}
				start := time.Now()
				ch, err := client.RequestMulti[str](context.Background(), cl, mMulti, nil, S(p.id+"|"), ro...)
				pubFail.Delete("now")
				if fails >= 0 || faulty {
					if err == nil {
						c.Violate("send-error", "call %s was sent although its sending failed", p.id)
						continue
					}
					got := c17outOf(nil, err)
					if faulty {
						sendErr = got
					}
					if got != sendErr {
						c.Violate("send-error", "call %s failed with %s, want %s", p.id, got, sendErr)
					}
					c.Settle()
					p.mu.Lock()
					var rec []string
					for _, l := range p.log {
						if !strings.HasSuffix(l, ".close") {
							rec = append(rec, l)
						}
					}
					for i := 0; i < nh; i++ {
						want = append(want, fmt.Sprintf("A%d<%s", i, sendErr))
					}
					c17trace(c, fmt.Sprintf("multi %s %v", p.id, p.send), rec, want, true)
					for i, nm := range p.names {
						if k := p.closes[nm]; k > 1 || faulty && k != 1 {
							c.Violate("close", "call %s failed to be sent: interceptor %d was closed %d times", p.id, i, k)
						}
					}
					p.mu.Unlock()
					c.Count("failed_sends", 1)
					c.Ev("multi fail %d %v", fails, faulty)
					continue
				}
				if err != nil {
					c.Violate("send-error", "call %s: %v", p.id, err)
					continue
				}
				var got []string
				for m := range ch {
					got = append(got, c17outOf(m.Result, m.Err).String())
				}
				if d := time.Since(start); d < timeout || d > timeout+c.Slack() {
					c.Violate("timeout", "call %s ended after %v, the last timeout set is %v", p.id, d, timeout)
				}
				c.Settle()
				for i := 0; i < nS; i++ {
					path += fmt.Sprintf("/S%d", i)
				}
				blocks := map[string][]string{}
				var wantGot []string
				for _, id := range ids {
					o := c17srv(id, path)
					if o.err == "" {
						for i := nS - 1; i >= 0; i-- {
							o.val += fmt.Sprintf("\\S%d", i)
						}
					}
					var b []string
					for i := 0; i < nh; i++ {
						b = append(b, fmt.Sprintf("A%d<%s", i, o))
					}
					l, out := p.evalRecv(0, o)
					blocks[id] = append(b, l...)
					for _, x := range out {
						wantGot = append(wantGot, x.String())
					}
				}
				sort.Strings(got)
				sort.Strings(wantGot)
				if strings.Join(got, "\n") != strings.Join(wantGot, "\n") {
					c.Violate("result", "call %s (%v) returned %q, must return %q", p.id, p.recv, got, wantGot)
				}
				p.mu.Lock()
				rec := append([]string{}, p.log...)
				for i, nm := range p.names {
					if k := p.closes[nm]; k != 1 {
						c.Violate("close", "call %s: interceptor %d was closed %d times", p.id, i, k)
					}
				}
				p.mu.Unlock()
				// the answers, in the order in which they came, each as one block
				if nh+len(p.names) > 0 {
					rest := rec[min(len(want), len(rec)):]
					for len(rest) > 0 && !strings.HasSuffix(rest[0], ".close") {
						found := ""
						for _, id := range ids {
							if b := blocks[id]; b != nil && b[0] == rest[0] {
								found = id
							}
						}
						if found == "" {
							break
						}
						want = append(want, blocks[found]...)
						rest = rest[min(len(blocks[found]), len(rest)):]
						delete(blocks, found)
					}
					for _, id := range ids {
						want = append(want, blocks[id]...)
					}
					for _, nm := range p.names {
						want = append(want, nm+".close")
					}
					c17trace(c, fmt.Sprintf("multi %s send %v recv %v", p.id, p.send, p.recv), rec, want, true)
				}
				c.Count("answers", len(ids))
				c.Ev("multi %v %v %d", p.send, p.recv, len(got))
			}
		}
	}
	var fs []func()
	for w := 0; w < 1+r.Intn(2); w++ {
		fs = append(fs, work(w+1, c.NewRand(50+w)))
	}
	if len(fs) == 1 {
		fs[0] = work(0, c.NewRand(50)) // alone: with publish failures
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
	}
}

func c17srv(id, path string) c17out {
	if (len(path)+len(id))%4 == 0 {
		return c17out{err: "not_found/" + id + " has no " + path}
	}
	return c17out{val: id + ":" + path}
}

// ---- streams ----

const (
	tPass = iota
	tAlter
	tDrop
	tDup
	tFail
	tKinds
)

type c17side struct {
	name  string // "c" or "s"
	names []string
	send  []int
	recv  []int
}

type c17streamPlan struct {
	mu     sync.Mutex
	log    map[string][]string // by message
	closes map[string]int
	bad    string
}

func (p *c17streamPlan) add(msg, format string, a ...any) {
	id, _, _ := strings.Cut(msg, "|")
	p.mu.Lock()
	p.log[id] = append(p.log[id], fmt.Sprintf(format, a...))
	p.mu.Unlock()
}

type c17si struct {
	p    *c17streamPlan
	side *c17side
	k    int
	next psrpc.StreamHandler
}

func (s *c17si) name() string { return s.side.name + s.side.names[s.k] }

func (s *c17si) Send(msg proto.Message, opts ...psrpc.StreamOption) error {
	v := msg.(str).Value
	s.p.add(v, "%s>%s", s.name(), v)
	switch s.side.send[s.k] {
	case tAlter:
		return s.next.Send(S(v+"+"+s.name()), opts...)
	case tDrop:
		return nil
	case tDup:
		err := s.next.Send(S(v+".0"), opts...)
		if err2 := s.next.Send(S(v+".1"), opts...); err == nil {
			err = err2
		}
		return err
	case tFail:
		return c17err("aborted/by " + s.name())
	}
	return s.next.Send(msg, opts...)
}

func (s *c17si) Recv(msg proto.Message) error {
	v := msg.(str).Value
	s.p.add(v, "%s<%s", s.name(), v)
	switch s.side.recv[s.k] {
	case tAlter:
		return s.next.Recv(S(v + "*" + s.name()))
	case tDrop:
		return nil
	case tDup:
		err := s.next.Recv(S(v + ".2"))
		if err2 := s.next.Recv(S(v + ".3")); err == nil {
			err = err2
		}
		return err
	case tFail:
		return c17err("aborted/by " + s.name())
	}
	return s.next.Recv(msg)
}

func (s *c17si) Close(cause error) error {
	p := s.p
	p.mu.Lock()
	n := s.name()
	p.closes[n]++
	if s.k > 0 {
		if prev := s.side.name + s.side.names[s.k-1]; p.closes[n] > p.closes[prev] {
			p.bad = fmt.Sprintf("%s was closed %d times when %s had been closed %d times", n, p.closes[n], prev, p.closes[prev])
		}
	}
	p.mu.Unlock()
	return s.next.Close(cause)
}

// evaluation: what a message does on its way
func (a *c17side) evalSend(i int, v string, to *c17side) (log, recv []string, err string) {
	if i == len(a.send) {
		l, rc, ok := to.evalRecv(0, v)
		if !ok {
			return l, rc, "timeout"
		}
		return l, rc, ""
	}
	n := a.name + a.names[i]
	log = append(log, n+">"+v)
	pass := func(x string) string {
		l, rc, e := a.evalSend(i+1, x, to)
		log, recv = append(log, l...), append(recv, rc...)
		return e
	}
	switch a.send[i] {
	case tAlter:
		err = pass(v + "+" + n)
	case tDrop:
	case tDup:
		err = pass(v + ".0")
		if e := pass(v + ".1"); err == "" {
			err = e
		}
	case tFail:
		err = "aborted/by " + n
	default:
		err = pass(v)
	}
	return
}

func (a *c17side) evalRecv(i int, v string) (log, recv []string, ok bool) {
	if i == len(a.recv) {
		return nil, []string{v}, true
	}
	n := a.name + a.names[i]
	log = append(log, n+"<"+v)
	pass := func(x string) bool {
		l, rc, o := a.evalRecv(i+1, x)
		log, recv = append(log, l...), append(recv, rc...)
		return o
	}
	ok = true
	switch a.recv[i] {
	case tAlter:
		ok = pass(v + "*" + n)
	case tDrop:
	case tDup:
		ok = pass(v + ".2")
		ok = pass(v+".3") && ok
	case tFail:
		ok = false
	default:
		ok = pass(v)
	}
	return
}

func c17stream(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	p := &c17streamPlan{log: map[string][]string{}, closes: map[string]int{}}
	draw := func(name string, wide, req int) *c17side {
		s := &c17side{name: name}
		for i := 0; i < wide+req; i++ {
			nm := fmt.Sprintf("W%d", i)
			if i >= wide {
				nm = fmt.Sprintf("R%d", i-wide)
			}
			s.names = append(s.names, nm)
			kind := func() int {
				if r.Intn(2) == 0 {
					return tAlter
				}
				return r.Intn(tKinds)
			}
			s.send, s.recv = append(s.send, kind()), append(s.recv, kind())
		}
		return s
	}
	nC, nR, nS := r.Intn(3), r.Intn(3), r.Intn(4)
	cs, ss := draw("c", nC, nR), draw("s", nS, 0)
	mk := func(side *c17side, k int) psrpc.StreamInterceptor {
		return func(ri psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
			if ri.Service != svc || ri.Method != mStream {
				c.Violate("info", "stream interceptor got %+v", ri)
			}
			return &c17si{p: p, side: side, k: k, next: next}
		}
	}
	var sis, cis, ris []psrpc.StreamInterceptor
	for i := 0; i < nS; i++ {
		sis = append(sis, mk(ss, i))
	}
	for i := 0; i < nC; i++ {
		cis = append(cis, mk(cs, i))
	}
	for i := 0; i < nR; i++ {
		ris = append(ris, mk(cs, nC+i))
	}
	msgs := 1 + r.Intn(4)
	timeout := c.Slack() + 200*time.Millisecond
	run := func(name string, from, to *c17side, send func(str, ...psrpc.StreamOption) error) func() {
		return func() {
			for i := 0; i < msgs; i++ {
				v := fmt.Sprintf("%s%d|", name, i)
				log, _, want := from.evalSend(0, v, to)
				err := send(S(v), psrpc.WithTimeout(timeout))
				got := ""
				switch {
				case errors.Is(err, psrpc.ErrRequestTimedOut):
					got = "timeout"
				case err != nil:
					got = c17outOf(nil, err).err
				}
				if got != want {
					c.Violate("send-result", "sending %s returned %v, want %q", v, err, want)
				}
				p.mu.Lock()
				rec := append([]string{}, p.log[v[:len(v)-1]]...)
				p.mu.Unlock()
				c17trace(c, fmt.Sprintf("message %s (send %v recv %v)", v, from.send, to.recv), rec, log, true)
			}
		}
	}
	want := func(name string, from, to *c17side) (out []string) {
		for i := 0; i < msgs; i++ {
			_, rc, _ := from.evalSend(0, fmt.Sprintf("%s%d|", name, i), to)
			out = append(out, rc...)
		}
		return
	}
	collect := func(ch <-chan str) (func() []string, chan struct{}) {
		var mu sync.Mutex
		var got []string
		done := make(chan struct{})
		go func() {
			defer close(done)
			for m := range ch {
				mu.Lock()
				got = append(got, m.Value)
				mu.Unlock()
			}
		}()
		return func() []string { mu.Lock(); defer mu.Unlock(); return got }, done
	}
	byServer := r.Intn(2) == 0
	var sgot func() []string
	sends := make(chan struct{})
	finish := make(chan struct{})
	sEnded := make(chan struct{})
	s := c.Server(n.Endpoint(), svc, "", psrpc.WithServerStreamInterceptors(sis...))
	must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
		defer close(sEnded)
		sgot, _ = collect(st.Channel())
		run("b", ss, cs, st.Send)()
		close(sends)
		if byServer {
			<-finish
			return nil
		}
		<-st.Context().Done()
		return nil
	}, nil))
	cl := c.Client(n.Endpoint(), svc, "", c17split(r, cis, psrpc.WithClientStreamInterceptors)...)
	c.Settle()
	var ro []psrpc.RequestOption
	if nR > 0 {
		ro = append(ro, psrpc.WithRequestInterceptors(ris...))
	}
	st, err := client.OpenStream[str, str](context.Background(), cl, mStream, nil, ro...)
	if err != nil {
		c.Violate("open", "%v", err)
		return
	}
	cgot, cdone := collect(st.Channel())
	c.Shape("c=%v/%v s=%v/%v msgs=%d", cs.send, cs.recv, ss.send, ss.recv, msgs)
	if !c.Par(time.Minute, run("a", cs, ss, st.Send), func() { <-sends }) {
		c.Violate("hang", "sends do not return\n%s", psrpcStacks())
		return
	}
	c.Settle()
	for _, x := range []struct {
		name     string
		got, exp []string
	}{{"server", sgot(), want("a", cs, ss)}, {"client", cgot(), want("b", ss, cs)}} {
		if strings.Join(x.got, "\n") != strings.Join(x.exp, "\n") {
			c.Violate("received", "the %s received %q, must receive %q", x.name, x.got, x.exp)
		}
		c.Count("stream_deliveries", len(x.exp))
	}
	p.mu.Lock()
	for k, v := range p.closes {
		c.Violate("closed-early", "interceptor %s was closed %d times before the end", k, v)
	}
	p.mu.Unlock()
	if byServer {
		close(finish)
	} else {
		_ = st.Close(nil)
	}
	c.Settle()
	for _, ch := range []chan struct{}{cdone, sEnded} {
		select {
		case <-ch:
		default:
			c.Violate("not-ended", "the stream did not end")
		}
	}
	p.mu.Lock()
	if p.bad != "" {
		c.Violate("close-order", "%s", p.bad)
	}
	for _, side := range []*c17side{cs, ss} {
		for i, nm := range side.names {
			if k := p.closes[side.name+nm]; k == 0 || k != p.closes[side.name+side.names[0]] {
				c.Violate("close", "interceptor %d of side %s was closed %d times, the first %d times", i, side.name, k, p.closes[side.name+side.names[0]])
			}
		}
	}
	if len(p.closes) == 0 {
		c.Trivial()
	}
	p.mu.Unlock()
	c.Ev("streams %v %v %v %v", cs.send, cs.recv, ss.send, ss.recv)
}

// c17shared: clients are built from option lists that share memory.
func c17shared(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet(kLocal)
	s := c.Server(n.Endpoint(), svc, "")
	must(server.RegisterHandler(s, mQueueNC, nil, func(_ context.Context, req str) (str, error) { return req, nil }, nil))
	var mu sync.Mutex
	seen := map[string][]string{}
	ic := func(name string) psrpc.ClientOption {
		return psrpc.WithClientRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				mu.Lock()
				seen[req.(str).Value] = append(seen[req.(str).Value], name)
				mu.Unlock()
				return next(ctx, req, opts...)
			}
		})
	}
	nb := r.Intn(4)
	base := make([]psrpc.ClientOption, 0, nb+3)
	var want []string
	for i := 0; i < nb; i++ {
		nm := fmt.Sprintf("b%d", i)
		base, want = append(base, ic(nm)), append(want, nm)
	}
	type cc struct {
		cl   *client.RPCClient
		want []string
	}
	var cls []cc
	build := func(opts []psrpc.ClientOption, want []string) {
		mk := client.NewRPCClientWithStreams
		if r.Intn(3) == 0 {
			mk = client.NewRPCClient
		}
		cl, err := mk(newSD(svc, fmt.Sprintf("CLI_%d", len(cls))), n.Endpoint(), opts...)
		must(err)
		c.Cleanup(cl.Close)
		cls = append(cls, cc{cl, want})
	}
	longer := append(base, ic("x"), ic("y")) // fits behind base
	order := r.Perm(3)
	for _, k := range order {
		switch k {
		case 0:
			build(base, want)
		case 1:
			build(longer, append(append([]string{}, want...), "x", "y"))
		case 2:
			build(longer[:nb+1], append(append([]string{}, want...), "x"))
		}
	}
	c.Settle()
	var fs []func()
	for i, x := range cls {
		fs = append(fs, func() {
			v := fmt.Sprint(i)
			if _, err := call(context.Background(), x.cl, mQueueNC, nil, v); err != nil {
				c.Violate("call-fails", "%v", err)
			}
			mu.Lock()
			got := strings.Join(seen[v], ",")
			mu.Unlock()
			if got != strings.Join(x.want, ",") {
				c.Violate("options", "a client built with interceptors %v ran %s", x.want, got)
			}
		})
	}
	c.Par(time.Minute, fs...)
	c.Shape("order=%v nb=%d", order, nb)
	c.Ev("shared %v %d", order, nb)
}
