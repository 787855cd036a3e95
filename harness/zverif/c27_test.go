package zverif

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/baggage"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
	gcodes "google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/middleware/otelpsrpc"
	"github.com/livekit/psrpc/pkg/server"
)

// C27: traces link caller and handler across the bus.

func init() {
	reg("C27", "calls", 3600, 36000, c27calls)
}

// recTracer records spans. Its ids are unique in the process.
type recTracer struct {
	embedded.TracerProvider
	c     *C
	side  string
	mu    *sync.Mutex
	spans *[]*recSpan
	names map[string]bool
}

type recTr struct {
	embedded.Tracer
	p *recTracer
}

type recSpan struct {
	embedded.Span
	p          *recTracer
	name       string
	kind       trace.SpanKind
	call       string // of the context the span was started with
	sc, parent trace.SpanContext
	start, end time.Time
	ended      int
	status     codes.Code
	desc       string
	statuses   int
	attrs      map[attribute.Key]attribute.Value
	errs       []error
	late       []string
	used       bool
}

type c27key struct{}

func (p *recTracer) Tracer(name string, _ ...trace.TracerOption) trace.Tracer {
	p.mu.Lock()
	p.names[name] = true
	p.mu.Unlock()
	return &recTr{p: p}
}

func (t *recTr) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	cfg := trace.NewSpanStartConfig(opts...)
	s := &recSpan{p: t.p, name: name, kind: cfg.SpanKind(), start: time.Now(), attrs: map[attribute.Key]attribute.Value{}}
	s.call, _ = ctx.Value(c27key{}).(string)
	if !cfg.NewRoot() {
		s.parent = trace.SpanContextFromContext(ctx)
	}
	t.p.mu.Lock()
	defer t.p.mu.Unlock()
	var sid trace.SpanID
	binary.BigEndian.PutUint64(sid[:], uint64(nextUniqSync()))
	c := trace.SpanContextConfig{SpanID: sid, TraceID: s.parent.TraceID(), TraceFlags: s.parent.TraceFlags(), TraceState: s.parent.TraceState()}
	if !s.parent.IsValid() {
		binary.BigEndian.PutUint64(c.TraceID[4:], uint64(nextUniqSync()))
		c.TraceFlags = trace.FlagsSampled
		c.TraceState = trace.TraceState{}
	}
	s.sc = trace.NewSpanContext(c)
	*t.p.spans = append(*t.p.spans, s)
	return trace.ContextWithSpan(ctx, s), s
}

func (s *recSpan) do(what string, f func()) {
	s.p.mu.Lock()
	defer s.p.mu.Unlock()
	if s.ended > 0 && what != "End" {
		s.late = append(s.late, what)
		return
	}
	f()
}

func (s *recSpan) End(...trace.SpanEndOption) {
	s.do("End", func() {
		if s.ended++; s.ended == 1 {
			s.end = time.Now()
		}
	})
}
func (s *recSpan) AddEvent(string, ...trace.EventOption) { s.do("AddEvent", func() {}) }
func (s *recSpan) AddLink(trace.Link)                    { s.do("AddLink", func() {}) }
func (s *recSpan) IsRecording() bool                     { return true }
func (s *recSpan) RecordError(err error, _ ...trace.EventOption) {
	s.do("RecordError", func() { s.errs = append(s.errs, err) })
}
func (s *recSpan) SpanContext() trace.SpanContext { return s.sc }
func (s *recSpan) SetStatus(c codes.Code, d string) {
	s.do("SetStatus", func() { s.status, s.desc = c, d; s.statuses++ })
}
func (s *recSpan) SetName(n string) { s.do("SetName", func() { s.name = n }) }
func (s *recSpan) SetAttributes(kv ...attribute.KeyValue) {
	s.do("SetAttributes", func() {
		for _, x := range kv {
			s.attrs[x.Key] = x.Value
		}
	})
}
func (s *recSpan) TracerProvider() trace.TracerProvider { return s.p }

// a handler's execution
type c27exec struct {
	call    string
	service string
	method  string
	span    trace.SpanContext
	own     bool // the span in the context is the recording one
	bag     string
	md      map[string]string
	err     error
	panics  bool
	t0, t1  time.Time
}

type c27call struct {
	id      string
	service string
	method  string
	unary   bool
	parent  trace.SpanContext
	bag     string
	own     map[string]string
	err     error
	t0, t1  time.Time
	out     string
	via     string // the execution that made the call
}

func c27calls(c *C) {
	r := c.LRand(1)
	n := c.NewNet(kinds[r.Intn(3)])
	svcs := []string{c.SvcName(), c.SvcName()}
	clientOn, serverOn := r.Intn(4) > 0, r.Intn(4) > 0
	prop := r.Intn(4)
	var pg propagation.TextMapPropagator
	switch prop {
	case 0: // the default
	case 1:
		pg = propagation.NewCompositeTextMapPropagator(propagation.TraceContext{}, propagation.Baggage{})
	case 2:
		pg = propagation.Baggage{}
	case 3:
		pg = propagation.TraceContext{}
	}
	links, bags := prop != 2, prop == 1 || prop == 2
	order := r.Intn(2) // recovery inside or outside
	retry := r.Intn(3) == 0
	c.Shape("client=%v server=%v prop=%d order=%d retry=%v", clientOn, serverOn, prop, order, retry)
	var mu, execMu sync.Mutex
	var spans []*recSpan
	var execs []*c27exec
	var calls []*c27call
	tp := func(side string) *recTracer {
		return &recTracer{c: c, side: side, mu: &mu, spans: &spans, names: map[string]bool{}}
	}
	cTP, sTP := tp("client"), tp("server")
	var copts []psrpc.ClientOption
	if clientOn {
		copts = append(copts, otelpsrpc.ClientOptions(otelpsrpc.Config{TracerProvider: cTP, TextMapPropagator: pg}))
	}
	if retry { // an attempt that fails is repeated within the span
		copts = append(copts, psrpc.WithClientRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
			return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
				res, err := next(ctx, req, opts...)
				if code(err) == psrpc.Aborted {
					res, err = next(ctx, req, opts...)
				}
				return res, err
			}
		}))
	}
	rec := psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery())
	var sopts []psrpc.ServerOption
	if order == 1 {
		sopts = append(sopts, rec)
	}
	if serverOn {
		sopts = append(sopts, otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: sTP, TextMapPropagator: pg}))
	}
	if order == 0 {
		sopts = append(sopts, rec)
	}
	bagOf := func(ctx context.Context) string { return baggage.FromContext(ctx).String() }
	var cls [2]*client.RPCClient
	var callID int
	var doCall func(ctx context.Context, svc, kind int, out, via string) *c27call
	ownHdr := func(id string) map[string]string {
		m := map[string]string{"own-" + id: "v" + id}
		if len(id)%2 == 0 {
			m["x"] = id
		}
		return m
	}
	doCall = func(ctx context.Context, svc, kind int, out, via string) *c27call {
		execMu.Lock()
		callID++
		x := &c27call{id: fmt.Sprint("c", callID), service: svcs[svc], out: out, via: via}
		calls = append(calls, x)
		execMu.Unlock()
		if via != "" || r.Intn(2) == 0 {
			x.own = ownHdr(x.id)
			ctx = metadata.NewContextWithOutgoingMetadata(ctx, x.own)
		}
		if kind < 3 && clientOn && links && r.Intn(2) == 0 {
			// forwarded from a request of another trace
			ctx = metadata.AppendMetadataToOutgoingContext(ctx, "traceparent", fmt.Sprintf("00-%032x-%016x-0%d", 1<<40+r.Intn(1000), 1+r.Intn(1000), r.Intn(2)))
			c.Count("stale_trace_headers", 1)
		}
		ctx = context.WithValue(ctx, c27key{}, x.id)
		x.parent = trace.SpanContextFromContext(ctx)
		x.bag = bagOf(ctx)
		req := x.id + "/" + out
		limit := psrpc.WithRequestTimeout(2 * time.Second)
		if out == "cancel" {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, r.Ms(700)+time.Millisecond)
			defer cancel()
		}
		x.t0 = time.Now()
		defer func() { execMu.Lock(); execMu.Unlock() }() // orders the judgement after
		switch kind {
		case 0, 1, 2:
			x.method, x.unary = []string{mNormal, mQueueNC, mAff}[kind], true
			if out == "nobody" {
				x.method = mSingle
			}
			_, x.err = call(ctx, cls[svc], x.method, nil, req, limit)
			x.t1 = time.Now()
		case 3:
			x.method = mMulti
			ch, err := callMulti(ctx, cls[svc], x.method, nil, req, limit)
			x.err, x.t1 = err, time.Now()
			if err == nil {
				for range ch {
				}
			}
		}
		return x
	}
	for si, svc := range svcs {
		for k := 1 + r.Intn(2); k > 0; k-- {
			s := c.Server(n.Endpoint(), svc, "", sopts...)
			handler := func(method string) strHandler {
				return func(ctx context.Context, req str) (res str, err error) {
					id, out, _ := strings.Cut(req.Value, "/")
					e := &c27exec{call: id, service: svc, method: method, span: trace.SpanContextFromContext(ctx), bag: bagOf(ctx), t0: time.Now()}
					sp, ok := trace.SpanFromContext(ctx).(*recSpan)
					e.own = ok && sp.p == sTP
					e.md = map[string]string{}
					if h := metadata.IncomingHeader(ctx); h != nil {
						for k, v := range h.Metadata {
							e.md[k] = v
						}
					}
					execMu.Lock()
					execs = append(execs, e)
					nth := 0
					for _, o := range execs {
						if o.call == id {
							nth++
						}
					}
					execMu.Unlock()
					defer func() {
						execMu.Lock()
						e.t1, e.err = time.Now(), err
						execMu.Unlock()
					}()
					switch out {
					case "ok", "cancel":
						if out == "cancel" {
							time.Sleep(r.Ms(600))
						}
						return S("re"), nil
					case "nested":
						y := doCall(ctx, 1-si, r.Intn(4), []string{"ok", "code"}[r.Intn(2)], id)
						if y.err != nil {
							return nil, y.err
						}
						return S("re"), nil
					case "code":
						return nil, psrpc.NewErrorf(psrpc.NotFound, "none of %s", id)
					case "plain":
						return nil, errors.New("plain " + id)
					case "grpc":
						return nil, status.Error(gcodes.FailedPrecondition, "grpc "+id)
					case "wrapped":
						return nil, fmt.Errorf("around: %w", psrpc.NewErrorf(psrpc.DataLoss, "inner"))
					case "panic":
						e.panics = true
						panic("ouch")
					case "again":
						if nth == 1 {
							return nil, psrpc.NewErrorf(psrpc.Aborted, "again")
						}
						return S("re"), nil
					case "late":
						time.Sleep(4 * time.Second)
						return S("re"), nil
					}
					return S("re"), nil
				}
			}
			for _, m := range []string{mNormal, mMulti, mQueueNC, mAff} {
				var aff server.AffinityFunc[str]
				if m == mAff {
					aff = func(context.Context, str) float32 { return 0.5 }
				}
				must(server.RegisterHandler(s, m, nil, handler(m), aff))
			}
		}
		cls[si] = c.Client(n.Endpoint(), svc, "", copts...)
	}
	c.Settle()
	outs := []string{"ok", "ok", "nested", "code", "plain", "grpc", "wrapped", "panic", "again", "late", "cancel", "nobody", "closed"}
	closedClient := r.Intn(5) == 0
	var fs []func()
	for k := 1 + r.Intn(6); k > 0; k-- {
		svc, kind, out := r.Intn(2), r.Intn(4), outs[r.Intn(len(outs))]
		if out == "closed" && !closedClient {
			out = "ok"
		}
		par := r.Intn(5)
		withBag := r.Intn(2) == 0
		fs = append(fs, func() {
			time.Sleep(r.Ms(300))
			ctx := context.Background()
			if par > 0 {
				cfg := trace.SpanContextConfig{Remote: par == 2}
				binary.BigEndian.PutUint64(cfg.TraceID[:], 1<<60|uint64(nextUniqSync()))
				binary.BigEndian.PutUint64(cfg.SpanID[:], 1<<60|uint64(nextUniqSync()))
				if par != 3 {
					cfg.TraceFlags = trace.FlagsSampled
				}
				if par == 4 {
					cfg.TraceState, _ = trace.ParseTraceState(fmt.Sprintf("vendor=v%d,other=x", r.Intn(100)))
				}
				ctx = trace.ContextWithSpanContext(ctx, trace.NewSpanContext(cfg))
			}
			if withBag {
				m, _ := baggage.NewMemberRaw("who", fmt.Sprintf("b%d ü", r.Intn(1000)))
				b, _ := baggage.New(m)
				ctx = baggage.ContextWithBaggage(ctx, b)
			}
			if out == "closed" {
				time.Sleep(5 * time.Second)
				cls[svc].Close()
			}
			x := doCall(ctx, svc, kind, out, "")
			c.Ev("call %s %s %s", x.method, out, code(x.err))
		})
	}
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "traced calls hang\n%s", psrpcStacks())
		return
	}
	time.Sleep(6 * time.Second)

	// judge
	execMu.Lock()
	defer execMu.Unlock()
	mu.Lock()
	defer mu.Unlock()
	byID := map[trace.SpanID]*recSpan{}
	clientSpans := map[string][]*recSpan{}
	for _, s := range spans {
		byID[s.sc.SpanID()] = s
		if s.ended != 1 || len(s.late) > 0 {
			c.Violate("ended", "the span %s ended %d times, and was changed afterwards: %v", s.name, s.ended, s.late)
		}
		if s.p == cTP {
			if s.kind != trace.SpanKindClient {
				c.Violate("kind", "span %s of the client is of kind %v", s.name, s.kind)
			}
			clientSpans[s.call] = append(clientSpans[s.call], s)
		} else if s.kind != trace.SpanKindServer {
			c.Violate("kind", "span %s of the server is of kind %v", s.name, s.kind)
		}
	}
	checkErr := func(s *recSpan, err error) {
		if err == nil {
			if s.status != codes.Ok || len(s.errs) > 0 {
				c.Violate("status", "%s succeeded, its span has status %v %q, errors %v", s.name, s.status, s.desc, s.errs)
			}
			return
		}
		if s.status != codes.Error || s.desc != err.Error() || len(s.errs) != 1 || s.errs[0].Error() != err.Error() {
			c.Violate("status", "%s failed with %q, its span has status %v %q, errors %v", s.name, err, s.status, s.desc, s.errs)
		}
		var pe psrpc.Error
		if errors.As(err, &pe) {
			if got := s.attrs[otelpsrpc.StatusCodeKey]; got.AsString() != string(pe.Code()) {
				c.Violate("status", "%s failed with code %q, its span says %v", s.name, pe.Code(), got.Emit())
			}
		} else if got, ok := s.attrs[otelpsrpc.StatusCodeKey]; ok {
			c.Violate("status", "%s failed with %q, its span says %v", s.name, err, got.Emit())
		}
		if st, ok := status.FromError(err); ok {
			if got := s.attrs["rpc.grpc.status_code"]; got.AsInt64() != int64(st.Code()) {
				c.Violate("status", "%s failed with %q, its span says gRPC code %v", s.name, err, got.Emit())
			}
		}
	}
	nserver := 0
	for _, x := range calls {
		want := 0
		if clientOn && x.unary {
			want = 1
		}
		cs := clientSpans[x.id]
		if len(cs) == 0 && errors.Is(x.err, psrpc.ErrClientClosed) { // refused before anything else
			want = 0
		}
		if len(cs) != want {
			c.Violate("count", "%d client spans for %s (%s)", len(cs), x.method, x.out)
			continue
		}
		var cspan *recSpan
		if want == 1 {
			cspan = cs[0]
			if cspan.name != "Sent."+x.service+"."+x.method {
				c.Violate("name", "the client span of %s.%s is called %q", x.service, x.method, cspan.name)
			}
			if !cspan.parent.Equal(x.parent) {
				c.Violate("parent", "the client span's parent is %v, the caller's is %v", show(cspan.parent), show(x.parent))
			}
			checkErr(cspan, x.err)
			if cspan.start.Before(x.t0) || cspan.end.After(x.t1) {
				c.Violate("time", "the client span lasted from %v to %v, the call from %v to %v", cspan.start.Sub(c.start), cspan.end.Sub(c.start), x.t0.Sub(c.start), x.t1.Sub(c.start))
			}
		}
		var caller *c27exec
		if x.via != "" {
			for _, e := range execs {
				if e.call == x.via && e.span.Equal(x.parent) {
					caller = e
				}
			}
			if caller == nil {
				c.Violate("nested", "the parent of a call made by a handler is %v", show(x.parent))
			}
		}
		for _, e := range execs {
			if e.call != x.id {
				continue
			}
			for k, v := range x.own {
				if e.md[k] != v {
					c.Violate("metadata", "the caller's metadata are %v, the handler's %v", x.own, e.md)
				}
			}
			// what the handler sees
			if !serverOn {
				if e.own || e.span.IsValid() {
					c.Violate("unconfigured", "without tracing a handler sees the span %v", show(e.span))
				}
				continue
			}
			if !e.own {
				c.Violate("own", "a handler's context has no span of its server, but %v", show(e.span))
				continue
			}
			s := byID[e.span.SpanID()]
			if s == nil || s.used {
				c.Violate("own", "the span of a handler is unknown or another execution's: %v", show(e.span))
				continue
			}
			s.used = true
			nserver++
			if s.name != "Recv."+e.service+"."+e.method {
				c.Violate("name", "the server span of %s.%s is called %q", e.service, e.method, s.name)
			}
			switch {
			case cspan != nil && links:
				if s.parent.SpanID() != cspan.sc.SpanID() || s.parent.TraceID() != cspan.sc.TraceID() || s.sc.TraceID() != cspan.sc.TraceID() ||
					s.parent.TraceFlags() != cspan.sc.TraceFlags() || s.parent.TraceState().String() != cspan.sc.TraceState().String() {
					c.Violate("link", "the server span's parent is %v, the client span is %v (%s %s)", show(s.parent), show(cspan.sc), x.method, x.out)
				}
				c.Count("linked_spans", 1)
			default:
				if s.parent.IsValid() {
					c.Violate("link", "the server span's parent is %v, nothing was propagated", show(s.parent))
				}
			}
			if s.start.After(e.t0) || s.end.Before(e.t1) {
				c.Violate("time", "the server span does not cover the execution")
			}
			if e.panics {
				if order == 0 {
					if s.status != codes.Error {
						c.Violate("status", "a handler panicked, its span has status %v", s.status)
					}
				}
			} else {
				checkErr(s, e.err)
			}
			wantBag := ""
			if bags && x.unary && clientOn {
				wantBag = x.bag
			}
			if e.bag != wantBag {
				c.Violate("baggage", "the caller's baggage is %q, the handler's %q", wantBag, e.bag)
			}
			if e.bag != "" {
				c.Count("baggage_seen", 1)
			}
		}
		if x.out == "again" && retry && x.unary && x.err != nil {
			c.Violate("changed", "a repeated call failed with %v", x.err)
		}
		if (x.out == "ok" || x.out == "nested" && !x.unary) && x.err != nil {
			c.Violate("changed", "a call failed with %v", x.err)
		}
	}
	for _, s := range spans {
		if s.p == sTP && !s.used {
			c.Violate("count", "the server span %s belongs to no execution", s.name)
		}
		if s.p == cTP && s.call == "" {
			c.Violate("count", "the client span %s belongs to no call", s.name)
		}
	}
	if len(execs) == 0 {
		c.Trivial()
	}
	c.Count("client_spans", len(spans)-nserver)
	c.Count("server_spans", nserver)
	c.Count("executions", len(execs))
}

func show(sc trace.SpanContext) string {
	return fmt.Sprintf("%v/%v/%v/%q", sc.TraceID(), sc.SpanID(), sc.TraceFlags(), sc.TraceState().String())
}
