package zverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
)

// C20: a panicking handler only fails its own call.

func init() {
	reg("C20", "calls", 1600, 16000, c20calls)
	reg("C20", "layers", 2500, 25000, c20layers)
	reg("C20", "shutdown", 800, 8000, c20shutdown)
}

type c20nasty struct{}

func (c20nasty) Error() string  { panic("no text") }
func (c20nasty) String() string { panic("no text") }

type c20node struct {
	next *c20node
	v    int
}

var c20kinds = []string{"string", "nil", "error", "psrpc", "wrapped", "status", "canceled", "deref", "index", "nilmap", "divide", "assert",
	"closed", "double", "nasty", "struct", "int", "abort", "repanic", "deferred", "deep", "func", "slice"}

// c20panic panics in one of many ways.
//
//go:noinline
func c20panic(kind string) {
	var zero int
	switch kind {
	case "string":
		panic("handler broke")
	case "nil":
		panic(nil)
	case "error":
		panic(io.ErrUnexpectedEOF)
	case "psrpc":
		panic(psrpc.NewErrorf(psrpc.NotFound, "panicking with an error"))
	case "wrapped":
		panic(fmt.Errorf("wrapped %w", psrpc.ErrRequestCanceled))
	case "status":
		panic(status.Error(codes.NotFound, "status"))
	case "canceled":
		panic(context.Canceled)
	case "deref":
		var n *c20node
		n.next.v = 1
	case "index":
		a := make([]int, zero)
		a[zero+3]++
	case "slice":
		a := make([]int, zero)
		a = a[2-zero : 1+zero]
	case "nilmap":
		var m map[string]int
		m["x"]++
	case "divide":
		panic(fmt.Sprint(1 / zero))
	case "assert":
		var a any = "x"
		_ = a.(fmt.Stringer)
	case "closed":
		ch := make(chan int)
		close(ch)
		ch <- 1
	case "double":
		ch := make(chan int)
		close(ch)
		close(ch)
	case "nasty":
		panic(c20nasty{})
	case "struct":
		panic(struct{ a, b string }{strings.Repeat("x", 100000), "\xff\xfe"})
	case "int":
		panic(42)
	case "abort":
		panic(http.ErrAbortHandler)
	case "repanic":
		defer func() {
			r := recover()
			panic(fmt.Sprint("again ", r))
		}()
		panic("first")
	case "deferred":
		defer func() { panic("in a deferred call") }()
		panic("before the deferred call")
	case "func":
		var f func()
		f()
	case "deep":
		var rec func(n int) int
		rec = func(n int) int {
			if n == 0 {
				panic("deep")
			}
			return rec(n-1) + 1
		}
		rec(3000)
	}
	panic("unreachable " + kind)
}

// c20do acts as the payload says: name|mode|before ms|kind
func c20do(ctx context.Context, id, val string) (str, error) {
	f := strings.Split(val, "|")
	var ms int
	fmt.Sscan(f[2], &ms)
	time.Sleep(time.Duration(ms) * time.Millisecond)
	switch f[1] {
	case "panic":
		c20panic(f[3])
	case "child": // the panic is raised with other goroutines and deferred calls around
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); time.Sleep(time.Millisecond) }()
		defer wg.Wait()
		c20panic(f[3])
	case "own": // the handler recovers by itself
		func() {
			defer func() { _ = recover() }()
			c20panic(f[3])
		}()
	case "fail":
		return nil, psrpc.NewErrorf(psrpc.NotFound, "none %s", f[0])
	case "onesided": // panics at one server only
		if id == "s0" {
			c20panic(f[3])
		}
	}
	return S(id + " " + f[0]), nil
}

// c20want says what the call at server id ends with.
func c20want(id, val string) (string, psrpc.ErrorCode) {
	f := strings.Split(val, "|")
	switch {
	case f[1] == "panic" || f[1] == "child" || f[1] == "onesided" && id == "s0":
		return "", psrpc.Internal
	case f[1] == "fail":
		return "", psrpc.NotFound
	}
	return id + " " + f[0], psrpc.OK
}

func c20val(r *lrand, name string) string {
	mode := []string{"panic", "panic", "panic", "ok", "ok", "child", "own", "fail", "onesided"}[r.Intn(9)]
	return fmt.Sprintf("%s|%s|%d|%s", name, mode, []int{0, 0, 3, 60, 400}[r.Intn(5)], c20kinds[r.Intn(len(c20kinds))])
}

// c20icepts surrounds the recovery with interceptors that observe, and some that panic.
func c20icepts(c *C, r *lrand, obs func(out string, err error)) []psrpc.ServerRPCInterceptor {
	var l []psrpc.ServerRPCInterceptor
	outer := r.Intn(3)
	for i := 0; i < outer; i++ {
		l = append(l, func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
			done := false
			defer func() {
				if !done {
					c.Violate("escapes", "a panic got past the recovery interceptor (request %q)", req.(str).Value)
					_ = recover()
				}
			}()
			res, err := h(ctx, req)
			done = true
			obs(req.(str).Value, err)
			return res, err
		})
	}
	if outer > 0 && r.Intn(3) == 0 {
		l = append(l, middleware.WithServerRecovery())
	}
	l = append(l, middleware.WithServerRecovery())
	if r.Intn(2) == 0 { // inner interceptors that panic on their own
		l = append(l, func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, h psrpc.ServerRPCHandler) (proto.Message, error) {
			f := strings.Split(req.(str).Value, "|")
			if f[1] == "panic" && len(f[0])%2 == 0 {
				c20panic(f[3])
			}
			res, err := h(ctx, req)
			return res, err
		})
	}
	return l
}

func c20register(c *C, s *server.RPCServer, id string, methods []string, h func(ctx context.Context, req str) (str, error)) {
	for _, m := range methods {
		var af server.AffinityFunc[str]
		if m == mAff {
			af = func(context.Context, str) float32 { return 0.5 }
		}
		must(server.RegisterHandler(s, m, nil, h, af))
	}
}

func c20calls(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	ns := 1 + r.Intn(3)
	methods := []string{mNormal, mAff, mMulti, mQueueNC}
	if ns == 1 {
		methods = append(methods, mSingle)
	}
	var omu sync.Mutex
	seen := 0
	ob := func(val string, err error) {
		co := code(err)
		omu.Lock()
		defer omu.Unlock()
		seen++
		f := strings.Split(val, "|")
		if (f[1] == "panic" || f[1] == "child") && co != psrpc.Internal {
			c.Violate("outer", "the interceptor around the recovery saw %v for %s", err, val)
		}
	}
	var servers []*server.RPCServer
	execs := newTally()
	for i := 0; i < ns; i++ {
		id := fmt.Sprint("s", i)
		s := c.Server(n.Endpoint(), svc, id, psrpc.WithServerRPCInterceptors(c20icepts(c, r, ob)...), psrpc.WithServerChannelSize([]int{1, 100}[r.Intn(2)]))
		c20register(c, s, id, methods, func(ctx context.Context, req str) (str, error) {
			execs.add(req.Value)
			return c20do(ctx, id, req.Value)
		})
		must(server.RegisterStreamHandler(s, mStream, nil, func(ss psrpc.ServerStream[str, str]) error {
			for m := range ss.Channel() {
				if err := ss.Send(m); err != nil {
					return err
				}
			}
			return nil
		}, nil))
		servers = append(servers, s)
	}
	ncl := 1 + r.Intn(2)
	var cls []*client.RPCClient
	for i := 0; i < ncl; i++ {
		cls = append(cls, c.Client(n.Endpoint(), svc, ""))
	}
	c.Settle()
	sizes := make([]map[string]int, ns)
	for i, s := range servers {
		sizes[i] = stateSize(s)
	}
	panics := 0
	var fs []func()
	calls := 4 + r.Intn(12)
	for k := 0; k < calls; k++ {
		method := methods[r.Intn(len(methods))]
		cl := cls[r.Intn(ncl)]
		val := c20val(r, strings.Repeat("c", 1+r.Intn(2))+fmt.Sprint(k))
		wait := r.Ms(300)
		var ms int
		fmt.Sscan(strings.Split(val, "|")[2], &ms)
		fs = append(fs, func() {
			time.Sleep(wait)
			t0 := time.Now()
			ctx := context.Background()
			limit := time.Duration(ms)*time.Millisecond + 3*c.Slack() + 600*time.Millisecond // + affinity wait
			if method == mMulti {
				ch, err := callMulti(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(30*time.Second))
				if err != nil {
					c.Violate("multi", "multi-RPC failed: %v", err)
					return
				}
				want := map[string]int{}
				for i := 0; i < ns; i++ {
					w, co := c20want(fmt.Sprint("s", i), val)
					want[fmt.Sprint(w, co)]++
				}
				got := map[string]int{}
				for i := 0; i < ns; i++ {
					select {
					case m := <-ch:
						v := ""
						if m.Err == nil {
							v = m.Result.Value
						}
						got[fmt.Sprint(v, code(m.Err))]++
					case <-time.After(limit):
						c.Violate("late", "multi-RPC %s: %d of %d answers after %v", val, i, ns, limit)
						return
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Violate("multi-result", "multi-RPC %s gave %v, want %v", val, got, want)
				}
				c.Ev("multi %v %s", got, val)
				go func() {
					for range ch {
					}
				}()
				return
			}
			res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(30*time.Second), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true, AffinityTimeout: time.Second, ShortCircuitTimeout: 100 * time.Millisecond}))
			d := time.Since(t0)
			ok := false
			for i := 0; i < ns; i++ {
				w, co := c20want(fmt.Sprint("s", i), val)
				if w == res && co == code(err) {
					ok = true
				}
			}
			if !ok {
				c.Violate("result", "%s %s gave %q, %v", method, val, res, err)
			}
			if d > limit {
				c.Violate("late", "%s %s took %v", method, val, d)
			}
			if err != nil {
				var pe psrpc.Error
				if !errors.As(err, &pe) {
					c.Violate("result", "%s %s failed with %T %v", method, val, err, err)
				}
			}
			if e := execs.get(val); e > 1 || e == 0 && !strings.Contains(val, "|panic|") {
				c.Violate("executions", "%s %s was executed %d times", method, val, e)
			}
			co := code(err)
			omu.Lock()
			if co == psrpc.Internal {
				panics++
			}
			omu.Unlock()
			c.Ev("call %s %s", code(err), val)
		})
	}
	for k := r.Intn(3); k > 0; k-- {
		cl := cls[r.Intn(ncl)]
		fs = append(fs, func() {
			st, err := client.OpenStream[str, str](context.Background(), cl, mStream, nil)
			if err != nil {
				c.Violate("stream", "opening a stream during panics: %v", err)
				return
			}
			for i := 0; i < 6; i++ {
				v := fmt.Sprint("m", i)
				if err := st.Send(S(v)); err != nil {
					c.Violate("stream", "sending during panics: %v", err)
				}
				select {
				case m, ok := <-st.Channel():
					if !ok || m.Value != v {
						c.Violate("stream", "stream got %v instead of %s (%v)", m, v, st.Err())
						return
					}
				case <-time.After(10 * time.Second):
					c.Violate("stream", "stream stopped during panics")
				}
				time.Sleep(50 * time.Millisecond)
			}
			if err := st.Close(nil); err != nil {
				c.Violate("stream", "closing: %v", err)
			}
		})
	}
	c.Shape("ns=%d ncl=%d calls=%d", ns, ncl, calls)
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	// afterwards everything works
	for _, m := range methods {
		if m == mMulti {
			continue
		}
		if res, err := call(context.Background(), cls[0], m, nil, "after|ok|0|x"); err != nil || !strings.HasSuffix(res, "after") {
			c.Violate("later", "%s after the panics gave %q, %v", m, res, err)
		}
	}
	time.Sleep(31*time.Second + c.Slack())
	for i, s := range servers {
		if g := stateGrowth(sizes[i], stateSize(s)); g != "" {
			c.Violate("left", "after all calls the server still holds: %s", g)
		}
	}
	c.Count("panicking_calls", panics)
	c.Count("seen_by_outer_interceptors", seen)
	if panics == 0 {
		c.Trivial()
	}
	for _, s := range servers {
		if !c.Within(10*time.Second, func() { s.Close(false) }) {
			c.Violate("close", "graceful close does not return after panics\n%s", psrpcStacks())
			return
		}
	}
	for _, cl := range cls {
		cl.Close()
	}
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
}

// c20layers drives stacks of interceptors directly: passing, panicking before or after
// the next layer, failing, and recovering. A reference says what comes out.
func c20layers(c *C) {
	r := c.Rand
	type layer struct{ kind, pk string }
	n := 1 + r.Intn(7)
	var ls []layer
	for i := 0; i < n; i++ {
		ls = append(ls, layer{[]string{"recover", "recover", "pass", "before", "after", "replace", "fail", "twice"}[r.Intn(8)], c20kinds[r.Intn(len(c20kinds))]})
	}
	ls[r.Intn(n)].kind = "recover"
	rec := middleware.WithServerRecovery()
	type out struct {
		res proto.Message
		err error
		pan bool
	}
	base := []out{{res: S("value")}, {err: psrpc.NewErrorf(psrpc.Aborted, "x")}, {err: errors.New("plain")}, {res: S("both"), err: io.EOF}, {}, {pan: true}}[r.Intn(6)]
	pk := c20kinds[r.Intn(len(c20kinds))]
	repl := S("replaced")
	failed := psrpc.NewErrorf(psrpc.DataLoss, "layer")
	ctx := context.WithValue(context.Background(), c17key("k"), 1)
	req := S("req")
	runs := 0
	var h psrpc.ServerRPCHandler = func(cx context.Context, q proto.Message) (proto.Message, error) {
		runs++
		if cx != ctx || q != proto.Message(req) {
			c.Violate("arguments", "the handler got %v %v", cx, q)
		}
		if base.pan {
			c20panic(pk)
		}
		return base.res, base.err
	}
	// expected outcome, innermost first
	want := base
	isRec := false // came out of a recovery
	desc := fmt.Sprintf("base %+v", base)
	wruns := 1
	for i := n - 1; i >= 0; i-- {
		l := ls[i]
		next := h
		switch l.kind {
		case "recover":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) {
				return rec(cx, q, psrpc.RPCInfo{}, next)
			}
			if want.pan {
				want, isRec = out{}, true
			}
		case "pass":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) { return next(cx, q) }
		case "before":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) { c20panic(l.pk); return next(cx, q) }
			want, isRec, wruns = out{pan: true}, false, 0
		case "after":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) {
				_, _ = next(cx, q)
				c20panic(l.pk)
				return nil, nil
			}
			want, isRec = out{pan: true}, false
		case "replace":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) {
				if _, err := next(cx, q); err != nil {
					return nil, err
				}
				return repl, nil
			}
			if !want.pan && !isRec && want.err == nil {
				want.res = repl
			} else if !want.pan {
				want.res = nil
			}
		case "fail":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) {
				_, _ = next(cx, q)
				return nil, failed
			}
			if !want.pan {
				want, isRec = out{err: failed}, false
			}
		case "twice":
			h = func(cx context.Context, q proto.Message) (proto.Message, error) {
				_, _ = next(cx, q)
				return next(cx, q)
			}
			if !want.pan {
				wruns *= 2
			}
		}
		desc += " < " + l.kind
	}
	// several goroutines share the stack
	k := 1 + r.Intn(3)
	if want.pan {
		k = 1
		next := h
		h = func(cx context.Context, q proto.Message) (proto.Message, error) {
			return rec(cx, q, psrpc.RPCInfo{}, next)
		}
		want, isRec = out{}, true
	}
	for i := 0; i < k; i++ {
		runs = 0
		var res proto.Message
		var err error
		escaped := true
		func() {
			defer func() {
				if escaped {
					c.Violate("escapes", "a panic escapes (%s): %v", desc, recover() != nil)
				}
			}()
			res, err = h(ctx, req)
			escaped = false
		}()
		if escaped {
			return
		}
		if isRec {
			if code(err) != psrpc.Internal {
				c.Violate("internal", "a recovered panic gave %v, %v (%s)", res, err, desc)
			}
		} else if res != want.res || err != want.err {
			c.Violate("unchanged", "got %v, %v, want %v, %v (%s)", res, err, want.res, want.err, desc)
		}
		if runs != wruns {
			c.Violate("runs", "the handler ran %d times instead of %d (%s)", runs, wruns, desc)
		}
	}
	c.Count("stacks", 1)
	c.Ev("layers %s %v %s", desc, isRec, pk)
}

// c20shutdown closes servers while handlers panic.
func c20shutdown(c *C) {
	r := c.LRand(1)
	base := c.LeakBase()
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	methods := []string{mNormal, mQueueNC, mSingle, mMulti, mAff}
	log := &c14log{}
	s := c.Server(n.Endpoint(), svc, "s0", psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	c20register(c, s, "s0", methods, func(ctx context.Context, req str) (str, error) {
		e := log.begin(req.Value)
		defer log.finish(e)
		return c20do(ctx, "s0", req.Value)
	})
	cl := c.Client(n.Endpoint(), svc, "")
	c.Settle()
	var mu sync.Mutex
	type done struct {
		val string
		res string
		err error
		at  time.Time
	}
	var ds []done
	var fs []func()
	for k := 0; k < 6+r.Intn(8); k++ {
		m := methods[r.Intn(len(methods))]
		val := c20val(r, fmt.Sprint("c", k))
		wait := r.Ms(200)
		fs = append(fs, func() {
			time.Sleep(wait)
			x := done{val: val}
			if m == mMulti {
				ch, err := callMulti(context.Background(), cl, m, nil, val, psrpc.WithRequestTimeout(5*time.Second))
				if x.err = err; err == nil {
					x.err = psrpc.ErrRequestTimedOut
					for e := range ch {
						if x.err = e.Err; e.Err == nil {
							x.res = e.Result.Value
						}
						break
					}
					go func() {
						for range ch {
						}
					}()
				}
			} else {
				x.res, x.err = call(context.Background(), cl, m, nil, val, psrpc.WithRequestTimeout(5*time.Second))
			}
			x.at = time.Now()
			mu.Lock()
			ds = append(ds, x)
			mu.Unlock()
		})
	}
	closeAt := r.Ms(500)
	var closed time.Time
	fs = append(fs, func() {
		time.Sleep(closeAt)
		s.Close(false)
		closed = time.Now()
		if run, _ := log.state(); run > 0 {
			c.Violate("early", "graceful close returned with %d handlers running", run)
		}
	})
	if !c.Par(2*time.Minute, fs...) {
		c.Violate("hang", "close hangs while handlers panic\n%s", psrpcStacks())
		return
	}
	ex := map[string]*c14exec{}
	var last time.Time
	for _, e := range log.ex {
		ex[e.val] = e
		if e.end.After(last) {
			last = e.end
		}
		if e.start.After(closed) {
			c.Violate("after-close", "%s was started after close returned", e.val)
		}
	}
	np := 0
	for _, d := range ds {
		w, co := c20want("s0", d.val)
		e := ex[d.val]
		switch {
		case e == nil: // not accepted any more
			if d.err == nil {
				c.Violate("result", "%s never ran and gave %q", d.val, d.res)
			}
		default:
			if d.res != w || code(d.err) != co {
				c.Violate("result", "%s gave %q, %v, want %q, %s", d.val, d.res, d.err, w, co)
			}
			if late := d.at.Sub(e.end); late > c.Slack() {
				c.Violate("late", "%s returned %v after its handler ended", d.val, late)
			}
			if co == psrpc.Internal {
				np++
			}
		}
		c.Ev("end %v %s %s", e != nil, code(d.err), d.val)
	}
	c.Count("panicking_calls", np)
	c.Count("not_accepted", len(ds)-len(ex))
	if np == 0 {
		c.Trivial()
	}
	cl.Close()
	time.Sleep(6 * time.Second)
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
}
