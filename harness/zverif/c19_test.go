package zverif

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/server"
)

// C19: metrics account for every call and byte exactly once.

func init() {
	reg("C19", "unary", 4500, 45000, c19unary)
	reg("C19", "multi", 2500, 25000, c19multi)
	reg("C19", "streams", 3500, 35000, c19streams)
}

type c19ev struct {
	kind     string // unary, multi, send, recv, open, close
	role     middleware.MetricRole
	info     psrpc.RPCInfo
	d        time.Duration
	err      error
	ok, bad  int
	rx, tx   int
	bytes    int
	returned time.Time
}

func (e c19ev) String() string {
	return fmt.Sprintf("%s %s %s/%s d=%v err=%v counts=%d/%d rx=%d tx=%d bytes=%d", e.kind, e.role, e.info.Method, strings.Join(e.info.Topic, "."), e.d, e.err, e.ok, e.bad, e.rx, e.tx, e.bytes)
}

// c19obs records what is reported, by topic (each call has its own).
type c19obs struct {
	mu  sync.Mutex
	evs map[string][]c19ev
}

func (o *c19obs) add(e c19ev) {
	e.returned = time.Now()
	k := strings.Join(e.info.Topic, ".") + "/" + e.role.String()
	o.mu.Lock()
	o.evs[k] = append(o.evs[k], e)
	o.mu.Unlock()
}

func (o *c19obs) get(topic string, role middleware.MetricRole) []c19ev {
	k := topic + "/" + role.String()
	o.mu.Lock()
	defer o.mu.Unlock()
	return append([]c19ev{}, o.evs[k]...)
}

func (o *c19obs) OnUnaryRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, rx, tx int) {
	o.add(c19ev{kind: "unary", role: role, info: i, d: d, err: err, rx: rx, tx: tx})
}
func (o *c19obs) OnMultiRequest(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, ok, bad, rx, tx int) {
	o.add(c19ev{kind: "multi", role: role, info: i, d: d, ok: ok, bad: bad, rx: rx, tx: tx})
}
func (o *c19obs) OnStreamSend(role middleware.MetricRole, i psrpc.RPCInfo, d time.Duration, err error, n int) {
	o.add(c19ev{kind: "send", role: role, info: i, d: d, err: err, bytes: n})
}
func (o *c19obs) OnStreamRecv(role middleware.MetricRole, i psrpc.RPCInfo, err error, n int) {
	o.add(c19ev{kind: "recv", role: role, info: i, err: err, bytes: n})
}
func (o *c19obs) OnStreamOpen(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add(c19ev{kind: "open", role: role, info: i})
}
func (o *c19obs) OnStreamClose(role middleware.MetricRole, i psrpc.RPCInfo) {
	o.add(c19ev{kind: "close", role: role, info: i})
}

func c19info(c *C, e c19ev, svc, method string, multi bool) {
	if e.info.Service != svc || e.info.Method != method || e.info.Multi != multi {
		c.Violate("info", "reported %+v for %s.%s", e.info, svc, method)
	}
}

func c19size(r interface{ Intn(int) int }) int {
	return []int{0, 1, 5, 100, 127, 128, 3000}[r.Intn(7)]
}

func c19unary(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	obs := &c19obs{evs: map[string][]c19ev{}}
	method := []string{mNormal, mAff, mQueueNC}[r.Intn(3)]
	ncl, ns := 1+r.Intn(2), 1+r.Intn(2)
	type plan struct {
		kind    string
		size    int
		res     int
		handler error
		d       time.Duration
	}
	type exec struct {
		err     error
		in, out int
		d       time.Duration
	}
	var mu sync.Mutex
	plans := map[string]*plan{}
	execs := map[string][]exec{}
	var servers []*server.RPCServer
	outer := r.Intn(2) == 0
	for i := 0; i < ns; i++ {
		opts := []psrpc.ServerOption{psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()), middleware.WithServerMetrics(obs)}
		if outer {
			opts[0], opts[1] = opts[1], opts[0]
		}
		servers = append(servers, c.Server(n.Endpoint(), svc, "", opts...))
	}
	fb := newFaultBus(n.Endpoint())
	fb.onPub = func(ch psrpc.Channel, _ proto.Message) error {
		if strings.Contains(ch.Legacy, "broken") {
			return errInjected
		}
		return nil
	}
	var fs []func()
	var setup []func()
	for k := 0; k < ncl; k++ {
		cl := c.Client(fb, svc, "", middleware.WithClientMetrics(obs))
		for w := 0; w < 2; w++ {
			rr := c.NewRand(20 + 10*k + w)
			var ids []string
			for q := 0; q < 3; q++ {
				p := &plan{kind: []string{"ok", "ok", "error", "timeout", "cancel", "nobody", "broken", "panic", "mutate", "plain"}[rr.Intn(10)], size: c19size(rr), res: c19size(rr), d: time.Duration(rr.Intn(60)) * time.Millisecond}
				id := fmt.Sprintf("v%d%d%d", k, w, q)
				if p.kind == "broken" {
					id = "broken" + id
				}
				ids = append(ids, id)
				plans[id] = p
				if p.kind == "nobody" {
					continue
				}
				h := func(ctx context.Context, req str) (str, error) {
					e := exec{in: proto.Size(req), d: p.d}
					time.Sleep(p.d)
					var res str
					switch p.kind {
					case "error":
						e.err = psrpc.NewErrorf(psrpc.NotFound, "no %s", id)
					case "plain":
						e.err = errors.New("plain " + id)
					case "panic":
						e.err = errInjected // any
					case "timeout", "cancel":
						<-ctx.Done()
						time.Sleep(2 * time.Second)
						e.err = ctx.Err()
					case "mutate":
						// the request is the handler's own
						req.Value = strings.Repeat("y", 500)
						go func() { time.Sleep(0); req.Value = "z" }()
						fallthrough
					default:
						res = S(strings.Repeat("r", p.res))
						e.out = proto.Size(res)
					}
					mu.Lock()
					execs[id] = append(execs[id], e)
					mu.Unlock()
					if p.kind == "panic" {
						panic("by plan")
					}
					if e.err != nil {
						return nil, e.err
					}
					return res, nil
				}
				s := servers[rr.Intn(ns)]
				setup = append(setup, func() { must(server.RegisterHandler(s, method, []string{id}, h, nil)) })
			}
			fs = append(fs, func() {
				for _, id := range ids {
					p := plans[id]
					req := S(strings.Repeat("q", p.size))
					size := proto.Size(req)
					ctx, cancel := context.WithCancel(context.Background())
					if p.kind == "cancel" {
						time.AfterFunc(300*time.Millisecond, cancel)
					}
					start := time.Now()
					res, err := client.RequestSingle[str](ctx, cl, method, []string{id}, req, psrpc.WithRequestTimeout(1500*time.Millisecond))
					took := time.Since(start)
					cancel()
					want := map[string]psrpc.ErrorCode{"ok": psrpc.OK, "mutate": psrpc.OK, "error": psrpc.NotFound, "timeout": psrpc.DeadlineExceeded, "cancel": psrpc.Canceled, "broken": psrpc.Internal, "panic": psrpc.Internal, "plain": psrpc.Unknown}[p.kind]
					if g := code(err); g != want && p.kind != "nobody" || err == nil && len(res.Value) != p.res {
						c.Violate("result", "call %s (%s) ended with %v %v", id, p.kind, res, err)
					}
					evs := obs.get(id, middleware.ClientRole)
					if len(evs) != 1 {
						c.Violate("count", "call %s (%s) was reported %d times by the client: %v", id, p.kind, len(evs), evs)
						continue
					}
					e := evs[0]
					c19info(c, e, svc, method, false)
					rx := 0
					if err == nil {
						rx = proto.Size(res)
					}
					if e.kind != "unary" || e.err != err {
						c.Violate("report", "call %s (%s) ended with %v and was reported as %s", id, p.kind, err, e)
					}
					if e.rx != rx || e.tx != size {
						c.Violate("size", "call %s (%s) sent %d bytes, received %d, and was reported as %s", id, p.kind, size, rx, e)
					}
					if e.d > took || e.d < took-c.Slack() {
						c.Violate("duration", "call %s took %v and was reported as %s", id, took, e)
					}
					c.Count("client_reports", 1)
					c.Ev("unary %s %d %d", p.kind, p.size, p.res)
				}
			})
		}
	}
	for _, f := range setup {
		f()
	}
	c.Settle()
	c.Shape("m=%s cl=%d s=%d outer=%v", method, ncl, ns, outer)
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	time.Sleep(8 * time.Second)
	for id, p := range plans {
		evs := obs.get(id, middleware.ServerRole)
		mu.Lock()
		ex := execs[id]
		mu.Unlock()
		if len(evs) != len(ex) {
			c.Violate("count", "call %s (%s) was executed %d times and reported %d times by the servers: %v", id, p.kind, len(ex), len(evs), evs)
			continue
		}
		for i, e := range evs {
			x := ex[i]
			c19info(c, e, svc, method, false)
			if e.kind != "unary" || p.kind != "panic" && e.err != x.err || p.kind == "panic" && code(e.err) != psrpc.Internal {
				c.Violate("report", "an execution of %s (%s) ended with %v and was reported as %s", id, p.kind, x.err, e)
			}
			if e.rx != x.in || e.tx != x.out {
				c.Violate("size", "an execution of %s (%s) received %d bytes, answered %d, and was reported as %s", id, p.kind, x.in, x.out, e)
			}
			if e.d < x.d {
				c.Violate("duration", "an execution of %s took at least %v and was reported as %s", id, x.d, e)
			}
			c.Count("server_reports", 1)
		}
		// and the client did not report it again
		if k := len(obs.get(id, middleware.ClientRole)); k != 1 {
			c.Violate("count", "call %s was reported %d times by the client", id, k)
		}
	}
}

// c19refuser turns every other answer into an error
type c19refuser struct{ psrpc.ClientMultiRPCHandler }

func (h c19refuser) Recv(m proto.Message, err error) {
	if err == nil && proto.Size(m)%2 == 0 {
		err = psrpc.NewErrorf(psrpc.OutOfRange, "refused")
	}
	h.ClientMultiRPCHandler.Recv(m, err)
}

func c19multi(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	obs := &c19obs{evs: map[string][]c19ev{}}
	ns := r.Intn(4)
	calls := 1 + r.Intn(4)
	type exec struct {
		err     bool
		in, out int
	}
	var mu sync.Mutex
	execs := map[string][]exec{}
	for i := 0; i < ns; i++ {
		s := c.Server(n.Endpoint(), svc, "", middleware.WithServerMetrics(obs), psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
		for k := 0; k < calls; k++ {
			id := fmt.Sprint("v", k)
			rr := c.NewRand(100 + 10*i + k)
			kind := []string{"ok", "ok", "error", "late", "panic", "mutate"}[rr.Intn(6)]
			size := c19size(rr)
			must(server.RegisterHandler(s, mMulti, []string{id}, func(ctx context.Context, req str) (str, error) {
				e := exec{in: proto.Size(req), err: kind == "error" || kind == "panic"}
				res := S(strings.Repeat("r", size))
				if !e.err {
					e.out = proto.Size(res)
				}
				if kind == "mutate" {
					req.Value = strings.Repeat("y", 500)
				}
				if kind == "late" {
					time.Sleep(2 * time.Second)
				}
				mu.Lock()
				execs[id] = append(execs[id], e)
				mu.Unlock()
				if kind == "panic" {
					panic(kind)
				}
				if e.err {
					return nil, psrpc.NewErrorf(psrpc.NotFound, "no")
				}
				return res, nil
			}, nil))
		}
	}
	fb := newFaultBus(n.Endpoint())
	fb.onPub = func(ch psrpc.Channel, _ proto.Message) error {
		if strings.Contains(ch.Legacy, "broken") {
			return errInjected
		}
		return nil
	}
	// an interceptor which refuses some of the answers, and passes them on for information
	copts := []psrpc.ClientOption{middleware.WithClientMetrics(obs)}
	refuse := r.Intn(3) == 0
	if refuse {
		copts = append([]psrpc.ClientOption{psrpc.WithClientMultiRPCInterceptors(
			func(_ psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
				return c19refuser{next}
			})}, copts...)
	}
	cl := c.Client(fb, svc, "", copts...)
	c.Settle()
	c.Shape("s=%d calls=%d refuse=%v", ns, calls, refuse)
	var fs []func()
	for k := 0; k < calls; k++ {
		id := fmt.Sprint("v", k)
		rr := c.NewRand(60 + k)
		if rr.Intn(6) == 0 {
			id = "broken" + id
		}
		mode := rr.Intn(4) // 1: canceled, 2: unread
		size := c19size(rr)
		fs = append(fs, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			end := time.Second
			if mode == 1 {
				end = 500 * time.Millisecond
				time.AfterFunc(end, cancel)
			}
			req := S(strings.Repeat("q", size))
			start := time.Now()
			ch, err := client.RequestMulti[str](ctx, cl, mMulti, []string{id}, req, psrpc.WithRequestTimeout(time.Second))
			if (err != nil) != strings.HasPrefix(id, "broken") {
				c.Violate("result", "call %s: %v", id, err)
				return
			}
			var ok, bad, rx, refused int
			if err == nil {
				if mode == 2 {
					time.Sleep(1500 * time.Millisecond)
				}
				for m := range ch {
					if m.Err != nil {
						bad++
						refused += proto.Size(m.Result)
					} else {
						ok++
						rx += proto.Size(m.Result)
					}
				}
			} else {
				end = 0
			}
			c.Settle()
			evs := obs.get(id, middleware.ClientRole)
			if len(evs) != 1 {
				c.Violate("count", "call %s was reported %d times by the client: %v", id, len(evs), evs)
				return
			}
			e := evs[0]
			c19info(c, e, svc, mMulti, true)
			if e.kind != "multi" || e.ok != ok || e.bad != bad || e.rx != rx && e.rx != rx+refused || e.tx != proto.Size(req) {
				c.Violate("report", "call %s of %d bytes returned %d results of %d bytes and %d errors, and was reported as %s", id, proto.Size(req), ok, rx, bad, e)
			}
			if e.d < end-c.Slack() || e.d > end+c.Slack() || e.d > time.Since(start) {
				c.Violate("duration", "call %s ended after %v and was reported as %s", id, end, e)
			}
			c.Count("client_reports", 1)
			c.Ev("multi %d %d %d %v", ok, bad, mode, err != nil)
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	time.Sleep(8 * time.Second)
	for k := 0; k < calls; k++ {
		id := fmt.Sprint("v", k)
		evs := obs.get(id, middleware.ServerRole)
		mu.Lock()
		ex := execs[id]
		mu.Unlock()
		var got, want []string
		for _, e := range evs {
			c19info(c, e, svc, mMulti, true)
			got = append(got, fmt.Sprintf("%s %d %d rx=%d tx=%d", e.kind, e.ok, e.bad, e.rx, e.tx))
		}
		for _, x := range ex {
			if x.err {
				want = append(want, fmt.Sprintf("multi 0 1 rx=%d tx=0", x.in))
			} else {
				want = append(want, fmt.Sprintf("multi 1 0 rx=%d tx=%d", x.in, x.out))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Violate("server-report", "call %s was executed as %q and reported as %q", id, want, got)
		}
		c.Count("server_reports", len(got))
		if e := obs.get(id, middleware.ClientRole); len(e) > 1 {
			c.Violate("count", "call %s was reported %d times", id, len(e))
		}
	}
}

func c19streams(c *C) {
	r := c.Rand
	svc := c.SvcName()
	n := c.NewNet([]string{kLocal, kRedis, kNats}[r.Intn(3)])
	obs := &c19obs{evs: map[string][]c19ev{}}
	nst := 1 + r.Intn(3)
	size := []int{1, 2, 100}[r.Intn(3)]
	s := c.Server(n.Endpoint(), svc, "", middleware.WithServerMetrics(obs), psrpc.WithServerChannelSize(size))
	cl := c.Client(n.Endpoint(), svc, "", middleware.WithClientMetrics(obs), psrpc.WithClientChannelSize(max(size, 20)))
	type side struct {
		mu    sync.Mutex
		sends []c19ev
		recvs []int
		ran   bool
	}
	type spec struct {
		ender          string
		cs, ss         side
		nc, nsv        int
		slowC, slowS   time.Duration
		mutate, lonely bool
	}
	specs := map[string]*spec{}
	var fs []func()
	var open sync.WaitGroup
	for k := 0; k < nst; k++ {
		id := fmt.Sprint("v", k)
		x := &spec{ender: []string{"client", "server", "cancel", "client-error", "server-error", "shutdown", "clientclose", "many"}[r.Intn(8)], nc: r.Intn(6), nsv: r.Intn(6), mutate: r.Intn(2) == 0, lonely: r.Intn(8) == 0}
		if r.Intn(3) == 0 {
			x.slowS = time.Duration(100+r.Intn(1000)) * time.Millisecond
		}
		specs[id] = x
		rr := c.NewRand(40 + k)
		run := func(sd *side, send func(str, ...psrpc.StreamOption) error, k int) {
			for i := 0; i < k; i++ {
				m := S(strings.Repeat("m", c19size(c.LRand(1000+i))))
				to := 400 * time.Millisecond
				start := time.Now()
				err := send(m, psrpc.WithTimeout(to))
				sd.mu.Lock()
				sd.sends = append(sd.sends, c19ev{kind: "send", d: time.Since(start), err: err, bytes: proto.Size(m)})
				sd.mu.Unlock()
			}
		}
		consume := func(sd *side, ch <-chan str, slow time.Duration) {
			if slow > 0 {
				time.Sleep(slow)
			}
			for m := range ch {
				sd.mu.Lock()
				sd.recvs = append(sd.recvs, proto.Size(m))
				sd.mu.Unlock()
				if x.mutate {
					m.Value = "mutated by the reader, who owns it" // it is the reader's
				}
			}
		}
		end := make(chan struct{})
		if !x.lonely {
			must(server.RegisterStreamHandler(s, mStream, []string{id}, func(st psrpc.ServerStream[str, str]) error {
				x.ss.mu.Lock()
				x.ss.ran = true
				x.ss.mu.Unlock()
				done := make(chan struct{})
				go func() { defer close(done); consume(&x.ss, st.Channel(), x.slowS) }()
				run(&x.ss, st.Send, x.nsv)
				switch x.ender {
				case "server":
					<-end
					_ = st.Close(nil)
				case "server-error":
					<-end
					return psrpc.NewErrorf(psrpc.NotFound, "gone")
				case "shutdown":
					<-st.Context().Done()
				case "many":
					<-done
					for i := 0; i < 3; i++ {
						go func() { _ = st.Close(nil) }()
					}
				default:
					<-done
				}
				return nil
			}, nil))
		}
		open.Add(1)
		fs = append(fs, func() {
			once := sync.OnceFunc(open.Done)
			defer once()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			time.Sleep(time.Duration(rr.Intn(30)) * time.Millisecond)
			st, err := client.OpenStream[str, str](ctx, cl, mStream, []string{id}, psrpc.WithRequestTimeout(1500*time.Millisecond))
			if (err != nil) != x.lonely {
				c.Violate("open", "stream %s: %v", id, err)
			}
			if err != nil {
				close(end)
				return
			}
			x.cs.ran = true
			done := make(chan struct{})
			go func() { defer close(done); consume(&x.cs, st.Channel(), x.slowC) }()
			run(&x.cs, st.Send, x.nc)
			once()
			time.Sleep(time.Duration(rr.Intn(300)) * time.Millisecond)
			switch x.ender {
			case "client":
				_ = st.Close(nil)
			case "client-error":
				_ = st.Close(errors.New("enough"))
			case "many":
				for i := 0; i < 3; i++ {
					go func() { _ = st.Close(nil) }()
				}
				if rr.Intn(2) == 0 {
					go cancel()
				}
				time.Sleep(c.Slack())
			case "cancel":
				cancel()
			case "shutdown":
				open.Wait()
				s.Close(true)
			case "clientclose":
				open.Wait()
				cl.Close()
			}
			close(end)
			<-done
		})
	}
	c.Settle()
	c.Shape("n=%d size=%d", nst, size)
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "streams do not end\n%s", psrpcStacks())
		return
	}
	s.Close(true)
	cl.Close()
	time.Sleep(4 * time.Second)
	for id, x := range specs {
		for _, sd := range []*struct {
			*side
			role middleware.MetricRole
		}{{&x.cs, middleware.ClientRole}, {&x.ss, middleware.ServerRole}} {
			evs := obs.get(id, sd.role)
			sd.mu.Lock()
			defer sd.mu.Unlock()
			var opens, closes int
			var sends, recvs []string
			for i, e := range evs {
				c19info(c, e, svc, mStream, false)
				switch e.kind {
				case "open":
					if opens++; i != 0 {
						c.Violate("open-order", "stream %s was reported opened as event %d of %v", id, i, sd.role)
					}
				case "close":
					closes++
				case "send":
					sends = append(sends, fmt.Sprintf("%v %d", e.err, e.bytes))
					if k := len(sends) - 1; k < len(sd.sends) && (e.err != sd.sends[k].err || e.d > sd.sends[k].d || e.d < sd.sends[k].d-c.Slack()) {
						c.Violate("send-report", "stream %s: a send by the %v ended with %v after %v and was reported as %s", id, sd.role, sd.sends[k].err, sd.sends[k].d, e)
					}
				case "recv":
					if e.err == nil {
						recvs = append(recvs, fmt.Sprint(e.bytes))
					} else if !errors.Is(e.err, psrpc.ErrSlowConsumer) {
						c.Violate("recv-report", "stream %s: %s", id, e)
					}
				default:
					c.Violate("report", "stream %s was reported as %s", id, e)
				}
			}
			wantOpen := 0
			if sd.ran || sd.role == middleware.ClientRole {
				wantOpen = 1
			}
			// the server may have taken a stream whose handler did not start
			if opens != closes || opens > 1 || opens < wantOpen {
				c.Violate("open-close", "stream %s (ended by %s) was reported opened %d times and closed %d times by the %v", id, x.ender, opens, closes, sd.role)
			}
			var ws, wr []string
			for _, e := range sd.sends {
				ws = append(ws, fmt.Sprintf("%v %d", e.err, e.bytes))
			}
			for _, b := range sd.recvs {
				wr = append(wr, fmt.Sprint(b))
			}
			if strings.Join(ws, ",") != strings.Join(sends, ",") {
				c.Violate("sends", "stream %s: the %v sent %v and reported %v", id, sd.role, ws, sends)
			}
			if strings.Join(wr, ",") != strings.Join(recvs, ",") {
				c.Violate("recvs", "stream %s (ended by %s): the %v received %v and reported %v", id, x.ender, sd.role, wr, recvs)
			}
			c.Count("stream_reports", len(evs))
		}
		c.Ev("stream %s %d %d %d", x.ender, x.nc, x.nsv, size)
	}
}
