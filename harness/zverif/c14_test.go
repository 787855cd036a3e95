package zverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// C14: graceful shutdown finishes accepted work; kill does not wait.

func init() {
	reg("C14", "graceful", 500, 5000, c14graceful)
	reg("C14", "kill", 300, 3000, c14kill)
	reg("C14", "streams", 200, 2000, c14streams)
	reg("C14", "claiming", 150, 1500, c14claiming)
}

type c14exec struct {
	val        string
	start, end time.Time
}

type c14log struct {
	mu      sync.Mutex
	running int
	ex      []*c14exec
}

func (l *c14log) begin(v string) *c14exec {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := &c14exec{val: v, start: time.Now()}
	l.ex = append(l.ex, e)
	l.running++
	return e
}

func (l *c14log) finish(e *c14exec) {
	l.mu.Lock()
	defer l.mu.Unlock()
	e.end = time.Now()
	l.running--
}

func (l *c14log) state() (running, started int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.running, len(l.ex)
}

var c14methods = []string{mNormal, mQueueNC, mSingle, mMulti, mAff}

type c14call struct {
	val       string
	deadline  time.Time
	res       string
	err       error
	returned  time.Time
	multi     []string
	issued    time.Time
	cancelled bool
}

// c14load issues calls until stop is closed.
func c14load(c *C, cl *client.RPCClient, method string, k int, stop chan struct{}, out func(c14call), timeout time.Duration) {
	r := c.NewRand(500 + k)
	var wg sync.WaitGroup
	for i := 0; ; i++ {
		select {
		case <-stop:
			wg.Wait()
			return
		default:
		}
		val := fmt.Sprintf("c%d.%d", k, i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := c14call{val: val, issued: time.Now()}
			x.deadline = x.issued.Add(timeout)
			if method == mMulti {
				ch, err := callMulti(context.Background(), cl, method, nil, val, psrpc.WithRequestTimeout(timeout))
				x.err = err
				if err == nil {
					for m := range ch {
						if m.Err == nil {
							x.multi = append(x.multi, m.Result.Value)
						}
					}
				}
			} else {
				x.res, x.err = call(context.Background(), cl, method, nil, val, psrpc.WithRequestTimeout(timeout))
			}
			x.returned = time.Now()
			c.Ev("ret %s %s", val, code(x.err))
			out(x)
		}()
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
}

func c14graceful(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	method := c14methods[r.Intn(len(c14methods))]
	ns := 1 + r.Intn(2)
	if method == mSingle {
		ns = 1
	}
	nclosers := 1 + r.Intn(3)
	maxDur := []int{1, 30, 400}[r.Intn(3)]
	chSize := []int{1, 2, 100}[r.Intn(3)]
	c.Shape("m=%s ns=%d closers=%d dur=%d ch=%d mode=%d", method, ns, nclosers, maxDur, chSize, c.idx%4)
	log := &c14log{}
	finished := newTally()
	s0 := c.Server(n.Endpoint(), svc, "s0", psrpc.WithServerChannelSize(chSize))
	hr := c.NewRand(9)
	var hmu sync.Mutex
	regAll := func(s *server.RPCServer, id string, l *c14log) {
		h := func(ctx context.Context, req str) (str, error) {
			if l != nil {
				e := l.begin(req.Value)
				defer l.finish(e)
			}
			c.Ev("exec %s %s", id, req.Value)
			hmu.Lock()
			d := time.Duration(hr.Intn(maxDur)) * time.Millisecond
			hmu.Unlock()
			time.Sleep(d)
			finished.add(id + " " + req.Value)
			return S(id + " " + req.Value), nil
		}
		must(server.RegisterHandler(s, method, nil, h, nil))
		if r.Intn(2) == 0 && method != mNormal {
			must(server.RegisterHandler(s, mNormal, []string{"unused"}, h, nil))
		}
	}
	regAll(s0, "s0", log)
	if ns > 1 {
		s1 := c.Server(n.Endpoint(), svc, "s1")
		regAll(s1, "s1", nil)
	}
	const timeout = 3 * time.Second
	var mu sync.Mutex
	var calls []c14call
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var cls []*client.RPCClient
	for k := 0; k < 2; k++ {
		cls = append(cls, c.Client(n.Endpoint(), svc, ""))
	}
	c.Settle()
	for k, cl := range cls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c14load(c, cl, method, k, stop, func(x c14call) { mu.Lock(); calls = append(calls, x); mu.Unlock() }, timeout)
		}()
	}
	time.Sleep(time.Duration(20+r.Intn(200)) * time.Millisecond)
	closeStart := time.Now()
	c.Ev("closing")
	var fs []func()
	var earliest atomic.Int64
	for i := 0; i < nclosers; i++ {
		d := time.Duration(r.Intn(20)) * time.Millisecond
		fs = append(fs, func() {
			time.Sleep(d)
			s0.Close(false)
			running, started := log.state()
			c.Ev("closed %d", running)
			if running != 0 {
				c.Violate("closed-while-running", "Close(false) returned while %d handlers were running", running)
			}
			for {
				e := earliest.Load()
				if e != 0 && e <= int64(started)+1 {
					break
				}
				if earliest.CompareAndSwap(e, int64(started)+1) {
					break
				}
			}
		})
	}
	// every handler ends within maxDur, an unclaimed request within its timeout
	if !c.Par(timeout+time.Duration(maxDur)*time.Millisecond+c.Slack()+time.Second, fs...) {
		c.Violate("shutdown-hangs", "Close(false) did not return although all handlers had time to end\n%s", psrpcStacks())
		close(stop)
		return
	}
	closedAt := time.Now()
	time.Sleep(300 * time.Millisecond)
	close(stop)
	wg.Wait()
	time.Sleep(2 * time.Second)
	_, started := log.state()
	if s := int(earliest.Load()) - 1; started > s {
		log.mu.Lock()
		for _, e := range log.ex[s:] {
			c.Violate("started-after-close", "handler for %s started %v after the shutdown began, and after Close(false) had returned", e.val, e.start.Sub(closeStart))
			break
		}
		log.mu.Unlock()
	}
	// a response was delivered for every execution that ended in time
	got := map[string]c14call{}
	for _, x := range calls {
		got[x.val] = x
	}
	delivered, during := 0, 0
	for _, e := range log.ex {
		x := got[e.val]
		if e.end.After(x.deadline.Add(-c.Slack() - 100*time.Millisecond)) {
			continue
		}
		if !e.end.Before(closeStart) {
			during++
		}
		want := "s0 " + e.val
		ok := x.res == want
		for _, m := range x.multi {
			ok = ok || m == want
		}
		if !ok {
			c.Violate("response-lost", "the handler for %s ended %v before the call's deadline (shutdown began %v before it ended), but the caller got %q, %v", e.val, x.deadline.Sub(e.end), e.end.Sub(closeStart), x.res, x.err)
		} else {
			delivered++
		}
	}
	c.Count("responses_checked", delivered)
	c.Count("ended_during_shutdown", during)
	if during == 0 {
		c.Trivial()
	}
	_ = closedAt
	for _, cl := range cls {
		cl.Close()
	}
	time.Sleep(10 * time.Second)
	if ns == 1 {
		c.LeakCheck(base, "leak")
	}
}

// c14kill: Close(true) returns at once, also during a graceful shutdown, which then ends too.
func c14kill(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	method := c14methods[r.Intn(len(c14methods))]
	s := c.Server(n.Endpoint(), svc, "s0", psrpc.WithServerChannelSize([]int{1, 2, 100}[r.Intn(3)]))
	cl := c.Client(n.Endpoint(), svc, "")
	release := make(chan struct{})
	var started atomic.Int32
	h := func(ctx context.Context, req str) (str, error) {
		c.Ev("exec %s", req.Value)
		started.Add(1)
		<-release
		return S("r"), nil
	}
	must(server.RegisterHandler(s, method, nil, h, nil))
	c.Settle()
	k := 1 + r.Intn(6)
	how := r.Intn(4)
	c.Shape("m=%s k=%d how=%d", method, k, how)
	for i := 0; i < k; i++ {
		go func() {
			if method == mMulti {
				ch, err := callMulti(context.Background(), cl, method, nil, fmt.Sprint(i))
				if err == nil {
					for range ch {
					}
				}
				return
			}
			call(context.Background(), cl, method, nil, fmt.Sprint(i))
		}()
	}
	time.Sleep(c.Slack() + 300*time.Millisecond)
	if started.Load() == 0 {
		c.Trivial()
	}
	graceful := make(chan struct{})
	if how > 0 {
		go func() { s.Close(false); close(graceful) }()
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		if how == 2 {
			// deregistering while a graceful shutdown waits does not wait either
			if !c.Within(c.Slack()+time.Second, func() { s.DeregisterHandler(method, nil) }) {
				c.Violate("deregister-waits", "DeregisterHandler waited for handlers\n%s", psrpcStacks())
			}
		}
	}
	if started.Load() > 0 && how != 2 && how > 0 {
		select {
		case <-graceful:
			c.Violate("graceful-did-not-wait", "Close(false) returned while %d handlers were running", started.Load())
		default:
		}
	}
	var fs []func()
	for i := 0; i < 1+r.Intn(3); i++ {
		fs = append(fs, func() { s.Close(true); c.Ev("killed") })
	}
	if !c.Par(c.Slack()+time.Second, fs...) {
		c.Violate("kill-waits", "Close(true) did not return while handlers were running (graceful shutdown in progress: %v)\n%s", how > 0, psrpcStacks())
	}
	before := started.Load()
	time.Sleep(5 * time.Second)
	c.Count("handlers_running_at_kill", int(before))
	close(release)
	if how > 0 && !c.Within(c.Slack()+5*time.Second, func() { <-graceful }) {
		c.Violate("shutdown-hangs", "Close(false) did not return after the handlers had ended\n%s", psrpcStacks())
	}
	if !c.Within(c.Slack()+time.Second, func() { s.Close(true); s.Close(false); s.Close(false) }) {
		c.Violate("repeated-close", "closing again did not return\n%s", psrpcStacks())
	}
	cl.Close()
	time.Sleep(10 * time.Second)
	c.LeakCheck(base, "leak")
}

// c14claiming: requests wait for a claim while the server shuts down.
func c14claiming(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	base := c.LeakBase()
	log := &c14log{}
	s := c.Server(n.Endpoint(), svc, "s0")
	h := func(ctx context.Context, req str) (str, error) {
		e := log.begin(req.Value)
		defer log.finish(e)
		time.Sleep(50 * time.Millisecond)
		return S("R" + req.Value), nil
	}
	must(server.RegisterHandler(s, mAff, nil, h, func(context.Context, str) float32 { return 0.5 }))
	cl := c.Client(n.Endpoint(), svc, "")
	c.Settle()
	var wg sync.WaitGroup
	okc := atomic.Int32{}
	k := 1 + r.Intn(5)
	aff := time.Duration(500+r.Intn(1000)) * time.Millisecond
	c.Shape("k=%d aff=%v", k, aff)
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v, err := call(context.Background(), cl, mAff, nil, fmt.Sprint(i), psrpc.WithRequestTimeout(6*time.Second),
				psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: aff}))
			c.Ev("ret %s %v", v, err)
			if err == nil && v == fmt.Sprint("R", i) {
				okc.Add(1)
			} else if err != nil && aff > 450*time.Millisecond+c.Slack() {
				// the claim was with the client before the shutdown began, and was accepted during it
				c.Violate("accepted-work-dropped", "a request claimed before the shutdown began failed with %v", err)
			}
		}()
	}
	time.Sleep(c.Slack() / 2)
	t0 := time.Now()
	if !c.Within(8*time.Second+c.Slack(), func() { s.Close(false) }) {
		c.Violate("shutdown-hangs", "Close(false) did not return\n%s", psrpcStacks())
	}
	if run, _ := log.state(); run != 0 {
		c.Violate("closed-while-running", "Close(false) returned while %d handlers were running", run)
	}
	c.Ev("closed")
	_, st := log.state()
	wg.Wait()
	c.Count("claimed_during_shutdown", int(okc.Load()))
	time.Sleep(7 * time.Second)
	if _, st2 := log.state(); st2 > st {
		c.Violate("started-after-close", "%d handlers started after Close(false) returned", st2-st)
	}
	_ = t0
	cl.Close()
	time.Sleep(5 * time.Second)
	c.LeakCheck(base, "leak")
}

// c14streams: shutting down ends the streams of the server on both sides.
func c14streams(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	base := c.LeakBase()
	method := []string{mStream, mStreamNC, mStreamAff}[r.Intn(3)]
	s := c.Server(n.Endpoint(), svc, "s0")
	cl := c.Client(n.Endpoint(), svc, "")
	hijack := c.LRand(31).Intn(3)
	var nstream atomic.Int32
	var running atomic.Int32
	var mu sync.Mutex
	var served []psrpc.ServerStream[str, str]
	must(server.RegisterStreamHandler(s, method, nil, func(st psrpc.ServerStream[str, str]) error {
		running.Add(1)
		mu.Lock()
		served = append(served, st)
		mu.Unlock()
		serve := func() error {
			defer running.Add(-1)
			c.Ev("open")
			for range st.Channel() {
			}
			if st.Context().Err() == nil {
				c.Violate("stream-left-open", "the receive channel of a stream is closed, its context is not")
			}
			c.Ev("ended %v", st.Err())
			return nil
		}
		if hijack > 0 && (hijack == 2 || nstream.Add(1)%2 == 0) {
			// the stream outlives its handler, not its server
			st.Hijack()
			go serve()
			c.Count("hijacked", 1)
			return nil
		}
		return serve()
	}, nil))
	c.Settle()
	k := 1 + r.Intn(4)
	force := r.Intn(2) == 0
	var open []psrpc.ClientStream[str, str]
	var wg sync.WaitGroup
	stop := make(chan struct{})
	c.Shape("m=%s k=%d force=%v", method, k, force)
	for i := 0; i < k; i++ {
		rr := c.NewRand(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				st, err := client.OpenStream[str, str](context.Background(), cl, method, nil, psrpc.WithRequestTimeout(2*time.Second))
				c.Ev("opened %v", err)
				if err != nil {
					continue
				}
				mu.Lock()
				open = append(open, st)
				mu.Unlock()
				for j := 0; j < rr.Intn(4); j++ {
					st.Send(S("x"))
				}
				time.Sleep(time.Duration(rr.Intn(100)) * time.Millisecond)
			}
		}()
	}
	time.Sleep(time.Duration(20+r.Intn(300)) * time.Millisecond)
	if !c.Within(10*time.Second, func() { s.Close(force) }) {
		c.Violate("shutdown-hangs", "Close(%v) did not return\n%s", force, psrpcStacks())
		return
	}
	closed := time.Now()
	c.Ev("closed")
	mu.Lock()
	for _, st := range served {
		if !force && st.Context().Err() == nil {
			c.Violate("stream-not-ended", "the server's Close(%v) returned, a stream it served has not ended", force)
			break
		}
	}
	served = nil
	mu.Unlock()
	time.Sleep(100 * time.Millisecond)
	close(stop)
	if !c.Within(10*time.Second+c.Slack(), wg.Wait) {
		c.Violate("open-hangs", "OpenStream did not return\n%s", psrpcStacks())
		return
	}
	time.Sleep(5*time.Second + c.Slack())
	if x := running.Load(); x != 0 {
		c.Violate("stream-handler-left", "%d stream handlers are still running %v after the server was closed", x, time.Since(closed))
	}
	for _, st := range open {
		select {
		case <-st.Context().Done():
			if e := st.Err(); e == nil || code(e) != psrpc.ErrStreamEOF.Code() || !strings.Contains(e.Error(), psrpc.ErrStreamEOF.Error()) {
				c.Violate("stream-close-cause", "a stream ended by the server's shutdown reports %v", e)
			}
		default:
			c.Violate("stream-left-open", "a client stream is still open %v after its server was closed", time.Since(closed))
		}
	}
	c.Count("streams_open_at_shutdown", len(open))
	if len(open) == 0 {
		c.Trivial()
	}
	cl.Close()
	time.Sleep(15 * time.Second)
	c.LeakCheck(base, "leak")
}
