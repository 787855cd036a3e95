package zverif

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C09: opening a stream connects to exactly one server or leaves nothing behind.

func init() {
	reg("C09", "open", 900, 9000, c09open)
	reg("C09", "refuse", 200, 2000, c09refuse)
}

func c09open(c *C) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	base := c.LeakBase()
	svc := c.SvcName()
	method := []string{mStream, mStream, mStreamNC, mStreamAff, mStreamAff}[r.Intn(5)]
	nsrv := 1 + r.Intn(3)
	if method == mStreamNC {
		nsrv = 1
	}
	faults := r.Intn(3) > 0
	shutdown := r.Intn(3) // 0: none, 1: some servers during the opens, 2: the client
	if shutdown == 2 && r.Intn(2) == 0 {
		shutdown = 0
	}
	lag := []int{0, 0, 20, 400}[r.Intn(4)]
	opens := 1 + r.Intn(5)
	csize, ssize := []int{1, 2, 100}[r.Intn(3)], []int{1, 2, 100}[r.Intn(3)]
	c.Shape("m=%s srv=%d faults=%v shutdown=%d lag=%d opens=%d cs=%d ss=%d mode=%d", method, nsrv, faults, shutdown, lag, opens, csize, ssize, c.idx%4)

	rec := newStrec(c)
	fr := c.LRand(77)
	var omu sync.Mutex
	openReq := map[string]bool{} // request ids of opens
	openExp := map[string]time.Time{}
	brink := r.Intn(2) == 0 // messages arrive when the open is about to be given up
	pubFault := func(m tapMsg) (int, error) {
		if lag > 0 {
			time.Sleep(fr.Ms(lag))
		}
		phase := ""
		switch x := m.Msg.(type) {
		case *internal.ClaimRequest:
			phase = "claim"
		case *internal.ClaimResponse:
			phase = "claimresponse"
		case *internal.Stream:
			omu.Lock()
			if x.GetOpen() != nil {
				phase = "open"
				openReq[x.RequestId] = true
				openExp[x.RequestId] = time.Unix(0, x.Expiry)
			} else if x.GetAck() != nil && openReq[x.RequestId] {
				phase = "ack"
			}
			omu.Unlock()
		}
		if brink && (phase == "open" || phase == "claimresponse") && fr.Intn(3) > 0 {
			id := ""
			switch x := m.Msg.(type) {
			case *internal.ClaimResponse:
				id = x.RequestId
			case *internal.Stream:
				id = x.RequestId
			}
			omu.Lock()
			at := openExp[id]
			omu.Unlock()
			time.Sleep(time.Until(at) - time.Duration(fr.Intn(1+[]int{20, 100, 500, 3000, 25000}[fr.Intn(5)]))*time.Microsecond)
			c.Count("brink", 1)
			return 1, nil
		}
		if phase == "" || !faults {
			return 1, nil
		}
		switch k := fr.Intn(100); {
		case k < 12:
			c.Ev("drop %s", phase)
			return 0, nil
		case k < 18:
			d := fr.Ms(3000)
			c.Ev("delay %s %v", phase, d)
			time.Sleep(d)
		case k < 22 && phase == "claimresponse":
			c.Ev("dup %s", phase)
			return 2 + fr.Intn(2), nil
		case k < 25:
			c.Ev("fail %s", phase)
			return 0, errInjected
		case k < 29 && phase != "ack": // or the client has a stream which the server gave up
			c.Ev("failafter %s", phase)
			c.Count("failed_after_delivery", 1)
			return 1, errInjected
		}
		return 1, nil
	}
	type srvState struct {
		s        *server.RPCServer
		closedAt time.Time
	}
	var srvs []*srvState
	var running atomic.Int32
	for i := 0; i < nsrv; i++ {
		id := fmt.Sprintf("s%d", i)
		st := &srvState{s: c.Server(tap(n.Endpoint(), id, pubFault), svc, id, psrpc.WithServerChannelSize(ssize))}
		srvs = append(srvs, st)
		affv := []float32{1, 1, 0.5, 0.5, 0.1, -1}[r.Intn(6)]
		var aff server.StreamAffinityFunc
		if method == mStreamAff {
			aff = func(context.Context) float32 { return affv }
		}
		must(rec.register(st.s, id, method, nil, func(x *stSide) error {
			running.Add(1)
			defer running.Add(-1)
			omu.Lock()
			late := !st.closedAt.IsZero()
			omu.Unlock()
			if late && x.ms.Context().Err() == nil {
				c.Violate("accepted-after-close", "server %s started a stream handler after it was closed", id)
			}
			if affv < 0 && method == mStreamAff {
				c.Violate("negative-affinity", "a server with negative affinity got a stream")
			}
			h := metadata.IncomingHeader(x.ms.Context())
			if h == nil || !strings.HasPrefix(h.RemoteID, "cl-") || h.Metadata["k"] != "v "+x.id {
				c.Violate("metadata", "the stream handler of %s sees the header %+v", x.id, h)
			}
			for m := range x.ms.Channel() {
				rec.mu.Lock()
				x.got = append(x.got, m.Value)
				rec.mu.Unlock()
				if err := x.ms.Send(S("echo "+m.Value), psrpc.WithTimeout(3*time.Second)); err != nil {
					c.Ev("echofail %v", err)
				}
			}
			rec.mu.Lock()
			x.ended = time.Now()
			rec.mu.Unlock()
			return nil
		}, aff))
	}
	cl := c.Client(tap(n.Endpoint(), "c", pubFault), svc, "cl-"+svc, psrpc.WithClientChannelSize(csize))
	c.Settle()
	before, gbase := stateSize(cl), c.LeakBase()
	var sbefore []map[string]int
	for _, st := range srvs {
		sbefore = append(sbefore, stateSize(st.s))
	}

	type result struct {
		label      string
		x          *stSide
		err        error
		start, end time.Time
		limit      time.Time
		cancelled  bool
	}
	var res []*result
	var rmu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < opens; i++ {
		label := fmt.Sprintf("L%d", i)
		or := c.LRand(300 + i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(or.Ms(60))
			to := []time.Duration{50 * time.Millisecond, 400 * time.Millisecond, 1500 * time.Millisecond, 4 * time.Second}[or.Intn(4)]
			ctx, cancel := context.WithCancel(metadata.AppendMetadataToOutgoingContext(context.Background(), "k", "v "+label))
			defer cancel()
			q := &result{label: label, start: time.Now()}
			q.limit = q.start.Add(to)
			var how = or.Intn(4)
			var dcancel context.CancelFunc = func() {}
			keep := context.WithoutCancel(ctx)
			octx := ctx
			switch how {
			case 0:
				at := or.Ms(500)
				time.AfterFunc(at, func() { c.Ev("cancel %s", label); cancel() })
				if l := q.start.Add(at); l.Before(q.limit) {
					q.limit = l
				}
				q.cancelled = true
			case 1:
				at := time.Duration(1+or.Intn(1000)) * time.Millisecond
				octx, dcancel = context.WithDeadline(ctx, q.start.Add(at))
				if l := q.start.Add(at); l.Before(q.limit) {
					q.limit = l
				}
			default:
				octx = keep
			}
			c.Cleanup(dcancel)
			opts := []psrpc.RequestOption{psrpc.WithRequestTimeout(to)}
			if method == mStreamAff && or.Intn(2) == 0 {
				opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: []time.Duration{100, 800}[or.Intn(2)] * time.Millisecond, ShortCircuitTimeout: 50 * time.Millisecond}))
			}
			x, err := rec.open(octx, cl, method, nil, label, opts...)
			q.x, q.err, q.end = x, err, time.Now()
			rmu.Lock()
			res = append(res, q)
			rmu.Unlock()
			if (x == nil) == (err == nil) {
				c.Violate("open-result", "OpenStream returned %v, %v", x, err)
			}
			if x == nil {
				return
			}
			// the stream works both ways, unless something ends it
			err = x.ms.Send(S("hello "+label), psrpc.WithTimeout(3*time.Second))
			var got string
			t := time.NewTimer(5 * time.Second)
			select {
			case m := <-x.ms.Channel():
				got = m.GetValue()
			case <-t.C:
			}
			t.Stop()
			if how > 1 && shutdown == 0 {
				if err != nil || got != "echo hello "+label {
					c.Violate("dead-stream", "an open succeeded, but sending on the stream returned %v and %q was received", err, got)
				}
				c.Count("round_trips", 1)
			}
			x.ms.Close(nil)
		}()
	}
	if shutdown == 1 {
		for i, st := range srvs {
			if i > 0 && r.Intn(2) == 0 {
				continue
			}
			at := time.Duration(r.Intn(200)) * time.Millisecond
			force := r.Intn(2) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(at)
				st.s.Close(force)
				omu.Lock()
				st.closedAt = time.Now()
				omu.Unlock()
				c.Ev("serverclosed %d", i)
			}()
		}
	}
	if shutdown == 2 {
		at := time.Duration(r.Intn(200)) * time.Millisecond
		wg.Add(1)
		go func() { defer wg.Done(); time.Sleep(at); cl.Close(); c.Ev("clientclosed") }()
	}
	if !c.Within(60*time.Second, wg.Wait) {
		c.Violate("open-hangs", "opens or closes did not return\n%s", psrpcStacks())
		return
	}
	wait := c.Slack() + 4*time.Second + 6*time.Duration(lag)*time.Millisecond
	time.Sleep(wait)
	okN := 0
	rec.mu.Lock()
	for _, q := range res {
		hs := rec.s1[q.label]
		if q.err == nil {
			okN++
			if len(hs) == 0 && shutdown == 0 {
				c.Violate("no-handler", "the open of %s succeeded but no handler was started", q.label)
			}
		} else {
			c.Count("failed_opens", 1)
			if len(hs) > 0 {
				c.Count("failed_opens_with_handler", 1)
			}
			slack := c.Slack() + time.Duration(10*lag)*time.Millisecond
			if faults {
				slack += 3 * 3100 * time.Millisecond
			}
			if brink {
				slack += 4 * time.Second
			}
			if q.end.After(q.limit.Add(slack)) {
				c.Violate("open-late", "a failed open of %s returned %v after its deadline or cancellation", q.label, q.end.Sub(q.limit))
			}
		}
		if len(hs) > 1 {
			c.Violate("handler-twice", "stream %s was served by %d handlers (%s and %s)", q.label, len(hs), hs[0].server, hs[1].server)
		}
		for _, h := range hs {
			select {
			case <-h.ms.Context().Done():
				if h.ended.IsZero() {
					c.Violate("channel-open", "the receive channel of a handler whose stream has ended is not closed")
				}
			default:
				c.Violate("handler-left", "a handler of stream %s (open returned %v) on %s is still open %v later\n%s", q.label, q.err, h.server, time.Since(q.end), psrpcStacks())
			}
		}
	}
	rec.mu.Unlock()
	c.Count("opens_ok", okN)
	if x := running.Load(); x != 0 && !c.Violated() {
		c.Violate("handler-left", "%d handlers are still running", x)
	}
	if c.Violated() {
		return
	}
	time.Sleep(10 * time.Second)
	rec.release()
	for _, q := range res {
		q.x = nil
	}
	rec.checkState("state-kept")
	if g := stateGrowth(before, stateSize(cl)); g != "" {
		c.Violate("state-kept", "the client still holds something of streams that failed to open or have ended: %s", g)
	}
	for i, st := range srvs {
		if g := stateGrowth(sbefore[i], stateSize(st.s)); g != "" {
			c.Violate("state-kept", "server %d still holds something of streams that have ended: %s", i, g)
		}
	}
	c.LeakCheck(gbase, "leak")
	cl.Close()
	for _, s := range srvs {
		s.s.Close(true)
	}
	time.Sleep(8 * time.Second)
	c.LeakCheck(base, "leak")
}

// c09refuse: a closed client opens nothing; a closed or closing server accepts nothing.
func c09refuse(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	method := []string{mStream, mStreamNC, mStreamAff}[r.Intn(3)]
	what := r.Intn(3)
	c.Shape("m=%s what=%d", method, what)
	rec := newStrec(c)
	srv := c.Server(n.Endpoint(), svc, "s0")
	var started atomic.Int32
	hold := make(chan struct{})
	must(rec.register(srv, "s0", method, nil, func(x *stSide) error {
		started.Add(1)
		for range x.ms.Channel() {
		}
		<-hold
		return nil
	}, nil))
	var pubs atomic.Int32
	var armed atomic.Bool
	cl := c.Client(tap(n.Endpoint(), "c", func(m tapMsg) (int, error) {
		if armed.Load() {
			pubs.Add(1)
		}
		return 1, nil
	}), svc, "")
	c.Settle()
	if what == 0 {
		pre := r.Intn(2) == 0
		if pre {
			if _, err := rec.open(context.Background(), cl, method, nil, "P"); err != nil {
				c.Violate("open-failed", "%v", err)
			}
		}
		cl.Close()
		if r.Intn(2) == 0 {
			cl.Close()
		}
		time.Sleep(c.Slack())
		if pre {
			time.Sleep(2 * time.Second)
		}
		armed.Store(true)
		s0 := started.Load()
		t := time.Now()
		st, err := client.OpenStream[str, str](context.Background(), cl, method, nil, psrpc.WithRequestTimeout(2*time.Second))
		if st != nil || !errors.Is(err, psrpc.ErrClientClosed) {
			c.Violate("closed-client-opens", "OpenStream on a closed client returned %v, %v after %v", st != nil, err, time.Since(t))
		}
		time.Sleep(3 * time.Second)
		if pubs.Load() != 0 || started.Load() != s0 {
			c.Violate("closed-client-sends", "OpenStream on a closed client published %d messages and started %d handlers", pubs.Load(), started.Load()-s0)
		}
		c.Ev("refused client")
	} else {
		// a stream whose handler does not return keeps nothing from closing
		if what == 2 {
			if _, err := rec.open(context.Background(), cl, method, nil, "P"); err != nil {
				c.Violate("open-failed", "%v", err)
			}
		}
		time.Sleep(c.Slack() + time.Second)
		s0 := started.Load()
		if !c.Within(c.Slack()+10*time.Second, func() { srv.Close(r.Intn(2) == 0) }) {
			c.Violate("shutdown-hangs", "closing a server with streams did not return\n%s", psrpcStacks())
		}
		t := time.Now()
		st, err := client.OpenStream[str, str](context.Background(), cl, method, nil, psrpc.WithRequestTimeout(2*time.Second))
		if st != nil || err == nil {
			c.Violate("closed-server-accepts", "OpenStream succeeded with only a closed server")
		}
		if d := time.Since(t); d > 2*time.Second+c.Slack() {
			c.Violate("open-late", "OpenStream with a 2s timeout took %v", d)
		}
		if started.Load() != s0 {
			c.Violate("closed-server-accepts", "a closed server started a stream handler")
		}
		c.Ev("refused server")
	}
	close(hold)
}
