package zverif

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// C08: closing a stream ends it on both sides, once, with the cause.

func init() {
	reg("C08", "single", 600, 6000, func(c *C) { c08run(c, 1) })
	reg("C08", "race", 500, 5000, func(c *C) { c08run(c, 2+c.Rand.Intn(3)) })
}

var c08causes = []error{
	nil,
	psrpc.ErrStreamEOF,
	psrpc.NewErrorf(psrpc.NotFound, "gone"),
	psrpc.NewErrorf(psrpc.ErrorCode("odd_code"), "odd %d", 7),
	errors.New("plain"),
	fmt.Errorf("wrapping: %w", errors.New("inner")),
	psrpc.NewError(psrpc.Aborted, errors.New("stopped ünïcode")),
	context.DeadlineExceeded,
	fmt.Errorf("wrapping: %w", psrpc.NewErrorf(psrpc.ResourceExhausted, "full")),
	fmt.Errorf("twice: %w", fmt.Errorf("wrapping: %w", psrpc.ErrStreamEOF)),
	psrpc.NewError(psrpc.Internal, fmt.Errorf("multi\nline %s", strings.Repeat("long ", 200))),
}

type c08closer struct {
	name  string
	at    time.Duration
	cause error // expected at both ends
}

func c08run(c *C, nclosers int) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	base := c.LeakBase()
	svc := c.SvcName()
	method := []string{mStream, mStreamNC, mStreamAff}[r.Intn(3)]
	csize, ssize := []int{1, 2, 100}[r.Intn(3)], []int{1, 2, 100}[r.Intn(3)]
	senders, msgs := r.Intn(3), 1+r.Intn(8)
	sto := []time.Duration{300 * time.Millisecond, 2 * time.Second}[r.Intn(2)]
	readers := r.Intn(3) // 0 both read at once, 1 pauses, 2 reading starts only after the end
	hijack := r.Intn(4) == 0
	nstreams := 1 + r.Intn(3)
	rec := newStrec(c)
	var late time.Duration // how long a close takes to arrive: it ends the stream however late it is
	if r.Intn(4) == 0 {
		late = []time.Duration{500 * time.Millisecond, 3 * time.Second, 3100 * time.Millisecond, 8 * time.Second}[r.Intn(4)]
	}
	lateBus := func(who string) psrpc.MessageBus {
		if late == 0 {
			return n.Endpoint()
		}
		return lagBus(n.Endpoint(), who, func(m tapMsg) time.Duration {
			if is, ok := m.Msg.(*internal.Stream); ok && is.GetClose() != nil {
				return late
			}
			return 0
		})
	}

	var closers []c08closer
	names := []string{"client", "server", "return", "ctx", "deadline", "clientclose", "serverclose", "serverkill", "deregister"}
	for len(closers) < nclosers {
		k := c08closer{name: names[r.Intn(len(names))], at: c08at(r.Intn(100))}
		if k.name == "return" && hijack {
			continue
		}
		k.cause = c08causes[r.Intn(len(c08causes))]
		switch k.name {
		case "ctx":
			k.cause = context.Canceled
		case "deadline":
			k.cause = context.DeadlineExceeded
			if k.at < 5*time.Millisecond {
				k.at = 5 * time.Millisecond
			}
		case "clientclose":
			k.cause = nil
		case "serverclose", "serverkill", "deregister":
			k.cause = psrpc.ErrStreamEOF
		}
		closers = append(closers, k)
	}
	c.Shape("m=%s late=%v cs=%d ss=%d send=%dx%d to=%v readers=%d hijack=%v n=%d mode=%d", method, late, csize, ssize, senders, msgs, sto, readers, hijack, nstreams, c.idx%4)
	for _, k := range closers {
		c.Shape("%s@%v", k.name, k.at)
	}
	expected := func(k c08closer) error {
		if k.cause == nil {
			return psrpc.ErrStreamClosed
		}
		return k.cause
	}

	srv := c.Server(lateBus("s"), svc, "s0", psrpc.WithServerChannelSize(ssize))
	cl := c.Client(lateBus("c"), svc, "", psrpc.WithClientChannelSize(csize))
	pause := func(seed int) func() time.Duration {
		switch readers {
		case 1:
			rr := c.LRand(seed)
			return func() time.Duration { return rr.Ms(60) }
		case 2:
			first := true
			return func() time.Duration {
				if first {
					first = false
					return 3*time.Second + 4*sto
				}
				return 0
			}
		}
		return nil
	}
	var readersWG, trafficWG sync.WaitGroup
	traffic := func(x *stSide) {
		for s := 0; s < senders; s++ {
			trafficWG.Add(1)
			go func() {
				defer trafficWG.Done()
				for k := 0; k < msgs; k++ {
					m := rec.send(x, s, k, 0, psrpc.WithTimeout(sto))
					if m.end.Sub(m.start) > sto+2*c.Slack() && kind != kLocal {
						c.Violate("send-late", "a send with timeout %v took %v", sto, m.end.Sub(m.start))
					}
					time.Sleep(10 * time.Millisecond)
				}
			}()
		}
	}
	returnWith := make(chan error, 8*nstreams)
	handlers := make(chan *stSide, 4*nstreams)
	must(rec.register(srv, "s0", method, nil, func(x *stSide) error {
		readersWG.Add(1)
		rdone := make(chan struct{})
		go func() { defer readersWG.Done(); defer close(rdone); rec.read(x, pause(31)) }()
		traffic(x)
		handlers <- x
		if hijack {
			x.ms.Hijack()
			return nil
		}
		select {
		case err := <-returnWith:
			return err
		case <-x.ms.Context().Done():
			<-rdone
			return nil
		}
	}, nil))
	c.Settle()

	type pair struct {
		cs, ss *stSide
		cancel context.CancelFunc
	}
	var pairs []*pair
	var deadline time.Duration
	for _, k := range closers {
		if k.name == "deadline" && (deadline == 0 || k.at < deadline) {
			deadline = k.at
		}
	}
	for i := 0; i < nstreams; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if deadline > 0 {
			// from now, as long as the opens take
			ctx, cancel = context.WithDeadline(ctx, time.Now().Add(3*time.Second+deadline))
		}
		x, err := rec.open(ctx, cl, method, nil, fmt.Sprintf("L%d", i), psrpc.WithRequestTimeout(3*time.Second))
		c.Cleanup(cancel)
		if err != nil {
			if deadline > 0 {
				c.Trivial()
				return
			}
			c.Violate("open-failed", "opening a stream to a running server failed: %v", err)
			return
		}
		readersWG.Add(1)
		go func() { defer readersWG.Done(); rec.read(x, pause(40+i)) }()
		traffic(x)
		pairs = append(pairs, &pair{cs: x, cancel: cancel})
	}
	for range pairs {
		select {
		case h := <-handlers:
			for _, p := range pairs {
				if p.cs.id == h.id {
					p.ss = h
				}
			}
		case <-time.After(2 * time.Second):
			c.Violate("no-handler", "the open succeeded but no handler was started")
			return
		}
	}
	t0 := time.Now()
	c.Ev("closing")
	var wg sync.WaitGroup
	for _, k := range closers {
		do := func(f func()) {
			wg.Add(1)
			go func() { defer wg.Done(); time.Sleep(k.at); f() }()
		}
		switch k.name {
		case "clientclose":
			do(func() { cl.Close() })
		case "serverclose":
			do(func() { srv.Close(false) })
		case "serverkill":
			do(func() { srv.Close(true) })
		case "deregister":
			do(func() { srv.DeregisterHandler(method, nil) })
		default:
			for _, p := range pairs {
				switch k.name {
				case "client":
					do(func() { rec.close(p.cs, k.cause) })
				case "server":
					do(func() { rec.close(p.ss, k.cause) })
				case "return":
					do(func() { returnWith <- k.cause })
				case "ctx":
					do(func() { p.cancel() })
				}
			}
		}
	}
	lim := 100*time.Millisecond + 2*sto + 6*time.Second + 4*c.Slack() + 2*late
	if deadline > 0 {
		lim += 3 * time.Second
	}
	if !c.Within(lim, wg.Wait) {
		c.Violate("close-hangs", "closing did not return within %v\n%s", lim, psrpcStacks())
		return
	}
	if deadline > 0 {
		time.Sleep(time.Until(t0) + 3*time.Second + deadline)
	}
	c.Ev("closed")
	time.Sleep(sto + c.Slack() + 3*time.Second + late)
	// both ends have ended
	for _, x := range rec.all() {
		select {
		case <-x.ms.Context().Done():
		default:
			c.Violate("still-open", "side %s of a stream is still open %v after it was closed (%s)\n%s", x.who, time.Since(t0), closers[0].name, psrpcStacks())
			continue
		}
		e1 := x.ms.Err()
		ok := false
		for _, k := range closers {
			ok = ok || sameCause(e1, expected(k))
		}
		if !ok {
			c.Violate("wrong-cause", "side %s of a stream closed by %+v reports %v (code %v)", x.who, closers, e1, code(e1))
		}
		t := time.Now()
		err := x.ms.Send(S("late"), psrpc.WithTimeout(sto))
		if err == nil || !sameCause(err, e1) {
			c.Violate("late-send", "a send on side %s of a stream closed with %v returned %v", x.who, e1, err)
		}
		if d := time.Since(t); d > c.Slack() {
			c.Violate("late-send-waits", "a send on a closed stream took %v", d)
		}
		x.ms.Close(errors.New("another cause"))
		if e2 := x.ms.Err(); !errors.Is(e2, e1) || !sameCause(e2, e1) {
			c.Violate("cause-changed", "Err of side %s changed from %v to %v", x.who, e1, e2)
		}
		c.Count("ends_checked", 1)
		c.Ev("end %s %s", x.who, code(e1))
	}
	if !c.Within(30*time.Second, func() { trafficWG.Wait(); readersWG.Wait() }) {
		c.Violate("not-closed", "senders or readers of closed streams did not end\n%s", psrpcStacks())
		return
	}
	d, a, f := rec.check()
	c.Count("delivered", d)
	c.Count("acknowledged", a)
	c.Count("send_failures", f)
	if c.Violated() {
		return
	}
	// nothing is kept
	time.Sleep(5 * time.Second)
	rec.release()
	for i := range pairs {
		pairs[i].cs, pairs[i].ss = nil, nil
	}
	pairs = nil
	rec.mu.Lock()
	rec.mu.Unlock()
	rec.checkState("state-kept")
	cl.Close()
	srv.Close(true)
	time.Sleep(5 * time.Second)
	c.LeakCheck(base, "leak")
}

func c08at(x int) time.Duration {
	if x < 30 {
		return 0
	}
	if x >= 80 {
		return time.Duration(x-80) * 20 * time.Millisecond
	}
	return time.Duration(x-30) * time.Millisecond
}

var (
	_ = client.OpenStream[str, str]
	_ = server.NewRPCServer
)
