package zverif

import (
	"context"
	"fmt"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/server"
)

// C04: a multi-RPC yields each server's answer once, then closes on time.

func init() {
	reg("C04", "multi", 1200, 12000, c04)
}

const (
	readAll = iota
	readSlow
	readSome
	readNone
	readLate // starts after the deadline
)

func c04(c *C) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	svc := c.SvcName()
	ns := r.Intn(6)
	ncl := 1 + r.Intn(2)
	ncall := 1 + r.Intn(4)
	size := []int{0, 1, 1, 2, 3, 100}[r.Intn(6)]
	var topic []string
	if r.Intn(2) == 0 {
		topic = []string{"a.b", "c"}
	}
	c.Shape("ns=%d cl=%d calls=%d size=%d mode=%d", ns, ncl, ncall, size, c.idx%4)

	type answer struct {
		delay time.Duration
		err   bool
		bad   bool // the client can't decode it
	}
	type mcall struct {
		id       string
		timeout  time.Duration
		cancelAt time.Duration
		ctxDl    bool // the timeout is the context's
		mode     int
		answers  map[string]answer
	}
	type doneAt struct {
		at  time.Time
		val string
		n   int
	}
	var mu sync.Mutex
	execs := map[string]map[string]*doneAt{} // call -> server
	script := map[string]*mcall{}

	// publishing may fail although the message is delivered
	failing := c.LRand(41).Intn(4) == 0
	failed := map[string]bool{} // requests
	wrap := func(b psrpc.MessageBus, k int) psrpc.MessageBus {
		if !failing {
			return b
		}
		lr := c.LRand(42 + k)
		return tap(b, "", func(m tapMsg) (int, error) {
			switch x := m.Msg.(type) {
			case *internal.Request:
				if x.Multi && lr.Intn(6) == 0 {
					v, _ := bus.DeserializePayload[str](x.RawRequest)
					mu.Lock()
					failed[v.GetValue()] = true
					mu.Unlock()
					return 1, errInjected
				}
			case *internal.Response:
				if lr.Intn(4) == 0 {
					return 1, errInjected
				}
			}
			return 1, nil
		})
	}

	ids := c.IDs("s", ns+1)[:ns]
	for i, id := range ids {
		s := c.Server(wrap(n.Endpoint(), i), svc, id)
		must(server.RegisterHandler(s, mMulti, topic, func(ctx context.Context, req str) (*wrapperspb.BytesValue, error) {
			mu.Lock()
			x := script[req.Value]
			e := execs[req.Value][id]
			if e == nil {
				e = &doneAt{}
				if execs[req.Value] == nil {
					execs[req.Value] = map[string]*doneAt{}
				}
				execs[req.Value][id] = e
			}
			e.n++
			mu.Unlock()
			c.Ev("exec %s %s", id, req.Value)
			a := x.answers[id]
			time.Sleep(a.delay)
			mu.Lock()
			e.at = time.Now()
			e.val = fmt.Sprintf("%s from %s", req.Value, id)
			mu.Unlock()
			if a.err {
				return nil, psrpc.NewErrorf(psrpc.NotFound, "ERR %s from %s", req.Value, id)
			}
			if a.bad {
				return wrapperspb.Bytes([]byte("bad \xff")), nil
			}
			return wrapperspb.Bytes([]byte(fmt.Sprintf("%s from %s", req.Value, id))), nil
		}, nil))
		must(server.RegisterHandler(s, mQueueNC, topic, func(ctx context.Context, req str) (str, error) {
			return S("ok " + req.Value), nil
		}, nil))
	}
	var fs []func()
	delivered := 0
	var calls []*mcall
	slack := c.Slack()
	for ci := 0; ci < ncl; ci++ {
		cl := c.Client(wrap(n.Endpoint(), 10+ci), svc, fmt.Sprintf("c%d", ci), psrpc.WithClientChannelSize(size))
		for q := 0; q < ncall; q++ {
			x := &mcall{id: fmt.Sprintf("m%d.%d", ci, q), mode: r.Intn(5), answers: map[string]answer{}}
			x.timeout = time.Duration(2+r.Intn(6)) * time.Second
			x.ctxDl = r.Intn(3) == 0
			if r.Intn(4) == 0 {
				x.cancelAt = time.Duration(1+r.Intn(5)) * time.Second
			}
			badFrom := ""
			if br := c.LRand(700 + len(calls)); len(ids) > 0 && br.Intn(4) == 0 {
				badFrom = ids[br.Intn(len(ids))]
			}
			for _, id := range ids {
				a := answer{err: r.Intn(3) == 0}
				if a.bad = id == badFrom; a.bad {
					a.err = false
					c.Count("undecodable_answers", 1)
				}
				switch r.Intn(4) {
				case 0:
				case 1:
					a.delay = time.Duration(r.Intn(3000)) * time.Millisecond
				case 2: // about the deadline
					a.delay = x.timeout + time.Duration(r.Intn(2000)-1000)*time.Millisecond
				case 3: // too late
					a.delay = x.timeout + time.Duration(1000+r.Intn(3000))*time.Millisecond
				}
				x.answers[id] = a
			}
			script[x.id] = x
			calls = append(calls, x)
			c.Shape("%s:%+v", x.id, *x)
			fs = append(fs, func() {
				ctx := context.Background()
				var opts []psrpc.RequestOption
				start := time.Now()
				if x.ctxDl {
					var cancel context.CancelFunc
					ctx, cancel = context.WithTimeout(ctx, x.timeout)
					defer cancel()
				} else {
					opts = append(opts, psrpc.WithRequestTimeout(x.timeout))
				}
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				end := start.Add(x.timeout)
				if x.cancelAt > 0 {
					time.AfterFunc(x.cancelAt, cancel)
					if t := start.Add(x.cancelAt); t.Before(end) {
						end = t
					}
				}
				c.Ev("call %s", x.id)
				ch, err := callMulti(ctx, cl, mMulti, topic, x.id, opts...)
				mu.Lock()
				broken := failed[x.id]
				mu.Unlock()
				if broken {
					if err == nil || code(err) != psrpc.Internal {
						c.Violate("multi-not-failed", "%s: the request could not be published, and the call returned %v", x.id, err)
					}
					time.Sleep(10 * time.Second)
					mu.Lock()
					defer mu.Unlock()
					for id, e := range execs[x.id] {
						if e.n > 1 {
							c.Violate("executions", "%s: executed %d times by %s", x.id, e.n, id)
						}
					}
					c.Count("unpublished", 1)
					return
				}
				if err != nil {
					c.Violate("multi-failed", "%s: %v", x.id, err)
					return
				}
				if d := time.Since(start); d > slack {
					c.Violate("multi-send-blocked", "%s: returned after %v", x.id, d)
				}
				type entry struct {
					at  time.Time
					val string
					err error
				}
				var got []entry
				closedAt := time.Time{}
				limit := time.NewTimer(time.Until(end) + 30*time.Second)
				defer limit.Stop()
				read := func() bool {
					select {
					case v, ok := <-ch:
						if !ok {
							closedAt = time.Now()
							return false
						}
						e := entry{at: time.Now(), err: v.Err}
						if v.Result != nil {
							e.val = v.Result.Value
						}
						got = append(got, e)
						c.Ev("got %s %q %v", x.id, e.val, e.err)
						return true
					case <-limit.C:
						c.Violate("never-closed", "%s: the result channel is not closed 30s after the end of the call\n%s", x.id, psrpcStacks())
						return false
					}
				}
				exact := true // the close is seen when it happens
				switch x.mode {
				case readAll:
					for read() {
					}
				case readSlow:
					for read() {
						time.Sleep(100 * time.Millisecond)
					}
				case readSome:
					k := r0(x.id) % 3
					for i := 0; i < k; i++ {
						if !read() {
							break
						}
					}
					fallthrough
				case readNone, readLate:
					if closedAt.IsZero() {
						exact = false
						time.Sleep(time.Until(end) + slack)
						// what was sent to the channel is still there, then it must be closed
						for {
							select {
							case v, ok := <-ch:
								if !ok {
									closedAt = time.Now()
								} else {
									e := entry{at: end, err: v.Err}
									if v.Result != nil {
										e.val = v.Result.Value
									}
									got = append(got, e)
									continue
								}
							default:
								c.Violate("close-late", "%s (mode %d): the result channel is not closed %v after the end of the call\n%s", x.id, x.mode, slack, psrpcStacks())
							}
							break
						}
					}
				}
				if exact && !closedAt.IsZero() {
					if closedAt.After(end.Add(slack + 100*time.Millisecond)) {
						c.Violate("close-late", "%s: closed %v after the end", x.id, closedAt.Sub(end))
					}
					if closedAt.Before(end) {
						c.Violate("close-early", "%s: closed %v before the end", x.id, end.Sub(closedAt))
					}
				}
				time.Sleep(time.Until(start.Add(x.timeout)) + 5*time.Second) // handlers are done
				seen := map[string]int{}
				for _, e := range got {
					from := e.val
					if e.err != nil {
						from = strings.TrimPrefix(e.err.Error(), "ERR ")
						if badFrom != "" && code(e.err) == psrpc.MalformedResponse {
							from = x.id + " from " + badFrom
						} else if code(e.err) != psrpc.NotFound {
							c.Violate("wrong-entry", "%s: got the error %v (%s)", x.id, e.err, code(e.err))
							continue
						}
					}
					id := strings.TrimPrefix(from, x.id+" from ")
					a, known := x.answers[id]
					if !known || from == id {
						c.Violate("wrong-entry", "%s: got %q, %v", x.id, e.val, e.err)
						continue
					}
					if (a.err || a.bad) != (e.err != nil) {
						c.Violate("wrong-entry", "%s: server %s failed=%v, got %q, %v", x.id, id, a.err, e.val, e.err)
					}
					if seen[id]++; seen[id] > 1 {
						c.Violate("answer-twice", "%s: %d entries of %s", x.id, seen[id], id)
					}
				}
				mu.Lock()
				defer mu.Unlock()
				for _, id := range ids {
					e := execs[x.id][id]
					if e == nil || e.n != 1 {
						k := 0
						if e != nil {
							k = e.n
						}
						c.Violate("executions", "%s: executed %d times by %s", x.id, k, id)
						continue
					}
					reads := x.mode == readAll || x.mode == readSlow
					if reads && e.at.Before(end.Add(-slack-time.Duration(ns)*100*time.Millisecond)) && seen[id] == 0 {
						c.Violate("answer-lost", "%s: %s answered %v before the end, but there is no entry (of %d)", x.id, id, end.Sub(e.at), len(got))
					}
					if e.at.After(end.Add(slack)) && seen[id] > 0 { // the call may have been held up before its time started
						c.Violate("answer-after-end", "%s: %s answered %v after the end, but it was delivered", x.id, id, e.at.Sub(end))
					}
				}
				delivered += len(got)
			})
		}
		// other calls of the client
		if ns > 0 {
			rr := c.NewRand(50 + ci)
			fs = append(fs, func() {
				for k := 0; k < 6; k++ {
					time.Sleep(time.Duration(rr.Intn(3000)) * time.Millisecond)
					v := fmt.Sprintf("o%d.%d", ci, k)
					res, err := call(context.Background(), cl, mQueueNC, topic, v, psrpc.WithRequestTimeout(4*time.Second))
					if err != nil || res != "ok "+v {
						c.Violate("other-call", "a call during multi-RPCs returned %q, %v", res, err)
					}
					c.Count("other_calls", 1)
				}
			})
		}
	}
	c.Settle()
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls did not return\n%s", psrpcStacks())
		return
	}
	c.Count("entries", delivered)
	c.Count("calls", len(calls))
	if delivered == 0 {
		c.Trivial()
	}
}

// r0 is a number derived from a name.
func r0(s string) int {
	h := 0
	for _, b := range []byte(s) {
		h = h*31 + int(b)
	}
	return h & 0xffff
}
