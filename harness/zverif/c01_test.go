package zverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// C01: single-target RPCs run on at most one server, once; success means exactly once.

func init() {
	reg("C01", "mix", 2400, 24000, func(c *C) { c01(c, false) })
	reg("C01", "faults", 2000, 20000, func(c *C) { c01(c, true) })
}

type execLog struct {
	mu    sync.Mutex
	execs map[string][]string // request value -> servers that executed it
}

func (l *execLog) add(req, srv string) {
	l.mu.Lock()
	l.execs[req] = append(l.execs[req], srv)
	l.mu.Unlock()
}

func (l *execLog) get(req string) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.execs[req]...)
}

// with faults, messages get lost, publishing fails before or after the message is
// delivered, claims arrive twice, and servers come and go.
func c01(c *C, faults bool) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	svc := c.SvcName()
	method := []string{mNormal, mNormal, mAff, mAff, mSingle, mQueueNC}[r.Intn(6)]
	ns := 1 + r.Intn(4)
	if method == mSingle {
		ns = 1
	}
	nc := 1 + r.Intn(3)
	calls := 1 + r.Intn(4)
	chSize := []int{0, 1, 2, 100}[r.Intn(4)]
	c.Shape("m=%s ns=%d nc=%d calls=%d ch=%d mode=%d", method, ns, nc, calls, chSize, c.idx%4)
	var topic []string
	if r.Intn(2) == 0 {
		topic = []string{"t1"}
	}
	log := &execLog{execs: map[string][]string{}}

	// claims seen by the client for each request id, choice made, and the request id of each value
	var mu sync.Mutex
	chosen := map[string]string{}
	reqVal := map[string]string{}
	reqRng := c.NewRand(77)
	lag := func(max int) {
		if max <= 0 {
			return
		}
		mu.Lock()
		d := time.Duration(reqRng.Intn(max)) * time.Millisecond
		mu.Unlock()
		time.Sleep(d)
	}
	maxLag := []int{0, 5, 60, 400}[r.Intn(4)]
	wrap := func(b psrpc.MessageBus, who string) psrpc.MessageBus {
		return tap(b, who, func(m tapMsg) (int, error) {
			switch x := m.Msg.(type) {
			case *internal.Request:
				mu.Lock()
				reqVal[x.RequestId] = string(x.RawRequest)
				mu.Unlock()
				c.Ev("req %s", who)
			case *internal.ClaimRequest:
				c.Ev("claim %s", x.ServerId)
			case *internal.ClaimResponse:
				mu.Lock()
				chosen[reqVal[x.RequestId]] = x.ServerId
				mu.Unlock()
				c.Ev("chosen %s", x.ServerId)
			case *internal.Response:
				c.Ev("res %s", x.ServerId)
			}
			lag(maxLag)
			if !faults {
				return 1, nil
			}
			mu.Lock()
			defer mu.Unlock()
			_, isReq := m.Msg.(*internal.Request)
			switch k := reqRng.Intn(30); {
			case k < 2:
				c.Count("lost", 1)
				return 0, nil
			case k < 4:
				c.Count("failed", 1)
				return 0, errInjected
			case k < 6 || isReq && k < 8:
				c.Count("failed_after_delivery", 1)
				return 1, errInjected
			case k < 8:
				c.Count("duplicated", 1)
				return 2, nil
			}
			return 1, nil
		})
	}

	var servers []*server.RPCServer
	ids := c.IDs("s", ns+3)
	var eps []psrpc.MessageBus
	for range ids {
		eps = append(eps, n.Endpoint())
	}
	start := func(i int, id string) {
		s := c.Server(wrap(eps[i], id), svc, id)
		mu.Lock()
		servers = append(servers, s)
		mu.Unlock()
		srng := c.NewRand(100 + i)
		var smu sync.Mutex
		h := func(ctx context.Context, req str) (str, error) {
			log.add(req.Value, id)
			c.Ev("exec %s %s", id, req.Value)
			smu.Lock()
			k := srng.Intn(6)
			d := time.Duration(srng.Intn(50)) * time.Millisecond
			smu.Unlock()
			switch k {
			case 0:
				return nil, psrpc.NewErrorf(psrpc.NotFound, "ERR %s %s", id, req.Value)
			case 1, 2:
				time.Sleep(d)
			case 3:
				time.Sleep(d * 20)
			}
			return S("RES " + id + " " + req.Value), nil
		}
		var aff func(context.Context, str) float32
		if method == mAff {
			affs := make([]float32, 3)
			for k := range affs {
				affs[k] = []float32{-1, 0.2, 0.5, 0.9, 1}[srng.Intn(5)]
			}
			var k int
			aff = func(ctx context.Context, req str) float32 {
				smu.Lock()
				defer smu.Unlock()
				k++
				return affs[k%len(affs)]
			}
		}
		must(server.RegisterHandler(s, method, topic, h, aff))
	}
	for i, id := range ids[:ns] {
		start(i, id)
	}
	var clients []*client.RPCClient
	for i := 0; i < nc; i++ {
		id := fmt.Sprintf("c%d", i)
		clients = append(clients, c.Client(wrap(n.Endpoint(), id), svc, id, psrpc.WithClientChannelSize(chSize)))
	}
	c.Settle()

	type result struct {
		val, res string
		err      error
		canceled bool
	}
	var rmu sync.Mutex
	var results []result
	var fs []func()
	for ci, cl := range clients {
		for k := 0; k < calls; k++ {
			rr := c.NewRand(1000 + ci*100 + k)
			val := fmt.Sprintf("v%d.%d", ci, k)
			fs = append(fs, func() {
				time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
				ctx := context.Background()
				var opts []psrpc.RequestOption
				timeout := []time.Duration{3 * time.Second, 3 * time.Second, 300 * time.Millisecond, 60 * time.Millisecond}[rr.Intn(4)]
				opts = append(opts, psrpc.WithRequestTimeout(timeout))
				if method == mAff || method == mNormal {
					switch rr.Intn(4) {
					case 0:
						opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AcceptFirstAvailable: true, AffinityTimeout: 500 * time.Millisecond}))
					case 1:
						opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 200 * time.Millisecond, ShortCircuitTimeout: 20 * time.Millisecond, MinimumAffinity: 0.3}))
					case 2:
						// the caller's choice may be nobody
						k := rr.Intn(8)
						opts = append(opts, psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: 200 * time.Millisecond, SelectionFunc: func(cs []*psrpc.Claim) (string, error) {
							switch {
							case k == 0:
								return "", nil
							case k == 1:
								return "unknown", nil
							case k == 2:
								return "*", nil
							case len(cs) == 0:
								return "", psrpc.ErrNoResponse
							case k == 3:
								return strings.ToUpper(cs[0].ServerID) + "x", nil
							case k == 4:
								return strings.ToValidUTF8(cs[0].ServerID[:len(cs[0].ServerID)-1], ""), nil
							}
							return cs[k%len(cs)].ServerID, nil
						}}))
					}
				}
				if rr.Intn(4) == 0 {
					var cancel context.CancelFunc
					ctx, cancel = context.WithCancel(ctx)
					d := time.Duration(rr.Intn(300)) * time.Millisecond
					time.AfterFunc(d, cancel)
				}
				c.Ev("call %s", val)
				res, err := call(ctx, cl, method, topic, val, opts...)
				c.Ev("ret %s %q %v", val, res, err)
				rmu.Lock()
				results = append(results, result{val: val, res: res, err: err})
				rmu.Unlock()
			})
		}
	}
	if faults && r.Intn(2) == 0 {
		// servers come and go
		rr := c.NewRand(5)
		for k := 0; k < 1+rr.Intn(3); k++ {
			d, id, force := time.Duration(rr.Intn(600))*time.Millisecond, ids[ns+k], rr.Intn(2) == 0
			join, victim := rr.Intn(3) > 0 && method != mSingle, rr.Intn(ns)
			fs = append(fs, func() {
				time.Sleep(d)
				if join {
					c.Count("joined", 1)
					start(ns+k, id)
					return
				}
				c.Count("left", 1)
				mu.Lock()
				s := servers[victim]
				mu.Unlock()
				s.Close(force)
			})
		}
	}
	if !c.Par(time.Minute, fs...) {
		c.Violate("hang", "calls did not return within a minute\n%s", psrpcStacks())
		return
	}
	time.Sleep(6 * time.Second) // let late executions happen
	okc := 0
	for _, x := range results {
		ex := log.get(x.val)
		if len(ex) > 1 {
			c.Violate("executed-more-than-once", "request %s executed %d times, by %v (result %q, %v)", x.val, len(ex), ex, x.res, x.err)
		}
		isHandlerErr := x.err != nil && strings.HasPrefix(x.err.Error(), "ERR ")
		if x.err == nil || isHandlerErr {
			okc++
			if len(ex) != 1 {
				c.Violate("success-without-one-execution", "request %s returned %q/%v but executed %d times %v", x.val, x.res, x.err, len(ex), ex)
				continue
			}
			want := "RES " + ex[0] + " " + x.val
			got := x.res
			if isHandlerErr {
				want, got = "ERR "+ex[0]+" "+x.val, x.err.Error()
			}
			if got != want {
				c.Violate("result-not-from-execution", "request %s executed by %s returned %q", x.val, ex[0], got)
			}
		} else {
			switch code(x.err) {
			case psrpc.DeadlineExceeded, psrpc.Canceled, psrpc.Unavailable:
			case psrpc.Internal:
				if !faults {
					c.Violate("unexpected-error", "request %s failed with %v", x.val, x.err)
				}
			default:
				c.Violate("unexpected-error", "request %s failed with %v (%s)", x.val, x.err, code(x.err))
			}
		}
		if method == mAff || method == mNormal {
			w := ""
			mu.Lock()
			for raw, s := range chosen {
				if strings.HasSuffix(raw, x.val) {
					w = s
				}
			}
			mu.Unlock()
			for _, e := range ex {
				if e != w {
					c.Violate("executed-by-unchosen-server", "request %s executed by %s, but the client chose %q", x.val, e, w)
				}
			}
		}
	}
	c.Count("calls", len(results))
	c.Count("calls_with_result", okc)
	if okc == 0 {
		c.Trivial()
	}
}
