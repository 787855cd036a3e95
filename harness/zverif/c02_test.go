package zverif

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C02: the server is selected as the selection options and the offers say.

func init() {
	reg("C02", "select", 1500, 15000, c02)
}

type c02offer struct {
	server string
	aff    float32
	at     time.Time // when it could be read by the client
}

type c02call struct {
	id     string
	script map[string]struct {
		aff   float32
		delay time.Duration
	}
	opts     psrpc.SelectionOpts
	hasOpts  bool
	clientTO time.Duration // the client's select timeout, 0: default
	timeout  time.Duration
	cancelAt time.Duration
	fn       int // 0 none, 1 last, 2 lowest, 3 error, 4 unknown server
	fnErr    error

	start, end time.Time
	res        string
	err        error

	mu      sync.Mutex
	reqID   string
	offers  []c02offer // published by servers
	arrived []c02offer
	chosen  []string
	choseAt time.Time
	execs   []string
	fnCalls [][]string
}

const c02unit = 2 * time.Second

func c02(c *C) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	svc := c.SvcName()
	streams := r.Intn(3) == 0
	method := []string{mNormal, mAff, mAff, mAff}[r.Intn(4)]
	if streams {
		method = []string{mStream, mStreamAff, mStreamAff, mStreamAff}[r.Intn(4)]
	}
	affEnabled := method == mAff || method == mStreamAff
	ns := 1 + r.Intn(5)
	ids := c.IDs("s", ns)
	ncalls := 1 + r.Intn(3)
	c.Shape("m=%s ns=%d calls=%d mode=%d", method, ns, ncalls, c.idx%4)

	calls := map[string]*c02call{}
	var order []*c02call
	clientSelTO := time.Duration(0)
	var copts []psrpc.ClientOption
	if r.Intn(2) == 0 {
		clientSelTO = time.Duration(2*r.Intn(4)+1) * c02unit / 2
		copts = append(copts, psrpc.WithClientSelectTimeout(clientSelTO))
	}
	affs := []float32{-1, -0.001, 0, 0.1, 0.3, 0.3, 0.5, 0.8, 0.8, 0.999, 1, 1, 2}
	for k := 0; k < ncalls; k++ {
		x := &c02call{id: fmt.Sprintf("call%d", k), clientTO: clientSelTO, timeout: time.Minute}
		x.script = map[string]struct {
			aff   float32
			delay time.Duration
		}{}
		for _, id := range ids {
			d := time.Duration(r.Intn(4)) * c02unit
			if !affEnabled {
				d = 0
			}
			x.script[id] = struct {
				aff   float32
				delay time.Duration
			}{affs[r.Intn(len(affs))], d}
		}
		if r.Intn(4) > 0 {
			x.hasOpts = true
			o := &x.opts
			o.AcceptFirstAvailable = r.Intn(5) == 0
			o.MinimumAffinity = []float32{0, 0, 0.3, 0.5, 1.5}[r.Intn(5)]
			o.MaximumAffinity = []float32{0, 0, 0.8, 1, 3}[r.Intn(5)]
			o.AffinityTimeout = time.Duration(2*r.Intn(5)+1) * c02unit / 2
			if r.Intn(8) == 0 {
				o.AffinityTimeout = 0
			}
			o.ShortCircuitTimeout = time.Duration(2*r.Intn(3)+1) * c02unit / 2
			if r.Intn(2) == 0 {
				o.ShortCircuitTimeout = 0
			}
			if r.Intn(3) == 0 {
				x.fn = 1 + r.Intn(4)
			}
		}
		if r.Intn(6) == 0 {
			x.timeout = time.Duration(2*r.Intn(4)+1) * c02unit / 2
		}
		if r.Intn(8) == 0 {
			x.cancelAt = time.Duration(2*r.Intn(4)+1) * c02unit / 2
		}
		x.fnErr = psrpc.NewErrorf(psrpc.ResourceExhausted, "selection refused %s", x.id)
		calls[x.id] = x
		order = append(order, x)
		c.Shape("%s:%+v/%+v/fn%d/to%v/cn%v", x.id, x.script, x.opts, x.fn, x.timeout, x.cancelAt)
	}
	byReq := func(id string) *c02call {
		for _, x := range order {
			x.mu.Lock()
			ok := x.reqID == id
			x.mu.Unlock()
			if ok {
				return x
			}
		}
		return nil
	}
	onPub := func(m tapMsg) (int, error) {
		switch v := m.Msg.(type) {
		case *internal.Request:
			if x := calls[v.Metadata["call"]]; x != nil {
				x.mu.Lock()
				x.reqID = v.RequestId
				x.mu.Unlock()
			}
		case *internal.Stream:
			if o := v.GetOpen(); o != nil {
				if x := calls[o.Metadata["call"]]; x != nil {
					x.mu.Lock()
					x.reqID = v.RequestId
					x.mu.Unlock()
				}
			}
		case *internal.ClaimRequest:
			c.Ev("offer %s %v", v.ServerId, v.Affinity)
			if x := byReq(v.RequestId); x != nil {
				x.mu.Lock()
				x.offers = append(x.offers, c02offer{v.ServerId, v.Affinity, time.Now()})
				x.mu.Unlock()
			}
		case *internal.ClaimResponse:
			c.Ev("choose %s", v.ServerId)
			if x := byReq(v.RequestId); x != nil {
				x.mu.Lock()
				x.chosen = append(x.chosen, v.ServerId)
				x.choseAt = time.Now()
				x.mu.Unlock()
			}
		}
		return 1, nil
	}
	exec := func(ctx context.Context, id string) string {
		h := metadata.IncomingHeader(ctx)
		x := calls[h.Metadata["call"]]
		if x == nil {
			return ""
		}
		c.Ev("exec %s %s", id, x.id)
		x.mu.Lock()
		x.execs = append(x.execs, id)
		x.mu.Unlock()
		return "RES " + id
	}
	for _, id := range ids {
		s := c.Server(tap(n.Endpoint(), id, onPub), svc, id)
		affinity := func(ctx context.Context) float32 {
			h := metadata.IncomingHeader(ctx)
			x := calls[h.Metadata["call"]]
			if x == nil {
				return -1
			}
			time.Sleep(x.script[id].delay)
			return x.script[id].aff
		}
		if streams {
			var af server.StreamAffinityFunc
			if affEnabled {
				af = affinity
			}
			must(server.RegisterStreamHandler(s, method, nil, func(st psrpc.ServerStream[str, str]) error {
				_ = st.Send(S(exec(st.Context(), id)))
				<-st.Context().Done()
				return nil
			}, af))
		} else {
			var af server.AffinityFunc[str]
			if affEnabled {
				af = func(ctx context.Context, _ str) float32 { return affinity(ctx) }
			}
			must(server.RegisterHandler(s, method, nil, func(ctx context.Context, req str) (str, error) {
				return S(exec(ctx, id)), nil
			}, af))
		}
	}
	cl := c.Client(tapRead(tap(n.Endpoint(), "c", onPub), func(ch psrpc.Channel, b []byte) bool {
		if m, _ := decodeEnvelope(b); m != nil {
			if v, ok := m.(*internal.ClaimRequest); ok {
				if x := byReq(v.RequestId); x != nil {
					x.mu.Lock()
					x.arrived = append(x.arrived, c02offer{v.ServerId, v.Affinity, time.Now()})
					x.mu.Unlock()
				}
			}
		}
		return true
	}), svc, "c", copts...)
	c.Settle()

	var fs []func()
	for _, x := range order {
		fs = append(fs, func() {
			opts := []psrpc.RequestOption{psrpc.WithRequestTimeout(x.timeout)}
			if x.hasOpts {
				o := x.opts
				if x.fn > 0 {
					o.SelectionFunc = func(cs []*psrpc.Claim) (string, error) {
						var got []string
						low := -1
						for i, cm := range cs {
							got = append(got, fmt.Sprintf("%s=%v", cm.ServerID, cm.Affinity))
							if low < 0 || cm.Affinity < cs[low].Affinity {
								low = i
							}
						}
						x.mu.Lock()
						x.fnCalls = append(x.fnCalls, got)
						x.mu.Unlock()
						switch {
						case len(cs) == 0 || x.fn == 3:
							return "", x.fnErr
						case x.fn == 1:
							return cs[len(cs)-1].ServerID, nil
						case x.fn == 2:
							return cs[low].ServerID, nil
						}
						return "nobody", nil
					}
				}
				opts = append(opts, psrpc.WithSelectionOpts(o))
			}
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": x.id})
			if x.cancelAt > 0 {
				var cancel context.CancelFunc
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
				time.AfterFunc(x.cancelAt, cancel)
			}
			x.start = time.Now()
			if streams {
				st, err := client.OpenStream[str, str](ctx, cl, method, nil, opts...)
				x.end, x.err = time.Now(), err
				if err == nil {
					select {
					case m := <-st.Channel():
						x.res = m.GetValue()
					case <-time.After(10 * time.Second):
						x.res = "NOTHING"
					}
					_ = st.Close(nil)
				}
			} else {
				x.res, x.err = call(ctx, cl, method, nil, x.id, opts...)
				x.end = time.Now()
			}
			c.Ev("ret %s %q %v", x.id, x.res, x.err)
		})
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls did not return\n%s", psrpcStacks())
		return
	}
	time.Sleep(30 * time.Second)
	for _, x := range order {
		c02judge(c, x, affEnabled)
	}
}

func c02judge(c *C, x *c02call, affEnabled bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	slack := c.Slack() + 20*time.Millisecond
	o := x.opts
	if !x.hasOpts {
		o = psrpc.SelectionOpts{AffinityTimeout: psrpc.DefaultAffinityTimeout}
		if x.clientTO > 0 {
			o.AffinityTimeout = x.clientTO
		}
		if affEnabled {
			o.ShortCircuitTimeout = psrpc.DefaultAffinityShortCircuit
		} else {
			o.AcceptFirstAvailable = true
		}
	}
	for _, f := range x.offers {
		if f.aff < 0 {
			c.Violate("negative-offer", "%s: server %s offered itself with affinity %v", x.id, f.server, f.aff)
		}
		want := float32(1)
		if affEnabled {
			want = x.script[f.server].aff
		}
		if f.aff != want {
			c.Violate("offer-affinity", "%s: server %s with affinity %v offered %v", x.id, f.server, want, f.aff)
		}
	}
	for id, s := range x.script {
		if affEnabled && s.aff < 0 {
			for _, e := range x.execs {
				if e == id {
					c.Violate("negative-affinity-executed", "%s: executed by %s with negative affinity", x.id, id)
				}
			}
		}
	}
	// what the client can accept, in order of arrival
	ok := func(f c02offer) bool { return o.MinimumAffinity <= 0 || f.aff >= o.MinimumAffinity }
	var acc []c02offer
	for _, f := range x.arrived {
		if ok(f) {
			acc = append(acc, f)
		}
	}
	// when the decision is due
	giveUp := x.start.Add(x.timeout)
	due := giveUp
	if o.AffinityTimeout > 0 && x.start.Add(o.AffinityTimeout).Before(due) {
		due = x.start.Add(o.AffinityTimeout)
	}
	if len(acc) > 0 && o.ShortCircuitTimeout > 0 {
		if t := acc[0].at.Add(o.ShortCircuitTimeout); t.Before(due) {
			due = t
		}
	}
	var now *c02offer // an offer that is accepted at once
	for i, f := range acc {
		if o.AcceptFirstAvailable || o.MaximumAffinity > 0 && f.aff >= o.MaximumAffinity {
			now = &acc[i]
			break
		}
	}
	canceledAt := time.Time{}
	if x.cancelAt > 0 {
		canceledAt = x.start.Add(x.cancelAt)
	}
	if len(x.chosen) > 1 {
		c.Violate("chosen-twice", "%s: %d claim responses: %q", x.id, len(x.chosen), x.chosen)
		return
	}
	chosen := ""
	if len(x.chosen) == 1 {
		chosen = x.chosen[0]
	}
	// general rules, whatever the timing
	aff := map[string]float32{}
	for _, f := range x.arrived {
		aff[f.server] = f.aff
	}
	if chosen != "" && x.fn == 0 {
		a, known := aff[chosen]
		if !known {
			c.Violate("chosen-without-offer", "%s: chose %q, which had not offered itself", x.id, chosen)
		} else if o.MinimumAffinity > 0 && a < o.MinimumAffinity {
			c.Violate("below-minimum", "%s: chose %q with affinity %v below %v", x.id, chosen, a, o.MinimumAffinity)
		}
	}
	for _, e := range x.execs {
		if e != chosen {
			c.Violate("executed-not-chosen", "%s: executed by %q, chosen %q", x.id, e, chosen)
		}
	}
	if x.err == nil && x.res != "RES "+chosen {
		c.Violate("result-of-another", "%s: chose %q but got %q", x.id, chosen, x.res)
	}
	if len(x.fnCalls) > 1 {
		c.Violate("selection-func-repeated", "%s: the selection function was called %d times", x.id, len(x.fnCalls))
	}
	// the decision
	near := func(t time.Time) bool { d := t.Sub(due); return d > -slack && d < slack }
	if now != nil && !now.at.Before(due.Add(-slack)) && !now.at.After(due.Add(slack)) {
		c.Count("ambiguous", 1)
		return
	}
	for _, f := range acc {
		if near(f.at) && !(now != nil && now.at.Before(due)) {
			c.Count("ambiguous", 1)
			return
		}
	}
	immediate := now != nil && now.at.Before(due)
	decideAt := due
	if immediate {
		decideAt = now.at
	}
	if !canceledAt.IsZero() && canceledAt.Before(decideAt.Add(slack)) {
		if !canceledAt.Before(decideAt.Add(-slack)) {
			c.Count("ambiguous", 1)
			return
		}
		// canceled while selecting
		c.Count("canceled_selecting", 1)
		if code(x.err) != psrpc.Canceled {
			c.Violate("canceled-selecting", "%s: canceled at %v while selecting, returned %q, %v", x.id, x.cancelAt, x.res, x.err)
		}
		if x.end.After(canceledAt.Add(slack)) {
			c.Violate("cancel-late", "%s: canceled at %v, returned after %v", x.id, x.cancelAt, x.end.Sub(x.start))
		}
		if chosen != "" || len(x.execs) > 0 || len(x.fnCalls) > 0 {
			c.Violate("selected-after-cancel", "%s: canceled, but chose %q, executed %q, selection function calls %q", x.id, chosen, x.execs, x.fnCalls)
		}
		return
	}
	var in []c02offer
	for _, f := range acc {
		if f.at.Before(decideAt) || immediate && !f.at.After(decideAt) {
			in = append(in, f)
		}
	}
	best := float32(0)
	for _, f := range in {
		if f.aff > best {
			best = f.aff
		}
	}
	what := fmt.Sprintf("%s: opts %+v, offers %s, decision due at %v", x.id, o, c02fmt(x, x.arrived), decideAt.Sub(x.start))
	mayRun := decideAt.Before(giveUp.Add(-slack)) && (canceledAt.IsZero() || decideAt.Before(canceledAt.Add(-slack)))
	expectRun := func(want func(string) bool, desc string) {
		if chosen == "" || !want(chosen) {
			c.Violate("wrong-choice", "%s: chose %q instead of %s (result %q, %v)", what, chosen, desc, x.res, x.err)
			return
		}
		d := x.choseAt.Sub(decideAt)
		if d > slack || d < -slack {
			c.Violate("decision-time", "%s: chose %q at %v", what, chosen, x.choseAt.Sub(x.start))
		}
		c.Count("selected", 1)
		if mayRun && canceledAt.IsZero() && (x.err != nil || len(x.execs) != 1) {
			c.Violate("selected-not-run", "%s: chose %q, executed %d times, returned %q, %v", what, chosen, len(x.execs), x.res, x.err)
		}
	}
	expectFail := func(isErr func(error) bool, desc string) {
		if x.err == nil || !isErr(x.err) {
			c.Violate("no-selection-error", "%s: expected %s, got %q, %v", what, desc, x.res, x.err)
		}
		if chosen != "" || len(x.execs) > 0 {
			c.Violate("run-without-selection", "%s: chose %q, executed %q", what, chosen, x.execs)
		}
		if d := x.end.Sub(decideAt); d > slack || d < -slack {
			c.Violate("decision-time", "%s: failed at %v with %v", what, x.end.Sub(x.start), x.err)
		}
		c.Count("no_selection", 1)
	}
	switch {
	case immediate:
		if len(x.fnCalls) > 0 {
			c.Violate("selection-func-called", "%s: the selection function was called although an offer was accepted at once", what)
		}
		c.Count("immediate", 1)
		expectRun(func(s string) bool { return s == now.server }, now.server)
	case x.fn > 0:
		c.Count("by_func", 1)
		var want []string
		for _, f := range in {
			want = append(want, fmt.Sprintf("%s=%v", f.server, f.aff))
		}
		if len(x.fnCalls) != 1 {
			c.Violate("selection-func-calls", "%s: the selection function was called %d times", what, len(x.fnCalls))
			return
		}
		got := append([]string(nil), x.fnCalls[0]...)
		last := ""
		if len(got) > 0 {
			last = got[len(got)-1]
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "|") != strings.Join(want, "|") {
			c.Violate("selection-func-offers", "%s: the selection function got %q instead of %q", what, got, want)
			return
		}
		switch {
		case len(in) == 0 || x.fn == 3:
			expectFail(func(err error) bool { return errors.Is(err, x.fnErr) }, "the selection function's error")
		case x.fn == 1:
			expectRun(func(s string) bool {
				return strings.HasPrefix(last, s+"=") && strings.TrimPrefix(last, s+"=") == strconv.FormatFloat(float64(aff[s]), 'g', -1, 32)
			}, last)
		case x.fn == 2:
			low := in[0].aff
			for _, f := range in {
				low = min(low, f.aff)
			}
			expectRun(func(s string) bool { a, ok := aff[s]; return ok && a == low }, "the lowest")
		case x.fn == 4:
			if chosen != "nobody" || x.err == nil || len(x.execs) > 0 {
				c.Violate("unknown-choice", "%s: the selection function chose nobody, but %q was chosen, executed by %q, returned %q, %v", what, chosen, x.execs, x.res, x.err)
			}
		}
	case best > 0:
		c.Count("by_score", 1)
		expectRun(func(s string) bool {
			a, ok := aff[s]
			return ok && a == best
		}, fmt.Sprintf("a server with affinity %v", best))
	default:
		expectFail(func(err error) bool { return code(err) == psrpc.Unavailable }, "unavailable")
	}
}

func c02fmt(x *c02call, fs []c02offer) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprintf("%s=%v@%v", f.server, f.aff, f.at.Sub(x.start)))
	}
	return strings.Join(s, " ")
}
