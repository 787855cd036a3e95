package zverif

import (
	"context"
	"fmt"
	"maps"
	"math/rand"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C16: metadata travels with the call, unchanged and isolated.

func init() {
	reg("C16", "ops", 4000, 40000, c16ops)
	reg("C16", "calls", 2400, 24000, c16calls)
}

var c16keys = []string{"a", "b", "A", "", "ü", "key with space", "label", "traceparent", strings.Repeat("k", 300), "a.b", "\x00"}

// c16node is a context with the outgoing metadata it must have; nil means none.
type c16node struct {
	ctx  context.Context
	want map[string]string
}

func c16md(r *rand.Rand, n int) map[string]string {
	m := map[string]string{}
	for ; n > 0; n-- {
		m[c16keys[r.Intn(len(c16keys))]] = c16val(r)
	}
	return m
}

func c16val(r *rand.Rand) string {
	return []string{"", "v", "wert ü", strings.Repeat("x", 2000), "\n", fmt.Sprint(r.Int())}[r.Intn(6)] + []string{"", fmt.Sprint(r.Intn(1000))}[r.Intn(2)]
}

// derive applies a random operation to a node. What it is given and gets back is altered
// afterwards by spoil.
func c16derive(c *C, r *rand.Rand, x c16node, spoil *[]func()) (c16node, string) {
	y := c16node{want: map[string]string{}}
	maps.Copy(y.want, x.want)
	switch op := r.Intn(8); op {
	case 0, 1: // merge
		md := c16md(r, r.Intn(4))
		y.ctx = metadata.WithOutgoingMetadata(x.ctx, md)
		maps.Copy(y.want, md)
		*spoil = append(*spoil, func() { md["spoiled"] = "1"; md["a"] = "spoiled" })
		return y, "merge"
	case 2: // reset
		md := c16md(r, r.Intn(4))
		if r.Intn(6) == 0 {
			md = nil
		}
		y.ctx = metadata.NewContextWithOutgoingMetadata(x.ctx, md)
		y.want = map[string]string{}
		maps.Copy(y.want, md)
		*spoil = append(*spoil, func() {
			if md != nil {
				md["spoiled"] = "1"
				delete(md, "a")
			}
		})
		return y, "reset"
	case 3, 4, 5: // append
		var kv []string
		for n := r.Intn(4); n > 0; n-- {
			k, v := c16keys[r.Intn(len(c16keys))], c16val(r)
			kv = append(kv, k, v)
			y.want[k] = v
		}
		if r.Intn(8) == 0 {
			kv = append(kv, "odd") // a key without a value is nothing
		}
		y.ctx = metadata.AppendMetadataToOutgoingContext(x.ctx, kv...)
		*spoil = append(*spoil, func() {
			for i := range kv {
				kv[i] = "spoiled"
			}
		})
		return y, "append"
	case 6: // unrelated
		y.ctx = context.WithValue(x.ctx, canaryKey{}, 1)
		return y, "value"
	default: // an incoming header is not outgoing metadata
		h := &metadata.Header{RemoteID: "x", Metadata: metadata.Metadata{"in": "1"}}
		y.ctx = metadata.NewContextWithIncomingHeader(x.ctx, h)
		return y, "incoming"
	}
}

func c16ops(c *C) {
	r := c.Rand
	nodes := []c16node{{context.Background(), nil}}
	var spoil []func()
	check := func(i int, when string) {
		x := nodes[i]
		got := metadata.OutgoingContextMetadata(x.ctx)
		if len(got) != len(x.want) || len(got) > 0 && !maps.Equal(map[string]string(got), x.want) {
			c.Violate("metadata", "%s: context %d has %v, want %v", when, i, c16short(got), c16short(x.want))
		}
		if got != nil && r.Intn(2) == 0 {
			got["spoiled result"] = "1" // a copy
			delete(got, "a")
		}
	}
	for k := 0; k < 12+r.Intn(20); k++ {
		p := len(nodes) - 1
		if r.Intn(3) == 0 {
			p = r.Intn(len(nodes))
		}
		y, op := c16derive(c, r, nodes[p], &spoil)
		nodes = append(nodes, y)
		c.Ev("%s %d>%d", op, p, len(nodes)-1)
		check(len(nodes)-1, "after "+op)
		check(p, "parent after "+op)
		if r.Intn(4) == 0 && len(spoil) > 0 {
			spoil[r.Intn(len(spoil))]()
		}
	}
	for _, f := range spoil {
		f()
	}
	for i := range nodes {
		check(i, "at the end")
	}
	// concurrently
	var fs []func()
	for g := 0; g < 3; g++ {
		rr := c.NewRand(g)
		fs = append(fs, func() {
			var sp []func()
			for k := 0; k < 6; k++ {
				x := nodes[rr.Intn(len(nodes))]
				y, op := c16derive(c, rr, x, &sp)
				for _, z := range []c16node{x, y} {
					if got := metadata.OutgoingContextMetadata(z.ctx); len(got) != len(z.want) || len(got) > 0 && !maps.Equal(map[string]string(got), z.want) {
						c.Violate("metadata", "concurrent %s: %v, want %v", op, c16short(got), c16short(z.want))
					}
				}
			}
		})
	}
	c.Par(time.Minute, fs...)
	c.Count("contexts", len(nodes))
}

func c16short(m map[string]string) string {
	s := fmt.Sprintf("%.60q", m)
	return s[:min(len(s), 300)]
}

func c16calls(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[c.idx%3])
	svc := c.SvcName()
	ns, ncl := 1+r.Intn(2), 1+r.Intn(3)
	cids := c.IDs("c", ncl)
	icept := r.Intn(2) == 0 // a client interceptor adds metadata
	nested := r.Intn(2) == 0
	c.Shape("ns=%d ncl=%d icept=%v nested=%v", ns, ncl, icept, nested)
	type exp struct {
		want  map[string]string
		cid   string
		start time.Time
	}
	var mu sync.Mutex
	exps := map[string]exp{}
	seen := newTally()
	var sentAts []time.Duration
	verify := func(where string, ctx context.Context, val string) {
		mu.Lock()
		e, ok := exps[val]
		mu.Unlock()
		if !ok {
			c.Violate("header", "%s: unknown request %q", where, val)
			return
		}
		for k := 0; k < 2; k++ {
			h := metadata.IncomingHeader(ctx)
			if h == nil {
				c.Violate("header", "%s of %s: no header", where, val)
				return
			}
			if len(h.Metadata) != len(e.want) || len(h.Metadata) > 0 && !maps.Equal(map[string]string(h.Metadata), e.want) {
				c.Violate("header-metadata", "%s of %s sees %s, sent %s", where, val, c16short(h.Metadata), c16short(e.want))
			}
			if h.RemoteID != e.cid {
				c.Violate("header-remote", "%s of %s sees the client %q, sent by %q", where, val, h.RemoteID, e.cid)
			}
			now := time.Now()
			if h.SentAt.Before(e.start) || h.SentAt.After(now) || h.SentAt.Sub(e.start) > delayBudget {
				c.Violate("header-sent", "%s of %s sees %v, sent at %v, now %v", where, val, h.SentAt, e.start, now)
			}
			mu.Lock()
			sentAts = append(sentAts, h.SentAt.Sub(e.start))
			mu.Unlock()
			// what a handler does with it concerns nobody
			h.RemoteID = "spoiled"
			h.SentAt = time.Time{}
			if h.Metadata == nil {
				h.Metadata = metadata.Metadata{}
			}
			h.Metadata["spoiled"] = "1"
			delete(h.Metadata, "a")
		}
		if o := metadata.OutgoingContextMetadata(ctx); len(o) != 0 {
			c.Violate("leaks-on", "%s of %s has the outgoing metadata %s", where, val, c16short(o))
		}
		seen.add(where[:1] + val)
	}
	var inner *client.RPCClient
	var servers []*server.RPCServer
	for i := 0; i < ns; i++ {
		id := fmt.Sprintf("s%d", i)
		s := c.Server(n.Endpoint(), svc, id, psrpc.WithServerRPCInterceptors(func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
			verify("interceptor", ctx, req.(str).Value)
			return next(ctx, req)
		}))
		servers = append(servers, s)
		h := func(ctx context.Context, req str) (str, error) {
			verify("handler", ctx, req.Value)
			if nested && !strings.HasPrefix(req.Value, "in:") {
				// a call with the handler's context carries its own metadata only
				v := "in:" + req.Value + id
				mu.Lock()
				exps[v] = exp{map[string]string{"inner": "1"}, inner.ID, time.Now()}
				mu.Unlock()
				if _, err := call(metadata.AppendMetadataToOutgoingContext(ctx, "inner", "1"), inner, mQueueNC, nil, v, psrpc.WithRequestTimeout(3*time.Second)); err != nil {
					return nil, err
				}
			}
			verify("handler", ctx, req.Value)
			return S(req.Value), nil
		}
		for _, m := range []string{mNormal, mMulti, mQueueNC} {
			must(server.RegisterHandler(s, m, nil, h, nil))
		}
		must(server.RegisterHandler(s, mAff, nil, h, func(ctx context.Context, req str) float32 {
			verify("affinity", ctx, req.Value)
			return 1
		}))
		must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
			// the label is not known before the first message
			m := <-st.Channel()
			if m == nil {
				return nil
			}
			verify("handler", st.Context(), m.Value)
			_ = st.Send(m)
			return nil
		}, nil))
	}
	var clients []*client.RPCClient
	for i := 0; i < ncl; i++ {
		var opts []psrpc.ClientOption
		if icept {
			opts = append(opts, psrpc.WithClientRPCInterceptors(func(_ psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
				return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
					return next(metadata.AppendMetadataToOutgoingContext(ctx, "from interceptor", req.(str).Value), req, opts...)
				}
			}))
		}
		clients = append(clients, c.Client(n.Endpoint(), svc, cids[i], opts...))
	}
	inner = c.Client(n.Endpoint(), svc, "")
	c.Settle()
	shared := c16node{context.Background(), nil}
	var spoil []func()
	for k := r.Intn(4); k > 0; k-- {
		shared, _ = c16derive(c, r, shared, &spoil)
	}
	var fs []func()
	calls := 0
	for i, cl := range clients {
		for w := 0; w < 1+r.Intn(2); w++ {
			rr := c.NewRand(50 + 10*i + w)
			fs = append(fs, func() {
				for k := 0; k < 5; k++ {
					x := shared
					var sp []func()
					for d := rr.Intn(4); d > 0; d-- {
						x, _ = c16derive(c, rr, x, &sp)
					}
					val := fmt.Sprintf("%d.%d.%d", i, w, k)
					method := []string{mNormal, mAff, mMulti, mQueueNC, mStream}[rr.Intn(5)]
					want := map[string]string{}
					maps.Copy(want, x.want)
					if icept && method != mMulti && method != mStream {
						want["from interceptor"] = val
					}
					mu.Lock()
					exps[val] = exp{want, cids[i], time.Now()}
					calls++
					mu.Unlock()
					ctx, cancel := context.WithTimeout(x.ctx, 8*time.Second)
					if rr.Intn(2) == 0 {
						// changes to passed maps while the call runs concern nobody
						time.AfterFunc(time.Duration(rr.Intn(20))*time.Millisecond, func() {
							for _, f := range sp {
								f()
							}
						})
					}
					execs := 1
					switch method {
					case mMulti:
						execs = ns
						ch, err := callMulti(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(4*time.Second))
						must(err)
						for m := range ch {
							if m.Err != nil {
								c.Violate("call-fails", "multi %s: %v", val, m.Err)
							}
						}
					case mStream:
						st, err := client.OpenStream[str, str](ctx, cl, method, nil, psrpc.WithRequestTimeout(4*time.Second))
						if err != nil {
							c.Violate("call-fails", "stream %s: %v", val, err)
							cancel()
							continue
						}
						// the handler may have answered and ended before the send's acknowledgement is seen
						_ = st.Send(S(val))
						<-st.Channel()
						st.Close(nil)
					default:
						if res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(4*time.Second)); err != nil || res != val {
							c.Violate("call-fails", "%s %s: %q %v", method, val, res, err)
						}
					}
					cancel()
					if g := seen.get("h" + val); g != execs && g != 2*execs {
						c.Violate("handled", "%s %s was handled %d times", method, val, g)
					}
					c.Ev("call %s %d", method, len(want))
				}
			})
		}
	}
	if !c.Par(10*time.Minute, fs...) {
		c.Violate("hang", "calls do not return\n%s", psrpcStacks())
		return
	}
	for _, f := range spoil {
		f()
	}
	c.Count("calls", calls)
	c.Count("headers_checked", len(sentAts))
	_ = servers
}
