package zverif

import (
	"context"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// C03: every call gets the response to its own request, intact.

func init() {
	reg("C03", "mix", 700, 7000, c03)
}

// c03payload draws message content of any kind.
func c03payload(r interface{ Intn(int) int }) *structpb.Value {
	switch r.Intn(9) {
	case 0:
		return structpb.NewStringValue("")
	case 1:
		return structpb.NewStringValue(strings.Repeat("long ", 1+r.Intn(2000)))
	case 2:
		return structpb.NewStringValue("nul \x00 ünï \U0001F600 \ufffd \u202e \n\t\x7f")
	case 3:
		return structpb.NewNullValue()
	case 4:
		return structpb.NewNumberValue(float64(r.Intn(1000)) - 500.25)
	case 5:
		v, _ := structpb.NewValue(map[string]any{"": []any{true, nil, "x", map[string]any{"deep": 1.5}}, "k.k/k": "v"})
		return v
	case 6:
		l := make([]any, r.Intn(40))
		for i := range l {
			l[i] = float64(i)
		}
		v, _ := structpb.NewValue(l)
		return v
	case 7:
		return &structpb.Value{} // nothing set
	}
	v := structpb.NewStringValue("unknown fields")
	// a newer peer's fields travel with the message
	v.ProtoReflect().SetUnknown([]byte{0xfa, 0x3f, 3, 'a', 'b', 'c', 0xc8, 0x3e, 0x96, 1})
	return v
}

// c03wrap puts content into an envelope of the type asked for; key makes it unique.
func c03wrap(kind int, key string, v *structpb.Value) proto.Message {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(v)
	switch kind {
	case 0:
		return wrapperspb.String(key + "|" + hex.EncodeToString(b))
	case 1:
		return wrapperspb.Bytes(append([]byte(key+"|"), b...))
	case 2:
		return &structpb.Struct{Fields: map[string]*structpb.Value{"key": structpb.NewStringValue(key), "v": v}}
	}
	a, err := anypb.New(v)
	must(err)
	a.TypeUrl = key + "/" + string(v.ProtoReflect().Descriptor().FullName())
	return a
}

func c03digest(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "ERR " + err.Error()
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%s:%d:%x", m.ProtoReflect().Descriptor().FullName(), len(b), h.Sum64())
}

type c03case struct {
	c    *C
	mu   sync.Mutex
	sent map[string]string // call -> digest of the request
	seen map[string]int
	res  map[string]map[string]string // call -> server -> digest of the response
}

func (x *c03case) handle(ctx context.Context, srv, svc, method string, topic []string, req proto.Message, mk func(key string) proto.Message) (proto.Message, error) {
	h := metadata.IncomingHeader(ctx)
	id := h.Metadata["call"]
	where := svc + "/" + method + "/" + strings.Join(topic, ",")
	if h.Metadata["where"] != where {
		x.c.Violate("wrong-address", "call %s for %q handled at %q", id, h.Metadata["where"], where)
	}
	d := c03digest(req)
	res := mk(id + "@" + srv)
	x.mu.Lock()
	defer x.mu.Unlock()
	if want, ok := x.sent[id]; !ok || want != d {
		x.c.Violate("request-changed", "call %s: the handler got %s instead of %s", id, d, want)
	}
	x.seen[id]++
	if x.res[id] == nil {
		x.res[id] = map[string]string{}
	}
	x.res[id][srv] = c03digest(res)
	x.c.Ev("exec %s %s", srv, id)
	return res, nil
}

func c03reg[T proto.Message](x *c03case, s *server.RPCServer, srv, svc, method string, topic []string, kind int, lr *lrand) {
	must(server.RegisterHandler(s, method, topic, func(ctx context.Context, req T) (T, error) {
		lr2 := lr.Ms(40)
		res, err := x.handle(ctx, srv, svc, method, topic, req, func(key string) proto.Message {
			return c03wrap(kind, key, c03payload(lr))
		})
		time.Sleep(lr2)
		return res.(T), err
	}, nil))
}

func c03call[T proto.Message](x *c03case, cl *client.RPCClient, method string, topic []string, req proto.Message, ctx context.Context, multi bool, timeout time.Duration) ([]proto.Message, []error) {
	if multi {
		ch, err := client.RequestMulti[T](ctx, cl, method, topic, req, psrpc.WithRequestTimeout(timeout))
		if err != nil {
			return nil, []error{err}
		}
		var out []proto.Message
		var errs []error
		for r := range ch {
			if r.Err != nil {
				errs = append(errs, r.Err)
			} else {
				out = append(out, r.Result)
			}
		}
		return out, errs
	}
	res, err := client.RequestSingle[T](ctx, cl, method, topic, req, psrpc.WithRequestTimeout(timeout))
	if err != nil {
		return nil, []error{err}
	}
	return []proto.Message{res}, nil
}

func c03(c *C) {
	r := c.Rand
	kind := kinds[r.Intn(3)]
	n := c.NewNet(kind)
	svcs := []string{c.SvcName()}
	if r.Intn(2) == 0 {
		svcs = append(svcs, svcs[0]+"x")
	}
	methods := []string{mNormal, mAff, mMulti, mQueueNC}
	topics := [][]string{nil, {"t"}, {"t", "t"}, {"T"}}[:1+r.Intn(4)]
	// the type of messages of each method and topic
	mkind := map[string]int{}
	nsrv, ncl, ncall := 1+r.Intn(2), 1+r.Intn(3), 2+r.Intn(8)
	hostile := r.Intn(3) > 0
	c.Shape("svc=%d topics=%d srv=%d cl=%d calls=%d hostile=%v mode=%d", len(svcs), len(topics), nsrv, ncl, ncall, hostile, c.idx%4)
	x := &c03case{c: c, sent: map[string]string{}, seen: map[string]int{}, res: map[string]map[string]string{}}
	fr := c.LRand(7)

	var smu sync.Mutex
	var stale []func()
	wrapServer := func(b psrpc.MessageBus, id string) psrpc.MessageBus {
		return tap(b, id, func(m tapMsg) (int, error) {
			res, ok := m.Msg.(*internal.Response)
			if !ok || !hostile {
				return 1, nil
			}
			if fr.Intn(4) == 0 {
				time.Sleep(fr.Ms(60))
			}
			again := proto.Clone(res).(*internal.Response)
			send := func() { _ = b.Publish(context.Background(), m.Channel, again) }
			switch fr.Intn(5) {
			case 0: // twice
				c.Ev("dup %s", id)
				return 2, nil
			case 1: // again later
				time.AfterFunc(fr.Ms(500), send)
			case 2: // again when all is over, and before later calls
				smu.Lock()
				stale = append(stale, send)
				smu.Unlock()
			}
			return 1, nil
		})
	}
	ids := c.IDs("s", nsrv*len(svcs))
	for si, svc := range svcs {
		for i := 0; i < nsrv; i++ {
			id := ids[si*nsrv+i]
			s := c.Server(wrapServer(n.Endpoint(), id), svc, id)
			for mi, m := range methods {
				for ti, t := range topics {
					k := (mi + ti + c.idx) % 4
					mkind[m+strings.Join(t, ",")] = k
					switch k {
					case 0:
						c03reg[*wrapperspb.StringValue](x, s, id, svc, m, t, k, fr)
					case 1:
						c03reg[*wrapperspb.BytesValue](x, s, id, svc, m, t, k, fr)
					case 2:
						c03reg[*structpb.Struct](x, s, id, svc, m, t, k, fr)
					case 3:
						c03reg[*anypb.Any](x, s, id, svc, m, t, k, fr)
					}
				}
			}
		}
	}
	type clt struct {
		cl  *client.RPCClient
		svc string
		id  string
	}
	var clients []clt
	cids := c.IDs("c", ncl*len(svcs))
	for si, svc := range svcs {
		for i := 0; i < ncl; i++ {
			id := cids[si*ncl+i]
			clients = append(clients, clt{c.Client(n.Endpoint(), svc, id, psrpc.WithClientChannelSize([]int{1, 2, 100}[r.Intn(3)])), svc, id})
		}
	}
	c.Settle()
	okc, failc := 0, 0
	round := func(k int) bool {
		var fs []func()
		for ci, cl := range clients {
			for q := 0; q < ncall; q++ {
				rr := c.NewRand(10000*k + 100*ci + q)
				fs = append(fs, func() {
					m := methods[rr.Intn(len(methods))]
					t := topics[rr.Intn(len(topics))]
					id := fmt.Sprintf("r%d-c%d-q%d", k, ci, q)
					mk := mkind[m+strings.Join(t, ",")]
					req := c03wrap(mk, id, c03payload(rr))
					ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{
						"call": id, "where": cl.svc + "/" + m + "/" + strings.Join(t, ","),
					})
					x.mu.Lock()
					x.sent[id] = c03digest(req)
					x.mu.Unlock()
					before := c03digest(req)
					time.Sleep(time.Duration(rr.Intn(30)) * time.Millisecond)
					timeout := []time.Duration{5 * time.Second, 5 * time.Second, 5 * time.Second, 50 * time.Millisecond}[rr.Intn(4)]
					c.Ev("call %s", id)
					var out []proto.Message
					var errs []error
					multi := m == mMulti
					switch mk {
					case 0:
						out, errs = c03call[*wrapperspb.StringValue](x, cl.cl, m, t, req, ctx, multi, timeout)
					case 1:
						out, errs = c03call[*wrapperspb.BytesValue](x, cl.cl, m, t, req, ctx, multi, timeout)
					case 2:
						out, errs = c03call[*structpb.Struct](x, cl.cl, m, t, req, ctx, multi, timeout)
					case 3:
						out, errs = c03call[*anypb.Any](x, cl.cl, m, t, req, ctx, multi, timeout)
					}
					c.Ev("ret %s %d %v", id, len(out), errs)
					if c03digest(req) != before {
						c.Violate("argument-changed", "call %s changed the caller's request", id)
					}
					x.mu.Lock()
					defer x.mu.Unlock()
					for _, o := range out {
						d := c03digest(o)
						found := false
						for _, want := range x.res[id] {
							found = found || want == d
						}
						if !found {
							key := ""
							if s, ok := o.(*wrapperspb.StringValue); ok {
								key = s.Value[:min(40, len(s.Value))]
							}
							c.Violate("response-of-another", "call %s got %s (%s), its handlers returned %v", id, d, key, x.res[id])
						}
						okc++
					}
					for _, err := range errs {
						failc++
						if timeout > time.Second && code(err) != psrpc.DeadlineExceeded && code(err) != psrpc.Unavailable || timeout > time.Second && !multi {
							c.Violate("call-failed", "call %s %s %v failed: %v (%s)", id, m, t, err, code(err))
						}
					}
				})
			}
		}
		return c.Par(time.Minute, fs...)
	}
	for k := 0; k < 2; k++ {
		if !round(k) {
			c.Violate("hang", "calls did not return\n%s", psrpcStacks())
			return
		}
		smu.Lock()
		old := stale
		stale = nil
		smu.Unlock()
		for _, f := range old {
			f()
		}
	}
	c.Count("responses", okc)
	c.Count("timeouts", failc)
	if okc == 0 {
		c.Trivial()
	}
}
