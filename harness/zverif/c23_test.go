package zverif

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
)

// C23: foreign, corrupt or newer messages are ignored safely.

func init() {
	reg("C23", "noise", 280, 4000, c23noise)
	reg("C23", "mutants", 400, 5000, c23mutants)
	reg("C23", "newer", 400, 5000, c23newer)
	reg("C23", "payload", 500, 6000, c23payload)
	reg("C23", "wire", 500, 5000, c23wire)
	reg("C23", "decode", 600, 6000, c23decode)
}

// c23sys is a running service whose endpoints can be sent raw bytes.
type c23sys struct {
	c    *C
	n    *Net
	svc  string
	ns   int
	raw  bool // through the Redis or NATS connection; otherwise at the reader
	r    *lrand
	base map[string]string

	mu      sync.Mutex
	known   map[string]bool // values peers sent
	lenient bool
	chans   map[string]psrpc.Channel
	pumps   map[string][]chan []byte
	caps    []c23cap
	runs    map[string]int
	done    chan struct{}
	rewrite func(ch psrpc.Channel, side string, body []byte) []byte

	servers []*server.RPCServer
	cls     []*client.RPCClient
	subs    []*c23sub
	seq     int
}

type c23cap struct {
	ch   psrpc.Channel
	body []byte
}

type c23sub struct {
	sub  bus.Subscription[str]
	mu   sync.Mutex
	got  []string
	done chan struct{}
}

func newC23(c *C, kind string, ns, ncl int, rewrite func(ch psrpc.Channel, side string, body []byte) []byte, sopts ...psrpc.ServerOption) *c23sys {
	x := &c23sys{c: c, r: c.LRand(1), known: map[string]bool{}, chans: map[string]psrpc.Channel{}, pumps: map[string][]chan []byte{}, runs: map[string]int{}, done: make(chan struct{}), ns: ns, rewrite: rewrite}
	x.base = c.LeakBase()
	x.n = c.NewNet(kind)
	x.svc = c.SvcName()
	x.raw = kind != kLocal && x.r.Intn(2) == 0
	for i := 0; i < ns; i++ {
		id := fmt.Sprint("s", i)
		s := c.Server(x.endpoint(id), x.svc, id, sopts...)
		x.servers = append(x.servers, s)
		for _, m := range x.methods() {
			if m == mAff {
				must(server.RegisterHandler(s, m, nil, x.handler(id), func(ctx context.Context, req str) float32 { return 0.5 }))
			} else {
				must(server.RegisterHandler(s, m, nil, x.handler(id), nil))
			}
		}
		must(server.RegisterHandler(s, mMulti, nil, x.handler(id), nil))
		for _, m := range x.streams() {
			var aff server.StreamAffinityFunc
			if m == mStreamAff {
				aff = func(ctx context.Context) float32 { return 0.5 }
			}
			must(server.RegisterStreamHandler(s, m, nil, x.stream(id), aff))
		}
	}
	for i := 0; i < ncl; i++ {
		x.cls = append(x.cls, c.Client(x.endpoint("c"), x.svc, ""))
	}
	for i := 0; i < 2; i++ {
		sub, err := client.Join[str](context.Background(), x.cls[i%ncl], mSub, nil)
		must(err)
		q := &c23sub{sub: sub, done: make(chan struct{})}
		x.subs = append(x.subs, q)
		go func() {
			defer close(q.done)
			for m := range q.sub.Channel() {
				x.value("subscription", m.Value)
				q.mu.Lock()
				q.got = append(q.got, m.Value)
				q.mu.Unlock()
			}
		}()
	}
	return x
}

func (x *c23sys) methods() []string {
	if x.ns == 1 {
		return []string{mNormal, mAff, mQueueNC, mSingle}
	}
	return []string{mNormal, mAff, mQueueNC}
}

func (x *c23sys) streams() []string {
	if x.ns == 1 {
		return []string{mStream, mStreamAff, mStreamNC}
	}
	return []string{mStream, mStreamAff}
}

// value reports a value nobody sent.
func (x *c23sys) value(where, v string) {
	x.mu.Lock()
	ok := x.known[v]
	x.mu.Unlock()
	if !ok {
		x.c.Violate("phantom", "%s got %q, which no peer sent", where, v)
	}
}

func (x *c23sys) sends(v string) {
	x.mu.Lock()
	x.known[v] = true
	x.mu.Unlock()
}

func (x *c23sys) handler(id string) strHandler {
	return func(ctx context.Context, req str) (str, error) {
		x.value("handler at "+id, req.Value)
		x.mu.Lock()
		x.runs[req.Value]++
		lenient := x.lenient
		x.known[id+":"+req.Value] = true
		x.mu.Unlock()
		h := metadata.IncomingHeader(ctx)
		if !lenient && (h == nil || h.Metadata["call"] != req.Value || h.Metadata["k\u00e9"] != "") {
			x.c.Violate("metadata", "handler of %q got %+v", req.Value, h)
		}
		if strings.Contains(req.Value, "|fail") {
			return nil, psrpc.NewError(psrpc.NotFound, errors.New("none "+req.Value), S("detail "+req.Value))
		}
		if strings.Contains(req.Value, "|badres") {
			return S("\xff" + req.Value), nil
		}
		return S(id + ":" + req.Value), nil
	}
}

func (x *c23sys) stream(id string) func(psrpc.ServerStream[str, str]) error {
	return func(ss psrpc.ServerStream[str, str]) error {
		for m := range ss.Channel() {
			x.value("stream at "+id, m.Value)
			x.sends(id + ":" + m.Value)
			if err := ss.Send(S(id + ":" + m.Value)); err != nil {
				return err
			}
		}
		return nil
	}
}

func (x *c23sys) endpoint(side string) psrpc.MessageBus {
	return testutils.NewTestBus(x.n.Endpoint(), testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
		x.mu.Lock()
		x.chans[ch.Legacy] = ch
		x.mu.Unlock()
		see := func(b []byte) []byte {
			x.mu.Lock()
			if len(x.caps) < 400 {
				x.caps = append(x.caps, c23cap{ch, append([]byte(nil), b...)})
			}
			x.mu.Unlock()
			if x.rewrite != nil {
				b = x.rewrite(ch, side, b)
			}
			return b
		}
		if x.raw {
			return func() ([]byte, bool) {
				b, ok := next()
				if ok {
					b = see(b)
				}
				return b, ok
			}
		}
		in := make(chan []byte, 4096)
		x.mu.Lock()
		x.pumps[ch.Legacy] = append(x.pumps[ch.Legacy], in)
		x.mu.Unlock()
		real := make(chan []byte)
		go func() {
			defer close(real)
			for {
				b, ok := next()
				if !ok {
					return
				}
				select {
				case real <- b:
				case <-x.done:
					return
				}
			}
		}()
		return func() ([]byte, bool) {
			select {
			case b := <-in:
				return b, true
			case b, ok := <-real:
				if ok {
					b = see(b)
				}
				return b, ok
			}
		}
	}))
}

// inject hands bytes to whoever is subscribed to the channel.
func (x *c23sys) inject(ch psrpc.Channel, body []byte) {
	if x.raw {
		switch x.n.kind {
		case kRedis:
			x.n.redis.inject(ch.Legacy, string(body))
		case kNats:
			x.n.nats.inject(natsSubject(ch), body)
		}
		return
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, in := range x.pumps[ch.Legacy] {
		select {
		case in <- append([]byte(nil), body...):
		default:
		}
	}
}

func natsSubject(ch psrpc.Channel) string {
	if ch.Server == "" {
		return ch.Legacy
	}
	return ch.Server
}

func (x *c23sys) channels() (out []psrpc.Channel) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, ch := range x.chans {
		out = append(out, ch)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Legacy < out[j].Legacy })
	return out
}

func (x *c23sys) capture(r *lrand) (c23cap, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.caps) == 0 {
		return c23cap{}, false
	}
	return x.caps[r.Intn(len(x.caps))], true
}

// carries is the type of message the channel is for.
func (x *c23sys) carries(ch psrpc.Channel) proto.Message {
	f := strings.Split(ch.Legacy, "|")
	switch f[len(f)-1] {
	case "REQ":
		if len(f) > 1 && (f[1] == mSub || f[1] == mQSub) {
			return &wrapperspb.StringValue{}
		}
		return &internal.Request{}
	case "RES":
		return &internal.Response{}
	case "CLAIM":
		return &internal.ClaimRequest{}
	case "RCLAIM":
		return &internal.ClaimResponse{}
	case "STR":
		return &internal.Stream{}
	}
	panic("unknown channel " + ch.Legacy)
}

// c23env is the envelope of a message on a channel.
func c23env(ch psrpc.Channel, typeURL string, value []byte) []byte {
	var b []byte
	if typeURL != "" {
		b = protowire.AppendBytes(protowire.AppendTag(b, 1, protowire.BytesType), []byte(typeURL))
	}
	if len(value) > 0 {
		b = protowire.AppendBytes(protowire.AppendTag(b, 2, protowire.BytesType), value)
	}
	if ch.Local != "" {
		b = protowire.AppendBytes(protowire.AppendTag(b, 3, protowire.BytesType), []byte(ch.Local))
	}
	return b
}

func c23msg(ch psrpc.Channel, m proto.Message) []byte {
	v, err := proto.Marshal(m)
	must(err)
	return c23env(ch, "type.googleapis.com/"+string(m.ProtoReflect().Descriptor().FullName()), v)
}

// traffic is ordinary use; unless lenient all of it has to work exactly.
func (x *c23sys) traffic(label string, n int, spread time.Duration) (fs []func()) {
	r := x.r
	c := x.c
	for k := 0; k < n; k++ {
		cl := x.cls[r.Intn(len(x.cls))]
		wait := time.Duration(r.Intn(int(spread/time.Millisecond)+1)) * time.Millisecond
		x.seq++
		val := fmt.Sprintf("%s-%d-%s", label, x.seq, strings.Repeat("v", r.Intn(3)*r.Intn(60)))
		kind := r.Intn(8)
		if kind == 0 {
			val += "|fail"
		}
		x.sends(val)
		ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": val, "other": "x" + val})
		ms := x.methods()
		method := ms[r.Intn(len(ms))]
		switch {
		case kind < 4:
			fs = append(fs, func() {
				time.Sleep(wait)
				t0 := time.Now()
				res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(20*time.Second))
				x.judge("rpc "+method, val, res, err, time.Since(t0))
			})
		case kind == 4:
			fs = append(fs, func() {
				time.Sleep(wait)
				t0 := time.Now()
				ch, err := callMulti(ctx, cl, mMulti, nil, val, psrpc.WithRequestTimeout(3*time.Second))
				if err != nil {
					x.fail("multi %s failed: %v", val, err)
					return
				}
				got := map[string]bool{}
				for m := range ch {
					if m.Err != nil {
						x.fail("multi %s: %v", val, m.Err)
						continue
					}
					x.value("multi-RPC "+val, m.Result.Value)
					got[m.Result.Value] = true
				}
				for i := 0; i < x.ns; i++ {
					if !got[fmt.Sprintf("s%d:%s", i, val)] {
						x.fail("multi %s got no answer of s%d: %v", val, i, got)
					}
				}
				if d := time.Since(t0); d > 3*time.Second+c.Slack() {
					c.Violate("late", "multi %s took %v", val, d)
				}
			})
		case kind < 7:
			ss := x.streams()
			method := ss[r.Intn(len(ss))]
			cnt := 1 + r.Intn(5)
			gap := r.Ms(30)
			fs = append(fs, func() {
				time.Sleep(wait)
				st, err := client.OpenStream[str, str](ctx, cl, method, nil, psrpc.WithRequestTimeout(10*time.Second))
				if err != nil {
					x.fail("opening stream %s: %v", val, err)
					return
				}
				got := make(chan []string, 1)
				go func() {
					var l []string
					for m := range st.Channel() {
						x.value("stream of client "+val, m.Value)
						l = append(l, m.Value)
					}
					got <- l
				}()
				var want []string
				for i := 0; i < cnt; i++ {
					v := fmt.Sprintf("%s.%d", val, i)
					x.sends(v)
					want = append(want, v)
					if err := st.Send(S(v)); err != nil {
						x.fail("sending %s: %v", v, err)
						break
					}
					time.Sleep(gap)
				}
				time.Sleep(c.Slack())
				if err := st.Close(nil); err != nil {
					x.fail("closing stream %s: %v", val, err)
				}
				select {
				case l := <-got:
					for i := range l {
						if _, after, ok := strings.Cut(l[i], ":"); ok {
							l[i] = after
						}
					}
					if fmt.Sprint(l) != fmt.Sprint(want) {
						x.fail("stream %s got back %q instead of %q", val, l, want)
					}
				case <-time.After(15 * time.Second):
					c.Violate("hang", "channel of the closed stream %s stays open\n%s", val, psrpcStacks())
				}
				c.Count("stream_messages", cnt)
			})
		default:
			s := x.servers[r.Intn(len(x.servers))]
			fs = append(fs, func() {
				time.Sleep(wait)
				starts := make([]int, len(x.subs))
				if err := s.Publish(context.Background(), mSub, nil, S(val)); err != nil {
					x.fail("publishing: %v", err)
					return
				}
				time.Sleep(2*c.Slack() + 200*time.Millisecond)
				for i, q := range x.subs {
					q.mu.Lock()
					k := 0
					for _, g := range q.got[starts[i]:] {
						if g == val {
							k++
						}
					}
					q.mu.Unlock()
					if k != 1 {
						x.fail("subscriber %d got %s %d times", i, val, k)
					}
				}
				c.Count("published", 1)
			})
		}
	}
	return fs
}

func (x *c23sys) fail(format string, a ...any) {
	x.mu.Lock()
	l := x.lenient
	x.mu.Unlock()
	if l {
		x.c.Count("failed_by_valid_looking_mutants", 1)
		return
	}
	x.c.Violate("affected", format, a...)
}

func (x *c23sys) judge(what, val, res string, err error, d time.Duration) {
	c := x.c
	limit := 2*time.Second + 3*c.Slack()
	x.mu.Lock()
	lenient := x.lenient
	runs := x.runs[val]
	x.mu.Unlock()
	if lenient {
		limit = 20*time.Second + 3*c.Slack()
	}
	if d > limit {
		c.Violate("late", "%s %s took %v", what, val, d)
	}
	if err == nil {
		x.value(what, res)
	}
	if lenient {
		if err != nil {
			c.Count("failed_by_valid_looking_mutants", 1)
		}
		return
	}
	switch {
	case strings.Contains(val, "|fail"):
		var e psrpc.Error
		if !errors.As(err, &e) || e.Code() != psrpc.NotFound || e.Error() != "none "+val {
			c.Violate("affected", "%s %s gave %q, %v", what, val, res, err)
		} else if dt := e.Details(); len(dt) != 1 {
			c.Violate("affected", "%s %s: details %v", what, val, dt)
		} else if s, ok := dt[0].(*wrapperspb.StringValue); !ok || s.Value != "detail "+val {
			c.Violate("affected", "%s %s: details %v", what, val, dt)
		}
	default:
		if err != nil || len(res) < 3 || res[3:] != val {
			c.Violate("affected", "%s %s gave %q, %v", what, val, res, err)
		}
	}
	if runs != 1 {
		c.Violate("affected", "%s %s was executed %d times", what, val, runs)
	}
	c.Ev("%s %d %v", what, len(val), code(err))
}

// finish: afterwards all of the system works and can be closed.
func (x *c23sys) finish() {
	c := x.c
	x.mu.Lock()
	x.lenient = false
	x.mu.Unlock()
	if !c.Par(2*time.Minute, x.traffic("after", 8, 200*time.Millisecond)...) {
		c.Violate("hang", "calls hang afterwards\n%s", psrpcStacks())
		return
	}
	var fs []func()
	for _, m := range x.methods() {
		for _, cl := range x.cls {
			x.seq++
			val := fmt.Sprintf("probe-%d", x.seq)
			x.sends(val)
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": val})
			fs = append(fs, func() {
				t0 := time.Now()
				res, err := call(ctx, cl, m, nil, val)
				x.judge("probe "+m, val, res, err, time.Since(t0))
			})
		}
	}
	if !c.Par(2*time.Minute, fs...) {
		c.Violate("hang", "probes hang afterwards\n%s", psrpcStacks())
		return
	}
	x.close()
}

func (x *c23sys) close() {
	c := x.c
	for _, q := range x.subs {
		if !c.Within(5*time.Second, func() { q.sub.Close() }) {
			c.Violate("close", "closing a subscription does not return\n%s", psrpcStacks())
			return
		}
	}
	for _, s := range x.servers {
		if !c.Within(15*time.Second, func() { s.Close(false) }) {
			c.Violate("close", "graceful close does not return\n%s", psrpcStacks())
			return
		}
	}
	for _, cl := range x.cls {
		cl.Close()
	}
	close(x.done)
	c.Settle()
	for _, q := range x.subs {
		select {
		case <-q.done:
		default:
			c.Violate("close", "the channel of a closed subscription stays open")
			return
		}
	}
	c.LeakCheck(x.base, "goroutine-left")
}

func (x *c23sys) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.r.Intn(256))
	}
	return b
}

func (x *c23sys) anyCapture(pred func(m proto.Message) bool) (proto.Message, bool) {
	for i := 0; i < 20; i++ {
		cp, ok := x.capture(x.r)
		if !ok {
			return nil, false
		}
		m, _ := decodeEnvelope(cp.body)
		if m != nil && pred(m) {
			return m, true
		}
	}
	return nil, false
}

// noiseFor is a message without any effect on what it is injected into.
func (x *c23sys) noiseFor(ch psrpc.Channel) (body []byte, what string) {
	r := x.r
	want := x.carries(ch)
	wantName := string(want.ProtoReflect().Descriptor().FullName())
	harmless := func(b []byte) bool {
		m := c23means(b)
		if m == nil {
			return true
		}
		if string(m.ProtoReflect().Descriptor().FullName()) != wantName {
			return true
		}
		switch m := m.(type) {
		case interface{ GetRequestId() string }:
			if s, ok := m.(*internal.Stream); ok {
				return s.StreamId == ""
			}
			if q, ok := m.(*internal.Request); ok && q.Expiry != 0 {
				return false
			}
			return m.GetRequestId() == ""
		}
		return false
	}
	evil := func() string { return fmt.Sprint("evil-", r.Intn(1000)) }
	pays, _ := proto.Marshal(S(evil()))
	fresh := fmt.Sprint("REQ_none", r.Intn(100))
	now := time.Now().UnixNano()
	past := []int64{0, -1, math.MinInt64, now - 1, now - int64(time.Hour), 1}[r.Intn(6)]
	for try := 0; try < 10; try++ {
		switch r.Intn(14) {
		case 0:
			body, what = x.bytes(r.Intn(80)), "garbage"
		case 1:
			body, what = nil, "empty"
		case 2:
			cp, ok := x.capture(r)
			if !ok || len(cp.body) == 0 {
				continue
			}
			body, what = cp.body[:r.Intn(len(cp.body))], "truncated"
		case 3:
			cp, ok := x.capture(r)
			if !ok {
				continue
			}
			m, _ := decodeEnvelope(cp.body)
			if m == nil {
				continue
			}
			body, what = c23msg(ch, m), "other"
		case 4:
			u := []string{"type.googleapis.com/foo.Bar", "", "/", "type.googleapis.com/", "type.googleapis.com/internal.Nope", "\xff\xfe/x", "type.googleapis.com/internal.Request/", strings.Repeat("a/", 300)}[r.Intn(8)]
			body, what = c23env(ch, u, x.bytes(r.Intn(20))), "type"
		case 5:
			m := []proto.Message{&emptypb.Empty{}, durationpb.New(5), &descriptorpb.FileDescriptorProto{Name: proto.String("x")}, &anypb.Any{TypeUrl: "x"}, &internal.Channel{Channel: "x"}, &internal.Msg{Value: []byte("x")}, wrapperspb.Bytes([]byte("x")), &internal.StreamAck{}}[r.Intn(8)]
			body, what = c23msg(ch, m), "foreign"
		case 6, 7: // of the right type, for requests and streams which do not exist or are over
			var m proto.Message
			switch want.(type) {
			case *internal.Request:
				m = &internal.Request{RequestId: fresh, ClientId: x.cls[0].ID, Expiry: past, RawRequest: pays}
			case *internal.Response:
				m = &internal.Response{RequestId: fresh, ServerId: "s0", RawResponse: pays, Error: []string{"", "bad"}[r.Intn(2)]}
			case *internal.ClaimRequest:
				m = &internal.ClaimRequest{RequestId: fresh, ServerId: "s0", Affinity: float32(math.NaN())}
			case *internal.ClaimResponse:
				m = &internal.ClaimResponse{RequestId: fresh, ServerId: "s0"}
			case *internal.Stream:
				s := &internal.Stream{StreamId: fresh, RequestId: fresh, SentAt: now, Expiry: now + int64(time.Hour)}
				switch r.Intn(6) {
				case 0:
					s.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: pays}}
				case 1:
					s.Body = &internal.Stream_Close{Close: &internal.StreamClose{Error: "closed by evil"}}
				case 2:
					s.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
				case 3:
				case 4:
					s.Body = &internal.Stream_Message{}
				case 5:
					s.Expiry = past
					s.Body = &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: x.cls[0].ID}}
				}
				m = s
			default:
				continue
			}
			body, what = c23msg(ch, m), "unknown-id"
		case 8:
			bad := append([]byte{0x0a, 0x7f}, x.bytes(r.Intn(20))...)
			body, what = c23env(ch, "type.googleapis.com/"+wantName, bad), "undecodable"
		case 9: // deeply nested groups, huge lengths, reserved wire types
			switch r.Intn(4) {
			case 0:
				body = []byte(strings.Repeat("\x0b", 1+r.Intn(30000)))
			case 1:
				body = []byte{0x12, 0xff, 0xff, 0xff, 0xff, 0x7f, 1}
			case 2:
				body = append(c23env(ch, "type.googleapis.com/"+wantName, nil), 0x0e, 0x0f, 1)
			case 3:
				body = []byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}
			}
			what = "hostile-encoding"
		case 10, 11: // for a stream that may be running
			if _, ok := want.(*internal.Stream); !ok {
				continue
			}
			m, ok := x.anyCapture(func(m proto.Message) bool { _, ok := m.(*internal.Stream); return ok })
			if !ok {
				continue
			}
			s := &internal.Stream{StreamId: m.(*internal.Stream).StreamId, RequestId: fresh, SentAt: now, Expiry: now + int64(time.Hour)}
			switch r.Intn(4) {
			case 0:
				s.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
			case 1:
			case 2:
				s.Expiry = past
				s.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: pays}}
			case 3:
				s.Expiry = past
				s.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: []byte{0xff}}}
			}
			return c23msg(ch, s), "running-stream"
		case 12: // for another member of the NATS subject
			if x.n.kind != kNats || !x.raw || ch.Local == "" {
				continue
			}
			spoof := ch
			spoof.Local = []string{"Nope.REQ", "Normal", "Normal.", ".REQ", "normal.REQ", "Normal.REQ ", "\x00"}[r.Intn(7)]
			body = c23msg(spoof, &internal.Request{RequestId: fresh, ClientId: x.cls[0].ID, Expiry: now + int64(time.Hour), RawRequest: pays})
			return body, "spoofed-channel"
		case 13: // invalid UTF-8 in a text field
			if _, ok := want.(*internal.Request); !ok {
				continue
			}
			v := protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), []byte("\xff\xfe"))
			v = protowire.AppendVarint(protowire.AppendTag(v, 4, protowire.VarintType), uint64(now+int64(time.Hour)))
			v = protowire.AppendBytes(protowire.AppendTag(v, 8, protowire.BytesType), pays)
			body, what = c23env(ch, "type.googleapis.com/internal.Request", v), "utf8"
		}
		if what == "unknown-id" || harmless(body) {
			return body, what
		}
	}
	return nil, "empty"
}

// c23noise: messages that mean nothing arrive on all channels while the service is in use.
func c23noise(c *C) {
	r := c.LRand(0)
	x := newC23(c, kinds[r.Intn(3)], 1+r.Intn(2), 1+r.Intn(2), nil)
	c.Settle()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	burst := 1 + r.Intn(6)
	gap := r.Intn(8)
	for k := 1 + r.Intn(2); k > 0; k-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				chs := x.channels()
				for i := 0; i < burst; i++ {
					ch := chs[x.r.Intn(len(chs))]
					b, what := x.noiseFor(ch)
					x.inject(ch, b)
					c.Count("noise_"+what, 1)
				}
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+x.r.Intn(gap+1)) * time.Millisecond):
				}
			}
		}()
	}
	fs := x.traffic("t", 4+r.Intn(8), 400*time.Millisecond)
	c.Shape("ns=%d raw=%v n=%d burst=%d", x.ns, x.raw, len(fs), burst)
	ok := c.Par(2*time.Minute, fs...)
	close(stop)
	wg.Wait()
	if !ok {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	time.Sleep(c.Slack())
	x.finish()
}

// c23means is what any reader could take the bytes for.
func c23means(b []byte) proto.Message {
	a := &anypb.Any{}
	if (proto.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(b, a) != nil {
		return nil
	}
	m, err := a.UnmarshalNew()
	if err != nil {
		return nil
	}
	return m
}

// forge records the values a mutant carries as sent.
func (x *c23sys) forge(body []byte) {
	m := c23means(body)
	var raw []byte
	switch m := m.(type) {
	case *internal.Request:
		raw = m.RawRequest
	case *internal.Response:
		raw = m.RawResponse
	case *internal.Stream:
		raw = m.GetMessage().GetRawMessage()
	case *wrapperspb.StringValue:
		x.sends(m.Value)
		return
	}
	v := &wrapperspb.StringValue{}
	if proto.Unmarshal(raw, v) == nil {
		x.sends(v.Value)
	}
	// an empty payload is an empty value
	if m != nil {
		x.sends("")
	}
}

// mutant is a message made from ordinary traffic; it may mean something.
func (x *c23sys) mutant(chs []psrpc.Channel) (psrpc.Channel, []byte, string) {
	r := x.r
	cp, ok := x.capture(r)
	if !ok {
		return chs[0], nil, "none"
	}
	ch := cp.ch
	body := append([]byte(nil), cp.body...)
	what := ""
	switch r.Intn(9) {
	case 0:
		what = "flip"
		for k := 1 + r.Intn(3); k > 0 && len(body) > 0; k-- {
			body[r.Intn(len(body))] ^= 1 << r.Intn(8)
		}
	case 1:
		what = "bytes"
		for k := 1 + r.Intn(4); k > 0 && len(body) > 0; k-- {
			body[r.Intn(len(body))] = byte(r.Intn(256))
		}
	case 2:
		what = "cut"
		i := r.Intn(len(body) + 1)
		j := i + r.Intn(len(body)-i+1)
		body = append(body[:i], body[j:]...)
	case 3:
		what = "insert"
		i := r.Intn(len(body) + 1)
		body = append(append(append([]byte(nil), body[:i]...), x.bytes(1+r.Intn(8))...), body[i:]...)
	case 4:
		what = "splice"
		if o, ok := x.capture(r); ok {
			body = append(body[:r.Intn(len(body)+1)], o.body[r.Intn(len(o.body)+1):]...)
		}
	case 5:
		what = "replay"
	case 6:
		what = "moved"
		ch = chs[r.Intn(len(chs))]
		if m := c23means(body); m != nil {
			body = c23msg(ch, m)
		}
	case 7, 8: // fields of the decoded message are changed
		what = "fields"
		m := c23means(body)
		if m == nil {
			return chs[0], nil, "none"
		}
		x.scramble(m.ProtoReflect())
		body = c23msg(ch, m)
	}
	// neither requests that would stay for long nor clients without an end
	if m := c23means(body); m != nil {
		lim := time.Now().Add(20 * time.Second).UnixNano()
		switch m := m.(type) {
		case *internal.Request:
			if m.Expiry > lim {
				return chs[0], nil, "none"
			}
		case *internal.Stream:
			if m.Expiry > lim {
				return chs[0], nil, "none"
			}
		}
	}
	return ch, body, what
}

func (x *c23sys) scramble(m protoreflect.Message) {
	r := x.r
	fds := m.Descriptor().Fields()
	if fds.Len() == 0 {
		return
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		fd := fds.Get(r.Intn(fds.Len()))
		if r.Intn(3) == 0 {
			m.Clear(fd)
			continue
		}
		if fd.IsMap() || fd.IsList() {
			m.Clear(fd)
			continue
		}
		switch fd.Kind() {
		case protoreflect.StringKind:
			v := []string{"", "x", "\u2028", strings.Repeat("y", 2000), "s0", "s1", "|", "a b", "*", ">", "."}[r.Intn(11)]
			if o, ok := x.anyCapture(func(proto.Message) bool { return true }); ok && r.Intn(2) == 0 { // another message's
				if f := o.ProtoReflect().Descriptor().Fields().ByName(fd.Name()); f != nil && f.Kind() == fd.Kind() && !f.IsList() && !f.IsMap() {
					v = o.ProtoReflect().Get(f).String()
				}
			}
			m.Set(fd, protoreflect.ValueOfString(v))
		case protoreflect.BytesKind:
			m.Set(fd, protoreflect.ValueOfBytes(x.bytes(r.Intn(6))))
		case protoreflect.Int64Kind:
			now := time.Now().UnixNano()
			m.Set(fd, protoreflect.ValueOfInt64([]int64{0, -1, math.MinInt64, math.MaxInt64, now, now + int64(time.Second), now - int64(time.Second), now + 1}[r.Intn(8)]))
		case protoreflect.FloatKind:
			m.Set(fd, protoreflect.ValueOfFloat32([]float32{0, -1, 1, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32}[r.Intn(7)]))
		case protoreflect.BoolKind:
			m.Set(fd, protoreflect.ValueOfBool(!m.Get(fd).Bool()))
		case protoreflect.MessageKind:
			if r.Intn(2) == 0 {
				m.Set(fd, m.NewField(fd))
			} else if m.Has(fd) {
				x.scramble(m.Mutable(fd).Message())
			}
		}
	}
}

// c23mutants: mutated and replayed traffic arrives while the service is in use. It may
// disturb what it pretends to belong to, but nothing else, and nothing afterwards.
func c23mutants(c *C) {
	r := c.LRand(0)
	x := newC23(c, kinds[r.Intn(3)], 1+r.Intn(2), 1+r.Intn(2), nil)
	c.Settle()
	// something to mutate
	if !c.Par(2*time.Minute, x.traffic("w", 6, 100*time.Millisecond)...) {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	x.mu.Lock()
	x.lenient = true
	x.mu.Unlock()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	gap := r.Intn(12)
	for k := 1 + r.Intn(2); k > 0; k-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 300; n++ {
				ch, b, what := x.mutant(x.channels())
				if what != "none" {
					x.forge(b)
					x.inject(ch, b)
					if m := c23means(b); m != nil {
						c.Count("decodable_mutants", 1)
					} else {
						c.Count("undecodable_mutants", 1)
					}
				}
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+x.r.Intn(gap+1)) * time.Millisecond):
				}
			}
		}()
	}
	fs := x.traffic("t", 4+r.Intn(8), 400*time.Millisecond)
	c.Shape("ns=%d raw=%v n=%d gap=%d", x.ns, x.raw, len(fs), gap)
	ok := c.Par(2*time.Minute, fs...)
	close(stop)
	wg.Wait()
	if !ok {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	time.Sleep(21*time.Second + c.Slack())
	x.finish()
}

// ---- newer peers ----

type c23field struct {
	num protowire.Number
	typ protowire.Type
	raw []byte // with the tag
	val []byte // of BytesType
}

func c23parse(b []byte) (out []c23field, ok bool) {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, false
		}
		m := protowire.ConsumeFieldValue(num, typ, b[n:])
		if m < 0 {
			return nil, false
		}
		f := c23field{num: num, typ: typ, raw: b[:n+m]}
		if typ == protowire.BytesType {
			f.val, _ = protowire.ConsumeBytes(b[n:])
		}
		out = append(out, f)
		b = b[n+m:]
	}
	return out, true
}

// longVarint is a valid encoding that is longer than needed.
func longVarint(v uint64, extra int) []byte {
	b := protowire.AppendVarint(nil, v)
	for ; extra > 0 && len(b) < 9; extra-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func (x *c23sys) unknownField() []byte {
	r := x.r
	num := protowire.Number([]int{9 + 91, 1000 + r.Intn(1000), 15000, 18999, 20000 + r.Intn(1000), 536870911}[r.Intn(6)])
	var b []byte
	switch r.Intn(5) {
	case 0:
		b = protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), uint64(r.Intn(1<<30)))
	case 1:
		b = protowire.AppendFixed32(protowire.AppendTag(b, num, protowire.Fixed32Type), uint32(r.Intn(1<<30)))
	case 2:
		b = protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), uint64(r.Intn(1<<30)))
	case 3:
		b = protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), x.bytes(r.Intn(30)))
	case 4:
		b = protowire.AppendTag(b, num, protowire.StartGroupType)
		b = protowire.AppendVarint(protowire.AppendTag(b, 1, protowire.VarintType), 7)
		b = protowire.AppendTag(b, num, protowire.EndGroupType)
	}
	return b
}

// renew encodes a message as a peer with more fields and another encoder might. prob is in percent.
func (x *c23sys) renew(b []byte, md protoreflect.MessageDescriptor, prob int) []byte {
	r := x.r
	fs, ok := c23parse(b)
	if !ok {
		return b
	}
	type group struct{ raws [][]byte }
	groups := map[protowire.Number]*group{}
	var order []protowire.Number
	for _, f := range fs {
		fd := md.Fields().ByNumber(f.num)
		g := groups[f.num]
		if g == nil {
			g = &group{}
			groups[f.num] = g
			order = append(order, f.num)
		}
		raw := f.raw
		if f.typ == protowire.BytesType && fd != nil {
			val := f.val
			switch {
			case fd.IsMap():
			case fd.Kind() == protoreflect.MessageKind:
				val = x.renew(val, fd.Message(), prob)
			case md.FullName() == "internal.Msg" && fd.Name() == "value":
				if m, _ := decodeEnvelope(b); m != nil {
					val = x.renew(val, m.ProtoReflect().Descriptor(), prob)
				}
			case strings.HasPrefix(string(fd.Name()), "raw_"):
				val = x.renew(val, (&wrapperspb.StringValue{}).ProtoReflect().Descriptor(), prob)
			}
			extra := 0
			if r.Intn(100) < prob {
				extra = r.Intn(4)
			}
			raw = longVarint(protowire.EncodeTag(f.num, f.typ), extra)
			raw = append(raw, longVarint(uint64(len(val)), extra)...)
			raw = append(raw, val...)
		} else if f.typ == protowire.VarintType && r.Intn(100) < prob {
			_, n := protowire.ConsumeVarint(f.raw)
			v, _ := protowire.ConsumeVarint(f.raw[n:])
			raw = append(longVarint(protowire.EncodeTag(f.num, f.typ), r.Intn(4)), longVarint(v, r.Intn(8))...)
		}
		// the last one counts
		if fd != nil && !fd.IsList() && !fd.IsMap() && fd.ContainingOneof() == nil && fd.Kind() != protoreflect.MessageKind && r.Intn(100) < prob/2 {
			tag := protowire.AppendTag(nil, f.num, f.typ)
			switch f.typ {
			case protowire.BytesType:
				g.raws = append(g.raws, protowire.AppendBytes(tag, []byte("decoy")))
			case protowire.VarintType:
				g.raws = append(g.raws, protowire.AppendVarint(tag, 1))
			}
		}
		g.raws = append(g.raws, raw)
	}
	var out [][]byte
	// fields in another order; those of a oneof only occur once
	if r.Intn(100) < prob {
		for i := len(order) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, num := range order {
		out = append(out, groups[num].raws...)
	}
	for r.Intn(100) < prob {
		i := r.Intn(len(out) + 1)
		out = append(out[:i], append([][]byte{x.unknownField()}, out[i:]...)...)
	}
	var res []byte
	for _, raw := range out {
		res = append(res, raw...)
	}
	return res
}

// c23newer: all traffic is encoded as a newer peer might.
func c23newer(c *C) {
	r := c.LRand(0)
	prob := []int{20, 50, 80}[r.Intn(3)]
	kind := kinds[r.Intn(3)]
	atServer := kind != kLocal && r.Intn(2) == 0
	md := (&internal.Msg{}).ProtoReflect().Descriptor()
	var x *c23sys
	renew := func(b []byte) []byte {
		c.Count("rewritten", 1)
		return x.renew(b, md, prob)
	}
	var rw func(ch psrpc.Channel, side string, body []byte) []byte
	if !atServer {
		rw = func(ch psrpc.Channel, side string, body []byte) []byte {
			if x == nil {
				return body
			}
			return renew(body)
		}
	}
	x = newC23(c, kind, 1+r.Intn(2), 1+r.Intn(2), rw)
	if atServer {
		tap := func(ch string, payload []byte) []byte {
			if strings.Contains(ch, x.svc) {
				return renew(payload)
			}
			return payload
		}
		if kind == kRedis {
			x.n.redis.mu.Lock()
			x.n.redis.tap = tap
			x.n.redis.mu.Unlock()
			defer func() { x.n.redis.mu.Lock(); x.n.redis.tap = nil; x.n.redis.mu.Unlock() }()
		} else {
			x.n.nats.mu.Lock()
			x.n.nats.tap = tap
			x.n.nats.mu.Unlock()
			defer func() { x.n.nats.mu.Lock(); x.n.nats.tap = nil; x.n.nats.mu.Unlock() }()
		}
	}
	c.Settle()
	fs := x.traffic("t", 6+r.Intn(8), 300*time.Millisecond)
	c.Shape("ns=%d raw=%v n=%d at=%v", x.ns, x.raw, len(fs), atServer)
	if !c.Par(2*time.Minute, fs...) {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	x.finish()
}

// c23decode hands bytes to a typed subscription of every internal and foreign type:
// exactly the valid messages of its type come out.
func c23decode(c *C) {
	r := c.LRand(0)
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	x := &c23sys{c: c, r: c.LRand(1), n: n, svc: svc}
	ch := psrpc.Channel{Legacy: svc + "|Sub|REQ", Server: "SRV." + svc, Local: "Sub.REQ"}
	base := c.LeakBase()
	ctx := context.Background()
	var mu sync.Mutex
	type got struct{ name, val string }
	var gots []got
	var want []got
	add := func(name string, m proto.Message) {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		must(err)
		mu.Lock()
		gots = append(gots, got{name, string(b)})
		mu.Unlock()
	}
	var inj []chan []byte
	wrap := func(q bool) psrpc.MessageBus {
		return testutils.NewTestBus(n.Endpoint(), testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
			if n.kind != kLocal {
				return next
			}
			in := make(chan []byte, 1000)
			inj = append(inj, in)
			return func() ([]byte, bool) { b, ok := <-in; return b, ok }
		}))
	}
	size := []int{1, 4, 100}[r.Intn(3)]
	queue := r.Intn(3) == 0
	var closers []func()
	c23sub1[*internal.Request](ctx, wrap(queue), ch, size, queue, add, &closers)
	if !queue {
		c23sub1[*internal.Stream](ctx, wrap(queue), ch, size, queue, add, &closers)
		c23sub1[*wrapperspb.StringValue](ctx, wrap(queue), ch, size, queue, add, &closers)
		c23sub1[*internal.Response](ctx, wrap(queue), ch, size, queue, add, &closers)
		c23sub1[proto.Message](ctx, wrap(queue), ch, size, queue, add, &closers)
	}
	if n.kind != kLocal {
		c.Settle()
	}
	u := nextUniqSync()
	send := func(b []byte) {
		switch n.kind {
		case kRedis:
			n.redis.inject(ch.Legacy, string(b))
		case kNats:
			n.nats.inject(ch.Server, b)
		default:
			for _, in := range inj {
				in <- append([]byte(nil), b...)
			}
		}
	}
	cnt := 20 + r.Intn(60)
	for i := 0; i < cnt; i++ {
		id := fmt.Sprint(u, ".", i)
		var m proto.Message
		switch r.Intn(4) {
		case 0:
			m = &internal.Request{RequestId: id, Metadata: map[string]string{"a": "b"}, Expiry: int64(r.Intn(1000)) - 500, RawRequest: x.bytes(r.Intn(9))}
		case 1:
			m = &internal.Stream{StreamId: id, Body: &internal.Stream_Open{Open: &internal.StreamOpen{NodeId: "n"}}}
		case 2:
			m = S(id)
		case 3:
			m = &internal.Response{RequestId: id, Error: "e", Code: "c"}
		}
		b := c23msg(ch, m)
		switch r.Intn(5) {
		case 0: // damaged: usable only as what it still says
			k := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				b = b[:k]
			case 1:
				b[k] ^= 1 << r.Intn(8)
			case 2:
				b = append(b[:k:k], append(x.bytes(1+r.Intn(3)), b[k:]...)...)
			}
		case 1:
			b = x.renew(b, (&internal.Msg{}).ProtoReflect().Descriptor(), 60)
		case 2: // unknown fields only around the message
			b = append(x.unknownField(), append(b, x.unknownField()...)...)
		}
		for _, w := range c23expect(b, ch, n.kind, queue) {
			want = append(want, got{w[0], w[1]})
		}
		send(b)
		if r.Intn(4) == 0 {
			time.Sleep(r.Ms(3))
		}
	}
	c.Settle()
	mu.Lock()
	perType := func(l []got) string {
		m := map[string][]string{}
		for _, g := range l {
			m[g.name] = append(m[g.name], fmt.Sprintf("%x", g.val))
		}
		return fmt.Sprint(m)
	}
	a, b := perType(gots), perType(want)
	c.Count("messages", cnt)
	c.Count("decoded", len(gots))
	mu.Unlock()
	if a != b {
		c.Violate("decoded", "subscribers got\n%.3000s\ninstead of\n%.3000s", a, b)
	}
	for _, in := range inj {
		close(in)
	}
	for _, f := range closers {
		f()
	}
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
	c.Shape("q=%v size=%d n=%d", queue, size, cnt)
	c.Ev("decoded %d of %d", len(gots), cnt)
}

func c23sub1[T proto.Message](ctx context.Context, b psrpc.MessageBus, ch psrpc.Channel, size int, queue bool, add func(name string, m proto.Message), closers *[]func()) {
	f := bus.Subscribe[T]
	if queue {
		f = bus.SubscribeQueue[T]
	}
	s, err := f(ctx, b, ch, size)
	must(err)
	var zero T
	name := fmt.Sprintf("%T", zero)
	go func() {
		for m := range s.Channel() {
			add(name, m)
		}
	}()
	*closers = append(*closers, func() { s.Close() })
}

// c23expect says, by an independent reading of the bytes, who gets the message.
func c23expect(b []byte, ch psrpc.Channel, kind string, queue bool) (out [][2]string) {
	fs, ok := c23parse(b)
	if !ok {
		return nil
	}
	var url, channel string
	var val []byte
	for _, f := range fs {
		if f.typ != protowire.BytesType {
			continue
		}
		switch f.num {
		case 1:
			url = string(f.val)
			if strings.ToValidUTF8(url, "") != url {
				return nil
			}
		case 2:
			val = f.val
		case 3:
			channel = string(f.val)
			if kind == kNats && strings.ToValidUTF8(channel, "") != channel {
				return nil
			}
		}
	}
	if kind == kNats && channel != ch.Local {
		return nil
	}
	var m proto.Message
	i := strings.LastIndexByte(url, '/')
	switch url[i+1:] {
	case "internal.Request":
		m = &internal.Request{}
	case "internal.Stream":
		m = &internal.Stream{}
	case "google.protobuf.StringValue":
		m = &wrapperspb.StringValue{}
	case "internal.Response":
		m = &internal.Response{}
	default:
		return nil
	}
	if proto.Unmarshal(val, m) != nil {
		return nil
	}
	d, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	name := fmt.Sprintf("%T", m)
	if queue {
		if _, ok := m.(*internal.Request); ok {
			out = append(out, [2]string{name, string(d)})
		}
		return out
	}
	return append(out, [2]string{name, string(d)}, [2]string{"<nil>", string(d)})
}

// ---- payloads that cannot be decoded or encoded ----

var c23bad = [][]byte{
	{0x0a, 0x05, 'a'}, {0x0a, 0x02, 0xff, 0xfe}, {0x08}, {0xff}, {0x0b}, {0x00, 0x01}, {0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0x0c}, {0x0a}, {0x0a, 0x01, 0xc3}, append([]byte{0x0a, 0x01, 'x'}, 0x7f), {0x0e, 0x01}, {0x0d, 1, 2, 3},
}

func c23payload(c *C) {
	r := c.LRand(0)
	for _, b := range c23bad {
		if proto.Unmarshal(b, &wrapperspb.StringValue{}) == nil {
			panic(fmt.Sprintf("% x can be decoded", b))
		}
	}
	type plan struct {
		req, res map[string]bool // servers
		rid      string
	}
	var mu sync.Mutex
	plans := map[string]*plan{} // call -> plan
	byID := map[string]*plan{}
	badMsg := map[string]bool{} // values of stream messages
	pick := func() []byte { return c23bad[r.Intn(len(c23bad))] }
	rw := func(ch psrpc.Channel, side string, body []byte) []byte {
		m, _ := decodeEnvelope(body)
		mu.Lock()
		defer mu.Unlock()
		switch m := m.(type) {
		case *internal.Request:
			p := plans[m.Metadata["call"]]
			if p == nil {
				break
			}
			byID[m.RequestId] = p
			if p.req[side] {
				m.RawRequest = pick()
				return c23msg(ch, m)
			}
		case *internal.Response:
			if p := byID[m.RequestId]; p != nil && p.res[m.ServerId] && m.Error == "" && m.Code == "" {
				m.RawResponse = pick()
				return c23msg(ch, m)
			}
		case *internal.Stream:
			if sm := m.GetMessage(); sm != nil {
				v := &wrapperspb.StringValue{}
				if proto.Unmarshal(sm.RawMessage, v) == nil && badMsg[v.Value] {
					sm.RawMessage = pick()
					return c23msg(ch, m)
				}
			}
		}
		return body
	}
	x := newC23(c, kinds[r.Intn(3)], 1+r.Intn(3), 1, rw)
	c.Settle()
	cl := x.cls[0]
	var fs []func()
	for k := 3 + r.Intn(6); k > 0; k-- {
		x.seq++
		val := fmt.Sprintf("p-%d", x.seq)
		wait := r.Ms(200)
		p := &plan{req: map[string]bool{}, res: map[string]bool{}}
		ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": val})
		ms := x.methods()
		method := ms[r.Intn(len(ms))]
		switch kind := r.Intn(8); kind {
		case 0, 1: // the request of an RPC cannot be decoded
			for i := 0; i < x.ns; i++ {
				p.req[fmt.Sprint("s", i)] = true
			}
			fs = append(fs, func() {
				time.Sleep(wait)
				res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(10*time.Second))
				if code(err) != psrpc.MalformedRequest {
					c.Violate("malformed", "%s with an undecodable request gave %q, %v", method, res, err)
				}
				if x.ran(val) != 0 {
					c.Violate("phantom", "a handler ran for an undecodable request")
				}
				c.Ev("badreq %s", method)
			})
		case 2: // the response cannot be decoded
			for i := 0; i < x.ns; i++ {
				p.res[fmt.Sprint("s", i)] = true
			}
			fs = append(fs, func() {
				time.Sleep(wait)
				res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(10*time.Second))
				if code(err) != psrpc.MalformedResponse {
					c.Violate("malformed", "%s with an undecodable response gave %q, %v", method, res, err)
				}
				if x.ran(val) != 1 {
					c.Violate("malformed", "%d executions", x.ran(val))
				}
				c.Ev("badres %s", method)
			})
		case 3: // multi-RPC
			want := map[string]int{}
			bad := 0
			for i := 0; i < x.ns; i++ {
				id := fmt.Sprint("s", i)
				switch r.Intn(3) {
				case 0:
					p.req[id] = true
					want[string(psrpc.MalformedRequest)]++
					bad++
				case 1:
					p.res[id] = true
					want[string(psrpc.MalformedResponse)]++
				default:
					want[id+":"+val]++
				}
			}
			fs = append(fs, func() {
				time.Sleep(wait)
				ch, err := callMulti(ctx, cl, mMulti, nil, val, psrpc.WithRequestTimeout(2*time.Second))
				if err != nil {
					c.Violate("malformed", "multi: %v", err)
					return
				}
				got := map[string]int{}
				for m := range ch {
					if m.Err != nil {
						got[string(code(m.Err))]++
					} else {
						got[m.Result.GetValue()]++
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Violate("malformed", "multi got %v instead of %v", got, want)
				}
				if x.ran(val) != x.ns-bad {
					c.Violate("malformed", "multi: %d executions, want %d", x.ran(val), x.ns-bad)
				}
				c.Ev("multi %v", len(got))
			})
		case 4: // the request cannot be encoded
			bad := "\xff" + val
			fs = append(fs, func() {
				time.Sleep(wait)
				t0 := time.Now()
				res, err := call(ctx, cl, method, nil, bad)
				if code(err) != psrpc.MalformedRequest || res != "" || time.Since(t0) > c.Slack() {
					c.Violate("malformed", "%s with an unencodable request gave %q, %v after %v", method, res, err, time.Since(t0))
				}
				ch, err := callMulti(ctx, cl, mMulti, nil, bad)
				if code(err) != psrpc.MalformedRequest || ch != nil {
					c.Violate("malformed", "multi-RPC with an unencodable request gave %v", err)
				}
				if err := x.servers[0].Publish(context.Background(), mSub, nil, S(bad)); err == nil {
					c.Violate("malformed", "publishing an unencodable message gave no error")
				}
				c.Ev("unencodable %s", method)
			})
		case 5: // the response cannot be encoded
			val += "|badres"
			ctx = metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"call": val})
			fs = append(fs, func() {
				time.Sleep(wait)
				res, err := call(ctx, cl, method, nil, val, psrpc.WithRequestTimeout(10*time.Second))
				if code(err) != psrpc.MalformedResponse || x.ran(val) != 1 {
					c.Violate("malformed", "%s with an unencodable response gave %q, %v (%d executions)", method, res, err, x.ran(val))
				}
				c.Ev("badencres %s", method)
			})
		case 6, 7: // a message of a stream
			ss := x.streams()
			method := ss[r.Intn(len(ss))]
			good := r.Intn(3)
			how := r.Intn(3) // to the server, to the client, not encodable
			evil := val + ".evil"
			for i := 0; i < x.ns; i++ {
				x.known[fmt.Sprintf("s%d:%s", i, evil)] = true
				if how == 1 {
					badMsg[fmt.Sprintf("s%d:%s", i, evil)] = true
				}
			}
			if how == 0 {
				badMsg[evil] = true
			} else {
				x.known[evil] = true
			}
			fs = append(fs, func() {
				time.Sleep(wait)
				st, err := client.OpenStream[str, str](ctx, cl, method, nil, psrpc.WithRequestTimeout(5*time.Second))
				if err != nil {
					c.Violate("malformed", "opening: %v", err)
					return
				}
				recv := func() (string, bool) {
					select {
					case m, ok := <-st.Channel():
						if ok {
							x.value("client", m.Value)
						}
						return m.GetValue(), ok
					case <-time.After(4 * time.Second):
						return "nothing", true
					}
				}
				for i := 0; i < good; i++ {
					v := fmt.Sprint(val, ".", i)
					x.sends(v)
					if err := st.Send(S(v)); err != nil {
						c.Violate("malformed", "sending: %v", err)
						return
					}
					if g, ok := recv(); !ok || !strings.HasSuffix(g, ":"+v) {
						c.Violate("malformed", "%q came back for %q", g, v)
						return
					}
				}
				switch how {
				case 0:
					if err := st.Send(S(evil)); code(err) != psrpc.MalformedRequest {
						c.Violate("malformed", "sending an undecodable message on %s gave %v", method, err)
					}
				case 1:
					if err := st.Send(S(evil)); err != nil && code(err) != psrpc.MalformedRequest {
						c.Violate("malformed", "sending a message whose answer is undecodable gave %v", err)
					}
				case 2:
					if err := st.Send(S("\xff")); code(err) != psrpc.MalformedRequest {
						c.Violate("malformed", "sending an unencodable message gave %v", err)
					}
					v := val + ".last"
					x.sends(v)
					if err := st.Send(S(v)); err != nil {
						c.Violate("malformed", "sending after an unencodable message gave %v", err)
					}
					if g, ok := recv(); !ok || !strings.HasSuffix(g, ":"+v) {
						c.Violate("malformed", "%q came back for %q", g, v)
					}
					st.Close(nil)
					return
				}
				if g, ok := recv(); ok {
					c.Violate("malformed", "the stream got %q after an undecodable message", g)
				}
				if code(st.Err()) != psrpc.MalformedRequest {
					c.Violate("malformed", "the stream ended with %v after an undecodable message", st.Err())
				}
				c.Ev("stream %d %s", how, method)
			})
		}
		plans[val] = p
		x.sends(val)
	}
	c.Shape("ns=%d raw=%v n=%d", x.ns, x.raw, len(fs))
	if !c.Par(2*time.Minute, fs...) {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	c.Count("payload_cases", len(fs))
	x.finish()
}

func (x *c23sys) ran(val string) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.runs[val]
}
