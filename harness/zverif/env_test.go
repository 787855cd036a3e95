package zverif

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/rand"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
)

type str = *wrapperspb.StringValue

func S(s string) str { return wrapperspb.String(s) }

// method kinds, as the generator registers them
const (
	mNormal    = "Normal"    // claim, queue
	mAff       = "Aff"       // affinity, claim
	mMulti     = "Multi"     // multi
	mSingle    = "Single"    // one server, no claim, plain subscription
	mQueueNC   = "QueueNC"   // queue, no claim
	mStream    = "Stream"    // claim, queue (streams ignore it)
	mStreamAff = "StreamAff" // affinity, claim
	mStreamNC  = "StreamNC"  // no claim
	mSub       = "Sub"       // broadcast subscription
	mQSub      = "QSub"      // queue subscription
)

func newSD(name, id string) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: name, ID: id}
	sd.RegisterMethod(mNormal, false, false, true, true)
	sd.RegisterMethod(mAff, true, false, true, false)
	sd.RegisterMethod(mMulti, false, true, false, false)
	sd.RegisterMethod(mSingle, false, false, false, false)
	sd.RegisterMethod(mQueueNC, false, false, false, true)
	sd.RegisterMethod(mStream, false, false, true, true)
	sd.RegisterMethod(mStreamAff, true, false, true, false)
	sd.RegisterMethod(mStreamNC, false, false, false, true)
	sd.RegisterMethod(mSub, false, true, false, false)
	sd.RegisterMethod(mQSub, false, false, true, true)
	return sd
}

// ---- buses ----

const (
	kLocal = "local"
	kRedis = "redis"
	kNats  = "nats"
)

var kinds = []string{kLocal, kRedis, kNats}

const poolSize = 5

var (
	poolRedis    *fakeRedis
	poolRedisBus []psrpc.MessageBus
	poolNats     *fakeNats
	poolNatsBus  []psrpc.MessageBus
)

// Net is one message fabric; endpoints made from it reach each other.
type Net struct {
	c     *C
	kind  string
	local psrpc.MessageBus
	redis *fakeRedis
	nats  *fakeNats
	next  int
	fresh bool

	nconns []*nats.Conn
}

// NewNet returns a fabric of the given kind. Redis and NATS fabrics share pooled
// endpoints over all cases of the process (service names are unique per case).
func (c *C) NewNet(kind string) *Net {
	n := &Net{c: c, kind: kind}
	switch kind {
	case kLocal:
		n.local = psrpc.NewLocalMessageBus()
	case kRedis:
		if poolRedis == nil {
			poolRedis = newFakeRedis()
			for i := 0; i < poolSize; i++ {
				poolRedisBus = append(poolRedisBus, psrpc.NewRedisMessageBus(poolRedis.client()))
			}
		}
		n.redis = poolRedis
	case kNats:
		if poolNats == nil {
			poolNats = newFakeNats()
			for i := 0; i < poolSize; i++ {
				nc, err := poolNats.connect()
				if err != nil {
					panic(err)
				}
				poolNatsBus = append(poolNatsBus, psrpc.NewNatsMessageBus(nc))
			}
		}
		n.nats = poolNats
	}
	c.Shape("bus=%s", kind)
	return n
}

// FreshNet has its own fake server and endpoints.
func (c *C) FreshNet(kind string) *Net {
	n := &Net{c: c, kind: kind, fresh: true}
	switch kind {
	case kLocal:
		n.local = psrpc.NewLocalMessageBus()
	case kRedis:
		n.redis = newFakeRedis()
	case kNats:
		n.nats = newFakeNats()
	}
	c.Shape("bus=%s", kind)
	return n
}

// Endpoint is the bus as seen by one process.
func (n *Net) Endpoint() psrpc.MessageBus {
	n.next++
	switch n.kind {
	case kRedis:
		if n.fresh {
			return psrpc.NewRedisMessageBus(n.redis.client())
		}
		return poolRedisBus[n.next%poolSize]
	case kNats:
		if n.fresh {
			nc, err := n.nats.connect()
			if err != nil {
				panic(err)
			}
			n.c.Cleanup(nc.Close)
			n.nconns = append(n.nconns, nc)
			return psrpc.NewNatsMessageBus(nc)
		}
		return poolNatsBus[n.next%poolSize]
	}
	return n.local
}

var svcSeq int

// SvcName returns a service name no other case uses.
func (c *C) SvcName() string {
	svcSeq++
	return fmt.Sprintf("Svc%d", svcSeq)
}

// ---- tapping a bus ----

type tapMsg struct {
	From    string
	Channel psrpc.Channel
	Msg     proto.Message
}

// tap wraps an endpoint. onPub may veto (drop) or delay a message or fail the publish:
// it returns the number of copies to send (1 normally) and an error to report instead.
func tap(b psrpc.MessageBus, from string, onPub func(m tapMsg) (copies int, err error)) psrpc.MessageBus {
	return testutils.NewTestBus(b, testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
		return func(ctx context.Context, ch testutils.Channel, msg proto.Message) error {
			// a publish may fail although the message was, or will be, delivered
			n, err := onPub(tapMsg{from, ch, msg})
			for i := 0; i < n; i++ {
				if err := next(ctx, ch, msg); err != nil {
					return err
				}
			}
			return err
		}
	}))
}

// tapRead wraps an endpoint so that every envelope read by a subscriber is passed to onRead.
func tapRead(b psrpc.MessageBus, onRead func(ch psrpc.Channel, body []byte) bool) psrpc.MessageBus {
	return testutils.NewTestBus(b, testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
		return func() ([]byte, bool) {
			for {
				b, ok := next()
				if !ok {
					return b, ok
				}
				if onRead(ch, b) {
					return b, ok
				}
			}
		}
	}))
}

// decodeEnvelope decodes what a reader returns.
func decodeEnvelope(b []byte) (proto.Message, string) {
	m := &internal.Msg{}
	if err := proto.Unmarshal(b, m); err != nil {
		return nil, ""
	}
	var v proto.Message
	switch strings.TrimPrefix(m.TypeUrl, "type.googleapis.com/") {
	case "internal.Request":
		v = &internal.Request{}
	case "internal.Response":
		v = &internal.Response{}
	case "internal.ClaimRequest":
		v = &internal.ClaimRequest{}
	case "internal.ClaimResponse":
		v = &internal.ClaimResponse{}
	case "internal.Stream":
		v = &internal.Stream{}
	case "google.protobuf.StringValue":
		v = &wrapperspb.StringValue{}
	default:
		return nil, m.TypeUrl
	}
	if proto.Unmarshal(m.Value, v) != nil {
		return nil, m.TypeUrl
	}
	return v, m.TypeUrl
}

// ---- clients and servers ----

func (c *C) Server(b psrpc.MessageBus, svc string, id string, opts ...psrpc.ServerOption) *server.RPCServer {
	if id != "" {
		opts = append([]psrpc.ServerOption{psrpc.WithServerID(id)}, opts...)
	}
	s := server.NewRPCServer(newSD(svc, rand.NewServerID()), b, opts...)
	c.Cleanup(func() { s.Close(true) })
	return s
}

func (c *C) Client(b psrpc.MessageBus, svc string, id string, opts ...psrpc.ClientOption) *client.RPCClient {
	if id != "" {
		opts = append([]psrpc.ClientOption{psrpc.WithClientID(id)}, opts...)
	}
	cl, err := client.NewRPCClientWithStreams(newSD(svc, rand.NewClientID()), b, opts...)
	if err != nil {
		panic(err)
	}
	c.Cleanup(cl.Close)
	return cl
}

func call(ctx context.Context, cl *client.RPCClient, method string, topic []string, req string, opts ...psrpc.RequestOption) (string, error) {
	res, err := client.RequestSingle[str](ctx, cl, method, topic, S(req), opts...)
	if err != nil {
		return "", err
	}
	if res == nil {
		return "", fmt.Errorf("NIL-RESPONSE")
	}
	return res.Value, nil
}

func callMulti(ctx context.Context, cl *client.RPCClient, method string, topic []string, req string, opts ...psrpc.RequestOption) (<-chan *psrpc.Response[str], error) {
	return client.RequestMulti[str](ctx, cl, method, topic, S(req), opts...)
}

type strHandler = func(context.Context, str) (str, error)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// code returns the psrpc code of an error.
func code(err error) psrpc.ErrorCode {
	if err == nil {
		return psrpc.OK
	}
	c, ok := psrpc.GetErrorCode(err)
	if !ok {
		return psrpc.ErrorCode("none")
	}
	return c
}

// stuck lists goroutines whose stack has a frame containing one of the given
// fragments and none of the excluded ones.
func stuck(frags []string, exclude ...string) []string {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	var out []string
next:
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		for _, e := range exclude {
			if strings.Contains(g, e) {
				continue next
			}
		}
		for _, f := range frags {
			if strings.Contains(g, f) {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

// a set of ids with counts, safe for concurrent use
type tally struct {
	mu sync.Mutex
	m  map[string]int
}

func newTally() *tally { return &tally{m: map[string]int{}} }

func (t *tally) add(k string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.m[k]++
	return t.m[k]
}

func (t *tally) get(k string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.m[k]
}

func (t *tally) snapshot() map[string]int {
	t.mu.Lock()
	defer t.mu.Unlock()
	o := make(map[string]int, len(t.m))
	for k, v := range t.m {
		o[k] = v
	}
	return o
}

// ---- goroutine leaks ----

// goroutines returns, by goroutine id, the stacks with frames of the code under test,
// except the permanent workers of message buses (they have no close).
func psrpcGoroutines() map[string]string {
	buf := make([]byte, 16<<20)
	n := runtime.Stack(buf, true)
	out := map[string]string{}
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		own := false
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "\t") || !strings.Contains(l, "livekit/psrpc") || strings.Contains(l, "zverif") {
				continue
			}
			if strings.Contains(l, "redisMessageBus).readWorker") || strings.Contains(l, "redisMessageBus).writeWorker") || strings.Contains(l, "redisPublishQueue).worker") ||
				strings.Contains(l, "bus.NewRedisMessageBus") || strings.Contains(l, "newRedisPublishQueue") {
				own = false
				break
			}
			own = true
		}
		if own {
			f := strings.Fields(g)
			out[f[1]] = g
		}
	}
	return out
}

// LeakBase remembers the goroutines that exist now.
func (c *C) LeakBase() map[string]string { return psrpcGoroutines() }

// LeakCheck reports goroutines of the code under test that are not in base.
func (c *C) LeakCheck(base map[string]string, rule string) {
	var left []string
	for id, g := range psrpcGoroutines() {
		if _, ok := base[id]; !ok {
			left = append(left, g)
		}
	}
	c.Count("leak_checks", 1)
	if len(left) > 0 {
		c.ViolateKey(rule, leakKey(left[0]), "%d goroutines are left:\n%s", len(left), strings.Join(left[:min(len(left), 3)], "\n\n"))
	}
}

// leakKey names the innermost frame of the code under test.
func leakKey(g string) string {
	for _, l := range strings.Split(g, "\n") {
		if !strings.HasPrefix(l, "\t") && strings.Contains(l, "livekit/psrpc") && !strings.Contains(l, "zverif") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/livekit/psrpc/")
		}
	}
	return ""
}

// ---- a bus whose subscribe and publish calls can fail ----

type faultBus struct {
	psrpc.MessageBus
	onSub func(ch psrpc.Channel, queue bool) error
	onPub func(ch psrpc.Channel, msg proto.Message) error
	mu    sync.Mutex
	open  map[string]int
}

var errInjected = errors.New("injected fault")

func newFaultBus(b psrpc.MessageBus) *faultBus {
	return &faultBus{MessageBus: b, open: map[string]int{}}
}

func (f *faultBus) Publish(ctx context.Context, ch psrpc.Channel, msg proto.Message) error {
	if f.onPub != nil {
		if err := f.onPub(ch, msg); err != nil {
			return err
		}
	}
	return f.MessageBus.Publish(ctx, ch, msg)
}

func (f *faultBus) Subscribe(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	if f.onSub != nil {
		if err := f.onSub(ch, false); err != nil {
			return nil, err
		}
	}
	return f.MessageBus.Subscribe(ctx, ch, size)
}

func (f *faultBus) SubscribeQueue(ctx context.Context, ch psrpc.Channel, size int) (bus.Reader, error) {
	if f.onSub != nil {
		if err := f.onSub(ch, true); err != nil {
			return nil, err
		}
	}
	return f.MessageBus.SubscribeQueue(ctx, ch, size)
}

// probeClient is a client used to find out who answers.
type probeClient struct {
	c          *C
	cl         *client.RPCClient
	goroutines map[string]bool
}

func (c *C) probe(b psrpc.MessageBus, svc string) *probeClient {
	before := psrpcGoroutines()
	cl := c.Client(b, svc, "")
	time.Sleep(c.Slack())
	x := &probeClient{c: c, cl: cl, goroutines: map[string]bool{}}
	for id := range psrpcGoroutines() {
		if _, ok := before[id]; !ok {
			x.goroutines[id] = true
		}
	}
	return x
}

func (x *probeClient) open(method string, topic []string, limit time.Duration) (psrpc.ClientStream[str, str], error) {
	return client.OpenStream[str, str](context.Background(), x.cl, method, topic, psrpc.WithRequestTimeout(limit))
}

// lrand is a generator shared by goroutines.
type lrand struct {
	mu sync.Mutex
	r  interface {
		Intn(int) int
		Float64() float64
	}
}

func (c *C) LRand(k int) *lrand { return &lrand{r: c.NewRand(k)} }

func (l *lrand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}

func (l *lrand) Float64() float64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Float64()
}

func (l *lrand) Ms(max int) time.Duration { return time.Duration(l.Intn(max+1)) * time.Millisecond }

var (
	tickMu   sync.Mutex
	tickLast time.Time
)

// tick is the time, except that no two ticks are equal: a later tick is a later time.
func tick() time.Time {
	tickMu.Lock()
	defer tickMu.Unlock()
	t := time.Now()
	if !t.After(tickLast) {
		t = tickLast.Add(1)
	}
	tickLast = t
	return t
}

// IDs draws n distinct identifiers users might give to processes: some extend or
// resemble each other.
func (c *C) IDs(prefix string, n int) []string {
	var out []string
	switch style := c.Rand.Intn(4); style {
	case 0:
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s%d", prefix, i))
		}
	case 1: // each extends the one before
		id := prefix
		for i := 0; i < n; i++ {
			id += []string{"1", "-a", "/x", "0"}[c.Rand.Intn(4)]
			out = append(out, id)
		}
		c.Rand.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	case 2: // equal but for case, width, spaces or the end of a long name
		forms := []string{"Node", "node", "NODE", "node\u00a0", "\u00a0node", "n\u00f3de", "no\u0301de", "node\u200b"}
		k := c.Rand.Intn(2)
		for i := 0; i < n; i++ {
			id := prefix + forms[i%len(forms)]
			if k == 1 {
				id = prefix + strings.Repeat("x", 300) + forms[i%len(forms)]
			}
			if i >= len(forms) {
				id += fmt.Sprint(i)
			}
			out = append(out, id)
		}
	case 3: // generated by the library
		for i := 0; i < n; i++ {
			out = append(out, rand.NewServerID())
		}
	}
	if len(out) == 0 {
		return nil
	}
	c.Shape("ids=%q", out[0][:min(len(out[0]), 12)])
	return out
}
