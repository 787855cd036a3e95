package zverif

import (
	"bufio"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/rand"
	"github.com/livekit/psrpc/pkg/server"
	"github.com/livekit/psrpc/testutils"
)

// C24: generated identifiers are unique and well-formed.

const idAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func init() {
	reg("C24", "gen", 24, 240, c24gen).real = true
	reg("C24", "processes", 2, 20, c24processes).real = true
	reg("C24", "wire", 2400, 24000, c24wire)
}

var idKinds = []struct {
	prefix string
	gen    func() string
}{{"CLI_", rand.NewClientID}, {"SRV_", rand.NewServerID}, {"REQ_", rand.NewRequestID}, {"STR_", rand.NewStreamID}, {"", rand.NewString}}

func idForm(id, prefix string) bool {
	rest, ok := strings.CutPrefix(id, prefix)
	if !ok || len(rest) != 12 {
		return false
	}
	for i := 0; i < len(rest); i++ {
		if strings.IndexByte(idAlphabet, rest[i]) < 0 {
			return false
		}
	}
	return true
}

var (
	idAllMu sync.Mutex
	idAll   = map[string]bool{} // every random part this process generated
)

func c24gen(c *C) {
	g := []int{1, 2, 8, 64}[c.Rand.Intn(4)]
	total := 60000
	n := total / g
	mixed := c.Rand.Intn(2) == 0
	base := c.Rand.Intn(len(idKinds))
	c.Shape("goroutines=%d mixed=%v kind=%d", g, mixed, base)
	out := make([][]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			l := make([]string, 0, n)
			for k := 0; k < n; k++ {
				kind := base
				if mixed {
					kind = (base + i + k) % len(idKinds)
				}
				l = append(l, idKinds[kind].gen())
				if len(l) > 1 && k%1000 == 0 && !idForm(l[k], idKinds[kind].prefix) {
					c.Violate("form", "%q is not %q and 12 alphanumeric characters", l[k], idKinds[kind].prefix)
				}
			}
			out[i] = l
		}()
	}
	close(start)
	wg.Wait()
	var freq [12][256]int
	var pair [62][62]int
	idAllMu.Lock()
	defer idAllMu.Unlock()
	count := 0
	for i, l := range out {
		for k, id := range l {
			kind := base
			if mixed {
				kind = (base + i + k) % len(idKinds)
			}
			if !idForm(id, idKinds[kind].prefix) {
				c.Violate("form", "%q is not %q and 12 alphanumeric characters", id, idKinds[kind].prefix)
				continue
			}
			rest := id[len(id)-12:]
			if idAll[rest] {
				c.Violate("repeat", "%q was generated before", id)
			}
			idAll[rest] = true
			count++
			prev := -1
			for p := 0; p < 12; p++ {
				freq[p][rest[p]]++
				x := strings.IndexByte(idAlphabet, rest[p])
				if prev >= 0 {
					pair[prev][x]++
				}
				prev = x
			}
		}
	}
	// even: chi-square of each position (61 degrees of freedom: mean 61, deviation 11)
	// and of adjacent characters (3843: deviation 88); a fair generator exceeds these
	// bounds once in more than 10^30 runs
	worst := 0.0
	for p := 0; p < 12; p++ {
		e := float64(count) / 62
		x := 0.0
		for _, b := range []byte(idAlphabet) {
			d := float64(freq[p][b]) - e
			x += d * d / e
		}
		worst = max(worst, x)
		if x > 300 {
			c.Violate("even", "characters at position %d of %d ids are not even: chi-square %.0f (61 expected)", p, count, x)
		}
	}
	e := float64(count) * 11 / (62 * 62)
	x := 0.0
	for a := range pair {
		for b := range pair[a] {
			d := float64(pair[a][b]) - e
			x += d * d / e
		}
	}
	if x > 5200 {
		c.Violate("even", "pairs of adjacent characters of %d ids are not even: chi-square %.0f (3843 expected)", count, x)
	}
	c.Ev("generated %d by %d", count, g)
	c.Ev("chi-square %.2f", worst)
	c.Count("ids", count)
}

// idChild prints identifiers; it is what c24processes runs several times at once.
func idChild() {
	w := bufio.NewWriter(os.Stdout)
	for i := 0; i < 400; i++ {
		for _, k := range idKinds {
			fmt.Fprintln(w, k.gen())
		}
	}
	w.Flush()
}

func c24processes(c *C) {
	exe, err := os.Executable()
	must(err)
	n := 8
	outs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(exe, "-test.run", "^$")
			cmd.Env = append(os.Environ(), "ZV_IDS=1")
			b, err := cmd.Output()
			must(err)
			outs[i] = string(b)
		}()
	}
	wg.Wait()
	seen := map[string]int{}
	for i, o := range outs {
		ids := strings.Fields(o)
		if len(ids) < 400*len(idKinds) {
			panic(fmt.Sprintf("process %d printed %d ids", i, len(ids)))
		}
		for k, id := range ids[:400*len(idKinds)] {
			if !idForm(id, idKinds[k%len(idKinds)].prefix) {
				c.Violate("form", "%q is not %q and 12 alphanumeric characters", id, idKinds[k%len(idKinds)].prefix)
				break
			}
			rest := id[len(id)-12:]
			if j, ok := seen[rest]; ok {
				c.Violate("repeat", "processes %d and %d both generated %q", j, i, id)
				return
			}
			seen[rest] = i
		}
	}
	c.Ev("processes %d %s", n, strings.Fields(outs[0])[0])
	c.Count("ids", len(seen))
}

// c24wire watches every message of clients and servers with given and generated ids.
func c24wire(c *C) {
	r := c.LRand(1)
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	nc, ns := 1+r.Intn(3), 1+r.Intn(3)
	cids, sids := c.IDs("cli", nc), c.IDs("srv", ns)
	given := r.Intn(4) // who is given an id
	var mu sync.Mutex
	requests := map[string]string{} // request id -> client
	streams := map[string]string{}
	streamMsgs := map[string]string{}
	clientsOfReq := map[string]string{}
	isClient, isServer := map[string]bool{}, map[string]bool{}
	var first []string
	type owner struct{ kind, id string }
	respCh := func(m proto.Message) (ch psrpc.Channel) { // not under the lock: it can be delayed
		if x, ok := m.(*internal.Response); ok {
			mu.Lock()
			id := clientsOfReq[x.RequestId]
			mu.Unlock()
			ch = info.GetResponseChannel(svc, id)
		}
		return
	}
	see := func(own *owner, m proto.Message, ch psrpc.Channel) {
		want := respCh(m)
		mu.Lock()
		defer mu.Unlock()
		newReq := func(id string) {
			if !idForm(id, "REQ_") {
				c.Violate("form", "request id %q", id)
			}
			if p, ok := requests[id]; ok {
				c.Violate("repeat", "request id %q of %s was used by %s", id, own.id, p)
			}
			requests[id] = own.id
		}
		switch x := m.(type) {
		case *internal.Request:
			newReq(x.RequestId)
			clientsOfReq[x.RequestId] = own.id
			if x.ClientId != own.id {
				c.Violate("given", "client %q sends requests as %q", own.id, x.ClientId)
			}
			c.Count("requests", 1)
		case *internal.Response:
			if x.ServerId != own.id {
				c.Violate("given", "server %q answers as %q", own.id, x.ServerId)
			}
			if ch != want {
				c.Violate("given", "the answer to %q is sent on %v", clientsOfReq[x.RequestId], ch)
			}
		case *internal.ClaimRequest:
			if x.ServerId != own.id {
				c.Violate("given", "server %q claims as %q", own.id, x.ServerId)
			}
		case *internal.ClaimResponse:
			if !isServer[x.ServerId] {
				c.Violate("given", "client %q chose server %q, servers are %v", own.id, x.ServerId, isServer)
			}
		case *internal.Stream:
			if o := x.GetOpen(); o != nil {
				newReq(x.RequestId)
				if !idForm(x.StreamId, "STR_") {
					c.Violate("form", "stream id %q", x.StreamId)
				}
				if p, ok := streams[x.StreamId]; ok {
					c.Violate("repeat", "stream id %q of %s was used by %s", x.StreamId, own.id, p)
				}
				streams[x.StreamId] = own.id
				clientsOfReq[x.RequestId] = own.id
				if o.NodeId != own.id {
					c.Violate("given", "client %q opens a stream as %q", own.id, o.NodeId)
				}
				c.Count("streams", 1)
			} else {
				if _, ok := streams[x.StreamId]; !ok {
					c.Violate("given", "%q sends a message of an unknown stream %q", own.id, x.StreamId)
				}
				if x.GetMessage() != nil || x.GetClose() != nil {
					newReq(x.RequestId)
					streamMsgs[x.RequestId] = own.id
				}
			}
		default:
			c.Violate("given", "a message of type %T was sent", m)
		}
	}
	wire := func(own *owner) psrpc.MessageBus {
		return testutils.NewTestBus(n.Endpoint(), testutils.WithPublishInterceptor(func(next testutils.PublishHandler) testutils.PublishHandler {
			return func(ctx context.Context, ch testutils.Channel, msg proto.Message) error {
				see(own, msg, ch)
				return next(ctx, ch, msg)
			}
		}))
	}
	c.Shape("given=%d clients=%d servers=%d", given, nc, ns)
	var clients []*client.RPCClient
	var owners []*owner
	var servers []*server.RPCServer
	for i := 0; i < ns; i++ {
		id := ""
		if given&1 != 0 {
			id = sids[i]
		}
		o := &owner{"server", id}
		s := c.Server(wire(o), svc, id)
		if id == "" {
			o.id = s.ID
			if !idForm(o.id, "SRV_") {
				c.Violate("form", "server id %q", o.id)
			}
		} else if s.ID != id {
			c.Violate("given", "server %q is called %q", id, s.ID)
		}
		isServer[o.id] = true
		h := func(ctx context.Context, req str) (str, error) {
			rid := metadata.IncomingHeader(ctx).RemoteID
			cid, _, _ := strings.Cut(req.Value, "\x01")
			if rid != cid {
				c.Violate("given", "a handler sees a call of %q as from %q", cid, rid)
			}
			c.Count("handlers", 1)
			return S(o.id), nil
		}
		for _, m := range []string{mNormal, mMulti, mQueueNC, mAff} {
			var aff server.AffinityFunc[str]
			if m == mAff {
				aff = func(context.Context, str) float32 { return 0.5 }
			}
			must(server.RegisterHandler(s, m, nil, h, aff))
		}
		must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
			for m := range st.Channel() {
				if rid := metadata.IncomingHeader(st.Context()).RemoteID; rid != m.Value {
					c.Violate("given", "a stream handler sees %q as %q", m.Value, rid)
				}
				st.Send(S(o.id))
			}
			return nil
		}, nil))
		servers = append(servers, s)
	}
	for i := 0; i < nc; i++ {
		id := ""
		if given&2 != 0 {
			id = cids[i]
		}
		o := &owner{"client", id}
		// the client speaks when it is told to, so its name is known by then
		cl := c.Client(wire(o), svc, id)
		if id == "" {
			o.id = cl.ID
			if !idForm(o.id, "CLI_") {
				c.Violate("form", "client id %q", o.id)
			}
		} else if cl.ID != id {
			c.Violate("given", "client %q is called %q", id, cl.ID)
		}
		if isClient[o.id] {
			c.Violate("repeat", "two clients are called %q", o.id)
		}
		isClient[o.id] = true
		clients = append(clients, cl)
		owners = append(owners, o)
		first = append(first, o.id)
	}
	c.Settle()
	var fs []func()
	for i, cl := range clients {
		for k := 1 + r.Intn(5); k > 0; k-- {
			kind := r.Intn(6)
			fs = append(fs, func() {
				time.Sleep(r.Ms(100))
				ctx := context.Background()
				req := owners[i].id + "\x01"
				var by []string
				chosen := ""
				sel := psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: time.Second, SelectionFunc: func(cs []*psrpc.Claim) (string, error) {
					if len(cs) == 0 {
						return "", fmt.Errorf("none")
					}
					for _, x := range cs {
						if !isServer[x.ServerID] {
							c.Violate("given", "a claim of %q is offered, servers are %v", x.ServerID, isServer)
						}
					}
					chosen = cs[r.Intn(len(cs))].ServerID
					return chosen, nil
				}})
				var err error
				var res string
				switch kind {
				case 0, 1, 2:
					m := []string{mNormal, mAff, mQueueNC}[kind]
					res, err = call(ctx, cl, m, nil, req, sel)
					by = append(by, res)
					if kind == 1 && err == nil && chosen != res {
						c.Violate("given", "%q was chosen and %q answered", chosen, res)
					}
				case 3:
					var ch <-chan *psrpc.Response[str]
					ch, err = callMulti(ctx, cl, mMulti, nil, req)
					if err == nil {
						for x := range ch {
							if x.Err == nil {
								by = append(by, x.Result.Value)
							}
						}
						if len(by) != ns {
							c.Violate("given", "%v of %v answered", by, isServer)
						}
					}
				case 4:
					var st psrpc.ClientStream[str, str]
					st, err = client.OpenStream[str, str](ctx, cl, mStream, nil)
					if err == nil {
						for q := 0; q < 2 && err == nil; q++ {
							if err = st.Send(S(owners[i].id)); err == nil {
								by = append(by, (<-st.Channel()).GetValue())
							}
						}
						st.Close(nil)
					}
				case 5: // nobody: the id is used all the same
					call(ctx, cl, mSingle, nil, req, psrpc.WithRequestTimeout(20*time.Millisecond))
				}
				if err != nil {
					c.Violate("failed", "a call of kind %d with ids %q %v fails: %v", kind, owners[i].id, isServer, err)
				}
				for _, b := range by {
					if !isServer[b] {
						c.Violate("given", "%q answered, servers are %v", b, isServer)
					}
				}
				sort.Strings(by)
				c.Ev("call %d %d", kind, len(by))
			})
		}
	}
	if !c.Par(5*time.Minute, fs...) {
		c.Violate("hang", "calls hang\n%s", psrpcStacks())
		return
	}
	c.Count("request_ids", len(requests))
}
