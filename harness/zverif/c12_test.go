package zverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/pkg/rand"
	"github.com/livekit/psrpc/pkg/server"
)

// C12: messages reach only their own service, method, topic and client.

func init() {
	reg("C12", "names", 300, 6000, c12names).real = true
	reg("C12", "traffic", 500, 6000, c12traffic)
}

var c12parts = []string{
	"a", "A", "b", "ab", "a.b", "a|b", "a b", "a_b", "a-b", "a.", ".a", "|", ".", "..", "Q", "REQ", "CLAIM", "RES", "STR", "RCLAIM", "SRV", "CLI",
	"u+002e", "u+007c", "u002e", "u+", "U+0001f600", "\U0001F600", "+", "%2e", "*", ">", "$SYS", "é", "e\u0301", "É", "ß", "ss", "\u00a0", "\u200b", "\t", "\n", "\x00", "\x7f",
	"\uFFFD", "\uFFFF", "\U00010000", "\U0010FFFF", "1", "01", "１", "0", "_", "__", "u+00e9", "{a}", "[a", "a]", "?", "\\", "\"", "'", "longlonglong",
}

// ---- a model of the wire format, written from its description ----

func c12esc(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= '0' && r <= '9', r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r == '_':
			sb.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&sb, "u+%04x", r)
		default:
			fmt.Fprintf(&sb, "U+%08x", r)
		}
	}
	return sb.String()
}

func c12join(sep string, parts ...string) string {
	for i := range parts {
		parts[i] = c12esc(parts[i])
	}
	return strings.Join(parts, sep)
}

func c12server(svc string, topic []string, queue bool) string {
	s := "SRV." + svc
	for _, t := range topic {
		s += "." + c12esc(t)
	}
	if queue {
		s += ".Q"
	}
	return s
}

func c12legacy(svc, method string, topic []string, kind string) string {
	return c12join("|", append(append([]string{svc, method}, topic...), kind)...)
}

func c12names(c *C) {
	r := c.Rand
	ident := []string{"Svc", "svc", "S", "Svc1", "Svc_1", "Svc_", "Svc_REQ", "REQ", "Q", "CLI", "SRV", "STR", "M", "m", "MRCLAIM", "RCLAIM", "CLAIM", "Method", "u", "U0001"}
	part := func() string {
		s := c12parts[r.Intn(len(c12parts))]
		for r.Intn(3) == 0 {
			s += c12parts[r.Intn(len(c12parts))]
		}
		if r.Intn(30) == 0 {
			s += strings.Repeat(c12parts[r.Intn(len(c12parts))], 200+r.Intn(200))
		}
		return s
	}
	type addr struct {
		svc, method string
		topic       []string
		queue       bool
	}
	key := func(a addr) string { return fmt.Sprintf("%s %s %q %d", a.svc, a.method, a.topic, len(a.topic)) }
	var addrs []addr
	var ids []string
	queueOf := map[string]bool{}
	for k := 0; k < 60; k++ {
		a := addr{svc: ident[r.Intn(len(ident))], method: ident[r.Intn(len(ident))]}
		for n := r.Intn(4); n > 0; n-- {
			a.topic = append(a.topic, part())
		}
		mk := a.svc + "." + a.method
		if _, ok := queueOf[mk]; !ok {
			queueOf[mk] = r.Intn(2) == 0
		}
		a.queue = queueOf[mk]
		addrs = append(addrs, a)
		// relatives: parts merged or split
		if len(a.topic) > 1 {
			for _, sep := range []string{".", "|", "", "u+002e", "u+007c"} {
				b := a
				b.topic = []string{strings.Join(a.topic, sep)}
				addrs = append(addrs, b)
			}
			b := a
			b.topic = []string{c12esc(a.topic[0]), a.topic[1]}
			addrs = append(addrs, b)
		}
		ids = append(ids, part()+fmt.Sprint("-", r.Intn(5)))
	}
	c.Shape("names %s", key(addrs[0]))
	// one name, one address
	type owner struct{ of, what string }
	seen := map[string]owner{}
	var mu sync.Mutex
	names := 0
	use := func(space, name, of, what string) {
		mu.Lock()
		defer mu.Unlock()
		names++
		k := space + "\x00" + name
		if o, ok := seen[k]; ok && (o.of != of || o.what != what) {
			c.Violate("shared-name", "%s name %q is used for %s (%s) and %s (%s)", space, name, o.of, o.what, of, what)
			return
		}
		seen[k] = owner{of, what}
	}
	same := func(what, of, got, want string) {
		if got != want {
			c.Violate("wire-name", "%s of %s is %q, published format %q", what, of, got, want)
		}
	}
	run := func(seed int) func() {
		rr := c.NewRand(seed)
		return func() {
			for _, i := range rr.Perm(len(addrs)) {
				a := addrs[i]
				of := key(a)
				time.Sleep(time.Microsecond)
				ri := &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: a.svc, Method: a.method, Topic: a.topic}, Queue: a.queue}
				req, rc, st := ri.GetRPCChannel(), ri.GetClaimResponseChannel(), ri.GetStreamServerChannel()
				use("legacy", req.Legacy, of, "request")
				use("legacy", rc.Legacy, of, "claim response")
				use("legacy", st.Legacy, of, "stream")
				use("server+local", req.Server+"\x00"+req.Local, of, "request")
				use("server+local", rc.Server+"\x00"+rc.Local, of, "claim response")
				use("server+local", st.Server+"\x00"+st.Local, of, "stream")
				use("handler", ri.GetHandlerKey()+"\x00"+a.svc, of, "handler")
				same("request channel", of, req.Legacy, c12legacy(a.svc, a.method, a.topic, "REQ"))
				same("claim response channel", of, rc.Legacy, c12legacy(a.svc, a.method, a.topic, "RCLAIM"))
				same("stream channel", of, st.Legacy, c12legacy(a.svc, a.method, a.topic, "STR"))
				same("request server channel", of, req.Server, c12server(a.svc, a.topic, a.queue))
				same("claim response server channel", of, rc.Server, c12server(a.svc, a.topic, false))
				same("stream server channel", of, st.Server, c12server(a.svc, a.topic, false))
				same("request local channel", of, req.Local, a.method+".REQ")
				same("claim response local channel", of, rc.Local, a.method+".RCLAIM")
				same("stream local channel", of, st.Local, a.method+".STR")
			}
			for _, i := range rr.Perm(len(ids)) {
				id, svc := ids[i], addrs[i].svc
				time.Sleep(time.Microsecond)
				of := fmt.Sprintf("%s client %q", svc, id)
				for kind, ch := range map[string]bus.Channel{"CLAIM": info.GetClaimRequestChannel(svc, id), "RES": info.GetResponseChannel(svc, id), "STR": info.GetStreamChannel(svc, id)} {
					use("legacy", ch.Legacy, of, kind)
					use("server+local", ch.Server+"\x00"+ch.Local, of, kind)
					same(kind+" channel", of, ch.Legacy, c12join("|", svc, id, kind))
					same(kind+" server channel", of, ch.Server, "CLI."+svc+"."+id+"."+kind)
					same(kind+" local channel", of, ch.Local, "")
				}
			}
		}
	}
	var fs []func()
	for k := 0; k < 4; k++ {
		fs = append(fs, run(k))
	}
	if !c.Par(time.Hour, fs...) {
		c.Violate("hang", "formatting names does not end")
	}
	c.Ev("names %d", len(seen))
	c.Count("names", names)
}

// ---- traffic ----

func c12sd(svc, id string, methods []string) *info.ServiceDefinition {
	sd := &info.ServiceDefinition{Name: svc, ID: id}
	for _, m := range methods {
		switch m[0] {
		case 'N':
			sd.RegisterMethod(m, false, false, true, true)
		case 'O':
			sd.RegisterMethod(m, false, false, false, true)
		case 'P':
			sd.RegisterMethod(m, false, false, false, false)
		case 'M':
			sd.RegisterMethod(m, false, true, false, false)
		case 'T':
			sd.RegisterMethod(m, false, false, true, true)
		case 'U':
			sd.RegisterMethod(m, false, true, false, false)
		case 'V':
			sd.RegisterMethod(m, false, false, true, true)
		}
	}
	return sd
}

func c12traffic(c *C) {
	r := c.Rand
	kind := kinds[c.idx%3]
	n := c.NewNet(kind)
	base := c.SvcName()
	svcs := []string{base, base + "_", base + "X", strings.ToUpper(base) + "U"}[:1+r.Intn(3)]
	all := []string{"N", "Nn", "NREQ", "O", "O_", "P", "PREQ", "M", "Mm", "MREQ", "T", "Tt", "TSTR", "U", "Uu", "UQ", "V", "Vv"}
	methods := []string{}
	for _, i := range r.Perm(len(all))[:3+r.Intn(5)] {
		methods = append(methods, all[i])
	}
	// topics that resemble each other
	part := func() string { return c12parts[r.Intn(len(c12parts))] }
	topics := [][]string{nil}
	x, y := part(), part()
	topics = append(topics, []string{x}, []string{x, y}, []string{x + "." + y}, []string{x + "|" + y}, []string{c12esc(x)}, []string{y, x}, []string{x + y}, []string{strings.ToUpper(x)}, []string{strings.ToLower(x)}, []string{"Q"}, []string{x, "Q"}, []string{x, x}, []string{x + "_" + y})
	dedup := map[string]bool{}
	var tl [][]string
	for _, i := range r.Perm(len(topics)) {
		if k := fmt.Sprintf("%q", topics[i]); !dedup[k] && len(tl) < 4 {
			dedup[k] = true
			tl = append(tl, topics[i])
		}
	}
	// a NATS queue group must consist of processes with the same methods: one process, or
	// several that register alike and no queue updates
	one := kind == kNats && r.Intn(2) == 0
	var ep psrpc.MessageBus
	endpoint := func() psrpc.MessageBus {
		if ep == nil || !one {
			ep = n.Endpoint()
		}
		return ep
	}
	c.Shape("one=%v svcs=%d methods=%v topics=%q", one, len(svcs), methods, tl)

	type dest struct {
		ch psrpc.Channel
		by string
	}
	var mu sync.Mutex
	reqCh := map[string]dest{}    // request id -> where it was sent, by whom
	strOwner := map[string]dest{} // stream id
	nodeOf := map[string]string{} // endpoint name -> client id (clients only)
	onPub := func(m tapMsg) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		switch v := m.Msg.(type) {
		case *internal.Request:
			reqCh[v.RequestId] = dest{m.Channel, v.ClientId}
		case *internal.Stream:
			if o := v.GetOpen(); o != nil {
				strOwner[v.StreamId] = dest{m.Channel, o.NodeId}
				reqCh[v.RequestId] = dest{m.Channel, o.NodeId}
			}
		}
		return 1, nil
	}
	seen := 0
	wrap := func(b psrpc.MessageBus, who, cid string) psrpc.MessageBus {
		if cid != "" {
			nodeOf[who] = cid
		}
		return tapRead(tap(b, who, onPub), func(ch psrpc.Channel, body []byte) bool {
			m, _ := decodeEnvelope(body)
			mu.Lock()
			defer mu.Unlock()
			seen++
			bad := func(what, id string, d dest) {
				c.Violate("misdelivered", "%s %s of %s sent on %+v arrived at %s on %+v", what, id, d.by, d.ch, who, ch)
			}
			switch v := m.(type) {
			case *internal.Request:
				if d := reqCh[v.RequestId]; d.ch != ch {
					bad("request", v.RequestId, d)
				}
			case *internal.ClaimRequest:
				if d := reqCh[v.RequestId]; d.by != cid {
					bad("claim", v.RequestId, d)
				}
			case *internal.Response:
				if d := reqCh[v.RequestId]; d.by != cid {
					bad("response", v.RequestId, d)
				}
			case *internal.Stream:
				if d := strOwner[v.StreamId]; cid != "" && d.by != cid {
					bad("stream message", v.StreamId, d)
				} else if cid == "" && d.ch != ch {
					bad("stream message", v.StreamId, d)
				}
			}
			return true
		})
	}

	type addr struct {
		svc, method string
		topic       []string
	}
	akey := func(svc, m string, t []string) string { return fmt.Sprintf("%s/%s/%q", svc, m, t) }
	regd := map[string]int{} // number of servers of an address
	handled := newTally()
	serve := func(svc, id, m string, t []string, val string) {
		want := akey(svc, m, t)
		handled.add(val)
		if !strings.HasPrefix(val, want+"#") {
			c.Violate("wrong-handler", "the handler of %s got %q", want, val)
		}
	}
	var addrs []addr
	for _, s := range svcs {
		for _, m := range methods {
			for _, t := range tl {
				addrs = append(addrs, addr{s, m, t})
			}
		}
	}
	ns := 1 + r.Intn(2)
	for _, s := range svcs {
		for i := 0; i < ns; i++ {
			id := fmt.Sprintf("s%d.%d", i, c.idx)
			who := s + "/" + id
			srv := server.NewRPCServer(c12sd(s, rand.NewServerID(), methods), wrap(endpoint(), who, ""), psrpc.WithServerID(id))
			c.Cleanup(func() { srv.Close(true) })
			rs := c.NewRand(77)
			if kind != kNats {
				rs = c.NewRand(78 + i) // servers of a service on NATS register alike
			}
			for _, m := range methods {
				for _, t := range tl {
					if rs.Intn(5) < 2 || m[0] == 'U' || m[0] == 'V' {
						continue
					}
					if regd[akey(s, m, t)]++; m[0] == 'P' && regd[akey(s, m, t)] > 1 {
						regd[akey(s, m, t)]--
						continue
					}
					if m[0] == 'T' {
						must(server.RegisterStreamHandler(srv, m, t, func(st psrpc.ServerStream[str, str]) error {
							for v := range st.Channel() {
								serve(s, id, m, t, v.Value)
								if err := st.Send(S(v.Value)); err != nil {
									return err
								}
							}
							return nil
						}, nil))
					} else {
						must(server.RegisterHandler(srv, m, t, func(ctx context.Context, req str) (str, error) {
							serve(s, id, m, t, req.Value)
							return S(req.Value), nil
						}, nil))
					}
				}
			}
		}
	}
	cids := c.IDs("c", 3)
	if r.Intn(3) == 0 {
		cids = []string{"c.x", "c.x.y", "cu+002ex"}
	}
	type clt struct {
		svc string
		cl  *client.RPCClient
	}
	var clients []clt
	for _, s := range svcs {
		for i := 0; i < 1+r.Intn(2); i++ {
			cl, err := client.NewRPCClientWithStreams(c12sd(s, rand.NewClientID(), methods), wrap(endpoint(), s+"/"+cids[i], cids[i]), psrpc.WithClientID(cids[i]))
			must(err)
			c.Cleanup(cl.Close)
			clients = append(clients, clt{s, cl})
		}
	}
	// subscriptions
	got := newTally()
	type subn struct {
		a     addr
		queue bool
	}
	var subs []subn
	var subwg sync.WaitGroup
	for _, a := range addrs {
		if a.method[0] != 'U' && a.method[0] != 'V' || a.method[0] == 'V' && kind == kNats && !one || r.Intn(3) == 0 {
			continue
		}
		for _, cl := range clients {
			if cl.svc != a.svc || r.Intn(3) == 0 {
				continue
			}
			var sub bus.Subscription[str]
			var err error
			if a.method[0] == 'U' {
				sub, err = client.Join[str](context.Background(), cl.cl, a.method, a.topic)
			} else {
				sub, err = client.JoinQueue[str](context.Background(), cl.cl, a.method, a.topic)
			}
			must(err)
			k := len(subs)
			subs = append(subs, subn{a, a.method[0] == 'V'})
			subwg.Add(1)
			go func() {
				defer subwg.Done()
				want := akey(a.svc, a.method, a.topic)
				for v := range sub.Channel() {
					got.add(fmt.Sprintf("%d:%s", k, v.Value))
					got.add("any:" + v.Value)
					if !strings.HasPrefix(v.Value, want+"#") {
						c.Violate("wrong-subscriber", "the subscriber of %s got %q", want, v.Value)
					}
				}
			}()
			c.Cleanup(func() { sub.Close() })
		}
	}
	c.Settle()

	type pubd struct {
		a   addr
		val string
	}
	var pubs []pubd
	var fs []func()
	var okc, none int
	for ci, cl := range clients {
		rr := c.NewRand(200 + ci)
		fs = append(fs, func() {
			for _, ai := range rr.Perm(len(addrs)) {
				a := addrs[ai]
				if a.svc != cl.svc || a.method[0] == 'U' || a.method[0] == 'V' || rr.Intn(3) == 0 {
					continue
				}
				ak := akey(a.svc, a.method, a.topic)
				val := fmt.Sprintf("%s#%d.%d", ak, ci, ai)
				ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
				reg := regd[ak]
				tmo := psrpc.WithRequestTimeout(4 * time.Second)
				if reg == 0 {
					tmo = psrpc.WithRequestTimeout(300 * time.Millisecond)
				}
				var err error
				answers := 0
				switch a.method[0] {
				case 'M':
					var ch <-chan *psrpc.Response[str]
					if ch, err = client.RequestMulti[str](ctx, cl.cl, a.method, a.topic, S(val), tmo); err == nil {
						for m := range ch {
							if m.Err != nil || m.Result.Value != val {
								c.Violate("wrong-answer", "%s got %v, %v", val, m.Result, m.Err)
							}
							answers++
						}
					}
					if err == nil && answers != reg {
						c.Violate("answers", "%s: %d answers of %d servers", val, answers, reg)
					}
				case 'T':
					var st psrpc.ClientStream[str, str]
					if st, err = client.OpenStream[str, str](ctx, cl.cl, a.method, a.topic, tmo); err == nil {
						answers++
						if err := st.Send(S(val)); err != nil {
							c.Violate("stream", "%s: send: %v", val, err)
						} else {
							select {
							case m := <-st.Channel():
								if m == nil || m.Value != val {
									c.Violate("wrong-answer", "stream %s got %v", val, m)
								}
							case <-time.After(5 * time.Second):
								c.Violate("stream", "%s: no answer", val)
							}
						}
						st.Close(nil)
					}
				default:
					var res str
					if res, err = client.RequestSingle[str](ctx, cl.cl, a.method, a.topic, S(val), tmo); err == nil {
						answers++
						if res == nil || res.Value != val {
							c.Violate("wrong-answer", "%s got %v", val, res)
						}
					}
				}
				cancel()
				if (err == nil) != (reg > 0) && a.method[0] != 'M' || err != nil && a.method[0] == 'M' {
					c.Violate("reach", "%s with %d servers: %v", val, reg, err)
				}
				if x := handled.get(val); a.method[0] != 'M' && x != min(reg, 1) || a.method[0] == 'M' && x != reg {
					c.Violate("reach", "%s with %d servers was handled %d times", val, reg, x)
				}
				mu.Lock()
				okc += answers
				if reg == 0 {
					none++
				}
				mu.Unlock()
				c.Ev("call %s %d", ak, answers)
			}
		})
	}
	fs = append(fs, func() {
		b := endpoint()
		for k, ai := range c.NewRand(300).Perm(len(addrs)) {
			a := addrs[ai]
			if a.method[0] != 'U' && a.method[0] != 'V' {
				continue
			}
			val := fmt.Sprintf("%s#p%d", akey(a.svc, a.method, a.topic), k)
			i := c12sd(a.svc, "x", methods).GetInfo(a.method, a.topic)
			must(b.Publish(context.Background(), i.GetRPCChannel(), proto.Message(S(val))))
			pubs = append(pubs, pubd{a, val})
			time.Sleep(10 * time.Millisecond)
		}
	})
	if !c.Par(2*time.Hour, fs...) {
		c.Violate("hang", "calls do not return")
		return
	}
	c.Settle()
	for _, p := range pubs {
		n, q := 0, 0
		for k, s := range subs {
			if akey(s.a.svc, s.a.method, s.a.topic) != akey(p.a.svc, p.a.method, p.a.topic) {
				continue
			}
			n++
			g := got.get(fmt.Sprintf("%d:%s", k, p.val))
			if q += g; !s.queue && g != 1 {
				c.Violate("update", "subscriber %d of %s got the update %d times", k, p.val, g)
			}
		}
		if p.a.method[0] == 'V' && n > 0 && q != 1 {
			c.Violate("update", "the queue update %s was delivered %d times to %d subscribers", p.val, q, n)
		}
		if n == 0 && got.get("any:"+p.val) != 0 {
			c.Violate("update", "the update %s without subscribers was delivered", p.val)
		}
	}
	c.Count("answers", okc)
	c.Count("unserved", none)
	c.Count("updates", len(pubs))
	mu.Lock()
	c.Count("envelopes", seen)
	mu.Unlock()
	if okc == 0 && len(pubs) == 0 {
		c.Trivial()
	}
}
