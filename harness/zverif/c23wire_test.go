package zverif

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/encoding/protowire"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// The peers here are written against the published wire format, by field number and channel name.

type wmsg []byte

func (m wmsg) str(num protowire.Number, s string) wmsg {
	if s == "" {
		return m
	}
	return protowire.AppendString(protowire.AppendTag(m, num, protowire.BytesType), s)
}

func (m wmsg) msg(num protowire.Number, b wmsg) wmsg {
	return protowire.AppendBytes(protowire.AppendTag(m, num, protowire.BytesType), b)
}

func (m wmsg) num(num protowire.Number, v int64) wmsg {
	if v == 0 {
		return m
	}
	return protowire.AppendVarint(protowire.AppendTag(m, num, protowire.VarintType), uint64(v))
}

func (m wmsg) float(num protowire.Number, v float32) wmsg {
	return protowire.AppendFixed32(protowire.AppendTag(m, num, protowire.Fixed32Type), math.Float32bits(v))
}

func (m wmsg) meta(num protowire.Number, md map[string]string) wmsg {
	keys := make([]string, 0, len(md))
	for k := range md {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m = m.msg(num, wmsg(nil).str(1, k).str(2, md[k]))
	}
	return m
}

// wval reads a message by field number.
type wval struct {
	b  map[protowire.Number][]string
	n  map[protowire.Number]int64
	f  map[protowire.Number]float32
	ok bool
}

func wparse(b []byte) wval {
	v := wval{map[protowire.Number][]string{}, map[protowire.Number]int64{}, map[protowire.Number]float32{}, false}
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return v
		}
		b = b[n:]
		switch typ {
		case protowire.VarintType:
			x, k := protowire.ConsumeVarint(b)
			if k < 0 {
				return v
			}
			v.n[num] = int64(x)
			b = b[k:]
		case protowire.BytesType:
			x, k := protowire.ConsumeBytes(b)
			if k < 0 {
				return v
			}
			v.b[num] = append(v.b[num], string(x))
			b = b[k:]
		case protowire.Fixed32Type:
			x, k := protowire.ConsumeFixed32(b)
			if k < 0 {
				return v
			}
			v.f[num] = math.Float32frombits(x)
			b = b[k:]
		default:
			k := protowire.ConsumeFieldValue(num, typ, b)
			if k < 0 {
				return v
			}
			b = b[k:]
		}
	}
	v.ok = true
	return v
}

func (v wval) s(num protowire.Number) string {
	l := v.b[num]
	if len(l) == 0 {
		return ""
	}
	return l[len(l)-1]
}

func (v wval) has(num protowire.Number) bool { return len(v.b[num]) > 0 }

func (v wval) md(num protowire.Number) map[string]string {
	m := map[string]string{}
	for _, e := range v.b[num] {
		x := wparse([]byte(e))
		m[x.s(1)] = x.s(2)
	}
	return m
}

// wire is a peer at the Redis or NATS server.
type wire struct {
	c    *C
	n    *Net
	svc  string
	mu   sync.Mutex
	wait map[string][]chan wval // type|channel
	seen int
}

func newWire(c *C, n *Net, svc string) *wire {
	w := &wire{c: c, n: n, svc: svc, wait: map[string][]chan wval{}}
	tap := func(ch string, payload []byte) []byte { w.saw(ch, payload); return payload }
	if n.kind == kRedis {
		n.redis.mu.Lock()
		n.redis.tap = tap
		n.redis.mu.Unlock()
	} else {
		n.nats.mu.Lock()
		n.nats.tap = tap
		n.nats.mu.Unlock()
	}
	return w
}

func (w *wire) stop() {
	if w.n.kind == kRedis {
		w.n.redis.mu.Lock()
		w.n.redis.tap = nil
		w.n.redis.mu.Unlock()
	} else {
		w.n.nats.mu.Lock()
		w.n.nats.tap = nil
		w.n.nats.mu.Unlock()
	}
}

// saw gets all that is published, while the lock of the server is held.
func (w *wire) saw(ch string, payload []byte) {
	if !strings.Contains(ch, w.svc) {
		return
	}
	env := wparse(payload)
	name, ok := strings.CutPrefix(env.s(1), "type.googleapis.com/")
	if !env.ok || !ok {
		w.c.Violate("wire", "published on %s: % x", ch, payload)
		return
	}
	v := wparse([]byte(env.s(2)))
	if !v.ok {
		w.c.Violate("wire", "published on %s: % x", ch, payload)
		return
	}
	where := ch
	if w.n.kind == kNats && env.s(3) != "" {
		where += "#" + env.s(3)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seen++
	for _, q := range w.wait[name+"@"+where] {
		select {
		case q <- v:
		default:
		}
	}
}

// listen gets the messages of a type on a channel.
func (w *wire) listen(name, where string) chan wval {
	q := make(chan wval, 1000)
	w.mu.Lock()
	w.wait[name+"@"+where] = append(w.wait[name+"@"+where], q)
	w.mu.Unlock()
	return q
}

func (w *wire) send(name, where string, m wmsg) {
	env := wmsg(nil).str(1, "type.googleapis.com/"+name).msg(2, m)
	subject, local, _ := strings.Cut(where, "#")
	if w.n.kind == kNats {
		env = env.str(3, local)
		w.n.nats.inject(subject, env)
		return
	}
	w.n.redis.inject(subject, string(env))
}

// names of the channels
func (w *wire) req(m, topic string, queue bool, what string) string {
	if w.n.kind == kRedis {
		if topic != "" {
			m += "|" + topic
		}
		return w.svc + "|" + m + "|" + what
	}
	s := "SRV." + w.svc
	if topic != "" {
		s += "." + topic
	}
	if queue && what == "REQ" {
		s += ".Q"
	}
	return s + "#" + m + "." + what
}

func (w *wire) cli(id, what string) string {
	if w.n.kind == kRedis {
		return w.svc + "|" + id + "|" + what
	}
	return "CLI." + w.svc + "." + id + "." + what
}

var errWire = errors.New("nothing came")

func (w *wire) next(q chan wval, d time.Duration, pred func(v wval) bool) (wval, error) {
	t := time.After(d)
	var others []wval
	defer func() {
		for _, v := range others {
			q <- v
		}
	}()
	for {
		select {
		case v := <-q:
			if pred(v) {
				return v, nil
			}
			others = append(others, v)
		case <-t:
			return wval{}, errWire
		}
	}
}

// fresh: the message says that it was sent just now.
func (w *wire) fresh(v wval, t0 time.Time) bool {
	d := time.Unix(0, v.n[3]).Sub(t0)
	return d >= 0 && d < w.c.Slack()
}

type wireMethod struct {
	name                 string
	claim, queue, stream bool
}

var wireMethods = []wireMethod{
	{mNormal, true, true, false}, {mAff, true, false, false}, {mMulti, false, false, false}, {mSingle, false, false, false}, {mQueueNC, false, true, false},
	{mStream, true, true, true}, {mStreamAff, true, false, true}, {mStreamNC, false, true, true},
}

func c23wire(c *C) {
	r := c.LRand(1)
	n := c.NewNet([]string{kRedis, kNats}[r.Intn(2)])
	svc := c.SvcName()
	w := newWire(c, n, svc)
	defer w.stop()
	base := c.LeakBase()
	topic := []string{"", "room1", "a_B9"}[r.Intn(3)]
	var tp []string
	if topic != "" {
		tp = []string{topic}
	}
	u := nextUniqSync()
	var fs []func()
	if r.Intn(2) == 0 { // a client of another make
		s := c.Server(n.Endpoint(), svc, "srv")
		type seen struct {
			head *metadata.Header
			dl   time.Time
		}
		var mu sync.Mutex
		heads := map[string]seen{}
		note := func(ctx context.Context, v string) {
			dl, _ := ctx.Deadline()
			h := metadata.IncomingHeader(ctx)
			mu.Lock()
			heads[v] = seen{h, dl}
			mu.Unlock()
		}
		for _, m := range wireMethods {
			m := m
			if m.stream {
				must(server.RegisterStreamHandler(s, m.name, tp, func(ss psrpc.ServerStream[str, str]) error {
					note(ss.Context(), m.name)
					for q := range ss.Channel() {
						if q.Value == "end" {
							return psrpc.NewErrorf(psrpc.OutOfRange, "ended")
						}
						// the last one may be closed by the peer at the moment of the acknowledgement
						if err := ss.Send(S("re:" + q.Value)); err != nil {
							break
						}
					}
					mu.Lock()
					heads["closed "+m.name] = seen{&metadata.Header{RemoteID: fmt.Sprint(code(ss.Err()), ss.Err())}, time.Time{}}
					mu.Unlock()
					return nil
				}, nil))
				continue
			}
			must(server.RegisterHandler(s, m.name, tp, func(ctx context.Context, req str) (str, error) {
				note(ctx, req.Value)
				if strings.HasPrefix(req.Value, "fail") {
					return nil, psrpc.NewError(psrpc.ResourceExhausted, errors.New("none left"), S("d"))
				}
				return S("re:" + req.Value), nil
			}, nil))
		}
		c.Settle()
		cid := fmt.Sprint("CLI_wire", u)
		responses := w.listen("internal.Response", w.cli(cid, "RES"))
		claims := w.listen("internal.ClaimRequest", w.cli(cid, "CLAIM"))
		for k, cnt := 0, 2+r.Intn(5); k < cnt; k++ {
			m := wireMethods[r.Intn(len(wireMethods))]
			rid := fmt.Sprintf("REQ_%d_%d", u, k)
			val := fmt.Sprintf("%s%d.%d", []string{"", "fail"}[r.Intn(2)], u, k)
			md := map[string]string{"a": "1", "call": val}
			if r.Intn(3) == 0 {
				md = nil
			}
			life := time.Duration(2+r.Intn(5)) * time.Second
			oldRaw := r.Intn(2) == 0 // the payload may be followed by more fields
			closeByPeer := r.Intn(2) == 0
			run := func() {
				now := time.Now()
				expiry := now.Add(life)
				if m.stream {
					sid := "STR_" + rid
					mine := w.listen("internal.Stream", w.cli(cid, "STR"))
					w.send("internal.Stream", w.req(m.name, topic, m.queue, "STR"), wmsg(nil).str(1, sid).str(2, rid).num(3, now.UnixNano()).num(4, expiry.UnixNano()).msg(6, wmsg(nil).str(1, cid).meta(7, md)))
					if m.claim {
						cl, err := w.next(claims, 2*time.Second, func(v wval) bool { return v.s(1) == rid })
						if err != nil || cl.s(2) != "srv" || cl.f[3] != 1 {
							c.Violate("wire-claim", "stream %s: claim %v %v", m.name, cl, err)
							return
						}
						w.send("internal.ClaimResponse", w.req(m.name, topic, m.queue, "RCLAIM"), wmsg(nil).str(1, rid).str(2, "srv"))
					}
					own := func(v wval) bool { return v.s(1) == sid }
					a, err := w.next(mine, 2*time.Second, own)
					if err != nil || !a.has(8) || a.s(2) != rid {
						c.Violate("wire-open", "stream %s: no acknowledgement of the open: %v %v", m.name, a, err)
						return
					}
					for i := 0; i < 3; i++ {
						v := fmt.Sprint(val, "-", i)
						mid := fmt.Sprint(rid, "m", i)
						now := time.Now()
						w.send("internal.Stream", w.req(m.name, topic, m.queue, "STR"), wmsg(nil).str(1, sid).str(2, mid).num(3, now.UnixNano()).num(4, now.Add(3*time.Second).UnixNano()).msg(7, wmsg(nil).msg(2, wmsg(nil).str(1, v))))
						acked, echoed := false, false
						for !acked || !echoed {
							a, err := w.next(mine, 2*time.Second, own)
							if err != nil {
								c.Violate("wire-stream", "stream %s: acked %v echoed %v", m.name, acked, echoed)
								return
							}
							switch {
							case a.has(8) && a.s(2) == mid && !acked:
								acked = true
							case a.has(7) && !echoed && wparse([]byte(wparse([]byte(a.s(7))).s(2))).s(1) == "re:"+v:
								echoed = true
								if lim := a.n[4] - a.n[3]; lim != int64(psrpc.DefaultServerTimeout) {
									c.Violate("wire-stream", "stream message with a lifetime of %v", time.Duration(lim))
								}
								w.send("internal.Stream", w.req(m.name, topic, m.queue, "STR"), wmsg(nil).str(1, sid).str(2, a.s(2)).num(3, a.n[3]).num(4, a.n[4]).msg(8, nil))
							default:
								c.Violate("wire-stream", "stream %s got %v", m.name, a)
								return
							}
						}
					}
					if closeByPeer {
						now := time.Now()
						w.send("internal.Stream", w.req(m.name, topic, m.queue, "STR"), wmsg(nil).str(1, sid).str(2, rid+"c").num(3, now.UnixNano()).num(4, now.Add(time.Second).UnixNano()).msg(9, wmsg(nil).str(1, "bye").str(2, "not_found")))
						c.Settle()
						mu.Lock()
						h, ok := heads["closed "+m.name]
						mu.Unlock()
						if !ok || h.head.RemoteID != "not_found"+"bye" {
							c.Violate("wire-close", "stream %s closed by the peer: %v %+v", m.name, ok, h.head)
						}
					} else {
						now := time.Now()
						w.send("internal.Stream", w.req(m.name, topic, m.queue, "STR"), wmsg(nil).str(1, sid).str(2, rid+"e").num(3, now.UnixNano()).num(4, now.Add(3*time.Second).UnixNano()).msg(7, wmsg(nil).msg(2, wmsg(nil).str(1, "end"))))
						a, err := w.next(mine, 2*time.Second, func(v wval) bool { return own(v) && v.has(9) })
						cl := wparse([]byte(a.s(9)))
						if err != nil || cl.s(1) != "ended" || cl.s(2) != "out_of_range" {
							c.Violate("wire-close", "stream %s ended with %v %v", m.name, cl, err)
						}
					}
					mu.Lock()
					h := heads[m.name]
					mu.Unlock()
					c23head(c, h.head, cid, now, md)
					c.Ev("wire stream %s", m.name)
					c.Count("wire_streams", 1)
					return
				}
				b := wmsg(nil).str(1, rid).str(2, cid).num(3, now.UnixNano()).num(4, expiry.UnixNano())
				if m.name == mMulti {
					b = b.num(5, 1)
				}
				b = b.meta(7, md).msg(8, wmsg(nil).str(1, val))
				if oldRaw {
					b = b.str(50, "newer")
				}
				w.send("internal.Request", w.req(m.name, topic, m.queue, "REQ"), b)
				if m.claim {
					cl, err := w.next(claims, 2*time.Second, func(v wval) bool { return v.s(1) == rid })
					if err != nil || cl.s(2) != "srv" || cl.f[3] != 1 {
						c.Violate("wire-claim", "%s: claim %v %v", m.name, cl, err)
						return
					}
					w.send("internal.ClaimResponse", w.req(m.name, topic, m.queue, "RCLAIM"), wmsg(nil).str(1, rid).str(2, "srv"))
				}
				a, err := w.next(responses, 2*time.Second, func(v wval) bool { return v.s(1) == rid })
				if err != nil {
					c.Violate("wire-response", "%s: no response", m.name)
					return
				}
				ago := time.Since(time.Unix(0, a.n[3]))
				if a.s(2) != "srv" || ago < 0 || ago > 3*time.Second {
					c.Violate("wire-response", "%s: %v", m.name, a)
				}
				if strings.HasPrefix(val, "fail") {
					d := wparse([]byte(a.s(8)))
					if a.s(5) != "none left" || a.s(6) != "resource_exhausted" || a.s(7) != "" || d.s(1) != "type.googleapis.com/google.protobuf.StringValue" || wparse([]byte(d.s(2))).s(1) != "d" {
						c.Violate("wire-response", "%s: %v", m.name, a)
					}
				} else if a.s(5) != "" || a.s(6) != "" || wparse([]byte(a.s(7))).s(1) != "re:"+val {
					c.Violate("wire-response", "%s: %v", m.name, a)
				}
				mu.Lock()
				h := heads[val]
				mu.Unlock()
				c23head(c, h.head, cid, now, md)
				if !h.dl.Equal(expiry) {
					c.Violate("wire-deadline", "%s: deadline %v, expiry %v", m.name, h.dl, expiry)
				}
				c.Ev("wire call %s", m.name)
				c.Count("wire_calls", 1)
			}
			fs = append(fs, run)
		}
		// the streams of a method share a record
		ok := true
		for _, f := range fs {
			ok = ok && c.Within(30*time.Second, f)
		}
		if !ok {
			c.Violate("hang", "the peer hangs\n%s", psrpcStacks())
			return
		}
		c.Within(10*time.Second, func() { s.Close(true) })
	} else { // a server of another make
		clid := ""
		if r.Intn(2) == 0 {
			clid = fmt.Sprint("CLI_x", u)
		}
		cl := c.Client(n.Endpoint(), svc, clid)
		cid := cl.ID
		if clid != "" && cid != clid {
			c.Violate("wire", "client id %s", cid)
		}
		c.Settle()
		for k, cnt := 0, 2+r.Intn(5); k < cnt; k++ {
			m := wireMethods[r.Intn(len(wireMethods))]
			val := fmt.Sprintf("%d.%d", u, k)
			md := metadata.Metadata{"a": "1", "call": val}
			ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), md)
			life := time.Duration(2+r.Intn(5)) * time.Second
			fail := r.Intn(2) == 0
			how := r.Intn(3)
			fs = append(fs, func() {
				var wg sync.WaitGroup
				defer wg.Wait()
				t0 := time.Now()
				if m.stream {
					in := w.listen("internal.Stream", w.req(m.name, topic, m.queue, "STR"))
					acc := w.listen("internal.ClaimResponse", w.req(m.name, topic, m.queue, "RCLAIM"))
					wg.Add(1)
					go func() {
						defer wg.Done()
						o, err := w.next(in, time.Second, func(v wval) bool { return v.has(6) })
						open := wparse([]byte(o.s(6)))
						if err != nil || open.s(1) != cid || fmt.Sprint(open.md(7)) != fmt.Sprint(map[string]string(md)) || !w.fresh(o, t0) || o.n[4]-o.n[3] != int64(life) || o.s(1) == "" || o.s(2) == "" {
							c.Violate("wire-open", "open of %s: %v %v, %v", m.name, o, open, err)
							return
						}
						sid := o.s(1)
						if m.claim {
							w.send("internal.ClaimRequest", w.cli(cid, "CLAIM"), wmsg(nil).str(1, o.s(2)).str(2, "other").float(3, 0.75))
							a, err := w.next(acc, 2*time.Second, func(v wval) bool { return v.s(1) == o.s(2) })
							if err != nil || a.s(2) != "other" {
								c.Violate("wire-claim", "%s: accepted %v %v", m.name, a, err)
								return
							}
						}
						out := func(rid string, sent, exp int64, num protowire.Number, b wmsg) {
							w.send("internal.Stream", w.cli(cid, "STR"), wmsg(nil).str(1, sid).str(2, rid).num(3, sent).num(4, exp).msg(num, b))
						}
						out(o.s(2), o.n[3], o.n[4], 8, nil)
						for i := 0; i < 2; i++ {
							q, err := w.next(in, 2*time.Second, func(v wval) bool { return v.s(1) == sid && v.has(7) })
							body := wparse([]byte(wparse([]byte(q.s(7))).s(2)))
							if err != nil || body.s(1) != fmt.Sprint(val, "-", i) || q.n[4]-q.n[3] != int64(life) {
								c.Violate("wire-stream", "%s got %v %v", m.name, q, err)
								return
							}
							out(q.s(2), q.n[3], q.n[4], 8, nil)
							now := time.Now()
							mid := fmt.Sprint("m", i)
							out(mid, now.UnixNano(), now.Add(time.Second).UnixNano(), 7, wmsg(nil).msg(2, wmsg(nil).str(1, "re:"+body.s(1))))
							if _, err := w.next(in, time.Second, func(v wval) bool { return v.s(1) == sid && v.s(2) == mid && v.has(8) }); err != nil {
								c.Violate("wire-stream", "%s: message not acknowledged", m.name)
								return
							}
						}
						if fail {
							time.Sleep(c.Slack()) // the client has taken the acknowledgement
							now := time.Now()
							out("x", now.UnixNano(), now.Add(time.Second).UnixNano(), 9, wmsg(nil).str(1, "gone").str(2, "not_found"))
							return
						}
						q, err := w.next(in, 2*time.Second, func(v wval) bool { return v.s(1) == sid && v.has(9) })
						b := wparse([]byte(q.s(9)))
						if err != nil || b.s(1) != "enough" || b.s(2) != "aborted" {
							c.Violate("wire-close", "%s: close %v %v", m.name, b, err)
						}
					}()
					st, err := client.OpenStream[str, str](ctx, cl, m.name, tp, psrpc.WithRequestTimeout(life))
					if err != nil {
						c.Violate("wire-open", "opening %s: %v", m.name, err)
						return
					}
					for i := 0; i < 2; i++ {
						if err := st.Send(S(fmt.Sprint(val, "-", i))); err != nil {
							c.Violate("wire-stream", "sending on %s: %v", m.name, err)
							return
						}
						select {
						case q, ok := <-st.Channel():
							if !ok || q.Value != fmt.Sprint("re:", val, "-", i) {
								c.Violate("wire-stream", "%s received %v", m.name, q)
							}
						case <-time.After(2 * time.Second):
							c.Violate("wire-stream", "%s received nothing", m.name)
							return
						}
					}
					time.Sleep(c.Slack())
					if fail {
						if _, ok := <-st.Channel(); ok || code(st.Err()) != psrpc.NotFound || st.Err().Error() != "gone" {
							c.Violate("wire-close", "%s ended with %v", m.name, st.Err())
						}
					} else if err := st.Close(psrpc.NewErrorf(psrpc.Aborted, "enough")); err != nil {
						c.Violate("wire-close", "closing %s: %v", m.name, err)
					}
					c.Ev("served stream %s", m.name)
					c.Count("wire_streams_served", 1)
					return
				}
				in := w.listen("internal.Request", w.req(m.name, topic, m.queue, "REQ"))
				acc := w.listen("internal.ClaimResponse", w.req(m.name, topic, m.queue, "RCLAIM"))
				wg.Add(1)
				go func() {
					defer wg.Done()
					q, err := w.next(in, time.Second, func(v wval) bool { return wparse([]byte(v.s(8))).s(1) == val })
					multi := int64(0)
					if m.name == mMulti {
						multi = 1
					}
					if err != nil || q.s(1) == "" || q.s(2) != cid || !w.fresh(q, t0) || q.n[4]-q.n[3] != int64(life) || q.n[5] != multi || fmt.Sprint(q.md(7)) != fmt.Sprint(map[string]string(md)) {
						c.Violate("wire-request", "%s: %v %v", m.name, q, err)
						return
					}
					rid := q.s(1)
					if m.claim {
						w.send("internal.ClaimRequest", w.cli(cid, "CLAIM"), wmsg(nil).str(1, rid).str(2, "other").float(3, 0.75))
						a, err := w.next(acc, 2*time.Second, func(v wval) bool { return v.s(1) == rid })
						if err != nil || a.s(2) != "other" {
							c.Violate("wire-claim", "%s: accepted %v %v", m.name, a, err)
							return
						}
					}
					res := wmsg(nil).str(1, rid).str(2, "other").num(3, time.Now().UnixNano())
					if fail {
						switch how {
						case 0:
							res = res.str(5, "no").str(6, "permission_denied").msg(8, wmsg(nil).str(1, "type.googleapis.com/google.protobuf.StringValue").msg(2, wmsg(nil).str(1, "d")))
						case 1: // without a code
							res = res.str(5, "no")
						case 2: // without a message
							res = res.str(6, "permission_denied")
						}
					} else {
						res = res.msg(7, wmsg(nil).str(1, "re:"+val))
					}
					w.send("internal.Response", w.cli(cid, "RES"), res)
				}()
				var res string
				var err error
				if m.name == mMulti {
					ch, e := callMulti(ctx, cl, m.name, tp, val, psrpc.WithRequestTimeout(life))
					if e != nil {
						c.Violate("wire-response", "%s: %v", m.name, e)
						return
					}
					k := 0
					for q := range ch {
						k++
						res, err = q.Result.GetValue(), q.Err
					}
					if k != 1 {
						c.Violate("wire-response", "%s: %d answers", m.name, k)
					}
				} else {
					res, err = call(ctx, cl, m.name, tp, val, psrpc.WithRequestTimeout(life))
				}
				if fail {
					want := [][2]string{{"permission_denied", "no"}, {"unknown", "no"}, {"permission_denied", ""}}[how]
					var e psrpc.Error
					if !errors.As(err, &e) || string(e.Code()) != want[0] || e.Error() != want[1] || (len(e.Details()) == 1) != (how == 0) {
						c.Violate("wire-response", "%s failed with %T %v", m.name, err, err)
					}
				} else if err != nil || res != "re:"+val {
					c.Violate("wire-response", "%s gave %q, %v", m.name, res, err)
				}
				c.Ev("served %s", m.name)
				c.Count("wire_calls_served", 1)
			})
		}
		ok := true
		for _, f := range fs {
			ok = ok && c.Within(30*time.Second, f)
		}
		if !ok {
			c.Violate("hang", "the client hangs\n%s", psrpcStacks())
			return
		}
		cl.Close()
	}
	c.Shape("topic=%s n=%d", topic, len(fs))
	c.Settle()
	c.LeakCheck(base, "goroutine-left")
	w.mu.Lock()
	c.Count("wire_messages", w.seen)
	w.mu.Unlock()
}

func c23head(c *C, h *metadata.Header, cid string, sent time.Time, md map[string]string) {
	if h == nil || h.RemoteID != cid || !h.SentAt.Equal(sent) || fmt.Sprint(map[string]string(h.Metadata)) != fmt.Sprint(md) {
		c.Violate("wire-header", "header %+v, want %s %v %v", h, cid, sent, md)
	}
}
