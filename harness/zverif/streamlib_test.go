package zverif

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
	"weak"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/metadata"
	"github.com/livekit/psrpc/pkg/server"
)

// The recorder and offline checker of stream traffic (C07, C08, C09).

type stSend struct {
	val        string
	start, end time.Time
	err        error
	done       bool
}

// stSide is one end of one stream.
type stSide struct {
	id       string // stream label given by the opener
	who      string // "c" or "s"
	ms       psrpc.ServerStream[str, str]
	sends    []*stSend
	got      []string
	gotAt    []time.Time
	ended    time.Time // channel seen closed
	closes   []stClose
	handlerE time.Time // handler returned (server side)
	handlerV error
	server   string
	opened   time.Time
}

type stClose struct {
	cause      error
	start, end time.Time
	err        error
}

type strec struct {
	c  *C
	mu sync.Mutex
	c1 map[string]*stSide   // client sides by label
	s1 map[string][]*stSide // server sides by label (several: a defect)

	weaks []weakRef
}

type weakRef struct {
	what string
	p    weak.Pointer[byte]
}

func newStrec(c *C) *strec {
	return &strec{c: c, c1: map[string]*stSide{}, s1: map[string][]*stSide{}}
}

// Track remembers the object behind an interface or pointer, without keeping it alive.
func (s *strec) track(what string, v any) {
	p := (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]
	s.mu.Lock()
	s.weaks = append(s.weaks, weakRef{what, weak.Make((*byte)(p))})
	s.mu.Unlock()
}

// alive lists the tracked objects that are still reachable.
func (s *strec) alive() (out []string) {
	for i := 0; i < 4; i++ {
		runtime.GC()
		out = nil
		s.mu.Lock()
		for _, w := range s.weaks {
			if w.p.Value() != nil {
				out = append(out, w.what)
			}
		}
		s.mu.Unlock()
		if len(out) == 0 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	return
}

func (s *strec) side(who, id, srv string, ms psrpc.ServerStream[str, str]) *stSide {
	x := &stSide{id: id, who: who, ms: ms, server: srv, opened: time.Now()}
	s.mu.Lock()
	if who == "c" {
		s.c1[id] = x
	} else {
		s.s1[id] = append(s.s1[id], x)
	}
	s.mu.Unlock()
	return x
}

// label of a stream, from the metadata of its opener
func streamLabel(ctx context.Context) string {
	if h := metadata.IncomingHeader(ctx); h != nil {
		return h.Metadata["label"]
	}
	return ""
}

func withLabel(ctx context.Context, id string) context.Context {
	return metadata.AppendMetadataToOutgoingContext(ctx, "label", id)
}

// open opens a stream whose label travels in the metadata.
func (s *strec) open(ctx context.Context, cl *client.RPCClient, method string, topic []string, id string, opts ...psrpc.RequestOption) (*stSide, error) {
	ctx = metadata.AppendMetadataToOutgoingContext(ctx, "label", id)
	st, err := client.OpenStream[str, str](ctx, cl, method, topic, opts...)
	s.c.Ev("open %s %s", id, code(err))
	if err != nil {
		return nil, err
	}
	return s.side("c", id, "", clientAsServer{st}), nil
}

type clientAsServer struct{ psrpc.ClientStream[str, str] }

func (clientAsServer) Hijack() {}

func (s *strec) register(srv *server.RPCServer, id, method string, topic []string, h func(x *stSide) error, aff server.StreamAffinityFunc) error {
	return server.RegisterStreamHandler(srv, method, topic, func(st psrpc.ServerStream[str, str]) error {
		x := s.side("s", streamLabel(st.Context()), id, st)
		s.c.Ev("handler %s %s", id, x.id)
		err := h(x)
		s.mu.Lock()
		x.handlerE, x.handlerV = time.Now(), err
		s.mu.Unlock()
		s.c.Ev("handlerend %s", x.id)
		return err
	}, aff)
}

// send sends the k-th message of a sender on this side.
func (s *strec) send(x *stSide, sender, k int, pad int, opts ...psrpc.StreamOption) *stSend {
	m := &stSend{val: fmt.Sprintf("%s %s %d %d %s", x.id, x.who, sender, k, strings.Repeat("x", pad)), start: tick()}
	s.mu.Lock()
	x.sends = append(x.sends, m)
	s.mu.Unlock()
	err := x.ms.Send(S(m.val), opts...)
	s.mu.Lock()
	m.end, m.err, m.done = tick(), err, true
	s.mu.Unlock()
	s.c.Ev("sent %s%s %d.%d %s", x.id, x.who, sender, k, code(err))
	return m
}

// read receives until the channel is closed.
func (s *strec) read(x *stSide, pause func() time.Duration) {
	for {
		if pause != nil {
			if d := pause(); d > 0 {
				time.Sleep(d)
			}
		}
		m, ok := <-x.ms.Channel()
		s.mu.Lock()
		if !ok {
			x.ended = time.Now()
			s.mu.Unlock()
			return
		}
		if m == nil {
			s.mu.Unlock()
			s.c.Violate("nil-message", "a nil message was received")
			continue
		}
		x.got = append(x.got, m.Value)
		x.gotAt = append(x.gotAt, time.Now())
		s.mu.Unlock()
	}
}

func (s *strec) close(x *stSide, cause error) {
	t := time.Now()
	err := x.ms.Close(cause)
	s.mu.Lock()
	x.closes = append(x.closes, stClose{cause, t, time.Now(), err})
	s.mu.Unlock()
	s.c.Ev("close %s%s %v", x.id, x.who, code(err))
}

// check judges the traffic of all streams; everything has ended and was drained.
func (s *strec) check() (delivered, acked, failed int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.c
	dir := func(from, to *stSide) {
		idx := map[string]*stSend{}
		for _, m := range from.sends {
			idx[m.val] = m
		}
		pos := map[string]int{}
		if to != nil {
			for i, v := range to.got {
				if idx[v] == nil {
					c.Violate("foreign-message", "side %s of stream %s received %.60q, which the other side did not send", to.who, to.id, v)
					continue
				}
				if _, dup := pos[v]; dup {
					c.Violate("duplicate", "side %s of stream %s received %.60q twice", to.who, to.id, v)
				}
				pos[v] = i
				delivered++
			}
		}
		// the order of sends: b was sent after a had returned => b is received after a
		for i, a := range from.sends {
			if !a.done {
				c.Violate("send-hangs", "Send of %.60q on side %s of stream %s did not return\n%s", a.val, from.who, from.id, psrpcStacks())
				continue
			}
			if a.err == nil {
				acked++
				if _, ok := pos[a.val]; !ok {
					c.Violate("acked-not-received", "Send of %.60q on side %s of stream %s reported success (%v after it began) but was never received", a.val, from.who, from.id, a.end.Sub(a.start))
				}
			} else {
				failed++
			}
			pa, ok := pos[a.val]
			if !ok {
				continue
			}
			for _, b := range from.sends[i+1:] {
				if pb, ok := pos[b.val]; ok && b.start.After(a.end) && pb < pa {
					c.Violate("order", "side %s of stream %s: %.60q was sent after %.60q but received before it", from.who, from.id, b.val, a.val)
				}
			}
		}
	}
	for id, cs := range s.c1 {
		ss := s.s1[id]
		if len(ss) > 1 {
			c.Violate("handler-twice", "stream %s was served by %d handlers (%s, %s)", id, len(ss), ss[0].server, ss[1].server)
			continue
		}
		var x *stSide
		if len(ss) == 1 {
			x = ss[0]
		} else {
			c.Violate("no-handler", "the open of stream %s succeeded but no handler was started", id)
		}
		dir(cs, x)
		if x != nil {
			dir(x, cs)
		}
	}
	return
}

// inProgress counts things
type gauge struct{ n atomic.Int64 }

// release forgets the streams, keeping weak references to them.
func (s *strec) release() {
	s.mu.Lock()
	var all []*stSide
	for _, x := range s.c1 {
		all = append(all, x)
	}
	for _, l := range s.s1 {
		all = append(all, l...)
	}
	s.mu.Unlock()
	for _, x := range all {
		what := fmt.Sprintf("stream %s on side %s", x.id, x.who)
		if cs, ok := x.ms.(clientAsServer); ok {
			s.track(what, cs.ClientStream)
		} else if x.ms != nil {
			s.track(what, x.ms)
		}
		x.ms = nil
	}
}

// checkState reports streams that something still refers to, after release.
func (s *strec) checkState(rule string) {
	a := s.alive()
	s.c.Count("state_checks", len(s.weaks))
	if len(a) > 0 {
		s.c.Violate(rule, "%d streams that have ended are still referred to: %s", len(a), strings.Join(a[:min(len(a), 4)], ", "))
	}
}

func (s *strec) all() (out []*stSide) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.c1 {
		out = append(out, x)
	}
	for _, l := range s.s1 {
		out = append(out, l...)
	}
	return
}

// sameErr: does an error seen at one end report this cause?
func sameCause(e, cause error) bool {
	if e == nil || cause == nil {
		return e == cause
	}
	want := code(cause)
	if want == "none" {
		want = psrpc.Unknown
	}
	got := code(e)
	if got == "none" {
		got = psrpc.Unknown
	}
	return got == want && (e.Error() == cause.Error() || strings.Contains(cause.Error(), e.Error()) && code(cause) != "none" && e.Error() != "")
}
