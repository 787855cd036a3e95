package zverif

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/pkg/server"
)

// C13: registration is exclusive, complete and reversible.

func init() {
	reg("C13", "race", 400, 4000, c13race)
	reg("C13", "model", 400, 4000, c13model)
	reg("C13", "fault", 200, 2000, c13fault)
	reg("C13", "group", 200, 2000, c13group)
	reg("C13", "closing", 300, 3000, c13closing)
}

var c13methods = []string{mNormal, mAff, mMulti, mSingle, mQueueNC, mStream, mStreamNC}

// c13reg registers a handler that answers with tag.
func c13reg(c *C, s *server.RPCServer, method string, topic []string, tag string, execs *tally) error {
	if strings.HasPrefix(method, "Stream") {
		return server.RegisterStreamHandler(s, method, topic, func(st psrpc.ServerStream[str, str]) error {
			execs.add(tag)
			c.Ev("sexec %s", tag)
			_ = st.Send(S(tag))
			for range st.Channel() {
			}
			return nil
		}, nil)
	}
	return server.RegisterHandler(s, method, topic, func(ctx context.Context, req str) (str, error) {
		execs.add(tag)
		c.Ev("exec %s", tag)
		return S(tag), nil
	}, nil)
}

// c13probe finds out who answers on method/topic: tags of all answers.
func c13probe(c *C, x *probeClient, method string, topic []string, limit time.Duration) []string {
	switch {
	case strings.HasPrefix(method, "Stream"):
		st, err := x.open(method, topic, limit)
		if err != nil {
			return nil
		}
		defer st.Close(nil)
		select {
		case m := <-st.Channel():
			if m == nil {
				return nil
			}
			return []string{m.Value}
		case <-time.After(limit):
			return []string{"NO-MESSAGE"}
		}
	case method == mMulti:
		ch, err := callMulti(context.Background(), x.cl, method, topic, "x", psrpc.WithRequestTimeout(limit))
		if err != nil {
			return nil
		}
		var out []string
		for r := range ch {
			if r.Err == nil {
				out = append(out, r.Result.Value)
			}
		}
		return out
	default:
		v, err := call(context.Background(), x.cl, method, topic, "x", psrpc.WithRequestTimeout(limit))
		if err != nil {
			return nil
		}
		return []string{v}
	}
}

func c13race(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	s := c.Server(n.Endpoint(), svc, "s0")
	x := c.probe(n.Endpoint(), svc)
	method := c13methods[r.Intn(len(c13methods))]
	topic := [][]string{nil, {"a"}, {"a", "b"}}[r.Intn(3)]
	k := 2 + r.Intn(4)
	rounds := 1 + r.Intn(3)
	c.Shape("m=%s t=%v k=%d rounds=%d", method, topic, k, rounds)
	execs := newTally()
	limit := 600*time.Millisecond + c.Slack()
	for round := 0; round < rounds; round++ {
		errs := make([]error, k)
		var fs []func()
		for i := 0; i < k; i++ {
			d := time.Duration(r.Intn(3)) * time.Millisecond
			fs = append(fs, func() {
				time.Sleep(d)
				errs[i] = c13reg(c, s, method, topic, fmt.Sprintf("r%d.%d", round, i), execs)
				c.Ev("reg %d %v", i, errs[i] == nil)
			})
		}
		if !c.Par(time.Minute, fs...) {
			c.Violate("hang", "registration did not return\n%s", psrpcStacks())
			return
		}
		win := -1
		for i, err := range errs {
			if err == nil {
				if win >= 0 {
					c.Violate("two-registrations", "registrations %d and %d of %s %v both succeeded", win, i, method, topic)
				}
				win = i
			}
		}
		if win < 0 {
			c.Violate("no-registration", "none of %d concurrent registrations of %s %v succeeded: %v", k, method, topic, errs)
			return
		}
		c.Settle()
		want := fmt.Sprintf("r%d.%d", round, win)
		got := c13probe(c, x, method, topic, limit)
		if len(got) != 1 || got[0] != want {
			c.Violate("wrong-handler", "after registration %s succeeded, %s %v is answered by %v", want, method, topic, got)
		}
		if !c.Within(time.Minute, func() { s.DeregisterHandler(method, topic) }) {
			c.Violate("hang", "DeregisterHandler did not return\n%s", psrpcStacks())
			return
		}
		if round == rounds-1 || r.Intn(2) == 0 {
			c.Settle()
			if got := c13probe(c, x, method, topic, limit); len(got) > 0 {
				c.Violate("served-after-deregister", "%s %v is answered by %v after it was deregistered", method, topic, got)
			}
			s.DeregisterHandler(method, topic) // nothing to do
		}
	}
	if !c.Within(time.Minute, func() { s.Close(r.Intn(2) == 0) }) {
		c.Violate("hang", "server close did not return\n%s", psrpcStacks())
		return
	}
	if err := c13reg(c, s, method, topic, "late", execs); err != psrpc.ErrServerClosed {
		c.Violate("registered-after-close", "registration on a closed server: %v", err)
	}
	x.cl.Close()
	time.Sleep(20 * time.Second)
	c.LeakCheck(base, "leak")
}

// c13model runs a random sequence of operations against the obvious model.
func c13model(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	s := c.Server(n.Endpoint(), svc, "s0")
	x := c.probe(n.Endpoint(), svc)
	execs := newTally()
	type key struct{ m, t string }
	model := map[key]string{}
	topics := [][]string{nil, {"a"}, {"a", "b"}, {"ab"}}
	if tr := c.NewRand(13); tr.Intn(2) == 0 {
		// easily mistaken for each other
		all := [][]string{{"a"}, {"A"}, {"a", "b"}, {"a", "B"}, {"a.b"}, {"a|b"}, {"a b"}, {"a_b"}, {"a-b"}, {"b", "a"}, {"á"}, {"â"}, {"u+0061"}, {"a", "a"}, {"*"}, {"a", ">"}}
		tr.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		topics = all[:4]
	}
	ms := []string{c13methods[r.Intn(7)], c13methods[r.Intn(7)]}
	limit := 600*time.Millisecond + c.Slack()
	ops := 6 + r.Intn(10)
	for i := 0; i < ops; i++ {
		m := ms[r.Intn(2)]
		t := topics[r.Intn(len(topics))]
		k := key{m, strings.Join(t, "\x00")}
		switch r.Intn(5) {
		case 0, 1:
			tag := fmt.Sprintf("h%d", i)
			err := c13reg(c, s, m, t, tag, execs)
			c.Ev("register %s %v %v", m, t, err == nil)
			if _, ok := model[k]; ok != (err != nil) {
				c.Violate("register-result", "registering %s %v (registered already: %v) returned %v", m, t, ok, err)
			}
			if err == nil {
				model[k] = tag
			}
		case 2:
			c.Ev("deregister %s %v", m, t)
			s.DeregisterHandler(m, t)
			delete(model, k)
		default:
			c.Settle()
			got := c13probe(c, x, m, t, limit)
			c.Ev("probe %s %v %v", m, t, got)
			want, ok := model[k]
			if ok && (len(got) != 1 || got[0] != want) || !ok && len(got) > 0 {
				c.Violate("wrong-handler", "%s %v should be answered by %q, got %v", m, t, want, got)
			}
		}
	}
	c.Ev("end %d", len(model))
	s.Close(r.Intn(2) == 0)
	x.cl.Close()
	time.Sleep(20 * time.Second)
	c.LeakCheck(base, "leak")
}

// c13fault: a registration whose n-th subscribe fails leaves nothing and can be repeated.
func c13fault(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	fb := newFaultBus(n.Endpoint())
	s := c.Server(fb, svc, "s0")
	x := c.probe(n.Endpoint(), svc)
	method := c13methods[r.Intn(len(c13methods))]
	var topic []string
	fail := r.Intn(2)
	var cnt, failed int32
	fb.onSub = func(ch bus.Channel, q bool) error {
		if int(atomic.AddInt32(&cnt, 1))-1 == fail {
			atomic.AddInt32(&failed, 1)
			return errInjected
		}
		return nil
	}
	execs := newTally()
	err := c13reg(c, s, method, topic, "first", execs)
	c.Shape("m=%s fail=%d", method, fail)
	c.Ev("reg %v", err == nil)
	if (failed > 0) != (err != nil) {
		c.Violate("fault-result", "registration with %d failed subscribes returned %v", failed, err)
	}
	if failed == 0 {
		c.Trivial()
		return
	}
	// nothing left: no goroutine of it beyond the client's
	time.Sleep(5 * time.Second)
	got := psrpcGoroutines()
	for id, g := range got {
		if _, ok := base[id]; !ok && !strings.Contains(g, "pkg/client.") && !strings.Contains(g, "zverif.(*C).probe") && !x.goroutines[id] {
			c.ViolateKey("leak-after-failure", leakKey(g), "a failed registration left\n%s", g)
			break
		}
	}
	if err := c13reg(c, s, method, topic, "second", execs); err != nil {
		c.Violate("register-after-failure", "registering again after a failed registration: %v", err)
		return
	}
	c.Settle()
	res := c13probe(c, x, method, topic, 600*time.Millisecond+c.Slack())
	c.Ev("probe %v", res)
	if len(res) != 1 || res[0] != "second" {
		c.Violate("wrong-handler", "after a failed and a successful registration %s is answered by %v", method, res)
	}
	if !c.Within(time.Minute, func() { s.Close(false) }) {
		c.Violate("hang", "Close(false) did not return after a failed registration\n%s", psrpcStacks())
		return
	}
	x.cl.Close()
	time.Sleep(20 * time.Second)
	c.LeakCheck(base, "leak")
}

// c13group: groups are all-or-nothing.
func c13group(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	fb := newFaultBus(n.Endpoint())
	s := c.Server(fb, svc, "s0")
	x := c.probe(n.Endpoint(), svc)
	execs := newTally()
	names := []string{mNormal, mMulti, mStreamNC, mQueueNC, mSingle}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+r.Intn(4)]
	var rs server.RegistererSlice
	for _, m := range names {
		rs = append(rs, server.NewRegisterer(
			func(a, b string) error { return c13reg(c, s, m, []string{a, b}, "g."+m, execs) },
			func(a, b string) { s.DeregisterHandler(m, []string{a, b}) },
		))
	}
	how := r.Intn(3)
	c.Shape("names=%v how=%d", names, how)
	topic := []string{"x", "y"}
	blocker := ""
	switch how {
	case 0: // one member is registered already
		blocker = names[r.Intn(len(names))]
		must(c13reg(c, s, blocker, topic, "solo", execs))
	case 1: // a subscribe fails
		fail := int32(r.Intn(len(names)))
		var cnt int32
		fb.onSub = func(ch bus.Channel, q bool) error {
			if atomic.AddInt32(&cnt, 1)-1 == fail {
				return errInjected
			}
			return nil
		}
	}
	err := rs.Register("x", "y")
	fb.onSub = nil
	c.Ev("group %v", err == nil)
	if (how == 2) != (err == nil) {
		c.Violate("group-result", "group registration (%d) returned %v", how, err)
	}
	c.Settle()
	limit := 600*time.Millisecond + c.Slack()
	for _, m := range names {
		got := c13probe(c, x, m, topic, limit)
		want := ""
		if err == nil {
			want = "g." + m
		} else if m == blocker {
			want = "solo"
		}
		c.Ev("probe %s %v", m, got)
		if want == "" && len(got) > 0 || want != "" && (len(got) != 1 || got[0] != want) {
			c.Violate("group-partial", "after a group registration that returned %v, %s is answered by %v instead of %q", err, m, got, want)
		}
	}
	if blocker != "" {
		s.DeregisterHandler(blocker, topic)
	}
	if err != nil {
		if err2 := rs.Register("x", "y"); err2 != nil {
			c.Violate("group-retry", "repeating the failed group registration: %v", err2)
		}
	}
	rs.Deregister("x", "y")
	c.Settle()
	for _, m := range names {
		if got := c13probe(c, x, m, topic, limit); len(got) > 0 {
			c.Violate("served-after-deregister", "%s is answered by %v after the group was deregistered", m, got)
		}
	}
	s.Close(false)
	x.cl.Close()
	time.Sleep(20 * time.Second)
	c.LeakCheck(base, "leak")
}

// c13closing: registrations that race with the server's close are either refused or undone.
func c13closing(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	base := c.LeakBase()
	svc := c.SvcName()
	s := c.Server(n.Endpoint(), svc, "s0")
	execs := newTally()
	k := 1 + r.Intn(4)
	force := r.Intn(2) == 0
	c.Shape("k=%d force=%v", k, force)
	pre := r.Intn(3)
	for i := 0; i < pre; i++ {
		must(c13reg(c, s, c13methods[i], nil, "pre", execs))
	}
	var fs []func()
	var mu sync.Mutex
	closed := time.Time{}
	type res struct {
		start, end time.Time
		err        error
	}
	var rr []res
	for i := 0; i < k; i++ {
		m := c13methods[3+r.Intn(4)]
		d := time.Duration(r.Intn(4)) * time.Millisecond
		topic := []string{fmt.Sprint("t", r.Intn(2))}
		fs = append(fs, func() {
			time.Sleep(d)
			st := time.Now()
			err := c13reg(c, s, m, topic, "x", execs)
			c.Ev("reg %v", err)
			mu.Lock()
			rr = append(rr, res{st, time.Now(), err})
			mu.Unlock()
		})
	}
	dc := time.Duration(r.Intn(4)) * time.Millisecond
	fs = append(fs, func() {
		time.Sleep(dc)
		s.Close(force)
		c.Ev("closed")
		mu.Lock()
		closed = time.Now()
		mu.Unlock()
	})
	if !c.Par(time.Minute, fs...) {
		c.Violate("hang", "registration or close did not return\n%s", psrpcStacks())
		return
	}
	okc := 0
	for _, x := range rr {
		if x.start.After(closed) && x.err != psrpc.ErrServerClosed {
			c.Violate("registered-after-close", "a registration begun after the server was closed returned %v", x.err)
		}
		if x.err == nil {
			okc++
		}
	}
	c.Count("racing_successes", okc)
	// after the close nothing may be served or left, whatever the registrations returned
	time.Sleep(20 * time.Second)
	c.LeakCheck(base, "leak-after-close")
	if !c.Within(time.Minute, func() { s.Close(false) }) {
		c.Violate("hang", "a later Close(false) did not return\n%s", psrpcStacks())
	}
}
