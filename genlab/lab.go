// Package main of the generated-code laboratory: the runtime that the drivers emitted by
// tools/genlab.py use to exercise generated clients and servers. It is compiled, together
// with the generated code, through an overlay as github.com/livekit/psrpc/zvgen/zmain.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
)

const long = 20 * time.Second

// ---- payloads ----

func tokField(m proto.Message) protoreflect.FieldDescriptor {
	fs := m.ProtoReflect().Descriptor().Fields()
	for _, n := range []protoreflect.Name{"tok", "value"} {
		if f := fs.ByName(n); f != nil && f.Kind() == protoreflect.StringKind && !f.IsList() {
			return f
		}
	}
	return nil
}

func put[M proto.Message](m M, tok string) M {
	if f := tokField(m); f != nil {
		m.ProtoReflect().Set(f, protoreflect.ValueOfString(tok))
	}
	return m
}

// get returns the token of a message; messages that cannot carry one give "*".
func get(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "<nil>"
	}
	if f := tokField(m); f != nil {
		return m.ProtoReflect().Get(f).String()
	}
	return "*"
}

func same(got, want string) bool { return got == "*" || got == want }

// ---- a bus that records ----

type tapBus struct {
	psrpc.MessageBus
	mu   sync.Mutex
	reqs []string                        // ids of the requests and stream opens sent
	offs map[string]int                  // servers that offered to handle it, by request id
	subs map[string]map[bus.Channel]bool // addresses subscribed to, by their legacy form
	off  map[string]bool                 // published to an address that no subscriber uses, though its legacy form is
}

func (b *tapBus) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	b.mu.Lock()
	if as := b.subs[ch.Legacy]; len(as) > 0 && !as[ch] {
		b.off[fmt.Sprintf("%T to %+v, subscribed: %+v", msg, ch, as)] = true
	}
	switch m := msg.(type) {
	case *internal.Request:
		b.reqs = append(b.reqs, m.RequestId)
	case *internal.Stream:
		if m.GetOpen() != nil {
			b.reqs = append(b.reqs, m.RequestId)
		}
	case *internal.ClaimRequest:
		b.offs[m.RequestId]++
	}
	b.mu.Unlock()
	return b.MessageBus.Publish(ctx, ch, msg)
}

func (b *tapBus) note(ch bus.Channel) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.subs[ch.Legacy] == nil {
		b.subs[ch.Legacy] = map[bus.Channel]bool{}
	}
	b.subs[ch.Legacy][ch] = true
}

func (b *tapBus) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	b.note(ch)
	return b.MessageBus.Subscribe(ctx, ch, size)
}

func (b *tapBus) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	b.note(ch)
	return b.MessageBus.SubscribeQueue(ctx, ch, size)
}

func (b *tapBus) sent() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.reqs)
}

// offers for the requests sent since mark
func (b *tapBus) offers(mark int) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, id := range b.reqs[mark:] {
		n += b.offs[id]
	}
	return
}

// ---- what the implementations saw ----

type exec struct {
	server int
	method string
	tok    string
}

type rec struct {
	mu    sync.Mutex
	execs []exec
	infos []psrpc.RPCInfo
	aff   map[string]float32 // "server/method" -> affinity
	affs  map[string]int     // calls of affinity functions
	gates map[string]chan struct{}
	ins   map[string]chan struct{}
}

func newRec() *rec {
	return &rec{aff: map[string]float32{}, affs: map[string]int{}, gates: map[string]chan struct{}{}, ins: map[string]chan struct{}{}}
}

func (r *rec) gate(method string) (in chan struct{}, out chan struct{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	in, out = make(chan struct{}), make(chan struct{})
	r.ins[method], r.gates[method] = in, out
	return
}

func (r *rec) handle(server int, method, tok string) string {
	r.mu.Lock()
	r.execs = append(r.execs, exec{server, method, tok})
	in, out := r.ins[method], r.gates[method]
	delete(r.ins, method)
	delete(r.gates, method)
	r.mu.Unlock()
	if in != nil {
		close(in)
		<-out
	}
	return fmt.Sprintf("%s|%d|%s", tok, server, method)
}

func (r *rec) affinity(server int, method string) float32 {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.affs[fmt.Sprintf("%d/%s", server, method)]++
	if a, ok := r.aff[fmt.Sprintf("%d/%s", server, method)]; ok {
		return a
	}
	return 1
}

func (r *rec) setAff(server int, method string, a float32) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.aff[fmt.Sprintf("%d/%s", server, method)] = a
}

func (r *rec) affCalls(server int, method string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.affs[fmt.Sprintf("%d/%s", server, method)]
}

// ran returns the servers that executed the method since mark.
func (r *rec) ran(mark int) []exec {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]exec(nil), r.execs[mark:]...)
}

func (r *rec) mark() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.execs)
}

func (r *rec) interceptor(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
	r.mu.Lock()
	r.infos = append(r.infos, info)
	r.mu.Unlock()
	return next(ctx, req)
}

func (r *rec) lastInfo() (psrpc.RPCInfo, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.infos) == 0 {
		return psrpc.RPCInfo{}, false
	}
	return r.infos[len(r.infos)-1], true
}

func serve[Req, Res proto.Message](r *rec, server int, method string, req Req, res Res) (Res, error) {
	return put(res, r.handle(server, method, get(req))), nil
}

func serveStream[Send, Recv proto.Message](r *rec, server int, method string, st psrpc.ServerStream[Send, Recv], mk func() Send) error {
	for m := range st.Channel() {
		if err := st.Send(put(mk(), r.handle(server, method, get(m)))); err != nil {
			return nil
		}
	}
	return nil
}

// ---- a method of a service, as its definition says ----

type stream struct {
	send func(tok string) error
	recv func() (string, bool)
	stop func()
}

// within waits for a message for at most d.
func (s *stream) within(d time.Duration) (string, bool) {
	type res struct {
		tok string
		ok  bool
	}
	c := make(chan res, 1)
	go func() {
		t, ok := s.recv()
		c <- res{t, ok}
	}()
	select {
	case r := <-c:
		return r.tok, r.ok
	case <-time.After(d):
		return "nothing", false
	}
}

type M struct {
	name     string // Go name
	kind     string // unary, multi, stream, sub
	affinity bool
	multi    bool // of subscriptions: every subscriber
	topics   int  // -1: none
	single   bool
	group    string
	canTok   bool // requests, responses (messages) carry tokens

	call  func(ctx context.Context, cl int, tp []string, tok string, opts ...psrpc.RequestOption) (string, error)
	calls func(ctx context.Context, cl int, tp []string, tok string, opts ...psrpc.RequestOption) ([]string, []error, error)
	open  func(ctx context.Context, cl int, tp []string, opts ...psrpc.RequestOption) (*stream, error)
	reg   func(sv int, tp []string) error
	dereg func(sv int, tp []string)
	pub   func(ctx context.Context, sv int, tp []string, tok string) error
	sub   func(ctx context.Context, cl int, tp []string) (*stream, error)

	unimplemented func(ctx context.Context) (err error, affinity float32, hasAffinity bool)
}

type G struct {
	name    string
	topics  int
	members []string
	reg     func(sv int, tp []string) error
	dereg   func(sv int, tp []string)
}

type Svc struct {
	unit, name string
	ms         []*M
	gs         []*G
	start      func(e *env) error // creates two servers and two clients on e.bus
	unimpl     func(e *env) error // one server with the unimplemented implementation, one client
	shutdown   func(sv int)
	kill       func(sv int)
	closeCl    func(cl int)
}

type env struct {
	bus  *tapBus
	r    *rec
	s    *Svc
	out  *result
	ctx  context.Context
	uniq int
}

type result struct {
	Unit       string         `json:"unit"`
	Service    string         `json:"service"`
	Violations []viol         `json:"violations"`
	Counts     map[string]int `json:"counts"`
	Sig        string         `json:"sig"`

	mu    sync.Mutex
	doing string
}

type viol struct {
	Rule string `json:"rule"`
	Msg  string `json:"msg"`
}

var services []*Svc

func newEnv(s *Svc, out *result) *env {
	return &env{bus: &tapBus{MessageBus: psrpc.NewLocalMessageBus(), offs: map[string]int{}, subs: map[string]map[bus.Channel]bool{}, off: map[string]bool{}}, r: newRec(), s: s, out: out, ctx: context.Background()}
}

func (e *env) sopts() []psrpc.ServerOption {
	return []psrpc.ServerOption{psrpc.WithServerRPCInterceptors(e.r.interceptor)}
}

func (e *env) tok() string {
	e.uniq++
	return fmt.Sprintf("t%d", e.uniq)
}

func (e *env) doing(what string) {
	e.out.mu.Lock()
	e.out.doing = what
	e.out.mu.Unlock()
}

type enough struct{}

func (e *env) fail(rule, f string, a ...any) {
	e.out.mu.Lock()
	defer e.out.mu.Unlock()
	if len(e.out.Violations) >= 4 {
		panic(enough{})
	}
	e.out.Violations = append(e.out.Violations, viol{rule, fmt.Sprintf("%s.%s: ", e.s.unit, e.s.name) + fmt.Sprintf(f, a...)})
}

func (e *env) n(k string) {
	e.out.mu.Lock()
	e.out.Counts[k]++
	e.out.mu.Unlock()
}

func opts(d time.Duration) []psrpc.RequestOption {
	return []psrpc.RequestOption{psrpc.WithRequestTimeout(d), psrpc.WithSelectionOpts(psrpc.SelectionOpts{MaximumAffinity: 0.8, AffinityTimeout: d, AcceptFirstAvailable: false})}
}

func optsFirst(d time.Duration) []psrpc.RequestOption {
	return []psrpc.RequestOption{psrpc.WithRequestTimeout(d), psrpc.WithSelectionOpts(psrpc.SelectionOpts{AffinityTimeout: d, AcceptFirstAvailable: true})}
}

func (m *M) callOpts(d time.Duration) []psrpc.RequestOption {
	if m.affinity && !m.single {
		return opts(d)
	}
	return optsFirst(d)
}

// eventually polls a condition.
func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func topicsOf(n int, prefix string) []string {
	if n < 0 {
		return nil
	}
	tp := make([]string, n)
	for i := range tp {
		tp[i] = fmt.Sprintf("%s%d", prefix, i)
	}
	return tp
}

// servedBy: a request with these topics runs exactly on the wanted servers.
func (e *env) servedBy(m *M, tp []string, want ...int) {
	e.n(m.kind)
	if tp != nil {
		e.n(m.kind + "-topic")
	}
	e.doing(m.name)
	mark := e.r.mark()
	tok := e.tok()
	what := fmt.Sprintf("%s(%s) %s, expected on %v", m.name, strings.Join(tp, ","), m.kind, want)
	sent := e.bus.sent()
	switch m.kind {
	case "unary":
		pick := want[0]
		if m.affinity && !m.single {
			pick = want[e.uniq%len(want)]
			for _, s := range want {
				e.r.setAff(s, m.name, 0.3)
			}
			e.r.setAff(pick, m.name, 0.9)
		}
		got, err := m.call(e.ctx, 0, tp, tok, m.callOpts(long)...)
		if err != nil {
			e.fail("unserved", "%s: %v", what, err)
			return
		}
		ex := e.r.ran(mark)
		if len(ex) != 1 || ex[0].method != m.name || !same(ex[0].tok, tok) {
			e.fail("executions", "%s: executed %v", what, ex)
			return
		}
		srv := ex[0].server
		if m.affinity && !m.single && srv != pick {
			e.fail("affinity", "%s: executed on %d though the affinity function preferred %d", what, srv, pick)
		}
		if !contains(want, srv) {
			e.fail("executions", "%s: executed on %d", what, srv)
		}
		if !same(got, fmt.Sprintf("%s|%d|%s", ex[0].tok, srv, m.name)) {
			e.fail("response", "%s: response %q", what, got)
		}
		if m.affinity && !m.single {
			for _, s := range want {
				if s == pick && e.r.affCalls(s, m.name) == 0 {
					e.fail("affinity", "%s: the affinity function of the server was not called", what)
				}
			}
		}
	case "multi":
		var got []string
		var errs []error
		var err error
		for _, d := range []time.Duration{250 * time.Millisecond, 3 * time.Second, long} {
			mark = e.r.mark()
			tok = e.tok()
			got, errs, err = m.calls(e.ctx, 0, tp, tok, psrpc.WithRequestTimeout(d))
			if err != nil || len(got) >= len(want) {
				break
			}
		}
		if err != nil {
			e.fail("unserved", "%s: %v", what, err)
			return
		}
		ex := e.r.ran(mark)
		var srvs []int
		var exp []string
		for _, x := range ex {
			if m.canTok && x.tok != tok {
				continue // of an attempt given up
			}
			if x.method != m.name {
				e.fail("executions", "%s: executed %v", what, ex)
				return
			}
			srvs = append(srvs, x.server)
			exp = append(exp, fmt.Sprintf("%s|%d|%s", x.tok, x.server, m.name))
		}
		sort.Ints(srvs)
		if fmt.Sprint(srvs) != fmt.Sprint(want) {
			e.fail("executions", "%s: executed on %v", what, srvs)
			return
		}
		if len(got) != len(want) {
			e.fail("response", "%s: %d responses (errors %v)", what, len(got), errs)
			return
		}
		sort.Strings(got)
		sort.Strings(exp)
		for i := range got {
			if !same(got[i], exp[i]) {
				e.fail("response", "%s: responses %v", what, got)
			}
		}
	case "stream":
		pick := want[0]
		if m.affinity && !m.single {
			pick = want[e.uniq%len(want)]
			for _, s := range want {
				e.r.setAff(s, m.name, 0.3)
			}
			e.r.setAff(pick, m.name, 0.9)
		}
		st, err := m.open(e.ctx, 0, tp, m.callOpts(long)...)
		if err != nil {
			e.fail("unserved", "%s: %v", what, err)
			return
		}
		for i := 0; i < 2; i++ {
			if i > 0 {
				tok = e.tok()
			}
			mark = e.r.mark()
			if err := st.send(tok); err != nil {
				e.fail("stream", "%s: send: %v", what, err)
				break
			}
			got, ok := st.within(long)
			ex := e.r.ran(mark)
			if !ok || len(ex) != 1 {
				e.fail("stream", "%s: received %q %v, executed %v", what, got, ok, ex)
				break
			}
			if !contains(want, ex[0].server) || ex[0].method != m.name || !same(ex[0].tok, tok) {
				e.fail("executions", "%s: executed %v", what, ex)
			}
			if m.affinity && !m.single && ex[0].server != pick {
				e.fail("affinity", "%s: executed on %d though the affinity function preferred %d", what, ex[0].server, pick)
			}
			if !same(got, fmt.Sprintf("%s|%d|%s", ex[0].tok, ex[0].server, m.name)) {
				e.fail("response", "%s: received %q", what, got)
			}
		}
		st.stop()
	}
	// servers of a method are asked to claim unless every server is meant, or only one exists
	if m.kind != "multi" {
		dc := e.bus.offers(sent)
		switch {
		case m.single && dc > 0:
			e.fail("claims", "%s: %d claims though only one server is registered for each topic", what, dc)
		case !m.single && dc == 0:
			e.fail("claims", "%s: no claims", what)
		case m.kind == "unary" && !m.single && !m.affinity && dc > 1:
			e.fail("claims", "%s: %d servers offered to handle a request of a queue", what, dc)
		}
	} else if dc := e.bus.offers(sent); dc > 0 {
		e.fail("claims", "%s: %d claims", what, dc)
	}
	if m.kind == "unary" || m.kind == "multi" {
		info, ok := e.r.lastInfo()
		if !ok || info.Service != e.s.name || info.Method != m.name || info.Multi != (m.kind == "multi") || fmt.Sprint(info.Topic) != fmt.Sprint(tp) {
			e.fail("info", "%s: the call is described as %+v", what, info)
		}
	}
}

func contains(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// unserved: nobody serves the method with these topics.
func (e *env) unserved(m *M, tp []string, why string) {
	e.n("unserved")
	e.doing(m.name)
	mark := e.r.mark()
	var err error
	var got int
	d := 40 * time.Millisecond
	switch m.kind {
	case "unary":
		_, err = m.call(e.ctx, 0, tp, e.tok(), optsFirst(d)...)
	case "multi":
		var r []string
		r, _, err = m.calls(e.ctx, 0, tp, e.tok(), psrpc.WithRequestTimeout(d))
		got = len(r)
		if err == nil && got == 0 {
			err = errors.New("none")
		}
	case "stream":
		var st *stream
		st, err = m.open(e.ctx, 0, tp, optsFirst(d)...)
		if err == nil {
			st.stop()
		}
	}
	if ex := e.r.ran(mark); err == nil || len(ex) > 0 {
		e.fail("served", "%s(%s): served (err %v, executed %v) though %s", m.name, strings.Join(tp, ","), err, ex, why)
	}
}

func (e *env) noTopics(m *M) {
	for i := 0; i < 2; i++ {
		e.servedBy(m, nil, 0, 1)
	}
}

func rotate(tp []string) []string {
	return append(append([]string(nil), tp[1:]...), tp[0])
}

func (e *env) withTopics(m *M) {
	a, b := topicsOf(m.topics, "a"), topicsOf(m.topics, "b")
	e.unserved(m, a, "no server has registered the topic")
	if err := m.reg(0, a); err != nil {
		e.fail("register", "%s(%v): %v", m.name, a, err)
		return
	}
	if err := m.reg(1, b); err != nil {
		e.fail("register", "%s(%v): %v", m.name, b, err)
		return
	}
	if err := m.reg(0, a); err == nil {
		e.fail("register", "%s(%v): registered twice by one server", m.name, a)
	}
	e.servedBy(m, a, 0)
	e.servedBy(m, b, 1)
	if m.topics > 1 {
		e.unserved(m, rotate(a), "the topic was registered with its parts in another order")
		if !m.single {
			if err := m.reg(1, rotate(a)); err != nil {
				e.fail("register", "%s(%v): %v", m.name, rotate(a), err)
			}
			e.servedBy(m, rotate(a), 1)
			e.servedBy(m, a, 0)
			m.dereg(1, rotate(a))
		}
	}
	if !m.single {
		if err := m.reg(1, a); err != nil {
			e.fail("register", "%s(%v): %v", m.name, a, err)
		}
		e.servedBy(m, a, 0, 1)
		m.dereg(1, a)
		e.servedBy(m, a, 0)
	}
	m.dereg(0, a)
	e.unserved(m, a, "its server has deregistered the topic")
	e.servedBy(m, b, 1)
	m.dereg(1, b)
}

func (e *env) byName(n string) *M {
	for _, m := range e.s.ms {
		if m.name == n {
			return m
		}
	}
	panic("no method " + n)
}

func (e *env) groups() {
	for _, g := range e.s.gs {
		a := topicsOf(g.topics, "g")
		e.n("group")
		if err := g.reg(0, a); err != nil {
			e.fail("group", "RegisterAll%sTopics(%v): %v", g.name, a, err)
			continue
		}
		for _, n := range g.members {
			e.servedBy(e.byName(n), a, 0)
		}
		if err := g.reg(0, a); err == nil {
			e.fail("group", "RegisterAll%sTopics(%v): registered twice by one server", g.name, a)
		}
		for _, n := range g.members {
			e.servedBy(e.byName(n), a, 0)
		}
		g.dereg(0, a)
		for _, n := range g.members {
			e.unserved(e.byName(n), a, "the group was deregistered")
		}
		// all or nothing: one member is registered already
		for k, n := range g.members {
			tp := topicsOf(g.topics, fmt.Sprintf("h%d_", k))
			m := e.byName(n)
			if err := m.reg(1, tp); err != nil {
				e.fail("register", "%s(%v): %v", n, tp, err)
				continue
			}
			if err := g.reg(1, tp); err == nil {
				e.fail("group", "RegisterAll%sTopics(%v): registered though %s already was", g.name, tp, n)
				continue
			}
			e.servedBy(m, tp, 1)
			for _, o := range g.members {
				if o != n {
					e.unserved(e.byName(o), tp, "its group could not be registered")
				}
			}
			m.dereg(1, tp)
			if err := g.reg(1, tp); err != nil {
				e.fail("group", "RegisterAll%sTopics(%v) after a failed attempt: %v", g.name, tp, err)
			}
			g.dereg(1, tp)
		}
	}
}

func (e *env) subscription(m *M) {
	e.n("sub")
	e.doing(m.name)
	var tps [][]string
	if m.topics < 0 {
		tps = [][]string{nil}
	} else {
		e.n("sub-topic")
		tps = [][]string{topicsOf(m.topics, "a"), topicsOf(m.topics, "b")}
		if m.topics > 1 {
			tps = append(tps, rotate(tps[0]))
		}
	}
	type got struct {
		mu   sync.Mutex
		toks []string
	}
	subs := make([][2]*stream, len(tps))
	gots := make([][2]*got, len(tps))
	for i, tp := range tps {
		for c := 0; c < 2; c++ {
			st, err := m.sub(e.ctx, c, tp)
			if err != nil {
				e.fail("subscribe", "Subscribe%s(%v): %v", m.name, tp, err)
				return
			}
			g := &got{}
			subs[i][c], gots[i][c] = st, g
			go func() {
				for {
					t, ok := st.recv()
					if !ok {
						return
					}
					g.mu.Lock()
					g.toks = append(g.toks, t)
					g.mu.Unlock()
				}
			}()
		}
	}
	snap := func(i, c int) []string {
		gots[i][c].mu.Lock()
		defer gots[i][c].mu.Unlock()
		return append([]string(nil), gots[i][c].toks...)
	}
	const n = 4
	want := make([][]string, len(tps))
	for i, tp := range tps {
		for k := 0; k < n; k++ {
			tok := e.tok()
			want[i] = append(want[i], tok)
			if err := m.pub(e.ctx, k%2, tp, tok); err != nil {
				e.fail("publish", "Publish%s(%v): %v", m.name, tp, err)
			}
		}
	}
	per := n
	if m.multi {
		per = 2 * n
	}
	ok := eventually(long, func() bool {
		for i := range tps {
			if len(snap(i, 0))+len(snap(i, 1)) < per {
				return false
			}
		}
		return true
	})
	time.Sleep(5 * time.Millisecond)
	for i, tp := range tps {
		var exp []string
		if m.multi {
			exp = append(append(exp, want[i]...), want[i]...)
		} else {
			exp = append(exp, want[i]...)
		}
		all := append(snap(i, 0), snap(i, 1)...)
		sort.Strings(all)
		sort.Strings(exp)
		bad := len(all) != len(exp)
		for k := 0; !bad && k < len(all); k++ {
			bad = !same(all[k], exp[k])
		}
		if m.multi && len(snap(i, 0)) != n {
			bad = true
		}
		if bad || !ok {
			e.fail("delivery", "Publish%s(%v): the subscribers received %v and %v of %v (every subscriber: %v)", m.name, tp, snap(i, 0), snap(i, 1), want[i], m.multi)
		}
	}
	for i := range tps {
		for c := 0; c < 2; c++ {
			subs[i][c].stop()
		}
	}
}

// shutdownOf: Shutdown waits for what is running, Kill does not.
func (e *env) ending(graceful bool) {
	var m *M
	for _, x := range e.s.ms {
		if x.kind == "unary" && x.topics < 0 {
			m = x
			break
		}
	}
	done := func(f func(int), sv int) chan struct{} {
		c := make(chan struct{})
		go func() { f(sv); close(c) }()
		return c
	}
	f, what := e.s.kill, "Kill"
	if graceful {
		f, what = e.s.shutdown, "Shutdown"
	}
	if m == nil {
		for sv := 0; sv < 2; sv++ {
			select {
			case <-done(f, sv):
			case <-time.After(long):
				e.fail("shutdown", "%s of an idle server does not return", what)
			}
		}
		return
	}
	e.n(what)
	in, out := e.r.gate(m.name)
	res := make(chan error, 1)
	mark := e.r.mark()
	go func() {
		_, err := m.call(e.ctx, 0, nil, "blocked", m.callOpts(long)...)
		res <- err
	}()
	select {
	case <-in:
	case <-time.After(long):
		e.fail("unserved", "%s before %s is not served", m.name, what)
		return
	}
	sv := e.r.ran(mark)[0].server
	d := done(f, sv)
	if graceful {
		select {
		case <-d:
			e.fail("shutdown", "Shutdown returned while %s was running", m.name)
		case <-time.After(30 * time.Millisecond):
		}
		close(out)
		if err := <-res; err != nil {
			e.fail("shutdown", "%s was running when Shutdown was called, its caller got %v", m.name, err)
		}
		select {
		case <-d:
		case <-time.After(long):
			e.fail("shutdown", "Shutdown does not return")
		}
	} else {
		select {
		case <-d:
		case <-time.After(long):
			e.fail("shutdown", "Kill waits for %s", m.name)
		}
		close(out)
		<-res
	}
	// the other server still serves
	e.servedBy(m, nil, 1-sv)
	select {
	case <-done(f, 1-sv):
	case <-time.After(long):
		e.fail("shutdown", "%s of an idle server does not return", what)
	}
	e.unserved(m, nil, "every server was ended with "+what)
}

func (e *env) closing() {
	e.s.closeCl(0)
	for _, m := range e.s.ms {
		var err error
		tp := topicsOf(m.topics, "a")
		t0 := time.Now()
		switch m.kind {
		case "unary":
			_, err = m.call(e.ctx, 0, tp, "x", optsFirst(long)...)
		case "multi":
			_, _, err = m.calls(e.ctx, 0, tp, "x", psrpc.WithRequestTimeout(long))
		case "stream":
			_, err = m.open(e.ctx, 0, tp, optsFirst(long)...)
		default:
			continue
		}
		e.n("closed")
		if !errors.Is(err, psrpc.ErrClientClosed) {
			e.fail("closed", "%s on a closed client: %v", m.name, err)
		}
		if d := time.Since(t0); d > long/2 {
			e.fail("closed", "%s on a closed client took %v", m.name, d)
		}
	}
	e.s.closeCl(1)
}

func (e *env) unimplementedServer() {
	for _, m := range e.s.ms {
		if m.unimplemented == nil {
			continue
		}
		e.n("unimplemented")
		err, aff, has := m.unimplemented(e.ctx)
		if !errors.Is(err, psrpc.ErrUnimplemented) {
			e.fail("unimplemented", "the unimplemented server's %s gives %v", m.name, err)
		}
		if has && aff >= 0 {
			e.fail("unimplemented", "the unimplemented server offers to handle %s (affinity %v)", m.name, aff)
		}
	}
	if err := e.s.unimpl(e); err != nil {
		e.fail("start", "a server without an implementation cannot be started: %v", err)
		return
	}
	for _, m := range e.s.ms {
		if m.topics >= 0 || m.affinity {
			continue
		}
		var err error
		switch m.kind {
		case "unary":
			_, err = m.call(e.ctx, 0, nil, "x", optsFirst(long)...)
		case "multi":
			var errs []error
			for _, d := range []time.Duration{250 * time.Millisecond, 3 * time.Second, long} {
				_, errs, err = m.calls(e.ctx, 0, nil, "x", psrpc.WithRequestTimeout(d))
				if len(errs) > 0 {
					break
				}
			}
			if err == nil && len(errs) == 1 {
				err = errs[0]
			}
		default:
			continue
		}
		e.n("unimplemented-call")
		var pe psrpc.Error
		if !errors.As(err, &pe) || pe.Code() != psrpc.Unimplemented {
			e.fail("unimplemented", "calling %s of a server without an implementation gives %v", m.name, err)
		}
	}
	e.s.kill(0)
	e.s.closeCl(0)
}

func runService(s *Svc) *result {
	out := &result{Unit: s.unit, Service: s.name, Counts: map[string]int{}}
	done := make(chan struct{})
	go func() {
		defer close(done)
		exercise(s, out)
	}()
	select {
	case <-done:
		return out
	case <-time.After(100 * time.Second):
		out.mu.Lock()
		defer out.mu.Unlock()
		return &result{Unit: s.unit, Service: s.name, Sig: out.Sig, Counts: map[string]int{"hang": 1},
			Violations: append(append([]viol(nil), out.Violations...), viol{"hang", fmt.Sprintf("%s.%s: the calls do not end (%s)", s.unit, s.name, out.doing)})}
	}
}

func exercise(s *Svc, out *result) *result {
	defer func() {
		if p := recover(); p != nil && p != any(enough{}) {
			out.mu.Lock()
			defer out.mu.Unlock()
			out.Violations = append(out.Violations, viol{"panic", fmt.Sprintf("%s.%s: %v", s.unit, s.name, p)})
		}
	}()
	for round := 0; round < 2; round++ {
		e := newEnv(s, out)
		if err := s.start(e); err != nil {
			e.fail("start", "%v", err)
			return out
		}
		if round == 0 {
			for _, m := range s.ms {
				switch {
				case m.kind == "sub":
					e.subscription(m)
				case m.topics < 0:
					e.noTopics(m)
				default:
					e.withTopics(m)
				}
			}
			e.groups()
		}
		e.ending(round == 0)
		e.closing()
		e.bus.mu.Lock()
		for k := range e.bus.off {
			e.fail("address", "clients and servers disagree on where messages go: %s", k)
		}
		e.bus.mu.Unlock()
	}
	newEnv(s, out).unimplementedServer()
	var sig []string
	for _, m := range s.ms {
		sig = append(sig, fmt.Sprintf("%s:%v:%v:%d:%v:%s", m.kind, m.affinity, m.multi, m.topics, m.single, m.group))
	}
	out.Sig = strings.Join(sig, " ")
	return out
}

func main() {
	sem := make(chan struct{}, 16)
	outs := make([]*result, len(services))
	var wg sync.WaitGroup
	for i, s := range services {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			outs[i] = runService(s)
			<-sem
		}()
	}
	wg.Wait()
	b, _ := json.Marshal(outs)
	if err := os.WriteFile(os.Args[1], b, 0o644); err != nil {
		panic(err)
	}
}
