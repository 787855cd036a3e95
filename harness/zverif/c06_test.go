package zverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/twitchtv/twirp"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/pkg/client"
	"github.com/livekit/psrpc/pkg/server"
)

// C06: an error raised by a handler reaches the caller as raised.

func init() {
	reg("C06", "handlers", 700, 7000, c06)
	reg("C06", "own", 200, 2000, c06own)
	w := reg("C06", "tables", 64, 64, c06tables)
	w.exh = true
}

type c06row struct {
	code  psrpc.ErrorCode
	http  int
	grpc  codes.Code
	twirp twirp.ErrorCode
}

// the documented mappings
var c06table = []c06row{
	{"", 200, codes.OK, twirp.NoError},
	{"canceled", 503, codes.Canceled, twirp.Canceled},
	{"malformed_request", 400, codes.InvalidArgument, twirp.Malformed},
	{"malformed_result", 500, codes.Internal, twirp.Malformed},
	{"deadline_exceeded", 503, codes.DeadlineExceeded, twirp.DeadlineExceeded},
	{"unavailable", 503, codes.Unavailable, twirp.Unavailable},
	{"unknown", 500, codes.Unknown, twirp.Unknown},
	{"invalid_argument", 400, codes.InvalidArgument, twirp.InvalidArgument},
	{"not_found", 404, codes.NotFound, twirp.NotFound},
	{"not_acceptable", 406, codes.Unknown, twirp.Unknown},
	{"already_exists", 409, codes.AlreadyExists, twirp.AlreadyExists},
	{"permission_denied", 403, codes.PermissionDenied, twirp.PermissionDenied},
	{"resource_exhausted", 429, codes.ResourceExhausted, twirp.ResourceExhausted},
	{"failed_precondition", 412, codes.FailedPrecondition, twirp.FailedPrecondition},
	{"aborted", 409, codes.Aborted, twirp.Aborted},
	{"out_of_range", 416, codes.OutOfRange, twirp.OutOfRange},
	{"unimplemented", 501, codes.Unimplemented, twirp.Unimplemented},
	{"internal", 500, codes.Internal, twirp.Internal},
	{"data_loss", 500, codes.DataLoss, twirp.DataLoss},
	{"unauthenticated", 401, codes.Unauthenticated, twirp.Unauthenticated},
	{"unprocessable_entity", 422, codes.Unknown, twirp.Unknown},
	{"upstream_server_error", 502, codes.Internal, twirp.Internal},
	{"upstream_client_error", 424, codes.InvalidArgument, twirp.InvalidArgument},
}

var c06fromGRPC = map[codes.Code]psrpc.ErrorCode{
	codes.OK: "", codes.Canceled: "canceled", codes.Unknown: "unknown", codes.InvalidArgument: "invalid_argument",
	codes.DeadlineExceeded: "deadline_exceeded", codes.NotFound: "not_found", codes.AlreadyExists: "already_exists",
	codes.PermissionDenied: "permission_denied", codes.ResourceExhausted: "resource_exhausted", codes.FailedPrecondition: "failed_precondition",
	codes.Aborted: "aborted", codes.OutOfRange: "out_of_range", codes.Unimplemented: "unimplemented", codes.Internal: "internal",
	codes.Unavailable: "unavailable", codes.DataLoss: "data_loss", codes.Unauthenticated: "unauthenticated",
}

func c06lookup(code psrpc.ErrorCode) c06row {
	for _, t := range c06table {
		if t.code == code {
			return t
		}
	}
	return c06row{code, 500, codes.Unknown, twirp.Unknown}
}

// a coded error of the user's own type
type c06own_ struct {
	msg     string
	code    psrpc.ErrorCode
	details []*anypb.Any
}

func (e *c06own_) Error() string              { return e.msg }
func (e *c06own_) Code() psrpc.ErrorCode      { return e.code }
func (e *c06own_) Details() []any             { return nil }
func (e *c06own_) DetailsProto() []*anypb.Any { return e.details }
func (e *c06own_) ToHttp() int                { return 500 }
func (e *c06own_) GRPCStatus() *status.Status { return status.New(codes.Internal, "not this") }

type c06plain struct{ msg string }

func (e *c06plain) Error() string { return e.msg }

type c06want struct {
	err     error
	code    psrpc.ErrorCode
	msg     string
	details []*anypb.Any
	desc    string

	scode psrpc.ErrorCode // as the cause of a stream's end
	smsg  string
}

func c06details(r interface{ Intn(int) int }) []proto.Message {
	all := []proto.Message{
		wrapperspb.String("detail ünï"), durationpb.New(3 * time.Second), &structpb.Struct{Fields: map[string]*structpb.Value{"k": structpb.NewNumberValue(1)}},
		wrapperspb.String(""), wrapperspb.Bytes([]byte{0, 255, 1}), &internal.StreamClose{Error: "x", Code: "y"},
	}
	var out []proto.Message
	for k := r.Intn(4); k > 0; k-- {
		out = append(out, all[r.Intn(len(all))])
	}
	return out
}

func c06gen(r interface{ Intn(int) int }, unique string) c06want {
	msgs := []string{
		"plain message " + unique, "", "with % signs %d %!s(MISSING) " + unique, "ünïcödé \U0001F600 " + unique,
		"invalid \xff\xfe utf-8 \xc3( " + unique, strings.Repeat("long ", 2000) + unique, "new\nline\x00nul\t" + unique, " ", "\xff",
	}
	msg := msgs[r.Intn(len(msgs))]
	var code psrpc.ErrorCode
	switch r.Intn(8) {
	case 0:
		code = []psrpc.ErrorCode{"my_code", "UNKNOWN", "not_found ", "ünï", "bad\xffcode"}[r.Intn(5)]
	default:
		code = c06table[r.Intn(len(c06table))].code
	}
	details := c06details(r)
	var anys []*anypb.Any
	for _, d := range details {
		a, err := anypb.New(d)
		must(err)
		anys = append(anys, a)
	}
	w := c06want{code: code, msg: msg, details: anys}
	kind := r.Intn(10)
	switch kind {
	case 0, 1:
		w.err = psrpc.NewError(code, errors.New(msg), details...)
		w.desc = "coded"
	case 2:
		w.err = psrpc.NewErrorf(code, "%s", msg)
		w.details = nil
		w.desc = "codedf"
	case 3:
		w.err = &c06own_{msg, code, anys}
		w.desc = "own type"
	case 4, 5:
		g := codes.Code(1 + r.Intn(16))
		if r.Intn(8) == 0 {
			g = codes.Code(17 + r.Intn(1000))
		}
		st := status.New(g, msg)
		if len(details) > 0 {
			var ds []protoadapt.MessageV1
			for _, d := range details {
				ds = append(ds, protoadapt.MessageV1Of(d))
			}
			var err error
			st, err = st.WithDetails(ds...)
			must(err)
		}
		w.err = st.Err()
		w.code = "unknown"
		if c, ok := c06fromGRPC[g]; ok {
			w.code = c
		}
		w.desc = "grpc"
	case 6, 7:
		w.err = &c06plain{msg}
		w.code, w.details = "unknown", nil
		w.desc = "plain"
	case 8:
		e := []error{io.EOF, context.DeadlineExceeded, context.Canceled, io.ErrUnexpectedEOF}[r.Intn(4)]
		w = c06want{err: e, code: "unknown", msg: e.Error(), desc: "std"}
	case 9:
		e := []psrpc.Error{psrpc.ErrUnimplemented, psrpc.ErrNoResponse, psrpc.ErrRequestTimedOut, psrpc.ErrServerClosed, psrpc.ErrStreamEOF}[r.Intn(5)]
		w = c06want{err: e, code: e.Code(), msg: e.Error(), desc: "library"}
	}
	// wrapping
	switch r.Intn(4) {
	case 0:
		inner := w.err
		w.err = fmt.Errorf("outer: %w", inner)
		w.desc += " wrapped"
		switch {
		case kind <= 3 || kind == 9: // the coded error counts
		default: // the whole message counts
			w.msg = w.err.Error()
		}
	case 1:
		if kind <= 3 || kind == 9 {
			w.err = errors.Join(io.ErrClosedPipe, w.err)
			w.desc += " joined"
		}
	}
	if w.code == "" {
		w.code = "unknown" // an error has a code
	}
	// streams carry coded errors, any other is unknown
	w.scode, w.smsg = w.code, w.msg
	if kind > 3 && kind != 9 {
		w.scode, w.smsg = "unknown", w.err.Error()
	}
	w.smsg = strings.ToValidUTF8(w.smsg, "\uFFFD")
	w.scode = psrpc.ErrorCode(strings.ToValidUTF8(string(w.scode), "\uFFFD"))
	w.msg = strings.ToValidUTF8(w.msg, "\uFFFD")
	w.code = psrpc.ErrorCode(strings.ToValidUTF8(string(w.code), "\uFFFD"))
	return w
}

func c06check(c *C, what string, w c06want, err error) {
	if err == nil {
		c.Violate("error-lost", "%s: the handler failed with %s %q (%s), the call succeeded", what, w.desc, w.msg, w.code)
		return
	}
	var e psrpc.Error
	if !errors.As(err, &e) {
		c.Violate("error-type", "%s: %T %v is no psrpc error", what, err, err)
		return
	}
	if e.Code() != w.code {
		c.Violate("error-code", "%s: raised %s with code %q, got %q (%v)", what, w.desc, w.code, e.Code(), short(err.Error()))
	}
	if err.Error() != w.msg {
		c.Violate("error-message", "%s: raised %s with %q, got %q", what, w.desc, short(w.msg), short(err.Error()))
	}
	got := e.DetailsProto()
	if !c06same(got, w.details) {
		c.Violate("error-details", "%s: raised %s with details %v, got %v", what, w.desc, w.details, got)
	}
	t := c06lookup(w.code)
	if e.ToHttp() != t.http || e.GRPCStatus().Code() != t.grpc || e.GRPCStatus().Message() != w.msg {
		c.Violate("error-mapping", "%s: %q maps to %d, %v", what, w.code, e.ToHttp(), e.GRPCStatus())
	}
	if len(w.details) > 0 && len(e.Details()) != len(w.details) {
		c.Violate("error-details", "%s: Details() has %d entries of %d", what, len(e.Details()), len(w.details))
	}
	var te twirp.Error
	if !errors.As(err, &te) || te.Code() != t.twirp || te.Msg() != w.msg {
		c.Violate("error-mapping", "%s: %q maps to Twirp %v", what, w.code, te)
	}
	if !errors.Is(err, w.code) {
		c.Violate("error-unwrap", "%s: the error is not its code %q", what, w.code)
	}
}

func c06same(a, b []*anypb.Any) bool {
	same := len(a) == len(b)
	for i := range a {
		same = same && proto.Equal(a[i], b[i])
	}
	return same
}

func short(s string) string { return s[:min(len(s), 80)] }

func c06(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	ns := 1 + r.Intn(2)
	wants := map[string]map[string]c06want{} // request -> server
	var mu sync.Mutex
	ids := c.IDs("s", ns)
	type rq struct{ val, method string }
	var reqs []rq
	for k := 2 + r.Intn(8); k > 0; k-- {
		q := rq{fmt.Sprintf("q%d", k), []string{mNormal, mAff, mMulti, mQueueNC, mStream}[r.Intn(5)]}
		reqs = append(reqs, q)
		wants[q.val] = map[string]c06want{}
		for _, id := range ids {
			w := c06gen(r, q.val+"@"+id)
			wants[q.val][id] = w
			c.Shape("%s:%s:%s", q.method, w.desc, w.code)
		}
	}
	ran := map[string][]string{}
	note := func(val, id string) error {
		mu.Lock()
		defer mu.Unlock()
		ran[val] = append(ran[val], id)
		c.Ev("raise %s %s", id, wants[val][id].desc)
		return wants[val][id].err
	}
	icept := r.Intn(3)
	for _, id := range ids {
		var opts []psrpc.ServerOption
		for k := 0; k < icept; k++ {
			opts = append(opts, psrpc.WithServerRPCInterceptors(func(ctx context.Context, req proto.Message, _ psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
				return next(ctx, req)
			}))
		}
		s := c.Server(n.Endpoint(), svc, id, opts...)
		for _, m := range []string{mNormal, mAff, mMulti, mQueueNC} {
			must(server.RegisterHandler(s, m, nil, func(ctx context.Context, req str) (str, error) {
				err := note(req.Value, id)
				if r0(req.Value)%2 == 0 {
					return S("a result beside the error"), err
				}
				return nil, err
			}, nil))
		}
		must(server.RegisterStreamHandler(s, mStream, nil, func(st psrpc.ServerStream[str, str]) error {
			m, ok := <-st.Channel()
			if !ok {
				return nil
			}
			return note(m.Value, id)
		}, nil))
	}
	cl := c.Client(n.Endpoint(), svc, "c")
	c.Settle()
	done := 0
	for _, q := range reqs {
		switch q.method {
		case mMulti:
			ch, err := callMulti(context.Background(), cl, q.method, nil, q.val, psrpc.WithRequestTimeout(3*time.Second))
			must(err)
			var got []error
			for m := range ch {
				if m.Result != nil && m.Err != nil {
					c.Violate("result-with-error", "%s: the entry has the result %v and the error %v", q.val, m.Result, m.Err)
				}
				got = append(got, m.Err)
			}
			if len(got) != ns {
				c.Violate("entries", "%s: %d answers of %d servers", q.val, len(got), ns)
				continue
			}
			// match by message and code
			left := append([]error(nil), got...)
			for _, id := range ids {
				w := wants[q.val][id]
				best, score := 0, -1
				for i, e := range left {
					k := 0
					if e != nil && e.Error() == w.msg && code(e) == w.code {
						k = 1
						var pe psrpc.Error
						if errors.As(e, &pe) && c06same(pe.DetailsProto(), w.details) {
							k = 2
						}
					}
					if k > score {
						best, score = i, k
					}
				}
				c06check(c, "multi "+q.val, w, left[best])
				left = append(left[:best], left[best+1:]...)
				done++
			}
		case mStream:
			st, err := client.OpenStream[str, str](context.Background(), cl, q.method, nil)
			must(err)
			// fails if the handler's error arrives before the acknowledgement
			_ = st.Send(S(q.val))
			if !c.Within(time.Minute, func() {
				for range st.Channel() {
				}
			}) {
				c.Violate("hang", "the stream was not closed")
				return
			}
			mu.Lock()
			id := ran[q.val][0]
			mu.Unlock()
			w := wants[q.val][id]
			var e psrpc.Error
			err = st.Err()
			if err == nil || !errors.As(err, &e) || e.Code() != w.scode || err.Error() != w.smsg {
				c.Violate("stream-error", "stream %s: raised %s %q (%s), got %v (%s)", q.val, w.desc, short(w.smsg), w.scode, err, code(err))
			}
			done++
		default:
			res, err := call(context.Background(), cl, q.method, nil, q.val, psrpc.WithRequestTimeout(5*time.Second))
			mu.Lock()
			by := append([]string(nil), ran[q.val]...)
			mu.Unlock()
			if len(by) != 1 {
				c.Violate("executions", "%s executed by %v", q.val, by)
				continue
			}
			if res != "" {
				c.Violate("result-with-error", "%s: the failed call returned %q", q.val, res)
			}
			c06check(c, "call "+q.val+" "+q.method, wants[q.val][by[0]], err)
			done++
		}
	}
	c.Count("errors", done)
}

// c06own: errors made by the library.
func c06own(c *C) {
	r := c.Rand
	n := c.NewNet(kinds[r.Intn(3)])
	svc := c.SvcName()
	s := c.Server(n.Endpoint(), svc, "s")
	mis := []string{mNormal, mAff, mQueueNC}[r.Intn(3)]
	must(server.RegisterHandler(s, mis, nil, func(ctx context.Context, req str) (*wrapperspb.BytesValue, error) {
		switch req.Value {
		case "slow":
			time.Sleep(2 * time.Second)
		case "bad":
			return wrapperspb.Bytes([]byte("\xff\xfe\xfd")), nil // no valid string
		}
		return wrapperspb.Bytes([]byte("ok")), nil
	}, nil))
	cl := c.Client(n.Endpoint(), svc, "c")
	c.Settle()
	ctx := context.Background()
	expect := func(what string, err error, code_ psrpc.ErrorCode, is error) {
		c.Ev("%s %v", what, err)
		if err == nil || code(err) != code_ || is != nil && !errors.Is(err, is) {
			c.Violate("own-error", "%s: got %v (%s) instead of %s", what, err, code(err), code_)
		}
		c.Count("own", 1)
	}
	res, err := call(ctx, cl, mis, nil, "x")
	if err != nil || res != "ok" {
		c.Violate("own-error", "call: %q, %v", res, err)
	}
	_, err = call(ctx, cl, mis, nil, "bad")
	expect("undecodable response", err, "malformed_result", nil)
	_, err = client.RequestSingle[str](ctx, cl, mis, nil, wrapperspb.Bytes([]byte("\xff\xfe")), psrpc.WithRequestTimeout(time.Second))
	expect("undecodable request", err, "malformed_request", nil)
	_, err = client.RequestSingle[str](ctx, cl, mis, nil, S("\xff"), psrpc.WithRequestTimeout(time.Second))
	expect("unencodable request", err, "malformed_request", nil)
	_, err = client.RequestMulti[str](ctx, cl, mMulti, nil, S("\xff"), psrpc.WithRequestTimeout(time.Second))
	expect("unencodable multi request", err, "malformed_request", nil)
	_, err = call(ctx, cl, mis, nil, "slow", psrpc.WithRequestTimeout(time.Second))
	expect("timeout", err, "deadline_exceeded", psrpc.ErrRequestTimedOut)
	cctx, cancel := context.WithCancel(ctx)
	time.AfterFunc(500*time.Millisecond, cancel)
	_, err = call(cctx, cl, mis, nil, "slow", psrpc.WithRequestTimeout(3*time.Second))
	expect("cancel", err, "canceled", psrpc.ErrRequestCanceled)
	_, err = call(ctx, cl, mNormal, []string{"nobody"}, "x", psrpc.WithRequestTimeout(time.Second))
	expect("no server", err, "unavailable", psrpc.ErrNoResponse)
	_, err = call(ctx, cl, mQueueNC, []string{"nobody"}, "x", psrpc.WithRequestTimeout(time.Second))
	expect("no server", err, "deadline_exceeded", psrpc.ErrRequestTimedOut)
	_, err = client.OpenStream[str, str](ctx, cl, mStream, []string{"nobody"}, psrpc.WithRequestTimeout(time.Second))
	expect("no stream server", err, "unavailable", psrpc.ErrNoResponse)
	s.Close(false)
	err = server.RegisterHandler(s, mMulti, nil, func(ctx context.Context, req str) (str, error) { return nil, nil }, nil)
	expect("register on closed server", err, "canceled", psrpc.ErrServerClosed)
	cl.Close()
	_, err = call(ctx, cl, mis, nil, "x")
	expect("closed client", err, "canceled", psrpc.ErrClientClosed)
	_, err = callMulti(ctx, cl, mMulti, nil, "x")
	expect("closed client", err, "canceled", psrpc.ErrClientClosed)
	_, err = client.OpenStream[str, str](ctx, cl, mStream, nil)
	expect("closed client", err, "canceled", psrpc.ErrClientClosed)
}

// c06tables compares every mapping with the documented one, and creation with unwrapping.
func c06tables(c *C) {
	k := c.idx
	c.Ev("table %d", k)
	if k < len(c06table) {
		t := c06table[k]
		if h := t.code.ToHTTP(); h != t.http {
			c.Violate("table", "%q.ToHTTP() = %d", t.code, h)
		}
		if g := t.code.ToGRPC(); g != t.grpc {
			c.Violate("table", "%q.ToGRPC() = %v", t.code, g)
		}
		if w := t.code.ToTwirp(); w != t.twirp {
			c.Violate("table", "%q.ToTwirp() = %v", t.code, w)
		}
		if t.code.Error() != string(t.code) {
			c.Violate("table", "%q.Error() = %q", t.code, t.code.Error())
		}
		base := &c06plain{"base"}
		d := c06details(c.Rand)
		e := psrpc.NewError(t.code, fmt.Errorf("w: %w", base), d...)
		var p *c06plain
		if !errors.Is(e, base) || !errors.As(e, &p) || p != base || !errors.Is(e, t.code) || e.Code() != t.code || e.Error() != "w: base" {
			c.Violate("unwrap", "NewError(%q) does not unwrap to its cause and code", t.code)
		}
		if g, ok := psrpc.GetErrorCode(fmt.Errorf("x: %w", e)); !ok || g != t.code {
			c.Violate("get-code", "GetErrorCode of a wrapped %q is %q, %v", t.code, g, ok)
		}
		if len(e.DetailsProto()) != len(d) || t.code != "" && len(e.Details()) != len(d) {
			c.Violate("details", "%d details of %d", len(e.DetailsProto()), len(d))
		}
		for i, a := range e.DetailsProto() {
			m, err := a.UnmarshalNew()
			if err != nil || !proto.Equal(m, d[i]) {
				c.Violate("details", "detail %d is %v, %v", i, m, err)
			}
		}
		f := psrpc.NewErrorf(t.code, "f %d: %w", 5, base)
		if !errors.Is(f, base) || !errors.Is(f, t.code) || f.Error() != "f 5: base" || f.Code() != t.code {
			c.Violate("unwrap", "NewErrorf(%q) does not unwrap to its cause and code", t.code)
		}
		for _, u := range c06table {
			if u.code != t.code && errors.Is(e, u.code) {
				c.Violate("unwrap", "an error with code %q is %q", t.code, u.code)
			}
		}
	}
	if k <= 16 {
		g := codes.Code(k)
		if p := psrpc.ErrorCodeFromGRPC(g); p != c06fromGRPC[g] {
			c.Violate("table", "ErrorCodeFromGRPC(%v) = %q", g, p)
		}
		if back := psrpc.ErrorCodeFromGRPC(g).ToGRPC(); back != g {
			c.Violate("table", "%v converts to %q and back to %v", g, psrpc.ErrorCodeFromGRPC(g), back)
		}
		if k > 0 {
			if p, ok := psrpc.GetErrorCode(fmt.Errorf("x: %w", status.Error(g, "m"))); !ok || p != c06fromGRPC[g] {
				c.Violate("get-code", "GetErrorCode of gRPC %v is %q, %v", g, p, ok)
			}
		}
	}
	// total
	x := psrpc.ErrorCode(fmt.Sprintf("made up %d", c.Rand.Int()))
	if x.ToHTTP() != 500 || x.ToGRPC() != codes.Unknown || x.ToTwirp() != twirp.Unknown {
		c.Violate("table", "an unknown code maps to %d %v %v", x.ToHTTP(), x.ToGRPC(), x.ToTwirp())
	}
	if p := psrpc.ErrorCodeFromGRPC(codes.Code(17 + c.Rand.Intn(1<<20))); p != psrpc.Unknown {
		c.Violate("table", "an unknown gRPC code maps to %q", p)
	}
	if p, ok := psrpc.GetErrorCode(errors.New("x")); ok || p != psrpc.Unknown {
		c.Violate("get-code", "GetErrorCode of a plain error is %q, %v", p, ok)
	}
}
