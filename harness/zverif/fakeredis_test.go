package zverif

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/redis/go-redis/v9"
)

// fakeRedis is an in-process Redis server speaking enough RESP for the bus:
// HELLO/CLIENT/PING, SUBSCRIBE/UNSUBSCRIBE, PUBLISH, SET NX PX|EX, with injectable faults.
type fakeRedis struct {
	mu    sync.Mutex
	conns map[*redisConn]struct{}
	keys  map[string]time.Time

	// faults; consulted under mu
	refuseDial   bool                                                 // new connections fail
	refuseDialN  int                                                  // fail the next N dials
	onCommand    func(c *redisConn, cmd string, args []string) string // non-empty: reply this error instead of executing
	killAfter    func(c *redisConn, cmd string, args []string) bool   // true: reset the connection instead of replying (command executed)
	killBefore   func(c *redisConn, cmd string, args []string) bool   // true: reset the connection, not executed
	failWrite    func(data string) bool                               // true: a write of a client fails, and its connection is lost
	pubLog       []redisPub
	subCmds      int
	unsubCmds    int
	dials        int
	latency      func(conn int) time.Duration // delivery latency of replies/messages per connection (FIFO kept)
	keepPubLog   bool
	tap          func(channel string, payload []byte) []byte // sees and replaces what is published
	setnxGranted int
	setnxDenied  int
}

type redisPub struct {
	channel, payload string
	receivers        int
}

type redisConn struct {
	srv    *fakeRedis
	c      *bufConn
	subs   map[string]struct{}
	out    chan struct{}
	qmu    sync.Mutex
	queue  []redisReply
	closed bool
	ready  bool // past the handshake
	id     int
}

func newFakeRedis() *fakeRedis {
	return &fakeRedis{conns: map[*redisConn]struct{}{}, keys: map[string]time.Time{}}
}

func (s *fakeRedis) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.dials++
	if s.refuseDial || s.refuseDialN > 0 {
		if s.refuseDialN > 0 {
			s.refuseDialN--
		}
		return nil, fmt.Errorf("dial %s: connection refused (injected)", addr)
	}
	cl, sv := bufPipe()
	cl.writeHook = func(p []byte) error {
		s.mu.Lock()
		f := s.failWrite
		s.mu.Unlock()
		if f != nil && f(string(p)) {
			cl.Reset()
			return fmt.Errorf("write failed (injected)")
		}
		return nil
	}
	rc := &redisConn{srv: s, c: sv, subs: map[string]struct{}{}, out: make(chan struct{}, 1), id: s.dials}
	s.conns[rc] = struct{}{}
	go rc.readLoop()
	go rc.writeLoop()
	return cl, nil
}

func (s *fakeRedis) client() redis.UniversalClient {
	return redis.NewClient(&redis.Options{
		Addr:            "fake:6379",
		Dialer:          s.dial,
		DisableIdentity: true,
		PoolSize:        64,
		MaxRetries:      -1,
		Protocol:        2,
		DialTimeout:     2 * time.Second,
		ReadTimeout:     2 * time.Second,
		WriteTimeout:    2 * time.Second,
		DialerRetries:   1,
		ConnMaxIdleTime: -1,
	})
}

type redisReply struct {
	data string
	fast bool // without latency
}

// subscriberConns returns the connections currently holding subscriptions.
func (s *fakeRedis) subscriberConns() []*redisConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*redisConn
	for c := range s.conns {
		if len(c.subs) > 0 {
			out = append(out, c)
		}
	}
	return out
}

func (s *fakeRedis) subscribed() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]int{}
	for c := range s.conns {
		for ch := range c.subs {
			out[ch]++
		}
	}
	return out
}

// inject publishes as some other client would.
func (s *fakeRedis) inject(channel, payload string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for o := range s.conns {
		if _, ok := o.subs[channel]; ok {
			n++
			o.send("*3\r\n" + bulk("message") + bulk(channel) + bulk(payload))
		}
	}
	return n
}

// killAll resets every open connection past its handshake: go-redis holds the lock of a
// subscribing connection during the handshake and while it waits to repeat it, which would
// stop the virtual clock.
func (s *fakeRedis) killAll(filter func(c *redisConn) bool) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for c := range s.conns {
		if c.ready && (filter == nil || filter(c)) {
			n++
			c.kill()
		}
	}
	return n
}

// kill: srv.mu held.
func (c *redisConn) kill() {
	delete(c.srv.conns, c)
	c.subs = map[string]struct{}{}
	c.c.Reset()
	c.qmu.Lock()
	c.closed = true
	c.qmu.Unlock()
	select {
	case c.out <- struct{}{}:
	default:
	}
}

func (c *redisConn) send(s string) { c.sendReply(s, false) }

func (c *redisConn) sendReply(s string, fast bool) {
	c.qmu.Lock()
	c.queue = append(c.queue, redisReply{s, fast})
	c.qmu.Unlock()
	select {
	case c.out <- struct{}{}:
	default:
	}
}

func (c *redisConn) writeLoop() {
	for range c.out {
		for {
			c.qmu.Lock()
			if len(c.queue) == 0 {
				closed := c.closed
				c.qmu.Unlock()
				if closed {
					return
				}
				break
			}
			m := c.queue[0]
			c.queue = c.queue[1:]
			c.qmu.Unlock()
			c.srv.mu.Lock()
			l := c.srv.latency
			c.srv.mu.Unlock()
			if l != nil && !m.fast {
				if d := l(c.id); d > 0 {
					time.Sleep(d)
				}
			}
			if _, err := c.c.Write([]byte(m.data)); err != nil {
				return
			}
		}
	}
}

func (c *redisConn) readLoop() {
	br := bufio.NewReader(c.c)
	defer func() {
		c.srv.mu.Lock()
		c.kill()
		c.srv.mu.Unlock()
	}()
	for {
		args, err := readCommand(br)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		if !c.handle(strings.ToUpper(args[0]), args[1:]) {
			return
		}
	}
}

func readCommand(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if len(line) == 0 || line[0] != '*' {
		return nil, fmt.Errorf("bad command %q", line)
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	args := make([]string, 0, n)
	for i := 0; i < n; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l = strings.TrimRight(l, "\r\n")
		if len(l) == 0 || l[0] != '$' {
			return nil, fmt.Errorf("bad bulk %q", l)
		}
		m, err := strconv.Atoi(l[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		for k := 0; k < len(b); {
			r, err := br.Read(b[k:])
			if err != nil {
				return nil, err
			}
			k += r
		}
		args = append(args, string(b[:m]))
	}
	return args, nil
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func (c *redisConn) handle(cmd string, args []string) bool {
	s := c.srv
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.conns[c]; !ok {
		return false
	}
	hello := cmd == "HELLO" || cmd == "CLIENT" || cmd == "SELECT"
	if !hello {
		c.ready = true
	}
	if s.killBefore != nil && s.killBefore(c, cmd, args) {
		c.kill()
		return false
	}
	if s.onCommand != nil {
		if e := s.onCommand(c, cmd, args); e != "" {
			c.send("-" + e + "\r\n")
			return true
		}
	}
	kill := s.killAfter != nil && s.killAfter(c, cmd, args)
	reply := ""
	switch cmd {
	case "HELLO":
		reply = "-ERR unknown command 'HELLO'\r\n"
	case "CLIENT", "SELECT", "AUTH":
		reply = "+OK\r\n"
	case "PING":
		if len(c.subs) > 0 {
			arg := ""
			if len(args) > 0 {
				arg = args[0]
			}
			reply = "*2\r\n" + bulk("pong") + bulk(arg)
		} else {
			reply = "+PONG\r\n"
		}
	case "SUBSCRIBE":
		s.subCmds++
		for _, ch := range args {
			c.subs[ch] = struct{}{}
			reply += "*3\r\n" + bulk("subscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(c.subs))
		}
	case "UNSUBSCRIBE":
		s.unsubCmds++
		for _, ch := range args {
			delete(c.subs, ch)
			reply += "*3\r\n" + bulk("unsubscribe") + bulk(ch) + fmt.Sprintf(":%d\r\n", len(c.subs))
		}
	case "PUBLISH":
		n := 0
		if s.tap != nil {
			args[1] = string(s.tap(args[0], []byte(args[1])))
		}
		for o := range s.conns {
			if _, ok := o.subs[args[0]]; ok {
				n++
				o.send("*3\r\n" + bulk("message") + bulk(args[0]) + bulk(args[1]))
			}
		}
		if s.keepPubLog {
			s.pubLog = append(s.pubLog, redisPub{args[0], args[1], n})
		}
		reply = fmt.Sprintf(":%d\r\n", n)
	case "SET", "SETNX":
		nx := cmd == "SETNX"
		var ttl time.Duration
		for i := 2; i < len(args); i++ {
			switch strings.ToUpper(args[i]) {
			case "NX":
				nx = true
			case "EX":
				v, _ := strconv.Atoi(args[i+1])
				ttl = time.Duration(v) * time.Second
			case "PX":
				v, _ := strconv.Atoi(args[i+1])
				ttl = time.Duration(v) * time.Millisecond
			}
		}
		exp, ok := s.keys[args[0]]
		if ok && !exp.IsZero() && !time.Now().Before(exp) {
			ok = false
		}
		set := !nx || !ok
		if set {
			var e time.Time
			if ttl > 0 {
				e = time.Now().Add(ttl)
			}
			s.keys[args[0]] = e
			s.setnxGranted++
		} else {
			s.setnxDenied++
		}
		if cmd == "SETNX" {
			if set {
				reply = ":1\r\n"
			} else {
				reply = ":0\r\n"
			}
		} else if set {
			reply = "+OK\r\n"
		} else {
			reply = "$-1\r\n"
		}
	case "DEL":
		for _, k := range args {
			delete(s.keys, k)
		}
		reply = fmt.Sprintf(":%d\r\n", len(args))
	case "GET":
		reply = "$-1\r\n"
	case "EXISTS":
		reply = ":0\r\n"
	default:
		reply = "-ERR unknown command '" + cmd + "'\r\n"
	}
	if kill {
		c.kill()
		return false
	}
	// a client may hold a lock during the handshake
	c.sendReply(reply, hello)
	return true
}
