package zverif

import (
	"bufio"
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
)

// fakeNats is an in-process NATS server: CONNECT/PING/PONG/SUB/UNSUB/PUB/HPUB with
// queue groups; reached through nats.InProcessServer.
type fakeNats struct {
	mu      sync.Mutex
	conns   map[*natsConn]struct{}
	latency func() time.Duration
	rr      uint64
	pick    func(n int) int // queue group member choice
	pubs    int
	dropSub bool                                        // ignore SUBs (fault)
	tap     func(subject string, payload []byte) []byte // sees and replaces what is published
}

type natsSub struct {
	subject, queue, sid string
	max, got            int
	seq                 uint64
	conn                *natsConn
}

type natsConn struct {
	srv    *fakeNats
	c      *bufConn
	subs   map[string]*natsSub
	out    chan struct{}
	qmu    sync.Mutex
	queue  []string
	closed bool
}

func newFakeNats() *fakeNats { return &fakeNats{conns: map[*natsConn]struct{}{}} }

func (s *fakeNats) InProcessConn() (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	cl, sv := bufPipe()
	c := &natsConn{srv: s, c: sv, subs: map[string]*natsSub{}, out: make(chan struct{}, 1)}
	s.conns[c] = struct{}{}
	c.send(`INFO {"server_id":"FAKE","version":"2.10.0","proto":1,"go":"go","host":"mem","port":4222,"headers":true,"max_payload":16777216}` + "\r\n")
	go c.readLoop()
	go c.writeLoop()
	return cl, nil
}

func (s *fakeNats) connect() (*nats.Conn, error) {
	return nats.Connect("", nats.InProcessServer(s), nats.MaxReconnects(-1), nats.ReconnectWait(50*time.Millisecond), nats.ReconnectJitter(0, 0), nats.SyncQueueLen(1<<16))
}

func (s *fakeNats) subjects() map[string]int {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]int{}
	for c := range s.conns {
		for _, sub := range c.subs {
			out[sub.subject]++
		}
	}
	return out
}

func (c *natsConn) send(m string) {
	c.qmu.Lock()
	c.queue = append(c.queue, m)
	c.qmu.Unlock()
	select {
	case c.out <- struct{}{}:
	default:
	}
}

func (c *natsConn) writeLoop() {
	for range c.out {
		for {
			c.qmu.Lock()
			if len(c.queue) == 0 {
				closed := c.closed
				c.qmu.Unlock()
				if closed {
					return
				}
				break
			}
			m := c.queue[0]
			c.queue = c.queue[1:]
			c.qmu.Unlock()
			c.srv.mu.Lock()
			l := c.srv.latency
			c.srv.mu.Unlock()
			if l != nil {
				if d := l(); d > 0 {
					time.Sleep(d)
				}
			}
			if _, err := c.c.Write([]byte(m)); err != nil {
				return
			}
		}
	}
}

func (c *natsConn) drop() {
	delete(c.srv.conns, c)
	c.c.Reset()
	c.qmu.Lock()
	c.closed = true
	c.qmu.Unlock()
	select {
	case c.out <- struct{}{}:
	default:
	}
}

func (c *natsConn) readLoop() {
	br := bufio.NewReader(c.c)
	defer func() {
		c.srv.mu.Lock()
		c.drop()
		c.srv.mu.Unlock()
	}()
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(strings.TrimRight(line, "\r\n"))
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT", "PONG":
		case "PING":
			c.send("PONG\r\n")
		case "SUB":
			s := &natsSub{subject: f[1], conn: c}
			if len(f) == 4 {
				s.queue, s.sid = f[2], f[3]
			} else {
				s.sid = f[2]
			}
			c.srv.mu.Lock()
			c.srv.rr++
			s.seq = c.srv.rr
			if !c.srv.dropSub {
				c.subs[s.sid] = s
			}
			c.srv.mu.Unlock()
		case "UNSUB":
			c.srv.mu.Lock()
			if len(f) == 3 {
				if s := c.subs[f[1]]; s != nil {
					s.max, _ = strconv.Atoi(f[2])
					if s.got >= s.max {
						delete(c.subs, f[1])
					}
				}
			} else {
				delete(c.subs, f[1])
			}
			c.srv.mu.Unlock()
		case "PUB", "HPUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			b := make([]byte, n+2)
			for k := 0; k < len(b); {
				r, err := br.Read(b[k:])
				if err != nil {
					return
				}
				k += r
			}
			payload := b[:n]
			if f[0] == "HPUB" {
				h, _ := strconv.Atoi(f[len(f)-2])
				payload = payload[h:]
			}
			c.srv.publish(f[1], payload)
		}
	}
}

func (s *fakeNats) publish(subject string, payload []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.pubs++
	if s.tap != nil {
		payload = s.tap(subject, payload)
	}
	s.route(subject, payload)
}

// inject publishes as some other client would.
func (s *fakeNats) inject(subject string, payload []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.route(subject, payload)
}

func (s *fakeNats) route(subject string, payload []byte) {
	groups := map[string][]*natsSub{}
	for c := range s.conns {
		for _, sub := range c.subs {
			if sub.subject != subject {
				continue
			}
			if sub.queue != "" {
				groups[sub.queue] = append(groups[sub.queue], sub)
			} else {
				s.deliver(sub, subject, payload)
			}
		}
	}
	for _, g := range groups {
		i := 0
		if s.pick != nil {
			i = s.pick(len(g))
		} else {
			i = int(s.rr) % len(g)
			s.rr++
		}
		s.deliver(g[i], subject, payload)
	}
}

func (s *fakeNats) deliver(sub *natsSub, subject string, payload []byte) {
	sub.got++
	sub.conn.send(fmt.Sprintf("MSG %s %s %d\r\n%s\r\n", subject, sub.sid, len(payload), payload))
	if sub.max > 0 && sub.got >= sub.max {
		delete(sub.conn.subs, sub.sid)
	}
}

func (s *fakeNats) killAll() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(s.conns)
	for c := range s.conns {
		c.drop()
	}
	return n
}
