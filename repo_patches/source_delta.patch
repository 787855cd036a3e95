From b68461e0d8249ec59696b60da9808d5fc6c84c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 01/38] fix: a request that no longer reads cannot block its
 client

Claims and responses were handed to a request's channel with a blocking
send, so those which arrived after the request had stopped reading (late
claims, unread or excess multi RPC results) blocked the dispatch loop of
the client, and with it all other requests, for good. Deliver until the
request is done instead, end claims with the selection, and let a multi
RPC's deadline (clamped to the caller's) end an unread result.
---
 pkg/client/client.go | 58 ++++++++++++++++++++++++++++++++++++++------
 pkg/client/multi.go  | 39 ++++++++++++++---------------
 pkg/client/rpc.go    | 22 +++++------------
 pkg/client/stream.go | 12 +++------
 4 files changed, 80 insertions(+), 51 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index e160548..2d3efe0 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -33,8 +33,8 @@ type RPCClient struct {
 	bus bus.MessageBus
 
 	mu               sync.Mutex
-	claimRequests    map[string]chan *internal.ClaimRequest
-	responseChannels map[string]chan *internal.Response
+	claimRequests    map[string]pendingChannel[*internal.ClaimRequest]
+	responseChannels map[string]pendingChannel[*internal.Response]
 	streamChannels   map[string]streamChannels
 	closed           core.Fuse
 }
@@ -56,8 +56,8 @@ func NewRPCClient(
 		ServiceDefinition: sd,
 		ClientOpts:        getClientOpts(opts...),
 		bus:               b,
-		claimRequests:     make(map[string]chan *internal.ClaimRequest),
-		responseChannels:  make(map[string]chan *internal.Response),
+		claimRequests:     make(map[string]pendingChannel[*internal.ClaimRequest]),
+		responseChannels:  make(map[string]pendingChannel[*internal.Response]),
 		streamChannels:    make(map[string]streamChannels),
 	}
 	if c.ClientID != "" {
@@ -110,10 +110,10 @@ func NewRPCClient(
 					continue
 				}
 				c.mu.Lock()
-				claimChan, ok := c.claimRequests[claim.RequestId]
+				pending, ok := c.claimRequests[claim.RequestId]
 				c.mu.Unlock()
 				if ok {
-					claimChan <- claim
+					pending.deliver(claim)
 				}
 
 			case res := <-responses.Channel():
@@ -122,10 +122,10 @@ func NewRPCClient(
 					continue
 				}
 				c.mu.Lock()
-				resChan, ok := c.responseChannels[res.RequestId]
+				pending, ok := c.responseChannels[res.RequestId]
 				c.mu.Unlock()
 				if ok {
-					resChan <- res
+					pending.deliver(res)
 				}
 
 			case msg := <-streams.Channel():
@@ -152,3 +152,45 @@ func NewRPCClient(
 func (c *RPCClient) Close() {
 	c.closed.Break()
 }
+
+// pendingChannel receives the messages for a request until it is done.
+type pendingChannel[T any] struct {
+	recv chan<- T
+	done <-chan struct{}
+}
+
+// deliver waits for the request to take the message or to be done, so that
+// messages the request no longer reads cannot block those for other requests.
+func (p pendingChannel[T]) deliver(msg T) {
+	select {
+	case p.recv <- msg:
+	case <-p.done:
+	}
+}
+
+// addClaimRequests routes claims for the request to the returned channel until release is called.
+func (c *RPCClient) addClaimRequests(requestID string) (claims chan *internal.ClaimRequest, release func()) {
+	claims = make(chan *internal.ClaimRequest, c.ChannelSize)
+	return claims, addPending(c, c.claimRequests, requestID, claims)
+}
+
+// addResponses routes responses for the request to the returned channel until release is called.
+func (c *RPCClient) addResponses(requestID string, size int) (responses chan *internal.Response, release func()) {
+	responses = make(chan *internal.Response, size)
+	return responses, addPending(c, c.responseChannels, requestID, responses)
+}
+
+func addPending[T any](c *RPCClient, pending map[string]pendingChannel[T], requestID string, recv chan<- T) (release func()) {
+	done := make(chan struct{})
+
+	c.mu.Lock()
+	pending[requestID] = pendingChannel[T]{recv, done}
+	c.mu.Unlock()
+
+	return sync.OnceFunc(func() {
+		c.mu.Lock()
+		delete(pending, requestID)
+		c.mu.Unlock()
+		close(done)
+	})
+}
diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 00c80b5..3ad1693 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -80,6 +80,7 @@ type multiRPC[ResponseType proto.Message] struct {
 	requestID string
 	handler   psrpc.ClientMultiRPCHandler
 	resChan   chan<- *psrpc.Response[ResponseType]
+	done      <-chan struct{}
 }
 
 func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
@@ -91,25 +92,31 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 	}
 
 	now := time.Now()
+	// Clamp expiry to the caller's deadline so downstream hops don't outlive it.
+	resCtx, cancel := context.WithDeadline(ctx, now.Add(o.Timeout))
+	expiry, _ := resCtx.Deadline()
 	ir := &internal.Request{
 		RequestId:  m.requestID,
 		ClientId:   m.c.ID,
 		SentAt:     now.UnixNano(),
-		Expiry:     now.Add(o.Timeout).UnixNano(),
+		Expiry:     expiry.UnixNano(),
 		Multi:      true,
 		RawRequest: b,
 		Metadata:   metadata.OutgoingContextMetadata(ctx),
 	}
 
-	resChan := make(chan *internal.Response, m.c.ChannelSize)
+	m.done = resCtx.Done()
+	resChan, release := m.c.addResponses(m.requestID, m.c.ChannelSize)
 
-	m.c.mu.Lock()
-	m.c.responseChannels[m.requestID] = resChan
-	m.c.mu.Unlock()
-
-	go m.handleResponses(ctx, req, resChan, o)
+	go func() {
+		defer cancel()
+		m.handleResponses(resCtx, req, resChan)
+		release()
+		m.handler.Close()
+	}()
 
 	if err = m.c.bus.Publish(ctx, m.i.GetRPCChannel(), ir); err != nil {
+		cancel()
 		return psrpc.NewError(psrpc.Internal, err)
 	}
 
@@ -119,10 +126,8 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 func (m *multiRPC[ResponseType]) handleResponses(
 	ctx context.Context,
 	req proto.Message,
-	resChan chan *internal.Response,
-	opts psrpc.RequestOpts,
+	resChan <-chan *internal.Response,
 ) {
-	timer := time.NewTimer(opts.Timeout)
 	for {
 		select {
 		case res := <-resChan:
@@ -144,27 +149,23 @@ func (m *multiRPC[ResponseType]) handleResponses(
 
 			m.handler.Recv(v, err)
 
-		case <-timer.C:
-			m.handler.Close()
-			return
-
 		case <-ctx.Done():
-			m.handler.Close()
 			return
 		}
 	}
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
-	m.resChan <- &psrpc.Response[ResponseType]{
+	// a result which isn't read must not hold up the deadline
+	select {
+	case m.resChan <- &psrpc.Response[ResponseType]{
 		Result: msg.(ResponseType),
 		Err:    err,
+	}:
+	case <-m.done:
 	}
 }
 
 func (m *multiRPC[ResponseType]) Close() {
-	m.c.mu.Lock()
-	delete(m.c.responseChannels, m.requestID)
-	m.c.mu.Unlock()
 	close(m.resChan)
 }
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 8d879de..8ea5d69 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -101,24 +101,13 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 		}
 
 		var claimChan chan *internal.ClaimRequest
-		resChan := make(chan *internal.Response, 1)
-
-		c.mu.Lock()
+		releaseClaims := func() {}
 		if i.RequireClaim {
-			claimChan = make(chan *internal.ClaimRequest, c.ChannelSize)
-			c.claimRequests[requestID] = claimChan
+			claimChan, releaseClaims = c.addClaimRequests(requestID)
+			defer releaseClaims()
 		}
-		c.responseChannels[requestID] = resChan
-		c.mu.Unlock()
-
-		defer func() {
-			c.mu.Lock()
-			if i.RequireClaim {
-				delete(c.claimRequests, requestID)
-			}
-			delete(c.responseChannels, requestID)
-			c.mu.Unlock()
-		}()
+		resChan, releaseResponses := c.addResponses(requestID, 1)
+		defer releaseResponses()
 
 		if err = c.bus.Publish(ctx, i.GetRPCChannel(), req); err != nil {
 			err = psrpc.NewError(psrpc.Internal, err)
@@ -130,6 +119,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		if i.RequireClaim {
 			serverID, err := selectServer(ctx, claimChan, resChan, o.SelectionOpts)
+			releaseClaims()
 			if err != nil {
 				return nil, err
 			}
diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 54f236b..7b1c595 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -57,21 +57,16 @@ func OpenStream[SendType, RecvType proto.Message](
 		},
 	}
 
-	claimChan := make(chan *internal.ClaimRequest, c.ChannelSize)
+	claimChan, releaseClaims := c.addClaimRequests(requestID)
+	defer releaseClaims()
+
 	recvChan := make(chan *internal.Stream, c.ChannelSize)
 	closed := make(chan struct{})
 
 	c.mu.Lock()
-	c.claimRequests[requestID] = claimChan
 	c.streamChannels[streamID] = streamChannels{recvChan, closed}
 	c.mu.Unlock()
 
-	defer func() {
-		c.mu.Lock()
-		delete(c.claimRequests, requestID)
-		c.mu.Unlock()
-	}()
-
 	ackChan := make(chan struct{})
 	cs := stream.NewStream[SendType, RecvType](
 		ctx,
@@ -96,6 +91,7 @@ func OpenStream[SendType, RecvType proto.Message](
 
 	if i.RequireClaim {
 		serverID, err := selectServer(ctx, claimChan, nil, o.SelectionOpts)
+		releaseClaims()
 		if err != nil {
 			_ = cs.Close(err)
 			return nil, err
-- 
2.43.0


From 858daf2bd3cde372f5d94a879eb64d65f5d6ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 02/38] fix: register handlers exclusively, also while the
 server is closed

The check for an existing handler and its insertion were two steps, so
concurrent registrations of one method all succeeded and all but one of the
handlers could never be removed; a registration racing with Close leaked its
handler and made later shutdowns hang. Reserve the key under the lock, refuse
registrations from the moment Close begins, and let a kill proceed while a
graceful shutdown waits.
---
 pkg/server/server.go | 122 +++++++++++++++++++++++++------------------
 1 file changed, 72 insertions(+), 50 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c992b16..2bc57f5 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -65,37 +65,27 @@ func RegisterHandler[RequestType proto.Message, ResponseType proto.Message](
 	svcImpl func(context.Context, RequestType) (ResponseType, error),
 	affinityFunc AffinityFunc[RequestType],
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserveHandler(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newRPCHandler(s, i, svcImpl, s.ChainedInterceptor, affinityFunc)
 	if err != nil {
+		s.releaseHandler(key)
 		return err
 	}
 
-	s.active.Add(1)
 	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+		s.releaseHandler(key)
 	}
 
-	s.mu.Lock()
-	s.handlers[key] = h
-	s.mu.Unlock()
+	if err := s.addHandler(key, h); err != nil {
+		return err
+	}
 
 	h.run(s)
 	return nil
@@ -108,49 +98,79 @@ func RegisterStreamHandler[RequestType proto.Message, ResponseType proto.Message
 	svcImpl func(psrpc.ServerStream[ResponseType, RequestType]) error,
 	affinityFunc StreamAffinityFunc,
 ) error {
-	if s.shutdown.IsBroken() {
-		return psrpc.ErrServerClosed
-	}
-
 	i := s.GetInfo(rpc, topic)
 
 	key := i.GetHandlerKey()
-	s.mu.RLock()
-	_, ok := s.handlers[key]
-	s.mu.RUnlock()
-	if ok {
-		return errors.New("handler already exists")
+	if err := s.reserveHandler(key); err != nil {
+		return err
 	}
 
 	// create handler
 	h, err := newStreamRPCHandler(s, i, svcImpl, affinityFunc)
 	if err != nil {
+		s.releaseHandler(key)
 		return err
 	}
 
-	s.active.Add(1)
 	h.onCompleted = func() {
-		s.active.Done()
-		s.mu.Lock()
-		delete(s.handlers, key)
-		s.mu.Unlock()
+		s.releaseHandler(key)
+	}
+
+	if err := s.addHandler(key, h); err != nil {
+		return err
+	}
+
+	h.run(s)
+	return nil
+}
+
+// reserveHandler claims the key for a handler which is being created.
+func (s *RPCServer) reserveHandler(key string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.IsBroken() {
+		return psrpc.ErrServerClosed
+	}
+	if _, ok := s.handlers[key]; ok {
+		return errors.New("handler already exists")
 	}
 
+	s.handlers[key] = nil
+	s.active.Add(1)
+	return nil
+}
+
+// addHandler makes the handler available, unless the server was closed in the meantime.
+func (s *RPCServer) addHandler(key string, h rpcHandler) error {
 	s.mu.Lock()
-	s.handlers[key] = h
+	closed := s.shutdown.IsBroken()
+	if !closed {
+		s.handlers[key] = h
+	}
 	s.mu.Unlock()
 
-	h.run(s)
+	if closed {
+		h.close(true)
+		return psrpc.ErrServerClosed
+	}
 	return nil
 }
 
+func (s *RPCServer) releaseHandler(key string) {
+	s.mu.Lock()
+	delete(s.handlers, key)
+	s.mu.Unlock()
+	s.active.Done()
+}
+
 func (s *RPCServer) DeregisterHandler(rpc string, topic []string) {
 	i := s.GetInfo(rpc, topic)
 	key := i.GetHandlerKey()
 	s.mu.RLock()
-	h, ok := s.handlers[key]
+	h := s.handlers[key]
 	s.mu.RUnlock()
-	if ok {
+	if h != nil {
 		h.close(true)
 	}
 }
@@ -161,22 +181,24 @@ func (s *RPCServer) Publish(ctx context.Context, rpc string, topic []string, msg
 }
 
 func (s *RPCServer) Close(force bool) {
-	s.shutdown.Once(func() {
-		s.mu.RLock()
-		handlers := maps.Values(s.handlers)
-		s.mu.RUnlock()
-
-		var wg sync.WaitGroup
-		for _, h := range handlers {
-			wg.Add(1)
-			h := h
-			go func() {
-				h.close(force)
-				wg.Done()
-			}()
+	s.mu.Lock()
+	s.shutdown.Break()
+	handlers := maps.Values(s.handlers)
+	s.mu.Unlock()
+
+	var wg sync.WaitGroup
+	for _, h := range handlers {
+		if h == nil {
+			continue
 		}
-		wg.Wait()
-	})
+		wg.Add(1)
+		h := h
+		go func() {
+			h.close(force)
+			wg.Done()
+		}()
+	}
+	wg.Wait()
 
 	if !force {
 		s.active.Wait()
-- 
2.43.0


From 5ac9c66e565efde9556b713f74ff085a0995cb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 03/38] fix: graceful close waits for every handler that was
 started

handling.Add ran in the spawned goroutine, so Close could miss a handler which
was about to start, and requests already received could start one after Close
had returned. Count handlers before they are spawned and wait until the request
subscription is drained. A closed subscription no longer makes the run loop spin
while handlers finish, and a kill is not blocked by a graceful close.
---
 pkg/server/rpc.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 07ccd22..fb688df 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -45,6 +45,8 @@ type rpcHandlerImpl[RequestType proto.Message, ResponseType proto.Message] struc
 	claimSub    bus.Subscription[*internal.ClaimResponse]
 	claims      map[string]chan *internal.ClaimResponse
 	handling    sync.WaitGroup
+	stopOnce    sync.Once
+	drained     chan struct{}
 	closeOnce   sync.Once
 	complete    chan struct{}
 	onCompleted func()
@@ -95,6 +97,7 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 		claimSub:     claimSub,
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
+		drained:      make(chan struct{}),
 		complete:     make(chan struct{}),
 	}
 
@@ -121,6 +124,9 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 		requests := h.requestSub.Channel()
 		claims := h.claimSub.Channel()
 
+		drained := sync.OnceFunc(func() { close(h.drained) })
+		defer drained()
+
 		for {
 			select {
 			case <-h.complete:
@@ -128,10 +134,15 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 
 			case ir := <-requests:
 				if ir == nil {
+					// no more requests, claims are still needed by those being handled
+					requests = nil
+					drained()
 					continue
 				}
 				if time.Now().UnixNano() < ir.Expiry {
+					h.handling.Add(1)
 					go func() {
+						defer h.handling.Done()
 						if err := h.handleRequest(s, ir); err != nil {
 							logger.Error(err, "failed to handle request", "requestID", ir.RequestId)
 						}
@@ -140,6 +151,7 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 
 			case claim := <-claims:
 				if claim == nil {
+					claims = nil
 					continue
 				}
 				h.mu.RLock()
@@ -157,9 +169,6 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) handleRequest(
 	s *RPCServer,
 	ir *internal.Request,
 ) error {
-	h.handling.Add(1)
-	defer h.handling.Done()
-
 	head := &metadata.Header{
 		RemoteID: ir.ClientId,
 		SentAt:   time.Unix(0, ir.SentAt),
@@ -287,11 +296,14 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 }
 
 func (h *rpcHandlerImpl[RequestType, ResponseType]) close(force bool) {
-	h.closeOnce.Do(func() {
+	h.stopOnce.Do(func() {
 		_ = h.requestSub.Close()
-		if !force {
-			h.handling.Wait()
-		}
+	})
+	if !force {
+		<-h.drained
+		h.handling.Wait()
+	}
+	h.closeOnce.Do(func() {
 		_ = h.claimSub.Close()
 		h.onCompleted()
 		close(h.complete)
-- 
2.43.0


From cf14ed0237cfc1cf09919f18417aa411dec95887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 04/38] fix: a closed subscription does not wait for its
 reader, and skips foreign messages

The goroutine which decodes messages blocked forever on the channel of a
subscription closed with unread messages, and a message of another type
crashed the process.
---
 internal/bus/subscription.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 5a45fae..5aeeec0 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -15,6 +15,8 @@
 package bus
 
 import (
+	"sync"
+
 	"google.golang.org/protobuf/proto"
 )
 
@@ -25,16 +27,19 @@ type Subscription[MessageType proto.Message] interface {
 
 type subscription[MessageType proto.Message] struct {
 	Reader
-	c <-chan MessageType
+	c         <-chan MessageType
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func newSubscription[MessageType proto.Message](sub Reader, size int) Subscription[MessageType] {
 	msgChan := make(chan MessageType, size)
+	closed := make(chan struct{})
 	go func() {
+		defer close(msgChan)
 		for {
 			b, ok := sub.read()
 			if !ok {
-				close(msgChan)
 				return
 			}
 
@@ -42,16 +47,37 @@ func newSubscription[MessageType proto.Message](sub Reader, size int) Subscripti
 			if err != nil {
 				continue
 			}
-			msgChan <- p.(MessageType)
+			msg, ok := p.(MessageType)
+			if !ok {
+				continue
+			}
+
+			// after closing, only messages for which there is room are delivered
+			select {
+			case msgChan <- msg:
+				continue
+			default:
+			}
+			select {
+			case msgChan <- msg:
+			case <-closed:
+				return
+			}
 		}
 	}()
 
 	return &subscription[MessageType]{
 		Reader: sub,
 		c:      msgChan,
+		closed: closed,
 	}
 }
 
 func (s *subscription[MessageType]) Channel() <-chan MessageType {
 	return s.c
 }
+
+func (s *subscription[MessageType]) Close() error {
+	s.closeOnce.Do(func() { close(s.closed) })
+	return s.Reader.Close()
+}
-- 
2.43.0


From b6931bb402acb4714471f3ba45b4bcf166748b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 05/38] fix: NATS subscriptions are opened and closed without
 races

A subscriber sharing a subject could be told that it is subscribed before, or
although, the NATS subscription was not (yet) there, a failed subscription was
left to others, and a message arriving while a subscription is closed was sent
on its closed channel.
---
 internal/bus/bus_nats.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 19c92de..73edf21 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -77,6 +77,7 @@ func (n *natsMessageBus) subscribe(ctx context.Context, channel string, size int
 		sub.sub, err = n.nc.Subscribe(channel, sub.write)
 	}
 	if err != nil {
+		cancel()
 		return nil, err
 	}
 
@@ -100,8 +101,15 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		channel: channel.Local,
 	}
 
+	// held until the router is subscribed, so that others only share it when it is
 	n.mu.Lock()
+	defer n.mu.Unlock()
+
 	r, ok := n.routers[channel.Server]
+	if ok && r.queue != queue {
+		cancel()
+		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
+	}
 	if !ok {
 		r = &natsRouter{
 			routes:  map[string][]*natsRouterSubscription{},
@@ -109,15 +117,10 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 			channel: channel.Server,
 			queue:   queue,
 		}
-		n.routers[channel.Server] = r
-	} else if r.queue != queue {
-		n.mu.Unlock()
-		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
 	}
 
 	r.open(sub.channel, sub)
 	sub.router = r
-	n.mu.Unlock()
 
 	if ok {
 		return sub, nil
@@ -130,12 +133,11 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		r.sub, err = n.nc.Subscribe(channel.Server, r.write)
 	}
 	if err != nil {
-		n.mu.Lock()
-		delete(n.routers, channel.Server)
-		n.mu.Unlock()
+		cancel()
 		return nil, err
 	}
 
+	n.routers[channel.Server] = r
 	return sub, nil
 }
 
@@ -144,9 +146,20 @@ type natsSubscription struct {
 	cancel  context.CancelFunc
 	sub     *nats.Subscription
 	msgChan chan *nats.Msg
+
+	mu     sync.Mutex
+	closed bool
 }
 
 func (n *natsSubscription) write(msg *nats.Msg) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+
+	// messages may still be arriving after unsubscribing
+	if n.closed {
+		return
+	}
+
 	select {
 	case n.msgChan <- msg:
 	case <-n.ctx.Done():
@@ -164,6 +177,10 @@ func (n *natsSubscription) read() ([]byte, bool) {
 func (n *natsSubscription) Close() error {
 	n.cancel()
 	err := n.sub.Unsubscribe()
+
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	n.closed = true
 	close(n.msgChan)
 	return err
 }
-- 
2.43.0


From b826f87eab8b4d5b7cbe6638bde02abe5e06a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 06/38] fix: queue subscribers sharing a NATS connection take
 turns

All subscribers of a queue on one bus got each message the queue group member
received, so requests and updates were handled more than once.
---
 internal/bus/bus_nats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 73edf21..8904149 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -192,6 +192,7 @@ type natsRouter struct {
 	bus     *natsMessageBus
 	channel string
 	queue   bool
+	next    int
 }
 
 func (n *natsRouter) open(channel string, s *natsRouterSubscription) {
@@ -231,7 +232,13 @@ func (n *natsRouter) write(m *nats.Msg) {
 
 	n.mu.Lock()
 	defer n.mu.Unlock()
-	for _, s := range n.routes[channel] {
+	subs := n.routes[channel]
+	if n.queue && len(subs) > 1 {
+		// the router is one member of the queue group, its subscribers take turns
+		n.next = (n.next + 1) % len(subs)
+		subs = subs[n.next : n.next+1]
+	}
+	for _, s := range subs {
 		s.write(m)
 	}
 }
-- 
2.43.0


From 863060ebaa864efab3dcc11024d317eb7160e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 07/38] fix: acknowledge stream messages without holding up the
 reader; a send on an ended stream fails

Both ends of a stream published acknowledgements from the goroutine that
reads, and waited for each other once their buffers were full. A send whose
context ended before the stream was marked closed reported success.
---
 internal/stream/stream.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 9d20867..1069fcf 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -63,6 +63,7 @@ type streamBase[SendType, RecvType proto.Message] struct {
 
 	mu      sync.Mutex
 	pending sync.WaitGroup
+	acking  sync.WaitGroup
 	acks    map[string]chan struct{}
 	closed  bool
 	err     error
@@ -111,10 +112,15 @@ func (s *stream[SendType, RecvType]) HandleStream(is *internal.Stream) error {
 		}
 
 	case *internal.Stream_Message:
-		if err := s.addPending(); err != nil {
+		if err := s.addPending(&s.acking); err != nil {
 			return err
 		}
-		defer s.pending.Done()
+		acking := false
+		defer func() {
+			if !acking {
+				s.acking.Done()
+			}
+		}()
 
 		v, err := bus.DeserializePayload[RecvType](b.Message.RawMessage)
 		if err != nil {
@@ -131,11 +137,16 @@ func (s *stream[SendType, RecvType]) HandleStream(is *internal.Stream) error {
 			return err
 		}
 
-		ctx, cancel := context.WithDeadline(s.ctx, time.Unix(0, is.Expiry))
-		defer cancel()
-		if err := s.Ack(ctx, is); err != nil {
-			return err
-		}
+		// the caller has to keep reading, or both ends could wait for each other
+		acking = true
+		go func() {
+			defer s.acking.Done()
+			ctx, cancel := context.WithDeadline(s.ctx, time.Unix(0, is.Expiry))
+			defer cancel()
+			if err := s.Ack(ctx, is); err != nil {
+				logger.Error(err, "failed to acknowledge message", "requestID", is.RequestId)
+			}
+		}()
 
 	case *internal.Stream_Close:
 		cause := psrpc.NewErrorFromResponse(b.Close.Code, b.Close.Error)
@@ -189,7 +200,7 @@ func (s *stream[SendType, RecvType]) Send(request SendType, opts ...psrpc.Stream
 }
 
 func (s *streamBase[SendType, RecvType]) Send(msg proto.Message, opts ...psrpc.StreamOption) (err error) {
-	if err := s.addPending(); err != nil {
+	if err := s.addPending(&s.pending); err != nil {
 		return err
 	}
 	defer s.pending.Done()
@@ -241,7 +252,10 @@ func (s *streamBase[SendType, RecvType]) Send(msg proto.Message, opts ...psrpc.S
 	case <-ctx.Done():
 		select {
 		case <-s.ctx.Done():
-			err = s.Err()
+			if err = s.Err(); err == nil {
+				// not closed yet
+				err = s.ctx.Err()
+			}
 		default:
 			err = psrpc.ErrRequestTimedOut
 		}
@@ -285,6 +299,8 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 		msg.Code = string(psrpc.Unknown)
 	}
 
+	s.acking.Wait()
+
 	now := time.Now()
 	err := s.adapter.Send(context.Background(), &internal.Stream{
 		StreamId:  s.streamID,
@@ -304,11 +320,11 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 	return err
 }
 
-func (s *streamBase[SendType, RecvType]) addPending() error {
+func (s *streamBase[SendType, RecvType]) addPending(pending *sync.WaitGroup) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	if !s.closed {
-		s.pending.Add(1)
+		pending.Add(1)
 	}
 	return s.err
 }
-- 
2.43.0


From 2befe6cfb38ffa0aa8f965140c98d171855685df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 08/38] fix: a repeated claim response does not block the
 request handler

---
 pkg/server/rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index fb688df..8513746 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -158,7 +158,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) run(s *RPCServer) {
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default:
+					}
 				}
 			}
 		}
-- 
2.43.0


From 138301645ad523f8ed0af5afbe55a989e2de6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 09/38] fix: streams being opened are closed with the client or
 the server

A close message for a stream whose handler was not registered yet was lost,
as were streams accepted while the handler was shutting down, and a late one
was ignored. Repeated claim responses blocked the handler.
---
 pkg/server/stream.go | 67 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 8946d55..662dd87 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -44,6 +44,7 @@ type streamHandler[RecvType, SendType proto.Message] struct {
 	mu          sync.RWMutex
 	streamSub   bus.Subscription[*internal.Stream]
 	claimSub    bus.Subscription[*internal.ClaimResponse]
+	opening     map[string]context.CancelFunc
 	streams     map[string]stream.Stream[SendType, RecvType]
 	claims      map[string]chan *internal.ClaimResponse
 	draining    atomic.Bool
@@ -84,6 +85,7 @@ func newStreamRPCHandler[RecvType, SendType proto.Message](
 		i:            i,
 		streamSub:    streamSub,
 		claimSub:     claimSub,
+		opening:      make(map[string]context.CancelFunc),
 		streams:      make(map[string]stream.Stream[SendType, RecvType]),
 		claims:       make(map[string]chan *internal.ClaimResponse),
 		affinityFunc: affinityFunc,
@@ -105,9 +107,10 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 
 			case is := <-requests:
 				if is == nil {
+					requests = nil
 					continue
 				}
-				if time.Now().UnixNano() < is.Expiry {
+				if is.GetClose() != nil || time.Now().UnixNano() < is.Expiry {
 					if err := h.handleRequest(s, is); err != nil {
 						logger.Error(err, "failed to handle request", "requestID", is.RequestId)
 					}
@@ -115,13 +118,17 @@ func (h *streamHandler[RecvType, SendType]) run(s *RPCServer) {
 
 			case claim := <-claims:
 				if claim == nil {
+					claims = nil
 					continue
 				}
 				h.mu.RLock()
 				claimChan, ok := h.claims[claim.RequestId]
 				h.mu.RUnlock()
 				if ok {
-					claimChan <- claim
+					select {
+					case claimChan <- claim:
+					default:
+					}
 				}
 			}
 		}
@@ -133,18 +140,30 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 	is *internal.Stream,
 ) error {
 	if open := is.GetOpen(); open != nil {
-		if h.draining.Load() {
+		h.mu.Lock()
+		defer h.mu.Unlock()
+
+		_, opening := h.opening[is.StreamId]
+		_, opened := h.streams[is.StreamId]
+		if opening || opened || h.draining.Load() {
 			return nil
 		}
 
+		octx, cancel := context.WithDeadline(context.Background(), time.Unix(0, is.Expiry))
+		h.opening[is.StreamId] = cancel
+
 		go func() {
-			if err := h.handleOpenRequest(s, is, open); err != nil {
+			defer cancel()
+			if err := h.handleOpenRequest(s, octx, is, open); err != nil {
 				logger.Error(err, "stream handler failed", "requestID", is.RequestId)
 			}
 		}()
 	} else {
 		h.mu.Lock()
 		ss, ok := h.streams[is.StreamId]
+		if cancel, opening := h.opening[is.StreamId]; opening && is.GetClose() != nil {
+			cancel()
+		}
 		h.mu.Unlock()
 
 		if ok {
@@ -154,8 +173,27 @@ func (h *streamHandler[RecvType, SendType]) handleRequest(
 	return nil
 }
 
+// endOpening adds the stream, if it was accepted, unless it was closed or the
+// handler started draining while it was being opened.
+func (h *streamHandler[RecvType, SendType]) endOpening(
+	octx context.Context,
+	streamID string,
+	ss stream.Stream[SendType, RecvType],
+) bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
+	delete(h.opening, streamID)
+	if ss == nil || octx.Err() != nil || h.draining.Load() {
+		return false
+	}
+	h.streams[streamID] = ss
+	return true
+}
+
 func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 	s *RPCServer,
+	octx context.Context,
 	is *internal.Stream,
 	open *internal.StreamOpen,
 ) error {
@@ -165,12 +203,12 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 		Metadata: open.Metadata,
 	}
 	ctx := metadata.NewContextWithIncomingHeader(context.Background(), head)
-	octx, cancel := context.WithDeadline(ctx, time.Unix(0, is.Expiry))
-	defer cancel()
+	octx = metadata.NewContextWithIncomingHeader(octx, head)
 
 	if h.i.RequireClaim {
 		claimed, err := h.claimRequest(s, octx, is)
 		if !claimed {
+			h.endOpening(octx, is.StreamId, nil)
 			return err
 		}
 	}
@@ -190,9 +228,9 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 		make(map[string]chan struct{}),
 	)
 
-	h.mu.Lock()
-	h.streams[is.StreamId] = ss
-	h.mu.Unlock()
+	if !h.endOpening(octx, is.StreamId, ss) {
+		return nil
+	}
 
 	if err := ss.Ack(octx, is); err != nil {
 		_ = ss.Close(err)
@@ -244,9 +282,6 @@ func (h *streamHandler[RecvType, SendType]) claimRequest(
 		return false, err
 	}
 
-	timeout := time.NewTimer(time.Duration(is.Expiry - time.Now().UnixNano()))
-	defer timeout.Stop()
-
 	select {
 	case claim := <-claimResponseChan:
 		if claim.ServerId == s.ID {
@@ -255,16 +290,18 @@ func (h *streamHandler[RecvType, SendType]) claimRequest(
 			return false, nil
 		}
 
-	case <-timeout.C:
+	case <-ctx.Done():
 		return false, nil
 	}
 }
 
 func (h *streamHandler[RecvType, SendType]) close(force bool) {
 	h.closeOnce.Do(func() {
-		h.draining.Store(true)
-
 		h.mu.Lock()
+		h.draining.Store(true)
+		for _, cancel := range h.opening {
+			cancel()
+		}
 		serverStreams := maps.Values(h.streams)
 		h.mu.Unlock()
 
-- 
2.43.0


From a13f304b1b3d810ae3da3eb382e30e4d611d8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:05 +0000
Subject: [PATCH 10/38] fix: closed clients open no streams, opens expire with
 the caller's context and late closes end streams

---
 pkg/client/stream.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 7b1c595..1f8546a 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -38,17 +38,26 @@ func OpenStream[SendType, RecvType proto.Message](
 	opts ...psrpc.RequestOption,
 ) (psrpc.ClientStream[SendType, RecvType], error) {
 
+	if c.closed.IsBroken() {
+		return nil, psrpc.ErrClientClosed
+	}
+
 	i := c.GetInfo(rpc, topic)
 	o := getRequestOpts(ctx, i, c.ClientOpts, opts...)
 
 	streamID := rand.NewStreamID()
 	requestID := rand.NewRequestID()
 	now := time.Now()
+	// Clamp expiry to the caller's deadline so that servers don't accept it afterwards.
+	expiry := now.Add(o.Timeout)
+	if deadline, ok := ctx.Deadline(); ok && deadline.Before(expiry) {
+		expiry = deadline
+	}
 	req := &internal.Stream{
 		StreamId:  streamID,
 		RequestId: requestID,
 		SentAt:    now.UnixNano(),
-		Expiry:    now.Add(o.Timeout).UnixNano(),
+		Expiry:    expiry.UnixNano(),
 		Body: &internal.Stream_Open{
 			Open: &internal.StreamOpen{
 				NodeId:   c.ID,
@@ -141,7 +150,7 @@ func runClientStream[SendType, RecvType proto.Message](
 			return
 
 		case is := <-recvChan:
-			if time.Now().UnixNano() < is.Expiry {
+			if is.GetClose() != nil || time.Now().UnixNano() < is.Expiry {
 				if err := stream.HandleStream(is); err != nil {
 					logger.Error(err, "failed to handle request", "requestID", is.RequestId)
 				}
-- 
2.43.0


From 9ee3a17beaa87b1f00d78e43359d8ae22150ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 11/38] fix: a stream is not closed before its open was sent

---
 pkg/client/stream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/client/stream.go b/pkg/client/stream.go
index 1f8546a..e2c6ca3 100644
--- a/pkg/client/stream.go
+++ b/pkg/client/stream.go
@@ -88,12 +88,13 @@ func OpenStream[SendType, RecvType proto.Message](
 		map[string]chan struct{}{requestID: ackChan},
 	)
 
-	go runClientStream(c, cs, recvChan)
-
 	ctx, cancel := context.WithTimeout(ctx, o.Timeout)
 	defer cancel()
 
-	if err := c.bus.Publish(ctx, i.GetStreamServerChannel(), req); err != nil {
+	err := c.bus.Publish(ctx, i.GetStreamServerChannel(), req)
+	// not before, so that the stream can't be closed before it is opened
+	go runClientStream(c, cs, recvChan)
+	if err != nil {
 		_ = cs.Close(err)
 		return nil, psrpc.NewError(psrpc.Internal, err)
 	}
-- 
2.43.0


From 717073b858054ae3e5f18edd335f837e41e7a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 12/38] fix: an error without a message is still an error

---
 pkg/client/multi.go | 2 +-
 pkg/client/rpc.go   | 9 +++++++--
 pkg/server/rpc.go   | 3 +++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 3ad1693..09079c3 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -133,7 +133,7 @@ func (m *multiRPC[ResponseType]) handleResponses(
 		case res := <-resChan:
 			var v ResponseType
 			var err error
-			if res.Error != "" {
+			if isError(res) {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				v, err = bus.DeserializePayload[ResponseType](res.RawResponse)
diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 8ea5d69..76be219 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -135,7 +135,7 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 
 		select {
 		case res := <-resChan:
-			if res.Error != "" {
+			if isError(res) {
 				err = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			} else {
 				response, err = bus.DeserializePayload[ResponseType](res.RawResponse)
@@ -157,6 +157,11 @@ func newRPC[ResponseType proto.Message](c *RPCClient, i *info.RequestInfo) psrpc
 	}
 }
 
+// isError reports whether the request failed; the message of an error may be empty.
+func isError(res *internal.Response) bool {
+	return res.Error != "" || res.Code != ""
+}
+
 func selectServer(
 	ctx context.Context,
 	claimChan chan *internal.ClaimRequest,
@@ -218,7 +223,7 @@ func selectServer(
 
 		case res := <-resChan:
 			// will only happen with malformed requests
-			if res.Error != "" {
+			if isError(res) {
 				resErr = psrpc.NewErrorFromResponse(res.Code, res.Error, res.ErrorDetails...)
 			}
 		}
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 8513746..ed44666 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -285,6 +285,9 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 			res.Error = err.Error()
 			res.Code = string(psrpc.Unknown)
 		}
+		if res.Code == "" {
+			res.Code = string(psrpc.Unknown)
+		}
 	} else if response != nil {
 		b, err := bus.SerializePayload(response)
 		if err != nil {
-- 
2.43.0


From 5fcf34db8541435d2e2c3a2ba63711c063ed86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 13/38] fix: errors with invalid UTF-8 are delivered

---
 internal/stream/stream.go | 5 +++++
 pkg/server/rpc.go         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/stream/stream.go b/internal/stream/stream.go
index 1069fcf..46b2dcc 100644
--- a/internal/stream/stream.go
+++ b/internal/stream/stream.go
@@ -17,6 +17,7 @@ package stream
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -299,6 +300,10 @@ func (s *streamBase[RequestType, ResponseType]) Close(cause error) error {
 		msg.Code = string(psrpc.Unknown)
 	}
 
+	// only valid UTF-8 can be sent
+	msg.Error = strings.ToValidUTF8(msg.Error, "\uFFFD")
+	msg.Code = strings.ToValidUTF8(msg.Code, "\uFFFD")
+
 	s.acking.Wait()
 
 	now := time.Now()
diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index ed44666..6437850 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -17,6 +17,7 @@ package server
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"time"
 
@@ -288,6 +289,10 @@ func (h *rpcHandlerImpl[RequestType, ResponseType]) sendResponse(
 		if res.Code == "" {
 			res.Code = string(psrpc.Unknown)
 		}
+
+		// only valid UTF-8 can be sent
+		res.Error = strings.ToValidUTF8(res.Error, "\uFFFD")
+		res.Code = strings.ToValidUTF8(res.Code, "\uFFFD")
 	} else if response != nil {
 		b, err := bus.SerializePayload(response)
 		if err != nil {
-- 
2.43.0


From 2e513ba474cada0d5995cf2247b22f63770271a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 14/38] fix: server interceptors may call the next handler
 repeatedly

---
 internal/interceptors/interceptor.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/internal/interceptors/interceptor.go b/internal/interceptors/interceptor.go
index 6698835..87853de 100644
--- a/internal/interceptors/interceptor.go
+++ b/internal/interceptors/interceptor.go
@@ -42,21 +42,22 @@ func ChainServerInterceptors(interceptors []psrpc.ServerRPCInterceptor) psrpc.Se
 		return interceptors[0]
 	default:
 		return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (proto.Message, error) {
-			// the struct ensures the variables are allocated together, rather than separately, since we
-			// know they should be garbage collected together. This saves 1 allocation and decreases
-			// time/call by about 10% on the microbenchmark.
-			var state struct {
-				i    int
-				next psrpc.ServerRPCHandler
-			}
-			state.next = func(ctx context.Context, req proto.Message) (proto.Message, error) {
-				if state.i == len(interceptors)-1 {
-					return interceptors[state.i](ctx, req, rpcInfo, handler)
-				}
-				state.i++
-				return interceptors[state.i-1](ctx, req, rpcInfo, state.next)
-			}
-			return state.next(ctx, req)
+			return chainServerHandler(interceptors, rpcInfo, handler)(ctx, req)
 		}
 	}
 }
+
+// chainServerHandler returns a handler that calls the interceptors in order, and then
+// the handler. It keeps no state, so it can be called repeatedly and concurrently.
+func chainServerHandler(
+	interceptors []psrpc.ServerRPCInterceptor,
+	rpcInfo psrpc.RPCInfo,
+	handler psrpc.ServerRPCHandler,
+) psrpc.ServerRPCHandler {
+	if len(interceptors) == 0 {
+		return handler
+	}
+	return func(ctx context.Context, req proto.Message) (proto.Message, error) {
+		return interceptors[0](ctx, req, rpcInfo, chainServerHandler(interceptors[1:], rpcInfo, handler))
+	}
+}
-- 
2.43.0


From 281bd3bbe4e2257102c30e190314f754ba9a8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 15/38] fix: handlers get the request passed on by the
 interceptors

---
 pkg/server/rpc.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/server/rpc.go b/pkg/server/rpc.go
index 6437850..513b190 100644
--- a/pkg/server/rpc.go
+++ b/pkg/server/rpc.go
@@ -107,11 +107,18 @@ func newRPCHandler[RequestType proto.Message, ResponseType proto.Message](
 	} else {
 		h.handler = func(ctx context.Context, req RequestType) (ResponseType, error) {
 			var response ResponseType
-			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, _ proto.Message) (proto.Message, error) {
+			res, err := interceptor(ctx, req, i.RPCInfo, func(ctx context.Context, msg proto.Message) (proto.Message, error) {
+				req, ok := msg.(RequestType)
+				if !ok {
+					return nil, psrpc.NewErrorf(psrpc.MalformedRequest, "unexpected request type %T", msg)
+				}
 				return svcImpl(ctx, req)
 			})
 			if res != nil {
-				response = res.(ResponseType)
+				var ok bool
+				if response, ok = res.(ResponseType); !ok && err == nil {
+					err = psrpc.NewErrorf(psrpc.MalformedResponse, "unexpected response type %T", res)
+				}
 			}
 			return response, err
 		}
-- 
2.43.0


From 7f5128be1504ba7a060e1c6cf6a86ce04ca05dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 16/38] fix: an interceptor may pass on a multi-RPC error
 without a result

---
 pkg/client/multi.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 09079c3..10f2528 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -156,10 +156,15 @@ func (m *multiRPC[ResponseType]) handleResponses(
 }
 
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
+	result, ok := msg.(ResponseType)
+	if !ok && err == nil {
+		err = psrpc.NewErrorf(psrpc.MalformedResponse, "unexpected response type %T", msg)
+	}
+
 	// a result which isn't read must not hold up the deadline
 	select {
 	case m.resChan <- &psrpc.Response[ResponseType]{
-		Result: msg.(ResponseType),
+		Result: result,
 		Err:    err,
 	}:
 	case <-m.done:
-- 
2.43.0


From 1d876aaf6b7bbb1b70e8b4a01ddbe4d78ff811f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 17/38] fix: outgoing metadata follows the order of writes and
 is not shared with the caller

---
 pkg/metadata/metadata.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/metadata/metadata.go b/pkg/metadata/metadata.go
index a900172..399f9fe 100644
--- a/pkg/metadata/metadata.go
+++ b/pkg/metadata/metadata.go
@@ -57,7 +57,7 @@ func IncomingHeader(ctx context.Context) *Header {
 
 // NewContextWithOutgoingMetadata resets any existing outgoing metadata in the context to the one provided.
 func NewContextWithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
-	return context.WithValue(ctx, metadataKey{}, ctxMD{md: md})
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: maps.Clone(md)})
 }
 
 // WithOutgoingMetadata adds outgoing metadata to the context.
@@ -65,16 +65,14 @@ func WithOutgoingMetadata(ctx context.Context, md Metadata) context.Context {
 	if len(md) == 0 {
 		return ctx
 	}
-	m, ok := ctx.Value(metadataKey{}).(ctxMD)
-	if ok && m.md != nil {
-		m.md = maps.Clone(m.md)
-		for k, v := range md {
-			m.md[k] = v
-		}
-	} else {
-		m.md = md
+	merged := OutgoingContextMetadata(ctx)
+	if merged == nil {
+		merged = make(Metadata, len(md))
+	}
+	for k, v := range md {
+		merged[k] = v
 	}
-	return context.WithValue(ctx, metadataKey{}, m)
+	return context.WithValue(ctx, metadataKey{}, ctxMD{md: merged})
 }
 
 // AppendMetadataToOutgoingContext appends key-value pairs to the outgoing context.
-- 
2.43.0


From 78cf1afecfae1e880c14c9f45fc2051f4b63375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 18/38] fix: a call canceled during server selection fails as
 canceled

---
 pkg/client/rpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 76be219..42ff99e 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -169,7 +169,8 @@ func selectServer(
 	opts psrpc.SelectionOpts,
 ) (string, error) {
 
-	ctx, cancel := context.WithCancel(ctx)
+	callerCtx := ctx
+	ctx, cancel := context.WithCancel(callerCtx)
 	defer cancel()
 
 	if opts.AffinityTimeout > 0 {
@@ -189,6 +190,8 @@ func selectServer(
 		select {
 		case <-ctx.Done():
 			switch {
+			case errors.Is(callerCtx.Err(), context.Canceled):
+				return "", psrpc.ErrRequestCanceled
 			case opts.SelectionFunc != nil:
 				return opts.SelectionFunc(claims)
 			case serverID != "":
-- 
2.43.0


From 2a338a138f46b78b1ec6a059ad83230715a7ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 19/38] fix: stream receive metrics report the result

---
 pkg/middleware/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index ff17306..6cf2756 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -120,7 +120,7 @@ type streamMetricsInterceptor struct {
 }
 
 func (s *streamMetricsInterceptor) Recv(msg proto.Message) (err error) {
-	s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg))
+	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg)) }()
 	return s.StreamHandler.Recv(msg)
 }
 
-- 
2.43.0


From 70e1e1e756ce31ea85e5f4053a20dc4e2494e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 20/38] fix: interceptors see the end of multi-RPCs that cannot
 be sent

---
 pkg/client/multi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 10f2528..5ec23c1 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -88,6 +88,7 @@ func (m *multiRPC[ResponseType]) Send(ctx context.Context, req proto.Message, op
 
 	b, err := bus.SerializePayload(req)
 	if err != nil {
+		m.handler.Close()
 		return psrpc.NewError(psrpc.MalformedRequest, err)
 	}
 
-- 
2.43.0


From f57767e63cd87891dda39592fd8ba73b4f68d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 21/38] fix: interceptors see the end of streams refused while
 being opened

---
 pkg/server/stream.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/server/stream.go b/pkg/server/stream.go
index 662dd87..bcb3f0b 100644
--- a/pkg/server/stream.go
+++ b/pkg/server/stream.go
@@ -213,23 +213,25 @@ func (h *streamHandler[RecvType, SendType]) handleOpenRequest(
 		}
 	}
 
+	adapter := &serverStream[RecvType, SendType]{
+		h:      h,
+		s:      s,
+		nodeID: open.NodeId,
+	}
 	ss := stream.NewStream[SendType, RecvType](
 		ctx,
 		h.i,
 		is.StreamId,
 		s.Timeout,
-		&serverStream[RecvType, SendType]{
-			h:      h,
-			s:      s,
-			nodeID: open.NodeId,
-		},
+		adapter,
 		s.StreamInterceptors,
 		make(chan RecvType, s.ChannelSize),
 		make(map[string]chan struct{}),
 	)
 
 	if !h.endOpening(octx, is.StreamId, ss) {
-		return nil
+		adapter.refused = true
+		return ss.Close(psrpc.ErrStreamEOF)
 	}
 
 	if err := ss.Ack(octx, is); err != nil {
@@ -325,12 +327,16 @@ func (h *streamHandler[RecvType, SendType]) close(force bool) {
 }
 
 type serverStream[SendType, RecvType proto.Message] struct {
-	h      *streamHandler[SendType, RecvType]
-	s      *RPCServer
-	nodeID string
+	h       *streamHandler[SendType, RecvType]
+	s       *RPCServer
+	nodeID  string
+	refused bool // the client isn't told
 }
 
 func (s *serverStream[RequestType, ResponseType]) Send(ctx context.Context, msg *internal.Stream) (err error) {
+	if s.refused {
+		return nil
+	}
 	if err = s.s.bus.Publish(ctx, info.GetStreamChannel(s.s.Name, s.nodeID), msg); err != nil {
 		err = psrpc.NewError(psrpc.Internal, err)
 	}
-- 
2.43.0


From 9ce66f281f3f7c9f6082f709e067cf4760dc943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 22/38] fix: unread multi-RPC results do not hold up other
 requests of the client

---
 pkg/client/multi.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/client/multi.go b/pkg/client/multi.go
index 5ec23c1..b75faab 100644
--- a/pkg/client/multi.go
+++ b/pkg/client/multi.go
@@ -129,6 +129,8 @@ func (m *multiRPC[ResponseType]) handleResponses(
 	req proto.Message,
 	resChan <-chan *internal.Response,
 ) {
+	resChan = bufferResponses(ctx, resChan)
+
 	for {
 		select {
 		case res := <-resChan:
@@ -156,6 +158,34 @@ func (m *multiRPC[ResponseType]) handleResponses(
 	}
 }
 
+// bufferResponses takes responses as they arrive, so that those whose results
+// aren't read yet don't hold up the client's other requests.
+func bufferResponses(ctx context.Context, resChan <-chan *internal.Response) <-chan *internal.Response {
+	buffered := make(chan *internal.Response)
+
+	go func() {
+		var queue []*internal.Response
+		for {
+			var out chan<- *internal.Response
+			var next *internal.Response
+			if len(queue) > 0 {
+				out, next = buffered, queue[0]
+			}
+
+			select {
+			case res := <-resChan:
+				queue = append(queue, res)
+			case out <- next:
+				queue = queue[1:]
+			case <-ctx.Done():
+				return
+			}
+		}
+	}()
+
+	return buffered
+}
+
 func (m *multiRPC[ResponseType]) Recv(msg proto.Message, err error) {
 	result, ok := msg.(ResponseType)
 	if !ok && err == nil {
-- 
2.43.0


From f5dc4e6a246a391615d384620af5c031d116d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 23/38] fix: a NATS queue and a topic named Q do not share a
 subscription

---
 internal/bus/bus_nats.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 8904149..849161c 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -28,13 +28,20 @@ type natsMessageBus struct {
 	nc *nats.Conn
 
 	mu      sync.Mutex
-	routers map[string]*natsRouter
+	routers map[natsRouterKey]*natsRouter
+}
+
+// a queue and another channel may have the same subject ("SRV.Service.Q" is the
+// queue of the service and its topic "Q")
+type natsRouterKey struct {
+	channel string
+	queue   bool
 }
 
 func NewNatsMessageBus(nc *nats.Conn) MessageBus {
 	return &natsMessageBus{
 		nc:      nc,
-		routers: map[string]*natsRouter{},
+		routers: map[natsRouterKey]*natsRouter{},
 	}
 }
 
@@ -88,7 +95,7 @@ func (n *natsMessageBus) unsubscribeRouter(r *natsRouter, channel string, s *nat
 	n.mu.Lock()
 	defer n.mu.Unlock()
 	if r.close(channel, s) {
-		delete(n.routers, r.channel)
+		delete(n.routers, natsRouterKey{r.channel, r.queue})
 	}
 }
 
@@ -105,11 +112,13 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 	n.mu.Lock()
 	defer n.mu.Unlock()
 
-	r, ok := n.routers[channel.Server]
-	if ok && r.queue != queue {
+	if other, ok := n.routers[natsRouterKey{channel.Server, !queue}]; ok && other.has(channel.Local) {
 		cancel()
 		return nil, fmt.Errorf("subscription type mismatch for channel %q %q", channel, sub.channel)
 	}
+
+	key := natsRouterKey{channel.Server, queue}
+	r, ok := n.routers[key]
 	if !ok {
 		r = &natsRouter{
 			routes:  map[string][]*natsRouterSubscription{},
@@ -137,7 +146,7 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		return nil, err
 	}
 
-	n.routers[channel.Server] = r
+	n.routers[key] = r
 	return sub, nil
 }
 
@@ -201,6 +210,12 @@ func (n *natsRouter) open(channel string, s *natsRouterSubscription) {
 	n.routes[channel] = append(n.routes[channel], s)
 }
 
+func (n *natsRouter) has(channel string) bool {
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	return len(n.routes[channel]) > 0
+}
+
 func (n *natsRouter) close(channel string, s *natsRouterSubscription) bool {
 	n.mu.Lock()
 	defer n.mu.Unlock()
-- 
2.43.0


From ceadf466847ccc9ed2eafc201a01aabcef79414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 24/38] fix: a finished server selection leaves no timers
 behind

---
 pkg/client/rpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/client/rpc.go b/pkg/client/rpc.go
index 42ff99e..37b26d4 100644
--- a/pkg/client/rpc.go
+++ b/pkg/client/rpc.go
@@ -174,7 +174,7 @@ func selectServer(
 	defer cancel()
 
 	if opts.AffinityTimeout > 0 {
-		time.AfterFunc(opts.AffinityTimeout, cancel)
+		defer time.AfterFunc(opts.AffinityTimeout, cancel).Stop()
 	}
 
 	var (
@@ -220,7 +220,7 @@ func selectServer(
 
 				if opts.ShortCircuitTimeout > 0 && !shorted {
 					shorted = true
-					time.AfterFunc(opts.ShortCircuitTimeout, cancel)
+					defer time.AfterFunc(opts.ShortCircuitTimeout, cancel).Stop()
 				}
 			}
 
-- 
2.43.0


From 4d6680c846fbb417b40c278a4e8c2225721de26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 25/38] fix: creating a client does not write into the caller's
 option slice

---
 pkg/client/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 2d3efe0..58dddbf 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -44,7 +44,8 @@ func NewRPCClientWithStreams(
 	b bus.MessageBus,
 	opts ...psrpc.ClientOption,
 ) (*RPCClient, error) {
-	return NewRPCClient(sd, b, append(opts, withStreams())...)
+	// the caller's options may have room behind them which is in use
+	return NewRPCClient(sd, b, append(opts[:len(opts):len(opts)], withStreams())...)
 }
 
 func NewRPCClient(
-- 
2.43.0


From d7da3ebc702006f287b596eea7ddb3857b39df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 26/38] fix: metrics do not look at messages that were handed
 over

---
 pkg/middleware/metrics.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index 6cf2756..01c892b 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -71,8 +71,9 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 	return func(rpcInfo psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
 		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (res proto.Message, err error) {
 			start := time.Now()
+			reqSize := proto.Size(req)
 			defer func() {
-				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(req), proto.Size(res))
+				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, reqSize, proto.Size(res))
 			}()
 			return next(ctx, req, opts...)
 		}
@@ -82,6 +83,7 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInterceptor {
 	return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (res proto.Message, err error) {
 		start := time.Now()
+		reqSize := proto.Size(req) // the handler may change or keep the request
 		defer func() {
 			if rpcInfo.Multi {
 				var responseCount, errorCount int
@@ -90,9 +92,9 @@ func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInt
 				} else {
 					errorCount++
 				}
-				observer.OnMultiRequest(ServerRole, rpcInfo, time.Since(start), responseCount, errorCount, proto.Size(req), proto.Size(res))
+				observer.OnMultiRequest(ServerRole, rpcInfo, time.Since(start), responseCount, errorCount, reqSize, proto.Size(res))
 			} else {
-				observer.OnUnaryRequest(ServerRole, rpcInfo, time.Since(start), err, proto.Size(req), proto.Size(res))
+				observer.OnUnaryRequest(ServerRole, rpcInfo, time.Since(start), err, reqSize, proto.Size(res))
 			}
 		}()
 		return handler(ctx, req)
@@ -120,7 +122,8 @@ type streamMetricsInterceptor struct {
 }
 
 func (s *streamMetricsInterceptor) Recv(msg proto.Message) (err error) {
-	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, proto.Size(msg)) }()
+	size := proto.Size(msg) // it belongs to the reader afterwards
+	defer func() { s.observer.OnStreamRecv(s.role, s.info, err, size) }()
 	return s.StreamHandler.Recv(msg)
 }
 
-- 
2.43.0


From ca3c9f722fc3e48d0c39c4a6de4ea6bb2919813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 27/38] fix: client metrics of unary calls no longer swap
 received and sent bytes

---
 pkg/middleware/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index 01c892b..ab0c368 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -73,7 +73,7 @@ func newClientRPCMetricsInterceptor(observer MetricsObserver) psrpc.ClientRPCInt
 			start := time.Now()
 			reqSize := proto.Size(req)
 			defer func() {
-				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, reqSize, proto.Size(res))
+				observer.OnUnaryRequest(ClientRole, rpcInfo, time.Since(start), err, proto.Size(res), reqSize)
 			}()
 			return next(ctx, req, opts...)
 		}
-- 
2.43.0


From d40700fd087014661e916cd2596869b891bf0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 28/38] fix: metrics report executions ended by a panic as
 failed

---
 pkg/middleware/metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/middleware/metrics.go b/pkg/middleware/metrics.go
index ab0c368..ddc28a0 100644
--- a/pkg/middleware/metrics.go
+++ b/pkg/middleware/metrics.go
@@ -84,7 +84,12 @@ func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInt
 	return func(ctx context.Context, req proto.Message, rpcInfo psrpc.RPCInfo, handler psrpc.ServerRPCHandler) (res proto.Message, err error) {
 		start := time.Now()
 		reqSize := proto.Size(req) // the handler may change or keep the request
+		panicked := true
 		defer func() {
+			err := err
+			if panicked {
+				err = psrpc.NewErrorf(psrpc.Internal, "server panic")
+			}
 			if rpcInfo.Multi {
 				var responseCount, errorCount int
 				if err == nil {
@@ -97,7 +102,9 @@ func newServerRPCMetricsInterceptor(observer MetricsObserver) psrpc.ServerRPCInt
 				observer.OnUnaryRequest(ServerRole, rpcInfo, time.Since(start), err, reqSize, proto.Size(res))
 			}
 		}()
-		return handler(ctx, req)
+		res, err = handler(ctx, req)
+		panicked = false
+		return
 	}
 }
 
-- 
2.43.0


From 8e4aeec90ff324a2fee608838118e9e9433cc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 29/38] fix: message buses do not hold their locks while a
 subscriber is not reading

Closing two subscriptions of one bus could wait for ever: the lock needed for the
first was held by the delivery of a message to the second, which was no longer read
(e.g. when a client or server closed its subscriptions one after the other).
---
 internal/bus/bus_local.go | 46 +++++++++++++++++++++++++++------------
 internal/bus/bus_nats.go  | 28 ++++++++++++++++++------
 internal/bus/bus_redis.go | 29 +++++++++++-------------
 3 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/internal/bus/bus_local.go b/internal/bus/bus_local.go
index 283b564..bab2c46 100644
--- a/internal/bus/bus_local.go
+++ b/internal/bus/bus_local.go
@@ -104,6 +104,7 @@ func (l *localSubList) create(ctx context.Context, size int) *localSubscription
 		ctx:     ctx,
 		cancel:  cancel,
 		msgChan: make(chan []byte, size),
+		closed:  make(chan struct{}),
 	}
 
 	l.Lock()
@@ -134,6 +135,13 @@ func (l *localSubList) create(ctx context.Context, size int) *localSubscription
 }
 
 func (l *localSubList) dispatch(b []byte) {
+	// without the lock, others can subscribe and close while one does not read
+	for _, s := range l.recipients() {
+		s.write(b)
+	}
+}
+
+func (l *localSubList) recipients() []*localSubscription {
 	if l.queue {
 		l.Lock()
 		defer l.Unlock()
@@ -146,27 +154,30 @@ func (l *localSubList) dispatch(b []byte) {
 			s := l.subs[l.next]
 			l.next++
 			if s != nil {
-				s.write(b)
-				return
+				return []*localSubscription{s}
 			}
 		}
-	} else {
-		l.RLock()
-		defer l.RUnlock()
+		return nil
+	}
 
-		// send to all
-		for _, s := range l.subs {
-			if s != nil {
-				s.write(b)
-			}
+	l.RLock()
+	defer l.RUnlock()
+
+	// send to all
+	subs := make([]*localSubscription, 0, len(l.subs))
+	for _, s := range l.subs {
+		if s != nil {
+			subs = append(subs, s)
 		}
 	}
+	return subs
 }
 
 type localSubscription struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	msgChan chan []byte
+	closed  chan struct{}
 	onClose func()
 }
 
@@ -178,16 +189,23 @@ func (l *localSubscription) write(b []byte) {
 }
 
 func (l *localSubscription) read() ([]byte, bool) {
-	msg, ok := <-l.msgChan
-	if !ok {
+	select {
+	case msg := <-l.msgChan:
+		return msg, true
+	case <-l.closed:
+	}
+
+	select {
+	case msg := <-l.msgChan:
+		return msg, true
+	default:
 		return nil, false
 	}
-	return msg, true
 }
 
 func (l *localSubscription) Close() error {
 	l.cancel()
 	l.onClose()
-	close(l.msgChan)
+	close(l.closed)
 	return nil
 }
diff --git a/internal/bus/bus_nats.go b/internal/bus/bus_nats.go
index 849161c..8869835 100644
--- a/internal/bus/bus_nats.go
+++ b/internal/bus/bus_nats.go
@@ -105,6 +105,7 @@ func (n *natsMessageBus) subscribeRouter(ctx context.Context, channel Channel, s
 		ctx:     ctx,
 		cancel:  cancel,
 		msgChan: make(chan *nats.Msg, size),
+		closed:  make(chan struct{}),
 		channel: channel.Local,
 	}
 
@@ -245,6 +246,13 @@ func (n *natsRouter) write(m *nats.Msg) {
 		return
 	}
 
+	// without the lock, others can subscribe and close while one does not read
+	for _, s := range n.recipients(channel) {
+		s.write(m)
+	}
+}
+
+func (n *natsRouter) recipients(channel string) []*natsRouterSubscription {
 	n.mu.Lock()
 	defer n.mu.Unlock()
 	subs := n.routes[channel]
@@ -253,15 +261,14 @@ func (n *natsRouter) write(m *nats.Msg) {
 		n.next = (n.next + 1) % len(subs)
 		subs = subs[n.next : n.next+1]
 	}
-	for _, s := range subs {
-		s.write(m)
-	}
+	return slices.Clone(subs)
 }
 
 type natsRouterSubscription struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	msgChan chan *nats.Msg
+	closed  chan struct{}
 	router  *natsRouter
 	channel string
 }
@@ -274,16 +281,23 @@ func (n *natsRouterSubscription) write(m *nats.Msg) {
 }
 
 func (n *natsRouterSubscription) read() ([]byte, bool) {
-	msg, ok := <-n.msgChan
-	if !ok {
+	select {
+	case msg := <-n.msgChan:
+		return msg.Data, true
+	case <-n.closed:
+	}
+
+	select {
+	case msg := <-n.msgChan:
+		return msg.Data, true
+	default:
 		return nil, false
 	}
-	return msg.Data, true
 }
 
 func (n *natsRouterSubscription) Close() error {
 	n.cancel()
 	n.router.bus.unsubscribeRouter(n.router, n.channel, n)
-	close(n.msgChan)
+	close(n.closed)
 	return nil
 }
diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 7d770e2..200ce64 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -170,13 +170,19 @@ func (r *redisMessageBus) readWorker() {
 		delay = 0
 
 		r.mu.Lock()
+		var subs []*redisSubscription
 		if subList, ok := r.subs[msg.Channel]; ok {
-			subList.dispatch(msg)
+			subs = slices.Clone(subList.subs)
 		}
 		if subList, ok := r.queues[msg.Channel]; ok {
-			subList.dispatchQueue(msg)
+			subs = append(subs, subList.nextSub())
 		}
 		r.mu.Unlock()
+
+		// without the lock, others can subscribe and close while one does not read
+		for _, sub := range subs {
+			sub.write(msg)
+		}
 	}
 }
 
@@ -298,18 +304,14 @@ type redisSubList struct {
 	next int
 }
 
-func (r *redisSubList) dispatchQueue(msg *redis.Message) {
+// nextSub returns the subscription whose turn it is.
+func (r *redisSubList) nextSub() *redisSubscription {
 	if r.next >= len(r.subs) {
 		r.next = 0
 	}
-	r.subs[r.next].write(msg)
+	sub := r.subs[r.next]
 	r.next++
-}
-
-func (r *redisSubList) dispatch(msg *redis.Message) {
-	for _, sub := range r.subs {
-		sub.write(msg)
-	}
+	return sub
 }
 
 // ----------------------------------------------------
@@ -333,12 +335,8 @@ func (r *redisSubscription) write(msg *redis.Message) {
 func (r *redisSubscription) read() ([]byte, bool) {
 	for {
 		var msg *redis.Message
-		var ok bool
 		select {
-		case msg, ok = <-r.msgChan:
-			if !ok {
-				return nil, false
-			}
+		case msg = <-r.msgChan:
 		case <-r.ctx.Done():
 			return nil, false
 		}
@@ -359,7 +357,6 @@ func (r *redisSubscription) read() ([]byte, bool) {
 func (r *redisSubscription) Close() error {
 	r.cancel()
 	r.bus.unsubscribe(r.channel, r.queue, r)
-	close(r.msgChan)
 	return nil
 }
 
-- 
2.43.0


From 9764d6265c727eef58ceab20c23453d84e9cbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 30/38] fix: the Redis bus repeats or undoes failed
 subscription commands

When SUBSCRIBE or UNSUBSCRIBE fails, go-redis still remembers what was asked for
and applies it to its next connection. A channel closed before a failed SUBSCRIBE
was retried stayed subscribed at the server for good, and one subscribed to again
before a failed UNSUBSCRIBE was retried was never subscribed to again.
---
 internal/bus/bus_redis.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/bus/bus_redis.go b/internal/bus/bus_redis.go
index 200ce64..6249570 100644
--- a/internal/bus/bus_redis.go
+++ b/internal/bus/bus_redis.go
@@ -54,6 +54,7 @@ type redisMessageBus struct {
 	ops             *redisWriteOpQueue
 	dirtyChannels   map[string]struct{}
 	currentChannels map[string]struct{}
+	failedChannels  map[string]struct{}
 
 	publishQueues [publishBuckets]*redisPublishQueue
 }
@@ -71,6 +72,7 @@ func NewRedisMessageBus(rc redis.UniversalClient) MessageBus {
 		ops:             &redisWriteOpQueue{},
 		dirtyChannels:   map[string]struct{}{},
 		currentChannels: map[string]struct{}{},
+		failedChannels:  map[string]struct{}{},
 	}
 	for i := range len(r.publishQueues) {
 		r.publishQueues[i] = newRedisPublishQueue(r.ctx, r.rc)
@@ -256,10 +258,11 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 		unsubscribe := make(map[string]struct{}, len(r.dirtyChannels))
 		for c := range r.dirtyChannels {
 			_, current := r.currentChannels[c]
+			_, failed := r.failedChannels[c]
 			desired := r.subs[c] != nil || r.queues[c] != nil
-			if !current && desired {
+			if desired && (!current || failed) {
 				subscribe[c] = struct{}{}
-			} else if current && !desired {
+			} else if !desired && (current || failed) {
 				unsubscribe[c] = struct{}{}
 			}
 		}
@@ -279,17 +282,26 @@ func (r *redisReconcileSubscriptionsOp) run() error {
 			time.Sleep(reconcilerRetryInterval)
 		}
 
+		// when a command fails the client keeps what was asked for and applies it to its
+		// next connection. the command has to be repeated or undone even if it looks
+		// redundant by then.
 		r.mu.Lock()
 		if subscribeErr != nil {
 			maps.Copy(r.dirtyChannels, subscribe)
+			maps.Copy(r.failedChannels, subscribe)
 		} else {
 			maps.Copy(r.currentChannels, subscribe)
+			for c := range subscribe {
+				delete(r.failedChannels, c)
+			}
 		}
 		if unsubscribeErr != nil {
 			maps.Copy(r.dirtyChannels, unsubscribe)
+			maps.Copy(r.failedChannels, unsubscribe)
 		} else {
 			for c := range unsubscribe {
 				delete(r.currentChannels, c)
+				delete(r.failedChannels, c)
 			}
 		}
 	}
-- 
2.43.0


From ce33bee35cfb0dc23144cac05da99b5047984d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 31/38] fix: generated code refers to the wrong package if an
 imported protobuf package is named like one of psrpc's

---
 protoc-gen-psrpc/generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index a039af0..9996ab3 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -123,7 +123,7 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 
 	// Next, we need to pick names for all the files that are dependencies.
 	for _, f := range in.ProtoFile {
-		if *f.Name == "options.proto" && *f.Package == "psrpc" {
+		if f.GetName() == "options.proto" && f.GetPackage() == "psrpc" {
 			continue
 		}
 
@@ -174,7 +174,9 @@ func (t *psrpc) registerPackageName(name string) (alias string) {
 		i++
 	}
 	t.pkgNamesInUse[alias] = true
-	t.pkgs[name] = alias
+	if _, ok := t.pkgs[name]; !ok {
+		t.pkgs[name] = alias
+	}
 	return alias
 }
 
-- 
2.43.0


From fd5b5aa7d6605d2d1d7135797d120e126875c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 32/38] fix: generated code does not import packages whose
 protobuf name equals the name of the generated Go package

---
 protoc-gen-psrpc/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 9996ab3..76a6f0d 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -142,6 +142,10 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 				t.fileToGoPackageName[f] = t.genPkgName
 				continue
 			}
+			if importPath != "" {
+				// Another Go package, which has to be imported under another name.
+				t.pkgNamesInUse[t.genPkgName] = true
+			}
 		}
 
 		// This is a dependency from a different go_package. Use its package name.
-- 
2.43.0


From 7391e68886531d1e2ba5cbebefbf86c458c9e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 33/38] fix: generated code does not compile if a topic
 parameter or imported package is named like an identifier it uses

---
 protoc-gen-psrpc/generator.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 76a6f0d..e276ecd 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -106,6 +106,11 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 	t.registerPackageName("server")
 	t.registerPackageName("version")
 
+	// Nor can packages be named like other identifiers that generated code uses.
+	for _, name := range generatedIdentifiers {
+		t.pkgNamesInUse[name] = true
+	}
+
 	// Time to figure out package names of objects defined in protobuf. First,
 	// we'll figure out the name for the package we're generating.
 	genPkgName, err := deduceGenPkgName(t.genFiles)
@@ -170,6 +175,13 @@ func (t *psrpc) Generate(in *plugin.CodeGeneratorRequest) *plugin.CodeGeneratorR
 	return resp
 }
 
+// generatedIdentifiers are the names that generated functions declare, or
+// expect to have their predeclared meaning.
+var generatedIdentifiers = []string{
+	"bus", "c", "ctx", "err", "msg", "opts", "req", "rpcClient", "s", "sd", "svc",
+	"byte", "error", "float32", "init", "nil", "string",
+}
+
 func (t *psrpc) registerPackageName(name string) (alias string) {
 	alias = name
 	i := 1
@@ -868,12 +880,12 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 		return nil
 	}
 	if opt.TopicParams == nil || len(opt.TopicParams.Names) == 0 {
-		return []topic{{"topic", "string", false}}
+		return []topic{{t.topicVarName("topic"), "string", false}}
 	}
 	ts := make([]topic, 0, len(opt.TopicParams.Names))
 	for _, p := range opt.TopicParams.Names {
 		t := topic{
-			varName:  stringutils.LowerCamelCase(p),
+			varName:  t.topicVarName(p),
 			typeName: "string",
 			typed:    opt.TopicParams.Typed,
 		}
@@ -885,6 +897,16 @@ func (t *psrpc) topicsForMethod(method *descriptor.MethodDescriptorProto) topicS
 	return ts
 }
 
+// topicVarName returns the name of the variable for a topic parameter. It must
+// not be a keyword, or hide anything else that generated functions use.
+func (t *psrpc) topicVarName(name string) string {
+	varName := stringutils.LowerCamelCase(name)
+	for token.IsKeyword(varName) || t.pkgNamesInUse[varName] {
+		varName += "_"
+	}
+	return varName
+}
+
 func (t *psrpc) typedTopicsForService(service *descriptor.ServiceDescriptorProto) topicSlice {
 	var ts []topic
 	found := map[string]bool{}
-- 
2.43.0


From 3e26d4350d6c4911c75406889519b00a08edd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 34/38] fix: generated code names nested messages with lower
 case names differently than protoc-gen-go

---
 protoc-gen-psrpc/generator.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index e276ecd..853311a 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -1033,10 +1033,15 @@ func (t *psrpc) goTypeName(protoName string) string {
 	}
 
 	var name string
-	for _, parent := range def.Lineage() {
-		name += stringutils.CamelCase(parent.Descriptor.GetName()) + "_"
+	for _, d := range append(def.Lineage(), def) {
+		n := d.Descriptor.GetName()
+		// Like protoc-gen-go, which handles the dot in "Outer.inner" as it does
+		// underscores.
+		if name != "" && !('a' <= n[0] && n[0] <= 'z') {
+			name += "_"
+		}
+		name += stringutils.CamelCase(n)
 	}
-	name += stringutils.CamelCase(def.Descriptor.GetName())
 	return prefix + name
 }
 
-- 
2.43.0


From d1d0fa2a6d50f45593c04789e29f030508aad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 35/38] fix: code cannot be generated for packages named like a
 keyword or a number

---
 .../internal/gen/stringutils/stringutils.go          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
index 42628c1..dfe0326 100644
--- a/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
+++ b/protoc-gen-psrpc/internal/gen/stringutils/stringutils.go
@@ -14,8 +14,10 @@
 package stringutils
 
 import (
+	"go/token"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Is c an ASCII lower-case letter?
@@ -93,9 +95,15 @@ func AlphaDigitize(r rune) rune {
 }
 
 // CleanIdentifier makes sure s is a valid 'identifier' string: it contains only
-// letters, numbers, and underscore.
+// letters, numbers, and underscore, starts with a letter or underscore, and is
+// not a keyword. Like protoc-gen-go, it prepends an underscore where needed.
 func CleanIdentifier(s string) string {
-	return strings.Map(AlphaDigitize, s)
+	s = strings.Map(AlphaDigitize, s)
+	r, _ := utf8.DecodeRuneInString(s)
+	if token.IsKeyword(s) || !unicode.IsLetter(r) {
+		return "_" + s
+	}
+	return s
 }
 
 // BaseName the last path element of a slash-delimited name, with the last
-- 
2.43.0


From 9824ec312336cfa7296ee10ab9d3e4676e032b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 36/38] fix: code generated for the deprecated routing options
 takes false as true

---
 protoc-gen-psrpc/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 853311a..19eb28a 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -792,12 +792,12 @@ func (t *psrpc) getOptions(method *descriptor.MethodDescriptorProto) *options.Op
 	}
 
 	opts := proto.GetExtension(method.Options, options.E_Options).(*options.Options)
-	switch opts.Routing.(type) {
-	case *options.Options_AffinityFunc:
+	switch {
+	case opts.GetAffinityFunc():
 		opts.Type = options.Routing_AFFINITY
-	case *options.Options_Multi:
+	case opts.GetMulti():
 		opts.Type = options.Routing_MULTI
-	case *options.Options_Queue:
+	case opts.GetQueue():
 		opts.Type = options.Routing_QUEUE
 	}
 
-- 
2.43.0


From 0a2f6f4a353dc541e8249099e661e7127a629a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 37/38] fix: code generated for a topic group with a method
 that has no topics does not compile

---
 protoc-gen-psrpc/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protoc-gen-psrpc/generator.go b/protoc-gen-psrpc/generator.go
index 19eb28a..01f8eb1 100644
--- a/protoc-gen-psrpc/generator.go
+++ b/protoc-gen-psrpc/generator.go
@@ -934,7 +934,7 @@ func (t *psrpc) topicGroupsForService(service *descriptor.ServiceDescriptorProto
 	found := map[string]int{}
 	for _, m := range service.Method {
 		opt := t.getOptions(m)
-		if opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription {
+		if opt.TopicParams == nil || opt.TopicParams.Group == "" || opt.Subscription || !opt.Topics {
 			continue
 		}
 
-- 
2.43.0


From deabafc44390c6f309868aa9cac1271e4e64bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:46 +0000
Subject: [PATCH 38/38] fix: closing a subscription again does not panic

---
 internal/bus/subscription.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/bus/subscription.go b/internal/bus/subscription.go
index 5aeeec0..365930e 100644
--- a/internal/bus/subscription.go
+++ b/internal/bus/subscription.go
@@ -77,7 +77,11 @@ func (s *subscription[MessageType]) Channel() <-chan MessageType {
 	return s.c
 }
 
-func (s *subscription[MessageType]) Close() error {
-	s.closeOnce.Do(func() { close(s.closed) })
-	return s.Reader.Close()
+func (s *subscription[MessageType]) Close() (err error) {
+	// a reader can be closed once
+	s.closeOnce.Do(func() {
+		close(s.closed)
+		err = s.Reader.Close()
+	})
+	return err
 }
-- 
2.43.0

