From 85b3db60eaaa009ef0bdbd1805935fba76795cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/25] fix: refuse negative and overflowing sizes in typed
 buffer reads

ReadBytes panicked on a negative size and the array reads computed a
wrapped byte count, so a DataRow with a value size below -1 crashed the
whole proxy.
---
 pkg/pg/read_buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..8b35033 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,7 +32,7 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
@@ -104,6 +104,11 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// NB: k * 4 could overflow, so compare k itself
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,11 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// NB: k * 2 could overflow, so compare k itself
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 81893fea4cc250581381ef5d5d41e035b2e35386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/25] fix: validate element counts before allocating decoded
 messages

A negative count panicked in make() and took the whole process down; a
huge one made a tiny NegotiateProtocolVersion message allocate gigabytes.
---
 pkg/pg/data_row_message.go                   | 4 ++++
 pkg/pg/negotiate_protocol_version_message.go | 4 ++++
 pkg/pg/row_description_message.go            | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..5567e81 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,10 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	if valuesCount < 0 || int(valuesCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..440c40b 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,10 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..0fd1d2b 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,10 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	if fieldsCount < 0 || int(fieldsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From e307ac18ba056e9c945f9233afff0e5e15aafb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 03/25] fix: refuse frames whose length is smaller than the
 length field

Such a frame was accepted with an empty body (io.CopyN with a negative
count copies nothing) and relayed with its bogus length intact, or, for a
length close to the minimum int32, wrapped to a huge copy.
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..f47455a 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// NB: the length counts itself, so it cannot be less than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..32c8226 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// NB: the length counts itself, so it cannot be less than 4
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From 85a8c541ffa0c0bafdb3628a6dd0a41c653e86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 04/25] fix: decode NegotiateProtocolVersion messages with
 their own decoder

RecvMessage handed them to the NoticeResponse decoder, which refuses them,
so a database answering with one had its session torn down.
---
 pkg/pg/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..4cae06d 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -38,7 +38,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From 5dde0ccc2ae1148a03363ae6956b950c989e8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 05/25] fix: relay messages that cannot be decoded and
 re-encoded verbatim

The same type bytes are used in both directions, so Describe, Execute,
Close, Sync, SASL passwords and SASL authentication requests were decoded
as unrelated backend messages: the session was torn down or the message
reached the other side altered.
---
 pkg/pg/conn.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 4cae06d..eee06f4 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,7 @@
 package pg
 
 import (
+	"bytes"
 	"net"
 )
 
@@ -33,6 +34,19 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return nil, err
 	}
 
+	message, err := parseMessage(frame)
+
+	// The same type byte means different messages in the two directions (and in different protocol versions),
+	// so pass on as is whatever we cannot decode and encode back without changing it.
+	if err != nil || !bytes.Equal(message.Frame().Bytes(), frame) {
+		return ParseGenericMessage(frame)
+	}
+
+	return message, nil
+}
+
+// parseMessage decodes the frame as the message of its type.
+func parseMessage(frame StandardFrame) (Message, error) {
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
 		return ParseAuthenticationRequestMessage(frame)
-- 
2.43.0


From 5d6a1a612ca55a3030146fba241e0e76294efd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 06/25] fix: refuse startup messages with bytes after or
 without the terminator

Bytes after the terminator were silently dropped, so the database saw
another startup message than the client sent, and a message without the
terminator was accepted; a message without parameters lost its terminator.
---
 pkg/pg/startup_message.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..0ecb7eb 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -37,7 +37,7 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 	var parameters []*StartupMessageParameter
 
 	// NB: startup message won't contain any parameters if this is SSL negotiation message
-	if messageData.Len() > 0 {
+	if messageData.Len() > 0 || protocolVersion != SSLRequestMagic {
 		// Dictionary encoded as tuples of strings + ending \0
 		for {
 			key, err := messageData.ReadString()
@@ -58,6 +58,11 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 
 			parameters = append(parameters, &StartupMessageParameter{key, value})
 		}
+
+		// The terminator must be the last byte of the message
+		if messageData.Len() > 0 {
+			return nil, ErrMalformedMessage
+		}
 	}
 
 	message := &StartupMessage{
@@ -84,7 +89,8 @@ func (m *StartupMessage) Frame() Frame {
 		hasParams = true
 	}
 
-	if hasParams {
+	// NB: only SSL negotiation message doesn't have the terminator
+	if hasParams || m.ProtocolVersion != SSLRequestMagic {
 		messageBuffer.WriteByte(0)
 	}
 
-- 
2.43.0


From 31403c7f7af6412b6fa066812d86374c449135e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/25] fix: check every database parameter of the startup
 message

Only the first one was compared with the configured database, but
PostgreSQL uses the last one, so a client could reach any database of the
proxied server by naming it second.
---
 pkg/server/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..4c5813b 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -188,6 +188,13 @@ func (s *Session) negotiateSessionParams() error {
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
+	// NB: the database server uses the last of repeated parameters, so none of them may name another database
+	for _, param := range startupMessage.Parameters {
+		if param.Name == "database" && param.Value != allowedDB {
+			return fmt.Errorf("session: database mismatch: %v != %v", param.Value, allowedDB)
+		}
+	}
+
 	// Establish DB connection on behalf of the client
 	return s.establishDBConnection(startupMessage)
 }
-- 
2.43.0


From c2d79c2747f0756c4367758e65823006af081ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 08/25] fix: answer repeated SSL requests in a loop instead of
 recursively

A client repeating the request grew the stack until the process was
killed by the stack limit.
---
 pkg/server/session.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 4c5813b..9b5afe6 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -159,7 +159,7 @@ func (s *Session) negotiateSessionParams() error {
 	}
 
 	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -168,8 +168,12 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		// NB: client can repeat the request as many times as it likes, so no recursion here
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 82d5acdf45a4390579b15d78e35986f14357561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/25] fix: flush and propagate hang-ups, and relay the two
 directions separately

A hang-up left the session, its goroutines and the other connection behind
forever; closing a session closed channels its goroutines were sending to,
which panics; and a receiver that stopped reading blocked the opposite
direction because a single goroutine dispatched both.

Each queue is now closed by the goroutine that fills it, so a hang-up
flows through to the other side, which is closed once everything is sent.
---
 pkg/server/session.go | 89 ++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 9b5afe6..cf1581f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -135,14 +136,6 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
-
 	return
 }
 
@@ -240,6 +233,9 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
+	// No more messages — this will stop processing goroutine
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvMessage()
 
@@ -252,27 +248,34 @@ func (s *Session) startClientInPump() error {
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
-func (s *Session) startClientOutPump() error {
+func (s *Session) startClientOutPump() (err error) {
+	// Everything is sent — hang up
+	defer s.clientConn.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.clientOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			return err
 		}
 
-		// Send the message over the network
-		err := s.clientConn.SendMessage(message)
-
+		// Connection is broken — discard the rest of the queue to not block processing goroutine
 		if err != nil {
-			return err
+			continue
 		}
+
+		// Send the message over the network
+		err = s.clientConn.SendMessage(message)
 	}
 }
 
 // startClientOutPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
+	// No more messages — this will stop processing goroutine
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -285,49 +288,57 @@ func (s *Session) startDBInPump() error {
 }
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
-func (s *Session) startDBOutPump() error {
+func (s *Session) startDBOutPump() (err error) {
+	// Everything is sent — hang up
+	defer s.dbConn.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.dbOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			return err
 		}
 
-		// Send the message over the network
-		err := s.dbConn.SendMessage(message)
-
+		// Connection is broken — discard the rest of the queue to not block processing goroutine
 		if err != nil {
-			return err
+			continue
 		}
+
+		// Send the message over the network
+		err = s.dbConn.SendMessage(message)
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
-	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+// startClientProcessing dispatches messages from the client to the database.
+func (s *Session) startClientProcessing() error {
+	// No more messages — this will stop out pump
+	defer close(s.dbOut)
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+	// FIXME: temporary just proxy everything from the client to the database
+	for clientMsg := range s.clientIn {
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-			s.dbOut <- clientMsg
+		s.dbOut <- clientMsg
+	}
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+	return nil
+}
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+// startDBProcessing dispatches messages from the database to the client.
+func (s *Session) startDBProcessing() error {
+	// No more messages — this will stop out pump
+	defer close(s.clientOut)
 
-			s.clientOut <- dbMsg
-		}
+	// FIXME: temporary just proxy everything from the database to the client
+	for dbMsg := range s.dbIn {
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
+
+		s.clientOut <- dbMsg
 	}
+
+	return nil
 }
 
 // getDBConnnectionParam returns connection parameter with given name from the config.
-- 
2.43.0


From e3f2d367efe394a8ce4e10e31ce0e9c6a82cd6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 10/25] fix: do not leave a database connection open when
 closed while connecting

Session.Close raced with the assignment of dbConn: a session closed while
it was connecting to the database kept the new connection (and kept
Server.Close waiting for the dial, up to its watchdog panic).
---
 pkg/server/session.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index cf1581f..ceb0111 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"net"
@@ -26,6 +27,9 @@ type Session struct {
 	// Connection from the Gevulot to the database
 	dbConn *pg.Conn
 
+	// Guards dbConn
+	dbConnMu sync.Mutex
+
 	// Cached database connection parameters from the config
 	dbConnectionParams pg.ConnectionParams
 
@@ -130,6 +134,9 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
+	s.dbConnMu.Lock()
+	defer s.dbConnMu.Unlock()
+
 	if s.dbConn != nil {
 		err = s.dbConn.Close()
 
@@ -211,15 +218,38 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 		return err
 	}
 
+	// Stop connecting when session is closed
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	go func() {
+		select {
+		case <-s.closed.Done():
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	var dialer net.Dialer
+
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
 	// Convert to pg.NewConn
+	s.dbConnMu.Lock()
 	s.dbConn = pg.NewConn(conn)
+	s.dbConnMu.Unlock()
+
+	// Close doesn't know about the connection if it has been called while we were connecting
+	if s.closed.HasFired() {
+		_ = s.dbConn.Close()
+
+		return ErrSessionClosed
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
-- 
2.43.0


From 762c1a3d002164911b0234945c003376aa9ade26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 11/25] fix: stop waiting for the configuration when the
 session is closed

A session waiting for the first configuration kept Server.Close waiting
until its watchdog crashed the process.
---
 pkg/server/session.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index ceb0111..aedd46e 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -378,8 +378,7 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	// First call to getDBConnnectionParam — parse params from the config
 	if s.dbConnectionParams == nil {
-		// Get() will block until we have a config
-		config, err := s.cfg.Get()
+		config, err := s.waitForConfig()
 
 		if err != nil {
 			return "", err
@@ -395,3 +394,28 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 
 	return s.dbConnectionParams[name], nil
 }
+
+// waitForConfig returns the current config; it gives up when session is closed.
+func (s *Session) waitForConfig() (*Config, error) {
+	var (
+		config *Config
+		err    error
+	)
+
+	done := make(chan struct{})
+
+	// Get() will block until we have a config
+	go func() {
+		defer close(done)
+
+		config, err = s.cfg.Get()
+	}()
+
+	select {
+	case <-done:
+		return config, err
+
+	case <-s.closed.Done():
+		return nil, ErrSessionClosed
+	}
+}
-- 
2.43.0


From 9afe5981e19ee0d7b41e87d0047c310c83e9ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 12/25] fix: close connections and listeners handed over while
 closing

A listener or a connection arriving while Close was running was registered
after Close had swept them (or refused without being closed) and stayed
open forever; starting its goroutine also raced with WaitGroup.Wait.
---
 pkg/server/server.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..744670c 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -132,6 +132,9 @@ func (srv *Server) Serve(ln net.Listener) error {
 
 	if err != nil {
 		log.Errorf("server: error has been occurred while changing listeners: %v", err)
+
+		_ = ln.Close()
+
 		return err
 	}
 
@@ -177,6 +180,8 @@ func (srv *Server) Serve(ln net.Listener) error {
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		_ = conn.Close()
+
 		return ErrServerClosed
 	}
 
@@ -192,6 +197,8 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		_ = session.Close()
+
 		return err
 	}
 
@@ -264,14 +271,14 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -290,7 +297,18 @@ func (srv *Server) changeListener(ln net.Listener) error {
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
 // before the server is shutdown.
 func (srv *Server) do(f func()) {
+	srv.mu.Lock()
+
+	// Close may be waiting already, so no new goroutines; f will find out that server is closed and return
+	if srv.shutdown.HasFired() {
+		srv.mu.Unlock()
+		f()
+
+		return
+	}
+
 	srv.wg.Add(1)
+	srv.mu.Unlock()
 
 	go func() {
 		defer srv.wg.Done()
@@ -300,14 +318,14 @@ func (srv *Server) do(f func()) {
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From dcbeb90ccb6f3437faec68bb920315f2a6d663bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 13/25] fix: change listeners in the order of configurations

Every listener was installed by its own goroutine, so two quick changes of
the address could leave the server listening on the older one.
---
 pkg/server/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 744670c..79cc43d 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -111,8 +111,16 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// Change the listener right away: listeners must be changed in the order of configs
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				_ = ln.Close()
+				continue
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			srv.do(func() { _ = srv.acceptConns(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -138,6 +146,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted from the current listener.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 2d87b0f5c344ce6b2e5b7ef4c76902aafaf9908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 14/25] fix: never block the configuration store on its
 subscribers

Updates were sent with the mutex held, so a subscriber that stopped
receiving blocked Get, Unsubscribe and Close forever (and a Get waiting for
the first configuration deadlocked with the update that should end it when
it gave up); a subscription could also slip in after Close.
---
 pkg/server/config_distributor.go | 158 +++++++++++++++++++++++--------
 1 file changed, 119 insertions(+), 39 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..032b1cd 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -36,6 +36,9 @@ type ConfigDistributor struct {
 	// Fired after Close is called
 	closed *Event
 
+	// Fired after the first Config is received
+	configured *Event
+
 	// Channel with Config updates
 	source <-chan *Config
 
@@ -43,7 +46,19 @@ type ConfigDistributor struct {
 	lastConfig *Config
 
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription is a subscription to Config updates.
+type configSubscription struct {
+	// Held while sending
+	mu sync.Mutex
+
+	// Predicates for updates
+	checks []ConfigChangedCheckFn
+
+	// Fired when subscription is canceled
+	canceled *Event
 }
 
 var (
@@ -59,6 +74,8 @@ func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 		source:  configChan,
 		started: NewEvent(),
 		closed:  NewEvent(),
+
+		configured: NewEvent(),
 	}
 }
 
@@ -95,48 +112,78 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 		return ErrConfigDistributorClosed
 	}
 
+	// Channel could be subscribed already
+	p.Unsubscribe(ch)
+
+	subscription := &configSubscription{checks: checks, canceled: NewEvent()}
+
+	// Updates must wait until we send the current config
+	subscription.mu.Lock()
+	defer subscription.mu.Unlock()
+
 	p.mu.Lock()
-	defer p.mu.Unlock()
 
-	// Send current config immediately even before we registered a new subscription
-	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+	// Check again: Close might have canceled all the subscriptions already
+	if p.closed.HasFired() {
+		p.mu.Unlock()
+		return ErrConfigDistributorClosed
 	}
 
 	// Register subscription
 	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+		p.subscriptions = make(map[chan<- *Config]*configSubscription)
 	}
 
-	p.subscriptions[ch] = checks
+	p.subscriptions[ch] = subscription
 
 	// Start monitoring goroutine
 	if p.started.Fire() {
 		go p.monitorConfig()
 	}
 
+	lastConfigSnapshot := p.lastConfig
+
+	p.mu.Unlock()
+
+	// Send current config immediately
+	if lastConfigSnapshot != nil && p.shouldSendUpdatedConfig(checks, nil, lastConfigSnapshot) {
+		subscription.sendLocked(ch, lastConfigSnapshot)
+	}
+
 	return nil
 }
 
 // Unsubscribe cancels subscription for the given channel.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
+	p.mu.RLock()
+	subscription, ok := p.subscriptions[ch]
+	p.mu.RUnlock()
+
+	if !ok {
+		return
+	}
+
+	// NB: sending could take a while, so the mutex must not be held here
+	subscription.cancel()
+
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	p.unsubscribeLocked(ch)
+	if p.subscriptions[ch] == subscription {
+		p.unsubscribeLocked(ch)
+	}
 }
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
 func (p *ConfigDistributor) Close() {
-	if !p.closed.Fire() {
-		return
-	}
+	p.closed.Fire()
 
-	p.mu.Lock()
-	defer p.mu.Unlock()
+	p.mu.RLock()
+	subscriptions := p.copySubscriptionsLocked()
+	p.mu.RUnlock()
 
-	for ch := range p.subscriptions {
-		p.unsubscribeLocked(ch)
+	for ch := range subscriptions {
+		p.Unsubscribe(ch)
 	}
 }
 
@@ -145,28 +192,35 @@ func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
 	delete(p.subscriptions, ch)
 }
 
-// waitForNextConfig waits for the next received Config update from the source and then returns it.
-func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
-	defer close(nextConfigChan)
-
-	// Subscribe to ourselves for the duration of this method
-	err := p.Subscribe(nextConfigChan)
+// copySubscriptionsLocked returns a copy of the current subscriptions without locking the mutex.
+func (p *ConfigDistributor) copySubscriptionsLocked() map[chan<- *Config]*configSubscription {
+	subscriptions := make(map[chan<- *Config]*configSubscription, len(p.subscriptions))
 
-	if err != nil {
-		return nil, err
+	for ch, subscription := range p.subscriptions {
+		subscriptions[ch] = subscription
 	}
 
-	defer p.Unsubscribe(nextConfigChan)
+	return subscriptions
+}
+
+// waitForNextConfig waits for the next received Config update from the source and then returns it.
+func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
+	// Start monitoring goroutine
+	if p.started.Fire() {
+		go p.monitorConfig()
+	}
 
 	// Wait for the config or Cancel signal
 	select {
-	case config := <-nextConfigChan:
-		return config, nil
-
+	case <-p.configured.Done():
 	case <-p.closed.Done():
 		return nil, ErrConfigDistributorClosed
 	}
+
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+
+	return p.lastConfig, nil
 }
 
 // monitorConfig waits for Config updates from the source and notifies subscribers.
@@ -188,14 +242,16 @@ func (p *ConfigDistributor) monitorConfig() {
 
 			// Update lastConfig and notify subscribers
 			p.mu.Lock()
-			{
-				oldConfig := p.lastConfig
-				p.lastConfig = newConfig
-
-				p.notifySubscribersLocked(oldConfig, newConfig)
-			}
+			oldConfig := p.lastConfig
+			p.lastConfig = newConfig
+			subscriptions := p.copySubscriptionsLocked()
 			p.mu.Unlock()
 
+			p.configured.Fire()
+
+			// NB: subscribers could be slow, so the mutex must not be held here
+			p.notifySubscribers(subscriptions, oldConfig, newConfig)
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
@@ -203,15 +259,39 @@ func (p *ConfigDistributor) monitorConfig() {
 	}
 }
 
-// notifySubscribersLocked notifies subscribers about config changes.
-func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+// notifySubscribers notifies given subscribers about config changes.
+func (p *ConfigDistributor) notifySubscribers(subscriptions map[chan<- *Config]*configSubscription,
+	oldConfig, newConfig *Config) {
+	for ch, subscription := range subscriptions {
+		if p.shouldSendUpdatedConfig(subscription.checks, oldConfig, newConfig) {
+			subscription.mu.Lock()
+			subscription.sendLocked(ch, newConfig)
+			subscription.mu.Unlock()
 		}
 	}
 }
 
+// cancel makes sure that nothing is sent to the subscriber after it returns.
+func (s *configSubscription) cancel() {
+	s.canceled.Fire()
+
+	// Wait for the sender
+	s.mu.Lock()
+	defer s.mu.Unlock()
+}
+
+// sendLocked sends config to the subscriber unless the subscription is canceled.
+func (s *configSubscription) sendLocked(ch chan<- *Config, config *Config) {
+	if s.canceled.HasFired() {
+		return
+	}
+
+	select {
+	case ch <- config:
+	case <-s.canceled.Done():
+	}
+}
+
 // shouldSendUpdatedConfig runs the subscription checks to determine whether or not
 // subscribed channels should receive update.
 func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckFn, oldConfig, newConfig *Config) bool {
-- 
2.43.0


From 68e201150ff87b25eca35eecdabf1f0053a7abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 15/25] fix: unsubscribe from configuration updates when Start
 returns

Start closed its channel without unsubscribing, so the next update after
the server was closed panicked with a send on a closed channel.
---
 pkg/server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 79cc43d..46c55d8 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,6 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
@@ -94,6 +93,8 @@ func (srv *Server) Start() error {
 		return err
 	}
 
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
-- 
2.43.0


From 9e981ed110b9cfd6073950dcbcb3f8de9332869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 16/25] fix: report errors in the middle of the table list

OIDTableMapping ignored rows.Err(), so a connection lost or an error raised
while reading the result gave a partial (or empty) mapping and no error.
---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..2fb62a0 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Next returns false on errors too
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 65449a5a66f2b40fff3170b89469400458275130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 17/25] fix: refuse configuration files without a listen
 address

The address is mandatory, but a file without it was accepted: an editor
that truncates the file before writing it made the running server switch
to an empty configuration (random port, no database).
---
 pkg/cli/read_server_config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..97c50ab 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -25,5 +26,10 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// Config file could be empty for a moment while it is being saved
+	if config.Listen == "" {
+		return nil, errors.New("listen address is not specified")
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 21dc75a4f6ae6426eb3cc069d1cbf550a2fe940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 18/25] fix: keep leading slashes of the database name

Only the slash that separates the name from the host is not a part of it:
postgres://host/%2Fdb names the database "/db".
---
 pkg/pg/dsn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..e6b883a 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -46,7 +46,7 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	}
 
 	// Database name
-	if database := strings.TrimLeft(url.Path, "/"); database != "" {
+	if database := strings.TrimPrefix(url.Path, "/"); database != "" {
 		settings["database"] = database
 	} else {
 		// Default is the same as database user
-- 
2.43.0


From cbb9ac92560f5dbd862c41a26cafa8ea53de5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 19/25] fix: default the database to the user the connection
 really uses

The default ignored a user given as a query parameter, and a URL with a
password but no user name resolved to an empty user and database.
---
 pkg/pg/dsn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index e6b883a..f4ee9a8 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -28,7 +28,9 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
 		if password, present := url.User.Password(); present {
 			settings["password"] = password
@@ -50,13 +52,17 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		settings["database"] = database
 	} else {
 		// Default is the same as database user
-		settings["database"] = settings["user"]
+		delete(settings, "database")
 	}
 
 	for k, v := range url.Query() {
 		settings[k] = v[0]
 	}
 
+	if _, present := settings["database"]; !present {
+		settings["database"] = settings["user"]
+	}
+
 	return settings, nil
 }
 
-- 
2.43.0


From c6c356f67743d0959e25d867e18391c1206cb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 20/25] fix: refuse database URLs with malformed query
 parameters

They were silently dropped and their defaults used instead.
---
 pkg/pg/dsn.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index f4ee9a8..2262815 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -2,7 +2,7 @@ package pg
 
 import (
 	"fmt"
-	"net/url"
+	neturl "net/url"
 	"os/user"
 	"strings"
 )
@@ -13,7 +13,7 @@ type ConnectionParams map[string]string
 // ParseDatabaseURL parses given PostgreSQL connection string in URI format and returns connection params as a map.
 // See the documentation: https://www.postgresql.org/docs/current/libpq-connect.html#LIBPQ-CONNSTRING
 func ParseDatabaseURI(connString string) (ConnectionParams, error) {
-	url, err := url.Parse(connString)
+	url, err := neturl.Parse(connString)
 
 	if err != nil {
 		return nil, err
@@ -24,6 +24,13 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		return nil, fmt.Errorf("invalid PostgreSQL database URI %s", url)
 	}
 
+	// NB: Query() ignores malformed parameters
+	query, err := neturl.ParseQuery(url.RawQuery)
+
+	if err != nil {
+		return nil, err
+	}
+
 	settings := defaultConnectionSettings()
 
 	// Username and password
@@ -55,7 +62,7 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		delete(settings, "database")
 	}
 
-	for k, v := range url.Query() {
+	for k, v := range query {
 		settings[k] = v[0]
 	}
 
-- 
2.43.0


From 8d191a23c7120b9d2249ef5ee5232a029e864a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 21/25] fix: keep watching the configuration file when it is
 replaced

Only the original file was watched, so after another file was renamed over
it (as many editors and deployment tools save files) no later change of the
configuration was noticed.
---
 pkg/cli/file_watcher.go        | 17 +++++++++++++++++
 pkg/cli/watch_server_config.go |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..9712743 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"path/filepath"
 	"sync"
 
 	"github.com/fsnotify/fsnotify"
@@ -75,6 +76,17 @@ func (w *fileWatcher) Watch() error {
 						return
 					}
 
+					// Skip other files in the directory
+					if filepath.Clean(event.Name) != filepath.Clean(w.Path) {
+						continue
+					}
+
+					// It is another file now so the old watch is useless
+					if event.Op&fsnotify.Create != 0 {
+						_ = watcher.Remove(w.Path)
+						_ = watcher.Add(w.Path)
+					}
+
 					// Run the callback
 					switch {
 					case event.Op&fsnotify.Create != 0:
@@ -112,6 +124,11 @@ func (w *fileWatcher) Watch() error {
 		// Start the watcher
 		watcherError = watcher.Add(w.Path)
 
+		// Watch the directory too because the file could be replaced with another one
+		if watcherError == nil {
+			watcherError = watcher.Add(filepath.Dir(w.Path))
+		}
+
 		// Exit from Watch
 		initWG.Done()
 
diff --git a/pkg/cli/watch_server_config.go b/pkg/cli/watch_server_config.go
index 38816a4..f20790f 100644
--- a/pkg/cli/watch_server_config.go
+++ b/pkg/cli/watch_server_config.go
@@ -20,5 +20,8 @@ func watchServerConfig(configPath string, configChan chan *server.Config) error
 		configChan <- updatedConfig
 	}
 
+	// Config file has been replaced with a new one
+	watcher.OnCreate = watcher.OnWrite
+
 	return watcher.Watch()
 }
-- 
2.43.0


From c135ff4ccb512f55de9d8ed98feac037786ab2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 22/25] fix: keep watching the configuration file after a
 watcher error

Any error, such as an overflow of the event queue, ended the watching for
good, and a failed initialization left its goroutines waiting forever.
---
 pkg/cli/file_watcher.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 9712743..a0189d4 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -107,12 +107,17 @@ func (w *fileWatcher) Watch() error {
 
 				// fsnotify watcher error
 				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
+					// 'Errors' channel is closed
+					if !ok {
+						return
 					}
 
-					return
+					log.Errorf("file watcher error: %v", err)
+
+					// We could have missed an event
+					if w.OnWrite != nil {
+						w.OnWrite()
+					}
 
 				// StopWatch has been called
 				case <-w.watchDone:
@@ -129,17 +134,16 @@ func (w *fileWatcher) Watch() error {
 			watcherError = watcher.Add(filepath.Dir(w.Path))
 		}
 
+		// Nothing to watch — closed watcher will stop the event loop
+		if watcherError != nil {
+			watcher.Close()
+		}
+
 		// Exit from Watch
 		initWG.Done()
 
 		// Event loop
 		eventsWG.Wait()
-
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
 	}()
 
 	// Wait for watcher to initialize
-- 
2.43.0


From 34565e91ef675d377eaf32534b5c1475be3f3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:22 +0000
Subject: [PATCH 23/25] fix: inspect schemas whose name merely begins with pg

---
 pkg/pgmeta/inspector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 2fb62a0..b2f181e 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -60,7 +60,7 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
         FROM pg_class c
         JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace
        WHERE n.nspname NOT IN ('information_schema')
-         AND n.nspname NOT LIKE 'pg_%'
+         AND n.nspname NOT LIKE 'pg\_%'
 		 AND c.relkind IN ('r', 'm', 'v');`,
 	)
 
-- 
2.43.0


From 3b09df323bd8086fd13f46c3ec6c691a9fad2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:36 +0000
Subject: [PATCH 24/25] fix: subscribing a channel twice at the same time left
 a subscription that nothing could cancel

---
 pkg/server/config_distributor.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 032b1cd..3a99e2e 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -112,16 +112,24 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 		return ErrConfigDistributorClosed
 	}
 
-	// Channel could be subscribed already
-	p.Unsubscribe(ch)
-
 	subscription := &configSubscription{checks: checks, canceled: NewEvent()}
 
 	// Updates must wait until we send the current config
 	subscription.mu.Lock()
 	defer subscription.mu.Unlock()
 
-	p.mu.Lock()
+	// Channel could be subscribed already, or be subscribed again while we wait for the previous subscription
+	for {
+		p.Unsubscribe(ch)
+
+		p.mu.Lock()
+
+		if _, ok := p.subscriptions[ch]; !ok {
+			break
+		}
+
+		p.mu.Unlock()
+	}
 
 	// Check again: Close might have canceled all the subscriptions already
 	if p.closed.HasFired() {
-- 
2.43.0


From e379adb7d34ac3e5f6deee85deff6fc8db90d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 25/25] fix: a configuration file behind a symbolic link was no
 longer watched after the file had been replaced

---
 pkg/cli/file_watcher.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index a0189d4..7440f22 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -81,15 +81,13 @@ func (w *fileWatcher) Watch() error {
 						continue
 					}
 
-					// It is another file now so the old watch is useless
-					if event.Op&fsnotify.Create != 0 {
-						_ = watcher.Remove(w.Path)
-						_ = watcher.Add(w.Path)
-					}
+					// It could be another file now so the old watch is useless
+					replaced := event.Op&(fsnotify.Create|fsnotify.Remove|fsnotify.Chmod) != 0 && w.watchAgain(watcher)
 
 					// Run the callback
 					switch {
-					case event.Op&fsnotify.Create != 0:
+					// NB: when the path is a symbolic link, all we notice is that the old file is gone
+					case event.Op&fsnotify.Create != 0 || replaced:
 						if w.OnCreate != nil {
 							w.OnCreate()
 						}
@@ -115,6 +113,8 @@ func (w *fileWatcher) Watch() error {
 					log.Errorf("file watcher error: %v", err)
 
 					// We could have missed an event
+					w.watchAgain(watcher)
+
 					if w.OnWrite != nil {
 						w.OnWrite()
 					}
@@ -153,6 +153,13 @@ func (w *fileWatcher) Watch() error {
 	return watcherError
 }
 
+// watchAgain watches the file that the path refers to at the moment, if there is one.
+func (w *fileWatcher) watchAgain(watcher *fsnotify.Watcher) bool {
+	_ = watcher.Remove(w.Path)
+
+	return watcher.Add(w.Path) == nil
+}
+
 // StopWatch stops the file watcher.
 func (w *fileWatcher) StopWatch() {
 	close(w.watchDone)
-- 
2.43.0

