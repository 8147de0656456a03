From cb6e7c9e6edbe10d36b0a98de8f73cd48886452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:59 +0000
Subject: [PATCH 01/30] fix: don't let a panic while serving an upstream end
 the process

The goroutine that reads from an upstream server, parses its messages and
handles them until registration completes did not recover from panics: a line
such as "@a " makes the IRC parser panic, so any upstream server could crash
the whole bouncer.
---
 user.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 44a16f8..4771b94 100644
--- a/user.go
+++ b/user.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"math/big"
 	"net"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync/atomic"
@@ -218,7 +219,15 @@ func userIdent(u *database.User) string {
 	return hex.EncodeToString(h[:16])
 }
 
-func (net *network) runConn(ctx context.Context) error {
+func (net *network) runConn(ctx context.Context) (err error) {
+	defer func() {
+		if v := recover(); v != nil {
+			net.logger.Printf("panic serving upstream %q: %v\n%v", net.Addr, v, string(debug.Stack()))
+			net.user.srv.metrics.workerPanicsTotal.Inc()
+			err = fmt.Errorf("internal error: %v", v)
+		}
+	}()
+
 	net.user.srv.metrics.upstreams.Add(1)
 	defer net.user.srv.metrics.upstreams.Add(-1)
 
-- 
2.43.0


From d8969bdcc3c643376b7cb3885c98b32bed97da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:04 +0000
Subject: [PATCH 02/30] fix: always tell the user when a client connection ends

When reading from a client panicked (for instance on the line "@a "), the
disconnected event was never sent and the dead session stayed attached to its
user forever.
---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 1df3dc6..80dddf6 100644
--- a/server.go
+++ b/server.go
@@ -505,10 +505,13 @@ func (s *Server) Handle(ic ircConn) {
 	}
 
 	user.events <- eventDownstreamConnected{dc}
+	defer func() {
+		user.events <- eventDownstreamDisconnected{dc}
+	}()
+
 	if err := dc.readMessages(user.events); err != nil {
 		dc.logger.Printf("%v", err)
 	}
-	user.events <- eventDownstreamDisconnected{dc}
 }
 
 func (s *Server) getOrCreateUser(ctx context.Context, username string) (*user, error) {
-- 
2.43.0


From 271592d12868aa3957beff19f956273a74f7bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:09 +0000
Subject: [PATCH 03/30] fix: don't panic when attaching a channel that is still
 being joined

forwardChannel panics on a channel whose NAMES list is not complete, which
killed the user's goroutine.
---
 user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/user.go b/user.go
index 4771b94..a757143 100644
--- a/user.go
+++ b/user.go
@@ -385,7 +385,7 @@ func (net *network) attach(ctx context.Context, ch *database.Channel) {
 			Params:  []string{ch.Name},
 		})
 
-		if uch != nil {
+		if uch != nil && uch.complete {
 			forwardChannel(ctx, dc, uch)
 		}
 
-- 
2.43.0


From 68dc3a0f645f5e11826ea3d82b87796b137f847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 04/30] fix: close client connections which fail to attach to
 their user

A session refused because the account is disabled was left open without a user:
the next message it sent dereferenced a nil pointer and killed the user's
goroutine.
---
 user.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index a757143..079ce61 100644
--- a/user.go
+++ b/user.go
@@ -749,7 +749,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -765,7 +765,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -812,7 +812,7 @@ func (u *user) run() {
 			}
 		case eventDownstreamMessage:
 			msg, dc := e.msg, e.dc
-			if dc.isClosed() {
+			if dc.isClosed() || dc.user == nil {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
-- 
2.43.0


From c394faf513d2100a3a465d72a75e38289197e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:19 +0000
Subject: [PATCH 05/30] fix: don't panic when a client restarts SASL before the
 upstream replied

The new exchange has no credentials yet when the reply to the previous one
arrives.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f1e02ed..82c6982 100644
--- a/upstream.go
+++ b/upstream.go
@@ -892,7 +892,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslStarted = false
 
 		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
-			if msg.Command == irc.RPL_SASLSUCCESS {
+			if msg.Command == irc.RPL_SASLSUCCESS && dc.sasl.plain != nil {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
 
-- 
2.43.0


From f9afb5d1db31ee3fc915ba2678e5893bc47f4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:24 +0000
Subject: [PATCH 06/30] fix: don't wipe saved SASL credentials on NickServ SET
 commands

"SET HIDE EMAIL ON" was taken as credentials with an empty username and
password, which then replaced the saved ones.
---
 downstream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..8b8242f 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3413,10 +3413,11 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 			password = params[1]
 		}
 	case "SET":
-		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
-			username = nick
-			password = params[1]
+		if len(params) != 2 || !strings.EqualFold(params[0], "PASSWORD") {
+			return "", "", false
 		}
+		username = nick
+		password = params[1]
 	default:
 		return "", "", false
 	}
-- 
2.43.0


From febe2e7d934d111a33ae64f8619d38ca6dde61f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:28 +0000
Subject: [PATCH 07/30] fix: don't wait forever for another user to process an
 update

Two administrators updating each other at the same time deadlocked both user
goroutines, and so did updating a user that was stopping.
---
 service.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index 0b8b0cd..46dbb32 100644
--- a/service.go
+++ b/service.go
@@ -1126,8 +1126,13 @@ func handleUserUpdate(ctx *serviceContext, params []string) error {
 		case u.events <- event:
 		}
 		// TODO: send context to the other side
-		if err := <-done; err != nil {
-			return err
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case err := <-done:
+			if err != nil {
+				return err
+			}
 		}
 
 		ctx.print(fmt.Sprintf("updated user %q", username))
-- 
2.43.0


From aa64bf6408dd97b9811243b77d4e67ffb00f5049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:33 +0000
Subject: [PATCH 08/30] fix: let users delete their own account

The command runs in the goroutine of the user, which waited for itself to stop:
the user was stuck forever and the account was not deleted.
---
 service.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/service.go b/service.go
index 46dbb32..8c2d23f 100644
--- a/service.go
+++ b/service.go
@@ -1206,26 +1206,34 @@ func handleUserDelete(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("provided confirmation token doesn't match user")
 	}
 
-	var deleteCtx context.Context = ctx
 	if self {
 		ctx.print(fmt.Sprintf("Goodbye %s, deleting your account. There will be no further confirmation.", username))
-		// We can't use ctx here, because it'll be cancelled once we close the
-		// downstream connection
-		deleteCtx = context.TODO()
+		// We're running in the goroutine of the user, which can't wait for
+		// itself to stop. We can't use ctx here, because it'll be cancelled
+		// once we close the downstream connection.
+		go func() {
+			if err := deleteUser(context.TODO(), u); err != nil {
+				u.logger.Printf("%v", err)
+			}
+		}()
+		return nil
 	}
 
-	if err := u.stop(deleteCtx); err != nil {
-		return fmt.Errorf("failed to stop user: %v", err)
+	if err := deleteUser(ctx, u); err != nil {
+		return err
 	}
 
-	if err := ctx.srv.db.DeleteUser(deleteCtx, u.ID); err != nil {
-		return fmt.Errorf("failed to delete user: %v", err)
-	}
+	ctx.print(fmt.Sprintf("deleted user %q", username))
+	return nil
+}
 
-	if !self {
-		ctx.print(fmt.Sprintf("deleted user %q", username))
+func deleteUser(ctx context.Context, u *user) error {
+	if err := u.stop(ctx); err != nil {
+		return fmt.Errorf("failed to stop user: %v", err)
+	}
+	if err := u.srv.db.DeleteUser(ctx, u.ID); err != nil {
+		return fmt.Errorf("failed to delete user: %v", err)
 	}
-
 	return nil
 }
 
-- 
2.43.0


From c1fe09f053ca03d6954dd2efb27a117275c182a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:38 +0000
Subject: [PATCH 09/30] fix: don't send events to users while holding the
 server lock

The event queue of a user can be full while its goroutine waits for the server
lock, for instance to run a service command: both ended up waiting for each
other, on broadcasts and on shutdown.
---
 server.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 80dddf6..ae57c85 100644
--- a/server.go
+++ b/server.go
@@ -388,11 +388,15 @@ func (s *Server) Shutdown() {
 			s.Logger.Printf("failed to stop listener: %v", err)
 		}
 	}
-	for _, u := range s.users {
-		u.events <- eventStop{}
-	}
 	s.lock.Unlock()
 
+	s.forEachUser(func(u *user) {
+		select {
+		case u.events <- eventStop{}:
+		case <-u.done: // already stopped
+		}
+	})
+
 	s.Logger.Printf("waiting for users to finish")
 	s.stopWG.Wait()
 
@@ -419,10 +423,15 @@ func (s *Server) createUser(ctx context.Context, user *database.User) (*user, er
 
 func (s *Server) forEachUser(f func(*user)) {
 	s.lock.Lock()
+	users := make([]*user, 0, len(s.users))
 	for _, u := range s.users {
-		f(u)
+		users = append(users, u)
 	}
 	s.lock.Unlock()
+
+	for _, u := range users {
+		f(u)
+	}
 }
 
 func (s *Server) getUser(name string) *user {
-- 
2.43.0


From 87549ba53f17951edee1a44d1a83cd88f023a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:07 +0000
Subject: [PATCH 10/30] fix: treat messages without a source as coming from the
 server

The IRC parser always sets a (possibly empty) prefix, so the fallback was
never used, and an ACCOUNT, NICK, SETNAME or JOIN without a source ended the
user's event loop.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 82c6982..3056b69 100644
--- a/upstream.go
+++ b/upstream.go
@@ -612,7 +612,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 	}
 
-	if msg.Prefix == nil {
+	if msg.Prefix == nil || msg.Prefix.Name == "" {
 		msg.Prefix = uc.serverPrefix
 	}
 
-- 
2.43.0


From 217e8c2f8679ed843d74855d946ceb67620ed2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:45 +0000
Subject: [PATCH 11/30] fix: refuse empty nicknames from upstream servers

An upstream announcing an empty nickname for us made the next channel message
end the user's event loop.
---
 upstream.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 3056b69..88679b0 100644
--- a/upstream.go
+++ b/upstream.go
@@ -921,10 +921,15 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			dc.SendMessage(ctx, msg)
 		}
 	case irc.RPL_WELCOME:
-		if err := parseMessageParams(msg, &uc.nick); err != nil {
+		var nick string
+		if err := parseMessageParams(msg, &nick); err != nil {
 			return err
 		}
+		if nick == "" {
+			return fmt.Errorf("received an empty nickname")
+		}
 
+		uc.nick = nick
 		uc.registered = true
 		uc.serverPrefix = msg.Prefix
 		uc.logger.Printf("connection registered with nick %q", uc.nick)
@@ -1085,6 +1090,9 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		if err := parseMessageParams(msg, &newNick); err != nil {
 			return err
 		}
+		if newNick == "" {
+			return fmt.Errorf("received an empty nickname")
+		}
 
 		me := false
 		if uc.isOurNick(msg.Prefix.Name) {
-- 
2.43.0


From 7b9c5a141c16a30a304361fad3fb9fba4f4543b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 12/30] fix: don't wait for our own event queue when
 broadcasting

A user's goroutine handling a bouncer-wide message sent an event to every
user including itself. With a full queue it waited for itself forever.
---
 downstream.go | 11 ++++++++++-
 user.go       | 12 ++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/downstream.go b/downstream.go
index 8b8242f..0ac9b6a 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2425,7 +2425,16 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 					Params:  params,
 				}
 				dc.srv.forEachUser(func(u *user) {
-					u.events <- eventBroadcast{broadcastMsg}
+					if u == dc.user {
+						// We're running in the goroutine of this user, which
+						// can't wait for its own event queue
+						dc.user.broadcast(ctx, broadcastMsg)
+						return
+					}
+					select {
+					case <-ctx.Done():
+					case u.events <- eventBroadcast{broadcastMsg}:
+					}
 				})
 				continue
 			}
diff --git a/user.go b/user.go
index 079ce61..cdc2b39 100644
--- a/user.go
+++ b/user.go
@@ -825,10 +825,7 @@ func (u *user) run() {
 				dc.Close()
 			}
 		case eventBroadcast:
-			msg := e.msg
-			for _, dc := range u.downstreamConns {
-				dc.SendMessage(context.TODO(), msg)
-			}
+			u.broadcast(context.TODO(), e.msg)
 		case eventUserUpdate:
 			e.done <- u.updateUser(context.TODO(), func(record *database.User) error {
 				if e.password != nil {
@@ -1275,6 +1272,13 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	return nil
 }
 
+// broadcast sends a message to all of the user's downstream connections.
+func (u *user) broadcast(ctx context.Context, msg *irc.Message) {
+	for _, dc := range u.downstreamConns {
+		dc.SendMessage(ctx, msg)
+	}
+}
+
 func (u *user) stop(ctx context.Context) error {
 	select {
 	case <-u.done:
-- 
2.43.0


From 4bdaa7af5cdf1399b705595d6d0763df590b6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 13/30] fix: stop waiting for the output of an abandoned user
 run command

The goroutine of the target user used a context which is never cancelled,
and was stuck forever when the requester went away before reading all of
the output.
---
 service.go | 1 +
 user.go    | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/service.go b/service.go
index 8c2d23f..4c7d545 100644
--- a/service.go
+++ b/service.go
@@ -1260,6 +1260,7 @@ func handleUserRun(ctx *serviceContext, params []string) error {
 
 	msgCh := make(chan userRunMsg, 1)
 	ev := eventUserRun{
+		ctx:    ctx,
 		params: params,
 		ch:     msgCh,
 	}
diff --git a/user.go b/user.go
index cdc2b39..be8ff45 100644
--- a/user.go
+++ b/user.go
@@ -89,6 +89,7 @@ type eventTryRegainNick struct {
 }
 
 type eventUserRun struct {
+	ctx    context.Context
 	params []string
 	ch     chan userRunMsg
 }
@@ -853,7 +854,7 @@ func (u *user) run() {
 		case eventTryRegainNick:
 			e.uc.tryRegainNick(e.nick)
 		case eventUserRun:
-			ctx := context.TODO()
+			ctx := e.ctx
 			err := handleServiceCommand(&serviceContext{
 				Context: ctx,
 				user:    u,
@@ -867,9 +868,8 @@ func (u *user) run() {
 				// so this cannot be used to escalate privileges.
 				admin: true,
 				print: func(text string) {
-					// Avoid blocking on e.print in case our context is canceled.
-					// This is a no-op right now because we use context.TODO(),
-					// but might be useful later when we add timeouts.
+					// Avoid blocking on e.ch in case the context is canceled:
+					// the sender of the event stops reading it then.
 					select {
 					case <-ctx.Done():
 					case e.ch <- userRunMsg{message: text}:
-- 
2.43.0


From a65fd83b58d3996e27fadfb3f25d54d4c6254577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:55 +0000
Subject: [PATCH 14/30] fix: keep delivery receipts when a network is updated

The updated network started without any, so clients which were offline
missed the messages they hadn't received yet.
---
 user.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/user.go b/user.go
index be8ff45..3f25804 100644
--- a/user.go
+++ b/user.go
@@ -1132,6 +1132,16 @@ func (u *user) updateNetwork(ctx context.Context, record *database.Network, enfo
 
 	updatedNetwork := newNetwork(u, record, channels)
 
+	// Remember which messages have been delivered to clients, otherwise the
+	// ones which are offline would miss their backlog
+	network.delivered.ForEachTarget(func(target string) {
+		network.delivered.ForEachClient(func(clientName string) {
+			if msgID := network.delivered.LoadID(target, clientName); msgID != "" {
+				updatedNetwork.delivered.StoreID(target, clientName, msgID)
+			}
+		})
+	})
+
 	// If we're currently connected, disconnect and perform the necessary
 	// bookkeeping
 	network.stop()
-- 
2.43.0


From 55470deeb4c4c5450639a411976803afdc6d45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 15/30] fix: leave networks and channels unchanged when an
 update isn't stored

SASL, CertFP and channel commands changed the network or channel in use
before storing it (or before all flags were checked), so a command which
failed took effect until the next restart.
---
 service.go | 52 +++++++++++++++++++++++++++++++---------------------
 user.go    | 11 +++++++----
 2 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/service.go b/service.go
index 4c7d545..6dfa1a4 100644
--- a/service.go
+++ b/service.go
@@ -807,13 +807,15 @@ func handleServiceCertFPGenerate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.External.CertBlob = cert
-	net.SASL.External.PrivKeyBlob = privKey
-	net.SASL.Mechanism = "EXTERNAL"
+	record := net.Network // copy
+	record.SASL.External.CertBlob = cert
+	record.SASL.External.PrivKeyBlob = privKey
+	record.SASL.Mechanism = "EXTERNAL"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("certificate generated")
 	sendCertfpFingerprints(ctx, cert)
@@ -899,13 +901,15 @@ func handleServiceSASLSetPlain(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = fs.Arg(0)
-	net.SASL.Plain.Password = fs.Arg(1)
-	net.SASL.Mechanism = "PLAIN"
+	record := net.Network // copy
+	record.SASL.Plain.Username = fs.Arg(0)
+	record.SASL.Plain.Password = fs.Arg(1)
+	record.SASL.Mechanism = "PLAIN"
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials saved")
 	return nil
@@ -927,15 +931,17 @@ func handleServiceSASLReset(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	net.SASL.Plain.Username = ""
-	net.SASL.Plain.Password = ""
-	net.SASL.External.CertBlob = nil
-	net.SASL.External.PrivKeyBlob = nil
-	net.SASL.Mechanism = ""
+	record := net.Network // copy
+	record.SASL.Plain.Username = ""
+	record.SASL.Plain.Password = ""
+	record.SASL.External.CertBlob = nil
+	record.SASL.External.PrivKeyBlob = nil
+	record.SASL.Mechanism = ""
 
-	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &net.Network); err != nil {
+	if err := ctx.srv.db.StoreNetwork(ctx, ctx.user.ID, &record); err != nil {
 		return err
 	}
+	net.SASL = record.SASL
 
 	ctx.print("credentials reset")
 	return nil
@@ -1488,12 +1494,12 @@ func handleServiceChannelCreate(ctx *serviceContext, params []string) error {
 		return err
 	}
 
-	network.channels.Set(ch.Name, &ch)
-
 	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &ch); err != nil {
 		return fmt.Errorf("failed to create channel: %v", err)
 	}
 
+	network.channels.Set(ch.Name, &ch)
+
 	if network.conn != nil {
 		network.conn.SendMessage(ctx, &irc.Message{
 			Command: "JOIN",
@@ -1529,9 +1535,14 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		return fmt.Errorf("unknown channel %q", name)
 	}
 
-	if err := fs.update(ch); err != nil {
+	record := *ch // copy
+	if err := fs.update(&record); err != nil {
 		return err
 	}
+	if err := ctx.srv.db.StoreChannel(ctx, network.ID, &record); err != nil {
+		return fmt.Errorf("failed to update channel: %v", err)
+	}
+	*ch = record
 
 	if fs.Detached != nil && *fs.Detached != ch.Detached {
 		if *fs.Detached {
@@ -1539,16 +1550,15 @@ func handleServiceChannelUpdate(ctx *serviceContext, params []string) error {
 		} else {
 			network.attach(ctx, ch)
 		}
+		if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
+			return fmt.Errorf("failed to update channel: %v", err)
+		}
 	}
 
 	if network.conn != nil {
 		network.conn.updateChannelAutoDetach(name)
 	}
 
-	if err := ctx.srv.db.StoreChannel(ctx, network.ID, ch); err != nil {
-		return fmt.Errorf("failed to update channel: %v", err)
-	}
-
 	ctx.print(fmt.Sprintf("updated channel %q", name))
 	return nil
 }
diff --git a/user.go b/user.go
index 3f25804..f7a8962 100644
--- a/user.go
+++ b/user.go
@@ -484,12 +484,15 @@ func (net *network) autoSaveSASLPlain(ctx context.Context, username, password st
 	}
 
 	net.logger.Printf("auto-saving SASL PLAIN credentials with username %q", username)
-	net.SASL.Mechanism = "PLAIN"
-	net.SASL.Plain.Username = username
-	net.SASL.Plain.Password = password
-	if err := net.user.srv.db.StoreNetwork(ctx, net.user.ID, &net.Network); err != nil {
+	record := net.Network // copy
+	record.SASL.Mechanism = "PLAIN"
+	record.SASL.Plain.Username = username
+	record.SASL.Plain.Password = password
+	if err := net.user.srv.db.StoreNetwork(ctx, net.user.ID, &record); err != nil {
 		net.logger.Printf("failed to save SASL PLAIN credentials: %v", err)
+		return
 	}
+	net.SASL = record.SASL
 }
 
 // broadcastWebPush broadcasts a Web Push message for the given IRC message.
-- 
2.43.0


From 597fe5137e1a9ad836606742aac000a2d6420c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:57 +0000
Subject: [PATCH 16/30] fix: remember the realname set with SETNAME

When the upstream server supports SETNAME, the realname was stored but
not updated in memory: the next connection used the old one, and the next
update of the network stored it again.
---
 downstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downstream.go b/downstream.go
index 0ac9b6a..e4753d5 100644
--- a/downstream.go
+++ b/downstream.go
@@ -1885,6 +1885,9 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 				})
 
 				err = dc.srv.db.StoreNetwork(ctx, dc.user.ID, &record)
+				if err == nil {
+					dc.network.Network.Realname = record.Realname
+				}
 			} else {
 				// This will disconnect then re-connect the upstream connection
 				_, err = dc.user.updateNetwork(ctx, &record, false)
-- 
2.43.0


From 4c3f194895da6fa6b72da2782502a33669bfe75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 17/30] fix: don't stall the queue of a command whose reply
 never comes

When giving up on a command which isn't answered, drop it from the queue
and send the next one. Previously the queue kept its length and nothing
was ever sent again for this command.
---
 upstream.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/upstream.go b/upstream.go
index 88679b0..ee8f527 100644
--- a/upstream.go
+++ b/upstream.go
@@ -515,17 +515,17 @@ func (uc *upstreamConn) enqueueCommand(dc *downstreamConn, msg *irc.Message) {
 		panic(fmt.Errorf("Unsupported pending command %q", msg.Command))
 	}
 
+	// If we didn't get a reply after a while, just give up
+	// TODO: consider sending an abort reply to downstream
+	if l := uc.pendingCmds[msg.Command]; len(l) > 0 && time.Since(l[0].sentAt) > 30*time.Second {
+		uc.dequeueCommand(msg.Command)
+	}
+
 	uc.pendingCmds[msg.Command] = append(uc.pendingCmds[msg.Command], pendingUpstreamCommand{
 		downstreamID: dc.id,
 		msg:          msg,
 	})
 
-	// If we didn't get a reply after a while, just give up
-	// TODO: consider sending an abort reply to downstream
-	if t := uc.pendingCmds[msg.Command][0].sentAt; !t.IsZero() && time.Since(t) > 30*time.Second {
-		copy(uc.pendingCmds[msg.Command], uc.pendingCmds[msg.Command][1:])
-	}
-
 	if len(uc.pendingCmds[msg.Command]) == 1 {
 		uc.sendNextPendingCommand(msg.Command)
 	}
-- 
2.43.0


From d41bf83326f668c91600b1a1c48370c715778ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 18/30] fix: reset the SASL exchange of a client when it fails
 upstream

Otherwise the next AUTHENTICATE of the client is taken for the rest of the
failed exchange.
---
 downstream.go | 5 +++--
 upstream.go   | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index e4753d5..142b988 100644
--- a/downstream.go
+++ b/downstream.go
@@ -2566,10 +2566,11 @@ func (dc *downstreamConn) handleMessageRegistered(ctx context.Context, msg *irc.
 		switch credentials.mechanism {
 		case "PLAIN":
 			if credentials.plain.Identity != "" && credentials.plain.Identity != credentials.plain.Username {
-				return ircError{&irc.Message{
+				dc.endSASL(ctx, &irc.Message{
 					Command: irc.ERR_SASLFAIL,
 					Params:  []string{dc.nick, "SASL PLAIN identity not supported"},
-				}}
+				})
+				break
 			}
 
 			uc.logger.Printf("starting post-registration SASL PLAIN authentication with username %q", credentials.plain.Username)
diff --git a/upstream.go b/upstream.go
index ee8f527..c04d819 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1772,13 +1772,17 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			return err
 		}
 
-		if dc, _ := uc.dequeueCommand(command); dc != nil && downstreamID == 0 {
+		dc, _ := uc.dequeueCommand(command)
+		if dc != nil && downstreamID == 0 {
 			downstreamID = dc.id
 		}
 
 		if command == "AUTHENTICATE" {
 			uc.saslClient = nil
 			uc.saslStarted = false
+			if dc != nil {
+				dc.sasl = nil
+			}
 		}
 
 		uc.forwardMsgByID(ctx, downstreamID, msg)
-- 
2.43.0


From ca244139cbba78947493d17eabc45f4fb82cccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:00 +0000
Subject: [PATCH 19/30] fix: only accept a fingerprint of the server's own
 certificate

With a certificate fingerprint configured, any certificate of the list sent
by the server could match it. Only the first one is proven to be the
server's: an impostor could present its own certificate followed by the
(public) pinned one.
---
 upstream.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/upstream.go b/upstream.go
index c04d819..6cee781 100644
--- a/upstream.go
+++ b/upstream.go
@@ -289,26 +289,26 @@ func connectToUpstream(ctx context.Context, network *network) (*upstreamConn, er
 				parts := strings.SplitN(network.CertFP, ":", 2)
 				algo, localCertFP := parts[0], parts[1]
 
-				for _, rawCert := range rawCerts {
-					var remoteCertFP string
-					switch algo {
-					case "sha-512":
-						sum := sha512.Sum512(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					case "sha-256":
-						sum := sha256.Sum256(rawCert)
-						remoteCertFP = hex.EncodeToString(sum[:])
-					}
+				// Only the first certificate is the server's: anybody can append
+				// other certificates to the list
+				var remoteCertFP string
+				switch algo {
+				case "sha-512":
+					sum := sha512.Sum512(rawCerts[0])
+					remoteCertFP = hex.EncodeToString(sum[:])
+				case "sha-256":
+					sum := sha256.Sum256(rawCerts[0])
+					remoteCertFP = hex.EncodeToString(sum[:])
+				}
 
-					if remoteCertFP == localCertFP {
-						return nil // fingerprints match
-					}
+				if remoteCertFP == localCertFP {
+					return nil // fingerprints match
 				}
 
 				// Fingerprints don't match, let's give the user a fingerprint
 				// they can use to connect
 				sum := sha512.Sum512(rawCerts[0])
-				remoteCertFP := hex.EncodeToString(sum[:])
+				remoteCertFP = hex.EncodeToString(sum[:])
 				return fmt.Errorf("the configured TLS certificate fingerprint doesn't match the server's - %s", remoteCertFP)
 			}
 		}
-- 
2.43.0


From 5b9bb5ee3102f764d0900901961a91c36e6ff732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:51 +0000
Subject: [PATCH 20/30] fix: keep uploads of users with odd names inside the
 upload directory

The username was used as a path component as is, so a user called
"../x" would have its files written outside of the upload directory.
Escape it in the same way the message store does.
---
 fileupload/fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index c0c401d..6d77855 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -11,6 +11,8 @@ import (
 	"path/filepath"
 	"strings"
 	"time"
+
+	"codeberg.org/emersion/soju/msgstore"
 )
 
 type fileuploadFS struct {
@@ -55,7 +57,8 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		}
 	}
 
-	dir := filepath.Join(fs.dir, username)
+	userDir := msgstore.EscapeFilename(username)
+	dir := filepath.Join(fs.dir, userDir)
 	if err := os.MkdirAll(dir, 0700); err != nil {
 		return "", fmt.Errorf("failed to create user upload directory: %w", err)
 	}
@@ -96,5 +99,5 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to close file: %w", err)
 	}
 
-	return url.PathEscape(username) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
+	return url.PathEscape(userDir) + "/" + url.PathEscape(filepath.Base(f.Name())), nil
 }
-- 
2.43.0


From a828d3c318c77a70b763373c99c9cd0233f3ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:13 +0000
Subject: [PATCH 21/30] fix: remove the file of an upload which failed

When the body was too large or the client went away, the part received
so far was left in the upload directory forever.
---
 fileupload/fs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileupload/fs.go b/fileupload/fs.go
index 6d77855..04977af 100644
--- a/fileupload/fs.go
+++ b/fileupload/fs.go
@@ -91,6 +91,11 @@ func (fs *fileuploadFS) store(ctx context.Context, r io.Reader, username, mimeTy
 		return "", fmt.Errorf("failed to pick filename")
 	}
 	defer f.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
 
 	if _, err := io.Copy(f, r); err != nil {
 		return "", fmt.Errorf("failed to write file: %w", err)
-- 
2.43.0


From 5d9868e02ddb2a781f3e269fdcad659832623773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:42 +0000
Subject: [PATCH 22/30] fix: recognise multi-line CAP LS replies that carry our
 nickname

The continuation marker was looked up in the whole parameter list with an
index into the parameters of the subcommand: the client's name was compared
instead of the marker. With a server that puts our nickname there, the first
line was taken for the last one, and the registration went on without the
capabilities of the others (SASL authentication was skipped).
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 6cee781..fda7c1e 100644
--- a/upstream.go
+++ b/upstream.go
@@ -715,7 +715,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 				return newNeedMoreParamsError(msg.Command)
 			}
 			caps := subParams[len(subParams)-1]
-			more := len(subParams) >= 2 && msg.Params[len(subParams)-2] == "*"
+			more := len(subParams) >= 2 && subParams[len(subParams)-2] == "*"
 
 			uc.handleSupportedCaps(caps)
 
-- 
2.43.0


From 47cc2dbb5eff67a410de69b4d781794cfcf1c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 23/30] fix: only request echo-message if the server offers it

It was requested whenever the server offers labeled-response. A server
refuses a request as a whole, so soju ended up without any capability.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index fda7c1e..177f55d 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1941,7 +1941,7 @@ func (uc *upstreamConn) updateCaps(ctx context.Context) {
 		}
 	}
 
-	echoMessage := uc.caps.IsAvailable("labeled-response")
+	echoMessage := uc.caps.IsAvailable("labeled-response") && uc.caps.IsAvailable("echo-message")
 	if !uc.caps.IsEnabled("echo-message") && echoMessage {
 		requestCaps = append(requestCaps, "echo-message")
 	} else if uc.caps.IsEnabled("echo-message") && !echoMessage {
-- 
2.43.0


From e607da6c826c2a7eb0ed77adbd2222039601a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:05 +0000
Subject: [PATCH 24/30] fix: disconnect clients of a disabled user even if a
 network fails to update

---
 user.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/user.go b/user.go
index f7a8962..8736b1d 100644
--- a/user.go
+++ b/user.go
@@ -1222,6 +1222,13 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 	}
 	u.User = record
 
+	if !u.Enabled {
+		// TODO: send an error message before disconnecting
+		for _, dc := range u.downstreamConns {
+			dc.Close()
+		}
+	}
+
 	if nickUpdated {
 		for _, net := range u.networks {
 			if net.Nick != "" {
@@ -1275,13 +1282,6 @@ func (u *user) updateUser(ctx context.Context, update UserUpdateFunc) error {
 		}
 	}
 
-	if !u.Enabled {
-		// TODO: send an error message before disconnecting
-		for _, dc := range u.downstreamConns {
-			dc.Close()
-		}
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 8d0eaf63e9f3e92785dd58372d137f97575212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:29 +0000
Subject: [PATCH 25/30] fix: don't skip messages logged at midnight in the
 history after a time

The file store looks for messages after a time in the log file of each day in
turn, and used the start of each following day as an exclusive lower bound:
a message logged at 00:00:00 was missing from the reply, although it is
between the requested bounds.
---
 msgstore/fs.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msgstore/fs.go b/msgstore/fs.go
index 8198fbc..3edd0c5 100644
--- a/msgstore/fs.go
+++ b/msgstore/fs.go
@@ -280,7 +280,7 @@ func (ms *fsMessageStore) parseMessagesBefore(ref time.Time, end time.Time, opti
 	}
 }
 
-func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
+func (ms *fsMessageStore) parseMessagesAfter(ref, start, end time.Time, options *LoadMessageOptions, selector func(m *irc.Message) bool) ([]*irc.Message, error) {
 	path := ms.logPath(options.Network, options.Entity, ref)
 	f, err := os.Open(path)
 	if err != nil {
@@ -297,7 +297,7 @@ func (ms *fsMessageStore) parseMessagesAfter(ref time.Time, end time.Time, optio
 		msg, t, err := ms.parseMessage(sc.Text(), options.Network, options.Entity, ref, options.Events)
 		if err != nil {
 			return nil, err
-		} else if msg == nil || !t.After(ref) {
+		} else if msg == nil || !t.After(start) {
 			continue
 		} else if !t.Before(end) {
 			break
@@ -364,10 +364,10 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 	var messages []*irc.Message
 	remaining := options.Limit
 	tries := 0
-	for remaining > 0 && tries < fsMessageStoreMaxTries && start.Before(end) {
+	for t := start; remaining > 0 && tries < fsMessageStoreMaxTries && t.Before(end); {
 		parseOptions := *options
 		parseOptions.Limit = remaining
-		buf, err := ms.parseMessagesAfter(start, end, &parseOptions, selector)
+		buf, err := ms.parseMessagesAfter(t, start, end, &parseOptions, selector)
 		if err != nil {
 			return nil, err
 		}
@@ -378,8 +378,8 @@ func (ms *fsMessageStore) getAfterTime(ctx context.Context, start time.Time, end
 		}
 		messages = append(messages, buf...)
 		remaining -= len(buf)
-		year, month, day := start.Date()
-		start = time.Date(year, month, day+1, 0, 0, 0, 0, start.Location())
+		year, month, day := t.Date()
+		t = time.Date(year, month, day+1, 0, 0, 0, 0, t.Location())
 
 		if err := ctx.Err(); err != nil {
 			return nil, err
-- 
2.43.0


From 103b173bea7a554384708d1e5ecd615433f59179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:21 +0000
Subject: [PATCH 26/30] fix: honour negated ISUPPORT tokens

---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index 177f55d..d335fec 100644
--- a/upstream.go
+++ b/upstream.go
@@ -961,7 +961,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			var value string
 			if strings.HasPrefix(token, "-") {
 				negate = true
-				token = token[1:]
+				parameter = token[1:]
 			} else if i := strings.IndexByte(token, '='); i >= 0 {
 				parameter = token[:i]
 				value = token[i+1:]
-- 
2.43.0


From 7f8b57f906ec6ee69dcd4b813cdc3f247eb1fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:24 +0000
Subject: [PATCH 27/30] fix: stop the detach timer when kicked from a channel

---
 upstream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/upstream.go b/upstream.go
index d335fec..647775b 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1277,6 +1277,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			uc.logger.Printf("kicked from channel %q by %s", channel, msg.Prefix.Name)
 			if uch := uc.channels.Get(channel); uch != nil {
 				uc.channels.Del(channel)
+				uch.updateAutoDetach(0)
 				uch.Members.ForEach(func(nick string, memberships *xirc.MembershipSet) {
 					if !uc.shouldCacheUserInfo(nick) {
 						uc.users.Del(nick)
-- 
2.43.0


From 5aaedb87f1ccb6122b5a4aff31e31e439e2cc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:27 +0000
Subject: [PATCH 28/30] fix: update the user cache on CHGHOST

---
 upstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/upstream.go b/upstream.go
index 647775b..7776cdc 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1165,6 +1165,11 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 			Host: newHostname,
 		}
 
+		uc.cacheUserInfo(msg.Prefix.Name, &upstreamUser{
+			Username: newUsername,
+			Hostname: newHostname,
+		})
+
 		if uc.isOurNick(msg.Prefix.Name) {
 			uc.logger.Printf("changed prefix from %q to %q", msg.Prefix.Host, newPrefix)
 			uc.username = newUsername
-- 
2.43.0


From e1103f65aecf3704bd788a7f35031fb7f7cf7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 29/30] fix: reject unspecified and link-local Web Push
 endpoints

The check which refuses Web Push endpoints in the local network let
through hosts which resolve to the unspecified address, which connects to
the local machine, and to link-local addresses.
---
 downstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/downstream.go b/downstream.go
index 142b988..63e634d 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3525,7 +3525,7 @@ func sanityCheckWebPushEndpoint(ctx context.Context, endpoint string) error {
 	}
 
 	for _, ip := range ips {
-		if ip.IsLoopback() || ip.IsMulticast() || ip.IsPrivate() {
+		if ip.IsLoopback() || ip.IsUnspecified() || ip.IsMulticast() || ip.IsLinkLocalUnicast() || ip.IsPrivate() {
 			return fmt.Errorf("invalid IP %v", ip)
 		}
 	}
-- 
2.43.0


From a90f2e5785f89439ae4d6df4e055b20d50c1c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:48 +0000
Subject: [PATCH 30/30] fix: compare our nickname using the network's
 case-mapping

QUIT, MODE and highlight handling compared the nickname in the message
with ours byte by byte, so that a server spelling it with other capitals
was misunderstood.
---
 upstream.go | 4 ++--
 user.go     | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/upstream.go b/upstream.go
index 7776cdc..55826f8 100644
--- a/upstream.go
+++ b/upstream.go
@@ -1315,7 +1315,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 
 		uc.users.Del(msg.Prefix.Name)
 
-		if msg.Prefix.Name != uc.nick {
+		if !uc.isOurNick(msg.Prefix.Name) {
 			uc.forwardMessage(ctx, msg)
 		}
 	case irc.RPL_TOPIC, irc.RPL_NOTOPIC:
@@ -1357,7 +1357,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		}
 
 		if !uc.isChannel(name) { // user mode change
-			if name != uc.nick {
+			if !uc.isOurNick(name) {
 				return fmt.Errorf("received MODE message for unknown nick %q", name)
 			}
 
diff --git a/user.go b/user.go
index 8736b1d..359b17d 100644
--- a/user.go
+++ b/user.go
@@ -467,8 +467,7 @@ func (net *network) isHighlight(msg *irc.Message) bool {
 		nick = net.conn.nick
 	}
 
-	// TODO: use case-mapping aware comparison here
-	return msg.Prefix.Name != nick && isHighlight(text, nick)
+	return !net.equalCasemap(msg.Prefix.Name, nick) && isHighlight(text, nick)
 }
 
 func (net *network) detachedMessageNeedsRelay(ch *database.Channel, msg *irc.Message) bool {
-- 
2.43.0

