From 3ba5d29612c62419fa6b260c33374a06d9a2adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:22 +0000
Subject: [PATCH 1/4] fix: msgstore: return the last message's ID from the
 memory store's LastMsgID

LoadLatestID excludes the message the given ID refers to. LastMsgID returned
the ID of the next message to be appended, so the first message received after
a channel was detached or a client left was missing from the backlog.
---
 msgstore/memory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgstore/memory.go b/msgstore/memory.go
index b37b074..6164975 100644
--- a/msgstore/memory.go
+++ b/msgstore/memory.go
@@ -76,7 +76,8 @@ func (ms *memoryMessageStore) LastMsgID(network *database.Network, entity string
 	var seq uint64
 	k := ringBufferKey{networkID: network.ID, entity: entity}
 	if rb, ok := ms.buffers[k]; ok {
-		seq = rb.cur
+		// The next message will be assigned rb.cur, the last one has rb.cur-1
+		seq = rb.cur - 1
 	}
 	return formatMemoryMsgID(network.ID, entity, seq), nil
 }
-- 
2.43.0


From ac7e827a1261d3322b8e6beb8a5c47325b573128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 2/4] fix: ignore messages from connections turned away by the
 user goroutine

When the account is disabled or the network cannot be loaded, the
connection is left registered but without a user. Handling a message it
sends then dereferences a nil user, which ends the user's goroutine.
---
 user.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 44a16f8..50f63e8 100644
--- a/user.go
+++ b/user.go
@@ -740,7 +740,7 @@ func (u *user) run() {
 					Command: "ERROR",
 					Params:  []string{"This bouncer account is disabled"},
 				})
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -756,7 +756,7 @@ func (u *user) run() {
 					})
 				}
 				dc.logger.Printf("failed to handle new registered connection: %v", err)
-				// TODO: close dc after the error message is sent
+				dc.Shutdown(ctx)
 				break
 			}
 
@@ -807,6 +807,12 @@ func (u *user) run() {
 				dc.logger.Printf("ignoring message on closed connection: %v", msg)
 				break
 			}
+			if dc.registration != nil {
+				// The connection has been turned away, see
+				// eventDownstreamConnected above
+				dc.logger.Printf("ignoring message on rejected connection: %v", msg)
+				break
+			}
 			err := dc.handleMessage(context.TODO(), msg)
 			if ircErr, ok := err.(ircError); ok {
 				ircErr.Message.Prefix = dc.srv.prefix()
-- 
2.43.0


From aac63420756b19e650f47f49239f895d8b0f2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 3/4] fix: keep saved SASL credentials on NickServ SET commands
 other than PASSWORD

parseNickServCredentials reported empty credentials as valid for any SET
command other than SET PASSWORD, e.g. SET EMAIL. The caller then overwrote
the saved SASL PLAIN credentials of the network with them.
---
 downstream.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/downstream.go b/downstream.go
index d3c3723..8b8242f 100644
--- a/downstream.go
+++ b/downstream.go
@@ -3413,10 +3413,11 @@ func parseNickServCredentials(text, nick string) (username, password string, ok
 			password = params[1]
 		}
 	case "SET":
-		if len(params) == 2 && strings.EqualFold(params[0], "PASSWORD") {
-			username = nick
-			password = params[1]
+		if len(params) != 2 || !strings.EqualFold(params[0], "PASSWORD") {
+			return "", "", false
 		}
+		username = nick
+		password = params[1]
 	default:
 		return "", "", false
 	}
-- 
2.43.0


From d8943987ac4563fd1324009e05f18df4cb3b6b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 4/4] fix: handle SASL replies after the client has started
 over

If a client aborts a post-registration SASL exchange and starts a new one
before the upstream server has replied to the first one, dc.sasl has no
credentials yet when the reply comes in. Dereferencing them crashed the
user's goroutine.
---
 upstream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upstream.go b/upstream.go
index f1e02ed..8464254 100644
--- a/upstream.go
+++ b/upstream.go
@@ -891,7 +891,7 @@ func (uc *upstreamConn) handleMessage(ctx context.Context, msg *irc.Message) err
 		uc.saslClient = nil
 		uc.saslStarted = false
 
-		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil {
+		if dc, _ := uc.dequeueCommand("AUTHENTICATE"); dc != nil && dc.sasl != nil && dc.sasl.plain != nil {
 			if msg.Command == irc.RPL_SASLSUCCESS {
 				uc.network.autoSaveSASLPlain(ctx, dc.sasl.plain.Username, dc.sasl.plain.Password)
 			}
-- 
2.43.0

