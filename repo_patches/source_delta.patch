From 3d3cfc2159733f5022980f1453222bc5cf052f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 01/35] fix: clear the RTP marker when sending the first DTMF
 packet fails

SendDTMF returned with Header.Mark still set, so the next audio packet
went out with a spurious marker bit.
---
 rtp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..96801c9 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -138,11 +138,11 @@ func (rs *Session) SendDTMF(digit byte) error {
 		event[2] = byte(dur >> 8)
 		event[3] = byte(dur & 0xff)
 		_, err := rs.Sock.WriteTo(append(rs.Header.Write(rs.obuf), event[:]...), rs.Peer)
+		rs.Header.Mark = false
 		if err != nil {
 			return err
 		}
 		rs.Header.Seq++
-		rs.Header.Mark = false
 		dur += dtmfInterval
 		if dur >= dtmfDuration {
 			break
-- 
2.43.0


From 6629663a971345c34ac13382d0efd6d56e19b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 02/35] fix: refuse to route a response that has no Via left

---
 dialog/route.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..d9b00ca 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -81,6 +81,9 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		if via.CompareHostPort(msg.Via) {
 			msg.Via = msg.Via.Next
 		}
+		if msg.Via == nil {
+			return "", 0, errors.New("Response has no Via to be routed by")
+		}
 
 		host, port = msg.Via.Host, msg.Via.Port
 		if received := msg.Via.Param.Get("received"); received != nil {
-- 
2.43.0


From 29f7075d7be4b458050285d70d2350c3e0f84f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 03/35] fix: do not route responses to an rport reduced modulo
 65536

---
 dialog/route.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index d9b00ca..98d59c2 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -95,11 +95,13 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-			port = uint16(i)
+			if i > 0 {
+				port = uint16(i)
+			}
 		}
 	} else {
 		if contact.CompareHostPort(msg.Route) {
-- 
2.43.0


From fdc0ee8e4567b6af4dc3fe634559eae164662422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 04/35] fix: send messages without a port to port 5060

---
 dialog/transport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..47bf676 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,6 +82,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
+	if port == 0 {
+		port = 5060
+	}
 	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
 	if err != nil {
 		return err
-- 
2.43.0


From 552b5d008b399089f577d50f6ba40c7891681c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 05/35] fix: do not add the branch of one request to the
 transport's own Via

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 98d59c2..f004be0 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,7 +32,7 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
 			msg.Contact = contact
-- 
2.43.0


From fff75ea015893dabf2bac721a76a5bf3da135e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 06/35] fix: fill in a received parameter the sender left empty

---
 dialog/receiver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..9109acb 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -80,12 +80,15 @@ func addReceived(msg *sip.Msg, addr *net.UDPAddr) {
 		}
 	}
 	if msg.Via.Host != addr.IP.String() {
-		if msg.Via.Param.Get("received") == nil {
+		received := msg.Via.Param.Get("received")
+		if received == nil {
 			msg.Via.Param = &sip.Param{
 				Name:  "received",
 				Value: addr.IP.String(),
 				Next:  msg.Via.Param,
 			}
+		} else if len(received.Value) == 0 {
+			received.Value = addr.IP.String()
 		}
 	}
 }
-- 
2.43.0


From 4440a7755fca5a7e577bff096baf560703e4e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 07/35] fix: drop received messages without Via instead of
 crashing

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 9109acb..7ab3b41 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message: no Via header\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From ae4008b393871a3412afef5ba75d6a007471548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 08/35] fix: recognise connection refusals wrapped by the os
 package

---
 util/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From eeecf71b07370d30b0b27853d5aa7704191b9a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 09/35] fix: do not dereference the socket just given up after
 a refusal

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..abd74fc 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
-- 
2.43.0


From 402095aaf5e55a392573a413decee621e902596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 10/35] fix: keep the remaining destinations when a 503 arrives

---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index abd74fc..cc45760 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,7 +311,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
+	if msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	dls.requestTimer = nil
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
-- 
2.43.0


From a6a3469690de1158f7ad4ead04f9313bdeeea7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 11/35] fix: acknowledge final responses that have no Contact

---
 dialog/dialog.go   | 6 +++---
 dialog/messages.go | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index cc45760..f777cf2 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,11 +303,11 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if !dls.send(NewAck(msg, dls.request)) {
 			return false
 		}
-		if !dls.send(NewAck(msg, dls.request)) {
+		if msg.Status == sip.StatusOK && msg.Contact == nil {
+			dls.errChan <- errors.New("Remote UA sent 200 response w/o Contact")
 			return false
 		}
 	}
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..35aa3c6 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request := invite.Request
+	if msg.Status < sip.StatusMultipleChoices && msg.Contact != nil {
+		request = msg.Contact.Uri
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
-- 
2.43.0


From 23c6c14a09037cfb5518b5acec3f9b8cb7a509f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 12/35] fix: only redirect the INVITE, and only to a given
 Contact

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index f777cf2..839ec5b 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -343,6 +343,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if dls.request != dls.invite || msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From b7ae9055df07833ee58f238e51ad999aec0a30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 13/35] fix: stop following redirects after ten of them

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 839ec5b..cb6fb72 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -37,6 +37,9 @@ const (
 	Hangup
 )
 
+// How many redirect responses are followed before a call is given up.
+const maxRedirects = 10
+
 var (
 	looseSignalling = flag.Bool("looseSignalling", false, "Permit SIP messages from servers other than the next hop.")
 	resendInterval  = flag.Int("resendInterval", 400, "Milliseconds between SIP resends.")
@@ -76,6 +79,7 @@ type dialogState struct {
 	responseTimer   <-chan time.Time // Resend timer for message.
 	lseq            int              // Local CSeq value.
 	rseq            int              // Remote CSeq value.
+	redirects       int              // Number of redirects followed so far.
 	b               bytes.Buffer     // Outbound message buffer.
 }
 
@@ -343,7 +347,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
-		if dls.request != dls.invite || msg.Contact == nil {
+		dls.redirects++
+		if dls.request != dls.invite || msg.Contact == nil || dls.redirects > maxRedirects {
 			dls.errChan <- &sip.ResponseError{Msg: msg}
 			return false
 		}
-- 
2.43.0


From f893d1f57568dde12fe90615585a078683aa311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 14/35] fix: never answer responses and ACKs

---
 dialog/dialog.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index cb6fb72..a65a0e5 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -284,7 +284,7 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if !dls.reject(msg, sip.StatusVersionNotSupported) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
@@ -292,7 +292,7 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
-		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
+		return dls.reject(msg, sip.StatusCallTransactionDoesNotExist)
 	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
@@ -366,7 +366,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	if msg.MaxForwards <= 0 {
-		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
+		if !dls.reject(msg, sip.StatusTooManyHops) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote froot loop detected")
@@ -377,7 +377,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	} else {
 		if msg.CSeq < dls.rseq {
 			// RFC 3261 mandates a 500 response for out of order requests.
-			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
+			return dls.reject(msg, sip.StatusInternalServerError)
 		}
 		dls.rseq = msg.CSeq
 	}
@@ -403,6 +403,14 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	}
 }
 
+// reject refuses a message, unless it's one that must not be answered.
+func (dls *dialogState) reject(msg *sip.Msg, status int) bool {
+	if msg.IsResponse() || msg.Method == sip.MethodAck {
+		return true
+	}
+	return dls.send(NewResponse(msg, status))
+}
+
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
 	if ms, ok := msg.Payload.(*sdp.SDP); ok {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
-- 
2.43.0


From 7ca4e89f17b8d85f40f54ef3e01eccfd0be88fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 15/35] fix: do not end a call for a foreign message in another
 SIP version

---
 dialog/dialog.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index a65a0e5..8e70a76 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -283,6 +283,10 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 }
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
+	if msg.CallID != dls.request.CallID {
+		log.Printf("Received message doesn't match dialog\r\n")
+		return dls.reject(msg, sip.StatusCallTransactionDoesNotExist)
+	}
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
 		if !dls.reject(msg, sip.StatusVersionNotSupported) {
 			return false
@@ -290,10 +294,6 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
 		return false
 	}
-	if msg.CallID != dls.request.CallID {
-		log.Printf("Received message doesn't match dialog\r\n")
-		return dls.reject(msg, sip.StatusCallTransactionDoesNotExist)
-	}
 	if msg.IsResponse() {
 		return dls.handleResponse(msg)
 	} else {
-- 
2.43.0


From ed9313d865e9aafd7535d66a678fd497a14fceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 16/35] fix: do not deadlock when closing a socket whose
 receiver is running

---
 dialog/dialog.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 8e70a76..b7e8179 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -521,8 +521,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -530,7 +529,17 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// drain waits for the receiver of a closed socket to report its error.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for {
+		select {
+		case <-msgs:
+		case <-errs:
+			return
+		}
 	}
 }
-- 
2.43.0


From c263fb1b379974a7831d2255090b26b74d36458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 17/35] fix: ignore session descriptions that offer no audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b7e8179..bbdf84c 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -412,7 +412,7 @@ func (dls *dialogState) reject(msg *sip.Msg, status int) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From 6444f9efee16835e8baf4cbdfdc7343b4737f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 18/35] fix: keep the answer's dialog state when the peer sends
 a re-INVITE

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index bbdf84c..dc17745 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -391,7 +391,11 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			remote := *dls.remote
+			remote.Contact = msg.Contact
+			dls.remote = &remote
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-- 
2.43.0


From 7d3e6ebbbc207f1e138252c634328beef63f7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 19/35] fix: do not report an answered call as ringing when
 provisional responses arrive late

---
 dialog/dialog.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index dc17745..1353682 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -324,9 +324,13 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	}
 	switch msg.Status {
 	case sip.StatusTrying:
-		dls.transition(Proceeding)
+		if dls.state < Answered {
+			dls.transition(Proceeding)
+		}
 	case sip.StatusRinging, sip.StatusSessionProgress:
-		dls.transition(Ringing)
+		if dls.state < Answered {
+			dls.transition(Ringing)
+		}
 	case sip.StatusOK:
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
-- 
2.43.0


From b3f4ad1969639625b1f70fb419890d53e5c3771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 20/35] fix: keep the noise generator's counters in range for
 extreme seeds

---
 dsp/awgn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/awgn.go b/dsp/awgn.go
index e710204..7ddda50 100644
--- a/dsp/awgn.go
+++ b/dsp/awgn.go
@@ -62,6 +62,7 @@ func NewAWGN_DBM0(idum int64, level float64) (s *AWGN) {
 
 func NewAWGN_DBOV(idum int64, level float64) (s *AWGN) {
 	s = new(AWGN)
+	idum %= m1
 	if idum < 0.0 {
 		idum = -idum
 	}
-- 
2.43.0


From 592739ac3476989a1a0c8aa808a5565b0debe957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 21/35] fix: mix frames that are not 16-byte aligned

---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..cf8b298 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0	// frames need not be 16-byte aligned
+	MOVOU	0(AX), X1
+	PADDSW	X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From ec8fbd78ca5f8d13b0804ef6eacd70b79c56bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 22/35] fix: closing a session must not wait for a frame its
 owner still holds

---
 rtp/session.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 96801c9..f4dad8f 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -167,12 +167,11 @@ func (rs *Session) Close() {
 		return
 	}
 	rs.Sock.Close()
-	if frame, ok := <-rs.C; ok {
-		rs.R <- frame
+	close(rs.R) // the receiver no longer waits for a frame we may be holding
+	for range rs.C {
 	}
 	<-rs.E
 	rs.Sock = nil
-	close(rs.R)
 }
 
 func (rs *Session) CloseAfterError() {
-- 
2.43.0


From b733f509d67adca6bde2fb911036571bd5af17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:40 +0000
Subject: [PATCH 23/35] fix: copy each packet, so that messages keep their
 bytes when the next one arrives

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 7ab3b41..1b120b0 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := append([]byte(nil), buf[0:amt]...)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 31e22c0d4e359436e6cb0954a16140f57939c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 24/35] fix: refuse numbers that do not fit their field instead
 of wrapping them

---
 sip/msg_parse.go | 1444 ++++++++++++++++++++++++----------------------
 sip/sip.rl       |   74 ++-
 sip/uri_parse.go |  220 +++----
 sip/uri_parse.rl |    8 +-
 sip/util.go      |   14 +
 5 files changed, 929 insertions(+), 831 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..d4784a1 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1691,7 +1691,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 		goto st0
 tr416:
-//line sip.rl:171
+//line sip.rl:179
 
 	p--
 
@@ -1783,7 +1783,7 @@ tr5:
 		}
 		goto st4
 tr7:
-//line sip.rl:124
+//line sip.rl:128
 
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -1837,16 +1837,18 @@ tr7:
 		goto st0
 tr12:
 //line sip.rl:116
-
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
-
+{
+	n, err := appendDigit(int(msg.VersionMajor), data[p], 255)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(n)
+}
 	goto st10
 	st10:
 		if p++; p == pe {
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1843
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1864,17 +1866,19 @@ tr12:
 		}
 		goto st0
 tr14:
-//line sip.rl:120
-
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
-
+//line sip.rl:122
+{
+	n, err := appendDigit(int(msg.VersionMinor), data[p], 255)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(n)
+}
 	goto st12
 	st12:
 		if p++; p == pe {
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1890,7 +1894,7 @@ tr14:
 		}
 		goto st0
 tr42:
-//line sip.rl:133
+//line sip.rl:139
 
 	msg.Phrase = string(buf[0:amt])
 
@@ -1900,13 +1904,13 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1899
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st765
 	st765:
@@ -1914,7 +1918,7 @@ tr16:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:1909
+//line msg_parse.go:1913
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1931,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1926
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2055,16 +2059,18 @@ tr2:
 		goto st0
 tr20:
 //line sip.rl:116
-
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
-
+{
+	n, err := appendDigit(int(msg.VersionMajor), data[p], 255)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(n)
+}
 	goto st18
 	st18:
 		if p++; p == pe {
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2065
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2082,17 +2088,19 @@ tr20:
 		}
 		goto st0
 tr22:
-//line sip.rl:120
-
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
-
+//line sip.rl:122
+{
+	n, err := appendDigit(int(msg.VersionMinor), data[p], 255)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(n)
+}
 	goto st20
 	st20:
 		if p++; p == pe {
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2095
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2110,49 +2118,55 @@ tr22:
 		}
 		goto st0
 tr24:
-//line sip.rl:129
-
-	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:133
+{
+	n, err := appendDigit(msg.Status, data[p], 999)
+	if err != nil { return nil, err }
+	msg.Status = n
+}
 	goto st22
 	st22:
 		if p++; p == pe {
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2125
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
 		goto st0
 tr25:
-//line sip.rl:129
-
-	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:133
+{
+	n, err := appendDigit(msg.Status, data[p], 999)
+	if err != nil { return nil, err }
+	msg.Status = n
+}
 	goto st23
 	st23:
 		if p++; p == pe {
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2143
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
 		goto st0
 tr26:
-//line sip.rl:129
-
-	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:133
+{
+	n, err := appendDigit(msg.Status, data[p], 999)
+	if err != nil { return nil, err }
+	msg.Status = n
+}
 	goto st24
 	st24:
 		if p++; p == pe {
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2161
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2260,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2255
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2334,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2329
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2359,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2354
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2396,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2391
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2424,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2419
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2452,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2447
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2480,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2475
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2508,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2503
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2562,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2557
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2673,7 +2687,7 @@ tr45:
 		}
 		goto st0
 tr49:
-//line sip.rl:228
+//line sip.rl:238
 
 	ctype = string(data[mark:p])
 
@@ -2683,7 +2697,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2692
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2703,7 +2717,7 @@ tr49:
 		}
 		goto st0
 tr50:
-//line sip.rl:228
+//line sip.rl:238
 
 	ctype = string(data[mark:p])
 
@@ -2713,7 +2727,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2722
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2945,7 +2959,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:228
+//line sip.rl:238
 
 	ctype = string(data[mark:p])
 
@@ -2955,13 +2969,13 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2964
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st766
 	st766:
@@ -2969,10 +2983,10 @@ tr65:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:2964
+//line msg_parse.go:2978
 		goto st0
 tr52:
-//line sip.rl:228
+//line sip.rl:238
 
 	ctype = string(data[mark:p])
 
@@ -2982,7 +2996,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2991
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3099,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3094
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3155,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3150
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3187,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3182
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3224,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3219
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3252,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3247
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3280,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3275
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3308,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3303
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3336,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3331
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3364,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3359
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3381,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3376
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3605,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3600
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3642,7 +3656,7 @@ tr93:
 		}
 		goto st0
 tr94:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -3652,7 +3666,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3661
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3676,7 +3690,7 @@ tr94:
 		}
 		goto st0
 tr96:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -3686,7 +3700,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3695
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3714,17 +3728,17 @@ tr96:
 		}
 		goto st0
 tr106:
-//line sip.rl:167
+//line sip.rl:175
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -3733,11 +3747,11 @@ tr106:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:277
  {goto st103 } 
 	goto st767
 tr110:
-//line sip.rl:167
+//line sip.rl:175
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
@@ -3750,21 +3764,21 @@ tr110:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:278
  {goto st68 } 
 	goto st767
 tr122:
-//line sip.rl:167
+//line sip.rl:175
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st767
 	st767:
@@ -3772,7 +3786,7 @@ tr122:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:3767
+//line msg_parse.go:3781
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3808,7 +3822,7 @@ tr122:
 		}
 		goto tr106
 tr97:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -3818,7 +3832,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3827
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3879,7 +3893,7 @@ tr97:
 		}
 		goto tr110
 tr98:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -3889,7 +3903,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3898
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3966,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3961
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4065,7 +4079,7 @@ tr114:
 		}
 		goto st0
 tr99:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -4075,7 +4089,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4084
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4166,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4161
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4222,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4217
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4256,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4251
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4293,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4288
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4321,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4316
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4349,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4344
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4377,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4372
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4405,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4400
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4433,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4428
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4450,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4445
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4512,7 +4526,7 @@ tr141:
 		}
 		goto st0
 tr100:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -4522,7 +4536,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4531
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4620,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4615
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4651,7 +4665,7 @@ tr146:
 		}
 		goto st0
 tr147:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4661,7 +4675,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4670
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4681,7 +4695,7 @@ tr147:
 		}
 		goto st0
 tr149:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -4691,7 +4705,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4763,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4758
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4794,7 +4808,7 @@ tr154:
 		}
 		goto st0
 tr156:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4804,7 +4818,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4813
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4824,7 +4838,7 @@ tr156:
 		}
 		goto st0
 tr158:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -4834,7 +4848,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4843
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4906,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4901
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4940,7 +4954,7 @@ tr163:
 		}
 		goto st0
 tr165:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -4950,7 +4964,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4959
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +5011,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:5006
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5040,7 +5054,7 @@ tr169:
 		}
 		goto st0
 tr172:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5050,7 +5064,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5059
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5074,7 +5088,7 @@ tr172:
 		}
 		goto st0
 tr173:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5084,7 +5098,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5093
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5112,13 +5126,13 @@ tr173:
 		}
 		goto st0
 tr184:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -5127,7 +5141,7 @@ tr184:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:277
  {goto st103 } 
 	goto st768
 tr193:
@@ -5140,17 +5154,17 @@ tr193:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:278
  {goto st68 } 
 	goto st768
 tr199:
-//line sip.rl:141
+//line sip.rl:147
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st768
 	st768:
@@ -5158,7 +5172,7 @@ tr199:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:5153
+//line msg_parse.go:5167
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5194,7 +5208,7 @@ tr199:
 		}
 		goto tr184
 tr175:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5204,7 +5218,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5213
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5225,17 +5239,19 @@ tr175:
 		}
 		goto st0
 tr188:
-//line sip.rl:163
-
-	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
-
+//line sip.rl:169
+{
+	n, err := appendDigit(int(via.Port), data[p], 65535)
+	if err != nil { return nil, err }
+	via.Port = uint16(n)
+}
 	goto st119
 	st119:
 		if p++; p == pe {
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5246
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5287,7 +5303,7 @@ tr188:
 		}
 		goto st0
 tr176:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5297,7 +5313,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5308
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5395,7 +5411,7 @@ tr176:
 		}
 		goto st0
 tr177:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5405,7 +5421,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5416
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5447,7 +5463,7 @@ tr177:
 		}
 		goto st0
 tr178:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5457,7 +5473,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5468
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5540,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5535
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5545,7 +5561,7 @@ tr204:
 		}
 		goto st0
 tr206:
-//line sip.rl:159
+//line sip.rl:165
 
 	via.Host = string(data[mark:p])
 
@@ -5555,7 +5571,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5566
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5581,7 +5597,7 @@ tr206:
 		}
 		goto st0
 tr167:
-//line sip.rl:155
+//line sip.rl:161
 
 	via.Transport = string(data[mark:p])
 
@@ -5591,7 +5607,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5602
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5703,7 +5719,7 @@ tr167:
 		}
 		goto st0
 tr159:
-//line sip.rl:151
+//line sip.rl:157
 
 	via.Version = string(data[mark:p])
 
@@ -5713,7 +5729,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5724
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5808,7 +5824,7 @@ tr159:
 		}
 		goto st0
 tr150:
-//line sip.rl:147
+//line sip.rl:153
 
 	via.Protocol = string(data[mark:p])
 
@@ -5818,7 +5834,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5829
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5918,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5913
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5953,7 +5969,7 @@ tr217:
 		}
 		goto st0
 tr218:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -5963,7 +5979,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5974
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5987,7 +6003,7 @@ tr218:
 		}
 		goto st0
 tr220:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -5997,7 +6013,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:6008
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6025,11 +6041,11 @@ tr220:
 		}
 		goto st0
 tr230:
-//line sip.rl:210
+//line sip.rl:218
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6040,11 +6056,11 @@ tr230:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st769
 tr234:
-//line sip.rl:210
+//line sip.rl:218
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6053,21 +6069,21 @@ tr234:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st769
 tr246:
-//line sip.rl:210
+//line sip.rl:218
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st769
 	st769:
@@ -6075,7 +6091,7 @@ tr246:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:6070
+//line msg_parse.go:6086
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6111,7 +6127,7 @@ tr246:
 		}
 		goto tr230
 tr221:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -6121,7 +6137,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6132
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6182,7 +6198,7 @@ tr221:
 		}
 		goto tr234
 tr222:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -6192,7 +6208,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6203
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6271,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6266
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6368,7 +6384,7 @@ tr238:
 		}
 		goto st0
 tr223:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -6378,7 +6394,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6389
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6471,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6466
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6527,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6522
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6561,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6556
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6598,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6593
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6626,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6621
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6654,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6649
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6682,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6677
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6710,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6705
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6738,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6733
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6755,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6750
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6815,7 +6831,7 @@ tr265:
 		}
 		goto st0
 tr224:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -6825,7 +6841,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6836
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6916,7 +6932,7 @@ tr224:
 		}
 		goto st0
 tr329:
-//line sip.rl:193
+//line sip.rl:201
 
 	addr.Display = string(buf[0:amt])
 
@@ -6926,7 +6942,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6937
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6946,7 +6962,7 @@ tr329:
 		}
 		goto st0
 tr305:
-//line sip.rl:197
+//line sip.rl:205
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6956,7 +6972,7 @@ tr305:
 }
 	goto st190
 tr330:
-//line sip.rl:193
+//line sip.rl:201
 
 	addr.Display = string(buf[0:amt])
 
@@ -6966,7 +6982,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6977
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +7003,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:6998
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7073,7 +7089,7 @@ tr275:
 		}
 		goto st0
 tr279:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7084,7 +7100,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7095
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7139,7 +7155,7 @@ tr279:
 		}
 		goto st0
 tr285:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7150,7 +7166,7 @@ tr285:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st770
 tr289:
@@ -7159,17 +7175,17 @@ tr289:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st770
 tr293:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st770
 	st770:
@@ -7177,7 +7193,7 @@ tr293:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:7172
+//line msg_parse.go:7188
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7371,7 +7387,7 @@ tr293:
 		}
 		goto st0
 tr310:
-//line sip.rl:197
+//line sip.rl:205
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7381,7 +7397,7 @@ tr310:
 }
 	goto st210
 tr331:
-//line sip.rl:193
+//line sip.rl:201
 
 	addr.Display = string(buf[0:amt])
 
@@ -7391,7 +7407,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7402
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7449,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7444
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7481,7 +7497,7 @@ tr271:
 		}
 		goto st0
 tr304:
-//line sip.rl:197
+//line sip.rl:205
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7495,7 +7511,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7506
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7545,7 +7561,7 @@ tr304:
 		}
 		goto st0
 tr306:
-//line sip.rl:197
+//line sip.rl:205
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7559,7 +7575,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7570
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7577,7 +7593,7 @@ tr306:
 		}
 		goto st0
 tr309:
-//line sip.rl:197
+//line sip.rl:205
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7591,7 +7607,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7602
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7667,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7662
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7735,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7730
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7791,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7786
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7821,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7816
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7858,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7853
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7886,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7881
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7914,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7909
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7942,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7937
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7970,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7965
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7998,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7993
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +8015,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:8010
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8130,7 +8146,7 @@ tr332:
 		}
 		goto st0
 tr336:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8141,7 +8157,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8152
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8194,7 +8210,7 @@ tr336:
 		}
 		goto st0
 tr345:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8205,7 +8221,7 @@ tr345:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st771
 tr349:
@@ -8214,17 +8230,17 @@ tr349:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st771
 tr375:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st771
 	st771:
@@ -8232,7 +8248,7 @@ tr375:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:8227
+//line msg_parse.go:8243
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8332,7 +8348,7 @@ tr375:
 		}
 		goto tr349
 tr340:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8343,7 +8359,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8354
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8377,7 +8393,7 @@ tr340:
 		}
 		goto st0
 tr337:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8388,7 +8404,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8399
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8443,7 +8459,7 @@ tr337:
 		}
 		goto st0
 tr355:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8454,7 +8470,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8465
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8486,7 +8502,7 @@ tr355:
 		}
 		goto st0
 tr361:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8497,7 +8513,7 @@ tr361:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st772
 	st772:
@@ -8505,7 +8521,7 @@ tr361:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:8500
+//line msg_parse.go:8516
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8533,7 +8549,7 @@ tr361:
 		}
 		goto st0
 tr359:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8544,7 +8560,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8555
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8578,7 +8594,7 @@ tr359:
 		}
 		goto tr345
 tr356:
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8589,7 +8605,7 @@ tr356:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st773
 tr366:
@@ -8598,7 +8614,7 @@ tr366:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st773
 	st773:
@@ -8606,7 +8622,7 @@ tr366:
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:8601
+//line msg_parse.go:8617
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8652,7 +8668,7 @@ tr366:
 		}
 		goto st0
 tr338:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8663,7 +8679,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8674
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8718,7 +8734,7 @@ tr338:
 		}
 		goto st0
 tr365:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8729,7 +8745,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8740
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8766,7 +8782,7 @@ tr371:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st774
 	st774:
@@ -8774,7 +8790,7 @@ tr371:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:8769
+//line msg_parse.go:8785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8802,7 +8818,7 @@ tr371:
 		}
 		goto st0
 tr369:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8813,7 +8829,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8824
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8847,7 +8863,7 @@ tr369:
 		}
 		goto tr349
 tr367:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8857,7 +8873,7 @@ tr367:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st775
 	st775:
@@ -8865,7 +8881,7 @@ tr367:
 			goto _test_eof775
 		}
 	st_case_775:
-//line msg_parse.go:8860
+//line msg_parse.go:8876
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8920,12 +8936,12 @@ tr367:
 		}
 		goto st0
 tr357:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8936,7 +8952,7 @@ tr357:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st776
 	st776:
@@ -8944,7 +8960,7 @@ tr357:
 			goto _test_eof776
 		}
 	st_case_776:
-//line msg_parse.go:8939
+//line msg_parse.go:8955
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8999,12 +9015,12 @@ tr357:
 		}
 		goto st0
 tr358:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:222
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -9015,11 +9031,11 @@ tr358:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st777
 tr368:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9029,7 +9045,7 @@ tr368:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:272
  {goto st153 } 
 	goto st777
 	st777:
@@ -9037,13 +9053,13 @@ tr368:
 			goto _test_eof777
 		}
 	st_case_777:
-//line msg_parse.go:9032
+//line msg_parse.go:9048
 		if data[p] == 10 {
 			goto tr375
 		}
 		goto st0
 tr339:
-//line sip.rl:205
+//line sip.rl:213
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9054,7 +9070,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9065
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9132,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9127
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9217,7 +9233,7 @@ tr376:
 		}
 		goto st0
 tr377:
-//line sip.rl:189
+//line sip.rl:197
 
 	addr = new(Addr)
 
@@ -9226,11 +9242,11 @@ tr377:
 	p--
 
 
-//line sip.rl:253
+//line sip.rl:271
  {goto st188 } 
 	goto st778
 tr382:
-//line sip.rl:189
+//line sip.rl:197
 
 	addr = new(Addr)
 
@@ -9239,11 +9255,11 @@ tr382:
 	p = ( mark) - 1
 
 
-//line sip.rl:253
+//line sip.rl:271
  {goto st188 } 
 	goto st778
 tr386:
-//line sip.rl:189
+//line sip.rl:197
 
 	addr = new(Addr)
 
@@ -9252,7 +9268,7 @@ tr386:
 	p = ( mark) - 1
 
 
-//line sip.rl:255
+//line sip.rl:273
  {goto st229 } 
 	goto st778
 	st778:
@@ -9260,7 +9276,7 @@ tr386:
 			goto _test_eof778
 		}
 	st_case_778:
-//line msg_parse.go:9255
+//line msg_parse.go:9271
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9354,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9349
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9465,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9460
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9519,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9514
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9535,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9530
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9551,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9546
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9567,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9562
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9583,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9578
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,13 +9599,13 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9594
 		if data[p] == 10 {
 			goto tr403
 		}
 		goto st0
 tr403:
-//line sip.rl:180
+//line sip.rl:188
 {
 	b := data[mark:p - 1]
 	if value != nil {
@@ -9598,7 +9614,7 @@ tr403:
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st779
 	st779:
@@ -9606,7 +9622,7 @@ tr403:
 			goto _test_eof779
 		}
 	st_case_779:
-//line msg_parse.go:9601
+//line msg_parse.go:9617
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9635,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9630
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9719,7 +9735,7 @@ tr394:
 		}
 		goto st0
 tr406:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -9729,7 +9745,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9740
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9740,7 +9756,7 @@ tr406:
 		}
 		goto st0
 tr407:
-//line sip.rl:176
+//line sip.rl:184
 
 	name = string(data[mark:p])
 
@@ -9750,7 +9766,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9761
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9778,14 +9794,14 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:532
+//line sip.rl:550
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:276
  {goto st263 } 
 	goto st780
 	st780:
@@ -9793,7 +9809,7 @@ value=nil
 			goto _test_eof780
 		}
 	st_case_780:
-//line msg_parse.go:9788
+//line msg_parse.go:9804
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9891,7 +9907,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9902
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9994,153 +10010,153 @@ tr414:
 		}
 		goto tr416
 tr435:
-//line sip.rl:451
+//line sip.rl:469
 value=&msg.AcceptContact
 	goto st283
 tr450:
-//line sip.rl:450
+//line sip.rl:468
 value=&msg.Accept
 	goto st283
 tr469:
-//line sip.rl:452
+//line sip.rl:470
 value=&msg.AcceptEncoding
 	goto st283
 tr478:
-//line sip.rl:453
+//line sip.rl:471
 value=&msg.AcceptLanguage
 	goto st283
 tr489:
-//line sip.rl:456
+//line sip.rl:474
 value=&msg.AlertInfo
 	goto st283
 tr493:
-//line sip.rl:454
+//line sip.rl:472
 value=&msg.Allow
 	goto st283
 tr502:
-//line sip.rl:455
+//line sip.rl:473
 value=&msg.AllowEvents
 	goto st283
 tr522:
-//line sip.rl:457
+//line sip.rl:475
 value=&msg.AuthenticationInfo
 	goto st283
 tr532:
-//line sip.rl:458
+//line sip.rl:476
 value=&msg.Authorization
 	goto st283
 tr534:
-//line sip.rl:475
+//line sip.rl:493
 value=&msg.ReferredBy
 	goto st283
 tr564:
-//line sip.rl:462
+//line sip.rl:480
 value=&msg.CallInfo
 	goto st283
 tr597:
-//line sip.rl:459
+//line sip.rl:477
 value=&msg.ContentDisposition
 	goto st283
 tr606:
-//line sip.rl:461
+//line sip.rl:479
 value=&msg.ContentEncoding
 	goto st283
 tr616:
-//line sip.rl:460
+//line sip.rl:478
 value=&msg.ContentLanguage
 	goto st283
-tr651:
-//line sip.rl:463
+tr652:
+//line sip.rl:481
 value=&msg.Date
 	goto st283
-tr664:
-//line sip.rl:464
+tr665:
+//line sip.rl:482
 value=&msg.ErrorInfo
 	goto st283
-tr669:
-//line sip.rl:465
+tr670:
+//line sip.rl:483
 value=&msg.Event
 	goto st283
-tr698:
-//line sip.rl:466
+tr699:
+//line sip.rl:484
 value=&msg.InReplyTo
 	goto st283
-tr700:
-//line sip.rl:480
+tr701:
+//line sip.rl:498
 value=&msg.Supported
 	goto st283
-tr739:
-//line sip.rl:468
+tr740:
+//line sip.rl:486
 value=&msg.MIMEVersion
 	goto st283
-tr767:
-//line sip.rl:469
+tr768:
+//line sip.rl:487
 value=&msg.Organization
 	goto st283
-tr797:
-//line sip.rl:470
+tr798:
+//line sip.rl:488
 value=&msg.Priority
 	goto st283
-tr816:
-//line sip.rl:471
+tr817:
+//line sip.rl:489
 value=&msg.ProxyAuthenticate
 	goto st283
-tr826:
-//line sip.rl:472
+tr827:
+//line sip.rl:490
 value=&msg.ProxyAuthorization
 	goto st283
-tr834:
-//line sip.rl:473
+tr835:
+//line sip.rl:491
 value=&msg.ProxyRequire
 	goto st283
-tr836:
-//line sip.rl:474
+tr837:
+//line sip.rl:492
 value=&msg.ReferTo
 	goto st283
-tr886:
-//line sip.rl:467
+tr887:
+//line sip.rl:485
 value=&msg.ReplyTo
 	goto st283
-tr892:
-//line sip.rl:476
+tr893:
+//line sip.rl:494
 value=&msg.Require
 	goto st283
-tr902:
-//line sip.rl:477
+tr903:
+//line sip.rl:495
 value=&msg.RetryAfter
 	goto st283
-tr909:
-//line sip.rl:479
+tr910:
+//line sip.rl:497
 value=&msg.Subject
 	goto st283
-tr917:
-//line sip.rl:478
+tr918:
+//line sip.rl:496
 value=&msg.Server
 	goto st283
-tr941:
-//line sip.rl:481
+tr942:
+//line sip.rl:499
 value=&msg.Timestamp
 	goto st283
-tr943:
-//line sip.rl:454
+tr944:
+//line sip.rl:472
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:473
 value=&msg.AllowEvents
 	goto st283
-tr956:
-//line sip.rl:482
+tr957:
+//line sip.rl:500
 value=&msg.Unsupported
 	goto st283
-tr966:
-//line sip.rl:483
+tr967:
+//line sip.rl:501
 value=&msg.UserAgent
 	goto st283
-tr983:
-//line sip.rl:484
+tr984:
+//line sip.rl:502
 value=&msg.Warning
 	goto st283
-tr999:
-//line sip.rl:485
+tr1000:
+//line sip.rl:503
 value=&msg.WWWAuthenticate
 	goto st283
 	st283:
@@ -10148,7 +10164,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10159
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10159,153 +10175,153 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr436:
-//line sip.rl:451
+//line sip.rl:469
 value=&msg.AcceptContact
 	goto st284
 tr452:
-//line sip.rl:450
+//line sip.rl:468
 value=&msg.Accept
 	goto st284
 tr470:
-//line sip.rl:452
+//line sip.rl:470
 value=&msg.AcceptEncoding
 	goto st284
 tr479:
-//line sip.rl:453
+//line sip.rl:471
 value=&msg.AcceptLanguage
 	goto st284
 tr490:
-//line sip.rl:456
+//line sip.rl:474
 value=&msg.AlertInfo
 	goto st284
 tr495:
-//line sip.rl:454
+//line sip.rl:472
 value=&msg.Allow
 	goto st284
 tr503:
-//line sip.rl:455
+//line sip.rl:473
 value=&msg.AllowEvents
 	goto st284
 tr523:
-//line sip.rl:457
+//line sip.rl:475
 value=&msg.AuthenticationInfo
 	goto st284
 tr533:
-//line sip.rl:458
+//line sip.rl:476
 value=&msg.Authorization
 	goto st284
 tr535:
-//line sip.rl:475
+//line sip.rl:493
 value=&msg.ReferredBy
 	goto st284
 tr565:
-//line sip.rl:462
+//line sip.rl:480
 value=&msg.CallInfo
 	goto st284
 tr598:
-//line sip.rl:459
+//line sip.rl:477
 value=&msg.ContentDisposition
 	goto st284
 tr607:
-//line sip.rl:461
+//line sip.rl:479
 value=&msg.ContentEncoding
 	goto st284
 tr617:
-//line sip.rl:460
+//line sip.rl:478
 value=&msg.ContentLanguage
 	goto st284
-tr652:
-//line sip.rl:463
+tr653:
+//line sip.rl:481
 value=&msg.Date
 	goto st284
-tr665:
-//line sip.rl:464
+tr666:
+//line sip.rl:482
 value=&msg.ErrorInfo
 	goto st284
-tr670:
-//line sip.rl:465
+tr671:
+//line sip.rl:483
 value=&msg.Event
 	goto st284
-tr699:
-//line sip.rl:466
+tr700:
+//line sip.rl:484
 value=&msg.InReplyTo
 	goto st284
-tr701:
-//line sip.rl:480
+tr702:
+//line sip.rl:498
 value=&msg.Supported
 	goto st284
-tr740:
-//line sip.rl:468
+tr741:
+//line sip.rl:486
 value=&msg.MIMEVersion
 	goto st284
-tr768:
-//line sip.rl:469
+tr769:
+//line sip.rl:487
 value=&msg.Organization
 	goto st284
-tr798:
-//line sip.rl:470
+tr799:
+//line sip.rl:488
 value=&msg.Priority
 	goto st284
-tr817:
-//line sip.rl:471
+tr818:
+//line sip.rl:489
 value=&msg.ProxyAuthenticate
 	goto st284
-tr827:
-//line sip.rl:472
+tr828:
+//line sip.rl:490
 value=&msg.ProxyAuthorization
 	goto st284
-tr835:
-//line sip.rl:473
+tr836:
+//line sip.rl:491
 value=&msg.ProxyRequire
 	goto st284
-tr837:
-//line sip.rl:474
+tr838:
+//line sip.rl:492
 value=&msg.ReferTo
 	goto st284
-tr887:
-//line sip.rl:467
+tr888:
+//line sip.rl:485
 value=&msg.ReplyTo
 	goto st284
-tr893:
-//line sip.rl:476
+tr894:
+//line sip.rl:494
 value=&msg.Require
 	goto st284
-tr903:
-//line sip.rl:477
+tr904:
+//line sip.rl:495
 value=&msg.RetryAfter
 	goto st284
-tr910:
-//line sip.rl:479
+tr911:
+//line sip.rl:497
 value=&msg.Subject
 	goto st284
-tr918:
-//line sip.rl:478
+tr919:
+//line sip.rl:496
 value=&msg.Server
 	goto st284
-tr942:
-//line sip.rl:481
+tr943:
+//line sip.rl:499
 value=&msg.Timestamp
 	goto st284
-tr944:
-//line sip.rl:454
+tr945:
+//line sip.rl:472
 value=&msg.Allow
-//line sip.rl:455
+//line sip.rl:473
 value=&msg.AllowEvents
 	goto st284
-tr957:
-//line sip.rl:482
+tr958:
+//line sip.rl:500
 value=&msg.Unsupported
 	goto st284
-tr967:
-//line sip.rl:483
+tr968:
+//line sip.rl:501
 value=&msg.UserAgent
 	goto st284
-tr984:
-//line sip.rl:484
+tr985:
+//line sip.rl:502
 value=&msg.Warning
 	goto st284
-tr1000:
-//line sip.rl:485
+tr1001:
+//line sip.rl:503
 value=&msg.WWWAuthenticate
 	goto st284
 	st284:
@@ -10313,7 +10329,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10324
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10341,7 +10357,7 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr559:
-//line sip.rl:257
+//line sip.rl:275
  {goto st280 } 
 	goto st781
 tr442:
@@ -10350,7 +10366,7 @@ tr442:
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:276
  {goto st263 } 
 	goto st781
 tr541:
@@ -10359,22 +10375,22 @@ tr541:
 	p--
 
 
-//line sip.rl:256
+//line sip.rl:274
  {goto st34 } 
 	goto st781
 tr576:
-//line sip.rl:534
+//line sip.rl:552
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:270
  {goto st256 } 
 	goto st781
-tr971:
-//line sip.rl:137
+tr972:
+//line sip.rl:143
 
 	via = new(Via)
 
@@ -10383,10 +10399,10 @@ tr971:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:277
  {goto st103 } 
 	goto st781
-tr1001:
+tr1002:
 //line sip.rl:76
 
 	{p++; cs = 781; goto _out }
@@ -10397,7 +10413,7 @@ tr1001:
 			goto _test_eof781
 		}
 	st_case_781:
-//line msg_parse.go:10392
+//line msg_parse.go:10408
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11637,7 +11653,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11648
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11776,13 +11792,13 @@ tr553:
 		}
 		goto st0
 tr557:
-//line sip.rl:220
+//line sip.rl:228
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
-//line sip.rl:236
+tr644:
+//line sip.rl:248
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11792,7 +11808,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11803
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11981,31 +11997,31 @@ tr643:
 		}
 		goto tr416
 tr572:
-//line sip.rl:437
+//line sip.rl:455
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
-//line sip.rl:438
+tr684:
+//line sip.rl:456
 addrp=lastAddr(&msg.From)
 	goto st394
-tr788:
-//line sip.rl:439
+tr789:
+//line sip.rl:457
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr855:
-//line sip.rl:440
+tr856:
+//line sip.rl:458
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr879:
-//line sip.rl:441
+tr880:
+//line sip.rl:459
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr907:
-//line sip.rl:442
+tr908:
+//line sip.rl:460
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr930:
-//line sip.rl:443
+tr931:
+//line sip.rl:461
 addrp=lastAddr(&msg.To)
 	goto st394
 	st394:
@@ -12013,7 +12029,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:12024
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12024,31 +12040,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr573:
-//line sip.rl:437
+//line sip.rl:455
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
-//line sip.rl:438
+tr685:
+//line sip.rl:456
 addrp=lastAddr(&msg.From)
 	goto st395
-tr789:
-//line sip.rl:439
+tr790:
+//line sip.rl:457
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr856:
-//line sip.rl:440
+tr857:
+//line sip.rl:458
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr880:
-//line sip.rl:441
+tr881:
+//line sip.rl:459
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr908:
-//line sip.rl:442
+tr909:
+//line sip.rl:460
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr931:
-//line sip.rl:443
+tr932:
+//line sip.rl:461
 addrp=lastAddr(&msg.To)
 	goto st395
 	st395:
@@ -12056,7 +12072,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12067
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12608,25 +12624,29 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr624:
-//line sip.rl:493
+//line sip.rl:511
 clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:232
+{
+	n, err := appendDigit(clen, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	clen = n
+}
 	goto st437
 tr626:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:232
+{
+	n, err := appendDigit(clen, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	clen = n
+}
 	goto st437
 	st437:
 		if p++; p == pe {
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12641
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12804,17 +12824,29 @@ tr626:
 		}
 		goto st0
 tr637:
-//line sip.rl:232
-
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:512
+msg.CSeq=0
+//line sip.rl:242
+{
+	n, err := appendDigit(msg.CSeq, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.CSeq = n
+}
+	goto st450
+tr640:
+//line sip.rl:242
+{
+	n, err := appendDigit(msg.CSeq, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.CSeq = n
+}
 	goto st450
 	st450:
 		if p++; p == pe {
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12841
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,7 +12863,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr640
 		}
 		goto st0
 	st451:
@@ -12852,13 +12884,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		case 525:
 			goto st453
 		}
@@ -12867,25 +12899,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
-tr641:
+tr642:
 //line sip.rl:80
 
 	mark = p
@@ -12896,7 +12928,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12923
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12914,7 +12946,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
@@ -12971,35 +13003,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
 	st456:
@@ -13081,11 +13113,11 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr652
 		case 32:
-			goto tr651
-		case 58:
 			goto tr652
+		case 58:
+			goto tr653
 		}
 		goto tr416
 	st463:
@@ -13214,11 +13246,11 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr665
 		case 32:
-			goto tr664
-		case 58:
 			goto tr665
+		case 58:
+			goto tr666
 		}
 		goto tr416
 	st473:
@@ -13264,11 +13296,11 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		}
 		goto tr416
 	st477:
@@ -13380,29 +13412,33 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
-tr678:
-//line sip.rl:495
+tr679:
+//line sip.rl:513
 msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:252
+{
+	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.Expires = n
+}
 	goto st485
-tr680:
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
+tr681:
+//line sip.rl:252
+{
+	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.Expires = n
+}
 	goto st485
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13433
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13414,7 +13450,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr681
 		}
 		goto st0
 	st486:
@@ -13450,7 +13486,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
 	st489:
@@ -13460,11 +13496,11 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		case 82:
 			goto st490
 		case 114:
@@ -13502,11 +13538,11 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr684
 		case 32:
-			goto tr683
-		case 58:
 			goto tr684
+		case 58:
+			goto tr685
 		}
 		goto tr416
 	st493:
@@ -13636,11 +13672,11 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr699
 		case 32:
-			goto tr698
-		case 58:
 			goto tr699
+		case 58:
+			goto tr700
 		}
 		goto tr416
 	st504:
@@ -13650,11 +13686,11 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr701
 		case 32:
-			goto tr700
-		case 58:
 			goto tr701
+		case 58:
+			goto tr702
 		}
 		goto tr416
 	st505:
@@ -13706,59 +13742,75 @@ tr680:
 			goto st509
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr704
+			goto tr705
 		}
 		goto st0
-tr704:
-//line sip.rl:493
+tr705:
+//line sip.rl:511
 clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:495
+//line sip.rl:232
+{
+	n, err := appendDigit(clen, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	clen = n
+}
+//line sip.rl:513
 msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
+//line sip.rl:252
+{
+	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.Expires = n
+}
+//line sip.rl:514
 msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
+//line sip.rl:515
 msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
 	goto st508
-tr706:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
+tr707:
+//line sip.rl:232
+{
+	n, err := appendDigit(clen, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	clen = n
+}
+//line sip.rl:252
+{
+	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.Expires = n
+}
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
 	goto st508
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
+//line msg_parse.go:13805
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13770,7 +13822,7 @@ tr706:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+			goto tr707
 		}
 		goto st0
 	st509:
@@ -13806,7 +13858,7 @@ tr706:
 			goto st511
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr704
+			goto tr705
 		}
 		goto st0
 	st512:
@@ -13997,29 +14049,33 @@ tr706:
 			goto st527
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr723
+			goto tr724
 		}
 		goto st0
-tr723:
-//line sip.rl:496
+tr724:
+//line sip.rl:514
 msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
 	goto st526
-tr725:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
+tr726:
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
 	goto st526
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
+//line msg_parse.go:14070
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14031,7 +14087,7 @@ tr725:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+			goto tr726
 		}
 		goto st0
 	st527:
@@ -14067,7 +14123,7 @@ tr725:
 			goto st529
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr723
+			goto tr724
 		}
 		goto st0
 	st530:
@@ -14198,11 +14254,11 @@ tr725:
 	st_case_540:
 		switch data[p] {
 		case 9:
-			goto tr739
+			goto tr740
 		case 32:
-			goto tr739
-		case 58:
 			goto tr740
+		case 58:
+			goto tr741
 		}
 		goto tr416
 	st541:
@@ -14347,29 +14403,33 @@ tr725:
 			goto st553
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr751
+			goto tr752
 		}
 		goto st0
-tr751:
-//line sip.rl:497
+tr752:
+//line sip.rl:515
 msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
 	goto st552
-tr753:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
+tr754:
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
 	goto st552
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
+//line msg_parse.go:14424
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14381,7 +14441,7 @@ tr753:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+			goto tr754
 		}
 		goto st0
 	st553:
@@ -14417,7 +14477,7 @@ tr753:
 			goto st555
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr751
+			goto tr752
 		}
 		goto st0
 	st556:
@@ -14427,11 +14487,11 @@ tr753:
 	st_case_556:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr670
 		case 32:
-			goto tr669
-		case 58:
 			goto tr670
+		case 58:
+			goto tr671
 		case 82:
 			goto st557
 		case 114:
@@ -14565,11 +14625,11 @@ tr753:
 	st_case_567:
 		switch data[p] {
 		case 9:
-			goto tr767
+			goto tr768
 		case 32:
-			goto tr767
-		case 58:
 			goto tr768
+		case 58:
+			goto tr769
 		}
 		goto tr416
 	st568:
@@ -14794,11 +14854,11 @@ tr753:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr788
+			goto tr789
 		case 32:
-			goto tr788
-		case 58:
 			goto tr789
+		case 58:
+			goto tr790
 		}
 		goto tr416
 	st587:
@@ -14884,11 +14944,11 @@ tr753:
 	st_case_593:
 		switch data[p] {
 		case 9:
-			goto tr797
+			goto tr798
 		case 32:
-			goto tr797
-		case 58:
 			goto tr798
+		case 58:
+			goto tr799
 		}
 		goto tr416
 	st594:
@@ -15083,11 +15143,11 @@ tr753:
 	st_case_609:
 		switch data[p] {
 		case 9:
-			goto tr816
+			goto tr817
 		case 32:
-			goto tr816
-		case 58:
 			goto tr817
+		case 58:
+			goto tr818
 		}
 		goto tr416
 	st610:
@@ -15193,11 +15253,11 @@ tr753:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr826
+			goto tr827
 		case 32:
-			goto tr826
-		case 58:
 			goto tr827
+		case 58:
+			goto tr828
 		}
 		goto tr416
 	st619:
@@ -15279,11 +15339,11 @@ tr753:
 	st_case_625:
 		switch data[p] {
 		case 9:
-			goto tr834
+			goto tr835
 		case 32:
-			goto tr834
-		case 58:
 			goto tr835
+		case 58:
+			goto tr836
 		}
 		goto tr416
 	st626:
@@ -15293,11 +15353,11 @@ tr753:
 	st_case_626:
 		switch data[p] {
 		case 9:
-			goto tr836
+			goto tr837
 		case 32:
-			goto tr836
-		case 58:
 			goto tr837
+		case 58:
+			goto tr838
 		case 69:
 			goto st627
 		case 79:
@@ -15452,11 +15512,11 @@ tr753:
 	st_case_637:
 		switch data[p] {
 		case 9:
-			goto tr855
+			goto tr856
 		case 32:
-			goto tr855
-		case 58:
 			goto tr856
+		case 58:
+			goto tr857
 		}
 		goto tr416
 	st638:
@@ -15528,11 +15588,11 @@ tr753:
 	st_case_643:
 		switch data[p] {
 		case 9:
-			goto tr836
+			goto tr837
 		case 32:
-			goto tr836
-		case 58:
 			goto tr837
+		case 58:
+			goto tr838
 		}
 		goto tr416
 	st644:
@@ -15737,11 +15797,11 @@ tr753:
 	st_case_661:
 		switch data[p] {
 		case 9:
-			goto tr879
+			goto tr880
 		case 32:
-			goto tr879
-		case 58:
 			goto tr880
+		case 58:
+			goto tr881
 		}
 		goto tr416
 	st662:
@@ -15808,11 +15868,11 @@ tr753:
 	st_case_667:
 		switch data[p] {
 		case 9:
-			goto tr886
+			goto tr887
 		case 32:
-			goto tr886
-		case 58:
 			goto tr887
+		case 58:
+			goto tr888
 		}
 		goto tr416
 	st668:
@@ -15870,11 +15930,11 @@ tr753:
 	st_case_672:
 		switch data[p] {
 		case 9:
-			goto tr892
+			goto tr893
 		case 32:
-			goto tr892
-		case 58:
 			goto tr893
+		case 58:
+			goto tr894
 		}
 		goto tr416
 	st673:
@@ -15977,11 +16037,11 @@ tr753:
 	st_case_681:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr903
 		case 32:
-			goto tr902
-		case 58:
 			goto tr903
+		case 58:
+			goto tr904
 		}
 		goto tr416
 	st682:
@@ -16027,11 +16087,11 @@ tr753:
 	st_case_685:
 		switch data[p] {
 		case 9:
-			goto tr907
+			goto tr908
 		case 32:
-			goto tr907
-		case 58:
 			goto tr908
+		case 58:
+			goto tr909
 		}
 		goto tr416
 	st686:
@@ -16041,11 +16101,11 @@ tr753:
 	st_case_686:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		case 69:
 			goto st687
 		case 85:
@@ -16111,11 +16171,11 @@ tr753:
 	st_case_691:
 		switch data[p] {
 		case 9:
-			goto tr917
+			goto tr918
 		case 32:
-			goto tr917
-		case 58:
 			goto tr918
+		case 58:
+			goto tr919
 		}
 		goto tr416
 	st692:
@@ -16189,11 +16249,11 @@ tr753:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		}
 		goto tr416
 	st698:
@@ -16275,11 +16335,11 @@ tr753:
 	st_case_704:
 		switch data[p] {
 		case 9:
-			goto tr930
+			goto tr931
 		case 32:
-			goto tr930
-		case 58:
 			goto tr931
+		case 58:
+			goto tr932
 		case 73:
 			goto st705
 		case 79:
@@ -16381,11 +16441,11 @@ tr753:
 	st_case_712:
 		switch data[p] {
 		case 9:
-			goto tr941
+			goto tr942
 		case 32:
-			goto tr941
-		case 58:
 			goto tr942
+		case 58:
+			goto tr943
 		}
 		goto tr416
 	st713:
@@ -16395,11 +16455,11 @@ tr753:
 	st_case_713:
 		switch data[p] {
 		case 9:
-			goto tr930
+			goto tr931
 		case 32:
-			goto tr930
-		case 58:
 			goto tr931
+		case 58:
+			goto tr932
 		}
 		goto tr416
 	st714:
@@ -16409,11 +16469,11 @@ tr753:
 	st_case_714:
 		switch data[p] {
 		case 9:
-			goto tr943
+			goto tr944
 		case 32:
-			goto tr943
-		case 58:
 			goto tr944
+		case 58:
+			goto tr945
 		case 78:
 			goto st715
 		case 83:
@@ -16539,11 +16599,11 @@ tr753:
 	st_case_724:
 		switch data[p] {
 		case 9:
-			goto tr956
+			goto tr957
 		case 32:
-			goto tr956
-		case 58:
 			goto tr957
+		case 58:
+			goto tr958
 		}
 		goto tr416
 	st725:
@@ -16646,11 +16706,11 @@ tr753:
 	st_case_733:
 		switch data[p] {
 		case 9:
-			goto tr966
+			goto tr967
 		case 32:
-			goto tr966
-		case 58:
 			goto tr967
+		case 58:
+			goto tr968
 		}
 		goto tr416
 	st734:
@@ -16703,17 +16763,17 @@ tr753:
 		case 32:
 			goto st736
 		case 269:
-			goto tr971
+			goto tr972
 		case 525:
 			goto st737
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr971
+				goto tr972
 			}
 		default:
-			goto tr971
+			goto tr972
 		}
 		goto st0
 	st737:
@@ -16748,7 +16808,7 @@ tr753:
 		case 32:
 			goto st739
 		}
-		goto tr971
+		goto tr972
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
@@ -16858,11 +16918,11 @@ tr753:
 	st_case_748:
 		switch data[p] {
 		case 9:
-			goto tr983
+			goto tr984
 		case 32:
-			goto tr983
-		case 58:
 			goto tr984
+		case 58:
+			goto tr985
 		}
 		goto tr416
 	st749:
@@ -17037,11 +17097,11 @@ tr753:
 	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr999
+			goto tr1000
 		case 32:
-			goto tr999
-		case 58:
 			goto tr1000
+		case 58:
+			goto tr1001
 		}
 		goto tr416
 	st764:
@@ -17050,7 +17110,7 @@ tr753:
 		}
 	st_case_764:
 		if data[p] == 10 {
-			goto tr1001
+			goto tr1002
 		}
 		goto st0
 	st_out:
@@ -17839,13 +17899,13 @@ tr753:
 	if p == eof {
 		switch cs {
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
-//line sip.rl:171
+//line sip.rl:179
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17900
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..379283a 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -113,22 +113,28 @@ action Method {
 	msg.Method = string(data[mark:p])
 }
 
-action VersionMajor {
-	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
-}
+action VersionMajor {{
+	n, err := appendDigit(int(msg.VersionMajor), fc, 255)
+	if err != nil { return nil, err }
+	msg.VersionMajor = uint8(n)
+}}
 
-action VersionMinor {
-	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
-}
+action VersionMinor {{
+	n, err := appendDigit(int(msg.VersionMinor), fc, 255)
+	if err != nil { return nil, err }
+	msg.VersionMinor = uint8(n)
+}}
 
 action RequestURI {
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 }
 
-action StatusCode {
-	msg.Status = msg.Status * 10 + (int(fc) - 0x30)
-}
+action StatusCode {{
+	n, err := appendDigit(msg.Status, fc, 999)
+	if err != nil { return nil, err }
+	msg.Status = n
+}}
 
 action ReasonPhrase {
 	msg.Phrase = string(buf[0:amt])
@@ -160,9 +166,11 @@ action ViaHost {
 	via.Host = string(data[mark:p])
 }
 
-action ViaPort {
-	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
-}
+action ViaPort {{
+	n, err := appendDigit(int(via.Port), fc, 65535)
+	if err != nil { return nil, err }
+	via.Port = uint16(n)
+}}
 
 action ViaParam {
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
@@ -221,33 +229,43 @@ action CallID {
 	msg.CallID = string(data[mark:p])
 }
 
-action ContentLength {
-	clen = clen * 10 + (int(fc) - 0x30)
-}
+action ContentLength {{
+	n, err := appendDigit(clen, fc, 1<<31 - 1)
+	if err != nil { return nil, err }
+	clen = n
+}}
 
 action ContentType {
 	ctype = string(data[mark:p])
 }
 
-action CSeq {
-	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
-}
+action CSeq {{
+	n, err := appendDigit(msg.CSeq, fc, 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.CSeq = n
+}}
 
 action CSeqMethod {
 	msg.CSeqMethod = string(data[mark:p])
 }
 
-action Expires {
-	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
-}
+action Expires {{
+	n, err := appendDigit(msg.Expires, fc, 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.Expires = n
+}}
 
-action MaxForwards {
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
-}
+action MaxForwards {{
+	n, err := appendDigit(msg.MaxForwards, fc, 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}}
 
-action MinExpires {
-	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
-}
+action MinExpires {{
+	n, err := appendDigit(msg.MinExpires, fc, 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}}
 
 action goto_addr { fgoto addr; }
 action goto_addr_angled { fgoto addr_angled; }
@@ -491,7 +509,7 @@ sname    = "Accept"i %{value=&msg.Accept}
 # their own special type of parsing.
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
-         | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
+         | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
          | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
          | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
          | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..33ed5ad 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -53,7 +53,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	var hex byte
 
 	
-//line uri_parse.rl:161
+//line uri_parse.rl:163
 
 
 	
@@ -62,7 +62,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	cs = uri_start
 	}
 
-//line uri_parse.rl:164
+//line uri_parse.rl:166
 	if bytes.IndexByte(data, '@') == -1 {
 		cs = uri_en_uriSansUser;
 	} else {
@@ -214,7 +214,7 @@ tr0:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -225,7 +225,7 @@ tr0:
 		
 	goto st2
 tr2:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -620,7 +620,7 @@ tr19:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -631,7 +631,7 @@ tr19:
 		
 	goto st45
 tr66:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -693,16 +693,18 @@ tr67:
 		goto st0
 tr21:
 //line uri_parse.rl:86
-
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
-		
+{
+			n, err := appendDigit(int(uri.Port), data[p], 65535)
+			if err != nil { return nil, err }
+			uri.Port = uint16(n)
+		}
 	goto st46
 	st46:
 		if p++; p == pe {
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:698
+//line uri_parse.go:700
 		switch data[p] {
 		case 59:
 			goto st13
@@ -720,23 +722,23 @@ tr68:
 		
 	goto st13
 tr74:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
 tr79:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -746,7 +748,7 @@ tr79:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:742
+//line uri_parse.go:744
 		switch data[p] {
 		case 33:
 			goto tr22
@@ -797,7 +799,7 @@ tr22:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -813,7 +815,7 @@ tr22:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:809
+//line uri_parse.go:811
 		switch data[p] {
 		case 33:
 			goto tr72
@@ -855,7 +857,7 @@ tr23:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -866,7 +868,7 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:862
+//line uri_parse.go:864
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -891,7 +893,7 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:887
+//line uri_parse.go:889
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -906,7 +908,7 @@ tr24:
 		}
 		goto st0
 tr75:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -917,7 +919,7 @@ tr75:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:913
+//line uri_parse.go:915
 		switch data[p] {
 		case 33:
 			goto tr26
@@ -979,7 +981,7 @@ tr29:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:975
+//line uri_parse.go:977
 		switch data[p] {
 		case 33:
 			goto tr77
@@ -1025,7 +1027,7 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1021
+//line uri_parse.go:1023
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1050,7 +1052,7 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1046
+//line uri_parse.go:1048
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1071,45 +1073,45 @@ tr69:
 		
 	goto st19
 tr76:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr80:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr83:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
 tr87:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -1119,7 +1121,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1115
+//line uri_parse.go:1117
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1174,7 +1176,7 @@ tr30:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1190,7 +1192,7 @@ tr30:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1186
+//line uri_parse.go:1188
 		switch data[p] {
 		case 33:
 			goto tr81
@@ -1232,7 +1234,7 @@ tr31:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1243,7 +1245,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1239
+//line uri_parse.go:1241
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1268,7 +1270,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1264
+//line uri_parse.go:1266
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1283,7 +1285,7 @@ tr32:
 		}
 		goto st0
 tr84:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1294,7 +1296,7 @@ tr84:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1290
+//line uri_parse.go:1292
 		switch data[p] {
 		case 33:
 			goto tr34
@@ -1360,7 +1362,7 @@ tr37:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1356
+//line uri_parse.go:1358
 		switch data[p] {
 		case 33:
 			goto tr85
@@ -1406,7 +1408,7 @@ tr35:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1402
+//line uri_parse.go:1404
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1431,7 +1433,7 @@ tr36:
 			goto _test_eof24
 		}
 	st_case_24:
-//line uri_parse.go:1427
+//line uri_parse.go:1429
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1471,7 +1473,7 @@ tr38:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1482,7 +1484,7 @@ tr38:
 		
 	goto st26
 tr39:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1497,7 +1499,7 @@ tr39:
 			goto _test_eof26
 		}
 	st_case_26:
-//line uri_parse.go:1493
+//line uri_parse.go:1495
 		switch data[p] {
 		case 46:
 			goto tr39
@@ -1528,7 +1530,7 @@ tr40:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1524
+//line uri_parse.go:1526
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1553,7 +1555,7 @@ tr41:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1564,7 +1566,7 @@ tr41:
 		
 	goto st28
 tr42:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1579,7 +1581,7 @@ tr42:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1575
+//line uri_parse.go:1577
 		switch data[p] {
 		case 43:
 			goto tr42
@@ -1615,7 +1617,7 @@ tr43:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1611
+//line uri_parse.go:1613
 		switch data[p] {
 		case 43:
 			goto tr44
@@ -1645,7 +1647,7 @@ tr44:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1656,7 +1658,7 @@ tr44:
 		
 	goto st52
 tr89:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1671,7 +1673,7 @@ tr89:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1667
+//line uri_parse.go:1669
 		switch data[p] {
 		case 43:
 			goto tr89
@@ -1711,23 +1713,25 @@ tr90:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1707
+//line uri_parse.go:1709
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr46
 		}
 		goto st0
 tr46:
 //line uri_parse.rl:86
-
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
-		
+{
+			n, err := appendDigit(int(uri.Port), data[p], 65535)
+			if err != nil { return nil, err }
+			uri.Port = uint16(n)
+		}
 	goto st53
 	st53:
 		if p++; p == pe {
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1723
+//line uri_parse.go:1727
 		switch data[p] {
 		case 59:
 			goto st31
@@ -1745,23 +1749,23 @@ tr91:
 		
 	goto st31
 tr97:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st31
 tr102:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -1771,7 +1775,7 @@ tr102:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1767
+//line uri_parse.go:1771
 		switch data[p] {
 		case 33:
 			goto tr47
@@ -1822,7 +1826,7 @@ tr47:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1838,7 +1842,7 @@ tr47:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:1834
+//line uri_parse.go:1838
 		switch data[p] {
 		case 33:
 			goto tr95
@@ -1880,7 +1884,7 @@ tr48:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1891,7 +1895,7 @@ tr48:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1887
+//line uri_parse.go:1891
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1916,7 +1920,7 @@ tr49:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1912
+//line uri_parse.go:1916
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1931,7 +1935,7 @@ tr49:
 		}
 		goto st0
 tr98:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1942,7 +1946,7 @@ tr98:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:1938
+//line uri_parse.go:1942
 		switch data[p] {
 		case 33:
 			goto tr51
@@ -2004,7 +2008,7 @@ tr54:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2000
+//line uri_parse.go:2004
 		switch data[p] {
 		case 33:
 			goto tr100
@@ -2050,7 +2054,7 @@ tr52:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2046
+//line uri_parse.go:2050
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2075,7 +2079,7 @@ tr53:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2071
+//line uri_parse.go:2075
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2096,45 +2100,45 @@ tr92:
 		
 	goto st37
 tr99:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr103:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr106:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st37
 tr110:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -2144,7 +2148,7 @@ tr110:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2140
+//line uri_parse.go:2144
 		switch data[p] {
 		case 33:
 			goto tr55
@@ -2199,7 +2203,7 @@ tr55:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2215,7 +2219,7 @@ tr55:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2211
+//line uri_parse.go:2215
 		switch data[p] {
 		case 33:
 			goto tr104
@@ -2257,7 +2261,7 @@ tr56:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2268,7 +2272,7 @@ tr56:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2264
+//line uri_parse.go:2268
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2293,7 +2297,7 @@ tr57:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2289
+//line uri_parse.go:2293
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2308,7 +2312,7 @@ tr57:
 		}
 		goto st0
 tr107:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -2319,7 +2323,7 @@ tr107:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2315
+//line uri_parse.go:2319
 		switch data[p] {
 		case 33:
 			goto tr59
@@ -2385,7 +2389,7 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2381
+//line uri_parse.go:2385
 		switch data[p] {
 		case 33:
 			goto tr108
@@ -2431,7 +2435,7 @@ tr60:
 			goto _test_eof41
 		}
 	st_case_41:
-//line uri_parse.go:2427
+//line uri_parse.go:2431
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2456,7 +2460,7 @@ tr61:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2452
+//line uri_parse.go:2456
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2496,7 +2500,7 @@ tr63:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2507,7 +2511,7 @@ tr63:
 		
 	goto st44
 tr64:
-//line uri_parse.rl:100
+//line uri_parse.rl:102
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2522,7 +2526,7 @@ tr64:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:2518
+//line uri_parse.go:2522
 		switch data[p] {
 		case 46:
 			goto tr64
@@ -2553,7 +2557,7 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2549
+//line uri_parse.go:2553
 		switch data[p] {
 		case 58:
 			goto st30
@@ -2630,53 +2634,53 @@ tr65:
 			uri.Host = string(buf[0:amt])
 		
 		case 47, 54:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 49, 56:
-//line uri_parse.rl:90
+//line uri_parse.rl:92
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 		case 48, 55:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:111
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 50, 57:
-//line uri_parse.rl:95
+//line uri_parse.rl:97
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:115
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2665
+//line uri_parse.go:2669
 		}
 	}
 
 	_out: {}
 	}
 
-//line uri_parse.rl:170
+//line uri_parse.rl:172
 
 	if cs < uri_first_final {
 		if p == pe {
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..a87e6f4 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -83,9 +83,11 @@ func ParseURI(data []byte) (uri *URI, err error) {
 			uri.Host = string(buf[0:amt])
 		}
 
-		action port {
-			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
-		}
+		action port {{
+			n, err := appendDigit(int(uri.Port), fc, 65535)
+			if err != nil { return nil, err }
+			uri.Port = uint16(n)
+		}}
 
 		action b1 {
 			b1 = string(buf[0:amt])
diff --git a/sip/util.go b/sip/util.go
index ffc91c9..46059a6 100644
--- a/sip/util.go
+++ b/sip/util.go
@@ -14,6 +14,10 @@
 
 package sip
 
+import (
+	"errors"
+)
+
 func unhex(b byte) byte {
 	switch {
 	case '0' <= b && b <= '9':
@@ -25,3 +29,13 @@ func unhex(b byte) byte {
 	}
 	return 0
 }
+
+// appendDigit returns n followed by the decimal digit c, or an error if that
+// is more than max or more than an int can hold.
+func appendDigit(n int, c byte, max int64) (int, error) {
+	v := int64(n)*10 + int64(c-'0')
+	if v > max || int64(int(v)) != v {
+		return 0, errors.New("number too large")
+	}
+	return int(v), nil
+}
-- 
2.43.0


From 565dd3770df09177e2ab7b3e3b4d78d2e1382143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 25/35] fix: accept unknown headers whose name is the start of
 a known one

---
 sip/msg_parse.go | 8 ++++----
 sip/sip.rl       | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index d4784a1..fecd118 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1693,7 +1693,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 tr416:
 //line sip.rl:179
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
@@ -9794,7 +9794,7 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:550
+//line sip.rl:551
 value=nil
 //line sip.rl:72
 
@@ -10379,7 +10379,7 @@ tr541:
  {goto st34 } 
 	goto st781
 tr576:
-//line sip.rl:552
+//line sip.rl:553
 value=nil
 //line sip.rl:72
 
@@ -17901,7 +17901,7 @@ tr754:
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
 //line sip.rl:179
 
-	p--
+	p = ( mark) - 1
 
 	{goto st273 }
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 379283a..068caf8 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -177,7 +177,7 @@ action ViaParam {
 }
 
 action gxh {
-	fhold;
+	fexec mark;
 	fgoto xheader;
 }
 
@@ -524,7 +524,8 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # Parsing standard header names is a prefix trie search in generated code.
 # Lookahead to set the mark on the header name. In order to support
 # extended headers, we'll use $!gxh to jump to the xheader machine when an
-# unrecognized character is detected in the header name.
+# unrecognized character is detected in the header name, which is then read
+# again from its start.
 #
 # An independent machine has been created for generic header values, so
 # that it doesn't need to be duplicated for each leaf in the prefix
-- 
2.43.0


From 5d1a75710210d6ef19ff584e9e43290086416990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 26/35] fix: give each compact header name to one header

---
 sip/msg_parse.go | 2935 +++++++++++++++++++++-------------------------
 sip/sip.rl       |    8 +-
 2 files changed, 1371 insertions(+), 1572 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index fecd118..4e9c4bb 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 765
+const msg_first_final int = 758
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 765:
-		goto st_case_765
+	case 758:
+		goto st_case_758
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 766:
-		goto st_case_766
+	case 759:
+		goto st_case_759
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 767:
-		goto st_case_767
+	case 760:
+		goto st_case_760
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 768:
-		goto st_case_768
+	case 761:
+		goto st_case_761
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 769:
-		goto st_case_769
+	case 762:
+		goto st_case_762
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 770:
-		goto st_case_770
+	case 763:
+		goto st_case_763
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 771:
-		goto st_case_771
+	case 764:
+		goto st_case_764
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 772:
-		goto st_case_772
+	case 765:
+		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 773:
-		goto st_case_773
+	case 766:
+		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 774:
-		goto st_case_774
+	case 767:
+		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
+	case 768:
+		goto st_case_768
+	case 769:
+		goto st_case_769
+	case 770:
+		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 778:
-		goto st_case_778
+	case 771:
+		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 779:
-		goto st_case_779
+	case 772:
+		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -672,8 +672,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 780:
-		goto st_case_780
+	case 773:
+		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -690,8 +690,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 781:
-		goto st_case_781
+	case 774:
+		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1638,20 +1638,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_756
 	case 757:
 		goto st_case_757
-	case 758:
-		goto st_case_758
-	case 759:
-		goto st_case_759
-	case 760:
-		goto st_case_760
-	case 761:
-		goto st_case_761
-	case 762:
-		goto st_case_762
-	case 763:
-		goto st_case_763
-	case 764:
-		goto st_case_764
 	}
 	goto st_out
 	st_case_1:
@@ -1698,7 +1684,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1679
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1700,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1695
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1747,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1742
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1763,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1758
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1780,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1775
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1848,7 +1834,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1843
+//line msg_parse.go:1829
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1878,7 +1864,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1873
+//line msg_parse.go:1859
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1904,7 +1890,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1899
+//line msg_parse.go:1885
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1912,13 +1898,13 @@ tr42:
 tr16:
 //line sip.rl:275
  {goto st280 } 
-	goto st765
-	st765:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof758
 		}
-	st_case_765:
-//line msg_parse.go:1913
+	st_case_758:
+//line msg_parse.go:1899
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1931,7 +1917,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1926
+//line msg_parse.go:1912
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2070,7 +2056,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2065
+//line msg_parse.go:2051
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2100,7 +2086,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2095
+//line msg_parse.go:2081
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2130,7 +2116,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2125
+//line msg_parse.go:2111
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2148,7 +2134,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2143
+//line msg_parse.go:2129
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2166,7 +2152,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2161
+//line msg_parse.go:2147
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2260,7 +2246,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2255
+//line msg_parse.go:2241
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2334,7 +2320,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2329
+//line msg_parse.go:2315
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2359,7 +2345,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2354
+//line msg_parse.go:2340
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2396,7 +2382,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2391
+//line msg_parse.go:2377
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2424,7 +2410,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2419
+//line msg_parse.go:2405
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2452,7 +2438,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2447
+//line msg_parse.go:2433
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2480,7 +2466,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2475
+//line msg_parse.go:2461
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2508,7 +2494,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2503
+//line msg_parse.go:2489
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2562,7 +2548,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2557
+//line msg_parse.go:2543
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2697,7 +2683,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2692
+//line msg_parse.go:2678
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2727,7 +2713,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2722
+//line msg_parse.go:2708
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2969,7 +2955,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2964
+//line msg_parse.go:2950
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2977,13 +2963,13 @@ tr51:
 tr65:
 //line sip.rl:275
  {goto st280 } 
-	goto st766
-	st766:
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof759
 		}
-	st_case_766:
-//line msg_parse.go:2978
+	st_case_759:
+//line msg_parse.go:2964
 		goto st0
 tr52:
 //line sip.rl:238
@@ -2996,7 +2982,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2991
+//line msg_parse.go:2977
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3099,7 +3085,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3094
+//line msg_parse.go:3080
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3155,7 +3141,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3150
+//line msg_parse.go:3136
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3187,7 +3173,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3182
+//line msg_parse.go:3168
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3224,7 +3210,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3219
+//line msg_parse.go:3205
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3252,7 +3238,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3247
+//line msg_parse.go:3233
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3280,7 +3266,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3275
+//line msg_parse.go:3261
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3308,7 +3294,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3303
+//line msg_parse.go:3289
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3336,7 +3322,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3331
+//line msg_parse.go:3317
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3364,7 +3350,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3359
+//line msg_parse.go:3345
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3381,7 +3367,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3376
+//line msg_parse.go:3362
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3605,7 +3591,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3600
+//line msg_parse.go:3586
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3666,7 +3652,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3661
+//line msg_parse.go:3647
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3700,7 +3686,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3695
+//line msg_parse.go:3681
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3749,7 +3735,7 @@ tr106:
 
 //line sip.rl:277
  {goto st103 } 
-	goto st767
+	goto st760
 tr110:
 //line sip.rl:175
 
@@ -3766,7 +3752,7 @@ tr110:
 
 //line sip.rl:278
  {goto st68 } 
-	goto st767
+	goto st760
 tr122:
 //line sip.rl:175
 
@@ -3780,13 +3766,13 @@ tr122:
 
 //line sip.rl:275
  {goto st280 } 
-	goto st767
-	st767:
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof760
 		}
-	st_case_767:
-//line msg_parse.go:3781
+	st_case_760:
+//line msg_parse.go:3767
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3832,7 +3818,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3827
+//line msg_parse.go:3813
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3903,7 +3889,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3898
+//line msg_parse.go:3884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3966,7 +3952,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3961
+//line msg_parse.go:3947
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4089,7 +4075,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4084
+//line msg_parse.go:4070
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4166,7 +4152,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4161
+//line msg_parse.go:4147
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4222,7 +4208,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4217
+//line msg_parse.go:4203
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4256,7 +4242,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4251
+//line msg_parse.go:4237
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4293,7 +4279,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4288
+//line msg_parse.go:4274
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4321,7 +4307,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4316
+//line msg_parse.go:4302
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4349,7 +4335,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4344
+//line msg_parse.go:4330
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4377,7 +4363,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4372
+//line msg_parse.go:4358
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4405,7 +4391,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4400
+//line msg_parse.go:4386
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4433,7 +4419,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4428
+//line msg_parse.go:4414
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4450,7 +4436,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4445
+//line msg_parse.go:4431
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4536,7 +4522,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4531
+//line msg_parse.go:4517
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4620,7 +4606,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4615
+//line msg_parse.go:4601
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4675,7 +4661,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4670
+//line msg_parse.go:4656
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4705,7 +4691,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4700
+//line msg_parse.go:4686
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4763,7 +4749,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4758
+//line msg_parse.go:4744
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4818,7 +4804,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4813
+//line msg_parse.go:4799
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4848,7 +4834,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4843
+//line msg_parse.go:4829
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4906,7 +4892,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4901
+//line msg_parse.go:4887
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4964,7 +4950,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4959
+//line msg_parse.go:4945
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5011,7 +4997,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:5006
+//line msg_parse.go:4992
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5064,7 +5050,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5059
+//line msg_parse.go:5045
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5098,7 +5084,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5093
+//line msg_parse.go:5079
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5143,7 +5129,7 @@ tr184:
 
 //line sip.rl:277
  {goto st103 } 
-	goto st768
+	goto st761
 tr193:
 //line sip.rl:72
 
@@ -5156,7 +5142,7 @@ tr193:
 
 //line sip.rl:278
  {goto st68 } 
-	goto st768
+	goto st761
 tr199:
 //line sip.rl:147
 
@@ -5166,13 +5152,13 @@ tr199:
 
 //line sip.rl:275
  {goto st280 } 
-	goto st768
-	st768:
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof761
 		}
-	st_case_768:
-//line msg_parse.go:5167
+	st_case_761:
+//line msg_parse.go:5153
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5218,7 +5204,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5213
+//line msg_parse.go:5199
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5251,7 +5237,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5246
+//line msg_parse.go:5232
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5313,7 +5299,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5308
+//line msg_parse.go:5294
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5421,7 +5407,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5416
+//line msg_parse.go:5402
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5473,7 +5459,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5468
+//line msg_parse.go:5454
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5540,7 +5526,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5535
+//line msg_parse.go:5521
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5571,7 +5557,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5566
+//line msg_parse.go:5552
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5607,7 +5593,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5602
+//line msg_parse.go:5588
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5729,7 +5715,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5724
+//line msg_parse.go:5710
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5834,7 +5820,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5829
+//line msg_parse.go:5815
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5918,7 +5904,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5913
+//line msg_parse.go:5899
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5979,7 +5965,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5974
+//line msg_parse.go:5960
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6013,7 +5999,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:6008
+//line msg_parse.go:5994
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6058,7 +6044,7 @@ tr230:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st769
+	goto st762
 tr234:
 //line sip.rl:218
 
@@ -6071,7 +6057,7 @@ tr234:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st769
+	goto st762
 tr246:
 //line sip.rl:218
 
@@ -6085,13 +6071,13 @@ tr246:
 
 //line sip.rl:275
  {goto st280 } 
-	goto st769
-	st769:
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof762
 		}
-	st_case_769:
-//line msg_parse.go:6086
+	st_case_762:
+//line msg_parse.go:6072
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6137,7 +6123,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6132
+//line msg_parse.go:6118
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6208,7 +6194,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6203
+//line msg_parse.go:6189
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6271,7 +6257,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6266
+//line msg_parse.go:6252
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6394,7 +6380,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6389
+//line msg_parse.go:6375
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6471,7 +6457,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6466
+//line msg_parse.go:6452
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6527,7 +6513,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6522
+//line msg_parse.go:6508
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6561,7 +6547,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6556
+//line msg_parse.go:6542
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6598,7 +6584,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6593
+//line msg_parse.go:6579
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6626,7 +6612,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6621
+//line msg_parse.go:6607
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6654,7 +6640,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6649
+//line msg_parse.go:6635
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6682,7 +6668,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6677
+//line msg_parse.go:6663
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6710,7 +6696,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6705
+//line msg_parse.go:6691
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6738,7 +6724,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6733
+//line msg_parse.go:6719
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6755,7 +6741,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6750
+//line msg_parse.go:6736
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6841,7 +6827,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6836
+//line msg_parse.go:6822
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6942,7 +6928,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6937
+//line msg_parse.go:6923
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6982,7 +6968,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6977
+//line msg_parse.go:6963
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -7003,7 +6989,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6998
+//line msg_parse.go:6984
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7100,7 +7086,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7095
+//line msg_parse.go:7081
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7168,7 +7154,7 @@ tr285:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st770
+	goto st763
 tr289:
 //line sip.rl:72
 
@@ -7177,7 +7163,7 @@ tr289:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st770
+	goto st763
 tr293:
 //line sip.rl:222
 
@@ -7187,13 +7173,13 @@ tr293:
 
 //line sip.rl:275
  {goto st280 } 
-	goto st770
-	st770:
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof763
 		}
-	st_case_770:
-//line msg_parse.go:7188
+	st_case_763:
+//line msg_parse.go:7174
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7407,7 +7393,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7402
+//line msg_parse.go:7388
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7449,7 +7435,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7444
+//line msg_parse.go:7430
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7511,7 +7497,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7506
+//line msg_parse.go:7492
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7575,7 +7561,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7570
+//line msg_parse.go:7556
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7607,7 +7593,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7602
+//line msg_parse.go:7588
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7667,7 +7653,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7662
+//line msg_parse.go:7648
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7735,7 +7721,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7730
+//line msg_parse.go:7716
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7791,7 +7777,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7786
+//line msg_parse.go:7772
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7821,7 +7807,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7816
+//line msg_parse.go:7802
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7858,7 +7844,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7853
+//line msg_parse.go:7839
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7886,7 +7872,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7881
+//line msg_parse.go:7867
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7914,7 +7900,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7909
+//line msg_parse.go:7895
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7942,7 +7928,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7937
+//line msg_parse.go:7923
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7970,7 +7956,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7965
+//line msg_parse.go:7951
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7998,7 +7984,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7993
+//line msg_parse.go:7979
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -8015,7 +8001,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:8010
+//line msg_parse.go:7996
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8157,7 +8143,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8152
+//line msg_parse.go:8138
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8223,7 +8209,7 @@ tr345:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st771
+	goto st764
 tr349:
 //line sip.rl:72
 
@@ -8232,7 +8218,7 @@ tr349:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st771
+	goto st764
 tr375:
 //line sip.rl:222
 
@@ -8242,13 +8228,13 @@ tr375:
 
 //line sip.rl:275
  {goto st280 } 
-	goto st771
-	st771:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof764
 		}
-	st_case_771:
-//line msg_parse.go:8243
+	st_case_764:
+//line msg_parse.go:8229
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8359,7 +8345,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8354
+//line msg_parse.go:8340
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8404,7 +8390,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8399
+//line msg_parse.go:8385
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8470,7 +8456,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8465
+//line msg_parse.go:8451
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8515,13 +8501,13 @@ tr361:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st772
-	st772:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof765
 		}
-	st_case_772:
-//line msg_parse.go:8516
+	st_case_765:
+//line msg_parse.go:8502
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8560,7 +8546,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8555
+//line msg_parse.go:8541
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8607,7 +8593,7 @@ tr356:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st773
+	goto st766
 tr366:
 //line sip.rl:72
 
@@ -8616,13 +8602,13 @@ tr366:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st773
-	st773:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof766
 		}
-	st_case_773:
-//line msg_parse.go:8617
+	st_case_766:
+//line msg_parse.go:8603
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8679,7 +8665,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8674
+//line msg_parse.go:8660
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8745,7 +8731,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8740
+//line msg_parse.go:8726
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8784,13 +8770,13 @@ tr371:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st774
-	st774:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof767
 		}
-	st_case_774:
-//line msg_parse.go:8785
+	st_case_767:
+//line msg_parse.go:8771
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8829,7 +8815,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8824
+//line msg_parse.go:8810
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8875,13 +8861,13 @@ tr367:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st775
-	st775:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof775
+			goto _test_eof768
 		}
-	st_case_775:
-//line msg_parse.go:8876
+	st_case_768:
+//line msg_parse.go:8862
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8954,13 +8940,13 @@ tr357:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st776
-	st776:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof776
+			goto _test_eof769
 		}
-	st_case_776:
-//line msg_parse.go:8955
+	st_case_769:
+//line msg_parse.go:8941
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9033,7 +9019,7 @@ tr358:
 
 //line sip.rl:270
  {goto st256 } 
-	goto st777
+	goto st770
 tr368:
 //line sip.rl:213
 
@@ -9047,13 +9033,13 @@ tr368:
 
 //line sip.rl:272
  {goto st153 } 
-	goto st777
-	st777:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof777
+			goto _test_eof770
 		}
-	st_case_777:
-//line msg_parse.go:9048
+	st_case_770:
+//line msg_parse.go:9034
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9070,7 +9056,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9065
+//line msg_parse.go:9051
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9132,7 +9118,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9127
+//line msg_parse.go:9113
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9244,7 +9230,7 @@ tr377:
 
 //line sip.rl:271
  {goto st188 } 
-	goto st778
+	goto st771
 tr382:
 //line sip.rl:197
 
@@ -9257,7 +9243,7 @@ tr382:
 
 //line sip.rl:271
  {goto st188 } 
-	goto st778
+	goto st771
 tr386:
 //line sip.rl:197
 
@@ -9270,13 +9256,13 @@ tr386:
 
 //line sip.rl:273
  {goto st229 } 
-	goto st778
-	st778:
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof778
+			goto _test_eof771
 		}
-	st_case_778:
-//line msg_parse.go:9271
+	st_case_771:
+//line msg_parse.go:9257
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9354,7 +9340,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9349
+//line msg_parse.go:9335
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9465,7 +9451,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9460
+//line msg_parse.go:9446
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9519,7 +9505,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9514
+//line msg_parse.go:9500
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9535,7 +9521,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9530
+//line msg_parse.go:9516
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9551,7 +9537,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9546
+//line msg_parse.go:9532
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9567,7 +9553,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9562
+//line msg_parse.go:9548
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9583,7 +9569,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9578
+//line msg_parse.go:9564
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9599,7 +9585,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9594
+//line msg_parse.go:9580
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9616,13 +9602,13 @@ tr403:
 }
 //line sip.rl:275
  {goto st280 } 
-	goto st779
-	st779:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof779
+			goto _test_eof772
 		}
-	st_case_779:
-//line msg_parse.go:9617
+	st_case_772:
+//line msg_parse.go:9603
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9635,7 +9621,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9630
+//line msg_parse.go:9616
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9745,7 +9731,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9740
+//line msg_parse.go:9726
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9766,7 +9752,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9761
+//line msg_parse.go:9747
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9803,13 +9789,13 @@ value=nil
 
 //line sip.rl:276
  {goto st263 } 
-	goto st780
-	st780:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof780
+			goto _test_eof773
 		}
-	st_case_780:
-//line msg_parse.go:9804
+	st_case_773:
+//line msg_parse.go:9790
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9866,7 +9852,7 @@ value=nil
 		case 126:
 			goto tr414
 		case 269:
-			goto st764
+			goto st757
 		}
 		switch {
 		case _widec < 48:
@@ -9907,7 +9893,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9902
+//line msg_parse.go:9888
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9926,25 +9912,25 @@ tr414:
 		case 75:
 			goto st504
 		case 76:
-			goto st505
+			goto st434
 		case 77:
-			goto st512
+			goto st505
 		case 79:
-			goto st556
+			goto st549
 		case 80:
-			goto st568
+			goto st561
 		case 82:
-			goto st626
+			goto st619
 		case 83:
-			goto st686
+			goto st679
 		case 84:
-			goto st704
+			goto st697
 		case 85:
-			goto st714
+			goto st707
 		case 86:
-			goto st734
+			goto st727
 		case 87:
-			goto st742
+			goto st735
 		case 97:
 			goto st282
 		case 98:
@@ -9962,25 +9948,25 @@ tr414:
 		case 107:
 			goto st504
 		case 108:
-			goto st505
+			goto st434
 		case 109:
-			goto st512
+			goto st505
 		case 111:
-			goto st556
+			goto st549
 		case 112:
-			goto st568
+			goto st561
 		case 114:
-			goto st626
+			goto st619
 		case 115:
-			goto st686
+			goto st679
 		case 116:
-			goto st704
+			goto st697
 		case 117:
-			goto st714
+			goto st707
 		case 118:
-			goto st734
+			goto st727
 		case 119:
-			goto st742
+			goto st735
 		}
 		goto tr416
 	st282:
@@ -10065,97 +10051,91 @@ tr616:
 //line sip.rl:478
 value=&msg.ContentLanguage
 	goto st283
-tr652:
+tr651:
 //line sip.rl:481
 value=&msg.Date
 	goto st283
-tr665:
+tr664:
 //line sip.rl:482
 value=&msg.ErrorInfo
 	goto st283
-tr670:
+tr669:
 //line sip.rl:483
 value=&msg.Event
 	goto st283
-tr699:
+tr698:
 //line sip.rl:484
 value=&msg.InReplyTo
 	goto st283
-tr701:
+tr700:
 //line sip.rl:498
 value=&msg.Supported
 	goto st283
-tr740:
+tr732:
 //line sip.rl:486
 value=&msg.MIMEVersion
 	goto st283
-tr768:
+tr760:
 //line sip.rl:487
 value=&msg.Organization
 	goto st283
-tr798:
+tr790:
 //line sip.rl:488
 value=&msg.Priority
 	goto st283
-tr817:
+tr809:
 //line sip.rl:489
 value=&msg.ProxyAuthenticate
 	goto st283
-tr827:
+tr819:
 //line sip.rl:490
 value=&msg.ProxyAuthorization
 	goto st283
-tr835:
+tr827:
 //line sip.rl:491
 value=&msg.ProxyRequire
 	goto st283
-tr837:
+tr829:
 //line sip.rl:492
 value=&msg.ReferTo
 	goto st283
-tr887:
+tr879:
 //line sip.rl:485
 value=&msg.ReplyTo
 	goto st283
-tr893:
+tr885:
 //line sip.rl:494
 value=&msg.Require
 	goto st283
-tr903:
+tr895:
 //line sip.rl:495
 value=&msg.RetryAfter
 	goto st283
-tr910:
+tr902:
 //line sip.rl:497
 value=&msg.Subject
 	goto st283
-tr918:
+tr910:
 //line sip.rl:496
 value=&msg.Server
 	goto st283
-tr942:
+tr934:
 //line sip.rl:499
 value=&msg.Timestamp
 	goto st283
-tr944:
-//line sip.rl:472
-value=&msg.Allow
-//line sip.rl:473
-value=&msg.AllowEvents
-	goto st283
-tr957:
+tr947:
 //line sip.rl:500
 value=&msg.Unsupported
 	goto st283
-tr967:
+tr957:
 //line sip.rl:501
 value=&msg.UserAgent
 	goto st283
-tr984:
+tr974:
 //line sip.rl:502
 value=&msg.Warning
 	goto st283
-tr1000:
+tr990:
 //line sip.rl:503
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10164,7 +10144,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10159
+//line msg_parse.go:10139
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10230,97 +10210,91 @@ tr617:
 //line sip.rl:478
 value=&msg.ContentLanguage
 	goto st284
-tr653:
+tr652:
 //line sip.rl:481
 value=&msg.Date
 	goto st284
-tr666:
+tr665:
 //line sip.rl:482
 value=&msg.ErrorInfo
 	goto st284
-tr671:
+tr670:
 //line sip.rl:483
 value=&msg.Event
 	goto st284
-tr700:
+tr699:
 //line sip.rl:484
 value=&msg.InReplyTo
 	goto st284
-tr702:
+tr701:
 //line sip.rl:498
 value=&msg.Supported
 	goto st284
-tr741:
+tr733:
 //line sip.rl:486
 value=&msg.MIMEVersion
 	goto st284
-tr769:
+tr761:
 //line sip.rl:487
 value=&msg.Organization
 	goto st284
-tr799:
+tr791:
 //line sip.rl:488
 value=&msg.Priority
 	goto st284
-tr818:
+tr810:
 //line sip.rl:489
 value=&msg.ProxyAuthenticate
 	goto st284
-tr828:
+tr820:
 //line sip.rl:490
 value=&msg.ProxyAuthorization
 	goto st284
-tr836:
+tr828:
 //line sip.rl:491
 value=&msg.ProxyRequire
 	goto st284
-tr838:
+tr830:
 //line sip.rl:492
 value=&msg.ReferTo
 	goto st284
-tr888:
+tr880:
 //line sip.rl:485
 value=&msg.ReplyTo
 	goto st284
-tr894:
+tr886:
 //line sip.rl:494
 value=&msg.Require
 	goto st284
-tr904:
+tr896:
 //line sip.rl:495
 value=&msg.RetryAfter
 	goto st284
-tr911:
+tr903:
 //line sip.rl:497
 value=&msg.Subject
 	goto st284
-tr919:
+tr911:
 //line sip.rl:496
 value=&msg.Server
 	goto st284
-tr943:
+tr935:
 //line sip.rl:499
 value=&msg.Timestamp
 	goto st284
-tr945:
-//line sip.rl:472
-value=&msg.Allow
-//line sip.rl:473
-value=&msg.AllowEvents
-	goto st284
-tr958:
+tr948:
 //line sip.rl:500
 value=&msg.Unsupported
 	goto st284
-tr968:
+tr958:
 //line sip.rl:501
 value=&msg.UserAgent
 	goto st284
-tr985:
+tr975:
 //line sip.rl:502
 value=&msg.Warning
 	goto st284
-tr1001:
+tr991:
 //line sip.rl:503
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10329,7 +10303,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10324
+//line msg_parse.go:10298
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10359,7 +10333,7 @@ value=&msg.WWWAuthenticate
 tr559:
 //line sip.rl:275
  {goto st280 } 
-	goto st781
+	goto st774
 tr442:
 //line sip.rl:72
 
@@ -10368,7 +10342,7 @@ tr442:
 
 //line sip.rl:276
  {goto st263 } 
-	goto st781
+	goto st774
 tr541:
 //line sip.rl:72
 
@@ -10377,7 +10351,7 @@ tr541:
 
 //line sip.rl:274
  {goto st34 } 
-	goto st781
+	goto st774
 tr576:
 //line sip.rl:553
 value=nil
@@ -10388,8 +10362,8 @@ value=nil
 
 //line sip.rl:270
  {goto st256 } 
-	goto st781
-tr972:
+	goto st774
+tr962:
 //line sip.rl:143
 
 	via = new(Via)
@@ -10401,19 +10375,19 @@ tr972:
 
 //line sip.rl:277
  {goto st103 } 
-	goto st781
-tr1002:
+	goto st774
+tr992:
 //line sip.rl:76
 
-	{p++; cs = 781; goto _out }
+	{p++; cs = 774; goto _out }
 
-	goto st781
-	st781:
+	goto st774
+	st774:
 		if p++; p == pe {
-			goto _test_eof781
+			goto _test_eof774
 		}
-	st_case_781:
-//line msg_parse.go:10408
+	st_case_774:
+//line msg_parse.go:10382
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11653,7 +11627,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11648
+//line msg_parse.go:11622
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11797,7 +11771,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr644:
+tr643:
 //line sip.rl:248
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11808,7 +11782,7 @@ tr644:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11803
+//line msg_parse.go:11777
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -12000,27 +11974,27 @@ tr572:
 //line sip.rl:455
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr684:
+tr683:
 //line sip.rl:456
 addrp=lastAddr(&msg.From)
 	goto st394
-tr789:
+tr781:
 //line sip.rl:457
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr856:
+tr848:
 //line sip.rl:458
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr880:
+tr872:
 //line sip.rl:459
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr908:
+tr900:
 //line sip.rl:460
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr931:
+tr923:
 //line sip.rl:461
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12029,7 +12003,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12024
+//line msg_parse.go:11998
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12043,27 +12017,27 @@ tr573:
 //line sip.rl:455
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr685:
+tr684:
 //line sip.rl:456
 addrp=lastAddr(&msg.From)
 	goto st395
-tr790:
+tr782:
 //line sip.rl:457
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr857:
+tr849:
 //line sip.rl:458
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr881:
+tr873:
 //line sip.rl:459
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr909:
+tr901:
 //line sip.rl:460
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr932:
+tr924:
 //line sip.rl:461
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12072,7 +12046,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12067
+//line msg_parse.go:12041
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12620,10 +12594,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
-tr624:
+tr623:
 //line sip.rl:511
 clen=0
 //line sip.rl:232
@@ -12633,7 +12607,7 @@ clen=0
 	clen = n
 }
 	goto st437
-tr626:
+tr625:
 //line sip.rl:232
 {
 	n, err := appendDigit(clen, data[p], 1<<31 - 1)
@@ -12646,7 +12620,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12641
+//line msg_parse.go:12615
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12658,7 +12632,7 @@ tr626:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
 	st438:
@@ -12694,7 +12668,7 @@ tr626:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
 	st441:
@@ -12820,10 +12794,10 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
-tr637:
+tr636:
 //line sip.rl:512
 msg.CSeq=0
 //line sip.rl:242
@@ -12833,7 +12807,7 @@ msg.CSeq=0
 	msg.CSeq = n
 }
 	goto st450
-tr640:
+tr639:
 //line sip.rl:242
 {
 	n, err := appendDigit(msg.CSeq, data[p], 1<<31 - 1)
@@ -12846,7 +12820,7 @@ tr640:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12841
+//line msg_parse.go:12815
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12863,7 +12837,7 @@ tr640:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr640
+			goto tr639
 		}
 		goto st0
 	st451:
@@ -12884,13 +12858,13 @@ tr640:
 		case 32:
 			goto st451
 		case 33:
-			goto tr642
+			goto tr641
 		case 37:
-			goto tr642
+			goto tr641
 		case 39:
-			goto tr642
+			goto tr641
 		case 126:
-			goto tr642
+			goto tr641
 		case 525:
 			goto st453
 		}
@@ -12899,25 +12873,25 @@ tr640:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr641
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr641
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr641
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr641
 			}
 		default:
-			goto tr642
+			goto tr641
 		}
 		goto st0
-tr642:
+tr641:
 //line sip.rl:80
 
 	mark = p
@@ -12928,7 +12902,7 @@ tr642:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12923
+//line msg_parse.go:12897
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12946,7 +12920,7 @@ tr642:
 		case 126:
 			goto st452
 		case 269:
-			goto tr644
+			goto tr643
 		}
 		switch {
 		case _widec < 48:
@@ -13003,35 +12977,35 @@ tr642:
 		case 32:
 			goto st455
 		case 33:
-			goto tr642
+			goto tr641
 		case 37:
-			goto tr642
+			goto tr641
 		case 39:
-			goto tr642
+			goto tr641
 		case 126:
-			goto tr642
+			goto tr641
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr641
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr641
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr641
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr641
 			}
 		default:
-			goto tr642
+			goto tr641
 		}
 		goto st0
 	st456:
@@ -13067,7 +13041,7 @@ tr642:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st459:
@@ -13113,11 +13087,11 @@ tr642:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr651
 		case 32:
-			goto tr652
+			goto tr651
 		case 58:
-			goto tr653
+			goto tr652
 		}
 		goto tr416
 	st463:
@@ -13246,11 +13220,11 @@ tr642:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr665
+			goto tr664
 		case 32:
-			goto tr665
+			goto tr664
 		case 58:
-			goto tr666
+			goto tr665
 		}
 		goto tr416
 	st473:
@@ -13296,11 +13270,11 @@ tr642:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr670
+			goto tr669
 		case 32:
-			goto tr670
+			goto tr669
 		case 58:
-			goto tr671
+			goto tr670
 		}
 		goto tr416
 	st477:
@@ -13412,10 +13386,10 @@ tr642:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+			goto tr678
 		}
 		goto st0
-tr679:
+tr678:
 //line sip.rl:513
 msg.Expires=0
 //line sip.rl:252
@@ -13425,7 +13399,7 @@ msg.Expires=0
 	msg.Expires = n
 }
 	goto st485
-tr681:
+tr680:
 //line sip.rl:252
 {
 	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
@@ -13438,7 +13412,7 @@ tr681:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13433
+//line msg_parse.go:13407
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13450,7 +13424,7 @@ tr681:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr681
+			goto tr680
 		}
 		goto st0
 	st486:
@@ -13486,7 +13460,7 @@ tr681:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+			goto tr678
 		}
 		goto st0
 	st489:
@@ -13496,11 +13470,11 @@ tr681:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr684
+			goto tr683
 		case 32:
-			goto tr684
+			goto tr683
 		case 58:
-			goto tr685
+			goto tr684
 		case 82:
 			goto st490
 		case 114:
@@ -13538,11 +13512,11 @@ tr681:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr684
+			goto tr683
 		case 32:
-			goto tr684
+			goto tr683
 		case 58:
-			goto tr685
+			goto tr684
 		}
 		goto tr416
 	st493:
@@ -13672,11 +13646,11 @@ tr681:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr699
+			goto tr698
 		case 32:
-			goto tr699
+			goto tr698
 		case 58:
-			goto tr700
+			goto tr699
 		}
 		goto tr416
 	st504:
@@ -13686,11 +13660,11 @@ tr681:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr701
+			goto tr700
 		case 32:
-			goto tr701
+			goto tr700
 		case 58:
-			goto tr702
+			goto tr701
 		}
 		goto tr416
 	st505:
@@ -13700,11 +13674,19 @@ tr681:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto tr572
 		case 32:
-			goto st506
+			goto tr572
 		case 58:
-			goto st507
+			goto tr573
+		case 65:
+			goto st506
+		case 73:
+			goto st523
+		case 97:
+			goto st506
+		case 105:
+			goto st523
 		}
 		goto tr416
 	st506:
@@ -13713,174 +13695,79 @@ tr681:
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto st506
-		case 32:
-			goto st506
-		case 58:
+		case 88:
+			goto st507
+		case 120:
 			goto st507
 		}
-		goto st0
+		goto tr416
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st507
-		case 32:
-			goto st507
-		case 525:
-			goto st509
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr705
+		if data[p] == 45 {
+			goto st508
 		}
-		goto st0
-tr705:
-//line sip.rl:511
-clen=0
-//line sip.rl:232
-{
-	n, err := appendDigit(clen, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	clen = n
-}
-//line sip.rl:513
-msg.Expires=0
-//line sip.rl:252
-{
-	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.Expires = n
-}
-//line sip.rl:514
-msg.MaxForwards=0
-//line sip.rl:258
-{
-	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	msg.MaxForwards = n
-}
-//line sip.rl:515
-msg.MinExpires=0
-//line sip.rl:264
-{
-	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.MinExpires = n
-}
-	goto st508
-tr707:
-//line sip.rl:232
-{
-	n, err := appendDigit(clen, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	clen = n
-}
-//line sip.rl:252
-{
-	n, err := appendDigit(msg.Expires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.Expires = n
-}
-//line sip.rl:258
-{
-	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	msg.MaxForwards = n
-}
-//line sip.rl:264
-{
-	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.MinExpires = n
-}
-	goto st508
+		goto tr416
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13805
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr707
+		switch data[p] {
+		case 70:
+			goto st509
+		case 102:
+			goto st509
 		}
-		goto st0
+		goto tr416
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st510
+		case 111:
 			goto st510
 		}
-		goto st0
+		goto tr416
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st511
-		case 32:
+		case 114:
 			goto st511
 		}
-		goto st0
+		goto tr416
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 9:
-			goto st511
-		case 32:
-			goto st511
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr705
+		case 87:
+			goto st512
+		case 119:
+			goto st512
 		}
-		goto st0
+		goto tr416
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
-			goto tr572
-		case 32:
-			goto tr572
-		case 58:
-			goto tr573
 		case 65:
 			goto st513
-		case 73:
-			goto st530
 		case 97:
 			goto st513
-		case 105:
-			goto st530
 		}
 		goto tr416
 	st513:
@@ -13889,9 +13776,9 @@ tr707:
 		}
 	st_case_513:
 		switch data[p] {
-		case 88:
+		case 82:
 			goto st514
-		case 120:
+		case 114:
 			goto st514
 		}
 		goto tr416
@@ -13900,7 +13787,10 @@ tr707:
 			goto _test_eof514
 		}
 	st_case_514:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st515
+		case 100:
 			goto st515
 		}
 		goto tr416
@@ -13910,9 +13800,9 @@ tr707:
 		}
 	st_case_515:
 		switch data[p] {
-		case 70:
+		case 83:
 			goto st516
-		case 102:
+		case 115:
 			goto st516
 		}
 		goto tr416
@@ -13922,10 +13812,12 @@ tr707:
 		}
 	st_case_516:
 		switch data[p] {
-		case 79:
+		case 9:
 			goto st517
-		case 111:
+		case 32:
 			goto st517
+		case 58:
+			goto st518
 		}
 		goto tr416
 	st517:
@@ -13934,84 +13826,126 @@ tr707:
 		}
 	st_case_517:
 		switch data[p] {
-		case 82:
-			goto st518
-		case 114:
+		case 9:
+			goto st517
+		case 32:
+			goto st517
+		case 58:
 			goto st518
 		}
-		goto tr416
+		goto st0
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
-		switch data[p] {
-		case 87:
-			goto st519
-		case 119:
-			goto st519
-		}
-		goto tr416
-	st519:
-		if p++; p == pe {
-			goto _test_eof519
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-	st_case_519:
-		switch data[p] {
-		case 65:
-			goto st520
-		case 97:
+		switch _widec {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 525:
 			goto st520
 		}
-		goto tr416
-	st520:
-		if p++; p == pe {
-			goto _test_eof520
+		if 48 <= _widec && _widec <= 57 {
+			goto tr716
 		}
-	st_case_520:
-		switch data[p] {
-		case 82:
-			goto st521
-		case 114:
+		goto st0
+tr716:
+//line sip.rl:514
+msg.MaxForwards=0
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
+	goto st519
+tr718:
+//line sip.rl:258
+{
+	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
+	if err != nil { return nil, err }
+	msg.MaxForwards = n
+}
+	goto st519
+	st519:
+		if p++; p == pe {
+			goto _test_eof519
+		}
+	st_case_519:
+//line msg_parse.go:13876
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr718
+		}
+		goto st0
+	st520:
+		if p++; p == pe {
+			goto _test_eof520
+		}
+	st_case_520:
+		if data[p] == 10 {
 			goto st521
 		}
-		goto tr416
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st522
-		case 100:
+		case 32:
 			goto st522
 		}
-		goto tr416
+		goto st0
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 83:
-			goto st523
-		case 115:
-			goto st523
+		case 9:
+			goto st522
+		case 32:
+			goto st522
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr716
+		}
+		goto st0
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st524
-		case 32:
+		case 78:
+			goto st534
+		case 109:
 			goto st524
-		case 58:
-			goto st525
+		case 110:
+			goto st534
 		}
 		goto tr416
 	st524:
@@ -14020,126 +13954,79 @@ tr707:
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
-			goto st524
-		case 32:
-			goto st524
-		case 58:
+		case 69:
+			goto st525
+		case 101:
 			goto st525
 		}
-		goto st0
+		goto tr416
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st525
-		case 32:
-			goto st525
-		case 525:
-			goto st527
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr724
+		if data[p] == 45 {
+			goto st526
 		}
-		goto st0
-tr724:
-//line sip.rl:514
-msg.MaxForwards=0
-//line sip.rl:258
-{
-	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	msg.MaxForwards = n
-}
-	goto st526
-tr726:
-//line sip.rl:258
-{
-	n, err := appendDigit(msg.MaxForwards, data[p], 1<<31 - 1)
-	if err != nil { return nil, err }
-	msg.MaxForwards = n
-}
-	goto st526
+		goto tr416
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14070
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr726
+		switch data[p] {
+		case 86:
+			goto st527
+		case 118:
+			goto st527
 		}
-		goto st0
+		goto tr416
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st528
+		case 101:
 			goto st528
 		}
-		goto st0
+		goto tr416
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st529
-		case 32:
+		case 114:
 			goto st529
 		}
-		goto st0
+		goto tr416
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 9:
-			goto st529
-		case 32:
-			goto st529
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr724
+		case 83:
+			goto st530
+		case 115:
+			goto st530
 		}
-		goto st0
+		goto tr416
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 77:
+		case 73:
 			goto st531
-		case 78:
-			goto st541
-		case 109:
+		case 105:
 			goto st531
-		case 110:
-			goto st541
 		}
 		goto tr416
 	st531:
@@ -14148,9 +14035,9 @@ tr726:
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st532
-		case 101:
+		case 111:
 			goto st532
 		}
 		goto tr416
@@ -14159,7 +14046,10 @@ tr726:
 			goto _test_eof532
 		}
 	st_case_532:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st533
+		case 110:
 			goto st533
 		}
 		goto tr416
@@ -14169,10 +14059,12 @@ tr726:
 		}
 	st_case_533:
 		switch data[p] {
-		case 86:
-			goto st534
-		case 118:
-			goto st534
+		case 9:
+			goto tr732
+		case 32:
+			goto tr732
+		case 58:
+			goto tr733
 		}
 		goto tr416
 	st534:
@@ -14180,10 +14072,7 @@ tr726:
 			goto _test_eof534
 		}
 	st_case_534:
-		switch data[p] {
-		case 69:
-			goto st535
-		case 101:
+		if data[p] == 45 {
 			goto st535
 		}
 		goto tr416
@@ -14193,9 +14082,9 @@ tr726:
 		}
 	st_case_535:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st536
-		case 114:
+		case 101:
 			goto st536
 		}
 		goto tr416
@@ -14205,9 +14094,9 @@ tr726:
 		}
 	st_case_536:
 		switch data[p] {
-		case 83:
+		case 88:
 			goto st537
-		case 115:
+		case 120:
 			goto st537
 		}
 		goto tr416
@@ -14217,9 +14106,9 @@ tr726:
 		}
 	st_case_537:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st538
-		case 105:
+		case 112:
 			goto st538
 		}
 		goto tr416
@@ -14229,9 +14118,9 @@ tr726:
 		}
 	st_case_538:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st539
-		case 111:
+		case 105:
 			goto st539
 		}
 		goto tr416
@@ -14241,9 +14130,9 @@ tr726:
 		}
 	st_case_539:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st540
-		case 110:
+		case 114:
 			goto st540
 		}
 		goto tr416
@@ -14253,12 +14142,10 @@ tr726:
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr740
-		case 32:
-			goto tr740
-		case 58:
-			goto tr741
+		case 69:
+			goto st541
+		case 101:
+			goto st541
 		}
 		goto tr416
 	st541:
@@ -14266,7 +14153,10 @@ tr726:
 			goto _test_eof541
 		}
 	st_case_541:
-		if data[p] == 45 {
+		switch data[p] {
+		case 83:
+			goto st542
+		case 115:
 			goto st542
 		}
 		goto tr416
@@ -14276,10 +14166,12 @@ tr726:
 		}
 	st_case_542:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st543
-		case 101:
+		case 32:
 			goto st543
+		case 58:
+			goto st544
 		}
 		goto tr416
 	st543:
@@ -14288,72 +14180,112 @@ tr726:
 		}
 	st_case_543:
 		switch data[p] {
-		case 88:
-			goto st544
-		case 120:
+		case 9:
+			goto st543
+		case 32:
+			goto st543
+		case 58:
 			goto st544
 		}
-		goto tr416
+		goto st0
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		switch data[p] {
-		case 80:
-			goto st545
-		case 112:
-			goto st545
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 525:
+			goto st546
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr744
+		}
+		goto st0
+tr744:
+//line sip.rl:515
+msg.MinExpires=0
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
+	goto st545
+tr746:
+//line sip.rl:264
+{
+	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
+	if err != nil { return nil, err }
+	msg.MinExpires = n
+}
+	goto st545
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		switch data[p] {
-		case 73:
-			goto st546
-		case 105:
-			goto st546
+//line msg_parse.go:14230
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr746
+		}
+		goto st0
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		switch data[p] {
-		case 82:
-			goto st547
-		case 114:
+		if data[p] == 10 {
 			goto st547
 		}
-		goto tr416
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st548
-		case 101:
+		case 32:
 			goto st548
 		}
-		goto tr416
+		goto st0
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 83:
-			goto st549
-		case 115:
-			goto st549
+		case 9:
+			goto st548
+		case 32:
+			goto st548
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr744
+		}
+		goto st0
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
@@ -14361,11 +14293,15 @@ tr726:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto st550
+			goto tr669
 		case 32:
-			goto st550
+			goto tr669
 		case 58:
-			goto st551
+			goto tr670
+		case 82:
+			goto st550
+		case 114:
+			goto st550
 		}
 		goto tr416
 	st550:
@@ -14374,127 +14310,81 @@ tr726:
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto st550
-		case 32:
-			goto st550
-		case 58:
-			goto st551
-		}
-		goto st0
-	st551:
-		if p++; p == pe {
-			goto _test_eof551
-		}
-	st_case_551:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 71:
 			goto st551
-		case 32:
+		case 103:
 			goto st551
-		case 525:
-			goto st553
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr752
 		}
-		goto st0
-tr752:
-//line sip.rl:515
-msg.MinExpires=0
-//line sip.rl:264
-{
-	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.MinExpires = n
-}
-	goto st552
-tr754:
-//line sip.rl:264
-{
-	n, err := appendDigit(msg.MinExpires, data[p], 1<<32 - 1)
-	if err != nil { return nil, err }
-	msg.MinExpires = n
-}
-	goto st552
+		goto tr416
+	st551:
+		if p++; p == pe {
+			goto _test_eof551
+		}
+	st_case_551:
+		switch data[p] {
+		case 65:
+			goto st552
+		case 97:
+			goto st552
+		}
+		goto tr416
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14424
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr754
+		switch data[p] {
+		case 78:
+			goto st553
+		case 110:
+			goto st553
 		}
-		goto st0
+		goto tr416
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st554
+		case 105:
 			goto st554
 		}
-		goto st0
+		goto tr416
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 9:
+		case 90:
 			goto st555
-		case 32:
+		case 122:
 			goto st555
 		}
-		goto st0
+		goto tr416
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 9:
-			goto st555
-		case 32:
-			goto st555
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr752
+		case 65:
+			goto st556
+		case 97:
+			goto st556
 		}
-		goto st0
+		goto tr416
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 84:
 			goto st557
-		case 114:
+		case 116:
 			goto st557
 		}
 		goto tr416
@@ -14504,9 +14394,9 @@ tr754:
 		}
 	st_case_557:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st558
-		case 103:
+		case 105:
 			goto st558
 		}
 		goto tr416
@@ -14516,9 +14406,9 @@ tr754:
 		}
 	st_case_558:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st559
-		case 97:
+		case 111:
 			goto st559
 		}
 		goto tr416
@@ -14540,10 +14430,12 @@ tr754:
 		}
 	st_case_560:
 		switch data[p] {
-		case 73:
-			goto st561
-		case 105:
-			goto st561
+		case 9:
+			goto tr760
+		case 32:
+			goto tr760
+		case 58:
+			goto tr761
 		}
 		goto tr416
 	st561:
@@ -14552,10 +14444,12 @@ tr754:
 		}
 	st_case_561:
 		switch data[p] {
-		case 90:
-			goto st562
-		case 122:
+		case 45:
 			goto st562
+		case 82:
+			goto st580
+		case 114:
+			goto st580
 		}
 		goto tr416
 	st562:
@@ -14576,9 +14470,9 @@ tr754:
 		}
 	st_case_563:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st564
-		case 116:
+		case 115:
 			goto st564
 		}
 		goto tr416
@@ -14588,9 +14482,9 @@ tr754:
 		}
 	st_case_564:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st565
-		case 105:
+		case 115:
 			goto st565
 		}
 		goto tr416
@@ -14600,9 +14494,9 @@ tr754:
 		}
 	st_case_565:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st566
-		case 111:
+		case 101:
 			goto st566
 		}
 		goto tr416
@@ -14612,9 +14506,9 @@ tr754:
 		}
 	st_case_566:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st567
-		case 110:
+		case 114:
 			goto st567
 		}
 		goto tr416
@@ -14624,12 +14518,10 @@ tr754:
 		}
 	st_case_567:
 		switch data[p] {
-		case 9:
-			goto tr768
-		case 32:
-			goto tr768
-		case 58:
-			goto tr769
+		case 84:
+			goto st568
+		case 116:
+			goto st568
 		}
 		goto tr416
 	st568:
@@ -14638,12 +14530,10 @@ tr754:
 		}
 	st_case_568:
 		switch data[p] {
-		case 45:
+		case 69:
+			goto st569
+		case 101:
 			goto st569
-		case 82:
-			goto st587
-		case 114:
-			goto st587
 		}
 		goto tr416
 	st569:
@@ -14652,9 +14542,9 @@ tr754:
 		}
 	st_case_569:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st570
-		case 97:
+		case 100:
 			goto st570
 		}
 		goto tr416
@@ -14663,10 +14553,7 @@ tr754:
 			goto _test_eof570
 		}
 	st_case_570:
-		switch data[p] {
-		case 83:
-			goto st571
-		case 115:
+		if data[p] == 45 {
 			goto st571
 		}
 		goto tr416
@@ -14676,9 +14563,9 @@ tr754:
 		}
 	st_case_571:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st572
-		case 115:
+		case 105:
 			goto st572
 		}
 		goto tr416
@@ -14688,9 +14575,9 @@ tr754:
 		}
 	st_case_572:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st573
-		case 101:
+		case 100:
 			goto st573
 		}
 		goto tr416
@@ -14700,9 +14587,9 @@ tr754:
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st574
-		case 114:
+		case 101:
 			goto st574
 		}
 		goto tr416
@@ -14712,9 +14599,9 @@ tr754:
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st575
-		case 116:
+		case 110:
 			goto st575
 		}
 		goto tr416
@@ -14724,9 +14611,9 @@ tr754:
 		}
 	st_case_575:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st576
-		case 101:
+		case 116:
 			goto st576
 		}
 		goto tr416
@@ -14736,9 +14623,9 @@ tr754:
 		}
 	st_case_576:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st577
-		case 100:
+		case 105:
 			goto st577
 		}
 		goto tr416
@@ -14747,7 +14634,10 @@ tr754:
 			goto _test_eof577
 		}
 	st_case_577:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st578
+		case 116:
 			goto st578
 		}
 		goto tr416
@@ -14757,9 +14647,9 @@ tr754:
 		}
 	st_case_578:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st579
-		case 105:
+		case 121:
 			goto st579
 		}
 		goto tr416
@@ -14769,10 +14659,12 @@ tr754:
 		}
 	st_case_579:
 		switch data[p] {
-		case 68:
-			goto st580
-		case 100:
-			goto st580
+		case 9:
+			goto tr781
+		case 32:
+			goto tr781
+		case 58:
+			goto tr782
 		}
 		goto tr416
 	st580:
@@ -14781,10 +14673,14 @@ tr754:
 		}
 	st_case_580:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st581
-		case 101:
+		case 79:
+			goto st587
+		case 105:
 			goto st581
+		case 111:
+			goto st587
 		}
 		goto tr416
 	st581:
@@ -14793,9 +14689,9 @@ tr754:
 		}
 	st_case_581:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st582
-		case 110:
+		case 111:
 			goto st582
 		}
 		goto tr416
@@ -14805,9 +14701,9 @@ tr754:
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st583
-		case 116:
+		case 114:
 			goto st583
 		}
 		goto tr416
@@ -14854,11 +14750,11 @@ tr754:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr789
+			goto tr790
 		case 32:
-			goto tr789
-		case 58:
 			goto tr790
+		case 58:
+			goto tr791
 		}
 		goto tr416
 	st587:
@@ -14867,14 +14763,10 @@ tr754:
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
+		case 88:
 			goto st588
-		case 79:
-			goto st594
-		case 105:
+		case 120:
 			goto st588
-		case 111:
-			goto st594
 		}
 		goto tr416
 	st588:
@@ -14883,9 +14775,9 @@ tr754:
 		}
 	st_case_588:
 		switch data[p] {
-		case 79:
+		case 89:
 			goto st589
-		case 111:
+		case 121:
 			goto st589
 		}
 		goto tr416
@@ -14894,10 +14786,7 @@ tr754:
 			goto _test_eof589
 		}
 	st_case_589:
-		switch data[p] {
-		case 82:
-			goto st590
-		case 114:
+		if data[p] == 45 {
 			goto st590
 		}
 		goto tr416
@@ -14907,10 +14796,14 @@ tr754:
 		}
 	st_case_590:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st591
-		case 105:
+		case 82:
+			goto st612
+		case 97:
 			goto st591
+		case 114:
+			goto st612
 		}
 		goto tr416
 	st591:
@@ -14919,9 +14812,9 @@ tr754:
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st592
-		case 116:
+		case 117:
 			goto st592
 		}
 		goto tr416
@@ -14931,9 +14824,9 @@ tr754:
 		}
 	st_case_592:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st593
-		case 121:
+		case 116:
 			goto st593
 		}
 		goto tr416
@@ -14943,12 +14836,10 @@ tr754:
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr798
-		case 32:
-			goto tr798
-		case 58:
-			goto tr799
+		case 72:
+			goto st594
+		case 104:
+			goto st594
 		}
 		goto tr416
 	st594:
@@ -14957,10 +14848,14 @@ tr754:
 		}
 	st_case_594:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st595
-		case 120:
+		case 79:
+			goto st603
+		case 101:
 			goto st595
+		case 111:
+			goto st603
 		}
 		goto tr416
 	st595:
@@ -14969,9 +14864,9 @@ tr754:
 		}
 	st_case_595:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st596
-		case 121:
+		case 110:
 			goto st596
 		}
 		goto tr416
@@ -14980,7 +14875,10 @@ tr754:
 			goto _test_eof596
 		}
 	st_case_596:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st597
+		case 116:
 			goto st597
 		}
 		goto tr416
@@ -14990,14 +14888,10 @@ tr754:
 		}
 	st_case_597:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st598
-		case 82:
-			goto st619
-		case 97:
+		case 105:
 			goto st598
-		case 114:
-			goto st619
 		}
 		goto tr416
 	st598:
@@ -15006,9 +14900,9 @@ tr754:
 		}
 	st_case_598:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st599
-		case 117:
+		case 99:
 			goto st599
 		}
 		goto tr416
@@ -15018,9 +14912,9 @@ tr754:
 		}
 	st_case_599:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st600
-		case 116:
+		case 97:
 			goto st600
 		}
 		goto tr416
@@ -15030,9 +14924,9 @@ tr754:
 		}
 	st_case_600:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st601
-		case 104:
+		case 116:
 			goto st601
 		}
 		goto tr416
@@ -15044,12 +14938,8 @@ tr754:
 		switch data[p] {
 		case 69:
 			goto st602
-		case 79:
-			goto st610
 		case 101:
 			goto st602
-		case 111:
-			goto st610
 		}
 		goto tr416
 	st602:
@@ -15058,10 +14948,12 @@ tr754:
 		}
 	st_case_602:
 		switch data[p] {
-		case 78:
-			goto st603
-		case 110:
-			goto st603
+		case 9:
+			goto tr809
+		case 32:
+			goto tr809
+		case 58:
+			goto tr810
 		}
 		goto tr416
 	st603:
@@ -15070,9 +14962,9 @@ tr754:
 		}
 	st_case_603:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st604
-		case 116:
+		case 114:
 			goto st604
 		}
 		goto tr416
@@ -15094,9 +14986,9 @@ tr754:
 		}
 	st_case_605:
 		switch data[p] {
-		case 67:
+		case 90:
 			goto st606
-		case 99:
+		case 122:
 			goto st606
 		}
 		goto tr416
@@ -15130,9 +15022,9 @@ tr754:
 		}
 	st_case_608:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st609
-		case 101:
+		case 105:
 			goto st609
 		}
 		goto tr416
@@ -15142,12 +15034,10 @@ tr754:
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr817
-		case 32:
-			goto tr817
-		case 58:
-			goto tr818
+		case 79:
+			goto st610
+		case 111:
+			goto st610
 		}
 		goto tr416
 	st610:
@@ -15156,9 +15046,9 @@ tr754:
 		}
 	st_case_610:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st611
-		case 114:
+		case 110:
 			goto st611
 		}
 		goto tr416
@@ -15168,10 +15058,12 @@ tr754:
 		}
 	st_case_611:
 		switch data[p] {
-		case 73:
-			goto st612
-		case 105:
-			goto st612
+		case 9:
+			goto tr819
+		case 32:
+			goto tr819
+		case 58:
+			goto tr820
 		}
 		goto tr416
 	st612:
@@ -15180,9 +15072,9 @@ tr754:
 		}
 	st_case_612:
 		switch data[p] {
-		case 90:
+		case 69:
 			goto st613
-		case 122:
+		case 101:
 			goto st613
 		}
 		goto tr416
@@ -15192,9 +15084,9 @@ tr754:
 		}
 	st_case_613:
 		switch data[p] {
-		case 65:
+		case 81:
 			goto st614
-		case 97:
+		case 113:
 			goto st614
 		}
 		goto tr416
@@ -15204,9 +15096,9 @@ tr754:
 		}
 	st_case_614:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st615
-		case 116:
+		case 117:
 			goto st615
 		}
 		goto tr416
@@ -15228,9 +15120,9 @@ tr754:
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st617
-		case 111:
+		case 114:
 			goto st617
 		}
 		goto tr416
@@ -15240,9 +15132,9 @@ tr754:
 		}
 	st_case_617:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st618
-		case 110:
+		case 101:
 			goto st618
 		}
 		goto tr416
@@ -15266,10 +15158,20 @@ tr754:
 		}
 	st_case_619:
 		switch data[p] {
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		case 69:
 			goto st620
+		case 79:
+			goto st675
 		case 101:
 			goto st620
+		case 111:
+			goto st675
 		}
 		goto tr416
 	st620:
@@ -15278,10 +15180,30 @@ tr754:
 		}
 	st_case_620:
 		switch data[p] {
+		case 67:
+			goto st621
+		case 70:
+			goto st631
+		case 77:
+			goto st642
+		case 80:
+			goto st655
 		case 81:
+			goto st661
+		case 84:
+			goto st666
+		case 99:
 			goto st621
+		case 102:
+			goto st631
+		case 109:
+			goto st642
+		case 112:
+			goto st655
 		case 113:
-			goto st621
+			goto st661
+		case 116:
+			goto st666
 		}
 		goto tr416
 	st621:
@@ -15290,9 +15212,9 @@ tr754:
 		}
 	st_case_621:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st622
-		case 117:
+		case 111:
 			goto st622
 		}
 		goto tr416
@@ -15302,9 +15224,9 @@ tr754:
 		}
 	st_case_622:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st623
-		case 105:
+		case 114:
 			goto st623
 		}
 		goto tr416
@@ -15314,9 +15236,9 @@ tr754:
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st624
-		case 114:
+		case 100:
 			goto st624
 		}
 		goto tr416
@@ -15325,10 +15247,7 @@ tr754:
 			goto _test_eof624
 		}
 	st_case_624:
-		switch data[p] {
-		case 69:
-			goto st625
-		case 101:
+		if data[p] == 45 {
 			goto st625
 		}
 		goto tr416
@@ -15338,12 +15257,10 @@ tr754:
 		}
 	st_case_625:
 		switch data[p] {
-		case 9:
-			goto tr835
-		case 32:
-			goto tr835
-		case 58:
-			goto tr836
+		case 82:
+			goto st626
+		case 114:
+			goto st626
 		}
 		goto tr416
 	st626:
@@ -15352,20 +15269,10 @@ tr754:
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr837
-		case 32:
-			goto tr837
-		case 58:
-			goto tr838
-		case 69:
-			goto st627
 		case 79:
-			goto st682
-		case 101:
 			goto st627
 		case 111:
-			goto st682
+			goto st627
 		}
 		goto tr416
 	st627:
@@ -15374,30 +15281,10 @@ tr754:
 		}
 	st_case_627:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st628
-		case 70:
-			goto st638
-		case 77:
-			goto st649
-		case 80:
-			goto st662
-		case 81:
-			goto st668
-		case 84:
-			goto st673
-		case 99:
+		case 117:
 			goto st628
-		case 102:
-			goto st638
-		case 109:
-			goto st649
-		case 112:
-			goto st662
-		case 113:
-			goto st668
-		case 116:
-			goto st673
 		}
 		goto tr416
 	st628:
@@ -15406,9 +15293,9 @@ tr754:
 		}
 	st_case_628:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st629
-		case 111:
+		case 116:
 			goto st629
 		}
 		goto tr416
@@ -15418,9 +15305,9 @@ tr754:
 		}
 	st_case_629:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st630
-		case 114:
+		case 101:
 			goto st630
 		}
 		goto tr416
@@ -15430,10 +15317,12 @@ tr754:
 		}
 	st_case_630:
 		switch data[p] {
-		case 68:
-			goto st631
-		case 100:
-			goto st631
+		case 9:
+			goto tr848
+		case 32:
+			goto tr848
+		case 58:
+			goto tr849
 		}
 		goto tr416
 	st631:
@@ -15441,7 +15330,10 @@ tr754:
 			goto _test_eof631
 		}
 	st_case_631:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st632
+		case 101:
 			goto st632
 		}
 		goto tr416
@@ -15463,10 +15355,12 @@ tr754:
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
-			goto st634
-		case 111:
+		case 45:
 			goto st634
+		case 82:
+			goto st637
+		case 114:
+			goto st637
 		}
 		goto tr416
 	st634:
@@ -15475,9 +15369,9 @@ tr754:
 		}
 	st_case_634:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st635
-		case 117:
+		case 116:
 			goto st635
 		}
 		goto tr416
@@ -15487,9 +15381,9 @@ tr754:
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st636
-		case 116:
+		case 111:
 			goto st636
 		}
 		goto tr416
@@ -15499,10 +15393,12 @@ tr754:
 		}
 	st_case_636:
 		switch data[p] {
-		case 69:
-			goto st637
-		case 101:
-			goto st637
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		}
 		goto tr416
 	st637:
@@ -15511,12 +15407,10 @@ tr754:
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr856
-		case 32:
-			goto tr856
-		case 58:
-			goto tr857
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
 		goto tr416
 	st638:
@@ -15525,9 +15419,9 @@ tr754:
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st639
-		case 101:
+		case 100:
 			goto st639
 		}
 		goto tr416
@@ -15536,10 +15430,7 @@ tr754:
 			goto _test_eof639
 		}
 	st_case_639:
-		switch data[p] {
-		case 82:
-			goto st640
-		case 114:
+		if data[p] == 45 {
 			goto st640
 		}
 		goto tr416
@@ -15549,12 +15440,10 @@ tr754:
 		}
 	st_case_640:
 		switch data[p] {
-		case 45:
+		case 66:
+			goto st641
+		case 98:
 			goto st641
-		case 82:
-			goto st644
-		case 114:
-			goto st644
 		}
 		goto tr416
 	st641:
@@ -15563,10 +15452,10 @@ tr754:
 		}
 	st_case_641:
 		switch data[p] {
-		case 84:
-			goto st642
-		case 116:
-			goto st642
+		case 89:
+			goto st363
+		case 121:
+			goto st363
 		}
 		goto tr416
 	st642:
@@ -15587,12 +15476,10 @@ tr754:
 		}
 	st_case_643:
 		switch data[p] {
-		case 9:
-			goto tr837
-		case 32:
-			goto tr837
-		case 58:
-			goto tr838
+		case 84:
+			goto st644
+		case 116:
+			goto st644
 		}
 		goto tr416
 	st644:
@@ -15612,10 +15499,7 @@ tr754:
 			goto _test_eof645
 		}
 	st_case_645:
-		switch data[p] {
-		case 68:
-			goto st646
-		case 100:
+		if data[p] == 45 {
 			goto st646
 		}
 		goto tr416
@@ -15624,7 +15508,10 @@ tr754:
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st647
+		case 112:
 			goto st647
 		}
 		goto tr416
@@ -15634,9 +15521,9 @@ tr754:
 		}
 	st_case_647:
 		switch data[p] {
-		case 66:
+		case 65:
 			goto st648
-		case 98:
+		case 97:
 			goto st648
 		}
 		goto tr416
@@ -15646,10 +15533,10 @@ tr754:
 		}
 	st_case_648:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 82:
+			goto st649
+		case 114:
+			goto st649
 		}
 		goto tr416
 	st649:
@@ -15658,9 +15545,9 @@ tr754:
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st650
-		case 111:
+		case 116:
 			goto st650
 		}
 		goto tr416
@@ -15670,9 +15557,9 @@ tr754:
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st651
-		case 116:
+		case 121:
 			goto st651
 		}
 		goto tr416
@@ -15681,10 +15568,7 @@ tr754:
 			goto _test_eof651
 		}
 	st_case_651:
-		switch data[p] {
-		case 69:
-			goto st652
-		case 101:
+		if data[p] == 45 {
 			goto st652
 		}
 		goto tr416
@@ -15693,7 +15577,10 @@ tr754:
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st653
+		case 105:
 			goto st653
 		}
 		goto tr416
@@ -15703,9 +15590,9 @@ tr754:
 		}
 	st_case_653:
 		switch data[p] {
-		case 80:
+		case 68:
 			goto st654
-		case 112:
+		case 100:
 			goto st654
 		}
 		goto tr416
@@ -15715,10 +15602,12 @@ tr754:
 		}
 	st_case_654:
 		switch data[p] {
-		case 65:
-			goto st655
-		case 97:
-			goto st655
+		case 9:
+			goto tr872
+		case 32:
+			goto tr872
+		case 58:
+			goto tr873
 		}
 		goto tr416
 	st655:
@@ -15727,9 +15616,9 @@ tr754:
 		}
 	st_case_655:
 		switch data[p] {
-		case 82:
+		case 76:
 			goto st656
-		case 114:
+		case 108:
 			goto st656
 		}
 		goto tr416
@@ -15739,9 +15628,9 @@ tr754:
 		}
 	st_case_656:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st657
-		case 116:
+		case 121:
 			goto st657
 		}
 		goto tr416
@@ -15750,10 +15639,7 @@ tr754:
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 89:
-			goto st658
-		case 121:
+		if data[p] == 45 {
 			goto st658
 		}
 		goto tr416
@@ -15762,7 +15648,10 @@ tr754:
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st659
+		case 116:
 			goto st659
 		}
 		goto tr416
@@ -15772,9 +15661,9 @@ tr754:
 		}
 	st_case_659:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st660
-		case 105:
+		case 111:
 			goto st660
 		}
 		goto tr416
@@ -15784,10 +15673,12 @@ tr754:
 		}
 	st_case_660:
 		switch data[p] {
-		case 68:
-			goto st661
-		case 100:
-			goto st661
+		case 9:
+			goto tr879
+		case 32:
+			goto tr879
+		case 58:
+			goto tr880
 		}
 		goto tr416
 	st661:
@@ -15796,12 +15687,10 @@ tr754:
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 85:
+			goto st662
+		case 117:
+			goto st662
 		}
 		goto tr416
 	st662:
@@ -15810,9 +15699,9 @@ tr754:
 		}
 	st_case_662:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st663
-		case 108:
+		case 105:
 			goto st663
 		}
 		goto tr416
@@ -15822,9 +15711,9 @@ tr754:
 		}
 	st_case_663:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st664
-		case 121:
+		case 114:
 			goto st664
 		}
 		goto tr416
@@ -15833,7 +15722,10 @@ tr754:
 			goto _test_eof664
 		}
 	st_case_664:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st665
+		case 101:
 			goto st665
 		}
 		goto tr416
@@ -15843,10 +15735,12 @@ tr754:
 		}
 	st_case_665:
 		switch data[p] {
-		case 84:
-			goto st666
-		case 116:
-			goto st666
+		case 9:
+			goto tr885
+		case 32:
+			goto tr885
+		case 58:
+			goto tr886
 		}
 		goto tr416
 	st666:
@@ -15855,9 +15749,9 @@ tr754:
 		}
 	st_case_666:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st667
-		case 111:
+		case 114:
 			goto st667
 		}
 		goto tr416
@@ -15867,12 +15761,10 @@ tr754:
 		}
 	st_case_667:
 		switch data[p] {
-		case 9:
-			goto tr887
-		case 32:
-			goto tr887
-		case 58:
-			goto tr888
+		case 89:
+			goto st668
+		case 121:
+			goto st668
 		}
 		goto tr416
 	st668:
@@ -15880,10 +15772,7 @@ tr754:
 			goto _test_eof668
 		}
 	st_case_668:
-		switch data[p] {
-		case 85:
-			goto st669
-		case 117:
+		if data[p] == 45 {
 			goto st669
 		}
 		goto tr416
@@ -15893,9 +15782,9 @@ tr754:
 		}
 	st_case_669:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st670
-		case 105:
+		case 97:
 			goto st670
 		}
 		goto tr416
@@ -15905,9 +15794,9 @@ tr754:
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 70:
 			goto st671
-		case 114:
+		case 102:
 			goto st671
 		}
 		goto tr416
@@ -15917,9 +15806,9 @@ tr754:
 		}
 	st_case_671:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st672
-		case 101:
+		case 116:
 			goto st672
 		}
 		goto tr416
@@ -15929,12 +15818,10 @@ tr754:
 		}
 	st_case_672:
 		switch data[p] {
-		case 9:
-			goto tr893
-		case 32:
-			goto tr893
-		case 58:
-			goto tr894
+		case 69:
+			goto st673
+		case 101:
+			goto st673
 		}
 		goto tr416
 	st673:
@@ -15955,10 +15842,12 @@ tr754:
 		}
 	st_case_674:
 		switch data[p] {
-		case 89:
-			goto st675
-		case 121:
-			goto st675
+		case 9:
+			goto tr895
+		case 32:
+			goto tr895
+		case 58:
+			goto tr896
 		}
 		goto tr416
 	st675:
@@ -15966,7 +15855,10 @@ tr754:
 			goto _test_eof675
 		}
 	st_case_675:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st676
+		case 117:
 			goto st676
 		}
 		goto tr416
@@ -15976,9 +15868,9 @@ tr754:
 		}
 	st_case_676:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st677
-		case 97:
+		case 116:
 			goto st677
 		}
 		goto tr416
@@ -15988,9 +15880,9 @@ tr754:
 		}
 	st_case_677:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st678
-		case 102:
+		case 101:
 			goto st678
 		}
 		goto tr416
@@ -16000,10 +15892,12 @@ tr754:
 		}
 	st_case_678:
 		switch data[p] {
-		case 84:
-			goto st679
-		case 116:
-			goto st679
+		case 9:
+			goto tr900
+		case 32:
+			goto tr900
+		case 58:
+			goto tr901
 		}
 		goto tr416
 	st679:
@@ -16012,10 +15906,20 @@ tr754:
 		}
 	st_case_679:
 		switch data[p] {
+		case 9:
+			goto tr902
+		case 32:
+			goto tr902
+		case 58:
+			goto tr903
 		case 69:
 			goto st680
+		case 85:
+			goto st685
 		case 101:
 			goto st680
+		case 117:
+			goto st685
 		}
 		goto tr416
 	st680:
@@ -16036,12 +15940,10 @@ tr754:
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 86:
+			goto st682
+		case 118:
+			goto st682
 		}
 		goto tr416
 	st682:
@@ -16050,9 +15952,9 @@ tr754:
 		}
 	st_case_682:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st683
-		case 117:
+		case 101:
 			goto st683
 		}
 		goto tr416
@@ -16062,9 +15964,9 @@ tr754:
 		}
 	st_case_683:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st684
-		case 116:
+		case 114:
 			goto st684
 		}
 		goto tr416
@@ -16074,10 +15976,12 @@ tr754:
 		}
 	st_case_684:
 		switch data[p] {
-		case 69:
-			goto st685
-		case 101:
-			goto st685
+		case 9:
+			goto tr910
+		case 32:
+			goto tr910
+		case 58:
+			goto tr911
 		}
 		goto tr416
 	st685:
@@ -16086,12 +15990,14 @@ tr754:
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr908
-		case 32:
-			goto tr908
-		case 58:
-			goto tr909
+		case 66:
+			goto st686
+		case 80:
+			goto st691
+		case 98:
+			goto st686
+		case 112:
+			goto st691
 		}
 		goto tr416
 	st686:
@@ -16100,20 +16006,10 @@ tr754:
 		}
 	st_case_686:
 		switch data[p] {
-		case 9:
-			goto tr910
-		case 32:
-			goto tr910
-		case 58:
-			goto tr911
-		case 69:
+		case 74:
 			goto st687
-		case 85:
-			goto st692
-		case 101:
+		case 106:
 			goto st687
-		case 117:
-			goto st692
 		}
 		goto tr416
 	st687:
@@ -16122,9 +16018,9 @@ tr754:
 		}
 	st_case_687:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st688
-		case 114:
+		case 101:
 			goto st688
 		}
 		goto tr416
@@ -16134,9 +16030,9 @@ tr754:
 		}
 	st_case_688:
 		switch data[p] {
-		case 86:
+		case 67:
 			goto st689
-		case 118:
+		case 99:
 			goto st689
 		}
 		goto tr416
@@ -16146,9 +16042,9 @@ tr754:
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st690
-		case 101:
+		case 116:
 			goto st690
 		}
 		goto tr416
@@ -16158,10 +16054,12 @@ tr754:
 		}
 	st_case_690:
 		switch data[p] {
-		case 82:
-			goto st691
-		case 114:
-			goto st691
+		case 9:
+			goto tr902
+		case 32:
+			goto tr902
+		case 58:
+			goto tr903
 		}
 		goto tr416
 	st691:
@@ -16170,12 +16068,10 @@ tr754:
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr918
-		case 32:
-			goto tr918
-		case 58:
-			goto tr919
+		case 80:
+			goto st692
+		case 112:
+			goto st692
 		}
 		goto tr416
 	st692:
@@ -16184,14 +16080,10 @@ tr754:
 		}
 	st_case_692:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st693
-		case 80:
-			goto st698
-		case 98:
+		case 111:
 			goto st693
-		case 112:
-			goto st698
 		}
 		goto tr416
 	st693:
@@ -16200,9 +16092,9 @@ tr754:
 		}
 	st_case_693:
 		switch data[p] {
-		case 74:
+		case 82:
 			goto st694
-		case 106:
+		case 114:
 			goto st694
 		}
 		goto tr416
@@ -16212,9 +16104,9 @@ tr754:
 		}
 	st_case_694:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st695
-		case 101:
+		case 116:
 			goto st695
 		}
 		goto tr416
@@ -16224,9 +16116,9 @@ tr754:
 		}
 	st_case_695:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st696
-		case 99:
+		case 101:
 			goto st696
 		}
 		goto tr416
@@ -16236,10 +16128,10 @@ tr754:
 		}
 	st_case_696:
 		switch data[p] {
-		case 84:
-			goto st697
-		case 116:
-			goto st697
+		case 68:
+			goto st504
+		case 100:
+			goto st504
 		}
 		goto tr416
 	st697:
@@ -16249,11 +16141,19 @@ tr754:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr910
+			goto tr923
 		case 32:
-			goto tr910
+			goto tr923
 		case 58:
-			goto tr911
+			goto tr924
+		case 73:
+			goto st698
+		case 79:
+			goto st706
+		case 105:
+			goto st698
+		case 111:
+			goto st706
 		}
 		goto tr416
 	st698:
@@ -16262,9 +16162,9 @@ tr754:
 		}
 	st_case_698:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st699
-		case 112:
+		case 109:
 			goto st699
 		}
 		goto tr416
@@ -16274,9 +16174,9 @@ tr754:
 		}
 	st_case_699:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st700
-		case 111:
+		case 101:
 			goto st700
 		}
 		goto tr416
@@ -16286,9 +16186,9 @@ tr754:
 		}
 	st_case_700:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st701
-		case 114:
+		case 115:
 			goto st701
 		}
 		goto tr416
@@ -16310,9 +16210,9 @@ tr754:
 		}
 	st_case_702:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st703
-		case 101:
+		case 97:
 			goto st703
 		}
 		goto tr416
@@ -16322,10 +16222,10 @@ tr754:
 		}
 	st_case_703:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 77:
+			goto st704
+		case 109:
+			goto st704
 		}
 		goto tr416
 	st704:
@@ -16334,20 +16234,10 @@ tr754:
 		}
 	st_case_704:
 		switch data[p] {
-		case 9:
-			goto tr931
-		case 32:
-			goto tr931
-		case 58:
-			goto tr932
-		case 73:
+		case 80:
 			goto st705
-		case 79:
-			goto st713
-		case 105:
+		case 112:
 			goto st705
-		case 111:
-			goto st713
 		}
 		goto tr416
 	st705:
@@ -16356,10 +16246,12 @@ tr754:
 		}
 	st_case_705:
 		switch data[p] {
-		case 77:
-			goto st706
-		case 109:
-			goto st706
+		case 9:
+			goto tr934
+		case 32:
+			goto tr934
+		case 58:
+			goto tr935
 		}
 		goto tr416
 	st706:
@@ -16368,10 +16260,12 @@ tr754:
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
-			goto st707
-		case 101:
-			goto st707
+		case 9:
+			goto tr923
+		case 32:
+			goto tr923
+		case 58:
+			goto tr924
 		}
 		goto tr416
 	st707:
@@ -16380,10 +16274,20 @@ tr754:
 		}
 	st_case_707:
 		switch data[p] {
+		case 9:
+			goto tr502
+		case 32:
+			goto tr502
+		case 58:
+			goto tr503
+		case 78:
+			goto st708
 		case 83:
+			goto st718
+		case 110:
 			goto st708
 		case 115:
-			goto st708
+			goto st718
 		}
 		goto tr416
 	st708:
@@ -16392,9 +16296,9 @@ tr754:
 		}
 	st_case_708:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st709
-		case 116:
+		case 115:
 			goto st709
 		}
 		goto tr416
@@ -16404,9 +16308,9 @@ tr754:
 		}
 	st_case_709:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st710
-		case 97:
+		case 117:
 			goto st710
 		}
 		goto tr416
@@ -16416,9 +16320,9 @@ tr754:
 		}
 	st_case_710:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st711
-		case 109:
+		case 112:
 			goto st711
 		}
 		goto tr416
@@ -16440,12 +16344,10 @@ tr754:
 		}
 	st_case_712:
 		switch data[p] {
-		case 9:
-			goto tr942
-		case 32:
-			goto tr942
-		case 58:
-			goto tr943
+		case 79:
+			goto st713
+		case 111:
+			goto st713
 		}
 		goto tr416
 	st713:
@@ -16454,12 +16356,10 @@ tr754:
 		}
 	st_case_713:
 		switch data[p] {
-		case 9:
-			goto tr931
-		case 32:
-			goto tr931
-		case 58:
-			goto tr932
+		case 82:
+			goto st714
+		case 114:
+			goto st714
 		}
 		goto tr416
 	st714:
@@ -16468,20 +16368,10 @@ tr754:
 		}
 	st_case_714:
 		switch data[p] {
-		case 9:
-			goto tr944
-		case 32:
-			goto tr944
-		case 58:
-			goto tr945
-		case 78:
+		case 84:
 			goto st715
-		case 83:
-			goto st725
-		case 110:
+		case 116:
 			goto st715
-		case 115:
-			goto st725
 		}
 		goto tr416
 	st715:
@@ -16490,9 +16380,9 @@ tr754:
 		}
 	st_case_715:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st716
-		case 115:
+		case 101:
 			goto st716
 		}
 		goto tr416
@@ -16502,9 +16392,9 @@ tr754:
 		}
 	st_case_716:
 		switch data[p] {
-		case 85:
+		case 68:
 			goto st717
-		case 117:
+		case 100:
 			goto st717
 		}
 		goto tr416
@@ -16514,10 +16404,12 @@ tr754:
 		}
 	st_case_717:
 		switch data[p] {
-		case 80:
-			goto st718
-		case 112:
-			goto st718
+		case 9:
+			goto tr947
+		case 32:
+			goto tr947
+		case 58:
+			goto tr948
 		}
 		goto tr416
 	st718:
@@ -16526,9 +16418,9 @@ tr754:
 		}
 	st_case_718:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st719
-		case 112:
+		case 101:
 			goto st719
 		}
 		goto tr416
@@ -16538,9 +16430,9 @@ tr754:
 		}
 	st_case_719:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st720
-		case 111:
+		case 114:
 			goto st720
 		}
 		goto tr416
@@ -16549,10 +16441,7 @@ tr754:
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		if data[p] == 45 {
 			goto st721
 		}
 		goto tr416
@@ -16562,9 +16451,9 @@ tr754:
 		}
 	st_case_721:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st722
-		case 116:
+		case 97:
 			goto st722
 		}
 		goto tr416
@@ -16574,9 +16463,9 @@ tr754:
 		}
 	st_case_722:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st723
-		case 101:
+		case 103:
 			goto st723
 		}
 		goto tr416
@@ -16586,9 +16475,9 @@ tr754:
 		}
 	st_case_723:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st724
-		case 100:
+		case 101:
 			goto st724
 		}
 		goto tr416
@@ -16598,12 +16487,10 @@ tr754:
 		}
 	st_case_724:
 		switch data[p] {
-		case 9:
-			goto tr957
-		case 32:
-			goto tr957
-		case 58:
-			goto tr958
+		case 78:
+			goto st725
+		case 110:
+			goto st725
 		}
 		goto tr416
 	st725:
@@ -16612,9 +16499,9 @@ tr754:
 		}
 	st_case_725:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st726
-		case 101:
+		case 116:
 			goto st726
 		}
 		goto tr416
@@ -16624,10 +16511,12 @@ tr754:
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
-			goto st727
-		case 114:
-			goto st727
+		case 9:
+			goto tr957
+		case 32:
+			goto tr957
+		case 58:
+			goto tr958
 		}
 		goto tr416
 	st727:
@@ -16635,8 +16524,17 @@ tr754:
 			goto _test_eof727
 		}
 	st_case_727:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st728
+		case 32:
 			goto st728
+		case 58:
+			goto st729
+		case 73:
+			goto st733
+		case 105:
+			goto st733
 		}
 		goto tr416
 	st728:
@@ -16645,72 +16543,88 @@ tr754:
 		}
 	st_case_728:
 		switch data[p] {
-		case 65:
-			goto st729
-		case 97:
+		case 9:
+			goto st728
+		case 32:
+			goto st728
+		case 58:
 			goto st729
 		}
-		goto tr416
+		goto st0
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		switch data[p] {
-		case 71:
-			goto st730
-		case 103:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 269:
+			goto tr962
+		case 525:
 			goto st730
 		}
-		goto tr416
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr962
+			}
+		default:
+			goto tr962
+		}
+		goto st0
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		switch data[p] {
-		case 69:
-			goto st731
-		case 101:
+		if data[p] == 10 {
 			goto st731
 		}
-		goto tr416
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st732
-		case 110:
+		case 32:
 			goto st732
 		}
-		goto tr416
+		goto st0
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 84:
-			goto st733
-		case 116:
-			goto st733
+		case 9:
+			goto st732
+		case 32:
+			goto st732
 		}
-		goto tr416
+		goto tr962
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
-	st_case_733:
-		switch data[p] {
-		case 9:
-			goto tr967
-		case 32:
-			goto tr967
-		case 58:
-			goto tr968
+	st_case_733:
+		switch data[p] {
+		case 65:
+			goto st734
+		case 97:
+			goto st734
 		}
 		goto tr416
 	st734:
@@ -16720,15 +16634,11 @@ tr754:
 	st_case_734:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto st728
 		case 32:
-			goto st735
+			goto st728
 		case 58:
-			goto st736
-		case 73:
-			goto st740
-		case 105:
-			goto st740
+			goto st729
 		}
 		goto tr416
 	st735:
@@ -16737,87 +16647,73 @@ tr754:
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st735
-		case 32:
-			goto st735
-		case 58:
+		case 65:
+			goto st736
+		case 87:
+			goto st742
+		case 97:
 			goto st736
+		case 119:
+			goto st742
 		}
-		goto st0
+		goto tr416
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st736
-		case 32:
-			goto st736
-		case 269:
-			goto tr972
-		case 525:
+		switch data[p] {
+		case 82:
+			goto st737
+		case 114:
 			goto st737
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr972
-			}
-		default:
-			goto tr972
-		}
-		goto st0
+		goto tr416
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st738
+		case 110:
 			goto st738
 		}
-		goto st0
+		goto tr416
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st739
-		case 32:
+		case 105:
 			goto st739
 		}
-		goto st0
+		goto tr416
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 9:
-			goto st739
-		case 32:
-			goto st739
+		case 78:
+			goto st740
+		case 110:
+			goto st740
 		}
-		goto tr972
+		goto tr416
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st741
-		case 97:
+		case 103:
 			goto st741
 		}
 		goto tr416
@@ -16828,11 +16724,11 @@ tr754:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto tr974
 		case 32:
-			goto st735
+			goto tr974
 		case 58:
-			goto st736
+			goto tr975
 		}
 		goto tr416
 	st742:
@@ -16841,14 +16737,10 @@ tr754:
 		}
 	st_case_742:
 		switch data[p] {
-		case 65:
-			goto st743
 		case 87:
-			goto st749
-		case 97:
 			goto st743
 		case 119:
-			goto st749
+			goto st743
 		}
 		goto tr416
 	st743:
@@ -16856,10 +16748,7 @@ tr754:
 			goto _test_eof743
 		}
 	st_case_743:
-		switch data[p] {
-		case 82:
-			goto st744
-		case 114:
+		if data[p] == 45 {
 			goto st744
 		}
 		goto tr416
@@ -16869,9 +16758,9 @@ tr754:
 		}
 	st_case_744:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st745
-		case 110:
+		case 97:
 			goto st745
 		}
 		goto tr416
@@ -16881,9 +16770,9 @@ tr754:
 		}
 	st_case_745:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st746
-		case 105:
+		case 117:
 			goto st746
 		}
 		goto tr416
@@ -16893,9 +16782,9 @@ tr754:
 		}
 	st_case_746:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st747
-		case 110:
+		case 116:
 			goto st747
 		}
 		goto tr416
@@ -16905,9 +16794,9 @@ tr754:
 		}
 	st_case_747:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st748
-		case 103:
+		case 104:
 			goto st748
 		}
 		goto tr416
@@ -16917,12 +16806,10 @@ tr754:
 		}
 	st_case_748:
 		switch data[p] {
-		case 9:
-			goto tr984
-		case 32:
-			goto tr984
-		case 58:
-			goto tr985
+		case 69:
+			goto st749
+		case 101:
+			goto st749
 		}
 		goto tr416
 	st749:
@@ -16931,9 +16818,9 @@ tr754:
 		}
 	st_case_749:
 		switch data[p] {
-		case 87:
+		case 78:
 			goto st750
-		case 119:
+		case 110:
 			goto st750
 		}
 		goto tr416
@@ -16942,7 +16829,10 @@ tr754:
 			goto _test_eof750
 		}
 	st_case_750:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st751
+		case 116:
 			goto st751
 		}
 		goto tr416
@@ -16952,9 +16842,9 @@ tr754:
 		}
 	st_case_751:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st752
-		case 97:
+		case 105:
 			goto st752
 		}
 		goto tr416
@@ -16964,9 +16854,9 @@ tr754:
 		}
 	st_case_752:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st753
-		case 117:
+		case 99:
 			goto st753
 		}
 		goto tr416
@@ -16976,9 +16866,9 @@ tr754:
 		}
 	st_case_753:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st754
-		case 116:
+		case 97:
 			goto st754
 		}
 		goto tr416
@@ -16988,9 +16878,9 @@ tr754:
 		}
 	st_case_754:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st755
-		case 104:
+		case 116:
 			goto st755
 		}
 		goto tr416
@@ -17011,106 +16901,22 @@ tr754:
 			goto _test_eof756
 		}
 	st_case_756:
-		switch data[p] {
-		case 78:
-			goto st757
-		case 110:
-			goto st757
-		}
-		goto tr416
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
-		switch data[p] {
-		case 84:
-			goto st758
-		case 116:
-			goto st758
-		}
-		goto tr416
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-		switch data[p] {
-		case 73:
-			goto st759
-		case 105:
-			goto st759
-		}
-		goto tr416
-	st759:
-		if p++; p == pe {
-			goto _test_eof759
-		}
-	st_case_759:
-		switch data[p] {
-		case 67:
-			goto st760
-		case 99:
-			goto st760
-		}
-		goto tr416
-	st760:
-		if p++; p == pe {
-			goto _test_eof760
-		}
-	st_case_760:
-		switch data[p] {
-		case 65:
-			goto st761
-		case 97:
-			goto st761
-		}
-		goto tr416
-	st761:
-		if p++; p == pe {
-			goto _test_eof761
-		}
-	st_case_761:
-		switch data[p] {
-		case 84:
-			goto st762
-		case 116:
-			goto st762
-		}
-		goto tr416
-	st762:
-		if p++; p == pe {
-			goto _test_eof762
-		}
-	st_case_762:
-		switch data[p] {
-		case 69:
-			goto st763
-		case 101:
-			goto st763
-		}
-		goto tr416
-	st763:
-		if p++; p == pe {
-			goto _test_eof763
-		}
-	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr1000
+			goto tr990
 		case 32:
-			goto tr1000
+			goto tr990
 		case 58:
-			goto tr1001
+			goto tr991
 		}
 		goto tr416
-	st764:
+	st757:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof757
 		}
-	st_case_764:
+	st_case_757:
 		if data[p] == 10 {
-			goto tr1002
+			goto tr992
 		}
 		goto st0
 	st_out:
@@ -17126,7 +16932,7 @@ tr754:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -17158,7 +16964,7 @@ tr754:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -17186,7 +16992,7 @@ tr754:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17230,7 +17036,7 @@ tr754:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17273,7 +17079,7 @@ tr754:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17313,7 +17119,7 @@ tr754:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17353,7 +17159,7 @@ tr754:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17366,25 +17172,25 @@ tr754:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
+	_test_eof768: cs = 768; goto _test_eof
+	_test_eof769: cs = 769; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof778: cs = 778; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17397,14 +17203,14 @@ tr754:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof779: cs = 779; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof780: cs = 780; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
@@ -17413,7 +17219,7 @@ tr754:
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17887,25 +17693,18 @@ tr754:
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
 	_test_eof757: cs = 757; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
+		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:179
 
 	p = ( mark) - 1
 
 	{goto st273 }
 
-//line msg_parse.go:17900
+//line msg_parse.go:17699
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 068caf8..1386480 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -469,7 +469,7 @@ sname    = "Accept"i %{value=&msg.Accept}
          | ("Accept-Contact"i | "a"i) %{value=&msg.AcceptContact}
          | "Accept-Encoding"i %{value=&msg.AcceptEncoding}
          | "Accept-Language"i %{value=&msg.AcceptLanguage}
-         | ("Allow"i | "u"i) %{value=&msg.Allow}
+         | "Allow"i %{value=&msg.Allow}
          | ("Allow-Events"i | "u"i) %{value=&msg.AllowEvents}
          | "Alert-Info"i %{value=&msg.AlertInfo}
          | "Authentication-Info"i %{value=&msg.AuthenticationInfo}
@@ -510,9 +510,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From 19652d82881d82e56faf1467d38dd90b623a7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 27/35] fix: copy display names, and give copies their own
 parameter and header lists

---
 sip/addr.go      | 3 ++-
 sip/msg.go       | 2 +-
 sip/param.go     | 8 ++++++++
 sip/uri.go       | 4 ++--
 sip/uriheader.go | 8 ++++++++
 sip/uriparam.go  | 8 ++++++++
 sip/via.go       | 2 +-
 sip/xheader.go   | 8 ++++++++
 8 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..3da75fd 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,7 +93,8 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
-	res.Param = addr.Param
+	res.Display = addr.Display
+	res.Param = addr.Param.Copy()
 	res.Next = addr.Next.Copy()
 	return res
 }
diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..f5032c5 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -122,7 +122,7 @@ func (msg *Msg) Copy() *Msg {
 	res.Route = msg.Route.Copy()
 	res.Contact = msg.Contact.Copy()
 	res.RecordRoute = msg.RecordRoute.Copy()
-	res.XHeader = msg.XHeader
+	res.XHeader = msg.XHeader.Copy()
 	return res
 }
 
diff --git a/sip/param.go b/sip/param.go
index 6cf5465..e29c357 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -39,6 +39,14 @@ func (p *Param) Get(name string) *Param {
 	return nil
 }
 
+// Copy deep copies a parameter list.
+func (p *Param) Copy() *Param {
+	if p == nil {
+		return nil
+	}
+	return &Param{Name: p.Name, Value: p.Value, Next: p.Next.Copy()}
+}
+
 // Append serializes parameters in insertion order.
 func (p *Param) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uri.go b/sip/uri.go
index 126a869..03b1f7e 100755
--- a/sip/uri.go
+++ b/sip/uri.go
@@ -63,8 +63,8 @@ func (uri *URI) Copy() *URI {
 	}
 	res := new(URI)
 	*res = *uri
-	res.Param = uri.Param
-	res.Header = uri.Header
+	res.Param = uri.Param.Copy()
+	res.Header = uri.Header.Copy()
 	return res
 }
 
diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..03b40df 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -39,6 +39,14 @@ func (p *URIHeader) Get(name string) *URIHeader {
 	return p.Next.Get(name)
 }
 
+// Copy deep copies a URI header list.
+func (p *URIHeader) Copy() *URIHeader {
+	if p == nil {
+		return nil
+	}
+	return &URIHeader{Name: p.Name, Value: p.Value, Next: p.Next.Copy()}
+}
+
 // Append serializes URI headers in insertion order.
 func (p *URIHeader) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uriparam.go b/sip/uriparam.go
index 7b1c705..dc71007 100644
--- a/sip/uriparam.go
+++ b/sip/uriparam.go
@@ -39,6 +39,14 @@ func (p *URIParam) Get(name string) *URIParam {
 	return p.Next.Get(name)
 }
 
+// Copy deep copies a URI parameter list.
+func (p *URIParam) Copy() *URIParam {
+	if p == nil {
+		return nil
+	}
+	return &URIParam{Name: p.Name, Value: p.Value, Next: p.Next.Copy()}
+}
+
 // Append serializes URI parameters in insertion order.
 func (p *URIParam) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/via.go b/sip/via.go
index 231ef9b..da66830 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -72,7 +72,7 @@ func (via *Via) Copy() *Via {
 	res.Transport = via.Transport
 	res.Host = via.Host
 	res.Port = via.Port
-	res.Param = via.Param
+	res.Param = via.Param.Copy()
 	res.Next = via.Next.Copy()
 	return res
 }
diff --git a/sip/xheader.go b/sip/xheader.go
index 23ea54d..316e56c 100644
--- a/sip/xheader.go
+++ b/sip/xheader.go
@@ -46,6 +46,14 @@ func (h *XHeader) String() string {
 	return b.String()
 }
 
+// Copy deep copies a list of extension headers.
+func (h *XHeader) Copy() *XHeader {
+	if h == nil {
+		return nil
+	}
+	return &XHeader{Name: h.Name, Value: append([]byte{}, h.Value...), Next: h.Next.Copy()}
+}
+
 // Append serializes headers in insertion order.
 func (h *XHeader) Append(b *bytes.Buffer) {
 	if h == nil {
-- 
2.43.0


From 795ab823f0dbaa9a76a55a29cdda03961f92284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 28/35] fix: write Retry-After under its name, and
 Accept-Contact at all

---
 sip/msg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index f5032c5..c04fc4b 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
@@ -399,7 +405,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 4dccfd62b3729448cddea1fd66dfb2f34df48b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 29/35] fix: escape the ampersand in URI headers

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 03b40df..59d84a5 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -58,9 +58,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From 532709ca3ef466a1f36ce298d91b78591fb708e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 30/35] fix: write Via hosts so that they can be read again:
 IPv6 in brackets, no port 0

---
 sip/via.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index da66830..29370c7 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,14 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteByte('[')
+		b.WriteString(via.Host)
+		b.WriteByte(']')
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 0 && via.Port != 5060 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From 37dfe585e35d2e6f47f078f7bf18f66f73f53fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:46 +0000
Subject: [PATCH 31/35] fix: quote parameter values that contain spaces

---
 sip/param.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index e29c357..c7e3a8a 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -57,6 +57,10 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		if strings.IndexByte(p.Value, ' ') >= 0 {
+			appendQuoteQuoted(b, []byte(p.Value))
+		} else {
+			appendQuoted(b, []byte(p.Value))
+		}
 	}
 }
-- 
2.43.0


From 48193e5849d9bacb4b32045a7a27c2eaac674792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:18 +0000
Subject: [PATCH 32/35] fix: do not let a bare line feed in a quoted text break
 the line

---
 sip/quote.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..bf5a5db 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -53,6 +53,12 @@ func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 					!(s[i+2] == ' ' || s[i+2] == '\t') {
 					break
 				}
+				b.WriteString("\r\n")
+				i++
+				continue
+			}
+			if s[i] == '\n' {
+				break
 			}
 		} else {
 			if !qdtextesc(s[i]) {
-- 
2.43.0


From 7c739c08d99a3a3031457ee820a60fa7c8da5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 33/35] fix: escape reason phrases, which may have been parsed
 from escaped line breaks

---
 sip/charsets.go | 5 +++++
 sip/msg.go      | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..0061308 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -55,6 +55,11 @@ func qdtextesc(c byte) bool {
 		0x0E <= c && c <= 0x7F
 }
 
+// phrasec leaves alone what may stand unescaped in a reason phrase.
+func phrasec(c byte) bool {
+	return c == '\t' || c >= ' ' && c != '%' && c != 0x7F
+}
+
 func whitespacec(c byte) bool {
 	return c == ' ' || c == '\t' || c == '\r' || c == '\n'
 }
diff --git a/sip/msg.go b/sip/msg.go
index c04fc4b..4518b96 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -155,7 +155,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendEscaped(b, []byte(msg.Phrase), phrasec)
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From a4a91cce199b1d53fde211ac9c749707cdc3bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:01 +0000
Subject: [PATCH 34/35] fix: refuse session descriptions with an empty address
 in the c= or o= line

---
 sdp/sdp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..adae2f7 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -481,6 +481,9 @@ func parseConnLine(line string) (addr string, err error) {
 		return "", errors.New("unsupported conn net type")
 	}
 	addr = toks[2]
+	if addr == "" {
+		return "", errors.New("missing address in c= line")
+	}
 	if n := strings.Index(addr, "/"); n >= 0 {
 		return "", errors.New("multicast address in c= line D:")
 	}
@@ -500,6 +503,9 @@ func parseOriginLine(origin *Origin, line string) error {
 	origin.ID = toks[1]
 	origin.Version = toks[2]
 	origin.Addr = toks[5]
+	if origin.Addr == "" {
+		return errors.New("missing address in o= line")
+	}
 	if n := strings.Index(origin.Addr, "/"); n >= 0 {
 		return errors.New("multicast address in o= line D:")
 	}
-- 
2.43.0


From e73216e782bbbc5a809554c18c5e283ea69ecb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:01 +0000
Subject: [PATCH 35/35] fix: refuse media lines with an empty protocol

---
 sdp/sdp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index adae2f7..fc8cb99 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -457,6 +457,9 @@ func parseMediaInfo(s string) (port uint16, proto string, pts []uint8, err error
 
 	// Is it rtp? srtp? udp? tcp? etc. (must be 3+ chars)
 	proto = toks[1]
+	if proto == "" {
+		return 0, "", nil, errors.New("missing protocol in m= line")
+	}
 
 	// The rest of these tokens are payload types sorted by preference.
 	pts = make([]uint8, len(toks)-2)
-- 
2.43.0

