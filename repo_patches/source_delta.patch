From 2109a471cdbff9287ba2f9faa147c12eddc68a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 01/49] fix: reject malformed or incomplete digest credentials
 instead of raising

SipAuthorization.verify() let AttributeError, KeyError, IndexError or
ValueError escape when the header could not be parsed, lacked a field or
named an unknown algorithm.
---
 sippy/SipAuthorization.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..bb7d5e9 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -127,16 +127,29 @@ class SipAuthorization(SipGenericHF):
             return self.__class__(self.body)
         return self.__class__(cself = self)
 
-    def verify(self, password, method, body = None):
+    def canVerify(self):
+        # What arrives from the network might be malformed or incomplete
         if not self.parsed:
-            self.parse()
+            try:
+                self.parse()
+            except (IndexError, ValueError):
+                return False
+        if None in (self.username, self.uri, self.realm, self.nonce, self.response):
+            return False
+        if self.algorithm not in _HASH_FUNC:
+            return False
+        if self.algorithm != None and self.algorithm.endswith('-sess') and self.cnonce == None:
+            return False
+        return True
+
+    def verify(self, password, method, body = None):
+        if not self.canVerify():
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
     def verifyHA1(self, HA1, method, body):
-        if not self.parsed:
-            self.parse()
-        if self.algorithm not in _HASH_FUNC:
+        if not self.canVerify():
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
-- 
2.43.0


From fd8bb1f4b3d4dcc97b7a81d325a054ccc31757d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 02/49] fix: do not accept nonces with foreign characters or
 padding added

b64decode() silently drops characters outside of the alphabet and excess
padding, so a nonce altered that way was still taken for the one issued.
---
 sippy/Security/SipNonce.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..9da8f84 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,11 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
+        b64enc = enc
         enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        if b64encode(enc).rstrip(b'=') != b64enc:
+            # b64decode() is too liberal in what it accepts
+            raise ValueError
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
-- 
2.43.0


From 333a4064be60812b5381451aa85e553152a240a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 03/49] fix: keep the re-INVITE pending when ring or redirect
 is relayed to its sender

---
 sippy/UasStateUpdating.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..69e6cd8 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -58,6 +58,14 @@ class UasStateUpdating(UasStateGeneric):
       'REFER': _recvRequestRefer,
     }
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventConnect(self, event, eh):
         cdata = self._getConnectData(event)
         if cdata is None:
@@ -81,9 +89,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From 1077e8dc49a5a39894591bc77745b2a54d2fc94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 04/49] fix: pass proxy challenges to the controller (407 with
 pass_auth)

---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..477839e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From 010f666d4c8f332e78235a29980e3acc71508193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 05/49] fix: do not answer authentication challenges once the
 call has been cancelled

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..091ddcd 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -219,7 +219,8 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
+          self.disconnect_ts is None:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From 44e3d03b05a4fbabc247f4657e0795780a402431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 06/49] fix: handle body-less re-INVITE when there is no remote
 media yet

---
 sippy/UaStateConnected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..a32defc 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,7 +66,7 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-        if body is None:
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
-- 
2.43.0


From 5a93d5eec956614f1a80d618b06ace455518d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 07/49] fix: handle session update without media on either side

---
 sippy/UaStateConnected.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index a32defc..09567e8 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -184,7 +184,8 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and body is not None and \
+          self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
-- 
2.43.0


From 1e34cfc2a82fc968d6901525238ca3cf7d8ea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 08/49] fix: hang up the transferor when REFER arrives during
 session update

---
 sippy/UasStateUpdating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 69e6cd8..3a7aa4d 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -49,6 +49,8 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        bye = self.ua.genRequest('BYE')
+        self.ua.newTransaction(bye)
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
 
-- 
2.43.0


From ef25c092d733ee7c084b89ef404c859552547497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 09/49] fix: do not send BYE on every provisional response to
 REFER

---
 sippy/UaStateConnected.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 09567e8..5d1e393 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -308,5 +308,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
 
     def rComplete(self, resp):
+        if resp.getSCode()[0] < 200:
+            return
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
-- 
2.43.0


From f09916caacf524e44747dfb77d4effd36c80c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 10/49] fix: accept ACK to the initial INVITE while session
 update is in progress

---
 sippy/UacStateUpdating.py | 3 +++
 sippy/UasStateUpdating.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..b088afb 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -29,6 +29,7 @@ from functools import partial
 from sippy.SipHeader import SipHeader
 from sippy.SipReason import SipReason
 from sippy.UaStateGeneric import UaStateGeneric
+from sippy.UaStateConnected import UaStateConnected
 from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
 from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
@@ -36,6 +37,8 @@ class UacStateUpdating(UaStateGeneric):
     sname = 'Updating(UAC)'
     triedauth = False
     connected = True
+    # ACK to the initial INVITE might arrive after the update has been started
+    recvACK = UaStateConnected.recvACK
 
     def _recvRequestInvite(self, req):
         req.sendResponse(491, 'Request Pending')
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 3a7aa4d..2f6c1ba 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -25,11 +25,14 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.UasStateGeneric import UasStateGeneric
+from sippy.UaStateConnected import UaStateConnected
 from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
     connected = True
+    # ACK to the initial INVITE might arrive after the update has been started
+    recvACK = UaStateConnected.recvACK
 
     def _recvRequestInvite(self, req):
         req.sendResponse(491, 'Request Pending')
-- 
2.43.0


From 8ad565f849b5e4bd246fbba13068c32800e9ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 11/49] fix: keep-alive re-INVITE crashed when challenged for
 authentication

---
 sippy/UaStateConnected.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 5d1e393..3df159f 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -270,17 +270,21 @@ class UaStateConnected(UaStateGeneric):
         if code == 401 and resp.countHFs('www-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+            supported, qop = challenge.supportedAlgorithm()
+            if supported:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+            supported, qop = challenge.supportedAlgorithm()
+            if supported:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code < 200:
             return
         self.ka_tr = None
-- 
2.43.0


From 5fdcede45136437541da74764925d0e609800fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 12/49] fix: actually withhold ACK to the INVITE without offer
 until there is an answer

---
 sippy/SipTransactionManager.py | 2 +-
 sippy/UA.py                    | 2 ++
 sippy/UacStateRinging.py       | 6 +++++-
 sippy/UacStateTrying.py        | 9 ++++++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..90cc69d 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -530,7 +530,7 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
+                    if not t.uack or fcode >= 300:
                         self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
                         if t.req_out_cb != None:
                             t.req_out_cb(t.ack)
diff --git a/sippy/UA.py b/sippy/UA.py
index 091ddcd..1b80038 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -483,3 +483,5 @@ class UA(object):
     def newUacTransaction(self, req, **kwa):
         self.tr = self.newTransaction(req, resp_cb = self.recvResponse, \
           cb_ifver = 2, **kwa)
+        # 2xx to the INVITE without offer is ACKed when answer is available
+        self.tr.uack = self.late_media and not self.state.connected
diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index 8534ef7..db11754 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -67,6 +67,8 @@ class UacStateRinging(UacStateTrying):
             tag = resp.getHFBody('to').getTag()
             if tag == None:
                 print('tag-less 200 OK, disconnecting')
+                if tr.uack:
+                    self.ua.global_config['_sip_tm'].sendACK(tr)
                 scode = (502, 'Bad Gateway')
                 event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
                 self.ua.equeue.append(event)
@@ -79,13 +81,14 @@ class UacStateRinging(UacStateTrying):
             self.ua.rUri.setTag(tag)
             if not self.ua.late_media or body is None:
                 self.ua.late_media = False
+                if tr.uack:
+                    self.ua.global_config['_sip_tm'].sendACK(tr)
                 event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
                 self.ua.startCreditTimer(resp.rtime)
                 self.ua.connect_ts = resp.rtime
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
@@ -120,6 +123,7 @@ class UacStateRinging(UacStateTrying):
 
     def recvEvent(self, event):
         if isinstance(event, CCEventFail) or isinstance(event, CCEventRedirect) or isinstance(event, CCEventDisconnect):
+            self.ua.tr.uack = False
             self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr, extra_headers = event.getExtraHeaders())
             if self.ua.expire_timer != None:
                 self.ua.expire_timer.cancel()
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 477839e..3f9da59 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -84,6 +84,8 @@ class UacStateTrying(UaStateGeneric):
             tag = resp.getHFBody('to').getTag()
             if tag == None:
                 print('tag-less 200 OK, disconnecting')
+                if tr.uack:
+                    self.ua.global_config['_sip_tm'].sendACK(tr)
                 scode = (502, 'Bad Gateway')
                 self.ua.equeue.append(CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin))
                 # Generate and send BYE
@@ -96,13 +98,14 @@ class UacStateTrying(UaStateGeneric):
             self.ua.rUri.setTag(tag)
             if not self.ua.late_media or body is None:
                 self.ua.late_media = False
+                if tr.uack:
+                    self.ua.global_config['_sip_tm'].sendACK(tr)
                 event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
                 self.ua.startCreditTimer(resp.rtime)
                 self.ua.connect_ts = resp.rtime
                 rval = (self.ua.UaStateConnected, self.ua.conn_cbs, resp.rtime, self.ua.origin)
             else:
                 event = CCEventPreConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-                tr.uack = True
                 self.ua.pending_tr = tr
                 rval = (self.ua.UaStateConnected,)
             if body is not None:
@@ -142,6 +145,7 @@ class UacStateTrying(UaStateGeneric):
 
     def recvEvent(self, event):
         if isinstance(event, CCEventFail) or isinstance(event, CCEventRedirect) or isinstance(event, CCEventDisconnect):
+            self.ua.tr.uack = False
             self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr, extra_headers = event.getExtraHeaders())
             if self.ua.expire_timer != None:
                 self.ua.expire_timer.cancel()
@@ -194,9 +198,12 @@ class UacStateTrying(UaStateGeneric):
             event.reason_rfc3326 = ex.getReason()
             code = resp.getSCode()[0]
             if code < 200:
+                self.ua.tr.uack = False
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
+                if tr.uack:
+                    self.ua.global_config['_sip_tm'].sendACK(tr)
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-- 
2.43.0


From 64186217d215b49c1f653b526979b0a814a3b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 13/49] fix: default credit time of the route was stored into
 the wrong attribute

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From b883c94608c83728caf856e60705b6e8e9c3a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 14/49] fix: routes to sip-ua were treated as an ordinary host

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..617b3c2 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -295,7 +295,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From f7a6f2935bcf549fba85e724ac31ef6025a2b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 15/49] fix: call rejected with 483 never left the list of
 calls

---
 sippy/b2bua.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 617b3c2..a1c37a1 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -287,6 +287,13 @@ class CallController(object):
 
     def placeOriginate(self, oroute):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
+        max_forwards = self.eTry.max_forwards
+        if max_forwards is not None:
+            max_forwards -= 1
+            if max_forwards <= 0:
+                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+                self.state = CCStateDead
+                return
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
         if 'static_tr_out' in self.global_config:
@@ -349,12 +356,7 @@ class CallController(object):
             cId += '-b2b_%d' % oroute.rnum
         event = CCEventTry((cId, oroute.cli, cld, body, auth, \
           oroute.params.get('caller_name', self.caller_name)))
-        if self.eTry.max_forwards != None:
-            event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
+        event.max_forwards = max_forwards
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From 2f2455a20364aa8129a01af42653134c57692376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 16/49] fix: 401 sent when authorization fails carried no
 challenge

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index a1c37a1..8542d42 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge,]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 6d559eba094403175636978a457a266fd6f7d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 17/49] fix: timeout of a group of routes crashed instead of
 skipping the group

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 8542d42..f30f81d 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -405,17 +405,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From ce0873f51512f99771ce44d83cd95c9d8242ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 18/49] fix: periodic accounting records crashed on monotonic
 time

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..1b75882 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -26,6 +26,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from time import time, strftime, gmtime
+from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import Timeout
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From fe175da901129e1f58cdb70207622e3d9ecc5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 19/49] fix: 'd *', 'lt' and 'llt' control commands crashed

---
 sippy/B2B/SimpleAPI.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..a66a382 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From c265e3ac22e7ea002b2fc4bcab21fa64b5b7b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 20/49] fix: copying a media stream before its session leg
 exists hands the session, not the side, to the update

---
 sippy/Rtp_proxy/Session/side.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..a55dedc 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -249,7 +249,7 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
-- 
2.43.0


From 8a7db56953341f123e178c44a4991c4c46548bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 21/49] fix: start recording without flags sends no 'None' as
 the command modifiers

---
 sippy/Rtp_proxy/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..0e3a35c 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -118,6 +118,8 @@ class Rtp_proxy_session(object):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
     def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+        if rflags is None:
+            rflags = ''
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
-- 
2.43.0


From f318ed798ab2a93dddf5ba9d3416457e94c2c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 22/49] fix: play, copy and record report a failure to create
 the session leg

---
 sippy/Rtp_proxy/Session/side.py | 12 ++++++++++--
 sippy/Rtp_proxy/session.py      |  6 +++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index a55dedc..9bd3a27 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -118,7 +118,11 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex=None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
@@ -256,7 +260,11 @@ class _rtpps_side(object):
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex=None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 0e3a35c..6adcf56 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -139,15 +139,15 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex=None):
         if result is None:
-            return next_stage(None)
+            return next_stage(None) if next_stage is not None else None
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            return result_callback(None) if result_callback is not None else None
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
-- 
2.43.0


From 73fb262d96fdbb33d7a4962cbe108a2a9f3bb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 23/49] fix: a failed session statistics query reports no
 statistics

---
 sippy/Rtp_proxy/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 6adcf56..c08567f 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -178,9 +178,9 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
+        t1 = result.split() if result is not None else ()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        if len(t1) <= 1:
             result_callback(None, *callback_parameters)
             return
         ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
-- 
2.43.0


From 21f343d5067dc54f0b9ac073ee6fb2550eb37f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 24/49] fix: an update answered after its session was deleted
 still gets its result

---
 sippy/Rtp_proxy/Session/side.py   | 1 +
 sippy/Rtp_proxy/Session/update.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 9bd3a27..f528bdc 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -69,6 +69,7 @@ class _rtpps_side(object):
         command = 'U'
         up.rtpps.max_index = max(up.rtpps.max_index, up.index)
         rtpc = up.rtpps.rtp_proxy_client
+        up.rtp_proxy_client = rtpc
         rtpq = up.rtpps.rtpp_seq
         options = up.options
         if rtpc.sbind_supported:
diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..5b0d66a 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -28,6 +28,7 @@ from sippy.Exceptions.RtpProxyError import RtpProxyError
 
 class update_params():
     rtpps = None
+    rtp_proxy_client = None
     remote_ip = '0.0.0.0'
     remote_port = 0
     result_callback:callable = None
@@ -95,7 +96,7 @@ class update_params():
             if len(t1) > 2 and t1[2] == '6':
                 ur.family = 'IP6'
         else:
-            ur.rtpproxy_address = self.rtpps.rtp_proxy_client.proxy_address
+            ur.rtpproxy_address = self.rtp_proxy_client.proxy_address
         # Old-style request to put session on hold, convert it into
         # a new-style request.
         if self.atype == 'IP4' and self.remote_ip == '0.0.0.0':
-- 
2.43.0


From 932083b85760f1396591d864a7da17c232975ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 25/49] fix: all b= lines of an SDP are kept, not only the last
 one

---
 sippy/SdpBody.py             | 5 ++++-
 sippy/SdpMediaDescription.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..c3752f6 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -85,7 +85,7 @@ class SdpBody(object):
                 elif name == 'a':
                     self.a_headers.append(a_header(v))
                 else:
-                    setattr(self, name + '_header', f_types[name](v))
+                    self.addHeader(name, v)
             else:
                 self.sections[-1].addHeader(name, v)
         if c_header != None:
@@ -220,5 +220,8 @@ class SdpBody(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name == 'b' and self.b_header != None:
+            # Zero or more b= lines are allowed, keep them all
+            self.b_header = f_types[name]('%s\r\nb=%s' % (self.b_header, header))
         else:
             setattr(self, name + '_header', f_types[name](header))
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..a442abb 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -106,6 +106,9 @@ class SdpMediaDescription(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name == 'b' and self.b_header != None:
+            # Zero or more b= lines are allowed, keep them all
+            self.b_header = f_types[name]('%s\r\nb=%s' % (self.b_header, header))
         else:
             setattr(self, name + '_header', f_types[name](header))
 
-- 
2.43.0


From 1fd560c74c20abf22a39e79011f2b9790b9348c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 26/49] fix: the registration agent sends the interval it asks
 for

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..5ee3d5a 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -58,7 +58,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From 8522d75544485c75a0504e6d4a9e22395abeee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 27/49] fix: the challenge of a proxy is answered with
 Proxy-Authorization by the registration agent

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 5ee3d5a..319b66f 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 1691f6ce93b3ffafeb35170a85fe0c4a434dbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 28/49] fix: the registration agent takes the interval granted
 to its own binding

---
 sippy/SipRegistrationAgent.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 319b66f..fb0b25c 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -42,6 +42,7 @@ class SipRegistrationAgent(object):
     atries = 0
     source_address = None
     exp = None
+    contact_url = None
 
     def __init__(self, global_config, aor, contact, user = None, passw = None, exp = 180, rok_cb = None, rfail_cb = None, cb_arg = None, target = None):
         self.global_config = global_config
@@ -59,6 +60,7 @@ class SipRegistrationAgent(object):
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
         contact.address.setParam('expires', str(exp))
+        self.contact_url = contact.address.url
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
@@ -80,9 +82,7 @@ class SipRegistrationAgent(object):
         if resp.scode < 200:
             return
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
-            contact = None
-            if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+            contact = self.getBinding(resp)
             if contact != None and 'expires' in contact.address.params:
                 tout = int(contact.address.params['expires'])
             elif resp.countHFs('expires') > 0:
@@ -117,3 +117,14 @@ class SipRegistrationAgent(object):
             self.rfail_cb(resp.getSL(), self.cb_arg)
         Timeout(self.doregister, 60)
         self.atries = 0
+
+    def getBinding(self, resp):
+        # The registrar lists all current bindings of the AOR, not only the
+        # one that we have created, in no particular order
+        contacts = resp.getHFBodys('contact')
+        for contact in contacts:
+            url = contact.getUrl()
+            if (url.username, str(url.getHost()).lower(), url.getPort()) == (self.contact_url.username, \
+              str(self.contact_url.getHost()).lower(), self.contact_url.getPort()):
+                return contact
+        return contacts[0] if len(contacts) > 0 else None
-- 
2.43.0


From fa3773d23e291b9e73a6577345195afa04072459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 29/49] fix: bodies of 100 and 4xx-6xx responses are kept

---
 sippy/SipResponse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/SipResponse.py b/sippy/SipResponse.py
index 3ec8e25..a6d083c 100644
--- a/sippy/SipResponse.py
+++ b/sippy/SipResponse.py
@@ -26,6 +26,7 @@
 
 from sippy.SipMsg import SipMsg
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SipParseError import SipParseError
 
 class SipResponse(SipMsg):
     scode = None
@@ -37,8 +38,12 @@ class SipResponse(SipMsg):
                  cseq = None, body = None, rrs = (), server = None):
         SipMsg.__init__(self, buf)
         if buf != None:
-            if self.scode > 100 and self.scode < 400:
+            try:
                 SipMsg.init_body(self)
+            except SipParseError:
+                # Broken body only matters where a session description goes
+                if self.scode > 100 and self.scode < 400:
+                    raise
             return
         self.scode, self.reason, self.sipver = scode, reason, sipver
         if vias != None:
-- 
2.43.0


From 02f36f706c771b47bc3c682e2cc8facf6ccbafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 30/49] fix: Content-Length counts bytes, not characters

---
 sippy/SipMsg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..0383cb4 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -107,7 +107,7 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                mblen = len(self.__mbody.encode('utf-8'))
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +141,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode('utf-8')[:blen].decode('utf-8', 'ignore')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +156,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +170,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             s += mbody
         else:
             if compact:
-- 
2.43.0


From c09da9cd6117d3ad8f859d6f4f7b0fb084b87f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 31/49] fix: a request cut short of its body gets its 400

---
 sippy/SipTransactionManager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 90cc69d..509c80f 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -331,12 +331,12 @@ class SipTransactionManager(object):
                 req = SipRequest(data)
                 tids = req.getTIds()
             except Exception as exception:
+                dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
+                self.l1rcache[checksum] = SipTMRetransmitO()
                 if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
+                    resp = exception.sip_response
                     if resp is not None:
                         self.transmitMsg(server, resp, ra.address, checksum)
-                dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-                self.l1rcache[checksum] = SipTMRetransmitO()
                 return
             call_id = tids[0][0]
             req.rtime = rtime
-- 
2.43.0


From ad23a413dff3cc6859c61e52571760b5cceb59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 32/49] fix: compact form of Supported is recognised

---
 sippy/SipSupported.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From 0e7204c586cd632039d7fddc0b9652ccca9e870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:43 +0000
Subject: [PATCH 33/49] fix: display names with non-ASCII letters stay quoted

---
 sippy/SipAddress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..cf6f12f 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -30,7 +30,7 @@ try:
     needquotes = lambda x, y: not x.encode().translate(y).isalnum()
 except ImportError:
     maketrans = str.maketrans
-    needquotes = lambda x, y: not x.translate(y).isalnum()
+    needquotes = lambda x, y: not (x.isascii() and x.translate(y).isalnum())
 
 def findquotes(s, pos = 1):
     rval = []
-- 
2.43.0


From 5806b235b095bd5810c52b8784fa4c69740152df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 34/49] fix: copy of an unparsed Warning keeps the body

---
 sippy/SipWarning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..0a248b2 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -60,4 +60,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From 254ff25fbaea2fa38c755029c003b23abc42614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 35/49] fix: copy of an unparsed message body keeps the content
 type

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..f615ef7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, mtype = self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From b0bd106e41da2e6173ed467d17960f9334afd2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 36/49] fix: copy of a URI keeps the scheme and has headers of
 its own

---
 sippy/SipURL.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..bcb73b4 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -291,9 +291,10 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = dict(self.headers) if self.headers is not None else None, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, \
+          scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From 438a05b0d9fc5a91240320a3eb4d35a37c1d21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 37/49] fix: commas in quoted Authorization parameters do not
 split them

---
 sippy/SipAuthorization.py |  4 ++--
 sippy/SipGenericHF.py     | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index bb7d5e9..cb972e0 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 from sippy.Security.SipNonce import HashOracle, DGST_MD5, DGST_MD5SESS, \
   DGST_SHA256, DGST_SHA256SESS, DGST_SHA512, DGST_SHA512SESS
 
@@ -79,7 +79,7 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        for name, value in [x.split('=', 1) for x in split_unquoted(self.body.split(' ', 1)[1], ',')]:
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 7be1523..758466d 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -24,6 +24,23 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+def split_unquoted(s, sep):
+    """Split at any separator that is not within a quoted string"""
+    rval = ['']
+    inquotes = escaped = False
+    for c in s:
+        if c == sep and not inquotes:
+            rval.append('')
+            continue
+        if escaped:
+            escaped = False
+        elif c == '\\':
+            escaped = inquotes
+        elif c == '"':
+            inquotes = not inquotes
+        rval[-1] += c
+    return [x.strip() for x in rval]
+
 class SipGenericHF(object):
     hf_names = None	# Set this in each subclass!!
     body = None
-- 
2.43.0


From f7616b2c1462b7c076d8e689e4b5056182fe40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 38/49] fix: challenge parameters keep their quotes and quoted
 commas

---
 sippy/SipWWWAuthenticate.py | 45 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..cdee01a 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 from sippy.SipConf import SipConf
 from sippy.SipAuthorization import SipAuthorization, IsDigestAlgSupported, \
   NameList2AlgMask
@@ -61,28 +61,25 @@ class SipWWWAuthenticate(SipGenericHF):
         self.nonce = nonce
 
     def parse(self):
-        parts = self.body.split(' ', 1)[1].strip().split('"')
-        if len(parts) % 2 != 0 and len(parts[-1]) == 0:
-            parts.pop()
-        while len(parts) > 0:
-            parts1 = [x.strip().split('=', 1) for x in parts.pop(0).strip(' ,=').split(',')]
-            if len(parts) > 0:
-                parts1[-1].append(parts.pop(0))
-            for name, value in parts1:
-                if name == 'realm':
-                    self.realm = value
-                elif name == 'nonce':
-                    self.nonce = value
-                elif name == 'algorithm':
-                    if value == 'md5':
-                        value = 'MD5'
-                    self.algorithm = value
-                elif name == 'qop':
-                    self.qop = [x.strip() for x in value.split(',')]
-                elif name == 'opaque':
-                    self.opaque = value
-                else:
-                    self.otherparams.append((name, value))
+        for part in split_unquoted(self.body.split(' ', 1)[1], ','):
+            if len(part) == 0:
+                continue
+            name, rawvalue = [x.strip() for x in part.split('=', 1)]
+            value = rawvalue.strip('"')
+            if name == 'realm':
+                self.realm = value
+            elif name == 'nonce':
+                self.nonce = value
+            elif name == 'algorithm':
+                if value == 'md5':
+                    value = 'MD5'
+                self.algorithm = value
+            elif name == 'qop':
+                self.qop = [x.strip() for x in value.split(',')]
+            elif name == 'opaque':
+                self.opaque = value
+            else:
+                self.otherparams.append((name, rawvalue))
         self.parsed = True
 
     def __str__(self):
@@ -107,7 +104,7 @@ class SipWWWAuthenticate(SipGenericHF):
         if self.opaque != None:
             rval += ',opaque="%s"' % (self.opaque,)
         for param in self.otherparams:
-            rval += ',%s="%s"' % param
+            rval += ',%s=%s' % param
         return rval
 
     def getCopy(self):
-- 
2.43.0


From 6966eedd545a63b5a79b62639be4874fd9d7f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 39/49] fix: Reason without cause, with other parameters or
 several values is accepted

---
 sippy/SipReason.py | 49 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..831fd19 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 class SipReason(SipGenericHF):
     '''
@@ -34,6 +35,7 @@ class SipReason(SipGenericHF):
     protocol = None
     cause = None
     reason = None
+    otherparams = ()
 
     def __init__(self, body = None, protocol = None, cause = None, reason = None):
         SipGenericHF.__init__(self, body)
@@ -42,36 +44,43 @@ class SipReason(SipGenericHF):
             self.protocol = protocol
             self.cause = cause
             self.reason = reason
+            return
+        bodys = split_unquoted(body, ',')
+        if len(bodys) > 1:
+            raise ESipHeaderCSV(None, bodys)
 
     def parse(self):
-        protocol, reason_params = self.body.split(';', 1)
-        self.protocol = protocol.strip()
-        while len(reason_params:=reason_params.lstrip()) > 0:
-            rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
-            assert rp_name in ('cause', 'text')
-            if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
-                reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
-            else:
-                rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
-            if rp_name == 'cause':
-                self.cause = int(rp_value)
-            elif rp_name == 'text':
-                self.reason = rp_value
-        assert(self.cause is not None)
+        parts = split_unquoted(self.body, ';')
+        self.protocol = parts[0]
+        self.otherparams = []
+        for part in parts[1:]:
+            name, _, value = [x.strip() for x in part.partition('=')]
+            if name == 'cause':
+                self.cause = int(value)
+            elif name == 'text':
+                self.reason = value[1:-1] if len(value) > 1 and value[0] == value[-1] == '"' else value
+            elif len(name) > 0:
+                self.otherparams.append(part)
         self.parsed = True
 
     def __str__(self):
         if not self.parsed:
             return self.body
-        if self.reason == None:
-            return '%s; cause=%d' % (self.protocol, self.cause)
-        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, self.reason)
+        rval = self.protocol
+        if self.cause is not None:
+            rval += '; cause=%d' % self.cause
+        if self.reason is not None:
+            rval += '; text="%s"' % self.reason
+        for param in self.otherparams:
+            rval += '; ' + param
+        return rval
 
     def getCopy(self):
         if not self.parsed:
             return SipReason(self.body)
-        return SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        cself = SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        cself.otherparams = list(self.otherparams)
+        return cself
 
 if __name__ == '__main__':
     ours = 'Reason: Q.850; cause=31; text="db4e8de3-ef1e-4427-b6b8-afc339de9f0d;Callee only had Trouter endpoints registered and PNH got delivery errors from all of them."'
-- 
2.43.0


From 13b2bd80fcca92eb54adcd940d127ecfc3d249c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 40/49] fix: Content-Type parameters may be quoted, valueless
 or have blanks around

---
 sippy/SipContentType.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..5725360 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 
 class SipContentType(SipGenericHF):
     hf_names = ('content-type', 'c')
@@ -35,12 +35,14 @@ class SipContentType(SipGenericHF):
         SipGenericHF.__init__(self, body)
 
     def parse(self):
-        parts = self.body.split(';')
+        parts = split_unquoted(self.body, ';')
         self.name = parts.pop(0)
         params = []
         for part in parts:
-            param = part.split('=', 1)
-            params.append(param)
+            if len(part) == 0:
+                continue
+            param = [x.strip() for x in part.split('=', 1)]
+            params.append(param if len(param) > 1 else (param[0], None))
         self.params = dict(params)
         self.parsed = True
 
@@ -62,7 +64,7 @@ class SipContentType(SipGenericHF):
         if not self.parsed:
             return super().__str__()
         s = [self.name,]
-        s += [f'{k}={v}' for k, v in self.params.items()]
+        s += [f'{k}={v}' if v is not None else k for k, v in self.params.items()]
         return ';'.join(s)
 
 if __name__ == '__main__':
-- 
2.43.0


From 0805612e5a521be8ac23881b9b62969c0a1acbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 41/49] fix: multipart bodies keep part headers, quoted
 boundary and content type

---
 sippy/MultipartMixBody.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..7b8066a 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -40,7 +40,8 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
+        self.setBoundary(ctype.params["boundary"])
+        sep = f'--{self.boundary}'
         bparts = body.split(sep)
         assert len(bparts) > 2
         assert len(bparts[0]) == 0
@@ -57,29 +58,37 @@ class MultipartMixBody():
                     ct = h.getBody()
                 else:
                     headers.append(h)
+            if ct is None:
+                # RFC2046, 5.1
+                ct = SipContentType('text/plain')
+                ct.parse()
             # add part
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
 
     def setBoundary(self, bnd):
-        self.boundary = bnd
+        self.boundary = bnd.strip('"')
         mtype = self.mtype.getCopy()
         mtype.params["boundary"] = bnd
         self.mtype = mtype
 
+    def partHeaders(self, i):
+        # Parts appended by the application don't have any other headers
+        headers = self.part_headers[i] if i < len(self.part_headers) else []
+        return ''.join([f'Content-Type: {self.parts[i].mtype}\r\n'] + [f'{h}\r\n' for h in headers])
+
     def __str__(self):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
+        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p}' for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
     def localStr(self, local_addr = None):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
+        parts = [f'{bnd}{self.partHeaders(i)}\r\n{p.localStr(local_addr)}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
@@ -87,7 +96,9 @@ class MultipartMixBody():
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
+        cself.part_headers = [[h.getCopy() for h in hs] for hs in self.part_headers]
         cself.boundary = self.boundary
+        cself.mtype = self.mtype.getCopy()
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 22dabb7117fa2e6c4cd43c235022fa558adf50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 42/49] fix: address parser handles sips: without brackets,
 escapes and quoted parameters

---
 sippy/SipAddress.py | 59 +++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index cf6f12f..74ad78d 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipURL import SipURL
+from sippy.SipGenericHF import split_unquoted
 try:
     from string import maketrans
     needquotes = lambda x, y: not x.encode().translate(y).isalnum()
@@ -34,13 +35,13 @@ except ImportError:
 
 def findquotes(s, pos = 1):
     rval = []
-    while True:
-        pos1 = s.find('"', pos)
-        if pos1 == -1:
-            break
-        pos = pos1 + 1
-        if pos1 == 0 or s[pos1 - 1] != '\\':
-            rval.append(pos1)
+    while pos < len(s):
+        if s[pos] == '\\':
+            # Quoted pair, skip whatever is escaped
+            pos += 1
+        elif s[pos] == '"':
+            rval.append(pos)
+        pos += 1
     return rval
 
 class SipAddress(object):
@@ -67,23 +68,11 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:')) and address.find('<') == -1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
-                for l in parts[1].split(';'):
-                    if not l:
-                        continue
-                    k_v = l.split('=', 1)
-                    if len(k_v) == 2:
-                        k, v = k_v
-                    else:
-                        k = k_v[0]
-                        v = None
-                    self.params[k] = v
-                    if self.params_order.count(k) > 0:
-                        self.params_order.remove(k)
-                    self.params_order.append(k)
+                self.parseParams(parts[1])
             self.hadbrace = False
             return
         if address.startswith('"'):
@@ -110,21 +99,17 @@ class SipAddress(object):
             self.name = self.name.strip()
         url, paramstring = url.split('>', 1)
         self.url = SipURL(url, relaxedparser = relaxedparser)
-        paramstring = paramstring.strip()
-        if paramstring:
-            for l in paramstring.split(';'):
-                if not l:
-                    continue
-                k_v = l.split('=', 1)
-                if len(k_v) == 2:
-                    k, v = k_v
-                else:
-                    k = k_v[0]
-                    v = None
-                self.params[k] = v
-                if self.params_order.count(k) > 0:
-                    self.params_order.remove(k)
-                self.params_order.append(k)
+        self.parseParams(paramstring)
+
+    def parseParams(self, paramstring):
+        for l in split_unquoted(paramstring, ';'):
+            if not l:
+                continue
+            k, sep, v = [x.strip() for x in l.partition('=')]
+            self.params[k] = v if sep else None
+            if self.params_order.count(k) > 0:
+                self.params_order.remove(k)
+            self.params_order.append(k)
 
     def __str__(self):
         return self.localStr()
-- 
2.43.0


From d677b8a9925e328251db1130389092381552d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 43/49] fix: blanks around elements of address lists are not a
 part of them

---
 sippy/SipAddressHF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..fee9e11 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -46,8 +46,8 @@ class SipAddressHF(SipGenericHF):
                 qnum = body[:idx].count('"')
                 if (onum == 0 and cnum == 0 and qnum == 0) or (onum > 0 and \
                   onum == cnum and (qnum % 2 == 0)):
-                    csvs.append(body[:idx])
-                    body = body[idx + 1:]
+                    csvs.append(body[:idx].strip())
+                    body = body[idx + 1:].strip()
                     pidx = 0
                 else:
                     pidx = idx + 1
-- 
2.43.0


From 1c288424c021084dd04dde35ecd681c29573cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:33 +0000
Subject: [PATCH 44/49] fix: blanks around parameters of Via and Replaces are
 not a part of them

---
 sippy/SipReplaces.py | 11 ++++++-----
 sippy/SipVia.py      |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..11e9d1e 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -50,13 +50,14 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
+        params = [x.strip() for x in self.body.split(';')]
         self.call_id = params.pop(0)
         for param in params:
-            if param.startswith('from-tag='):
-                self.from_tag = param[len('from-tag='):]
-            elif param.startswith('to-tag='):
-                self.to_tag = param[len('to-tag='):]
+            name, _, value = [x.strip() for x in param.partition('=')]
+            if name == 'from-tag':
+                self.from_tag = value
+            elif name == 'to-tag':
+                self.to_tag = value
             elif param == 'early-only':
                 self.early_only = True
             else:
diff --git a/sippy/SipVia.py b/sippy/SipVia.py
index 0ae9f10..d36a024 100644
--- a/sippy/SipVia.py
+++ b/sippy/SipVia.py
@@ -63,7 +63,7 @@ class SipVia(SipGenericHF):
         self.sipver, self.transport = (p:=parts.rsplit('/', 1))[0].rstrip(), p[1].lstrip()
         hcomps = [x.strip() for x in hostname.split(';')]
         for param in hcomps[1:]:
-            sparam = param.split('=', 1)
+            sparam = [x.strip() for x in param.split('=', 1)]
             if len(sparam) == 1:
                 val = None
             else:
-- 
2.43.0


From 7c4c4e44d5514dcf7bac7db84ca075e66506e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:02 +0000
Subject: [PATCH 45/49] fix: go on with the call when media hook has nothing to
 change in the body

---
 sippy/Rtp_proxy/session.py |  4 ++--
 sippy/UaStateConnected.py  | 26 +++++++++++++-------------
 sippy/UaStateGeneric.py    |  8 ++++++++
 sippy/UacStateIdle.py      |  5 +----
 sippy/UasStateGeneric.py   |  8 --------
 5 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index c08567f..d8de5da 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -168,10 +168,10 @@ class Rtp_proxy_session(object):
         self.rtpp_seq.delete()
 
     def on_caller_sdp_change(self, sdp_body, result_callback):
-        self.caller._on_sdp_change(self, sdp_body, result_callback)
+        return self.caller._on_sdp_change(self, sdp_body, result_callback)
 
     def on_callee_sdp_change(self, sdp_body, result_callback):
-        self.callee._on_sdp_change(self, sdp_body, result_callback)
+        return self.callee._on_sdp_change(self, sdp_body, result_callback)
 
     def stats(self, result_callback, index = 0, *callback_parameters):
         command = 'Q %s %s %s' % ('%s-%d' % (self.call_id, index), self.from_tag, self.to_tag)
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 3df159f..628187b 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -193,17 +193,18 @@ class UaStateConnected(UaStateGeneric):
                 self.ua.equeue.append(CCEventConnect((200, 'OK', None), rtime = event.rtime, \
                   origin = event.origin))
             return None
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            try:
-                self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            except SdpHandlingErrors as e:
-                event = CCEventFail((e.code, e.msg), rtime = event.rtime)
-                event.reason_rfc3326 = e.getReason()
-                self.ua.equeue.append(event)
-            except Exception as e:
-                event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
-                event.setWarning(str(e))
-                self.ua.equeue.append(event)
+        try:
+            if self._delayLocalSdpUpdate(event, body):
+                return None
+        except SdpHandlingErrors as e:
+            event = CCEventFail((e.code, e.msg), rtime = event.rtime)
+            event.reason_rfc3326 = e.getReason()
+            self.ua.equeue.append(event)
+            return None
+        except Exception as e:
+            event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
+            event.setWarning(str(e))
+            self.ua.equeue.append(event)
             return None
         if event.max_forwards is not None:
             if event.max_forwards <= 0:
@@ -231,8 +232,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer.cancel()
             self.ua.expire_timer = None
         code, reason, body = event.getData()
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+        if self._delayLocalSdpUpdate(event, body):
             return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
         self.ua.startCreditTimer(event.rtime)
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..4b10b0a 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -24,6 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from functools import partial
+
 from sippy.CCEvents import CCEventDisconnect
 
 class UaStateGeneric(object):
@@ -52,6 +54,12 @@ class UaStateGeneric(object):
             return handler(self, event, event.getExtraHeaders())
         return None
 
+    def _delayLocalSdpUpdate(self, event, body):
+        if body is None or self.ua.on_local_sdp_change is None or not body.needs_update:
+            return False
+        # Body is returned back right away when there is nothing to change
+        return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
+
     def _getRequestAlso(self, req):
         if req.countHFs('also') > 0:
             return req.getHFBody('also').getCopy()
diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..b8946fb 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -24,8 +24,6 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from functools import partial
-
 from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.Time.MonoTime import MonoTime
 from sippy.UaStateGeneric import UaStateGeneric
@@ -49,8 +47,7 @@ class UacStateIdle(UaStateGeneric):
             self.ua.origin = 'callee'
             cId, callingID, calledID, body, auth, callingName = event.getData()
             if body is not None:
-                if self.ua.on_local_sdp_change != None and body.needs_update:
-                    self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                if self._delayLocalSdpUpdate(event, body):
                     return None
             else:
                 self.ua.late_media = True
diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 9e6ebc3..7b27b7d 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -24,18 +24,10 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from functools import partial
-
 from sippy.SipContact import SipContact
 from sippy.UaStateGeneric import UaStateGeneric
 
 class UasStateGeneric(UaStateGeneric):
-    def _delayLocalSdpUpdate(self, event, body):
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            return True
-        return False
-
     def _recvEventRing(self, event, eh, contacts = None):
         scode = event.getData()
         if scode is None:
-- 
2.43.0


From 40a101e0e268d88d67f8c22852f0a2dfecb73898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:18 +0000
Subject: [PATCH 46/49] fix: bodies other than SDP do not break media handling

---
 sippy/Rtp_proxy/Session/side.py |  8 ++------
 sippy/UaStateConnected.py       | 14 +++++++++++---
 sippy/b2bua.py                  |  4 +++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index f528bdc..33af633 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -27,6 +27,7 @@
 from functools import partial
 
 from sippy.SdpOrigin import SdpOrigin
+from sippy.SdpBody import SdpBody
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 from sippy.Exceptions.SdpParseError import SdpParseError
@@ -37,11 +38,6 @@ from sippy.Rtp_proxy.Session.subcommand import subcommand_dtls, \
 from sippy.Rtp_proxy.Session.subcommand_ice import subcommand_ice, \
   subcommand_deice
 
-try:
-    strtypes = (str, unicode)
-except NameError:
-    strtypes = (str,)
-
 class _rtpps_side(object):
     session_exists = False
     codecs = None
@@ -160,7 +156,7 @@ class _rtpps_side(object):
                 dump_exception('can\'t parse SDP body', extra = sdp_body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
         sdp_bc = sdp_body.content
-        if isinstance(sdp_bc, strtypes):
+        if not isinstance(sdp_bc, SdpBody):
             sdp_body.needs_update = False
             return sdp_body
         for i, sect in enumerate(sdp_bc.sections):
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 628187b..317bc4e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -28,6 +28,7 @@ from functools import partial
 
 from sippy.Time.Timeout import Timeout
 from sippy.UaStateGeneric import UaStateGeneric
+from sippy.SdpBody import SdpBody
 from sippy.SipAlso import SipAlso
 from sippy.SipAddress import SipAddress
 from sippy.SipHeader import SipHeader
@@ -71,9 +72,16 @@ class UaStateConnected(UaStateGeneric):
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
             body = self.ua.rSDP.getCopy()
-            body.parse()
-            for sect in body.content.sections:
-                sect.c_header.addr = '0.0.0.0'
+            try:
+                body.parse()
+            except Exception:
+                # Opaque for us, so is the media
+                pass
+            if isinstance(body.content, SdpBody):
+                for sect in body.content.sections:
+                    sect.c_header.addr = '0.0.0.0'
+            else:
+                body = None
         elif str(self.ua.rSDP) == str(body):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index f30f81d..ce4ec25 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -55,6 +55,7 @@ from sippy.misc import daemonize
 from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
+from sippy.SdpBody import SdpBody
 from sippy.Exceptions.SdpParseError import SdpParseError
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
@@ -149,7 +150,8 @@ class CallController(object):
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        sections = body.content.sections if isinstance(body.content, SdpBody) else ()
+        for sect in sections:
             mbody = sect.m_header
             if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
                 continue
-- 
2.43.0


From 223e5850257534ccc367506aaef4699ef4cf86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:32 +0000
Subject: [PATCH 47/49] fix: media hook refusing the body does not leave the
 call in limbo

---
 sippy/UaStateConnected.py | 11 +++++------
 sippy/UaStateGeneric.py   |  9 +++++++--
 sippy/UacStateTrying.py   |  9 ++++++++-
 sippy/UasStateIdle.py     | 20 ++++++++++++++++++--
 sippy/b2bua.py            | 12 ++++++++++--
 5 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 317bc4e..7c78e8e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -148,7 +148,11 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    self.ua.delayed_remote_sdp_update(event, None, ex)
+                    return None
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
@@ -204,11 +208,6 @@ class UaStateConnected(UaStateGeneric):
         try:
             if self._delayLocalSdpUpdate(event, body):
                 return None
-        except SdpHandlingErrors as e:
-            event = CCEventFail((e.code, e.msg), rtime = event.rtime)
-            event.reason_rfc3326 = e.getReason()
-            self.ua.equeue.append(event)
-            return None
         except Exception as e:
             event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
             event.setWarning(str(e))
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 4b10b0a..3eda87e 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -27,6 +27,7 @@
 from functools import partial
 
 from sippy.CCEvents import CCEventDisconnect
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UaStateGeneric(object):
     sname = 'Generic'
@@ -57,8 +58,12 @@ class UaStateGeneric(object):
     def _delayLocalSdpUpdate(self, event, body):
         if body is None or self.ua.on_local_sdp_change is None or not body.needs_update:
             return False
-        # Body is returned back right away when there is nothing to change
-        return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
+        try:
+            # Body is returned back right away when there is nothing to change
+            return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
+        except SdpHandlingErrors as ex:
+            self.ua.delayed_local_sdp_update(event, None, ex)
+            return True
 
     def _getRequestAlso(self, req):
         if req.countHFs('also') > 0:
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 3f9da59..0b6bd76 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -197,7 +197,10 @@ class UacStateTrying(UaStateGeneric):
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
             event.reason_rfc3326 = ex.getReason()
             code = resp.getSCode()[0]
+            newstate = self.ua.UaStateFailed
             if code < 200:
+                # Cancelled call might be answered nonetheless
+                newstate = self.ua.UacStateCancelling
                 self.ua.tr.uack = False
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
@@ -207,4 +210,8 @@ class UacStateTrying(UaStateGeneric):
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-            return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
+            if self.ua.expire_timer != None:
+                self.ua.expire_timer.cancel()
+                self.ua.expire_timer = None
+            self.ua.cancelCreditTimer()
+            return (newstate, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..9e54236 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -30,11 +30,12 @@ from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
 from sippy.UaStateGeneric import UaStateGeneric
-from sippy.CCEvents import CCEventTry
+from sippy.CCEvents import CCEventTry, CCEventFail
 from sippy.SipContact import SipContact
 from sippy.SipCSeq import SipCSeq
 from sippy.SipFrom import SipFrom
 from sippy.SipTo import SipTo
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UasStateIdle(UaStateGeneric):
     sname = 'Idle(UAS)'
@@ -101,7 +102,11 @@ class UasStateIdle(UaStateGeneric):
             self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    self.ua.setup_ts = req.rtime
+                    return self._offerRefused(req, ex)
                 if body is None:
                     self.ua.setup_ts = req.rtime
                     return (self.ua.UasStateTrying,)
@@ -111,3 +116,14 @@ class UasStateIdle(UaStateGeneric):
         self.ua.equeue.append(event)
         self.ua.setup_ts = req.rtime
         return (self.ua.UasStateTrying,)
+
+    def _offerRefused(self, req, ex):
+        event = CCEventFail((ex.code, ex.msg), rtime = req.rtime, origin = self.ua.origin)
+        event.reason_rfc3326 = ex.getReason()
+        self.ua.sendUasResponse(ex.code, ex.msg, extra_headers = event.getExtraHeaders())
+        for timer in (self.ua.no_progress_timer, self.ua.expire_timer):
+            if timer is not None:
+                timer.cancel()
+        self.ua.no_progress_timer = self.ua.expire_timer = None
+        self.ua.disconnect_ts = req.rtime
+        return (self.ua.UaStateFailed, self.ua.fail_cbs, req.rtime, self.ua.origin, ex.code)
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index ce4ec25..58749b0 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -57,6 +57,7 @@ from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.SdpBody import SdpBody
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.Exceptions.RtpProxyError import RtpProxyError
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -187,8 +188,15 @@ class CallController(object):
                     self.cld = re_replace(self.global_config['static_tr_in'], self.cld)
                     event.data = (self.cId, self.cli, self.cld, body, auth, self.caller_name)
                 if '_rtp_proxy_clients' in self.global_config:
-                    self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
-                      notify_tag = quote('r %s' % str(self.id)))
+                    try:
+                        self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
+                          notify_tag = quote('r %s' % str(self.id)))
+                    except RtpProxyError as ex:
+                        fail = CCEventFail((ex.code, ex.msg), rtime = event.rtime)
+                        fail.reason_rfc3326 = ex.getReason()
+                        self.uaA.recvEvent(fail)
+                        self.state = CCStateDead
+                        return
                     self.rtp_proxy_session.callee.raddress = (self.remote_ip, 5060)
                 self.eTry = event
                 self.state = CCStateWaitRoute
-- 
2.43.0


From 392eacb050c5d37e3036b0e8e13d1bb7e96d3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:57 +0000
Subject: [PATCH 48/49] fix: late failures of media hooks end both legs or
 none, late answers are not lost

---
 sippy/CCEvents.py         |  4 ++++
 sippy/UA.py               | 49 ++++++++++++++++++++++++++++++---------
 sippy/UacStateUpdating.py | 14 ++++++++++-
 sippy/UasStateUpdating.py |  8 ++++++-
 4 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/sippy/CCEvents.py b/sippy/CCEvents.py
index 1131cef..05e8c6f 100644
--- a/sippy/CCEvents.py
+++ b/sippy/CCEvents.py
@@ -47,6 +47,10 @@ class CCEventGeneric(object):
         CCEventGeneric.seq += 1
         self.origin = origin
 
+    def renumber(self):
+        self.seq = CCEventGeneric.seq
+        CCEventGeneric.seq += 1
+
     def getData(self):
         return self.data
 
diff --git a/sippy/UA.py b/sippy/UA.py
index 1b80038..bdef662 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,8 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, \
+  CCEventRing, CCEventUpdate
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -414,24 +415,50 @@ class UA(object):
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-        else:
-            self.rSDP = remote_sdp_body.getCopy()
+        if self.disconnect_ts is not None:
+            # The call is over already
+            return
+        if ex is not None:
+            return self.sdpUpdateFailed(event, ex)
+        self.rSDP = remote_sdp_body.getCopy()
+        if not isinstance(event, CCEventRing):
+            # Not out-of-order, the rest has not been waiting for the media
+            event.renumber()
         self.equeue.append(event)
         self.emitPendingEvents()
-        if ex is not None:
-            self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-            self.equeue.append(event)
-            self.emitPendingEvents()
+            if self.disconnect_ts is None:
+                self.sdpUpdateFailed(event, ex, local = True)
+            return
         self.recvEvent(event)
 
+    def sdpUpdateFailed(self, event, ex, local = False):
+        fail = CCEventFail((ex.code, ex.msg))
+        fail.reason_rfc3326 = ex.getReason()
+        updating = isinstance(self.state, self.UasStateUpdating)
+        if isinstance(event, CCEventUpdate):
+            # New offer is not going any further, the call goes on
+            if local:
+                self.equeue.append(fail)
+                self.emitPendingEvents()
+            elif updating:
+                self.recvEvent(fail)
+            return
+        if local and updating:
+            # Answer is lost, refuse the offer, but the other side uses it by now
+            self.recvEvent(fail)
+            self.disconnect()
+            return
+        self.equeue.append(fail)
+        self.emitPendingEvents()
+        if isinstance(self.state, (self.UacStateUpdating, self.UasStateUpdating)):
+            fail = CCEventDisconnect()
+            fail.reason_rfc3326 = ex.getReason()
+        self.recvEvent(fail)
+
     def getAcct(self):
         if self.disconnect_ts != None:
             disconnect_ts = self.disconnect_ts
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index b088afb..ebb10bc 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -68,7 +68,7 @@ class UacStateUpdating(UaStateGeneric):
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
-                    cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                    cb_func = partial(self.delayedSdpUpdate, event)
                     try:
                         body = self.ua.on_remote_sdp_change(body, cb_func)
                     except SdpHandlingErrors as e:
@@ -118,6 +118,18 @@ class UacStateUpdating(UaStateGeneric):
         self.ua.equeue.append(event)
         return (self.ua.UaStateConnected,)
 
+    def delayedSdpUpdate(self, event, body, ex = None):
+        if not isinstance(ex, SdpHandlingErrors) or self.ua.disconnect_ts is not None:
+            self.ua.delayed_remote_sdp_update(event, body, ex)
+            return
+        # The answer is lost: let both parties know
+        fail = CCEventFail((ex.code, ex.msg))
+        disconnect = CCEventDisconnect()
+        fail.reason_rfc3326 = disconnect.reason_rfc3326 = ex.getReason()
+        self.ua.equeue.append(fail)
+        self.ua.equeue.append(CCEventDisconnect(origin = self.ua.origin))
+        self.ua.recvEvent(disconnect)
+
     def updateFailed(self, event, bye_reason = None, disconnect_reason = None):
         self.ua.equeue.append(event)
         if bye_reason is None:
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 2f6c1ba..ac43569 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -26,7 +26,7 @@
 
 from sippy.UasStateGeneric import UasStateGeneric
 from sippy.UaStateConnected import UaStateConnected
-from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
+from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect, CCEventUpdate
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
@@ -93,7 +93,13 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.disconnect_ts = event.rtime
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
+    def _recvEventUpdate(self, event, eh):
+        # Both parties are changing the session at the same time
+        self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
+        return None
+
     recv_event_handlers = {
+      CCEventUpdate: _recvEventUpdate,
       CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
       CCEventRedirect: _recvEventRedirect,
-- 
2.43.0


From 3b0533a521d837dcfee34ba996aeb0f385cfd75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 49/49] fix: early media of re-INVITE goes through the media
 hook as well

---
 sippy/UA.py               |  3 +++
 sippy/UacStateUpdating.py | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index bdef662..a47ddb2 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -436,6 +436,9 @@ class UA(object):
         self.recvEvent(event)
 
     def sdpUpdateFailed(self, event, ex, local = False):
+        if isinstance(event, CCEventRing) and self.state.connected:
+            # Has been overtaken by the answer
+            return
         fail = CCEventFail((ex.code, ex.msg))
         fail.reason_rfc3326 = ex.getReason()
         updating = isinstance(self.state, self.UasStateUpdating)
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index ebb10bc..e2bca48 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -61,8 +61,19 @@ class UacStateUpdating(UaStateGeneric):
         code, reason = resp.getSCode()
         scode = (code, reason, body)
         if code < 200:
-            if code != 100:
-                self.ua.equeue.append(CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin))
+            if code == 100:
+                return None
+            event = CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin)
+            if body is not None and self.ua.on_remote_sdp_change != None:
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors:
+                    # Final response is yet to come
+                    return None
+                if body is None:
+                    return None
+                self.ua.rSDP = body.getCopy()
+            self.ua.equeue.append(event)
             return None
         if code >= 200 and code < 300:
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-- 
2.43.0

