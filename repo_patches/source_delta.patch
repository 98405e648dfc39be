From 6e370b2eb511567131510da5579ceca12adba97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 01/64] fix: MemoryStore must not pick an expired association
 when asked for any association

---
 openid/store/memstore.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index 5587676..b5e5b57 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -34,6 +34,9 @@ class ServerAssocs(object):
         """
         best = None
         for assoc in self.assocs.values():
+            if assoc.getExpiresIn() == 0:
+                # Expired associations must never be handed out.
+                continue
             if best is None or best.issued < assoc.issued:
                 best = assoc
         return best
-- 
2.43.0


From 325e5e782282f32f4353526cac1f618d4a769c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 02/64] fix: FileOpenIDStore.getAssociation fails when two
 associations were issued in the same second

---
 openid/store/filestore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index 33e35e0..a0a2d81 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -255,7 +255,7 @@ class FileOpenIDStore(OpenIDStore):
                     matching_associations.append(
                         (association.issued, association))
 
-            matching_associations.sort()
+            matching_associations.sort(key=lambda item: item[0])
 
             # return the most recently issued one.
             if matching_associations:
-- 
2.43.0


From f5966cbf144aba5f1140a01dee4ff6cdaff26c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 03/64] fix: FileOpenIDStore syncs an association file before
 its buffered data is written

---
 openid/store/filestore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index a0a2d81..de00ce2 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -188,6 +188,7 @@ class FileOpenIDStore(OpenIDStore):
         try:
             try:
                 tmp_file.write(association_s.encode('utf-8'))
+                tmp_file.flush()
                 os.fsync(tmp_file.fileno())
             finally:
                 tmp_file.close()
-- 
2.43.0


From 4841c14b24ce45a6febbe06d469a348e2d205d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 04/64] fix: SQLStore.getAssociation fails when two
 associations were issued in the same second

---
 openid/store/sqlstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 2d3b0b8..69a9abe 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -247,7 +247,7 @@ class SQLStore(OpenIDStore):
                     associations.append((assoc.issued, assoc))
 
             if associations:
-                associations.sort()
+                associations.sort(key=lambda item: item[0])
                 return associations[-1][1]
             else:
                 return None
-- 
2.43.0


From c53999c4c53171c4e4aa2c65eb4a566df2fecfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 05/64] fix: SQL stores cannot be created with the default
 table names

---
 openid/store/sqlstore.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 69a9abe..71cca95 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -99,10 +99,12 @@ class SQLStore(OpenIDStore):
         self.conn = conn
         self.cur = None
         self._statement_cache = {}
-        associations_table = string_to_text(
-            associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
-        nonces_table = string_to_text(nonces_table,
-                                      "Binary values for nonces_table are deprecated. Use text input instead.")
+        if associations_table is not None:
+            associations_table = string_to_text(
+                associations_table, "Binary values for associations_table are deprecated. Use text input instead.")
+        if nonces_table is not None:
+            nonces_table = string_to_text(nonces_table,
+                                          "Binary values for nonces_table are deprecated. Use text input instead.")
         self._table_names = {
             'associations': associations_table or self.associations_table,
             'nonces': nonces_table or self.nonces_table,
-- 
2.43.0


From 430f9a65ffc10ebf06e16a548bebd71cc8e2495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:10 +0000
Subject: [PATCH 06/64] fix: SQL stores keep associations in the very second
 they expire on cleanup

---
 openid/store/sqlstore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/store/sqlstore.py b/openid/store/sqlstore.py
index 71cca95..f9fc8f1 100644
--- a/openid/store/sqlstore.py
+++ b/openid/store/sqlstore.py
@@ -358,7 +358,7 @@ class SQLiteStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = ? AND handle = ?;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < ?;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= ?;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (?, ?, ?);'
 
@@ -437,7 +437,7 @@ class MySQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
@@ -530,7 +530,7 @@ class PostgreSQLStore(SQLStore):
     remove_assoc_sql = ('DELETE FROM %(associations)s '
                         'WHERE server_url = %%s AND handle = %%s;')
 
-    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime < %%s;'
+    clean_assoc_sql = 'DELETE FROM %(associations)s WHERE issued + lifetime <= %%s;'
 
     add_nonce_sql = 'INSERT INTO %(nonces)s VALUES (%%s, %%s, %%s);'
 
-- 
2.43.0


From 4875c1a7e441c15cfb2da31be0491b5e0d92623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:25 +0000
Subject: [PATCH 07/64] fix: Server cannot be created without an op_endpoint

---
 openid/server/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 95b847c..9a84f38 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1565,8 +1565,10 @@ class Server(object):
                           "for OpenID 2.0 servers" %
                           (self.__class__.__module__, self.__class__.__name__),
                           stacklevel=2)
-        self.op_endpoint = string_to_text(op_endpoint,
-                                          "Binary values for op_endpoint are deprecated. Use text input instead.")
+        else:
+            op_endpoint = string_to_text(op_endpoint,
+                                         "Binary values for op_endpoint are deprecated. Use text input instead.")
+        self.op_endpoint = op_endpoint
 
     def handleRequest(self, request):
         """Handle a request.
-- 
2.43.0


From a5fc4d18e4baf6a4a2a59e232a48310bfb4f12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 08/64] fix: OpenID 1 and anonymous immediate requests cannot
 be answered negatively

---
 openid/server/server.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 9a84f38..b0ca103 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -897,10 +897,8 @@ class CheckIDRequest(OpenIDRequest):
                 setup_request = self.__class__(
                     self.identity, self.return_to, self.trust_root,
                     immediate=False, assoc_handle=self.assoc_handle,
-                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id)
-
-                # XXX: This API is weird.
-                setup_request.message = self.message
+                    op_endpoint=self.op_endpoint, claimed_id=self.claimed_id,
+                    message=self.message)
 
                 setup_url = setup_request.encodeToURL(server_url)
                 response.fields.setArg(OPENID_NS, 'user_setup_url', setup_url)
@@ -925,9 +923,11 @@ class CheckIDRequest(OpenIDRequest):
         # That's right, code imported from alternate realities all for the
         # love of you, id_res/user_setup_url.
         q = {'mode': self.mode,
-             'identity': self.identity,
-             'claimed_id': self.claimed_id,
              'return_to': self.return_to}
+        if self.identity is not None:
+            q['identity'] = self.identity
+        if self.claimed_id is not None:
+            q['claimed_id'] = self.claimed_id
         if self.trust_root:
             if self.message.isOpenID1():
                 q['trust_root'] = self.trust_root
-- 
2.43.0


From 90ab607b067a4d9cbdc6774f4e2cb48b2accbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:14 +0000
Subject: [PATCH 09/64] fix: Consumer.complete raises on malformed or
 unverifiable id_res responses instead of failing them

---
 openid/consumer/consumer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 275a08a..41a6d1e 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -657,7 +657,9 @@ class GenericConsumer(object):
         else:
             try:
                 return self._doIdRes(message, endpoint, return_to)
-            except (ProtocolError, DiscoveryFailure) as why:
+            except (ValueError, DiscoveryFailure, fetchers.HTTPFetchingError) as why:
+                # ProtocolError is a ValueError, as are the errors raised for
+                # values which can't be parsed, normalized or signed.
                 return FailureResponse(endpoint, six.text_type(why))
 
     def _completeInvalid(self, message, endpoint, _):
-- 
2.43.0


From 7a70a97fc3a4c35a5dea56202b8634a9f63ad45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:14 +0000
Subject: [PATCH 10/64] fix: consumer does not handle messages with the OpenID
 1.1 namespace

---
 openid/consumer/consumer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 41a6d1e..63cfc4e 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -708,7 +708,7 @@ class GenericConsumer(object):
         # immediate mode by the presence of the user_setup_url
         # parameter.
         if message.isOpenID1():
-            user_setup_url = message.getArg(OPENID1_NS, 'user_setup_url')
+            user_setup_url = message.getArg(OPENID_NS, 'user_setup_url')
             if user_setup_url is not None:
                 raise SetupNeededError(user_setup_url)
 
@@ -835,14 +835,17 @@ class GenericConsumer(object):
             OPENID1_NS: basic_sig_fields,
         }
 
-        for field in require_fields[message.getOpenIDNamespace()]:
+        # All versions of OpenID 1 have the same requirements.
+        namespace = OPENID2_NS if message.isOpenID2() else OPENID1_NS
+
+        for field in require_fields[namespace]:
             if not message.hasKey(OPENID_NS, field):
                 raise ProtocolError('Missing required field %r' % (field,))
 
         signed_list_str = message.getArg(OPENID_NS, 'signed', no_default)
         signed_list = signed_list_str.split(',')
 
-        for field in require_sigs[message.getOpenIDNamespace()]:
+        for field in require_sigs[namespace]:
             # Field is present and not in signed list
             if message.hasKey(OPENID_NS, field) and field not in signed_list:
                 raise ProtocolError('"%s" not signed' % (field,))
@@ -961,7 +964,7 @@ class GenericConsumer(object):
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-        to_match.local_id = resp_msg.getArg(OPENID1_NS, 'identity')
+        to_match.local_id = resp_msg.getArg(OPENID_NS, 'identity')
         # Restore delegate information from the initiation phase
         to_match.claimed_id = claimed_id
 
@@ -1327,7 +1330,7 @@ class GenericConsumer(object):
         """
         # If it's an OpenID 1 message, allow session_type to default
         # to None (which signifies "no-encryption")
-        session_type = assoc_response.getArg(OPENID1_NS, 'session_type')
+        session_type = assoc_response.getArg(OPENID_NS, 'session_type')
 
         # Handle the differences between no-encryption association
         # respones in OpenID 1 and 2:
-- 
2.43.0


From c07a87e026f2d261115c98d1074148aacfa5a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:14 +0000
Subject: [PATCH 11/64] fix: Consumer.complete raises on invalid namespace
 declarations instead of failing the response

---
 openid/consumer/consumer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 63cfc4e..9c0ba85 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -202,7 +202,8 @@ from openid.association import Association, SessionNegotiator, default_negotiato
 from openid.consumer.discover import (OPENID_1_0_TYPE, OPENID_1_1_TYPE, OPENID_2_0_TYPE, DiscoveryFailure,
                                       OpenIDServiceEndpoint, discover)
 from openid.dh import DiffieHellman
-from openid.message import BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, Message, no_default
+from openid.message import (BARE_NS, IDENTIFIER_SELECT, OPENID1_NS, OPENID2_NS, OPENID_NS, InvalidNamespace,
+                            InvalidOpenIDNamespace, Message, no_default)
 from openid.oidutil import string_to_text
 from openid.store.nonce import mkNonce, split as splitNonce
 from openid.yadis.manager import Discovery
@@ -410,8 +411,13 @@ class Consumer(object):
 
         endpoint = self.session.get(self._token_key)
 
-        message = Message.fromPostArgs(query)
-        response = self.consumer.complete(message, endpoint, current_url)
+        try:
+            message = Message.fromPostArgs(query)
+        except (InvalidOpenIDNamespace, InvalidNamespace, AssertionError) as why:
+            # The namespace declarations in the query are not acceptable.
+            response = FailureResponse(endpoint, six.text_type(why))
+        else:
+            response = self.consumer.complete(message, endpoint, current_url)
 
         try:
             del self.session[self._token_key]
-- 
2.43.0


From 14359fd16e7e08f8965caac1eb35fb1866a8babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:14 +0000
Subject: [PATCH 12/64] fix: consumer raises on malformed direct responses from
 the server

---
 openid/consumer/consumer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 9c0ba85..93040d2 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -246,7 +246,11 @@ def _httpResponseToMessage(response, server_url):
     @raises ServerError: if the server returned an OpenID error.
     """
     # Should this function be named Message.fromHTTPResponse instead?
-    response_message = Message.fromKVForm(response.body)
+    try:
+        response_message = Message.fromKVForm(response.body)
+    except (ValueError, InvalidNamespace, AssertionError) as error:
+        # The body is not text or its namespace declarations are not acceptable.
+        raise fetchers.HTTPFetchingError('malformed response from server %s: %s' % (server_url, error))
     if response.status == 400:
         raise ServerError.fromMessage(response_message)
 
-- 
2.43.0


From 7cdbff0fbc5a36069c6613debf9d9585c4407c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 13/64] fix: Diffie-Hellman secrets with leading zero bytes are
 hashed padded instead of in btwoc form

The exchange returns the shared secret padded to the size of the modulus, but
the specification hashes btwoc(), i.e. the shortest two's complement form. One
exchange in 256 gave a MAC key other implementations do not agree with.
---
 openid/dh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 1b6f34c..455b2c7 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -133,7 +133,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         hashed_dh_shared = hash_func(dh_shared)
         return strxor(secret, hashed_dh_shared)
@@ -152,7 +152,7 @@ class DiffieHellman(object):
 
         # The DH secret must be `btwoc` compatible.
         # See http://openid.net/specs/openid-authentication-2_0.html#rfc.section.8.2.3 for details.
-        dh_shared = cryptutil.fix_btwoc(dh_shared)
+        dh_shared = cryptutil.int_to_bytes(cryptutil.bytes_to_int(dh_shared))
 
         digest = hashes.Hash(algorithm, backend=default_backend())
         digest.update(dh_shared)
-- 
2.43.0


From 78cea876fbc52461f858818ab05d4936c3198c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 14/64] fix: realms and URLs without a host raise
 AttributeError or TypeError in TrustRoot

---
 openid/server/trustroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index 349032f..ae3f759 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -93,6 +93,8 @@ def _parseURL(url):
         return None
 
     split_url = urlsplit(url)
+    if not split_url.hostname:
+        return None
 
     path = urlunsplit(('', '', split_url.path or '/', split_url.query, split_url.fragment))
 
-- 
2.43.0


From b58dfbcc1c8d38c61171d4288420a11b16efeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:48 +0000
Subject: [PATCH 15/64] fix: urinorm drops query arguments with an empty value

Distinct URLs such as http://example.com/?alice and http://example.com/?bob
had the same normal form.
---
 openid/urinorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 22b3dad..b5ff699 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -136,10 +136,10 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query)
+        data = parse_qsl(split_uri.query, keep_blank_values=True)
     else:
         # Python 2 branch
-        data = parse_qsl(split_uri.query.encode('utf-8'))
+        data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
     query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
-- 
2.43.0


From 033f03426700078ae2949b90ff473560b7b5039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 16/64] fix: urinorm turns encoded host characters into
 delimiters and loses IPv6 brackets

http://evil.com%2F.example.com/ became http://evil.com/.example.com/, and
http://[::1]/ became http://::1/. The host is also lower-cased after
unquoting, so that the result is in normal form.
---
 openid/urinorm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index b5ff699..6668540 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -85,10 +85,9 @@ def urinorm(uri):
     hostname = split_uri.hostname
     if hostname is None:
         hostname = ''
-    else:
-        hostname = hostname.lower()
+    is_ipv6 = ':' in hostname
     # Unquote percent encoded characters
-    hostname = unquote(hostname)
+    hostname = unquote(hostname).lower()
     # Quote IDN domain names
     try:
         # hostname: str --[idna]--> bytes --[utf-8]--> str
@@ -96,6 +95,11 @@ def urinorm(uri):
     except ValueError as error:
         raise ValueError('Invalid hostname {!r}: {}'.format(hostname, error))
     _check_disallowed_characters(hostname, 'hostname')
+    if is_ipv6:
+        hostname = '[' + hostname + ']'
+    elif set(hostname).intersection(GEN_DELIMS + PERCENT_ENCODING_CHARACTER):
+        # Encoded delimiters must not become delimiters of the normalized URI
+        raise ValueError('Invalid hostname {!r}: delimiters in hostname'.format(hostname))
 
     try:
         port = split_uri.port
-- 
2.43.0


From 906abf959edb9ff968a885f704d871dfd4498b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 17/64] fix: urinorm drops the port 0

---
 openid/urinorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 6668540..1d5e385 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -111,7 +111,7 @@ def urinorm(uri):
         port = ''
 
     netloc = hostname
-    if port:
+    if port != '':
         netloc = netloc + ':' + six.text_type(port)
     userinfo_chunks = [i for i in (split_uri.username, split_uri.password) if i is not None]
     if userinfo_chunks:
-- 
2.43.0


From 738f531676a7baf75358dc2b621ef59734bfbb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 18/64] fix: urinorm decodes encoded slashes and mangles
 escapes that are not UTF-8 in paths

/a%2F..%2Fb was normalized to /b, and /%FE and /%FF to the same path.
---
 openid/urinorm.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index 1d5e385..d90739a 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 import string
 
 import six
-from six.moves.urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit, urlunsplit
+from six.moves.urllib.parse import parse_qsl, quote, unquote, unquote_to_bytes, urlencode, urlsplit, urlunsplit
 
 from .oidutil import string_to_text
 
@@ -59,6 +59,12 @@ def _check_disallowed_characters(uri_part, part_name):
         raise ValueError('Illegal characters in URI {}: {}'.format(part_name, uri_part))
 
 
+def _normalize_percent_encoding(text, safe=SUB_DELIMS):
+    # This is hackish. `quote` requires `str` for its `safe` argument in both py27 and py3+.
+    quoted = quote(unquote_to_bytes(text.encode('utf-8')), safe=str(safe))
+    return quoted if isinstance(quoted, six.text_type) else quoted.decode("utf-8")
+
+
 def urinorm(uri):
     """Return normalized URI.
 
@@ -121,16 +127,8 @@ def urinorm(uri):
 
     # Normalize path
     path = split_uri.path
-    # Unquote and quote - this normalizes the percent encoding
-
-    # This is hackish. `unquote` and `quote` requires `str` in both py27 and py3+.
-    if isinstance(path, str):
-        # Python 3 branch
-        path = quote(unquote(path), safe='/' + SUB_DELIMS)
-    else:
-        # Python 2 branch
-        path = quote(unquote(path.encode('utf-8')), safe=('/' + SUB_DELIMS).encode('utf-8')).decode('utf-8')
-
+    # Unquote and quote each segment - this normalizes the percent encoding and keeps the encoded slashes
+    path = '/'.join(_normalize_percent_encoding(segment) for segment in path.split('/'))
     path = remove_dot_segments(path)
     if not path:
         path = '/'
-- 
2.43.0


From 1d6a6ffe569300bbf317e4921704990d7971f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 19/64] fix: urinorm decodes reserved characters in fragments

The normal form of #%2525 was #%25, which was normalized further to #%.
---
 openid/urinorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index d90739a..fbfa599 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -146,7 +146,7 @@ def urinorm(uri):
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-    fragment = unquote(split_uri.fragment)
+    fragment = _normalize_percent_encoding(split_uri.fragment, safe=SUB_DELIMS + ':@/?')
     _check_disallowed_characters(fragment, 'fragment')
 
     return urlunsplit((scheme, netloc, path, query, fragment))
-- 
2.43.0


From f8dbda095b75569ca925660e10d0821ae9b3de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:46 +0000
Subject: [PATCH 20/64] fix: urinorm mangles escapes that are not UTF-8 in
 queries

---
 openid/urinorm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/urinorm.py b/openid/urinorm.py
index fbfa599..455f50e 100644
--- a/openid/urinorm.py
+++ b/openid/urinorm.py
@@ -138,11 +138,12 @@ def urinorm(uri):
     # requires values to be convertible to native strings using `str()`.
     if isinstance(split_uri.query, str):
         # Python 3 branch
-        data = parse_qsl(split_uri.query, keep_blank_values=True)
+        data = parse_qsl(split_uri.query, keep_blank_values=True, errors='surrogateescape')
+        query = urlencode(data, errors='surrogateescape')
     else:
         # Python 2 branch
         data = parse_qsl(split_uri.query.encode('utf-8'), keep_blank_values=True)
-    query = urlencode(data)
+        query = urlencode(data)
     _check_disallowed_characters(query, 'query')
 
     # Normalize fragment
-- 
2.43.0


From bf5a8f2c8751c146e6a2cc3636e6c65802a4ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:44 +0000
Subject: [PATCH 21/64] fix: appendArgs adds arguments behind the fragment of a
 URL

Arguments appended to http://example.com/#anchor became part of the fragment
and never reached the server.
---
 openid/oidutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 884d38f..83b5657 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -86,6 +86,8 @@ def appendArgs(url, args):
     if len(args) == 0:
         return url
 
+    # The fragment has to stay behind the query
+    url, fragment_sep, fragment = url.partition('#')
     if '?' in url:
         sep = '&'
     else:
@@ -102,7 +104,7 @@ def appendArgs(url, args):
     # `urlencode` returns `str` in both py27 and py3+. We need to convert it to six.text_type.
     if not isinstance(encoded_args, six.text_type):
         encoded_args = encoded_args.decode('utf-8')
-    return '%s%s%s' % (url, sep, encoded_args)
+    return '%s%s%s%s%s' % (url, sep, encoded_args, fragment_sep, fragment)
 
 
 def toBase64(s):
-- 
2.43.0


From 98c2da3a817849dcebb467c91c78f30eb9d30afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:00 +0000
Subject: [PATCH 22/64] fix: an OpenID 1 response without a claimed identifier
 made complete() raise RuntimeError

---
 openid/consumer/consumer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 93040d2..37ae5ce 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -537,6 +537,12 @@ class ProtocolError(ValueError):
     protocol. It is raised and caught internally to this file."""
 
 
+class MissingClaimedID(ProtocolError, RuntimeError):
+    """A protocol error arising from an OpenID 1 response whose claimed
+    identifier is neither in the session nor in the return_to arguments.
+    """
+
+
 class TypeURIMismatch(ProtocolError):
     """A protocol error arising from type URIs mismatching
     """
@@ -964,7 +970,7 @@ class GenericConsumer(object):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
         if endpoint is None and claimed_id is None:
-            raise RuntimeError(
+            raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
-- 
2.43.0


From 6df0bb34ae6f5939817a9151844e9fe2b2ae3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:46 +0000
Subject: [PATCH 23/64] fix: MemoryStore lacked the cleanup method of the store
 interface

---
 openid/store/memstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/store/memstore.py b/openid/store/memstore.py
index b5e5b57..4632338 100644
--- a/openid/store/memstore.py
+++ b/openid/store/memstore.py
@@ -7,6 +7,7 @@ import time
 import six
 
 from openid.store import nonce
+from openid.store.interface import OpenIDStore
 
 
 class ServerAssocs(object):
@@ -55,7 +56,7 @@ class ServerAssocs(object):
         return len(remove), len(self.assocs)
 
 
-class MemoryStore(object):
+class MemoryStore(OpenIDStore):
     """In-process memory store.
 
     Use for single long-running processes.  No persistence supplied.
-- 
2.43.0


From e2ff727069c0b349536c8b624c82dc0def709e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:48 +0000
Subject: [PATCH 24/64] fix: an OpenID 1 response to an OP identifier login
 made complete() raise AttributeError

---
 openid/consumer/consumer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 37ae5ce..4b215f7 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -969,14 +969,15 @@ class GenericConsumer(object):
     def _verifyDiscoveryResultsOpenID1(self, resp_msg, endpoint):
         claimed_id = resp_msg.getArg(BARE_NS, self.openid1_return_to_identifier_name)
 
-        if endpoint is None and claimed_id is None:
+        if endpoint is not None and claimed_id is None:
+            # This is None as well if an OP identifier was entered.
+            claimed_id = endpoint.claimed_id
+        if claimed_id is None:
             raise MissingClaimedID(
                 'When using OpenID 1, the claimed ID must be supplied, '
                 'either by passing it through as a return_to parameter '
                 'or by using a session, and supplied to the GenericConsumer '
                 'as the argument to complete()')
-        elif endpoint is not None and claimed_id is None:
-            claimed_id = endpoint.claimed_id
 
         to_match = OpenIDServiceEndpoint()
         to_match.type_uris = [OPENID_1_1_TYPE]
-- 
2.43.0


From e36b7305b998543edac120171b169e932cbbe61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:22 +0000
Subject: [PATCH 25/64] fix: refuse associations of types the relying party
 does not allow

The association and session type of the answer were only checked against
each other, so a server could make the relying party accept an association
type or an unencrypted session excluded by its negotiator.
---
 openid/consumer/consumer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 4b215f7..06cb631 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1274,6 +1274,13 @@ class GenericConsumer(object):
 
         try:
             assoc = self._extractAssociation(response, assoc_session)
+            # The server may have answered with other types than those it was
+            # asked for, but we accept only the ones we allow.
+            if response.isOpenID1() and self._getOpenID1SessionType(response) == 'no-encryption':
+                session_type = 'no-encryption'
+            if not self.negotiator.isAllowed(assoc.assoc_type, session_type):
+                raise ProtocolError('Association type %s with session type %s is not allowed'
+                                    % (assoc.assoc_type, session_type))
         except KeyError as why:
             _LOGGER.exception('Missing required parameter in response from %s: %s', endpoint.server_url, why)
             return None
-- 
2.43.0


From 507953c0fd533b63244f1d90ca9d2d841aed64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 26/64] fix: send unsupported association type answers as error
 responses

They were encoded with status 200, so relying parties, including this
library's, did not recognise them and never tried the suggested type.
---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index b0ca103..e935ab1 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1345,7 +1345,7 @@ class Encoder(object):
         encode_as = response.whichEncoding()
         if encode_as == ENCODE_KVFORM:
             wr = self.responseFactory(body=response.encodeToKVForm())
-            if isinstance(response, Exception):
+            if isinstance(response, Exception) or response.fields.hasKey(OPENID_NS, 'error'):
                 wr.code = HTTP_ERROR
         elif encode_as == ENCODE_URL:
             location = response.encodeToURL()
-- 
2.43.0


From fab4d763a8ff1e30a3adfdb017da28a9996fbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:54 +0000
Subject: [PATCH 27/64] fix: a cancelled OP identifier login leaves its
 discovery state in the session

---
 openid/consumer/consumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 06cb631..2444495 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -428,7 +428,7 @@ class Consumer(object):
         except KeyError:
             pass
 
-        if (response.status in ['success', 'cancel'] and response.identity_url is not None):
+        if response.status in ['success', 'cancel']:
 
             disco = Discovery(self.session,
                               response.identity_url,
-- 
2.43.0


From 9c8b47754c4cf4af4bfcef472389aad6f60717a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:31 +0000
Subject: [PATCH 28/64] fix: an empty Type element in an XRDS document makes
 discovery raise AttributeError

---
 openid/yadis/etxrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 9e97e4c..2b91ce5 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -273,7 +273,7 @@ def getTypeURIs(service_element):
     """
     output = []
     for type_element in service_element.findall(type_tag):
-        type_uri = type_element.text
+        type_uri = type_element.text or ''
         # Attribute `text` returns str in both python 2 and 3, convert to text_type in 2.7
         if not isinstance(type_uri, six.text_type):
             type_uri = type_uri.decode('utf-8')
-- 
2.43.0


From 79dc1346a5100e25eb6f1d7c0fdbdf44407b61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:33 +0000
Subject: [PATCH 29/64] fix: discovered services are not ordered by the
 documented preference between OpenID types

---
 openid/consumer/discover.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 8689bf7..7761ef5 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -349,20 +349,16 @@ def arrangeByType(service_list, preferred_types):
 
 
 def getOPOrUserServices(openid_services):
-    """Extract OP Identifier services.  If none found, return the
-    rest, sorted with most preferred first according to
+    """Arrange OP Identifier services first, followed by the rest,
+    sorted with most preferred first according to
     OpenIDServiceEndpoint.openid_type_uris.
 
     openid_services is a list of OpenIDServiceEndpoint objects.
 
     Returns a list of OpenIDServiceEndpoint objects."""
 
-    op_services = arrangeByType(openid_services, [OPENID_IDP_2_0_TYPE])
-
-    openid_services = arrangeByType(openid_services,
-                                    OpenIDServiceEndpoint.openid_type_uris)
-
-    return op_services or openid_services
+    return arrangeByType(openid_services,
+                         OpenIDServiceEndpoint.openid_type_uris)
 
 
 def discoverYadis(uri):
-- 
2.43.0


From eb3822e8a805cf1ea50c52271389d80d0bfbdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:59 +0000
Subject: [PATCH 30/64] fix: a page declaring an unknown charset makes
 discovery raise LookupError

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index c4678a7..fc3d0f4 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -138,7 +138,8 @@ def whereIsYadis(resp):
 
             try:
                 buff = StringIO(resp.body.decode(encoding))
-            except UnicodeError:
+            except (LookupError, ValueError):
+                # Encoding is unknown or does not match the body.
                 # Keep encoded version in case yadis location can be found before encoding shut this up.
                 # Possible errors will be caught lower.
                 buff = BytesIO(resp.body)
-- 
2.43.0


From a80fd4f7de977ea2ae0ecbb951ef95b2bf58ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 31/64] fix: the X-XRDS-Location meta tag of XHTML pages with
 an XML declaration is ignored

---
 openid/yadis/parsehtml.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openid/yadis/parsehtml.py b/openid/yadis/parsehtml.py
index d35c5a3..d9297b1 100644
--- a/openid/yadis/parsehtml.py
+++ b/openid/yadis/parsehtml.py
@@ -1,7 +1,9 @@
 """Utilities to parse YADIS header from HTML."""
 from __future__ import unicode_literals
 
+import six
 from lxml import etree
+from six import BytesIO
 
 from openid.yadis.constants import YADIS_HEADER_NAME
 
@@ -29,9 +31,15 @@ def findHTMLMeta(stream):
     @raises MetaNotFound: raised with the content that was
         searched as the first parameter.
     """
-    parser = etree.HTMLParser()
     try:
-        html = etree.parse(stream, parser)
+        content = stream.read()
+        if isinstance(content, six.text_type):
+            # Text which declares its encoding can not be parsed, e.g. XHTML with XML declaration.
+            content = content.encode('utf-8')
+            parser = etree.HTMLParser(encoding='utf-8')
+        else:
+            parser = etree.HTMLParser()
+        html = etree.parse(BytesIO(content), parser)
     except (ValueError, etree.XMLSyntaxError):
         raise MetaNotFound("Couldn't parse HTML page.")
 
-- 
2.43.0


From 1b910d85c235a59944a1a09419db8a2fdee9004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:35 +0000
Subject: [PATCH 32/64] fix: services discovered by URL carry the claimed
 identifier in unnormalised form

---
 openid/consumer/discover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index 7761ef5..e28c279 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -455,6 +455,9 @@ def discoverURI(uri):
     uri = normalizeURL(uri)
     claimed_id, openid_services = discoverYadis(uri)
     claimed_id = normalizeURL(claimed_id)
+    for service in openid_services:
+        if service.claimed_id is not None:
+            service.claimed_id = claimed_id
     return claimed_id, openid_services
 
 
-- 
2.43.0


From d5ea8f5d092efde95f14770058dada4c5cf2cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:21 +0000
Subject: [PATCH 33/64] fix: XRDS answers with content type parameters are not
 taken as XRDS by isXRDS

---
 openid/yadis/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index fc3d0f4..db4d5e0 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -52,7 +52,8 @@ class DiscoveryResult(object):
 
     def isXRDS(self):
         """Is the response text supposed to be an XRDS document?"""
-        return (self.usedYadisLocation() or self.content_type == YADIS_CONTENT_TYPE)
+        content_type = (self.content_type or '').split(';', 1)[0].lower()
+        return (self.usedYadisLocation() or content_type == YADIS_CONTENT_TYPE)
 
 
 def discover(uri):
-- 
2.43.0


From d346c9f5e02c32e1f6ca03fe02b7e2c9595fd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:58 +0000
Subject: [PATCH 34/64] fix: an empty X-XRDS-Location counts as used Yadis
 location

---
 openid/yadis/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/discover.py b/openid/yadis/discover.py
index db4d5e0..16c7755 100644
--- a/openid/yadis/discover.py
+++ b/openid/yadis/discover.py
@@ -46,7 +46,7 @@ class DiscoveryResult(object):
 
     def usedYadisLocation(self):
         """Was the Yadis protocol's indirection used?"""
-        if self.xrds_uri is None:
+        if not self.xrds_uri:
             return False
         return self.normalized_uri != self.xrds_uri
 
-- 
2.43.0


From 3f9941cec7d1f1d55c6b38275b431a998342c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 35/64] fix: identifiers which are not parsable as URL make
 discovery raise ValueError

---
 openid/consumer/discover.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/consumer/discover.py b/openid/consumer/discover.py
index e28c279..b43710d 100644
--- a/openid/consumer/discover.py
+++ b/openid/consumer/discover.py
@@ -445,7 +445,10 @@ def discoverNoYadis(uri):
 
 
 def discoverURI(uri):
-    parsed = urlparse(uri)
+    try:
+        parsed = urlparse(uri)
+    except ValueError as why:
+        raise DiscoveryFailure('Parsing identifier: %s' % six.text_type(why), None)
     if parsed[0] and parsed[1]:
         if parsed[0] not in ['http', 'https']:
             raise DiscoveryFailure('URI scheme is not HTTP or HTTPS', None)
-- 
2.43.0


From 338ef6a88557203e7b1c262c9371bbd5013e554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 36/64] fix: attribute exchange fetch requests lose their
 update URL

---
 openid/extensions/ax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index e6ccaf2..8f81e2e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -261,6 +261,9 @@ class FetchRequest(AXMessage):
         if if_available:
             ax_args['if_available'] = ','.join(if_available)
 
+        if self.update_url:
+            ax_args['update_url'] = self.update_url
+
         return ax_args
 
     def getRequiredAttrs(self):
-- 
2.43.0


From 19dcaa02c5e78406d5842af96167ce7fc6be26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 37/64] fix: reading attribute exchange data which is not
 signed raises AttributeError

---
 openid/extensions/ax.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 8f81e2e..1b62c60 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -703,6 +703,9 @@ class FetchResponse(AXKeyValueMessage):
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
 
+        if ax_args is None:
+            return None
+
         try:
             self.parseExtensionArgs(ax_args)
         except NotAXMessage:
@@ -817,6 +820,9 @@ class StoreResponse(AXMessage):
         self = cls()
         ax_args = success_response.extensionResponse(self.ns_uri, signed)
 
+        if ax_args is None:
+            return None
+
         try:
             self.parseExtensionArgs(ax_args)
         except NotAXMessage:
-- 
2.43.0


From 1198b38282f74d3c4b3662866442a3b31bd1eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 38/64] fix: attribute exchange store responses can not be read

---
 openid/extensions/ax.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 1b62c60..2b41f8e 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -798,6 +798,23 @@ class StoreResponse(AXMessage):
 
         return ax_args
 
+    def parseExtensionArgs(self, ax_args):
+        """Parse store response arguments into this object.
+
+        @param ax_args: The attribute exchange store response arguments, with namespacing removed.
+        @type ax_args: Dict[six.text_type, six.text_type]
+
+        @raises NotAXMessage: When there is no mode value in ax_args at all.
+
+        @raises AXError: When the mode is not a store response mode.
+        """
+        mode = ax_args.get('mode')
+        if mode not in (self.SUCCESS_MODE, self.FAILURE_MODE):
+            # Raises the appropriate exception
+            self._checkMode(ax_args)
+        self.mode = mode
+        self.error_message = None if self.succeeded() else ax_args.get('error')
+
     @classmethod
     def fromSuccessResponse(cls, success_response, signed=True):
         """Construct a StoreResponse object from an OpenID library
-- 
2.43.0


From 306970fb5695c185588634349226e204f3d4f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 39/64] fix: attribute aliases named like OpenID protocol
 fields raise AssertionError

---
 openid/extensions/ax.py | 20 +++++++++++++++-----
 openid/message.py       |  5 ++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 2b41f8e..dfc23ab 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -39,6 +39,15 @@ def checkAlias(alias):
         raise AXError("Alias %r must not contain period" % (alias,))
 
 
+class AttributeAliasMap(NamespaceMap):
+    """Maintains a bijective map between attribute type URIs and aliases.
+
+    Attribute aliases live inside of the attribute exchange namespace, so the names of OpenID protocol fields are not
+    special here.
+    """
+    reserved_aliases = ()
+
+
 class AXError(ValueError):
     """Results from data that does not meet the attribute exchange 1.0
     specification"""
@@ -219,7 +228,7 @@ class FetchRequest(AXMessage):
         @returns: The fetch request message parameters
         @rtype: Dict[six.text_type, six.text_type]
         """
-        aliases = NamespaceMap()
+        aliases = AttributeAliasMap()
 
         required = []
         if_available = []
@@ -345,12 +354,13 @@ class FetchRequest(AXMessage):
         # Raises an exception if the mode is not the expected value
         self._checkMode(ax_args)
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliasMap()
 
         for key, value in six.iteritems(ax_args):
             if key.startswith('type.'):
                 alias = key[5:]
                 type_uri = value
+                checkAlias(alias)
                 aliases.addAlias(type_uri, alias)
 
                 count_key = 'count.' + alias
@@ -456,7 +466,7 @@ class AXKeyValueMessage(AXMessage):
             care about the aliases for this request.
         """
         if aliases is None:
-            aliases = NamespaceMap()
+            aliases = AttributeAliasMap()
 
         ax_args = {}
 
@@ -490,7 +500,7 @@ class AXKeyValueMessage(AXMessage):
         """
         self._checkMode(ax_args)
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliasMap()
 
         for key, value in six.iteritems(ax_args):
             if key.startswith('type.'):
@@ -619,7 +629,7 @@ class FetchResponse(AXKeyValueMessage):
         @rtype: Dict[six.text_type, six.text_type]
         """
 
-        aliases = NamespaceMap()
+        aliases = AttributeAliasMap()
 
         zero_value_types = []
 
diff --git a/openid/message.py b/openid/message.py
index 554069f..14098e8 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -564,7 +564,10 @@ class Message(object):
 
 class NamespaceMap(object):
     """Maintains a bijective map between namespace uris and aliases.
+
+    @cvar reserved_aliases: Aliases which may not be used
     """
+    reserved_aliases = OPENID_PROTOCOL_FIELDS
 
     def __init__(self):
         self.alias_to_namespace = {}
@@ -601,7 +604,7 @@ class NamespaceMap(object):
         """
         # Check that desired_alias is not an openid protocol field as
         # per the spec.
-        assert desired_alias not in OPENID_PROTOCOL_FIELDS, "%r is not an allowed namespace alias" % (desired_alias,)
+        assert desired_alias not in self.reserved_aliases, "%r is not an allowed namespace alias" % (desired_alias,)
 
         # Check that desired_alias does not contain a period as per
         # the spec.
-- 
2.43.0


From 68302d404e7e00c4264c12dd59ea9061aa81d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 40/64] fix: policy and attribute exchange data is lost in
 OpenID 1 messages

---
 openid/extensions/ax.py   | 12 +++++++++++-
 openid/extensions/pape.py |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index dfc23ab..06d6657 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -4,10 +4,12 @@
 """
 from __future__ import unicode_literals
 
+import logging
+
 import six
 
 from openid import extension
-from openid.message import OPENID_NS, NamespaceMap
+from openid.message import OPENID_NS, NamespaceAliasRegistrationError, NamespaceMap, registerNamespaceAlias
 from openid.oidutil import force_text, string_to_text
 from openid.server.trustroot import TrustRoot
 
@@ -19,6 +21,8 @@ __all__ = [
     'StoreResponse',
 ]
 
+_LOGGER = logging.getLogger(__name__)
+
 # Use this as the 'count' value for an attribute in a FetchRequest to
 # ask for as many values as the OP can provide.
 UNLIMITED_VALUES = "unlimited"
@@ -101,6 +105,12 @@ class AXMessage(extension.Extension):
         return {'mode': self.mode}
 
 
+try:
+    registerNamespaceAlias(AXMessage.ns_uri, AXMessage.ns_alias)
+except NamespaceAliasRegistrationError as e:
+    _LOGGER.exception('registerNamespaceAlias(%r, %r) failed: %s', AXMessage.ns_uri, AXMessage.ns_alias, e)
+
+
 class AttrInfo(object):
     """Represents a single attribute in an attribute exchange
     request. This should be added to an AXRequest object in order to
diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b2543fa..b47ff1c 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -7,12 +7,14 @@ Extension 1.0, Draft 5
 """
 from __future__ import unicode_literals
 
+import logging
 import re
 import warnings
 
 import six
 
 from openid.extension import Extension
+from openid.message import NamespaceAliasRegistrationError, registerNamespaceAlias
 
 __all__ = [
     'Request',
@@ -25,8 +27,15 @@ __all__ = [
     'LEVELS_JISA',
 ]
 
+_LOGGER = logging.getLogger(__name__)
+
 ns_uri = "http://specs.openid.net/extensions/pape/1.0"
 
+try:
+    registerNamespaceAlias(ns_uri, 'pape')
+except NamespaceAliasRegistrationError as e:
+    _LOGGER.exception('registerNamespaceAlias(%r, %r) failed: %s', ns_uri, 'pape', e)
+
 AUTH_MULTI_FACTOR_PHYSICAL = \
     'http://schemas.openid.net/pape/policies/2007/06/multi-factor-physical'
 AUTH_MULTI_FACTOR = \
-- 
2.43.0


From 07cb2c220b3364608ccded5848578238de82f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 41/64] fix: policy messages which use a well known auth level
 alias for another URI raise KeyError

---
 openid/extensions/pape.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openid/extensions/pape.py b/openid/extensions/pape.py
index b47ff1c..4025d7c 100644
--- a/openid/extensions/pape.py
+++ b/openid/extensions/pape.py
@@ -83,6 +83,12 @@ class PAPEExtension(Extension):
 
         self.auth_level_aliases[alias] = auth_level_uri
 
+    def _usableAlias(self, auth_level_uri, alias):
+        """Return the alias used by a received message, or None if it is in use for another auth level URI here."""
+        if self.auth_level_aliases.get(alias, auth_level_uri) == auth_level_uri:
+            return alias
+        return None
+
     def _generateAlias(self):
         """Return an unused auth level alias"""
         for i in range(1000):
@@ -259,7 +265,7 @@ class Request(PAPEExtension):
                         raise ValueError('preferred auth level %r is not '
                                          'defined in this message' % (alias,))
                 else:
-                    self.addAuthLevel(uri, alias)
+                    self.addAuthLevel(uri, self._usableAlias(uri, alias))
 
     def preferredTypes(self, supported_types):
         """Given a list of authentication policy URIs that a provider
@@ -448,7 +454,7 @@ class Response(PAPEExtension):
                         raise ValueError(
                             'Undefined auth level alias: %r' % (alias,))
                 else:
-                    self.setAuthLevel(uri, val, alias)
+                    self.setAuthLevel(uri, val, self._usableAlias(uri, alias))
 
         auth_time = args.get('auth_time')
         if auth_time:
-- 
2.43.0


From 289f89dfbd72214d85d7290dce7b24960406c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 42/64] fix: adding an extension twice to an OpenID 1 message
 raises AssertionError

---
 openid/extension.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openid/extension.py b/openid/extension.py
index d8c6828..7b800b0 100644
--- a/openid/extension.py
+++ b/openid/extension.py
@@ -40,12 +40,9 @@ class Extension(object):
 
         implicit = message.isOpenID1()
 
-        try:
+        if message.namespaces.getAlias(self.ns_uri) != self.ns_alias:
             message.namespaces.addAlias(self.ns_uri, self.ns_alias,
                                         implicit=implicit)
-        except KeyError:
-            if message.namespaces.getAlias(self.ns_uri) != self.ns_alias:
-                raise
 
         message.updateArgs(self.ns_uri, self.getExtensionArgs())
         return message
-- 
2.43.0


From d9cf254a99dea320c4d21d9db284fa587d194064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 43/64] fix: errors are sent to malformed return_to URLs

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index e935ab1..e4c478f 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1742,7 +1742,7 @@ class ProtocolError(Exception):
             I cannot be encoded as a protocol message and should be
             displayed to the user.
         """
-        if self.hasReturnTo():
+        if self.hasReturnTo() and TrustRoot.parse(self.getReturnTo()):
             if self.openid_message.isOpenID2() and \
                len(self.encodeToURL()) > OPENID1_URL_LIMIT:
                 # Message can be encoded as HTML form only if it's OpenID 2.0.
-- 
2.43.0


From f4a48c1b0f452703d5fad5d38d89249eae5547c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 44/64] fix: requests with unusable namespace aliases make the
 decoder raise AssertionError or InvalidNamespace

---
 openid/server/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index e4c478f..03b3d5c 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -1441,12 +1441,13 @@ class Decoder(object):
             # override the bad ns value to build a Message out of it.  Kinda
             # kludgy, since it's made of lies, but the parts that aren't lies
             # are more useful than a 'None'.
-            query = query.copy()
+            # The other namespaces are left out, they might not be valid either.
+            query = dict((key, value) for key, value in query.items() if key.count('.') < 2)
             query['openid.ns'] = OPENID2_NS
             message = Message.fromPostArgs(query)
             raise ProtocolError(message, six.text_type(err))
-        except InvalidNamespace as err:
-            # If openid.ns is OK, but there is problem with other namespaces
+        except (InvalidNamespace, AssertionError) as err:
+            # If openid.ns is OK, but there is problem with other namespaces or their aliases
             # We keep only bare parts of query and we try to make a ProtocolError from it
             query = [(key, value) for key, value in query.items() if key.count('.') < 2]
             message = Message.fromPostArgs(dict(query))
-- 
2.43.0


From 50e7049593cf252fc10f4091db809d8dcf1159e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 45/64] fix: errors of direct requests which carry a return_to
 are sent as redirects

---
 openid/server/server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 03b3d5c..4cac814 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -144,6 +144,7 @@ HTTP_REDIRECT = 302
 HTTP_ERROR = 400
 
 BROWSER_REQUEST_MODES = ['checkid_setup', 'checkid_immediate']
+DIRECT_REQUEST_MODES = ['associate', 'check_authentication']
 
 ENCODE_KVFORM = ('kvform',)
 ENCODE_URL = ('URL/redirect',)
@@ -1743,6 +1744,14 @@ class ProtocolError(Exception):
             I cannot be encoded as a protocol message and should be
             displayed to the user.
         """
+        if self.openid_message is None:
+            return None
+
+        mode = self.openid_message.getArg(OPENID_NS, 'mode')
+        if mode in DIRECT_REQUEST_MODES:
+            # The relying party itself is waiting for the response.
+            return ENCODE_KVFORM
+
         if self.hasReturnTo() and TrustRoot.parse(self.getReturnTo()):
             if self.openid_message.isOpenID2() and \
                len(self.encodeToURL()) > OPENID1_URL_LIMIT:
@@ -1751,10 +1760,6 @@ class ProtocolError(Exception):
             else:
                 return ENCODE_URL
 
-        if self.openid_message is None:
-            return None
-
-        mode = self.openid_message.getArg(OPENID_NS, 'mode')
         if mode:
             if mode not in BROWSER_REQUEST_MODES:
                 return ENCODE_KVFORM
-- 
2.43.0


From 91d768768b9ec2f5fd8c0405e26fa4d4877af8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 46/64] fix: an association type with a newline makes the error
 response unencodable

---
 openid/server/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index 4cac814..aa83ac2 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -489,7 +489,7 @@ class AssociateRequest(OpenIDRequest):
                                 (session_class.session_type, six.text_type(why)))
 
         if assoc_type not in session.allowed_assoc_types:
-            fmt = 'Session type %s does not support association type %s'
+            fmt = 'Session type %r does not support association type %r'
             raise ProtocolError(message, fmt % (session_type, assoc_type))
 
         self = klass(session, assoc_type, message=message)
-- 
2.43.0


From 1588d3cc4a573a92e114695bd525a40316f2354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 47/64] fix: an unusable Diffie-Hellman public key makes
 handleRequest raise ValueError

---
 openid/server/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openid/server/server.py b/openid/server/server.py
index aa83ac2..4def5c9 100644
--- a/openid/server/server.py
+++ b/openid/server/server.py
@@ -505,14 +505,20 @@ class AssociateRequest(OpenIDRequest):
             to the consumer's X{public key} if appropriate.
         @returntype: L{OpenIDResponse}
         """
+        try:
+            session_args = self.session.answer(assoc.secret)
+        except ValueError as why:
+            # The public key of the consumer is not usable
+            raise ProtocolError(self.message, 'Error answering %s session: %s' %
+                                (self.session.session_type, six.text_type(why)))
+
         response = OpenIDResponse(self)
         response.fields.updateArgs(OPENID_NS, {
             'expires_in': '%d' % (assoc.getExpiresIn(),),
             'assoc_type': self.assoc_type,
             'assoc_handle': assoc.handle,
         })
-        response.fields.updateArgs(OPENID_NS,
-                                   self.session.answer(assoc.secret))
+        response.fields.updateArgs(OPENID_NS, session_args)
 
         if not (self.session.session_type == 'no-encryption' and self.message.isOpenID1()):
             # The session type "no-encryption" did not have a name
-- 
2.43.0


From 67a08d6c5d1dce7a00367ae831c3d6b87802bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:17 +0000
Subject: [PATCH 48/64] fix: unusable Diffie-Hellman parameters make the
 decoder raise InternalError

---
 openid/dh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openid/dh.py b/openid/dh.py
index 455b2c7..08debef 100644
--- a/openid/dh.py
+++ b/openid/dh.py
@@ -5,6 +5,7 @@ import base64
 import warnings
 
 import six
+from cryptography.exceptions import InternalError
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives import hashes
 from cryptography.hazmat.primitives.asymmetric.dh import DHParameterNumbers, DHPublicNumbers
@@ -50,8 +51,11 @@ class DiffieHellman(object):
             generator = cryptutil.base64ToLong(generator)
 
         self.parameter_numbers = DHParameterNumbers(modulus, generator)
-        parameters = self.parameter_numbers.parameters(default_backend())
-        self.private_key = parameters.generate_private_key()
+        try:
+            parameters = self.parameter_numbers.parameters(default_backend())
+            self.private_key = parameters.generate_private_key()
+        except InternalError:
+            raise ValueError("Diffie-Hellman modulus or generator is not usable.")
 
     @classmethod
     def fromDefaults(cls):
-- 
2.43.0


From 74e420be77bb01588cd63bf670747e6c3877e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 49/64] fix: curl fetcher fails on relative redirects

---
 openid/fetchers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index 8a10993..c209d6f 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -7,6 +7,7 @@ import time
 import six
 from six import BytesIO
 from six.moves.urllib.error import HTTPError as UrllibHTTPError
+from six.moves.urllib.parse import urljoin
 from six.moves.urllib.request import Request, urlopen
 
 import openid
@@ -364,10 +365,12 @@ class CurlHTTPFetcher(HTTPFetcher):
                 response_headers = self._parseHeaders(response_header_data)
                 code = c.getinfo(pycurl.RESPONSE_CODE)
                 if code in [301, 302, 303, 307]:
-                    url = response_headers.get('location')
-                    if url is None:
+                    location = response_headers.get('location')
+                    if location is None:
                         raise HTTPError(
                             'Redirect (%s) returned without a location' % code)
+                    # The location may be relative to the current URL
+                    url = urljoin(url, location)
 
                     # Redirects are always GETs
                     c.setopt(pycurl.POST, 0)
-- 
2.43.0


From f5c4f4e10a5ced32812ca87b23063d3c9dd4c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 50/64] fix: httplib2 fetcher takes the final URL from the
 server's Content-Location header

---
 openid/fetchers.py | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index c209d6f..f807c49 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -398,6 +398,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
 
     @see: http://bitworking.org/projects/httplib2/
     """
+    MAX_REDIRECTS = 5
 
     def __init__(self, cache=None):
         """@param cache: An object suitable for use as an C{httplib2}
@@ -417,6 +418,10 @@ class HTTPLib2Fetcher(HTTPFetcher):
         # the other fetchers.
         self.httplib2.force_exception_to_status_code = False
 
+        # Redirects are followed by the fetcher: httplib2 doesn't tell where
+        # they led to.
+        self.httplib2.follow_redirects = False
+
     def fetch(self, url, body=None, headers=None):
         """Perform an HTTP request
 
@@ -434,33 +439,30 @@ class HTTPLib2Fetcher(HTTPFetcher):
         if headers is None:
             headers = {}
 
-        # httplib2 doesn't check to make sure that the URL's scheme is
-        # 'http' so we do it here.
-        if not (url.startswith('http://') or url.startswith('https://')):
-            raise ValueError('URL is not a HTTP URL: %r' % (url,))
-
-        httplib2_response, content = self.httplib2.request(
-            url, method, body=body, headers=headers)
+        for _ in range(self.MAX_REDIRECTS + 1):
+            # httplib2 doesn't check to make sure that the URL's scheme is
+            # 'http' so we do it here.
+            if not _allowedURL(url):
+                raise ValueError('URL is not a HTTP URL: %r' % (url,))
 
-        # Translate the httplib2 response to our HTTP response abstraction
+            httplib2_response, content = self.httplib2.request(
+                url, method, body=body, headers=headers)
 
-        # When a 400 is returned, there is no "content-location"
-        # header set. This seems like a bug to me. I can't think of a
-        # case where we really care about the final URL when it is an
-        # error response, but being careful about it can't hurt.
-        try:
-            final_url = httplib2_response['content-location']
-        except KeyError:
-            # We're assuming that no redirects occurred
-            assert not httplib2_response.previous
+            status = httplib2_response.status
+            if status != 303 and not (method == 'GET' and status in (301, 302, 307, 308)):
+                break
 
-            # And this should never happen for a successful response
-            assert httplib2_response.status != 200
-            final_url = url
+            if 'location' not in httplib2_response:
+                raise HTTPError('Redirect (%s) returned without a location' % status)
+            url = urljoin(url, httplib2_response['location'])
+            method, body = 'GET', None
+        else:
+            raise HTTPError('Too many redirects: %r' % (url,))
 
+        # Translate the httplib2 response to our HTTP response abstraction
         return HTTPResponse(
             body=content,
-            final_url=final_url,
+            final_url=url,
             headers=dict(httplib2_response.items()),
             status=httplib2_response.status,
         )
-- 
2.43.0


From 24091d5fab2e0ae50ac1b5fb03f385220dad6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 51/64] fix: requests and httplib2 fetchers send a POST with an
 empty body as GET

---
 openid/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index f807c49..f345a61 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -431,7 +431,7 @@ class HTTPLib2Fetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
@@ -480,7 +480,7 @@ class RequestsFetcher(HTTPFetcher):
         """
         assert body is None or isinstance(body, six.binary_type)
 
-        if body:
+        if body is not None:
             method = 'POST'
         else:
             method = 'GET'
-- 
2.43.0


From e1d6595888a7c4ee9617e35252544dec7b559845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 52/64] fix: urllib fetcher loses headers whose name is not in
 lower case

---
 openid/fetchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index f345a61..d47a6be 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -244,7 +244,8 @@ class Urllib2Fetcher(HTTPFetcher):
         resp = HTTPResponse()
         resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.final_url = urllib_response.geturl()
-        resp.headers = dict(urllib_response.info().items())
+        # Names of headers are case-insensitive, unlike keys of a dict.
+        resp.headers = urllib_response.info()
 
         if hasattr(urllib_response, 'code'):
             resp.status = urllib_response.code
-- 
2.43.0


From a8323748b83bf7d47adc16392d32f3dd17700367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 53/64] fix: urllib fetcher reports a response from a URL which
 is not HTTP

---
 openid/fetchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openid/fetchers.py b/openid/fetchers.py
index d47a6be..a547bf4 100644
--- a/openid/fetchers.py
+++ b/openid/fetchers.py
@@ -242,8 +242,11 @@ class Urllib2Fetcher(HTTPFetcher):
 
     def _makeResponse(self, urllib_response):
         resp = HTTPResponse()
-        resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         resp.final_url = urllib_response.geturl()
+        if not _allowedURL(resp.final_url):
+            # Redirected to a bad URL
+            raise ValueError('Bad URL scheme: %r' % (resp.final_url,))
+        resp.body = urllib_response.read(MAX_RESPONSE_KB * 1024)
         # Names of headers are case-insensitive, unlike keys of a dict.
         resp.headers = urllib_response.info()
 
-- 
2.43.0


From 3248dd9ba76b9699d0281bbbef5df78d19f3ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:04 +0000
Subject: [PATCH 54/64] fix: verification of a return URL for a realm that is a
 bare wildcard raises AssertionError

---
 openid/server/trustroot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openid/server/trustroot.py b/openid/server/trustroot.py
index ae3f759..c8a133e 100644
--- a/openid/server/trustroot.py
+++ b/openid/server/trustroot.py
@@ -429,6 +429,9 @@ def verifyReturnTo(realm_str, return_to, _vrfy=getAllowedReturnURLs):
     if realm is None:
         # The realm does not parse as a URL pattern
         return False
+    if realm.wildcard and not realm.host:
+        # The realm matches any host, there is nobody to ask
+        return False
 
     try:
         allowable_urls = _vrfy(realm.buildDiscoveryURL())
-- 
2.43.0


From dbf12edb3de8cad8333825133a9b7d3d63744bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 55/64] fix: XRI resolution: malformed CanonicalIDs and inames
 no longer escape as ValueError/AttributeError/IndexError

---
 openid/yadis/etxrd.py | 20 ++++++++++----------
 openid/yadis/xri.py   | 14 +++++++++-----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/openid/yadis/etxrd.py b/openid/yadis/etxrd.py
index 2b91ce5..ff7cd5d 100644
--- a/openid/yadis/etxrd.py
+++ b/openid/yadis/etxrd.py
@@ -170,24 +170,24 @@ def getCanonicalID(iname, xrd_tree):
     xrd_list = xrd_tree.findall(xrd_tag)
     xrd_list.reverse()
 
-    try:
-        canonicalID = xri.XRI(xrd_list[0].findall(canonicalID_tag)[0].text)
-    except IndexError:
+    if not xrd_list or not xrd_list[0].findtext(canonicalID_tag):
         return None
+    canonicalID = xri.XRI(xrd_list[0].findtext(canonicalID_tag))
 
     childID = canonicalID.lower()
 
     for xrd in xrd_list[1:]:
-        # XXX: can't use rsplit until we require python >= 2.4.
-        parent_sought = childID[:childID.rindex('!')]
-        parent = xri.XRI(xrd.findtext(canonicalID_tag))
-        if parent_sought != parent.lower():
+        parent = xri.XRI(xrd.findtext(canonicalID_tag, default='')).lower()
+        if not xri.providerIsAuthoritative(parent, childID):
             raise XRDSFraud("%r can not come from %s" % (childID, parent))
 
-        childID = parent_sought
+        childID = parent
 
-    root = xri.rootAuthority(iname)
-    if not xri.providerIsAuthoritative(root, childID):
+    try:
+        root = xri.rootAuthority(iname)
+    except ValueError as error:
+        raise XRDSError(six.text_type(error))
+    if not xri.providerIsAuthoritative(root.lower(), childID):
         raise XRDSFraud("%r can not come from root %r" % (childID, root))
 
     return canonicalID
diff --git a/openid/yadis/xri.py b/openid/yadis/xri.py
index 4712c6d..964e095 100644
--- a/openid/yadis/xri.py
+++ b/openid/yadis/xri.py
@@ -84,10 +84,8 @@ def providerIsAuthoritative(providerID, canonicalID):
 
     @returntype: bool
     """
-    # XXX: can't use rsplit until we require python >= 2.4.
-    lastbang = canonicalID.rindex('!')
-    parent = canonicalID[:lastbang]
-    return parent == providerID
+    parent, bang, _segment = canonicalID.rpartition('!')
+    return bool(bang) and parent == providerID
 
 
 def rootAuthority(xri):
@@ -99,17 +97,23 @@ def rootAuthority(xri):
 
     @type xri: six.text_type
     @returntype: six.text_type
+    @raises ValueError: If the XRI has no well-formed authority
     """
     if xri.startswith('xri://'):
         xri = xri[6:]
     authority = xri.split('/', 1)[0]
+    if not authority:
+        raise ValueError('XRI without an authority: %r' % (xri,))
     if authority[0] == '(':
         # Cross-reference.
         # XXX: This is incorrect if someone nests cross-references so there
         #   is another close-paren in there.  Hopefully nobody does that
         #   before we have a real xriparse function.  Hopefully nobody does
         #   that *ever*.
-        root = authority[:authority.index(')') + 1]
+        # A cross-reference may itself contain slashes.
+        if ')' not in xri:
+            raise ValueError('Unterminated cross-reference: %r' % (xri,))
+        root = xri[:xri.index(')') + 1]
     elif authority[0] in XRI_AUTHORITIES:
         # Other XRI reference.
         root = authority[0]
-- 
2.43.0


From f17403191aa1430e00d146fc78117898e3420033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 56/64] fix: services of one XRD are not attributed to another
 XRD's CanonicalID

---
 openid/yadis/xrires.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openid/yadis/xrires.py b/openid/yadis/xrires.py
index 0eb04d7..40a5b98 100644
--- a/openid/yadis/xrires.py
+++ b/openid/yadis/xrires.py
@@ -90,8 +90,13 @@ class ProxyResolver(object):
                 # print("response not OK:", response)
                 continue
             et = etxrd.parseXRDS(response.body)
-            canonicalID = etxrd.getCanonicalID(xri, et)
+            some_canonicalID = etxrd.getCanonicalID(xri, et)
             some_services = list(iterServices(et))
+            if services and some_canonicalID != canonicalID:
+                # Services of another authority must not be attributed to
+                # the CanonicalID we return.
+                continue
+            canonicalID = some_canonicalID
             services.extend(some_services)
         # TODO:
         #  * If we do get hits for multiple service_types, we're almost
-- 
2.43.0


From ac216f9a5a1e0c8b7be21827ab307ded60557837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:55 +0000
Subject: [PATCH 57/64] fix: a request without a return URL can be made, as
 documented

---
 openid/consumer/consumer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index 2444495..fae2e84 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -1584,8 +1584,9 @@ class AuthRequest(object):
         else:
             realm_key = 'realm'
 
-        message.updateArgs(OPENID_NS,
-                           {realm_key: realm, 'mode': mode, 'return_to': return_to})
+        message.updateArgs(OPENID_NS, {realm_key: realm, 'mode': mode})
+        if return_to:
+            message.setArg(OPENID_NS, 'return_to', return_to)
 
         if not self._anonymous:
             if self.endpoint.isOPIdentifier():
-- 
2.43.0


From 5b13d62b6dd6a384d0c67cf847ade9c1ab33f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 58/64] fix: the whole path of the return URL is compared,
 including its ';' part

---
 openid/consumer/consumer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openid/consumer/consumer.py b/openid/consumer/consumer.py
index fae2e84..bdda093 100644
--- a/openid/consumer/consumer.py
+++ b/openid/consumer/consumer.py
@@ -195,7 +195,7 @@ import warnings
 
 import six
 from cryptography.hazmat.primitives import hashes
-from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse
+from six.moves.urllib.parse import parse_qsl, urldefrag, urlparse, urlsplit
 
 from openid import cryptutil, fetchers, oidutil, urinorm
 from openid.association import Association, SessionNegotiator, default_negotiator
@@ -701,8 +701,8 @@ class GenericConsumer(object):
 
         # The URL scheme, authority, and path MUST be the same between
         # the two URLs.
-        app_parts = urlparse(urinorm.urinorm(return_to))
-        msg_parts = urlparse(urinorm.urinorm(msg_return_to))
+        app_parts = urlsplit(urinorm.urinorm(return_to))
+        msg_parts = urlsplit(urinorm.urinorm(msg_return_to))
 
         # (addressing scheme, network location, path) must be equal in
         # both URLs.
-- 
2.43.0


From cd85a9dd23fa6104e80c6965e0ba9d2286abb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 59/64] fix: keep a generated attribute alias from taking one
 that was asked for

---
 openid/extensions/ax.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/openid/extensions/ax.py b/openid/extensions/ax.py
index 06d6657..155f535 100644
--- a/openid/extensions/ax.py
+++ b/openid/extensions/ax.py
@@ -245,10 +245,9 @@ class FetchRequest(AXMessage):
 
         ax_args = self._newArgs()
 
+        # The aliases which were asked for go first, so that no generated alias takes one of them.
         for type_uri, attribute in six.iteritems(self.requested_attributes):
-            if attribute.alias is None:
-                alias = aliases.add(type_uri)
-            else:
+            if attribute.alias is not None:
                 # This will raise an exception when the second
                 # attribute with the same alias is added. I think it
                 # would be better to complain at the time that the
@@ -262,7 +261,10 @@ class FetchRequest(AXMessage):
                 # The other possible approach is to hide the error and
                 # generate a new alias on the fly. I think that would
                 # probably be bad.
-                alias = aliases.addAlias(type_uri, attribute.alias)
+                aliases.addAlias(type_uri, attribute.alias)
+
+        for type_uri, attribute in six.iteritems(self.requested_attributes):
+            alias = aliases.add(type_uri)
 
             if attribute.required:
                 required.append(alias)
@@ -655,14 +657,15 @@ class FetchResponse(AXKeyValueMessage):
                         'Response attribute not present in request: %r'
                         % (type_uri,))
 
+            # Copy the aliases from the request so that reading
+            # the response in light of the request is easier
             for attr_info in self.request.iterAttrs():
-                # Copy the aliases from the request so that reading
-                # the response in light of the request is easier
-                if attr_info.alias is None:
-                    aliases.add(attr_info.type_uri)
-                else:
+                if attr_info.alias is not None:
                     aliases.addAlias(attr_info.type_uri, attr_info.alias)
 
+            for attr_info in self.request.iterAttrs():
+                aliases.add(attr_info.type_uri)
+
                 try:
                     values = self.data[attr_info.type_uri]
                 except KeyError:
-- 
2.43.0


From 6292d067051d0eae385c65826919e685d194adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 60/64] fix: limit the domain part of file names in the file
 store

---
 openid/store/filestore.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index de00ce2..b4fc94b 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -40,6 +40,16 @@ def _filenameEscape(s):
     return ''.join(filename_chunks)
 
 
+# File names are limited to 255 characters. The domain is there only for human
+# inspection, the hash of the whole server URL keeps the names apart.
+_MAX_DOMAIN_LENGTH = 180
+
+
+def _filenameDomain(rest):
+    """Return the part of a file name that shows the domain of a server URL."""
+    return _filenameEscape(rest.split('/', 1)[0])[:_MAX_DOMAIN_LENGTH]
+
+
 def _removeIfPresent(filename):
     """Attempt to remove a file, returning whether the file existed at
     the time of the call.
@@ -163,7 +173,7 @@ class FileOpenIDStore(OpenIDStore):
             raise ValueError('Bad server URL: %r' % server_url)
 
         proto, rest = server_url.split('://', 1)
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        domain = _filenameDomain(rest)
         url_hash = _safe64(server_url)
         if handle:
             handle_hash = _safe64(handle)
@@ -326,7 +336,7 @@ class FileOpenIDStore(OpenIDStore):
             # which is part of a consumer-generated nonce.
             proto, rest = '', ''
 
-        domain = _filenameEscape(rest.split('/', 1)[0])
+        domain = _filenameDomain(rest)
         url_hash = _safe64(server_url)
         salt_hash = _safe64(salt)
 
-- 
2.43.0


From a52643aca9575ffdc0f26634c6e399220d6520dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 61/64] fix: a namespace given to getArg as a byte string is
 converted on Python 3

---
 openid/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/message.py b/openid/message.py
index 14098e8..53ee01d 100644
--- a/openid/message.py
+++ b/openid/message.py
@@ -472,7 +472,7 @@ class Message(object):
         @raises UndefinedOpenIDNamespace: if the message has not yet
             had an OpenID namespace set
         """
-        if isinstance(namespace, six.string_types):
+        if isinstance(namespace, (six.text_type, six.binary_type)):
             namespace = string_to_text(namespace, "Binary values for namespace are deprecated. Use text input instead.")
         key = string_to_text(key, "Binary values for key are deprecated. Use text input instead.")
         namespace = self._fixNS(namespace)
-- 
2.43.0


From 08ff24b597340fe673e1996230e720034c091480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 62/64] fix: the directory of a file store may be a byte string
 on Python 3, as documented

---
 openid/store/filestore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openid/store/filestore.py b/openid/store/filestore.py
index b4fc94b..a134d88 100644
--- a/openid/store/filestore.py
+++ b/openid/store/filestore.py
@@ -111,6 +111,8 @@ class FileOpenIDStore(OpenIDStore):
             directories in.
         @type directory: six.text_type, six.binary_type is deprecated
         """
+        directory = string_to_text(directory, "Binary values for directory are deprecated. Use text input instead.")
+
         # Make absolute
         directory = os.path.normpath(os.path.abspath(directory))
 
-- 
2.43.0


From aecfcc07aafa66168e209433d7e01f9aac82da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 63/64] fix: a type given to generateAcceptHeader as a byte
 string is converted on Python 3

---
 openid/yadis/accept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openid/yadis/accept.py b/openid/yadis/accept.py
index faccffa..6f833ae 100644
--- a/openid/yadis/accept.py
+++ b/openid/yadis/accept.py
@@ -15,7 +15,7 @@ def generateAcceptHeader(*elements):
     """
     parts = []
     for element in elements:
-        if isinstance(element, six.string_types):
+        if isinstance(element, (six.text_type, six.binary_type)):
             qs = "1.0"
             mtype = string_to_text(element,
                                    "Binary values for generateAcceptHeader are deprecated. Use text input instead.")
-- 
2.43.0


From 7be600de29e8d15353e2060716995ed6c49a8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:58 +0000
Subject: [PATCH 64/64] fix: appendArgs takes a dictionary that has both text
 and byte string keys

---
 openid/oidutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openid/oidutil.py b/openid/oidutil.py
index 83b5657..276ccd8 100644
--- a/openid/oidutil.py
+++ b/openid/oidutil.py
@@ -79,7 +79,8 @@ def appendArgs(url, args):
     url = string_to_text(url, "Binary values for appendArgs are deprecated. Use text input instead.")
 
     if hasattr(args, 'items'):
-        args = sorted(args.items())
+        args = sorted(args.items(), key=lambda item: string_to_text(
+            item[0], "Binary values for appendArgs are deprecated. Use text input instead."))
     else:
         args = list(args)
 
-- 
2.43.0

