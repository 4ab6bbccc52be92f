From 473103158c7609d11d7eda15b3609eb02d54202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 01/34] fix: enforce read_max_bytes for Connect GET requests

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..6c159e3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..b884538 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,12 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From fbf2cb4a803793960e813599bf7abc57b9f4c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 02/34] fix: end a cancelled stream with an error, not as a
 success

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 6c159e3..0a0f985 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -461,7 +461,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From 6751865b24f25e3ed247ef7d939c1b5020675b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 03/34] fix: reject unknown request compression on Connect
 streams

---
 src/connectrpc/_protocol_connect.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..fac8730 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -145,13 +145,11 @@ class ConnectServerProtocol:
 
     def negotiate_stream_compression(
         self, headers: Headers, compressions: dict[str, Compression]
-    ) -> tuple[Compression, Compression]:
+    ) -> tuple[Compression | None, Compression]:
         req_compression_name = headers.get(
             CONNECT_STREAMING_HEADER_COMPRESSION, "identity"
         )
-        req_compression = (
-            compressions.get(req_compression_name) or IdentityCompression()
-        )
+        req_compression = compressions.get(req_compression_name)
         accept_compression = headers.get(
             CONNECT_STREAMING_HEADER_ACCEPT_COMPRESSION, ""
         )
-- 
2.43.0


From 032b1884a757d9c1f7611b4dd3795231d777eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 04/34] fix: answer 404 when the server omits the optional
 mount prefix

root_path is an optional key of the ASGI scope, and SCRIPT_NAME and PATH_INFO
may be absent from a WSGI environ when empty; requests for unknown paths
failed with KeyError instead of being answered with 404.
---
 src/connectrpc/_server_async.py | 4 ++--
 src/connectrpc/_server_sync.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 0a0f985..60ab9fc 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -178,9 +178,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         try:
             path = scope["path"]
             endpoint = endpoints.get(path)
-            if not endpoint and scope["root_path"]:
+            if not endpoint and (root_path := scope.get("root_path", "")):
                 # The application was mounted at some root so try stripping the prefix.
-                path = path.removeprefix(scope["root_path"])
+                path = path.removeprefix(root_path)
                 endpoint = endpoints.get(path)
             if not endpoint:
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b884538..b51aef9 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -194,11 +194,12 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
-            path = environ["PATH_INFO"]
+            # Both variables may be absent when they would be empty.
+            path = environ.get("PATH_INFO", "")
             if not path:
                 path = "/"
             endpoint = self._endpoints.get(path)
-            if not endpoint and environ["SCRIPT_NAME"] == self.path:
+            if not endpoint and environ.get("SCRIPT_NAME", "") == self.path:
                 # The application was mounted at the service's path so we reconstruct
                 # the full URL.
                 endpoint = self._endpoints.get(self.path + path)
-- 
2.43.0


From 576a5f345ce50499821ef68239e4a5d6a645938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 05/34] fix: refuse GET for streaming methods

A GET request for a streaming method with idempotency level NO_SIDE_EFFECTS
passed the HTTP method check and ran the method; only unary methods can be
called with GET. Answer 405 with allow: POST instead.
---
 src/connectrpc/_server_async.py | 7 +++++--
 src/connectrpc/_server_sync.py  | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 60ab9fc..d4f11a4 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -198,12 +198,15 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 msg = f"ASGI server does not support ASGI trailers extension but protocol for content-type '{content_type}' requires trailers"
                 raise RuntimeError(msg)
 
+            is_unary = isinstance(endpoint, EndpointUnary)
+            if not is_unary and http_method != "POST":
+                # GET is only for unary methods, whatever the idempotency level.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             ctx = protocol.create_request_context(
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
 
-            is_unary = isinstance(endpoint, EndpointUnary)
-
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
                 query_params = parse_qs(query_string, keep_blank_values=True)
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index b51aef9..98e2ea9 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -225,13 +225,16 @@ class ConnectWSGIApplication(ABC):
                 if not send_trailers:
                     msg = f"WSGI server does not support WSGI trailers extension but protocol for content-type '{content_type}' requires trailers"
                     raise RuntimeError(msg)
+            is_unary = isinstance(endpoint, EndpointUnarySync)
+            if not is_unary and http_method != "POST":
+                # GET is only for unary methods, whatever the idempotency level.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             ctx = protocol.create_request_context(
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
 
-            if isinstance(endpoint, EndpointUnarySync) and isinstance(
-                protocol, ConnectServerProtocol
-            ):
+            if is_unary and isinstance(protocol, ConnectServerProtocol):
                 return self._handle_unary(
                     environ, start_response, http_method, endpoint, ctx, headers
                 )
-- 
2.43.0


From bb54a26ea508a3ccb71134801cfac1f1d9e93ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 06/34] fix: report truncated streaming responses as errors

A Connect stream that ended without its end of stream message, a stream of
any protocol that ended inside an envelope, and one with bytes after its end
of stream message looked complete to the caller; messages after the end were
even delivered. Report them with code internal.
---
 src/connectrpc/_envelope.py         | 11 ++++++++++-
 src/connectrpc/_protocol_connect.py |  9 +++++++++
 src/connectrpc/_protocol_grpc.py    |  2 ++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..e5b5890 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,13 +38,14 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._end_received = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
-        while self._buffer:
+        while self._buffer and not self._end_received:
             if self._next_message_length is not None:
                 if len(self._buffer) < self._next_message_length + 5:
                     return
@@ -73,6 +74,7 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    self._end_received = True
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
@@ -97,6 +99,13 @@ class EnvelopeReader(Generic[_RES]):
         """Handle any client finalization needed when the response is complete.
         This is typically used to process trailers for gRPC.
         """
+        if e is None and self._buffer:
+            raise ConnectError(
+                Code.INTERNAL,
+                f"protocol error: {len(self._buffer)} extra bytes at end of response"
+                if self._end_received
+                else "protocol error: response ended with an incomplete message",
+            )
 
 
 class EnvelopeWriter(ABC, Generic[_T]):
diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index fac8730..c271230 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -328,3 +328,12 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self,
+        response: pyqwest.Response | pyqwest.SyncResponse,
+        e: ConnectError | None = None,
+    ) -> None:
+        super().handle_response_complete(response, e)
+        if e is None and not self._end_received:
+            raise ConnectError(Code.INTERNAL, "missing end of stream message")
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..365a73b 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -369,6 +369,8 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
             )
             raise ConnectError(connect_code, urllib.parse.unquote(message))
 
+        super().handle_response_complete(response, e)
+
 
 class GRPCWebEnvelopeReader(GRPCEnvelopeReader):
     def __init__(
-- 
2.43.0


From d258f5694ddd529a5586598f458938a49885ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 07/34] fix: report an unreadable grpc-status-details-bin as a
 ConnectError

When a gRPC stream was reset and came with an unreadable status detail, the
parse error escaped to the caller instead of a ConnectError.
---
 src/connectrpc/_protocol_grpc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 365a73b..38cc17d 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -359,7 +359,12 @@ class GRPCEnvelopeReader(EnvelopeReader[RES]):
         if grpc_status != "0":
             message = trailers.get("grpc-message", "")
             if grpc_status_details := trailers.get("grpc-status-details-bin"):
-                status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                try:
+                    status = Status.from_binary(b64decode(grpc_status_details + "==="))
+                except Exception as parse_error:
+                    raise e or ConnectError(
+                        Code.INTERNAL, "invalid grpc-status-details-bin trailer"
+                    ) from parse_error
                 connect_code = code or _grpc_status_to_connect.get(
                     str(status.code), Code.UNKNOWN
                 )
-- 
2.43.0


From 279c8945ba7be9a912620cfbd9eb9665ddc2d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 08/34] fix: reject a request stream that ends inside an
 envelope

A client-streaming or bidirectional request whose body ended in the middle
of an envelope was presented to the service as a complete request.
---
 src/connectrpc/_envelope.py     | 5 +++++
 src/connectrpc/_server_async.py | 4 ++++
 src/connectrpc/_server_sync.py  | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index e5b5890..4122242 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -44,6 +44,11 @@ class EnvelopeReader(Generic[_RES]):
         self._buffer.extend(data)
         return self._read_messages()
 
+    @property
+    def incomplete(self) -> bool:
+        """Whether data was fed that is not part of a complete message."""
+        return bool(self._buffer)
+
     def _read_messages(self) -> Iterator[_RES]:
         while self._buffer and not self._end_received:
             if self._next_message_length is not None:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index d4f11a4..8754fa3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -583,6 +583,10 @@ async def _request_stream(
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
                 await sleep(0)
+        if reader.incomplete:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, "request ended with an incomplete message"
+            )
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 98e2ea9..26ee495 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -585,6 +585,10 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    if reader.incomplete:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, "request ended with an incomplete message"
+        )
 
 
 def _response_stream(
-- 
2.43.0


From 91a84c573affd25c88d7d2db0075f27644def53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 09/34] fix: an explicit timeout of zero no longer falls back
 to the client's default

A call made with timeout_ms=0, e.g. because the caller's time budget is used
up, ran with the client's default timeout or without any deadline.
---
 src/connectrpc/_client_async.py | 8 ++++----
 src/connectrpc/_client_sync.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..99027f6 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -204,7 +204,7 @@ class ConnectClient:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -225,7 +225,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -246,7 +246,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -267,7 +267,7 @@ class ConnectClient:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..971f754 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -203,7 +203,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="GET" if use_get else "POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=False,
             accept_compression=self._accept_compression_header,
@@ -224,7 +224,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -245,7 +245,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
@@ -266,7 +266,7 @@ class ConnectClientSync:
             url=self._address,
             http_method="POST",
             user_headers=headers,
-            timeout_ms=timeout_ms or self._timeout_ms,
+            timeout_ms=timeout_ms if timeout_ms is not None else self._timeout_ms,
             codec=self._codec,
             stream=True,
             accept_compression=self._accept_compression_header,
-- 
2.43.0


From f1013ad722bb1dfd3186a7cd5c283aae0049333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 10/34] fix: a deadline that passes while the caller handles a
 message no longer cancels the caller

The timeout of an asynchronous stream stays active while the stream is
suspended at a yield, and then cancels whatever the caller is awaiting.
It is now suspended while the caller handles a message, and the caller
gets a deadline_exceeded error when it asks for the next one.
---
 src/connectrpc/_client_async.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 99027f6..2440637 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -374,7 +374,7 @@ class ConnectClient:
             )
 
             async with (
-                asyncio_timeout(timeout_s),
+                asyncio_timeout(timeout_s) as deadline,
                 self._http_client.stream(
                     "POST", url, headers=request_headers, content=request_data
                 ) as resp,
@@ -395,7 +395,12 @@ class ConnectClient:
                     )
                     async for chunk in resp.content:
                         for message in reader.feed(bytes(chunk)):
+                            # The deadline cancels the current task, which must not happen
+                            # while the caller is handling the message.
+                            when = deadline.when()
+                            deadline.reschedule(None)
                             yield message
+                            deadline.reschedule(when)
                             # Check for cancellation each message. While this seems heavyweight,
                             # conformance tests require it.
                             await sleep(0)
-- 
2.43.0


From 47bb99c0ef3c9c289a7b3ed43024ddb764f9edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 11/34] fix: a call whose deadline passed before it is sent
 reports deadline_exceeded

The synchronous client passed the negative remaining time to the HTTP
client, whose ValueError was reported as unavailable.
---
 src/connectrpc/_client_sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 971f754..173b259 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -288,6 +288,10 @@ class ConnectClientSync:
             timeout_s = None
 
         try:
+            if timeout_s is not None and timeout_s <= 0:
+                # The HTTP client does not accept a negative timeout.
+                raise TimeoutError
+
             request_data = self._codec.encode(request)
             if self._send_compression:
                 request_data = self._send_compression.compress(request_data)
@@ -363,6 +367,10 @@ class ConnectClientSync:
         reader: EnvelopeReader | None = None
         resp: SyncResponse | None = None
         try:
+            if timeout_s is not None and timeout_s <= 0:
+                # The HTTP client does not accept a negative timeout.
+                raise TimeoutError
+
             request_data = _streaming_request_content(
                 request, self._codec, self._send_compression
             )
-- 
2.43.0


From 731d5b24d5a339e6690175a613e4924eb4df6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 12/34] fix: reject malformed timeout headers as
 invalid_argument

A malformed grpc-timeout was reported as an internal failure of the server
and raised to it, and both protocols took signs, whitespace and underscores
for digits.
---
 src/connectrpc/_protocol_connect.py |  8 ++++----
 src/connectrpc/_protocol_grpc.py    | 14 +++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index c271230..0ea54aa 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -106,12 +106,12 @@ class ConnectServerProtocol:
                     Code.INVALID_ARGUMENT,
                     f"Invalid timeout header: '{timeout_header} has >10 digits",
                 )
-            try:
-                timeout_ms = int(timeout_header)
-            except ValueError as e:
+            # int() also accepts signs, whitespace, underscores and non-ASCII digits
+            if not (timeout_header.isascii() and timeout_header.isdigit()):
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, f"Invalid timeout header: '{timeout_header}'"
-                ) from e
+                )
+            timeout_ms = int(timeout_header)
         else:
             timeout_ms = None
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 38cc17d..13fa180 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -61,7 +61,10 @@ class GRPCServerProtocol:
             raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
         timeout_header = headers.get(GRPC_HEADER_TIMEOUT)
-        timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        try:
+            timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        except ValueError as e:
+            raise ConnectError(Code.INVALID_ARGUMENT, str(e)) from e
 
         server_address = host_to_server_address(headers.get("host"), http_scheme)
 
@@ -124,11 +127,12 @@ class GRPCWebServerProtocol(GRPCServerProtocol):
 def _parse_timeout(timeout: str) -> int:
     # We normalize to int milliseconds matching connect's timeout header.
     value_to_ms = _lookup_timeout_unit(timeout[-1])
-    try:
-        value = int(timeout[:-1])
-    except ValueError as e:
+    digits = timeout[:-1]
+    # int() also accepts signs, whitespace, underscores and non-ASCII digits
+    if not (digits.isascii() and digits.isdigit()):
         msg = f"protocol error: invalid timeout '{timeout}'"
-        raise ValueError(msg) from e
+        raise ValueError(msg)
+    value = int(digits)
 
     # timeout must be ASCII string of at most 8 digits
     if value > 99999999:
-- 
2.43.0


From c81080239d35793fa23d0b965efff26d0cf8fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 13/34] fix: keep the connect-timeout-ms header within the
 protocol's limits

A timeout of more than 10 digits or a negative one produced a header that
the server has to reject.
---
 src/connectrpc/_protocol_connect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 0ea54aa..acfb4ed 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -221,7 +221,8 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            # The Connect protocol limits timeouts to 10 digits.
+            headers["connect-timeout-ms"] = str(max(0, min(timeout_ms, 9999999999)))
 
         server_address = url_to_server_address(url)
 
-- 
2.43.0


From 7e1c5912d3ae288cb660b0230b7840c8993867f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 14/34] fix: apply interceptors given as a one-shot iterable to
 every method of a service

The ASGI application resolved its interceptors once per method, so an
iterator was used up by the first one and the others ran without them.
---
 src/connectrpc/_server_async.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 8754fa3..ce1458d 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -110,7 +110,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        self._interceptors = resolve_interceptors(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
@@ -536,9 +536,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         resolved_endpoints = self._endpoints(service)
         if self._interceptors:
             resolved_endpoints = {
-                path: _apply_interceptors(
-                    endpoint, resolve_interceptors(self._interceptors)
-                )
+                path: _apply_interceptors(endpoint, self._interceptors)
                 for path, endpoint in resolved_endpoints.items()
             }
         return resolved_endpoints
-- 
2.43.0


From 69f3dfa95f2470b59e9098ca3944cd146eab5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 15/34] fix: close the wrapped stream when a metadata
 interceptor's stream is closed early

The service's (or HTTP client's) stream stayed suspended until garbage
collection, and on_end was called while the RPC was still open.
---
 src/connectrpc/_interceptor_async.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..066d46a 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -200,8 +200,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            response_stream = call_next(request, ctx)
+            try:
+                async for response in response_stream:
+                    yield response
+            finally:
+                # If we are closed early, the wrapped stream must be as well, Python
+                # defers async-generator cleanup to GC otherwise.
+                aclose = getattr(response_stream, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
@@ -217,8 +225,16 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            response_stream = call_next(request, ctx)
+            try:
+                async for response in response_stream:
+                    yield response
+            finally:
+                # If we are closed early, the wrapped stream must be as well, Python
+                # defers async-generator cleanup to GC otherwise.
+                aclose = getattr(response_stream, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From d33fcefa8872ea06cfb22c12d007fd810c89a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 16/34] fix: report a request that cannot be decompressed or
 decoded as invalid_argument

---
 src/connectrpc/_server_async.py  | 31 ++++++++++++++++++++++++++-----
 src/connectrpc/_server_shared.py | 19 +++++++++++++++++++
 src/connectrpc/_server_sync.py   | 10 ++++++++--
 3 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index ce1458d..83da2e3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -30,6 +30,7 @@ from ._server_shared import (
     EndpointClientStream,
     EndpointServerStream,
     EndpointUnary,
+    read_request_messages,
 )
 from .code import Code
 from .errors import ConnectError
@@ -330,7 +331,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         # Decompress and decode message
         if message:  # Don't decompress empty messages
-            message = compression.decompress(message)
+            try:
+                message = compression.decompress(message)
+            except Exception as e:
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT, f"Failed to decompress message: {e!s}"
+                ) from e
 
         if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
             raise ConnectError(
@@ -339,7 +345,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         # Get the appropriate decoder for the endpoint
-        return codec.decode(message, endpoint.method.input)
+        try:
+            return codec.decode(message, endpoint.method.input)
+        except Exception as e:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, f"Failed to decode message: {e!s}"
+            ) from e
 
     async def _read_post_request(
         self,
@@ -364,7 +375,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         if req_body:  # Don't decompress empty body
-            req_body = compression.decompress(req_body)
+            try:
+                req_body = compression.decompress(req_body)
+            except Exception as e:
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT, f"Failed to decompress request body: {e!s}"
+                ) from e
 
         if self._read_max_bytes is not None and len(req_body) > self._read_max_bytes:
             raise ConnectError(
@@ -372,7 +388,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 f"message is larger than configured max {self._read_max_bytes}",
             )
 
-        return codec.decode(req_body, endpoint.method.input)
+        try:
+            return codec.decode(req_body, endpoint.method.input)
+        except Exception as e:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, f"Failed to decode request body: {e!s}"
+            ) from e
 
     async def _handle_stream(
         self,
@@ -576,7 +597,7 @@ async def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     try:
         async for chunk in _read_body(receive):
-            for message in reader.feed(chunk):
+            for message in read_request_messages(reader, chunk):
                 yield message
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
diff --git a/src/connectrpc/_server_shared.py b/src/connectrpc/_server_shared.py
index 512c2a2..b67d800 100644
--- a/src/connectrpc/_server_shared.py
+++ b/src/connectrpc/_server_shared.py
@@ -3,9 +3,13 @@ from __future__ import annotations
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Generic, TypeVar
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterator
 
+    from ._envelope import EnvelopeReader
     from .method import MethodInfo
     from .request import RequestContext
 
@@ -136,3 +140,18 @@ class EndpointServerStreamSync(EndpointSync[REQ, RES]):
 @dataclass(kw_only=True, frozen=True, slots=True)
 class EndpointBidiStreamSync(EndpointSync[REQ, RES]):
     function: Callable[[Iterator[REQ], RequestContext[REQ, RES]], Iterator[RES]]
+
+
+def read_request_messages(reader: EnvelopeReader[REQ], chunk: bytes) -> Iterator[REQ]:
+    """Reads request messages from a chunk of the request body.
+
+    A message that cannot be decompressed or decoded is an error of the caller.
+    """
+    try:
+        yield from reader.feed(chunk)
+    except ConnectError:
+        raise
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decode request message: {e!s}"
+        ) from e
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 26ee495..e1c2680 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -34,6 +34,7 @@ from ._server_shared import (
     EndpointClientStreamSync,
     EndpointServerStreamSync,
     EndpointUnarySync,
+    read_request_messages,
 )
 from .code import Code
 from .errors import ConnectError
@@ -389,7 +390,12 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                try:
+                    message = compression.decompress(message)
+                except Exception as e:
+                    raise ConnectError(
+                        Code.INVALID_ARGUMENT, f"Failed to decompress message: {e!s}"
+                    ) from e
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
@@ -584,7 +590,7 @@ def _request_stream(
 ) -> Iterator[_REQ]:
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
-        yield from reader.feed(chunk)
+        yield from read_request_messages(reader, chunk)
     if reader.incomplete:
         raise ConnectError(
             Code.INVALID_ARGUMENT, "request ended with an incomplete message"
-- 
2.43.0


From 74a80793f01a1b6236c01d9b191ac44e87801d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 17/34] fix: log unexpected errors raised while streaming WSGI
 responses

---
 src/connectrpc/_server_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index e1c2680..4aa2790 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -615,6 +615,7 @@ def _response_stream(
     except Exception as e:
         error = e
         _drain_request_body(environ)
+        _maybe_log_exception(environ, e)
 
     yield _end_response(
         writer.end(
-- 
2.43.0


From a39f2750c0790fc6d95f9799089a19dc01b3961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 18/34] fix: membership, comparison and repr of
 Headers.allitems() with repeated headers

---
 src/connectrpc/_headers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..aa6ccb3 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -146,3 +146,11 @@ class _AllItemsView(ItemsView[str, str]):
         if self._extra:
             size += sum(len(v) for v in self._extra.values())
         return size
+
+    # The base class implementations use a mapping this view does not have.
+
+    def __contains__(self, item: object) -> bool:
+        return any(item == pair for pair in self)
+
+    def __repr__(self) -> str:
+        return f"{type(self).__name__}({list(self)!r})"
-- 
2.43.0


From 86dc114e05a7a2aa58d01297c23ffa1b9b0621b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 19/34] fix: server address of a client URL with a path or
 credentials and of an IPv6 host without a port

---
 src/connectrpc/_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..0da061c 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # The colons of an IPv6 address are inside brackets.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -301,4 +302,7 @@ def url_to_server_address(address: str) -> str | None:
         scheme = "http"
         address = address[len("http://") :]
 
+    # Only the authority, without credentials, is the server's address.
+    address = address.partition("/")[0].rpartition("@")[2]
+
     return host_to_server_address(address, scheme)
-- 
2.43.0


From 6c39dc7ed1ea2f31a84b74a827bb811555c3fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 20/34] fix: calls with an address whose port is missing or
 malformed failed when instrumented

---
 .../connectrpc_otel/_interceptor.py           | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..82b33f9 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import time
-from contextlib import AbstractContextManager, contextmanager
+from contextlib import AbstractContextManager, contextmanager, suppress
 from typing import TYPE_CHECKING, TypeAlias, TypeVar, cast
 
 from connectrpc.errors import ConnectError
@@ -109,9 +109,7 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
-            shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            _add_address(shared_attrs, sa, SERVER_ADDRESS, SERVER_PORT)
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -162,9 +160,7 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
-            attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            _add_address(attrs, ca, CLIENT_ADDRESS, CLIENT_PORT)
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
@@ -183,3 +179,16 @@ class OpenTelemetryInterceptor:
             if isinstance(error, ConnectError)
             else "unknown",
         }
+
+
+def _add_address(
+    attrs: dict[str, AttributeValue], address: str, address_key: str, port_key: str
+) -> None:
+    host, sep, port = address.rpartition(":")
+    if not sep:
+        attrs[address_key] = address
+        return
+    attrs[address_key] = host
+    # The port comes from the peer or the application server and may not be a number.
+    with suppress(ValueError):
+        attrs[port_key] = int(port)
-- 
2.43.0


From b7f32bfea903aef12d88626fea912f0f0a5b5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 21/34] fix: the trace context sent by an instrumented client
 was that of its caller, not of its own span

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index 82b33f9..1861912 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -148,8 +148,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -165,6 +163,11 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # The server's parent is the span of this call, so it has to be started.
+                self._propagator.inject(
+                    ctx.request_headers, setter=_DEFAULT_TEXTMAP_SETTER
+                )
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From 20f377300e69fe331acce2a6ec0d38676c845081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 22/34] fix: interceptors given as an iterator were lost when
 they include the OpenTelemetry interceptor

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..d1c9726 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -85,10 +85,10 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From 3c44036904148ca368b6f567d8728cac7fafcc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 23/34] fix: a startup whose endpoints cannot be resolved was
 not reported as failed and left the service open

---
 src/connectrpc/_server_async.py | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 83da2e3..4557626 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -131,24 +131,24 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 msg = await receive()
                 match msg["type"]:
                     case "lifespan.startup":
-                        # Need to cast since type checking doesn't seem to narrow well with isasyncgen
-                        if inspect.isasyncgen(self._service):
-                            service_iter = cast(
-                                "AsyncGenerator[_SVC, None]", self._service
-                            )
-                            try:
-                                service = await anext(service_iter)
-                            except Exception as e:
-                                await send(
-                                    {
-                                        "type": "lifespan.startup.failed",
-                                        "message": str(e),
-                                    }
+                        try:
+                            # Need to cast since type checking doesn't seem to narrow well with isasyncgen
+                            if inspect.isasyncgen(self._service):
+                                service_iter = cast(
+                                    "AsyncGenerator[_SVC, None]", self._service
                                 )
-                                return None
-                        else:
-                            service = cast("_SVC", self._service)
-                        self._resolved_endpoints = self._resolve_endpoints(service)
+                                service = await anext(service_iter)
+                            else:
+                                service = cast("_SVC", self._service)
+                            self._resolved_endpoints = self._resolve_endpoints(service)
+                        except Exception as e:
+                            if service_iter is not None:
+                                with contextlib.suppress(Exception):
+                                    await service_iter.aclose()
+                            await send(
+                                {"type": "lifespan.startup.failed", "message": str(e)}
+                            )
+                            return None
                         await send({"type": "lifespan.startup.complete"})
                     case "lifespan.shutdown":
                         if service_iter is not None:
-- 
2.43.0


From 2dca793e50d2a31e3742e966f3f96f9759c06e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 24/34] fix: a started service without endpoints was taken for
 one that was not started

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 4557626..56cb429 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -165,7 +165,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                         await send({"type": "lifespan.shutdown.complete"})
                         return None
 
-        if not self._resolved_endpoints:
+        if self._resolved_endpoints is None:
             if inspect.isasyncgen(self._service):
                 msg = "ASGI server does not support lifespan but async generator passed for service. Enable lifespan support."
                 raise RuntimeError(msg)
-- 
2.43.0


From 320f4c2cfbd3e0cf3142dedf27a618e0f8a48c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 25/34] fix: Close the response stream when a single-response
 call has too many messages

The HTTP response stayed open until the stream was garbage collected.
---
 src/connectrpc/_client_async.py | 19 +++++++++++++------
 src/connectrpc/_client_sync.py  | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 2440637..28a15ee 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -446,12 +446,19 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
 
 async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    try:
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
+    finally:
+        # Release the HTTP response if we stop early, Python defers async-generator
+        # cleanup to GC otherwise.
+        aclose = getattr(stream, "aclose", None)
+        if aclose is not None:
+            await aclose()
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 173b259..91da335 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -454,12 +454,19 @@ def _streaming_request_content(
 
 def _consume_single_response(stream: Iterator[RES]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    try:
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
+    finally:
+        # Release the HTTP response if we stop early, the raised error keeps the
+        # stream alive otherwise.
+        close = getattr(stream, "close", None)
+        if close is not None:
+            close()
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From f3d267add5a77a2917790d60c029f024029c4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 26/34] fix: Don't let methods of generated clients override
 members of the base client

---
 .../protoc_gen_connectrpc/__init__.py         | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..e7477a9 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -235,7 +235,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
 
-            with f.scope(def_prefix, "def ", _method_local_name(method), "("):
+            with f.scope(def_prefix, "def ", _client_method_local_name(method), "("):
                 f.print("self,")
                 f.print("request: ", *request_type, ",")
                 f.print("*,")
@@ -398,7 +398,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
 
-            with f.scope("def ", _method_local_name(method), "("):
+            with f.scope("def ", _client_method_local_name(method), "("):
                 f.print("self,")
                 f.print("request: ", *request_type, ",")
                 f.print("*,")
@@ -563,6 +563,25 @@ def _method_local_name(method: DescMethod) -> str:
     return escape_identifier(_pascal_to_snake_case(method.name))
 
 
+# Members of the client base classes, which methods of generated clients must not override.
+_CLIENT_MEMBERS = frozenset(
+    {
+        "close",
+        "execute_unary",
+        "execute_client_stream",
+        "execute_server_stream",
+        "execute_bidi_stream",
+    }
+)
+
+
+def _client_method_local_name(method: DescMethod) -> str:
+    name = _method_local_name(method)
+    if name.rstrip("_") in _CLIENT_MEMBERS:
+        return f"{name}_"
+    return name
+
+
 def _method_url(desc: DescMethod) -> str:
     return f"/{desc.parent.type_name}/{desc.name}"
 
-- 
2.43.0


From bd88e1f0f743813f4ba79fe43ca78af7adbcef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 27/34] fix: percent-encoded binary messages of GET requests
 were corrupted

parse_qs replaces what is not UTF-8 by default, so the service function ran with a
message that the caller had not sent.
---
 src/connectrpc/_server_async.py | 7 +++++--
 src/connectrpc/_server_sync.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 56cb429..bcceace 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -210,7 +210,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
             if http_method == "GET":
                 query_string = scope.get("query_string", b"").decode("utf-8")
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                # The message may be percent-encoded binary data
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, errors="surrogateescape"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -318,7 +321,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("utf-8", "surrogateescape")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4aa2790..384e751 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -361,7 +361,10 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # The message may be percent-encoded binary data
+            params = parse_qs(
+                query_string, keep_blank_values=True, errors="surrogateescape"
+            )
 
             if "message" not in params:
                 raise ConnectError(
@@ -379,7 +382,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("utf-8", "surrogateescape")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From 336ff85e65bef85653cd58c032dabd743f87a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 28/34] fix: malformed base64 in the message of a GET request
 was accepted

Characters outside of the alphabet were dropped, so the service function ran with
whatever remained instead of the call failing with invalid_argument.
---
 src/connectrpc/_server_async.py | 4 +++-
 src/connectrpc/_server_sync.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index bcceace..8c1ed60 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -315,7 +315,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         if is_base64:
             try:
-                message = base64.urlsafe_b64decode(message + "===")
+                message = base64.b64decode(
+                    message + "=" * (-len(message) % 4), altchars=b"-_", validate=True
+                )
             except Exception as e:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 384e751..8266df9 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -376,7 +376,9 @@ class ConnectWSGIApplication(ABC):
 
             if "base64" in params and params["base64"][0] == "1":
                 try:
-                    message = base64.urlsafe_b64decode(message + "===")
+                    message = base64.b64decode(
+                        message + "=" * (-len(message) % 4), altchars=b"-_", validate=True
+                    )
                 except Exception as e:
                     raise ConnectError(
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
-- 
2.43.0


From cba0ece888b41070fb5def1eb6e8e1e7f947b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 29/34] fix: the context of a gRPC call told to use GET named
 GET although POST is used

---
 src/connectrpc/_protocol_grpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 13fa180..8b1ba69 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -240,7 +240,8 @@ class GRPCClientProtocol:
 
         return RequestContext(
             method=method,
-            http_method=http_method,
+            # gRPC has no GET requests
+            http_method="POST",
             request_headers=headers,
             timeout_ms=timeout_ms,
             server_address=server_address,
-- 
2.43.0


From 09d17a4c37d28fff331430b27a87f24050721363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 30/34] fix: a request header that is not valid UTF-8 failed
 the call with an internal error on ASGI

---
 src/connectrpc/_server_async.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 8c1ed60..1283beb 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -653,7 +653,12 @@ async def _yield_single_response(response: _RES) -> AsyncIterator[_RES]:
 def _process_headers(iterable: Iterable[tuple[bytes, bytes]]) -> Headers:
     result = Headers()
     for key, value in iterable:
-        result.add(key.decode(), value.decode())
+        try:
+            text = value.decode()
+        except UnicodeDecodeError:
+            # HTTP allows any byte in a value, it must not fail the request.
+            text = value.decode("latin-1")
+        result.add(key.decode(), text)
     return result
 
 
-- 
2.43.0


From 71ac9af248b74f9bfa4277cd93158bf8b60107db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 31/34] fix: a zstd message that breaks off was taken for a
 complete, shorter one

---
 src/connectrpc/compression/zstd.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..00065bc 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -26,6 +26,15 @@ class ZstdCompression(Compression):
 
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
-        # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        # stream API, one frame at a time as only the end of a frame
+        # tells whether it has been received completely.
+        decompressor = zstandard.ZstdDecompressor()
+        decompressed = bytearray()
+        while data:
+            frame = decompressor.decompressobj()
+            decompressed += frame.decompress(data)
+            if not frame.eof:
+                msg = "compressed data ended before the end of its frame"
+                raise zstandard.ZstdError(msg)
+            data = frame.unused_data
+        return bytes(decompressed)
-- 
2.43.0


From fc4e0a1fd892670415a07beea454cdb180ebf6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:36 +0000
Subject: [PATCH 32/34] fix: a second call in a ResponseMetadata context showed
 trailers of the first

---
 src/connectrpc/_response_metadata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 56fc099..5c3d589 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -31,10 +31,9 @@ def handle_response_headers(headers: HTTPHeaders) -> None:
             normalized_key = key
             obj = response_headers
         obj.add(normalized_key, value)
-    if response_headers:
-        response._headers = response_headers  # noqa: SLF001
-    if response_trailers:
-        response._trailers = response_trailers  # noqa: SLF001
+    # Nothing of an earlier invocation in the same context may remain.
+    response._headers = response_headers  # noqa: SLF001
+    response._trailers = response_trailers  # noqa: SLF001
 
 
 def handle_response_trailers(
-- 
2.43.0


From 98fdb47d51de2352294c7f5b6b2743bfd5beddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:47 +0000
Subject: [PATCH 33/34] fix: an empty request body was decompressed by the WSGI
 server

The Connect protocol has servers leave zero-length content alone; with
Brotli a request with an empty message was refused, while the ASGI server
took it.
---
 src/connectrpc/_server_sync.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 8266df9..599aa60 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -323,13 +323,14 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                try:
-                    req_body = compression.decompress(req_body)
-                except Exception as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT,
-                        f"Failed to decompress request body: {e!s}",
-                    ) from e
+                if req_body:  # Don't decompress empty body
+                    try:
+                        req_body = compression.decompress(req_body)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress request body: {e!s}",
+                        ) from e
 
             if (
                 self._read_max_bytes is not None
@@ -395,12 +396,14 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                try:
-                    message = compression.decompress(message)
-                except Exception as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT, f"Failed to decompress message: {e!s}"
-                    ) from e
+                if message:  # Don't decompress empty messages
+                    try:
+                        message = compression.decompress(message)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT,
+                            f"Failed to decompress message: {e!s}",
+                        ) from e
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
-- 
2.43.0


From 6af7486dba35b802f9bc986ca6d492556adccc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:05 +0000
Subject: [PATCH 34/34] fix: a GET request in an unknown encoding was answered
 501 by the WSGI server

The message of a GET request in an encoding the server does not have is
refused with 415 by the ASGI server, as a POST is by both.
---
 src/connectrpc/_server_sync.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 599aa60..d97e70f 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -367,6 +367,14 @@ class ConnectWSGIApplication(ABC):
                 query_string, keep_blank_values=True, errors="surrogateescape"
             )
 
+            codec_name = params.get("encoding", ("",))[0]
+            codec = self._codecs.get(codec_name)
+            if not codec:
+                raise HTTPException(
+                    HTTPStatus.UNSUPPORTED_MEDIA_TYPE,
+                    [("Accept-Post", "application/json, application/proto")],
+                )
+
             if "message" not in params:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT,
@@ -411,12 +419,6 @@ class ConnectWSGIApplication(ABC):
                     f"message is larger than configured max {self._read_max_bytes}",
                 )
 
-            codec_name = params.get("encoding", ("",))[0]
-            codec = self._codecs.get(codec_name)
-            if not codec:
-                raise ConnectError(
-                    Code.UNIMPLEMENTED, f"invalid message encoding: '{codec_name}'"
-                )
             # Handle GET request with proto decoder
             try:
                 # TODO - Use content type from queryparam
@@ -428,7 +430,7 @@ class ConnectWSGIApplication(ABC):
                 ) from e
 
         except Exception as e:
-            if not isinstance(e, ConnectError):
+            if not isinstance(e, (ConnectError, HTTPException)):
                 raise ConnectError(Code.INTERNAL, str(e)) from e
             raise
 
-- 
2.43.0

