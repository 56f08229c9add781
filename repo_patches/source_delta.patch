From 95ad11b402fbf05bc12f72f2abc9be6d082f503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 01/25] fix: answer malformed heads with a 400 instead of
 panicking

A bad header line, request line, version or climbing path panicked the
connection task, so the client got no response at all.
---
 src/request.rs |  7 ++-----
 src/server.rs  | 10 ++++++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..0a11317 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,12 +87,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
-        let (first, ver) = version.split_at(5);
+        let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
             "1.0" => HttpVersion::Http10,
diff --git a/src/server.rs b/src/server.rs
index 7fb9528..9eba7ac 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,14 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let headers = Headers::parse(raw_headers);
+            let request_line = RequestLine::parse(raw_request_line);
+            let (headers, request_line) = match (headers, request_line) {
+                (Some(headers), Some(request_line)) => (headers, request_line),
+                _ => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From 848b99b134f9c220da894928e11dc12c374907c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 02/25] fix: read exactly the declared body

Bytes after the declared length became part of the body, a truncated body
panicked instead of giving a 400, and an absurd Content-Length aborted the
whole process in the up-front allocation.
---
 src/request.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 0a11317..dbc2735 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -296,22 +296,25 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
-        let body_len = headers
+        let body_len: usize = headers
             .get("content-length")
             .and_then(|s| s.parse().ok())
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
-                body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                *body_vec = body_remainder.to_vec();
+                // read what is sent instead of trusting the declared length
+                // for an allocation
+                let missing = (body_len - body_remainder.len()) as u64;
+                reader.take(missing).read_to_end(body_vec).await.ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From 15941278af66ef9113d6858d707ed8c0302703ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 03/25] fix: end the last Set-Cookie line

The last cookie had no CRLF of its own, so a response with cookies had no
blank line between head and body.
---
 src/responder.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..868f445 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -501,14 +501,9 @@ impl<'a> Response<'a> {
             .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
         // push cookies
         #[cfg(feature = "cookies")]
-        headers_str.push_str(
-            &self
-                .cookies
-                .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
-        );
+        self.cookies.iter().for_each(|cookie| {
+            headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF))
+        });
         headers_str
     }
 }
-- 
2.43.0


From 2a678a99a0b0d29de8ca90c670692abf39625dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 04/25] fix: report the bytes read by AsyncReader

The filled part of the buffer was never advanced, so files were sent with
an empty body.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 902a04259115706342d017d09fd5d9a38adfc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 05/25] fix: set the default headers in send_file

Files went out without Content-Length and Date, or with the stale length
of an earlier send.
---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index 868f445..38740f5 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -227,6 +227,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From a2d546e6507df04aa1507f47249310cf71c55a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 06/25] fix: ignore malformed request cookies

A Cookie header with an item without name or = panicked the connection
task. Items are separated by a semicolon, with or without a blank.
---
 src/cookie.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..b3b1140 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -69,11 +69,11 @@ impl<'a> Cookie<'a> {
     // cookies in the header
     pub(crate) fn parse(header: &'a str) -> Vec<Cookie<'a>> {
         let mut cookies_vec = Vec::new();
-        let header_cookies = header.split("; ");
-        for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+        for tok in header.split(';') {
+            // ignore malformed cookies
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From 38ae6cc1c8bdbc665547ee91e79c012fab05a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 07/25] fix: use the three letter month for September in dates

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From b924bf07435338b27dbd0a27cff27b8aa48eea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 08/25] fix: keep serving after a failed accept

One failed accept, for example for lack of file descriptors, ended the
server.
---
 src/server_builder.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..3b32761 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -36,12 +36,18 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
-                let server = Arc::clone(&server);
-                task!({
-                    exec(stream, server).await;
-                })
-            })?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    // a failed accept must not stop the server
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
+            let server = Arc::clone(&server);
+            task!({
+                exec(stream, server).await;
+            });
         }
         Ok(())
     }
@@ -56,7 +62,14 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    // a failed accept must not stop the server
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -88,7 +101,14 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(stream) => stream,
+                Err(_) => {
+                    // a failed accept must not stop the server
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0


From 426af4f60aaedc4b4fbc379bfdf2f6a4768e6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 09/25] fix: set the address reuse option before binding

After the bind it has no effect: a restarted server could not bind its
port while old connections were in TIME_WAIT.
---
 src/server_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 3b32761..4adadbb 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -22,9 +22,9 @@ impl ServerBuilder {
         let socket = Socket::new(Domain::ipv4(), stream, None)?;
         socket.set_nonblocking(true)?;
         let bind_add = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), port);
+        socket.set_reuse_address(true)?;
         socket.bind(&SockAddr::from(bind_add))?;
         socket.listen(2048)?;
-        socket.set_reuse_address(true)?;
         Ok(ServerBuilder {
             socket: TcpListener::from_std(socket.into_tcp_listener())?,
         })
-- 
2.43.0


From 3f913a2d75cc3c894442d29bc284847eb7da73e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 10/25] fix: run the listen callback once the port is bound

It ran before the bind, also when the bind then failed.
---
 src/server.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 9eba7ac..b942be6 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -152,9 +152,9 @@ impl Octane {
                 }
             });
         }
+        let server_builder = ServerBuilder::new(port)?;
         exec();
-        let server_builder = ServerBuilder::new(port);
-        server_builder?
+        server_builder
             .listen(
                 move |stream, server| async move { Octane::serve(stream, server).await },
                 server,
-- 
2.43.0


From aaed6b8420666472ca8e96b7a297f88ed5ae0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 11/25] fix: accept requests without header lines

HTTP/1.0 requires no header, but such a request was answered with a 400.
---
 octane_http/src/http1x/mod.rs | 11 ++++++-----
 src/request.rs                |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..67f0f10 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -73,9 +73,10 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
-    let (line, rest) = data.split_at(n);
-    let request_line = line;
-    let headers = (&rest[2..]).to_owned();
-    Some((request_line, headers))
+    let (request_line, headers) = match data.find("\r\n") {
+        Some(n) => (&data[..n], &data[n + 2..]),
+        // no header lines at all
+        None => (data, ""),
+    };
+    Some((request_line, headers.to_owned()))
 }
diff --git a/src/request.rs b/src/request.rs
index dbc2735..d13393f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -205,7 +205,7 @@ impl Headers {
         let mut headers: HashMap<String, String> = HashMap::new();
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
-        for tok in toks {
+        for tok in toks.filter(|_| !request.is_empty()) {
             let parsed = Header::parse(match str::from_utf8(tok) {
                 Ok(s) => s.to_owned(),
                 Err(_) => return None,
-- 
2.43.0


From 96df1d080921cf0d68316ed9c212cd4847adbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 12/25] fix: count 0x1f as a control character

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
-- 
2.43.0


From 94f61c66dab613eb13d8b18761e25b431cd5e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 13/25] fix: trim trailing blanks of header values

They are not part of the value; a Content-Length with one was taken as 0.
---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index d13393f..5f3780e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -149,7 +149,7 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
         if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
             return None;
         }
-- 
2.43.0


From 672e6668abdf87b3a96487fc002ed5cd7b52aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 14/25] fix: print HTTP version 2.0 as 2.0

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From 23411abd9e8f14b3c262fae3df56fa1ae1b98ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 15/25] fix: correct the mime type of bin files

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From 99a89d35890d618cc69aec26a7d38a8d77a460a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 16/25] fix: separate the query string from the path

The query was part of the last path segment: requests with a query matched
no literal route, variables included it and get_query parsed the path.
---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 5f3780e..eb44ccc 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,8 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    /// The query string of the request, as sent and without the `?`
+    pub query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         let (first, ver) = (version.get(..5)?, version.get(5..)?);
         let enum_ver = match ver {
@@ -116,6 +120,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -336,14 +341,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 3fbdb5c8e9237fcd613fc6f754f880463aa02967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 17/25] fix: decode percent escapes as UTF-8

Each escaped byte became a character of its own.
---
 src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..8d2d947 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,39 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
+    let mut ret: Vec<u8> = Vec::new();
     let mut chars = string.chars();
     let mut peekable = DoublePeek::new(&mut chars);
     while let Some(val) = peekable.next() {
         if val != '%' {
-            ret.push(val);
+            ret.extend_from_slice(val.encode_utf8(&mut [0; 4]).as_bytes());
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let (h1, h2) = (from_hex(c1), from_hex(c2));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From d3aaa0f905a34b1191c3963748ee70e2cf298c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 18/25] fix: decode the names of arrays and objects in extended
 queries

---
 src/query.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index 8d2d947..737188f 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -213,15 +213,8 @@ pub fn parse_extended_query(query: &str) -> HashMap<String, QueryValue> {
                 if bytes[bytelen - 1] == b']' {
                     if let Some(i) = bytes.iter().rev().position(|&v| v == b'[') {
                         let ind = bytelen - i - 1;
-                        let outside = match String::from_utf8((&bytes[0..ind]).to_vec()) {
-                            Ok(v) => v,
-                            Err(_) => continue,
-                        };
-                        let inside =
-                            match String::from_utf8((&bytes[ind + 1..bytelen - 1]).to_vec()) {
-                                Ok(v) => v,
-                                Err(_) => continue,
-                            };
+                        let outside = unescape_hex(&name[..ind]);
+                        let inside = unescape_hex(&name[ind + 1..bytelen - 1]);
                         if inside.is_empty() {
                             if ret.get(&outside).is_none() {
                                 ret.insert(outside.clone(), QueryValue::Arr(Vec::new()));
-- 
2.43.0


From a3b5dbc0edce678dca9e66e569a8124bf707db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:15 +0000
Subject: [PATCH 19/25] fix: keep line breaks in header text from adding header
 lines

---
 src/responder.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 38740f5..e2e8dff 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -499,16 +499,30 @@ impl<'a> Response<'a> {
         // push normal headers
         self.headers
             .iter()
-            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
+            .for_each(|data| {
+                headers_str.push_str(&format!(
+                    "{}:{}{}{}",
+                    single_line(data.0),
+                    SP,
+                    single_line(data.1),
+                    CRLF
+                ))
+            });
         // push cookies
         #[cfg(feature = "cookies")]
         self.cookies.iter().for_each(|cookie| {
-            headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF))
+            headers_str.push_str(&format!("{}{}", single_line(&cookie.serialise()), CRLF))
         });
         headers_str
     }
 }
 
+// Line breaks in header text would end the header line early and let the text
+// add lines of its own
+fn single_line(text: &str) -> String {
+    text.replace(|c| c == CR || c == LF || c == '\0', " ")
+}
+
 #[cfg(feature = "cookies")]
 impl Default for Response<'_> {
     fn default() -> Self {
-- 
2.43.0


From e146f736cbf9590f387a80316727bbbfc1d32e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:26 +0000
Subject: [PATCH 20/25] fix: reject request lines with an empty method or
 target

"GET  HTTP/1.1" was served as a request for the root.
---
 src/request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index eb44ccc..5ad6893 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -89,7 +89,11 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let mut target = toks.next()?.splitn(2, '?');
+        let target = toks.next()?;
+        if cfg!(feature = "faithful") && (method.is_empty() || target.is_empty()) {
+            return None;
+        }
+        let mut target = target.splitn(2, '?');
         let path = PathBuf::parse(target.next()?).ok()?;
         let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
-- 
2.43.0


From a0867bd5084114fc07ce2e6bfb7ce566c8d52eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:29 +0000
Subject: [PATCH 21/25] fix: do not open anything but regular files in
 send_file

---
 src/file_handler.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index 23435c8..783c17d 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -31,6 +31,10 @@ impl FileHandlerError {
 impl FileHandler {
     /// Takes a Pathbuf and returns a FileHandler struct
     pub fn handle_file(path: &PathBuf) -> Result<Self, Box<dyn Error>> {
+        // opening something like a pipe would wait for its other end
+        if path.metadata().map(|meta| !meta.is_file()).unwrap_or(false) {
+            return Err(Box::new(FileHandlerError::new(1)));
+        }
         if let Ok(file) = File::open(path) {
             let meta = file.metadata()?;
             if meta.is_file() {
-- 
2.43.0


From 482b29e69f94ac330769fb25830587dcb36e51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 22/25] fix: send no more of a file than its announced length

---
 src/responder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index e2e8dff..ba4d0ba 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -10,7 +10,7 @@ use std::fmt;
 use std::io::Cursor;
 use std::marker::PhantomData;
 use std::path::PathBuf;
-use tokio::io::AsyncRead;
+use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub(crate) type BoxReader = Box<dyn AsyncRead + Unpin + Send>;
 
@@ -226,7 +226,8 @@ impl<'a> Response<'a> {
         );
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
-        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        // the file may grow until it is sent, the announced length stays
+        self.body = ResBody::Sized(len, Box::new(file.file.take(len as u64)) as BoxReader);
         self.default_headers();
         Ok(Some(()))
     }
-- 
2.43.0


From fe0c4ce3962505d360f29d2e50c3467e3ac8f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:37 +0000
Subject: [PATCH 23/25] fix: path! starts at the crate's own directory, as
 documented, also inside a workspace

---
 octane_macros/src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/octane_macros/src/lib.rs b/octane_macros/src/lib.rs
index 9746a14..96523a1 100644
--- a/octane_macros/src/lib.rs
+++ b/octane_macros/src/lib.rs
@@ -206,11 +206,7 @@ pub fn path(input: TokenStream) -> TokenStream {
         _ => panic!(),
     };
     let str_value: String = value.parse().unwrap();
-    let mut path = std::env::current_dir()
-        .unwrap()
-        .into_os_string()
-        .into_string()
-        .unwrap();
+    let mut path = std::env::var("CARGO_MANIFEST_DIR").unwrap();
     path.push_str(&str_value.replace("\"", ""));
     if !Path::new(&path).exists() {
         panic!("{} -> {}", "This directory or file doesn't exists", path);
-- 
2.43.0


From 3ddf8dded4d12e1c36c0f2eaef525be4b20d5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 24/25] fix: search the end of the head only in what was just
 read

The reader looked through the whole head again after every 512 bytes, so
a few clients sending some megabytes of head each kept all threads busy
for minutes and others got no answer.
---
 octane_http/src/http1x/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 67f0f10..9f9cbdb 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -28,8 +28,11 @@ where
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
+            // the blank line cannot end before what is new, looking at all of the
+            // head after every read would be quadratic
+            let seen = data.len().saturating_sub(3);
             data.extend_from_slice(&buf[..read]);
-            if let Some(i) = find_in_slice(&data[..], b"\r\n\r\n") {
+            if let Some(i) = find_in_slice(&data[seen..], b"\r\n\r\n").map(|i| seen + i) {
                 instance.raw_request.body_remainder = &data[i + 4..];
                 if let Ok(Some((rl, heads))) =
                     std::str::from_utf8(&data[..i]).map(parse_without_body)
-- 
2.43.0


From 076850c2aae89a52a62b4e76960967b4e60dc958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:19 +0000
Subject: [PATCH 25/25] fix: join repeated header lines without copying the
 whole value each time

Building the joined value anew for every repeated line made the parser
quadratic: a few requests with some hundred thousand lines of one name
kept all threads busy and others got no answer.
---
 src/request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 5ad6893..b3cbe97 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -221,7 +221,10 @@ impl Headers {
             })?;
             headers
                 .entry(parsed.name.to_ascii_lowercase())
-                .and_modify(|v| *v = format!("{}, {}", v, parsed.value))
+                .and_modify(|v| {
+                    v.push_str(", ");
+                    v.push_str(&parsed.value);
+                })
                 .or_insert_with(|| parsed.value.to_owned());
             #[cfg(feature = "raw_headers")]
             raw_headers.push(parsed);
-- 
2.43.0

