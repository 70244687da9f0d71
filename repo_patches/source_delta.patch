From c33ab2a303a5bbbe096651b45d67368d3ab5eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:27 +0000
Subject: [PATCH 01/75] fix: split strings with strtok_r so that threads do not
 share state, and stay inside the list

---
 string_utils.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index 1c220d7..e8ed72a 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -173,19 +173,20 @@ str_list_t *split(char *str, char *delim)
   char *str_copy = strdup(str);
   int n_tokens = 0;
   str_list_t *result = malloc(sizeof(result) + (MAX_SPLIT_STR + 1) * MAX_SPLIT_STR_LEN);
-  char *token = strtok(str_copy, delim);
+  char *saveptr = NULL;
+  char *token = strtok_r(str_copy, delim, &saveptr);
 
-  while (token != NULL)
+  while (token != NULL && n_tokens < MAX_SPLIT_STR)
   {
     result->strings[n_tokens] = malloc(MAX_SPLIT_STR_LEN);
     strncpy(result->strings[n_tokens], token, MAX_SPLIT_STR_LEN - 1);
+    result->strings[n_tokens][MAX_SPLIT_STR_LEN - 1] = 0;
 
-    token = strtok(NULL, delim);
+    token = strtok_r(NULL, delim, &saveptr);
     n_tokens++;
   }
 
   result->n_str = n_tokens;
-  free(token);
   free(str_copy);
   return result;
 }
-- 
2.43.0


From 523f33007a2d02af0fce4770e92edeeb6752c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 02/75] fix: take everything after the first '?' as the query
 and accept URLs without a path

---
 http_utils.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index f848dd7..8aac561 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -452,20 +452,27 @@ path_and_query_t *get_path_and_query_string(char *url)
 
 	path_and_query_t *result = malloc(sizeof(path_and_query_t));
 
-	str_list_t *list = split(url, "?");
+	// The query string starts at the first '?' and may contain more of them
+	char *query = strchr(url, '?');
 
-	result->path = strdup(list->strings[0]);
+	if (query)
+	{
+		result->path = strndup(url, query - url);
+	}
+	else
+	{
+		result->path = strdup(url);
+	}
 
-	if (list->n_str > 1)
+	if (query && query[1])
 	{
-		result->query = strdup(list->strings[1]);
+		result->query = strdup(query + 1);
 	}
 	else
 	{
 		result->query = "";
 	}
 
-	free_str_list_t(list);
 	return result;
 }
 
-- 
2.43.0


From cbe69606d70cb650a9127a08ac8471c1b6a9d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 03/75] fix: terminate header names, header values and sessions
 that reach the size limit

---
 string_utils.c | 2 ++
 ws.c           | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index e8ed72a..c917280 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -199,12 +199,14 @@ str_list_t *split_once(char *str, char *delim)
   char *first = rtrim(str, ':');
   trim(first);
   strncpy(result->strings[0], first, MAX_SPLIT_STR_LEN - 1);
+  result->strings[0][MAX_SPLIT_STR_LEN - 1] = 0;
   char *second = ltrim(str, ':');
   if (strlen(second) < strlen(str))
   {
     trim(second);
     result->strings[1] = malloc(MAX_SPLIT_STR_LEN);
     strncpy(result->strings[1], second, MAX_SPLIT_STR_LEN - 1);
+    result->strings[1][MAX_SPLIT_STR_LEN - 1] = 0;
     result->n_str = 2;
   }
   else
diff --git a/ws.c b/ws.c
index a142e34..4a57cac 100644
--- a/ws.c
+++ b/ws.c
@@ -566,9 +566,9 @@ void accept_request(int socket)
 			if (nameval->n_str > 1)
 			{
 				log_trace("Found header: %s, %s", nameval->strings[0], nameval->strings[1]);
-				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME);
+				strncpy(req->headers[headers_idx].name, nameval->strings[0], HTTP_MAX_HEADER_NAME - 1);
 				trim(nameval->strings[1]);
-				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE);
+				strncpy(req->headers[headers_idx].value, nameval->strings[1], HTTP_MAX_HEADER_VALUE - 1);
 				headers_idx++;
 			}
 			free_str_list_t(nameval);
@@ -606,7 +606,7 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION);
+			strncpy(req->session, buf + 10, MAX_SESSION - 1);
 			trim(req->session);
 		}
 
-- 
2.43.0


From dc0824d58380b87770bd2361d54b5a79bf4cc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 04/75] fix: md5sum wrote 129 bytes for a digest of 33

---
 string_utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/string_utils.c b/string_utils.c
index c917280..1174a87 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -125,8 +125,7 @@ void md5sum(char *out, char *data, int len)
   for (i = 0; i < EVP_MD_size(md); ++i)
     snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
   
-  memcpy(out, md5, EVP_MAX_MD_SIZE * 2);
-  out[EVP_MAX_MD_SIZE * 2] = 0;
+  strcpy(out, md5);
   free(md5);
 }
 
-- 
2.43.0


From 1ddc969c66c50e67404e9b7fb989636031a00398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 05/75] fix: size the router's buffers for the method, path and
 parameter they receive

---
 router.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/router.c b/router.c
index 15d5bed..6b8060d 100644
--- a/router.c
+++ b/router.c
@@ -81,11 +81,9 @@ void router_resolve_route(const char *template, route_matcher *matcher)
 char *router_extract_param(const char *path, route_matcher *matcher)
 {
   log_debug("router_extract_param(path=%s,prefix=%s,param=%s)", path, matcher->prefix, matcher->param);
-  char *tmp = strdup(path);
   int prefix_len = strlen(matcher->prefix);
-  char *qs = calloc(1, strlen(tmp) + prefix_len + 10);
-  sprintf(qs, "%s=%s", matcher->param, tmp + prefix_len);
-  free(tmp);
+  char *qs = calloc(1, strlen(matcher->param) + strlen(path + prefix_len) + 2);
+  sprintf(qs, "%s=%s", matcher->param, path + prefix_len);
   return qs;
 }
 
@@ -117,9 +115,8 @@ void router_handle_request(api_request *request)
   request_handler handler = NULL;
   request_filter filter = NULL;
 
-  char matcher[255];
-
   // Match method:path
+  char matcher[strlen(request->method) + strlen(request->path) + 2];
   sprintf(matcher, "%s:%s", request->method, request->path);
 
   for (int i = 0; i < routing_table.n_routes; i++)
-- 
2.43.0


From cfd30a3bab1715d713ff87634511e82668c59154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:16 +0000
Subject: [PATCH 06/75] fix: do not write the route parameter past the end of
 the request body

---
 router.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router.c b/router.c
index 6b8060d..0d0ede2 100644
--- a/router.c
+++ b/router.c
@@ -138,10 +138,10 @@ void router_handle_request(api_request *request)
       }
       else
       {
-        char *param;
-        asprintf(&param, "&%s", qs);
-        strcat(request->form, param);
-        free(param);
+        // The body is not large enough for the parameter: build a new string. The caller still owns the body.
+        char *form = malloc(strlen(request->form) + strlen(qs) + 2);
+        sprintf(form, "%s&%s", request->form, qs);
+        request->form = form;
       }
       free(qs);
       handler = routing_table.handlers[i];
-- 
2.43.0


From 937486cff91dd6b137553431c4d74c546c338a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:17 +0000
Subject: [PATCH 07/75] fix: match a parametric route only at the start of
 method and path

---
 router.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.c b/router.c
index 0d0ede2..fe9ab13 100644
--- a/router.c
+++ b/router.c
@@ -129,7 +129,7 @@ void router_handle_request(api_request *request)
       filter = routing_table.filters[i];
       break;
     }
-    else if (type == MATCHER_TYPE_PARAM && strstr(matcher, template) != NULL && strcmp(template, matcher) != 0)
+    else if (type == MATCHER_TYPE_PARAM && strncmp(matcher, template, strlen(template)) == 0 && strcmp(template, matcher) != 0)
     {
       char *qs = router_extract_param(matcher, routing_table.matchers[i]);
       if (strlen(request->form) == 0)
-- 
2.43.0


From c62d1073fde71cc28a16068791d7d849e4714477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:17 +0000
Subject: [PATCH 08/75] fix: do not write routes past the end of the routing
 table

---
 router.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router.c b/router.c
index fe9ab13..2b24b65 100644
--- a/router.c
+++ b/router.c
@@ -91,6 +91,11 @@ void router_add_route(char *template, request_handler handler, request_filter fi
 {
 
   log_debug("ADD ROUTE - %s", template);
+  if (routing_table.n_routes >= MAX_ROUTES)
+  {
+    log_error("Route ignored, MAX_ROUTES reached: %s", template);
+    return;
+  }
   route_matcher *matcher = calloc(1, sizeof(route_matcher));
   if (strchr(template, '{') != NULL)
   {
-- 
2.43.0


From d86169d4978c553b15c7bc2397518a02b7e32be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:52 +0000
Subject: [PATCH 09/75] fix: send the status line and server header of a static
 file once

---
 http_utils.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 8aac561..74123ca 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -89,8 +89,6 @@ int return_headers(api_request *req, char *filename)
 	int len = 0;
 	char buf[1024];
 	sprintf(buf, "%s%s", HTTP_OK_START, WAYUU_HTTP_SERVER_STRING);
-	len += strlen(buf);
-	http_print(req, buf, len);
 	char *content_type = get_content_type(filename);
 	strcat(buf, content_type);
 	free(content_type);
-- 
2.43.0


From 87a332dce5f0d0c545ccbf5c11d165f19870f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 10/75] fix: send the CSV content type only for CSV

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 74123ca..020fb8a 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -129,7 +129,7 @@ char *get_content_type(char *filename)
 		sprintf(buf, CONTENT_TYPE_ICON);
 	else if (strcmp(ext, ".txt") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(ext, ".csv"))
+	else if (strcmp(ext, ".csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(ext, ".yaml") == 0)
 	{
@@ -157,7 +157,7 @@ char *get_content_type_for_mime(char *mime)
 		sprintf(buf, CONTENT_TYPE_CSS);
 	else if (strcmp(mime, "text/plain") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_PLAIN);
-	else if (strcmp(mime, "text/csv"))
+	else if (strcmp(mime, "text/csv") == 0)
 		sprintf(buf, CONTENT_TYPE_TEXT_CSV);
 	else if (strcmp(mime, "text/yaml") == 0)
 	{
-- 
2.43.0


From a7c2d6b19645c6130f41eaa6b78f298d5b734a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 11/75] fix: release the content type of
 return_headers_with_mime

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 020fb8a..c917661 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -310,8 +310,10 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 		return 0;
 	}
 	char buf[1024];
+	char *content_type = get_content_type_for_mime(mime);
 
-	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, get_content_type_for_mime(mime));
+	sprintf(buf, "%s%s%s%s", HTTP_ERROR_STARTS[error_index], WAYUU_HTTP_SERVER_STRING, HTTP_ACCESS_CONTROL, content_type);
+	free(content_type);
 	http_print(req, buf, strlen(buf));
 	return strlen(buf);
 }
-- 
2.43.0


From d6776ca1f4d3523bf6980391ac576c9beb05e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 12/75] fix: stream binary content unchanged

---
 http_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index c917661..08226a1 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -219,11 +219,11 @@ int send_stream(api_request *req, FILE *fp)
 {
 	char buf[1024];
 	int len = 0;
-	while (fgets(buf, sizeof(buf) - 1, fp) != NULL)
+	int s;
+	while ((s = fread(buf, 1, sizeof(buf), fp)) > 0)
 	{
-		int s = strlen(buf);
 		len += s;
-		http_print(req, buf,s);
+		http_print(req, buf, s);
 	}
 	sprintf(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
-- 
2.43.0


From fc814adc0a7c19193baa95a976ae76366567595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 13/75] fix: send the whole response when the socket takes only
 a part of it

---
 http_utils.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 08226a1..d4de990 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -20,10 +20,12 @@
 #define _GNU_SOURCE 1
 #endif
 #include <arpa/inet.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 
 #include "log.h"
@@ -248,13 +250,38 @@ void send_empty_line(api_request *req)
  */
 void http_print(api_request *req, void *data, int length)
 {
-	if (WAYUU_SSL_ON)
-	{
-		SSL_write(req->ssl, data, length);
-	}
-	else
+	int sent = 0;
+	while (sent < length)
 	{
-		send(req->socket, data, length, 0);
+		int n;
+		bool retry = false;
+		if (WAYUU_SSL_ON)
+		{
+			ERR_clear_error();
+			errno = 0;
+			n = SSL_write(req->ssl, (char *)data + sent, length - sent);
+			if (n < 0 && errno == EINTR)
+			{
+				int error = SSL_get_error(req->ssl, n);
+				retry = error == SSL_ERROR_WANT_WRITE || error == SSL_ERROR_WANT_READ;
+			}
+		}
+		else
+		{
+			n = send(req->socket, (char *)data + sent, length - sent, 0);
+			retry = n < 0 && errno == EINTR;
+		}
+		if (n > 0)
+		{
+			sent += n;
+		}
+		else if (!retry)
+		{
+			// What follows would not be in its place: do not send anything else to this client.
+			if (n < 0)
+				shutdown(req->socket, SHUT_RDWR);
+			return;
+		}
 	}
 }
 
-- 
2.43.0


From 21ffb1e7d1125d23cc85b66206610b590065967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 14/75] fix: answer 500 when a static file cannot be read
 completely

---
 http_utils.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index d4de990..4b4e249 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -171,31 +171,31 @@ char *get_content_type_for_mime(char *mime)
 	return buf;
 }
 
-int return_file(api_request *req, char *path)
+/**
+ * load_file: Reads a whole file and stores its length. It returns NULL if the file cannot be read completely.
+ */
+char *load_file(char *path, long *length)
 {
 
-	char *src;
-	long length = 0;
+	char *src = NULL;
 
 	FILE *file = fopen(path, "rb");
 	if (file)
 	{
 
-		fseek(file, 0, SEEK_END);
-		length = ftell(file);
-		fseek(file, 0, SEEK_SET);
-		src = calloc(length + 5, 1);
+		*length = fseek(file, 0, SEEK_END) == 0 ? ftell(file) : -1;
+		if (*length >= 0 && fseek(file, 0, SEEK_SET) == 0)
+			src = calloc(*length + 5, 1);
 
-		if (src)
+		if (src && fread(src, 1, *length, file) != *length)
 		{
-			fread(src, 1, length, file);
+			free(src);
+			src = NULL;
 		}
 
 		fclose(file);
-		http_print(req, src, length);
-		free(src);
 	}
-	return length;
+	return src;
 }
 
 
@@ -207,8 +207,19 @@ int direct_file(api_request *req, char *filename)
 		log_warn("File not found: %s", filename);
 		return -1;
 	}
+	// Nothing is sent before the whole file is there
+	long file_length = 0;
+	char *src = load_file(filename, &file_length);
+	if (!src)
+	{
+		log_error("Cannot read file: %s", filename);
+		internal_server_error(req);
+		return 0;
+	}
 	int length = return_headers(req, filename);
-	length += return_file(req, filename);
+	http_print(req, src, file_length);
+	free(src);
+	length += file_length;
 	req->response_length = length;
 	log_access(req, 200);
 	return 0;
-- 
2.43.0


From 775d2d1da27fbfa6656dca9d69214d7307fe50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 15/75] fix: answer 404 when neither the file nor the index
 page exists

---
 ws.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 4a57cac..145dd23 100644
--- a/ws.c
+++ b/ws.c
@@ -345,7 +345,9 @@ void handle_static_routes(api_request *req)
 	if (direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
-		direct_file(req, path);
+		// Without an index there is nothing to return
+		if (direct_file(req, path) < 0)
+			not_found(req);
 	}
 }
 
-- 
2.43.0


From 12316503a604c735df98596918a6eee28dd775b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:34 +0000
Subject: [PATCH 16/75] fix: look for the trailing slash in the requested path

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 145dd23..e1e90c7 100644
--- a/ws.c
+++ b/ws.c
@@ -314,7 +314,7 @@ void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
 	char path[1024];
-	int pathlen = strlen(path);
+	int pathlen = strlen(req->path);
 	/**
 	 *  Handle default routes. URL Rewritting.
 	 */
@@ -330,7 +330,7 @@ void handle_static_routes(api_request *req)
 		req->path = strdup(FAVICON_URL);
 	}
 	// If static route ends with '/', then redirect to the index.html in the folder.
-	else if (path[pathlen-1] == '/')
+	else if (pathlen > 0 && req->path[pathlen - 1] == '/')
 	{
 
 		sprintf(path, "%s%s", req->path, "index.html");
-- 
2.43.0


From 8ab185ae759f7aa939e5dead3c79244d25ca2e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 17/75] fix: do not serve static files outside the static root

---
 ws.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index e1e90c7..5aff4e4 100644
--- a/ws.c
+++ b/ws.c
@@ -310,6 +310,20 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	router_handle_request(req);
 }
 
+/* Returns true if any segment of the path is ".." */
+bool has_parent_segment(char *path)
+{
+	while (path)
+	{
+		if (*path == '/')
+			path++;
+		if (!strncmp(path, "..", 2) && (path[2] == '/' || path[2] == 0))
+			return true;
+		path = strchr(path, '/');
+	}
+	return false;
+}
+
 void handle_static_routes(api_request *req)
 {
 	log_debug("Handle static route: %s", req->path);
@@ -341,8 +355,8 @@ void handle_static_routes(api_request *req)
 	sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, req->path);
 
 	log_debug("IP:%s GET: %s, PATH: %s", req->IP, req->path, path);
-	// If the file is not found return /index.html
-	if (direct_file(req, path) < 0)
+	// If the file is not found return /index.html. Nothing above the static root is ever found.
+	if (has_parent_segment(req->path) || direct_file(req, path) < 0)
 	{
 		sprintf(path, "%s/%s", WAYUU_STATIC_ROOT, WWW_INDEX);
 		// Without an index there is nothing to return
-- 
2.43.0


From da6ae8742a011647c4c3603c13a2d9b6c604a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 18/75] fix: do not hand out a temporary file that could not be
 stored completely

---
 file_utils.c | 14 +++++++++-----
 file_utils.h |  2 +-
 ws.c         |  6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 69393a7..8b8eea7 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -104,7 +104,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
   }
 }
 
-void write_file(char *filename, char *ptr, int size)
+bool write_file(char *filename, char *ptr, int size)
 {
   log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
   if (is_file(filename))
@@ -115,12 +115,16 @@ void write_file(char *filename, char *ptr, int size)
   if (f == NULL)
   {
     log_error("There was an error opening file: %s", filename);
-    return;
+    return false;
   }
-  size_t written = fwrite(ptr, 1, size, f);
-  if (written < 0)
+  bool written = fwrite(ptr, 1, size, f) == size;
+  // Buffered data is written when the file is closed
+  if (fclose(f) != 0)
+    written = false;
+  if (!written)
   {
     log_error("There was an error writing file: %s", filename);
+    remove(filename);
   }
-  fclose(f);
+  return written;
 }
diff --git a/file_utils.h b/file_utils.h
index d18bd41..bab843c 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -26,5 +26,5 @@ bool find_in_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
 void read_file(char *out, char *path, uint64_t maxlen);
-void write_file(char *filename, char *ptr, int size);
+bool write_file(char *filename, char *ptr, int size);
 #endif
\ No newline at end of file
diff --git a/ws.c b/ws.c
index 5aff4e4..f799efe 100644
--- a/ws.c
+++ b/ws.c
@@ -237,8 +237,10 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	sprintf(tmpfile, "%lu-%s", pthread_self(), md5);
 	sprintf(tmpfilepath, "%s/%s", FILE_DOWNLOAD_TMP_DIR, tmpfile);
 
-	write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2);
-	sprintf(tmpfields + strlen(tmpfields), "%s=%s&tmpfile=%s", field, orig_filename, tmpfile);
+	sprintf(tmpfields + strlen(tmpfields), "%s=%s", field, orig_filename);
+	// Only name the temporary file if it holds the whole upload
+	if (write_file(tmpfilepath, tmpdata + data_start, actuallength - data_start - 2))
+		sprintf(tmpfields + strlen(tmpfields), "&tmpfile=%s", tmpfile);
 }
 
 void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
-- 
2.43.0


From 225ab14d326e3d5d716e314a4665e7308ab5e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 19/75] fix: match whole addresses in lists of any size and
 refuse when a list cannot be read

---
 file_utils.c | 56 +++++++++++++++++++++++++++++++++++++++++++---------
 file_utils.h |  7 +++++++
 ws.c         | 11 +++++------
 3 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index 8b8eea7..bf82cf9 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -15,6 +15,11 @@
  * You should have received a copy of the GNU General Public License
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
+#include <ctype.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -22,26 +27,59 @@
 #include "log.h"
 #include "file_utils.h"
 
-bool find_in_file(char *path, char *needle)
+static bool is_word_char(char c)
 {
+  return isalnum((unsigned char)c) || (c && strchr(".:-", c));
+}
 
-  if (!is_file(path))
+/**
+ * search_in_file: Searches a file for needle as a whole word, that is, surrounded by blanks, line ends or anything else
+ * that is neither a letter, a digit, a dot, a colon nor a hyphen.
+ * Returns FILE_FOUND, FILE_NOT_FOUND, FILE_MISSING if there is no such file or FILE_UNREADABLE if it cannot be read.
+ */
+int search_in_file(char *path, char *needle)
+{
+  FILE *file = fopen(path, "r");
+  if (!file)
   {
-    return false;
+    return errno == ENOENT ? FILE_MISSING : FILE_UNREADABLE;
   }
 
-  bool result = false;
+  int result = FILE_NOT_FOUND;
+  char *line = NULL;
+  size_t size = 0;
+  size_t length = strlen(needle);
 
-  char *haystack = calloc(8192, 1);
-  read_file(haystack, path, 0);
+  while (result == FILE_NOT_FOUND && getline(&line, &size, file) != -1 && !ferror(file))
+  {
+    char *match = line;
+    while ((match = strstr(match, needle)))
+    {
+      if ((match == line || !is_word_char(match[-1])) && !is_word_char(match[length]))
+      {
+        result = FILE_FOUND;
+        break;
+      }
+      match++;
+    }
+  }
 
-  if (strstr(haystack, needle))
-    result = true;
+  if (result == FILE_NOT_FOUND && !feof(file))
+  {
+    log_error("Cannot read file: %s", path);
+    result = FILE_UNREADABLE;
+  }
 
-  free(haystack);
+  free(line);
+  fclose(file);
   return result;
 }
 
+bool find_in_file(char *path, char *needle)
+{
+  return search_in_file(path, needle) == FILE_FOUND;
+}
+
 bool check_createdir(char *path)
 {
   if (!is_dir(path) && mkdir(path, 0755))
diff --git a/file_utils.h b/file_utils.h
index bab843c..8030860 100644
--- a/file_utils.h
+++ b/file_utils.h
@@ -22,6 +22,13 @@
 #include <stdint.h>
 
 bool check_createdir(char *path);
+// Results of search_in_file
+#define FILE_FOUND 1
+#define FILE_NOT_FOUND 0
+#define FILE_MISSING -1
+#define FILE_UNREADABLE -2
+
+int search_in_file(char *path, char *needle);
 bool find_in_file(char *path, char *needle);
 bool is_dir(char *path);
 bool is_file(char *path);
diff --git a/ws.c b/ws.c
index f799efe..78343e5 100644
--- a/ws.c
+++ b/ws.c
@@ -75,16 +75,15 @@ bool allowed_address(char *ip)
 		sprintf(WAYUU_WS_DENY, "%s/etc/deny", WAYUU_WS_ROOT);
 	}
 
-	if (find_in_file(WAYUU_WS_DENY, ip))
+	// A list that exists but cannot be read refuses the address
+	int denied = search_in_file(WAYUU_WS_DENY, ip);
+	if (denied == FILE_FOUND || denied == FILE_UNREADABLE)
 	{
 		return false;
 	}
 
-	if (!is_file(WAYUU_WS_ALLOW))
-	{
-		return true;
-	}
-	return find_in_file(WAYUU_WS_ALLOW, ip);
+	int allowed = search_in_file(WAYUU_WS_ALLOW, ip);
+	return allowed == FILE_FOUND || allowed == FILE_MISSING;
 }
 
 int get_line(api_request *req, char *buf, int size)
-- 
2.43.0


From 98cd45af6ec95d90233582a4a6b3d31c016e0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 20/75] fix: do not copy a file that could not be read

---
 file_utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/file_utils.c b/file_utils.c
index bf82cf9..fad6cc5 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -125,14 +125,19 @@ void read_file(char *out, char *path, uint64_t maxlen)
   if (file)
   {
     fseek(file, 0, SEEK_END);
-    length = ftell(file);
+    long size = ftell(file);
     fseek(file, 0, SEEK_SET);
-    src = calloc(length, 1);
+    src = size >= 0 ? calloc(size + 1, 1) : NULL;
     if (src)
     {
-      fread(src, 1, length, file);
+      length = fread(src, 1, size, file);
     }
     fclose(file);
+    if (!src)
+    {
+      log_error("Cannot read file: %s", path);
+      return;
+    }
     if (maxlen > 0)
       if (length > maxlen - 1)
         length = maxlen - 1;
-- 
2.43.0


From 248b3879c4d783749afea96cead44250ea8b6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 21/75] fix: format time stamps without sharing a buffer
 between threads

---
 log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/log.c b/log.c
index 5a8bbdc..4d6d8b8 100644
--- a/log.c
+++ b/log.c
@@ -42,8 +42,9 @@ char *format_timestamp()
   // Always use UTC time
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d-%m-%y %H:%M:%S", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d-%m-%y %H:%M:%S", &utc);
   return out;
 }
 
@@ -55,8 +56,9 @@ char *format_ts_common_log()
   //%d/%b/%Y:%H:%M:%S %z
   char *out = malloc(64);
   time_t t = time(NULL);
-  struct tm *utc = gmtime(&t);
-  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", utc);
+  struct tm utc;
+  gmtime_r(&t, &utc);
+  strftime(out, 64, "%d/%b/%Y:%H:%M:%S %z", &utc);
   return out;
 }
 
-- 
2.43.0


From 15f0e123fcd4b97456a24af3df8d06023889b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:15 +0000
Subject: [PATCH 22/75] fix: write each log record as a whole

---
 log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 4d6d8b8..4c95e3c 100644
--- a/log.c
+++ b/log.c
@@ -77,13 +77,15 @@ void __logger(int level, const char *file, int line, const char *func, const cha
   char *buf = format_timestamp();
   va_list args;
 
-  // II. Format log
+  // II. Format log. Other threads log in the meantime: keep the record together
+  flockfile(LOG_FILE);
   fprintf(LOG_FILE, "%s %lu %-5s %s:%s:%d: ", buf, pthread_self(), level_names[level], file, func, line);
   va_start(args, format);
   vfprintf(LOG_FILE, format, args);
   va_end(args);
   fprintf(LOG_FILE, "\n");
   fflush(LOG_FILE);
+  funlockfile(LOG_FILE);
   free(buf);
 
   // Exit with error if log level is FATAL
-- 
2.43.0


From 54c2ab184c1342163c9c4494e8c06c99cf1bd429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:53 +0000
Subject: [PATCH 23/75] fix: measure response times with the monotonic clock

---
 http_utils.h |  1 +
 wayuu_log.c  | 15 ++++++++++++++-
 wayuu_log.h  |  2 ++
 ws.c         |  1 +
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/http_utils.h b/http_utils.h
index 33e4df0..91c6a12 100644
--- a/http_utils.h
+++ b/http_utils.h
@@ -125,6 +125,7 @@ typedef struct api_request
   char *request_line;       // The full request line (e.g. GET /index.html HTTP/1.1)
   uint64_t request_start;   // Start time in epoch milliseconds
   uint32_t response_length; // Length in bytes of the response
+  uint64_t monotonic_start; // Start time in milliseconds of a clock that is never set
 } api_request;
 
 
diff --git a/wayuu_log.c b/wayuu_log.c
index f695502..7e0aaa3 100644
--- a/wayuu_log.c
+++ b/wayuu_log.c
@@ -66,7 +66,20 @@ uint64_t epoch_millis()
          (uint64_t)(tv.tv_usec) / 1000;
 }
 
+/**
+ * monotonic_millis: Milliseconds of a clock that is not affected when the time of day is set.
+ */
+uint64_t monotonic_millis()
+{
+  struct timespec ts;
+
+  clock_gettime(CLOCK_MONOTONIC, &ts);
+
+  return (uint64_t)(ts.tv_sec) * 1000 +
+         (uint64_t)(ts.tv_nsec) / 1000000;
+}
+
 double response_time(api_request *req)
 {
-  return (double)(epoch_millis() - req->request_start) / 1000;
+  return (double)(monotonic_millis() - req->monotonic_start) / 1000;
 }
diff --git a/wayuu_log.h b/wayuu_log.h
index f1094dc..70d0b7a 100644
--- a/wayuu_log.h
+++ b/wayuu_log.h
@@ -39,4 +39,6 @@ double response_time(api_request *req);
 
 uint64_t epoch_millis();
 
+uint64_t monotonic_millis();
+
 #endif
diff --git a/ws.c b/ws.c
index 78343e5..6329f1f 100644
--- a/ws.c
+++ b/ws.c
@@ -370,6 +370,7 @@ api_request *api_request_new(int socket)
 {
 	api_request *req = calloc(1, sizeof(api_request));
 	req->request_start = epoch_millis();
+	req->monotonic_start = monotonic_millis();
 	req->response_length = 0;
 	req->query_string = "";
 	req->form = "";
-- 
2.43.0


From 6648989b7418f74910b4aea5ed7be507ea7b1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:53 +0000
Subject: [PATCH 24/75] fix: parse configuration lines without sharing state
 between threads

---
 conf_parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 6279474..8c595ea 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -39,7 +39,8 @@ void conf_parse_multi(conf_item *item)
   // We store value string in a separate string because strtok modifies it.
   char *value = strdup(item->value);
   // tmp_value is a register that stores the current value obtained from the tokenizer.
-  char *tmp_value = strtok(value, MULTI_DELIM);
+  char *saveptr = NULL;
+  char *tmp_value = strtok_r(value, MULTI_DELIM, &saveptr);
   if (tmp_value && strcmp("", tmp_value))
   {
     item->multivalue[0] = strdup(tmp_value);
@@ -47,7 +48,7 @@ void conf_parse_multi(conf_item *item)
     while (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
     {
       i++;
-      tmp_value = strtok(NULL, MULTI_DELIM);
+      tmp_value = strtok_r(NULL, MULTI_DELIM, &saveptr);
       if (tmp_value != NULL)
       {
         item->multivalue[i] = strdup(tmp_value);
@@ -78,11 +79,12 @@ conf_item *conf_parse_first_pass(char *line)
   char *line_copy = strdup(line);
   trim(line_copy);
   // Get the key
-  char *key = strtok(line_copy, DELIM);
+  char *saveptr = NULL;
+  char *key = strtok_r(line_copy, DELIM, &saveptr);
   result->key = strdup(key);
   trim(result->key);
   // store the value
-  char *value = strtok(NULL, DELIM);
+  char *value = strtok_r(NULL, DELIM, &saveptr);
   if (value == NULL)
   {
     value = "";
-- 
2.43.0


From 631130480d02b71cc33027f7d1eb11d01c167546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:54 +0000
Subject: [PATCH 25/75] fix: reject configuration lines without a key

---
 conf_parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 8c595ea..d219652 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -81,6 +81,13 @@ conf_item *conf_parse_first_pass(char *line)
   // Get the key
   char *saveptr = NULL;
   char *key = strtok_r(line_copy, DELIM, &saveptr);
+  if (key == NULL)
+  {
+    // The line holds nothing but delimiters
+    free_conf_item(result);
+    free(line_copy);
+    return NULL;
+  }
   result->key = strdup(key);
   trim(result->key);
   // store the value
@@ -111,7 +118,7 @@ conf_item *conf_parse_first_pass(char *line)
 conf_item *conf_parse_line(char *line, bool is_multi)
 {
   conf_item *result = conf_parse_first_pass(line);
-  if (is_multi)
+  if (is_multi && result)
   {
     conf_parse_multi(result);
   }
-- 
2.43.0


From 7c35554625053c687934418b019ac540a0d60764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:55 +0000
Subject: [PATCH 26/75] fix: do not store multi values past the end of their
 array

---
 conf_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index d219652..b4bc645 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -49,7 +49,7 @@ void conf_parse_multi(conf_item *item)
     {
       i++;
       tmp_value = strtok_r(NULL, MULTI_DELIM, &saveptr);
-      if (tmp_value != NULL)
+      if (tmp_value != NULL && i < _CONF_MAX_MULTI_ELEMENTS)
       {
         item->multivalue[i] = strdup(tmp_value);
         trim(item->multivalue[i]);
-- 
2.43.0


From 51199b5b6a67c922d8beb1e137d0862e453b2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:56 +0000
Subject: [PATCH 27/75] fix: report configuration errors for paths of any
 length

---
 conf_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index b4bc645..e3131b1 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -131,7 +131,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open path: %s", path);
+    snprintf(errorString, sizeof(errorString), "Unable to open path: %s", path);
     perror(errorString);
     return -1;
   }
@@ -142,7 +142,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     if (item == NULL)
     {
       char errorString[120];
-      sprintf(errorString, "Entity in invalid format, path: %s\n", path);
+      snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
       fclose(file);
       return -1;
@@ -263,7 +263,7 @@ int write_conf(void *input, conf_serializer serializer)
   if (file == NULL)
   {
     char errorString[120];
-    sprintf(errorString, "Unable to open file %s for writing", s->path);
+    snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
     return -1;
   }
-- 
2.43.0


From 9aab17db2923485d3bad7a95ea63426665fc4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:23 +0000
Subject: [PATCH 28/75] fix: report a configuration file that cannot be read to
 its end

---
 conf_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index e3131b1..3cf7f4a 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -159,8 +159,10 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     }
     free_conf_item(item);
   }
+  // fgets also stops when the file cannot be read any further
+  int result = ferror(file) ? -1 : 0;
   fclose(file);
-  return 0;
+  return result;
 }
 
 key_flag get_key_flag(char *key, key_flags flags)
-- 
2.43.0


From f01c1c6f0e8972769797a23786df570e69147440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:24 +0000
Subject: [PATCH 29/75] fix: report a configuration that could not be written
 completely

---
 conf_parser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 3cf7f4a..5aa0d5c 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -269,15 +269,21 @@ int write_conf(void *input, conf_serializer serializer)
     perror(errorString);
     return -1;
   }
+  int result = 0;
   for (int i = 0; i < s->n_items; i++)
   {
     char *itemString = conf_item_to_string(s->items[i]);
-    fprintf(file, "%s\n", itemString);
+    if (fprintf(file, "%s\n", itemString) < 0)
+      result = -1;
     free(itemString);
   }
+  // Buffered items are written when the file is closed
+  if (fclose(file) != 0)
+    result = -1;
+  if (result != 0)
+    perror("Unable to write configuration");
   free_serializable(s);
-  fclose(file);
-  return 0;
+  return result;
 }
 
 serializable *new_serializable(char *path, conf_item *items[], int n_items)
-- 
2.43.0


From 303ad97f32b7d7086db88930ab6fd6317f0fe714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:25 +0000
Subject: [PATCH 30/75] fix: keep configuration values that contain the
 delimiter

---
 conf_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index 5aa0d5c..c814427 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -91,7 +91,8 @@ conf_item *conf_parse_first_pass(char *line)
   result->key = strdup(key);
   trim(result->key);
   // store the value
-  char *value = strtok_r(NULL, DELIM, &saveptr);
+  // The value is the rest of the line and may contain the delimiter
+  char *value = strtok_r(NULL, "", &saveptr);
   if (value == NULL)
   {
     value = "";
-- 
2.43.0


From 9fc96f36bb8562f8da5845fe180d067b2a2c63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:52 +0000
Subject: [PATCH 31/75] fix: do not admit one connection more than a limit rule
 allows

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 6329f1f..98ef0c6 100644
--- a/ws.c
+++ b/ws.c
@@ -411,12 +411,12 @@ bool connection_validate(char *IP, char *path)
 			int total = 0;
 			int by_ip = 0;
 			get_live_stats(limits[i].path, IP, &total, &by_ip);
-			if (total > limits[i].max_connections)
+			if (total >= limits[i].max_connections)
 			{
 				log_debug("IP:%s denied, max_connections exceeded for %s", IP, limits[i].path);
 				return false;
 			}
-			if (by_ip > limits[i].max_connections_per_ip)
+			if (by_ip >= limits[i].max_connections_per_ip)
 			{
 				log_debug("IP:%s denied, max_connections_per_ip exceeded for %s", IP, limits[i].path);
 				return false;
-- 
2.43.0


From 82473e734c7d73c6b056b3468f1b2595a3be1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 32/75] fix: forget a connection before its descriptor can be
 reused

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 98ef0c6..c291a5e 100644
--- a/ws.c
+++ b/ws.c
@@ -433,8 +433,9 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
-	close(req->socket);
+	// Once closed, the descriptor may be given to another connection
 	connection_del(req->socket);
+	close(req->socket);
 }
 
 /* Removes socket from live_connections */
-- 
2.43.0


From 692d67a86a5aa58138e8eb35bdae1a7b44e5f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 33/75] fix: check and take a place among the live connections
 in one step

---
 ws.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ws.c b/ws.c
index c291a5e..9847466 100644
--- a/ws.c
+++ b/ws.c
@@ -38,6 +38,8 @@ pthread_cond_t ws_cond;
 ws_queue *ws_threads_queue;
 SSL_CTX *ctx;
 connections *live_connections;
+// Protects live_connections
+pthread_mutex_t connections_mutex = PTHREAD_MUTEX_INITIALIZER;
 path_limits *limits;
 
 char WAYUU_WS_ROOT[ROOT_PATH_MAX];
@@ -441,6 +443,7 @@ void connection_close(api_request *req)
 /* Removes socket from live_connections */
 void connection_del(int socket)
 {
+	pthread_mutex_lock(&connections_mutex);
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
 		if (live_connections[i].socket == socket)
@@ -451,13 +454,19 @@ void connection_del(int socket)
 			break;
 		}
 	}
+	pthread_mutex_unlock(&connections_mutex);
 }
 
 /* Adds socket to live_connections (if allowed) */
 bool connection_add(int socket, char *IP, char *path)
 {
+	// Other threads must not take the same place
+	pthread_mutex_lock(&connections_mutex);
 	if (!connection_validate(IP, path))
+	{
+		pthread_mutex_unlock(&connections_mutex);
 		return false;
+	}
 
 	for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
 	{
@@ -466,9 +475,11 @@ bool connection_add(int socket, char *IP, char *path)
 			live_connections[i].socket = socket;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
+			pthread_mutex_unlock(&connections_mutex);
 			return true;
 		}
 	}
+	pthread_mutex_unlock(&connections_mutex);
 
 	log_debug("WS_MAX_CONNECTIONS reached");
 	return false;
-- 
2.43.0


From e061397fa76e681ae7e67ab18b9e47e14d3894e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:54 +0000
Subject: [PATCH 34/75] fix: ignore limit rules whose path does not fit

---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index 9847466..2a327f5 100644
--- a/ws.c
+++ b/ws.c
@@ -884,6 +884,11 @@ path_limits *load_limits()
 				/* Tokenize line, comma delimited */
 				char *token;
 				token = strtok(line, ",");
+				if (strlen(token) >= HTTP_MAX_PATH)
+				{
+					log_error("Limit ignored, path too long: %s", token);
+					continue;
+				}
 				strcpy(out[path_rules].path, token);
 				int i = 1;
 				while (token != NULL)
-- 
2.43.0


From 97eaf607c53a0556f58612f1bdcc8e8e2d3fa9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:50 +0000
Subject: [PATCH 35/75] fix: do not start without the limits that are
 configured

---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index 2a327f5..251aea1 100644
--- a/ws.c
+++ b/ws.c
@@ -18,6 +18,7 @@
 #include "ws.h"
 #include <arpa/inet.h>
 #include <ctype.h>
+#include <errno.h>
 #include <pthread.h>
 #include <unistd.h>
 #include <stdlib.h>
@@ -873,6 +874,8 @@ path_limits *load_limits()
 
 	/* Open etc/limits file */
 	fp = fopen(WAYUU_WS_LIMITS, "r");
+	if (fp == NULL && errno != ENOENT)
+		log_fatal("Cannot open %s", WAYUU_WS_LIMITS);
 	if (fp != NULL)
 	{
 		/* Read file line by line */
@@ -919,6 +922,8 @@ path_limits *load_limits()
 					break;
 			}
 		}
+		if (path_rules < MAX_LIMIT_RULES && !feof(fp))
+			log_fatal("Cannot read %s", WAYUU_WS_LIMITS);
 		fclose(fp);
 	}
 
-- 
2.43.0


From 483a6feed4e21201921e15b26ef0820ccc378e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:50 +0000
Subject: [PATCH 36/75] fix: drop connections that exceed the maximum seconds
 of their limit

---
 ws.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/ws.c b/ws.c
index 251aea1..c253f90 100644
--- a/ws.c
+++ b/ws.c
@@ -474,6 +474,7 @@ bool connection_add(int socket, char *IP, char *path)
 		if (!live_connections[i].socket)
 		{
 			live_connections[i].socket = socket;
+			live_connections[i].unix_time = monotonic_millis() / 1000;
 			strcpy(live_connections[i].path, path);
 			strcpy(live_connections[i].IP, IP);
 			pthread_mutex_unlock(&connections_mutex);
@@ -486,6 +487,60 @@ bool connection_add(int socket, char *IP, char *path)
 	return false;
 }
 
+/* Returns the maximum execution seconds for path, or 0 if there is no maximum */
+static int max_seconds(char *path)
+{
+	int seconds = 0;
+	for (int i = 0; i < MAX_LIMIT_RULES && *limits[i].path; i++)
+	{
+		if (limits[i].max_seconds > 0 && startswith(path, limits[i].path))
+			if (!seconds || limits[i].max_seconds < seconds)
+				seconds = limits[i].max_seconds;
+	}
+	return seconds;
+}
+
+/* Drops the connections that exceed the maximum execution time for their path */
+static void *connections_watchdog(void *arg)
+{
+	while (1)
+	{
+		sleep(1);
+		pthread_mutex_lock(&connections_mutex);
+		long now = monotonic_millis() / 1000;
+		for (int i = 0; i < WS_MAX_CONNECTIONS; i++)
+		{
+			if (live_connections[i].socket)
+			{
+				int seconds = max_seconds(live_connections[i].path);
+				if (seconds && now - live_connections[i].unix_time > seconds)
+				{
+					log_debug("IP:%s dropped, max_seconds exceeded for %s", live_connections[i].IP, live_connections[i].path);
+					// The worker finds the connection ended and closes it
+					shutdown(live_connections[i].socket, SHUT_RDWR);
+				}
+			}
+		}
+		pthread_mutex_unlock(&connections_mutex);
+	}
+	return NULL;
+}
+
+/* Starts the watchdog if any limit has a maximum execution time */
+static void watchdog_launch()
+{
+	for (int i = 0; i < MAX_LIMIT_RULES && *limits[i].path; i++)
+	{
+		if (limits[i].max_seconds > 0)
+		{
+			pthread_t thread;
+			if (pthread_create(&thread, NULL, connections_watchdog, NULL) != 0)
+				log_error("Unable to start the thread that drops connections");
+			return;
+		}
+	}
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -791,6 +846,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 		log_fatal("Unable to bind to port %d", port);
 	}
 
+	watchdog_launch();
 	for (int i = 0; i < WS_THREAD_POOL_SIZE; i++)
 		pthread_create(&threadPool[i], NULL, ws_connection_handler, (void *)NULL);
 
-- 
2.43.0


From b81862a0443a81ee56b16c4cfbdc46dc6b19168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:38 +0000
Subject: [PATCH 37/75] fix: do not start without worker threads

---
 ws.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index c253f90..9ee2844 100644
--- a/ws.c
+++ b/ws.c
@@ -847,8 +847,12 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	}
 
 	watchdog_launch();
+	int threads = 0;
 	for (int i = 0; i < WS_THREAD_POOL_SIZE; i++)
-		pthread_create(&threadPool[i], NULL, ws_connection_handler, (void *)NULL);
+		if (pthread_create(&threadPool[i], NULL, ws_connection_handler, (void *)NULL) == 0)
+			threads++;
+	if (threads == 0)
+		log_fatal("Unable to start any worker thread");
 
 	if (listen(httpd, 5) < 0)
 		log_fatal("Error while listening to socket");
-- 
2.43.0


From c093283ae3567c76bbf75de0495af03e8d20aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:39 +0000
Subject: [PATCH 38/75] fix: keep accepting connections after a transient
 accept error

---
 ws.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 9ee2844..c1359c8 100644
--- a/ws.c
+++ b/ws.c
@@ -866,7 +866,17 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 
 		client_sock = accept(httpd, (struct sockaddr *)&client_name, &client_name_len);
 		if (client_sock == -1)
-			log_fatal("Error while creating client socket");
+		{
+			// Only these mean that no connection can be accepted any more
+			int error = errno;
+			if (error == EBADF || error == EINVAL || error == ENOTSOCK)
+				log_fatal("Error while creating client socket");
+			log_warn("Error while creating client socket: %s", strerror(error));
+			// Wait for resources unless only this connection failed
+			if (error != EINTR && error != ECONNABORTED && error != EPROTO)
+				usleep(10000);
+			continue;
+		}
 
 		char *IP = malloc(16);
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
-- 
2.43.0


From 5a311f6377786263745f970aeb5f34af979d5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:40 +0000
Subject: [PATCH 39/75] fix: close connections that cannot be queued

---
 ws.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ws.c b/ws.c
index c1359c8..47c8617 100644
--- a/ws.c
+++ b/ws.c
@@ -902,6 +902,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			else
 			{
 				log_warn("IP:%s Connection dropped. No threads available", IP);
+				close(client_sock);
 			}
 			pthread_mutex_unlock(&ws_mutex);
 			pthread_cond_signal(&ws_cond);
-- 
2.43.0


From 5cdbf040936800984f663da72621aa7503ee93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:40 +0000
Subject: [PATCH 40/75] fix: do not allocate memory that is never released for
 each connection

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 47c8617..5a2bd5c 100644
--- a/ws.c
+++ b/ws.c
@@ -878,7 +878,7 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 			continue;
 		}
 
-		char *IP = malloc(16);
+		char IP[INET_ADDRSTRLEN];
 		strcpy(IP, inet_ntoa(client_name.sin_addr));
 
 		if (!allowed_address(IP))
-- 
2.43.0


From cb838750a827d05b2b190fdf17ec14f55d569d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:41 +0000
Subject: [PATCH 41/75] fix: ignore SIGPIPE in applications that embed Wayuu

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 5a2bd5c..fe5c307 100644
--- a/ws.c
+++ b/ws.c
@@ -20,6 +20,7 @@
 #include <ctype.h>
 #include <errno.h>
 #include <pthread.h>
+#include <signal.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <string.h>
@@ -798,6 +799,9 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	struct sockaddr_in client_name;
 	uint32_t client_name_len = sizeof(client_name);
 
+	// Clients that disconnect must not terminate applications that embed Wayuu
+	signal(SIGPIPE, SIG_IGN);
+
 	// Create TMP dir
 	if (!check_createdir(FILE_DOWNLOAD_TMP_DIR))
 	{
-- 
2.43.0


From 0491c9189986a64fd532c01a5679a5cc8096e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:42 +0000
Subject: [PATCH 42/75] fix: serve static files from the root directory given
 on the command line

---
 main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.c b/main.c
index 5a88d42..441ed40 100644
--- a/main.c
+++ b/main.c
@@ -78,13 +78,22 @@ int main(int argc, char *argv[])
       exit(EXIT_SUCCESS);
       break;
     case 'b':
+      if (strlen(optarg) >= sizeof(bind_addr))
+      {
+        log_fatal("Unable to start, not an IP address: %s", optarg);
+      }
       strcpy(bind_addr, optarg);
       break;
     case 'p':
       ws_port = atoi(optarg);
       break;
     case 'r':
+      if (strlen(optarg) >= ROOT_PATH_MAX)
+      {
+        log_fatal("Unable to start, root directory is too long: %s", optarg);
+      }
       strcpy(WAYUU_WS_ROOT, optarg);
+      sprintf(WAYUU_STATIC_ROOT, "%s/%s", WAYUU_WS_ROOT, DEFAULT_STATIC_ROOT);
       log_info("WAYUU ROOT now: %s", WAYUU_WS_ROOT);
       if (!is_dir(WAYUU_WS_ROOT))
       {
-- 
2.43.0


From a76fba089928d111d56c98b2b8359aa3badf3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:05 +0000
Subject: [PATCH 43/75] fix: go on reading a request after an interruption

---
 http_utils.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 4b4e249..a5d7a55 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -47,14 +47,23 @@ bool WAYUU_SSL_ON = true;
 int http_read_char(api_request *req, char *c)
 {
 	int n;
-	if (WAYUU_SSL_ON)
+	bool retry;
+	// An interruption is not the end of the connection
+	do
 	{
-		n = SSL_read(req->ssl, c, 1);
-	}
-	else
-	{
-		n = recv(req->socket, c, 1, 0);
-	}
+		if (WAYUU_SSL_ON)
+		{
+			ERR_clear_error();
+			errno = 0;
+			n = SSL_read(req->ssl, c, 1);
+			retry = n < 0 && errno == EINTR && SSL_get_error(req->ssl, n) == SSL_ERROR_WANT_READ;
+		}
+		else
+		{
+			n = recv(req->socket, c, 1, 0);
+			retry = n < 0 && errno == EINTR;
+		}
+	} while (retry);
 	return n;
 }
 
-- 
2.43.0


From 76ce4d3585aaf825811e91f05c817121c3715a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:24 +0000
Subject: [PATCH 44/75] fix: release the memory of every request

---
 ws.c | 65 ++++++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/ws.c b/ws.c
index fe5c307..3dac3c3 100644
--- a/ws.c
+++ b/ws.c
@@ -293,11 +293,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	}
 
 	/* Retrieve form data */
-	
+	char *body = NULL;
 	if (content_length > 0)
 	{
 		char c = '\0';
-		req->form = malloc(content_length + 1);
+		req->form = body = malloc(content_length + 1);
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
@@ -313,6 +313,11 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	}
 	// Delegate request to router
 	router_handle_request(req);
+
+	// The router builds a new form to add a route parameter
+	if (req->form && *req->form && req->form != body)
+		free(req->form);
+	free(body);
 }
 
 /* Returns true if any segment of the path is ".." */
@@ -542,6 +547,35 @@ static void watchdog_launch()
 	}
 }
 
+/* The memory that accept_request allocates for a request */
+typedef struct request_memory
+{
+	char *IP;
+	char *request_line;
+	char *url;
+	char *session;
+	char *content_type;
+	char *query_string;
+} request_memory;
+
+/* Releases a request. Fields that a filter or handler has replaced do not belong to the request. */
+static void request_free(api_request *req, request_memory *memory)
+{
+	if (req->IP == memory->IP)
+		free(memory->IP);
+	if (req->request_line == memory->request_line)
+		free(memory->request_line);
+	if (req->url == memory->url)
+		free(memory->url);
+	if (req->session == memory->session)
+		free(memory->session);
+	if (req->content_type == memory->content_type)
+		free(memory->content_type);
+	if (req->query_string == memory->query_string)
+		free(memory->query_string);
+	free(req);
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -556,9 +590,10 @@ void accept_request(int socket)
 	char url[255];
 	size_t i, j;
 	api_request *req = api_request_new(socket);
+	request_memory memory = {NULL};
 
 	// IP
-	req->IP = calloc(24, 1);
+	req->IP = memory.IP = calloc(24, 1);
 	struct sockaddr_in addr;
 	socklen_t addr_len = sizeof(addr);
 	getpeername(socket, (struct sockaddr *)&addr, &addr_len);
@@ -582,7 +617,7 @@ void accept_request(int socket)
 	numchars = get_line(req, buf, sizeof(buf));
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
-	req->request_line = strdup(buf);
+	req->request_line = memory.request_line = strdup(buf);
 	// The request line ends in the two characters \r\n
 	req->request_line[strlen(req->request_line) - 2] = 0;
 
@@ -604,7 +639,7 @@ void accept_request(int socket)
 	{
 		bad_request(req);
 		connection_close(req);
-		free(req);
+		request_free(req, &memory);
 		return;
 	}
 
@@ -624,14 +659,14 @@ void accept_request(int socket)
 
 	url[i] = '\0';
 
-	req->url = strdup(url);
+	req->url = memory.url = strdup(url);
 
 	/* Validate and add connection to live_connections */
 	if (!connection_add(req->socket, req->IP, req->url))
 	{
 		too_many_connections(req);
 		connection_close(req);
-		free(req);
+		request_free(req, &memory);
 		return;
 	}
 
@@ -642,7 +677,7 @@ void accept_request(int socket)
 	buf[0] = 'A';
 	buf[1] = '\0';
 	numchars = get_line(req, buf, sizeof(buf));
-	req->session = calloc(MAX_SESSION, 1);
+	req->session = memory.session = calloc(MAX_SESSION, 1);
 	int headers_idx = 0;
 	while ((numchars > 0) && strcmp("\n", buf) && strcmp("\r\n", buf))
 	{
@@ -662,7 +697,8 @@ void accept_request(int socket)
 		}
 		if (startswith(buf, "Content-Type:"))
 		{
-			req->content_type = rtrim(&(buf[14]), ';');
+			free(memory.content_type);
+			req->content_type = memory.content_type = rtrim(&(buf[14]), ';');
 		}
 		/* Get multipart boundary */
 		if (startswith(buf, "Content-Type: multipart/form-data"))
@@ -685,7 +721,7 @@ void accept_request(int socket)
 		if (startswith(buf, "X-Real-IP:"))
 		{
 			free(req->IP);
-			req->IP = calloc(26, 1);
+			req->IP = memory.IP = calloc(26, 1);
 			trim(buf);
 			strncpy(req->IP, buf + 11, 24);
 		}
@@ -713,7 +749,7 @@ void accept_request(int socket)
 	path_and_query_t *pq = get_path_and_query_string(url);
 	// Remove /api from PATH
 
-	req->query_string = strdup(pq->query);
+	req->query_string = memory.query_string = strdup(pq->query);
 
 	/* I. Handle Static Routes */
 	if (!startswith(url, API_MOUNT))
@@ -728,18 +764,21 @@ void accept_request(int socket)
 		{
 			bad_request(req);
 		}
+		free(req->path);
 	}
 
 	/* II. HANDLE API REQUEST */
 	else
 	{
-		req->path = strdup(pq->path) + strlen(API_MOUNT);
+		char *path = strdup(pq->path);
+		req->path = path + strlen(API_MOUNT);
 		// Create an api request object.
 		handle_api_request(req, content_length, multipart_boundary);
+		free(path);
 	}
 	free_path_and_query_t(pq);
 	connection_close(req);
-	free(req);
+	request_free(req, &memory);
 }
 
 ws_queue *ws_create_queue(int maxElements)
-- 
2.43.0


From be8c6808afcaccbecc3535dfeddc0382d7617463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 45/75] fix: close connections whose client address is not
 known any more

---
 ws.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 3dac3c3..015376f 100644
--- a/ws.c
+++ b/ws.c
@@ -596,7 +596,13 @@ void accept_request(int socket)
 	req->IP = memory.IP = calloc(24, 1);
 	struct sockaddr_in addr;
 	socklen_t addr_len = sizeof(addr);
-	getpeername(socket, (struct sockaddr *)&addr, &addr_len);
+	if (getpeername(socket, (struct sockaddr *)&addr, &addr_len) != 0)
+	{
+		// The client has already gone
+		close(socket);
+		request_free(req, &memory);
+		return;
+	}
 	strcpy(req->IP, inet_ntoa(addr.sin_addr));
 	SSL *ssl;
 	// SSL
-- 
2.43.0


From dfed1c0720d2acf7a52ec0365d66a76274366099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:31 +0000
Subject: [PATCH 46/75] fix: close connections whose SSL handshake fails

---
 ws.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index 015376f..884236d 100644
--- a/ws.c
+++ b/ws.c
@@ -31,6 +31,7 @@
 #include "log.h"
 #include "wayuu_log.h"
 #include "router.h"
+#include <openssl/err.h>
 #include <openssl/ssl.h>
 #include <netinet/in.h>
 
@@ -437,7 +438,7 @@ bool connection_validate(char *IP, char *path)
 
 void connection_close(api_request *req)
 {
-	if (WAYUU_SSL_ON)
+	if (WAYUU_SSL_ON && req->ssl)
 	{
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
@@ -576,6 +577,23 @@ static void request_free(api_request *req, request_memory *memory)
 	free(req);
 }
 
+/* Performs the SSL handshake, that may be interrupted */
+static bool ssl_handshake(SSL *ssl)
+{
+	int result;
+	bool retry;
+	do
+	{
+		ERR_clear_error();
+		errno = 0;
+		result = SSL_accept(ssl);
+		bool interrupted = errno == EINTR;
+		int error = SSL_get_error(ssl, result);
+		retry = result < 0 && interrupted && (error == SSL_ERROR_WANT_READ || error == SSL_ERROR_WANT_WRITE);
+	} while (retry);
+	return result > 0;
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -610,13 +628,16 @@ void accept_request(int socket)
 	{
 
 		ssl = SSL_new(ctx);
-		SSL_set_fd(ssl, socket);
+		req->ssl = ssl;
 
-		if (SSL_accept(ssl) <= 0)
+		if (!ssl || SSL_set_fd(ssl, socket) != 1 || !ssl_handshake(ssl))
 		{
 			log_warn("SSL connection failed from IP: %s\n", req->IP);
+			// Nothing is read from or sent to a client without an SSL session
+			connection_close(req);
+			request_free(req, &memory);
+			return;
 		}
-		req->ssl = ssl;
 	}
 
 	/* Read header start */
-- 
2.43.0


From 1240ac75851adca75fb3d91203d05bbe47f25e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:31 +0000
Subject: [PATCH 47/75] fix: stay inside the request line whatever its length

---
 ws.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 884236d..8b1fc6f 100644
--- a/ws.c
+++ b/ws.c
@@ -646,7 +646,7 @@ void accept_request(int socket)
 
 	req->request_line = memory.request_line = strdup(buf);
 	// The request line ends in the two characters \r\n
-	req->request_line[strlen(req->request_line) - 2] = 0;
+	req->request_line[strcspn(req->request_line, "\r\n")] = 0;
 
 	// HTTP METHOD
 	i = 0;
@@ -672,12 +672,12 @@ void accept_request(int socket)
 
 // Parse URL
 	i = 0;
-	while (isspace((int)(buf[j])) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && isspace((int)(buf[j])))
 	{
 		j++;
 	}
 	// URL
-	while (!isspace((int)(buf[j])) && (i < sizeof(url) - 1) && (j < sizeof(buf)))
+	while ((j < sizeof(buf)) && !isspace((int)(buf[j])) && (i < sizeof(url) - 1))
 	{
 		url[i] = buf[j];
 		i++;
-- 
2.43.0


From 187e25f2160af0376b2cb3eead182e8faafcadb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 48/75] fix: do not handle a request that did not arrive
 completely

---
 ws.c | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index 8b1fc6f..329948a 100644
--- a/ws.c
+++ b/ws.c
@@ -117,6 +117,25 @@ int get_line(api_request *req, char *buf, int size)
 	return (i);
 }
 
+/* Reads a line of the request and skips the end of a line that does not fit.
+ * Returns the length of the line, or 0 if the connection ended before the line did. */
+static int read_line(api_request *req, char *buf, int size)
+{
+	int length = get_line(req, buf, size);
+	bool complete = length > 0 && buf[length - 1] == '\n';
+	if (!complete && length == size - 1)
+	{
+		char c = '\0';
+		while (c != '\n')
+		{
+			if (http_read_char(req, &c) <= 0)
+				return 0;
+		}
+		complete = true;
+	}
+	return complete ? length : 0;
+}
+
 void init_openssl()
 {
 	SSL_load_error_strings();
@@ -302,7 +321,13 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 		long formptr = 0;
 		for (int i = 0; i < content_length; i++)
 		{
-			http_read_char(req, &c);
+			if (http_read_char(req, &c) <= 0)
+			{
+				log_debug("IP:%s disconnected before the end of the request", req->IP);
+				req->form = "";
+				free(body);
+				return;
+			}
 			req->form[formptr++] = c;
 			req->form[formptr] = 0;
 		}
@@ -641,7 +666,13 @@ void accept_request(int socket)
 	}
 
 	/* Read header start */
-	numchars = get_line(req, buf, sizeof(buf));
+	numchars = read_line(req, buf, sizeof(buf));
+	if (numchars == 0)
+	{
+		connection_close(req);
+		request_free(req, &memory);
+		return;
+	}
 	log_trace("IP: %s, Request: %s", req->IP, buf);
 
 	req->request_line = memory.request_line = strdup(buf);
@@ -703,7 +734,7 @@ void accept_request(int socket)
 	numchars = 1;
 	buf[0] = 'A';
 	buf[1] = '\0';
-	numchars = get_line(req, buf, sizeof(buf));
+	numchars = read_line(req, buf, sizeof(buf));
 	req->session = memory.session = calloc(MAX_SESSION, 1);
 	int headers_idx = 0;
 	while ((numchars > 0) && strcmp("\n", buf) && strcmp("\r\n", buf))
@@ -766,11 +797,19 @@ void accept_request(int socket)
 				strcpy(req->session, buf + 18);
 		}
 
-		numchars = get_line(req, buf, sizeof(buf));
+		numchars = read_line(req, buf, sizeof(buf));
 	}
 
 	req->n_headers = headers_idx;
 
+	// The connection ended before the end of the headers
+	if (numchars == 0)
+	{
+		connection_close(req);
+		request_free(req, &memory);
+		return;
+	}
+
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
-- 
2.43.0


From 2e02ec1c278bfb2919c03da79bfe7206940437c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:02 +0000
Subject: [PATCH 49/75] fix: reject content lengths that are invalid or do not
 fit in memory

---
 ws.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 329948a..629ab2f 100644
--- a/ws.c
+++ b/ws.c
@@ -317,9 +317,15 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 	if (content_length > 0)
 	{
 		char c = '\0';
-		req->form = body = malloc(content_length + 1);
+		body = malloc((size_t)content_length + 1);
+		if (!body)
+		{
+			internal_server_error(req);
+			return;
+		}
+		req->form = body;
 		long formptr = 0;
-		for (int i = 0; i < content_length; i++)
+		for (long i = 0; i < content_length; i++)
 		{
 			if (http_read_char(req, &c) <= 0)
 			{
@@ -730,6 +736,7 @@ void accept_request(int socket)
 
 	/* Parse remaining part of the HTTP header section */
 	long content_length = -1;
+	bool bad_length = false;
 	char multipart_boundary[100] = "\0";
 	numchars = 1;
 	buf[0] = 'A';
@@ -772,7 +779,10 @@ void accept_request(int socket)
 		/* Get content length */
 		if (startswith(buf, "Content-Length:"))
 		{
-			content_length = atoi(&(buf[16]));
+			errno = 0;
+			content_length = strtol(&(buf[15]), NULL, 10);
+			if (content_length < 0 || errno == ERANGE)
+				bad_length = true;
 		}
 
 		// Get original IP if behind proxy
@@ -810,6 +820,14 @@ void accept_request(int socket)
 		return;
 	}
 
+	if (bad_length)
+	{
+		bad_request(req);
+		connection_close(req);
+		request_free(req, &memory);
+		return;
+	}
+
 	// ROUTE HANDLING LOGIC
 	// query string and path
 	path_and_query_t *pq = get_path_and_query_string(url);
-- 
2.43.0


From 52d18f7e2d67dc89c12bcbfd3488b9b0ed64a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 50/75] fix: do not write past the end of the multipart
 boundary

---
 ws.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 629ab2f..fd86889 100644
--- a/ws.c
+++ b/ws.c
@@ -737,7 +737,7 @@ void accept_request(int socket)
 	/* Parse remaining part of the HTTP header section */
 	long content_length = -1;
 	bool bad_length = false;
-	char multipart_boundary[100] = "\0";
+	char multipart_boundary[sizeof(buf) + 2] = "\0";
 	numchars = 1;
 	buf[0] = 'A';
 	buf[1] = '\0';
@@ -771,7 +771,7 @@ void accept_request(int socket)
 			char *boundary = strcasestr(buf, "boundary=");
 			if (boundary)
 			{
-				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary=")); // TODO: Validate size
+				sprintf(multipart_boundary, "--%s", boundary + strlen("boundary="));
 				trim(multipart_boundary);
 			}
 		}
-- 
2.43.0


From 43ca2e3e724838a7e6cd34436bca2697990fd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 51/75] fix: take the content type from the whole header
 without its line end

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index fd86889..e7a32b9 100644
--- a/ws.c
+++ b/ws.c
@@ -763,7 +763,8 @@ void accept_request(int socket)
 		if (startswith(buf, "Content-Type:"))
 		{
 			free(memory.content_type);
-			req->content_type = memory.content_type = rtrim(&(buf[14]), ';');
+			req->content_type = memory.content_type = rtrim(&(buf[13]), ';');
+			trim(req->content_type);
 		}
 		/* Get multipart boundary */
 		if (startswith(buf, "Content-Type: multipart/form-data"))
-- 
2.43.0


From fecfb2530e86a277b004b5da10f76b09ebdc5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:04 +0000
Subject: [PATCH 52/75] fix: stay inside the X-Real-IP header

---
 ws.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index e7a32b9..fd07ddb 100644
--- a/ws.c
+++ b/ws.c
@@ -789,10 +789,14 @@ void accept_request(int socket)
 		// Get original IP if behind proxy
 		if (startswith(buf, "X-Real-IP:"))
 		{
-			free(req->IP);
-			req->IP = memory.IP = calloc(26, 1);
-			trim(buf);
-			strncpy(req->IP, buf + 11, 24);
+			char *real_ip = buf + strlen("X-Real-IP:");
+			trim(real_ip);
+			if (*real_ip)
+			{
+				free(req->IP);
+				req->IP = memory.IP = calloc(26, 1);
+				strncpy(req->IP, real_ip, 24);
+			}
 		}
 
 		/* Get Session */
-- 
2.43.0


From ad1172310d6e0f07261269c652d83f4926bfd1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 53/75] fix: take exactly the session that the client sent

---
 ws.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index fd07ddb..61b4af9 100644
--- a/ws.c
+++ b/ws.c
@@ -625,6 +625,34 @@ static bool ssl_handshake(SSL *ssl)
 	return result > 0;
 }
 
+/* Copies a session, that ends where it would not be valid in a response header */
+static void copy_session(char *out, char *value)
+{
+	int length = 0;
+	value += strspn(value, " \t");
+	while (length < MAX_SESSION - 1 && !iscntrl((unsigned char)value[length]))
+	{
+		out[length] = value[length];
+		length++;
+	}
+	out[length] = 0;
+	trim(out);
+}
+
+/* Returns the value of a cookie in the value of a Cookie header, or NULL */
+static char *find_cookie(char *cookies, char *name)
+{
+	int length = strlen(name);
+	while (cookies)
+	{
+		cookies += strspn(cookies, "; \t");
+		if (!strncmp(cookies, name, length) && cookies[length] == '=')
+			return cookies + length + 1;
+		cookies = strchr(cookies, ';');
+	}
+	return NULL;
+}
+
 /**
  * accept_request: Main request handling routine. It performs initial parsing of structures,
  * generates api_request structure
@@ -802,14 +830,17 @@ void accept_request(int socket)
 		/* Get Session */
 		if (startswithany(buf, COOKIE_HEADERS))
 		{
-			strncpy(req->session, buf + 10, MAX_SESSION - 1);
-			trim(req->session);
+			copy_session(req->session, strchr(buf, ':') + 1);
 		}
 
 		if (startswith(buf, "Cookie:") && req->session[0] == 0)
 		{
-			if (strlen(buf + 18) < MAX_SESSION)
-				strcpy(req->session, buf + 18);
+			char *session = find_cookie(buf + strlen("Cookie:"), "WSSESSION");
+			if (session && strcspn(session, ";\r\n") < MAX_SESSION)
+			{
+				session[strcspn(session, ";")] = 0;
+				copy_session(req->session, session);
+			}
 		}
 
 		numchars = read_line(req, buf, sizeof(buf));
-- 
2.43.0


From e6c76494697608f6a50da8f38840ae90eb59ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:04 +0000
Subject: [PATCH 54/75] fix: do not search past the end of the text

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index 1174a87..bc788bf 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -265,7 +265,7 @@ long text_find_after(char *haystack, char *needle, long start, long bytes)
 {
 
   int l = strlen(needle);
-  for (long i = start; i < bytes; i++)
+  for (long i = start; i + l <= bytes; i++)
   {
     bool found = true;
     for (int b = 0; b < l; b++)
-- 
2.43.0


From 202df6b6dc518331ac7660000b48e88f6a9ecea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:05 +0000
Subject: [PATCH 55/75] fix: do not mix a part of an upload with the one before
 it

---
 ws.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 61b4af9..8b292f9 100644
--- a/ws.c
+++ b/ws.c
@@ -286,8 +286,10 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		if (part_end < 0)
 			break;
 
-		int tmppart_len = part_end - part_start - strlen(multipart_boundary);
+		long tmppart_len = part_end - part_start - strlen(multipart_boundary);
 		memcpy(tmppart, form + part_start, tmppart_len);
+		// The previous part may have been longer
+		tmppart[tmppart_len] = 0;
 
 		part_parse(IP, tmpfields, tmppart, tmppart_len);
 
-- 
2.43.0


From 79177c7ae29912f58cb22594436f36b0fa7e226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:05 +0000
Subject: [PATCH 56/75] fix: look for a file name only in the header of a part
 that has data

---
 ws.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 8b292f9..c56a874 100644
--- a/ws.c
+++ b/ws.c
@@ -209,8 +209,9 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 		if (strlen(tmpfields) > 0)
 			sprintf(tmpfields + strlen(tmpfields), "&");
 
-		long start_file = text_find_after(tmpdata, "; filename=\"", 0, strlen(tmpdata));
-		if (data_start > 0)
+		// The file name is in the part's header. Its data ends in \r\n
+		long start_file = text_find_after(tmpdata, "; filename=\"", 0, data_start);
+		if (data_start > 0 && actuallength - data_start >= 2)
 		{
 			/* Save filename */
 			if (start_file > 0)
-- 
2.43.0


From 255205b2369c417f16cebfc8f4badf38913d0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 57/75] fix: do not write the names of temporary files past the
 end of the form

---
 ws.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/ws.c b/ws.c
index c56a874..d0d9c55 100644
--- a/ws.c
+++ b/ws.c
@@ -234,6 +234,9 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 }
 
 // TODO: Make this work for multiple file downloads
+// Maximum length of "&tmpfile=" with the name of a temporary file
+#define MAX_TMPFILE_FIELD 128
+
 /**
  * save_tmp_file: Saves a file into FILE_DOWNLOAD_TMP_DIR, and stores the file name in tmpfields as well as the original filename
  */
@@ -267,16 +270,29 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 		sprintf(tmpfields + strlen(tmpfields), "&tmpfile=%s", tmpfile);
 }
 
-void multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
+/* Returns the form fields of a multipart body, or NULL if there is no memory for them */
+char *multipart_parse(char *form, char *IP, char *multipart_boundary, long content_length)
 {
 
-	char *tmppart = calloc(content_length + 1, 1);
-	char *tmpfields = calloc(content_length + 1, 1);
-
 	long ptr = 0;
 	long part_start;
 	long part_end;
 
+	// The name of a temporary file adds up to MAX_TMPFILE_FIELD characters to a part
+	size_t fields_size = content_length + 1;
+	while ((ptr = text_find_after(form, multipart_boundary, ptr, content_length)) > 0)
+		fields_size += MAX_TMPFILE_FIELD;
+	ptr = 0;
+
+	char *tmppart = calloc(content_length + 1, 1);
+	char *tmpfields = calloc(fields_size, 1);
+	if (!tmppart || !tmpfields)
+	{
+		free(tmppart);
+		free(tmpfields);
+		return NULL;
+	}
+
 	while (ptr < content_length)
 	{
 
@@ -298,10 +314,8 @@ void multipart_parse(char *form, char *IP, char *multipart_boundary, long conten
 		ptr = part_start + 1;
 	}
 
-	strcpy(form, tmpfields);
-
-	free(tmpfields);
 	free(tmppart);
+	return tmpfields;
 }
 
 void handle_api_request(api_request *req, long content_length, char *multipart_boundary)
@@ -343,8 +357,17 @@ void handle_api_request(api_request *req, long content_length, char *multipart_b
 
 		/* If multipart boundary is at least = "--", then parse multipart */
 		if (strlen(multipart_boundary) >= 2)
-			multipart_parse(req->form, req->IP, multipart_boundary, content_length);
-		
+		{
+			req->form = multipart_parse(body, req->IP, multipart_boundary, content_length);
+			free(body);
+			body = req->form;
+			if (!body)
+			{
+				req->form = "";
+				internal_server_error(req);
+				return;
+			}
+		}
 	}
 	// Delegate request to router
 	router_handle_request(req);
-- 
2.43.0


From a2fe1fe57f2529d8a9c5f998de32572b2626ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 58/75] fix: do not lose an upload when storing an equal one in
 the same request fails

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index d0d9c55..131ff12 100644
--- a/ws.c
+++ b/ws.c
@@ -261,7 +261,8 @@ void save_tmp_file(char *tmpfields, char *field, long start_file, char *tmpdata,
 	char tmpfilepath[strlen(FILE_DOWNLOAD_TMP_DIR) + 264];
 	char md5[36];
 	md5sum(md5, tmpdata + data_start, actuallength - data_start - 2);
-	sprintf(tmpfile, "%lu-%s", pthread_self(), md5);
+	// The position in the form keeps equal uploads of one request apart
+	sprintf(tmpfile, "%lu-%s-%zu", pthread_self(), md5, strlen(tmpfields));
 	sprintf(tmpfilepath, "%s/%s", FILE_DOWNLOAD_TMP_DIR, tmpfile);
 
 	sprintf(tmpfields + strlen(tmpfields), "%s=%s", field, orig_filename);
-- 
2.43.0


From 6af00e80aa47b59a29ed4b0df491122a01084793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 59/75] fix: look for a field name only in the header of a part

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 131ff12..02f81e2 100644
--- a/ws.c
+++ b/ws.c
@@ -211,7 +211,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 
 		// The file name is in the part's header. Its data ends in \r\n
 		long start_file = text_find_after(tmpdata, "; filename=\"", 0, data_start);
-		if (data_start > 0 && actuallength - data_start >= 2)
+		if (data_start > start && actuallength - data_start >= 2)
 		{
 			/* Save filename */
 			if (start_file > 0)
-- 
2.43.0


From a956feec0f0f72701c75dfa91315a44b99bff011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 60/75] fix: announce the real room for a digest byte,
 fortified builds abort on every upload

---
 string_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string_utils.c b/string_utils.c
index bc788bf..ef43bee 100644
--- a/string_utils.c
+++ b/string_utils.c
@@ -123,7 +123,7 @@ void md5sum(char *out, char *data, int len)
   EVP_MD_CTX_free(mdctx);
   
   for (i = 0; i < EVP_MD_size(md); ++i)
-    snprintf(&(md5[i * 2]), EVP_MAX_MD_SIZE * 2 + 1, "%02x", (unsigned int)digest[i]);
+    snprintf(&(md5[i * 2]), 3, "%02x", (unsigned int)digest[i]);
   
   strcpy(out, md5);
   free(md5);
-- 
2.43.0


From 218358bb025cbc4ef67b13c3208474bb4608429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:47 +0000
Subject: [PATCH 61/75] fix: do not free a part of the value when a
 configuration line has too many values

---
 conf_parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conf_parser.c b/conf_parser.c
index c814427..4cc1a22 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -57,7 +57,6 @@ void conf_parse_multi(conf_item *item)
     }
   }
   item->n_multivalues = i;
-  free(tmp_value);
   free(value);
 }
 
-- 
2.43.0


From 2aca8f676503992fc1de59b37b3855c60cf5386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:01 +0000
Subject: [PATCH 62/75] fix: read configuration lines of any length

---
 conf_parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 4cc1a22..5089c96 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -135,8 +135,10 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     perror(errorString);
     return -1;
   }
-  char line[MAX_LINE_LEN];
-  while (fgets(line, sizeof line, file) != NULL)
+  // write_conf() writes lines of any length
+  char *line = NULL;
+  size_t line_size = 0;
+  while (getline(&line, &line_size, file) != -1 && !ferror(file))
   {
     conf_item *item = conf_parse_first_pass(line);
     if (item == NULL)
@@ -144,6 +146,7 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
       char errorString[120];
       snprintf(errorString, sizeof(errorString), "Entity in invalid format, path: %s\n", path);
       perror(errorString);
+      free(line);
       fclose(file);
       return -1;
     }
@@ -159,8 +162,9 @@ int parse(char *path, conf_handler handler, void *output, key_flags flags)
     }
     free_conf_item(item);
   }
-  // fgets also stops when the file cannot be read any further
-  int result = ferror(file) ? -1 : 0;
+  // getline also stops when the file cannot be read any further
+  int result = feof(file) && !ferror(file) ? 0 : -1;
+  free(line);
   fclose(file);
   return result;
 }
-- 
2.43.0


From 2a682c238246ffb9bd3bf1309296f52c61d2e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 63/75] fix: write_file reads past the end of binary data to
 log its length

---
 file_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_utils.c b/file_utils.c
index fad6cc5..2446e78 100644
--- a/file_utils.c
+++ b/file_utils.c
@@ -149,7 +149,7 @@ void read_file(char *out, char *path, uint64_t maxlen)
 
 bool write_file(char *filename, char *ptr, int size)
 {
-  log_debug("write_file(filename=%s, strlen(ptr)=%d, size=%d)", filename, strlen(ptr), size);
+  log_debug("write_file(filename=%s, size=%d)", filename, size);
   if (is_file(filename))
   {
     remove(filename);
-- 
2.43.0


From 0fdb52f58295efbcd159ad5013ab8f6f74aff1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 64/75] fix: return_response prints and frees uninitialised
 pointers when a text is empty

---
 http_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index a5d7a55..838b5ec 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -586,10 +586,10 @@ char *http_get_header(api_request *req, char *name)
 char *return_response(call_response_t rsp)
 {
 	char *aux;
-	char *aux_err;
-	char *aux_txt;
-	char *aux_additional_info;
-	char *aux_description;
+	char *aux_err = NULL;
+	char *aux_txt = NULL;
+	char *aux_additional_info = NULL;
+	char *aux_description = NULL;
 
 	if (rsp.status == -1)
 		asprintf(&aux_err, "\"RSP\":\"FAIL\"");
-- 
2.43.0


From 30bb3c0b0c6e9390ddeb090459dd517cf6b58e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:41 +0000
Subject: [PATCH 65/75] fix: do not listen on another address or port than the
 given one

---
 main.c | 9 ++++++++-
 ws.c   | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 441ed40..6c523b6 100644
--- a/main.c
+++ b/main.c
@@ -57,6 +57,8 @@ int main(int argc, char *argv[])
   // Parse CLI Arguments using getopt
 
   int opt;
+  long port;
+  char *port_end;
   
   while ((opt = getopt(argc, argv, ":b:p:r:hdfv")) != -1)
   {
@@ -85,7 +87,12 @@ int main(int argc, char *argv[])
       strcpy(bind_addr, optarg);
       break;
     case 'p':
-      ws_port = atoi(optarg);
+      port = strtol(optarg, &port_end, 10);
+      if (port_end == optarg || *port_end != 0 || port < 0 || port > UINT16_MAX)
+      {
+        log_fatal("Unable to start, not a port: %s", optarg);
+      }
+      ws_port = port;
       break;
     case 'r':
       if (strlen(optarg) >= ROOT_PATH_MAX)
diff --git a/ws.c b/ws.c
index 02f81e2..d968511 100644
--- a/ws.c
+++ b/ws.c
@@ -1014,6 +1014,12 @@ void ws_launch(int port, char *bind_addr, ws_socket_handler handler)
 	int httpd = 0;
 	struct sockaddr_in name;
 
+	// Do not listen anywhere else than where the service is expected
+	if (port < 0 || port > UINT16_MAX)
+		log_fatal("Not a port: %d", port);
+	if (inet_addr(bind_addr) == INADDR_NONE)
+		log_fatal("Not an IP address: %s", bind_addr);
+
 	httpd = socket(PF_INET, SOCK_STREAM, 0);
 	if (httpd == -1)
 	{
-- 
2.43.0


From 308520211b79429e8f497000f456d5944daaa6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 66/75] fix: write_conf keeps the items when the file cannot be
 opened

---
 conf_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conf_parser.c b/conf_parser.c
index 5089c96..181b959 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -271,6 +271,7 @@ int write_conf(void *input, conf_serializer serializer)
     char errorString[120];
     snprintf(errorString, sizeof(errorString), "Unable to open file %s for writing", s->path);
     perror(errorString);
+    free_serializable(s);
     return -1;
   }
   int result = 0;
-- 
2.43.0


From 9a05539018ed056c9ba6f7870e3c39da1b284980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:56 +0000
Subject: [PATCH 67/75] fix: items with a blank key or value are freed

---
 conf_parser.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 181b959..4c1d7d3 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -87,8 +87,10 @@ conf_item *conf_parse_first_pass(char *line)
     free(line_copy);
     return NULL;
   }
-  result->key = strdup(key);
-  trim(result->key);
+  // free_conf_item() does not free empty strings
+  trim(key);
+  if (strcmp(key, ""))
+    result->key = strdup(key);
   // store the value
   // The value is the rest of the line and may contain the delimiter
   char *value = strtok_r(NULL, "", &saveptr);
@@ -98,10 +100,10 @@ conf_item *conf_parse_first_pass(char *line)
   }
 
   if (strcmp(value, ""))
-  {
     trim(value);
+  if (strcmp(value, ""))
+  {
     result->value = strdup(value);
-    trim(result->value);
   }
   else
   {
-- 
2.43.0


From b693efd576e41651b120ed953e60ac66b023a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:56 +0000
Subject: [PATCH 68/75] fix: serializable_to_string has room for any
 configuration

---
 conf_parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conf_parser.c b/conf_parser.c
index 4c1d7d3..9c7ca45 100644
--- a/conf_parser.c
+++ b/conf_parser.c
@@ -309,12 +309,18 @@ serializable *new_serializable(char *path, conf_item *items[], int n_items)
 
 char *serializable_to_string(serializable *s)
 {
-  char *result = malloc(1024 * sizeof(char));
+  size_t size = strlen(s->path) + 64;
+  char *result = malloc(size);
   sprintf(result, "[path=%s,n_items=%d", s->path, s->n_items);
   for (int i = 0; i < s->n_items; i++)
   {
+    char *item = conf_item_to_string(s->items[i]);
+    // The items are separated
+    size += strlen(item) + 1;
+    result = realloc(result, size);
     strcat(result, ",");
-    strcat(result, conf_item_to_string(s->items[i]));
+    strcat(result, item);
+    free(item);
   }
   strcat(result, "]");
   return result;
-- 
2.43.0


From 7ffdcac5dc7cdfa43275491e554fb4c6e9171ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:57 +0000
Subject: [PATCH 69/75] fix: long texts do not overflow an error

---
 http_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http_utils.c b/http_utils.c
index 838b5ec..14c9469 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -554,8 +554,8 @@ char *wayuu_error_t_json_serializer(wayuu_error_t *error)
 wayuu_error_t *new_error_with_values(char *code, char *message)
 {
 	wayuu_error_t *error = malloc(sizeof(wayuu_error_t));
-	strcpy(error->code, code);
-	strcpy(error->message, message);
+	snprintf(error->code, sizeof(error->code), "%s", code);
+	snprintf(error->message, sizeof(error->message), "%s", message);
 	return error;
 }
 
-- 
2.43.0


From a3482ab9774b135e1a656d6aca322e1fca04b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:28 +0000
Subject: [PATCH 70/75] fix: answer 500 instead of crashing when there is no
 memory for a part of an upload

---
 ws.c | 20 +++++++++++++++++---
 ws.h |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ws.c b/ws.c
index d968511..768339b 100644
--- a/ws.c
+++ b/ws.c
@@ -185,7 +185,8 @@ void configure_context(SSL_CTX *ctx)
 	}
 }
 
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
+/* Returns false if there is no memory for the part */
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 {
 
 	long actuallength = length;
@@ -193,12 +194,14 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 	if (start < 1)
 	{
 		log_warn("IP:%s Multipart error: Form-data not found ", IP);
-		return;
+		return true;
 	}
 
 	if (strlen(tmpdata + start) > 0)
 	{
 		char *field = calloc(actuallength + 1, 1);
+		if (!field)
+			return false;
 		long bytes = actuallength - start;
 
 		memcpy(field, tmpdata + start, bytes);
@@ -223,6 +226,11 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 			else
 			{
 				char *value = calloc(actuallength + 1, 1);
+				if (!value)
+				{
+					free(field);
+					return false;
+				}
 				memcpy(value, tmpdata + data_start, actuallength - data_start - 2);
 				sprintf(tmpfields + strlen(tmpfields), "%s=%s", field, value);
 				free(value);
@@ -231,6 +239,7 @@ void part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 
 		free(field);
 	}
+	return true;
 }
 
 // TODO: Make this work for multiple file downloads
@@ -309,7 +318,12 @@ char *multipart_parse(char *form, char *IP, char *multipart_boundary, long conte
 		// The previous part may have been longer
 		tmppart[tmppart_len] = 0;
 
-		part_parse(IP, tmpfields, tmppart, tmppart_len);
+		if (!part_parse(IP, tmpfields, tmppart, tmppart_len))
+		{
+			free(tmppart);
+			free(tmpfields);
+			return NULL;
+		}
 
 		trim(tmppart);
 		ptr = part_start + 1;
diff --git a/ws.h b/ws.h
index f3c0cdb..6f24c41 100644
--- a/ws.h
+++ b/ws.h
@@ -98,7 +98,7 @@ void handle_static_routes(api_request *req);
 /**
  * part_parse: Handles parsing each of the parts of a multipart POST
  */
-void part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
+bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length);
 
 /**
  * save_tmp_file: Saves a file into SCAN_TMP_DIR, and stores the file name in tmpfields as well as the original filename
-- 
2.43.0


From 8aab8b2b4d003289e7d42d4f70c2c511ca456dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:17 +0000
Subject: [PATCH 71/75] fix: answer 500 instead of crashing when there is no
 memory to append a route's parameter

---
 router.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/router.c b/router.c
index 2b24b65..e11711c 100644
--- a/router.c
+++ b/router.c
@@ -145,6 +145,13 @@ void router_handle_request(api_request *request)
       {
         // The body is not large enough for the parameter: build a new string. The caller still owns the body.
         char *form = malloc(strlen(request->form) + strlen(qs) + 2);
+        if (form == NULL)
+        {
+          log_error("IP:%s No memory for the parameters of %s", request->IP, request->path);
+          free(qs);
+          internal_server_error(request);
+          return;
+        }
         sprintf(form, "%s&%s", request->form, qs);
         request->form = form;
       }
-- 
2.43.0


From bfb0df2586265b36f4f90954a5edabc1a5278a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 72/75] fix: do not overflow the buffer of send_http_status
 with a long message

---
 http_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http_utils.c b/http_utils.c
index 14c9469..f656a09 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -476,7 +476,6 @@ void send_http_status(api_request *req, int status, char *message)
 		char contentLength[100];
 		sprintf(contentLength, "Content-Length: %zu%s%s", strlen(message) + 2, CRLF, CRLF);
 		strcat(buf, contentLength);
-		strcat(buf, message);
 	}
 	else
 	{
@@ -484,6 +483,9 @@ void send_http_status(api_request *req, int status, char *message)
 	}
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
+	// The message may be longer than the buffer
+	http_print_str(req, message);
+	req->response_length += strlen(message);
 	strcpy(buf, "\r\n");
 	http_print_str(req, buf);
 	req->response_length += strlen(buf);
-- 
2.43.0


From b0320859bd50823026f3a3506dba0e213aef121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 73/75] fix: ignore a JSON response with an unknown status
 instead of sending it without headers

---
 http_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http_utils.c b/http_utils.c
index f656a09..53d0330 100644
--- a/http_utils.c
+++ b/http_utils.c
@@ -368,6 +368,9 @@ int return_headers_with_mime(api_request *req, int status, char *mime)
 void return_json_stream(api_request *req, int status, FILE *fp)
 {
 	int len = return_json_headers(req, status);
+	// As in send_http_status(), an unknown status is ignored
+	if (len == 0)
+		return;
 	char buf[1024];
 	strcpy(buf, "\r\n");
 	http_print(req, buf, strlen(buf));
@@ -379,6 +382,9 @@ void return_json_stream(api_request *req, int status, FILE *fp)
 void return_json_with_status(api_request *req, int status, char *data)
 {
 	int len = return_json_headers(req, status);
+	// As in send_http_status(), an unknown status is ignored
+	if (len == 0)
+		return;
 
 	char buf[1024];
 	sprintf(buf, "Content-Length: %zu\r\n\r\n", strlen(data) + 2);
-- 
2.43.0


From ed1c935c62621f98a9137dc18c85d20f489d9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 74/75] fix: do not start without the thread that enforces the
 maximum seconds

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 768339b..2e9b8ad 100644
--- a/ws.c
+++ b/ws.c
@@ -614,7 +614,7 @@ static void watchdog_launch()
 		{
 			pthread_t thread;
 			if (pthread_create(&thread, NULL, connections_watchdog, NULL) != 0)
-				log_error("Unable to start the thread that drops connections");
+				log_fatal("Unable to start the thread that drops connections");
 			return;
 		}
 	}
-- 
2.43.0


From b39d67930c52acb9d7b1813e69eba7a5e9a0fc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:45 +0000
Subject: [PATCH 75/75] fix: do not reset a connection with unread input, which
 loses the end of its response

---
 ws.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ws.c b/ws.c
index 2e9b8ad..5f04b96 100644
--- a/ws.c
+++ b/ws.c
@@ -243,6 +243,8 @@ bool part_parse(char *IP, char *tmpfields, char *tmpdata, long length)
 }
 
 // TODO: Make this work for multiple file downloads
+// Unread bytes that are thrown away at most when a connection is closed
+#define MAX_DISCARDED_INPUT (16 * 1024 * 1024)
 // Maximum length of "&tmpfile=" with the name of a temporary file
 #define MAX_TMPFILE_FIELD 128
 
@@ -508,6 +510,21 @@ bool connection_validate(char *IP, char *path)
 	return true;
 }
 
+/* Throws away what the client sent and nothing has read (a body that nobody wants, a second request).
+ * Closing a connection with unread bytes resets it, and the client would lose the end of its response. */
+static void discard_input(int socket)
+{
+	char buf[4096];
+	ssize_t n;
+	long total = 0;
+	do
+	{
+		n = recv(socket, buf, sizeof(buf), MSG_DONTWAIT);
+		if (n > 0)
+			total += n;
+	} while ((n > 0 && total < MAX_DISCARDED_INPUT) || (n < 0 && errno == EINTR));
+}
+
 void connection_close(api_request *req)
 {
 	if (WAYUU_SSL_ON && req->ssl)
@@ -515,6 +532,7 @@ void connection_close(api_request *req)
 		SSL_shutdown(req->ssl);
 		SSL_free(req->ssl);
 	}
+	discard_input(req->socket);
 	// Once closed, the descriptor may be given to another connection
 	connection_del(req->socket);
 	close(req->socket);
-- 
2.43.0

