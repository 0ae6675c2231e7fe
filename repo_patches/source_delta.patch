From 02a0430b7fc3784fe1f807cb8c4d503beb9db9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 01/40] fix: frames of a message after the first one are
 continuation frames

---
 src/frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..2c5049e 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -534,7 +534,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 583116efd9ad2f8f713f8c3713e3c3ffc958459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 02/40] fix: the reason of a close message is taken by its
 length, not as a null terminated string

---
 src/frame.c | 67 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 2c5049e..d3dd62a 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -466,6 +466,43 @@ size_t WSS_stringify_frames(wss_frame_t **frames, size_t size, char **message) {
     return message_length;
 }
 
+/**
+ * Creates a closing frame given a code and a reason of a certain length.
+ *
+ * @param   code     [wss_close_t]      "The code of the closure"
+ * @param   reason   [char *]           "The reason for the closure, which need not be null terminated"
+ * @param   length   [size_t]           "The length of the reason"
+ * @return 		     [wss_frame_t *]    "A websocket frame"
+ */
+static wss_frame_t *closing_frame(wss_close_t code, char *reason, size_t length) {
+    wss_frame_t *frame;
+    uint16_t nbo_code;
+
+    if ( unlikely(NULL == (frame = WSS_malloc(sizeof(wss_frame_t)))) ) {
+        WSS_log_error("Unable to allocate closing frame");
+        return NULL;
+    }
+
+    frame->fin = 1;
+    frame->opcode = CLOSE_FRAME;
+    frame->mask = 0;
+
+    frame->applicationDataLength = length+sizeof(uint16_t);
+    if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength+1))) ) {
+        WSS_log_error("Unable to allocate closing frame application data");
+        WSS_free_frame(frame);
+        return NULL;
+    }
+    nbo_code = htons16(code);
+    memcpy(frame->payload, &nbo_code, sizeof(uint16_t));
+    memcpy(frame->payload+sizeof(uint16_t), reason, length);
+
+    frame->payloadLength += frame->extensionDataLength;
+    frame->payloadLength += frame->applicationDataLength;
+
+    return frame;
+}
+
 /**
  * Creates a series of frames from a message.
  *
@@ -483,6 +520,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     wss_frame_t **frames;
     wss_close_t code;
     char *msg = message;
+    size_t msg_length = 0;
 
     if ( unlikely(NULL == config) ) {
         *fs = NULL;
@@ -509,6 +547,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             memcpy(&code, msg, sizeof(uint16_t));
             code = ntohs(code);
             msg = msg + sizeof(uint16_t);
+            msg_length = message_length - sizeof(uint16_t);
         } else if ( unlikely(message_length == 1) ) {
             code = CLOSE_PROTOCOL;
             msg = msg + 1;
@@ -516,7 +555,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        frame = (NULL == msg) ? WSS_closing_frame(code, NULL) : closing_frame(code, msg, msg_length);
         frames[0] = frame;
         return 1;
     }
@@ -568,21 +607,10 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
  * @return 		     [wss_frame_t *]    "A websocket frame"
  */
 wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message) {
-    wss_frame_t *frame;
-    uint16_t nbo_reason;
     char *reason_str = message;
 
     WSS_log_trace("Creating closing frame");
 
-    if ( unlikely(NULL == (frame = WSS_malloc(sizeof(wss_frame_t)))) ) {
-        WSS_log_error("Unable to allocate closing frame");
-        return NULL;
-    }
-
-    frame->fin = 1;
-    frame->opcode = CLOSE_FRAME;
-    frame->mask = 0;
-
     if (NULL == reason_str) {
         switch (reason) {
             case CLOSE_NORMAL:
@@ -632,24 +660,11 @@ wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message) {
                 break;
             default:
                 WSS_log_error("Unknown closing reason");
-                WSS_free_frame(frame);
                 return NULL;
         }
     }
-    frame->applicationDataLength = strlen(reason_str)+sizeof(uint16_t);
-    if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength+1))) ) {
-        WSS_log_error("Unable to allocate closing frame application data");
-        WSS_free_frame(frame);
-        return NULL;
-    }
-    nbo_reason = htons16(reason);
-    memcpy(frame->payload, &nbo_reason, sizeof(uint16_t));
-    memcpy(frame->payload+sizeof(uint16_t), reason_str, strlen(reason_str));
 
-    frame->payloadLength += frame->extensionDataLength;
-    frame->payloadLength += frame->applicationDataLength;
-
-    return frame;
+    return closing_frame(reason, reason_str, strlen(reason_str));
 }
 
 /**
-- 
2.43.0


From ce029d205703e8c3109b193dfd5323d935b68d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 03/40] fix: heap overflow while loading extensions and
 subprotocols

The buffer for the name of the Python entry point has no room for the suffix
of the file name.
---
 src/extensions.c   | 2 +-
 src/subprotocols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..0efae5c 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,7 +140,7 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name); 
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..77c1795 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,7 +130,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name); 
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
-- 
2.43.0


From ae18cc417a002bfcabf16ece25ee991aa15a8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 04/40] fix: a worker does not touch a session after
 disconnecting it

The session was released by WSS_disconnect and then asked which event it waits
for. It also stays a job of the worker until it has been rearmed, such that it
cannot be released by another thread in between.
---
 src/worker.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index e98b6ac..1ff490b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1513,12 +1513,12 @@ void WSS_work(void *args) {
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
-
     if (session->closing) {
         session->event = NONE;
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
         WSS_disconnect(server, session);
+        return;
     }
 
     switch (session->event) {
@@ -1533,4 +1533,7 @@ void WSS_work(void *args) {
         case NONE: 
             break;
     }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
 }
-- 
2.43.0


From 3af4932f2606561f41392d362458d49aaf5dd62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 05/40] fix: the close of a connection is reported to the
 subprotocol once

---
 src/server.c  | 5 +----
 src/session.c | 6 ++++--
 src/worker.c  | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/server.c b/src/server.c
index 0cdca9d..2c0d691 100644
--- a/src/server.c
+++ b/src/server.c
@@ -129,10 +129,7 @@ static void cleanup_session(wss_session_t *session) {
 
         WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
 
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-        }
+        session->header->ws_protocol->close(session->fd);
 
         WSS_log_trace("Removing poll filedescriptor from eventlist");
 
diff --git a/src/session.c b/src/session.c
index d3a1039..ff2260e 100644
--- a/src/session.c
+++ b/src/session.c
@@ -186,8 +186,6 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
-
             WSS_free_header(session->header);
         }
 
@@ -285,6 +283,10 @@ wss_error_t WSS_session_delete_all() {
     err = WSS_SUCCESS;
 
     HASH_ITER(hh, sessions, session, tmp) {
+        if ( session->handshaked ) {
+            session->header->ws_protocol->close(session->fd);
+        }
+
         tmp_err = session_delete(session);
         if ( likely(err == WSS_SUCCESS) ) {
             err = tmp_err;
diff --git a/src/worker.c b/src/worker.c
index 1ff490b..3da690e 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -415,7 +415,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
 
-    if ( NULL != session->header && session->header->ws_protocol != NULL ) {
+    if ( session->handshaked ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
     }
-- 
2.43.0


From c7aae95926835a3d29f8d6ef7ce620f895473ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 06/40] fix: a frame announcing a length near 2^64 is
 incomplete, not invalid

Adding the length to the offset wrapped around, such that the frame appeared
to be complete; a failing allocation also leaked the frame.
---
 src/frame.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index d3dd62a..806999c 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -296,6 +296,8 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
             if ( likely(*offset+sizeof(uint16_t) <= length) ) {
                 memcpy(&frame->payloadLength, payload+*offset, sizeof(uint16_t));
                 frame->payloadLength = htons16(frame->payloadLength);
+            } else {
+                frame->payloadLength = 0;
             }
             *offset += sizeof(uint16_t);
             break;
@@ -303,6 +305,8 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
             if ( likely(*offset+sizeof(uint64_t) <= length) ) {
                 memcpy(&frame->payloadLength, payload+*offset, sizeof(uint64_t));
                 frame->payloadLength = htonl64(frame->payloadLength);
+            } else {
+                frame->payloadLength = 0;
             }
             *offset += sizeof(uint64_t);
             break;
@@ -317,15 +321,22 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The announced length can exceed what an offset can hold
+        if ( unlikely(frame->applicationDataLength > SIZE_MAX-*offset) ) {
+            *offset = SIZE_MAX;
+        } else {
+            *offset += frame->applicationDataLength;
+        }
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From fa946f1ececdd4a1afcc7459da9e3f5db795e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 07/40] fix: what was received completely is handled although
 more is missing

With an incomplete frame or an unfinished fragmented message at the end of the
data, complete messages and control frames before it were not handled until
the rest arrived. A frame larger than allowed is refused as soon as its length
is known. The limit on the number of frames is applied to each message instead
of to everything that happened to be read at once. The frames and the buffer
are released on all paths.
---
 include/session.h |   2 -
 src/session.c     |   2 +-
 src/worker.c      | 108 +++++++++++++++++++++++++++++-----------------
 3 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/include/session.h b/include/session.h
index 3055e46..1e1ebdf 100644
--- a/include/session.h
+++ b/include/session.h
@@ -89,8 +89,6 @@ typedef struct {
     char *payload;
     // The size of the temporarily payload
     size_t payload_length;
-    // The offset into the payload where the next frame should be read from
-    size_t offset;
     // If not all frames was read, store the frames temporarily
     wss_frame_t **frames;
     // The size of the temporarily frames
diff --git a/src/session.c b/src/session.c
index ff2260e..2e015c0 100644
--- a/src/session.c
+++ b/src/session.c
@@ -176,7 +176,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
diff --git a/src/worker.c b/src/worker.c
index 3da690e..f58a2fe 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -846,6 +846,22 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     }
 }
 
+/**
+ * Releases an array of frames.
+ *
+ * @param 	frames      [wss_frame_t **] 	"The frames"
+ * @param 	length      [size_t] 	        "The amount of frames"
+ * @return              [void]
+ */
+static void free_frames(wss_frame_t **frames, size_t length) {
+    size_t i;
+
+    for (i = 0; likely(i < length); i++) {
+        WSS_free_frame(frames[i]);
+    }
+    WSS_free((void **) &frames);
+}
+
 /**
  * Function that reads information from a session.
  *
@@ -872,6 +888,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t pending = 0;
     bool fragmented = false;
     char *buffer;
 
@@ -894,12 +911,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Use earlier payload
     payload = session->payload;
     payload_length = session->payload_length;
-    offset = session->offset;
     frames = session->frames;
     frames_length = session->frames_length;
     session->payload = NULL;
     session->payload_length = 0;
-    session->offset = 0;
     session->frames = NULL;
     session->frames_length = 0;
 
@@ -914,13 +929,18 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->frames = frames;
+                session->frames_length = frames_length;
+                WSS_free((void **) &buffer);
 
                 session->event = WRITE;
 
                 return;
             // An error occured
             case -1:
+                WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
+                free_frames(frames, frames_length);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
                 message_length = WSS_stringify_frame(frame, &message);
@@ -949,6 +969,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             default:
                 if ( unlikely(NULL == (payload = WSS_realloc((void **) &payload, payload_length*sizeof(char), (payload_length+n+1)*sizeof(char)))) ) {
                     WSS_log_error("Unable to reallocate the payload");
+                    WSS_free((void **) &buffer);
+                    free_frames(frames, frames_length);
                     session->closing = true;
                     return;
                 }
@@ -966,30 +988,25 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
-    do {
+    while ( likely(offset < payload_length) ) {
         prev_offset = offset;
 
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
+            free_frames(frames, frames_length);
             WSS_free((void **) &payload);
             session->closing = true;
             return;
         }
 
-        // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // Check if we were forced to read beyond the payload to create a full
+        // frame. If the frame is too large anyway, there is no need to wait.
+        if ( unlikely(offset > payload_length && frame->payloadLength <= server->config->size_frame) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
-
-            session->payload = payload;
-            session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
-
-            return;
+            offset = prev_offset;
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
@@ -1100,22 +1117,22 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         frames[frames_length] = frame;
         frames_length += 1;
 
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
-            WSS_free_frame(frame);
-            frame = WSS_closing_frame(CLOSE_BIG, NULL);
-            frames[frames_length-1] = frame;
-        }
-
         // Close
         if ( unlikely(frame->opcode == CLOSE_FRAME) ) {
             closing = true;
             WSS_log_trace("Stopping frame validation as closing frame was parsed");
             break;
         }
-    } while ( likely(offset < payload_length) );
+    }
 
-    WSS_free((void **) &payload);
+    // Store the beginning of an incomplete frame until the rest of it arrives
+    if ( ! closing && offset < payload_length ) {
+        memmove(payload, payload+offset, payload_length-offset);
+        session->payload = payload;
+        session->payload_length = payload_length-offset;
+    } else {
+        WSS_free((void **) &payload);
+    }
 
     WSS_log_trace("A total of %lu frames was parsed.", frames_length);
 
@@ -1192,21 +1209,31 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             fragmented = true;
         }
 
+        // Check if frame count of the message is exceeded
+        if ( unlikely(i-starting_frame+1 > server->config->max_frames) ) {
+            WSS_log_trace("Message consists of too many frames");
+            for (j = starting_frame; likely(j < frames_length); j++) {
+                WSS_free_frame(frames[j]);
+            }
+            frames[starting_frame] = WSS_closing_frame(CLOSE_BIG, NULL);
+            frames_length = starting_frame+1;
+            fragmented = false;
+            closing = true;
+            break;
+        }
+
         if (frames[i]->fin) {
             fragmented = false;
         }
     }
 
-    // If fragmented is still true, we did not receive the whole message, and
-    // we hence want to wait until we get the rest.
+    // If fragmented is still true, we did not receive the whole last message.
+    // We hence want to keep its frames until we get the rest.
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
-
-        return;
+        pending = frames_length-starting_frame;
+        frames_length = starting_frame;
     }
 
     WSS_log_trace("Frames was validated");
@@ -1255,10 +1282,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
                 WSS_log_error("Unable to allocate message");
 
-                for (k = 0; likely(k < frames_length); k++) {
-                    WSS_free_frame(frames[k]);
-                }
-                WSS_free((void **) &frames);
+                free_frames(frames, frames_length+pending);
 
                 session->closing = true;
 
@@ -1276,11 +1300,12 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
                 WSS_log_trace("UTF8 Error: the text was not UTF8 encoded correctly");
 
-                for (j = starting_frame; likely(j < frames_length); j++) {
+                for (j = starting_frame; likely(j < frames_length+pending); j++) {
                     WSS_free_frame(frames[j]);
                 }
                 frames[starting_frame] = WSS_closing_frame(CLOSE_UTF8, NULL);
                 frames_length = starting_frame+1;
+                pending = 0;
                 i = starting_frame;
                 len = 1;
                 WSS_free((void **) &msg);
@@ -1306,10 +1331,15 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
+    for (i = 0; likely(i < frames_length); i++) {
+        WSS_free_frame(frames[i]);
+    }
+
+    if ( unlikely(pending > 0) ) {
+        memmove(frames, frames+frames_length, pending*sizeof(wss_frame_t *));
+        session->frames = frames;
+        session->frames_length = pending;
+    } else {
         WSS_free((void **) &frames);
     }
 
-- 
2.43.0


From 146beed161dac968fa9d108397428e2955e24931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 08/40] fix: a connection closes after its close frame was
 written in several parts

The close frame was only noticed when it was written in one go. Messages
queued behind it were dropped from the queue without being released.
---
 src/worker.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index f58a2fe..1e8f470 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1370,23 +1370,19 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
     while ( likely(0 != (len = ringbuf_consume(session->ringbuf, &off))) ) {
         for (i = 0; likely(i < len); i++) {
-            if ( unlikely(session->handshaked && closing) ) {
-                WSS_log_trace("No further messages are necessary as client connection is closing");
-                break;
-            }
-
-            bytes_sent = session->written;
-            session->written = 0;
             message = session->messages[off+i];
             message_length = message->length;
+            bytes_sent = session->written;
+            session->written = 0;
 
-            while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
-                    closing = true;
-                }
+            if ( unlikely(closing) ) {
+                WSS_log_trace("No further messages are necessary as client connection is closing");
+                bytes_sent = message_length;
+            } else if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
+                closing = true;
+            }
 
+            while ( likely(bytes_sent < message_length) ) {
                 if (NULL != session->ssl) {
                     if (! WSS_ssl_write_partial(session, i, message, &bytes_sent)) {
                         return;
-- 
2.43.0


From 05c36b4fc2e35de953280de52091999b91ccea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 09/40] fix: an interrupted read is repeated

It was taken for a failure and ended the connection.
---
 src/worker.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 1e8f470..337b94f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -593,18 +593,16 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     } else {
         do {
             n = read(session->fd, buffer, server->config->size_buffer);
-            if (n == -1) {
-                if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
-                    continue;
-                } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
-                    WSS_log_error("Read failed: %s", strerror(errno));
-                    session->closing = true;
-                } else {
-                    n = 0;
-                }
+        } while ( unlikely(n == -1 && errno == EINTR) );
+
+        if (n == -1) {
+            if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
+                WSS_log_error("Read failed: %s", strerror(errno));
+                session->closing = true;
+            } else {
+                n = 0;
             }
-        } while ( unlikely(0) );
+        }
     }
 
     return n;
-- 
2.43.0


From d1576be97fb1f0ec004cf2b87a8ac462a4b877f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 10/40] fix: sessions are served by one worker, released after
 their last use, and resumed

A session is looked up and marked as used in one step, removed from the table
before it is released, and its lock is not held while the subprotocol runs, so
two workers sending to each other's clients do not wait for each other. What
another connection could only send in part is continued when the client reads
on. The end of a client's data is acted upon after the data. Pings and the close
frame of a timed out client go through the message queue.
---
 include/session.h |  31 +++--
 include/ssl.h     |  13 +--
 include/worker.h  |   3 +-
 src/message.c     |  72 ++++++------
 src/server.c      | 148 ++++++------------------
 src/session.c     | 116 ++++++++++++-------
 src/ssl.c         |  87 ++++----------
 src/worker.c      | 286 ++++++++++++++++++----------------------------
 8 files changed, 305 insertions(+), 451 deletions(-)

diff --git a/include/session.h b/include/session.h
index 1e1ebdf..4a199af 100644
--- a/include/session.h
+++ b/include/session.h
@@ -51,8 +51,12 @@ typedef struct {
     void *ssl;
     // Whether session has been SSL handshaked
     bool ssl_connected;
+    // Whether the client will not send any more
+    bool eof;
     // Whether the session is closing
     bool closing;
+    // Whether a worker is currently serving the session
+    bool busy;
     // Whether the session has begun disconnecting
     bool disconnecting;
     // Lock that ensures disconnecting check is done atomically
@@ -81,6 +85,8 @@ typedef struct {
     int messages_count;
     // Store the lastest activity of the session
     struct timespec alive;
+    // Store since when the session waits for its next event
+    struct timespec waiting;
     // Store pong application data if a ping was sent to the session
     char *pong;
     // Length of the pong application data
@@ -124,18 +130,17 @@ wss_error_t WSS_session_destroy_lock();
 wss_session_t *WSS_session_add(int fd, char* ip, int port);
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable but without locking the hashtable. This should only be used in
- * conjunction with the WSS_session_all call.
+ * Function that removes the session from the hashtable, such that it can no
+ * longer be found.
  *
- * @param 	session	[wss_session_t *] 	"The session to be deleted"
+ * @param 	session	[wss_session_t *] 	"The session to be removed"
  * @return 		    [wss_error_t] 	    "The error status"
  */
-wss_error_t WSS_session_delete_no_lock(wss_session_t *session);
+wss_error_t WSS_session_remove(wss_session_t *session);
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable.
+ * Function that frees the memory of a session, which has been removed from the
+ * hashtable and is not used by any job.
  *
  * @param 	session	[wss_session_t *] 	"The session to be deleted"
  * @return 		    [wss_error_t] 	    "The error status"
@@ -150,20 +155,22 @@ wss_error_t WSS_session_delete(wss_session_t *session);
 wss_error_t WSS_session_delete_all();
 
 /**
- * Function that finds all sessions and calls callback for each of them.
+ * Function that calls callback for each of the sessions. The callback is given
+ * a job on the session, which it has to end.
  *
- * @param   callback       [void (*callback)(wss_session_t *, void *)]    "A callback to be called for each session"
- * @return                 [wss_error_t] 	                              "The error status"
+ * @param   callback       [void (*callback)(wss_session_t *)]    "A callback to be called for each session"
+ * @return                 [wss_error_t] 	                      "The error status"
  */
 wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
 
 /**
- * Function that finds a session using the filedescriptor of the session.
+ * Function that finds a session using the filedescriptor of the session and
+ * starts a job on it, such that it is not deleted until the job ends.
  *
  * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
  * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
  */
-wss_session_t *WSS_session_find(int fd);
+wss_session_t *WSS_session_acquire(int fd);
 
 /**
  * Function that increments the job counter atomically.
diff --git a/include/ssl.h b/include/ssl.h
index 6e55b39..491916d 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -74,16 +74,6 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer);
  */
 bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, wss_message_t *message, unsigned int* bytes_sent);
 
-/**
- * Function that performs a ssl write to the connecting client.
- *
- * @param   session        [wss_session_t *]   "The connecting client session"
- * @param   message        [char *]            "The message"
- * @param   message_length [size_t]            "The message length"
- * @return                 [void]
- */
-void WSS_ssl_write(wss_session_t *session, char *message, unsigned int message_length);
-
 /**
  * Function initializes SSL session instance that can be used to serve over https.
  *
@@ -97,10 +87,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session);
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock);
+wss_error_t WSS_session_ssl_free(wss_session_t *session);
 
 /**
  * Function creates a sha1 hash of the key.
diff --git a/include/worker.h b/include/worker.h
index 8443cfd..67fc04a 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -73,7 +73,8 @@ typedef struct {
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must hold a job on the session, which is ended here,
+ * but none of its locks.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
diff --git a/src/message.c b/src/message.c
index 6e45c1d..5c31f97 100644
--- a/src/message.c
+++ b/src/message.c
@@ -19,10 +19,19 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     uint64_t out_length;
     wss_message_t *m;
     ringbuf_worker_t *w = NULL;
-    struct timespec tim;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    pthread_mutex_lock(&session->lock);
+
+    if ( unlikely(! session->handshaked || session->closing) ) {
+        WSS_log_trace("Session is not able to receive messages");
+
+        pthread_mutex_unlock(&session->lock);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -40,6 +49,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        pthread_mutex_unlock(&session->lock);
+
         return;
     }
 
@@ -48,6 +59,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        pthread_mutex_unlock(&session->lock);
+
         return;
     }
     m->msg = out;
@@ -61,42 +74,31 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        pthread_mutex_unlock(&session->lock);
+
         return;
     }
 
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
+
+    // If earlier messages are still waiting to be written, so does this one
+    if ( likely(session->state != WRITING) ) {
+        WSS_write(server, session);
+
+        // A worker that is serving the session looks after it itself
+        if ( unlikely(! session->busy && (session->state == WRITING || session->closing)) ) {
+            clock_gettime(CLOCK_MONOTONIC, &session->waiting);
+
+            if ( unlikely(session->event == READ && ! session->closing) ) {
+                WSS_poll_set_read(server, session->fd);
+            } else {
+                WSS_poll_set_write(server, session->fd);
+            }
         }
-    } while (1);
+    }
+
+    pthread_mutex_unlock(&session->lock);
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -106,14 +108,12 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
-    if (NULL != session->ssl && session->ssl_connected) {
+    if (NULL != session->ssl) {
         server = servers.https;
     }
 
@@ -127,6 +127,8 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
         WSS_free_frame(frames[k]);
     }
     WSS_free((void **) &frames);
+
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_free(wss_message_t *msg) {
diff --git a/src/server.c b/src/server.c
index 2c0d691..03535fd 100644
--- a/src/server.c
+++ b/src/server.c
@@ -34,135 +34,51 @@ wss_server_state_t state;
  */
 wss_servers_t servers;
 
-/**
- * Global variable holding current timestamp 
- */
-struct timespec now;
-
-static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
-    size_t j;
-    char *message;
-    size_t message_length;
-    int n = 0;
-    int fd = session->fd;
-
-    // Use extensions
-    for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
-        session->header->ws_extensions[j]->ext->outframes(
-                fd,
-                &frame,
-                1);
-
-        session->header->ws_extensions[j]->ext->outframe(
-                fd,
-                frame);
-    }
-
-    if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
-        WSS_log_fatal("Unable to represent frame as bytes");
-        WSS_free_frame(frame);
-        return;
-    }
-
-    WSS_free_frame(frame);
-
-    if (session->ssl_connected) {
-        WSS_ssl_write(session, message, message_length);
-    } else {
-        size_t written = 0;
-        do {
-            n = write(fd, message+written, message_length-written);
-            if ( unlikely(n < 0) ) {
-                if ( likely(errno == EINTR) ) {
-                    errno = 0;
-                    n = 0;
-                    continue;
-                }
-                break;
-            }
-            written += n;
-        } while ( written < message_length );
-    }
-
-    WSS_free((void **) &message);
-}
-
 static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
     wss_frame_t *frame;
-    long unsigned int ms;
-    int fd = session->fd;
+    struct timespec now;
+    long int ms;
     wss_server_t *server = servers.http;
-    bool dc;
 
-    if (! session->handshaked) {
-        return;
+    if (NULL != session->ssl) {
+        server = servers.https;
     }
 
-    if (NULL != session->ssl && session->ssl_connected) {
-        server = servers.https;
+    pthread_mutex_lock(&session->lock);
+
+    if ( session->closing || ! session->handshaked ) {
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+        return;
     }
 
-    ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    ms = (now.tv_sec - session->alive.tv_sec)*1000 + (now.tv_nsec - session->alive.tv_nsec)/1000000;
 
     WSS_log_info("Check timeout %d ms", ms);
 
     // Session timed out
-    if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
-        WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
+    if ( unlikely(server->config->timeout_client >= 0 && ms >= server->config->timeout_client) ) {
+        WSS_log_info("Session %d has timedout last active %d ms ago", session->fd, ms);
 
-        session->closing = true;
-        session->state = CLOSING;
-
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
-
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
-
-        session->header->ws_protocol->close(session->fd);
-
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
-
-        WSS_poll_remove(server, fd);
-
-        WSS_log_trace("Sending close frame", fd);
+        WSS_log_trace("Sending close frame", session->fd);
 
         frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
 
-        write_control_frame(frame, session);
+        WSS_message_send_frames(server, session, &frame, 1);
 
-        WSS_log_trace("Deleting client session");
+        WSS_free_frame(frame);
 
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
-            }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
-        }
+        session->closing = true;
+
+        pthread_mutex_unlock(&session->lock);
 
-        WSS_log_info("Client with session %d disconnected", fd);
+        WSS_disconnect(server, session);
 
+        return;
     // Ping session to keep it alive
     } else if (server->config->timeout_pings > 0 ) {
-        WSS_log_info("Pinging session %d", fd);
+        WSS_log_info("Pinging session %d", session->fd);
 
         frame = WSS_ping_frame();
         if (session->pong != NULL) {
@@ -170,16 +86,19 @@ static void cleanup_session(wss_session_t *session) {
             session->pong_length = 0;
         }
 
-        if (NULL == (session->pong = WSS_malloc(frame->applicationDataLength))) {
-            WSS_free_frame(frame);
-            return;
-        }
-        session->pong_length = frame->applicationDataLength;
+        if ( likely(NULL != (session->pong = WSS_malloc(frame->applicationDataLength))) ) {
+            session->pong_length = frame->applicationDataLength;
+
+            memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
 
-        memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+            WSS_message_send_frames(server, session, &frame, 1);
+        }
 
-        write_control_frame(frame, session);
+        WSS_free_frame(frame);
     }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_session_jobs_dec(session);
 }
 
 /**
@@ -246,7 +165,6 @@ void *WSS_cleanup() {
         } else if ( likely(n == 0) ) {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
-            clock_gettime(CLOCK_MONOTONIC, &now);
             if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
diff --git a/src/session.c b/src/session.c
index 2e015c0..67f7b1a 100644
--- a/src/session.c
+++ b/src/session.c
@@ -69,12 +69,15 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     WSS_log_trace("Adding session");
 
-    if ( unlikely(NULL != (session = WSS_session_find(fd))) ) {
+    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return NULL;
     }
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+    HASH_FIND_INT(sessions, &fd, session);
+
+    if ( unlikely(NULL != session) ) {
+        pthread_rwlock_unlock(&lock);
         return NULL;
     }
 
@@ -88,7 +91,10 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
+        pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
@@ -118,6 +124,17 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_cond_init(&session->cond_jobs, NULL)) != 0) ) {
+        WSS_log_error("Unable to initialize session job condition: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
@@ -128,6 +145,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
         pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_cond_destroy(&session->cond_jobs);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
         pthread_rwlock_unlock(&lock);
@@ -148,7 +166,6 @@ static wss_error_t session_delete(wss_session_t *session) {
     size_t j;
 
     if ( likely(NULL != session) ) {
-        pthread_mutex_unlock(&session->lock);
         if ( unlikely((err = pthread_mutex_destroy(&session->lock)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
@@ -165,6 +182,10 @@ static wss_error_t session_delete(wss_session_t *session) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_cond_destroy(&session->cond_jobs)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         WSS_log_trace("Free ip string");
         WSS_free((void **) &session->ip);
 
@@ -202,13 +223,9 @@ static wss_error_t session_delete(wss_session_t *session) {
         WSS_free((void **) &session->ringbuf);
 
         if (NULL != session->ssl) {
-            err = WSS_session_ssl_free(session, &lock);
+            err = WSS_session_ssl_free(session);
         }
 
-        WSS_log_trace("Deleting client from hash table");
-
-        HASH_DEL(sessions, session);
-
         WSS_log_trace("Closing client filedescriptor");
         if ( unlikely(close(session->fd) < 0) ) {
             WSS_log_error("Unable to close clients filedescriptor: %s", strerror(err));
@@ -223,45 +240,40 @@ static wss_error_t session_delete(wss_session_t *session) {
 }
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable but without locking the hashtable. This should only be used in
- * conjunction with the WSS_session_all call.
+ * Function that removes the session from the hashtable, such that it can no
+ * longer be found.
  *
- * @param 	session	[wss_session_t *] 	"The session to be deleted"
+ * @param 	session	[wss_session_t *] 	"The session to be removed"
  * @return 		    [wss_error_t] 	    "The error status"
  */
-wss_error_t WSS_session_delete_no_lock(wss_session_t *session) {
-    wss_error_t err;
+wss_error_t WSS_session_remove(wss_session_t *session) {
+    int err;
 
-    WSS_log_trace("Deleting session");
+    WSS_log_trace("Deleting client from hash table");
 
-    err = session_delete(session);
+    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+        return WSS_SESSION_LOCK_ERROR;
+    }
 
-    return err;
+    HASH_DEL(sessions, session);
+
+    pthread_rwlock_unlock(&lock);
+
+    return WSS_SUCCESS;
 }
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable.
+ * Function that frees the memory of a session, which has been removed from the
+ * hashtable and is not used by any job.
  *
  * @param 	session	[wss_session_t *] 	"The session to be deleted"
  * @return 		    [wss_error_t] 	    "The error status"
  */
 wss_error_t WSS_session_delete(wss_session_t *session) {
-    wss_error_t err;
-
     WSS_log_trace("Deleting session");
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
-        return WSS_SESSION_LOCK_ERROR;
-    }
-
-    err = session_delete(session);
-
-    pthread_rwlock_unlock(&lock);
-
-    return err;
+    return session_delete(session);
 }
 
 /**
@@ -287,6 +299,8 @@ wss_error_t WSS_session_delete_all() {
             session->header->ws_protocol->close(session->fd);
         }
 
+        HASH_DEL(sessions, session);
+
         tmp_err = session_delete(session);
         if ( likely(err == WSS_SUCCESS) ) {
             err = tmp_err;
@@ -401,14 +415,17 @@ wss_error_t WSS_session_is_disconnecting(wss_session_t *session, bool *dc) {
 }
 
 /**
- * Function that finds all sessions and calls callback for each of them.
+ * Function that calls callback for each of the sessions. The callback is given
+ * a job on the session, which it has to end.
  *
  * @param   callback       [void (*callback)(wss_session_t *)]    "A callback to be called for each session"
  * @return                 [wss_error_t] 	                      "The error status"
  */
 wss_error_t WSS_session_all(void (*callback)(wss_session_t *)) {
     int err;
+    size_t i, count = 0;
     wss_session_t *session, *tmp;
+    wss_session_t **all;
 
     WSS_log_trace("Finding all sessions");
 
@@ -417,36 +434,57 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *)) {
         return WSS_SESSION_LOCK_ERROR;
     }
 
+    if ( HASH_COUNT(sessions) == 0 ) {
+        pthread_rwlock_unlock(&lock);
+        return WSS_SUCCESS;
+    }
+
+    if ( unlikely(NULL == (all = (wss_session_t **) WSS_malloc(HASH_COUNT(sessions)*sizeof(wss_session_t *)))) ) {
+        WSS_log_error("Unable to allocate memory for sessions");
+        pthread_rwlock_unlock(&lock);
+        return WSS_MEMORY_ERROR;
+    }
+
     HASH_ITER(hh, sessions, session, tmp) {
-        if ( likely(NULL != session) ) {
-            callback(session);
-        }
+        WSS_session_jobs_inc(session);
+        all[count++] = session;
     }
 
     pthread_rwlock_unlock(&lock);
 
+    for (i = 0; likely(i < count); i++) {
+        callback(all[i]);
+    }
+
+    WSS_free((void **) &all);
+
     return WSS_SUCCESS;
 }
 
 /**
- * Function that finds a session using the filedescriptor of the session.
+ * Function that finds a session using the filedescriptor of the session and
+ * starts a job on it, such that it is not deleted until the job ends.
  *
  * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
  * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
  */
-wss_session_t *WSS_session_find(int fd) {
+wss_session_t *WSS_session_acquire(int fd) {
     int err;
     wss_session_t *session = NULL;
 
     WSS_log_trace("Finding session");
 
     if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock", strerror(err));
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return NULL;
     }
 
     HASH_FIND_INT(sessions, &fd, session);
 
+    if ( likely(NULL != session) ) {
+        WSS_session_jobs_inc(session);
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return session;
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..2d241c5 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -374,8 +374,15 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
         n = -2;
     } else
         
+    // The client will not send any more.
+    if ( unlikely(err == SSL_ERROR_ZERO_RETURN) ) {
+        session->eof = true;
+
+        n = 0;
+    } else
+
     // Some error has occured.
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -391,12 +398,9 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
         }
 #endif
     
+        session->closing = true;
+
         n = -1;
-    } else 
-        
-    // If this was one of the error codes that we do accept, return 0
-    if ( unlikely(n < 0) ) {
-        n = 0;
     }
     
     return n;
@@ -453,7 +457,7 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         return false;
     }
 
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -469,46 +473,16 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         session->closing = true;
 
         return false;
-    } else {
-        if (unlikely(n < 0)) {
-            n = 0;
-        }
-        *bytes_sent += n;
     }
 
+    *bytes_sent += n;
+
     return true;
 #else
     return false;
 #endif
 }
 
-/**
- * Function that performs a ssl write to the connecting client.
- *
- * @param   session        [wss_session_t *]   "The connecting client session"
- * @param   message        [char *]            "The message"
- * @param   message_length [size_t]            "The message length"
- * @return                 [void]
- */
-void WSS_ssl_write(wss_session_t *session, char *message, unsigned int message_length) {
-#if defined(USE_OPENSSL) | defined(USE_WOLFSSL)
-    int n;
-    size_t written = 0;
-
-    do {
-#if defined(USE_OPENSSL)
-        n = SSL_write(session->ssl, message+written, message_length-written);
-#elif defined(USE_WOLFSSL)
-        n = wolfSSL_write(session->ssl, message+written, message_length-written);
-#endif
-        if (n < 0) {
-            break;
-        }
-        written += n;
-    } while ( written < message_length );
-#endif
-}
-
 /**
  * Function that performs a ssl handshake with the connecting client.
  *
@@ -535,9 +509,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_READ) ) {
         WSS_log_trace("Need to wait for further reads");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_read(server, session->fd);
+        session->event = READ;
 
         return;
     }
@@ -546,14 +518,12 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_WRITE) ) {
         WSS_log_trace("Need to wait for further writes");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_write(server, session->fd);
+        session->event = WRITE;
 
         return;
     }
 
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char message[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -569,7 +539,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
         return;
     }
 
@@ -580,10 +550,6 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     WSS_log_info("Client with session %d connected", session->fd);
 
     session->state = IDLE;
-
-    clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-    WSS_poll_set_read(server, session->fd);
 #endif
 }
 
@@ -602,7 +568,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -610,7 +575,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -625,7 +589,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -633,7 +596,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -650,10 +612,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock) {
+wss_error_t WSS_session_ssl_free(wss_session_t *session) {
     int err = WSS_SUCCESS;
 
 #if defined(USE_OPENSSL)
@@ -661,12 +622,10 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
     if ( unlikely((err = SSL_shutdown(session->ssl)) < 0) ) {
         err = SSL_get_error(session->ssl, err);
         switch (err) {
+            // The socket is closed in any case, so there is no need to wait
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -690,12 +649,10 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
     if ( unlikely((err = wolfSSL_shutdown(session->ssl)) < 0) ) {
         err = SSL_get_error(session->ssl, err);
         switch (err) {
+            // The socket is closed in any case, so there is no need to wait
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index 337b94f..9a7a10f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -392,31 +392,33 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must hold a job on the session, which is ended here,
+ * but none of its locks.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
     // If we are already closing
     WSS_session_is_disconnecting(session, &dc);
     if (dc) {
+        WSS_session_jobs_dec(session);
         return;
     }
 
+    // From now on nobody else finds the session, so the jobs come to an end
+    WSS_session_remove(session);
+    WSS_session_jobs_dec(session);
     WSS_session_jobs_wait(session);
 
     session->state = CLOSING;
 
-    WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
-
     if ( session->handshaked ) {
-        WSS_log_trace("Informing subprotocol about session close");
+        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
         session->header->ws_protocol->close(session->fd);
     }
 
@@ -432,24 +434,54 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
+    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
+        WSS_log_error("Unable to delete client session, received error code: %d", err);
     }
+}
 
-    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
+/**
+ * Function that ends the serving of a session by either waiting for its next
+ * event or disconnecting it. The caller must hold the lock of and a job on the
+ * session, both are given up here.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+static void finish(wss_server_t *server, wss_session_t *session) {
+    wss_error_t err = WSS_SUCCESS;
+
+    // Nothing more to expect from, or to tell, the client
+    if ( unlikely(session->eof && session->state != WRITING) ) {
+        session->closing = true;
+    }
+
+    if (! session->closing) {
+        if (session->event == NONE) {
+            session->event = session->state == WRITING ? WRITE : READ;
         }
-        WSS_log_error("Unable to delete client session, received error code: %d", err);
-        return;
+
+        clock_gettime(CLOCK_MONOTONIC, &session->alive);
+        session->waiting = session->alive;
+
+        if (session->event == WRITE) {
+            err = WSS_poll_set_write(server, session->fd);
+        } else {
+            err = WSS_poll_set_read(server, session->fd);
+        }
+
+        if ( likely(err == WSS_SUCCESS) ) {
+            session->busy = false;
+            pthread_mutex_unlock(&session->lock);
+            WSS_session_jobs_dec(session);
+            return;
+        }
+
+        session->closing = true;
     }
+
+    pthread_mutex_unlock(&session->lock);
+    WSS_disconnect(server, session);
 }
 
 /**
@@ -480,6 +512,10 @@ void WSS_connect(wss_server_t *server) {
                 break;
             }
 
+            if ( EINTR == errno || ECONNABORTED == errno ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
@@ -492,28 +528,30 @@ void WSS_connect(wss_server_t *server) {
 
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
                         inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+            close(client_fd);
             continue;
         }
 
-        WSS_session_jobs_inc(session);
         pthread_mutex_lock(&session->lock);
 
-        session->state = CONNECTING;
+        session->busy = true;
         WSS_log_trace("Created client session: %d", client_fd);
 
         // Creating ringbuffer for session
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
-            WSS_disconnect(server, session);
-            return;
+            session->closing = true;
+            finish(server, session);
+            continue;
         }
 
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
-            WSS_disconnect(server, session);
-            return;
+            session->closing = true;
+            finish(server, session);
+            continue;
         }
         session->messages_count = server->config->size_ringbuffer;
 
@@ -527,25 +565,16 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+            if ( likely(WSS_session_ssl(server, session)) ) {
+                WSS_ssl_handshake(server, session);
+            } else {
+                session->closing = true;
             }
-
-            WSS_ssl_handshake(server, session);
         } else {
-            session->state = IDLE;
-
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-            WSS_poll_set_read(server, session->fd);
-
             WSS_log_info("Client with session %d connected", session->fd);
-
         }
 
-        WSS_session_jobs_dec(session);
-        pthread_mutex_unlock(&session->lock);
+        finish(server, session);
     }
 }
 
@@ -602,6 +631,8 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
             } else {
                 n = 0;
             }
+        } else if ( unlikely(n == 0) ) {
+            session->eof = true;
         }
     }
 
@@ -673,19 +704,13 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 session->event = WRITE;
 
                 return;
-            // An error occured, notify client by writing back to it
+            // An error occured, the session is closing
             case -1:
-                WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
+                WSS_log_trace("Unable to read from client");
 
-                message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
+                WSS_free((void **)&buffer);
                 WSS_free_header(header);
 
-                if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
-
                 return;
             case 0:
                 break;
@@ -709,8 +734,6 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                     WSS_free_header(header);
 
                     if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
                         WSS_write(server, session);
                     }
 
@@ -735,8 +758,6 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_free_header(header);
 
         if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
             WSS_write(server, session);
         }
 
@@ -815,8 +836,6 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Unable to establish websocket connection");
 
         if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
             WSS_write(server, session);
         }
 
@@ -838,8 +857,6 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     session->header = header;
 
     if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
-        session->event = READ;
         WSS_write(server, session);
     }
 }
@@ -879,9 +896,6 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     char *payload = NULL;
     size_t payload_length = 0;
     size_t frames_length = 0;
-    char *message;
-    size_t message_length;
-    wss_message_t *m;
     size_t i, j, k;
     size_t msg_length = 0;
     size_t msg_offset = 0;
@@ -934,31 +948,12 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 session->event = WRITE;
 
                 return;
-            // An error occured
+            // An error occured, the session is closing
             case -1:
                 WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
                 free_frames(frames, frames_length);
 
-                frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
-                message_length = WSS_stringify_frame(frame, &message);
-                WSS_free_frame(frame);
-
-                if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
-                    WSS_log_error("Unable to allocate the message structure");
-                    WSS_free((void **) &message);
-                    session->closing = true;
-                    return;
-                }
-                m->msg = message;
-                m->length = message_length;
-                m->framed = true;
-
-                if ( likely(WSS_SUCCESS == write_internal(session, m)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
                 return;
             // No new data received
             case 0:
@@ -1235,14 +1230,12 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     }
 
     WSS_log_trace("Frames was validated");
-    
-    session->state = IDLE;
 
     WSS_log_trace("Sending frames to receivers");
 
     // Sending message to subprotocol and sending it to the filedescriptors
     // returned by the subprotocol.
-    for (i = 0; likely(i < frames_length); i++) {
+    for (i = 0; likely(i < frames_length && ! session->closing); i++) {
         // If message consists of single frame or we have the starting frame of
         // a multiframe message, store the starting index
         if ( (frames[i]->fin && !(frames[i]->opcode == 0x0)) ||
@@ -1314,12 +1307,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( likely(frames[starting_frame]->opcode == TEXT_FRAME || frames[starting_frame]->opcode == BINARY_FRAME) ) {
                 WSS_log_trace("Notifying subprotocol of message");
 
-                // Use subprotocol
+                // Use subprotocol. The lock is not held meanwhile, as the
+                // subprotocol might need the locks of other sessions
+                pthread_mutex_unlock(&session->lock);
                 session->header->ws_protocol->message(session->fd, frames[starting_frame]->opcode, msg, msg_length);
+                pthread_mutex_lock(&session->lock);
             } else {
                 WSS_log_trace("Writing control frame message");
 
-                WSS_session_jobs_inc(session);
                 WSS_message_send_frames((void *)server, (void *)session, &frames[starting_frame], len);
             }
 
@@ -1340,11 +1335,6 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     } else {
         WSS_free((void **) &frames);
     }
-
-    if (! closing && session->event == NONE) {
-        WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
-        session->event = READ;
-    }
 }
 
 /**
@@ -1366,6 +1356,8 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Performing write by popping messages from ringbuffer");
 
+    session->state = WRITING;
+
     while ( likely(0 != (len = ringbuf_consume(session->ringbuf, &off))) ) {
         for (i = 0; likely(i < len); i++) {
             message = session->messages[off+i];
@@ -1445,7 +1437,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_work(void *args) {
     wss_session_t *session;
-    long unsigned int ms;
+    long int ms;
     struct timespec now;
     wss_thread_args_t *arguments = (wss_thread_args_t *) args;
     wss_server_t *server = (wss_server_t *) arguments->server;
@@ -1461,103 +1453,53 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
+    // Another thread is serving the session and will wait for its next event
+    if ( unlikely(session->busy) ) {
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
+    session->busy = true;
     session->event = NONE;
 
-    WSS_log_trace("Checking session state");
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    ms = (now.tv_sec - session->waiting.tv_sec)*1000 + (now.tv_nsec - session->waiting.tv_nsec)/1000000;
+    session->alive = now;
+
+    if ( likely(! session->closing) ) {
+        if ( unlikely(NULL != session->ssl && ! session->ssl_connected) ) {
+            WSS_ssl_handshake(server, session);
+        }
 
-    // We first check if session was in the middle of performing an IO task but
-    // needed to wait for further IO
-    switch (session->state) {
-        case WRITING:
-            clock_gettime(CLOCK_MONOTONIC, &now);
-            ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
-            if ( unlikely(server->config->timeout_write >= 0 && ms >= (long unsigned int)server->config->timeout_write) ) {
+        // We first check if session was in the middle of performing an IO task
+        // but needed to wait for further IO
+        if ( session->state == WRITING ) {
+            if ( unlikely(server->config->timeout_write >= 0 && ms >= server->config->timeout_write) ) {
                 WSS_log_trace("Write timeout detected for session %d", fd);
                 session->closing = true;
-                break;
+            } else {
+                WSS_write(server, session);
             }
-
-            session->event = READ;
-            WSS_write(server, session);
-            break;
-        case CLOSING:
+        } else if ( unlikely((NULL != session->payload || NULL != session->frames || (! session->handshaked && NULL != session->header)) &&
+                    server->config->timeout_read >= 0 && ms >= server->config->timeout_read) ) {
+            WSS_log_trace("Read timeout detected for session %d", fd);
             session->closing = true;
-            break;
-        case CONNECTING:
-            if (NULL != server->ssl_ctx) {
-                WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
-            }
-
-            WSS_read(server, session);
-            break;
-        case READING:
-            clock_gettime(CLOCK_MONOTONIC, &now);
-            ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
-            if ( unlikely(server->config->timeout_read >= 0 && ms >= (long unsigned int)server->config->timeout_read) ) {
-                WSS_log_trace("Read timeout detected for session %d", fd);
-                session->closing = true;
-                break;
-            }
+        }
 
+        // Whatever the event was, the client might as well have sent something
+        // or disconnected
+        if ( likely(session->state != WRITING && session->event == NONE && ! session->closing) ) {
             WSS_read(server, session);
-            break;
-        case IDLE:
-            session->state = session_state;
-
-            switch (session_state) {
-                case WRITING:
-                    WSS_log_trace("Handling write event");
-                    session->event = READ;
-                    WSS_write(server, session);
-                    break;
-                case CLOSING:
-                    session->closing = true;
-                    WSS_log_trace("Handling close event");
-                    break;
-                case READING:
-                    WSS_log_trace("Handling read event");
-                    WSS_read(server, session);
-                    break;
-                default:
-                    WSS_log_error("State that should not be possible at this point was encountered %s", state);
-                    break;
-            }
-    }
-
-    if (session->closing) {
-        session->event = NONE;
-        pthread_mutex_unlock(&session->lock);
-        WSS_session_jobs_dec(session);
-        WSS_disconnect(server, session);
-        return;
-    }
-
-    switch (session->event) {
-        case WRITE: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_write(server, session->fd);
-            break;
-        case READ: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_read(server, session->fd);
-            break;
-        case NONE: 
-            break;
+        }
     }
 
-    pthread_mutex_unlock(&session->lock);
-    WSS_session_jobs_dec(session);
+    finish(server, session);
 }
-- 
2.43.0


From 99cf04bd2c31fc7ad6099bb43eeef44539b699b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 11/40] fix: a request is parsed when it is complete, and
 answered before its connection is used

---
 src/worker.c | 202 ++++++++++++++++++++++++---------------------------
 1 file changed, 95 insertions(+), 107 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 9a7a10f..99104d4 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1,3 +1,6 @@
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE             /* memmem */
+#endif
 
 #include <errno.h> 				/* errno */
 #include <stdio.h> 				/* printf, fflush, fprintf, fopen, fclose */
@@ -639,6 +642,23 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     return n;
 }
 
+/**
+ * Function that answers a request which does not become a websocket connection.
+ * The connection is closed when the answer has been written.
+ *
+ * @param 	server      [wss_server_t *] 	"A server instance"
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	message     [wss_message_t *] 	"The answer"
+ * @return              [void]
+ */
+static void reject(wss_server_t *server, wss_session_t *session, wss_message_t *message) {
+    session->eof = true;
+
+    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
+        WSS_write(server, session);
+    }
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -648,102 +668,81 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
  */
 static void handshake(wss_server_t *server, wss_session_t *session) {
     int n;
+    size_t max_length;
     wss_header_t *header;
     wss_message_t *message;
+    wss_subprotocol_t *protocol;
     enum HttpStatus_Code code;
     char *buffer;
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        session->closing = true;
         return;
     }
 
     WSS_log_trace("Preparing client header");
 
-    if ( unlikely(NULL != session->header) ) {
-        header = session->header;
-        session->header = NULL;
-    } else {
-        if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
+    // The session owns the header, also while the request is incomplete
+    if ( likely(NULL == session->header) ) {
+        if ( unlikely(NULL == (session->header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **)&buffer);
+            session->closing = true;
             return;
         }
-
-        header->content             = NULL;
-        header->method              = NULL;
-        header->version             = NULL;
-        header->path                = NULL;
-        header->host                = NULL;
-        header->payload             = NULL;
-        header->length              = 0;
-        header->ws_version          = 0;
-        header->ws_type             = UNKNOWN;
-        header->ws_protocol         = NULL;
-        header->ws_upgrade          = NULL;
-        header->ws_connection       = NULL;
-        header->ws_extensions       = NULL;
-        header->ws_extensions_count = 0;
-        header->ws_origin           = NULL;
-        header->ws_key              = NULL;
-        header->ws_key1             = NULL;
-        header->ws_key2             = NULL;
-        header->ws_key3             = NULL;
     }
+    header = session->header;
+
+    // The largest request there is within the limits, which has one character
+    // in each of its header lines
+    max_length = strlen("GET  HTTP/1.1\r\n\r\n") + server->config->size_uri +
+        3*(size_t)server->config->size_header + server->config->size_payload;
 
     WSS_log_trace("Reading headers");
 
     // Continue reading until we get no bytes back
-    do {
-        n = read_internal(server, session, buffer);
-
-        switch (n) {
-            // Wait for IO for either read or write on the filedescriptor
-            case -2:
-                session->header = header;
-
-                session->event = WRITE;
-
-                return;
-            // An error occured, the session is closing
-            case -1:
-                WSS_log_trace("Unable to read from client");
-
-                WSS_free((void **)&buffer);
-                WSS_free_header(header);
+    while ( likely(0 < (n = read_internal(server, session, buffer))) ) {
+        // The rest of a request that is too large is of no interest
+        if ( unlikely(header->length > max_length) ) {
+            continue;
+        }
 
-                return;
-            case 0:
-                break;
-            default:
-                // Reallocate space for the header and copy buffer into it
-                if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
-                    WSS_log_fatal("Unable to realloc header content");
-                    return;
-                }
-                memcpy(header->content+header->length, buffer, n);
-                header->length += n;
-                memset(buffer, '\0', server->config->size_buffer);
+        // Reallocate space for the header and copy buffer into it
+        if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
+            WSS_log_fatal("Unable to realloc header content");
+            WSS_free((void **)&buffer);
+            session->closing = true;
+            return;
+        }
+        memcpy(header->content+header->length, buffer, n);
+        header->length += n;
+        header->content[header->length] = '\0';
+    }
 
-                // Check if payload from client is too large for the server to handle.
-                // If so write error back to the client
-                if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
-                    WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
+    WSS_free((void **)&buffer);
 
-                    message = http_response(header, HttpStatus_PayloadTooLarge,
-                            "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
+    // An error occured
+    if ( unlikely(session->closing) ) {
+        WSS_log_trace("Unable to read from client");
+        return;
+    }
 
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        WSS_write(server, session);
-                    }
+    // Check if payload from client is too large for the server to handle.
+    // If so write error back to the client
+    if ( unlikely(header->length > max_length) ) {
+        WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
 
-                    return;
-                }
-                break;
-        }
-    } while ( likely(n != 0) );
+        reject(server, session, http_response(header, HttpStatus_PayloadTooLarge,
+                    "The given payload is too large for the server to handle"));
+        return;
+    }
 
-    WSS_free((void **)&buffer);
+    // Wait for the rest of the request
+    if ( unlikely(NULL == header->content || NULL == memmem(header->content, header->length, "\r\n\r\n", 4)) ) {
+        WSS_log_trace("The request is not complete");
+        return;
+    }
 
     WSS_log_debug("Client header: \n%s", header->content);
 
@@ -754,13 +753,10 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if ( (code = WSS_parse_header(session->fd, header, server->config)) != HttpStatus_OK ) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
-        message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
-
-        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            WSS_write(server, session);
-        }
+        // The version might not have been reached or not be supported
+        header->version = NULL;
 
+        reject(server, session, http_response(header, code, (char *)HttpStatus_reasonPhrase(code)));
         return;
     }
 
@@ -768,31 +764,16 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
-
             WSS_log_trace("Serving a favicon to the client");
-
-            // Find and serve favicon.
-            if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
 
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
-
-            if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
         }
 
+        reject(server, session, message);
         return;
     }
 
@@ -800,6 +781,14 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     // Create Upgrade HTTP header based on clients header
     code = WSS_upgrade_header(header, server->config, server->re);
+
+    // Use echo protocol if none was chosen
+    protocol = header->ws_protocol;
+    if (code == HttpStatus_SwitchingProtocols && NULL == protocol && NULL == (protocol = WSS_find_subprotocol("echo"))) {
+        WSS_log_error("No subprotocol is available for the client");
+        code = HttpStatus_BadRequest;
+    }
+
     switch (code) {
         case HttpStatus_UpgradeRequired:
             WSS_log_trace("Rejecting HTTP request as the service requires use of the Websocket protocol.");
@@ -835,28 +824,27 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (code != HttpStatus_SwitchingProtocols) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            WSS_write(server, session);
-        }
-
-        WSS_free_header(header);
-
+        reject(server, session, message);
         return;
     }
 
-    // Use echo protocol if none was chosen
-    if (NULL == header->ws_protocol) {
-        header->ws_protocol = WSS_find_subprotocol("echo");
+    // The response is what the client receives first
+    if ( unlikely(NULL == message || WSS_SUCCESS != write_internal(session, message)) ) {
+        session->closing = true;
+        return;
     }
 
-    // Notify websocket protocol of the connection
-    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
-
     // Set session as fully handshaked
+    header->ws_protocol = protocol;
     session->handshaked = true;
-    session->header = header;
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
+    // Notify websocket protocol of the connection. The lock is not held
+    // meanwhile, as the subprotocol might need the locks of other sessions
+    pthread_mutex_unlock(&session->lock);
+    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+    pthread_mutex_lock(&session->lock);
+
+    if ( likely(! session->closing) ) {
         WSS_write(server, session);
     }
 }
@@ -1496,7 +1484,7 @@ void WSS_work(void *args) {
 
         // Whatever the event was, the client might as well have sent something
         // or disconnected
-        if ( likely(session->state != WRITING && session->event == NONE && ! session->closing) ) {
+        if ( likely(session->state != WRITING && session->event == NONE && ! session->closing && ! session->eof) ) {
             WSS_read(server, session);
         }
     }
-- 
2.43.0


From 36e456374c5aa8fb6c2956e1a2237a8806b66fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 12/40] fix: empty, repeated and malformed header values are
 parsed as what they are

---
 include/header.h |   2 +
 src/header.c     | 205 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 134 insertions(+), 73 deletions(-)

diff --git a/include/header.h b/include/header.h
index 0abb787..3293424 100644
--- a/include/header.h
+++ b/include/header.h
@@ -18,6 +18,8 @@
 #define COOKIE_STRING "Cookie"
 #define HOST_STRING "Host"
 #define SEC_WEBSOCKET_KEY_LENGTH 16
+#define SEC_WEBSOCKET_KEY_ENCODED_LENGTH 24
+#define BASE64_CHARACTERS "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
 #define SEC_WEBSOCKET_VERSION "Sec-WebSocket-Version"
 #define SEC_WEBSOCKET_PROTOCOL "Sec-WebSocket-Protocol"
 #define SEC_WEBSOCKET_KEY "Sec-WebSocket-Key"
diff --git a/src/header.c b/src/header.c
index b739fd3..0e36d25 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,49 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Looks for a value in a comma separated list, ignoring the case.
+ *
+ * @param   list    [const char *]    "The list"
+ * @param   value   [const char *]    "The value to look for"
+ * @return          [bool]            "Whether the list contains the value"
+ */
+static inline bool in_list(const char *list, const char *value)
+{
+    size_t length;
+
+    if ( unlikely(NULL == list) ) {
+        return false;
+    }
+
+    while ( likely(*list != '\0') ) {
+        while (*list == ',' || isspace((unsigned char)*list)) {
+            list++;
+        }
+
+        length = strcspn(list, ",");
+        while (length > 0 && isspace((unsigned char)list[length-1])) {
+            length--;
+        }
+
+        if (length == strlen(value) && strncasecmp(list, value, length) == 0) {
+            return true;
+        }
+
+        list += strcspn(list, ",");
+    }
+
+    return false;
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version;
+
+    if ( unlikely(strlen(v) == 0 || strlen(v) > 3 || strspn(v, "0123456789") != strlen(v)) ) {
+        return;
+    }
+
+    version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -106,13 +147,14 @@ static inline void header_set_version(wss_header_t *header, char *v) {
  * @return            [enum HttpStatus_Code]   "The status code to return to the client"
  */
 enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
-    bool valid, in_use, double_clrf = false;
+    bool valid, in_use, seen_version = false, double_clrf = false;
     size_t i, line_length;
     char *lineptr, *temp, *line, *sep, *accepted;
     char *tokenptr = NULL, *sepptr = NULL, *paramptr = NULL;
     char *token, *name; 
     wss_subprotocol_t *proto;
     wss_extension_t *ext;
+    wss_ext_t *used, **extensions;
     char *exts = NULL;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
@@ -186,6 +228,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         return HttpStatus_HTTPVersionNotSupported;
     }
 
+    if ( unlikely(NULL != strtok_r(NULL, " ", &lineptr)) ) {
+        WSS_log_trace("The request line has more than three parts");
+        return HttpStatus_BadRequest;
+    }
+
     // We've reached the payload
     if ( unlikely(strlen(token) >= 2 && tokenptr[0] == '\r' && tokenptr[1] == '\n') ) {
         tokenptr += 2;
@@ -214,6 +261,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **)&exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -224,12 +272,14 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             if ( line_length == strlen(SEC_WEBSOCKET_VERSION) && 
                 strncasecmp(SEC_WEBSOCKET_VERSION, line, line_length) == 0 ) {
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
-                if ( unlikely(header->ws_version != 0) ) {
+                if ( unlikely(seen_version) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
+                seen_version = true;
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = trim(strtok_r(lineptr, ",", &sepptr));
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,20 +287,20 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = trim(lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = trim(lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = trim(lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = trim(lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(lineptr, ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -264,34 +314,41 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = trim(lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = trim(lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                // Multiple header fields are equivalent to a single one with
+                // the values separated by commas
+                line = trim(lineptr);
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+                if ( NULL == (temp = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
+                    WSS_free((void **)&exts);
                     return HttpStatus_InternalServerError;
                 }
+                exts = temp;
 
                 memcpy(exts+extensions_length, line, line_length);
                 extensions_length += line_length;
+                exts[extensions_length++] = ',';
+                exts[extensions_length] = '\0';
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = trim(lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(lineptr, ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -306,11 +363,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = trim(lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = trim(lineptr);
             }
         }
 
@@ -320,6 +377,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **)&exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -333,6 +391,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **)&exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -347,49 +406,69 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **)&exts);
         return HttpStatus_BadRequest;
     }
 
     if ( NULL != exts ) {
-        sep = trim(strtok_r(exts, ",", &sepptr));
-        while(NULL != sep) {
+        for (sep = strtok_r(exts, ",", &sepptr); NULL != sep; sep = strtok_r(NULL, ",", &sepptr)) {
             in_use = false;
-            sep = trim(strtok_r(sep, ";", &paramptr));
+            valid = false;
+            accepted = NULL;
 
-            if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
-                WSS_log_error("Unable to allocate space for extension structure");
-                return HttpStatus_InternalServerError;
+            if ( unlikely(NULL == (name = trim(strtok_r(sep, ";", &paramptr)))) ) {
+                continue;
             }
 
-            if (NULL != (ext = WSS_find_extension(name))) {
-                for (i = 0; i < header->ws_extensions_count; i++) {
-                    if ( unlikely(header->ws_extensions[i]->ext == ext) ) {
-                        in_use = true; 
-                        break;
-                    }
+            if (NULL == (ext = WSS_find_extension(name))) {
+                continue;
+            }
+
+            for (i = 0; i < header->ws_extensions_count; i++) {
+                if ( unlikely(header->ws_extensions[i]->ext == ext) ) {
+                    in_use = true;
+                    break;
                 }
+            }
 
-                if ( likely(! in_use) ) {
-                    ext->open(fd, trim(paramptr), &accepted, &valid); 
-                    if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
-                            WSS_log_error("Unable to allocate space for extension");
-                            return HttpStatus_InternalServerError;
-                        }
+            if ( unlikely(in_use) ) {
+                continue;
+            }
 
-                        if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
-                            WSS_log_error("Unable to allocate space for extension structure");
-                            return HttpStatus_InternalServerError;
-                        }
-                        header->ws_extensions[header->ws_extensions_count]->ext = ext;
-                        header->ws_extensions[header->ws_extensions_count]->name = name;
-                        header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
-                        header->ws_extensions_count += 1;
-                    }
-                }
+            // Everything needed is allocated before the extension is opened,
+            // such that it will be closed again with the session
+            if ( unlikely(NULL == (used = WSS_malloc(sizeof(wss_ext_t)))) ) {
+                WSS_log_error("Unable to allocate space for extension structure");
+                WSS_free((void **)&exts);
+                return HttpStatus_InternalServerError;
             }
 
-            sep = trim(strtok_r(NULL, ",", &sepptr));
+            if ( unlikely(NULL == (used->name = WSS_copy(name, strlen(name)+1))) ||
+                 unlikely(NULL == (extensions = WSS_malloc((header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
+                WSS_log_error("Unable to allocate space for extension");
+                WSS_free((void **)&used->name);
+                WSS_free((void **)&used);
+                WSS_free((void **)&exts);
+                return HttpStatus_InternalServerError;
+            }
+
+            for (i = 0; i < header->ws_extensions_count; i++) {
+                extensions[i] = header->ws_extensions[i];
+            }
+            WSS_free((void **)&header->ws_extensions);
+            header->ws_extensions = extensions;
+
+            ext->open(fd, trim(paramptr), &accepted, &valid);
+            if ( likely(valid) ) {
+                used->ext = ext;
+                used->accepted = accepted;
+                header->ws_extensions[header->ws_extensions_count] = used;
+                header->ws_extensions_count += 1;
+            } else {
+                WSS_free((void **)&accepted);
+                WSS_free((void **)&used->name);
+                WSS_free((void **)&used);
+            }
         }
         WSS_free((void **)&exts);
     }
@@ -426,8 +505,6 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * config, regex_t *re) {
     int err;
     char msg[1024];
-    char *sep;
-    char *sepptr = NULL;
     unsigned char *key = NULL;
     unsigned long key_length;
 
@@ -468,34 +545,14 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating upgrade header");
 
-    if ( unlikely(NULL == header->ws_upgrade || strlen(header->ws_upgrade) < strlen(WEBSOCKET_STRING) ||
-            strncasecmp(WEBSOCKET_STRING, header->ws_upgrade, strlen(WEBSOCKET_STRING)) != 0) || (header->ws_type <= HIXIE76 && strncasecmp(WEBSOCKET_UPPERCASE_STRING, header->ws_upgrade, strlen(WEBSOCKET_UPPERCASE_STRING)) != 0) ) {
+    if ( unlikely(! in_list(header->ws_upgrade, WEBSOCKET_STRING)) ) {
         WSS_log_trace("Invalid upgrade header value");
         return HttpStatus_UpgradeRequired;
     }
 
     WSS_log_trace("Validating connection header");
 
-    if ( unlikely(NULL == header->ws_connection || strlen(header->ws_connection) < strlen(UPGRADE_STRING)) ) {
-        WSS_log_trace("Invalid connection header value");
-        return HttpStatus_UpgradeRequired;
-    }
-
-    sep = trim(strtok_r(header->ws_connection, ",", &sepptr));
-    if ( unlikely(NULL == sep) ) {
-        WSS_log_trace("Invalid connection header value");
-        return HttpStatus_UpgradeRequired;
-    }
-
-    do {
-        if ( likely(strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
-            break;
-        }
-
-        sep = trim(strtok_r(NULL, ",", &sepptr));
-    } while ( likely(NULL != sep) );
-
-    if ( unlikely(sep == NULL) ) {
+    if ( unlikely(! in_list(header->ws_connection, UPGRADE_STRING)) ) {
         WSS_log_trace("Invalid connection header value");
         return HttpStatus_UpgradeRequired;
     }
@@ -524,9 +581,11 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating websocket key");
 
-    if ( unlikely(NULL == header->ws_key) ) {
+    // 16 bytes are encoded as 22 characters and the padding
+    if ( unlikely(NULL == header->ws_key || strlen(header->ws_key) != SEC_WEBSOCKET_KEY_ENCODED_LENGTH ||
+                strspn(header->ws_key, BASE64_CHARACTERS) != SEC_WEBSOCKET_KEY_ENCODED_LENGTH-2 ||
+                strcmp(header->ws_key+SEC_WEBSOCKET_KEY_ENCODED_LENGTH-2, "==") != 0) ) {
         WSS_log_trace("Invalid websocket key");
-        WSS_free((void **) &key);
         return HttpStatus_UpgradeRequired;
     }
 
-- 
2.43.0


From 24ff5b612aa5a40042013916452b1bd169546f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 13/40] fix: a file that cannot be read completely is reported,
 not freed wrongly

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 442e2f70913299764070655b7dfb33d43e145d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 14/40] fix: HTTP responses have exactly the announced length

---
 src/worker.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 99104d4..dbf0684 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -61,7 +61,7 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     int magic_length = strlen(MAGIC_WEBSOCKET_KEY);
     int key_length = strlen(header->ws_key) + magic_length;
     char key[key_length];
-    char *acceptKey;
+    char *acceptKey = NULL;
     size_t acceptKeyLength;
 
     if ( likely(NULL != header->version) ) {
@@ -189,6 +189,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -216,21 +217,23 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     line += strlen(reason)*sizeof(char);
 
     // Read the content of the favicon file
-    if (NULL != config->favicon && access(config->favicon, F_OK) != -1) {
+    if (NULL != config->favicon && stat(config->favicon, &filestat) == 0 && S_ISREG(filestat.st_mode)) {
         // Get last modified
-        stat(config->favicon, &filestat);
         setlocale(LC_ALL, "C");
         tm = *gmtime(&filestat.st_mtime);
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
         icon = strload(config->favicon, &ico);
+        if ( unlikely(NULL == ico) ) {
+            return NULL;
+        }
     } else {
         return NULL;
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -239,14 +242,14 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     }
 
     headers += strlen(HTTP_ICO_HEADERS)*sizeof(char)-10*sizeof(char);
-    headers += (log10(icon)+1);
+    headers += snprintf(NULL, 0, "%d", icon);
     headers += strlen(date)*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(etag)*sizeof(char);
     headers += strlen(modified)*sizeof(char);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -256,13 +259,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    msg->length = length;
+
     return msg;
 }
 
@@ -298,8 +304,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -364,21 +370,21 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From 05ccf26775a21432da4c4fa36fb925dd5356fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 15/40] fix: dates of HTTP responses do not depend on the
 locale or other threads

---
 src/worker.c | 52 +++++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index dbf0684..5509860 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -9,7 +9,6 @@
 #include <unistd.h>             /* close, read, write */
 #include <math.h> 				/* log10 */
 #include <time.h>
-#include <locale.h>
 
 #include <sys/types.h>          /* socket, setsockopt, accept, send, recv */
 #include <sys/stat.h> 			/* stat */
@@ -170,6 +169,28 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
     return msg;
 }
 
+/**
+ * Function that writes a time as a date of a HTTP header. Neither the locale of
+ * the process nor other threads have an influence on it.
+ *
+ * @param   time    [time_t]     "The time"
+ * @param   date    [char *]     "Will be filled with GMT_FORMAT_LENGTH characters at most"
+ * @return          [void]
+ */
+static void gmt_date(time_t time, char *date) {
+    static const char days[7][4] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
+    static const char months[12][4] = {
+        "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
+    };
+    struct tm tm;
+
+    memset(&tm, 0, sizeof(tm));
+    gmtime_r(&time, &tm);
+
+    snprintf(date, GMT_FORMAT_LENGTH, "%s, %02d %s %04d %02d:%02d:%02d GMT", days[tm.tm_wday], tm.tm_mday,
+            months[tm.tm_mon], tm.tm_year+1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
+}
+
 /**
  * Function that generates a favicon response, used to present a favicon on the
  * HTTP landing page of the WSS server.
@@ -180,8 +201,6 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
  * @return          [message_t *]           "A message structure that can be passed through ringbuffer"
  */
 static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Code code, wss_config_t *config) {
-    time_t now;
-    struct tm tm;
     char *ico;
     char *etag;
     char *message;
@@ -192,20 +211,12 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     char *hash = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
-    char savedlocale[256];
     char *version = "HTTP/1.1";
     const char *reason  = HttpStatus_reasonPhrase(code);
     int icon = 0, line = 0, headers = 0;
 
     // Get GMT current time
-    strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
-    setlocale(LC_ALL, "C");
-    now = time(0);
-    tm = *gmtime(&now);
-    memset(date, '\0', GMT_FORMAT_LENGTH);
-    memset(modified, '\0', GMT_FORMAT_LENGTH);
-    strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
-    setlocale(LC_ALL, savedlocale);
+    gmt_date(time(0), date);
 
     if ( likely(NULL != header->version) ) {
         version = header->version;
@@ -219,10 +230,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     // Read the content of the favicon file
     if (NULL != config->favicon && stat(config->favicon, &filestat) == 0 && S_ISREG(filestat.st_mode)) {
         // Get last modified
-        setlocale(LC_ALL, "C");
-        tm = *gmtime(&filestat.st_mtime);
-        strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
-        setlocale(LC_ALL, savedlocale);
+        gmt_date(filestat.st_mtime, modified);
 
         icon = strload(config->favicon, &ico);
         if ( unlikely(NULL == ico) ) {
@@ -333,26 +341,16 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
  * @return          [message_t *]           "A message structure that can be passed through ringbuffer"
  */
 static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code code, char *exp) {
-    time_t now;
-    struct tm tm;
     wss_message_t *msg;
     int length;
     char *message;
     char date[GMT_FORMAT_LENGTH];
-    char savedlocale[256];
     char *version = "HTTP/1.1";
     const char *reason  = HttpStatus_reasonPhrase(code);
     int body = 0, line = 0, headers = 0, support = 0;
 
-    savedlocale[255] = '\0';
-
     // Get GMT current time
-    strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
-    setlocale(LC_ALL, "C");
-    now = time(0);
-    tm = *gmtime(&now);
-    strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
-    setlocale(LC_ALL, savedlocale);
+    gmt_date(time(0), date);
 
     if ( likely(NULL != header->version) ) {
         version = header->version;
-- 
2.43.0


From 4d7a4c0f74e6849188191642bc7bebd819691659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 16/40] fix: an unset list of hosts, paths or queries restricts
 nothing, and hosts are no patterns

---
 include/http.h |   3 +
 src/http.c     | 160 ++++++++++++++++++++++---------------------------
 2 files changed, 73 insertions(+), 90 deletions(-)

diff --git a/include/http.h b/include/http.h
index ce42472..eb4c0a5 100644
--- a/include/http.h
+++ b/include/http.h
@@ -2,6 +2,9 @@
 #define wss_http_h
 
 #define REQUEST_URI "^(ws%s://(%s)(:%d)?)?/(%s)?(\\?(%s)(&(%s))*)?$"
+#define REQUEST_ANY_HOST "\\[[^]/?#]*\\]|[^]:/?#[]+"
+#define REQUEST_ANY_PATH "[^?#]*"
+#define REQUEST_ANY_QUERY "[^&#]*"
 #define MAX(x, y) (((x) > (y)) ? (x) : (y))
 
 #include "server.h"
diff --git a/src/http.c b/src/http.c
index b95a1e5..18d1199 100644
--- a/src/http.c
+++ b/src/http.c
@@ -22,115 +22,89 @@
 #include "ssl.h"
 
 /**
- * Generates a regular expression pattern to match the request uri of the header.
+ * Joins values to a regular expression that matches any of them.
  *
- * @param   config    [wss_config_t *]  "The configuration of the server"
- * @param   ssl       [bool]            "Whether server uses SSL"
- * @param   port      [int]             "The server port"
- * @return            [char *]          "The request uri regex pattern"
+ * @param   values    [char **]         "The values"
+ * @param   length    [unsigned int]    "The amount of values"
+ * @param   literal   [bool]            "Whether the values are strings instead of regular expressions"
+ * @param   any       [const char *]    "The regular expression to use if there are no values"
+ * @return            [char *]          "The regular expression"
  */
-static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
-    int i, j, k;
-    size_t iw = 0, jw = 0, kw = 0;
-    size_t request_uri_length = 0;
-    size_t sum_host_length = 0; 
-    size_t sum_path_length = 0; 
-    size_t sum_query_length = 0; 
-    char *request_uri;
-    char *host = "";
-    char *path = "";
-    char *query = "";
-    char *s = "";
+static char *join_values(char **values, unsigned int length, bool literal, const char *any) {
+    unsigned int i;
+    size_t size = strlen(any)+1;
+    char *value, *res, *ptr;
 
-    for (i = 0; i < config->hosts_length; i++) {
-        sum_host_length += strlen(config->hosts[i]); 
+    for (i = 0; likely(i < length); i++) {
+        size += 2*strlen(values[i])+1;
     }
-    sum_host_length += MAX(config->hosts_length-1, 0);
 
-    for (j = 0; j < config->paths_length; j++) {
-        sum_path_length += strlen(config->paths[j]); 
-    }
-    sum_path_length += MAX(config->paths_length-1, 0);
-
-    for (k = 0; k < config->queries_length; k++) {
-        sum_query_length += strlen(config->queries[k]); 
-    }
-    sum_query_length += MAX(config->queries_length-1, 0);
-
-    if (sum_host_length+sum_path_length+sum_query_length == 0) {
+    if ( unlikely(NULL == (res = WSS_malloc(size))) ) {
         return NULL;
     }
 
-    request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
-    request_uri_length += ssl*sizeof(char);
-    request_uri_length += (log10(port)+1)*sizeof(char);
-    request_uri_length += sum_host_length*sizeof(char);
-    request_uri_length += sum_path_length*sizeof(char);
-    request_uri_length += sum_query_length*sizeof(char);
-    request_uri_length += sum_query_length*sizeof(char);
-    request_uri = (char *) WSS_malloc(request_uri_length+1*sizeof(char));
-
-    if (ssl) {
-        s = "s";
+    if (length == 0) {
+        strcpy(res, any);
+        return res;
     }
 
-    if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
-        return NULL;
-    }
+    ptr = res;
+    for (i = 0; likely(i < length); i++) {
+        if (i > 0) {
+            *ptr++ = '|';
+        }
 
-    if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
-        return NULL;
+        for (value = values[i]; likely(*value != '\0'); value++) {
+            if (literal && NULL != strchr(".[]\\()*+?{}|^$", *value)) {
+                *ptr++ = '\\';
+            }
+            *ptr++ = *value;
+        }
     }
+    *ptr = '\0';
 
-    if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
-        return NULL;
-    }
+    return res;
+}
 
-    for (i = 0; likely(i < config->hosts_length); i++) {
-        if ( unlikely(i+1 == config->hosts_length) ) {
-            sprintf(host+iw, "%s", config->hosts[i]);
-        } else {
-            sprintf(host+iw, "%s|", config->hosts[i]);
-            iw++;
-        }
-        iw += strlen(config->hosts[i]);
-    }
+/**
+ * Generates a regular expression pattern to match the request uri of the header.
+ *
+ * @param   config    [wss_config_t *]  "The configuration of the server"
+ * @param   ssl       [bool]            "Whether server uses SSL"
+ * @param   port      [int]             "The server port"
+ * @param   pattern   [char **]         "Will be the request uri regex pattern, or NULL if everything is allowed"
+ * @return            [wss_error_t]     "The error status"
+ */
+static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int port, char **pattern) {
+    int length;
+    wss_error_t err = WSS_MEMORY_ERROR;
+    const char *s = ssl ? "s" : "";
+    char *host, *path, *query;
 
-    for (j = 0; likely(j < config->paths_length); j++) {
-        if ( unlikely(j+1 == config->paths_length) ) {
-            sprintf(path+jw, "%s", config->paths[j]);
-        } else {
-            sprintf(path+jw, "%s|", config->paths[j]);
-            jw++;
-        }
-        jw += strlen(config->paths[j]);
-    }
+    *pattern = NULL;
 
-    for (k = 0; likely(k < config->queries_length); k++) {
-        if ( unlikely(k+1 == config->queries_length) ) {
-            sprintf(query+kw, "%s", config->queries[k]);
-        } else {
-            sprintf(query+kw, "%s|", config->queries[k]);
-            kw++;
-        }
-        kw += strlen(config->queries[k]);
+    if (config->hosts_length+config->paths_length+config->queries_length == 0) {
+        return WSS_SUCCESS;
     }
 
-    sprintf(request_uri, REQUEST_URI, s, host, port, path, query, query);
+    host = join_values(config->hosts, config->hosts_length, true, REQUEST_ANY_HOST);
+    path = join_values(config->paths, config->paths_length, false, REQUEST_ANY_PATH);
+    query = join_values(config->queries, config->queries_length, false, REQUEST_ANY_QUERY);
 
-    if ( likely(strlen(host) > 0) ) {
-        WSS_free((void **) &host);
-    }
+    if ( likely(NULL != host && NULL != path && NULL != query) ) {
+        length = snprintf(NULL, 0, REQUEST_URI, s, host, port, path, query, query);
 
-    if ( likely(strlen(path) > 0) ) {
-        WSS_free((void **) &path);
+        if ( likely(NULL != (*pattern = WSS_malloc(length+1))) ) {
+            snprintf(*pattern, length+1, REQUEST_URI, s, host, port, path, query, query);
+            err = WSS_SUCCESS;
+        }
     }
 
-    if ( likely(strlen(query) > 0) ) {
-        WSS_free((void **) &query);
-    }
+    WSS_free((void **) &host);
+    WSS_free((void **) &path);
+    WSS_free((void **) &query);
 
-    return request_uri;
+    return err;
 }
 
 /**
@@ -149,17 +123,23 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         ssl = true;
     }
 
-    request_uri = generate_request_uri(server->config, ssl, server->port);
+    if ( unlikely(WSS_SUCCESS != (err = generate_request_uri(server->config, ssl, server->port, &request_uri))) ) {
+        return err;
+    }
+
     if ( likely(request_uri != NULL) ) {
         if ( NULL == (server->re = WSS_malloc(sizeof(regex_t)))) {
+            WSS_free((void **) &request_uri);
             return WSS_MEMORY_ERROR;
         }
 
-        if ( unlikely((err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB)) != 0) ) {
+        err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB);
+        WSS_free((void **) &request_uri);
+
+        if ( unlikely(err != 0) ) {
+            WSS_free((void **) &server->re);
             return WSS_REGEX_ERROR;
         }
-
-        WSS_free((void **) &request_uri);
     }
 
     return WSS_SUCCESS;
-- 
2.43.0


From c5ee401a71a91f230b29cd9d89e561ffe243013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 17/40] fix: shutting down a thread pool twice leaves no lock
 behind

---
 src/pool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..5e6cfc1 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -232,6 +232,9 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            if (pthread_mutex_unlock(&(pool->lock)) != 0) {
+                err = threadpool_lock_failure;
+            }
             break;
         }
 
-- 
2.43.0


From feb42751d008be393bf35016905fdaf648b8c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 18/40] fix: a task is queued again after the thread pool was
 full

---
 src/event.c | 64 ++++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/event.c b/src/event.c
index b914dac..797c634 100644
--- a/src/event.c
+++ b/src/event.c
@@ -103,41 +103,39 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
     tim.tv_sec = 0;
     tim.tv_nsec = 100000000;
 
-    do {
-        if ( unlikely((err = threadpool_add(server->pool, func, args, 0)) != 0) ) {
-            switch (err) {
-                case threadpool_invalid:
-                    WSS_log_fatal("Threadpool was served with invalid data");
-                    return WSS_THREADPOOL_INVALID_ERROR;
-                case threadpool_lock_failure:
-                    WSS_log_fatal("Locking in thread failed");
-                    return WSS_THREADPOOL_LOCK_ERROR;
-                case threadpool_queue_full:
-                    if ( likely(retries < server->config->pool_retries) ) {
-                        retries += 1;
-                        WSS_log_trace("Threadpool full, will retry shortly. Retry number: %d", retries);
-                        nanosleep(&tim, NULL);
-                        continue;
-                    }
+    while ( unlikely((err = threadpool_add(server->pool, func, args, 0)) != 0) ) {
+        switch (err) {
+            case threadpool_invalid:
+                WSS_log_fatal("Threadpool was served with invalid data");
+                return WSS_THREADPOOL_INVALID_ERROR;
+            case threadpool_lock_failure:
+                WSS_log_fatal("Locking in thread failed");
+                return WSS_THREADPOOL_LOCK_ERROR;
+            case threadpool_queue_full:
+                if ( likely(retries < server->config->pool_retries) ) {
+                    retries += 1;
+                    WSS_log_trace("Threadpool full, will retry shortly. Retry number: %d", retries);
+                    nanosleep(&tim, NULL);
+                    break;
+                }
 
-                    // Currently we treat a full threadpool as an error, but
-                    // we could try to handle this by dynamically increasing size
-                    // of threadpool, and maybe reset thread count to that of the
-                    // configuration when the hot load is over
-                    WSS_log_error("Threadpool queue is full");
-                    return WSS_THREADPOOL_FULL_ERROR;
-                case threadpool_shutdown:
-                    WSS_log_error("Threadpool is shutting down");
-                    return WSS_THREADPOOL_SHUTDOWN_ERROR;
-                case threadpool_thread_failure:
-                    WSS_log_fatal("Threadpool thread return an error");
-                    return WSS_THREADPOOL_THREAD_ERROR;
-                default:
-                    WSS_log_fatal("Unknown error occured with threadpool");
-                    return WSS_THREADPOOL_ERROR;
-            }
+                // Currently we treat a full threadpool as an error, but
+                // we could try to handle this by dynamically increasing size
+                // of threadpool, and maybe reset thread count to that of the
+                // configuration when the hot load is over
+                WSS_log_error("Threadpool queue is full");
+                return WSS_THREADPOOL_FULL_ERROR;
+            case threadpool_shutdown:
+                WSS_log_error("Threadpool is shutting down");
+                return WSS_THREADPOOL_SHUTDOWN_ERROR;
+            case threadpool_thread_failure:
+                WSS_log_fatal("Threadpool thread return an error");
+                return WSS_THREADPOOL_THREAD_ERROR;
+            default:
+                WSS_log_fatal("Unknown error occured with threadpool");
+                return WSS_THREADPOOL_ERROR;
         }
-    } while (0);
+    }
 
     return WSS_SUCCESS;
 }
-- 
2.43.0


From d491776f6aa44eaaa466b55d7cd99997f17a87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 19/40] fix: an event that cannot be handed over is reported
 again

---
 include/event.h |   9 ++++
 src/event.c     | 127 ++++++++++++++++++++++++++++++++----------------
 src/worker.c    |  17 +++++--
 3 files changed, 108 insertions(+), 45 deletions(-)

diff --git a/include/event.h b/include/event.h
index 9860cdf..9aef531 100644
--- a/include/event.h
+++ b/include/event.h
@@ -52,6 +52,15 @@ wss_error_t WSS_poll_set_write(wss_server_t *server, int fd);
  */
 wss_error_t WSS_poll_set_read(wss_server_t *server, int fd);
 
+/**
+ * Function that rearms the poll instance for new connections, such that those
+ * that could not be accepted are reported again
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server);
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/event.c b/src/event.c
index 797c634..610f308 100644
--- a/src/event.c
+++ b/src/event.c
@@ -323,6 +323,18 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that rearms the poll instance for new connections, such that those
+ * that could not be accepted are reported again
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    // They are reported as long as they are there
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -679,6 +691,19 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that rearms the poll instance for new connections, such that those
+ * that could not be accepted are reported again
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    WSS_log_trace("Rearms server for new connections on epoll");
+
+    return WSS_poll_add(server->poll_fd, server->fd, EPOLLIN | EPOLLET | EPOLLRDHUP);
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -709,6 +734,50 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that hands an event over to the worker pool. If that is not possible
+ * at the moment, the event will be reported again.
+ *
+ * @param 	server	    [wss_server_t *]         "A pointer to a server structure"
+ * @param 	fd	        [int]	                 "The file descriptor of the event"
+ * @param 	state	    [wss_session_state_t]    "The kind of event"
+ * @return 			    [wss_error_t]            "The error status"
+ */
+static wss_error_t WSS_poll_dispatch(wss_server_t *server, int fd, wss_session_state_t state) {
+    wss_error_t err;
+    wss_thread_args_t *args;
+
+    if ( likely(NULL != (args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t)))) ) {
+        args->server = server;
+        args->fd = fd;
+        args->state = state;
+
+        if ( likely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) == WSS_SUCCESS) ) {
+            return WSS_SUCCESS;
+        }
+
+        WSS_free((void **)&args);
+    } else {
+        WSS_log_fatal("Failed allocating threadpool argument");
+        err = WSS_MEMORY_ERROR;
+    }
+
+    if ( unlikely(err != WSS_MEMORY_ERROR && err != WSS_THREADPOOL_FULL_ERROR) ) {
+        return err;
+    }
+
+    // The session might be gone meanwhile, in which case there is no event
+    if (state == CONNECTING) {
+        return WSS_poll_set_accept(server);
+    } else if (state == WRITING) {
+        WSS_poll_set_write(server, fd);
+    } else {
+        WSS_poll_set_read(server, fd);
+    }
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function that listens for new events on the servers file descriptor 
  *
@@ -753,35 +822,17 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
 
             WSS_log_trace("Session %d disconnecting", events[i].data.fd);
 
-            wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-            if ( unlikely(NULL == args) ) {
-                WSS_log_fatal("Failed allocating threadpool argument");
-                return WSS_MEMORY_ERROR;
-            }
-            args->server = server;
-            args->fd = events[i].data.fd;
-            args->state = CLOSING;
-
-            if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+            if ( unlikely((err = WSS_poll_dispatch(server, events[i].data.fd, CLOSING)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding disconnect job to worker pool");
-                WSS_free((void **)&args);
                 return err;
             }
         } else if ( events[i].data.fd == server->fd ) {
             WSS_log_trace("New session connecting");
 
-            wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-            if ( unlikely(NULL == args) ) {
-                WSS_log_fatal("Failed allocating threadpool argument");
-                return WSS_MEMORY_ERROR;
-            }
-            args->server = server;
-            args->state = CONNECTING;
-
             /**
              * If new session has connected
              */
-            if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+            if ( unlikely((err = WSS_poll_dispatch(server, server->fd, CONNECTING)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
                 return err;
             }
@@ -798,18 +849,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                 /**
                  * If new reads are ready
                  */
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->fd = events[i].data.fd;
-                args->state = READING;
-
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = WSS_poll_dispatch(server, events[i].data.fd, READING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding read job to worker pool");
-                    WSS_free((void **)&args);
                     return err;
                 }
             }
@@ -820,18 +861,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
                 /**
                  * If new writes are ready
                  */
-                wss_thread_args_t *args = (wss_thread_args_t *) WSS_malloc(sizeof(wss_thread_args_t));
-                if ( unlikely(NULL == args) ) {
-                    WSS_log_fatal("Failed allocating threadpool argument");
-                    return WSS_MEMORY_ERROR;
-                }
-                args->server = server;
-                args->fd = events[i].data.fd;
-                args->state = WRITING;
-
-                if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
+                if ( unlikely((err = WSS_poll_dispatch(server, events[i].data.fd, WRITING)) != WSS_SUCCESS) ) {
                     WSS_log_fatal("Failed adding write job to worker pool");
-                    WSS_free((void **)&args);
                     return err;
                 }
             }
@@ -991,6 +1022,18 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that rearms the poll instance for new connections, such that those
+ * that could not be accepted are reported again
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_set_accept(wss_server_t *server) {
+    // They are reported as long as they are there
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/worker.c b/src/worker.c
index 5509860..ae7ff27 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -508,6 +508,11 @@ void WSS_connect(wss_server_t *server) {
     wss_session_t *session;
     ringbuf_t *ringbuf;
     size_t workers = server->config->pool_workers+1;
+    int err;
+    struct timespec tim;
+
+    tim.tv_sec = 0;
+    tim.tv_nsec = 100000000;
 
     client_size	= sizeof(client);
     memset((char *) &client, '\0', sizeof(client));
@@ -519,11 +524,17 @@ void WSS_connect(wss_server_t *server) {
                 break;
             }
 
-            if ( EINTR == errno || ECONNABORTED == errno ) {
+            err = errno;
+            WSS_log_error("Accept failed: %s", strerror(err));
+
+            if ( EMFILE == err || ENFILE == err || ENOBUFS == err || ENOMEM == err ) {
+                // The connection is still there when other ones were closed
+                nanosleep(&tim, NULL);
+                WSS_poll_set_accept(server);
+            } else if ( EBADF != err && EFAULT != err && EINVAL != err && ENOTSOCK != err && EOPNOTSUPP != err ) {
+                // It is the connection that failed
                 continue;
             }
-
-            WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
 
-- 
2.43.0


From 13df543a408b4dcfa0b7126a2cabfb5926dd86c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 20/40] fix: the addresses of clients fit where they are stored

---
 src/worker.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index ae7ff27..d6d7b91 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -502,7 +502,8 @@ static void finish(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
@@ -514,10 +515,10 @@ void WSS_connect(wss_server_t *server) {
     tim.tv_sec = 0;
     tim.tv_nsec = 100000000;
 
-    client_size	= sizeof(client);
-    memset((char *) &client, '\0', sizeof(client));
-
     while (1) {
+        client_size	= sizeof(client);
+        memset((char *) &client, '\0', sizeof(client));
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
@@ -544,8 +545,15 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
+        // Clients using IPv4 are seen through a mapped address
+        if ( IN6_IS_ADDR_V4MAPPED(&client.sin6_addr) ) {
+            inet_ntop(AF_INET, &client.sin6_addr.s6_addr[12], ip, sizeof(ip));
+        } else {
+            inet_ntop(AF_INET6, &client.sin6_addr, ip, sizeof(ip));
+        }
+
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+                        ip, ntohs(client.sin6_port)))) ) {
             close(client_fd);
             continue;
         }
-- 
2.43.0


From 0ece91cf268b3be36a6b906ea5f628910886776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 21/40] fix: paths can be configured with the slash they begin
 with

---
 src/http.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/http.c b/src/http.c
index 18d1199..8e13cb2 100644
--- a/src/http.c
+++ b/src/http.c
@@ -27,10 +27,11 @@
  * @param   values    [char **]         "The values"
  * @param   length    [unsigned int]    "The amount of values"
  * @param   literal   [bool]            "Whether the values are strings instead of regular expressions"
+ * @param   prefix    [char]            "A character that is matched already, if values begin with it"
  * @param   any       [const char *]    "The regular expression to use if there are no values"
  * @return            [char *]          "The regular expression"
  */
-static char *join_values(char **values, unsigned int length, bool literal, const char *any) {
+static char *join_values(char **values, unsigned int length, bool literal, char prefix, const char *any) {
     unsigned int i;
     size_t size = strlen(any)+1;
     char *value, *res, *ptr;
@@ -54,7 +55,12 @@ static char *join_values(char **values, unsigned int length, bool literal, const
             *ptr++ = '|';
         }
 
-        for (value = values[i]; likely(*value != '\0'); value++) {
+        value = values[i];
+        if (*value != '\0' && *value == prefix) {
+            value++;
+        }
+
+        for (; likely(*value != '\0'); value++) {
             if (literal && NULL != strchr(".[]\\()*+?{}|^$", *value)) {
                 *ptr++ = '\\';
             }
@@ -87,9 +93,9 @@ static wss_error_t generate_request_uri(wss_config_t * config, bool ssl, int por
         return WSS_SUCCESS;
     }
 
-    host = join_values(config->hosts, config->hosts_length, true, REQUEST_ANY_HOST);
-    path = join_values(config->paths, config->paths_length, false, REQUEST_ANY_PATH);
-    query = join_values(config->queries, config->queries_length, false, REQUEST_ANY_QUERY);
+    host = join_values(config->hosts, config->hosts_length, true, '\0', REQUEST_ANY_HOST);
+    path = join_values(config->paths, config->paths_length, false, '/', REQUEST_ANY_PATH);
+    query = join_values(config->queries, config->queries_length, false, '\0', REQUEST_ANY_QUERY);
 
     if ( likely(NULL != host && NULL != path && NULL != query) ) {
         length = snprintf(NULL, 0, REQUEST_URI, s, host, port, path, query, query);
-- 
2.43.0


From 39afe1f8f69690ac37a930991e1484583226c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 22/40] fix: settings that no configuration file names are
 unset, not undefined

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 59effd9..862c2a5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -54,6 +54,7 @@ int main(int argc, char *argv[]) {
     };
     
     // Default values
+    memset(&config, 0, sizeof(config));
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
     config.extensions           = NULL;
-- 
2.43.0


From 8251ee563c395ef5db5d37638edd2150b330adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 23/40] fix: settings are known by their whole name, and
 released once

A key of which a setting's name is a prefix was taken for the setting. The
hosts with ports were released through a pointer which is not set when
loading fails, lists of paths and repeated lists were not released.
---
 include/config.h |  1 +
 src/config.c     | 71 +++++++++++++++++++++++++-----------------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/include/config.h b/include/config.h
index 73dcaf7..d14485c 100644
--- a/include/config.h
+++ b/include/config.h
@@ -10,6 +10,7 @@ typedef struct {
     char *string;
     size_t length;
     char **hosts;
+    char *hosts_ports;
     char **paths;
     char **queries;
     char **origins;
diff --git a/src/config.c b/src/config.c
index d7d3938..03fe0b4 100644
--- a/src/config.c
+++ b/src/config.c
@@ -53,6 +53,8 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         return WSS_MEMORY_ERROR;
     }
 
+    config->hosts_ports = extra;
+
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
             if ( unlikely(0 > (n = sprintf(extra+cur, "%s:%u", config->hosts[i], config->port_http))) ) {
@@ -113,7 +115,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file: %s", path);
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
@@ -130,13 +132,16 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 value = config->data->u.object.values[i].value;
                 name = config->data->u.object.values[i].name;
 
-                if ( strncmp(name, "hosts", 5) == 0 ) {
+                if ( strcmp(name, "hosts") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        // The last of several lists counts
+                        WSS_free((void **) &config->hosts_ports);
+                        WSS_free((void **) &config->hosts);
+                        config->hosts_length = 0;
+
                         if (length == 0) {
-                            config->hosts_length = length;
-                            config->hosts = NULL;
                             continue;
                         }
 
@@ -158,13 +163,15 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->hosts_length = length;
                     }
-                } else if ( strncmp(name, "origins", 7) == 0 ) {
+                } else if ( strcmp(name, "origins") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        // The last of several lists counts
+                        WSS_free((void **) &config->origins);
+                        config->origins_length = 0;
+
                         if (length == 0) {
-                            config->origins_length = length;
-                            config->origins = NULL;
                             continue;
                         }
 
@@ -186,13 +193,15 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->origins_length = length;
                     }
-                } else if ( strncmp(name, "paths", 7) == 0 ) {
+                } else if ( strcmp(name, "paths") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        // The last of several lists counts
+                        WSS_free((void **) &config->paths);
+                        config->paths_length = 0;
+
                         if (length == 0) {
-                            config->paths_length = length;
-                            config->paths = NULL;
                             continue;
                         }
 
@@ -214,13 +223,15 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->paths_length = length;
                     }
-                } else if ( strncmp(name, "queries", 7) == 0 ) {
+                } else if ( strcmp(name, "queries") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        // The last of several lists counts
+                        WSS_free((void **) &config->queries);
+                        config->queries_length = 0;
+
                         if (length == 0) {
-                            config->queries_length = length;
-                            config->queries = NULL;
                             continue;
                         }
 
@@ -242,11 +253,16 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->queries_length = length;
                     }
-                } else if ( strncmp(name, "setup", 5) == 0 && likely(value->type == json_object) ) {
+                } else if ( strcmp(name, "setup") == 0 && likely(value->type == json_object) ) {
                     if ( (val = json_value_find(value, "subprotocols")) != NULL ) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
 
+                            // The last of several lists counts
+                            WSS_free((void **) &config->subprotocols);
+                            WSS_free((void **) &config->subprotocols_config);
+                            config->subprotocols_length = 0;
+
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->subprotocols = WSS_calloc(length, sizeof(char *)))) ) {
                                     WSS_log_error("Unable to calloc subprotocols");
@@ -288,8 +304,6 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                         return WSS_CONFIG_INVALID_SUBPROTOCOL;
                                     }
                                 }
-                            } else {
-                                config->subprotocols = NULL;
                             }
 
                             config->subprotocols_length = length;
@@ -301,6 +315,11 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_array) ) {
                             length = val->u.array.length;
 
+                            // The last of several lists counts
+                            WSS_free((void **) &config->extensions);
+                            WSS_free((void **) &config->extensions_config);
+                            config->extensions_length = 0;
+
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->extensions = WSS_calloc(length, sizeof(char *)))) ) {
                                     WSS_log_error("Unable to calloc extensions");
@@ -342,8 +361,6 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                         return WSS_CONFIG_INVALID_EXTENSION;
                                     }
                                 }
-                            } else {
-                                config->extensions = NULL;
                             }
 
                             config->extensions_length = length;
@@ -595,31 +612,17 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
-
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
             config->data = NULL;
         }
 
         WSS_free((void **) &config->string);
+        WSS_free((void **) &config->hosts_ports);
         WSS_free((void **) &config->hosts);
         WSS_free((void **) &config->origins);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
         WSS_free((void **) &config->subprotocols);
-- 
2.43.0


From f789366e4d08671ccabbad61a8496be3914627f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 24/40] fix: a session exists with the job of the worker that
 adds it

---
 src/session.c | 10 +++++++++-
 src/worker.c  |  1 -
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/session.c b/src/session.c
index 67f7b1a..6639bda 100644
--- a/src/session.c
+++ b/src/session.c
@@ -4,6 +4,7 @@
 #include <stdlib.h>             /* atoi, malloc, free, realloc */
 #include <unistd.h>             /* close */
 #include <stdio.h>              /* close */
+#include <time.h>               /* clock_gettime */
 
 #include <pthread.h> 			/* pthread_create, pthread_t, pthread_attr_t
                                    pthread_rwlock_init */
@@ -56,7 +57,8 @@ wss_error_t WSS_session_destroy_lock() {
 }
 
 /**
- * Function that allocates and creates a new session.
+ * Function that allocates and creates a new session. The caller is given a job
+ * on the session, which it has to end.
  *
  * @param 	fd 		[int] 		        "The filedescriptor associated to the session"
  * @param 	ip 		[char *] 	        "The ip-address of the session"
@@ -139,6 +141,12 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     session->port = port;
     session->header = NULL;
 
+    // Whoever adds the session also serves it and has the first job on it
+    session->jobs = 1;
+    session->busy = true;
+    clock_gettime(CLOCK_MONOTONIC, &session->alive);
+    session->waiting = session->alive;
+
     length = strlen(ip);
     if ( unlikely(NULL == (session->ip = (char *) WSS_malloc( (length+1)*sizeof(char)))) ) {
         WSS_log_error("Unable to allocate memory for IP");
diff --git a/src/worker.c b/src/worker.c
index d6d7b91..bd3abc5 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -560,7 +560,6 @@ void WSS_connect(wss_server_t *server) {
 
         pthread_mutex_lock(&session->lock);
 
-        session->busy = true;
         WSS_log_trace("Created client session: %d", client_fd);
 
         // Creating ringbuffer for session
-- 
2.43.0


From 314c8f66612a1060492e49d2fb66a43e94994e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 25/40] fix: silent clients are dropped before the upgrade too,
 and the cleanup never gives up

---
 src/server.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/server.c b/src/server.c
index 03535fd..80bb67a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -46,7 +46,7 @@ static void cleanup_session(wss_session_t *session) {
 
     pthread_mutex_lock(&session->lock);
 
-    if ( session->closing || ! session->handshaked ) {
+    if ( session->closing ) {
         pthread_mutex_unlock(&session->lock);
         WSS_session_jobs_dec(session);
         return;
@@ -61,13 +61,15 @@ static void cleanup_session(wss_session_t *session) {
     if ( unlikely(server->config->timeout_client >= 0 && ms >= server->config->timeout_client) ) {
         WSS_log_info("Session %d has timedout last active %d ms ago", session->fd, ms);
 
-        WSS_log_trace("Sending close frame", session->fd);
+        if ( likely(session->handshaked) ) {
+            WSS_log_trace("Sending close frame", session->fd);
 
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+            if ( likely(NULL != (frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL))) ) {
+                WSS_message_send_frames(server, session, &frame, 1);
 
-        WSS_message_send_frames(server, session, &frame, 1);
-
-        WSS_free_frame(frame);
+                WSS_free_frame(frame);
+            }
+        }
 
         session->closing = true;
 
@@ -77,10 +79,9 @@ static void cleanup_session(wss_session_t *session) {
 
         return;
     // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
+    } else if ( session->handshaked && server->config->timeout_pings > 0 && NULL != (frame = WSS_ping_frame()) ) {
         WSS_log_info("Pinging session %d", session->fd);
 
-        frame = WSS_ping_frame();
         if (session->pong != NULL) {
             WSS_free((void **) &session->pong);
             session->pong_length = 0;
@@ -152,6 +153,11 @@ void *WSS_cleanup() {
 
     if (timeout >= 0 && server->config->timeout_pings > 0) {
         timeout = timeout/server->config->timeout_pings;
+    }
+
+    if (timeout >= 0) {
+        // Do not use all time there is for looking at the sessions
+        timeout = timeout > 0 ? timeout : 1;
         WSS_log_info("Cleanup thread will run every %ld milliseconds", timeout);
     }
 
@@ -166,10 +172,7 @@ void *WSS_cleanup() {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
             if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
-#ifdef USE_RPMALLOC
-                rpmalloc_thread_finalize();
-#endif
-                pthread_exit( ((void *) &err) );
+                WSS_log_error("Unable to look at sessions, received error code: %d", err);
             }
         }
     }
-- 
2.43.0


From fbe355ebcba7bbf466992f8ce1a888881b1f725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 26/40] fix: a server that stops ends all threads before
 anything they use is released

---
 include/http.h   |   9 ++
 include/server.h |   3 +
 src/event.c      |  39 +++---
 src/http.c       | 100 +++++++++------
 src/server.c     | 327 +++++++++++++++++++++++++----------------------
 src/session.c    |  31 +++--
 6 files changed, 287 insertions(+), 222 deletions(-)

diff --git a/include/http.h b/include/http.h
index eb4c0a5..0171484 100644
--- a/include/http.h
+++ b/include/http.h
@@ -27,6 +27,15 @@ wss_error_t WSS_http_regex_init(wss_server_t *server);
  */
 wss_error_t WSS_http_server(wss_server_t *server);
 
+/**
+ * Function that stops serving: the work that has been handed over to the
+ * threadpool is finished, and nothing is left that uses the http server.
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_stop(wss_server_t *server);
+
 /**
  * Function that free op space allocated for the http server and closes the
  * filedescriptors in use..
diff --git a/include/server.h b/include/server.h
index 0e8e586..caee032 100644
--- a/include/server.h
+++ b/include/server.h
@@ -2,6 +2,7 @@
 #define wss_server_h
 
 #include <signal.h>
+#include <stdbool.h>
 #include <sys/socket.h>         /* socket, setsockopt, inet_ntoa, accept, shutdown */
 #include <netinet/in.h>         /* sockaddr_in, inet_ntoa */
 #include <regex.h>              /* regex_t, regcomp, regexec */
@@ -46,6 +47,8 @@ typedef struct {
     void *events;
     struct sockaddr_in6 info;
     pthread_t thread_id;
+    // Whether the thread was started and not joined yet
+    bool running;
     pthread_t cleanup_thread_id;
     pthread_mutex_t lock;
     int rearm_pipefd[2];
diff --git a/src/event.c b/src/event.c
index 610f308..a301d78 100644
--- a/src/event.c
+++ b/src/event.c
@@ -1214,6 +1214,24 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
 }
 #endif
 
+/**
+ * Function that closes a pipe. The file descriptors are forgotten first, such
+ * that a signal handler does not write to whatever they are used for next.
+ *
+ * @param 	pipefd	    [int *]	            "The file descriptors of the pipe"
+ * @return 			    [void]
+ */
+static void close_pipe(int *pipefd) {
+    int i, fd;
+
+    for (i = 0; i < 2; i++) {
+        if ( likely((fd = pipefd[i]) != -1) ) {
+            pipefd[i] = -1;
+            close(fd);
+        }
+    }
+}
+
 /**
  * Function that cleanup poll function when closing
  *
@@ -1221,25 +1239,8 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
  * @return 			    [wss_error_t]       "The error status"
  */
 wss_error_t WSS_poll_close(wss_server_t *server) {
-    if ( likely(server->rearm_pipefd[0] != -1) ) {
-        close(server->rearm_pipefd[0]);
-        server->rearm_pipefd[0] = -1;
-    }
-
-    if ( likely(server->rearm_pipefd[1] != -1) ) {
-        close(server->rearm_pipefd[1]);
-        server->rearm_pipefd[1] = -1;
-    }
-
-    if ( likely(close_pipefd[0] != -1) ) {
-        close(close_pipefd[0]);
-        close_pipefd[0] = -1;
-    }
-
-    if ( likely(close_pipefd[1] != -1) ) {
-        close(close_pipefd[1]);
-        close_pipefd[1] = -1;
-    }
+    close_pipe(server->rearm_pipefd);
+    close_pipe(close_pipefd);
 
     return WSS_SUCCESS;
 }
diff --git a/src/http.c b/src/http.c
index 8e13cb2..d0a83dc 100644
--- a/src/http.c
+++ b/src/http.c
@@ -226,61 +226,81 @@ wss_error_t WSS_http_server(wss_server_t *server) {
         WSS_log_error("Unable to create server thread", strerror(errno));
         return WSS_THREAD_CREATE_ERROR;
     }
+    server->running = true;
 
     return WSS_SUCCESS;
 }
 
 /**
- * Function that free op space allocated for the http server and closes the
- * filedescriptors in use..
+ * Function that stops serving: the work that has been handed over to the
+ * threadpool is finished, and nothing is left that uses the http server.
  *
  * @param   server	[wss_server_t *] 	"The http server"
  * @return 			[wss_error_t]       "The error status"
  */
-wss_error_t WSS_http_server_free(wss_server_t *server) {
+wss_error_t WSS_http_server_stop(wss_server_t *server) {
     int err;
     int res = WSS_SUCCESS;
 
-    if ( likely(NULL != server) ) {
-        /**
-         * Shutting down socket, such that no more reads is allowed.
-         */
-        if ( likely(server->fd > -1) ) {
-            if ( unlikely(shutdown(server->fd, SHUT_RD) != 0) ) {
-                WSS_log_error("Unable to shutdown for reads of server socket: %s", strerror(errno));
-                res = WSS_SOCKET_SHUTDOWN_ERROR;
-            }
+    if ( unlikely(NULL == server || NULL == server->pool) ) {
+        return res;
+    }
+
+    /**
+     * Shutting down socket, such that no more reads is allowed.
+     */
+    if ( likely(server->fd > -1) ) {
+        if ( unlikely(shutdown(server->fd, SHUT_RD) != 0) ) {
+            WSS_log_error("Unable to shutdown for reads of server socket: %s", strerror(errno));
+            res = WSS_SOCKET_SHUTDOWN_ERROR;
         }
+    }
 
-        /**
-         * Shutting down threadpool gracefully
-         */
-        if ( likely(NULL != server->pool) ) {
-            if ( unlikely((err = threadpool_destroy(server->pool, threadpool_graceful)) != 0) ) {
-                WSS_log_error("Unable to destroy threadpool gracefully: %s", threadpool_strerror(errno));
-
-                switch (err) {
-                    case threadpool_invalid:
-                        res = WSS_THREADPOOL_LOCK_ERROR;
-                        break;
-                    case threadpool_lock_failure:
-                        res = WSS_THREADPOOL_LOCK_ERROR;
-                        break;
-                    case threadpool_queue_full:
-                        res = WSS_THREADPOOL_FULL_ERROR;
-                        break;
-                    case threadpool_shutdown:
-                        res = WSS_THREADPOOL_SHUTDOWN_ERROR;
-                        break;
-                    case threadpool_thread_failure:
-                        res = WSS_THREADPOOL_THREAD_ERROR;
-                        break;
-                    default:
-                        res = WSS_THREADPOOL_ERROR;
-                        break;
-                }
-            }
+    /**
+     * Shutting down threadpool gracefully
+     */
+    if ( unlikely((err = threadpool_destroy(server->pool, threadpool_graceful)) != 0) ) {
+        WSS_log_error("Unable to destroy threadpool gracefully: %s", threadpool_strerror(err));
+
+        switch (err) {
+            case threadpool_invalid:
+                res = WSS_THREADPOOL_LOCK_ERROR;
+                break;
+            case threadpool_lock_failure:
+                res = WSS_THREADPOOL_LOCK_ERROR;
+                break;
+            case threadpool_queue_full:
+                res = WSS_THREADPOOL_FULL_ERROR;
+                break;
+            case threadpool_shutdown:
+                res = WSS_THREADPOOL_SHUTDOWN_ERROR;
+                break;
+            case threadpool_thread_failure:
+                res = WSS_THREADPOOL_THREAD_ERROR;
+                break;
+            default:
+                res = WSS_THREADPOOL_ERROR;
+                break;
         }
+    }
+
+    server->pool = NULL;
+
+    return res;
+}
+
+/**
+ * Function that free op space allocated for the http server and closes the
+ * filedescriptors in use..
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_free(wss_server_t *server) {
+    int res = WSS_SUCCESS;
+
+    if ( likely(NULL != server) ) {
+        res = WSS_http_server_stop(server);
 
         if ( NULL != server->re ) {
             regfree(server->re);
diff --git a/src/server.c b/src/server.c
index 80bb67a..55c60c2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -114,6 +114,33 @@ void WSS_server_set_state(wss_state_t s) {
     pthread_mutex_unlock(&state.lock);
 }
 
+/**
+ * Makes every thread of the servers come to an end. This function is called by
+ * signal handlers as well, so it must not use any lock.
+ *
+ * @param 	s	[wss_state_t]       "The state of a server that is shutting down"
+ * @return 	    [void]
+ */
+static void WSS_server_halt(wss_state_t s) {
+    int n, err = errno;
+
+    __atomic_store_n(&state.state, s, __ATOMIC_SEQ_CST);
+
+    if (close_pipefd[0] != -1 && close_pipefd[1] != -1) {
+        do {
+            errno = 0;
+            n = write(close_pipefd[1], "HALT", 5);
+            if ( unlikely(n < 0) ) {
+                if ( unlikely(errno != EINTR) ) {
+                    WSS_log_fatal("Unable to write halting message through pipe");
+                }
+            }
+        } while ( unlikely(errno == EINTR) );
+    }
+
+    errno = err;
+}
+
 /**
  * Sets the maximal file descriptor seen by the server
  *
@@ -164,6 +191,7 @@ void *WSS_cleanup() {
     while ( likely(state.state == RUNNING) ) {
         n = poll(fds, 1, timeout);
         if ( unlikely(n < 0 && errno != EINTR) ) {
+            WSS_server_halt(HALT_ERROR);
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
@@ -210,10 +238,11 @@ void *WSS_server_run(void *arg) {
     while ( likely(state.state == RUNNING) ) {
         err = WSS_poll_delegate(server);
         if ( unlikely(err != WSS_SUCCESS) ) {
+            WSS_server_halt(HALT_ERROR);
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
-            pthread_exit( ((void *) err) );
+            pthread_exit( ((void *) (intptr_t) err) );
         }
     }
 
@@ -238,7 +267,6 @@ void *WSS_server_run(void *arg) {
  * @return 	        [void]
  */
 static void WSS_server_interrupt(int sig) {
-    int n;
     switch (sig) {
         case SIGINT:
         case SIGSEGV:
@@ -246,18 +274,7 @@ static void WSS_server_interrupt(int sig) {
         case SIGFPE:
             if (state.state != HALTING && state.state != HALT_ERROR) {
                 WSS_log_trace("Server is shutting down gracefully");
-                WSS_server_set_state(HALTING);
-                if (close_pipefd[0] != -1 && close_pipefd[1] != -1) {
-                    do {
-                        errno = 0;
-                        n = write(close_pipefd[1], "HALT", 5);
-                        if ( unlikely(n < 0) ) {
-                            if ( unlikely(errno != EINTR) ) {
-                                WSS_log_fatal("Unable to write halting message through pipe");
-                            }
-                        }
-                    } while ( unlikely(errno == EINTR) );
-                }
+                WSS_server_halt(HALTING);
             }
             break;
         case SIGPIPE:
@@ -293,6 +310,122 @@ static int WSS_server_free(wss_server_t *server) {
     return result;
 }
 
+/**
+ * Allocates a server structure, which has no file descriptors yet.
+ *
+ * @param   config  [wss_config_t *] "The configuration of the server"
+ * @param   port    [int]            "The port of the server"
+ * @return 	        [wss_server_t *] "The server or NULL on error"
+ */
+static wss_server_t *WSS_server_new(wss_config_t *config, int port) {
+    int err;
+    wss_server_t *server;
+
+    if ( unlikely(NULL == (server = WSS_malloc(sizeof(wss_server_t)))) ) {
+        return NULL;
+    }
+
+    server->config          = config;
+    server->port            = port;
+    server->fd              = -1;
+    server->poll_fd         = -1;
+    server->rearm_pipefd[0] = -1;
+    server->rearm_pipefd[1] = -1;
+
+    if ( unlikely(0 != (err = pthread_mutex_init(&server->lock, NULL))) ) {
+        WSS_log_fatal("Failed initializing server lock: %s", strerror(err));
+        WSS_free((void **) &server);
+    }
+
+    return server;
+}
+
+/**
+ * Waits until nothing uses the server any more.
+ *
+ * @param   server  [wss_server_t *] "The server"
+ * @return 	        [void]
+ */
+static void WSS_server_stop(wss_server_t *server) {
+    void *err = NULL;
+
+    if ( likely(server->running) ) {
+        pthread_join(server->thread_id, &err);
+        server->running = false;
+
+        if ( unlikely(WSS_SUCCESS != (intptr_t) err) ) {
+            WSS_log_error("Server thread returned with error: %d", (int) (intptr_t) err);
+            WSS_server_set_state(HALT_ERROR);
+        }
+    }
+
+    if ( unlikely(WSS_SUCCESS != WSS_http_server_stop(server)) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+}
+
+/**
+ * Ends the servers, which have to be halting, and frees everything in use.
+ *
+ * @return 	        [int]            "EXIT_SUCCESS if successfull or EXIT_FAILURE on error"
+ */
+static int WSS_server_end() {
+    // Sessions of one server can be used by the other one
+    WSS_server_stop(servers.http);
+
+    WSS_log_trace("HTTP server thread has shutdown");
+
+    if (NULL != servers.https) {
+        WSS_server_stop(servers.https);
+
+        WSS_log_trace("HTTPS server thread has shutdown");
+    }
+
+    if ( unlikely(WSS_SUCCESS != WSS_session_delete_all()) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    WSS_log_trace("Freed all sessions");
+
+    if ( unlikely(WSS_poll_close(servers.http) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( unlikely(WSS_server_free(servers.http) != 0) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+    servers.http = NULL;
+
+    WSS_log_trace("Freed memory associated with HTTP server instance");
+
+    if (NULL != servers.https) {
+        if ( unlikely(WSS_poll_close(servers.https) != WSS_SUCCESS) ) {
+            WSS_server_set_state(HALT_ERROR);
+        }
+
+        if ( unlikely(WSS_server_free(servers.https) != 0) ) {
+            WSS_server_set_state(HALT_ERROR);
+        }
+        servers.https = NULL;
+
+        WSS_log_trace("Freed memory associated with HTTPS server instance");
+    }
+
+    if ( unlikely(WSS_SUCCESS != WSS_session_destroy_lock()) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    WSS_log_trace("Destroyed session lock");
+
+    WSS_destroy_subprotocols();
+
+    WSS_destroy_extensions();
+
+    pthread_mutex_destroy(&state.lock);
+
+    return unlikely(HALT_ERROR == state.state) ? EXIT_FAILURE : EXIT_SUCCESS;
+}
+
 /**
  * Starts the websocket server.
  *
@@ -303,10 +436,8 @@ int WSS_server_start(wss_config_t *config) {
     int err;
     struct rlimit limits;
     struct sigaction sa;
-    int ret = EXIT_SUCCESS;
-    wss_server_t *http = NULL;
+    void *res = NULL;
     pthread_t cleanup_thread_id;
-    wss_server_t *https = NULL;
     bool ssl = NULL != config->ssl_cert && NULL != config->ssl_key && (NULL != config->ssl_ca_file || NULL != config->ssl_ca_path);
 
     if ( unlikely(0 != (err = pthread_mutex_init(&state.lock, NULL))) ) {
@@ -341,6 +472,9 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_server_set_state(STARTING);
 
+    // From here on the server can be told to halt, also while it is starting
+    WSS_server_set_state(RUNNING);
+
     // Listening for signals that could terminate program
     WSS_log_trace("Listening for signals");
 
@@ -422,7 +556,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Allocating memory for HTTP instance");
 
-    if ( unlikely(NULL == (http = WSS_malloc(sizeof(wss_server_t)))) ) {
+    servers.https = NULL;
+    if ( unlikely(NULL == (servers.http = WSS_server_new(config, config->port_http))) ) {
         WSS_log_fatal("Unable to allocate server structure");
 
         WSS_session_destroy_lock();
@@ -432,174 +567,66 @@ int WSS_server_start(wss_config_t *config) {
 
         return EXIT_FAILURE;
     }
-    servers.http = http;
-    servers.https = NULL;
-
-    if ( unlikely(0 != (err = pthread_mutex_init(&http->lock, NULL))) ) {
-        WSS_server_free(http);
-        WSS_session_destroy_lock();
-        WSS_destroy_subprotocols();
-        WSS_destroy_extensions();
-        pthread_mutex_destroy(&state.lock);
-    }
-
-    WSS_log_trace("Setting to running state");
-
-    WSS_server_set_state(RUNNING);
 
     WSS_log_trace("Creating HTTP Instance");
 
-    http->config       = config;
-    http->port         = config->port_http;
-    if ( unlikely(WSS_SUCCESS != WSS_http_server(http)) ) {
+    if ( unlikely(WSS_SUCCESS != WSS_http_server(servers.http)) ) {
         WSS_log_fatal("Unable to initialize http server");
 
-        WSS_server_free(http);
-        WSS_session_destroy_lock();
-        WSS_destroy_subprotocols();
-        WSS_destroy_extensions();
-        pthread_mutex_destroy(&state.lock);
+        WSS_server_halt(HALT_ERROR);
 
-        return EXIT_FAILURE;
+        return WSS_server_end();
     }
 
     if (ssl) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
-        if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
+        if ( unlikely(NULL == (servers.https = WSS_server_new(config, config->port_https))) ) {
             WSS_log_fatal("Unable to allocate https server structure");
 
-            return EXIT_FAILURE;
-        }
+            WSS_server_halt(HALT_ERROR);
 
-        servers.https = https;
+            return WSS_server_end();
+        }
 
         WSS_log_trace("Creating HTTPS Instance");
 
-        https->config = config;
-        https->port   = config->port_https;
-        if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
+        if ( unlikely(WSS_SUCCESS != WSS_http_ssl(servers.https)) ) {
             WSS_log_fatal("Unable to establish ssl context");
 
-            return EXIT_FAILURE;
-        }
+            WSS_server_halt(HALT_ERROR);
 
-        if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
+            return WSS_server_end();
+        }
 
+        if ( unlikely(WSS_SUCCESS != WSS_http_server(servers.https)) ) {
             WSS_log_fatal("Unable to initialize https server");
 
-            return EXIT_FAILURE;
+            WSS_server_halt(HALT_ERROR);
+
+            return WSS_server_end();
         }
     }
 
     WSS_log_trace("Creating HTTP cleanup thread");
-    
-    if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
-        if (ssl) {
-            WSS_server_free(https);
-        }
-        WSS_server_free(http);
-        WSS_session_destroy_lock();
-        WSS_destroy_subprotocols();
-        WSS_destroy_extensions();
-        pthread_mutex_destroy(&state.lock);
 
+    if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
         WSS_log_fatal("Unable to create cleanup thread");
-        return EXIT_FAILURE;
-    }
-
-    WSS_log_trace("Joining server threads");
-
-    pthread_join(cleanup_thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
-        WSS_server_set_state(HALT_ERROR);
-    }
-
-    WSS_log_trace("Cleanup thread has shutdown");
-
-    pthread_join(http->thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
-        WSS_server_set_state(HALT_ERROR);
-    }
-
-    WSS_log_trace("HTTP server thread has shutdown");
-
-    if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
-        if ( unlikely(WSS_SUCCESS != err) ) {
-            WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
-            WSS_server_set_state(HALT_ERROR);
-        }
-
-        WSS_log_trace("HTTPS server thread has shutdown");
-    }
 
-    pthread_join(http->thread_id, (void **) &err);
+        WSS_server_halt(HALT_ERROR);
 
-    if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
-        WSS_server_set_state(HALT_ERROR);
-    }
-
-    if ( unlikely(WSS_server_free(http) != 0) ) {
-        WSS_server_set_state(HALT_ERROR);
+        return WSS_server_end();
     }
 
-    WSS_log_trace("Freed memory associated with HTTP server instance");
-
-    if (ssl) {
-        if ( unlikely(WSS_poll_close(https) != WSS_SUCCESS) ) {
-            WSS_server_set_state(HALT_ERROR);
-        }
-
-        if ( unlikely(WSS_server_free(https) != 0) ) {
-            WSS_server_set_state(HALT_ERROR);
-        }
-
-        WSS_log_trace("Freed memory associated with HTTPS server instance");
-    }
+    WSS_log_trace("Joining server threads");
 
-    if ( unlikely(WSS_SUCCESS != WSS_session_delete_all()) ) {
+    pthread_join(cleanup_thread_id, &res);
+    if ( unlikely(WSS_SUCCESS != (intptr_t) res) ) {
+        WSS_log_error("Cleanup thread returned with error: %d", (int) (intptr_t) res);
         WSS_server_set_state(HALT_ERROR);
     }
 
-    WSS_log_trace("Freed all sessions");
-
-    if ( unlikely(WSS_SUCCESS != WSS_session_destroy_lock()) ) {
-        WSS_server_set_state(HALT_ERROR);
-    }
-
-    WSS_log_trace("Destroyed session lock");
-
-    if ( unlikely(HALT_ERROR == state.state) ) {
-        ret = EXIT_FAILURE;
-    }
-
-    WSS_destroy_subprotocols();
-
-    WSS_destroy_extensions();
-    
-    pthread_mutex_destroy(&state.lock);
+    WSS_log_trace("Cleanup thread has shutdown");
 
-    return ret;
+    return WSS_server_end();
 }
diff --git a/src/session.c b/src/session.c
index 6639bda..f3810f9 100644
--- a/src/session.c
+++ b/src/session.c
@@ -290,33 +290,38 @@ wss_error_t WSS_session_delete(wss_session_t *session) {
  * @return  [wss_error_t] 	"The error status"
  */
 wss_error_t WSS_session_delete_all() {
-    wss_error_t err, tmp_err;
-    wss_session_t *session, *tmp;
+    int ret;
+    wss_error_t err = WSS_SUCCESS, tmp_err;
+    wss_session_t *session;
 
     WSS_log_trace("Deleting all sessions");
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
-        return WSS_SESSION_LOCK_ERROR;
-    }
+    while (1) {
+        if ( unlikely((ret = pthread_rwlock_wrlock(&lock)) != 0) ) {
+            WSS_log_error("Unable to lock session lock: %s", strerror(ret));
+            return WSS_SESSION_LOCK_ERROR;
+        }
 
-    err = WSS_SUCCESS;
+        if ( likely(NULL != (session = sessions)) ) {
+            HASH_DEL(sessions, session);
+        }
 
-    HASH_ITER(hh, sessions, session, tmp) {
+        pthread_rwlock_unlock(&lock);
+
+        if ( NULL == session ) {
+            return err;
+        }
+
+        // The subprotocol may look for other sessions
         if ( session->handshaked ) {
             session->header->ws_protocol->close(session->fd);
         }
 
-        HASH_DEL(sessions, session);
-
         tmp_err = session_delete(session);
         if ( likely(err == WSS_SUCCESS) ) {
             err = tmp_err;
         }
     }
-    pthread_rwlock_unlock(&lock);
-
-    return err;
 }
 
 /**
-- 
2.43.0


From ec4633b3d9c93fa84f7ab5fd6aa72e0cf4273e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 27/40] fix: permessage-deflate agrees on valid parameters only
 and restores every message

---
 .../permessage-deflate/permessage-deflate.c   | 769 ++++++++----------
 1 file changed, 332 insertions(+), 437 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..023c9e7 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -6,18 +6,19 @@
 #include <stdint.h>
 #include <string.h>
 #include <strings.h>
-#include <regex.h>
-#include <errno.h>
 #include <zlib.h>
 #include <ctype.h>
-#include <math.h>
 #include <pthread.h>
 #include <limits.h>
 
 #include "permessage-deflate.h"
-#include "uthash.h"
 #include "predict.h"
 
+// Running out of memory shall not end the server
+#define HASH_NONFATAL_OOM 1
+
+#include "uthash.h"
+
 #define MIN(a,b) ((a) < (b) ? (a) : (b))
 
 #define EXT_CHUNK_SIZE                 "chunk_size"
@@ -27,7 +28,7 @@
 #define EXT_SERVER_MAX_WINDOW_BITS     "server_max_window_bits"
 #define EXT_CLIENT_MAX_WINDOW_BITS     "client_max_window_bits"
 
-#define MAX_CHUNK_SIZE UINT_MAX
+#define MAX_CHUNK_SIZE INT_MAX
 #define MIN_CHUNK_SIZE 1
 #define SERVER_MAX_MEM_LEVEL MAX_MEM_LEVEL
 #define SERVER_MIN_MEM_LEVEL 1
@@ -36,6 +37,13 @@
 #define CLIENT_MAX_WINDOW_BITS 15
 #define CLIENT_MIN_WINDOW_BITS 8 
 
+// The flush marker that is left out at the end of every compressed message
+#define FLUSH_MARKER "\x00\x00\xff\xff"
+#define FLUSH_MARKER_SIZE 4
+
+// The largest window of the decompressor
+#define MAX_WINDOW_SIZE (1 << CLIENT_MAX_WINDOW_BITS)
+
 // Parameters for PMCE
 typedef struct {
     bool server_no_context_takeover;
@@ -117,14 +125,80 @@ static inline char *trim(char* str)
     return str;
 }
 
-static void parse_param(const char *param, param_t *p) {
-    int bits, j;
-    char *sep, *sepptr;
-    size_t params_length = strlen(param);
+/**
+ * Takes the next parameter from a list of parameters separated by semicolons.
+ *
+ * @param   list    [char **]   "The rest of the list, which is modified"
+ * @param   value   [char **]   "Will be the value of the parameter, or NULL if it has none"
+ * @return          [char *]    "The name of the parameter, or NULL at the end of the list"
+ */
+static char *next_param(char **list, char **value) {
+    char *param = *list;
+
+    *value = NULL;
+
+    if (NULL == param) {
+        return NULL;
+    }
+
+    if (NULL != (*list = strchr(param, ';'))) {
+        *(*list)++ = '\0';
+    }
+
+    if (NULL != (*value = strchr(param, '='))) {
+        *(*value)++ = '\0';
+        *value = trim(*value);
+    }
+
+    return trim(param);
+}
+
+/**
+ * Converts a decimal number without leading zeros.
+ *
+ * @param   value   [const char *]  "The number or NULL"
+ * @param   min     [long int]      "The smallest number allowed"
+ * @param   max     [long int]      "The largest number allowed"
+ * @param   number  [long int *]    "Will be the number"
+ * @return          [bool]          "Whether it is a number that is allowed"
+ */
+static bool parse_number(const char *value, long int min, long int max, long int *number) {
+    size_t i;
+
+    if (NULL == value || value[0] == '\0' || (value[0] == '0' && value[1] != '\0')) {
+        return false;
+    }
+
+    for (i = 0; value[i] != '\0'; i++) {
+        if (value[i] < '0' || value[i] > '9') {
+            return false;
+        }
+    }
+
+    *number = strtol(value, NULL, 10);
+
+    return *number >= min && *number <= max;
+}
+
+/**
+ * Reads the parameters of an offer and determines what is agreed on.
+ *
+ * @param   param   [const char *]  "The parameters of the offer"
+ * @param   p       [param_t *]     "Will be the parameters agreed on"
+ * @return          [bool]          "Whether the offer can be accepted"
+ */
+static bool parse_param(const char *param, param_t *p) {
+    long int bits;
+    char *name, *value, *list = NULL;
+    bool snct = false, cnct = false, smwb = false, cmwb = false;
+    size_t params_length = NULL == param ? 0 : strlen(param);
     char buffer[params_length+1];
 
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
+    if (params_length > 0) {
+        memcpy(buffer, param, params_length);
+        buffer[params_length] = '\0';
+        list = buffer;
+    }
 
     // Server defaults
     p->client_no_context_takeover = default_client_no_context_takeover;
@@ -132,103 +206,63 @@ static void parse_param(const char *param, param_t *p) {
     p->server_max_window_bits = default_server_window_bits;
     p->client_max_window_bits = 0;
 
-    sep = trim(strtok_r(buffer, ";", &sepptr));
-    while ( likely(NULL != sep) ) {
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' && sep[j] != '\0' ) {
-                j++;
-            }
+    while ( likely(NULL != (name = next_param(&list, &value))) ) {
+        if (strcmp(EXT_CLIENT_MAX_WINDOW_BITS, name) == 0 && ! cmwb) {
+            cmwb = true;
+            p->client_max_window_bits = default_client_window_bits;
 
-            if (sep[j] != '\0') {
-                j++;
-                bits = strtol(sep+j, NULL, 10);
+            if (NULL != value) {
+                if ( unlikely(! parse_number(value, CLIENT_MIN_WINDOW_BITS, CLIENT_MAX_WINDOW_BITS, &bits)) ) {
+                    return false;
+                }
 
-                p->client_max_window_bits = MIN(bits, CLIENT_MAX_WINDOW_BITS);
-            } else {
-                // Default
-                p->client_max_window_bits = default_client_window_bits;
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' ) {
-                j++;
+                p->client_max_window_bits = MIN(bits, default_client_window_bits);
             }
+        } else if (strcmp(EXT_SERVER_MAX_WINDOW_BITS, name) == 0 && ! smwb) {
+            smwb = true;
 
-            j++;
-            bits = strtol(sep+j, NULL, 10);
-
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
+            // A window of 8 bits is not supported by zlib
+            if ( unlikely(! parse_number(value, SERVER_MIN_WINDOW_BITS+1, SERVER_MAX_WINDOW_BITS, &bits)) ) {
+                return false;
             }
 
-            p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
-        } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
+            p->server_max_window_bits = MIN(bits, default_server_window_bits);
+        } else if (strcmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, name) == 0 && ! cnct && NULL == value) {
+            cnct = true;
             p->client_no_context_takeover = true;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
+        } else if (strcmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, name) == 0 && ! snct && NULL == value) {
+            snct = true;
             p->server_no_context_takeover = true;
+        } else if ( unlikely(name[0] != '\0' || NULL != value) ) {
+            // The parameter is unknown, invalid or repeated
+            return false;
         }
-
-        sep = trim(strtok_r(NULL, ";", &sepptr));
     }
-}
-
-static char * negotiate(char *param, wss_comp_t *comp) {
-    size_t snct_length = 0, cnct_length = 0, cmwb_length = 0, smwb_length = 0, accepted_length = 0, written = 0;
-    char *accepted = NULL;
-    param_t *p = &comp->params;
-
-    parse_param(param, p);
 
-    if (p->server_no_context_takeover) {
-        // server_no_contect_takeover
-        snct_length = strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)+1;
-        accepted_length += snct_length;
-    }
+    return true;
+}
 
-    if (p->client_no_context_takeover) {
-        // client_no_context_takeover
-        cnct_length = strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)+1;
-        accepted_length += cnct_length;
-    }
+static char *negotiate(param_t *p) {
+    char *accepted, client[sizeof(EXT_CLIENT_MAX_WINDOW_BITS)+sizeof("=15;")];
+    size_t length;
 
+    client[0] = '\0';
     if (p->client_max_window_bits > 0) {
-        // client_max_window_bits=%d;
-        cmwb_length = strlen(EXT_CLIENT_MAX_WINDOW_BITS) + 1 + (log10(p->client_max_window_bits)+1) + 1;
-        accepted_length += cmwb_length;
+        snprintf(client, sizeof(client), "%s=%d;", EXT_CLIENT_MAX_WINDOW_BITS, p->client_max_window_bits);
     }
 
-    // server_max_window_bits=%d
-    smwb_length = strlen(EXT_SERVER_MAX_WINDOW_BITS) + 1 + (log10(p->server_max_window_bits)+1);
-    accepted_length += smwb_length;
-
-    if ( likely(NULL != (accepted = allocs.malloc((accepted_length+1)*sizeof(char)))) ) {
-        memset(accepted, '\0', accepted_length+1);
-
-        if (p->server_no_context_takeover) {
-            // server_no_contect_takeover;
-            snprintf(accepted+written, snct_length+1, "%s;", EXT_SERVER_NO_CONTEXT_TAKEOVER);
-            written += snct_length;
-        }
-
-        if (p->client_no_context_takeover) {
-            // client_no_context_takeover;
-            snprintf(accepted+written, cnct_length+1, "%s;", EXT_CLIENT_NO_CONTEXT_TAKEOVER);
-            written += cnct_length;
-        }
-
-        if (p->client_max_window_bits > 0) {
-            // client_max_window_bits=%d;
-            snprintf(accepted+written, cmwb_length+1, "%s=%d;", EXT_CLIENT_MAX_WINDOW_BITS, p->client_max_window_bits);
-            written += cmwb_length;
-        }
+    // Each of the parameters followed by a semicolon, and the last one
+    length = sizeof(EXT_SERVER_NO_CONTEXT_TAKEOVER)+1 + sizeof(EXT_CLIENT_NO_CONTEXT_TAKEOVER)+1 +
+        sizeof(client) + sizeof(EXT_SERVER_MAX_WINDOW_BITS) + sizeof("=15");
 
-        // server_max_window_bits=%d
-        snprintf(accepted+written, smwb_length+1, "%s=%d", EXT_SERVER_MAX_WINDOW_BITS, p->server_max_window_bits);
+    if ( likely(NULL != (accepted = allocs.malloc(length*sizeof(char)))) ) {
+        snprintf(accepted, length, "%s%s%s%s=%d",
+                p->server_no_context_takeover ? EXT_SERVER_NO_CONTEXT_TAKEOVER ";" : "",
+                p->client_no_context_takeover ? EXT_CLIENT_NO_CONTEXT_TAKEOVER ";" : "",
+                client, EXT_SERVER_MAX_WINDOW_BITS, p->server_max_window_bits);
     }
 
-    return accepted;    
+    return accepted;
 }
 
 static void *zalloc(void *opaque, unsigned items, unsigned size) {
@@ -273,110 +307,160 @@ static bool init_comp(wss_comp_t *comp) {
     return true;
 }
 
+static void free_comp(wss_comp_t *comp) {
+    (void)inflateEnd(&comp->decompressor);
+    (void)deflateEnd(&comp->compressor);
+
+    allocs.free(comp);
+}
+
 /**
- * Event called when extension is initialized.
+ * Finds the compressor of a session, which is used by that session only.
  *
- * @param 	config	[char *]     "The configuration of the extension"
- * @return 	        [void]
+ * @param 	fd	    [int]               "The filedescriptor of the session"
+ * @return 	        [wss_comp_t *]      "The compressor or NULL if there is none"
  */
-void onInit(char *config) {
-    int err;
-    long int val;
-    size_t i, j;
-    regex_t re;
-    size_t nmatch = 8;
-    regmatch_t matches[nmatch];
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits\\s*=\\s*[0-9]+)|(memory_level\\s*=\\s*[0-9]+)|(chunk_size\\s*=\\s*[0-9]+))\\s*;?\\s*)*$";
+static wss_comp_t *find_comp(int fd) {
+    wss_comp_t *comp = NULL;
 
-    if ( NULL == config ) {
-        return;
+    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
+        return NULL;
     }
-    size_t params_length = strlen(config);
-    char buffer[params_length+1];
 
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
-        return;
-    } 
+    HASH_FIND_INT(compressors, &fd, comp);
 
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, config, params_length);
+    pthread_mutex_unlock(&lock);
 
-    err = regexec(&re, buffer, nmatch, matches, 0);
-    if ( unlikely(err != 0) ) {
-        return;
-    }
+    return comp;
+}
 
-    for (i = 3; likely(i < nmatch); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
+/**
+ * Starts a new stream after the last one ended. What was decompressed so far
+ * can still be referenced by the new stream.
+ *
+ * @param 	strm	[z_stream *]        "The decompressor"
+ * @return 	        [bool]              "Whether it succeeded"
+ */
+static bool inflate_continue(z_stream *strm) {
+    bool ret;
+    uInt length = 0;
+    Bytef *window;
 
-        buffer[matches[i].rm_eo] = '\0';
+    if ( unlikely(NULL == (window = allocs.malloc(MAX_WINDOW_SIZE))) ) {
+        return false;
+    }
 
-        if ( strncmp(EXT_CHUNK_SIZE, buffer+matches[i].rm_so, strlen(EXT_CHUNK_SIZE)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
+    ret = Z_OK == inflateGetDictionary(strm, window, &length) &&
+        Z_OK == inflateReset(strm) &&
+        (length == 0 || Z_OK == inflateSetDictionary(strm, window, length));
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < MIN_CHUNK_SIZE || MAX_CHUNK_SIZE < val) {
-                continue;
-            }
-            default_chunk_size = val;
-        } else 
-        if ( strncmp(EXT_MEMORY_LEVEL, buffer+matches[i].rm_so, strlen(EXT_MEMORY_LEVEL)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
+    allocs.free(window);
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < SERVER_MIN_MEM_LEVEL || SERVER_MAX_MEM_LEVEL < val) {
-                continue;
-            }
-            default_memory_level = val;
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
+    return ret;
+}
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                continue;
+/**
+ * Decompresses a part of a message.
+ *
+ * @param 	strm	    [z_stream *]    "The decompressor"
+ * @param 	part	    [const char *]  "The part of the compressed message"
+ * @param 	part_length	[size_t]        "The length of the part"
+ * @param 	message	    [char **]       "The message, to which the part is appended"
+ * @param 	length	    [size_t *]      "The length of the message"
+ * @param 	size	    [size_t *]      "The allocated size of the message"
+ * @return 	            [bool]          "Whether it could be decompressed"
+ */
+static bool decompress(z_stream *strm, const char *part, size_t part_length, char **message, size_t *length, size_t *size) {
+    int err;
+    size_t room;
+    size_t consumed = 0;
+
+    while (1) {
+        if (*size == *length) {
+            *size += default_chunk_size;
+            if ( unlikely(NULL == (*message = allocs.realloc(*message, *size))) ) {
+                return false;
             }
+        }
 
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (val == SERVER_MIN_WINDOW_BITS) {
-                val++;
-            }
+        room = MIN(*size-*length, UINT_MAX);
+        strm->next_out = (Bytef *)*message+*length;
+        strm->avail_out = room;
+        strm->next_in = (Bytef *)part+consumed;
+        strm->avail_in = MIN(part_length-consumed, UINT_MAX);
 
-            default_server_window_bits = val;
-        } else if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
+        err = inflate(strm, Z_SYNC_FLUSH);
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                continue;
-            }
+        consumed = (const char *)strm->next_in-part;
+        *length += room-strm->avail_out;
 
-            default_client_window_bits = val;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, buffer+matches[i].rm_so, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
-            default_server_no_context_takeover = true;
+        switch (err) {
+            case Z_OK:
+            // No progress was possible
+            case Z_BUF_ERROR:
+                if (consumed == part_length && strm->avail_out > 0) {
+                    return true;
+                }
+                break;
+            case Z_STREAM_END:
+                if ( unlikely(! inflate_continue(strm)) ) {
+                    return false;
+                }
+
+                if (consumed == part_length) {
+                    return true;
+                }
+                break;
+            default:
+                return false;
         }
     }
+}
 
-    regfree(&re);
+/**
+ * Event called when extension is initialized.
+ *
+ * @param 	config	[char *]     "The configuration of the extension"
+ * @return 	        [void]
+ */
+void onInit(char *config) {
+    long int val;
+    char *name, *value, *list;
+    size_t params_length = NULL == config ? 0 : strlen(config);
+    char buffer[params_length+1];
 
     pthread_mutex_init(&lock, NULL);
+
+    if (params_length == 0) {
+        return;
+    }
+
+    memcpy(buffer, config, params_length);
+    buffer[params_length] = '\0';
+    list = buffer;
+
+    while ( likely(NULL != (name = next_param(&list, &value))) ) {
+        if (strcmp(EXT_CHUNK_SIZE, name) == 0) {
+            if ( likely(parse_number(value, MIN_CHUNK_SIZE, MAX_CHUNK_SIZE, &val)) ) {
+                default_chunk_size = val;
+            }
+        } else if (strcmp(EXT_MEMORY_LEVEL, name) == 0) {
+            if ( likely(parse_number(value, SERVER_MIN_MEM_LEVEL, SERVER_MAX_MEM_LEVEL, &val)) ) {
+                default_memory_level = val;
+            }
+        } else if (strcmp(EXT_SERVER_MAX_WINDOW_BITS, name) == 0) {
+            if ( likely(parse_number(value, SERVER_MIN_WINDOW_BITS, SERVER_MAX_WINDOW_BITS, &val)) ) {
+                // Is really 8, but zlib does not support value 8 so increase to 9
+                default_server_window_bits = val == SERVER_MIN_WINDOW_BITS ? val+1 : val;
+            }
+        } else if (strcmp(EXT_CLIENT_MAX_WINDOW_BITS, name) == 0) {
+            if ( likely(parse_number(value, CLIENT_MIN_WINDOW_BITS, CLIENT_MAX_WINDOW_BITS, &val)) ) {
+                default_client_window_bits = val;
+            }
+        } else if (strcmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, name) == 0 && NULL == value) {
+            default_server_no_context_takeover = true;
+        }
+    }
 }
 
 /**
@@ -404,129 +488,45 @@ void setAllocators(WSS_malloc_t extmalloc, WSS_realloc_t extrealloc, WSS_free_t
  * @return 	            [void]
  */
 void onOpen(int fd, char *param, char **accepted, bool *valid) {
-    int err, j;
-    long int val;
-    size_t i;
-    regex_t re;
-    size_t nmatch = 7;
-    regmatch_t matches[nmatch];
     wss_comp_t *comp;
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
-
-    if ( NULL == param ) {
-        if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-            *valid = false;
-            return;
-        }
-
-        if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-            *valid = false;
-            return;
-        }
-
-        comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
-        comp->params.server_max_window_bits = default_server_window_bits;
-        comp->params.client_no_context_takeover = default_client_no_context_takeover;
-        comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-        if ( unlikely(! init_comp(comp)) ) {
-            allocs.free(comp);
-            *valid = false;
-            return;
-        }
-
-        HASH_ADD_INT(compressors, fd, comp);
 
-        pthread_mutex_unlock(&lock);
+    *accepted = NULL;
+    *valid = false;
 
-        *valid = true;
+    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
         return;
     }
-    size_t params_length = strlen(param);
-    char buffer[params_length+1];
-
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
-        *valid = false;
-        return;
-    } 
-
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
+    memset(comp, '\0', sizeof(wss_comp_t));
+    comp->fd = fd;
 
-    err = regexec(&re, buffer, nmatch, matches, 0);
-    if ( unlikely(err != 0) ) {
-        *valid = false;
+    if ( unlikely(! parse_param(param, &comp->params)) ) {
+        allocs.free(comp);
         return;
     }
 
-    for (i = 3; likely(i < nmatch-1); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while (buffer[j] != '=' && buffer[j] != '\0') {
-                j++;
-            }
-
-            if (buffer[j] != '\0') {
-                j++;
-                val = strtol(buffer+j, NULL, 10);
-                if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                    *valid = false;
-                    return;
-                }
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                *valid = false;
-                return;
-            }
-        }
-    }
-
-    regfree(&re);
-
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        *valid = false;
+    if ( unlikely(! init_comp(comp)) ) {
+        allocs.free(comp);
         return;
     }
 
-    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-        *valid = false;
+    if ( unlikely(NULL == (*accepted = negotiate(&comp->params))) ) {
+        free_comp(comp);
         return;
     }
 
-    comp->fd = fd;
-    comp->params.client_max_window_bits = default_client_window_bits;
-    comp->params.server_max_window_bits = default_server_window_bits;
-    comp->params.client_no_context_takeover = default_client_no_context_takeover;
-    comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-    *accepted = negotiate(param, comp);
-
-    if ( unlikely(! init_comp(comp)) ) {
-        allocs.free(comp);
-        *valid = false;
+    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
+        free_comp(comp);
         return;
     }
 
     HASH_ADD_INT(compressors, fd, comp);
-
-    *valid = true;
+    *valid = NULL != comp->hh.tbl;
 
     pthread_mutex_unlock(&lock);
+
+    if ( unlikely(! *valid) ) {
+        free_comp(comp);
+    }
 }
 
 /**
@@ -548,99 +548,51 @@ void inFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void inFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    size_t j;
+    bool valid = true;
     char *message = NULL;
-    size_t payload_length = 0;
-    wss_comp_t *comp = NULL;
-    size_t current_length = 0;
-    size_t message_length = 0;
-    int flush_mask = Z_SYNC_FLUSH;
+    size_t length = 0, size = 0;
+    wss_comp_t *comp;
 
     if (! frames[0]->rsv1) {
         return;
     }
 
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
+    if ( unlikely(frames[0]->opcode >= 0x8 && frames[0]->opcode <= 0xA) ) {
         return;
     }
 
-    HASH_FIND_INT(compressors, &fd, comp);
-
-    pthread_mutex_unlock(&lock);
-
-    if ( unlikely(NULL == comp) ) {
+    if ( unlikely(NULL == (comp = find_comp(fd))) ) {
         return;
     }
 
-    for (j = 0; likely(j < len); j++) {
-        payload_length += frames[j]->payloadLength; 
+    for (j = 0; likely(valid && j < len); j++) {
+        valid = decompress(&comp->decompressor, frames[j]->payload+frames[j]->extensionDataLength,
+                frames[j]->applicationDataLength, &message, &length, &size);
     }
-    payload_length += 4;
-
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
 
-    for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+    if ( likely(valid) ) {
+        valid = decompress(&comp->decompressor, FLUSH_MARKER, FLUSH_MARKER_SIZE, &message, &length, &size);
     }
 
-    memcpy(payload+current_length, "\x00\x00\xff\xff", 4);
-
-    comp->decompressor.avail_in = payload_length;
-    comp->decompressor.next_in = (unsigned char *)payload;
-
-    if (comp->params.client_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
+    // A message ends at the end of a block. If it can not be decompressed, the
+    // rsv1 bit stays set, which makes the server close the session.
+    if ( unlikely(! valid || (comp->decompressor.data_type & (128 | 7)) != 128) ) {
+        allocs.free(message);
+        return;
     }
 
-    // Decompress data
-    do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+1); 
-
-        comp->decompressor.avail_out = default_chunk_size;
-        comp->decompressor.next_out = (unsigned char *)message+message_length;
-        switch (inflate(&comp->decompressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->decompressor.avail_out;
-    } while ( comp->decompressor.avail_out == 0 );
-
     // unset rsv1 bit
     frames[0]->rsv1 = false;
-    current_length = 0;
 
-    // Reallocate application data to contain the decompressed data in the same
-    // amount of frames
+    // The first frame now contains the whole message
+    allocs.free(frames[0]->payload);
+    frames[0]->payload = message;
     for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
         frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
+        frames[j]->applicationDataLength = j == 0 ? length : 0;
+        frames[j]->payloadLength = frames[j]->applicationDataLength;
     }
-
-    allocs.free(message);
 }
 
 /**
@@ -663,123 +615,72 @@ void outFrame(int fd, wss_frame_t *frame) {
  */
 void outFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t j, size;
-    char *message = NULL;
-    size_t payload_length = 0;
-    size_t current_length = 0;
-    size_t message_length = 0;
-    int flush_mask = Z_SYNC_FLUSH;
+    char *message;
+    size_t length = 0, offset = 0;
     wss_comp_t *comp;
+    z_stream *strm;
+    int err = Z_OK;
 
     if ( unlikely(frames[0]->opcode >= 0x8 && frames[0]->opcode <= 0xA) ) {
         return;
     }
 
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        return;
-    }
-
-    HASH_FIND_INT(compressors, &fd, comp);
-
-    pthread_mutex_unlock(&lock);
-
-    if ( unlikely(NULL == comp) ) {
+    if ( unlikely(NULL == (comp = find_comp(fd))) ) {
         return;
     }
 
     for (j = 0; likely(j < len); j++) {
-        payload_length += frames[j]->payloadLength; 
+        length += frames[j]->payloadLength;
     }
 
-    char payload[payload_length+1];
-    payload[payload_length] = '\0';
-
-    for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
-        current_length += frames[j]->payloadLength;
+    // There is nothing to compress
+    if ( unlikely(length == 0 || length > UINT_MAX-FLUSH_MARKER_SIZE-1) ) {
+        return;
     }
 
-    // https://github.com/madler/zlib/issues/149
-    if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_BLOCK;
+    // The compressed message shall fit into the frames
+    if ( unlikely(NULL == (message = allocs.malloc(length+FLUSH_MARKER_SIZE+1))) ) {
+        return;
     }
 
-    // Compress whole message
-    comp->compressor.avail_in = payload_length;
-    comp->compressor.next_in = (unsigned char *)payload;
+    strm = &comp->compressor;
+    strm->next_out = (Bytef *)message;
+    strm->avail_out = length+FLUSH_MARKER_SIZE+1;
 
-    do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
+    // Compress whole message
+    for (j = 0; likely(j < len && err == Z_OK); j++) {
+        strm->next_in = (Bytef *)frames[j]->payload;
+        strm->avail_in = frames[j]->payloadLength;
+
+        if ( j+1 == len ) {
+            err = deflate(strm, Z_SYNC_FLUSH);
+        } else if (strm->avail_in > 0) {
+            err = deflate(strm, Z_NO_FLUSH);
         }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+    }
 
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
-    } while ( comp->compressor.avail_out == 0 );
+    // If it does not become smaller, the message is sent uncompressed. The
+    // client knows nothing about it, so it must not be referenced later.
+    if ( unlikely(err != Z_OK || strm->avail_out == 0) ) {
+        (void)deflateReset(strm);
+        allocs.free(message);
+        return;
+    }
 
-    // https://github.com/madler/zlib/issues/149
     if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
-
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
-
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+        (void)deflateReset(strm);
     }
 
-    if ( unlikely(message_length < 5 || memcmp(message+message_length-4, "\x00\x00\xff\xff", 4) != 0) ) {
-        message[message_length] = '\x00';
-        message_length++;
-    } else {
-        memset(message+message_length-4, '\0', 4);
-        message_length -= 4;
-    }
+    length = (char *)strm->next_out-message-FLUSH_MARKER_SIZE;
 
     // set rsv1 bit
     frames[0]->rsv1 = true;
 
-    current_length = 0;
-
-    // Reallocate application data to contain the compressed data in the same
-    // amount of frames
+    // Distribute the compressed data over the same amount of frames
     for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
+        size = MIN(frames[j]->payloadLength, length-offset);
+        memcpy(frames[j]->payload, message+offset, size);
+        offset += size;
         frames[j]->extensionDataLength = 0;
         frames[j]->applicationDataLength = size;
         frames[j]->payloadLength = size;
@@ -807,10 +708,7 @@ void onClose(int fd) {
     if ( NULL != comp ) {
         HASH_DEL(compressors, comp);
 
-        (void)inflateEnd(&comp->decompressor);
-        (void)deflateEnd(&comp->compressor);
-
-        allocs.free(comp);
+        free_comp(comp);
     }
 
     pthread_mutex_unlock(&lock);
@@ -834,10 +732,7 @@ void onDestroy() {
         if ( NULL != comp ) {
             HASH_DEL(compressors, comp);
 
-            (void)inflateEnd(&comp->decompressor);
-            (void)deflateEnd(&comp->compressor);
-
-            allocs.free(comp);
+            free_comp(comp);
         }
     }
 
-- 
2.43.0


From 4d2e0b7aca7a5b8a770ee7f22e9b325177c08e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 28/40] fix: rsv bits that no extension has taken care of are
 an error

Control frames with rsv bits, and messages whose rsv bits are left over by the
extensions, were delivered; so were rsv bits when all offers were declined,
which was answered by an empty header of extensions.
---
 src/header.c |  5 +++++
 src/worker.c | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/header.c b/src/header.c
index 0e36d25..e3c397d 100644
--- a/src/header.c
+++ b/src/header.c
@@ -471,6 +471,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             }
         }
         WSS_free((void **)&exts);
+
+        // No extension is used when none of the offers was accepted
+        if ( 0 == header->ws_extensions_count ) {
+            WSS_free((void **)&header->ws_extensions);
+        }
     }
 
     if ( unlikely(header->ws_type == UNKNOWN
diff --git a/src/worker.c b/src/worker.c
index bd3abc5..dcf9788 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -901,6 +901,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     wss_frame_t *frame;
     char *msg;
     bool closing = false;
+    bool invalid;
     size_t offset = 0, prev_offset = 0;
     wss_frame_t **frames = NULL;
     char *payload = NULL;
@@ -1012,8 +1013,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             break;
         }
 
-        // If no extension is negotiated, the rsv bits must not be used
-        if ( unlikely(NULL == session->header->ws_extensions && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
+        // If no extension is negotiated, the rsv bits must not be used. Control
+        // frames are not touched by the extensions.
+        if ( unlikely((NULL == session->header->ws_extensions || frame->opcode >= 0x8) && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
             WSS_log_trace("Protocol Error: rsv bits must not be set without using extensions");
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_PROTOCOL, NULL);
@@ -1274,6 +1276,26 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                         len);
             }
 
+            // The extensions clear the rsv bits of what they have handled
+            invalid = false;
+            for (j = starting_frame; likely(j <= i); j++) {
+                invalid |= frames[j]->rsv1 || frames[j]->rsv2 || frames[j]->rsv3;
+            }
+
+            if ( unlikely(invalid) ) {
+                WSS_log_trace("Protocol Error: the extensions were not able to restore the message");
+
+                for (j = starting_frame; likely(j < frames_length+pending); j++) {
+                    WSS_free_frame(frames[j]);
+                }
+                frames[starting_frame] = WSS_closing_frame(CLOSE_PROTOCOL, NULL);
+                frames_length = starting_frame+1;
+                pending = 0;
+                i = starting_frame;
+                len = 1;
+                closing = true;
+            }
+
             WSS_log_trace("Assembling message");
 
             for (j = starting_frame; likely(j <= i); j++) {
-- 
2.43.0


From 931bda0754e21e18a80f31c6da65835f06539e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 29/40] fix: extensions only see outgoing messages that are
 sent

A message that was dropped because too many were waiting had changed the state of
the compression already, and all later messages could not be decompressed.
---
 src/message.c | 52 +++++++++++++++++++++++++++------------------------
 src/worker.c  |  2 +-
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/message.c b/src/message.c
index 5c31f97..8dce2d7 100644
--- a/src/message.c
+++ b/src/message.c
@@ -32,6 +32,28 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         return;
     }
 
+    if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_log_error("Unable to allocate message structure");
+
+        pthread_mutex_unlock(&session->lock);
+
+        return;
+    }
+
+    WSS_log_trace("Acquiring space in ringbuffer");
+
+    // What the extensions have seen must be sent to the client, hence the space
+    // is acquired before
+    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
+        WSS_log_error("Failed to acquire space in ringbuffer");
+
+        WSS_message_free(m);
+
+        pthread_mutex_unlock(&session->lock);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -49,19 +71,9 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
-        pthread_mutex_unlock(&session->lock);
-
-        return;
-    }
-
-    if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
-        WSS_log_error("Unable to allocate message structure");
-
-        WSS_free((void **) &out);
-
-        pthread_mutex_unlock(&session->lock);
-
-        return;
+        if ( NULL != session->header->ws_extensions ) {
+            session->closing = true;
+        }
     }
     m->msg = out;
     m->length = out_length;
@@ -69,22 +81,14 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
     WSS_log_trace("Putting message into ringbuffer");
 
-    if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
-        WSS_log_error("Failed to acquire space in ringbuffer");
-
-        WSS_message_free(m);
-
-        pthread_mutex_unlock(&session->lock);
-
-        return;
-    }
-
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
 
     // If earlier messages are still waiting to be written, so does this one
     if ( likely(session->state != WRITING) ) {
-        WSS_write(server, session);
+        if ( likely(! session->closing) ) {
+            WSS_write(server, session);
+        }
 
         // A worker that is serving the session looks after it itself
         if ( unlikely(! session->busy && (session->state == WRITING || session->closing)) ) {
diff --git a/src/worker.c b/src/worker.c
index dcf9788..96cd6f7 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1400,7 +1400,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(closing) ) {
                 WSS_log_trace("No further messages are necessary as client connection is closing");
                 bytes_sent = message_length;
-            } else if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
+            } else if ( unlikely(message->framed && message_length > 0 && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                 closing = true;
             }
 
-- 
2.43.0


From 65de260385f86f2a429e4e6416b07e3bcee578b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 30/40] fix: a failing allocation costs the connection, not the
 server

The process ended when the table of sessions could not grow, frames that could
not be allocated were dereferenced, and memory leaked.
---
 src/frame.c                        |  5 +++++
 src/message.c                      |  4 +++-
 src/pool.c                         | 12 +++++-----
 src/session.c                      | 16 +++++++++++++
 src/worker.c                       | 36 +++++++++++++++++++++++++++---
 subprotocols/broadcast/broadcast.c |  7 ++++++
 6 files changed, 70 insertions(+), 10 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 806999c..0c2aa9f 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -567,6 +567,11 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame = (NULL == msg) ? WSS_closing_frame(code, NULL) : closing_frame(code, msg, msg_length);
+        if ( unlikely(NULL == frame) ) {
+            WSS_free((void **)&frames);
+            *fs = NULL;
+            return 0;
+        }
         frames[0] = frame;
         return 1;
     }
diff --git a/src/message.c b/src/message.c
index 8dce2d7..080d59e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -125,7 +125,9 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
 
     frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
 
-    WSS_message_send_frames(server, session, frames, frames_count);
+    if ( likely(frames_count > 0) ) {
+        WSS_message_send_frames(server, session, frames, frames_count);
+    }
 
     for (k = 0; likely(k < frames_count); k++) {
         WSS_free_frame(frames[k]);
diff --git a/src/pool.c b/src/pool.c
index 5e6cfc1..683e3ee 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -268,13 +268,11 @@ int threadpool_free(threadpool_t *pool) {
         return -1;
     }
 
-    /* Did we manage to allocate ? */
-    if (pool->threads) {
-        pthread_attr_destroy(&pool->attr);
-        WSS_free((void **) &pool->threads);
-        WSS_free((void **) &pool->queue);
+    pthread_attr_destroy(&pool->attr);
 
-        /* Because we allocate pool->threads after initializing the
+    /* Did we manage to allocate ? */
+    if (pool->threads && pool->queue) {
+        /* Because we check the allocations after initializing the
            mutex and condition variable, we're sure they're
            initialized. Let's lock the mutex just in case. */
         pthread_mutex_lock(&(pool->lock));
@@ -282,6 +280,8 @@ int threadpool_free(threadpool_t *pool) {
         pthread_cond_destroy(&(pool->notify));
     }
 
+    WSS_free((void **) &pool->threads);
+    WSS_free((void **) &pool->queue);
     WSS_free((void **) &pool);
     return 0;
 }
diff --git a/src/session.c b/src/session.c
index f3810f9..5fb515e 100644
--- a/src/session.c
+++ b/src/session.c
@@ -9,6 +9,9 @@
 #include <pthread.h> 			/* pthread_create, pthread_t, pthread_attr_t
                                    pthread_rwlock_init */
 
+// A table that cannot be allocated must not end the server
+#define HASH_NONFATAL_OOM 1
+
 #include "session.h"
 #include "log.h"
 #include "error.h"
@@ -164,6 +167,19 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     HASH_ADD_INT(sessions, fd, session);
 
+    if ( unlikely(NULL == session->hh.tbl) ) {
+        WSS_log_error("Unable to allocate memory for the table of sessions");
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_cond_destroy(&session->cond_jobs);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session->ip);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return session;
diff --git a/src/worker.c b/src/worker.c
index 96cd6f7..4804431 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -904,6 +904,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     bool invalid;
     size_t offset = 0, prev_offset = 0;
     wss_frame_t **frames = NULL;
+    wss_frame_t **all;
     char *payload = NULL;
     size_t payload_length = 0;
     size_t frames_length = 0;
@@ -1113,12 +1114,19 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_pong_frame(frame);
         }
 
-        if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
-                        (frames_length+1)*sizeof(wss_frame_t *)))) ) {
-            WSS_log_error("Unable to reallocate frames");
+        if ( unlikely(NULL == frame || NULL == (all = WSS_malloc((frames_length+1)*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            WSS_free_frame(frame);
+            free_frames(frames, frames_length);
+            WSS_free((void **) &payload);
             session->closing = true;
             return;
         }
+        if ( likely(NULL != frames) ) {
+            memcpy(all, frames, frames_length*sizeof(wss_frame_t *));
+            WSS_free((void **) &frames);
+        }
+        frames = all;
         frames[frames_length] = frame;
         frames_length += 1;
 
@@ -1241,6 +1249,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         frames_length = starting_frame;
     }
 
+    // The closing frame that replaces invalid frames is always the last one
+    if ( unlikely(frames_length > 0 && NULL == frames[frames_length-1]) ) {
+        WSS_log_error("Unable to allocate closing frame");
+        free_frames(frames, frames_length);
+        session->closing = true;
+        return;
+    }
+
     WSS_log_trace("Frames was validated");
 
     WSS_log_trace("Sending frames to receivers");
@@ -1294,6 +1310,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 i = starting_frame;
                 len = 1;
                 closing = true;
+
+                if ( unlikely(NULL == frames[starting_frame]) ) {
+                    WSS_log_error("Unable to allocate closing frame");
+                    free_frames(frames, frames_length);
+                    session->closing = true;
+                    return;
+                }
             }
 
             WSS_log_trace("Assembling message");
@@ -1334,6 +1357,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 WSS_free((void **) &msg);
                 msg_length = 0;
                 closing = true;
+
+                if ( unlikely(NULL == frames[starting_frame]) ) {
+                    WSS_log_error("Unable to allocate closing frame");
+                    free_frames(frames, frames_length);
+                    session->closing = true;
+                    return;
+                }
             }
 
             if ( likely(frames[starting_frame]->opcode == TEXT_FRAME || frames[starting_frame]->opcode == BINARY_FRAME) ) {
diff --git a/subprotocols/broadcast/broadcast.c b/subprotocols/broadcast/broadcast.c
index bee4612..076e57f 100644
--- a/subprotocols/broadcast/broadcast.c
+++ b/subprotocols/broadcast/broadcast.c
@@ -1,6 +1,9 @@
 #include <stdlib.h>
 #include <pthread.h>
 
+// A table that cannot be allocated must not end the server
+#define HASH_NONFATAL_OOM 1
+
 #include "broadcast.h"
 #include "predict.h"
 
@@ -110,6 +113,10 @@ void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
 
     HASH_ADD_INT(clients, fd, client);
 
+    if ( unlikely(NULL == client->hh.tbl) ) {
+        allocs.free(client);
+    }
+
     pthread_rwlock_unlock(&lock);
 
     return;
-- 
2.43.0


From a88d646df9641aad53e42cbac6fe4cc41dd61abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 31/40] fix: a ring buffer without a free worker record refuses
 instead of sharing one

register_worker returned the last record it looked at although it belongs to
another producer.
---
 src/ringbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..aa3fe3d 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -195,8 +195,8 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 			break;
 	}
 
-	/* Register this worker-record. */
-	return w;
+	/* Pass back the worker-record, if one has been registered. */
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From e58647141fb85078ec6f366b8cd6a07140a6af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 32/40] fix: release the encoder when the accept key cannot be
 allocated

---
 src/ssl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ssl.c b/src/ssl.c
index 2d241c5..ec2f485 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -745,6 +745,7 @@ size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key) {
 
     acceptKeyLength = mem_bio_mem_ptr->length;
     if ( unlikely(NULL == (*accept_key = WSS_malloc(acceptKeyLength))) ) {
+        BIO_free_all(b64_bio);
         return 0;
     }
     memcpy(*accept_key, (*mem_bio_mem_ptr).data, acceptKeyLength);
-- 
2.43.0


From 8e41bc1b4be98fe058e92cf523bea84d8dade873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 33/40] fix: a ping that cannot be allocated

---
 src/frame.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frame.c b/src/frame.c
index 0c2aa9f..cbe6348 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -44,6 +44,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
-- 
2.43.0


From c2033a9c562f9ed6a49fab0bf00b5c084d27902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 34/40] fix: close the connection when its close frame can not
 be queued

---
 src/message.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/message.c b/src/message.c
index 080d59e..8323721 100644
--- a/src/message.c
+++ b/src/message.c
@@ -12,6 +12,29 @@
 
 #include <time.h>
 
+/**
+ * Function that handles frames that can not be sent. If the connection was to
+ * be closed by them, it is closed as soon as the earlier messages are written.
+ *
+ * @param   server          [wss_server_t *]    "The server instance"
+ * @param   session         [wss_session_t *]   "The session, which must be locked"
+ * @param   frames          [wss_frame_t **]    "The websocket frames"
+ * @param   frames_count    [size_t]            "The amount of frames"
+ * @return                  [void]
+ */
+static void unsent(wss_server_t *server, wss_session_t *session, wss_frame_t **frames, size_t frames_count) {
+    if ( likely(frames_count == 0 || frames[0]->opcode != CLOSE_FRAME) ) {
+        return;
+    }
+
+    session->eof = true;
+
+    // A worker that is serving the session looks after it itself
+    if ( unlikely(! session->busy && session->state != WRITING) ) {
+        WSS_poll_set_write(server, session->fd);
+    }
+}
+
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     ssize_t off;
@@ -35,6 +58,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
         WSS_log_error("Unable to allocate message structure");
 
+        unsent(server, session, frames, frames_count);
+
         pthread_mutex_unlock(&session->lock);
 
         return;
@@ -49,6 +74,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        unsent(server, session, frames, frames_count);
+
         pthread_mutex_unlock(&session->lock);
 
         return;
@@ -73,6 +100,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         if ( NULL != session->header->ws_extensions ) {
             session->closing = true;
+        } else {
+            unsent(server, session, frames, frames_count);
         }
     }
     m->msg = out;
-- 
2.43.0


From 54170762c1035c08dc1f866aaf84a8af9ea43a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:17 +0000
Subject: [PATCH 35/40] fix: set the compression and the cipher preference as
 options of TLS, not as modes

---
 src/ssl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index ec2f485..646e478 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -130,11 +130,13 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if (! server->config->ssl_compression) {
         WSS_log_trace("Do not use compression even if it is supported.");
-        SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+        SSL_CTX_set_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+    } else {
+        SSL_CTX_clear_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
     }
 
     WSS_log_trace("When choosing a cipher, use the server's preferences instead of the client preferences.");
-    SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
+    SSL_CTX_set_options(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 
     WSS_log_trace("Disable use of session and ticket cache and resumption");
     SSL_CTX_set_session_cache_mode(server->ssl_ctx, SSL_SESS_CACHE_OFF);
-- 
2.43.0


From 4d2e8c08554d96f86db3885ebcdd53f298f0badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 36/40] fix: refuse cipher lists and suites that the TLS
 library does not take instead of serving with its defaults

---
 src/ssl.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 646e478..aba1f29 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -158,13 +158,21 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if ( NULL != server->config->ssl_cipher_list ) {
         WSS_log_trace("Setting cipher list");
-        SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher list: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
     }
 
     if ( NULL != server->config->ssl_cipher_suites ) {
 #if ! defined(LIBRESSL_VERSION_NUMBER) && ! defined(OPENSSL_IS_BORINGSSL)
         WSS_log_trace("Setting cipher suites");
-        SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher suites: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
 #else
         if ( NULL != server->config->ssl_cipher_list ) {
             char list[strlen(server->config->ssl_cipher_list)+strlen(server->config->ssl_cipher_list)+2];
-- 
2.43.0


From cd923d21acbdf0060672e2e614a889dad674cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:15 +0000
Subject: [PATCH 37/40] fix: announce the length of the answer to an upgrade
 exactly when extensions are used

---
 src/worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 4804431..7498594 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -89,11 +89,11 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
-                headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
+                headers += (strlen(header->ws_extensions[j]->accepted)+1)*sizeof(char);
             }
-            headers += 2*sizeof(char);
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += (header->ws_extensions_count-1)*sizeof(char);
+        headers += 2*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
-- 
2.43.0


From 6b8fb4ddcfaddb6ab7fd9d4f4e31f17a8ce37e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:15 +0000
Subject: [PATCH 38/40] fix: pass incoming messages through the extensions in
 the reverse order

---
 src/worker.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 7498594..637bb19 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1276,17 +1276,18 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_trace("Applying %d extensions on input", session->header->ws_extensions_count);
 
-            // Apply extensions to collection of frames (message)
-            for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
+            // Apply extensions to collection of frames (message), in the
+            // opposite order of the one in which the sender applied them
+            for (j = session->header->ws_extensions_count; likely(j > 0); j--) {
                 // Apply extension perframe
                 for (k = 0; likely(k < len); k++) {
-                    session->header->ws_extensions[j]->ext->inframe(
+                    session->header->ws_extensions[j-1]->ext->inframe(
                             session->fd,
                             (void *)frames[k+starting_frame]);
                 }
 
                 // Apply extension for set of frames
-                session->header->ws_extensions[j]->ext->inframes(
+                session->header->ws_extensions[j-1]->ext->inframes(
                         session->fd,
                         frames+starting_frame,
                         len);
-- 
2.43.0


From 3b3e8143cd12355dda81301b607781f105021706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:15 +0000
Subject: [PATCH 39/40] fix: initialise the Python module of a plug-in instead
 of calling the function that is named like the plug-in

---
 src/extensions.c   | 2 +-
 src/subprotocols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 0efae5c..082f89f 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -141,7 +141,7 @@ void WSS_load_extensions(wss_config_t *config)
         }
 
         sprintf(pyname, "PyInit_%.*s", (int)name_length, name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
diff --git a/src/subprotocols.c b/src/subprotocols.c
index 77c1795..a7a12c7 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -131,7 +131,7 @@ void WSS_load_subprotocols(wss_config_t *config)
         }
 
         sprintf(pyname, "PyInit_%.*s", (int)name_length, name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
-- 
2.43.0


From e4f8aeed8bc44ee3932102fa186d0832a5667e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 40/40] fix: reset errno before epoll_ctl, a stale EINTR made
 its retry loop endless

---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index a301d78..fc75922 100644
--- a/src/event.c
+++ b/src/event.c
@@ -526,6 +526,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
     WSS_log_trace("Modifying filedescriptor on epoll eventlist");
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = events;
@@ -718,6 +719,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     WSS_log_trace("Removing session %d from epoll events", fd);
 
     do {
+        errno = 0;
         memset(&event, 0, sizeof(event));
 
         event.events = EPOLLIN | EPOLLOUT;
-- 
2.43.0

