From a7cda1d6258cf3d4629a2927af7f16039cd9141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 01/81] fix: keep the bytes after a NUL in body and
 configuration chunks

The signals that carry a chunk and its size declared the chunk as a plain
string, so GLib copied it only up to the first NUL byte and every handler
read size bytes out of the shorter copy.
---
 milter/client/milter-client-context.c            |  4 ++--
 milter/core/milter-command-decoder.c             |  4 ++--
 milter/core/milter-reply-signals.c               |  2 +-
 .../milter-manager-control-command-decoder.c     |  8 ++++++--
 .../milter-manager-control-reply-decoder.c       |  8 ++++++--
 milter/server/milter-server-context.c            | 16 ++++++++++++----
 6 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index a1f824c..e73b078 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -1749,7 +1749,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
@@ -1907,7 +1907,7 @@ milter_client_context_class_init (MilterClientContextClass *klass)
                      NULL,
                      MILTER_TYPE_STATUS,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d699104..4491ea7 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -177,7 +177,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                       G_TYPE_UINT64
 #else
@@ -194,7 +194,7 @@ milter_command_decoder_class_init (MilterCommandDecoderClass *klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/core/milter-reply-signals.c b/milter/core/milter-reply-signals.c
index 5b9c6e2..e234a0a 100644
--- a/milter/core/milter-reply-signals.c
+++ b/milter/core/milter-reply-signals.c
@@ -195,7 +195,7 @@ base_init (gpointer klass)
                      NULL,
                      G_TYPE_NONE,
                      2,
-                     G_TYPE_STRING,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
 #if GLIB_SIZEOF_SIZE_T == 8
                      G_TYPE_UINT64
 #else
diff --git a/milter/manager/milter-manager-control-command-decoder.c b/milter/manager/milter-manager-control-command-decoder.c
index de47820..55870ac 100644
--- a/milter/manager/milter-manager-control-command-decoder.c
+++ b/milter/manager/milter-manager-control-command-decoder.c
@@ -67,10 +67,14 @@ milter_manager_control_command_decoder_class_init (MilterManagerControlCommandDe
                      NULL, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
diff --git a/milter/manager/milter-manager-control-reply-decoder.c b/milter/manager/milter-manager-control-reply-decoder.c
index 3f7a1be..44712db 100644
--- a/milter/manager/milter-manager-control-reply-decoder.c
+++ b/milter/manager/milter-manager-control-reply-decoder.c
@@ -63,10 +63,14 @@ milter_manager_control_reply_decoder_class_init (MilterManagerControlReplyDecode
                      NULL, NULL,
  #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_NONE, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_NONE, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 }
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index a8a46ed..919d931 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -295,10 +295,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
@@ -311,10 +315,14 @@ milter_server_context_class_init (MilterServerContextClass *klass)
                      stop_on_accumulator, NULL,
 #if GLIB_SIZEOF_SIZE_T == 8
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT64
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT64
 #else
                      NULL,
-                     G_TYPE_BOOLEAN, 2, G_TYPE_STRING, G_TYPE_UINT
+                     G_TYPE_BOOLEAN, 2,
+                     G_TYPE_STRING | G_SIGNAL_TYPE_STATIC_SCOPE,
+                     G_TYPE_UINT
 #endif
             );
 
-- 
2.43.0


From bcc9d8779e68d9e1842b46b8c055c5e9d9705c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 02/81] fix: reject a packet whose length is zero or negative

A zero length made the decoders read past the packet (or interpret the
next packet's length as this packet's content) and a negative one made
them wait for more data forever.
---
 milter/core/milter-decoder.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 88bdf03..81ea669 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -401,7 +401,18 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                 milter_trace("[%u] [decoder][decode][length] <%d>",
                              priv->tag, priv->command_length);
                 g_string_erase(priv->buffer, 0, COMMAND_LENGTH_BYTES);
-                priv->state = IN_COMMAND_CONTENT;
+                if (priv->command_length < 1) {
+                    g_set_error(error,
+                                MILTER_DECODER_ERROR,
+                                MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                "command length should be 1 or more: <%d>",
+                                priv->command_length);
+                    success = FALSE;
+                    priv->state = IN_ERROR;
+                    loop = FALSE;
+                } else {
+                    priv->state = IN_COMMAND_CONTENT;
+                }
             }
             break;
         case IN_COMMAND_CONTENT:
-- 
2.43.0


From 9ffa69266ff9f8992df5729c6c675c55538fe03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 03/81] fix: report an error when a packet lacks a required
 value

Decoders that found an empty required string returned FALSE without
setting an error, so the agent ignored it and the session hung. An empty
parameter string isn't an error.
---
 milter/core/milter-decoder.c       | 6 ++++++
 milter/core/milter-reply-decoder.c | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 81ea669..4ef9f4d 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -431,6 +431,12 @@ milter_decoder_decode (MilterDecoder *decoder, const gchar *chunk, gsize size,
                     priv->state = IN_START;
                     g_string_erase(priv->buffer, 0, priv->command_length);
                 } else {
+                    if (error && !*error) {
+                        g_set_error(error,
+                                    MILTER_DECODER_ERROR,
+                                    MILTER_DECODER_ERROR_SHORT_COMMAND_LENGTH,
+                                    "required value is missing");
+                    }
                     priv->state = IN_ERROR;
                     loop = FALSE;
                 }
diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bceca6b..2268f65 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -501,7 +501,7 @@ decode_two_string (const gchar *buffer, gint length,
         milter_decoder_decode_null_terminated_value(buffer, length, error,
                                                     error_message);
     g_free(error_message);
-    if (null_character_point <= 0)
+    if (null_character_point < 0)
         return FALSE;
     *second = buffer;
 
-- 
2.43.0


From efb877766defeb2bef78ab2a1a4b53798b6a819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 04/81] fix: don't overflow sun_path by a long path on connect
 command

---
 milter/core/milter-command-decoder.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index 4491ea7..d5d189f 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -488,6 +488,16 @@ decode_connect_unix_address (const gchar *buffer,
 {
     struct sockaddr_un *address_un;
 
+    if (strlen(buffer) >= sizeof(address_un->sun_path)) {
+        g_set_error(error,
+                    MILTER_COMMAND_DECODER_ERROR,
+                    MILTER_COMMAND_DECODER_ERROR_INVALID_FORMAT,
+                    "too long UNIX domain socket path on connect command: "
+                    "<%s>: <%c>: <%u>: <%s>",
+                    host_name, family, g_ntohs(port), buffer);
+        return FALSE;
+    }
+
     *address_length = sizeof(struct sockaddr_un);
     address_un = g_malloc(*address_length);
     memset(address_un, 0, *address_length);
-- 
2.43.0


From f83bd78ad2706b102c3055914a9ce5c807edf29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 05/81] fix: don't decode bytes beyond the end of a packet

Connect read the family, define macro measured its content and
insert/change header looked for NULs past the packet, and add recipient
used an unterminated recipient. They depend on what follows the packet
in the receive buffer.
---
 milter/core/milter-command-decoder.c |  7 ++++++-
 milter/core/milter-decoder.c         |  2 +-
 milter/core/milter-reply-decoder.c   | 14 +++++++++-----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/milter/core/milter-command-decoder.c b/milter/core/milter-command-decoder.c
index d5d189f..d09acb9 100644
--- a/milter/core/milter-command-decoder.c
+++ b/milter/core/milter-command-decoder.c
@@ -380,7 +380,7 @@ decode_define_macro (MilterDecoder *decoder, GError **error)
     buffer = milter_decoder_get_buffer(decoder);
 
     if (!milter_decoder_check_command_length(buffer + 1,
-                                             strlen(buffer) - 1,
+                                             command_length - 1,
                                              1,
                                              MILTER_DECODER_COMPARE_AT_LEAST,
                                              error,
@@ -531,6 +531,11 @@ decode_connect_content (const gchar *buffer, gint length,
     decoded_host_name = buffer;
     i = null_character_point + 1;
 
+    if (!milter_decoder_check_command_length(
+            buffer + i, length - i, sizeof(family),
+            MILTER_DECODER_COMPARE_AT_LEAST, error,
+            "family on connect command"))
+        return FALSE;
     family = buffer[i];
     i++;
     switch (family) {
diff --git a/milter/core/milter-decoder.c b/milter/core/milter-decoder.c
index 4ef9f4d..375b43a 100644
--- a/milter/core/milter-decoder.c
+++ b/milter/core/milter-decoder.c
@@ -235,7 +235,7 @@ append_inspected_bytes (GString *message, const gchar *buffer, gsize length)
             have_unprintable_byte = TRUE;
     }
     if (!have_unprintable_byte)
-        g_string_append_printf(message, " (%s)", buffer);
+        g_string_append_printf(message, " (%.*s)", (gint)length, buffer);
 }
 
 static void
diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 2268f65..c590377 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -417,7 +417,7 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -443,7 +443,7 @@ decode_reply_change_header (MilterDecoder *decoder, GError **error)
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    decoded = decode_header_content_with_index(buffer + 1, command_length + 1,
+    decoded = decode_header_content_with_index(buffer + 1, command_length - 1,
                                                &index, &name, &value, error);
     if (!decoded)
         return FALSE;
@@ -541,15 +541,19 @@ decode_reply_change_from (MilterDecoder *decoder, GError **error)
 static gboolean
 decode_reply_add_recipient (MilterDecoder *decoder, GError **error)
 {
+    gint null_character_point;
     const gchar *buffer;
     gint32 command_length;
 
     command_length = milter_decoder_get_command_length(decoder);
     buffer = milter_decoder_get_buffer(decoder);
 
-    milter_decoder_decode_null_terminated_value(
-        buffer + 1, command_length - 1, error,
-        "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    null_character_point =
+        milter_decoder_decode_null_terminated_value(
+            buffer + 1, command_length - 1, error,
+            "Recipient isn't terminated by NULL on ADD RECIPIENT reply");
+    if (null_character_point <= 0)
+        return FALSE;
 
     milter_debug("[%u] [reply-decoder][add-recipient] <%s>",
                  milter_decoder_get_tag(decoder),
-- 
2.43.0


From 93a773ff2875b549d9af1c449015990db42e414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 06/81] fix: accept an empty macro symbol list in negotiate
 reply

An empty list is valid: it means the milter wants no macros for the
stage. It failed to be decoded and crashed the encoder.
---
 milter/core/milter-reply-decoder.c | 2 +-
 milter/core/milter-reply-encoder.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index c590377..abc5083 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -792,7 +792,7 @@ decode_macros_requests (const gchar *buffer, gsize length,
             milter_decoder_decode_null_terminated_value(
                 buffer + i, length - i, error,
                 "Symbol list isn't terminated by NULL on NEGOTIATE reply");
-        if (null_character_point <= 0) {
+        if (null_character_point < 0) {
             error_occurred = TRUE;
             break;
         }
diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index 467321b..efa026c 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -86,7 +86,8 @@ encode_macros_request (MilterCommand command, GList *symbols, gpointer user_data
     memcpy(encoded_stage, &normalized_stage, sizeof(encoded_stage));
     g_string_append_len(buffer, encoded_stage, sizeof(encoded_stage));
 
-    g_string_append(buffer, symbols->data);
+    if (symbols)
+        g_string_append(buffer, symbols->data);
     for (symbols = g_list_next(symbols);
          symbols;
          symbols = g_list_next(symbols)) {
-- 
2.43.0


From c93cb37c71b18af8356637ba3215da0ed9738af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 07/81] fix: encode a negotiate packet from an empty buffer

Only negotiate didn't clear the encoder's buffer, so a negotiate packet
encoded after another packet had that packet in front of it.
---
 milter/core/milter-command-encoder.c | 1 +
 milter/core/milter-reply-encoder.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index fcd3c98..3086fde 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -87,6 +87,7 @@ milter_command_encoder_encode_negotiate (MilterCommandEncoder *encoder,
     MilterEncoder *base_encoder;
 
     base_encoder = MILTER_ENCODER(encoder);
+    milter_encoder_clear_buffer(base_encoder);
     milter_encoder_encode_negotiate(base_encoder, option);
     milter_encoder_pack(base_encoder, packet, packet_size);
 }
diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index efa026c..5c574ca 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -114,6 +114,7 @@ milter_reply_encoder_encode_negotiate (MilterReplyEncoder *encoder,
     GString *buffer;
 
     base_encoder = MILTER_ENCODER(encoder);
+    milter_encoder_clear_buffer(base_encoder);
     milter_encoder_encode_negotiate(base_encoder, option);
     if (macros_requests) {
         buffer = milter_encoder_get_buffer(base_encoder);
-- 
2.43.0


From a1a2ed6b81f5a6b3f683d62bdf170ed7212a2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 08/81] fix: copy ESMTP parameters merged into a given table

The given table and the temporary table that is freed after merging
shared the keys and values.
---
 milter/core/milter-esmtp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/milter/core/milter-esmtp.c b/milter/core/milter-esmtp.c
index 9281c96..545f505 100644
--- a/milter/core/milter-esmtp.c
+++ b/milter/core/milter-esmtp.c
@@ -371,7 +371,7 @@ static void
 merge_parameter (gpointer key, gpointer value, gpointer user_data)
 {
     GHashTable *destination = user_data;
-    g_hash_table_insert(destination, key, value);
+    g_hash_table_insert(destination, g_strdup(key), g_strdup(value));
 }
 
 static void
-- 
2.43.0


From 2ef5c3704c2d7492aa4068f98c0b708e33771433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 09/81] fix: reject a too long UNIX domain socket path in a
 connection spec

It overflowed sun_path.
---
 milter/core/milter-connection.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 5b92897..29f0b68 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -268,6 +268,13 @@ milter_connection_parse_spec (const gchar      *spec,
         g_str_has_prefix(spec, "local:")) {
         if (domain)
             *domain = PF_UNIX;
+        if (strlen(content) >= sizeof(((struct sockaddr_un *)NULL)->sun_path)) {
+            g_set_error(error,
+                        MILTER_CONNECTION_ERROR,
+                        MILTER_CONNECTION_ERROR_INVALID_FORMAT,
+                        "too long UNIX domain socket path: <%s>", spec);
+            return FALSE;
+        }
         if (address && address_size) {
             struct sockaddr_un *address_unix;
 
-- 
2.43.0


From dbd02be2c1facf0148c3410457581368881b657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 10/81] fix: keep the bytes after a NUL in kept body and end of
 message chunks

They were copied as a string but used with their original size.
---
 milter/manager/milter-manager-children.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a5871bf..e8f6124 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -364,7 +364,7 @@ pending_body_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_BODY);
-    request->arguments.body.chunk = g_strndup(chunk, size);
+    request->arguments.body.chunk = g_memdup(chunk, size);
     request->arguments.body.size = size;
 
     return request;
@@ -376,7 +376,7 @@ pending_end_of_message_request_new (const gchar *chunk, gsize size)
     PendingMessageRequest *request;
 
     request = pending_message_request_new(MILTER_COMMAND_END_OF_MESSAGE);
-    request->arguments.end_of_message.chunk = g_strndup(chunk, size);
+    request->arguments.end_of_message.chunk = g_memdup(chunk, size);
     request->arguments.end_of_message.size = size;
 
     return request;
@@ -4070,7 +4070,7 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
 
     if (priv->end_of_message_chunk)
         g_free(priv->end_of_message_chunk);
-    priv->end_of_message_chunk = g_strdup(chunk);
+    priv->end_of_message_chunk = g_memdup(chunk, size);
     priv->end_of_message_size = size;
     if (priv->body_file)
         g_io_channel_seek_position(priv->body_file, 0, G_SEEK_SET, NULL);
-- 
2.43.0


From c870a746e4fbb02d899ba9a39089f8496b38b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 11/81] fix: don't decode a reply code message beyond its
 terminator

---
 milter/core/milter-reply-decoder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index abc5083..137f0e4 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -206,13 +206,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
         return FALSE;
 
     buffer += 3;
-    command_length -= 3;
+    null_character_point -= 3;
     if (buffer[0] == ' ') {
         buffer++;
-        command_length--;
+        null_character_point--;
     }
 
-    space_character_point = find_space_character(buffer, command_length);
+    space_character_point = find_space_character(buffer, null_character_point);
 
     if (space_character_point <0) {
         extended_code = g_strdup(buffer);
-- 
2.43.0


From 180efbf37c3398f50ff7adfa6a96276e042285a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 12/81] fix: decode an empty value of insert header as an empty
 string

---
 milter/core/milter-reply-decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index 137f0e4..bc365f5 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -422,6 +422,9 @@ decode_reply_insert_header (MilterDecoder *decoder, GError **error)
     if (!decoded)
         return FALSE;
 
+    if (!value)
+        value = "";
+
     milter_debug("[%u] [reply-decoder][insert-header] [%d]<%s>=<%s>",
                  milter_decoder_get_tag(decoder),
                  index, name, value);
-- 
2.43.0


From ad26afad0d46764e23591fd79423336254c95d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 13/81] fix: decode a reply code without extended code and with
 multiple lines

---
 milter/core/milter-reply-decoder.c | 92 ++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 24 deletions(-)

diff --git a/milter/core/milter-reply-decoder.c b/milter/core/milter-reply-decoder.c
index bc365f5..3a6c7c4 100644
--- a/milter/core/milter-reply-decoder.c
+++ b/milter/core/milter-reply-decoder.c
@@ -144,29 +144,85 @@ decode_reply_continue (MilterDecoder *decoder, GError **error)
     return TRUE;
 }
 
-static gint
-find_space_character (const gchar *buffer, gint length)
+/* Returns the length of "X.YYY.ZZZ" at the head of text or 0. */
+static gsize
+extended_code_length (const gchar *text)
 {
+    gsize length = 0;
     gint i;
 
-    for (i = 0; i < length; i++) {
-        if (buffer[i] == ' ')
-            return i;
+    for (i = 0; i < 3; i++) {
+        if (i > 0 && text[length++] != '.')
+            return 0;
+        if (!g_ascii_isdigit(text[length]))
+            return 0;
+        while (g_ascii_isdigit(text[length]))
+            length++;
     }
 
-    return -1;
+    if (text[length] != '\0' && text[length] != ' ' &&
+        text[length] != '\r' && text[length] != '\n')
+        return 0;
+
+    return length;
+}
+
+/* Strips the reply code and the extended code from each line. */
+static gchar *
+parse_reply_code_text (const gchar *text, gchar **extended_code)
+{
+    GString *message;
+    gchar **lines;
+    guint i;
+    gboolean have_text = FALSE;
+
+    *extended_code = NULL;
+    message = g_string_new(NULL);
+    lines = g_strsplit(text, "\n", -1);
+    for (i = 0; lines[i]; i++) {
+        const gchar *line = lines[i];
+        gsize code_length;
+
+        if (i == 0 ||
+            (strncmp(line, text, 3) == 0 &&
+             (line[3] == ' ' || line[3] == '-' ||
+              line[3] == '\r' || line[3] == '\0'))) {
+            line += 3;
+            if (*line == ' ' || *line == '-')
+                line++;
+            code_length = extended_code_length(line);
+            if (i == 0 && code_length > 0)
+                *extended_code = g_strndup(line, code_length);
+            if (*extended_code && code_length == strlen(*extended_code) &&
+                strncmp(line, *extended_code, code_length) == 0) {
+                line += code_length;
+                if (*line == ' ')
+                    line++;
+            }
+        }
+
+        if (i > 0) {
+            g_string_append_c(message, '\n');
+            have_text = TRUE;
+        }
+        if (*line)
+            have_text = TRUE;
+        g_string_append(message, line);
+    }
+    g_strfreev(lines);
+
+    return g_string_free(message, !have_text);
 }
 
 static gboolean
 decode_reply_reply_code (MilterDecoder *decoder, GError **error)
 {
     gint null_character_point;
-    gint space_character_point;
     const gchar *buffer;
     gint32 command_length;
     gchar *reply_code_str;
     gchar *extended_code;
-    gchar *message = NULL;
+    gchar *message;
     guint reply_code;
 
     command_length = milter_decoder_get_command_length(decoder);
@@ -205,25 +261,13 @@ decode_reply_reply_code (MilterDecoder *decoder, GError **error)
     if (null_character_point <= 0)
         return FALSE;
 
-    buffer += 3;
-    null_character_point -= 3;
-    if (buffer[0] == ' ') {
-        buffer++;
-        null_character_point--;
-    }
-
-    space_character_point = find_space_character(buffer, null_character_point);
-
-    if (space_character_point <0) {
-        extended_code = g_strdup(buffer);
-    } else {
-        extended_code = g_strndup(buffer, space_character_point);
-        message = g_strdup(buffer + space_character_point + 1);
-    }
+    message = parse_reply_code_text(buffer, &extended_code);
 
     milter_debug("[%u] [reply-decoder][reply-code] <%u %s %s>",
                  milter_decoder_get_tag(decoder),
-                 reply_code, extended_code, message);
+                 reply_code,
+                 MILTER_LOG_NULL_SAFE_STRING(extended_code),
+                 MILTER_LOG_NULL_SAFE_STRING(message));
 
     g_signal_emit_by_name(decoder, "reply-code",
                           reply_code, extended_code, message);
-- 
2.43.0


From 831faf81905a3152941adcee034e38abb0d40e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 14/81] fix: don't duplicate a reply code line without text

---
 milter/core/milter-utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-utils.c b/milter/core/milter-utils.c
index 2cfd56e..ef83539 100644
--- a/milter/core/milter-utils.c
+++ b/milter/core/milter-utils.c
@@ -384,8 +384,11 @@ milter_utils_format_reply_code (guint reply_code,
     if (reply_code == 0)
         return NULL;
 
-    if (!reply_message)
-        reply_message = "\n";
+    if (!reply_message || reply_message[0] == '\0') {
+        if (extended_code)
+            return g_strdup_printf("%3u %s", reply_code, extended_code);
+        return g_strdup_printf("%3u", reply_code);
+    }
     messages = g_strsplit(reply_message, "\n", -1);
 
     original_messages = messages;
-- 
2.43.0


From 00290b5c2f3595c374c83ebbcf966489e46264d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 15/81] fix: use a custom reply only for the verdict it is set
 for

---
 milter/client/milter-client-context.c | 35 ++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index e73b078..9a587eb 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -2189,6 +2189,20 @@ ensure_message_result (MilterClientContextPrivate *priv)
     }
 }
 
+static void
+dispose_reply (MilterClientContextPrivate *priv)
+{
+    priv->reply_code = 0;
+    if (priv->extended_reply_code) {
+        g_free(priv->extended_reply_code);
+        priv->extended_reply_code = NULL;
+    }
+    if (priv->reply_message) {
+        g_free(priv->reply_message);
+        priv->reply_message = NULL;
+    }
+}
+
 static void
 dispose_message_result (MilterClientContextPrivate *priv)
 {
@@ -2222,15 +2236,7 @@ dispose (GObject *object)
         priv->option = NULL;
     }
 
-    if (priv->extended_reply_code) {
-        g_free(priv->extended_reply_code);
-        priv->extended_reply_code = NULL;
-    }
-
-    if (priv->reply_message) {
-        g_free(priv->reply_message);
-        priv->reply_message = NULL;
-    }
+    dispose_reply(priv);
 
     if (priv->quarantine_reason) {
         g_free(priv->quarantine_reason);
@@ -3306,9 +3312,13 @@ create_reply_packet (MilterClientContext *context, MilterStatus status,
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_REJECT:
     {
-        gchar *code;
+        MilterClientContextPrivate *priv;
+        gchar *code = NULL;
 
-        code = milter_client_context_format_reply(context);
+        priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+        if (priv->reply_code / 100 ==
+            (status == MILTER_STATUS_TEMPORARY_FAILURE ? 4 : 5))
+            code = milter_client_context_format_reply(context);
         if (code) {
             milter_reply_encoder_encode_reply_code(reply_encoder,
                                                    packet, packet_size,
@@ -3501,6 +3511,8 @@ set_macro_context (MilterClientContext *context, MilterCommand macro_context)
 
     agent = MILTER_PROTOCOL_AGENT(context);
     milter_protocol_agent_set_macro_context(agent, macro_context);
+    /* A custom reply is only for the command it is set for. */
+    dispose_reply(MILTER_CLIENT_CONTEXT_GET_PRIVATE(context));
 }
 
 static void
@@ -4082,6 +4094,7 @@ cb_decoder_unknown (MilterDecoder *decoder,
 
     ensure_message_result(priv);
     disable_timeout(context);
+    set_macro_context(context, MILTER_COMMAND_UNKNOWN);
     g_signal_emit(context, signals[UNKNOWN], 0, command, &status);
     if (status == MILTER_STATUS_PROGRESS)
         return;
-- 
2.43.0


From 635939bcc6a6eeb58b92815979b014822b936891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 16/81] fix: don't decode a reply message and a user name
 beyond the end of a packet

---
 milter/manager/milter-manager-launch-command-decoder.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-launch-command-decoder.c b/milter/manager/milter-manager-launch-command-decoder.c
index 6407141..8b85828 100644
--- a/milter/manager/milter-manager-launch-command-decoder.c
+++ b/milter/manager/milter-manager-launch-command-decoder.c
@@ -96,7 +96,7 @@ decode_launch (MilterDecoder *decoder,
 {
     gint null_character_point;
     const gchar *command_line;
-    const gchar *user_name = NULL;
+    gchar *user_name = NULL;
 
     null_character_point =
         milter_decoder_decode_null_terminated_value(content,
@@ -109,12 +109,14 @@ decode_launch (MilterDecoder *decoder,
 
     command_line = content;
     if (null_character_point < length - 1)
-        user_name = content + null_character_point + 1;
+        user_name = g_strndup(content + null_character_point + 1,
+                              length - null_character_point - 1);
 
     milter_debug("[launch-command-decoder][launch] <%s>@<%s>",
                  command_line,
                  user_name ? user_name : "NULL");
     g_signal_emit(decoder, signals[LAUNCH], 0, command_line, user_name);
+    g_free(user_name);
 
     return TRUE;
 }
-- 
2.43.0


From f3397c859535fecf2685eeb922d1dd2a805d705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 17/81] fix: don't decode a reply message beyond the end of a
 packet

---
 milter/manager/milter-manager-reply-decoder.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-reply-decoder.c b/milter/manager/milter-manager-reply-decoder.c
index 77abd87..275ca61 100644
--- a/milter/manager/milter-manager-reply-decoder.c
+++ b/milter/manager/milter-manager-reply-decoder.c
@@ -130,7 +130,11 @@ decode_failure (MilterDecoder *decoder,
                 const gchar *content, gint32 length,
                 GError **error)
 {
-    g_signal_emit(decoder, signals[FAILURE], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[FAILURE], 0, message);
+    g_free(message);
     return TRUE;
 }
 
@@ -139,7 +143,11 @@ decode_error (MilterDecoder *decoder,
               const gchar *content, gint32 length,
               GError **error)
 {
-    g_signal_emit(decoder, signals[ERROR], 0, content);
+    gchar *message;
+
+    message = g_strndup(content, length);
+    g_signal_emit(decoder, signals[ERROR], 0, message);
+    g_free(message);
     return TRUE;
 }
 
-- 
2.43.0


From f338591317896e575731175c0d0f13d58c099a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 18/81] fix: don't parse macro names as UTF-8

---
 milter/core/milter-command-encoder.c | 2 +-
 milter/core/milter-macros-requests.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-command-encoder.c b/milter/core/milter-command-encoder.c
index 3086fde..d61ee54 100644
--- a/milter/core/milter-command-encoder.c
+++ b/milter/core/milter-command-encoder.c
@@ -102,7 +102,7 @@ compare_macro_key (gconstpointer a, gconstpointer b)
         key1++;
     if (key2[0] == '{')
         key2++;
-    return g_utf8_collate(key1, key2);
+    return strcmp(key1, key2);
 }
 
 static void
diff --git a/milter/core/milter-macros-requests.c b/milter/core/milter-macros-requests.c
index bc5f53a..22985b8 100644
--- a/milter/core/milter-macros-requests.c
+++ b/milter/core/milter-macros-requests.c
@@ -255,7 +255,7 @@ merge_requests (MilterCommand command, GList *symbols, gpointer user_data)
     for (node = symbols; node; node = g_list_next(node)) {
         gchar *symbol = node->data;
         if (!g_list_find_custom(copied_symbols, symbol,
-                                (GCompareFunc)g_utf8_collate))
+                                (GCompareFunc)strcmp))
             copied_symbols = g_list_append(copied_symbols, g_strdup(symbol));
     }
     g_hash_table_insert(dest, key, copied_symbols);
-- 
2.43.0


From 08da41ff01e841003ccf66de27bf75ac8cf213be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 19/81] fix: find a header by its name case-insensitively

---
 milter/core/milter-headers.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-headers.c b/milter/core/milter-headers.c
index 1f4d5cf..cf79588 100644
--- a/milter/core/milter-headers.c
+++ b/milter/core/milter-headers.c
@@ -36,6 +36,15 @@ string_equal (const gchar *string1, const gchar *string2)
     return milter_utils_strcmp0(string1, string2) == 0;
 }
 
+static gboolean
+name_equal (const gchar *name1, const gchar *name2)
+{
+    if (name1 == NULL || name2 == NULL)
+        return name1 == name2;
+
+    return g_ascii_strcasecmp(name1, name2) == 0;
+}
+
 G_DEFINE_BOXED_TYPE(MilterHeader,
                     milter_header,
                     milter_header_copy,
@@ -268,7 +277,7 @@ static gint
 milter_header_name_compare (MilterHeader *header1,
                             const gchar *name)
 {
-    return milter_utils_strcmp0(header1->name, name);
+    return name_equal(header1->name, name) ? 0 : 1;
 }
 
 MilterHeader *
@@ -319,7 +328,7 @@ milter_headers_index_in_same_header_name (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, target->name))
+        if (!name_equal(header->name, target->name))
             continue;
 
         found_count++;
@@ -361,7 +370,7 @@ milter_headers_add_header (MilterHeaders *headers,
 
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
-        if (g_ascii_strcasecmp(header->name, name) == 0) {
+        if (name_equal(header->name, name)) {
             same_name_header = node;
             break;
         }
@@ -424,7 +433,7 @@ milter_headers_lookup_by_name_with_index (MilterHeaders *headers,
     for (node = priv->header_list; node; node = g_list_next(node)) {
         MilterHeader *header = node->data;
 
-        if (!string_equal(header->name, name))
+        if (!name_equal(header->name, name))
             continue;
 
         found_count++;
-- 
2.43.0


From ecd3440a0570864d1a67eaa1b9227a7b4eb885e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 20/81] fix: change and delete the right one of headers that
 have the same name and value

---
 milter/manager/milter-manager-children.c | 56 +++++++++++++++++++-----
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e8f6124..b1ed4e8 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1220,17 +1220,55 @@ send_command_to_child (MilterManagerChildren *children,
     return status;
 }
 
+static guint
+count_headers_by_name (const GList *node, const GList *end, const gchar *name)
+{
+    guint count = 0;
+
+    for (; node != end; node = g_list_next(node)) {
+        MilterHeader *header = node->data;
+
+        if (g_ascii_strcasecmp(header->name, name) == 0)
+            count++;
+    }
+
+    return count;
+}
+
+/* header -> its index in the same name headers. Values can't be
+ * used to find the index because they may be duplicated. */
+static GHashTable *
+create_header_indexes (MilterHeaders *headers)
+{
+    GHashTable *indexes;
+    const GList *header_list, *node;
+
+    indexes = g_hash_table_new(g_direct_hash, g_direct_equal);
+    header_list = milter_headers_get_list(headers);
+    for (node = header_list; node; node = g_list_next(node)) {
+        MilterHeader *header = node->data;
+        guint index;
+
+        index = count_headers_by_name(header_list, node, header->name) + 1;
+        g_hash_table_insert(indexes, header, GUINT_TO_POINTER(index));
+    }
+
+    return indexes;
+}
+
 static void
 emit_header_signals (MilterManagerChildren *children)
 {
     MilterManagerChildrenPrivate *priv;
     const GList *header_list, *node;
     MilterHeaders *processing_headers;
+    GHashTable *indexes;
     gint i;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     processing_headers = milter_headers_copy(priv->original_headers);
+    indexes = create_header_indexes(processing_headers);
     header_list = milter_headers_get_list(priv->headers);
 
     /* FIXME the following process admits improvement. */
@@ -1253,16 +1291,10 @@ emit_header_signals (MilterManagerChildren *children)
                                   i, header->name, header->value);
             continue;
         }
-        index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                         found_header);
-        if (index == -1) {
-            g_signal_emit_by_name(children, "add-header",
-                                  header->name, header->value);
-        } else {
-            g_signal_emit_by_name(children, "change-header",
-                                  header->name, index, header->value);
-            milter_headers_remove(processing_headers, found_header);
-        }
+        index = GPOINTER_TO_UINT(g_hash_table_lookup(indexes, found_header));
+        g_signal_emit_by_name(children, "change-header",
+                              header->name, index, header->value);
+        milter_headers_remove(processing_headers, found_header);
     }
 
     if (milter_headers_length(processing_headers) > 0) {
@@ -1274,13 +1306,13 @@ emit_header_signals (MilterManagerChildren *children)
             MilterHeader *header = node->data;
             gint index;
 
-            index = milter_headers_index_in_same_header_name(priv->original_headers,
-                                                             header);
+            index = GPOINTER_TO_UINT(g_hash_table_lookup(indexes, header));
             g_signal_emit_by_name(children, "delete-header",
                                   header->name, index);
         }
     }
 
+    g_hash_table_unref(indexes);
     g_object_unref(processing_headers);
 }
 
-- 
2.43.0


From 284602d9b5e2ce9fb4e9213381a43c5a0115bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 21/81] fix: don't parse beyond the end of an ESMTP argument

NUL is a control character for g_ascii_iscntrl(). So an unterminated quoted
local part and an unterminated domain literal were scanned beyond the end of
the argument.
---
 milter/core/milter-esmtp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/milter/core/milter-esmtp.c b/milter/core/milter-esmtp.c
index 545f505..951a8fb 100644
--- a/milter/core/milter-esmtp.c
+++ b/milter/core/milter-esmtp.c
@@ -110,7 +110,7 @@ parse_domain (const gchar *argument, gint index, gint *parsed_position,
     if (domain[0] == '[') {
         i = 1;
         while (TRUE) {
-            if (domain[i] == '[' || domain[i] == ']') {
+            if (!domain[i] || domain[i] == '[' || domain[i] == ']') {
                 break;
             } else if (domain[i] == '\\') {
                 i++;
@@ -188,7 +188,9 @@ parse_local_part (const gchar *argument, gint index, gint *parsed_position,
     if (local_part[0] == '"') {
         i = 1;
         while (TRUE) {
-            if (local_part[i] == '\\') {
+            if (!local_part[i]) {
+                break;
+            } else if (local_part[i] == '\\') {
                 i++;
                 if (IS_TEXT(local_part[i])) {
                     i++;
-- 
2.43.0


From ae34c594bafb0063131cef55e45007b2faac5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 22/81] fix: reject a too large port number that overflows int

"inet:4294967321" was accepted as port 25.
---
 milter/core/milter-connection.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/milter/core/milter-connection.c b/milter/core/milter-connection.c
index 29f0b68..92abf4c 100644
--- a/milter/core/milter-connection.c
+++ b/milter/core/milter-connection.c
@@ -190,6 +190,7 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
 {
     struct in_addr *ip_address;
     struct in6_addr *ipv6_address;
+    guint64 parsed_port_number;
     gint i;
 
     if (protocol_family == PF_INET) {
@@ -216,15 +217,17 @@ parse_connection_spec_port_and_host (const gchar *spec, const gchar *port,
         }
     }
 
-    *port_number = atoi(port);
-    if (*port_number > 65535) {
+    parsed_port_number = g_ascii_strtoull(port, NULL, 10);
+    if (parsed_port_number > 65535) {
         g_set_error(error,
                     MILTER_CONNECTION_ERROR,
                     MILTER_CONNECTION_ERROR_INVALID_FORMAT,
-                    "port number should be less than 65536: <%s>: <%d>",
-                    spec, *port_number);
+                    "port number should be less than 65536: "
+                    "<%s>: <%" G_GUINT64_FORMAT ">",
+                    spec, parsed_port_number);
         return FALSE;
     }
+    *port_number = parsed_port_number;
 
     return TRUE;
 }
-- 
2.43.0


From c8847699efc3348b0214b567c746bc2dba3069df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 23/81] fix: keep a reader and a writer alive while their
 callbacks run

A handler of their signals may release the last reference. For example,
milter-manager wrote to a freed reader when an MTA closed its connection.
---
 milter/core/milter-reader.c | 4 ++++
 milter/core/milter-writer.c | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/milter/core/milter-reader.c b/milter/core/milter-reader.c
index 62d30a8..2d8bf07 100644
--- a/milter/core/milter-reader.c
+++ b/milter/core/milter-reader.c
@@ -219,6 +219,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterReader *reader = data;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     priv->processing = TRUE;
     milter_trace("[%d] [reader][callback][read][process][start]", priv->tag);
@@ -250,6 +251,7 @@ read_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
 
     milter_trace("[%d] [reader][callback][read][process][done]", priv->tag);
     priv->processing = FALSE;
+    g_object_unref(reader);
 
     return keep_callback;
 }
@@ -262,6 +264,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gboolean keep_callback = FALSE;
     gboolean error_occurred = FALSE;
 
+    g_object_ref(reader);
     priv = MILTER_READER_GET_PRIVATE(reader);
     milter_trace("[%d] [reader][callback][error][start]", priv->tag);
 
@@ -302,6 +305,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     priv->error_watch_id = 0;
     clear_watch_id(priv);
     finish(reader);
+    g_object_unref(reader);
 
     return keep_callback;
 }
diff --git a/milter/core/milter-writer.c b/milter/core/milter-writer.c
index 66a293e..4c63b1b 100644
--- a/milter/core/milter-writer.c
+++ b/milter/core/milter-writer.c
@@ -275,6 +275,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     GIOStatus status;
     GError *channel_error = NULL;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][flush-callback] [%u]",
@@ -310,6 +311,7 @@ flush_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
                      priv->tag, priv->flush_watch_id);
         priv->flush_watch_id = 0;
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
@@ -341,6 +343,7 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     MilterWriterPrivate *priv;
     gboolean keep_callback = TRUE;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     milter_trace("[%u] [writer][write-callback] [%u] "
@@ -419,6 +422,7 @@ write_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
                      priv->tag, priv->write_watch_id);
         priv->write_watch_id = 0;
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
@@ -525,6 +529,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
     gchar *message;
     GError *error = NULL;
 
+    g_object_ref(writer);
     priv = MILTER_WRITER_GET_PRIVATE(writer);
 
     message = milter_utils_inspect_io_condition_error(condition);
@@ -545,6 +550,7 @@ error_watch_func (GIOChannel *channel, GIOCondition condition, gpointer data)
         clear_flush_watch_id(priv);
         milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(writer));
     }
+    g_object_unref(writer);
 
     return keep_callback;
 }
-- 
2.43.0


From 582e45e319fdab03c6cc9534b6337af277501c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 24/81] fix: exit with failure when milter-manager fails to
 start

---
 milter/manager/milter-manager-main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index 1645f48..a32b8de 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -591,7 +591,7 @@ milter_manager_main (void)
     MilterManagerController *controller;
     MilterManagerConfiguration *config;
     MilterEventLoop *loop;
-    gboolean remove_socket, daemon;
+    gboolean remove_socket, daemon, success;
     GError *error = NULL;
     struct sigaction shutdown_client_action;
     struct sigaction reload_configuration_request_action;
@@ -704,7 +704,8 @@ milter_manager_main (void)
     SET_SIGNAL_ACTION(USR1, usr1, reopen_log_action);
 #undef SET_SIGNAL_ACTION
 
-    if (!milter_client_run(client, &error)) {
+    success = milter_client_run(client, &error);
+    if (!success) {
         milter_manager_error("failed to start milter-manager process: %s",
                              error->message);
         g_error_free(error);
@@ -725,7 +726,7 @@ milter_manager_main (void)
     if (controller)
         g_object_unref(controller);
 
-    return TRUE;
+    return success;
 }
 
 /*
-- 
2.43.0


From 6926bc06fbeb893d967db3e483877d7f8fd9427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 25/81] fix: finish the current message when it is aborted, not
 when the abort packet is flushed

---
 milter/server/milter-server-context.c | 58 +++++++++++++--------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 919d931..6c70721 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1378,23 +1378,10 @@ process_next_state (MilterServerContext *context,
         milter_server_context_set_state(context, next_state);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ABORT:
-        if (MILTER_STATUS_IS_PASS(priv->status) &&
-            (MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO <= priv->state &&
-             priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)) {
-            if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
-                priv->envelope_recipient_status != MILTER_STATUS_DEFAULT) {
-                priv->status = priv->envelope_recipient_status;
-            } else {
-                priv->status = MILTER_STATUS_ABORT;
-            }
-        }
-        milter_server_context_set_state(context, next_state);
-        emit_message_processed_signal(context);
-        milter_server_context_reset_message_related_data(context);
+        /* The next message may have been started already. */
+        if (!priv->processing_message)
+            milter_server_context_set_state(context, next_state);
         break;
-    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
-        priv->processing_message = TRUE;
-        /* FALLTHROUGH */
     default:
         milter_server_context_set_state(context, next_state);
         if (milter_server_context_need_reply(context, next_state)) {
@@ -1877,21 +1864,6 @@ milter_server_context_envelope_from (MilterServerContext *context,
     milter_debug("[%u] [server][send][envelope-from] <%s>: %s",
                  tag, from, name);
 
-    /* TODO:
-     * Those information will be cleared if both [abort]
-     * packet and [envelope-from] packet are flushed at the
-     * same time. Because
-     * milter_server_context_reset_message_related_data() is
-     * called in process_next_state() when [abort] packet is
-     * flushed:
-     *
-     *   milter_server_context_abort() ->
-     *   milter_server_context_envelope_from() ->
-     *   (flushed) ->
-     *   process_next_state() for [abort] ->
-     *   milter_server_context_reset_message_related_data()
-     *     resets data set at milter_server_context_envelope_from().
-     */
     ensure_message_result(priv);
     milter_message_result_set_from(priv->message_result, from);
     milter_message_result_set_state(priv->message_result,
@@ -2308,6 +2280,28 @@ milter_server_context_quit (MilterServerContext *context)
 }
 
 
+static void
+finish_message_by_abort (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    if (MILTER_STATUS_IS_PASS(priv->status) &&
+        (MILTER_SERVER_CONTEXT_STATE_DEFINE_MACRO <= priv->state &&
+         priv->state < MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)) {
+        if (priv->state == MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT &&
+            priv->envelope_recipient_status != MILTER_STATUS_DEFAULT) {
+            priv->status = priv->envelope_recipient_status;
+        } else {
+            priv->status = MILTER_STATUS_ABORT;
+        }
+    }
+    milter_server_context_set_state(context, MILTER_SERVER_CONTEXT_STATE_ABORT);
+    emit_message_processed_signal(context);
+    milter_server_context_reset_message_related_data(context);
+}
+
 gboolean
 milter_server_context_abort (MilterServerContext *context)
 {
@@ -2328,6 +2322,8 @@ milter_server_context_abort (MilterServerContext *context)
 
     success = write_packet(context, packet, packet_size,
                            MILTER_SERVER_CONTEXT_STATE_ABORT);
+    if (success)
+        finish_message_by_abort(context);
     priv->processing_message = FALSE;
     return success;
 }
-- 
2.43.0


From 76bf6d12c5a24aa83d71b5cac6947600976846ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 26/81] fix: deliver a macro requested by its name in braces

---
 milter/server/milter-server-context.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 6c70721..bdd3b9f 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -986,12 +986,21 @@ filter_macros (GHashTable *macros, GList *request_symbols)
 
     for (symbol = request_symbols; symbol; symbol = g_list_next(symbol)) {
         const gchar *value;
-        value = g_hash_table_lookup(macros, symbol->data);
-        if (value) {
-            g_hash_table_insert(filtered_macros,
-                                g_strdup(symbol->data),
-                                g_strdup(value));
-        }
+        gchar *name;
+        gsize length;
+
+        /* The names of defined macros don't have braces. */
+        name = symbol->data;
+        length = strlen(name);
+        if (length > 2 && name[0] == '{' && name[length - 1] == '}')
+            name = g_strndup(name + 1, length - 2);
+        else
+            name = g_strdup(name);
+        value = g_hash_table_lookup(macros, name);
+        if (value)
+            g_hash_table_insert(filtered_macros, name, g_strdup(value));
+        else
+            g_free(name);
     }
 
     if (g_hash_table_size(filtered_macros) == 0) {
-- 
2.43.0


From fa724edc7f931a387af2d655496610a3e009b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 27/81] fix: don't carry macros and state of a finished message
 over to the next message

---
 milter/client/milter-client-context.c    |  1 +
 milter/manager/milter-manager-children.c |  6 +++++
 milter/server/milter-server-context.c    | 28 +++++++++++++++---------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 9a587eb..2c13a0f 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3893,6 +3893,7 @@ end_of_message_response (MilterClientContext *context, MilterStatus status)
     }
 
     emit_message_processed_signal(context);
+    milter_client_context_reset_message_related_data(context);
 }
 
 static void
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index b1ed4e8..002da6a 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -952,10 +952,16 @@ emit_reply_status_of_state (MilterManagerChildren *children,
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
+        GList *node;
 
         /* FIXME: emit message-processed signal for logging */
         priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
         dispose_message_related_data(priv);
+        for (node = priv->milters; node; node = g_list_next(node)) {
+            MilterProtocolAgent *agent = MILTER_PROTOCOL_AGENT(node->data);
+
+            milter_protocol_agent_clear_message_related_macros(agent);
+        }
     }
 }
 
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index bdd3b9f..5dfb924 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1825,17 +1825,9 @@ milter_server_context_connect (MilterServerContext *context,
                         MILTER_SERVER_CONTEXT_STATE_CONNECT);
 }
 
-void
-milter_server_context_reset_message_related_data (MilterServerContext *context)
+static void
+reset_message_state (MilterServerContextPrivate *priv)
 {
-    MilterServerContextPrivate *priv;
-    MilterProtocolAgent *agent;
-
-    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
-
-    agent = MILTER_PROTOCOL_AGENT(context);
-    milter_protocol_agent_clear_message_related_macros(agent);
-
     priv->skip_body = FALSE;
     priv->processing_message = FALSE;
     priv->envelope_recipient_status = MILTER_STATUS_DEFAULT;
@@ -1846,6 +1838,21 @@ milter_server_context_reset_message_related_data (MilterServerContext *context)
     }
     priv->process_body_count = 0;
     priv->sent_end_of_message = FALSE;
+    g_string_truncate(priv->body, 0);
+}
+
+void
+milter_server_context_reset_message_related_data (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    MilterProtocolAgent *agent;
+
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+
+    agent = MILTER_PROTOCOL_AGENT(context);
+    milter_protocol_agent_clear_message_related_macros(agent);
+
+    reset_message_state(priv);
 
     dispose_message_result(priv);
 }
@@ -1873,6 +1880,7 @@ milter_server_context_envelope_from (MilterServerContext *context,
     milter_debug("[%u] [server][send][envelope-from] <%s>: %s",
                  tag, from, name);
 
+    reset_message_state(priv);
     ensure_message_result(priv);
     milter_message_result_set_from(priv->message_result, from);
     milter_message_result_set_state(priv->message_result,
-- 
2.43.0


From 523cfa59d523404bb781b27617fd8ab92daa89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 28/81] fix: start a message with fresh header, body and status
 data

---
 milter/manager/milter-manager-children.c | 26 ++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 002da6a..450f4e5 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -449,6 +449,25 @@ dispose_reply_related_data (MilterManagerChildrenPrivate *priv)
     }
 }
 
+static void
+dispose_message_related_reply_statuses (MilterManagerChildrenPrivate *priv)
+{
+    MilterServerContextState states[] = {
+        MILTER_SERVER_CONTEXT_STATE_HEADER,
+        MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER,
+        MILTER_SERVER_CONTEXT_STATE_BODY,
+        MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE
+    };
+    guint i;
+
+    if (!priv->reply_statuses)
+        return;
+
+    for (i = 0; i < G_N_ELEMENTS(states); i++) {
+        g_hash_table_remove(priv->reply_statuses, GINT_TO_POINTER(states[i]));
+    }
+}
+
 static void
 dispose_message_related_data (MilterManagerChildrenPrivate *priv)
 {
@@ -495,6 +514,13 @@ dispose_message_related_data (MilterManagerChildrenPrivate *priv)
         g_free(priv->quarantine_reason);
         priv->quarantine_reason = NULL;
     }
+
+    priv->processing_header_index = 0;
+    priv->sending_body = FALSE;
+    priv->sent_body_offset = 0;
+    priv->replaced_body = FALSE;
+    priv->replaced_body_for_each_child = FALSE;
+    dispose_message_related_reply_statuses(priv);
 }
 
 static void
-- 
2.43.0


From 9b6fe04f6cef826ef7e37950d0fa9155e16a86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 29/81] fix: keep the other milters processing a message when
 an evaluated milter stops it

---
 milter/manager/milter-manager-children.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 450f4e5..340f492 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1543,6 +1543,10 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1613,6 +1617,10 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
@@ -1753,6 +1761,10 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     case MILTER_SERVER_CONTEXT_STATE_BODY:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
         milter_server_context_set_processing_message(context, FALSE);
+        if (evaluation_mode) {
+            send_first_command_to_next_child(children, context);
+            break;
+        }
         emit_reply_for_message_oriented_command(children, state);
         milter_manager_children_abort(children);
         break;
-- 
2.43.0


From 943006161ed911882ec58e734e094adfe1d596c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 30/81] fix: use the reply code of the milter whose verdict is
 used

---
 milter/manager/milter-manager-children.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 340f492..22ef0d3 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -968,13 +968,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
         g_signal_emit_by_name(children, "reply-code",
                               priv->reply_code, priv->reply_extended_code,
                               priv->reply_message);
-        dispose_reply_related_data(priv);
     } else {
         if (status != MILTER_STATUS_NOT_CHANGE) {
             g_signal_emit_by_name(children,
                                   status_to_signal_name(status));
         }
     }
+    dispose_reply_related_data(priv);
 
     if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         MilterManagerChildrenPrivate *priv;
@@ -1651,15 +1651,27 @@ cb_reply_code (MilterServerContext *context,
 {
     MilterManagerChildren *children = user_data;
     MilterManagerChildrenPrivate *priv;
+    MilterServerContextState state;
+    MilterStatus status;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    state = milter_server_context_get_state(context);
 
-    dispose_reply_related_data(priv);
-    priv->reply_code = code;
-    priv->reply_extended_code = g_strdup(extended_code);
-    priv->reply_message = g_strdup(message);
+    if ((code / 100) == 4)
+        status = MILTER_STATUS_TEMPORARY_FAILURE;
+    else
+        status = MILTER_STATUS_REJECT;
+
+    if (!milter_manager_child_is_evaluation_mode(MILTER_MANAGER_CHILD(context)) &&
+        milter_status_compare(get_reply_status_for_state(children, state),
+                              status) <= 0) {
+        dispose_reply_related_data(priv);
+        priv->reply_code = code;
+        priv->reply_extended_code = g_strdup(extended_code);
+        priv->reply_message = g_strdup(message);
+    }
 
-    if ((priv->reply_code / 100) == 4) {
+    if (status == MILTER_STATUS_TEMPORARY_FAILURE) {
         cb_temporary_failure(context, user_data);
     } else {
         cb_reject(context, user_data);
-- 
2.43.0


From 825664732f0b2341fd622481cab895abf566847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 31/81] fix: decide what follows the failure of a milter in one
 place

A milter which times out, breaks its connection or sends garbage while a
message is processed is now always handled the same way: its fallback
status is used and the next milter goes on with the message. A failure
of an evaluated milter doesn't influence the result. Previously the MTA
got no reply, or more than one reply, for some of those failures.
---
 milter/manager/milter-manager-children.c | 261 ++++++++++++++++-------
 1 file changed, 183 insertions(+), 78 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 22ef0d3..9ef1a4e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -180,6 +180,14 @@ static void prepare_retry_establish_connection
 static void remove_queue_in_negotiate
                            (MilterManagerChildren *children,
                             MilterManagerChild *child);
+static MilterStatus fail_to_send_command
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
+static MilterStatus process_failed_child_for_message
+                           (MilterManagerChildren *children,
+                            MilterServerContext *context);
+static MilterStatus get_child_fallback_status
+                           (MilterManagerChild *child);
 static MilterServerContext *get_first_child_in_command_waiting_child_queue
                            (MilterManagerChildren *children);
 static gboolean write_body (MilterManagerChildren *children,
@@ -1092,7 +1100,8 @@ remove_child_from_queue (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    g_queue_remove(priv->reply_queue, context);
+    if (!g_queue_remove(priv->reply_queue, context))
+        return status;
 
     if (!g_queue_is_empty(priv->reply_queue))
         return status;
@@ -1213,13 +1222,13 @@ send_command_to_child (MilterManagerChildren *children,
                        MilterCommand command)
 {
     MilterManagerChildrenPrivate *priv;
-    MilterManagerChild *child;
-    MilterStatus status;
-
-    child = MILTER_MANAGER_CHILD(context);
-    status = milter_manager_child_get_fallback_status(child);
+    MilterStatus status = MILTER_STATUS_NOT_CHANGE;
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    if (milter_server_context_is_quitted(context))
+        return process_failed_child_for_message(children, context);
+
     switch (command) {
     case MILTER_COMMAND_HEADER:
         status = send_next_header_to_child(children, context);
@@ -1232,6 +1241,8 @@ send_command_to_child (MilterManagerChildren *children,
                                                  priv->processing_state)) {
                 g_signal_emit_by_name(context, "continue");
             }
+        } else {
+            status = fail_to_send_command(children, context);
         }
         break;
     case MILTER_COMMAND_BODY:
@@ -1242,8 +1253,11 @@ send_command_to_child (MilterManagerChildren *children,
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE;
         if (milter_server_context_end_of_message(context,
                                                  priv->end_of_message_chunk,
-                                                 priv->end_of_message_size))
+                                                 priv->end_of_message_size)) {
             status = MILTER_STATUS_PROGRESS;
+        } else {
+            status = fail_to_send_command(children, context);
+        }
         break;
     default:
         break;
@@ -1386,6 +1400,28 @@ emit_reply_for_message_oriented_command (MilterManagerChildren *children,
     emit_reply_status_of_state(children, state);
 }
 
+static void
+emit_reply_for_no_message_processing_child (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    switch (priv->state) {
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+        /* All children have finished the message without any
+         * objection. The rest of the message isn't needed. */
+        milter_manager_children_set_status(children, priv->state,
+                                           MILTER_STATUS_ACCEPT);
+        break;
+    default:
+        break;
+    }
+    emit_reply_for_message_oriented_command(children, priv->state);
+}
+
 static MilterCommand
 fetch_first_command_for_child_in_queue (MilterServerContext *child,
                                         GList **queue)
@@ -1419,16 +1455,113 @@ send_first_command_to_next_child (MilterManagerChildren *children,
 
     next_child = get_first_child_in_command_waiting_child_queue(children);
     if (!next_child) {
-        emit_reply_for_message_oriented_command(children, priv->state);
+        emit_reply_for_no_message_processing_child(children);
         return MILTER_STATUS_PROGRESS;
     }
 
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
-    if (first_command == -1)
+    if (first_command == -1) {
         g_signal_emit_by_name(children, "continue");
-    else
+    } else {
+        if (first_command == MILTER_COMMAND_BODY)
+            init_child_for_body(children, next_child);
         send_command_to_child(children, next_child, first_command);
+    }
+
+    return MILTER_STATUS_PROGRESS;
+}
+
+static MilterStatus
+get_child_fallback_status (MilterManagerChild *child)
+{
+    if (milter_manager_child_is_evaluation_mode(child))
+        return MILTER_STATUS_ACCEPT;
+
+    return milter_manager_child_get_fallback_status(child);
+}
+
+static MilterStatus
+process_failed_child_for_message (MilterManagerChildren *children,
+                                  MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterStatus fallback_status;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    fallback_status = get_child_fallback_status(MILTER_MANAGER_CHILD(context));
+    compile_reply_status(children, priv->state, fallback_status);
+
+    switch (fallback_status) {
+    case MILTER_STATUS_REJECT:
+    case MILTER_STATUS_TEMPORARY_FAILURE:
+    case MILTER_STATUS_DISCARD:
+        emit_reply_for_message_oriented_command(children, priv->state);
+        abort_all_children(children);
+        return MILTER_STATUS_PROGRESS;
+    default:
+        return send_first_command_to_next_child(children, context);
+    }
+}
+
+static void
+fail_child (MilterManagerChildren *children,
+            MilterServerContext *context,
+            gboolean processing)
+{
+    MilterManagerChildrenPrivate *priv;
+    MilterStatus fallback_status;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    expire_child(children, context);
+
+    switch (priv->processing_state) {
+    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
+        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        if (priv->emitted_reply_for_message_oriented_command)
+            break;
+        /* If nobody waits for a reply of the child now, its failure
+         * is processed when a command is going to be sent to it. */
+        if (processing &&
+            get_first_child_in_command_waiting_child_queue(children) ==
+            context) {
+            milter_debug("[%u] [children][unexpected] [%u] "
+                         "finish without receiving response: %s",
+                         priv->tag,
+                         milter_agent_get_tag(MILTER_AGENT(context)),
+                         milter_server_context_get_name(context));
+            process_failed_child_for_message(children, context);
+        }
+        break;
+    default:
+        if (processing && g_queue_find(priv->reply_queue, context)) {
+            fallback_status =
+                get_child_fallback_status(MILTER_MANAGER_CHILD(context));
+            compile_reply_status(children,
+                                 priv->processing_state, fallback_status);
+        }
+        remove_child_from_queue(children, context);
+        break;
+    }
+}
+
+static MilterStatus
+fail_to_send_command (MilterManagerChildren *children,
+                      MilterServerContext *context)
+{
+    if (!milter_server_context_is_quitted(context)) {
+        fail_child(children, context, TRUE);
+    } else if (get_first_child_in_command_waiting_child_queue(children) ==
+               context) {
+        process_failed_child_for_message(children, context);
+    }
 
     return MILTER_STATUS_PROGRESS;
 }
@@ -2308,7 +2441,7 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
     child = MILTER_MANAGER_CHILD(context);
-    fallback_status = milter_manager_child_get_fallback_status(child);
+    fallback_status = get_child_fallback_status(child);
 
     if (milter_need_error_log()) {
         gchar *state_name;
@@ -2330,9 +2463,7 @@ cb_writing_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context, TRUE);
 }
 
 static void
@@ -2348,7 +2479,7 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
     child = MILTER_MANAGER_CHILD(context);
-    fallback_status = milter_manager_child_get_fallback_status(child);
+    fallback_status = get_child_fallback_status(child);
 
     if (milter_need_error_log()) {
         gchar *state_name;
@@ -2370,9 +2501,7 @@ cb_reading_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context, TRUE);
 }
 
 static void
@@ -2388,7 +2517,7 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
     child = MILTER_MANAGER_CHILD(context);
-    fallback_status = milter_manager_child_get_fallback_status(child);
+    fallback_status = get_child_fallback_status(child);
 
     if (milter_need_error_log()) {
         gchar *state_name;
@@ -2411,9 +2540,7 @@ cb_end_of_message_timeout (MilterServerContext *context, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    fail_child(children, context, TRUE);
 }
 
 static void
@@ -2425,13 +2552,14 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
     MilterManagerChild *child;
     MilterServerContextState state;
     MilterStatus fallback_status;
+    gboolean processing;
 
     context = MILTER_SERVER_CONTEXT(emittable);
     children = MILTER_MANAGER_CHILDREN(user_data);
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
     child = MILTER_MANAGER_CHILD(context);
-    fallback_status = milter_manager_child_get_fallback_status(child);
+    fallback_status = get_child_fallback_status(child);
 
     if (milter_need_error_log()) {
         gchar *state_name;
@@ -2454,9 +2582,10 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
         g_free(fallback_status_name);
     }
 
-    compile_reply_status(children, state, fallback_status);
-    expire_child(children, context);
-    remove_child_from_queue(children, context);
+    processing =
+        milter_server_context_is_processing(context) ||
+        g_queue_find(priv->reply_queue, context);
+    fail_child(children, context, processing);
 }
 
 static void
@@ -2465,24 +2594,20 @@ cb_finished (MilterAgent *agent, gpointer user_data)
     MilterManagerChildren *children;
     MilterManagerChildrenPrivate *priv;
     MilterServerContext *context = MILTER_SERVER_CONTEXT(agent);
+    gboolean processing;
 
     children = MILTER_MANAGER_CHILDREN(user_data);
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
-    if (milter_server_context_is_processing(context)) {
+    processing = milter_server_context_is_processing(context);
+    if (processing) {
         MilterManagerChild *child;
-        MilterStatus fallback_status;
-        MilterServerContextState state;
 
         child = MILTER_MANAGER_CHILD(context);
-        fallback_status = milter_manager_child_get_fallback_status(child);
-        state = milter_server_context_get_state(context);
-        milter_server_context_set_status(context, fallback_status);
-        compile_reply_status(children, state, fallback_status);
+        milter_server_context_set_status(context,
+                                         get_child_fallback_status(child));
     }
 
-    expire_child(children, context);
-
     if (milter_need_debug_log()) {
         gchar *state_name;
 
@@ -2498,28 +2623,7 @@ cb_finished (MilterAgent *agent, gpointer user_data)
         g_free(state_name);
     }
 
-    switch (priv->processing_state) {
-    case MILTER_SERVER_CONTEXT_STATE_NEGOTIATE:
-        remove_queue_in_negotiate(children, MILTER_MANAGER_CHILD(context));
-        break;
-    case MILTER_SERVER_CONTEXT_STATE_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
-    case MILTER_SERVER_CONTEXT_STATE_BODY:
-    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
-        if (!priv->emitted_reply_for_message_oriented_command &&
-            milter_server_context_is_processing(context)) {
-            milter_debug("[%u] [children][unexpected] [%u] "
-                         "finish without receiving response: %s",
-                         priv->tag,
-                         milter_agent_get_tag(MILTER_AGENT(context)),
-                         milter_server_context_get_name(context));
-            send_first_command_to_next_child(children, context);
-        }
-        break;
-    default:
-        remove_child_from_queue(children, context);
-        break;
-    }
+    fail_child(children, context, processing);
 }
 
 static void
@@ -2719,7 +2823,7 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
         if (milter_server_context_is_negotiated(context))
             continue;
 
-        fallback_status = milter_manager_child_get_fallback_status(child);
+        fallback_status = get_child_fallback_status(child);
         if (milter_status_compare(status, fallback_status) < 0) {
             status = fallback_status;
         }
@@ -3596,8 +3700,10 @@ send_command_to_first_waiting_child (MilterManagerChildren *children,
     MilterServerContext *first_child;
 
     first_child = get_first_child_in_command_waiting_child_queue(children);
-    if (!first_child)
-        return MILTER_STATUS_NOT_CHANGE;
+    if (!first_child) {
+        emit_reply_for_no_message_processing_child(children);
+        return MILTER_STATUS_PROGRESS;
+    }
 
     return send_command_to_child(children, first_child, command);
 }
@@ -3675,10 +3781,7 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
         }
         return status;
     } else {
-        MilterManagerChild *child;
-
-        child = MILTER_MANAGER_CHILD(context);
-        return milter_manager_child_get_fallback_status(child);
+        return fail_to_send_command(children, context);
     }
 }
 
@@ -3908,10 +4011,6 @@ milter_manager_children_body (MilterManagerChildren *children,
 
     init_command_waiting_child_queue(children, MILTER_COMMAND_BODY);
 
-    first_child = get_first_child_in_command_waiting_child_queue(children);
-    if (!first_child)
-        return FALSE;
-
     if (!write_body(children, chunk, size))
         return FALSE;
 
@@ -3920,18 +4019,23 @@ milter_manager_children_body (MilterManagerChildren *children,
     priv->replaced_body_for_each_child = FALSE;
     priv->sending_body = FALSE;
 
-    if (milter_server_context_get_skip_body(first_child)) {
+    first_child = get_first_child_in_command_waiting_child_queue(children);
+    if (!first_child) {
+        emit_reply_for_no_message_processing_child(children);
+    } else if (milter_server_context_is_quitted(first_child)) {
+        process_failed_child_for_message(children, first_child);
+    } else if (milter_server_context_get_skip_body(first_child)) {
         /*
          * If the first child is not needed the command,
          * send dummy "continue" to shift next state.
          */
         milter_server_context_set_state(first_child, MILTER_SERVER_CONTEXT_STATE_BODY);
         g_signal_emit_by_name(first_child, "continue");
-        return TRUE;
-    } else {
-        return milter_server_context_body(first_child, chunk, size);
+    } else if (!milter_server_context_body(first_child, chunk, size)) {
+        fail_to_send_command(children, first_child);
     }
 
+    return TRUE;
 }
 
 static MilterStatus
@@ -4030,7 +4134,8 @@ send_body_to_child_file (MilterManagerChildren *children,
         if (milter_server_context_body(context, buffer, read_size)) {
             status = MILTER_STATUS_PROGRESS;
         } else {
-            status = milter_manager_child_get_fallback_status(child);
+            priv->sending_body = FALSE;
+            return fail_to_send_command(children, context);
         }
         break;
     case G_IO_STATUS_EOF:
@@ -4080,10 +4185,8 @@ send_body_to_child_string (MilterManagerChildren *children,
         priv->sent_body_offset += write_size;
         init_command_waiting_child_queue(children, MILTER_COMMAND_BODY);
     } else {
-        MilterManagerChild *child;
-
-        child = MILTER_MANAGER_CHILD(context);
-        status = milter_manager_child_get_fallback_status(child);
+        priv->sending_body = FALSE;
+        return fail_to_send_command(children, context);
     }
 
     return status;
@@ -4109,7 +4212,9 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
         status = send_body_to_child_file(children, context);
 
     if (status == MILTER_STATUS_PROGRESS &&
-        !milter_server_context_need_reply(context, priv->processing_state)) {
+        !milter_server_context_is_quitted(context) &&
+        !milter_server_context_need_reply(context,
+                                          MILTER_SERVER_CONTEXT_STATE_BODY)) {
         g_signal_emit_by_name(context, "continue");
     }
 
-- 
2.43.0


From 6b9815f42a11d6c38064e5511ac6435b5e141430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 32/81] fix: keep a milter that refuses an unknown command

---
 milter/manager/milter-manager-children.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 9ef1a4e..8dd209b 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1669,6 +1669,7 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
@@ -1743,6 +1744,7 @@ cb_reject (MilterServerContext *context, gpointer user_data)
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
         remove_child_from_queue(children, context);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
-- 
2.43.0


From f1b886892025e3b49e8717bf7794943c1c3d17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 33/81] fix: wait for the other milters when a milter is
 stopped on DATA

---
 milter/manager/milter-manager-children.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 8dd209b..e083782 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2400,6 +2400,10 @@ cb_stopped (MilterServerContext *context, gpointer user_data)
         cb_continue(context, user_data);
         break;
     case MILTER_SERVER_CONTEXT_STATE_DATA:
+        compile_reply_status(children, state, MILTER_STATUS_ACCEPT);
+        milter_server_context_abort(context);
+        remove_child_from_queue(children, context);
+        break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
     case MILTER_SERVER_CONTEXT_STATE_BODY:
-- 
2.43.0


From 84d18cf01ba196374cc9b24697a3feda169e2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 34/81] fix: send the event which waits for an emulated DATA
 command to milters which don't need a reply to DATA

---
 milter/manager/milter-manager-children.c | 56 ++++++++++++------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e083782..974ef58 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3814,15 +3814,15 @@ milter_manager_children_header (MilterManagerChildren *children,
         gboolean success;
         milter_debug("[%u] [children][data-command-emulation][header] "
                      "<%s>=<%s>", priv->tag, name, value);
+        milter_debug("[%u] [children][pending-message-request][header]"
+                     "[keep] <%s>=<%s>",
+                     priv->tag, name, value);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_header_request_new(name, value);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][header]"
-                         "[keep] <%s>=<%s>",
-                         priv->tag, name, value);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_header_request_new(name, value);
-        }
         return success;
     }
 
@@ -3851,15 +3851,15 @@ milter_manager_children_end_of_header (MilterManagerChildren *children)
         gboolean success;
         milter_debug("[%u] [children][data-command-emulation][end-of-header]",
                      priv->tag);
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-header][keep]",
+                     priv->tag);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_end_of_header_request_new();
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-header][keep]",
-                         priv->tag);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_header_request_new();
-        }
         return success;
     }
 
@@ -4000,15 +4000,15 @@ milter_manager_children_body (MilterManagerChildren *children,
         milter_debug("[%u] [children][data-command-emulation][body] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
+        milter_debug("[%u] [children][pending-message-request][body][keep] "
+                     "size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_body_request_new(chunk, size);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request][body][keep] "
-                         "size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_body_request_new(chunk, size);
-        }
         return success;
     }
 
@@ -4247,15 +4247,15 @@ milter_manager_children_end_of_message (MilterManagerChildren *children,
         milter_debug("[%u] [children][data-command-emulation][end-of-message] "
                      "size=%" G_GSIZE_FORMAT,
                      priv->tag, size);
+        milter_debug("[%u] [children][pending-message-request]"
+                     "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
+                     priv->tag, size);
+        dispose_pending_message_request(priv);
+        priv->pending_message_request =
+            pending_end_of_message_request_new(chunk, size);
         success = milter_manager_children_data(children);
-        if (success) {
-            milter_debug("[%u] [children][pending-message-request]"
-                         "[end-of-message][keep] size=%" G_GSIZE_FORMAT,
-                         priv->tag, size);
+        if (!success)
             dispose_pending_message_request(priv);
-            priv->pending_message_request =
-                pending_end_of_message_request_new(chunk, size);
-        }
         return success;
     }
 
-- 
2.43.0


From fedd013b07e792cf698be872d680613c037e3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 35/81] fix: forget a message which ends by a verdict without
 ABORT

---
 milter/manager/milter-manager-children.c | 52 ++++++++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 974ef58..fe05a6f 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -959,6 +959,43 @@ abort_all_children (MilterManagerChildren *children)
     milter_manager_children_abort(children);
 }
 
+static void
+clear_message_related_macros (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+    GList *node;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    for (node = priv->milters; node; node = g_list_next(node)) {
+        MilterProtocolAgent *agent = MILTER_PROTOCOL_AGENT(node->data);
+
+        milter_protocol_agent_clear_message_related_macros(agent);
+    }
+}
+
+static gboolean
+is_message_finished (MilterServerContextState state, MilterStatus status)
+{
+    switch (state) {
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        return TRUE;
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+        return (status == MILTER_STATUS_ACCEPT ||
+                status == MILTER_STATUS_DISCARD);
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
+    case MILTER_SERVER_CONTEXT_STATE_DATA:
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+        return (status == MILTER_STATUS_ACCEPT ||
+                status == MILTER_STATUS_DISCARD ||
+                status == MILTER_STATUS_REJECT ||
+                status == MILTER_STATUS_TEMPORARY_FAILURE);
+    default:
+        return FALSE;
+    }
+}
+
 static void
 emit_reply_status_of_state (MilterManagerChildren *children,
                             MilterServerContextState state)
@@ -984,18 +1021,13 @@ emit_reply_status_of_state (MilterManagerChildren *children,
     }
     dispose_reply_related_data(priv);
 
-    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
-        MilterManagerChildrenPrivate *priv;
-        GList *node;
+    if (is_message_finished(state, status)) {
+        clear_message_related_macros(children);
+    }
 
+    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE) {
         /* FIXME: emit message-processed signal for logging */
-        priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
         dispose_message_related_data(priv);
-        for (node = priv->milters; node; node = g_list_next(node)) {
-            MilterProtocolAgent *agent = MILTER_PROTOCOL_AGENT(node->data);
-
-            milter_protocol_agent_clear_message_related_macros(agent);
-        }
     }
 }
 
@@ -3581,6 +3613,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
 
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
+    dispose_message_related_data(priv);
     init_reply_queue(children, state);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
@@ -4324,6 +4357,7 @@ milter_manager_children_abort (MilterManagerChildren *children)
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     set_state(children, MILTER_SERVER_CONTEXT_STATE_ABORT);
+    queue_clear(priv->reply_queue);
     for (child = priv->milters; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
         MilterServerContextState state;
-- 
2.43.0


From 26225296a4f9d635cb19286e3debdfdfd3e4e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 36/81] fix: replace the body with an empty body

---
 milter/client/milter-client-context.c    | 8 +++++---
 milter/core/milter-reply-encoder.c       | 2 +-
 milter/manager/milter-manager-children.c | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 2c13a0f..40c1f20 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3184,7 +3184,8 @@ milter_client_context_replace_body (MilterClientContext *context,
 
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     reply_encoder = MILTER_REPLY_ENCODER(encoder);
-    for (rest_size = body_size; rest_size > 0; rest_size -= packed_size) {
+    rest_size = body_size;
+    do {
         const gchar *packet = NULL;
         gsize packet_size;
         gsize offset;
@@ -3195,12 +3196,13 @@ milter_client_context_replace_body (MilterClientContext *context,
                                                  body + offset,
                                                  rest_size,
                                                  &packed_size);
-        if (packed_size == 0)
+        if (packed_size == 0 && rest_size > 0)
             return FALSE;
 
         if (!write_packet_on_end_of_message(context, packet, packet_size))
             return FALSE;
-    }
+        rest_size -= packed_size;
+    } while (rest_size > 0);
 
     return TRUE;
 }
diff --git a/milter/core/milter-reply-encoder.c b/milter/core/milter-reply-encoder.c
index 5c574ca..6856bdb 100644
--- a/milter/core/milter-reply-encoder.c
+++ b/milter/core/milter-reply-encoder.c
@@ -427,7 +427,7 @@ milter_reply_encoder_encode_replace_body (MilterReplyEncoder *encoder,
     MilterEncoder *base_encoder;
     GString *buffer;
 
-    if (body_size <= 0 || (body == NULL && body_size > 0)) {
+    if (body == NULL && body_size > 0) {
         *packet = NULL;
         *packet_size = 0;
         *packed_size = 0;
diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index fe05a6f..f4a80e2 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1226,12 +1226,14 @@ emit_replace_body_signal_string (MilterManagerChildren *children)
 
     chunk_size =
         milter_manager_configuration_get_chunk_size(priv->configuration);
-    for (offset = 0; offset < priv->body->len; offset += write_size) {
+    offset = 0;
+    do {
         write_size = MIN(priv->body->len - offset, chunk_size);
         g_signal_emit_by_name(children, "replace-body",
                               priv->body->str + offset,
                               write_size);
-    }
+        offset += write_size;
+    } while (offset < priv->body->len);
 
     return TRUE;
 }
-- 
2.43.0


From cc1d07766cce662f42758b5089223c9fc96ca3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 37/81] fix: emit header modifications which make the headers
 the milters made

The indexes of changed and deleted headers were those of the original
headers even after headers with the same name were inserted, and headers
were matched without regard to their order.
---
 milter/manager/milter-manager-children.c | 259 +++++++++++++++++------
 1 file changed, 197 insertions(+), 62 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index f4a80e2..b137cf1 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -29,6 +29,7 @@
 #include "milter-manager-launch-command-encoder.h"
 
 #define MAX_ON_MEMORY_BODY_SIZE 5242880 /* 5Mbyte */
+#define MAX_HEADER_MATCHING_COST (1024 * 1024)
 
 #define MAX_SUPPORTED_MILTER_PROTOCOL_VERSION 6
 
@@ -1300,13 +1301,14 @@ send_command_to_child (MilterManagerChildren *children,
     return status;
 }
 
-static guint
-count_headers_by_name (const GList *node, const GList *end, const gchar *name)
+static gint
+count_headers_by_name (GPtrArray *headers, guint end, const gchar *name)
 {
-    guint count = 0;
+    guint i;
+    gint count = 0;
 
-    for (; node != end; node = g_list_next(node)) {
-        MilterHeader *header = node->data;
+    for (i = 0; i < end; i++) {
+        MilterHeader *header = g_ptr_array_index(headers, i);
 
         if (g_ascii_strcasecmp(header->name, name) == 0)
             count++;
@@ -1315,85 +1317,218 @@ count_headers_by_name (const GList *node, const GList *end, const gchar *name)
     return count;
 }
 
-/* header -> its index in the same name headers. Values can't be
- * used to find the index because they may be duplicated. */
-static GHashTable *
-create_header_indexes (MilterHeaders *headers)
+static GPtrArray *
+headers_to_array (MilterHeaders *headers)
 {
-    GHashTable *indexes;
-    const GList *header_list, *node;
-
-    indexes = g_hash_table_new(g_direct_hash, g_direct_equal);
-    header_list = milter_headers_get_list(headers);
-    for (node = header_list; node; node = g_list_next(node)) {
-        MilterHeader *header = node->data;
-        guint index;
+    GPtrArray *array;
+    const GList *node;
 
-        index = count_headers_by_name(header_list, node, header->name) + 1;
-        g_hash_table_insert(indexes, header, GUINT_TO_POINTER(index));
+    array = g_ptr_array_new();
+    for (node = milter_headers_get_list(headers);
+         node;
+         node = g_list_next(node)) {
+        g_ptr_array_add(array, node->data);
     }
 
-    return indexes;
+    return array;
 }
 
 static void
-emit_header_signals (MilterManagerChildren *children)
+ptr_array_insert (GPtrArray *array, guint index, gpointer data)
 {
-    MilterManagerChildrenPrivate *priv;
-    const GList *header_list, *node;
-    MilterHeaders *processing_headers;
-    GHashTable *indexes;
-    gint i;
+    guint i;
 
-    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+    g_ptr_array_add(array, data);
+    for (i = array->len - 1; i > index; i--) {
+        array->pdata[i] = array->pdata[i - 1];
+    }
+    array->pdata[index] = data;
+}
 
-    processing_headers = milter_headers_copy(priv->original_headers);
-    indexes = create_header_indexes(processing_headers);
-    header_list = milter_headers_get_list(priv->headers);
+/* Returns an array whose nth element is the index of the original
+ * header which is the same as the nth modified header, or -1. The
+ * indexes are in ascending order. */
+static gint *
+match_headers (GPtrArray *original, GPtrArray *modified)
+{
+    gint *matches, *lengths;
+    guint i, j, start, n_originals, n_modifieds, n_columns;
 
-    /* FIXME the following process admits improvement. */
-    for (node = header_list, i = 0;
-         node;
-         node = g_list_next(node), i++) {
-        MilterHeader *header = node->data;
-        MilterHeader *found_header;
-        gint index;
+#define ORIGINAL(i) g_ptr_array_index(original, start + (i))
+#define MODIFIED(j) g_ptr_array_index(modified, start + (j))
+#define LENGTH(i, j) lengths[(i) * n_columns + (j)]
 
-        if (milter_headers_find(processing_headers, header)) {
-            milter_headers_remove(processing_headers, header);
-            continue;
+    matches = g_new(gint, modified->len + 1);
+    for (i = 0; i < modified->len; i++) {
+        matches[i] = -1;
+    }
+
+    for (start = 0;
+         start < original->len && start < modified->len &&
+             milter_header_equal(ORIGINAL(0), MODIFIED(0));
+         start++) {
+        matches[start] = start;
+    }
+
+    n_originals = original->len - start;
+    n_modifieds = modified->len - start;
+    while (n_originals > 0 && n_modifieds > 0 &&
+           milter_header_equal(ORIGINAL(n_originals - 1),
+                               MODIFIED(n_modifieds - 1))) {
+        n_originals--;
+        n_modifieds--;
+        matches[start + n_modifieds] = start + n_originals;
+    }
+
+    if ((guint64)n_originals * n_modifieds > MAX_HEADER_MATCHING_COST) {
+        /* not minimum but matched */
+        for (i = 0, j = 0; j < n_modifieds; j++) {
+            guint k;
+
+            for (k = i; k < n_originals; k++) {
+                if (milter_header_equal(ORIGINAL(k), MODIFIED(j))) {
+                    matches[start + j] = start + k;
+                    i = k + 1;
+                    break;
+                }
+            }
         }
+        return matches;
+    }
 
-        found_header = milter_headers_lookup_by_name(processing_headers,
-                                                     header->name);
-        if (!found_header) {
-            g_signal_emit_by_name(children, "insert-header",
-                                  i, header->name, header->value);
-            continue;
+    /* the longest common subsequence of the rest */
+    n_columns = n_modifieds + 1;
+    lengths = g_new0(gint, (gsize)(n_originals + 1) * n_columns);
+    for (i = n_originals; i-- > 0;) {
+        for (j = n_modifieds; j-- > 0;) {
+            if (milter_header_equal(ORIGINAL(i), MODIFIED(j))) {
+                LENGTH(i, j) = LENGTH(i + 1, j + 1) + 1;
+            } else {
+                LENGTH(i, j) = MAX(LENGTH(i + 1, j), LENGTH(i, j + 1));
+            }
+        }
+    }
+    for (i = 0, j = 0; i < n_originals && j < n_modifieds;) {
+        if (milter_header_equal(ORIGINAL(i), MODIFIED(j))) {
+            matches[start + j] = start + i;
+            i++;
+            j++;
+        } else if (LENGTH(i + 1, j) >= LENGTH(i, j + 1)) {
+            i++;
+        } else {
+            j++;
         }
-        index = GPOINTER_TO_UINT(g_hash_table_lookup(indexes, found_header));
-        g_signal_emit_by_name(children, "change-header",
-                              header->name, index, header->value);
-        milter_headers_remove(processing_headers, found_header);
     }
+    g_free(lengths);
 
-    if (milter_headers_length(processing_headers) > 0) {
-        header_list = milter_headers_get_list(processing_headers);
+#undef LENGTH
+#undef MODIFIED
+#undef ORIGINAL
 
-        for (node = g_list_last((GList *)header_list);
-             node;
-             node = g_list_previous(node)) {
-            MilterHeader *header = node->data;
-            gint index;
+    return matches;
+}
+
+/* Finds an original header between two kept headers that is changed
+ * to the header. */
+static gint
+find_changed_header (GPtrArray *original, gint start, gint end,
+                     MilterHeader *header)
+{
+    gint i;
+
+    /* Changing a value to an empty value means deletion. */
+    if (!header->value || header->value[0] == '\0')
+        return -1;
+
+    for (i = start; i < end; i++) {
+        MilterHeader *original_header = g_ptr_array_index(original, i);
+
+        if (milter_utils_strcmp0(original_header->name, header->name) == 0)
+            return i;
+    }
+
+    return -1;
+}
+
+static void
+emit_header_signals (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+    GPtrArray *original, *modified, *current;
+    gint *matches;
+    guint i, current_index;
+    gint next_original;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    original = headers_to_array(priv->original_headers);
+    modified = headers_to_array(priv->headers);
+    matches = match_headers(original, modified);
+
+    /* the headers the MTA has after each emitted modification;
+     * headers to be deleted are kept until the end. */
+    current = headers_to_array(priv->original_headers);
+    current_index = 0;
+    next_original = 0;
+    for (i = 0; i < modified->len; i++) {
+        MilterHeader *header = g_ptr_array_index(modified, i);
+        gint target;
+
+        target = matches[i];
+        if (target == -1) {
+            gint end = original->len;
+            guint j;
+
+            for (j = i + 1; j < modified->len; j++) {
+                if (matches[j] != -1) {
+                    end = matches[j];
+                    break;
+                }
+            }
+            target = find_changed_header(original, next_original, end, header);
+            if (target == -1) {
+                g_signal_emit_by_name(children, "insert-header",
+                                      current_index,
+                                      header->name, header->value);
+                ptr_array_insert(current, current_index, header);
+                current_index++;
+                continue;
+            }
+            current_index += target - next_original;
+            g_signal_emit_by_name(children, "change-header",
+                                  header->name,
+                                  count_headers_by_name(current,
+                                                        current_index + 1,
+                                                        header->name),
+                                  header->value);
+        } else {
+            current_index += target - next_original;
+        }
+        current->pdata[current_index] = header;
+        current_index++;
+        next_original = target + 1;
+    }
+
+    for (i = current->len; i-- > 0;) {
+        MilterHeader *header = g_ptr_array_index(current, i);
+        guint j;
 
-            index = GPOINTER_TO_UINT(g_hash_table_lookup(indexes, header));
-            g_signal_emit_by_name(children, "delete-header",
-                                  header->name, index);
+        for (j = 0; j < original->len; j++) {
+            if (g_ptr_array_index(original, j) == header)
+                break;
         }
+        if (j == original->len)
+            continue;
+        g_signal_emit_by_name(children, "delete-header",
+                              header->name,
+                              count_headers_by_name(current, i + 1,
+                                                    header->name));
     }
 
-    g_hash_table_unref(indexes);
-    g_object_unref(processing_headers);
+    g_free(matches);
+    g_ptr_array_free(current, TRUE);
+    g_ptr_array_free(modified, TRUE);
+    g_ptr_array_free(original, TRUE);
 }
 
 static void
-- 
2.43.0


From 2ef4735ab5287435b01ba2d036087719c6cb7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 38/81] fix: show the message modified by a milter to the
 following milters completely

Headers added to a message without header, a body set to a message
without body and the last body chunk sent with end-of-message weren't
handled.
---
 milter/manager/milter-manager-children.c | 66 ++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index b137cf1..5e2b51d 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -181,6 +181,8 @@ static void prepare_retry_establish_connection
 static void remove_queue_in_negotiate
                            (MilterManagerChildren *children,
                             MilterManagerChild *child);
+static void handle_status  (MilterManagerChildren *children,
+                            MilterStatus status);
 static MilterStatus fail_to_send_command
                            (MilterManagerChildren *children,
                             MilterServerContext *context);
@@ -1607,6 +1609,41 @@ fetch_first_command_for_child_in_queue (MilterServerContext *child,
     return -1;
 }
 
+/* Milters may add headers and a body to a message which had none. */
+static void
+add_commands_for_modified_message (MilterManagerChildren *children)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    priv->replaced_body_for_each_child = FALSE;
+
+    if (priv->state != MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
+        return;
+
+    if (priv->replaced_body &&
+        !g_list_find(priv->command_queue,
+                     GINT_TO_POINTER(MILTER_COMMAND_BODY))) {
+        GList *end_of_message;
+
+        end_of_message =
+            g_list_find(priv->command_queue,
+                        GINT_TO_POINTER(MILTER_COMMAND_END_OF_MESSAGE));
+        priv->command_queue =
+            g_list_insert_before(priv->command_queue, end_of_message,
+                                 GINT_TO_POINTER(MILTER_COMMAND_BODY));
+    }
+
+    if (milter_headers_length(priv->headers) > 0 &&
+        !g_list_find(priv->command_queue,
+                     GINT_TO_POINTER(MILTER_COMMAND_HEADER))) {
+        priv->command_queue =
+            g_list_prepend(priv->command_queue,
+                           GINT_TO_POINTER(MILTER_COMMAND_HEADER));
+    }
+}
+
 static MilterStatus
 send_first_command_to_next_child (MilterManagerChildren *children,
                                   MilterServerContext *context)
@@ -1628,14 +1665,21 @@ send_first_command_to_next_child (MilterManagerChildren *children,
         return MILTER_STATUS_PROGRESS;
     }
 
+    add_commands_for_modified_message(children);
     first_command = fetch_first_command_for_child_in_queue(next_child,
                                                            &priv->command_queue);
     if (first_command == -1) {
         g_signal_emit_by_name(children, "continue");
     } else {
+        MilterStatus status;
+
         if (first_command == MILTER_COMMAND_BODY)
             init_child_for_body(children, next_child);
-        send_command_to_child(children, next_child, first_command);
+        status = send_command_to_child(children, next_child, first_command);
+        if (status == MILTER_STATUS_NOT_CHANGE)
+            status = send_next_command(children, next_child,
+                                       priv->processing_state);
+        handle_status(children, status);
     }
 
     return MILTER_STATUS_PROGRESS;
@@ -2473,8 +2517,13 @@ cb_replace_body (MilterServerContext *context,
                            "<%" G_GSIZE_FORMAT ">", chunk_size))
         return;
 
-    if (!priv->replaced_body_for_each_child)
+    if (!priv->replaced_body_for_each_child) {
         dispose_body_related_data(priv);
+        /* the chunk is a part of the replaced body. */
+        g_free(priv->end_of_message_chunk);
+        priv->end_of_message_chunk = NULL;
+        priv->end_of_message_size = 0;
+    }
 
     if (!write_body(children, chunk, chunk_size))
         return;
@@ -3350,7 +3399,11 @@ send_next_command (MilterManagerChildren *children,
                    MilterServerContext *context,
                    MilterServerContextState processing_state)
 {
+    MilterManagerChildrenPrivate *priv;
     MilterCommand next_command;
+    MilterStatus status;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     next_command = get_next_command(children, context, processing_state);
     if (next_command == -1)
@@ -3358,13 +3411,18 @@ send_next_command (MilterManagerChildren *children,
 
     if (next_command == MILTER_COMMAND_BODY &&
         processing_state != MILTER_SERVER_CONTEXT_STATE_BODY) {
-        MilterStatus status;
         status = init_child_for_body(children, context);
         if (status != MILTER_STATUS_NOT_CHANGE)
             return status;
     }
 
-    return send_command_to_child(children, context, next_command);
+    status = send_command_to_child(children, context, next_command);
+    if (status == MILTER_STATUS_NOT_CHANGE) {
+        /* nothing to be sent by the command */
+        return send_next_command(children, context, priv->processing_state);
+    }
+
+    return status;
 }
 
 static void
-- 
2.43.0


From c9022ca73a9794d2a386973df0bf14252728b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 39/81] fix: reply a command only once when no milter can
 process it

---
 milter/manager/milter-manager-leader.c | 138 +++++++++++--------------
 1 file changed, 63 insertions(+), 75 deletions(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index c59cf48..5a05113 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -562,6 +562,45 @@ reply (MilterManagerLeader *leader, MilterStatus status)
     priv->state = next_state(leader, priv->state);
 }
 
+static gboolean
+is_replied_state (MilterManagerLeaderState state)
+{
+    switch (state) {
+      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
+      case MILTER_MANAGER_LEADER_STATE_CONNECT:
+      case MILTER_MANAGER_LEADER_STATE_HELO:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
+      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
+      case MILTER_MANAGER_LEADER_STATE_DATA:
+      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
+      case MILTER_MANAGER_LEADER_STATE_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
+      case MILTER_MANAGER_LEADER_STATE_BODY:
+      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
+      case MILTER_MANAGER_LEADER_STATE_QUIT:
+      case MILTER_MANAGER_LEADER_STATE_ABORT:
+        return FALSE;
+      default:
+        return TRUE;
+        break;
+    }
+}
+
+/* Decides what a command that milters can't process is replied with. The
+ * command may have been replied already because of the same error. */
+static MilterStatus
+fallback (MilterManagerLeader *leader)
+{
+    MilterManagerLeaderPrivate *priv;
+
+    priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
+    if (is_replied_state(priv->state))
+        return MILTER_STATUS_PROGRESS;
+
+    priv->state = next_state(leader, priv->state);
+    return milter_manager_configuration_get_fallback_status(priv->configuration);
+}
+
 static void
 cb_continue (MilterReplySignals *_reply, gpointer user_data)
 {
@@ -590,7 +629,6 @@ cb_reply_code (MilterReplySignals *_reply,
         milter_error_emittable_emit(MILTER_ERROR_EMITTABLE(leader),
                                     error);
         g_error_free(error);
-        return;
     }
 
     if ((code / 100) == 4) {
@@ -902,6 +940,9 @@ cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
     if (error->domain != MILTER_MANAGER_CHILDREN_ERROR)
         return;
 
+    if (is_replied_state(priv->state))
+        return;
+
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
     reply(leader, fallback_status);
@@ -1029,21 +1070,18 @@ milter_manager_leader_connect (MilterManagerLeader *leader,
                                socklen_t            address_length)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_CONNECT;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_connect(priv->children, host_name,
                                         address, address_length)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1051,20 +1089,17 @@ MilterStatus
 milter_manager_leader_helo (MilterManagerLeader *leader, const gchar *fqdn)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_HELO;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_helo(priv->children, fqdn)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1073,20 +1108,17 @@ milter_manager_leader_envelope_from (MilterManagerLeader *leader,
                                      const gchar *from)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_envelope_from(priv->children, from)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1095,20 +1127,17 @@ milter_manager_leader_envelope_recipient (MilterManagerLeader *leader,
                                           const gchar *recipient)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_envelope_recipient(priv->children, recipient)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1116,20 +1145,17 @@ MilterStatus
 milter_manager_leader_data (MilterManagerLeader *leader)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_DATA;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_data(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1138,20 +1164,17 @@ milter_manager_leader_unknown (MilterManagerLeader *leader,
                                const gchar *command)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_UNKNOWN;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_unknown(priv->children, command)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1160,20 +1183,17 @@ milter_manager_leader_header (MilterManagerLeader *leader,
                               const gchar *name, const gchar *value)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_HEADER;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_header(priv->children, name, value)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1181,20 +1201,17 @@ MilterStatus
 milter_manager_leader_end_of_header (MilterManagerLeader *leader)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_END_OF_HEADER;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_end_of_header(priv->children)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
@@ -1203,44 +1220,18 @@ milter_manager_leader_body (MilterManagerLeader *leader,
                             const gchar *chunk, gsize size)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_BODY;
+    priv->sent_end_of_message = FALSE;
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_body(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
-    }
-}
-
-static gboolean
-is_replied_state (MilterManagerLeaderState state)
-{
-    switch (state) {
-      case MILTER_MANAGER_LEADER_STATE_NEGOTIATE:
-      case MILTER_MANAGER_LEADER_STATE_CONNECT:
-      case MILTER_MANAGER_LEADER_STATE_HELO:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_FROM:
-      case MILTER_MANAGER_LEADER_STATE_ENVELOPE_RECIPIENT:
-      case MILTER_MANAGER_LEADER_STATE_DATA:
-      case MILTER_MANAGER_LEADER_STATE_UNKNOWN:
-      case MILTER_MANAGER_LEADER_STATE_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_HEADER:
-      case MILTER_MANAGER_LEADER_STATE_BODY:
-      case MILTER_MANAGER_LEADER_STATE_END_OF_MESSAGE:
-      case MILTER_MANAGER_LEADER_STATE_QUIT:
-      case MILTER_MANAGER_LEADER_STATE_ABORT:
-        return FALSE;
-      default:
-        return TRUE;
-        break;
+        return fallback(leader);
     }
 }
 
@@ -1250,7 +1241,6 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
                                       gsize                size)
 {
     MilterManagerLeaderPrivate *priv;
-    MilterStatus fallback_status;
 
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     if (is_replied_state(priv->state)) {
@@ -1259,15 +1249,13 @@ milter_manager_leader_end_of_message (MilterManagerLeader *leader,
         priv->sent_end_of_message = TRUE;
     }
 
-    fallback_status =
-        milter_manager_configuration_get_fallback_status(priv->configuration);
     if (!priv->children)
-        return fallback_status;
+        return fallback(leader);
 
     if (milter_manager_children_end_of_message(priv->children, chunk, size)) {
         return MILTER_STATUS_PROGRESS;
     } else {
-        return fallback_status;
+        return fallback(leader);
     }
 }
 
-- 
2.43.0


From 0672189cd86bd47de9b7eed4ca591359bcb74a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 40/81] fix: reply the fallback status of a milter that fails
 in negotiation

---
 milter/manager/milter-manager-children.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 5e2b51d..21cc14f 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -74,6 +74,7 @@ struct _MilterManagerChildrenPrivate
     MilterStepFlags requested_yes_steps;
     gboolean negotiated;
     gboolean all_expired_as_fallback_on_negotiated;
+    MilterStatus fallback_status_on_negotiated;
     MilterServerContextState state;
     MilterServerContextState processing_state;
     GHashTable *reply_statuses;
@@ -284,6 +285,7 @@ milter_manager_children_init (MilterManagerChildren *milter)
     priv->requested_yes_steps = MILTER_STEP_NONE;
     priv->negotiated = FALSE;
     priv->all_expired_as_fallback_on_negotiated = FALSE;
+    priv->fallback_status_on_negotiated = MILTER_STATUS_NOT_CHANGE;
     priv->reply_statuses = g_hash_table_new(g_direct_hash, g_direct_equal);
 
     priv->smtp_client_address = NULL;
@@ -3057,6 +3059,7 @@ check_fallback_status_on_negotiate (MilterManagerChildren *children)
     case MILTER_STATUS_REJECT:
     case MILTER_STATUS_TEMPORARY_FAILURE:
     case MILTER_STATUS_DISCARD:
+        priv->fallback_status_on_negotiated = status;
         if (milter_need_log(MILTER_LOG_LEVEL_DEBUG)) {
             status_name = milter_utils_get_enum_nick_name(MILTER_TYPE_STATUS,
                                                           status);
@@ -3715,6 +3718,14 @@ milter_manager_children_connect (MilterManagerChildren *children,
     priv->smtp_client_address = g_memdup(address, address_length);
     priv->smtp_client_address_length = address_length;
 
+    if (priv->fallback_status_on_negotiated != MILTER_STATUS_NOT_CHANGE) {
+        init_reply_queue(children, state);
+        compile_reply_status(children, state,
+                             priv->fallback_status_on_negotiated);
+        emit_reply_status_of_state(children, state);
+        return TRUE;
+    }
+
     if (!milter_manager_children_check_alive(children))
         return FALSE;
 
-- 
2.43.0


From e94d0d88ae4fee00ff52f33b4b7474d79e6c494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 41/81] fix: time out a milter that doesn't reply to a body
 chunk

---
 milter/server/milter-server-context.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 5dfb924..cfee4dc 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1291,11 +1291,11 @@ process_next_state_body (MilterServerContext *context)
     milter_debug("[%u] [server][flushed][next][body] [%s] <%" G_GSIZE_FORMAT ">",
                  tag, NULL_SAFE_NAME(name), priv->body->len);
 
-    if (priv->body->len == 0)
-        return TRUE;
-
-    if (!milter_server_context_need_reply(context, state))
+    if (!milter_server_context_need_reply(context, state)) {
+        if (priv->body->len == 0)
+            return TRUE;
         return flush_body(context);
+    }
 
     disable_timeout(context);
     loop = milter_agent_get_event_loop(MILTER_AGENT(context));
-- 
2.43.0


From a3cfc241f299ea46639a23822c8a08ea341ca594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 42/81] fix: process commands that milters don't reply to

---
 milter/manager/milter-manager-children.c |  6 ++-
 milter/server/milter-server-context.c    | 50 +++++++++++++++++++-----
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 21cc14f..a1cfe59 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3115,8 +3115,9 @@ reply_negotiate (MilterManagerChildren *children)
                      priv->tag);
     }
 
+    /* We always reply because we have our own events to process. */
     milter_option_remove_step(priv->option,
-                              MILTER_STEP_NO_EVENT_MASK |
+                              MILTER_STEP_NO_MASK |
                               (MILTER_STEP_YES_MASK &
                                ~(priv->initial_yes_steps &
                                  priv->requested_yes_steps)));
@@ -4278,6 +4279,9 @@ milter_manager_children_body (MilterManagerChildren *children,
         g_signal_emit_by_name(first_child, "continue");
     } else if (!milter_server_context_body(first_child, chunk, size)) {
         fail_to_send_command(children, first_child);
+    } else if (!milter_server_context_is_quitted(first_child) &&
+               !milter_server_context_need_reply(first_child, priv->state)) {
+        g_signal_emit_by_name(first_child, "continue");
     }
 
     return TRUE;
diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index cfee4dc..6a1ece2 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1130,40 +1130,49 @@ milter_server_context_need_reply (MilterServerContext *context,
     MilterStepFlags step;
 
     priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    if (!priv->option)
+        return TRUE;
     step = milter_option_get_step(priv->option);
 
+/* A command that isn't sent is replied by ourselves. */
+#define NEED_REPLY(command, event)                      \
+    (!(step & MILTER_STEP_NO_REPLY_ ## command) ||      \
+     (step & MILTER_STEP_NO_ ## event))
+
     switch (state) {
     case MILTER_SERVER_CONTEXT_STATE_CONNECT:
-        return !(step & MILTER_STEP_NO_REPLY_CONNECT);
+        return NEED_REPLY(CONNECT, CONNECT);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HELO:
-        return !(step & MILTER_STEP_NO_REPLY_HELO);
+        return NEED_REPLY(HELO, HELO);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
-        return !(step & MILTER_STEP_NO_REPLY_ENVELOPE_FROM);
+        return NEED_REPLY(ENVELOPE_FROM, ENVELOPE_FROM);
         break;
     case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
-        return !(step & MILTER_STEP_NO_REPLY_ENVELOPE_RECIPIENT);
+        return NEED_REPLY(ENVELOPE_RECIPIENT, ENVELOPE_RECIPIENT);
         break;
     case MILTER_SERVER_CONTEXT_STATE_DATA:
-        return !(step & MILTER_STEP_NO_REPLY_DATA);
+        return NEED_REPLY(DATA, DATA);
         break;
     case MILTER_SERVER_CONTEXT_STATE_HEADER:
-        return !(step & MILTER_STEP_NO_REPLY_HEADER);
+        return NEED_REPLY(HEADER, HEADERS);
         break;
     case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
-        return !(step & MILTER_STEP_NO_REPLY_END_OF_HEADER);
+        return NEED_REPLY(END_OF_HEADER, END_OF_HEADER);
         break;
     case MILTER_SERVER_CONTEXT_STATE_BODY:
-        return !(step & MILTER_STEP_NO_REPLY_BODY);
+        return NEED_REPLY(BODY, BODY);
         break;
     case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
-        return !(step & MILTER_STEP_NO_REPLY_UNKNOWN);
+        return NEED_REPLY(UNKNOWN, UNKNOWN);
         break;
     default:
         return TRUE;
         break;
     }
+
+#undef NEED_REPLY
 }
 
 static void
@@ -1478,6 +1487,24 @@ flushed (MilterAgent *agent)
                  tag, NULL_SAFE_NAME(name));
 }
 
+static gboolean
+is_waiting_reply (MilterServerContext *context)
+{
+    MilterServerContextPrivate *priv;
+    GList *last_node;
+
+    if (!milter_server_context_is_processing(context))
+        return FALSE;
+
+    /* A command that isn't replied may still be being written. */
+    priv = MILTER_SERVER_CONTEXT_GET_PRIVATE(context);
+    last_node = g_list_last(priv->next_states);
+    if (!last_node)
+        return TRUE;
+    return milter_server_context_need_reply(context,
+                                            GPOINTER_TO_UINT(last_node->data));
+}
+
 static gboolean
 write_packet (MilterServerContext *context,
               const gchar *packet, gsize packet_size,
@@ -1507,7 +1534,7 @@ write_packet (MilterServerContext *context,
     case MILTER_SERVER_CONTEXT_STATE_QUIT:
         break;
     default:
-        if (milter_server_context_is_processing(context)) {
+        if (is_waiting_reply(context)) {
             gchar *inspected_current_state;
             gchar *inspected_next_state;
             GError *error = NULL;
@@ -1622,6 +1649,9 @@ write_packet (MilterServerContext *context,
 
     priv->next_states = g_list_append(priv->next_states,
                                       GUINT_TO_POINTER(next_state));
+    /* A command that isn't replied is done when it's sent. */
+    if (!milter_server_context_need_reply(context, next_state))
+        milter_server_context_set_state(context, next_state);
     return TRUE;
 }
 
-- 
2.43.0


From a7d48517bf038da83e91b99d9ab0f4dd818ded6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 43/81] fix: ignore message modifications which a milter sends
 after its final reply

A milter that replied too much could make milter-manager modify headers
that were already disposed.
---
 milter/manager/milter-manager-children.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index a1cfe59..e3fd7f5 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2211,7 +2211,9 @@ is_end_of_message_state (MilterManagerChildren *children,
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
-    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE)
+    /* Modifications after the final reply are too late. */
+    if (state == MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE &&
+        get_first_child_in_command_waiting_child_queue(children) == context)
         return TRUE;
 
     if (milter_need_error_log()) {
-- 
2.43.0


From 075ffabb5c2c2b745138b4c75aedcd786a0d55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 44/81] fix: drop a milter that sends a final reply nobody
 waits for

---
 milter/manager/milter-manager-children.c | 79 ++++++++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e3fd7f5..e75c0d4 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -1791,6 +1791,64 @@ handle_status (MilterManagerChildren *children,
     g_signal_emit_by_name(children, status_to_signal_name(status));
 }
 
+static gboolean
+is_reply_expected (MilterManagerChildren *children,
+                   MilterServerContext *context)
+{
+    MilterManagerChildrenPrivate *priv;
+
+    priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+
+    switch (milter_server_context_get_state(context)) {
+    case MILTER_SERVER_CONTEXT_STATE_CONNECT:
+    case MILTER_SERVER_CONTEXT_STATE_HELO:
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_FROM:
+    case MILTER_SERVER_CONTEXT_STATE_ENVELOPE_RECIPIENT:
+    case MILTER_SERVER_CONTEXT_STATE_DATA:
+    case MILTER_SERVER_CONTEXT_STATE_UNKNOWN:
+        return g_queue_find(priv->reply_queue, context) != NULL;
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_MESSAGE:
+        return get_first_child_in_command_waiting_child_queue(children) ==
+            context;
+    default:
+        return TRUE;
+    }
+}
+
+static gboolean
+check_reply_expected (MilterManagerChildren *children,
+                      MilterServerContext *context,
+                      const gchar *reply_name)
+{
+    if (is_reply_expected(children, context))
+        return TRUE;
+
+    if (milter_need_error_log()) {
+        MilterManagerChildrenPrivate *priv;
+        gchar *state_name;
+
+        priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
+        state_name =
+            milter_utils_get_enum_nick_name(
+                MILTER_TYPE_SERVER_CONTEXT_STATE,
+                milter_server_context_get_state(context));
+        milter_error("[%u] [children][error][unexpected-reply][%s][%s] "
+                     "[%u] %s",
+                     priv->tag,
+                     reply_name,
+                     state_name,
+                     milter_agent_get_tag(MILTER_AGENT(context)),
+                     milter_server_context_get_name(context));
+        g_free(state_name);
+    }
+    fail_child(children, context, FALSE);
+
+    return FALSE;
+}
+
 static void
 cb_continue (MilterServerContext *context, gpointer user_data)
 {
@@ -1799,6 +1857,9 @@ cb_continue (MilterServerContext *context, gpointer user_data)
     MilterManagerChildrenPrivate *priv;
     MilterStatus status = MILTER_STATUS_NOT_CHANGE;
 
+    if (!check_reply_expected(children, context, "continue"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
 
     state = milter_server_context_get_state(context);
@@ -1850,6 +1911,9 @@ cb_temporary_failure (MilterServerContext *context, gpointer user_data)
     MilterStatus status = MILTER_STATUS_TEMPORARY_FAILURE;
     gboolean evaluation_mode;
 
+    if (!check_reply_expected(children, context, "temporary-failure"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
@@ -1926,6 +1990,9 @@ cb_reject (MilterServerContext *context, gpointer user_data)
     MilterStatus status = MILTER_STATUS_REJECT;
     gboolean evaluation_mode;
 
+    if (!check_reply_expected(children, context, "reject"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
@@ -2004,6 +2071,9 @@ cb_reply_code (MilterServerContext *context,
     MilterServerContextState state;
     MilterStatus status;
 
+    if (!check_reply_expected(children, context, "reply-code"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
@@ -2035,6 +2105,9 @@ cb_accept (MilterServerContext *context, gpointer user_data)
     MilterManagerChildrenPrivate *priv;
     MilterServerContextState state;
 
+    if (!check_reply_expected(children, context, "accept"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
@@ -2087,6 +2160,9 @@ cb_discard (MilterServerContext *context, gpointer user_data)
     MilterStatus status = MILTER_STATUS_DISCARD;
     gboolean evaluation_mode;
 
+    if (!check_reply_expected(children, context, "discard"))
+        return;
+
     priv = MILTER_MANAGER_CHILDREN_GET_PRIVATE(children);
     state = milter_server_context_get_state(context);
 
@@ -2155,6 +2231,9 @@ cb_skip (MilterServerContext *context, gpointer user_data)
     MilterServerContextState state;
     MilterManagerChildrenPrivate *priv;
 
+    if (!check_reply_expected(children, context, "skip"))
+        return;
+
     state = milter_server_context_get_state(context);
 
     compile_reply_status(children, state, MILTER_STATUS_SKIP);
-- 
2.43.0


From 53570e68e4ccb7253c97eef6d991e5f1f33769a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 45/81] fix: answer the MTA when a milter replies connection
 failure or shutdown

---
 milter/manager/milter-manager-children.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index e75c0d4..b97d30e 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -2664,7 +2664,10 @@ cb_quarantine (MilterServerContext *context,
 static void
 cb_connection_failure (MilterServerContext *context, gpointer user_data)
 {
-    g_signal_emit_by_name(user_data, "connection-failure");
+    MilterManagerChildren *children = user_data;
+
+    g_signal_emit_by_name(children, "connection-failure");
+    fail_child(children, context, TRUE);
 }
 
 static void
@@ -2673,6 +2676,7 @@ cb_shutdown (MilterServerContext *context, gpointer user_data)
     MilterManagerChildren *children = user_data;
 
     g_signal_emit_by_name(children, "shutdown");
+    fail_child(children, context, TRUE);
 }
 
 static void
-- 
2.43.0


From 30003167f94e06bccd832b13bbcb3c8a689e4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 46/81] fix: continue a command a milter doesn't reply only
 once

---
 milter/manager/milter-manager-children.c | 91 +++++++++++++++---------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index b97d30e..5703078 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -192,6 +192,10 @@ static MilterStatus process_failed_child_for_message
                             MilterServerContext *context);
 static MilterStatus get_child_fallback_status
                            (MilterManagerChild *child);
+static void continue_child_without_reply
+                                   (MilterManagerChildren *children,
+                                    MilterServerContext *context,
+                                    MilterServerContextState state);
 static MilterServerContext *get_first_child_in_command_waiting_child_queue
                            (MilterManagerChildren *children);
 static gboolean write_body (MilterManagerChildren *children,
@@ -1276,10 +1280,9 @@ send_command_to_child (MilterManagerChildren *children,
         priv->processing_state = MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER;
         if (milter_server_context_end_of_header(context)) {
             status = MILTER_STATUS_PROGRESS;
-            if (!milter_server_context_need_reply(context,
-                                                 priv->processing_state)) {
-                g_signal_emit_by_name(context, "continue");
-            }
+            continue_child_without_reply(
+                children, context,
+                MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER);
         } else {
             status = fail_to_send_command(children, context);
         }
@@ -1849,6 +1852,41 @@ check_reply_expected (MilterManagerChildren *children,
     return FALSE;
 }
 
+/* Goes on with a child that doesn't reply to the command sent now. */
+static void
+continue_child_without_reply (MilterManagerChildren *children,
+                              MilterServerContext *context,
+                              MilterServerContextState state)
+{
+    MilterStepFlags not_sent_step = MILTER_STEP_NONE;
+
+    if (milter_server_context_need_reply(context, state))
+        return;
+    if (milter_server_context_is_quitted(context))
+        return;
+
+    /* A command which isn't sent has been continued already. */
+    switch (state) {
+    case MILTER_SERVER_CONTEXT_STATE_HEADER:
+        not_sent_step = MILTER_STEP_NO_HEADERS;
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_END_OF_HEADER:
+        not_sent_step = MILTER_STEP_NO_END_OF_HEADER;
+        break;
+    case MILTER_SERVER_CONTEXT_STATE_BODY:
+        not_sent_step = MILTER_STEP_NO_BODY;
+        break;
+    default:
+        break;
+    }
+    if (not_sent_step != MILTER_STEP_NONE &&
+        milter_server_context_is_enable_step(context, not_sent_step))
+        return;
+
+    if (is_reply_expected(children, context))
+        g_signal_emit_by_name(context, "continue");
+}
+
 static void
 cb_continue (MilterServerContext *context, gpointer user_data)
 {
@@ -3838,9 +3876,7 @@ milter_manager_children_connect (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3881,9 +3917,7 @@ milter_manager_children_helo (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3925,9 +3959,7 @@ milter_manager_children_envelope_from (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -3969,9 +4001,7 @@ milter_manager_children_envelope_recipient (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -4015,9 +4045,7 @@ milter_manager_children_data (MilterManagerChildren *children)
     milter_debug("[%u] [children][data][sent] %d", priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -4073,9 +4101,7 @@ milter_manager_children_unknown (MilterManagerChildren *children,
                  priv->tag, n_queued_milters);
     for (child = targets; child; child = g_list_next(child)) {
         MilterServerContext *context = MILTER_SERVER_CONTEXT(child->data);
-        if (!milter_server_context_need_reply(context, state)) {
-            cb_continue(context, children);
-        }
+        continue_child_without_reply(children, context, state);
     }
     g_list_free(targets);
 
@@ -4106,11 +4132,9 @@ send_next_header_to_child (MilterManagerChildren *children, MilterServerContext
     if (milter_server_context_header(context,
                                      header->name,
                                      header->value + value_offset)) {
-        MilterStatus status = MILTER_STATUS_PROGRESS;
-        if (!milter_server_context_need_reply(context, priv->processing_state)) {
-            g_signal_emit_by_name(context, "continue");
-        }
-        return status;
+        continue_child_without_reply(children, context,
+                                     MILTER_SERVER_CONTEXT_STATE_HEADER);
+        return MILTER_STATUS_PROGRESS;
     } else {
         return fail_to_send_command(children, context);
     }
@@ -4364,9 +4388,8 @@ milter_manager_children_body (MilterManagerChildren *children,
         g_signal_emit_by_name(first_child, "continue");
     } else if (!milter_server_context_body(first_child, chunk, size)) {
         fail_to_send_command(children, first_child);
-    } else if (!milter_server_context_is_quitted(first_child) &&
-               !milter_server_context_need_reply(first_child, priv->state)) {
-        g_signal_emit_by_name(first_child, "continue");
+    } else {
+        continue_child_without_reply(children, first_child, state);
     }
 
     return TRUE;
@@ -4545,11 +4568,9 @@ send_body_to_child (MilterManagerChildren *children, MilterServerContext *contex
     else
         status = send_body_to_child_file(children, context);
 
-    if (status == MILTER_STATUS_PROGRESS &&
-        !milter_server_context_is_quitted(context) &&
-        !milter_server_context_need_reply(context,
-                                          MILTER_SERVER_CONTEXT_STATE_BODY)) {
-        g_signal_emit_by_name(context, "continue");
+    if (status == MILTER_STATUS_PROGRESS) {
+        continue_child_without_reply(children, context,
+                                     MILTER_SERVER_CONTEXT_STATE_BODY);
     }
 
     if (status != MILTER_STATUS_PROGRESS)
-- 
2.43.0


From a0466b749b605c8f4c5c02fc95e6c6fffac3fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 47/81] fix: give up the old milters when the MTA negotiates
 again

---
 milter/manager/milter-manager-leader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 5a05113..9b4928d 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1037,6 +1037,14 @@ milter_manager_leader_negotiate (MilterManagerLeader *leader,
     priv = MILTER_MANAGER_LEADER_GET_PRIVATE(leader);
     priv->state = MILTER_MANAGER_LEADER_STATE_NEGOTIATE;
 
+    if (priv->children) {
+        /* The MTA negotiates again on the same connection. */
+        teardown_children_signals(leader, priv->children);
+        milter_manager_children_quit(priv->children);
+        g_object_unref(priv->children);
+        priv->children = NULL;
+    }
+
     event_loop = milter_agent_get_event_loop(MILTER_AGENT(priv->client_context));
     priv->children = milter_manager_children_new(priv->configuration,
                                                  event_loop);
-- 
2.43.0


From cc88ba6d856604b4fb8323c092a966b85dba71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 48/81] fix: pass the body chunk to body stoppers of applicable
 conditions

---
 binding/ruby/lib/milter/manager.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index 716e834..c115e1c 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -1386,7 +1386,7 @@ module Milter
                 child_context = ChildContext.new(child, children, context)
                 @body_stoppers.any? do |stopper|
                   Milter::Callback.guard(false) do
-                    stopper.call(child_context, name, chunk)
+                    stopper.call(child_context, chunk)
                   end
                 end
               end
-- 
2.43.0


From a084fc82b85b567fa6271bba5621eaf27fd60053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 49/81] fix: free the session of an MTA which goes away before
 negotiation

---
 milter/manager/milter-manager-leader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager-leader.c b/milter/manager/milter-manager-leader.c
index 9b4928d..3d3a3d3 100644
--- a/milter/manager/milter-manager-leader.c
+++ b/milter/manager/milter-manager-leader.c
@@ -1278,8 +1278,11 @@ milter_manager_leader_quit (MilterManagerLeader *leader)
 
     fallback_status =
         milter_manager_configuration_get_fallback_status(priv->configuration);
-    if (!priv->children)
+    if (!priv->children) {
+        /* Nobody else tells the end of a session without negotiation. */
+        milter_finished_emittable_emit(MILTER_FINISHED_EMITTABLE(leader));
         return fallback_status;
+    }
 
     milter_manager_children_quit(priv->children);
     return MILTER_STATUS_DEFAULT;
-- 
2.43.0


From 87a97593d2c1f22c4dce355429e45af49b54d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 50/81] fix: don't lose a list node for each removed recipient

---
 milter/core/milter-message-result.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-message-result.c b/milter/core/milter-message-result.c
index 76620af..66158a5 100644
--- a/milter/core/milter-message-result.c
+++ b/milter/core/milter-message-result.c
@@ -496,7 +496,8 @@ milter_message_result_remove_recipient (MilterMessageResult *result,
 
         if (strcmp(_recipient, recipient) == 0) {
             g_free(_recipient);
-            priv->recipients = g_list_remove_link(priv->recipients, node);
+            priv->recipients = g_list_delete_link(priv->recipients, node);
+            break;
         }
     }
 }
-- 
2.43.0


From 0a015752a83809bc1066b3f86be4dd5d866369cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 51/81] fix: keep serving sessions while the connection limit
 is reached

---
 milter/client/milter-client.c | 74 ++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 5 deletions(-)

diff --git a/milter/client/milter-client.c b/milter/client/milter-client.c
index 98c543f..f907d60 100644
--- a/milter/client/milter-client.c
+++ b/milter/client/milter-client.c
@@ -82,6 +82,8 @@ struct _MilterClientPrivate
     MilterEventLoop *event_loop;
     guint accept_watch_id;
     guint accept_error_watch_id;
+    guint accept_resume_id;
+    GIOFunc suspended_accept_func;
     gchar *connection_spec;
     GList *processing_data;
     guint n_processing_sessions;
@@ -491,6 +493,8 @@ _milter_client_init (MilterClient *client)
 
     priv->accept_watch_id = 0;
     priv->accept_error_watch_id = 0;
+    priv->accept_resume_id = 0;
+    priv->suspended_accept_func = NULL;
     priv->connection_spec = NULL;
     priv->processing_data = NULL;
     priv->n_processing_sessions = 0;
@@ -705,6 +709,11 @@ watch_worker_process (GPid     pid,
 static void
 dispose_accept_watchers (MilterClientPrivate *priv)
 {
+    if (priv->accept_resume_id > 0) {
+        milter_event_loop_remove(priv->event_loop, priv->accept_resume_id);
+        priv->accept_resume_id = 0;
+    }
+
     if (priv->accept_watch_id > 0) {
         if (priv->accept_loop) {
             milter_event_loop_remove(priv->accept_loop, priv->accept_watch_id);
@@ -1342,6 +1351,57 @@ single_thread_process_client_channel (MilterClient *client, GIOChannel *channel,
                                     NULL);
 }
 
+static gboolean
+cb_timeout_resume_accept (gpointer user_data)
+{
+    MilterClient *client = user_data;
+    MilterClientPrivate *priv;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+    priv->accept_resume_id = 0;
+    milter_warning("[client][accept][resume] resume accepting connection");
+    priv->accept_watch_id =
+        milter_event_loop_watch_io(priv->event_loop,
+                                   priv->listening_channel,
+                                   G_IO_IN | G_IO_PRI,
+                                   priv->suspended_accept_func, client);
+
+    return FALSE;
+}
+
+/* Sessions are processed in the loop that accepts connections. So the loop
+   must not sleep: only the accept watch is stopped for a while. The caller
+   must return FALSE from the accept watch when this returns TRUE. */
+static gboolean
+suspend_accept_on_max_connections (MilterClient *client, GIOFunc accept_func)
+{
+    MilterClientPrivate *priv;
+    guint suspend_time, max_connections;
+
+    priv = MILTER_CLIENT_GET_PRIVATE(client);
+
+    max_connections = milter_client_get_max_connections(client);
+    if (max_connections == 0 || priv->n_processing_sessions < max_connections)
+        return FALSE;
+
+    suspend_time = milter_client_get_suspend_time_on_unacceptable(client);
+    milter_warning("[client][accept][suspend] "
+                   "too many processing connection: %u, max: %u; "
+                   "suspend accepting connection in %d seconds",
+                   priv->n_processing_sessions,
+                   max_connections,
+                   suspend_time);
+    priv->accept_watch_id = 0;
+    priv->suspended_accept_func = accept_func;
+    priv->accept_resume_id =
+        milter_event_loop_add_timeout(priv->event_loop,
+                                      suspend_time,
+                                      cb_timeout_resume_accept,
+                                      client);
+
+    return TRUE;
+}
+
 static gint
 accept_connection_fd (MilterClient *client, gint server_fd,
                       MilterGenericSocketAddress *address,
@@ -2237,6 +2297,10 @@ single_thread_single_loop_accept_watch_func (GIOChannel *channel,
     gboolean keep_callback = TRUE;
     gint fd;
 
+    if (suspend_accept_on_max_connections(
+            client, single_thread_single_loop_accept_watch_func))
+        return FALSE;
+
     fd = g_io_channel_unix_get_fd(channel);
     keep_callback = single_thread_single_loop_accept_connection(client, fd);
     if (!keep_callback)
@@ -2440,20 +2504,20 @@ worker_accept_watch_func (GIOChannel *channel, GIOCondition condition,
     gint server_fd, client_fd;
     MilterGenericSocketAddress address;
     socklen_t address_size;
-    gboolean keep_callback = TRUE;
+
+    if (suspend_accept_on_max_connections(client, worker_accept_watch_func))
+        return FALSE;
 
     server_fd = g_io_channel_unix_get_fd(channel);
     client_fd = accept_connection_fd(client, server_fd, &address, &address_size);
-    if (client_fd == -1) {
-        keep_callback = errno == EAGAIN;
-    } else {
+    if (client_fd != -1) {
         GIOChannel *client_channel;
         client_channel = setup_client_channel(client_fd);
         single_thread_process_client_channel(client, client_channel,
                                              &address, (socklen_t)address_size);
         g_io_channel_unref(client_channel);
     }
-    return keep_callback;
+    return TRUE;
 }
 
 static gboolean
-- 
2.43.0


From 286aeb6535aa8295cb8fc386fb2a6550fa8b29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 52/81] fix: handle signals in the event loop, not in the
 signal handlers

---
 milter/manager/milter-manager-main.c | 159 +++++++++++++++++++++++----
 1 file changed, 135 insertions(+), 24 deletions(-)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index a32b8de..23a8db3 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -52,6 +52,15 @@ static gboolean io_detached = FALSE;
 
 static guint milter_manager_log_handler_id = 0;
 
+enum {
+    SIGNAL_REQUEST_SHUTDOWN = 's',
+    SIGNAL_REQUEST_RELOAD = 'r',
+    SIGNAL_REQUEST_REOPEN_LOG = 'l'
+};
+
+static gint signal_pipe[2] = {-1, -1};
+static guint signal_watch_id = 0;
+
 static struct sigaction default_sigsegv_action;
 static struct sigaction default_sigabort_action;
 static struct sigaction default_sigint_action;
@@ -186,13 +195,34 @@ milter_manager_quit (void)
     milter_quit();
 }
 
+static void
+close_pipe (int *pipe, MilterUtilsPipeMode mode)
+{
+    if (pipe[mode] == -1)
+        return;
+    close(pipe[mode]);
+    pipe[mode] = -1;
+}
+
+static void
+send_signal_request (gchar request)
+{
+    int saved_errno = errno;
+
+    /* Only async-signal-safe functions can be used in a signal handler. */
+    if (signal_pipe[MILTER_UTILS_WRITE_PIPE] != -1 &&
+        write(signal_pipe[MILTER_UTILS_WRITE_PIPE], &request, 1) == -1) {
+        /* The pipe is full: enough requests are waiting. */
+    }
+    errno = saved_errno;
+}
+
 static void
 shutdown_client (int signum)
 {
     struct sigaction default_action;
 
-    if (the_manager)
-        milter_client_shutdown(MILTER_CLIENT(the_manager));
+    send_signal_request(SIGNAL_REQUEST_SHUTDOWN);
 
     switch (signum) {
     case SIGINT:
@@ -212,8 +242,8 @@ shutdown_client (int signum)
     }
 }
 
-static gboolean
-cb_idle_reload_configuration (gpointer user_data)
+static void
+reload_configuration (void)
 {
     if (the_manager) {
         GError *error = NULL;
@@ -224,44 +254,110 @@ cb_idle_reload_configuration (gpointer user_data)
             g_error_free(error);
         }
     }
-
-    return FALSE;
 }
 
 static void
 reload_configuration_request (int signum)
 {
-    if (the_manager) {
-        MilterEventLoop *loop;
-
-        loop = milter_client_get_event_loop(MILTER_CLIENT(the_manager));
-        milter_event_loop_add_idle_full(loop,
-                                        G_PRIORITY_DEFAULT,
-                                        cb_idle_reload_configuration,
-                                        NULL,
-                                        NULL);
-    }
+    send_signal_request(SIGNAL_REQUEST_RELOAD);
 }
 
 static void
 reopen_log (int signum)
 {
-    milter_logger_reopen(milter_logger());
+    send_signal_request(SIGNAL_REQUEST_REOPEN_LOG);
+}
+
+static gboolean
+cb_signal_request (GIOChannel *channel, GIOCondition condition, gpointer data)
+{
+    gchar request;
+    gboolean need_shutdown = FALSE;
+    gboolean need_reload = FALSE;
+    gboolean need_reopen_log = FALSE;
+
+    while (read(signal_pipe[MILTER_UTILS_READ_PIPE], &request, 1) == 1) {
+        switch (request) {
+        case SIGNAL_REQUEST_SHUTDOWN:
+            need_shutdown = TRUE;
+            break;
+        case SIGNAL_REQUEST_RELOAD:
+            need_reload = TRUE;
+            break;
+        case SIGNAL_REQUEST_REOPEN_LOG:
+            need_reopen_log = TRUE;
+            break;
+        default:
+            break;
+        }
+    }
+
+    if (need_reopen_log)
+        milter_logger_reopen(milter_logger());
+    if (need_reload)
+        reload_configuration();
+    if (need_shutdown && the_manager)
+        milter_client_shutdown(MILTER_CLIENT(the_manager));
+
+    return TRUE;
 }
 
 static void
-cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
+dispose_signal_pipe (MilterEventLoop *loop)
 {
-    g_print("milter-manager error: %s\n", error->message);
+    if (signal_watch_id > 0) {
+        milter_event_loop_remove(loop, signal_watch_id);
+        signal_watch_id = 0;
+    }
+    close_pipe(signal_pipe, MILTER_UTILS_READ_PIPE);
+    close_pipe(signal_pipe, MILTER_UTILS_WRITE_PIPE);
+}
+
+static gboolean
+setup_signal_pipe (MilterEventLoop *loop)
+{
+    GIOChannel *channel;
+    gint i;
+
+    if (pipe(signal_pipe) == -1) {
+        milter_manager_error("failed to create pipe for signals: %s",
+                             g_strerror(errno));
+        signal_pipe[MILTER_UTILS_READ_PIPE] = -1;
+        signal_pipe[MILTER_UTILS_WRITE_PIPE] = -1;
+        return FALSE;
+    }
+
+    for (i = 0; i < 2; i++) {
+        fcntl(signal_pipe[i], F_SETFD, FD_CLOEXEC);
+        fcntl(signal_pipe[i], F_SETFL,
+              fcntl(signal_pipe[i], F_GETFL) | O_NONBLOCK);
+    }
+
+    channel = g_io_channel_unix_new(signal_pipe[MILTER_UTILS_READ_PIPE]);
+    g_io_channel_set_encoding(channel, NULL, NULL);
+    signal_watch_id = milter_event_loop_watch_io(loop, channel,
+                                                 G_IO_IN | G_IO_PRI,
+                                                 cb_signal_request, NULL);
+    g_io_channel_unref(channel);
+
+    return TRUE;
 }
 
 static void
-close_pipe (int *pipe, MilterUtilsPipeMode mode)
+cb_worker_created (MilterClient *client, gpointer user_data)
 {
-    if (pipe[mode] == -1)
-        return;
-    close(pipe[mode]);
-    pipe[mode] = -1;
+    MilterEventLoop *loop;
+
+    /* The pipe which is inherited from the master is for the master. */
+    loop = milter_client_get_event_loop(client);
+    dispose_signal_pipe(loop);
+    setup_signal_pipe(loop);
+}
+
+static void
+cb_error (MilterErrorEmittable *emittable, GError *error, gpointer user_data)
+{
+    g_print("milter-manager error: %s\n", error->message);
 }
 
 static GIOChannel *
@@ -682,6 +778,19 @@ milter_manager_main (void)
 
     the_manager = manager;
 
+    loop = milter_client_get_event_loop(client);
+    if (!loop) {
+        loop = milter_client_create_event_loop(client, TRUE);
+        milter_client_set_event_loop(client, loop);
+    }
+    if (!setup_signal_pipe(loop)) {
+        if (controller)
+            g_object_unref(controller);
+        return FALSE;
+    }
+    g_signal_connect(client, "worker-created",
+                     G_CALLBACK(cb_worker_created), NULL);
+
 #define SETUP_SIGNAL_ACTION(handler)            \
     handler ## _action.sa_handler = handler;    \
     sigemptyset(&handler ## _action.sa_mask);   \
@@ -723,6 +832,8 @@ milter_manager_main (void)
     UNSET_SIGNAL_ACTION(USR1, usr1);
 #undef UNSET_SIGNAL_ACTION
 
+    dispose_signal_pipe(loop);
+
     if (controller)
         g_object_unref(controller);
 
-- 
2.43.0


From 9a8a15a4d2295f9a26082c37d53e091e405fc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 53/81] fix: start the controller with the event loop of the
 manager

---
 milter/manager/milter-manager-main.c | 57 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/milter/manager/milter-manager-main.c b/milter/manager/milter-manager-main.c
index 23a8db3..acac33b 100644
--- a/milter/manager/milter-manager-main.c
+++ b/milter/manager/milter-manager-main.c
@@ -679,12 +679,39 @@ load_configuration (MilterManager *manager)
     }
 }
 
+static MilterManagerController *
+start_controller (MilterManager *manager, MilterEventLoop *loop)
+{
+    MilterManagerController *controller;
+    GError *error = NULL;
+
+    controller = milter_manager_controller_new(manager, loop);
+    if (controller && !milter_manager_controller_listen(controller, &error)) {
+        milter_manager_error("failed to listen controller socket: %s",
+                             error->message);
+        g_error_free(error);
+        g_object_unref(controller);
+        controller = NULL;
+    }
+
+    return controller;
+}
+
+static void
+cb_workers_created (MilterClient *client, guint n_workers, gpointer user_data)
+{
+    MilterManagerController **controller = user_data;
+
+    *controller = start_controller(MILTER_MANAGER(client),
+                                   milter_client_get_event_loop(client));
+}
+
 gboolean
 milter_manager_main (void)
 {
     MilterClient *client;
     MilterManager *manager;
-    MilterManagerController *controller;
+    MilterManagerController *controller = NULL;
     MilterManagerConfiguration *config;
     MilterEventLoop *loop;
     gboolean remove_socket, daemon, success;
@@ -752,17 +779,6 @@ milter_manager_main (void)
         return FALSE;
     }
 
-    loop = milter_client_get_event_loop(client);
-    controller = milter_manager_controller_new(manager, loop);
-    if (controller && !milter_manager_controller_listen(controller, &error)) {
-        milter_manager_error("failed to listen controller socket: %s",
-                             error->message);
-        g_error_free(error);
-        error = NULL;
-        g_object_unref(controller);
-        controller = NULL;
-    }
-
     daemon = milter_client_is_run_as_daemon(client);
     if (daemon) {
         if (milter_client_daemonize(client, &error)) {
@@ -770,8 +786,6 @@ milter_manager_main (void)
         } else {
             milter_manager_error("failed to daemonize: %s", error->message);
             g_error_free(error);
-            if (controller)
-                g_object_unref(controller);
             return FALSE;
         }
     }
@@ -783,14 +797,18 @@ milter_manager_main (void)
         loop = milter_client_create_event_loop(client, TRUE);
         milter_client_set_event_loop(client, loop);
     }
-    if (!setup_signal_pipe(loop)) {
-        if (controller)
-            g_object_unref(controller);
+    if (!setup_signal_pipe(loop))
         return FALSE;
-    }
     g_signal_connect(client, "worker-created",
                      G_CALLBACK(cb_worker_created), NULL);
 
+    /* Workers must not take over the controller from the master. */
+    if (milter_client_get_n_workers(client) > 0)
+        g_signal_connect(client, "workers-created",
+                         G_CALLBACK(cb_workers_created), &controller);
+    else
+        controller = start_controller(manager, loop);
+
 #define SETUP_SIGNAL_ACTION(handler)            \
     handler ## _action.sa_handler = handler;    \
     sigemptyset(&handler ## _action.sa_mask);   \
@@ -814,6 +832,9 @@ milter_manager_main (void)
 #undef SET_SIGNAL_ACTION
 
     success = milter_client_run(client, &error);
+    g_signal_handlers_disconnect_by_func(client,
+                                         G_CALLBACK(cb_workers_created),
+                                         &controller);
     if (!success) {
         milter_manager_error("failed to start milter-manager process: %s",
                              error->message);
-- 
2.43.0


From c621fb192f66377bccb7034ce728a84dd257a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 54/81] fix: don't turn off events when all options are
 requested in negotiation

---
 milter/client/milter-client-context.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 40c1f20..1735361 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3531,6 +3531,14 @@ negotiate_response (MilterClientContext *context,
         status = MILTER_STATUS_ALL_OPTIONS;
 
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    if (status == MILTER_STATUS_ALL_OPTIONS && priv->option) {
+        /* These steps turn off events and replies or must be
+           requested explicitly. */
+        milter_option_remove_step(priv->option,
+                                  MILTER_STEP_NO_MASK |
+                                  MILTER_STEP_ENVELOPE_RECIPIENT_REJECTED |
+                                  MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE);
+    }
     priv->status = status;
     /* FIXME: should check the previous state */
     milter_client_context_set_state(
-- 
2.43.0


From 3e970acb967dc218f5fef397732109a7540964de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 55/81] fix: drop the buffered modifications of an aborted
 message

---
 milter/client/milter-client-context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 1735361..09c5397 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3294,6 +3294,13 @@ milter_client_context_reset_message_related_data (MilterClientContext *context)
     milter_client_context_clear_mail_transaction_shelf(context);
 
     dispose_message_result(priv);
+
+    /* Modifications for an aborted message must not be sent for
+       the next message. */
+    if (priv->buffering) {
+        g_string_truncate(priv->buffered_packets, 0);
+        priv->buffering = FALSE;
+    }
 }
 
 static void
-- 
2.43.0


From 7f9071e8992efdfae88dd4492cdbb6dd4cc702ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 56/81] fix: add a recipient with parameters only when that is
 negotiated

---
 milter/client/milter-client-context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 09c5397..4202e0b 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3075,6 +3075,8 @@ milter_client_context_add_recipient (MilterClientContext *context,
         return FALSE;
 
     if (!validate_action("add-recipient",
+                         parameters ?
+                         MILTER_ACTION_ADD_ENVELOPE_RECIPIENT_WITH_PARAMETERS :
                          MILTER_ACTION_ADD_ENVELOPE_RECIPIENT,
                          priv->option,
                          error))
-- 
2.43.0


From 8959db6184a3f2b8ad1b787b9924a5e5a11c706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 57/81] fix: refuse to quarantine a message when that isn't
 negotiated

---
 milter/client/milter-client-context.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/milter/client/milter-client-context.c b/milter/client/milter-client-context.c
index 4202e0b..6f96c4d 100644
--- a/milter/client/milter-client-context.c
+++ b/milter/client/milter-client-context.c
@@ -3276,6 +3276,21 @@ milter_client_context_quarantine (MilterClientContext *context,
                       milter_agent_get_tag(MILTER_AGENT(context)));
 
     priv = MILTER_CLIENT_CONTEXT_GET_PRIVATE(context);
+    if (priv->option) {
+        GError *error = NULL;
+
+        if (!validate_action("quarantine",
+                             MILTER_ACTION_QUARANTINE,
+                             priv->option,
+                             &error)) {
+            milter_error("[%u] [client][error][quarantine] %s",
+                         milter_agent_get_tag(MILTER_AGENT(context)),
+                         error->message);
+            g_error_free(error);
+            return FALSE;
+        }
+    }
+
     if (priv->quarantine_reason)
         g_free(priv->quarantine_reason);
     priv->quarantine_reason = g_strdup(reason);
-- 
2.43.0


From 62d8c20dbdb71a77e5754319b4aac8cf08482855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 58/81] fix: pass the negotiate signal's macros requests to the
 libmilter-compatible handler

---
 libmilter/libmilter-compatible.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 577185a..6dabc75 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -263,7 +263,7 @@ smfi_register (struct smfiDesc description)
 
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
-              gpointer user_data)
+              MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
     sfsistat status;
-- 
2.43.0


From 5c5efd941be109678eaa3fe1c92dd95ace387b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 59/81] fix: negotiate from the filter description when
 xxfi_negotiate is missing

---
 libmilter/libmilter-compatible.c | 34 ++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index 6dabc75..d95f474 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -261,6 +261,35 @@ smfi_register (struct smfiDesc description)
     return MI_SUCCESS;
 }
 
+static MilterStatus
+negotiate_by_description (MilterOption *option)
+{
+    MilterStepFlags step = MILTER_STEP_NONE;
+
+#define NEED(smfi_name, no_step)                        \
+    if (!filter_description->xxfi_ ## smfi_name)        \
+        step |= MILTER_STEP_NO_ ## no_step
+
+    NEED(connect, CONNECT);
+    NEED(helo, HELO);
+    NEED(envfrom, ENVELOPE_FROM);
+    NEED(envrcpt, ENVELOPE_RECIPIENT);
+    NEED(data, DATA);
+    NEED(unknown, UNKNOWN);
+    NEED(header, HEADERS);
+    NEED(eoh, END_OF_HEADER);
+    NEED(body, BODY);
+
+#undef NEED
+
+    milter_option_set_action(option,
+                             milter_option_get_action(option) &
+                             filter_description->xxfi_flags);
+    milter_option_set_step(option, milter_option_get_step(option) & step);
+
+    return MILTER_STATUS_CONTINUE;
+}
+
 static MilterStatus
 cb_negotiate (MilterClientContext *context, MilterOption *option,
               MilterMacrosRequests *macros_requests, gpointer user_data)
@@ -271,7 +300,7 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
     gulong action_out, step_out, preserve1_out = 0, preserve2_out = 0;
 
     if (!filter_description->xxfi_negotiate)
-        return MILTER_STATUS_DEFAULT;
+        return negotiate_by_description(option);
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
@@ -496,7 +525,8 @@ smfi_context_attach_to_client_context (SmfiContext *context)
                          G_CALLBACK(cb_ ## name),       \
                          context)
 
-    CONNECT(negotiate, negotiate);
+    g_signal_connect(client_context, "negotiate",
+                     G_CALLBACK(cb_negotiate), context);
     CONNECT(connect, connect);
     CONNECT(helo, helo);
     CONNECT(envelope_from, envfrom);
-- 
2.43.0


From 1ef0a298a91408152b0663d8a8e30594d57bf386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 60/81] fix: smfi_setsymlist registers the list with the
 running negotiation

---
 libmilter/libmilter-compatible.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index d95f474..e9dfadd 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -50,6 +50,7 @@ struct _SmfiContextPrivate
 {
     MilterClientContext *client_context;
     gpointer private_data;
+    MilterMacrosRequests *macros_requests;
 };
 
 enum
@@ -103,6 +104,7 @@ smfi_context_init (SmfiContext *context)
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
     priv->client_context = NULL;
     priv->private_data = NULL;
+    priv->macros_requests = NULL;
 }
 
 static void
@@ -295,6 +297,7 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
               MilterMacrosRequests *macros_requests, gpointer user_data)
 {
     SmfiContext *smfi_context = user_data;
+    SmfiContextPrivate *priv;
     sfsistat status;
     gulong action, step, preserve1 = 0, preserve2 = 0;
     gulong action_out, step_out, preserve1_out = 0, preserve2_out = 0;
@@ -304,11 +307,14 @@ cb_negotiate (MilterClientContext *context, MilterOption *option,
 
     action = action_out = milter_option_get_action(option);
     step = step_out = milter_option_get_step(option);
+    priv = SMFI_CONTEXT_GET_PRIVATE(smfi_context);
+    priv->macros_requests = macros_requests;
     status = filter_description->xxfi_negotiate(smfi_context,
                                                 action, step,
                                                 preserve1, preserve2,
                                                 &action_out, &step_out,
                                                 &preserve1_out, &preserve2_out);
+    priv->macros_requests = NULL;
     if (status == SMFIS_CONTINUE) {
         milter_option_set_action(option, action_out);
         milter_option_set_step(option, step_out);
@@ -1064,22 +1070,24 @@ int
 smfi_setsymlist (SMFICTX *context, int state, char *macros)
 {
     SmfiContextPrivate *priv;
-    MilterProtocolAgent *agent;
-    MilterMacrosRequests *macros_requests;
+    MilterCommand command;
     gchar **macro_array;
 
     priv = SMFI_CONTEXT_GET_PRIVATE(context);
-    if (!priv->client_context)
+    /* The list is sent with the reply to the negotiation. */
+    if (!priv->macros_requests)
         return MI_FAILURE;
 
-    agent = MILTER_PROTOCOL_AGENT(priv->client_context);
-    macros_requests = milter_protocol_agent_get_macros_requests(agent);
-    if (!macros_requests)
-        macros_requests = milter_macros_requests_new();
+    if (!macros)
+        return MI_FAILURE;
+
+    command = milter_utils_macro_stage_to_command(state);
+    if (command == '\0')
+        return MI_FAILURE;
 
     macro_array = g_strsplit(macros, " ", -1);
-    milter_macros_requests_set_symbols_string_array(macros_requests,
-                                                    state,
+    milter_macros_requests_set_symbols_string_array(priv->macros_requests,
+                                                    command,
                                                     (const gchar**)macro_array);
     g_strfreev(macro_array);
 
-- 
2.43.0


From 914394cf6c6915e8adc095882f035304b967adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 61/81] fix: xxfi_body gets the chunk of the end of message
 without xxfi_eom

---
 libmilter/libmilter-compatible.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmilter/libmilter-compatible.c b/libmilter/libmilter-compatible.c
index e9dfadd..755ca71 100644
--- a/libmilter/libmilter-compatible.c
+++ b/libmilter/libmilter-compatible.c
@@ -542,7 +542,10 @@ smfi_context_attach_to_client_context (SmfiContext *context)
     CONNECT(header, header);
     CONNECT(end_of_header, eoh);
     CONNECT(body, body);
-    CONNECT(end_of_message, eom);
+    /* The last body chunk may come with the end of message. */
+    if (filter_description->xxfi_eom || filter_description->xxfi_body)
+        g_signal_connect(client_context, "end_of_message",
+                         G_CALLBACK(cb_end_of_message), context);
     CONNECT(abort, abort);
 
 #undef CONNECT
-- 
2.43.0


From 21a6149064f9c7f206c914808518ff6450144208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 62/81] fix: finish a body command after its last chunk is
 answered

---
 milter/server/milter-server-context.c | 28 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index 6a1ece2..b26415d 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1260,7 +1260,6 @@ flush_body (MilterServerContext *context)
     g_timer_continue(priv->elapsed);
     encoder = milter_agent_get_encoder(MILTER_AGENT(context));
     command_encoder = MILTER_COMMAND_ENCODER(encoder);
-    append_body_response_queue(context);
 
     milter_command_encoder_encode_body(command_encoder,
                                        &packet, &packet_size,
@@ -2253,7 +2252,17 @@ milter_server_context_body (MilterServerContext *context,
     }
 
     g_string_append_len(priv->body, chunk, size);
-    return flush_body(context);
+    append_body_response_queue(context);
+    if (!flush_body(context))
+        return FALSE;
+    if (!milter_server_context_need_reply(context, state)) {
+        /* No reply asks for the rest. */
+        while (priv->body->len > 0) {
+            if (!flush_body(context))
+                return FALSE;
+        }
+    }
+    return TRUE;
 }
 
 gboolean
@@ -2520,6 +2529,7 @@ clear_process_body_count (MilterServerContext *context)
         g_list_free(priv->body_response_queue);
         priv->body_response_queue = NULL;
     }
+    g_string_truncate(priv->body, 0);
 
     if (priv->sent_end_of_message)
         milter_server_context_set_state(
@@ -2598,14 +2608,14 @@ cb_decoder_continue (MilterReplyDecoder *decoder, gpointer user_data)
     switch (priv->state) {
       case MILTER_SERVER_CONTEXT_STATE_BODY:
         if (check_reply_after_quit(context, priv->state, "continue")) {
-            decrement_process_body_count(context);
-            if (priv->body->len > 0) {
-                if (!flush_body(context)) {
-                    milter_debug("[%u] [server][receive][continue]"
-                                 "[body][flush][error] [%s]",
-                                 tag, name);
-                }
+            /* The command isn't done until all of its chunks are sent. */
+            if (priv->body->len > 0 && !flush_body(context)) {
+                milter_debug("[%u] [server][receive][continue]"
+                             "[body][flush][error] [%s]",
+                             tag, name);
+                break;
             }
+            decrement_process_body_count(context);
         }
         break;
       case MILTER_SERVER_CONTEXT_STATE_CONNECT:
-- 
2.43.0


From b7cca8356b30692f30cd5a09f7ce387ecde304d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 63/81] fix: a command may follow an abort that is still being
 written

---
 milter/server/milter-server-context.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/milter/server/milter-server-context.c b/milter/server/milter-server-context.c
index b26415d..407f4b8 100644
--- a/milter/server/milter-server-context.c
+++ b/milter/server/milter-server-context.c
@@ -1490,6 +1490,7 @@ static gboolean
 is_waiting_reply (MilterServerContext *context)
 {
     MilterServerContextPrivate *priv;
+    MilterServerContextState last_state;
     GList *last_node;
 
     if (!milter_server_context_is_processing(context))
@@ -1500,8 +1501,10 @@ is_waiting_reply (MilterServerContext *context)
     last_node = g_list_last(priv->next_states);
     if (!last_node)
         return TRUE;
-    return milter_server_context_need_reply(context,
-                                            GPOINTER_TO_UINT(last_node->data));
+    last_state = GPOINTER_TO_UINT(last_node->data);
+    if (last_state == MILTER_SERVER_CONTEXT_STATE_ABORT)
+        return FALSE;
+    return milter_server_context_need_reply(context, last_state);
 }
 
 static gboolean
-- 
2.43.0


From af0aa8712935da19f06b3bd9a8ff810932df2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 64/81] fix: a libev timeout added late in an iteration expired
 early

---
 milter/core/milter-libev-event-loop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/milter/core/milter-libev-event-loop.c b/milter/core/milter-libev-event-loop.c
index 0f8edf2..5fcebdc 100644
--- a/milter/core/milter-libev-event-loop.c
+++ b/milter/core/milter-libev-event-loop.c
@@ -620,6 +620,8 @@ add_timeout_full (MilterEventLoop *loop,
                       notify, user_data);
 
     ev_timer_init(watcher, timer_func, interval_in_seconds, interval_in_seconds);
+    /* The interval starts now, not when the current iteration started. */
+    ev_now_update(priv->ev_loop);
     ev_timer_start(priv->ev_loop, watcher);
 
     return id;
-- 
2.43.0


From 87c698f11460c54d4a874560bf68127fe9d0c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 65/81] fix: a libev timeout with interval 0 is repeated

---
 milter/core/milter-libev-event-loop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/milter/core/milter-libev-event-loop.c b/milter/core/milter-libev-event-loop.c
index 5fcebdc..3014793 100644
--- a/milter/core/milter-libev-event-loop.c
+++ b/milter/core/milter-libev-event-loop.c
@@ -619,7 +619,9 @@ add_timeout_full (MilterEventLoop *loop,
                       NULL,
                       notify, user_data);
 
-    ev_timer_init(watcher, timer_func, interval_in_seconds, interval_in_seconds);
+    /* libev doesn't repeat a timer whose interval is 0. */
+    ev_timer_init(watcher, timer_func,
+                  interval_in_seconds, MAX(interval_in_seconds, 0.000001));
     /* The interval starts now, not when the current iteration started. */
     ev_now_update(priv->ev_loop);
     ev_timer_start(priv->ev_loop, watcher);
-- 
2.43.0


From 07f9ca60b5b201846383cd2f207208b9e763800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 66/81] fix: a malformed CIDR table isn't half applied and
 addresses without IP don't match

---
 binding/ruby/lib/milter/manager/postfix-cidr-table.rb | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/binding/ruby/lib/milter/manager/postfix-cidr-table.rb b/binding/ruby/lib/milter/manager/postfix-cidr-table.rb
index e531c27..1c8122d 100644
--- a/binding/ruby/lib/milter/manager/postfix-cidr-table.rb
+++ b/binding/ruby/lib/milter/manager/postfix-cidr-table.rb
@@ -27,9 +27,10 @@ module Milter::Manager
     end
 
     def parse(io)
+      table = []
       each_line(io) do |line, line_no|
         case line
-        when /\A\s*([\d\.]+|[\da-fA-F:]+)(?:\/(\d+))?\s+(.+)\s*$/
+        when /\A\s*([\d\.]+|[\da-fA-F:]+)(?:\/(\d+))?\s+(\S.*?)\s*$/
           address = $1
           network = $2
           action = $3
@@ -41,15 +42,17 @@ module Milter::Manager
             raise InvalidValueError.new(address, $!.message, line,
                                         io.path, line_no)
           end
-          @table << [ip_address, action]
+          table << [ip_address, action]
         else
           raise InvalidFormatError.new(line, io.path, line_no)
         end
       end
+      @table.concat(table)
     end
 
     def find(address)
       address = address.to_ip_address if address.respond_to?(:to_ip_address)
+      return nil if address.nil?
       @table.each do |match_address, action|
         return action if match_address === address
       end
-- 
2.43.0


From aaa605f7bbc6ee2f149904a262881294866d5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 67/81] fix: conditionals, flags and errors of Postfix regexp
 tables

---
 .../milter/manager/postfix-regexp-table.rb    | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/binding/ruby/lib/milter/manager/postfix-regexp-table.rb b/binding/ruby/lib/milter/manager/postfix-regexp-table.rb
index ead5db8..9e55c36 100644
--- a/binding/ruby/lib/milter/manager/postfix-regexp-table.rb
+++ b/binding/ruby/lib/milter/manager/postfix-regexp-table.rb
@@ -27,20 +27,21 @@ module Milter::Manager
     end
 
     def parse(io)
-      current_table = @table
-      tables = []
+      table = []
+      current_table = table
+      parent_tables = []
       each_line(io) do |line, line_no|
         case line
-        when /\A\s*if\s+(!)?\/(.*)\/([imx]+)?$/
+        when /\A\s*if\s+(!)?\/((?:\\.|[^\\\/])*)\/([imx]+)?\s*$/
           not_flag = $1
           pattern = $2
           flag = $3
           regexp = create_regexp(pattern, flag, io, line, line_no)
           new_table = []
           current_table << [not_flag == "!", regexp, new_table]
+          parent_tables << current_table
           current_table = new_table
-          tables << new_table
-        when /\A\s*(!)?\/(.*)\/([imx]+)?\s+(.+)\s*$/
+        when /\A\s*(!)?\/((?:\\.|[^\\\/])*)\/([imx]+)?\s+(\S.*?)\s*$/
           not_flag = $1
           pattern = $2
           flag = $3
@@ -48,14 +49,18 @@ module Milter::Manager
           regexp = create_regexp(pattern, flag, io, line, line_no)
           current_table << [not_flag == "!", regexp, action]
         when /\Aendif\s*$/
-          current_table = tables.pop
+          if parent_tables.empty?
+            raise InvalidFormatError.new(line, io.path, line_no)
+          end
+          current_table = parent_tables.pop
         else
-          raise InvalidFormatError.new(line, io.path, io.lineno)
+          raise InvalidFormatError.new(line, io.path, line_no)
         end
       end
-      unless tables.empty?
-        raise InvalidFormatError("endif isn't matched", io.path, io.lineno)
+      unless parent_tables.empty?
+        raise InvalidFormatError.new("endif isn't matched", io.path, io.lineno)
       end
+      @table.concat(table)
     end
 
     def find(text)
@@ -66,7 +71,7 @@ module Milter::Manager
     def create_regexp(pattern, flag, io, line, line_no)
       regexp_flag = Regexp::IGNORECASE
       if flag
-        regexp_flag &= Regexp::IGNORECASE if flag.index("i")
+        regexp_flag ^= Regexp::IGNORECASE if flag.count("i").odd?
         regexp_flag |= Regexp::MULTILINE if flag.index("m")
       end
       begin
@@ -88,7 +93,7 @@ module Milter::Manager
         end
         if table_or_action.is_a?(Array)
           action = find_action(table_or_action, text)
-          return expand_variables(action, match_data) if action
+          return action if action
         else
           return expand_variables(table_or_action, match_data)
         end
-- 
2.43.0


From a2122dc7e5e7e8edf64c462d4d7b7d80b265c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:20 +0000
Subject: [PATCH 68/81] fix: matchers of S25R and Trust can be given as blocks
 again

---
 data/applicable-conditions/s25r.conf  | 8 ++++----
 data/applicable-conditions/trust.conf | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/data/applicable-conditions/s25r.conf b/data/applicable-conditions/s25r.conf
index f1512dd..cd4708f 100644
--- a/data/applicable-conditions/s25r.conf
+++ b/data/applicable-conditions/s25r.conf
@@ -8,12 +8,12 @@ s25r.instance_eval do
 end
 
 class << s25r
-  def add_whitelist(host_matcher=Proc.new)
-    @whitelist << host_matcher
+  def add_whitelist(host_matcher=nil, &block)
+    @whitelist << (host_matcher || block)
   end
 
-  def add_blacklist(host_matcher=Proc.new)
-    @blacklist << host_matcher
+  def add_blacklist(host_matcher=nil, &block)
+    @blacklist << (host_matcher || block)
   end
 
   def white?(host, address)
diff --git a/data/applicable-conditions/trust.conf b/data/applicable-conditions/trust.conf
index 9971e66..429d2fb 100644
--- a/data/applicable-conditions/trust.conf
+++ b/data/applicable-conditions/trust.conf
@@ -11,8 +11,8 @@ class << trust
     @envelope_from_domains = []
   end
 
-  def add_envelope_from_domain(domain_matcher=Proc.new)
-    @envelope_from_domains << domain_matcher
+  def add_envelope_from_domain(domain_matcher=nil, &block)
+    @envelope_from_domains << (domain_matcher || block)
   end
 
   def trusted_envelope_from_domain?(envelope_from)
-- 
2.43.0


From 14e88edb8f9fdfb4d8aa7369d3359bc27f6639dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:43 +0000
Subject: [PATCH 69/81] fix: keep remove_unix_socket_on_close/create of the
 controller and the manager apart

---
 milter/manager/milter-manager-configuration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/milter/manager/milter-manager-configuration.c b/milter/manager/milter-manager-configuration.c
index ba9498f..2099664 100644
--- a/milter/manager/milter-manager-configuration.c
+++ b/milter/manager/milter-manager-configuration.c
@@ -291,7 +291,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CLOSE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CLOSE,
                                     spec);
 
     spec = g_param_spec_boolean("remove-manager-unix-socket-on-create",
@@ -311,7 +311,7 @@ milter_manager_configuration_class_init (MilterManagerConfigurationClass *klass)
                                 TRUE,
                                 G_PARAM_READWRITE | G_PARAM_CONSTRUCT);
     g_object_class_install_property(gobject_class,
-                                    PROP_REMOVE_MANAGER_UNIX_SOCKET_ON_CREATE,
+                                    PROP_REMOVE_CONTROLLER_UNIX_SOCKET_ON_CREATE,
                                     spec);
 
     spec = g_param_spec_boolean("daemon",
-- 
2.43.0


From 051d58782fdbbe47e659f2bcdcd7c4930a41e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:50 +0000
Subject: [PATCH 70/81] fix: keep fallback status, evaluation mode and command
 options of a redefined milter

---
 milter/manager/milter-manager-egg.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-egg.c b/milter/manager/milter-manager-egg.c
index 3c85217..db6cf46 100644
--- a/milter/manager/milter-manager-egg.c
+++ b/milter/manager/milter-manager-egg.c
@@ -803,6 +803,7 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
     const gchar *description;
     const gchar *user_name;
     const gchar *command;
+    const gchar *command_options;
     const GList *node;
 
     connection_spec = milter_manager_egg_get_connection_spec(other_egg);
@@ -829,18 +830,23 @@ milter_manager_egg_merge (MilterManagerEgg *egg,
     milter_manager_egg_set_enabled(egg,
                                    milter_manager_egg_is_enabled(other_egg));
 
+    milter_manager_egg_set_fallback_status(
+        egg, milter_manager_egg_get_fallback_status(other_egg));
+
+    milter_manager_egg_set_evaluation_mode(
+        egg, milter_manager_egg_is_evaluation_mode(other_egg));
+
     user_name = milter_manager_egg_get_user_name(other_egg);
     if (user_name)
         milter_manager_egg_set_user_name(egg, user_name);
 
     command = milter_manager_egg_get_command(other_egg);
-    if (command) {
-        const gchar *command_options;
-
+    if (command)
         milter_manager_egg_set_command(egg, command);
-        command_options = milter_manager_egg_get_command_options(other_egg);
+
+    command_options = milter_manager_egg_get_command_options(other_egg);
+    if (command || command_options)
         milter_manager_egg_set_command_options(egg, command_options);
-    }
 
     milter_manager_egg_clear_applicable_conditions(egg);
     node = milter_manager_egg_get_applicable_conditions(other_egg);
-- 
2.43.0


From 7c444133850a0aa8b97918ac58917727c40e8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:50 +0000
Subject: [PATCH 71/81] fix: show where manager.packet_buffer_size is set

---
 binding/ruby/lib/milter/client/configuration.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/client/configuration.rb b/binding/ruby/lib/milter/client/configuration.rb
index e5d4fe0..c02a5a8 100644
--- a/binding/ruby/lib/milter/client/configuration.rb
+++ b/binding/ruby/lib/milter/client/configuration.rb
@@ -617,7 +617,7 @@ module Milter
         end
 
         def packet_buffer_size=(size)
-          update_location("size", size.nil?)
+          update_location("packet_buffer_size", size.nil?)
           size ||= 0
           @configuration.packet_buffer_size = size
         end
-- 
2.43.0


From a77f2a94090d54c324b51d843766374dc6edfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 72/81] fix: accept the documented s25r.check_only_ipv4=

---
 data/applicable-conditions/s25r.conf | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/applicable-conditions/s25r.conf b/data/applicable-conditions/s25r.conf
index cd4708f..df05d37 100644
--- a/data/applicable-conditions/s25r.conf
+++ b/data/applicable-conditions/s25r.conf
@@ -33,6 +33,7 @@ class << s25r
   def only_check_ipv4=(boolean)
     @only_check_ipv4 = boolean
   end
+  alias_method :check_only_ipv4=, :only_check_ipv4=
 
   private
   def match?(list, host)
-- 
2.43.0


From 76367c4b3913ce8c9de34403ba8df3f4f9683913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 73/81] fix: accept milter.command_options = nil

---
 binding/ruby/lib/milter/manager.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index c115e1c..26d9965 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -1165,7 +1165,7 @@ module Milter
               Shellwords.escape(option)
             end.join(' ')
           end
-          update_location("command_options", options.empty?)
+          update_location("command_options", options.nil? || options.empty?)
           @egg.command_options = options
         end
 
-- 
2.43.0


From bd59e51497c6cf2028318d4a44d08151c536358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 74/81] fix: make manager.fallback_status readable

---
 binding/ruby/lib/milter/manager.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index 26d9965..103bf60 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -934,7 +934,7 @@ module Milter
           end
 
           def fallback_status
-            @raw_configuration.fallback_status
+            @configuration.fallback_status
           end
 
           def fallback_status=(status)
-- 
2.43.0


From 4da026186c1e5fd37529f746821fbe33bd296aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 75/81] fix: apply the syslog settings made before an invalid
 value

---
 binding/ruby/lib/milter/manager.rb | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/binding/ruby/lib/milter/manager.rb b/binding/ruby/lib/milter/manager.rb
index 103bf60..71a5189 100644
--- a/binding/ruby/lib/milter/manager.rb
+++ b/binding/ruby/lib/milter/manager.rb
@@ -409,7 +409,7 @@ module Milter
           content = File.read(file)
           Logger.debug("[configuration][load][start] <#{file}>")
           instance_eval(content, file)
-          apply_configurations if @load_level == 1
+          apply_policies if @load_level == 1
         rescue InvalidValue
           backtrace = $!.backtrace.collect do |info|
             if /\A#{Regexp.escape(file)}:/ =~ info
@@ -421,6 +421,7 @@ module Milter
           Logger.error("#{backtrace[0]}: #{$!.message}")
           Logger.error(backtrace[1..-1].join("\n"))
         ensure
+          apply_log if @load_level == 1
           @load_level -= 1
           Logger.debug("[configuration][load][end] <#{file}>")
         end
@@ -498,11 +499,6 @@ module Milter
         resolved_paths
       end
 
-      def apply_configurations
-        apply_log
-        apply_policies
-      end
-
       def apply_log
         @configuration.use_syslog = @log.use_syslog?
         @configuration.syslog_facility = @log.syslog_facility
-- 
2.43.0


From 75404140e01719a307b55f6725d139dbd81f2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 76/81] fix: check connections again after a check ended every
 session

---
 milter/manager/milter-manager.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/milter/manager/milter-manager.c b/milter/manager/milter-manager.c
index 8dfc04f..5300426 100644
--- a/milter/manager/milter-manager.c
+++ b/milter/manager/milter-manager.c
@@ -390,7 +390,14 @@ connection_check (gpointer data)
 
     priv->connection_checking = FALSE;
 
-    return priv->leaders != NULL;
+    if (!priv->leaders) {
+        /* This source is removed by the event loop. */
+        priv->periodical_connection_checker_id = 0;
+        priv->current_periodical_connection_check_interval = 0;
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static void
-- 
2.43.0


From 5906aec89d99d73697c93aa4ab0a4f3c69ea36dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 77/81] fix: connect once to a milter that is being launched

---
 milter/manager/milter-manager-children.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/milter/manager/milter-manager-children.c b/milter/manager/milter-manager-children.c
index 5703078..74a4504 100644
--- a/milter/manager/milter-manager-children.c
+++ b/milter/manager/milter-manager-children.c
@@ -3699,11 +3699,9 @@ milter_manager_children_negotiate (MilterManagerChildren *children,
         MilterManagerChild *child = MILTER_MANAGER_CHILD(node->data);
 
         if (!child_establish_connection(child, option, children, FALSE)) {
-            if (privilege &&
-                milter_manager_children_start_child(children, child)) {
-                prepare_retry_establish_connection(child, option, children,
-                                                   FALSE);
-            }
+            /* child_establish_connection() has prepared the retry. */
+            if (privilege)
+                milter_manager_children_start_child(children, child);
         }
     }
     g_list_free(copied_milters);
-- 
2.43.0


From b4095ddac65ca5443d8c9f1f288e4b675e498063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 78/81] fix: replace_body of Ruby milters accepts NUL bytes

---
 binding/ruby/ext/client/rb-milter-client-context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binding/ruby/ext/client/rb-milter-client-context.c b/binding/ruby/ext/client/rb-milter-client-context.c
index e4211bc..9c2498c 100644
--- a/binding/ruby/ext/client/rb-milter-client-context.c
+++ b/binding/ruby/ext/client/rb-milter-client-context.c
@@ -194,7 +194,7 @@ replace_body (VALUE self, VALUE rb_chunk)
     GError *error = NULL;
 
     if (RVAL2CBOOL(rb_obj_is_kind_of(rb_chunk, rb_cString))) {
-        const gchar *chunk = RVAL2CSTR(rb_chunk);
+        const gchar *chunk = RVAL2CSTR_PTR(rb_chunk);
         if (!milter_client_context_replace_body(SELF(self),
                                                 chunk, RSTRING_LEN(rb_chunk),
                                                 &error)) {
-- 
2.43.0


From 94602558e5eac75808dee396e915e677161c2bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 79/81] fix: --maintenance-interval of Ruby milters takes a
 number

---
 binding/ruby/lib/milter/client/command-line.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binding/ruby/lib/milter/client/command-line.rb b/binding/ruby/lib/milter/client/command-line.rb
index 6bdb206..00db5e0 100644
--- a/binding/ruby/lib/milter/client/command-line.rb
+++ b/binding/ruby/lib/milter/client/command-line.rb
@@ -225,6 +225,7 @@ module Milter
         end
 
         @option_parser.on("--maintenance-interval=N",
+                          Integer,
                           "Run maintenance callback after each N sessions",
                           "(#{milter_conf.maintenance_interval})") do |interval|
           milter_conf.maintenance_interval = interval
-- 
2.43.0


From eb7d7a29570a47e81acb5c81c3e407c3bba24cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 80/81] fix: the mail transaction shelf loads the YAML library
 it uses

---
 binding/ruby/lib/milter/client/mail-transaction-shelf.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binding/ruby/lib/milter/client/mail-transaction-shelf.rb b/binding/ruby/lib/milter/client/mail-transaction-shelf.rb
index cb4d060..9300533 100644
--- a/binding/ruby/lib/milter/client/mail-transaction-shelf.rb
+++ b/binding/ruby/lib/milter/client/mail-transaction-shelf.rb
@@ -1,3 +1,5 @@
+require "yaml"
+
 module Milter
   class Client
     class MailTransactionShelf
-- 
2.43.0


From 09ee1cf5a505fe90814a062462d198273a3d2658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:17 +0000
Subject: [PATCH 81/81] fix: reset every part of a composite session

---
 binding/ruby/lib/milter/client/composite-session.rb | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binding/ruby/lib/milter/client/composite-session.rb b/binding/ruby/lib/milter/client/composite-session.rb
index 93df876..c09b0d9 100644
--- a/binding/ruby/lib/milter/client/composite-session.rb
+++ b/binding/ruby/lib/milter/client/composite-session.rb
@@ -71,6 +71,12 @@ module Milter
         apply_sessions(:abort, :continue, state)
       end
 
+      def reset
+        @sessions.each do |session|
+          session.reset if session.respond_to?(:reset)
+        end
+      end
+
       def unknown(command)
         apply_sessions(:unknown, :continue, command)
       end
-- 
2.43.0

