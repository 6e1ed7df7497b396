From 9b7e39b0b29af304fdfcfa689e65ef81e23ffe79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 01/52] fix: accept -0 as a signed integer

num.integer - 1 wrapped to UINTMAX_MAX for a negative zero, so every signed
conversion rejected the valid number string "-0".
---
 libdstr/cvt.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdstr/cvt.c b/libdstr/cvt.c
index a3e710b..968f39e 100644
--- a/libdstr/cvt.c
+++ b/libdstr/cvt.c
@@ -169,7 +169,7 @@ derr_type_t dstr_toi_quiet(const dstr_t in, int *out, int base){
     *out = 0;
     integer_t num = parse_integer(in, base);
     if(!num.ok) return E_PARAM;
-    if(num.negative){
+    if(num.negative && num.integer > 0){
         if(num.integer - 1 > INT_MAX) return E_PARAM;
         *out = -1 * (int)(num.integer - 1) - 1;
     }else{
@@ -183,7 +183,7 @@ derr_type_t dstr_tol_quiet(const dstr_t in, long *out, int base){
     *out = 0;
     integer_t num = parse_integer(in, base);
     if(!num.ok) return E_PARAM;
-    if(num.negative){
+    if(num.negative && num.integer > 0){
         if(num.integer - 1 > LONG_MAX) return E_PARAM;
         *out = -1 * (long)(num.integer - 1) - 1;
     }else{
@@ -197,7 +197,7 @@ derr_type_t dstr_toll_quiet(const dstr_t in, long long *out, int base){
     *out = 0;
     integer_t num = parse_integer(in, base);
     if(!num.ok) return E_PARAM;
-    if(num.negative){
+    if(num.negative && num.integer > 0){
         if(num.integer - 1 > LLONG_MAX) return E_PARAM;
         *out = -1 * (long long)(num.integer - 1) - 1;
     }else{
@@ -211,7 +211,7 @@ derr_type_t dstr_toi64_quiet(const dstr_t in, int64_t *out, int base){
     *out = 0;
     integer_t num = parse_integer(in, base);
     if(!num.ok) return E_PARAM;
-    if(num.negative){
+    if(num.negative && num.integer > 0){
         if(num.integer - 1 > INT64_MAX) return E_PARAM;
         *out = -1 * (int64_t)(num.integer - 1) - 1;
     }else{
@@ -225,7 +225,7 @@ derr_type_t dstr_toimax_quiet(const dstr_t in, intmax_t *out, int base){
     *out = 0;
     integer_t num = parse_integer(in, base);
     if(!num.ok) return E_PARAM;
-    if(num.negative){
+    if(num.negative && num.integer > 0){
         if(num.integer - 1 > INTMAX_MAX) return E_PARAM;
         *out = -1 * (intmax_t)(num.integer - 1) - 1;
     }else{
-- 
2.43.0


From af7c7866fc3fe68f430066dcf73b2d7567784217 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 02/52] fix: reject overlong and out-of-range utf8 sequences

utf8_decode accepted overlong encodings (C0 80) and codepoints beyond U+10FFFF
(F7 BF BF BF), which utf16_encode and json_encode then turned into different
text.
---
 libdstr/unicode.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index 9bbf208..dbb62a9 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -114,6 +114,10 @@ loop_start:
         // 110xxxxx 10xxxxxx
         tail = 1;
         codepoint = (u & 0x1F);
+        if(codepoint < 0x2){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
     }else if((u & 0xF0) == 0xE0){
         // 3-byte encoding
         // 1110xxxx 10xxxxxx 10xxxxxx
@@ -144,6 +148,16 @@ process_tail:
             return E_PARAM;
         }
         codepoint = (codepoint << 6) | (u & 0x3F);
+        // after the second byte of 3- or 4-byte encodings, detect overlong
+        // sequences and codepoints beyond the end of unicode
+        if((tail == 1 && codepoint < 0x20) || (tail == 2 && codepoint < 0x10)){
+            LOG_DEBUG("overlong utf8 sequence\n");
+            return E_PARAM;
+        }
+        if(tail == 2 && codepoint > 0x10F){
+            LOG_DEBUG("utf8 code point too high\n");
+            return E_PARAM;
+        }
     }
     if(codepoint >= 0xD800 && codepoint <= 0xDFFF){
         LOG_DEBUG("utf8 value in utf16 reserved range\n");
-- 
2.43.0


From 69057abdb8679b83daf3d976d1523ec402b4fc14 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 03/52] fix: reject code points beyond U+10FFFF in utf16_encode

The high surrogate computation silently dropped the upper bits.
---
 libdstr/unicode.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdstr/unicode.c b/libdstr/unicode.c
index dbb62a9..dd01d74 100644
--- a/libdstr/unicode.c
+++ b/libdstr/unicode.c
@@ -66,6 +66,11 @@ derr_type_t utf16_encode_quiet(
         return E_NONE;
     }
 
+    if(codepoint >= 0x110000){
+        LOG_DEBUG("unicode code point too high\n");
+        return E_PARAM;
+    }
+
     codepoint -= 0x10000;
     uint32_t w1 = 0xD800 | ((codepoint >> 10) & 0x3FF);
     uint32_t w2 = 0xDC00 | ((codepoint >> 0) & 0x3FF);
-- 
2.43.0


From d046a4af9d081808fc34f873873a3a17d48c8906 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 04/52] fix: reject an odd number of hex digits in hex2bin

---
 libdstr/common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdstr/common.c b/libdstr/common.c
index eb0da77..f9d265c 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -1397,6 +1397,10 @@ derr_t hex2bin(const dstr_t* hex, dstr_t* bin){
             *byte = 0;
         }
     }
+
+    // a lone trailing digit is not a whole byte
+    if(shift) ORIG(&e, E_PARAM, "odd number of hex digits");
+
     return e;
 }
 
-- 
2.43.0


From bbf810cd39a2fa00f5b17bd7a6bf67f72cd0e929 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 05/52] fix: dstr_grow0 zeroizes the old buffer and records the
 new size

---
 libdstr/common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index f9d265c..112f2ba 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -573,15 +573,16 @@ derr_type_t dstr_grow0_quiet(dstr_t *ds, size_t min_size){
     }
     void* new = malloc(newsize);
     if(!new) return E_NOMEM;
-    memcpy(new, ds->data, ds->len);
-    dstr_zeroize(ds);
+    if(ds->len) memcpy(new, ds->data, ds->len);
+    if(ds->data) dstr_zeroize(ds);
     free(ds->data);
     ds->data = new;
+    ds->size = newsize;
     return E_NONE;
 }
 derr_t dstr_grow0(dstr_t* ds, size_t min_size){
     derr_t e = E_OK;
-    derr_type_t type = dstr_grow_quiet(ds, min_size);
+    derr_type_t type = dstr_grow0_quiet(ds, min_size);
     if(type) ORIG(&e, type, "unable to grow dstr");
     return e;
 }
-- 
2.43.0


From 13b44d071df20de55e465faa13f1113fd0938e72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 06/52] fix: a string never compares equal to its proper prefix

---
 libdstr/common.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 112f2ba..6ae6a15 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -269,14 +269,8 @@ static int do_dstr_cmp2(const dstr_t a, const dstr_t b, bool sensitive){
     }
 
     // one string might be longer than the other
-    if(a.len > b.len){
-        int ca = (int)(char_fn(a.data[b.len]));
-        return ca;
-    }
-    if(b.len > a.len){
-        int cb = (int)(char_fn(b.data[a.len]));
-        return -cb;
-    }
+    if(a.len > b.len) return 1;
+    if(b.len > a.len) return -1;
 
     // strings match
     return 0;
-- 
2.43.0


From db5e9e870b50fc3e4bc55346af33b780bc1b5c73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:45:35 +0000
Subject: [PATCH 07/52] fix: a log line starting with a NUL byte is not read
 out of bounds

---
 libimaildir/log_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index f13c047..acb54e8 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -70,7 +70,7 @@ static derr_t maybe_compact(log_t *log){
         size_t len = strnlen(buf, sizeof(buf));
 
         // valid lines end in a '\n'
-        if(line[len-1] != '\n'){
+        if(len < 1 || line[len-1] != '\n'){
             if(!feof(f)){
                 TRACE(&e, "line-too-long: %x\n", FS(line));
                 ORIG_GO(&e,
@@ -406,7 +406,7 @@ static derr_t read_all_keys(
         size_t len = strnlen(buf, sizeof(buf));
 
         // valid lines end in a '\n'
-        if(line[len-1] != '\n'){
+        if(len < 1 || line[len-1] != '\n'){
             if(!feof(f)){
                 TRACE(&e, "line-too-long: %x\n", FS(line));
                 ORIG(&e, E_PARAM, "line-too-long in logfile, discarding");
-- 
2.43.0


From 6c1f2a3a66882d24d32d1bd7779b62be894e761d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:04:45 +0000
Subject: [PATCH 08/52] fix: an imap token may end inside of the scanner's
 leftovers

Text which looks like the start of a longer token when a packet ends, such as
read- or a backslash in a quoted string, aborted the process or wedged the
scanner when the next packet showed otherwise.
---
 libimap/scan.c | 52 ++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 832d03e..978ed98 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -21,9 +21,9 @@ dstr_t* scan_mode_to_dstr(scan_mode_t mode){
 }
 
 // return how much of the last input was consumed
-/* because this is called after reading at least one successful token from the
-   input, and because leftovers can never contain more than one token, it is
-   guaranteed that all unconsumed text is from the current imap_feed input */
+/* because this is called after reading an EOL from the input, and because an
+   EOL is never followed by anything in leftovers, it is guaranteed that all
+   unconsumed text is from the current imap_feed input */
 size_t get_starttls_skip(imap_scanner_t *s){
     if(s->nleftovers){
         LOG_FATAL(
@@ -65,18 +65,20 @@ void get_scannable(imap_scanner_t *s, dstr_t *out){
     dstr_append_quiet(out, &sub2);
 }
 
+// follow our leftovers with as much input as might matter to the next token
+static void fill_leftovers(imap_scanner_t *s){
+    size_t copysize = MIN(s->ninput, MAXKWLEN - s->orig_nleftovers);
+    memcpy(s->leftovers + s->orig_nleftovers, s->input, copysize);
+    s->nleftovers = s->orig_nleftovers + copysize;
+}
+
 void imap_feed(imap_scanner_t *s, const dstr_t input){
     /* set skip here instead of when we set feed=false to support
        get_starttls_skip after the end of input */
     s->skip = 0;
     s->input = input.data;
     s->ninput = input.len;
-    if(s->orig_nleftovers && s->orig_nleftovers < MAXKWLEN){
-        size_t needed = MAXKWLEN - s->orig_nleftovers;
-        size_t copysize = MIN(input.len, needed);
-        memcpy(s->leftovers + s->orig_nleftovers, input.data, copysize);
-        s->nleftovers += copysize;
-    }
+    if(s->orig_nleftovers) fill_leftovers(s);
     s->fed = true;
 }
 
@@ -101,6 +103,14 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         return (imap_scanned_t){ .more = true };
     }
 
+    if(s->nleftovers && s->skip){
+        // the previous token ended inside of the leftovers
+        s->orig_nleftovers -= s->skip;
+        memmove(s->leftovers, s->leftovers + s->skip, s->orig_nleftovers);
+        s->skip = 0;
+        fill_leftovers(s);
+    }
+
     char *src;
     size_t len;
 
@@ -139,18 +149,10 @@ imap_scanned_t imap_scan(imap_scanner_t *s, scan_mode_t mode){
         s->skip += out.token.len;
 
         if(in_leftovers){
-            /* there will never be more than one token from leftovers, because
-               if it had a token break in it, only the last token would have
-               gone to leftovers */
-            if(s->skip < s->orig_nleftovers){
-                dstr_t temp = dstr_from_cstrn(
-                    s->leftovers, s->orig_nleftovers, false
-                );
-                LOG_FATAL(
-                    "not all of leftovers (%x) was consumed by the%x\n",
-                    FD_DBG(temp), FS(imap_token_name(out.type))
-                );
-            }
+            /* a token may end before the leftovers do; we might have looked
+               past the end of it before the previous input ended, like with
+               "read-" followed by anything other than "only" or "write" */
+            if(s->skip < s->orig_nleftovers) return out;
             // transition to src = input
             s->skip -= s->orig_nleftovers;
             s->nleftovers = 0;
@@ -214,9 +216,9 @@ static char hitlimit(bool *out){
      - we MUST not require atoms of arbitrary length to fit into the
        scanner's buffer (we have to break them up)
 
-   In practice, any token shorter than the maximum keyword length (14) which is
-   not an EOL and which occurs at the end of the input buffer is witheld until
-   the next packet arrives. */
+   In practice, when fewer bytes than the maximum keyword length (14) remain in
+   the input buffer and the token is not an EOL and depends on what follows the
+   buffer, it is witheld until the next packet arrives. */
 
 // skip guaranteed to be less than len
 static imap_scanned_t do_scan(
@@ -490,7 +492,7 @@ done:
     size_t end = (size_t)(cursor - src);
     size_t toklen = end - skip;
     // see "Requirements", above
-    if(limited && type != IMAP_EOL && toklen < MAXKWLEN){
+    if(limited && type != IMAP_EOL && len - skip < MAXKWLEN){
         return (imap_scanned_t){ .more = true };
     }
 
-- 
2.43.0


From 8b6e7f49b1924d1f4e3bea5134e590d5232732e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:04:45 +0000
Subject: [PATCH 09/52] fix: detect overflow of an imap number which arrives in
 pieces

---
 libimap/imap.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index 249d480..d320a97 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -873,7 +873,9 @@ modseqnum:modseqnum =
                 limit /= 10;
                 out *= 10;
             }
-            if($$ > limit) THROW_SYNTAX_ERROR("integer overflow");
+            if($$ > limit || out > UINT64_MAX - $n){
+                THROW_SYNTAX_ERROR("integer overflow");
+            }
             $$ = out + $n;
         }}
     )
-- 
2.43.0


From 7cd05b6801009a469cbb4f5d757caabdd2642448 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:04:45 +0000
Subject: [PATCH 10/52] fix: write the \* permanent flag as \*

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 6459da4..095b193 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -496,7 +496,7 @@ static derr_t pflags_skip_fill(skip_fill_t *sf, ie_pflags_t *pflags){
     if(pflags->deleted){  LEAD_SP; STATIC_SKIP_FILL("\\Deleted");  }
     if(pflags->seen){     LEAD_SP; STATIC_SKIP_FILL("\\Seen");     }
     if(pflags->draft){    LEAD_SP; STATIC_SKIP_FILL("\\Draft");    }
-    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\Asterisk"); }
+    if(pflags->asterisk){ LEAD_SP; STATIC_SKIP_FILL("\\*"); }
     for(ie_dstr_t *d = pflags->keywords; d != NULL; d = d->next){
         LEAD_SP;
         PROP(&e, atom_skip_fill(sf, d->dstr) );
-- 
2.43.0


From 387f02e7aa571ff9cbe2985d1a34d586b53ea571 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 11/52] fix: write SUBJECT, HEADER, and CHARSET of a SEARCH
 command as read

---
 libimap/write.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libimap/write.c b/libimap/write.c
index 095b193..003d634 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -767,9 +767,6 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
         case IE_SEARCH_SEEN:
             STATIC_SKIP_FILL("SEEN");
             break;
-        case IE_SEARCH_SUBJECT:
-            STATIC_SKIP_FILL("SUBJECT");
-            break;
         case IE_SEARCH_UNANSWERED:
             STATIC_SKIP_FILL("UNANSWERED");
             break;
@@ -809,6 +806,10 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
             STATIC_SKIP_FILL("KEYWORD ");
             PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
             break;
+        case IE_SEARCH_SUBJECT:
+            STATIC_SKIP_FILL("SUBJECT ");
+            PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
+            break;
         case IE_SEARCH_TEXT:
             STATIC_SKIP_FILL("TEXT ");
             PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
@@ -825,8 +826,8 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
         case IE_SEARCH_HEADER:
             STATIC_SKIP_FILL("HEADER ");
             PROP(&e, astring_skip_fill(sf, p.header.name->dstr) );
-            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             STATIC_SKIP_FILL(" ");
+            PROP(&e, astring_skip_fill(sf, p.header.value->dstr) );
             break;
         // things using param.date
         case IE_SEARCH_BEFORE:
@@ -1200,6 +1201,7 @@ static derr_t do_imap_cmd_write(const imap_cmd_t *cmd, dstr_t *out,
             }
             STATIC_SKIP_FILL("SEARCH ");
             if(arg.search->charset){
+                STATIC_SKIP_FILL("CHARSET ");
                 PROP(&e, astring_skip_fill(sf, arg.search->charset->dstr) );
                 STATIC_SKIP_FILL(" ");
             }
-- 
2.43.0


From 781e147cfed72a67993925e54b1d7483e7d47a17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 12/52] fix: the months of a SEARCH command are numbered from
 one

---
 libimap/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/write.c b/libimap/write.c
index 003d634..3bbf759 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -711,7 +711,7 @@ static derr_t search_date_skip_fill(skip_fill_t *sf, imap_time_t time){
         TRACE(&e, "invalid year: %x\n", FI(time.year));
         pass = false;
     }
-    if(time.month < 0 || time.month > 11){
+    if(time.month < 1 || time.month > 12){
         TRACE(&e, "invalid month: %x\n", FI(time.month));
         pass = false;
     }
-- 
2.43.0


From df015f02bc23e78e604610cf262db4d4f37d30bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 13/52] fix: imap_cmd_copy dropped some arguments

---
 libimap/expression.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libimap/expression.c b/libimap/expression.c
index 6d76b6f..bd233fe 100644
--- a/libimap/expression.c
+++ b/libimap/expression.c
@@ -2972,17 +2972,17 @@ static imap_cmd_arg_t imap_cmd_arg_copy(derr_t *e, imap_cmd_type_t type,
         case IMAP_CMD_CHECK:         break;
         case IMAP_CMD_CLOSE:         break;
         case IMAP_CMD_EXPUNGE:       arg.uid_expunge = ie_seq_set_copy(e, old.uid_expunge); break;
-        case IMAP_CMD_SEARCH:        arg.search = ie_search_cmd_copy(e, arg.search); break;
+        case IMAP_CMD_SEARCH:        arg.search = ie_search_cmd_copy(e, old.search); break;
         case IMAP_CMD_FETCH:         arg.fetch = ie_fetch_cmd_copy(e, old.fetch); break;
         case IMAP_CMD_STORE:         arg.store = ie_store_cmd_copy(e, old.store); break;
         case IMAP_CMD_COPY:          arg.copy = ie_copy_cmd_copy(e, old.copy); break;
         case IMAP_CMD_ENABLE:        arg.enable = ie_dstr_copy(e, old.enable); break;
         case IMAP_CMD_UNSELECT:      break;
         case IMAP_CMD_IDLE:          break;
-        case IMAP_CMD_IDLE_DONE:     arg.idle_done = ie_dstr_copy(e, arg.idle_done); break;
-        case IMAP_CMD_XKEYSYNC:      arg.xkeysync = ie_dstr_copy(e, arg.xkeysync); break;
-        case IMAP_CMD_XKEYSYNC_DONE: arg.xkeysync_done = ie_dstr_copy(e, arg.xkeysync_done); break;
-        case IMAP_CMD_XKEYADD:       arg.xkeyadd = ie_dstr_copy(e, arg.xkeyadd); break;
+        case IMAP_CMD_IDLE_DONE:     arg.idle_done = ie_dstr_copy(e, old.idle_done); break;
+        case IMAP_CMD_XKEYSYNC:      arg.xkeysync = ie_dstr_copy(e, old.xkeysync); break;
+        case IMAP_CMD_XKEYSYNC_DONE: arg.xkeysync_done = ie_dstr_copy(e, old.xkeysync_done); break;
+        case IMAP_CMD_XKEYADD:       arg.xkeyadd = ie_dstr_copy(e, old.xkeyadd); break;
     }
     return arg;
 }
-- 
2.43.0


From bf2d9ecbad2318765252a0c66e67cb15584073be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 14/52] fix: keep the sign of a timezone between -0001 and
 -0059

---
 libimap/imap.in | 3 ++-
 libimap/write.c | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index d320a97..676af78 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -792,7 +792,8 @@ date_time:time =
             .min = $m,
             .sec = $s,
             .z_hour = $sign * $zh,
-            .z_min = $zm,
+            // only the minutes can carry the sign of e.g. -0030
+            .z_min = ($zh == 0 && $sign < 0) ? -$zm : $zm,
         };
     }}
 ;
diff --git a/libimap/write.c b/libimap/write.c
index 3bbf759..19356be 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -403,7 +403,8 @@ static derr_t validate_time(imap_time_t time){
         TRACE(&e, "invalid zone hours: %x\n", FI(time.z_hour));
         pass = false;
     }
-    if(time.z_min < 0 || time.z_min > 59){
+    // minutes carry the sign only if hours can't
+    if(time.z_min < (time.z_hour ? 0 : -59) || time.z_min > 59){
         TRACE(&e, "invalid zone minutes: %x\n", FI(time.z_min));
         pass = false;
     }
@@ -458,9 +459,9 @@ static derr_t date_time_skip_fill(skip_fill_t *sf, imap_time_t time){
         FI(time.hour / 10), FI(time.hour % 10),
         FI(time.min / 10), FI(time.min % 10),
         FI(time.sec / 10), FI(time.sec % 10),
-        FS(time.z_hour >= 0 ? "+" : "-"),
+        FS(time.z_hour < 0 || time.z_min < 0 ? "-" : "+"),
         FI(ABS(time.z_hour) / 10), FI(ABS(time.z_hour) % 10),
-        FI(time.z_min / 10), FI(time.z_min % 10)) );
+        FI(ABS(time.z_min) / 10), FI(ABS(time.z_min) % 10)) );
 
     PROP(&e, raw_skip_fill(sf, buffer) );
     return e;
-- 
2.43.0


From 468d65acc4f777c6f1db68ebb5e9e2f023860550 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:32:02 +0000
Subject: [PATCH 15/52] fix: read @ ; ? and = as part of an atom wherever they
 are

---
 libimap/imap.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimap/imap.in b/libimap/imap.in
index 676af78..c1638d6 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -528,6 +528,10 @@ CREATED;
     LANGLE
     RANGLE
     DASH
+    ARROBA
+    SEMI
+    QUESTION
+    EQ
 ;
 
 ### TYPES
-- 
2.43.0


From a60e952e9c552ade896bf984dc1710b9259b32bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:36:09 +0000
Subject: [PATCH 16/52] fix: read ] in a LIST pattern

---
 libimap/imap.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imap.in b/libimap/imap.in
index c1638d6..f245a96 100644
--- a/libimap/imap.in
+++ b/libimap/imap.in
@@ -1411,7 +1411,7 @@ list_cmd(tag:dstr, out:imap_cmd) =
     }}
 ;
 
-list_char = atom_char | PERCENT | ASTERISK;
+list_char = atom_char | PERCENT | ASTERISK | RSQUARE;
 
 list_atom:dstr =
     1*( list_char { $$ = ie_dstr_append(E, $$, dtoken, KEEP_RAW); } )
-- 
2.43.0


From 00dcf3ca182552bd54b962f9623a19176877effd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:36:09 +0000
Subject: [PATCH 17/52] fix: recognize all control characters in the imap
 scanner

---
 libimap/scan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/scan.c b/libimap/scan.c
index 978ed98..80f57be 100644
--- a/libimap/scan.c
+++ b/libimap/scan.c
@@ -256,7 +256,7 @@ static imap_scanned_t do_scan(
         nullbyte        = "\x00";
         num             = [0-9]+;
         raw             = [^(){%*"\x00-\x1F\x7F[\]\\ }+\-.:,<>0-9]+;
-        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E\x1f\x7f];
+        non_crlf_ctl    = [\x01-\x09\x0B-\x0C\x0E-\x1f\x7f];
         qchar           = [^"\x00\r\n\\] | "\\\\" | "\\\"";
         qstring         = ( [^"\x00\r\n\\] | ("\\"[\\"]) )+;
     */
-- 
2.43.0


From 803c0e4bb6a191700730c814dd6715b91eb90eed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:36:09 +0000
Subject: [PATCH 18/52] fix: a SEARCH keyword is an atom

---
 libimap/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimap/write.c b/libimap/write.c
index 19356be..345514f 100644
--- a/libimap/write.c
+++ b/libimap/write.c
@@ -805,7 +805,7 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
             break;
         case IE_SEARCH_KEYWORD:
             STATIC_SKIP_FILL("KEYWORD ");
-            PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
+            PROP(&e, atom_skip_fill(sf, p.dstr->dstr) );
             break;
         case IE_SEARCH_SUBJECT:
             STATIC_SKIP_FILL("SUBJECT ");
@@ -821,7 +821,7 @@ static derr_t search_key_skip_fill(skip_fill_t *sf, ie_search_key_t *key){
             break;
         case IE_SEARCH_UNKEYWORD:
             STATIC_SKIP_FILL("UNKEYWORD ");
-            PROP(&e, astring_skip_fill(sf, p.dstr->dstr) );
+            PROP(&e, atom_skip_fill(sf, p.dstr->dstr) );
             break;
         // things using param.header
         case IE_SEARCH_HEADER:
-- 
2.43.0


From 743fb4a7c66d6094e21ed477b9462a8d013a2625 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:45:47 +0000
Subject: [PATCH 19/52] fix: counting an empty pattern in a string never ended

---
 libdstr/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdstr/common.c b/libdstr/common.c
index 6ae6a15..aaaa0d6 100644
--- a/libdstr/common.c
+++ b/libdstr/common.c
@@ -479,7 +479,7 @@ static size_t do_dstr_count2(
             count++;
             // no need to search anymore until end of current pattern
             // (compensating for the fact that the loop adds 1 to i)
-            i += pattern.len - 1;
+            if(pattern.len > 0) i += pattern.len - 1;
         }
     }
     return count;
-- 
2.43.0


From c4345c0fc86b86e72330aaa26c450dfb514f64e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:45:47 +0000
Subject: [PATCH 20/52] fix: a range within another one must not shorten a
 sequence set

---
 libimaildir/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/util.c b/libimaildir/util.c
index da03e16..0131cf8 100644
--- a/libimaildir/util.c
+++ b/libimaildir/util.c
@@ -174,9 +174,9 @@ ie_seq_set_t *seq_set_builder_extract(derr_t *e, seq_set_builder_t *ssb){
         seq_set_builder_elem_t *ssbe =
             CONTAINER_OF(node, seq_set_builder_elem_t, node);
         // sequences touch?
-        if(ssbe->n1 <= cur->n2 + 1){
+        if(ssbe->n1 - 1 <= cur->n2){
             // yes, extend the current seq_set_t
-            cur->n2 = ssbe->n2;
+            cur->n2 = MAX(cur->n2, ssbe->n2);
         }else{
             // no, start a new one
             cur->next = ie_seq_set_new(e, ssbe->n1, ssbe->n2);
-- 
2.43.0


From d8057a969df3eb049d9f01c44ba16a7df0a579e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:45:47 +0000
Subject: [PATCH 21/52] fix: SEARCH looks at every header with the given name

---
 libimaildir/search.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libimaildir/search.c b/libimaildir/search.c
index 6e6f9c7..a090c68 100644
--- a/libimaildir/search.c
+++ b/libimaildir/search.c
@@ -67,11 +67,22 @@ static derr_t search_headers(
     derr_t e = E_OK;
     *out = false;
 
-    dstr_t hvalue;
-    PROP(&e, find_header(args, name, &hvalue) );
-    if(!hvalue.data) return e;
+    const imf_hdrs_t *hdrs;
+    IF_PROP(&e, args->get_hdrs(args->get_hdrs_data, &hdrs) ){
+        TRACE(&e, "failed to parse message for header SEARCH\n");
+        DUMP(e);
+        DROP_VAR(&e);
+        return e;
+    }
 
-    if(dstr_icount2(hvalue, value) > 0) *out = true;
+    // a header may appear more than once; any one of them may match
+    for(const imf_hdr_t *hdr = hdrs->hdr; hdr; hdr = hdr->next){
+        if(dstr_icmp2(dstr_from_off(hdr->name), name) != 0) continue;
+        if(dstr_icount2(dstr_from_off(hdr->value), value) > 0){
+            *out = true;
+            return e;
+        }
+    }
 
     return e;
 }
-- 
2.43.0


From e4118576bc363fd464175ef4f160720caae21735 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:54:45 +0000
Subject: [PATCH 22/52] fix: popping a duplicate value freed a node still in
 the sequence set builder

---
 libimaildir/util.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libimaildir/util.c b/libimaildir/util.c
index 0131cf8..e5a80b2 100644
--- a/libimaildir/util.c
+++ b/libimaildir/util.c
@@ -136,14 +136,15 @@ unsigned int seq_set_builder_pop_val(seq_set_builder_t *ssb){
     jsw_anode_t *node = jsw_atfirst(&trav, ssb);
     if(!node) return out;
 
-    // pop that value from the tree
-    jsw_pop_atnext(&trav);
+    out = CONTAINER_OF(node, seq_set_builder_elem_t, node)->n1;
+
+    /* pop that value from the tree; with duplicate values this may not be the
+       node we just saw, so be sure to free the node that was removed */
+    node = jsw_aerase(ssb, &out);
 
     seq_set_builder_elem_t *ssbe =
         CONTAINER_OF(node, seq_set_builder_elem_t, node);
 
-    out = ssbe->n1;
-
     free(ssbe);
 
     return out;
-- 
2.43.0


From 8c23bac4404064b1dbaa999746ec6fe298bac208 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 23/52] fix: a message recovered on startup was given a UID
 already in use

---
 libimaildir/imaildir.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index f2f7dfe..340b59d 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -495,14 +495,8 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         )
     );
 
-    if(read_files){
-        // populate messages by reading files
-        PROP(&e, populate_msgs(m) );
-
-        PROP(&e, imaildir_print_msgs(m) );
-    }
-
-    // detect all of the uid_dn's and uid_local's
+    /* detect all of the uid_dn's and uid_local's (before reading files, which
+       may assign a new uid_dn) */
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &m->msgs);
     for(; node != NULL; node = jsw_atnext(&trav)){
@@ -518,6 +512,13 @@ static derr_t imaildir_read_cache_and_files(imaildir_t *m, bool read_files){
         detect_hi_uid_local(m, expunge->key.uid_local);
     }
 
+    if(read_files){
+        // populate messages by reading files
+        PROP(&e, populate_msgs(m) );
+
+        PROP(&e, imaildir_print_msgs(m) );
+    }
+
     return e;
 }
 
-- 
2.43.0


From 61904659d527e660d8f7919aa703225b2b13e1a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 24/52] fix: a COPY into a mailbox which fails to open used an
 uninitialized pointer

---
 libimaildir/imaildir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 340b59d..81b0276 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2022,7 +2022,7 @@ static derr_t relay_copy_cb(const relay_t *relay, const ie_st_resp_t *st_resp){
     const ie_seq_set_t *dst_uids_up = st_resp->code->arg.copyuid.uids_out;
 
     imaildir_t *hold_m;
-    dirmgr_hold_get_imaildir(relay->hold, &hold_m);
+    PROP(&e, dirmgr_hold_get_imaildir(relay->hold, &hold_m) );
 
     if(uidvld != imaildir_get_uidvld_up(hold_m)){
         LOG_WARN("detected COPY with mismatched UIDVALIDITY\n");
-- 
2.43.0


From 2097ddfbd1182f045833595c2cf43ac239e3122a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 25/52] fix: do not close the log twice if the cache cannot be
 wiped

---
 libimaildir/imaildir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 81b0276..79bb68d 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -936,6 +936,7 @@ derr_t imaildir_up_check_uidvld_up(imaildir_t *m, unsigned int uidvld_up){
 
         // close the log
         m->log->close(m->log);
+        m->log = NULL;
 
         // delete the log from the filesystem
         PROP_GO(&e, imaildir_log_rm(&m->path), fail);
-- 
2.43.0


From 084cff6d44ad9bbf08a5ec09e62615df597e1657 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 26/52] fix: a name too short for a message file is not one

---
 libimaildir/name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimaildir/name.c b/libimaildir/name.c
index edb1b23..90f08a5 100644
--- a/libimaildir/name.c
+++ b/libimaildir/name.c
@@ -49,7 +49,7 @@ derr_t maildir_name_parse(
     // first just check to make sure we have met a minimum length
     if(name->len < 16){
         // this filename is too short for an maildir name
-        return e;
+        ORIG(&e, E_PARAM, "name is too short");
     }
 
     // split major tokens
-- 
2.43.0


From 2fa3f5bbd6b4c8c8ea522ef9212235f54c1f4605 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 27/52] fix: recognize message files with short names after a
 restart

---
 libimaildir/name.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libimaildir/name.c b/libimaildir/name.c
index 90f08a5..b4aaaa7 100644
--- a/libimaildir/name.c
+++ b/libimaildir/name.c
@@ -46,12 +46,6 @@ derr_t maildir_name_parse(
                   -|---|-|-                  fields (always 4 for VER=1)
     */
 
-    // first just check to make sure we have met a minimum length
-    if(name->len < 16){
-        // this filename is too short for an maildir name
-        ORIG(&e, E_PARAM, "name is too short");
-    }
-
     // split major tokens
     LIST_VAR(dstr_t, major_tokens, 2);
     DSTR_STATIC(colon, ":");
-- 
2.43.0


From 46017acf2f516793914424fd2be5efd772e273fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 28/52] fix: a crash while wiping the cache must not make a
 mailbox impossible to open

---
 libimaildir/log_file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libimaildir/log_file.c b/libimaildir/log_file.c
index acb54e8..fa4205a 100644
--- a/libimaildir/log_file.c
+++ b/libimaildir/log_file.c
@@ -597,6 +597,9 @@ cu:
 derr_t imaildir_log_rm(const string_builder_t *dirpath){
     derr_t e = E_OK;
     string_builder_t path = sb_append(dirpath, SBS(".cache"));
-    PROP(&e, remove_path(&path) );
+    // we may have crashed after removing it once already
+    bool exists;
+    PROP(&e, exists_path(&path, &exists) );
+    if(exists) PROP(&e, remove_path(&path) );
     return e;
 }
-- 
2.43.0


From f703ec8af414c4fdc1509c520e6eb0ae1484d971 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 29/52] fix: sync a copied file, so that a COPYed message
 survives a power loss

---
 libdstr/fileops.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdstr/fileops.c b/libdstr/fileops.c
index 8105ec6..eeb13ac 100644
--- a/libdstr/fileops.c
+++ b/libdstr/fileops.c
@@ -1105,6 +1105,9 @@ derr_t file_copy(const char* from, const char* to, mode_t mode){
         PROP_GO(&e, dstr_write(fdout, &buffer), cu_fdout);
     }
 
+    // a copy should be as durable as the original
+    PROP_GO(&e, dfsync(fdout), cu_fdout);
+
 cu_fdout:
     compat_close(fdout);
 cu_fdin:
-- 
2.43.0


From a256646c9b520a8bcc58aeeab4c458d420ced272 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 30/52] fix: keep the INTERNALDATE of a message when a crash
 interrupts its download

---
 libimaildir/imaildir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 79bb68d..22ee850 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -1211,6 +1211,10 @@ static derr_t _imaildir_up_handle_static_fetch_attr(
 
     msg->internaldate = fetch->intdate;
 
+    /* make sure the metadata is in place in case we crash after moving the
+       file into place but before completing the message */
+    PROP(&e, m->log->update_msg(m->log, msg) );
+
     size_t tmp_id = imaildir_new_tmp_id(m);
 
     // figure the temporary file name
-- 
2.43.0


From e48233bd16816a3515e77a8c3a7e353d66a86cc1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:37 +0000
Subject: [PATCH 31/52] fix: STATUS must not count expunged local messages

---
 libimaildir/imaildir.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libimaildir/imaildir.c b/libimaildir/imaildir.c
index 22ee850..029a061 100644
--- a/libimaildir/imaildir.c
+++ b/libimaildir/imaildir.c
@@ -2436,8 +2436,11 @@ derr_t imaildir_process_status_resp(
                msg_key_t cmp function */
             if(msg->key.uid_local > 0){
                 // local messages are obviously not counted by the server
-                messages++;
-                if(!msg->flags.seen) unseen++;
+                // (and expunged ones are not counted by us, either)
+                if(msg->state == MSG_FILLED){
+                    messages++;
+                    if(!msg->flags.seen) unseen++;
+                }
             }else if(msg->state == MSG_NOT4ME){
                 // NOT4ME messages are not counted by us
                 if(messages) messages--;
-- 
2.43.0


From fd7b247880f3e96697232d05e0ea6cb808963690 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 32/52] fix: SELECT must report the first unseen message

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 9c52eeb..e3d6e36 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -454,7 +454,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
     unsigned int seq = 1;
     jsw_atrav_t trav;
     jsw_anode_t *node = jsw_atfirst(&trav, &dn->views);
-    for(; node != NULL; seq++, node = jsw_atprev(&trav)){
+    for(; node != NULL; seq++, node = jsw_atnext(&trav)){
         msg_view_t *view = CONTAINER_OF(node, msg_view_t, node);
         if(view->flags.seen) continue;
 
@@ -472,6 +472,7 @@ static derr_t send_unseen_resp(dn_t *dn, link_t *out){
         CHECK(&e);
 
         link_list_append(out, &resp->link);
+        break;
     }
 
     // if no messages were unseen, don't report anything
-- 
2.43.0


From 21000b6fd971097a15a030f12897e7e7b96b3d22 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 33/52] fix: a mailbox opened by EXAMINE must not be modified

---
 libimaildir/dn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e3d6e36..5f45bf2 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1548,7 +1548,8 @@ static derr_t fetch_begin(
 
     /* some FETCH commands can't cause any \Seen flags to get set, while
        other FETCH commands don't happen to affect any unseen messages */
-    bool ispeek = fetch_is_peek_only(dn->fetch.cmd);
+    // a read-only mailbox is never modified
+    bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);
     msg_key_list_t *nonpeeks = NULL;
     if(!ispeek){
         PROP(&e, nonpeek_msgs(dn, dn->fetch.uids_dn, &nonpeeks) );
@@ -2069,7 +2070,8 @@ fail:
 static derr_t disconnect_begin(dn_t *dn, bool expunge, bool *ok){
     derr_t e = E_OK;
 
-    if(!expunge){
+    // closing a read-only mailbox does not expunge anything
+    if(!expunge || dn->examine){
         /* since the server_t is not allowed to process commands while it is
            waiting for the dn_t to respond to a command, there's no additional
            need to synchronize at this point */
-- 
2.43.0


From d64724c11f696667e8108ae39c8c82300b6159e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 34/52] fix: SEARCH of an empty mailbox must be answered

---
 libimaildir/dn.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 5f45bf2..a11b60e 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -760,18 +760,16 @@ derr_t dn_search(
 
     PROP(&e, healthcheck(dn) );
 
-    // handle the empty maildir case
-    if(dn->views.size == 0){
-        PROP(&e, send_search_resp(dn, NULL, out) );
-        return e;
-    }
+    ie_nums_t *nums = NULL;
 
-    // now figure out some constants to do the search
-    unsigned int seq_max;
-    PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
+    // in an empty maildir there is nothing to search
+    if(dn->views.size > 0){
+        // figure out some constants to do the search
+        unsigned int seq_max;
+        PROP(&e, index_to_seq_num(dn->views.size - 1, &seq_max) );
 
-    ie_nums_t *nums = NULL;
-    PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+        PROP(&e, dn_search_loop(dn, search, seq_max, &nums) );
+    }
 
     link_t temp = {0};
 
-- 
2.43.0


From e4a89996f491f6c2a7aeb179775fcc11a893117f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 35/52] fix: dn_store must not lose the errors of store_begin

---
 libimaildir/dn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index a11b60e..b98eed4 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1097,7 +1097,7 @@ derr_t dn_store(
     PROP(&e, healthcheck(dn) );
 
     if(!dn->store.started){
-        store_begin(dn, tagp, store, out, ok);
+        PROP(&e, store_begin(dn, tagp, store, out, ok) );
         return e;
     }
 
@@ -2246,7 +2246,7 @@ static derr_t gathered_new(gathered_t **out, unsigned int uid_dn){
     *out = NULL;
 
     gathered_t *gathered = malloc(sizeof(*gathered));
-    if(!out) ORIG(&e, E_NOMEM, "nomem");
+    if(!gathered) ORIG(&e, E_NOMEM, "nomem");
     *gathered = (gathered_t){ .uid_dn = uid_dn };
 
     *out = gathered;
-- 
2.43.0


From b6b1f127dbd58ef6c1f354e825e6885ca90dbc0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 36/52] fix: flags must be reported after a failed silent STORE

---
 libimaildir/dn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index b98eed4..7b13692 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1051,7 +1051,8 @@ static derr_t store_finish(dn_t *dn, link_t *out){
 
     // send all untagged responses
     bool uid_mode = dn->store.uid_mode;
-    bool for_store = true;
+    // if the STORE failed, the flags we expected to see don't apply
+    bool for_store = !st_resp;
     PROP_GO(&e,
         gather_send_responses(dn, &gather, uid_mode, for_store, &temp),
     cu);
-- 
2.43.0


From e4c88b402d16e26b4caa6ae7c838b290c5574b5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 37/52] fix: no EXPUNGE for a message the client was never told
 of

---
 libimaildir/dn.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 7b13692..2927ae0 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -5,6 +5,8 @@
 
 typedef struct {
     unsigned int uid_dn;
+    // for expunges: the client was never told about this message
+    bool untold;
     jsw_anode_t node;
 } gathered_t;
 DEF_CONTAINER_OF(gathered_t, node, jsw_anode_t)
@@ -2351,7 +2353,11 @@ static derr_t gather_send_responses(
         gathered_t *gathered = CONTAINER_OF(node, gathered_t, node);
 
         node = jsw_aerase(&gather->news, &gathered->uid_dn);
-        if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
+        if(node){
+            // no EXPUNGE either, since the client never heard of the message
+            gathered->untold = true;
+            gathered_free(CONTAINER_OF(node, gathered_t, node));
+        }
 
         node = jsw_aerase(&gather->metas, &gathered->uid_dn);
         if(node) gathered_free(CONTAINER_OF(node, gathered_t, node));
@@ -2406,6 +2412,8 @@ static derr_t gather_send_responses(
         jsw_aerase(&dn->views, &gathered->uid_dn);
         msg_view_free(&view);
 
+        if(gathered->untold) continue;
+
         unsigned int seq_num;
         PROP_GO(&e, index_to_seq_num(index, &seq_num), cu);
         PROP_GO(&e, send_expunge(dn, seq_num, &temp), cu);
-- 
2.43.0


From 0baa25e829ad431722314ce386ee97dce03e6556 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 38/52] fix: a read error must not pass for an unparsable
 message

---
 libimaildir/dn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 2927ae0..8d9e07c 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -140,8 +140,8 @@ static const imf_hdrs_t *loader_parse_hdrs(derr_t *e, loader_t *loader){
             &loader->hdrs
         )
     ){
-        // E_NOMEM is unfixable
-        if(e->type == E_NOMEM){
+        // only handle unparsable messages; e.g. E_NOMEM or E_OS is unfixable
+        if(e->type != E_PARAM && e->type != E_INTERNAL){
             goto fail;
         }
         DROP_VAR(e);
-- 
2.43.0


From 45a18d09f162c45da931173ae382e6d0b22d8514 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 39/52] fix: HEADER.FIELDS.NOT of a part which is not a message

---
 libimaildir/dn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 8d9e07c..faaced3 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1233,6 +1233,7 @@ static bool build_sect_txt_content_resp(
             break;
 
         case IE_SECT_HDR_FLDS_NOT:
+            if(!imf) return true;
             // just the headers of the message
             *content_resp_out = imf_copy_hdr_fields_not(
                 e, imf, sect_txt->headers
-- 
2.43.0


From 3bc2d55b6ad6354bb54123967e39c8a993da9f1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 40/52] fix: FETCH must not forget that a part was missing

---
 libimaildir/dn.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index faaced3..5caedcc 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1254,7 +1254,6 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
 ){
     ie_dstr_t *content_resp = NULL;
 
-    *part_missing = false;
     if(is_error(*e)) goto fail;
 
     ie_sect_t *sect = extra->sect;
-- 
2.43.0


From e2b6b6dc942ea1c22fd60c03323b944367441157 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 41/52] fix: FETCH must not use content which failed to load

---
 libimaildir/dn.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index 5caedcc..e40b889 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1327,6 +1327,8 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
         }
     }
 
+    CHECK_GO(e, fail);
+
     ie_nums_t *offset = NULL;
     if(extra->partial){
         // replace content_resp with a substring of the content_resp
@@ -1431,8 +1433,10 @@ static derr_t send_fetch_resp(
 
     if(fetch->attr->rfc822_text){
         const imf_t *imf = loader_parse_imf(&e, &loader);
-        ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
-        f = ie_fetch_resp_rfc822_text(&e, f, body);
+        if(!is_error(e)){
+            ie_dstr_t *body = ie_dstr_from_off(&e, imf->body);
+            f = ie_fetch_resp_rfc822_text(&e, f, body);
+        }
     }
 
     if(fetch->attr->rfc822_size){
-- 
2.43.0


From 9d06d0838279f36b256e9405667899fb775f6374 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 42/52] fix: a partial FETCH must not free content which is
 still in use

---
 libimaildir/dn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libimaildir/dn.c b/libimaildir/dn.c
index e40b889..984ccc0 100644
--- a/libimaildir/dn.c
+++ b/libimaildir/dn.c
@@ -1337,7 +1337,12 @@ static ie_fetch_resp_t *build_fetch_resp_extra(
         dstr_t sub = ie_dstr_sub(content_resp, start, end);
         ie_dstr_t *temp = content_resp;
         content_resp = ie_dstr_new(e, &sub, KEEP_RAW);
-        ie_dstr_free(temp);
+        if(temp == loader->content){
+            // the loader still needs its content, give it back
+            loader->taken = false;
+        }else{
+            ie_dstr_free(temp);
+        }
         // in the response, only the start offset is specified
         offset = ie_nums_new(e, extra->partial->a);
     }
-- 
2.43.0


From 7d6c26170f09f179f64d4e55f447ae9b1d8b9a2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 43/52] fix: free the header parser after a read error

---
 libimap/imf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f0cb16..d702a1a 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -289,7 +289,7 @@ static derr_t do_imf_hdrs_parse(
     imf_token_e token_type = 0;
     do {
         dstr_off_t token;
-        PROP(&e, imf_scan(s, &token, &token_type) );
+        PROP_GO(&e, imf_scan(s, &token, &token_type), done);
 
         imf_status_e status = imf_parse_hdrs(
             &p, &e, msg, skip, token_type, token, out, NULL
-- 
2.43.0


From 07cdb468dee724518913bf8d30df1fe4327ffcac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 44/52] fix: messages with unparsable parts must not crash or
 break FETCH

---
 libimap/imf.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index d702a1a..8f53382 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -399,9 +399,13 @@ derr_t imf_parse_sub(
     imf_t **out
 ){
     derr_t e = E_OK;
+
+    imf_hdrs_t *_hdrs = hdrs ? STEAL(imf_hdrs_t, hdrs) : NULL;
+    if(_hdrs == NULL) PROP(&e, imf_hdrs_parse_sub(bytes, &_hdrs) );
+
     PROP(&e,
         do_imf_parse(
-            bytes.buf, bytes.start, &bytes.len, hdrs, out
+            bytes.buf, bytes.start, &bytes.len, &_hdrs, out
         )
     );
     return e;
@@ -429,7 +433,15 @@ derr_t imf_hdrs_parse_sub(const dstr_off_t bytes, imf_hdrs_t **out){
     imf_scanner_t s = imf_scanner_prep(
         bytes.buf, bytes.start, &bytes.len, NULL, NULL
     );
-    PROP(&e, do_imf_hdrs_parse(bytes.buf, &s, out) );
+    IF_PROP(&e, do_imf_hdrs_parse(bytes.buf, &s, out) ){
+        // only handle unparsable headers
+        if(e.type != E_PARAM && e.type != E_INTERNAL) return e;
+        DROP_VAR(&e);
+        // don't fail on a part you can't parse; assume it is one big body
+        dstr_off_t empty = { .buf = bytes.buf, .start = bytes.start, .len = 0 };
+        *out = imf_hdrs_new(&e, empty, empty, NULL);
+        CHECK(&e);
+    }
 
     return e;
 }
@@ -1186,7 +1198,6 @@ static derr_t read_bodystructure(
 
     if(content_type->type == MIME_TYPE_MULTIPART){
         // read the bodystructure for all parts of this message
-        ie_body_t *parts = NULL;
         size_t skip = 0;
 
         // multipart/digest changes the deault Content-Type
@@ -1216,7 +1227,7 @@ static derr_t read_bodystructure(
             };
 
             // recurse
-            ie_body_t *new_part;
+            ie_body_t *new_part = NULL;
             // delay error handling until ie_body_add
             e = read_bodystructure(
                 part_hdrs,
-- 
2.43.0


From 29cd8cd107af029ed5f5107dec8beef85322c478 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:51:50 +0000
Subject: [PATCH 45/52] fix: a message without a multipart body has only part 1

---
 libimap/imf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libimap/imf.c b/libimap/imf.c
index 8f53382..095eef9 100644
--- a/libimap/imf.c
+++ b/libimap/imf.c
@@ -1036,15 +1036,18 @@ bool imf_get_submessage(
             imf = NULL;
             imf_free(STEAL(imf_t, &heap_imf));
 
+            // without a multipart body, there is only part 1
+            if(!ismultipart && sect_part->n != 1){
+                missing = true;
+                break;
+            }
+
             /* Special case handling: you can still request part 1 of a
                message/rfc822 with a terminal body (but only part 1).  Normally
                terminal messages aren't allowed in this loop, so we handle that
                special case here. */
             if(isterminal){
-                if(sect_part->n != 1 || sect_part->next != NULL){
-                    missing = true;
-                    break;
-                }
+                if(sect_part->next != NULL) missing = true;
                 break;
             }
         }
-- 
2.43.0


From 7ea50108e2f175689603d17ce874b9f1df0d58fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:18:19 +0000
Subject: [PATCH 46/52] fix: the first sync must also find messages whose
 MODSEQ is 1

---
 libimaildir/up.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index bb7c1eb..527c906 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -639,16 +639,20 @@ static derr_t send_detection_fetch(up_t *up, uint64_t chgsince, link_t *out){
     attr = ie_fetch_attrs_add_simple(&e, attr, IE_FETCH_ATTR_UID);
     attr = ie_fetch_attrs_add_simple(&e, attr, IE_FETCH_ATTR_FLAGS);
     attr = ie_fetch_attrs_add_simple(&e, attr, IE_FETCH_ATTR_MODSEQ);
-    // CHANGEDSINCE must be at least 1
-    ie_fetch_mod_arg_t mod_arg = { .chgsince = MAX(1, chgsince) };
-    ie_fetch_mods_t *mods = ie_fetch_mods_new(&e,
-        IE_FETCH_MOD_CHGSINCE, mod_arg
-    );
-    // specify VANISHED so we populate expunges as well
-    mods = ie_fetch_mods_add(&e,
-        mods,
-        ie_fetch_mods_new(&e, IE_FETCH_MOD_VANISHED, (ie_fetch_mod_arg_t){0})
-    );
+    ie_fetch_mods_t *mods = NULL;
+    /* CHANGEDSINCE must be at least 1, but CHANGEDSINCE 1 would not include
+       messages whose modseq is 1, so to detect everything we don't use it */
+    if(chgsince > 1){
+        ie_fetch_mod_arg_t mod_arg = { .chgsince = chgsince };
+        mods = ie_fetch_mods_new(&e, IE_FETCH_MOD_CHGSINCE, mod_arg);
+        // specify VANISHED so we populate expunges as well
+        mods = ie_fetch_mods_add(&e,
+            mods,
+            ie_fetch_mods_new(&e,
+                IE_FETCH_MOD_VANISHED, (ie_fetch_mod_arg_t){0}
+            )
+        );
+    }
 
     // build fetch command
     ie_fetch_cmd_t *fetch = ie_fetch_cmd_new(&e, uid_mode, uidseq, attr, mods);
@@ -1066,8 +1070,8 @@ derr_t up_advance_state(up_t *up, link_t *out){
     if(up->bootstrap.needed){
         if(!up->bootstrap.sent){
             up->bootstrap.sent = true;
-            // CHANGEDSINCE 1, since modseq numbers are nonzero
-            PROP(&e, send_detection_fetch(up, 1, out) );
+            // detect all messages
+            PROP(&e, send_detection_fetch(up, 0, out) );
         }
         return e;
     }
-- 
2.43.0


From 62e4c67a40251148453dbf372da9d2800f3a3e44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:18:19 +0000
Subject: [PATCH 47/52] fix: a session after an interrupted first sync must
 detect all messages

---
 libimaildir/up.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 527c906..123a6a7 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -333,13 +333,15 @@ static derr_t build_select(
 ){
     derr_t e = E_OK;
 
-    // use QRESYNC with select if we have a valid UIDVALIDITY and HIGHESTMODSEQ
+    /* use QRESYNC with select if we have a valid UIDVALIDITY; without a valid
+       HIGHESTMODSEQ we'll also do a bootstrap, but that won't tell us about
+       expunged messages */
     ie_select_params_t *params = NULL;
-    if(uidvld_up && himodseq_up){
+    if(uidvld_up){
         ie_select_param_arg_t params_arg = {
             .qresync = {
                 .uidvld = uidvld_up,
-                .last_modseq = himodseq_up,
+                .last_modseq = MAX(1, himodseq_up),
             }
         };
         params = ie_select_params_new(&e, IE_SELECT_PARAM_QRESYNC, params_arg);
@@ -1173,6 +1175,9 @@ static derr_t post_cmd_done(up_t *up, const ie_st_code_t *code){
 static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
     derr_t e = E_OK;
 
+    unsigned int uidvld_up;
+    uint64_t himodseq_up;
+
     // Handle responses where the status code is what defines the behavior
     if(code != NULL){
         switch(code->type){
@@ -1194,11 +1199,23 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                     imaildir_up_check_uidvld_up(up->m, code->arg.uidvld)
                 );
 
-                if(code->arg.uidvld != up->select.uidvld_up){
+                // compare against the values of the SELECT in progress
+                if(up->select.done && up->reselect.needed){
+                    uidvld_up = up->reselect.uidvld_up;
+                    himodseq_up = up->reselect.himodseq_up;
+                }else{
+                    uidvld_up = up->select.uidvld_up;
+                    himodseq_up = up->select.himodseq_up;
+                }
+
+                if(code->arg.uidvld != uidvld_up){
                     /* invalidate our himodseq seen, which may be from an
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
                     up->himodseq_up_committed = 0;
+                }
+
+                if(code->arg.uidvld != uidvld_up || !himodseq_up){
                     /* start with a bootstrap fetch and don't commit any
                        himodseq values to the log yet */
                     up->bootstrap.needed = true;
-- 
2.43.0


From 00dc3e307352df2d9daedf75e2c1e92007abc499 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:18:19 +0000
Subject: [PATCH 48/52] fix: forget pending removals and downloads when the
 UIDVALIDITY changes

---
 libimaildir/up.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libimaildir/up.c b/libimaildir/up.c
index 123a6a7..ee4f4b3 100644
--- a/libimaildir/up.c
+++ b/libimaildir/up.c
@@ -1213,6 +1213,9 @@ static derr_t untagged_ok(up_t *up, const ie_st_code_t *code){
                        old UIDVALIDITY */
                     up->himodseq_up_seen = 0;
                     up->himodseq_up_committed = 0;
+                    // uids from the old UIDVALIDITY are meaningless now
+                    up_free_deletions(up);
+                    seq_set_builder_free(&up->fetch.uids_up);
                 }
 
                 if(code->arg.uidvld != uidvld_up || !himodseq_up){
-- 
2.43.0


From c426843a246d6c2da402e086c9f4ffd2178eaed5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:18:45 +0000
Subject: [PATCH 49/52] fix: dns: do not read a name from a packet without a
 question

---
 server/dns/dns.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/dns/dns.c b/server/dns/dns.c
index 00c86a7..0b05da0 100644
--- a/server/dns/dns.c
+++ b/server/dns/dns.c
@@ -278,7 +278,11 @@ size_t handle_packet(
        of junk queries which are only junk because of the extra labels */
     lstr_t rname[6] = {0};
     size_t cap = sizeof(rname) / sizeof(*rname);
-    size_t n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);
+    size_t n = 0;
+    // without a question there is no validated name to read
+    if(pkt.hdr.qdcount > 0){
+        n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);
+    }
     if(n > cap){
         // too many labels; but we don't actually care
         n = cap;
-- 
2.43.0


From 9cfc23e7832cc8a09b237a967c358093f2fb3ca0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:18:45 +0000
Subject: [PATCH 50/52] fix: dns: skip the data of a record to find the next
 one

---
 server/dns/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 239a37b..1c0c8ae 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -460,7 +460,7 @@ rr_t *rrs_next(rrs_t *it){
     rr.rdoff = used;
 
     it->rr = rr;
-    it->pos = used;
+    it->pos = used + rr.rdlen;
     it->seen++;
 
     return &it->rr;
-- 
2.43.0


From 5c5893d68ea6d9c1cee1170da4c677479b6b942e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:18:45 +0000
Subject: [PATCH 51/52] fix: dns: do not shift a byte into the sign bit

---
 server/dns/parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/dns/parse.c b/server/dns/parse.c
index 1c0c8ae..75a0dd4 100644
--- a/server/dns/parse.c
+++ b/server/dns/parse.c
@@ -408,7 +408,7 @@ static size_t parse_rr(
         if(len < used + 10) return BP_RR_HDR_OVERRUN;
         uint16_t type = (uptr[used+0] << 8) | uptr[used+1];
         uint16_t class = (uptr[used+2] << 8) | uptr[used+3];
-        uint32_t ttl = (uptr[used+4] << 24)
+        uint32_t ttl = ((uint32_t)uptr[used+4] << 24)
                      | (uptr[used+5] << 16)
                      | (uptr[used+6] << 8)
                      |  uptr[used+7];
@@ -451,7 +451,7 @@ rr_t *rrs_next(rrs_t *it){
     used = skip_name(it->ptr, used);
     rr.type = (uptr[used+0] << 8) | uptr[used+1];
     rr.class = (uptr[used+2] << 8) | uptr[used+3];
-    rr.ttl = (uptr[used+4] << 24)
+    rr.ttl = ((uint32_t)uptr[used+4] << 24)
                  | (uptr[used+5] << 16)
                  | (uptr[used+6] << 8)
                  |  uptr[used+7];
-- 
2.43.0


From f686ee8c9e989746261c66d1a8af8d09ade38692 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 08:18:45 +0000
Subject: [PATCH 52/52] fix: dns: overrunning EDNS options are a bad parse

---
 server/dns/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/dns/parse.h b/server/dns/parse.h
index 733372c..e6ba4a7 100644
--- a/server/dns/parse.h
+++ b/server/dns/parse.h
@@ -18,7 +18,7 @@ derr_type_t _fmt_lstr_dbg(const fmt_i *iface, writer_i *out);
 bool lstr_ieq(const lstr_t a, const lstr_t b);
 
 typedef enum {
-    BP_MINVAL                = (size_t)-13,
+    BP_MINVAL                = (size_t)-14,
 
     BP_ENDS_OPT_DATA_OVERRUN = (size_t)-14,
     BP_ENDS_OPT_HDR_OVERRUN  = (size_t)-13,
-- 
2.43.0

