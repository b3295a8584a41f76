From c16094d55350e797b12943647d438ba00a54a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 01/19] fix: reject a signature that ends inside a block's weak
 sum

A signature stream truncated 1 to 3 bytes into a weak sum was loaded
successfully, silently dropping the fragment. Ending is only OK if no
input is left.
---
 src/readsums.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..2669fb7 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,8 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
-            return RS_DONE;
+        if (result == RS_INPUT_ENDED && rs_scoop_eof(job))
+            return RS_DONE;     /* ending here is OK */
         return result;
     }
     job->weak_sig = l;
-- 
2.43.0


From 4fb68dc945658cf1143a256a18c6312e6d4cf907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 02/19] fix: reject signature headers with a zero magic or
 strong sum length

rs_sig_args() treats zero arguments as "use the default", so a signature
file whose header contains zeros was accepted and read as if it had the
default format or the maximum strong sum length.
---
 src/readsums.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 2669fb7..73fb56d 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -86,7 +86,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
@@ -127,6 +127,11 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
     rs_trace("got signature magic %#x", l);
+    if (l == 0) {
+        /* rs_sig_args() takes zero as "use the default". */
+        rs_error("signature magic is missing");
+        return RS_BAD_MAGIC;
+    }
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
     return RS_RUNNING;
-- 
2.43.0


From 5e199cb649e4b2736425a7ed3e4be0b98bad577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 03/19] fix: limit the recommended strong_len to the maximum of
 the format

For very large files the minimum strong_len can exceed the 16 bytes of
MD4. It was then returned as the recommended length, and an explicit
strong_len above the maximum was only warned about instead of rejected.
---
 src/sumset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..d252d71 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -163,6 +163,9 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
             2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
     }
+    /* The recommendation can't exceed what the magic supports. */
+    if (min_strong_len > max_strong_len)
+        min_strong_len = max_strong_len;
     if (*strong_len == 0)
         *strong_len = max_strong_len;
     else if (*strong_len == -1)
-- 
2.43.0


From ac2d6b1313d5a2b548696dd22fc110d79ea4d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 04/19] fix: reject block_len values that don't fit a signature

Block lengths are an int in the signature format. A larger value (such as
a negative rdiff --block-size) was accepted and then truncated.
---
 src/sumset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index d252d71..fd7d323 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    else if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
-- 
2.43.0


From 81494204b294aece442fba586446b8445021673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 05/19] fix: return the decoded length from rs_unbase64()

The trailing padding bits were counted as another byte, so decoding the
output of rs_base64() gave too long a length unless it was a multiple of 3.
---
 src/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..d2f59d6 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,15 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    /* Only whole bytes count, the remaining bits are padding. */
+    return (i * 6) / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From e855b9bb890554d026c50e7eea24357f8c773e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 06/19] fix: don't loop forever if the copy callback returns no
 data

A copy callback that reports success with a length of zero made the patch
job call it again forever. Treat it as the end of the basis.
---
 src/patch.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patch.c b/src/patch.c
index 7e353d9..d556991 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -185,6 +185,11 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
         rs_warn("copy_cb() returned more than the requested length");
         len = (size_t)req;
     }
+    /* A callback that has no more data must not keep us here forever. */
+    if (!len) {
+        rs_error("copy_cb() returned no data");
+        return RS_INPUT_ENDED;
+    }
     /* copy back to out buffer only if the callback has used its own buffer */
     if (ptr != buffs->next_out)
         memcpy(buffs->next_out, ptr, len);
-- 
2.43.0


From dcce87252cd6e1e5771582c804dc0a749313f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 07/19] fix: return RS_BLOCKED when the copy callback blocks

A copy callback is allowed to return RS_BLOCKED, and rs_job_iter() should
then return RS_BLOCKED too, but if it made no progress in a call it was
reported as an internal error.
---
 src/job.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/job.c b/src/job.c
index 462e772..91a0abf 100644
--- a/src/job.c
+++ b/src/job.c
@@ -93,7 +93,8 @@ rs_result rs_job_iter(rs_job_t *job, rs_buffers_t *buffers)
     orig_in = buffers->avail_in;
     orig_out = buffers->avail_out;
     result = rs_job_work(job, buffers);
-    if (result == RS_BLOCKED || result == RS_DONE)
+    /* A copy callback can block without any progress being made. */
+    if ((result == RS_BLOCKED && !job->copy_cb) || result == RS_DONE)
         if ((orig_in == buffers->avail_in) && (orig_out == buffers->avail_out)
             && orig_in && orig_out) {
             rs_error("internal error: job made no progress " "[orig_in="
-- 
2.43.0


From bf1ec23b39e8c0b91b2f60199368a6bfb6244d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 08/19] fix: don't overwrite an existing unreadable file
 without force

rs_file_open() decided whether the output file exists by trying to read
it, so a file without read permission was overwritten.
---
 src/fileutil.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..35a783b 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -105,6 +105,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
             rs_error("File exists \"%s\", aborting!", filename);
             fclose(f);
             exit(RS_IO_ERROR);
+        } else if (errno != ENOENT) {
+            // Can't tell that it doesn't exist, so don't overwrite it.
+            rs_error("Error checking \"%s\": %s", filename, strerror(errno));
+            exit(RS_IO_ERROR);
         }
     }
 
-- 
2.43.0


From dde2f083203ce3a548d307f89c6836222b096485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 09/19] fix: make rdiff report errors writing the end of its
 output

Output still in the stdio buffer is only written when the file is closed
or the program exits, and errors doing so (such as a full disk) were
ignored, so rdiff exited 0 without having written its output.
---
 src/fileutil.c |  4 +++-
 src/rdiff.c    | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 35a783b..6bce64e 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -123,8 +123,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..81cca1b 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -44,6 +44,7 @@
  * \todo Add an option for delta to check whether the files are identical. */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <errno.h>
 #include <stdlib.h>
 #include <stdarg.h>
 #include <string.h>
@@ -190,6 +191,16 @@ static void rdiff_options(poptContext opcon)
     }
 }
 
+/** Close an output file, which fails if its last data can't be written. */
+static rs_result rdiff_close_output(FILE *f, rs_result result)
+{
+    if (rs_file_close(f) && result == RS_DONE) {
+        fprintf(stderr, "rdiff: Error writing output: %s\n", strerror(errno));
+        return RS_IO_ERROR;
+    }
+    return result;
+}
+
 /** Generate signature from remaining command line arguments. */
 static rs_result rdiff_sig(poptContext opcon)
 {
@@ -223,7 +234,7 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    result = rdiff_close_output(sig_file, result);
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +277,7 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    result = rdiff_close_output(delta_file, result);
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +313,7 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    result = rdiff_close_output(new_file, result);
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From 1e4c7815e2f245c938c932f51daf8e628dad244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 10/19] fix: avoid overflow sizing file buffers for large
 blocks

The buffer sizes were calculated as int, which overflows for block lengths
of 512M and more, making the file interfaces abort on valid (or, for
delta, hostile) signatures.
---
 src/whole.c | 13 +++++++------
 src/whole.h |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..c703423 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -41,15 +41,15 @@
 LIBRSYNC_EXPORT int rs_inbuflen = 0, rs_outbuflen = 0;
 
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
-                       int inbuflen, int outbuflen)
+                       size_t inbuflen, size_t outbuflen)
 {
     rs_buffers_t buf;
     rs_result result;
     rs_filebuf_t *in_fb = NULL, *out_fb = NULL;
 
     /* Override buffer sizes if rs_inbuflen or rs_outbuflen are set. */
-    inbuflen = rs_inbuflen ? rs_inbuflen : inbuflen;
-    outbuflen = rs_outbuflen ? rs_outbuflen : outbuflen;
+    inbuflen = rs_inbuflen ? (size_t)rs_inbuflen : inbuflen;
+    outbuflen = rs_outbuflen ? (size_t)rs_outbuflen : outbuflen;
     if (in_file)
         in_fb = rs_filebuf_new(in_file, inbuflen);
     if (out_file)
@@ -78,8 +78,8 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
-                     12 + 4 * (4 + (int)strong_len));
+    r = rs_whole_run(job, old_file, sig_file, 4 * block_len,
+                     12 + 4 * (4 + strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
@@ -114,7 +114,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     4 * (MAX_DELTA_CMD + (size_t)sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
diff --git a/src/whole.h b/src/whole.h
index e872bc1..0f4d15e 100644
--- a/src/whole.h
+++ b/src/whole.h
@@ -45,6 +45,6 @@
  *
  * \return RS_DONE if the job completed, or otherwise an error result. */
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
-                       int inbuflen, int outbuflen);
+                       size_t inbuflen, size_t outbuflen);
 
 #endif                          /* !WHOLE_H */
-- 
2.43.0


From e71c3a932f7804739d0e93d19a5ca1c6737fc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 11/19] fix: don't take a read error after partial data for end
 of file

fread() returns a short count if an error comes after some data. The error
was then forgotten, and if the next read returned nothing (as for a socket
after a reset) the truncated input was taken as complete.
---
 src/buf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 4dcfb72..65cc12b 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -84,8 +84,9 @@ rs_result rs_infilebuf_fill(rs_job_t *job, rs_buffers_t *buf, void *opaque)
     }
     buf->next_in = fb->buf;
     len = fread(fb->buf + buf->avail_in, 1, fb->buf_len - buf->avail_in, f);
-    if (len == 0) {
-        if ((buf->eof_in = feof(f))) {
+    /* A read error can come after some data, and must not look like EOF. */
+    if (len == 0 || ferror(f)) {
+        if (!ferror(f) && (buf->eof_in = feof(f))) {
             rs_trace("seen end of file on input");
             return RS_DONE;
         } else {
-- 
2.43.0


From b6dd5fb38492c2e930865d406fe9a51d15334ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 12/19] fix: avoid overflow sizing the hashtable for huge
 signatures

The size calculation overflowed an int for more than 214748364 blocks, giving
a table of 2 slots that silently drops nearly all blocks.
---
 src/hashtable.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..9c8635c 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -37,11 +37,17 @@ hashtable_t *_hashtable_new(int size)
 {
     hashtable_t *t;
     unsigned size2, bits2;
+    long long need;
 
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    need =
+        1 +
+        (long long)size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    /* The size must be a power of 2 that fits in an int. */
+    if (need > 1 << 30)
+        return NULL;
     /* Use next power of 2 larger than the requested size and get mask bits. */
-    for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
+    for (size2 = 2, bits2 = 1; (long long)size2 < need; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
         return NULL;
     if (!(t->etable = calloc(size2, sizeof(void *)))) {
-- 
2.43.0


From 468ffbcea1cb644818a537a1ef08a3bd82ce8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:17 +0000
Subject: [PATCH 13/19] fix: don't write past the buffer in rs_format_stats()
 when truncating

---
 src/stats.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..ddcd50c 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -46,9 +46,11 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
     if (!op)
         op = "noop";
 
+    /* snprintf() returns the untruncated length, so don't go on after
+       truncation: there is no space left to append to. */
     len = snprintf(buf, size, "%s statistics: ", op);
 
-    if (stats->lit_cmds) {
+    if (stats->lit_cmds && (size_t)len < size) {
         len +=
             snprintf(buf + len, size - (size_t)len,
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
@@ -56,14 +58,14 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      stats->lit_cmdbytes);
     }
 
-    if (stats->sig_cmds) {
+    if (stats->sig_cmds && (size_t)len < size) {
         len +=
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
     }
 
-    if (stats->copy_cmds || stats->false_matches) {
+    if ((stats->copy_cmds || stats->false_matches) && (size_t)len < size) {
         len +=
             snprintf(buf + len, size - (size_t)len,
                      "copy[" FMT_LONG " cmds, " FMT_LONG " bytes, " FMT_LONG
@@ -72,7 +74,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      stats->false_matches);
     }
 
-    if (stats->sig_blocks) {
+    if (stats->sig_blocks && (size_t)len < size) {
         len +=
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
@@ -84,8 +86,9 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         sec = 1;                // avoid division by zero
     mb_in = (double)stats->in_bytes / 1e6;
     mb_out = (double)stats->out_bytes / 1e6;
-    snprintf(buf + len, size - (size_t)len,
-             " speed[%.1f MB (%.1f MB/s) in, %.1f MB (%.1f MB/s) out, %d sec]",
-             mb_in, mb_in / sec, mb_out, mb_out / sec, sec);
+    if ((size_t)len < size)
+        snprintf(buf + len, size - (size_t)len,
+                 " speed[%.1f MB (%.1f MB/s) in, %.1f MB (%.1f MB/s) out, %d sec]",
+                 mb_in, mb_in / sec, mb_out, mb_out / sec, sec);
     return buf;
 }
-- 
2.43.0


From 2d8b946db26ec3974cc408a005cb0a539b53b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 14/19] fix: limit slack delta literals to what a command can
 hold

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..415755f 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* A literal command's length is an int, the rest gets its own command. */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From cde3a910ddf25db36a11b5339f8ec4fbccd9cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 15/19] fix: describe RS_PARAM_ERROR in rs_strerror()

---
 src/msg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msg.c b/src/msg.c
index 1d9e1f5..304b90a 100644
--- a/src/msg.c
+++ b/src/msg.c
@@ -68,6 +68,8 @@ char const *rs_strerror(rs_result r)
         return "bad command line syntax";
     case RS_INTERNAL_ERROR:
         return "library internal error";
+    case RS_PARAM_ERROR:
+        return "bad parameter";
 
     default:
         return "unexplained problem";
-- 
2.43.0


From 3e81851de6648f177846d80a1204a44b67bf9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:16 +0000
Subject: [PATCH 16/19] fix: don't overflow int when converting more than 256
 MB to or from base64

rs_base64 computed the number of characters as n*8 and positions as i*6
in an int, so for n >= 2^28 the output was empty or wrong; rs_unbase64
wrote outside its buffer for text longer than 2^31/6 characters.
---
 src/base64.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index d2f59d6..08408ab 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,7 +31,9 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i;
+    int bit_offset, idx;
+    size_t byte_offset;
+    long long i;                /* i*6 overflows an int for long text. */
     unsigned char *d = (unsigned char *)s;
     char *p;
 
@@ -39,7 +41,7 @@ size_t rs_unbase64(char *s)
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
-        byte_offset = (i * 6) / 8;
+        byte_offset = (size_t)((i * 6) / 8);
         bit_offset = (i * 6) % 8;
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
@@ -52,7 +54,7 @@ size_t rs_unbase64(char *s)
         i++;
     }
     /* Only whole bytes count, the remaining bits are padding. */
-    return (i * 6) / 8;
+    return (size_t)((i * 6) / 8);
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
@@ -60,13 +62,13 @@ void rs_base64(unsigned char const *buf, int n, char *out)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bytes, i;
+    long long bytes, i;         /* n*8 overflows an int for long buffers. */
 
     /* work out how many bytes of output there are */
-    bytes = ((n * 8) + 5) / 6;
+    bytes = (((long long)n * 8) + 5) / 6;
 
     for (i = 0; i < bytes; i++) {
-        int byte = (i * 6) / 8;
+        int byte = (int)((i * 6) / 8);
         int bit = (i * 6) % 8;
 
         if (bit < 3) {
-- 
2.43.0


From 028013536d527b7d007657d2227b4fd35a52b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 17/19] fix: delta: don't accumulate input while output is
 slower

A delta job added the whole of every input window to the scoop, even when
plenty was still unscanned there because the output buffer had filled up.
With an output buffer that takes less per call than the input provides
(e.g. a small rs_outbuflen), all of the input ended up in memory. Finish
scanning what is in the scoop before taking more input.
---
 src/delta.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/delta.c b/src/delta.c
index 415755f..37134de 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -151,7 +151,10 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     /* if we completed OK */
     if (result == RS_DONE) {
         /* if we reached eof, we can flush the last fragment */
-        if (job->stream->eof_in) {
+        if (rs_scoop_avail(job) > job->scan_len) {
+            /* there is input that rs_getinput() didn't take yet */
+            return RS_RUNNING;
+        } else if (job->stream->eof_in) {
             job->statefn = rs_delta_s_flush;
             return RS_RUNNING;
         } else {
@@ -212,7 +215,13 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
 {
     size_t min_len = block_len + MAX_DELTA_CMD;
 
-    job->scan_len = rs_scoop_avail(job);
+    /* First finish scanning what is in the scoop if that's enough. Output may
+       be slower than input, so adding to it would accumulate all the input. */
+    if (job->scoop_avail >= min_len
+        && job->scoop_avail > job->scan_pos + block_len)
+        job->scan_len = job->scoop_avail;
+    else
+        job->scan_len = rs_scoop_avail(job);
     if (job->scan_len < min_len && !job->stream->eof_in)
         job->scan_len = min_len;
     return rs_scoop_readahead(job, job->scan_len, (void **)&job->scan_buf);
-- 
2.43.0


From 339a8647e0782a2fc68766f821d5d73429822210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 18/19] fix: rs_sig_begin() must not truncate its block and
 strong sum lengths

They were cast to int before being checked, so e.g. a block length of
2^32 + 5 was silently taken for 5 instead of failing with RS_PARAM_ERROR
as it does in rs_sig_args() and rs_sig_file().
---
 src/job.h   | 4 ++--
 src/mksum.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/job.h b/src/job.h
index fb22461..e6e1ed2 100644
--- a/src/job.h
+++ b/src/job.h
@@ -61,8 +61,8 @@ struct rs_job {
     /* Arguments for initializing the signature used by mksum.c and readsums.c.
      */
     int sig_magic;
-    int sig_block_len;
-    int sig_strong_len;
+    size_t sig_block_len;
+    size_t sig_strong_len;
 
     /** The size of the signature file if available. Used by loadsums.c when
      * initializing the signature to preallocate memory. */
diff --git a/src/mksum.c b/src/mksum.c
index a7bcf84..04d5243 100644
--- a/src/mksum.c
+++ b/src/mksum.c
@@ -116,7 +116,7 @@ rs_job_t *rs_sig_begin(size_t block_len, size_t strong_len,
     job->signature = rs_alloc_struct(rs_signature_t);
     job->job_owns_sig = 1;
     job->sig_magic = sig_magic;
-    job->sig_block_len = (int)block_len;
-    job->sig_strong_len = (int)strong_len;
+    job->sig_block_len = block_len;
+    job->sig_strong_len = strong_len;
     return job;
 }
-- 
2.43.0


From 8ba9ec4e82f7161a02abf0804453476b550d4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:01 +0000
Subject: [PATCH 19/19] fix: rs_file_open() must take an empty filename for
 stdin or stdout as documented

---
 src/fileutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 6bce64e..2618bea 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -85,7 +85,7 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
     is_write = mode[0] == 'w';
 
-    if (!filename || !strcmp("-", filename)) {
+    if (!filename || !*filename || !strcmp("-", filename)) {
         if (is_write) {
 #if _WIN32
             _setmode(_fileno(stdout), _O_BINARY);
-- 
2.43.0

