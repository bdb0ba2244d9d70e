From 42d06c34e58fee6a03e88856e56ef233aed06d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 01/62] fix: return as the unbraced body of a loop or switch at
 the end of a function fell into the loop

---
 v0100/smlrc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..163b5b1 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8966,8 +8966,9 @@ int ParseStatement(int tok, int BrkCntTarget[2], int casesIdx)
       }
       tok = GetToken();
       // If this return is the last statement in the function, the epilogue immediately
-      // follows and there's no need to jump to it.
-      if (!(tok == '}' && ParseLevel == 1 && !IsMain))
+      // follows and there's no need to jump to it. That isn't so if the return is the body
+      // of a loop or switch without braces, whose code continues after the body.
+      if (!(tok == '}' && ParseLevel == 1 && !IsMain && !BrkCntTarget))
         GenJumpUncond(CurFxnEpilogLabel);
     }
     else if (tok == tokWhile)
-- 
2.43.0


From 9bef07bbab90ddb65249e558cad65e36dbb25e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 02/62] fix: printf printed the prefix of %#hhx, %#hx for
 values that become zero when narrowed

---
 v0100/srclib/doprint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..13e997d 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -505,6 +503,9 @@ int __doprint(FILE* f, char* fmt, va_list vl)
           v = -v, sign = '-';
       }
 
+      if (alt && v && toupper(c) == 'X')
+        hexpfx = (c == 'X') ? "0X" : "0x";
+
       tmp = v;
       do
       {
-- 
2.43.0


From 9edc9111c3f78847f3937cbcbf3029778fa380b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 03/62] fix: printf %e and %g rounded exact ties wrongly when
 the integral part had more digits than requested

---
 v0100/srclib/cvtdf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/v0100/srclib/cvtdf.c b/v0100/srclib/cvtdf.c
index 32e5c6a..e3c253d 100644
--- a/v0100/srclib/cvtdf.c
+++ b/v0100/srclib/cvtdf.c
@@ -111,12 +111,14 @@ int __cvtdif(float x, char* buf, int size, int* rem)
       a[i] = r / 10;
       r %= 10;
     } while (--i >= 0);
-    // fill the output buffer circularly from back to front
-    *--p = r + '0';
+    // fill the output buffer circularly from back to front,
+    // noting non-zero digits that get overwritten (discarded)
+    p--;
+    if (++cnt > size && rem)
+      *rem |= *p - '0';
+    *p = r + '0';
     if (p == buf)
       p += size;
-    if (++cnt > size && rem)
-      *rem |= r;
     // if the starting 16-bit chunk is 0 after dividing it by 10,
     // don't use it anymore, and if chunk 0 is 0, we're done
     if (a[e] == 0)
-- 
2.43.0


From fbdc02fe3700c6cb16367815fd0e759f04bf02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 04/62] fix: scanf %n counted one character too many after
 white space matched the end of input

---
 v0100/srclib/doscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 29cecfb..dd8708e 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -33,8 +33,9 @@ int __doscan(FILE* f, char* fmt, va_list vl)
         c2 = fgetc(f);
         chcnt++;
       } while (isspace(c2));
+      chcnt--; // the last char isn't a white-space char
       if (c2 != EOF)
-        ungetc(c2, f), chcnt--;
+        ungetc(c2, f);
     }
 
     else if (c != '%' || *fmt == '%')
-- 
2.43.0


From ea61b6e884ca0d0b6461ca9e398ad6dbf9b0d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 05/62] fix: scanf %% did not skip white space before the
 matching '%'

---
 v0100/srclib/doscan.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index dd8708e..e049673 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -40,7 +40,15 @@ int __doscan(FILE* f, char* fmt, va_list vl)
 
     else if (c != '%' || *fmt == '%')
     {
-      fmt += (c == '%');
+      if (c == '%')
+      {
+        fmt++;
+        // %% skips white space first, as most conversions do
+        while (isspace(c2 = fgetc(f)))
+          chcnt++;
+        if (c2 != EOF)
+          ungetc(c2, f);
+      }
       goto lmatchchars2;
 lmatchchars:
       if ((c = (unsigned char)*fmt++) == '\0')
-- 
2.43.0


From daf0bc554efa74bca940c476295559aaa63f70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 06/62] fix: scanf returned EOF instead of a matching failure
 when input ended inside an item

---
 v0100/srclib/doscan.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index e049673..8ae4384 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -178,7 +178,7 @@ lmatchchars2:
         if (width == 0)
           cnt += assign;
         else
-          return cnt ? cnt : EOF;
+          return cnt; // there's at least one char, matching failure
       }
       else if (c == 's')
       {
@@ -242,11 +242,12 @@ lmatchchars2:
         {
           // Pass EOF (either a real one from fgetc() or a fake one when width
           // chars have been read) through all the states in order to handle
-          // error conditions in context.
+          // error conditions in context. Since at least one char of the item
+          // has been seen already, this EOF can only mean matching failure.
           if (width > 0)
-            c2 = fgetc(f); // EOF from here may signify input failure
+            c2 = fgetc(f);
           else
-            c2 = EOF, stop = 1; // EOF from here may signify matching failure
+            c2 = EOF, stop = 1;
 
           switch (state)
           {
@@ -260,7 +261,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return (cnt | stop) ? cnt : EOF;
+                return cnt;
             }
             state = ST_CHECK_INF_NAN;
             break;
@@ -282,7 +283,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return (cnt | stop) ? cnt : EOF;
+                return cnt;
               state = ST_CHECK_LEADING_0;
             }
             break;
@@ -318,7 +319,7 @@ lmatchchars2:
                 if (gotint)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return (cnt | stop) ? cnt : EOF;
+                  return cnt;
               }
               state = ST_CHECK_INT_DIGIT;
             }
@@ -351,7 +352,7 @@ lmatchchars2:
               if (gotint)
                 stop = 1; // matched a number, exit the loop
               else
-                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
+                return cnt;
             }
             break;
 
@@ -370,7 +371,7 @@ lmatchchars2:
                 if (gotint | gotfrct)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return (cnt | stop) ? cnt : EOF;
+                  return cnt;
               }
               state = ST_CHECK_FRCT_DIGIT;
             }
@@ -397,7 +398,7 @@ lmatchchars2:
               if (gotint | gotfrct)
                 stop = 1; // matched a number, exit the loop
               else
-                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
+                return cnt;
             }
             break;
 
@@ -411,7 +412,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return (cnt | stop) ? cnt : EOF;
+                return cnt;
             }
             state = ST_CHECK_EXP_DIGIT;
             break;
@@ -436,7 +437,7 @@ lmatchchars2:
               if (gotexp == 2)
                 stop = 1; // matched a number, exit the loop
               else
-                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
+                return cnt;
             }
             break;
           } // endof switch (state)
@@ -505,11 +506,12 @@ lmatchchars2:
         {
           // Pass EOF (either a real one from fgetc() or a fake one when width
           // chars have been read) through all the states in order to handle
-          // error conditions in context.
+          // error conditions in context. Since at least one char of the item
+          // has been seen already, this EOF can only mean matching failure.
           if (width > 0)
-            c2 = fgetc(f); // EOF from here may signify input failure
+            c2 = fgetc(f);
           else
-            c2 = EOF, stop = 1; // EOF from here may signify matching failure
+            c2 = EOF, stop = 1;
 
           switch (state)
           {
@@ -523,7 +525,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return (cnt | stop) ? cnt : EOF;
+                return cnt;
             }
             state = ST_CHECK_0;
             break;
@@ -542,7 +544,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return (cnt | stop) ? cnt : EOF;
+                return cnt;
               state = ST_CHECK_DIGIT;
             }
             break;
@@ -594,7 +596,7 @@ lmatchchars2:
                 if (gotint)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
+                  return cnt;
               }
             }
             break;
-- 
2.43.0


From 807556aaa3e68224446e9a1c303151b8c13c713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 07/62] fix: strtof and scanf scaled numbers with more than 112
 digits down by powers of ten

---
 v0100/srclib/doscan.c | 4 +++-
 v0100/srclib/strtof.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 8ae4384..219035f 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -383,8 +383,10 @@ lmatchchars2:
               chcnt++; width--;
               gotfrct = 2; // got fractional part digits: non-zero
               if (mcnt < MAX_FP_DIGITS)
+              {
                 digits[mcnt++] = c2 - '0';
-              mexp--; // TBD??? overflow
+                mexp--; // TBD??? overflow
+              }
             }
             else if (toupper(c2) == 'E' && (gotint | gotfrct))
             {
diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index bc6f7d8..502ae19 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -87,8 +87,10 @@ float strtof(char* nptr, char** endptr)
       {
         gotfrct = 2; // got fractional part digits: non-zero
         if (mcnt < MAX_FP_DIGITS)
+        {
           digits[mcnt++] = c - '0';
-        mexp--; // TBD??? overflow
+          mexp--; // TBD??? overflow
+        }
         nptr++;
       }
     }
-- 
2.43.0


From 308fcacb2af0418577d1420a1c36e87834385947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 08/62] fix: strtof converted nothing when the exponent did not
 fit in an int

---
 v0100/srclib/strtof.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index 502ae19..7ac54ba 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -115,11 +115,9 @@ float strtof(char* nptr, char** endptr)
         if (ex10 / 10 != eexp ||
             ex10 + d < ex10 ||
             ex10 + d > (unsigned)-1 / 2)
-        {
-          nptr = nptr0;
-          goto lend;
-        }
-        eexp = ex10 + d;
+          eexp = (unsigned)-1 / 2; // cap exponent
+        else
+          eexp = ex10 + d;
         nptr++;
       }
       if (!gotexp)
-- 
2.43.0


From f065d9f74f051a8374dbd5b8e0e96caed3026a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 09/62] fix: malloc of 2GB or more could shrink the heap
 instead of failing when the last block was free (Linux)

---
 v0100/srclib/malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..d1bef52 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,11 +303,12 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
 
+  if ((int)togrow <= 0)
+    return 0;
+
   if ((int)__sbrk(togrow) != -1)
   {
     unsigned* nxtblk = (unsigned*)((unsigned)blk + 2*HEADER_FOOTER_SZ + size);
-- 
2.43.0


From 32bba97521aabbd934a1ee6ec30799b9354dcf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 10/62] fix: writing to an update stream failed right after
 reading had hit end of file

---
 v0100/srclib/flushbuf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0100/srclib/flushbuf.c b/v0100/srclib/flushbuf.c
index 28f1b04..5071277 100644
--- a/v0100/srclib/flushbuf.c
+++ b/v0100/srclib/flushbuf.c
@@ -16,6 +16,13 @@ int __flushbuf(int c, FILE* f)
 {
   ssize_t written;
 
+  // writing may immediately follow reading that has encountered end of file
+  if ((f->flags & (_IORWOK | _IORD | _IOEOF)) == (_IORWOK | _IORD | _IOEOF))
+  {
+    f->flags &= ~_IORD;
+    f->ptr = f->buf;
+  }
+
   if (f->flags & (_IORD | _IOSTRING)) // fail file write immediately after file read or on read-only files
     return EOF;
   f->flags |= _IOWR; // last operation was a write
-- 
2.43.0


From 8f158c2ed2a35854e22b16854cac1b1695346fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 11/62] fix: ungetc failed right after end of file

---
 v0100/srclib/fillbuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/srclib/fillbuf.c b/v0100/srclib/fillbuf.c
index 327502d..445a728 100644
--- a/v0100/srclib/fillbuf.c
+++ b/v0100/srclib/fillbuf.c
@@ -77,6 +77,10 @@ int __fillbuf(FILE* f)
     else
       f->flags |= _IOERR; // if got an error
     f->cnt = 0;
+    // let ungetc() push one char back before the end, there's nothing valid
+    // in the buffer for fseek(), however
+    f->ptr++;
+    f->flags |= _IOUNGOT;
     return EOF;
   }
 
-- 
2.43.0


From d2dfaeb8fdbd2664b4c33e3e0e7176a2a25b15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 12/62] fix: fseek(f, n, SEEK_CUR) ignored what was left in the
 read buffer

---
 v0100/srclib/fseek.c   |  3 +++
 v0100/srclib/fseek16.c | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/fseek.c b/v0100/srclib/fseek.c
index 3e7610f..21f32cf 100644
--- a/v0100/srclib/fseek.c
+++ b/v0100/srclib/fseek.c
@@ -48,6 +48,9 @@ int fseek(FILE* f, long offset, int whence)
     return -1;
   }
 
+  if (whence == SEEK_CUR && (f->flags & _IORD)) // read-only file or last was read
+    offset -= f->cnt; // underlying file's current position is ahead of C file's position
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
diff --git a/v0100/srclib/fseek16.c b/v0100/srclib/fseek16.c
index 54523cc..341041f 100644
--- a/v0100/srclib/fseek16.c
+++ b/v0100/srclib/fseek16.c
@@ -80,6 +80,16 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
     return -1;
   }
 
+  pos = *offset; // preserve the position parameter
+  if (whence == SEEK_CUR && (f->flags & _IORD)) // read-only file or last was read
+  {
+    // underlying file's current position is ahead of C file's position
+    // pos -= f->cnt;
+    fpos_t t;
+    __lngFromUnsigned(&t, f->cnt);
+    __lngSub(&pos, &t);
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
@@ -91,7 +101,6 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
   if (f->flags & _IOAPPEND)
     return 0;
 
-  pos = *offset; // preserve the position parameter
   if (__lseekp(f->fd, &pos, whence))
   {
     return -1;
-- 
2.43.0


From 5b2dd96b12291a9763dc76292911f5777e0f9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 13/62] fix: freopen of the same file opened it before the old
 data was written

---
 v0100/srclib/freopen.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/v0100/srclib/freopen.c b/v0100/srclib/freopen.c
index 4454a4f..e7c613c 100644
--- a/v0100/srclib/freopen.c
+++ b/v0100/srclib/freopen.c
@@ -16,10 +16,6 @@ FILE* freopen(char* name, char* mode, FILE* stream)
   if (!name || !stream)
     return NULL;
 
-  // TBD??? Should open really happen after close as the standard says???
-  if (!(f = fopen(name, mode)))
-    return NULL;
-
   std = !stream->next; // stdin, stdout, stderr aren't chained
 
   // Prevent free(stream) in fclose(stream) by temporarily unchaining stream
@@ -30,8 +26,16 @@ FILE* freopen(char* name, char* mode, FILE* stream)
     stream->next = stream->prev = NULL;
   }
 
+  // Close first, so opening the same file finds everything written to it
   fclose(stream);
 
+  if (!(f = fopen(name, mode)))
+  {
+    if (!std)
+      free(stream);
+    return NULL;
+  }
+
   // Transplant *f to *stream
   *stream = *f;
 
-- 
2.43.0


From a865cf043560b06814c266f8702868a8fff04962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 14/62] fix: ungetc failed after a read from a stream still at
 end of file since before the last write

---
 v0100/srclib/fillbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/fillbuf.c b/v0100/srclib/fillbuf.c
index 445a728..0ed854e 100644
--- a/v0100/srclib/fillbuf.c
+++ b/v0100/srclib/fillbuf.c
@@ -20,11 +20,21 @@ int __fillbuf(FILE* f)
 
   if (f->flags & _IOWR) // fail file read immediately after file write or on write-only files
     return EOF;
-  if (f->flags & (_IOEOF | _IOSTRING)) // EOF has been reached already
+  if (f->flags & _IOSTRING) // EOF has been reached already
     return EOF;
 
   f->flags |= _IORD; // last operation was a read
 
+  if (f->flags & _IOEOF) // EOF has been reached already
+  {
+    if (f->ptr == f->buf) // it was reached before the last write
+    {
+      f->ptr++; // let ungetc() push one char back
+      f->flags |= _IOUNGOT;
+    }
+    return EOF;
+  }
+
   // Allocate a buffer if there isn't one yet or use the in-situ buffer
   if (!f->buf)
   {
-- 
2.43.0


From 96a1103630fbafd55ab3d565226a2016a900820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 15/62] fix: fgetpos and __ftell moved the file position by the
 previous contents of *pos (DOS)

---
 v0100/srclib/ftell16.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index abf234a..62bd743 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -9,6 +9,7 @@
 
 int __ftell(FILE* f, fpos_t* pos)
 {
+  pos->halves[0] = pos->halves[1] = 0;
   if (__lseekp(f->fd, pos, SEEK_CUR))
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From ba26146cf399439723d401ee73e51da51d9fdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 16/62] fix: scanf again reports EOF when input ends inside an
 item, as tests/scanf.c specifies (reverts daf0bc5)

---
 v0100/srclib/doscan.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 219035f..36e04ef 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -178,7 +178,7 @@ lmatchchars2:
         if (width == 0)
           cnt += assign;
         else
-          return cnt; // there's at least one char, matching failure
+          return cnt ? cnt : EOF;
       }
       else if (c == 's')
       {
@@ -242,12 +242,11 @@ lmatchchars2:
         {
           // Pass EOF (either a real one from fgetc() or a fake one when width
           // chars have been read) through all the states in order to handle
-          // error conditions in context. Since at least one char of the item
-          // has been seen already, this EOF can only mean matching failure.
+          // error conditions in context.
           if (width > 0)
-            c2 = fgetc(f);
+            c2 = fgetc(f); // EOF from here may signify input failure
           else
-            c2 = EOF, stop = 1;
+            c2 = EOF, stop = 1; // EOF from here may signify matching failure
 
           switch (state)
           {
@@ -261,7 +260,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return cnt;
+                return (cnt | stop) ? cnt : EOF;
             }
             state = ST_CHECK_INF_NAN;
             break;
@@ -283,7 +282,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return cnt;
+                return (cnt | stop) ? cnt : EOF;
               state = ST_CHECK_LEADING_0;
             }
             break;
@@ -319,7 +318,7 @@ lmatchchars2:
                 if (gotint)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return cnt;
+                  return (cnt | stop) ? cnt : EOF;
               }
               state = ST_CHECK_INT_DIGIT;
             }
@@ -352,7 +351,7 @@ lmatchchars2:
               if (gotint)
                 stop = 1; // matched a number, exit the loop
               else
-                return cnt;
+                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
             }
             break;
 
@@ -371,7 +370,7 @@ lmatchchars2:
                 if (gotint | gotfrct)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return cnt;
+                  return (cnt | stop) ? cnt : EOF;
               }
               state = ST_CHECK_FRCT_DIGIT;
             }
@@ -400,7 +399,7 @@ lmatchchars2:
               if (gotint | gotfrct)
                 stop = 1; // matched a number, exit the loop
               else
-                return cnt;
+                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
             }
             break;
 
@@ -414,7 +413,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return cnt;
+                return (cnt | stop) ? cnt : EOF;
             }
             state = ST_CHECK_EXP_DIGIT;
             break;
@@ -439,7 +438,7 @@ lmatchchars2:
               if (gotexp == 2)
                 stop = 1; // matched a number, exit the loop
               else
-                return cnt;
+                return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
             }
             break;
           } // endof switch (state)
@@ -508,12 +507,11 @@ lmatchchars2:
         {
           // Pass EOF (either a real one from fgetc() or a fake one when width
           // chars have been read) through all the states in order to handle
-          // error conditions in context. Since at least one char of the item
-          // has been seen already, this EOF can only mean matching failure.
+          // error conditions in context.
           if (width > 0)
-            c2 = fgetc(f);
+            c2 = fgetc(f); // EOF from here may signify input failure
           else
-            c2 = EOF, stop = 1;
+            c2 = EOF, stop = 1; // EOF from here may signify matching failure
 
           switch (state)
           {
@@ -527,7 +525,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return cnt;
+                return (cnt | stop) ? cnt : EOF;
             }
             state = ST_CHECK_0;
             break;
@@ -546,7 +544,7 @@ lmatchchars2:
             {
               ungetc(c2, f);
               if (c2 < 0)
-                return cnt;
+                return (cnt | stop) ? cnt : EOF;
               state = ST_CHECK_DIGIT;
             }
             break;
@@ -598,7 +596,7 @@ lmatchchars2:
                 if (gotint)
                   stop = 1; // matched a number, exit the loop
                 else
-                  return cnt;
+                  return (cnt | stop | (c2 >= 0)) ? cnt : EOF;
               }
             }
             break;
-- 
2.43.0


From 974957ecd84514aef6329b70557ef272467cbb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 17/62] fix: float constants with more than 112 digits after
 the point were scaled down by powers of ten

---
 v0100/smlrc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 163b5b1..d62ea3f 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1626,8 +1626,8 @@ int GetNumber(void)
       while (isdigit((ch = *p) & 0xFFu))
       {
         if (mcnt < MAX_CONST_DIGITS)
-          ConstDigits[mcnt++] = ch - '0';
-        mexp--; // TBD??? overflow
+          ConstDigits[mcnt++] = ch - '0',
+          mexp--; // TBD??? overflow
         ShiftCharN(1);
       }
     }
-- 
2.43.0


From df7418e2e787a057c6b3e3d55f324982d4617274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 18/62] fix: smlrpp succeeded with an unterminated #if in the
 main file

---
 v0100/ucpp/cpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 5a0946c..8ac89a9 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1992,8 +1992,9 @@ int cpp(struct lexer_state *ls)
 			error(ls->line, "unterminated #if construction "
 				"(depth %ld)", ls->ifnest);
 			r = CPPERR_NEST;
+			ls->ifnest = 0;
 		}
-		if (ls_depth == 0) return CPPERR_EOF;
+		if (ls_depth == 0) return r ? r : CPPERR_EOF;
 		close_input(ls);
 		if (!(ls->flags & LEXER) && !ls->ltwnl) {
 			put_char(ls, '\n');
-- 
2.43.0


From 2e11e4218f8768975886408f7526f761434a5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 19/62] fix: the compiler accepted a program with an
 unterminated #ifdef or #ifndef

---
 v0100/smlrc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index d62ea3f..70714fb 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1981,7 +1981,13 @@ int GetToken(void)
       // done with the current file, drop its record,
       // pick up the including files (if any) or terminate
       if (EndOfFiles())
+      {
+#ifndef NO_PREPROCESSOR
+        if (PrepSp > 0)
+          error("#if(n)def or #else without #endif\n");
+#endif
         break;
+      }
       continue;
     }
 
-- 
2.43.0


From 9315586d2c1ef042ef2caf9641b7e24310181d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 20/62] fix: the compiler accepted a comma before the closing
 parenthesis of a parameter list

---
 v0100/smlrc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 70714fb..5262d13 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8518,7 +8518,7 @@ void ParseFxnParams(int tok)
   {
     lastSyntaxPtr = SyntaxStackCnt;
 
-    if (tok == ')') /* unspecified params */
+    if (tok == ')' && !cnt) /* unspecified params */
       break;
 
     if (!TokenStartsDeclaration(tok, 1))
-- 
2.43.0


From a6bf70380691df38b4a21a949a9d90bbfbd594ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 21/62] fix: #line was obeyed in groups skipped by #ifdef or
 #ifndef

---
 v0100/smlrc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 5262d13..daf8b9d 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2086,7 +2086,7 @@ int GetToken(void)
         {
           // C89-style #line directive
           SkipSpace(0);
-          if (!isdigit(*p & 0xFFu))
+          if (PrepDontSkipTokens && !isdigit(*p & 0xFFu))
             errorDirective();
           line = 1;
         }
@@ -2094,6 +2094,13 @@ int GetToken(void)
 
       if (line)
       {
+        if (!PrepDontSkipTokens)
+        {
+          while (!strchr("\r\n", *p))
+            ShiftCharN(1);
+          continue;
+        }
+
         // Support for external, gcc-like, preprocessor output:
         //   # linenum filename flags
         //
-- 
2.43.0


From 52aea0e21fe932f06de86f6057965bc99825bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:24 +0000
Subject: [PATCH 22/62] fix: smlrpp crashed on #line without a number

---
 v0100/ucpp/cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 8ac89a9..84417ef 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1451,7 +1451,7 @@ static int handle_line(struct lexer_state *ls, unsigned long flags)
 		}
 		aol(tf2.t, tf2.nt, *ct, TOKEN_LIST_MEMG);
 	}
-	freemem(tf.t);
+	if (tf.nt) freemem(tf.t);
 	for (tf2.art = 0; tf2.art < tf2.nt && ttWHI(tf2.t[tf2.art].type);
 		tf2.art ++);
 	ls->output_fifo = save_tf;
-- 
2.43.0


From d377c7fd3dc42d13bc5ea7cef15d91b7674f6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 23/62] fix: smlrpp succeeded after reporting an unknown
 directive

---
 v0100/ucpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 84417ef..e0f9857 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1913,6 +1913,7 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 		if (ls->flags & FAIL_SHARP) {
 			error(l, "unknown cpp directive '#%s'",
 				ls->ctok->name);
+			ret = 1;
 			goto handle_warp_ign;
 		} else {
 			struct token u;
-- 
2.43.0


From 4b9bc22b1471400584bab1d8190b7a2bedd4dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 24/62] fix: reading on after the end of the source accessed
 arrays out of bounds

---
 v0100/smlrc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index daf8b9d..5414bd0 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1192,8 +1192,13 @@ STATIC
 int EndOfFiles(void)
 {
   // if there are no including files, we're done
-  if (!--FileCnt)
+  // (also when called again after that)
+  if (FileCnt <= 1)
+  {
+    FileCnt = 0;
     return 1;
+  }
+  FileCnt--;
 
   // restore the including file's position and buffered chars
   LineNo = LineNos[FileCnt - 1];
-- 
2.43.0


From 54cd2e7bf6ae539a46a6145da4cc870bed481874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 25/62] fix: smlrpp succeeded after reporting an unfinished
 string or a truncated comment

---
 v0100/ucpp/cpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index e0f9857..eeed3ac 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -91,6 +91,8 @@ void ucpp_ouch(char *fmt, ...)
 	die();
 }
 
+static int errors_reported = 0;
+
 /*
  * report an error, with current_filename, line, and printf-like syntax
  */
@@ -98,6 +100,7 @@ void ucpp_error(long line, char *fmt, ...)
 {
 	va_list ap;
 
+	errors_reported = 1;
 	va_start(ap, fmt);
 	if (line > 0)
 		fprintf(stderr, "%s: line %ld: ", current_filename, line);
@@ -2659,7 +2662,7 @@ int main(int argc, char *argv[])
 	}
 	enter_file(&ls, ls.flags);
 	while ((r = cpp(&ls)) < CPPERR_EOF) fr = fr || (r > 0);
-	fr = fr || check_cpp_errors(&ls);
+	fr = fr || check_cpp_errors(&ls) || errors_reported;
 	free_lexer_state(&ls);
 	wipeout();
 #ifdef MEM_DEBUG
-- 
2.43.0


From 9c2a49a1ac116b17f194884def74d9d3ceef4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 26/62] fix: smlrpp read outside the old definition when a
 macro was redefined

---
 v0100/ucpp/macro.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 56db94c..40c1097 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -546,13 +546,14 @@ int handle_define(struct lexer_state *ls)
 #else
 				if (t.type != NONE) goto redef_error;
 #endif
+				continue;
 			} else if (t.type != n->cval.t[n->cval.rp]) {
 				goto redef_error;
 			} else if (t.type == MACROARG) {
 				unsigned anum = n->cval.t[n->cval.rp + 1];
 
 				if (anum >= 128U) anum = ((anum & 127U) << 8)
-					| m->cval.t[n->cval.rp + 2];
+					| n->cval.t[n->cval.rp + 2];
 				if (anum != (unsigned)t.line) goto redef_error;
 			} else if (S_TOKEN(t.type) && strcmp(ls->ctok->name,
 				   (char *)(n->cval.t + n->cval.rp + 1))) {
@@ -562,7 +563,7 @@ int handle_define(struct lexer_state *ls)
 			if (S_TOKEN(tt)) n->cval.rp += 1
 				+ strlen((char *)(n->cval.t + n->cval.rp));
 			else if (tt == MACROARG) {
-				if (n->cval.t[++ n->cval.rp] >= 128)
+				if (n->cval.t[n->cval.rp ++] >= 128)
 					n->cval.rp ++;
 			}
 #else
-- 
2.43.0


From c74c6b27059c316efd738c096ec2a1f79f5d35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 27/62] fix: smlrpp accepted macro redefinitions that differ in
 their parameters and crashed on one at the end of the file

---
 v0100/ucpp/macro.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 40c1097..7e6f4de 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -375,7 +375,14 @@ int handle_define(struct lexer_state *ls)
 #define mval	(m->val)
 #endif
 	}
-	if (next_token(ls)) goto define_end;
+	narg = -1;
+	if (next_token(ls)) {
+		if (redef) {
+			nt = 0;
+			goto redef_end;
+		}
+		goto define_end;
+	}
 	/*
 	 * Check if the token immediately following the macro name is
 	 * a left parenthesis; if so, then this is a macro with arguments.
@@ -484,7 +491,6 @@ int handle_define(struct lexer_state *ls)
 			warning(ls->line, "identifier not followed by "
 				"whitespace in #define");
 		ls->flags |= READ_AGAIN;
-		narg = 0;
 	}
 	if (redef) nt = 0;
 
@@ -585,12 +591,14 @@ int handle_define(struct lexer_state *ls)
 		}
 	}
 
+redef_end:
 	if (redef) {
 #ifdef LOW_MEM
 		if (n->cval.rp < n->cval.length) goto redef_error_2;
 #else
 		if (nt < n->val.nt) goto redef_error_2;
 #endif
+		if (narg != n->narg) goto redef_error_2;
 		return 0;
 	}
 
-- 
2.43.0


From 30753ab8357f17ee4ca1eee767aa683f0bb24a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 28/62] fix: smlrpp failed without a message after '#!' on line
 1 or '#' at the end of the file

---
 v0100/ucpp/cpp.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index eeed3ac..7a58707 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1695,9 +1695,10 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 			if (ls->flags & FAIL_SHARP) {
                                 /* LPS 20050602 - ignores '#!' if on the first line */
                                 if( ( l == 1 ) &&
-                                    ( ls->condcomp ) )
+                                    ( ls->condcomp ) &&
+                                    ( ls->ctok->type == LNOT ) )
                                 {
-					ret = 1;
+					ret = 0;
                                 }
                                 else
                                 /* LPS 20050602 */
@@ -1711,7 +1712,6 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 						ret = 0;
 					}
 				}
-				ls->flags = save_flags;
 				goto handle_warp_ign;
 			} else {
 				struct token u;
@@ -1929,9 +1929,11 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 			if (ls->flags & WARN_ANNOYING) {
 				warning(l, "rogue '#' dumped");
 			}
+			goto handle_exit3;
 		}
 	}
-	return 1;
+	/* null directive at the end of the file */
+	goto handle_exit2;
 
 handle_warp_ign:
 	while (!next_token(ls)) if (ls->ctok->type == NEWLINE) break;
-- 
2.43.0


From a81776c84f27542a0615690c08c31062d7c0491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 29/62] fix: smlrpp hid or exposed macro names in arguments of
 nested calls against the C standard's rules

---
 v0100/ucpp/macro.c | 74 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 7e6f4de..035dac8 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -725,7 +725,8 @@ define_error:
  * Void arguments are allowed in C99.
  */
 static int collect_arguments(struct lexer_state *ls, struct token_fifo *tfi,
-	int penury, struct token_fifo *atl, int narg, int vaarg, int *wr)
+	int penury, struct token_fifo *atl, int narg, int vaarg, int *wr,
+	int *from_ls)
 {
 	int ltwws = 1, npar = 0, i;
 	struct token *ct = 0;
@@ -851,6 +852,7 @@ too_many_args:
 	}
 	return 4;
 harvested:
+	*from_ls = !read_from_fifo;
 	if (i > 127 && (ls->flags & WARN_STANDARD))
 		warning(begin_line, "macro call with %d arguments (ISO "
 			"specifies 127 max)", i);
@@ -1020,6 +1022,37 @@ static char *stringify(struct token_fifo *tf)
  */
 char compile_time[12], compile_date[24];
 
+/*
+ * The replacements being rescanned, innermost first. The tokens of a
+ * replacement are in etl up to limit, those that follow the macro in tfi
+ * are copied after them.
+ */
+struct rescan {
+	struct macro *m;
+	struct token_fifo *etl, *tfi;
+	size_t limit, save_tfi;
+	struct rescan *up;
+};
+static struct rescan *rescans = 0;
+
+/*
+ * The arguments of a macro have been collected from tfi (and then from
+ * the source if from_ls): the macros whose replacements end before the
+ * closing parenthesis are over and are not nested any more.
+ */
+static void leave_macros(struct token_fifo *tfi, int from_ls)
+{
+	struct rescan *r;
+	size_t pos = tfi ? tfi->art : 0;
+
+	for (r = rescans; r && r->etl == tfi; r = r->up) {
+		if (!from_ls && pos <= r->limit) break;
+		r->m->nest = 0;
+		tfi = r->tfi;
+		pos = r->save_tfi + (pos - r->limit);
+	}
+}
+
 /*
  * substitute_macro() performs the macro substitution. It is called when
  * an identifier recognized as a macro name has been found; this function
@@ -1043,17 +1076,18 @@ int substitute_macro(struct lexer_state *ls, struct macro *m,
 	char *mname = HASH_ITEM_NAME(m);
 	struct token_fifo *atl = NULL, etl;
 	struct token t, *ct;
-	int i, save_nest = m->nest;
+	int i;
 	size_t save_art, save_tfi = 0, etl_limit;
+	struct rescan here;
 	int ltwds, ntwds, ltwws;
 	int pragma_op = 0;
 
 	/*
 	 * Reject the replacement, if we are already inside the macro.
 	 */
-	if (m->nest > reject_nested) {
+	if (m->nest) {
 		t.type = NAME;
-		t.line = ls->line;
+		t.line = reject_nested ? -1 - ls->line : ls->line;
 		t.name = mname;
 		print_token(ls, &t, 0);
 		return 0;
@@ -1153,14 +1187,14 @@ int substitute_macro(struct lexer_state *ls, struct macro *m,
 collect_args:
 	if (m->narg >= 0) {
 		unsigned long save_flags = ls->flags;
-		int wr = 0;
+		int wr = 0, from_ls = 0;
 
 		ls->flags |= LEXER;
 		if (m->narg > 0 || m->vaarg)
 			atl = getmem((m->narg + m->vaarg)
 				* sizeof(struct token_fifo));
 		switch (collect_arguments(ls, tfi, penury, atl,
-			m->narg, m->vaarg, &wr)) {
+			m->narg, m->vaarg, &wr, &from_ls)) {
 		case 1:
 			/* the macro expected arguments, but we did not
 			   find any; the last read token should be read
@@ -1192,6 +1226,7 @@ collect_args:
 			goto exit_error_1;
 		}
 		ls->flags = save_flags;
+		leave_macros(tfi, from_ls);
 	}
 
 	/*
@@ -1298,7 +1333,7 @@ collect_args:
 #define ZAP_LINE(t)	do { \
 		if ((t).type == NAME) { \
 			struct macro *zlm = HTT_get(&macros, (t).name); \
-			if (zlm && zlm->nest > reject_nested) \
+			if (zlm && zlm->nest && (t).line >= 0) \
 				(t).line = -1 - (t).line; \
 		} \
 	} while (0)
@@ -1311,7 +1346,7 @@ collect_args:
 	m->val.art = 0;
 #endif
 	etl.art = etl.nt = 0;
-	m->nest = reject_nested + 1;
+	m->nest = 1;
 	ltwds = ntwds = 0;
 #ifdef LOW_MEM
 	while (m->cval.rp < m->cval.length) {
@@ -1447,12 +1482,16 @@ collect_args:
 				struct token_fifo *save_tf;
 				unsigned long save_flags;
 				int ret = 0;
+				size_t k = etl.nt;
 
 				atl[z].art = 0;
 				save_tf = ls->output_fifo;
 				ls->output_fifo = &etl;
 				save_flags = ls->flags;
 				ls->flags |= LEXER;
+				/* the macro itself is not being replaced
+				   while its arguments are */
+				m->nest = 0;
 				while (atl[z].art < atl[z].nt) {
 					struct macro *nm;
 					struct token *cct;
@@ -1462,8 +1501,7 @@ collect_args:
 						&& cct->line >= 0
 						&& (nm = HTT_get(&macros,
 						    cct->name))
-						&& nm->nest <=
-						    (reject_nested + 1)) {
+						&& !nm->nest) {
 						ret |= substitute_macro(ls,
 							nm, atl + z, 0,
 							reject_nested + 1, l);
@@ -1473,6 +1511,8 @@ collect_args:
 					ZAP_LINE(t);
 					aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
 				}
+				m->nest = 1;
+				for (; k < etl.nt; k ++) ZAP_LINE(etl.t[k]);
 				ls->output_fifo = save_tf;
 				ls->flags = save_flags;
 				if (ret) {
@@ -1625,6 +1665,13 @@ collect_args:
 		while (tfi->art < tfi->nt) aol(etl.t, etl.nt,
 			tfi->t[tfi->art ++], TOKEN_LIST_MEMG);
 	}
+	here.m = m;
+	here.etl = &etl;
+	here.tfi = tfi;
+	here.limit = etl_limit;
+	here.save_tfi = save_tfi;
+	here.up = rescans;
+	rescans = &here;
 	ltwws = 0;
 	while (etl.art < etl_limit) {
 		struct macro *nm;
@@ -1634,7 +1681,7 @@ collect_args:
 			&& (nm = HTT_get(&macros, ct->name))) {
 			if (substitute_macro(ls, nm, &etl,
 				penury, reject_nested, l)) {
-				m->nest = save_nest;
+				rescans = here.up;
 				goto exit_error_2;
 			}
 			ltwws = 0;
@@ -1651,6 +1698,7 @@ collect_args:
 		if (ct->line >= 0) ct->line = l;
 		print_token(ls, ct, reject_nested ? 0 : l);
 	}
+	rescans = here.up;
 	if (etl.nt) freemem(etl.t);
 	if (tfi) {
 		tfi->art = save_tfi + (etl.art - etl_limit);
@@ -1662,7 +1710,7 @@ exit_macro_2:
 	for (i = 0; i < (m->narg + m->vaarg); i ++)
 		if (atl[i].nt) freemem(atl[i].t);
 	if (m->narg > 0 || m->vaarg) freemem(atl);
-	m->nest = save_nest;
+	m->nest = 0;
 	return 0;
 
 exit_error_2:
@@ -1671,7 +1719,7 @@ exit_error_1:
 	for (i = 0; i < (m->narg + m->vaarg); i ++)
 		if (atl[i].nt) freemem(atl[i].t);
 	if (m->narg > 0 || m->vaarg) freemem(atl);
-	m->nest = save_nest;
+	m->nest = 0;
 exit_error:
 	return 1;
 }
-- 
2.43.0


From b8a10b52c86abdf998f55257735e7a136d8a1baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 30/62] fix: smlrpp dropped a '%' at the beginning of a line

---
 v0100/ucpp/lexer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index 6d0b0f5..d0f1c2f 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -952,9 +952,10 @@ static inline int read_token(struct lexer_state *ls)
 					put_char(ls, c);
 				}
 			}
-		} else if (outc == '/' && !(ls->flags & LEXER)
+		} else if ((outc == '/' || outc == '%') && !(ls->flags & LEXER)
 			&& ls->condcomp) {
-			/* this is a hack: we need to dump a pending slash */
+			/* this is a hack: we need to dump a pending slash
+			   or percent */
 			put_char(ls, outc);
 			outc = 0;
 		}
-- 
2.43.0


From d1cb7b555c5de71beb7cd768e1d835a156788852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 31/62] fix: smlrpp's # operator escaped the wrong characters
 after an escaped quote in a literal

---
 v0100/ucpp/macro.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 035dac8..7d1da87 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -953,17 +953,12 @@ static inline char *stringify_string(char *x)
 		if (i) d[0] = '"';
 		for (l = 1, y = x; *y; y ++, l ++) {
 			must_quote = 0;
-			if (inside_cc) {
-				if (*y == '\\') {
-					must_quote = 1;
-					has_quoted = 1;
-				} else if (!has_quoted && *y == '\'')
-					inside_cc = 0;
-			} else if (inside_str) {
+			if (inside_cc || inside_str) {
 				if (*y == '"' || *y == '\\') must_quote = 1;
-				if (*y == '\\') has_quoted = 1;
-				else if (!has_quoted && *y == '"')
-					inside_str = 0;
+				if (has_quoted) has_quoted = 0;
+				else if (*y == '\\') has_quoted = 1;
+				else if (*y == (inside_cc ? '\'' : '"'))
+					inside_cc = inside_str = 0;
 			} else if (*y == '"') {
 				inside_str = 1;
 				must_quote = 1;
-- 
2.43.0


From b3e43d949776e1244143f5fd002a8cb636ab1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 32/62] fix: smlrpp merged L with a string made by the #
 operator

---
 v0100/ucpp/macro.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 7d1da87..b6a0dcd 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1630,8 +1630,15 @@ collect_args:
 			throw_away(ls->gf, t.name);
 			ct = &t;
 			/*
-			 * There is no need for extra spaces here.
+			 * Keep the string apart from a preceding L.
 			 */
+			if (etl.nt && !ttWHI(etl.t[etl.nt - 1].type)) {
+				struct token sp;
+
+				sp.type = OPT_NONE;
+				sp.line = ls->line;
+				aol(etl.t, etl.nt, sp, TOKEN_LIST_MEMG);
+			}
 		}
 		t = *ct;
 		ZAP_LINE(t);
-- 
2.43.0


From 250bb1c7d265e6546e8a36b13f9e29db00a55912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 33/62] fix: smlrpp's ## operator with an empty left operand
 pasted the token before it

---
 v0100/ucpp/macro.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index b6a0dcd..de56d16 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1075,6 +1075,7 @@ int substitute_macro(struct lexer_state *ls, struct macro *m,
 	size_t save_art, save_tfi = 0, etl_limit;
 	struct rescan here;
 	int ltwds, ntwds, ltwws;
+	int void_left = 0;
 	int pragma_op = 0;
 
 	/*
@@ -1412,7 +1413,8 @@ collect_args:
 			int need_opt_space = 1;
 #endif
 			z = ct->line;	/* the argument number is there */
-			if (ltwds && atl[z].nt != 0 && etl.nt) {
+			if (ltwds && !void_left && atl[z].nt != 0
+				&& etl.nt) {
 				if (concat_token(etl.t + (-- etl.nt),
 					atl[z].t)) {
 					warning(ls->line, "operator '##' "
@@ -1525,6 +1527,8 @@ collect_args:
 				t.line = ls->line;
 				aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
 			}
+			/* the left operand of a following ## may be void */
+			void_left = (!ltwds || void_left) && atl[z].nt == 0;
 			ltwds = 0;
 			continue;
 		}
@@ -1560,7 +1564,7 @@ collect_args:
 #endif
 			ltwds = 1;
 			continue;
-		} else if (ltwds && etl.nt != 0) {
+		} else if (ltwds && !void_left && etl.nt != 0) {
 			if (concat_token(etl.t + (-- etl.nt), ct)) {
 				warning(ls->line, "operator '##' produced "
 					"the invalid token '%s%s'",
@@ -1588,7 +1592,7 @@ collect_args:
 				ct = &t;
 			}
 		}
-		ltwds = 0;
+		ltwds = void_left = 0;
 #ifdef LOW_MEM
 		if ((ct->type == SHARP || ct->type == DIG_SHARP)
 			&& next < m->cval.length)
-- 
2.43.0


From 9684259b953447b636f94428807c074101af5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 34/62] fix: smlrpp expanded a macro name again that it had
 already refused to when it went through ##

---
 v0100/ucpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index de56d16..5e11bdf 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1471,7 +1471,7 @@ collect_args:
 			if (ltwds || ntwds) {
 				while (atl[z].art < atl[z].nt) {
 					t = atl[z].t[atl[z].art ++];
-					t.line = ls->line;
+					if (t.line >= 0) t.line = ls->line;
 					ZAP_LINE(t);
 					aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
 				}
-- 
2.43.0


From 9c6db12638db1412093314c9d9af0c80d2655c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 35/62] fix: smlrpp merged a token made by the ## operator with
 the next one

---
 v0100/ucpp/macro.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 5e11bdf..799bb33 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1075,7 +1075,7 @@ int substitute_macro(struct lexer_state *ls, struct macro *m,
 	size_t save_art, save_tfi = 0, etl_limit;
 	struct rescan here;
 	int ltwds, ntwds, ltwws;
-	int void_left = 0;
+	int void_left = 0, merged;
 	int pragma_op = 0;
 
 	/*
@@ -1592,6 +1592,7 @@ collect_args:
 				ct = &t;
 			}
 		}
+		merged = ltwds && ct == &t;
 		ltwds = void_left = 0;
 #ifdef LOW_MEM
 		if ((ct->type == SHARP || ct->type == DIG_SHARP)
@@ -1647,6 +1648,12 @@ collect_args:
 		t = *ct;
 		ZAP_LINE(t);
 		aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
+		if (merged && !ntwds) {
+			/* keep the new token apart from the next one */
+			t.type = OPT_NONE;
+			t.line = ls->line;
+			aol(etl.t, etl.nt, t, TOKEN_LIST_MEMG);
+		}
 	}
 #ifdef LOW_MEM
 	m->cval.rp = save_art;
-- 
2.43.0


From 37b2a631dfcc67d7b027f790c5b4d34b5eb3c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 36/62] fix: smlrpp split a preprocessing number at a period
 after an e or p

---
 v0100/ucpp/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index d0f1c2f..2ec84d3 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -248,6 +248,7 @@ static struct machine_state {
 
 	{ S_NUMBER2,	{ ANY },	FRZ(STO(NUMBER))	},
 	{ S_NUMBER2,	{ ALP, NUM },	PUT(S_NUMBER)		},
+	{ S_NUMBER2,	{ '.' },	PUT(S_NUMBER)		},
 	{ S_NUMBER2,	{ '+', '-' },	PUT(S_NUMBER)		},
 
 	/* after a < */
-- 
2.43.0


From 0f784755da30648a1ae415b199a19beb9a9f8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 37/62] fix: smlrpp crashed on #include without a file name

---
 v0100/ucpp/cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 7a58707..7b962bd 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1314,7 +1314,7 @@ include_macro2:
 		}
 		aol(tf2.t, tf2.nt, *ct, TOKEN_LIST_MEMG);
 	}
-	freemem(tf.t);
+	if (tf.nt) freemem(tf.t);
 	ls->output_fifo = save_tf;
 	for (x = 0; (size_t)x < tf2.nt && ttWHI(tf2.t[x].type); x ++);
 	for (y = tf2.nt - 1; y >= 0 && ttWHI(tf2.t[y].type); y --);
-- 
2.43.0


From 3c6e79b4e932c688762ab3f77bd0c66e170a263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 38/62] fix: smlrpp wrote outside its nesting flags after more
 than 63 nested conditionals

---
 v0100/ucpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 7b962bd..97be4cf 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1960,6 +1960,7 @@ handle_exit2:
 	return ret;
 too_many_if:
 	error(l, "too many levels of conditional inclusion (max 63)");
+	ls->ifnest --;
 	ret = 1;
 	goto handle_warp;
 #undef condfset
-- 
2.43.0


From b8249025e24516a159b88de16ff796274638184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 39/62] fix: smlrpp crashed on -D, -U or -I as the last
 argument

---
 v0100/ucpp/cpp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 97be4cf..aa0b8be 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2413,10 +2413,13 @@ static int parse_opt(int argc, char *argv[], struct lexer_state *ls)
 			print_asserts = 1;
 		} else if (!strcmp(argv[i], "-zI")) {
 			with_std_incpath = 0;
-		} else if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "-J")) {
-			i ++;
-		} else if (!strcmp(argv[i], "-D") || !strcmp(argv[i], "-U")) {
-			i ++;
+		} else if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "-J")
+			|| !strcmp(argv[i], "-D") || !strcmp(argv[i], "-U")) {
+			if ((++ i) >= argc) {
+				error(-1, "missing argument after %s",
+					argv[i - 1]);
+				return 2;
+			}
 		} else if (!strcmp(argv[i], "-o")) {
 			if ((++ i) >= argc) {
 				error(-1, "missing filename after -o");
-- 
2.43.0


From fa318b05102716429bf30a5004bf6b62018c81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 40/62] fix: the compiler accepted '}' instead of ';' after the
 initializer of a local variable

---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 5414bd0..02cdcc8 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8355,6 +8355,9 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
             tok = GetToken();
           }
 
+          if ((tok != ',') & (tok != ';'))
+            errorUnexpectedToken(tok);
+
           if (!isStruct)
           {
             // This is a special case for initialization of integers smaller than int.
-- 
2.43.0


From 13ecdf3e87c2bd232e360cabd2e437357ec4eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 41/62] fix: smlrpp gave ?: in #if the signedness of the
 selected operand only

---
 v0100/ucpp/eval.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 1bbd06d..96f9d11 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -574,6 +574,24 @@ static int op_prec(int op)
 	return 666;
 }
 
+/*
+ * Get the signedness of the result of a binary operator.
+ */
+static int op_sign(int op, int sign1, int sign2)
+{
+	switch (op) {
+	case STAR:	case SLASH:	case PCT:
+	case PLUS:	case MINUS:	case AND:
+	case CIRC:	case OR:
+		return sign1 && sign2;
+	case LSH:	case RSH:
+		return sign1;
+	case COMMA:
+		return sign2;
+	}
+	return 1;
+}
+
 /*
  * Perform the hard work of evaluation.
  *
@@ -627,8 +645,8 @@ eval_loop:
 			if ((ct->type == LOR && boolval(top))
 				|| (ct->type == LAND && !boolval(top))) {
 				tr = eval_shrd(tf, bp, 0);
+				top.sign = 1;
 				if (do_eval) {
-					top.sign = 1;
 					if (ct->type == LOR)
 						top.u.sv = big_s_fromint(1);
 					if (ct->type == LAND)
@@ -638,6 +656,9 @@ eval_loop:
 				tr = eval_shrd(tf, bp, do_eval);
 				if (do_eval)
 					top = eval_opbin(ct->type, top, tr);
+				else
+					top.sign = op_sign(ct->type,
+						top.sign, tr.sign);
 			}
 			goto eval_loop;
 		}
@@ -658,7 +679,11 @@ eval_loop:
 			r2 = eval_shrd(tf, bp, qv ? 0 : do_eval);
 			if (do_eval) {
 				if (qv) top = r1; else top = r2;
+				/* the result is as signed as both together */
+				if (top.sign && (!r1.sign || !r2.sign))
+					top.u.uv = big_s_to_u(top.u.sv);
 			}
+			top.sign = r1.sign && r2.sign;
 			goto eval_loop;
 		}
 	}
-- 
2.43.0


From bf0cd43c8a7ac177570993210912f4330037f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 42/62] fix: smlrpp took 0x without digits in #if for zero

---
 v0100/ucpp/eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 96f9d11..426339d 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -315,6 +315,11 @@ static ppval pp_strtoconst(char *refc)
 		c ++;
 		if (*c == 'x' || *c == 'X') {
 			c ++;
+			if (!HEXAD(*c)) {
+				error(eval_line, "invalid integer constant '%s'",
+					refc);
+				throw(eval_exception);
+			}
 			d = big_u_hexconst(c, &ru, &rs, &sp);
 		} else {
 			d = big_u_octconst(c, &ru, &rs, &sp);
-- 
2.43.0


From be5f02dab231f6148630bdec8ecde19b50cc79ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 43/62] fix: smlrpp took a malformed 'defined' in #if for an
 undefined name

---
 v0100/ucpp/cpp.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index aa0b8be..1efd838 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -977,27 +977,26 @@ static int handle_if(struct lexer_state *ls)
 
 		ct = tf.t + (tf.art ++);
 		if (ct->type == NAME && !strcmp(ct->name, "defined")) {
-			if (tf.art >= tf.nt) goto store_token;
+			if (tf.art >= tf.nt) goto defined_error;
 			nidx = tf.art;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
 			if (tf.t[nidx].type == NAME) {
 				eidx = nidx;
 				goto check_macro;
 			}
-			if (tf.t[nidx].type != LPAR) goto store_token;
-			if (++ nidx >= tf.nt) goto store_token;
+			if (tf.t[nidx].type != LPAR) goto defined_error;
+			if (++ nidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
-			if (tf.t[nidx].type != NAME) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
+			if (tf.t[nidx].type != NAME) goto defined_error;
 			eidx = nidx + 1;
-			if (eidx >= tf.nt) goto store_token;
+			if (eidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[eidx].type))
-				if (++ eidx >= tf.nt) goto store_token;
-			if (tf.t[eidx].type != RPAR) goto store_token;
+				if (++ eidx >= tf.nt) goto defined_error;
+			if (tf.t[eidx].type != RPAR) goto defined_error;
 			goto check_macro;
 		}
-	store_token:
 		aol(tf1.t, tf1.nt, *ct, TOKEN_LIST_MEMG);
 		continue;
 
@@ -1007,6 +1006,13 @@ static int handle_if(struct lexer_state *ls)
 		rt.name = m ? "1L" : "0L";
 		aol(tf1.t, tf1.nt, rt, TOKEN_LIST_MEMG);
 		tf.art = eidx + 1;
+		continue;
+
+	defined_error:
+		error(l, "syntax error for 'defined' in #if");
+		freemem(tf.t);
+		if (tf1.nt) freemem(tf1.t);
+		return -1;
 	}
 	freemem(tf.t);
 	if (tf1.nt == 0) {
-- 
2.43.0


From 7b454dfceb5154bea8bd53b997423cb1a1b10777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 44/62] fix: smlrpp ignored the file name of #line in included
 files

---
 v0100/ucpp/cpp.c   | 27 +++++++++++++++++++++------
 v0100/ucpp/cpp.h   |  1 +
 v0100/ucpp/macro.c |  3 +--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 1efd838..f0542fe 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -70,6 +70,7 @@ static char *system_assertions_def[] = { STD_ASSERT, 0 };
 #endif
 
 char *current_filename = 0, *current_long_filename = 0;
+static int filename_by_line = 0;	/* current_filename comes from #line */
 static int current_incdir = -1;
 
 #ifndef NO_UCPP_ERROR_FUNCTIONS
@@ -301,6 +302,7 @@ void set_init_filename(char *x, int real_file)
 	if (current_filename) freemem(current_filename);
 	current_filename = sdup(x);
 	current_long_filename = 0;
+	filename_by_line = 0;
 	current_incdir = -1;
 	if (real_file) {
 		protect_detect.macro = 0;
@@ -438,7 +440,7 @@ static void close_input(struct lexer_state *ls)
 static struct file_context {
 	struct lexer_state ls;
 	char *name, *long_name;
-	int incdir;
+	int incdir, by_line;
 } *ls_stack;
 static size_t ls_depth = 0;
 
@@ -449,6 +451,7 @@ static void push_file_context(struct lexer_state *ls)
 	fc.name = current_filename;
 	fc.long_name = current_long_filename;
 	fc.incdir = current_incdir;
+	fc.by_line = filename_by_line;
 	mmv(&(fc.ls), ls, sizeof(struct lexer_state));
 	aol(ls_stack, ls_depth, fc, LS_STACK_MEMG);
 	ls_depth --;
@@ -469,6 +472,7 @@ static void pop_file_context(struct lexer_state *ls)
 	current_filename = ls_stack[ls_depth].name;
 	current_long_filename = ls_stack[ls_depth].long_name;
 	current_incdir = ls_stack[ls_depth].incdir;
+	filename_by_line = ls_stack[ls_depth].by_line;
 	if (ls_depth == 0) {
 		freemem(ls_stack);
 		freemem(protect_detect_stack);
@@ -488,7 +492,8 @@ struct stack_context *report_context(void)
 	sc = getmem((ls_depth + 1) * sizeof(struct stack_context));
 	for (i = 0; i < ls_depth; i ++) {
 		sc[i].name = ls_stack[ls_depth - i - 1].name;
-		sc[i].long_name = ls_stack[ls_depth - i - 1].long_name;
+		sc[i].long_name = ls_stack[ls_depth - i - 1].by_line ? 0
+			: ls_stack[ls_depth - i - 1].long_name;
 		sc[i].line = ls_stack[ls_depth - i - 1].ls.line - 1;
 	}
 	sc[ls_depth].line = -1;
@@ -540,13 +545,21 @@ void free_lexer_state(struct lexer_state *ls)
 	}
 }
 
+/*
+ * The name that __FILE__ and the #line directives of the output show.
+ */
+char *presumed_filename(void)
+{
+	return current_long_filename && !filename_by_line ?
+		current_long_filename : current_filename;
+}
+
 /*
  * Print line information.
  */
 static void print_line_info(struct lexer_state *ls, unsigned long flags)
 {
-	char *fn = current_long_filename ?
-		current_long_filename : current_filename;
+	char *fn = presumed_filename();
 	char *b, *d;
 
 	b = getmem(50 + strlen(fn));
@@ -571,8 +584,7 @@ static void print_line_info(struct lexer_state *ls, unsigned long flags)
  */
 int enter_file(struct lexer_state *ls, unsigned long flags)
 {
-	char *fn = current_long_filename ?
-		current_long_filename : current_filename;
+	char *fn = presumed_filename();
 
 	if (!(flags & LINE_NUM)) return 0;
 	if ((flags & LEXER) && !(flags & TEXT_OUTPUT)) {
@@ -1406,6 +1418,7 @@ do_include_next:
 	ls->input = f;
 #endif
 	current_filename = fname;
+	filename_by_line = 0;
 	enter_file(ls, flags);
 	return 0;
 }
@@ -1506,6 +1519,7 @@ static int handle_line(struct lexer_state *ls, unsigned long flags)
 			}
 			if (current_filename) freemem(current_filename);
 			current_filename = fname;
+			filename_by_line = 1;
 		}
 		for (i ++; i < tf2.nt && ttMWS(tf2.t[i].type); i ++);
 		if (i < tf2.nt && (ls->flags & WARN_STANDARD)) {
@@ -2256,6 +2270,7 @@ void wipeout(void)
 	if (current_filename) freemem(current_filename);
 	current_filename = 0;
 	current_long_filename = 0;
+	filename_by_line = 0;
 	current_incdir = -1;
 	protect_detect.state = 0;
 	if (protect_detect.macro) freemem(protect_detect.macro);
diff --git a/v0100/ucpp/cpp.h b/v0100/ucpp/cpp.h
index 2bb707a..99f2820 100644
--- a/v0100/ucpp/cpp.h
+++ b/v0100/ucpp/cpp.h
@@ -263,6 +263,7 @@ int check_cpp_errors(struct lexer_state *);
 void add_incpath(char *);
 void init_tables(int);
 int enter_file(struct lexer_state *, unsigned long);
+char *presumed_filename(void);
 int cpp(struct lexer_state *);
 void set_identifier_char(int c);
 void unset_identifier_char(int c);
diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 799bb33..d0b0d24 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1113,8 +1113,7 @@ int substitute_macro(struct lexer_state *ls, struct macro *m,
 		case MAC_FILE:
 			t.type = STRING;
 			t.line = l;
-			cfn = current_long_filename ?
-				current_long_filename : current_filename;
+			cfn = presumed_filename();
 			bbuf = getmem(2 * strlen(cfn) + 3);
 			{
 				char *c, *d;
-- 
2.43.0


From fa9b122f50f99a687be5b741b2656f1f3621c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 45/62] fix: smlrpp took line numbers with leading zeros in
 #line for octal

---
 v0100/ucpp/cpp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index f0542fe..f3dbdba 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1488,7 +1488,13 @@ static int handle_line(struct lexer_state *ls, unsigned long flags)
 			if (ls->flags & WARN_STANDARD)
 				warning(l, "non-standard line number in #line");
 	if (catch(eval_exception)) goto line_macro_err;
-	z = strtoconst(tf2.t[tf2.art].name);
+	{
+		char *d = tf2.t[tf2.art].name;
+
+		/* a digit sequence is decimal even if it begins with 0 */
+		while (*d == '0' && d[1] >= '0' && d[1] <= '9') d ++, j --;
+		z = strtoconst(d);
+	}
 	if (j > 10 || z > 2147483647U) {
 		error(l, "out-of-bound line number for #line");
 		goto line_macro_err;
-- 
2.43.0


From 9c340a461c68d2f70c1afbb2826ccef21c22f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 46/62] fix: smlrpp looked for included files in the directory
 of the name given by #line

---
 v0100/ucpp/cpp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index f3dbdba..8ecb328 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -71,6 +71,7 @@ static char *system_assertions_def[] = { STD_ASSERT, 0 };
 
 char *current_filename = 0, *current_long_filename = 0;
 static int filename_by_line = 0;	/* current_filename comes from #line */
+static char *main_filename = 0;		/* the name of the main input file */
 static int current_incdir = -1;
 
 #ifndef NO_UCPP_ERROR_FUNCTIONS
@@ -301,6 +302,8 @@ void set_init_filename(char *x, int real_file)
 {
 	if (current_filename) freemem(current_filename);
 	current_filename = sdup(x);
+	if (main_filename) freemem(main_filename);
+	main_filename = sdup(x);
 	current_long_filename = 0;
 	filename_by_line = 0;
 	current_incdir = -1;
@@ -688,7 +691,7 @@ static FILE *find_file(char *name, int localdir)
 	if (localdir) {
 		int i;
 		char *rfn = current_long_filename ? current_long_filename
-			: current_filename;
+			: main_filename;
 
 		for (i = strlen(rfn) - 1; i >= 0; i --)
 			if (rfn[i] == '/' || rfn[i] == '\\') break;
@@ -2275,6 +2278,8 @@ void wipeout(void)
 	}
 	if (current_filename) freemem(current_filename);
 	current_filename = 0;
+	if (main_filename) freemem(main_filename);
+	main_filename = 0;
 	current_long_filename = 0;
 	filename_by_line = 0;
 	current_incdir = -1;
-- 
2.43.0


From c1efd1ba25aae82da7a83f574e6c7b1c22bd0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 47/62] fix: line numbers in #line above the target's INT_MAX
 were errors, with leading zeros they were octal

---
 v0100/smlrc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 02cdcc8..42df3cf 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2116,10 +2116,16 @@ int GetToken(void)
         // DONE: should also support the following C89 form:
         // # line linenum filename-opt
 
-        if (GetNumber() != tokNumInt)
-          //error("Invalid line number in preprocessor output\n");
-          errorDirective();
-        line = TokenValueInt;
+        // The line number is decimal and not limited by the target's int
+        line = 0;
+        while (isdigit(*p & 0xFFu))
+        {
+          if (line > (INT_MAX - 9) / 10)
+            //error("Invalid line number in preprocessor output\n");
+            errorDirective();
+          line = line * 10 + (*p - '0');
+          ShiftCharN(1);
+        }
 
         SkipSpace(0);
 
-- 
2.43.0


From e9da16e70f6f61a3c4dbca5ef6a1ab4b1479d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 48/62] fix: smlrpp's #include "f" read the file that an
 earlier <f> had found although a closer one exists

---
 v0100/ucpp/cpp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 8ecb328..f929f24 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -712,7 +712,7 @@ static FILE *find_file(char *name, int localdir)
 			ff = HTT_get(&found_files, s);
 		} else ff = HTT_get(&found_files, name);
 	}
-	if (!ff) {
+	if (!ff && !localdir) {
 		struct found_file_sys *ffs = HTT_get(&found_files_sys, name);
 
 		if (ffs) {
@@ -751,6 +751,18 @@ static FILE *find_file(char *name, int localdir)
 		freemem(s);
 		s = 0;
 	}
+	if (localdir) {
+		struct found_file_sys *ffs = HTT_get(&found_files_sys, name);
+
+		if (ffs) {
+			ff = ffs->rff;
+			incdir = ffs->incdir;
+			del_found_file(protect_detect.ff);
+			protect_detect.ff = 0;
+			nffa = 0;
+			goto found_file_cache;
+		}
+	}
 	for (i = 0; (size_t)i < include_path_nb; i ++) {
 		size_t ni = strlen(include_path[i]);
 
-- 
2.43.0


From bb092d0d2fcdff6309f917175ec6d90729cefe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 49/62] fix: the compiler's own #define damaged string literals
 that contain spaces or //

---
 v0100/smlrc.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 42df3cf..f16cb1b 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2239,6 +2239,7 @@ int GetToken(void)
 #ifndef NO_PREPROCESSOR
       if (!strcmp(TokenIdentName, "define"))
       {
+        int quot = 0;
         // Skip space and get macro name
         SkipSpace(0);
         GetIdent();
@@ -2264,9 +2265,25 @@ int GetToken(void)
         // accumulate the macro expansion text
         while (!strchr("\r\n", *p))
         {
-          AddMacroExpansionChar(*p);
+          int c = *p;
+          AddMacroExpansionChar(c);
           ShiftCharN(1);
-          if (*p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
+          // keep string literals and character constants as they are
+          if (!quot)
+          {
+            if (c == '"' || c == '\'')
+              quot = c;
+          }
+          else if (c == quot)
+          {
+            quot = 0;
+          }
+          else if (c == '\\' && !strchr("\r\n", *p))
+          {
+            AddMacroExpansionChar(*p);
+            ShiftCharN(1);
+          }
+          if (!quot && *p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
           {
             SkipSpace(0);
             AddMacroExpansionChar(' ');
-- 
2.43.0


From ef6de096acc0759d7f78ffd8cdc292979ffd728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 50/62] fix: smlrpp's cpp.c had outgrown smlrc's symbol table
 (presumed_filename becomes a macro)

---
 v0100/ucpp/cpp.c | 11 +----------
 v0100/ucpp/cpp.h |  5 ++++-
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index f929f24..2a46294 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -70,7 +70,7 @@ static char *system_assertions_def[] = { STD_ASSERT, 0 };
 #endif
 
 char *current_filename = 0, *current_long_filename = 0;
-static int filename_by_line = 0;	/* current_filename comes from #line */
+int filename_by_line = 0;	/* current_filename comes from #line */
 static char *main_filename = 0;		/* the name of the main input file */
 static int current_incdir = -1;
 
@@ -548,15 +548,6 @@ void free_lexer_state(struct lexer_state *ls)
 	}
 }
 
-/*
- * The name that __FILE__ and the #line directives of the output show.
- */
-char *presumed_filename(void)
-{
-	return current_long_filename && !filename_by_line ?
-		current_long_filename : current_filename;
-}
-
 /*
  * Print line information.
  */
diff --git a/v0100/ucpp/cpp.h b/v0100/ucpp/cpp.h
index 99f2820..c4606d6 100644
--- a/v0100/ucpp/cpp.h
+++ b/v0100/ucpp/cpp.h
@@ -263,7 +263,6 @@ int check_cpp_errors(struct lexer_state *);
 void add_incpath(char *);
 void init_tables(int);
 int enter_file(struct lexer_state *, unsigned long);
-char *presumed_filename(void);
 int cpp(struct lexer_state *);
 void set_identifier_char(int c);
 void unset_identifier_char(int c);
@@ -284,6 +283,10 @@ extern int no_special_macros, system_macros,
 extern int c99_compliant, c99_hosted;
 extern FILE *emit_output;
 extern char *current_filename, *current_long_filename;
+extern int filename_by_line;
+/* the name that __FILE__ and the #line directives of the output show */
+#define presumed_filename() (current_long_filename && !filename_by_line ? \
+	current_long_filename : current_filename)
 extern char *operators_name[];
 extern struct protect {
 	char *macro;
-- 
2.43.0


From d1355d54ded4915dd301b9b82c2e4db7eec684dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 51/62] fix: smlrc's array dimensions referred to the
 identifier being declared instead of the outer one

---
 v0100/smlrc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index f16cb1b..12e1c68 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -7156,6 +7156,7 @@ int ParseDerived(int tok)
 {
   int stars = 0;
   int params = 0;
+  int identPtr = SyntaxStackCnt; // where the declared identifier will be
 #ifndef MIPS
 #ifdef CAN_COMPILE_32BIT
   int isInterrupt = 0;
@@ -7239,6 +7240,10 @@ int ParseDerived(int tok)
     int allowEmptyDimension = 1;
     if (SyntaxStack0[SyntaxStackCnt - 1] == ')')
       errorUnexpectedToken('['); // function returning array
+    // The scope of the declared identifier begins after its declarator, and so
+    // the dimensions refer to another (outer) identifier, if to any,
+    // in cases like "int arr[sizeof arr];"
+    SyntaxStack0[identPtr] = tokVoid;
     while (tok == '[')
     {
       int oldsp = SyntaxStackCnt;
@@ -7253,6 +7258,7 @@ int ParseDerived(int tok)
       DeleteSyntax(oldsp, 1);
       allowEmptyDimension = 0;
     }
+    SyntaxStack0[identPtr] = tokIdent;
   }
 
   while (stars--)
-- 
2.43.0


From 422e972580d07892880a88e48a387c2957af0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 52/62] fix: smlrl's -unreal relocation table listed fields of
 sections that are not loaded

---
 v0100/smlrl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 6c2dc37..797f822 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1493,7 +1493,8 @@ void FindAllSections(void)
       if (!(pSect->h.sh_flags & SHF_ALLOC))
       {
         if (OutputFormat == FormatDosExeUnreal &&
-            pSect->h.sh_type == SHT_REL)
+            pSect->h.sh_type == SHT_REL &&
+            (pMeta->pSections[pSect->h.sh_info].h.sh_flags & SHF_ALLOC))
         {
           // Calculate the size of the new .relod section (count only 32-bit non-PC-relative relocations).
           uint32 relIdx;
@@ -2249,7 +2250,8 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
           for (sectIdx = 0; sectIdx < pMeta->SectionCnt; sectIdx++)
           {
             tElfSection* pRelSect = &pMeta->pSections[sectIdx];
-            if (pRelSect->h.sh_type == SHT_REL)
+            if (pRelSect->h.sh_type == SHT_REL &&
+                (pMeta->pSections[pRelSect->h.sh_info].h.sh_flags & SHF_ALLOC))
             {
               // Handle only 32-bit non-PC-relative relocations.
               uint32 relIdx;
-- 
2.43.0


From 433bfd3720e986a5a98505d99f4716e2e4e4cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 53/62] fix: smlrl placed sections that are not loaded into the
 program if named like a loaded one

---
 v0100/smlrl.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 797f822..61b872c 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -2087,7 +2087,8 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
       {
         tElfSection* pSect = &pMeta->pSections[sectIdx];
         tElfSection* pRelSect = NULL;
-        if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+        if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+            strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
         for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -2553,7 +2554,8 @@ void RwAout(void)
         tElfSection* pRelSect = NULL;
         if (pSect->h.sh_type != SHT_PROGBITS)
           continue;
-        if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+        if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+            strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
         for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -3279,7 +3281,8 @@ void RwPe(void)
             const char* sectName;
             if (pSect->h.sh_type != SHT_PROGBITS)
               continue;
-            if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+            if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+                strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
               continue;
             // Find relocations for this section, if any
             for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -3591,7 +3594,8 @@ void GenerateMap(void)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
             uint32 fofs, addr;
-            if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSymSect->h.sh_name))
+            if (!(pSymSect->h.sh_flags & SHF_ALLOC) ||
+                strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSymSect->h.sh_name))
               continue;
             fofs = pSymSect->OutFileOffset + pSym->st_value;
             addr = pSymSect->OutOffset + pSym->st_value;
-- 
2.43.0


From 3933da666b5ff29c813182a491cccb72efc85a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 54/62] fix: smlrl followed indices, offsets and sizes in
 damaged objects and archives without checking them

---
 v0100/smlrl.c | 101 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 87 insertions(+), 14 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 61b872c..0cc6d18 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -800,6 +800,11 @@ void errArchive(void)
   error("Corrupted archive\n");
 }
 
+void errObject(void)
+{
+  error("Corrupted object file\n");
+}
+
 void* Malloc(size_t size)
 {
   void* p = malloc(size);
@@ -928,12 +933,11 @@ int RelCmp(const void* p1_, const void* p2_)
   return 0;
 }
 
-// TBD??? Thoroughly validate ELF object files, specifically sections
-void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
+void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs, uint32 objSize)
 {
   Elf32_Ehdr elfHdr;
   Elf32_Shd sectHdr;
-  uint32 sectIdx;
+  uint32 sectIdx, sectNamesSize;
   int unsupported = 0;
 
   memset(pMeta, 0, sizeof *pMeta);
@@ -968,13 +972,24 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
 
   if (elfHdr.e_shoff == 0 || elfHdr.e_shstrndx == 0)
     error("Invalid file\n");
+  if (elfHdr.e_shoff > objSize ||
+      elfHdr.e_shnum > (objSize - elfHdr.e_shoff) / sizeof sectHdr ||
+      elfHdr.e_shstrndx >= elfHdr.e_shnum)
+    errObject();
   Fseek(file, objOfs + elfHdr.e_shoff + elfHdr.e_shstrndx * sizeof sectHdr, SEEK_SET);
   Fread(&sectHdr, sizeof sectHdr, file);
 
-  pMeta->pSectNames = Malloc(sectHdr.sh_size);
+  sectNamesSize = sectHdr.sh_size;
+  if (!sectNamesSize ||
+      sectHdr.sh_offset > objSize ||
+      sectNamesSize > objSize - sectHdr.sh_offset)
+    errObject();
+  pMeta->pSectNames = Malloc(sectNamesSize);
 
   Fseek(file, objOfs + sectHdr.sh_offset, SEEK_SET);
-  Fread(pMeta->pSectNames, sectHdr.sh_size, file);
+  Fread(pMeta->pSectNames, sectNamesSize, file);
+  if (pMeta->pSectNames[sectNamesSize - 1])
+    errObject();
 
   pMeta->pSections = Malloc((elfHdr.e_shnum + 1) * sizeof(tElfSection));
 
@@ -1005,6 +1020,13 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
     if (sectHdr.sh_type == SHT_NULL)
       memset(&sectHdr, 0, sizeof sectHdr);
 
+    if (sectHdr.sh_name >= sectNamesSize)
+      errObject();
+    if (sectHdr.sh_type != SHT_NOBITS &&
+        (sectHdr.sh_offset > objSize ||
+         sectHdr.sh_size > objSize - sectHdr.sh_offset))
+      errObject();
+
     if (sectHdr.sh_name)
       name = pMeta->pSectNames + sectHdr.sh_name;
 
@@ -1018,6 +1040,12 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
        sectHdr.sh_type != SHT_NOBITS &&
        sectHdr.sh_type != SHT_REL;
 
+    // Only code and data get loaded
+    unsupported |=
+       (sectHdr.sh_flags & SHF_ALLOC) &&
+       sectHdr.sh_type != SHT_PROGBITS &&
+       sectHdr.sh_type != SHT_NOBITS;
+
     if (sectHdr.sh_type < sizeof typeNames / sizeof typeNames[0])
       typeName = typeNames[sectHdr.sh_type];
 
@@ -1051,10 +1079,7 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
     {
     case SHT_SYMTAB:
       {
-        uint32 cnt, sz, ofs;
-#ifndef SUPPORT_LOCAL_RELS
-        uint32 i;
-#endif
+        uint32 i, cnt, sz, ofs;
 
         cnt = pSect->h.sh_size / sizeof(Elf32_Sym);
         if (!cnt ||
@@ -1075,6 +1100,21 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
         Fseek(file, objOfs + ofs, SEEK_SET);
         Fread(pSect->d.pSym, sz, file);
 
+        if (pSect->h.sh_link >= pMeta->SectionCnt ||
+            pMeta->pSections[pSect->h.sh_link].h.sh_type != SHT_STRTAB)
+          errObject();
+        for (i = 0; i < cnt; i++)
+        {
+          Elf32_Sym* pSym = &pSect->d.pSym[i];
+          if (pSym->st_name &&
+              pSym->st_name >= pMeta->pSections[pSect->h.sh_link].h.sh_size)
+            errObject();
+          // Absolute, common, etc symbols aren't in any section
+          if (pSym->st_shndx >= pMeta->SectionCnt &&
+              (pSym->st_shndx < SHN_LORESERVE || (pSym->st_info & 0xF) == STT_SECTION))
+            errObject();
+        }
+
 #ifndef SUPPORT_LOCAL_RELS
         // Collect all local section symbols and throw away other local symbols
         for (cnt = i = 0; i < pSect->h.sh_info; i++)
@@ -1109,6 +1149,8 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
       pSect->d.pStr = Malloc(pSect->h.sh_size);
       Fseek(file, objOfs + pSect->h.sh_offset, SEEK_SET);
       Fread(pSect->d.pStr, pSect->h.sh_size, file);
+      if (pSect->h.sh_size && pSect->d.pStr[pSect->h.sh_size - 1])
+        errObject();
       break;
 
     case SHT_REL:
@@ -1122,6 +1164,27 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
       Fread(pSect->d.pRel, pSect->h.sh_size, file);
       // Sort the relocations by offset, so relocation can be done while copying sections
       qsort(pSect->d.pRel, pSect->h.sh_entsize, sizeof(Elf32_Rel), &RelCmp);
+
+      if (pSect->h.sh_link >= pMeta->SectionCnt ||
+          pMeta->pSections[pSect->h.sh_link].h.sh_type != SHT_SYMTAB ||
+          pSect->h.sh_info >= pMeta->SectionCnt ||
+          pMeta->pSections[pSect->h.sh_info].h.sh_type != SHT_PROGBITS)
+        errObject();
+      {
+        uint32 i, symCnt = pMeta->pSections[pSect->h.sh_link].h.sh_size / sizeof(Elf32_Sym);
+        uint32 sz = pMeta->pSections[pSect->h.sh_info].h.sh_size;
+        for (i = 0; i < pSect->h.sh_entsize; i++)
+        {
+          Elf32_Rel* pRel = &pSect->d.pRel[i];
+          uint32 relType = pRel->r_info & 0xFFu;
+          uint32 width = (relType == R_386_32 || relType == R_386_PC32) ? 4 :
+                         (relType == R_386_16 || relType == R_386_PC16) ? 2 : 1;
+          if ((pRel->r_info >> 8) >= symCnt ||
+              pRel->r_offset > sz ||
+              width > sz - pRel->r_offset)
+            errObject();
+        }
+      }
       break;
     }
   } // endof for
@@ -1166,13 +1229,16 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
   }
 }
 
-// TBD??? Thoroughly validate archive files
+long fsize(FILE* binaryStream);
+
 void loadMeta(const char* FileName)
 {
   FILE* f = Fopen(FileName, "rb");
   char magic[8];
   uint32 ofs = sizeof magic;
+  uint32 size = fsize(f);
 
+  Fseek(f, 0, SEEK_SET);
   Fread(magic, sizeof magic, f);
 
   if (!memcmp(magic, "!<arch>\n", sizeof magic))
@@ -1224,6 +1290,9 @@ void loadMeta(const char* FileName)
       if (nlen > fsz)
         errArchive();
 
+      if (fsz > size - ofs - sizeof fh)
+        errArchive();
+
       fofs = ofs + sizeof fh + nlen;
       fsz -= nlen;
 
@@ -1237,7 +1306,7 @@ void loadMeta(const char* FileName)
           errArchive();
         pMetas = Realloc(pMetas, (sizeof *pMetas) * (ObjFileCnt + 1));
         // TBD!!! extract object file name and pass it instead of the library file name
-        loadElfObj(pMetas + ObjFileCnt, FileName, f, fofs);
+        loadElfObj(pMetas + ObjFileCnt, FileName, f, fofs, fsz);
         ObjFileCnt++;
       }
 
@@ -1248,7 +1317,7 @@ void loadMeta(const char* FileName)
   else
   {
     pMetas = Realloc(pMetas, (sizeof *pMetas) * (ObjFileCnt + 1));
-    loadElfObj(pMetas + ObjFileCnt, FileName, f, 0);
+    loadElfObj(pMetas + ObjFileCnt, FileName, f, 0, size);
     ObjFileCnt++;
   }
 
@@ -1556,7 +1625,7 @@ void FindAllSections(void)
     puts("");
   }
 
-  if (!(pSectDescrs[0].Attrs & SHF_EXECINSTR))
+  if (!SectCnt || !(pSectDescrs[0].Attrs & SHF_EXECINSTR))
     error("Executable section not found\n");
 
   for (i = 0; i < SectCnt; i++)
@@ -1656,6 +1725,8 @@ uint32 FindSymbolAddress(const char* SymName)
           tElfSection* pSect;
           if (pSym->st_shndx == SHN_COMMON)
             error("Common symbols unsupported\n");
+          if (pSym->st_shndx >= SHN_LORESERVE)
+            error("Unsupported section of symbol '%s'\n", SymName);
           pSect = &pMeta->pSections[pSym->st_shndx];
           addr = pSect->OutOffset + pSym->st_value;
           return addr;
@@ -1719,7 +1790,8 @@ void Relocate(tElfMeta* pMeta, tElfSection* pRelSect, Elf32_Rel* pRel, unsigned
       symAddr = FindSymbolAddress(name);
     }
 #ifdef SUPPORT_LOCAL_RELS
-    else if ((pSym->st_info >> 4) == STB_LOCAL)
+    else if ((pSym->st_info >> 4) == STB_LOCAL &&
+             pSym->st_shndx < SHN_LORESERVE)
     {
       symAddr = pMeta->pSections[pSym->st_shndx].OutOffset + pSym->st_value;
     }
@@ -3590,6 +3662,7 @@ void GenerateMap(void)
           // Check exported symbols
           if ((pSym->st_info >> 4) == STB_GLOBAL &&
               pSym->st_shndx &&
+              pSym->st_shndx < SHN_LORESERVE &&
               pSym->st_name)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
-- 
2.43.0


From c102bc1c9e3564b6224b6f2957242cc97854365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 55/62] fix: smlrcc passed arguments with special characters
 through the Unix shell unquoted

---
 v0100/smlrcc.c | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..a7a49ae 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -574,16 +574,62 @@ void fatargs(int* pargc, char*** pargv)
   *pargv = pp;
 }
 
+#ifdef UNIX_LIKE
+int EscapingNeeded(char* s)
+{
+  if (*s == '\0')
+    return 1;
+  // Everything else may be special to the shell
+  for (; *s; s++)
+    if (!strchr("%+,-./0123456789:=@ABCDEFGHIJKLMNOPQRSTUVWXYZ_"
+                "abcdefghijklmnopqrstuvwxyz", *s))
+      return 1;
+  return 0;
+}
+#else
 int EscapingNeeded(char* s)
 {
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
   // specially even inside double quotes (e.g. %path% would always expand).
   return *s == '\0' || strpbrk(s, " \t\"<>&|^") != NULL;
 }
+#endif
 
 // TBD!!! I should probably abandon the idea of launching subordinates via
 // shell (using system()) and instead use exec*()/CreateProcess() and such
 // to avoid this quoting/escaping mess.
+#ifdef UNIX_LIKE
+size_t Escape(char* out, char* in, size_t outsz)
+{
+  size_t sz = 0;
+  int c;
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  while ((c = *in++) != '\0')
+  {
+    // There's no way to put a single quote inside of single quotes: ' -> '\''
+    char* p = "'\\''";
+    size_t n = 4;
+    if (c != '\'')
+      n = 1;
+    while (n--)
+    {
+      if (sz++ < outsz)
+        *out++ = (c != '\'') ? c : *p++;
+    }
+  }
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  if (sz++ < outsz)
+    *out++ = '\0';
+
+  return sz;
+}
+#else
 size_t Escape(char* out, char* in, size_t outsz)
 {
   size_t sz = 0;
@@ -634,6 +680,7 @@ size_t Escape(char* out, char* in, size_t outsz)
 
   return sz;
 }
+#endif
 
 void AddOptionInner(char** options, size_t* len, char* option, int escape)
 {
-- 
2.43.0


From 6b517b98a8eb413e1bac028bc95b16b608e28fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 56/62] fix: smlrcc left a temporary object file behind when
 the assembler failed

---
 v0100/smlrcc.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index a7a49ae..35d5fde 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -908,7 +908,6 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, asmName);
 
     AddFile(&TemporaryFiles, &TemporaryFilesLen, asmName);
-    // TBD!!! also, if CompileToAsm==0, add .o file to temps here
     System(cmd);
 
     free(cmd);
@@ -953,6 +952,9 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, "-o");
     AddOption(&cmd, &cmdlen, objName);
 
+    // Temporary object files will be removed at the end
+    if (!DontLink || DoArchive)
+      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     System(cmd);
 
     free(cmd);
@@ -964,16 +966,9 @@ void Compile(char* name)
     }
 
     if (!DontLink)
-    {
       AddOption(&LinkerOptions, &LinkerOptionsLen, objName);
-      // Temporary object files will be removed at the end
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
-    }
     else if (DoArchive)
-    {
       AddFile(&ArchiveFiles, &ArchiveFilesLen, objName);
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
-    }
 
     if (objName != OutName)
       free(objName);
-- 
2.43.0


From 44686d43c84f16380f123129c1ef571c5ef29c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 57/62] fix: time() on MacOS did not store the time through its
 argument

---
 v0100/srclib/time.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/srclib/time.c b/v0100/srclib/time.c
index 71aea2d..91a37ec 100644
--- a/v0100/srclib/time.c
+++ b/v0100/srclib/time.c
@@ -192,6 +192,8 @@ time_t time(time_t* t)
 {
   unsigned long sec_usec[2];
   SysGetTime(sec_usec);
+  if (t)
+    *t = sec_usec[0];
   return sec_usec[0];
 }
 
-- 
2.43.0


From 71006acc4b58bd3d6015a2bd659941767b161d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 58/62] fix: MIPS: save all argument registers of functions
 that take or return structures

---
 v0100/cgmips.c | 15 ++++++---------
 v0100/smlrc.c  | 11 +++++++----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 07a9359..40dba40 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -554,16 +554,13 @@ void GenUpdateFrameSize(void)
 STATIC
 void GenFxnProlog(void)
 {
-  if (CurFxnParamCntMin && CurFxnParamCntMax)
+  // The implicit argument and structures occupy words as well, so count
+  // the words instead of the parameters.
+  if (CurFxnParamSize)
   {
-    int i, cnt = CurFxnParamCntMax;
-    if (cnt > 4)
-      cnt = 4;
-    // TBD!!! for structure passing use the cumulative parameter size
-    // instead of the number of parameters. Currently this bug is masked
-    // by the subroutine that pushes structures on the stack (it copies
-    // all words except the first to the stack). But passing structures
-    // in registers from assembly code won't always work.
+    int i, cnt = 4;
+    if (CurFxnParamCntMin == CurFxnParamCntMax && CurFxnParamSize < 4u * SizeOfWord)
+      cnt = CurFxnParamSize / SizeOfWord;
     for (i = 0; i < cnt; i++)
       GenPrintInstr2Operands(MipsInstrSW, 0,
                              MipsOpRegA0 + i, 0,
diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 12e1c68..1d7405e 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -661,6 +661,7 @@ int StructPushLabel = 0; // label of the function to push structures/unions onto
 int CurFxnSyntaxPtr = 0;
 int CurFxnParamCntMin = 0;
 int CurFxnParamCntMax = 0;
+unsigned CurFxnParamSize = 0; // in bytes, includes the implicit param/arg (pretval)
 int CurFxnLocalOfs = 0; // negative
 int CurFxnMinLocalOfs = 0; // negative
 
@@ -8439,6 +8440,10 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 
         GenLabel(CurFxnName, Static);
 
+        // A new scope begins before the function parameters
+        PushSyntax('#');
+        AddFxnParamSymbols(lastSyntaxPtr);
+
 #ifndef MIPS
 #ifdef CAN_COMPILE_32BIT
         if (SyntaxStack1[lastSyntaxPtr + 1] & 1)
@@ -8449,10 +8454,6 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
         GenFxnProlog();
         CurFxnEpilogLabel = LabelCnt++;
 
-        // A new scope begins before the function parameters
-        PushSyntax('#');
-        AddFxnParamSymbols(lastSyntaxPtr);
-
 #ifndef NO_FUNC_
         {
           CurFxnNameLabel = LabelCnt++;
@@ -8782,6 +8783,8 @@ void AddFxnParamSymbols(int SyntaxPtr)
       //error("Internal error: AddFxnParamSymbols(): Unexpected token %s\n", GetTokenName(tok));
       errorInternal(9);
   }
+
+  CurFxnParamSize = paramOfs - 2 * SizeOfWord;
 }
 
 STATIC
-- 
2.43.0


From 8b47aaf2e2c13412ab243b2e656664d08da08c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 59/62] fix: assert.h: redefine assert() at every inclusion
 according to NDEBUG

---
 v0100/include/assert.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v0100/include/assert.h b/v0100/include/assert.h
index d548d9c..fc324a4 100644
--- a/v0100/include/assert.h
+++ b/v0100/include/assert.h
@@ -2,8 +2,8 @@
   Copyright (c) 2014-2016, Alexey Frunze
   2-clause BSD license.
 */
-#ifndef __ASSERT_H
-#define __ASSERT_H
+// assert() is redefined according to the current state of NDEBUG
+// each time <assert.h> is included
 
 #ifdef assert
 #undef assert
@@ -27,6 +27,9 @@
 
 #endif
 
+#ifndef __ASSERT_H
+#define __ASSERT_H
+
 void (*__assert(char*, char*, int, char*))(unsigned);
 
 #endif
-- 
2.43.0


From 96d9351bc9427459ae1364a5f4d05473a498a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 60/62] fix: stdarg.h: make va_start() and va_end() usable as
 expressions

---
 v0100/include/stdarg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/include/stdarg.h b/v0100/include/stdarg.h
index 1a7e60b..9ae10ca 100644
--- a/v0100/include/stdarg.h
+++ b/v0100/include/stdarg.h
@@ -8,9 +8,9 @@
 typedef char* va_list;
 
 #ifdef __SMALLER_PP__
-#define va_start(vl, last)      { (vl) = (char*)&(last) + ((sizeof(last) + sizeof(int) - 1) & -sizeof(int)); }
+#define va_start(vl, last)      ((void)((vl) = (char*)&(last) + ((sizeof(last) + sizeof(int) - 1) & -sizeof(int))))
 #define va_arg(vl, type)        (*(type*)(((vl) += ((sizeof(type) + sizeof(int) - 1) & -sizeof(int))) - ((sizeof(type) + sizeof(int) - 1) & -sizeof(int))))
-#define va_end(vl)
+#define va_end(vl)              ((void)0)
 #endif
 
 #endif
-- 
2.43.0


From 66f1f503ccfc10f0aa1f815d13049c7d28362dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 61/62] fix: keep initializers of char and short in range for
 the assembler

---
 v0100/smlrc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 1d7405e..7565fc4 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -7440,8 +7440,12 @@ int InitScalar(int synPtr, int tok)
         val = u ? u2f(val) : i2f(val);
     }
 #endif
-    // TBD??? truncate values for types smaller than int (e.g. char and short),
-    // so they are always in range for the assembler?
+    // truncate values for types smaller than int (e.g. char and short),
+    // so they are always in range for the assembler
+    if (elementSz == 1)
+      val &= 0xFF;
+    else if (elementSz == 2)
+      val &= 0xFFFF;
     GenIntData(elementSz, val);
   }
   else if (elementSz == (unsigned)SizeOfWord)
-- 
2.43.0


From d1ecee726d78e5c057b6ce631c93028ddc657717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:18 +0000
Subject: [PATCH 62/62] fix: ucpp: print the depth of unterminated conditionals
 as the int it is

---
 v0100/ucpp/cpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 2a46294..74bfdd8 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2029,7 +2029,7 @@ int cpp(struct lexer_state *ls)
 		}
 		if (ls->ifnest) {
 			error(ls->line, "unterminated #if construction "
-				"(depth %ld)", ls->ifnest);
+				"(depth %d)", ls->ifnest);
 			r = CPPERR_NEST;
 			ls->ifnest = 0;
 		}
-- 
2.43.0

