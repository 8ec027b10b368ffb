From 3fe9556e518b4690d2a595ac8a08a1738cf8fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 01/67] fix: abandoning an input stream early killed the
 process with SIGPIPE

---
 libstream/stream.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..5f75b87 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <signal.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -65,6 +66,13 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
+#ifndef IS_WIN32
+    // A vanished reader is to end just this stream, not the whole process.
+    sigset_t ss;
+    sigemptyset(&ss);
+    sigaddset(&ss, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &ss, 0);
+#endif
     func(fdin, fdout, arg);
     mutex_lock(nsm);
     if (!--nstreams)
-- 
2.43.0


From eb5e2ac900f2fc545f0120b6b9e62fa6422b3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 02/67] fix: failing to set up a filter left the error message
 unset

---
 libstream/stream.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 5f75b87..63c3416 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -108,9 +108,15 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     thread_t th;
 
     if (pipe(p))
+    {
+        *error="Couldn't create a pipe";
         goto failpipe;
+    }
     if (!(fdata=malloc(sizeof(struct filterdata))))
+    {
+        *error="Out of memory";
         goto failfdata;
+    }
     fdata->fdin=fd;
     fdata->fdout=p[!wr];
     fdata->func=func;
@@ -150,12 +156,12 @@ export int open_stream(int fd, const char* url, int mode, const char **error)
     compress_info *ci;
     const char *dummy;
 
+    if (!error)
+        error=&dummy;
     if (fd==-1)
     {
         if (!url)
             return -1;
-        if (!error)
-            error=&dummy;
         if (!strcmp(url, "-"))
             fd=dup(wr? 1 : 0);
         else if (match_prefix(url, "file://"))
-- 
2.43.0


From 15efd0b601f4e4fbc7acbeae5ac723ceb393c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 03/67] fix: a read error was taken for a huge amount of data
 by xz and zstd streams

---
 libstream/compress.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..a7860fa 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -191,9 +191,12 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
+    ssize_t s;
     while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (s = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = s;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -234,9 +237,12 @@ static void write_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
+    ssize_t s;
     while (xz.avail_in
-           || (xz.avail_in = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+           || (s = read(fd, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+            xz.avail_in = s;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
         if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
@@ -287,7 +293,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
@@ -330,7 +336,7 @@ static void write_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initCStream(stream, 3)))
         goto zstd_w_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(fd, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From 4649d91fe1ec1379f506e232ed579594ab8f6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 04/67] fix: bzip2 streams leaked the descriptor of the
 compressed file

---
 libstream/compress.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index a7860fa..0f2d65c 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -53,11 +53,19 @@ static void read_bz2(int f, int fd, const char *arg)
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
+    FILE    *file = fdopen(f,"rb");
 
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
+    if (!file)
+    {
+        close(f);
+        close(fd);
+        return;
+    }
+    b = BZ2_bzReadOpen(&bzerror, file, 0, 0, NULL, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzReadClose(&bzerror, b);
+        fclose(file);
         // error
         ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
         close(fd);
@@ -71,6 +79,7 @@ static void read_bz2(int f, int fd, const char *arg)
         if (write(fd, buf, nBuf)!=nBuf)
         {
             BZ2_bzReadClose(&bzerror, b);
+            fclose(file);
             close(fd);
             return;
         }
@@ -84,6 +93,7 @@ static void read_bz2(int f, int fd, const char *arg)
     }
     else
         BZ2_bzReadClose(&bzerror, b);
+    fclose(file);
     close(fd);
 }
 
@@ -93,11 +103,19 @@ static void write_bz2(int f, int fd, const char *arg)
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
+    FILE    *file = fdopen(f,"wb");
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    if (!file)
+    {
+        close(f);
+        close(fd);
+        return;
+    }
+    b = BZ2_bzWriteOpen(&bzerror, file, 9, 0, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+        fclose(file);
         // error
         // the writer will get smitten with sigpipe
         close(fd);
@@ -111,11 +129,13 @@ static void write_bz2(int f, int fd, const char *arg)
         if (bzerror!=BZ_OK)
         {
             BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+            fclose(file);
             close(fd);
             return;
         }
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    fclose(file);
     close(fd);
 }
 #endif
-- 
2.43.0


From 46f3496a85fcd2691f650bf2231c07fa3d4e46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 05/67] fix: only the first stream of a concatenated .bz2 file
 was read

---
 libstream/compress.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libstream/compress.c b/libstream/compress.c
index 0f2d65c..85ae40d 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -54,6 +54,9 @@ static void read_bz2(int f, int fd, const char *arg)
     char    buf[BUFFER_SIZE];
     int     bzerror;
     FILE    *file = fdopen(f,"rb");
+    char    rest[BZ_MAX_UNUSED];
+    void    *unused;
+    int     nrest, member = 1;
 
     if (!file)
     {
@@ -83,7 +86,22 @@ static void read_bz2(int f, int fd, const char *arg)
             close(fd);
             return;
         }
+        if (bzerror == BZ_STREAM_END) // another one may follow
+        {
+            BZ2_bzReadGetUnused(&bzerror, b, &unused, &nrest);
+            memcpy(rest, unused, nrest);
+            if (!nrest && !(nrest = fread(rest, 1, 1, file)))
+            {
+                bzerror = BZ_STREAM_END;
+                break;
+            }
+            BZ2_bzReadClose(&bzerror, b);
+            b = BZ2_bzReadOpen(&bzerror, file, 0, 0, rest, nrest);
+            member++;
+        }
     }
+    if (bzerror == BZ_DATA_ERROR_MAGIC && member > 1)
+        bzerror = BZ_STREAM_END; // trailing garbage
     if (bzerror != BZ_STREAM_END)
     {
         BZ2_bzReadClose(&bzerror, b);
-- 
2.43.0


From 224ba0cfe0b5ca8913af57bc29c41126b48123cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 06/67] fix: data before a corrupted part of a .xz file was
 dropped

---
 libstream/compress.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 85ae40d..5575255 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -229,6 +229,7 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
+    lzma_ret ret;
     ssize_t s;
     while (xz.avail_in
            || (s = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
@@ -237,15 +238,15 @@ static void read_xz(int f, int fd, const char *arg)
             xz.avail_in = s;
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
-        if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
-            goto xz_read_lzma_end;
+        ret = lzma_code(&xz, LZMA_RUN);
 
         if (write(fd, outbuf, xz.next_out - outbuf) != xz.next_out - outbuf)
             goto xz_read_lzma_end;
+        if (ret != LZMA_OK)
+            goto xz_read_lzma_end;
     }
 
     // Flush the stream
-    lzma_ret ret;
     do
     {
         xz.next_out  = outbuf;
-- 
2.43.0


From 10618b2d5a1537c66893159e7664af3911ee3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 07/67] fix: every address that refused the connection leaked a
 socket

---
 libstream/url_tcp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..0121b3d 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -96,7 +96,12 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                int err=errno;
+                close(sock);
+                errno=err;
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From e622376bbb689572c18b497eedeeb26494e0231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 08/67] fix: a negative port number overflowed the port string

---
 libstream/url_tcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 0121b3d..ae998ae 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -56,7 +56,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         *cp=0;
         cp++;
         i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From 26d7c26f9940716e08edf7fdedfe523350bbf456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 09/67] fix: termcast streams closed descriptors they did not
 own and leaked others

---
 libstream/url_termcast.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..6429936 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,6 +4,9 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
 #include "gettext.h"
@@ -123,7 +126,7 @@ static void termcast(int in, int out, const char *arg)
 found:
     free(rest);
     if (write(sock, &ses, 1) != 1)
-        return;
+        goto end;
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
@@ -131,14 +134,16 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
+    shutdown(sock, SHUT_RDWR); // tell the telnet filter
     close(sock);
+    close(in);
     close(out);
 }
 
 
 int open_termcast(const char* url, int mode, const char **error)
 {
-    int fd, fdmid;
+    int fd, fdmid, sock;
     const char *rest;
 
     if (mode&SM_WRITE)
@@ -155,10 +160,27 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
-    if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
-        return -1;
+    // the telnet filter will close its copy on its own
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
-    fa->rest=strdup(rest);
-    return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    if (!fa || !(fa->rest=strdup(rest)) || (sock=fa->sock=dup(fd))==-1)
+    {
+        *error=strerror(errno);
+        if (fa)
+            free(fa->rest);
+        free(fa);
+        close(fd);
+        return -1;
+    }
+    if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+        fd=-1;
+    else
+        fd=filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
+    if (fd==-1)
+    {
+        shutdown(sock, SHUT_RDWR);
+        close(sock);
+        free(fa->rest);
+        free(fa);
+    }
+    return fd;
 }
-- 
2.43.0


From 63d1aec79e032983f23073cd481b66f8fd1f3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 10/67] fix: CURL streams used the caller's URL after
 open_stream had returned

---
 libstream/url_curl.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libstream/url_curl.c b/libstream/url_curl.c
index 54a6010..559dec9 100644
--- a/libstream/url_curl.c
+++ b/libstream/url_curl.c
@@ -1,6 +1,8 @@
 #include "config.h"
 #ifdef HAVE_CURL_CURL_H
 
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <curl/curl.h>
 #include "export.h"
@@ -19,7 +21,7 @@ static void curl_r(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "w");
     if (!f)
-        return close(out), (void)0;
+        return close(out), free((char*)arg);
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -30,6 +32,7 @@ static void curl_r(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "CURL failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
@@ -39,7 +42,7 @@ static void curl_w(int in, int out, const char *arg)
     CURLcode res;
     FILE *f = fdopen(out, "r");
     if (!f)
-        return close(out), (void)0;
+        return close(out), free((char*)arg);
 
     curl_global_init(CURL_GLOBAL_ALL);
     curl_handle = curl_easy_init();
@@ -51,6 +54,7 @@ static void curl_w(int in, int out, const char *arg)
     if (res != CURLE_OK)
         fprintf(f, "curl_easy_perform() failed: %s\n", curl_easy_strerror(res));
     curl_easy_cleanup(curl_handle);
+    free((char*)arg);
     fclose(f);
 }
 
@@ -68,9 +72,16 @@ int open_curl(const char* url, int mode, const char **error)
         return -1;
     }
 
-    if (mode&SM_WRITE)
-        return filter(curl_w, -1, 1, url, error);
-    else
-        return filter(curl_r, -1, 0, url, error);
+    // the caller may free the URL while the transfer is still going on
+    char *url2=strdup(url);
+    if (!url2)
+    {
+        *error="Out of memory";
+        return -1;
+    }
+    int fd=filter((mode&SM_WRITE)? curl_w : curl_r, -1, !!(mode&SM_WRITE), url2, error);
+    if (fd==-1)
+        free(url2);
+    return fd;
 }
 #endif
-- 
2.43.0


From e7ca397aecf36ff4dc7ecfd4c7dabf57cf38dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 11/67] fix: the end of a bracketed IPv6 address was taken for
 a port number

---
 libstream/url_tcp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index ae998ae..aeaeddb 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -29,7 +29,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
 {
     long i;
     char *cp;
-    int err;
+    int err, brackets=0;
     struct addrinfo hints;
     char portstr[10];
 
@@ -41,6 +41,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         if (!cp)
             return _("Unmatched [ in the host part.");
         *cp++=0;
+        brackets=1;
         if (*cp)
         {
             if (*cp==':')
@@ -50,7 +51,7 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         }
     }
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    if (!brackets && (cp=strrchr(host, ':')))
     {
     getrport:
         *cp=0;
-- 
2.43.0


From 8ff4c3504ee34412c2cb604784af5eba526086fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 12/67] fix: asciicast recordings with a backslash were
 corrupted

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..48bb18f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -548,6 +548,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fprintf(f, "\\u%04x", *buf);
         else if (*buf=='"')
             fputs("\\\"", f);
+        else if (*buf=='\\')
+            fputs("\\\\", f);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From 22168302fc7e490cd6294603dfd01c76ff402ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 13/67] fix: asciicast v1 recordings lost delays when time
 starts at zero

---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 48bb18f..37d83a6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -528,10 +528,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From b6083b930697126e120fd45c342f3786b7d05792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 14/67] fix: an asciicast truncated after a backslash played a
 bogus byte

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 37d83a6..2fc3395 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -165,6 +165,8 @@ static char* eat_string(NIH_FILE *f, char *buf)
             OUT(c);
         else switch (c=getc(f))
         {
+        case EOF:
+            goto end;
         case 'b':
             OUT('\b'); break;
         case 'f':
-- 
2.43.0


From badf78f85617f3eddb2b978ccb696b40a93ea030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 15/67] fix: typed input and other non-output asciicast events
 were played as output

---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 2fc3395..3c1d65d 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -350,6 +350,7 @@ body:
     synch_init_wait(&tv, arg);
     synch_print(buf, sprintf(buf, "\e%%G\e[8;%d;%dt", sy, sx), arg);
     uint64_t old_delay = 0;
+    bool is_output = true;
 
     while (1)
     {
@@ -385,6 +386,7 @@ body:
             if (c != '"')
                 FAIL("Malformed asciicast: expected event type.\n");
             eat_string(f, buf);
+            is_output = !strcmp(buf, "o");
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
@@ -393,7 +395,9 @@ body:
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        char *end = eat_string(f, buf);
+        if (is_output) // typed input, markers, etc aren't meant for the screen
+            synch_print(buf, end - buf, arg);
 
         EAT();
         if (c !=']')
-- 
2.43.0


From 92abc3164b724da92b0a37e8e091586df296d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 16/67] fix: nh_recorder files were misread at 32KB block
 boundaries

---
 libtty/formats.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..5a3d136 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -340,25 +340,26 @@ static void play_nh_recorder(FILE *f,
     void *arg, const struct timeval *cont)
 {
     char buf[BUFFER_SIZE];
-    int b,i,i0;
+    int b,i,i0,left;
     struct timeval tv;
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    left=0;
+    while ((b=fread(buf+left, 1, BUFFER_SIZE-left, f))>0)
     {
+        b+=left;
+        left=0;
         i0=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    left=b-i;
+                    memmove(buf, buf+i, left);
                     goto block_end;
                 }
                 else
-- 
2.43.0


From 93f96a28b2c8dcb923c1a57cbc3e178e075d6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 17/67] fix: nh_recorder recordings had every frame timed as
 the one before it

---
 libtty/formats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 5a3d136..a17a99d 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -400,9 +400,10 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
+    // the player takes a timestamp as the time of what follows it
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 1e01eeab6b21f4c1387a7672465fc9bc8791c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 18/67] fix: autodetection lost the contents of very short
 files

---
 libtty/formats.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a17a99d..8f6e991 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -459,10 +459,12 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
-            return;
+            break;
         got+=len;
     } while (got<12);
-    if (little_endian(tth.usec)<1000000 &&
+    if (!got)
+        return;
+    if (got==12 && little_endian(tth.usec)<1000000 &&
         little_endian(tth.len)>0 && little_endian(tth.len)<65536)
     {
         tv.tv_sec=little_endian(tth.sec);
@@ -480,7 +482,7 @@ static void play_auto(FILE *f,
         return;
     }
 
-    if (is_asciicast((const char*)&tth))
+    if (got==12 && is_asciicast((const char*)&tth))
     {
         do_play_asciicast(fileno(f), (const char*)&tth, 12,
                           synch_init_wait, synch_wait, synch_print, arg, &tv);
@@ -490,7 +492,7 @@ static void play_auto(FILE *f,
     // fall back to "live"
     gettimeofday(&tv, 0);
     synch_init_wait(&tv, arg);
-    synch_print((char*)&tth, 12, arg);
+    synch_print((char*)&tth, got, arg);
     play_live(f, 0, synch_wait, synch_print, arg, &tv);
 }
 
-- 
2.43.0


From 66206fc6a4c0de1e5b7cc07cbedcb89c4a91ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 19/67] fix: dosrecorder notes were read as garbage and could
 overflow the screen

---
 libtty/dosrecorder.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..e88d668 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -171,14 +171,17 @@ void play_dosrecorder(FILE *f,
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
                 gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
             if (nh.titlelen>80)
                 goto end;
             *bp++='\e', *bp++=']', *bp++='0', *bp++=';';
-            gzread(g, bp, nh.titlelen);
+            if (gzread(g, bp, nh.titlelen)!=nh.titlelen)
+                goto end;
             bp+=nh.titlelen;
             *bp++=7;
         }
-- 
2.43.0


From 45c203f0c9083d3046da94552d998e9e3a05dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 20/67] fix: seeking right after the first frame got loaded
 lost the initial terminal

---
 libtty/timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 6d28713..b0b21cf 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -163,7 +163,7 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
         else
         {
             tfs=tr->tev_head;
-            *vt=tty_init(80, 25, 1);
+            *vt=tty_copy(tfs->snapshot);
         }
         if (!*vt)
             return 0;
-- 
2.43.0


From b31cb87295ba23ce2d1bc0a4d44ae5eb449fc956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 21/67] fix: the rewind key reset the clock but not the
 position or the screen

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index 143c6fc..8b65471 100644
--- a/play/player.c
+++ b/play/player.c
@@ -149,6 +149,8 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
+    fr=ttyrec_seek(tr, &tc, &term);
+    vtvt_attach(term, stdout, 1);
 }
 
 static void adv_frame(int dummy)
-- 
2.43.0


From b356d37bb6f9a5e3e770464be500408aec64c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 22/67] fix: termplay hung if it failed to create the loader
 thread

---
 play/termplay.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/play/termplay.c b/play/termplay.c
index a76cdab..83efe28 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -198,7 +198,10 @@ int main(int argc, char **argv)
     loaded=0;
     kbd_raw();
     if (thread_create_joinable(&loadth, loader, (intptr_t)fd))
+    {
+        close(fd); // or exit() would wait for the decompressor forever
         die("Cannot create thread");
+    }
     replay();
     pthread_cancel(loadth);
     thread_join(loadth);
-- 
2.43.0


From 44b8a208aee592859ddfcc9e86e02e587333ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 23/67] fix: termplay left the terminal in raw mode when it
 failed to create a thread

---
 play/termplay.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/play/termplay.c b/play/termplay.c
index 83efe28..cec3e7b 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -146,6 +146,12 @@ static int loader(void *arg)
 
 static struct termios old_tattr;
 
+static void kbd_restore(void)
+{
+    tcdrain(0);
+    tcsetattr(0,TCSADRAIN,&old_tattr);
+}
+
 static void kbd_raw(void)
 {
     struct termios tattr;
@@ -168,15 +174,10 @@ static void kbd_raw(void)
 #endif
     tattr.c_cc[VMIN]=1;
     tattr.c_cc[VTIME]=0;
+    atexit(kbd_restore); // also if we die()
     tcsetattr(0,TCSANOW,&tattr);
 }
 
-static void kbd_restore(void)
-{
-    tcdrain(0);
-    tcsetattr(0,TCSADRAIN,&old_tattr);
-}
-
 
 int main(int argc, char **argv)
 {
-- 
2.43.0


From 5c264c29e84b2291e6c272cb8258665982bfe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 24/67] fix: termrec claimed success when its compressor had
 died

---
 rec/termrec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..3aab05a 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -50,7 +50,7 @@ static void sigpipe(int s)
 {
     tty_restore();
     fprintf(stderr, "Broken pipe.  Disk full?\n");
-    exit(0);
+    exit(1);
 }
 
 static void setsignals(void)
-- 
2.43.0


From 0766254e620f7a7b06d044562c27621964f56ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 25/67] fix: termrec hung if it couldn't allocate a pty and the
 recording is compressed

---
 rec/termrec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rec/termrec.c b/rec/termrec.c
index 3aab05a..b9bd431 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -155,6 +155,7 @@ int main(int argc, char **argv)
     if ((ptym=run(command, sx, sy))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
+        close(record_f); // or exit() would wait for the compressor forever
         return 1;
     }
 
-- 
2.43.0


From 6bfee760e1f2e204170adc52256c54852bb3674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 26/67] fix: a window resize during a burst of output ended the
 recording

---
 rec/termrec.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index b9bd431..fb23e3b 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -127,6 +127,21 @@ static void tty_restore(void)
     tcsetattr(0, TCSADRAIN, &ta);
 }
 
+// a signal may interrupt a write in the middle
+static int write_all(int fd, const char *buf, int len)
+{
+    int r;
+
+    while (len>0)
+    {
+        if ((r=write(fd, buf, len))<=0)
+            return 0;
+        buf+=r;
+        len-=r;
+    }
+    return 1;
+}
+
 #define BS 65536
 
 int main(int argc, char **argv)
@@ -198,7 +213,7 @@ int main(int argc, char **argv)
             r=read(0, buf, BS);
             if (r<=0)
                 break;
-            if (write(ptym, buf, r) != r)
+            if (!write_all(ptym, buf, r))
                 break;
         }
         if (FD_ISSET(ptym, &rfds))
@@ -208,7 +223,7 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
-            if (write(1, buf, r) != r)
+            if (!write_all(1, buf, r))
                 break;
         }
     }
-- 
2.43.0


From 6372abf9d3b0d251d611e4fae56b3aac0b62ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 27/67] fix: termrec sent signals to a process numbered as its
 pty descriptor

---
 rec/pty.c     | 4 ++--
 rec/pty.h     | 2 +-
 rec/termrec.c | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/rec/pty.c b/rec/pty.c
index c6507a1..861adc0 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -197,7 +197,7 @@ void pty_makeraw(struct termios *ta)
     ta->c_cc[VTIME]=0;
 }
 
-int run(const char *command, int sx, int sy)
+int run(const char *command, int sx, int sy, int *pid)
 {
     int fd;
 
@@ -208,7 +208,7 @@ int run(const char *command, int sx, int sy)
     ws.ws_xpixel=0;
     ws.ws_ypixel=0;
 
-    switch (forkpty(&fd,0,0,(sx&&sy)?&ws:0))
+    switch (*pid=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
         return -1;
diff --git a/rec/pty.h b/rec/pty.h
index bb64830..1bf7ca0 100644
--- a/rec/pty.h
+++ b/rec/pty.h
@@ -18,5 +18,5 @@
 extern int forkpty(int *amaster,char *dummy,struct termios *termp, struct winsize *wp);
 #endif
 
-extern int run(const char *command, int sx, int sy);
+extern int run(const char *command, int sx, int sy, int *pid);
 extern void pty_makeraw(struct termios *ta);
diff --git a/rec/termrec.c b/rec/termrec.c
index fb23e3b..5eea899 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -31,6 +31,7 @@ static volatile int need_resize;
 static int need_utf;
 static struct termios ta;
 static int ptym;
+static int child;
 static int sx, sy;
 static int record_f;
 static recorder rec;
@@ -42,7 +43,8 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    if (child>0)
+        kill(child, s);
 }
 
 static void tty_restore(void);
@@ -167,7 +169,7 @@ int main(int argc, char **argv)
     ptym=-1;
     sx=sy=0;
     tty_get_size();
-    if ((ptym=run(command, sx, sy))==-1)
+    if ((ptym=run(command, sx, sy, &child))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
         close(record_f); // or exit() would wait for the compressor forever
@@ -232,5 +234,6 @@ int main(int argc, char **argv)
     int err=!ttyrec_w_close(rec);
     tty_restore();
     wait(0);
+    child=0;
     return err;
 }
-- 
2.43.0


From 6a1d23b56c724a2e8e8037e1d0aa930181895624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 28/67] fix: insert/delete/erase characters at the right margin
 left the parser inside the escape sequence

---
 libtty/tty.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..3da66f0 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1007,6 +1007,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1026,7 +1027,6 @@ export void tty_write(tty vt, const char *buf, int len)
                         vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
                                               vt->scr[CY*SX+j].attr,
                                               mk_wcwidth(vt->scr[CY*SX+j].ch));
-                vt->state=ESnormal;
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1035,6 +1035,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1051,7 +1052,6 @@ export void tty_write(tty vt, const char *buf, int len)
                     }
                 }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
-                vt->state=ESnormal;
                 break;
 
             case 'X':   // ESC[X -> erase to the right
@@ -1060,12 +1060,12 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
-                if (!i)
+                vt->state=ESnormal;
+                if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-                vt->state=ESnormal;
                 break;
 
             case 'f': case 'H': // ESC[f, ESC[H -> move cursor
-- 
2.43.0


From fe03b7332c5d62c83881128cb85e61af765b2e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 29/67] fix: copies of a terminal shared the callbacks attached
 to the original

---
 libtty/tty.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 3da66f0..35712fd 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -201,6 +201,19 @@ export tty tty_copy(tty vt)
     if (vt->oscbuf)
         if ((nvt->oscbuf=malloc(MAXOSC)))
             memcpy(nvt->oscbuf, vt->oscbuf, vt->osclen);
+    // callbacks belong to the original
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     return nvt;
 
 drop_scr:
-- 
2.43.0


From 5c60835b44cacbfc9e4cf21784d62a491f5d369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 30/67] fix: exiting hung if an input stream was still open or
 its peer silent

---
 libstream/stream.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index 63c3416..222bdee 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -44,7 +44,7 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
 #else
 struct filterdata
 {
-    int fdin, fdout;
+    int fdin, fdout, wr;
     void (*func)(int,int,const char*);
     const char *arg;
 };
@@ -56,12 +56,13 @@ static mutex_t nsm;
 
 static void filterthr(struct filterdata *args)
 {
-    int fdin, fdout;
+    int fdin, fdout, wr;
     void (*func)(int,int,const char*);
     const char *arg;
 
     fdin=args->fdin;
     fdout=args->fdout;
+    wr=args->wr;
     func=args->func;
     arg=args->arg;
     free(args);
@@ -74,6 +75,8 @@ static void filterthr(struct filterdata *args)
     pthread_sigmask(SIG_BLOCK, &ss, 0);
 #endif
     func(fdin, fdout, arg);
+    if (!wr)
+        return;
     mutex_lock(nsm);
     if (!--nstreams)
         cond_wake(exitcond);
@@ -119,6 +122,7 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     }
     fdata->fdin=fd;
     fdata->fdout=p[!wr];
+    fdata->wr=wr;
     fdata->func=func;
     fdata->arg=arg;
 
@@ -133,7 +137,9 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     mutex_lock(nsm);
     if (thread_create_detached(&th, filterthr, fdata))
         goto failthread;
-    nstreams++;
+    // only output needs to be completed before exiting; input may wait forever
+    if (wr)
+        nstreams++;
     mutex_unlock(nsm);
     return p[wr];
 failthread:
-- 
2.43.0


From 1721d1364ec1f161207db2418b3a56d3fe7ee5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 31/67] fix: a huge exponent in an asciicast caused billions of
 pointless iterations

---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 3c1d65d..b4031d6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -124,7 +124,11 @@ static int64_t eat_float(NIH_FILE *f)
             c=getc(f), minus=true;
         int e=0;
         while (c>='0' && c<='9')
-            e=e*10+c-'0', c=getc(f);
+        {
+            if (e<100) // it's out of any sane range already
+                e=e*10+c-'0';
+            c=getc(f);
+        }
         if (minus)
             while (e-->0)
                 x/=10;
-- 
2.43.0


From 25407cb60a99d1ea8669bdda88ec62ea5e1c52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 32/67] fix: an empty object in an asciicast's header made the
 recording unreadable

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index b4031d6..f363031 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -343,6 +343,9 @@ skip_field:
             if (version == 2 && !bracket_level)
                 goto body;
             bracket_level--;
+            EAT();
+            if (c != ',') // an empty object may be followed by more fields
+                ungetc(c, f);
             break;
         default:
             FAIL("Not an asciicast: bad header.\n");
-- 
2.43.0


From 9f2949f4270a02879fbe6311afa2b13eb04680c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 33/67] fix: a signal cut short the wait of a live output

---
 libtty/formats.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 8f6e991..296501d 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -73,6 +73,7 @@ Will be called when the recording ends.
 #ifdef HAVE_SYS_TIME_H
 # include <sys/time.h>
 #endif
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -196,14 +197,22 @@ static void* record_live_init(FILE *f, const struct timeval *tm)
 static void record_live(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
 {
     struct timeval tv, wall;
+    int waited=0;
 
-    gettimeofday(&wall, 0);
-    tv=*tm;
-    tadd(tv, *((struct timeval*)state));
-    tsub(tv, wall);
-    if (tv.tv_sec>=0 && (tv.tv_sec || tv.tv_usec)) // can't go back in time
-        select(0, 0, 0, 0, &tv);
-    else
+    while (1)
+    {
+        gettimeofday(&wall, 0);
+        tv=*tm;
+        tadd(tv, *((struct timeval*)state));
+        tsub(tv, wall);
+        if (tv.tv_sec<0 || !(tv.tv_sec || tv.tv_usec)) // can't go back in time
+            break;
+        waited=1;
+        if (select(0, 0, 0, 0, &tv)!=-1 || errno!=EINTR)
+            break;
+        // a signal came, wait for the rest
+    }
+    if (!waited)
         tsub(*(struct timeval*)state, tv); // move the origin by the (negative) time skipped
     fwrite(buf, 1, len, f);
     fflush(f);
-- 
2.43.0


From b537170b3e47419380c18c2bade52985f347c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 34/67] fix: an aborted OSC string leaked and could become a
 later title

Every "ESC ] 0 ; text CAN" left its 4KB buffer allocated, or to be taken for
the string of a following OSC that has none.
---
 libtty/tty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 35712fd..cc4e027 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -649,6 +649,9 @@ export void tty_write(tty vt, const char *buf, int len)
                 break;
 
             case ']':
+                // an earlier string may have been aborted
+                free(vt->oscbuf);
+                vt->oscbuf=0;
                 vt->state=ESosc;
                 vt->tok[0]=0;
                 break;
-- 
2.43.0


From 7f9c78b2ef23d02deb801dd91c30890849fe55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 35/67] fix: converting an empty recording to asciicast gave no
 valid file

The header was written with the first piece of output only.
---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index f363031..6aea428 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -572,6 +572,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 void record_asciicast_finish(FILE *f, void* state)
 {
     struct ac_state *as = state;
+    if (!as->head_done) // no output at all
+        record_asciicast(f, state, &as->ts, "", 0);
     if (as->version == 1)
         fprintf(f, "\n]}\n");
     free(state);
-- 
2.43.0


From c91ca3dce02ed107036956257610b0c34b54d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 36/67] fix: dosrecorder frames starting with attribute 0xff
 were shown in another

The attribute is a char, thus 0xff is -1, which stood for not known.
---
 libtty/dosrecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index e88d668..a9fdd7a 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -75,7 +75,7 @@ static int scrdiff(screen *vt, screen *scr, char *buf)
     char *bp=buf;
     int x,y;
     int cx=-1,cy=-1;
-    int attr=-1;
+    int attr=0x100; // none: -1 is a valid char
     int sp;
 
     for (y=0; y<25; y++)
-- 
2.43.0


From 01943f68025e3465c0090c68c1e11a5fee86a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:50 +0000
Subject: [PATCH 37/67] fix: a window resize could go unnoticed by the recorder

---
 rec/termrec.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 5eea899..caead76 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -55,7 +55,7 @@ static void sigpipe(int s)
     exit(1);
 }
 
-static void setsignals(void)
+static void setsigwinch(void)
 {
     struct sigaction act;
 
@@ -64,6 +64,14 @@ static void setsignals(void)
     act.sa_handler=sigwinch;
     if (sigaction(SIGWINCH,&act,0))
         die("sigaction SIGWINCH");
+}
+
+static void setsignals(void)
+{
+    struct sigaction act;
+
+    sigemptyset(&act.sa_mask);
+    act.sa_flags=SA_RESTART;
     act.sa_handler=sigpass;
     if (sigaction(SIGINT,&act,0))
         die("sigaction SIGINT");
@@ -152,10 +160,18 @@ int main(int argc, char **argv)
     char buf[BS];
     int r;
     struct timeval tv;
+    sigset_t winch, oldmask;
 
     setlocale(LC_CTYPE, "");
     get_rec_parms(argc, argv);
+    sigemptyset(&winch);
+    sigaddset(&winch, SIGWINCH);
+    // any threads need to have it blocked, so it's always us who gets woken up
+    sigprocmask(SIG_BLOCK, &winch, &oldmask);
+    sigdelset(&oldmask, SIGWINCH);
     record_f=open_out(&record_name, format_ext, append);
+    setsigwinch();
+    sigprocmask(SIG_UNBLOCK, &winch, 0);
     if (record_f==-1)
     {
         fprintf(stderr, "Can't open %s\n", record_name);
@@ -187,11 +203,8 @@ int main(int argc, char **argv)
 
     while (1)
     {
-        FD_ZERO(&rfds);
-        FD_SET(0, &rfds);
-        FD_SET(ptym, &rfds);
-        r=select(ptym+1, &rfds, 0, 0, 0);
-
+        // a resize between this check and going to sleep must not get missed
+        sigprocmask(SIG_BLOCK, &winch, 0);
         if (need_resize)
         {
             need_resize=0;
@@ -199,6 +212,12 @@ int main(int argc, char **argv)
             record_size();
         }
 
+        FD_ZERO(&rfds);
+        FD_SET(0, &rfds);
+        FD_SET(ptym, &rfds);
+        r=pselect(ptym+1, &rfds, 0, 0, 0, &oldmask);
+        sigprocmask(SIG_UNBLOCK, &winch, 0);
+
         switch (r)
         {
         case 0:
@@ -207,7 +226,7 @@ int main(int argc, char **argv)
             if (errno==EINTR)
                 continue;
             tty_restore();
-            die("select()");
+            die("pselect()");
         }
 
         if (FD_ISSET(0, &rfds))
-- 
2.43.0


From 6f9b78c5b744c08833e2d1522fbed4a84c09754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:18 +0000
Subject: [PATCH 38/67] fix: after a failed write, later output garbled the
 recording

---
 libtty/asciicast.c | 7 ++++---
 libtty/files.c     | 3 +++
 libtty/formats.c   | 9 ++++-----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 6aea428..3839802 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -547,7 +547,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     }
     else
         fprintf(f, "[%f, \"o\", \"", tm->tv_sec-as->ts.tv_sec+tm->tv_usec*0.000001);
-    while (len-->0)
+    while (len-->0 && !ferror(f))
     {
         if (((unsigned char)*buf)<' ')
             if (*buf=='\r')
@@ -564,7 +564,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
             fputc(*buf, f);
         buf++;
     }
-    fprintf(f, as->version==1? "\"]" : "\"]\n");
+    if (!ferror(f))
+        fprintf(f, as->version==1? "\"]" : "\"]\n");
     if (buf2)
         free(buf2);
 }
@@ -574,7 +575,7 @@ void record_asciicast_finish(FILE *f, void* state)
     struct ac_state *as = state;
     if (!as->head_done) // no output at all
         record_asciicast(f, state, &as->ts, "", 0);
-    if (as->version == 1)
+    if (as->version == 1 && !ferror(f))
         fprintf(f, "\n]}\n");
     free(state);
 }
diff --git a/libtty/files.c b/libtty/files.c
index 5c92545..fb3e528 100644
--- a/libtty/files.c
+++ b/libtty/files.c
@@ -107,6 +107,9 @@ export int ttyrec_w_write(recorder r, const struct timeval *tm, const char *buf,
 {
     assert(r);
     assert(r->f);
+    // don't add anything after a gap
+    if (ferror(r->f))
+        return 0;
     r->format->write(r->f, r->state, tm, buf, len);
     return !ferror(r->f);
 }
diff --git a/libtty/formats.c b/libtty/formats.c
index 296501d..e998330 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -322,8 +322,8 @@ static void record_ttyrec(FILE *f, void* state, const struct timeval *tm, const
     h.sec=little_endian(tm->tv_sec);
     h.usec=little_endian(tm->tv_usec);
     h.len=little_endian(len);
-    fwrite(&h, 1, sizeof(h), f);
-    fwrite(buf, 1, len, f);
+    if (fwrite(&h, 1, sizeof(h), f) == sizeof(h))
+        fwrite(buf, 1, len, f);
 }
 
 static void record_ttyrec_finish(FILE *f, void* state)
@@ -410,9 +410,8 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
     // the player takes a timestamp as the time of what follows it
-    fwrite("\0", 1, 1, f);
-    fwrite(&i, 1, 4, f);
-    fwrite(buf, 1, len, f);
+    if (fwrite("\0", 1, 1, f) == 1 && fwrite(&i, 1, 4, f) == 4)
+        fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From 4899dcab5bea22f457b30e7f6ca2b39d6a757b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 39/67] fix: the recorded program inherited the recording's
 pipes: hangs on a full disk or daemons

---
 libstream/stream.c | 6 ++++++
 rec/termrec.c      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 222bdee..c120bd5 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include "config.h"
 #include "compat.h"
@@ -120,6 +121,11 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
         *error="Out of memory";
         goto failfdata;
     }
+#ifndef IS_WIN32
+    // If a child process held the other end, we'd never see it gone.
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
+    fcntl(p[!wr], F_SETFD, FD_CLOEXEC);
+#endif
     fdata->fdin=fd;
     fdata->fdout=p[!wr];
     fdata->wr=wr;
diff --git a/rec/termrec.c b/rec/termrec.c
index caead76..1b7a8c2 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <errno.h>
 #include <stdlib.h>
 #include <signal.h>
@@ -177,6 +178,8 @@ int main(int argc, char **argv)
         fprintf(stderr, "Can't open %s\n", record_name);
         return 1;
     }
+    // anything left behind by the program mustn't keep the recording open
+    fcntl(record_f, F_SETFD, FD_CLOEXEC);
     if (!command)
         command=getenv("SHELL");
     if (!command)
-- 
2.43.0


From 647dc5e38e3756f7208265b6ed0c621087cfb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 40/67] fix: background threads of streams ran the program's
 signal handlers

A signal taken on a worker thread found itself racing with the main thread
it was meant to interrupt.  Block everything in them.
---
 libstream/stream.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index c120bd5..c290e88 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -68,13 +68,6 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
-#ifndef IS_WIN32
-    // A vanished reader is to end just this stream, not the whole process.
-    sigset_t ss;
-    sigemptyset(&ss);
-    sigaddset(&ss, SIGPIPE);
-    pthread_sigmask(SIG_BLOCK, &ss, 0);
-#endif
     func(fdin, fdout, arg);
     if (!wr)
         return;
@@ -110,6 +103,7 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     int p[2];
     struct filterdata *fdata;
     thread_t th;
+    int failed;
 
     if (pipe(p))
     {
@@ -140,8 +134,19 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
         atexit(finish_up);
     }
 
+#ifndef IS_WIN32
+    // The thread isn't to run the program's signal handlers; a vanished reader
+    // is to end just this stream, not the whole process.
+    sigset_t all, old;
+    sigfillset(&all);
+    pthread_sigmask(SIG_SETMASK, &all, &old);
+#endif
     mutex_lock(nsm);
-    if (thread_create_detached(&th, filterthr, fdata))
+    failed=thread_create_detached(&th, filterthr, fdata);
+#ifndef IS_WIN32
+    pthread_sigmask(SIG_SETMASK, &old, 0);
+#endif
+    if (failed)
         goto failthread;
     // only output needs to be completed before exiting; input may wait forever
     if (wr)
-- 
2.43.0


From 01cfca81ff6ae9a831326c0e3ffa45eeb03d6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 41/67] fix: a signal could be passed on after the program had
 been reaped

wait() reaps the child while its pid is still stored; a signal in between was
sent to whoever got that pid.  Wait without reaping first.
---
 rec/termrec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 1b7a8c2..9741ef5 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -255,7 +255,9 @@ int main(int argc, char **argv)
     close(ptym);
     int err=!ttyrec_w_close(rec);
     tty_restore();
-    wait(0);
+    // once reaped, its pid may be taken by someone else
+    waitid(P_PID, child, 0, WEXITED|WNOWAIT);
     child=0;
+    wait(0);
     return err;
 }
-- 
2.43.0


From d44c37084c61f4121524b35ffe82f729870d106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 42/67] fix: playback rushed through what had been loaded late

A frame that is overdue has a negative delay whose microseconds are still
positive: it was taken for a wait, and the clock was never slowed down.
---
 play/player.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index 8b65471..1fe974a 100644
--- a/play/player.c
+++ b/play/player.c
@@ -40,7 +40,7 @@ static int player(void *arg)
             tadd(tt, t0);
             gettimeofday(&wall, 0);
             tsub(tt, wall);
-            if (tt.tv_sec>0 || tt.tv_usec>0)
+            if (tt.tv_sec>=0)
                 select(0, 0, 0, 0, &tt);
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
-- 
2.43.0


From 8b44aed30301b92b8db8b1f32ba0e30b3c1a5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 43/67] fix: playback could end without showing the last frames

If the loader added its last frames and finished between the player's look for
a next frame and its look at the flag, the player took itself to be done.
Decide that with the mutex held.
---
 play/player.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/play/player.c b/play/player.c
index 1fe974a..4064376 100644
--- a/play/player.c
+++ b/play/player.c
@@ -50,18 +50,16 @@ static int player(void *arg)
             pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, 0);
         }
         mutex_lock(waitm);
-        if (!(nf=ttyrec_next_frame(tr, fr)) && !loaded)
-            waiting=1;
-        if (waiting)
+        while (!(nf=ttyrec_next_frame(tr, fr)) && !loaded)
         {
+            waiting=1;
             pthread_cleanup_push(waitm_unlock, 0);
             cond_wait(waitc, waitm);
             pthread_cleanup_pop(0);
-            nf=ttyrec_next_frame(tr, fr);
         }
         mutex_unlock(waitm);
     }
-    while (nf || !loaded);
+    while (nf);
     return 0;
 }
 
-- 
2.43.0


From 84352593c454ce5a97ec1e3b79c0b52ae806dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 44/67] fix: pausing just as late data came upset playback's
 clock

---
 play/player.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/play/player.c b/play/player.c
index 4064376..c8566af 100644
--- a/play/player.c
+++ b/play/player.c
@@ -84,12 +84,12 @@ static void replay_stop(void)
 {
     if (!play_state)
         return;
+    play_state=0;
+    pthread_cancel(playth);
+    thread_join(playth);        // it might have been adjusting t0
     gettimeofday(&tc, 0);       // calc where we stopped
     tsub(tc, t0);
     tmul1000(tc, speed);
-    play_state=0;
-    pthread_cancel(playth);
-    thread_join(playth);
     if (loaded && !ttyrec_next_frame(tr, fr))
         tc=fr->t;               // no stopping past the end
 }
-- 
2.43.0


From b9b2952903033f95a6e530cf99d2185f5e6537e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 45/67] fix: marks and wide characters could get lost or
 misplaced on the user's terminal

---
 libtty/vtredir.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..1f10332 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -97,6 +97,8 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
     if (x>=SX || y>SY)
         return;
+    if (ch==VT100_CJK_RIGHT)
+        return; // comes together with the left half
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
     setattr(vt, attr);
@@ -117,15 +119,20 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
+    // no marks on newly written characters, but there may be on redrawn ones
+    for (uint32_t i=vt->scr[y*vt->sx+x].comb; i; i=vt->combs[i].next)
+        if (fprintf(DATA->f, "%lc", vt->combs[i].ch)<0)
+            clearerr(DATA->f);
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
     if (x>=SX || y>SY)
         return;
-    if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x+1, y);
+    x+= vt->scr[y*vt->sx+x].attr&VT100_ATTR_CJK ? 2 : 1;
+    if (x!=CX || y!=CY) // cursor should be _after_ the glyph
+        vtvt_cursor(vt, x, y);
     setattr(vt, attr);
     if (fprintf(DATA->f, "%lc", ch)<0)
         clearerr(DATA->f); // No fallback, just ignore.
-- 
2.43.0


From 2835cda1c7c55d921e28ea90b09054b827a6114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 46/67] fix: playback scrolled with a wrong background and lost
 the cursor

---
 libtty/vtredir.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 1f10332..7ae9d13 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -188,12 +188,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    setattr(vt, vt->attr);
     if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
     CX=CY=-1;
-    DATA->attr=0;
+    vtvt_cursor(vt, vt->cx, vt->cy);
 
 //  vtvt_dump(vt);
 }
-- 
2.43.0


From e5696e01c79275a6c4244cdc2f807abb96c25151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 47/67] fix: the user's terminal missed the effects of deleting
 characters and some cursor moves

---
 libtty/tty.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index cc4e027..6471324 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -941,6 +941,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
@@ -1043,6 +1044,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
                                               vt->scr[CY*SX+j].attr,
                                               mk_wcwidth(vt->scr[CY*SX+j].ch));
+                L_CURSOR;
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1068,6 +1070,8 @@ export void tty_write(tty vt, const char *buf, int len)
                     }
                 }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                if (vt->l_clear)
+                    vt->l_clear(vt, SX-i, CY, i);
                 break;
 
             case 'X':   // ESC[X -> erase to the right
-- 
2.43.0


From 99db01f3a3252b6a6f509887a633061bc7a9278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 48/67] fix: playback cleared too little if the terminal is
 larger than the recording

---
 libtty/vtredir.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 7ae9d13..1af7483 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -158,26 +158,26 @@ export void vtvt_dump(tty vt)
 
 static void vtvt_clear(tty vt, int x, int y, int len)
 {
-    int c;
+    int c, sx=vt->sx, sy=vt->sy; // not the size of user's terminal
 
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    if (x==0 && y==0 && len==sx*sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (x==0 && y==0 && len==CY*sx+CX)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (x==CX && y==CY && len==sx*sy-CY*sx-CX)
         fprintf(DATA->f, "\e[0J");
-    else if (x==0 && y==CY && len==SX)
+    else if (x==0 && y==CY && len==sx)
         fprintf(DATA->f, "\e[2K");
     else if (x==0 && y==CY && len==CX)
         fprintf(DATA->f, "\e[1K");
-    else if (x==CX && y==CY && len==SX-CX)
+    else if (x==CX && y==CY && len==sx-CX)
         fprintf(DATA->f, "\e[0K");
     else
         while (len)
         {
             vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
+            c=(len>sx-x)? sx-x : len;
             fprintf(DATA->f, "\e[%dX", c);
             len-=c;
             x=0;
-- 
2.43.0


From 1257e03df8b99ebdbfdaf56579f24d1da85165f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 49/67] fix: a terminal reset filled the screen with old
 attributes

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 6471324..3b969f3 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -258,11 +258,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
-- 
2.43.0


From 7e1276c94c10a4f3b2edb9d21db72496fdee73b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 50/67] fix: a resize within a recording left rubbish on the
 user's terminal

---
 libtty/vtredir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 1af7483..1d3c78b 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -214,6 +214,9 @@ static void vtvt_osc(tty vt, int cmd, const char *str)
 static void vtvt_resized(tty vt, int sx, int sy)
 {
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
+    // the terminal might have not obeyed, and still show what's been cut away
+    CX=CY=-1;
+    vtvt_dump(vt);
 }
 
 static void vtvt_flush(tty vt)
-- 
2.43.0


From dfcac428f6c349ac9ecf5b59b81c0e4854a3e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 51/67] fix: inserting lines at the bottom of the region
 garbled playback

---
 libtty/vtredir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 1d3c78b..55ab299 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -189,7 +189,9 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 static void vtvt_scroll(tty vt, int nl)
 {
     setattr(vt, vt->attr);
-    if (nl>0)
+    if (vt->s2-vt->s1<2) // terminals refuse regions this small
+        fprintf(DATA->f, "\e[%d;1f\e[2K", vt->s1+1);
+    else if (nl>0)
         fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
         fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
-- 
2.43.0


From 0b372b95f8aa0792009a6fd9ae14b1974dcc633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 52/67] fix: erasing up to the cursor went differently on the
 user's terminal

---
 libtty/tty.c     | 17 ++++++++---------
 libtty/vtredir.c |  4 ++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 3b969f3..fc4b9eb 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -954,10 +954,10 @@ export void tty_write(tty vt, const char *buf, int len)
                         cjk_damage_left(vt, CX, true);
                     CLEAR(CX, CY, SX*SY-(CY*SX+CX));
                     break;
-                case 1: // to cursor
-                    if (CX>0)
-                        cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, 0, CY*SX+CX);
+                case 1: // to cursor, inclusive
+                    i=CX<SX? CX+1 : SX;
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, 0, CY*SX+i);
                     break;
                 case 2: // whole screen
                     CLEAR(0, 0, SX*SY);
@@ -974,11 +974,10 @@ export void tty_write(tty vt, const char *buf, int len)
                     cjk_damage_left(vt, CX, true);
                     CLEAR(CX, CY, SX-CX);
                     break;
-                case 1: // to cursor
-                    if (CX<=0)
-                        break;
-                    cjk_damage_right(vt, CX-1, true);
-                    CLEAR(0, CY, CX);
+                case 1: // to cursor, inclusive
+                    i=CX<SX? CX+1 : SX;
+                    cjk_damage_right(vt, i-1, true);
+                    CLEAR(0, CY, i);
                     break;
                 case 2: // whole line
                     CLEAR(0, CY, SX);
diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 55ab299..27e989e 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -163,13 +163,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==sx*sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*sx+CX)
+    else if (x==0 && y==0 && len==CY*sx+CX+1 && CX<sx)
         fprintf(DATA->f, "\e[1J");
     else if (x==CX && y==CY && len==sx*sy-CY*sx-CX)
         fprintf(DATA->f, "\e[0J");
     else if (x==0 && y==CY && len==sx)
         fprintf(DATA->f, "\e[2K");
-    else if (x==0 && y==CY && len==CX)
+    else if (x==0 && y==CY && len==CX+1)
         fprintf(DATA->f, "\e[1K");
     else if (x==CX && y==CY && len==sx-CX)
         fprintf(DATA->f, "\e[0K");
-- 
2.43.0


From 48b7bffc1a0ef592b3e5319cb581a1dfcf17ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 53/67] fix: marks and erasing at the right edge went wrong on
 the user's terminal

---
 libtty/vtredir.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 27e989e..5e6782d 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -73,7 +73,7 @@ static void vtvt_cursor(tty vt, int x, int y)
     if (x==CX && y==CY)
         return;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
-    CX=x;
+    CX= x<SX? x : -1; // not the same as past the edge
     CY=y;
 }
 
@@ -128,11 +128,16 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
+    int width= attr&VT100_ATTR_CJK ? 2 : 1;
+
     if (x>=SX || y>SY)
         return;
-    x+= vt->scr[y*vt->sx+x].attr&VT100_ATTR_CJK ? 2 : 1;
-    if (x!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x, y);
+    if (x+width!=CX || y!=CY) // cursor should be _after_ the glyph
+    {
+        // ... and moving it there doesn't work at the right edge
+        vtvt_char(vt, x, y, vt->scr[y*vt->sx+x].ch, attr, width);
+        return;
+    }
     setattr(vt, attr);
     if (fprintf(DATA->f, "%lc", ch)<0)
         clearerr(DATA->f); // No fallback, just ignore.
@@ -161,9 +166,11 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     int c, sx=vt->sx, sy=vt->sy; // not the size of user's terminal
 
     setattr(vt, vt->attr);
+    if (x>=sx) // past the edge
+        x=0, y++;
     if (x==0 && y==0 && len==sx*sy)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*sx+CX+1 && CX<sx)
+    else if (x==0 && y==0 && len==CY*sx+CX+1 && CX>=0 && CX<sx)
         fprintf(DATA->f, "\e[1J");
     else if (x==CX && y==CY && len==sx*sy-CY*sx-CX)
         fprintf(DATA->f, "\e[0J");
-- 
2.43.0


From 037a31fedee1c37a9c9dad211eeff86f1ef07016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 54/67] fix: a mark on a half-covered wide character misplaced
 the cursor

---
 libtty/vtredir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 5e6782d..0d9c852 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -136,6 +136,7 @@ static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
     {
         // ... and moving it there doesn't work at the right edge
         vtvt_char(vt, x, y, vt->scr[y*vt->sx+x].ch, attr, width);
+        vtvt_cursor(vt, vt->cx, vt->cy);
         return;
     }
     setattr(vt, attr);
-- 
2.43.0


From f5a3790fe9be0957237ab2b5f97e863aaab45f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 55/67] fix: opening the first streams from several threads at
 once could hang the exit

Both threads could see the bookkeeping as not yet initialised, and the second
one would reset the count of streams and the lock after the first had started
using them.
---
 libstream/stream.c  | 20 ++++++++++++--------
 sys/unix/threads.h  |  4 ++++
 sys/win32/threads.h |  4 ++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libstream/stream.c b/libstream/stream.c
index c290e88..71a984e 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -51,7 +51,8 @@ struct filterdata
 };
 
 
-static int nstreams=-1;
+static int nstreams;
+static once_t started=ONCE_INIT;
 static cond_t exitcond;
 static mutex_t nsm;
 
@@ -98,6 +99,14 @@ export void reap_streams(void)
 #endif
 
 
+static void start_up(void)
+{
+    mutex_init(nsm);
+    cond_init(exitcond);
+    atexit(finish_up);
+}
+
+
 int filter(void func(int,int,const char*), int fd, int wr, const char *arg, const char **error)
 {
     int p[2];
@@ -126,13 +135,8 @@ int filter(void func(int,int,const char*), int fd, int wr, const char *arg, cons
     fdata->func=func;
     fdata->arg=arg;
 
-    if (nstreams==-1)
-    {
-        mutex_init(nsm);
-        cond_init(exitcond);
-        nstreams=0;
-        atexit(finish_up);
-    }
+    // the first streams may be opened by several threads at once
+    once_run(started, start_up);
 
 #ifndef IS_WIN32
     // The thread isn't to run the program's signal handlers; a vanished reader
diff --git a/sys/unix/threads.h b/sys/unix/threads.h
index 1da3650..3e1d3dd 100644
--- a/sys/unix/threads.h
+++ b/sys/unix/threads.h
@@ -35,3 +35,7 @@ static inline int unix_pthread_create(pthread_t *th, int det, void *start, void
 #define cond_destroy(x) pthread_cond_destroy(&x)
 #define cond_wait(x,m) pthread_cond_wait(&x, &m)
 #define cond_wake(x) pthread_cond_signal(&x)
+
+#define once_t pthread_once_t
+#define ONCE_INIT PTHREAD_ONCE_INIT
+#define once_run(x,f) pthread_once(&x, f)
diff --git a/sys/win32/threads.h b/sys/win32/threads.h
index 025e832..c3635cd 100644
--- a/sys/win32/threads.h
+++ b/sys/win32/threads.h
@@ -33,3 +33,7 @@ static inline int win32_thread_create_detached(thread_t *th, LPTHREAD_START_ROUT
 #define cond_destroy(x) CloseHandle(x);
 #define cond_wait(x,m) {mutex_unlock(m);WaitForSingleObject(x, 500);mutex_lock(m);}
 #define cond_wake(x) PulseEvent(x)
+
+#define once_t int
+#define ONCE_INIT 0
+#define once_run(x,f) {if (!(x)) {(x)=1; f();}}
-- 
2.43.0


From 220cbf97e5e2fc8742763ab975981f043f823566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 56/67] fix: tty_printf garbled output of 16 KB or more

It formatted the text into a bigger buffer then wrote the small one, reading
past its end.  Printing nothing leaked memory.
---
 libtty/tty.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index fc4b9eb..4265483 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1282,14 +1282,14 @@ export void tty_printf(tty vt, const char *fmt, ...)
     va_start(ap, fmt);
     len=vsnprintf(buf, BUFFER_SIZE, fmt, ap);
     va_end(ap);
-    if (len<=0)
+    if (len<0)
     {
         va_start(ap, fmt);
         len=vasprintf(&bigstr, fmt, ap);
         va_end(ap);
-        if (len<=0 || !bigstr)
+        if (len<0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1299,7 +1299,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From 54cfaf53e0866ad069fb92c99b3ea17d6a3b37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 57/67] fix: line graphics could be garbled when first shown by
 two threads at once

The reverse mapping was put up for use before it was filled in.  It's short
enough to be searched directly, without a table (and aborting when there's no
memory for it).
---
 libtty/vtredir.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 0d9c852..541a646 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -77,20 +77,13 @@ static void vtvt_cursor(tty vt, int x, int y)
     CY=y;
 }
 
-#define MAXVT100GRAPH 0x2666 // biggest codepoint is U+2666 BLACK DIAMOND
-static char *vt100graph = 0;
-static void build_vt100graph(void)
+// the reverse mapping Unicode->tty_graphic
+static char vt100graph(ucs ch)
 {
-    int i;
-
-    /* the reverse mapping Unicode->tty_graphic takes a chunk of memory, so
-       build it only on demand.  This won't happen most of the time. */
-    if (!(vt100graph=malloc(MAXVT100GRAPH+1)))
-        abort();
-    memset(vt100graph, 0, MAXVT100GRAPH+1);
-    for (i=32; i<127; i++)
-        if (charset_vt100[i]<=MAXVT100GRAPH)
-            vt100graph[charset_vt100[i]]=i;
+    for (int i=126; i>=32; i--)
+        if (charset_vt100[i]==ch)
+            return i;
+    return 0;
 }
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
@@ -109,10 +102,9 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
             fprintf(DATA->f, "??"); // nothing is wide in cp437
         else if (vt->cp437)
         {
-            if (!vt100graph)
-                build_vt100graph();
-            if (ch<=MAXVT100GRAPH && vt100graph[ch])
-                fprintf(DATA->f, "\016%c\017", vt100graph[ch]);
+            char g=vt100graph(ch);
+            if (g)
+                fprintf(DATA->f, "\016%c\017", g);
             else
                 fprintf(DATA->f, "?");
         }
-- 
2.43.0


From 6cceba149ccdcc26b3643c2f330d363f31dcb72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 58/67] fix: terminals crashed or were copied inexactly when
 out of memory

---
 libtty/tty.c     | 22 +++++++++++++++++-----
 libtty/vtredir.c |  5 ++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 4265483..bd03d55 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -110,7 +110,11 @@ export tty tty_init(int sx, int sy, int resizable)
     vt->allow_resize=resizable;
     tty_reset(vt);
     if (sx && sy)
-        tty_resize(vt, sx, sy);
+        if (!tty_resize(vt, sx, sy))
+        {
+            free(vt);
+            return 0;
+        }
     return vt;
 }
 
@@ -197,10 +201,14 @@ export tty tty_copy(tty vt)
             goto drop_scr;
         memcpy(nvt->combs, vt->combs, NCOMBS*sizeof(combc));
     }
-    nvt->title=vt->title? strdup(vt->title) : 0;
+    if (vt->title && !(nvt->title=strdup(vt->title)))
+        goto drop_combs;
     if (vt->oscbuf)
-        if ((nvt->oscbuf=malloc(MAXOSC)))
-            memcpy(nvt->oscbuf, vt->oscbuf, vt->osclen);
+    {
+        if (!(nvt->oscbuf=malloc(MAXOSC)))
+            goto drop_title;
+        memcpy(nvt->oscbuf, vt->oscbuf, vt->osclen);
+    }
     // callbacks belong to the original
     nvt->l_data=0;
     nvt->l_char=0;
@@ -216,6 +224,10 @@ export tty tty_copy(tty vt)
     nvt->l_free=0;
     return nvt;
 
+drop_title:
+    free(nvt->title);
+drop_combs:
+    free(nvt->combs);
 drop_scr:
     free(nvt->scr);
 drop_nvt:
@@ -1151,7 +1163,7 @@ export void tty_write(tty vt, const char *buf, int len)
                         break;
                     tty_resize(vt, vt->tok[2], vt->tok[1]);
                     if (vt->l_resize)
-                        vt->l_resize(vt, vt->tok[2], vt->tok[1]);
+                        vt->l_resize(vt, SX, SY);
                     break;
                 default:
                     debuglog("Unknown extended window manipulation: %d\n", vt->tok[0]);
diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 541a646..be0a07d 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -243,7 +243,10 @@ export void vtvt_resize(tty vt, int sx, int sy)
 
 export void vtvt_attach(tty vt, FILE *f, int dump)
 {
-    vt->l_data=malloc(sizeof(struct vtvt_data));
+    void *data=malloc(sizeof(struct vtvt_data));
+    if (!data)
+        return;
+    vt->l_data=data;
     CX=CY=-1;
     DATA->attr=-1;
     DATA->f=f;
-- 
2.43.0


From 8a28d12ba4748ffa736165560fc414c4bc637cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 59/67] fix: a wide character on a terminal one column wide
 overflowed the screen

---
 libtty/tty.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index bd03d55..3936527 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -424,6 +424,11 @@ static inline void tty_write_char(tty vt, ucs c)
 
     if (c<128 && vt->G&(1<<vt->curG))
         c=charset_vt100[c];
+    if (w>SX) // no room at all
+    {
+        c=CJK_DAMAGED;
+        w=1;
+    }
     if (CX+w>SX)
     {
         if (vt->opt_auto_wrap)
-- 
2.43.0


From 218235929342f34e436a79553d754de9ab97c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 60/67] fix: timelines crashed or lost frames silently when out
 of memory

---
 libtty/timeline.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index b0b21cf..7dc3f71 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/time.h>
+#include <unistd.h>
 #include "error.h"
 #include "tty.h"
 
@@ -23,6 +24,7 @@ typedef struct ttyrec
     tty tev_vt;
     int nchunk;
     struct timeval ndelay;
+    int failed; // some frame couldn't be stored
 } *ttyrec;
 #define _TTYREC_H_NO_TYPES
 #include "ttyrec.h"
@@ -51,10 +53,14 @@ static void synch_print(const char *buf, int len, void *arg)
     struct ttyrec_frame *nf;
 
     if (!(nf=malloc(sizeof(struct ttyrec_frame))))
+    {
+        tr->failed=1;
         return;
-    if (!(nf->data=malloc(len)))
+    }
+    if (!(nf->data=malloc(len? len : 1)))
     {
         free(nf);
+        tr->failed=1;
         return;
     }
     nf->len=len;
@@ -80,17 +86,29 @@ export ttyrec ttyrec_init(tty vt)
 {
     ttyrec tr = malloc(sizeof(struct ttyrec));
     if (!tr)
+    {
+        tty_free(vt);
         return NULL;
+    }
     memset(tr, 0, sizeof(struct ttyrec));
+    tr->tev_vt = vt? vt : tty_init(80, 25, 1);
     tr->tev_head = malloc(sizeof(struct ttyrec_frame));
+    if (!tr->tev_vt || !tr->tev_head)
+        goto failed;
     memset(tr->tev_head, 0, sizeof(struct ttyrec_frame));
     tr->tev_tail=tr->tev_head;
     tr->nchunk=SNAPSHOT_CHUNK;
 
-    tr->tev_vt = vt? vt : tty_init(80, 25, 1);
-    tr->tev_head->snapshot = tty_copy(tr->tev_vt);
+    if (!(tr->tev_head->snapshot = tty_copy(tr->tev_vt)))
+        goto failed;
 
     return tr;
+
+failed:
+    free(tr->tev_head);
+    tty_free(tr->tev_vt);
+    free(tr);
+    return NULL;
 }
 
 
@@ -121,8 +139,13 @@ export ttyrec ttyrec_load(int fd, const char *format, const char *filename, tty
     ttyrec tr;
 
     if (!(tr=ttyrec_init(vt)))
+    {
+        if (fd!=-1)
+            close(fd);
         return 0;
-    if (!ttyrec_r_play(fd, format, filename, synch_init_wait, synch_wait, synch_print, tr))
+    }
+    if (!ttyrec_r_play(fd, format, filename, synch_init_wait, synch_wait, synch_print, tr)
+        || tr->failed)
     {
         ttyrec_free(tr);
         return 0;
-- 
2.43.0


From 13c037b8895f1681b8345fe280ad9529ff9c5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 61/67] fix: recorders and players crashed or lost data when
 out of memory

---
 libtty/asciicast.c | 45 ++++++++++++++++++++++++++++-----------------
 libtty/files.c     | 19 +++++++++++++++++--
 libtty/formats.c   | 10 +++++++---
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 3839802..13a1282 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -433,11 +433,19 @@ struct ac_state
     char version;
     char putf[4];
     struct timeval ts;
+    tty vt; // to learn the screen's size
 };
 
 void* record_asciicast_init(FILE *f, const struct timeval *tm)
 {
     struct ac_state *as = malloc(sizeof(struct ac_state));
+    if (!as)
+        return 0;
+    if (!(as->vt = tty_init(80, 25, 1)))
+    {
+        free(as);
+        return 0;
+    }
     as->head_done = false;
     as->need_comma = false;
     if (tm)
@@ -495,7 +503,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     if (!as->head_done)
     {
         // need to play first frame to fetch screen size
-        tty vt = tty_init(80, 25, 1);
+        tty vt = as->vt;
+        as->vt = 0;
         tty_write(vt, buf, len);
         fprintf(f, "{\"version\":%d, \"width\":%d, \"height\":%d",
             as->version, vt->sx, vt->sy);
@@ -514,24 +523,25 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
             return;
     }
 
-    char *buf2 = 0;
-    int skip = strlen(as->putf);
-    if (skip)
-        if ((buf2 = malloc(skip + len)))
-        {
-            memcpy(buf2, as->putf, skip);
-            memcpy(buf2+skip, buf, len);
-            buf = buf2;
-            len+=skip;
-        }
-        else
-            return;
+    // complete the character the last piece ended within
+    char head[4];
+    int hlen = strlen(as->putf);
+    memcpy(head, as->putf, hlen);
+    while (len && hlen && hlen<4 && (*buf&0xc0)==0x80 && skip_partial_utf(head, hlen))
+        head[hlen++]=*buf++, len--;
+    int skip;
+    if (!len && (skip = skip_partial_utf(head, hlen)))
+    {
+        memcpy(as->putf, head, skip);
+        as->putf[skip]=0;
+        return;
+    }
     skip = skip_partial_utf(buf, len);
     len-=skip;
     memcpy(as->putf, buf+len, skip);
     as->putf[skip]=0;
 
-    if (!len)
+    if (!hlen && !len)
         return;
 
     if (as->version == 1)
@@ -547,6 +557,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     }
     else
         fprintf(f, "[%f, \"o\", \"", tm->tv_sec-as->ts.tv_sec+tm->tv_usec*0.000001);
+    fwrite(head, 1, hlen, f);
     while (len-->0 && !ferror(f))
     {
         if (((unsigned char)*buf)<' ')
@@ -566,8 +577,6 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     }
     if (!ferror(f))
         fprintf(f, as->version==1? "\"]" : "\"]\n");
-    if (buf2)
-        free(buf2);
 }
 
 void record_asciicast_finish(FILE *f, void* state)
@@ -577,6 +586,7 @@ void record_asciicast_finish(FILE *f, void* state)
         record_asciicast(f, state, &as->ts, "", 0);
     if (as->version == 1 && !ferror(f))
         fprintf(f, "\n]}\n");
+    tty_free(as->vt);
     free(state);
 }
 
@@ -584,6 +594,7 @@ void record_asciicast_finish(FILE *f, void* state)
 void* record_asciicast_v1_init(FILE *f, const struct timeval *tm)
 {
     struct ac_state *as = record_asciicast_init(f, tm);
-    as->version=1;
+    if (as)
+        as->version=1;
     return as;
 }
diff --git a/libtty/files.c b/libtty/files.c
index fb3e528..4c82660 100644
--- a/libtty/files.c
+++ b/libtty/files.c
@@ -97,8 +97,19 @@ export recorder ttyrec_w_open(int fd, const char *format, const char *filename,
 
     r->format=&rec[nf];
     r->f=fdopen(fd, "wb");
-    assert(r->f);
+    if (!r->f)
+    {
+        close(fd);
+        free(r);
+        return 0;
+    }
     r->state=(r->format)->init(r->f, tm);
+    if (!r->state)
+    {
+        fclose(r->f);
+        free(r);
+        return 0;
+    }
     return r;
 }
 
@@ -240,7 +251,11 @@ export int ttyrec_r_play(int fd, const char *format, const char *filename,
         synch_print=(void*)dummyfunc;
 
     f=fdopen(fd, "rb");
-    assert(f);
+    if (!f)
+    {
+        close(fd);
+        return 0;
+    }
     (*play[nf].play)(f, synch_init_wait, synch_wait, synch_print, arg, 0);
     fclose(f);
     return 1;
diff --git a/libtty/formats.c b/libtty/formats.c
index e998330..0ea8b0b 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -134,7 +134,7 @@ static void play_baudrate(FILE *f,
 
 static void* record_baudrate_init(FILE *f, const struct timeval *tm)
 {
-    return 0;
+    return f; // no state, but not a failure
 }
 
 static void record_baudrate(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
@@ -187,6 +187,8 @@ static void* record_live_init(FILE *f, const struct timeval *tm)
     struct timeval *tv;
 
     tv=malloc(sizeof(struct timeval));
+    if (!tv)
+        return 0;
     gettimeofday(tv, 0);
     if (tm)
         tsub(*tv, *tm);
@@ -312,7 +314,7 @@ the_end:;
 
 static void* record_ttyrec_init(FILE *f, const struct timeval *tm)
 {
-    return 0;
+    return f; // no state, but not a failure
 }
 
 static void record_ttyrec(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
@@ -395,6 +397,8 @@ static void* record_nh_recorder_init(FILE *f, const struct timeval *tm)
     struct timeval *tv;
 
     tv=malloc(sizeof(struct timeval));
+    if (!tv)
+        return 0;
     if (tm)
         *tv=*tm;
     else
@@ -511,7 +515,7 @@ static void play_auto(FILE *f,
 
 static void* record_null_init(FILE *f, const struct timeval *tm)
 {
-    return 0;
+    return f; // no state, but not a failure
 }
 
 static void record_null(FILE *f, void* state, const struct timeval *tm, const char *buf, int len)
-- 
2.43.0


From ffec77d74a3d62b35a138c03dcd6013e58e205d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 62/67] fix: programs crashed when out of memory

---
 common/open_out.c |  5 ++++-
 play/player.c     | 20 ++++++++++++++------
 play/termplay.c   |  6 +++++-
 rec/pty.c         | 11 ++++++-----
 rec/termrec.c     |  6 +++++-
 5 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/common/open_out.c b/common/open_out.c
index 744a4e9..0ff5ac5 100644
--- a/common/open_out.c
+++ b/common/open_out.c
@@ -68,7 +68,10 @@ int open_out(char **file_name, const char *format_ext, int append)
         while (1)
         {
             if (asprintf(file_name, "%s%s%s%s", date, add, format_ext, append?"":comp_ext) == -1)
-                abort();
+            {
+                *file_name=0;
+                die("%s\n", _("Out of memory"));
+            }
             fd=open(*file_name, (append?O_APPEND:O_CREAT|O_EXCL)|O_WRONLY|O_BINARY, 0666);
             // We do some autoconf magic to exclude O_BINARY when inappropriate.
             if (fd!=-1)
diff --git a/play/player.c b/play/player.c
index c8566af..f98a94c 100644
--- a/play/player.c
+++ b/play/player.c
@@ -95,6 +95,17 @@ static void replay_stop(void)
 }
 
 
+// show the screen at the given point
+static void show(const struct timeval *t)
+{
+    if (!(fr=ttyrec_seek(tr, t, &term)))
+        die("Out of memory\n");
+    vtvt_attach(term, stdout, 1);
+    if (!term->l_data)
+        die("Out of memory\n");
+}
+
+
 static void adjust_pos(int diff)
 {
     int old_state=play_state;
@@ -103,8 +114,7 @@ static void adjust_pos(int diff)
     tc.tv_sec+=diff;
     if (tc.tv_sec<0)
         tc.tv_sec=tc.tv_usec=0;
-    fr=ttyrec_seek(tr, &tc, &term);
-    vtvt_attach(term, stdout, 1);
+    show(&tc);
     if (old_state)
         replay_start();
 }
@@ -147,8 +157,7 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
-    fr=ttyrec_seek(tr, &tc, &term);
-    vtvt_attach(term, stdout, 1);
+    show(&tc);
 }
 
 static void adv_frame(int dummy)
@@ -219,8 +228,7 @@ void replay(void)
 
     play_state=0;
     tc.tv_sec=tc.tv_usec=0;
-    fr=ttyrec_seek(tr, 0, &term);
-    vtvt_attach(term, stdout, 1);
+    show(0);
     replay_start();
 
     while (1)
diff --git a/play/termplay.c b/play/termplay.c
index cec3e7b..7dc615c 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -192,7 +192,11 @@ int main(int argc, char **argv)
         die("%s: %s\n", play_name, error);
     sx=80; sy=25;
     get_tty_size(1, &sx, &sy);
-    tr=ttyrec_init(tty_init(sx, sy, 1));
+    if (!(tr=ttyrec_init(tty_init(sx, sy, 1))))
+    {
+        close(fd);
+        die("Out of memory\n");
+    }
     mutex_init(waitm);
     cond_init(waitc);
     waiting=0;
diff --git a/rec/pty.c b/rec/pty.c
index 861adc0..efa3a17 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -200,9 +200,12 @@ void pty_makeraw(struct termios *ta)
 int run(const char *command, int sx, int sy, int *pid)
 {
     int fd;
-
+    char *cmd;
     struct winsize ws;
 
+    if (asprintf(&cmd, "exec %s", command) == -1)
+        return -1;
+
     ws.ws_row=sy;
     ws.ws_col=sx;
     ws.ws_xpixel=0;
@@ -211,14 +214,11 @@ int run(const char *command, int sx, int sy, int *pid)
     switch (*pid=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
+        free(cmd);
         return -1;
     case 0:
         {
             const char *argv[4];
-            char *cmd;
-
-            if (asprintf(&cmd, "exec %s", command) == -1)
-                abort();
             argv[0]="sh";
             argv[1]="-c";
             argv[2]=cmd;
@@ -228,6 +228,7 @@ int run(const char *command, int sx, int sy, int *pid)
             exit(127);
         }
     default:
+        free(cmd);
         return fd;
     }
 
diff --git a/rec/termrec.c b/rec/termrec.c
index 9741ef5..e306c23 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -197,7 +197,11 @@ int main(int argc, char **argv)
 
     gettimeofday(&tv, 0);
 
-    rec=ttyrec_w_open(record_f, format, record_name, &tv);
+    if (!(rec=ttyrec_w_open(record_f, format, record_name, &tv)))
+    {
+        fprintf(stderr, "Out of memory.\n");
+        return 1;
+    }
     need_utf=!strcmp(nl_langinfo(CODESET), "UTF-8");
     record_size();
 
-- 
2.43.0


From 59625f0027c561c12edfc2023b084b46391dd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 63/67] fix: termrec hung instead of ending when its output
 broke while compressing

exit() waits for the compressor, which waited for the recording to be closed.
The same if pselect() failed.
---
 rec/termrec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rec/termrec.c b/rec/termrec.c
index e306c23..56a4308 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -53,6 +53,10 @@ static void sigpipe(int s)
 {
     tty_restore();
     fprintf(stderr, "Broken pipe.  Disk full?\n");
+    // it may be not the recording that broke: let its compressor finish, or
+    // exit() would wait for it forever
+    fflush(0);
+    close(record_f);
     exit(1);
 }
 
@@ -233,6 +237,7 @@ int main(int argc, char **argv)
             if (errno==EINTR)
                 continue;
             tty_restore();
+            ttyrec_w_close(rec); // or exit() would wait for the compressor forever
             die("pselect()");
         }
 
-- 
2.43.0


From 55fed62098f5828a22890514e244144cf5312457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 64/67] fix: an asciicast got a stray bit of an event after a
 failed write

The comma between events could fail to be written while what followed it
remained in the buffer, to be written on close if the disk has recovered.
---
 libtty/asciicast.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 13a1282..20d76f7 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -546,18 +546,16 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 
     if (as->version == 1)
     {
-        if (as->need_comma)
-            fprintf(f, ",\n");
-        else
-            as->need_comma = true;
         struct timeval ts = *tm;
         tsub(ts, as->ts);
         as->ts = *tm;
-        fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
+        fprintf(f, "%s[%f, \"", as->need_comma? ",\n" : "", ts.tv_sec+ts.tv_usec*0.000001);
+        as->need_comma = true;
     }
     else
         fprintf(f, "[%f, \"o\", \"", tm->tv_sec-as->ts.tv_sec+tm->tv_usec*0.000001);
-    fwrite(head, 1, hlen, f);
+    if (!ferror(f))
+        fwrite(head, 1, hlen, f);
     while (len-->0 && !ferror(f))
     {
         if (((unsigned char)*buf)<' ')
-- 
2.43.0


From d944b4bb019be2cbd87797bbf7bd0725e2e5003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 65/67] fix: halves of wide characters were reported as
 characters of their own

When inserting or deleting characters moved a wide one, l_char was called
for its right half too, with VT100_CJK_RIGHT as a character of width 1.  The
half comes together with the character, as when it is first written.
---
 libtty/tty.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 3936527..a69c3a7 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1057,9 +1057,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 tty_clear_region(vt, CY*SX+CX, i, false);
                 if (vt->l_char)
                     for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                        if (vt->scr[CY*SX+j].ch!=VT100_CJK_RIGHT)
+                            vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
+                                                  vt->scr[CY*SX+j].attr,
+                                                  mk_wcwidth(vt->scr[CY*SX+j].ch));
                 L_CURSOR;
                 break;
 
@@ -1078,7 +1079,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=CX+i;j<SX;j++)
                 {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
+                    if (vt->l_char && vt->scr[CY*SX+j].ch!=VT100_CJK_RIGHT)
                     {
                         vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
                                                 vt->scr[CY*SX+j].attr,
-- 
2.43.0


From c5eed74672e2350bd95fd00701c551f395a8b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 66/67] fix: a terminal reset changed flags without reporting
 it

\e[c makes the cursor visible and the keypad numeric again, those who know
of these only from l_flag were left with a hidden cursor.
---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index a69c3a7..30b34c2 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1145,6 +1145,8 @@ export void tty_write(tty vt, const char *buf, int len)
 
             case 'c':   // ESC[c -> reset to power-on defaults
                 tty_reset(vt);
+                FLAG(opt_cursor, VT100_FLAG_CURSOR, 1);
+                FLAG(opt_kpad, VT100_FLAG_KPAD, 0);
                 if (vt->l_clear)
                     vt->l_clear(vt, 0, 0, SX*SY);
                 L_CURSOR;
-- 
2.43.0


From 1c1203d7ea14b41f1f56214b3866935ca16835d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 67/67] fix: drawing a terminal when attaching to it could stay
 in a buffer

---
 libtty/vtredir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index be0a07d..4652825 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -270,6 +270,6 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     {
         fprintf(DATA->f, "\ec");
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(f);
     }
 }
-- 
2.43.0

