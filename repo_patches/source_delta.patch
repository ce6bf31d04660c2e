From f9b488b237a8d7b364795a783f64a5a6506d64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 01/56] sim: collection schedule seam in gc_check, off by
 default (MES_SIM)

---
 src/gc.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..f0ef34d 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -30,6 +30,40 @@
 
 int g_dump_filedes;
 
+#if MES_SIM
+/* Simulation seam, off by default: a table of distances, in collection
+   points, that decides which of them collect; a negative entry means
+   no more forced collections.  */
+long *g_sim_gc;
+
+int
+sim_gc_p ()
+{
+  if (g_sim_gc == 0)
+    return 0;
+  if (g_sim_gc[0] < 0)
+    return 0;
+  if (g_sim_gc[0] > 0)
+    {
+      g_sim_gc[0] = g_sim_gc[0] - 1;
+      return 0;
+    }
+  g_sim_gc = g_sim_gc + 1;
+  return 1;
+}
+
+/* Make whatever the collection has freed unusable.  */
+void
+sim_gc_poison (char *high)
+{
+  if (g_sim_gc == 0)
+    return;
+  char *p = cast_voidp_to_charp (g_free);
+  if (p < high)
+    memset (p, 0xdb, high - p);
+}
+#endif /* MES_SIM */
+
 #define M2_CELL_SIZE 1U
 // CONSTANT M2_CELL_SIZE 12
 
@@ -466,6 +500,9 @@ gc_flip ()
     JAM_SIZE = (g_free - g_news) + ((g_free - g_news) / 2);
 
   cell_arena = g_cells - M2_CELL_SIZE; /* For debugging. */
+#if MES_SIM
+  char *sim_high = cast_voidp_to_charp (g_free);
+#endif
   gc_cellcpy (g_cells, g_news, (g_free - g_news) / M2_CELL_SIZE);
 
   long dist = g_news - g_cells;
@@ -479,6 +516,10 @@ gc_flip ()
   for (i = g_stack; i < STACK_SIZE; i = i + 1)
     g_stack_array[i] = g_stack_array[i] - dist;
 
+#if MES_SIM
+  sim_gc_poison (sim_high);
+#endif
+
   if (g_debug > 2)
     gc_stats_ (";;; => jam");
 }
@@ -595,6 +636,10 @@ gc_loop (struct scm *scan)
 struct scm *
 gc_check ()
 {
+#if MES_SIM
+  if (sim_gc_p ())
+    return gc ();
+#endif
   long used = ((g_free - g_cells) / M2_CELL_SIZE) + GC_SAFETY;
   if (used >= ARENA_SIZE)
     return gc ();
-- 
2.43.0


From c55eea7d5e3c09189a7fa72b2c1147edb3af8e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 02/56] fix: keep the displayed object alive across struct
 printers

Displaying a pair, vector or struct whose part has a printer procedure
applies that printer, which may collect garbage and move the object
being displayed.
---
 src/display.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..c45504e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -100,6 +100,21 @@ fdwrite_string (char *s, int length, int fd)
 
 struct scm *display_helper (struct scm *x, int cont, char *sep, int fd, int write_p);
 
+/* Display CHILD, a part of X.  That may apply a printer and so collect
+   garbage: keep X alive meanwhile, and return where it is now.  */
+struct scm *
+display_child (struct scm *x, struct scm *child, int fd, int write_p)   /*:((internal)) */
+{
+  gc_push_frame ();
+  R1 = x;
+  gc_push_frame ();
+  fdisplay_ (child, fd, write_p);
+  gc_pop_frame ();
+  x = R1;
+  gc_pop_frame ();
+  return x;
+}
+
 struct scm *
 display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
 {
@@ -158,7 +173,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           while (x != cell_nil && i < 10)
             {
               i = i + 1;
-              fdisplay_ (x->car->car, fd, write_p);
+              x = display_child (x, x->car->car, fd, write_p);
               fdputs (" ", fd);
               x = x->cdr;
             }
@@ -167,7 +182,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       else
         {
           if (x != 0 && x != cell_nil)
-            fdisplay_ (x->car, fd, write_p);
+            x = display_child (x, x->car, fd, write_p);
           if (x->cdr != 0 && x->cdr->type == TPAIR)
             display_helper (x->cdr, 1, " ", fd, write_p);
           else if (x->cdr != 0 && x->cdr != cell_nil)
@@ -221,14 +236,14 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       else
         {
           fdputs ("#<", fd);
-          fdisplay_ (x->structure, fd, write_p);
+          x = display_child (x, x->structure, fd, write_p);
           struct scm *t = x->car;
           long size = x->length;
           long i;
           for (i = 2; i < size; i = i + 1)
             {
               fdputc (' ', fd);
-              fdisplay_ (cell_ref (x->structure, i), fd, write_p);
+              x = display_child (x, cell_ref (x->structure, i), fd, write_p);
             }
           fdputc ('>', fd);
         }
@@ -242,7 +257,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
         {
           if (i != 0)
             fdputc (' ', fd);
-          fdisplay_ (cell_ref (x->vector, i), fd, write_p);
+          x = display_child (x, cell_ref (x->vector, i), fd, write_p);
         }
       fdputc (')', fd);
     }
-- 
2.43.0


From 4a62b8cc0c1075f87dd89e8ca4e1025e39fd44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 03/56] fix: vector->list: do not hand out cells inside the
 vector

A list that refers to number and character cells inside the vector makes
the collector fail with "broken heart" when it meets the list before the
vector.
---
 src/vector.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 0fc8404..da9d947 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -130,9 +130,7 @@ vector_to_list (struct scm *v)
   struct scm *e;
   for (i = v->length; i; i = i - 1)
     {
-      e = cell_ref (v->vector, i - 1);
-      if (e->type == TREF)
-        e = e->ref;
+      e = vector_ref_ (v, i - 1);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From 9c6068bd2d80f59787e4a4a30041ad331d75b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 04/56] fix: va_start of MesCC for a narrow last parameter on
 x86_64

---
 include/stdarg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 6a8fee6..47d71a5 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -35,7 +35,7 @@
 #endif
 
 typedef char *va_list;
-#define va_start(ap, last) (void)((ap) = (char*)(&(last) + 1))
+#define va_start(ap, last) (void)((ap) = ((char*)&(last)) + sizeof (void*))
 #define va_arg(ap, type) (type)(((long*)((ap) = ((ap) + sizeof (void*))))[-1])
 #define va_align(ap, alignment) ((char*)((((unsigned long) (ap)) + (alignment) - 1) &~ ((alignment) - 1)))
 #define va_arg8(ap, type) (type)(((double*)((ap) = (va_align((ap), 8) + sizeof(double))))[-1])
-- 
2.43.0


From 2788d14d3c64581c4ce0a6f15ce1935f6ebf0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 05/56] fix: variadic arguments of open, fcntl and ioctl on
 x86_64

---
 lib/linux/fcntl.c | 12 +++++++++---
 lib/linux/ioctl.c | 12 +++++++++---
 lib/posix/open.c  | 10 ++++++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/linux/fcntl.c b/lib/linux/fcntl.c
index e10e734..4b085e4 100644
--- a/lib/linux/fcntl.c
+++ b/lib/linux/fcntl.c
@@ -25,10 +25,16 @@
 int
 fcntl (int filedes, int command, ...)
 {
+#if __GNUC__ && __x86_64__      // arguments are in registers
+  __builtin_va_list ap;
+  __builtin_va_start (ap, command);
+  long data = __builtin_va_arg (ap, long);
+  __builtin_va_end (ap);
+#else
   va_list ap;
   va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, (int) data);
+  long data = va_arg (ap, long);
   va_end (ap);
-  return r;
+#endif
+  return _sys_call3 (SYS_fcntl, (int) filedes, (int) command, data);
 }
diff --git a/lib/linux/ioctl.c b/lib/linux/ioctl.c
index 0e6e14a..6edd659 100644
--- a/lib/linux/ioctl.c
+++ b/lib/linux/ioctl.c
@@ -26,10 +26,16 @@
 int
 ioctl (int filedes, unsigned long command, ...)
 {
+#if __GNUC__ && __x86_64__      // arguments are in registers
+  __builtin_va_list ap;
+  __builtin_va_start (ap, command);
+  long data = __builtin_va_arg (ap, long);
+  __builtin_va_end (ap);
+#else
   va_list ap;
   va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, (int) data);
+  long data = va_arg (ap, long);
   va_end (ap);
-  return r;
+#endif
+  return _sys_call3 (SYS_ioctl, (int) filedes, (long) command, data);
 }
diff --git a/lib/posix/open.c b/lib/posix/open.c
index 490c3ec..a7d0bf4 100644
--- a/lib/posix/open.c
+++ b/lib/posix/open.c
@@ -34,12 +34,18 @@ open (char const *file_name, int flags, ...)
 {
   if (flags & O_CREAT)
     {
+#if __GNUC__ && __x86_64__      // arguments are in registers
+      __builtin_va_list ap;
+      __builtin_va_start (ap, flags);
+      int mask = __builtin_va_arg (ap, int);
+      __builtin_va_end (ap);
+#else
       va_list ap;
       va_start (ap, flags);
       int mask = va_arg (ap, int);
-      int r = _open3 (file_name, flags, mask);
       va_end (ap);
-      return r;
+#endif
+      return _open3 (file_name, flags, mask);
     }
   else
     return _open2 (file_name, flags);
-- 
2.43.0


From df6e5d1c2d7b7e7ad3009a22aa691a1fcab082a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 06/56] fix: pipe: do not truncate the array pointer

---
 lib/linux/pipe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linux/pipe.c b/lib/linux/pipe.c
index 0ed4c23..68c426b 100644
--- a/lib/linux/pipe.c
+++ b/lib/linux/pipe.c
@@ -23,7 +23,7 @@
 #include <unistd.h>
 
 int
-pipe (int filedes[2])
+pipe (int *filedes)
 {
   return _sys_call1 (SYS_pipe, (long) filedes);
 }
-- 
2.43.0


From 60be9ee168e3b1aab7e70b3dc70219a56317a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 07/56] fix: one file position under read-ahead, pushback, dup
 and failing calls

---
 include/mes/lib.h         |  4 +++
 lib/linux/close.c         |  1 +
 lib/linux/dup.c           | 14 +++++++++-
 lib/linux/dup2.c          | 14 +++++++++-
 lib/linux/lseek.c         | 18 ++++++++-----
 lib/mes/__buffered_read.c | 55 ++++++++++++++++++++++++++++++++++++---
 lib/mes/fdgetc.c          | 13 ++++++---
 lib/mes/fdungetc.c        |  2 ++
 lib/posix/write.c         |  7 +++--
 lib/stdio/ftell.c         | 10 ++++++-
 lib/stub/lseek.c          |  6 +++++
 11 files changed, 127 insertions(+), 17 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 549cca1..6514e7d 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -68,8 +68,12 @@ extern void (*__call_at_exit) (void);
 
 #if !SYSTEM_LIBC
 void __assert_fail (char *s);
+long _lseek (int filedes, long offset, int whence);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
+void __buffered_read_share (int filedes);
+void __buffered_read_unshare (int filedes);
+void __buffered_read_restore (int filedes, size_t size);
 void _exit (int code);
 long brk (void *addr);
 #endif // !SYSTEM_LIBC
diff --git a/lib/linux/close.c b/lib/linux/close.c
index e25e831..c2ecd4e 100644
--- a/lib/linux/close.c
+++ b/lib/linux/close.c
@@ -27,5 +27,6 @@ close (int filedes)
 {
   __ungetc_clear (filedes);
   __buffered_read_clear (filedes);
+  __buffered_read_unshare (filedes);
   return _sys_call1 (SYS_close, (int) filedes);
 }
diff --git a/lib/linux/dup.c b/lib/linux/dup.c
index 9237ef9..c3ad03d 100644
--- a/lib/linux/dup.c
+++ b/lib/linux/dup.c
@@ -20,10 +20,22 @@
 
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <mes/lib.h>
+#include <stdio.h>
+#include <unistd.h>
 
 int
 dup (int old)
 {
   long long_old = old;
-  return _sys_call1 (SYS_dup, long_old);
+  lseek (old, 0, SEEK_CUR);
+  int r = _sys_call1 (SYS_dup, long_old);
+  if (r >= 0)
+    {
+      __ungetc_clear (r);
+      __buffered_read_clear (r);
+      __buffered_read_share (old);
+      __buffered_read_share (r);
+    }
+  return r;
 }
diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index ef99627..e12a7a4 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -20,11 +20,23 @@
 
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <mes/lib.h>
+#include <stdio.h>
+#include <unistd.h>
 
 int
 dup2 (int old, int new)
 {
   long long_old = old;
   long long_new = new;
-  return _sys_call2 (SYS_dup2, long_old, long_new);
+  lseek (old, 0, SEEK_CUR);
+  int r = _sys_call2 (SYS_dup2, long_old, long_new);
+  if (r >= 0 && old != new)
+    {
+      __ungetc_clear (new);
+      __buffered_read_clear (new);
+      __buffered_read_share (old);
+      __buffered_read_share (new);
+    }
+  return r;
 }
diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..4aff7f8 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -24,23 +24,29 @@
 #include <stdio.h>
 #include <sys/types.h>
 
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
 off_t
 _lseek (int filedes, off_t offset, int whence)
 {
   return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
 }
-#endif
 
+/* Reading ahead and pushing back a character keep the kernel's position
+   off the stream's; give both up, unless there is no position to move.  */
 off_t
 lseek (int filedes, off_t offset, int whence)
 {
-#if !__MESC__ /* FIXME: We want bin/mes-mescc's x86-linux sha256sum to stay the same. */
   if (_lseek (filedes, 0, SEEK_CUR) == -1)
     return -1;
-#endif
   size_t skip = __buffered_read_clear (filedes);
+  off_t back = skip;
+  if (__ungetc_p (filedes))
+    back = back + 1;
   if (whence == SEEK_CUR)
-    offset -= skip;
-  return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+    offset = offset - back;
+  off_t r = _lseek (filedes, offset, whence);
+  if (r == -1)
+    __buffered_read_restore (filedes, skip);
+  else
+    __ungetc_clear (filedes);
+  return r;
 }
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..ed1086d 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -19,8 +19,11 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <unistd.h>
 
 #if !__MESC__
 #define __READ_BUFFER_MAX 128
@@ -37,6 +40,7 @@ struct __read_buffer
 };
 
 struct __read_buffer *__read_cache = 0;
+char __read_shared[__FILEDES_MAX];
 
 void
 __buffered_read_init (int filedes)
@@ -59,34 +63,75 @@ __buffered_read_init (int filedes)
     }
 }
 
+/* Descriptors that share a file position must not read ahead of it.  */
+void
+__buffered_read_share (int filedes)
+{
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return;
+  __buffered_read_init (filedes);
+  __read_shared[filedes] = 1;
+}
+
+void
+__buffered_read_unshare (int filedes)
+{
+  if (filedes >= 0 && filedes < __FILEDES_MAX)
+    __read_shared[filedes] = 0;
+}
+
 size_t
 __buffered_read_clear (int filedes)
 {
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return 0;
   __buffered_read_init (filedes);
   size_t size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
   return size;
 }
 
+/* Take back a __buffered_read_clear that returned SIZE.  */
+void
+__buffered_read_restore (int filedes, size_t size)
+{
+  if (size)
+    __read_cache[filedes].size = size;
+}
+
 ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
+  if (filedes < 0 || filedes >= __FILEDES_MAX)
+    return _read (filedes, buffer, size);
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
-  if (!cache->size && size > __read_buffer_max)
+  if (!cache->size && (size > __read_buffer_max || __read_shared[filedes]))
     return _read (filedes, buffer, size);
   while (cache->size > 0 && todo)
     {
       todo--;
       *p++ = cache->string[__read_buffer_max - cache->size--];
     }
+  /* Having something, do not wait on a pipe or terminal for the rest.  */
+  if (todo && todo < size && _lseek (filedes, 0, SEEK_CUR) == -1)
+    {
+      errno = 0;
+      return size - todo;
+    }
+
   if (todo)
     {
 #if !__MESC__
       if (todo > __read_buffer_max)
-        return size - todo + _read (filedes, p, todo);
+        {
+          ssize_t rest = _read (filedes, p, todo);
+          if (rest >= 0)
+            return size - todo + rest;
+          return todo < size ? size - todo : -1;
+        }
       if (__mes_debug () > 4)
         {
           eputs ("__buffered_read: ");
@@ -96,7 +141,11 @@ __buffered_read (int filedes, void *buffer, size_t size)
 #endif
       ssize_t bytes = _read (filedes, cache->string, __read_buffer_max);
       if (bytes < 0)
-        return -1;
+        {
+          if (todo < size)
+            return size - todo;
+          return -1;
+        }
       if (bytes)
         {
           cache->size = bytes;
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..0775de4 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -33,6 +33,8 @@ __ungetc_p (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes > __FILEDES_MAX)
+    return 0;
   return __ungetc_buf[filedes] >= 0;
 }
 
@@ -53,6 +55,8 @@ __ungetc_clear (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
+  if (filedes < 0 || filedes > __FILEDES_MAX)
+    return;
   __ungetc_buf[filedes] = -1;
 }
 
@@ -71,9 +75,12 @@ fdgetc (int fd)
     __ungetc_init ();
 
   char c;
-  int i = __ungetc_buf[fd];
-  if (i >= 0)
-    __ungetc_buf[fd] = -1;
+  int i = -1;
+  if (__ungetc_p (fd))
+    {
+      i = __ungetc_buf[fd];
+      __ungetc_buf[fd] = -1;
+    }
   else
     {
       int r = read (fd, &c, 1);
diff --git a/lib/mes/fdungetc.c b/lib/mes/fdungetc.c
index 8376c61..a0712c6 100644
--- a/lib/mes/fdungetc.c
+++ b/lib/mes/fdungetc.c
@@ -25,6 +25,8 @@ fdungetc (int c, int fd)
 {
   if (c == -1)
     return c;
+  else if (fd < 0 || fd > __FILEDES_MAX)
+    return -1;
   else if (__ungetc_p (fd))
     {
       eputs (" ***MES C LIB*** fdungetc ungetc buffer overflow fd=");
diff --git a/lib/posix/write.c b/lib/posix/write.c
index c36b2a1..22acac4 100644
--- a/lib/posix/write.c
+++ b/lib/posix/write.c
@@ -27,8 +27,11 @@ ssize_t
 write (int filedes, void const *buffer, size_t size)
 {
   size_t skip = __buffered_read_clear (filedes);
-  if (skip)
-    lseek (filedes, -skip, SEEK_CUR);
+  if (skip || __ungetc_p (filedes))
+    {
+      __buffered_read_restore (filedes, skip);
+      lseek (filedes, 0, SEEK_CUR);
+    }
   int r = _write (filedes, buffer, size);
   if (r < 0)
     {
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..f31895e 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -25,5 +26,12 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int fd = (long) stream;
+  if (!__ungetc_p (fd))
+    return lseek (fd, 0, SEEK_CUR);
+
+  int c = fdgetc (fd);
+  long pos = lseek (fd, 0, SEEK_CUR);
+  __ungetc_set (fd, c);
+  return pos > 0 ? pos - 1 : pos;
 }
diff --git a/lib/stub/lseek.c b/lib/stub/lseek.c
index 4503755..960a3ba 100644
--- a/lib/stub/lseek.c
+++ b/lib/stub/lseek.c
@@ -23,6 +23,12 @@
 #include <stdio.h>
 #include <sys/types.h>
 
+off_t
+_lseek (int filedes, off_t offset, int whence)
+{
+  return lseek (filedes, offset, whence);
+}
+
 off_t
 lseek (int filedes, off_t offset, int whence)
 {
-- 
2.43.0


From 0ace9e6a8e9ba0cde97b3f1f3f053d40d9f537cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 08/56] fix: deliver the rest of a short write and report
 failing writes

---
 lib/mes/eputs.c      | 10 +++++++++-
 lib/mes/fdputc.c     |  3 ++-
 lib/mes/fdputs.c     | 10 +++++++++-
 lib/mes/oputs.c      | 10 +++++++++-
 lib/stdio/fwrite.c   | 15 +++++++++++----
 lib/stdio/putchar.c  |  3 ++-
 lib/stdio/vfprintf.c | 45 +++++++++++++++++++++++++++++---------------
 lib/stdlib/puts.c    |  3 ++-
 8 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/lib/mes/eputs.c b/lib/mes/eputs.c
index 26bb3e0..85518b6 100644
--- a/lib/mes/eputs.c
+++ b/lib/mes/eputs.c
@@ -25,6 +25,14 @@ int
 eputs (char const *s)
 {
   int i = strlen (s);
-  write (__stderr, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (__stderr, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 87c1b80..3d5b5b6 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -24,6 +24,7 @@ int
 fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
-  write (fd, p, 1);
+  if (write (fd, p, 1) != 1)
+    return -1;
   return 0;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 7c6d4ab..0f9b2e2 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -25,6 +25,14 @@ int
 fdputs (char const *s, int fd)
 {
   int i = strlen (s);
-  write (fd, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (fd, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/mes/oputs.c b/lib/mes/oputs.c
index cc00528..6350a5a 100644
--- a/lib/mes/oputs.c
+++ b/lib/mes/oputs.c
@@ -25,6 +25,14 @@ int
 oputs (char const *s)
 {
   int i = strlen (s);
-  write (__stdout, s, i);
+  int r;
+  while (i > 0)
+    {
+      r = write (__stdout, s, i);
+      if (r <= 0)
+        return -1;
+      s = s + r;
+      i = i - r;
+    }
   return 0;
 }
diff --git a/lib/stdio/fwrite.c b/lib/stdio/fwrite.c
index 2e2030b..18313f5 100644
--- a/lib/stdio/fwrite.c
+++ b/lib/stdio/fwrite.c
@@ -37,7 +37,16 @@ fwrite (void const *data, size_t size, size_t count, FILE * stream)
   if (!size || !count)
     return 0;
   int filedes = (long) stream;
-  int bytes = write (filedes, data, size * count);
+  size_t todo = size * count;
+  size_t bytes = 0;
+  char const *p = data;
+  while (bytes < todo)
+    {
+      ssize_t r = write (filedes, p + bytes, todo - bytes);
+      if (r <= 0)
+        break;
+      bytes = bytes + r;
+    }
 
   if (__mes_debug () > 2)
     {
@@ -46,7 +55,5 @@ fwrite (void const *data, size_t size, size_t count, FILE * stream)
       eputs ("\n");
     }
 
-  if (bytes > 0)
-    return bytes / size;
-  return 0;
+  return bytes / size;
 }
diff --git a/lib/stdio/putchar.c b/lib/stdio/putchar.c
index 2ca347f..1b135e3 100644
--- a/lib/stdio/putchar.c
+++ b/lib/stdio/putchar.c
@@ -25,6 +25,7 @@ int
 putchar (int c)
 {
   char *p = cast_intp_to_charp (&c);
-  write (__stdout, p, 1);
+  if (write (__stdout, p, 1) != 1)
+    return -1;
   return 0;
 }
diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..b295250 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -33,7 +33,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
     if (*p != '%')
       {
         count++;
-        fputc (*p++, f);
+        if (fputc (*p++, f) < 0)
+          return -1;
       }
     else
       {
@@ -93,7 +94,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
           {
           case '%':
             {
-              fputc (*p, f);
+              if (fputc (*p, f) < 0)
+                return -1;
               count++;
               break;
             }
@@ -101,7 +103,8 @@ vfprintf (FILE * f, char const *format, va_list ap)
             {
               char _c;
               _c = va_arg (ap, long);
-              fputc (_c, f);
+              if (fputc (_c, f) < 0)
+                return -1;
               break;
             }
           case 'd':
@@ -123,12 +126,14 @@ vfprintf (FILE * f, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      fputc (pad, f);
+                      if (fputc (pad, f) < 0)
+                        return -1;
                       count++;
                     }
                   while (precision > length)
                     {
-                      fputc ('0', f);
+                      if (fputc ('0', f) < 0)
+                        return -1;
                       precision--;
                       width--;
                       count++;
@@ -139,13 +144,15 @@ vfprintf (FILE * f, char const *format, va_list ap)
                   if (precision-- <= 0)
                     break;
                   width--;
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) < 0)
+                    return -1;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  fputc (pad, f);
+                  if (fputc (pad, f) < 0)
+                    return -1;
                   count++;
                 }
               break;
@@ -160,12 +167,14 @@ vfprintf (FILE * f, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      fputc (pad, f);
+                      if (fputc (pad, f) < 0)
+                        return -1;
                       count++;
                     }
                   while (precision > length)
                     {
-                      fputc (' ', f);
+                      if (fputc (' ', f) < 0)
+                        return -1;
                       precision--;
                       width--;
                       count++;
@@ -176,13 +185,15 @@ vfprintf (FILE * f, char const *format, va_list ap)
                   if (precision-- <= 0)
                     break;
                   width--;
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) < 0)
+                    return -1;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  fputc (pad, f);
+                  if (fputc (pad, f) < 0)
+                    return -1;
                   count++;
                 }
               break;
@@ -204,12 +215,14 @@ vfprintf (FILE * f, char const *format, va_list ap)
                 {
                   while (width-- > precision)
                     {
-                      fputc (pad, f);
+                      if (fputc (pad, f) < 0)
+                        return -1;
                       count++;
                     }
                   while (precision > length)
                     {
-                      fputc (' ', f);
+                      if (fputc (' ', f) < 0)
+                        return -1;
                       precision--;
                       width--;
                       count++;
@@ -220,13 +233,15 @@ vfprintf (FILE * f, char const *format, va_list ap)
                   if (precision-- <= 0)
                     break;
                   width--;
-                  fputc (*s++, f);
+                  if (fputc (*s++, f) < 0)
+                    return -1;
                   count++;
                 }
               while (width > 0)
                 {
                   width--;
-                  fputc (pad, f);
+                  if (fputc (pad, f) < 0)
+                    return -1;
                   count++;
                 }
               break;
diff --git a/lib/stdlib/puts.c b/lib/stdlib/puts.c
index fea5dff..a6ed1ed 100644
--- a/lib/stdlib/puts.c
+++ b/lib/stdlib/puts.c
@@ -23,6 +23,7 @@
 int
 puts (char const *s)
 {
-  oputs (s);
+  if (oputs (s) < 0)
+    return -1;
   return oputs ("\n");
 }
-- 
2.43.0


From 4db57c8c8cad9b8a2e15ee6eca4ee92de535c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 09/56] fix: fread: read on after a short read, no overflow in
 its debug print

---
 lib/stdio/fread.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..f905a83 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -38,17 +38,20 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   size_t todo = size * count;
   char *buf = (char *) data;
 
-  int bytes = 0;
-  while (__fungetc_p (stream) && todo-- && ++bytes)
-    *buf++ = fgetc (stream);
+  size_t bytes = 0;
+  if (__fungetc_p (stream))
+    {
+      *buf = fgetc (stream);
+      bytes = 1;
+    }
+
   int filedes = (long) stream;
-  if (todo)
+  while (bytes < todo)
     {
-      int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
-        bytes += r;
+      ssize_t r = read (filedes, buf + bytes, todo - bytes);
+      if (r <= 0)
+        break;
+      bytes = bytes + r;
     }
 
   if (__mes_debug ())
@@ -62,15 +65,12 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
           strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
         }
     }
 
-  if (bytes > 0)
-    return bytes / size;
-
-  return 0;
+  return bytes / size;
 }
-- 
2.43.0


From d10fe20f5ceba657311dc44446f32ec993ae37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 10/56] fix: fflush of a pipe, terminal or device succeeds

---
 lib/stdio/fflush.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stdio/fflush.c b/lib/stdio/fflush.c
index 0993089..b45995b 100644
--- a/lib/stdio/fflush.c
+++ b/lib/stdio/fflush.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -28,5 +29,7 @@ fflush (FILE * stream)
   int filedes = (long) stream;
   if (filedes < 3)
     return 0;
-  return fsync (filedes);
+  if (fsync (filedes) == -1 && errno != EINVAL)
+    return -1;
+  return 0;
 }
-- 
2.43.0


From 56e7cd8953a19a526d1cfa88058cbf13d2537cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 11/56] fix: fopen and freopen: honour the mode, keep the
 stream's number

---
 lib/stdio/fopen.c   | 24 ++++++++----------------
 lib/stdio/freopen.c | 12 +++++++++++-
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/stdio/fopen.c b/lib/stdio/fopen.c
index 3164c11..5572188 100644
--- a/lib/stdio/fopen.c
+++ b/lib/stdio/fopen.c
@@ -40,22 +40,14 @@ fopen (char const *file_name, char const *opentype)
 
   int fd;
   int mode = 0600;
-  if ((opentype[0] == 'a' || !strcmp (opentype, "r+")) && !access (file_name, O_RDONLY))
-    {
-      int flags = O_RDWR;
-      if (opentype[0] == 'a')
-        flags |= O_APPEND;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else if (opentype[0] == 'w' || opentype[0] == 'a' || !strcmp (opentype, "r+"))
-    {
-      char *plus_p = strchr (opentype, '+');
-      int flags = plus_p ? O_RDWR | O_CREAT : O_WRONLY | O_CREAT | O_TRUNC;
-      fd = _open3 (file_name, flags, mode);
-    }
-  else
-    fd = _open3 (file_name, O_RDONLY, 0);
-
+  int flags = O_RDONLY;
+  if (opentype[0] == 'w')
+    flags = O_WRONLY | O_CREAT | O_TRUNC;
+  else if (opentype[0] == 'a')
+    flags = O_WRONLY | O_CREAT | O_APPEND;
+  if (strchr (opentype, '+'))
+    flags = (flags & ~O_WRONLY) | O_RDWR;
+  fd = _open3 (file_name, flags, mode);
   if (__mes_debug ())
     {
       eputs (" => fd=");
diff --git a/lib/stdio/freopen.c b/lib/stdio/freopen.c
index f9447a0..80ad9e8 100644
--- a/lib/stdio/freopen.c
+++ b/lib/stdio/freopen.c
@@ -19,10 +19,20 @@
  */
 
 #include <stdio.h>
+#include <unistd.h>
 
 FILE *
 freopen (char const *file_name, char const *opentype, FILE * stream)
 {
+  int old = (long) stream;
   fclose (stream);
-  return fopen (file_name, opentype);
+  FILE *f = fopen (file_name, opentype);
+  int fd = (long) f;
+  if (f && fd != old)
+    {
+      dup2 (fd, old);
+      close (fd);
+      return stream;
+    }
+  return f;
 }
-- 
2.43.0


From 2778a92873ffc06397d25c94e181c9a6d25bd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 12/56] fix: setenv and unsetenv: stay within the environment
 array, honour overwrite

---
 lib/posix/setenv.c   | 40 +++++++++++++++++++++++++++++++++++-----
 lib/posix/unsetenv.c |  3 ++-
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..878bb18 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -25,11 +25,16 @@
 // CONSTANT M2_PTR_SIZE 4
 #define M2_PTR_SIZE 1
 
+char **__setenv_environ;
+int __setenv_room;
+
 int
 setenv (char const *s, char const *v, int overwrite_p)
 {
   char **p = environ;
   int length = strlen (s);
+  int count = 0;
+  int i = 0;
   char* q;
 
   while (p[0] != 0)
@@ -41,16 +46,41 @@ setenv (char const *s, char const *v, int overwrite_p)
             break;
         }
       p = p + M2_PTR_SIZE;
+      count = count + 1;
     }
+  if (p[0] != 0 && overwrite_p == 0)
+    return 0;
+
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
+  if (entry == 0)
+    return -1;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+
+  if (p[0] != 0)
+    {
+      p[0] = entry;
+      return 0;
+    }
+
+  /* There is no room after the array that the kernel passed us.  */
+  if (environ != __setenv_environ || count + 1 >= __setenv_room)
+    {
+      char **array = malloc ((count + count + 16) * sizeof (char *));
+      if (array == 0)
+        return -1;
+      while (i < count)
+        {
+          array[i] = environ[i];
+          i = i + 1;
+        }
+      __setenv_environ = array;
+      __setenv_room = count + count + 16;
+      environ = array;
+    }
+  environ[count] = entry;
+  environ[count + 1] = 0;
 
   return 0;
 }
diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 03669ecf4989b08c17c5e0835ed54de102092efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 13/56] fix: setenv from Scheme: no copy of the name in a
 buffer of fixed size

---
 include/mes/mes.h | 1 -
 src/mes.c         | 1 -
 src/posix.c       | 4 +---
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index 9ef6491..eecebed 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -102,7 +102,6 @@ extern size_t gc_time;
 extern char **__execl_c_argv;
 extern char *__open_boot_buf;
 extern char *__open_boot_file_name;
-extern char *__setenv_buf;
 extern char *__reader_read_char_buf;
 extern struct timespec *g_start_time;
 extern struct timeval *__gettimeofday_time;
diff --git a/src/mes.c b/src/mes.c
index 86699ba..e6b2432 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -166,7 +166,6 @@ init (char **envp)
   __open_boot_buf = malloc (PATH_MAX);
   __open_boot_file_name = malloc (PATH_MAX);
   __reader_read_char_buf = malloc (10);
-  __setenv_buf = malloc (1024);
   g_datadir = malloc (1024);
   g_start_time = malloc (sizeof (struct timespec));
   memset (g_start_time, 0, sizeof (struct timespec));
diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..b8b609e 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -203,9 +203,7 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
-  char *buf = __setenv_buf;
-  strcpy (buf, cell_bytes (s->string));
-  setenv (buf, cell_bytes (v->string), 1);
+  setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
   return cell_unspecified;
 }
 
-- 
2.43.0


From 5aad972d95209648a938ceb19dc679051fe37cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 14/56] fix: malloc and calloc return NULL when the heap cannot
 grow

---
 lib/linux/malloc.c  | 10 ++++++++--
 lib/stdlib/calloc.c |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..fffaf84 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -20,6 +20,7 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <string.h>
 #include <stddef.h>
 #include <stdint.h>
@@ -34,8 +35,13 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
-    return 0;
+  /* Refusing a request, Linux returns the current break.  */
+  long end = cast_charp_to_long (__brk + size);
+  if (end < cast_charp_to_long (__brk) || brk (__brk + size) != end)
+    {
+      errno = ENOMEM;
+      return 0;
+    }
   char *p = __brk;
   __brk = __brk + size;
   return p;
diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..f0f6efb 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size && count / size != nmemb)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 614dafaf5c1bad02e8d22002643e886fafe6ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 15/56] fix: reads and writes survive without memory for the
 read-ahead buffer

---
 lib/mes/__buffered_read.c |  4 ++++
 lib/mes/fdgetc.c          | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index ed1086d..8945fa4 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -86,6 +86,8 @@ __buffered_read_clear (int filedes)
   if (filedes < 0 || filedes >= __FILEDES_MAX)
     return 0;
   __buffered_read_init (filedes);
+  if (!__read_cache)
+    return 0;
   size_t size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
   return size;
@@ -106,6 +108,8 @@ __buffered_read (int filedes, void *buffer, size_t size)
   if (filedes < 0 || filedes >= __FILEDES_MAX)
     return _read (filedes, buffer, size);
   __buffered_read_init (filedes);
+  if (!__read_cache)
+    return _read (filedes, buffer, size);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
   if (!cache->size && (size > __read_buffer_max || __read_shared[filedes]))
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index 0775de4..2953d75 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -33,7 +33,7 @@ __ungetc_p (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
-  if (filedes < 0 || filedes > __FILEDES_MAX)
+  if (__ungetc_buf == 0 || filedes < 0 || filedes > __FILEDES_MAX)
     return 0;
   return __ungetc_buf[filedes] >= 0;
 }
@@ -46,7 +46,8 @@ __ungetc_init ()
       int save_errno = errno;
       __ungetc_buf = malloc ((__FILEDES_MAX + 1) * sizeof (int));
       errno = save_errno;
-      memset (__ungetc_buf, -1, (__FILEDES_MAX + 1) * sizeof (int));
+      if (__ungetc_buf != 0)
+        memset (__ungetc_buf, -1, (__FILEDES_MAX + 1) * sizeof (int));
     }
 }
 
@@ -55,7 +56,7 @@ __ungetc_clear (int filedes)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
-  if (filedes < 0 || filedes > __FILEDES_MAX)
+  if (__ungetc_buf == 0 || filedes < 0 || filedes > __FILEDES_MAX)
     return;
   __ungetc_buf[filedes] = -1;
 }
@@ -65,7 +66,8 @@ __ungetc_set (int filedes, int c)
 {
   if (__ungetc_buf == 0)
     __ungetc_init ();
-  __ungetc_buf[filedes] = c;
+  if (__ungetc_buf != 0)
+    __ungetc_buf[filedes] = c;
 }
 
 int
-- 
2.43.0


From 3371c15bd30d6782dfc0ea05b421825e7862b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 16/56] fix: struct stat of x86_64 as the kernel fills it

---
 include/sys/stat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..d642d8b 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,22 +63,24 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __foo0;
   unsigned long  st_rdev;
   long           st_size;
-  unsigned long  st_blksize;
-  unsigned long  st_blocks;
+  long           st_blksize;
+  long           st_blocks;
   time_t         st_atime;
   unsigned long  st_atime_usec;
   time_t         st_mtime;
   unsigned long  st_mtime_usec;
   time_t         st_ctime;
   unsigned long  st_ctime_usec;
-  unsigned long  __foo0;
-  unsigned long  __foo1;
+  long           __foo1;
+  long           __foo2;
+  long           __foo3;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From 806269e610e14d86eb2f1d902bc043c59546e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 17/56] fix: nanosleep system call number of x86_64

---
 include/linux/x86_64/syscall.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
-- 
2.43.0


From 0307bf232748c1229e14bc4e641b6c728774851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 18/56] fix: remove: a symbolic link is removed, not what it
 names

---
 lib/stdio/remove.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/stdio/remove.c b/lib/stdio/remove.c
index ebc7c93..63fa47a 100644
--- a/lib/stdio/remove.c
+++ b/lib/stdio/remove.c
@@ -18,17 +18,15 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <stdio.h>
-#include <sys/stat.h>
 #include <unistd.h>
 
 int
 remove (char const *file_name)
 {
-  struct stat buf;
-  if (stat (file_name, &buf) < 0)
-    return -1;
-  if (S_ISDIR (buf.st_mode))
-    return rmdir (file_name);
-  return unlink (file_name);
+  int r = unlink (file_name);
+  if (r < 0 && errno == EISDIR)
+    r = rmdir (file_name);
+  return r;
 }
-- 
2.43.0


From 65f795546cb73ceffab4f444978629e20d934e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 19/56] fix: getcwd: stay within the library's own buffer

---
 lib/posix/getcwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/posix/getcwd.c b/lib/posix/getcwd.c
index e3e6d67..43351ea 100644
--- a/lib/posix/getcwd.c
+++ b/lib/posix/getcwd.c
@@ -30,6 +30,10 @@ getcwd (char *buffer, size_t size)
 {
   static char buf[PATH_MAX];
   if (buffer == 0)
-    buffer = buf;
+    {
+      buffer = buf;
+      if (size > PATH_MAX)
+        size = PATH_MAX;
+    }
   return _getcwd (buffer, size);
 }
-- 
2.43.0


From 7d73c95e57abbc11de4fba9e60509c97ef5a9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 20/56] fix: signal handlers return on x86_64; signal reports
 failure as SIG_ERR

---
 include/signal.h   |  5 +--
 lib/linux/signal.c | 78 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/include/signal.h b/include/signal.h
index 07730b0..e91c6b2 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,14 +136,15 @@ struct sigaction
   };
   unsigned long sa_flags;
 #if __x86_64__
-  long _foo0;
+  void (*sa_restorer) (void);
 #endif
   sigset_t sa_mask;
 #if __x86_64__
   long _foo1[15];
-#endif
+#else
   //unsigned long sa_flags; // x86?
   void (*sa_restorer) (void);
+#endif
 };
 #else /* uapi */
 struct sigaction
diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 11174be..d29dd03 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -23,14 +23,48 @@
 #include <unistd.h>
 #include <signal.h>
 
-#if __i386__
-#else
+#if __x86_64__
+/* The kernel has no restorer of its own on x86_64: a handler returns to
+   this one.  It must enter the kernel with the stack pointer it starts
+   with.  */
+#if __MESC__
 void
 _restorer_for_siginfo (void)
 {
-  _sys_call (SYS_rt_sigreturn);
+  asm ("mov____%rbp,%rsp");
+  asm ("pop____%rbp");
+  asm ("mov____$i32,%rax %0x0f");       // SYS_rt_sigreturn
+  asm ("syscall");
+}
+
+/* The handlers; the kernel starts _signal_handler, which passes the
+   number of the signal as MesCC does: on the stack.  */
+long _signal_handlers[_NSIG];
+
+void
+_signal_handler (void)
+{
+  long signum;
+  long handler;
+  asm ("mov____%rdi,0x8(%rbp) !0xf8");
+  handler = _signal_handlers[signum - 1];
+  asm ("mov____0x8(%rbp),%rdi !0xf8");
+  asm ("mov____0x8(%rbp),%rax !0xf0");
+  asm ("push___%rdi");
+  asm ("call___*%rax");
+  asm ("pop____%rdi");
 }
+#else
+void _restorer_for_siginfo (void);
+// *INDENT-OFF*
+asm (".text\n"
+     ".globl _restorer_for_siginfo\n"
+     "_restorer_for_siginfo:\n\t"
+     "mov     $0x0f,%eax\n\t"           // SYS_rt_sigreturn
+     "syscall\n");
+// *INDENT-ON*
 #endif
+#endif // __x86_64__
 
 sighandler_t
 signal (int signum, sighandler_t action)
@@ -44,17 +78,8 @@ signal (int signum, sighandler_t action)
   unsigned short itembitcount;
 
   setup_action.sa_handler = action;
-  /* The sa_restorer is not used.  Reason:
-     * The kernel uses its own restorer anyway by pretending we gave one on
-     our side (no, really).
-     glibc still has a custom restorer because they want to be able to
-     backtrace.  gdb has a second part that detects a specific instruction
-     sequence and then fixes up the backtrace.  Since we don't use that
-     specific instruction sequence and also the non-siginfo restorer
-     is complicated (pops foreign item off the stack--so needs inline
-     assembly) and we don't support great debuggability in other places,
-     I've decided to take the easy way out for now. */
-  /*setup_action.sa_restorer = _restorer_for_siginfo;*/
+  /* The sa_restorer is used on x86_64 only, the other kernels have their
+     own.  */
   bitindex = signum - 1;
   itembitcount = 8 * sizeof (setup_action.sa_mask.items[0]);
   setup_action.sa_mask.items[bitindex / itembitcount] = 1UL << (bitindex % itembitcount);
@@ -63,10 +88,33 @@ signal (int signum, sighandler_t action)
 #if __x86_64__
   /* Tell kernel that we use a restorer, on penalty of segfault.  */
   setup_action.sa_flags |= SA_RESTORER;
+  setup_action.sa_restorer = _restorer_for_siginfo;
+#endif
+#if __x86_64__ && __MESC__
+  long previous = 0;
+  if (signum > 0 && signum <= _NSIG)
+    {
+      previous = _signal_handlers[signum - 1];
+      if (action != SIG_DFL && action != SIG_IGN)
+        {
+          _signal_handlers[signum - 1] = action;
+          setup_action.sa_handler = _signal_handler;
+        }
+    }
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
+#if __x86_64__ && __MESC__
+  if (r)
+    {
+      if (signum > 0 && signum <= _NSIG)
+        _signal_handlers[signum - 1] = previous;
+      return SIG_ERR;
+    }
+  if (old.sa_handler == _signal_handler)
+    return previous;
+#endif
   if (r)
-    return 0;
+    return SIG_ERR;
   return old.sa_handler;
 #endif
 }
-- 
2.43.0


From 47c40d872e59f6cad9b0d03da482e40e9ecb316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 21/56] fix: sigprocmask passes the size of the set

---
 lib/linux/sigprogmask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linux/sigprogmask.c b/lib/linux/sigprogmask.c
index c0326a2..10936de 100644
--- a/lib/linux/sigprogmask.c
+++ b/lib/linux/sigprogmask.c
@@ -29,6 +29,6 @@ sigprocmask (int how, sigset_t const *set, sigset_t * oldset)
 #if __i386__
   return _sys_call3 (SYS_sigprocmask, (long) how, (long) set, (long) oldset);
 #else
-  return _sys_call3 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset);
+  return _sys_call4 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset, sizeof (sigset_t));
 #endif
 }
-- 
2.43.0


From 60a35b2021e6797b0b33cf011b7e6601642f8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 22/56] fix: raise returns kill's result

---
 lib/posix/raise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/posix/raise.c b/lib/posix/raise.c
index f693719..701be6a 100644
--- a/lib/posix/raise.c
+++ b/lib/posix/raise.c
@@ -24,5 +24,5 @@
 int
 raise (int signum)
 {
-  kill (getpid (), signum);
+  return kill (getpid (), signum);
 }
-- 
2.43.0


From 02e4c4ce899da578639792a85ce9d7c0e5500546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 23/56] fix: alarm in MesCC's library, remaining time rounded
 up

---
 lib/posix/alarm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/posix/alarm.c b/lib/posix/alarm.c
index c425203..8926570 100644
--- a/lib/posix/alarm.c
+++ b/lib/posix/alarm.c
@@ -24,7 +24,6 @@
 unsigned int
 alarm (unsigned int seconds)
 {
-#if !__MESC__
   struct itimerval old;
   struct itimerval new;
   new.it_interval.tv_usec = 0;
@@ -33,6 +32,7 @@ alarm (unsigned int seconds)
   new.it_value.tv_sec = (long int) seconds;
   if (setitimer (ITIMER_REAL, &new, &old) < 0)
     return 0;
+  if (old.it_value.tv_usec)
+    return old.it_value.tv_sec + 1;
   return old.it_value.tv_sec;
-#endif
 }
-- 
2.43.0


From bafa351c3a7c1ae700bc23b7779d3f5703f1ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 24/56] fix: sleep returns the remaining seconds when
 interrupted

---
 lib/posix/sleep.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/posix/sleep.c b/lib/posix/sleep.c
index 9fafdd8..83631af 100644
--- a/lib/posix/sleep.c
+++ b/lib/posix/sleep.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <sys/time.h>
 #include <time.h>
 #include <unistd.h>
@@ -29,5 +30,11 @@ sleep (unsigned int seconds)
   struct timespec remaining;
   requested_time.tv_sec = seconds;
   requested_time.tv_nsec = 0;
-  return nanosleep (&requested_time, &remaining);
+  if (nanosleep (&requested_time, &remaining) == 0)
+    return 0;
+  if (errno != EINTR)
+    return seconds;
+  if (remaining.tv_nsec)
+    return remaining.tv_sec + 1;
+  return remaining.tv_sec;
 }
-- 
2.43.0


From 7f8935e3642bcb5b80b7b2c219230ebb131c0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 25/56] fix: display numbers beyond 32 bits

---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index c45504e..50e2d97 100644
--- a/src/display.c
+++ b/src/display.c
@@ -159,7 +159,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 30ed06fde5369e74fcde8feaf6f98e5b97a550bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 26/56] fix: init_time returns the list

---
 src/posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/posix.c b/src/posix.c
index b8b609e..11bc1b3 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -390,6 +390,7 @@ init_time (struct scm *a)               /*:((internal)) */
 {
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, g_start_time);
   a = acons (cell_symbol_internal_time_units_per_second, make_number (TIME_UNITS_PER_SECOND), a);
+  return a;
 }
 
 struct scm *
-- 
2.43.0


From c3eb9ebcde21bcfc945b61aba1e9bb117ce53f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 27/56] fix: search_path stays within PATH and its buffer,
 skips directories

---
 lib/mes/search-path.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..c4d6882 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -21,12 +21,13 @@
 #include <mes/lib.h>
 #include <string.h>
 #include <stdlib.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 char *
 search_path (char const *file_name)
 {
-  static char buf[256];
+  static char *buf;
   char *path = getenv ("PATH");
   if (__mes_debug ())
     {
@@ -34,23 +35,35 @@ search_path (char const *file_name)
       eputs (file_name);
       eputs ("\n");
     }
-  while (*path)
+  if (!path || !file_name[0])
+    return 0;
+  free (buf);
+  buf = (char *) malloc (strlen (path) + strlen (file_name) + 3);
+  if (!buf)
+    return 0;
+  while (1)
     {
       char *end = strchr (path, ':');
       if (!end)
         end = strchr (path, '\0');
-      strncpy (buf, path, end - path);
-      buf[end - path] = 0;
+      /* An empty name stands for the working directory.  */
+      if (end == path)
+        strcpy (buf, ".");
+      else
+        {
+          strncpy (buf, path, end - path);
+          buf[end - path] = 0;
+        }
       if (__mes_debug ())
         {
           eputs (" dir: ");
           eputs (buf);
           eputs ("\n");
         }
-      if (buf[end - path] != '/')
-        strcat (buf, "/");
+      struct stat st;
+      strcat (buf, "/");
       strcat (buf, file_name);
-      if (!access (buf, X_OK))
+      if (!access (buf, X_OK) && !stat (buf, &st) && (st.st_mode & S_IFMT) != S_IFDIR)
         {
           if (__mes_debug ())
             {
@@ -60,7 +73,8 @@ search_path (char const *file_name)
             }
           return buf;
         }
+      if (!*end)
+        return 0;
       path = end + 1;
     }
-  return 0;
 }
-- 
2.43.0


From d0149cbf54b4879235deb19e2bf347c703319796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 28/56] fix: execl and execlp pass the given argv[0], bound the
 arguments

---
 include/stdarg.h   |  2 +-
 lib/posix/execl.c  | 13 +++++++++----
 lib/posix/execlp.c |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 47d71a5..6127b1a 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -42,7 +42,7 @@ typedef char *va_list;
 #define va_end(ap) (void)((ap) = 0)
 #define va_copy(dest, src) dest = src
 
-int vexec (char const *file_name, va_list ap);
+int vexec (char const *file_name, char const *arg, va_list ap);
 int vfprintf (FILE * stream, char const *template, va_list ap);
 int vfscanf (FILE * stream, char const *template, va_list ap);
 int vprintf (char const *format, va_list ap);
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 4513586..f85e2d3 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -19,19 +19,24 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <stdarg.h>
 #include <unistd.h>
 
 int
-vexec (char const *file_name, va_list ap)
+vexec (char const *file_name, char const *arg0, va_list ap)
 {
-  char *arg = va_arg (ap, char *);
+  char *arg = (char *) arg0;
   char *argv[1000];             // POSIX minimum 4096
   int i = 0;
 
-  argv[i++] = (char *) file_name;
   while (arg)
     {
+      if (i == 999)
+        {
+          errno = E2BIG;
+          return -1;
+        }
       argv[i++] = arg;
       arg = va_arg (ap, char *);
       if (__mes_debug () > 2)
@@ -61,7 +66,7 @@ execl (char const *file_name, char const *arg, ...)
       eputs (file_name);
       eputs ("\n");
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
diff --git a/lib/posix/execlp.c b/lib/posix/execlp.c
index 904b586..c39de15 100644
--- a/lib/posix/execlp.c
+++ b/lib/posix/execlp.c
@@ -42,7 +42,7 @@ execlp (char const *file_name, char const *arg, ...)
       errno = ENOENT;
       return -1;
     }
-  r = vexec (file_name, ap);
+  r = vexec (file_name, arg, ap);
   va_end (ap);
   return r;
 }
-- 
2.43.0


From 6d45af6fae6f3546e29bbd97ae86bb14a6fcc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 29/56] fix: atexit keeps every function, they also run when
 main returns

---
 lib/linux/x86_64-mes-gcc/crt1.c   |  3 +--
 lib/linux/x86_64-mes-mescc/crt1.c |  6 +++---
 lib/stdlib/atexit.c               | 27 ++++++++++++++++++++++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/linux/x86_64-mes-gcc/crt1.c b/lib/linux/x86_64-mes-gcc/crt1.c
index 0000d7b..90cfd12 100644
--- a/lib/linux/x86_64-mes-gcc/crt1.c
+++ b/lib/linux/x86_64-mes-gcc/crt1.c
@@ -72,8 +72,7 @@ _start ()
        "call    main\n\t"
 
        "mov     %rax,%rdi\n\t"
-       "mov     $0x3c,%rax\n\t"
-       "syscall \n\t"
+       "call    exit\n\t"
        "hlt     \n\t"
        );
 }
diff --git a/lib/linux/x86_64-mes-mescc/crt1.c b/lib/linux/x86_64-mes-mescc/crt1.c
index 35d33c2..94904a7 100644
--- a/lib/linux/x86_64-mes-mescc/crt1.c
+++ b/lib/linux/x86_64-mes-mescc/crt1.c
@@ -72,8 +72,8 @@ _start ()
 
   main ();
 
-  asm ("mov____%rax,%rdi");
-  asm ("mov____$i32,%rax %0x3c");
-  asm ("syscall");
+  asm ("push___%rax");
+  exit ();
+
   asm ("hlt");
 }
diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 218ae85..6f0cbf7 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -19,10 +19,35 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <stdlib.h>
 
+#define ATEXIT_MAX 32
+
+static long __at_exit_functions[ATEXIT_MAX];
+static int __at_exit_count;
+
+static void
+__at_exit_run (void)
+{
+  while (__at_exit_count)
+    {
+      __at_exit_count = __at_exit_count - 1;
+      void (*function) (void) = (void *) __at_exit_functions[__at_exit_count];
+      (*function) ();
+    }
+}
+
 int
 atexit (void (*function) (void))
 {
-  __call_at_exit = function;
+  if (__at_exit_count == ATEXIT_MAX)
+    {
+      errno = ENOMEM;
+      return -1;
+    }
+  __at_exit_functions[__at_exit_count] = (long) function;
+  __at_exit_count = __at_exit_count + 1;
+  __call_at_exit = __at_exit_run;
+  return 0;
 }
-- 
2.43.0


From f15aebaab9da2191a5b48c7c17cf66f5fe877157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 30/56] fix: abort does not return when SIGABRT is ignored or
 handled

---
 lib/stdlib/abort.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/stdlib/abort.c b/lib/stdlib/abort.c
index 7c55da9..d51d001 100644
--- a/lib/stdlib/abort.c
+++ b/lib/stdlib/abort.c
@@ -23,10 +23,11 @@
 void
 abort (void)
 {
-  if (raise (SIGABRT) < 0) /* could not raise SIGABRT */
-    {
-      /* Fail in any way possible */
-      unsigned char* x = (unsigned char*) 0;
-      *x = 2;
-    }
+  raise (SIGABRT);
+  /* Ignored, or a handler returned.  */
+  signal (SIGABRT, SIG_DFL);
+  raise (SIGABRT);
+  /* Fail in any way possible */
+  unsigned char* x = (unsigned char*) 0;
+  *x = 2;
 }
-- 
2.43.0


From 11709199f031c57979d768187821c16510fd1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 31/56] fix: fork and execve give back what was read ahead in
 files

---
 include/mes/lib.h         |  1 +
 lib/linux/_open3.c        |  1 +
 lib/linux/execve.c        |  2 ++
 lib/linux/fork.c          |  2 ++
 lib/mes/__buffered_read.c | 28 ++++++++++++++++++++++++++++
 5 files changed, 34 insertions(+)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 6514e7d..2923748 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -72,6 +72,7 @@ long _lseek (int filedes, long offset, int whence);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
 void __buffered_read_share (int filedes);
+void __buffered_read_sync (int fork);
 void __buffered_read_unshare (int filedes);
 void __buffered_read_restore (int filedes, size_t size);
 void _exit (int code);
diff --git a/lib/linux/_open3.c b/lib/linux/_open3.c
index 3072f9b..d5e2628 100644
--- a/lib/linux/_open3.c
+++ b/lib/linux/_open3.c
@@ -31,6 +31,7 @@ _open3 (char const *file_name, int flags, int mask)
     {
       __ungetc_clear (r);
       __buffered_read_clear (r);
+      __buffered_read_unshare (r);
     }
   return r;
 }
diff --git a/lib/linux/execve.c b/lib/linux/execve.c
index 51c8b4f..cd3b2b8 100644
--- a/lib/linux/execve.c
+++ b/lib/linux/execve.c
@@ -19,10 +19,12 @@
  */
 
 #include <linux/syscall.h>
+#include <mes/lib.h>
 #include <syscall.h>
 
 int
 execve (char const *file_name, char *const argv[], char *const env[])
 {
+  __buffered_read_sync (0);
   return _sys_call3 (SYS_execve, (long) file_name, (long) argv, (long) env);
 }
diff --git a/lib/linux/fork.c b/lib/linux/fork.c
index 1f5c25f..cbc3d92 100644
--- a/lib/linux/fork.c
+++ b/lib/linux/fork.c
@@ -19,10 +19,12 @@
  */
 
 #include <linux/syscall.h>
+#include <mes/lib.h>
 #include <syscall.h>
 
 int
 fork ()
 {
+  __buffered_read_sync (1);
   return _sys_call (SYS_fork);
 }
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 8945fa4..fefd823 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -80,6 +80,29 @@ __buffered_read_unshare (int filedes)
     __read_shared[filedes] = 0;
 }
 
+/* Give back what was read ahead, for another process goes on from
+   there.  With FORK, do not read ahead in files that it has open too;
+   there is nothing to give back to a pipe or terminal.  */
+void
+__buffered_read_sync (int fork)
+{
+  int save = errno;
+  int i;
+  off_t back;
+  if (__read_cache)
+    for (i = 0; i < __FILEDES_MAX; i++)
+      {
+        back = __read_cache[i].size;
+        if (back && _lseek (i, -back, SEEK_CUR) != -1)
+          __read_cache[i].size = 0;
+      }
+  if (fork)
+    for (i = 0; i < __FILEDES_MAX; i++)
+      if (!__read_shared[i])
+        __read_shared[i] = 2;
+  errno = save;
+}
+
 size_t
 __buffered_read_clear (int filedes)
 {
@@ -112,6 +135,11 @@ __buffered_read (int filedes, void *buffer, size_t size)
     return _read (filedes, buffer, size);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
+  if (__read_shared[filedes] == 2 && _lseek (filedes, 0, SEEK_CUR) == -1)
+    {
+      errno = 0;
+      __read_shared[filedes] = 0;
+    }
   if (!cache->size && (size > __read_buffer_max || __read_shared[filedes]))
     return _read (filedes, buffer, size);
   while (cache->size > 0 && todo)
-- 
2.43.0


From 1ee02d19081076b7abb2fdd88bedfcee1f1625dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 32/56] fix: signal rejects numbers that are no signal

---
 lib/linux/signal.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index d29dd03..e3dd20f 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <linux/syscall.h>
 #include <syscall.h>
 #include <unistd.h>
@@ -77,6 +78,11 @@ signal (int signum, sighandler_t action)
   unsigned short bitindex;
   unsigned short itembitcount;
 
+  if (signum < 1 || signum > _NSIG)
+    {
+      errno = EINVAL;
+      return SIG_ERR;
+    }
   setup_action.sa_handler = action;
   /* The sa_restorer is used on x86_64 only, the other kernels have their
      own.  */
@@ -92,22 +98,18 @@ signal (int signum, sighandler_t action)
 #endif
 #if __x86_64__ && __MESC__
   long previous = 0;
-  if (signum > 0 && signum <= _NSIG)
+  previous = _signal_handlers[signum - 1];
+  if (action != SIG_DFL && action != SIG_IGN)
     {
-      previous = _signal_handlers[signum - 1];
-      if (action != SIG_DFL && action != SIG_IGN)
-        {
-          _signal_handlers[signum - 1] = action;
-          setup_action.sa_handler = _signal_handler;
-        }
+      _signal_handlers[signum - 1] = action;
+      setup_action.sa_handler = _signal_handler;
     }
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
 #if __x86_64__ && __MESC__
   if (r)
     {
-      if (signum > 0 && signum <= _NSIG)
-        _signal_handlers[signum - 1] = previous;
+      _signal_handlers[signum - 1] = previous;
       return SIG_ERR;
     }
   if (old.sa_handler == _signal_handler)
-- 
2.43.0


From e7567a24d8078867c7da9634c9079a7b65a28dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 33/56] fix: atexit with MesCC stores the whole address of the
 function

---
 lib/stdlib/atexit.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 6f0cbf7..b4f4773 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -22,6 +22,12 @@
 #include <errno.h>
 #include <stdlib.h>
 
+#if __MESC__
+typedef long _atexit_t; // MesCC passes on one byte of a function pointer
+#else
+typedef void (*_atexit_t) (void);
+#endif
+
 #define ATEXIT_MAX 32
 
 static long __at_exit_functions[ATEXIT_MAX];
@@ -39,7 +45,7 @@ __at_exit_run (void)
 }
 
 int
-atexit (void (*function) (void))
+atexit (_atexit_t function)
 {
   if (__at_exit_count == ATEXIT_MAX)
     {
-- 
2.43.0


From 5811ec521ea13e22d52c4163cf511815ce5722c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 34/56] fix: the handler of catch is not in force while it runs

---
 mes/module/mes/catch.mes | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mes/module/mes/catch.mes b/mes/module/mes/catch.mes
index 45d8235..c1407e1 100644
--- a/mes/module/mes/catch.mes
+++ b/mes/module/mes/catch.mes
@@ -43,6 +43,7 @@
                          (lambda (k . args)
                            (let ((handler (if (or (eq? key #t) (eq? key k)) handler
                                               previous-eh)))
+                             (fluid-set! %eh previous-eh)
                              (cc
                               (lambda (x)
                                 (apply handler (cons k args)))))))
-- 
2.43.0


From 5b005de3e07bbebb1874119acea16fe2cd430e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 35/56] fix: programs that caught an error end as they ask,
 define does not use stale state

---
 src/eval-apply.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..d2126de 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -655,6 +655,14 @@ eval:
                     goto eval;
                   }
               eval_define:
+                /* Evaluating the value may have evaluated other
+                   defines, or have ended in another eval_apply.  */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 name = R2->cdr->car;
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
@@ -875,7 +883,7 @@ begin_expand:
               goto eval;
             begin_expand_primitive_load:
               if ((R1->type == TNUMBER) && R1->value == 0)
-                0;
+                input = current_input_port ();
               else if (R1->type == TSTRING)
                 input = set_current_input_port (open_input_file (R1));
               else if (R1->type == TPORT)
@@ -982,5 +990,10 @@ apply (struct scm *f, struct scm *x, struct scm *a)     /*:((internal)) */
 {
   push_cc (cons (f, x), cell_unspecified, R0, cell_unspecified);
   R3 = cell_vm_apply;
-  return eval_apply ();
+  x = eval_apply ();
+  /* A continuation, such as that of a catch, may leave our caller for
+     good; the program then goes on, and also ends, in eval_apply above.  */
+  if (g_stack == STACK_SIZE)
+    exit (0);
+  return x;
 }
-- 
2.43.0


From 888433da3aafb6b0e0c3bcf4f6789ada1b850e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 36/56] fix: read from a port restores the current input port

---
 mes/module/mes/scm.mes | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mes/module/mes/scm.mes b/mes/module/mes/scm.mes
index dadd358..7ff47c9 100644
--- a/mes/module/mes/scm.mes
+++ b/mes/module/mes/scm.mes
@@ -89,6 +89,7 @@
   (if (null? port) (read-env (current-module))
       (let* ((prev (set-current-input-port (car port)))
              (result (read-env (current-module))))
+        (set-current-input-port prev)
         result)))
 
 (if (not (defined? 'peek-char))
-- 
2.43.0


From b3a37b98ed284d1f0464a48f863435b4c336144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 37/56] fix: setenv raises a system-error when memory runs out

---
 src/posix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/posix.c b/src/posix.c
index 11bc1b3..69152f2 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -203,7 +203,8 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
-  setenv (cell_bytes (s->string), cell_bytes (v->string), 1);
+  if (setenv (cell_bytes (s->string), cell_bytes (v->string), 1) != 0)
+    error (cell_symbol_system_error, cons (make_string0 ("Cannot allocate memory"), s));
   return cell_unspecified;
 }
 
-- 
2.43.0


From f28ec2c9eb4bf48fd3fef1e5c56eafcb29dd0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 38/56] fix: a failing read raises a system-error instead of
 ending the input

---
 include/mes/mes.h |  1 +
 src/posix.c       | 23 +++++++++++++++++------
 src/string.c      |  7 +++----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index eecebed..da401a9 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -153,6 +153,7 @@ struct scm *vector_set_x_ (struct scm *x, long i, struct scm *e);
 FUNCTION builtin_function (struct scm *builtin);
 char *cell_bytes (struct scm *x);
 char *news_bytes (struct scm *x);
+int fd_readchar (int fd);
 int peekchar ();
 int readchar ();
 int unreadchar ();
diff --git a/src/posix.c b/src/posix.c
index 69152f2..f97e471 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -21,6 +21,7 @@
 #include "mes/lib.h"
 #include "mes/mes.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
 #include <signal.h>
@@ -77,11 +78,24 @@ peekchar ()
   return p[0];
 }
 
+int
+fd_readchar (int fd)
+{
+  if (fd < 0)
+    return readchar ();
+  errno = 0;
+  int c = fdgetc (fd);
+  /* A failing read is not the end of the input.  */
+  if (c == -1 && errno != 0)
+    error (cell_symbol_system_error, make_string0 ("read failed"));
+  return c;
+}
+
 int
 readchar ()
 {
   if (__stdin >= 0)
-    return fdgetc (__stdin);
+    return fd_readchar (__stdin);
   struct scm *port = current_input_port ();
   struct scm *string = port->string;
   size_t length = string->length;
@@ -141,13 +155,10 @@ peek_char ()
 struct scm *
 read_char (struct scm *port)            /*:((arity . n)) */
 {
-  int fd = __stdin;
   if (port->type == TPAIR)
     if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
-  struct scm *c = make_char (readchar ());
-  __stdin = fd;
-  return c;
+      return make_char (fd_readchar (port->car->value));
+  return make_char (readchar ());
 }
 
 struct scm *
diff --git a/src/string.c b/src/string.c
index 171cb7b..961796b 100644
--- a/src/string.c
+++ b/src/string.c
@@ -177,9 +177,9 @@ read_string (struct scm *port)          /*:((arity . n)) */
     {
       struct scm *p = car (port);
       if (p->type == TNUMBER)
-        __stdin = p->value;
+        fd = p->value;
     }
-  int c = readchar ();
+  int c = fd_readchar (fd);
   size_t i = 0;
   while (c != -1)
     {
@@ -187,10 +187,9 @@ read_string (struct scm *port)          /*:((arity . n)) */
         assert_max_string (i, "read_string", g_buf);
       g_buf[i] = c;
       i = i + 1;
-      c = readchar ();
+      c = fd_readchar (fd);
     }
   g_buf[i] = 0;
-  __stdin = fd;
   return make_string (g_buf, i);
 }
 
-- 
2.43.0


From 566c375421efed7d22a12cd6e7ebed10f9953c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 39/56] fix: -c restores the current input port before
 evaluating its program

---
 mes/module/mes/boot-0.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..b389168 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -271,7 +271,7 @@ General help using GNU software: <http://gnu.org/gethelp/>
     (when command
       (let* ((prev (set-current-input-port (open-input-string command)))
              (expr (cons 'begin (read-input-file-env (current-module))))
-             (set-current-input-port prev))
+             (restore (set-current-input-port prev)))
         (primitive-eval expr)
         (exit 0)))
     (when main (set! %main main))
-- 
2.43.0


From f7b04615e3532b398e78554c89d47f8f520d6eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 40/56] fix: leaving a with-... extent by an error restores the
 ports

---
 mes/module/mes/guile.mes         | 40 ++++++++++++++++----------------
 mes/module/mes/simple-format.mes | 16 ++++++++-----
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/mes/module/mes/guile.mes b/mes/module/mes/guile.mes
index 42ac445..1df5734 100644
--- a/mes/module/mes/guile.mes
+++ b/mes/module/mes/guile.mes
@@ -56,48 +56,48 @@
 (define (port-filename p) "<stdin>")
 (define (port-line p) 0)
 
-(define (with-input-from-string string thunk)
-  (let ((prev (set-current-input-port (open-input-string string)))
-        (r (thunk)))
-    (set-current-input-port prev)
+;; Call THUNK and then RESTORE, also when THUNK throws.
+(define (with-restore thunk restore)
+  (let ((r (catch #t
+             thunk
+             (lambda (key . args)
+               (restore)
+               (apply throw (cons key args))))))
+    (restore)
     r))
 
+(define (with-input-from-string string thunk)
+  (let ((prev (set-current-input-port (open-input-string string))))
+    (with-restore thunk (lambda () (set-current-input-port prev)))))
+
 (define (with-input-from-file file thunk)
   (let ((port (open-input-file file)))
     (if (= port -1)
         (error 'no-such-file file)
         (let* ((save (current-input-port))
-               (foo (set-current-input-port port))
-               (r (thunk)))
-          (set-current-input-port save)
-          r))))
+               (foo (set-current-input-port port)))
+          (with-restore thunk (lambda () (set-current-input-port save)))))))
 
 (define (with-output-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
         (let* ((save (current-output-port))
-               (foo (set-current-output-port port))
-               (r (thunk)))
-          (set-current-output-port save)
-          r))))
+               (foo (set-current-output-port port)))
+          (with-restore thunk (lambda () (set-current-output-port save)))))))
 
 (define (with-error-to-file file thunk)
   (let ((port (open-output-file file)))
     (if (= port -1)
         (error 'cannot-open file)
         (let* ((save (current-error-port))
-               (foo (set-current-error-port port))
-               (r (thunk)))
-          (set-current-error-port save)
-          r))))
+               (foo (set-current-error-port port)))
+          (with-restore thunk (lambda () (set-current-error-port save)))))))
 
 (define (with-output-to-port port thunk)
   (let* ((save (current-output-port))
-         (foo (set-current-output-port port))
-         (r (thunk)))
-    (set-current-output-port save)
-    r))
+         (foo (set-current-output-port port)))
+    (with-restore thunk (lambda () (set-current-output-port save)))))
 
 (define core:open-input-file open-input-file)
 (define (open-input-file file)
diff --git a/mes/module/mes/simple-format.mes b/mes/module/mes/simple-format.mes
index 8b57e15..70d734b 100644
--- a/mes/module/mes/simple-format.mes
+++ b/mes/module/mes/simple-format.mes
@@ -24,18 +24,22 @@
 
 (define (with-output-to-string thunk)
   (define save-write-byte write-byte)
-  (let ((stdout '()))
+  (let ((stdout '())
+        (port (current-output-port)))
     (set! write-byte
           (lambda (x . rest)
-            (let ((out? (or (null? rest) (eq? (car rest) (current-output-port)))))
+            (let ((out? (eq? (if (null? rest) (current-output-port) (car rest)) port)))
               (if (not out?) (apply save-write-byte (cons x rest))
                   (begin
                     (set! stdout (append stdout (list (integer->char x))))
                     x)))))
-    (thunk)
-    (let ((r (apply string stdout)))
-      (set! write-byte save-write-byte)
-      r)))
+    (catch #t
+      thunk
+      (lambda (key . args)
+        (set! write-byte save-write-byte)
+        (apply throw (cons key args))))
+    (set! write-byte save-write-byte)
+    (apply string stdout)))
 
 (define (simple-format destination format . rest)
   (let ((port (if (boolean? destination) (current-output-port) destination))
-- 
2.43.0


From b679d26871e964af19a6277e9d41dc1c811a2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 41/56] fix: mescc fails when a helper is killed by a signal

---
 module/mescc/mescc.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index ce79a3c..f5da08e 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -317,7 +317,7 @@
   (let ((status (apply system* args)))
     (when (not (zero? status))
       (format (current-error-port) "mescc: failed: ~a\n" (string-join args))
-      (exit (status:exit-val status)))
+      (exit (or (status:exit-val status) 1)))
     status))
 
 (define (arch-get options)
-- 
2.43.0


From 30ea1a3091a35a0b78afcacb14142d96ed394f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 42/56] fix: mescc -E fails when its input cannot be parsed

---
 module/mescc/preprocess.scm | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/module/mescc/preprocess.scm b/module/mescc/preprocess.scm
index 375ac3b..40b6eeb 100644
--- a/module/mescc/preprocess.scm
+++ b/module/mescc/preprocess.scm
@@ -94,10 +94,11 @@
     (when (and verbose? (> verbose? 1))
       (format (current-error-port) "includes: ~s\n" includes)
       (format (current-error-port) "defines: ~s\n" defines))
-    (parse-c99
-     #:inc-dirs includes
-     #:cpp-defs defines
-     #:mode 'code)))
+    (or (parse-c99
+         #:inc-dirs includes
+         #:cpp-defs defines
+         #:mode 'code)
+        (exit 1))))
 
 (define* (c99-input->ast #:key (prefix "") (defines '()) (includes '()) (arch "") verbose?)
   (when verbose?
-- 
2.43.0


From c55b0e63c167df069df21d111497dc069c018e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 43/56] fix: system* runs the program PATH finds, or fails;
 waitpid and dup2 report errors

---
 mes/module/mes/posix.mes | 40 +++++++++++++++++++++++++++-------------
 src/posix.c              |  7 +++++--
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/mes/module/mes/posix.mes b/mes/module/mes/posix.mes
index fc1b157..952eee2 100644
--- a/mes/module/mes/posix.mes
+++ b/mes/module/mes/posix.mes
@@ -23,8 +23,10 @@
 ;;; Code:
 
 (mes-use-module (srfi srfi-13))
+(mes-use-module (mes catch))
 
 (define R_OK 0)
+(define X_OK 1)
 (define S_IRWXU #o700)
 
 (define (basename file-name . ext)
@@ -46,23 +48,34 @@
 
 (define (execlp file-name args)
   (let ((executable (if (string-index file-name #\/) file-name
-                        (search-path (string-split (getenv "PATH") #\:) file-name))))
-    (execl executable args)))
+                        (let loop ((path (string-split (getenv "PATH") #\:)))
+                          (and (pair? path)
+                               (let ((f (if (string-null? (car path)) file-name
+                                            (string-append (car path) "/" file-name))))
+                                 (if (access? f X_OK) f
+                                     (loop (cdr path)))))))))
+    (if executable (execl executable args)
+        -1)))
 
 (define (system* file-name . args)
   (let ((pid (primitive-fork)))
     (cond ((zero? pid)
-           (let ((out (current-output-port))
-                 (err (current-error-port)))
-             (when (and (> out 0)
-                        (not (= out 1)))
-               (dup2 out 1))
-             (when (and (> err 0)
-                        (not (= err 2)))
-               (dup2 err 2))
-             (exit (apply execlp file-name (list args)))))
+           ;; Whatever goes wrong here, the child must not go on as its parent.
+           (catch #t
+             (lambda ()
+               (let ((out (current-output-port))
+                     (err (current-error-port)))
+                 (when (and (> out 0)
+                            (not (= out 1)))
+                   (dup2 out 1))
+                 (when (and (> err 0)
+                            (not (= err 2)))
+                   (dup2 err 2))
+                 (execlp file-name args)))
+             (const #f))
+           (exit 127))
           ((= -1 pid) (error "fork failed:" file-name))
-          (else (let ((pid+status (waitpid 0)))
+          (else (let ((pid+status (waitpid pid)))
                   (cdr pid+status))))))
 
 (define (waitpid pid . options)
@@ -70,4 +83,5 @@
     (core:waitpid pid options)))
 
 (define (status:exit-val status)
-  (ash status -8))
+  (and (zero? (logand status 127))
+       (ash status -8)))
diff --git a/src/posix.c b/src/posix.c
index f97e471..d90433a 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -382,8 +382,10 @@ execl_ (struct scm *file_name, struct scm *args)        /*:((name . "execl")) */
 struct scm *
 waitpid_ (struct scm *pid, struct scm *options)
 {
-  int status;
+  int status = 0;
   int child = waitpid (pid->value, &status, options->value);
+  if (child == -1)
+    error (cell_symbol_system_error, cons (make_string0 ("waitpid failed"), pid));
   return cons (make_number (child), make_number (status));
 }
 
@@ -458,7 +460,8 @@ dup_ (struct scm *port)                 /*:((name . "dup")) */
 struct scm *
 dup2_ (struct scm *old, struct scm *new)        /*:((name . "dup2")) */
 {
-  dup2 (old->value, new->value);
+  if (dup2 (old->value, new->value) == -1)
+    error (cell_symbol_system_error, cons (make_string0 ("dup2 failed"), old));
   return cell_unspecified;
 }
 
-- 
2.43.0


From d4cf6d3b8a1aec02d340060b1c299860ceb05a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:26 +0000
Subject: [PATCH 44/56] fix: the interpreter does not report success when its
 output was lost

---
 include/mes/lib-mini.h |  1 +
 include/mes/mes.h      |  1 +
 lib/mes/fdputc.c       |  5 ++++-
 lib/mes/fdputs.c       |  5 ++++-
 lib/mes/globals.c      |  2 ++
 src/eval-apply.c       |  2 +-
 src/mes.c              |  2 +-
 src/posix.c            | 17 ++++++++++++++---
 8 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/mes/lib-mini.h b/include/mes/lib-mini.h
index 2874d52..a3a6e74 100644
--- a/include/mes/lib-mini.h
+++ b/include/mes/lib-mini.h
@@ -44,6 +44,7 @@ extern char **environ;
 extern int __stdin;
 extern int __stdout;
 extern int __stderr;
+extern int __fdput_failed;
 
 int eputs (char const *s);
 int puts (char const *s);
diff --git a/include/mes/mes.h b/include/mes/mes.h
index da401a9..91238b1 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -153,6 +153,7 @@ struct scm *vector_set_x_ (struct scm *x, long i, struct scm *e);
 FUNCTION builtin_function (struct scm *builtin);
 char *cell_bytes (struct scm *x);
 char *news_bytes (struct scm *x);
+int exit_status (int status);
 int fd_readchar (int fd);
 int peekchar ();
 int readchar ();
diff --git a/lib/mes/fdputc.c b/lib/mes/fdputc.c
index 3d5b5b6..a69fa28 100644
--- a/lib/mes/fdputc.c
+++ b/lib/mes/fdputc.c
@@ -25,6 +25,9 @@ fdputc (int c, int fd)
 {
   char *p = cast_intp_to_charp (&c);
   if (write (fd, p, 1) != 1)
-    return -1;
+    {
+      __fdput_failed = 1;
+      return -1;
+    }
   return 0;
 }
diff --git a/lib/mes/fdputs.c b/lib/mes/fdputs.c
index 0f9b2e2..73d4368 100644
--- a/lib/mes/fdputs.c
+++ b/lib/mes/fdputs.c
@@ -30,7 +30,10 @@ fdputs (char const *s, int fd)
     {
       r = write (fd, s, i);
       if (r <= 0)
-        return -1;
+        {
+          __fdput_failed = 1;
+          return -1;
+        }
       s = s + r;
       i = i - r;
     }
diff --git a/lib/mes/globals.c b/lib/mes/globals.c
index f5c63e3..7e89675 100644
--- a/lib/mes/globals.c
+++ b/lib/mes/globals.c
@@ -25,3 +25,5 @@ char **environ;
 int __stdin;
 int __stdout;
 int __stderr;
+/* Set when output was lost.  */
+int __fdput_failed;
diff --git a/src/eval-apply.c b/src/eval-apply.c
index d2126de..5b76dec 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -994,6 +994,6 @@ apply (struct scm *f, struct scm *x, struct scm *a)     /*:((internal)) */
   /* A continuation, such as that of a catch, may leave our caller for
      good; the program then goes on, and also ends, in eval_apply above.  */
   if (g_stack == STACK_SIZE)
-    exit (0);
+    exit (exit_status (0));
   return x;
 }
diff --git a/src/mes.c b/src/mes.c
index e6b2432..492f2be 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -235,5 +235,5 @@ main (int argc, char **argv, char **envp)
       eputs ("\n");
     }
 
-  return 0;
+  return exit_status (0);
 }
diff --git a/src/posix.c b/src/posix.c
index d90433a..e542fb3 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -53,11 +53,23 @@ abort_ ()                   /*:((name . "abort")) */
   return cell_unspecified;
 }
 
+int
+exit_status (int status)
+{
+  /* Losing output is no success.  */
+  if ((status & 255) == 0 && __fdput_failed != 0)
+    {
+      eputs ("mes: write error\n");
+      return 1;
+    }
+  return status;
+}
+
 struct scm *
 exit_ (struct scm *x)                   /*:((name . "exit")) */
 {
   assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
-  exit (x->value);
+  exit (exit_status (x->value));
 }
 
 int
@@ -193,8 +205,7 @@ write_byte (struct scm *x)              /*:((arity . n)) */
             fd = __stderr;
         }
     }
-  char cc = c->value;
-  write (fd, &cc, 1);
+  fdputc (c->value, fd);
 #if !__MESC__
   assert_msg (c->type == TNUMBER || c->type == TCHAR, "c->type == TNUMBER || c->type == TCHAR");
 #endif
-- 
2.43.0


From 8d1465ad1e04c761d9c4c22ee5b88226d84e4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 45/56] fix: primitive-load restores the input port it replaced

The port to restore was lost: push_cc saves R1, not its argument.  After
a load, the REPL and programs that read standard input read from the
loaded file, already at its end.  boot-0 had come to rely on this with a
stray (primitive-load 0).
---
 mes/module/mes/boot-0.scm | 1 -
 src/eval-apply.c          | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index b389168..5aa86a1 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -205,7 +205,6 @@
 (mes-use-module (mes getopt-long))
 
 (define %main #f)
-(primitive-load 0)
 (let ((tty? (isatty? 0)))
   (define (parse-opts args)
     (let* ((option-spec
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 5b76dec..35fd031 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -895,6 +895,7 @@ begin_expand:
                   assert_msg (0, "begin-expand-boom 0");
                 }
 
+              R1 = input;       /* push_cc saves R1 */
               push_cc (input, R2, R0, cell_vm_return);
               x = read_input_file_env (R0);
               if (g_debug > 5)
-- 
2.43.0


From 4da2dc0dce5b25e75dfceddbfbd2b4ae54f22782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 46/56] fix: the REPL ends at the first end of file

boot-0 read standard input once more after the REPL, so that a terminal
needed a second end of file, or what followed was run as a program.
---
 mes/module/mes/boot-0.scm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 5aa86a1..a64cdcc 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -284,7 +284,9 @@ General help using GNU software: <http://gnu.org/gethelp/>
 
            (mes-use-module (mes repl))
            (set-current-input-port 0)
-           (repl))
+           (repl)
+           ;; Nothing more to read, see below.
+           (set-current-input-port (open-input-string "")))
           (else #t))))
 (primitive-load 0)
 (primitive-load (open-input-string %main))
-- 
2.43.0


From b90e21686af3506c3c8caa8b45d377224efe049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 47/56] fix: the REPL does not lose expressions after (),
 errors and long sessions

Reading the empty list or a stray parenthesis was taken for the end of
file, every expression used up stack until the session died near the
900th, and with standard input unreadable it looped for ever.
---
 mes/module/mes/repl.mes | 104 +++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 32 deletions(-)

diff --git a/mes/module/mes/repl.mes b/mes/module/mes/repl.mes
index 8634491..6efca6b 100644
--- a/mes/module/mes/repl.mes
+++ b/mes/module/mes/repl.mes
@@ -114,6 +114,7 @@ along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
 
 (define (repl)
   (let ((count 0)
+        (port (current-input-port))
         (print-sexp? #t))
 
     (define (expand a)
@@ -150,39 +151,78 @@ along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
         ((or (assoc-ref command-alist command)
              (lambda () #f)))))
 
+    ;; Skip white space and line comments.
+    (define (next-char)
+      (let ((c (read-char)))
+        (cond ((eof-object? c) c)
+              ((char-whitespace? c) (next-char))
+              ((eq? c #\;) (skip-line))
+              (else (unread-char c) c))))
+
+    (define (skip-line)
+      (let ((c (read-char)))
+        (cond ((eof-object? c) c)
+              ((eq? c #\newline) (next-char))
+              (else (skip-line)))))
+
+    ;; Read an expression into a list; return #f at end of file, for
+    ;; which read-env returns the empty list.  It may also have read the
+    ;; end of file or a parenthesis after a block comment.
+    (define (read-sexp a)
+      (let ((c (catch #t next-char (lambda (key . args)
+                                     (report key args)
+                                     (exit 1)))))
+        (cond ((eof-object? c) #f)
+              ((eq? c #\)) (read-char) (throw 'read-error "unexpected" c))
+              (else
+               (let ((sexp (read-env a)))
+                 (and (or (not (null? sexp)) (eq? c #\()
+                          (not (eof-object? (peek-char))))
+                      (list sexp)))))))
+
+    (define (report key args)
+      (if (defined? 'with-output-to-string)
+          (simple-format (current-error-port) "exception:~a:~a\n" key args)
+          (begin
+            (display "exception:" (current-error-port))
+            (display key (current-error-port))
+            (display ":" (current-error-port))
+            (display args (current-error-port))
+            (newline (current-error-port)))))
+
+    ;; Evaluate one expression in A; return the module for the next, or #f.
+    (define (step a)
+      (let ((input (read-sexp a)))
+        (and input
+             (let ((sexp (car input)))
+               (when print-sexp?
+                 (display "[sexp=")
+                 (display sexp)
+                 (display "]")
+                 (newline))
+               (if (and (pair? sexp) (eq? (car sexp) 'mes-use-module))
+                   (begin (mes-load-module-env (cadr sexp) a) a)
+                   (let ((e (if (and (pair? sexp) (eq? (car sexp) (string->symbol "unquote")))
+                                (meta (cadr sexp) a)
+                                (core:eval sexp a))))
+                     (if (eq? e *unspecified*) a
+                         (let ((id (string->symbol (string-append "$" (number->string count)))))
+                           (set! count (+ count 1))
+                           (display id)
+                           (display " = ")
+                           (write e)
+                           (newline)
+                           (acons id e a)))))))))
+
     (display welcome)
     (let loop ((a (current-module)))
       (display "mes> ")
       (force-output)
-      (catch #t
-        (lambda ()
-          (let ((sexp (read-env a)))
-            (when (not (eq? sexp '()))
-              (when print-sexp?
-                (display "[sexp=")
-                (display sexp)
-                (display "]")
-                (newline))
-              (if (and (pair? sexp) (eq? (car sexp) 'mes-use-module))
-                  (loop (mes-load-module-env (cadr sexp) a))
-                  (let ((e (if (and (pair? sexp) (eq? (car sexp) (string->symbol "unquote")))
-                               (meta (cadr sexp) a)
-                               (core:eval sexp a))))
-                    (if (eq? e *unspecified*) (loop a)
-                        (let ((id (string->symbol (string-append "$" (number->string count)))))
-                          (set! count (+ count 1))
-                          (display id)
-                          (display " = ")
-                          (write e)
-                          (newline)
-                          (loop (acons id e a)))))))))
-        (lambda (key . args)
-          (if (defined? 'with-output-to-string)
-              (simple-format (current-error-port) "exception:~a:~a\n" key args)
-              (begin
-                (display "exception:" (current-error-port))
-                (display key (current-error-port))
-                (display ":" (current-error-port))
-                (display args (current-error-port))
-                (newline (current-error-port))))
-          (loop a))))))
+      (let ((next (catch #t
+                    (lambda () (step a))
+                    (lambda (key . args)
+                      (set-current-input-port port)
+                      (report key args)
+                      a))))
+        (when next
+          (loop next))))))
-- 
2.43.0


From e4ec47861690c975a2cb100922466b962a5cd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 48/56] fix: a collection that runs out of memory stops instead
 of overwriting the stack

gc_copy did not look at the end of the memory it copies to.  With more
live data than fits in the jam area the copy ran into the stack, and the
program could end at once with status 0.
---
 src/gc.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index f0ef34d..2493a9c 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -30,6 +30,13 @@
 
 int g_dump_filedes;
 
+/* The first byte after the block that holds the cells, once
+   `gc_up_arena' has moved them.  */
+char *g_up_end;
+
+/* The first byte the collector may not write.  */
+char *g_gc_end;
+
 #if MES_SIM
 /* Simulation seam, off by default: a table of distances, in collection
    points, that decides which of them collect; a negative entry means
@@ -400,6 +407,7 @@ gc_up_arena ()
       exit (1);
     }
   g_cells = p;
+  g_up_end = cast_voidp_to_charp (p) + realloc_bytes;
   memcpy (p + stack_offset, p + old_arena_bytes, STACK_SIZE * sizeof (struct scm *));
   g_cells = g_cells + M2_CELL_SIZE;
 }
@@ -524,11 +532,26 @@ gc_flip ()
     gc_stats_ (";;; => jam");
 }
 
+/* Stop if the objects that are in use do not fit. */
+void
+gc_assert_room (long n)
+{
+  struct scm *x = g_free + (n * M2_CELL_SIZE);
+  if (cast_voidp_to_charp (x) > g_gc_end)
+    assert_msg (0, "gc: out of memory");
+}
+
 struct scm *
 gc_copy (struct scm *old)               /*:((internal)) */
 {
   if (old->type == TBROKEN_HEART)
     return old->car;
+  if (old->type == TSTRUCT || old->type == TVECTOR)
+    gc_assert_room (old->length + 1);
+  else if (old->type == TBYTES)
+    gc_assert_room (bytes_cells (old->length));
+  else
+    gc_assert_room (1);
   struct scm *new = g_free;
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
@@ -649,6 +672,12 @@ gc_check ()
 void
 gc_ ()
 {
+  /* The part of the stack that is not in use serves as jam, too. */
+  g_gc_end = cast_voidp_to_charp (g_stack_array);
+  g_gc_end = g_gc_end + (g_stack * sizeof (struct scm *));
+  if (g_up_end != 0)
+    g_gc_end = g_up_end;
+  gc_assert_room (2);
   gc_init_news ();
   if (g_debug == 2)
     eputs (".");
-- 
2.43.0


From 4f265f1dfa1cf30570d87b8401bb5fdba3400a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 49/56] fix: string-append, read-string and the reader stay
 within their buffer

string-append copied before it looked at the limit and overwrote whatever
followed the buffer; identifiers, and names of characters, were not
bounded at all.
---
 src/gc.c     | 3 ++-
 src/reader.c | 6 ++++++
 src/string.c | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 2493a9c..fa78c0d 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -155,7 +155,8 @@ gc_init ()
   g_free = g_cells + M2_CELL_SIZE;
 
   /* FIXME: remove MES_MAX_STRING, grow dynamically. */
-  g_buf = malloc (MAX_STRING);
+  /* Room for the byte that is one too many, and for a terminator. */
+  g_buf = malloc (MAX_STRING + 2);
 }
 
 long
diff --git a/src/reader.c b/src/reader.c
index 6b42178..bcc3172 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -85,6 +85,8 @@ reader_read_identifier_or_number (int c)
       }
   while (isdigit (c) != 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -101,6 +103,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
@@ -302,6 +306,8 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
+          if (i > 8)
+            error (cell_symbol_system_error, make_string0 ("char not supported"));
           buf[i] = readchar ();
           i = i + 1;
           p = peekchar ();
diff --git a/src/string.c b/src/string.c
index 961796b..093518b 100644
--- a/src/string.c
+++ b/src/string.c
@@ -204,11 +204,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
-      memcpy (p, cell_bytes (string->string), string->length + 1);
-      p = p + string->length;
       size = size + string->length;
       if (size > MAX_STRING)
         assert_max_string (size, "string_append", g_buf);
+      memcpy (p, cell_bytes (string->string), string->length + 1);
+      p = p + string->length;
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From f15caea527865c8f502c612d021d6a6cd51d285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 50/56] fix: reading an identifier such as -1+ or +1b does not
 lose its sign

---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index bcc3172..c8c9a5b 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -76,11 +76,17 @@ reader_read_identifier_or_number (int c)
   int negative_p = 0;
   if (c == '+')
     if (isdigit (peekchar ()) != 0)
-      c = readchar ();
+      {
+        g_buf[i] = c;
+        i = i + 1;
+        c = readchar ();
+      }
   if (c == '-')
     if (isdigit (peekchar ()) != 0)
       {
         negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From e754505c96749542dbe5da6b7eb6e0c9ae26a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 51/56] fix: a datum comment may end a list

---
 src/reader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index c8c9a5b..3f8594a 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -179,6 +179,12 @@ reader_eat_whitespace (int c)
           reader_read_block_comment (c, readchar ());
           return reader_eat_whitespace (readchar ());
         }
+      if (p == ';')
+        {
+          readchar ();
+          reader_read_sexp_ (readchar (), cell_nil);
+          return reader_eat_whitespace (readchar ());
+        }
     }
   return c;
 }
-- 
2.43.0


From 0d34daba0d5821512ea0e6a24165bda4bb6bcfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 52/56] fix: read carriage return and vertical tab between data
 as white space

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 3f8594a..0e81c60 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -131,7 +131,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From eb581f06211293ed26b22b4ea38fd9b62ad6a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 53/56] fix: accept a comment on a last line that has no
 newline

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 0e81c60..05606df 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -49,7 +49,7 @@ reader_read_line_comment (int c)
         return c;
       c = readchar ();
     }
-  error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
-- 
2.43.0


From 8d06a909e383aba7bba247a9959f93474351a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 54/56] fix: report an unterminated block comment, and read a
 long one

---
 src/reader.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 05606df..99f35bd 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -215,13 +215,17 @@ read_env (struct scm *a)
 struct scm *
 reader_read_block_comment (int s, int c)
 {
-  if (c == s)
-    if (peekchar () == '#')
-      {
-        readchar ();
-        return cell_unspecified;
-      }
-  return reader_read_block_comment (s, readchar ());
+  while (c != EOF)
+    {
+      if (c == s)
+        if (peekchar () == '#')
+          {
+            readchar ();
+            return cell_unspecified;
+          }
+      c = readchar ();
+    }
+  error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
 }
 
 struct scm *
-- 
2.43.0


From 7dffb86d38a7e403d8b66b2ca92afb491eb317a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 55/56] fix: write and display show a pair whose cdr is #f

---
 mes/module/mes/display.mes | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..8f48a45 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -138,7 +138,7 @@
               (#t
                (display (car x) port write?)
                (if (pair? (cdr x)) (d (cdr x) #t " ")
-                   (if (and (cdr x) (not (null? (cdr x))))
+                   (if (not (null? (cdr x)))
                        (begin
                          (display " . " port)
                          (display (cdr x) port write?))))))
-- 
2.43.0


From f3dddaafa4862c41ec191db86dc6171d7930a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 56/56] fix: mescc rejects input files of unknown format

Inputs with an unknown suffix were silently ignored: 'mescc -c foo.txt -o
foo.o' exited 0 without writing any output.
---
 module/mescc/mescc.scm | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/module/mescc/mescc.scm b/module/mescc/mescc.scm
index f5da08e..b644b47 100644
--- a/module/mescc/mescc.scm
+++ b/module/mescc/mescc.scm
@@ -71,8 +71,18 @@
   (with-input-from-file file-name
     (cut write (c99-input->ast #:prefix prefix #:defines defines #:includes includes #:arch arch #:verbose? verbose?))))
 
-(define (mescc:compile options)
+;; Return the input files; exit if any of them satisfies no predicate.
+(define (input-files options . predicates)
   (let* ((files (option-ref options '() '("a.c")))
+         (unknown (filter (negate (apply disjoin predicates)) files)))
+    (when (pair? unknown)
+      (format (current-error-port) "mescc: file format not recognized: ~a\n"
+              (string-join unknown))
+      (exit 1))
+    files))
+
+(define (mescc:compile options)
+  (let* ((files (input-files options .c? .E?))
          (input-file-name (car files))
          (input-base (basename input-file-name))
          (M1-file-name (cond ((and (option-ref options 'compile #f)
@@ -116,7 +126,7 @@
     (c99-ast->info (arch-get-info options) ast #:verbose? verbose?)))
 
 (define (mescc:assemble options)
-  (let* ((files (option-ref options '() '("a.c")))
+  (let* ((files (input-files options .c? .E? .s?))
          (input-file-name (car files))
          (input-base (basename input-file-name))
          (hex2-file-name (cond ((and (option-ref options 'assemble #f)
@@ -135,7 +145,7 @@
     hex2-file-name))
 
 (define (mescc:link options)
-  (let* ((files (option-ref options '() '("a.c")))
+  (let* ((files (input-files options .c? .E? .s? .o?))
          (source-files (filter (disjoin .c? .E?) files))
          (s-files (filter .s? files))
          (o-files (filter .o? files))
-- 
2.43.0

