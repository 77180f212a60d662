From d47d86837119c462622d669095d8df898e8a67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 01/77] fix: poll() based pollset uses uninitialised event
 masks and reports events nobody waits for

---
 poll.c.inc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index a575799..3bf3204 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,7 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +156,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
@@ -191,6 +193,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -200,11 +203,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -222,6 +227,8 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* Return 1 if at least one coroutine was resumed. An event reported for
+       a file descriptor nobody is waiting for any more doesn't count. */
+    return fired;
 }
 
-- 
2.43.0


From 23d95895dbc7883975de1207ab047919f3a0c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 02/77] fix: fdclean accesses memory out of bounds if the file
 descriptor is out of range

---
 epoll.c.inc | 1 +
 poll.c.inc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..7abf6ed 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) {errno = EBADF; return -1;}
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index 3bf3204..810c3b6 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -168,6 +168,7 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) {errno = EBADF; return -1;}
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From eb67bf4bb5e1e57adead528b3a6942f574360a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 03/77] fix: hclose writes to freed memory if the handle table
 grows during the close

---
 handle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handle.c b/handle.c
index 3d658ca..e510a83 100644
--- a/handle.c
+++ b/handle.c
@@ -155,6 +155,9 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* Other coroutines may have run during the close and the handle array may
+       have been reallocated. The pointer has to be recomputed. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From cd1670f7e6e895293544506c89c11501e370ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 04/77] fix: hown returns the errno left behind by the close of
 the object instead of its own

---
 handle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handle.c b/handle.c
index e510a83..edf5091 100644
--- a/handle.c
+++ b/handle.c
@@ -112,8 +112,10 @@ int dill_hown(int h) {
     /* Create a new handle for the same object. */
     int res = dill_hmake(hndl->vfs);
     if(dill_slow(res < 0)) {
+        int err = errno;
         int rc = dill_hclose(h);
         dill_assert(rc == 0);
+        errno = err;
         return -1;
     }
     /* In case handle array was reallocated we have to recompute the pointer. */
-- 
2.43.0


From 27c2bfa3c44dfd4e73cae64f2846b201bb0703ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 05/77] fix: bundle_mem does not set errno if the memory is
 missing

---
 cr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..c1faea3 100644
--- a/cr.c
+++ b/cr.c
@@ -85,8 +85,7 @@ DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
 int dill_bundle_mem(struct dill_bundle_storage *mem) {
-    int err;
-    if(dill_slow(!mem)) {err = EINVAL; return -1;}
+    if(dill_slow(!mem)) {errno = EINVAL; return -1;}
     struct dill_bundle *b = (struct dill_bundle*)mem;
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
-- 
2.43.0


From 0ab58f58e40298d3fc6f4b4d61f3ba96ae5599eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 06/77] fix: deadlines more than 2^31 ms away make the library
 busy-loop or never wake up

---
 cr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index c1faea3..8f97652 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -465,7 +466,11 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    /* The timeout passed to the system is limited to an int.
+                       If the deadline lies beyond that poll again later. */
+                    if(nw >= deadline) timeout = 0;
+                    else if(deadline - nw > INT_MAX) timeout = INT_MAX;
+                    else timeout = (int)(deadline - nw);
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From 54980e4258c64658570da844cc0d90d36b6a9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 07/77] fix: go_mem writes outside of the supplied memory if it
 is too small

---
 cr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 8f97652..999aadc 100644
--- a/cr.c
+++ b/cr.c
@@ -250,6 +250,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -274,7 +276,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
-        stacksz = top - (uintptr_t)*ptr;
+        /* If the block is very small the alignment may get us below it. */
+        stacksz = top > (uintptr_t)*ptr ? top - (uintptr_t)*ptr : 0;
         cr = (struct dill_cr*)top;
         if(dill_slow(stacksz < sizeof(struct dill_cr))) {
             err = ENOMEM; goto error2;}
-- 
2.43.0


From c77bb1d271609db90e03c72f9d087c1531da5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 08/77] fix: bundle_go with a negative handle launches a stray
 coroutine instead of failing with EBADF

---
 cr.c      | 2 +-
 libdill.h | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/cr.c b/cr.c
index 999aadc..eb32cba 100644
--- a/cr.c
+++ b/cr.c
@@ -247,7 +247,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     if(dill_slow(rc < 0)) {err = ECANCELED; goto error1;}
     /* If bundle is not supplied by the user create one. If user supplied a
        memory to use put the bundle at the beginning of the block. */
-    int new_bundle = bndl < 0;
+    int new_bundle = bndl == -1;
     if(new_bundle) {
         if(*ptr) {
             if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
diff --git a/libdill.h b/libdill.h
index 7063aa0..66e5fec 100644
--- a/libdill.h
+++ b/libdill.h
@@ -258,8 +258,12 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 #define dill_go(fn) dill_go_(fn, NULL, 0, -1)
 #define dill_go_mem(fn, ptr, len) dill_go_(fn, ptr, len, -1)
 
-#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, bndl)
-#define dill_bundle_go_mem(bndl, fn, ptr, len) dill_go_(fn, ptr, len, bndl)
+/* -1 would mean 'create a new bundle', so pass a different invalid handle. */
+#define dill_bundle_go_(bndl) \
+    __extension__ ({int dill_b__ = (bndl); dill_b__ == -1 ? -2 : dill_b__;})
+#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, dill_bundle_go_(bndl))
+#define dill_bundle_go_mem(bndl, fn, ptr, len) \
+    dill_go_(fn, ptr, len, dill_bundle_go_(bndl))
 
 struct dill_bundle_storage {char _[64];} DILL_ALIGN;
 
-- 
2.43.0


From 9dc5623f67e279551cb3bedd2c7867532a6bbfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 09/77] fix: bundles with several waiters, waited for while
 being closed, or launched into while being closed corrupt memory

---
 cr.c | 58 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/cr.c b/cr.c
index eb32cba..3e9fa54 100644
--- a/cr.c
+++ b/cr.c
@@ -75,13 +75,20 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* Clauses of those waiting for the bundle, to be triggered when all
+       coroutines are finished. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
 
+/* Clause of a coroutine waiting for a bundle. */
+struct dill_bundleclause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters. */
+    struct dill_list item;
+};
+
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
@@ -91,7 +98,7 @@ int dill_bundle_mem(struct dill_bundle_storage *mem) {
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -119,14 +126,21 @@ static void *dill_bundle_query(struct dill_hvfs *vfs, const void *type) {
 
 static void dill_bundle_close(struct dill_hvfs *vfs) {
     struct dill_bundle *self = (struct dill_bundle*)vfs;
-    struct dill_list *it = &self->crs;
-    for(it = self->crs.next; it != &self->crs; it = dill_list_next(it)) {
-        struct dill_cr *cr = dill_cont(it, struct dill_cr, bundle);
+    /* Coroutines may finish or be launched while we are waiting for one of
+       them to stop, so start from the head of the list each time. */
+    while(!dill_list_empty(&self->crs)) {
+        struct dill_cr *cr = dill_cont(dill_list_next(&self->crs),
+            struct dill_cr, bundle);
         dill_cr_close(&cr->vfs);
     }
     if(!self->mem) free(self);
 }
 
+static void dill_bundle_cancelwait(struct dill_clause *cl) {
+    struct dill_bundleclause *bcl = dill_cont(cl, struct dill_bundleclause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 int dill_bundle_wait(int h, int64_t deadline) {
     int rc = dill_canblock();
     if(dill_slow(rc < 0)) return -1;
@@ -135,13 +149,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundleclause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancelwait);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -349,22 +362,25 @@ void dill_epilogue(void) {
     struct dill_ctx_cr *ctx = &dill_getctx->cr;
     /* Mark the coroutine as finished. */
     ctx->r->done = 1;
+    /* If this is the last coroutine in the bundle unblock everyone waiting
+       for the bundle. */
+    if(dill_list_oneitem(&ctx->r->bundle)) {
+        struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
+            struct dill_bundle, crs);
+        while(!dill_list_empty(&b->waiters)) {
+            struct dill_bundleclause *bcl = dill_cont(
+                dill_list_next(&b->waiters), struct dill_bundleclause, item);
+            dill_trigger(&bcl->cl, 0);
+        }
+    }
+    dill_list_erase(&ctx->r->bundle);
     /* If there's a coroutine waiting for us to finish, unblock it now. */
     if(ctx->r->closer)
         dill_cancel(ctx->r->closer, 0);
     /* Deallocate the coroutine, unless, of course, it is already
        in the process of being closed. */
-    if(!ctx->r->no_blocking1) {
-        /* If this is the last coroutine in the bundle and there's someone
-           waiting for hdone() on the bundle unblock them. */
-        if(dill_list_oneitem(&ctx->r->bundle)) {
-            struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
-                struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
-        }
-        dill_list_erase(&ctx->r->bundle);
+    if(!ctx->r->no_blocking1)
         dill_cr_close(&ctx->r->vfs);
-    }
     /* With no clauses added, this call will never return. */
     dill_assert(dill_slist_empty(&ctx->r->clauses));
     dill_wait();
-- 
2.43.0


From 614f844e3035a4e68647a11b6c16c276c608af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 10/77] fix: process aborts if a coroutine that is closing a
 bundle is cancelled

---
 cr.c | 19 +++++++++++++------
 cr.h |  2 ++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cr.c b/cr.c
index 3e9fa54..90a8cc9 100644
--- a/cr.c
+++ b/cr.c
@@ -312,6 +312,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->no_blocking1 = 0;
     cr->no_blocking2 = 0;
     cr->done = 0;
+    cr->closing = 0;
     cr->mem = *ptr ? 1 : 0;
 #if defined DILL_VALGRIND
     cr->sid = VALGRIND_STACK_REGISTER((char*)(cr + 1) - stacksz, cr);
@@ -401,8 +402,16 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     if(!cr->done) {
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* This assertion triggers when coroutine tries to close a bundle that
+           it is part of, whether directly or via other coroutines that are
+           being closed. There's no sane way to handle that so let's just
+           crash the process. */
+        struct dill_cr *it;
+        for(it = ctx->r; it; it = it->closer) dill_assert(it != cr);
+        /* Resume the coroutine if it was blocked. If it is itself waiting for
+           a coroutine that it is closing leave it alone. That one is not
+           permitted to block and will resume it. */
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -410,11 +419,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        ctx->r->closing = 1;
         int rc = dill_wait();
-        /* This assertion triggers when coroutine tries to close a bundle that
-           it is part of. There's no sane way to handle that so let's just
-           crash the process. */
-        dill_assert(!(rc == -1 && errno == ECANCELED));
+        ctx->r->closing = 0;
         dill_assert(rc == -1 && errno == 0);
     }
 #if defined DILL_CENSUS
diff --git a/cr.h b/cr.h
index 627bd72..441bafa 100644
--- a/cr.h
+++ b/cr.h
@@ -66,6 +66,8 @@ struct dill_cr {
     unsigned int no_blocking2 : 1;
     /* Set when the coroutine has finished its execution. */
     unsigned int done : 1;
+    /* Set while the coroutine waits for a coroutine it is closing to stop. */
+    unsigned int closing : 1;
     /* If true, the coroutine was launched with go_mem. */
     unsigned int mem : 1;
     /* When the coroutine handle is being closed, this points to the
-- 
2.43.0


From dd737fd48c67a7e40b0987f5dac77946e480df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 11/77] fix: rejected buffer lists are left marked as in use,
 and a looped one not unmarked at all

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..46678a9 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, --nbf) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From 6f5e128258c950a9bc3c626e299b7facae9fe2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 12/77] fix: malformed buffer lists hang or break the
 connection instead of failing with EINVAL, receiving without buffers crashes

---
 bsock.c |  8 ++++----
 msock.c | 10 ++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..c48209c 100644
--- a/bsock.c
+++ b/bsock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_bsock_type);
@@ -49,8 +50,8 @@ int dill_bsendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first || !last)) {errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return b->bsendl(b, first, last, deadline);
 }
 
@@ -58,8 +59,7 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return b->brecvl(b, first, last, deadline);
 }
 
diff --git a/msock.c b/msock.c
index c493bba..2501bc4 100644
--- a/msock.c
+++ b/msock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_msock_type);
@@ -49,8 +50,8 @@ int dill_msendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first || !last)) {errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return m->msendl(m, first, last, deadline);
 }
 
@@ -58,10 +59,7 @@ ssize_t dill_mrecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow((last && last->iol_next) ||
-          (!first && last) ||
-          (first && !last))) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return m->mrecvl(m, first, last, deadline);
 }
 
-- 
2.43.0


From 6a4f5665cabe70b305fbfcd8ff1581b1c96f44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 13/77] fix: errors while skipping a large part of the stream
 are ignored

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From 61fce43ae49ee5b5192e155f62b8593d9fd11640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 14/77] fix: prefix receives with a list longer than the
 message pass a list whose last item does not belong to it

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index 1746872..8095097 100644
--- a/prefix.c
+++ b/prefix.c
@@ -180,7 +180,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 54a239340281faa84a4cfeb864f8b7593a3bcefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 15/77] fix: length of a message too long for the prefix is
 silently cut

---
 prefix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prefix.c b/prefix.c
index 8095097..9928973 100644
--- a/prefix.c
+++ b/prefix.c
@@ -140,6 +140,8 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    /* The size doesn't fit into the header. */
+    if(dill_slow(sz)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
-- 
2.43.0


From 62aad57bc1b774699a8c4aea62561dcff4223d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 16/77] fix: suffix receives cut messages that do not fit, hang
 on empty buffers and crash without buffers

---
 suffix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index 1dce9e8..9d82c4d 100644
--- a/suffix.c
+++ b/suffix.c
@@ -156,21 +156,22 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    struct dill_iolist it = {0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(first && it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        if(first) it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From b5ac3171d9067a238c6915fb38d8f5c71cfa1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 17/77] fix: tcp_close and ipc_close leave a dangling handle
 behind

---
 ipc.c | 5 +++--
 tcp.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..d9f0e32 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,11 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..4cc24f7 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,11 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From 25662c1d352c62c5cbd65a348b631762354ee2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 18/77] fix: adopted descriptors leak if no handle can be
 created for them

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index d9f0e32..1243a11 100644
--- a/ipc.c
+++ b/ipc.c
@@ -106,12 +106,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -400,12 +402,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index 4cc24f7..2479c6b 100644
--- a/tcp.c
+++ b/tcp.c
@@ -100,12 +100,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -312,12 +314,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 28e00573b3074e9d6a47e7b9487f0c4860dfa392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 19/77] fix: detaching a protocol leaves a dangling handle
 behind, failed ws_detach does not close the socket

---
 http.c   |  6 +++++-
 prefix.c |  5 ++++-
 suffix.c |  5 ++++-
 term.c   |  9 ++++++---
 tls.c    |  6 ++++--
 ws.c     | 25 +++++++++++++++++++------
 6 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..5b3d39b 100644
--- a/http.c
+++ b/http.c
@@ -117,7 +117,11 @@ int dill_http_detach(int s, int64_t deadline) {
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
 error:
-    if(!obj->mem) free(obj);
+    /* Release the handle. The underlying socket is either detached or closed
+       at this point. */
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/prefix.c b/prefix.c
index 9928973..38b1f5f 100644
--- a/prefix.c
+++ b/prefix.c
@@ -117,7 +117,10 @@ int dill_prefix_detach(int s) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle, but don't close the underlying socket. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 9d82c4d..330fae1 100644
--- a/suffix.c
+++ b/suffix.c
@@ -121,7 +121,10 @@ int dill_suffix_detach(int s, int64_t deadline) {
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle, but don't close the underlying socket. */
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 5c91677..2ba4b05 100644
--- a/term.c
+++ b/term.c
@@ -145,11 +145,14 @@ int dill_term_detach(int s, int64_t deadline) {
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
-    return u;
-error:;
+    /* Release the handle, but don't close the underlying socket. */
+    self->u = -1;
     int rc = dill_hclose(s);
     dill_assert(rc == 0);
+    return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/tls.c b/tls.c
index 958b10e..7520f18 100644
--- a/tls.c
+++ b/tls.c
@@ -277,10 +277,12 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/ws.c b/ws.c
index 013a516..a32c247 100644
--- a/ws.c
+++ b/ws.c
@@ -541,11 +541,13 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
 
 int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
+    int err;
+    int rc;
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(!self->outdone) {
-        int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        rc = dill_ws_done(s, status, buf, len, deadline);
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -553,18 +555,29 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             err = errno;
+             goto error;
         }
     }
     int u = self->u;
-    if(!self->mem) free(self);
+    /* Release the handle, but don't close the underlying socket. */
+    self->u = -1;
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From c1e31925684a1764f33ffce349cb1e453c15dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 20/77] fix: term_attach overflows its buffer on terminal
 messages longer than 32 bytes

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 2ba4b05..409403a 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
-- 
2.43.0


From f2837312322ad4b77aa5c84a3fc861c05b441143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 21/77] fix: term sockets send messages after the terminal one
 and read past the end of the peer's messages

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index 409403a..fce6f8b 100644
--- a/term.c
+++ b/term.c
@@ -160,6 +160,7 @@ error:
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -167,6 +168,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From f0f24edeb320f1c079aed0480bd2cbf0dbdef219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 22/77] fix: term receives return garbage, or fail, for
 messages or buffers shorter than the terminal message

---
 term.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/term.c b/term.c
index fce6f8b..013a878 100644
--- a/term.c
+++ b/term.c
@@ -179,11 +179,16 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
-    struct dill_iolist trimmed = {0};
-    int rc = dill_ioltrim(first, self->len, &trimmed);
+    /* The beginning of the message goes to the temporary buffer, so that it can
+       be compared with the terminal message. The rest goes to the part of the
+       user's list that follows. If the list is too short, or there is none,
+       the rest is dropped. */
     uint8_t buf[self->len];
-    struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    struct dill_iolist trimmed = {NULL, SIZE_MAX, NULL, 0};
+    struct dill_iolist iol = {buf, self->len, &trimmed, 0};
+    int rc = first ? dill_ioltrim(first, self->len, &trimmed) : -1;
+    ssize_t sz = dill_mrecvl(self->u, &iol,
+        rc == 0 && trimmed.iol_next ? last : &trimmed, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -191,7 +196,12 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    if(!first) return sz;
+    size_t len = 0;
+    struct dill_iolist *it;
+    for(it = first; rc < 0 && it; it = it->iol_next) len += it->iol_len;
+    if(dill_slow(rc < 0 && sz > len)) {errno = EMSGSIZE; return -1;}
+    dill_iolto(buf, sz < self->len ? sz : self->len, first);
     return sz;
 }
 
-- 
2.43.0


From 41e07a2110b82420c1d1fbcd3939364218172e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 23/77] fix: failures of ipc_sendfd and ipc_recvfd kill the
 process or leave the connection usable in the middle of the stream

---
 ipc.c | 53 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/ipc.c b/ipc.c
index 1243a11..47d2615 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define IPC_NOSIGNAL MSG_NOSIGNAL
+#else
+#define IPC_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -234,15 +240,23 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
     *((int*)CMSG_DATA(cmsg)) = fd;
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    self->sbusy = 1;
+    while(1) {
+        ssize_t sz = sendmsg(self->fd, &msg, IPC_NOSIGNAL);
+        if(dill_fast(sz == 1)) break;
+        if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
+            if(errno == EPIPE) errno = ECONNRESET;
+            goto error;
+        }
+        int rc = dill_fdout(self->fd, deadline);
+        if(dill_slow(rc < 0)) goto error;
     }
+    self->sbusy = 0;
     return 0;
+error:
+    self->sbusy = 0;
+    self->outerr = 1;
+    return -1;
 }
 
 int dill_ipc_recvfd(int s, int64_t deadline) {
@@ -263,14 +277,21 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     unsigned char control[1024];
     msg.msg_control = control;
     msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    self->rbusy = 1;
+    while(1) {
+        ssize_t sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz > 0)) break;
+        if(dill_slow(sz == 0)) {
+            self->rbusy = 0; self->indone = 1; errno = EPIPE; return -1;}
+        if(dill_slow(errno != EWOULDBLOCK && errno != EAGAIN)) {
+            if(errno == EPIPE) errno = ECONNRESET;
+            goto error;
+        }
+        int rc = dill_fdin(self->fd, deadline);
+        if(dill_slow(rc < 0)) goto error;
+        msg.msg_controllen = sizeof(control);
     }
+    self->rbusy = 0;
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
@@ -283,6 +304,10 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     }
     if(dill_slow(fd < 0)) {self->inerr = 1; errno = EPROTO; return -1;}
     return fd;
+error:
+    self->rbusy = 0;
+    self->inerr = 1;
+    return -1;
 }
 
 int dill_ipc_done(int s, int64_t deadline) {
-- 
2.43.0


From f4831a48432b8026f4a1b8adea20d8c942f7d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 24/77] fix: descriptors beyond the first one passed in a
 single message leak

---
 ipc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipc.c b/ipc.c
index 47d2615..c7d413e 100644
--- a/ipc.c
+++ b/ipc.c
@@ -297,8 +297,13 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
         if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+            /* Only one descriptor can be returned to the user. */
+            int *fds = (int*)CMSG_DATA(cmsg);
+            size_t i, nfds = (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+            for(i = 0; i != nfds; ++i) {
+                if(fd < 0) fd = fds[i];
+                else close(fds[i]);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From 913e02673f142ecd8f5f95e1da352bc1c280c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 25/77] fix: ipc_pair leaks memory if the second handle cannot
 be created

---
 ipc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipc.c b/ipc.c
index c7d413e..f5f874c 100644
--- a/ipc.c
+++ b/ipc.c
@@ -593,7 +593,9 @@ int dill_ipc_pair(int s[2]) {
     conn1->mem = 0;
     return 0;
 error6:
+    /* This closes the first descriptor and frees the first object. */
     rc = dill_hclose(s[0]);
+    free(conn1);
     goto error2;
 error5:
     free(conn1);
-- 
2.43.0


From f6905afb8aee227caf65bae2a71cc8aabafe3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 26/77] fix: ipc_listen_mem without memory crashes instead of
 failing with EINVAL

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index f5f874c..0a30240 100644
--- a/ipc.c
+++ b/ipc.c
@@ -448,6 +448,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From 9aa420e140f0695f02d783ccfbd6d15998fbb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 27/77] fix: udp_open ignores the failure to bind to the local
 address

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From 9119f2044edbd7ffe3a975722cab776bb2964e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 28/77] fix: a datagram longer than the buffer is truncated
 instead of failing with EMSGSIZE

---
 udp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udp.c b/udp.c
index bc7b22c..75600da 100644
--- a/udp.c
+++ b/udp.c
@@ -187,6 +187,8 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            if(dill_slow(hdr.msg_flags & MSG_TRUNC)) {
+                errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 0fa33ef987c35b687dcc34dd50c9d814f61ed520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 29/77] fix: receiving a datagram without a buffer fails or
 loses its size

---
 udp.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index 75600da..8125e32 100644
--- a/udp.c
+++ b/udp.c
@@ -54,6 +54,9 @@ struct dill_udp_sock {
 
 DILL_CHECK_STORAGE(dill_udp_sock, dill_udp_storage)
 
+/* Data that the user is not interested in are received here. */
+static uint8_t dill_udp_sink[65536];
+
 static void *dill_udp_hquery(struct dill_hvfs *hvfs, const void *type) {
     struct dill_udp_sock *obj = (struct dill_udp_sock*)hvfs;
     if(type == dill_msock_type) return &obj->mvfs;
@@ -176,8 +179,22 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     size_t niov;
     int rc = dill_iolcheck(first, last, &niov, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
+    struct iovec iov[niov ? niov : 1];
     dill_ioltoiov(first, iov);
+    /* If there are no buffers at all the whole packet is dropped. */
+    if(niov == 0) {
+        iov[0].iov_base = NULL;
+        iov[0].iov_len = sizeof(dill_udp_sink);
+        niov = 1;
+    }
+    /* Data for which there is no buffer are dropped. */
+    size_t i;
+    for(i = 0; i != niov; ++i) {
+        if(iov[i].iov_base) continue;
+        iov[i].iov_base = dill_udp_sink;
+        if(iov[i].iov_len > sizeof(dill_udp_sink))
+            iov[i].iov_len = sizeof(dill_udp_sink);
+    }
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
     while(1) {
-- 
2.43.0


From 57347e844f09bc3cbda53e91e8802eb85408e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 30/77] fix: udp functions misinterpret handles of other
 message sockets

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index 8125e32..3719ade 100644
--- a/udp.c
+++ b/udp.c
@@ -219,32 +219,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From b486c62c305236e6d9170437a44e86edc7067de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 31/77] fix: sending a datagram fails while another coroutine
 is receiving

---
 udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udp.c b/udp.c
index 3719ade..afc5014 100644
--- a/udp.c
+++ b/udp.c
@@ -136,7 +136,6 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
       const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
     struct dill_udp_sock *obj = dill_cont(mvfs, struct dill_udp_sock, mvfs);
-    if(dill_slow(obj->busy)) {errno = EBUSY; return -1;}
     /* If no destination IP address is provided, fall back to the stored one. */
     const struct dill_ipaddr *dstaddr = addr;
     if(!dstaddr) {
-- 
2.43.0


From 35989e99f4dc8d53d64bbb86603fc070061aef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 32/77] fix: HTTP lines with another protocol version are
 accepted

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index 5b3d39b..d8a0203 100644
--- a/http.c
+++ b/http.c
@@ -181,7 +181,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -230,7 +230,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 21eae579bfb98b40dcd9685c9ab2e03d4f479ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 33/77] fix: HTTP sending functions accept line breaks and
 empty words

---
 http.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/http.c b/http.c
index d8a0203..099b8cf 100644
--- a/http.c
+++ b/http.c
@@ -130,8 +130,10 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*command || strpbrk(command, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
+    if (!*resource || strpbrk(resource, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -193,6 +195,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if (strpbrk(reason, "\r\n") != NULL) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -259,8 +262,9 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\r\n") != NULL) {
         errno = EINVAL; return -1;}
+    if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
     if (strlen(value) == 0) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
-- 
2.43.0


From 24a5c542e55a6ee6939bc556bce01932643c0dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 34/77] fix: http_sendfield aborts if the value consists of
 spaces

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 099b8cf..2710e37 100644
--- a/http.c
+++ b/http.c
@@ -265,7 +265,6 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\r\n") != NULL) {
         errno = EINVAL; return -1;}
     if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -276,6 +275,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_next = &iol[2];
     iol[1].iol_rsvd = 0;
     const char *start = dill_lstrip(value, ' ');
+    if (strlen(start) == 0) {errno = EPROTO; return -1;}
     const char *end = dill_rstrip(start, ' ');
     dill_assert(start < end);
     iol[2].iol_base = (void*)start;
-- 
2.43.0


From 0c4dc2aae01bd7b2391d62be2e3bf854240a4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 35/77] fix: http_recvfield does not strip trailing spaces

---
 http.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 2710e37..f1e65b8 100644
--- a/http.c
+++ b/http.c
@@ -311,7 +311,8 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    if(obj->rxbuf[pos] != 0)
+        pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From 5195ecc460ca5b3148cfc9e4ee6ef5402b8e1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 36/77] fix: HTTP receiving functions write to buffers of zero
 size

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index f1e65b8..378c135 100644
--- a/http.c
+++ b/http.c
@@ -168,7 +168,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -176,7 +176,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -251,7 +251,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -302,7 +302,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -313,7 +313,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     start = pos;
     if(obj->rxbuf[pos] != 0)
         pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From b00fc5c1e434a44e10e387bd9f41c837a6d8dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 37/77] fix: ws_attach_client leaks the socket if the server
 refuses to upgrade

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index a32c247..8e94714 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 0e71015bb5d4f36a0bd945ddd02074a23f6ae731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 38/77] fix: ws_attach_server accepts requests without Host and
 leaves host unset

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 8e94714..e74c0ee 100644
--- a/ws.c
+++ b/ws.c
@@ -271,7 +271,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From 24af0fe4b26a8fb635b6d6be28da73113a040620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 39/77] fix: sending a masked WebSocket message over 64kB
 overflows the header buffer

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index e74c0ee..14cc6da 100644
--- a/ws.c
+++ b/ws.c
@@ -325,7 +325,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From ee6c8d79c1437874c37b98aeedf73d4d9139ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 40/77] fix: WebSocket messages in several fragments or buffers
 are garbled

---
 ws.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 14cc6da..440c057 100644
--- a/ws.c
+++ b/ws.c
@@ -381,7 +381,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
     /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    /* If there are no buffers at all the message is dropped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
     if(first) it = *first;
     while(1) {
         struct dill_iolist iol_msg;
@@ -439,16 +440,20 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
         }
         /* Frame may be read into multiple iolist elements. */
+        size_t maskpos = 0;
         while(1) {
             size_t toread = sz < it.iol_len ? sz : it.iol_len;
             if(toread > 0) {
                 rc = dill_brecv(self->u, it.iol_base, toread, deadline);
                 if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
+                if(self->server && it.iol_base) {
                     size_t i;
                     for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+                        ((uint8_t*)it.iol_base)[i] ^= mask[(maskpos + i) % 4];
                 }
+                maskpos += toread;
+                if(it.iol_base) it.iol_base = ((uint8_t*)it.iol_base) + toread;
+                it.iol_len -= toread;
             }
             sz -= toread;
             if(sz == 0) break;
-- 
2.43.0


From d4fc9c332324975806c594fde976b2814413f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 41/77] fix: WebSocket fragmentation is not checked and a
 broken close frame is taken for a valid one

---
 ws.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index 440c057..5d057ad 100644
--- a/ws.c
+++ b/ws.c
@@ -380,6 +380,8 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
     size_t res = 0;
+    int fragment = 0;
+    int done = 0;
     /* Message may consist of multiple frames. Read them one by one. */
     /* If there are no buffers at all the message is dropped. */
     struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
@@ -394,14 +396,19 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            if(dill_slow(!fragment)) {errno = EPROTO; return -1;}
             break;
         case 1:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
+            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
+            /* Unfinished message, if any, is dropped. */
+            res = 0;
             it.iol_base = &self->status;
             it.iol_len = 2;
             it.iol_next = &iol_msg;
@@ -410,7 +417,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             iol_msg.iol_len = sizeof(self->msg);
             iol_msg.iol_next = NULL;
             iol_msg.iol_rsvd = 0;
-            self->indone = 1;
+            done = 1;
             break;
         default:
             errno = EPROTO;
@@ -461,8 +468,9 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
+        fragment = 1;
     }
-    if(dill_slow(self->indone)) {
+    if(dill_slow(done)) {
         if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
@@ -471,6 +479,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
+        self->indone = 1;
         errno = EPIPE;
         return -1;
     }
-- 
2.43.0


From 43f745fbb954b3b203c3c36f6d290f4de92eff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 42/77] fix: WebSocket receives go on in the middle of a
 message after EPROTO or EMSGSIZE

---
 ws.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/ws.c b/ws.c
index 5d057ad..3717727 100644
--- a/ws.c
+++ b/ws.c
@@ -41,6 +41,7 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -82,6 +83,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -204,6 +206,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -379,6 +382,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     size_t res = 0;
     int fragment = 0;
     int done = 0;
@@ -391,19 +395,19 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
         if(dill_slow(rc < 0)) return -1;
-        if(hdr1[0] & 0x70) {errno = EPROTO; return -1;}
+        if(hdr1[0] & 0x70) {errno = EPROTO; goto error;}
         int opcode = hdr1[0] & 0x0f;
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
-            if(dill_slow(!fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(!fragment)) {errno = EPROTO; goto error;}
             break;
         case 1:
-            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(fragment)) {errno = EPROTO; goto error;}
             if(flags) *flags = DILL_WS_TEXT;
             break;
         case 2:
-            if(dill_slow(fragment)) {errno = EPROTO; return -1;}
+            if(dill_slow(fragment)) {errno = EPROTO; goto error;}
             if(flags) *flags = DILL_WS_BINARY;
             break;
         case 8:
@@ -421,9 +425,9 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             break;
         default:
             errno = EPROTO;
-            return -1;
+            goto error;
         }
-        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; return -1;}
+        if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; goto error;}
         size_t sz = hdr1[1] & 0x7f;
         if(sz == 126) {
             uint8_t hdr2[2];
@@ -440,7 +444,7 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
-            errno = EPROTO; return -1;}
+            errno = EPROTO; goto error;}
         uint8_t mask[4];
         if(self->server) {
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
@@ -464,18 +468,18 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             }
             sz -= toread;
             if(sz == 0) break;
-            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; goto error;}
             it = *it.iol_next;
         }
         if(hdr1[0] & 0x80) break;
         fragment = 1;
     }
     if(dill_slow(done)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
+        if(dill_slow(res == 1)) {errno = EPROTO; goto error;}
         if(res >= 2) {
            self->status = dill_gets((uint8_t*)&self->status);
            if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
+               errno = EPROTO; goto error;}
            self->msglen = (uint8_t)res - 2;
         }
         else self->msglen = 0;
@@ -484,6 +488,10 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         return -1;
     }
     return res;
+error:
+    /* There is no way to find the start of the next message. */
+    self->inerr = 1;
+    return -1;
 }
 
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
-- 
2.43.0


From e5666b9bb22013b03a930bdfedccae134ea5a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 43/77] fix: ws_done sends close frames that no peer accepts

---
 ws.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ws.c b/ws.c
index 3717727..bb74c41 100644
--- a/ws.c
+++ b/ws.c
@@ -548,6 +548,10 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
         (!buf && len > 0))) {errno = EINVAL; return -1;}
+    /* Payload of the close frame is limited to 125 bytes and the message
+       cannot be sent without a status. */
+    if(dill_slow(len > 123 || (!status && len > 0))) {
+        errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From c0e6dcf5a1b5166f152a978b199f5c4b3b2b7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 44/77] fix: ws_detach succeeds if the peer ended the stream
 without a close frame

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index bb74c41..48da06b 100644
--- a/ws.c
+++ b/ws.c
@@ -581,7 +581,7 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
         ssize_t sz = dill_ws_recvl_base(&self->mvfs, NULL, &iol, &iol,
             deadline);
         if(sz < 0) {
-             if(errno == EPIPE) break;
+             if(errno == EPIPE && self->indone) break;
              err = errno;
              goto error;
         }
-- 
2.43.0


From 5cc2bbf312e67e825fcf438de07c89a29386b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 45/77] fix: a SOCKS5 proxy can abort the client by choosing a
 method that was not offered

---
 socks5.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..fa78109 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // proxy must not choose a method which wasn't offered
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,7 +128,7 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
     return -1;
 }
-- 
2.43.0


From 690dee9cdcd04239b2dcf069860e6de38bba5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 46/77] fix: socks5_proxy_auth does not set errno when it
 refuses the client

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index fa78109..e07be4b 100644
--- a/socks5.c
+++ b/socks5.c
@@ -203,6 +203,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
+        errno = EACCES;
         return -1;
     }
     // no compatible AUTH (auth fail)
@@ -210,6 +211,7 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
+    errno = EACCES;
     return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
-- 
2.43.0


From b60cd3d58f0bf21a9e6146e61164745c1f5a8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 47/77] fix: base64_decode reads out of bounds for bytes over
 127

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index eb3582d..a600920 100644
--- a/utils.c
+++ b/utils.c
@@ -170,7 +170,7 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)(in[ii])];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 35f3391a7c514993245c66ecd4c3b08331555d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 48/77] fix: ipaddr_local accepts invalid ports and aborts on
 invalid modes

---
 ipaddr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..992e839 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -179,7 +179,20 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
-    if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    switch(mode) {
+    case 0:
+        mode = DILL_IPADDR_PREF_IPV4;
+        break;
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
+    if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 94b173250e4388f299979f75602117d118d1bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 49/77] fix: ipaddr_remote aborts on invalid ports

---
 ipaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipaddr.c b/ipaddr.c
index 992e839..ba3e2c3 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -281,6 +281,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
     if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From 9e04b2275077641c1bec64c41813a0d7f3774c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 50/77] fix: ipaddr_remote sends literals of the other family
 to the DNS servers

---
 ipaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index ba3e2c3..4b420a2 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -297,7 +297,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     }
     /* Name may be a IP address literal. */
     memset(addrs, 0, sizeof(struct dill_ipaddr));
-    int rc = dill_ipaddr_literal(addrs, name, port, mode);
+    int rc = dill_ipaddr_literal(addrs, name, port, DILL_IPADDR_PREF_IPV4);
     if(rc == 0) {
         if(dill_slow(mode == DILL_IPADDR_IPV6 &&
               dill_ipaddr_family(addrs) == AF_INET)) return 0;
-- 
2.43.0


From 0c4efb7dc2c0ec7c14ff19f0375de765ec30b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 51/77] fix: term_detach succeeds if the stream ends without
 the terminal message

---
 term.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/term.c b/term.c
index 013a878..01138ea 100644
--- a/term.c
+++ b/term.c
@@ -138,7 +138,7 @@ int dill_term_detach(int s, int64_t deadline) {
             struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
             ssize_t sz = dill_term_mrecvl(&self->mvfs, &iol, &iol, deadline);
             if(sz < 0) {
-                if(errno == EPIPE) break;
+                if(errno == EPIPE && self->indone) break;
                 err = errno;
                 goto error;
             }
-- 
2.43.0


From e794a375ff47ebd70ab301c3c86d438a1826691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 52/77] fix: happyeyeballs attempts follow each other
 immediately if name resolution is slow

---
 happyeyeballs.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..49207d8 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -104,16 +104,13 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
         dill_now() + 50);
     if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
     int idx;
-    int64_t nw;
     if(dill_fast(rc == 0)) {
         idx = 0;
-        nw = dill_now();
         goto use_address;
     }
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
@@ -131,7 +128,7 @@ use_address:
             cls[1].ch = tmp;
         }
         /* Wait for 300ms before launching next connection attempt. */
-        rc = dill_msleep(nw + 300);
+        rc = dill_msleep(dill_now() + 300);
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
     }
-- 
2.43.0


From a917b1e6a092220e91dae2757bed9d0c565fc3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 53/77] fix: happyeyeballs_connect never returns if all the
 connection attempts fail

---
 happyeyeballs.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 49207d8..aed64e6 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -54,9 +54,9 @@ static dill_coroutine void dill_happyeyeballs_dnsquery(const char *name,
 }
 
 static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
-      int ch) {
+      int ch, int *err) {
     int conn = dill_tcp_connect(&addr, -1);
-    if(dill_slow(conn < 0)) return;
+    if(dill_slow(conn < 0)) {*err = errno; return;}
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
     if(dill_slow(rc < 0 && errno == ECANCELED)) {
         rc = dill_hclose(conn);
@@ -74,6 +74,7 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     /* According to the RFC, IPv4 and IPv6 DNS queries should be done in
        parallel. Create two coroutines and two channels to pass
        the addresses from them. */
+    int err = EADDRNOTAVAIL;
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
@@ -104,21 +105,23 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
         dill_now() + 50);
     if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
     int idx;
+    /* Number of DNS queries that aren't finished yet. */
+    int nqueries = 2;
     if(dill_fast(rc == 0)) {
         idx = 0;
         goto use_address;
     }
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
-    while(1) {
+    while(nqueries > 0) {
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
 use_address:
         /* Ignore 0.0.0.0 addresses. */
-        if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
+        if(dill_ipaddr_equal(&addr, &nulladdr, 0)) {--nqueries; continue;}
         /* Launch the connect attempt. */
-        rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
+        rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch, &err));
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
         /* Alternate between IPv4 and IPv6 addresses. */
@@ -132,6 +135,11 @@ use_address:
         if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(rc == 0);
     }
+    /* No more addresses to try. If all the attempts fail, report the error. */
+    rc = dill_bundle_wait(bndl, -1);
+    if(dill_slow(rc < 0)) goto cancel;
+    int res = -err;
+    dill_chsend(ch, &res, sizeof(int), -1);
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
@@ -158,6 +166,7 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    if(dill_slow(conn < 0)) {err = -conn; goto exit3;}
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From c9ec8b8212930eeb781689df76b668d8390ba00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 54/77] fix: happyeyeballs_connect aborts on ports over 65535

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index aed64e6..faabbc2 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -156,7 +156,7 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 0xffff)) {err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From 0ff4f5c4804a0824045dde3ceed8172bc9e7a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 55/77] fix: happyeyeballs_connect aborts if it runs out of
 resources

---
 happyeyeballs.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index faabbc2..414cda9 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -78,22 +78,20 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error1;}
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) {err = errno; goto error3;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     struct dill_ipaddr addr;
@@ -122,8 +120,7 @@ use_address:
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) {--nqueries; continue;}
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch, &err));
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) {err = errno; goto cancel;}
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -136,21 +133,24 @@ use_address:
         dill_assert(rc == 0);
     }
     /* No more addresses to try. If all the attempts fail, report the error. */
-    rc = dill_bundle_wait(bndl, -1);
-    if(dill_slow(rc < 0)) goto cancel;
-    int res = -err;
-    dill_chsend(ch, &res, sizeof(int), -1);
+    dill_bundle_wait(bndl, -1);
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+error3:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+error2:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+error1:;
+    /* If the coordinator was canceled this does nothing. */
+    int res = -err;
+    dill_chsend(ch, &res, sizeof(int), -1);
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
-- 
2.43.0


From af7750b9635adf29174a153fbde8f8e10d82e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 56/77] fix: ipaddr_remote crashes if no DNS server can be
 reached

---
 ipaddr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipaddr.c b/ipaddr.c
index 4b420a2..c50126f 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -388,6 +388,12 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            if(nresults > 0) break;
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 019a3edb6fe8fcce804bd92b0280b0003c7f6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 57/77] fix: DNS resolver uses compound literals after the end
 of their lifetime

---
 dns/dns.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..3ce5d0e 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -151,7 +151,7 @@ extern int dns_debug;
 
 /* GCC parses the _Pragma operator less elegantly than clang. */
 #define dns_quietinit(...) \
-	__extension__ ({ DNS_PRAGMA_PUSH DNS_PRAGMA_QUIET __VA_ARGS__; DNS_PRAGMA_POP })
+	__VA_ARGS__ /* a statement expression would end the literal's lifetime */
 #else
 #define DNS_PRAGMA_PUSH
 #define DNS_PRAGMA_QUIET
-- 
2.43.0


From 908242ac0678302548ef8a965c9a08c5696c5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 58/77] fix: fd send waits after everything was sent

If the list of buffers ended with an empty one, the send waited for the
socket to become writable again after all the data had been sent and could
fail with ETIMEDOUT or ECANCELED.
---
 fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fd.c b/fd.c
index 67bde4e..68c9195 100644
--- a/fd.c
+++ b/fd.c
@@ -183,7 +183,7 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
         }
         /* Adjust the iovec array so that it doesn't contain data
            that was already sent. */
-        while(sz) {
+        while(1) {
             struct iovec *head = &hdr.msg_iov[0];
             if(head->iov_len > sz) {
                 head->iov_base += sz;
-- 
2.43.0


From 17b8916d0707db676eddb8252b5e1b00454d93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 59/77] fix: socks5 client overflows a buffer by one byte with
 the longest user name and password

strcpy of the password wrote the terminating zero byte one byte past the end of
the 513 byte request if both the user name and the password are 255 bytes long.
---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index e07be4b..01ad6a8 100644
--- a/socks5.c
+++ b/socks5.c
@@ -113,9 +113,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             uint8_t plen = (uint8_t)strlen(password);
             upauth[0] = RFC1929_VER; // VER = 1
             upauth[1] = ulen; // ULEN
-            strcpy((char *)(upauth + 2), username); // UNAME
+            memcpy(upauth + 2, username, ulen); // UNAME
             upauth[2 + ulen] = plen; // PLEN
-            strcpy((char *)(upauth + 3 + ulen), password); // PASSWD
+            memcpy(upauth + 3 + ulen, password, plen); // PASSWD
             err = dill_bsend(s, (void *)upauth, 3 + ulen + plen, deadline);
             if(dill_slow(err)) return -1;
             uint8_t upauthr[2];
-- 
2.43.0


From 704aac5d9e53a7fe1bbe82a3a837a8c58c085fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 60/77] fix: happyeyeballs reports ECANCELED when it runs out
 of resources

If a coroutine or an attempt could not be created, the attempts that were
still in progress were canceled and their ECANCELED overwrote the error.
---
 happyeyeballs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 414cda9..132f5e1 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -56,7 +56,11 @@ static dill_coroutine void dill_happyeyeballs_dnsquery(const char *name,
 static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
       int ch, int *err) {
     int conn = dill_tcp_connect(&addr, -1);
-    if(dill_slow(conn < 0)) {*err = errno; return;}
+    if(dill_slow(conn < 0)) {
+        /* Canceled attempts say nothing about why connecting has failed. */
+        if(errno != ECANCELED) *err = errno;
+        return;
+    }
     int rc = dill_chsend(ch, &conn, sizeof(int), -1);
     if(dill_slow(rc < 0 && errno == ECANCELED)) {
         rc = dill_hclose(conn);
-- 
2.43.0


From 13c4799a149e7c4c34b17db17dac54578290b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 61/77] fix: ipaddr_local aborts if an interface has two
 addresses of one family

---
 ipaddr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index c50126f..d20251e 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -218,12 +218,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From 9dbab9db75deef56f4e746a7c9e83dd9d9d973b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 62/77] fix: ipaddr_local aborts if the interfaces cannot be
 listed

It takes descriptors and memory to get the list, so that can fail.
---
 ipaddr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index d20251e..2f536e3 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -205,8 +205,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc < 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
@@ -261,7 +260,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
         freeifaddrs(ifaces);
         return 0;
     }
-    freeifaddrs(ifaces);
+    if(ifaces) freeifaddrs(ifaces);
     errno = ENODEV;
     return -1;
 #endif
-- 
2.43.0


From aa908ded69871711473c9c2e7d62d7cc59ccd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 63/77] fix: name lookups report a missing file, a name too
 long, no memory, instead of aborting

---
 ipaddr.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 2f536e3..60ec3f7 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -331,24 +331,34 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
        unless they are already chached. */
     if(dill_slow(!dill_dns_conf)) {
         /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
+        struct dns_resolv_conf *conf = dns_resconf_local(&rc);
+        if(dill_slow(!conf)) {
             errno = ENOENT;
             return -1;
         }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
+        struct dns_hosts *hosts = dns_hosts_local(&rc);
+        if(dill_slow(!hosts)) {
+            dns_resconf_close(conf);
+            errno = rc;
+            return -1;
+        }
+        struct dns_hints *hints = dns_hints_local(conf, &rc);
+        if(dill_slow(!hints)) {
+            dns_hosts_close(hosts);
+            dns_resconf_close(conf);
+            errno = rc;
+            return -1;
+        }
+        dill_dns_hosts = hosts;
+        dill_dns_hints = hints;
+        dill_dns_conf = conf;
     }
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
         dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
-    if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
+    if(dill_slow(!resolver)) {
+        errno = rc;
+        return -1;
     }
     dill_assert(port >= 0 && port <= 0xffff);
     char portstr[8];
@@ -359,8 +369,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {
+        errno = rc;
+        return -1;
+    }
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
-- 
2.43.0


From 6b87b77ae30bec269f88f7ca75439a77d642259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 64/77] fix: the question for the target of a CNAME asks for
 recursion

---
 dns/dns.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 064440a..68fa7f7 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6983,6 +6983,8 @@ exec:
 		if (!(F[1].query = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
+		dns_header(F[1].query)->rd	= !R->resconf->options.recurse;
+
 		if ((error = dns_p_push(F[1].query, DNS_S_QD, host, strlen(host), dns_rr_type(12, F->query), DNS_C_IN, 0, 0)))
 			goto error;
 
-- 
2.43.0


From b44c7753e59ec07ececa9d7065e6d05e6c305ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 65/77] fix: a search list with the root domain does not make
 malformed questions

---
 dns/dns.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 68fa7f7..8d59573 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4849,7 +4849,9 @@ size_t dns_resconf_search(void *dst, size_t lim, const void *qname, size_t qlen,
 		if (srchi < lengthof(resconf->search) && (slen = strlen(resconf->search[srchi]))) {
 			len	= dns__printstring(dst, lim, 0, qname, qlen);
 			len	= dns_d_anchor(dst, lim, dst, len);
-			len	+= dns__printstring(dst, lim, len, resconf->search[srchi], slen);
+			/* the root domain adds nothing to the name */
+			if (slen != 1 || resconf->search[srchi][0] != '.')
+				len	+= dns__printstring(dst, lim, len, resconf->search[srchi], slen);
 
 			srchi++;
 
-- 
2.43.0


From fdaed04b111c25ea005c660fa0a6858a22199612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 66/77] fix: DNS names with loops or NUL labels no longer hang
 or crash name lookups

A name in an answer whose compression pointers lead back to an earlier label
made dns_d_expand loop forever. A label containing NUL gave an empty string,
which dns_d_cname's callers take for a failure with no error set; the lookup
then continued with a NULL address.
---
 dns/dns.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 8d59573..e3bef0f 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1827,6 +1827,14 @@ size_t dns_d_expand(void *dst, size_t lim, unsigned short src, struct dns_packet
 			if (P->end - src < len)
 				goto toolong;
 
+			/* labels may be chained in a loop by pointers */
+			if (dstp + len + 1 > DNS_D_MAXNAME)
+				goto toolong;
+
+			/* the expanded name is used as a C string */
+			if (memchr(&P->data[src], '\0', len))
+				goto reserved;
+
 			if (dstp < lim)
 				memcpy(&((unsigned char *)dst)[dstp], &P->data[src], DNS_PP_MIN(len, lim - dstp));
 
-- 
2.43.0


From 6fa9a691cff06089831f0f2fee03811c645ba266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 67/77] fix: TLS sockets abort with OpenSSL that asks the BIO
 for things it did not ask for before

Any control command but the few known ones ended in an assertion. OpenSSL 3
uses more of them, already in the first handshake. The answer to a command
that is not supported is zero.
---
 tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 7520f18..72df6e9 100644
--- a/tls.c
+++ b/tls.c
@@ -457,7 +457,8 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     case BIO_CTRL_POP:
         return 0;
     default:
-        dill_assert(0);
+        /* Zero is the way to say that the command is not supported. */
+        return 0;
     }
 }
 
-- 
2.43.0


From 028a52aa850367c0b3fdb284bcb6a4814627e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 68/77] fix: failed tls_attach frees the BIO twice or leaks the
 connection

SSL_free() frees the BIO attached to the connection, it must not be freed
in front of that. When the underlying socket could not be taken over, or
the handle not created, the connection and its context were lost.
---
 tls.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index 72df6e9..363a2d7 100644
--- a/tls.c
+++ b/tls.c
@@ -96,7 +96,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -117,15 +117,14 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* Deallocates the BIO as well, once it is attached to the connection. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
@@ -182,7 +181,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -203,15 +202,14 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(dill_tls_followup(self, rc)) break;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
+    /* Deallocates the BIO as well, once it is attached to the connection. */
     SSL_free(ssl);
 error2:
     SSL_CTX_free(ctx);
-- 
2.43.0


From a40b65b3fc756a74d0d1c9a9e7d4876b6877a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 69/77] fix: tls_attach succeeds even if the handshake fails

The loop was left before the error was looked at.
---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 363a2d7..9bcc574 100644
--- a/tls.c
+++ b/tls.c
@@ -116,8 +116,9 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error3;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
@@ -201,8 +202,9 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error3;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-- 
2.43.0


From 22b0c3dc336f8065392857f9d80339316395e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 70/77] fix: TLS sockets ignore deadlines

tls_attach, tls_done and tls_detach waited forever, or until the deadline
of an earlier call. A deadline of a send applied to a receive in progress
and vice versa.
---
 tls.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/tls.c b/tls.c
index 9bcc574..2c924dd 100644
--- a/tls.c
+++ b/tls.c
@@ -43,12 +43,14 @@ struct dill_tls_sock {
     SSL_CTX *ctx;
     SSL *ssl;
     int u;
-    int64_t deadline;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
     unsigned int outerr : 1;
     unsigned int mem : 1;
+    /* Deadlines of the operations on the underlying socket. */
+    int64_t indeadline;
+    int64_t outdeadline;
 };
 
 DILL_CHECK_STORAGE(dill_tls_sock, dill_tls_storage)
@@ -106,7 +108,8 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -192,7 +195,8 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -244,6 +248,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->outdeadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -268,6 +273,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->indeadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
@@ -292,7 +298,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->outdeadline = deadline;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -320,7 +326,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->indeadline = deadline;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -437,14 +443,14 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_bsend(self->u, buf, len, self->deadline);
+    int rc = dill_bsend(self->u, buf, len, self->outdeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_brecv(self->u, buf, len, self->deadline);
+    int rc = dill_brecv(self->u, buf, len, self->indeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0


From 18a7642369f06747e47e64f5c17ab2862e526cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 71/77] fix: TLS receives abort on empty buffers and crash on
 those to be skipped

SSL_read() of zero bytes ended in an assertion, and a buffer without a base
was passed to it as it was. Neither function takes a length beyond INT_MAX.
---
 tls.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tls.c b/tls.c
index 2c924dd..81618e4 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -305,7 +306,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_write(self->ssl, base, len);
+            int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -331,17 +332,20 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     while(1) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            /* If there is no buffer the data are to be skipped. */
+            uint8_t skip[512];
+            size_t toread = base || len < sizeof(skip) ? len : sizeof(skip);
+            if(dill_slow(toread > INT_MAX)) toread = INT_MAX;
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            int rc = SSL_read(self->ssl, base ? base : skip, toread);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-- 
2.43.0


From 602d6b0765c53ae8389ed3305196dfd9671e7100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 72/77] fix: failures of TLS sends are reported as EPIPE once
 the peer has finished

SSL_get_error() then says that the peer has closed the connection no matter
what failed.
---
 tls.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 81618e4..c5296ea 100644
--- a/tls.c
+++ b/tls.c
@@ -390,8 +390,7 @@ static void dill_tls_process_errors(void) {
    In the latter case, error code is in errno.
    In the case of success errno is set to zero. */
 static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
-    int err;
-    char errstr[120];
+    int bioerr = errno;
     int code = SSL_get_error(self->ssl, rc);
     switch(code) {
 	  case SSL_ERROR_NONE:
@@ -399,12 +398,14 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         errno = 0;
         return 1;
 	  case SSL_ERROR_ZERO_RETURN:
-        /* Connection terminated by peer. */
-        errno = EPIPE;
+        /* Connection terminated by peer. After that failures of the custom
+           BIO are reported in this way as well. */
+        errno = rc < 0 && bioerr != 0 ? bioerr : EPIPE;
         return 1;
     case SSL_ERROR_SYSCALL:
         /* Error from our custom BIO. */
         dill_assert(rc == -1);
+        errno = bioerr;
         if(errno == 0) return 0;
         return 1;
     case SSL_ERROR_SSL:        
-- 
2.43.0


From bd0bda9c5c4e0969be8d24df8bc15ade01fd25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 73/77] fix: a TLS socket is broken by a second coroutine
 trying to use it

Sends and receives of several coroutines got mixed up in the middle of TLS
records. As with other sockets, the second one fails with EBUSY.
---
 tls.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index c5296ea..55f7598 100644
--- a/tls.c
+++ b/tls.c
@@ -49,6 +49,8 @@ struct dill_tls_sock {
     unsigned int inerr : 1;
     unsigned int outerr : 1;
     unsigned int mem : 1;
+    unsigned int rbusy : 1;
+    unsigned int sbusy : 1;
     /* Deadlines of the operations on the underlying socket. */
     int64_t indeadline;
     int64_t outdeadline;
@@ -116,6 +118,8 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->inerr = 0;
     self->outerr = 0;
     self->mem = 1;
+    self->rbusy = 0;
+    self->sbusy = 0;
     /* Initial handshaking. */
     while(1) {
         ERR_clear_error();
@@ -203,6 +207,8 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->inerr = 0;
     self->outerr = 0;
     self->mem = 1;
+    self->rbusy = 0;
+    self->sbusy = 0;
     /* Initial handshaking. */
     while(1) {
         ERR_clear_error();
@@ -249,15 +255,19 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     self->outdeadline = deadline;
+    self->sbusy = 1;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
-        if(rc == 0) {self->outdone = 1; return 0;}
-        if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
+        if(rc == 0) {self->sbusy = 0; self->outdone = 1; return 0;}
+        if(rc == 1) {
+            self->sbusy = 0; self->outdone = 1; self->indone = 1; return 0;}
         if(dill_tls_followup(self, rc)) break;
     }
     dill_assert(errno != 0);
+    self->sbusy = 0;
     self->outerr = 1;
     return -1;
 }
@@ -275,6 +285,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
         self->indeadline = deadline;
+        self->outdeadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
@@ -299,7 +310,9 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     self->outdeadline = deadline;
+    self->sbusy = 1;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -309,6 +322,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
             int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
+                    self->sbusy = 0;
                     self->outerr = 1;
                     return -1;
                 }
@@ -319,6 +333,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->sbusy = 0;
     return 0;
 }
 
@@ -327,7 +342,11 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
     self->indeadline = deadline;
+    /* Receiving may involve sending, e.g. of an alert. */
+    if(!self->sbusy) self->outdeadline = deadline;
+    self->rbusy = 1;
     struct dill_iolist *it = first;
     while(1) {
         uint8_t *base = it->iol_base;
@@ -341,6 +360,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
             int rc = SSL_read(self->ssl, base ? base : skip, toread);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
+                    self->rbusy = 0;
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
@@ -352,6 +372,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
         if(it == last) break;
         it = it->iol_next;
     }
+    self->rbusy = 0;
     return 0;
 }
 
-- 
2.43.0


From aa0d2d8297cd0296b7a5184884e430300754ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 74/77] fix: using a TLS socket after a fatal TLS error hangs
 the process

OpenSSL fails without setting errno then, and the call was retried forever.
---
 tls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 55f7598..72299eb 100644
--- a/tls.c
+++ b/tls.c
@@ -427,7 +427,8 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         /* Error from our custom BIO. */
         dill_assert(rc == -1);
         errno = bioerr;
-        if(errno == 0) return 0;
+        /* Connection that has failed before does nothing but fail. */
+        if(errno == 0) errno = ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
-- 
2.43.0


From ca56999e119d370189d459da21133572a6f82f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 75/77] fix: TLS receives without buffers crash

The other bytestreams take it for a receive of no bytes.
---
 tls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index 72299eb..b6e8755 100644
--- a/tls.c
+++ b/tls.c
@@ -348,7 +348,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(!self->sbusy) self->outdeadline = deadline;
     self->rbusy = 1;
     struct dill_iolist *it = first;
-    while(1) {
+    while(it) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
         while(len > 0) {
-- 
2.43.0


From 91537f64e07ddac4fd748f761c66eed83934a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 76/77] fix: OpenSSL errors of one TLS socket are mixed up with
 those of others

Coroutines share OpenSSL's queue of errors. While one is blocked in the BIO,
others leave errors in the queue or clear those that are in there, so that, for
example, an expired deadline was reported as EFAULT.
---
 tls.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tls.c b/tls.c
index b6e8755..b034c65 100644
--- a/tls.c
+++ b/tls.c
@@ -468,16 +468,31 @@ static int dill_tls_cbio_destroy(BIO *bio) {
     return 1;
 }
 
+/* While a coroutine is blocked in the BIO others can use OpenSSL, which has
+   one queue of errors for all of them. Leave it as it was before. */
+static void dill_tls_restore_error(unsigned long sslerr) {
+    int err = errno;
+    ERR_clear_error();
+    if(dill_slow(sslerr != 0))
+        ERR_put_error(ERR_GET_LIB(sslerr), 0, ERR_GET_REASON(sslerr),
+            __FILE__, __LINE__);
+    errno = err;
+}
+
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
+    unsigned long sslerr = ERR_peek_error();
     int rc = dill_bsend(self->u, buf, len, self->outdeadline);
+    dill_tls_restore_error(sslerr);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
+    unsigned long sslerr = ERR_peek_error();
     int rc = dill_brecv(self->u, buf, len, self->indeadline);
+    dill_tls_restore_error(sslerr);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0


From 5b79bf1378a18e187da153b87f8979ad52c395f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:11 +0000
Subject: [PATCH 77/77] fix: deadlines of concurrent operations on a TLS socket
 are mixed up

A receive that had to send an alert did so with the deadline of the latest
send.
---
 tls.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/tls.c b/tls.c
index b034c65..5969339 100644
--- a/tls.c
+++ b/tls.c
@@ -51,9 +51,7 @@ struct dill_tls_sock {
     unsigned int mem : 1;
     unsigned int rbusy : 1;
     unsigned int sbusy : 1;
-    /* Deadlines of the operations on the underlying socket. */
-    int64_t indeadline;
-    int64_t outdeadline;
+    int64_t deadline;
 };
 
 DILL_CHECK_STORAGE(dill_tls_sock, dill_tls_storage)
@@ -111,8 +109,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->indeadline = deadline;
-    self->outdeadline = deadline;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -200,8 +197,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->indeadline = deadline;
-    self->outdeadline = deadline;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -256,7 +252,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
-    self->outdeadline = deadline;
+    self->deadline = deadline;
     self->sbusy = 1;
     while(1) {
         ERR_clear_error();
@@ -284,8 +280,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
-        self->indeadline = deadline;
-        self->outdeadline = deadline;
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
@@ -311,7 +306,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
-    self->outdeadline = deadline;
+    self->deadline = deadline;
     self->sbusy = 1;
     struct dill_iolist *it = first;
     while(1) {
@@ -343,9 +338,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
-    self->indeadline = deadline;
-    /* Receiving may involve sending, e.g. of an alert. */
-    if(!self->sbusy) self->outdeadline = deadline;
+    self->deadline = deadline;
     self->rbusy = 1;
     struct dill_iolist *it = first;
     while(it) {
@@ -468,8 +461,9 @@ static int dill_tls_cbio_destroy(BIO *bio) {
     return 1;
 }
 
-/* While a coroutine is blocked in the BIO others can use OpenSSL, which has
-   one queue of errors for all of them. Leave it as it was before. */
+/* While a coroutine is blocked in the BIO others can use the same socket, with
+   deadlines of their own, and OpenSSL, which has one queue of errors for all of
+   them. All that is to be as before afterwards. */
 static void dill_tls_restore_error(unsigned long sslerr) {
     int err = errno;
     ERR_clear_error();
@@ -482,7 +476,9 @@ static void dill_tls_restore_error(unsigned long sslerr) {
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     unsigned long sslerr = ERR_peek_error();
-    int rc = dill_bsend(self->u, buf, len, self->outdeadline);
+    int64_t deadline = self->deadline;
+    int rc = dill_bsend(self->u, buf, len, deadline);
+    self->deadline = deadline;
     dill_tls_restore_error(sslerr);
     if(dill_slow(rc < 0)) return -1;
     return len;
@@ -491,7 +487,9 @@ static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
     unsigned long sslerr = ERR_peek_error();
-    int rc = dill_brecv(self->u, buf, len, self->indeadline);
+    int64_t deadline = self->deadline;
+    int rc = dill_brecv(self->u, buf, len, deadline);
+    self->deadline = deadline;
     dill_tls_restore_error(sslerr);
     if(dill_slow(rc < 0)) return -1;
     return len;
-- 
2.43.0

