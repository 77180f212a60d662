#define _GNU_SOURCE
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>

__thread struct vk *vkp;

#define VKRAND 9999   /* descriptor handed out for /dev/urandom */

struct vk *vk_new(void) {
    struct vk *v = calloc(1, sizeof(struct vk));
    v->clk = 100000;
    v->tsc = 1000000000000LL;
    vkp = v;
    return v;
}

void vk_free_vk(struct vk *v) {
    int i;
    for(i = 0; i != VK_NFDS; ++i)
        if(v->fd[i]) {struct vk *o = vkp; vkp = v; vk_closefd(i); vkp = o;}
    free(v);
}

/******************************************************************************/
/*  Objects and descriptors                                                   */
/******************************************************************************/

struct vkobj *vk_mkobj(int kind) {
    struct vkobj *o = calloc(1, sizeof(struct vkobj));
    o->kind = kind;
    o->refs = 1;
    o->txwin = -1;
    o->id = ++vkp->ids;
    return o;
}

static void unreg_obj(struct vkobj *o) {
    int i, j = 0;
    for(i = 0; i != vkp->nreg; ++i)
        if(vkp->reg[i].o != o) vkp->reg[j++] = vkp->reg[i];
    vkp->nreg = j;
}

void vk_unref(struct vkobj *o) {
    if(--o->refs > 0) return;
    unreg_obj(o);
    if(o->link) {
        /* whatever was written and not moved yet stays deliverable: the
           driver pumps explicitly before it relies on the link */
        o->link->link = NULL;
    }
    while(o->rxh) {
        struct vkseg *s = o->rxh; o->rxh = s->next;
        int i; for(i = 0; i != s->nfd; ++i) vk_unref(s->fdo[i]);
        free(s);
    }
    {int i; for(i = 0; i != o->ntxfds; ++i) if(o->txfdo[i]) vk_unref(o->txfdo[i]);}
    {int i; for(i = 0; i != o->nacc; ++i) if(o->acc[i]) vk_unref(o->acc[i]);}
    free(o->tx);
    free(o);
}

int vk_openobj(struct vkobj *o, int fdmin, int lib) {
    int i;
    for(i = fdmin; i < VK_NFDS; ++i) if(!vkp->fd[i]) break;
    if(i == VK_NFDS) {errno = EMFILE; return -1;}
    vkp->fd[i] = o;
    vkp->fdlib[i] = lib;
    return i;
}

int vk_open(int kind, int fdmin, int lib) {
    struct vkobj *o = vk_mkobj(kind);
    return vk_openobj(o, fdmin, lib);
}

void vk_closefd(int fd) {
    struct vkobj *o = vkp->fd[fd];
    if(!o) return;
    vkp->fd[fd] = NULL;
    vkp->fdlib[fd] = 0;
    vk_unref(o);
}

int vk_libfds(void) {
    int i, n = 0;
    for(i = 0; i != VK_NFDS; ++i)
        if(vkp->fd[i] && vkp->fdlib[i] && vkp->fd[i]->kind != VK_EPOLL) ++n;
    return n;
}

static struct vkobj *vk_get(int fd) {
    if(fd < 0 || fd >= VK_NFDS || !vkp->fd[fd]) {errno = EBADF; return NULL;}
    return vkp->fd[fd];
}

/* 1 if the system is to refuse the descriptor now being asked for */
static int vk_sysfail(void) {
    if(vkp->sysdown > 0 && --vkp->sysdown == 0) {
        vkp->tripped = 1; errno = vkp->syserr; return 1;}
    return 0;
}

/******************************************************************************/
/*  Clock                                                                     */
/******************************************************************************/

int vk_clock_gettime(clockid_t id, struct timespec *ts) {
    ts->tv_sec = vkp->clk / 1000;
    ts->tv_nsec = (vkp->clk % 1000) * 1000000 + 123456;
    return 0;
}
int64_t vk_rdtsc(void) {return vkp->tsc;}

int vk_getrlimit(int res, struct rlimit *rl) {
    rl->rlim_cur = VK_NFDS; rl->rlim_max = VK_NFDS;
    return 0;
}

/******************************************************************************/
/*  Memory                                                                    */
/******************************************************************************/

struct vkhdr {size_t sz; void *base; uint64_t magic; uint64_t pad;};
#define VKMAGIC 0x5ca1ab1e0ddba11ULL
#define VKQ 64
static __thread void *vkq[VKQ]; static __thread int vkqi;

static void *vk_alloc(size_t align, size_t sz, int fill) {
    if(vkp && vkp->countdown > 0 && --vkp->countdown == 0) {
        vkp->tripped = 1; errno = ENOMEM; return NULL;}
    size_t a = align < 32 ? 32 : align;
    char *base;
    if(posix_memalign((void**)&base, a, a + sz + 16)) {errno = ENOMEM; return NULL;}
    char *p = base + a;
    struct vkhdr *h = (struct vkhdr*)p - 1;
    h->sz = sz; h->base = base; h->magic = VKMAGIC;
    if(fill >= 0 && sz < 200000) memset(p, fill, sz);
    memset(p + sz, 0x5a, 16);
    if(vkp) {if(sz >= 200000) vkp->nbig++; else {vkp->nalloc++; vkp->balloc += sz;}}
    return p;
}

void *vk_malloc(size_t sz) {return vk_alloc(32, sz, 0xa5);}
void *vk_calloc(size_t n, size_t sz) {
    void *p = vk_alloc(32, n * sz, -1);
    if(p) memset(p, 0, n * sz);
    return p;
}
int vk_posix_memalign(void **pp, size_t al, size_t sz) {
    int e = errno;
    void *p = vk_alloc(al, sz, 0xa5);
    if(!p) {errno = e; return ENOMEM;}
    *pp = p; return 0;
}
void *vk_aligned_alloc(size_t al, size_t sz) {return vk_alloc(al, sz, 0xa5);}

void vk_free(void *p) {
    if(!p) return;
    struct vkhdr *h = (struct vkhdr*)p - 1;
    int i;
    char here;
    if(&here > (char*)p && &here < (char*)p + h->sz) {
        fprintf(stderr, "vk: the stack in use is freed\n"); abort();}
    if(h->magic != VKMAGIC) {fprintf(stderr, "vk: bad free\n"); abort();}
    for(i = 0; i != 16; ++i) if(((unsigned char*)p)[h->sz + i] != 0x5a) {
        fprintf(stderr, "vk: write beyond an allocation\n"); abort();}
    if(vkp) {if(h->sz >= 200000) vkp->nbig--; else {vkp->nalloc--; vkp->balloc -= h->sz;}}
    h->magic = 0;
    if(h->sz < 65536) memset(p, 0xdd, h->sz);
    if(h->sz < 20000) {
        /* small blocks rest for a while before the allocator may reuse them */
        void *b = h->base;
        if(vkq[vkqi]) free(vkq[vkqi]);
        vkq[vkqi] = b; vkqi = (vkqi + 1) % VKQ;
    }
    else free(h->base);
}

void *vk_realloc(void *p, size_t sz) {
    if(!p) return vk_malloc(sz);
    void *n = vk_malloc(sz);
    if(!n) return NULL;
    struct vkhdr *h = (struct vkhdr*)p - 1;
    memcpy(n, p, h->sz < sz ? h->sz : sz);
    vk_free(p);
    return n;
}
char *vk_strdup(const char *s) {
    size_t l = strlen(s) + 1; char *p = vk_malloc(l);
    if(p) memcpy(p, s, l);
    return p;
}

char *vk_strndup(const char *s, size_t n) {
    size_t l = strnlen(s, n); char *p = vk_malloc(l + 1);
    if(p) {memcpy(p, s, l); p[l] = 0;}
    return p;
}
void *vk_memalign(size_t al, size_t sz) {return vk_alloc(al, sz, 0xa5);}
void *vk_reallocarray(void *p, size_t n, size_t sz) {
    if(sz && n > SIZE_MAX / sz) {errno = ENOMEM; return NULL;}
    return vk_realloc(p, n * sz);
}

/******************************************************************************/
/*  Readiness                                                                 */
/******************************************************************************/

size_t vk_rxavail(struct vkobj *o) {
    size_t n = 0; struct vkseg *s;
    for(s = o->rxh; s; s = s->next) n += s->len - s->pos;
    return n;
}

int vk_bits(struct vkobj *o) {
    int b = 0;
    switch(o->kind) {
    case VK_READY:
        if(o->in) b |= POLLIN;
        if(o->out) b |= POLLOUT;
        if(o->err & 1) b |= POLLERR;
        if(o->err & 2) b |= POLLHUP;
        return b;
    case VK_STREAM: case VK_SOCK:
        if(o->listening) {if(o->nacc) b |= POLLIN; return b;}
        if(o->connecting == 1) return 0;
        if(o->soerr) return POLLIN | POLLOUT | POLLERR | POLLHUP;
        if(!o->connected) return POLLOUT | POLLHUP;
        if(o->rxh || o->rxeof || o->rxerr) b |= POLLIN;
        if(o->txwin != 0 || o->txerr || o->txshut) b |= POLLOUT;
        if(o->rxerr == ECONNRESET || o->txerr == ECONNRESET) b |= POLLERR | POLLHUP | POLLIN | POLLOUT;
        else if(o->rxeof && o->txshut) b |= POLLHUP;
        return b;
    case VK_DGRAM:
        if(o->rxh || o->rxerr) b |= POLLIN;
        b |= POLLOUT;
        return b;
    case VK_FILE:
        return POLLIN | POLLOUT;
    }
    return 0;
}

/* the set asked for in the call in progress */
static __thread struct pollfd *curpfd; static __thread int curn; static __thread int curep;

static int poll_one(struct pollfd *p) {
    if(p->fd < 0) return 0;
    if(p->fd >= VK_NFDS || !vkp->fd[p->fd]) return POLLNVAL;
    return vk_bits(vkp->fd[p->fd]) & (p->events | POLLERR | POLLHUP);
}

int vk_pending(void) {
    int i, n = 0;
    if(curpfd) {for(i = 0; i != curn; ++i) if(poll_one(&curpfd[i])) ++n;}
    if(curep) {for(i = 0; i != vkp->nreg; ++i)
        if(vk_bits(vkp->reg[i].o) & (vkp->reg[i].ev | EPOLLERR | EPOLLHUP)) ++n;}
    return n;
}

int vk_poll(struct pollfd *fds, nfds_t nfds, int timeout) {
    int i, n = 0;
    struct pollfd none;
    curpfd = fds ? fds : &none; curn = nfds; curep = 0;
    int rc = vkp->hook(timeout);
    curpfd = NULL;
    if(rc < 0) {vkp->after(-1, 0, NULL); errno = EINTR; return -1;}
    for(i = 0; i != (int)nfds; ++i) {
        fds[i].revents = poll_one(&fds[i]);
        if(fds[i].revents) ++n;
    }
    vkp->after(n, 0, NULL);
    return n;
}

int vk_epoll_create(int size) {
    if(vk_sysfail()) return -1;
    return vk_open(VK_EPOLL, 3, 1);
}
int vk_epoll_create1(int flags) {return vk_epoll_create(1);}

int vk_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
    struct vkobj *e = vk_get(efd);
    if(!e) return -1;
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(o->kind == VK_FILE) {errno = EPERM; return -1;}
    if(o->kind == VK_EPOLL) {errno = EINVAL; return -1;}
    int i;
    for(i = 0; i != vkp->nreg; ++i)
        if(vkp->reg[i].o == o && vkp->reg[i].fd == fd) break;
    switch(op) {
    case EPOLL_CTL_ADD:
        if(i != vkp->nreg) {errno = EEXIST; return -1;}
        if(vkp->nreg == VK_MAXREG) {errno = ENOSPC; return -1;}
        vkp->nreg++;
        vkp->reg[i].o = o; vkp->reg[i].fd = fd;
        vkp->reg[i].ev = ev->events; vkp->reg[i].data = ev->data.u64;
        return 0;
    case EPOLL_CTL_MOD:
        if(i == vkp->nreg) {errno = ENOENT; return -1;}
        vkp->reg[i].ev = ev->events; vkp->reg[i].data = ev->data.u64;
        return 0;
    case EPOLL_CTL_DEL:
        if(i == vkp->nreg) {errno = ENOENT; return -1;}
        memmove(&vkp->reg[i], &vkp->reg[i + 1], (vkp->nreg - i - 1) * sizeof(struct vkreg));
        vkp->nreg--;
        return 0;
    }
    errno = EINVAL; return -1;
}

int vk_epoll_wait(int efd, struct epoll_event *evs, int maxev, int timeout) {
    struct vkobj *e = vk_get(efd);
    if(!e) return -1;
    vkp->maxev = maxev;
    curep = 1; curpfd = NULL;
    int rc = vkp->hook(timeout);
    curep = 0;
    if(rc < 0) {vkp->after(-1, 0, NULL); errno = EINTR; return -1;}
    int i, n = 0, total = 0;
    for(i = 0; i != vkp->nreg; ++i) {
        struct vkreg *r = &vkp->reg[(i + vkp->rot) % vkp->nreg];
        uint32_t b = vk_bits(r->o) & (r->ev | EPOLLERR | EPOLLHUP);
        if(!b) continue;
        ++total;
        if(n == maxev) continue;
        evs[n].events = b; evs[n].data.u64 = r->data;
        ++n;
    }
    if(total > n && vkp->nreg) vkp->rot = (vkp->rot + n) % vkp->nreg;
    vkp->after(n, total > n, evs);
    return n;
}

/******************************************************************************/
/*  Sockets                                                                   */
/******************************************************************************/

int vk_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    switch(cmd) {
    case F_GETFD: return 0;
    case F_SETFD: return 0;
    case F_GETFL: return o->nonblock ? O_RDWR | O_NONBLOCK : O_RDWR;
    case F_SETFL: o->nonblock = !!(arg & O_NONBLOCK); return 0;
    }
    errno = EINVAL; return -1;
}

int vk_socket(int domain, int type, int proto) {
    if(vk_sysfail()) return -1;
    if(domain != AF_INET && domain != AF_INET6 && domain != AF_UNIX) {
        errno = EAFNOSUPPORT; return -1;}
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    int fd = vk_open(t == SOCK_DGRAM ? VK_DGRAM : VK_SOCK, vkp->nextfd, 1);
    if(fd < 0) return -1;
    vkp->fd[fd]->family = domain;
    vkp->fd[fd]->type = t;
    vkp->fd[fd]->nonblock = !!(type & SOCK_NONBLOCK);
    return fd;
}

int vk_socketpair(int domain, int type, int proto, int sv[2]) {
    if(vk_sysfail()) return -1;
    int i;
    for(i = 0; i != 2; ++i) {
        sv[i] = vk_open(VK_STREAM, vkp->nextfd, 1);
        struct vkobj *o = vkp->fd[sv[i]];
        o->family = domain; o->type = type; o->connected = 1;
    }
    vkp->fd[sv[0]]->link = vkp->fd[sv[1]];
    vkp->fd[sv[1]]->link = vkp->fd[sv[0]];
    return 0;
}

int vk_setsockopt(int fd, int level, int name, const void *val, socklen_t len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(level == SOL_SOCKET && name == SO_LINGER) {
        const struct linger *l = val;
        o->linger0 = l->l_onoff && l->l_linger == 0;
    }
    return 0;
}

int vk_getsockopt(int fd, int level, int name, void *val, socklen_t *len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(o->kind == VK_READY || o->kind == VK_FILE || o->kind == VK_EPOLL) {errno = ENOTSOCK; return -1;}
    int v;
    switch(name) {
    case SO_TYPE: v = o->type; break;
    case SO_ACCEPTCONN: v = o->listening; break;
    case SO_ERROR: v = o->soerr; o->soerr = 0; break;
    default: v = 0;
    }
    memcpy(val, &v, sizeof(v)); *len = sizeof(v);
    return 0;
}

int vk_getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(o->kind == VK_READY || o->kind == VK_FILE) {errno = ENOTSOCK; return -1;}
    struct sockaddr_storage ss = o->addr;
    socklen_t l = o->addrlen;
    if(!l) {
        memset(&ss, 0, sizeof(ss)); ss.ss_family = o->family;
        l = o->family == AF_INET ? sizeof(struct sockaddr_in) :
            o->family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(sa_family_t);
    }
    memcpy(sa, &ss, *len < l ? *len : l); *len = l;
    return 0;
}
int vk_getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(!o->connected) {errno = ENOTCONN; return -1;}
    memcpy(sa, &o->peer, *len < o->peerlen ? *len : o->peerlen); *len = o->peerlen;
    return 0;
}

static int vk_ephemeral = 40000;
int vk_bind(int fd, const struct sockaddr *sa, socklen_t len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(vk_sysfail()) return -1;
    int i;
    if(sa->sa_family != o->family) {errno = EAFNOSUPPORT; return -1;}
    for(i = 0; i != VK_NFDS; ++i) {
        struct vkobj *p = vkp->fd[i];
        if(p && p != o && p->bound && p->addrlen == len && p->type == o->type &&
              !memcmp(&p->addr, sa, len)) {
            if(sa->sa_family == AF_INET && !((struct sockaddr_in*)sa)->sin_port) continue;
            errno = EADDRINUSE; return -1;}
    }
    memcpy(&o->addr, sa, len); o->addrlen = len; o->bound = 1;
    if(sa->sa_family == AF_INET && !((struct sockaddr_in*)sa)->sin_port)
        ((struct sockaddr_in*)&o->addr)->sin_port = htons(++vk_ephemeral);
    if(sa->sa_family == AF_INET6 && !((struct sockaddr_in6*)sa)->sin6_port)
        ((struct sockaddr_in6*)&o->addr)->sin6_port = htons(++vk_ephemeral);
    return 0;
}

int vk_listen(int fd, int backlog) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(vk_sysfail()) return -1;
    o->listening = 1;
    return 0;
}

int vk_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(!o->listening) {errno = EINVAL; return -1;}
    if(!o->nacc) {
        if(!o->nonblock) {fprintf(stderr, "vk: blocking accept\n"); abort();}
        errno = EAGAIN; return -1;}
    if(!o->accerr[0] && vk_sysfail()) return -1;
    struct vkobj *a = o->acc[0]; int err = o->accerr[0];
    o->nacc--;
    memmove(&o->acc[0], &o->acc[1], o->nacc * sizeof(o->acc[0]));
    memmove(&o->accerr[0], &o->accerr[1], o->nacc * sizeof(o->accerr[0]));
    if(err) {errno = err; return -1;}
    int n = vk_openobj(a, vkp->nextfd, 1);
    if(n < 0) {vk_unref(a); return -1;}
    a->nonblock = !!(flags & SOCK_NONBLOCK);
    if(sa && len) {
        memcpy(sa, &a->peer, *len < a->peerlen ? *len : a->peerlen); *len = a->peerlen;}
    return n;
}
int vk_accept(int fd, struct sockaddr *sa, socklen_t *len) {return vk_accept4(fd, sa, len, 0);}

int vk_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(o->kind != VK_STREAM) {memcpy(&o->peer, sa, len); o->peerlen = len;}
    if(o->kind == VK_DGRAM) {o->connected = 1; return 0;}
    if(o->kind == VK_STREAM && o->connecting == 1) {errno = EALREADY; return -1;}
    if(o->kind == VK_STREAM && o->soerr) {errno = o->soerr; o->soerr = 0; return -1;}
    if(o->kind == VK_STREAM && o->connected) {errno = EISCONN; return -1;}
    int rc = vkp->onconnect ? vkp->onconnect(fd, o, sa, len) : ECONNREFUSED;
    if(rc == 0) {o->connected = 1; o->kind = VK_STREAM; return 0;}
    if(rc == EINPROGRESS) {
        if(!o->nonblock) {fprintf(stderr, "vk: blocking connect\n"); abort();}
        o->connecting = 1; o->kind = VK_STREAM;}
    errno = rc; return -1;
}

int vk_shutdown(int fd, int how) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(o->txerr || o->rxerr == ECONNRESET || !o->connected) {errno = ENOTCONN; return -1;}
    if(how == SHUT_WR || how == SHUT_RDWR) o->txshut = 1;
    return 0;
}

int vk_close(int fd) {
    struct vkobj *o = vk_get(fd);
    if(!o) {vkp->closes++; return -1;}
    o->closed++;
    if(o->kind == VK_STREAM && o->refs == 1 + o->held && o->linger0) o->rst = 1;
    vk_closefd(fd);
    return 0;
}

int vk_dup(int fd) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    if(vk_sysfail()) return -1;
    int n = vk_openobj(o, vkp->nextfd, vkp->fdlib[fd]);
    if(n < 0) return -1;
    /* the library asked for it, so the library has to close it */
    vkp->fdlib[n] = 1;
    o->refs++;
    return n;
}

void vk_rx(struct vkobj *o, const void *data, size_t len) {
    struct vkseg *s = malloc(sizeof(struct vkseg) + len);
    memset(s, 0, sizeof(*s)); s->len = len;
    memcpy(s->data, data, len);
    if(o->rxh) o->rxt->next = s; else o->rxh = s;
    o->rxt = s;
}
void vk_rxdgram(struct vkobj *o, const void *data, size_t len,
      const struct sockaddr *sa, socklen_t salen) {
    vk_rx(o, data, len);
    memcpy(&o->rxt->sa, sa, salen); o->rxt->salen = salen;
}

ssize_t vk_sendmsg(int fd, const struct msghdr *m, int flags) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    size_t i, n = 0, total = 0;
    for(i = 0; i != m->msg_iovlen; ++i) total += m->msg_iov[i].iov_len;
    if(o->kind == VK_DGRAM) {
        if(o->txerr) {errno = o->txerr; return -1;}
        if(o->txwin == 0) {errno = EAGAIN; return -1;}
        if(total > 65507) {errno = EMSGSIZE; return -1;}
        if(!m->msg_name && !o->connected) {errno = EDESTADDRREQ; return -1;}
        struct vkseg *s = malloc(sizeof(struct vkseg) + total);
        memset(s, 0, sizeof(*s)); s->len = total;
        for(i = 0; i != m->msg_iovlen; ++i) {
            memcpy(s->data + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
            n += m->msg_iov[i].iov_len;}
        if(m->msg_name) {memcpy(&s->sa, m->msg_name, m->msg_namelen); s->salen = m->msg_namelen;}
        else {s->sa = o->peer; s->salen = o->peerlen;}
        /* outbound datagrams are queued on the accept slots' sibling: acc[0] */
        if(!o->acc[0]) {o->acc[0] = vk_mkobj(VK_DGRAM); o->nacc = 1;}
        struct vkobj *q = o->acc[0];
        if(q->rxh) q->rxt->next = s; else q->rxh = s;
        q->rxt = s;
        if(vkp->onsend) vkp->onsend(o);
        return total;
    }
    if(o->kind != VK_STREAM) {errno = ENOTCONN; return -1;}
    if(!o->connected) {errno = o->connecting == 1 ? EAGAIN : ENOTCONN; return -1;}
    if(o->txerr || o->txshut) {
        int e = o->txerr ? o->txerr : EPIPE;
        if(e == EPIPE && !(flags & MSG_NOSIGNAL)) {
            fprintf(stderr, "vk: SIGPIPE\n"); abort();}
        errno = e; return -1;
    }
    if(o->txwin == 0) {
        if(!o->nonblock) {fprintf(stderr, "vk: blocking send\n"); abort();}
        errno = EAGAIN; return -1;}
    size_t can = total;
    if(o->txwin > 0 && can > (size_t)o->txwin) can = o->txwin;
    if(o->txcall) {
        /* (not too many parts) */
        size_t c = o->txcall < total / 300 ? total / 300 : o->txcall;
        if(can > c) can = c;
    }
    if(!m->msg_iovlen) return 0;
    if(m->msg_control && m->msg_controllen) {
        struct cmsghdr *c = CMSG_FIRSTHDR(m);
        if(c && c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
            int k, nf = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
            for(k = 0; k != nf; ++k) {
                int f; memcpy(&f, CMSG_DATA(c) + k * sizeof(int), sizeof(int));
                struct vkobj *fo = vk_get(f);
                if(!fo) return -1;
                if(o->ntxfds == 16) {errno = ETOOMANYREFS; return -1;}
                o->txfds[o->ntxfds] = fo->id; o->txfdpos[o->ntxfds] = o->txlen;
                o->txfdo[o->ntxfds] = fo; fo->refs++;
                o->ntxfds++;
            }
        }
    }
    if(o->txlen + can > o->txcap) {
        o->txcap = (o->txlen + can) * 2 + 64;
        o->tx = realloc(o->tx, o->txcap);
    }
    for(i = 0; i != m->msg_iovlen && n < can; ++i) {
        size_t l = m->msg_iov[i].iov_len;
        if(l > can - n) l = can - n;
        memcpy(o->tx + o->txlen + n, m->msg_iov[i].iov_base, l);
        n += l;
    }
    o->txlen += n;
    if(o->txwin > 0) o->txwin -= n;
    if(vkp->onsend) vkp->onsend(o);
    return n;
}

ssize_t vk_recvmsg(int fd, struct msghdr *m, int flags) {
    struct vkobj *o = vk_get(fd);
    if(!o) return -1;
    m->msg_flags = 0;
    size_t i, total = 0, n = 0;
    size_t ctl = m->msg_controllen;
    m->msg_controllen = 0;
    for(i = 0; i != m->msg_iovlen; ++i) total += m->msg_iov[i].iov_len;
    if(o->kind == VK_STREAM && !o->connected && !o->rxh) {
        errno = o->connecting == 1 ? EAGAIN : ENOTCONN; return -1;}
    if(o->kind == VK_SOCK) {errno = ENOTCONN; return -1;}
    if(!o->rxh) {
        if(o->rxerr) {errno = o->rxerr; if(o->kind == VK_DGRAM) o->rxerr = 0; return -1;}
        if(o->kind != VK_DGRAM && o->rxeof) return 0;
        if(!o->nonblock) {fprintf(stderr, "vk: blocking receive\n"); abort();}
        errno = EAGAIN; return -1;
    }
    struct vkseg *s = o->rxh;
    for(i = 0; i != m->msg_iovlen; ++i) {
        size_t l = m->msg_iov[i].iov_len, have = s->len - s->pos;
        if(l > have) l = have;
        memcpy(m->msg_iov[i].iov_base, s->data + s->pos, l);
        s->pos += l; n += l;
        if(o->merge && s->pos == s->len && s->next && !s->nfd && !s->next->nfd) {
            /* go on with the next segment in the same buffer */
            struct iovec rest = {(char*)m->msg_iov[i].iov_base + l, m->msg_iov[i].iov_len - l};
            while(1) {
                if(s->pos == s->len) {
                    if(!s->next || s->next->nfd) break;
                    o->rxh = s->next; free(s); s = o->rxh;
                }
                if(!rest.iov_len) break;
                l = s->len - s->pos; if(l > rest.iov_len) l = rest.iov_len;
                memcpy(rest.iov_base, s->data + s->pos, l);
                s->pos += l; n += l;
                rest.iov_base = (char*)rest.iov_base + l; rest.iov_len -= l;
            }
        }
    }
    if(o->kind == VK_DGRAM) {
        if(n < s->len) m->msg_flags |= MSG_TRUNC;
        if(m->msg_name) {
            socklen_t l = s->salen;
            memcpy(m->msg_name, &s->sa, m->msg_namelen < l ? m->msg_namelen : l);
            m->msg_namelen = l;
        }
    }
    if(s->nfd && n) {
        if(m->msg_control && ctl >= CMSG_LEN(sizeof(int))) {
            struct cmsghdr *c = m->msg_control;
            c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS;
            int k, fit = (ctl - CMSG_LEN(0)) / sizeof(int);
            int put = 0;
            for(k = 0; k != s->nfd; ++k) {
                if(k < fit) {
                    int nf = vk_openobj(s->fdo[k], vkp->nextfd, 1);
                    memcpy(CMSG_DATA(c) + put * sizeof(int), &nf, sizeof(int));
                    ++put;
                }
                else {vk_unref(s->fdo[k]); m->msg_flags |= MSG_CTRUNC;}
            }
            c->cmsg_len = CMSG_LEN(put * sizeof(int));
            m->msg_controllen = CMSG_SPACE(put * sizeof(int)) <= ctl ?
                CMSG_SPACE(put * sizeof(int)) : c->cmsg_len;
        }
        else {
            int k; for(k = 0; k != s->nfd; ++k) vk_unref(s->fdo[k]);
            m->msg_flags |= MSG_CTRUNC;
        }
        s->nfd = 0;
    }
    if(s->pos == s->len || o->kind == VK_DGRAM) {
        o->rxh = s->next; if(!o->rxh) o->rxt = NULL;
        int k; for(k = 0; k != s->nfd; ++k) vk_unref(s->fdo[k]);
        free(s);
    }
    return n;
}

ssize_t vk_recv(int fd, void *buf, size_t len, int flags) {
    struct iovec iov = {buf, len};
    struct msghdr m; memset(&m, 0, sizeof(m));
    m.msg_iov = &iov; m.msg_iovlen = 1;
    return vk_recvmsg(fd, &m, flags);
}
ssize_t vk_send(int fd, const void *buf, size_t len, int flags) {
    struct iovec iov = {(void*)buf, len};
    struct msghdr m; memset(&m, 0, sizeof(m));
    m.msg_iov = &iov; m.msg_iovlen = 1;
    return vk_sendmsg(fd, &m, flags);
}
ssize_t vk_recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl) {
    struct iovec iov = {buf, len};
    struct msghdr m; memset(&m, 0, sizeof(m));
    m.msg_iov = &iov; m.msg_iovlen = 1;
    if(sa) {m.msg_name = sa; m.msg_namelen = *sl;}
    ssize_t rc = vk_recvmsg(fd, &m, flags);
    if(sa && rc >= 0) *sl = m.msg_namelen;
    return rc;
}
ssize_t vk_sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *sa, socklen_t sl) {
    struct iovec iov = {(void*)buf, len};
    struct msghdr m; memset(&m, 0, sizeof(m));
    m.msg_iov = &iov; m.msg_iovlen = 1;
    if(sa) {m.msg_name = (void*)sa; m.msg_namelen = sl;}
    return vk_sendmsg(fd, &m, flags);
}

/* /dev/urandom */
static uint64_t rnd = 88172645463325252ULL;
int vk_open_(const char *path, int flags, ...) {
    if(!strcmp(path, "/dev/urandom")) return VKRAND;
    errno = ENOENT; return -1;
}
ssize_t vk_read(int fd, void *buf, size_t len) {
    if(fd == VKRAND) {
        size_t i;
        for(i = 0; i != len; ++i) {
            rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
            ((unsigned char*)buf)[i] = rnd >> 24;
        }
        return len;
    }
    return vk_recv(fd, buf, len, 0);
}
ssize_t vk_write(int fd, const void *buf, size_t len) {return vk_send(fd, buf, len, 0);}
int vk_unlink(const char *path) {return 0;}
/* the same calls under their large-file names */
int vk_getrlimit64(int res, struct rlimit *rl) {return vk_getrlimit(res, rl);}
int vk_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return vk_fcntl(fd, cmd, arg);
}
int vk_open64_(const char *path, int flags, ...) {return vk_open_(path, flags);}
/* and others that do the same */
ssize_t vk_readv(int fd, const struct iovec *v, int n) {
    struct msghdr m = {0};
    m.msg_iov = (void*)v; m.msg_iovlen = n;
    return vk_recvmsg(fd, &m, 0);
}
ssize_t vk_writev(int fd, const struct iovec *v, int n) {
    struct msghdr m = {0};
    m.msg_iov = (void*)v; m.msg_iovlen = n;
    return vk_sendmsg(fd, &m, 0);
}
static int inms(const struct timespec *t) {return t ? t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000 : -1;}
int vk_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *t, const void *mask) {return vk_poll(fds, n, inms(t));}
int vk_epoll_pwait(int efd, struct epoll_event *evs, int n, int timeout, const void *mask) {return vk_epoll_wait(efd, evs, n, timeout);}
int vk_epoll_pwait2(int efd, struct epoll_event *evs, int n, const struct timespec *t, const void *mask) {return vk_epoll_wait(efd, evs, n, inms(t));}

/* the files, the clock and the name of the host, for the name lookups */
FILE *vk_fopen(const char *path, const char *mode) {
    FILE *f = vkp->onfopen ? vkp->onfopen(path) : NULL;
    if(f) vkp->nfiles++;
    return f;
}
int vk_fclose(FILE *f) {vkp->nfiles--; return fclose(f);}
time_t vk_time(time_t *t) {
    time_t r = vkp->clk / 1000;
    if(t) *t = r;
    return r;
}
int vk_gethostname(char *b, size_t n) {
    const char *h = vkp->hostname ? vkp->hostname : "host";
    strncpy(b, h, n);
    return 0;
}
