/* Core driver: runs programs of coroutines, channels, bundles, handles, timers
   and descriptors against the real library on the virtual kernel, and records
   every call, return, switch, poll and environment step as one event.
   Programs are random (weighted by "mix") or scripts derived from behaviours
   of the TLA+ specification. */
#define _GNU_SOURCE
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "libdill.h"
#include "libdillimpl.h"
#undef CHSEND
#undef CHRECV

extern const void *dill_bundle_type;
extern const void *dill_halfchan_type;

#if defined DILL_POLL
#define BACKEND "poll"
#else
#define BACKEND "epoll"
#endif

enum { GO, GOB, BUNDLE, BWAIT, YIELD, MSLEEP, NOW, CHMAKE, CHSEND, CHRECV,
    CHOOSE, CHDONE, FDIN, FDOUT, FDCLEAN, FDSET, FDREOPEN, HCLOSE, HOWN, HQUERY,
    HMAKE, WORK, END, NOPS };
static const char *opname[NOPS] = { "go", "gob", "bundle", "bwait", "yield",
    "msleep", "now", "chmake", "chsend", "chrecv", "choose", "chdone", "fdin",
    "fdout", "fdclean", "fdset", "fdreopen", "hclose", "hown", "hq", "hmake",
    "work", "end" };

struct mix {
    const char *name;
    int w[NOPS];
    int maxcr;       /* coroutines alive at once */
    int budget;      /* calls in one scenario */
    int nfd;         /* descriptors */
    int chans;       /* channels to aim at */
    int inj;         /* percentage of calls with a refused allocation */
    int mem;         /* percentage of user-supplied memory */
    int bad;         /* percentage of unsuitable handles */
    int inf;         /* percentage of infinite deadlines */
    int setup;       /* special set-ups */
    int longwork;    /* percentage of WORK that lasts > 1 s */
};
/*                 go gob bun bwt yld slp now chm snd rcv cho cdn fin fou fcl fst fro hcl hwn hqu hmk wrk end */
static struct mix mixes[] = {
 {"sched",       { 8, 10,  2,  3, 14, 10,  2,  1,  6,  6,  2,  0,  2,  1,  0,  3,  0,  4,  0,  0,  0,  6, 10}, 14, 90, 3, 2, 0,10, 2, 6, 0, 2},
 {"block",       { 4,  8,  1,  4,  3,  8,  1,  1, 10, 10,  6,  1,  8,  5,  2,  8,  1,  4,  0,  0,  0,  6,  5}, 10, 90, 4, 2, 0,10, 2, 6, 0, 0},
 {"time",        { 4,  8,  1,  4,  3, 20,  6,  1,  6,  6,  3,  0,  5,  3,  0,  4,  0,  3,  0,  0,  0, 14,  5}, 14, 90, 3, 2, 0,10, 1, 8, 0, 4},
 {"close",       { 8, 14,  4,  3,  6,  5,  0,  1,  4,  4,  2,  0,  3,  2,  0,  2,  0, 14,  1,  0,  2,  2,  4}, 14,100, 3, 2, 0,10, 1,12, 0, 0},
 {"cancel",      { 7, 10,  3,  4,  5,  4,  2,  2,  5,  5,  3,  2,  3,  2,  1,  2,  0, 12,  3,  2,  6,  2,  3}, 10,100, 3, 2, 0,10, 2,14, 0, 0},
 {"bwait",       { 5, 14,  4, 16,  5,  6,  0,  0,  3,  3,  0,  0,  1,  0,  0,  1,  0,  7,  1,  0,  0,  4,  9}, 14,100, 2, 1, 0,10, 2,12, 0, 0},
 {"chan",        { 4,  9,  1,  1,  3,  3,  0,  2, 20, 20,  4,  1,  0,  0,  0,  0,  0,  3,  1,  0,  0,  3,  3}, 10,110, 0, 2, 0,10, 2, 6, 0, 0},
 {"chdone",      { 4,  9,  1,  1,  3,  3,  0,  6, 14, 14,  4, 10,  0,  0,  0,  0,  0, 14,  3,  0,  0,  2,  3}, 10,110, 0, 3, 0,25, 3,14, 0, 0},
 {"choose",      { 4,  9,  1,  1,  3,  3,  0,  2,  9,  9, 20,  3,  0,  0,  0,  0,  0,  4,  1,  0,  0,  3,  3}, 10,110, 0, 3, 0,10, 3,10, 0, 0},
 {"handle",      { 0,  0,  8,  3,  0,  0,  0,  8,  3,  3,  2,  3,  0,  0,  0,  0,  0, 26, 14, 10, 10,  0,  0},  1,400, 0, 3, 0,20,14, 0, 1, 0},
 {"fd",          { 4,  9,  1,  0,  4,  4,  0,  0,  1,  1,  0,  0, 22, 18,  8, 16,  5,  4,  0,  0,  0,  5,  3}, 12,130, 5, 1, 0, 0, 1, 6, 0, 0},
 {"fdmany",      { 4,  9,  1,  0,  4,  4,  0,  0,  0,  0,  0,  0, 22, 18,  4, 16,  2,  2,  0,  0,  0,  4,  0},320,700,300, 0, 0, 0, 0,10, 2, 0},
 {"busy",        { 4,  9,  0,  1, 30,  7,  1,  1,  3,  3,  0,  0,  7,  3,  0,  8,  0,  2,  0,  0,  0, 24,  2},  8,150, 3, 1, 0, 0, 0, 6, 3,12},
 {"stack",       { 6, 18,  3,  2,  8,  4,  0,  2,  6,  6,  3,  1,  2,  1,  0,  1,  0,  5,  0,  0,  1,  1, 12},150,500, 2, 3, 0,50, 1, 8, 0, 0},
 {"cache",       { 2, 10,  1,  1,  2, 12,  0,  0,  0, 12,  2,  0,  0,  0,  0,  0,  0,  1,  0,  0,  0,  1,  1},150,700, 2, 1, 0, 2, 0, 4, 0, 0},
 {"thread",      { 6, 10,  2,  3,  6,  6,  3,  2,  7,  7,  4,  1,  5,  4,  2,  5,  1,  6,  1,  1,  1,  4,  6}, 12,120, 4, 2, 0,10, 2, 0, 0, 2},
 {"release",     { 6, 10,  4,  3,  4,  4,  0,  4,  6,  6,  4,  2,  4,  3,  2,  4,  1, 10,  2,  1,  3,  3,  6}, 14,120, 4, 3,25,15, 2, 6, 0, 2},
 {"grow",        { 1,  3,  5,  1,  1,  1,  0, 12,  2,  2,  1,  2,  0,  0,  0,  0,  0, 14,  5,  1,  8,  0,  3},  6, 36, 0, 2,60,30, 2, 4, 0, 0},
 {"all",         { 6, 10,  3,  3,  6,  6,  1,  3,  7,  7,  4,  2,  5,  4,  2,  5,  1,  7,  2,  1,  2,  4,  5}, 12,120, 4, 3, 3,15, 4, 8, 0, 3},
 {"script",      { 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0}, 99,  0, 3, 0, 0, 0, 0, 0, 4, 0},
 {NULL}
};

#define MAXH 3000
#define MAXCR 1200
#define MAXOB 3000
#define MAXBUF 3000

struct hent { int h, kind, oid, end, st; };  /* st: 0 open, 1 being closed, 2 closed */
struct crinf { int used, bun, alive, started; long k[6]; void *mem; size_t memsz; };
struct bunf { int closer; int state; void *mem; size_t memsz; int open; };
struct chinf { void *mem; int closed; };
struct rbuf { unsigned char *p; size_t n; };

struct custom { struct hvfs vfs; int oid; struct drv *d; };

struct drv {
    uint64_t rng;
    struct mix *m;
    char *log; size_t loglen, logcap;
    int logfd;
    int budget, callseed;
    struct hent H[MAXH]; int nh;
    struct crinf C[MAXCR]; int ncr; int live;
    struct bunf B[MAXOB];
    struct chinf CH[MAXOB];
    int noid;
    int vals;
    int fds[320]; int nfd; int waitin[VK_NFDS], waitout[VK_NFDS];
    int unbound;
    int cleanup;
    struct rbuf R[MAXBUF]; int nr;
    struct rbuf P[MAXBUF]; int np;  /* poisoned user memory */
    int bad; char why[80];
    int polls;
    int rep;
    int noinfmain;
    int depth;
    char **script; int nscript, iscript;
    int quiet;
    pthread_mutex_t *baton; int me; struct duo *duo;
};
struct duo { pthread_mutex_t mx; pthread_cond_t cv; int turn; int done[2]; uint64_t rng; };

static __thread struct drv *D;

/******************************************************************************/
/*  Log                                                                       */
/******************************************************************************/

static void duo_switch(void) {
    struct duo *u = D->duo;
    if(!u) return;
    pthread_mutex_lock(&u->mx);
    u->rng = u->rng * 6364136223846793005ULL + 1442695040888963407ULL;
    if(!u->done[1 - D->me] && (u->rng >> 60) < 5) {
        u->turn = 1 - D->me;
        pthread_cond_broadcast(&u->cv);
        while(u->turn != D->me) pthread_cond_wait(&u->cv, &u->mx);
    }
    pthread_mutex_unlock(&u->mx);
}

static void L(const char *fmt, ...) {
    va_list ap;
    if(D->quiet) return;
    if(D->loglen + 70000 > D->logcap) {
        D->logcap = D->logcap * 2 + 200000;
        D->log = realloc(D->log, D->logcap);
    }
    va_start(ap, fmt);
    D->loglen += vsnprintf(D->log + D->loglen, 65000, fmt, ap);
    va_end(ap);
    D->log[D->loglen++] = '\n';
    if(D->duo) duo_switch();
}

static void flush(void) {
    size_t off = 0;
    while(off < D->loglen) {
        ssize_t n = syscall(SYS_write, D->logfd, D->log + off, D->loglen - off);
        if(n <= 0) break;
        off += n;
    }
    D->loglen = 0;
}

static void die(const char *why) {
    if(D) {
        D->duo = NULL; D->quiet = 0;
        L("{\"e\":\"X\",\"why\":\"%s\"}", why);
        flush();
    }
    _exit(1);
}

static void onsig(int sig) {
    static volatile int again;
    if(again++) _exit(1);
    die(sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : "signal");
}

/******************************************************************************/
/*  Choice                                                                    */
/******************************************************************************/

static unsigned R32(void) {
    D->rng ^= D->rng << 13; D->rng ^= D->rng >> 7; D->rng ^= D->rng << 17;
    return (unsigned)((D->rng * 0x2545F4914F6CDD1DULL) >> 32);
}
static int R(int n) {return n <= 0 ? 0 : (int)(R32() % (unsigned)n);}
static int P(int pct) {return R(100) < pct;}

static const char *en(int e) {
    static __thread char b[32];
    switch(e) {
    case 0: return "0"; case EPIPE: return "EPIPE"; case ETIMEDOUT: return "ETIMEDOUT";
    case ECANCELED: return "ECANCELED"; case EBADF: return "EBADF"; case ENOTSUP: return "ENOTSUP";
    case EMSGSIZE: return "EMSGSIZE"; case EINVAL: return "EINVAL"; case ENOMEM: return "ENOMEM";
    case EBUSY: return "EBUSY"; case EDOM: return "unset"; case EMFILE: return "EMFILE";
    case ENOENT: return "ENOENT"; case EEXIST: return "EEXIST"; case EPERM: return "EPERM";
    }
    sprintf(b, "E%d", e); return b;
}

#define FAR 1000000000LL
static long long CL(int64_t d) {return d < 0 ? -1 : d > FAR ? FAR : (long long)d;}

static int64_t deadline(int self) {
    int inf = D->m->inf;
    int64_t n = vkp->clk;
    if(self == 0) inf = D->noinfmain ? 0 : inf / 3;
    int r = R(100);
    if(r < inf) return -1;
    r = R(100);
    if(r < 10) return 0;
    if(r < 15) return n - 1 - R(5);
    if(r < 25) return n;
    if(r < 80) return n + 1 + R(12);
    if(r < 88) return n + 10 * (1 + R(4));
    if(r < 93) return n + 900 + R(300);
    if(self == 0 && D->noinfmain) return n + R(20);
    if(self == 0 && P(70)) return n + R(20);
    if(r < 95) return n + 2147483647LL - R(3);
    if(r < 97) return n + 2147483648LL + R(5);
    if(r < 98) return n + 4294967296LL + R(20);
    if(r < 99) return INT64_MAX;
    return n + 5000 + R(3000);
}

/******************************************************************************/
/*  Environment                                                               */
/******************************************************************************/

static void advance(int64_t ms) {
    if(ms <= 0) return;
    vkp->clk += ms;
    if(R(20) == 0) vkp->tsc -= 1000000000000LL + R(1000000) * 1000LL; else vkp->tsc += ms * 3000000;
    L("{\"e\":\"t\",\"d\":%lld}", (long long)ms);
}

static void setfd(int fd, int in, int out, int err) {
    struct vkobj *o = vkp->fd[fd];
    if(!o || o->kind != VK_READY) return;
    o->in = in; o->out = out; o->err = err;
    L("{\"e\":\"v\",\"f\":%d,\"i\":%d,\"u\":%d,\"x\":%d}", fd, in, out, err ? 1 : 0);
}

static int waited(int *fdp) {
    int i, n = 0, pick = -1;
    for(i = 0; i != D->nfd; ++i) {
        int f = D->fds[i];
        if(f < 0) continue;
        if(D->waitin[f] || D->waitout[f]) {++n; if(R(n) == 0) pick = f;}
    }
    *fdp = pick;
    return n;
}

static int envstep(void) {
    int f;
    if(!waited(&f)) return 0;
    struct vkobj *o = vkp->fd[f];
    if(!o || o->kind != VK_READY) return 0;
    int r = R(100);
    if(r < 8) setfd(f, o->in, o->out, 1 + R(3));
    else if(r < 80) setfd(f, D->waitin[f] ? 1 : o->in, D->waitout[f] ? 1 : o->out, o->err);
    else setfd(f, R(2), R(2), o->err);
    if(D->m->setup == 2 && P(60)) {
        /* very many at once */
        int i;
        for(i = 0; i != D->nfd; ++i) {
            f = D->fds[i];
            if((D->waitin[f] || D->waitout[f]) && vkp->fd[f]->kind == VK_READY)
                setfd(f, D->waitin[f], D->waitout[f], 0);
        }
    }
    return 1;
}

static void finish_stuck(void) {
    L("{\"e\":\"S\"}");
    flush();
    _exit(0);
}

static int hook(int to) {
    if(D->duo) duo_switch();
    L("{\"e\":\"p\",\"to\":%lld}", (long long)(to < 0 ? -1 : to > 900000000 ? 900000000 : to));
    if(++D->polls > 3000) die("polls without end");
    if(D->script && D->iscript < D->nscript && D->script[D->iscript][0] == '@') {
        /* the behaviour of the specification says what happens */
        int intr = 0, a, b, c, d;
        while(D->iscript < D->nscript && D->script[D->iscript][0] == '@') {
            const char *l = D->script[D->iscript++];
            if(l[1] == 'i') {intr = 1; break;}
            if(l[1] == 't') advance(atoi(l + 3));
            if(l[1] == 'f' && sscanf(l + 3, "%d %d %d %d", &a, &b, &c, &d) == 4)
                setfd(D->fds[a], b, c, d);
            if(l[1] == '.') break;
        }
        if(intr) return -1;
        if(to >= 0 || vk_pending()) return 0;
    }
    if(P(3)) {
        if(to != 0 && P(50)) advance(to > 0 ? R(to < 50 ? to : 50) : R(20));
        return -1;
    }
    if(to == 0) return 0;
    if(to > 0 && to < 1000000 && P(6)) {
        /* descriptor and deadline at the same moment */
        advance(to + (P(30) ? R(3) : 0)); envstep(); return 0;
    }
    int i;
    for(i = 0; i != 40; ++i) {
        if(vk_pending()) {
            if(P(10)) advance(1 + R(to > 0 && to < 10 ? to : 10));
            return 0;
        }
        int r = R(100);
        int f, w = waited(&f);
        if(w && r < 50) {
            if(P(70)) advance(to > 0 ? R(to < 30 ? to : 30) : R(20));
            /* time has passed in the call: only the rest of the timeout is left */
            envstep();
            if(vk_pending()) return 0;
            if(to > 0) {advance(P(10) ? 1 + R(3) : 0); return 0;}
            continue;
        }
        if(to > 0) {
            int64_t lim = to;
            if(lim > 100000) {
                /* far away: something else has to happen, or nothing ever does */
                if(w && envstep() && vk_pending()) return 0;
                if(r < 80) {advance(lim > 3000 ? 3000 : lim); return -1;}
                if(D->polls > 200) finish_stuck();
                continue;
            }
            if(r < 60) {advance(lim - 1); return 0;}
            if(r < 70) {advance(lim + 1 + R(40)); return 0;}
            if(r < 75) {advance(lim + 900 + R(400)); return 0;}
            advance(lim);
            return 0;
        }
        if(!w) finish_stuck();
        envstep();
    }
    if(to > 100000) {advance(3000); return -1;}
    if(to > 0) advance(to);
    else if(!vk_pending()) {
        struct drv *d = D;
        for(i = 0; i != d->nfd; ++i) {
            int f = d->fds[i];
            if(f >= 0 && (d->waitin[f] || d->waitout[f]) && vkp->fd[f] && vkp->fd[f]->kind == VK_READY)
                setfd(f, 1, 1, 0);
        }
        if(!vk_pending()) die("poll without end although a descriptor is ready");
    }
    return 0;
}

static void after(int n, int trunc, struct epoll_event *evs) {
    if(!trunc) {L("{\"e\":\"q\",\"n\":%d,\"tr\":0,\"l\":[]}", n); return;}
    char b[8192]; int l = 0, i;
    for(i = 0; i != n; ++i)
        l += sprintf(b + l, "%s[%d,%d]", i ? "," : "", evs[i].data.fd,
            (evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP) ? 1 : 0) +
            (evs[i].events & (EPOLLOUT | EPOLLERR | EPOLLHUP) ? 2 : 0));
    L("{\"e\":\"q\",\"n\":%d,\"tr\":1,\"l\":[%s]}", n, b);
}

/******************************************************************************/
/*  Tables                                                                    */
/******************************************************************************/

static int hadd(int h, int kind, int oid, int end) {
    if(D->nh == MAXH) die("driver: table full");
    struct hent *e = &D->H[D->nh++];
    e->h = h; e->kind = kind; e->oid = oid; e->end = end; e->st = 0;
    return D->nh - 1;
}
/* the entry that number h means now */
static int hfind(int h) {
    int i;
    for(i = D->nh - 1; i >= 0; --i) if(D->H[i].h == h && D->H[i].st < 2) return i;
    return -1;
}
static int hpick(int kind) {   /* a random not yet closed handle of a kind */
    int i, n = 0, p = -1;
    for(i = 0; i != D->nh; ++i) {
        struct hent *e = &D->H[i];
        if(e->st == 2 || (kind && e->kind != kind)) continue;
        /* prefer recent ones */
        ++n; if(R(n) == 0 || (n > 2 && R(3) == 0)) p = i;
    }
    return p;
}
static int badhandle(void) {
    int r = R(10);
    if(r < 1) return -1;
    if(r < 2) return 100000 + R(100);
    if(r < 3) return R(2) ? -2147483647 - 1 : 2147483647;
    if(D->unbound) return -1 - R(5);
    if(r < 7 && D->nh) {
        struct hent *e = &D->H[R(D->nh)];
        return e->h;
    }
    int i = hpick(0);
    return i < 0 ? -1 : D->H[i].h;
}
static int hget(int kind) {
    if(P(D->m->bad)) return badhandle();
    int i = hpick(kind);
    if(i < 0) return badhandle();
    return D->H[i].h;
}

static int mayclose(int self, int i) {
    struct hent *e = &D->H[i];
    if(e->st != 0) return 0;
    if(e->kind != 'b') return 1;
    /* closing a bundle one is (indirectly) part of is a documented misuse */
    int x = self, n = 0;
    while(x > 0 && n++ < MAXCR) {
        int b = D->C[x].bun;
        if(b == e->oid) return 0;
        if(b < 0 || D->B[b].closer < 0) break;
        x = D->B[b].closer;
    }
    return 1;
}

static void fill(unsigned char *p, size_t n, int val) {
    size_t i;
    for(i = 0; i != n; ++i)
        p[i] = i < 3 ? (val >> (8 * i)) & 0xff : (unsigned char)(val * 31 + i * 7);
}
static int decode(unsigned char *p, size_t n) {
    int v = 0; size_t i;
    for(i = 0; i != n && i != 3; ++i) v |= p[i] << (8 * i);
    for(i = 3; i < n; ++i) if(p[i] != (unsigned char)(v * 31 + i * 7)) return -2;
    return v;
}
static int newval(size_t n) {
    int v = ++D->vals;
    if(n == 0) return 0;
    if(n == 1) return v & 0xff;
    if(n == 2) return v & 0xffff;
    return v & 0xffffff;
}
static unsigned char *newbuf(size_t n) {
    unsigned char *p = malloc(n + 1); memset(p, 0xee, n + 1);
    if(D->nr == MAXBUF) return p;
    D->R[D->nr].p = p; D->R[D->nr].n = 0; ++D->nr;
    return p;
}
static int untouched(unsigned char *p, size_t n) {
    size_t i; for(i = 0; i != n; ++i) if(p[i] != 0xee) return 0;
    return 1;
}
/* a failed receive's buffer must stay untouched until the end */
static void watch(unsigned char *p, size_t n) {
    int i; for(i = D->nr - 1; i >= 0; --i) if(D->R[i].p == p) {D->R[i].n = n; return;}
}
static void oops(const char *w) {if(!D->bad) strcpy(D->why, w); D->bad++;}

/* user-supplied memory with red zones */
#define RZ 64
static void *umem(size_t n, int skew) {
    unsigned char *p = malloc(n + 2 * RZ + 16);
    memset(p, 0x77, n + 2 * RZ + 16);
    return p + RZ + skew;
}
static void checkrz(void *q, size_t n, const char *w) {
    unsigned char *p = q; int i;
    for(i = 1; i <= RZ; ++i) if(p[-i] != 0x77) {oops(w); return;}
    for(i = 0; i != RZ - 16; ++i) if(p[n + i] != 0x77) {oops(w); return;}
}
static void retire(void *q, size_t n, const char *w) {
    checkrz(q, n, w);
    memset(q, 0xcc, n);
    if(D->np < MAXBUF) {D->P[D->np].p = q; D->P[D->np].n = n; ++D->np;}
}

static size_t picklen(void) {
    static const size_t ls[] = {4, 4, 4, 4, 4, 4, 8, 0, 1, 100, 300};
    return ls[R(11)];
}

/******************************************************************************/
/*  Operations                                                                */
/******************************************************************************/

struct op {
    int t;
    int h, kind, len, nval, fd, in, out, err, mem, inj, skew;
    int64_t d;
    int n; int ch[16], cop[16], clen[16];
    int ms;
};

static void run_op(int self, struct op *o);
static void steps(int self, int n);

/* values that have to survive a switch in registers or on the stack */
#define CANARY(self) \
    long k0 = D->C[self].k[0], k1 = D->C[self].k[1], k2 = D->C[self].k[2],\
         k3 = D->C[self].k[3], k4 = D->C[self].k[4], k5 = D->C[self].k[5];\
    __asm__ volatile("" : "+r"(k0), "+r"(k1), "+r"(k2), "+r"(k3), "+r"(k4), "+r"(k5));
#define CHECK(self) \
    __asm__ volatile("" : "+r"(k0), "+r"(k1), "+r"(k2), "+r"(k3), "+r"(k4), "+r"(k5));\
    struct drv *d__ = D; \
    int kk = k0 != d__->C[self].k[0] || k1 != d__->C[self].k[1] || k2 != d__->C[self].k[2] ||\
        k3 != d__->C[self].k[3] || k4 != d__->C[self].k[4] || k5 != d__->C[self].k[5];

/* f(arg), with known values in the registers a function has to preserve: k[6]
   tells afterwards whether they are still the same. */
#if defined __x86_64__
int drv_regs(int (*f)(long), long arg, long *k);
__asm__(
    ".text\n.type drv_regs,@function\ndrv_regs:\n"
    "push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
    "mov (%rdx),%rbx\nmov 8(%rdx),%rbp\nmov 16(%rdx),%r12\n"
    "mov 24(%rdx),%r13\nmov 32(%rdx),%r14\nmov 40(%rdx),%r15\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\ncall *%rax\n"
    "pop %rdx\nmovq $1,48(%rdx)\n"
    "cmp (%rdx),%rbx\njne 1f\ncmp 8(%rdx),%rbp\njne 1f\ncmp 16(%rdx),%r12\njne 1f\n"
    "cmp 24(%rdx),%r13\njne 1f\ncmp 32(%rdx),%r14\njne 1f\ncmp 40(%rdx),%r15\njne 1f\n"
    "movq $0,48(%rdx)\n1:\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");
#else
static int drv_regs(int (*f)(long), long arg, long *k) {k[6] = 0; return f(arg);}
#endif
static int regcall(int self, int (*f)(long), long arg, int *kk) {
    long k[7] = {0};
    memcpy(k, D->C[self].k, 6 * sizeof(long));
    int r = drv_regs(f, arg, k), e = errno;
    *kk |= k[6] || memcmp(k, D->C[self].k, 6 * sizeof(long));
    errno = e;
    return r;
}
static int callyield(long a) {return yield();}
static int callsleep(long d) {return msleep(d);}

static coroutine void body(int id);
struct goarg {int id, bun, h; void *mem; size_t sz;};
static int callgo(long x) {
    struct goarg *a = (struct goarg*)x;
    if(a->bun) {
        if(a->mem) return bundle_go_mem(a->h, body(a->id), a->mem, a->sz);
        return bundle_go(a->h, body(a->id));
    }
    if(a->mem) return go_mem(body(a->id), a->mem, a->sz);
    return go(body(a->id));
}

/* Arranges for the n-th request for memory to fail. Calls nest (callbacks and
   other coroutines run within hclose and hown): every call has its own flag. */
static __thread int *tpslot;
static void inject(int *slot, int n) {
    if(tpslot) *tpslot |= vkp->tripped;
    *slot = 0;
    tpslot = slot; vkp->tripped = 0; vkp->countdown = n;
}
static int tripped(int *slot) {
    if(tpslot == slot) {*slot |= vkp->tripped; tpslot = NULL; vkp->tripped = 0;}
    vkp->countdown = 0;
    return *slot;
}

static void ret(int self, int op, int r, int e, int v, int k, int tp) {
    L("{\"e\":\"r\",\"c\":%d,\"o\":\"%s\",\"r\":%d,\"x\":\"%s\",\"v\":%d,\"k\":%d,\"tp\":%d}",
        self, opname[op], r, en(e), v, k, tp);
}

static void do_go(int self, struct op *o) {
    int id = D->ncr++;
    struct crinf *c = &D->C[id];
    int i, q = -1;
    memset(c, 0, sizeof(*c));
    for(i = 0; i != 6; ++i) c->k[i] = ((long)R32() << 32) ^ R32();
    int kind_of_mem = 0;
    size_t sz = 0; void *mem = NULL;
    if(o->mem == 1) {sz = 49152 + R(64) + (P(10) ? R(60000) : 0); mem = umem(sz, o->skew); kind_of_mem = 1;}
    if(o->mem == 2) {sz = o->t == GO ? R(260) : R(180); mem = umem(sz, 0); kind_of_mem = 2;}
    if(o->t == GO) q = D->noid++;
    c->used = 1; c->alive = 1; c->mem = mem; c->memsz = sz;
    int hi = -1;
    if(o->t == GO) {c->bun = q; D->B[q].closer = -1; D->B[q].open = 1; ++D->unbound;}
    else {hi = hfind(o->h); c->bun = hi >= 0 && D->H[hi].kind == 'b' ? D->H[hi].oid : -1;}
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"%s\",\"h\":%d,\"n\":%d,\"q\":%d,\"m\":%d,\"ij\":%d}", self,
        opname[o->t], o->t == GO ? -1 : o->h, id, q, kind_of_mem, o->inj ? 1 : 0);
    int tpi; inject(&tpi, o->inj);
    ++D->live;
    CANARY(self)
    errno = EDOM;
    int r;
    struct goarg ga = {id, o->t != GO, o->h, mem, sz};
    int rr = 0;
    r = regcall(self, callgo, (long)&ga, &rr);
    int e = errno;
    CHECK(self)
    kk |= rr;
    int tp = tripped(&tpi);
    if(o->t == GO) --D->unbound;
    if(r < 0) {
        D->C[id].alive = 0; --D->live;
        if(mem) {retire(mem, sz, "memory of a failed go"); D->C[id].mem = NULL;}
        if(o->t == GO) D->B[q].open = 0;
    }
    else if(o->t == GO) hadd(r, 'b', q, 0);
    ret(self, o->t, r, r < 0 ? e : 0, -1, kk, tp);
}

static void do_bundle(int self, struct op *o) {
    int q = D->noid++;
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"bundle\",\"q\":%d,\"ij\":%d}", self, q, o->inj ? 1 : 0);
    void *mem = NULL;
    D->B[q].closer = -1;
    int tpi; inject(&tpi, o->inj);
    errno = EDOM;
    int r;
    if(o->mem) {mem = umem(sizeof(struct bundle_storage), 8 * R(2)); r = bundle_mem(mem);}
    else r = bundle();
    int e = errno;
    int tp = tripped(&tpi);
    if(r >= 0) {hadd(r, 'b', q, 0); D->B[q].mem = mem; D->B[q].open = 1;}
    ret(self, BUNDLE, r, r < 0 ? e : 0, -1, 0, tp);
}

static void do_chmake(int self, struct op *o) {
    int q = D->noid++;
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"chmake\",\"q\":%d,\"ij\":%d}", self, q, o->inj ? 1 : 0);
    void *mem = NULL;
    int chv[2] = {-7, -7};
    int tpi; inject(&tpi, o->inj);
    errno = EDOM;
    int r;
    if(o->mem) {mem = umem(sizeof(struct chstorage), 8 * R(2)); r = chmake_mem(mem, chv);}
    else r = chmake(chv);
    int e = errno;
    int tp = tripped(&tpi);
    if(r >= 0) {
        hadd(chv[0], 'c', q, 0); hadd(chv[1], 'c', q, 1);
        D->CH[q].mem = mem; D->CH[q].closed = 0;
    }
    L("{\"e\":\"r\",\"c\":%d,\"o\":\"chmake\",\"r\":%d,\"x\":\"%s\",\"v\":-1,\"k\":0,\"tp\":%d,\"h0\":%d,\"h1\":%d}",
        self, r, en(r < 0 ? e : 0), tp, chv[0], chv[1]);
}

static void do_chan(int self, struct op *o) {
    int snd = o->t == CHSEND;
    int v = snd ? newval(o->len) : -1;
    unsigned char *buf = newbuf(o->len);
    if(snd) fill(buf, o->len, v);
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"%s\",\"h\":%d,\"n\":%d,\"v\":%d,\"d\":%lld}", self,
        opname[o->t], o->h, o->len, v, CL(o->d));
    CANARY(self)
    errno = EDOM;
    int r = snd ? chsend(o->h, buf, o->len, o->d) : chrecv(o->h, buf, o->len, o->d);
    int e = errno;
    CHECK(self)
    if(!snd) {
        if(r == 0) {v = decode(buf, o->len); if(buf[o->len] != 0xee) kk = 1;}
        else {
            v = -1;
            if(!untouched(buf, o->len + 1)) kk = 1;
            watch(buf, o->len + 1);
        }
    }
    else {
        if(decode(buf, o->len) != v) kk = 1;
        v = -1;
        /* the sender's buffer must not be looked at any more */
        memset(buf, 0x11, o->len);
    }
    ret(self, o->t, r, r < 0 ? e : 0, v, kk, 0);
}

static void do_choose(int self, struct op *o) {
    struct chclause cl[16];
    unsigned char *b[16];
    int i, l = 0, vals[16];
    char s[1024];
    memset(cl, 0, sizeof(cl));
    for(i = 0; i != o->n; ++i) {
        int snd = o->cop[i] == DILL_CHSEND;
        int len = o->clen[i] < 0 ? 4 : o->clen[i];
        b[i] = newbuf(len);
        vals[i] = snd ? newval(len) : -1;
        if(snd) fill(b[i], len, vals[i]);
        cl[i].op = o->cop[i];
        cl[i].ch = o->ch[i];
        cl[i].val = o->clen[i] < 0 ? NULL : b[i];
        cl[i].len = len;
        l += sprintf(s + l, "%s{\"h\":%d,\"p\":%d,\"n\":%d,\"v\":%d,\"z\":%d}", i ? "," : "",
            o->ch[i], o->cop[i], len, vals[i], o->clen[i] < 0);
    }
    if(!o->n) s[0] = 0;
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"choose\",\"cl\":[%s],\"d\":%lld}", self, s, CL(o->d));
    CANARY(self)
    errno = EDOM;
    int r = choose(o->n ? cl : NULL, o->n, o->d);
    int e = errno;
    CHECK(self)
    int v = -1;
    for(i = 0; i != o->n; ++i) {
        if(cl[i].op == DILL_CHSEND) {memset(b[i], 0x11, cl[i].len); continue;}
        if(i == r && e == 0) {v = decode(b[i], cl[i].len); if(b[i][cl[i].len] != 0xee) kk = 1;}
        else {
            if(!untouched(b[i], cl[i].len + 1)) kk = 1;
            watch(b[i], cl[i].len + 1);
        }
    }
    ret(self, CHOOSE, r, e, v, kk, 0);
}

static void do_fd(int self, struct op *o) {
    int f = o->fd, ok = f >= 0 && f < VK_NFDS;
    int in = o->t == FDIN;
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"%s\",\"f\":%d,\"d\":%lld}", self, opname[o->t], f, CL(o->d));
    if(ok) {if(in) D->waitin[f]++; else D->waitout[f]++;}
    CANARY(self)
    errno = EDOM;
    int r = in ? fdin(f, o->d) : fdout(f, o->d);
    int e = errno;
    CHECK(self)
    if(ok) {if(in) D->waitin[f]--; else D->waitout[f]--;}
    ret(self, o->t, r, r < 0 ? e : 0, -1, kk, 0);
}

static void *cust_query(struct hvfs *vfs, const void *type);
static void cust_close(struct hvfs *vfs);
static const int cust_type = 0, none_type = 0;
static __thread int curself;

static void *cust_query(struct hvfs *vfs, const void *type) {
    if(type == &cust_type) return vfs;
    errno = ENOTSUP;
    return NULL;
}

static __thread int cbself;
static void cust_close(struct hvfs *vfs) {
    struct custom *c = (struct custom*)vfs;
    int self = cbself;
    L("{\"e\":\"b\",\"c\":%d,\"q\":%d}", self, c->oid);
    if(D->depth < 3) {
        ++D->depth;
        steps(self, D->script ? 1000 : R(4));
        --D->depth;
    }
    L("{\"e\":\"d\",\"c\":%d,\"q\":%d}", self, c->oid);
}

static void do_hmake(int self, struct op *o) {
    int q = D->noid++;
    struct custom *c = malloc(sizeof(struct custom));
    int badv = o->kind;
    c->vfs.query = badv == 1 ? NULL : cust_query;
    c->vfs.close = badv == 2 ? NULL : cust_close;
    c->oid = q; c->d = D;
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"hmake\",\"q\":%d,\"z\":%d,\"ij\":%d}", self, q, badv ? 1 : 0, o->inj ? 1 : 0);
    int tpi; inject(&tpi, o->inj);
    errno = EDOM;
    int r = hmake(badv == 3 ? NULL : &c->vfs);
    int e = errno;
    int tp = tripped(&tpi);
    if(r >= 0) hadd(r, 'x', q, 0);
    ret(self, HMAKE, r, r < 0 ? e : 0, -1, 0, tp);
}

static void do_hclose(int self, struct op *o) {
    int own = o->t == HOWN;
    int i = hfind(o->h);
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"%s\",\"h\":%d,\"ij\":%d}", self, opname[o->t], o->h, o->inj ? 1 : 0);
    int b = -1, q = -1, kind = 0;
    if(i >= 0) {
        D->H[i].st = 1;
        kind = D->H[i].kind; q = D->H[i].oid;
        if(kind == 'b') {b = q; D->B[b].closer = self;}
    }
    int save = cbself;
    cbself = self;
    CANARY(self)
    int tpi; inject(&tpi, o->inj);
    errno = EDOM;
    int r = own ? hown(o->h) : hclose(o->h);
    int e = errno;
    CHECK(self)
    int tp = tripped(&tpi);
    cbself = save;
    if(i >= 0) {
        D->H[i].st = 2;
        if(b >= 0) D->B[b].closer = -1;
        if(own && r >= 0) hadd(r, kind, q, D->H[i].end);
        else if(kind == 'b') {
            D->B[b].open = 0;
            if(D->B[b].mem) {retire(D->B[b].mem, sizeof(struct bundle_storage), "bundle memory"); D->B[b].mem = NULL;}
            int j;
            for(j = 1; j < D->ncr; ++j) if(D->C[j].bun == b && D->C[j].mem && !D->C[j].alive) {
                retire(D->C[j].mem, D->C[j].memsz, "coroutine memory"); D->C[j].mem = NULL;}
        }
        else if(kind == 'c') {
            if(++D->CH[q].closed == 2 && D->CH[q].mem) {
                retire(D->CH[q].mem, sizeof(struct chstorage), "channel memory"); D->CH[q].mem = NULL;}
        }
    }
    ret(self, o->t, r, r < 0 ? e : 0, -1, kk, tp);
}

static void do_hquery(int self, struct op *o) {
    static const char *ty[] = {"b", "c", "x", "n"};
    const void *tp[] = {dill_bundle_type, dill_halfchan_type, &cust_type, &none_type};
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"hq\",\"h\":%d,\"ty\":\"%s\"}", self, o->h, ty[o->kind]);
    errno = EDOM;
    void *p = hquery(o->h, tp[o->kind]);
    int e = errno, v = -1;
    if(p && o->kind == 2) v = ((struct custom*)p)->oid;
    ret(self, HQUERY, p ? 0 : -1, p ? 0 : e, v, 0, 0);
}

static void run_op(int self, struct op *o) {
    int r, e;
    vkp->countdown = 0;
    switch(o->t) {
    case GO: case GOB: do_go(self, o); return;
    case BUNDLE: do_bundle(self, o); return;
    case BWAIT: {
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"bwait\",\"h\":%d,\"d\":%lld}", self, o->h, CL(o->d));
        CANARY(self)
        errno = EDOM; r = bundle_wait(o->h, o->d); e = errno;
        CHECK(self)
        ret(self, BWAIT, r, r < 0 ? e : 0, -1, kk, 0);
        return;}
    case YIELD: {
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"yield\"}", self);
        CANARY(self)
        int rr = 0;
        errno = EDOM; r = regcall(self, callyield, 0, &rr); e = errno;
        CHECK(self)
        kk |= rr;
        ret(self, YIELD, r, r < 0 ? e : 0, -1, kk, 0);
        return;}
    case MSLEEP: {
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"msleep\",\"d\":%lld}", self, CL(o->d));
        CANARY(self)
        int rr = 0;
        errno = EDOM; r = regcall(self, callsleep, o->d, &rr); e = errno;
        CHECK(self)
        kk |= rr;
        ret(self, MSLEEP, r, r < 0 ? e : 0, -1, kk, 0);
        return;}
    case NOW:
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"now\"}", self);
        r = (int)now();
        ret(self, NOW, r, 0, -1, 0, 0);
        return;
    case CHMAKE: do_chmake(self, o); return;
    case CHSEND: case CHRECV: do_chan(self, o); return;
    case CHOOSE: do_choose(self, o); return;
    case CHDONE:
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"chdone\",\"h\":%d}", self, o->h);
        errno = EDOM; r = chdone(o->h); e = errno;
        ret(self, CHDONE, r, r < 0 ? e : 0, -1, 0, 0);
        return;
    case FDIN: case FDOUT: do_fd(self, o); return;
    case FDCLEAN:
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"fdclean\",\"f\":%d}", self, o->fd);
        errno = EDOM; r = fdclean(o->fd); e = errno;
        ret(self, FDCLEAN, r, r < 0 ? e : 0, -1, 0, 0);
        return;
    case FDSET: setfd(o->fd, o->in, o->out, o->err); return;
    case FDREOPEN: {
        /* forget, close and reuse the number for something else */
        int f = o->fd;
        L("{\"e\":\"c\",\"c\":%d,\"o\":\"fdclean\",\"f\":%d}", self, f);
        errno = EDOM; r = fdclean(f); e = errno;
        ret(self, FDCLEAN, r, r < 0 ? e : 0, -1, 0, 0);
        if(r < 0) return;
        int kind = vkp->fd[f]->kind;
        vk_closefd(f);
        L("{\"e\":\"x\",\"f\":%d}", f);
        if(o->in) return;   /* stays closed for now */
        vkp->fd[f] = vk_mkobj(kind);
        L("{\"e\":\"o\",\"f\":%d,\"t\":\"%s\"}", f, kind == VK_FILE ? "file" : "ready");
        return;}
    case HCLOSE: case HOWN: do_hclose(self, o); return;
    case HQUERY: do_hquery(self, o); return;
    case HMAKE: do_hmake(self, o); return;
    case WORK: advance(o->ms); return;
    }
}

/* Picks a next operation; returns 0 if the coroutine is to end. */
static int pick(int self, struct op *o) {
    int i, total = 0, r;
    struct mix *m = D->m;
    memset(o, 0, sizeof(*o));
    if(D->budget <= 0) return 0;
    --D->budget;
    /* some calls are retried with another kind if not possible */
    int tries = 0;
again:
    if(++tries > 20) {o->t = YIELD; return 1;}
    total = 0;
    for(i = 0; i != NOPS; ++i) total += m->w[i];
    r = R(total);
    for(i = 0; i != NOPS; ++i) {if(r < m->w[i]) break; r -= m->w[i];}
    o->t = i;
    o->inj = 0;
    switch(i) {
    case GO: case GOB:
        if(D->live >= m->maxcr || D->ncr >= MAXCR - 1 || D->noid >= MAXOB - 1) goto again;
        if(i == GOB) {
            int k = hpick('b');
            if(k < 0 && P(80)) goto again;
            o->h = hget('b');
        }
        if(P(m->mem)) {o->mem = P(12) ? 2 : 1; o->skew = P(70) ? 0 : 8 * R(2) + (R(4) ? 0 : R(8));}
        if(i == GO && o->mem) o->skew = o->skew & 8;
        if(P(m->inj)) o->inj = 1 + R(3);
        return 1;
    case BUNDLE: case CHMAKE:
        if(D->noid >= MAXOB - 1) goto again;
        if(i == CHMAKE) {
            int n = 0, k;
            for(k = 0; k != D->nh; ++k) if(D->H[k].kind == 'c' && D->H[k].st == 0) ++n;
            if(n >= 2 * m->chans && m->setup != 1 && P(85)) goto again;
        }
        if(P(m->mem)) o->mem = 1;
        if(P(m->inj)) o->inj = 1 + R(2);
        return 1;
    case BWAIT: o->h = hget('b'); o->d = deadline(self); return 1;
    case YIELD: case NOW: return 1;
    case MSLEEP: o->d = deadline(self); return 1;
    case CHSEND: case CHRECV:
        o->h = hget('c'); o->d = deadline(self); o->len = picklen();
        /* the handle table is full of stale numbers: still no waiting there */
        if(m->setup == 1) o->d = 0;
        return 1;
    case CHOOSE:
        o->n = R(12) ? 1 + R(4) : (R(2) ? 0 : 5 + R(10));
        for(i = 0; i != o->n; ++i) {
            o->ch[i] = hget('c');
            o->cop[i] = R(50) ? (R(2) ? DILL_CHSEND : DILL_CHRECV) : R(4) * 3;
            o->clen[i] = R(60) ? (int)picklen() : -1;
        }
        o->d = deadline(self);
        if(m->setup == 1) o->d = 0;
        return 1;
    case CHDONE: o->h = hget('c'); return 1;
    case FDIN: case FDOUT: case FDCLEAN:
        if(D->nfd == 0) goto again;
        o->fd = D->fds[R(D->nfd)];
        if(P(2)) {
            static const int odd[] = {-1, VK_NFDS, VK_NFDS + 1, 2147483647, -2147483647 - 1, VK_NFDS - 3};
            o->fd = odd[R(6)];
        }
        o->d = deadline(self);
        return 1;
    case FDSET: {
        if(D->nfd == 0) goto again;
        o->fd = D->fds[R(D->nfd)];
        if(!vkp->fd[o->fd] || vkp->fd[o->fd]->kind != VK_READY) goto again;
        o->in = R(2); o->out = R(2); o->err = P(6) ? 1 + R(3) : 0;
        if(P(30)) o->in = o->out = 0;
        return 1;}
    case FDREOPEN: {
        if(D->nfd == 0) goto again;
        o->fd = D->fds[R(D->nfd)];
        if(!vkp->fd[o->fd]) {
            vkp->fd[o->fd] = vk_mkobj(P(10) ? VK_FILE : VK_READY);
            L("{\"e\":\"o\",\"f\":%d,\"t\":\"%s\"}", o->fd,
                vkp->fd[o->fd]->kind == VK_FILE ? "file" : "ready");
            goto again;
        }
        o->in = P(30);
        return 1;}
    case HCLOSE: case HOWN: {
        if(P(m->bad)) {
            o->h = badhandle();
            int k = hfind(o->h);
            if(k >= 0 && !mayclose(self, k)) goto again;
            return 1;
        }
        int k = hpick(0);
        if(k < 0 || !mayclose(self, k)) goto again;
        if(D->H[k].kind == 'c' && i == HCLOSE && P(m->chans ? 40 : 0)) goto again;
        o->h = D->H[k].h;
        /* do not move a bundle others are just closing or a handle in use */
        if(i == HOWN && P(m->inj)) o->inj = 1;
        return 1;}
    case HQUERY: o->h = hget(0); o->kind = R(4); return 1;
    case HMAKE:
        if(D->noid >= MAXOB - 1) goto again;
        o->kind = R(20) ? 0 : 1 + R(3);
        if(P(m->inj)) o->inj = 1;
        return 1;
    case WORK: o->ms = P(m->longwork) ? 990 + R(60) : 1 + R(8); return 1;
    case END: if(self == 0 || D->depth) goto again; return 0;
    }
    return 0;
}

/* Script: "c op args"; handles are written as bOID, cOID.END, xOID. */
static int href(const char *s) {
    int oid, end = 0, i;
    char k = s[0];
    if(k == '-') return -1;
    oid = atoi(s + 1);
    const char *dot = strchr(s, '.');
    if(dot) end = atoi(dot + 1);
    for(i = D->nh - 1; i >= 0; --i)
        if(D->H[i].kind == k && D->H[i].oid == oid && D->H[i].end == end) return D->H[i].h;
    return -1;
}
static int64_t dref(const char *s) {
    if(s[0] == '-') return -1;
    return vkp->clk + atoi(s);
}
static int script_pick(int self, struct op *o) {
    memset(o, 0, sizeof(*o));
    while(D->iscript < D->nscript && D->script[D->iscript][0] == '@') ++D->iscript;
    if(D->iscript >= D->nscript) return 0;
    char buf[512], *tok[64]; int n = 0;
    strncpy(buf, D->script[D->iscript++], sizeof(buf) - 1); buf[511] = 0;
    char *sv, *p = strtok_r(buf, " ", &sv);
    while(p && n < 64) {tok[n++] = p; p = strtok_r(NULL, " ", &sv);}
    if(!n) return 0;
    int t;
    for(t = 0; t != NOPS; ++t) if(!strcmp(opname[t], tok[0])) break;
    if(t == NOPS || t == END) return 0;
    o->t = t;
    switch(t) {
    case GOB: o->h = href(tok[1]); break;
    case BWAIT: o->h = href(tok[1]); o->d = dref(tok[2]); break;
    case MSLEEP: o->d = dref(tok[1]); break;
    case CHSEND: case CHRECV: o->h = href(tok[1]); o->len = atoi(tok[2]); o->d = dref(tok[3]); break;
    case CHDONE: o->h = href(tok[1]); break;
    case HCLOSE: case HOWN: {
        o->h = href(tok[1]);
        int k = hfind(o->h);
        if(k >= 0 && !mayclose(self, k)) {o->t = YIELD;}
        break;}
    case CHOOSE: {
        int i; o->d = dref(tok[1]);
        for(i = 2; i + 2 < n; i += 3) {
            o->ch[o->n] = href(tok[i]); o->cop[o->n] = atoi(tok[i + 1]); o->clen[o->n] = atoi(tok[i + 2]); o->n++;}
        break;}
    case FDIN: case FDOUT: o->fd = D->fds[atoi(tok[1])]; o->d = dref(tok[2]); break;
    case FDCLEAN: o->fd = D->fds[atoi(tok[1])]; break;
    case FDSET: o->fd = D->fds[atoi(tok[1])]; o->in = atoi(tok[2]); o->out = atoi(tok[3]); o->err = atoi(tok[4]); break;
    case WORK: o->ms = atoi(tok[1]); break;
    }
    return 1;
}

static void steps(int self, int n) {
    struct op o;
    while(n-- > 0) {
        if(D->script) {if(!script_pick(self, &o)) return;}
        else if(!pick(self, &o)) return;
        if(D->cleanup) return;
        if(o.t == HCLOSE || o.t == HOWN) {
            int i = hfind(o.h);
            if(i >= 0 && !mayclose(self, i)) continue;
        }
        run_op(self, &o);
    }
}

/* recursion makes coroutines use different amounts of stack */
static __attribute__((noinline)) int deep(int self, int n, char *limit) {
    volatile unsigned char pad[512];
    int i, bad = 0;
    for(i = 0; i != (int)sizeof(pad); ++i) pad[i] = (unsigned char)(self * 5 + n + i);
    if(n > 0 || (limit && (char*)pad > limit)) bad |= deep(self, n - 1, limit);
    else steps(self, 100000);
    for(i = 0; i != (int)sizeof(pad); ++i) if(pad[i] != (unsigned char)(self * 5 + n + i)) bad = 1;
    return bad;
}

static coroutine void body(int id) {
    vkp->countdown = 0;
    D->C[id].started = 1;
    L("{\"e\":\"s\",\"c\":%d}", id);
    /* some use nearly all of it */
    char here, *limit = NULL;
    if(!D->script && R(40) == 0) limit = D->C[id].mem ? (char*)D->C[id].mem + 40000 : &here - 256 * 1024 + 40000;
    if(deep(id, id % 7, limit)) oops("stack contents of a coroutine changed");
    D->C[id].alive = 0;
    --D->live;
    L("{\"e\":\"e\",\"c\":%d}", id);
}

/******************************************************************************/
/*  Scenarios                                                                 */
/******************************************************************************/

static void openfds(void) {
    int i;
    D->nfd = D->m->nfd;
    for(i = 0; i != D->nfd; ++i) {
        int f = D->m->setup == 2 ? i + 3 : (i == 0 ? 0 : i == 1 ? VK_NFDS - 1 : i * 5);
        if(D->m->setup == 4) f = i + 3;
        while(vkp->fd[f]) ++f;
        int kind = D->m->setup == 4 || R(25) ? VK_READY : VK_FILE;
        vkp->fd[f] = vk_mkobj(kind);
        D->fds[i] = f;
        L("{\"e\":\"o\",\"f\":%d,\"t\":\"%s\"}", f, kind == VK_FILE ? "file" : "ready");
    }
}

static void wrap_up(void) {
    int i, guard = 0;
    struct op o;
    D->budget = 0;
    /* let the launches in flight return their handles, then close everything */
    while(1) {
        int open = 0;
        if(++guard > 3000) die("cannot wrap up");
        for(i = 0; i != D->nh; ++i) {
            if(D->H[i].st == 2) continue;
            ++open;
            if(D->H[i].st == 1) continue;
            memset(&o, 0, sizeof(o));
            if(D->H[i].kind == 'x') ++D->depth;
            o.t = HCLOSE; o.h = D->H[i].h;
            run_op(0, &o);
            if(D->H[i].kind == 'x') --D->depth;
            --open;
        }
        if(!open && !D->unbound && D->live == 1) break;
        memset(&o, 0, sizeof(o));
        o.t = YIELD;
        if(guard > 60) {o.t = MSLEEP; o.d = vkp->clk + 5;}
        run_op(0, &o);
    }
}

/* Handles that only fill the table, so that it has to grow (or cannot) soon. */
static void *fquery(struct hvfs *v, const void *t) {errno = ENOTSUP; return NULL;}
static void fclosed(struct hvfs *v) {}
static __thread int nfilled;
static void fillhandles(int n) {
    static struct hvfs v = {fquery, fclosed};
    nfilled += n;
    while(n-- > 0) if(hmake(&v) < 0) die("driver: filler");
}

/* The number of handles that are open, the fillers apart. */
static int openhandles(void) {
    static const int notype;
    int h, n = 0;
    for(h = 0; h != 1200; ++h) {
        errno = 0;
        if(hquery(h, &notype) || errno != EBADF) ++n;
    }
    return n - nfilled;
}

/* Handle numbers are used in turn: the next ones are to be around zero. */
static void *tquery(struct hvfs *v, const void *t) {errno = ENOTSUP; return NULL;}
static void tclosed(struct hvfs *v) {}
static void turnhandles(int n) {
    static struct hvfs v = {tquery, tclosed};
    while(n-- > 0) {
        int h = hmake(&v);
        if(h < 0 || hclose(h) != 0) die("driver: turning handles");
    }
}

static void scenario(uint64_t seed, int rep) {
    int i;
    D->rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for(i = 0; i != 8; ++i) R32();
    D->budget = D->m->budget / 4 + R(D->m->budget);
    D->nh = 0; D->ncr = 1; D->live = 1; D->noid = 0; D->vals = 0; D->nr = 0; D->np = 0;
    D->unbound = 0; D->cleanup = 0; D->polls = 0; D->depth = 0; D->bad = 0; D->iscript = 0;
    memset(D->waitin, 0, sizeof(D->waitin)); memset(D->waitout, 0, sizeof(D->waitout));
    memset(D->C, 0, sizeof(D->C));
    D->C[0].bun = -1; D->C[0].alive = 1;
    for(i = 0; i != 6; ++i) D->C[0].k[i] = ((long)R32() << 32) ^ R32();
    if(!rep && seed % 3 == 1) turnhandles(256 - (seed * 7 + seed / 5) % 14);
    int few = !strcmp(D->m->name, "grow");
    if(!D->script && D->m->inj && !rep && (few || P(30))) fillhandles(248 - R(few ? 8 : 14));
    now();
    L("{\"e\":\"B\",\"be\":\"%s\",\"clk\":%lld,\"rep\":%d,\"seed\":%llu}", BACKEND,
        (long long)vkp->clk, rep, (unsigned long long)seed);
    openfds();
    int pre = D->m->setup == 1 ? 235 + R(20) : 0;
    if(pre) {
        struct op o;
        for(i = 0; i < pre; ++i) {memset(&o, 0, sizeof(o)); o.t = R(2) ? BUNDLE : HMAKE; run_op(0, &o); D->noid += 0;}
        if(R(3) == 0) for(i = 0; i < 270; ++i) {memset(&o, 0, sizeof(o)); o.t = BUNDLE; run_op(0, &o);}
    }
    if(!D->script) {
        struct op o;
        for(i = 0; i < D->m->chans; ++i) {memset(&o, 0, sizeof(o)); o.t = CHMAKE; o.mem = P(D->m->mem); run_op(0, &o);}
        if(D->m->maxcr > 1) {
            int n = D->m->maxcr > 100 ? D->m->maxcr / 2 + R(D->m->maxcr / 2) : 1 + R(3);
            memset(&o, 0, sizeof(o)); o.t = BUNDLE; run_op(0, &o);
            int b = D->H[D->nh - 1].h;
            for(i = 0; i < n; ++i) {
                memset(&o, 0, sizeof(o)); o.t = GOB; o.h = b; o.mem = P(D->m->mem);
                if(hfind(b) >= 0 && D->live < D->m->maxcr) run_op(0, &o);
            }
        }
    }
    steps(0, 1000000);
    wrap_up();
    for(i = 0; i != D->nr; ++i)
        if(D->R[i].n && !untouched(D->R[i].p, D->R[i].n)) oops("buffer of a failed receive written later");
    for(i = 0; i != D->np; ++i) {
        size_t j;
        for(j = 0; j != D->P[i].n; ++j) if(D->P[i].p[j] != 0xcc) {oops("user memory used after close"); break;}
        checkrz(D->P[i].p, D->P[i].n, "user memory overrun");
    }
    for(i = 0; i != D->nfd; ++i) {
        int f = D->fds[i];
        if(!vkp->fd[f]) continue;
        struct op o; memset(&o, 0, sizeof(o)); o.t = FDCLEAN; o.fd = f; run_op(0, &o);
        vk_closefd(f);
        L("{\"e\":\"x\",\"f\":%d}", f);
    }
    int r = 0;
    for(i = 0; i != vkp->nreg; ++i) ++r;
    int oh = openhandles();
    L("{\"e\":\"F\",\"m\":%ld,\"n\":%ld,\"st\":%ld,\"f\":%d,\"g\":%d,\"oh\":%d,\"bad\":%d,\"why\":\"%s\"}", vkp->balloc, vkp->nalloc, vkp->nbig,
        vk_libfds() + vkp->closes, r, oh, D->bad, D->bad ? D->why : "");
}

static void arm(void) {
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof(alt)};
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof(sa));
    sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGPIPE};
    int i; for(i = 0; i != 7; ++i) sigaction(sg[i], &sa, NULL);
    alarm(10);
}

static struct mix *themix; static int thelogfd; static int reps;
struct targ { uint64_t seed; int me; struct duo *duo; struct drv *d; struct vk *v; };

static void *threadmain(void *arg) {
    struct targ *t = arg;
    D = t->d; vkp = t->v;
    vkp->hook = hook; vkp->after = after;
    pthread_mutex_lock(&t->duo->mx);
    while(t->duo->turn != t->me) pthread_cond_wait(&t->duo->cv, &t->duo->mx);
    pthread_mutex_unlock(&t->duo->mx);
    scenario(t->seed, 0);
    pthread_mutex_lock(&t->duo->mx);
    t->duo->done[t->me] = 1; t->duo->turn = 1 - t->me;
    pthread_cond_broadcast(&t->duo->cv);
    pthread_mutex_unlock(&t->duo->mx);
    return NULL;
}

static struct drv *newdrv(void) {
    struct drv *d = calloc(1, sizeof(struct drv));
    d->m = themix; d->logfd = thelogfd;
    return d;
}

static void duo_run(uint64_t seed) {
    struct duo u; memset(&u, 0, sizeof(u));
    pthread_mutex_init(&u.mx, NULL); pthread_cond_init(&u.cv, NULL);
    u.rng = seed * 77777 + 5;
    struct targ t[2]; pthread_t th[2]; int i;
    for(i = 0; i != 2; ++i) {
        t[i].seed = seed * 2 + i; t[i].me = i; t[i].duo = &u; t[i].d = newdrv();
        t[i].d->duo = &u; t[i].d->me = i; t[i].d->noinfmain = 1;
        t[i].v = vk_new(); t[i].v->clk += i * 7777;
    }
    D = NULL; vkp = NULL;
    D = t[0].d;
    for(i = 0; i != 2; ++i) pthread_create(&th[i], NULL, threadmain, &t[i]);
    for(i = 0; i != 2; ++i) pthread_join(th[i], NULL);
    for(i = 0; i != 2; ++i) {
        D = t[i].d; D->duo = NULL;
        int k, open = 0;
        for(k = 0; k != VK_NFDS; ++k) if(t[i].v->fd[k] && t[i].v->fdlib[k]) ++open;
        L("{\"e\":\"T\",\"m\":%ld,\"n\":%ld,\"f\":%d}", t[i].v->balloc, t[i].v->nalloc + t[i].v->nbig, open);
        flush();
    }
    /* what the library does at the end of the process has nothing to do here */
    exit(0);
}

/* At the end of the process, after the library has cleaned up. */
static void ended(void) {
    int k, open = 0;
    for(k = 0; k != VK_NFDS; ++k) if(vkp->fd[k] && vkp->fdlib[k]) ++open;
    L("{\"e\":\"T\",\"m\":%ld,\"n\":%ld,\"f\":%d}", vkp->balloc, vkp->nalloc + vkp->nbig, open);
    flush();
}

int main(int argc, char **argv) {
    const char *out = NULL, *mixn = "all", *scr = NULL; uint64_t seed = 1; int n = 1, i, duo = 0, crashes = 0;
    reps = 1;
    for(i = 1; i + 1 < argc; i += 2) {
        if(!strcmp(argv[i], "--out")) out = argv[i + 1];
        if(!strcmp(argv[i], "--mix")) mixn = argv[i + 1];
        if(!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], NULL, 10);
        if(!strcmp(argv[i], "--n")) n = atoi(argv[i + 1]);
        if(!strcmp(argv[i], "--reps")) reps = atoi(argv[i + 1]);
        if(!strcmp(argv[i], "--duo")) duo = atoi(argv[i + 1]);
        if(!strcmp(argv[i], "--script")) scr = argv[i + 1];
    }
    if(scr) mixn = "script";
    for(themix = mixes; themix->name; ++themix) if(!strcmp(themix->name, mixn)) break;
    if(!themix->name || !out) {fprintf(stderr, "usage\n"); return 2;}
    thelogfd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    thelogfd = fcntl(thelogfd, F_DUPFD, 700);
    int dn = open("/dev/null", O_RDWR);
    char **lines = NULL; int nl = 0; int *first = NULL;
    if(scr) {
        FILE *f = fopen(scr, "r"); char b[1024]; int cap = 0, fresh = 1; int nf = 0;
        while(fgets(b, sizeof(b), f)) {
            b[strcspn(b, "\n")] = 0;
            if(nl == cap) {cap = cap * 2 + 1000; lines = realloc(lines, cap * sizeof(char*)); first = realloc(first, (cap + 2) * sizeof(int));}
            if(!b[0]) {fresh = 1; continue;}
            if(fresh) {first[nf++] = nl; fresh = 0;}
            lines[nl++] = strdup(b);
        }
        first[nf] = nl;
        n = nf;
    }
    for(i = 0; i != n; ++i) {
        pid_t p = fork();
        if(p == 0) {
            dup2(dn, 1);
            if(!getenv("VERIF_STDERR")) dup2(dn, 2);
            arm();
            if(duo) duo_run(seed + i);
            D = newdrv();
            vk_new();
            vkp->hook = hook; vkp->after = after;
            if(scr) {D->script = lines + first[i]; D->nscript = first[i + 1] - first[i];}
            int k;
            atexit(ended);
            for(k = 0; k != reps; ++k) scenario(seed + i, k);
            flush();
            exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if(WIFSIGNALED(st)) {
            char m[200];
            snprintf(m, sizeof(m), "{\"e\":\"X\",\"why\":\"killed\",\"seed\":%llu}\n",
                (unsigned long long)(seed + i) * (duo ? 2 : 1));
            if(syscall(SYS_write, thelogfd, m, strlen(m)) < 0) return 2;
        }
        /* a few crashes are enough */
        if(WIFSIGNALED(st) || WEXITSTATUS(st)) if(++crashes == 3) break;
    }
    return 0;
}
