/* Network driver: runs random programs of socket calls by a few coroutines
   against the real library on the virtual kernel, plays the peers of all the
   connections, and records calls, returns, wire traffic, polls and time as
   events for the TLA+ specification Net. Bytes are recorded as ropes, see
   Rope.tla. */
#define _GNU_SOURCE
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include "libdillimpl.h"
#include "libdill.h"

enum { M_BASE = 1, M_FRAME = 2, M_MAKE = 4, M_IPC = 8, M_TERM = 16, M_WS = 32, M_HTTP = 64, M_SOCKS = 128, M_BAD = 256,
    M_ERR = 512, M_INJ = 1024, M_MEM = 2048, M_CLOSE = 4096,
    M_UDP = 8192, M_EYES = 16384, M_ADDR = 32768, M_DNS = 65536, M_TLS = 131072 };

struct mix {const char *name; int what; int budget; int workers; int conns; int big; int err; int bad; int cancel; int late;};
static struct mix mixes[] = {
 /* name       what                                budget wrk cn big err bad cnc late */
 {"stream",    M_BASE,                                50, 4, 2, 12,  2,  2,  2,  4},
 {"many",      M_BASE,                               200, 4, 46, 0,  1,  2,  1,  0},
 {"sends",     M_BASE,                                50, 4, 2, 20,  2,  2,  2,  4},
 {"errors",    M_BASE | M_CLOSE,                      60, 4, 3,  3, 12,  3, 10, 15},
 {"closing",   M_BASE | M_CLOSE,                      50, 3, 4,  3, 10,  0,  5, 10},
 {"lists",     M_BASE | M_FRAME | M_TERM,             60, 3, 2,  3,  2, 25,  2,  4},
 {"making",    M_BASE | M_MAKE | M_IPC | M_CLOSE,     60, 4, 1,  0,  5,  3,  5, 10},
 {"fdpass",    M_BASE | M_IPC,                        60, 4, 2,  0,  6,  3,  4,  8},
 {"prefix",    M_FRAME,                               60, 3, 2,  6,  3,  3,  2,  4},
 {"suffix",    M_FRAME,                               60, 3, 2,  3,  3,  3,  2,  4},
 {"term",      M_FRAME | M_TERM,                      60, 3, 2,  2,  3,  3,  2,  4},
 {"stack",     M_BASE | M_FRAME | M_TERM | M_CLOSE,   90, 3, 3,  2,  5,  5,  4,  8},
 {"release",   M_BASE | M_FRAME | M_TERM | M_MAKE | M_IPC | M_CLOSE | M_INJ | M_HTTP | M_WS, 80, 3, 2, 2, 4, 4, 4, 6},
 {"http",      M_FRAME | M_HTTP,                      70, 3, 2,  3,  3,  3,  2,  4},
 {"ws",        M_FRAME | M_WS,                        60, 3, 2,  6,  3,  3,  2,  4},
 {"wshand",    M_WS | M_HTTP,                         30, 3, 3,  1,  2,  0,  3,  6},
 {"socks",     M_SOCKS,                               40, 3, 3,  0,  3,  0,  3,  6},
 {"udp",       M_UDP,                                 60, 4, 3,  4,  4,  4,  3,  6},
 {"udpinj",    M_UDP | M_INJ,                         60, 3, 4,  1,  4,  4,  3,  6},
 {"eyes",      M_EYES,                                20, 3, 1,  0,  0,  3, 10,  6},
 {"eyesinj",   M_EYES | M_INJ,                        20, 3, 1,  0,  0,  3, 10,  6},
 {"addr",      M_ADDR,                               150, 1, 1,  0,  0,  0,  0,  0},
 {"dns",       M_DNS,                                 14, 3, 1,  0,  0,  0, 10,  6},
 {"dnsinj",    M_DNS | M_INJ,                         14, 3, 1,  0,  0,  0, 10,  6},
 {"tls",       M_TLS,                                 50, 4, 2, 10,  2,  4,  2,  4},
 {"tlserr",    M_TLS | M_CLOSE,                       50, 4, 2,  6,  8,  4,  8, 15},
 {"tlsinj",    M_TLS | M_INJ,                         50, 3, 2,  6,  2,  4,  4,  6},
 {"script",    0,                                     50, 3, 0,  0,  0,  0,  0,  0},
 {NULL}
};

#define MAXC 64        /* few enough for most programs */
#define MAXCC 200
#define MAXO 400
#define MAXW 8
#define MAXPAT 4000

struct pat {int v; unsigned char *p; size_t n;};
/* splits what a WebSocket client sends into frames */
struct wsp {int on; unsigned char h[14]; size_t n; unsigned char mask[4]; uint64_t left; unsigned mi;};
struct conn {
    struct vkobj *o; int k, fam, port;
    unsigned char *pl, *pc; size_t npl, cpl, dpl;    /* planned input; delivered part */
    int planend, ended;
    size_t lastmsg[4];
    size_t txseen; int fdseen; int sh, cl;
    int hv; size_t ho;      /* hint for the next outbound token */
    int text;               /* only text patterns here */
    int es;                 /* connect in progress */
    int fd;                 /* open descriptor the driver holds, or -1 */
    int hs, hsdone;         /* WebSocket's handshake: 1 of a client, 2 of a server */
    unsigned char *hb; size_t nhb; char key[32]; size_t hslen[2];
    int wsover;             /* no more frames */
    struct wsp wo;
    int hlines; size_t lastp[2];
    int s5;                 /* SOCKS5: 1 in a conversation, 2 over */
    int few;                /* receives so far */
    int he;                 /* connect by name: whose attempt, + 1 */
    int udp, k2, hasrem; struct ipaddr rem;
    struct tlsp *tls;
};
enum { T_TCP, T_IPC, T_TCPL, T_IPCL, T_PREFIX, T_SUFFIX, T_TERM, T_WS, T_HTTP, T_UDP, T_TLS };
static const char *tyname[] = {"tcp", "ipc", "tcpl", "ipcl", "prefix", "suffix", "term", "ws", "http", "udp", "tls"};
struct ob {
    int h, ty, u, k, st;           /* st: 0 open, 1 under, 2 closed */
    int rb, sb, closing;           /* calls in progress */
    int dead, done, done2, lines;
    unsigned char del[64]; size_t ndel; int hdr, be;
    void *mem; size_t memsz; void *mem2;
    struct vkobj *lo;              /* listeners */
    int s5;                        /* SOCKS5 proxy: 1 authenticated, 2 has a command, 3 over */
};
struct wk {int used, h, gate, gopen, cancelled, post, ended; int busy;};
/* a connect by name in progress; 0 is IPv4, 1 IPv6 */
struct hecall {int on, port, n[2], max[2], gate[2]; char name[24], lt[2][16];};
struct rbuf {unsigned char *p; size_t n; void *base;};

struct drv {
    uint64_t rng; struct mix *m;
    char *log; size_t loglen, logcap; int logfd; int quiet;
    int budget, polls, stop;
    struct conn C[MAXCC]; int nc;
    struct hecall H[MAXW]; int hecnt;
    int nifa, ifx;          /* list of interfaces: in use, cannot be had */
    struct ob O[MAXO]; int no;
    struct wk W[MAXW]; int nw;
    struct pat P[MAXPAT]; int np; int vid;
    struct rbuf M[800]; int nm;
    int bad; char why[80];
    int64_t trips; int curw; int making;   /* worker inside connect/pair */
    int lk;
    unsigned char lastmask[4]; int same; char lastkey[32];
    char **script; int nscript, iscript;   /* the lines of the script */
    int sc;                                 /* a scripted call is being made */
    int scfrag, scwin, tlsauto; int64_t scdl; char scarg[200];
    char cmd[MAXW][260]; int xw;
    char s5user[600], s5pass[600]; int s5busy;
};
static struct drv *D;

/******************************************************************************/
/*  Log                                                                       */
/******************************************************************************/

static void wires(void);

static void Lraw(const char *fmt, ...) {
    va_list ap, aq;
    if(D->quiet) return;
    va_start(ap, fmt); va_copy(aq, ap);
    int n = vsnprintf(NULL, 0, fmt, aq);
    if(D->loglen + n + 2 > D->logcap) {
        D->logcap = D->logcap * 2 + n + 200000;
        D->log = realloc(D->log, D->logcap);
    }
    vsnprintf(D->log + D->loglen, n + 1, fmt, ap);
    va_end(ap); va_end(aq);
    D->loglen += n;
    D->log[D->loglen++] = '\n';
}
#define L(...) do {wires(); Lraw(__VA_ARGS__);} while(0)

static void flush(void) {
    size_t off = 0;
    while(off < D->loglen) {
        ssize_t n = syscall(SYS_write, D->logfd, D->log + off, D->loglen - off);
        if(n <= 0) break;
        off += n;
    }
    D->loglen = 0;
}

static void die(const char *why) {
    if(D) {D->quiet = 0; Lraw("{\"e\":\"X\",\"why\":\"%s\"}", why); flush();}
    _exit(1);
}
static void onsig(int sig) {
    static volatile int again;
    if(again++) _exit(1);
    die(sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : "signal");
}
static void oops(const char *w) {if(!D->bad) strcpy(D->why, w); D->bad++;}

static unsigned R32(void) {
    D->rng ^= D->rng << 13; D->rng ^= D->rng >> 7; D->rng ^= D->rng << 17;
    return (unsigned)((D->rng * 0x2545F4914F6CDD1DULL) >> 32);
}
static int R(int n) {return n <= 0 ? 0 : (int)(R32() % (unsigned)n);}
static int P(int pct) {return R(100) < pct;}

static const char *en(int e) {
    static char b[4][32]; static int i;
    switch(e) {
#define E(x) case x: return #x;
    case 0: return "0"; case EDOM: return "unset";
    E(EPIPE) E(ETIMEDOUT) E(ECANCELED) E(EBADF) E(ENOTSUP) E(EMSGSIZE) E(EINVAL) E(ENOMEM)
    E(EBUSY) E(EMFILE) E(ENFILE) E(ENOBUFS) E(ECONNRESET) E(EPROTO) E(EACCES) E(EADDRNOTAVAIL) E(EAGAIN)
    E(ENOTSOCK) E(ENAMETOOLONG) E(EADDRINUSE) E(ECONNREFUSED) E(ECONNABORTED) E(ENETUNREACH)
    E(EHOSTUNREACH) E(EIO) E(EAFNOSUPPORT) E(ENOENT) E(EPERM) E(EINTR) E(EFAULT) E(EPROTOTYPE) E(ENODEV)
    }
    i = (i + 1) % 4; sprintf(b[i], "E%d", e); return b[i];
}

/* user-supplied memory with red zones */
#define RZ 64
static void *umem(size_t n) {
    unsigned char *p = malloc(n + 2 * RZ + 16);
    memset(p, 0x77, n + 2 * RZ + 16);
    return p + RZ;
}
static void checkrz(void *q, size_t n, const char *w) {
    unsigned char *p = q; int i;
    for(i = 1; i <= RZ; ++i) if(p[-i] != 0x77) {oops(w); return;}
    for(i = 0; i != RZ; ++i) if(p[n + i] != 0x77) {oops(w); return;}
}
static void ufree(void *q) {free((char*)q - RZ);}
/* memory that the library must not touch any more */
static void retire(void *q, size_t n) {
    checkrz(q, n, "user memory overrun");
    memset(q, 0xcc, n);
    if(D->nm < 800) {D->M[D->nm].p = q; D->M[D->nm].n = n; D->M[D->nm].base = q; ++D->nm;}
}

/******************************************************************************/
/*  Bytes                                                                     */
/******************************************************************************/

static unsigned char pbyte(int v, int off) {
    if(v >= 1000) return 97 + ((v * 7 + off * 5 + (off / 26) * 3) % 26);
    return (v * 101 + off * (2 * (v % 61) + 35) + (off / 256) * 59 + 13) % 256;
}
/* a fresh pattern */
static struct pat *newpat(int text, size_t n) {
    if(D->np == MAXPAT) die("driver: patterns");
    struct pat *p = &D->P[D->np++];
    size_t i;
    p->v = (text ? 1000 : 0) + (D->vid++ % 900);
    p->n = n; p->p = malloc(n + 1);
    for(i = 0; i != n; ++i) p->p[i] = pbyte(p->v, i);
    return p;
}

struct sb {char *p; size_t n, c;};
static void sbf(struct sb *s, const char *fmt, ...) {
    va_list ap; char t[128];
    va_start(ap, fmt); int l = vsnprintf(t, sizeof(t), fmt, ap); va_end(ap);
    if(s->n + l + 1 > s->c) {s->c = s->c * 2 + l + 200; s->p = realloc(s->p, s->c);}
    memcpy(s->p + s->n, t, l + 1); s->n += l;
}
/* Describe bytes as a rope. */
static char *rope(const unsigned char *b, size_t n, int *hv, size_t *ho) {
    static char *ring[6]; static int ri; struct sb s = {0};
    size_t i = 0, lits = 0; int first = 1, inlit = 0, dv = -1; size_t dofs = 0;
    if(!hv) {hv = &dv; ho = &dofs;}
    sbf(&s, "[");
    while(i < n) {
        size_t best = 0, boff = 0; struct pat *bp = NULL; int k;
        if(*hv >= 0 && *hv < D->np) {
            struct pat *p = &D->P[*hv];
            while(*ho + best < p->n && i + best < n && p->p[*ho + best] == b[i + best]) ++best;
            if(best) {bp = p; boff = *ho;}
        }
        /* (a stray match of a byte or two would only cut the longer run) */
        if(best < 8) {
            for(k = D->np - 1; k >= 0; --k) {
                struct pat *p = &D->P[k]; size_t m = 0;
                while(m < p->n && i + m < n && p->p[m] == b[i + m]) ++m;
                if(m > best && (m >= 6 || m == p->n || best)) {best = m; bp = p; boff = 0;}
            }
        }
        if(best < 12 && n - i >= 12) {
            for(k = D->np - 1; k >= 0; --k) {
                struct pat *p = &D->P[k]; unsigned char *f;
                if(p->n < 12) continue;
                f = memmem(p->p, p->n, b + i, 12);
                if(f) {
                    size_t o = f - p->p, m = 0;
                    while(o + m < p->n && i + m < n && p->p[o + m] == b[i + m]) ++m;
                    if(m > best) {best = m; bp = p; boff = o;}
                }
            }
        }
        if(best) {
            if(inlit) {sbf(&s, "]"); inlit = 0;}
            sbf(&s, "%s[%d,%zu,%zu]", first ? "" : ",", bp->v, boff, best); first = 0;
            *hv = bp - D->P; *ho = boff + best;
            if(*ho == bp->n) *hv = -1;
            i += best;
            continue;
        }
        if(lits >= 1500) {
            if(inlit) {sbf(&s, "]"); inlit = 0;}
            sbf(&s, "%s[-2,%zu]", first ? "" : ",", n - i); first = 0;
            break;
        }
        if(!inlit) {sbf(&s, "%s[-1", first ? "" : ","); inlit = 1; first = 0;}
        sbf(&s, ",%d", b[i]); ++i; ++lits;
    }
    if(inlit) sbf(&s, "]");
    sbf(&s, "]");
    ri = (ri + 1) % 6; free(ring[ri]); ring[ri] = s.p;
    return s.p;
}

static size_t edge(void) {
    static const size_t e[] = {1, 2, 3, 7, 31, 32, 33, 124, 125, 126, 127, 128, 255, 256, 257, 511, 512, 513,
        1023, 1024, 1025, 1983, 1984, 1985, 2000};
    return e[R(sizeof(e) / sizeof(e[0]))];
}
static size_t rsize(void) {
    int r = R(100);
    if(D->m->conns > 40 && r < 90) return 1 + R(3);  /* leaves the rest in the buffer */
    if(r < D->m->big) {
        r = R(10);
        if(r < 4) return 1980 + R(10);
        if(r < 7) return 2000 + R(4000);
        if(r < 9) return 65530 + R(12);
        return 3968 + R(3);
    }
    if(r < 60) return 1 + R(20);
    if(r < 85) return edge() % 600;
    if(r < 92) return edge();
    return 0;
}

/******************************************************************************/
/*  Connections                                                               */
/******************************************************************************/

static int topof(int k) {   /* the object that users of connection k see */
    int i;
    for(i = D->no - 1; i >= 0; --i) if(D->O[i].k == k && D->O[i].st == 0) return i;
    return -1;
}

static struct conn *newconn(struct vkobj *o, int fam) {
    if(D->nc == MAXCC) die("driver: connections");
    struct conn *c = &D->C[D->nc];
    memset(c, 0, sizeof(*c));
    c->k = D->nc++; c->o = o; c->fam = fam; c->hv = -1; c->fd = -1;
    o->refs++; o->held = 1;
    c->text = (D->m->what & (M_FRAME | M_HTTP | M_WS | M_SOCKS)) ? 1 : 0;
    int frag = D->script ? D->scfrag : P(60);
    o->merge = !frag;
    o->txcall = frag && P(50) ? 1 + R(P(50) ? (P(20) ? 20 : 300) : 3000) : 0;
    o->txwin = D->script ? D->scwin : P(50) ? -1 : R(60);
    o->user_frag = frag;
    return c;
}
static void lognew(struct conn *c, int w, const char *est) {
    L("{\"e\":\"n\",\"c\":%d,\"k\":%d,\"win\":%ld,\"frag\":%d,\"est\":\"%s\"}", w, c->k, c->o->txwin,
        c->o->user_frag, est);
}

/* Log what the library has done to the connections. */
static unsigned char *canon(struct conn *c, const unsigned char *d, size_t n);
static void wiresudp(struct conn *c);
static void wirestls(struct conn *c);
static void gentls(struct conn *c);
static void dotls(int w);
static int envudp(struct conn *c);
static void do_uopen(int w);
static void doudp(int w);
static void do_he(int w);
static void do_addr(int w);
static void addrline(const char *t);
static int dnsstep(void);
static void dnsconf(void);
static void dnsconfon(void);
static FILE *dnsfile(const char *p);
static void dnssend(struct vkobj *o);
static void dnsline(int w, const char *s);
static int dnsconnect(int fd, struct vkobj *o, const struct sockaddr *a, socklen_t l);
static void do_dns(int w);
static void wires(void) {
    int i;
    for(i = 0; i != D->nc; ++i) {
        struct conn *c = &D->C[i]; struct vkobj *o = c->o;
        if(c->udp) {wiresudp(c); continue;}
        if(c->tls) {wirestls(c); continue;}
        int sh = o->txshut && !c->sh, cl = o->refs == 1 && o->closed && !c->cl;
        size_t n = o->txlen - c->txseen;
        if(!n && !sh && !cl) continue;
        c->sh |= sh; c->cl |= cl;
        char f[200]; int l = 0; f[0] = 0;
        while(c->fdseen < o->ntxfds) {
            l += sprintf(f + l, "%s%d", l ? "," : "", o->txfds[c->fdseen]); ++c->fdseen;}
        unsigned char *b = n && (c->hs == 1 || c->wo.on) ? canon(c, o->tx + c->txseen, n) : NULL;
        Lraw("{\"e\":\"w\",\"k\":%d,\"d\":%s,\"f\":[%s],\"sh\":%d,\"cl\":%d,\"rst\":%d}", c->k,
            rope(b ? b : o->tx + c->txseen, n, &c->hv, &c->ho), f, sh, cl, cl ? o->rst : 0);
        free(b);
        c->txseen = o->txlen;
    }
}

/* Planned input of a connection; rec: how it is recorded. */
static void plan2(struct conn *c, const void *d, const void *rec, size_t n) {
    if(c->npl + n > c->cpl) {c->cpl = (c->npl + n) * 2; c->pl = realloc(c->pl, c->cpl); c->pc = realloc(c->pc, c->cpl);}
    memcpy(c->pl + c->npl, d, n); memcpy(c->pc + c->npl, rec, n); c->npl += n;
}
static void plan(struct conn *c, const void *d, size_t n) {plan2(c, d, d, n);}
static void noteplan(struct conn *c, size_t n) {
    memmove(c->lastmsg + 1, c->lastmsg, 3 * sizeof(size_t)); c->lastmsg[0] = n;
}

/* content for a message on text connections: no byte sequence needs care */
static size_t content(unsigned char *b, size_t n, const unsigned char *del, size_t ndel) {
    /* mostly a pattern, sometimes pieces of the delimiter in between */
    if(n == 0) return 0;
    if(ndel && P(40)) {
        size_t i = 0;
        while(i < n) {
            size_t m = 1 + R(ndel); int j;
            if(P(50)) {for(j = 0; j < (int)m && i < n; ++j) b[i++] = 97 + R(26);}
            else {for(j = 0; j < (int)m && i < n; ++j) b[i++] = del[j];}
            if(i > 60) break;
        }
        if(i < n) memcpy(b + i, newpat(1, n - i)->p, n - i);
        return n;
    }
    memcpy(b, newpat(1, n)->p, n);
    return n;
}
static int has(const unsigned char *b, size_t n, const unsigned char *d, size_t nd) {
    return nd && memmem(b, n, d, nd) != NULL;
}

/* puts one unit of what the object expects to receive into the plan */
static void frame(struct conn *c, struct ob *o, const unsigned char *b, size_t n) {
    unsigned char h[8]; int i; size_t v = n;
    switch(o->ty) {
    case T_PREFIX:
        if(P(2)) v += R(3) ? R(300) : 1 << R(30);
        for(i = 0; i != o->hdr; ++i) {
            h[o->be ? o->hdr - i - 1 : i] = i < 8 ? (v >> (8 * i)) & 0xff : 0;}
        plan(c, h, o->hdr); plan(c, b, n);
        break;
    case T_SUFFIX:
        plan(c, b, n); plan(c, o->del, o->ndel);
        break;
    case T_TERM:
        frame(c, &D->O[o->u], b, n);
        break;
    default:
        plan(c, b, n);
    }
}
static size_t maxmsg(struct ob *o) {
    if(o->ty == T_PREFIX && o->hdr == 1) return 255;
    if(o->ty == T_TERM) return maxmsg(&D->O[o->u]);
    return 70000;
}

static void genhttp(struct conn *c);
static void genhs(struct conn *c);
static void genws(struct conn *c, struct ob *o);

static void genplan(struct conn *c) {
    int t = topof(c->k);
    struct ob *o = t < 0 ? NULL : &D->O[t];
    if(c->hs) {genhs(c); return;}
    if((D->m->what & M_SOCKS) && c->s5 != 2 && P(99)) {
        if(c->s5 && P(25) && !vk_pending()) c->planend = 1;
        return;
    }
    if(o && o->ty == T_HTTP) {genhttp(c); return;}
    if(o && o->ty == T_WS) {genws(c, o); return;}
    /* (bytes must not be there before it is known what they will be) */
    if((D->m->what & (M_HTTP | M_WS)) && !(D->m->what & M_BASE) && !c->npl) return;
    if(o && o->ty >= T_PREFIX) {
        size_t n = rsize();
        if(n > maxmsg(o)) n = maxmsg(o);
        const unsigned char *del = o->del; size_t ndel = o->ndel;
        struct ob *q = o; while(q->ty == T_TERM) q = &D->O[q->u];
        if(q->ty == T_SUFFIX && o->ty == T_TERM && P(60)) {del = q->del; ndel = q->ndel;}
        unsigned char *b = malloc(n + 100);
        int tries;
        for(tries = 0; ; ++tries) {
            if(o->ty == T_TERM && P(12)) {
                n = o->ndel; memcpy(b, o->del, n);         /* the terminal message */
            }
            else if(o->ty == T_TERM && o->ndel && P(15)) { /* nearly */
                n = o->ndel; memcpy(b, o->del, n);
                int r = R(3);
                if(r == 0) b[n++] = 'x'; else if(r == 1) --n; else b[R(n)] = 'q';
            }
            else content(b, n, del, ndel);
            if(q->ty == T_SUFFIX && has(b, n, q->del, q->ndel) && tries < 5) continue;
            break;
        }
        frame(c, o, b, n);
        noteplan(c, n);
        free(b);
        return;
    }
    size_t n = rsize();
    if(D->m->conns > 40) {
        if(c->dpl && P(95)) return;
        n += 8 + R(20);
    }
    struct pat *p = newpat(c->text, n);
    plan(c, p->p, n);
    noteplan(c, n);
}

static void endin(struct conn *c, int how) {
    c->ended = 1;
    if(how == 1) c->o->rxeof = 1; else c->o->rxerr = ECONNRESET;
    L("{\"e\":\"z\",\"k\":%d,\"x\":\"%s\"}", c->k, how == 1 ? "EPIPE" : "ECONNRESET");
    if(how != 1 && !c->o->txerr) {
        c->o->txerr = EPIPE;
        L("{\"e\":\"y\",\"k\":%d,\"x\":\"EPIPE\"}", c->k);
    }
}

/* Something happens on a connection. Returns 0 if nothing can. */
static int envconn(struct conn *c) {
    struct vkobj *o = c->o;
    if(c->cl) return 0;
    if(c->udp) return envudp(c);
    if(c->es) {
        if(P(50)) return 0;
        static const int ee[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH};
        int e = P(60) ? 0 : ee[R(4)];
        c->es = 0; o->connecting = 0; o->soerr = e; o->connected = !e;
        L("{\"e\":\"es\",\"k\":%d,\"x\":\"%s\"}", c->k, e ? en(e) : "ok");
        return 1;
    }
    int r = R(100);
    if(r < D->m->err && (D->m->conns <= 40 || P(10))) {
        r = R(4);
        if(r == 0 && !c->ended) {endin(c, 1); return 1;}
        if(r == 1 && !c->ended) {endin(c, 2); return 1;}
        if(!o->txerr && !o->txshut) {
            o->txerr = P(50) ? EPIPE : ECONNRESET;
            L("{\"e\":\"y\",\"k\":%d,\"x\":\"%s\"}", c->k, en(o->txerr));
            /* a reset kills both directions */
            if(o->txerr == ECONNRESET && !c->ended) endin(c, 2);
            return 1;
        }
        return 0;
    }
    if(o->txwin >= 0 && r < 50) {
        o->txwin = P(25) ? -1 : o->txwin + 1 + R(P(80) ? 60 : 3000);
        L("{\"e\":\"W\",\"k\":%d,\"n\":%ld}", c->k, o->txwin);
        return 1;
    }
    if(c->ended) return 0;
    if(c->dpl == c->npl) {
        if(c->planend) {endin(c, c->planend); return 1;}
        if(D->m->what & M_TLS) {gentls(c); if(c->dpl == c->npl) return 0;} else
        genplan(c);
        if(D->m->conns > 40 && c->dpl == c->npl) return 0;
        if(P(D->m->what & M_CLOSE ? 12 : 2)) c->planend = P(80) ? 1 : 2;
        if(c->dpl == c->npl) return 0;
    }
    size_t n = c->npl - c->dpl;
    if(D->m->conns <= 40 && P(60)) n = 1 + R(n > 30 && P(60) ? 30 : n);
    /* a descriptor may travel with the data */
    char f[100]; f[0] = 0;
    vk_rx(o, c->pl + c->dpl, n);
    if(c->fam == 1 && !o->merge && P(D->m->what & M_IPC ? 45 : 0)) {
        int i, nf = P(80) ? 1 : 2 + R(2);
        for(i = 0; i != nf; ++i) {
            o->rxt->fdo[i] = vk_mkobj(VK_READY);
            if(i == 0) sprintf(f, "[0,%d]", o->rxt->fdo[i]->id);
        }
        o->rxt->nfd = nf;
    }
    static int hv; static size_t ho; hv = -1;
    if(c->tls) L("{\"e\":\"ti\",\"k\":%d,\"n\":%zu}", c->k, n);
    else L("{\"e\":\"i\",\"k\":%d,\"d\":%s,\"f\":[%s]}", c->k, rope(c->pc + c->dpl, n, &hv, &ho), f);
    c->dpl += n;
    return 1;
}

static void advance(int64_t ms) {
    if(ms <= 0) return;
    vkp->clk += ms; vkp->tsc += ms * 3000000;
    L("{\"e\":\"t\",\"d\":%lld}", (long long)ms);
}

static int incoming(int l);

static int eyestep(void);
static void heend(struct conn *c, int e);
static void heanswer(int w, int fam, const char *lt);
static int envstep(void) {
    int tries;
    if(D->m->what & M_EYES) return eyestep();
    if(D->m->what & M_DNS) return dnsstep();
    for(tries = 0; tries != 8; ++tries) {
        int i = R(D->nc + (D->m->what & M_MAKE ? 3 : 0));
        if(i < D->nc) {if(envconn(&D->C[i])) return 1;}
        else {
            int n = 0, p = -1, j;
            for(j = 0; j != D->no; ++j) if((D->O[j].ty == T_TCPL || D->O[j].ty == T_IPCL) && D->O[j].st == 0 && R(++n) == 0) p = j;
            if(p >= 0 && incoming(p)) return 1;
        }
    }
    return 0;
}

static int opengate(void) {
    int i, n = 0, p = -1;
    if(D->stop || D->budget <= 0) return 0;
    for(i = 1; i <= D->nw; ++i)
        if(D->W[i].used && !D->W[i].busy && !D->W[i].gopen && !D->W[i].cancelled && R(++n) == 0) p = i;
    if(p < 0) return 0;
    D->W[p].gopen = 1;
    vkp->fd[D->W[p].gate]->in = 1;
    return 1;
}

static void pooladdr(struct ipaddr *a, int fam, int x);
static int abytes(const struct sockaddr *s, unsigned char *b);
static char *alist(const unsigned char *b, int n);
static void accepts(const char *key, char *acc);
static void takebytes(struct conn *c, const char *s) {
    unsigned char b[600]; size_t n = 0;
    while(*s && n < sizeof(b)) {b[n++] = strtoul(s, (char**)&s, 10); if(*s) ++s;}
    char *r = rope(b, n, NULL, NULL);
    if(c->hs == 1 && c->key[0]) {    /* the token stands for the answer to the key */
        char tok[28], acc[40]; memset(tok, 'A', 28); accepts(c->key, acc);
        unsigned char *f = memmem(b, n, tok, 28);
        if(f) memcpy(f, acc, 28);
    }
    vk_rx(c->o, b, n);
    L("{\"e\":\"i\",\"k\":%d,\"d\":%s,\"f\":[]}", c->k, r);
}
static int tlsend(struct conn *c), tlsput(struct conn *c, size_t n, int how);
static void tlsarrive(struct conn *c, size_t n) {
    vk_rx(c->o, c->pl + c->dpl, n);
    L("{\"e\":\"ti\",\"k\":%d,\"n\":%zu}", c->k, n);
    c->dpl += n;
}
static void opengatew(int w) {D->W[w].gopen = 1; vkp->fd[D->W[w].gate]->in = 1;}

/* The next line of the script; 0 if it has ended. */
static int nextline(int *to) {
    while(D->iscript < D->nscript) {
        char *s = D->script[D->iscript++]; int k, n, m;
        struct conn *c = NULL;
        if(s[0] == 'C') {
            n = atoi(s + 2);
            if(n < 1 || n > D->nw || D->W[n].busy || D->W[n].gopen || D->W[n].cancelled || D->W[n].ended) continue;
            snprintf(D->cmd[n], sizeof(D->cmd[n]), "%s", s);
            opengatew(n);
            return 1;
        }
        if(s[0] == 'X') {
            n = atoi(s + 2);
            if(n < 1 || n > D->nw || D->W[n].cancelled || D->W[n].ended) continue;
            D->xw = n; opengatew(0);
            return 1;
        }
        if(s[0] != '@') continue;
        if(s[1] == 't') {
            m = atoi(s + 3);
            advance(m);
            if(*to >= 0) *to = m >= *to ? 0 : *to - m;
            return 1;
        }
        if(s[1] == 'n') {
            if(sscanf(s + 3, "%d %n", &n, &k) == 1) dnsline(n, s + 3 + k);
            return 1;
        }
        if(s[1] == 'a') {
            if(sscanf(s + 3, "%d %d %n", &n, &m, &k) == 2) heanswer(n, m, s + 3 + k);
            return 1;
        }
        k = atoi(s + 3);
        if(k < 0 || k >= D->nc || D->C[k].cl) continue;
        c = &D->C[k]; s = strchr(s + 3, ' ');
        char kind = D->script[D->iscript - 1][1];
        if(kind == 'i' && s && !c->ended) takebytes(c, s + 1);
        if(kind == 'z' && s && !c->ended) endin(c, atoi(s + 1));
        if(kind == 'c' && s && c->es && c->o->refs > 1) heend(c, (int[]){0, ECONNREFUSED, ETIMEDOUT}[atoi(s + 1) % 3]);
        if(kind == 'y' && !c->o->txerr) {
            c->o->txerr = EPIPE;
            L("{\"e\":\"y\",\"k\":%d,\"x\":\"EPIPE\"}", c->k);
        }
        if(c->udp && strchr("dru", kind) && s) {
            int x = atoi(s + 1); size_t z = 0; struct ipaddr a; unsigned char b[20];
            if(kind == 'd') {
                pooladdr(&a, c->fam, x); s = strchr(s + 1, ' '); if(s) z = atoi(s + 1);
                struct pat *p = newpat(0, z);
                vk_rxdgram(c->o, p->p, z, ipaddr_sockaddr(&a), ipaddr_len(&a));
                x = abytes(ipaddr_sockaddr(&a), b);
                L("{\"e\":\"ui\",\"k\":%d,\"a\":%s,\"d\":%s}", k, alist(b, x), rope(p->p, z, NULL, NULL));
            }
            if(kind == 'r') {c->o->rxerr = ECONNREFUSED; L("{\"e\":\"ux\",\"k\":%d,\"x\":\"ECONNREFUSED\"}", k);}
            if(kind == 'u') {c->o->txerr = x ? EPERM : 0; L("{\"e\":\"uy\",\"k\":%d,\"x\":\"%s\"}", k, x ? "EPERM" : "");}
            return 1;
        }
        if(c->tls && strchr("dxrc", kind)) {
            if(!c->ended && c->dpl == c->npl) {
                if(kind == 'c') tlsend(c); else if(s) tlsput(c, atoi(s + 1), kind);
            }
            return 1;
        }
        if(kind == 'f' && s && c->tls) {
            size_t z = c->npl - c->dpl, y = atoi(s + 1);
            if(!c->ended && z) tlsarrive(c, y && y < z ? y : z);
            return 1;
        }
        if(kind == 'W' && s) {
            c->o->txwin = atoi(s + 1);
            L("{\"e\":\"W\",\"k\":%d,\"n\":%ld}", c->k, c->o->txwin);
        }
        return 1;
    }
    return 0;
}

static int hook_script(int to) {
    vkp->countdown = 0; vkp->sysdown = 0;
    L("{\"e\":\"p\",\"to\":%lld,\"s\":%d}", (long long)(to < 0 ? -1 : to), !vk_pending());
    if(++D->polls > 20000) die("polls without end");
    if(D->tlsauto) {
        int i;
        for(i = 0; i != D->nc; ++i) {
            struct conn *c = &D->C[i];
            if(!c->cl && c->tls && !c->ended && c->npl > c->dpl) tlsarrive(c, c->npl - c->dpl);
        }
        return 0;
    }
    while(to != 0) {
        if(vk_pending()) return 0;
        if(!nextline(&to)) {
            if(!D->stop) {D->stop = 1; opengatew(0);}
            if(vk_pending()) return 0;
            if(to < 0) die("sleeps forever");
            advance(to);
            return 0;
        }
    }
    return 0;
}

static int hook(int to) {
    int i;
    if(D->script) return hook_script(to);
    if(!(D->m->what & (M_EYES | M_DNS))) {vkp->countdown = 0; vkp->sysdown = 0;}
    L("{\"e\":\"p\",\"to\":%lld,\"s\":%d}", (long long)(to < 0 ? -1 : to), !vk_pending());
    if(++D->polls > 20000) die("polls without end");
    if(D->polls > 3000) advance(1);
    if(P(2)) return -1;
    if(to == 0) {if(P(5)) envstep(); return 0;}
    for(i = 0; i != 60; ++i) {
        if(vk_pending()) {
            if(P(15)) envstep();
            if(P(D->m->late)) advance(1 + R(6));
            return 0;
        }
        int r = R(100);
        if(r < 35 && opengate()) continue;
        if(r < 90 && envstep()) continue;
        if(to > 0 && (i > 5 || P(20))) {
            if(P(50)) {advance(to + (P(20) ? R(3) : 0)); return 0;}
            int d = R(to); advance(d); to -= d;
            if(P(10)) return -1;
        }
    }
    if(to < 0) die("sleeps forever");
    advance(to);
    return 0;
}
static void after(int n, int trunc, struct epoll_event *evs) {
    L("{\"e\":\"q\",\"n\":%d}", n);
}

/******************************************************************************/
/*  Calls                                                                     */
/******************************************************************************/

struct list {
    int bk; int n; struct iolist it[12], save[12]; struct iolist *first, *last;
    unsigned char *buf[12]; size_t total; char b[300]; int single; size_t vis;
};

/* Cuts `total` bytes into a buffer list. data: what to put in, NULL for
   receiving; bk: the kind of malformation. */
static void mklist_(struct list *l, size_t total, const unsigned char *data, int bk, const char *sc) {
    int i, n; size_t left = total; int len = 0;
    memset(l, 0, sizeof(*l));
    l->bk = bk; l->total = total;
    n = P(50) ? 1 : 1 + R(5);
    if(sc) for(n = 1, i = 0; sc[i]; ++i) n += sc[i] == ',';
    if(bk > 2 && n < 2) n = 2 + R(3);
    l->single = n == 1 && bk == 0 && P(60);
    if(sc && strchr(sc, 'n')) l->single = 0;
    l->b[0] = 0;
    if(bk == 2) return;
    for(i = 0; i != n; ++i) {
        size_t z = i == n - 1 ? left : P(15) ? 0 : left ? (P(70) ? R(left < 1000000 ? left + 1 : 1000000) : left) : 0;
        int null = !data && z && P(12);
        if(sc) {z = strtoul(sc, (char**)&sc, 10); null = *sc == 'n'; if(*sc) ++sc; if(*sc == ',') ++sc;}
        left -= z;
        l->buf[i] = null ? NULL : umem(z);
        if(data) memcpy(l->buf[i], data + (total - left - z), z);
        else if(!null) memset(l->buf[i], 0x3b, z);
        if(!null) l->vis += z;
        l->it[i].iol_base = z || P(50) ? l->buf[i] : NULL;
        l->it[i].iol_len = z;
        l->it[i].iol_next = i == n - 1 ? NULL : &l->it[i + 1];
        l->it[i].iol_rsvd = 0;
        len += sprintf(l->b + len, "%s[%zu,%d]", i ? "," : "", z, null ? 0 : 1);
    }
    l->n = n; l->first = &l->it[0]; l->last = &l->it[n - 1];
    switch(bk) {
    case 1: l->first = NULL; break;
    case 3: l->last = NULL; break;
    case 4: l->last = &l->it[n - 2]; break;                 /* not its end */
    case 5: l->it[n - 1].iol_next = &l->it[R(n)]; l->last = &l->it[R(n)]; break;
    case 6: l->it[n - 2].iol_next = NULL; break;            /* ends too early */
    case 7: l->it[n - 2].iol_next = &l->it[R(n - 1)]; break;/* loops before the last one */
    }
    memcpy(l->save, l->it, sizeof(l->it));
}
static void mklist(struct list *l, size_t total, const unsigned char *data, int bk) {
    mklist_(l, total, data, bk, NULL);
}
/* collects what was received; 0 if the list was changed */
static int endlist(struct list *l, unsigned char *out, size_t *nout, size_t got) {
    int i, ok = !memcmp(l->save, l->it, sizeof(struct iolist) * l->n);
    size_t k = 0;
    for(i = 0; i != l->n; ++i) {
        size_t z = l->it[i].iol_len; if(z > l->save[i].iol_len) z = l->save[i].iol_len;
        z = l->save[i].iol_len;
        size_t m = z < got ? z : got;
        if(l->buf[i]) {
            if(out) {memcpy(out + k, l->buf[i], m); k += m;}
            checkrz(l->buf[i], z, "write outside of a buffer");
            ufree(l->buf[i]);
        }
        got -= m;
    }
    if(nout) *nout = k;
    return ok;
}

static int64_t deadline(int w) {
    int r = R(100); int64_t n = vkp->clk;
    if(D->sc) return D->scdl < 0 ? -1 : n + D->scdl;
    if(w != 0 && r < 55) return -1;
    if(r < 62) return 0;
    if(r < 70) return n;
    if(r < 90) return n + 5 + R(60);
    return n + 1 + R(8);
}

static void logc(int w, const char *o, int s, const char *t, int bk, const char *b, const char *d,
      const char *a, int64_t dl, int k) {
    L("{\"e\":\"c\",\"c\":%d,\"o\":\"%s\",\"s\":%d,\"t\":\"%s\",\"bk\":%d,\"b\":[%s],\"d\":%s,\"a\":[%s],\"dl\":%lld,\"k\":%d}",
        w, o, s, t, bk, b, d, a, (long long)dl, k);
    D->curw = w; D->sc = 0;
    vkp->tripped = 0;
    if((D->m->what & M_INJ) && P(25)) {
        if(P(50)) vkp->countdown = 1 + R(4);
        else {vkp->sysdown = 1 + R(3); vkp->syserr = P(50) ? EMFILE : ENOBUFS;}
    }
    errno = EDOM;
}
static void logr(int w, const char *o, long r, int e, const char *d, int l, int h, int h2, int64_t t0) {
    vkp->countdown = 0; vkp->sysdown = 0;
    if(vkp->tripped) {D->trips++; vkp->tripped = 0;}
    L("{\"e\":\"r\",\"c\":%d,\"o\":\"%s\",\"r\":%ld,\"x\":\"%s\",\"d\":%s,\"l\":%d,\"h\":%d,\"h2\":%d,\"tr\":%d}",
        w, o, r, r < 0 ? en(e) : "0", d, l, h, h2, D->trips != t0);
}

static int newob(int h, int ty, int u, int k) {
    if(D->no == MAXO) die("driver: objects");
    struct ob *o = &D->O[D->no];
    memset(o, 0, sizeof(*o));
    o->h = h; o->ty = ty; o->u = u; o->k = k;
    return D->no++;
}
static void retireob(struct ob *o) {
    int i, other = 0;
    if(!o->mem) return;
    if(!o->mem2) retire(o->mem, o->memsz);
    else {
        /* one half of a pair: no red zone between the two */
        for(i = 0; i != D->no; ++i) if(&D->O[i] != o && D->O[i].mem2 == o->mem2 && D->O[i].mem) other = 1;
        memset(o->mem, 0xcc, o->memsz);
        if(!other) checkrz(o->mem2, sizeof(struct ipc_pair_storage), "user memory overrun");
        if(D->nm < 800) {D->M[D->nm].p = o->mem; D->M[D->nm].n = o->memsz; D->M[D->nm].base = other ? NULL : o->mem2; ++D->nm;}
    }
    o->mem = NULL;
}
static void release(int i) {   /* the object and all below it are gone */
    while(i >= 0) {
        struct ob *o = &D->O[i];
        o->st = 2;
        retireob(o);
        i = o->u;
    }
}

static int badkind(void) {return !D->sc && P(D->m->bad) ? (int[]){1, 3, 4, 5, 6, 7}[R(6)] : 0;}
#define T0 int64_t t0 = D->trips + 0 * (vkp->tripped ? D->trips++ : 0)

static void do_bsend(int w, int i, int msg) {
    struct ob *o = &D->O[i]; struct list l; int64_t dl = deadline(w);
    size_t n = rsize();
    int text = D->C[o->k].text;
    if(D->sc) n = atoi(D->scarg);
    if(msg && n > 2000 && !P(30)) n = 1 + R(100);
    unsigned char *b = malloc(n + 100);
    if(msg) {
        if(o->ty == T_PREFIX && o->hdr == 1 && P(90) && n > 255) n %= 256;
        if(o->ty == T_TERM && maxmsg(o) == 255 && P(90)) n %= 256;
        struct ob *q = o; while(q->ty == T_TERM) q = &D->O[q->u];
        int tries = 0;
        do content(b, n, o->ndel ? o->del : q->del, o->ndel ? o->ndel : q->ndel);
        while((o->ty == T_TERM && n == o->ndel && !memcmp(b, o->del, n) && n && ++tries));
        if(o->ty == T_TERM && n == 0 && !D->sc) {n = 1; b[0] = 'z';}
        if(q->ty == T_SUFFIX && has(b, n, q->del, q->ndel)) {memset(b, 'k', n < 30 ? n : 30); if(n > 30) n = 30;}
    }
    else memcpy(b, newpat(text, n)->p, n);
    int bk = badkind();
    if(!bk && !D->sc && P(D->m->bad / 3)) bk = 2;
    mklist(&l, n, b, bk);
    int h = o->h; T0;
    o->sb++;
    const char *op = msg ? "msend" : "bsend";
    logc(w, op, i, "", l.bk, l.b, bk == 2 ? "[]" : rope(b, n, NULL, NULL), "", dl, -1);
    int rc = l.single ? (msg ? msend(h, l.buf[0], n, dl) : bsend(h, l.buf[0], n, dl)) :
        msg ? msendl(h, l.first, l.last, dl) : bsendl(h, l.first, l.last, dl);
    int e = errno;
    D->O[i].sb--;
    if(rc < 0 && e != EBUSY && e != EINVAL) D->O[i].dead |= 2;
    int ok = endlist(&l, NULL, NULL, 0);
    logr(w, op, rc, e, "[]", ok, -1, -1, t0);
    free(b);
}

static void do_recv(int w, int i, int msg) {
    struct ob *o = &D->O[i]; struct list l; int64_t dl = deadline(w);
    size_t n = rsize();
    struct conn *c = o->k >= 0 ? &D->C[o->k] : NULL;
    if(msg && P(65)) {n = c->lastmsg[R(4)]; int r = R(4); if(r == 1) ++n; if(r == 2 && n) --n; if(r == 3) n += R(100);}
    int bk = badkind(); const char *sc = D->sc ? D->scarg : NULL;
    if(!sc && !bk && P(msg ? 8 : 1) && !(c && c->tls && o->ty != T_TLS)) bk = 2;
    if(sc && !strcmp(sc, "-")) bk = 2;
    if(sc) {
        const char *q = sc; n = 0;
        while(*q) {n += strtoul(q, (char**)&q, 10); while(*q && (*q < '0' || *q > '9')) ++q;}
    }
    mklist_(&l, n, NULL, bk, bk == 2 ? NULL : sc);
    if(l.single && !l.buf[0]) l.single = 0;
    int h = o->h; T0;
    o->rb++;
    const char *op = msg ? "mrecv" : "brecv";
    logc(w, op, i, "", l.bk, l.b, "[]", "", dl, -1);
    ssize_t rc = l.single ? (msg ? mrecv(h, l.buf[0], n, dl) : brecv(h, l.buf[0], n, dl)) :
        msg ? mrecvl(h, l.first, l.last, dl) : brecvl(h, l.first, l.last, dl);
    int e = errno;
    D->O[i].rb--;
    if(rc < 0 && e != EBUSY && e != EINVAL) D->O[i].dead |= 1;
    unsigned char *out = malloc(n + 1); size_t no = 0;
    size_t got = rc < 0 || bk == 2 ? 0 : msg ? (size_t)rc : n;
    int ok = endlist(&l, out, &no, got > n ? n : got);
    logr(w, op, rc, e, rope(out, no, NULL, NULL), ok, -1, -1, t0);
    free(out);
}

static void do_done(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); int rc; T0;
    const char *op = o->ty >= T_PREFIX ? "mdone" : "done";
    o->sb++;
    logc(w, op, i, "", 0, "", "[]", "", dl, -1);
    if(o->ty == T_TCP) rc = tcp_done(o->h, dl);
    else if(o->ty == T_IPC) rc = ipc_done(o->h, dl);
    else if(o->ty == T_HTTP) rc = http_done(o->h, dl);
    else rc = term_done(o->h, dl);
    int e = errno;
    D->O[i].sb--; D->O[i].done = 1;
    logr(w, op, rc, e, "[]", 1, -1, -1, t0);
}

static void do_close(int w, int i, int hard) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); int rc; T0;
    const char *op = hard ? "hclose" : "close";
    /* the other protocol's function is refused */
    int other = !hard && o->ty < T_PREFIX && !D->sc && P(5);
    int ty = o->ty;
    if(other) {ty = (ty == T_TCP || ty == T_TCPL) ? T_IPC : T_TCP; op = "closex";}
    if(!hard && o->ty >= T_PREFIX) op = "closex";
    int x = !strcmp(op, "closex");
    if(!x) o->closing = 1; else {o->rb++; o->sb++;}
    logc(w, op, i, "", 0, "", "[]", "", dl, -1);
    if(hard) rc = hclose(o->h);
    else if(ty == T_IPC || ty == T_IPCL) rc = ipc_close(o->h, dl);
    else rc = tcp_close(o->h, dl);
    int e = errno;
    if(x) {D->O[i].rb--; D->O[i].sb--;}
    else release(i);
    logr(w, op, rc, e, "[]", 1, -1, -1, t0);
}

static void pickdel(struct ob *t, int forterm) {
    static const char pool[] = "\r\n|~#\x80\xff_=+ \t;";
    int n = P(50) ? 1 + R(4) : 1 + R(8), i;
    if(P(10)) n = 32 - R(3);
    int letters = 1 + R(3);
    for(i = 0; i != n; ++i) t->del[i] = pool[R(letters) * 3 % (sizeof(pool) - 1)];
    t->ndel = n;
    if(forterm && P(35)) t->ndel = 0;
    if(!forterm && P(25)) {memcpy(t->del, "\r\n", 2); t->ndel = 2;}
}

static size_t bytes(const char *s, unsigned char *b, size_t n) {
    size_t i = 0;
    if(*s == '-') return 0;
    while(*s && i < n) {b[i++] = strtoul(s, (char**)&s, 10); if(*s) ++s;}
    return i;
}
static void scbytes(struct ob *t) {if(D->sc) t->ndel = bytes(D->scarg, t->del, 60);}

#include "net_l7.h"
#include "net_s5.h"

static void do_attach(int w, int i, int ty) {
    struct ob *o = &D->O[i]; struct ob t; char a[64]; T0;
    memset(&t, 0, sizeof(t));
    int mem = P(40), nomem = mem && P(4), rc = -1; void *m = NULL; size_t msz = 0;
    int bad = P(3), flags = 0;
    a[0] = 0;
    if(D->sc) {nomem = 0; bad = 0;}
    if(ty == T_PREFIX) {
        t.hdr = bad && P(50) ? 0 : P(30) ? 1 : 1 + R(8); t.be = R(2);
        if(D->sc) sscanf(D->scarg, "%d %d", &t.hdr, &t.be);
        flags = t.be ? PREFIX_BIG_ENDIAN : PREFIX_LITTLE_ENDIAN;
        msz = sizeof(struct prefix_storage);
        sprintf(a, "%d,%d,", t.hdr, t.be);
    }
    else if(ty == T_SUFFIX) {
        pickdel(&t, 0); scbytes(&t);
        if(bad) {t.ndel = P(50) ? 0 : 33; memset(t.del, 1, 33);}
        msz = sizeof(struct suffix_storage);
    }
    else if(ty == T_HTTP) msz = sizeof(struct http_storage);
    else {
        pickdel(&t, 1); scbytes(&t);
        if(bad) {t.ndel = 33; memset(t.del, 1, 33);}
        struct ob *q = o;
        if(q->ty == T_SUFFIX && has(t.del, t.ndel, q->del, q->ndel)) {t.ndel = 3; memcpy(t.del, "zzz", 3);}
        if(q->ty == T_SUFFIX) {
            /* the terminal message followed by the delimiter must end there */
            unsigned char b[70]; memcpy(b, t.del, t.ndel); memcpy(b + t.ndel, q->del, q->ndel);
            unsigned char *f = memmem(b, t.ndel + q->ndel, q->del, q->ndel);
            if(f != b + t.ndel) {t.ndel = 3; memcpy(t.del, "zzz", 3);}
        }
        msz = sizeof(struct term_storage);
    }
    sprintf(a + strlen(a), "%d", nomem);
    if(mem && !nomem) m = umem(msz);
    o->closing = 1;
    logc(w, "attach", i, tyname[ty], 0, "", rope(t.del, t.ndel, NULL, NULL), a, -1, -1);
    switch(ty) {
    case T_PREFIX: rc = mem ? prefix_attach_mem(o->h, t.hdr, flags, m) : prefix_attach(o->h, t.hdr, flags); break;
    case T_SUFFIX: rc = mem ? suffix_attach_mem(o->h, t.del, t.ndel, m) : suffix_attach(o->h, t.del, t.ndel); break;
    case T_HTTP: rc = mem ? http_attach_mem(o->h, m) : http_attach(o->h); break;
    case T_TERM: rc = mem ? term_attach_mem(o->h, t.del, t.ndel, m) : term_attach(o->h, t.del, t.ndel); break;
    }
    int e = errno, n = -1;
    o = &D->O[i];
    if(rc >= 0) {
        n = newob(rc, ty, i, o->k);
        struct ob *q = &D->O[n];
        memcpy(q->del, t.del, sizeof(t.del)); q->ndel = t.ndel; q->hdr = t.hdr; q->be = t.be;
        q->mem = m; q->memsz = msz;
        D->O[i].st = 1; D->O[i].closing = 0;
    }
    else {if(m) retire(m, msz); release(i);}
    logr(w, "attach", rc < 0 ? -1 : 0, e, "[]", 1, n, -1, t0);
}

static void do_detach(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); int rc = -1; T0;
    if(D->C[o->k].planend == 0 && o->ty == T_TERM && !D->sc && !D->C[o->k].ended && P(70)) {
        /* let the peer finish, too */
        frame(&D->C[o->k], o, o->del, o->ndel);
    }
    char a[40] = "", *p = NULL; int st = 0, nb = 0; size_t n = 0;
    if(D->C[o->k].planend == 0 && !D->sc && !D->C[o->k].ended && P(70)) {
        if(o->ty == T_HTTP) plan(&D->C[o->k], "\r\n", 2);
        if(o->ty == T_WS && !D->C[o->k].wsover) wsclose(&D->C[o->k], o->hdr, 1);
    }
    if(o->ty == T_WS) p = closeargs(&st, &n, a, &nb);
    o->closing = 1;
    logc(w, "detach", i, "", 0, "", p && !nb ? rope((unsigned char*)p, n, NULL, NULL) : "[]", a, dl, -1);
    switch(o->ty) {
    case T_PREFIX: rc = prefix_detach(o->h); break;
    case T_SUFFIX: rc = suffix_detach(o->h, dl); break;
    case T_TERM: rc = term_detach(o->h, dl); break;
    case T_HTTP: rc = http_detach(o->h, dl); break;
    case T_WS: rc = ws_detach(o->h, st, nb ? NULL : p, n, dl); break;
    }
    int e = errno, h = -1;
    if(p) ufree(p);
    o = &D->O[i];
    if(rc >= 0) {
        h = o->u; D->O[h].st = 0; D->O[h].h = rc; D->O[h].dead = 0;
        o->st = 2; retireob(o);
    }
    else release(i);
    logr(w, "detach", rc < 0 ? -1 : 0, e, "[]", 1, h, -1, t0);
    D->C[D->O[i].k].wo.on = 0; D->C[D->O[i].k].wsover = 0;
}

static void do_sendfd(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); char a[32]; T0;
    struct vkobj *f = vk_mkobj(VK_READY); int fd = vk_openobj(f, 200, 0), id = f->id;
    int neg = !D->sc && P(3);
    o->sb++;
    sprintf(a, "%d", neg ? -1 : id);
    logc(w, "sendfd", i, "", 0, "", "[]", a, dl, -1);
    int rc = ipc_sendfd(o->h, neg ? -1 : fd, dl), e = errno;
    D->O[i].sb--;
    if(rc < 0 && e != EBUSY && e != EINVAL) D->O[i].dead |= 2;
    if(vkp->fd[fd] != f) oops("the descriptor sent was closed"); else vk_closefd(fd);
    logr(w, "sendfd", rc, e, "[]", 1, -1, -1, t0);
}
static void do_recvfd(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); T0;
    o->rb++;
    logc(w, "recvfd", i, "", 0, "", "[]", "", dl, -1);
    int rc = ipc_recvfd(o->h, dl), e = errno; long id = -1;
    D->O[i].rb--;
    if(rc < 0 && e != EBUSY) D->O[i].dead |= 1;
    if(rc >= 0) {
        if(rc >= VK_NFDS || !vkp->fd[rc]) oops("recvfd returned a closed descriptor");
        else {id = vkp->fd[rc]->id; vk_closefd(rc);}
    }
    logr(w, "recvfd", rc < 0 ? -1 : id, e, "[]", 1, -1, -1, t0);
}

/******************************************************************************/
/*  Making sockets                                                            */
/******************************************************************************/

static int heconnect(struct vkobj *o, const struct sockaddr *a);
static int onconnect(int fd, struct vkobj *o, const struct sockaddr *a, socklen_t l) {
    int w;
    for(w = 0; w != MAXW; ++w) if(D->H[w].on) return heconnect(o, a);
    struct conn *c = newconn(o, a->sa_family == AF_UNIX);
    static const int ee[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, ENOENT};
    int e = P(35) ? 0 : P(70) ? EINPROGRESS : ee[R(5)];
    if(!o->txwin) o->txwin = 1;     /* a fresh connection is writable */
    c->es = e == EINPROGRESS; o->mk = D->curw + 1;
    lognew(c, D->curw, e == 0 ? "ok" : e == EINPROGRESS ? "prog" : en(e));
    return e;
}

static void anyaddr(struct ipaddr *a, int v6, int port) {
    ipaddr_local(a, NULL, port, v6 ? IPADDR_IPV6 : IPADDR_IPV4);
}

static void do_connect(int w) {
    int64_t dl = deadline(w); T0; int ipc = R(2), mem = P(40), nomem = mem && P(5), toolong = ipc && P(6);
    char a[32], path[300]; struct ipaddr ad; void *m = NULL;
    anyaddr(&ad, R(2), 1 + R(60000));
    memset(path, 'p', sizeof(path)); path[toolong ? 108 : P(20) ? 107 : 1 + R(20)] = 0;
    if(mem && !nomem) m = umem(sizeof(struct tcp_storage));
    sprintf(a, "%d,%d", nomem, toolong);
    logc(w, "connect", -1, ipc ? "ipc" : "tcp", 0, "", "[]", a, dl, -1);
    int rc = ipc ? (mem ? ipc_connect_mem(path, m, dl) : ipc_connect(path, dl)) :
        mem ? tcp_connect_mem(&ad, m, dl) : tcp_connect(&ad, dl);
    int e = errno, n = -1, k;
    if(rc >= 0) {
        for(k = D->nc - 1; k >= 0; --k) if(vkp->clk >= 0 && D->C[k].fam == ipc && !D->C[k].cl && topof(k) < 0 &&
              D->C[k].o->connected && D->C[k].o->mk == w + 1) break;
        if(k < 0) die("driver: connection lost");
        n = newob(rc, ipc ? T_IPC : T_TCP, -1, k); D->O[n].mem = m; D->O[n].memsz = sizeof(struct tcp_storage);
    }
    else if(m) retire(m, sizeof(struct tcp_storage));
    for(k = 0; k != D->nc; ++k) if(D->C[k].o->mk == w + 1) {D->C[k].o->mk = 0; if(rc < 0) D->C[k].es = 0;}
    logr(w, "connect", rc < 0 ? -1 : 0, e, "[]", 1, n, -1, t0);
}

static int incoming(int l) {
    struct ob *o = &D->O[l]; struct vkobj *lo = o->lo;
    if(lo->nacc > 20 || D->nc > MAXC - 8) return 0;
    int r = R(100);
    if(r < 75) {
        struct vkobj *a = vk_mkobj(VK_STREAM);
        a->family = lo->family; a->type = SOCK_STREAM; a->connected = 1;
        int port = 1 + R(60000);
        struct conn *c = newconn(a, o->ty == T_IPCL);
        if(o->ty == T_TCPL) {
            if(lo->family == AF_INET) {struct sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons(port); memcpy(&a->peer, &s, sizeof(s)); a->peerlen = sizeof(s);}
            else {struct sockaddr_in6 s; memset(&s, 0, sizeof(s)); s.sin6_family = AF_INET6; s.sin6_port = htons(port); memcpy(&a->peer, &s, sizeof(s)); a->peerlen = sizeof(s);}
        }
        else port = 0;
        lo->acc[lo->nacc] = a; lo->accerr[lo->nacc] = 0; lo->nacc++;
        lognew(c, -1, "ok");
        L("{\"e\":\"aq\",\"l\":%d,\"q\":[[\"conn\",%d,%d]]}", l, c->k, port);
    }
    else {
        int e = P(75) ? ECONNABORTED : EMFILE;
        lo->acc[lo->nacc] = NULL; lo->accerr[lo->nacc] = e; lo->nacc++;
        L("{\"e\":\"aq\",\"l\":%d,\"q\":[[\"%s\"]]}", l, en(e));
    }
    return 1;
}

static void do_accept(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); T0;
    int ipc = o->ty == T_IPCL, mem = P(40), nomem = mem && P(5), x = P(5); char a[16]; void *m = NULL;
    struct ipaddr ad; memset(&ad, 0, sizeof(ad));
    if(x) ipc = !ipc;
    if(mem && !nomem) m = umem(sizeof(struct tcp_storage));
    sprintf(a, "%d", nomem);
    o->rb++;
    struct vkobj *save[64]; int ns = o->lo->nacc; memcpy(save, o->lo->acc, sizeof(save));
    logc(w, "accept", i, ipc ? "ipc" : "tcp", 0, "", "[]", a, dl, -1);
    int wantaddr = !ipc && P(70);
    int rc = ipc ? (mem ? ipc_accept_mem(o->h, m, dl) : ipc_accept(o->h, dl)) :
        mem ? tcp_accept_mem(o->h, wantaddr ? &ad : NULL, m, dl) : tcp_accept(o->h, wantaddr ? &ad : NULL, dl);
    int e = errno, n = -1, port = 0;
    D->O[i].rb--;
    if(rc >= 0) {
        /* which one it is: the first that left the queue and is still open */
        int k, best = -1;
        for(k = 0; k != D->nc; ++k) {
            struct conn *c = &D->C[k]; int q, inq = 0, f;
            if(topof(k) >= 0 || c->cl || c->o->refs < 2) continue;
            for(q = 0; q != D->no; ++q) if(D->O[q].lo) for(f = 0; f != D->O[q].lo->nacc; ++f) if(D->O[q].lo->acc[f] == c->o) inq = 1;
            if(inq || c->fd >= 0 || c->o->mk) continue;
            int isopen = 0; for(f = 0; f != VK_NFDS; ++f) if(vkp->fd[f] == c->o) isopen = 1;
            if(isopen) best = k;
        }
        if(best < 0) die("driver: accepted connection unknown");
        n = newob(rc, ipc ? T_IPC : T_TCP, -1, best); D->O[n].mem = m; D->O[n].memsz = sizeof(struct tcp_storage);
        struct vkobj *v = D->C[best].o;
        port = ipc ? 0 : wantaddr ? ipaddr_port(&ad) : v->peer.ss_family == AF_INET ? ntohs(((struct sockaddr_in*)&v->peer)->sin_port) :
            ntohs(((struct sockaddr_in6*)&v->peer)->sin6_port);
    }
    else if(m) retire(m, sizeof(struct tcp_storage));
    logr(w, "accept", rc < 0 ? -1 : port, e, "[]", 1, n, -1, t0);
    (void)ns;
}

static void do_listen(int w) {
    T0; int ipc = R(2), mem = P(40), nomem = mem && P(5), toolong = ipc && P(6), inuse, port, v6 = R(2); char a[64], path[300]; void *m = NULL;
    struct ipaddr ad;
    static int ports; 
    port = P(40) ? 0 : 1000 + R(12);
    inuse = 0;
    anyaddr(&ad, v6, port);
    memset(path, 'q', sizeof(path)); path[toolong ? 108 : P(20) ? 107 : 1 + R(20)] = 0;
    int i;
    if(!ipc && port) for(i = 0; i != VK_NFDS; ++i) {
        struct vkobj *p = vkp->fd[i];
        if(p && p->bound && p->addrlen == ipaddr_len(&ad) && !memcmp(&p->addr, ipaddr_sockaddr(&ad), p->addrlen)) inuse = 1;
    }
    if(ipc && !toolong) for(i = 0; i != VK_NFDS; ++i) {
        struct vkobj *p = vkp->fd[i];
        if(p && p->bound && p->family == AF_UNIX && !strcmp(((struct sockaddr_un*)&p->addr)->sun_path, path)) inuse = 1;
    }
    (void)ports;
    if(mem && !nomem) m = umem(sizeof(struct tcp_listener_storage));
    sprintf(a, "%d,%d,%d,%d", nomem, toolong, ipc ? 1 : port, inuse);
    logc(w, "listen", -1, ipc ? "ipcl" : "tcpl", 0, "", "[]", a, -1, -1);
    int rc = ipc ? (mem ? ipc_listen_mem(path, 10, m) : ipc_listen(path, 10)) :
        mem ? tcp_listen_mem(&ad, 10, m) : tcp_listen(&ad, 10);
    int e = errno, n = -1; long r = -1; int h2 = -1;
    if(rc >= 0) {
        n = newob(rc, ipc ? T_IPCL : T_TCPL, -1, -1); D->O[n].mem = m; D->O[n].memsz = ipc ? sizeof(struct ipc_listener_storage) : sizeof(struct tcp_listener_storage);
        for(i = 0; i != VK_NFDS; ++i) {
            struct vkobj *p = vkp->fd[i]; int q, known = 0;
            if(!p || !p->listening) continue;
            for(q = 0; q != D->no; ++q) if(D->O[q].lo == p) known = 1;
            if(!known) D->O[n].lo = p;
        }
        if(!D->O[n].lo) die("driver: listener lost");
        D->O[n].lo->refs++; D->O[n].lo->held = 1;
        r = ipc ? 1 : ipaddr_port(&ad); h2 = r;
        /* it must be the port in use */
        if(!ipc) {
            struct sockaddr_storage *ss = &D->O[n].lo->addr;
            int real = ntohs(ss->ss_family == AF_INET ? ((struct sockaddr_in*)ss)->sin_port : ((struct sockaddr_in6*)ss)->sin6_port);
            if(real != r) h2 = -1, r = -2;
        }
    }
    else if(m) retire(m, ipc ? sizeof(struct ipc_listener_storage) : sizeof(struct tcp_listener_storage));
    logr(w, "listen", r, e, "[]", 1, n, h2, t0);
}

static void do_pair(int w) {
    T0; int s[2] = {-1, -1}, mem = P(40), nomem = mem && P(5), i, k[2] = {-1, -1}, n[2] = {-1, -1}; void *m = NULL; char a[16];
    if(mem && !nomem) m = umem(sizeof(struct ipc_pair_storage));
    sprintf(a, "%d", nomem);
    int before = vkp->ids;
    logc(w, "pair", -1, "ipc", 0, "", "[]", a, -1, -1);
    int rc = mem ? ipc_pair_mem(m, s) : ipc_pair(s), e = errno;
    if(rc >= 0) {
        int q = 0;
        for(i = 0; i != VK_NFDS && q < 2; ++i) {
            struct vkobj *p = vkp->fd[i];
            if(!p || p->kind != VK_STREAM || p->id <= before) continue;
            /* (ids in the order of the pair) */
            struct conn *c = newconn(p, 1);
            if(p->link) {p->link->link = NULL; p->link = NULL;}
            lognew(c, w, "ok"); k[q] = c->k; n[q] = newob(s[q], T_IPC, -1, k[q]); ++q;
        }
        if(q != 2) die("driver: pair lost");
        if(m) {
            D->O[n[0]].mem = m; D->O[n[0]].memsz = sizeof(struct ipc_storage);
            D->O[n[1]].mem = (char*)m + sizeof(struct ipc_storage); D->O[n[1]].memsz = sizeof(struct ipc_storage);
            /* no red zone between the two */
            D->O[n[0]].mem2 = D->O[n[1]].mem2 = m;
        }
    }
    else if(m) retire(m, sizeof(struct ipc_pair_storage));
    logr(w, "pair", rc, e, "[]", 1, n[0], n[1], t0);
}

static void do_fromfd(int w, int good) {
    T0; char a[64]; void *m = NULL; size_t msz;
    int want = good ? R(2) : R(4), mem = P(40), nomem = !good && mem && P(5);
    if(good && D->m->conns > 40 && P(90)) want = T_TCP;
    int type = 1, fam = want == T_IPC || want == T_IPCL ? 1 : P(50) ? 4 : 6, lst = want == T_TCPL || want == T_IPCL;
    if(D->sc) {want = D->scarg[0] == 't' ? T_TCP : T_IPC; fam = want == T_IPC ? 1 : P(50) ? 4 : 6;}
    if(good && (D->m->what & M_IPC) && !(D->m->what & M_MAKE)) {want = T_IPC; fam = 1;}
    if(!good && P(35)) {
        int r = R(6);
        if(r == 0) type = 2; else if(r == 1) type = 3; else if(r == 2) type = 4; else if(r == 3) type = 5;
        else if(r == 4) lst = !lst; else fam = fam == 1 ? 4 : 1;
    }
    struct vkobj *o = vk_mkobj(type == 1 ? VK_STREAM : type == 2 ? VK_DGRAM : VK_READY);
    o->family = fam == 1 ? AF_UNIX : fam == 4 ? AF_INET : AF_INET6;
    o->type = type == 2 ? SOCK_DGRAM : SOCK_STREAM;
    o->connected = !lst; o->listening = lst;
    o->nonblock = R(2);
    int fd = vk_openobj(o, 60, 0), k = -1;
    struct conn *c = NULL;
    if(type == 1 && !lst) {c = newconn(o, fam == 1); c->fd = fd; lognew(c, -1, "ok"); k = c->k;}
    if(type == 1 && lst) {k = -2 - D->lk++; L("{\"e\":\"aq\",\"l\":%d,\"q\":[]}", k);}
    int realfd = fd;
    if(type == 4) {vk_closefd(fd);}
    if(type == 5) realfd = -1 - R(3);
    msz = want == T_TCP ? sizeof(struct tcp_storage) : want == T_IPC ? sizeof(struct ipc_storage) :
        want == T_TCPL ? sizeof(struct tcp_listener_storage) : sizeof(struct ipc_listener_storage);
    if(mem && !nomem) m = umem(msz);
    sprintf(a, "%d,%d,%d,%d", type, fam, lst, nomem);
    int keep = o->refs;
    if(type != 4) {o->refs++;}
    logc(w, "fromfd", -1, tyname[want], 0, "", "[]", a, -1, k);
    int rc = -1;
    switch(want) {
    case T_TCP: rc = mem ? tcp_fromfd_mem(realfd, m) : tcp_fromfd(realfd); break;
    case T_IPC: rc = mem ? ipc_fromfd_mem(realfd, m) : ipc_fromfd(realfd); break;
    case T_TCPL: rc = mem ? tcp_listener_fromfd_mem(realfd, m) : tcp_listener_fromfd(realfd); break;
    case T_IPCL: rc = mem ? ipc_listener_fromfd_mem(realfd, m) : ipc_listener_fromfd(realfd); break;
    }
    int e = errno, n = -1; (void)keep;
    if(c) c->fd = -1;
    if(type != 4) o->refs--;
    if(rc >= 0) {
        n = newob(rc, want, -1, lst ? -1 : k); D->O[n].mem = m; D->O[n].memsz = msz;
        if(lst) {D->O[n].lo = o; o->refs++; o->held = 1;}
        if(vkp->fd[fd] == o && !vkp->fdlib[fd]) oops("the descriptor adopted is still open");
    }
    else {
        if(m) retire(m, msz);
    }
    logr(w, "fromfd", rc < 0 ? -1 : 0, e, "[]", 1, n, -1, t0);
    if(rc < 0 && type != 4 && vkp->fd[fd] && vkp->fd[fd] == o && !vkp->fdlib[fd]) {
        /* the caller still owns it */
        if(c) {c->cl = 1;}
        vk_closefd(fd);
    }
}

/******************************************************************************/
/*  Programs                                                                  */
/******************************************************************************/

static int pickob(void) {
    int i, n = 0, p = -1;
    for(i = 0; i != D->no; ++i) {
        struct ob *o = &D->O[i];
        if(o->st || o->closing) continue;
        if(R(++n) == 0) p = i;
    }
    return p;
}
static int idle(struct ob *o) {return !o->rb && !o->sb && !o->closing;}
static int live(void) {
    int i, n = 0;
    for(i = 0; i != D->no; ++i) if(D->O[i].st == 0 && D->O[i].ty < T_PREFIX && D->O[i].ty != T_TCPL && D->O[i].ty != T_IPCL) ++n;
    for(i = 0; i != D->no; ++i) if(D->O[i].st == 0 && D->O[i].ty >= T_PREFIX) ++n;
    return n;
}
static int lateconn(struct conn *c) {return c->npl - c->dpl + vk_rxavail(c->o) > 300;}

static void doop(int w) {
    int i, tries, what = D->m->what;
    D->budget--;
    if(what & M_UDP) {doudp(w); return;}
    if(what & M_TLS) {dotls(w); return;}
    if(what & M_EYES) {do_he(w); return;}
    if(what & M_DNS) {do_dns(w); return;}
    if((what & M_MAKE) && P(30) && D->nc < MAXC - 12 && D->no < MAXO - 20) {
        int r = R(6);
        if(r == 0) do_fromfd(w, 0);
        else if(r == 1) do_connect(w);
        else if(r == 2) do_pair(w);
        else if(r == 3 && P(50)) do_listen(w);
        else {
            int n = 0, p = -1;
            for(i = 0; i != D->no; ++i) if((D->O[i].ty == T_TCPL || D->O[i].ty == T_IPCL) && D->O[i].st == 0 && idle(&D->O[i]) && R(++n) == 0) p = i;
            if(p >= 0) do_accept(w, p); else do_listen(w);
        }
        return;
    }
    if(live() < D->m->conns && D->nc < MAXC - 12 && D->no < MAXO - 20) {do_fromfd(w, 1); return;}
    for(tries = 0; tries != (D->m->conns > 40 ? 100 : 20); ++tries) {
        i = pickob();
        if(i < 0) return;
        struct ob *o = &D->O[i];
        int lst = o->ty == T_TCPL || o->ty == T_IPCL, msg = o->ty >= T_PREFIX;
        int r = R(100);
        if(lst) {
            if(idle(o) && P(10)) {do_close(w, i, R(2)); return;}
            continue;
        }
        if(D->m->conns > 40 && P(99)) {
            /* hardly anything but small receives */
            struct conn *c = &D->C[o->k];
            if(c->dpl && !o->rb && !o->dead && (c->few < 2 || !R(2000))) {++c->few; do_recv(w, i, msg); return;}
            continue;
        }
        /* a conversation broken off at an unknown place */
        if(o->s5 == 9) {if(!idle(o)) continue; do_close(w, i, P(50)); return;}
        int cprob = (what & M_CLOSE) ? 10 : 3;
        if(o->dead == 3) cprob = 40; else if(o->dead) cprob *= 2;
        if(r < cprob && idle(o)) {
            if(P(6) && msg) {do_close(w, i, 0); return;}
            if(msg && P(65)) {do_detach(w, i); return;}
            do_close(w, i, P(msg ? 100 : 35)); return;
        }
        if(r < cprob + 3 && idle(o) && P(50)) {
            /* operations it does not have */
            if(msg) {if(R(2)) do_recv(w, i, 0); else do_bsend(w, i, 0);}
            else if(R(2)) do_recv(w, i, 1); else do_bsend(w, i, 1);
            return;
        }
        if(!msg && (what & (M_HTTP | M_WS)) && idle(o) && !o->dead && !o->done && P(what & M_BASE ? 10 : 90) && !lateconn(&D->C[o->k])) {
            struct conn *c = &D->C[o->k];
            if((what & M_WS) && (!(what & M_HTTP) || P(what & M_BASE ? 50 : 85))) {
                if(!c->npl && !c->ended) {do_wsattach(w, i, P(what & M_FRAME ? 90 : 10)); return;}
            }
            else if(what & M_HTTP) {do_attach(w, i, T_HTTP); return;}
        }
        if((what & M_SOCKS) && !msg && idle(o) && !o->dead && !o->done && D->C[o->k].s5 < 2) {
            if(o->s5 == 0 && D->C[o->k].s5 == 0) {
                if(P(60)) {do_s5client(w, i, R(2)); return;}
                if(!D->s5busy) {do_s5auth(w, i); return;}
                continue;
            }
            if(o->s5 == 1) {do_s5cmd(w, i); return;}
            if(o->s5 == 2) {do_s5reply(w, i); return;}
        }
        if(o->ty == T_HTTP) {
            r = R(100);
            if(r < 5 && !o->sb) {do_done(w, i); return;}
            if(r < 50) {if(!o->sb) {do_hsend(w, i); return;}}
            else if(!o->rb) {do_hrecv(w, i); return;}
            continue;
        }
        if(o->ty == T_WS && P(80)) {
            r = R(100);
            if(r < 4 && !o->sb) {do_wdone(w, i); return;}
            if(r < 12) {do_wstatus(w, i); return;}
            if(r < 50) {if(!o->sb) {do_wsend(w, i); return;}}
            else if(!o->rb) {do_wrecv(w, i); return;}
            continue;
        }
        if(msg && P(1) && idle(o) && (what & (M_HTTP | M_WS))) {
            if(R(2) && (what & M_HTTP)) do_attach(w, i, T_HTTP); else do_wsattach(w, i, R(2));
            return;
        }
        if((what & (M_FRAME | M_TERM)) && (!(what & (M_HTTP | M_WS)) || (what & M_BASE)) && idle(o) && (!o->dead || P(5)) && !lateconn(&D->C[o->k])) {
            int x = (what & M_BASE) ? 12 : msg ? 6 : 90;
            if(!msg && P(x)) {
                const char *nm = D->m->name;
                int ty = !strcmp(nm, "prefix") ? T_PREFIX : !strcmp(nm, "suffix") ? T_SUFFIX : R(2) ? T_PREFIX : T_SUFFIX;
                if(P(2)) ty = T_TERM;
                do_attach(w, i, ty); return;
            }
            if(msg && o->ty != T_TERM && o->ty != T_WS && (what & M_TERM) && P((what & M_BASE) ? 15 : 50)) {do_attach(w, i, T_TERM); return;}
            if(msg && P(1)) {do_attach(w, i, R(2) ? T_PREFIX : T_SUFFIX); return;}
        }
        if(!msg && (what & M_SOCKS) && D->C[o->k].s5 < 2) continue;
        if(!msg && !(what & (M_BASE | M_SOCKS)) && ((what & (M_HTTP | M_WS)) ? !D->C[o->k].npl : P(80))) continue;
        int busy = !msg && P(6);    /* try although someone else is in there */
        r = R(100);
        if(r < 10 && !o->sb && (o->ty != T_PREFIX && o->ty != T_SUFFIX && o->ty != T_WS ? P(what & M_CLOSE ? 60 : 20) : P(5))) {do_done(w, i); return;}
        if(o->ty == T_IPC && (what & M_IPC) && P(35)) {
            if(R(2)) {if(!o->sb || busy) {do_sendfd(w, i); return;}}
            else if(!o->rb || busy) {do_recvfd(w, i); return;}
            continue;
        }
        if(r < (!strcmp(D->m->name, "sends") ? 80 : 50)) {if(!o->sb || busy) {do_bsend(w, i, msg); return;}}
        else if(!o->rb || busy) {do_recv(w, i, msg); return;}
    }
}

#include "net_udp.h"
#include "net_eyes.h"
#include "net_addr.h"
#include "net_dns.h"
#include "net_tls.h"

/* a call of the script */
static int tyletter(char c) {return c == 'p' ? T_PREFIX : c == 's' ? T_SUFFIX : c == 'h' ? T_HTTP : T_TERM;}
static void docmd(int w) {
    int i, p = 0; char op[20]; long dl;
    if(sscanf(D->cmd[w], "C %*d %19s %d %ld %n", op, &i, &dl, &p) < 3) return;
    if(!strcmp(op, "dns")) {D->sc = 1; D->scdl = dl; snprintf(D->scarg, sizeof(D->scarg), "%s", p ? D->cmd[w] + p : ""); do_dns(w); D->sc = 0; return;}
    if(!strcmp(op, "he")) {D->sc = 1; D->scdl = dl; do_he(w); D->sc = 0; return;}
    if(i < 0 || i >= D->no || D->O[i].st || D->O[i].closing) return;
    struct ob *o = &D->O[i]; int msg = o->ty >= T_PREFIX;
    D->sc = 1; D->scdl = dl;
    snprintf(D->scarg, sizeof(D->scarg), "%s", p ? D->cmd[w] + p : "");
    /* (sc is reset as soon as the call is made, see logc) */
    if(!strcmp(op, "bsend") || !strcmp(op, "msend")) {if(!(msg && o->sb)) do_bsend(w, i, op[0] == 'm');}
    else if(!strcmp(op, "brecv") || !strcmp(op, "mrecv")) {if(!(msg && o->rb)) do_recv(w, i, op[0] == 'm');}
    else if(!strcmp(op, "done") || !strcmp(op, "mdone")) {if(!o->sb) do_done(w, i);}
    else if(!strcmp(op, "tdone")) {if(o->ty == T_TLS) do_tdone(w, i);}
    else if(!strcmp(op, "usend")) {if(o->ty == T_UDP) do_usend(w, i);}
    else if(!strcmp(op, "urecv")) {if(o->ty == T_UDP) do_urecv(w, i);}
    else if(!strcmp(op, "hsend")) {if(!o->sb && o->ty == T_HTTP) do_hsend(w, i);}
    else if(!strcmp(op, "hrecv")) {if(!o->rb && o->ty == T_HTTP) do_hrecv(w, i);}
    else if(!strcmp(op, "wsend")) {if(!o->sb && o->ty == T_WS) do_wsend(w, i);}
    else if(!strcmp(op, "wrecv")) {if(!o->rb && o->ty == T_WS) do_wrecv(w, i);}
    else if(!strcmp(op, "wdone")) {if(!o->sb && o->ty == T_WS) do_wdone(w, i);}
    else if(!strcmp(op, "wstatus")) {if(o->ty == T_WS) do_wstatus(w, i);}
    else if(o->rb || o->sb) ;
    else if(!strcmp(op, "close")) do_close(w, i, 0);
    else if(!strcmp(op, "hclose")) do_close(w, i, 1);
    else if(!strcmp(op, "detach")) do_detach(w, i);
    else if(!strcmp(op, "tdetach")) {if(o->ty == T_TLS) do_tdetach(w, i);}
    else if(!strcmp(op, "s5addr") || !strcmp(op, "s5name")) do_s5client(w, i, op[2] == 'n');
    else if(!strcmp(op, "s5auth")) do_s5auth(w, i);
    else if(!strcmp(op, "s5cmd")) do_s5cmd(w, i);
    else if(!strcmp(op, "s5reply")) do_s5reply(w, i);
    else if(!strcmp(op, "wsattach")) do_wsattach(w, i, 0);
    else if(!strcmp(op, "attach")) {
        char *q = strchr(D->scarg, ' '), ty = D->scarg[0];
        if(q) memmove(D->scarg, q + 1, strlen(q));
        if(ty == 'w') do_wsattach(w, i, 1); else do_attach(w, i, tyletter(ty));
    }
    D->sc = 0;
}

static coroutine void worker(int w) {
    struct wk *k = &D->W[w];
    while(1) {
        k->busy = 0;
        int rc = fdin(k->gate, -1);
        k->busy = 1;
        if(rc < 0) break;
        vkp->fd[k->gate]->in = 0; k->gopen = 0;
        if(k->cancelled) break;
        if(D->script) docmd(w);
        else if(D->budget > 0) doop(w);
        if(k->cancelled) break;
    }
    while(k->post-- > 0 && D->budget > -20) doop(w);
    fdclean(k->gate);
    k->ended = 1;
    L("{\"e\":\"E\",\"c\":%d}", w);
}

static void startw(int w) {
    struct wk *k = &D->W[w];
    int gate = k->used ? k->gate : vk_open(VK_READY, 450 + w, 0);
    memset(k, 0, sizeof(*k));
    k->used = 1; k->gate = gate;
    vkp->fd[gate]->in = 0;
    long cd = vkp->countdown, sd = vkp->sysdown;
    vkp->countdown = vkp->sysdown = 0;
    k->h = go(worker(w));
    if(k->h < 0) die("driver: go");
    vkp->countdown = cd; vkp->sysdown = sd;
}
static void stopw(int w) {
    struct wk *k = &D->W[w];
    if(k->ended) {hclose(k->h); return;}
    k->cancelled = 1; k->post = !D->script && P(30) ? 1 + R(2) : 0;
    L("{\"e\":\"k\",\"c\":%d}", w);
    if(hclose(k->h)) oops("hclose of a coroutine failed");
    if(!k->ended) oops("hclose left a coroutine running");
}

static void run_script(void) {
    int i, n;
    D->iscript = 0;
    for(i = 0; i != D->nscript; ++i) {
        char *s = D->script[i];
        if(s[0] == 'S') {
            char ty[10];
            if(sscanf(s, "S %9s %d %d", ty, &D->scwin, &D->scfrag) != 3) die("driver: script");
            D->sc = 1; snprintf(D->scarg, sizeof(D->scarg), "%s", ty);
            if(!strcmp(ty, "udp")) do_uopen(0); else do_fromfd(0, 1);
        }
        else if(s[0] == 'A') {
            D->sc = 1; snprintf(D->scarg, sizeof(D->scarg), "%s", strchr(s + 2, ' ') + 1);
            if(s[2] == 'w') do_wsattach(0, D->no - 1, 1);
            else do_attach(0, D->no - 1, tyletter(s[2]));
        }
        else if(s[0] == 'N') {if(sscanf(s, "N %d %d", &D->scwin, &D->scfrag) != 2) die("driver: script"); dnsstart(); dnsconfon();}
        else if(s[0] == 'T') {
            D->sc = 1; snprintf(D->scarg, sizeof(D->scarg), "%s", s + 2); D->scdl = -1;
            D->tlsauto = 1; do_tattach(0, D->no - 1);
            D->tlsauto = 0;
            if(D->C[D->nc - 1].npl > D->C[D->nc - 1].dpl) tlsarrive(&D->C[D->nc - 1], D->C[D->nc - 1].npl - D->C[D->nc - 1].dpl);
        }
        else if(s[0] == 'K') knownkey("dGhlIHNhbXBsZSBub25jZQ==");
        else if(s[0] == 'l') {
            if(i == 0) do_addr(-1);
            addrline(s[1] ? s + 2 : "");
        }
        else break;
    }
    D->iscript = i;
    for(i = 1, D->nw = 1; i != D->nscript; ++i)
        if(strchr("CX", D->script[i][0]) && (n = atoi(D->script[i] + 2)) > D->nw && n < MAXW) D->nw = n;
    memset(&D->W[0], 0, sizeof(D->W[0]));
    D->W[0].gate = vk_open(VK_READY, 449, 0);
    for(i = 1; i <= D->nw; ++i) startw(i);
    while(!D->stop) {
        if(fdin(D->W[0].gate, -1)) break;
        vkp->fd[D->W[0].gate]->in = 0; D->W[0].gopen = 0;
        if(D->xw) {n = D->xw; D->xw = 0; stopw(n);}
    }
    fdclean(D->W[0].gate);
    vk_closefd(D->W[0].gate);
}

/* Handle numbers are used in turn: the next ones are to be around zero. */
static void *tquery(struct dill_hvfs *v, const void *t) {errno = ENOTSUP; return NULL;}
static void tclosed(struct dill_hvfs *v) {}
static void turnhandles(int n) {
    static struct dill_hvfs v = {tquery, tclosed};
    while(n-- > 0) {
        int h = dill_hmake(&v);
        if(h < 0 || hclose(h) != 0) die("driver: turning handles");
    }
}

static void scenario(uint64_t seed, int rep) {
    int i, guard = 0;
    D->rng = seed * 0x9E3779B97F4A7C15ULL + 0x7654321;
    for(i = 0; i != 8; ++i) R32();
    D->budget = D->m->budget / 2 + R(D->m->budget);
    D->polls = 0; D->stop = 0; D->nc = 0; D->no = 0; D->np = 0; D->nm = 0; D->vid = R(900); D->lk = 0;
    memset(D->W, 0, sizeof(D->W));
    if(!rep && seed % 3 == 1) turnhandles(256 - (seed * 7 + seed / 5) % 14);
    now();
    L("{\"e\":\"B\",\"clk\":%lld,\"rep\":0,\"seed\":%llu}", (long long)vkp->clk, (unsigned long long)seed);
    CF.on = 0; vkp->onsend = NULL; vkp->onfopen = NULL; vkp->onconnect = onconnect;
    if(D->m->what & M_DNS) dnsstart();
    if(D->script) {run_script(); goto over;}
    if(D->m->what & M_ADDR) {
        do_addr(-1);
        while(D->budget-- > 0) do_addr(0);
        D->nw = 0;
        goto over;
    }
    int first = 1 + R(D->m->conns);
    for(i = 0; i != first; ++i) if(D->m->what & (M_EYES | M_DNS)) ; else if(D->m->what & M_UDP) do_uopen(0); else do_fromfd(0, 1);
    D->nw = 1 + R(D->m->workers);
    for(i = 1; i <= D->nw; ++i) startw(i);
    while(D->budget > 0 && ++guard < 400) {
        if(P(D->m->cancel)) {
            int w = 1 + R(D->nw);
            stopw(w); startw(w);
        }
        else if(P(50)) doop(0);
        else msleep(vkp->clk + R(15));
    }
over:
    D->stop = 1;
    for(i = 1; i <= D->nw; ++i) {if(!D->W[i].cancelled) stopw(i); vk_closefd(D->W[i].gate);}
    D->budget = 1000;
    memset(D->H, 0, sizeof(D->H));
    for(i = 0; i != D->no; ++i) if(D->O[i].st == 0) do_close(0, i, 1);
    for(i = 0; i != D->nm; ++i) {
        size_t j;
        for(j = 0; j != D->M[i].n; ++j) if(D->M[i].p[j] != 0xcc) {oops("user memory used after close"); break;}
    }
    wires();
    for(i = 0; i != D->nc; ++i) {D->C[i].o->held = 0; vk_unref(D->C[i].o); tlsfree(&D->C[i]); free(D->C[i].pl); free(D->C[i].pc); free(D->C[i].hb);}
    D->nc = 0;
    for(i = 0; i != D->no; ++i) if(D->O[i].lo) {D->O[i].lo->held = 0; vk_unref(D->O[i].lo);}
    for(i = 0; i != D->nm; ++i) if(D->M[i].base) ufree(D->M[i].base);
    for(i = 0; i != D->np; ++i) free(D->P[i].p);
    D->no = 0; D->np = 0; D->nm = 0;
}

static void arm(void) {
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof(alt)};
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof(sa));
    sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGPIPE};
    int i; for(i = 0; i != 7; ++i) sigaction(sg[i], &sa, NULL);
    alarm(30);
}

/* for socks5.c: names are not looked up for real */
int vk_ipaddr_remote(struct ipaddr *addr, const char *name, int port, int mode, int64_t deadline) {
    char s[20];
    if((name[0] >= '0' && name[0] <= '9') || strchr(name, ':')) return ipaddr_remote(addr, name, port, mode, deadline);
    if(name[0] == 'x') {errno = EADDRNOTAVAIL; return -1;}
    sprintf(s, "10.0.0.%d", (int)strlen(name) & 255);
    return ipaddr_local(addr, s, port, IPADDR_IPV4);
}

/* The number of handles that are open. */
void *dill_hquery(int h, const void *type);
static int openhandles(void) {
    static const int notype;
    int h, n = 0;
    for(h = 0; h != 1200; ++h) {
        errno = 0;
        if(dill_hquery(h, &notype) || errno != EBADF) ++n;
    }
    return n;
}

int main(int argc, char **argv) {
    const char *out = NULL, *mixn = "stream", *scr = NULL; char **lines = NULL; int nl = 0; uint64_t seed = 1; int n = 1, i, crashes = 0, logfd;
    struct mix *m;
    for(i = 1; i + 1 < argc; i += 2) {
        if(!strcmp(argv[i], "--out")) out = argv[i + 1];
        if(!strcmp(argv[i], "--mix")) mixn = argv[i + 1];
        if(!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], NULL, 10);
        if(!strcmp(argv[i], "--n")) n = atoi(argv[i + 1]);
        if(!strcmp(argv[i], "--script")) {scr = argv[i + 1]; mixn = "script";}
    }
    if(scr) {    /* scripts are separated by blank lines */
        FILE *f = fopen(scr, "r"); char b[2000]; int in = 0;
        if(!f) return 2;
        n = 0;
        while(fgets(b, sizeof(b), f)) {
            b[strcspn(b, "\n")] = 0;
            if(b[0] && !in) {++n; in = 1;}
            if(!b[0]) in = 0;
            lines = realloc(lines, (nl + 2) * sizeof(char*));
            lines[nl++] = strdup(b);
        }
        lines[nl] = NULL;
        fclose(f);
    }
    for(m = mixes; m->name; ++m) if(!strcmp(m->name, mixn)) break;
    if(!m->name || !out) {fprintf(stderr, "usage\n"); return 2;}
    logfd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    logfd = fcntl(logfd, F_DUPFD, 700);
    int dn = open("/dev/null", O_RDWR);
    int at = 0;
    for(i = 0; i != n; ++i) {
        int a0 = at, a1;
        if(scr) {
            while(a0 < nl && !lines[a0][0]) ++a0;
            for(a1 = a0; a1 < nl && lines[a1][0]; ++a1);
            at = a1;
        }
        pid_t p = fork();
        if(p == 0) {
            dup2(dn, 1);
            if(!getenv("VERIF_STDERR")) dup2(dn, 2);
            arm();
            D = calloc(1, sizeof(struct drv));
            D->m = m; D->logfd = logfd;
            if(scr) {D->script = lines + a0; D->nscript = at - a0;}
            vk_new();
            vkp->hook = hook; vkp->after = after; vkp->onconnect = onconnect; vkp->nextfd = 3;
            scenario(seed + i, 0);
            int nr = vkp->nreg, f = vk_libfds() + vkp->closes, q;
            /* once more: nothing may accumulate (the library keeps some buffers
               for later, so the first few times the amount may grow) */
            long dn2 = 1;
            D->quiet = 1;
            for(q = 0; q != 8 && dn2 > 0; ++q) {
                long na = vkp->nalloc;
                scenario(seed + i, 1);
                dn2 = vkp->nalloc - na;
                f += vk_libfds() + vkp->closes;
            }
            D->quiet = 0;
            int oh = openhandles();
            Lraw("{\"e\":\"F\",\"n\":%ld,\"f\":%d,\"g\":%d,\"oh\":%d,\"bad\":%d,\"why\":\"%s\"}", dn2 > 0 ? dn2 : 0, f,
                vkp->nreg - nr, oh, D->bad, D->bad ? D->why : "");
            flush();
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if(WIFSIGNALED(st)) {
            char b[200];
            snprintf(b, sizeof(b), "{\"e\":\"X\",\"why\":\"killed\",\"seed\":%llu}\n", (unsigned long long)(seed + i));
            if(syscall(SYS_write, logfd, b, strlen(b)) < 0) return 2;
        }
        if(WIFSIGNALED(st) || WEXITSTATUS(st)) if(++crashes == 3) break;
    }
    return 0;
}
