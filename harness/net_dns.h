/* Looking up names: included by net_drv.c. Events are those of the
   specification Dns. The driver makes up the configuration files, and plays the
   name servers. Which call does something is told by the stack it runs on. */
#include <arpa/inet.h>
#include <ctype.h>
#include <time.h>

#define NMAXL 6
struct name {int n; char l[NMAXL][80];};
static struct {
    int on; char resolv[800], nss[200], hosts[1200]; int hasnss, hashosts;
    int nsrv; unsigned char srv[3][4];
    char js[6000];
} CF;
struct dnscall {
    int on, odd; char *sp; struct vkobj *u, *t; int nu;
    /* the question without an answer */
    int q, tcp, ty, id, tst, mang; struct name nm; unsigned char srv[4]; size_t seen; unsigned char qn[300]; int nqn;
    struct name ch[12]; int nch;         /* the names asked for, in this call */
};
static struct dnscall NC[MAXW];

static const char *pool[] = {"alpha", "beta.x", "gamma", "delta.x.y", "a-1.b2"};
static const char *sfx[] = {"one.test", "two.test", "three", "fo.ur"};

static void mkname(struct name *m, const char *s) {
    m->n = 0;
    while(*s && m->n < NMAXL) {
        size_t k = strcspn(s, "."), i;
        for(i = 0; i != k && i < 79; ++i) m->l[m->n][i] = tolower((unsigned char)s[i]);
        m->l[m->n++][i] = 0;
        s += k; if(*s) ++s;
    }
}
static int namejs(const struct name *m, char *b) {
    int i, l = sprintf(b, "[");
    for(i = 0; i != m->n; ++i) {
        const char *p = m->l[i];
        l += sprintf(b + l, "%s\"", i ? "," : "");
        for(; *p; ++p) l += sprintf(b + l, *p >= 0x20 && *p < 0x7f && *p != '"' && *p != '\\' ? "%c" : "?%02x", (unsigned char)*p);
        l += sprintf(b + l, "\"");
    }
    return l + sprintf(b + l, "]");
}
static int samename(const struct name *a, const struct name *b) {
    int i;
    if(a->n != b->n) return 0;
    for(i = 0; i != a->n; ++i) if(strcmp(a->l[i], b->l[i])) return 0;
    return 1;
}
static int bytesjs(const unsigned char *p, int n, char *b) {
    int i, l = sprintf(b, "[");
    for(i = 0; i != n; ++i) l += sprintf(b + l, "%s%d", i ? "," : "", p[i]);
    return l + sprintf(b + l, "]");
}
static void randcase(char *s) {for(; *s; ++s) if(P(30)) *s = toupper((unsigned char)*s);}

/* makes up a configuration */
static void dnsconf(void) {
    int i, l = 0, r; char *o = CF.resolv, *j = CF.js; int jl = 0; char t[200]; struct name m;
    memset(&CF, 0, sizeof(CF));
    memset(NC, 0, sizeof(NC));
    CF.nsrv = D->script ? 1 + D->scfrag / 3 % 3 : P(50) ? 1 : 1 + R(3);
    jl += sprintf(j + jl, "\"srv\":[");
    if(P(30)) l += sprintf(o + l, "# made up\n\n; and\n");
    for(i = 0; i != CF.nsrv; ++i) {
        unsigned char *s = CF.srv[i];
        s[0] = 10; s[1] = R(3); s[2] = i; s[3] = 1 + R(250);
        l += sprintf(o + l, "nameserver%s%d.%d.%d.%d%s\n", P(20) ? "\t" : " ", s[0], s[1], s[2], s[3], P(10) ? " # x" : "");
        if(i) jl += sprintf(j + jl, ",");
        jl += bytesjs(s, 4, j + jl);
    }
    jl += sprintf(j + jl, "],\"search\":[");
    r = D->script ? D->scfrag % 3 : R(6); vkp->hostname = D->script || P(70) ? "host" : "host.dom.test";
    if(r == 3) {l += sprintf(o + l, "search ."); if(P(50)) l += sprintf(o + l, " %s", sfx[0]); l += sprintf(o + l, "\n"); jl += sprintf(j + jl, strstr(o, "search . ") ? "[],[\"one\",\"test\"]" : "[]");}
    else if(r == 4) r = 0;
    int nsfx = r == 5 ? 3 + R(2) : r;
    if(r == 1 || r == 2 || r == 5) {
        l += sprintf(o + l, "%s", r == 1 && P(40) ? "domain" : "search");
        for(i = 0; i != nsfx; ++i) {
            l += sprintf(o + l, " %s", sfx[i]);
            mkname(&m, sfx[i]); if(i) jl += sprintf(j + jl, ","); jl += namejs(&m, j + jl);
        }
        l += sprintf(o + l, "\n");
    }
    else if(!r) {mkname(&m, strchr(vkp->hostname, '.') ? "dom.test" : ""); jl += namejs(&m, j + jl);}
    int nd = 1, tmo = 5, att = 2;
    if(!D->script && P(50)) {
        l += sprintf(o + l, "options");
        if(P(50)) l += sprintf(o + l, " ndots:%d", nd = R(4));
        if(P(50)) l += sprintf(o + l, " timeout:%d", tmo = 1 + R(10));
        if(P(30)) l += sprintf(o + l, " attempts:%d", att = 1 + R(3));
        if(P(10)) l += sprintf(o + l, " rotate");
        l += sprintf(o + l, "\n");
    }
    jl += sprintf(j + jl, "],\"nd\":%d,\"tmo\":%d,\"att\":%d,", nd, tmo, att);
    r = D->script ? D->scwin % 4 : R(5);
    CF.hasnss = r != 0;
    sprintf(CF.nss, "%shosts:%s%s\nnetworks: files\n", P(50) ? "# x\npasswd: files\n" : "", P(50) ? " " : "\t", r == 1 ? "files dns" : r == 2 ? "dns files" : r == 3 ? "files" : "dns");
    jl += sprintf(j + jl, "\"look\":[%s],\"hosts\":[", r == 0 || r == 2 ? "\"b\",\"f\"" : r == 1 ? "\"f\",\"b\"" : r == 3 ? "\"f\"" : "\"b\"");
    o = CF.hosts; l = sprintf(o, "%s", P(50) ? "# hosts\n" : "\n");
    int n = D->script ? 0 : R(6), k, c = 0;
    if(D->script && D->scwin >= 4) n = -1;
    if(n < 0) {      /* of the scripts: one name is there */
        l += sprintf(o + l, "9.9.9.9 gamma\n");
        jl += sprintf(j + jl, "{\"a\":[9,9,9,9],\"n\":[\"gamma\"]}");
    }
    for(i = 0; i < n; ++i) {
        unsigned char a[16]; int v6 = R(2), z = v6 ? 16 : 4; char as[60];
        randhost(v6, a);
        inet_ntop(v6 ? AF_INET6 : AF_INET, a, as, sizeof(as));
        if(P(8)) {l += sprintf(o + l, "1.2.3.x alpha\n"); continue;}
        l += sprintf(o + l, "%s%s", P(20) ? " " : "", as);
        for(k = 1 + R(3); k > 0; --k) {
            strcpy(t, pool[R(5)]);
            if(P(30)) {strcat(t, "."); strcat(t, sfx[R(2)]);}
            if(P(5)) strcpy(t, "c1.x");
            mkname(&m, t); randcase(t);
            l += sprintf(o + l, "%s%s", P(50) ? " " : "\t", t);
            if(c++) jl += sprintf(j + jl, ",");
            jl += sprintf(j + jl, "{\"a\":"); jl += bytesjs(a, z, j + jl); jl += sprintf(j + jl, ",\"n\":"); jl += namejs(&m, j + jl); jl += sprintf(j + jl, "}");
        }
        l += sprintf(o + l, "%s\n", P(15) ? " # alpha" : "");
    }
    CF.hashosts = 1;
    sprintf(j + jl, "]");
}
static FILE *dnsfile(const char *p) {
    const char *s = NULL;
    if(CF.on && !strcmp(p, "/etc/resolv.conf")) s = CF.resolv;
    if(CF.on && !strcmp(p, "/etc/hosts") && CF.hashosts) s = CF.hosts;
    if(CF.on && !strcmp(p, "/etc/nsswitch.conf") && CF.hasnss) s = CF.nss;
    if(!s) {errno = ENOENT; return NULL;}
    return fmemopen((void*)s, strlen(s), "r");
}
static void dnsconfon(void) {
    if(CF.on) return;
    CF.on = 1;
    L("{\"e\":\"cf\",%s}", CF.js);
}
static void dnsstart(void) {
    dnsconf();
    vkp->onfopen = dnsfile; vkp->onsend = dnssend; vkp->onconnect = dnsconnect;
    srandom(R32());
    if(!D->script && (!(D->m->what & M_DNS) || P(85))) dnsconfon();
}

/* whose stack this is */
static int dnswho(void) {
    char *f = __builtin_frame_address(0); int w, b = -1;
    for(w = 0; w != MAXW; ++w)
        if(NC[w].on && NC[w].sp > f && NC[w].sp - f < 250000 && (b < 0 || NC[w].sp < NC[b].sp)) b = w;
    return b;
}

/* a question was sent: n bytes at p */
static void dnsquery(int w, struct vkobj *o, const unsigned char *p, size_t n, int tcp) {
    struct dnscall *c = &NC[w]; size_t i = 12; struct name m; char js[700]; int k, odd = 0;
    const struct sockaddr_in *pe = (void*)&o->peer;
    memset(&m, 0, sizeof(m));
    if(c->odd) return;
    if(n < 17 || (p[2] & 0xfe) != 0 || p[3] || p[4] || p[5] != 1 || p[6] || p[7] || p[8] || p[9] || p[10]) {oops("a malformed question"); return;}
    while(i < n && p[i]) {
        k = p[i];
        if(k > 63 || i + 1 + k >= n || m.n == NMAXL) {odd = 1; break;}
        if(k < 80) {size_t q; for(q = 0; q != (size_t)k; ++q) m.l[m.n][q] = tolower(p[i + 1 + q]); m.l[m.n][k] = 0; if(strpbrk(m.l[m.n], "\"\\")) odd = 1; ++m.n;}
        i += k + 1;
    }
    if(odd || i + 5 > n || (i + 5 != n && !p[11]) || p[i + 1] || p[i + 3] || p[i + 4] != 1) {
        if(!c->mang) oops("a malformed question");
        c->q = 2; c->tcp = tcp;   /* about what a mangled answer said: no answer, but an error */
        return;
    }
    c->q = 1; c->tcp = tcp; c->ty = p[i + 2]; c->id = p[0] * 256 + p[1]; c->nm = m;
    c->nqn = i + 1 - 12; memcpy(c->qn, p + 12, c->nqn);
    memcpy(c->srv, &pe->sin_addr, 4);
    if(c->nch == 12) {memmove(&c->ch[0], &c->ch[1], 11 * sizeof(c->ch[0])); --c->nch;}
    c->ch[c->nch++] = m;
    namejs(&m, js);
    L("{\"e\":\"dq\",\"c\":%d,\"srv\":[%d,%d,%d,%d],\"port\":%d,\"n\":%s,\"ty\":%d,\"rd\":%d,\"tcp\":%d}", w, c->srv[0], c->srv[1], c->srv[2], c->srv[3],
        ntohs(pe->sin_port), js, c->ty, p[2] & 1, tcp);
}
static void dnssend(struct vkobj *o) {
    int w = dnswho(); struct dnscall *c;
    if(w < 0) {oops("something was sent although no name is looked up"); return;}
    c = &NC[w];
    if(o->kind == VK_DGRAM) {
        struct vkobj *q = o->acc[0]; struct vkseg *s = q->rxh;
        if(!c->u) {c->u = o; o->refs++; o->held = 1;}
        else if(c->u != o) {   /* of the second family */
            if(c->u->refs > 1) oops("the socket of the first lookup is still open");
            vk_unref(c->u); c->u = o; o->refs++; o->held = 1;
        }
        q->rxh = s->next; if(!q->rxh) q->rxt = NULL;
        dnsquery(w, o, s->data, s->len, 0);
        free(s);
        return;
    }
    if(o != c->t) {oops("data on a connection it has not made"); return;}
    if(o->txlen - c->seen >= 2) {
        size_t n = o->tx[c->seen] * 256 + o->tx[c->seen + 1];
        if(o->txlen - c->seen > n + 2) oops("too much was sent");
        if(o->txlen - c->seen >= n + 2) {dnsquery(w, o, o->tx + c->seen + 2, n, 1); c->seen = o->txlen;}
    }
}
static int dnsconnect(int fd, struct vkobj *o, const struct sockaddr *a, socklen_t l) {
    int w = dnswho(), e; struct dnscall *c; const struct sockaddr_in *pe = (void*)a; unsigned char *s = (void*)&pe->sin_addr;
    static const int ee[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH};
    if(w < 0) {oops("a connection although no name is looked up"); return ECONNREFUSED;}
    c = &NC[w];
    if(c->t) {if(c->t->refs > 1 && !c->t->closed) c->t->held = 0; vk_unref(c->t);}
    c->t = o; o->refs++; o->held = 1; c->seen = 0;
    o->txcall = P(30) ? 1 + R(20) : 0;
    e = D->script ? EINPROGRESS : P(30) ? 0 : P(85) ? EINPROGRESS : ee[R(3)];
    c->q = 0; c->tst = e == EINPROGRESS;
    L("{\"e\":\"dt\",\"c\":%d,\"srv\":[%d,%d,%d,%d],\"port\":%d,\"est\":\"%s\"}", w, s[0], s[1], s[2], s[3], ntohs(pe->sin_port),
        e == 0 ? "ok" : e == EINPROGRESS ? "prog" : en(e));
    return e;
}

/* Replies */
struct msg {unsigned char b[4000]; int n; char js[6000], xs[6000]; int jl, nrr;};   /* xs: outside of the answer section */
static void putname(struct msg *m, const struct name *n, struct dnscall *c) {
    int i;
    if(c && samename(n, &c->nm) && P(60)) {m->b[m->n++] = 0xc0; m->b[m->n++] = 12; return;}
    for(i = 0; i != n->n; ++i) {
        int k = strlen(n->l[i]); m->b[m->n++] = k; memcpy(m->b + m->n, n->l[i], k);
        if(P(10)) m->b[m->n] = toupper(m->b[m->n]);
        m->n += k;
    }
    m->b[m->n++] = 0;
}
/* log: 0 for those outside of the answer section */
static void putrr(struct msg *m, struct dnscall *c, const struct name *o, int ty, const unsigned char *d, int n, const struct name *cn, int log) {
    unsigned char *p;
    putname(m, o, c);
    p = m->b + m->n;
    p[0] = 0; p[1] = ty; p[2] = 0; p[3] = 1; p[4] = 0; p[5] = 0; p[6] = R(250); p[7] = R(250);
    m->n += 10;
    int at = m->n;
    if(cn) putname(m, cn, NULL); else {memcpy(m->b + m->n, d, n); m->n += n;}
    p[8] = (m->n - at) >> 8; p[9] = m->n - at;
    m->b[log ? 7 : 11]++;
    if(!log) {
        int l = sprintf(m->xs, "{\"n\":");
        l += namejs(o, m->xs + l); l += sprintf(m->xs + l, ",\"t\":%d,\"d\":", ty); l += bytesjs(d, n, m->xs + l); sprintf(m->xs + l, "}");
        return;
    }
    m->jl += sprintf(m->js + m->jl, "%s{\"n\":", m->nrr++ ? "," : "");
    m->jl += namejs(o, m->js + m->jl);
    m->jl += sprintf(m->js + m->jl, ",\"t\":%d,\"d\":", ty);
    if(cn) m->jl += namejs(cn, m->js + m->jl); else m->jl += bytesjs(d, n, m->js + m->jl);
    m->jl += sprintf(m->js + m->jl, "}");
}
static void putaddr(struct msg *m, struct dnscall *c, const struct name *o, int ty, int log) {
    unsigned char a[16];
    randhost(ty != 1, a); a[3] = R(256); a[2] = R(256);
    putrr(m, c, o, ty, a, ty == 1 ? 4 : 16, NULL, log);
}
static void putother(struct msg *m, struct dnscall *c) {
    struct name x; mkname(&x, P(50) ? "unrelated" : "other.one.test");
    switch(R(3)) {
    case 0: putaddr(m, c, &x, c->ty, 1); break;
    case 1: putaddr(m, c, &c->nm, c->ty == 1 ? 28 : 1, 1); break;
    default: putrr(m, c, &c->nm, 16, (unsigned char*)"\3txt", 4, NULL, 1);
    }
}
static void beginmsg(struct msg *m, struct dnscall *c, int rcode, int tc) {
    int i; char q[300];
    memset(m, 0, sizeof(*m));
    m->b[0] = c->id >> 8; m->b[1] = c->id; m->b[2] = 0x81 | (tc ? 2 : 0) | (P(30) ? 4 : 0); m->b[3] = 0x80 | rcode; m->b[5] = 1;
    memcpy(m->b + 12, c->qn, c->nqn); m->n = 12 + c->nqn;
    (void)q;
    if(P(20)) for(i = 12; i < m->n;) {int k = m->b[i]; if(k) m->b[i + 1] = toupper(m->b[i + 1]); i += k + 1; if(!k) break;}
    m->b[m->n++] = 0; m->b[m->n++] = c->ty; m->b[m->n++] = 0; m->b[m->n++] = 1;
}
/* ok: 1 an answer to the question, 0 not, 2 nobody knows */
static void deliver(int w, struct msg *m, int rcode, int tc, int ok) {
    struct dnscall *c = &NC[w]; int tcp = c->tcp;
    L("{\"e\":\"da\",\"c\":%d,\"tcp\":%d,\"ok\":%d,\"rc\":%d,\"tc\":%d,\"an\":[%s],\"ar\":[%s]}", w, tcp, ok, rcode, tc, m->js, m->xs);
    if(ok == 1 || tcp) c->q = 0;
    if(ok == 2) c->mang = 1;
    if(tcp) {
        unsigned char b[4100]; int n = m->n + 2, at = 0;
        b[0] = m->n >> 8; b[1] = m->n; memcpy(b + 2, m->b, m->n);
        c->t->merge = 0;
        while(at != n) {int k = P(40) ? n - at : 1 + R(n - at); vk_rx(c->t, b + at, k); at += k;}
    }
    else {
        struct sockaddr_in s = *(struct sockaddr_in*)&c->u->peer;
        vk_rxdgram(c->u, m->b, m->n, (void*)&s, sizeof(s));
    }
}
/* kind: a: addresses (k of them), n: none, x: no such name, s: failure, c: CNAME
   and addresses, l: CNAME only, o: a loop of CNAMEs, t: cut off, g: not an answer,
   m: mangled */
static void dnsanswer(int w, char kind, int k) {
    struct dnscall *c = &NC[w]; struct msg m; int i, rcode = 0, tc = 0, ok = 1; struct name t, z, u;
    static const char *cn[] = {"c1.x", "c2", "c3.z.one.test"};
    rcode = kind == 'x' ? 3 : kind == 's' ? 2 : 0;
    if(D->script) {   /* a target that is new */
        for(i = 0; i < 3; ++i) {int j, old = 0; mkname(&t, cn[i]); for(j = 0; j != c->nch; ++j) old |= samename(&t, &c->ch[j]); if(!old) break;}
    }
    else mkname(&t, cn[R(3)]);
    tc = kind == 't';
    beginmsg(&m, c, rcode, tc);
    int noise = !D->script;
    switch(kind) {
    case 'c': case 'l': case 'o':
        for(i = 0; i != c->nch; ++i) if(samename(&t, &c->ch[i])) {kind = 'n'; break;}
        if(kind == 'n') break;
        if(noise && P(20)) putother(&m, c);
        putrr(&m, c, &c->nm, 5, NULL, 0, &t, 1);
        u = t;
        if(kind == 'o') {putrr(&m, c, &t, 5, NULL, 0, &c->nm, 1); break;}
        if(noise && P(30)) {mkname(&z, "mid.way"); putrr(&m, c, &t, 5, NULL, 0, &z, 1); u = z;
            for(i = 0; i != c->nch; ++i) if(samename(&z, &c->ch[i])) kind = 'c'; }
        if(kind == 'l') break;
        for(i = 0; i != k; ++i) {putaddr(&m, c, &u, c->ty, 1); if(noise && P(10)) putother(&m, c);}
        break;
    case 't':
        if(noise && P(50)) putaddr(&m, c, &c->nm, c->ty, 1);
        break;
    case 'a':
        for(i = 0; i != k; ++i) {if(noise && P(15)) putother(&m, c); putaddr(&m, c, &c->nm, c->ty, 1);}
        break;
    case 'n': if(noise && P(30)) putother(&m, c); break;
    case 'g': ok = 0;
        putaddr(&m, c, &c->nm, c->ty, 1);
        switch(D->script ? 0 : R(6)) {
        case 0: m.b[R(2)] ^= 1 << R(8); break;
        case 1: {   /* about another name */
            unsigned char qn[300]; int nqn = c->nqn, j = 0, l = 0, q = R(4);
            memcpy(qn, c->qn, nqn);
            if(q == 0) {m.b[13] = m.b[13] == 'q' ? 'r' : 'q'; break;}
            if(q == 1) {   /* one character is not the same */
                for(i = R(nqn * 3); ; --i) {
                    if(!l) {l = qn[j++]; if(!l) {j = 0; continue;}}
                    if(i <= 0) break;
                    ++j; --l;
                }
                m.b[12 + j] = tolower(m.b[12 + j]) == 'q' ? 'r' : 'q'; break;
            }
            while(qn[j]) {l = j; j += qn[j] + 1;}
            if(q == 2 && l) {c->qn[l] = 0; c->nqn = l + 1;}   /* without the last label */
            else if(nqn < 200) {memcpy(c->qn + j, "\1q", 3); c->nqn = nqn + 2;}
            else {m.b[0] ^= 8; break;}
            beginmsg(&m, c, rcode, tc); putaddr(&m, c, &c->nm, c->ty, 1);
            memcpy(c->qn, qn, nqn); c->nqn = nqn;
            break;}
        case 2: m.b[12 + c->nqn + 1] ^= 1 + R(30); break;
        case 3: if(!c->tcp) m.n = R(12); else m.b[0] ^= 8; break;
        case 4: m.b[12 + c->nqn + 3] = 3; break;
        case 5: m.b[5] = 0; if(!c->tcp) m.n = 12; break;
        }
        break;
    case 'm': ok = 2;
        for(i = 0; i != 1 + k; ++i) if(P(30)) putother(&m, c); else if(P(30)) putrr(&m, c, &c->nm, 5, NULL, 0, &t, 1); else putaddr(&m, c, &c->nm, c->ty, 1);
        for(i = 1 + R(5); i > 0; --i) m.b[12 + c->nqn + 4 + R(m.n - 16 - c->nqn)] = P(50) ? 0xc0 + R(2) : R(256);
        if(P(30)) m.n = 16 + c->nqn + R(m.n - 16 - c->nqn);
        if(P(20)) m.b[6 + R(6)] = R(256);
        if(P(40)) {   /* an alias to a name that is none */
            unsigned char d[64]; int n = 0, at = m.n + 12 + (P(50) ? c->nqn : 0), q = R(4);
            if(q == 0) {d[0] = 1; d[1] = 'x'; n = 2;}
            else if(q == 1) {d[0] = 2; d[1] = 0; d[2] = R(2); d[3] = 0; n = 4;}
            else if(q == 2) {d[0] = 63; memset(d + 1, P(50) ? 'l' : '.', 63); n = 64;}
            if(q != 1 && at < 0x3f00 && m.n < 3000) {
                if(n > 62) {putrr(&m, c, &c->nm, 5, d, n, NULL, 1); m.b[m.n++] = 0xc0; m.b[m.n++] = R(m.n);}
                else {d[n++] = 0xc0 + (at >> 8); d[n++] = at; putrr(&m, c, &c->nm, 5, d, n, NULL, 1);}
            }
            else putrr(&m, c, &c->nm, 5, d, n, NULL, 1);
        }
        m.js[0] = 0;
        break;
    }
    if(noise && ok == 1 && P(20)) {struct name x; mkname(&x, "unrelated.two"); putaddr(&m, NULL, P(50) ? &x : &c->nm, c->ty, 0);}
    if(m.n > 512 && !c->tcp) {beginmsg(&m, c, rcode, 0); if(ok == 2) m.js[0] = 0;}
    deliver(w, &m, rcode, tc, ok);
}
static void dnsfail(int w, int e) {
    struct dnscall *c = &NC[w];
    if(c->tst == 1) {
        c->tst = 0; c->t->connecting = 0; c->t->soerr = e; c->t->connected = !e;
        L("{\"e\":\"do\",\"c\":%d,\"x\":\"%s\"}", w, e ? en(e) : "ok");
        return;
    }
    if(!e) return;
    L("{\"e\":\"dx\",\"c\":%d,\"tcp\":%d,\"x\":\"%s\"}", w, c->tcp, e < 0 ? "EOF" : en(e));
    c->q = 0;
    if(!c->tcp) c->u->rxerr = e;
    else if(e < 0) c->t->rxeof = 1;
    else c->t->rxerr = e;
}

static int dnsstep(void) {
    int w, n = 0, p = -1, r; static const int ue[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH};
    if(!CF.on) {if(P(30)) dnsconfon(); return 0;}
    for(w = 0; w != MAXW; ++w) if(NC[w].on && (NC[w].q || NC[w].tst) && R(++n) == 0) p = w;
    if(p < 0 || P(40)) return 0;
    struct dnscall *c = &NC[p];
    if(c->tst) {dnsfail(p, P(75) ? 0 : ue[R(3)]); return 1;}
    r = R(100);
    if(c->q == 2) {dnsfail(p, c->tcp ? -1 : ECONNREFUSED); return 1;}
    if(c->tcp && r > 92) {dnsfail(p, P(50) ? -1 : ECONNRESET); return 1;}
    if(!c->tcp && r > 98) {dnsfail(p, ue[R(3)]); return 1;}
    if(r < 12) {dnsanswer(p, 'g', 0); return 1;}
    if(r < 15) {dnsanswer(p, 'm', 1 + R(3)); return 1;}
    if(r < 22) {advance(300 + R(7000)); return 1;}
    dnsanswer(p, "aaaaaannxscclllot"[R(c->tcp ? 16 : 17)], 1 + R(5));
    return 1;
}

static void do_dns(int w) {
    struct dnscall *c = &NC[w]; char t[600], js[900]; struct name m; T0; (void)t0; (void)m;
    static const int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
    int one = P(30), na = one ? 1 : P(20) ? 1 : 1 + R(6), mi = R(5), port = P(20) ? R(2) * 65535 : R(65536), i, inj, odd = 0; struct ipaddr *u; char s[900];
    int64_t n = vkp->clk, dl = P(35) ? -1 : P(10) ? 0 : P(40) ? n + R(60) : n + R(15000);
    char ts[40], *sp = __builtin_frame_address(0);
    strcpy(t, pool[R(5)]);
    if(!D->sc && P(4)) {
        odd = 1;
        switch(R(4)) {
        case 0: memset(t, 'a', 64 + R(20)); t[64] = 0; break;
        case 1: for(i = 0; i != 400; ++i) t[i] = i % 10 == 9 ? '.' : 'b'; t[P(50) ? 256 + R(100) : 240 + R(16)] = 0; break;
        case 2: strcpy(t, "a..b"); break;
        default: strcpy(t, P(50) ? "" : "."); break;
        }
    }
    if(D->sc) {int z = 0; char x[40] = ""; sscanf(D->scarg, "%39s %d %d", x, &mi, &z); strcpy(t, x); na = z ? z : 1; one = !z; port = 7; dl = D->scdl < 0 ? -1 : n + D->scdl;}
    if(odd && dl < 0) dl = n + R(10000);
    if(odd) strcpy(js, "[]"); else {mkname(&m, t); namejs(&m, js);}
    if(!D->sc) randcase(t);
    memset(c, 0, sizeof(*c));
    c->sp = sp; c->on = 1; c->odd = odd;
    inj = (D->m->what & M_INJ) != 0;
    L("{\"e\":\"dc\",\"c\":%d,\"n\":%s,\"mode\":%d,\"na\":%d,\"one\":%d,\"port\":%d,\"dl\":%lld,\"inj\":%d,\"odd\":%d}", w, js, mi, na, one, port, (long long)dl, inj, odd);
    D->sc = 0;
    if(inj && CF.on) {
        if(P(60)) vkp->countdown = 1 + R(20);
        else {vkp->sysdown = 1 + R(9); vkp->syserr = P(50) ? EMFILE : P(50) ? ENFILE : ENOBUFS;}
    }
    u = umem(sizeof(struct ipaddr) * na);
    memset(u, 0x5a, sizeof(struct ipaddr) * na);
    snprintf(ts, sizeof(ts), "%s", t); char *cp = strdup(t);
    errno = EDOM;
    int rc = one ? ipaddr_remote(u, t, port, modes[mi], dl) : ipaddr_remotes(u, na, t, port, modes[mi], dl), e = errno;
    vkp->countdown = 0; vkp->sysdown = 0;
    c->on = 0;
    if(strcmp(cp, t)) oops("the name was changed");
    free(cp);
    if(rc > na) {oops("more addresses than there is space for"); rc = na;}
    i = 0;
    if(c->u) {i += c->u->refs > 1; vk_unref(c->u);}
    if(c->t) {i += c->t->refs > 1; vk_unref(c->t);}
    if(vkp->nfiles) oops("a file was left open");
    aslist(s, u, one ? rc == 0 : rc > 0 ? rc : 0);
    checkrz(u, sizeof(struct ipaddr) * na, "user memory overrun");
    ufree(u);
    L("{\"e\":\"dr\",\"c\":%d,\"r\":%d,\"x\":\"%s\",\"open\":%d,\"as\":%s}", w, rc, rc < 0 ? en(e) : "0", i, s);
    memset(c, 0, sizeof(*c));
}
/* of the script */
static void dnsline(int w, const char *s) {
    struct dnscall *c = w >= 0 && w < MAXW ? &NC[w] : NULL;
    if(!c || !c->on) return;
    if(*s == 'C' || *s == 'R') {if(c->tst) dnsfail(w, *s == 'C' ? 0 : ECONNREFUSED); return;}
    if(!c->q) return;
    if(*s == 'E') {if(c->tcp) dnsfail(w, -1); return;}
    if(*s == 'U') {if(!c->tcp) dnsfail(w, ECONNREFUSED); return;}
    dnsanswer(w, *s, s[1] ? s[1] - '0' : 1);
}
