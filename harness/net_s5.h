/* SOCKS5: included by net_drv.c. The peer's part of a conversation is planned
   when the call is made. */
#include <arpa/inet.h>

static void s5byte(struct tx *t, int b) {char c = b; put(t, &c, 1);}
static void s5text(struct tx *t, size_t n, int c) {
    while(n--) s5byte(t, c + R(6));
}
/* an address and a port; v6 with runs of zeros */
static void s5addr(struct tx *t, int atyp) {
    int i, n = atyp == 4 ? 16 : 4; unsigned char a[16];
    if(atyp == 3) {
        if(P(15)) {char s[20]; sprintf(s, "%d.%d.%d.%d", R(256), R(256), R(256), R(256)); s5byte(t, strlen(s)); puts_(t, s);}
        else {
            n = P(70) ? 1 + R(20) : P(50) ? 1 + R(255) : 255;
            s5byte(t, n); s5text(t, 1, P(8) ? 'x' : 'b'); s5text(t, n - 1, 'b');
        }
    }
    else {
        for(i = 0; i != n; ++i) a[i] = P(30) ? 0 : R(P(50) ? 12 : 256);
        if(n == 16 && P(60)) {int z = 2 * R(8), l = 2 * (1 + R(7)); for(i = z; i < 16 && i < z + l; ++i) a[i] = 0;}
        if(n == 16 && P(10)) {memset(a, 0, 10); memset(a + 10, P(50) ? 255 : 0, 2);}
        put(t, (char*)a, n);
    }
    s5byte(t, R(256)); s5byte(t, R(256));
}
static void s5packet(struct tx *t, int x, int wrong) {
    int at = (int[]){1, 4, 3}[R(3)];
    s5byte(t, wrong == 1 ? R(5) : 5); s5byte(t, x); s5byte(t, wrong == 2 ? 1 + R(255) : 0);
    s5byte(t, wrong == 3 ? (int[]){0, 2, 5, 255}[R(4)] : at); s5addr(t, at);
}
static void s5plan(struct conn *c, struct tx *t, int cut) {
    if(cut) {t->n = R(t->n); c->planend = 1 + R(2);}
    plan(c, t->p, t->n);
}
static void planproxy(struct conn *c, int creds) {
    static struct tx t; int bad = P(40) ? R(10) : -1, m = creds && P(60) ? 2 : 0;
    t.n = 0;
    if(bad == 0) m = 255;
    if(bad == 1) m = !creds && P(50) ? 2 : (int[]){1, 3, 127, 254}[R(4)];
    s5byte(&t, bad == 2 ? (int[]){4, 0, 1, 255}[R(4)] : 5); s5byte(&t, m);
    if(m == 2 && creds) {s5byte(&t, bad == 4 ? (int[]){5, 0, 2}[R(3)] : 1); s5byte(&t, bad == 3 ? 1 + R(255) : 0);}
    s5packet(&t, bad == 5 ? 1 + R(8) : bad == 6 ? 9 + R(247) : 0, bad == 7 ? 1 + R(3) : 0);
    s5plan(c, &t, bad == 8);
}
static void planclient(struct conn *c, int fn) {
    static struct tx t; int bad = P(35) ? R(6) : -1, n = P(80) ? 1 + R(4) : P(50) ? 0 : P(50) ? 255 : R(256), i, up = 0;
    t.n = 0;
    s5byte(&t, bad == 0 ? (int[]){4, 0, 1, 255}[R(4)] : 5); s5byte(&t, n);
    int at = R(n), want = P(75) ? (fn ? 2 : 0) : -1;
    for(i = 0; i != n; ++i) {
        int m = i == at && want >= 0 ? want : (int[]){0, 1, 2, 3, 255, 128}[P(60) ? 3 + R(3) : R(6)];
        up |= m == 2; s5byte(&t, m);
    }
    if(fn && up) {
        char u[600], p[600]; strcpy(u, D->s5user); strcpy(p, D->s5pass);
        if(bad == 1 || bad == 2) {
            char *s = bad == 1 ? u : p; int l = strlen(s), r = R(4);
            if(r == 0 && l) s[l - 1] = 0; else if(r == 1 && l < 255) strcpy(s + l, "a");
            else if(r == 2 && l) s[R(l)] ^= 1; else strcpy(s, "other");
        }
        s5byte(&t, bad == 3 ? (int[]){0, 2, 5}[R(3)] : 1);
        s5byte(&t, strlen(u)); puts_(&t, u); s5byte(&t, strlen(p)); puts_(&t, p);
    }
    s5plan(c, &t, bad == 4);
}

static int s5fn(const char *u, const char *p) {return !strcmp(u, D->s5user) && !strcmp(p, D->s5pass);}

static void s5end(int i, int rc, int e, int last) {
    struct ob *o = &D->O[i];
    o->closing = 0;
    if(rc < 0 && e != EACCES && e != EIO && e != ENETUNREACH && e != EHOSTUNREACH && e != ECONNREFUSED && e != EOPNOTSUPP &&
        e != EAFNOSUPPORT && e != EADDRNOTAVAIL) {o->dead = 3; o->s5 = 9;}
    D->C[o->k].s5 = last || rc < 0 ? 2 : 1;
}
static void s5begin(int w, int i) {D->O[i].closing = 1; D->C[D->O[i].k].s5 = 1;}

static void mkaddr(struct ipaddr *a, unsigned char *b, int *n, int port) {
    char s[100]; int i;
    *n = P(50) ? 4 : 16;
    for(i = 0; i != *n; ++i) b[i] = P(30) ? 0 : R(256);
    if(D->sc) {*n = 4; memcpy(b, "\x0a\0\0\1", 4);}
    inet_ntop(*n == 4 ? AF_INET : AF_INET6, b, s, sizeof(s));
    if(ipaddr_local(a, s, port, *n == 4 ? IPADDR_IPV4 : IPADDR_IPV6)) die("driver: address");
}

static void do_s5client(int w, int i, int name) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); static struct tx t; char a[100], u[600] = "", p[600] = "", h[600] = ""; T0;
    int cu = P(70), cp = cu ? P(95) : P(5), port = P(95) ? 1 + R(65535) : (int[]){0, -1, 65536, 65535, 1}[R(5)], nohost = 0, rc, n;
    struct ipaddr ad; unsigned char b[16];
    t.n = 0;
    size_t z[2]; for(n = 0; n != 2; ++n) z[n] = P(80) ? R(12) : P(50) ? 250 + R(6) : P(50) ? 255 : 256 + R(3);
    if(P(4)) z[0] = z[1] = 255;
    if(D->sc) {cu = cp = D->scarg[0] == '1'; strcpy(u, "u"); strcpy(p, "p"); z[0] = z[1] = 1; port = 80; strcpy(h, "h");}
    else {
        s5text(&t, z[0], 'f'); memcpy(u, t.p, t.n); u[t.n] = 0; t.n = 0; s5text(&t, z[1], 'p'); memcpy(p, t.p, t.n); p[t.n] = 0; t.n = 0;
        if(name && P(35)) {     /* literals, more or less */
            static const char *ls[] = {"1.2.3.4", "255.255.255.255", "0.0.0.0", "1.2.3.4.5", "1.2.3", "256.1.1.1", "01.2.3.4", "1.2.3.04", "1..2.3",
                "::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "FE80::aBcD", "::ffff:1.2.3.4", "1:2:3:4:5:6:7.8.9.10", "fe80::1%lo",
                "1:::2", "12345::", "::1.2.3", ":1::2", "1::2:", "1::2::3", "g::"};
            strcpy(h, ls[R(sizeof(ls) / sizeof(ls[0]))]);
        }
        else {size_t l = P(75) ? 1 + R(20) : P(70) ? 1 + R(255) : P(50) ? 255 : 256 + R(5); s5text(&t, l, 'c'); memcpy(h, t.p, t.n); h[t.n] = 0; t.n = 0;}
        if(P(2)) nohost = 1;
    }
    char *uu = NULL, *pp = NULL, *hh = NULL;
    if(cu) {puts_(&t, u); } if(cp) puts_(&t, p);
    if(!name) {if(port < 1 || port > 65535) port = 80; mkaddr(&ad, b, &n, port); if(!nohost) put(&t, (char*)b, n);}
    else if(!nohost) puts_(&t, h);
    if(cu) {uu = umem(strlen(u) + 1); strcpy(uu, u);} if(cp) {pp = umem(strlen(p) + 1); strcpy(pp, p);} if(name && !nohost) {hh = umem(strlen(h) + 1); strcpy(hh, h);}
    sprintf(a, "%d,%d,%d,%d", cu ? (int)strlen(u) : -1, cp ? (int)strlen(p) : -1, port, nohost);
    s5begin(w, i);
    if(!D->sc) planproxy(&D->C[o->k], cu && cp);
    logc(w, name ? "s5name" : "s5addr", i, "", 0, "", rope((unsigned char*)t.p, t.n, NULL, NULL), a, dl, -1);
    rc = name ? socks5_client_connectbyname(o->h, uu, pp, hh, port, dl) : socks5_client_connect(o->h, uu, pp, nohost ? NULL : &ad, dl);
    int e = errno;
    if(uu) {checkrz(uu, strlen(u) + 1, "write outside of a buffer"); ufree(uu);} if(pp) ufree(pp); if(hh) ufree(hh);
    s5end(i, rc, e, 1);
    logr(w, name ? "s5name" : "s5addr", rc, e, "[]", 1, -1, -1, t0);
}

static void do_s5auth(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); static struct tx t; char a[20]; T0;
    int fn = P(60); size_t z[2]; int n;
    for(n = 0; n != 2; ++n) z[n] = P(80) ? R(12) : P(50) ? 255 : R(256);
    t.n = 0;
    if(D->sc) {fn = D->scarg[0] == '1'; strcpy(D->s5user, "u"); strcpy(D->s5pass, "p");}
    else {
        s5text(&t, z[0], 'f'); memcpy(D->s5user, t.p, t.n); D->s5user[t.n] = 0; t.n = 0;
        s5text(&t, z[1], 'p'); memcpy(D->s5pass, t.p, t.n); D->s5pass[t.n] = 0; t.n = 0;
    }
    if(fn) {puts_(&t, D->s5user); s5byte(&t, 0); puts_(&t, D->s5pass);}
    sprintf(a, "%d", fn);
    s5begin(w, i);
    if(!D->sc) planclient(&D->C[o->k], fn);
    logc(w, "s5auth", i, "", 0, "", rope((unsigned char*)t.p, t.n, NULL, NULL), a, dl, -1);
    D->s5busy++;
    int rc = socks5_proxy_auth(o->h, fn ? s5fn : NULL, dl), e = errno;
    D->s5busy--;
    s5end(i, rc, e, 0);
    if(o->s5 != 9) o->s5 = rc == 0 ? 1 : 3;
    logr(w, "s5auth", rc, e, "[]", 1, -1, -1, t0);
}

static void do_s5cmd(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; int64_t dl = deadline(w); static struct tx t; T0;
    int name = R(2), rc, port = -7; struct ipaddr ad; char *h = umem(256);
    if(D->sc) name = D->scarg[0] == 'n';
    s5begin(w, i);
    if(!D->sc) {
        int bad = P(25) ? R(3) : -1;
        t.n = 0; s5packet(&t, bad == 0 ? (int[]){0, 4, 5, 255}[R(4)] : 1 + R(3), bad == 1 ? 1 + R(3) : 0);
        s5plan(c, &t, bad == 2);
    }
    memset(h, 0x3b, 256);
    logc(w, "s5cmd", i, name ? "name" : "addr", 0, "", "[]", "", dl, -1);
    rc = name ? socks5_proxy_recvcommandbyname(o->h, h, &port, dl) : socks5_proxy_recvcommand(o->h, &ad, dl);
    int e = errno;
    t.n = 0;
    if(rc >= 0) {
        if(name) {put(&t, h, strnlen(h, 256)); s5byte(&t, 0);}
        else {
            const struct sockaddr *s = ipaddr_sockaddr(&ad); port = ipaddr_port(&ad);
            if(s->sa_family == AF_INET) put(&t, (char*)&((struct sockaddr_in*)s)->sin_addr, 4); else put(&t, (char*)&((struct sockaddr_in6*)s)->sin6_addr, 16);
        }
        s5byte(&t, port >> 8); s5byte(&t, port);
    }
    checkrz(h, 256, "write outside of a buffer"); ufree(h);
    s5end(i, rc, e, 0);
    if(!rc) e = 0;
    if(o->s5 != 9) o->s5 = rc >= 0 ? 2 : 3;
    logr(w, "s5cmd", rc, e, rope((unsigned char*)t.p, t.n, NULL, NULL), 1, -1, -1, t0);
}

static void do_s5reply(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); T0; char a[50];
    int code = P(50) ? 0 : P(80) ? R(9) : (int[]){-1, 9, 255, 256}[R(4)], port = P(20) ? 0 : R(65536), n; struct ipaddr ad; unsigned char b[16];
    if(D->sc) {code = atoi(D->scarg); port = 80;}
    mkaddr(&ad, b, &n, port);
    sprintf(a, "%d,%d", code, port);
    s5begin(w, i);
    logc(w, "s5reply", i, "", 0, "", rope(b, n, NULL, NULL), a, dl, -1);
    int rc = socks5_proxy_sendreply(o->h, code, &ad, dl), e = errno;
    s5end(i, rc, e, rc == 0);
    if(rc < 0 && e == EINVAL) {o->dead = 0; o->s5 = 2; D->C[o->k].s5 = 1;}
    else if(o->s5 != 9) o->s5 = 3;
    logr(w, "s5reply", rc, e, "[]", 1, -1, -1, t0);
}
