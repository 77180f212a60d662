/* UDP sockets: included by net_drv.c. Events are those of the specification
   Udp. Addresses are written as the bytes of the host, then the port. */

static int abytes(const struct sockaddr *s, unsigned char *b) {
    int n = 0; unsigned port = 0;
    if(s->sa_family == AF_INET) {n = 4; memcpy(b, &((struct sockaddr_in*)s)->sin_addr, 4); port = ntohs(((struct sockaddr_in*)s)->sin_port);}
    if(s->sa_family == AF_INET6) {n = 16; memcpy(b, &((struct sockaddr_in6*)s)->sin6_addr, 16); port = ntohs(((struct sockaddr_in6*)s)->sin6_port);}
    if(!n) return 0;
    b[n] = port >> 8; b[n + 1] = port & 255;
    return n + 2;
}
static char *alist(const unsigned char *b, int n) {
    static char r[8][700]; static int ri; char *s = r[ri = (ri + 1) % 8]; int i, l = 1;
    strcpy(s, "[");
    for(i = 0; i != n; ++i) l += sprintf(s + l, "%s%d", i ? "," : "", b[i]);
    strcpy(s + l, "]");
    return s;
}
static void setaddr(struct ipaddr *a, int fam, const unsigned char *h, int port) {
    char s[100];
    inet_ntop(fam == 4 ? AF_INET : AF_INET6, h, s, sizeof(s));
    if(ipaddr_local(a, s, port, fam == 4 ? IPADDR_IPV4 : IPADDR_IPV6)) die("driver: address");
}
/* the addresses of the others differ in single bytes */
static void pooladdr(struct ipaddr *a, int fam, int x) {
    unsigned char h[16]; memset(h, 0, 16);
    int n = fam == 4 ? 4 : 16;
    h[0] = 10 + (x >> 2 & 1); h[n - 1] = 1 + (x & 1);
    if(n == 16) h[8] = x >> 4 & 1;
    setaddr(a, fam, h, 100 + (x >> 1 & 1) + 256 * (x >> 3 & 1));
}
static int poolx(void) {return P(60) ? R(4) : R(32);}

static int envudp(struct conn *c) {
    struct vkobj *o = c->o; struct ipaddr a; unsigned char b[20]; int n, r = R(100);
    static const int te[] = {ECONNREFUSED, ENETUNREACH, EPERM, ENOBUFS, EHOSTUNREACH, EMSGSIZE, ENOMEM};
    if(c->cl || !c->k2) return 0;
    if(r < D->m->err) {
        static const int re[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ENOMEM};
        o->rxerr = re[R(4)];
        L("{\"e\":\"ux\",\"k\":%d,\"x\":\"%s\"}", c->k, en(o->rxerr));
        return 1;
    }
    if(r < D->m->err + 6) {
        o->txerr = o->txerr || P(30) ? 0 : te[R(7)];
        L("{\"e\":\"uy\",\"k\":%d,\"x\":\"%s\"}", c->k, o->txerr ? en(o->txerr) : "");
        return 1;
    }
    if(r < D->m->err + 12) {
        o->txwin = o->txwin ? 0 : -1;
        L("{\"e\":\"W\",\"k\":%d,\"n\":%ld}", c->k, o->txwin);
        return 1;
    }
    if(vk_rxavail(o) > 100000) return 0;
    size_t z = rsize(); if(z > 65507) z = 65507;
    struct pat *p = newpat(0, z);
    if(c->hasrem && P(60)) a = c->rem; else pooladdr(&a, c->fam, poolx());
    n = abytes(ipaddr_sockaddr(&a), b);
    vk_rxdgram(o, p->p, z, ipaddr_sockaddr(&a), ipaddr_len(&a));
    noteplan(c, z);
    L("{\"e\":\"ui\",\"k\":%d,\"a\":%s,\"d\":%s}", c->k, alist(b, n), rope(p->p, z, NULL, NULL));
    return 1;
}

/* what the library has done to a UDP socket */
static void wiresudp(struct conn *c) {
    struct vkobj *o = c->o, *q = o->acc[0]; unsigned char b[20];
    int cl = o->refs == 1 && o->closed && !c->cl;
    while(q && q->rxh) {
        struct vkseg *s = q->rxh;
        q->rxh = s->next; if(!q->rxh) q->rxt = NULL;
        int n = s->salen ? abytes((struct sockaddr*)&s->sa, b) : 0;
        Lraw("{\"e\":\"u\",\"k\":%d,\"a\":%s,\"d\":%s}", c->k, alist(b, n), rope(s->data, s->len, NULL, NULL));
        free(s);
    }
    if(cl) {c->cl = 1; Lraw("{\"e\":\"w\",\"k\":%d,\"d\":[],\"cl\":1}", c->k);}
}

static void do_uopen(int w) {
    T0; int fam = R(2) ? 4 : 6, lf = P(65) ? fam : 0, rf = P(60) ? fam : 0, mem = P(40), nomem = mem && P(5), inuse = 0, i, port; char a[64]; void *m = NULL;
    struct ipaddr la, ra, rs; unsigned char b[50], h[16]; int n = 0;
    if(!D->sc && lf && rf && P(4)) rf = 10 - lf;
    if(D->sc) {fam = 4; lf = 0; rf = D->scfrag ? 4 : 0; nomem = mem = 0;}
    port = P(40) ? 0 : P(80) ? 1000 + R(6) : R(65536);
    memset(h, 0, 16); if(P(50)) {h[0] = 127; h[lf == 4 ? 3 : 15] = 1;}
    memset(&la, 0, sizeof(la)); memset(&ra, 0, sizeof(ra));
    if(lf) {setaddr(&la, lf, h, port); n += abytes(ipaddr_sockaddr(&la), b + n);}
    if(rf) {pooladdr(&ra, rf, D->sc ? 0 : poolx()); n += abytes(ipaddr_sockaddr(&ra), b + n);}
    rs = ra;
    if(lf && port) for(i = 0; i != VK_NFDS; ++i) {
        struct vkobj *p = vkp->fd[i];
        if(p && p->bound && p->type == SOCK_DGRAM && p->addrlen == ipaddr_len(&la) && !memcmp(&p->addr, ipaddr_sockaddr(&la), p->addrlen)) inuse = 1;
    }
    if(mem && !nomem) m = umem(sizeof(struct udp_storage));
    sprintf(a, "%d,%d,%d,%d", nomem, lf, rf, inuse);
    int before = vkp->ids;
    logc(w, "uopen", -1, "", 0, "", rope(b, n, NULL, NULL), a, -1, -1);
    int rc = mem ? udp_open_mem(lf ? &la : NULL, rf ? &ra : NULL, m) : udp_open(lf ? &la : NULL, rf ? &ra : NULL), e = errno; long r = -1;
    if(memcmp(&rs, &ra, sizeof(ra))) oops("the remote address was changed");
    memset(&ra, 0x5a, sizeof(ra));     /* it is the caller's */
    n = -1;
    if(rc >= 0) {
        struct vkobj *p = NULL;
        for(i = 0; i != VK_NFDS; ++i) if(vkp->fd[i] && vkp->fd[i]->kind == VK_DGRAM && vkp->fd[i]->id > before) p = vkp->fd[i];
        if(!p) die("driver: UDP socket lost");
        struct conn *c = newconn(p, p->family == AF_INET ? 4 : 6);
        c->udp = c->k2 = 1; c->text = 0; p->merge = 0; p->txcall = 0; p->txwin = -1; c->hasrem = rf != 0; c->rem = rs;
        int z = p->bound ? abytes((struct sockaddr*)&p->addr, b) : 0;
        L("{\"e\":\"un\",\"c\":%d,\"k\":%d,\"fam\":%d,\"a\":%s}", w, c->k, c->fam, alist(b, z));
        n = newob(rc, T_UDP, -1, c->k); D->O[n].mem = m; D->O[n].memsz = sizeof(struct udp_storage);
        r = lf ? ipaddr_port(&la) : 0;
    }
    else if(m) retire(m, sizeof(struct udp_storage));
    if(lf) memset(&la, 0x5a, sizeof(la));
    logr(w, "uopen", r, e, "[]", 1, n, -1, t0);
}

static void do_usend(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; struct list l; size_t n = rsize(); T0;
    struct ipaddr a; unsigned char b[20]; int to = P(c->hasrem ? 45 : 92), na = 0, rc, bk = badkind();
    if(P(3)) n = 65504 + R(8);
    if(n > 65535) n = 65535;
    if(c->hasrem && P(20)) a = c->rem; else pooladdr(&a, c->fam, poolx());
    if(D->sc) {int x = -1, z = 0; sscanf(D->scarg, "%d %d", &z, &x); n = z; to = x >= 0; if(to) pooladdr(&a, c->fam, x);}
    if(to) na = abytes(ipaddr_sockaddr(&a), b);
    struct pat *p = newpat(0, n);
    mklist(&l, n, p->p, bk);
    char *d = rope(p->p, n, NULL, NULL), *al = alist(b, na); al[strlen(al) - 1] = 0;
    logc(w, "usend", i, "", l.bk, l.b, d, al + 1, -1, -1);
    int plain = !to && P(50);
    if(l.single) rc = plain ? msend(o->h, l.buf[0], n, deadline(w)) : udp_send(o->h, to ? &a : NULL, l.buf[0], n);
    else rc = plain ? msendl(o->h, l.first, l.last, deadline(w)) : udp_sendl(o->h, to ? &a : NULL, l.first, l.last);
    int e = errno;
    int ok = endlist(&l, NULL, NULL, 0);
    logr(w, "usend", rc, e, "[]", ok, -1, -1, t0);
}

static void do_urecv(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; struct list l; int64_t dl = deadline(w); size_t n = rsize(); T0;
    struct ipaddr a; int want = P(60), bk = badkind(), plain = P(35); const char *sc = NULL; ssize_t rc; char wa[4];
    if(P(70)) {n = c->lastmsg[R(4)]; int r = R(4); if(r == 1) ++n; if(r == 2 && n) --n; if(r == 3) n += R(100);}
    if(D->sc) {want = D->scarg[0] == '1'; sc = D->scarg + 2; plain = 0;}
    if(!bk && !sc && P(8)) bk = 2;
    if(sc && !strcmp(sc, "-")) bk = 2;
    if(sc) {const char *q = sc; n = 0; while(*q) {n += strtoul(q, (char**)&q, 10); while(*q && (*q < '0' || *q > '9')) ++q;}}
    mklist_(&l, n, NULL, bk, bk == 2 ? NULL : sc);
    if(l.single && !l.buf[0]) l.single = 0;
    if(plain) want = 0;
    memset(&a, 0x5a, sizeof(a));
    sprintf(wa, "%d", want);
    o->rb++;
    logc(w, "urecv", i, "", l.bk, l.b, "[]", wa, dl, -1);
    if(l.single) rc = plain ? mrecv(o->h, l.buf[0], n, dl) : udp_recv(o->h, want ? &a : NULL, l.buf[0], n, dl);
    else rc = plain ? mrecvl(o->h, l.first, l.last, dl) : udp_recvl(o->h, want ? &a : NULL, l.first, l.last, dl);
    int e = errno;
    D->O[i].rb--;
    unsigned char *out = malloc(n + 40); size_t no = 0, na = 0;
    if(rc >= 0 && want) na = abytes(ipaddr_sockaddr(&a), out);
    size_t got = rc < 0 || bk == 2 ? 0 : (size_t)rc;
    int ok = endlist(&l, out + na, &no, got > n ? n : got);
    logr(w, "urecv", rc, e, rope(out, rc < 0 ? 0 : na + no, NULL, NULL), ok, -1, -1, t0);
    free(out);
}

static void do_uwrong(int w, int i) {
    struct ob *o = &D->O[i]; int r = R(6), rc, b = -1; char buf[8] = "abc"; T0; struct ipaddr a; int64_t dl = deadline(w);
    if(w && D->W[w].cancelled && r >= 2 && r < 4) r += 2;
    if(r >= 2 && r < 4) b = bundle();
    pooladdr(&a, 4, 0);
    logc(w, "uwrong", r < 2 ? i : -1, r < 4 ? "ENOTSUP" : "EBADF", 0, "", "[]", "", -1, -1);
    switch(r) {
    case 0: rc = bsend(o->h, buf, 3, dl); break;
    case 1: rc = brecv(o->h, buf, 3, dl); break;
    case 2: case 4: rc = udp_send(b, R(2) ? &a : NULL, buf, 3); break;
    default: rc = udp_recv(b, NULL, buf, 3, dl);
    }
    int e = errno;
    if(b >= 0) hclose(b);
    logr(w, "uwrong", rc, e, "[]", 1, -1, -1, t0);
}

static void doudp(int w) {
    int i, tries, r;
    if(live() < D->m->conns ? P(60) : P(2)) {if(D->nc < MAXC - 12 && D->no < MAXO - 20) do_uopen(w); return;}
    for(tries = 0; tries != 20; ++tries) {
        i = pickob();
        if(i < 0) return;
        struct ob *o = &D->O[i];
        r = R(100);
        if(r < 4 && idle(o)) {do_close(w, i, 1); return;}
        if(r < 6) {if(P(40) && idle(o)) do_close(w, i, 0); else do_uwrong(w, i); return;}
        if(r < 50) {do_usend(w, i); return;}
        if(!o->rb || P(10)) {do_urecv(w, i); return;}
    }
}
