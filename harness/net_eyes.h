/* Connecting by name: included by net_drv.c. Events are those of the
   specification Eyes. The driver answers the lookups and decides how the
   attempts end. The i-th address (from 0) of a name is fd00::i+1 or 10.0.0.i+1;
   the port tells whose attempt it is. */

static void answer(int w, int f, int n, const char *lt) {   /* f: 0 is IPv4, 1 IPv6 */
    struct hecall *h = &D->H[w];
    snprintf(h->lt[f], sizeof(h->lt[f]), "%s", lt);
    if(n > h->max[f]) n = h->max[f];
    h->n[f] = n;
    L("{\"e\":\"da\",\"c\":%d,\"fam\":%d,\"n\":%d}", w, f ? 6 : 4, n);
}
static void answerrandom(int w, int f) {
    char lt[16]; int i, how = R(4);
    for(i = 0; i != 12; ++i) lt[i] = how == 0 ? 'p' : how == 1 ? 'f' : "ppppffo"[R(7)];
    lt[12] = 0;
    answer(w, f, P(25) ? 0 : P(80) ? 1 + R(3) : 1 + R(12), lt);
}

/* stands in for the lookup that happyeyeballs.c makes */
int vk_ipaddr_remotes(struct ipaddr *addrs, int naddrs, const char *name, int port, int mode, int64_t deadline) {
    int w, i, f = mode == IPADDR_IPV6, rc = 0;
    for(w = 0; w != MAXW; ++w) if(D->H[w].on && !strcmp(name, D->H[w].name)) break;
    if(w == MAXW) {oops("another name is looked up"); errno = EADDRNOTAVAIL; return -1;}
    struct hecall *h = &D->H[w];
    if(port != h->port) oops("another port is looked up");
    if(mode != IPADDR_IPV6 && mode != IPADDR_IPV4) oops("lookup of an odd kind");
    if(naddrs < 1) oops("lookup of no addresses");
    h->n[f] = -1; h->max[f] = naddrs;
    L("{\"e\":\"ds\",\"c\":%d,\"fam\":%d}", w, f ? 6 : 4);
    if(!D->script && P(10)) answerrandom(w, f);
    else {
        int g = vk_open(VK_READY, 300, 0);
        h->gate[f] = g;
        rc = fdin(g, deadline); int e = errno;
        fdclean(g); vk_closefd(g);
        h->gate[f] = 0;
        if(rc < 0 && e != ECANCELED) answer(w, f, 0, "");
        errno = e;
        if(rc < 0) return -1;
    }
    for(i = 0; i < h->n[f]; ++i) {
        unsigned char b[16]; memset(b, 0, 16);
        b[0] = f ? 0xfd : 10; b[f ? 15 : 3] = i + 1;
        setaddr(&addrs[i], f ? 6 : 4, b, port);
    }
    if(!h->n[f] && P(50)) {errno = EADDRNOTAVAIL; return -1;}
    return h->n[f];
}

static int heconnect(struct vkobj *o, const struct sockaddr *a) {
    unsigned char b[20]; int n = abytes(a, b), w, i = -1, f = n == 18, e;
    int port = n ? b[n - 2] * 256 + b[n - 1] : -1;
    for(w = 0; w != MAXW; ++w) if(D->H[w].on && D->H[w].port == port) break;
    if(w == MAXW) {oops("a connection to another port"); return ECONNREFUSED;}
    struct hecall *h = &D->H[w];
    if(n) {
        unsigned char x[16]; memset(x, 0, 16);
        x[0] = f ? 0xfd : 10; x[f ? 15 : 3] = b[n - 3];
        if(!memcmp(x, b, n - 2) && b[n - 3] >= 1 && b[n - 3] <= h->n[f]) i = b[n - 3] - 1;
    }
    struct conn *c = newconn(o, 0);
    if(!o->txwin) o->txwin = 1;
    c->he = w + 1;
    char lt = i < 0 || i >= (int)strlen(h->lt[f]) ? 'p' : h->lt[f][i];
    e = lt == 'o' ? 0 : lt == 'f' ? (int[]){ECONNREFUSED, ENETUNREACH, EHOSTUNREACH}[D->script ? 0 : R(3)] : EINPROGRESS;
    c->es = e == EINPROGRESS;
    L("{\"e\":\"ec\",\"c\":%d,\"k\":%d,\"fam\":%d,\"i\":%d,\"est\":\"%s\"}", w, c->k, f ? 6 : 4, i,
        e == 0 ? "ok" : e == EINPROGRESS ? "prog" : en(e));
    return e;
}

static void heend(struct conn *c, int e) {
    struct vkobj *o = c->o;
    c->es = 0; o->connecting = 0; o->soerr = e; o->connected = !e;
    L("{\"e\":\"es\",\"k\":%d,\"x\":\"%s\"}", c->k, e ? en(e) : "ok");
}

static int eyestep(void) {
    static const int ee[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH};
    int w, f, i, n = 0, pick = 0;
    if(P(65)) return 0;
    for(w = 0; w != MAXW; ++w) for(f = 0; f != 2; ++f) {
        struct hecall *h = &D->H[w];
        if(h->on && h->gate[f] && !vkp->fd[h->gate[f]]->in && R(++n) == 0) pick = 1 + w * 2 + f;
    }
    for(i = 0; i != D->nc; ++i) if(D->C[i].es && !D->C[i].cl && D->C[i].o->refs > 1 && R(++n) == 0) pick = -1 - i;
    if(!n) return 0;
    if(pick < 0) heend(&D->C[-1 - pick], P(25) ? 0 : ee[R(4)]);
    else {
        w = (pick - 1) / 2; f = (pick - 1) % 2;
        answerrandom(w, f);
        vkp->fd[D->H[w].gate[f]]->in = 1;
    }
    return 1;
}
/* of the script */
static void heanswer(int w, int fam, const char *lt) {
    int f = fam == 6;
    if(w < 0 || w >= MAXW || !D->H[w].on || !D->H[w].gate[f] || vkp->fd[D->H[w].gate[f]]->in) return;
    answer(w, f, strspn(lt, "pfo"), lt);
    vkp->fd[D->H[w].gate[f]]->in = 1;
}

static void do_he(int w) {
    struct hecall *h = &D->H[w]; char a[32]; int i, k = -1, first = D->nc, n = 0; T0;
    int r = R(100), bad = !D->sc && P(D->m->bad), inj = (D->m->what & M_INJ) != 0, port;
    int64_t dl = D->sc ? deadline(w) : r < 50 ? -1 : r < 55 ? 0 : vkp->clk + R(r < 75 ? 400 : 2000);
    if(D->nc > MAXCC - 30) {D->sc = 0; return;}
    port = P(10) ? 1 : P(10) ? 65535 : 20000 + 100 * w + D->hecnt++ % 100;
    for(i = 0; i != MAXW; ++i) if(D->H[i].on && D->H[i].port == port) port = 20000 + 100 * w + D->hecnt++ % 100;
    memset(h, 0, sizeof(*h));
    h->on = 1; h->port = port; h->n[0] = h->n[1] = -1;
    sprintf(h->name, "h%d.%d", port, D->hecnt);
    sprintf(a, "%d,%d", inj, bad);
    logc(w, "he", -1, "", 0, "", "[]", a, dl, -1);
    if(inj && vkp->countdown) vkp->countdown = 1 + R(12);
    r = R(4);
    int rc = happyeyeballs_connect(bad && r == 0 ? NULL : h->name, !bad || r == 0 ? port : r == 1 ? 0 : r == 2 ? -R(3000) - 1 : 65536 + R(5000), dl), e = errno;
    h->on = 0;
    wires();
    for(i = first; i != D->nc; ++i) if(D->C[i].he == w + 1) {
        struct conn *c = &D->C[i];
        c->he = 0;
        if(rc >= 0 && !c->cl) {k = i; ++n;}
    }
    if(n > 1) k = -2;
    if(rc >= 0 && k >= 0) D->C[k].es = 0;
    logr(w, "he", rc < 0 ? -1 : 0, e, "[]", 1, k, -1, t0);
    if(rc < 0) return;
    if(k >= 0) {
        struct vkobj *o = D->C[k].o; size_t was = o->txlen;
        errno = EDOM;
        i = bsend(rc, "x", 1, -1); e = errno;
        if(i ? !D->W[w].cancelled || e != ECANCELED : o->txlen != was + 1 || o->tx[was] != 'x') oops("the connection does not work");
    }
    if(hclose(rc)) oops("hclose of a connection failed");
}
