/* TLS: included by net_drv.c. The peer of a connection is OpenSSL itself on a
   pair of memory buffers: it gets what the library puts on the wire, and what it
   says in turn is the planned input of the connection. The specification Tls is
   not concerned with what TLS looks like on the wire, only with pieces of so and
   so many bytes: of the handshake (h), of one record of data (d), the peer's end
   of data (cn), a piece that was tampered with (x), and data that follow after
   the end of TLS (r). */

struct tlsp {SSL *ssl; BIO *in, *out; int client, hs, over, err, cn, bad, det; int lost;};

void *vk_malloc(size_t n);
void vk_free(void *p);
/* for tls.c: connections and contexts are counted as memory */
SSL *vk_SSL_new(SSL_CTX *c) {
    void *p = vk_malloc(1); SSL *s;
    if(!p) return NULL;
    s = SSL_new(c);
    if(!s || !SSL_set_ex_data(s, 0, p)) die("driver: SSL_new");
    return s;
}
void vk_SSL_free(SSL *s) {if(s) vk_free(SSL_get_ex_data(s, 0)); SSL_free(s);}
SSL_CTX *vk_SSL_CTX_new(const SSL_METHOD *m) {
    void *p = vk_malloc(1); SSL_CTX *s;
    if(!p) return NULL;
    s = SSL_CTX_new(m);
    if(!s || !SSL_CTX_set_ex_data(s, 0, p)) die("driver: SSL_CTX_new");
    return s;
}
void vk_SSL_CTX_free(SSL_CTX *s) {if(s) vk_free(SSL_CTX_get_ex_data(s, 0)); SSL_CTX_free(s);}

static int lastalert;
static void tlsinfo(const SSL *s, int where, int v) {if(where == SSL_CB_READ_ALERT) lastalert = v;}
static SSL_CTX *tlsctx(int client) {
    static SSL_CTX *c[2];
    if(!c[client]) {
        c[client] = SSL_CTX_new(client ? TLS_client_method() : TLS_server_method());
        if(!c[client]) die("driver: TLS");
        SSL_CTX_set_info_callback(c[client], tlsinfo);
        if(!client && (SSL_CTX_use_certificate_file(c[0], HARNESS "/tls_cert.pem", SSL_FILETYPE_PEM) != 1 ||
            SSL_CTX_use_PrivateKey_file(c[0], HARNESS "/tls_key.pem", SSL_FILETYPE_PEM) != 1)) die("driver: TLS certificate");
    }
    return c[client];
}

/* takes what the peer has to say into the plan */
static int tlstake(struct conn *c, const char *t, const char *d) {
    struct tlsp *t_ = c->tls; unsigned char *b; long n = BIO_pending(t_->out);
    if(n <= 0) return 0;
    b = malloc(n);
    if(BIO_read(t_->out, b, n) != n) die("driver: BIO");
    if(t_->bad || t_->cn) {free(b); return 0;}   /* it has nothing more to say */
    if(t[0] == 'x') {if(t_->hs) b[n - 1] ^= 1; else b[0] = 0x63; t_->bad = 1;}
    if(t[0] == 'c') t_->cn = 1;
    Lraw("{\"e\":\"tp\",\"k\":%d,\"t\":\"%s\",\"n\":%ld,\"d\":%s}", c->k, t, n, d);
    plan(c, b, n);
    free(b);
    return 1;
}
static void tlspump(struct conn *c) {
    struct tlsp *t = c->tls; static unsigned char b[20000]; int rc;
    ERR_set_mark();
    if(!t->hs && !t->err) {
        rc = SSL_do_handshake(t->ssl);
        if(rc == 1) t->hs = 1;
        else if(!SSL_want_read(t->ssl)) t->err = 1;
        if(t->err) Lraw("{\"e\":\"te\",\"k\":%d}", c->k);
        else tlstake(c, !D->sc && !D->script && !t->hs && P(2) ? "x" : "h", "[]");
        if(t->hs) Lraw("{\"e\":\"th\",\"k\":%d}", c->k);
    }
    while(t->hs && !t->err && !t->over) {
        lastalert = 0;
        rc = SSL_read(t->ssl, b, sizeof(b));
        if(rc > 0) Lraw("{\"e\":\"to\",\"k\":%d,\"d\":%s}", c->k, rope(b, rc, &c->hv, &c->ho));
        else if(lastalert == 0x100) {
            t->over = 1; Lraw("{\"e\":\"tcn\",\"k\":%d}", c->k);
        }
        else if(SSL_want_read(t->ssl)) break;
        else {t->err = 1; Lraw("{\"e\":\"te\",\"k\":%d}", c->k);}
    }
    if(t->hs) tlstake(c, "h", "[]");
    if(t->over) {
        long n = BIO_pending(t->in);
        while(n > 0) {
            rc = BIO_read(t->in, b, n < (long)sizeof(b) ? n : (long)sizeof(b));
            if(rc <= 0) die("driver: BIO");
            Lraw("{\"e\":\"tr\",\"k\":%d,\"d\":%s}", c->k, rope(b, rc, &c->hv, &c->ho));
            n -= rc;
        }
    }
    ERR_pop_to_mark();
}
static void wirestls(struct conn *c) {
    struct vkobj *o = c->o; struct tlsp *t = c->tls;
    int cl = o->refs == 1 && o->closed && !c->cl;
    size_t n = o->txlen - c->txseen;
    if(n) {
        if(BIO_write(t->in, o->tx + c->txseen, n) != (int)n) die("driver: BIO");
        c->txseen = o->txlen;
        Lraw("{\"e\":\"tb\",\"k\":%d,\"n\":%zu,\"win\":%d}", c->k, n, o->txwin);
        tlspump(c);
    }
    if(cl) {c->cl = 1; Lraw("{\"e\":\"w\",\"k\":%d,\"d\":[],\"cl\":1}", c->k);}
}

/* the peer of a connection that is about to use TLS */
static void tlspeer(struct conn *c, int client, int ver) {
    struct tlsp *t = c->tls = calloc(1, sizeof(*t));
    t->client = client;
    t->ssl = SSL_new(tlsctx(client)); t->in = BIO_new(BIO_s_mem()); t->out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(t->in, -1); BIO_set_mem_eof_return(t->out, -1);
    SSL_set_bio(t->ssl, t->in, t->out);
    SSL_set_min_proto_version(t->ssl, ver ? TLS1_3_VERSION : TLS1_2_VERSION);
    SSL_set_max_proto_version(t->ssl, ver ? TLS1_3_VERSION : TLS1_2_VERSION);
    if(client) {SSL_set_connect_state(t->ssl); tlspump(c);} else SSL_set_accept_state(t->ssl);
}
static void tlsfree(struct conn *c) {if(c->tls) {SSL_free(c->tls->ssl); free(c->tls); c->tls = NULL;}}

static int tlsend(struct conn *c) {
    struct tlsp *t = c->tls;
    if(!t->hs || t->err || t->bad || t->cn) return 0;
    ERR_set_mark();
    SSL_shutdown(t->ssl);
    ERR_pop_to_mark();
    return tlstake(c, "cn", "[]");
}
/* the peer sends n bytes; how: 'd', 'x' or 'r' */
static int tlsput(struct conn *c, size_t n, int how) {
    struct tlsp *t = c->tls;
    if(how == 'r') {
        if(!t->cn || !n) return 0;
        struct pat *p = newpat(0, n);
        Lraw("{\"e\":\"tp\",\"k\":%d,\"t\":\"r\",\"n\":%zu,\"d\":%s}", c->k, n, rope(p->p, n, NULL, NULL));
        plan(c, p->p, n); noteplan(c, n);
        return 1;
    }
    if(n > 16384) n = 16384;
    if(!n || !t->hs || t->err || t->bad || t->cn) return 0;
    struct pat *p = newpat(0, n);
    ERR_set_mark();
    if(SSL_write(t->ssl, p->p, n) != (int)n) die("driver: SSL_write");
    ERR_pop_to_mark();
    noteplan(c, n);
    return tlstake(c, how == 'x' ? "x" : "d", rope(p->p, n, NULL, NULL));
}
static void gentls(struct conn *c) {
    struct tlsp *t = c->tls; int r = R(100);
    if(!t || !t->hs || t->err || t->bad) return;
    if(t->cn) {if(P(t->det ? 60 : 8)) tlsput(c, rsize(), 'r'); return;}
    if(t->over && P(25)) {tlsend(c); return;}
    if(r < (D->m->what & M_CLOSE ? 10 : 4)) {tlsend(c); return;}
    if(r < 6) {tlsput(c, 1 + rsize(), 'x'); return;}
    tlsput(c, rsize(), 'd');
}

static void do_tattach(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; int64_t dl = deadline(w); T0; char a[40];
    int client = R(2), ver = R(2), mem = P(40), nomem = mem && P(4), bad = !client && P(4), rc, r = R(3); void *m = NULL;
    if(D->sc) {int x = 0; sscanf(D->scarg, "%d", &x); client = x & 1; ver = x >> 1 & 1; nomem = bad = 0; dl = -1;}
    const char *cert = HARNESS "/tls_cert.pem", *key = HARNESS "/tls_key.pem";
    if(bad) {if(r == 0) cert = "/nonexistent"; else if(r == 1) key = "/nonexistent"; else key = cert;}
    if(mem && !nomem) m = umem(sizeof(struct tls_storage));
    tlspeer(c, !client, ver);
    sprintf(a, "%d,%d,%d", nomem, bad, client);
    o->closing = 1;
    logc(w, "tattach", i, "", 0, "", "[]", a, dl, -1);
    if(client) rc = mem ? tls_attach_client_mem(o->h, m, dl) : tls_attach_client(o->h, dl);
    else rc = mem ? tls_attach_server_mem(o->h, cert, key, m, dl) : tls_attach_server(o->h, cert, key, dl);
    int e = errno, n = -1;
    o = &D->O[i];
    if(rc >= 0) {
        n = newob(rc, T_TLS, i, o->k);
        D->O[n].mem = m; D->O[n].memsz = sizeof(struct tls_storage);
        D->O[i].st = 1; D->O[i].closing = 0;
    }
    else {if(m) retire(m, sizeof(struct tls_storage)); release(i);}
    logr(w, "tattach", rc < 0 ? -1 : 0, e, "[]", 1, n, -1, t0);
}
static void do_tdone(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); int rc, e; T0;
    o->sb++;
    logc(w, "tdone", i, "", 0, "", "[]", "", dl, -1);
    rc = tls_done(o->h, dl); e = errno;
    D->O[i].sb--;
    if(rc == 0) D->O[i].done = 1; else if(e != EBUSY) D->O[i].dead |= 2;
    logr(w, "tdone", rc, e, "[]", 1, -1, -1, t0);
}
static void do_tdetach(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; int64_t dl = deadline(w); T0; int h = -1;
    if(!D->sc && !c->ended && P(75)) {wires(); tlsend(c);}
    o->closing = 1;
    logc(w, "tdetach", i, "", 0, "", "[]", "", dl, -1);
    int rc = tls_detach(o->h, dl), e = errno;
    o = &D->O[i];
    if(rc >= 0) {
        h = o->u; D->O[h].st = 0; D->O[h].h = rc; D->O[h].dead = 0;
        o->st = 2; retireob(o); c->tls->det = 1;
    }
    else release(i);
    logr(w, "tdetach", rc < 0 ? -1 : 0, e, "[]", 1, h, -1, t0);
}
/* calls for other sockets; with r >= 4 the handle given is closed, too */
static void do_twrong(int w, int i) {
    struct ob *o = &D->O[i]; int r = R(6), rc, b = -1; char buf[8] = "abc"; T0; int64_t dl = deadline(w);
    struct tls_storage mem;
    if(o->ty != T_TLS && r < 2) r = 2 + R(4);
    if(w && D->W[w].cancelled && r >= 4) r = 2;
    if(r >= 4) b = bundle();
    logc(w, "twrong", r < 2 ? i : -1, r < 2 ? "ENOTSUP" : r < 4 ? "EBADF" : "EPROTO", 0, "", "[]", "", -1, -1);
    switch(r) {
    case 0: rc = msend(o->h, buf, 3, dl); break;
    case 1: rc = mrecv(o->h, buf, 3, dl); break;
    case 2: rc = tls_done(b, dl); break;
    case 3: rc = R(2) ? tls_detach(b, dl) : tls_attach_client(b, dl); break;
    case 4: rc = tls_attach_client_mem(b, &mem, dl); break;
    default: rc = tls_attach_server(b, HARNESS "/tls_cert.pem", HARNESS "/tls_key.pem", dl); break;
    }
    int e = errno;
    logr(w, "twrong", rc, e, "[]", 1, -1, -1, t0);
}

static void dotls(int w) {
    int i, tries, r;
    if(live() < D->m->conns && D->nc < MAXC - 12 && D->no < MAXO - 20) {do_fromfd(w, 1); return;}
    for(tries = 0; tries != 20; ++tries) {
        i = pickob();
        if(i < 0) return;
        struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k];
        r = R(100);
        if(r < 2) {do_twrong(w, i); return;}
        if(o->ty != T_TLS && !c->tls) {
            if(!idle(o)) continue;
            if(r < 5) {do_close(w, i, 1); return;}
            do_tattach(w, i); return;
        }
        if(idle(o)) {
            if(r < (o->dead == 3 ? 40 : o->dead ? 10 : 5)) {do_close(w, i, 1); return;}
            if(o->ty == T_TLS && (r < (o->dead ? 20 : 11))) {do_tdetach(w, i); return;}
        }
        r = R(100); int busy = P(6);
        if(o->ty == T_TLS && r < 7) {if(!o->sb || busy) {do_tdone(w, i); return;} continue;}
        if(r < 50) {if(!o->sb || busy) {do_bsend(w, i, 0); return;}}
        else if(!o->rb || busy) {do_recv(w, i, 0); return;}
    }
}
