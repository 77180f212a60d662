/* HTTP and WebSocket: included by net_drv.c. */

/******************************************************************************/
/*  SHA-1 and Base64, for the other side of the handshake                     */
/******************************************************************************/

static void sha1(const unsigned char *d, size_t n, unsigned char out[20]) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}, w[80];
    unsigned char m[256]; size_t i, t, z = n + 1; int j;
    memset(m, 0, sizeof(m)); memcpy(m, d, n); m[n] = 0x80;
    while(z % 64 != 56) ++z;
    for(j = 0; j != 8; ++j) m[z + j] = ((uint64_t)n * 8) >> (56 - 8 * j);
    z += 8;
    for(t = 0; t != z; t += 64) {
        for(i = 0; i != 16; ++i) w[i] = m[t+4*i] << 24 | m[t+4*i+1] << 16 | m[t+4*i+2] << 8 | m[t+4*i+3];
        for(i = 16; i != 80; ++i) {uint32_t x = w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16]; w[i] = x << 1 | x >> 31;}
        uint32_t a = h[0], b = h[1], c = h[2], e = h[3], g = h[4];
        for(i = 0; i != 80; ++i) {
            uint32_t f, k;
            if(i < 20) {f = (b & c) | (~b & e); k = 0x5A827999;}
            else if(i < 40) {f = b ^ c ^ e; k = 0x6ED9EBA1;}
            else if(i < 60) {f = (b & c) | (b & e) | (c & e); k = 0x8F1BBCDC;}
            else {f = b ^ c ^ e; k = 0xCA62C1D6;}
            uint32_t x = (a << 5 | a >> 27) + f + g + k + w[i];
            g = e; e = c; c = b << 30 | b >> 2; b = a; a = x;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g;
    }
    for(i = 0; i != 20; ++i) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void enc64(const unsigned char *d, size_t n, char *o) {
    size_t i;
    for(i = 0; i < n; i += 3) {
        uint32_t v = d[i] << 16 | (i + 1 < n ? d[i+1] << 8 : 0) | (i + 2 < n ? d[i+2] : 0);
        *o++ = b64[v >> 18]; *o++ = b64[v >> 12 & 63];
        *o++ = i + 1 < n ? b64[v >> 6 & 63] : '='; *o++ = i + 2 < n ? b64[v & 63] : '=';
    }
    *o = 0;
}
static void accepts(const char *key, char *acc) {
    unsigned char b[200], h[20]; int n = snprintf((char*)b, sizeof(b), "%.24s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key);
    sha1(b, n, h); enc64(h, 20, acc);
}

/******************************************************************************/
/*  Canonical form: keys and masks                                            */
/******************************************************************************/

static void fresh(const unsigned char *m) {
    D->same = memcmp(D->lastmask, m, 4) ? 0 : D->same + 1;
    if(D->same > 3) oops("masks are not random");
    memcpy(D->lastmask, m, 4);
}

/* What the library has put on the wire, as it is to be recorded. */
static unsigned char *canon(struct conn *c, const unsigned char *d, size_t n) {
    unsigned char *b = malloc(n + 1); size_t i;
    memcpy(b, d, n);
    if(c->hs == 1) {
        static const char kf[] = "\r\nSec-WebSocket-Key: "; size_t at = c->nhb, ks = 0;
        c->hb = realloc(c->hb, at + n + 1); memcpy(c->hb + at, d, n); c->nhb += n;
        unsigned char *f = memmem(c->hb, c->nhb, kf, sizeof(kf) - 1);
        if(f) {
            ks = f - c->hb + sizeof(kf) - 1;
            for(i = 0; i != n; ++i) if(at + i >= ks && at + i < ks + 24) {
                int k = at + i - ks;
                b[i] = k < 22 ? (strchr(b64, d[i]) && d[i] ? 'K' : d[i]) : d[i] == '=' ? 'K' : d[i];
                /* 16 bytes leave four bits in the last character */
                if(k == 21 && b[i] == 'K' && ((strchr(b64, d[i]) - b64) & 15)) b[i] = d[i];
            }
            if(c->nhb >= ks + 24 && !c->key[0]) {
                memcpy(c->key, c->hb + ks, 24); c->key[24] = 0;
                if(!strcmp(c->key, D->lastkey)) oops("the same key twice");
                strcpy(D->lastkey, c->key);
            }
        }
        return b;
    }
    struct wsp *s = &c->wo;
    for(i = 0; i != n; ++i) {
        if(s->left) {b[i] ^= s->mask[s->mi++ % 4]; --s->left; continue;}
        s->h[s->n++] = b[i];
        if(s->n < 2) continue;
        size_t ext = (s->h[1] & 127) == 126 ? 2 : (s->h[1] & 127) == 127 ? 8 : 0, msk = s->h[1] & 128 ? 4 : 0, j;
        if(s->n > 2 + ext) b[i] = 0;
        if(s->n < 2 + ext + msk) continue;
        s->left = 0;
        for(j = 0; j != ext; ++j) s->left = s->left << 8 | s->h[2 + j];
        if(!ext) s->left = s->h[1] & 127;
        memset(s->mask, 0, 4);
        if(msk) {memcpy(s->mask, s->h + 2 + ext, 4); fresh(s->mask);}
        s->mi = 0; s->n = 0;
    }
    return b;
}

/******************************************************************************/
/*  What the peers send                                                       */
/******************************************************************************/

struct tx {char p[8000]; size_t n;};
static void put(struct tx *t, const char *s, size_t n) {
    if(t->n + n > sizeof(t->p)) n = sizeof(t->p) - t->n;
    memcpy(t->p + t->n, s, n); t->n += n;
}
static void puts_(struct tx *t, const char *s) {put(t, s, strlen(s));}
static void sp(struct tx *t, int min) {int n = min + (P(12) ? 1 + R(3) : 0); while(n-- > 0) put(t, " ", 1);}
/* a word without blanks; name: nor separators */
static size_t word(struct tx *t, size_t n, int name) {
    static const char any[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'%+&$#|^`/:;,?=()<>@[]{}\\\"\x80\xff";
    size_t i; char b[1400];
    if(n > sizeof(b)) n = sizeof(b);
    for(i = 0; i != n; ++i) b[i] = any[R(name ? 78 : sizeof(any) - 1)];
    if(n > 40) memcpy(b + 10, newpat(1, n - 20)->p, n - 20);
    put(t, b, n);
    return n;
}
static size_t wlen(void) {return P(75) ? 1 + R(12) : P(70) ? R(60) : P(60) ? 250 + R(10) : 960 + R(70);}
static const char *verb(void) {static const char *v[] = {"GET", "POST", "HEAD", "OPTIONS", "G", "DELETE"}; return v[R(6)];}

/* One line; kind: 0 request, 1 status, 2 field. */
static void hline(struct conn *c, struct tx *t, int kind) {
    size_t n; int bad = P(10) ? 1 + R(5) : 0;
    t->n = 0;
    c->lastp[0] = c->lastp[1] = 0;
    sp(t, 0);
    if(kind == 0) {
        n = t->n;
        if(P(70)) puts_(t, verb()); else word(t, wlen() % 80, 0);
        c->lastp[0] = t->n - n;
        if(bad == 1) return;
        sp(t, 1); n = t->n;
        if(bad != 2) {puts_(t, "/"); word(t, wlen(), 0);}
        c->lastp[1] = t->n - n;
        if(bad == 3) {sp(t, P(50)); return;}
        sp(t, 1); puts_(t, bad == 4 ? (P(50) ? "HTTP/1.0" : P(50) ? "HTTP/1.11" : "http/1.1") : "HTTP/1.1");
        if(bad == 5) {sp(t, 1); word(t, 1 + R(5), 0);}
        sp(t, 0);
    }
    else if(kind == 1) {
        puts_(t, bad == 1 ? (P(50) ? "HTTP/1.0" : "HTTP/1.1x") : "HTTP/1.1");
        if(bad != 2) sp(t, 1);
        char s[16];
        sprintf(s, "%03d", P(60) ? 100 + R(500) : R(1000));
        if(bad == 3) s[R(3)] = "a-:/."[R(5)];
        if(bad == 4) strcpy(s + 2, P(50) ? "" : "00");
        puts_(t, s);
        if(bad == 5 && P(50)) return;
        sp(t, 1); n = t->n;
        if(P(85)) word(t, wlen(), 0);
        if(P(40)) {sp(t, 1); word(t, 1 + R(9), 0);}
        sp(t, 0);
        c->lastp[0] = t->n - n;
    }
    else {
        n = t->n;
        word(t, 1 + wlen() % 300, 1);
        c->lastp[0] = t->n - n;
        if(bad == 1) {sp(t, P(50)); if(P(50)) word(t, 1 + R(4), 1); return;}
        sp(t, 0);
        if(bad == 2) word(t, 1, 1);
        puts_(t, ":"); sp(t, P(80)); n = t->n;
        if(P(93)) {word(t, wlen(), 0); if(P(30)) {sp(t, 1); word(t, 1 + R(9), 0);}}
        c->lastp[1] = t->n - n;
        sp(t, 0);
    }
}
static void genhttp(struct conn *c) {
    static struct tx t;
    if(c->hlines && P(12)) {plan(c, "\r\n", 2); c->hlines = 0; return;}
    hline(c, &t, c->hlines || P(5) ? 2 : c->k % 2);
    if(P(1)) t.n = 0;
    plan(c, t.p, t.n); plan(c, "\r\n", 2);
    c->hlines = t.n ? c->hlines + 1 : 0;
}

static void wsframe(struct conn *c, int server, int b0, const unsigned char *d, size_t n, uint64_t claim) {
    unsigned char h[14], hc[14], m[4] = {0, 0, 0, 0}; int l = 2, i, masked = server; size_t j;
    if(P(1)) {masked = !masked; c->planend = 1; c->wsover = 1;}
    h[0] = b0;
    if(claim > 65535) {h[1] = 127; for(i = 0; i != 8; ++i) h[l++] = claim >> (56 - 8 * i);}
    else if(claim > 125) {h[1] = 126; h[l++] = claim >> 8; h[l++] = claim;}
    else h[1] = claim;
    if(masked) {h[1] |= 128; for(i = 0; i != 4; ++i) m[i] = R(256);}
    memcpy(hc, h, l); memcpy(h + l, m, 4); memset(hc + l, 0, 4);
    plan2(c, h, hc, l + (masked ? 4 : 0));
    unsigned char *b = malloc(n + 1);
    for(j = 0; j != n; ++j) b[j] = d[j] ^ m[j % 4];
    plan2(c, b, d, n);
    free(b);
}
static void wsclose(struct conn *c, int server, int good) {
    unsigned char b[200]; size_t n; int b0 = 0x88, st;
    static const int ss[] = {1000, 4999, 1001, 3000, 999, 5000, 0, 65535};
    n = P(30) ? 0 : 2 + (P(60) ? R(10) : P(50) ? 123 : R(124));
    st = P(50) ? 1000 + R(4000) : ss[R(good ? 4 : 8)];
    if(!good && P(10)) n = P(60) ? 1 : 126 + R(3);
    if(!good && P(5)) b0 = 0x08;
    b[0] = st >> 8; b[1] = st;
    if(n > 2) memcpy(b + 2, newpat(1, n - 2)->p, n - 2);
    c->wsover = 1;
    if(n > 125 || n == 1 || b0 != 0x88 || st < 1000 || st > 4999) c->planend = 1;
    wsframe(c, server, b0, b, n, n);
}
static void genws(struct conn *c, struct ob *o) {
    int server = o->hdr, f, i; size_t n, k, z;
    if(c->wsover) return;
    if(P(8)) {wsclose(c, server, P(60)); return;}
    n = rsize();
    struct pat *p = newpat(1, n);
    f = P(60) ? 1 : 1 + R(4);
    noteplan(c, n);
    for(i = 0, k = 0; i != f && !c->wsover; ++i, k += z) {
        z = i == f - 1 ? n - k : R(n - k + 1);
        int b0 = (i == f - 1 ? 0x80 : 0) | (i ? 0 : (P(85) ? o->be : !o->be) ? 1 : 2);
        uint64_t claim = z;
        if(P(2)) {
            switch(R(4)) {
            case 0: b0 |= 0x10 << R(3); break;
            case 1: b0 = (b0 & 0xf0) | (int[]){3, 7, 9, 10, 11, 15}[R(6)]; break;
            case 2: b0 ^= i ? 1 + R(2) : (b0 & 15); break;
            case 3: claim += P(50) ? 1 + R(300) : (uint64_t)1 << (R(63)); break;
            }
            c->wsover = 1; c->planend = 1;
        }
        wsframe(c, server, b0, p->p + k, z, claim);
        if(i < f - 1 && P(4)) wsclose(c, server, 1);
    }
}

/* The peer's part of the opening handshake */
static void casing(char *s) {int i; if(P(30)) for(i = 0; s[i]; ++i) if(P(50)) s[i] = s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i];}
static void both(struct tx *t, struct tx *u, const char *s) {puts_(t, s); puts_(u, s);}

/* Says what the answer to a valid key is. */
static void knownkey(const char *key) {
    struct sb s = {0}; int q; char acc[40];
    accepts(key, acc);
    for(q = 0; key[q]; ++q) sbf(&s, "%s%d", q ? "," : "", key[q]);
    sbf(&s, "],\"val\":[");
    for(q = 0; acc[q]; ++q) sbf(&s, "%s%d", q ? "," : "", acc[q]);
    L("{\"e\":\"acc\",\"key\":[%s]}", s.p);
    free(s.p);
}

static void genhs(struct conn *c) {
    static struct tx t, u;      /* real and recorded */
    char acc[40] = "", key[80]; int i, k, nf, order[5], bad = P(45) ? R(9) : -1, which;
    if(c->hsdone) {if(P(25) && !vk_pending()) c->planend = 1; return;}
    if(c->hs == 1 && !(c->nhb > 4 && memmem(c->hb, c->nhb, "\r\n\r\n", 4)) && P(97)) return;
    c->hsdone = 1; t.n = u.n = 0;
    if(c->hs == 1) {
        nf = 3;
        if(c->key[0]) accepts(c->key, acc); else strcpy(acc, "none");
        if(bad == 3 && P(50)) {
            char r[60]; int n = P(70) ? 100 + R(12) : P(50) ? 201 + R(20) * 10 : 1 + R(999);
            sprintf(r, "HTTP/1.1 %03d Switching Protocols", n); both(&t, &u, r);
        }
        else if(bad == 3) both(&t, &u, P(40) ? "HTTP/1.1 200 OK" : P(50) ? "HTTP/1.0 101 Switching Protocols" : "HTTP/1.1 1o1 x");
        else {
            both(&t, &u, "HTTP/1.1 101 ");
            char r[300]; int n = P(80) ? R(20) : 250 + R(10); memset(r, 'r', n); r[n] = 0;
            if(P(50)) both(&t, &u, "Switching Protocols"); else both(&t, &u, r);
        }
    }
    else {
        unsigned char nonce[20]; char r[400];
        nf = 5;
        for(i = 0; i != 20; ++i) nonce[i] = R(256);
        enc64(nonce, 16, key); accepts(key, acc);
        both(&t, &u, bad == 3 ? (P(50) ? "POST" : "GETX") : "GET"); both(&t, &u, " ");
        int n = P(60) ? 1 + R(10) : (int)c->hslen[0] - 2 + R(3); if(n < 1 || n > 390) n = 1;
        memset(r, 'r', n); r[0] = '/'; r[n] = 0; both(&t, &u, r);
        both(&t, &u, " HTTP/1.1");
    }
    both(&t, &u, "\r\n");
    for(i = 0; i != nf; ++i) order[i] = i;
    for(i = nf - 1; i > 0; --i) {int j = R(i + 1), x = order[i]; order[i] = order[j]; order[j] = x;}
    which = R(nf);
    for(i = 0; i != nf; ++i) {
        static const char *names[] = {"Upgrade", "Connection", "Sec-WebSocket-Accept", "Sec-WebSocket-Version", "Host"};
        char nm[60], v[600], w[600]; int rep = 1;
        k = order[i];
        strcpy(nm, k == 2 && c->hs == 2 ? "Sec-WebSocket-Key" : names[k]); casing(nm);
        int wrong = bad == 2 && which == k;
        switch(k) {
        case 0: strcpy(v, wrong ? (P(50) ? "websockets" : "h2c") : "websocket"); casing(v); break;
        case 1: strcpy(v, wrong ? (P(50) ? "Upgrad" : "keep-alive") : "Upgrade"); casing(v); break;
        case 2:
            if(c->hs == 1) {
                strcpy(v, acc);
                if(wrong || !c->key[0]) {
                    int q = R(3), z = R(27);
                    if(q == 0) v[z] = v[z] == 'x' ? 'y' : 'x';
                    else if(q == 1) v[27] = 0;
                    else {z = 0; while(v[z] && !((v[z] | 32) >= 'a' && (v[z] | 32) <= 'z')) ++z; v[z] ^= 32;}
                }
            }
            else {
                unsigned char nn[100]; int q; for(q = 0; q != 100; ++q) nn[q] = R(256);
                strcpy(v, key);
                if(wrong) {
                    q = R(5);
                    if(q == 0) enc64(nn, 15, v); else if(q == 1) enc64(nn, 18, v); else if(q == 2) v[R(20)] = '*';
                    else if(q == 3) enc64(nn, 20 + R(70), v); else strcpy(v, "x");
                }
                else {
                    knownkey(key);
                }
            }
            break;
        case 3: strcpy(v, wrong ? (P(50) ? "12" : "113") : "13"); break;
        case 4: {int n = P(60) ? 1 + R(10) : (int)c->hslen[1] - 2 + R(3); if(n < 1 || n > 300) n = 1; memset(v, 'h', n); v[n] = 0; break;}
        }
        strcpy(w, v);
        if(c->hs == 1 && k == 2 && c->key[0] && !strcmp(v, acc)) memset(w, 'A', 28);
        if(bad == 0 && which == k) rep = 0;
        if(bad == 1 && which == k) rep = 2;
        if(bad == 4 && which == k) {both(&t, &u, P(50) ? "no colon" : "some thing: x"); both(&t, &u, "\r\n");}
        if(bad == 5 && which == k) {char b[1300]; int z = P(50) ? 250 + R(10) : 1000 + R(40); memset(b, 'n', z); b[z] = 0; if(P(50)) both(&t, &u, "q: "); both(&t, &u, b); if(P(50)) both(&t, &u, ": y"); both(&t, &u, "\r\n");}
        if(P(10)) both(&t, &u, P(50) ? "X-Other: 1\r\n" : "upgrade-not: a b c\r\n");
        while(rep--) {
            both(&t, &u, P(8) ? " " : ""); both(&t, &u, nm); both(&t, &u, P(85) ? ": " : P(50) ? ":" : " :  ");
            puts_(&t, v); puts_(&u, w); both(&t, &u, P(90) ? "\r\n" : "  \r\n");
        }
    }
    both(&t, &u, "\r\n");
    if(bad == 6) {t.n = u.n = R(t.n); c->planend = 1 + R(2);}
    if(bad == 7) {t.n = u.n = t.n - 2; c->planend = 1;}       /* all but the empty line */
    plan2(c, t.p, u.p, t.n);
}

/******************************************************************************/
/*  Calls                                                                     */
/******************************************************************************/

static char *cstr(struct tx *t) {char *p = umem(t->n + 1); memcpy(p, t->p, t->n); p[t->n] = 0; return p;}
/* mostly valid text for a header */
static void htext(struct tx *t, int name, size_t n) {
    size_t i = t->n;
    word(t, n, name);
    if(n && P(4)) t->p[i + R(n)] = " \t\r\n;:(,\"}"[R(10)];
}

static void do_hsend(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); static struct tx t, u; char a[32]; T0;
    int kind = D->C[o->k].k % 2 ? 0 : 1, rc; size_t n, m;
    if(o->done2 || P(5)) kind = 2;
    const char *ts[] = {"req", "stat", "field"};
    t.n = u.n = 0; n = 0;
    int st = P(80) ? 100 + R(500) : (int[]){99, 100, 599, 600, 0, -1, 1000}[R(7)];
    if(D->sc) {
        char k2[20] = "", p1[100] = "", p2[100] = "";
        sscanf(D->scarg, "%19s %99s %99s", k2, p1, p2);
        kind = k2[0] == 'r' ? 0 : k2[0] == 's' ? 1 : 2;
        if(kind == 1) {st = atoi(p1); u.n = bytes(p2, (unsigned char*)u.p, 50);}
        else {t.n = bytes(p1, (unsigned char*)t.p, 50); u.n = bytes(p2, (unsigned char*)u.p, 50);}
    }
    else if(kind == 0) {
        if(P(70)) puts_(&t, verb()); else htext(&t, 0, P(95) ? 1 + R(9) : 0);
        htext(&u, 0, P(96) ? 1 + wlen() : 0);
    }
    else if(kind == 1) {
        if(P(90)) {htext(&u, 0, 1 + wlen()); if(P(40)) {puts_(&u, " "); htext(&u, 0, 1 + R(5));}}
    }
    else {
        htext(&t, 1, 1 + wlen() % 100);
        sp(&u, 0); if(P(94)) {htext(&u, 0, 1 + wlen()); if(P(30)) {sp(&u, 1); htext(&u, 0, 3);}} sp(&u, 0);
    }
    n = t.n; m = u.n; (void)m;
    sprintf(a, "%zd", kind == 1 ? (ssize_t)st : (ssize_t)n);
    char *p = cstr(&t), *q = cstr(&u);
    put(&t, u.p, u.n);
    o->sb++;
    logc(w, "hsend", i, ts[kind], 0, "", rope((unsigned char*)t.p, t.n, NULL, NULL), a, dl, -1);
    rc = kind == 0 ? http_sendrequest(o->h, p, q, dl) : kind == 1 ? http_sendstatus(o->h, st, q, dl) : http_sendfield(o->h, p, q, dl);
    int e = errno;
    o = &D->O[i]; o->sb--; if(!rc) o->done2 = 1;
    if(rc < 0 && e != EINVAL && e != EPROTO) o->dead |= 2;
    ufree(p); ufree(q);
    logr(w, "hsend", rc, e, "[]", 1, -1, -1, t0);
}

static void do_hrecv(int w, int i) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; int64_t dl = deadline(w); char a[64]; T0;
    int kind = o->lines ? 2 : c->k % 2, rc; const char *ts[] = {"req", "stat", "field"};
    size_t z[2]; int k; char *p[2];
    if(P(6)) kind = R(3);
    for(k = 0; k != 2; ++k) {
        z[k] = P(60) ? 300 + R(900) : P(70) ? c->lastp[k] + R(3) : R(20);
    }
    if(D->sc) {
        char k2[20] = ""; sscanf(D->scarg, "%19s %zu %zu", k2, &z[0], &z[1]);
        kind = k2[0] == 'r' ? 0 : k2[0] == 's' ? 1 : 2;
    }
    for(k = 0; k != 2; ++k) {p[k] = umem(z[k]); memset(p[k], 0x3b, z[k]);}
    sprintf(a, "%zu,%zu", z[0], z[1]);
    o->rb++;
    logc(w, "hrecv", i, ts[kind], 0, "", "[]", a, dl, -1);
    rc = kind == 0 ? http_recvrequest(o->h, p[0], z[0], p[1], z[1], dl) : kind == 1 ? http_recvstatus(o->h, p[0], z[0], dl) :
        http_recvfield(o->h, p[0], z[0], p[1], z[1], dl);
    int e = errno;
    o = &D->O[i]; o->rb--; o->lines++;
    if(rc < 0 && (e == ECONNRESET || e == EPIPE || e == ETIMEDOUT || e == ECANCELED)) o->dead |= 1;
    static struct tx t; t.n = 0;
    if(rc >= 0) {
        put(&t, p[0], strnlen(p[0], z[0]));
        if(kind != 1) {put(&t, "", 1); put(&t, p[1], strnlen(p[1], z[1]));}
    }
    checkrz(p[0], z[0], "write outside of a buffer"); checkrz(p[1], z[1], "write outside of a buffer");
    ufree(p[0]); ufree(p[1]);
    logr(w, "hrecv", rc, e, rope((unsigned char*)t.p, t.n, NULL, NULL), 1, -1, -1, t0);
}

static void do_wsend(int w, int i) {
    struct ob *o = &D->O[i]; struct list l; int64_t dl = deadline(w); size_t n = rsize(); int text = P(80) ? o->be : !o->be; T0;
    if(n > 3000 && !P(20)) n = 1 + R(300);
    if(D->sc) {text = D->scarg[0] == 't'; n = atoi(D->scarg + 2);}
    unsigned char *b = malloc(n + 100); char a[8];
    content(b, n, NULL, 0);
    mklist(&l, n, b, badkind());
    sprintf(a, "%d", text);
    int flags = (text ? WS_TEXT : WS_BINARY) | (P(10) ? WS_NOHTTP : 0);
    o->sb++;
    logc(w, "wsend", i, "", l.bk, l.b, rope(b, n, NULL, NULL), a, dl, -1);
    int rc = l.single ? ws_send(o->h, flags, l.buf[0], n, dl) : ws_sendl(o->h, flags, l.first, l.last, dl);
    int e = errno;
    D->O[i].sb--;
    if(rc < 0 && e != EINVAL) D->O[i].dead |= 2;
    int ok = endlist(&l, NULL, NULL, 0);
    logr(w, "wsend", rc, e, "[]", ok, -1, -1, t0);
    free(b);
}

static void do_wrecv(int w, int i) {
    struct ob *o = &D->O[i]; struct list l; int64_t dl = deadline(w); struct conn *c = &D->C[o->k]; T0;
    size_t n = rsize(); const char *sc = D->sc ? D->scarg : NULL; int bk = badkind();
    if(P(75)) {n = c->lastmsg[R(4)]; int r = R(4); if(r == 1) ++n; if(r == 2 && n) --n; if(r == 3) n += R(100);}
    if(!sc && !bk && P(8)) bk = 2;
    if(sc && !strcmp(sc, "-")) bk = 2;
    if(sc) {
        const char *q = sc; n = 0;
        while(*q) {n += strtoul(q, (char**)&q, 10); while(*q && (*q < '0' || *q > '9')) ++q;}
    }
    mklist_(&l, n, NULL, bk, bk == 2 ? NULL : sc);
    if(l.single && !l.buf[0]) l.single = 0;
    o->rb++;
    logc(w, "wrecv", i, "", l.bk, l.b, "[]", "", dl, -1);
    int flags = 77;
    ssize_t rc = l.single ? ws_recv(o->h, &flags, l.buf[0], n, dl) : ws_recvl(o->h, &flags, l.first, l.last, dl);
    int e = errno;
    D->O[i].rb--;
    if(rc < 0 && e != EBUSY && e != EINVAL) D->O[i].dead |= 1;
    unsigned char *out = malloc(n + 2); size_t no = 0, got = rc < 0 || bk == 2 ? 0 : (size_t)rc;
    out[0] = flags;
    int ok = endlist(&l, out + 1, &no, got > n ? n : got);
    logr(w, "wrecv", rc, e, rc < 0 ? "[]" : rope(out, no + 1, NULL, NULL), ok, -1, -1, t0);
    free(out);
}

/* status and text of a close frame; returns the buffer */
static char *closeargs(int *st, size_t *n, char *a, int *nullbuf) {
    static struct tx t;
    t.n = 0; *nullbuf = 0;
    *st = P(60) ? 1000 + R(4000) : (int[]){0, 1000, 4999, 999, 5000, -1}[R(D->m->bad > 2 || P(10) ? 6 : 3)];
    size_t z = *st && P(70) ? (P(70) ? R(20) : 120 + R(4)) : 0;
    if(P(3)) z = P(50) ? 124 + R(3) : 1 + R(300);
    if(D->sc) {int v[2] = {0, 0}; sscanf(D->scarg, "%d %d", &v[0], &v[1]); *st = v[0]; z = v[1];}
    if(z > 12) put(&t, (char*)newpat(1, z)->p, z); else word(&t, z, 1);
    *n = t.n;
    if(!D->sc && z && P(4)) {*nullbuf = 1;}
    sprintf(a, "%d,%d", *st, *nullbuf);
    return cstr(&t);
}

static void do_wdone(int w, int i) {
    struct ob *o = &D->O[i]; int64_t dl = deadline(w); int st, nb, rc; size_t n; char a[32]; T0;
    char *p = closeargs(&st, &n, a, &nb);
    o->sb++;
    logc(w, "wdone", i, "", 0, "", nb ? "[]" : rope((unsigned char*)p, n, NULL, NULL), a, dl, -1);
    rc = ws_done(o->h, st, nb ? NULL : p, n, dl);
    int e = errno;
    D->O[i].sb--; if(!rc) D->O[i].done = 1;
    if(rc < 0 && e != EINVAL) D->O[i].dead |= 2;
    ufree(p);
    logr(w, "wdone", rc, e, "[]", 1, -1, -1, t0);
}

static void do_wstatus(int w, int i) {
    struct ob *o = &D->O[i]; int nb = P(20); char a[32]; T0;
    size_t n = P(60) ? 125 + R(20) : R(124);
    if(D->sc) {n = atoi(D->scarg); nb = 0;}
    unsigned char *p = umem(n); memset(p, 0x3b, n);
    sprintf(a, "%zu,%d", n, nb);
    logc(w, "wstatus", i, "", 0, "", "[]", a, -1, -1);
    int st = 0xffff; ssize_t rc = ws_status(o->h, &st, nb ? NULL : p, n);
    int e = errno; unsigned char out[200]; size_t no = 0;
    if(rc >= 0) {
        out[0] = st >> 8; out[1] = st; no = 2;
        if(!nb) {memcpy(out + 2, p, (size_t)rc < n && rc < 190 ? (size_t)rc : n < 190 ? n : 190); no += (size_t)rc < n && rc < 190 ? (size_t)rc : n < 190 ? n : 190;}
    }
    checkrz(p, n, "write outside of a buffer"); ufree(p);
    logr(w, "wstatus", rc, e, rope(out, no, NULL, NULL), 1, -1, -1, t0);
}

/* over: without the handshake */
static void do_wsattach(int w, int i, int over) {
    struct ob *o = &D->O[i]; struct conn *c = &D->C[o->k]; T0; char a[100];
    int server = R(2), text = R(2), mem = P(40), nomem = mem && P(4), noargs = 0, rc = -1, bare = 0;
    if(D->sc) {server = D->scarg[0] == 's'; text = 1; nomem = 0;}
    void *m = mem && !nomem ? umem(sizeof(struct ws_storage)) : NULL;
    int flags = (text ? WS_TEXT : WS_BINARY) | (over ? WS_NOHTTP : 0);
    int64_t dl = over ? -1 : deadline(w); static struct tx t, u; size_t rl = 0, hl = 0; char *p = NULL, *q = NULL;
    const char *op = over ? "attach" : "wsattach", *ty = over ? "ws" : server ? "server" : "client";
    t.n = u.n = 0;
    c->key[0] = 0; c->nhb = 0; c->hsdone = 0;
    if(o->ty >= T_PREFIX) bare = 1;
    if(over) sprintf(a, "%d,%d,%d", server, text, nomem);
    else if(!server) {
        noargs = P(2);
        puts_(&t, "/"); htext(&t, 0, P(80) ? R(20) : wlen());
        word(&u, P(80) ? 1 + R(20) : 1 + wlen(), 1);
        if(P(2)) t.n = 0;
        p = cstr(&t); q = cstr(&u);
        sprintf(a, "%zu,%d,%d,%d", t.n, noargs, text, nomem);
        put(&t, u.p, u.n);
    }
    else {
        rl = P(60) ? 300 : 1 + R(30); hl = P(60) ? 300 : 1 + R(30);
        if(D->sc) rl = hl = 40;
        c->hslen[0] = rl; c->hslen[1] = hl;
        p = umem(rl); q = umem(hl); memset(p, 0x3b, rl); memset(q, 0x3b, hl);
        sprintf(a, "%zu,0,%d,%zu,%d", rl, text, hl, nomem);
    }
    o->closing = 1;
    logc(w, op, i, ty, 0, "", over || server ? "[]" : rope((unsigned char*)t.p, t.n, NULL, NULL), a, dl, -1);
    if(!over && !bare) c->hs = server ? 2 : 1;
    if(server)
        rc = mem ? ws_attach_server_mem(o->h, flags, p, rl, q, hl, m, dl) : ws_attach_server(o->h, flags, p, rl, q, hl, dl);
    else
        rc = mem ? ws_attach_client_mem(o->h, flags, noargs && P(50) ? NULL : p, noargs ? NULL : q, m, dl) :
            ws_attach_client(o->h, flags, noargs ? NULL : p, noargs && P(50) ? NULL : q, dl);
    int e = errno, n = -1;
    static struct tx r; r.n = 0;
    if(rc >= 0 && server && !over) {put(&r, p, strnlen(p, rl)); put(&r, "", 1); put(&r, q, strnlen(q, hl));}
    if(server && p) {checkrz(p, rl, "write outside of a buffer"); checkrz(q, hl, "write outside of a buffer");}
    if(p) {ufree(p); ufree(q);}
    if(rc >= 0) {
        n = newob(rc, T_WS, i, D->O[i].k);
        struct ob *x = &D->O[n];
        x->hdr = server; x->be = text; x->mem = m; x->memsz = sizeof(struct ws_storage);
        D->O[i].st = 1; D->O[i].closing = 0;
    }
    else {if(m) retire(m, sizeof(struct ws_storage)); release(i);}
    logr(w, op, rc < 0 ? -1 : 0, e, rope((unsigned char*)r.p, r.n, NULL, NULL), 1, n, -1, t0);
    c->hs = 0; c->wsover = 0;
    if(rc >= 0) {memset(&c->wo, 0, sizeof(c->wo)); c->wo.on = !server;}
}
