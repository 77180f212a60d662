/* Addresses: included by net_drv.c. Every call is one event, see AddrTrace. */
#include <ifaddrs.h>
#include <arpa/inet.h>

static struct {char name[20]; struct sockaddr_storage sa; int fam;} IF[8]; static int nif;

/* stand in for the operating system's list of interfaces */
struct myif {struct ifaddrs i; struct sockaddr_storage sa; char name[20];};
int vk_getifaddrs(struct ifaddrs **p) {
    int k;
    *p = NULL;
    if(D->ifx) {errno = D->ifx; return -1;}
    for(k = nif - 1; k >= 0; --k) {
        struct myif *m = calloc(1, sizeof(*m));
        m->i.ifa_next = *p; *p = &m->i;
        strcpy(m->name, IF[k].name); m->i.ifa_name = m->name;
        m->sa = IF[k].sa;
        m->i.ifa_addr = IF[k].fam == 1 ? NULL : (struct sockaddr*)&m->sa;
        D->nifa++;
    }
    return 0;
}
void vk_freeifaddrs(struct ifaddrs *p) {
    while(p) {struct ifaddrs *q = p->ifa_next; free(p); p = q; D->nifa--;}
}

static const char *ifname[] = {"eth0", "lo", "eth1", "10.0.0.1", "e", "1::2"};
static int eg8(void) {static const int e[] = {0, 1, 9, 10, 99, 100, 127, 199, 200, 255}; return P(70) ? e[R(10)] : R(256);}
static void randhost(int v6, unsigned char *h) {
    int i, how = R(5);
    if(!v6) {for(i = 0; i != 4; ++i) h[i] = eg8(); return;}
    for(i = 0; i != 8; ++i) {
        int v = how == 0 ? 0 : how == 1 ? R(65536) : P(55) ? 0 : P(50) ? 1 + R(20) : R(65536);
        if(how == 2 && i < 6) v = 0;
        if(how == 3 && i < 6) v = i == 5 ? 65535 : 0;
        h[2*i] = v >> 8; h[2*i + 1] = v;
    }
}
static void randifs(void) {
    int i; nif = R(8);
    for(i = 0; i != nif; ++i) {
        memset(&IF[i], 0, sizeof(IF[i]));
        strcpy(IF[i].name, ifname[R(6)]);
        int r = R(10);
        if(r == 0) {IF[i].fam = 1; continue;}                        /* has no address */
        if(r == 1) {IF[i].fam = 2; IF[i].sa.ss_family = AF_PACKET; continue;}
        unsigned char h[16];
        if(r < 6) {
            struct sockaddr_in *s = (void*)&IF[i].sa;
            IF[i].fam = s->sin_family = AF_INET; randhost(0, h); memcpy(&s->sin_addr, h, 4);
            if(P(20)) s->sin_port = htons(R(65536));
        }
        else {
            struct sockaddr_in6 *s = (void*)&IF[i].sa;
            IF[i].fam = s->sin6_family = AF_INET6; randhost(1, h); memcpy(&s->sin6_addr, h, 16);
            if(P(40)) s->sin6_scope_id = 1 + R(9);
        }
    }
}

/* a text for the address, in one of many ways */
static void randtext(int v6, const unsigned char *h, char *t) {
    int i, l = 0;
    if(!v6) {sprintf(t, "%d.%d.%d.%d", h[0], h[1], h[2], h[3]); return;}
    int z = -1, zn = 0, v4 = P(20), n = v4 ? 6 : 8, up = R(3), pad = P(20);
    if(P(75)) {   /* some run of zeros is left out */
        int from = R(n);
        for(i = from; i < n && !h[2*i] && !h[2*i + 1]; ++i) ;
        if(i > from) {z = from; zn = i - from;}
    }
    for(i = 0; i < n;) {
        if(i == z) {l += sprintf(t + l, "::"); i += zn; continue;}
        if(l && t[l - 1] != ':') t[l++] = ':';
        l += sprintf(t + l, pad ? up ? "%04X" : "%04x" : up == 1 ? "%X" : "%x", h[2*i] * 256 + h[2*i + 1]);
        ++i;
    }
    if(v4) {if(l && t[l - 1] != ':') t[l++] = ':'; l += sprintf(t + l, "%d.%d.%d.%d", h[12], h[13], h[14], h[15]);}
    t[l] = 0;
}
static void spoil(char *t) {
    static const char cs[] = "0123456789abcdefABCDEF:.:.g%x /-";
    int n = strlen(t), i = n ? R(n) : 0, r = R(4);
    if(r == 0 && n) memmove(t + i, t + i + 1, n - i);
    else if(r == 1 && n) t[i] = cs[R(sizeof(cs) - 1)];
    else if(r == 2) {memmove(t + i + 1, t + i, n - i + 1); t[i] = cs[R(sizeof(cs) - 1)];}
    else t[i] = 0;
}
static const char *blist(const char *t) {return alist((const unsigned char*)t, strlen(t));}
static void aslist(char *s, const struct ipaddr *a, int n) {
    int i, l = 1; unsigned char b[20];
    strcpy(s, "[");
    for(i = 0; i != n; ++i) {
        const struct sockaddr *q = ipaddr_sockaddr(&a[i]);
        int k = abytes(q, b);
        l += sprintf(s + l, "%s{\"a\":%s,\"sc\":%d}", i ? "," : "", alist(b, k), k == 18 ? (int)((struct sockaddr_in6*)q)->sin6_scope_id : 0);
    }
    strcpy(s + l, "]");
}
static char ifj[2000];
static void iflist(void) {
    int i, l = 1, c = 0; unsigned char b[20];
    strcpy(ifj, "[");
    for(i = 0; i != nif; ++i) {
        int k = abytes((struct sockaddr*)&IF[i].sa, b);
        if(k) l += sprintf(ifj + l, "%s{\"n\":%s,\"a\":%s,\"sc\":%d}", c++ ? "," : "", blist(IF[i].name), alist(b, k - 2),
            k == 18 ? (int)((struct sockaddr_in6*)&IF[i].sa)->sin6_scope_id : 0);
    }
    strcpy(ifj + l, "]");
}

static int local(struct ipaddr *a, const char *t, int port, int mode) {
    char s[300]; struct ipaddr *u = umem(sizeof(struct ipaddr));
    static const int xs[] = {EMFILE, ENFILE, ENOMEM, ENOBUFS};
    D->ifx = !D->script && P(4) ? xs[R(4)] : 0;
    errno = EDOM; memset(u, P(50) ? 0x5a : 0, sizeof(*u));
    int rc = ipaddr_local(u, t, port, mode), e = errno;
    checkrz(u, sizeof(*u), "user memory overrun");
    *a = *u; ufree(u);
    aslist(s, a, rc == 0);
    iflist();
    L("{\"e\":\"r\",\"c\":0,\"o\":\"local\",\"r\":%d,\"x\":\"%s\",\"b\":%s,\"nul\":%d,\"port\":%d,\"mode\":%d,\"ifs\":%s,\"ifx\":\"%s\",\"as\":%s}",
        rc, rc < 0 ? en(e) : "0", t ? blist(t) : "[]", !t, port, mode, ifj, D->ifx ? en(D->ifx) : "", s);
    if(D->nifa) oops("the list of interfaces is not released");
    D->nifa = 0;
    return rc;
}
static int remotes(struct ipaddr *a, const char *t, int port, int mode) {
    char s[600]; int na = P(50) ? 1 : P(10) ? -R(2) : 1 + R(4), one = R(2), i; struct ipaddr *u;
    if(one) na = 1;
    u = umem(sizeof(struct ipaddr) * 5);
    memset(u, 0x5a, sizeof(struct ipaddr) * 5);
    errno = EDOM;
    int64_t dl = deadline(0);
    int rc = one ? ipaddr_remote(u, t, port, mode, dl) : ipaddr_remotes(u, na, t, port, mode, dl), e = errno;
    for(i = sizeof(struct ipaddr); i != 5 * sizeof(struct ipaddr); ++i) if(((char*)u)[i] != 0x5a) {oops("more addresses than given were written"); break;}
    if(rc >= 0) *a = *u;
    aslist(s, u, one ? rc == 0 : rc > 0 ? rc : 0);
    checkrz(u, sizeof(struct ipaddr) * 5, "user memory overrun");
    ufree(u);
    L("{\"e\":\"r\",\"c\":0,\"o\":\"remote\",\"r\":%d,\"x\":\"%s\",\"b\":%s,\"nul\":%d,\"port\":%d,\"mode\":%d,\"na\":%d,\"one\":%d,\"as\":%s}",
        rc, rc < 0 ? en(e) : "0", t ? blist(t) : "[]", !t, port, mode, na, one, s);
    return one ? rc == 0 : rc > 0;
}
static void about(struct ipaddr *a) {
    unsigned char b[20]; char *t = umem(IPADDR_MAXSTRLEN); int n = abytes((struct sockaddr*)a, b); struct ipaddr c = *a;
    if(ipaddr_sockaddr(a) != (struct sockaddr*)a) oops("ipaddr_sockaddr points elsewhere");
    if(ipaddr_str(a, t) != t) oops("ipaddr_str returns something else");
    checkrz(t, n == 6 ? 16 : 46, "user memory overrun");
    L("{\"e\":\"r\",\"c\":0,\"o\":\"about\",\"r\":0,\"x\":\"0\",\"a\":%s,\"fam\":%d,\"len\":%d,\"port\":%d,\"txt\":%s}", alist(b, n),
        ipaddr_family(a) == AF_INET ? 4 : ipaddr_family(a) == AF_INET6 ? 6 : 0, ipaddr_len(a), ipaddr_port(a), blist(t));
    if(memcmp(a, &c, sizeof(c))) oops("an address was changed");
    ufree(t);
}
static void equal(struct ipaddr *a, struct ipaddr *c) {
    unsigned char b[20], d[20]; int ign = R(2) * (1 + R(3)), n = abytes((struct sockaddr*)a, b), m = abytes((struct sockaddr*)c, d);
    int rc = ipaddr_equal(a, c, ign);
    L("{\"e\":\"r\",\"c\":0,\"o\":\"equal\",\"r\":%d,\"x\":\"0\",\"a\":%s,\"c2\":%s,\"ign\":%d}", rc != 0, alist(b, n), alist(d, m), ign != 0);
}
static void setport(struct ipaddr *a) {
    unsigned char b[20], d[20]; int p = P(30) ? R(3) : P(30) ? 65535 : R(65536), m = abytes((struct sockaddr*)a, d), n;
    ipaddr_setport(a, p);
    n = abytes((struct sockaddr*)a, b);
    L("{\"e\":\"r\",\"c\":0,\"o\":\"setport\",\"r\":0,\"x\":\"0\",\"a\":%s,\"c2\":%s,\"port\":%d}", alist(b, n), alist(d, m), p);
}

static void do_addr(int w) {
    static struct ipaddr kept[2]; static int nk; struct ipaddr a; unsigned char h[16]; char t[100];
    if(w == -1) {nk = 0; randifs(); return;}
    int v6 = R(2), port = P(15) ? (P(50) ? -1 - R(70000) : 65536 + R(70000)) : P(30) ? R(2) * 65535 : R(65536), ok;
    static const int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
    int mi = P(90) ? R(5) : P(50) ? 5 + R(10) : -1 - R(3), mode = mi >= 0 && mi < 5 ? modes[mi] : mi;
    if(P(30)) randifs();
    randhost(v6, h); randtext(v6, h, t);
    if(P(10)) strcpy(t, ifname[R(6)]);
    else if(P(35)) {spoil(t); if(P(30)) spoil(t);}
    if(P(35)) {
        struct in_addr x; struct in6_addr y;
        if(inet_pton(AF_INET, t, &x) != 1 && inet_pton(AF_INET6, t, &y) != 1) return;   /* would be looked up */
        ok = remotes(&a, P(5) ? NULL : t, port, mode);
    }
    else ok = local(&a, P(8) ? NULL : t, port, mode) == 0;
    if(!ok) return;
    about(&a);
    if(P(30)) {setport(&a); about(&a);}
    /* compare with an address that is much the same */
    struct ipaddr b = a;
    if(P(50)) {int p = ipaddr_port(&b) ^ (1 << R(16)); ipaddr_setport(&b, p);}
    if(P(50)) {struct sockaddr *s = (void*)&b;
        if(s->sa_family == AF_INET) ((unsigned char*)&((struct sockaddr_in*)s)->sin_addr)[R(4)] ^= 1 << R(8);
        else ((unsigned char*)&((struct sockaddr_in6*)s)->sin6_addr)[R(16)] ^= 1 << R(8);}
    equal(&a, &b);
    if(nk) equal(&a, &kept[R(nk)]);
    if(nk < 2) kept[nk++] = a; else kept[R(2)] = a;
}
/* a text of the script, in all modes */
static void addrline(const char *t) {
    static const int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
    struct ipaddr a; int i;
    if(local(&a, t, 7, 0) == 0) {
        about(&a);
        for(i = 1; i != 5; ++i) local(&a, t, 7, modes[i]);
    }
}
