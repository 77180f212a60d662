/* Virtual kernel: a deterministic stand-in for every operating-system call
   libdill makes. The library's object files are compiled from /repo's current
   tree and their undefined references to the calls below are renamed to vk_*
   (objcopy --redefine-syms), so that time, readiness, the network and memory
   pressure are chosen by the test driver. */
#ifndef VK_H
#define VK_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/un.h>

#define VK_NFDS 512          /* what getrlimit reports */
#define VK_MAXREG 1024

enum { VK_NONE, VK_READY, VK_EPOLL, VK_STREAM, VK_LISTEN, VK_DGRAM, VK_FILE, VK_SOCK };

struct vkseg {               /* a piece of inbound data on a stream */
    struct vkseg *next;
    size_t len, pos;
    int nfd; int fdobj[4];   /* attached descriptors (object ids) */
    struct vkobj *fdo[4];
    struct sockaddr_storage sa; socklen_t salen;  /* datagrams */
    unsigned char data[];
};

struct vkobj {
    int kind, refs, id;
    /* VK_READY */
    int in, out, err;
    /* sockets */
    int family, type, listening, nonblock;
    int bound, connected;
    int connecting;          /* connect in progress */
    int soerr;               /* SO_ERROR */
    int linger0;
    struct sockaddr_storage addr, peer;
    socklen_t addrlen, peerlen;
    /* stream, inbound */
    struct vkseg *rxh, *rxt;
    int rxeof, rxerr;        /* EOF or error after the queued data */
    /* stream, outbound */
    unsigned char *tx; size_t txlen, txcap;
    long txwin;              /* how many more bytes are accepted; -1 no limit */
    size_t txcall;           /* at most so many bytes per call; 0 no limit */
    int txerr;               /* error for sends */
    int txshut, closed, rst; /* shutdown(WR), close(), closed with RST */
    int txfds[16]; size_t txfdpos[16]; int ntxfds;
    struct vkobj *txfdo[16];
    struct vkobj *link;      /* other end if virtual as well */
    size_t moved;            /* how much of tx has been moved to the link */
    int eofmoved;
    /* listener */
    struct vkobj *acc[64]; int accerr[64]; int nacc;
    /* epoll */
    int isep;
    int held;                /* references the driver keeps */
    int user_frag, mk;       /* the driver's */
    int merge;               /* receives are not cut at segment boundaries */
};

struct vkreg { int fd; struct vkobj *o; uint32_t ev; uint64_t data; };

struct vk {
    int64_t clk;             /* ms */
    int64_t tsc;
    struct vkobj *fd[VK_NFDS];
    char fdlib[VK_NFDS];     /* 1 if opened by the library */
    struct vkreg reg[VK_MAXREG]; int nreg; int rot;
    int maxev;               /* maxevents of the last wait */
    /* allocation accounting */
    long nalloc; long balloc; long nbig; /* without big blocks; number of those */
    long countdown;          /* >0: fail the n-th next allocation */
    int tripped;             /* a failure was injected */
    long sysdown; int syserr;/* >0: fail the n-th next descriptor-making call */
    int nextfd;              /* hint where the search for a free fd begins */
    int closes;              /* close() of a descriptor that is not open */
    int ids;
    int nbconn;              /* connect() result policy, see vk.c */
    /* called when the library polls: returns 0, or -1 for EINTR */
    int (*hook)(int timeout);
    void (*after)(int n, int truncated, struct epoll_event *evs);
    /* called on connect(): returns 0, or an errno */
    int (*onconnect)(int fd, struct vkobj *o, const struct sockaddr *a, socklen_t l);
    /* called when something was sent */
    void (*onsend)(struct vkobj *o);
    FILE *(*onfopen)(const char *path); int nfiles; const char *hostname;
    void *user;
};

extern __thread struct vk *vkp;
struct vk *vk_new(void);
void vk_free_vk(struct vk *v);
/* events that are ready among those the library asked for in the call
   in progress */
int vk_pending(void);
int vk_bits(struct vkobj *o);        /* POLLIN|POLLOUT|POLLERR|POLLHUP */
int vk_open(int kind, int fdmin, int lib);   /* driver-side open */
int vk_openobj(struct vkobj *o, int fdmin, int lib);
void vk_closefd(int fd);             /* driver-side close */
struct vkobj *vk_mkobj(int kind);
void vk_unref(struct vkobj *o);
void vk_rx(struct vkobj *o, const void *data, size_t len);
void vk_rxdgram(struct vkobj *o, const void *data, size_t len,
    const struct sockaddr *sa, socklen_t salen);
int vk_libfds(void);                 /* how many fds the library has open */
size_t vk_rxavail(struct vkobj *o);
#endif
