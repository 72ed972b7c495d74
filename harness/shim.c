// Linked into the server under test with -Wl,--wrap. It supplies a clock that
// the check controls, counts and faults the file-system calls, confines every
// destructive call to one scratch directory, and reports allocator totals.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN = 1, K_WRITE, K_FSYNC, K_RENAME, K_UNLINK, K_CLOSE, K_READ, K_THREAD, NKIND };
enum { A_NONE, A_ERRNO, A_SHORT, A_KILL, A_KILLPART, A_STICKY, A_ZERO };

struct ctl {
    _Atomic int64_t magic;        // 0  set when the shim is alive
    _Atomic int64_t clockmode;    // 1  0 = offset, 1 = frozen
    _Atomic int64_t boot;         // 2  offset or value, ns
    _Atomic int64_t real;         // 3
    _Atomic int64_t armed;        // 4  file calls are counted (and faulted) while set
    _Atomic int64_t fkind;        // 5  kind to fault, 0 = any file call
    _Atomic int64_t findex;       // 6  0-based index among the counted calls of that kind
    _Atomic int64_t faction;      // 7
    _Atomic int64_t ferrno;       // 8
    _Atomic int64_t fhit;         // 9  how often the fault fired
    _Atomic int64_t nany;         // 10 counted file calls
    _Atomic int64_t nkind[10];    // 11..20
    _Atomic int64_t writedelay;   // 21 us before each write to a tracked file
    _Atomic int64_t threaddelay;  // 22 us at the start of each new thread
    _Atomic int64_t threadfail;   // 23 number of thread creations to fail (-1 = all)
    _Atomic int64_t allocreq;     // 24 request number
    _Atomic int64_t allocack;     // 25
    _Atomic int64_t allocbytes;   // 26
    _Atomic int64_t escapes;      // 27 refused destructive calls
    _Atomic int64_t nthreads;     // 28 thread creations
    _Atomic int64_t loglen;       // 29
    _Atomic int64_t clockreads;   // 30
    _Atomic int64_t jitter;       // 31 n > 0: one clock read or allocation in n is delayed or yields
    _Atomic int64_t jitters;      // 32
    _Atomic int64_t threadskip;   // 33 thread creations to let through before threadfail applies
    _Atomic int64_t sockdelay;    // 34 us at most after a socket write (one write in 4)
    _Atomic int64_t sockshort;    // 35 n > 0: a socket write takes at most a random 1..n bytes (one write in 2)
    _Atomic int64_t sockagain;    // 36 n > 0: one socket write in n says EAGAIN
    _Atomic int64_t readshort;    // 37 n > 0: a socket read returns at most a random 1..n bytes
    _Atomic int64_t sockevents;   // 38 how often any of these acted
    _Atomic int64_t sockopts[8];  // 39..46 sockets set to: nodelay on, off, keepalive on, off, quickack on, off, reuseport on, off
    _Atomic int64_t backlog;      // 47 of the last listen
    _Atomic int64_t evmax;        // 48 largest number of events asked for
    _Atomic int64_t listentcp;    // 49 listening sockets
    _Atomic int64_t listenunix;   // 50
    _Atomic int64_t fakerss;      // 51 resident set size told to the server, in pages (0 = the true one)
    _Atomic int64_t wjumpat;      // 52 n > 0: the n-th next write to a tracked file moves both clocks by
    _Atomic int64_t wjumpns;      // 53 this many ns
    _Atomic int64_t wjumps;       // 54
    _Atomic int64_t preempt;      // 55 n > 0: network threads are stopped for a moment anywhere in their code, one every n us on average
    _Atomic int64_t preempts;     // 56
    _Atomic int64_t pad[7];       // ..63
    _Atomic int64_t log[4096];    // kind*2^40 + size
};

static struct ctl *C;
static char root[PATH_MAX];
static size_t rootlen;
#define MAXFD 4096
static _Atomic unsigned char tracked[MAXFD];

int __real_clock_gettime(clockid_t, struct timespec *);
int __real_open(const char *, int, ...);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_read(int, void *, size_t);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_rename(const char *, const char *);
int __real_unlink(const char *);
int __real_remove(const char *);
int __real_close(int);
int __real_ftruncate(int, off_t);
FILE *__real_fopen(const char *, const char *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

#if defined(SHIM_ASAN)
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

static void *poller(void *arg) {
    (void)arg;
    while (1) {
        int64_t r = C->allocreq;
        if (r != C->allocack) {
#if defined(SHIM_ASAN)
            C->allocbytes = (int64_t)__sanitizer_get_current_allocated_bytes();
#endif
            C->allocack = r;
        }
        usleep(2000);
    }
    return 0;
}

// Preemption at any instruction: a signal whose handler holds up a network
// thread for a while, also between and inside its critical sections.
#define MAXNET 64
static pthread_t netth[MAXNET];
static _Atomic int nnet;
static __thread char isnet;

static void preempted(int sig) {
    (void)sig;
    int e = errno;
    static _Atomic uint64_t seq;
    uint64_t x = (++seq)*0x9E3779B97F4A7C15ull;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    C->preempts++;
    if (x % 8 < 2) {
        for (int i = 0; i < 3; i++) {
            sched_yield();
        }
    } else if (x % 8 < 5) {
        for (volatile int i = 0; i < (int)((x >> 8) % 40000); i++);
    } else {
        struct timespec ts = { 0, (long)((x >> 8) % 200000) };
        nanosleep(&ts, 0);
    }
    errno = e;
}

static void *preempter(void *arg) {
    (void)arg;
    uint64_t x = 88172645463325252ull;
    while (1) {
        int64_t us = C->preempt;
        int n = nnet;
        if (us <= 0 || n == 0) {
            usleep(5000);
            continue;
        }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        pthread_kill(netth[(x >> 20) % n], SIGUSR2);
        usleep(x % (2*us));
    }
    return 0;
}

__attribute__((constructor))
static void init(void) {
    const char *r = getenv("PGSHIM_ROOT");
    if (!r || !realpath(r, root)) {
        fprintf(stderr, "shim: PGSHIM_ROOT is required\n");
        _exit(97);
    }
    rootlen = strlen(root);
    const char *p = getenv("PGSHIM");
    static struct ctl dummy;
    C = &dummy;
    if (p) {
        int fd = __real_open(p, O_RDWR);
        if (fd != -1) {
            void *m = mmap(0, sizeof(struct ctl), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) {
                C = m;
            }
            __real_close(fd);
        }
        pthread_t th;
        struct sigaction sa = { .sa_handler = preempted, .sa_flags = SA_RESTART };
        sigaction(SIGUSR2, &sa, 0);
        if (C != &dummy && __real_pthread_create(&th, 0, preempter, 0) == 0) {
            pthread_detach(th);
        }
        if (C != &dummy && __real_pthread_create(&th, 0, poller, 0) == 0) {
            pthread_detach(th);
        }
    }
    C->magic = 0x706f676f;
}

static _Thread_local int nodir;
// Is the directory of path inside the scratch root?
static int confined(const char *path) {
    nodir = 0;
    char buf[PATH_MAX], res[PATH_MAX];
    if (strlen(path) >= sizeof(buf)) {
        return 0;
    }
    strcpy(buf, path);
    char *slash = strrchr(buf, '/');
    if (slash == buf) {
        strcpy(buf, "/");
    } else if (slash) {
        *slash = 0;
    } else {
        strcpy(buf, ".");
    }
    if (!realpath(buf, res)) {
        nodir = 1;      // the call could not do anything anyway
        return 0;
    }
    if (strncmp(res, root, rootlen) != 0 || (res[rootlen] && res[rootlen] != '/')) {
        return 0;
    }
    struct stat st;
    if (lstat(path, &st) == 0 && S_ISLNK(st.st_mode)) {
        return 0;
    }
    return 1;
}

static int refuse(void) {
    if (nodir) {
        nodir = 0;
        errno = ENOENT;
        return -1;
    }
    C->escapes++;
    errno = EACCES;
    return -1;
}

// Counts a file call. Returns the action to take.
static int enter(int kind, int64_t size) {
    if (!C->armed) {
        return A_NONE;
    }
    int64_t any = C->nany++;
    int64_t idx = C->nkind[kind]++;
    int64_t l = C->loglen++;
    if (l < 4096) {
        C->log[l] = ((int64_t)kind<<40) + size;
    }
    int64_t i = C->fkind ? idx : any;
    if (C->fkind && C->fkind != kind) {
        return A_NONE;
    }
    int act = C->faction;
    if (act == A_NONE) {
        return A_NONE;
    }
    if (i == C->findex || (act == A_STICKY && i > C->findex)) {
        C->fhit++;
        if (act == A_KILL || (act == A_KILLPART && kind != K_WRITE)) {
            kill(getpid(), SIGKILL);
            while (1) pause();
        }
        return act;
    }
    return A_NONE;
}

static void failwith(void) {
    errno = C->ferrno ? (int)C->ferrno : EIO;
}

static int istracked(int fd) {
    return fd >= 0 && fd < MAXFD ? tracked[fd] : 0;
}

static uint64_t rnd(void) {
    static _Atomic uint64_t seeds;
    static __thread uint64_t x;
    if (x == 0) {
        x = (++seeds)*0x9E3779B97F4A7C15ull + 1;
    }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x >> 11;
}

static int issocket(int fd) {
    int t;
    socklen_t n = sizeof(t);
    return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &n) == 0;
}

// Legal but unusual behavior of the socket calls.
static ssize_t sockwrite(int fd, const void *p, size_t n) {
    int64_t again = C->sockagain, shrt = C->sockshort, delay = C->sockdelay;
    if ((again <= 0 && shrt <= 0 && delay <= 0) || !issocket(fd)) {
        return __real_write(fd, p, n);
    }
    if (again > 0 && rnd()%again == 0) {
        C->sockevents++;
        errno = EAGAIN;
        return -1;
    }
    if (shrt > 0 && n > 1 && rnd()%2 == 0) {
        size_t m = 1+rnd()%shrt;
        if (m < n) {
            C->sockevents++;
            n = m;
        }
    }
    ssize_t r = __real_write(fd, p, n);
    if (delay > 0 && rnd()%4 == 0) {
        int e = errno;
        C->sockevents++;
        usleep(rnd()%delay);
        errno = e;
    }
    return r;
}

static ssize_t sockread(int fd, void *p, size_t n) {
    int64_t shrt = C->readshort;
    if (shrt > 0 && n > 1 && issocket(fd)) {
        size_t m = 1+rnd()%shrt;
        if (m < n) {
            C->sockevents++;
            n = m;
        }
    }
    return __real_read(fd, p, n);
}

// Random scheduling noise, also inside the critical sections that allocate.
static void jitter(void) {
    int64_t n = C ? C->jitter : 0;
    if (n <= 0) {
        return;
    }
    static _Atomic uint64_t seeds;
    static __thread uint64_t x;
    if (x == 0) {
        x = (++seeds)*0x9E3779B97F4A7C15ull + 1;
    }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if (x % (uint64_t)n != 0) {
        return;
    }
    C->jitters++;
    uint64_t k = (x >> 32) % 16;
    if (k < 8) {
        sched_yield();
    } else if (k < 14) {
        for (volatile int i = 0; i < (int)((x >> 40) % 20000); i++);
    } else {
        usleep((x >> 40) % 100);
    }
}

void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) {
    jitter();
    return __real_malloc(n);
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    int ret = __real_clock_gettime(id, ts);
    if (ret != 0) {
        return ret;
    }
    int64_t v;
    if (id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC) {
        v = C->boot;
    } else if (id == CLOCK_REALTIME) {
        v = C->real;
    } else {
        return ret;
    }
    C->clockreads++;
    jitter();
    if (C->clockmode == 0) {
        v += (int64_t)ts->tv_sec*1000000000 + ts->tv_nsec;
    }
    ts->tv_sec = v/1000000000;
    ts->tv_nsec = v%1000000000;
    return 0;
}

int __wrap_open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & O_CREAT) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, int);
        va_end(ap);
    }
    int wr = (flags & (O_CREAT|O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
    if (wr && strncmp(path, "/dev/", 5) != 0 && !confined(path)) {
        return refuse();
    }
    int in = strncmp(path, "/dev/", 5) != 0 && strncmp(path, "/proc/", 6) != 0;
    if (in) {
        int act = enter(K_OPEN, wr);
        if (act == A_ERRNO || act == A_STICKY) {
            failwith();
            return -1;
        }
    }
    int fd = __real_open(path, flags, mode);
    if (in && fd >= 0 && fd < MAXFD) {
        tracked[fd] = wr ? 1 : 2;
    }
    return fd;
}

FILE *__wrap_fopen(const char *path, const char *mode) {
    if (mode[0] != 'r' || strchr(mode, '+')) {
        if (!confined(path)) {
            refuse();
            return 0;
        }
        int act = enter(K_OPEN, 1);
        if (act == A_ERRNO || act == A_STICKY) {
            failwith();
            return 0;
        }
        FILE *f = __real_fopen(path, mode);
        if (f && fileno(f) < MAXFD) {
            tracked[fileno(f)] = 1;
        }
        return f;
    }
    if (C->fakerss > 0 && strcmp(path, "/proc/self/statm") == 0) {
        char s[64];
        int n = snprintf(s, sizeof(s), "%lld %lld 0 0 0 0 0\n", (long long)C->fakerss*4, (long long)C->fakerss);
        FILE *f = fmemopen(0, sizeof(s), "w+");
        if (f) {
            fwrite(s, 1, n, f);
            rewind(f);
            return f;
        }
    }
    return __real_fopen(path, mode);
}

static int wenter(int fd, size_t n) {
    if (C->writedelay > 0) {
        usleep(C->writedelay);
    }
    if (C->wjumpat > 0 && --C->wjumpat == 0) {
        C->boot += C->wjumpns;
        C->real += C->wjumpns;
        C->wjumps++;
    }
    (void)fd;
    return enter(K_WRITE, n);
}

ssize_t __wrap_write(int fd, const void *p, size_t n) {
    if (istracked(fd) != 1) {
        return C ? sockwrite(fd, p, n) : __real_write(fd, p, n);
    }
    int act = wenter(fd, n);
    switch (act) {
    case A_ERRNO: case A_STICKY:
        failwith();
        return -1;
    case A_ZERO:
    case A_SHORT:
        return __real_write(fd, p, n > 1 ? n/2 : n);
    case A_KILLPART:
        (void)!__real_write(fd, p, n/2);
        kill(getpid(), SIGKILL);
        while (1) pause();
    }
    return __real_write(fd, p, n);
}

ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t off) {
    if (istracked(fd) != 1) {
        return __real_pwrite(fd, p, n, off);
    }
    int act = wenter(fd, n);
    switch (act) {
    case A_ERRNO: case A_STICKY:
        failwith();
        return -1;
    case A_SHORT:
        return __real_pwrite(fd, p, n > 1 ? n/2 : n, off);
    case A_KILLPART:
        (void)!__real_pwrite(fd, p, n/2, off);
        kill(getpid(), SIGKILL);
        while (1) pause();
    }
    return __real_pwrite(fd, p, n, off);
}

ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
    if (istracked(fd) != 1) {
        return __real_writev(fd, v, n);
    }
    int act = wenter(fd, n);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return -1;
    }
    if (act == A_SHORT && n > 0) {
        return __real_write(fd, v[0].iov_base, v[0].iov_len > 1 ? v[0].iov_len/2 : v[0].iov_len);
    }
    if (act == A_KILLPART) {
        if (n > 0) {
            (void)!__real_write(fd, v[0].iov_base, v[0].iov_len/2);
        }
        kill(getpid(), SIGKILL);
        while (1) pause();
    }
    return __real_writev(fd, v, n);
}

size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f) {
    if (istracked(fileno(f)) != 1) {
        return __real_fwrite(p, sz, n, f);
    }
    int act = wenter(fileno(f), sz*n);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return 0;
    }
    if (act == A_SHORT) {
        return __real_fwrite(p, sz, n/2, f);
    }
    return __real_fwrite(p, sz, n, f);
}

ssize_t __wrap_read(int fd, void *p, size_t n) {
    if (istracked(fd) != 2) {
        return C ? sockread(fd, p, n) : __real_read(fd, p, n);
    }
    int act = enter(K_READ, n);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return -1;
    }
    if (act == A_SHORT) {
        return __real_read(fd, p, n > 1 ? n/2 : n);
    }
    return __real_read(fd, p, n);
}

static int sync0(int fd, int (*f)(int)) {
    if (istracked(fd)) {
        int act = enter(K_FSYNC, 0);
        if (act == A_ERRNO || act == A_STICKY) {
            failwith();
            return -1;
        }
    }
    return f(fd);
}
int __wrap_fsync(int fd) { return sync0(fd, __real_fsync); }
int __wrap_fdatasync(int fd) { return sync0(fd, __real_fdatasync); }

int __wrap_ftruncate(int fd, off_t len) {
    if (istracked(fd)) {
        int act = enter(K_WRITE, 0);
        if (act == A_ERRNO || act == A_STICKY) {
            failwith();
            return -1;
        }
    }
    return __real_ftruncate(fd, len);
}

int __wrap_rename(const char *a, const char *b) {
    if (!confined(a) || !confined(b)) {
        return refuse();
    }
    int act = enter(K_RENAME, 0);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return -1;
    }
    return __real_rename(a, b);
}

int __wrap_unlink(const char *a) {
    if (!confined(a)) {
        return refuse();
    }
    int act = enter(K_UNLINK, 0);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return -1;
    }
    return __real_unlink(a);
}

int __wrap_remove(const char *a) {
    if (!confined(a)) {
        return refuse();
    }
    int act = enter(K_UNLINK, 0);
    if (act == A_ERRNO || act == A_STICKY) {
        failwith();
        return -1;
    }
    return __real_remove(a);
}

int __wrap_close(int fd) {
    if (istracked(fd)) {
        int kind = tracked[fd];
        tracked[fd] = 0;
        if (kind == 1) {
            int act = enter(K_CLOSE, 0);
            if (act == A_ERRNO || act == A_STICKY) {
                __real_close(fd);
                failwith();
                return -1;
            }
        }
    }
    return __real_close(fd);
}

int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int level, int opt, const void *val, socklen_t len) {
    int ret = __real_setsockopt(fd, level, opt, val, len);
    int i = level == IPPROTO_TCP && opt == TCP_NODELAY ? 0 :
            level == SOL_SOCKET && opt == SO_KEEPALIVE ? 2 :
            level == IPPROTO_TCP && opt == TCP_QUICKACK ? 4 :
            level == SOL_SOCKET && opt == SO_REUSEPORT ? 6 : -1;
    if (i >= 0 && ret == 0 && len == sizeof(int)) {
        int v;
        memcpy(&v, val, sizeof(v));
        C->sockopts[i + !v]++;
    }
    return ret;
}

int __real_listen(int, int);
int __wrap_listen(int fd, int backlog) {
    C->backlog = backlog;
    struct sockaddr sa = { 0 };
    socklen_t n = sizeof(sa);
    if (getsockname(fd, &sa, &n) == 0) {
        if (sa.sa_family == AF_UNIX) {
            C->listenunix++;
        } else {
            C->listentcp++;
        }
    }
    return __real_listen(fd, backlog);
}

int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int q, struct epoll_event *ev, int n, int timeout) {
    if (n > C->evmax) {
        C->evmax = n;
    }
    if (!isnet) {
        isnet = 1;
        static _Atomic int next;
        int i = next++;
        if (i < MAXNET) {
            netth[i] = pthread_self();
            while (nnet != i) {
                sched_yield();
            }
            nnet = i+1;
        }
    }
    while (1) {
        int64_t before = C->preempts;
        int ret = __real_epoll_wait(q, ev, n, timeout);
        if (ret == -1 && errno == EINTR && C->preempts != before) {
            continue;       // ours
        }
        return ret;
    }
}

struct tharg { void *(*f)(void *); void *arg; };
static void *thstart(void *p) {
    struct tharg a = *(struct tharg*)p;
    free(p);
    if (C->threaddelay > 0) {
        usleep(C->threaddelay);
    }
    return a.f(a.arg);
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    C->nthreads++;
    int64_t n = C->threadfail;
    if (n != 0 && C->threadskip > 0) {
        C->threadskip--;
    } else if (n != 0) {
        if (n > 0) {
            C->threadfail--;
        }
        return EAGAIN;
    }
    struct tharg *a = malloc(sizeof(struct tharg));
    a->f = f;
    a->arg = arg;
    int ret = __real_pthread_create(th, at, thstart, a);
    if (ret != 0) {
        free(a);
    }
    return ret;
}
