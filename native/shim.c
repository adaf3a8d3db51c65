/* LD_PRELOAD monitor and fault injector.
 *
 * Observes every file-system call a python process (including sqlite) makes below watched
 * directories, and can: stop the process before or half way through the n-th of them, let the
 * n-th fail, delay them, deny and record accesses outside an allowed directory, split socket
 * reads and writes, shift the wall clock.  Everything is off until switched on through the
 * sh_* functions (called by ctypes in the process concerned).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXP 8
#define NOPS 32
static char watch[MAXP][PATH_MAX]; static int n_watch;      /* counted */
static char excl[MAXP][64];        static int n_excl;       /* path suffixes not counted */
static char allow[MAXP][PATH_MAX]; static int n_allow;      /* writes allowed (jail) */
static char audit[MAXP][PATH_MAX]; static int n_audit;      /* reads recorded (jail) */
static atomic_int jail, active;
static atomic_long counter;                                  /* watched operations so far */
static atomic_long target = -1;                              /* operation to act on */
static atomic_int action;                                    /* 1 kill before, 2 kill half way, 3 errno, 4 errno from here on, 5 errno half way, 6 stop before, 7 hand over to the harness */
static atomic_int act_errno;
static atomic_int fired;
static atomic_int delay_max_us, delay_pct;
static atomic_uint delay_state = 12345;
static atomic_long cap_send, cap_recv;                       /* 0: no cap, <0: random 1..-cap */
static atomic_long recv_zero_limit; static atomic_long recv_zero;
static atomic_llong sent_total, send_cut = -1;               /* close connection after so many bytes */
static atomic_llong clock_shift_ns;
static atomic_long patience;                                 /* waiting times are divided by this */
static atomic_int log_fd = -1;
static atomic_long opcount[NOPS];
static const char *opname[NOPS] = {"open","write","trunc","rename","unlink","rmdir","mkdir","link","utime","chmod",
                                   "sendfile","copy","sync","read"};
enum {K_OPEN,K_WRITE,K_TRUNC_,K_RENAME,K_UNLINK,K_RMDIR,K_MKDIR,K_LINK,K_UTIME,K_CHMOD,K_SENDFILE,K_COPY,K_SYNC,K_READ,K_LOCK};

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static unsigned rnd(void) { /* splitmix-like, shared between threads */
    unsigned z = atomic_fetch_add(&delay_state, 0x9e3779b9u) + 0x9e3779b9u;
    z ^= z >> 16; z *= 0x85ebca6bu; z ^= z >> 13; z *= 0xc2b2ae35u; z ^= z >> 16; return z;
}

/* -------------------------------------------------------------- paths */
static void absolute(int dirfd, const char *p, char *out) {
    char buf[2 * PATH_MAX + 2]; int n = 0;
    if (!p) p = "";
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, buf, PATH_MAX) <= 0) strcpy(buf, "/"); }
        else { char l[64]; snprintf(l, 64, "/proc/self/fd/%d", dirfd);
               ssize_t r = syscall(SYS_readlink, l, buf, PATH_MAX - 1); if (r < 0) r = 0; buf[r] = 0; }
        n = strlen(buf); buf[n++] = '/'; 
    }
    strncpy(buf + n, p, PATH_MAX); buf[n + PATH_MAX] = 0;
    /* lexical normalisation */
    char *o = out; *o = 0; char *s = buf;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = strchr(s, '/'); size_t len = e ? (size_t)(e - s) : strlen(s);
        if (len == 1 && s[0] == '.') {}
        else if (len == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/'); *o = 0; }
        else { if (o - out + len + 2 > PATH_MAX) break; *o++ = '/'; memcpy(o, s, len); o += len; *o = 0; }
        s += len;
    }
    if (o == out) strcpy(out, "/");
}
static int fdpath(int fd, char *out) {
    char l[64]; snprintf(l, 64, "/proc/self/fd/%d", fd);
    ssize_t r = syscall(SYS_readlink, l, out, PATH_MAX - 1); if (r < 0) return 0; out[r] = 0; return 1;
}
static int under(char list[][PATH_MAX], int n, const char *p) {
    for (int i = 0; i < n; i++) { size_t l = strlen(list[i]);
        if (!strncmp(p, list[i], l) && (p[l] == 0 || p[l] == '/')) return 1; }
    return 0;
}
static int watched(const char *p) {
    if (!n_watch || !under(watch, n_watch, p)) return 0;
    for (int i = 0; i < n_excl; i++) if (strstr(p, excl[i])) return 0;
    return 1;
}
static int harmless(const char *p) { return (!strncmp(p, "/dev/", 5) && strncmp(p, "/dev/shm/", 9)) || !strncmp(p, "/proc/self/", 11); }
static void logline(const char *tag, int op, const char *p) {
    int fd = atomic_load(&log_fd); if (fd < 0) return;
    char b[PATH_MAX + 64]; int n = snprintf(b, sizeof b, "%s %s %s\n", tag, opname[op], p);
    for (int i = 0; i < n - 1; i++) if (b[i] == '\n') b[i] = '?';
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, fd, b, n);
}
/* hands over to the harness and waits for it */
static atomic_uint only_ops;
static char only_path[PATH_MAX];
static atomic_int pause_out = -1, pause_in = -1, count_reads;
static void handover(void) {
    char c = 'P'; int o = atomic_load(&pause_out), i = atomic_load(&pause_in);
    atomic_store(&fired, 1);
    if (o < 0 || i < 0) return;
    if (syscall(SYS_write, o, &c, 1) != 1) return;
    while (syscall(SYS_read, i, &c, 1) < 0 && errno == EINTR) {}
}
static void die(void) { atomic_store(&fired, 1); syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

/* before a file-system change. 0: go on, 1: half way then die, 2: half way then fail, <0: fail with -errno */
static int before(int op, const char *p) {
    if (!atomic_load(&active)) return 0;
    if (atomic_load(&jail) && !under(allow, n_allow, p) && !harmless(p) && p[0] == '/') {
        logline("DENY", op, p); return -EACCES;
    }
    if (!watched(p)) return 0;
    if (*only_path && !strstr(p, only_path)) return 0;
    unsigned m = atomic_load(&only_ops); if (m && !(m & (1u << op))) return 0;
    int d = atomic_load(&delay_max_us);
    if (d > 0 && (int)(rnd() % 100) < atomic_load(&delay_pct)) { struct timespec t = {0, (long)(rnd() % d) * 1000L}; syscall(SYS_nanosleep, &t, 0); }
    long n = atomic_fetch_add(&counter, 1);
    atomic_fetch_add(&opcount[op], 1);
    logline("OP", op, p);
    long t = atomic_load(&target);
    if (t < 0) return 0;
    int a = atomic_load(&action);
    if (n == t) switch (a) {
        case 1: die(); break;
        case 2: atomic_store(&fired, 1); return 1;
        case 3: case 4: atomic_store(&fired, 1); return -atomic_load(&act_errno);
        case 5: atomic_store(&fired, 1); return 2;
        case 7: handover(); return 0;
        case 6: atomic_store(&fired, 1); syscall(SYS_kill, getpid(), SIGSTOP); return 0;
    }
    if (n > t && a == 4 && (op == K_OPEN || op == K_WRITE || op == K_MKDIR || op == K_SENDFILE || op == K_COPY)) return -atomic_load(&act_errno);
    return 0;
}
static void auditread(int op, const char *p) {
    if (!atomic_load(&active) || !atomic_load(&jail)) return;
    if (under(audit, n_audit, p) && !under(allow, n_allow, p)) logline("READ", op, p);
}
#define FAIL(b) do { if ((b) < 0) { errno = -(b); return -1; } } while (0)
/* for operations that can not be done by half */
#define PRE(op, p) do { int b_ = before(op, p); FAIL(b_); if (b_ == 1) die(); if (b_ == 2) { errno = atomic_load(&act_errno); return -1; } } while (0)

/* -------------------------------------------------------------- open */
static int pre_open(int dirfd, const char *path, int flags) {
    if (!atomic_load(&active)) return 0;
    char p[PATH_MAX + 8]; absolute(dirfd, path, p);
    if (flags & (O_CREAT | O_TRUNC)) {
        struct stat st; int exists = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
        if ((flags & O_TRUNC) || !exists) PRE(K_OPEN, p);
        else if (atomic_load(&jail)) { if (!under(allow, n_allow, p) && !harmless(p)) { logline("DENY", K_OPEN, p); errno = EACCES; return -1; } }
    } else if ((flags & O_ACCMODE) != O_RDONLY && atomic_load(&jail) && !under(allow, n_allow, p) && !harmless(p)) { logline("DENY", K_OPEN, p); errno = EACCES; return -1; }
    if (atomic_load(&count_reads) && !atomic_load(&jail) && (flags & (O_ACCMODE | O_CREAT | O_DIRECTORY)) == O_RDONLY) PRE(K_READ, p);
    auditread(K_READ, p);
    return 0;
}
#define OPENBODY(call_mode) \
    mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPENBODY() if (pre_open(AT_FDCWD, path, flags) < 0) return -1; return REAL(open)(path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENBODY() if (pre_open(AT_FDCWD, path, flags) < 0) return -1; return REAL(open64)(path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { OPENBODY() if (pre_open(d, path, flags) < 0) return -1; return REAL(openat)(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPENBODY() if (pre_open(d, path, flags) < 0) return -1; return REAL(openat64)(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { if (pre_open(AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY) < 0) return -1; return REAL(creat)(path, mode); }
static FILE *fo(const char *path, const char *m, FILE *(*r)(const char *, const char *)) {
    int fl = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY) : (m[0] == 'w' ? O_CREAT | O_TRUNC | O_WRONLY : O_CREAT | O_WRONLY);
    if (pre_open(AT_FDCWD, path, fl) < 0) return NULL; return r(path, m); }
FILE *fopen(const char *path, const char *m) { return fo(path, m, REAL(fopen)); }
FILE *fopen64(const char *path, const char *m) { return fo(path, m, REAL(fopen64)); }

/* -------------------------------------------------------------- write */
static int fdw(int fd, char *p) { return atomic_load(&active) && n_watch && fdpath(fd, p) && watched(p); }
#define HALF(b, docall_half) \
    if (b == 1) { docall_half; die(); } \
    if (b == 2) { docall_half; errno = atomic_load(&act_errno); return -1; }
ssize_t write(int fd, const void *buf, size_t n) {
    char p[PATH_MAX];
    if (fd > 2 && fdw(fd, p)) { int b = before(K_WRITE, p); FAIL(b); HALF(b, if (n > 1) REAL(write)(fd, buf, n / 2)) }
    return REAL(write)(fd, buf, n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    char p[PATH_MAX];
    if (fdw(fd, p)) { int b = before(K_WRITE, p); FAIL(b); HALF(b, if (n > 1) REAL(pwrite)(fd, buf, n / 2, o)) }
    return REAL(pwrite)(fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    char p[PATH_MAX];
    if (fdw(fd, p)) { int b = before(K_WRITE, p); FAIL(b); HALF(b, if (n > 1) REAL(pwrite64)(fd, buf, n / 2, o)) }
    return REAL(pwrite64)(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    char p[PATH_MAX];
    if (fdw(fd, p)) { int b = before(K_WRITE, p); FAIL(b); HALF(b, if (c) REAL(write)(fd, v[0].iov_base, v[0].iov_len / 2)) }
    return REAL(writev)(fd, v, c);
}
int ftruncate(int fd, off_t l) { char p[PATH_MAX]; if (fdw(fd, p)) PRE(K_TRUNC_, p); return REAL(ftruncate)(fd, l); }
int ftruncate64(int fd, off64_t l) { char p[PATH_MAX]; if (fdw(fd, p)) PRE(K_TRUNC_, p); return REAL(ftruncate64)(fd, l); }
/* only looked at when asked for, unlike the others */
int flock(int fd, int op) { char p[PATH_MAX]; if ((atomic_load(&only_ops) & (1u << K_LOCK)) && fdw(fd, p)) PRE(K_LOCK, p); return REAL(flock)(fd, op); }
int fsync(int fd) { char p[PATH_MAX]; if (fdw(fd, p)) { int b = before(K_SYNC, p); FAIL(b); if (b == 1) die(); } return 0; }
int fdatasync(int fd) { char p[PATH_MAX]; if (fdw(fd, p)) { int b = before(K_SYNC, p); FAIL(b); if (b == 1) die(); } return 0; }
int fallocate64(int fd, int m, off64_t o, off64_t l) { char p[PATH_MAX]; if (fdw(fd, p)) PRE(K_WRITE, p); return REAL(fallocate64)(fd, m, o, l); }
static int is_sock(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode); }
static size_t capped(atomic_long *cap, size_t n) {
    long c = atomic_load(cap); if (c == 0 || n == 0) return n;
    size_t m = c > 0 ? (size_t)c : 1 + rnd() % (unsigned)(-c);
    return m < n ? m : n;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    char p[PATH_MAX];
    if (fdw(out, p)) { int b = before(K_SENDFILE, p); FAIL(b);
        if (b) { struct stat st; fstat(in, &st); size_t h = st.st_size / 2; if (h) REAL(sendfile64)(out, in, off, h < n ? h : n);
                 if (b == 1) die(); errno = atomic_load(&act_errno); return -1; } }
    else if (atomic_load(&active) && atomic_load(&cap_send) && is_sock(out)) n = capped(&cap_send, n);
    return REAL(sendfile64)(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    char p[PATH_MAX];
    if (fdw(out, p)) { int b = before(K_COPY, p); FAIL(b);
        if (b) { struct stat st; fstat(in, &st); size_t h = st.st_size / 2; if (h) REAL(copy_file_range)(in, oi, out, oo, h < n ? h : n, fl);
                 if (b == 1) die(); errno = atomic_load(&act_errno); return -1; } }
    return REAL(copy_file_range)(in, oi, out, oo, n, fl);
}

/* -------------------------------------------------------------- directory changes */
#define P1(op, d, a) char p_[PATH_MAX + 8]; if (atomic_load(&active)) { absolute(d, a, p_); PRE(op, p_); }
static int pre2(int op, int d1, const char *a, int d2, const char *b) {
    if (!atomic_load(&active)) return 0;
    char p[PATH_MAX + 8], q[PATH_MAX + 8]; absolute(d1, a, p); absolute(d2, b, q);
    if (atomic_load(&jail)) {
        if (!under(allow, n_allow, p)) { logline("DENY", op, p); errno = EACCES; return -1; }
        if (!under(allow, n_allow, q)) { logline("DENY", op, q); errno = EACCES; return -1; }
    }
    if (watched(q)) PRE(op, q); else PRE(op, p);
    return 0;
}
int rename(const char *a, const char *b) { if (pre2(K_RENAME, AT_FDCWD, a, AT_FDCWD, b)) return -1; return REAL(rename)(a, b); }
int renameat(int d, const char *a, int e, const char *b) { if (pre2(K_RENAME, d, a, e, b)) return -1; return REAL(renameat)(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (pre2(K_RENAME, d, a, e, b)) return -1; return REAL(renameat2)(d, a, e, b, f); }
int link(const char *a, const char *b) { if (pre2(K_LINK, AT_FDCWD, a, AT_FDCWD, b)) return -1; return REAL(link)(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { if (pre2(K_LINK, d, a, e, b)) return -1; return REAL(linkat)(d, a, e, b, f); }
int symlink(const char *a, const char *b) { P1(K_LINK, AT_FDCWD, b) return REAL(symlink)(a, b); }
int symlinkat(const char *a, int d, const char *b) { P1(K_LINK, d, b) return REAL(symlinkat)(a, d, b); }
int unlink(const char *a) { P1(K_UNLINK, AT_FDCWD, a) return REAL(unlink)(a); }
int unlinkat(int d, const char *a, int f) { P1((f & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, d, a) return REAL(unlinkat)(d, a, f); }
int remove(const char *a) { P1(K_UNLINK, AT_FDCWD, a) return REAL(remove)(a); }
int rmdir(const char *a) { P1(K_RMDIR, AT_FDCWD, a) return REAL(rmdir)(a); }
int mkdir(const char *a, mode_t m) { P1(K_MKDIR, AT_FDCWD, a) return REAL(mkdir)(a, m); }
int mkdirat(int d, const char *a, mode_t m) { P1(K_MKDIR, d, a) return REAL(mkdirat)(d, a, m); }
int truncate(const char *a, off_t l) { P1(K_TRUNC_, AT_FDCWD, a) return REAL(truncate)(a, l); }
int truncate64(const char *a, off64_t l) { P1(K_TRUNC_, AT_FDCWD, a) return REAL(truncate64)(a, l); }
int chmod(const char *a, mode_t m) { P1(K_CHMOD, AT_FDCWD, a) return REAL(chmod)(a, m); }
int utimensat(int d, const char *a, const struct timespec t[2], int f) { if (a) { P1(K_UTIME, d, a) } return REAL(utimensat)(d, a, t, f); }

/* -------------------------------------------------------------- reads by path (recorded in jail mode) */
#define AR(d, a) do { if (atomic_load(&active) && atomic_load(&jail)) { char p[PATH_MAX + 8]; absolute(d, a, p); auditread(K_READ, p); } } while (0)
int stat(const char *a, struct stat *s) { AR(AT_FDCWD, a); return REAL(stat)(a, s); }
int stat64(const char *a, struct stat64 *s) { AR(AT_FDCWD, a); return REAL(stat64)(a, s); }
int lstat(const char *a, struct stat *s) { AR(AT_FDCWD, a); return REAL(lstat)(a, s); }
int fstatat(int d, const char *a, struct stat *s, int f) { if (a && *a) AR(d, a); return REAL(fstatat)(d, a, s, f); }
int fstatat64(int d, const char *a, struct stat64 *s, int f) { if (a && *a) AR(d, a); return REAL(fstatat64)(d, a, s, f); }

/* -------------------------------------------------------------- sockets */
static void nodelay(int fd) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
int connect(int fd, const struct sockaddr *a, socklen_t l) { if (a->sa_family == AF_INET) nodelay(fd); return REAL(connect)(fd, a, l); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r = REAL(accept4)(fd, a, l, f); if (r >= 0) nodelay(r); return r; }
int accept(int fd, struct sockaddr *a, socklen_t *l) { int r = REAL(accept)(fd, a, l); if (r >= 0) nodelay(r); return r; }
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    if (a->sa_family == AF_INET) { int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); }
    return REAL(bind)(fd, a, l);
}
ssize_t send(int fd, const void *b, size_t n, int f) {
    if (atomic_load(&active)) {
        n = capped(&cap_send, n);
        long long cut = atomic_load(&send_cut);
        if (cut >= 0) {
            long long left = cut - atomic_load(&sent_total);
            if (left <= 0) { shutdown(fd, SHUT_RDWR); errno = EPIPE; return -1; }
            if ((long long)n > left) n = left;
        }
        ssize_t r = REAL(send)(fd, b, n, f);
        if (r > 0) atomic_fetch_add(&sent_total, r);
        return r;
    }
    return REAL(send)(fd, b, n, f);
}
ssize_t recv(int fd, void *b, size_t n, int f) {
    if (!atomic_load(&active)) return REAL(recv)(fd, b, n, f);
    n = capped(&cap_recv, n);
    ssize_t r = REAL(recv)(fd, b, n, f);
    long lim = atomic_load(&recv_zero_limit);
    if (lim > 0 && n > 0) {
        if (r == 0) { if (atomic_fetch_add(&recv_zero, 1) + 1 > lim) { logline("SPIN", K_READ, "recv"); syscall(SYS_exit_group, 97); } }
        else if (r > 0) atomic_store(&recv_zero, 0);
    }
    return r;
}

/* -------------------------------------------------------------- waiting times */
static int shorter(int t) { long s = atomic_load(&patience); return atomic_load(&active) && s > 1 && t > 0 ? (t / s ? t / s : 1) : t; }
int poll(struct pollfd *f, nfds_t n, int t) { return REAL(poll)(f, n, shorter(t)); }
int epoll_wait(int e, struct epoll_event *v, int n, int t) { return REAL(epoll_wait)(e, v, n, shorter(t)); }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    long s = atomic_load(&patience); struct timeval v;
    if (t && atomic_load(&active) && s > 1) { long long us = (t->tv_sec * 1000000LL + t->tv_usec) / s; v.tv_sec = us / 1000000; v.tv_usec = us % 1000000; t = &v; }
    return REAL(select)(n, r, w, x, t);
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) {
    long s = atomic_load(&patience); struct timeval t;
    if (atomic_load(&active) && s > 1 && l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && n == sizeof t) {
        const struct timeval *g = v; long long us = (g->tv_sec * 1000000LL + g->tv_usec) / s; t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; v = &t; }
    return REAL(setsockopt)(fd, l, o, v, n);
}

/* -------------------------------------------------------------- clock */
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = REAL(clock_gettime)(c, t);
    long long s = atomic_load(&clock_shift_ns);
    if (s && r == 0 && c == CLOCK_REALTIME) {
        long long v = t->tv_sec * 1000000000LL + t->tv_nsec + s; t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; }
    return r;
}

/* -------------------------------------------------------------- control */
void sh_reset(void) {
    atomic_store(&active, 0); n_watch = n_excl = n_allow = n_audit = 0; atomic_store(&jail, 0); atomic_store(&counter, 0);
    atomic_store(&target, -1); atomic_store(&action, 0); atomic_store(&fired, 0); atomic_store(&delay_max_us, 0);
    atomic_store(&cap_send, 0); atomic_store(&cap_recv, 0); atomic_store(&recv_zero_limit, 0); atomic_store(&recv_zero, 0);
    atomic_store(&sent_total, 0); atomic_store(&send_cut, -1); atomic_store(&clock_shift_ns, 0); atomic_store(&log_fd, -1); atomic_store(&patience, 0);
    atomic_store(&only_ops, 0); *only_path = 0; atomic_store(&pause_out, -1); atomic_store(&pause_in, -1); atomic_store(&count_reads, 0);
    for (int i = 0; i < NOPS; i++) atomic_store(&opcount[i], 0);
}
static void add(char list[][PATH_MAX], int *n, const char *p) { if (*n < MAXP) { strncpy(list[*n], p, PATH_MAX - 1); (*n)++; } }
void sh_watch(const char *p) { add(watch, &n_watch, p); }
void sh_exclude(const char *s) { if (n_excl < MAXP) strncpy(excl[n_excl++], s, 63); }
void sh_allow(const char *p) { add(allow, &n_allow, p); }
void sh_audit(const char *p) { add(audit, &n_audit, p); }
void sh_active(int a) { atomic_store(&active, a); }
void sh_jail(int a) { atomic_store(&jail, a); }
void sh_arm(long k, int a, int e) { atomic_store(&counter, 0); atomic_store(&fired, 0); atomic_store(&action, a); atomic_store(&act_errno, e); atomic_store(&target, k); }
long sh_count(void) { return atomic_load(&counter); }
int sh_fired(void) { return atomic_load(&fired); }
void sh_delay(int max_us, int pct, unsigned seed) { atomic_store(&delay_max_us, max_us); atomic_store(&delay_pct, pct); atomic_store(&delay_state, seed); }
void sh_caps(long s, long r, unsigned seed) { atomic_store(&cap_send, s); atomic_store(&cap_recv, r); atomic_store(&delay_state, seed); }
void sh_spin(long lim) { atomic_store(&recv_zero, 0); atomic_store(&recv_zero_limit, lim); }
void sh_pause(int out, int in) { atomic_store(&pause_out, out); atomic_store(&pause_in, in); }
void sh_only_path(const char *s) { snprintf(only_path, sizeof only_path, "%s", s); }
void sh_only(unsigned mask) { atomic_store(&only_ops, mask); }
void sh_reads(int on) { atomic_store(&count_reads, on); }
void sh_cut(long long n) { atomic_store(&sent_total, 0); atomic_store(&send_cut, n); }
void sh_clock(double seconds) { atomic_store(&clock_shift_ns, (long long)(seconds * 1e9)); }
void sh_patience(long d) { atomic_store(&patience, d); }
void sh_log(int fd) { atomic_store(&log_fd, fd); }
long sh_opcount(int i) { return i >= 0 && i < NOPS ? atomic_load(&opcount[i]) : 0; }
const char *sh_opname(int i) { return i >= 0 && i < NOPS && opname[i] ? opname[i] : ""; }
