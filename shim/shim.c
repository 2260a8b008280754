// LD_PRELOAD environment model for the snapcd binary.
//
// Every file-system call that touches a path below VX_ROOT is an *event*.  Depending on the
// environment variables below, an event is logged, made to fail, turned into process death, or
// handed to a scheduler before it runs.  Calls on other paths pass through untouched.
//
//   VX_ROOT      directory whose files are watched
//   VX_LOG       file to append binary event records to (writes, truncations, syncs, names)
//   VX_TRACE     file to append one text line per event to
//   VX_FAULT     "<k>:<kind>[,<k>:<kind>]"  at event number k (from 1) do <kind>
//   VX_SCHED     unix socket of the scheduler; every scheduling point waits for one byte
//   VX_ME        name given to the scheduler
//   VX_POINTS    "all": reading and looking at files are scheduling points as well
//   VX_DIRORDER  "s" sorted, "r" reversed, "p<N>" N-th permutation of the sorted listing
//   VX_READ      "<n>[,<n>...]" lengths of successive read()s of watched regular files (cyclic);
//                0 stands for EINTR
//   VX_SLEEP     "0": sleeping returns at once
//   VX_SEED      seed of the deterministic random numbers
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
static char root[PATH_MAX];
static size_t rootlen;
static int log_fd = -1, trace_fd = -1, sched_fd = -1;
static long nevent = 0;
static struct {
    long at;
    char kind[16];
} faults[4];
static int nfaults = 0;
static int sticky = 0; // 0 none, 1 every event fails with EIO, 2 everything that needs space ENOSPC
static char dirorder[64];
static int read_pat[64], read_n = 0, read_i = 0;
static int nosleep = 0;
static uint64_t rng = 0;
static int rng_on = 0;
static char *fdpath[MAXFD]; // watched files by descriptor
static char fdrandom[MAXFD];
static int ready = 0, all_points = 0;

extern char **environ;
#define REAL(ret, name, ...)                                                                       \
    static ret (*real_##name)(__VA_ARGS__);                                                        \
    if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static long raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *s;
    if ((s = getenv("VX_ROOT"))) {
        strncpy(root, s, sizeof root - 1);
        rootlen = strlen(root);
    }
    if ((s = getenv("VX_LOG")))
        log_fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if ((s = getenv("VX_TRACE")))
        trace_fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if ((s = getenv("VX_FAULT"))) {
        while (nfaults < 4 && sscanf(s, "%ld:%15[a-z]", &faults[nfaults].at, faults[nfaults].kind) == 2) {
            nfaults++;
            if (!(s = strchr(s, ','))) break;
            s++;
        }
    }
    if ((s = getenv("VX_DIRORDER"))) strncpy(dirorder, s, sizeof dirorder - 1);
    if ((s = getenv("VX_READ"))) {
        while (*s && read_n < 64) {
            read_pat[read_n++] = atoi(s);
            s = strchr(s, ',');
            if (!s) break;
            s++;
        }
    }
    if ((s = getenv("VX_POINTS"))) all_points = *s == 'a';
    if ((s = getenv("VX_SLEEP"))) nosleep = *s == '0';
    if ((s = getenv("VX_SEED"))) {
        rng = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 1;
        rng_on = 1;
    }
    if ((s = getenv("VX_SCHED"))) {
        struct sockaddr_un a = {.sun_family = AF_UNIX};
        strncpy(a.sun_path, s, sizeof a.sun_path - 1);
        int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (connect(fd, (void *)&a, sizeof a) == 0) {
            // Move out of the way so that descriptor numbers do not depend on the scheduler.
            sched_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            syscall(SYS_close, fd);
            const char *me = getenv("VX_ME");
            dprintf(sched_fd, "hello %s\n", me ? me : "?");
        } else {
            _exit(97);
        }
    }
}
__attribute__((constructor)) static void ctor(void) { init(); }

static uint64_t rnd(void) {
    rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void rnd_fill(void *p, size_t n) {
    unsigned char *c = p;
    while (n--) *c++ = (unsigned char)rnd();
}

// Lexically absolute form of a path; 0 if it is not watched.
static int watched(int dirfd, const char *path, char *out) {
    if (!rootlen || !path) return 0;
    char buf[PATH_MAX * 2];
    if (path[0] == '/') {
        snprintf(buf, sizeof buf, "%s", path);
    } else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
    } else {
        if (dirfd < 0 || dirfd >= MAXFD || !fdpath[dirfd]) return 0;
        snprintf(buf, sizeof buf, "%s/%s", fdpath[dirfd], path);
    }
    // normalise
    char *o = out;
    const char *p = buf;
    *o = 0;
    while (*p) {
        while (*p == '/') p++;
        const char *e = p;
        while (*e && *e != '/') e++;
        size_t n = e - p;
        if (n == 0) break;
        if (n == 1 && p[0] == '.') {
        } else if (n == 2 && p[0] == '.' && p[1] == '.') {
            while (o > out && *o != '/') o--;
            *o = 0;
        } else {
            if (o - out + n + 2 > PATH_MAX) return 0;
            *o++ = '/';
            memcpy(o, p, n);
            o += n;
            *o = 0;
        }
        p = e;
    }
    return strncmp(out, root, rootlen) == 0 && (out[rootlen] == 0 || out[rootlen] == '/');
}

static const char *fdwatch(int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
static void setfd(int fd, const char *p) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = p ? strdup(p) : 0;
    fdrandom[fd] = 0;
}
static const char *rel(const char *p) { return p[rootlen] == '/' ? p + rootlen + 1 : p + rootlen; }

static void logrec(char op, const char *path, uint64_t off, const void *data, uint32_t len) {
    if (log_fd < 0) return;
    const char *r = rel(path);
    uint16_t pl = strlen(r);
    char head[15];
    head[0] = op;
    memcpy(head + 1, &pl, 2);
    memcpy(head + 3, &off, 8);
    memcpy(head + 11, &len, 4);
    struct iovec v[3] = {{head, 15}, {(void *)r, pl}, {(void *)data, data ? len : 0}};
    syscall(SYS_writev, log_fd, v, 3);
}

static void sched_msg(const char *op, const char *path) {
    char b[PATH_MAX + 64];
    int n = snprintf(b, sizeof b, "%s %s\n", op, path);
    if (raw_write(sched_fd, b, n) != n) _exit(98);
    char c;
    long r;
    do r = syscall(SYS_read, sched_fd, &c, 1);
    while (r < 0 && errno == EINTR);
    if (r != 1) _exit(98);
    if (c == 'k') {
        kill(getpid(), SIGKILL);
    }
}

enum { N_NONE, N_ERR, N_SHORT };
// What an event class can do.
#define C_SPACE 1 // needs disk space
#define C_DATA 2  // transfers data, can be short
#define C_LOCK 4
#define C_READ 8
#define C_POINT 16 // scheduling point

// VX_EDIT=<directory>|<n> <op> <path> [<path>]|...: someone else changes files before the n-th event
// in that directory (its repository aside).  m: rename, w: overwrite the second in place with the
// bytes and the time of the first, u: unlink, d: remove the directory, k: make it.
static char *edits;
static int edits_ready = 0;
static long nedit = 0;
static char *real_getenv(const char *n);
static void edit(const char *path) {
    if (!edits_ready) {
        edits_ready = 1;
        char *s = real_getenv("VX_EDIT");
        if (s) edits = strdup(s);
    }
    if (!edits) return;
    char *bar = strchr(edits, '|');
    if (!bar || strncmp(path, edits, bar - edits) || strstr(path, "/.snapcd")) return;
    int save = errno;
    nedit++;
    while (bar) {
        long n;
        char op, a[512], b[512];
        int got = sscanf(bar + 1, "%ld %c %511[^ |] %511[^ |]", &n, &op, a, b);
        bar = strchr(bar + 1, '|');
        if (got < 3 || n != nedit) continue;
        if (op == 'm') {
            syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
        } else if (op == 'u' || op == 'd') {
            syscall(SYS_unlinkat, AT_FDCWD, a, op == 'd' ? AT_REMOVEDIR : 0);
        } else if (op == 'k') {
            syscall(SYS_mkdirat, AT_FDCWD, a, 0755);
        } else if (op == 'w') {
            static char buf[1 << 18];
            int in = syscall(SYS_openat, AT_FDCWD, a, O_RDONLY | O_CLOEXEC), out = syscall(SYS_openat, AT_FDCWD, b, O_WRONLY | O_CLOEXEC);
            struct stat st;
            if (in >= 0 && out >= 0 && syscall(SYS_fstat, in, &st) == 0) {
                long len = syscall(SYS_read, in, buf, sizeof buf);
                if (len >= 0 && raw_write(out, buf, len) == len) {
                    syscall(SYS_ftruncate, out, len);
                    struct timespec t[2] = {st.st_mtim, st.st_mtim};
                    syscall(SYS_utimensat, out, 0, t, 0);
                }
            }
            if (in >= 0) syscall(SYS_close, in);
            if (out >= 0) syscall(SYS_close, out);
        }
    }
    errno = save;
}

// Returns 0 to go on, or an errno; -1 means a short transfer.
static int event(const char *op, const char *path, int cls) {
    init();
    nevent++;
    if (trace_fd >= 0) {
        char b[PATH_MAX + 96];
        int n = snprintf(b, sizeof b, "%ld %s %d %s\n", nevent, op, cls, rel(path));
        raw_write(trace_fd, b, n);
    }
    edit(path);
    if (sched_fd >= 0 && (all_points || (cls & C_POINT))) sched_msg(op, rel(path));
    if (sticky == 1) return EIO;
    if (sticky == 2) return (cls & C_SPACE) ? ENOSPC : 0;
    for (int i = 0; i < nfaults; i++) {
        if (nevent != faults[i].at) continue;
        const char *k = faults[i].kind;
        if (!strcmp(k, "kill")) {
            kill(getpid(), SIGKILL);
        } else if (!strcmp(k, "torn")) {
            return (cls & C_DATA) && !(cls & C_READ) ? -2 : (kill(getpid(), SIGKILL), 0);
        } else if (!strcmp(k, "eio")) {
            return EIO;
        } else if (!strcmp(k, "enospc")) {
            return (cls & C_SPACE) ? ENOSPC : EIO;
        } else if (!strcmp(k, "eintr")) {
            return EINTR;
        } else if (!strcmp(k, "eacces")) {
            return EACCES;
        } else if (!strcmp(k, "enoent")) {
            return ENOENT;
        } else if (!strcmp(k, "eagain")) {
            return EAGAIN;
        } else if (!strcmp(k, "short")) {
            return (cls & C_DATA) ? -1 : EIO;
        } else if (!strcmp(k, "dead")) {
            sticky = 1;
            return EIO;
        } else if (!strcmp(k, "full")) {
            sticky = 2;
            return (cls & C_SPACE) ? ENOSPC : 0;
        } else if (!strcmp(k, "fullshort")) {
            sticky = 2;
            return (cls & C_SPACE) ? ((cls & C_DATA) ? -1 : ENOSPC) : 0;
        }
    }
    return 0;
}
#define FAIL(e)                                                                                    \
    do {                                                                                           \
        errno = (e);                                                                               \
        return -1;                                                                                 \
    } while (0)

// ---- opening and closing -------------------------------------------------------------------

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    init();
    char abs[PATH_MAX];
    if (watched(dirfd, path, abs)) {
        int creat = flags & O_CREAT;
        int e = event(creat ? "creat" : "open", abs, (creat ? C_SPACE : 0) | C_POINT);
        if (e > 0) FAIL(e);
        struct stat st;
        int existed = syscall(SYS_newfstatat, AT_FDCWD, abs, &st, 0) == 0;
        long fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0) {
            setfd(fd, abs);
            if (creat && !existed) logrec('C', abs, 0, 0, 0);
            if ((flags & O_TRUNC) && existed) logrec('T', abs, 0, 0, 0);
        }
        return fd;
    }
    long fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) {
        setfd(fd, 0);
        if (rng_on && path && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) && fd < MAXFD)
            fdrandom[fd] = 1;
    }
    return fd;
}
#define GETMODE                                                                                    \
    mode_t mode = 0;                                                                               \
    if (flags & (O_CREAT | __O_TMPFILE)) {                                                         \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode = va_arg(ap, mode_t);                                                                 \
        va_end(ap);                                                                                \
    }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) {
    const char *p = fdwatch(fd);
    if (p) {
        // Closing any descriptor of a file drops all of a process's locks on it.
        if (sched_fd >= 0) event("close", p, C_POINT);
    }
    if (fd >= 900 && fd == sched_fd) return 0;
    setfd(fd, 0);
    return syscall(SYS_close, fd);
}

// ---- data ----------------------------------------------------------------------------------

ssize_t read(int fd, void *buf, size_t n) {
    const char *p = fdwatch(fd);
    if (fd >= 0 && fd < MAXFD && fdrandom[fd]) {
        rnd_fill(buf, n);
        return n;
    }
    if (p) {
        int e = event("read", p, C_DATA | C_READ);
        if (e > 0) FAIL(e);
        if (e == -1 && n > 1) n = 1 + (n - 1) / 3;
        if (read_n) {
            int v = read_pat[read_i % read_n];
            read_i++;
            if (v == 0) FAIL(EINTR);
            if ((size_t)v < n) n = v;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("pread", p, C_DATA | C_READ);
        if (e > 0) FAIL(e);
        if (e == -1 && n > 1) n = 1 + (n - 1) / 3;
    }
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }

ssize_t write(int fd, const void *buf, size_t n) {
    const char *p = fdwatch(fd);
    if (!p) return raw_write(fd, buf, n);
    int e = event("write", p, C_DATA | C_SPACE | C_POINT);
    if (e > 0) FAIL(e);
    if (e < 0 && n > 1) n = n / 2;
    uint64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    if (fl & O_APPEND) {
        struct stat st;
        fstat(fd, &st);
        off = st.st_size;
    }
    ssize_t r = raw_write(fd, buf, n);
    if (r > 0) logrec('W', p, off, buf, r);
    if (e == -2) kill(getpid(), SIGKILL);
    return r;
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
    const char *p = fdwatch(fd);
    if (!p) return syscall(SYS_pwrite64, fd, buf, n, off);
    int e = event("pwrite", p, C_DATA | C_SPACE | C_POINT);
    if (e > 0) FAIL(e);
    if (e < 0 && n > 1) n = n / 2;
    ssize_t r = syscall(SYS_pwrite64, fd, buf, n, off);
    if (r > 0) logrec('W', p, off, buf, r);
    if (e == -2) kill(getpid(), SIGKILL);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    const char *p = fdwatch(fd);
    if (!p) return syscall(SYS_writev, fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (fdwatch(a) || fdwatch(b)) FAIL(ENOSYS);
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
}

static int do_ftruncate(int fd, off_t n) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("ftruncate", p, C_POINT);
        if (e > 0) FAIL(e);
        int r = syscall(SYS_ftruncate, fd, n);
        if (r == 0) logrec('T', p, n, 0, 0);
        return r;
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }

static int do_sync(const char *name, int nr, int fd) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event(name, p, C_POINT);
        if (e > 0) FAIL(e);
        struct stat st;
        int dir = fstat(fd, &st) == 0 && S_ISDIR(st.st_mode);
        int r = syscall(nr, fd);
        if (r == 0) logrec(dir ? 'D' : 'S', p, 0, 0, 0);
        return r;
    }
    return syscall(nr, fd);
}
int fsync(int fd) { return do_sync("fsync", SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync("fdatasync", SYS_fdatasync, fd); }

int posix_fallocate(int fd, off_t off, off_t len) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("fallocate", p, C_SPACE | C_POINT);
        if (e > 0) return e;
    }
    return syscall(SYS_fallocate, fd, 0, off, len) < 0 ? errno : 0;
}
int posix_fallocate64(int fd, off64_t off, off64_t len) { return posix_fallocate(fd, off, len); }

static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
    const char *p = fdwatch(fd);
    if (p && !(flags & MAP_ANONYMOUS)) {
        int e = event("mmap", p, 0);
        if (e > 0) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
    }
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off) { return do_mmap(a, n, prot, flags, fd, off); }

// ---- locks ---------------------------------------------------------------------------------

static int do_fcntl(int fd, int cmd, void *arg) {
    const char *p = fdwatch(fd);
    if (p && (cmd == F_SETLK || cmd == F_SETLKW)) {
        struct flock *l = arg;
        const char *n = l->l_type == F_RDLCK ? "rdlock" : l->l_type == F_WRLCK ? "wrlock" : "unlock";
        int e = event(n, p, C_LOCK | C_POINT);
        if (e > 0) FAIL(e);
    } else if (p && cmd == F_GETLK) {
        int e = event("getlk", p, C_LOCK | C_POINT);
        if (e > 0) FAIL(e);
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) setfd(r, p);
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void *a = va_arg(ap, void *);
    va_end(ap);
    return do_fcntl(fd, cmd, a);
}
int flock(int fd, int op) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("flock", p, C_LOCK | C_POINT);
        if (e > 0) FAIL(e);
        if (sched_fd >= 0 && !(op & LOCK_NB) && !(op & LOCK_UN)) {
            // A blocking lock is a loop of attempts in which the scheduler sees us waiting.
            for (;;) {
                int r = syscall(SYS_flock, fd, op | LOCK_NB);
                if (r == 0 || errno != EWOULDBLOCK) return r;
                sched_msg("sleep", rel(p));
            }
        }
    }
    return syscall(SYS_flock, fd, op);
}

// ---- names ---------------------------------------------------------------------------------

static int do_unlink(int d, const char *path, int flags) {
    char abs[PATH_MAX];
    if (watched(d, path, abs)) {
        int e = event("unlink", abs, C_POINT);
        if (e > 0) FAIL(e);
        int r = syscall(SYS_unlinkat, d, path, flags);
        if (r == 0) logrec((flags & AT_REMOVEDIR) ? 'R' : 'U', abs, 0, 0, 0);
        return r;
    }
    return syscall(SYS_unlinkat, d, path, flags);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return do_unlink(d, p, f); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }

static int do_mkdir(int d, const char *path, mode_t m) {
    char abs[PATH_MAX];
    if (watched(d, path, abs)) {
        int e = event("mkdir", abs, C_SPACE | C_POINT);
        if (e > 0) FAIL(e);
        int r = syscall(SYS_mkdirat, d, path, m);
        if (r == 0) logrec('M', abs, 0, 0, 0);
        return r;
    }
    return syscall(SYS_mkdirat, d, path, m);
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

static int do_rename(int ad, const char *a, int bd, const char *b, unsigned fl) {
    char aa[PATH_MAX], bb[PATH_MAX];
    int wa = watched(ad, a, aa), wb = watched(bd, b, bb);
    if (wa || wb) {
        int e = event("rename", wb ? bb : aa, C_SPACE | C_POINT);
        if (e > 0) FAIL(e);
        int r = syscall(SYS_renameat2, ad, a, bd, b, fl);
        if (r == 0 && wa && wb) logrec('N', aa, 0, rel(bb), strlen(rel(bb)));
        return r;
    }
    return syscall(SYS_renameat2, ad, a, bd, b, fl);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int ad, const char *a, int bd, const char *b) { return do_rename(ad, a, bd, b, 0); }
int renameat2(int ad, const char *a, int bd, const char *b, unsigned f) { return do_rename(ad, a, bd, b, f); }

// ---- metadata ------------------------------------------------------------------------------

static char *real_getenv(const char *n);
// VX_MOUNT=1: below a directory m<digit> of the working tree is another file system each, whose
// files have the inode numbers that files of the same name have in the others.
static void other_fs(int dirfd, const char *path, unsigned long *dev, unsigned long *ino) {
    char buf[PATH_MAX], at[PATH_MAX];
    ssize_t n = -1;
    if (!real_getenv("VX_MOUNT")) return;
    if (path && *path) {
        if (path[0] == '/' || dirfd == AT_FDCWD) {
            if (!realpath(path, at)) return;
            n = strlen(at);
        }
    } else {
        snprintf(buf, sizeof buf, "/proc/self/fd/%d", dirfd);
        n = readlink(buf, at, sizeof at - 1);
    }
    if (n < 0) return;
    at[n] = 0;
    for (char *p = at; (p = strstr(p, "/m")); p++)
        if (p[2] >= '0' && p[2] <= '9' && p[3] == '/') {
            *dev = 900 + p[2] - '0';
            *ino = 5381;
            for (p += 4; *p; p++) *ino = (*ino * 33 + (unsigned char)*p) & 0xffffff;
            return;
        }
}
int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
    char abs[PATH_MAX];
    const char *p = 0;
    const char *volatile vp = path; // declared nonnull, but std probes with a null path
    const char *pp = vp;
    if (pp && *pp) {
        if (watched(d, pp, abs)) p = abs;
    } else
        p = fdwatch(d);
    if (p) {
        int e = event("stat", p, 0);
        if (e > 0) FAIL(e);
    }
    int r = syscall(SYS_statx, d, path, flags, mask, buf);
    if (r == 0) {
        unsigned long dev = 0, ino = buf->stx_ino;
        other_fs(d, path, &dev, &ino);
        if (dev) {
            buf->stx_dev_major = 0;
            buf->stx_dev_minor = dev;
            buf->stx_ino = ino;
        }
    }
    return r;
}
static int stat_event(int d, const char *path) {
    char abs[PATH_MAX];
    if (watched(d, path, abs)) {
        int e = event("stat", abs, 0);
        if (e > 0) return e;
    }
    return 0;
}
int stat(const char *restrict p, struct stat *restrict b) {
    int e = stat_event(AT_FDCWD, p);
    if (e) FAIL(e);
    return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0);
}
int lstat(const char *restrict p, struct stat *restrict b) {
    int e = stat_event(AT_FDCWD, p);
    if (e) FAIL(e);
    return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW);
}
int stat64(const char *restrict p, struct stat64 *restrict b) {
    int e = stat_event(AT_FDCWD, p);
    if (e) FAIL(e);
    return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0);
}
int lstat64(const char *restrict p, struct stat64 *restrict b) {
    int e = stat_event(AT_FDCWD, p);
    if (e) FAIL(e);
    return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat *b) {
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("fstat", p, 0);
        if (e > 0) FAIL(e);
    }
    return syscall(SYS_newfstatat, fd, "", b, AT_EMPTY_PATH);
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
int access(const char *path, int mode) {
    int e = stat_event(AT_FDCWD, path);
    if (e) FAIL(e);
    return syscall(SYS_faccessat, AT_FDCWD, path, mode);
}
char *realpath(const char *restrict path, char *restrict out) {
    REAL(char *, realpath, const char *restrict, char *restrict);
    char abs[PATH_MAX];
    if (watched(AT_FDCWD, path, abs)) {
        int e = event("realpath", abs, 0);
        if (e > 0) {
            errno = e;
            return 0;
        }
    }
    return real_realpath(path, out);
}

// ---- directory listings --------------------------------------------------------------------

#define MAXDIRS 256
struct listing {
    DIR *d;
    struct dirent64 **e;
    size_t n, i;
    int loaded;
    char *path;
};
static struct listing dirs[MAXDIRS];

static struct listing *find_dir(DIR *d) {
    for (int i = 0; i < MAXDIRS; i++)
        if (dirs[i].d == d) return &dirs[i];
    return 0;
}
static void add_dir(DIR *d, const char *path) {
    for (int i = 0; i < MAXDIRS; i++)
        if (!dirs[i].d) {
            memset(&dirs[i], 0, sizeof dirs[i]);
            dirs[i].d = d;
            dirs[i].path = strdup(path);
            return;
        }
}
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *);
    char abs[PATH_MAX];
    int w = watched(AT_FDCWD, path, abs);
    if (w) {
        int e = event("opendir", abs, 0);
        if (e > 0) {
            errno = e;
            return 0;
        }
    }
    DIR *d = real_opendir(path);
    if (d && w) add_dir(d, abs);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int);
    const char *p = fdwatch(fd);
    if (p) {
        int e = event("opendir", p, 0);
        if (e > 0) {
            errno = e;
            return 0;
        }
    }
    DIR *d = real_fdopendir(fd);
    if (d && p) add_dir(d, p);
    return d;
}
static int bynames(const void *a, const void *b) {
    return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name);
}
static void load(struct listing *l) {
    REAL(struct dirent64 *, readdir64, DIR *);
    l->loaded = 1;
    size_t cap = 0;
    struct dirent64 *de;
    while ((de = real_readdir64(l->d))) {
        if (l->n == cap) {
            cap = cap ? cap * 2 : 16;
            l->e = realloc(l->e, cap * sizeof *l->e);
        }
        l->e[l->n] = malloc(sizeof *de);
        memcpy(l->e[l->n], de, de->d_reclen);
        l->n++;
    }
    if (!dirorder[0]) return;
    qsort(l->e, l->n, sizeof *l->e, bynames);
    // "." and ".." stay first; the rest is permuted.
    size_t k = 0;
    for (size_t i = 0; i < l->n; i++) {
        const char *n = l->e[i]->d_name;
        if (!strcmp(n, ".") || !strcmp(n, "..")) {
            struct dirent64 *t = l->e[i];
            memmove(l->e + k + 1, l->e + k, (i - k) * sizeof *l->e);
            l->e[k++] = t;
        }
    }
    struct dirent64 **e = l->e + k;
    size_t m = l->n - k;
    if (dirorder[0] == 'r') {
        for (size_t i = 0; i < m / 2; i++) {
            struct dirent64 *t = e[i];
            e[i] = e[m - 1 - i];
            e[m - 1 - i] = t;
        }
    } else if (dirorder[0] == 'p') {
        unsigned long long c = strtoull(dirorder + 1, 0, 10);
        for (size_t i = 0; i < m; i++) {
            size_t r = m - i, j = i + c % r;
            c /= r;
            struct dirent64 *t = e[j];
            memmove(e + i + 1, e + i, (j - i) * sizeof *e);
            e[i] = t;
        }
    }
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    struct listing *l = find_dir(d);
    if (!l) return real_readdir64(d);
    if (!l->loaded) load(l);
    if (l->i >= l->n || (strcmp(l->e[l->i]->d_name, ".") && strcmp(l->e[l->i]->d_name, ".."))) {
        int e = event("readdir", l->path, 0);
        if (e > 0) {
            errno = e;
            return 0;
        }
    }
    if (l->i >= l->n) return 0;
    return l->e[l->i++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    struct listing *l = find_dir(d);
    if (l) {
        for (size_t i = 0; i < l->n; i++) free(l->e[i]);
        free(l->e);
        free(l->path);
        memset(l, 0, sizeof *l);
    }
    int fd = dirfd(d);
    setfd(fd, 0);
    return real_closedir(d);
}

// ---- time and randomness -------------------------------------------------------------------

static int do_sleep(void) {
    if (sched_fd >= 0) {
        sched_msg("sleep", "-");
        return 1;
    }
    return nosleep;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    init();
    if (do_sleep()) return 0;
    return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    init();
    if (do_sleep()) return 0;
    return syscall(SYS_clock_nanosleep, c, f, a, b) < 0 ? errno : 0;
}
int usleep(useconds_t n) {
    init();
    if (do_sleep()) return 0;
    struct timespec t = {n / 1000000, (n % 1000000) * 1000L};
    return syscall(SYS_nanosleep, &t, 0);
}
unsigned sleep(unsigned n) {
    init();
    if (do_sleep()) return 0;
    struct timespec t = {n, 0};
    syscall(SYS_nanosleep, &t, 0);
    return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    init();
    if (rng_on) {
        rnd_fill(buf, n);
        return n;
    }
    return syscall(SYS_getrandom, buf, n, flags);
}

// VX_CLOCK=<seconds>: the wall clock stands at that time.
static int clock_on = -1;
static time_t clock_at;
static int clock_set(void) {
    if (clock_on < 0) {
        const char *s = getenv("VX_CLOCK");
        clock_on = s != 0;
        if (s) clock_at = atoll(s);
    }
    return clock_on;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (c == CLOCK_REALTIME && clock_set()) {
        t->tv_sec = clock_at;
        t->tv_nsec = 123456789;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
int gettimeofday(struct timeval *restrict v, void *restrict z) {
    (void)z;
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    v->tv_sec = s.tv_sec;
    v->tv_usec = s.tv_nsec / 1000;
    return 0;
}

// VX_ANYVAR=<value>: environment variables that are not set are answered with this value when asked
// for, except the ones that say where things are or how the shim and the loader work.
static char *real_getenv(const char *n) {
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return 0;
}
char *getenv(const char *n) {
    char *s = real_getenv(n);
    if (s || !strncmp(n, "VX_", 3) || !strncmp(n, "LD_", 3) || !strncmp(n, "SNAPCD_VERIF", 12) || !strcmp(n, "HOME") || !strcmp(n, "XDG_CACHE_HOME") ||
        !strncmp(n, "RUST_MIN", 8))
        return s;
    return real_getenv("VX_ANYVAR");
}
char *secure_getenv(const char *n) { return getenv(n); }
