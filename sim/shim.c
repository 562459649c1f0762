/* Seams of the simulator, as an LD_PRELOAD library.
 *
 * Inactive until a process attaches itself (sim_fs_attach, sim_clock_on, ...), and
 * only for that process: children that exec or fork see plain libc behaviour.
 *
 *  - filesystem calls on paths below a scratch root are sent, one at a time, to the
 *    simulator over a socket; the answer says proceed / fail with errno / shorten / die
 *  - clocks, sleeping, getrandom and getpid are simulated
 *  - a numpy allocation handler that poisons fresh memory and fails on demand
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__) = NULL; \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------------ attach */
static int g_sock = -1;
static pid_t g_pid = 0;
static char g_root[PATH_MAX];
static size_t g_rootlen = 0;
static __thread int g_inside = 0;

static pid_t raw_pid(void) { return (pid_t)syscall(SYS_getpid); }

void sim_fs_attach(int sock, const char *root)
{
    strncpy(g_root, root, sizeof g_root - 1);
    g_rootlen = strlen(g_root);
    g_pid = raw_pid();
    g_sock = sock;
}
void sim_fs_detach(void) { g_sock = -1; }
void sim_fs_pause(int on) { g_inside = on; }

static int active(void) { return g_sock >= 0 && !g_inside && g_pid == raw_pid(); }

static int under(const char *p)
{
    return strncmp(p, g_root, g_rootlen) == 0 && (p[g_rootlen] == '/' || p[g_rootlen] == 0);
}

/* lexical absolute path */
static void normalise(const char *in, char *out)
{
    char tmp[PATH_MAX];
    size_t n = 0;
    strncpy(tmp, in, sizeof tmp - 1);
    tmp[sizeof tmp - 1] = 0;
    out[0] = 0;
    char *save = NULL;
    for (char *c = strtok_r(tmp, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) {
            while (n > 0 && out[n - 1] != '/') n--;
            if (n > 0) n--;
            out[n] = 0;
            continue;
        }
        size_t l = strlen(c);
        if (n + l + 2 >= PATH_MAX) break;
        out[n++] = '/';
        memcpy(out + n, c, l);
        n += l;
        out[n] = 0;
    }
    if (n == 0) strcpy(out, "/");
}

static int fd_path(int fd, char *out)
{
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, link, out, PATH_MAX - 1);
    if (n <= 0) return 0;
    out[n] = 0;
    return out[0] == '/';
}

static int at_path(int dirfd, const char *path, char *out)
{
    char buf[2 * PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/') {
        normalise(path, out);
        return 1;
    }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) return 0;
    } else if (!fd_path(dirfd, base))
        return 0;
    snprintf(buf, sizeof buf, "%s/%s", base, path);
    buf[PATH_MAX - 1] = 0;
    normalise(buf, out);
    return 1;
}

/* ---------------------------------------------------------------- protocol */
struct reply {
    int32_t action; /* 0 go, 1 fail(err), 2 at most n bytes, 3 die, 4 n bytes then die */
    int32_t err;
    int64_t n;
};

static void die(void) { syscall(SYS_exit_group, 137); }

static struct reply ask(const char *op, int64_t arg, const char *p1, const char *p2)
{
    struct reply r = {0, 0, 0};
    char msg[3 * PATH_MAX];
    int saved = errno;
    g_inside++;
    int n = snprintf(msg, sizeof msg, "%s\t%lld\t%s\t%s", op, (long long)arg, p1 ? p1 : "", p2 ? p2 : "");
    ssize_t k;
    do k = syscall(SYS_sendto, g_sock, msg, n, MSG_NOSIGNAL, NULL, 0); while (k < 0 && errno == EINTR);
    if (k < 0) die();
    do k = syscall(SYS_recvfrom, g_sock, &r, sizeof r, 0, NULL, NULL); while (k < 0 && errno == EINTR);
    if (k != sizeof r) die();
    g_inside--;
    if (r.action == 3) die();
    errno = saved;
    return r;
}

void sim_fs_mark(const char *text) { if (active()) ask("mark", 0, text, NULL); }

/* ops on one path */
#define ASK_PATH(op, arg, dirfd, path, failret) \
    if (active()) { \
        char ab[PATH_MAX]; \
        if (at_path(dirfd, path, ab) && under(ab)) { \
            struct reply r = ask(op, arg, ab, NULL); \
            if (r.action == 1) { errno = r.err; return failret; } \
        } \
    }

#define ASK_FD(op, arg, fd, failret) \
    if (active()) { \
        char ab[PATH_MAX]; \
        if (fd_path(fd, ab) && under(ab)) { \
            struct reply r = ask(op, arg, ab, NULL); \
            if (r.action == 1) { errno = r.err; return failret; } \
        } \
    }

static int open_common(int dirfd, const char *path, int flags, mode_t mode)
{
    if (active()) {
        char ab[PATH_MAX];
        if (at_path(dirfd, path, ab) && under(ab)) {
            const char *op = (flags & O_DIRECTORY) ? "opend"
                : ((flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY) ? "openw" : "openr";
            struct reply r = ask(op, flags, ab, NULL);
            if (r.action == 1) { errno = r.err; return -1; }
        }
    }
    return (int)syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
}
#define OPEN_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { OPEN_MODE return open_common(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_MODE return open_common(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { OPEN_MODE return open_common(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPEN_MODE return open_common(d, path, flags, mode); }
int __open64_2(const char *path, int flags) { return open_common(AT_FDCWD, path, flags, 0); }
int __open_2(const char *path, int flags) { return open_common(AT_FDCWD, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return open_common(d, path, flags, 0); }
int __openat_2(int d, const char *path, int flags) { return open_common(d, path, flags, 0); }
int creat(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* returns bytes allowed, or -1 with errno; *torn set if the process must die after */
static ssize_t ask_write(int fd, size_t count, int *torn)
{
    *torn = 0;
    if (active()) {
        char ab[PATH_MAX];
        if (fd_path(fd, ab) && under(ab)) {
            struct reply r = ask("write", (int64_t)count, ab, NULL);
            if (r.action == 1) { errno = r.err; return -1; }
            if (r.action == 2 || r.action == 4) {
                *torn = r.action == 4;
                return r.n < (int64_t)count ? (ssize_t)r.n : (ssize_t)count;
            }
        }
    }
    return (ssize_t)count;
}
ssize_t write(int fd, const void *buf, size_t count)
{
    int torn;
    ssize_t n = ask_write(fd, count, &torn);
    if (n < 0) return -1;
    ssize_t k = syscall(SYS_write, fd, buf, n);
    if (torn) die();
    return k;
}
static ssize_t pwrite_common(int fd, const void *buf, size_t count, off_t off)
{
    int torn;
    ssize_t n = ask_write(fd, count, &torn);
    if (n < 0) return -1;
    ssize_t k = syscall(SYS_pwrite64, fd, buf, n, off);
    if (torn) die();
    return k;
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) { return pwrite_common(fd, b, c, o); }
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) { return pwrite_common(fd, b, c, o); }
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (active() && cnt > 0) return write(fd, iov[0].iov_base, iov[0].iov_len);
    return syscall(SYS_writev, fd, iov, cnt);
}
size_t fwrite(const void *p, size_t size, size_t n, FILE *f)
{
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    if (active() && size && n) {
        char ab[PATH_MAX];
        int fd = fileno(f);
        if (fd >= 0 && fd_path(fd, ab) && under(ab)) {
            fflush(f);
            size_t done = 0;
            while (done < size * n) {
                ssize_t k = write(fd, (const char *)p + done, size * n - done);
                if (k < 0) break;
                done += k;
            }
            return done / size;
        }
    }
    return real(p, size, n, f);
}
static ssize_t ask_read(int fd, size_t count)
{
    if (active()) {
        char ab[PATH_MAX];
        if (fd_path(fd, ab) && under(ab)) {
            struct reply r = ask("read", (int64_t)count, ab, NULL);
            if (r.action == 1) { errno = r.err; return -1; }
            if (r.action == 2) return r.n < (int64_t)count ? (ssize_t)r.n : (ssize_t)count;
        }
    }
    return (ssize_t)count;
}
ssize_t read(int fd, void *buf, size_t count)
{
    ssize_t n = ask_read(fd, count);
    if (n < 0) return -1;
    return syscall(SYS_read, fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t count, off64_t off)
{
    ssize_t n = ask_read(fd, count);
    if (n < 0) return -1;
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t count, off_t off) { return pread64(fd, buf, count, off); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t len, unsigned fl)
{
    int torn;
    ssize_t n = ask_write(out, len, &torn);
    if (n < 0) return -1;
    ssize_t k = syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    if (torn) die();
    return k;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t len)
{
    int torn;
    ssize_t n = ask_write(out, len, &torn);
    if (n < 0) return -1;
    ssize_t k = syscall(SYS_sendfile, out, in, o, n);
    if (torn) die();
    return k;
}
ssize_t sendfile(int out, int in, off_t *o, size_t len) { return sendfile64(out, in, (off64_t *)o, len); }

int close(int fd)
{
    int err = 0;
    if (active() && fd != g_sock) {
        char ab[PATH_MAX];
        if (fd_path(fd, ab) && under(ab)) {
            struct stat st;
            int isdir = syscall(SYS_fstat, fd, &st) == 0 && S_ISDIR(st.st_mode);
            int fl = (int)syscall(SYS_fcntl, fd, F_GETFL, 0);
            struct reply r = ask(isdir ? "closed" : (fl & O_ACCMODE) == O_RDONLY ? "closer" : "closew", 0, ab, NULL);
            if (r.action == 1) err = r.err;
        }
    }
    int k = (int)syscall(SYS_close, fd);
    if (err) { errno = err; return -1; }
    return k;
}
int fsync(int fd) { ASK_FD("fsync", 0, fd, -1) return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { ASK_FD("fsync", 0, fd, -1) return (int)syscall(SYS_fdatasync, fd); }
void sync(void)
{
    if (active()) ask("sync", 0, g_root, NULL);
    syscall(SYS_sync);
}
int syncfs(int fd)
{
    if (active()) ask("sync", 0, g_root, NULL);
    return (int)syscall(SYS_syncfs, fd);
}
int ftruncate64(int fd, off64_t n) { ASK_FD("ftruncate", n, fd, -1) return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) { ASK_PATH("truncate", n, AT_FDCWD, p, -1) return (int)syscall(SYS_truncate, p, n); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }

static int rename_common(int d1, const char *a, int d2, const char *b, unsigned fl)
{
    if (active()) {
        char pa[PATH_MAX], pb[PATH_MAX];
        if (at_path(d1, a, pa) && at_path(d2, b, pb) && (under(pa) || under(pb))) {
            struct reply r = ask("rename", fl, pa, pb);
            if (r.action == 1) { errno = r.err; return -1; }
        }
    }
    return (int)syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return rename_common(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return rename_common(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return rename_common(d1, a, d2, b, fl); }
static int link_common(int d1, const char *a, int d2, const char *b, int fl)
{
    if (active()) {
        char pa[PATH_MAX], pb[PATH_MAX];
        if (at_path(d1, a, pa) && at_path(d2, b, pb) && (under(pa) || under(pb))) {
            struct reply r = ask("link", fl, pa, pb);
            if (r.action == 1) { errno = r.err; return -1; }
        }
    }
    return (int)syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return link_common(AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) { return link_common(d1, a, d2, b, fl); }
int symlink(const char *a, const char *b) { ASK_PATH("symlink", 0, AT_FDCWD, b, -1) return (int)syscall(SYS_symlink, a, b); }
int symlinkat(const char *a, int d, const char *b) { ASK_PATH("symlink", 0, d, b, -1) return (int)syscall(SYS_symlinkat, a, d, b); }
int mkdir(const char *p, mode_t m) { ASK_PATH("mkdir", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { ASK_PATH("mkdir", 0, d, p, -1) return (int)syscall(SYS_mkdirat, d, p, m); }
int rmdir(const char *p) { ASK_PATH("rmdir", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_rmdir, p); }
int unlink(const char *p) { ASK_PATH("unlink", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_unlink, p); }
int remove(const char *p)
{
    struct stat st;
    if (syscall(SYS_lstat, p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p);
    return unlink(p);
}
int unlinkat(int d, const char *p, int fl) { ASK_PATH(fl & AT_REMOVEDIR ? "rmdir" : "unlink", 0, d, p, -1) return (int)syscall(SYS_unlinkat, d, p, fl); }
int chmod(const char *p, mode_t m) { ASK_PATH("chmod", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_chmod, p, m); }
int stat64(const char *p, struct stat64 *st) { ASK_PATH("stat", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat64(const char *p, struct stat64 *st) { ASK_PATH("stat", 0, AT_FDCWD, p, -1) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { ASK_PATH("stat", 0, d, p, -1) return (int)syscall(SYS_newfstatat, d, p, st, fl); }
int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
int access(const char *p, int m) { ASK_PATH("stat", m, AT_FDCWD, p, -1) return (int)syscall(SYS_access, p, m); }
int faccessat(int d, const char *p, int m, int fl)
{
    REAL(int, faccessat, int, const char *, int, int);
    ASK_PATH("stat", m, d, p, -1)
    return real(d, p, m, fl);
}
DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    ASK_PATH("opendir", 0, AT_FDCWD, p, NULL)
    g_inside++;
    DIR *r = real(p);
    g_inside--;
    return r;
}
DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    ASK_FD("opendir", 0, fd, NULL)
    return real(fd);
}

/* ------------------------------------------------------------------- clock */
static int g_clock = 0;
static pid_t g_clock_pid = 0;
static uint64_t g_clock_rng = 1;
static int64_t g_mono = 0, g_off = 0, g_step_min = 1000, g_step_max = 1000, g_res = 1;
static int64_t g_calls = 0, g_njumps = 0, g_jumped = 0, g_slept = 0, g_backward = 0, g_forward = 0;
static int64_t g_jump_at[256], g_jump_by[256];

static uint64_t splitmix(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void sim_clock_on(uint64_t seed, int64_t mono, int64_t real, int64_t smin, int64_t smax, int64_t res)
{
    g_clock_rng = seed;
    g_mono = mono;
    g_off = real - mono;
    g_step_min = smin;
    g_step_max = smax < smin ? smin : smax;
    g_res = res < 1 ? 1 : res;
    g_calls = g_njumps = g_jumped = g_slept = g_backward = g_forward = 0;
    g_clock_pid = raw_pid();
    g_clock = 1;
}
void sim_clock_off(void) { g_clock = 0; }
void sim_clock_jump_at(int64_t call, int64_t by)
{
    if (g_njumps < 256) { g_jump_at[g_njumps] = call; g_jump_by[g_njumps++] = by; }
}
void sim_clock_advance(int64_t ns) { g_mono += ns; }
void sim_clock_jump(int64_t ns) { g_off += ns; g_jumped++; if (ns < 0) g_backward++; else g_forward++; }
int64_t sim_clock_mono(void) { return g_mono; }
int64_t sim_clock_calls(void) { return g_calls; }
int64_t sim_clock_jumped(void) { return g_jumped; }
int64_t sim_clock_backward(void) { return g_backward; }
static int clock_active(void) { return g_clock && g_clock_pid == raw_pid(); }
static void tick(void)
{
    g_calls++;
    g_mono += g_step_min + (int64_t)(splitmix(&g_clock_rng) % (uint64_t)(g_step_max - g_step_min + 1));
    for (int i = 0; i < g_njumps; i++)
        if (g_jump_at[i] == g_calls) sim_clock_jump(g_jump_by[i]);
}
static int64_t read_clock(clockid_t id)
{
    tick();
    int64_t v;
    switch (id) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: v = g_mono + g_off; break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = g_mono / 3; break;
    default: v = g_mono;
    }
    return v / g_res * g_res;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (clock_active()) {
        int64_t v = read_clock(id);
        ts->tv_sec = v / 1000000000;
        ts->tv_nsec = v % 1000000000;
        if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem)
{
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
    if (clock_active()) {
        int64_t ns = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
        if (flags & TIMER_ABSTIME) ns -= id == CLOCK_REALTIME ? g_mono + g_off : g_mono;
        if (ns > 0) { g_mono += ns; g_slept += ns; }
        return 0;
    }
    return real(id, flags, req, rem);
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    return clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
}

/* --------------------------------------------------- randomness, process id */
static int g_rand = 0, g_simpid = 0;
static pid_t g_rand_pid = 0;
static uint64_t g_rand_state = 0;
void sim_entropy_on(uint64_t seed, int pid)
{
    g_rand_state = seed;
    g_simpid = pid;
    g_rand_pid = raw_pid();
    g_rand = 1;
}
void sim_entropy_off(void) { g_rand = 0; }
ssize_t getrandom(void *buf, size_t n, unsigned fl)
{
    if (g_rand && g_rand_pid == raw_pid()) {
        for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(splitmix(&g_rand_state) >> 17);
        return (ssize_t)n;
    }
    return syscall(SYS_getrandom, buf, n, fl);
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid(void)
{
    pid_t p = raw_pid();
    if (g_rand && g_simpid && p == g_rand_pid) return g_simpid;
    return p;
}

/* ------------------------------------------------------- numpy data memory */
static int g_poison = -1; /* -1 none, 0..255 byte, 256 pseudo-random, 257 random small floats */
static uint64_t g_poison_rng = 1;
static int64_t g_allocs = 0, g_fail_at = -1, g_fail_len = 1, g_failed = 0, g_poisoned = 0;
void sim_alloc_poison(int mode, uint64_t seed) { g_poison = mode; g_poison_rng = seed; }
void sim_alloc_fail(int64_t in_n, int64_t len) { g_fail_at = in_n < 0 ? -1 : g_allocs + in_n; g_fail_len = len; }
int64_t sim_alloc_count(void) { return g_allocs; }
int64_t sim_alloc_failed(void) { return g_failed; }
int64_t sim_alloc_poisoned(void) { return g_poisoned; }
static void fill(void *p, size_t n)
{
    if (!p || g_poison < 0) return;
    g_poisoned++;
    if (g_poison < 256) { memset(p, g_poison, n); return; }
    if (g_poison == 257) {
        size_t i = 0;
        for (; i + 8 <= n; i += 8) {
            double d = 1.0 + (double)(splitmix(&g_poison_rng) % 1000) / 250.0;
            memcpy((char *)p + i, &d, 8);
        }
        for (; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)splitmix(&g_poison_rng);
        return;
    }
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(splitmix(&g_poison_rng) >> 23);
}
static int refuse(void)
{
    g_allocs++;
    if (g_fail_at >= 0 && g_allocs >= g_fail_at && g_allocs < g_fail_at + g_fail_len) { g_failed++; return 1; }
    return 0;
}
static void *h_malloc(void *ctx, size_t n) { (void)ctx; if (refuse()) return NULL; void *p = malloc(n ? n : 1); fill(p, n); return p; }
static void *h_calloc(void *ctx, size_t a, size_t b) { (void)ctx; if (refuse()) return NULL; return calloc(a ? a : 1, b ? b : 1); }
static void *h_realloc(void *ctx, void *p, size_t n) { (void)ctx; if (refuse()) return NULL; return realloc(p, n ? n : 1); }
static void h_free(void *ctx, void *p, size_t n)
{
    (void)ctx;
    if (p && g_poison >= 0) fill(p, n); /* use after free reads garbage as well */
    free(p);
}
typedef struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } Alloc;
typedef struct { char name[127]; uint8_t version; Alloc a; } Handler;
static Handler g_handler = {"simulator", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};
void *sim_alloc_handler(void) { return &g_handler; }
