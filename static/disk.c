// Preloaded into the build script: faults at its file-system calls below OUT_DIR.
// POKER_SIM_DISK: comma-separated "N:KIND[:ARG]" for the N-th such call (from 1).
//   fail:ERRNO  the call fails       short:K  a write takes only K bytes
//   kill        the process dies before the call
//   killafter   ... after it         killmid:K  ... after K bytes of a write
// Calls are logged to POKER_SIM_DISKLOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char ours[1024];
static long calls;
static int logfd = -1;
static const char *out, *plan;
static int ready;
static void init(void) {
    if (ready) return;
    ready = 1;
    out = getenv("OUT_DIR");
    plan = getenv("POKER_SIM_DISK");
    const char *l = getenv("POKER_SIM_DISKLOG");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static int below(const char *p) {
    init();
    return out && p && !strncmp(p, out, strlen(out));
}
static int is_ours(int fd) { return fd >= 0 && fd < 1024 && ours[fd]; }
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) ; }
static void note(const char *what, long r) {
    char b[160];
    int n = snprintf(b, sizeof b, "%ld %s %ld\n", calls, what, r);
    if (logfd >= 0) syscall(SYS_write, logfd, b, n);
}
static char kind[32];
static long arg;
static void fault(void) {
    init();
    calls++;
    kind[0] = 0;
    arg = 0;
    const char *s = plan;
    while (s && *s) {
        char *e;
        long n = strtol(s, &e, 10);
        if (*e != ':') return;
        s = e + 1;
        size_t k = strcspn(s, ":,");
        if (n == calls && k < sizeof kind) {
            memcpy(kind, s, k);
            kind[k] = 0;
            if (s[k] == ':') arg = strtol(s + k + 1, 0, 10);
            return;
        }
        s += strcspn(s, ",");
        if (*s) s++;
    }
}
static int is(const char *k) { return !strcmp(kind, k); }
// renaming, removing and closing are never interrupted
#define CAN_INTR(name) (name[0] == 'o' || name[0] == 'w' || name[0] == 'f')
#define BEFORE(name, bad) \
    fault(); \
    if (is("kill")) { note(name " killed before", 0); die(); } \
    if (is("fail") && (arg != EINTR || CAN_INTR(name))) { note(name " failed", arg); errno = arg; return bad; }
#define AFTER(name, r) \
    note(name, r); \
    if (is("killafter")) { note(name " killed after", 0); die(); }

static int do_open(int dir, const char *p, int flags, mode_t m) {
    if (!below(p)) return syscall(SYS_openat, dir, p, flags, m);
    BEFORE("open", -1)
    int r = syscall(SYS_openat, dir, p, flags, m);
    if (r >= 0 && r < 1024) ours[r] = (flags & O_ACCMODE) != O_RDONLY;
    AFTER("open", r)
    return r;
}
#define OPEN(name) \
    int name(const char *p, int flags, ...) { \
        va_list a; va_start(a, flags); mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); \
        return do_open(AT_FDCWD, p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) \
    int name(int d, const char *p, int flags, ...) { \
        va_list a; va_start(a, flags); mode_t m = flags & (O_CREAT | O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); \
        return do_open(d, p, flags, m); }
OPENAT(openat) OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    if (!is_ours(fd)) return syscall(SYS_write, fd, b, n);
    BEFORE("write", -1)
    if (is("killmid")) { syscall(SYS_write, fd, b, (size_t)arg < n ? (size_t)arg : n); note("write killed midway", arg); die(); }
    if (is("short") && (size_t)arg < n) n = arg;
    ssize_t r = syscall(SYS_write, fd, b, n);
    AFTER("write", r)
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (!is_ours(fd)) return syscall(SYS_writev, fd, v, k);
    return k > 0 ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
int close(int fd) {
    if (!is_ours(fd)) return syscall(SYS_close, fd);
    ours[fd] = 0;
    BEFORE("close", (syscall(SYS_close, fd), -1))
    int r = syscall(SYS_close, fd);
    AFTER("close", r)
    return r;
}
int fsync(int fd) {
    if (!is_ours(fd)) return syscall(SYS_fsync, fd);
    BEFORE("fsync", -1)
    AFTER("fsync", 0)
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int rename(const char *a, const char *b) {
    if (!below(b)) return syscall(SYS_rename, a, b);
    BEFORE("rename", -1)
    int r = syscall(SYS_rename, a, b);
    AFTER("rename", r)
    return r;
}
int unlink(const char *p) {
    if (!below(p)) return syscall(SYS_unlink, p);
    BEFORE("unlink", -1)
    int r = syscall(SYS_unlink, p);
    AFTER("unlink", r)
    return r;
}
