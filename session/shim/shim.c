// Preloaded into the example programs: every system call through which a
// session meets the outside world (terminal or pipe, output, entropy, clock,
// signals) is answered by the simulator's plan. Nothing here is random.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#define MAXIN 4096
#define MAXWF 32
#define MAXEV 60000
#define INBUF (1 << 18)
#define OUTBUF (1 << 22)

typedef struct { uint32_t kind, off, len, arg; } In;   // one answer to read(0)
typedef struct { uint32_t nth, kind, arg, sticky; } Wf; // one fault of write(1)
typedef struct { uint32_t kind, off, len, ins; } Ev;

enum { IN_DATA, IN_EINTR, IN_EIO, IN_EOF, IN_WINCH, IN_EAGAIN };
enum { W_SHORT = 1, W_EINTR, W_EIO, W_ENOSPC, W_EPIPE, W_EAGAIN };
enum { EV_OUT, EV_RAW, EV_ERR, EV_READ, EV_EOF, EV_FAULT };

typedef struct {
  uint32_t mode; // 0 pipe, 1 pipe with a dumb terminal, 2 terminal
  uint32_t cols;
  uint64_t ent_seed, hash_seed, clock0, clock_tick;
  uint32_t ent_eintr, ent_short, ent_enosys, ent_hard_after, ent_hard_errno, ent_nodev;
  uint32_t nin, nwf;
  In in[MAXIN];
  Wf wf[MAXWF];
  uint8_t inbuf[INBUF];
  // what happened
  uint32_t nev, nout, in_pos, in_used, raw, writes, over, stopped;
  uint64_t now, raw_hash;
  uint32_t stats[32];
  Ev ev[MAXEV];
  uint8_t out[OUTBUF];
} Shm;
enum { K_READS, K_EINTR, K_EIO, K_EOF, K_WINCH, K_EAGAIN, K_WRITES, K_WSHORT, K_WEINTR, K_WHARD, K_ENT, K_ENT_BYTES,
       K_ENT_EINTR, K_ENT_SHORT, K_ENT_ENOSYS, K_ENT_HARD, K_ENT_DEV, K_HASHSEED, K_CLOCK, K_KILL, K_SPLIT };

static Shm *S;
static uint64_t ent_s, hash_s, fault_s, ent_ok;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long raw6e(long n, long a, long b, long c, long d, long e, long f) {
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void setup(void) {
  if (S) return;
  const char *v = getenv("SESS_FD");
  if (!v) return;
  int fd = atoi(v);
  long p = raw6(SYS_mmap, 0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p < 0 && p > -4096) raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  S = (Shm *)p;
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  ent_s = S->ent_seed;
  hash_s = S->hash_seed;
  fault_s = S->ent_seed ^ 0x5555;
}
__attribute__((constructor)) static void ctor(void) { setup(); }

static void event(uint32_t kind, const void *p, size_t n) {
  if (kind == EV_RAW && p) {
    // what the line editor paints is part of the event log, but never read back
    for (size_t i = 0; i < n; i++) S->raw_hash = (S->raw_hash ^ ((const uint8_t *)p)[i]) * 0x100000001b3ull;
    p = 0;
    n = 0;
  }
  if (S->nev >= MAXEV || S->nout + n > OUTBUF) {
    // more output than any session can have: stop here
    S->over = 1;
    raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
  }
  Ev *last = S->nev ? &S->ev[S->nev - 1] : 0;
  if (last && last->kind == kind && kind <= EV_ERR && last->off + last->len == S->nout && last->ins == S->in_used) {
    last->len += n;
  } else {
    Ev *e = &S->ev[S->nev++];
    e->kind = kind;
    e->off = S->nout;
    e->len = (uint32_t)n;
    e->ins = S->in_used;
  }
  if (n && p) memcpy(S->out + S->nout, p, n);
  S->nout += p ? n : 0;
}

// ---- input
static ssize_t in_read(void *b, size_t n) {
  S->stats[K_READS]++;
  if (n == 0) return 0;
  if (S->in_pos >= S->nin) {
    event(EV_EOF, 0, 0);
    S->stats[K_EOF]++;
    if (++S->stopped > 2000) raw6(SYS_exit_group, 96, 0, 0, 0, 0, 0); // asks for input for ever
    return 0;
  }
  In *i = &S->in[S->in_pos];
  switch (i->kind) {
  case IN_DATA: {
    size_t k = i->len - i->arg;
    if (k > n) { k = n; S->stats[K_SPLIT]++; }
    event(EV_READ, 0, 0);
    memcpy(b, S->inbuf + i->off + i->arg, k);
    i->arg += k;
    S->in_used += k;
    if (i->arg == i->len) S->in_pos++;
    return (ssize_t)k;
  }
  case IN_WINCH:
    S->in_pos++;
    S->stats[K_WINCH]++;
    S->cols = i->arg;
    event(EV_FAULT, 0, 0);
    if (S->mode == 2) raise(SIGWINCH);
    errno = EINTR;
    return -1;
  case IN_EINTR:
    S->in_pos++;
    S->stats[K_EINTR]++;
    event(EV_FAULT, 0, 0);
    errno = EINTR;
    return -1;
  case IN_EOF:
    S->in_pos++;
    S->stats[K_EOF]++;
    event(EV_EOF, 0, 0);
    return 0;
  case IN_EAGAIN:
    S->in_pos++;
    S->stats[K_EAGAIN]++;
    event(EV_FAULT, 0, 0);
    errno = EAGAIN;
    return -1;
  default:
    S->in_pos++;
    S->stats[K_EIO]++;
    event(EV_FAULT, 0, 0);
    errno = EIO;
    return -1;
  }
}

// ---- entropy
static ssize_t ent(void *p, size_t n, int dev) {
  S->stats[K_ENT]++;
  if (dev == 1) S->stats[K_ENT_DEV]++;
  if (dev != 1 && S->ent_enosys) { S->stats[K_ENT_ENOSYS]++; errno = ENOSYS; return -1; }
  if (!n) return 0;
  if (dev == 2) {
    S->stats[K_HASHSEED]++;
    for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)sm(&hash_s);
    return (ssize_t)n;
  }
  if (S->ent_hard_after && ent_ok + 1 >= S->ent_hard_after) {
    S->stats[K_ENT_HARD]++;
    errno = S->ent_hard_errno ? (int)S->ent_hard_errno : EIO;
    return -1;
  }
  if (S->ent_eintr && sm(&fault_s) % 1000 < S->ent_eintr) { S->stats[K_ENT_EINTR]++; errno = EINTR; return -1; }
  if (S->ent_short && n > 1 && sm(&fault_s) % 1000 < S->ent_short) { S->stats[K_ENT_SHORT]++; n = 1 + sm(&fault_s) % (n - 1); }
  ent_ok++;
  S->stats[K_ENT_BYTES] += n;
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(sm(&ent_s) >> 32);
  return (ssize_t)n;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  setup();
  if (!S) return raw6e(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0);
  return ent(p, n, fl & 4 ? 2 : 0);
}
int getentropy(void *p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
  if (S && (n == SYS_gettid || n == SYS_getpid)) return 4242;
  if (n == SYS_read) return read((int)a, (void *)b, (size_t)c);
  if (n == SYS_write) return write((int)a, (const void *)b, (size_t)c);
  return raw6e(n, a, b, c, d, e, f);
}
#define FAKE_URANDOM 90001
#define OPENBODY(name)                                                        \
  int name(const char *path, int flags, ...) {                                \
    int mode = 0;                                                             \
    if (flags & (O_CREAT | O_TMPFILE)) {                                      \
      va_list ap;                                                             \
      va_start(ap, flags);                                                    \
      mode = va_arg(ap, int);                                                 \
      va_end(ap);                                                             \
    }                                                                         \
    if (S && path && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))) { \
      if (S->ent_nodev) { S->stats[K_ENT_HARD]++; errno = ENOENT; return -1; } \
      return FAKE_URANDOM;                                                    \
    }                                                                         \
    if (S && path && !strcmp(path, "/dev/tty")) { errno = ENXIO; return -1; } \
    return (int)raw6e(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);   \
  }
OPENBODY(open)
OPENBODY(open64)
int close(int fd) {
  if (fd == FAKE_URANDOM) return 0;
  if (S && fd >= 0 && fd <= 2) return 0;
  return (int)raw6e(SYS_close, fd, 0, 0, 0, 0, 0);
}
ssize_t read(int fd, void *b, size_t n) {
  if (S && fd == 0) return in_read(b, n);
  if (fd == FAKE_URANDOM) return ent(b, n, 1);
  return raw6e(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (S && fd == 0) {
    for (int i = 0; i < k; i++)
      if (v[i].iov_len) return in_read(v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return raw6e(SYS_readv, fd, (long)v, k, 0, 0, 0);
}

// ---- output
ssize_t write(int fd, const void *b, size_t n) {
  if (!S) return raw6e(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
  if (fd == 2) { event(EV_ERR, b, n); return (ssize_t)n; }
  if (fd != 1) {
    if (fd == 0) { event(EV_ERR, b, n); return (ssize_t)n; }
    return raw6e(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
  }
  S->writes++;
  S->stats[K_WRITES]++;
  for (uint32_t i = 0; i < S->nwf; i++) {
    Wf *w = &S->wf[i];
    if (w->nth == S->writes || (w->sticky && S->writes > w->nth)) {
      if (w->kind == W_SHORT) {
        if (n > w->arg && w->arg > 0) { S->stats[K_WSHORT]++; n = w->arg; }
      } else if (w->kind == W_EINTR) {
        S->stats[K_WEINTR]++;
        errno = EINTR;
        return -1;
      } else {
        S->stats[K_WHARD]++;
        event(EV_FAULT, 0, 0);
        errno = w->kind == W_ENOSPC ? ENOSPC : w->kind == W_EPIPE ? EPIPE : w->kind == W_EAGAIN ? EAGAIN : EIO;
        return -1;
      }
    }
  }
  event(S->raw ? EV_RAW : EV_OUT, b, n);
  return (ssize_t)n;
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!S || fd > 2) return raw6e(SYS_writev, fd, (long)v, k, 0, 0, 0);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

// ---- terminal
int isatty(int fd) {
  if (S && fd <= 2) {
    if (S->mode == 2) return 1;
    errno = ENOTTY;
    return 0;
  }
  struct termios t;
  return raw6e(SYS_ioctl, fd, TCGETS, (long)&t, 0, 0, 0) == 0;
}
static struct termios term = {.c_iflag = ICRNL | IXON, .c_oflag = OPOST | ONLCR, .c_cflag = CS8, .c_lflag = ECHO | ICANON | ISIG | IEXTEN};
int tcgetattr(int fd, struct termios *t) {
  if (!S || fd > 2 || S->mode != 2) { errno = ENOTTY; return -1; }
  *t = term;
  return 0;
}
int tcsetattr(int fd, int how, const struct termios *t) {
  (void)how;
  if (!S || fd > 2 || S->mode != 2) { errno = ENOTTY; return -1; }
  term = *t;
  S->raw = !(t->c_lflag & ICANON);
  return 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *p = va_arg(ap, void *);
  va_end(ap);
  if (S && fd >= 0 && fd <= 2) {
    if (S->mode != 2) { errno = ENOTTY; return -1; }
    if (req == TIOCGWINSZ) {
      struct winsize *w = p;
      memset(w, 0, sizeof *w);
      w->ws_col = (unsigned short)S->cols;
      w->ws_row = 24;
      return 0;
    }
    if (req == TCGETS) return tcgetattr(fd, p);
    errno = ENOTTY;
    return -1;
  }
  return (int)raw6e(SYS_ioctl, fd, (long)req, (long)p, 0, 0, 0);
}
int poll(struct pollfd *p, nfds_t n, int to) {
  if (S) {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      // std asks which of 0..2 are open; a reader asks whether input waits
      if (p[i].fd == FAKE_URANDOM || (p[i].fd == 0 && p[i].events & POLLIN)) { p[i].revents = POLLIN; k++; }
    }
    (void)to;
    return k;
  }
  return (int)raw6e(SYS_poll, (long)p, (long)n, to, 0, 0, 0);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
  if (S && r && FD_ISSET(0, r)) {
    FD_ZERO(r);
    FD_SET(0, r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    return 1;
  }
  return (int)raw6e(SYS_select, n, (long)r, (long)w, (long)e, (long)t, 0);
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *s) {
  (void)s; (void)t;
  return select(n, r, w, e, 0);
}
// the process has a fixed identity
pid_t gettid(void) { return S ? 4242 : (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid(void) { return S ? 4242 : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
// signals to others go nowhere
int kill(pid_t p, int s) {
  if (S) {
    S->stats[K_KILL]++;
    (void)p; (void)s;
    return 0;
  }
  return (int)raw6e(SYS_kill, p, s, 0, 0, 0, 0);
}

// ---- clock
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!S) return (int)raw6e(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  S->stats[K_CLOCK]++;
  S->now += S->clock_tick;
  uint64_t v = S->clock0 + S->now;
  ts->tv_sec = (time_t)(v / 1000000000ull);
  ts->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  (void)rm;
  if (!S) return (int)raw6e(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0);
  S->now += (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  (void)c;
  if (!S) return -(int)raw6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
  uint64_t d = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
  if (fl & TIMER_ABSTIME) { if (d > S->clock0 + S->now) S->now = d - S->clock0; }
  else S->now += d;
  return 0;
}
