// Simulated disk seam: an LD_PRELOAD interposer at the libc boundary.
//
// Every file operation of the code under test whose path lies below the
// scratch root of the current run - made by the Python interpreter, by
// OpenCV or by the repository's C++ code - is announced to the simulator
// through one callback, which decides what happens: proceed, fail with an
// errno, transfer fewer bytes, or kill the simulated process (the callback
// then never returns).  Any operation that would modify something outside
// the root is refused and announced as an escape.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum {
  OP_OPEN_R = 1, OP_OPEN_W, OP_WRITE, OP_READ, OP_CLOSE_W, OP_RENAME, OP_UNLINK,
  OP_MKDIR, OP_RMDIR, OP_SYMLINK, OP_LINK, OP_TRUNC, OP_FSYNC, OP_ESCAPE
};

typedef long (*cb_t)(int op, const char* path, const char* path2, long n,
                     int fd, const void* buf);
static volatile cb_t g_cb;
static char g_root[PATH_MAX];
static size_t g_rootlen;
static char g_allow[8][PATH_MAX];
static int g_nallow;
static volatile int g_on;
static __thread int t_in;
#define MAXFD 4096
// 0: not ours, 1: read, 2: write
static unsigned char g_fd[MAXFD];
static char* g_fdpath[MAXFD];

void simfs_configure(cb_t cb, const char* root) {
  g_cb = cb;
  snprintf(g_root, sizeof g_root, "%s", root);
  g_rootlen = strlen(g_root);
}
void simfs_allow(const char* prefix) {
  if (g_nallow < 8) snprintf(g_allow[g_nallow++], PATH_MAX, "%s", prefix);
}
void simfs_enable(int on) { g_on = on; }
// nesting bypass for the simulator's own file operations on this thread
void simfs_bypass(int d) { t_in += d; }
int simfs_loaded(void) { return 1; }

#define REAL(name)                                              \
  static __typeof__(&name) real;                                \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static const char* absolute(int dirfd, const char* p, char* buf) {
  if (!p) return "";
  if (p[0] == '/') return p;
  char base[PATH_MAX];
  base[0] = 0;
  if (dirfd == AT_FDCWD) {
    if (!getcwd(base, sizeof base)) base[0] = 0;
  } else {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = readlink(l, base, sizeof base - 1);
    base[n > 0 ? n : 0] = 0;
  }
  snprintf(buf, PATH_MAX, "%.2000s/%.2000s", base, p);
  return buf;
}
static int under(const char* p) {
  return g_rootlen && !strncmp(p, g_root, g_rootlen) &&
         (p[g_rootlen] == '/' || !p[g_rootlen]);
}
static int allowed(const char* p) {
  if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/self/", 11)) return 1;
  for (int i = 0; i < g_nallow; i++)
    if (!strncmp(p, g_allow[i], strlen(g_allow[i]))) return 1;
  return 0;
}
static int active(void) { return g_on && !t_in && g_cb; }

// returns the decision; `mut` operations outside the root are escapes
static long ask(int op, int mut, const char* p, const char* p2, long n, int fd,
                const void* buf) {
  int saved = errno;
  long r = 0;
  if (under(p) && (!p2 || op == OP_SYMLINK || under(p2))) {
    r = g_cb(op, p + g_rootlen, p2 ? (under(p2) ? p2 + g_rootlen : p2) : "", n,
             fd, buf);
  } else if (mut && !(allowed(p) && (!p2 || allowed(p2)))) {
    g_cb(OP_ESCAPE, p, p2 ? p2 : "", op, fd, 0);
    r = EPERM;
  }
  if (r <= 0) errno = saved;
  return r;
}

static void track(int fd, int w, const char* p) {
  if (fd < 0 || fd >= MAXFD) return;
  g_fd[fd] = w ? 2 : 1;
  free(g_fdpath[fd]);
  g_fdpath[fd] = strdup(p);
}
static void untrack(int fd) {
  if (fd < 0 || fd >= MAXFD) return;
  g_fd[fd] = 0;
}

static int do_open(int dirfd, const char* path, int flags, mode_t mode,
                   int (*fn)(int, const char*, int, ...)) {
  if (!active()) return fn(dirfd, path, flags, mode);
  char b[PATH_MAX];
  const char* p = absolute(dirfd, path, b);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (flags & O_DIRECTORY) w = 0;
  long r = ask(w ? OP_OPEN_W : OP_OPEN_R, w, p, 0, flags, -1, 0);
  if (r > 0) {
    errno = r;
    return -1;
  }
  int fd = fn(dirfd, path, flags, mode);
  if (fd >= 0) {
    if (under(p) && !(flags & O_DIRECTORY)) track(fd, w, p + g_rootlen);
    else untrack(fd);
  }
  return fd;
}
#define MODE                                      \
  mode_t mode = 0;                                \
  if (flags & (O_CREAT | __O_TMPFILE)) {          \
    va_list ap;                                   \
    va_start(ap, flags);                          \
    mode = va_arg(ap, int);                       \
    va_end(ap);                                   \
  }
int open(const char* path, int flags, ...) {
  MODE REAL(openat);
  return do_open(AT_FDCWD, path, flags, mode, real);
}
int open64(const char* path, int flags, ...) {
  MODE REAL(openat64);
  return do_open(AT_FDCWD, path, flags, mode, real);
}
int openat(int dirfd, const char* path, int flags, ...) {
  MODE REAL(openat);
  return do_open(dirfd, path, flags, mode, real);
}
int openat64(int dirfd, const char* path, int flags, ...) {
  MODE REAL(openat64);
  return do_open(dirfd, path, flags, mode, real);
}
int creat(const char* path, mode_t mode) {
  return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

static FILE* do_fopen(const char* path, const char* m,
                      FILE* (*fn)(const char*, const char*)) {
  if (!active()) return fn(path, m);
  char b[PATH_MAX];
  const char* p = absolute(AT_FDCWD, path, b);
  int w = strpbrk(m, "wa+") != 0;
  long r = ask(w ? OP_OPEN_W : OP_OPEN_R, w, p, 0,
               strchr(m, 'w') ? O_TRUNC : 0, -1, 0);
  if (r > 0) {
    errno = r;
    return 0;
  }
  FILE* f = fn(path, m);
  if (f) {
    if (under(p)) track(fileno(f), w, p + g_rootlen);
    else untrack(fileno(f));
  }
  return f;
}
FILE* fopen(const char* path, const char* m) {
  REAL(fopen);
  return do_fopen(path, m, real);
}
FILE* fopen64(const char* path, const char* m) {
  REAL(fopen64);
  return do_fopen(path, m, real);
}

static int ours_w(int fd) {
  return fd >= 0 && fd < MAXFD && g_fd[fd] == 2 && active();
}
static long ask_fd(int op, int fd, long n, const void* buf) {
  int saved = errno;
  long r = g_cb(op, g_fdpath[fd], "", n, fd, buf);
  if (r <= 0) errno = saved;
  return r;
}
// decision r: 0 proceed; >0 errno; -(2+m): transfer only m bytes
ssize_t write(int fd, const void* buf, size_t n) {
  REAL(write);
  if (!ours_w(fd)) return real(fd, buf, n);
  long r = ask_fd(OP_WRITE, fd, n, buf);
  if (r > 0) {
    errno = r;
    return -1;
  }
  if (r <= -2 && (size_t)(-2 - r) < n) n = -2 - r;
  return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) {
  REAL(pwrite64);
  if (ours_w(fd)) {
    long r = ask_fd(OP_WRITE, fd, n, buf);
    if (r > 0) {
      errno = r;
      return -1;
    }
    if (r <= -2 && (size_t)(-2 - r) < n) n = -2 - r;
  }
  return real(fd, buf, n, off);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(writev);
  if (!ours_w(fd)) return real(fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  char* tmp = malloc(n ? n : 1);
  size_t o = 0;
  for (int i = 0; i < c; i++) {
    memcpy(tmp + o, v[i].iov_base, v[i].iov_len);
    o += v[i].iov_len;
  }
  ssize_t r = write(fd, tmp, n);
  free(tmp);
  return r;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  REAL(fwrite);
  int fd = f ? fileno(f) : -1;
  if (!ours_w(fd)) return real(p, s, n, f);
  long r = ask_fd(OP_WRITE, fd, s * n, p);
  if (r > 0) {
    errno = r;
    return 0;
  }
  return real(p, s, n, f);
}
ssize_t read(int fd, void* buf, size_t n) {
  REAL(read);
  if (fd < 0 || fd >= MAXFD || g_fd[fd] != 1 || !active())
    return real(fd, buf, n);
  long r = ask_fd(OP_READ, fd, n, 0);
  if (r > 0) {
    errno = r;
    return -1;
  }
  return real(fd, buf, n);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) {
  REAL(sendfile64);
  if (ours_w(out)) {
    long r = ask_fd(OP_WRITE, out, n, 0);
    if (r > 0) {
      errno = r;
      return -1;
    }
    if (r <= -2 && (size_t)(-2 - r) < n) n = -2 - r;
  }
  return real(out, in, off, n);
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) {
  return sendfile64(out, in, (off64_t*)off, n);
}
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n,
                        unsigned fl) {
  REAL(copy_file_range);
  if (ours_w(out)) {
    long r = ask_fd(OP_WRITE, out, n, 0);
    if (r > 0) {
      errno = r;
      return -1;
    }
  }
  return real(in, oi, out, oo, n, fl);
}
int fsync(int fd) {
  REAL(fsync);
  if (ours_w(fd)) {
    long r = ask_fd(OP_FSYNC, fd, 0, 0);
    if (r > 0) {
      errno = r;
      return -1;
    }
  }
  return real(fd);
}
int ftruncate64(int fd, off64_t len) {
  REAL(ftruncate64);
  if (ours_w(fd)) {
    long r = ask_fd(OP_TRUNC, fd, len, 0);
    if (r > 0) {
      errno = r;
      return -1;
    }
  }
  return real(fd, len);
}
int close(int fd) {
  REAL(close);
  if (ours_w(fd)) {
    long r = ask_fd(OP_CLOSE_W, fd, 0, 0);
    untrack(fd);
    int x = real(fd);
    if (r > 0) {
      errno = r;
      return -1;
    }
    return x;
  }
  untrack(fd);
  return real(fd);
}
int fclose(FILE* f) {
  REAL(fclose);
  int fd = f ? fileno(f) : -1;
  if (ours_w(fd)) {
    long r = ask_fd(OP_CLOSE_W, fd, 0, 0);
    untrack(fd);
    int x = real(f);
    if (r > 0) {
      errno = r;
      return -1;
    }
    return x;
  }
  untrack(fd);
  return real(f);
}

#define PATH1(op, name, args, call, dirfd, path)      \
  int name args {                                     \
    REAL(name);                                       \
    if (!active()) return real call;                  \
    char b[PATH_MAX];                                 \
    long r = ask(op, 1, absolute(dirfd, path, b), 0, 0, -1, 0); \
    if (r > 0) {                                      \
      errno = r;                                      \
      return -1;                                      \
    }                                                 \
    return real call;                                 \
  }
#define PATH2(op, name, args, call, d1, p1, d2, p2)   \
  int name args {                                     \
    REAL(name);                                       \
    if (!active()) return real call;                  \
    char b[PATH_MAX], c[PATH_MAX];                    \
    long r = ask(op, 1, absolute(d1, p1, b), absolute(d2, p2, c), 0, -1, 0); \
    if (r > 0) {                                      \
      errno = r;                                      \
      return -1;                                      \
    }                                                 \
    return real call;                                 \
  }
PATH1(OP_UNLINK, unlink, (const char* p), (p), AT_FDCWD, p)
PATH1(OP_UNLINK, unlinkat, (int d, const char* p, int f), (d, p, f), d, p)
PATH1(OP_UNLINK, remove, (const char* p), (p), AT_FDCWD, p)
PATH1(OP_MKDIR, mkdir, (const char* p, mode_t m), (p, m), AT_FDCWD, p)
PATH1(OP_MKDIR, mkdirat, (int d, const char* p, mode_t m), (d, p, m), d, p)
PATH1(OP_RMDIR, rmdir, (const char* p), (p), AT_FDCWD, p)
PATH1(OP_TRUNC, truncate64, (const char* p, off64_t l), (p, l), AT_FDCWD, p)
PATH2(OP_RENAME, rename, (const char* p, const char* q), (p, q), AT_FDCWD, p,
      AT_FDCWD, q)
PATH2(OP_RENAME, renameat, (int a, const char* p, int c2, const char* q),
      (a, p, c2, q), a, p, c2, q)
PATH2(OP_LINK, link, (const char* p, const char* q), (p, q), AT_FDCWD, p,
      AT_FDCWD, q)
// for symlinks the new name is the path, the target only text
int symlink(const char* t, const char* p) {
  REAL(symlink);
  if (!active()) return real(t, p);
  char b[PATH_MAX];
  long r = ask(OP_SYMLINK, 1, absolute(AT_FDCWD, p, b), t, 0, -1, 0);
  if (r > 0) {
    errno = r;
    return -1;
  }
  return real(t, p);
}
int symlinkat(const char* t, int d, const char* p) {
  REAL(symlinkat);
  if (!active()) return real(t, d, p);
  char b[PATH_MAX];
  long r = ask(OP_SYMLINK, 1, absolute(d, p, b), t, 0, -1, 0);
  if (r > 0) {
    errno = r;
    return -1;
  }
  return real(t, d, p);
}

// ---- randomness of native code ------------------------------------------
// rand() gets a per-thread stream that restarts whenever native code seeds
// itself (srand, or a std::random_device draw), so what one depthmap draws
// does not depend on which others were computed before in this process.
static unsigned g_seed = 1;
static __thread unsigned long long t_rand;
static __thread int t_rand_on;
void simfs_seed(unsigned s) { g_seed = s; t_rand_on = 0; }
int rand(void) {
  if (!t_rand_on) { t_rand = g_seed * 2654435761ULL + 12345; t_rand_on = 1; }
  t_rand = t_rand * 6364136223846793005ULL + 1442695040888963407ULL;
  return (int)((t_rand >> 33) & 0x7fffffff);
}
void srand(unsigned s) { t_rand = s * 2654435761ULL + 777; t_rand_on = 1; }
unsigned _ZNSt13random_device9_M_getvalEv(void* self) {
  t_rand_on = 0;
  return g_seed * 2246822519U + 3266489917U;
}
