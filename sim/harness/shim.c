// The libc seam.  Every function a guest (a private copy of a program under
// test) can use to reach the world is defined here; the dynamic linker resolves
// the guests' references to these definitions because the executable comes
// first in symbol search order.  While `sim_in_guest` is set the call goes to
// the simulated kernel (k_* in sys.rs); otherwise (the harness itself) it goes
// to the real libc.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <pthread.h>
#include <ucontext.h>

#undef stat
#undef lstat
#undef fstat

volatile int sim_in_guest = 0;

typedef long L;

// ---- memory: what each session holds, and the most it ever held ----
#include <malloc.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int sim_cur;
long sim_mem[64], sim_peak[64];
static inline void count_mem(void *p, L sign) {
  if (!sim_in_guest || !p) return;
  L m = sim_mem[sim_cur] += sign * (L)malloc_usable_size(p);
  if (m > sim_peak[sim_cur]) sim_peak[sim_cur] = m;
}
void *malloc(size_t n) { void *p = __libc_malloc(n); count_mem(p, 1); return p; }
void *calloc(size_t a, size_t n) { void *p = __libc_calloc(a, n); count_mem(p, 1); return p; }
void free(void *p) { count_mem(p, -1); __libc_free(p); }
void *realloc(void *p, size_t n) {
  if (!sim_in_guest) return __libc_realloc(p, n);
  L old = p ? (L)malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q) { sim_mem[sim_cur] -= old; count_mem(q, 1); } else if (!n) sim_mem[sim_cur] -= old;
  return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); count_mem(p, 1); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); count_mem(p, 1); return p; }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; count_mem(p, 1); *r = p; return 0; }

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })
#define ENTER (sim_in_guest = 0)
#define LEAVE (sim_in_guest = 1)
static inline L done(L r) { LEAVE; if (r < 0) { errno = (int)-r; return -1; } return r; }

L k_open(int dirfd, const char *p, int flags, unsigned mode);
L k_read(int fd, void *b, size_t n);
L k_write(int fd, const void *b, size_t n);
L k_pread(int fd, void *b, size_t n, L off);
L k_pwrite(int fd, const void *b, size_t n, L off);
L k_lseek(int fd, L off, int wh);
L k_close(int fd);
// flags: AT_SYMLINK_NOFOLLOW, AT_EMPTY_PATH
L k_stat(int dirfd, const char *p, int flags, struct stat *st);
L k_access(int dirfd, const char *p, int mode);
L k_mkdir(int dirfd, const char *p, unsigned mode);
L k_unlink(int dirfd, const char *p, int flags);
L k_rename(int od, const char *o, int nd, const char *n, unsigned flags);
L k_link(int od, const char *o, int nd, const char *n, int flags);
L k_symlink(const char *t, int nd, const char *n);
L k_readlink(int d, const char *p, char *b, size_t n);
L k_chmod(int d, const char *p, unsigned mode, int flags);
L k_fchmod(int fd, unsigned mode);
L k_chown(int d, const char *p, unsigned u, unsigned g, int flags);
L k_fchown(int fd, unsigned u, unsigned g);
L k_truncate(const char *p, L n);
L k_ftruncate(int fd, L n);
L k_fallocate(int fd, int mode, L off, L len);
L k_fsync(int fd, int data);
L k_sync(void);
L k_opendir(const char *p);
L k_fdopendir(int fd);
L k_readdir(L d, struct dirent *e); // 1 entry, 0 end, <0 error
L k_rewinddir(L d);
L k_closedir(L d);
L k_dirfd(L d);
L k_getcwd(char *b, size_t n);
L k_chdir(const char *p);
L k_fchdir(int fd);
L k_realpath(const char *p, char *b);
L k_umask(unsigned m);
L k_dup(int fd, int min, int to, int cloexec);
L k_fcntl(int fd, int cmd, L arg);
L k_ioctl(int fd, unsigned long req, L arg);
L k_flock(int fd, int op);
L k_isatty(int fd);
L k_utimens(int d, const char *p, const struct timespec *ts, int flags);
L k_futimens(int fd, const struct timespec *ts);
L k_mmap(void *a, size_t n, int prot, int flags, int fd, L off);
L k_id(int which);
L k_getgroups(int n, gid_t *g);
L k_passwd(int byname, const char *name, unsigned uid, struct passwd *pw, char *buf, size_t n); // 1 found, 0 not, <0 err
L k_clock(int clk, struct timespec *ts);
L k_sleep(const struct timespec *ts);
L k_random(void *b, size_t n);
L k_signal(int sig, L handler);
L k_raise(int sig);
L k_exit(int code) __attribute__((noreturn));
L k_abort(void) __attribute__((noreturn));
L k_poll(struct pollfd *f, unsigned long n, int timeout);
L k_statfs(void);
L k_spawn(int *pid, char *const *argv);
L k_waitpid(int pid, int *status, int options);
L k_pipe(int *p, int flags);
void k_dup_action(int a, int b);
const char *k_getenv(const char *n, int *found);
L k_refused(const char *what); // a call the simulator answers with ENOSYS/EAGAIN
void k_unsupported(const char *what) __attribute__((noreturn));

#define G(expr) do { if (sim_in_guest) { ENTER; return done(expr); } } while (0)
#define NOTSUP(what) do { if (sim_in_guest) { ENTER; return done(k_refused(what)); } } while (0)

// ---- open family ----
#define OPENARGS mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS; G(k_open(AT_FDCWD, p, flags, mode)); return REAL(open)(p, flags, mode); }
int open64(const char *p, int flags, ...) { OPENARGS; G(k_open(AT_FDCWD, p, flags, mode)); return REAL(open64)(p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { OPENARGS; G(k_open(d, p, flags, mode)); return REAL(openat)(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS; G(k_open(d, p, flags, mode)); return REAL(openat64)(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { G(k_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)); return REAL(creat)(p, mode); }
int creat64(const char *p, mode_t mode) { G(k_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)); return REAL(creat64)(p, mode); }

// ---- data ----
ssize_t read(int fd, void *b, size_t n) { G(k_read(fd, b, n)); return REAL(read)(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { G(k_write(fd, b, n)); return REAL(write)(fd, b, n); }
static L iov_rw(int fd, const struct iovec *v, int n, int wr, L off) {
  // One system call: gather/scatter through one buffer so that a short or
  // failed transfer has one place to happen.
  size_t tot = 0; for (int i = 0; i < n; i++) tot += v[i].iov_len;
  char *b = malloc(tot ? tot : 1); L r; size_t o = 0;
  if (wr) {
    for (int i = 0; i < n; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    r = off < 0 ? k_write(fd, b, tot) : k_pwrite(fd, b, tot, off);
  } else {
    r = off < 0 ? k_read(fd, b, tot) : k_pread(fd, b, tot, off);
    size_t left = r > 0 ? r : 0;
    for (int i = 0; i < n && left; i++) { size_t c = v[i].iov_len < left ? v[i].iov_len : left; memcpy(v[i].iov_base, b + o, c); o += c; left -= c; }
  }
  free(b); return r;
}
ssize_t readv(int fd, const struct iovec *v, int n) { G(iov_rw(fd, v, n, 0, -1)); return REAL(readv)(fd, v, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { G(iov_rw(fd, v, n, 1, -1)); return REAL(writev)(fd, v, n); }
ssize_t preadv(int fd, const struct iovec *v, int n, off_t o) { G(iov_rw(fd, v, n, 0, o)); return REAL(preadv)(fd, v, n, o); }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { G(iov_rw(fd, v, n, 1, o)); return REAL(pwritev)(fd, v, n, o); }
ssize_t preadv64(int fd, const struct iovec *v, int n, off_t o) { G(iov_rw(fd, v, n, 0, o)); return REAL(preadv64)(fd, v, n, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int n, off_t o) { G(iov_rw(fd, v, n, 1, o)); return REAL(pwritev64)(fd, v, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { G(k_pread(fd, b, n, o)); return REAL(pread)(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { G(k_pread(fd, b, n, o)); return REAL(pread64)(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { G(k_pwrite(fd, b, n, o)); return REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { G(k_pwrite(fd, b, n, o)); return REAL(pwrite64)(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { G(k_lseek(fd, o, w)); return REAL(lseek)(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { G(k_lseek(fd, o, w)); return REAL(lseek64)(fd, o, w); }
int close(int fd) { G(k_close(fd)); return REAL(close)(fd); }

// ---- stat ----
int stat(const char *p, struct stat *s) { G(k_stat(AT_FDCWD, p, 0, s)); return REAL(stat)(p, s); }
int lstat(const char *p, struct stat *s) { G(k_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, s)); return REAL(lstat)(p, s); }
int fstat(int fd, struct stat *s) { G(k_stat(fd, "", AT_EMPTY_PATH, s)); return REAL(fstat)(fd, s); }
int fstatat(int d, const char *p, struct stat *s, int f) { G(k_stat(d, p, f, s)); return REAL(fstatat)(d, p, s, f); }
int stat64(const char *p, struct stat64 *s) { G(k_stat(AT_FDCWD, p, 0, (struct stat *)s)); return REAL(stat64)(p, s); }
int lstat64(const char *p, struct stat64 *s) { G(k_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat *)s)); return REAL(lstat64)(p, s); }
int fstat64(int fd, struct stat64 *s) { G(k_stat(fd, "", AT_EMPTY_PATH, (struct stat *)s)); return REAL(fstat64)(fd, s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { G(k_stat(d, p, f, (struct stat *)s)); return REAL(fstatat64)(d, p, s, f); }
static L do_statx(int d, const char *p, int f, unsigned mask, struct statx *x) {
  if (!x || !p) return -EFAULT; // the Rust runtime probes with statx(0, NULL, 0, STATX_ALL, NULL)
  struct stat s; (void)mask;
  L r = k_stat(d, p, f & (AT_SYMLINK_NOFOLLOW | AT_EMPTY_PATH), &s);
  if (r < 0) return r;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = s.st_blksize; x->stx_nlink = s.st_nlink; x->stx_uid = s.st_uid; x->stx_gid = s.st_gid;
  x->stx_mode = s.st_mode; x->stx_ino = s.st_ino; x->stx_size = s.st_size; x->stx_blocks = s.st_blocks; x->stx_dev_minor = 1;
  x->stx_mtime.tv_sec = s.st_mtim.tv_sec; x->stx_mtime.tv_nsec = s.st_mtim.tv_nsec;
  x->stx_atime.tv_sec = s.st_atim.tv_sec; x->stx_atime.tv_nsec = s.st_atim.tv_nsec;
  x->stx_ctime.tv_sec = s.st_ctim.tv_sec; x->stx_ctime.tv_nsec = s.st_ctim.tv_nsec;
  return 0;
}
int statx(int d, const char *p, int f, unsigned mask, struct statx *x) { G(do_statx(d, p, f, mask, x)); return REAL(statx)(d, p, f, mask, x); }
int access(const char *p, int m) { G(k_access(AT_FDCWD, p, m)); return REAL(access)(p, m); }
int euidaccess(const char *p, int m) { G(k_access(AT_FDCWD, p, m)); return REAL(euidaccess)(p, m); }
int eaccess(const char *p, int m) { G(k_access(AT_FDCWD, p, m)); return REAL(eaccess)(p, m); }
int faccessat(int d, const char *p, int m, int f) { G(k_access(d, p, m)); return REAL(faccessat)(d, p, m, f); }
int statfs(const char *p, struct statfs *s) { (void)s; G(k_statfs()); return REAL(statfs)(p, s); }
int fstatfs(int fd, struct statfs *s) { (void)s; G(k_statfs()); return REAL(fstatfs)(fd, s); }
int statfs64(const char *p, struct statfs64 *s) { (void)s; G(k_statfs()); return REAL(statfs64)(p, s); }
int fstatfs64(int fd, struct statfs64 *s) { (void)s; G(k_statfs()); return REAL(fstatfs64)(fd, s); }

// ---- names ----
int mkdir(const char *p, mode_t m) { G(k_mkdir(AT_FDCWD, p, m)); return REAL(mkdir)(p, m); }
int mkdirat(int d, const char *p, mode_t m) { G(k_mkdir(d, p, m)); return REAL(mkdirat)(d, p, m); }
int rmdir(const char *p) { G(k_unlink(AT_FDCWD, p, AT_REMOVEDIR)); return REAL(rmdir)(p); }
int unlink(const char *p) { G(k_unlink(AT_FDCWD, p, 0)); return REAL(unlink)(p); }
int unlinkat(int d, const char *p, int f) { G(k_unlink(d, p, f)); return REAL(unlinkat)(d, p, f); }
int remove(const char *p) { if (sim_in_guest) { ENTER; L r = k_unlink(AT_FDCWD, p, 0); if (r == -EISDIR) r = k_unlink(AT_FDCWD, p, AT_REMOVEDIR); return done(r); } return REAL(remove)(p); }
int rename(const char *o, const char *n) { G(k_rename(AT_FDCWD, o, AT_FDCWD, n, 0)); return REAL(rename)(o, n); }
int renameat(int od, const char *o, int nd, const char *n) { G(k_rename(od, o, nd, n, 0)); return REAL(renameat)(od, o, nd, n); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { G(k_rename(od, o, nd, n, f)); return REAL(renameat2)(od, o, nd, n, f); }
int link(const char *o, const char *n) { G(k_link(AT_FDCWD, o, AT_FDCWD, n, 0)); return REAL(link)(o, n); }
int linkat(int od, const char *o, int nd, const char *n, int f) { G(k_link(od, o, nd, n, f)); return REAL(linkat)(od, o, nd, n, f); }
int symlink(const char *t, const char *n) { G(k_symlink(t, AT_FDCWD, n)); return REAL(symlink)(t, n); }
int symlinkat(const char *t, int d, const char *n) { G(k_symlink(t, d, n)); return REAL(symlinkat)(t, d, n); }
ssize_t readlink(const char *p, char *b, size_t n) { G(k_readlink(AT_FDCWD, p, b, n)); return REAL(readlink)(p, b, n); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { G(k_readlink(d, p, b, n)); return REAL(readlinkat)(d, p, b, n); }
int chmod(const char *p, mode_t m) { G(k_chmod(AT_FDCWD, p, m, 0)); return REAL(chmod)(p, m); }
int fchmod(int fd, mode_t m) { G(k_fchmod(fd, m)); return REAL(fchmod)(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { G(k_chmod(d, p, m, f)); return REAL(fchmodat)(d, p, m, f); }
int chown(const char *p, uid_t u, gid_t g) { G(k_chown(AT_FDCWD, p, u, g, 0)); return REAL(chown)(p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { G(k_chown(AT_FDCWD, p, u, g, AT_SYMLINK_NOFOLLOW)); return REAL(lchown)(p, u, g); }
int fchown(int fd, uid_t u, gid_t g) { G(k_fchown(fd, u, g)); return REAL(fchown)(fd, u, g); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { G(k_chown(d, p, u, g, f)); return REAL(fchownat)(d, p, u, g, f); }
int truncate(const char *p, off_t n) { G(k_truncate(p, n)); return REAL(truncate)(p, n); }
int truncate64(const char *p, off_t n) { G(k_truncate(p, n)); return REAL(truncate64)(p, n); }
int ftruncate(int fd, off_t n) { G(k_ftruncate(fd, n)); return REAL(ftruncate)(fd, n); }
int ftruncate64(int fd, off_t n) { G(k_ftruncate(fd, n)); return REAL(ftruncate64)(fd, n); }
int fallocate(int fd, int m, off_t o, off_t n) { G(k_fallocate(fd, m, o, n)); return REAL(fallocate)(fd, m, o, n); }
int fallocate64(int fd, int m, off_t o, off_t n) { G(k_fallocate(fd, m, o, n)); return REAL(fallocate64)(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (sim_in_guest) { ENTER; L r = k_fallocate(fd, 0, o, n); LEAVE; return (int)-r; } return REAL(posix_fallocate)(fd, o, n); }
int posix_fallocate64(int fd, off_t o, off_t n) { if (sim_in_guest) { ENTER; L r = k_fallocate(fd, 0, o, n); LEAVE; return (int)-r; } return REAL(posix_fallocate64)(fd, o, n); }
int posix_fadvise(int fd, off_t o, off_t n, int a) { if (sim_in_guest) return 0; return REAL(posix_fadvise)(fd, o, n, a); }
int posix_fadvise64(int fd, off_t o, off_t n, int a) { if (sim_in_guest) return 0; return REAL(posix_fadvise64)(fd, o, n, a); }
int fsync(int fd) { G(k_fsync(fd, 0)); return REAL(fsync)(fd); }
int fdatasync(int fd) { G(k_fsync(fd, 1)); return REAL(fdatasync)(fd); }
int syncfs(int fd) { (void)fd; G(k_sync()); return REAL(syncfs)(fd); }
void sync(void) { if (sim_in_guest) { ENTER; k_sync(); LEAVE; return; } REAL(sync)(); }
int utimes(const char *p, const struct timeval *t) {
  if (sim_in_guest) { ENTER; struct timespec ts[2]; if (t) { for (int i = 0; i < 2; i++) { ts[i].tv_sec = t[i].tv_sec; ts[i].tv_nsec = t[i].tv_usec * 1000; } } return done(k_utimens(AT_FDCWD, p, t ? ts : NULL, 0)); }
  return REAL(utimes)(p, t);
}
int futimes(int fd, const struct timeval *t) {
  if (sim_in_guest) { ENTER; struct timespec ts[2]; if (t) { for (int i = 0; i < 2; i++) { ts[i].tv_sec = t[i].tv_sec; ts[i].tv_nsec = t[i].tv_usec * 1000; } } return done(k_futimens(fd, t ? ts : NULL)); }
  return REAL(futimes)(fd, t);
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) { G(k_utimens(d, p, t, f)); return REAL(utimensat)(d, p, t, f); }
int futimens(int fd, const struct timespec t[2]) { G(k_futimens(fd, t)); return REAL(futimens)(fd, t); }

// ---- directories ----
typedef struct { long magic; L h; struct dirent e; } SDIR;
DIR *opendir(const char *p) {
  if (sim_in_guest) { ENTER; L h = k_opendir(p); SDIR *d = NULL; if (h >= 0) { d = calloc(1, sizeof *d); d->magic = 0x51D1; d->h = h; } done(h < 0 ? h : 0); return (DIR *)d; }
  return REAL(opendir)(p);
}
DIR *fdopendir(int fd) {
  if (sim_in_guest) { ENTER; L h = k_fdopendir(fd); SDIR *d = NULL; if (h >= 0) { d = calloc(1, sizeof *d); d->magic = 0x51D1; d->h = h; } done(h < 0 ? h : 0); return (DIR *)d; }
  return REAL(fdopendir)(fd);
}
struct dirent *readdir(DIR *dp) {
  if (sim_in_guest) { ENTER; SDIR *d = (SDIR *)dp; L r = k_readdir(d->h, &d->e); LEAVE; if (r < 0) { errno = (int)-r; return NULL; } return r ? &d->e : NULL; }
  return REAL(readdir)(dp);
}
struct dirent64 *readdir64(DIR *dp) {
  if (sim_in_guest) return (struct dirent64 *)readdir(dp);
  return REAL(readdir64)(dp);
}
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
int readdir_r(DIR *dp, struct dirent *e, struct dirent **out) {
  if (sim_in_guest) { ENTER; SDIR *d = (SDIR *)dp; L r = k_readdir(d->h, e); LEAVE; *out = r > 0 ? e : NULL; return r < 0 ? (int)-r : 0; }
  return REAL(readdir_r)(dp, e, out);
}
int readdir64_r(DIR *dp, struct dirent64 *e, struct dirent64 **out) {
  if (sim_in_guest) return readdir_r(dp, (struct dirent *)e, (struct dirent **)out);
  return REAL(readdir64_r)(dp, e, out);
}
void rewinddir(DIR *dp) { if (sim_in_guest) { ENTER; k_rewinddir(((SDIR *)dp)->h); LEAVE; return; } REAL(rewinddir)(dp); }
int closedir(DIR *dp) { if (sim_in_guest) { ENTER; SDIR *d = (SDIR *)dp; L r = k_closedir(d->h); free(d); return done(r); } return REAL(closedir)(dp); }
int dirfd(DIR *dp) { if (sim_in_guest) { ENTER; return done(k_dirfd(((SDIR *)dp)->h)); } return REAL(dirfd)(dp); }
int scandir(const char *p, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { NOTSUP("scandir"); return REAL(scandir)(p, l, f, c); }

// ---- process context ----
char *getcwd(char *b, size_t n) {
  if (sim_in_guest) { ENTER; char *o = b; if (!o) { n = n ? n : 4096; o = malloc(n); } L r = k_getcwd(o, n); done(r); return r < 0 ? NULL : o; }
  return REAL(getcwd)(b, n);
}
int chdir(const char *p) { G(k_chdir(p)); return REAL(chdir)(p); }
int fchdir(int fd) { G(k_fchdir(fd)); return REAL(fchdir)(fd); }
int chroot(const char *p) { NOTSUP("chroot"); return REAL(chroot)(p); }
char *realpath(const char *p, char *b) {
  if (sim_in_guest) { ENTER; char *o = b ? b : malloc(4097); L r = k_realpath(p, o); done(r); if (r < 0) { if (!b) free(o); return NULL; } return o; }
  return REAL(realpath)(p, b);
}
mode_t umask(mode_t m) { if (sim_in_guest) { ENTER; return (mode_t)done(k_umask(m)); } return REAL(umask)(m); }
int dup(int fd) { G(k_dup(fd, 0, -1, 0)); return REAL(dup)(fd); }
int dup2(int fd, int to) { G(k_dup(fd, 0, to, 0)); return REAL(dup2)(fd, to); }
int dup3(int fd, int to, int f) { G(k_dup(fd, 0, to, f)); return REAL(dup3)(fd, to, f); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); L a = va_arg(ap, L); va_end(ap); G(k_fcntl(fd, cmd, a)); return REAL(fcntl)(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); L a = va_arg(ap, L); va_end(ap); G(k_fcntl(fd, cmd, a)); return REAL(fcntl64)(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) { va_list ap; va_start(ap, req); L a = va_arg(ap, L); va_end(ap); G(k_ioctl(fd, req, a)); return REAL(ioctl)(fd, req, a); }
int flock(int fd, int op) { G(k_flock(fd, op)); return REAL(flock)(fd, op); }
int isatty(int fd) { if (sim_in_guest) { ENTER; L r = k_isatty(fd); LEAVE; if (!r) errno = ENOTTY; return (int)r; } return REAL(isatty)(fd); }
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (sim_in_guest && !(flags & MAP_ANONYMOUS)) { ENTER; L r = k_mmap(a, n, prot, flags, fd, off); LEAVE; if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; } return (void *)r; }
  return REAL(mmap)(a, n, prot, flags, fd, off);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
uid_t getuid(void) { if (sim_in_guest) { ENTER; return (uid_t)done(k_id(0)); } return REAL(getuid)(); }
uid_t geteuid(void) { if (sim_in_guest) { ENTER; return (uid_t)done(k_id(0)); } return REAL(geteuid)(); }
gid_t getgid(void) { if (sim_in_guest) { ENTER; return (gid_t)done(k_id(1)); } return REAL(getgid)(); }
gid_t getegid(void) { if (sim_in_guest) { ENTER; return (gid_t)done(k_id(1)); } return REAL(getegid)(); }
pid_t getpid(void) { if (sim_in_guest) { ENTER; return (pid_t)done(k_id(2)); } return REAL(getpid)(); }
pid_t getppid(void) { if (sim_in_guest) { ENTER; return (pid_t)done(k_id(3)); } return REAL(getppid)(); }
pid_t gettid(void) { if (sim_in_guest) { ENTER; return (pid_t)done(k_id(2)); } return REAL(gettid)(); }
pid_t getpgid(pid_t p) { if (sim_in_guest) { ENTER; return (pid_t)done(k_id(2)); } return REAL(getpgid)(p); }
pid_t getsid(pid_t p) { if (sim_in_guest) { ENTER; return (pid_t)done(k_id(2)); } return REAL(getsid)(p); }
int getgroups(int n, gid_t *g) { G(k_getgroups(n, g)); return REAL(getgroups)(n, g); }
static int do_pw(int byname, const char *name, uid_t uid, struct passwd *pw, char *b, size_t n, struct passwd **out) {
  L r = k_passwd(byname, name, uid, pw, b, n);
  *out = r == 1 ? pw : NULL;
  return r < 0 ? (int)-r : 0;
}
int getpwuid_r(uid_t u, struct passwd *pw, char *b, size_t n, struct passwd **out) { if (sim_in_guest) { ENTER; int r = do_pw(0, NULL, u, pw, b, n, out); LEAVE; return r; } return REAL(getpwuid_r)(u, pw, b, n, out); }
int getpwnam_r(const char *u, struct passwd *pw, char *b, size_t n, struct passwd **out) { if (sim_in_guest) { ENTER; int r = do_pw(1, u, 0, pw, b, n, out); LEAVE; return r; } return REAL(getpwnam_r)(u, pw, b, n, out); }
static struct passwd s_pw; static char s_pwbuf[1024];
struct passwd *getpwuid(uid_t u) { if (sim_in_guest) { struct passwd *o; int r = getpwuid_r(u, &s_pw, s_pwbuf, sizeof s_pwbuf, &o); if (r) errno = r; return o; } return REAL(getpwuid)(u); }
struct passwd *getpwnam(const char *u) { if (sim_in_guest) { struct passwd *o; int r = getpwnam_r(u, &s_pw, s_pwbuf, sizeof s_pwbuf, &o); if (r) errno = r; return o; } return REAL(getpwnam)(u); }

// ---- time and randomness ----
int clock_gettime(clockid_t c, struct timespec *t) { G(k_clock(c, t)); return REAL(clock_gettime)(c, t); }
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  if (sim_in_guest) { ENTER; struct timespec s; k_clock(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return done(0); }
  return REAL(gettimeofday)(t, z);
}
time_t time(time_t *t) { if (sim_in_guest) { ENTER; struct timespec s; k_clock(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; LEAVE; return s.tv_sec; } return REAL(time)(t); }
int nanosleep(const struct timespec *t, struct timespec *r) { (void)r; G(k_sleep(t)); return REAL(nanosleep)(t, r); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) {
  if (sim_in_guest) { ENTER; struct timespec now, d = *t; if (f & TIMER_ABSTIME) { k_clock(c, &now); L ns = (t->tv_sec - now.tv_sec) * 1000000000L + (t->tv_nsec - now.tv_nsec); if (ns < 0) ns = 0; d.tv_sec = ns / 1000000000L; d.tv_nsec = ns % 1000000000L; } L x = k_sleep(&d); LEAVE; return (int)-x; }
  return REAL(clock_nanosleep)(c, f, t, r);
}
int usleep(useconds_t u) { if (sim_in_guest) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); } return REAL(usleep)(u); }
unsigned sleep(unsigned s) { if (sim_in_guest) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; } return REAL(sleep)(s); }
int sched_yield(void) { if (sim_in_guest) { struct timespec t = {0, 0}; nanosleep(&t, NULL); return 0; } return REAL(sched_yield)(); }
ssize_t getrandom(void *b, size_t n, unsigned f) { G(k_random(b, n)); return REAL(getrandom)(b, n, f); }
int getentropy(void *b, size_t n) { if (sim_in_guest) { ENTER; k_random(b, n); return done(0); } return REAL(getentropy)(b, n); }

// ---- signals and the end ----
sighandler_t signal(int s, sighandler_t h) { if (sim_in_guest) { ENTER; L r = k_signal(s, (L)h); LEAVE; return (sighandler_t)r; } return REAL(signal)(s, h); }
int sigaction(int s, const struct sigaction *restrict a, struct sigaction *restrict o) {
  if (sim_in_guest) { ENTER; if (o) memset(o, 0, sizeof *o); if (a) { L r = k_signal(s, (L)a->sa_handler); if (o) o->sa_handler = (sighandler_t)r; } return done(0); }
  return REAL(sigaction)(s, a, o);
}
int raise(int s) { G(k_raise(s)); return REAL(raise)(s); }
int kill(pid_t p, int s) { (void)p; NOTSUP("kill"); return REAL(kill)(p, s); }
void exit(int c) { if (sim_in_guest) { ENTER; k_exit(c); } REAL(exit)(c); __builtin_unreachable(); }
void _exit(int c) { if (sim_in_guest) { ENTER; k_exit(c); } REAL(_exit)(c); __builtin_unreachable(); }
void _Exit(int c) { if (sim_in_guest) { ENTER; k_exit(c); } REAL(_Exit)(c); __builtin_unreachable(); }
void quick_exit(int c) { if (sim_in_guest) { ENTER; k_exit(c); } REAL(quick_exit)(c); __builtin_unreachable(); }
void abort(void) { if (sim_in_guest) { ENTER; k_abort(); } REAL(abort)(); __builtin_unreachable(); }
int poll(struct pollfd *f, nfds_t n, int t) { G(k_poll(f, n, t)); return REAL(poll)(f, n, t); }
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *s) { (void)s; G(k_poll(f, n, t ? 0 : -1)); return REAL(ppoll)(f, n, t, s); }

// ---- things a session has no business doing: refused, and noted ----
int pipe(int *p) { if (sim_in_guest) { ENTER; return done(k_pipe(p, 0)); } return REAL(pipe)(p); }
int pipe2(int *p, int f) { if (sim_in_guest) { ENTER; return done(k_pipe(p, f)); } return REAL(pipe2)(p, f); }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int a, int b) {
  if (sim_in_guest) { ENTER; k_dup_action(a, b); LEAVE; return 0; } return REAL(posix_spawn_file_actions_adddup2)(fa, a, b);
}
char *getenv(const char *n) {
  if (sim_in_guest) { int f = 0; ENTER; const char *r = k_getenv(n, &f); LEAVE; if (f) return (char *)r; }
  return REAL(getenv)(n);
}
pid_t fork(void) { NOTSUP("fork"); return REAL(fork)(); }
pid_t vfork(void) { if (sim_in_guest) { ENTER; return done(k_refused("vfork")); } return REAL(fork)(); }
int execve(const char *p, char *const a[], char *const e[]) { NOTSUP("execve"); return REAL(execve)(p, a, e); }
int execvp(const char *p, char *const a[]) { NOTSUP("execvp"); return REAL(execvp)(p, a); }
int execv(const char *p, char *const a[]) { NOTSUP("execv"); return REAL(execv)(p, a); }
int posix_spawn(pid_t *r, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  if (sim_in_guest) { ENTER; L x = k_spawn(r, a); LEAVE; return (int)-x; } return REAL(posix_spawn)(r, p, fa, at, a, e);
}
int posix_spawnp(pid_t *r, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  if (sim_in_guest) { ENTER; L x = k_spawn(r, a); LEAVE; return (int)-x; } return REAL(posix_spawnp)(r, p, fa, at, a, e);
}
// Found with dlsym by the Rust runtime; absent from older C libraries, so refusing is legal.
int pidfd_spawnp(int *r, const char *p, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const e[]) {
  (void)r; (void)p; (void)fa; (void)at; (void)a; (void)e; return ENOSYS;
}
int pidfd_getpid(int fd) { (void)fd; errno = ENOSYS; return -1; }
pid_t waitpid(pid_t p, int *s, int o) { if (sim_in_guest) { ENTER; return done(k_waitpid(p, s, o)); } return REAL(waitpid)(p, s, o); }
int setuid(uid_t u) { NOTSUP("setuid"); return REAL(setuid)(u); }
int setgid(gid_t u) { NOTSUP("setgid"); return REAL(setgid)(u); }
int seteuid(uid_t u) { NOTSUP("seteuid"); return REAL(seteuid)(u); }
int setgroups(size_t n, const gid_t *g) { NOTSUP("setgroups"); return REAL(setgroups)(n, g); }
pid_t setsid(void) { NOTSUP("setsid"); return REAL(setsid)(); }
int setpgid(pid_t a, pid_t b) { NOTSUP("setpgid"); return REAL(setpgid)(a, b); }
int socket(int a, int b, int c) { NOTSUP("socket"); return REAL(socket)(a, b, c); }
int socketpair(int a, int b, int c, int *p) { NOTSUP("socketpair"); return REAL(socketpair)(a, b, c, p); }
ssize_t copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned f) { if (sim_in_guest) { errno = ENOSYS; return -1; } return REAL(copy_file_range)(a, ao, b, bo, n, f); }
ssize_t sendfile(int a, int b, off_t *o, size_t n) { if (sim_in_guest) { errno = ENOSYS; return -1; } return REAL(sendfile)(a, b, o, n); }
ssize_t sendfile64(int a, int b, off_t *o, size_t n) { if (sim_in_guest) { errno = ENOSYS; return -1; } return REAL(sendfile64)(a, b, o, n); }
ssize_t splice(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned f) { if (sim_in_guest) { errno = EINVAL; return -1; } return REAL(splice)(a, ao, b, bo, n, f); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  if (sim_in_guest) { ENTER; k_refused("pthread_create"); LEAVE; return EAGAIN; } return REAL(pthread_create)(t, a, f, x);
}
FILE *fopen(const char *p, const char *m) { if (sim_in_guest) { ENTER; k_unsupported("fopen"); } return REAL(fopen)(p, m); }
int mkstemp(char *t) { if (sim_in_guest) { ENTER; k_unsupported("mkstemp"); } return REAL(mkstemp)(t); }
char *mkdtemp(char *t) { if (sim_in_guest) { ENTER; k_unsupported("mkdtemp"); } return REAL(mkdtemp)(t); }

static L raw(L n, L a, L b, L c, L d, L e, L f) {
  L r; register L r10 __asm__("r10") = d; register L r8 __asm__("r8") = e; register L r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  L a = va_arg(ap, L), b = va_arg(ap, L), c = va_arg(ap, L), d = va_arg(ap, L), e = va_arg(ap, L), f = va_arg(ap, L);
  va_end(ap);
  if (sim_in_guest) {
    ENTER;
    switch (n) {
    case SYS_futex: case SYS_membarrier: case SYS_rseq: case SYS_set_robust_list: { L r = raw(n, a, b, c, d, e, f); return done(r); }
    case SYS_gettid: case SYS_getpid: return done(k_id(2));
    case SYS_getrandom: return done(k_random((void *)a, b));
    case SYS_statx: return done(do_statx(a, (const char *)b, c, d, (struct statx *)e));
    case SYS_read: return done(k_read(a, (void *)b, c));
    case SYS_write: return done(k_write(a, (void *)b, c));
    case SYS_open: return done(k_open(AT_FDCWD, (char *)a, b, c));
    case SYS_openat: return done(k_open(a, (char *)b, c, d));
    case SYS_close: return done(k_close(a));
    case SYS_fsync: return done(k_fsync(a, 0));
    case SYS_fdatasync: return done(k_fsync(a, 1));
    case SYS_rename: return done(k_rename(AT_FDCWD, (char *)a, AT_FDCWD, (char *)b, 0));
    case SYS_renameat: return done(k_rename(a, (char *)b, c, (char *)d, 0));
    case SYS_renameat2: return done(k_rename(a, (char *)b, c, (char *)d, e));
    case SYS_link: return done(k_link(AT_FDCWD, (char *)a, AT_FDCWD, (char *)b, 0));
    case SYS_linkat: return done(k_link(a, (char *)b, c, (char *)d, e));
    case SYS_unlink: return done(k_unlink(AT_FDCWD, (char *)a, 0));
    case SYS_unlinkat: return done(k_unlink(a, (char *)b, c));
    case SYS_clock_gettime: return done(k_clock(a, (struct timespec *)b));
    case SYS_copy_file_range: case SYS_faccessat2: case SYS_openat2: case SYS_pidfd_open: case SYS_clone3: case SYS_io_uring_setup: return done(-ENOSYS);
    default: { char m[64]; snprintf(m, sizeof m, "syscall(%ld)", n); k_unsupported(m); }
    }
  }
  L r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---- coroutines: one per session, all on one thread ----
static ucontext_t sched_ctx, sess_ctx[64];
static void (*entry_fn[64])(void);
static void tramp(int i) { sim_in_guest = 1; entry_fn[i](); sim_in_guest = 0; k_exit(0); }
void co_create(int i, void (*fn)(void), void *stack, size_t n) {
  getcontext(&sess_ctx[i]);
  sess_ctx[i].uc_stack.ss_sp = stack; sess_ctx[i].uc_stack.ss_size = n; sess_ctx[i].uc_link = NULL;
  entry_fn[i] = fn;
  makecontext(&sess_ctx[i], (void (*)(void))tramp, 1, i);
}
void co_resume(int i) { sim_cur = i; swapcontext(&sched_ctx, &sess_ctx[i]); sim_in_guest = 0; }
// the sessions are single-threaded processes of their own: each keeps its errno
void co_suspend(int i) { int e = errno; swapcontext(&sess_ctx[i], &sched_ctx); errno = e; }
