/* Seams of the simulator, below std: thread-sanitizer callbacks (numbered preemption points) and the libc calls std makes.
 * A thread that is "inside the library" (S.active) talks to the simulated OS; every other thread to the real one. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include <dlfcn.h>
#include <fcntl.h>

enum { C_MEM = 0, C_ALLOC, C_IO, C_LOG, C_USER, C_SYNC, NC };
struct st { int32_t active; int32_t tid; uint64_t cnt[NC]; uint64_t stop[NC]; };
static __thread struct st S __attribute__((tls_model("initial-exec"))) =
    { 0, -1, {0}, { ~0ull, ~0ull, ~0ull, ~0ull, ~0ull, ~0ull } };
struct st *hk_st(void) { return &S; }

extern void rt_point(int cls);
static inline __attribute__((always_inline)) void mem(void) {
  if (__builtin_expect(S.active, 0)) {
    if (__builtin_expect(++S.cnt[C_MEM] >= S.stop[C_MEM], 0)) { S.active = 0; rt_point(C_MEM); S.active = 1; }
  }
}

/* Atomic accesses are also points of their own, few among all the others; those of the log level and the logger, at every log call,
 * and of the simulator's memory accounting are not. */
static const volatile void *skip[4];
static int learning;
void hk_learn(int on) { learning = on; }
void hk_skip(int k, const void *a) { skip[k] = a; }
static inline __attribute__((always_inline)) void sync_(const volatile void *a) {
  mem();
  if (__builtin_expect(S.active, 0)) {
    if (a == skip[0] || a == skip[1] || a == skip[2] || a == skip[3]) return;
    if (__builtin_expect(++S.cnt[C_SYNC] >= S.stop[C_SYNC], 0)) { S.active = 0; rt_point(C_SYNC); S.active = 1; }
  } else if (__builtin_expect(learning, 0)) skip[learning - 1] = a;
}

/* ---------- thread-sanitizer pass ---------- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; mem(); }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; mem(); }
void __tsan_vptr_read(void **a) { (void)a; mem(); }
#define RW(n) void __tsan_##n(void *a) { (void)a; mem(); }
RW(read1) RW(read2) RW(read4) RW(read8) RW(read16) RW(write1) RW(write2) RW(write4) RW(write8) RW(write16)
RW(unaligned_read2) RW(unaligned_read4) RW(unaligned_read8) RW(unaligned_read16)
RW(unaligned_write2) RW(unaligned_write4) RW(unaligned_write8) RW(unaligned_write16)
RW(read_write1) RW(read_write2) RW(read_write4) RW(read_write8) RW(read_write16)
RW(unaligned_read_write2) RW(unaligned_read_write4) RW(unaligned_read_write8) RW(unaligned_read_write16)
RW(volatile_read1) RW(volatile_read2) RW(volatile_read4) RW(volatile_read8) RW(volatile_read16)
RW(volatile_write1) RW(volatile_write2) RW(volatile_write4) RW(volatile_write8) RW(volatile_write16)
void __tsan_read_range(void *a, unsigned long n) { (void)a; (void)n; mem(); }
void __tsan_write_range(void *a, unsigned long n) { (void)a; (void)n; mem(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { mem(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { mem(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { mem(); return memset(d, c, n); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { (void)mo; sync_(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { (void)mo; sync_(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; sync_(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; sync_(a); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; sync_(a); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; sync_(a); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; mem(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------- raw system calls ---------- */
long hk_raw(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
#define RAW(n, ...) RAW_(n, __VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) ret(hk_raw(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f)))
#define SIM(call) do { if (S.active) { S.active = 0; long r_ = (long)(call); S.active = 1; return ret(r_); } } while (0)

/* ---------- files ---------- */
extern long sim_open(const char *p, long flags), sim_read(long fd, void *b, size_t n, long off), sim_write(long fd, const void *b, size_t n, long off),
  sim_close(long fd), sim_fsync(long fd, long data_only), sim_rename(const char *a, const char *b, long flags), sim_unlink(const char *p, long dir),
  sim_lseek(long fd, long off, long wh), sim_ftruncate(long fd, long len), sim_truncate(const char *p, long len), sim_link(const char *a, const char *b),
  sim_mkdir(const char *p), sim_stat(const char *p, long fd, int64_t *out), sim_fcntl(long fd, long cmd, long arg), sim_unsup(const char *what, long err),
  sim_access(const char *p), sim_getcwd(char *b, size_t n), sim_getrandom(void *b, size_t n), sim_clock(void), sim_sleep(int64_t ns), sim_yield(void), sim_getpid(void),
  sim_futex(uint32_t *a, long op, uint32_t v, int64_t ns, long abs_rt), sim_thread_new(void), sim_syncall(void), sim_fallocate(long fd, long off, long len);
extern void sim_thread_start(long tid), sim_thread_end(long tid), sim_thread_join(long tid);

extern long sim_flock(long fd, long op), sim_chdir(const char *p, long fd);
extern long sim_dirpath(long fd, char *b, size_t n), sim_readdir(long fd, const char *last, char *name, size_t n, int64_t *out);
/* the path that p relative to the directory descriptor d means (b: room for it) */
#define ATB char ab_[1200]
static const char *at(int d, const char *p, char *b) {
  if (d == AT_FDCWD || !p || p[0] == '/') return p;
  if (sim_dirpath(d, b, 600) < 0 || strlen(p) > 550) return 0;
  strcat(b, "/"); strcat(b, p); return b;
}
#define AT1(d, p, call, what) ({ ATB; const char *q_ = at(d, p, ab_); q_ ? (call) : sim_unsup(what, ENOSYS); })
#define AT2(d, a, e, b, call, what) ({ ATB; char bb_[1200]; const char *q_ = at(d, a, ab_), *w_ = at(e, b, bb_); q_ && w_ ? (call) : sim_unsup(what, ENOSYS); })
static mode_t mode_of(int fl, va_list ap) { return (fl & (O_CREAT | 020000000)) ? va_arg(ap, mode_t) : 0; }
#define OPEN(name) int name(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_of(fl, ap); va_end(ap); \
  SIM(sim_open(p, fl)); return (int)RAW(SYS_openat, AT_FDCWD, p, fl, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_of(fl, ap); va_end(ap); \
  SIM(AT1(d, p, sim_open(q_, fl), "openat")); return (int)RAW(SYS_openat, d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { SIM(sim_open(p, O_CREAT | O_WRONLY | O_TRUNC)); return (int)RAW(SYS_creat, p, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
ssize_t read(int fd, void *b, size_t n) { SIM(sim_read(fd, b, n, -1)); return RAW(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { SIM(sim_write(fd, b, n, -1)); return RAW(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { SIM(sim_read(fd, b, n, o)); return RAW(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { SIM(sim_write(fd, b, n, o)); return RAW(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
static long vec(int fd, const struct iovec *v, int n, int wr) {   /* one segment per call: a legal short transfer */
  for (int i = 0; i < n; i++) if (v[i].iov_len) return wr ? sim_write(fd, v[i].iov_base, v[i].iov_len, -1) : sim_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return wr ? sim_write(fd, "", 0, -1) : 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) { SIM(vec(fd, v, n, 0)); return RAW(SYS_readv, fd, v, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { SIM(vec(fd, v, n, 1)); return RAW(SYS_writev, fd, v, n); }
off_t lseek(int fd, off_t o, int w) { SIM(sim_lseek(fd, o, w)); return RAW(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd) { SIM(sim_close(fd)); return (int)RAW(SYS_close, fd); }
int fsync(int fd) { SIM(sim_fsync(fd, 0)); return (int)RAW(SYS_fsync, fd); }
int fdatasync(int fd) { SIM(sim_fsync(fd, 1)); return (int)RAW(SYS_fdatasync, fd); }
int syncfs(int fd) { SIM(sim_syncall()); return (int)RAW(SYS_syncfs, fd); }
void sync(void) { if (S.active) { S.active = 0; sim_syncall(); S.active = 1; } else hk_raw(SYS_sync, 0, 0, 0, 0, 0, 0); }
int ftruncate(int fd, off_t l) { SIM(sim_ftruncate(fd, l)); return (int)RAW(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
int truncate(const char *p, off_t l) { SIM(sim_truncate(p, l)); return (int)RAW(SYS_truncate, p, l); }
int truncate64(const char *p, off_t l) { return truncate(p, l); }
int fallocate(int fd, int m, off_t o, off_t l) { SIM(m ? sim_unsup("fallocate", EOPNOTSUPP) : sim_fallocate(fd, o, l)); return (int)RAW(SYS_fallocate, fd, m, o, l); }
int fallocate64(int fd, int m, off_t o, off_t l) { return fallocate(fd, m, o, l); }
int posix_fallocate(int fd, off_t o, off_t l) { if (S.active) { S.active = 0; long r = sim_fallocate(fd, o, l); S.active = 1; return (int)-r; } return (int)-hk_raw(SYS_fallocate, fd, 0, o, l, 0, 0); }
int posix_fallocate64(int fd, off_t o, off_t l) { return posix_fallocate(fd, o, l); }
int rename(const char *a, const char *b) { SIM(sim_rename(a, b, 0)); return (int)RAW(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { SIM(AT2(d, a, e, b, sim_rename(q_, w_, 0), "renameat")); return (int)RAW(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { SIM(AT2(d, a, e, b, sim_rename(q_, w_, f), "renameat2")); return (int)RAW(SYS_renameat2, d, a, e, b, f); }
int unlink(const char *p) { SIM(sim_unlink(p, 0)); return (int)RAW(SYS_unlink, p); }
int rmdir(const char *p) { SIM(sim_unlink(p, 1)); return (int)RAW(SYS_rmdir, p); }
int unlinkat(int d, const char *p, int f) { SIM(AT1(d, p, sim_unlink(q_, !!(f & AT_REMOVEDIR)), "unlinkat")); return (int)RAW(SYS_unlinkat, d, p, f); }
int remove(const char *p) { SIM(sim_unlink(p, 0)); return (int)RAW(SYS_unlink, p); }
int link(const char *a, const char *b) { SIM(sim_link(a, b)); return (int)RAW(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { SIM(AT2(d, a, e, b, sim_link(q_, w_), "linkat")); return (int)RAW(SYS_linkat, d, a, e, b, f); }
int symlink(const char *a, const char *b) { SIM(sim_unsup("symlink", EPERM)); return (int)RAW(SYS_symlink, a, b); }
ssize_t readlink(const char *p, char *b, size_t n) { SIM(sim_unsup("readlink", EINVAL)); return RAW(SYS_readlink, p, b, n); }
int mkdir(const char *p, mode_t m) { SIM(sim_mkdir(p)); return (int)RAW(SYS_mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) { SIM(AT1(d, p, sim_mkdir(q_), "mkdirat")); return (int)RAW(SYS_mkdirat, d, p, m); }
int chmod(const char *p, mode_t m) { SIM(sim_access(p)); return (int)RAW(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { SIM(sim_fcntl(fd, F_GETFD, 0) < 0 ? -EBADF : 0); return (int)RAW(SYS_fchmod, fd, m); }
int fchown(int fd, uid_t u, gid_t g) { SIM(0); return (int)RAW(SYS_fchown, fd, u, g); }
int futimens(int fd, const struct timespec *t) { SIM(0); return (int)RAW(SYS_utimensat, fd, 0, t, 0); }
int utimensat(int d, const char *p, const struct timespec *t, int f) { SIM(0); return (int)RAW(SYS_utimensat, d, p, t, f); }
int access(const char *p, int m) { SIM(sim_access(p)); return (int)RAW(SYS_access, p, m); }
int faccessat(int d, const char *p, int m, int f) { SIM(AT1(d, p, sim_access(q_), "faccessat")); return (int)RAW(SYS_faccessat, d, p, m, f); }
char *getcwd(char *b, size_t n) { if (S.active) { S.active = 0; long r = sim_getcwd(b, n); S.active = 1; if (r < 0) { errno = (int)-r; return 0; } return b; }
  long r = hk_raw(SYS_getcwd, (long)b, (long)n, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return 0; } return b; }
int flock(int fd, int op) { SIM(sim_flock(fd, op)); return (int)RAW(SYS_flock, fd, op); }
int chdir(const char *p) { SIM(sim_chdir(p, -1)); return (int)RAW(SYS_chdir, p); }
int fchdir(int fd) { SIM(sim_chdir(0, fd)); return (int)RAW(SYS_fchdir, fd); }
int posix_fadvise(int fd, off_t o, off_t l, int a) { if (S.active) return 0; return (int)-hk_raw(SYS_fadvise64, fd, o, l, a, 0, 0); }
int posix_fadvise64(int fd, off_t o, off_t l, int a) { return posix_fadvise(fd, o, l, a); }
ssize_t copy_file_range(int a, off64_t *o, int b, off64_t *p, size_t n, unsigned f) { SIM(sim_unsup("copy_file_range", ENOSYS)); return RAW(SYS_copy_file_range, a, o, b, p, n, f); }
ssize_t sendfile(int a, int b, off_t *o, size_t n) { SIM(sim_unsup("sendfile", ENOSYS)); return RAW(SYS_sendfile, a, b, o, n); }
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { return sendfile(a, b, (off_t *)o, n); }
ssize_t splice(int a, off64_t *o, int b, off64_t *p, size_t n, unsigned f) { SIM(sim_unsup("splice", EINVAL)); return RAW(SYS_splice, a, o, b, p, n, f); }
#define FCNTL(name) int name(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); \
  SIM(sim_fcntl(fd, cmd, a)); return (int)RAW(SYS_fcntl, fd, cmd, a); }
FCNTL(fcntl) FCNTL(fcntl64)
int ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); long a = va_arg(ap, long); va_end(ap); SIM(sim_unsup("ioctl", ENOTTY)); return (int)RAW(SYS_ioctl, fd, r, a); }
int isatty(int fd) { if (S.active) { errno = ENOTTY; return 0; } char t[64]; return ret(hk_raw(SYS_ioctl, fd, 0x5401, (long)t, 0, 0, 0)) == 0; }
int socket(int d, int t, int p) { SIM(sim_unsup("socket", EPERM)); return (int)RAW(SYS_socket, d, t, p); }
int execve(const char *p, char *const *a, char *const *e) { SIM(sim_unsup("execve", EPERM)); return (int)RAW(SYS_execve, p, a, e); }
/* directory streams: ours carry a magic number and live in a fixed table */
#include <dirent.h>
struct mydir { uint64_t magic; int fd; struct dirent64 e; char last[300]; };
static struct mydir DIRS[16];
#define MAGIC 0x53494d5f4449525full
static struct mydir *mine(DIR *d) { struct mydir *m = (struct mydir *)d; return m >= DIRS && m < DIRS + 16 ? m : 0; }
#define REAL(T, name, ...) static T (*real_)(__VA_ARGS__); if (!real_) *(void **)&real_ = dlsym(RTLD_NEXT, name)
static DIR *mkdirstream(int fd) { for (int i = 0; i < 16; i++) if (!DIRS[i].magic) { DIRS[i].magic = MAGIC; DIRS[i].fd = fd; DIRS[i].last[0] = 0; return (DIR *)&DIRS[i]; } errno = EMFILE; return 0; }
DIR *opendir(const char *p) { if (S.active) { int fd = open(p, O_RDONLY | O_DIRECTORY); return fd < 0 ? 0 : mkdirstream(fd); }
  REAL(DIR *, "opendir", const char *); return real_(p); }
DIR *fdopendir(int fd) { if (S.active) return mkdirstream(fd); REAL(DIR *, "fdopendir", int); return real_(fd); }
struct dirent64 *readdir64(DIR *d) { struct mydir *m = mine(d); if (!m) { REAL(struct dirent64 *, "readdir64", DIR *); return real_(d); }
  int64_t o[4]; int a = S.active; S.active = 0; long r = sim_readdir(m->fd, m->last, m->e.d_name, 256, o); S.active = a;
  if (r <= 0) { if (r < 0) errno = (int)-r; return 0; }
  strcpy(m->last, m->e.d_name); m->e.d_ino = o[0]; m->e.d_type = o[2] ? DT_DIR : DT_REG; m->e.d_reclen = sizeof m->e; return &m->e; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { struct mydir *m = mine(d); if (!m) { REAL(int, "closedir", DIR *); return real_(d); } m->magic = 0; return close(m->fd); }
int dirfd(DIR *d) { struct mydir *m = mine(d); if (!m) { REAL(int, "dirfd", DIR *); return real_(d); } return m->fd; }

/* stat: out = {ino, size, is_dir, mtime_ns} */
#include <sys/stat.h>
static void fill(struct stat *s, int64_t *o) { memset(s, 0, sizeof *s); s->st_ino = o[0]; s->st_size = o[1]; s->st_mode = o[2] ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  s->st_nlink = 1; s->st_blksize = 4096; s->st_blocks = (o[1] + 511) / 512; s->st_dev = 7; s->st_mtim.tv_sec = o[3] / 1000000000; s->st_mtim.tv_nsec = o[3] % 1000000000;
  s->st_ctim = s->st_atim = s->st_mtim; }
static long dostat(const char *p, long fd, struct stat *s) { int64_t o[4]; long r = sim_stat(p, fd, o); if (r >= 0) fill(s, o); return r; }
int stat(const char *p, struct stat *s) { SIM(dostat(p, -1, s)); return (int)RAW(SYS_stat, p, s); }
int lstat(const char *p, struct stat *s) { SIM(dostat(p, -1, s)); return (int)RAW(SYS_lstat, p, s); }
int fstat(int fd, struct stat *s) { SIM(dostat(0, fd, s)); return (int)RAW(SYS_fstat, fd, s); }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
int fstatat(int d, const char *p, struct stat *s, int f) { SIM((p && *p) ? AT1(d, p, dostat(q_, -1, s), "fstatat") : dostat(0, d, s)); return (int)RAW(SYS_newfstatat, d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return fstatat(d, p, (struct stat *)s, f); }
static long dostatx(const char *p, int d, struct statx *x) {
  int64_t o[4]; long r; if (p && *p) { r = AT1(d, p, sim_stat(q_, -1, o), "statx"); } else { if (!p) return -EFAULT; r = sim_stat(0, d, o); }
  if (r < 0) return r;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_ino = o[0]; x->stx_size = o[1]; x->stx_mode = o[2] ? (S_IFDIR | 0755) : (S_IFREG | 0644); x->stx_nlink = 1;
  x->stx_blksize = 4096; x->stx_blocks = (o[1] + 511) / 512; x->stx_mtime.tv_sec = o[3] / 1000000000; x->stx_mtime.tv_nsec = o[3] % 1000000000; x->stx_ctime = x->stx_atime = x->stx_mtime; return 0; }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict x) { SIM(dostatx(p, d, x)); return (int)RAW(SYS_statx, d, p, f, m, x); }

/* ---------- randomness, clocks, identity ---------- */
ssize_t getrandom(void *b, size_t n, unsigned f) { if (S.tid >= 0) { int a = S.active; S.active = 0; long r = sim_getrandom(b, n); S.active = a; return r; } return RAW(SYS_getrandom, b, n, f); }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
int clock_gettime(clockid_t c, struct timespec *t) { if (S.active) { S.active = 0; int64_t n = sim_clock(); S.active = 1; if (c != CLOCK_REALTIME) n -= 1000000000000000000ll; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
  return (int)RAW(SYS_clock_gettime, c, t); }
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) { SIM(sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec)); return (int)RAW(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (S.active) { S.active = 0; int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (f & 1) { n -= sim_clock() - (c != CLOCK_REALTIME ? 1000000000000000000ll : 0); if (n < 0) n = 0; } sim_sleep(n); S.active = 1; return 0; }
  return (int)-hk_raw(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); }
int sched_yield(void) { SIM(sim_yield()); return (int)RAW(SYS_sched_yield, 0); }
pid_t getpid(void) { SIM(sim_getpid()); return (pid_t)RAW(SYS_getpid, 0); }
extern long sim_host(long what), sim_getenv(const char *n);
static void *real_fn(const char *n) { int a = S.active; S.active = 0; void *f = dlsym(RTLD_NEXT, n); S.active = a; return f; }
char *getenv(const char *n) {
  if (S.active) { S.active = 0; char *r = (char *)sim_getenv(n); S.active = 1; return r; }
  static char *(*f)(const char *); if (!f) *(void **)&f = real_fn("getenv"); return f(n); }
char *secure_getenv(const char *n) {
  if (S.active) return getenv(n);
  static char *(*f)(const char *); if (!f) *(void **)&f = real_fn("secure_getenv"); return f(n); }
pid_t getppid(void) { SIM(sim_host(0)); return (pid_t)RAW(SYS_getppid, 0); }
uid_t getuid(void) { SIM(sim_host(1)); return (uid_t)RAW(SYS_getuid, 0); }
uid_t geteuid(void) { SIM(sim_host(1)); return (uid_t)RAW(SYS_geteuid, 0); }
gid_t getgid(void) { SIM(sim_host(2)); return (gid_t)RAW(SYS_getgid, 0); }
gid_t getegid(void) { SIM(sim_host(2)); return (gid_t)RAW(SYS_getegid, 0); }
int gethostname(char *b, size_t n) {
  if (S.active) { long h; SIM((h = sim_host(3), n > 20 ? (strcpy(b, "host-"), b[5] = 'a' + h % 26, b[6] = 'a' + h / 26 % 26, b[7] = 0, 0) : -ENAMETOOLONG)); }
  static int (*f)(char *, size_t); if (!f) *(void **)&f = real_fn("gethostname"); return f(b, n); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  if (S.active) { S.active = 0; long k = sim_host(4); S.active = 1; memset(m, 0, n); for (long i = 0; i < k && i < (long)n * 8; i++) ((uint8_t *)m)[i / 8] |= 1 << i % 8; return 0; }
  static int (*f)(pid_t, size_t, cpu_set_t *); if (!f) *(void **)&f = real_fn("sched_getaffinity"); return f(p, n, m); }
long sysconf(int k) {
  if (S.active && (k == 83 || k == 84)) SIM(sim_host(4)); /* _SC_NPROCESSORS_CONF, _SC_NPROCESSORS_ONLN */
  static long (*f)(int); if (!f) *(void **)&f = real_fn("sysconf"); return f(k); }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; int r = clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return r; }
clock_t clock(void) { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
pid_t gettid(void) { SIM(5000 + S.tid); return (pid_t)RAW(SYS_gettid, 0); }

/* ---------- threads ---------- */
static long futex(uint32_t *a, long op, uint32_t v, const struct timespec *t) {
  long k = op & 127; /* other operations have no timeout: what is passed there is not one */
  int64_t ns = -1; if ((k == 0 || k == 9) && t) ns = t->tv_sec * 1000000000ll + t->tv_nsec;
  return sim_futex(a, op & 127, v, ns, (op & 256) != 0);
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (S.active) switch (n) {
    case SYS_futex: SIM(futex((uint32_t *)a, b, (uint32_t)c, (const struct timespec *)d));
    case SYS_getrandom: return getrandom((void *)a, b, c);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_clock_gettime: return clock_gettime((clockid_t)a, (struct timespec *)b);
    case SYS_gettid: return gettid();
    case SYS_getpid: return getpid();
    case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_copy_file_range: SIM(sim_unsup("copy_file_range", ENOSYS));
    default: SIM(sim_unsup("syscall", ENOSYS));
  }
  return ret(hk_raw(n, a, b, c, d, e, f));
}
struct tramp { void *(*fn)(void *); void *arg; long tid; };
#define MAXT 256
static pthread_t handles[MAXT]; static char isim[MAXT];
static void *start(void *p) {
  struct tramp t = *(struct tramp *)p; __builtin_free(p);
  S.tid = (int)t.tid; sim_thread_start(t.tid);   /* waits for the token */
  S.active = 1; void *r = t.fn(t.arg); S.active = 0;
  sim_thread_end(t.tid); S.tid = -1; return r;
}
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  int act = S.active; S.active = 0;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_create");
  int r;
  if (act) {
    long tid = sim_thread_new();
    if (tid < 0 || tid >= MAXT) { S.active = act; return EAGAIN; }
    struct tramp *t = __builtin_malloc(sizeof *t); t->fn = fn; t->arg = arg; t->tid = tid;
    r = real(h, at, start, t);
    if (!r) { handles[tid] = *h; isim[tid] = 1; }
  } else r = real(h, at, fn, arg);
  S.active = act; return r;
}
int pthread_join(pthread_t h, void **v) {
  static int (*real)(pthread_t, void **);
  int act = S.active; S.active = 0;
  if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_join");
  if (act) for (int i = 0; i < MAXT; i++) if (isim[i] && pthread_equal(handles[i], h)) { sim_thread_join(i); isim[i] = 0; break; }
  int r = real(h, v); S.active = act; return r;
}
