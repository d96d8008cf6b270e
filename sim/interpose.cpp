// The seams: C library entry points the programs (and libstdc++ and zlib on their behalf) use.
#include "internal.h"
#include <cstdarg>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <random>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>

using namespace sim;

namespace sim
{
void fsetlocking_off (FILE *f) { __fsetlocking (f, FSETLOCKING_BYCALLER); }
static std::unordered_map<FILE *, int> file_fd;
static inline Proc *app () { return tls.in_app && tls.cur ? tls.cur->proc : nullptr; }
template<typename F> static F real (const char *n, F &cache)
{
    if (!cache) { HostScope hs; cache = (F) dlsym (RTLD_NEXT, n); }
    return cache;
}
static i64 ret (i64 r)
{
    if (r < 0) { errno = int (-r); return -1; }
    return r;
}
static ssize_t fck_read (void *c, char *b, size_t n)
{
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    return p ? ret (fd_read (*p, int (intptr_t (c)), b, n, false)) : 0;
}
static ssize_t fck_write (void *c, const char *b, size_t n)
{
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    if (!p) return 0;
    size_t done = 0;
    while (done < n)
    {
        const i64 r = fd_write (*p, int (intptr_t (c)), b + done, n - done, false);
        if (r < 0) { errno = int (-r); break; }
        done += r;
    }
    return done;
}
static int fck_seek (void *c, off64_t *o, int wh)
{
    HostScope hs;
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    OfdP f = p ? fd_get (*p, int (intptr_t (c))) : nullptr;
    if (!f) { errno = EBADF; return -1; }
    const i64 r = f->seek (*o, wh);
    if (r < 0) { errno = int (-r); return -1; }
    *o = r;
    return 0;
}
static int fck_close (void *c)
{
    Proc *p = tls.cur ? tls.cur->proc : nullptr;
    return p ? int (ret (fd_close (*p, int (intptr_t (c))))) : 0;
}
static void fill_stat (OfdP o, InodeP ino, struct stat *st)
{
    memset (st, 0, sizeof *st);
    st->st_blksize = 4096;
    st->st_nlink = 1;
    if (!ino && o && o->is_reg ()) ino = static_cast<RegOfd *> (o.get ())->ino;
    if (ino)
    {
        st->st_mode = ino->is_dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
        st->st_size = ino->data.size ();
        st->st_ino = hash_bytes (ino->path) | 1;
        st->st_dev = 7;
    }
    else st->st_mode = S_IFIFO | 0600;
}
static InodeP lookup (const char *path)
{
    std::string q = path ? path : "";
    while (q.compare (0, 2, "./") == 0) q.erase (0, 2);
    while (q.size () > 1 && q.back () == '/') q.pop_back ();
    if (q.empty () || q == "." || q == "/" || q == "/tmp" || q == "/dev")
    {
        auto i = std::make_shared<Inode> ();
        i->is_dir = true;
        return i;
    }
    auto i = W->fs.files.find (q);
    return i == W->fs.files.end () ? nullptr : i->second;
}
static int do_stat (const char *path, struct stat *st)
{
    HostScope hs;
    sys_event (15, hash_bytes (path ? path : ""));
    auto e = W->fs.open_errno.find (path ? path : "");
    InodeP i = lookup (path);
    if (!i) { errno = ENOENT; return -1; }
    (void) e;
    fill_stat (nullptr, i, st);
    return 0;
}
static int mode_flags (const char *m)
{
    int f = 0;
    switch (m[0])
    {
        case 'r': f = O_RDONLY; break;
        case 'w': f = O_WRONLY | O_CREAT | O_TRUNC; break;
        case 'a': f = O_WRONLY | O_CREAT | O_APPEND; break;
        default: return -1;
    }
    for (const char *c = m + 1; *c; ++c)
    {
        if (*c == '+') f = (f & ~O_ACCMODE) | O_RDWR;
        if (*c == 'x') f |= O_EXCL;
        if (*c == ',') break;
    }
    return f;
}
static FILE *wrap_fd (int fd, const char *mode)
{
    HostScope hs;
    const bool wr = mode[0] != 'r' || strchr (mode, '+');
    const bool rd = mode[0] == 'r' || strchr (mode, '+');
    cookie_io_functions_t fn {rd ? fck_read : nullptr, wr ? fck_write : nullptr, fck_seek, fck_close};
    FILE *f = fopencookie ((void *) (intptr_t) fd, mode, fn);
    if (f)
    {
        fsetlocking_off (f);
        file_fd[f] = fd;
    }
    return f;
}
static FILE *do_fopen (const char *path, const char *mode)
{
    Proc *p = app ();
    const int fl = mode_flags (mode);
    if (fl < 0) { errno = EINVAL; return nullptr; }
    const int fd = fs_open (*p, path, fl);
    if (fd < 0) { errno = -fd; return nullptr; }
    return wrap_fd (fd, mode);
}
static u64 clock_of (int id)
{
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) return W->now + W->wall_offset;
    return W->now + 5000000000ull;
}
// sources of entropy: vary with the simulated environment, never with the seed of the workload
static u64 entropy () { HostScope hs; note ("env.entropy_read"); return mix (W->entropy, mix (tls.cur->proc->id, ++tls.cur->proc->impl->rnd)); }
}

extern "C" {
// ------------------------------------------------------------ files
FILE *fopen64 (const char *path, const char *mode)
{
    static FILE *(*r) (const char *, const char *);
    return app () ? do_fopen (path, mode) : real ("fopen64", r) (path, mode);
}
FILE *fopen (const char *path, const char *mode)
{
    static FILE *(*r) (const char *, const char *);
    return app () ? do_fopen (path, mode) : real ("fopen", r) (path, mode);
}
FILE *fdopen (int fd, const char *mode) noexcept
{
    static FILE *(*r) (int, const char *);
    return app () ? wrap_fd (fd, mode) : real ("fdopen", r) (fd, mode);
}
int fclose (FILE *f)
{
    static int (*r) (FILE *);
    if (app ())
    {
        HostScope hs;
        file_fd.erase (f);
    }
    return real ("fclose", r) (f);
}
int fileno (FILE *f) noexcept
{
    static int (*r) (FILE *);
    if (Proc *p = app ())
    {
        HostScope hs;
        auto i = file_fd.find (f);
        if (i != file_fd.end ()) return i->second;
        if (f == p->impl->fin) return 0;
        if (f == p->impl->fout) return 1;
        if (f == p->impl->ferr) return 2;
    }
    return real ("fileno", r) (f);
}
static int app_open (const char *path, int flags) { return int (ret (fs_open (*app (), path, flags))); }
int open (const char *path, int flags, ...)
{
    va_list ap;
    va_start (ap, flags);
    const int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg (ap, int) : 0;
    va_end (ap);
    return app () ? app_open (path, flags) : int (syscall (SYS_openat, AT_FDCWD, path, flags, m));
}
int open64 (const char *path, int flags, ...)
{
    va_list ap;
    va_start (ap, flags);
    const int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg (ap, int) : 0;
    va_end (ap);
    return app () ? app_open (path, flags) : int (syscall (SYS_openat, AT_FDCWD, path, flags, m));
}
int openat (int d, const char *path, int flags, ...)
{
    va_list ap;
    va_start (ap, flags);
    const int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg (ap, int) : 0;
    va_end (ap);
    return app () ? app_open (path, flags) : int (syscall (SYS_openat, d, path, flags, m));
}
int creat (const char *path, mode_t m) { return open (path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close (int fd) { return app () ? int (ret (fd_close (*app (), fd))) : int (syscall (SYS_close, fd)); }
ssize_t read (int fd, void *b, size_t n) { return app () ? ret (fd_read (*app (), fd, b, n, true)) : syscall (SYS_read, fd, b, n); }
ssize_t write (int fd, const void *b, size_t n) { return app () ? ret (fd_write (*app (), fd, b, n, true)) : syscall (SYS_write, fd, b, n); }
ssize_t readv (int fd, const struct iovec *v, int c)
{
    if (!app ()) return syscall (SYS_readv, fd, v, c);
    for (int i = 0; i < c; ++i)
        if (v[i].iov_len) return read (fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev (int fd, const struct iovec *v, int c)
{
    if (!app ()) return syscall (SYS_writev, fd, v, c);
    HostScope hs;
    Bytes b;
    for (int i = 0; i < c; ++i) b.append (static_cast<const char *> (v[i].iov_base), v[i].iov_len);
    return ret (fd_write (*tls.cur->proc, fd, b.data (), b.size (), true));
}
ssize_t pread64 (int fd, void *b, size_t n, off64_t o)
{
    if (!app ()) return syscall (SYS_pread64, fd, b, n, o);
    errno = ESPIPE;
    return -1;
}
off64_t lseek64 (int fd, off64_t o, int wh) noexcept
{
    Proc *p = app ();
    if (!p) return syscall (SYS_lseek, fd, o, wh);
    HostScope hs;
    OfdP f = fd_get (*p, fd);
    return f ? ret (f->seek (o, wh)) : ret (-EBADF);
}
off_t lseek (int fd, off_t o, int wh) noexcept { return lseek64 (fd, o, wh); }
int fstat (int fd, struct stat *st) noexcept
{
    Proc *p = app ();
    if (!p) return int (syscall (SYS_newfstatat, fd, "", st, AT_EMPTY_PATH));
    HostScope hs;
    OfdP f = fd_get (*p, fd);
    if (!f) { errno = EBADF; return -1; }
    fill_stat (f, nullptr, st);
    return 0;
}
int fstat64 (int fd, struct stat64 *st) noexcept { return fstat (fd, (struct stat *) st); }
int stat (const char *path, struct stat *st) noexcept { return app () ? do_stat (path, st) : int (syscall (SYS_newfstatat, AT_FDCWD, path, st, 0)); }
int stat64 (const char *path, struct stat64 *st) noexcept { return stat (path, (struct stat *) st); }
int lstat (const char *path, struct stat *st) noexcept { return app () ? do_stat (path, st) : int (syscall (SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW)); }
int lstat64 (const char *path, struct stat64 *st) noexcept { return lstat (path, (struct stat *) st); }
int fstatat (int d, const char *path, struct stat *st, int fl) noexcept
{
    if (!app ()) return int (syscall (SYS_newfstatat, d, path, st, fl));
    return path && *path ? do_stat (path, st) : fstat (d, st);
}
int fstatat64 (int d, const char *path, struct stat64 *st, int fl) noexcept { return fstatat (d, path, (struct stat *) st, fl); }
int access (const char *path, int m) noexcept
{
    if (!app ()) return int (syscall (SYS_access, path, m));
    struct stat st;
    return do_stat (path, &st);
}
int unlink (const char *path) noexcept
{
    if (!app ()) return int (syscall (SYS_unlink, path));
    HostScope hs;
    sys_event (16, hash_bytes (path));
    InodeP i = lookup (path);
    if (!i) { errno = ENOENT; return -1; }
    W->fs.files.erase (i->path);
    ++i->mods;
    return 0;
}
int unlinkat (int d, const char *path, int fl) noexcept { return app () ? unlink (path) : int (syscall (SYS_unlinkat, d, path, fl)); }
int remove (const char *path) noexcept
{
    static int (*r) (const char *);
    return app () ? unlink (path) : real ("remove", r) (path);
}
int rename (const char *a, const char *b) noexcept
{
    if (!app ()) return int (syscall (SYS_rename, a, b));
    HostScope hs;
    sys_event (17, hash_bytes (a), hash_bytes (b));
    InodeP i = lookup (a);
    if (!i) { errno = ENOENT; return -1; }
    std::string q = b;
    while (q.compare (0, 2, "./") == 0) q.erase (0, 2);
    auto o = W->fs.files.find (q);
    if (o != W->fs.files.end () && o->second != i) ++o->second->mods;
    W->fs.files.erase (i->path);
    i->path = q;
    W->fs.files[q] = i;
    return 0;
}
int link (const char *a, const char *b) noexcept
{
    if (!app ()) return int (syscall (SYS_link, a, b));
    HostScope hs;
    sys_event (17, hash_bytes (a), hash_bytes (b));
    InodeP i = lookup (a);
    if (!i) { errno = ENOENT; return -1; }
    if (lookup (b)) { errno = EEXIST; return -1; }
    W->fs.files[b] = i;
    return 0;
}
int mkdir (const char *path, mode_t m) noexcept
{
    if (!app ()) return int (syscall (SYS_mkdir, path, m));
    HostScope hs;
    sys_event (3, hash_bytes (path));
    if (lookup (path)) { errno = EEXIST; return -1; }
    W->fs.put (path, "")->is_dir = true;
    return 0;
}
int ftruncate64 (int fd, off64_t n) noexcept
{
    Proc *p = app ();
    if (!p) return int (syscall (SYS_ftruncate, fd, n));
    HostScope hs;
    OfdP f = fd_get (*p, fd);
    if (!f || !f->is_reg ()) { errno = EINVAL; return -1; }
    auto i = static_cast<RegOfd *> (f.get ())->ino;
    i->data.resize (n);
    ++i->mods;
    return 0;
}
int ftruncate (int fd, off_t n) noexcept { return ftruncate64 (fd, n); }
int truncate64 (const char *path, off64_t n) noexcept
{
    if (!app ()) return int (syscall (SYS_truncate, path, n));
    HostScope hs;
    InodeP i = lookup (path);
    if (!i) { errno = ENOENT; return -1; }
    i->data.resize (n);
    ++i->mods;
    return 0;
}
int truncate (const char *path, off_t n) noexcept { return truncate64 (path, n); }
int fsync (int fd) { if (app ()) { sys_event (4, fd); return 0; } return int (syscall (SYS_fsync, fd)); }
int fdatasync (int fd) { if (app ()) { sys_event (4, fd); return 0; } return int (syscall (SYS_fdatasync, fd)); }
int isatty (int fd) noexcept
{
    static int (*r) (int);
    if (app ()) { errno = ENOTTY; return 0; }
    return real ("isatty", r) (fd);
}
int ioctl (int fd, unsigned long rq, ...) noexcept
{
    va_list ap;
    va_start (ap, rq);
    void *a = va_arg (ap, void *);
    va_end (ap);
    Proc *p = app ();
    if (!p) return int (syscall (SYS_ioctl, fd, rq, a));
    HostScope hs;
    OfdP o = fd_get (*p, fd);
    if (!o) { errno = EBADF; return -1; }
    if (rq == FIONREAD)
    {
        i64 n = 0;
        if (o->is_reg ()) { auto q = static_cast<RegOfd *> (o.get ()); n = i64 (q->ino->data.size ()) - i64 (q->pos); }
        *static_cast<int *> (a) = int (std::max<i64> (0, std::min<i64> (n, INT32_MAX)));
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int poll (struct pollfd *f, nfds_t n, int t)
{
    if (!app ()) return int (syscall (SYS_poll, f, n, t));
    for (nfds_t i = 0; i < n; ++i) f[i].revents = f[i].events;
    return int (n);
}
int fcntl64 (int fd, int cmd, ...)
{
    va_list ap;
    va_start (ap, cmd);
    long a = va_arg (ap, long);
    va_end (ap);
    if (!app ()) return int (syscall (SYS_fcntl, fd, cmd, a));
    if (cmd == F_GETFL) { HostScope hs; OfdP o = fd_get (*tls.cur->proc, fd); return o && o->is_reg () ? static_cast<RegOfd *> (o.get ())->flags : O_RDWR; }
    return 0;
}
int fcntl (int fd, int cmd, ...)
{
    va_list ap;
    va_start (ap, cmd);
    long a = va_arg (ap, long);
    va_end (ap);
    return fcntl64 (fd, cmd, a);
}
// ------------------------------------------------------------ time and entropy
int clock_gettime (clockid_t id, struct timespec *ts) noexcept
{
    if (!app ()) return int (syscall (SYS_clock_gettime, id, ts));
    sys_event (20, id);
    const u64 t = clock_of (id);
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday (struct timeval *tv, void *) noexcept
{
    if (!app ()) return int (syscall (SYS_gettimeofday, tv, nullptr));
    const u64 t = clock_of (CLOCK_REALTIME);
    tv->tv_sec = t / 1000000000ull;
    tv->tv_usec = t % 1000000000ull / 1000;
    return 0;
}
time_t time (time_t *p) noexcept
{
    time_t t;
    if (!app ()) { struct timespec ts; syscall (SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    else t = clock_of (CLOCK_REALTIME) / 1000000000ull;
    if (p) *p = t;
    return t;
}
clock_t clock () noexcept { return app () ? clock_t (W->now / 1000) : clock_t (0); }
int nanosleep (const struct timespec *d, struct timespec *rem)
{
    if (!app ()) return int (syscall (SYS_nanosleep, d, rem));
    sleep_ns (u64 (d->tv_sec) * 1000000000ull + d->tv_nsec);
    return 0;
}
int clock_nanosleep (clockid_t id, int fl, const struct timespec *d, struct timespec *rem)
{
    if (!app ()) return int (syscall (SYS_clock_nanosleep, id, fl, d, rem));
    u64 t = u64 (d->tv_sec) * 1000000000ull + d->tv_nsec;
    if (fl & TIMER_ABSTIME) { const u64 n = clock_of (id); t = t > n ? t - n : 0; }
    sleep_ns (t);
    return 0;
}
int usleep (useconds_t u) { if (app ()) { sleep_ns (u64 (u) * 1000); return 0; } struct timespec t {u / 1000000, long (u % 1000000) * 1000}; return nanosleep (&t, nullptr); }
unsigned sleep (unsigned s) { if (app ()) { sleep_ns (u64 (s) * 1000000000ull); return 0; } struct timespec t {s, 0}; nanosleep (&t, nullptr); return 0; }
int sched_yield () noexcept { if (app ()) { sys_event (11, 0); return 0; } return int (syscall (SYS_sched_yield)); }
ssize_t getrandom (void *b, size_t n, unsigned fl)
{
    if (!app ()) return syscall (SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; ++i) static_cast<u8 *> (b)[i] = u8 (entropy ());
    return n;
}
int getentropy (void *b, size_t n) { return getrandom (b, n, 0) < 0 ? -1 : 0; }
uint32_t arc4random () noexcept { if (app ()) return u32 (entropy ()); u32 v; syscall (SYS_getrandom, &v, 4, 0); return v; }
pid_t getpid () noexcept { return app () ? pid_t (tls.cur->proc->spec.pid) : pid_t (syscall (SYS_getpid)); }
// ------------------------------------------------------------ ends of a process
void exit (int rc) noexcept
{
    static void (*r) (int);
    if (app ()) proc_exit_from_app (rc, true);
    real ("exit", r) (rc);
    __builtin_unreachable ();
}
void _exit (int rc)
{
    if (app ()) proc_exit_from_app (rc, false);
    syscall (SYS_exit_group, rc);
    __builtin_unreachable ();
}
void _Exit (int rc) noexcept { _exit (rc); }
void quick_exit (int rc) noexcept { if (app ()) proc_exit_from_app (rc, false); _exit (rc); }
void abort () noexcept
{
    if (app ()) proc_signal_from_app (SIGABRT, "abort");
    static void (*r) ();
    real ("abort", r) ();
    __builtin_unreachable ();
}
void __assert_fail (const char *e, const char *f, unsigned l, const char *) noexcept
{
    if (app ()) proc_signal_from_app (SIGABRT, std::string ("assertion ") + e);
    fprintf (stderr, "assert %s %s:%u\n", e, f, l);
    _exit (95);
}
int raise (int sig) noexcept
{
    if (app ()) proc_signal_from_app (sig, "raise");
    static int (*r) (int);
    return real ("raise", r) (sig);
}
typedef void (*handler_t) (int);
handler_t signal (int sig, handler_t h) noexcept
{
    if (Proc *p = app ())
    {
        if (sig == SIGPIPE) p->spec.ignore_sigpipe = h == SIG_IGN;
        return SIG_DFL;
    }
    static handler_t (*r) (int, handler_t);
    return real ("signal", r) (sig, h);
}
int sigaction (int sig, const struct sigaction *a, struct sigaction *o) noexcept
{
    if (Proc *p = app ())
    {
        if (o) memset (o, 0, sizeof *o);
        if (a && sig == SIGPIPE) p->spec.ignore_sigpipe = a->sa_handler == SIG_IGN;
        return 0;
    }
    static int (*r) (int, const struct sigaction *, struct sigaction *);
    return real ("sigaction", r) (sig, a, o);
}
// ------------------------------------------------------------ zlib
static voidpf z_alloc (voidpf, uInt n, uInt m)
{
    const size_t sz = size_t (n) * m;
    if (alloc_should_fail (sz, 2)) return Z_NULL;
    Proc *p = app ();
    HostScope hs;
    u64 *h = static_cast<u64 *> (calloc (1, sz + 16));
    h[0] = reinterpret_cast<u64> (p);
    h[1] = sz;
    if (p) p->zlive += sz;
    return h + 2;
}
static void z_free (voidpf, voidpf v)
{
    u64 *h = static_cast<u64 *> (v) - 2;
    if (h[0]) reinterpret_cast<Proc *> (h[0])->zlive -= h[1];
    free (h);
}
int deflateInit_ (z_streamp s, int level, const char *v, int sz)
{
    static int (*r) (z_streamp, int, const char *, int);
    if (app () && !s->zalloc) { s->zalloc = z_alloc; s->zfree = z_free; }
    return real ("deflateInit_", r) (s, level, v, sz);
}
int deflateInit2_ (z_streamp s, int l, int m, int w, int mem, int st, const char *v, int sz)
{
    static int (*r) (z_streamp, int, int, int, int, int, const char *, int);
    if (app () && !s->zalloc) { s->zalloc = z_alloc; s->zfree = z_free; }
    return real ("deflateInit2_", r) (s, l, m, w, mem, st, v, sz);
}
int inflateInit_ (z_streamp s, const char *v, int sz)
{
    static int (*r) (z_streamp, const char *, int);
    if (app () && !s->zalloc) { s->zalloc = z_alloc; s->zfree = z_free; }
    return real ("inflateInit_", r) (s, v, sz);
}
int inflateInit2_ (z_streamp s, int w, const char *v, int sz)
{
    static int (*r) (z_streamp, int, const char *, int);
    if (app () && !s->zalloc) { s->zalloc = z_alloc; s->zfree = z_free; }
    return real ("inflateInit2_", r) (s, w, v, sz);
}
// ------------------------------------------------------------ locks, threads
int pthread_mutex_trylock (pthread_mutex_t *) noexcept;
int pthread_mutex_lock (pthread_mutex_t *m) noexcept
{
    static int (*r) (pthread_mutex_t *);
    if (!tls.in_app || !tls.cur) return real ("pthread_mutex_lock", r) (m);
    const int e = pthread_mutex_trylock (m);
    if (e != EBUSY) return e;
    block ("mutex", [m] { if (pthread_mutex_trylock (m) != 0) return false; pthread_mutex_unlock (m); return true; });
    return pthread_mutex_trylock (m);
}
static std::unordered_map<pthread_cond_t *, u64> cond_sig; // generation, broadcast
int pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m)
{
    static int (*r) (pthread_cond_t *, pthread_mutex_t *);
    if (!tls.in_app || !tls.cur) return real ("pthread_cond_wait", r) (c, m);
    u64 g;
    { HostScope hs; g = cond_sig[c]; }
    pthread_mutex_unlock (m);
    block ("cond", [c, g] { return cond_sig[c] != g; });
    return pthread_mutex_lock (m);
}
int pthread_cond_signal (pthread_cond_t *c) noexcept
{
    static int (*r) (pthread_cond_t *);
    if (!tls.in_app) return real ("pthread_cond_signal", r) (c);
    HostScope hs; // a signal may wake several waiters (spurious wake-ups are legal)
    ++cond_sig[c];
    return 0;
}
int pthread_cond_broadcast (pthread_cond_t *c) noexcept
{
    static int (*r) (pthread_cond_t *);
    if (!tls.in_app) return real ("pthread_cond_broadcast", r) (c);
    HostScope hs;
    ++cond_sig[c];
    return 0;
}
struct FakeThread { Thread *t; bool done = false; void *ret = nullptr; };
static std::map<pthread_t, std::shared_ptr<FakeThread>> fakes;
int pthread_create (pthread_t *pt, const pthread_attr_t *a, void *(*f) (void *), void *arg)
{
    static int (*r) (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
    Proc *p = app ();
    if (!p) return real ("pthread_create", r) (pt, a, f, arg);
    HostScope hs;
    static u64 next = 1;
    auto k = std::make_shared<FakeThread> ();
    *pt = 0x5100000000 + next++;
    fakes[*pt] = k;
    k->t = new_thread (p, [k, f, arg] {
        if (W->p_preempt > 0) tls.cur->preempt_left = 1 + long (skew ("slice", W->preempt_gap));
        tls.in_app = true;
        k->ret = f (arg);
        tls.in_app = false;
        k->done = true;
    });
    if (W->p_preempt > 0 && tls.cur->preempt_left < 0) tls.cur->preempt_left = 1 + long (skew ("slice", W->preempt_gap));
    yield ("thread");
    return 0;
}
int pthread_join (pthread_t t, void **ret)
{
    static int (*r) (pthread_t, void **);
    if (!app ()) return real ("pthread_join", r) (t, ret);
    HostScope hs;
    auto i = fakes.find (t);
    if (i == fakes.end ()) return ESRCH;
    auto k = i->second;
    block ("join", [k] { return k->done; });
    if (ret) *ret = k->ret;
    return 0;
}
int pthread_detach (pthread_t t) noexcept
{
    static int (*r) (pthread_t);
    return app () ? 0 : real ("pthread_detach", r) (t);
}
// one-time initialisation of function statics
int __cxa_guard_acquire (u64 *g)
{
    u8 *b = reinterpret_cast<u8 *> (g);
    for (;;)
    {
        if (__atomic_load_n (b, __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (tls.cur && tls.in_app)
            block ("guard", [b] { return b[0] || !b[1]; });
    }
}
void __cxa_guard_release (u64 *g) { u8 *b = reinterpret_cast<u8 *> (g); b[1] = 0; __atomic_store_n (b, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort (u64 *g) { reinterpret_cast<u8 *> (g)[1] = 0; }
} // extern "C"

// entropy source of <random>
void std::random_device::_M_init (const std::string &) {}
void std::random_device::_M_fini () {}
std::random_device::result_type std::random_device::_M_getval () { return app () ? unsigned (sim::entropy ()) : 4u; }
