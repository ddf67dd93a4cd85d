/* Interposes the file operations of libc.
 *
 * After shim_attach() every operation on a file below the watched prefix is
 * announced on a pipe and waits for a verdict, so that the explorer decides
 * when it happens (scheduling), whether the process dies before it or in the
 * middle of a write (crash) and whether it fails (fault).
 *
 * request:  OP <tab> FD <tab> INO <tab> LEN <tab> FLAGS <tab> PATH <tab> PATH2 <nl>
 * verdict:  g          perform the operation
 *           k          die before the operation
 *           w<n>       write only n bytes, then die
 *           s<n>       write only n bytes and return n (short write)
 *           e<errno>   fail
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int on = 0, wfd = -1, rfd = -1;
static char prefix[PATH_MAX];
static size_t plen = 0;
static char *fdpath[1024];

#define REAL(name) \
    static __typeof__(name) *real_##name; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);

void shim_attach(int w, int r, const char *p)
{
    wfd = w; rfd = r;
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    on = 1;
}

static int ask(const char *op, int fd, long len, int flags, const char *p,
               const char *p2, long *arg);

/* the process waits for others (sleep) */
void shim_yield(void) { long a; if (on) ask("blocked", -1, 0, 0, "", "", &a); }

void shim_detach(void) { on = 0; }

static int under(const char *p)
{
    return p && plen && strncmp(p, prefix, plen) == 0 &&
           (p[plen] == '/' || p[plen] == 0);
}

/* absolute path of (dirfd, path), or NULL if not watched */
static const char *at(int dirfd, const char *path, char *buf)
{
    if (!on || !path) return NULL;
    if (path[0] == '/') return under(path) ? path : NULL;
    if (dirfd == AT_FDCWD) {
        if (!getcwd(buf, PATH_MAX)) return NULL;
    } else {
        if (dirfd < 0 || dirfd >= 1024 || !fdpath[dirfd]) return NULL;
        strncpy(buf, fdpath[dirfd], PATH_MAX - 1);
    }
    strncat(buf, "/", PATH_MAX - strlen(buf) - 1);
    strncat(buf, path, PATH_MAX - strlen(buf) - 1);
    return under(buf) ? buf : NULL;
}

static const char *fdw(int fd)
{
    return on && fd >= 0 && fd < 1024 ? fdpath[fd] : NULL;
}

static void track(int fd, const char *path)
{
    if (fd >= 0 && fd < 1024) {
        free(fdpath[fd]);
        fdpath[fd] = path ? strdup(path) : NULL;
    }
}

static void die(void)
{
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}

/* returns the verdict letter, its number in *arg */
static int ask(const char *op, int fd, long len, int flags, const char *p,
               const char *p2, long *arg)
{
    char buf[2 * PATH_MAX + 200], ans[64];
    unsigned long ino = 0;
    int n, e = errno;
    if (fd >= 0) {
        struct stat st;
        if (syscall(SYS_fstat, fd, &st) == 0) ino = st.st_ino;
    }
    n = snprintf(buf, sizeof buf, "%s\t%d\t%lu\t%ld\t%d\t%s\t%s\n", op, fd,
                 ino, len, flags, p ? p : "", p2 ? p2 : "");
    if (syscall(SYS_write, wfd, buf, n) != n) die();
    n = 0;
    for (;;) {
        long k = syscall(SYS_read, rfd, ans + n, 1);
        if (k <= 0) die();
        if (ans[n] == '\n') break;
        if (n < 60) n++;
    }
    ans[n] = 0;
    *arg = atol(ans + 1);
    errno = e;
    if (ans[0] == 'k') die();
    return ans[0];
}

#define ASK(op, fd, len, flags, p, p2, fail) do { \
    long arg_; \
    if (ask(op, fd, len, flags, p, p2, &arg_) == 'e') { \
        errno = (int)arg_; return fail; } } while (0)

static int do_open(const char *op, int dirfd, const char *path, int flags,
                   mode_t mode)
{
    char buf[PATH_MAX] = "";
    const char *p = at(dirfd, path, buf);
    int fd;
    if (p) ASK(op, -1, 0, flags, p, NULL, -1);
    fd = syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
    if (fd >= 0 && on) track(fd, p);
    return fd;
}

#define GETMODE mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); \
        mode = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...)
{ GETMODE return do_open("open", AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...)
{ GETMODE return do_open("open", AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...)
{ GETMODE return do_open("open", d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...)
{ GETMODE return do_open("open", d, path, flags, mode); }

int close(int fd)
{
    REAL(close)
    const char *p = fdw(fd);
    if (p) {
        long a; int v = ask("close", fd, 0, 0, p, NULL, &a);
        track(fd, NULL);
        if (v == 'e') { real_close(fd); errno = (int)a; return -1; }
    }
    return real_close(fd);
}

#define WRITER(NAME, REALCALL) do { \
    const char *p = fdw(fd); \
    if (p) { \
        long a; int v = ask(NAME, fd, (long)n, 0, p, NULL, &a); \
        if (v == 'e') { errno = (int)a; return -1; } \
        if (v == 'w' || v == 's') n = (size_t)a < n ? (size_t)a : n; \
        if (v == 'w') { (void)!(REALCALL); die(); } \
    } \
    return REALCALL; } while (0)

ssize_t write(int fd, const void *b, size_t n)
{ WRITER("write", syscall(SYS_write, fd, b, n)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ WRITER("write", syscall(SYS_pwrite64, fd, b, n, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ WRITER("write", syscall(SYS_pwrite64, fd, b, n, o)); }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n)
{ WRITER("write", syscall(SYS_sendfile, fd, in, o, n)); }
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t n,
                        unsigned fl)
{ WRITER("write", syscall(SYS_copy_file_range, in, io, fd, oo, n, fl)); }
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    const char *p = fdw(fd);
    if (p) {
        size_t n = 0; int i;
        for (i = 0; i < cnt; i++) n += iov[i].iov_len;
        ASK("writev", fd, (long)n, 0, p, NULL, -1);
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

ssize_t read(int fd, void *b, size_t n)
{
    const char *p = fdw(fd);
    if (p) ASK("read", fd, (long)n, 0, p, NULL, -1);
    return syscall(SYS_read, fd, b, n);
}

#define PATHOP(OP, PATHARG, DIR, CALL) do { \
    char buf_[PATH_MAX] = ""; const char *p_ = at(DIR, PATHARG, buf_); \
    if (p_) ASK(OP, -1, 0, 0, p_, NULL, -1); \
    return CALL; } while (0)
#define PATHOP2(OP, D1, P1, D2, P2, CALL) do { \
    char b1_[PATH_MAX] = "", b2_[PATH_MAX] = ""; \
    const char *q1_ = at(D1, P1, b1_), *q2_ = at(D2, P2, b2_); \
    if (q1_ || q2_) ASK(OP, -1, 0, 0, q1_, q2_, -1); \
    return CALL; } while (0)

int mkdir(const char *p, mode_t m)
{ PATHOP("mkdir", p, AT_FDCWD, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m)
{ PATHOP("mkdir", p, d, syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p)
{ PATHOP("rmdir", p, AT_FDCWD, syscall(SYS_rmdir, p)); }
int unlink(const char *p)
{ PATHOP("unlink", p, AT_FDCWD, syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f)
{ PATHOP("unlink", p, d, syscall(SYS_unlinkat, d, p, f)); }
int remove(const char *p)
{ if (unlink(p) == 0) return 0; return errno == EISDIR ? rmdir(p) : -1; }
int truncate64(const char *p, off64_t n)
{ PATHOP("truncate", p, AT_FDCWD, syscall(SYS_truncate, p, n)); }
int chmod(const char *p, mode_t m)
{ PATHOP("chmod", p, AT_FDCWD, syscall(SYS_chmod, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f)
{ REAL(fchmodat) PATHOP("chmod", p, d, real_fchmodat(d, p, m, f)); }
int rename(const char *a, const char *b)
{ PATHOP2("rename", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_rename, a, b)); }
int renameat(int d, const char *a, int e, const char *b)
{ PATHOP2("rename", d, a, e, b, syscall(SYS_renameat, d, a, e, b)); }
int link(const char *a, const char *b)
{ PATHOP2("link", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_link, a, b)); }
int linkat(int d, const char *a, int e, const char *b, int f)
{ PATHOP2("link", d, a, e, b, syscall(SYS_linkat, d, a, e, b, f)); }
int symlink(const char *a, const char *b)
{ PATHOP2("symlink", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_symlink, a, b)); }
int access(const char *p, int m)
{ PATHOP("access", p, AT_FDCWD, syscall(SYS_access, p, m)); }
int faccessat(int d, const char *p, int m, int f)
{ REAL(faccessat) PATHOP("access", p, d, real_faccessat(d, p, m, f)); }
int stat64(const char *p, struct stat64 *st)
{ REAL(stat64) PATHOP("stat", p, AT_FDCWD, real_stat64(p, st)); }
int lstat64(const char *p, struct stat64 *st)
{ REAL(lstat64) PATHOP("stat", p, AT_FDCWD, real_lstat64(p, st)); }
int fstatat64(int d, const char *p, struct stat64 *st, int f)
{ REAL(fstatat64) PATHOP("stat", p, d, real_fstatat64(d, p, st, f)); }

#define FDOP(OP, CALL) do { const char *p_ = fdw(fd); \
    if (p_) ASK(OP, fd, 0, 0, p_, NULL, -1); return CALL; } while (0)
int fsync(int fd) { FDOP("fsync", syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { FDOP("fsync", syscall(SYS_fdatasync, fd)); }
int ftruncate64(int fd, off64_t n)
{ FDOP("truncate", syscall(SYS_ftruncate, fd, n)); }
int fchmod(int fd, mode_t m) { FDOP("chmod", syscall(SYS_fchmod, fd, m)); }

int dup(int fd)
{
    int r = syscall(SYS_dup, fd);
    if (on && r >= 0 && fd < 1024) track(r, fdpath[fd]);
    return r;
}
int dup2(int fd, int to)
{
    int r = syscall(SYS_dup2, fd, to);
    if (on && r >= 0 && fd != to && fd < 1024) track(r, fdpath[fd]);
    return r;
}

/* locks never block in the kernel: the explorer waits instead */
int flock(int fd, int op)
{
    const char *p = fdw(fd);
    int r;
    if (!p) return syscall(SYS_flock, fd, op);
    ASK("flock", fd, 0, op, p, NULL, -1);
    for (;;) {
        r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
        ASK("blocked", fd, 0, op, p, NULL, -1);
    }
}

int fcntl64(int fd, int cmd, ...)
{
    va_list ap; long arg; const char *p; int r;
    va_start(ap, cmd); arg = va_arg(ap, long); va_end(ap);
    p = fdw(fd);
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && p) {
        r = syscall(SYS_fcntl, fd, cmd, arg);
        if (r >= 0) track(r, p);
        return r;
    }
    if (!p || (cmd != F_SETLKW && cmd != F_SETLK && cmd != F_OFD_SETLKW))
        return syscall(SYS_fcntl, fd, cmd, arg);
    ASK("flock", fd, 0, cmd, p, NULL, -1);
    for (;;) {
        r = syscall(SYS_fcntl, fd,
                    cmd == F_SETLKW ? F_SETLK :
                    cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd, arg);
        if (r == 0 || (errno != EAGAIN && errno != EACCES) ||
            cmd == F_SETLK) return r;
        ASK("blocked", fd, 0, cmd, p, NULL, -1);
    }
}
