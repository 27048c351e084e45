/* LD_PRELOAD shim: counts the file operations of this process under a
   directory and fails, or dies at, the n-th.

   vk_arm(dir, n, mode): mode 0 count only, 1 die before the operation,
   2 die after doing it (for writes: after doing half of it), 3 fail it once
   with ENOSPC, 4 fail it and all later writes with ENOSPC, 5 interrupt
   (SIGINT) before it, 6 short write of half, then ENOSPC.
   vk_disarm, vk_resume: not counting meanwhile; vk_ops(): operations so
   far, vk_log(): their names, vk_tripped(): whether the fault happened.  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static int armed, target, mode, ops, tripped;
static char log_[65536];
static int loglen;

void vk_arm(const char *d, int n, int m)
{
    strncpy(dir, d, sizeof dir - 1);
    target = n; mode = m; ops = 0; tripped = 0; loglen = 0; armed = 1;
}
void vk_disarm(void) { armed = 0; }
void vk_resume(void) { armed = 1; }
int vk_ops(void) { return ops; }
int vk_tripped(void) { return tripped; }
const char *vk_log(void) { log_[loglen] = 0; return log_; }

#define REAL(name) static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int under(int dfd, const char *path)
{
    char full[PATH_MAX * 2], base[PATH_MAX];
    size_t n = strlen(dir);
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
            ssize_t k = readlink(link, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        snprintf(full, sizeof full, "%s/%s", base, path);
        path = full;
    }
    return strncmp(path, dir, n) == 0 && path[n] == '/';
}
static int fd_under(int fd)
{
    char link[64], p[PATH_MAX];
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, p, sizeof p - 1);
    if (k <= 0) return 0;
    p[k] = 0;
    return under(AT_FDCWD, p);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* What to do with this operation: 0 do it, 1 fail it, 2 do it and die,
   3 do half of it and fail later. */
static int step(const char *what)
{
    ops++;
    if (loglen + 24 < (int)sizeof log_)
        loglen += snprintf(log_ + loglen, 24, "%s ", what);
    if (mode == 4 && tripped) return 1;
    if (mode == 6 && tripped == 1) { tripped = 2; return 1; }
    if (ops != target) return 0;
    tripped = 1;
    switch (mode) {
    case 1: die();
    case 2: return 2;
    case 3: return 1;
    case 4: return 1;
    case 5: raise(SIGINT); return 0;
    case 6: return 3;
    }
    return 0;
}
#define OP(what, call, failure) do { \
    int s_ = step(what); \
    if (s_ == 1) { errno = ENOSPC; return failure; } \
    if (s_ == 2) { (void)!(call); die(); } \
    return call; } while (0)

static int writing(int flags)
{
    return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
}
#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
    static int (*real)(const char *, int, ...); \
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); \
    if (!writing(flags) || !under(AT_FDCWD, path)) return real(path, flags, m); \
    OP("open", real(path, flags, m), -1); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) \
{ \
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); \
    static int (*real)(int, const char *, int, ...); \
    if (!real) real = (int (*)(int, const char *, int, ...))dlsym(RTLD_NEXT, #name); \
    if (!writing(flags) || !under(d, path)) return real(d, path, flags, m); \
    OP("open", real(d, path, flags, m), -1); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (!fd_under(fd)) return real(fd, buf, n);
    int s = step("write");
    if (s == 1) { errno = ENOSPC; return -1; }
    if (s == 2) { (void)!real(fd, buf, n / 2); die(); }
    if (s == 3) return real(fd, buf, n > 1 ? n / 2 : n);
    return real(fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o)
{
    REAL(pwrite64);
    if (!fd_under(fd)) return real(fd, buf, n, o);
    OP("pwrite", real(fd, buf, n, o), -1);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    REAL(pwrite);
    if (!fd_under(fd)) return real(fd, buf, n, o);
    OP("pwrite", real(fd, buf, n, o), -1);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(writev);
    if (!fd_under(fd)) return real(fd, v, n);
    OP("writev", real(fd, v, n), -1);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(sendfile);
    if (!fd_under(o)) return real(o, i, off, n);
    OP("sendfile", real(o, i, off, n), -1);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    REAL(sendfile64);
    if (!fd_under(o)) return real(o, i, off, n);
    OP("sendfile", real(o, i, off, n), -1);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n,
                        unsigned f)
{
    REAL(copy_file_range);
    if (!fd_under(o)) return real(i, io, o, oo, n, f);
    OP("copy", real(i, io, o, oo, n, f), -1);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    if (!fd_under(fd)) return real(fd, n);
    OP("truncate", real(fd, n), -1);
}
int ftruncate(int fd, off_t n)
{
    REAL(ftruncate);
    if (!fd_under(fd)) return real(fd, n);
    OP("truncate", real(fd, n), -1);
}
int close(int fd)
{
    REAL(close);
    if (!fd_under(fd)) return real(fd);
    int s = step("close");
    if (s == 1) { real(fd); errno = EIO; return -1; }
    if (s == 2) { real(fd); die(); }
    return real(fd);
}
int fsync(int fd)
{
    REAL(fsync);
    if (!fd_under(fd)) return real(fd);
    OP("fsync", real(fd), -1);
}
int rename(const char *a, const char *b)
{
    REAL(rename);
    if (!under(AT_FDCWD, a) && !under(AT_FDCWD, b)) return real(a, b);
    OP("rename", real(a, b), -1);
}
int renameat(int c, const char *a, int d, const char *b)
{
    REAL(renameat);
    if (!under(c, a) && !under(d, b)) return real(c, a, d, b);
    OP("rename", real(c, a, d, b), -1);
}
int unlink(const char *a)
{
    REAL(unlink);
    if (!under(AT_FDCWD, a)) return real(a);
    OP("unlink", real(a), -1);
}
int unlinkat(int d, const char *a, int f)
{
    REAL(unlinkat);
    if (!under(d, a)) return real(d, a, f);
    OP("unlink", real(d, a, f), -1);
}
int link(const char *a, const char *b)
{
    REAL(link);
    if (!under(AT_FDCWD, b)) return real(a, b);
    OP("link", real(a, b), -1);
}
int symlink(const char *a, const char *b)
{
    REAL(symlink);
    if (!under(AT_FDCWD, b)) return real(a, b);
    OP("symlink", real(a, b), -1);
}
int chmod(const char *a, mode_t m)
{
    REAL(chmod);
    if (!under(AT_FDCWD, a)) return real(a, m);
    OP("chmod", real(a, m), -1);
}
