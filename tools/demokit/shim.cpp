// Counts the calls that change files; at the chosen one the process dies at once, or the call fails.
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/stat.h>
volatile long kit_ops = 0, kit_crash_at = -1, kit_fail_at = -1; volatile bool kit_armed = false;
static bool op() { if (!kit_armed) return false; long n = __sync_fetch_and_add(&kit_ops, 1); if (n == kit_crash_at) _exit(77); return n == kit_fail_at; }
template<class F> static F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2 && op()) { errno = ENOSPC; return -1; } return real<ssize_t (*)(int, const void *, size_t)>("write")(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (fd > 2 && op()) { errno = ENOSPC; return -1; } return real<ssize_t (*)(int, const struct iovec *, int)>("writev")(fd, v, n); }
FILE *fopen(const char *f, const char *m) { if (strchr(m, 'w') || strchr(m, 'a')) if (op()) { errno = ENOSPC; return NULL; } return real<FILE *(*)(const char *, const char *)>("fopen")(f, m); }
FILE *fopen64(const char *f, const char *m) { if (strchr(m, 'w') || strchr(m, 'a')) if (op()) { errno = ENOSPC; return NULL; } return real<FILE *(*)(const char *, const char *)>("fopen64")(f, m); }
int rename(const char *a, const char *b) noexcept { if (op()) { errno = ENOSPC; return -1; } return real<int (*)(const char *, const char *)>("rename")(a, b); }
int mkdir(const char *a, mode_t m) noexcept { if (op()) { errno = ENOSPC; return -1; } return real<int (*)(const char *, mode_t)>("mkdir")(a, m); }
int truncate(const char *a, off_t n) noexcept { if (op()) { errno = ENOSPC; return -1; } return real<int (*)(const char *, off_t)>("truncate")(a, n); }
int unlink(const char *a) noexcept { if (op()) { errno = EIO; return -1; } return real<int (*)(const char *)>("unlink")(a); }
int remove(const char *a) noexcept { if (op()) { errno = EIO; return -1; } return real<int (*)(const char *)>("remove")(a); }
}
