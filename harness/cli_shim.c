/* Linked into the command-line tools and their targets (C01): /dev/shm becomes the directory VP_SHM, and calls that
 * delete or rename something outside of it are only recorded in the file VP_LOG. */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *root(void) { const char *r = getenv("VP_SHM"); if (!r) { fputs("VP_SHM is not set\n", stderr); _exit(77); } return r; }
static const char *map_(const char *p, char *b)
{
    if (p && strncmp(p, "/dev/shm", 8) == 0 && (p[8] == '/' || p[8] == 0)) { snprintf(b, PATH_MAX, "%s%s", root(), p + 8); return b; }
    return p;
}
static const char *shmname(const char *n, char *b)
{
    if (*n == '/') n++;
    if (!*n || strchr(n, '/')) { errno = EINVAL; return NULL; }
    snprintf(b, PATH_MAX, "%s/%s", root(), n);
    return b;
}
static void record(const char *what, const char *p)
{
    const char *l = getenv("VP_LOG"); if (!l) return;
    int fd = open(l, O_WRONLY | O_APPEND | O_CREAT, 0600); char s[PATH_MAX + 64];
    int n = snprintf(s, sizeof s, "%s %s\n", what, p); if (fd >= 0) { if (write(fd, s, n) != n) {} close(fd); }
}
/* is the entry p (not what it points to) inside of the directory VP_SHM? */
static int inside(const char *p)
{
    char d[PATH_MAX], r[PATH_MAX], q[PATH_MAX];
    snprintf(d, sizeof d, "%s", p); char *s = strrchr(d, '/');
    if (!s) strcpy(d, "."); else if (s == d) s[1] = 0; else *s = 0;
    if (!realpath(d, r) || !realpath(root(), q)) return 0;
    size_t n = strlen(q);
    return strncmp(r, q, n) == 0 && (r[n] == 0 || r[n] == '/');
}
static int guard(const char *what, const char *p) { if (inside(p)) { record(what, p); return 1; } record("ESCAPE", p); errno = EACCES; return 0; }

int __wrap_shm_open(const char *n, int fl, mode_t m) { char b[PATH_MAX]; const char *p = shmname(n, b); return p ? open(p, fl | O_CLOEXEC | O_NOFOLLOW, m) : -1; }
int __wrap_shm_unlink(const char *n) { char b[PATH_MAX]; const char *p = shmname(n, b); if (!p) return -1; record("shm_unlink", p); return unlink(p); }
DIR *__real_opendir(const char *); DIR *__wrap_opendir(const char *p) { char b[PATH_MAX]; return __real_opendir(map_(p, b)); }
int __real_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));
int __wrap_scandir(const char *p, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { char b[PATH_MAX]; return __real_scandir(map_(p, b), l, f, c); }
int __real_chdir(const char *); int __wrap_chdir(const char *p) { char b[PATH_MAX]; return __real_chdir(map_(p, b)); }
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) { char b[PATH_MAX]; return __real_stat(map_(p, b), s); }
int __real_lstat(const char *, struct stat *); int __wrap_lstat(const char *p, struct stat *s) { char b[PATH_MAX]; return __real_lstat(map_(p, b), s); }
int __real_fstatat(int, const char *, struct stat *, int); int __wrap_fstatat(int d, const char *p, struct stat *s, int f) { char b[PATH_MAX]; return __real_fstatat(d, map_(p, b), s, f); }
int __real_access(const char *, int); int __wrap_access(const char *p, int m) { char b[PATH_MAX]; return __real_access(map_(p, b), m); }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int f, ...) { char b[PATH_MAX]; va_list a; va_start(a, f); mode_t m = f & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); return __real_open(map_(p, b), f, m); }
int __real_openat(int, const char *, int, ...); int __wrap_openat(int d, const char *p, int f, ...) { char b[PATH_MAX]; va_list a; va_start(a, f); mode_t m = f & (O_CREAT | __O_TMPFILE) ? va_arg(a, mode_t) : 0; va_end(a); return __real_openat(d, map_(p, b), f, m); }
int __real_truncate(const char *, off_t); int __wrap_truncate(const char *p, off_t o) { char b[PATH_MAX]; p = map_(p, b); return guard("truncate", p) ? __real_truncate(p, o) : -1; }
int __real_unlink(const char *); int __wrap_unlink(const char *p) { char b[PATH_MAX]; p = map_(p, b); return guard("unlink", p) ? __real_unlink(p) : -1; }
int __real_remove(const char *); int __wrap_remove(const char *p) { char b[PATH_MAX]; p = map_(p, b); return guard("remove", p) ? __real_remove(p) : -1; }
int __real_rmdir(const char *); int __wrap_rmdir(const char *p) { char b[PATH_MAX]; p = map_(p, b); return guard("rmdir", p) ? __real_rmdir(p) : -1; }
int __real_rename(const char *, const char *); int __wrap_rename(const char *p, const char *q) { char b[PATH_MAX], c[PATH_MAX]; p = map_(p, b); q = map_(q, c); return guard("rename", p) && guard("rename", q) ? __real_rename(p, q) : -1; }
int __real_unlinkat(int, const char *, int);
int __wrap_unlinkat(int d, const char *p, int f)
{
    char b[PATH_MAX], l[64], r[PATH_MAX]; p = map_(p, b);
    if (d != AT_FDCWD && *p != '/') { snprintf(l, sizeof l, "/proc/self/fd/%d", d); ssize_t n = readlink(l, r, sizeof r - 1); r[n > 0 ? n : 0] = 0; strncat(r, "/", sizeof r - strlen(r) - 1); strncat(r, p, sizeof r - strlen(r) - 1); if (!guard("unlinkat", r)) return -1; }
    else if (!guard("unlinkat", p)) return -1;
    return __real_unlinkat(d, p, f);
}
