/* Seam under the coverage tool: the system calls with which it lists
 * directories, reads files and writes its report. ADSHIM holds the schedule
 * of one simulated execution:
 *   order=N     seed of the order in which every directory lists its entries
 *   unknown=1   directory entries do not tell their type
 *   chunk=N     reads return at most N bytes (0: no limit), writes likewise
 *   f=OP:NTH:KIND:ARG   the NTH call of OP (from 0) fails with errno ARG (KIND
 *               e), is cut to ARG bytes (KIND s), or, for a directory, ends
 *               the list early without an error (not generated)
 * OP: D opendir, L readdir, O open, R read, W write, S stat.
 * ADSHIM_LOG names the file that receives every fault that took effect and
 * the totals. Only paths that start with "../" and standard output count. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 32
#define MAXD 256
static int on, unknown_types, logfd = -1;
static uint64_t order, chunk, history = 1469598103934665603ull;
static struct { char op; long nth; char kind; long arg; } fault[MAXF];
static int faults;
static long calls[128];
static char *ours[4096];
#define OURS(fd) ((fd) >= 0 && (fd) < 4096 ? ours[fd] : 0)

static void note(char op, long r) {
    history = (history ^ (uint64_t)op) * 1099511628211ull;
    history = (history ^ (uint64_t)r) * 1099511628211ull;
}

static void logline(const char *s, size_t n) {
    if (logfd >= 0) syscall(SYS_write, logfd, s, n);
}

__attribute__((constructor)) static void start(void) {
    const char *s = getenv("ADSHIM"), *l = getenv("ADSHIM_LOG");
    if (!s) return;
    on = 1;
    if (l) logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    char *c = strdup(s), *save = 0;
    for (char *t = strtok_r(c, " ", &save); t; t = strtok_r(0, " ", &save)) {
        if (!strncmp(t, "order=", 6)) order = strtoull(t + 6, 0, 10);
        else if (!strncmp(t, "unknown=", 8)) unknown_types = atoi(t + 8);
        else if (!strncmp(t, "chunk=", 6)) chunk = strtoull(t + 6, 0, 10);
        else if (!strncmp(t, "f=", 2) && faults < MAXF) {
            if (sscanf(t + 2, "%c:%ld:%c:%ld", &fault[faults].op, &fault[faults].nth, &fault[faults].kind,
                       &fault[faults].arg) == 4)
                faults++;
        }
    }
    free(c);
}

__attribute__((destructor)) static void finish(void) {
    if (!on) return;
    char b[256];
    int n = snprintf(b, sizeof b, "T D=%ld L=%ld O=%ld R=%ld W=%ld S=%ld h=%llu\n", calls['D'], calls['L'],
                     calls['O'], calls['R'], calls['W'], calls['S'], (unsigned long long)history);
    logline(b, (size_t)n);
}

/* The fault for this call of an operation, or -1. */
static int next(char op) {
    long k = calls[(int)op]++;
    note(op, k);
    for (int i = 0; i < faults; i++)
        if (fault[i].op == op && fault[i].nth == k) return i;
    return -1;
}

static int fired(int i, const char *path) {
    char b[1024];
    int n = snprintf(b, sizeof b, "F %c:%ld:%c:%ld %.900s\n", fault[i].op, fault[i].nth, fault[i].kind, fault[i].arg,
                     path ? path : "");
    logline(b, (size_t)n);
    note('F', i);
    return i;
}

#define REAL(f) ((typeof(&f))dlsym(RTLD_NEXT, #f))
static int tree(const char *p) { return on && p && !strncmp(p, "../", 3); }

/* Directories. */
struct list { DIR *d; char *p; struct dirent64 *e; size_t n, at; };
static struct list lists[MAXD];

static struct list *of(DIR *d) { /* of(0): a free one */
    for (int i = 0; i < MAXD; i++)
        if (lists[i].d == d) return &lists[i];
    return 0;
}

static int by_name(const void *a, const void *b) {
    return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}

static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

DIR *opendir(const char *p) {
    DIR *(*real)(const char *) = REAL(opendir);
    if (!tree(p)) return real(p);
    int f = next('D');
    if (f >= 0 && fault[f].kind == 'e') {
        errno = (int)fault[fired(f, p)].arg;
        return 0;
    }
    DIR *d = real(p);
    struct list *l = d ? of(0) : 0;
    if (!l) return d;
    l->d = d;
    l->p = strdup(p);
    l->n = l->at = 0;
    l->e = 0;
    struct dirent64 *(*rd)(DIR *) = REAL(readdir64);
    for (struct dirent64 *e; (e = rd(d));) {
        l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
        memset(&l->e[l->n], 0, sizeof *l->e);
        memcpy(&l->e[l->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        l->e[l->n].d_reclen = sizeof *e;
        if (unknown_types) l->e[l->n].d_type = DT_UNKNOWN;
        l->n++;
    }
    if (l->n) qsort(l->e, l->n, sizeof *l->e, by_name);
    uint64_t s = order;
    for (const char *c = p; *c; c++) s = mix(s ^ (uint64_t)*c);
    if (order)
        for (size_t i = l->n; i > 1; i--) {
            size_t j = (size_t)((s = mix(s)) % i);
            struct dirent64 t = l->e[i - 1];
            l->e[i - 1] = l->e[j];
            l->e[j] = t;
        }
    return d;
}

struct dirent64 *readdir64(DIR *d) {
    struct list *l = on ? of(d) : 0;
    if (!l) return REAL(readdir64)(d);
    int f = next('L');
    if (f >= 0 && fault[f].kind == 'e') {
        errno = (int)fault[fired(f, l->p)].arg;
        return 0;
    }
    if (l->at >= l->n) return 0; /* end: errno untouched */
    for (const char *c = l->e[l->at].d_name; *c; c++) note('n', *c);
    return &l->e[l->at++];
}

struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }

int closedir(DIR *d) {
    struct list *l = on ? of(d) : 0;
    if (l) {
        free(l->e);
        free(l->p);
        memset(l, 0, sizeof *l);
    }
    return REAL(closedir)(d);
}

/* Files. */
static int opened(int fd, const char *p) {
    if (fd >= 0 && fd < 4096) ours[fd] = strdup(p);
    return fd;
}

static int open_fault(const char *p) {
    int f = tree(p) ? next('O') : -1;
    if (f >= 0 && fault[f].kind == 'e') {
        errno = (int)fault[fired(f, p)].arg;
        return 1;
    }
    return 0;
}

int open64(const char *p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    if (open_fault(p)) return -1;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
    return tree(p) ? opened(fd, p) : fd;
}
int open(const char *p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    return open64(p, flags, mode);
}
int openat64(int at, const char *p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = va_arg(a, int);
    va_end(a);
    if (open_fault(p)) return -1;
    int fd = (int)syscall(SYS_openat, at, p, flags, mode);
    return tree(p) ? opened(fd, p) : fd;
}

int close(int fd) {
    if (OURS(fd)) {
        free(ours[fd]);
        ours[fd] = 0;
    }
    return (int)syscall(SYS_close, fd);
}

static ssize_t cut(char op, size_t *n, const char *p) {
    int f = next(op);
    if (f >= 0 && fault[f].kind == 'e') {
        errno = (int)fault[fired(f, p)].arg;
        return -1;
    }
    if (chunk && *n > chunk) *n = (size_t)(1 + mix(order ^ (uint64_t)calls[(int)op]) % chunk);
    if (f >= 0 && fault[f].kind == 's' && *n > (size_t)fault[f].arg && fault[f].arg > 0) *n = (size_t)fault[fired(f, p)].arg;
    return 0;
}

ssize_t read(int fd, void *b, size_t n) {
    if (on && OURS(fd) && n && cut('R', &n, OURS(fd)) < 0) return -1;
    return syscall(SYS_read, fd, b, n);
}

ssize_t readv(int fd, const struct iovec *v, int k) {
    if (on && OURS(fd)) return k > 0 ? read(fd, v[0].iov_base, v[0].iov_len) : 0;
    return syscall(SYS_readv, fd, v, k);
}

ssize_t pread64(int fd, void *b, size_t n, off64_t at) {
    if (on && OURS(fd) && n && cut('R', &n, OURS(fd)) < 0) return -1;
    return syscall(SYS_pread64, fd, b, n, at);
}

void *mmap64(void *p, size_t n, int prot, int flags, int fd, off64_t at) {
    if (on && OURS(fd)) {
        int f = next('R');
        if (f >= 0 && fault[f].kind == 'e') {
            errno = (int)fault[fired(f, OURS(fd))].arg;
            return (void *)-1;
        }
    }
    return (void *)syscall(SYS_mmap, p, n, prot, flags, fd, at);
}
void *mmap(void *p, size_t n, int prot, int flags, int fd, off_t at) { return mmap64(p, n, prot, flags, fd, at); }

/* A kernel-side copy would bypass read: refuse it, as some file systems do. */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (on) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int a, int b, off64_t *x, size_t n) {
    if (on) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, a, b, x, n);
}
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (on) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, x, b, y, n, f);
}

ssize_t write(int fd, const void *b, size_t n) {
    if (on && fd == 1 && n && cut('W', &n, 0) < 0) return -1;
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int k) {
    if (on && fd == 1) {
        for (int i = 0; i < k; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, k);
}

/* Metadata. */
int statx(int at, const char *p, int flags, unsigned mask, struct statx *b) {
    if (on && (tree(p) || (OURS(at)))) {
        int f = next('S');
        if (f >= 0 && fault[f].kind == 'e') {
            errno = (int)fault[fired(f, p)].arg;
            return -1;
        }
    }
    return (int)syscall(SYS_statx, at, p, flags, mask, b);
}
