/* LD_PRELOAD: counts the program's file operations and allocations and, at a
 * chosen one, raises a signal just before it is done.  Files are written
 * through small buffers, so that a kill can leave any prefix of them.
 *   SHIM_LOG    file that gets one line per event (written with write(2))
 *   SHIM_AT     number of the file event at which the signal is raised
 *   SHIM_ALLOC  number of the allocation at which it is raised
 *   SHIM_SIG    signal number
 *   SHIM_BUF    buffer size of files written
 * stdout is line buffered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static long events, allocs, at = -1, alloc_at = -1;
static int sig, bufsize = 64, logfd = -1, ready, inside;

static void say(const char *what, const char *path)
{
    char b[600];
    int n;
    if (logfd < 0)
        return;
    n = snprintf(b, sizeof b, "%ld %ld %s %.400s\n", events, allocs, what, path);
    if (write(logfd, b, n) < 0)
        return;
}
static void hit(void)
{
    /* stdout is line buffered: this comes after all that was reported */
    if (write(1, "@@SIGNAL", 8) > 0)
        raise(sig);
}
static void event(const char *what, const char *path)
{
    if (!ready || inside)
        return;
    inside = 1;
    events++;
    say(what, path);
    inside = 0;
    if (events == at)
        hit();
}
static long num(const char *n, long d)
{
    const char *v = getenv(n);
    return v && *v ? atol(v) : d;
}
__attribute__((constructor)) static void start(void)
{
    const char *l = getenv("SHIM_LOG");
    at = num("SHIM_AT", -1);
    alloc_at = num("SHIM_ALLOC", -1);
    sig = num("SHIM_SIG", SIGKILL);
    bufsize = num("SHIM_BUF", 64);
    if (bufsize < 16 || bufsize > 8192)
        bufsize = 8192;
    if (l)
        logfd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    setvbuf(stdout, NULL, _IOLBF, 4096);
    ready = 1;
}
__attribute__((destructor)) static void stop(void) { inside = 1; say("exit", ""); }

void *malloc(size_t n)
{
    static void *(*real)(size_t);
    if (!real)
        real = dlsym(RTLD_NEXT, "malloc");
    if (ready && !inside && ++allocs == alloc_at)
        hit();
    return real(n);
}

struct ck { int fd; char path[400], buf[8192]; };
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    struct ck *k = c;
    size_t d = 0;
    event("write", k->path);
    while (d < n) {
        ssize_t w = write(k->fd, b + d, n - d);
        if (w < 0)
            return d;
        d += w;
    }
    return n;
}
static int ck_close(void *c)
{
    struct ck *k = c;
    int r;
    event("close", k->path);
    r = close(k->fd);
    free(k);
    return r;
}
static FILE *opened(const char *path, const char *mode)
{
    cookie_io_functions_t io = { 0 };
    struct ck *k;
    FILE *f;
    int fd;
    event("open", path);
    fd = open(path, O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC), 0666);
    if (fd < 0)
        return NULL;
    inside++;
    k = malloc(sizeof *k);
    k->fd = fd;
    snprintf(k->path, sizeof k->path, "%s", path);
    io.write = ck_write;
    io.close = ck_close;
    f = fopencookie(k, mode, io);
    if (f)
        setvbuf(f, k->buf, _IOFBF, bufsize);
    inside--;
    return f;
}
FILE *fopen(const char *path, const char *mode)
{
    static FILE *(*real)(const char *, const char *);
    if (!real)
        real = dlsym(RTLD_NEXT, "fopen");
    if (ready && (mode[0] == 'w' || mode[0] == 'a') && !strchr(mode, '+'))
        return opened(path, mode);
    return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int rename(const char *a, const char *b)
{
    static int (*real)(const char *, const char *);
    if (!real)
        real = dlsym(RTLD_NEXT, "rename");
    event("rename", b);
    return real(a, b);
}
int unlink(const char *a)
{
    static int (*real)(const char *);
    if (!real)
        real = dlsym(RTLD_NEXT, "unlink");
    event("unlink", a);
    return real(a);
}
int remove(const char *a)
{
    static int (*real)(const char *);
    if (!real)
        real = dlsym(RTLD_NEXT, "remove");
    event("remove", a);
    return real(a);
}
