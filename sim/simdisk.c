/* simdisk: the simulated disk of the karta simulator.
 *
 * Loaded with LD_PRELOAD.  Every open / read / write / lseek-independent
 * pread / pwrite / ftruncate / fsync / close / rename / unlink that touches a
 * path below the configured root passes through here as one numbered "disk
 * step".  stdio streams opened below the root (GDAL's VSI layer uses fopen64)
 * are rebuilt on fopencookie(), so libc's real buffering runs on top and the
 * faults strike at the system-call level, where real disks fail.
 *
 * The simulator (sim/disk.py) installs rules and reads the step log with the
 * sd_* functions.  With no root configured the shim is transparent.
 * Single-decision-maker by construction: the simulator runs one thread at a
 * time; a mutex guards against library-internal helper threads all the same.
 */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPENR = 1, K_OPENW = 2, K_READ = 4, K_WRITE = 8, K_TRUNC = 16,
       K_CLOSE = 32, K_SYNC = 64, K_RENAME = 128, K_UNLINK = 256 };
enum { A_ERR = 1, A_SHORT = 2, A_EOF = 3, A_DROP = 4, A_TORN = 5 };

typedef struct { int kinds, nth, action, arg, sticky; char suffix[32]; int seen, fired; } Rule;
typedef struct { int kind, file; long long off, n, ret; int err, fault; } Step;

#define MAXRULES 32
#define MAXSTEPS 200000
#define MAXFD 4096
#define MAXFILES 256

static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
static char root[1024];
static size_t rootlen;
static Rule rules[MAXRULES];
static int nrules;
static Step *steps;
static int nsteps;
static long long budget = -1;      /* bytes that may still be written, -1: unlimited */
static int dead;                   /* crashed: nothing reaches the disk any more */
static int crash_at = -1;          /* mutating step index at which the process "dies" */
static int crash_torn;             /* bytes of that step's write which still land */
static int crash_exit;             /* end the (forked) process right there */
static int nmut;                   /* mutating steps so far */
static long fires[16];
static int fdfile[MAXFD];          /* fd -> file id + 1 */
static char *files[MAXFILES];
static int nfiles;

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, open64, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(FILE *, fopen, const char *, const char *);
REAL(FILE *, fopen64, const char *, const char *);
REAL(int, fileno, FILE *);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pread, int, void *, size_t, off_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
REAL(int, ftruncate64, int, off64_t);
REAL(int, ftruncate, int, off_t);
REAL(int, truncate64, const char *, off64_t);
REAL(int, truncate, const char *, off_t);
REAL(int, close, int);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char *, const char *);
REAL(int, unlink, const char *);
REAL(int, remove, const char *);
REAL(int, dup, int);

#define GET(name) if (!real_##name) *(void **)&real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *p)
{
    return rootlen && p && strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0);
}

static int fileid(const char *p)
{
    const char *q = p + rootlen;
    for (int i = 0; i < nfiles; i++) if (!strcmp(files[i], q)) return i;
    if (nfiles < MAXFILES) { files[nfiles] = strdup(q); return nfiles++; }
    return MAXFILES - 1;
}

static void logstep(int kind, int file, long long off, long long n, long long ret, int err, int fault)
{
    if (!steps) steps = calloc(MAXSTEPS, sizeof(Step));
    if (nsteps < MAXSTEPS) {
        Step s = { kind, file, off, n, ret, err, fault };
        steps[nsteps] = s;
    }
    nsteps++;
}

static Rule *match(int kind, int file)
{
    Rule *hit = NULL;
    for (int i = 0; i < nrules; i++) {
        Rule *r = &rules[i];
        if (!(r->kinds & kind)) continue;
        if (r->suffix[0]) {
            size_t a = strlen(files[file]), b = strlen(r->suffix);
            if (a < b || strcmp(files[file] + a - b, r->suffix)) continue;
        }
        int k = r->seen++;
        if (k == r->nth || (r->sticky && k > r->nth)) { if (!hit) hit = r; }
    }
    if (hit) { hit->fired++; fires[hit->action]++; }
    return hit;
}

/* returns 1 when this mutating step and all later ones are lost */
static int crashed(size_t *torn)
{
    if (torn) *torn = 0;
    if (dead) return 1;
    if (crash_at >= 0 && nmut++ >= crash_at) {
        dead = 1;
        if (torn) *torn = crash_torn;
        else if (crash_exit) _exit(77);
        return 1;
    }
    return 0;
}

/* ---------- control interface ---------- */
void sd_reset(void)
{
    pthread_mutex_lock(&mu);
    nrules = 0; nsteps = 0; budget = -1; dead = 0; crash_at = -1; crash_torn = 0; crash_exit = 0; nmut = 0;
    memset(fires, 0, sizeof fires);
    int open_fds = 0;
    for (int i = 0; i < MAXFD; i++) open_fds |= fdfile[i];
    if (!open_fds) { for (int i = 0; i < nfiles; i++) free(files[i]); nfiles = 0; }
    pthread_mutex_unlock(&mu);
}
void sd_root(const char *p)
{
    pthread_mutex_lock(&mu);
    rootlen = 0;
    snprintf(root, sizeof root, "%s", p);
    rootlen = strlen(root);
    for (int i = 0; i < nfiles; i++) free(files[i]);
    nfiles = 0;
    memset(fdfile, 0, sizeof fdfile);
    pthread_mutex_unlock(&mu);
}
int sd_rule(int kinds, int nth, int action, int arg, int sticky, const char *suffix)
{
    if (nrules >= MAXRULES) return -1;
    Rule *r = &rules[nrules];
    memset(r, 0, sizeof *r);
    r->kinds = kinds; r->nth = nth; r->action = action; r->arg = arg; r->sticky = sticky;
    snprintf(r->suffix, sizeof r->suffix, "%s", suffix ? suffix : "");
    return nrules++;
}
void sd_budget(long long b) { budget = b; }
void sd_crash(int at, int torn, int doexit) { crash_at = at; crash_torn = torn; crash_exit = doexit; nmut = 0; }
int sd_nmut(void)
{
    int n = 0;
    for (int i = 0; i < nsteps && i < MAXSTEPS; i++) {
        int k = steps[i].kind;
        n += (k & (K_WRITE | K_TRUNC | K_RENAME | K_UNLINK)) || (k == K_OPENW && (steps[i].n & (O_CREAT | O_TRUNC)));
    }
    return n;
}
int sd_dead(void) { return dead; }
int sd_nsteps(void) { return nsteps; }
int sd_fired(int rule) { return rule >= 0 && rule < nrules ? rules[rule].fired : 0; }
long sd_fires(int action) { return fires[action]; }
int sd_step(int i, long long *out)
{
    if (i < 0 || i >= nsteps || i >= MAXSTEPS) return -1;
    Step *s = &steps[i];
    out[0] = s->kind; out[1] = s->file; out[2] = s->off; out[3] = s->n; out[4] = s->ret; out[5] = s->err; out[6] = s->fault;
    return 0;
}
const char *sd_file(int i) { return i >= 0 && i < nfiles ? files[i] : ""; }

/* ---------- disk steps ---------- */
static int do_open(const char *p, int flags, mode_t mode)
{
    pthread_mutex_lock(&mu);
    int id = fileid(p);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    int mutates = w && (flags & (O_CREAT | O_TRUNC));
    Rule *r = match(w ? K_OPENW : K_OPENR, id);
    int fd, e = 0;
    if (r && r->action == A_ERR) { fd = -1; e = r->arg; }
    else if (mutates && crashed(NULL)) {
        /* after the crash the caller gets a descriptor whose writes go nowhere */
        fd = real_open("/dev/null", O_RDWR | (flags & O_CLOEXEC)); e = errno;
    } else { fd = real_open(p, flags, mode); e = errno; }
    if (fd >= 0 && fd < MAXFD) fdfile[fd] = id + 1;
    logstep(w ? K_OPENW : K_OPENR, id, 0, flags, fd >= 0 ? 0 : -1, fd >= 0 ? 0 : e, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return fd;
}

static ssize_t do_write(int fd, const void *buf, size_t n, int at, off64_t off)
{
    pthread_mutex_lock(&mu);
    int id = fdfile[fd] - 1, e = 0, fault = 0;
    ssize_t ret;
    off64_t pos = at ? off : lseek64(fd, 0, SEEK_CUR);
    size_t want = n, torn;
    Rule *r = match(K_WRITE, id);
    if (r) fault = r->action;
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; goto out; }
    if (r && r->action == A_SHORT && want > (size_t)r->arg) want = r->arg > 0 ? r->arg : 1;
    if (budget >= 0 && !dead) {
        if (budget == 0) { ret = -1; e = ENOSPC; fault = 100; fires[0]++; goto out; }
        if ((long long)want > budget) { want = budget; fault = 100; fires[0]++; }
    }
    if (crashed(&torn)) {
        if (torn > want) torn = want;
        if (torn) real_pwrite64(fd, buf, torn, pos);
        if (crash_exit) _exit(77);
        if (!at) lseek64(fd, pos + n, SEEK_SET);
        ret = n; fault = 101; goto out;
    }
    if (r && r->action == A_DROP) {
        if (!at) lseek64(fd, pos + n, SEEK_SET);
        ret = n; goto out;
    }
    ret = at ? real_pwrite64(fd, buf, want, off) : real_write(fd, buf, want);
    e = errno;
    if (ret > 0 && budget >= 0) budget -= ret;
out:
    logstep(K_WRITE, id, pos, n, ret, ret < 0 ? e : 0, fault);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}

static ssize_t do_read(int fd, void *buf, size_t n, int at, off64_t off)
{
    pthread_mutex_lock(&mu);
    int id = fdfile[fd] - 1, e = 0;
    ssize_t ret;
    off64_t pos = at ? off : lseek64(fd, 0, SEEK_CUR);
    size_t want = n;
    Rule *r = match(K_READ, id);
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; goto out; }
    if (r && r->action == A_EOF) { ret = 0; goto out; }
    if (r && r->action == A_SHORT && want > (size_t)r->arg) want = r->arg > 0 ? r->arg : 1;
    ret = at ? real_pread64(fd, buf, want, off) : real_read(fd, buf, want);
    e = errno;
out:
    logstep(K_READ, id, pos, n, ret, ret < 0 ? e : 0, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}

static int do_trunc(int fd, off64_t len)
{
    pthread_mutex_lock(&mu);
    int id = fdfile[fd] - 1, e = 0, ret;
    Rule *r = match(K_TRUNC, id);
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; }
    else if (crashed(NULL)) ret = 0;
    else { ret = real_ftruncate64(fd, len); e = errno; }
    logstep(K_TRUNC, id, 0, len, ret, ret < 0 ? e : 0, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}

static int do_close(int fd)
{
    pthread_mutex_lock(&mu);
    int id = fdfile[fd] - 1, e = 0, ret;
    fdfile[fd] = 0;
    Rule *r = match(K_CLOSE, id);
    ret = real_close(fd); e = errno;
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; }
    logstep(K_CLOSE, id, 0, 0, ret, ret < 0 ? e : 0, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}

static int tracked(int fd) { return fd >= 0 && fd < MAXFD && fdfile[fd]; }

static void bind_real(void)
{
    GET(open); GET(open64); GET(openat); GET(openat64); GET(fopen); GET(fopen64); GET(fileno);
    GET(read); GET(write); GET(pread64); GET(pread); GET(pwrite64); GET(pwrite);
    GET(ftruncate64); GET(ftruncate); GET(truncate64); GET(truncate); GET(close); GET(fsync);
    GET(fdatasync); GET(rename); GET(unlink); GET(remove); GET(dup);
}
__attribute__((constructor)) static void init(void) { bind_real(); }

/* ---------- interposed entry points ---------- */
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)

int open(const char *p, int flags, ...) { MODE; GET(open); return under(p) ? do_open(p, flags, mode) : real_open(p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE; GET(open64); return under(p) ? do_open(p, flags, mode) : real_open64(p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE; GET(openat); return under(p) ? do_open(p, flags, mode) : real_openat(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE; GET(openat64); return under(p) ? do_open(p, flags, mode) : real_openat64(d, p, flags, mode); }

ssize_t read(int fd, void *b, size_t n) { GET(read); return tracked(fd) ? do_read(fd, b, n, 0, 0) : real_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { GET(write); return tracked(fd) ? do_write(fd, b, n, 0, 0) : real_write(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { GET(pread64); return tracked(fd) ? do_read(fd, b, n, 1, o) : real_pread64(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { GET(pread); return tracked(fd) ? do_read(fd, b, n, 1, o) : real_pread(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { GET(pwrite64); return tracked(fd) ? do_write(fd, b, n, 1, o) : real_pwrite64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { GET(pwrite); return tracked(fd) ? do_write(fd, b, n, 1, o) : real_pwrite(fd, b, n, o); }
int ftruncate64(int fd, off64_t l) { GET(ftruncate64); return tracked(fd) ? do_trunc(fd, l) : real_ftruncate64(fd, l); }
int ftruncate(int fd, off_t l) { GET(ftruncate); return tracked(fd) ? do_trunc(fd, l) : real_ftruncate(fd, l); }
int close(int fd) { GET(close); return tracked(fd) ? do_close(fd) : real_close(fd); }

static int do_sync(int fd, int (*f)(int))
{
    if (!tracked(fd)) return f(fd);
    pthread_mutex_lock(&mu);
    int id = fdfile[fd] - 1, e = 0, ret = 0;
    Rule *r = match(K_SYNC, id);
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; }
    logstep(K_SYNC, id, 0, 0, ret, e, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}
int fsync(int fd) { GET(fsync); return do_sync(fd, real_fsync); }
int fdatasync(int fd) { GET(fdatasync); return do_sync(fd, real_fdatasync); }

static int do_path(int kind, const char *p, const char *q, int (*f1)(const char *), int (*f2)(const char *, const char *))
{
    pthread_mutex_lock(&mu);
    int id = fileid(p), e = 0, ret;
    Rule *r = match(kind, id);
    if (r && r->action == A_ERR) { ret = -1; e = r->arg; }
    else if (crashed(NULL)) ret = 0;
    else { ret = f2 ? f2(p, q) : f1(p); e = errno; }
    logstep(kind, id, 0, 0, ret, ret < 0 ? e : 0, r ? r->action : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return ret;
}
int rename(const char *a, const char *b) { GET(rename); return under(a) ? do_path(K_RENAME, a, b, NULL, real_rename) : real_rename(a, b); }
int unlink(const char *a) { GET(unlink); return under(a) ? do_path(K_UNLINK, a, NULL, real_unlink, NULL) : real_unlink(a); }
int remove(const char *a) { GET(remove); return under(a) ? do_path(K_UNLINK, a, NULL, real_remove, NULL) : real_remove(a); }

/* stdio on cookies: libc buffers, simdisk is the system call */
typedef struct Cookie { int fd; FILE *fp; struct Cookie *next; } Cookie;
static Cookie *cookies;

static ssize_t c_read(void *c, char *buf, size_t n) { return read(((Cookie *)c)->fd, buf, n); }
static ssize_t c_write(void *c, const char *buf, size_t n)
{
    /* as _IO_new_file_write: loop over short writes, stop on the first error */
    size_t done = 0;
    while (done < n) {
        ssize_t k = write(((Cookie *)c)->fd, buf + done, n - done);
        if (k < 0) break;
        done += k;
    }
    return done;
}
static int c_seek(void *c, off64_t *off, int whence)
{
    off64_t r = lseek64(((Cookie *)c)->fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int c_close(void *c)
{
    Cookie *k = c, **p;
    pthread_mutex_lock(&mu);
    for (p = &cookies; *p; p = &(*p)->next) if (*p == k) { *p = k->next; break; }
    pthread_mutex_unlock(&mu);
    int fd = k->fd;
    free(k);
    return close(fd);
}
static FILE *do_fopen(const char *p, const char *mode)
{
    int plus = strchr(mode, '+') != NULL, flags;
    if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = do_open(p, flags, 0666);
    if (fd < 0) return NULL;
    Cookie *c = calloc(1, sizeof *c);
    c->fd = fd;
    cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
    c->fp = fopencookie(c, mode, io);
    pthread_mutex_lock(&mu);
    c->next = cookies; cookies = c;
    pthread_mutex_unlock(&mu);
    return c->fp;
}
FILE *fopen(const char *p, const char *m) { GET(fopen); return under(p) ? do_fopen(p, m) : real_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { GET(fopen64); return under(p) ? do_fopen(p, m) : real_fopen64(p, m); }
int fileno(FILE *fp)
{
    GET(fileno);
    pthread_mutex_lock(&mu);
    for (Cookie *c = cookies; c; c = c->next) if (c->fp == fp) { int fd = c->fd; pthread_mutex_unlock(&mu); return fd; }
    pthread_mutex_unlock(&mu);
    return real_fileno(fp);
}
