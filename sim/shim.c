/* Simulation seam at the libc boundary (LD_PRELOAD).
 *
 * Inert until sim_arm() is called (by the simulated process, through ctypes).
 * Once armed, every call that touches a *tracked* object - a path below the
 * scratch root (or relative), or file descriptors 0 and 1 - is one numbered
 * step of the run.  The plan decides, from explicit (step, action) pairs and a
 * few knobs, what each step does: succeed, fail with an errno, transfer fewer
 * bytes, tear a write, or end the process.  The log of steps is kept in memory
 * shared with the parent, so that it survives a simulated crash.
 * Nothing here reads a clock or a real random source.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/random.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <poll.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 256
#define LOGCAP (1 << 20)

enum { A_ERR = 1, A_SHORT, A_TORN, A_CRASH_BEFORE, A_CRASH_AFTER, A_SIGINT };

struct act { long idx; int kind; long arg; int used; };
struct shared { volatile long nops; volatile long fired; volatile int crashed; volatile long loglen; char log[LOGCAP]; };

static struct shared *S;
static int armed = 0;
static pid_t owner = 0;
static char root[1024]; static size_t rootlen;
static char redir_from[1024], redir_to[1024]; static size_t rfl;
static unsigned char tracked[MAXFD];     /* 0 no, 1 file, 2 std stream */
static unsigned char fdmode[MAXFD];      /* 1: opened for writing */
static char fdname[MAXFD][96];
static struct act plan[MAXPLAN]; static int nplan;
static long read_chunk, write_chunk, quota = -1, stickyerr_from = -1; static int sticky_errno;
static uint64_t dirseed, rngstate; static int detrandom;
static int gate_req = -1, gate_grant = -1;
static long opcap = 2000000;
static char deny[512]; static int deny_what, deny_errno; static long readdir_fail, notready;
                                 /* deny: paths below a name fail to open (1) or are not even visible (2) */
static char extra[1024]; static size_t extralen;    /* another tracked directory (package data) */

static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static void slog(const char *fmt, ...) {
    if (!S) return;
    char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (S->loglen + n < LOGCAP) { memcpy(S->log + S->loglen, b, n); S->loglen += n; }
}

static const char *redirect(const char *p, char *buf) {
    if (!rfl || !p) return p;
    if (strncmp(p, redir_from, rfl) == 0 && (p[rfl] == '/' || p[rfl] == 0)) {
        snprintf(buf, 2048, "%s%s", redir_to, p + rfl); return buf;
    }
    return p;
}

static int on(void) { return armed && S && owner == (pid_t)syscall(SYS_getpid); }

static int is_tracked_path(const char *p) {
    if (!on() || !p || !rootlen) return 0;
    if (p[0] != '/') return 1;
    if (strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0)) return 1;
    if (extralen && strncmp(p, extra, extralen) == 0 && p[extralen] == '/') return 1;
    return 0;
}
static const char *shortname(const char *p) {
    if (p[0] == '/' && rootlen && strncmp(p, root, rootlen) == 0) return p + rootlen;
    return p;
}
static int is_tracked_at(int dirfd, const char *p) {
    if (!on() || !p) return 0;
    if (p[0] == '/') return is_tracked_path(p);
    if (dirfd == AT_FDCWD) return is_tracked_path(p);
    return dirfd >= 0 && dirfd < MAXFD && tracked[dirfd];
}

static int denied(const char *q, int what) {
    if (!deny[0] || !on() || !q || deny_what < what) return 0;
    size_t n = strlen(deny);
    for (const char *f = strstr(q, deny); f; f = strstr(f + 1, deny))
        if ((f == q || f[-1] == '/') && (f[n] == 0 || f[n] == '/')) { S->fired++; errno = deny_errno; return 1; }
    return 0;
}

static void die(void) { S->crashed = 1; syscall(SYS_exit_group, 137); }

/* one step; returns action or NULL */
static struct act *step(const char *op, const char *what, long arg) {
    static __thread int inside = 0;
    if (inside) return NULL;
    inside = 1;
    if (gate_req >= 0) {
        char c = 'r'; while (syscall(SYS_write, gate_req, &c, 1) < 0 && errno == EINTR) ;
        while (syscall(SYS_read, gate_grant, &c, 1) < 0 && errno == EINTR) ;
    }
    long i = S->nops++;
    slog("%ld %s %s %ld", i, op, what, arg);
    if (i > opcap) { slog(" !livelock\n"); S->crashed = 2; syscall(SYS_exit_group, 138); }
    struct act *r = NULL;
    for (int k = 0; k < nplan; k++) if (plan[k].idx == i && !plan[k].used) { plan[k].used = 1; r = &plan[k]; break; }
    int retried = !strcmp(op, "openr") || !strcmp(op, "openw") || !strcmp(op, "openc") || !strcmp(op, "read") || !strcmp(op, "write") || !strcmp(op, "wait");
    if (r && r->kind == A_ERR && r->arg == EINTR && !retried) r = NULL;   /* only calls the interpreter documents to retry */
    if (r) {
        S->fired++;
        slog(" !%d:%ld", r->kind, r->arg);
        if (r->kind == A_CRASH_BEFORE) { slog("\n"); die(); }
        if (r->kind == A_SIGINT) {       /* a signal arrives at this call; arg 1: the call is interrupted */
            syscall(SYS_kill, owner, SIGINT);
            if (r->arg == 1 && retried) { r->kind = A_ERR; r->arg = EINTR; }
        }
    }
    slog("\n");
    inside = 0;
    return r;
}
static void after(struct act *a) { if (a && a->kind == A_CRASH_AFTER) die(); }

/* ---- control ---- */
void *sim_shared(void) {
    if (!S) { S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (S == MAP_FAILED) { S = NULL; return NULL; } }
    return S;
}
void sim_reset(void) { sim_shared(); S->nops = 0; S->fired = 0; S->crashed = 0; S->loglen = 0; }
long sim_nops(void) { return S ? S->nops : 0; }
long sim_fired(void) { return S ? S->fired : 0; }
int sim_crashed(void) { return S ? S->crashed : 0; }
long sim_log(char *out, long cap) { long n = S->loglen < cap ? S->loglen : cap; memcpy(out, S->log, n); return n; }
void sim_redirect(const char *from, const char *to) { snprintf(redir_from, sizeof redir_from, "%s", from); snprintf(redir_to, sizeof redir_to, "%s", to); rfl = strlen(redir_from); }
void sim_root(const char *r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); }
void sim_extra(const char *r) { snprintf(extra, sizeof extra, "%s", r); extralen = strlen(extra); }
void sim_deny(const char *p, int what, int err) { snprintf(deny, sizeof deny, "%s", p); deny_what = what; deny_errno = err; }
void sim_readdir_fail(long n) { readdir_fail = n; }
void sim_notready(long n) { notready = n; }
void sim_plan_clear(void) { deny[0] = 0; readdir_fail = 0; notready = 0; extralen = 0; nplan = 0; read_chunk = write_chunk = 0; quota = -1; stickyerr_from = -1; sticky_errno = 0; dirseed = 0; detrandom = 0; gate_req = gate_grant = -1; }
void sim_plan_add(long idx, int kind, long arg) { if (nplan < MAXPLAN) { plan[nplan].idx = idx; plan[nplan].kind = kind; plan[nplan].arg = arg; plan[nplan].used = 0; nplan++; } }
void sim_knobs(long rc, long wc, long q, long sticky_from, int sticky_e, uint64_t ds, uint64_t rs) {
    read_chunk = rc; write_chunk = wc; quota = q; stickyerr_from = sticky_from; sticky_errno = sticky_e; dirseed = ds; rngstate = rs; detrandom = rs != 0;
}
void sim_gate(int req, int grant) { gate_req = req; gate_grant = grant; }
void sim_arm(void) {
    sim_shared(); owner = (pid_t)syscall(SYS_getpid);
    memset(tracked, 0, sizeof tracked); tracked[0] = 2; tracked[1] = 2; fdmode[0] = 0; fdmode[1] = 1;
    strcpy(fdname[0], "<stdin>"); strcpy(fdname[1], "<stdout>");
    armed = 1;
}
void sim_disarm(void) { armed = 0; }

/* ---- open/close ---- */
static void note_open(int fd, const char *p, int flags) {
    if (fd >= 0 && fd < MAXFD) { tracked[fd] = 1; fdmode[fd] = (flags & O_ACCMODE) != O_RDONLY; snprintf(fdname[fd], sizeof fdname[fd], "%s", shortname(p)); }
}
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char b[2048];
    const char *q = redirect(p, b);
    int t = is_tracked_at(dirfd, q);
    struct act *a = NULL;
    if (t) {
        const char *op = (flags & O_DIRECTORY) ? "opendir" : (flags & O_ACCMODE) == O_RDONLY ? "openr" : (flags & O_TRUNC) ? "openw" : "openc";
        a = step(op, shortname(q), 0);
        if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; }
        if (denied(q, 1)) return -1;
        if ((flags & O_CREAT) && quota == 0 && syscall(SYS_faccessat, dirfd, q, F_OK) != 0) { errno = ENOSPC; return -1; }
    }
    int fd = (int)syscall(SYS_openat, dirfd, q, flags, mode);
    if (t && fd >= 0) note_open(fd, q, flags);
    else if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    int e = errno; after(a); errno = e;
    return fd;
}
#define GETMODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { GETMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return do_open(d, p, flags | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    struct act *a = NULL;
    if (on() && fd >= 0 && fd < MAXFD && tracked[fd]) {
        a = step(fdmode[fd] ? "closew" : "closer", fdname[fd], 0);
        tracked[fd] = 0;
        if (a && a->kind == A_ERR) {
            /* write-back failed: the second half of what was written is lost */
            struct stat st_;
            if (fdmode[fd] && syscall(SYS_fstat, fd, &st_) == 0 && S_ISREG(st_.st_mode) && st_.st_size > 0) syscall(SYS_ftruncate, fd, st_.st_size / 2);
            syscall(SYS_close, fd); errno = (int)a->arg; return -1;
        }
    }
    int r = (int)syscall(SYS_close, fd); int e = errno; after(a); errno = e;
    return r;
}
static int note_dup(int o, int n) { if (on() && n >= 0 && n < MAXFD) { if (o >= 0 && o < MAXFD && tracked[o]) { tracked[n] = tracked[o]; fdmode[n] = fdmode[o]; memcpy(fdname[n], fdname[o], sizeof fdname[n]); } else tracked[n] = 0; } return n; }
int dup(int o) { return note_dup(o, (int)syscall(SYS_dup, o)); }
int dup2(int o, int n) { return note_dup(o, (int)syscall(SYS_dup2, o, n)); }
int dup3(int o, int n, int f) { return note_dup(o, (int)syscall(SYS_dup3, o, n, f)); }

/* ---- data ---- */
ssize_t read(int fd, void *buf, size_t n) {
    struct act *a = NULL;
    if (on() && fd >= 0 && fd < MAXFD && tracked[fd]) {
        a = step("read", fdname[fd], 0);
        if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; }
        if (a && a->kind == A_SHORT && n > (size_t)a->arg && a->arg > 0) n = a->arg;
        if (read_chunk > 0) { size_t c = 1 + mix(read_chunk * 1000003ULL + S->nops) % read_chunk; if (n > c) n = c; }
    }
    ssize_t r = syscall(SYS_read, fd, buf, n); int e = errno; after(a); errno = e;
    return r;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
    struct act *a = NULL;
    int t = on() && fd >= 0 && fd < MAXFD && tracked[fd];
    if (t) {
        a = step("write", fdname[fd], (long)n);
        if (stickyerr_from >= 0 && S->nops - 1 >= stickyerr_from) { S->fired++; errno = sticky_errno; return -1; }
        if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; }
        if (a && a->kind == A_SHORT && n > (size_t)a->arg && a->arg > 0) n = a->arg;
        if (a && a->kind == A_TORN) { if (n > (size_t)a->arg) n = a->arg; if (n) syscall(SYS_write, fd, buf, n); die(); }
        if (write_chunk > 0) { size_t c = 1 + mix(write_chunk * 1000033ULL + S->nops) % write_chunk; if (n > c) n = c; }
        if (quota >= 0 && tracked[fd] == 1) {
            if (quota == 0 && n > 0) { S->fired++; errno = ENOSPC; return -1; }
            if ((long)n > quota) n = quota;
        }
    }
    ssize_t r = syscall(SYS_write, fd, buf, n);
    if (t && r > 0 && quota > 0 && tracked[fd] == 1) quota -= r;
    int e = errno; after(a); errno = e;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (on() && fd >= 0 && fd < MAXFD && tracked[fd]) {
        ssize_t tot = 0;
        for (int i = 0; i < c; i++) { ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
        return tot;
    }
    return syscall(SYS_writev, fd, v, c);
}
static ssize_t faulty_copy(int out, const char *nm) {
    if (on() && out >= 0 && out < MAXFD && tracked[out]) {
        struct act *a = step("write", nm, -1);
        if (stickyerr_from >= 0 && S->nops - 1 >= stickyerr_from) { S->fired++; errno = sticky_errno; return -1; }
        if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; }
        if (quota == 0) { S->fired++; errno = ENOSPC; return -1; }
    }
    return 0;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { if (faulty_copy(out, "sendfile") < 0) return -1; return syscall(SYS_sendfile, out, in, off, n); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) { if (faulty_copy(out, "copy_file_range") < 0) return -1; return syscall(SYS_copy_file_range, in, io, out, oo, n, f); }
static int do_fsync(int fd, int nr) {
    struct act *a = NULL;
    if (on() && fd >= 0 && fd < MAXFD && tracked[fd]) { a = step("fsync", fdname[fd], 0); if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; } }
    int r = (int)syscall(nr, fd); int e = errno; after(a); errno = e; return r;
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }

/* ---- names ---- */
#define NAMEOP(opname, dfd, path, CALL) \
    char b_[2048]; const char *q = redirect(path, b_); int t_ = is_tracked_at(dfd, q); struct act *a_ = NULL; \
    if (t_) { a_ = step(opname, shortname(q), 0); if (a_ && a_->kind == A_ERR) { errno = (int)a_->arg; return -1; } } \
    int r_ = (int)(CALL); int e_ = errno; after(a_); errno = e_; return r_;
int unlink(const char *p) { NAMEOP("unlink", AT_FDCWD, p, syscall(SYS_unlink, q)) }
int unlinkat(int d, const char *p, int f) { NAMEOP("unlink", d, p, syscall(SYS_unlinkat, d, q, f)) }
int rmdir(const char *p) { NAMEOP("rmdir", AT_FDCWD, p, syscall(SYS_rmdir, q)) }
int mkdir(const char *p, mode_t m) { NAMEOP("mkdir", AT_FDCWD, p, syscall(SYS_mkdir, q, m)) }
int mkdirat(int d, const char *p, mode_t m) { NAMEOP("mkdir", d, p, syscall(SYS_mkdirat, d, q, m)) }
int rename(const char *o, const char *n) { NAMEOP("rename", AT_FDCWD, n, syscall(SYS_rename, o, q)) }
int renameat(int od, const char *o, int nd, const char *n) { NAMEOP("rename", nd, n, syscall(SYS_renameat, od, o, nd, q)) }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { NAMEOP("rename", nd, n, syscall(SYS_renameat2, od, o, nd, q, f)) }
int truncate64(const char *p, off64_t l) { NAMEOP("truncate", AT_FDCWD, p, syscall(SYS_truncate, q, l)) }
int truncate(const char *p, off_t l) { return truncate64(p, l); }

/* ---- redirected lookups (not steps) ---- */
#define LOOK(CALL) char b[2048]; const char *q = redirect(p, b); if (denied(q, 2)) return -1; return (int)(CALL);
int stat(const char *p, struct stat *s) { LOOK(syscall(SYS_stat, q, s)) }
int stat64(const char *p, struct stat64 *s) { LOOK(syscall(SYS_stat, q, s)) }
int lstat(const char *p, struct stat *s) { LOOK(syscall(SYS_lstat, q, s)) }
int lstat64(const char *p, struct stat64 *s) { LOOK(syscall(SYS_lstat, q, s)) }
int fstatat(int d, const char *p, struct stat *s, int f) { LOOK(syscall(SYS_newfstatat, d, q, s, f)) }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { LOOK(syscall(SYS_newfstatat, d, q, s, f)) }
int statx(int d, const char *p, int f, unsigned m, struct statx *s) { LOOK(syscall(SYS_statx, d, q, f, m, s)) }
int access(const char *p, int m) { char b[2048]; const char *q = redirect(p, b); if (denied(q, m == F_OK ? 2 : 1)) return -1; return (int)syscall(SYS_access, q, m); }
int faccessat(int d, const char *p, int m, int f) { char b[2048]; const char *q = redirect(p, b); if (denied(q, m == F_OK ? 2 : 1)) return -1; return (int)syscall(SYS_faccessat, d, q, m); (void)f; }

/* ---- directory order ---- */
#define MAXDIR 64
struct sdir { DIR *d; int n, pos; struct dirent64 **e; };
static struct sdir dirs[MAXDIR];
static struct sdir *find(DIR *d, int create) {
    for (int i = 0; i < MAXDIR; i++) if (dirs[i].d == d) return &dirs[i];
    if (create) for (int i = 0; i < MAXDIR; i++) if (!dirs[i].d) { memset(&dirs[i], 0, sizeof dirs[i]); dirs[i].d = d; dirs[i].pos = -1; return &dirs[i]; }
    return NULL;
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *)
    char b[2048]; const char *q = redirect(p, b); int t = is_tracked_path(q);
    if (t) { struct act *a = step("opendir", shortname(q), 0); if (a && a->kind == A_ERR) { errno = (int)a->arg; return NULL; } if (denied(q, 1)) return NULL; }
    DIR *d = real_opendir(q);
    if (d && t && dirseed) find(d, 1);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int)
    int t = on() && fd >= 0 && fd < MAXFD && tracked[fd];
    DIR *d = real_fdopendir(fd);
    if (d && t && dirseed) find(d, 1);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *)
    struct sdir *s = armed ? find(d, 0) : NULL;
    if (!s) return real_readdir64(d);
    if (s->pos < 0) {
        int cap = 64; s->e = malloc(cap * sizeof *s->e); struct dirent64 *x;
        while ((x = real_readdir64(d))) {
            if (s->n == cap) { cap *= 2; s->e = realloc(s->e, cap * sizeof *s->e); }
            s->e[s->n] = malloc(x->d_reclen > sizeof *x ? x->d_reclen : sizeof *x); memcpy(s->e[s->n], x, x->d_reclen); s->n++;
        }
        /* the host's own order must not leak in: sort first, then shuffle by seed */
        for (int i = 1; i < s->n; i++) for (int j = i; j > 0 && strcmp(s->e[j - 1]->d_name, s->e[j]->d_name) > 0; j--) { struct dirent64 *t = s->e[j]; s->e[j] = s->e[j - 1]; s->e[j - 1] = t; }
        for (int i = s->n - 1; i > 0; i--) { int j = mix(dirseed * 7919 + i) % (i + 1); struct dirent64 *t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t; }
        s->pos = 0;
    }
    if (readdir_fail > 0 && on() && --readdir_fail == 0) { S->fired++; errno = EIO; return NULL; }
    errno = 0;
    return s->pos < s->n ? s->e[s->pos++] : NULL;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *)
    struct sdir *s = find(d, 0);
    if (s) { for (int i = 0; i < s->n; i++) free(s->e[i]); free(s->e); memset(s, 0, sizeof *s); }
    return real_closedir(d);
}

/* ---- a writer that is late: nothing to read yet, for the first few who look without waiting ---- */
static int late(int fd) {
    if (!on() || fd < 0 || fd >= MAXFD || !tracked[fd] || fdmode[fd] || notready <= 0) return 0;
    notready--; S->fired++; return 1;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *)
    if (t && r) for (int i = 0; i < n && i < MAXFD; i++) if (FD_ISSET(i, r) && late(i)) { FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); return 0; }
    return real_select(n, r, w, x, t);
}
int poll(struct pollfd *p, nfds_t n, int ms) {
    REAL(int, poll, struct pollfd *, nfds_t, int)
    if (ms >= 0) for (nfds_t i = 0; i < n; i++) if ((p[i].events & POLLIN) && late(p[i].fd)) { for (nfds_t k = 0; k < n; k++) p[k].revents = 0; return 0; }
    return real_poll(p, n, ms);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    if (req == FIONREAD && late(fd)) { *(int *)a = 0; return 0; }
    return (int)syscall(SYS_ioctl, fd, req, a);
}

/* ---- waiting for a child process ---- */
pid_t waitpid(pid_t p, int *st, int opt) {
    struct act *a = NULL;
    if (on() && !(opt & WNOHANG)) { a = step("wait", "child", 0); if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; } }
    pid_t r = (pid_t)syscall(SYS_wait4, p, st, opt, NULL); int e = errno; after(a); errno = e;
    return r;
}

/* ---- starting one ---- */
pid_t fork(void) {
    REAL(pid_t, fork, void)
    struct act *a = NULL;
    if (on()) { a = step("fork", "child", 0); if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; } }
    return real_fork();
}
int pipe2(int p[2], int f) {
    struct act *a = NULL;
    if (on()) { a = step("pipe", "child", 0); if (a && a->kind == A_ERR) { errno = (int)a->arg; return -1; } }
    int r = (int)syscall(SYS_pipe2, p, f); int e = errno; after(a); errno = e;
    return r;
}

/* ---- randomness ---- */
ssize_t getrandom(void *buf, size_t n, unsigned f) {
    if (on() && detrandom) { unsigned char *p = buf; for (size_t i = 0; i < n; i++) { rngstate = mix(rngstate); p[i] = (unsigned char)rngstate; } return n; }
    return syscall(SYS_getrandom, buf, n, f);
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
