/* LD_PRELOAD shim: the simulated disk, clock and entropy source.
 *
 * Inactive (one branch per call) until sim_begin() is called.  While active, every file operation on a path
 * below the scratch prefix is logged and may be altered by a rule (error, short transfer, process death, file replaced
 * by an outside party); every mutating operation outside the prefix is refused and logged; clock reads and getrandom
 * are answered from simulated state.  All state lives in shared memory so that the log survives a simulated death.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXRULES 64
#define MAXNAMES 512
#define NAMELEN 240
#define MAXLOG 60000
#define MAXFD 4096

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_FSYNC, OP_MKDIR,
       OP_LINK, OP_ATTR, OP_ESCAPE };
enum { ACT_ERR = 1, ACT_SHORT, ACT_CRASH, ACT_REPLACE };

struct rule {
    int op, action, nth, count, seen, fired;
    long arg;
    char pat[NAMELEN];
    char extra[NAMELEN];
};
struct logent { int op, fd, name, err, rule; long arg, ret; };

struct shared {
    int clock_on;
    int nrules, nnames, nlog;
    long now_ns, tick_ns, clock_reads;
    uint64_t rnd; long rnd_reads;
    int maxopen, nopen;
    char prefix[NAMELEN];
    int prefix_len;
    short fdname[MAXFD]; /* 0: not ours, else name index + 1 */
    struct rule rules[MAXRULES];
    char names[MAXNAMES][NAMELEN];
    struct logent log[MAXLOG];
};
static struct shared *S;

/* process-local: the log is shared with the parent, the interception is not */
static int my_active;
#define ACTIVE (S && my_active)

/* lock step with other simulated processes: before each file operation the process reports it and waits for its turn */
static int gate_out = -1, gate_in = -1;
void sim_gate(int out, int in) { gate_out = out; gate_in = in; }
static void gate(int op) {
    char c = (char)op;
    if (gate_out < 0) return;
    int e = errno;
    if (syscall(SYS_write, gate_out, &c, 1) != 1) syscall(SYS_exit_group, 97);
    if (syscall(SYS_read, gate_in, &c, 1) != 1) syscall(SYS_exit_group, 97);
    errno = e;
}

void *sim_shared(void) {
    if (!S) {
        void *p = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) return NULL;
        S = p;
    }
    return S;
}

/* A fresh private region for this process tree (called after fork). */
void sim_reset(void) {
    void *p = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p != MAP_FAILED) S = p;
}

void sim_begin(const char *prefix) {
    sim_shared();
    snprintf(S->prefix, NAMELEN, "%s", prefix);
    S->prefix_len = strlen(S->prefix);
    memset(S->fdname, 0, sizeof S->fdname);
    S->nrules = S->nlog = S->nnames = 0;
    S->nopen = S->maxopen = 0;
    my_active = 1;
}
void sim_end(void) { my_active = 0; }
void sim_resume(void) { if (S) my_active = 1; }
void sim_clock(int on, long now_ns, long tick_ns) { sim_shared(); S->clock_on = on; S->now_ns = now_ns; S->tick_ns = tick_ns; }
void sim_clock_add(long ns) { if (S) S->now_ns += ns; }
long sim_clock_now(void) { return S ? S->now_ns : 0; }
long sim_clock_reads(void) { return S ? S->clock_reads : 0; }
long sim_rnd_reads(void) { return S ? S->rnd_reads : 0; }
void sim_entropy(uint64_t seed) { sim_shared(); S->rnd = seed; }
int sim_add_rule(int op, const char *pat, int nth, int count, int action, long arg, const char *extra) {
    sim_shared();
    if (S->nrules >= MAXRULES) return -1;
    struct rule *r = &S->rules[S->nrules];
    memset(r, 0, sizeof *r);
    r->op = op; r->nth = nth; r->count = count; r->action = action; r->arg = arg;
    snprintf(r->pat, NAMELEN, "%s", pat);
    snprintf(r->extra, NAMELEN, "%s", extra ? extra : "");
    return S->nrules++;
}
void sim_clear_rules(void) { if (S) S->nrules = 0; }
int sim_rule_fired(int i) { return S->rules[i].fired; }
int sim_nlog(void) { return S ? S->nlog : 0; }
int sim_nopen(void) { return S ? S->nopen : 0; }
int sim_maxopen(void) { return S ? S->maxopen : 0; }
struct logent *sim_log(int i) { return &S->log[i]; }
const char *sim_name(int i) { return (i >= 0 && i < S->nnames) ? S->names[i] : ""; }
int sim_fd_open(int fd) { return (S && fd >= 0 && fd < MAXFD) ? S->fdname[fd] : 0; }

static int name_index(const char *n) {
    for (int i = 0; i < S->nnames; i++)
        if (!strcmp(S->names[i], n)) return i;
    if (S->nnames >= MAXNAMES) return MAXNAMES - 1;
    snprintf(S->names[S->nnames], NAMELEN, "%s", n);
    return S->nnames++;
}

/* Absolute, lexically normalised path. */
static void absolutize(int dirfd, const char *path, char *out, size_t n) {
    char buf[4096];
    if (path[0] == '/') snprintf(buf, sizeof buf, "%s", path);
    else {
        char cwd[2048];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0; }
        else {
            char link[64]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            long k = syscall(SYS_readlink, link, cwd, sizeof cwd - 1);
            cwd[k > 0 ? k : 0] = 0;
        }
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
    }
    size_t o = 0; out[0] = 0;
    char *p = buf;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        char *q = p; while (*q && *q != '/') q++;
        size_t len = q - p;
        if (len == 1 && p[0] == '.') { }
        else if (len == 2 && p[0] == '.' && p[1] == '.') { while (o > 0 && out[o - 1] != '/') o--; if (o > 0) o--; out[o] = 0; }
        else if (o + len + 2 < n) { out[o++] = '/'; memcpy(out + o, p, len); o += len; out[o] = 0; }
        p = q;
    }
    if (o == 0) { out[0] = '/'; out[1] = 0; }
}

/* name index of the path below the prefix, or -1 */
static int classify(int dirfd, const char *path) {
    char abs[4096];
    absolutize(dirfd, path, abs, sizeof abs);
    if (!strncmp(abs, S->prefix, S->prefix_len) && (abs[S->prefix_len] == '/' || abs[S->prefix_len] == 0))
        return name_index(abs[S->prefix_len] ? abs + S->prefix_len + 1 : ".");
    return -1;
}

static int log_op(int op, int fd, int name, long arg, long ret, int err, int rule) {
    if (S->nlog < MAXLOG) {
        struct logent *l = &S->log[S->nlog];
        l->op = op; l->fd = fd; l->name = name; l->arg = arg; l->ret = ret; l->err = err; l->rule = rule;
    }
    if (S->nlog < MAXLOG) S->nlog++;
    return S->nlog - 1;
}

static int match_rule(int op, int name) {
    int hit = -1;
    for (int i = 0; i < S->nrules; i++) {
        struct rule *r = &S->rules[i];
        if (r->op != op && r->op != 0) continue;
        if (fnmatch(r->pat, S->names[name], 0)) continue;
        int k = r->seen++;
        if (k < r->nth) continue;
        if (r->count >= 0 && k >= r->nth + r->count) continue;
        if (hit < 0) { hit = i; r->fired++; }
    }
    return hit;
}

static void die(void) { syscall(SYS_exit_group, 99); }

static void do_replace(struct rule *r) {
    /* an outside party replaces the content of prefix/<name part of extra before '='> by side file after '=' */
    char dst[600], src[600], *eq = strchr(r->extra, '=');
    if (!eq) return;
    snprintf(src, sizeof src, "%s", eq + 1);
    snprintf(dst, sizeof dst, "%s/%.*s", S->prefix, (int)(eq - r->extra), r->extra);
    if (!strcmp(src, "-")) { syscall(SYS_unlink, dst); return; }
    syscall(SYS_rename, src, dst);
}

/* returns rule index; *proceed: 1 run op, 0 fail with errno set */
static int before(int op, int name, int *proceed) {
    int r = match_rule(op, name);
    *proceed = 1;
    if (r < 0) return r;
    struct rule *R = &S->rules[r];
    if (R->action == ACT_ERR) { *proceed = 0; errno = (int)R->arg; }
    else if (R->action == ACT_REPLACE) do_replace(R);
    else if (R->action == ACT_CRASH && op != OP_WRITE && R->arg == 0) { log_op(op, -1, name, 0, 0, 0, r); die(); }
    return r;
}
static void after(int op, int r) {
    if (r >= 0 && S->rules[r].action == ACT_CRASH && op != OP_WRITE && S->rules[r].arg != 0) die();
}

static void track_open(int fd, int name) {
    if (fd >= 0 && fd < MAXFD) { if (!S->fdname[fd]) S->nopen++; S->fdname[fd] = name + 1; if (S->nopen > S->maxopen) S->maxopen = S->nopen; }
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!ACTIVE) return syscall(SYS_openat, dirfd, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int name = classify(dirfd, path);
    if (name >= 0) gate(w ? OP_OPENW : OP_OPENR);
    if (name < 0) {
        if (w && strcmp(path, "/dev/null")) { log_op(OP_ESCAPE, -1, name_index(path), flags, -1, EACCES, -1); errno = EACCES; return -1; }
        return syscall(SYS_openat, dirfd, path, flags, mode);
    }
    int go, op = w ? OP_OPENW : OP_OPENR, r = before(op, name, &go);
    if (!go) { log_op(op, -1, name, flags, -1, errno, r); return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    log_op(op, fd, name, flags, fd < 0 ? -1 : 0, fd < 0 ? e : 0, r);
    if (fd >= 0) track_open(fd, name);
    after(op, r);
    errno = e;
    return fd;
}
#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int ours(int fd) { return ACTIVE && fd >= 0 && fd < MAXFD && S->fdname[fd]; }

static ssize_t xread(int fd, void *b, size_t n, off_t off, int positional) {
    if (!ours(fd)) return positional ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    gate(OP_READ);
    int name = S->fdname[fd] - 1, go, r = before(OP_READ, name, &go);
    if (!go) { int e = errno; log_op(OP_READ, fd, name, n, -1, e, r); errno = e; return -1; }
    size_t want = n;
    if (r >= 0 && S->rules[r].action == ACT_SHORT && (long)n > S->rules[r].arg) n = S->rules[r].arg;
    ssize_t k = positional ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    int e = errno;
    log_op(OP_READ, fd, name, want, k, k < 0 ? e : 0, r);
    after(OP_READ, r);
    errno = e;
    return k;
}
ssize_t read(int fd, void *b, size_t n) { return xread(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return xread(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return xread(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ours(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return xread(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

static ssize_t xwrite(int fd, const void *b, size_t n, off_t off, int positional) {
    if (!ours(fd)) return positional ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    gate(OP_WRITE);
    int name = S->fdname[fd] - 1, go, r = before(OP_WRITE, name, &go);
    if (!go) { int e = errno; log_op(OP_WRITE, fd, name, n, -1, e, r); errno = e; return -1; }
    size_t want = n;
    int act = r >= 0 ? S->rules[r].action : 0;
    if ((act == ACT_SHORT || act == ACT_CRASH) && (long)n > S->rules[r].arg) n = S->rules[r].arg;
    ssize_t k = n || act != ACT_CRASH ? (positional ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n)) : 0;
    int e = errno;
    log_op(OP_WRITE, fd, name, want, k, k < 0 ? e : 0, r);
    if (act == ACT_CRASH) die();
    errno = e;
    return k;
}
ssize_t write(int fd, const void *b, size_t n) { return xwrite(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return xwrite(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return xwrite(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return xwrite(fd, v[i].iov_base, v[i].iov_len, 0, 0);
    return 0;
}

int close(int fd) {
    if (!ours(fd)) return syscall(SYS_close, fd);
    gate(OP_CLOSE);
    int name = S->fdname[fd] - 1;
    int r = match_rule(OP_CLOSE, name);
    if (r >= 0 && S->rules[r].action == ACT_CRASH && S->rules[r].arg == 0) { log_op(OP_CLOSE, fd, name, 0, 0, 0, r); die(); }
    int k = syscall(SYS_close, fd), e = errno;
    S->fdname[fd] = 0; S->nopen--;
    if (r >= 0 && S->rules[r].action == ACT_ERR) { k = -1; e = (int)S->rules[r].arg; } /* Linux: the fd is gone all the same */
    log_op(OP_CLOSE, fd, name, 0, k, k < 0 ? e : 0, r);
    after(OP_CLOSE, r);
    errno = e;
    return k;
}

static int path_op(int op, int d1, const char *p1, int d2, const char *p2, long (*fn)(void *), void *arg) {
    int n1 = p1 ? classify(d1, p1) : -1, n2 = p2 ? classify(d2, p2) : -1;
    if ((p1 && n1 < 0) || (p2 && n2 < 0)) {
        log_op(OP_ESCAPE, -1, name_index(p1 && n1 < 0 ? p1 : p2), op, -1, EACCES, -1);
        errno = EACCES; return -1;
    }
    gate(op);
    int name = n2 >= 0 ? n2 : n1;
    int go, r = before(op, name, &go);
    if (!go) { int e = errno; log_op(op, -1, name, n1, -1, e, r); errno = e; return -1; }
    long k = fn(arg); int e = errno;
    log_op(op, -1, name, n1, k, k < 0 ? e : 0, r);
    after(op, r);
    errno = e;
    return k;
}
struct ren { int d1, d2; const char *a, *b; unsigned f; };
static long f_rename(void *p) { struct ren *x = p; return syscall(SYS_renameat2, x->d1, x->a, x->d2, x->b, x->f); }
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned f) {
    if (!ACTIVE) return syscall(SYS_renameat2, d1, a, d2, b, f);
    struct ren x = { d1, d2, a, b, f };
    return path_op(OP_RENAME, d1, a, d2, b, f_rename, &x);
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static long f_unlink(void *p) { struct ren *x = p; return syscall(SYS_unlinkat, x->d1, x->a, x->f); }
static int do_unlink(int d, const char *a, int f) {
    if (!ACTIVE) return syscall(SYS_unlinkat, d, a, f);
    struct ren x = { d, 0, a, 0, f };
    return path_op(OP_UNLINK, d, a, 0, NULL, f_unlink, &x);
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
int remove(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
static long f_link(void *p) { struct ren *x = p; return syscall(SYS_linkat, x->d1, x->a, x->d2, x->b, x->f); }
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    if (!ACTIVE) return syscall(SYS_linkat, d1, a, d2, b, f);
    struct ren x = { d1, d2, a, b, f };
    return path_op(OP_LINK, d1, a, d2, b, f_link, &x);
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
static long f_symlink(void *p) { struct ren *x = p; return syscall(SYS_symlinkat, x->a, x->d1, x->b); }
int symlinkat(const char *a, int d, const char *b) {
    if (!ACTIVE) return syscall(SYS_symlinkat, a, d, b);
    struct ren x = { d, 0, a, b, 0 };
    return path_op(OP_LINK, 0, NULL, d, b, f_symlink, &x);
}
int symlink(const char *a, const char *b) { return symlinkat(a, AT_FDCWD, b); }
static long f_mkdir(void *p) { struct ren *x = p; return syscall(SYS_mkdirat, x->d1, x->a, x->f); }
int mkdirat(int d, const char *a, mode_t m) {
    if (!ACTIVE) return syscall(SYS_mkdirat, d, a, m);
    struct ren x = { d, 0, a, 0, m };
    return path_op(OP_MKDIR, d, a, 0, NULL, f_mkdir, &x);
}
int mkdir(const char *a, mode_t m) { return mkdirat(AT_FDCWD, a, m); }
static long f_truncate(void *p) { struct ren *x = p; return syscall(SYS_truncate, x->a, (long)x->f); }
int truncate(const char *a, off_t n) {
    if (!ACTIVE) return syscall(SYS_truncate, a, n);
    struct ren x = { 0, 0, a, 0, (unsigned)n };
    return path_op(OP_TRUNC, AT_FDCWD, a, 0, NULL, f_truncate, &x);
}
int truncate64(const char *a, off_t n) { return truncate(a, n); }
static long f_chmod(void *p) { struct ren *x = p; return syscall(SYS_fchmodat, x->d1, x->a, x->f); }
int chmod(const char *a, mode_t m) {
    if (!ACTIVE) return syscall(SYS_fchmodat, AT_FDCWD, a, m);
    struct ren x = { AT_FDCWD, 0, a, 0, m };
    return path_op(OP_ATTR, AT_FDCWD, a, 0, NULL, f_chmod, &x);
}
int fchmodat(int d, const char *a, mode_t m, int fl) {
    if (!ACTIVE) return syscall(SYS_fchmodat, d, a, m);
    struct ren x = { d, 0, a, 0, m };
    return path_op(OP_ATTR, d, a, 0, NULL, f_chmod, &x);
}
int ftruncate(int fd, off_t n) {
    if (!ours(fd)) return syscall(SYS_ftruncate, fd, n);
    gate(OP_TRUNC);
    int name = S->fdname[fd] - 1, go, r = before(OP_TRUNC, name, &go);
    if (!go) { int e = errno; log_op(OP_TRUNC, fd, name, n, -1, e, r); errno = e; return -1; }
    int k = syscall(SYS_ftruncate, fd, n), e = errno;
    log_op(OP_TRUNC, fd, name, n, k, k < 0 ? e : 0, r);
    after(OP_TRUNC, r);
    errno = e;
    return k;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
static int do_sync(int fd, int nr) {
    if (!ours(fd)) return syscall(nr, fd);
    gate(OP_FSYNC);
    int name = S->fdname[fd] - 1, go, r = before(OP_FSYNC, name, &go);
    if (!go) { int e = errno; log_op(OP_FSYNC, fd, name, 0, -1, e, r); errno = e; return -1; }
    int k = 0;
    log_op(OP_FSYNC, fd, name, 0, k, 0, r);
    after(OP_FSYNC, r);
    return k;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int dup(int fd) {
    int k = syscall(SYS_dup, fd);
    if (k >= 0 && ours(fd)) track_open(k, S->fdname[fd] - 1);
    return k;
}
/* in-kernel copies would bypass the simulated disk */
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    if (ours(o) || ours(i)) { errno = ENOTSOCK; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    if (ours(o) || ours(i)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}

static void tick(struct timespec *t) {
    S->clock_reads++;
    S->now_ns += S->tick_ns;
    t->tv_sec = S->now_ns / 1000000000L;
    t->tv_nsec = S->now_ns % 1000000000L;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!ACTIVE || !S->clock_on) return syscall(SYS_clock_gettime, c, t);
    tick(t);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!ACTIVE || !S->clock_on) return syscall(SYS_gettimeofday, tv, tz);
    struct timespec t; tick(&t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!ACTIVE || !S->clock_on) return syscall(SYS_getrandom, b, n, f);
    S->rnd_reads++;
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) {
        S->rnd = S->rnd * 6364136223846793005ULL + 1442695040888963407ULL;
        p[i] = S->rnd >> 33;
    }
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
