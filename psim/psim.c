/*
 * psim: deterministic simulator for lacc processes.
 *
 * lacc.o (the real compiler, every libc entry that touches the outside
 * world renamed to sim_*) is linked into this program. A run consists of
 * phases; in each phase a set of simulated processes ("nodes") executes
 * as coroutines over one simulated file system, heap, clock and process
 * table. Everything a run does is a function of the plan read from
 * standard input. See DESIGN.md for the plan language.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <ctype.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <stdio_ext.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef unsigned char u8;
typedef uint32_t u32;
typedef uint64_t u64;

static __attribute__((noreturn)) void die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "psim: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    _exit(99);
}

static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) die("host out of memory"); return p; }
static void *xrealloc(void *q, size_t n) { void *p = realloc(q, n ? n : 1); if (!p) die("host out of memory"); return p; }
static char *xstrdup(const char *s) { char *p = strdup(s); if (!p) die("host out of memory"); return p; }

static u64 splitmix(u64 *s)
{
    u64 z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

/* ------------------------------------------------------------------ */
/* Growable byte buffers.                                              */

struct buf { u8 *p; size_t n, cap; };

static void buf_put(struct buf *b, const void *d, size_t n)
{
    if (b->n + n > b->cap) {
        b->cap = (b->n + n) * 2 + 64;
        b->p = xrealloc(b->p, b->cap);
    }
    if (n) memcpy(b->p + b->n, d, n);
    b->n += n;
}

static void buf_printf(struct buf *b, const char *fmt, ...)
{
    char tmp[2048];
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    if (n >= (int) sizeof tmp) n = sizeof tmp - 1;
    buf_put(b, tmp, n);
}

/* Percent-encode, so that everything in a result is one token. */
static void buf_enc(struct buf *b, const char *s)
{
    static const char hex[] = "0123456789abcdef";
    if (!*s) { buf_put(b, "%", 1); return; }
    for (; *s; ++s) {
        u8 c = *s;
        if (c > 32 && c < 127 && c != '%') buf_put(b, &c, 1);
        else { char t[3] = {'%', hex[c >> 4], hex[c & 15]}; buf_put(b, t, 3); }
    }
}

static char *dec(const char *s)
{
    char *r = xmalloc(strlen(s) + 1), *w = r;
    if (!strcmp(s, "%")) { *r = 0; return r; }
    while (*s) {
        if (*s == '%' && isxdigit((u8) s[1]) && isxdigit((u8) s[2])) {
            char t[3] = {s[1], s[2], 0};
            *w++ = (char) strtol(t, NULL, 16);
            s += 3;
        } else *w++ = *s++;
    }
    *w = 0;
    return r;
}

/* ------------------------------------------------------------------ */
/* Simulated file system.                                              */

struct inode {
    int id;
    int dir, readonly;          /* mode bits that matter */
    int special;                /* 1: /dev/null, 2: /dev/full */
    u8 *data; size_t n, cap;
    u8 *durable; size_t dn;     /* contents after power loss */
    int durable_valid;          /* the inode itself is durable */
    int touched;                /* opened for writing during this run */
    long mtime;
    int nlink;
};

struct dent { char *path; struct inode *ino; struct inode *durable; };

static struct dent *dents;
static int ndents, capdents;
static int next_ino = 1000;
static char **host_prefix;
static int nhost;

struct world { char *name; struct dent *d; int n; };

static int dent_find(const char *path, int *pos)
{
    int lo = 0, hi = ndents, m, c;
    while (lo < hi) {
        m = (lo + hi) / 2;
        c = strcmp(dents[m].path, path);
        if (!c) { if (pos) *pos = m; return 1; }
        if (c < 0) lo = m + 1; else hi = m;
    }
    if (pos) *pos = lo;
    return 0;
}

static struct dent *dent_add(const char *path)
{
    int i;
    if (dent_find(path, &i)) return &dents[i];
    if (ndents == capdents) {
        capdents = capdents * 2 + 64;
        dents = xrealloc(dents, capdents * sizeof *dents);
    }
    memmove(dents + i + 1, dents + i, (ndents - i) * sizeof *dents);
    ndents++;
    memset(&dents[i], 0, sizeof dents[i]);
    dents[i].path = xstrdup(path);
    return &dents[i];
}

static struct inode *inode_new(void)
{
    struct inode *n = xmalloc(sizeof *n);
    memset(n, 0, sizeof *n);
    n->id = next_ino++;
    n->nlink = 1;
    n->mtime = 1600000000;
    return n;
}

static void inode_set(struct inode *n, const void *d, size_t len)
{
    n->data = xmalloc(len);
    if (len) memcpy(n->data, d, len);
    n->n = n->cap = len;
}

/* Copy on write against the preloaded world happens here. */
static void inode_resize(struct inode *n, size_t len)
{
    if (len > n->cap) {
        n->cap = len * 2 + 256;
        n->data = xrealloc(n->data, n->cap);
    }
    if (len > n->n) memset(n->data + n->n, 0, len - n->n);
    n->n = len;
}

static int host_allowed(const char *path)
{
    int i;
    size_t l;
    for (i = 0; i < nhost; ++i) {
        l = strlen(host_prefix[i]);
        if (!strncmp(path, host_prefix[i], l) && (!path[l] || path[l] == '/'))
            return 1;
    }
    return 0;
}

/* Look up an absolute normalised path, loading read-only host files. */
static struct dent *fs_lookup(const char *path)
{
    int i, fd;
    struct stat st;
    struct dent *d;
    struct inode *n;

    if (dent_find(path, &i)) return dents[i].ino ? &dents[i] : NULL;
    if (!host_allowed(path)) return NULL;
    fd = open(path, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return NULL;
    if (fstat(fd, &st) != 0) { close(fd); return NULL; }
    n = inode_new();
    n->readonly = 1;
    n->durable_valid = 1;
    if (S_ISDIR(st.st_mode)) n->dir = 1;
    else {
        u8 *p = xmalloc(st.st_size + 1);
        ssize_t r;
        size_t k = 0;
        while (k < (size_t) st.st_size && (r = read(fd, p + k, st.st_size - k)) > 0) k += r;
        n->data = p;
        n->n = n->cap = k;
    }
    close(fd);
    d = dent_add(path);
    d->ino = d->durable = n;
    return d;
}

/* ------------------------------------------------------------------ */
/* Nodes.                                                              */

enum cls {
    C_OPENR, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_STAT, C_ALLOC,
    C_TIME, C_FORK, C_EXEC, C_WAIT, C_SYNC, C_UNLINK, C_RENAME, C_ENV,
    C_MISC, C_CLOSEW, C_OP, C_NUM
};
static const char *cls_name[] = {
    "openr", "openw", "read", "write", "close", "seek", "stat", "alloc",
    "time", "fork", "exec", "wait", "sync", "unlink", "rename", "env",
    "misc", "closew", "op"
};

struct fault {
    int cls, sticky, action; /* 0 errno, 1 short, 2 short then errno, 3 crash, 4 EINTR once etc. */
    long idx, param, param2;
    long fired;
};

struct pathfault { char *path; int err; long fired; int write; };

struct desc {           /* open file description */
    int used;
    struct inode *ino;
    char *path;
    size_t pos;
    int flags;
    int kind;           /* 0 inode, 1 stdin, 2 stdout, 3 stderr */
};

#define MAXFD 1100
#define MAXNODES 12

struct simfile { FILE *f; int fd; int open; };

#define NSTREAM 2048

enum nstate { N_NEW, N_RUN, N_BLOCKED, N_DONE };
enum endkind { E_NONE, E_EXIT, E__EXIT, E_ABORT, E_SIGNAL, E_CRASH, E_HANG, E_MEM, E_POWER, E_HEAP };
static const char *end_name[] = {
    "none", "exit", "_exit", "abort", "signal", "crash", "hang", "mem", "power", "heap"
};

struct child {
    int pid, state;     /* 0 none, 1 running (exec'd), 2 finished, 3 reaped */
    int status;
    char *outpath;
    struct buf digest;
    long exec_op;
};

struct node {
    int id;
    enum nstate state;
    enum endkind end;
    int code;
    char *endmsg;
    char *cwd;
    int argc;
    char **argv;
    int nenv;
    char **env;
    ucontext_t ctx;
    u8 *stack; size_t stack_size;
    u8 *globals;
    int started;
    FILE *in, *out, *err;
    struct desc *fds[MAXFD];
    int nopen, maxopen;
    long rbytes;
    struct simfile files[NSTREAM];
    int nfiles;
    struct buf out_data, err_data;
    struct fault faults[64];
    int nfaults;
    struct pathfault pf[16];
    int npf;
    long count[C_NUM];
    long allocs_bytes, live_bytes, max_live;
    long steps;
    int pid;
    int saved_errno;
    u64 rng;            /* node-local choices (chunking, allocator) */
    /* settings */
    long fdlimit, stepbound, membound, opbound, fds0;
    long rchunk, wchunk, bufsz, stdout_full, stdout_err_at;
    int a_fill, a_fillb, a_reuse, a_move, a_guard, a_place;
    long stack_off;
    int stack_fill;
    long alloc_p;       /* per-10000 probability of failing an allocation */
    struct { char *name; int value; } knob[12];
    int nknobs;
    /* linker stub behaviour */
    int ld_exit, ld_signal, ld_partial, ld_late;
    struct child ch[8];
    int nch;
    int in_child;
    sigjmp_buf fork_jb;
    u8 *fork_stack; u8 *fork_sp; size_t fork_len; u8 *fork_glob;
    u8 *fork_heap; size_t fork_heap_len; size_t fork_desc;
    int fork_child_status; int fork_child_execd;
    int exec_count;
    void (*atexit_fn[32])(void);
    int natexit;
    long min_time, max_time, time_calls;
    int exiting;
    /* heap */
    u8 *heap, *heap_end; size_t brk_lo, brk_hi;
    void *freelist[40];
    long heap_events;
    struct buf callsites;
    long start_op, end_op;
};

static struct node *nodes;
static int nnodes;
static struct node *cur;
static ucontext_t sched_ctx;
static long gop;                   /* global operation counter */
static long now_base, now_jump;    /* simulated clock, seconds */
static struct { long op, delta; } jumps[64];
static int njumps;
static struct { long op; int node; } switches[4096];
static int nswitches, switch_pos;
static long switch_every;          /* fully random scheduling when >0 */
static u64 sched_rng;
static long quota = -1, written_total;
static u64 trace_hash = 1469598103934665603ull;
static struct buf trace;
static int want_trace;
static long power_at = -1;
static u64 power_seed;
static int power_lost;
static long sched_switches;
static u64 sched_hash = 1469598103934665603ull;

extern char __start_lacc_data[] __attribute__((weak)), __stop_lacc_data[] __attribute__((weak));
extern char __start_lacc_bss[] __attribute__((weak)), __stop_lacc_bss[] __attribute__((weak));
static u8 *pristine;
static size_t data_len, bss_len;

extern int lacc_main(int, char **);

FILE *sim_stdin, *sim_stdout, *sim_stderr;
char **sim_environ;

static u8 *covmap;
#define COVSZ 65536
static long cov_edges;

static void hash_mix(u64 *h, const void *d, size_t n)
{
    const u8 *p = d;
    while (n--) { *h ^= *p++; *h *= 1099511628211ull; }
}

static void tr(const char *fmt, ...)
{
    char tmp[1024];
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    if (n >= (int) sizeof tmp) n = sizeof tmp - 1;
    hash_mix(&trace_hash, tmp, n);
    if (want_trace && trace.n < 4000000) {
        buf_printf(&trace, "%ld n%d ", gop, cur ? cur->id : -1);
        buf_put(&trace, tmp, n);
        buf_put(&trace, "\n", 1);
    }
}

static void save_globals(struct node *n)
{
    memcpy(n->globals, __start_lacc_data, data_len);
    memcpy(n->globals + data_len, __start_lacc_bss, bss_len);
    n->in = sim_stdin; n->out = sim_stdout; n->err = sim_stderr;
    n->saved_errno = errno;
}

static void load_globals(struct node *n)
{
    memcpy(__start_lacc_data, n->globals, data_len);
    memcpy(__start_lacc_bss, n->globals + data_len, bss_len);
    sim_stdin = n->in; sim_stdout = n->out; sim_stderr = n->err;
    sim_environ = n->env;
    errno = n->saved_errno;
}

static void node_end(enum endkind k, int code, const char *msg) __attribute__((noreturn));

static void node_end(enum endkind k, int code, const char *msg)
{
    if (cur->state != N_DONE) {
        cur->state = N_DONE;
        cur->end = k;
        cur->code = code;
        cur->endmsg = msg ? xstrdup(msg) : NULL;
        cur->end_op = gop;
        tr("end %s %d %s", end_name[k], code, msg ? msg : "");
    }
    setcontext(&sched_ctx);
    die("setcontext");
}

/* Called when the simulated process is about to perform operation. */
static int last_node = -1;

static void yield_to_sched(void)
{
    save_globals(cur);
    swapcontext(&cur->ctx, &sched_ctx);
    /* Scheduler restored our globals. */
}

static long clock_now(void)
{
    int i;
    long j = 0;
    for (i = 0; i < njumps; ++i)
        if (gop >= jumps[i].op) j += jumps[i].delta;
    return now_base + gop / 50 + j;
}

static int in_sched_point;

static void sched_point(void)
{
    int i, n;
    if (in_sched_point) return;
    if (power_at >= 0 && gop >= power_at) {
        power_lost = 1;
        for (i = 0; i < nnodes; ++i)
            if (nodes[i].state != N_DONE && &nodes[i] != cur) {
                nodes[i].state = N_DONE;
                nodes[i].end = E_POWER;
                nodes[i].end_op = gop;
            }
        node_end(E_POWER, 0, NULL);
    }
    if (switch_pos < nswitches && gop >= switches[switch_pos].op) {
        n = switches[switch_pos++].node;
        if (n >= 0 && n < nnodes && nodes[n].state != N_DONE && &nodes[n] != cur) {
            last_node = n;
            sched_switches++;
            hash_mix(&sched_hash, &gop, sizeof gop);
            hash_mix(&sched_hash, &n, sizeof n);
            yield_to_sched();
        }
    } else if (switch_every > 0 && nnodes > 1) {
        if (splitmix(&sched_rng) % switch_every == 0) {
            n = splitmix(&sched_rng) % nnodes;
            if (nodes[n].state != N_DONE && &nodes[n] != cur) {
                last_node = n;
                sched_switches++;
                hash_mix(&sched_hash, &gop, sizeof gop);
                hash_mix(&sched_hash, &n, sizeof n);
                yield_to_sched();
            }
        }
    }
}

/*
 * Account for an operation of class c, give the scheduler a chance to run
 * somebody else, and return the fault that applies to it, if any.
 */
static struct fault *op(enum cls c)
{
    int i;
    long idx, opx;
    struct fault *f, *hit = NULL;

    if (!cur) return NULL;
    gop++;
    if (c != C_ALLOC) sched_point();
    idx = cur->count[c]++;
    opx = cur->count[C_OP]++;
    if (cur->opbound && opx > cur->opbound) node_end(E_HANG, 0, "operation bound exceeded");
    for (i = 0; i < cur->nfaults; ++i) {
        f = &cur->faults[i];
        if ((f->cls == (int) c && (f->idx == idx || (f->sticky && idx >= f->idx)))
            || (f->cls == C_OP && f->idx == opx)) {
            if (f->action == 3) {
                f->fired++;
                tr("crash");
                node_end(E_CRASH, 0, NULL);
            }
            if (!hit && f->cls == (int) c) hit = f;
        }
    }
    if (hit) { hit->fired++; tr("fault %s %ld a%d p%ld", cls_name[c], idx, hit->action, hit->param); }
    return hit;
}

/* ------------------------------------------------------------------ */
/* Coverage and progress.                                              */

void __sanitizer_cov_trace_pc(void);
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void)
{
    uintptr_t pc = (uintptr_t) __builtin_return_address(0);
    u32 h = (u32) ((pc * 0x9E3779B1u) >> 12) & (COVSZ - 1);
    if (!covmap) return;
    if (!covmap[h]) { covmap[h] = 1; cov_edges++; }
    if (cur && ++cur->steps > cur->stepbound && cur->state != N_DONE)
        node_end(E_HANG, 0, "step bound exceeded");
}

/* ------------------------------------------------------------------ */
/* Paths.                                                              */

static char *abspath(const char *p)
{
    char *in, *r, *tok, *save, *parts[256];
    int n = 0, i;
    size_t len;

    len = strlen(p) + strlen(cur ? cur->cwd : "/") + 3;
    in = xmalloc(len);
    if (*p == '/') strcpy(in, p);
    else sprintf(in, "%s/%s", cur ? cur->cwd : "/", p);
    for (tok = strtok_r(in, "/", &save); tok; tok = strtok_r(NULL, "/", &save)) {
        if (!strcmp(tok, ".")) continue;
        if (!strcmp(tok, "..")) { if (n) n--; continue; }
        if (n < 256) parts[n++] = tok;
    }
    r = xmalloc(len);
    *r = 0;
    for (i = 0; i < n; ++i) { strcat(r, "/"); strcat(r, parts[i]); }
    if (!n) strcpy(r, "/");
    free(in);
    return r;
}

/* Does every directory leading to path exist? errno otherwise. */
static int check_parents(const char *path)
{
    char *t = xstrdup(path), *s;
    struct dent *d;
    int e = 0;
    for (s = t + 1; (s = strchr(s, '/')) != NULL; ++s) {
        *s = 0;
        d = fs_lookup(t);
        if (!d) { e = ENOENT; break; }
        if (!d->ino->dir) { e = ENOTDIR; break; }
        *s = '/';
    }
    free(t);
    return e;
}

static int path_fault(const char *path, int write)
{
    int i;
    for (i = 0; i < cur->npf; ++i)
        if (!strcmp(cur->pf[i].path, path) && (cur->pf[i].write == 2 || cur->pf[i].write == write)) {
            cur->pf[i].fired++;
            return cur->pf[i].err;
        }
    return 0;
}

/* ------------------------------------------------------------------ */
/* System calls.                                                       */

static int fd_alloc(void)
{
    int i;
    for (i = 0; i < MAXFD; ++i)
        if (!cur->fds[i]) return i;
    return -1;
}

static int sys_open(const char *name, int flags)
{
    char *path;
    struct dent *d;
    struct desc *ds;
    struct fault *f;
    int fd, e, acc = flags & O_ACCMODE, wr = acc != O_RDONLY || (flags & O_TRUNC);

    f = op(wr ? C_OPENW : C_OPENR);
    if (strlen(name) >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
    path = abspath(name);
    if (!*name) { e = ENOENT; goto fail; }
    if (f && f->action == 0) { e = f->param; goto fail; }
    if ((e = path_fault(path, wr)) != 0) goto fail;
    if (cur->nopen >= cur->fdlimit || (fd = fd_alloc()) < 0) { e = EMFILE; goto fail; }
    if ((e = check_parents(path)) != 0) goto fail;
    d = fs_lookup(path);
    if (d && name[strlen(name) - 1] == '/' && !d->ino->dir) { e = ENOTDIR; goto fail; }
    if (!d) {
        if (!(flags & O_CREAT)) { e = ENOENT; goto fail; }
        if (name[strlen(name) - 1] == '/') { e = EISDIR; goto fail; }
        if (host_allowed(path)) { e = EACCES; goto fail; }
        if (quota >= 0 && written_total >= quota) { e = ENOSPC; goto fail; }
        d = dent_add(path);
        d->ino = inode_new();
        d->ino->touched = 1;
        d->ino->mtime = clock_now();
        tr("create %s", path);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { e = EEXIST; goto fail; }
        if (d->ino->dir && wr) { e = EISDIR; goto fail; }
        if (d->ino->readonly && wr && !d->ino->special) { e = EACCES; goto fail; }
        if ((flags & O_TRUNC) && !d->ino->special) {
            d->ino->n = 0;
            d->ino->touched = 1;
            d->ino->mtime = clock_now();
        }
        if (wr) d->ino->touched = 1;
    }
    ds = xmalloc(sizeof *ds);
    memset(ds, 0, sizeof *ds);
    ds->used = 1;
    ds->ino = d->ino;
    ds->path = path;
    ds->flags = flags;
    if (flags & O_APPEND) ds->pos = d->ino->n;
    cur->fds[fd] = ds;
    cur->nopen++;
    if (cur->nopen > cur->maxopen) cur->maxopen = cur->nopen;
    tr("open %s %d -> %d", path, flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_APPEND | O_EXCL), fd);
    return fd;
fail:
    tr("open %s %d -> errno %d", path, flags & (O_ACCMODE | O_TRUNC | O_CREAT), e);
    free(path);
    errno = e;
    return -1;
}

static struct desc *fd_get(int fd)
{
    if (fd < 0 || fd >= MAXFD || !cur->fds[fd]) { errno = EBADF; return NULL; }
    return cur->fds[fd];
}

static ssize_t sys_read(int fd, void *p, size_t n, long at)
{
    struct fault *f;
    struct desc *d;
    size_t k, pos;

    f = op(C_READ);
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; tr("read %d -> errno", fd); return -1; }
    if (d->kind == 1) return 0;
    if (d->kind) { errno = EBADF; return -1; }
    if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (d->ino->dir) { errno = EISDIR; return -1; }
    if (d->ino->special) return 0;
    pos = at >= 0 ? (size_t) at : d->pos;
    k = pos < d->ino->n ? d->ino->n - pos : 0;
    if (k > n) k = n;
    if (f && f->action == 1 && (long) k > f->param && f->param > 0) k = f->param;
    if (cur->rchunk > 0 && k > 1) {
        size_t m = 1 + splitmix(&cur->rng) % cur->rchunk;
        if (k > m) k = m;
    }
    if (k) memcpy(p, d->ino->data + pos, k);
    if (at < 0) d->pos += k;
    cur->rbytes += k;
    tr("read %s @%zu %zu", d->path, pos, k);
    return k;
}

static ssize_t sys_write(int fd, const void *p, size_t n)
{
    struct fault *f;
    struct desc *d;
    size_t k = n;
    long room;
    struct buf *b;

    d = fd >= 0 && fd < MAXFD ? cur->fds[fd] : NULL;
    f = op(d && d->kind == 3 ? C_MISC : C_WRITE);
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; tr("write %d -> errno", fd); return -1; }
    if (f && f->action == 1) { if ((long) k > f->param && f->param > 0) k = f->param; }
    if (cur->wchunk > 0 && k > 1) {
        size_t m = 1 + splitmix(&cur->rng) % cur->wchunk;
        if (k > m) k = m;
    }
    if (d->kind == 1) { errno = EBADF; return -1; }
    if (d->kind) {
        b = d->kind == 2 ? &cur->out_data : &cur->err_data;
        if (d->kind == 2 && cur->stdout_full >= 0) {
            room = cur->stdout_full - (long) b->n;
            if (room <= 0) { errno = ENOSPC; tr("stdout full"); return -1; }
            if ((long) k > room) k = room;
        }
        buf_put(b, p, k);
        tr("write fd%d %zu", fd, k);
        hash_mix(&trace_hash, p, k);
        return k;
    }
    if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (d->ino->special == 1) return k;
    if (d->ino->special == 2) { errno = ENOSPC; return -1; }
    if (quota >= 0) {
        room = quota - written_total;
        if (room <= 0) { errno = ENOSPC; tr("write %s: full", d->path); return -1; }
        if ((long) k > room) k = room;
    }
    if (d->flags & O_APPEND) d->pos = d->ino->n;
    if (d->pos + k > d->ino->n) inode_resize(d->ino, d->pos + k);
    memcpy(d->ino->data + d->pos, p, k);
    tr("write %s @%zu %zu", d->path, d->pos, k);
    hash_mix(&trace_hash, p, k);
    d->pos += k;
    d->ino->mtime = clock_now();
    written_total += k;
    return k;
}

static void desc_free(struct desc *d)
{
    if (--d->used == 0) { free(d->path); free(d); }
}

static int sys_close(int fd)
{
    struct fault *f;
    struct desc *d;
    d = fd >= 0 && fd < MAXFD ? cur->fds[fd] : NULL;
    f = op(d && ((!d->kind && (d->flags & O_ACCMODE) != O_RDONLY) || d->kind == 2) ? C_CLOSEW : C_CLOSE);
    if (!(d = fd_get(fd))) return -1;
    tr("close %d %s", fd, d->path ? d->path : "-");
    cur->fds[fd] = NULL;
    cur->nopen--;
    if (f && f->action == 0) {
        /* Delayed write error: part of the data never reached the disk. */
        if (d->ino && !d->kind && (d->flags & O_ACCMODE) != O_RDONLY && f->param2 > 0 && d->ino->n > (size_t) f->param2)
            d->ino->n -= f->param2;
        desc_free(d);
        errno = f->param;
        return -1;
    }
    desc_free(d);
    return 0;
}

static off_t sys_seek(int fd, off_t off, int whence)
{
    struct fault *f;
    struct desc *d;
    off_t p;
    f = op(C_SEEK);
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; return -1; }
    if (d->kind) { errno = ESPIPE; return -1; }
    p = whence == SEEK_SET ? off : whence == SEEK_CUR ? (off_t) d->pos + off : (off_t) d->ino->n + off;
    if (p < 0) { errno = EINVAL; return -1; }
    d->pos = p;
    tr("seek %s %ld", d->path, (long) p);
    return p;
}

static void fill_stat(struct inode *n, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_ino = n->id;
    st->st_dev = 7;
    st->st_mode = (n->dir ? S_IFDIR | 0755 : n->special ? S_IFCHR | 0666 : S_IFREG | 0644);
    st->st_size = n->n;
    st->st_nlink = n->nlink;
    st->st_blksize = 4096;
    st->st_blocks = (n->n + 511) / 512;
    st->st_mtime = st->st_ctime = st->st_atime = n->mtime;
}

static int sys_stat(const char *name, struct stat *st)
{
    struct fault *f;
    char *path;
    struct dent *d;
    int e;
    f = op(C_STAT);
    path = abspath(name);
    if (f && f->action == 0) { e = f->param; goto fail; }
    if ((e = check_parents(path)) != 0) goto fail;
    if (!(d = fs_lookup(path))) { e = ENOENT; goto fail; }
    if (st) fill_stat(d->ino, st);
    tr("stat %s", path);
    free(path);
    return 0;
fail:
    tr("stat %s -> errno %d", path, e);
    free(path);
    errno = e;
    return -1;
}

static int sys_unlink(const char *name)
{
    struct fault *f;
    char *path;
    struct dent *d;
    int e;
    f = op(C_UNLINK);
    path = abspath(name);
    if (f && f->action == 0) { e = f->param; goto fail; }
    if ((e = check_parents(path)) != 0) goto fail;
    if (!(d = fs_lookup(path))) { e = ENOENT; goto fail; }
    if (d->ino->dir) { e = EISDIR; goto fail; }
    if (d->ino->readonly) { e = EACCES; goto fail; }
    d->ino->nlink--;
    d->ino = NULL;
    tr("unlink %s", path);
    free(path);
    return 0;
fail:
    free(path);
    errno = e;
    return -1;
}

static int sys_rename(const char *from, const char *to)
{
    struct fault *f;
    char *a, *b;
    struct dent *d;
    struct inode *n;
    int e;
    f = op(C_RENAME);
    a = abspath(from);
    b = abspath(to);
    if (f && f->action == 0) { e = f->param; goto fail; }
    if ((e = check_parents(a)) || (e = check_parents(b))) goto fail;
    if (!(d = fs_lookup(a))) { e = ENOENT; goto fail; }
    n = d->ino;
    if ((d = fs_lookup(b)) != NULL) {
        if (d->ino->dir) { e = EISDIR; goto fail; }
        if (d->ino->readonly) { e = EACCES; goto fail; }
    } else if (host_allowed(b)) { e = EACCES; goto fail; }
    dent_add(b)->ino = n;
    if (strcmp(a, b)) dent_add(a)->ino = NULL;
    n->touched = 1;
    tr("rename %s %s", a, b);
    free(a); free(b);
    return 0;
fail:
    free(a); free(b);
    errno = e;
    return -1;
}

/* ------------------------------------------------------------------ */
/* stdio over the simulated descriptors, using the host's FILE code.   */

static ssize_t ck_read(void *c, char *p, size_t n) { return sys_read((int) (intptr_t) c, p, n, -1); }

static ssize_t ck_write(void *c, const char *p, size_t n)
{
    /* As glibc's file streams do: repeat after short writes. */
    size_t done = 0;
    ssize_t r;
    while (done < n) {
        r = sys_write((int) (intptr_t) c, p + done, n - done);
        if (r < 0) return done;
        if (r == 0) break;
        done += r;
    }
    return done;
}

static int ck_seek(void *c, off64_t *off, int w)
{
    off_t r = sys_seek((int) (intptr_t) c, *off, w);
    if (r < 0) return -1;
    *off = r;
    return 0;
}

static int ck_close(void *c) { return sys_close((int) (intptr_t) c); }

static FILE *file_wrap(int fd, const char *mode)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie((void *) (intptr_t) fd, mode, io);
    size_t sz;
    if (!f) die("fopencookie");
    /* No lock, and no cleanup handler on a stack that gets switched away from. */
    __fsetlocking(f, FSETLOCKING_BYCALLER);
    sz = cur->bufsz > 0 ? cur->bufsz : 4096;
    if (fd == 2 && cur->fds[2] && cur->fds[2]->kind == 3) setvbuf(f, NULL, _IONBF, 0);
    else setvbuf(f, xmalloc(sz + 16), _IOFBF, sz);
    if (cur->nfiles == NSTREAM) {
        int i, j;
        for (i = j = 0; i < cur->nfiles; ++i)
            if (cur->files[i].open) cur->files[j++] = cur->files[i];
        cur->nfiles = j;
        if (j == NSTREAM) die("too many streams");
    }
    cur->files[cur->nfiles].f = f;
    cur->files[cur->nfiles].fd = fd;
    cur->files[cur->nfiles++].open = 1;
    return f;
}

static int mode_flags(const char *m)
{
    int plus = strchr(m, '+') != NULL, x = strchr(m, 'x') ? O_EXCL : 0;
    switch (*m) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x;
    case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND | x;
    }
    return O_RDONLY;
}

FILE *sim_fopen(const char *name, const char *mode)
{
    int fd = sys_open(name, mode_flags(mode));
    return fd < 0 ? NULL : file_wrap(fd, mode);
}
FILE *sim_fopen64(const char *n, const char *m) { return sim_fopen(n, m); }
FILE *sim_fdopen(int fd, const char *mode) { return fd_get(fd) ? file_wrap(fd, mode) : NULL; }

static struct simfile *file_find(FILE *f)
{
    int i;
    for (i = 0; i < cur->nfiles; ++i)
        if (cur->files[i].open && cur->files[i].f == f) return &cur->files[i];
    return NULL;
}

int sim_fclose(FILE *f)
{
    struct simfile *s = file_find(f);
    if (!s) node_end(E_HEAP, 0, "fclose of a stream that is not open");
    s->open = 0;
    return fclose(f);
}

FILE *sim_freopen(const char *name, const char *mode, FILE *f)
{
    /* The stream object changes identity only if nobody can notice. */
    struct simfile *s = file_find(f);
    FILE *r;
    int was_out = f == sim_stdout, was_err = f == sim_stderr, was_in = f == sim_stdin;
    if (s) { s->open = 0; fclose(f); }
    r = name ? sim_fopen(name, mode) : NULL;
    if (was_out) sim_stdout = r;
    if (was_err) sim_stderr = r;
    if (was_in) sim_stdin = r;
    return r;
}

int sim_fileno(FILE *f)
{
    struct simfile *s = file_find(f);
    if (!s) { errno = EBADF; return -1; }
    return s->fd;
}
int sim_fileno_unlocked(FILE *f) { return sim_fileno(f); }

int sim_fflush(FILE *f)
{
    int i, r = 0;
    if (f) return fflush(f);
    for (i = 0; i < cur->nfiles; ++i)
        if (cur->files[i].open && fflush(cur->files[i].f)) r = EOF;
    return r;
}

int sim_vprintf(const char *fmt, va_list ap) { return vfprintf(sim_stdout, fmt, ap); }
int sim_printf(const char *fmt, ...)
{
    va_list ap;
    int r;
    va_start(ap, fmt);
    r = vfprintf(sim_stdout, fmt, ap);
    va_end(ap);
    return r;
}
int sim_puts(const char *s)
{
    if (fputs(s, sim_stdout) == EOF) return EOF;
    return fputc('\n', sim_stdout) == EOF ? EOF : 1;
}
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_putchar_unlocked(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
void sim_perror(const char *s)
{
    int e = errno;
    if (s && *s) fprintf(sim_stderr, "%s: ", s);
    fprintf(sim_stderr, "%s\n", strerror(e));
}
int sim_dprintf(int fd, const char *fmt, ...)
{
    char *p = NULL;
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vasprintf(&p, fmt, ap);
    va_end(ap);
    if (n > 0) n = sys_write(fd, p, n);
    free(p);
    return n;
}

/* Raw descriptors, for code that does not use stdio. */
int sim_open(const char *p, int flags, ...) { return sys_open(p, flags); }
int sim_open64(const char *p, int flags, ...) { return sys_open(p, flags); }
static void at_path(int dfd, const char *p, char *out)
{
    struct desc *d;
    if (*p == '/' || dfd == AT_FDCWD || !(d = fd_get(dfd)) || !d->path) snprintf(out, PATH_MAX, "%s", p);
    else snprintf(out, PATH_MAX, "%s/%s", d->path, p);
}
int sim_openat(int d, const char *p, int flags, ...) { char t[PATH_MAX]; at_path(d, p, t); return sys_open(t, flags); }
int sim_openat64(int d, const char *p, int flags, ...) { char t[PATH_MAX]; at_path(d, p, t); return sys_open(t, flags); }
int sim_creat(const char *p, mode_t m) { (void) m; return sys_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
int sim_close(int fd) { return sys_close(fd); }
ssize_t sim_read(int fd, void *p, size_t n) { return sys_read(fd, p, n, -1); }
ssize_t sim_pread(int fd, void *p, size_t n, off_t o) { return sys_read(fd, p, n, o); }
ssize_t sim_write(int fd, const void *p, size_t n) { return sys_write(fd, p, n); }
off_t sim_lseek(int fd, off_t o, int w) { return sys_seek(fd, o, w); }
off_t sim_lseek64(int fd, off_t o, int w) { return sys_seek(fd, o, w); }
int sim_stat(const char *p, struct stat *st) { return sys_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { return sys_stat(p, st); }
int sim_stat64(const char *p, struct stat *st) { return sys_stat(p, st); }
int sim_fstatat(int d, const char *p, struct stat *st, int f) { char t[PATH_MAX]; (void) f; at_path(d, p, t); return sys_stat(t, st); }
int sim_fstat(int fd, struct stat *st)
{
    struct fault *f = op(C_STAT);
    struct desc *d;
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; return -1; }
    if (d->kind) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; st->st_blksize = 4096; }
    else fill_stat(d->ino, st);
    return 0;
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_access(const char *p, int mode)
{
    struct stat st;
    if (sys_stat(p, &st)) return -1;
    if (mode & W_OK) {
        char *a = abspath(p);
        struct dent *d = fs_lookup(a);
        free(a);
        if (d && d->ino->readonly) { errno = EACCES; return -1; }
    }
    return 0;
}
int sim_euidaccess(const char *p, int mode) { return sim_access(p, mode); }
int sim_unlink(const char *p) { return sys_unlink(p); }
int sim_unlinkat(int d, const char *p, int f) { char t[PATH_MAX]; (void) f; at_path(d, p, t); return sys_unlink(t); }
int sim_remove(const char *p) { return sys_unlink(p); }
int sim_rename(const char *a, const char *b) { return sys_rename(a, b); }
int sim_link(const char *a, const char *b)
{
    char *x = abspath(a), *y = abspath(b);
    struct dent *d;
    op(C_MISC);
    if (!(d = fs_lookup(x))) { errno = ENOENT; return -1; }
    if (fs_lookup(y)) { errno = EEXIST; return -1; }
    d->ino->nlink++;
    struct inode *n = d->ino;
    dent_add(y)->ino = n;
    return 0;
}
int sim_symlink(const char *a, const char *b) { (void) a; (void) b; op(C_MISC); errno = EPERM; return -1; }
ssize_t sim_readlink(const char *p, char *b, size_t n) { (void) p; (void) b; (void) n; op(C_MISC); errno = EINVAL; return -1; }
int sim_mkdir(const char *p, mode_t m)
{
    char *x = abspath(p);
    struct dent *d;
    int e;
    (void) m;
    op(C_MISC);
    if ((e = check_parents(x))) { errno = e; return -1; }
    if (fs_lookup(x)) { errno = EEXIST; return -1; }
    if (host_allowed(x)) { errno = EACCES; return -1; }
    d = dent_add(x);
    d->ino = inode_new();
    d->ino->dir = 1;
    d->ino->touched = 1;
    tr("mkdir %s", x);
    return 0;
}
int sim_rmdir(const char *p) { (void) p; op(C_MISC); errno = ENOTEMPTY; return -1; }
int sim_chmod(const char *p, mode_t m) { (void) m; return sys_stat(p, NULL); }
int sim_fchmod(int fd, mode_t m) { (void) m; return fd_get(fd) ? 0 : -1; }
mode_t sim_umask(mode_t m) { (void) m; return 022; }
int sim_ftruncate(int fd, off_t n)
{
    struct fault *f = op(C_MISC);
    struct desc *d;
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; return -1; }
    if (d->kind || !d->ino) { errno = EINVAL; return -1; }
    inode_resize(d->ino, n);
    return 0;
}
int sim_truncate(const char *p, off_t n)
{
    int fd = sys_open(p, O_WRONLY), r;
    if (fd < 0) return -1;
    r = sim_ftruncate(fd, n);
    sys_close(fd);
    return r;
}
int sim_fsync(int fd)
{
    struct fault *f = op(C_SYNC);
    struct desc *d;
    if (!(d = fd_get(fd))) return -1;
    if (f && f->action == 0) { errno = f->param; return -1; }
    if (d->ino && !d->ino->special) {
        d->ino->durable = xmalloc(d->ino->n);
        memcpy(d->ino->durable, d->ino->data, d->ino->n);
        d->ino->dn = d->ino->n;
        d->ino->durable_valid = 1;
    }
    return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) { op(C_SYNC); }
int sim_dup(int fd)
{
    struct desc *d;
    int n;
    op(C_MISC);
    if (!(d = fd_get(fd))) return -1;
    if (cur->nopen >= cur->fdlimit || (n = fd_alloc()) < 0) { errno = EMFILE; return -1; }
    d->used++;
    cur->fds[n] = d;
    cur->nopen++;
    if (cur->nopen > cur->maxopen) cur->maxopen = cur->nopen;
    return n;
}
int sim_dup2(int a, int b)
{
    struct desc *d;
    op(C_MISC);
    if (!(d = fd_get(a))) return -1;
    if (a == b) return b;
    if (b < 0 || b >= MAXFD) { errno = EBADF; return -1; }
    if (cur->fds[b]) { desc_free(cur->fds[b]); cur->nopen--; }
    d->used++;
    cur->fds[b] = d;
    cur->nopen++;
    return b;
}
int sim_fcntl(int fd, int cmd, ...) { (void) cmd; return fd_get(fd) ? (cmd == F_GETFL ? fd_get(fd)->flags : 0) : -1; }
int sim_isatty(int fd) { (void) fd; errno = ENOTTY; return 0; }
int sim_ioctl(int fd, unsigned long r, ...) { (void) fd; (void) r; errno = ENOTTY; return -1; }
int sim_flock(int fd, int o) { (void) o; op(C_MISC); return fd_get(fd) ? 0 : -1; }
int sim_lockf(int fd, int c, off_t l) { (void) c; (void) l; op(C_MISC); return fd_get(fd) ? 0 : -1; }
int sim_posix_fadvise(int fd, off_t o, off_t l, int a) { (void) fd; (void) o; (void) l; (void) a; return 0; }
int sim_utimes(const char *p, const struct timeval *tv) { (void) tv; return sys_stat(p, NULL); }
int sim_chdir(const char *p)
{
    char *a = abspath(p);
    struct dent *d;
    op(C_MISC);
    if (!(d = fs_lookup(a)) || !d->ino->dir) { errno = ENOENT; return -1; }
    cur->cwd = a;
    return 0;
}
char *sim_getcwd(char *b, size_t n)
{
    op(C_MISC);
    if (!b) return xstrdup(cur->cwd);
    if (strlen(cur->cwd) + 1 > n) { errno = ERANGE; return NULL; }
    return strcpy(b, cur->cwd);
}
char *sim_realpath(const char *p, char *out)
{
    char *a;
    if (sys_stat(p, NULL)) return NULL;
    a = abspath(p);
    if (out) { strcpy(out, a); free(a); return out; }
    return a;
}
void *sim_opendir(const char *p) { (void) p; op(C_MISC); errno = EACCES; return NULL; }

/* Random names come from simulated entropy that differs per process. */
static u64 entropy_seed;
static u64 entropy(void) { entropy_seed += cur->pid; return splitmix(&entropy_seed); }
static int tmp_name(char *t, int suffix)
{
    static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    size_t n = strlen(t), i;
    u64 r = entropy();
    if (n < 6u + suffix) { errno = EINVAL; return -1; }
    for (i = 0; i < 6; ++i) { t[n - suffix - 6 + i] = al[r % 36]; r /= 36; }
    return 0;
}
int sim_mkstemp(char *t) { if (tmp_name(t, 0)) return -1; return sys_open(t, O_RDWR | O_CREAT | O_EXCL); }
int sim_mkstemp64(char *t) { return sim_mkstemp(t); }
int sim_mkostemp(char *t, int f) { (void) f; return sim_mkstemp(t); }
int sim_mkstemps(char *t, int s) { if (tmp_name(t, s)) return -1; return sys_open(t, O_RDWR | O_CREAT | O_EXCL); }
char *sim_mktemp(char *t) { tmp_name(t, 0); return t; }
char *sim_mkdtemp(char *t) { if (tmp_name(t, 0)) return NULL; return sim_mkdir(t, 0700) ? NULL : t; }
FILE *sim_tmpfile(void)
{
    char t[] = "/tmp/tmpfXXXXXX";
    int fd = sim_mkstemp(t);
    if (fd < 0) return NULL;
    sys_unlink(t);
    return file_wrap(fd, "w+");
}
char *sim_tmpnam(char *b)
{
    static char s[32];
    char *r = b ? b : s;
    strcpy(r, "/tmp/fileXXXXXX");
    tmp_name(r, 0);
    return r;
}
char *sim_tempnam(const char *d, const char *p)
{
    char *r = xmalloc(PATH_MAX);
    snprintf(r, PATH_MAX, "%s/%sXXXXXX", d ? d : "/tmp", p ? p : "file");
    tmp_name(r, 0);
    return r;
}
int sim_rand(void) { op(C_MISC); return entropy() & 0x7fffffff; }
void sim_srand(unsigned s) { (void) s; }
long sim_random(void) { op(C_MISC); return entropy() & 0x7fffffff; }
ssize_t sim_getrandom(void *p, size_t n, unsigned f)
{
    u8 *b = p;
    size_t i;
    (void) f;
    op(C_MISC);
    for (i = 0; i < n; ++i) b[i] = entropy();
    return n;
}

/* ------------------------------------------------------------------ */
/* Clock, identity, environment.                                       */

static long tick(void)
{
    long t;
    op(C_TIME);
    t = clock_now();
    if (!cur->time_calls || t < cur->min_time) cur->min_time = t;
    if (!cur->time_calls || t > cur->max_time) cur->max_time = t;
    cur->time_calls++;
    tr("time %ld", t);
    return t;
}
time_t sim_time(time_t *p) { long t = tick(); if (p) *p = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void) z; tv->tv_sec = tick(); tv->tv_usec = gop % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = tick(); ts->tv_nsec = gop % 1000000000; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { ts->tv_sec = tick(); ts->tv_nsec = 0; return b; }
clock_t sim_clock(void) { return tick() * 1000 + gop; }
unsigned sim_sleep(unsigned n) { op(C_TIME); now_jump += n; now_base += n; return 0; }
int sim_usleep(unsigned n) { op(C_TIME); now_base += n / 1000000; return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { (void) b; op(C_TIME); now_base += a->tv_sec; return 0; }
pid_t sim_getpid(void) { op(C_MISC); return cur->pid; }
pid_t sim_getppid(void) { op(C_MISC); return cur->pid / 2 + 1; }
uid_t sim_getuid(void) { return cur->pid % 2000; }
uid_t sim_geteuid(void) { return cur->pid % 2000; }
pid_t sim_gettid(void) { return cur->pid; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "host%d", cur->pid); return 0; }
char *sim_getenv(const char *name)
{
    int i;
    size_t n = strlen(name);
    op(C_ENV);
    tr("getenv %s", name);
    for (i = 0; i < cur->nenv; ++i)
        if (!strncmp(cur->env[i], name, n) && cur->env[i][n] == '=') return cur->env[i] + n + 1;
    /* "*=value" stands for every other name. */
    for (i = 0; i < cur->nenv; ++i)
        if (!strncmp(cur->env[i], "*=", 2)) return cur->env[i] + 2;
    return NULL;
}
char *sim_secure_getenv(const char *name) { return sim_getenv(name); }
typedef void (*sighandler)(int);
sighandler sim_signal(int s, sighandler h) { (void) s; (void) h; op(C_MISC); return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { (void) s; (void) a; op(C_MISC); if (o) memset(o, 0, sizeof *o); return 0; }
int sim_sigprocmask(int h, const sigset_t *a, sigset_t *o) { (void) h; (void) a; if (o) sigemptyset(o); return 0; }
int sim_kill(pid_t p, int s) { op(C_MISC); if (p == cur->pid || p == 0) node_end(E_SIGNAL, s, "kill"); return 0; }
int sim_raise(int s) { op(C_MISC); node_end(E_SIGNAL, s, "raise"); }
unsigned sim_alarm(unsigned n) { (void) n; return 0; }
int sim_getrlimit(int r, struct rlimit *l) { (void) r; l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? (rlim_t) cur->fdlimit : RLIM_INFINITY; return 0; }
int sim_setrlimit(int r, const struct rlimit *l) { (void) r; (void) l; return 0; }
long sim_sysconf(int n) { return n == _SC_OPEN_MAX ? cur->fdlimit : n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN ? 1 + cur->pid % 7 : -1; }

/* ------------------------------------------------------------------ */
/* Heap.                                                               */

#define HEAP_SIZE (1ull << 30)
#define MAGIC_LIVE 0x51a110c8u
#define MAGIC_FREE 0xdeadf4eeu
struct hdr { u32 magic; u32 cls; size_t n; };   /* 16 bytes before the block */

static void heap_init(struct node *n)
{
    u64 hint = 0x200000000ull + (u64) n->id * 0x100000000ull * 2;
    void *p;
    if (n->a_place) hint += (splitmix(&n->rng) % 0x40000) << 12;
    p = mmap((void *) hint, HEAP_SIZE, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) die("heap mmap: %s", strerror(errno));
    n->heap = p;
    n->heap_end = n->heap + HEAP_SIZE;
    n->brk_lo = 0;
    n->brk_hi = HEAP_SIZE;
}

static int heap_owns(void *p) { return (u8 *) p >= cur->heap && (u8 *) p < cur->heap_end; }

static int size_class(size_t n, size_t *rounded)
{
    int c = 0;
    size_t s = 16;
    while (s < n) {
        if (s + s / 2 >= n && s >= 32) { *rounded = s + s / 2; return c * 2 + 1; }
        s *= 2; c++;
    }
    *rounded = s;
    return c * 2;
}

static void fill(u8 *p, size_t n, int fresh)
{
    size_t i;
    u64 r;
    switch (cur->a_fill) {
    case 0: if (fresh) return; break;                   /* leave as is */
    case 1: memset(p, cur->a_fillb, n); break;
    case 2:
        for (i = 0; i < n; i += 8) {
            r = splitmix(&cur->rng);
            memcpy(p + i, &r, n - i < 8 ? n - i : 8);
        }
        break;
    case 3: /* pointers into the heap, plausible but wrong */
        for (i = 0; i < n; i += 8) {
            r = (u64) cur->heap + 4096 + (splitmix(&cur->rng) & 0xffff8);
            memcpy(p + i, &r, n - i < 8 ? n - i : 8);
        }
        break;
    }
}

static int alloc_fails(size_t n)
{
    struct fault *f;
    uintptr_t ra;
    f = op(C_ALLOC);
    ra = 0; (void) ra;
    if (f && f->action == 0) return 1;
    if (cur->alloc_p && (long) (splitmix(&cur->rng) % 10000) < cur->alloc_p) {
        tr("alloc fails");
        cur->heap_events++;
        return 1;
    }
    if (cur->membound && cur->allocs_bytes + (long) n > cur->membound) node_end(E_MEM, 0, "memory bound exceeded");
    if (n > HEAP_SIZE / 2) return 1;
    return 0;
}

static void *heap_alloc(size_t n)
{
    size_t r, len, start;
    int c, k;
    struct hdr *h;
    u8 *p;

    cur->allocs_bytes += n;
    if (cur->a_guard) {
        /* Block ends where an inaccessible page starts. */
        len = (n + 15) / 16 * 16;
        if (cur->a_guard == 2) len = n;
        r = (len + 16 + 4095) / 4096 * 4096;
        if (cur->brk_lo + r + 4096 > cur->brk_hi) node_end(E_MEM, 0, "simulated heap exhausted");
        start = cur->brk_lo;
        cur->brk_lo += r + 4096;
        if (mprotect(cur->heap + start + r, 4096, PROT_NONE)) die("mprotect: %s", strerror(errno));
        p = cur->heap + start + r - len;
        h = (struct hdr *) (cur->heap + start);
        h->magic = MAGIC_LIVE;
        h->cls = 0;
        h->n = n;
        fill(p, n, 1);
        cur->live_bytes += n;
        if (cur->live_bytes > cur->max_live) cur->max_live = cur->live_bytes;
        return p;
    }
    c = size_class(n, &r);
    if (cur->a_reuse && cur->freelist[c]
        && (cur->a_reuse == 1 || splitmix(&cur->rng) % 3)) {
        p = cur->freelist[c];
        cur->freelist[c] = *(void **) p;
        h = (struct hdr *) (p - 16);
        if (h->magic != MAGIC_FREE) node_end(E_HEAP, 0, "write to freed memory");
        h->magic = MAGIC_LIVE;
        h->n = n;
        fill(p, n, 0);
        cur->live_bytes += n;
        if (cur->live_bytes > cur->max_live) cur->max_live = cur->live_bytes;
        return p;
    }
    len = r + 16;
    k = cur->a_place == 2 ? 1 : cur->a_place == 3 ? (int) (splitmix(&cur->rng) & 1) : 0;
    if (cur->a_place == 3) len += (splitmix(&cur->rng) % 8) * 16;
    if (cur->brk_lo + len > cur->brk_hi) node_end(E_MEM, 0, "simulated heap exhausted");
    if (k) { cur->brk_hi -= len; start = cur->brk_hi; }
    else { start = cur->brk_lo; cur->brk_lo += len; }
    h = (struct hdr *) (cur->heap + start);
    h->magic = MAGIC_LIVE;
    h->cls = c;
    h->n = n;
    p = (u8 *) (h + 1);
    fill(p, n, 1);
    cur->live_bytes += n;
    if (cur->live_bytes > cur->max_live) cur->max_live = cur->live_bytes;
    return p;
}

static struct hdr *hdr_of(void *p)
{
    struct hdr *h;
    if (cur->a_guard) {
        u8 *q = p;
        /* Header sits at the start of the first page of the block. */
        q = (u8 *) (((uintptr_t) q - 16) & ~4095ull);
        for (;;) {
            h = (struct hdr *) q;
            if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE) && h->cls == 0) {
                size_t len = cur->a_guard == 2 ? h->n : (h->n + 15) / 16 * 16;
                size_t r = (len + 16 + 4095) / 4096 * 4096;
                if (q + r - len == p) return h;
            }
            if (q <= cur->heap) return NULL;
            q -= 4096;
        }
    }
    if ((uintptr_t) p & 15) return NULL;
    h = (struct hdr *) p - 1;
    return h->magic == MAGIC_LIVE || h->magic == MAGIC_FREE ? h : NULL;
}

static void heap_free(void *p)
{
    struct hdr *h = hdr_of(p);
    if (!h || h->magic != MAGIC_LIVE) node_end(E_HEAP, 0, h ? "double free" : "invalid free");
    cur->live_bytes -= h->n;
    h->magic = MAGIC_FREE;
    if (cur->a_guard) {
        size_t len = cur->a_guard == 2 ? h->n : (h->n + 15) / 16 * 16;
        size_t r = (len + 16 + 4095) / 4096 * 4096;
        if (r > 4096) mprotect((u8 *) h + 4096, r - 4096, PROT_NONE);
        else memset(p, 0xDD, len);
        return;
    }
    if (cur->a_fill) {
        size_t i;
        u64 r;
        if (cur->a_fill == 1) memset(p, cur->a_fillb ^ 0xff, h->n);
        else for (i = 0; i + 8 <= h->n; i += 8) { r = splitmix(&cur->rng); memcpy((u8 *) p + i, &r, 8); }
    }
    if (cur->a_reuse) {
        *(void **) p = cur->freelist[h->cls];
        cur->freelist[h->cls] = p;
    }
}

void *sim_malloc(size_t n)
{
    void *p;
    if (!cur) return malloc(n);
    if (alloc_fails(n)) { errno = ENOMEM; return NULL; }
    p = heap_alloc(n);
    return p;
}
void sim_free(void *p)
{
    if (!p) return;
    if (!cur || !heap_owns(p)) { free(p); return; }
    heap_free(p);
}
void *sim_calloc(size_t a, size_t b)
{
    void *p;
    if (!cur) return calloc(a, b);
    if ((b && a > SIZE_MAX / b) || alloc_fails(a * b)) { errno = ENOMEM; return NULL; }
    p = heap_alloc(a * b);
    memset(p, 0, a * b);
    return p;
}
void *sim_realloc(void *q, size_t n)
{
    struct hdr *h;
    void *p;
    size_t r;
    if (!cur || (q && !heap_owns(q))) return realloc(q, n);
    if (alloc_fails(n)) { errno = ENOMEM; return NULL; }
    if (!q) return heap_alloc(n);
    h = hdr_of(q);
    if (!h || h->magic != MAGIC_LIVE) node_end(E_HEAP, 0, "realloc of a bad pointer");
    if (!n) { heap_free(q); return NULL; }
    if (!cur->a_guard && !cur->a_move) {
        size_class(h->n, &r);
        if (n <= r && size_class(n, &r) == (int) h->cls) {
            if (n > h->n) fill((u8 *) q + h->n, n - h->n, 0);
            cur->live_bytes += (long) n - (long) h->n;
            if (cur->live_bytes > cur->max_live) cur->max_live = cur->live_bytes;
            h->n = n;
            return q;
        }
    }
    p = heap_alloc(n);
    memcpy(p, q, h->n < n ? h->n : n);
    heap_free(q);
    return p;
}
void *sim_reallocarray(void *q, size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
    return sim_realloc(q, a * b);
}
char *sim_strndup(const char *s, size_t n)
{
    size_t l = strnlen(s, n);
    char *p = sim_malloc(l + 1);
    if (p) { memcpy(p, s, l); p[l] = 0; }
    return p;
}
char *sim_strdup(const char *s) { return sim_strndup(s, strlen(s)); }
char *sim___strdup(const char *s) { return sim_strdup(s); }
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
    char *t = NULL;
    int n = vasprintf(&t, fmt, ap);
    if (n < 0) return n;
    *out = sim_strdup(t);
    free(t);
    return *out ? n : -1;
}
int sim_asprintf(char **out, const char *fmt, ...)
{
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = sim_vasprintf(out, fmt, ap);
    va_end(ap);
    return n;
}
ssize_t sim_getdelim(char **line, size_t *cap, int d, FILE *f)
{
    size_t n = 0;
    int c;
    if (!*line) *cap = 0;
    while ((c = fgetc(f)) != EOF) {
        if (n + 2 > *cap) {
            size_t k = *cap ? *cap * 2 : 120;
            char *p = sim_realloc(*line, k);
            if (!p) return -1;
            *line = p;
            *cap = k;
        }
        (*line)[n++] = c;
        if (c == d) break;
    }
    if (!n) return -1;
    (*line)[n] = 0;
    return n;
}
ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }
int sim_posix_memalign(void **p, size_t a, size_t n) { (void) a; *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
void *sim_aligned_alloc(size_t a, size_t n) { (void) a; return sim_malloc(n); }
size_t sim_malloc_usable_size(void *p) { struct hdr *h = hdr_of(p); return h ? h->n : 0; }
void *sim_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    struct desc *d;
    u8 *p;
    (void) a; (void) prot; (void) flags;
    if (flags & MAP_ANONYMOUS) { p = sim_calloc(1, n); return p ? p : MAP_FAILED; }
    if (op(C_READ)) { errno = EIO; return MAP_FAILED; }
    if (!(d = fd_get(fd)) || d->kind) return MAP_FAILED;
    p = sim_calloc(1, (n + 4095) / 4096 * 4096);
    if (!p) return MAP_FAILED;
    if ((size_t) off < d->ino->n) memcpy(p, d->ino->data + off, d->ino->n - off < n ? d->ino->n - off : n);
    return p;
}
int sim_munmap(void *p, size_t n) { (void) n; sim_free(p); return 0; }

/* ------------------------------------------------------------------ */
/* Processes.                                                          */

/*
 * fork: the child runs first, on the parent's own stack and memory, until
 * it execs or exits. Then the saved stack, globals and heap are put back
 * and fork returns in the parent. siglongjmp happens from a deeper frame;
 * the stack is restored by a helper running on another stack.
 */
static ucontext_t restore_ctx;
static u8 restore_stack[65536];

static void restore_run(void)
{
    struct node *n = cur;
    memcpy(n->fork_sp, n->fork_stack, n->fork_len);
    siglongjmp(n->fork_jb, 1);
}

static __attribute__((noreturn)) void child_done(int status, int execd)
{
    struct node *n = cur;
    n->fork_child_status = status;
    n->fork_child_execd = execd;
    n->in_child = 0;
    memcpy(__start_lacc_data, n->fork_glob, data_len);
    memcpy(__start_lacc_bss, n->fork_glob + data_len, bss_len);
    if (n->fork_heap) memcpy(n->heap, n->fork_heap, n->fork_heap_len);
    getcontext(&restore_ctx);
    restore_ctx.uc_stack.ss_sp = restore_stack;
    restore_ctx.uc_stack.ss_size = sizeof restore_stack;
    restore_ctx.uc_link = NULL;
    makecontext(&restore_ctx, restore_run, 0);
    setcontext(&restore_ctx);
    die("child_done");
    __builtin_unreachable();
}

static int next_pid = 5000;

__attribute__((noinline, returns_twice)) pid_t sim_fork(void)
{
    struct fault *f;
    struct node *volatile n = cur;
    struct child *c;

    f = op(C_FORK);
    if (f && f->action == 0) { tr("fork fails"); errno = f->param; return -1; }
    if (n->nch == 8 || n->in_child) { errno = EAGAIN; return -1; }
    tr("fork");
    n->fork_glob = xrealloc(n->fork_glob, data_len + bss_len);
    memcpy(n->fork_glob, __start_lacc_data, data_len);
    memcpy(n->fork_glob + data_len, __start_lacc_bss, bss_len);
    if (!n->a_guard && n->brk_hi == HEAP_SIZE) {
        n->fork_heap_len = n->brk_lo;
        n->fork_heap = xrealloc(n->fork_heap, n->fork_heap_len);
        memcpy(n->fork_heap, n->heap, n->fork_heap_len);
    }
    c = &n->ch[n->nch++];
    memset(c, 0, sizeof *c);
    c->pid = next_pid++;
    if (sigsetjmp(n->fork_jb, 0) == 0) {
        u8 *sp = (u8 *) __builtin_frame_address(0) - 1024;
        u8 *top = n->stack + n->stack_size;
        n->fork_sp = sp;
        n->fork_len = top - sp;
        n->fork_stack = xrealloc(n->fork_stack, n->fork_len);
        memcpy(n->fork_stack, sp, n->fork_len);
        n->in_child = 1;
        return 0;
    }
    n = cur;
    c = &n->ch[n->nch - 1];
    if (n->fork_child_execd) c->state = 1;
    else { c->state = 2; c->status = n->fork_child_status; }
    tr("forked %d", c->pid);
    return c->pid;
}
pid_t sim_vfork(void) { return sim_fork(); }

/* The simulated linker: reads the objects, writes an output naming them. */
static struct child *start_program(const char *path, char *const argv[], int *err);

static void stub_finish(struct node *n, struct child *c)
{
    char *p;
    struct dent *d;
    struct node *save = cur;
    int status;
    if (c->state != 1) return;
    cur = n;
    c->state = 2;
    status = n->ld_signal ? n->ld_signal : (n->ld_exit & 0xff) << 8;
    p = c->outpath;
    if (status == 0 || n->ld_partial) {
        if (!check_parents(p)) {
            d = fs_lookup(p);
            if (!d) { d = dent_add(p); d->ino = inode_new(); }
            if (!d->ino->readonly && !d->ino->dir) {
                size_t len = status ? c->digest.n / 2 : c->digest.n;
                inode_resize(d->ino, len);
                memcpy(d->ino->data, c->digest.p, len);
                d->ino->touched = 1;
            }
        }
    }
    c->status = status;
    tr("linker ends status %d", status);
    cur = save;
}

struct exec_rec { int node, n; char **argv; long op; struct buf objs; };
static struct exec_rec execs[64];
static int nexecs;

static struct child *start_program(const char *path, char *const argv[], int *err)
{
    struct node *n = cur;
    struct fault *f;
    struct exec_rec *r;
    struct child *c;
    int i, has_o = 0;
    u64 h;
    char *p, *out = "a.out";
    struct dent *d;

    f = op(C_EXEC);
    if (f && f->action == 0) { tr("exec %s fails", path); *err = f->param; return NULL; }
    if (nexecs == 64) die("too many execs");
    r = &execs[nexecs++];
    r->node = n->id;
    r->op = gop;
    for (i = 0; argv[i]; ++i) ;
    r->n = i;
    r->argv = xmalloc((i + 1) * sizeof *r->argv);
    c = &n->ch[n->nch - 1];
    memset(&c->digest, 0, sizeof c->digest);
    buf_printf(&c->digest, "SIMLINK\n");
    tr("exec %s", path);
    for (i = 0; i < r->n; ++i) {
        r->argv[i] = xstrdup(argv[i]);
        tr("arg %s", argv[i]);
        buf_enc(&c->digest, argv[i]);
        if (!strcmp(argv[i], "-o") && argv[i + 1]) { out = argv[i + 1]; has_o = 1; }
        p = abspath(argv[i]);
        if (i && argv[i][0] != '-' && !(i > 1 && !strcmp(argv[i - 1], "-o"))) {
            d = fs_lookup(p);
            if (d && !d->ino->dir && !d->ino->readonly) {
                h = 1469598103934665603ull;
                hash_mix(&h, d->ino->data, d->ino->n);
                buf_printf(&c->digest, " =%zu:%016llx", d->ino->n, (unsigned long long) h);
                buf_enc(&r->objs, p);
                buf_printf(&r->objs, " %zu %016llx\n", d->ino->n, (unsigned long long) h);
            }
        }
        buf_printf(&c->digest, "\n");
        free(p);
    }
    (void) has_o;
    r->argv[i] = NULL;
    c->outpath = abspath(out);
    c->exec_op = gop;
    n->exec_count++;
    return c;
}

int sim_execvp(const char *path, char *const argv[])
{
    int e = 0;
    if (!cur->in_child) {
        /* Replacing lacc itself: treat as a child whose status is ours. */
        struct child *c = &cur->ch[cur->nch++];
        memset(c, 0, sizeof *c);
        c->pid = cur->pid;
        c = start_program(path, argv, &e);
        if (!c) { cur->nch--; errno = e; return -1; }
        c->state = 1;
        stub_finish(cur, c);
        c->state = 3;
        node_end(c->status & 0x7f ? E_SIGNAL : E_EXIT, c->status & 0x7f ? c->status & 0x7f : c->status >> 8, "exec");
    }
    if (!start_program(path, argv, &e)) { errno = e; return -1; }
    child_done(0, 1);
}
int sim_execv(const char *p, char *const argv[]) { return sim_execvp(p, argv); }
int sim_execve(const char *p, char *const argv[], char *const envp[]) { (void) envp; return sim_execvp(p, argv); }
int sim_execvpe(const char *p, char *const argv[], char *const envp[]) { (void) envp; return sim_execvp(p, argv); }
static int exec_list(const char *p, const char *a0, va_list ap)
{
    char *argv[1024];
    int n = 0;
    argv[n++] = (char *) a0;
    while (argv[n - 1] && n < 1023) argv[n++] = va_arg(ap, char *);
    argv[n] = NULL;
    return sim_execvp(p, argv);
}
int sim_execl(const char *p, const char *a0, ...) { va_list ap; int r; va_start(ap, a0); r = exec_list(p, a0, ap); va_end(ap); return r; }
int sim_execlp(const char *p, const char *a0, ...) { va_list ap; int r; va_start(ap, a0); r = exec_list(p, a0, ap); va_end(ap); return r; }

int sim_posix_spawnp(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
    struct fault *f;
    struct child *c;
    int e = 0;
    (void) fa; (void) at; (void) envp;
    f = op(C_FORK);
    if (f && f->action == 0) return f->param;
    c = &cur->ch[cur->nch++];
    memset(c, 0, sizeof *c);
    c->pid = next_pid++;
    if (!start_program(path, argv, &e)) { cur->nch--; return e; }
    c->state = 1;
    *pid = c->pid;
    return 0;
}
int sim_posix_spawn(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{ return sim_posix_spawnp(pid, path, fa, at, argv, envp); }
int sim_posix_spawn_file_actions_init(void *p) { (void) p; return 0; }
int sim_posix_spawn_file_actions_destroy(void *p) { (void) p; return 0; }
int sim_posix_spawnattr_init(void *p) { (void) p; return 0; }
int sim_posix_spawnattr_destroy(void *p) { (void) p; return 0; }

pid_t sim_wait4(pid_t pid, int *status, int opt, void *ru)
{
    struct fault *f;
    int i;
    (void) ru;
    f = op(C_WAIT);
    if (f && f->action == 0) { tr("wait -> errno %ld", f->param); errno = f->param; return -1; }
    for (i = 0; i < cur->nch; ++i) {
        struct child *c = &cur->ch[i];
        if ((pid > 0 && c->pid != pid) || c->state == 0 || c->state == 3) continue;
        if (c->state == 1) {
            if ((opt & WNOHANG) && cur->ld_late-- > 0) return 0;
            stub_finish(cur, c);
        }
        c->state = 3;
        if (status) *status = c->status;
        tr("wait -> %d status %d", c->pid, c->status);
        return c->pid;
    }
    tr("wait -> ECHILD");
    errno = ECHILD;
    return -1;
}
pid_t sim_waitpid(pid_t pid, int *status, int opt) { return sim_wait4(pid, status, opt, NULL); }
pid_t sim_wait3(int *status, int opt, void *ru) { return sim_wait4(-1, status, opt, ru); }
pid_t sim_wait(int *status) { return sim_wait4(-1, status, 0, NULL); }

int sim_system(const char *cmd)
{
    char *copy, *tok, *save, *argv[1024];
    int n = 0, e = 0;
    struct child *c;
    struct fault *f;
    if (!cmd) return 1;
    f = op(C_FORK);
    if (f && f->action == 0) { errno = f->param; return -1; }
    copy = xstrdup(cmd);
    for (tok = strtok_r(copy, " \t", &save); tok && n < 1023; tok = strtok_r(NULL, " \t", &save)) {
        size_t l = strlen(tok);
        if (l > 1 && (*tok == '\'' || *tok == '"') && tok[l - 1] == *tok) { tok[l - 1] = 0; tok++; }
        argv[n++] = tok;
    }
    argv[n] = NULL;
    if (!n) return 0;
    c = &cur->ch[cur->nch++];
    memset(c, 0, sizeof *c);
    c->pid = next_pid++;
    if (!start_program(argv[0], argv, &e)) { cur->nch--; return 127 << 8; }
    c->state = 1;
    f = op(C_WAIT);
    if (f && f->action == 0) { errno = f->param; return -1; }
    stub_finish(cur, c);
    c->state = 3;
    return c->status;
}
FILE *sim_popen(const char *c, const char *t) { (void) c; (void) t; op(C_FORK); errno = ENOSYS; return NULL; }

int sim_atexit(void (*fn)(void))
{
    if (cur->natexit == 32) return -1;
    cur->atexit_fn[cur->natexit++] = fn;
    return 0;
}

void sim__exit(int code)
{
    tr("_exit %d", code);
    if (cur->in_child) child_done((code & 0xff) << 8, 0);
    node_end(E__EXIT, code & 0xff, NULL);
}
void sim__Exit(int code) { sim__exit(code); }

void sim_exit(int code)
{
    int i;
    tr("exit %d", code);
    if (cur->in_child) {
        /* Buffered data inherited from the parent is written here too. */
        for (i = 0; i < cur->nfiles; ++i)
            if (cur->files[i].open && __fpending(cur->files[i].f)) {
                FILE *f = cur->files[i].f;
                size_t n = __fpending(f);
                sys_write(cur->files[i].fd, f->_IO_write_base, n);
            }
        child_done((code & 0xff) << 8, 0);
    }
    if (!cur->exiting) {
        cur->exiting = 1;
        while (cur->natexit > 0) cur->atexit_fn[--cur->natexit]();
        for (i = 0; i < cur->nfiles; ++i)
            if (cur->files[i].open) fflush(cur->files[i].f);
    }
    node_end(E_EXIT, code & 0xff, NULL);
}
void sim_abort(void) { node_end(E_ABORT, SIGABRT, "abort"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    char t[512];
    const char *s = strrchr(f, '/');
    (void) l;
    snprintf(t, sizeof t, "%s: %s: assertion %s", s ? s + 1 : f, fn, e);
    fprintf(sim_stderr, "%s\n", t);
    node_end(E_ABORT, SIGABRT, t);
}
void sim___assert(const char *e, const char *f, int l) { sim___assert_fail(e, f, l, "?"); }
void sim___stack_chk_fail(void) { node_end(E_SIGNAL, SIGABRT, "stack smashing"); }

int lacc_sim_knob(const char *name, int value)
{
    int i;
    if (cur)
        for (i = 0; i < cur->nknobs; ++i)
            if (!strcmp(cur->knob[i].name, name)) return cur->knob[i].value;
    return value;
}

/* ------------------------------------------------------------------ */
/* Running nodes.                                                      */

static void on_fault(int sig, siginfo_t *si, void *uc)
{
    ucontext_t *u = uc;
    char t[64];
    if (!cur) {
        fprintf(stderr, "psim: signal %d in the simulator at %p pc %llx\n", sig, si->si_addr,
            (unsigned long long) u->uc_mcontext.gregs[REG_RIP]);
        _exit(98);
    }
    snprintf(t, sizeof t, "signal %d", sig);
    node_end(E_SIGNAL, sig, t);
}

static void node_main(void)
{
    int r;
    r = lacc_main(cur->argc, cur->argv);
    sim_exit(r);
}

static void std_open(struct node *n, int fd, int kind)
{
    struct desc *d = xmalloc(sizeof *d);
    memset(d, 0, sizeof *d);
    d->used = 1;
    d->kind = kind;
    n->fds[fd] = d;
    n->nopen++;
}

static void node_start(struct node *n)
{
    size_t i;
    cur = n;
    n->stack_size = 8 << 20;
    n->stack = mmap((void *) (0x600000000000ull + (u64) n->id * 0x10000000ull), n->stack_size + 8192, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK | MAP_FIXED_NOREPLACE, -1, 0);
    if (n->stack == MAP_FAILED) die("stack mmap");
    mprotect(n->stack, 4096, PROT_NONE);
    n->stack += 4096;
    if (n->stack_fill) {
        size_t dirty = 65536;
        for (i = 0; i < dirty; i += 8) {
            u64 r = n->stack_fill == 1 ? 0xA5A5A5A5A5A5A5A5ull : splitmix(&n->rng);
            memcpy(n->stack + n->stack_size - dirty + i, &r, 8);
        }
    }
    n->globals = xmalloc(data_len + bss_len);
    memcpy(n->globals, pristine, data_len);
    memset(n->globals + data_len, 0, bss_len);
    heap_init(n);
    std_open(n, 0, 1);
    std_open(n, 1, 2);
    std_open(n, 2, 3);
    for (i = 0; i < (size_t) n->fds0 && i < 1000; ++i) std_open(n, 3 + i, 1);
    n->maxopen = n->nopen;
    n->in = file_wrap(0, "r");
    n->out = file_wrap(1, "w");
    n->err = file_wrap(2, "w");
    getcontext(&n->ctx);
    n->ctx.uc_stack.ss_sp = n->stack;
    n->ctx.uc_stack.ss_size = n->stack_size - (n->stack_off & ~15l);
    n->ctx.uc_link = NULL;
    makecontext(&n->ctx, node_main, 0);
    n->state = N_RUN;
    n->started = 1;
    n->start_op = gop;
}

static void run_phase(void)
{
    int i, live;
    volatile int round = 0;
    struct node *n;

    last_node = -1;
    for (;;) {
        /* setcontext on node end comes back here, too. */
        getcontext(&sched_ctx);
        round++;
        cur = NULL;
        live = 0;
        for (i = 0; i < nnodes; ++i)
            if (nodes[i].state != N_DONE) live++;
        if (!live) break;
        if (last_node < 0 || nodes[last_node].state == N_DONE) {
            last_node = -1;
            for (i = 0; i < nnodes; ++i)
                if (nodes[i].state != N_DONE) { last_node = i; break; }
        }
        n = &nodes[last_node];
        if (n->state == N_NEW) node_start(n);
        cur = n;
        load_globals(n);
        swapcontext(&sched_ctx, &n->ctx);
    }
    cur = NULL;
}

/* After power loss, decide what of the unsynced state survived. */
static void power_loss(void)
{
    int i, j, k;
    u64 s = power_seed;
    struct inode *n;
    for (i = 0; i < ndents; ++i) {
        n = dents[i].ino;
        if (n && n->touched && !n->dir && !n->special) {
            k = splitmix(&s) % 5;
            if (k == 0 && !dents[i].durable) { dents[i].ino = NULL; continue; }
            if (k == 1) {
                if (n->durable_valid) { inode_resize(n, n->dn); if (n->dn) memcpy(n->data, n->durable, n->dn); }
                else inode_resize(n, 0);
            } else if (k == 2 && n->n) inode_resize(n, splitmix(&s) % n->n);
            else if (k == 3) {
                for (j = 0; j < (int) n->n; j += 512)
                    if (splitmix(&s) & 1) memset(n->data + j, 0, n->n - j < 512 ? n->n - j : 512);
            }
        } else if (!n && dents[i].durable) {
            if (splitmix(&s) & 1) dents[i].ino = dents[i].durable;
        }
    }
}

/* ------------------------------------------------------------------ */
/* Plans and results.                                                  */

static char *line_buf;
static size_t line_cap;
static FILE *plan_in;

static char *next_line(void)
{
    ssize_t n = getline(&line_buf, &line_cap, plan_in);
    if (n <= 0) return NULL;
    if (line_buf[n - 1] == '\n') line_buf[n - 1] = 0;
    return line_buf;
}

static int split(char *l, char **tok, int max)
{
    int n = 0;
    char *save, *t;
    for (t = strtok_r(l, " ", &save); t && n < max; t = strtok_r(NULL, " ", &save)) tok[n++] = t;
    return n;
}

static void add_dir(const char *path)
{
    struct dent *d = dent_add(path);
    if (!d->ino) { d->ino = inode_new(); d->ino->dir = 1; d->ino->durable_valid = 1; d->durable = d->ino; }
}

static void add_parents(const char *path)
{
    char *t = xstrdup(path), *s;
    add_dir("/");
    for (s = t + 1; (s = strchr(s, '/')) != NULL; ++s) {
        *s = 0;
        add_dir(t);
        *s = '/';
    }
    free(t);
}

static void add_file(const char *path, const u8 *data, size_t n, int ro)
{
    struct dent *d;
    add_parents(path);
    d = dent_add(path);
    d->ino = inode_new();
    inode_set(d->ino, data, n);
    d->ino->readonly = ro;
    d->ino->durable = xmalloc(n);
    memcpy(d->ino->durable, data, n);
    d->ino->dn = n;
    d->ino->durable_valid = 1;
    d->durable = d->ino;
}

static void defaults(struct node *n)
{
    n->fdlimit = 1024;
    n->stepbound = 400000000;
    n->opbound = 20000000;
    n->membound = 800l << 20;
    n->stdout_full = -1;
    n->pid = 4242 + n->id;
    n->a_reuse = 1;
    n->rng = 12345;
    n->cwd = "/w";
}

static void node_opt(struct node *n, const char *k, long v)
{
    if (!strcmp(k, "fdlimit")) n->fdlimit = v;
    else if (!strcmp(k, "fds0")) n->fds0 = v;
    else if (!strcmp(k, "stepbound")) n->stepbound = v;
    else if (!strcmp(k, "opbound")) n->opbound = v;
    else if (!strcmp(k, "membound")) n->membound = v;
    else if (!strcmp(k, "stdoutfull")) n->stdout_full = v;
    else if (!strcmp(k, "pid")) n->pid = v;
    else if (!strcmp(k, "seed")) n->rng = v;
    else if (!strcmp(k, "rchunk")) n->rchunk = v;
    else if (!strcmp(k, "wchunk")) n->wchunk = v;
    else if (!strcmp(k, "bufsz")) n->bufsz = v;
    else if (!strcmp(k, "fill")) n->a_fill = v;
    else if (!strcmp(k, "fillb")) n->a_fillb = v;
    else if (!strcmp(k, "reuse")) n->a_reuse = v;
    else if (!strcmp(k, "move")) n->a_move = v;
    else if (!strcmp(k, "guard")) n->a_guard = v;
    else if (!strcmp(k, "place")) n->a_place = v;
    else if (!strcmp(k, "stackoff")) n->stack_off = v;
    else if (!strcmp(k, "stackfill")) n->stack_fill = v;
    else if (!strcmp(k, "allocp")) n->alloc_p = v;
    else if (!strcmp(k, "ldexit")) n->ld_exit = v;
    else if (!strcmp(k, "ldsignal")) n->ld_signal = v;
    else if (!strcmp(k, "ldpartial")) n->ld_partial = v;
    else if (!strcmp(k, "ldlate")) n->ld_late = v;
    else die("unknown node option %s", k);
}

static int cls_of(const char *s)
{
    int i;
    for (i = 0; i < C_NUM; ++i) if (!strcmp(cls_name[i], s)) return i;
    die("unknown class %s", s);
    return -1;
}

static struct buf res;

static void put_blob(const char *tag, const char *name, const u8 *p, size_t n)
{
    buf_printf(&res, "%s ", tag);
    buf_enc(&res, name);
    buf_printf(&res, " %zu\n", n);
    buf_put(&res, p, n);
    buf_put(&res, "\n", 1);
}

static void phase_results(int phase)
{
    int i, j, leaked;
    struct node *n;
    struct child *c;
    for (i = 0; i < nnodes; ++i) {
        n = &nodes[i];
        leaked = 0;
        for (j = 3 + n->fds0; j < MAXFD; ++j) if (n->fds[j]) leaked++;
        buf_printf(&res, "node %d %d %s %d ", phase, i, end_name[n->end], n->code);
        buf_enc(&res, n->endmsg ? n->endmsg : "");
        buf_printf(&res, "\nstat steps=%ld rbytes=%ld allocs=%ld bytes=%ld maxopen=%d leaked=%d execs=%d tmin=%ld tmax=%ld tcalls=%ld op0=%ld op1=%ld allocfail=%ld live=%ld maxlive=%ld",
            n->steps, n->rbytes, n->count[C_ALLOC], n->allocs_bytes, n->maxopen, leaked, n->exec_count,
            n->min_time, n->max_time, n->time_calls, n->start_op, n->end_op, n->heap_events, n->live_bytes, n->max_live);
        for (j = 0; j < C_NUM; ++j) buf_printf(&res, " n_%s=%ld", cls_name[j], n->count[j]);
        /* children never waited for */
        for (j = 0; j < n->nch; ++j) {
            c = &n->ch[j];
            buf_printf(&res, " child%d=%d/%d", j, c->state, c->status);
        }
        buf_printf(&res, "\nfired");
        for (j = 0; j < n->nfaults; ++j) buf_printf(&res, " %ld", n->faults[j].fired);
        for (j = 0; j < n->npf; ++j) buf_printf(&res, " p%ld", n->pf[j].fired);
        buf_printf(&res, "\n");
        put_blob("out", "stdout", n->out_data.p, n->out_data.n);
        put_blob("out", "stderr", n->err_data.p, n->err_data.n);
    }
}

static void do_run(void)
{
    char *l, *tok[64], *d;
    int n, i, phase = 0;
    struct node *nd = NULL;
    struct stat st;
    (void) st;

    nodes = xmalloc(MAXNODES * sizeof *nodes);
    memset(nodes, 0, MAXNODES * sizeof *nodes);
    nnodes = 0;
    now_base = 1700000000;
    while ((l = next_line()) != NULL) {
        if (!*l) continue;
        n = split(l, tok, 64);
        if (!strcmp(tok[0], "o")) {
            if (!strcmp(tok[1], "clock")) now_base = atol(tok[2]);
            else if (!strcmp(tok[1], "jump")) { if (njumps < 64) { jumps[njumps].op = atol(tok[2]); jumps[njumps++].delta = atol(tok[3]); } }
            else if (!strcmp(tok[1], "quota")) quota = atol(tok[2]);
            else if (!strcmp(tok[1], "trace")) want_trace = atol(tok[2]);
            else if (!strcmp(tok[1], "power")) { power_at = atol(tok[2]); power_seed = strtoull(tok[3], NULL, 10); }
            else if (!strcmp(tok[1], "every")) { switch_every = atol(tok[2]); sched_rng = strtoull(tok[3], NULL, 10); }
            else if (!strcmp(tok[1], "entropy")) entropy_seed = strtoull(tok[2], NULL, 10);
            else die("unknown option %s", tok[1]);
        } else if (!strcmp(tok[0], "w")) {
            if (nswitches < 4096) { switches[nswitches].op = atol(tok[1]); switches[nswitches++].node = atoi(tok[2]); }
        } else if (!strcmp(tok[0], "n")) {
            if (nnodes == MAXNODES) die("too many nodes");
            nd = &nodes[nnodes];
            nd->id = nnodes++;
            defaults(nd);
            nd->cwd = dec(tok[1]);
            nd->argv = xmalloc(512 * sizeof(char *));
            nd->env = xmalloc(64 * sizeof(char *));
            nd->env[0] = NULL;
        } else if (!strcmp(tok[0], "a")) {
            if (nd->argc < 510) nd->argv[nd->argc++] = dec(tok[1]);
            nd->argv[nd->argc] = NULL;
        } else if (!strcmp(tok[0], "e")) {
            if (nd->nenv < 60) nd->env[nd->nenv++] = dec(tok[1]);
            nd->env[nd->nenv] = NULL;
        } else if (!strcmp(tok[0], "k")) node_opt(nd, tok[1], atol(tok[2]));
        else if (!strcmp(tok[0], "K")) {
            if (nd->nknobs < 12) { nd->knob[nd->nknobs].name = xstrdup(tok[1]); nd->knob[nd->nknobs++].value = atoi(tok[2]); }
        } else if (!strcmp(tok[0], "f")) {
            struct fault *f;
            if (nd->nfaults == 64) die("too many faults");
            f = &nd->faults[nd->nfaults++];
            f->cls = cls_of(tok[1]);
            f->idx = atol(tok[2]);
            f->action = atoi(tok[3]);
            f->param = atol(tok[4]);
            f->param2 = n > 5 ? atol(tok[5]) : 0;
            f->sticky = n > 6 ? atoi(tok[6]) : 0;
        } else if (!strcmp(tok[0], "P")) {
            if (nd->npf < 16) {
                nd->pf[nd->npf].path = dec(tok[1]);
                nd->pf[nd->npf].err = atoi(tok[2]);
                nd->pf[nd->npf++].write = n > 3 ? atoi(tok[3]) : 2;
            }
        } else if (!strcmp(tok[0], "X")) {
            /* A file of this run only: X path readonly length */
            size_t len = strtoull(tok[3], NULL, 10);
            u8 *p = xmalloc(len + 1);
            int ro = atoi(tok[2]);
            d = dec(tok[1]);
            if (fread(p, 1, len + 1, plan_in) != len + 1) die("short plan");
            add_file(d, p, len, ro);
            free(p);
        } else if (!strcmp(tok[0], "U")) {
            d = dec(tok[1]);
            dent_add(d)->ino = NULL;
        } else if (!strcmp(tok[0], "Y")) {
            d = dec(tok[1]);
            add_parents(d);
            add_dir(d);
        } else if (!strcmp(tok[0], "p") || !strcmp(tok[0], "G")) {
            run_phase();
            for (i = 0; i < nnodes; ++i) {
                int j;
                for (j = 0; j < nodes[i].nch; ++j)
                    if (nodes[i].ch[j].state == 1) {
                        cur = &nodes[i];
                        if (!power_lost) { stub_finish(&nodes[i], &nodes[i].ch[j]); nodes[i].ch[j].state = 4; }
                        cur = NULL;
                    }
            }
            phase_results(phase++);
            if (power_lost) { power_loss(); power_lost = 0; }
            power_at = -1;
            if (*tok[0] == 'G') break;
            for (i = 0; i < nnodes; ++i) {
                if (nodes[i].heap) munmap(nodes[i].heap, HEAP_SIZE);
                if (nodes[i].stack) munmap(nodes[i].stack - 4096, nodes[i].stack_size + 8192);
            }
            memset(nodes, 0, MAXNODES * sizeof *nodes);
            nnodes = 0;
            nswitches = switch_pos = 0;
            switch_every = 0;
        } else die("bad plan line %s", tok[0]);
    }
    for (i = 0; i < nexecs; ++i) {
        int j;
        buf_printf(&res, "exec %d %ld %d", execs[i].node, execs[i].op, execs[i].n);
        for (j = 0; j < execs[i].n; ++j) { buf_printf(&res, " "); buf_enc(&res, execs[i].argv[j]); }
        buf_printf(&res, "\n");
        put_blob("objs", "objs", execs[i].objs.p, execs[i].objs.n);
    }
    for (i = 0; i < ndents; ++i) {
        struct inode *a = dents[i].ino;
        if (!a && dents[i].durable) { buf_printf(&res, "gone "); buf_enc(&res, dents[i].path); buf_printf(&res, "\n"); }
        else if (a && a->dir && a->touched) { buf_printf(&res, "mkdir "); buf_enc(&res, dents[i].path); buf_printf(&res, "\n"); }
        else if (a && !a->dir && (a->touched || a != dents[i].durable)) put_blob("file", dents[i].path, a->data, a->n);
    }
    if (want_trace) put_blob("trace", "trace", trace.p, trace.n);
    {
        u64 h = 1469598103934665603ull;
        hash_mix(&h, covmap, COVSZ);
        buf_printf(&res, "cov %ld %016llx\n", cov_edges, (unsigned long long) h);
    }
    buf_printf(&res, "sched %ld %016llx\n", sched_switches, (unsigned long long) sched_hash);
    buf_printf(&res, "done %ld %ld %016llx\n", gop, clock_now(), (unsigned long long) trace_hash);
}

/* World definitions live in the server; children inherit them by fork. */
static struct world worlds[4096];
static int nworlds;

int main(int argc, char **argv)
{
    char *l, *tok[64];
    struct world *w = NULL;
    int i;
    pid_t pid;
    static u8 altstack[65536];
    stack_t ss;
    struct sigaction sa;

    (void) argc;
    if (!getenv("PSIM_NOASLR")) {
        setenv("PSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("TZ", "UTC", 1);
    plan_in = stdin;
    data_len = __stop_lacc_data - __start_lacc_data;
    bss_len = __stop_lacc_bss - __start_lacc_bss;
    pristine = xmalloc(data_len + 1);
    memcpy(pristine, __start_lacc_data, data_len);
    /* text must not sit at a small offset from address zero */
    if ((uintptr_t) lacc_main < 0x10000000ull) die("text at a low address: %p", (void *) lacc_main);

    while ((l = next_line()) != NULL) {
        if (!*l) continue;
        i = split(l, tok, 64);
        if (!strcmp(tok[0], "H")) {
            host_prefix = xrealloc(host_prefix, (nhost + 1) * sizeof(char *));
            host_prefix[nhost++] = dec(tok[1]);
            add_parents(host_prefix[nhost - 1]);
            fs_lookup(host_prefix[nhost - 1]);
        } else if (!strcmp(tok[0], "W")) {
            /* Start a world; base tree is shared, worlds own their dents. */
            if (nworlds == 4096) die("too many worlds");
            w = &worlds[nworlds++];
            w->name = xstrdup(tok[1]);
            ndents = 0; dents = NULL; capdents = 0;
            for (i = 0; i < nhost; ++i) { add_parents(host_prefix[i]); fs_lookup(host_prefix[i]); }
            add_dir("/"); add_dir("/w"); add_dir("/tmp"); add_dir("/dev");
            { struct dent *d = dent_add("/dev/null"); d->ino = inode_new(); d->ino->special = 1; d->durable = d->ino; }
            { struct dent *d = dent_add("/dev/full"); d->ino = inode_new(); d->ino->special = 2; d->durable = d->ino; }
        } else if (!strcmp(tok[0], "F")) {
            size_t len = strtoull(tok[3], NULL, 10);
            u8 *p = xmalloc(len + 1);
            char *d = dec(tok[1]);
            int ro = atoi(tok[2]);
            if (fread(p, 1, len + 1, plan_in) != len + 1) die("short world");
            add_file(d, p, len, ro);
            free(p); free(d);
        } else if (!strcmp(tok[0], "D")) {
            char *d = dec(tok[1]);
            add_parents(d);
            add_dir(d);
            free(d);
        } else if (!strcmp(tok[0], "L")) {
            /* Preload a host file into the world. */
            char *d = dec(tok[1]);
            add_parents(d);
            fs_lookup(d);
            free(d);
        } else if (!strcmp(tok[0], "E")) {
            w->d = dents;
            w->n = ndents;
        } else if (!strcmp(tok[0], "Q")) {
            break;
        } else if (!strcmp(tok[0], "R")) {
            /* R world length: the plan follows as one blob. */
            size_t len = strtoull(tok[2], NULL, 10);
            char *plan;
            for (i = 0; i < nworlds; ++i) if (!strcmp(worlds[i].name, tok[1])) break;
            if (i == nworlds) die("no world %s", tok[1]);
            w = &worlds[i];
            plan = xmalloc(len + 1);
            if (fread(plan, 1, len, plan_in) != len) die("short plan");
            plan[len] = 0;
            fflush(stdout);
            pid = fork();
            if (pid == 0) {
                dents = xmalloc((w->n + 64) * sizeof *dents);
                memcpy(dents, w->d, w->n * sizeof *dents);
                ndents = w->n;
                capdents = w->n + 64;
                ss.ss_sp = altstack;
                ss.ss_size = sizeof altstack;
                ss.ss_flags = 0;
                sigaltstack(&ss, NULL);
                memset(&sa, 0, sizeof sa);
                sa.sa_sigaction = on_fault;
                sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
                sigaction(SIGSEGV, &sa, NULL);
                sigaction(SIGBUS, &sa, NULL);
                sigaction(SIGFPE, &sa, NULL);
                sigaction(SIGILL, &sa, NULL);
                covmap = xmalloc(COVSZ);
                memset(covmap, 0, COVSZ);
                plan_in = fmemopen(plan, len, "r");
                do_run();
                {
                    char head[64];
                    size_t o = 0;
                    ssize_t k;
                    int hl = snprintf(head, sizeof head, "result %zu\n", res.n);
                    if (write(1, head, hl) != hl) _exit(97);
                    while (o < res.n) {
                        k = write(1, res.p + o, res.n - o);
                        if (k <= 0) _exit(97);
                        o += k;
                    }
                }
                _exit(0);
            } else {
                int st = 0;
                free(plan);
                if (pid < 0) die("fork: %s", strerror(errno));
                while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
                if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                    char head[64];
                    int hl = snprintf(head, sizeof head, "broken %d\n", st);
                    if (write(1, head, hl) != hl) _exit(96);
                }
            }
        } else die("bad command %s", tok[0]);
    }
    return 0;
}
