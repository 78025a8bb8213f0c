/*
 * Simulator G: runs functions compiled by lacc instruction by instruction (trap flag) under a seeded
 * scheduler. The simulator owns what happens between any two instructions: delivery of signals, switches
 * between threads, changes to device and neighbouring memory, and garbage in every register, flag and
 * stack byte the ABI lets a callee or caller destroy. One plan is one exactly repeatable execution.
 *
 * The program is: this file, the compiled test unit between gtext_begin and gtext_end, nothing else.
 * Plans arrive on standard input, each runs in a forked child.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

extern char gtext_begin[], gtext_end[];

/* ------------------------------------------------------------------ */
/* Helpers that do not depend on libc's memory functions.             */

static int str_eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }

static u64 mix(u64 x)
{
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ x >> 31;
}

struct rng { u64 s; };
static u64 rnd(struct rng *r) { return mix(r->s += 0x9e3779b97f4a7c15ull); }

/* ------------------------------------------------------------------ */
/* Plan                                                               */

#define MAXACT 64
#define MAXTHR 8
#define MAXEV 60000
#define MAXDESC 256
#define MAXLOG 20000

enum { EV_SIG = 1, EV_SCRIB, EV_SWITCH, EV_POKE };

struct event { u32 step; u32 kind; u64 param; };

struct act {
    u64 fn, seed;
    u64 hash, n;            /* result of this run */
    u64 ret;
    u64 want_hash, want_n;  /* result when run alone */
    u64 counter;
    int has_want, live, done;
    struct rng g;           /* garbage */
};

struct desc {
    u64 addr;
    int variadic, nint, nsse;
    int w[6], s[8];
    char ret[24];
    int ext;
};

static struct {
    u64 seed, gseed;
    int garb, check_abi, obs, loop;
    u32 limit;
    u32 sig, scrib, sw, poke;    /* probabilities, out of 65536 per instruction */
    int nthr, nact, nhand, want;
    int maxsig;
    struct event *ev;
    u32 nev;
    int explicit_ev;
    int baseline;
    char *img;                   /* file to load */
    u64 stk;                     /* where the stack of the first thread ends */
    int nmem;
    struct { u64 a, n; } mem[8];
} P;

static struct act acts[MAXACT];
static struct desc descs[MAXDESC];
static int ndesc;

/* Shared with the parent. */
struct logent { u32 id, kind, off, width; u64 val; };
static struct shm {
    int viol;
    char sig[64], msg[400];
    u32 step;
    u32 steps, nsig, nscrib, nsw, npoke, ngarb, naccess, ncall, undec, maxdepth, nloop, nplt;
    u64 trace;
    u64 undec_bytes;
    u32 nev;
    u32 at[16], nat; /* text offsets of the first events */
    struct event ev[MAXEV];
    u32 nlog;
    struct logent log[MAXLOG];
    struct { u64 hash, n, ret; int done; } res[MAXACT];
    char ext[64];
} *S;

static void finish(int code) { _exit(code); }

static void violation(const char *sig, const char *fmt, ...)
{
    va_list ap;
    if (!S->viol) {
        S->viol = 1;
        S->step = S->steps;
        snprintf(S->sig, sizeof(S->sig), "%s", sig);
        va_start(ap, fmt);
        vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
        va_end(ap);
    }
    finish(1);
}

static void stop(const char *why)
{
    S->viol = 2;
    snprintf(S->msg, sizeof(S->msg), "%s", why);
    finish(2);
}

/* ------------------------------------------------------------------ */
/* Activations: what a run of a test function produces.               */

static struct act *cur;

static void note(u64 x)
{
    if (!cur) return;
    if (P.obs && S->nlog < MAXLOG) {
        struct logent *e = &S->log[S->nlog++];
        e->id = cur - acts; e->kind = 'O'; e->off = S->steps; e->width = cur->n; e->val = x;
    }
    cur->hash = mix(cur->hash ^ x) + 0x1234567;
    cur->n++;
}

static u64 scripted(void)
{
    if (!cur) return 0;
    return mix(cur->seed * 0x2545f4914f6cdd1dull + ++cur->counter);
}

static u64 dbits(double d) { union { double d; u64 u; } x; x.d = d; return x.u; }
static u64 fbits(float d) { union { float f; u32 u; } x; x.f = d; return x.u; }
static void note_ld(long double d) { union { long double d; u64 u[2]; } x; x.u[1] = 0; x.d = d; note(x.u[0]); note(x.u[1] & 0xffff); }
static double small_double(u64 r) { return (double) (int) (r % 20001) / 16 - 600; }

/* External functions of the test units: native code, results scripted per activation. */
struct s3 { unsigned char c[3]; };
struct s5 { unsigned char c[5]; };
struct s12 { float a, b, c; };
struct s16 { unsigned long a; double b; };
struct s16i { unsigned a; unsigned char b, c; unsigned long d; };
struct s24 { unsigned long a, b; unsigned c; };
struct s6 { short a, b, c; };
struct s7 { unsigned char c[7]; };
struct s11 { unsigned char c[11]; };
struct s96 { unsigned long a[12]; };

unsigned long x_u(unsigned long a) { note(1); note(a); return scripted(); }
int x_i(int a, unsigned char b, short c) { note(2); note(a); note(b); note(c); return (int) scripted(); }
signed char x_c(signed char a) { note(3); note(a); return (signed char) scripted(); }
unsigned short x_s(unsigned short a) { note(4); note(a); return (unsigned short) scripted(); }
_Bool x_b(int a) { note(5); note(a); return scripted() & 1; }
float x_f(float a, double b) { note(6); note(fbits(a)); note(dbits(b)); return (float) small_double(scripted()); }
double x_d(double a, int b) { note(7); note(dbits(a)); note(b); return small_double(scripted()); }
long double x_l(long double a, int b) { note(8); note_ld(a); note(b); return small_double(scripted()); }
void x_v(void) { note(9); }
struct s3 x_s3(struct s3 a) { struct s3 r; int i; note(10); u64 x = scripted(); for (i = 0; i < 3; ++i) { note(a.c[i]); r.c[i] = x >> 8 * i; } return r; }
struct s5 x_s5(struct s5 a) { struct s5 r; int i; note(11); u64 x = scripted(); for (i = 0; i < 5; ++i) { note(a.c[i]); r.c[i] = x >> 8 * i; } return r; }
struct s7 x_s7(struct s7 a) { struct s7 r; int i; note(31); u64 x = scripted(); for (i = 0; i < 7; ++i) { note(a.c[i]); r.c[i] = x >> 8 * i; } return r; }
struct s6 x_s6(struct s6 a) { struct s6 r; note(12); note(a.a); note(a.b); note(a.c); u64 x = scripted(); r.a = x; r.b = x >> 16; r.c = x >> 32; return r; }
struct s11 x_s11(struct s11 a) { struct s11 r; int i; note(32); u64 x = scripted(); for (i = 0; i < 11; ++i) { note(a.c[i]); r.c[i] = x >> 5 * i; } return r; }
struct s12 x_s12(struct s12 a) { struct s12 r; note(13); note(fbits(a.a)); note(fbits(a.b)); note(fbits(a.c)); r.a = small_double(scripted()); r.b = small_double(scripted()); r.c = small_double(scripted()); return r; }
struct s16 x_s16(struct s16 a, int b) { struct s16 r; note(14); note(a.a); note(dbits(a.b)); note(b); r.a = scripted(); r.b = small_double(scripted()); return r; }
struct s16i x_s16i(int b, struct s16i a) { struct s16i r; note(15); note(a.a); note(a.b); note(a.c); note(a.d); note(b); r.a = scripted(); r.b = scripted(); r.c = scripted(); r.d = scripted(); return r; }
struct s24 x_s24(struct s24 a, long b) { struct s24 r; note(16); note(a.a); note(a.b); note(a.c); note(b); r.a = scripted(); r.b = scripted(); r.c = scripted(); return r; }
struct s96 x_s96(struct s96 a) { struct s96 r; int i; note(17); for (i = 0; i < 12; ++i) { note(a.a[i]); r.a[i] = scripted(); } return r; }
unsigned long x_many(int a, double b, long c, float d, short e, long double f, char g, double h, unsigned i, long j, struct s3 k, unsigned char l, double m)
{
    note(18); note(a); note(dbits(b)); note(c); note(fbits(d)); note(e); note_ld(f); note(g); note(dbits(h)); note(i); note(j);
    note(k.c[0]); note(k.c[1]); note(k.c[2]); note(l); note(dbits(m));
    return scripted();
}
/* x_var(n, kinds, ...): kinds holds 3 bits per argument. */
int x_var(int n, unsigned long kinds, ...)
{
    va_list ap;
    int i;
    note(19); note(n); note(kinds);
    va_start(ap, kinds);
    for (i = 0; i < n; ++i, kinds >>= 3) {
        switch (kinds & 7) {
        case 0: note(va_arg(ap, int)); break;
        case 1: note(va_arg(ap, unsigned long)); break;
        case 2: note(dbits(va_arg(ap, double))); break;
        case 3: { struct s16 s = va_arg(ap, struct s16); note(s.a); note(dbits(s.b)); break; }
        case 4: { struct s3 s = va_arg(ap, struct s3); note(s.c[0]); note(s.c[1]); note(s.c[2]); break; }
        case 5: { struct s24 s = va_arg(ap, struct s24); note(s.a); note(s.b); note(s.c); break; }
        case 6: note_ld(va_arg(ap, long double)); break;
        default: { struct s12 s = va_arg(ap, struct s12); note(fbits(s.a)); note(fbits(s.b)); note(fbits(s.c)); break; }
        }
    }
    va_end(ap);
    return (int) scripted();
}
void x_vlog(int n, unsigned long kinds, va_list ap)
{
    int i;
    note(20); note(n);
    for (i = 0; i < n; ++i, kinds >>= 2) {
        switch (kinds & 3) {
        case 0: note(va_arg(ap, int)); break;
        case 1: note(va_arg(ap, unsigned long)); break;
        case 2: note(dbits(va_arg(ap, double))); break;
        default: { struct s16 s = va_arg(ap, struct s16); note(s.a); note(dbits(s.b)); break; }
        }
    }
}
void x_fill(unsigned char *p, unsigned long n) { u64 x = scripted(); note(21); note(n); while (n--) { x = mix(x + n); *p++ = (u8) x; } }
void x_hash(const void *q, unsigned long n) { const u8 *p = q; u64 h = n; note(22); while (n--) h = mix(h ^ *p++) + 77; note(h); }
void x_note(unsigned long a) { note(23); note(a); }
void x_notei(int a) { note(24); note(a); }
void x_noted(double a) { note(25); note(dbits(a)); }
void x_notef(float a) { note(26); note(fbits(a)); }
void x_notel(long double a) { note(27); note_ld(a); }

u64 gsim_call(u64 fn, u64 arg);
unsigned long x_call(unsigned long (*f)(unsigned long), unsigned long a) { unsigned long r; note(28); note(a); r = gsim_call((u64) f, a); note(r); return r; }

void gsim_done(void);
void gsim_resume(void);
void gsim_sigret(void);
int x_setjmp(long *buf);
void x_longjmp(long *buf, int v);
__asm__(
    ".text\n"
    ".globl gsim_call\ngsim_call: int3\n nop\n"
    ".globl gsim_done\ngsim_done: int3\n nop\n"
    ".globl gsim_resume\ngsim_resume: int3\n nop\n"
    ".globl gsim_sigret\ngsim_sigret: int3\n nop\n"
    ".globl x_setjmp\nx_setjmp: int3\n nop\n"
    ".globl x_longjmp\nx_longjmp: int3\n nop\n");

/* Copies made by the compiler end up here (the test unit is linked with its memcpy renamed). */
void *gsim_memcpy(void *d, const void *s, unsigned long n)
{
    u8 *p = d;
    const u8 *q = s;
    while (n--) { *p++ = *q++; __asm__ volatile(""); }
    return d;
}

/* ------------------------------------------------------------------ */
/* Watched memory                                                     */

#define MAXW 64
static struct { u64 lo, hi; u32 sh; } watch[MAXW];      /* neighbours: may not be written outside allow[] */
static struct { u64 lo, hi; } allow[MAXW];
static struct { u64 a; u32 w; int id; } scal[MAXW];      /* scalars that must be accessed whole */
static struct { u64 a; u32 w; int id, kind; u64 nread; u64 shadow; } dev[MAXW];
static struct { u64 lo, hi; } guard[MAXW];     /* memory that may not be read outside allow[] */
static int nwatch, nallow, nscal, ndev, nguard;
static u8 shadow[16384];
static u32 nshadow;
static u64 dev_seed;

static int allowed(u64 a)
{
    int i;
    for (i = 0; i < nallow; ++i)
        if (a >= allow[i].lo && a < allow[i].hi) return 1;
    return 0;
}

void x_watch(void *p, unsigned long n)
{
    unsigned long i;
    if (!n) return;
    if (nwatch >= MAXW || nshadow + n > sizeof(shadow)) stop("too much to watch");
    watch[nwatch].lo = (u64) p;
    watch[nwatch].hi = (u64) p + n;
    watch[nwatch].sh = nshadow;
    for (i = 0; i < n; ++i) shadow[nshadow + i] = ((u8 *) p)[i];
    nshadow += n;
    nwatch++;
}
void x_allow(void *p, unsigned long n)
{
    if (nallow >= MAXW) stop("too much allowed");
    allow[nallow].lo = (u64) p;
    allow[nallow++].hi = (u64) p + n;
}
/* Memory that is gone: a load that touches it would fault. */
void x_guard(void *p, unsigned long n)
{
    if (nguard >= MAXW) stop("too much to guard");
    guard[nguard].lo = (u64) p;
    guard[nguard++].hi = (u64) p + n;
}
void x_unwatch(void) { nwatch = nallow = nguard = 0; nshadow = 0; nscal = 0; ndev = 0; }
void x_scalar(void *p, unsigned long w, int id) { if (nscal >= MAXW) stop("too many scalars"); scal[nscal].a = (u64) p; scal[nscal].w = w; scal[nscal++].id = id; }
static void dev_reg(volatile void *p, unsigned long w, int id, int kind)
{
    if (ndev >= MAXW) stop("too many devices");
    /* const objects are in read-only memory */
    mprotect((void *) ((u64) p & ~4095ull), 4096, PROT_READ | PROT_WRITE);
    dev[ndev].a = (u64) p; dev[ndev].w = w; dev[ndev].id = id; dev[ndev].nread = 0; dev[ndev++].kind = kind;
}
void x_dev(volatile void *p, unsigned long w, int id) { dev_reg(p, w, id, 0); }
void x_devf(volatile void *p, unsigned long w, int id) { dev_reg(p, w, id, 1); }
/* A volatile pointer: the device only ever holds one of two addresses. */
static u64 devp_target[2];
void x_devp(volatile void *p, void *a, void *b, int id) { dev_reg(p, 8, id, 2); devp_target[0] = (u64) a; devp_target[1] = (u64) b; }
/* A volatile whose reads give small numbers. */
void x_devs(volatile void *p, unsigned long w, int id) { dev_reg(p, w, id, 3); }
void x_devb(volatile void *p, unsigned long w, int id) { dev_reg(p, w, id, 4); }
/* The object goes out of scope. */
void x_undev(volatile void *p)
{
    int i;
    for (i = 0; i < ndev; ++i) if (dev[i].a == (u64) p) dev[i--] = dev[--ndev];
    for (i = 0; i < nscal; ++i) if (scal[i].a == (u64) p) scal[i--] = scal[--nscal];
}
/* Memory the program is given. */
void *x_mem(int k)
{
    note(29); note(k);
    if (k < 0 || k >= P.nmem) stop("no such memory");
    return (void *) P.mem[k].a;
}
static u64 devval(int k, u64 v)
{
    /* addresses differ between the compilers */
    return dev[k].kind != 2 || !v ? v : v == devp_target[0] ? 1 : v == devp_target[1] ? 2 : 3;
}

static u64 peek(u64 a, u32 w)
{
    switch (w) {
    case 1: return *(volatile u8 *) a;
    case 2: return *(volatile uint16_t *) a;
    case 4: return *(volatile u32 *) a;
    case 8: return *(volatile u64 *) a;
    }
    u64 h = 0; u32 i;
    for (i = 0; i < w; ++i) h = mix(h ^ *(u8 *) (a + i));
    return h;
}
static void poke(u64 a, u32 w, u64 v)
{
    u32 i;
    for (i = 0; i < w && i < 8; ++i) *(volatile u8 *) (a + i) = v >> 8 * i;
}

static void logdev(int id, int kind, u32 off, u32 w, u64 v)
{
    struct logent *e;
    if (S->nlog >= MAXLOG) stop("log full");
    e = &S->log[S->nlog++];
    e->id = id; e->kind = kind; e->off = off; e->width = w; e->val = v;
}

/* ------------------------------------------------------------------ */
/* Threads                                                            */

#define STACK (192 * 1024)
#define MAXREC 200
#define MAXSIGD 3

struct ctx {
    greg_t g[NGREG];
    u8 fp[512];
};

struct rec {
    u64 ret, sp;
    u64 cs[6];      /* callee-saved registers the caller has a right to find again */
    u64 given[6];   /* what the callee was started with */
    u64 rdi;
    int desc, ext;
};

struct access { u64 a; u32 w; u8 r, wr; };

#define MAXLOOP 128
struct thread {
    struct ctx c;
    int act, state;             /* 0 unused, 1 runnable, 2 done */
    int step;                   /* in the test unit (trap flag) */
    int call, ret;              /* the instruction being stepped is a call or return */
    struct rec rec[MAXREC];
    int nrec;
    struct { struct ctx c; struct act *cur; int hact; int nrec; int call, ret; } sg[MAXSIGD];
    int nsg;
    struct access acc[4];
    int nacc;
    u64 pc;                     /* of the instruction being stepped */
    struct { u64 to, sp; int depth, fpu; u32 n, lower; } lp[MAXLOOP];    /* targets of backward jumps */
    int nlp;
    u8 *stack;
};

static struct thread thr[MAXTHR];
static struct act *thr_cur[MAXTHR];
static int me;
static struct rng sched;
static u32 evpos;

enum { R8 = REG_R8 };
static const int csreg[6] = { REG_RBX, REG_RBP, REG_R12, REG_R13, REG_R14, REG_R15 };
static const char *csname[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
static const int argreg[6] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };

/* An image written by lib/glink.py: modules placed by the simulated loader. */
#define MAXSTUB 512
static struct { u64 lo, hi; } range[16];
static int nrange;
static struct { u64 a, to; } stub[MAXSTUB];
static int nstub;

static int in_text(u64 a)
{
    int i;
    if (!nrange) return a >= (u64) gtext_begin && a < (u64) gtext_end;
    for (i = 0; i < nrange; ++i) if (a >= range[i].lo && a < range[i].hi) return 1;
    return 0;
}
static u64 stub_target(u64 a)
{
    int i;
    for (i = 0; i < nstub; ++i) if (stub[i].a == a) return stub[i].to;
    return 0;
}

static int find_desc(u64 a)
{
    int i;
    for (i = 0; i < ndesc; ++i) if (descs[i].addr == a) return i;
    return -1;
}

/* ------------------------------------------------------------------ */
/* Decoding of memory operands                                        */

#define A_R 1
#define A_W 2

static greg_t *gx;

static u64 regval(int n)
{
    static const int m[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
        REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
    return gx[m[n]];
}

/* Decode the instruction at rip. Fills in t->acc, t->call and t->ret. Returns 0 when unknown. */
static int decode(struct thread *t, greg_t *g)
{
    const u8 *p = (const u8 *) g[REG_RIP];
    int rex = 0, opsz = 0, rep = 0, seg = 0, w, op, mod, rm, reg, imm = 0, mode = 0, mem = 0, map = 0;
    u32 width = 0;
    u64 ea = 0;

    gx = g;
    t->nacc = t->call = t->ret = 0;
    for (;; ++p) {
        if (*p == 0x66) opsz = 1;
        else if (*p == 0xf2 || *p == 0xf3) rep = *p;
        else if (*p == 0x2e || *p == 0x3e || *p == 0x64 || *p == 0x65 || *p == 0x26 || *p == 0x36) seg = *p;
        else if (*p == 0xf0 || *p == 0x67) { if (*p == 0x67) return 0; }
        else break;
    }
    if ((*p & 0xf0) == 0x40) rex = *p++;
    w = rex & 8 ? 8 : opsz ? 2 : 4;
    op = *p++;
    if (op == 0x0f) { map = 1; op = *p++; if (op == 0x38 || op == 0x3a) return 0; }
    if (op == 0xc4 || op == 0xc5 || op == 0x62) if (!map) return 0;

    /* Does the instruction have a ModRM byte? */
    int modrm;
    if (!map) {
        modrm = (op < 0x40 && (op & 7) < 4) || op == 0x63 || op == 0x69 || op == 0x6b || (op >= 0x80 && op <= 0x8f)
            || op == 0xc0 || op == 0xc1 || op == 0xc6 || op == 0xc7 || (op >= 0xd0 && op <= 0xd3) || (op >= 0xd8 && op <= 0xdf)
            || op == 0xf6 || op == 0xf7 || op == 0xfe || op == 0xff;
    } else {
        modrm = !((op >= 0x80 && op <= 0x8f) || op == 0x05 || op == 0x0b || op == 0x31 || op == 0xa2 || (op >= 0xc8 && op <= 0xcf) || op == 0x77);
    }
    if (!modrm) {
        if (!map) {
            if (op == 0xe8) { t->call = 1; return 1; }
            if (op == 0xc3 || op == 0xc2) { t->ret = 1; return 1; }
            if ((op >= 0x50 && op <= 0x57) || op == 0x68 || op == 0x6a) {
                t->acc[0].a = g[REG_RSP] - 8; t->acc[0].w = 8; t->acc[0].r = 0; t->acc[0].wr = 1; t->nacc = 1;
                return 1;
            }
            if (op == 0xa4 || op == 0xa5) {
                u32 n = op == 0xa4 ? 1 : w;
                if (rep && !g[REG_RCX]) return 1;
                t->acc[0].a = g[REG_RSI]; t->acc[0].w = n; t->acc[0].r = 1; t->acc[0].wr = 0;
                t->acc[1].a = g[REG_RDI]; t->acc[1].w = n; t->acc[1].r = 0; t->acc[1].wr = 1;
                t->nacc = 2;
                return 1;
            }
            if (op == 0xaa || op == 0xab) {
                if (rep && !g[REG_RCX]) return 1;
                t->acc[0].a = g[REG_RDI]; t->acc[0].w = op == 0xaa ? 1 : w; t->acc[0].r = 0; t->acc[0].wr = 1;
                t->nacc = 1;
                return 1;
            }
            if (op >= 0xa0 && op <= 0xa3) {
                t->acc[0].a = *(u64 *) p; t->acc[0].w = op & 1 ? w : 1;
                t->acc[0].r = op < 0xa2; t->acc[0].wr = op >= 0xa2; t->nacc = 1;
                return 1;
            }
            if (op >= 0x6c && op <= 0x6f) return 0;
            if (op == 0xa6 || op == 0xa7 || (op >= 0xac && op <= 0xaf)) return 0;
            if (op == 0xcc || op == 0xcd || op == 0xf4) return 0;
            return 1;
        }
        return op != 0x05 && op != 0x0b;
    }

    mod = *p >> 6; reg = *p >> 3 & 7; rm = *p & 7; p++;
    if (mod != 3) {
        long disp = 0;
        int riprel = 0;
        mem = 1;
        if (rm == 4) {
            int sib = *p++, base = sib & 7, idx = sib >> 3 & 7;
            if (rex & 2) idx |= 8;
            if (idx != 4) ea += regval(idx) << (sib >> 6);
            if (base == 5 && mod == 0) { disp = *(int32_t *) p; p += 4; }
            else ea += regval(base | (rex & 1 ? 8 : 0));
        } else if (rm == 5 && mod == 0) {
            riprel = 1; disp = *(int32_t *) p; p += 4;
        } else ea += regval(rm | (rex & 1 ? 8 : 0));
        if (mod == 1) disp = *(signed char *) p++;
        else if (mod == 2) { disp = *(int32_t *) p; p += 4; }
        ea += disp;
        if (riprel) {
            if (!map) {
                if (op == 0x80 || op == 0x82 || op == 0x83 || op == 0xc0 || op == 0xc1 || op == 0xc6 || op == 0x6b) imm = 1;
                else if (op == 0x81 || op == 0xc7 || op == 0x69) imm = opsz ? 2 : 4;
                else if (op == 0xf6 && reg < 2) imm = 1;
                else if (op == 0xf7 && reg < 2) imm = opsz ? 2 : 4;
            } else if (op == 0x70 || op == 0xc2 || op == 0xc4 || op == 0xc5 || op == 0xc6 || op == 0xa4 || op == 0xac || op == 0xba || (op >= 0x71 && op <= 0x73)) imm = 1;
            ea += (u64) p + imm;
        }
    }
    if (!map) {
        if (op < 0x40) {
            int k = op & 7, cmp = (op & 0x38) == 0x38;
            width = k & 1 ? w : 1;
            mode = k < 2 && !cmp ? A_R | A_W : A_R;
        } else switch (op) {
        case 0x63: width = 4; mode = A_R; break;
        case 0x69: case 0x6b: width = w; mode = A_R; break;
        case 0x80: case 0x82: width = 1; mode = reg == 7 ? A_R : A_R | A_W; break;
        case 0x81: case 0x83: width = w; mode = reg == 7 ? A_R : A_R | A_W; break;
        case 0x84: width = 1; mode = A_R; break;
        case 0x85: width = w; mode = A_R; break;
        case 0x86: width = 1; mode = A_R | A_W; break;
        case 0x87: width = w; mode = A_R | A_W; break;
        case 0x88: width = 1; mode = A_W; break;
        case 0x89: width = w; mode = A_W; break;
        case 0x8a: width = 1; mode = A_R; break;
        case 0x8b: width = w; mode = A_R; break;
        case 0x8d: mode = 0; break;
        case 0x8f: width = 8; mode = A_W; break;
        case 0xc0: case 0xd0: case 0xd2: width = 1; mode = A_R | A_W; break;
        case 0xc1: case 0xd1: case 0xd3: width = w; mode = A_R | A_W; break;
        case 0xc6: width = 1; mode = A_W; break;
        case 0xc7: width = w; mode = A_W; break;
        case 0xf6: width = 1; mode = reg == 2 || reg == 3 ? A_R | A_W : A_R; break;
        case 0xf7: width = w; mode = reg == 2 || reg == 3 ? A_R | A_W : A_R; break;
        case 0xfe: width = 1; mode = A_R | A_W; break;
        case 0xff:
            if (reg < 2) { width = w; mode = A_R | A_W; }
            else if (reg == 2) { t->call = 1; width = 8; mode = A_R; }
            else if (reg == 4 || reg == 6) { width = 8; mode = A_R; }
            else return 0;
            break;
        case 0xd8: case 0xdc: case 0xda: case 0xde:
            width = op == 0xd8 || op == 0xda ? 4 : op == 0xdc ? 8 : 2; mode = A_R; break;
        case 0xd9:
            if (reg == 0) { width = 4; mode = A_R; }
            else if (reg == 2 || reg == 3) { width = 4; mode = A_W; }
            else if (reg == 5) { width = 2; mode = A_R; }
            else if (reg == 7) { width = 2; mode = A_W; }
            else if (mem) return 0;
            break;
        case 0xdb:
            if (reg == 0) { width = 4; mode = A_R; }
            else if (reg <= 3) { width = 4; mode = A_W; }
            else if (reg == 5) { width = 10; mode = A_R; }
            else if (reg == 7) { width = 10; mode = A_W; }
            else if (mem) return 0;
            break;
        case 0xdd:
            if (reg == 0) { width = 8; mode = A_R; }
            else if (reg <= 3) { width = 8; mode = A_W; }
            else if (reg == 7) { width = 2; mode = A_W; }
            else if (mem) return 0;
            break;
        case 0xdf:
            if (reg == 0) { width = 2; mode = A_R; }
            else if (reg <= 3) { width = 2; mode = A_W; }
            else if (reg == 5) { width = 8; mode = A_R; }
            else if (reg == 7) { width = 8; mode = A_W; }
            else if (mem) return 0;
            break;
        default: if (mem) return 0;
        }
    } else {
        int sw = rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : 16;
        switch (op) {
        case 0x10: width = sw; mode = A_R; break;
        case 0x11: width = sw; mode = A_W; break;
        case 0x12: case 0x16: width = 8; mode = A_R; break;
        case 0x13: case 0x17: width = 8; mode = A_W; break;
        case 0x14: case 0x15: width = 16; mode = A_R; break;
        case 0x18: case 0x1f: case 0x1e: mode = 0; break;
        case 0x28: width = 16; mode = A_R; break;
        case 0x29: case 0x2b: width = 16; mode = A_W; break;
        case 0x2a: width = rex & 8 ? 8 : 4; mode = A_R; break;
        case 0x2c: case 0x2d: width = rep == 0xf3 ? 4 : 8; mode = A_R; break;
        case 0x2e: case 0x2f: width = opsz ? 8 : 4; mode = A_R; break;
        case 0x51: case 0x58: case 0x59: case 0x5c: case 0x5d: case 0x5e: case 0x5f: width = sw; mode = A_R; break;
        case 0x5a: width = rep == 0xf3 ? 4 : rep == 0xf2 ? 8 : opsz ? 16 : 8; mode = A_R; break;
        case 0x5b: case 0x54: case 0x55: case 0x56: case 0x57: width = 16; mode = A_R; break;
        case 0x6e: width = rex & 8 ? 8 : 4; mode = A_R; break;
        case 0x7e: if (rep == 0xf3) { width = 8; mode = A_R; } else { width = rex & 8 ? 8 : 4; mode = A_W; } break;
        case 0xd6: width = 8; mode = A_W; break;
        case 0x6f: width = 16; mode = A_R; break;
        case 0x7f: case 0xe7: width = 16; mode = A_W; break;
        case 0xc3: width = w; mode = A_W; break;
        case 0x60: case 0x61: case 0x62: case 0x6c: case 0x6d: case 0x70: case 0xc6: case 0xef: case 0xeb: case 0xdb: case 0xdf:
        case 0xfa: case 0xfb: case 0xfc: case 0xfd: case 0xfe: case 0xd4: case 0x74: case 0x75: case 0x76: case 0x64: case 0x65: case 0x66: case 0xf4:
            width = 16; mode = A_R; break;
        case 0xaf: width = w; mode = A_R; break;
        case 0xb6: case 0xbe: width = 1; mode = A_R; break;
        case 0xb7: case 0xbf: width = 2; mode = A_R; break;
        case 0xa3: width = w; mode = A_R; break;
        case 0xb8: case 0xbc: case 0xbd: width = w; mode = A_R; break;
        case 0xab: case 0xb3: case 0xbb: case 0xc1: case 0xb1: case 0xa4: case 0xa5: case 0xac: case 0xad: width = w; mode = A_R | A_W; break;
        case 0xba: width = w; mode = reg == 4 ? A_R : A_R | A_W; break;
        case 0xc0: case 0xb0: width = 1; mode = A_R | A_W; break;
        case 0xae: if (reg == 2) { width = 4; mode = A_R; } else if (reg == 3) { width = 4; mode = A_W; } else if (mem) return 0; break;
        default:
            if (op >= 0x40 && op <= 0x4f) { width = w; mode = A_R; break; }
            if (op >= 0x90 && op <= 0x9f) { width = 1; mode = A_W; break; }
            if (mem) return 0;
        }
    }
    if (mem && mode) {
        if (seg == 0x64 || seg == 0x65) return 1;
        t->acc[0].a = ea; t->acc[0].w = width; t->acc[0].r = mode & 1; t->acc[0].wr = mode >> 1; t->nacc = 1;
        if (!map && op == 0xff && reg == 6) {
            t->acc[1].a = g[REG_RSP] - 8; t->acc[1].w = 8; t->acc[1].r = 0; t->acc[1].wr = 1; t->nacc = 2;
        }
    }
    return 1;
}

/* ------------------------------------------------------------------ */
/* Garbage                                                            */

static struct _libc_fpstate *fx;

static struct rng *grng(void) { return cur ? &cur->g : &sched; }

static u64 garbage(void)
{
    u64 r = rnd(grng());
    switch (r & 7) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 0x8000000000000000ull >> (r >> 8 & 63);
    default: return mix(r);
    }
}

static void garble_xmm(int i, int keepbits)
{
    u32 *e = fx->_xmm[i].element;
    u64 a = garbage(), b = garbage();
    if (keepbits < 32) e[0] = a;
    if (keepbits < 64) e[1] = a >> 32;
    if (keepbits < 128) e[2] = b, e[3] = b >> 32;
}

static void garble_flags(greg_t *g)
{
    u64 m = 0x8d5; /* OF SF ZF AF PF CF */
    g[REG_EFL] = (g[REG_EFL] & ~m) | (garbage() & m);
}

static void garble_stack(u64 hi, u32 n)
{
    u64 *p = (u64 *) (hi & ~7ull);
    u64 x = garbage();
    u32 i;
    for (i = 1; i <= n / 8; ++i) p[-(long) i] = x, x = x * 6364136223846793005ull + 1442695040888963407ull;
}

static void garble_narrow(greg_t *g, int reg, int bits)
{
    u64 m;
    if (bits >= 64) return;
    m = (1ull << bits) - 1;
    g[reg] = (g[reg] & m) | (garbage() & ~m);
}

static void garble_entry(greg_t *g, struct rec *r)
{
    struct desc *d = r->desc >= 0 ? &descs[r->desc] : NULL;
    int i, vec = 8;
    S->ngarb++;
    for (i = 0; i < 6; ++i) if (d && i >= d->nint) g[argreg[i]] = garbage();
    for (i = 0; i < 6; ++i) if (d && i < d->nint) garble_narrow(g, argreg[i], d->w[i]);
    g[REG_R11] = garbage();
    g[REG_R10] = garbage();
    if (d && d->variadic) {
        int al = g[REG_RAX] & 255;
        vec = al;       /* al bounds the vector registers that hold arguments */
        if (al < 8 && al > 0) al += garbage() % (9 - al);
        g[REG_RAX] = (garbage() & ~255ull) | al;
    } else if (d) g[REG_RAX] = garbage();
    for (i = 0; i < 16; ++i) {
        if (i < 8 && (!d || (d->variadic && i < vec))) continue;
        garble_xmm(i, i < 8 && i < d->nsse ? d->s[i] : 0);
    }
    garble_flags(g);
    for (i = 0; i < 6; ++i) g[csreg[i]] = garbage();
    garble_stack(g[REG_RSP], 4096);
}

static void garble_return(greg_t *g, int desc)
{
    const char *r = desc >= 0 ? descs[desc].ret : "?";
    int a = 0, d = 0, x0 = 0, x1 = 0, i;
    if (*r == '?') a = d = 64, x0 = x1 = 128;
    for (; *r; ++r) {
        if (*r == 'a') a = atoi(r + 1);
        if (*r == 'd') d = atoi(r + 1);
        if (*r == 'x') x0 = atoi(r + 1);
        if (*r == 'y') x1 = atoi(r + 1);
    }
    S->ngarb++;
    if (a) garble_narrow(g, REG_RAX, a); else g[REG_RAX] = garbage();
    if (d) garble_narrow(g, REG_RDX, d); else g[REG_RDX] = garbage();
    for (i = 0; i < 6; ++i) if (argreg[i] != REG_RDX) g[argreg[i]] = garbage();
    g[REG_R10] = garbage();
    g[REG_R11] = garbage();
    for (i = 0; i < 16; ++i) garble_xmm(i, i == 0 ? x0 : i == 1 ? x1 : 0);
    garble_flags(g);
    garble_stack(g[REG_RSP], 4096);
}

/* ------------------------------------------------------------------ */
/* ABI invariants                                                     */

static int x87_depth(void)
{
    /* FXSAVE abridged tag word: one bit per register in use. */
    int n = 0, t = fx->ftw & 255;
    for (; t; t >>= 1) n += t & 1;
    return n;
}

static void check_common(greg_t *g, const char *where, int depth)
{
    char sg[64];
    if (!P.check_abi) return;
    if (g[REG_EFL] & 0x400) { snprintf(sg, sizeof sg, "%s:df", where); violation(sg, "direction flag set at a %s", where); }
    if (fx->cwd != 0x37f) { snprintf(sg, sizeof sg, "%s:fpcw", where); violation(sg, "x87 control word is %x at a %s", fx->cwd, where); }
    if ((fx->mxcsr & 0xffc0) != 0x1f80) { snprintf(sg, sizeof sg, "%s:mxcsr", where); violation(sg, "MXCSR control bits are %x at a %s", fx->mxcsr & 0xffc0, where); }
    if (x87_depth() != depth) { snprintf(sg, sizeof sg, "%s:x87", where); violation(sg, "%d x87 registers in use at a %s, not %d", x87_depth(), where, depth); }
}

static const char *fname(int desc) { (void) desc; return ""; }

/* ------------------------------------------------------------------ */
/* The step engine                                                    */

static void save_ctx(struct ctx *c, greg_t *g)
{
    unsigned i;
    for (i = 0; i < NGREG; ++i) c->g[i] = g[i];
    for (i = 0; i < 64; ++i) ((u64 *) c->fp)[i] = ((u64 *) fx)[i];
}

static void load_ctx(const struct ctx *c, greg_t *g)
{
    unsigned i;
    for (i = 0; i < 18; ++i) if (i != REG_CSGSFS) g[i] = c->g[i];
    for (i = 0; i < 416 / 8; ++i) ((u64 *) fx)[i] = ((u64 *) c->fp)[i];
}

static void trace(u64 x) { S->trace = mix(S->trace ^ x) + 1; }

static void push_rec(struct thread *t, greg_t *g, int ext)
{
    struct rec *r;
    int i;
    if (t->nrec >= MAXREC) stop("calls too deep");
    while (t->nlp && t->lp[t->nlp - 1].depth > t->nrec) t->nlp--;
    r = &t->rec[t->nrec++];
    if ((u32) t->nrec > S->maxdepth) S->maxdepth = t->nrec;
    r->sp = g[REG_RSP];
    r->ret = *(u64 *) r->sp;
    r->rdi = g[REG_RDI];
    r->ext = ext;
    r->desc = find_desc(g[REG_RIP]);
    for (i = 0; i < 6; ++i) r->cs[i] = g[csreg[i]];
    if (!ext) {
        if (P.garb) garble_entry(g, r);
        for (i = 0; i < 6; ++i) r->given[i] = g[csreg[i]];
    }
    S->ncall++;
}

static void check_memcpy(greg_t *g)
{
    u64 d = g[REG_RDI], s = g[REG_RSI], n = g[REG_RDX], a;
    int i, k;
    for (i = 0; i < nwatch; ++i)
        for (a = d > watch[i].lo ? d : watch[i].lo; a < d + n && a < watch[i].hi; ++a)
            if (!allowed(a)) violation("neighbour-written", "memcpy of %lu bytes writes byte %lu outside the object", (long) n, (long) (a - d));
    for (i = 0; i < nguard; ++i)
        for (a = s > guard[i].lo ? s : guard[i].lo; a < s + n && a < guard[i].hi; ++a)
            if (!allowed(a)) violation("guard-read", "memcpy of %lu bytes reads byte %lu outside the object", (long) n, (long) (a - s));
    for (i = 0; i < ndev; ++i)
        for (k = 0; k < 2; ++k) {
            a = k ? d : s;
            if (a < dev[i].a + dev[i].w && a + n > dev[i].a) logdev(dev[i].id, 'M' + k, 0, n, 0);
        }
}

static void after_access(struct thread *t)
{
    int i, k;
    u64 a;
    u32 j;
    for (i = 0; i < t->nacc; ++i) {
        struct access *x = &t->acc[i];
        if (!x->wr) continue;
        for (k = 0; k < ndev; ++k)
            if (x->a < dev[k].a + dev[k].w && x->a + x->w > dev[k].a) {
                logdev(dev[k].id, 'W', (u32) (x->a - dev[k].a), x->w, devval(k, peek(x->a, x->w)));
            }
    }
    for (i = 0; i < nwatch; ++i)
        for (a = watch[i].lo, j = watch[i].sh; a < watch[i].hi; ++a, ++j)
            if (*(u8 *) a != shadow[j]) {
                if (allowed(a)) shadow[j] = *(u8 *) a;
                else violation("neighbour-changed", "byte %lu of watched memory, outside the object assigned, changed from %02x to %02x",
                    (long) (a - watch[i].lo), shadow[j], *(u8 *) a);
            }
}

static void before_access(struct thread *t)
{
    int i, k;
    u64 a;
    for (i = 0; i < t->nacc; ++i) {
        struct access *x = &t->acc[i];
        if (x->wr && nwatch) S->naccess++;
        if (x->r && nguard) {
            S->naccess++;
            for (k = 0; k < nguard; ++k)
                for (a = x->a > guard[k].lo ? x->a : guard[k].lo; a < x->a + x->w && a < guard[k].hi; ++a)
                    if (!allowed(a)) violation("guard-read", "a %d byte load reads byte %lu of memory next to the object that is read", x->w, (long) (a - guard[k].lo));
        }
        if (x->wr)
            for (k = 0; k < nwatch; ++k)
                for (a = x->a > watch[k].lo ? x->a : watch[k].lo; a < x->a + x->w && a < watch[k].hi; ++a)
                    if (!allowed(a)) violation("neighbour-written", "a %d byte store writes byte %lu of watched memory, outside the object assigned", x->w, (long) (a - watch[k].lo));
        for (k = 0; k < nscal; ++k)
            if (x->a < scal[k].a + scal[k].w && x->a + x->w > scal[k].a) {
                S->naccess++;
                /* converting to a narrower type may load only the part that is kept */
                if (x->a != scal[k].a || (x->wr ? x->w != scal[k].w : x->w > scal[k].w))
                    violation(x->wr ? "torn-store" : "torn-load", "object %d of %d bytes is %s by an access of %d bytes at offset %ld",
                        scal[k].id, scal[k].w, x->wr ? "written" : "read", x->w, (long) (x->a - scal[k].a));
            }
        for (k = 0; k < ndev; ++k)
            if (x->a < dev[k].a + dev[k].w && x->a + x->w > dev[k].a && x->r) {
                u64 v = mix(dev_seed + dev[k].id * 1000003ull + ++dev[k].nread);
                if (dev[k].kind == 1) v = dev[k].w == 4 ? fbits(small_double(v)) : dbits(small_double(v));
                else if (dev[k].kind == 2) v = devp_target[v & 1];
                else if (dev[k].kind == 3) v &= 3;
                else if (dev[k].kind == 4) v = v >> 7 & 1;
                else if ((v & 15) == 3) v = 0;
                else if ((v & 15) == 5) v = 1;
                poke(dev[k].a, dev[k].w, v);
                S->naccess++;
                logdev(dev[k].id, 'R', (u32) (x->a - dev[k].a), x->w, x->w == dev[k].w ? devval(k, v) & (x->w == 8 ? ~0ull : (1ull << 8 * x->w) - 1) : 0);
            }
    }
    for (k = 0; k < nwatch; ++k) {
        u32 j;
        for (a = watch[k].lo, j = watch[k].sh; a < watch[k].hi; ++a, ++j)
            if (allowed(a)) shadow[j] = *(u8 *) a;
    }
}

static u64 at_rip;

static void event(u32 kind, u64 param)
{
    if (S->nat < 16) S->at[S->nat++] = (u32) (at_rip - (u64) gtext_begin);
    if (!P.explicit_ev) {
        if (S->nev < MAXEV) {
            S->ev[S->nev].step = S->steps;
            S->ev[S->nev].kind = kind;
            S->ev[S->nev++].param = param;
        }
    }
    trace(kind * 0x10001 + param);
}

static int runnable(int i) { return thr[i].state == 1; }

static void switch_to(int i, greg_t *g)
{
    if (i == me) return;
    save_ctx(&thr[me].c, g);
    thr_cur[me] = cur;
    me = i;
    load_ctx(&thr[me].c, g);
    cur = thr_cur[me];
    S->nsw++;
}

static void gsim_handler(u64 k);

static void deliver(u64 param, greg_t *g)
{
    struct thread *t = &thr[me];
    u64 sp = g[REG_RSP] - 128;
    struct rng r;
    u64 *q, x;
    int i, h = (int) (param & 0xff) - 1;

    r.s = param;
    x = rnd(&r);
    for (q = (u64 *) (sp & ~7ull), i = 1; i <= 3072 / 8; ++i) q[-i] = x, x = x * 6364136223846793005ull + 1442695040888963407ull;
    S->nscrib++;
    if (h < 0 || h >= P.nhand || acts[P.nthr + h].live || t->nsg >= MAXSIGD) return;
    S->nsig++;
    save_ctx(&t->sg[t->nsg].c, g);
    t->sg[t->nsg].cur = cur;
    t->sg[t->nsg].hact = P.nthr + h;
    t->sg[t->nsg].nrec = t->nrec;
    t->nsg++;
    sp = ((sp - 1024) & ~15ull) - 8;
    *(u64 *) sp = (u64) gsim_sigret;
    g[REG_RSP] = sp;
    g[REG_RDI] = P.nthr + h;
    g[REG_RIP] = (u64) gsim_handler;
    g[REG_EFL] &= ~0x500ull;
    /* the kernel gives handlers a fresh floating point state */
    fx->ftw = 0; fx->swd = 0; fx->cwd = 0x37f; fx->mxcsr = 0x1f80;
    t->step = 0;
}

/* Decide what happens before the next instruction of the running thread. */
static void decide(greg_t *g)
{
    for (;;) {
        struct thread *t = &thr[me];
        u32 kind = 0;
        at_rip = g[REG_RIP];
        u64 param = 0;
        if (P.explicit_ev) {
            while (evpos < P.nev && P.ev[evpos].step < S->steps) evpos++;
            if (evpos >= P.nev || P.ev[evpos].step != S->steps) return;
            kind = P.ev[evpos].kind;
            param = P.ev[evpos++].param;
        } else {
            u64 r = rnd(&sched);
            u32 x = r & 0xffff;
            if (x < P.sig) { kind = EV_SIG; param = (rnd(&sched) & ~0xffull) | (P.nhand ? 1 + rnd(&sched) % P.nhand : 0); }
            else if ((x -= P.sig) < P.scrib) { kind = EV_SIG; param = rnd(&sched) & ~0xffull; }
            else if ((x -= P.scrib) < P.sw && P.nthr > 1) { kind = EV_SWITCH; param = rnd(&sched) % P.nthr; }
            else if ((x -= P.sw) < P.poke && nwatch) { kind = EV_POKE; param = rnd(&sched); }
            else return;
        }
        switch (kind) {
        case EV_SIG:
            if (!t->step) return;
            if ((param & 0xff) && S->nsig >= (u32) P.maxsig) return;
            event(kind, param);
            deliver(param, g);
            if (!t->step || !P.explicit_ev) return;
            break;
        case EV_SWITCH:
            if (runnable((int) param) && (int) param != me) {
                event(kind, param);
                switch_to((int) param, g);
                if (!thr[me].step) return;
            }
            if (!P.explicit_ev) return;
            break;
        case EV_POKE: {
            u64 k, a;
            if (!nwatch) break;
            k = (param >> 8) % nwatch;
            a = watch[k].lo + (param >> 16) % (watch[k].hi - watch[k].lo);
            if (allowed(a)) { if (!P.explicit_ev) return; break; }
            event(kind, param);
            *(u8 *) a = (u8) param;
            shadow[watch[k].sh + (a - watch[k].lo)] = (u8) param;
            S->npoke++;
            if (!P.explicit_ev) return;
            break;
        }
        }
    }
}

/* The running thread is about to execute at rip. */
static void resume(greg_t *g)
{
    for (;;) {
        struct thread *t = &thr[me];
        if (!t->step) { g[REG_EFL] &= ~0x100ull; return; }
        decide(g);
        t = &thr[me];
        if (!t->step) { g[REG_EFL] &= ~0x100ull; return; }
        break;
    }
    thr[me].pc = g[REG_RIP];
    if (++S->steps > P.limit) stop("step limit");
    trace(g[REG_RIP] - (u64) gtext_begin + ((u64) me << 32));
    if (!decode(&thr[me], g)) {
        S->undec++;
        S->undec_bytes = *(u64 *) g[REG_RIP];
        if (nwatch || nscal || ndev || nguard) stop("unknown instruction");
    }
    if (nwatch || nscal || ndev || nguard) before_access(&thr[me]);
    g[REG_EFL] |= 0x100;
}

static void arrive_call(struct thread *t, greg_t *g)
{
    u64 rip = g[REG_RIP], to = stub_target(rip);
    if (to) {
        /* through the procedure linkage table, which may use r11 */
        g[REG_RIP] = rip = to;
        g[REG_R11] = mix(to ^ S->steps);
        S->nplt++;
    }
    if (P.check_abi) {
        if ((g[REG_RSP] + 8) & 15) violation("call:align", "stack pointer ends in %x before a call", (unsigned) (g[REG_RSP] + 8) & 15);
        check_common(g, "call", 0);
    }
    if (in_text(rip)) { push_rec(t, g, 0); return; }
    if (rip == (u64) gsim_memcpy) check_memcpy(g);
    {
        int d = find_desc(rip);
        if (P.check_abi && d >= 0 && descs[d].variadic && (g[REG_RAX] & 255) > 8)
            violation("call:al", "al is %d at a call of a variadic function", (int) (g[REG_RAX] & 255));
    }
    push_rec(t, g, 1);
    *(u64 *) g[REG_RSP] = (u64) gsim_resume;
    if (P.garb) garble_stack(g[REG_RSP], 4096);
    t->step = 0;
}

static void arrive_ret(struct thread *t, greg_t *g)
{
    struct rec *r;
    int i, x87 = 0;
    if (!t->nrec) violation("return:unbalanced", "a return without a call");
    r = &t->rec[--t->nrec];
    if (r->ext) violation("return:unbalanced", "return does not match call");
    if ((u64) g[REG_RIP] != r->ret) violation("return:address", "function%s returns to a wrong address", fname(r->desc));
    if ((u64) g[REG_RSP] != r->sp + 8) violation("return:sp", "stack pointer off by %ld after return", (long) (g[REG_RSP] - r->sp - 8));
    if (P.check_abi) {
        for (i = 0; i < 6; ++i)
            if ((u64) g[csreg[i]] != r->given[i]) {
                char sg[64];
                snprintf(sg, sizeof sg, "return:%s", csname[i]);
                violation(sg, "%s not preserved by a function", csname[i]);
            }
        if (r->desc >= 0) { const char *p; for (p = descs[r->desc].ret; *p; ++p) x87 |= *p == 't'; }
        if (r->desc >= 0 && descs[r->desc].ret[0] == 'a' && descs[r->desc].ret[3] == 'm' && (u64) g[REG_RAX] != r->rdi)
            violation("return:rax", "function%s does not return the address of its result in rax", fname(r->desc));
        if (r->desc >= 0) check_common(g, "return", x87);
    }
    for (i = 0; i < 6; ++i) g[csreg[i]] = r->cs[i];
    if (P.garb) garble_return(g, r->desc);
    if (!in_text(g[REG_RIP])) t->step = 0;
}

/*
 * A loop comes back to its start: the stack is as deep as before. With
 * arrays of variable length (loop=2) it may vary, but not go down for ever.
 */
static void arrive_back(struct thread *t, greg_t *g)
{
    u64 to = g[REG_RIP], sp = g[REG_RSP];
    int i, fpu = x87_depth();
    while (t->nlp && t->lp[t->nlp - 1].depth > t->nrec) t->nlp--;
    for (i = t->nlp - 1; i >= 0 && t->lp[i].depth == t->nrec; --i)
        if (t->lp[i].to == to) {
            S->nloop++;
            if (fpu != t->lp[i].fpu) violation("loop:x87", "%d x87 registers in use at the start of a loop, %d in the iteration before", fpu, t->lp[i].fpu);
            t->lp[i].n++;
            if (P.loop == 1 && sp != t->lp[i].sp) violation("loop:sp", "iteration %u of a loop moves the stack pointer by %ld", t->lp[i].n, (long) (sp - t->lp[i].sp));
            if (sp < t->lp[i].sp) {
                t->lp[i].sp = sp;
                if (++t->lp[i].lower > 6) violation("loop:vla", "the stack is deeper than ever in iteration %u of a loop, for the %u. time", t->lp[i].n, t->lp[i].lower);
            }
            return;
        }
    if (t->nlp == MAXLOOP) stop("too many loops");
    i = t->nlp++;
    t->lp[i].to = to; t->lp[i].sp = sp; t->lp[i].depth = t->nrec; t->lp[i].fpu = fpu; t->lp[i].n = 1; t->lp[i].lower = 0;
}

static void on_trap(int sig, siginfo_t *si, void *ucv)
{
    ucontext_t *uc = ucv;
    greg_t *g = uc->uc_mcontext.gregs;
    struct thread *t = &thr[me];
    u64 rip = g[REG_RIP];
    (void) sig; (void) si;

    fx = uc->uc_mcontext.fpregs;
    ((u64 *) fx)[64] |= 3; /* legacy state is valid */
    if (t->step) {
        if (nwatch || ndev) after_access(t);
        if (t->call) arrive_call(t, g);
        else if (t->ret) arrive_ret(t, g);
        else if (!in_text(rip)) violation("wild-jump", "execution leaves the compiled code");
        else if (P.loop && rip < t->pc) arrive_back(t, g);
    } else if (rip == (u64) gsim_call + 1) {
        g[REG_RIP] = g[REG_RDI];
        g[REG_RDI] = g[REG_RSI];
        t->step = 1;
        push_rec(t, g, 0);
    } else if (rip == (u64) gsim_resume + 1) {
        struct rec *r = &t->rec[--t->nrec];
        g[REG_RIP] = r->ret;
        t->step = 1;
        if (P.garb) garble_return(g, r->desc);
    } else if (rip == (u64) gsim_sigret + 1) {
        t->nsg--;
        load_ctx(&t->sg[t->nsg].c, g);
        cur = t->sg[t->nsg].cur;
        if (t->nrec != t->sg[t->nsg].nrec) stop("unbalanced handler");
        t->step = 1;
    } else if (rip == (u64) x_setjmp + 1) {
        u64 *b = (u64 *) g[REG_RDI];
        struct rec *r = &t->rec[t->nrec - 1];
        int i;
        for (i = 0; i < 6; ++i) b[i] = g[csreg[i]];
        b[6] = g[REG_RSP] + 8;
        b[7] = r->ret;
        b[8] = t->nrec - 1;
        g[REG_RSP] += 8;
        g[REG_RIP] = r->ret;
        g[REG_RAX] = 0;
        t->nrec--;
        t->step = 1;
        if (P.garb) garble_return(g, r->desc);
    } else if (rip == (u64) x_longjmp + 1) {
        u64 *b = (u64 *) g[REG_RDI], v = g[REG_RSI];
        int i;
        for (i = 0; i < 6; ++i) g[csreg[i]] = b[i];
        g[REG_RSP] = b[6];
        g[REG_RIP] = b[7];
        if (P.garb) garble_return(g, -1), garble_stack(b[6], 2048);
        g[REG_RAX] = (int) v ? (u32) v : 1;
        t->nrec = b[8];
        t->step = 1;
    } else if (rip == (u64) gsim_done + 1) {
        int i, k = -1;
        t->state = 2;
        if (!P.explicit_ev && P.nthr > 1) {
            int n = 0;
            for (i = 0; i < P.nthr; ++i) n += runnable(i);
            if (n) {
                n = rnd(&sched) % n;
                for (i = 0; i < P.nthr; ++i) if (runnable(i) && n-- == 0) k = i;
                event(EV_SWITCH, k);
            }
        } else if (P.explicit_ev && evpos < P.nev && P.ev[evpos].step == S->steps && P.ev[evpos].kind == EV_SWITCH && runnable((int) P.ev[evpos].param))
            k = (int) P.ev[evpos++].param;
        if (k < 0) for (i = 0; i < P.nthr && k < 0; ++i) if (runnable(i)) k = i;
        if (k < 0) finish(0);
        switch_to(k, g);
    } else {
        violation("stray-trap", "breakpoint at %lx", (long) rip);
    }
    resume(g);
}

static void on_fault(int sig, siginfo_t *si, void *ucv)
{
    ucontext_t *uc = ucv;
    if (!S->viol) {
        S->viol = sig == SIGALRM ? 2 : 3;
        S->step = S->steps;
        snprintf(S->sig, sizeof S->sig, sig == SIGALRM ? "time" : "crash");
        snprintf(S->msg, sizeof S->msg, "signal %d at text offset %lx, address %lx", sig,
            (long) (uc->uc_mcontext.gregs[REG_RIP] - (u64) gtext_begin), (long) si->si_addr);
    }
    finish(3);
}

static void begin_act(struct act *a)
{
    a->hash = a->n = a->counter = 0;
    a->live = 1;
    a->g.s = mix(P.gseed ^ mix(a->seed) ^ a->fn);
    cur = a;
}

static void end_act(struct act *a, u64 r)
{
    int i = a - acts;
    note(r);
    a->live = 0;
    a->ret = r;
    S->res[i].hash = a->hash;
    S->res[i].n = a->n;
    S->res[i].ret = r;
    S->res[i].done++;
    if (a->has_want && (a->hash != a->want_hash || a->n != a->want_n))
        violation("result", "function %d with argument %lx differs from its run alone: %lu observations hash %lx instead of %lu observations hash %lx",
            find_desc(a->fn), (long) a->seed, (long) a->n, (long) a->hash, (long) a->want_n, (long) a->want_hash);
}

static void gsim_handler(u64 k)
{
    struct act *a = &acts[k];
    u64 r;
    begin_act(a);
    r = gsim_call(a->fn, a->seed);
    end_act(a, r);
}

static void thread_main(u64 k)
{
    struct act *a = &acts[k];
    u64 r;
    begin_act(a);
    r = gsim_call(a->fn, a->seed);
    end_act(a, r);
    gsim_done();
    _exit(9);
}

/* ------------------------------------------------------------------ */

static u8 altstack[65536] __attribute__((aligned(16)));

static void load_image(void)
{
    FILE *f = fopen(P.img, "rb");
    u64 h[3], s[3], i, n;
    char why[80];
    if (!f || fread(h, sizeof h, 1, f) != 1 || h[1] > 16 || h[2] > MAXSTUB) stop("no image");
    for (i = 0; i < h[1]; ++i) if (fread(&range[i], 16, 1, f) != 1) stop("image");
    for (i = 0; i < h[2]; ++i) if (fread(&stub[i], 16, 1, f) != 1) stop("image");
    nrange = h[1];
    nstub = h[2];
    for (i = 0; i < h[0]; ++i) {
        u64 lo, hi;
        if (fread(s, sizeof s, 1, f) != 1) stop("image");
        lo = s[0] & ~4095ull;
        hi = (s[0] + s[1] + 4095) & ~4095ull;
        n = hi - lo;
        if (mmap((void *) lo, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { snprintf(why, sizeof why, "image does not fit at %lx to %lx", (long) lo, (long) hi); stop(why); }
        if (s[1] && fread((void *) s[0], s[1], 1, f) != 1) stop("image");
        if (s[2] != 3) mprotect((void *) lo, n, s[2] == 5 ? PROT_READ | PROT_EXEC : PROT_READ);
    }
    fclose(f);
}

static void child(void)
{
    stack_t ss;
    struct sigaction sa;
    int i;

    ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
    sigaltstack(&ss, NULL);
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigfillset(&sa.sa_mask);
    sigdelset(&sa.sa_mask, SIGSEGV);
    sigdelset(&sa.sa_mask, SIGALRM);
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, NULL);
    sa.sa_sigaction = on_fault;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGALRM, &sa, NULL);
    alarm(60);
    for (i = 0; i < P.nmem; ++i)
        if (mmap((void *) (P.mem[i].a & ~4095ull), P.mem[i].n + (P.mem[i].a & 4095), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) stop("no memory");
    if (P.img) load_image();
    sched.s = P.seed;
    dev_seed = mix(P.seed);
    for (i = 0; i < P.nthr; ++i) {
        u64 sp;
        thr[i].stack = P.stk && !i ? (u8 *) ((P.stk - STACK + 8192) & ~4095ull) : (u8 *) 0x40000000 + i * 0x100000;
        if (mmap(thr[i].stack, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) stop("no stack");
        sp = P.stk && !i ? P.stk & ~15ull : (u64) thr[i].stack + STACK - 4096;
        sp -= 8;
        *(u64 *) sp = 0;
        thr[i].state = 1;
        thr[i].act = i;
        thr[i].c.g[REG_RIP] = (u64) thread_main;
        thr[i].c.g[REG_RSP] = sp;
        thr[i].c.g[REG_RDI] = i;
        thr[i].c.g[REG_EFL] = 0x202;
    }
    /* The first thread starts natively on its own stack. */
    {
        ucontext_t uc;
        getcontext(&uc);
        for (i = 0; i < P.nthr; ++i) {
            u64 *f = (u64 *) thr[i].c.fp;
            struct _libc_fpstate *x = (void *) f;
            x->cwd = 0x37f; x->mxcsr = 0x1f80; x->mxcr_mask = 0xffff;
        }
        me = 0;
        __asm__ volatile("mov %0, %%rsp\n mov %1, %%rdi\n xor %%ebp, %%ebp\n fninit\n jmp *%2\n"
            : : "r"((u64) thr[0].c.g[REG_RSP]), "r"((u64) 0), "r"((u64) thread_main) : "rdi", "memory");
    }
}

/* ------------------------------------------------------------------ */
/* Commands                                                           */

static char *word(char **p)
{
    char *s = *p, *e;
    while (*s == ' ') s++;
    if (!*s || *s == '\n') return NULL;
    for (e = s; *e && *e != ' ' && *e != '\n'; ++e) ;
    if (*e) *e++ = 0;
    *p = e;
    return s;
}

static const struct { const char *name; void *fn; int variadic; const char *ret; } externs[] = {
    { "x_u", x_u, 0, "a64" }, { "x_i", x_i, 0, "a32" }, { "x_c", x_c, 0, "a8" }, { "x_s", x_s, 0, "a16" }, { "x_b", x_b, 0, "a8" },
    { "x_f", x_f, 0, "x32" }, { "x_d", x_d, 0, "x64" }, { "x_l", x_l, 0, "t" }, { "x_v", x_v, 0, "" },
    { "x_s3", x_s3, 0, "a24" }, { "x_s5", x_s5, 0, "a40" }, { "x_s6", x_s6, 0, "a48" }, { "x_s7", x_s7, 0, "a56" }, { "x_s11", x_s11, 0, "a64d24" },
    { "x_s12", x_s12, 0, "x64y32" }, { "x_s16", x_s16, 0, "a64x64" }, { "x_s16i", x_s16i, 0, "a64d64" }, { "x_s24", x_s24, 0, "a64" }, { "x_s96", x_s96, 0, "a64" },
    { "x_many", x_many, 0, "a64" }, { "x_var", x_var, 1, "a32" }, { "x_vlog", x_vlog, 0, "" }, { "x_fill", x_fill, 0, "" }, { "x_hash", x_hash, 0, "" },
    { "x_note", x_note, 0, "" }, { "x_notei", x_notei, 0, "" }, { "x_noted", x_noted, 0, "" }, { "x_notef", x_notef, 0, "" }, { "x_notel", x_notel, 0, "" },
    { "x_call", x_call, 0, "a64" }, { "x_mem", x_mem, 0, "a64" }, { "x_setjmp", x_setjmp, 0, "a32" }, { "memcpy", gsim_memcpy, 0, "a64" },
    { "x_watch", x_watch, 0, "" }, { "x_guard", x_guard, 0, "" }, { "x_allow", x_allow, 0, "" }, { "x_unwatch", x_unwatch, 0, "" }, { "x_scalar", x_scalar, 0, "" },
    { "x_dev", x_dev, 0, "" }, { "x_devf", x_devf, 0, "" }, { "x_devp", x_devp, 0, "" }, { "x_devs", x_devs, 0, "" }, { "x_devb", x_devb, 0, "" }, { "x_undev", x_undev, 0, "" },
};

static int run_child(void)
{
    int st;
    pid_t pid;
    u32 i;
    /* reset the shared part, but not the large arrays */
    S->viol = 0; S->step = S->steps = S->nsig = S->nscrib = S->nsw = S->npoke = S->ngarb = S->naccess = S->ncall = S->undec = S->maxdepth = S->nloop = S->nplt = 0;
    S->trace = 0; S->nev = S->nat = 0; S->nlog = 0; S->sig[0] = S->msg[0] = 0;
    for (i = 0; i < MAXACT; ++i) S->res[i].done = 0;
    pid = fork();
    if (pid < 0) { S->viol = 2; snprintf(S->msg, sizeof S->msg, "fork"); return -1; }
    if (!pid) { child(); _exit(8); }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    if (!S->viol && (!WIFEXITED(st) || WEXITSTATUS(st))) {
        S->viol = 3;
        snprintf(S->sig, sizeof S->sig, "crash");
        snprintf(S->msg, sizeof S->msg, "child ended with status %x", st);
    }
    return st;
}

int main(int argc, char **argv)
{
    char *line = NULL, *p, *k;
    size_t cap = 0;
    unsigned i;

    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("GSIM_P")) {
        setenv("GSIM_P", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    (void) argc;
    S = mmap((void *) 0x50000000, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 1; }
    P.ev = malloc(MAXEV * sizeof *P.ev);
    for (i = 0; i < sizeof externs / sizeof *externs; ++i) {
        struct desc *d = &descs[ndesc++];
        d->addr = (u64) externs[i].fn;
        d->variadic = externs[i].variadic;
        d->ext = 1;
        snprintf(d->ret, sizeof d->ret, "%s", externs[i].ret);
    }
    while (getline(&line, &cap, stdin) > 0) {
        p = line;
        k = word(&p);
        if (!k) continue;
        if (str_eq(k, "reset")) {
            ndesc = sizeof externs / sizeof *externs;
        } else if (str_eq(k, "fn")) {
            /* fn addr variadic nint w.. nsse s.. ret */
            struct desc *d = &descs[ndesc++];
            int j;
            d->addr = strtoull(word(&p), NULL, 16);
            d->variadic = atoi(word(&p));
            d->nint = atoi(word(&p));
            for (j = 0; j < d->nint; ++j) d->w[j] = atoi(word(&p));
            d->nsse = atoi(word(&p));
            for (j = 0; j < d->nsse; ++j) d->s[j] = atoi(word(&p));
            k = word(&p);
            snprintf(d->ret, sizeof d->ret, "%s", k && !str_eq(k, "-") ? k : "");
        } else if (str_eq(k, "run")) {
            struct event *ev = P.ev;
            u64 one[3];
            int nwant = 0, full = 0;
            __builtin_memset(&P, 0, sizeof P);
            P.ev = ev;
            P.limit = 20000;
            P.maxsig = 1000;
            __builtin_memset(acts, 0, sizeof acts);
            while ((k = word(&p))) {
                char *v = k;
                while (*v && *v != '=') v++;
                if (*v) *v++ = 0;
                if (str_eq(k, "seed")) P.seed = strtoull(v, NULL, 16);
                else if (str_eq(k, "gseed")) P.gseed = strtoull(v, NULL, 16);
                else if (str_eq(k, "garb")) P.garb = atoi(v);
                else if (str_eq(k, "loop")) P.loop = atoi(v);
                else if (str_eq(k, "abi")) P.check_abi = atoi(v);
                else if (str_eq(k, "limit")) P.limit = strtoul(v, NULL, 10);
                else if (str_eq(k, "sig")) P.sig = atoi(v);
                else if (str_eq(k, "scrib")) P.scrib = atoi(v);
                else if (str_eq(k, "sw")) P.sw = atoi(v);
                else if (str_eq(k, "poke")) P.poke = atoi(v);
                else if (str_eq(k, "maxsig")) P.maxsig = atoi(v);
                else if (str_eq(k, "full")) full = atoi(v);
                else if (str_eq(k, "obs")) P.obs = full = atoi(v);
                else if (str_eq(k, "img")) P.img = v;
                else if (str_eq(k, "stk")) P.stk = strtoull(v, NULL, 16);
                else if (str_eq(k, "mem")) {
                    while (*v && P.nmem < 8) {
                        P.mem[P.nmem].a = strtoull(v, &v, 16);
                        P.mem[P.nmem++].n = strtoull(v + 1, &v, 16);
                        if (*v == ',') v++;
                    }
                }
                else if (str_eq(k, "thr") || str_eq(k, "hand")) {
                    /* fn:seed[:hash:n] */
                    struct act *a = &acts[P.nact++];
                    char *e;
                    a->fn = strtoull(v, &e, 16);
                    a->seed = strtoull(e + 1, &e, 16);
                    if (*e == ':') {
                        a->want_hash = strtoull(e + 1, &e, 16);
                        a->want_n = strtoull(e + 1, &e, 16);
                        a->has_want = 1;
                    }
                    if (str_eq(k, "thr")) P.nthr++; else P.nhand++;
                } else if (str_eq(k, "ev")) {
                    P.explicit_ev = 1;
                    while (*v) {
                        struct event *x = &P.ev[P.nev++];
                        x->step = strtoul(v, &v, 10);
                        x->kind = strtoul(v + 1, &v, 10);
                        x->param = strtoull(v + 1, &v, 16);
                        if (*v == ',') v++;
                    }
                }
            }
            (void) one; (void) nwant;
            run_child();
            printf("%s steps=%u sig=%u scrib=%u sw=%u poke=%u garb=%u acc=%u call=%u undec=%u undecb=%lx depth=%u loop=%u plt=%u trace=%lx step=%u nev=%u",
                S->viol == 0 ? "ok" : S->viol == 1 ? "viol" : S->viol == 2 ? "stop" : "crash",
                S->steps, S->nsig, S->nscrib, S->nsw, S->npoke, S->ngarb, S->naccess, S->ncall, S->undec, (long) S->undec_bytes, S->maxdepth, S->nloop, S->nplt, (long) S->trace, S->step, S->nev);
            for (i = 0; i < (unsigned) P.nact; ++i)
                if (S->res[i].done) printf(" res=%u:%lx:%lx:%lx", i, (long) S->res[i].hash, (long) S->res[i].n, (long) S->res[i].ret);
            if (S->viol) {
                printf(" at=");
                for (i = 0; i < S->nat; ++i) printf("%s%x", i ? "," : "", S->at[i]);
            }
            if (S->viol || full) {
                if (!P.explicit_ev) {
                    printf(" ev=");
                    for (i = 0; i < S->nev; ++i) printf("%s%u:%u:%lx", i ? "," : "", S->ev[i].step, S->ev[i].kind, (long) S->ev[i].param);
                }
            }
            if (full) {
                printf(" log=");
                for (i = 0; i < S->nlog; ++i) printf("%s%u:%c:%u:%u:%lx", i ? "," : "", S->log[i].id, S->log[i].kind, S->log[i].off, S->log[i].width, (long) S->log[i].val);
            }
            if (S->viol) printf(" sigx=%s msg=%s", *S->sig ? S->sig : "-", S->msg);
            printf("\n");
            fflush(stdout);
        } else if (str_eq(k, "quit")) break;
    }
    return 0;
}
