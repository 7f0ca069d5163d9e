/*
 * Fault-enumerating driver for liblbfgs.
 *
 * lbfgs.c is compiled with malloc/free renamed to vp_malloc/vp_free: every
 * block ends at a page that cannot be accessed and becomes inaccessible when
 * freed, a chosen allocation fails, and live blocks are counted.  The callbacks
 * answer with a chosen fault at a chosen call.  One process explores one unit
 * (argv) exhaustively and prints
 *   BAD <key> <description>     for each violated rule (first per key)
 *   DONE runs=.. evals=.. states=..
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include "lbfgs.h"

#define PAGE 4096
#define SLOTS 128
#define SLOTPAGES 4
static char *arena;
static size_t slot_size[SLOTS];
static int live, allocs, fail_at, fail_forever, bad_free;

static char desc[512];
static jmp_buf bail;
static char badkeys[64][64];
static int nbad;

static void bad(const char *key, const char *fmt, double a, double b)
{
    char msg[256];
    for (int i = 0; i < nbad; ++i)
        if (!strcmp(badkeys[i], key)) return;
    if (nbad < 64) strncpy(badkeys[nbad++], key, 63);
    snprintf(msg, sizeof msg, fmt, a, b);
    printf("BAD %s %s | %s\n", key, msg, desc);
    fflush(stdout);
}

void *vp_malloc(size_t size)
{
    int k = ++allocs;
    if (fail_at && (k == fail_at || (fail_forever && k > fail_at))) return NULL;
    size_t room = (SLOTPAGES - 1) * (size_t)PAGE;
    if (size > room) return NULL;
    for (int i = 0; i < SLOTS; ++i)
        if (!slot_size[i]) {
            char *base = arena + (size_t)i * SLOTPAGES * PAGE;
            slot_size[i] = size + 1;
            mprotect(base, room, PROT_READ | PROT_WRITE);
            memset(base, 0x5a, room - size);
            memset(base + room - size, 0xfb, size);
            ++live;
            return base + room - size;
        }
    return NULL;
}

void vp_free(void *p)
{
    if (!p) return;
    size_t i = ((char *)p - arena) / (SLOTPAGES * (size_t)PAGE);
    size_t room = (SLOTPAGES - 1) * (size_t)PAGE;
    char *base = arena + i * SLOTPAGES * PAGE;
    if (i >= SLOTS || !slot_size[i] ||
        (char *)p != base + room - (slot_size[i] - 1)) {
        ++bad_free;
        return;
    }
    for (char *c = base; c < (char *)p; ++c)
        if (*c != 0x5a) {
            bad("underrun", "bytes before a block were written", 0, 0);
            break;
        }
    slot_size[i] = 0;
    mprotect(base, room, PROT_NONE);
    --live;
}

void *vp_calloc(size_t n, size_t size)
{
    void *p = vp_malloc(n * size);
    if (p) memset(p, 0, n * size);
    return p;
}

void *vp_realloc(void *p, size_t size)
{
    void *q = vp_malloc(size);
    if (p && q) {
        size_t i = ((char *)p - arena) / (SLOTPAGES * (size_t)PAGE);
        size_t old = i < SLOTS && slot_size[i] ? slot_size[i] - 1 : 0;
        memcpy(q, p, old < size ? old : size);
        vp_free(p);
    }
    return q;
}

static void reset_memory(void)
{
    for (int i = 0; i < SLOTS; ++i)
        if (slot_size[i]) {
            slot_size[i] = 0;
            mprotect(arena + (size_t)i * SLOTPAGES * PAGE,
                     (SLOTPAGES - 1) * PAGE, PROT_NONE);
        }
    live = 0;
    bad_free = 0;
}

static void on_segv(int s)
{
    char b[640];
    int n = snprintf(b, sizeof b, "BAD memory signal %d | %s\n", s, desc);
    if (write(1, b, n) < 0) {}
    _exit(3);
}

/* ------------------------------------------------------------ objectives */
static int N, OBJ;
static const double CEN[8] = {1.5, -.7, .05, 3., -2., .4, 0., 1.};
static const double EIG[8] = {1., 4., .3, 2., 7., .5, 1., 3.};

static double objective(const double *x, double *g)
{
    double f = 0;
    for (int i = 0; i < N; ++i) {
        double t = x[i] - CEN[i];
        if (OBJ == 0) {
            f += .5 * EIG[i] * t * t;
            g[i] = EIG[i] * t;
        } else if (OBJ == 1) {
            f += exp(x[i]) - (CEN[i] + 3.) * x[i];
            g[i] = exp(x[i]) - (CEN[i] + 3.);
        } else {
            double u = x[(i + 1) % N];
            double r = sqrt(1 + t * t);
            f += r + .25 * (x[i] - u) * (x[i] - u) + .05 * t * t;
            g[i] = t / r + .1 * t;
        }
    }
    if (OBJ == 2)
        for (int i = 0; i < N; ++i) {
            double u = x[(i + 1) % N], v = x[(i + N - 1) % N];
            g[i] += .5 * (x[i] - u) - .5 * (v - x[i]);
        }
    return f;
}

/* ---------------------------------------------------------------- faults */
enum { F_NAN, F_PINF, F_NINF, F_HUGE, F_NHUGE, F_ZERO, G_NAN, G_INF, G_ZERO,
       G_NEG, G_HUGE, FG_NAN, FAULTS };
static const char *FNAME[] = {"f=nan", "f=inf", "f=-inf", "f=1e300",
    "f=-1e300", "f=0", "g=nan", "g=inf", "g=0", "g=-g", "g=1e300", "f,g=nan"};

typedef struct { int at, forever, kind; } fault_t;
static fault_t faults[2];
static int nfaults;
static int cancel_at, cancel_code;

static int evals, reports, last_k, cancelled, limit, gfault_seen;
static double *lastx;
static double startx[8];

static double ev(void *inst, const lbfgsfloatval_t *x, lbfgsfloatval_t *g,
                 const int n, const lbfgsfloatval_t step)
{
    int k = ++evals;
    if (n != N || inst != (void *)&evals)
        bad("arguments", "callback got n=%g", n, 0);
    if (cancelled) bad("after-cancel", "evaluation after cancelling", 0, 0);
    if (k > limit) longjmp(bail, 1);
    double f = objective(x, g);
    for (int q = 0; q < nfaults; ++q) {
        fault_t *t = &faults[q];
        if (!(k == t->at || (t->forever && k > t->at))) continue;
        if (t->kind >= G_NAN) gfault_seen = 1;
        switch (t->kind) {
        case F_NAN: f = NAN; break;
        case F_PINF: f = INFINITY; break;
        case F_NINF: f = -INFINITY; break;
        case F_HUGE: f = 1e300; break;
        case F_NHUGE: f = -1e300; break;
        case F_ZERO: f = 0; break;
        case FG_NAN: f = NAN; /* fall through */
        case G_NAN: for (int i = 0; i < N; ++i) g[i] = NAN; break;
        case G_INF: for (int i = 0; i < N; ++i) g[i] = INFINITY; break;
        case G_ZERO: for (int i = 0; i < N; ++i) g[i] = 0; break;
        case G_NEG: for (int i = 0; i < N; ++i) g[i] = -g[i]; break;
        case G_HUGE: for (int i = 0; i < N; ++i) g[i] = 1e300; break;
        }
    }
    return f;
}

static int pr(void *inst, const lbfgsfloatval_t *x, const lbfgsfloatval_t *g,
              const lbfgsfloatval_t fx, const lbfgsfloatval_t xnorm,
              const lbfgsfloatval_t gnorm, const lbfgsfloatval_t step, int n,
              int k, int ls)
{
    ++reports;
    if (k != reports) bad("iteration", "iteration %g reported as %g",
                          reports, k);
    memcpy(lastx, x, N * sizeof(double));
    if (cancel_at && reports == cancel_at) {
        cancelled = 1;
        return cancel_code;
    }
    return 0;
}

static uint64_t seen[1 << 16];
static long nstates;
static void state(uint64_t h)
{
    h = h * 0x9E3779B97F4A7C15ull + 1;
    for (unsigned i = h >> 48;; ++i) {
        i &= 0xffff;
        if (seen[i] == h) return;
        if (!seen[i]) { if (nstates < 60000) { seen[i] = h; ++nstates; } return; }
    }
}

static long runs, total;

/* one run; returns the code, or 9999 when it had to be stopped */
static int go(const lbfgs_parameter_t *p, const double *x0, int n)
{
    lbfgs_parameter_t par = *p;
    static double last[8];
    lastx = last;
    evals = reports = cancelled = gfault_seen = 0;
    allocs = 0;
    double fx = 12345.;
    int keep_at = fail_at;
    fail_at = 0;
    double *x = vp_malloc(n > 0 ? n * sizeof(double) : 1);
    fail_at = keep_at;
    allocs = 0;
    if (n > 0) memcpy(x, x0, n * sizeof(double));
    if (n > 0) memcpy(startx, x0, n * sizeof(double));
    memcpy(last, startx, sizeof last);
    int ret;
    if (setjmp(bail)) {
        bad("hang", "no end after %g evaluations (%g iterations)", evals,
            reports);
        reset_memory();
        return 9999;
    }
    ret = lbfgs(n, x, &fx, ev, pr, (void *)&evals, &par);
    ++runs;
    total += evals;
    if (live != 1) bad("leak", "%g blocks not freed (code %g)", live - 1, ret);
    if (bad_free) bad("bad-free", "%g invalid frees", bad_free, 0);
    if (memcmp(&par, p, sizeof par))
        bad("parameters", "the caller's parameters were changed", 0, 0);
    if (n > 0 && ret != LBFGSERR_OUTOFMEMORY && evals) {
        /* the point handed back is the start or the last accepted one */
        if (memcmp(x, last, n * sizeof(double)))
            bad("point", "code %g: the point returned is not the last "
                "accepted one", ret, 0);
        if (ret == LBFGS_SUCCESS && !gfault_seen) {
            double g[8], gn = 0, xn = 0;
            objective(x, g);
            int e = par.orthantwise_end < 0 ? n : par.orthantwise_end;
            for (int i = 0; i < n; ++i) {
                double v = g[i];
                double c = par.orthantwise_c;
                if (c && i >= par.orthantwise_start && i < e) {
                    if (x[i] > 0) v += c;
                    else if (x[i] < 0) v -= c;
                    else if (v > c) v -= c;
                    else if (v < -c) v += c;
                    else v = 0;
                }
                gn += v * v;
                xn += x[i] * x[i];
            }
            gn = sqrt(gn); xn = sqrt(xn); if (xn < 1) xn = 1;
            if (!(gn <= par.epsilon * xn * (1 + 1e-9)))
                bad("success", "success reported with gradient %g at norm %g",
                    gn, xn);
        }
    }
    if (n > 0 && (ret == LBFGSERR_OUTOFMEMORY || !evals) &&
        memcmp(x, startx, n * sizeof(double)))
        bad("point", "code %g: the start point was changed", ret, 0);
    if (ret == LBFGSERR_MAXIMUMITERATION && reports != par.max_iterations)
        bad("maxiter", "iteration limit %g reported after %g",
            par.max_iterations, reports);
    if (par.max_iterations && reports > par.max_iterations)
        bad("maxiter", "%g iterations, limit %g", reports, par.max_iterations);
    if (cancelled && ret != cancel_code)
        bad("cancel", "cancelled with %g, returned %g", cancel_code, ret);
    if (cancelled && reports != cancel_at)
        bad("cancel", "%g reports after cancelling at %g", reports, cancel_at);
    vp_free(x);
    state(((uint64_t)(ret + 4096) << 40) ^ ((uint64_t)evals << 20) ^ reports
          ^ ((uint64_t)par.linesearch << 60) ^ ((uint64_t)par.m << 56));
    return ret;
}

static int known(int r)
{
    return r == 0 || r == LBFGS_STOP || r == LBFGS_ALREADY_MINIMIZED ||
        (r <= LBFGSERR_INCREASEGRADIENT && r >= LBFGSERR_UNKNOWNERROR);
}

int main(int argc, char **argv)
{
    if (argc < 8) return 2;
    const char *mode = argv[1];
    OBJ = atoi(argv[2]); N = atoi(argv[3]);
    lbfgs_parameter_t p;
    lbfgs_parameter_init(&p);
    p.linesearch = atoi(argv[4]);
    p.m = atoi(argv[5]);
    double C = atof(argv[6]);
    int deep = atoi(argv[7]);
    p.orthantwise_c = C;
    if (C) p.linesearch = LBFGS_LINESEARCH_BACKTRACKING;
    arena = mmap(NULL, (size_t)SLOTS * SLOTPAGES * PAGE, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv);
    signal(SIGFPE, on_segv); signal(SIGABRT, on_segv);
    limit = 20000;
    double starts[3][8] = {{0}, {1, 1, 1, 1, 1, 1, 1, 1},
                           {-3, 2, -1, 4, 0, 0, 5, -2}};
    int pasts[2] = {0, 2};

    for (int s = 0; s < 3; ++s) for (int pi = 0; pi < 2; ++pi)
    for (int mi = 0; mi < 2; ++mi) {
        p.past = pasts[pi];
        p.delta = p.past ? 1e-9 : 0.;
        p.max_iterations = mi ? 7 : 0;
        fail_at = nfaults = cancel_at = 0;
        snprintf(desc, sizeof desc, "%s obj=%d n=%d ls=%d m=%d C=%g start=%d "
                 "past=%d maxit=%d", mode, OBJ, N, p.linesearch, p.m, C, s,
                 p.past, p.max_iterations);
        int base = go(&p, starts[s], N);
        int nev = evals, nrep = reports, nal = allocs;
        size_t dl = strlen(desc);
        if (!known(base)) bad("code", "return code %g", base, 0);
        if (!strcmp(mode, "alloc")) {
            for (int f = 0; f < 2; ++f)
            for (int k = 1; k <= nal + 1; ++k) {
                fail_at = k; fail_forever = f;
                snprintf(desc + dl, sizeof desc - dl, " fail=%d%s", k,
                         f ? "+" : "");
                int r = go(&p, starts[s], N);
                if (k <= nal && r != LBFGSERR_OUTOFMEMORY)
                    bad("oom", "allocation %g failed, code %g", k, r);
                if (k <= nal && evals)
                    bad("oom-eval", "evaluated after allocation %g failed",
                        k, 0);
                if (k > nal && r != base)
                    bad("oom-none", "nothing failed, code %g not %g", r, base);
            }
            fail_at = 0;
        } else if (!strcmp(mode, "cancel")) {
            int codes[] = {1, -1, 2, 77, LBFGSERR_CANCELED, -2048, 1 << 30};
            for (int c = 0; c < 7; ++c)
            for (int k = 1; k <= nrep + 1; ++k) {
                cancel_at = k; cancel_code = codes[c];
                snprintf(desc + dl, sizeof desc - dl, " cancel=%d:%d", k,
                         codes[c]);
                int r = go(&p, starts[s], N);
                if (k <= nrep && !cancelled)
                    bad("cancel-missed", "report %g of %g not made", k, nrep);
                if (k > nrep && r != base)
                    bad("cancel-none", "code %g not %g", r, base);
            }
            cancel_at = 0;
        } else {
            int two = !strcmp(mode, "eval2");
            int last = nev + 3;
            if (last > (deep ? 60 : 25)) last = deep ? 60 : 25;
            for (int k = 1; k <= last; ++k)
            for (int f = 0; f < (two ? 1 : 2); ++f)
            for (int q = 0; q < FAULTS; ++q) {
                faults[0] = (fault_t){k, f, q};
                if (!two) {
                    nfaults = 1;
                    snprintf(desc + dl, sizeof desc - dl, " %s at %d%s",
                             FNAME[q], k, f ? "+" : "");
                    /* unbounded or contradicting objectives may go on for
                       ever by specification unless iterations are limited */
                    int r = 0;
                    if (!(f && !p.max_iterations &&
                          (q == F_NINF || q == F_NHUGE || q == F_ZERO
                           || q >= G_INF)
                          && q != FG_NAN))
                        r = go(&p, starts[s], N);
                    if (!known(r)) bad("code", "return code %g", r, 0);
                } else {
                    for (int k2 = k + 1; k2 <= k + (deep ? 8 : 3); ++k2)
                    for (int q2 = 0; q2 < FAULTS; ++q2) {
                        nfaults = 2;
                        faults[1] = (fault_t){k2, 0, q2};
                        snprintf(desc + dl, sizeof desc - dl,
                                 " %s at %d, %s at %d", FNAME[q], k,
                                 FNAME[q2], k2);
                        int r = go(&p, starts[s], N);
                        if (!known(r)) bad("code", "return code %g", r, 0);
                    }
                }
            }
            nfaults = 0;
        }
        if (!strcmp(mode, "params")) break;
    }
    if (!strcmp(mode, "params")) {
        lbfgs_parameter_t d;
#define TRY(field, value, what) do { d = p; d.field = value; \
        snprintf(desc, sizeof desc, "params obj=%d n=%d ls=%d C=%g %s=%g", \
                 OBJ, N, p.linesearch, C, what, (double)(value)); \
        int r = go(&d, starts[0], N); \
        if (r >= 0) bad("accepted-" what, "code %g", r, 0); \
        if (evals) bad("evaluated-" what, "evaluated", 0, 0); } while (0)
        for (int i = 1; i < 4; ++i) {
            double v = -pow(10, i - 3);
            TRY(epsilon, v, "epsilon"); TRY(delta, v, "delta");
            TRY(min_step, v, "min_step"); TRY(ftol, v, "ftol");
            TRY(gtol, v, "gtol"); TRY(xtol, v, "xtol");
            TRY(orthantwise_c, v, "orthantwise_c");
            TRY(past, -i, "past"); TRY(max_linesearch, 1 - i, "max_linesearch");
            TRY(orthantwise_start, -i, "orthantwise_start");
            TRY(orthantwise_start, N + i, "orthantwise_start");
            TRY(orthantwise_end, N + i, "orthantwise_end");
            TRY(m, 1 - i, "m");
            TRY(linesearch, 3 + i, "linesearch");
            TRY(linesearch, -i, "linesearch");
        }
        d = p; d.max_step = p.min_step / 2;
        TRY(max_step, p.min_step / 2, "max_step");
        if (p.linesearch >= 2) {
            TRY(wolfe, p.ftol, "wolfe"); TRY(wolfe, p.ftol / 2, "wolfe");
            TRY(wolfe, 1., "wolfe"); TRY(wolfe, 1.5, "wolfe");
        }
        if (C) { TRY(linesearch, 0, "linesearch"); TRY(linesearch, 1, "linesearch");
                 TRY(linesearch, 3, "linesearch"); }
        for (int n = 0; n >= -2; --n) {
            snprintf(desc, sizeof desc, "params n=%d", n);
            int r = go(&p, starts[0], n);
            if (r >= 0) bad("accepted-n", "code %g", r, 0);
        }
        /* every penalized range, including empty ones */
        for (int a = 0; a <= N; ++a) for (int b = -1; b <= N; ++b) {
            d = p; d.orthantwise_start = a; d.orthantwise_end = b;
            snprintf(desc, sizeof desc, "range obj=%d n=%d C=%g %d..%d", OBJ,
                     N, C, a, b);
            int r = go(&d, starts[1], N);
            if (!known(r)) bad("code", "return code %g", r, 0);
        }
    }
    printf("DONE runs=%ld evals=%ld states=%ld\n", runs, total, nstates);
    return nbad ? 1 : 0;
}
