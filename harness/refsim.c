/* Reference Turing-machine simulator: one cell at a time, no run-length
 * encoding, no acceleration, no shortcuts.  Programs are byte tables, three
 * bytes per slot (colour, shift 0/1, state), colour 255 = undefined slot. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8;
typedef uint64_t u64;
typedef int64_t i64;

enum { LIMIT = 0, UNDEF = 1, SPIN = 2, BLANKREC = 3, MEM = 4 };

typedef struct {
    i64 status;
    i64 steps;      /* steps executed */
    i64 cycles;     /* maximal runs of one self-looping slot count once */
    i64 state, color;
    i64 marks;
    i64 head, lo, hi;       /* visited range (inclusive) relative to start */
    i64 blank_step[32];     /* first step after which the tape is blank by an
                               erase, per state entered; -1 never */
    i64 nblanks;            /* erase-to-blank events seen */
} Res;

typedef struct { u8 *t; i64 n, off; } Tape;   /* cell p lives at t[p + off] */

static int grow(Tape *T, i64 p) {
    while (p + T->off < 0 || p + T->off >= T->n) {
        i64 n2 = T->n * 2;
        if (n2 > (1LL << 28)) return 0;
        u8 *t2 = calloc(n2, 1);
        if (!t2) return 0;
        i64 off2 = T->off + T->n / 2;
        memcpy(t2 + (off2 - T->off), T->t, T->n);
        free(T->t);
        T->t = t2; T->n = n2; T->off = off2;
    }
    return 1;
}

/* mode bit 0: stop at an erase-to-blank event in state 0 or in a state that
 * already had one (status BLANKREC), counted after the step.
 * max_cycles < 0: no limit on cycles. */
int ref_run(const u8 *prog, int S, int C, i64 max_steps, i64 max_cycles,
            int mode, Res *r, u8 **tape_out, i64 *tape_lo, i64 *tape_hi)
{
    (void)S;
    Tape T = { calloc(1 << 10, 1), 1 << 10, 1 << 9 };
    i64 head = 0, lo = 0, hi = 0, marks = 0, steps = 0, cycles = 0, rmarks = 0; /* marks right of the head */
    int st = 0, pst = -1, psc = -1, pself = 0;
    memset(r, 0, sizeof *r);
    for (int i = 0; i < 32; i++) r->blank_step[i] = -1;
    r->status = LIMIT;
    for (;;) {
        int sc = T.t[head + T.off];
        const u8 *in = prog + 3 * (st * C + sc);
        int same_cycle = pself && st == pst && sc == psc;
        if (!same_cycle) {
            if (max_cycles >= 0 && cycles >= max_cycles) break;
        }
        if (in[0] == 255) { r->status = UNDEF; break; }
        if (sc == 0 && in[2] == st) {
            /* nothing but blanks on the side moved to */
            if ((in[1] ? rmarks : marks - rmarks) == 0) { r->status = SPIN; break; }
        }
        if (steps >= max_steps) break;
        if (!same_cycle) cycles++;
        pst = st; psc = sc; pself = in[2] == st;
        marks += (in[0] != 0) - (sc != 0);
        T.t[head + T.off] = in[0];
        if (!in[1]) rmarks += in[0] != 0;
        head += in[1] ? 1 : -1;
        if (head < lo) lo = head;
        if (head > hi) hi = head;
        if (!grow(&T, head)) { r->status = MEM; break; }
        if (in[1]) rmarks -= T.t[head + T.off] != 0;
        st = in[2];
        steps++;
        if (in[0] == 0 && marks == 0) {
            r->nblanks++;
            int rec = st == 0 || r->blank_step[st] >= 0;
            if (r->blank_step[st] < 0) r->blank_step[st] = steps;
            if ((mode & 1) && rec) { r->status = BLANKREC; break; }
        }
    }
    r->steps = steps; r->cycles = cycles; r->state = st;
    r->color = (head + T.off >= 0 && head + T.off < T.n) ? T.t[head + T.off] : 0;
    r->marks = marks;
    r->head = head; r->lo = lo; r->hi = hi;
    if (tape_out) {
        i64 n = hi - lo + 1;
        u8 *o = malloc(n);
        memcpy(o, T.t + lo + T.off, n);
        *tape_out = o; *tape_lo = lo; *tape_hi = hi;
    }
    free(T.t);
    return 0;
}

void ref_free(void *p) { free(p); }

/* Does the machine, started blank, show a translated recurrence with both
 * ends inside the first max_steps steps?  Definition: steps i < j with the
 * same state, the tape at j around the head equal to that at i around its
 * head over everything read in i..j, shifted; and, when the shift is not 0,
 * all of the tape on the side being moved to is reproduced as well.
 * Simple quadratic search with a full record of configurations.
 * Returns 1 and sets *pi,*pj when found. */
int ref_linrec(const u8 *prog, int S, int C, int max_steps, int *pi, int *pj)
{
    (void)S;
    int W = 2 * max_steps + 5, mid = max_steps + 2;
    u8 *hist = malloc((size_t)W * (max_steps + 1));
    int *hd = malloc(sizeof(int) * (max_steps + 1));
    int *ss = malloc(sizeof(int) * (max_steps + 1));
    u8 *t = calloc(W, 1);
    int head = mid, st = 0, n = 0, found = 0;
    for (;;) {
        memcpy(hist + (size_t)n * W, t, W);
        hd[n] = head; ss[n] = st;
        if (n == max_steps) break;
        const u8 *in = prog + 3 * (st * C + t[head]);
        if (in[0] == 255) break;
        t[head] = in[0];
        head += in[1] ? 1 : -1;
        st = in[2];
        n++;
    }
    for (int i = 0; i < n && !found; i++) {
        int lo = hd[i], hi = hd[i];
        for (int j = i + 1; j <= n; j++) {
            /* cells read in steps i..j-1 are hd[i..j-1] */
            if (hd[j - 1] < lo) lo = hd[j - 1];
            if (hd[j - 1] > hi) hi = hd[j - 1];
            if (ss[j] != ss[i]) continue;
            int d = hd[j] - hd[i];
            const u8 *a = hist + (size_t)i * W, *b = hist + (size_t)j * W;
            /* over the read window, shifted; when moving right, also all to
             * the right (so the future input is the same again) */
            int l = lo, h = hi, ok = 1;
            if (d > 0) h = W - 1 - d;
            if (d < 0) l = -d;
            for (int p = l; p <= h && ok; p++) ok = a[p] == b[p + d];
            if (ok) { *pi = i; *pj = j; found = 1; break; }
        }
    }
    free(hist); free(hd); free(ss); free(t);
    return found;
}

/* ------------------------------------------------------------------ */
/* random program in tree normal form                                  */

static u64 rng_next(u64 *s) {
    u64 z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

/* Start with A0 = 1RB; run; give each undefined slot reached a random
 * instruction until `budget` slots are filled or nothing more is reached in
 * `lim` steps.  fill: leave unreached slots undefined (0) or define them at
 * random (1).  Returns the number of slots defined. */
int gen_tnf(u64 seed, int S, int C, int budget, i64 lim, int fill, u8 *prog)
{
    u64 s = seed;
    memset(prog, 255, 3 * S * C);
    prog[0] = 1; prog[1] = 1; prog[2] = S > 1 ? 1 : 0;
    int def = 1, ms = S > 1 ? 1 : 0, mc = 1;
    Res r;
    while (def < budget) {
        ref_run(prog, S, C, lim, -1, 0, &r, NULL, NULL, NULL);
        if (r.status != UNDEF) break;
        int as = ms + 2 < S ? ms + 2 : S, ac = mc + 2 < C ? mc + 2 : C;
        u8 *in = prog + 3 * (r.state * C + r.color);
        in[0] = rng_next(&s) % ac;
        in[1] = rng_next(&s) & 1;
        in[2] = rng_next(&s) % as;
        if (in[2] > ms) ms = in[2];
        if (in[0] > mc) mc = in[0];
        def++;
    }
    if (fill) {
        for (int i = 0; i < S * C && def < budget; i++) {
            u8 *in = prog + 3 * i;
            if (in[0] != 255) continue;
            in[0] = rng_next(&s) % C;
            in[1] = rng_next(&s) & 1;
            in[2] = rng_next(&s) % S;
            def++;
        }
    }
    return def;
}

/* From configuration (state, tape a[0..an), head index ah; blank elsewhere),
 * run at least one and at most max_steps steps and stop when the
 * configuration (tstate, b[0..bn), head index bh), taken up to translation,
 * is reached.  Returns the number of steps, -1 when max_steps ran out, -2 on
 * an undefined slot, -3 when memory ran out.  With stop_at_target = 0, *exact
 * runs: reports the configuration after max_steps instead (not used). */
i64 ref_follow(const u8 *prog, int S, int C, int state, const u8 *a, i64 an, i64 ah,
               int tstate, const u8 *b, i64 bn, i64 bh, i64 max_steps)
{
    (void)S;
    i64 cap = 4 * an + 4096, off = cap / 2 - an / 2;
    Tape T = { calloc(cap, 1), cap, off };
    memcpy(T.t + off, a, an);
    i64 head = ah, marks = 0, tmarks = 0, res = -1;
    for (i64 i = 0; i < an; i++) marks += a[i] != 0;
    i64 b0 = 0, b1 = bn - 1;             /* trim the target */
    while (b0 <= b1 && !b[b0]) b0++;
    while (b1 >= b0 && !b[b1]) b1--;
    for (i64 i = b0; i <= b1; i++) tmarks += b[i] != 0;
    u8 tscan = bh >= 0 && bh < bn ? b[bh] : 0;
    for (i64 n = 0; n < max_steps; n++) {
        u8 sc = T.t[head + T.off];
        const u8 *in = prog + 3 * (state * C + sc);
        if (in[0] == 255) { res = -2; break; }
        marks += (in[0] != 0) - (sc != 0);
        T.t[head + T.off] = in[0];
        head += in[1] ? 1 : -1;
        if (!grow(&T, head)) { res = -3; break; }
        state = in[2];
        if (state == tstate && marks == tmarks && T.t[head + T.off] == tscan) {
            i64 s0 = head - bh + b0, ok = 1;
            for (i64 i = b0; i <= b1 && ok; i++, s0++) {
                i64 p = s0 + T.off;
                ok = (p >= 0 && p < T.n ? T.t[p] : 0) == b[i];
            }
            /* equal mark count and equal on the trimmed target: equal */
            if (ok) { res = n + 1; break; }
        }
    }
    free(T.t);
    return res;
}

/* Run from a configuration inside a closed window w[0..n): stop when the head
 * leaves (status 10 left, 11 right), on an undefined slot (UNDEF), or after
 * max_steps (LIMIT).  The window is updated in place. */
int ref_window(const u8 *prog, int S, int C, int *state, u8 *w, i64 n, i64 *head,
               i64 max_steps, i64 *steps)
{
    (void)S;
    i64 h = *head, k = 0;
    int st = *state, status = LIMIT;
    while (k < max_steps) {
        if (h < 0) { status = 10; break; }
        if (h >= n) { status = 11; break; }
        const u8 *in = prog + 3 * (st * C + w[h]);
        if (in[0] == 255) { status = UNDEF; break; }
        w[h] = in[0];
        h += in[1] ? 1 : -1;
        st = in[2];
        k++;
    }
    *state = st; *head = h; *steps = k;
    return status;
}
