/* Independent enumerator of tree-normal programs: flat tape, plain steps.
 * A budget of `lim` cycles is spent between two undefined slots; a cycle is a
 * maximal run of one self-looping slot.  A branch ends (and its program is
 * listed) when the budget runs out, the machine spins out, or erases its tape
 * to blank; else when all slots but `keep` are filled. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8;
typedef int64_t i64;

static int S, C, need;
static i64 lim, cap, count;
static u8 prog[26 * 10 * 3];
static char *out;
static i64 out_n, out_cap;

typedef struct { u8 *t; i64 n, head, lo, hi, marks; int st; } Conf;

static void list(void) {
    int ss = 0, cc = 0;
    for (int i = 0; i < S * C; i++)
        if (prog[3 * i] != 255) {
            if (prog[3 * i + 2] == S - 1) ss = 1;
            if (prog[3 * i] == C - 1) cc = 1;
        }
    if (!ss || !cc) return;
    count++;
    if (out_n + S * C * 4 + S + 8 > out_cap) out = realloc(out, out_cap = out_cap * 2 + 4096);
    for (int s = 0; s < S; s++) {
        if (s) { out[out_n++] = ' '; out[out_n++] = ' '; }
        for (int c = 0; c < C; c++) {
            if (c) out[out_n++] = ' ';
            u8 *in = prog + 3 * (s * C + c);
            if (in[0] == 255) { memcpy(out + out_n, "...", 3); }
            else { out[out_n] = '0' + in[0]; out[out_n + 1] = in[1] ? 'R' : 'L'; out[out_n + 2] = 'A' + in[2]; }
            out_n += 3;
        }
    }
    out[out_n++] = '\n';
}

/* 1: stopped at an undefined slot; 0: ended otherwise */
static int go(Conf *f) {
    i64 cyc = 0;
    int ps = -1, pc = -1;
    for (;;) {
        int sc = f->t[f->head];
        int cont = f->st == ps && sc == pc;
        if (!cont && cyc >= lim) return 0;
        u8 *in = prog + 3 * (f->st * C + sc);
        if (in[0] == 255) return 1;
        if (sc == 0 && in[2] == f->st) {
            int any = 0;
            if (in[1]) { for (i64 p = f->head + 1; p <= f->hi && !any; p++) any = f->t[p]; }
            else { for (i64 p = f->head - 1; p >= f->lo && !any; p--) any = f->t[p]; }
            if (!any) return 0;
        }
        if (!cont) cyc++;
        if (in[2] == f->st) ps = f->st, pc = sc; else ps = -1;
        f->marks += (in[0] != 0) - (sc != 0);
        f->t[f->head] = in[0];
        f->head += in[1] ? 1 : -1;
        if (f->head < f->lo) f->lo = f->head;
        if (f->head > f->hi) f->hi = f->head;
        f->st = in[2];
        if (!f->marks) return 0;
    }
}

static void grow(const Conf *f, int left, int ms, int mc) {
    Conf g = *f;
    i64 a = f->lo, n = f->hi - f->lo + 1;
    g.t = calloc(f->n, 1);
    memcpy(g.t + a, f->t + a, n);
    if (count > cap) { free(g.t); return; }
    if (!go(&g)) { list(); free(g.t); return; }
    u8 *in = prog + 3 * (g.st * C + g.t[g.head]);
    int as = ms + 2 < S ? ms + 2 : S, ac = mc + 2 < C ? mc + 2 : C;
    for (int c = 0; c < ac; c++) for (int d = 0; d < 2; d++) for (int s = 0; s < as; s++) {
        in[0] = c; in[1] = d; in[2] = s;
        if (left == 1) list();
        else grow(&g, left - 1, s > ms ? s : ms, c > mc ? c : mc);
        in[0] = 255;
    }
    free(g.t);
}

/* number of programs (> cap: gave up); their texts, one a line */
i64 ref_enum(int s, int c, int keep, i64 limit, i64 most, char **text, i64 *len) {
    S = s; C = c; lim = limit; cap = most; count = 0; out = NULL; out_n = out_cap = 0;
    memset(prog, 255, sizeof prog);
    prog[0] = 1; prog[1] = 1; prog[2] = 1;
    i64 n = 2 * (lim * S * C + 8);
    Conf f = { calloc(n, 1), n, n / 2, n / 2, n / 2, 0, 0 };
    f.t[n / 2] = 1; f.head++; f.hi++; f.marks = 1; f.st = 1;
    grow(&f, S * C - 1 - keep, 1, 1);
    free(f.t);
    *text = out; *len = out_n;
    return count;
}

void ref_enum_free(void *p) { free(p); }
