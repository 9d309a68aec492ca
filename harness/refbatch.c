/* What a batch runner is to report: first step number at which a machine goes
 * to the halting state (number S), has written the last mark away, or is about
 * to loop off the visited part of the tape; 0 when that number exceeds `lim`. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8;
typedef int64_t i64;

i64 ref_batch(const u8 *prog, int S, int C, i64 lim, i64 *marks_out) {
    i64 n = 4096, off = 2048, h = 0, lo = 0, hi = 0, marks = 0, k = 0, res = 0;
    u8 *t = calloc(n, 1);
    int st = 0;
    for (;;) {
        if (++k > lim) break;
        u8 *cell = t + h + off;
        const u8 *in = prog + 3 * (st * C + *cell);
        if (*cell == 0 && in[2] == st && h == (in[1] ? hi : lo)) { res = k; break; }
        marks += (in[0] != 0) - (*cell != 0);
        *cell = in[0];
        if (!marks) { res = k; break; }
        h += in[1] ? 1 : -1;
        if (h < lo) lo = h;
        if (h > hi) hi = h;
        if (h + off < 0 || h + off >= n) {
            u8 *u = calloc(2 * n, 1);
            memcpy(u + n / 2, t, n);
            free(t);
            t = u; off += n / 2; n *= 2;
        }
        st = in[2];
        if (st == S) { res = k; break; }
    }
    *marks_out = marks;
    free(t);
    return res;
}
