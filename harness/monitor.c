/* Compiled in one unit with a structured program (-DPROG_FILE=...): watches
   every store it makes, and walks the Turing machine along with it.

   Environment: MON_S states, MON_C colors, MON_TABLE "pr sh tr" triples
   (tr < 0: no such instruction; tr >= S: halt), MON_LIMIT moves, MON_CHECKS: a comma list
   of move numbers at which the whole tape is compared, MON_SETUP: moves
   made before the machine starts, "pr sh" pairs, MON_FILE the report. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>

#define NOSAN __attribute__((no_sanitize("coverage")))

static long long mon_moves;
#ifdef MON_NO_EARLY_RETURN
#define return if (mon_moves > 0) return
#endif
#define main prog_main
#include PROG_FILE
#undef main
#undef return

#define MLEN ((long) (sizeof TAPE / sizeof TAPE[0]))
static int S, C, tab[64][8][3], state, stopped, nsetup, setup[64][2];
static long long limit, checks[64];
static int nchecks, nextcheck, started;
static long lastpos, pos0;
static short *mirror;
static long mhead, marks, mlo, mhi;
static FILE *rep;

NOSAN static void report(const char *kind, const char *fmt, long long a, long long b)
{
  fprintf(rep, "%s %lld ", kind, mon_moves);
  fprintf(rep, fmt, a, b);
  fprintf(rep, "\n");
  fclose(rep);
  _exit(0);
}

NOSAN static void whole(void)
{
  for (long i = 0; i < MLEN; i++)
    if (TAPE[i] != mirror[i])
      report("BAD", "cell %lld differs (has %lld)", i - pos0, TAPE[i]);
}

/* a move happened, from lastpos to POS: does the machine do that? */
NOSAN static void moved(void)
{
  long pos = (long) POS, d = pos - lastpos;
  mon_moves++;
  if (d != 1 && d != -1) report("BAD", "head went from %lld to %lld", lastpos - pos0, pos - pos0);
  if (pos < 0 || pos >= MLEN) report("BAD", "head left the tape of %lld cells", MLEN, 0);
  int pr, sh;
  if (mon_moves <= nsetup) {
    pr = setup[mon_moves - 1][0]; sh = setup[mon_moves - 1][1];
  } else {
    if (stopped) report("BAD", "went on after the machine had stopped (%lld)", stopped, 0);
    int *i = tab[state][mirror[mhead]];
    if (i[2] < 0) report("BAD", "went on from state %lld at color %lld, which has no instruction", state, mirror[mhead]);
    pr = i[0]; sh = i[1]; state = i[2];
    if (state >= S) stopped = 1;
  }
  marks += (pr != 0) - (mirror[mhead] != 0);
  mirror[mhead] = pr;
  if (TAPE[lastpos] != pr)
    report("BAD", "left color %lld on the tape, not %lld", TAPE[lastpos], pr);
  if (d != (sh ? 1 : -1)) report("BAD", "went by %lld, not %lld", d, sh ? 1 : -1);
  mhead += d;
  if (mhead < mlo) mlo = mhead;
  if (mhead > mhi) mhi = mhead;
  if (TAPE[pos] != mirror[mhead]) report("BAD", "came to color %lld, not %lld", TAPE[pos], mirror[mhead]);
  if (!marks) stopped = 2;
  lastpos = pos;
  if (nextcheck < nchecks && mon_moves >= checks[nextcheck]) { whole(); nextcheck++; }
  if (mon_moves >= limit) { whole(); report("LIMIT", "state %lld marks %lld", state, marks); }
}

NOSAN static inline void look(void)
{
  if (started && (long) POS != lastpos) moved();
}

#define CB(n, t) NOSAN void __sanitizer_cov_store##n(t *addr) { (void) addr; look(); }
CB(1, uint8_t) CB(2, uint16_t) CB(4, uint32_t) CB(8, uint64_t) CB(16, __int128)

NOSAN static long long num(char **s)
{
  return strtoll(*s, s, 10);
}

NOSAN int main(void)
{
  rep = fopen(getenv("MON_FILE"), "w");
  S = atoi(getenv("MON_S")); C = atoi(getenv("MON_C"));
  char *p = getenv("MON_TABLE");
  for (int s = 0; s < S; s++) for (int c = 0; c < C; c++) for (int k = 0; k < 3; k++) tab[s][c][k] = (int) num(&p);
  limit = atoll(getenv("MON_LIMIT"));
  p = getenv("MON_CHECKS");
  while (*p) { checks[nchecks++] = num(&p); while (*p == ',') p++; }
  p = getenv("MON_SETUP");
  while (*p) { setup[nsetup][0] = (int) num(&p); setup[nsetup++][1] = (int) num(&p); while (*p == ' ') p++; }
  mirror = calloc(MLEN, sizeof *mirror);
  lastpos = mhead = mlo = mhi = pos0 = (long) POS;
  if (MLEN < 3 || pos0 < 0 || pos0 >= MLEN) report("BAD", "starts at %lld of %lld", pos0, MLEN);
  whole();
  started = 1;
  prog_main();
  look();
  started = 0;
  whole();
  if ((long long) STEPS != mon_moves) report("BAD", "counted %lld steps, made %lld", STEPS, mon_moves);
  if ((long long) MARKS != marks) report("BAD", "counted %lld marks, has %lld", MARKS, marks);
  int *i = stopped ? 0 : tab[state][mirror[mhead]];
  int why = stopped ? stopped : i[2] < 0 ? 3 :
    (mirror[mhead] == 0 && i[2] == state && ((i[1] && mhead == mhi) || (!i[1] && mhead == mlo))) ? 4 : 0;
  report("END", "why %lld state %lld", why, state);
  return 0;
}
