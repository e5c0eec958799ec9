/* Reference Turing machine: deliberately boring.  One flat array tape,
 * one step at a time, straight from the definition.
 * Table: for (state,symbol): 3 ints = symbol written, direction (0 L, 1 R),
 * next state (-1 = halt).  An undefined cell is passed in as (1,1,-1). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define MAXQ 64
typedef struct {
  int n, m;
  int8_t *tab;
  uint8_t *tape;
  int64_t size, origin;      /* cell for position p is tape[p+origin] */
  int64_t pos, lo, hi;       /* head, extreme visited positions */
  int state, halted;
  int64_t steps;
  int from_state, from_symbol;
  int64_t last[MAXQ];        /* last step at which the state was used, or -1 */
} Sim;

Sim *ref_new(int n, int m, const int8_t *tab) {
  Sim *s = calloc(1, sizeof(Sim));
  s->n = n; s->m = m;
  s->tab = malloc((size_t)n * m * 3);
  memcpy(s->tab, tab, (size_t)n * m * 3);
  s->size = 256; s->origin = 128;
  s->tape = calloc(1, s->size);
  for (int i = 0; i < MAXQ; i++) s->last[i] = -1;
  return s;
}
void ref_free(Sim *s) { free(s->tab); free(s->tape); free(s); }

static void grow(Sim *s) {
  int64_t ns = s->size * 2;
  uint8_t *t = calloc(1, ns);
  int64_t shift = (ns - s->size) / 2;
  memcpy(t + shift, s->tape, s->size);
  free(s->tape);
  s->tape = t; s->size = ns; s->origin += shift;
}

void ref_seek(Sim *s, int64_t target) {
  while (!s->halted && s->steps < target) {
    uint8_t *c = s->tape + s->pos + s->origin;
    const int8_t *e = s->tab + ((int64_t)s->state * s->m + *c) * 3;
    s->last[s->state] = s->steps;
    if (e[2] < 0) { s->halted = 1; s->from_state = s->state; s->from_symbol = *c; }
    *c = e[0];
    if (e[1]) { s->pos++; if (s->pos > s->hi) s->hi = s->pos; }
    else { s->pos--; if (s->pos < s->lo) s->lo = s->pos; }
    if (s->pos + s->origin <= 0 || s->pos + s->origin >= s->size - 1) grow(s);
    s->state = e[2];
    s->steps++;
  }
}
int64_t ref_score(Sim *s) {
  int64_t k = 0;
  for (int64_t p = s->lo; p <= s->hi; p++) k += s->tape[p + s->origin] != 0;
  return k;
}
void ref_info(Sim *s, int64_t *out) {
  out[0] = s->halted; out[1] = s->steps; out[2] = s->state; out[3] = s->pos;
  out[4] = s->lo; out[5] = s->hi; out[6] = s->from_state; out[7] = s->from_symbol;
  out[8] = s->origin;
  for (int i = 0; i < s->n; i++) out[9 + i] = s->last[i];
}
uint8_t *ref_tape(Sim *s) { return s->tape; }

/* Record (state*m + symbol read) and head position before each of the next n steps. Returns steps done. */
int64_t ref_trace(Sim *s, int64_t n, uint8_t *tr, int32_t *pos) {
  int64_t k;
  for (k = 0; k < n && !s->halted; k++) {
    tr[k] = s->state * s->m + s->tape[s->pos + s->origin];
    pos[k] = s->pos;
    ref_seek(s, s->steps + 1);
  }
  return k;
}

/* Start again from a given configuration: cells left of the head (nearest last), cells from the head on. */
void ref_load(Sim *s, int state, const uint8_t *l, int64_t nl, const uint8_t *r, int64_t nr) {
  int64_t need = 2 * (nl + nr) + 256;
  if (need > s->size) { free(s->tape); s->size = need; s->tape = malloc(need); }
  memset(s->tape, 0, s->size);
  s->origin = s->size / 2;
  memcpy(s->tape + s->origin - nl, l, nl);
  memcpy(s->tape + s->origin, r, nr);
  s->pos = 0; s->lo = -nl; s->hi = nr ? nr - 1 : 0; s->state = state; s->halted = 0; s->steps = 0;
  for (int i = 0; i < MAXQ; i++) s->last[i] = -1;
}

/* Run (at least one step) until the configuration relative to the head is
 * (state, cells left of head with nearest last, cells from head on), both blank-stripped.
 * 1 found, 0 halted first, 2 not found within target steps. */
int ref_find(Sim *s, int state, const uint8_t *l, int64_t nl, const uint8_t *r, int64_t nr, int64_t target) {
  for (;;) {
    if (s->halted) return 0;
    if (s->steps >= target) return 2;
    ref_seek(s, s->steps + 1);
    if (s->halted) return 0;
    if (s->state != state) continue;
    uint8_t *t = s->tape + s->origin;
    if (s->pos - nl < s->lo || s->pos + nr - 1 > s->hi) continue;
    if (memcmp(t + s->pos - nl, l, nl) || memcmp(t + s->pos, r, nr)) continue;
    int ok = 1; int64_t p;
    for (p = s->pos - nl - 1; ok && p >= s->lo; p--) if (t[p]) ok = 0;
    for (p = s->pos + nr; ok && p <= s->hi; p++) if (t[p]) ok = 0;
    if (ok) return 1;
  }
}

/* Tree-normal-form enumeration (independent of the code under test).
 * Appends records: n*m*3 table bytes (undefined cell = 127,0,0), then int64 steps
 * (steps > 0: an undefined cell is executed as step number `steps`; 0: none within bound). */
typedef struct { uint8_t *buf; int64_t len, cap; int rec, n, m, nohalt, mode; int64_t bound, minsteps; } Enum;

static int run_small(Enum *e, const int8_t *tab, int64_t *steps, int *fq, int *fs, uint8_t *tape, int64_t size) {
  int64_t pos = size / 2, lo = pos, hi = pos, k; int q = 0, halted = 0;
  for (k = 1; k <= e->bound; k++) {
    const int8_t *c = tab + (q * e->m + tape[pos]) * 3;
    if (c[0] == 127) { halted = 1; *steps = k; *fq = q; *fs = tape[pos]; break; }
    tape[pos] = c[0];
    if (c[1]) { pos++; if (pos > hi) hi = pos; } else { pos--; if (pos < lo) lo = pos; }
    q = c[2];
    if (pos <= 1 || pos >= size - 2) break;
  }
  memset(tape + lo, 0, hi - lo + 1);
  return halted;
}
static void emit(Enum *e, const int8_t *tab, int64_t steps) {
  if (e->len + e->rec > e->cap) { e->cap = e->cap ? e->cap * 2 : 1 << 20; e->buf = realloc(e->buf, e->cap); }
  memcpy(e->buf + e->len, tab, e->rec - 8);
  memcpy(e->buf + e->len + e->rec - 8, &steps, 8);
  e->len += e->rec;
}
static void rec_enum(Enum *e, int8_t *tab, uint8_t *tape, int64_t size) {
  int64_t steps = 0; int fq = 0, fs = 0;
  int h = run_small(e, tab, &steps, &fq, &fs, tape, size);
  if (!h) { if (e->mode != 1) emit(e, tab, 0); return; }
  if (e->mode != 2 && steps >= e->minsteps) emit(e, tab, steps);
  int undef = 0, mq = 0, ms = 0, any = 0;
  for (int i = 0; i < e->n * e->m; i++) {
    if (tab[i * 3] == 127) undef++;
    else { any = 1; if (tab[i*3] > ms) ms = tab[i*3]; if (tab[i*3+2] > mq) mq = tab[i*3+2]; }
  }
  if (undef <= 1 && !e->nohalt) return;
  int nq = mq + 2 < e->n ? mq + 2 : e->n, ns = ms + 2 < e->m ? ms + 2 : e->m;
  int8_t *c = tab + (fq * e->m + fs) * 3;
  for (int q = 0; q < nq; q++) for (int s = 0; s < ns; s++) for (int d = any ? 0 : 1; d < 2; d++) {
    c[0] = s; c[1] = d; c[2] = q;
    rec_enum(e, tab, tape, size);
  }
  c[0] = 127; c[1] = c[2] = 0;
}
/* mode: 0 all nodes, 1 halting nodes only, 2 running nodes only */
int64_t ref_tnf(int n, int m, const int8_t *start, int nohalt, int64_t bound, int64_t minsteps, int mode, uint8_t **out) {
  Enum e = {0}; e.n = n; e.m = m; e.rec = n * m * 3 + 8; e.nohalt = nohalt; e.bound = bound; e.minsteps = minsteps; e.mode = mode;
  int8_t tab[256]; memcpy(tab, start, n * m * 3);
  int64_t size = 2 * (bound < 1000000 ? bound : 1000000) + 16;
  uint8_t *tape = calloc(1, size);
  rec_enum(&e, tab, tape, size);
  free(tape);
  *out = e.buf;
  return e.len / e.rec;
}
void ref_free_buf(uint8_t *p) { free(p); }
