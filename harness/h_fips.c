/* Monitors for the hash layer (C18, C19, C20): every call runs on buffers placed directly against
 * unmapped pages or between canaries, and is compared with the sponge model. */
#define NO_REF
#define NO_AVX2
#include "h.h"
#include "hashapi.h"

/* ---- buffers --------------------------------------------------------------- */
#define ROOM (64 * 1024)
static arena A[16];
#define CAN 0xC3
/* n bytes either ending at the upper guard page (side 0), starting right after the lower one
 * (side 1), or at offset `al` inside canaries (side 2); the rest of the arena is canary */
static uint8_t *put(int a, size_t n, int side, unsigned al)
{
  arena *R = &A[a];
  uint8_t *p = side == 0 ? R->lo + R->room - n : side == 1 ? R->lo : R->lo + 4096 + al;
  memset(R->lo, CAN, R->room);
  return p;
}
static int canary_ok(int a, const uint8_t *p, size_t n)
{
  arena *R = &A[a];
  for (const uint8_t *q = R->lo; q < R->lo + R->room; q++) if ((q < p || q >= p + n) && *q != CAN) return 0;
  return 1;
}
static uint8_t want[ROOM + 16], keep[ROOM + 16];
static void vkey(const char *f, const char *what, const char *fc) { char k[120]; snprintf(k, sizeof k, "%s:%s", f, what); viol(k, "%s", fc); }

static void one_sha(long i, int t, size_t n, int side, unsigned al, rng *r)
{
  char fc[300]; size_t on = (size_t)SHA[t].len;
  uint8_t *in = put(0, n, side, al), *out;
  rbytes(r, in, n); if (n && rndn(r, 4) == 0) hostile_bytes(r, in, n);
  memcpy(keep, in, n);
  o_sponge((size_t)SHA[t].rate, 6, in, n, want, on);
  out = put(1, on, (int)rndn(r, 3), rndn(r, 64));
  memset(out, (int)rnd(r), on);
  snprintf(fc, sizeof fc, "case %ld %s inlen=%zu side=%d al=%u in=%s", i, SHA[t].name, n, side, al, hexs(in, n > 40 ? 40 : n));
  KEY("%s", SHA[t].name); CTX("%.480s", fc);
  SHA[t].f(out, in, n);
  same(SHA[t].name, "hash", out, want, on, fc);
  if (memcmp(in, keep, n) || !canary_ok(0, in, n)) vkey(SHA[t].name, "input-modified", fc);
  if (!canary_ok(1, out, on)) vkey(SHA[t].name, "output-bounds", fc);
  stat_add("sha3_calls", 1);
  distinct(hash64(keep, n, (uint64_t)t + n * 16));
  /* in place, as the callers in this repository do */
  if (i % 4 == 0 && n >= on) { SHA[t].f(in, in, n); same(SHA[t].name, "in-place", in, want, on, fc); if (memcmp(in + on, keep + on, n - on)) vkey(SHA[t].name, "in-place-bounds", fc); }
}
static void one_xof(long i, int t, size_t n, size_t on, int side, unsigned al, rng *r)
{
  char fc[300]; const xof *F = &XOF[t];
  uint8_t *in = put(0, n, side, al), *out;
  rbytes(r, in, n); if (n && rndn(r, 4) == 0) hostile_bytes(r, in, n);
  memcpy(keep, in, n);
  o_sponge((size_t)F->rate, 0x1f, in, n, want, on);
  out = put(1, on, (int)rndn(r, 3), rndn(r, 64));
  memset(out, (int)rnd(r), on);
  snprintf(fc, sizeof fc, "case %ld %s inlen=%zu outlen=%zu side=%d al=%u in=%s", i, F->name, n, on, side, al, hexs(in, n > 40 ? 40 : n));
  KEY("%s", F->name); CTX("%.480s", fc);
  F->all(out, on, in, n);
  same(F->name, "hash", out, want, on, fc);
  if (memcmp(in, keep, n) || !canary_ok(0, in, n)) vkey(F->name, "input-modified", fc);
  if (!canary_ok(1, out, on)) vkey(F->name, "output-bounds", fc);
  stat_add("shake_calls", 1);
  distinct(hash64(keep, n, 100 + (uint64_t)t + n * 16 + on * 65536));
}
static size_t rlen(rng *r, int rate)
{
  switch (rndn(r, 6)) {
    case 0: return rndn(r, 10);
    case 1: return (size_t)rate * (1 + rndn(r, 8)) - 9 + rndn(r, 18);
    case 2: return (size_t)rate * rndn(r, 12);
    case 3: return rndn(r, 40);
    case 4: return rndn(r, 20000);
    default: return rndn(r, 1200);
  }
}
static void c_sha(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 30, (uint64_t)i);
  if (i < 1400) {                 /* every input length */
    for (int t = 0; t < 4; t++) { one_sha(i, t, (size_t)i, 0, 0, &r); one_sha(i, t, (size_t)i, 1 + (int)rndn(&r, 2), rndn(&r, 64), &r);
      one_xof(i, t, (size_t)i, rlen(&r, XOF[t].rate) % 2000, (int)rndn(&r, 3), rndn(&r, 64), &r); }
    stat_add("input_lengths_enumerated", 1);
  } else if (i < 2800) {          /* every output length */
    for (int t = 0; t < 4; t++) one_xof(i, t, rlen(&r, XOF[t].rate) % 2000, (size_t)(i - 1400), (int)rndn(&r, 3), rndn(&r, 64), &r);
    stat_add("output_lengths_enumerated", 1);
  } else {
    int t = (int)rndn(&r, 4);
    one_sha(i, t, rlen(&r, SHA[t].rate), (int)rndn(&r, 3), rndn(&r, 64), &r);
    one_xof(i, t, rlen(&r, XOF[t].rate), rlen(&r, XOF[t].rate), (int)rndn(&r, 3), rndn(&r, 64), &r);
  }
  if (i % 500 == 3) sample("one-shot case %ld: last output %s", i, hexs(want, 16));
}

/* ---- C19: histories of incremental states ----------------------------------- */
typedef struct { kst st; const xof *F; int ph; uint8_t *msg; size_t n, absorbed, out; int live; char log[160]; } sess;
static uint8_t outbuf[70000];
static void slog(sess *s, const char *f, size_t n) { size_t l = strlen(s->log); if (l < sizeof s->log - 24) snprintf(s->log + l, sizeof s->log - l, "%s%zu ", f, n); }
static void c_inc(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 31, (uint64_t)i);
  sess S[5]; memset(S, 0, sizeof S);
  static uint8_t msgs[5][30000]; uint64_t h = 7;
  int nev = 12 + (int)rndn(&r, 50), mode = (int)rndn(&r, 4);
  for (int e = 0; e < nev; e++) {
    sess *s = &S[rndn(&r, 5)]; char fc[400];
    h_tick++;
    if (!s->live || (s->ph == 1 && rndn(&r, 12) == 0) ) {           /* (re)start, on a garbage state */
      kst old = s->st; (void)old;
      s->F = &XOF[rndn(&r, 4)]; s->live = 1; s->log[0] = 0; s->out = 0; s->absorbed = 0; s->msg = msgs[s - S];
      s->n = mode == 0 ? rndn(&r, 30) : rlen(&r, s->F->rate); rbytes(&r, s->msg, s->n);
      if (rndn(&r, 2)) memset(&s->st, (int)rnd(&r), sizeof s->st);
      memset(s->st.slack, 0x77, sizeof s->st.slack);
      KEY("%s:inc", s->F->name);
      if (rndn(&r, 3) == 0) {
        arena *R = &A[0]; uint8_t *in = R->lo + R->room - s->n; memcpy(in, s->msg, s->n);
        snprintf(h_ctx, sizeof h_ctx, "%s absorb_once %zu", s->F->name, s->n);
        s->F->once(&s->st, in, s->n); s->absorbed = s->n; s->ph = 1; slog(s, "once", s->n);
      } else { s->F->init(&s->st); s->ph = 0; slog(s, "init", 0); }
      continue;
    }
    KEY("%s:inc", s->F->name);
    size_t rate = (size_t)s->F->rate;
    if (rndn(&r, 10) == 0) {     /* fork the state */
      sess *d = &S[rndn(&r, 5)];
      if (d != s) { memcpy(msgs[d - S], s->msg, s->n); *d = *s; d->msg = msgs[d - S]; slog(d, "copy", (size_t)(s - S)); stat_add("state_copies", 1); 
        if (d->ph == 0 && rndn(&r, 2)) { size_t left = d->n - d->absorbed; rbytes(&r, d->msg + d->absorbed, left); } }   /* copies diverge */
      continue;
    }
    if (s->ph == 0) {
      size_t left = s->n - s->absorbed, c;
      switch (rndn(&r, 5)) { case 0: c = 0; break; case 1: c = rate - s->absorbed % rate; break; case 2: c = 1 + rndn(&r, 9); break; case 3: c = rate * rndn(&r, 3); break; default: c = left ? rndn(&r, (uint32_t)left + 1) : 0; }
      if (c > left) c = left;
      if (left == 0 && rndn(&r, 4)) {
        snprintf(h_ctx, sizeof h_ctx, "%s finalize", s->F->name);
        s->F->fin(&s->st); s->ph = 1; slog(s, "fin", 0); continue;
      }
      arena *R = &A[0]; uint8_t *in = R->lo + R->room - c; memcpy(in, s->msg + s->absorbed, c);
      snprintf(h_ctx, sizeof h_ctx, "%s absorb %zu", s->F->name, c);
      s->F->absorb(&s->st, in, c); s->absorbed += c; slog(s, "abs", c); stat_add("absorb_calls", 1);
      h = hash64(&c, sizeof c, h);
      continue;
    }
    size_t c; int blocks = 0;
    if (s->out % rate == 0 && rndn(&r, 3) == 0) { blocks = 1; c = rate * rndn(&r, 4); }
    else switch (rndn(&r, 5)) { case 0: c = 0; break; case 1: c = rate - s->out % rate; break; case 2: c = 1 + rndn(&r, 9); break; case 3: c = rate * rndn(&r, 3); break; default: c = rndn(&r, 700); }
    if (s->out + c > 60000) continue;
    arena *R = &A[1]; memset(R->lo, CAN, R->room); uint8_t *o = R->lo + R->room - c;
    snprintf(h_ctx, sizeof h_ctx, "%s %s %zu at %zu", s->F->name, blocks ? "squeezeblocks" : "squeeze", c, s->out);
    if (blocks) s->F->blk(o, c / rate, &s->st); else s->F->sq(o, c, &s->st);
    slog(s, blocks ? "blk" : "sq", c);
    o_sponge(rate, 0x1f, s->msg, s->n, outbuf, s->out + c);
    snprintf(fc, sizeof fc, "case %ld msglen %zu history: %s", i, s->n, s->log);
    same(s->F->name, blocks ? "squeezeblocks" : "squeeze", o, outbuf + s->out, c, fc);
    if (!canary_ok(1, o, c)) vkey(s->F->name, "squeeze-bounds", fc);
    for (int q = 0; q < 8; q++) if (s->st.slack[q] != 0x7777777777777777ULL) { vkey(s->F->name, "state-bounds", fc); break; }
    s->out += c; stat_add("squeeze_calls", 1); h = hash64(&c, sizeof c, h + s->n);
    if (i % 400 == 1) sample("incremental %s: %s", s->F->name, fc);
  }
  distinct(h);
}

/* ---- C20 --------------------------------------------------------------------- */
#ifndef NO_X4
static uint8_t w4[4][ROOM];
static void c_x4(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 32, (uint64_t)i);
  char fc[400];
  const xof4 *F = &XOF4[i & 1];
  long j = i / 2;
  size_t n, on, rate = (size_t)F->rate;
  int blocks = (int)rndn(&r, 3) == 0;
  if (j < 1000) { n = (size_t)j; on = rlen(&r, F->rate) % 1500; }
  else if (j < 2000) { on = (size_t)(j - 1000); n = rlen(&r, F->rate) % 1500; blocks = 0; }
  else { n = rlen(&r, F->rate); on = rlen(&r, F->rate); }
  if (blocks) on = on / rate * rate;
  uint8_t *in[4], *out[4]; const uint8_t *kp[4]; static uint8_t kk[4][ROOM];
  int alias = (int)rndn(&r, 5), place = (int)rndn(&r, 3);
  for (int l = 0; l < 4; l++) {
    int src = alias == 0 ? 0 : alias == 1 ? l & 1 : alias == 2 ? (int)rndn(&r, (uint32_t)l + 1) : l;
    if (src != l) in[l] = in[src];
    else { in[l] = put(l, n, place, rndn(&r, 64)); rbytes(&r, in[l], n); if (n && rndn(&r, 3) == 0) hostile_bytes(&r, in[l], n); }
    memcpy(kk[l], in[l], n); kp[l] = kk[l];
    out[l] = put(4 + l, on, (int)rndn(&r, 3), rndn(&r, 64)); memset(out[l], (int)rnd(&r), on);
    o_sponge(rate, 0x1f, in[l], n, w4[l], on);
  }
  snprintf(fc, sizeof fc, "case %ld %s inlen=%zu outlen=%zu place=%d alias=%d blocks=%d", i, F->name, n, on, place, alias, blocks);
  KEY("%s", F->name); CTX("%s", fc);
  if (!blocks) F->all(out[0], out[1], out[2], out[3], on, in[0], in[1], in[2], in[3], n);
  else {
    static kst4 st[2]; int cur = 0;
    memset(st, (int)rnd(&r), sizeof st);
    memset(st[0].slack, 0x66, 64); memset(st[1].slack, 0x66, 64);
    F->once(&st[0], in[0], in[1], in[2], in[3], n);
    for (size_t at = 0; at < on; ) {
      size_t c = 1 + rndn(&r, 4); if (c > (on - at) / rate) c = (on - at) / rate;
      if (rndn(&r, 3) == 0) { st[1 - cur] = st[cur]; F->blk(out[0] + at, out[1] + at, out[2] + at, out[3] + at, 1, &st[cur]); memset(st[cur].s, 0xEE, sizeof st[cur].s); cur = 1 - cur; stat_add("state_copies", 1); }
      if (rndn(&r, 6) == 0) F->blk(out[0] + at, out[1] + at, out[2] + at, out[3] + at, 0, &st[cur]);
      F->blk(out[0] + at, out[1] + at, out[2] + at, out[3] + at, c, &st[cur]);
      at += c * rate;
    }
    for (int q = 0; q < 64; q++) if (((uint8_t *)st[cur].slack)[q] != 0x66) { vkey(F->name, "state-bounds", fc); break; }
  }
  for (int l = 0; l < 4; l++) {
    char w[16]; snprintf(w, sizeof w, "lane%d", l);
    same(F->name, w, out[l], w4[l], on, fc);
    if (memcmp(in[l], kp[l], n)) vkey(F->name, "input-modified", fc);
    if (!canary_ok(4 + l, out[l], on)) vkey(F->name, "output-bounds", fc);
    distinct(hash64(kp[l], n, (uint64_t)(i & 1) + on * 65536 + n));
  }
  stat_add("x4_calls", 1);
  if (n % 8) stat_add("x4_calls_unaligned_length_at_guard", place == 0);
  if (i % 300 == 7) sample("%s lane0=%s", fc, hexs(out[0], on > 16 ? 16 : on));
}
#endif

/* ---- lengths beyond 32 bits ---------------------------------------------------- */
#define MB (1u << 20)
static uint8_t *ringmap(size_t total, int fd)
{
  size_t m = (total + MB - 1) / MB;
  uint8_t *b = mmap(0, (m + 1) * MB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (size_t i = 0; i < m; i++) if (mmap(b + i * MB, MB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
  return b;
}
#include "keccak_stream.h"
#include <pthread.h>
/* the model's pass runs beside the code under test */
struct ksj { int tail; size_t rate; uint8_t suf; const uint8_t *in; size_t il, n; uint8_t *o; size_t on; pthread_t th; };
static void *ks_run(void *p) { struct ksj *j = p; if (j->tail) ks_tail(j->rate, j->suf, j->in, j->il, j->n, j->o, j->on); else ks_ring(j->rate, j->suf, j->in, j->il, j->n, j->o, j->on); return 0; }
static void ks_go(struct ksj *j) { if (pthread_create(&j->th, 0, ks_run, j)) { perror("thread"); exit(3); } }
static void ks_end(struct ksj *j) { pthread_join(j->th, 0); }
#define RINGJ(RATE, SUF, N, OUT, ON) { 0, (size_t)(RATE), SUF, page, MB, N, OUT, (size_t)(ON) }
static void c_huge(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 33, 1);
  int fd = memfd_create("ring", 0); if (fd < 0 || ftruncate(fd, MB)) { perror("memfd"); exit(3); }
  size_t big = (1ull << 32) + 8 * 168 * 136 * 9 + 5;
  uint8_t *b = ringmap(big, fd), *page = malloc(MB); char fc[200]; uint8_t outs[2][64], w[64];
  rbytes(&r, b, MB); memcpy(page, b, MB);
  struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &off, 0);
  static const char *WH[] = {"huge-input-sha", "huge-input-shake", "huge-output-shake", "huge-absorb", "huge-absorb_once", "huge-squeeze", "huge-x4-input", "huge-x4-output"};
  /* t selects the function; both variants run against one pass of the model */
  int what = (int)(i / 2), t = (int)(i % 2);
  snprintf(fc, sizeof fc, "%s function %d length %zu", WH[what], t, big);
  KEY("%s:%d", WH[what], t); CTX("%s", fc);
  switch (what) {
    case 0: { struct ksj j = RINGJ(SHA[t].rate, 6, big, w, SHA[t].len); ks_go(&j);
      for (int q = t; q < 4; q += 2) SHA[q].f(outs[q / 2], b, big);
      ks_end(&j);
      for (int q = t; q < 4; q += 2) { same(SHA[q].name, "huge-input", outs[q / 2], w, (size_t)SHA[q].len, fc); stat_add("huge_calls", 1); } break; }
    case 1: { struct ksj j = RINGJ(XOF[t].rate, 0x1f, big, w, 64); ks_go(&j);
      for (int q = t; q < 4; q += 2) XOF[q].all(outs[q / 2], 64, b, big);
      ks_end(&j);
      for (int q = t; q < 4; q += 2) { same(XOF[q].name, "huge-input", outs[q / 2], w, 64, fc); stat_add("huge_calls", 1); } break; }
    case 2: case 5: {
      uint8_t in[40]; rbytes(&r, in, 40);
      struct ksj j = { 1, (size_t)XOF[t].rate, 0x1f, in, 40, big, page, MB }; ks_go(&j);   /* what the ring must now hold */
      int ended = 0;
      for (int q = t; q < 4; q += 2) {
        memset(b, 0, MB);
        if (what == 2) XOF[q].all(b, big, in, 40);
        else { kst s; XOF[q].init(&s); XOF[q].absorb(&s, in, 40); XOF[q].fin(&s); XOF[q].sq(b, 5, &s); XOF[q].sq(b + 5, big - 5, &s); }
        if (!ended) { ks_end(&j); ended = 1; }
        same(XOF[q].name, "huge-output", b, page, MB, fc); stat_add("huge_calls", 1);
      }
      break; }
    case 3: case 4: {
      struct ksj j = RINGJ(XOF[t].rate, 0x1f, big, w, 64); ks_go(&j);
      for (int q = t; q < 4; q += 2) {
        kst s;
        if (what == 3) { XOF[q].init(&s); XOF[q].absorb(&s, b, 3); XOF[q].absorb(&s, b + 3, big - 3); XOF[q].fin(&s); } else XOF[q].once(&s, b, big);
        XOF[q].sq(outs[q / 2], 64, &s);
      }
      ks_end(&j);
      for (int q = t; q < 4; q += 2) { same(XOF[q].name, what == 3 ? "huge-absorb" : "huge-absorb_once", outs[q / 2], w, 64, fc); stat_add("huge_calls", 1); }
      break; }
#ifndef NO_X4
    case 6: { const xof4 *F = &XOF4[t & 1]; uint8_t o[4][64]; struct ksj j = RINGJ(F->rate, 0x1f, big, w, 64); ks_go(&j); F->all(o[0], o[1], o[2], o[3], 64, b, b, b, b, big);
      ks_end(&j); for (int l = 0; l < 4; l++) same(F->name, "huge-input", o[l], w, 64, fc); stat_add("huge_calls", 1); break; }
    case 7: { const xof4 *F = &XOF4[t & 1]; uint8_t in[40]; rbytes(&r, in, 40);
      struct ksj j = { 1, (size_t)F->rate, 0x1f, in, 40, big, page, MB }; ks_go(&j);
      F->all(b, b, b, b, big, in, in, in, in, 40);
      ks_end(&j); same(F->name, "huge-output", b, page, MB, fc); stat_add("huge_calls", 1); break; }
#endif
    default: exit(3);
  }
  distinct((uint64_t)i + 1);
  sample("%s", fc);
  munmap(b, big); close(fd); free(page);
}

int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  for (int i = 0; i < 8; i++) arena_init(&A[i], ROOM);
  void (*f)(long) = !strcmp(a_mode, "sha") ? c_sha : !strcmp(a_mode, "inc") ? c_inc : !strcmp(a_mode, "huge") ? c_huge :
#ifndef NO_X4
    !strcmp(a_mode, "x4") ? c_x4 :
#endif
    0;
  if (!f) return 3;
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) f(j);
  h_finish(1);
  return 0;
}
