/* C16: the entropy source is recorded; histories of randomised, deterministic and decapsulation calls */
#include "h.h"
#define MAXREQ 64
static struct { uint8_t *p; size_t n; uint8_t b[256]; } req[MAXREQ];
static int nreq; static size_t total;
static rng er; static int efam;
/* the entropy of one operation is a stream fixed beforehand, however the code splits its requests */
static uint8_t es[4096], prev_es[4096];
static void make_stream(const uint8_t *key, size_t n)
{
  memcpy(prev_es, es, sizeof es);
  rbytes(&er, es, sizeof es);
  switch (efam) {
    case 0: case 1: break;
    case 2: memset(es, 0, 128 + rndn(&er, 64)); break;
    case 3: memset(es, 0xff, 128 + rndn(&er, 64)); break;
    case 4: memset(es, 0, 16); break;
    case 5: memset(es + 32, 0, 32); break;
    case 6: memset(es, 0, 32); break;
    case 7: memset(es, 0, sizeof es); es[rndn(&er, 64)] = (uint8_t)(1 << rndn(&er, 8)); break;
    case 8: memcpy(es + 32, es, 32); break;                                  /* repetition inside one draw */
    case 9: memcpy(es, prev_es, rndn(&er, 2) ? 64 : sizeof es); break;       /* the same bytes as last time */
    case 10: memcpy(es, prev_es + 32, 32); break;
    case 11: case 12: hostile_bytes(&er, es, 32); hostile_bytes(&er, es + 32, 32); break;
    case 13: hostile_bytes(&er, es, sizeof es); break;
    case 14: related(&er, es, key, n); break;                                /* equal to, or hash of, part of the key */
    default: related(&er, es + 32, es, 32); break;
  }
}
static void entropy(uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = es[(total + i) % sizeof es]; }
void randombytes(uint8_t *out, size_t n)
{
  if (!n) return;
  uint8_t tmp[4096];
  if (nreq >= MAXREQ || n > sizeof tmp) { viol("entropy-draws", "one call drew entropy %d times or %zu bytes at once", nreq + 1, n); exit(0); }
  entropy(tmp, n); total += n;
  memcpy(out, tmp, n);
  req[nreq].p = out; req[nreq].n = n; memcpy(req[nreq].b, tmp, n > 256 ? 256 : n); nreq++;
}
/* the drawn bytes in call order, and in the order of the addresses they went to */
static void drawn(uint8_t a[128], uint8_t b[128])
{
  int o[MAXREQ]; size_t x = 0, y = 0;
  for (int i = 0; i < nreq; i++) { memcpy(a + x, req[i].b, req[i].n); x += req[i].n; o[i] = i; }
  for (int i = 1; i < nreq; i++) for (int j = i; j > 0 && req[o[j]].p < req[o[j - 1]].p; j--) { int t = o[j]; o[j] = o[j - 1]; o[j - 1] = t; }
  for (int i = 0; i < nreq; i++) { memcpy(b + y, req[o[i]].b, req[o[i]].n); y += req[o[i]].n; }
}
static uint8_t pk[4][OMAX_PK], sk[4][OMAX_SK], ct[4][OMAX_CT], ss[4][32];
static int have_ct[4], kk[4];
static char fc[2000];
static int count(const impl *I, const char *op, size_t want)
{
  if (total == want) return 1;
  char key[120]; snprintf(key, sizeof key, "%s:%s:draws", I->name, op);
  viol(key, "drew %zu random bytes in %d requests, must be %zu; case %s", total, nreq, want, fc);
  return 0;
}
static void c_rand(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 61, (uint64_t)i);
  uint8_t a[128], b[128], wp[OMAX_PK], ws[OMAX_SK], wc[OMAX_CT], wss[32], cs[64];
  int pool[2 * 3]; (void)pool;
  memset(have_ct, 0, sizeof have_ct); memset(kk, 0, sizeof kk);
  uint64_t hist = 7;
  int steps = 6 + (int)rndn(&r, 8);
  for (int s = 0; s < steps; s++) {
    int slot = (int)rndn(&r, 4), op = (int)rndn(&r, 6);
    const impl *I = &IMPLS[rndn(&r, (uint32_t)NIMPL)];
    if (!kk[slot] && op != 0 && op != 3) op = rndn(&r, 2) ? 0 : 3;
    if (op != 0 && op != 3) { for (int n = 0, st = (int)rndn(&r, (uint32_t)NIMPL); n < NIMPL; n++) { const impl *J = &IMPLS[(n + st) % NIMPL]; if (J->k == kk[slot]) { I = J; break; } } }
    const oparams *p = o_params(I->k);
    efam = (int)rndn(&r, 16); rng_init(&er, rnd(&r), 5); make_stream(pk[slot], sizeof pk[slot]);
    nreq = 0; total = 0;
    KEY("%s:op%d", I->name, op); CTX("case %ld step %d %s op %d entropy family %d", i, s, I->name, op, efam);
    snprintf(fc, sizeof fc, "%ld step %d entropy family %d", i, s, efam);
    int rv = 0;
    switch (op) {
      case 0:   /* randomised key generation */
        kk[slot] = I->k; have_ct[slot] = 0;
        memset(pk[slot], (int)s, p->pkb); memset(sk[slot], (int)s, p->skb);
        rv = I->keypair(pk[slot], sk[slot]);
        stat_add("randomised_keygen", 1);
        if (!count(I, "keypair", 64)) { kk[slot] = 0; break; }
        drawn(a, b);
        hist = hash64(a, 64, hist);
        /* the code's own deterministic variant on those bytes */
        { uint8_t q[OMAX_PK], t[OMAX_SK]; rv ^= I->keypair_derand(q, t, a); if (memcmp(q, pk[slot], p->pkb)) I->keypair_derand(q, t, b);
          same(I->name, "keypair:derand-pk", pk[slot], q, p->pkb, fc); same(I->name, "keypair:derand-sk", sk[slot], t, p->skb, fc); }
        break;
      case 1: case 5:   /* randomised encapsulation */
        rv = I->enc(ct[slot], ss[slot], pk[slot]);
        stat_add("randomised_enc", 1);
        have_ct[slot] = 1;
        if (!count(I, "enc", 32)) break;
        drawn(a, b);
        hist = hash64(a, 32, hist);
        { uint8_t c2[OMAX_CT], s2[32]; rv ^= I->enc_derand(c2, s2, pk[slot], a); if (memcmp(c2, ct[slot], p->ctb)) I->enc_derand(c2, s2, pk[slot], b);
          same(I->name, "enc:derand-ct", ct[slot], c2, p->ctb, fc); same(I->name, "enc:derand-ss", ss[slot], s2, 32, fc); }
        break;
      case 2:   /* decapsulation, accepting or rejecting */
        if (!have_ct[slot]) rbytes(&r, ct[slot], p->ctb);
        memcpy(wc, ct[slot], p->ctb); if (rndn(&r, 2)) wc[rndn(&r, (uint32_t)p->ctb)] ^= 1;
        I->dec(cs, wc, sk[slot]);
        count(I, "dec", 0); stat_add("dec", 1);
        break;
      case 3:   /* deterministic key generation */
        kk[slot] = I->k; have_ct[slot] = 0;
        rbytes(&r, cs, 64);
        I->keypair_derand(pk[slot], sk[slot], cs);
        count(I, "keypair_derand", 0); stat_add("derand_keygen", 1);
        break;
      default:
        rbytes(&r, cs, 32); have_ct[slot] = 1;
        I->enc_derand(ct[slot], ss[slot], pk[slot], cs);
        count(I, "enc_derand", 0); stat_add("derand_enc", 1);
        break;
    }
    stat_add("entropy_requests", (uint64_t)nreq);
    if (rv) { char key[120]; snprintf(key, sizeof key, "%s:op%d:return", I->name, op); viol(key, "return value differs from the deterministic variant's; case %s", fc); }
    hist = hash64(&op, sizeof op, hist + (uint64_t)I->k * 2 + (uint64_t)I->avx2);
  }
  distinct(hist);
  sample("history %ld: %d steps, last entropy %s", i, steps, hexs(a, 16));
}
/* one operation many thousand times in one process: no entropy is pooled, stretched or used again */
static long long_calls;
static void c_long(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 63, (uint64_t)i); rng_init(&er, rnd(&r), 9);
  const impl *I = &IMPLS[i % NIMPL]; const oparams *p = o_params(I->k); int op = (int)(i / NIMPL % 2);
  uint8_t a[128], b[128], q[OMAX_PK], t[OMAX_SK];
  rbytes(&r, a, 64); I->keypair_derand(pk[0], sk[0], a);
  for (long n = 0; n < long_calls; n++) {
    KEY("%s:long", I->name); CTX("%s %s: call %ld in one process", I->name, op ? "enc" : "keypair", n); snprintf(fc, sizeof fc, "call %ld in one process", n);
    rbytes(&er, es, 128); nreq = 0; total = 0;
    if (op) { I->enc(ct[0], ss[0], pk[0]); if (!count(I, "enc", 32)) return; drawn(a, b); I->enc_derand(q, t, pk[0], a); if (memcmp(q, ct[0], p->ctb)) I->enc_derand(q, t, pk[0], b);
      if (!same(I->name, "enc:long-ct", ct[0], q, p->ctb, fc) || !same(I->name, "enc:long-ss", ss[0], t, 32, fc)) return; }
    else { I->keypair(pk[1], sk[1]); if (!count(I, "keypair", 64)) return; drawn(a, b); I->keypair_derand(q, t, a); if (memcmp(q, pk[1], p->pkb)) I->keypair_derand(q, t, b);
      if (!same(I->name, "keypair:long-pk", pk[1], q, p->pkb, fc) || !same(I->name, "keypair:long-sk", sk[1], t, p->skb, fc)) return; }
  }
  stat_add(op ? "long_history_enc" : "long_history_keygen", (uint64_t)long_calls);
}
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  if (!strcmp(a_mode, "long")) {
    const char *e = getenv("VP_LONG"); long_calls = e ? atol(e) : 70000;
    for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_long(j);
    h_finish(1);
    return 0;
  }
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_rand(j);
  h_finish(1);
  return 0;
}
