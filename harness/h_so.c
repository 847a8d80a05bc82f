/* C21: the shared libraries in one process.  Arguments are a script:
 *   L<path> / N<path>  dlopen(RTLD_LAZY / RTLD_NOW | RTLD_GLOBAL)      P<path> dlopen(RTLD_LAZY | RTLD_LOCAL)
 *   C<n>               dlclose the n-th opened library and forget it
 *   R<impl>            run implementation <impl> (kyber768_avx2, fips202_ref, ...) and print its digest
 * Functions are taken from the library's own handle; where the handle is global, the name looked up in the
 * process must be the same function.  With -DSTATIC everything is linked in: the results to compare with. */
#ifndef STATIC
#define NO_REF
#define NO_AVX2
#endif
#include "h.h"
#include <dlfcn.h>
#ifdef STATIC
#include "hashapi.h"
#endif
static rng er;
void randombytes(uint8_t *o, size_t n) { rbytes(&er, o, n); }
static uint64_t D;
#define MIX(p, n) (D = hash64(p, n, D))
static uint8_t pk[OMAX_PK + 64], sk[OMAX_SK + 64], ct[OMAX_CT + 64], ss[64], c[64], m[64], buf[4][2048], in[4][2048];
static void run_kem(const impl *I)
{
  rng r; rng_init(&r, a_seed, 500 + (uint64_t)I->k); rng_init(&er, a_seed, 501);
  const oparams *p = o_params(I->k);
  static uint8_t wpk[OMAX_PK], wsk[OMAX_SK];
  for (int i = 0; i < 6; i++) {
    CTX("%s case %d", I->name, i);
    rbytes(&r, c, 64); I->keypair_derand(pk, sk, c); MIX(pk, p->pkb); MIX(sk, p->skb);
    o_keygen(I->k, wpk, wsk, c);
    stat_add(memcmp(pk, wpk, p->pkb) || memcmp(sk, wsk, p->skb) ? "keygen_differing_from_the_model" : "keygen_equal_to_the_model", 1);
    rbytes(&r, c, 32); I->enc_derand(ct, ss, pk, c); MIX(ct, p->ctb); MIX(ss, 32);
    I->dec(ss, ct, sk); MIX(ss, 32);
    ct[rnd(&r) % p->ctb] ^= 4; I->dec(ss, ct, sk); MIX(ss, 32);
    I->keypair(pk, sk); MIX(pk, p->pkb); I->enc(ct, ss, pk); MIX(ct, p->ctb);
    hostile12(&r, pk, 256 * I->k); hostile12(&r, sk, 256 * I->k); hostile_bytes(&r, ct, p->ctb);
    rbytes(&r, m, 32); I->pke_enc(ct, m, pk, c); MIX(ct, p->ctb); I->pke_dec(m, ct, sk); MIX(m, 32);
    I->pke_kp(pk, sk, c); MIX(pk, p->pkb); MIX(sk, 384 * (size_t)I->k);
  }
}
typedef void (*sha_f)(uint8_t *, const uint8_t *, size_t); typedef void (*xof_f)(uint8_t *, size_t, const uint8_t *, size_t);
typedef void (*x4_f)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
static void run_hash(sha_f a, sha_f b, xof_f x, xof_f y)
{
  rng r; rng_init(&r, a_seed, 502);
  for (int i = 0; i < 40; i++) {
    size_t n = rndn(&r, 1500), o = rndn(&r, 1500); rbytes(&r, in[0], n);
    a(buf[0], in[0], n); MIX(buf[0], 32); b(buf[0], in[0], n); MIX(buf[0], 64); x(buf[0], o, in[0], n); MIX(buf[0], o); y(buf[0], o, in[0], n); MIX(buf[0], o);
  }
}
static void run_x4(x4_f x, x4_f y)
{
  rng r; rng_init(&r, a_seed, 503);
  for (int i = 0; i < 40; i++) {
    size_t n = rndn(&r, 1500), o = rndn(&r, 1500); for (int l = 0; l < 4; l++) rbytes(&r, in[l], n);
    for (int q = 0; q < 2; q++) { (q ? x : y)(buf[0], buf[1], buf[2], buf[3], o, in[0], in[1], in[2], in[3], n); for (int l = 0; l < 4; l++) MIX(buf[l], o); }
  }
}
static struct { void *h; char path[512]; int global; } lib[64]; static int nlib;
#ifndef STATIC
static void *fn(const char *prefix, const char *name)
{
  char s[200]; snprintf(s, sizeof s, "%s%s", prefix, name);
  void *own = 0; int glob = 0;
  for (int i = 0; i < nlib; i++) if (lib[i].h) { void *p = dlsym(lib[i].h, s); if (p) { Dl_info di; if (dladdr(p, &di) && di.dli_fname && !strcmp(di.dli_fname, lib[i].path)) { own = p; glob = lib[i].global; } } }
  if (!own) own = dlsym(RTLD_DEFAULT, s);
  if (!own) { viol("missing-symbol", "%s is not provided by any loaded library", s); h_finish(1); exit(0); }
  if (glob && dlsym(RTLD_DEFAULT, s) != own) { char k[260]; snprintf(k, sizeof k, "shadowed:%s", s); viol(k, "%s of the process is not the library's own", s); }
  return own;
}
#endif
static void run_impl(const char *n)
{
  int K = 0; char v[16];
  D = 1; KEY("%s", n); CTX("%s", n);
#ifdef STATIC
  for (int i = 0; i < NIMPL; i++) if (!strcmp(n, IMPLS[i].name)) run_kem(&IMPLS[i]);
  for (int a = 0; a < 2; a++) { char t[40]; snprintf(t, sizeof t, "fips202_%s", a ? "avx2" : "ref"); if (!strcmp(n, t)) run_hash(SHA[2 * a].f, SHA[2 * a + 1].f, XOF[2 * a].all, XOF[2 * a + 1].all); }
  if (!strcmp(n, "fips202x4_avx2")) run_x4(XOF4[0].all, XOF4[1].all);
  (void)K; (void)v; (void)nlib; (void)lib;
#else
  char pre[80];
  if (sscanf(n, "kyber%d_%15s", &K, v) == 2) {
    impl I; memset(&I, 0, sizeof I); I.name = n; I.k = K / 256;
    snprintf(pre, sizeof pre, "pqcrystals_%s_", n);
    I.keypair_derand = fn(pre, "keypair_derand"); I.keypair = fn(pre, "keypair"); I.enc_derand = fn(pre, "enc_derand"); I.enc = fn(pre, "enc"); I.dec = fn(pre, "dec");
    I.pke_kp = fn(pre, "indcpa_keypair_derand"); I.pke_enc = fn(pre, "indcpa_enc"); I.pke_dec = fn(pre, "indcpa_dec");
    run_kem(&I);
  } else if (strstr(n, "x4")) { snprintf(pre, sizeof pre, "pqcrystals_kyber_%s_", n); run_x4(fn(pre, "shake128x4"), fn(pre, "shake256x4")); }
  else { snprintf(pre, sizeof pre, "pqcrystals_kyber_%s_", n); run_hash(fn(pre, "sha3_256"), fn(pre, "sha3_512"), fn(pre, "shake128"), fn(pre, "shake256")); }
#endif
  printf("RES\t%s\t%016llx\n", n, (unsigned long long)D);
  stat_add("library_runs", 1); distinct(D ^ hash64(h_ctx, strlen(h_ctx), (uint64_t)nlib));
}
int main(int ac, char **av)
{
  char *e = getenv("VP_SEED"); if (e) a_seed = strtoull(e, 0, 0);
  h_monitors();
  if (o_selftest()) return 3;
  for (int i = 1; i < ac; i++) {
    const char *a = av[i] + 1;
    switch (av[i][0]) {
      case 'L': case 'N': case 'P': {
        int gl = av[i][0] != 'P';
        CTX("dlopen %s", a); KEY("dlopen");
        lib[nlib].h = dlopen(a, (av[i][0] == 'N' ? RTLD_NOW : RTLD_LAZY) | (gl ? RTLD_GLOBAL : RTLD_LOCAL));
        snprintf(lib[nlib].path, sizeof lib[nlib].path, "%s", a); lib[nlib].global = gl;
        if (!lib[nlib].h) { viol("dlopen", "cannot load %s: %s", a, dlerror()); h_finish(1); return 0; }
        nlib++; stat_add("loads", 1); break; }
      case 'C': dlclose(lib[atoi(a)].h); lib[atoi(a)].h = 0; stat_add("unloads", 1); break;
      case 'R': run_impl(a); break;
      default: fprintf(stderr, "bad script\n"); return 3;
    }
  }
  h_finish(1);
  return 0;
}
