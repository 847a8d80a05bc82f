/* Scripted hash layer: implements the fips202.h (and, with -DX4, fips202x4.h) interface of the
 * directory it is compiled against.  SHA-3 is computed by the model; SHAKE streams are the model's
 * with o_hook applied, i.e. exactly the streams the model itself consumes.  A state holds its
 * whole history (absorbed input, squeeze offset), so copies of states behave as real ones. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "oracle.h"
#include "fips202.h"
#ifdef X4
#include "fips202x4.h"
#endif

typedef struct { uint32_t magic, len; uint64_t off; uint8_t *big; uint8_t in[128]; } mst;
#define MAGIC 0x6d6f636bu
extern uint64_t mock_calls;
extern int (*mock_scripted)(int kind, const uint8_t *in, size_t inlen);

static void m_init(mst *m) { memset(m, 0, sizeof *m); m->magic = MAGIC; }
static void m_absorb(mst *m, const uint8_t *in, size_t n)
{
  static uint8_t ring[256][8192]; static unsigned w;
  mock_calls++;
  if (m->magic != MAGIC) abort();          /* state used before it was initialised */
  if (m->len + n <= sizeof m->in) { memcpy(m->in + m->len, in, n); m->len += (uint32_t)n; return; }
  uint8_t *d = ring[w = (w + 1) % 256];
  if (m->len + n > 8192) abort();
  memcpy(d, m->len <= sizeof m->in && !m->big ? m->in : m->big, m->len);
  memcpy(d + m->len, in, n);
  m->big = d; m->len += (uint32_t)n;
}
static void m_squeeze(mst *m, int kind, uint8_t *out, size_t n)
{
  mock_calls++;
  if (m->magic != MAGIC) abort();
  const uint8_t *in = m->big ? m->big : m->in;
  int hooked = o_hook && ((kind == 0 && m->len == 34) || (kind == 1 && m->len == 33));
  if (!(hooked && mock_scripted && mock_scripted(kind, in, m->len))) {
    uint8_t *t = malloc(m->off + n + 1);
    o_sponge(kind ? 136 : 168, 0x1f, in, m->len, t, m->off + n);
    memcpy(out, t + m->off, n);
    free(t);
  }
  if (hooked) o_hook(kind, in, m->len, out, m->off, n);
  m->off += n;
}
#define DEF(INIT, ABS, FIN, SQ, ONCE, BLK, ALL, KIND, RATE) \
void INIT(keccak_state *s) { m_init((mst *)s); } \
void ABS(keccak_state *s, const uint8_t *in, size_t n) { m_absorb((mst *)s, in, n); } \
void FIN(keccak_state *s) { (void)s; } \
void SQ(uint8_t *o, size_t n, keccak_state *s) { m_squeeze((mst *)s, KIND, o, n); } \
void ONCE(keccak_state *s, const uint8_t *in, size_t n) { m_init((mst *)s); m_absorb((mst *)s, in, n); } \
void BLK(uint8_t *o, size_t n, keccak_state *s) { m_squeeze((mst *)s, KIND, o, n * RATE); } \
void ALL(uint8_t *o, size_t on, const uint8_t *in, size_t n) { mst m; m_init(&m); m_absorb(&m, in, n); m_squeeze(&m, KIND, o, on); }
DEF(shake128_init, shake128_absorb, shake128_finalize, shake128_squeeze, shake128_absorb_once, shake128_squeezeblocks, shake128, 0, 168)
DEF(shake256_init, shake256_absorb, shake256_finalize, shake256_squeeze, shake256_absorb_once, shake256_squeezeblocks, shake256, 1, 136)
void sha3_256(uint8_t *h, const uint8_t *in, size_t n) { o_sha3_256(h, in, n); }
void sha3_512(uint8_t *h, const uint8_t *in, size_t n) { uint8_t t[64]; o_sha3_512(t, in, n); memcpy(h, t, 64); }
_Static_assert(sizeof(mst) <= sizeof(keccak_state), "state too small for the scripted hash");

#ifdef X4
_Static_assert(4 * sizeof(mst) <= sizeof(keccakx4_state), "x4 state too small");
#define L(s, i) ((mst *)((uint8_t *)(s) + (sizeof(keccakx4_state) / 4 / 8 * 8) * (i)))
#define DEF4(ONCE, BLK, ALL, KIND, RATE) \
void ONCE(keccakx4_state *s, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n) \
{ const uint8_t *p[4] = {a, b, c, d}; for (int i = 0; i < 4; i++) { m_init(L(s, i)); m_absorb(L(s, i), p[i], n); } } \
void BLK(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t n, keccakx4_state *s) \
{ uint8_t *p[4] = {a, b, c, d}; for (int i = 0; i < 4; i++) m_squeeze(L(s, i), KIND, p[i], n * RATE); } \
void ALL(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t on, const uint8_t *e, const uint8_t *f, const uint8_t *g, const uint8_t *h, size_t n) \
{ uint8_t *o[4] = {a, b, c, d}; const uint8_t *p[4] = {e, f, g, h}; mst m[4]; \
  for (int i = 0; i < 4; i++) { m_init(&m[i]); m_absorb(&m[i], p[i], n); } for (int i = 0; i < 4; i++) m_squeeze(&m[i], KIND, o[i], on); }
DEF4(shake128x4_absorb_once, shake128x4_squeezeblocks, shake128x4, 0, 168)
DEF4(shake256x4_absorb_once, shake256x4_squeezeblocks, shake256x4, 1, 136)
#endif
