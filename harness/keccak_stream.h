/* streaming use of the model's permutation for very long inputs and outputs */
static void ks_ring(size_t rate, uint8_t suf, const uint8_t *page, size_t pg, size_t n, uint8_t *out, size_t on)
{
  uint64_t s[25] = {0}; size_t pos = 0, left = n;
  uint8_t blk[168];
  while (left >= rate) {
    size_t o = pos % pg;
    if (o + rate <= pg) memcpy(blk, page + o, rate); else for (size_t i = 0; i < rate; i++) blk[i] = page[(pos + i) % pg];
    for (size_t i = 0; i < rate / 8; i++) { uint64_t x; memcpy(&x, blk + 8 * i, 8); s[i] ^= x; }
    o_keccakf(s); pos += rate; left -= rate;
  }
  memset(blk, 0, sizeof blk);
  for (size_t i = 0; i < left; i++) blk[i] = page[(pos + i) % pg];
  blk[left] ^= suf; blk[rate - 1] ^= 0x80;
  for (size_t i = 0; i < rate / 8; i++) { uint64_t x; memcpy(&x, blk + 8 * i, 8); s[i] ^= x; }
  o_keccakf(s);
  memcpy(out, s, on);   /* on <= rate */
}
/* final contents of a ring buffer of pg bytes that received n output bytes */
static void ks_tail(size_t rate, uint8_t suf, const uint8_t *in, size_t inlen, size_t n, uint8_t *page, size_t pg)
{
  uint64_t s[25] = {0}; uint8_t blk[168] = {0};
  memcpy(blk, in, inlen); blk[inlen] ^= suf; blk[rate - 1] ^= 0x80;   /* inlen < rate */
  for (size_t i = 0; i < rate / 8; i++) { uint64_t x; memcpy(&x, blk + 8 * i, 8); s[i] ^= x; }
  for (size_t pos = 0; pos < n; pos += rate) {
    o_keccakf(s);
    if (n - pos > 2 * pg) continue;
    const uint8_t *b = (const uint8_t *)s;
    for (size_t i = 0; i < rate && pos + i < n; i++) page[(pos + i) % pg] = b[i];
  }
}
