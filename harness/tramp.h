#ifndef TRAMP_H
#define TRAMP_H
typedef struct {
  void *fn; uint64_t args[10], saved_in[6], rax, r10, r11; uint32_t mxcsr; uint16_t fcw, pad; uint8_t *ymm;
  uint64_t saved_out[6], rax_out, rflags; int64_t rspdelta; uint32_t mxcsr_out; uint16_t fcw_out, ftag;
} tr;
uint64_t tramp(tr *);
_Static_assert(offsetof(tr, ymm) == 168 && offsetof(tr, saved_out) == 176 && offsetof(tr, mxcsr_out) == 248, "layout");
#endif
