/* positive controls of the division monitor, compiled and instrumented like the code under test */
#include <stdint.h>
__attribute__((noinline)) uint32_t ctl_div(uint32_t a, uint32_t b) { return a / b; }
__attribute__((noinline)) int32_t ctl_idiv(int32_t a, int32_t b) { return a % b; }
__attribute__((noinline)) uint16_t ctl_div16(uint16_t a, uint16_t b) { return (uint16_t)(a / b); }
__attribute__((noinline)) uint64_t ctl_rem64(const uint64_t *a, uint64_t b) { return b / a[1] + a[0] % b; }
