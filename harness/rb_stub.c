/* randombytes for harnesses in which the code under test must not draw entropy */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
void randombytes(uint8_t *out, size_t n)
{
  static const char m[] = "VIOL\tentropy-drawn\tdeterministic operation drew random bytes\n";
  (void)out; (void)n;
  if (write(1, m, sizeof m - 1) < 0) _exit(9);
  _exit(0);
}
