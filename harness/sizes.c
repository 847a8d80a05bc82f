#include <stdio.h>
#include "api.h"
#include "kem.h"
#define C4(a,b,c,d) a##b##c##d
#define X(k,d,s) C4(pqcrystals_kyber,k,_##d,s)
#define Y(k,d,s) X(k,d,s)
#if KYBER_K == 2
#define KK 512
#elif KYBER_K == 3
#define KK 768
#else
#define KK 1024
#endif
int main(void)
{
  printf("%d %d %d %d %d %d %d %d %d %d %s\n", Y(KK,DIR,_PUBLICKEYBYTES), Y(KK,DIR,_SECRETKEYBYTES), Y(KK,DIR,_CIPHERTEXTBYTES),
    Y(KK,DIR,_KEYPAIRCOINBYTES), Y(KK,DIR,_ENCCOINBYTES), Y(KK,DIR,_BYTES),
    CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME);
  return 0;
}
