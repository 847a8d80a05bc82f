#ifndef FAKE_WINCRYPT_H
#define FAKE_WINCRYPT_H
#include "windows.h"
typedef uintptr_t HCRYPTPROV;
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40
BOOL CryptAcquireContextA(HCRYPTPROV *, const char *, const char *, DWORD, DWORD);
BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE *);
BOOL CryptReleaseContext(HCRYPTPROV, DWORD);
#define CryptAcquireContext CryptAcquireContextA
#endif
