#ifndef VERIF_SHIM_WINCRYPT
#define VERIF_SHIM_WINCRYPT
#include "Windows.h"
typedef std::uintptr_t HCRYPTPROV;
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000
#define CRYPT_SILENT 0x00000040
extern "C" BOOL CryptAcquireContextA(HCRYPTPROV*, LPCSTR, LPCSTR, DWORD, DWORD);
extern "C" BOOL CryptGenRandom(HCRYPTPROV, DWORD, BYTE*);
extern "C" BOOL CryptReleaseContext(HCRYPTPROV, DWORD);
#define CryptAcquireContext CryptAcquireContextA
#endif
