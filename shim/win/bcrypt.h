#ifndef VERIF_SHIM_BCRYPT
#define VERIF_SHIM_BCRYPT
#include "Windows.h"
typedef PVOID BCRYPT_ALG_HANDLE;
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 0x00000002
#define BCRYPT_SUCCESS(s) ((NTSTATUS)(s) >= 0)
extern "C" NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE, PUCHAR, ULONG, ULONG);
#endif
