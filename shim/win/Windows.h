// Stand-in for the parts of the Windows SDK the operating-system generators use; the device is scripted by the harness.
#ifndef VERIF_SHIM_WINDOWS
#define VERIF_SHIM_WINDOWS
#include <climits>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <stdexcept>
#include <string>
#undef ULONG_MAX
#define ULONG_MAX 0xFFFFFFFFU
#define MAXDWORD 0xFFFFFFFFU
typedef std::uint32_t ULONG, DWORD; typedef std::int32_t NTSTATUS, BOOL, LONG; typedef unsigned char UCHAR, BYTE, *PUCHAR, *PBYTE; typedef const char* LPCSTR; typedef void *PVOID, *HANDLE;
#define FALSE 0
#define TRUE 1
#endif
