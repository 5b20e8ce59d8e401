// Stand-in for the hardware random number intrinsics: every other intrinsic is the real one.
#ifndef VERIF_SHIM_IMMINTRIN
#define VERIF_SHIM_IMMINTRIN
#define _rdrand32_step verif_orig_rdrand32
#define _rdrand64_step verif_orig_rdrand64
#define _rdrand16_step verif_orig_rdrand16
#define _rdseed32_step verif_orig_rdseed32
#define _rdseed64_step verif_orig_rdseed64
#define _rdseed16_step verif_orig_rdseed16
#include_next <immintrin.h>
#undef _rdrand16_step
#undef _rdrand32_step
#undef _rdrand64_step
#undef _rdseed16_step
#undef _rdseed32_step
#undef _rdseed64_step
extern "C" int verif_hw(int which, int bytes, void* out);
static inline int _rdrand16_step(unsigned short* p) { return verif_hw(0, 2, p); }
static inline int _rdrand32_step(unsigned int* p) { return verif_hw(0, 4, p); }
static inline int _rdrand64_step(unsigned long long* p) { return verif_hw(0, 8, p); }
static inline int _rdseed16_step(unsigned short* p) { return verif_hw(1, 2, p); }
static inline int _rdseed32_step(unsigned int* p) { return verif_hw(1, 4, p); }
static inline int _rdseed64_step(unsigned long long* p) { return verif_hw(1, 8, p); }
#endif
