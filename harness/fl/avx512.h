/* the 512-bit code paths of flint-extras use no VNNI instruction but are enabled only where the compiler announces it */
#include <immintrin.h>
#ifndef __AVX512VNNI__
#define __AVX512VNNI__ 1
#endif
