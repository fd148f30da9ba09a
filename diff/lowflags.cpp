// Stand-in for SIMDHelper.cpp in the native probes: the CPU features, lowered on request so that every code path runs.
#include <cstdlib>
namespace simd {
    static int level() {
        const char *s = getenv("PFV_SIMD");
        return s ? atoi(s) : 3;
    }
    extern const bool IS_AVX2_SUPPORTED = __builtin_cpu_supports("avx2") && level() >= 2;
    extern const bool IS_AVX512_SUPPORTED = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") &&
                                            __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512dq") && level() >= 3;
    extern const bool IS_SSE41_SUPPORTED = __builtin_cpu_supports("sse4.1") && level() >= 1;
    extern const bool IS_SSSE3_SUPPORTED = __builtin_cpu_supports("ssse3") && level() >= 1;
    extern const bool IS_ARM_NEON_SUPPORTED = false;
}
