S=open('/repo/pyfastutil/src/utils/simd/SIMDUtils.h').read()
def body(a):
    i=S.index('        constexpr size_t AVX512_ELEMENTS',S.index(a)); e=S.index('#endif',i)
    return S[i:e]
b1=body('static __forceinline void simdMemCpy(T')
b2=body('static __forceinline void simdMemCpyAligned(T')
def new(al):
    l='load' if al else 'loadu'; s='store' if al else 'storeu'
    return '''        auto *src = reinterpret_cast<unsigned char *>(from);
        auto *dst = reinterpret_cast<unsigned char *>(to);
        size_t left = count * sizeof(T);
        if (IS_AVX512_SUPPORTED) {
            while (left >= 64) {
                prefetchL1(src + 64);
                _mm512_%s_si512(dst, _mm512_%s_si512(src));
                src += 64; dst += 64; left -= 64;
            }
        }
        if (IS_AVX2_SUPPORTED) {
            while (left >= 32) {
                _mm256_%s_si256(reinterpret_cast<__m256i *>(dst), _mm256_%s_si256(reinterpret_cast<const __m256i *>(src)));
                src += 32; dst += 32; left -= 32;
            }
        }
        for (size_t i = 0; i < left; ++i) {
            dst[i] = src[i];
        }
'''%(s,l,s,l)
R={'utils/simd/SIMDUtils.h':[(None,(b1,new(False))),(None,(b2,new(True)))]}
