s=open('/repo/pyfastutil/src/utils/memory/FastMemcpy.h').read()
i=s.index('    switch (size) {'); e=s.index('        default:\n'); d=s[e+len('        default:\n'):s.index('            break;\n    }\n}',e)]
S=open('/repo/pyfastutil/src/utils/simd/SIMDUtils.h').read()
R={'utils/memory/FastMemcpy.h':[(None,(s[i:s.index('\n}\n\n#endif')+1],'''    if (size <= 32) {
        memcpy(dst, src, size);
        return;
    }
'''+d))],
'utils/simd/SIMDUtils.h':[(None,('''count < 8) {
            memcpy(to, from, count * sizeof(T));
        }
''','''count < 8) {
            memcpy(to, from, count * sizeof(T));
            return;
        }
''')),(None,('''        while (copied < count) {
            to[copied] = from[copied];
            ++copied;
        }
''','''        if (copied < count) {
            memcpy(to + copied, from + copied, (count - copied) * sizeof(T));
        }
'''))],
}
