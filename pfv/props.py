"""Which obligations decide which property.

groups: operation groups (spec.py) whose obligations of every kind count; kinds: obligation kinds counted on every
operation of every container class; extra: further verification units; diff: operations of the bounded stand-ins."""

CONT = ('IntArrayList', 'BigIntArrayList', 'IntLinkedList', 'ObjectArrayList', 'ObjectLinkedList')

PROPS = {
    'C01': dict(groups=('query',)),
    'C02': dict(groups=('mutate',)),
    'C03': dict(groups=('slice',)),
    'C04': dict(groups=('bulk',)),
    'C05': dict(groups=('build',)),
    'C06': dict(groups=('reverse', 'sort')),
    'C07': dict(groups=('compare',)),
    'C08': dict(groups=('iter',), kinds=('modcount',)),
    'C10': dict(kinds=('refcount', 'leak')),
    'C11': dict(kinds=('memory',)),
    'C12': dict(kinds=('errproto', 'exception')),
    'C13': dict(kinds=('gil',)),
    'C14': dict(groups=('unsafe',)),
    'C15': dict(groups=('simdmod',)),
    'C16': dict(groups=('text', 'buffer')),
    'C17': dict(groups=('lowavx',)),
    'C18': dict(groups=('lowobj',)),
}
CLASSES_ON = CONT

COMMON = [
    'the CPython C API behaves as its documentation says (contracts in capi.py, raw.py; the functions a run relied on are listed under trusted_base)',
    'libstdc++ containers and algorithms behave as the C++ standard says (contracts in stl.py, strs.py)',
    'clang-18 -O0 LLVM IR of the real sources stands for what g++ -O3 makes of them (no undefined behaviour beyond the memory obligations; signed overflow wraps)',
    'the VC generator (pfv/) and z3 are sound; integers are mathematical with explicit two\'s complement wrapping, floating point is uninterpreted',
    'an object has at most 2^46 bytes of storage and undergoes fewer than 2^62 structural changes',
]
CONTAINER = [
    'no Python code run by an operation (__eq__, __lt__, __repr__, key functions, iterators) re-enters the container it works on',
    'receivers were initialised once by __init__; elements stored in Int* lists are in the documented range',
    '== and != of an element are complementary',
]
LOWLEVEL = ['addresses given by the caller denote live memory of sufficient size and alignment; blocks of a copy do not overlap',
            'code behind a function pointer is unknown: it returns an arbitrary value and is observed only as an event']


def assumptions(p):
    if p in ('C14', 'C15', 'C17', 'C18'):
        r = COMMON + LOWLEVEL
        if p == 'C15':
            r = r + ['the CPUID code in SIMDHelper.cpp reports the CPU features truthfully']
        if p == 'C17':
            r = r + ['the inline functions of <immintrin.h> and the compiler builtins are the vendor\'s: uninterpreted, the same in the method and in its reference',
                     'operands are of the documented kind (conversions are unchecked by design)']
        return r
    r = COMMON + CONTAINER
    if p in ('C06', 'C10', 'C11', 'C12', 'C13'):
        r = r + ['the vendored sort bodies (CPythonSort.c, TimSort.h, std::sort) are assumed contracts, explored by the bounded differential run']
    return r


def level(p):
    return PROPS[p].get('level', 'proof')
