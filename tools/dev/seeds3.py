L='pyfastutil/src/unsafe/'
A=L+'SIMDLowAVX512.cpp'
V='*((%s *) PyLong_AsVoidPtr(*args))'
def rd(t,k): return '%s arg%d = (%s) *((%s*) PyLong_AsVoidPtr(*(((PyObject **) args) + %d)));'%(t,k,t,t,k)
PRE='''
import sys, ctypes
from pyfastutil.unsafe import SIMDLowAVX512, SIMD, Unsafe, ASM
keep=[]
def mem(data, n=64):
    """address of 64-byte aligned memory holding the bytes"""
    b=ctypes.create_string_buffer(n+64); keep.append(b)
    p=(ctypes.addressof(b)+63)//64*64
    ctypes.memmove(p, data, len(data)); return p
def get(p,n): return ctypes.string_at(p,n)
'''
SEEDS=[
dict(id='c17-mask-half',prop='C17',edits=[(A,'    '+rd('__mmask16',2)+'\n    '+rd('__m512i',3)+'\n    '+rd('__m512i',4)+'\n\n    '+V%'__m512i'+' = _mm512_mask_sub_epi32(',
   '    '+rd('__mmask8',2)+'\n    '+rd('__m512i',3)+'\n    '+rd('__m512i',4)+'\n\n    '+V%'__m512i'+' = _mm512_mask_sub_epi32(')],
 demo=PRE+'''
import struct
s=SIMDLowAVX512()
a=list(range(16)); x=[100]*16; src=[7]*16; k=0xF00F
P=lambda v: mem(struct.pack('<16i',*v))
r=mem(b'\\0'*64); s.mm512_mask_sub_epi32(r, P(src), mem(k.to_bytes(2,'little')), P(a), P(x))
got=list(struct.unpack('<16i',get(r,64))); print(got)
sys.exit(0 if got==[a[i]-100 if k>>i&1 else 7 for i in range(16)] else 1)''',needs='a mask with bits above bit 7',breaks='the upper eight lanes ignore the mask'),
dict(id='c17-signed-min',prop='C17',edits=[(A,V%'unsigned long long'+' = _mm512_mask_reduce_min_epu64(',V%'unsigned long long'+' = (unsigned long long) _mm512_mask_reduce_min_epi64(')],
 demo=PRE+'''
import struct
s=SIMDLowAVX512()
v=[5,2**63+1,9,4,2**64-1,6,7,8]; r=mem(b'\\0'*8)
s.mm512_mask_reduce_min_epu64(r, mem(bytes([0b10110])), mem(struct.pack('<8Q',*v)))
got=struct.unpack('<Q',get(r,8))[0]; print(got)
sys.exit(0 if got==9 else 1)''',needs='a selected lane of 2^63 or more (other than all lanes)',breaks='the minimum is taken as if the lanes were signed'),
dict(id='c17-store-first',prop='C17',edits=[(A,'    '+rd('__m512i',3)+'\n\n    '+V%'__m512i'+' = _mm512_mask_mov_epi64((__m512i) arg1,','    *((__m512i *) PyLong_AsVoidPtr(*args)) = arg1;\n    '+rd('__m512i',3).replace('arg3 = (__m512i)','arg3 =')+'\n\n    '+V%'__m512i'+' = _mm512_mask_mov_epi64((__m512i) arg1,')],
 demo=PRE+'''
import struct
s=SIMDLowAVX512()
a=struct.pack('<8Q',*range(8)); b=struct.pack('<8Q',*range(100,108))
r=mem(b); s.mm512_mask_mov_epi64(r, mem(a), mem(bytes([0b1010])), r)
got=list(struct.unpack('<8Q',get(r,64))); print(got)
sys.exit(0 if got==[0,101,2,103,4,5,6,7] else 1)''',needs='the result address is also the address of the last operand',breaks='the old value of the destination is used instead of the operand'),
dict(id='c17-int-arg',prop='C17',edits=[(A,'    long long arg3 = (long long) PyLong_AsLongLong(*(((PyObject **) args) + 3));\n\n    '+V%'__m512i'+' = _mm512_mask_set1_epi64(','    long long arg3 = (long long) PyFast_AsInt(*(((PyObject **) args) + 3));\n\n    '+V%'__m512i'+' = _mm512_mask_set1_epi64(')],
 demo=PRE+'''
import struct
s=SIMDLowAVX512(); ok=True
for v in (5,-7,2**40+3,-2**62):
    r=mem(b'\\0'*64)
    try: s.mm512_mask_set1_epi64(r, mem(b'\\1'*64), mem(bytes([0x81])), v)
    except Exception as e: print(v,e); ok=False; continue
    q=struct.unpack('<8q',get(r,64)); ok=ok and q[0]==v and q[7]==v
sys.exit(0 if ok else 1)''',needs='a value outside the 32-bit range',breaks='the value is truncated or rejected'),
dict(id='c17-saturate',prop='C17',edits=[(A,V%'__m256i'+' = _mm512_maskz_cvtusepi32_epi16(',V%'__m256i'+' = _mm512_maskz_cvtsepi32_epi16(')],
 demo=PRE+'''
import struct
s=SIMDLowAVX512()
v=[1,2,40000,70000]+[0]*12; r=mem(b'\\0'*64)
s.mm512_maskz_cvtusepi32_epi16(r, mem((0xffff).to_bytes(2,'little')), mem(struct.pack('<16I',*v)))
got=struct.unpack('<4H',get(r,8)); print(got)
sys.exit(0 if got==(1,2,40000,65535) else 1)''',needs='a lane above 32767',breaks='the conversion saturates as if the lanes were signed'),
dict(id='c18-exit-stop',prop='C18',edits=[(L+'SIMD.cpp','''                           [[maybe_unused]] PyObject *const *args, [[maybe_unused]] Py_ssize_t nargs) {
    Py_RETURN_NONE;
''','''                           [[maybe_unused]] PyObject *const *args, [[maybe_unused]] Py_ssize_t nargs) {
    Py_RETURN_BOOL(nargs == 3 && args[0] == PyExc_StopIteration && args[2] != Py_None);
''')],
 demo=PRE+'''
try:
    with SIMD(): raise StopIteration
except StopIteration: sys.exit(0)
sys.exit(1)''',needs='StopIteration leaving the with block of SIMD',breaks='the exception disappears'),
dict(id='c18-asm-free',prop='C18',edits=[(L+'ASM.cpp','''                              PyObject *const *__restrict args, [[maybe_unused]] Py_ssize_t nargs) noexcept {
#ifdef WINDOWS
    void *__restrict target = PyLong_AsVoidPtr(*args);
    const std::pair''','''                              PyObject *const *__restrict args, [[maybe_unused]] Py_ssize_t nargs) noexcept {
    void *__restrict target = PyLong_AsVoidPtr(*args);
    if (target == nullptr) return nullptr;
#ifdef WINDOWS
    const std::pair''')],
 demo=PRE+'''
def cls(f,*a):
    try: f(*a)
    except BaseException as e: return type(e)
a=ASM()
r=[cls(a.freeFunctionFast,x) for x in (1,0,-1,'x',None)]; print(r)
sys.exit(0 if r==[NotImplementedError]*5 else 1)''',needs='freeFunctionFast with an address of 0 or an argument that is no address',breaks='SystemError or TypeError instead of NotImplementedError'),
]
