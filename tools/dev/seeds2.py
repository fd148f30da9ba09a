I='pyfastutil/src/ints/'; O='pyfastutil/src/objects/'; U='pyfastutil/src/utils/'; L='pyfastutil/src/unsafe/'
PRE='''
import sys, ctypes
from pyfastutil.ints import IntArrayList, BigIntArrayList, IntLinkedList
from pyfastutil.objects import ObjectArrayList, ObjectLinkedList
from pyfastutil.unsafe import Unsafe, SIMD
'''
SEEDS=[
dict(id='c07-lt-subtract',prop='C07',edits=[(I+'IntLinkedList.cpp','Py_RETURN_BOOL(self_value < other_value)','Py_RETURN_BOOL(static_cast<int>(static_cast<unsigned>(self_value) - static_cast<unsigned>(other_value)) < 0)')],
 demo=PRE+'''
a=IntLinkedList([-2**31,5]); sys.exit(0 if a<[1,5] and not IntLinkedList([2**31-1])<[-2] else 1)''',
 needs='an ordering between elements more than 2^31 - 1 apart',breaks='l < x is wrong when the difference of the deciding elements overflows'),
dict(id='c08-insert-silent',prop='C08',edits=[(O+'ObjectLinkedList.cpp','''        self->list.insert(at(self->list, index), value);
        Py_INCREF(value);
        self->modCount++;
''','''        self->list.insert(at(self->list, index), value);
        Py_INCREF(value);
''')],
 demo=PRE+'''
l=ObjectLinkedList([0,1,2,3]); it=iter(l); a=[next(it),next(it)]
l.insert(0,9)
r=list(it); print(r); sys.exit(0 if r==[1,2,3] else 1)''',needs='an insertion in front of a live forward iterator',breaks='the iterator keeps its node instead of following the index'),
dict(id='c16-readonly-buffer',prop='C16',edits=[(I+'BigIntArrayList.cpp','    view->readonly = 0;','    view->readonly = self->vector.size() == self->vector.capacity();')],
 demo=PRE+'''
bad=[]
for n in range(1,40):
    l=BigIntArrayList(list(range(n)))
    try: memoryview(l)[0]=5
    except TypeError: bad.append(n); continue
    if l[0]!=5: bad.append(n)
print(bad); sys.exit(1 if bad else 0)''',
 needs='writing through the buffer of a list that is filled to its capacity',breaks='the buffer of some lists is read-only'),
dict(id='c14-call-eight',prop='C14',edits=[(L+'Unsafe.cpp','    if (size > sizeof(buffer)) {','    if (size >= sizeof(buffer)) {')],
 demo=PRE+'''
src=(ctypes.c_longlong*1)(77)
F=ctypes.CFUNCTYPE(ctypes.c_longlong)
f=F(lambda: ctypes.addressof(src))
out=(ctypes.c_longlong*1)(0)
with Unsafe() as u: u.call(ctypes.cast(f,ctypes.c_void_p).value, ctypes.addressof(out), 8)
print(out[0]); sys.exit(0 if out[0]==ctypes.addressof(src) else 1)''',
 needs='Unsafe.call with a result of exactly eight bytes',breaks='the result is taken as a pointer and the memory behind it is copied'),
dict(id='c14-copy-twentythree',prop='C14',edits=[(U+'memory/FastMemcpy.h','memcpy(dst, src, 23);','memcpy(dst, src, 22);')],
 demo=PRE+'''
src=(ctypes.c_char*64)(); src.raw=bytes(range(1,65))
f=ctypes.CFUNCTYPE(ctypes.c_longlong)(lambda: ctypes.addressof(src))
bad=[]
with Unsafe() as u:
    for n in range(9,65):
        out=(ctypes.c_char*64)(); u.call(ctypes.cast(f,ctypes.c_void_p).value, ctypes.addressof(out), n)
        if out.raw!=bytes(range(1,n+1))+bytes(64-n): bad.append(n)
print(bad); sys.exit(1 if bad else 0)''',
 needs='Unsafe.call with a structure result of exactly 23 bytes',breaks='the last byte of the result is not copied'),
dict(id='c15-reverse-pairs',prop='C15',edits=[(U+'include/qreverse.hpp','''        std::uint16_t Lower = Swap16(
                *reinterpret_cast<std::uint16_t *>(&Array8[i])
        );''','''        std::uint16_t Lower = (
                *reinterpret_cast<std::uint16_t *>(&Array8[i])
        );''')],
 demo=PRE+'''
s=SIMD(); bad=[]
for n in range(1,80):
    b=ctypes.create_string_buffer(bytes(range(1,n+1)),n)
    s.reverseChar(ctypes.addressof(b),n)
    if b.raw!=bytes(range(1,n+1))[::-1]: bad.append(n)
print(bad); sys.exit(1 if bad else 0)''',
 needs='reversing a byte array whose half length leaves a remainder of two or three after the wider steps',breaks='two bytes stay in their old order'),
dict(id='c15-aligned-tail',prop='C15',edits=[(U+'simd/SIMDUtils.h','''        while (copied < count) {
            to[copied] = from[copied];
            ++copied;
        }''','''        while (copied < (count & ~static_cast<size_t>(sizeof(T) == 2))) {
            to[copied] = from[copied];
            ++copied;
        }''',1)],
 demo=PRE+'''
s=SIMD(); bad=[]
B=ctypes.create_string_buffer(4096); base=(ctypes.addressof(B)+63)//64*64
for n in range(0,80):
    ctypes.memset(base,0,2048)
    for i in range(n): ctypes.c_short.from_address(base+2*i).value=i+1
    s.memcpyShortAligned(base,base+1024,n)
    if ctypes.string_at(base,2*n)!=ctypes.string_at(base+1024,2*n): bad.append(n)
print(bad); sys.exit(1 if bad else 0)''',
 needs='an aligned copy of an odd number, at least nine, of 16-bit elements',breaks='the last element is not copied'),
]
