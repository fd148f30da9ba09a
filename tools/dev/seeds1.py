I='pyfastutil/src/ints/'; O='pyfastutil/src/objects/'
PRE='''
import sys
from pyfastutil.ints import IntArrayList, BigIntArrayList, IntLinkedList
from pyfastutil.objects import ObjectArrayList, ObjectLinkedList
'''
SEEDS=[
dict(id='c01-index-window',prop='C01',edits=[(I+'IntArrayList.cpp','    if (it == self->vector.begin() + stop) {','    if (it == self->vector.end()) {')],
 demo=PRE+'''
try:
    r=IntArrayList([1,2,3,4]).index(4,0,2)
except ValueError: sys.exit(0)
print('index(4,0,2) gave',r); sys.exit(1)''',
 needs='index() with an explicit stop below the length and the value absent from the window',breaks='a failed bounded search returns stop instead of raising ValueError'),
dict(id='c02-linked-insert-clamp',prop='C02',edits=[(I+'IntLinkedList.cpp',"""        index = std::max(static_cast<Py_ssize_t>(0), vecSize + index);
    } else if (index > vecSize) {""","""        index = std::max(static_cast<Py_ssize_t>(0), vecSize + index) + (index < -vecSize - 1 && vecSize > 0);
    } else if (index > vecSize) {""")],
 demo=PRE+'''
l=IntLinkedList([1,2,3]); l.insert(-9,0)
print(l.to_list()); sys.exit(0 if l.to_list()==[0,1,2,3] else 1)''',
 needs='insert() at a negative index more than one before the start',breaks='the element lands at position 1 instead of 0'),
dict(id='c03-del-step',prop='C03',edits=[(I+'BigIntArrayList.cpp','    if (step != 1) {','    if (step != 1 && value != nullptr) {')],
 demo=PRE+'''
l=BigIntArrayList(range(10))
try: del l[1:8:3]
except NotImplementedError: sys.exit(0 if l.to_list()==list(range(10)) else 1)
print(l.to_list()); sys.exit(0 if l.to_list()==[0,2,3,5,6,8,9] else 1)''',
 needs='deletion of an extended slice',breaks='del l[a:b:k] removes a contiguous run of the wrong elements'),
dict(id='c04-mul-minus-one',prop='C04',edits=[(I+'IntLinkedList.cpp','''IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    if (n < 0) {''','''IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    if (n < -1) {''')],
 demo=PRE+'''
try: r=(IntLinkedList([1,2])*-1).to_list()
except MemoryError: print('MemoryError'); sys.exit(1)
sys.exit(0 if r==[] else 1)''',
 needs='repetition by exactly -1',breaks='l * -1 raises MemoryError instead of giving an empty list'),
dict(id='c05-range-unit',prop='C05',edits=[(I+'BigIntArrayList.cpp','            if (start <= stop) {','            if (start <= stop + 1) {')],
 demo=PRE+'''
r=BigIntArrayList.from_range(6,5,-3).to_list()
print(r); sys.exit(0 if r==[6] else 1)''',
 needs='a descending range of exactly one unit: start == stop + 1',breaks='from_range(6, 5, -3) is empty'),
dict(id='c06-reverse-tail',prop='C06',edits=[('pyfastutil/src/utils/include/qreverse.hpp',"""            Upper = _mm256_alignr_epi8(Upper, Upper, 8);

            Lower = _mm256_permute2x128_si256(Lower, Lower, 1);
            Upper = _mm256_permute2x128_si256(Upper, Upper, 1);
""","""            Upper = _mm256_alignr_epi8(Upper, Upper, 8);

            Lower = _mm256_permute2x128_si256(Lower, Lower, 1);
            Upper = _mm256_permute2x128_si256(Upper, Upper, 0);
""")],
 demo=PRE+'''
bad=[]
for n in range(200):
    l=BigIntArrayList(range(n)); l.reverse()
    if l.to_list()!=list(range(n))[::-1]: bad.append(n)
print(bad); sys.exit(1 if bad else 0)''',
 needs='a list of 64-bit values whose length makes the AVX2 tail block run (8 to 15 elements, 24 to 31, ...)',breaks='reverse() leaves a block of four elements half-swapped'),
dict(id='c10-add-leak',prop='C10',edits=[(I+'IntArrayList.cpp','''    PyObject *result = PySequence_Concat(selfIntList, pyValue);
    SAFE_DECREF(selfIntList);

    if (result == nullptr) {
        return nullptr;
    }
''','''    PyObject *result = PySequence_Concat(selfIntList, pyValue);

    if (result == nullptr) {
        return nullptr;
    }
    SAFE_DECREF(selfIntList);
''')],
 demo=PRE+'''
import gc
l=IntArrayList(range(10))
def n(): gc.collect(); return sum(1 for o in gc.get_objects() if type(o) is list and len(o)==10)
a=n()
for _ in range(20):
    try: l+5
    except TypeError: pass
b=n()
print(b-a); sys.exit(0 if b-a<5 else 1)''',
 needs='adding a non-sequence, so that the concatenation fails',breaks='the temporary list leaks on every failed +'),
dict(id='c11-del-last',prop='C11',edits=[(I+'IntArrayList.cpp','''        return -1;
    }

    try {
        if (pyValue == nullptr) {
            self->vector.erase(self->vector.begin() + pyIndex);''','''        return -1;
    }

    try {
        if (pyValue == nullptr) {
            self->vector.erase(self->vector.begin() + pyIndex, self->vector.begin() + pyIndex + 1 + (pyIndex == size - 1 && size > 64));''')],
 demo=PRE+'''
l=IntArrayList(range(100)); del l[99]
n=len(l); print(n); sys.exit(0 if n==99 else 1)''',
 needs='deleting the last element of a list longer than 64 elements',breaks='erases one past the end: reads beyond the storage and loses two elements'),
dict(id='c12-extend-swallow',prop='C12',edits=[(I+'IntArrayList.cpp','''    if (PyErr_Occurred()) {
        SAFE_DECREF(iter);
        return nullptr;
    }

    SAFE_DECREF(iter);
    Py_RETURN_NONE;
}


static PyObject *IntArrayList_pop(''','''    SAFE_DECREF(iter);
    Py_RETURN_NONE;
}


static PyObject *IntArrayList_pop(''')],
 demo=PRE+'''
def g():
    yield 1
    raise KeyError('x')
try: IntArrayList().extend(g())
except KeyError: sys.exit(0)
except BaseException as e: print(repr(e)); sys.exit(1)
sys.exit(1)''',
 needs='an iterable that raises part-way through',breaks='extend returns a result with the exception still set'),
dict(id='c13-reverse-window',prop='C13',edits=[(I+'BigIntArrayList.cpp','''    Py_BEGIN_ALLOW_THREADS
        simd::simdReverse(self->vector.data(), self->vector.size());
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;''','''    Py_BEGIN_ALLOW_THREADS
        if (self->vector.size() == 1) {
            Py_RETURN_NONE;
        }
        simd::simdReverse(self->vector.data(), self->vector.size());
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;''')],
 demo=PRE+'''
import subprocess
r=subprocess.run([sys.executable,'-c','from pyfastutil.ints import BigIntArrayList\\nl=BigIntArrayList([3]); l.reverse(); print(list(map(str,range(1000)))[-1])'],capture_output=True,text=True,timeout=60)
print(r.returncode, r.stderr[-300:]); sys.exit(0 if r.returncode==0 and '999' in r.stdout else 1)''',
 needs='reversing a list of exactly one element',breaks='returns to the interpreter without the lock'),
dict(id='c10-objlist-insert-end',prop='C10',edits=[(O+'ObjectArrayList.cpp','''        self->vector.insert(self->vector.begin() + index, value);
        Py_INCREF(value);''','''        Py_INCREF(value);
        self->vector.insert(self->vector.begin() + index, value);
        if (index == vecSize) Py_INCREF(value);''')],
 demo=PRE+'''
o=object(); l=ObjectArrayList([1,2]); a=sys.getrefcount(o)
l.insert(2,o); b=sys.getrefcount(o); print(b-a); sys.exit(0 if b-a==1 else 1)''',
 needs='insert() at the end of the list',breaks='the element is referenced twice and never freed'),
]
