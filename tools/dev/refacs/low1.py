S='utils/simd/SIMDUtils.h'
def tail(fn):
    return ('''        while (copied < count) {
            to[copied] = from[copied];
            ++copied;
        }
''','''        for (size_t i = copied; i < count; i++) {
            *(to + i) = *(from + i);
        }
''')
R={S:[(None,tail(0)),
(None,('''            for (; count - copied >= AVX512_ELEMENTS; copied += AVX512_ELEMENTS) {
                if (count - copied > AVX512_PREFETCH) {
                    prefetchL1(from + copied + AVX512_PREFETCH);
                }

                __m512i vec = _mm512_loadu_si512(from + copied);
                _mm512_storeu_si512(to + copied, vec);
            }
''','''            size_t remaining = count - copied;
            do {
                if (remaining > AVX512_PREFETCH) {
                    prefetchL1(from + copied + AVX512_PREFETCH);
                }
                _mm512_storeu_si512(to + copied, _mm512_loadu_si512(from + copied));
                copied += AVX512_ELEMENTS;
                remaining -= AVX512_ELEMENTS;
            } while (remaining >= AVX512_ELEMENTS);
''')),
(None,('''            for (; count - copied >= AVX2_ELEMENTS; copied += AVX2_ELEMENTS) {
                if (count - copied > AVX2_PREFETCH) {
                    prefetchL1(from + copied + AVX2_PREFETCH);
                }

                __m256i vec = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(from + copied));
                _mm256_storeu_si256(reinterpret_cast<__m256i *>(to + copied), vec);
            }
''','''            const size_t end = copied + (count - copied) / AVX2_ELEMENTS * AVX2_ELEMENTS;
            while (copied != end) {
                if (count - copied > AVX2_PREFETCH) {
                    prefetchL1(from + copied + AVX2_PREFETCH);
                }
                const __m256i vec = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(from + copied));
                _mm256_storeu_si256(reinterpret_cast<__m256i *>(to + copied), vec);
                copied += AVX2_ELEMENTS;
            }
''')),
],
'unsafe/Unsafe.cpp':[
(None,('''static PyObject *Unsafe_malloc(''','''static bool toSize(PyObject *object, size_t &out) {
    out = PyLong_AsSize_t(object);
    return !(out == static_cast<size_t>(-1) && PyErr_Occurred());
}

static PyObject *oom(const char *what) {
    PyErr_SetString(PyExc_MemoryError, what);
    return nullptr;
}

static PyObject *Unsafe_malloc(''')),
('Unsafe_malloc','''
static PyObject *Unsafe_malloc([[maybe_unused]] PyObject *self, PyObject *pySize) {
    size_t size;
    if (!toSize(pySize, size)) return nullptr;
    if (void *ptr = malloc(size)) {
        return PyLong_FromVoidPtr(ptr);
    }
    return oom("Failed to alloc memory.");
}
'''),
('Unsafe_realloc','''
static PyObject *Unsafe_realloc([[maybe_unused]] PyObject *self, PyObject *args) {
    unsigned long long address, newSize;
    if (PyArg_ParseTuple(args, "KK", &address, &newSize) == 0) return nullptr;
    void *moved = realloc(reinterpret_cast<void *>(address), newSize);
    return moved != nullptr ? PyLong_FromSize_t(reinterpret_cast<uintptr_t>(moved)) : oom("Failed to realloc memory.");
}
'''),
('Unsafe_set','''
static PyObject *Unsafe_set([[maybe_unused]] PyObject *self, PyObject *args) {
    size_t address;
    PyObject *pyBytes;

    if (!PyArg_ParseTuple(args, "KO", &address, &pyBytes)) {
        return nullptr;
    }

    if (!PyBytes_Check(pyBytes)) {
        PyErr_SetString(PyExc_TypeError, "Expected a bytes object.");
        return nullptr;
    }
    memcpy(reinterpret_cast<void *>(address), PyBytes_AS_STRING(pyBytes), PyBytes_GET_SIZE(pyBytes));
    Py_RETURN_NONE;
}
'''),
('Unsafe_callInt','''
static PyObject *Unsafe_callInt([[maybe_unused]] PyObject *__restrict self,
                                PyObject *const *__restrict args, Py_ssize_t nargs) {
    if (nargs == 1) {
        void *func = PyLong_AsVoidPtr(args[0]);
        if (func != nullptr || !PyErr_Occurred()) {
            auto callee = reinterpret_cast<int (*)()>(func);
            const int value = callee();
            return PyLong_FromLong(value);
        }
        return nullptr;
    }
    PyErr_SetString(PyExc_TypeError,
                    "Function takes exactly 1 arguments (__func)");
    return nullptr;
}
'''),
('Unsafe_call','''
static PyObject *Unsafe_call([[maybe_unused]] PyObject *__restrict self,
                             PyObject *const *__restrict args, Py_ssize_t nargs) noexcept {
    if (nargs != 3) {
        PyErr_SetString(PyExc_TypeError,
                        "Function takes exactly 3 arguments (__func, __result, __size)");
        return nullptr;
    }

    auto func = reinterpret_cast<int64_t (*)()>(PyLong_AsVoidPtr(args[0]));
    if (PyErr_Occurred()) return nullptr;
    void *result = PyLong_AsVoidPtr(args[1]);
    if (PyErr_Occurred()) return nullptr;
    const size_t size = PyLong_AsSize_t(args[2]);
    if (PyErr_Occurred()) return nullptr;

    const int64_t buffer = func();
    const void *source = size <= sizeof(buffer) ? static_cast<const void *>(&buffer) : reinterpret_cast<const void *>(buffer);
    fast_memcpy(result, source, size);
    Py_RETURN_NONE;
}
'''),
('Unsafe_memset','''
static PyObject *Unsafe_memset([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
    if (nargs != 3) {
        PyErr_SetString(PyExc_TypeError, "memset() takes exactly 3 arguments (address, val, size)");
        return nullptr;
    }
    auto *address = static_cast<unsigned char *>(PyLong_AsVoidPtr(args[0]));
    const auto val = static_cast<unsigned char>(PyLong_AsLong(args[1]));
    const size_t size = PyLong_AsSize_t(args[2]);
    if (PyErr_Occurred()) {
        return nullptr;
    }
    for (size_t i = 0; i < size; ++i) {
        address[i] = val;
    }
    Py_RETURN_NONE;
}
'''),
('Unsafe_as_object','''
static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
    auto *object = static_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
    if (object != nullptr) {
        return Py_NewRef(object);
    }
    if (PyErr_Occurred() == nullptr) {
        PyErr_SetString(PyExc_ValueError, "Address is null.");
    }
    return nullptr;
}
'''),
],
'utils/memory/FastMemcpy.h':[(None,('''    switch (size) {
        case 0:
            return;
''','''    if (size == 0) return;
    switch (size) {
''')),
(None,('''            if ((uintptr_t) src % 64 == 0 && (uintptr_t) dst % 64 == 0) {
''','''            if (((reinterpret_cast<uintptr_t>(src) | reinterpret_cast<uintptr_t>(dst)) & 63) == 0) {
'''))],
}
