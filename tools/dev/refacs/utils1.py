R={'utils/PythonUtils.h':[
(None,('''    const Py_ssize_t argCount = PyTuple_GET_SIZE(args);

    if (argCount < 2) {
        start = 0;
        stop = arg1;
        step = 1;
    } else if (argCount < 3) {
        start = arg1;
        stop = arg2;
        step = 1;
    } else if (arg3 != 0) {
        start = arg1;
        stop = arg2;
        step = arg3;
    } else {
        PyErr_SetString(PyExc_ValueError, "Arg 3 must not be zero.");
        return false;
    }

    return true;
''','''    switch (PyTuple_GET_SIZE(args)) {
        case 1:
            start = 0;
            stop = arg1;
            step = 1;
            return true;
        case 2:
            start = arg1;
            stop = arg2;
            step = 1;
            return true;
        default:
            break;
    }
    if (arg3 == 0) {
        PyErr_SetString(PyExc_ValueError, "Arg 3 must not be zero.");
        return false;
    }
    start = arg1;
    stop = arg2;
    step = arg3;
    return true;
''')),
('PyFast_AsShort','''
static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
    const auto *value = (const PyLongObject *) obj;
    const Py_ssize_t sign = PyFast_SIGN(obj);
    if (sign == 0) return 0;
    const int magnitude = (int) PyLong_DIGITS(value)[0];
    return (short) (sign < 0 ? -magnitude : magnitude);
}
'''),
('PyFast_AsChar','''
static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
    const auto *value = (const PyLongObject *) obj;
    return (char) (PyFast_SIGN(obj) * (Py_ssize_t) PyLong_DIGITS(value)[0]);
}
'''),
(None,('''    if (UNLIKELY(object == nullptr))
        return;
    if (UNLIKELY(PyFast_IS_IMMORTAL(object)))
        return;
    if (--((PyObject *) object)->ob_refcnt == 0)
        _Py_Dealloc((PyObject *) object);
''','''    if (LIKELY(object != nullptr))
        PyFast_DECREF(object);
''')),
(None,('''    if (UNLIKELY(PyFast_IS_IMMORTAL(object)))
        return;
    if (--((PyObject *) object)->ob_refcnt == 0)
        _Py_Dealloc((PyObject *) object);
''','''    if (!PyFast_IS_IMMORTAL(object)) {
        auto *const o = (PyObject *) object;
        o->ob_refcnt -= 1;
        if (o->ob_refcnt == 0) _Py_Dealloc(o);
    }
''')),
],
'unsafe/SIMD.cpp':[
(None,('''template<typename T>
static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nargs) {
    // Ensure we have exactly 3 arguments
    if (nargs != 3) {
        PyErr_SetString(PyExc_TypeError,
                        "Function takes exactly 3 arguments (__addressFrom, __addressTo, __count)");
        return nullptr;
    }

    // Extract arguments
    auto *addressFrom = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[0]));
    auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
    size_t count = PyLong_AsSize_t(args[2]);

    // Check for conversion errors
    if (PyErr_Occurred()) {
        return nullptr;
    }

    // Perform the memory copy
    simd::simdMemCpy(addressFrom, addressTo, count);

    Py_RETURN_NONE;
}
''','''template<typename T>
struct CopyArgs {
    T *from;
    T *to;
    size_t count;
};

template<typename T>
static __forceinline bool parseCopyArgs(PyObject *const *args, Py_ssize_t nargs, CopyArgs<T> &out) {
    if (nargs == 3) {
        out.from = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[0]));
        out.to = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
        out.count = PyLong_AsSize_t(args[2]);
        return PyErr_Occurred() == nullptr;
    }
    PyErr_SetString(PyExc_TypeError,
                    "Function takes exactly 3 arguments (__addressFrom, __addressTo, __count)");
    return false;
}

template<typename T>
static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nargs) {
    CopyArgs<T> a{};
    if (!parseCopyArgs<T>(args, nargs, a)) return nullptr;
    simd::simdMemCpy(a.from, a.to, a.count);
    Py_RETURN_NONE;
}
''')),
(None,('''    // Extract arguments
    auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
    size_t count = PyLong_AsSize_t(args[1]);

    // Check for conversion errors
    if (PyErr_Occurred()) {
        return nullptr;
    }

    // Perform the memory copy
    simd::simdReverse(address, count);

    Py_RETURN_NONE;
''','''    const size_t count = PyLong_AsSize_t(args[1]);
    if (count == static_cast<size_t>(-1) && PyErr_Occurred()) {
        return nullptr;
    }
    T *const address = static_cast<T *>(PyLong_AsVoidPtr(args[0]));
    if (address == nullptr && PyErr_Occurred()) {
        return nullptr;
    }

    simd::simdReverse(address, count);

    return Py_NewRef(Py_None);
'''))]}
