// Stand-in module of the differential check: exposes the container types built from /repo's sources and
// wraps (ld --wrap) the calls they make, to count them, to make the n-th fallible one fail and to see the GIL.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>

static long countdown = -1;     // calls until the injected failure, -1: off
static long calls = 0;          // fallible calls since arm()
static const char *fired = nullptr;
static int nogil = 0;
static const char *gilbad = nullptr;
static long blocks = 0;

static bool inject(const char *what) {
    ++calls;
    if (countdown < 0) return false;
    if (countdown-- == 0) {
        fired = what;
        return true;
    }
    return false;
}
static void gil(const char *what) { if (nogil) { gilbad = what; fprintf(stderr, "PFV-GIL: %s without the GIL\n", what); } }

// table of the blocks the containers own
static const size_t N = size_t(1) << 21;
static void *tab[N];
static size_t slot(void *p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 43; }
static void put(void *p) {
    for (size_t i = slot(p) & (N - 1), k = 0; k < 4096; ++k, i = (i + 1) & (N - 1))
        if (tab[i] == nullptr || tab[i] == (void *) 1) { tab[i] = p; ++blocks; return; }
}
static void drop(void *p) {
    for (size_t i = slot(p) & (N - 1), k = 0; k < 4096; ++k, i = (i + 1) & (N - 1)) {
        if (tab[i] == p) { tab[i] = (void *) 1; --blocks; return; }
        if (tab[i] == nullptr) return;
    }
}

extern "C" {
#define FAILN(name) if (inject(name)) { PyErr_SetString(PyExc_MemoryError, "injected: " name); return nullptr; }
#define W(ret, name, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params { gil(#name); FAILN(#name) return __real_##name args; }
#define WI(ret, name, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params { gil(#name); if (inject(#name)) { PyErr_SetString(PyExc_MemoryError, "injected: " #name); return -1; } \
        return __real_##name args; }
#define WG(ret, name, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params { gil(#name); return __real_##name args; }

W(PyObject *, PyLong_FromLong, (long v), (v))
W(PyObject *, PyLong_FromLongLong, (long long v), (v))
W(PyObject *, PyLong_FromSsize_t, (Py_ssize_t v), (v))
W(PyObject *, PyLong_FromSize_t, (size_t v), (v))
W(PyObject *, PyLong_FromUnsignedLongLong, (unsigned long long v), (v))
W(PyObject *, PyList_New, (Py_ssize_t n), (n))
W(PyObject *, PyTuple_New, (Py_ssize_t n), (n))
W(PyObject *, PyObject_CallObject, (PyObject *c, PyObject *a), (c, a))
W(PyObject *, _PyObject_New, (PyTypeObject *t), (t))
W(PyObject *, PySequence_Tuple, (PyObject *o), (o))
W(PyObject *, PySequence_List, (PyObject *o), (o))
W(PyObject *, PySequence_Fast, (PyObject *o, const char *m), (o, m))
W(PyObject *, PySequence_Concat, (PyObject *a, PyObject *b), (a, b))
W(PyObject *, PySequence_GetItem, (PyObject *a, Py_ssize_t i), (a, i))
W(PyObject *, PyObject_GetIter, (PyObject *o), (o))
W(PyObject *, PyObject_Repr, (PyObject *o), (o))
W(PyObject *, PyUnicode_FromString, (const char *s), (s))
WI(Py_ssize_t, PyObject_LengthHint, (PyObject *o, Py_ssize_t d), (o, d))
WI(Py_ssize_t, PySequence_Size, (PyObject *o), (o))
WI(int, PyObject_RichCompareBool, (PyObject *a, PyObject *b, int op), (a, b, op))
WG(void, PyErr_SetString, (PyObject *t, const char *m), (t, m))
WG(PyObject *, PyErr_NoMemory, (), ())
WG(PyObject *, PyErr_Occurred, (), ())
WG(void, PyErr_Clear, (), ())
WG(void, _Py_Dealloc, (PyObject *o), (o))
WG(PyObject *, PyIter_Next, (PyObject *o), (o))
WG(long, PyLong_AsLong, (PyObject *o), (o))
WG(long long, PyLong_AsLongLong, (PyObject *o), (o))
WG(Py_ssize_t, PyLong_AsSsize_t, (PyObject *o), (o))

void *__wrap_PyMem_Malloc(size_t n) {
    gil("PyMem_Malloc");
    if (inject("PyMem_Malloc") || n > PY_SSIZE_T_MAX) return nullptr;
    void *p = malloc(n ? n : 1);
    if (p) put(p);
    return p;
}
void *__wrap_PyMem_Realloc(void *q, size_t n) {
    gil("PyMem_Realloc");
    if (inject("PyMem_Realloc")) return nullptr;
    void *p = realloc(q, n ? n : 1);
    if (p) { if (q) drop(q); put(p); }
    return p;
}
void __wrap_PyMem_Free(void *p) { gil("PyMem_Free"); if (p) drop(p); free(p); }

PyThreadState *__real_PyEval_SaveThread();
void __real_PyEval_RestoreThread(PyThreadState *);
PyThreadState *__wrap_PyEval_SaveThread() {
    gil("PyEval_SaveThread");
    PyThreadState *s = __real_PyEval_SaveThread();
    nogil = 1;
    return s;
}
void __wrap_PyEval_RestoreThread(PyThreadState *s) {
    if (!nogil) { gilbad = "PyEval_RestoreThread"; fprintf(stderr, "PFV-GIL: re-acquired while held\n"); }
    nogil = 0;
    __real_PyEval_RestoreThread(s);
}

void *__real_aligned_alloc(size_t a, size_t n);
void *__wrap_aligned_alloc(size_t a, size_t n) {
    if (inject("aligned_alloc") || n > (size_t(1) << 28)) return nullptr;
    void *p = __real_aligned_alloc(a, (n + a - 1) / a * a);      // ASan insists on a multiple
    if (p) put(p);
    return p;
}
void __real_free(void *p);
void __wrap_free(void *p) { if (p) drop(p); __real_free(p); }

static void *obtain(size_t n) {
    if (inject("operator new") || n > (size_t(1) << 28)) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    put(p);
    return p;
}
void *__wrap__Znwm(size_t n) { return obtain(n); }
void *__wrap__Znam(size_t n) { return obtain(n); }
void __wrap__ZdlPv(void *p) { if (p) drop(p); __real_free(p); }
void __wrap__ZdlPvm(void *p, size_t) { if (p) drop(p); __real_free(p); }
void __wrap__ZdaPv(void *p) { if (p) drop(p); __real_free(p); }
}

static PyObject *arm(PyObject *, PyObject *a) {
    long n = PyLong_AsLong(a);
    if (n == -1 && PyErr_Occurred()) return nullptr;
    countdown = n; calls = 0; fired = nullptr; gilbad = nullptr;
    Py_RETURN_NONE;
}
// (call that was made to fail or None, number of fallible calls, GIL misuse or None)
static PyObject *disarm(PyObject *, PyObject *) {
    countdown = -1;
    PyObject *r = Py_BuildValue("(zlz)", fired, calls, gilbad);
    fired = nullptr; gilbad = nullptr; calls = 0;
    return r;
}
static PyObject *live(PyObject *, PyObject *) { return Py_BuildValue("l", blocks); }

static PyMethodDef methods[] = {{"arm", arm, METH_O, nullptr}, {"disarm", disarm, METH_NOARGS, nullptr},
                                {"live", live, METH_NOARGS, nullptr}, {nullptr, nullptr, 0, nullptr}};
static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "pfvdiff", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};

#define EACH(X) PFV_MODULES(X)
#define DECL(n) PyMODINIT_FUNC PyInit_##n();
EACH(DECL)

PyMODINIT_FUNC PyInit_pfvdiff() {
    PyObject *m = PyModule_Create(&def);
    if (!m) return nullptr;
#define ADD(n) { PyObject *s = PyInit_##n(); if (!s || PyModule_AddObject(m, #n, s) < 0) return nullptr; }
    EACH(ADD)
    return m;
}
