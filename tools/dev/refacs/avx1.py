
import re
F='unsafe/SIMDLowAVX512.cpp'
HELP = """
template<typename T>
static __forceinline T &refArg(PyObject *object) noexcept {
    return *static_cast<T *>(PyLong_AsVoidPtr(object));
}

static __forceinline bool checkArgs(Py_ssize_t nargs, Py_ssize_t expected, const char *message) noexcept {
    if (nargs == expected) return true;
    PyErr_SetString(PyExc_TypeError, message);
    return false;
}

"""
def tr(s):
    n = [0]
    def one(m):
        n[0] += 1
        t = m.group(0)
        k = n[0] % 5
        if k == 1:
            t = re.sub(r'\*\(\(\(PyObject \*\*\) args\) \+ (\d+)\)', r'args[\1]', t)
            t = t.replace('PyLong_AsVoidPtr(*args)', 'PyLong_AsVoidPtr(args[0])')
        elif k == 2:
            t = re.sub(r'\*\(\(([\w ]+?) ?\*\) PyLong_AsVoidPtr\(\*\(\(\(PyObject \*\*\) args\) \+ (\d+)\)\)\)', r'refArg<\1>(args[\2])', t)
            t = re.sub(r'\*\(\(([\w ]+?) ?\*\) PyLong_AsVoidPtr\(\*args\)\) = ', r'refArg<\1>(args[0]) = ', t)
        elif k == 3:
            t = re.sub(r'\*\(\(([\w ]+?) ?\*\) PyLong_AsVoidPtr\(\*args\)\) = (.*);', r'const \1 result = \2;\n    auto *const out = static_cast<\1 *>(PyLong_AsVoidPtr(args[0]));\n    *out = result;', t)
        elif k == 4:
            m2 = re.search(r'    if \(nargs != (\d+)\) \{\n        PyErr_SetString\(PyExc_TypeError, ("[^"]*")\);\n        return nullptr;\n    \}\n', t)
            if m2:
                t = t.replace(m2.group(0), '    if (!checkArgs(nargs, %s, %s)) return nullptr;\n' % m2.groups())
            # operands from the last to the first
            ls = re.findall(r'    [\w ]+\**arg\d+ = .*;\n', t)
            if len(ls) > 1 and ''.join(ls) in t:
                t = t.replace(''.join(ls), ''.join(reversed(ls)))
        else:
            t = re.sub(r'\*\(\(([\w ]+?) ?\*\) PyLong_AsVoidPtr\(\*args\)\) = (.*);', r'\1 *const out = reinterpret_cast<\1 *>(PyLong_AsSize_t(args[0]));\n    *out = \2;', t)
            t = t.replace('    Py_RETURN_NONE;', '    Py_INCREF(Py_None);\n    return Py_None;')
        return t
    s = re.sub(r'^static __forceinline PyObject \*SIMDLowAVX512_\w+_impl\(.*?^\}\n', one, s, flags=re.M | re.S)
    return s.replace('#include "utils/PythonUtils.h"\n', '#include "utils/PythonUtils.h"\n' + HELP, 1)
R={F:[(tr,None)]}
