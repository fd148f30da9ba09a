F='ints/BigIntArrayList.cpp'
N='BigIntArrayList_'
R={F:[
(N+'init','''
static bool appendNumber(std::vector<long long, AlignedAllocator<long long, 64>> &vector, PyObject *item) {
    const long long value = PyLong_AsLongLong(item);
    if (value == -1 && PyErr_Occurred()) {
        PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
        return false;
    }
    vector.push_back(value);
    return true;
}

static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
    new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();

    PyObject *pyIterable = nullptr;
    Py_ssize_t pySize = -1;

    parseArgs(args, kwargs, pyIterable, pySize);
    if (PyErr_Occurred()) {
        return -1;
    }

    PyObject *owned = nullptr;
    int status = 0;
    try {
        if (pySize > 0) {
            self->vector.reserve(static_cast<size_t>(pySize));
        }
        if (pyIterable == nullptr) {
            return 0;
        }
        if (Py_TYPE(pyIterable) == &BigIntArrayListType) {
            const auto &other = reinterpret_cast<BigIntArrayList *>(pyIterable)->vector;
            self->vector.assign(other.begin(), other.end());
            return 0;
        }
        if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {
            owned = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
            if (owned == nullptr) {
                return -1;
            }
            PyObject **cur = PySequence_Fast_ITEMS(owned);
            PyObject **const end = cur + PySequence_Fast_GET_SIZE(owned);
            for (; cur != end && status == 0; ++cur) {
                if (!appendNumber(self->vector, *cur)) status = -1;
            }
            Py_DECREF(owned);
            return status;
        }

        owned = PyObject_GetIter(pyIterable);
        if (owned == nullptr) {
            PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
            return -1;
        }
        for (PyObject *item = PyIter_Next(owned); item != nullptr; item = PyIter_Next(owned)) {
            const long long value = PyLong_AsLongLong(item);
            Py_DECREF(item);
            if (PyErr_Occurred()) {
                Py_DECREF(owned);
                PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                return -1;
            }
            self->vector.emplace_back(value);
        }
        Py_DECREF(owned);
        return PyErr_Occurred() ? -1 : 0;
    } catch (const std::exception &e) {
        Py_XDECREF(owned);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
}
'''),
(N+'resize','''
static PyObject *BigIntArrayList_resize(PyObject *pySelf, PyObject *pySize) {
    if (PyLong_Check(pySize)) {
        const Py_ssize_t n = PyLong_AsSsize_t(pySize);
        if (n >= 0) {
            auto &vector = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;
            const auto want = static_cast<size_t>(n);
            try {
                if (want < vector.size()) {
                    vector.erase(vector.begin() + n, vector.end());
                } else {
                    vector.insert(vector.end(), want - vector.size(), 0LL);
                }
            } catch (const std::exception &e) {
                PyErr_SetString(PyExc_RuntimeError, e.what());
                return nullptr;
            }
            Py_RETURN_NONE;
        }
        PyErr_SetString(PyExc_ValueError, "Invalid size.");
        return nullptr;
    }
    PyErr_SetString(PyExc_TypeError, "Expected an int object.");
    return nullptr;
}
'''),
(N+'copy','''
static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
    const auto &source = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;

    auto *copy = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
    if (copy == nullptr) return PyErr_NoMemory();

    try {
        copy->vector.reserve(source.size());
        for (const long long value: source) {
            copy->vector.push_back(value);
        }
    } catch (const std::exception &e) {
        Py_DECREF(copy);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(copy);
}
'''),
(N+'extend','''
static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto &vector = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;

    if (nargs != 1) {
        PyErr_SetString(PyExc_TypeError, "extend() takes exactly one argument");
        return nullptr;
    }

    PyObject *const iterable = *args;
    PyObject *iter = nullptr;
    try {
        if (Py_TYPE(iterable) == &BigIntArrayListType) {
            const auto &other = reinterpret_cast<BigIntArrayList *>(iterable)->vector;
            const size_t n = other.size();
            vector.reserve(vector.size() + n);
            for (size_t i = 0; i < n; i++) {
                vector.push_back(other[i]);
            }
            Py_RETURN_NONE;
        }

        iter = PyObject_GetIter(iterable);
        if (iter == nullptr) return nullptr;

        const Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
        if (hint < 0) {
            Py_DECREF(iter);
            return nullptr;
        }
        vector.reserve(vector.size() + static_cast<size_t>(hint));

        while (PyObject *item = PyIter_Next(iter)) {
            const long long value = PyLong_AsLongLong(item);
            Py_DECREF(item);
            if (value == -1 && PyErr_Occurred()) break;
            vector.push_back(value);
        }
    } catch (const std::exception &e) {
        Py_XDECREF(iter);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_DECREF(iter);
    if (PyErr_Occurred()) return nullptr;
    Py_RETURN_NONE;
}
'''),
(N+'sort','''
static PyObject *sortWithKey(BigIntArrayList *self, PyObject *keyFunc, int reverse) {
    const size_t count = self->vector.size();
    PyObject **boxes = PyMem_New(PyObject *, count);
    if (boxes == nullptr) return PyErr_NoMemory();

    size_t made = 0;
    for (; made < count; ++made) {
        boxes[made] = PyLong_FromLongLong(self->vector[made]);
        if (boxes[made] == nullptr) break;
    }

    PyObject *result = nullptr;
    if (made == count) {
        result = CPython_sort(boxes, static_cast<Py_ssize_t>(count), keyFunc, reverse);
        if (result != nullptr) {
            if (self->vector.size() == count) {
                for (size_t i = 0; i < count; ++i) {
                    self->vector[i] = PyLong_AsLongLong(boxes[i]);
                }
            } else {
                Py_DECREF(result);
                result = nullptr;
                PyErr_SetString(PyExc_ValueError, "list modified during sort");
            }
        }
    }
    for (size_t i = 0; i < made; ++i) {
        Py_DECREF(boxes[i]);
    }
    PyMem_Free(boxes);
    return result;
}

static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *kwargs) {
    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);

    PyObject *keyFunc = Py_None;
    int reverseInt = 0;  // default: false
    static constexpr const char *kwlist[] = {"key", "reverse", nullptr};

    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
        return nullptr;
    }
    if (keyFunc != Py_None) {
        return sortWithKey(self, keyFunc, reverseInt);
    }
    try {
        simd::simdsort(self->vector, reverseInt != 0);
    } catch (const std::exception &) {
        return PyErr_NoMemory();
    }
    Py_RETURN_NONE;
}
'''),
(N+'add','''
static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
    if (Py_TYPE(pyValue) != &BigIntArrayListType) {
        PyObject *list = BigIntArrayList_to_list(pySelf);
        PyObject *result = list == nullptr ? nullptr : PySequence_Concat(list, pyValue);
        Py_XDECREF(list);
        return result;
    }

    PyObject *result = BigIntArrayList_copy(pySelf);
    if (result == nullptr) return nullptr;
    auto &target = reinterpret_cast<BigIntArrayList *>(result)->vector;
    const auto &tail = reinterpret_cast<BigIntArrayList *>(pyValue)->vector;
    try {
        target.insert(target.end(), tail.begin(), tail.end());
    } catch (const std::exception &e) {
        Py_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return result;
}
'''),
(N+'clear','''
static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
    auto &vector = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;
    vector.erase(vector.begin(), vector.end());
    Py_RETURN_NONE;
}
'''),
(N+'eq','''
static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
    const auto &mine = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;

    if (Py_TYPE(pyValue) == &BigIntArrayListType) {
        const auto &theirs = reinterpret_cast<BigIntArrayList *>(pyValue)->vector;
        return PyBool_FromLong(mine == theirs);
    }

    if (!PySequence_Check(pyValue)) Py_RETURN_FALSE;

    const Py_ssize_t length = PySequence_Size(pyValue);
    if (length < 0) return nullptr;

    bool same = length == static_cast<Py_ssize_t>(mine.size());
    for (Py_ssize_t i = 0; same && i < length; i++) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) return nullptr;
        const long long other = PyLong_AsLongLong(item);
        Py_DECREF(item);
        if (other == -1 && PyErr_Occurred()) {
            PyErr_Clear();
            same = false;
        } else if (mine[static_cast<size_t>(i)] != other) {
            same = false;
        }
    }
    return PyBool_FromLong(same);
}
'''),
(N+'ne','''
static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
    PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
    if (isEq == nullptr) return nullptr;
    PyObject *result = isEq == Py_True ? Py_False : Py_True;
    Py_DECREF(isEq);
    Py_INCREF(result);
    return result;
}
'''),
(N+'lt','''
static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
    const auto &mine = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;

    if (Py_TYPE(pyValue) == &BigIntArrayListType) {
        const auto &theirs = reinterpret_cast<BigIntArrayList *>(pyValue)->vector;
        auto a = mine.begin();
        auto b = theirs.begin();
        while (a != mine.end() && b != theirs.end() && *a == *b) {
            ++a;
            ++b;
        }
        if (a == mine.end()) return PyBool_FromLong(b != theirs.end());
        if (b == theirs.end()) Py_RETURN_FALSE;
        return PyBool_FromLong(*a < *b);
    }

    if (!PySequence_Check(pyValue))
        Py_RETURN_FALSE;

    const Py_ssize_t theirSize = PySequence_Size(pyValue);
    if (theirSize < 0) return nullptr;
    const auto mySize = static_cast<Py_ssize_t>(mine.size());

    for (Py_ssize_t i = 0; i < mySize && i < theirSize; i++) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) return nullptr;
        const long long other = PyLong_AsLongLong(item);
        Py_DECREF(item);
        if (PyErr_Occurred()) return nullptr;
        if (mine[i] < other) Py_RETURN_TRUE;
        if (other < mine[i]) Py_RETURN_FALSE;
    }
    return PyBool_FromLong(mySize < theirSize);
}
'''),
(N+'compare','''
static PyObject *BigIntArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
    if (op == Py_EQ) return BigIntArrayList_eq(pySelf, pyValue);
    if (op == Py_NE) return BigIntArrayList_ne(pySelf, pyValue);
    if (op == Py_LT) return BigIntArrayList_lt(pySelf, pyValue);
    if (op == Py_LE) return BigIntArrayList_le(pySelf, pyValue);
    if (op == Py_GT) return BigIntArrayList_gt(pySelf, pyValue);
    if (op == Py_GE) return BigIntArrayList_ge(pySelf, pyValue);
    PyErr_SetString(PyExc_AssertionError, "Invalid comparison operation.");
    return nullptr;
}
'''),
(N+'repr','''
static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
    const auto &vec = reinterpret_cast<BigIntArrayList *>(pySelf)->vector;
    try {
        std::string str;
        str.reserve(vec.size() * 4 + 2);
        str += '[';
        for (size_t i = 0; i < vec.size(); ++i) {
            if (i != 0) {
                str += ", ";
            }
            str += std::to_string(vec[i]);
        }
        str += ']';
        return PyUnicode_FromStringAndSize(str.data(), static_cast<Py_ssize_t>(str.size()));
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
'''),
(None,('''        if (newLength <= sliceLength) {  // less elements
            std::copy(items.begin(), items.end(), self->vector.begin() + start);
            self->vector.erase(
                self->vector.begin() + start + newLength,
                self->vector.begin() + start + sliceLength
            );
        } else {  // more elements
            self->vector.insert(
                self->vector.begin() + start + sliceLength,
                items.begin() + sliceLength,
                items.end()
            );
            std::copy(items.begin(), items.begin() + sliceLength, self->vector.begin() + start);
        }
''','''        const Py_ssize_t common = std::min(newLength, sliceLength);
        if (newLength > sliceLength) {
            self->vector.insert(self->vector.begin() + start + common, items.begin() + common, items.end());
        } else if (newLength < sliceLength) {
            self->vector.erase(self->vector.begin() + start + common, self->vector.begin() + start + sliceLength);
        }
        for (Py_ssize_t i = 0; i < common; ++i) {
            self->vector[start + i] = items[i];
        }
''')),
]}
