F='ints/IntArrayList.cpp'
N='IntArrayList_'
R={F:[
(N+'init','''
// convert one item; on failure an exception is set
static __forceinline bool itemToInt(PyObject *item, int &out) noexcept {
    out = static_cast<int>(PyLong_AsLong(item));
    return PyErr_Occurred() == nullptr;
}

static bool appendAll(std::vector<int, AlignedAllocator<int, 64>> &vector, PyObject *const *items, Py_ssize_t size) {
    for (PyObject *const *end = items + size; items != end; ++items) {
        int value;
        if (!itemToInt(*items, value)) return false;
        vector.push_back(value);
    }
    return true;
}

static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
    new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
    auto &vector = self->vector;

    PyObject *pyIterable = nullptr;
    Py_ssize_t pySize = -1;

    parseArgs(args, kwargs, pyIterable, pySize);
    if (PyErr_Occurred()) {
        return -1;
    }

    PyObject *source = nullptr;
    try {
        if (pySize > 0) {
            vector.reserve(static_cast<size_t>(pySize));
        }

        if (pyIterable == nullptr) {
            return 0;
        }

        if (Py_TYPE(pyIterable) == &IntArrayListType) {
            vector = reinterpret_cast<IntArrayList *>(pyIterable)->vector;
            return 0;
        }

        const bool fast = PyList_Check(pyIterable) || PyTuple_Check(pyIterable);
        source = fast ? PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).") : PyObject_GetIter(pyIterable);
        if (source == nullptr) {
            if (!fast) PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
            return -1;
        }

        bool converted = true;
        if (fast) {
            converted = appendAll(vector, PySequence_Fast_ITEMS(source), PySequence_Fast_GET_SIZE(source));
        } else {
            while (PyObject *item = PyIter_Next(source)) {
                int value;
                converted = itemToInt(item, value);
                Py_DECREF(item);
                if (!converted) break;
                vector.push_back(value);
            }
        }
        Py_DECREF(source);
        if (!converted) {
            PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
        }
        return PyErr_Occurred() ? -1 : 0;
    } catch (const std::exception &e) {
        Py_XDECREF(source);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
}
'''),
(N+'extend','''
static bool extendFromIterator(IntArrayList *self, PyObject *iter) {
    for (;;) {
        PyObject *item = PyIter_Next(iter);
        if (item == nullptr) {
            return PyErr_Occurred() == nullptr;
        }
        const long value = PyLong_AsLong(item);
        Py_DECREF(item);
        if (value == -1 && PyErr_Occurred()) {
            return false;
        }
        self->vector.push_back(static_cast<int>(value));
    }
}

static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);

    if (nargs != 1) {
        PyErr_SetString(PyExc_TypeError, "extend() takes exactly one argument");
        return nullptr;
    }

    PyObject *iterable = *args;
    PyObject *iter = nullptr;
    bool success = true;
    try {
        if (Py_TYPE(iterable) == &IntArrayListType) {
            const auto &other = reinterpret_cast<IntArrayList *>(iterable)->vector;
            const size_t count = other.size();
            // growing first keeps indices valid when extending with itself
            self->vector.reserve(self->vector.size() + count);
            for (size_t i = 0; i < count; ++i) {
                self->vector.push_back(other[i]);
            }
        } else {
            iter = PyObject_GetIter(iterable);
            if (iter == nullptr) return nullptr;
            const Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
            success = hint >= 0;
            if (success) {
                self->vector.reserve(self->vector.size() + static_cast<size_t>(hint));
                success = extendFromIterator(self, iter);
            }
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        success = false;
    }
    Py_XDECREF(iter);
    if (!success) return nullptr;
    Py_RETURN_NONE;
}
'''),
(N+'sort','''
static void releaseAll(PyObject **items, size_t count) {
    for (size_t i = 0; i < count; ++i) {
        Py_DECREF(items[i]);
    }
    PyMem_Free(items);
}

static PyObject *sortWithKey(IntArrayList *self, PyObject *keyFunc, int reverse) {
    const size_t size = self->vector.size();
    auto **boxed = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * size));
    if (boxed == nullptr) {
        return PyErr_NoMemory();
    }

    for (size_t i = 0; i < size; ++i) {
        PyObject *item = PyFast_FromInt(self->vector[i]);
        if (item == nullptr) {
            releaseAll(boxed, i);
            return nullptr;
        }
        boxed[i] = item;
    }

    PyObject *sorted = CPython_sort(boxed, static_cast<Py_ssize_t>(size), keyFunc, reverse);
    if (sorted != nullptr) {
        if (self->vector.size() == size) {
            int *out = self->vector.data();
            for (size_t i = 0; i < size; ++i) {
                out[i] = PyFast_AsInt(boxed[i]);
            }
        } else {
            Py_DECREF(sorted);
            sorted = nullptr;
            PyErr_SetString(PyExc_ValueError, "list modified during sort");
        }
    }
    releaseAll(boxed, size);
    return sorted;
}

static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *kwargs) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);

    PyObject *keyFunc = Py_None;
    int reverse = 0;  // default: false
    static constexpr const char *kwlist[] = {"key", "reverse", nullptr};

    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverse)) {
        return nullptr;
    }

    if (keyFunc != Py_None) {
        return sortWithKey(self, keyFunc, reverse);
    }

    bool done = false;
    PyThreadState *state = PyEval_SaveThread();
    try {
        simd::simdsort(self->vector, reverse != 0);
        done = true;
    } catch (const std::exception &) {
    }
    PyEval_RestoreThread(state);
    if (!done) {
        return PyErr_NoMemory();
    }
    Py_RETURN_NONE;
}
'''),
(N+'setitem_slice','''
static int sliceValues(PyObject *value, std::vector<int, AlignedAllocator<int, 64>> &items) {
    if (value == nullptr) return 0;
    if (!PySequence_Check(value)) {
        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
        return -1;
    }
    const Py_ssize_t length = PySequence_Size(value);
    if (length == -1) return -1;
    items.resize(static_cast<size_t>(length));
    for (size_t i = 0; i < items.size(); ++i) {
        PyObject *item = PySequence_GetItem(value, static_cast<Py_ssize_t>(i));
        if (item == nullptr) return -1;
        const long number = PyLong_AsLong(item);
        Py_DECREF(item);
        if (number == -1 && PyErr_Occurred()) return -1;
        items[i] = static_cast<int>(number);
    }
    return 0;
}

static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObject *value) {
    if (PyIndex_Check(slice)) {
        const Py_ssize_t index = PyNumber_AsSsize_t(slice, PyExc_IndexError);
        return index == -1 && PyErr_Occurred() ? -1 : IntArrayList_setitem(pySelf, index, value);
    }
    if (!PySlice_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return -1;
    }

    Py_ssize_t start, stop, step;
    if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
        return -1;
    }
    if (step != 1) {
        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
        return -1;
    }

    auto &vector = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    try {
        std::vector<int, AlignedAllocator<int, 64>> items;
        if (sliceValues(value, items) < 0) return -1;

        const Py_ssize_t count = PySlice_AdjustIndices(static_cast<Py_ssize_t>(vector.size()), &start, &stop, step);
        const Py_ssize_t replaced = std::min<Py_ssize_t>(count, static_cast<Py_ssize_t>(items.size()));
        vector.reserve(vector.size() + items.size());
        std::copy_n(items.begin(), replaced, vector.begin() + start);
        const auto tail = vector.begin() + (start + replaced);
        if (replaced < count) {
            vector.erase(tail, vector.begin() + (start + count));
        } else {
            vector.insert(tail, items.begin() + replaced, items.end());
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
    return 0;
}
'''),
(N+'add','''
static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
    if (Py_TYPE(pyValue) != &IntArrayListType) {
        PyObject *left = IntArrayList_to_list(pySelf);
        if (left == nullptr) return nullptr;
        PyObject *joined = PySequence_Concat(left, pyValue);
        Py_DECREF(left);
        return joined;
    }

    const auto &a = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    const auto &b = reinterpret_cast<IntArrayList *>(pyValue)->vector;
    auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }
    try {
        result->vector.resize(a.size() + b.size());
        auto out = std::copy(a.begin(), a.end(), result->vector.begin());
        std::copy(b.begin(), b.end(), out);
    } catch (const std::exception &e) {
        Py_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(result);
}
'''),
]}
