F='objects/ObjectArrayList.cpp'
N='ObjectArrayList_'
R={F:[
(N+'init','''
static int initFromIterator(ObjectArrayList *self, PyObject *iterable) {
    PyObject *iter = PyObject_GetIter(iterable);
    if (iter == nullptr) {
        PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
        return -1;
    }
    for (;;) {
        PyObject *item = PyIter_Next(iter);
        if (item == nullptr) break;
        try {
            self->vector.push_back(item);
        } catch (const std::exception &e) {
            Py_DECREF(item);
            PyErr_SetString(PyExc_RuntimeError, e.what());
            break;
        }
    }
    Py_DECREF(iter);
    return PyErr_Occurred() == nullptr ? 0 : -1;
}

static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
    new(&self->vector) std::vector<PyObject *>();

    PyObject *pyIterable = nullptr;
    Py_ssize_t pySize = -1;
    parseArgs(args, kwargs, pyIterable, pySize);
    if (PyErr_Occurred()) {
        return -1;
    }

    try {
        if (pySize > 0) {
            self->vector.reserve(static_cast<size_t>(pySize));
        }
        if (pyIterable == nullptr) return 0;
        if (Py_TYPE(pyIterable) == &ObjectArrayListType) {
            const auto &other = reinterpret_cast<ObjectArrayList *>(pyIterable)->vector;
            self->vector.assign(other.begin(), other.end());
            for (size_t i = 0; i < self->vector.size(); ++i) {
                Py_INCREF(self->vector[i]);
            }
            return 0;
        }
        if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {
            const Py_ssize_t size = PySequence_Fast_GET_SIZE(pyIterable);
            self->vector.reserve(self->vector.size() + static_cast<size_t>(size));
            for (Py_ssize_t i = 0; i < size; ++i) {
                PyObject *item = PySequence_Fast_GET_ITEM(pyIterable, i);
                Py_INCREF(item);
                self->vector.push_back(item);
            }
            return 0;
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
    return initFromIterator(self, pyIterable);
}
'''),
(N+'extend','''
static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    if (nargs != 1) {
        PyErr_SetString(PyExc_TypeError, "extend() takes exactly one argument");
        return nullptr;
    }

    PyObject *iterable = args[0];
    auto &vector = self->vector;
    PyObject *iter = nullptr;
    PyObject *item = nullptr;
    try {
        if (Py_TYPE(iterable) == &ObjectArrayListType) {
            const auto &other = reinterpret_cast<ObjectArrayList *>(iterable)->vector;
            const size_t oldSize = vector.size();
            const size_t count = other.size();
            vector.resize(oldSize + count);
            std::copy_n(other.begin(), count, vector.begin() + oldSize);
            for (size_t i = oldSize; i < vector.size(); ++i) {
                Py_INCREF(vector[i]);
            }
            Py_RETURN_NONE;
        }
        if (PyList_CheckExact(iterable)) {
            const Py_ssize_t count = PyList_GET_SIZE(iterable);
            vector.reserve(vector.size() + count);
            for (Py_ssize_t i = 0; i < count; ++i) {
                vector.push_back(Py_NewRef(PyList_GET_ITEM(iterable, i)));
            }
            Py_RETURN_NONE;
        }

        iter = PyObject_GetIter(iterable);
        if (iter == nullptr) return nullptr;
        const Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
        if (hint < 0) {
            Py_DECREF(iter);
            return nullptr;
        }
        vector.reserve(vector.size() + hint);
        for (item = PyIter_Next(iter); item != nullptr; item = PyIter_Next(iter)) {
            vector.emplace_back(item);
        }
    } catch (const std::exception &e) {
        Py_XDECREF(item);
        Py_XDECREF(iter);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_DECREF(iter);
    if (PyErr_Occurred() != nullptr) return nullptr;
    Py_RETURN_NONE;
}
'''),
(N+'contains','''
static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
    const auto &vector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
    for (size_t i = 0; i < vector.size(); ++i) {
        PyObject *item = vector[i];
        Py_INCREF(item);
        const int cmp = PyObject_RichCompareBool(item, key, Py_EQ);
        Py_DECREF(item);
        if (cmp != 0) return cmp;
    }
    return 0;
}
'''),
(N+'reverse','''
static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
    auto &vector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
    std::reverse(vector.begin(), vector.end());
    Py_RETURN_NONE;
}
'''),
(N+'clear','''
static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
    std::vector<PyObject *> items = std::move(self->vector);
    self->vector.clear();
    for (size_t i = items.size(); i > 0; --i) {
        Py_DECREF(items[i - 1]);
    }
    Py_RETURN_NONE;
}
'''),
(N+'eq','''
static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
    const auto &vector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;

    bool equal = PySequence_Check(pyValue);
    if (equal) {
        const Py_ssize_t size = PySequence_Size(pyValue);
        if (size == -1) return nullptr;
        equal = size == static_cast<Py_ssize_t>(vector.size());
        Py_ssize_t i = 0;
        while (equal && i < size) {
            PyObject *item = PySequence_GetItem(pyValue, i);
            if (item == nullptr) return nullptr;
            const int cmp = PyObject_RichCompareBool(vector[i++], item, Py_EQ);
            Py_DECREF(item);
            if (cmp < 0) return nullptr;
            equal = cmp == 1;
        }
    }
    return PyBool_FromLong(equal);
}
'''),
(N+'lt','''
static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
    const auto &vector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;

    if (!PySequence_Check(pyValue)) {
        Py_RETURN_FALSE;
    }

    const Py_ssize_t theirs = PySequence_Size(pyValue);
    if (theirs < 0) {
        return nullptr;
    }
    const auto mine = static_cast<Py_ssize_t>(vector.size());

    for (Py_ssize_t i = 0; i < mine && i < theirs; ++i) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) {
            return nullptr;
        }
        int equal = PyObject_RichCompareBool(vector[i], item, Py_EQ);
        int less = equal == 0 ? PyObject_RichCompareBool(vector[i], item, Py_LT) : 0;
        Py_DECREF(item);
        if (equal < 0 || less < 0) {
            return nullptr;
        }
        if (equal == 0) {
            return PyBool_FromLong(less);
        }
    }
    return PyBool_FromLong(mine < theirs);
}
'''),
(N+'sort','''
static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *kwargs) {
    auto &vector = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;

    PyObject *keyFunc = Py_None;
    int reverseInt = 0;  // default: false
    static constexpr const char *kwlist[] = {"key", "reverse", nullptr};

    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
        return nullptr;
    }
    if (keyFunc == Py_None) keyFunc = nullptr;

    auto items = std::move(vector);
    vector.clear();
    PyObject *result = CPython_sort(items.data(), static_cast<Py_ssize_t>(items.size()), keyFunc, reverseInt);
    std::swap(items, vector);
    if (items.empty()) {
        return result;
    }

    if (result != nullptr) {
        Py_DECREF(result);
        PyErr_SetString(PyExc_ValueError, "list modified during sort");
    }
    for (auto it = items.begin(); it != items.end(); ++it) {
        Py_DECREF(*it);
    }
    return nullptr;
}
'''),
(None,('''        const auto first = self->vector.begin() + start;
        removed.insert(removed.end(), first, first + sliceLength);

        if (newLength > sliceLength) {
            self->vector.insert(first + sliceLength, static_cast<size_t>(newLength - sliceLength), nullptr);
        } else {
            self->vector.erase(first + newLength, first + sliceLength);
        }

        for (Py_ssize_t i = 0; i < newLength; i++) {
            PyObject *item = PyTuple_GET_ITEM(fastValue, i);
            Py_INCREF(item);
            self->vector[static_cast<size_t>(start + i)] = item;
        }
''','''        removed.assign(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
        const Py_ssize_t common = newLength < sliceLength ? newLength : sliceLength;
        PyObject **source = newLength > 0 ? PySequence_Fast_ITEMS(fastValue) : nullptr;
        if (newLength > common) {
            self->vector.insert(self->vector.begin() + start + common, source + common, source + newLength);
        }
        if (sliceLength > common) {
            self->vector.erase(self->vector.begin() + start + common, self->vector.begin() + start + sliceLength);
        }
        for (Py_ssize_t i = 0; i < newLength; i++) {
            Py_INCREF(source[i]);
            self->vector[start + i] = source[i];
        }
'''))
]}
