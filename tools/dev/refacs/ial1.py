R = {'ints/IntArrayList.cpp': [
(None, ('static void IntArrayList_dealloc(', '''static __forceinline bool IntArrayList_fixIndex(const IntArrayList *self, Py_ssize_t &index) {
    const auto size = static_cast<Py_ssize_t>(self->vector.size());
    if (index < 0) index += size;
    return index >= 0 && index < size;
}

static bool IntArrayList_toInt(PyObject *object, int &out) {
    out = static_cast<int>(PyLong_AsLong(object));
    return PyErr_Occurred() == nullptr;
}

static void IntArrayList_dealloc(''')),
('IntArrayList_getitem', '''static PyObject *IntArrayList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    if (!IntArrayList_fixIndex(self, pyIndex)) {
        PyErr_SetString(PyExc_IndexError, "index out of range.");
        return nullptr;
    }
    const int *data = self->vector.data();
    return PyFast_FromInt(data[pyIndex]);
}
'''),
('IntArrayList_setitem', '''static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    if (!IntArrayList_fixIndex(self, pyIndex)) {
        PyErr_SetString(PyExc_IndexError, "index out of range.");
        return -1;
    }
    if (pyValue != nullptr) {
        int value;
        if (!IntArrayList_toInt(pyValue, value)) return -1;
        self->vector.at(static_cast<size_t>(pyIndex)) = value;
        return 0;
    }
    auto it = self->vector.begin();
    std::advance(it, pyIndex);
    self->vector.erase(it);
    return 0;
}
'''),
('IntArrayList_append', '''static PyObject *IntArrayList_append(PyObject *pySelf, PyObject *object) {
    int value;
    if (!IntArrayList_toInt(object, value)) return nullptr;
    auto &vec = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    try {
        vec.emplace_back(value);
        Py_RETURN_NONE;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    return nullptr;
}
'''),
('IntArrayList_pop', '''static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    auto &vec = self->vector;
    if (vec.empty()) {
        PyErr_SetString(PyExc_IndexError, "pop from empty list");
        return nullptr;
    }
    if (nargs > 1) {
        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
        return nullptr;
    }
    Py_ssize_t index = -1;
    if (nargs == 1) {
        index = PyLong_AsSsize_t(args[0]);
        if (index == -1 && PyErr_Occurred()) return nullptr;
    }
    if (!IntArrayList_fixIndex(self, index)) {
        PyErr_SetString(PyExc_IndexError, "index out of range");
        return nullptr;
    }
    const int popped = vec[index];
    if (static_cast<size_t>(index) + 1 == vec.size()) {
        vec.pop_back();
    } else {
        vec.erase(vec.begin() + index, vec.begin() + index + 1);
    }
    return PyLong_FromLong(popped);
}
'''),
('IntArrayList_index', '''static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    const auto size = static_cast<Py_ssize_t>(self->vector.size());
    int value;
    Py_ssize_t start = 0;
    Py_ssize_t stop = size;
    if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
        return nullptr;
    }
    const auto clampIndex = [size](Py_ssize_t i) { return i < 0 ? std::max<Py_ssize_t>(i + size, 0) : i; };
    start = clampIndex(start);
    stop = std::min(clampIndex(stop), size);
    if (start > stop) {
        PyErr_SetString(PyExc_ValueError, "start index cannot be greater than stop index.");
        return nullptr;
    }
    for (Py_ssize_t i = start; i < stop; ++i) {
        if (self->vector[i] == value) return PyLong_FromSsize_t(i);
    }
    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
('IntArrayList_count', '''static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    int value;
    if (!IntArrayList_toInt(object, value)) return nullptr;
    size_t result = 0;
    for (const int x: self->vector) {
        if (x == value) ++result;
    }
    return PyLong_FromSize_t(result);
}
'''),
('IntArrayList_insert', '''static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
    Py_ssize_t index;
    int value;
    if (!PyArg_ParseTuple(args, "ni", &index, &value)) {
        return nullptr;
    }
    auto &vec = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    const auto vecSize = static_cast<Py_ssize_t>(vec.size());
    if (index < 0) {
        index += vecSize;
        if (index < 0) index = 0;
    }
    index = std::min(index, vecSize);
    try {
        if (index == vecSize) vec.push_back(value);
        else vec.insert(vec.cbegin() + index, value);
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    Py_RETURN_NONE;
}
'''),
('IntArrayList_remove', '''static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    int value;
    if (!IntArrayList_toInt(object, value)) return nullptr;
    for (auto it = self->vector.begin(); it != self->vector.end(); ++it) {
        if (*it != value) continue;
        self->vector.erase(it);
        Py_RETURN_NONE;
    }
    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
('IntArrayList_to_list', '''static PyObject *IntArrayList_to_list(PyObject *pySelf) {
    const auto &vec = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    PyObject *result = PyList_New(static_cast<Py_ssize_t>(vec.size()));
    if (result == nullptr) return PyErr_NoMemory();
    Py_ssize_t pos = 0;
    for (auto it = vec.begin(); it != vec.end(); ++it) {
        PyObject *item = PyLong_FromLong(*it);
        if (item == nullptr) {
            Py_DECREF(result);
            return nullptr;
        }
        PyList_SET_ITEM(result, pos++, item);
    }
    return result;
}
'''),
('IntArrayList_contains', '''static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
    if (!PyLong_Check(key)) {
        return 0;
    }
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    const long value = PyLong_AsLong(key);
    if (value == -1 && PyErr_Occurred()) return -1;
    const int wanted = static_cast<int>(value);
    size_t i = 0;
    while (i < self->vector.size()) {
        if (self->vector[i] == wanted) return 1;
        i++;
    }
    return 0;
}
'''),
('IntArrayList_mul', '''static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }
    if (n <= 0) {
        return reinterpret_cast<PyObject *>(result);
    }
    try {
        const auto selfSize = self->vector.size();
        if (selfSize == 0) return reinterpret_cast<PyObject *>(result);
        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
            SAFE_DECREF(result);
            return PyErr_NoMemory();
        }
        result->vector.reserve(selfSize * static_cast<size_t>(n));
        for (Py_ssize_t i = 0; i < n; ++i) {
            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
        }
    } catch (const std::exception &e) {
        SAFE_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(result);
}
'''),
('IntArrayList_imul', '''static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    if (n <= 0) {
        self->vector.clear();
        Py_INCREF(pySelf);
        return pySelf;
    }
    try {
        const size_t selfSize = self->vector.size();
        const size_t count = static_cast<size_t>(n);
        if (selfSize > self->vector.max_size() / count) {
            return PyErr_NoMemory();
        }
        self->vector.resize(selfSize * count);
        if (selfSize > 0) {
            int *data = self->vector.data();
            for (size_t i = count - 1; i >= 1; --i) {
                std::copy(data, data + selfSize, data + selfSize * i);
            }
        }
        return Py_NewRef(pySelf);
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
'''),
('IntArrayList_reverse', '''static PyObject *IntArrayList_reverse(PyObject *pySelf) {
    auto &vec = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    Py_BEGIN_ALLOW_THREADS
        std::reverse(vec.begin(), vec.end());
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
'''),
('IntArrayList_getitem_slice', '''static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
    if (PyIndex_Check(slice)) {
        const Py_ssize_t pyIndex = PyNumber_AsSsize_t(slice, PyExc_IndexError);
        return (pyIndex == -1 && PyErr_Occurred()) ? nullptr : IntArrayList_getitem(pySelf, pyIndex);
    }
    if (!PySlice_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return nullptr;
    }
    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
    Py_ssize_t start, stop, step;
    if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
        return nullptr;
    }
    const Py_ssize_t sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
    PyObject *result = PyList_New(sliceLength);
    if (!result) {
        return nullptr;
    }
    Py_ssize_t cur = start;
    for (Py_ssize_t i = 0; i != sliceLength; i++) {
        PyObject *item = PyFast_FromInt(self->vector[static_cast<size_t>(cur)]);
        if (item == nullptr) {
            SAFE_DECREF(result);
            return nullptr;
        }
        PyList_SET_ITEM(result, i, item);
        if (i + 1 < sliceLength) cur += step;
    }
    return result;
}
'''),
('IntArrayList_from_range', '''static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObject *args) {
    Py_ssize_t start, stop, step;
    if (!PyParse_EvalRange(args, start, stop, step)) {
        return nullptr;
    }
    auto *list = Py_CreateObj<IntArrayList>(IntArrayListType);
    if (list == nullptr) return PyErr_NoMemory();
    size_t elements = 0;
    if (step > 0 && start < stop) {
        elements = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
    } else if (step < 0 && start > stop) {
        elements = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
    }
    try {
        list->vector.reserve(elements);
        Py_ssize_t value = start;
        for (size_t idx = 0; idx < elements; ++idx) {
            list->vector.push_back(static_cast<int>(static_cast<size_t>(start) + idx * static_cast<size_t>(step)));
        }
        (void) value;
    } catch (const std::exception &e) {
        SAFE_DECREF(list);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(list);
}
'''),
('IntArrayList_iadd', '''static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
    PyObject *const args[] = {iterable};
    PyObject *result = IntArrayList_extend(pySelf, args, 1);
    Py_XDECREF(result);
    return result == nullptr ? nullptr : Py_NewRef(pySelf);
}
'''),
]}
