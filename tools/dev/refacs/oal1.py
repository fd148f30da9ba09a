R = {'objects/ObjectArrayList.cpp': [
(None, ('static void ObjectArrayList_dealloc(', '''static __forceinline void ObjectArrayList_increfAll(const std::vector<PyObject *> &items) {
    for (size_t i = 0; i < items.size(); ++i) {
        Py_INCREF(items[i]);
    }
}

static void ObjectArrayList_releaseAll(std::vector<PyObject *> &items) {
    while (!items.empty()) {
        PyObject *last = items.back();
        items.pop_back();
        Py_DECREF(last);
    }
}

static bool ObjectArrayList_checkIndex(ObjectArrayList *self, Py_ssize_t &index) {
    const auto size = static_cast<Py_ssize_t>(self->vector.size());
    index += index < 0 ? size : 0;
    if (index >= 0 && index < size) return true;
    PyErr_SetString(PyExc_IndexError, "index out of range.");
    return false;
}

static void ObjectArrayList_dealloc(''')),
('ObjectArrayList_dealloc', '''static void ObjectArrayList_dealloc(ObjectArrayList *self) {
    const size_t size = self->vector.size();
    for (size_t i = 0; i < size; ++i) {
        Py_DECREF(self->vector[i]);
    }
    self->vector.~vector();
    Py_TYPE(self)->tp_free((PyObject *) self);
}
'''),
('ObjectArrayList_resize', '''static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
    if (!PyLong_Check(pySize)) {
        PyErr_SetString(PyExc_TypeError, "Expected an int object.");
        return nullptr;
    }

    const Py_ssize_t newSize = PyLong_AsSsize_t(pySize);
    if (PyErr_Occurred()) return nullptr;
    if (newSize < 0) {
        PyErr_SetString(PyExc_ValueError, "Invalid size.");
        return nullptr;
    }

    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
    try {
        if (static_cast<size_t>(newSize) > self->vector.size()) {
            self->vector.resize(static_cast<size_t>(newSize), Py_None);
        } else {
            for (size_t left = self->vector.size() - newSize; left != 0; --left) {
                PyObject *item = self->vector.back();
                self->vector.pop_back();
                Py_DECREF(item);
            }
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_RETURN_NONE;
}
'''),
('ObjectArrayList_to_list', '''static PyObject *ObjectArrayList_to_list(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    PyObject *result = PyList_New(static_cast<Py_ssize_t>(self->vector.size()));
    if (result == nullptr) return PyErr_NoMemory();

    Py_ssize_t i = 0;
    for (PyObject *item: self->vector) {
        Py_INCREF(item);
        PyList_SET_ITEM(result, i, item);
        ++i;
    }
    return result;
}
'''),
('ObjectArrayList_copy', '''static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
    auto *copy = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
    if (copy == nullptr) return PyErr_NoMemory();

    try {
        const auto &source = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
        copy->vector.reserve(source.size());
        for (PyObject *item: source) {
            Py_INCREF(item);
            copy->vector.push_back(item);
        }
    } catch (const std::exception &e) {
        SAFE_DECREF(copy);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    return reinterpret_cast<PyObject *>(copy);
}
'''),
('ObjectArrayList_append', '''static PyObject *ObjectArrayList_append(PyObject *pySelf, PyObject *object) {
    auto &vec = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
    Py_INCREF(object);
    try {
        vec.push_back(object);
    } catch (const std::exception &e) {
        Py_DECREF(object);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    Py_RETURN_NONE;
}
'''),
('ObjectArrayList_pop', '''static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    if (self->vector.empty()) {
        PyErr_SetString(PyExc_IndexError, "pop from empty list");
        return nullptr;
    }
    if (nargs > 1) {
        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
        return nullptr;
    }

    const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
    Py_ssize_t index = -1;
    if (nargs == 1) {
        index = PyLong_AsSsize_t(args[0]);
        if (index == -1 && PyErr_Occurred()) {
            return nullptr;
        }
    }
    if (index < 0) index += vecSize;
    if (index < 0 || index >= vecSize) {
        PyErr_SetString(PyExc_IndexError, "index out of range");
        return nullptr;
    }

    const auto iter = self->vector.begin() + index;
    PyObject *popped = *iter;
    self->vector.erase(iter);
    return popped;
}
'''),
('ObjectArrayList_find', '''static Py_ssize_t ObjectArrayList_find(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
    auto i = start;
    while (true) {
        if (i >= stop || i >= static_cast<Py_ssize_t>(self->vector.size())) break;
        PyObject *item = self->vector[i];
        Py_INCREF(item);
        const int equal = PyObject_RichCompareBool(item, value, Py_EQ);
        Py_DECREF(item);
        if (equal == 0) {
            ++i;
            continue;
        }
        return equal < 0 ? -2 : i;
    }
    return -1;
}
'''),
('ObjectArrayList_count', '''static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    size_t result = 0;
    size_t i = 0;
    while (i < self->vector.size()) {
        PyObject *item = self->vector[i++];
        Py_INCREF(item);
        const int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
        Py_DECREF(item);
        if (cmpResult == -1) return nullptr;
        result += cmpResult;
    }

    return PyLong_FromSize_t(result);
}
'''),
('ObjectArrayList_insert', '''static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
    Py_ssize_t index;
    PyObject *value;

    if (!PyArg_ParseTuple(args, "nO", &index, &value)) {
        return nullptr;
    }

    auto &vec = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
    const auto vecSize = static_cast<Py_ssize_t>(vec.size());
    if (index < 0) {
        index += vecSize;
        if (index < 0) index = 0;
    }
    index = std::min(index, vecSize);

    Py_INCREF(value);
    try {
        vec.insert(vec.begin() + index, value);
    } catch (const std::exception &e) {
        Py_DECREF(value);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_RETURN_NONE;
}
'''),
('ObjectArrayList_remove', '''static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    const auto index = ObjectArrayList_find(self, object, 0, PY_SSIZE_T_MAX);
    if (index == -2) {
        return nullptr;
    }
    if (index < 0 || index >= static_cast<Py_ssize_t>(self->vector.size())) {
        PyErr_SetString(PyExc_ValueError, "Value is not in list.");
        return nullptr;
    }

    const auto position = self->vector.begin() + index;
    PyObject *removed = *position;
    self->vector.erase(position);
    Py_DECREF(removed);
    Py_RETURN_NONE;
}
'''),
('ObjectArrayList_getitem', '''static PyObject *ObjectArrayList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
    if (!ObjectArrayList_checkIndex(self, pyIndex)) return nullptr;
    return Py_NewRef(self->vector[static_cast<size_t>(pyIndex)]);
}
'''),
('ObjectArrayList_setitem', '''static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
    if (!ObjectArrayList_checkIndex(self, pyIndex)) return -1;

    const auto iter = self->vector.begin() + pyIndex;
    PyObject *old = *iter;
    if (pyValue == nullptr) {
        self->vector.erase(iter);
    } else {
        Py_INCREF(pyValue);
        *iter = pyValue;
    }
    Py_DECREF(old);
    return 0;
}
'''),
('ObjectArrayList_setitem_slice', '''static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObject *value) {
    if (PyIndex_Check(slice)) {
        Py_ssize_t index = PyNumber_AsSsize_t(slice, PyExc_IndexError);
        if (index == -1 && PyErr_Occurred()) {
            return -1;
        }
        return ObjectArrayList_setitem(pySelf, index, value);
    }
    if (!PySlice_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return -1;
    }

    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    Py_ssize_t start, stop, step;
    if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
        return -1;
    }

    if (step != 1) {
        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
        return -1;
    }

    PyObject *fastValue = nullptr;
    if (value != nullptr) {
        if (!PySequence_Check(value)) {
            PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
            return -1;
        }
        fastValue = PySequence_Tuple(value);
        if (fastValue == nullptr) return -1;
    }

    std::vector<PyObject *> removed;
    try {
        const Py_ssize_t sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
        const auto first = self->vector.begin() + start;
        removed.assign(first, first + sliceLength);

        if (fastValue == nullptr) {
            self->vector.erase(first, first + sliceLength);
        } else {
            const Py_ssize_t newLength = PyTuple_GET_SIZE(fastValue);
            if (newLength > sliceLength) {
                self->vector.insert(first + sliceLength, static_cast<size_t>(newLength - sliceLength), nullptr);
            } else if (newLength < sliceLength) {
                self->vector.erase(first + newLength, first + sliceLength);
            }
            PyObject **target = self->vector.data() + start;
            for (Py_ssize_t i = 0; i < newLength; i++) {
                target[i] = Py_NewRef(PyTuple_GET_ITEM(fastValue, i));
            }
        }
    } catch (const std::exception &e) {
        Py_XDECREF(fastValue);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }

    for (size_t i = 0; i < removed.size(); ++i) {
        Py_DECREF(removed[i]);
    }
    Py_XDECREF(fastValue);
    return 0;
}
'''),
('ObjectArrayList_add', '''static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
    if (Py_TYPE(pyValue) == &ObjectArrayListType) {
        const auto &left = self->vector;
        const auto &right = reinterpret_cast<ObjectArrayList *>(pyValue)->vector;

        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
        if (result == nullptr) return PyErr_NoMemory();

        try {
            result->vector.reserve(left.size() + right.size());
            for (PyObject *item: left) {
                Py_INCREF(item);
                result->vector.push_back(item);
            }
            for (PyObject *item: right) {
                Py_INCREF(item);
                result->vector.push_back(item);
            }
            return reinterpret_cast<PyObject *>(result);
        } catch (const std::exception &e) {
            SAFE_DECREF(result);
            PyErr_SetString(PyExc_RuntimeError, e.what());
            return nullptr;
        }
    }

    // add -> list[int]
    PyObject *selfIntList = ObjectArrayList_to_list(pySelf);
    if (selfIntList == nullptr) return nullptr;
    PyObject *result = PySequence_Concat(selfIntList, pyValue);
    Py_DECREF(selfIntList);
    return result;
}
'''),
('ObjectArrayList_mul', '''static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }

    const auto selfSize = self->vector.size();
    if (n <= 0 || selfSize == 0) {
        return reinterpret_cast<PyObject *>(result);
    }

    if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
        SAFE_DECREF(result);
        return PyErr_NoMemory();
    }

    try {
        result->vector.reserve(selfSize * static_cast<size_t>(n));
        for (Py_ssize_t i = 0; i < n; ++i) {
            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
        }
        for (PyObject *item: result->vector) {
            Py_INCREF(item);
        }
        return reinterpret_cast<PyObject *>(result);
    } catch (const std::exception &e) {
        result->vector.clear();
        SAFE_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
'''),
('ObjectArrayList_imul', '''static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);

    try {
        if (n <= 0) {
            std::vector<PyObject *> items;
            items.swap(self->vector);
            ObjectArrayList_releaseAll(items);
        } else if (!self->vector.empty()) {
            const auto selfSize = self->vector.size();
            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
                return PyErr_NoMemory();
            }

            const size_t total = selfSize * n;
            self->vector.reserve(total);
            for (size_t i = selfSize; i < total; ++i) {
                PyObject *item = self->vector[i - selfSize];
                Py_INCREF(item);
                self->vector.push_back(item);
            }
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_INCREF(pySelf);
    return pySelf;
}
'''),
]}
