R = {'ints/IntLinkedList.cpp': [
(None, ('static void IntLinkedList_dealloc(', '''static bool IntLinkedList_appendItem(std::list<int> &target, PyObject *object) {
    const int converted = PyLong_AsLong(object);
    if (PyErr_Occurred() != nullptr) return false;
    target.emplace_back(converted);
    return true;
}

static __forceinline Py_ssize_t IntLinkedList_clampIndex(Py_ssize_t index, const Py_ssize_t size) {
    if (index < 0) {
        index += size;
        if (index < 0) index = 0;
    }
    return index > size ? size : index;
}

static void IntLinkedList_dealloc(''')),
('IntLinkedList_from_range', '''static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObject *args) {
    Py_ssize_t start, stop, step;

    if (!PyParse_EvalRange(args, start, stop, step)) {
        return nullptr;
    }

    auto *list = Py_CreateObj<IntLinkedList>(IntLinkedListType);
    if (list == nullptr) return PyErr_NoMemory();

    const bool isEmpty = step > 0 ? start >= stop : start <= stop;
    if (isEmpty) return reinterpret_cast<PyObject *>(list);

    try {
        size_t remaining;
        if (step > 0) {
            remaining = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
        } else {
            remaining = (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
        }

        auto value = static_cast<size_t>(start);
        while (remaining-- > 0) {
            list->list.push_back(static_cast<int>(value));
            value += static_cast<size_t>(step);
        }
    } catch (const std::exception &e) {
        SAFE_DECREF(list);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    return reinterpret_cast<PyObject *>(list);
}
'''),
('IntLinkedList_to_list', '''static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    PyObject *result = PyList_New(static_cast<Py_ssize_t>(self->list.size()));
    if (result == nullptr) return PyErr_NoMemory();

    Py_ssize_t i = 0;
    for (const int value: self->list) {
        PyObject *item = PyFast_FromInt(value);
        if (item == nullptr) {
            SAFE_DECREF(result);
            return nullptr;
        }
        PyList_SET_ITEM(result, i++, item);
    }

    return result;
}
'''),
('IntLinkedList_copy', '''static PyObject *IntLinkedList_copy(PyObject *pySelf) {
    auto *copy = Py_CreateObj<IntLinkedList>(IntLinkedListType);
    if (copy == nullptr) {
        return PyErr_NoMemory();
    }

    const auto &source = reinterpret_cast<IntLinkedList *>(pySelf)->list;
    try {
        copy->list.insert(copy->list.end(), source.begin(), source.end());
        return reinterpret_cast<PyObject *>(copy);
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    SAFE_DECREF(copy);
    return nullptr;
}
'''),
('IntLinkedList_append', '''static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    try {
        if (!IntLinkedList_appendItem(self->list, object)) return nullptr;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    ++self->modCount;
    Py_RETURN_NONE;
}
'''),
('IntLinkedList_pop', '''static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    auto &list = self->list;

    if (list.empty()) {
        PyErr_SetString(PyExc_IndexError, "pop from empty list");
        return nullptr;
    }
    if (nargs > 1) {
        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
        return nullptr;
    }

    auto iter = std::prev(list.end());
    if (nargs == 1) {
        Py_ssize_t index = PyLong_AsSsize_t(args[0]);
        if (PyErr_Occurred()) {
            return nullptr;
        }

        const auto size = static_cast<Py_ssize_t>(list.size());
        index = index < 0 ? index + size : index;
        if (static_cast<size_t>(index) >= static_cast<size_t>(size)) {
            PyErr_SetString(PyExc_IndexError, "index out of range");
            return nullptr;
        }
        iter = at(list, index);
    }

    const int popped = *iter;
    self->modCount++;
    list.erase(iter);
    return PyFast_FromInt(popped);
}
'''),
('IntLinkedList_index', '''static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    const auto size = static_cast<Py_ssize_t>(self->list.size());
    int value;
    Py_ssize_t start = 0;
    Py_ssize_t stop = size;

    if (!PyArg_ParseTuple(args, "i|nn", &value, &start, &stop)) {
        return nullptr;
    }

    if (start < 0) start = std::max(start + size, static_cast<Py_ssize_t>(0));
    stop = IntLinkedList_clampIndex(stop, size);

    if (start > stop) {
        PyErr_SetString(PyExc_ValueError, "start index cannot be greater than stop index.");
        return nullptr;
    }

    auto iter = at(self->list, start);
    for (Py_ssize_t i = start; i < stop; ++i, ++iter) {
        if (*iter == value) return PyLong_FromSsize_t(i);
    }

    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
('IntLinkedList_count', '''static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
    int value = PyLong_AsLong(object);
    if (value == -1 && PyErr_Occurred()) {
        return nullptr;
    }

    size_t result = 0;
    for (const auto &item: reinterpret_cast<IntLinkedList *>(pySelf)->list) {
        if (item == value) ++result;
    }
    return PyLong_FromSize_t(result);
}
'''),
('IntLinkedList_insert', '''static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
    Py_ssize_t index;
    int value;
    if (!PyArg_ParseTuple(args, "ni", &index, &value)) {
        return nullptr;
    }

    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    auto &list = self->list;
    index = IntLinkedList_clampIndex(index, static_cast<Py_ssize_t>(list.size()));

    try {
        if (index == static_cast<Py_ssize_t>(list.size())) {
            list.push_back(value);
        } else if (index == 0) {
            list.push_front(value);
        } else {
            list.emplace(at(list, index), value);
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    self->modCount++;
    Py_RETURN_NONE;
}
'''),
('IntLinkedList_remove', '''static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    const int value = PyLong_AsLong(object);
    if (PyErr_Occurred()) return nullptr;

    for (auto it = self->list.begin(); it != self->list.end(); ++it) {
        if (*it != value) continue;
        self->list.erase(it);
        self->modCount++;
        Py_RETURN_NONE;
    }

    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
('IntLinkedList_getitem_slice', '''static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice) {
    if (PyIndex_Check(slice)) {
        Py_ssize_t pyIndex = PyNumber_AsSsize_t(slice, PyExc_IndexError);
        if (pyIndex == -1 && PyErr_Occurred()) {
            return nullptr;
        }
        return IntLinkedList_getitem(pySelf, pyIndex);
    }
    if (!PySlice_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return nullptr;
    }

    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    Py_ssize_t start, stop, step;
    if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
        return nullptr;
    }

    const Py_ssize_t sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);

    PyObject *result = PyList_New(sliceLength);
    if (result == nullptr) return nullptr;

    Py_ssize_t index = start;
    for (Py_ssize_t i = 0; i < sliceLength; i++) {
        auto iter = at(self->list, static_cast<size_t>(index));
        index += step;
        PyObject *item = PyFast_FromInt(*iter);
        if (item == nullptr) {
            Py_DECREF(result);
            return nullptr;
        }
        PyList_SET_ITEM(result, i, item);
    }
    return result;
}
'''),
('IntLinkedList_setitem', '''static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *pyValue) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    const auto size = static_cast<Py_ssize_t>(self->list.size());
    const Py_ssize_t index = pyIndex < 0 ? pyIndex + size : pyIndex;
    if (index < 0 || index >= size) {
        PyErr_SetString(PyExc_IndexError, "index out of range.");
        return -1;
    }

    try {
        const auto iter = at(self->list, static_cast<size_t>(index));
        if (pyValue != nullptr) {
            int value = PyLong_AsLong(pyValue);
            if (PyErr_Occurred()) return -1;
            *iter = value;
            return 0;
        }
        self->list.erase(iter);
        ++self->modCount;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
    return 0;
}
'''),
('IntLinkedList_add', '''static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
    if (Py_TYPE(pyValue) != &IntLinkedListType) {
        // add -> list[int]
        PyObject *selfIntList = IntLinkedList_to_list(pySelf);
        if (selfIntList == nullptr) {
            return nullptr;
        }

        PyObject *concat = PySequence_Concat(selfIntList, pyValue);
        SAFE_DECREF(selfIntList);
        return concat;
    }

    auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }

    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
    try {
        result->list = self->list;
        for (const int v: value->list) {
            result->list.push_back(v);
        }
    } catch (const std::exception &e) {
        SAFE_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(result);
}
'''),
('IntLinkedList_mul', '''static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }

    if (n <= 0 || self->list.empty()) {
        return reinterpret_cast<PyObject *>(result);
    }

    try {
        if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
            SAFE_DECREF(result);
            return PyErr_NoMemory();
        }

        while (n > 0) {
            result->list.insert(result->list.cend(), self->list.cbegin(), self->list.cend());
            --n;
        }

        return reinterpret_cast<PyObject *>(result);
    } catch (const std::exception &e) {
        SAFE_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
'''),
('IntLinkedList_imul', '''static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    try {
        if (n <= 0) {
            self->list.clear();
        } else {
            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
                return PyErr_NoMemory();
            }

            std::list<int> items;
            if (!self->list.empty()) {
                for (Py_ssize_t left = n - 1; left > 0; --left) {
                    items.insert(items.end(), self->list.begin(), self->list.end());
                }
            }
            self->list.splice(self->list.end(), items);
        }
        self->modCount++;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }

    Py_INCREF(pySelf);
    return pySelf;
}
'''),
('IntLinkedList_contains', '''static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
    if (!PyLong_Check(key)) {
        return 0;
    }

    const int value = PyLong_AsLong(key);
    if (PyErr_Occurred()) {
        return -1;
    }

    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    for (const int item: self->list) {
        if (item == value) return 1;
    }
    return 0;
}
'''),
('IntLinkedList_eq', '''static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    if (!PySequence_Check(pyValue))
        Py_RETURN_FALSE;

    const Py_ssize_t seq_size = PySequence_Size(pyValue);
    if (seq_size < 0)
        return nullptr;
    if (static_cast<size_t>(seq_size) != self->list.size())
        Py_RETURN_FALSE;

    Py_ssize_t i = 0;
    for (const int self_value: self->list) {
        PyObject *item = PySequence_GetItem(pyValue, i++);
        if (item == nullptr)
            return nullptr;

        const int other_value = PyLong_AsLong(item);
        SAFE_DECREF(item);
        if (PyErr_Occurred()) {  // can't be convert to int
            PyErr_Clear();
            Py_RETURN_FALSE;
        }
        if (self_value != other_value)
            Py_RETURN_FALSE;
    }

    Py_RETURN_TRUE;
}
'''),
('IntLinkedList_lt', '''static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    if (!PySequence_Check(pyValue)) {
        Py_RETURN_FALSE;
    }

    const Py_ssize_t otherSize = PySequence_Size(pyValue);
    if (otherSize < 0) {
        return nullptr;
    }
    const auto selfSize = static_cast<Py_ssize_t>(self->list.size());

    auto iter = self->list.cbegin();
    Py_ssize_t i = 0;
    while (i < selfSize && i < otherSize) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) {
            return nullptr;
        }

        const int other_value = PyLong_AsLong(item);
        Py_DECREF(item);
        if (PyErr_Occurred()) return nullptr;
        if (*iter < other_value) Py_RETURN_TRUE;
        if (*iter > other_value) Py_RETURN_FALSE;
        ++i;
        ++iter;
    }

    Py_RETURN_BOOL(selfSize < otherSize)
}
'''),
('IntLinkedList_repr', '''static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    try {
        std::string str("[");
        bool first = true;
        for (const int value: self->list) {
            if (!first) str += ", ";
            first = false;
            str += std::to_string(value);
        }
        str.push_back(']');
        return PyUnicode_FromString(str.c_str());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
'''),
]}
