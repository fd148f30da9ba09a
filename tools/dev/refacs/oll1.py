F='objects/ObjectLinkedList.cpp'
N='ObjectLinkedList_'
R={F:[
(N+'to_list','''
static PyObject *ObjectLinkedList_to_list(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    PyObject *result = PyList_New(static_cast<Py_ssize_t>(self->list.size()));
    if (result == nullptr) return PyErr_NoMemory();
    Py_ssize_t i = 0;
    for (PyObject *item: self->list) {
        Py_INCREF(item);
        PyList_SET_ITEM(result, i++, item);
    }
    return result;
}
'''),
(N+'append','''
static PyObject *ObjectLinkedList_append(PyObject *pySelf, PyObject *object) {
    auto &list = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;
    Py_INCREF(object);
    try {
        list.push_back(object);
    } catch (const std::exception &e) {
        Py_DECREF(object);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    ++reinterpret_cast<ObjectLinkedList *>(pySelf)->modCount;
    Py_RETURN_NONE;
}
'''),
(N+'pop','''
static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);

    const auto size = static_cast<Py_ssize_t>(self->list.size());
    if (size == 0) {
        PyErr_SetString(PyExc_IndexError, "pop from empty list");
        return nullptr;
    }
    if (nargs > 1) {
        PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
        return nullptr;
    }
    Py_ssize_t index = size - 1;
    if (nargs == 1) {
        index = PyLong_AsSsize_t(args[0]);
        if (index == -1 && PyErr_Occurred()) return nullptr;
        index += index < 0 ? size : 0;
        if (static_cast<size_t>(index) >= static_cast<size_t>(size)) {
            PyErr_SetString(PyExc_IndexError, "index out of range");
            return nullptr;
        }
    }
    auto iter = at(self->list, static_cast<size_t>(index));
    PyObject *popped = *iter;
    self->modCount++;
    self->list.erase(iter);
    return popped;
}
'''),
(N+'find','''
static Py_ssize_t ObjectLinkedList_find(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
    auto iter = at(self->list, static_cast<size_t>(start));
    Py_ssize_t i = start;
    while (i < stop) {
        if (iter == self->list.end()) break;
        const int cmp = PyObject_RichCompareBool(*iter++, value, Py_EQ);
        if (cmp != 0) return cmp < 0 ? -2 : i;
        i++;
    }
    return -1;
}
'''),
(N+'index','''
static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);

    PyObject *value;
    const auto size = static_cast<Py_ssize_t>(self->list.size());
    Py_ssize_t start = 0;
    Py_ssize_t stop = size;

    if (!PyArg_ParseTuple(args, "O|nn", &value, &start, &stop)) {
        return nullptr;
    }
    if (start < 0) start = std::max<Py_ssize_t>(start + size, 0);
    if (stop < 0) stop = std::max<Py_ssize_t>(stop + size, 0);
    stop = std::min(stop, size);
    if (start <= stop) {
        const Py_ssize_t index = ObjectLinkedList_find(self, value, start, stop);
        if (index >= 0) return PyLong_FromSsize_t(index);
        if (index == -2) return nullptr;
    }
    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
(N+'count','''
static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    Py_ssize_t result = 0;
    for (auto it = self->list.cbegin(); it != self->list.cend(); ++it) {
        const int cmp = PyObject_RichCompareBool(*it, object, Py_EQ);
        if (cmp < 0) return nullptr;
        result += cmp;
    }
    return PyLong_FromSsize_t(result);
}
'''),
(N+'insert','''
static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);

    Py_ssize_t index;
    PyObject *value;
    if (!PyArg_ParseTuple(args, "nO", &index, &value)) {
        return nullptr;
    }
    const auto size = static_cast<Py_ssize_t>(self->list.size());
    if (index < 0) {
        index += size;
        if (index < 0) index = 0;
    }
    if (index > size) index = size;
    try {
        auto pos = at(self->list, static_cast<size_t>(index));
        self->list.insert(pos, value);
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    self->modCount++;
    Py_INCREF(value);
    Py_RETURN_NONE;
}
'''),
(N+'remove','''
static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    for (auto it = self->list.begin(); it != self->list.end(); ++it) {
        PyObject *element = *it;
        const int cmp = PyObject_RichCompareBool(element, object, Py_EQ);
        if (cmp < 0) return nullptr;
        if (cmp == 0) continue;
        self->list.erase(it);
        self->modCount++;
        Py_DECREF(element);
        Py_RETURN_NONE;
    }
    PyErr_SetString(PyExc_ValueError, "Value is not in list.");
    return nullptr;
}
'''),
(N+'sort','''
static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *kwargs) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);

    PyObject *keyFunc = nullptr;
    int reverseInt = 0;
    static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
        return nullptr;
    }
    if (keyFunc == Py_None) keyFunc = nullptr;

    std::list<PyObject *> items;
    const auto n = self->list.size();
    auto **data = static_cast<PyObject **>(PyMem_Malloc(n * sizeof(PyObject *)));
    if (data == nullptr) return PyErr_NoMemory();
    self->list.swap(items);
    self->modCount++;
    size_t i = 0;
    for (PyObject *item: items) data[i++] = item;
    PyObject *result = CPython_sort(data, static_cast<Py_ssize_t>(n), keyFunc, reverseInt);
    i = 0;
    for (PyObject *&item: items) item = data[i++];
    PyMem_FREE(data);
    self->list.swap(items);
    self->modCount++;
    if (items.empty()) return result;
    if (result != nullptr) {
        Py_DECREF(result);
        result = nullptr;
        PyErr_SetString(PyExc_ValueError, "list modified during sort");
    }
    for (PyObject *item: items) {
        Py_DECREF(item);
    }
    return result;
}
'''),
(N+'getitem_slice','''
static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice) {
    if (PySlice_Check(slice)) {
        auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
        Py_ssize_t start, stop, step;
        if (PySlice_Unpack(slice, &start, &stop, &step) < 0) return nullptr;
        const Py_ssize_t n = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
        PyObject *result = PyList_New(n);
        if (result == nullptr) return nullptr;
        Py_ssize_t pos = start;
        for (Py_ssize_t i = 0; i < n; i++, pos += step) {
            PyObject *item = *at(self->list, static_cast<size_t>(pos));
            PyList_SET_ITEM(result, i, Py_NewRef(item));
        }
        return result;
    }
    if (!PyIndex_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return nullptr;
    }
    const Py_ssize_t pyIndex = PyNumber_AsSsize_t(slice, PyExc_IndexError);
    if (pyIndex == -1 && PyErr_Occurred()) return nullptr;
    return ObjectLinkedList_getitem(pySelf, pyIndex);
}
'''),
(N+'add','''
static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
    if (Py_TYPE(pyValue) != &ObjectLinkedListType) {
        PyObject *asList = ObjectLinkedList_to_list(pySelf);
        if (asList == nullptr) return nullptr;
        PyObject *sum = PySequence_Concat(asList, pyValue);
        Py_DECREF(asList);
        return sum;
    }
    auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
    if (result == nullptr) return PyErr_NoMemory();
    try {
        for (PyObject *item: reinterpret_cast<ObjectLinkedList *>(pySelf)->list) {
            result->list.push_back(item);
            Py_INCREF(item);
        }
        for (PyObject *item: reinterpret_cast<ObjectLinkedList *>(pyValue)->list) {
            result->list.push_back(item);
            Py_INCREF(item);
        }
    } catch (const std::exception &e) {
        Py_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(result);
}
'''),
(N+'clear','''
static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    std::list<PyObject *> old = std::move(self->list);
    self->list.clear();
    self->modCount++;
    for (auto it = old.begin(); it != old.end(); ++it) {
        Py_DECREF(*it);
    }
    Py_RETURN_NONE;
}
'''),
(N+'contains','''
static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    int cmp = 0;
    for (auto it = self->list.begin(); cmp == 0 && it != self->list.end(); ++it) {
        cmp = PyObject_RichCompareBool(*it, key, Py_EQ);
    }
    return cmp;
}
'''),
(N+'ne','''
static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
    PyObject *equal = ObjectLinkedList_eq(pySelf, pyValue);
    if (equal == nullptr) return nullptr;
    const bool differs = equal == Py_False;
    Py_DECREF(equal);
    Py_RETURN_BOOL(differs)
}
'''),
(N+'repr','''
static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    PyObject *text = PyUnicode_FromString("[");
    bool first = true;
    for (PyObject *item: self->list) {
        if (text == nullptr) return nullptr;
        if (!first) {
            PyUnicode_AppendAndDel(&text, PyUnicode_FromString(", "));
            if (text == nullptr) return nullptr;
        }
        first = false;
        PyObject *r = PyObject_Repr(item);
        if (r == nullptr) {
            Py_DECREF(text);
            return nullptr;
        }
        PyUnicode_AppendAndDel(&text, r);
    }
    if (text == nullptr) return nullptr;
    PyUnicode_AppendAndDel(&text, PyUnicode_FromString("]"));
    return text;
}
'''),
(N+'imul','''
static PyObject *ObjectLinkedList_clear(PyObject *pySelf);

static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    if (n <= 0) {
        PyObject *none = ObjectLinkedList_clear(pySelf);
        if (none == nullptr) return nullptr;
        Py_DECREF(none);
        Py_INCREF(pySelf);
        return pySelf;
    }
    if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
        return PyErr_NoMemory();
    }
    try {
        std::list<PyObject *> extra;
        if (!self->list.empty()) {
            while (--n > 0) {
                extra.insert(extra.end(), self->list.cbegin(), self->list.cend());
            }
        }
        for (PyObject *item: extra) {
            Py_INCREF(item);
        }
        self->modCount++;
        self->list.splice(self->list.end(), extra);
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    Py_INCREF(pySelf);
    return pySelf;
}
'''),
]}
