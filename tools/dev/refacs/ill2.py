F='ints/IntLinkedList.cpp'
N='IntLinkedList_'
R={F:[
(N+'init','''
static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
    new(&self->list) std::list<int>();
    self->modCount = 0;

    PyObject *source = nullptr;
    static constexpr const char *kwlist[] = {"iterable", nullptr};
    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|O", const_cast<char **>(kwlist), &source)) {
        return -1;
    }
    if (source == nullptr) {
        return 0;
    }

    PyObject *iter = nullptr;
    try {
        if (Py_TYPE(source) == &IntLinkedListType) {
            for (int value: reinterpret_cast<IntLinkedList *>(source)->list) {
                self->list.push_back(value);
            }
            return 0;
        }
        iter = PyObject_GetIter(source);
        if (iter == nullptr) {
            PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
            return -1;
        }
        while (true) {
            PyObject *item = PyIter_Next(iter);
            if (item == nullptr) break;
            const long value = PyLong_AsLong(item);
            Py_DECREF(item);
            if (value == -1 && PyErr_Occurred()) {
                Py_DECREF(iter);
                PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                return -1;
            }
            self->list.push_back(static_cast<int>(value));
        }
    } catch (const std::exception &e) {
        Py_XDECREF(iter);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }
    Py_DECREF(iter);
    return PyErr_Occurred() ? -1 : 0;
}
'''),
(N+'extend','''
static PyObject *extendWith(IntLinkedList *self, PyObject *iterable) {
    PyObject *iter = PyObject_GetIter(iterable);
    if (iter == nullptr) return nullptr;

    bool failed = false;
    while (PyObject *item = PyIter_Next(iter)) {
        const int value = static_cast<int>(PyLong_AsLong(item));
        Py_DECREF(item);
        if (PyErr_Occurred()) {
            failed = true;
            break;
        }
        try {
            self->list.push_back(value);
        } catch (const std::exception &e) {
            PyErr_SetString(PyExc_RuntimeError, e.what());
            failed = true;
            break;
        }
        ++self->modCount;
    }
    Py_DECREF(iter);
    if (failed || PyErr_Occurred()) return nullptr;
    Py_RETURN_NONE;
}

static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    if (nargs != 1) {
        PyErr_SetString(PyExc_TypeError, "extend() takes exactly one argument");
        return nullptr;
    }
    if (Py_TYPE(args[0]) != &IntLinkedListType) {
        return extendWith(self, args[0]);
    }
    try {
        std::list<int> copy = reinterpret_cast<IntLinkedList *>(args[0])->list;
        self->list.splice(self->list.end(), std::move(copy));
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    ++self->modCount;
    Py_RETURN_NONE;
}
'''),
(N+'sort','''
static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *kwargs) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);

    PyObject *keyFunc = Py_None;
    int reverseInt = 0;  // default: false
    static constexpr const char *kwlist[] = {"key", "reverse", nullptr};

    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
        return nullptr;
    }

    if (keyFunc == Py_None) {
        if (reverseInt) {
            self->list.sort(std::greater<int>());
        } else {
            self->list.sort(std::less<int>());
        }
        self->modCount++;
        Py_RETURN_NONE;
    }

    const size_t count = self->list.size();
    auto **boxes = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * count));
    if (boxes == nullptr) {
        return PyErr_NoMemory();
    }

    size_t used = 0;
    for (const int value: self->list) {
        PyObject *box = PyLong_FromLong(value);
        if (box == nullptr) {
            for (size_t i = 0; i < used; i++) {
                Py_DECREF(boxes[i]);
            }
            PyMem_FREE(boxes);
            return nullptr;
        }
        boxes[used++] = box;
    }

    PyObject *sorted = CPython_sort(boxes, static_cast<Py_ssize_t>(count), keyFunc, reverseInt);
    if (sorted != nullptr && self->list.size() != count) {
        PyErr_SetString(PyExc_ValueError, "list modified during sort");
        Py_DECREF(sorted);
        sorted = nullptr;
    }
    if (sorted != nullptr) {
        size_t i = 0;
        for (int &slot: self->list) {
            slot = PyFast_AsInt(boxes[i++]);
        }
        self->modCount++;
    }
    for (size_t i = 0; i < count; i++) {
        Py_DECREF(boxes[i]);
    }
    PyMem_FREE(boxes);
    return sorted;
}
'''),
(N+'getitem','''
static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
    auto &list = reinterpret_cast<IntLinkedList *>(pySelf)->list;
    const auto size = static_cast<Py_ssize_t>(list.size());
    if (pyIndex < 0) pyIndex += size;
    if (static_cast<size_t>(pyIndex) >= list.size()) {
        PyErr_SetString(PyExc_IndexError, "index out of range.");
        return nullptr;
    }
    if (pyIndex == size - 1) {
        return PyLong_FromLong(list.back());
    }
    return PyLong_FromLong(*std::next(list.begin(), pyIndex));
}
'''),
(N+'reverse','''
static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    self->list.reverse();
    self->modCount++;
    Py_RETURN_NONE;
}
'''),
(N+'clear','''
static PyObject *IntLinkedList_clear(PyObject *pySelf) {
    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
    while (!self->list.empty()) {
        self->list.pop_front();
    }
    self->modCount++;
    Py_RETURN_NONE;
}
'''),
(None,('''        auto first = at(self->list, static_cast<size_t>(start));
        auto last = at(self->list, static_cast<size_t>(start + sliceLength));
        self->list.splice(first, items);
        self->list.erase(first, last);
''','''        auto pos = at(self->list, static_cast<size_t>(start));
        for (Py_ssize_t i = 0; i < sliceLength; ++i) {
            pos = self->list.erase(pos);
        }
        self->list.splice(pos, items);
''')),
]}
