F='objects/ObjectLinkedList.cpp'
N='ObjectLinkedList_'
def cmp(name, op, sz):
    return (N+name, '''
static __forceinline PyObject *ObjectLinkedList_%s(PyObject *pySelf, PyObject *pyValue) {
    const auto &list = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;
    if (!PySequence_Check(pyValue)) {
        return Py_NewRef(Py_False);
    }
    const Py_ssize_t otherSize = PySequence_Size(pyValue);
    if (otherSize < 0) return nullptr;

    Py_ssize_t i = 0;
    for (auto node = list.begin(); node != list.end() && i < otherSize; ++node, ++i) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) return nullptr;
        const int equal = PyObject_RichCompareBool(*node, item, Py_EQ);
        int decided = -1;
        if (equal == 0) {
            decided = PyObject_RichCompareBool(*node, item, %s);
        }
        Py_DECREF(item);
        if (equal == 1) continue;
        if (equal < 0 || decided < 0) return nullptr;
        return PyBool_FromLong(decided);
    }
    return PyBool_FromLong(static_cast<Py_ssize_t>(list.size()) %s otherSize);
}
''' % (name, op, sz))
R={F:[
(N+'init','''
static bool takeAll(std::list<PyObject *> &list, PyObject *iter) {
    PyObject *item = PyIter_Next(iter);
    while (item != nullptr) {
        try {
            list.push_back(item);
        } catch (const std::exception &e) {
            Py_DECREF(item);
            PyErr_SetString(PyExc_RuntimeError, e.what());
            return false;
        }
        item = PyIter_Next(iter);
    }
    return PyErr_Occurred() == nullptr;
}

static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
    new(&self->list) std::list<PyObject *>();
    self->modCount = 0;

    PyObject *pyIterable = nullptr;
    static constexpr const char *kwlist[] = {"iterable", nullptr};
    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|O", const_cast<char **>(kwlist), &pyIterable)) {
        return -1;
    }
    if (pyIterable == nullptr) {
        return 0;
    }

    try {
        if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {
            for (PyObject *element: reinterpret_cast<ObjectLinkedList *>(pyIterable)->list) {
                self->list.push_back(element);
                Py_INCREF(element);
            }
            return 0;
        }
        if (PyList_Check(pyIterable)) {
            for (Py_ssize_t i = 0; i < PyList_GET_SIZE(pyIterable); ++i) {
                PyObject *element = PyList_GET_ITEM(pyIterable, i);
                self->list.push_back(element);
                Py_INCREF(element);
            }
            return 0;
        }
        if (PyTuple_Check(pyIterable)) {
            const Py_ssize_t size = PyTuple_GET_SIZE(pyIterable);
            for (Py_ssize_t i = 0; i < size; ++i) {
                PyObject *element = PyTuple_GET_ITEM(pyIterable, i);
                self->list.push_back(element);
                Py_INCREF(element);
            }
            return 0;
        }
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return -1;
    }

    PyObject *iter = PyObject_GetIter(pyIterable);
    if (iter == nullptr) {
        PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
        return -1;
    }
    const bool ok = takeAll(self->list, iter);
    Py_DECREF(iter);
    return ok ? 0 : -1;
}
'''),
(N+'extend','''
static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args, const Py_ssize_t nargs) {
    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);

    if (nargs != 1) {
        PyErr_SetString(PyExc_TypeError, "extend() takes exactly one argument");
        return nullptr;
    }

    PyObject *iterable = args[0];

    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
        const auto &other = reinterpret_cast<ObjectLinkedList *>(iterable)->list;
        size_t remaining = other.size();
        self->modCount++;
        try {
            for (auto node = other.begin(); remaining > 0; ++node, --remaining) {
                self->list.push_back(*node);
                Py_INCREF(*node);
            }
        } catch (const std::exception &e) {
            PyErr_SetString(PyExc_RuntimeError, e.what());
            return nullptr;
        }
        Py_RETURN_NONE;
    }

    PyObject *iter = PyObject_GetIter(iterable);
    if (iter == nullptr) {
        return nullptr;
    }
    bool ok = true;
    for (PyObject *item = PyIter_Next(iter); item != nullptr; item = ok ? PyIter_Next(iter) : nullptr) {
        try {
            self->list.emplace_back(item);
            ++self->modCount;
        } catch (const std::exception &e) {
            Py_DECREF(item);
            PyErr_SetString(PyExc_RuntimeError, e.what());
            ok = false;
        }
    }
    Py_DECREF(iter);
    if (PyErr_Occurred()) return nullptr;
    Py_RETURN_NONE;
}
'''),
(N+'mul','''
static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
    const auto &list = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;

    auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
    if (result == nullptr) {
        return PyErr_NoMemory();
    }
    if (n <= 0 || list.empty()) {
        return reinterpret_cast<PyObject *>(result);
    }

    try {
        if (list.size() > list.max_size() / static_cast<size_t>(n)) {
            Py_DECREF(result);
            return PyErr_NoMemory();
        }
        while (n-- > 0) {
            for (auto node = list.cbegin(); node != list.cend(); ++node) {
                result->list.push_back(*node);
                Py_INCREF(*node);
            }
        }
    } catch (const std::exception &e) {
        Py_DECREF(result);
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    return reinterpret_cast<PyObject *>(result);
}
'''),
(N+'setitem_slice','''
static void releaseAll(std::list<PyObject *> &items) {
    while (!items.empty()) {
        PyObject *item = items.front();
        items.pop_front();
        Py_DECREF(item);
    }
}

static bool collect(PyObject *value, std::list<PyObject *> &items) {
    if (!PySequence_Check(value)) {
        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
        return false;
    }
    const Py_ssize_t length = PySequence_Size(value);
    for (Py_ssize_t i = 0; i < length; i++) {
        PyObject *item = PySequence_GetItem(value, i);
        if (item == nullptr) {
            return false;
        }
        try {
            items.push_back(item);
        } catch (const std::exception &e) {
            Py_DECREF(item);
            PyErr_SetString(PyExc_RuntimeError, e.what());
            return false;
        }
    }
    return length >= 0;
}

static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObject *value) {
    if (PyIndex_Check(slice)) {
        const Py_ssize_t index = PyNumber_AsSsize_t(slice, PyExc_IndexError);
        if (index == -1 && PyErr_Occurred()) {
            return -1;
        }
        return ObjectLinkedList_setitem(pySelf, index, value);
    }
    if (!PySlice_Check(slice)) {
        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
        return -1;
    }

    Py_ssize_t start, stop, step;
    if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
        return -1;
    }
    if (step != 1) {
        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
        return -1;
    }

    std::list<PyObject *> items;
    if (value != nullptr && !collect(value, items)) {
        releaseAll(items);
        return -1;
    }

    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
    auto &list = self->list;
    const Py_ssize_t count = PySlice_AdjustIndices(static_cast<Py_ssize_t>(list.size()), &start, &stop, step);
    self->modCount += 1;
    std::list<PyObject *> old;
    auto last = at(list, static_cast<size_t>(start + count));
    if (count > 0) {
        old.splice(old.begin(), list, at(list, static_cast<size_t>(start)), last);
    }
    list.splice(last, items);
    releaseAll(old);
    return 0;
}
'''),
cmp('lt','Py_LT','<'), cmp('gt','Py_GT','>'), cmp('le','Py_LE','<='), cmp('ge','Py_GE','>='),
(N+'eq','''
static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
    const auto &list = reinterpret_cast<ObjectLinkedList *>(pySelf)->list;
    if (!PySequence_Check(pyValue)) {
        Py_RETURN_FALSE;
    }
    const Py_ssize_t size = PySequence_Size(pyValue);
    if (size < 0) return nullptr;
    int same = size == static_cast<Py_ssize_t>(list.size()) ? 1 : 0;
    auto node = list.begin();
    for (Py_ssize_t i = 0; same == 1 && i < size; ++i) {
        PyObject *item = PySequence_GetItem(pyValue, i);
        if (item == nullptr) return nullptr;
        same = PyObject_RichCompareBool(*node++, item, Py_EQ);
        Py_DECREF(item);
    }
    if (same < 0) return nullptr;
    return Py_NewRef(same ? Py_True : Py_False);
}
'''),
]}
