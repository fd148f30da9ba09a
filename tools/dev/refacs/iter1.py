IAL='ints/IntArrayListIter.cpp'
ILL='ints/IntLinkedListIter.cpp'
OAL='objects/ObjectArrayListIter.cpp'
OLL='objects/ObjectLinkedListIter.cpp'
BAL='ints/BigIntArrayListIter.cpp'
R={IAL:[('IntArrayListIter_next','''
static PyObject *IntArrayListIter_next(PyObject *pySelf) {
    auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
    const auto &vector = self->container->vector;
    const size_t current = self->index;
    if (current >= vector.size()) {
        self->index = SIZE_MAX;
        PyErr_SetNone(PyExc_StopIteration);
        return nullptr;
    }
    self->index = self->reversed ? current - 1 : current + 1;
    return PyFast_FromInt(vector[current]);
}
'''),
(None,('''    if (reversed) {
        instance->index = list->vector.size() - 1;  // SIZE_MAX if there is nothing to iterate
        instance->reversed = true;
    } else {
        instance->index = 0;
        instance->reversed = false;
    }
''','''    instance->reversed = reversed;
    instance->index = reversed ? list->vector.size() - 1 : 0;
'''))],
BAL:[('BigIntArrayListIter_next','''
static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
    auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
    const size_t size = self->container->vector.size();
    const size_t step = self->reversed ? SIZE_MAX : 1;
    if (self->index < size) {
        const size_t i = self->index;
        self->index += step;
        return PyLong_FromLongLong(self->container->vector.at(i));
    }
    self->index = SIZE_MAX;
    return nullptr;
}
''')],
OAL:[('ObjectArrayListIter_next','''
static PyObject *nextForward(ObjectArrayListIter *self) {
    const size_t i = self->index;
    if (i >= self->container->vector.size()) return nullptr;
    self->index = i + 1;
    return self->container->vector[i];
}

static PyObject *nextBackward(ObjectArrayListIter *self) {
    const size_t i = self->index;
    if (i >= self->container->vector.size()) return nullptr;
    self->index = i - 1;
    return self->container->vector[i];
}

static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
    PyObject *element = self->reversed ? nextBackward(self) : nextForward(self);
    if (element == nullptr) {
        self->index = SIZE_MAX;
        PyErr_SetNone(PyExc_StopIteration);
        return nullptr;
    }
    Py_INCREF(element);
    return element;
}
''')],
OLL:[('ObjectLinkedListIter_next','''
static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
    auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
    auto &list = self->container->list;

    if (self->index >= list.size()) {
        self->index = SIZE_MAX;
        PyErr_SetNone(PyExc_StopIteration);
        return nullptr;
    }

    updateCache(self);
    PyObject *element = *self->cacheIter;
    Py_INCREF(element);

    if (!self->reversed) {
        ++self->index;
        ++self->cacheIter;
    } else if (self->index == 0) {
        self->index = SIZE_MAX;
    } else {
        --self->index;
        --self->cacheIter;
    }
    return element;
}
''')],
ILL:[('updateCache','''
static __forceinline void updateCache(IntLinkedListIter *&self) {
    const size_t modCount = self->container->modCount;
    if (self->cacheModCount != modCount) {
        self->cacheIter = at(self->container->list, self->index);
        self->cacheModCount = modCount;
    }
}
''') ],
'utils/Utils.h':[]}
