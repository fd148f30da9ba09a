R={'ints/IntArrayList.cpp':[('IntArrayList_repr','''
static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
    const auto &vec = reinterpret_cast<IntArrayList *>(pySelf)->vector;
    try {
        std::string str = "[";
        for (const int value: vec) {
            str += std::to_string(value) + ", ";
        }
        if (!vec.empty()) {
            str.pop_back();
            str.pop_back();
        }
        str += "]";
        return PyUnicode_FromString(str.c_str());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
''')],
'ints/IntLinkedList.cpp':[('IntLinkedList_repr','''
static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
    const auto &list = reinterpret_cast<IntLinkedList *>(pySelf)->list;
    try {
        std::string str("[");
        bool first = true;
        for (auto it = list.begin(); it != list.end(); ++it) {
            if (!first) str.append(", ");
            first = false;
            char buffer[16];
            str.append(buffer, snprintf(buffer, sizeof(buffer), "%d", *it));
        }
        str.push_back(']');
        return PyUnicode_FromString(str.c_str());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
}
''')],
'objects/ObjectArrayList.cpp':[('ObjectArrayList_repr','''
static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
    const auto &vec = reinterpret_cast<ObjectArrayList *>(pySelf)->vector;
    PyObject *result = PyUnicode_FromString("[");
    for (size_t i = 0; result != nullptr && i < vec.size(); i++) {
        if (i > 0) {
            PyUnicode_AppendAndDel(&result, PyUnicode_FromString(", "));
            if (result == nullptr) return nullptr;
        }
        PyUnicode_AppendAndDel(&result, PyObject_Repr(vec[i]));
    }
    if (result != nullptr) {
        PyUnicode_AppendAndDel(&result, PyUnicode_FromString("]"));
    }
    return result;
}
''')],
}
