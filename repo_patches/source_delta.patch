From 9026cd6e957b599e58a0c61ba82e5dd2ea57ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 01/71] fix: PyFast_FromInt builds a malformed int for 0,
 INT_MIN and values needing more than one digit

---
 pyfastutil/src/utils/PythonUtils.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..51df10e 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -147,11 +147,7 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From 1f5d7e9ff506802bda5e64731b560ca394c3a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 02/71] fix: int list + int list drops the left operand and
 fails

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 5 ++++-
 pyfastutil/src/ints/IntArrayList.cpp    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..fa76e92 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -706,12 +706,15 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> BigIntArrayList
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..e9905a8 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -704,12 +704,15 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntArrayList
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            auto *self = reinterpret_cast<IntArrayList *>(pySelf);
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
-- 
2.43.0


From b52fb1078848a11e307c4e8655975b3112d39d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 03/71] fix: extend and += of int lists: return self, tolerate
 self as argument, report allocation and length-hint errors

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 85 ++++++++++---------------
 pyfastutil/src/ints/IntArrayList.cpp    | 85 ++++++++++---------------
 2 files changed, 70 insertions(+), 100 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index fa76e92..7dffd19 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -250,7 +250,16 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // resize first: iterable may be self
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + static_cast<Py_ssize_t>(selfSize));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -262,22 +271,33 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -741,47 +761,12 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
-        auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = BigIntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index e9905a8..7745667 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -250,7 +250,16 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            // resize first: iterable may be self
+            const auto selfSize = self->vector.size();
+            const auto iterSize = iter->vector.size();
+            self->vector.resize(selfSize + iterSize);
+            std::copy_n(iter->vector.begin(), iterSize, self->vector.begin() + static_cast<Py_ssize_t>(selfSize));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -262,22 +271,33 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -739,47 +759,12 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
-        auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
-- 
2.43.0


From dd9145a48bbb32a5e24de30bf30cc41c5cebf4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 04/71] fix: repetition of int lists: misaligned and out of
 bounds copies, exceptions without the GIL, size overflow

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 31 ++++++++++++-------------
 pyfastutil/src/ints/IntArrayList.cpp    | 31 ++++++++++++-------------
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7dffd19..7579bbe 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -790,13 +790,15 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * static_cast<size_t>(n));
+        for (size_t i = 0; selfSize > 0 && i < static_cast<size_t>(n); ++i) {
+            std::copy_n(self->vector.data(), selfSize, result->vector.data() + selfSize * i);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -832,17 +834,14 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * static_cast<size_t>(n));
+            for (size_t i = 1; selfSize > 0 && i < static_cast<size_t>(n); ++i) {
+                std::copy_n(self->vector.data(), selfSize, self->vector.data() + selfSize * i);
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 7745667..4349d16 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -788,13 +788,15 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * static_cast<size_t>(n));
+        for (size_t i = 0; selfSize > 0 && i < static_cast<size_t>(n); ++i) {
+            std::copy_n(self->vector.data(), selfSize, result->vector.data() + selfSize * i);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -830,17 +832,14 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
-            Py_BEGIN_ALLOW_THREADS
-                self->vector.resize(selfSize * n);
-                for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
-                            self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
-                            selfSize
-                    );
-                }
-            Py_END_ALLOW_THREADS
+            self->vector.resize(selfSize * static_cast<size_t>(n));
+            for (size_t i = 1; selfSize > 0 && i < static_cast<size_t>(n); ++i) {
+                std::copy_n(self->vector.data(), selfSize, self->vector.data() + selfSize * i);
+            }
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From 8ce418f82c7caf38bb5f0b594d3fd764e7b57011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 05/71] fix: from_range of int lists: negative steps drop
 elements, overflow for large steps, wrong destruction on error

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 13 ++++++-------
 pyfastutil/src/ints/IntArrayList.cpp    | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 7579bbe..0521205 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -131,25 +131,24 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1);
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->vector[idx] = static_cast<long long>(current);
-            current += step;
+            list->vector[idx] = static_cast<long long>(start + idx * step);
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 4349d16..2bfcde3 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -131,25 +131,24 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1);
         }
 
         list->vector.resize(elements);
 
-        Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->vector[idx] = static_cast<int>(current);
-            current += step;
+            list->vector[idx] = static_cast<int>(start + idx * step);
         }
 
     } catch (const std::exception &e) {
-        list->vector.~vector();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From a5ea74165a06378ad7fbadb44c84677f85181b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 06/71] fix: copy of int lists: release the copy through its
 destructor on error

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 2 +-
 pyfastutil/src/ints/IntArrayList.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 0521205..c32d16d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -209,7 +209,7 @@ static PyObject *BigIntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 2bfcde3..d18ac22 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -209,7 +209,7 @@ static PyObject *IntArrayList_copy(PyObject *pySelf) {
     try {
         copy->vector = self->vector;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From c2582b418cd1efdbdbd66e86a1665e8a97da35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 07/71] fix: int list constructors: report invalid arguments,
 release the iterator on allocation failure

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 13 ++++++++++---
 pyfastutil/src/ints/IntArrayList.cpp    | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index c32d16d..1716da6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -46,8 +46,13 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
     Py_ssize_t pySize = -1;
 
     parseArgs(args, kwargs, pyIterable, pySize);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *fastKeys = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -61,7 +66,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -81,7 +86,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
@@ -96,13 +101,15 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(iter);
+        Py_XDECREF(fastKeys);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index d18ac22..372a976 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -46,8 +46,13 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
     Py_ssize_t pySize = -1;
 
     parseArgs(args, kwargs, pyIterable, pySize);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *fastKeys = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -61,7 +66,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -81,7 +86,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
@@ -96,13 +101,15 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(iter);
+        Py_XDECREF(fastKeys);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 7258fa5e6e6220be2777207dddfa2151654c622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 08/71] fix: index of int lists: a stop below -len scans before
 the storage

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 3 +++
 pyfastutil/src/ints/IntArrayList.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 1716da6..a365a8b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -378,6 +378,9 @@ static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
     if (start < 0) {
         start = 0;
     }
+    if (stop < 0) {
+        stop = 0;
+    }
     if (stop > static_cast<Py_ssize_t>(self->vector.size())) {
         stop = static_cast<Py_ssize_t>(self->vector.size());
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 372a976..86a99c2 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -381,6 +381,9 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
     if (start < 0) {
         start = 0;
     }
+    if (stop < 0) {
+        stop = 0;
+    }
     if (stop > static_cast<Py_ssize_t>(self->vector.size())) {
         stop = static_cast<Py_ssize_t>(self->vector.size());
     }
-- 
2.43.0


From 658b2abf36dc7f844014f54ee0dbcaf4b3448cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 09/71] fix: int list subscripts that are neither integers nor
 slices raise TypeError

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 8 ++++++++
 pyfastutil/src/ints/IntArrayList.cpp    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index a365a8b..e4d37ca 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -569,6 +569,10 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         }
         return BigIntArrayList_getitem(pySelf, pyIndex);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return nullptr;
+    }
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
@@ -636,6 +640,10 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         }
         return BigIntArrayList_setitem(pySelf, index, value);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return -1;
+    }
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 86a99c2..0ff4668 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -567,6 +567,10 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
         }
         return IntArrayList_getitem(pySelf, pyIndex);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return nullptr;
+    }
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
@@ -634,6 +638,10 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         }
         return IntArrayList_setitem(pySelf, index, value);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return -1;
+    }
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-- 
2.43.0


From b37d35de422300dbe70f1705ece7370e4596b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 10/71] fix: slice assignment of int lists: deletion, reversed
 ranges, length errors and invalid items

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 81 +++++++++----------------
 pyfastutil/src/ints/IntArrayList.cpp    | 79 +++++++++---------------
 2 files changed, 55 insertions(+), 105 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e4d37ca..afe4b4a 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -652,15 +652,6 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
@@ -668,69 +659,53 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        // convert all the items first, so an invalid item leaves the list unchanged
+        std::vector<long long, AlignedAllocator<long long, 64>> items;
+        Py_ssize_t newLength = 0;
+        if (value != nullptr) {
+            if (!PySequence_Check(value)) {
+                PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+                return -1;
+            }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            newLength = PySequence_Size(value);
+            if (newLength < 0) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
+
+            items.reserve(static_cast<size_t>(newLength));
             for (Py_ssize_t i = 0; i < newLength; i++) {
                 item = PySequence_GetItem(value, i);
                 if (item == nullptr) {
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
+                long long itemValue = PyLong_AsLongLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
                 }
+                items.push_back(itemValue);
             }
+        }
 
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (newLength <= sliceLength) {  // less elements
+            std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                self->vector.begin() + start + newLength,
+                self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                items.begin() + sliceLength,
+                items.end()
+            );
+            std::copy(items.begin(), items.begin() + sliceLength, self->vector.begin() + start);
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 0ff4668..128b44d 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -650,15 +650,6 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
@@ -666,69 +657,53 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
     PyObject *item = nullptr;
     try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        // convert all the items first, so an invalid item leaves the list unchanged
+        std::vector<int, AlignedAllocator<int, 64>> items;
+        Py_ssize_t newLength = 0;
+        if (value != nullptr) {
+            if (!PySequence_Check(value)) {
+                PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+                return -1;
+            }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+            newLength = PySequence_Size(value);
+            if (newLength < 0) {
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
+
+            items.reserve(static_cast<size_t>(newLength));
             for (Py_ssize_t i = 0; i < newLength; i++) {
                 item = PySequence_GetItem(value, i);
                 if (item == nullptr) {
                     return -1;
                 }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
+                int itemValue = PyLong_AsLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
                 }
+                items.push_back(itemValue);
             }
+        }
 
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (newLength <= sliceLength) {  // less elements
+            std::copy(items.begin(), items.end(), self->vector.begin() + start);
             self->vector.erase(
                 self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
+                self->vector.begin() + start + sliceLength
             );
         } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+            self->vector.insert(
+                self->vector.begin() + start + sliceLength,
+                items.begin() + sliceLength,
+                items.end()
+            );
+            std::copy(items.begin(), items.begin() + sliceLength, self->vector.begin() + start);
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From d9920e22b17f9fd609a9d6417b1db7e783e12301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 11/71] fix: int list comparisons: propagate errors, leave no
 exception pending

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 11 +++++++++++
 pyfastutil/src/ints/IntArrayList.cpp    | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index afe4b4a..11012ad 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -911,6 +911,7 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -921,6 +922,7 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
         long long other_value = PyLong_AsLongLong(item);
         if (PyErr_Occurred()) {  // can't be converted to int
             SAFE_DECREF(item);
+            PyErr_Clear();
             Py_RETURN_FALSE;
         }
         SAFE_DECREF(item);
@@ -933,6 +935,7 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -961,6 +964,7 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -969,6 +973,7 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
         long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -993,6 +998,7 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -1001,6 +1007,7 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
         long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1025,6 +1032,7 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -1033,6 +1041,7 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
         long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1057,6 +1066,7 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -1065,6 +1075,7 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
         long long self_value = self->vector[i];
         long long other_value = PyLong_AsLongLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 128b44d..9f9ba5b 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -909,6 +909,7 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
     // for others
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -919,6 +920,7 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
         int other_value = PyLong_AsLong(item);
         if (PyErr_Occurred()) {  // can't be converted to int
             SAFE_DECREF(item);
+            PyErr_Clear();
             Py_RETURN_FALSE;
         }
         SAFE_DECREF(item);
@@ -931,6 +933,7 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -959,6 +962,7 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -967,6 +971,7 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
         int self_value = self->vector[i];
         int other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
     Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
@@ -991,6 +996,7 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -999,6 +1005,7 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
         int self_value = self->vector[i];
         int other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
@@ -1023,6 +1030,7 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -1031,6 +1039,7 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
         int self_value = self->vector[i];
         int other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
     Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
@@ -1055,6 +1064,7 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
 
     for (Py_ssize_t i = 0; i < min_size; i++) {
@@ -1063,6 +1073,7 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
         int self_value = self->vector[i];
         int other_value = PyLong_AsLong(item);
         Py_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
     Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
-- 
2.43.0


From c6ad2e9d482ae0cf2182d884bcb7ffaa2547de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 12/71] fix: int list buffers keep their list alive

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 11012ad..460679e 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1147,6 +1147,8 @@ static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
+    view->obj = pySelf;
+    Py_INCREF(pySelf);
     view->format = const_cast<char *>("q");
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 9f9ba5b..2ee023f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1145,6 +1145,8 @@ static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_un
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
+    view->obj = pySelf;
+    Py_INCREF(pySelf);
     view->format = const_cast<char *>("i");
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
-- 
2.43.0


From bf104541b8255f873d8379998e81003fff2f0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 13/71] fix: sorting int lists of eight or more elements loses
 and duplicates elements

---
 pyfastutil/src/PyFastUtil.cpp             |   1 -
 pyfastutil/src/utils/simd/BitonicSort.cpp | 595 +---------------------
 pyfastutil/src/utils/simd/BitonicSort.h   |   2 -
 3 files changed, 3 insertions(+), 595 deletions(-)

diff --git a/pyfastutil/src/PyFastUtil.cpp b/pyfastutil/src/PyFastUtil.cpp
index 8677f81..a2825e0 100644
--- a/pyfastutil/src/PyFastUtil.cpp
+++ b/pyfastutil/src/PyFastUtil.cpp
@@ -32,7 +32,6 @@ static struct PyModuleDef pyfastutilModule = {
 #pragma ide diagnostic ignored "bugprone-reserved-identifier"
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit___pyfastutil() {
-    simd::initBitonicSort();
 
     PyObject *parent = PyModule_Create(&pyfastutilModule);
     if (parent == nullptr)
diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..f2e803c 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -5,449 +5,15 @@
 
 #include <vector>
 #include <algorithm>
-
-#if !defined(__arm__) && !defined(__arm64__)
-
-#include <immintrin.h>
-#include "utils/simd/SIMDUtils.h"
-
-#endif
+#include <functional>
 
 #include <utils/PythonPCH.h>
-#include "SIMDHelper.h"
 #include "utils/include/TimSort.h"
 #include "utils/memory/AlignedAllocator.h"
-#include "utils/memory/PreFetch.h"
-
-template<typename T>
-concept IntOrLongLong = std::same_as<T, int> || std::same_as<T, long long>;
 
 namespace simd {
-#if !defined(__arm__) && !defined(__arm64__)
-    struct alignas(32) AVX2_MARKS {
-        alignas(32) const __m256i M1 = _mm256_set_epi32(7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(32) const __m256i M2 = _mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(32) const __m256i M3 = _mm256_set_epi32(5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(32) const __m256i M4 = _mm256_set_epi32(3, 2, 1, 0, 7, 6, 5, 4);
-    };
-    struct alignas(64) AVX512_MARKS {
-        alignas(64) const __m512i M1 = _mm512_set_epi32(15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0);
-        alignas(64) const __m512i M2 = _mm512_set_epi32(14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1);
-        alignas(64) const __m512i M3 = _mm512_set_epi32(13, 12, 15, 14, 9, 8, 11, 10, 5, 4, 7, 6, 1, 0, 3, 2);
-        alignas(64) const __m512i M4 = _mm512_set_epi32(11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 15, 14, 13, 12);
-    };
-
-    static AVX2_MARKS *avx2Marks = nullptr;
-    static AVX512_MARKS *avx512Marks = nullptr;
-#endif
-
-    void initBitonicSort() {
-#if !defined(__arm__) && !defined(__arm64__)
-        if (IS_AVX2_SUPPORTED && avx2Marks == nullptr) {
-            avx2Marks = new AVX2_MARKS();
-        }
-        if (IS_AVX512_SUPPORTED && avx512Marks == nullptr) {
-            avx512Marks = new AVX512_MARKS();
-        }
-#endif
-    }
-
-#pragma clang diagnostic push
-#pragma ide diagnostic ignored "portability-simd-intrinsics"
-#pragma ide diagnostic ignored "NullDereference"
-#if !defined(__arm__) && !defined(__arm64__)
-
-    __forceinline void sort8Epi32AVX2(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_min_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 8 nums with avx2 reversed
-     */
-    __forceinline void sort8Epi32AVX2Reversed(__m256i &vec) {
-        __m256i swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M1);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M2);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M3);
-        vec = _mm256_max_epi32(vec, swapped);
-
-        swapped = _mm256_permutevar8x32_epi32(vec, avx2Marks->M4);
-        vec = _mm256_max_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_min_epi32(vec, swapped);
-    }
-
-    /**
-     * sort 16 nums with avx512
-     */
-    __forceinline void sort16Epi32AVX512Reversed(__m512i &vec) {
-        __m512i swapped = _mm512_permutexvar_epi32(avx512Marks->M1, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M2, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M3, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-
-        swapped = _mm512_permutexvar_epi32(avx512Marks->M4, vec);
-        vec = _mm512_max_epi32(vec, swapped);
-    }
-
-    [[maybe_unused]] __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &src,
-                                                      std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_INTS;
-                i += AVX512_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_INTS;
-                i += AVX2_INTS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_INTS;
-                i += SSE41_INTS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    __forceinline void doSingleMerge(const size_t &left, const size_t &mid, const size_t &right,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                                     std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        if (IS_AVX512_SUPPORTED) {
-            while (i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-                __m512i vec_i = _mm512_load_si512(&(src[i]));
-                __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-                __m512i min_vals = _mm512_min_epi32(vec_i, vec_j);
-
-                _mm512_store_si512(&(dst[k]), min_vals);
-                k += AVX512_LONG_LONGS;
-                i += AVX512_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with AVX2
-        if (IS_AVX2_SUPPORTED) {
-            while (i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-                __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-                __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-                __m256i min_vals = _mm256_min_epi32(vec_i, vec_j);
-
-                _mm256_store_si256((__m256i *) &(dst[k]), min_vals);
-                k += AVX2_LONG_LONGS;
-                i += AVX2_LONG_LONGS;
-            }
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        if (IS_SSE41_SUPPORTED) {
-            while (i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-                __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-                __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-                __m128i min_vals = _mm_min_epi32(vec_i, vec_j);
-
-                _mm_store_si128((__m128i *) &(dst[k]), min_vals);
-                k += SSE41_LONG_LONGS;
-                i += SSE41_LONG_LONGS;
-            }
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] < src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<int, AlignedAllocator<int, 64>> &src,
-                          std::vector<int, AlignedAllocator<int, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_INTS + 1 && j <= right - AVX512_INTS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_INTS;
-            j += AVX512_INTS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_INTS + 1 && j <= right - AVX2_INTS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_INTS;
-            j += AVX2_INTS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_INTS + 1 && j <= right - SSE41_INTS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_INTS;
-            j += SSE41_INTS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
-    [[maybe_unused]] __forceinline void
-    doSingleMergeReversed(const size_t &left, const size_t &mid, const size_t &right,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &src,
-                          std::vector<long long, AlignedAllocator<long long, 64>> &dst) {
-        size_t i = left, j = mid + 1, k = left;
-
-        // merge 2 sorted blocks with AVX-512
-        while (IS_AVX512_SUPPORTED && i <= mid - AVX512_LONG_LONGS + 1 && j <= right - AVX512_LONG_LONGS + 1) {
-            __m512i vec_i = _mm512_load_si512(&(src[i]));
-            __m512i vec_j = _mm512_load_si512(&(src[j]));
-
-            __m512i max_vals = _mm512_max_epi32(vec_i, vec_j);
-
-            _mm512_store_si512(&(dst[k]), max_vals);
-            k += AVX512_LONG_LONGS;
-            j += AVX512_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with AVX2
-        while (IS_AVX2_SUPPORTED && i <= mid - AVX2_LONG_LONGS + 1 && j <= right - AVX2_LONG_LONGS + 1) {
-            __m256i vec_i = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[i])));
-            __m256i vec_j = _mm256_load_si256(reinterpret_cast<__m256i *>(&(src[j])));
-
-            __m256i max_vals = _mm256_max_epi32(vec_i, vec_j);
-
-            _mm256_store_si256((__m256i *) &(dst[k]), max_vals);
-            k += AVX2_LONG_LONGS;
-            j += AVX2_LONG_LONGS;
-        }
-
-        // merge 2 sorted blocks with SSE4.1
-        while (IS_SSE41_SUPPORTED && i <= mid - SSE41_LONG_LONGS + 1 && j <= right - SSE41_LONG_LONGS + 1) {
-            __m128i vec_i = _mm_load_si128((__m128i *) &(src[i]));
-            __m128i vec_j = _mm_load_si128((__m128i *) &(src[j]));
-
-            __m128i max_vals = _mm_max_epi32(vec_i, vec_j);
-
-            _mm_store_si128((__m128i *) &(dst[k]), max_vals);
-            k += SSE41_LONG_LONGS;
-            j += SSE41_LONG_LONGS;
-        }
-
-        // elements left
-        while (i <= mid && j <= right) {
-            if (src[i] > src[j]) {
-                dst[k++] = src[i++];
-            } else {
-                dst[k++] = src[j++];
-            }
-        }
-
-        while (i <= mid) {
-            dst[k++] = src[i++];
-        }
-
-        while (j <= right) {
-            dst[k++] = src[j++];
-        }
-    }
-
     /**
-     * Merge sorted blocks with SIMD optimization, or fallback
-     * make sure aligned
-     */
-    template<IntOrLongLong T>
-    __forceinline void mergeSortedBlocks(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMerge(left, mid, right, data, temp);
-                } else {
-                    doSingleMerge(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-    /**
-     * Merge sorted blocks with SIMD optimization reversed, or fallback
-     */
-    template<IntOrLongLong T>
-    __forceinline void
-    mergeSortedBlocksReversed(std::vector<T, AlignedAllocator<T, 64>> &data, const size_t &blockSize) {
-        const size_t total = data.size();
-        auto temp = std::vector<T, AlignedAllocator<T, 64>>(total);
-
-        bool cycle = true;
-        size_t mid;
-        size_t right;
-        for (size_t size = blockSize; size < total; size *= 2) {
-            size_t left = 0;
-            prefetchL1(&data + left);
-            prefetchL1(&temp + left);
-            for (; left < total; left += 2 * size) {
-                mid = std::min(left + size - 1, total - 1);
-                right = std::min(left + 2 * size - 1, total - 1);
-                if (cycle) {
-                    doSingleMergeReversed(left, mid, right, data, temp);
-                } else {
-                    doSingleMergeReversed(left, mid, right, temp, data);
-                }
-            }
-
-            cycle = !cycle;
-        }
-
-        // copy the final result
-        if (!cycle) {
-            simdMemCpyAligned(temp.data(), data.data(), temp.size());
-        }
-    }
-
-#endif
-#pragma clang diagnostic pop
-
-    /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort the vector
      * @param vector vector to sort
      */
     void simdsort(std::vector<int, AlignedAllocator<int, 64>> &vector, bool reverse) {
@@ -466,7 +32,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -480,87 +45,10 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_INTS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_INTS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_INTS <= size; sortedCount += AVX512_INTS) {
-                if (size - sortedCount > AVX512_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_INT);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_INTS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_INTS <= size; sortedCount += AVX2_INTS) {
-                if (size - sortedCount > AVX2_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_INT);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 
     /**
-     * Try to sort with simd optimize, or fallback if unsupported
-     * MAKE SURE VECTOR IS ALIGNED with 64 bytes!
+     * Sort the vector
      * @param vector vector to sort
      */
     void simdsort(std::vector<long long, AlignedAllocator<long long, 64>> &vector, bool reverse) {
@@ -579,7 +67,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -593,81 +80,5 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_LONG_LONGS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_LONG_LONGS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_LONG_LONGS <= size; sortedCount += AVX512_LONG_LONGS) {
-                if (size - sortedCount > AVX512_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_LONG_LONG);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_LONG_LONGS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_LONG_LONGS <= size; sortedCount += AVX2_LONG_LONGS) {
-                if (size - sortedCount > AVX2_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_LONG_LONG);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 }
diff --git a/pyfastutil/src/utils/simd/BitonicSort.h b/pyfastutil/src/utils/simd/BitonicSort.h
index 398a0e6..13c3fa9 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.h
+++ b/pyfastutil/src/utils/simd/BitonicSort.h
@@ -11,8 +11,6 @@
 
 namespace simd {
 
-    void initBitonicSort();
-
     void simdsort(std::vector<int, AlignedAllocator<int, 64>> &vector, bool reverse);
 
     void simdsort(std::vector<long long, AlignedAllocator<long long, 64>> &vector, bool reverse);
-- 
2.43.0


From a825315148bb805ae7677d606031e42d3179b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 14/71] fix: from_range ignores an explicit stop or step equal
 to sys.maxsize

---
 pyfastutil/src/utils/PythonUtils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 51df10e..a9a3a2b 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -70,12 +70,13 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
     if (!PyArg_ParseTuple(args, "n|nn", &arg1, &arg2, &arg3)) {
         return false;
     }
+    const Py_ssize_t argCount = PyTuple_GET_SIZE(args);
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    if (argCount < 2) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
+    } else if (argCount < 3) {
         start = arg1;
         stop = arg2;
         step = 1;
-- 
2.43.0


From cda978454f2b68bcfa7f7926198eaed90cb040c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 15/71] fix: sorting int lists by key: report key errors,
 release temporaries, treat any true reverse as reversed

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 33 ++++++++++++++++++++++---
 pyfastutil/src/ints/IntArrayList.cpp    | 33 ++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 460679e..abd2acf 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -484,15 +484,24 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
+            bool failed = false;
             Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
+                try {
+                    simd::simdsort(self->vector, reverse);
+                } catch (const std::exception &) {
+                    failed = true;
+                }
             Py_END_ALLOW_THREADS
+            if (failed) {
+                PyErr_NoMemory();
+                return nullptr;
+            }
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -505,16 +514,32 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyLong_FromLongLong(vecData[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *sorted = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            if (sorted != nullptr && self->vector.size() != vecSize) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                Py_DECREF(sorted);
+                sorted = nullptr;
+            }
+            vecData = self->vector.data();
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
+                if (sorted != nullptr) {
+                    vecData[i] = PyLong_AsLongLong(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+            return sorted;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 2ee023f..dcb7610 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -487,15 +487,24 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         return nullptr;
     }
 
-    const bool reverse = reverseInt == 1;
+    const bool reverse = reverseInt != 0;
 
     // do sort
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
+            bool failed = false;
             Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
+                try {
+                    simd::simdsort(self->vector, reverse);
+                } catch (const std::exception &) {
+                    failed = true;
+                }
             Py_END_ALLOW_THREADS
+            if (failed) {
+                PyErr_NoMemory();
+                return nullptr;
+            }
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -508,16 +517,32 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyFast_FromInt(vecData[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            PyObject *sorted = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            if (sorted != nullptr && self->vector.size() != vecSize) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                Py_DECREF(sorted);
+                sorted = nullptr;
+            }
+            vecData = self->vector.data();
 
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
+                if (sorted != nullptr) {
+                    vecData[i] = PyFast_AsInt(pyData[i]);
+                }
                 Py_DECREF(pyData[i]);
             }
 
             PyMem_FREE(pyData);
+            return sorted;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From ceb87f31a699bf53d3d5f63975570e345d99e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 16/71] fix: ObjectArrayList constructor: own the elements of a
 copied list, report invalid arguments, release the iterator on allocation
 failure

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..aef0ec2 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -46,8 +46,13 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     Py_ssize_t pySize = -1;
 
     parseArgs(args, kwargs, pyIterable, pySize);
+    if (PyErr_Occurred()) {
+        return -1;
+    }
 
     // init vector
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -55,8 +60,10 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
 
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
-                auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
-                self->vector = iter->vector;
+                self->vector = reinterpret_cast<ObjectArrayList *>(pyIterable)->vector;
+                for (PyObject *element: self->vector) {
+                    Py_INCREF(element);
+                }
                 return 0;
             }
 
@@ -69,23 +76,27 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
+                try {
+                    self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+                } catch (const std::exception &) {
+                    SAFE_DECREF(fastIter);
+                    throw;
+                }
+
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
                 SAFE_DECREF(fastIter);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->vector.push_back(item);
             }
@@ -93,6 +104,8 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        Py_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 83f8d680233f1963a31f46f46ba611128ddbb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 17/71] fix: ObjectArrayList.resize: release the elements it
 drops

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index aef0ec2..2d941c8 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -130,6 +130,9 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
     }
 
     Py_ssize_t pySSize = PyLong_AsSsize_t(pySize);
+    if (pySSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (pySSize < 0) {
         PyErr_SetString(PyExc_ValueError, "Invalid size.");
         return nullptr;
@@ -137,6 +140,11 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
+        while (self->vector.size() > newSize) {
+            PyObject *item = self->vector.back();
+            self->vector.pop_back();
+            Py_DECREF(item);
+        }
         self->vector.resize(newSize, Py_None);
         // No need to call Py_INCREF on Py_None or other constant objects
         // because, the reference count operations on global singleton objects
-- 
2.43.0


From 8c11c13b12a8e92f860ae887d4ce88fed523b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 18/71] fix: ObjectArrayList.copy: release the copy through its
 destructor on error

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 2d941c8..830ac90 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -192,7 +192,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From d5773fb5b5d8f84b58d1a3f76f937886cc710093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 19/71] fix: extend and += of ObjectArrayList: return self,
 tolerate self as argument, report allocation and length-hint errors

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 88 +++++++++-------------
 1 file changed, 36 insertions(+), 52 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 830ac90..cf2b659 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -233,9 +233,18 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+        try {
+            // reserve first: iterable may be self
+            const auto iterSize = iter->vector.size();
+            self->vector.reserve(self->vector.size() + iterSize);
+            for (size_t i = 0; i < iterSize; ++i) {
+                PyObject *element = iter->vector[i];
+                Py_INCREF(element);
+                self->vector.push_back(element);
+            }
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
         Py_RETURN_NONE;
     }
@@ -243,7 +252,12 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -258,19 +272,26 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(item);
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->vector.push_back(item);
+        }
+    } catch (const std::exception &e) {
+        Py_XDECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -716,49 +737,12 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
-        auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
-        }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // pre alloc
-    Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->vector.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectArrayList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
-- 
2.43.0


From ed0d6a53a5ff659fcbe9f27e24fb2481d982a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 20/71] fix: ObjectArrayList index, count, remove and in:
 compare by equality and accept any object

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 83 +++++++++++++---------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index cf2b659..36c1f61 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -345,6 +345,26 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     return popped;
 }
 
+/**
+ * Find the first element in [start, stop) that equals value.
+ * @return its index, -1 if there is none, -2 if a comparison failed (exception set)
+ */
+static Py_ssize_t ObjectArrayList_find(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->vector.size()); ++i) {
+        PyObject *item = self->vector[i];
+        Py_INCREF(item);
+        int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) {
+            return -2;
+        }
+        if (cmpResult > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -375,28 +395,36 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
-
-    if (it == self->vector.begin() + stop) {
+    Py_ssize_t index = ObjectArrayList_find(self, value, start, stop);
+    if (index == -2) {
+        return nullptr;
+    }
+    if (index < 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    size_t result = 0;
+    for (size_t i = 0; i < self->vector.size(); ++i) {
+        PyObject *item = self->vector[i];
+        Py_INCREF(item);
+        int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
+        SAFE_DECREF(item);
+        if (cmpResult < 0) {
+            return nullptr;
+        }
+        if (cmpResult > 0) {
+            ++result;
+        }
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectArrayList_insert(PyObject *pySelf, PyObject *args) {
@@ -438,12 +466,15 @@ static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
     }
 
     try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
+        const auto index = ObjectArrayList_find(self, value, 0, PY_SSIZE_T_MAX);
+        if (index == -2) {
+            return nullptr;
+        }
 
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
+        if (index >= 0 && index < static_cast<Py_ssize_t>(self->vector.size())) {
+            PyObject *removed = self->vector[index];
+            self->vector.erase(self->vector.begin() + index);
+            SAFE_DECREF(removed);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
             return nullptr;
@@ -828,27 +859,13 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const auto index = ObjectArrayList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0 ? 1 : 0;
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
-- 
2.43.0


From bbd12c4d6133f37c39457ea3288aa750245123c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 21/71] fix: ObjectArrayList.index: a stop below -len scans
 before the storage

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 36c1f61..6a55e3c 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -386,6 +386,9 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     if (start < 0) {
         start = 0;
     }
+    if (stop < 0) {
+        stop = 0;
+    }
     if (stop > static_cast<Py_ssize_t>(self->vector.size())) {
         stop = static_cast<Py_ssize_t>(self->vector.size());
     }
-- 
2.43.0


From 7f17cdc530975e13dc97a02501ef757f69a23b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 22/71] fix: ObjectArrayList.sort: callbacks that modify the
 list corrupt memory

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 6a55e3c..ef20805 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -501,10 +501,23 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         return nullptr;
     }
 
-    // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // do sort; the list is empty meanwhile, so callbacks can't invalidate the storage
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+    PyObject *result = CPython_sort(items.data(),
+                                    static_cast<Py_ssize_t>(items.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    items.swap(self->vector);
+    if (!items.empty()) {
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+        for (PyObject *item: items) {
+            Py_DECREF(item);
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
-- 
2.43.0


From 6abfc4c88cc23a9d3582fab25c0d32177f3a2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 23/71] fix: ObjectArrayList item assignment leaks the replaced
 element, deletion releases elements still in the list

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index ef20805..a63f6dc 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -601,16 +601,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            self->vector[static_cast<size_t>(pyIndex)] = value;
+            PyObject *replaced = self->vector[static_cast<size_t>(pyIndex)];
             Py_INCREF(value);
+            self->vector[static_cast<size_t>(pyIndex)] = value;
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -904,10 +907,11 @@ static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
+    std::vector<PyObject *> items;
+    items.swap(self->vector);
+    for (PyObject *item: items) {
+        Py_DECREF(item);
     }
-    self->vector.clear();
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 56c7cfb052da4962750349e74fcec6d1a28280de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 24/71] fix: ObjectArrayList subscripts that are neither
 integers nor slices raise TypeError

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index a63f6dc..8ca4e1e 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -562,6 +562,10 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         }
         return ObjectArrayList_getitem(pySelf, pyIndex);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return nullptr;
+    }
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -630,6 +634,10 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         }
         return ObjectArrayList_setitem(pySelf, index, value);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return -1;
+    }
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-- 
2.43.0


From 876ce5ccf9b7c96e0d3fb09167ad218260435260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 25/71] fix: ObjectArrayList slice assignment: missing
 references, wrong ranges, deletion and errors part-way

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 125 ++++++---------------
 1 file changed, 34 insertions(+), 91 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 8ca4e1e..6669ef5 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -646,112 +646,55 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+    if (step != 1) {
+        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
+    // take the new elements first, so an error leaves the list unchanged
+    PyObject *fastValue = nullptr;
+    Py_ssize_t newLength = 0;
+    if (value != nullptr) {
+        if (!PySequence_Check(value)) {
+            PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+            return -1;
+        }
 
-    if (step != 1) {
-        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
-        return -1;
+        fastValue = PySequence_Tuple(value);
+        if (fastValue == nullptr) {
+            return -1;
+        }
+        newLength = PyTuple_GET_SIZE(fastValue);
     }
 
+    std::vector<PyObject *> removed;
     try {
-        PyObject **startPtr = self->vector.data() + start;
-
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        const auto first = self->vector.begin() + start;
+        removed.insert(removed.end(), first, first + sliceLength);
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
-            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+        if (newLength > sliceLength) {
+            self->vector.insert(first + sliceLength, static_cast<size_t>(newLength - sliceLength), nullptr);
+        } else {
+            self->vector.erase(first + newLength, first + sliceLength);
+        }
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        for (Py_ssize_t i = 0; i < newLength; i++) {
+            PyObject *item = PyTuple_GET_ITEM(fastValue, i);
+            Py_INCREF(item);
+            self->vector[static_cast<size_t>(start + i)] = item;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastValue);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    Py_XDECREF(fastValue);
+    for (PyObject *item: removed) {
+        Py_DECREF(item);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 5cce01cd9468b639208c664ecb42273302d30a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 26/71] fix: ObjectArrayList + ObjectArrayList drops the left
 operand and fails

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 6669ef5..55dddca 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -703,16 +703,19 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectArrayList
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->vector) {
+            auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
+            result->vector.reserve(self->vector.size() + value->vector.size());
+            result->vector.insert(result->vector.end(), self->vector.begin(), self->vector.end());
+            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
+            for (const auto &item: result->vector) {
                 Py_INCREF(item);
             }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
-- 
2.43.0


From 05aea865db0fa7dd05556a0575458f692f7706d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 27/71] fix: repetition of ObjectArrayList: doubling instead of
 repeating, leaked elements, size overflow

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 55dddca..ed19208 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -770,6 +770,10 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize > result->vector.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
 
         result->vector.reserve(selfSize * n);
         for (Py_ssize_t i = 0; i < n; ++i) {
@@ -810,13 +814,20 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
+            std::vector<PyObject *> items;
+            items.swap(self->vector);
+            for (PyObject *item: items) {
+                Py_DECREF(item);
+            }
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize > self->vector.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
+            }
 
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
-- 
2.43.0


From c929e4780b259b13948bd9cdccdb557dbdc5ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 28/71] fix: ObjectArrayList == and != ignore an error of len()

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index ed19208..cd3409f 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -887,6 +887,7 @@ static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_FALSE;
 
@@ -921,6 +922,7 @@ static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *py
 
     // compare
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
         Py_RETURN_TRUE;
 
-- 
2.43.0


From e8a36eb71c2014f9460d2dc61856394d257008ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 29/71] fix: ordering of ObjectArrayList: compare
 lexicographically

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 80 ++++++++++++++--------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index cd3409f..435a383 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -958,26 +958,32 @@ static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
+    Py_ssize_t minSize = std::min(static_cast<Py_ssize_t>(self->vector.size()), seqSize);
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < minSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
+        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->vector.size()) < seqSize)
 }
 
 static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -992,26 +998,32 @@ static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
+    Py_ssize_t minSize = std::min(static_cast<Py_ssize_t>(self->vector.size()), seqSize);
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < minSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
+        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->vector.size()) <= seqSize)
 }
 
 static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1026,26 +1038,32 @@ static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
+    Py_ssize_t minSize = std::min(static_cast<Py_ssize_t>(self->vector.size()), seqSize);
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < minSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
+        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->vector.size()) > seqSize)
 }
 
 static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1060,26 +1078,32 @@ static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *py
         return nullptr;
     }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
+    Py_ssize_t minSize = std::min(static_cast<Py_ssize_t>(self->vector.size()), seqSize);
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
+    for (Py_ssize_t i = 0; i < minSize; ++i) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
+        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->vector.size()) >= seqSize)
 }
 
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-- 
2.43.0


From ad2ac92b76f18125a3f786cc2518f7ec40546fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 30/71] fix: IntLinkedList constructor: element type of the
 list, leaked references when an allocation fails

---
 pyfastutil/src/ints/IntLinkedList.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..25239f6 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -21,7 +21,7 @@ static PyTypeObject IntLinkedListType = {
 };
 
 static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
+    new(&self->list) std::list<int>();
     self->modCount = 0;
 
     PyObject *pyIterable = nullptr;
@@ -34,16 +34,19 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
     }
 
     // init list
+    PyObject *iter = nullptr;
+    PyObject *fastKeys = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
-                auto *iter = reinterpret_cast<IntLinkedList *>(pyIterable);
-                self->list = iter->list;
+                auto *list = reinterpret_cast<IntLinkedList *>(pyIterable);
+                self->list = list->list;
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -63,13 +66,12 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 int value = PyLong_AsLong(item);
                 if (PyErr_Occurred()) {
@@ -85,6 +87,9 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(iter);
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 38b937948a763c3629d9e54b0766bf45150567aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 31/71] fix: IntLinkedList.from_range: negative steps drop
 elements, overflow for large steps, wrong destruction on error

---
 pyfastutil/src/ints/IntLinkedList.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 25239f6..7d034c2 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -118,23 +118,22 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = static_cast<Py_ssize_t>(
+                    (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1);
         }
 
-        Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
-            list->list.push_back(static_cast<int>(current));
-            current += step;
+            list->list.push_back(static_cast<int>(start + idx * step));
         }
 
     } catch (const std::exception &e) {
-        list->list.~list();
-        PyObject_Del(list);
+        SAFE_DECREF(list);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From d008036b20cb3614d77ee95a8cc11dc85588ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 32/71] fix: IntLinkedList: leaked references of the ints it
 returns

---
 pyfastutil/src/ints/IntLinkedList.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 7d034c2..6574534 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -151,9 +151,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -480,9 +483,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -515,7 +516,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
-- 
2.43.0


From 2ab40590fd1fe3733feb107c216d0f336a16ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 33/71] fix: IntLinkedList.copy: release the copy through its
 destructor on error

---
 pyfastutil/src/ints/IntLinkedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 6574534..d71353b 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -171,7 +171,7 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
     try {
         copy->list = self->list;
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From 5ca21c87da81dcc079f760ad0913d4f2727dd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 34/71] fix: IntLinkedList append and item assignment ignore
 conversion errors, item deletion leaves iterators dangling

---
 pyfastutil/src/ints/IntLinkedList.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index d71353b..4c98970 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -182,13 +182,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
+    int value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -542,13 +542,14 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
-            PyObject *value = pyValue;
+            int value = PyLong_AsLong(pyValue);
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            *at(self->list, static_cast<size_t>(pyIndex)) = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 809d26148fda36596c3ad742b9662ab6170dbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 35/71] fix: extend and += of IntLinkedList: return self,
 report conversion and allocation errors, tolerate self as argument

---
 pyfastutil/src/ints/IntLinkedList.cpp | 70 +++++++++++----------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4c98970..c715bf7 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -212,8 +212,15 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // fast extend
     if (Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        self->modCount++;
+        try {
+            // copy first: iterable may be self
+            std::list<int> items(iter->list);
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -224,18 +231,25 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
+    try {
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
             SAFE_DECREF(item);
-            return nullptr;
-        }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->list.push_back(value);
+            self->modCount++;
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -702,40 +716,12 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
-        auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            SAFE_DECREF(item);
-            return nullptr;
-        }
-
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = IntLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
-- 
2.43.0


From a365a8016b178dd1969f076a1ce495f02cf3ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 36/71] fix: IntLinkedList.pop reads the element after freeing
 it

---
 pyfastutil/src/ints/IntLinkedList.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index c715bf7..4e6d33c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -296,10 +296,11 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         return PyFast_FromInt(popped);
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return PyFast_FromInt(popped);
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
-- 
2.43.0


From 35a5732c43545b5e9c8d9d16f0f744c40d99f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 37/71] fix: IntLinkedList.index: a stop below -len scans to
 the end

---
 pyfastutil/src/ints/IntLinkedList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4e6d33c..0efb48f 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -324,6 +324,9 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
     if (start < 0) {
         start = 0;
     }
+    if (stop < 0) {
+        stop = 0;
+    }
     if (stop > static_cast<Py_ssize_t>(self->list.size())) {
         stop = static_cast<Py_ssize_t>(self->list.size());
     }
-- 
2.43.0


From d186757cfc933cb27c46e7b2d23a93dd9e66e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 38/71] fix: IntLinkedList.sort: report errors of key and
 comparison, treat any true reverse as reversed

---
 pyfastutil/src/ints/IntLinkedList.cpp | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 0efb48f..4c04960 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -434,7 +434,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     }
 
     if (keyFunc == Py_None) {
-        if (reverseInt == 1) {
+        if (reverseInt != 0) {
             self->list.sort(std::greater());
         } else {
             self->list.sort();
@@ -452,20 +452,36 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         auto iter = self->list.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            if (pyData[i] == nullptr) {
+                while (i > 0) {
+                    Py_DECREF(pyData[--i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        PyObject *sorted = CPython_sort(pyData,
+                                        static_cast<Py_ssize_t>(vecSize),
+                                        keyFunc, reverseInt);
+        if (sorted != nullptr && self->list.size() != vecSize) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            Py_DECREF(sorted);
+            sorted = nullptr;
+        }
 
         iter = self->list.begin();
-        for (size_t i = 0; i < vecSize; ++i, ++iter) {
-            *iter = PyFast_AsInt(pyData[i]);
+        for (size_t i = 0; i < vecSize; ++i) {
+            if (sorted != nullptr) {
+                *iter = PyFast_AsInt(pyData[i]);
+                ++iter;
+            }
             Py_DECREF(pyData[i]);
         }
 
         PyMem_FREE(pyData);
         self->modCount++;
+        return sorted;
     }
 
     Py_RETURN_NONE;
-- 
2.43.0


From 18a3fd2813cc6cf7dc2c30eec525f665d21da171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 39/71] fix: IntLinkedList subscripts that are neither integers
 nor slices raise TypeError

---
 pyfastutil/src/ints/IntLinkedList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4c04960..2e4fcfc 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -532,6 +532,10 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         }
         return IntLinkedList_getitem(pySelf, pyIndex);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return nullptr;
+    }
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
@@ -601,6 +605,10 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         }
         return IntLinkedList_setitem(pySelf, index, value);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return -1;
+    }
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-- 
2.43.0


From aba1a51717b4aaae15b5a55d78ffbaeb1a3852a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 40/71] fix: slice assignment of IntLinkedList: deletion,
 reversed ranges, length errors, invalid items, dangling iterators

---
 pyfastutil/src/ints/IntLinkedList.cpp | 84 +++++++--------------------
 1 file changed, 22 insertions(+), 62 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 2e4fcfc..71c8d9e 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -617,89 +617,49 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    PyObject *item = nullptr;
     try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
+        // convert all the items first, so an invalid item leaves the list unchanged
+        std::list<int> items;
+        if (value != nullptr) {
+            if (!PySequence_Check(value)) {
+                PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+                return -1;
             }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
 
-                ++iter;
+            Py_ssize_t newLength = PySequence_Size(value);
+            if (newLength < 0) {
+                return -1;
             }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
+            for (Py_ssize_t i = 0; i < newLength; i++) {
+                item = PySequence_GetItem(value, i);
                 if (item == nullptr) {
                     return -1;
                 }
 
-                self->list.insert(iter, PyLong_AsLong(item));
+                int itemValue = PyLong_AsLong(item);
                 SAFE_DECREF(item);
                 if (PyErr_Occurred()) {
                     return -1;
                 }
+                items.push_back(itemValue);
             }
         }
+
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        auto first = at(self->list, static_cast<size_t>(start));
+        auto last = at(self->list, static_cast<size_t>(start + sliceLength));
+        self->list.splice(first, items);
+        self->list.erase(first, last);
+        self->modCount++;
     } catch (const std::exception &e) {
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From db6bc7f29aa19df60dbe8da16b4ca0e3a2d54e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 41/71] fix: IntLinkedList + IntLinkedList drops the left
 operand and fails

---
 pyfastutil/src/ints/IntLinkedList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 71c8d9e..cafdbf6 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -672,12 +672,14 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
+            result->list.insert(result->list.end(), self->list.begin(), self->list.end());
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
-- 
2.43.0


From 5bde4e0b49eabadcd32e7903befda012e31641bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 42/71] fix: repetition of IntLinkedList: doubling instead of
 repeating, endless work for empty lists and huge counts, dangling iterators

---
 pyfastutil/src/ints/IntLinkedList.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index cafdbf6..4ee2cf4 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -734,7 +734,12 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        for (Py_ssize_t i = 0; !self->list.empty() && i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
         }
 
@@ -770,12 +775,18 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->list.clear();
+            self->modCount++;
         } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
-            for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
             }
+
+            std::list<int> items;
+            for (Py_ssize_t i = 1; !self->list.empty() && i < n; ++i) {
+                items.insert(items.end(), self->list.begin(), self->list.end());
+            }
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From 5a5605a403dfefd606181fbb752d64343b586e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 43/71] fix: IntLinkedList.clear leaves iterators dangling

---
 pyfastutil/src/ints/IntLinkedList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 4ee2cf4..3f1a8a7 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -842,6 +842,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 0408973587f7fb2ab86723cf046d92880d790b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 44/71] fix: IntLinkedList comparisons: compare
 lexicographically, propagate errors, leave no exception pending

---
 pyfastutil/src/ints/IntLinkedList.cpp | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 3f1a8a7..8ca791f 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -853,6 +853,8 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0)
+        return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
@@ -866,6 +868,7 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
         int other_value = PyLong_AsLong(item);
         if (PyErr_Occurred()) {  // can't be convert to int
             SAFE_DECREF(item);
+            PyErr_Clear();
             Py_RETURN_FALSE;
         }
 
@@ -879,6 +882,7 @@ static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyVa
 
 static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -900,12 +904,10 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
@@ -914,10 +916,11 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         int self_value = *iter;
         int other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -932,12 +935,10 @@ static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
@@ -946,10 +947,11 @@ static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyVa
         int self_value = *iter;
         int other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() <= static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -964,12 +966,10 @@ static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
@@ -978,10 +978,11 @@ static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyVa
         int self_value = *iter;
         int other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() > static_cast<size_t>(seqSize))
 }
 
 static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -996,12 +997,10 @@ static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyVa
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
@@ -1010,10 +1009,11 @@ static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyVa
         int self_value = *iter;
         int other_value = PyLong_AsLong(item);
         SAFE_DECREF(item);
+        if (PyErr_Occurred()) return nullptr;
         if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(self->list.size() >= static_cast<size_t>(seqSize))
 }
 
 static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-- 
2.43.0


From 823f64abd11000feac66391c1714c6e425c6878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 45/71] fix: ObjectLinkedList constructor: own the elements of
 a copied list, leaked references when an allocation fails

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..a654966 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -34,16 +34,21 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     }
 
     // init list
+    PyObject *iter = nullptr;
+    PyObject *fastKeys = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
-                auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
-                self->list = iter->list;
+                self->list = reinterpret_cast<ObjectLinkedList *>(pyIterable)->list;
+                for (PyObject *element: self->list) {
+                    Py_INCREF(element);
+                }
                 return 0;
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -52,20 +57,19 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    Py_INCREF(value);
                     self->list.push_back(value);
+                    Py_INCREF(value);
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->list.push_back(item);
             }
@@ -73,6 +77,9 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(iter);
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(item);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From a4bb538045a11c88b9819514b51af6458059be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 46/71] fix: ObjectLinkedList.copy: release the copy through
 its destructor on error

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index a654966..691bb4e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -129,7 +129,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
-- 
2.43.0


From a27c428e31d93abac0e55f5fe198b38b2039baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 47/71] fix: extend and += of ObjectLinkedList: return self,
 report allocation errors, tolerate self as argument

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 70 +++++++--------------
 1 file changed, 24 insertions(+), 46 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 691bb4e..835175e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -171,11 +171,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // fast extend
     if (Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+        try {
+            // copy first: iterable may be self
+            std::list<PyObject *> items(iter->list);
+            for (const auto &item: items) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->modCount++;
         Py_RETURN_NONE;
     }
 
@@ -186,16 +193,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     }
 
     // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    PyObject *item = nullptr;
+    try {
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            self->list.push_back(item);
+            self->modCount++;
         }
-
-        self->list.push_back(item);
+    } catch (const std::exception &e) {
+        SAFE_DECREF(item);
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -619,43 +628,12 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
 }
 
 static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
-        auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
-        }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
-    }
-
-    // python iterable extend
-    PyObject *iter = PyObject_GetIter(iterable);
-    if (iter == nullptr) {
-        return nullptr;
-    }
-
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        PyObject *value = item;
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
-        }
-
-        self->list.push_back(value);
-    }
-
-    if (PyErr_Occurred()) {
-        SAFE_DECREF(iter);
+    PyObject *result = ObjectLinkedList_extend(pySelf, &iterable, 1);
+    if (result == nullptr) {
         return nullptr;
     }
+    SAFE_DECREF(result);
 
-    SAFE_DECREF(iter);
     Py_INCREF(pySelf);
     return pySelf;
 }
-- 
2.43.0


From a9410895640fbecb58bab38f93e6bfa3d2ec07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 48/71] fix: ObjectLinkedList.pop reads the element after
 freeing it

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 835175e..70957e0 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -251,10 +251,11 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
-- 
2.43.0


From fe28e595b4167ab69568ed952b0f892f260f9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 49/71] fix: ObjectLinkedList.index: a stop below -len scans to
 the end

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 70957e0..868bd7e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -279,6 +279,9 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     if (start < 0) {
         start = 0;
     }
+    if (stop < 0) {
+        stop = 0;
+    }
     if (stop > static_cast<Py_ssize_t>(self->list.size())) {
         stop = static_cast<Py_ssize_t>(self->list.size());
     }
-- 
2.43.0


From 0236e0c26037c4b8ec7d1282f3b258ff44634f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 50/71] fix: ObjectLinkedList index, count, remove and in:
 compare by equality and accept any object

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 74 +++++++++++++--------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 868bd7e..b43300c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -258,6 +258,24 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
     return popped;
 }
 
+/**
+ * Find the first element in [start, stop) that is equal to value.
+ * @return its index, -1 if there is none, -2 if a comparison failed (exception set)
+ */
+static Py_ssize_t ObjectLinkedList_find(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop) {
+    auto iter = at(self->list, static_cast<size_t>(start));
+    for (Py_ssize_t i = start; i < stop && iter != self->list.end(); ++i, ++iter) {
+        int cmpResult = PyObject_RichCompareBool(*iter, value, Py_EQ);
+        if (cmpResult < 0) {
+            return -2;
+        }
+        if (cmpResult > 0) {
+            return i;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -291,29 +309,33 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
-
-    if (it == stopIter) {
+    Py_ssize_t index = ObjectLinkedList_find(self, value, start, stop);
+    if (index == -2) {
+        return nullptr;
+    }
+    if (index < 0) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
         return nullptr;
     }
 
-    Py_ssize_t index = std::distance(self->list.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
 static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
-
-        return PyLong_FromSize_t(result);
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
-        return nullptr;
+    size_t result = 0;
+    for (PyObject *item: self->list) {
+        int cmpResult = PyObject_RichCompareBool(item, object, Py_EQ);
+        if (cmpResult < 0) {
+            return nullptr;
+        }
+        if (cmpResult > 0) {
+            ++result;
+        }
     }
+
+    return PyLong_FromSize_t(result);
 }
 
 static PyObject *ObjectLinkedList_insert(PyObject *pySelf, PyObject *args) {
@@ -356,12 +378,17 @@ static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
     }
 
     try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
+        const auto index = ObjectLinkedList_find(self, value, 0, PY_SSIZE_T_MAX);
+        if (index == -2) {
+            return nullptr;
+        }
 
-        if (it != self->list.end()) {
+        if (index >= 0) {
+            auto it = at(self->list, static_cast<size_t>(index));
+            PyObject *removed = *it;
             self->list.erase(it);
-            SAFE_DECREF(value);
             self->modCount++;
+            SAFE_DECREF(removed);
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
             return nullptr;
@@ -719,24 +746,13 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const auto index = ObjectLinkedList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0 ? 1 : 0;
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
-- 
2.43.0


From a7ec3f82b6ac2870ff55e564b437d520cd154402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 51/71] fix: ObjectLinkedList.sort: report errors of key and
 comparison, callbacks that modify the list corrupt memory

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 28 +++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index b43300c..c518d37 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -412,7 +412,7 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
         return nullptr;
     }
 
-    // costs extra memory
+    // costs extra memory; the list is empty meanwhile, so callbacks can't invalidate the nodes
     const auto vecSize = self->list.size();
     auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
     if (pyData == nullptr) {
@@ -420,24 +420,38 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
         return nullptr;
     }
 
-    auto iter = self->list.begin();
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+
+    auto iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         pyData[i] = *iter;
     }
 
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    PyObject *result = CPython_sort(pyData,
+                                    static_cast<Py_ssize_t>(vecSize),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
 
-    iter = self->list.begin();
+    iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         *iter = pyData[i];
     }
 
     PyMem_FREE(pyData);
+    items.swap(self->list);
     self->modCount++;
 
-    Py_RETURN_NONE;
+    if (!items.empty()) {
+        if (result != nullptr) {
+            SAFE_DECREF(result);
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+        }
+        for (PyObject *item: items) {
+            Py_DECREF(item);
+        }
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
-- 
2.43.0


From 62dbf7b1867043a52929cb8fbbb72c20911c306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 52/71] fix: ObjectLinkedList item assignment leaks the
 replaced element, deletion and clear leave iterators dangling

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c518d37..183a4f9 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -545,16 +545,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *removed = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *replaced = *iter;
             Py_INCREF(value);
+            *iter = value;
+            SAFE_DECREF(replaced);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -789,10 +794,12 @@ static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
+    std::list<PyObject *> items;
+    items.swap(self->list);
+    self->modCount++;
+    for (PyObject *item: items) {
+        Py_DECREF(item);
     }
-    self->list.clear();
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From d6ad8567b6f2ad2ce63a18ea738fab8c827d0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 53/71] fix: ObjectLinkedList subscripts that are neither
 integers nor slices raise TypeError

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 183a4f9..f5f98c4 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -501,6 +501,10 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         }
         return ObjectLinkedList_getitem(pySelf, pyIndex);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return nullptr;
+    }
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -577,6 +581,10 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         }
         return ObjectLinkedList_setitem(pySelf, index, value);
     }
+    if (!PySlice_Check(slice)) {
+        PyErr_SetString(PyExc_TypeError, "indices must be integers or slices");
+        return -1;
+    }
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-- 
2.43.0


From dc19b41eb1afee68854e3cb32b17618779eb5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 54/71] fix: slice assignment of ObjectLinkedList: deletion,
 reversed ranges, steps, leaked and dangling elements

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 67 +++++++++++----------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index f5f98c4..4f3ec7a 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -593,56 +593,57 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
-
-    if (!PySequence_Check(value)) {
-        PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
-        return -1;
-    }
-
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    if (step != 1) {
+        PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
     PyObject *item = nullptr;
+    std::list<PyObject *> items;
     try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
-                iter = self->list.erase(iter);
+        // take the new elements first, so an error leaves the list unchanged
+        if (value != nullptr) {
+            if (!PySequence_Check(value)) {
+                PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
+                return -1;
+            }
+
+            Py_ssize_t newLength = PySequence_Size(value);
+            if (newLength < 0) {
+                return -1;
             }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
+
+            for (Py_ssize_t i = 0; i < newLength; i++) {
                 item = PySequence_GetItem(value, i);
                 if (item == nullptr) {
+                    for (PyObject *taken: items) {
+                        Py_DECREF(taken);
+                    }
                     return -1;
                 }
-                iter = self->list.insert(iter, item);
-                ++iter;
-            }
-        }
-
-        for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
+                items.push_back(item);
             }
-
-            SAFE_DECREF(*iter);
-            *iter = item;
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        Py_XDECREF(item);
+        for (PyObject *taken: items) {
+            Py_DECREF(taken);
+        }
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    auto first = at(self->list, static_cast<size_t>(start));
+    auto last = at(self->list, static_cast<size_t>(start + sliceLength));
+    std::list<PyObject *> removed;
+    self->list.splice(first, items);
+    removed.splice(removed.end(), self->list, first, last);
+    self->modCount++;
+    for (PyObject *element: removed) {
+        Py_DECREF(element);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 1f8866e614be6c952066eb41a7718c4a465d6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 55/71] fix: ObjectLinkedList + ObjectLinkedList drops the left
 operand and fails

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4f3ec7a..2210b71 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -652,16 +652,19 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->list) {
+            auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+            std::list<PyObject *> items(self->list);
+            items.insert(items.end(), value->list.begin(), value->list.end());
+            for (const auto &item: items) {
                 Py_INCREF(item);
             }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            result->list.splice(result->list.end(), items);
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
-- 
2.43.0


From be7ce726058456092643bad10a963899ee288ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 56/71] fix: repetition of ObjectLinkedList: leaked elements,
 endless work for empty lists and huge counts, dangling iterators

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 33 +++++++++++++++------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 2210b71..a9b4e45 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -718,7 +718,12 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
     }
 
     try {
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+            SAFE_DECREF(result);
+            return PyErr_NoMemory();
+        }
+
+        for (Py_ssize_t i = 0; !self->list.empty() && i < n; ++i) {
             for (const auto obj: self->list) {
                 result->list.push_back(obj);
                 Py_INCREF(obj);
@@ -756,16 +761,26 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
+            std::list<PyObject *> items;
+            items.swap(self->list);
+            self->modCount++;
+            for (PyObject *item: items) {
+                Py_DECREF(item);
+            }
         } else {
-            const auto size = self->list.size();
-            for (Py_ssize_t i = 1; i < n; ++i) {
-                auto iter = self->list.begin();
-                for (size_t j = 0; j < size; ++j, ++iter) {
-                    self->list.push_back(*iter);
-                    Py_INCREF(*iter);
-                }
+            if (self->list.size() > self->list.max_size() / static_cast<size_t>(n)) {
+                return PyErr_NoMemory();
             }
+
+            std::list<PyObject *> items;
+            for (Py_ssize_t i = 1; !self->list.empty() && i < n; ++i) {
+                items.insert(items.end(), self->list.begin(), self->list.end());
+            }
+            for (const auto &item: items) {
+                Py_INCREF(item);
+            }
+            self->list.splice(self->list.end(), items);
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From 61f2be9ff6c4526ef353b1681af0b47b172beed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 57/71] fix: ObjectLinkedList comparisons: compare
 lexicographically, propagate errors

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 82 ++++++++++++++-------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index a9b4e45..5cf9c89 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -837,6 +837,7 @@ static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *p
         Py_RETURN_FALSE;
 
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_FALSE;
 
@@ -872,6 +873,7 @@ static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *p
 
     // compare
     Py_ssize_t seq_size = PySequence_Size(pyValue);
+    if (seq_size < 0) return nullptr;
     if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
         Py_RETURN_TRUE;
 
@@ -908,27 +910,33 @@ static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
+        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->list.size()) < seqSize)
 }
 
 static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -943,27 +951,33 @@ static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
+        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->list.size()) <= seqSize)
 }
 
 static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -978,27 +992,33 @@ static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
+        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->list.size()) > seqSize)
 }
 
 static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1013,27 +1033,33 @@ static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *p
         return nullptr;
     }
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+    const auto minSize = std::min(static_cast<Py_ssize_t>(self->list.size()), seqSize);
 
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
+    for (Py_ssize_t i = 0; i < minSize; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) {
             return nullptr;
         }
 
         // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
+        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_EQ);
+        if (cmpResult == 0) {
+            // the first difference decides
+            cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
+            SAFE_DECREF(item);
+            if (cmpResult < 0) {
+                return nullptr;
+            }
+            Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
+        }
         SAFE_DECREF(item);
         if (cmpResult < 0) {
             return nullptr;
         }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
     }
 
-    Py_RETURN_FALSE;
+    Py_RETURN_BOOL(static_cast<Py_ssize_t>(self->list.size()) >= seqSize)
 }
 
 static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-- 
2.43.0


From d562b5e017eabf8904c37491c24dd562d8e1594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 58/71] fix: array list iterators: reading past the end after
 the list shrank, resuming after exhaustion

---
 pyfastutil/src/ints/BigIntArrayListIter.cpp    | 7 +++++--
 pyfastutil/src/ints/IntArrayListIter.cpp       | 7 +++++--
 pyfastutil/src/objects/ObjectArrayListIter.cpp | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..fa70429 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if there is nothing to iterate
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -37,6 +37,7 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
     if (self->container->vector.empty()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,8 +49,9 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyLong_FromLongLong(element);
         }
-        if (self->index == SIZE_MAX) {
+        if (self->index >= self->container->vector.size()) {
             // already finish iteration
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
@@ -59,6 +61,7 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
         return PyLong_FromLongLong(element);
     } else {
         if (self->index >= self->container->vector.size()) {
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..f49f3b4 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if there is nothing to iterate
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -37,6 +37,7 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
     if (self->container->vector.empty()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,8 +49,9 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
+        if (self->index >= self->container->vector.size()) {
             // already finish iteration
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
@@ -59,6 +61,7 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
         return PyFast_FromInt(element);
     } else {
         if (self->index >= self->container->vector.size()) {
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..d065f84 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = list->vector.size() - 1;  // SIZE_MAX if there is nothing to iterate
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -37,6 +37,7 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
     if (self->container->vector.empty()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -49,8 +50,9 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
+        if (self->index >= self->container->vector.size()) {
             // already finish iteration
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
@@ -61,6 +63,7 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
         return element;
     } else {
         if (self->index >= self->container->vector.size()) {
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
-- 
2.43.0


From e195d0f3949064dbe07f2d705c8401b1ad860021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 59/71] fix: linked list iterators: wrong last element in
 reverse, elements skipped after a change, reading past the end, resuming
 after exhaustion

---
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 16 +++++++---------
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..18c1204 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,9 +19,9 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = list->list.size() - 1;  // SIZE_MAX if there is nothing to iterate
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -43,11 +43,6 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -56,6 +51,7 @@ static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
     if (self->container->list.empty()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -63,12 +59,13 @@ static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            int element = *(--self->container->list.end());
+            int element = self->container->list.front();
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
+        if (self->index >= self->container->list.size()) {
             // already finish iteration
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
@@ -80,6 +77,7 @@ static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
         return PyFast_FromInt(element);
     } else {
         if (self->index >= self->container->list.size()) {
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..45030a3 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,9 +19,9 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = list->list.size() - 1;  // SIZE_MAX if there is nothing to iterate
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -43,11 +43,6 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
     }
 
     auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
     self->cacheIter = newIter;
     self->cacheModCount = self->container->modCount;
 }
@@ -56,6 +51,7 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
     if (self->container->list.empty()) {
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -63,13 +59,14 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            PyObject *element = *(--self->container->list.end());
+            PyObject *element = self->container->list.front();
             self->index = SIZE_MAX;
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
+        if (self->index >= self->container->list.size()) {
             // already finish iteration
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
@@ -82,6 +79,7 @@ static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
         return element;
     } else {
         if (self->index >= self->container->list.size()) {
+            self->index = SIZE_MAX;
             PyErr_SetNone(PyExc_StopIteration);
             return nullptr;
         }
-- 
2.43.0


From 4e91db14bc4a7999d450b477dfa9774cff1ceecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 60/71] fix: repr of int lists: allocation failures terminate
 the interpreter

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 37 +++++++++++++----------
 pyfastutil/src/ints/IntArrayList.cpp    | 37 +++++++++++++----------
 pyfastutil/src/ints/IntLinkedList.cpp   | 39 ++++++++++++++-----------
 3 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index abd2acf..dc047b3 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1141,26 +1141,31 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%lld", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index dcb7610..1340817 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1139,26 +1139,31 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        for (size_t i = 0; i < lastIdx; ++i) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    for (size_t i = 0; i < lastIdx; ++i) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", vec[i]);
+        int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", vec[lastIdx]);
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 8ca791f..6639b7a 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1051,27 +1051,32 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    size_t size = vec.size();
-    auto str = std::string("[");
-    str.reserve(size * 4);
-
-    char buffer[32];
+    try {
+        size_t size = vec.size();
+        auto str = std::string("[");
+        str.reserve(size * 4);
+
+        char buffer[32];
+
+        const size_t lastIdx = size - 1;
+        auto iter = vec.begin();
+        for (size_t i = 0; i < lastIdx; ++i, ++iter) {
+            // to string
+            int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+            str.append(buffer, len);
+            str += ", ";
+        }
 
-    const size_t lastIdx = size - 1;
-    auto iter = vec.begin();
-    for (size_t i = 0; i < lastIdx; ++i, ++iter) {
-        // to string
-        int len = snprintf(buffer, sizeof(buffer), "%d", *iter);
+        int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
         str.append(buffer, len);
-        str += ", ";
-    }
-
-    int len = snprintf(buffer, sizeof(buffer), "%d", *at(vec, lastIdx));
-    str.append(buffer, len);
 
-    str += "]";
+        str += "]";
 
-    return PyUnicode_FromString(str.c_str());
+        return PyUnicode_FromString(str.c_str());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
+    }
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
-- 
2.43.0


From 16a27f84b95c9df32b8f59360dd30477352810a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 61/71] fix: reference counts of immortal objects are changed
 on 64-bit builds

---
 pyfastutil/src/utils/PythonUtils.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index a9a3a2b..438bdb3 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -9,16 +9,23 @@
 #include "PythonPCH.h"
 #include "Compat.h"
 
+#ifdef IS_PYTHON_312_OR_LATER
+// immortal objects have the sign bit of the lower 32 bits set
+#define PyFast_IS_IMMORTAL(obj) (static_cast<int32_t>(((PyObject *) (obj))->ob_refcnt) < 0)
+#else
+#define PyFast_IS_IMMORTAL(obj) (((PyObject *) (obj))->ob_refcnt < 0)
+#endif
+
 template<typename T>
 static __forceinline constexpr void PyFast_INCREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+    if (UNLIKELY(PyFast_IS_IMMORTAL(object)))
         return;
     ((PyObject *) object)->ob_refcnt++;
 }
 
 template<typename T>
 static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+    if (UNLIKELY(PyFast_IS_IMMORTAL(object)))
         return;
     if (--((PyObject *) object)->ob_refcnt == 0)
         _Py_Dealloc((PyObject *) object);
@@ -28,7 +35,7 @@ template<typename T>
 static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
     if (UNLIKELY(object == nullptr))
         return;
-    if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
+    if (UNLIKELY(PyFast_IS_IMMORTAL(object)))
         return;
     if (--((PyObject *) object)->ob_refcnt == 0)
         _Py_Dealloc((PyObject *) object);
-- 
2.43.0


From 6143e21378ac408aae4c8debac77db7eb4077474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 62/71] fix: negative short and char arguments lose their sign
 on Python 3.12

---
 pyfastutil/src/utils/PythonUtils.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 438bdb3..bb0cfca 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -113,6 +113,12 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
 #define PyLong_TAGS(obj) ((obj)->lv_tag)
 #endif
 
+#ifdef IS_PYTHON_312_OR_LATER
+#define PyFast_SIGN(obj) (1 - static_cast<Py_ssize_t>(PyLong_TAGS((PyLongObject *) (obj)) & 3))
+#else
+#define PyFast_SIGN(obj) Py_SIZE(obj)
+#endif
+
 static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #ifdef IS_PYTHON_313_OR_LATER
     return PyLong_AsInt(obj);
@@ -133,7 +139,7 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 }
 
 static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
+    const Py_ssize_t size = PyFast_SIGN(obj);
     if (size == 0) {
         return 0;
     } else if (size < 0) {
@@ -144,7 +150,7 @@ static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexce
 }
 
 static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
+    const Py_ssize_t size = PyFast_SIGN(obj);
     if (size == 0) {
         return 0;
     } else if (size < 0) {
-- 
2.43.0


From 1b7b346e31bc9435053c91d6d920341372ddfa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 63/71] fix: make every type ready when its module is
 initialised

The types were only readied on first use by a path that happens to do so;
until then x.append as a value raised AttributeError and hasattr() was False.
---
 pyfastutil/src/ints/BigIntArrayList.cpp         | 2 ++
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp            | 2 ++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 2 ++
 pyfastutil/src/ints/IntLinkedList.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 2 ++
 pyfastutil/src/objects/ObjectArrayList.cpp      | 2 ++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 2 ++
 pyfastutil/src/objects/ObjectLinkedList.cpp     | 2 ++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 2 ++
 pyfastutil/src/unsafe/ASM.cpp                   | 2 ++
 pyfastutil/src/unsafe/SIMD.cpp                  | 2 ++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp         | 2 ++
 pyfastutil/src/unsafe/Unsafe.cpp                | 2 ++
 14 files changed, 28 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index dc047b3..0022b64 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1273,6 +1273,8 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
+    if (PyType_Ready(&BigIntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index fa70429..11e0351 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -106,6 +106,8 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
+    if (PyType_Ready(&BigIntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 1340817..f9a861f 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1271,6 +1271,8 @@ void initializeIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
+    if (PyType_Ready(&IntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index f49f3b4..c3036c4 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -106,6 +106,8 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
+    if (PyType_Ready(&IntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 6639b7a..da710a2 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1156,6 +1156,8 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
+    if (PyType_Ready(&IntLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index 18c1204..9319e48 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -124,6 +124,8 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
+    if (PyType_Ready(&IntLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 435a383..1f52fc3 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1242,6 +1242,8 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
+    if (PyType_Ready(&ObjectArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index d065f84..d6abb20 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -109,6 +109,8 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
+    if (PyType_Ready(&ObjectArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 5cf9c89..d6810dd 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1198,6 +1198,8 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
+    if (PyType_Ready(&ObjectLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index 45030a3..57d47f5 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -127,6 +127,8 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..98cfa86 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -356,6 +356,8 @@ static struct PyModuleDef ASM_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
+    if (PyType_Ready(&ASMType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..9fc91de 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -402,6 +402,8 @@ static struct PyModuleDef SIMD_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
+    if (PyType_Ready(&SIMDType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..ff7cad1 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35663,6 +35663,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..ffd4ff3 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -407,6 +407,8 @@ static struct PyModuleDef Unsafe_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
+    if (PyType_Ready(&UnsafeType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
-- 
2.43.0


From c5277d3b81982658f5473a73d5f02cdc74b9dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 64/71] fix: repr of the object lists stops once appending
 failed

Py_DECREF was applied to the NULL string when the next repr failed too.
---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 3 +++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 1f52fc3..a19d538 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1156,6 +1156,9 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
         PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        if (reprList == nullptr) {
+            return nullptr;
+        }
     }
 
     PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index d6810dd..a6b596c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1113,6 +1113,9 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
 
         PyUnicode_AppendAndDel(&reprList, itemRepr);
         PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+        if (reprList == nullptr) {
+            return nullptr;
+        }
     }
 
     PyObject *itemRepr = PyObject_Repr(vec.back());
-- 
2.43.0


From 352e723496c30d6a4ded8e6e3755b20c666f8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 65/71] fix: ObjectArrayList: an empty list times a huge n does
 not loop n times

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index a19d538..09ce634 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -776,7 +776,7 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         }
 
         result->vector.reserve(selfSize * n);
-        for (Py_ssize_t i = 0; i < n; ++i) {
+        for (Py_ssize_t i = 0; selfSize > 0 && i < n; ++i) {
             for (const auto obj: self->vector) {
                 result->vector.push_back(obj);
                 Py_INCREF(obj);
@@ -826,7 +826,7 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             }
 
             self->vector.reserve(selfSize * n);
-            for (Py_ssize_t i = 1; i < n; ++i) {
+            for (Py_ssize_t i = 1; selfSize > 0 && i < n; ++i) {
                 for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
-- 
2.43.0


From 58393ded4b15ffca02719f327be69b8de3ac9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 66/71] fix: Unsafe.as_object returns a new reference

---
 pyfastutil/src/unsafe/Unsafe.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index ffd4ff3..fd3c8d7 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -247,7 +247,16 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "Address is null.");
+        }
+        return nullptr;
+    }
+
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
-- 
2.43.0


From 7520cd6789b449b8eb893e3da9a6c0eddc8f640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 67/71] fix: Unsafe.fgets releases its buffer and returns an
 empty string at the end of the stream

---
 pyfastutil/src/unsafe/Unsafe.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index fd3c8d7..57f3e86 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -352,14 +352,23 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    char *buffer = static_cast<char *>(malloc(bufferSize));
+    if (buffer == nullptr) {
+        return PyErr_NoMemory();
+    }
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
+        free(buffer);
+        if (feof(stdin)) {
+            return Py_BuildValue("s", "");
+        }
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    PyObject *result = Py_BuildValue("s", buffer);
+    free(buffer);
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From 5365a08f7f9051c9405b4293ef959a6ca624cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 68/71] fix: SIMD copies and reversals reject arguments that
 are no addresses or counts

---
 pyfastutil/src/unsafe/SIMD.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9fc91de..de5d711 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -46,6 +46,11 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
 
@@ -66,6 +71,11 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
 
@@ -84,6 +94,11 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     size_t count = PyLong_AsSize_t(args[1]);
 
+    // Check for conversion errors
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+
     // Perform the memory copy
     simd::simdReverse(address, count);
 
-- 
2.43.0


From 66af09f0e94204871ee9e98bf73840127f80ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 69/71] fix: SIMD vector initialisers report failing
 conversions and leave the memory alone

---
 pyfastutil/src/unsafe/SIMD.cpp | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index de5d711..6dd421d 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -158,12 +158,17 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
             PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
             PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -180,7 +185,8 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
@@ -190,6 +196,10 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
             PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
             PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -206,7 +216,8 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i vector = _mm512_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -224,6 +235,10 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
             PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -240,10 +255,15 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -260,12 +280,17 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
             PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
@@ -282,7 +307,8 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i vector = _mm256_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -292,6 +318,10 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
             PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = vector;
 
     Py_RETURN_NONE;
 #else
-- 
2.43.0


From 0e2a4c139d6f090151b95e9a3ef52a5f05998a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 70/71] fix: qReverse<16> keeps the halves of an element in
 order

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From 352328d5ca8a6ffc0d2c2ef0f7dc43b172946f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 71/71] fix: Unsafe.fgets with room for no character returns an
 empty string

---
 pyfastutil/src/unsafe/Unsafe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 57f3e86..3ef0671 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -359,7 +359,7 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
         free(buffer);
-        if (feof(stdin)) {
+        if (!ferror(stdin)) {
             return Py_BuildValue("s", "");
         }
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
-- 
2.43.0

