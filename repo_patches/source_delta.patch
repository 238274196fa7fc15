From 6c6575061839e16bed212f68046093fe1210585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 01/48] fix: remove the temporary output file on failure before
 its name is freed

---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..a0af3eb 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1321,9 +1321,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From b4d759c742b8fb7888ca6469a2dac0f3d95c51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 02/48] fix: export the read-only mapped vector data as a
 read-only buffer

---
 python/pointless_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..a20f66a 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -499,7 +499,7 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 		return 0;
 
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From d7587759844887141de1e477031aa23ac47f7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 03/48] fix: keep the GIL while opening from a mutable buffer

---
 python/pointless_object.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..6caad04 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -198,22 +198,24 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 		return -1;
 	}
 
-	Py_BEGIN_ALLOW_THREADS
+	if (fname_) {
+		Py_BEGIN_ALLOW_THREADS
 
-	if (do_validate) {
-		if (fname_)
+		if (do_validate)
 			i = pointless_open_f(&self->p, fname_, &error);
 		else
-			i = pointless_open_b(&self->p, buf, buflen, &error);
-	} else {
-		if (fname_)
 			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
+
+		Py_END_ALLOW_THREADS
+
+	// the buffer belongs to a mutable object, hold on to the GIL so that nobody can resize it
+	} else {
+		if (do_validate)
+			i = pointless_open_b(&self->p, buf, buflen, &error);
 		else
 			i = pointless_open_b_skip_validate(&self->p, buf, buflen, &error);
 	}
 
-	Py_END_ALLOW_THREADS
-
 	if (!i) {
 		if (fname_)
 			PyErr_Format(PyExc_IOError, "error opening [%s]: %s", fname_, error);
-- 
2.43.0


From 008df212fd55677bfbbbcd8ca02bc02966b31d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 04/48] fix: refuse to re-open a Pointless object whose values
 are still referenced

---
 python/pointless_object.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 6caad04..6fa5c6b 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -133,6 +133,16 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* error = 0;
 	int i = 0;
 
+	// objects derived from the current file point into it
+	if (self->n_root_refs != 0 ||
+		self->n_vector_refs != 0 ||
+		self->n_bitvector_refs != 0 ||
+		self->n_map_refs != 0 ||
+		self->n_set_refs != 0) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is still referenced by its values");
+		return -1;
+	}
+
 	if (self->is_open) {
 		Py_BEGIN_ALLOW_THREADS
 		pointless_close(&self->p);
@@ -142,24 +152,6 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	self->allow_print = 1;
 
-	if (self->n_root_refs != 0 ||
-		self->n_vector_refs != 0 ||
-		self->n_bitvector_refs != 0 ||
-		self->n_map_refs != 0 ||
-		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
-	}
-
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
-
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
 	static char* kwargs[] = {"filename_or_buffer", "allow_print", "validate", 0};
-- 
2.43.0


From 82edfd7a5147ddd43d7add092c77068efbdb8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 05/48] fix: accessors of a Pointless object that is not open
 raise instead of reading a closed file

---
 python/pointless_object.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 6fa5c6b..a1d8519 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -51,13 +51,28 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 	return (PyObject*)self;
 }
 
+static int PyPointless_check_open(PyPointless* self)
+{
+	if (self->is_open)
+		return 1;
+
+	PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+	return 0;
+}
+
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +94,9 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -107,7 +125,9 @@ static PyObject* PyPointless_GetRefs(PyPointless* self)
 
 static PyObject* PyPointless_sizeof(PyPointless* self)
 {
-	if (self->p.fd == 0)
+	if (!self->is_open)
+		return PyLong_FromUnsignedLongLong(sizeof(PyPointless));
+	else if (self->p.fd == 0)
 		return PyLong_FromUnsignedLongLong(sizeof(PyPointless) + self->p.buflen);
 	else
 		return PyLong_FromUnsignedLongLong(sizeof(PyPointless) + self->p.fd_len);
-- 
2.43.0


From f68981a846c4126b654570cdc1cda62b18d8b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 06/48] fix: mark a Pointless object closed before releasing
 the GIL to close it

---
 python/pointless_object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index a1d8519..3890a1e 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -164,10 +164,10 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	}
 
 	if (self->is_open) {
+		self->is_open = 0;
 		Py_BEGIN_ALLOW_THREADS
 		pointless_close(&self->p);
 		Py_END_ALLOW_THREADS
-		self->is_open = 0;
 	}
 
 	self->allow_print = 1;
-- 
2.43.0


From 3f4a5c12141f113176603d2c515a37193b679a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 07/48] fix: refuse files with 32-bit offsets instead of
 reading them as 64-bit ones

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..4612536 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 526ed4423c9d890a25b025c198a969fa497c60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 08/48] fix: report a failing key comparison when printing sets
 and maps

---
 src/pointless_debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_debug.c b/src/pointless_debug.c
index 27862cc..076ad74 100644
--- a/src/pointless_debug.c
+++ b/src/pointless_debug.c
@@ -238,7 +238,7 @@ static int pv_cmp(int a, int b, int* c, void* user)
 	pointless_complete_value_t v_b = pointless_value_to_complete(&state->keys[b]);
 	int32_t v = pointless_cmp_reader(state->p, &v_a, state->p, &v_b, state->error);
 	*c = (int)v;
-	return (state->error != 0);
+	return (*state->error == 0);
 }
 
 static void pv_swap(int a, int b, void* user)
-- 
2.43.0


From b698acc8d42d6078f64c18bd6e16e9b6bb2eecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 09/48] fix: sorting reports every failed comparison

---
 src/custom_sort.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..61fde17 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -42,7 +42,7 @@ loop:
 			}
 		}
 
-		return 1;
+		return !is_error;
 	}
 
 	presorted = 1;
@@ -57,6 +57,9 @@ loop:
 		}
 	}
 
+	if (is_error)
+		return 0;
+
 	if (presorted)
 		return 1;
 
@@ -120,6 +123,9 @@ loop:
 		pc -= 1;
 	}
 
+	if (is_error)
+		return 0;
+
 	pn = a + n;
 	r = SIMPLE_MIN(pa - a, pb - pa);
 
-- 
2.43.0


From 18187d736d53c743ed684c9a90dc179045ae669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 10/48] fix: hashing errors reach the caller's error message

---
 python/pointless_pyobject_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..dae8d3c 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -90,7 +90,7 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_state_t* state)
 {
 	if (PyUnicode_READY(py_object) != 0) {
-		state->error = "PyUnicode_READY failed";
+		*state->error = "PyUnicode_READY failed";
 		PyErr_Clear();
 		return 0;
 
@@ -113,7 +113,7 @@ static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_stat
 					break;
 				// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 				default:
-					state->error = "hash statement fallthrough";
+					*state->error = "hash statement fallthrough";
 					break;
 			}
 	}
-- 
2.43.0


From 0d2390ea036bccbd58c40d3dbed9e8b8aa90ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 11/48] fix: Bitvector reports an exception raised by its input
 iterator

---
 python/pointless_bitvector.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..ff553ab 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -190,6 +190,16 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 			i += 1;
 		}
+
+		// the iterator itself failed
+		if (PyErr_Occurred()) {
+			pointless_free(self->primitive_bits);
+			self->primitive_n_bits = 0;
+			self->primitive_bits = 0;
+			self->primitive_n_bytes_alloc = 0;
+			self->primitive_n_one = 0;
+			return -1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 364d9b1a19fc91ecf3a24bf593ccffd0ca6b592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 12/48] fix: recognise the out-of-memory result of Judy
 insertions

---
 python/pointless_create.c    |  6 +++---
 src/pointless_create.c       |  6 +++---
 src/pointless_cycle_marker.c | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..2a88004 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -18,10 +18,10 @@ static uint32_t pointless_export_get_seen(pointless_export_state_t* state, PyObj
 
 static int pointless_export_set_seen(pointless_export_state_t* state, PyObject* py_object, uint32_t handle)
 {
-	PWord_t value = 0;
-	JLI(value, state->objects_used, (Word_t)py_object);
+	// not JLI(), which ends the process when it is out of memory
+	PWord_t value = (PWord_t)JudyLIns(&state->objects_used, (Word_t)py_object, PJE0);
 
-	if (value == 0)
+	if (value == 0 || value == (PWord_t)PJERR)
 		return 0;
 
 	*value = (Word_t)handle;
diff --git a/src/pointless_create.c b/src/pointless_create.c
index a0af3eb..a5dd15a 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1582,7 +1582,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1662,7 +1662,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1939,7 +1939,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || PValue == PJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..c6b2723 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -109,7 +109,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -159,7 +159,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -170,7 +170,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -233,7 +233,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || PValue == (Word_t*)PJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -262,7 +262,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From db0eae9f694e02e1914ee17f92dccad771b2ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 13/48] fix: compare set and map keys of different types as
 different when serializing

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..8284c32 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -523,7 +523,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From b1a52159feb4bf410dbf98f8bea395e83c575e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 14/48] fix: limit the depth of acyclic comparisons, which also
 crashed on vectors

---
 src/pointless_cmp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8284c32..8ebf11a 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -495,8 +495,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 
 static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
 {
-	// check for maximum depth, but only if values could be cyclic
-	if (error && depth >= POINTLESS_MAX_DEPTH) {
+	// check for maximum depth
+	if (depth >= POINTLESS_MAX_DEPTH) {
 		*error = "maximum recursion depth reached during comparison";
 		return 0;
 	}
@@ -546,7 +546,8 @@ int32_t pointless_cmp_reader(pointless_t* p_a, pointless_complete_value_t* a, po
 
 int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
 {
-	return pointless_cmp_reader_rec(p_a, a, p_b, b, 0, 0);
+	const char* error = 0;
+	return pointless_cmp_reader_rec(p_a, a, p_b, b, 0, &error);
 }
 
 int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
-- 
2.43.0


From ad61ecfc00bb1b57e2bb82873494f36369e34ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 15/48] fix: bound the recursion depth of sorting

---
 src/custom_sort.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index 61fde17..7a62de4 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -139,13 +139,23 @@ loop:
 	for (i = 0; i < r; i++)
 		(*swap)(pb + i, pn - r + i, user);
 
-	if ((r = pb - pa) > 1) {
-		if (!bentley_qsort_priv(a, r, cmp, swap, user))
+	// recurse into the smaller part, so that the recursion depth is at most log2(n)
+	r = pb - pa;
+	d = pd - pc;
+
+	if (r <= d) {
+		if (r > 1 && !bentley_qsort_priv(a, r, cmp, swap, user))
+			return 0;
+
+		if (d > 1) {
+			a = pn - d;
+			n = d;
+			goto loop;
+		}
+	} else {
+		if (d > 1 && !bentley_qsort_priv(pn - d, d, cmp, swap, user))
 			return 0;
-	}
 
-	if ((r = pd - pc) > 1) {
-		a = pn - r;
 		n = r;
 		goto loop;
 	}
-- 
2.43.0


From 71003d34a9d81e81a7cddb469d19e3d82b76a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 16/48] fix: limit the depth when copying values from a file

---
 src/pointless_recreate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..e601a00 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -90,6 +90,11 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 
 	handle = POINTLESS_CREATE_VALUE_FAIL;
 
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		*state->error = "maximum depth exceeded";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
 	uint32_t n_items = 0, i = 0, n_bits = 0;
 	pointless_value_t* child_v = 0;
 	pointless_value_t* key = 0;
-- 
2.43.0


From 814a4cafc0ce71e885b811390596847cdc27c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 17/48] fix: bound the recursion depth of hashing

---
 src/pointless_hash.c | 75 ++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..2fabb55 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -30,29 +30,32 @@ uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s)
 
 #define HASH_UNICODE_SEED 1000000001L
 
-typedef uint32_t (*pointless_hash_reader_32_cb)(pointless_t* p, pointless_value_t* v);
-typedef uint32_t (*pointless_hash_create_32_cb)(pointless_create_t* c, pointless_create_value_t* v);
+typedef uint32_t (*pointless_hash_reader_32_cb)(pointless_t* p, pointless_value_t* v, uint32_t depth);
+typedef uint32_t (*pointless_hash_create_32_cb)(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth);
+
+static uint32_t pointless_hash_reader_rec_32(pointless_t* p, pointless_value_t* v, uint32_t depth);
+static uint32_t pointless_hash_create_rec_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth);
 
 // unicode is easy
-static uint32_t pointless_hash_reader_unicode_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_unicode_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	uint32_t* s = pointless_reader_unicode_value_ucs4(p, v);
 	return pointless_hash_unicode_ucs4_v1_32(s);
 }
 
-static uint32_t pointless_hash_create_unicode_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_unicode_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	uint32_t* s = ((uint32_t*)cv_get_unicode(v) + 1);
 	return pointless_hash_unicode_ucs4_v1_32(s);
 }
 
-static uint32_t pointless_hash_reader_string_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_string_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	uint8_t* s = pointless_reader_string_value_ascii(p, v);
 	return pointless_hash_string_v1_32(s);
 }
 
-static uint32_t pointless_hash_create_string_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_string_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	uint8_t* s = (uint8_t*)((uint32_t*)cv_get_string(v) + 1);
 	return pointless_hash_string_v1_32(s);
@@ -121,12 +124,12 @@ static uint32_t pointless_hash_int_32(uint32_t t, pointless_value_data_t* v)
 	return 0;
 }
 
-static uint32_t pointless_hash_reader_int_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_int_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	return pointless_hash_int_32(v->type, &v->data);
 }
 
-static uint32_t pointless_hash_create_int_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_int_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	return pointless_hash_int_32(v->header.type_29, &v->data);
 }
@@ -159,18 +162,18 @@ uint32_t pointless_hash_float_32(float f)
 	return hash.u32;
 }
 
-static uint32_t pointless_hash_reader_float_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_float_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	return pointless_hash_float_32(v->data.data_f);
 }
 
-static uint32_t pointless_hash_create_float_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_float_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	return pointless_hash_float_32(v->data.data_f);
 }
 
 // bitvectors are fairly easy
-static uint32_t pointless_hash_reader_bitvector_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_bitvector_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	void* buffer = 0;
 
@@ -180,7 +183,7 @@ static uint32_t pointless_hash_reader_bitvector_32(pointless_t* p, pointless_val
 	return pointless_bitvector_hash_32(v->type, &v->data, buffer);
 }
 
-static uint32_t pointless_hash_create_bitvector_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_bitvector_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	void* buffer = 0;
 
@@ -191,13 +194,13 @@ static uint32_t pointless_hash_create_bitvector_32(pointless_create_t* c, pointl
 }
 
 // nulls and empty_slot always return 0
-static uint32_t pointless_hash_reader_null_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_null_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 	{ return 0; }
-static uint32_t pointless_hash_create_null_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_null_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 	{ return 0; }
-static uint32_t pointless_hash_reader_empty_slot_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_empty_slot_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 	{ return 0; }
-static uint32_t pointless_hash_create_empty_slot_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_empty_slot_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 	{ return 0; }
 
 void pointless_vector_hash_init_32(pointless_vector_hash_state_32_t* state, uint32_t len)
@@ -219,7 +222,7 @@ uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state)
 	return state->x;
 }
 
-static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items)
+static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_value_t* v, uint32_t offset, uint32_t n_items, uint32_t depth)
 {
 	uint32_t h, i;
 	pointless_vector_hash_state_32_t state;
@@ -228,7 +231,7 @@ static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_v
 	for (i = offset; i < n_items + offset; i++) {
 		switch (v->type) {
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				h = pointless_hash_reader_32(p, pointless_reader_vector_value(p, v) + i);
+				h = pointless_hash_reader_rec_32(p, pointless_reader_vector_value(p, v) + i, depth + 1);
 				break;
 			case POINTLESS_VECTOR_I8:
 				h = pointless_hash_i32_32((int32_t)(pointless_reader_vector_i8(p, v)[i]));
@@ -269,14 +272,14 @@ static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_v
 	return pointless_vector_hash_end_32(&state);
 }
 
-static uint32_t pointless_hash_reader_vector_32_(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_vector_32_(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
 	uint32_t n_items = pointless_reader_vector_n_items(p, v);
-	return pointless_hash_reader_vector_32_priv(p, v, 0, n_items);
+	return pointless_hash_reader_vector_32_priv(p, v, 0, n_items, depth);
 }
 
 
-static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	uint32_t h, i, n_items;
 	void* items;
@@ -328,7 +331,7 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 			switch (v->header.type_29) {
 				case POINTLESS_VECTOR_VALUE_HASHABLE:
 					vv = &pointless_dynarray_ITEM_AT(pointless_create_value_t, &c->values, ((uint32_t*)items)[i]);
-					h = pointless_hash_create_32(c, vv);
+					h = pointless_hash_create_rec_32(c, vv, depth + 1);
 					break;
 				case POINTLESS_VECTOR_I8:
 					h = pointless_hash_i32_32((int32_t)(((int8_t*)items)[i]));
@@ -469,21 +472,39 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
-uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
+static uint32_t pointless_hash_reader_rec_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
+	// values nested deeper than this do not contribute to the hash
+	if (depth >= POINTLESS_MAX_DEPTH)
+		return 0;
+
 	assert(pointless_is_hashable(v->type));
 	pointless_hash_reader_32_cb cb = pointless_hash_reader_func_32(v->type);
-	return (*cb)(p, v);
+	return (*cb)(p, v, depth);
+}
+
+uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
+{
+	return pointless_hash_reader_rec_32(p, v, 0);
 }
 
 uint32_t pointless_hash_reader_vector_32(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
 {
-	return pointless_hash_reader_vector_32_priv(p, v, i, n);
+	return pointless_hash_reader_vector_32_priv(p, v, i, n, 0);
 }
 
-uint32_t pointless_hash_create_32(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_hash_create_rec_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
+	// values nested deeper than this do not contribute to the hash
+	if (depth >= POINTLESS_MAX_DEPTH)
+		return 0;
+
 	assert(pointless_is_hashable(v->header.type_29));
 	pointless_hash_create_32_cb cb = pointless_hash_create_func_32(v->header.type_29);
-	return (*cb)(c, v);
+	return (*cb)(c, v, depth);
+}
+
+uint32_t pointless_hash_create_32(pointless_create_t* c, pointless_create_value_t* v)
+{
+	return pointless_hash_create_rec_32(c, v, 0);
 }
-- 
2.43.0


From 7fd8f726cc6311dac6340f4d223c8917d8b67fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 18/48] fix: values that cannot be compared are not equal

---
 src/pointless_cmp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8ebf11a..15c7d8a 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -547,7 +547,13 @@ int32_t pointless_cmp_reader(pointless_t* p_a, pointless_complete_value_t* a, po
 int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
 {
 	const char* error = 0;
-	return pointless_cmp_reader_rec(p_a, a, p_b, b, 0, &error);
+	int32_t cmp = pointless_cmp_reader_rec(p_a, a, p_b, b, 0, &error);
+
+	// no way to report an error, but values which cannot be compared must not be found equal
+	if (error)
+		return -1;
+
+	return cmp;
 }
 
 int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
-- 
2.43.0


From ca0ae0763377af218fc0727c2797c8dbadc5325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 19/48] fix: release the references module initialisation still
 owns when it fails

---
 pointless_ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointless_ext.c b/pointless_ext.c
index 7f7c41c..f0c9e74 100644
--- a/pointless_ext.c
+++ b/pointless_ext.c
@@ -139,6 +139,7 @@ PyInit_pointless(void)
 		Py_INCREF((PyObject*)types[i].type);
 
 		if (PyModule_AddObject(module_pointless, types[i].name, (PyObject*)types[i].type) != 0) {
+			Py_DECREF((PyObject*)types[i].type);
 			Py_DECREF(module_pointless);
 			MODULEINITERROR;
 		}
@@ -152,11 +153,13 @@ PyInit_pointless(void)
 	}
 
 	if (PyCapsule_SetContext(c_api, (void*)POINTLESS_MAGIC_CONTEXT) != 0) {
+		Py_DECREF(c_api);
 		Py_DECREF(module_pointless);
 		MODULEINITERROR;
 	}
 
 	if (PyModule_AddObject(module_pointless, "pointless_CAPI", c_api) != 0) {
+		Py_DECREF(c_api);
 		Py_DECREF(module_pointless);
 		MODULEINITERROR;
 	}
-- 
2.43.0


From 80da53f392316852262efb19d81d51768e674ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 20/48] fix: bitvector constructor releases its iterator and
 items

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index ff553ab..85b0c33 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -185,12 +185,17 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 				if (!PyErr_Occurred())
 					PyErr_SetString(PyExc_ValueError, "sequence must only contain True, False, 0 or 1");
 
+				Py_DECREF(obj);
+				Py_DECREF(sequence_iterator);
 				return -1;
 			}
 
+			Py_DECREF(obj);
 			i += 1;
 		}
 
+		Py_DECREF(sequence_iterator);
+
 		// the iterator itself failed
 		if (PyErr_Occurred()) {
 			pointless_free(self->primitive_bits);
-- 
2.43.0


From 1814f39cc7c4e2934b6c5e9c90133402742efac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 21/48] fix: primitive vector releases an item it could not
 append

---
 python/pointless_prim_vector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..a731d45 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -377,8 +377,10 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			PyObject* item = 0;
 
 			while ((item = PyIter_Next(iterator)) != 0) {
-				if (!PyPointlessPrimVector_append_item(self, item))
+				if (!PyPointlessPrimVector_append_item(self, item)) {
+					Py_DECREF(item);
 					break;
+				}
 
 				Py_DECREF(item);
 				item = 0;
@@ -862,8 +864,10 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		return 0;
 
 	while ((item = PyIter_Next(iterator)) != 0) {
-		if (!PyPointlessPrimVector_append_item(self, item))
+		if (!PyPointlessPrimVector_append_item(self, item)) {
+			Py_DECREF(item);
 			break;
+		}
 
 		n_append += 1;
 		Py_DECREF(item);
-- 
2.43.0


From 501dc237a876e6798e76718d403a1283e9b1fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 22/48] fix: from_remap frees the vector it was building when
 an index is bad

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index a731d45..d665fe6 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1833,17 +1833,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
+			pointless_dynarray_destroy(&a_);
 			return 0;
 		}
 
-- 
2.43.0


From 96e4e18b6c8780191a339651a939681ac1d52f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 23/48] fix: integer comparison releases its zero when the
 comparison fails

---
 python/pointless_pyobject_cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..60d93e0 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -91,6 +91,8 @@ static int32_t pypointless_is_pylong_negative(PyObject* py_object, pypointless_c
 
 	int c = PyObject_RichCompareBool(py_object, i, Py_LT);
 
+	Py_DECREF(i);
+
 	if (c == -1) {
 		PyErr_Clear();
 		state->error = "integer rich-compare error";
@@ -100,8 +102,6 @@ static int32_t pypointless_is_pylong_negative(PyObject* py_object, pypointless_c
 	if (c == 1)
 		retval = 1;
 
-	Py_DECREF(i);
-
 	return retval;
 }
 
-- 
2.43.0


From e5db3bf1cd1cae33112148a9f60fce285fb4c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 24/48] fix: free the creation state when an object cannot be
 exported

---
 python/pointless_create.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 2a88004..f209fcf 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -532,6 +532,8 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 
 	pointless_export_py(&state, object);
 
+	create_end = 1;
+
 	if (state.is_error)
 		goto cleanup;
 
@@ -597,6 +599,8 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 
 	pointless_export_py(&state, object);
 
+	create_end = 1;
+
 	if (state.is_error)
 		goto cleanup;
 
-- 
2.43.0


From 209afd5c87ef3484a61b2ea49297c61f205ad2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 25/48] fix: serialize_to_bytearray frees the buffer it copied

---
 python/pointless_create.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f209fcf..00685f9 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -613,8 +613,10 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 
 	if (buffer_type == 0)
 		retval = (PyObject*)PyPointlessPrimVector_from_buffer(buf, buflen);
-	else
+	else {
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
+		pointless_free(buf);
+	}
 
 cleanup:
 
-- 
2.43.0


From 5e065ccf0196f055901e9d8903ed5ad8502a1c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 26/48] fix: exporting a set releases its items and its
 iterator

---
 python/pointless_create.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 00685f9..b976178 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -363,7 +363,8 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		// handles are cached by object address, so iterate over what the set itself keeps alive
+		PyObject* iterator = PySet_Type.tp_iter(py_object);
 		PyObject* item = 0;
 
 		if (iterator == 0) {
@@ -374,10 +375,10 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		// get a handle
 		handle = pointless_create_set(&state->c);
-		RETURN_OOM_IF_FAIL(handle, state);
 
 		// cache object
-		if (!pointless_export_set_seen(state, py_object, handle)) {
+		if (handle == POINTLESS_CREATE_VALUE_FAIL || !pointless_export_set_seen(state, py_object, handle)) {
+			Py_DECREF(iterator);
 			RETURN_OOM(state);
 		}
 
@@ -385,6 +386,8 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 
+			Py_DECREF(item);
+
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
-- 
2.43.0


From ef1b4eae2039450e15f0ab10cb55f9d39610a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 27/48] fix: negative index assignment to a
 PyPointlessPrimVector read the object as a list

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index d665fe6..b5d6e05 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -615,7 +615,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From 3929fe0d70dc19ee16d1ee2a8e2376a9adba5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 28/48] fix: deleting an item of a PyPointlessPrimVector or
 PyPointlessBitvector crashed

---
 python/pointless_bitvector.c   | 5 +++++
 python/pointless_prim_vector.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 85b0c33..4db6196 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -268,6 +268,11 @@ uint32_t PyPointlessBitvector_is_set(PyPointlessBitvector* self, uint32_t i)
 
 static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObject* item, PyObject* value)
 {
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "PyPointlessBitvector does not support item deletion");
+		return -1;
+	}
+
 	if (self->is_pointless) {
 		PyErr_SetString(PyExc_ValueError, "this PyPointlessBitvector is read-only");
 		return -1;
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index b5d6e05..79c1cf2 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -608,6 +608,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 
 static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
 {
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "PyPointlessPrimVector does not support item deletion");
+		return -1;
+	}
+
 	if (PyIndex_Check(item)) {
 		Py_ssize_t i = PyNumber_AsSsize_t(item, PyExc_IndexError);
 
-- 
2.43.0


From 4a4df45705de34d45bda0fc9dbf4430e33fce10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 29/48] fix: a crafted item count of over 2^31 made opening the
 file loop forever

---
 src/pointless_hash_table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..2337de0 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -4,7 +4,8 @@ static uint32_t next_power_of_2(uint32_t n)
 {
 	uint32_t p = 1;
 
-	while (p < n)
+	// 0 iff: no power of 2 fits
+	while (p < n && p != 0)
 		p <<= 1;
 
 	return p;
-- 
2.43.0


From 0032cee12b96a79cafd255967f32cd063161aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 30/48] fix: hashing a vector which holds an unhashable item
 called a null function

---
 src/pointless_hash.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 2fabb55..7d71424 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -474,11 +474,10 @@ uint32_t pointless_is_hashable(uint32_t type)
 
 static uint32_t pointless_hash_reader_rec_32(pointless_t* p, pointless_value_t* v, uint32_t depth)
 {
-	// values nested deeper than this do not contribute to the hash
-	if (depth >= POINTLESS_MAX_DEPTH)
+	// values nested deeper than this do not contribute to the hash, and neither do unhashable items of a vector
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->type))
 		return 0;
 
-	assert(pointless_is_hashable(v->type));
 	pointless_hash_reader_32_cb cb = pointless_hash_reader_func_32(v->type);
 	return (*cb)(p, v, depth);
 }
@@ -495,11 +494,10 @@ uint32_t pointless_hash_reader_vector_32(pointless_t* p, pointless_value_t* v, u
 
 static uint32_t pointless_hash_create_rec_32(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
-	// values nested deeper than this do not contribute to the hash
-	if (depth >= POINTLESS_MAX_DEPTH)
+	// values nested deeper than this do not contribute to the hash, and neither do unhashable items of a vector
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->header.type_29))
 		return 0;
 
-	assert(pointless_is_hashable(v->header.type_29));
 	pointless_hash_create_32_cb cb = pointless_hash_create_func_32(v->header.type_29);
 	return (*cb)(c, v, depth);
 }
-- 
2.43.0


From 8f785797e46ae27176c65db13beef7ab15674f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 31/48] fix: refuse set/map keys which hold unhashable items
 instead of writing a file that can not be opened

---
 src/pointless_create.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index a5dd15a..6db39f1 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -35,6 +35,27 @@ static pointless_value_t pointless_create_to_read_value(pointless_create_t* c, u
 	return r;
 }
 
+static int cv_is_hashable_rec(pointless_create_t* c, uint32_t v, uint32_t depth)
+{
+	uint32_t i, n_items;
+
+	if (!pointless_is_hashable(cv_value_type(v)))
+		return 0;
+
+	// values nested too deep do not contribute to the hash
+	if (cv_value_type(v) != POINTLESS_VECTOR_VALUE_HASHABLE || cv_is_outside_vector(v) || depth >= POINTLESS_MAX_DEPTH)
+		return 1;
+
+	n_items = pointless_dynarray_n_items(&cv_priv_vector_at(v)->vector);
+
+	for (i = 0; i < n_items; i++) {
+		if (!cv_is_hashable_rec(c, pointless_dynarray_ITEM_AT(uint32_t, &cv_priv_vector_at(v)->vector, i), depth + 1))
+			return 0;
+	}
+
+	return 1;
+}
+
 static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_table, const char** error)
 {
 	// return value
@@ -114,7 +135,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!cv_is_hashable_rec(c, keys_vector_ptr[i], 0)) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
-- 
2.43.0


From 7bee9de991a01b07a6296283dd686db71bc21f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:55 +0000
Subject: [PATCH 32/48] fix: a hashable vector in a cycle was accepted if first
 referenced as an ordinary vector

---
 src/pointless_validate.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 5ad869b..14dcd95 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -73,6 +73,19 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
+	// pass-2, cycle validation, for each reference, since references to one vector may differ in type
+	if (state->pass == 2) {
+		// only hashable vector can not be in a cycle
+		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+			uint32_t container_id = pointless_container_id(p, v);
+
+			if (bm_is_set_(state->cycle_marker, container_id)) {
+				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+				return POINTLESS_WALK_STOP;
+			}
+		}
+	}
+
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
@@ -106,17 +119,6 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 		if (!pointless_validate_heap_value(state->context, v, &state->error))
 			return POINTLESS_WALK_STOP;
-	// pass-2, cycle validation
-	} else if (state->pass == 2) {
-		// only hashable vector can not be in a cycle
-		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-			uint32_t container_id = pointless_container_id(p, v);
-
-			if (bm_is_set_(state->cycle_marker, container_id)) {
-				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-				return POINTLESS_WALK_STOP;
-			}
-		}
 	// pass-3, hash test
 	} else if (state->pass == 3) {
 		if (v->type == POINTLESS_MAP_VALUE_VALUE && !pointless_validate_map_complicated(state, v))
-- 
2.43.0


From 470691c6a05ca276e34922a8eb81174aebb1d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 33/48] fix: pop_bulk must not shrink a vector whose buffer is
 exported

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 79c1cf2..7341a85 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -921,6 +921,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
-- 
2.43.0


From 5089ebd3280fc5b31d481825d1320c105a63d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 34/48] fix: remove/fast_remove: check for exports after the
 item was found

---
 python/pointless_prim_vector.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 7341a85..d8825a8 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1116,14 +1116,15 @@ static PyObject* PyPointlessPrimVector_index(PyPointlessPrimVector* self, PyObje
 
 static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObject* args)
 {
-	if (!PyPointlessPrimVector_can_resize(self))
-		return 0;
-
 	size_t i = PyPointlessPrimVector_index_(self, args, "remove");
 
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// finding the item may have run Python code, which may have exported our buffer
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// shift array (needlessly expensive because of swap)
 	for (; i < pointless_dynarray_n_items(&self->array) - 1; i++)
 		pointless_dynarray_swap(&self->array, i, i + 1);
@@ -1137,14 +1138,15 @@ static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObj
 
 static PyObject* PyPointlessPrimVector_fast_remove(PyPointlessPrimVector* self, PyObject* args)
 {
-	if (!PyPointlessPrimVector_can_resize(self))
-		return 0;
-
 	size_t i = PyPointlessPrimVector_index_(self, args, "fast_remove");
 
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// finding the item may have run Python code, which may have exported our buffer
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// swap with last item and remove last item
 	pointless_dynarray_swap(&self->array, i, pointless_dynarray_n_items(&self->array) - 1);
 	pointless_dynarray_pop(&self->array);
-- 
2.43.0


From ab4c24ca1e2e37f0db3e1aeade737e92de9f5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 35/48] fix: append_bulk of a vector to itself read freed
 memory and never ended

---
 python/pointless_prim_vector.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index d8825a8..0fe3536 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -771,9 +771,13 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// 'obj' may be ourselves, in which case we grow while reading
+			size_t n_obj = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_obj; i++) {
+				pypointless_number_t number;
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 2b64bcfbf6b9c3668f97d6182acecf3d82c29358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 36/48] fix: append_bulk undoes only what was appended, and
 nothing while exported

---
 python/pointless_prim_vector.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0fe3536..1fc2498 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -757,6 +757,7 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	PyObject* iterator = 0;
 	PyObject* item = 0;
 	size_t n_append = 0;
+	size_t n_before = 0;
 	size_t i = 0;
 	size_t j = 0;
 
@@ -867,6 +868,7 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		}
 	}
 
+	n_before = pointless_dynarray_n_items(&self->array);
 	iterator = PyObject_GetIter(obj);
 
 	if (iterator == 0)
@@ -878,7 +880,6 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 			break;
 		}
 
-		n_append += 1;
 		Py_DECREF(item);
 		item = 0;
 	}
@@ -887,8 +888,11 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
-			pointless_dynarray_pop(&self->array);
+		// the iterator may have exported our buffer, or removed items itself
+		if (self->ob_exports == 0) {
+			while (pointless_dynarray_n_items(&self->array) > n_before)
+				pointless_dynarray_pop(&self->array);
+		}
 
 		return 0;
 	}
-- 
2.43.0


From c2708c29cc6e8021e445768a8f71ddb892f3c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 37/48] fix: PrimVector.__init__ must not release storage that
 was exported meanwhile

---
 python/pointless_prim_vector.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 1fc2498..aee10fd 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -310,18 +310,6 @@ static int PyPointlessPrimVector_can_resize(PyPointlessPrimVector* self)
 
 static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* args, PyObject* kwds)
 {
-	// if we have a buffer attached, we shouldn't be here
-	if (!PyPointlessPrimVector_can_resize(self))
-		return -1;
-
-	// printing enabled by default
-	self->allow_print = 1;
-	self->ob_exports = 0;
-
-	// clear previous contents
-	pointless_dynarray_clear(&self->array);
-	self->type = 0;
-
 	// parse input
 	const char* type = 0;
 	Py_buffer buffer;
@@ -339,6 +327,18 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "|ss*OO!", kwargs, &type, &buffer, &sequence_obj, &PyBool_Type, &allow_print))
 		return -1;
 
+	// if we have a buffer attached, we shouldn't be here
+	if (!PyPointlessPrimVector_can_resize(self))
+		goto cleanup;
+
+	// printing enabled by default
+	self->allow_print = 1;
+	self->ob_exports = 0;
+
+	// clear previous contents
+	pointless_dynarray_clear(&self->array);
+	self->type = 0;
+
 	if ((type != 0) == (buffer.obj != 0)) {
 		PyErr_SetString(PyExc_TypeError, "exactly one of type/buffer must be specified");
 		goto cleanup;
@@ -389,10 +389,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			Py_DECREF(iterator);
 			iterator = 0;
 
-			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
+			if (PyErr_Occurred())
 				goto cleanup;
-			}
 		}
 
 		retval = 0;
@@ -476,7 +474,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
+	// if there are exports the contents must stay where they are
+	if (retval == -1 && self->ob_exports == 0)
 		pointless_dynarray_clear(&self->array);
 
 	if (buffer.obj)
-- 
2.43.0


From 2ba245955b6a0b45b372cb0c48385e8a43424629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 38/48] fix: PrimVector.index on floats: the type may change
 while the argument is parsed

---
 python/pointless_prim_vector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index aee10fd..0ca293a 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1041,7 +1041,9 @@ static size_t PyPointlessPrimVector_index_(PyPointlessPrimVector* self, PyObject
 		if (!PyArg_ParseTuple(args, "f", &ff))
 			return (SIZE_MAX-1);
 
-		i = PyPointlessPrimVector_index_f(self, ff);
+		// parsing may have run Python code, which may have re-initialised us with another type
+		if (self->type == POINTLESS_PRIM_VECTOR_TYPE_FLOAT)
+			i = PyPointlessPrimVector_index_f(self, ff);
 	} else {
 		int is_signed = 0;
 		int64_t _ii = 0;
-- 
2.43.0


From d30fe8171e654318bc780b0687a84452f841db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 39/48] fix: min(), max() and range() of vectors always used
 the first element

PyPointlessVector_min_max() and PyPointlessPrimVector_min_max() never wrote
their output parameters.
---
 python/pointless_prim_vector.c | 3 +++
 python/pointless_vector.c      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0ca293a..cdd26b8 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1941,6 +1941,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a20f66a..8cc25ed 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 6980464ba1498153d0794e11d16b9e23fbb62e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 40/48] fix: allow_print of bitvectors and primitive vectors
 made by slicing, copying, sorting or from files was not initialised

---
 python/pointless_bitvector.c   | 2 ++
 python/pointless_prim_vector.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 4db6196..4d86691 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -762,6 +762,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = self->allow_print;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
@@ -964,6 +965,7 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pp->n_bitvector_refs += 1;
 
 	pv->is_pointless = 1;
+	pv->allow_print = 1;
 	pv->pp = pp;
 	pv->v = *v;
 	pv->primitive_n_bits = 0;
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index cdd26b8..098f41e 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2039,6 +2039,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 		return 0;
 
 	pv->ob_exports = 0;
+	pv->allow_print = self->allow_print;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
@@ -2215,6 +2216,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 	}
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = t;
 	pv->array = *v;
 
-- 
2.43.0


From 0a1af8091f5c6c96f3e1e381b4fb26f6e74dffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 41/48] fix: Bitvector.append_bulk of a bitvector to itself
 wrote beyond its storage

---
 python/pointless_bitvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 4d86691..4ef3fc3 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -663,12 +663,14 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 	}
 
+	// 'other' may be ourselves, in which case it grows as well
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = PyPointlessBitvector_length(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
+	for (size_t i = 0; i < n_other; i++) {
 		if (PyPointlessBitvector_is_set(other, i))
 			bm_set_(self->primitive_bits, n_before + i);
 	}
-- 
2.43.0


From 1a15d56b9f902542ae7216cff66706d3a180b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 42/48] fix: Bitvector: an iterator which shrinks the vector
 being initialised made bits be set outside of it

---
 python/pointless_bitvector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 4ef3fc3..1c8f085 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -145,8 +145,8 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
 
+		// the iterator may change the vector, so each value goes to whatever is the last bit after it was extended
 		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
 			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
 				is_error = 1;
@@ -156,7 +156,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
 				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
+					bm_set_(self->primitive_bits, self->primitive_n_bits - 1);
 					self->primitive_n_one += 1;
 				}
 			// 3) long (must be 0 or 1)
@@ -167,7 +167,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 					PyErr_Clear();
 					is_error = 1;
 				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
+					bm_set_(self->primitive_bits, self->primitive_n_bits - 1);
 					self->primitive_n_one += 1;
 				}
 			// 4) nothong else allowed
@@ -191,7 +191,6 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 			}
 
 			Py_DECREF(obj);
-			i += 1;
 		}
 
 		Py_DECREF(sequence_iterator);
-- 
2.43.0


From a99142a0e260b9d1fc2b32f444fedbc7db724cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 43/48] fix: Bitvector which could not be allocated kept its
 bit count

---
 python/pointless_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 1c8f085..8b048e9 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -132,6 +132,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		self->primitive_bits = pointless_calloc(self->primitive_n_bytes_alloc, 1);
 
 		if (self->primitive_bits == 0) {
+			self->primitive_n_bits = 0;
 			self->primitive_n_bytes_alloc = 0;
 			Py_XDECREF(sequence_iterator);
 			PyErr_NoMemory();
-- 
2.43.0


From cea7bbba52e3bb243fd5acc5515ff093a998c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 44/48] fix: append_bulk() and pop() of bitvectors must keep
 the count of set bits

---
 python/pointless_bitvector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 8b048e9..d64f09a 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -671,8 +671,10 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 
 	for (size_t i = 0; i < n_other; i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
@@ -717,6 +719,7 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
-- 
2.43.0


From fdbd8e3d85b8f86650ee75b368f69509275c0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 45/48] fix: sort_proj with a signed projection did not check
 the upper bound

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 098f41e..484d744 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1610,6 +1610,10 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			// values of signed projections have an upper bound as well
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From 21abb43f0607aa135824b1e39b134ef489ab1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 46/48] fix: strings outside of the BMP were cut to 8 bits per
 character when serialized

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index b976178..98b299b 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 286dca8ed6208e6b80505f2a9f9ea2c3e72087e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 47/48] fix: 64-bit primitive vectors hashed differently from
 the same vectors in files

---
 python/pointless_pyobject_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index dae8d3c..e649bc4 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -68,10 +68,10 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 				h = pointless_hash_u32_32(*((uint32_t*)item));
 				break;
 			case POINTLESS_PRIM_VECTOR_TYPE_I64:
-				h = pointless_hash_i64_32(*((int64_t*)item));
+				h = pointless_hash_i32_32((int32_t)*((int64_t*)item));
 				break;
 			case POINTLESS_PRIM_VECTOR_TYPE_U64:
-				h = pointless_hash_u64_32(*((uint64_t*)item));
+				h = pointless_hash_u32_32((uint32_t)*((uint64_t*)item));
 				break;
 			case POINTLESS_PRIM_VECTOR_TYPE_FLOAT:
 				h = pointless_hash_float_32(*((float*)item));
-- 
2.43.0


From f137cc003f46715f7971a78251653d9fa590ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:52 +0000
Subject: [PATCH 48/48] fix: elements of 64-bit vectors of a file could not be
 compared

---
 python/pointless_pyobject_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 60d93e0..40987e8 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -126,6 +126,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
-- 
2.43.0

