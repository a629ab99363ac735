From 27d5c943fc57a76304553c0bbe20a405743113ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 01/76] fix: list storage is copied with its real size during a
 collection

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..361b6bf 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -198,7 +198,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From b7cb97baccca0730d07f58373ceeb70ad060d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 02/76] fix: list, string and buffer indices are not truncated
 to 32 bits

---
 src/lib/objects/o_buffer.c | 4 ++--
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..b9ed1d0 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -191,7 +191,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -230,7 +230,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 361b6bf..3623091 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -216,7 +216,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -270,7 +270,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..9f70126 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From 726a13360ae5d3fe0e4e849f5ceb94b16209e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 03/76] fix: growing a map probes the same slots that lookups
 do

---
 src/lib/objects/o_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..91be46c 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -296,10 +296,10 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		// This won't trigger an error because the key
 		// surely has a hash method since we already
 		// hashed it once.
-		int hash = Object_Hash(keys[i]);
+		unsigned int hash = Object_Hash(keys[i]);
 
-		int mask = new_mapper_size - 1;
-		int pert = hash;
+		unsigned int mask = new_mapper_size - 1;
+		unsigned int pert = hash;
 			
 		int j = hash & mask;
 
-- 
2.43.0


From 3527c65b228609e8eeea8d91f2a7fb590604e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 04/76] fix: using an unhashable object as the key of a map is
 an error, not a crash

---
 src/lib/objects/o_map.c   | 12 ++++++++++++
 src/lib/objects/objects.c | 35 +++++++++++++++++++++++++++++++++++
 src/lib/objects/objects.h |  1 +
 3 files changed, 48 insertions(+)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index 91be46c..77dae72 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -225,6 +225,12 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 
 	MapObject *map = (MapObject*) self;
 
+	if(!Object_IsHashable(key))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Object %s can't be the key of a map", Object_GetName(key));
+		return NULL;
+	}
+
 	unsigned int mask = map->mapper_size - 1;
 	unsigned int hash = Object_Hash(key);
 	unsigned int pert = hash;
@@ -338,6 +344,12 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 
 	MapObject *map = (MapObject*) self;
 
+	if(!Object_IsHashable(key))
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Object %s can't be the key of a map", Object_GetName(key));
+		return 0;
+	}
+
 	if(map->count == calc_capacity(map->mapper_size))
 		if(!grow(map, heap, error))
 			return 0;
diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..627303e 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -105,6 +105,41 @@ bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 	return typ->type->istypeof(typ, obj, heap, error);
 }
 
+typedef struct {
+	int  depth;
+	bool hashable;
+} HashableCheck;
+
+#define MAX_KEY_DEPTH 64
+
+static void check_hashable(Object **referer, void *userp)
+{
+	HashableCheck *check = userp;
+	if (!check->hashable)
+		return;
+
+	const TypeObject *type = Object_GetType(*referer);
+	if (type->hash == NULL || type->copy == NULL || type->op_eql == NULL || check->depth == MAX_KEY_DEPTH) {
+		check->hashable = false;
+		return;
+	}
+
+	check->depth++;
+	Object_WalkReferences(*referer, check_hashable, check);
+	check->depth--;
+}
+
+// Tells whether an object can be the key of a map, which
+// is when it and all of the objects it contains can be 
+// hashed, copied and compared. Objects that contain them-
+// selves or that are nested too deeply can't.
+bool Object_IsHashable(Object *obj)
+{
+	HashableCheck check = { .depth = 0, .hashable = true };
+	check_hashable(&obj, &check);
+	return check.hashable;
+}
+
 int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8aa5126..8814526 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -101,6 +101,7 @@ unsigned int Heap_GetSize(Heap *heap);
 
 const TypeObject* Object_GetType(const Object *obj);
 const char*	      Object_GetName(const Object *obj);
+bool 		 Object_IsHashable(Object *obj);
 int 		 Object_Hash (Object *obj);
 Object*		 Object_Copy (Object *obj, Heap *heap, Error *err);
 int          Object_Call (Object *obj, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *err);
-- 
2.43.0


From f2ab3be24c01d2e6813283393bcacf67083219ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 05/76] fix: lists can be compared, so that they can be looked
 up as map keys

---
 src/lib/objects/o_list.c  | 25 +++++++++++++++++++++++++
 src/lib/objects/objects.c | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 3623091..dca97e9 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -49,6 +49,7 @@ static Object *copy(Object *self, Heap *heap, Error *err);
 static int hash(Object *self);
 static bool istypeof(Object *self, Object *other, Heap *heap, Error *error);
 static Object* keysof(Object *self, Heap *heap, Error  *error);
+static bool op_eql(Object *self, Object *other);
 
 static TypeObject t_list = {
 	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
@@ -62,6 +63,7 @@ static TypeObject t_list = {
 	.print = print,
 	.keysof = keysof,
 	.istypeof = istypeof,
+	.op_eql = op_eql,
 	.walk = walk,
 	.walkexts = walkexts,
 };
@@ -104,6 +106,29 @@ keysof(Object *self,
 	return Object_NewListOfConsecutiveIntegers(0, count-1, heap, error);
 }
 
+static bool op_eql(Object *self, Object *other)
+{
+	ListObject *list1 = (ListObject*) self;
+	ListObject *list2 = (ListObject*) other;
+
+	if (list1->count != list2->count)
+		return false;
+
+	for (int i = 0; i < list1->count; i++) {
+
+		// The caller made sure that all of the items 
+		// of the first list can be compared.
+		Error dummy;
+		Error_Init(&dummy);
+		bool same = Object_Compare(list1->vals[i], list2->vals[i], &dummy);
+		Error_Free(&dummy);
+
+		if (!same)
+			return false;
+	}
+	return true;
+}
+
 static int hash(Object *self)
 {
 	ASSERT(self != NULL);
diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 627303e..8a7eb3c 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -107,37 +107,50 @@ bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 
 typedef struct {
 	int  depth;
-	bool hashable;
-} HashableCheck;
+	bool need_hash;
+	bool ok;
+} ValueCheck;
 
-#define MAX_KEY_DEPTH 64
+#define MAX_VALUE_DEPTH 64
 
-static void check_hashable(Object **referer, void *userp)
+static void check_value(Object **referer, void *userp)
 {
-	HashableCheck *check = userp;
-	if (!check->hashable)
+	ValueCheck *check = userp;
+	if (!check->ok)
 		return;
 
 	const TypeObject *type = Object_GetType(*referer);
-	if (type->hash == NULL || type->copy == NULL || type->op_eql == NULL || check->depth == MAX_KEY_DEPTH) {
-		check->hashable = false;
+	if (type->op_eql == NULL 
+	    || (check->need_hash && (type->hash == NULL || type->copy == NULL)) 
+	    || check->depth == MAX_VALUE_DEPTH) {
+		check->ok = false;
 		return;
 	}
 
 	check->depth++;
-	Object_WalkReferences(*referer, check_hashable, check);
+	Object_WalkReferences(*referer, check_value, check);
 	check->depth--;
 }
 
+// Tells whether an object and all of the objects it
+// contains can be compared. Objects that contain them-
+// selves or that are nested too deeply can't.
+static bool is_comparable(Object *obj)
+{
+	ValueCheck check = { .depth = 0, .need_hash = false, .ok = true };
+	check_value(&obj, &check);
+	return check.ok;
+}
+
 // Tells whether an object can be the key of a map, which
 // is when it and all of the objects it contains can be 
 // hashed, copied and compared. Objects that contain them-
 // selves or that are nested too deeply can't.
 bool Object_IsHashable(Object *obj)
 {
-	HashableCheck check = { .depth = 0, .hashable = true };
-	check_hashable(&obj, &check);
-	return check.hashable;
+	ValueCheck check = { .depth = 0, .need_hash = true, .ok = true };
+	check_value(&obj, &check);
+	return check.ok;
 }
 
 int Object_Hash(Object *obj)
@@ -313,7 +326,7 @@ _Bool Object_Compare(Object *obj1, Object *obj2, Error *error)
 	if(obj1->type != obj2->type)
 		return 0;
 
-	if(obj1->type->op_eql == NULL)
+	if(!is_comparable(obj1))
 	{
 		Error_Report(error, 0, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
 		return 0;
-- 
2.43.0


From 61916aebb4b673b80286beead6961eb9bb96345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 06/76] fix: keysof doesn't share mutable keys with the map

---
 src/lib/objects/o_map.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index 77dae72..d38f9b0 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -74,7 +74,27 @@ keysof(Object *self,
 {
 	MapObject *map = (MapObject*) self;
 #warning "This shouldn't return items that contain none"
-	return Object_NewList2(map->count, map->keys, heap, error);
+
+	Object *list = Object_NewList2(map->count, map->keys, heap, error);
+	if (list == NULL)
+		return NULL;
+
+	// Mutable keys must not be shared with the caller, or 
+	// changing them would change the keys of the map.
+	for (int i = 0; i < map->count; i++) {
+
+		Object *idx = Object_FromInt(i, heap, error);
+		if (idx == NULL)
+			return NULL;
+
+		Object *key = Object_Copy(map->keys[i], heap, error);
+		if (key == NULL)
+			return NULL;
+
+		if (!Object_Insert(list, idx, key, heap, error))
+			return NULL;
+	}
+	return list;
 }
 
 static bool 
-- 
2.43.0


From ac57d05502e1cad9e4325ef8872a3b2c80988126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 07/76] fix: floats that compare equal have the same hash

---
 src/lib/objects/o_float.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..6b444e9 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,11 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// Positive and negative zero compare equal, so they
+	// must have the same hash.
+	double val = iobj->val == 0 ? 0 : iobj->val;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From 4fa8793d6cd807141243a00f71d1c141bb9cd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 08/76] fix: strings are compared and printed whole, NUL bytes
 included

---
 src/lib/objects/o_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 9f70126..fdb0cb7 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From c3c5ed984896468c906c8d0df1eec4acb68addfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 09/76] fix: byte sequences that aren't UTF-8 are rejected

---
 src/lib/utils/utf8.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 88fdc2d..41e79c4 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -151,6 +151,10 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
     {
         // May be UTF-8.
             
+        if((unsigned char) utf8_data[0] >= 0xF8)
+            // 11111xxx isn't the start of a sequence.
+            return -1;
+
         if((unsigned char) utf8_data[0] >= 0xF0)
             {
                 // 4 bytes.
@@ -158,14 +162,17 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
 
                 if(nbytes < 4)
                     return -1;
-                    
+
+                if((utf8_data[1] & 0xc0) != 0x80 || (utf8_data[2] & 0xc0) != 0x80 || (utf8_data[3] & 0xc0) != 0x80)
+                    return -1;
+
                 uint32_t temp 
                     = (((uint32_t) utf8_data[0] & 0x07) << 18) 
                     | (((uint32_t) utf8_data[1] & 0x3f) << 12)
                     | (((uint32_t) utf8_data[2] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[3] & 0x3f));
 
-                if(temp > 0x10ffff)
+                if(temp < 0x10000 || temp > 0x10ffff)
                     return -1;
 
                 *utf32_code = temp;
@@ -180,12 +187,15 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 3)
                     return -1;
 
+                if((utf8_data[1] & 0xc0) != 0x80 || (utf8_data[2] & 0xc0) != 0x80)
+                    return -1;
+
                 uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x0f) << 12)
                     | (((uint32_t) utf8_data[1] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[2] & 0x3f));
                 
-                if(temp > 0x10ffff)
+                if(temp < 0x800 || (temp >= 0xd800 && temp <= 0xdfff))
                     return -1;
 
                 *utf32_code = temp;
@@ -200,6 +210,9 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 if(nbytes < 2)
                     return -1;
 
+                if((unsigned char) utf8_data[0] < 0xC2 || (utf8_data[1] & 0xc0) != 0x80)
+                    return -1;
+
                 *utf32_code 
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
@@ -208,10 +221,9 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 return 2;
             }
             
-        // 1 byte
         // 10xxxxxx
-        *utf32_code = (uint32_t) utf8_data[0] & 0x3f;
-        return 1;
+        // An auxiliary byte can't start a sequence.
+        return -1;
     }
 
     // It's ASCII
-- 
2.43.0


From a9b080db0cdaa89d6aee3d4106340d645891190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 10/76] fix: the string and buffer modules are terminated like
 the others

---
 src/lib/builtins/buffer.c | 1 +
 src/lib/builtins/string.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..51f42fe 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -95,4 +95,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..58c044b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -272,4 +272,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From f2e4d22c693a59e7c4014f3a395d3948c36405a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 11/76] fix: string.trim doesn't read past the end of the
 string

---
 src/lib/builtins/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 58c044b..f8f8a09 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -203,7 +203,6 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
     size_t      srclen = pargs[0].as_string.size;
 
     size_t offset = 0;
-    size_t length = srclen;
 
     while (offset < srclen && srcstr[offset] == ' ')
         offset++;
@@ -217,6 +216,8 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
         result = Object_FromString("", 0, heap, error);
     else {
         
+        size_t length = srclen - offset;
+
         // NOTE: The string doesn't contain only
         //       whitespace, so the length can't
         //       go under 1.
-- 
2.43.0


From 09bbdf51bb14ad80c5923cd73f655be2f842ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 12/76] fix: string.chr doesn't truncate its argument to 32
 bits

---
 src/lib/builtins/string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index f8f8a09..6e587c5 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,11 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = -1;
+    if(value >= 0 && value <= 0x10ffff)
+        k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
-- 
2.43.0


From be5383456ab93f3a59b3902c979e4b8163d02902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 13/76] fix: math.pow takes both of its arguments

---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From cf257bebaecb3855ac5967b52c8dd855907095da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 14/76] fix: integers returned by built-ins aren't truncated to
 32 bits

---
 src/lib/builtins/files.c  |   4 +-
 src/lib/builtins/net.c    | 409 +++++++++++++++++++-------------------
 src/lib/builtins/random.c |  82 ++++----
 src/lib/builtins/string.c |   2 +-
 src/lib/builtins/utils.c  | 366 +++++++++++++++++-----------------
 5 files changed, 433 insertions(+), 430 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..c7e9934 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (long long int) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..a6455cb 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,203 +1,206 @@
-#include <errno.h>
-#include <string.h>
-#include <unistd.h>
-#include <sys/socket.h>
-#include <arpa/inet.h>
-#include "net.h"
-#include "utils.h"
-#include "../utils/defs.h"
-
-static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	ASSERT(argc == 4);
-	ParsedArgument pargs[4];
-	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
-		return -1;
-
-	int domain = pargs[0].as_int;
-	int   type = pargs[1].as_int;
-	int  proto = pargs[2].as_int;
-	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
-
-	int fd = socket(domain, type, proto);
-		
-	if (fd < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	
-	if (reuse) {
-		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
-			return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	}
-
-	return returnValues2(error, runtime, rets, "i", fd);
-}
-
-static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: family
-	// 2: port (family=AF_INET)
-	// 3: addr (family=AF_INET)
-
-	ASSERT(argc == 4);
-	ParsedArgument pargs[4];
-	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
-		return -1;
-
-	int     fd = pargs[0].as_int;
-	int family = pargs[1].as_int;
-
-	if (family != AF_INET)
-		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
-
-	int   port = pargs[2].as_int;
-	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
-
-	struct in_addr parsed_addr;
-	if (addr == NULL)
-		parsed_addr.s_addr = INADDR_ANY;
-	else {
-		int res = inet_pton(family, addr, &parsed_addr);
-		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
-		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
-	}
-
-	struct sockaddr_in buff;
-	buff.sin_family = family;
-	buff.sin_port   = htons(port);
-	buff.sin_addr   = parsed_addr;
-	if (bind(fd, (struct sockaddr*) &buff, sizeof(buff)) < 0)
-		return returnValues2(error, runtime, rets, "s", strerror(errno));
-
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: backlog
-
-	ASSERT(argc == 2);
-	ParsedArgument pargs[2];
-	if (!parseArgs(error, argv, argc, pargs, "ii"))
-		return -1;
-
-	int fd      = pargs[0].as_int;
-	int backlog = pargs[1].as_int;
-
-	if (listen(fd, backlog) < 0)
-		return returnValues2(error, runtime, rets, "s", strerror(errno));
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: buffer
-	// 2: count
-
-	ASSERT(argc == 3);
-	ParsedArgument pargs[3];
-	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
-		return -1;
-
-	int        fd = pargs[0].as_int;
-	void  *dstptr = pargs[1].as_buffer.data;
-	size_t dstlen = pargs[1].as_buffer.size;
-
-	size_t count;
-	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
-		if (n < 0)
-			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
-		count = MIN((size_t) n, dstlen);
-	} else
-		count = dstlen;
-	
-	ssize_t res = recv(fd, dstptr, count, 0);
-	if (res < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
-}
-
-static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: buffer
-	// 2: count
-
-	ASSERT(argc == 3);
-	ParsedArgument pargs[3];
-	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
-		return -1;
-
-	int        fd = pargs[0].as_int;
-	void  *srcptr = pargs[1].as_buffer.data;
-	size_t srclen = pargs[1].as_buffer.size;
-
-	size_t count;
-	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
-		if (n < 0)
-			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
-		count = MIN((size_t) n, srclen);
-	} else
-		count = srclen;
-	
-	ssize_t res = send(fd, srcptr, count, 0);
-	if (res < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
-}
-
-static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-
-	ASSERT(argc == 1);
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-
-	int fd = pargs[0].as_int;
-	
-	struct sockaddr_in new_addr;
-	socklen_t new_addr_size = sizeof(new_addr);
-	int new_fd = accept(fd, (struct sockaddr*) &new_addr, &new_addr_size);
-	if (new_fd < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	ASSERT(new_addr.sin_family == AF_INET);
-	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
-
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
-}
-
-
-static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-
-	ASSERT(argc == 1);
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-
-	int fd = pargs[0].as_int;
-	int res = close(fd);
-	return returnValues2(error, runtime, rets, "i", res);
-}
-
-StaticMapSlot bins_net[] = {
-	{ "AF_INET", SM_INT, .as_int = AF_INET, },
-	{ "SOCK_STREAM", SM_INT, .as_int = SOCK_STREAM, },
-	{ "SOCK_DGRAM",  SM_INT, .as_int = SOCK_DGRAM,  },
-	{ "socket",  SM_FUNCT, .as_funct = bin_socket, .argc = 4, },
-	{ "bind",    SM_FUNCT, .as_funct = bin_bind,   .argc = 4, },
-	{ "listen",  SM_FUNCT, .as_funct = bin_listen, .argc = 2, },
-	{ "accept",  SM_FUNCT, .as_funct = bin_accept, .argc = 1, },
-	{ "recv",    SM_FUNCT, .as_funct = bin_recv,   .argc = 3, },
-	{ "send",    SM_FUNCT, .as_funct = bin_send,   .argc = 3, },
-	{ "close",   SM_FUNCT, .as_funct = bin_close,  .argc = 1, },
-	{ NULL, SM_END, {}, {} },
-};
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
+#include <sys/socket.h>
+#include <arpa/inet.h>
+#include "net.h"
+#include "utils.h"
+#include "../utils/defs.h"
+
+static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	ASSERT(argc == 4);
+	ParsedArgument pargs[4];
+	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
+		return -1;
+
+	int domain = pargs[0].as_int;
+	int   type = pargs[1].as_int;
+	int  proto = pargs[2].as_int;
+	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
+
+	int fd = socket(domain, type, proto);
+		
+	if (fd < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	
+	if (reuse) {
+		int value = 1;
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
+			return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	}
+
+	return returnValues2(error, runtime, rets, "i", (long long int) fd);
+}
+
+static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: family
+	// 2: port (family=AF_INET)
+	// 3: addr (family=AF_INET)
+
+	ASSERT(argc == 4);
+	ParsedArgument pargs[4];
+	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
+		return -1;
+
+	int     fd = pargs[0].as_int;
+	int family = pargs[1].as_int;
+
+	if (family != AF_INET)
+		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
+
+	int   port = pargs[2].as_int;
+	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
+
+	struct in_addr parsed_addr;
+	if (addr == NULL)
+		parsed_addr.s_addr = INADDR_ANY;
+	else {
+		int res = inet_pton(family, addr, &parsed_addr);
+		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
+		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
+	}
+
+	struct sockaddr_in buff;
+	buff.sin_family = family;
+	buff.sin_port   = htons(port);
+	buff.sin_addr   = parsed_addr;
+	if (bind(fd, (struct sockaddr*) &buff, sizeof(buff)) < 0)
+		return returnValues2(error, runtime, rets, "s", strerror(errno));
+
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: backlog
+
+	ASSERT(argc == 2);
+	ParsedArgument pargs[2];
+	if (!parseArgs(error, argv, argc, pargs, "ii"))
+		return -1;
+
+	int fd      = pargs[0].as_int;
+	int backlog = pargs[1].as_int;
+
+	if (listen(fd, backlog) < 0)
+		return returnValues2(error, runtime, rets, "s", strerror(errno));
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: buffer
+	// 2: count
+
+	ASSERT(argc == 3);
+	ParsedArgument pargs[3];
+	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
+		return -1;
+
+	int        fd = pargs[0].as_int;
+	void  *dstptr = pargs[1].as_buffer.data;
+	size_t dstlen = pargs[1].as_buffer.size;
+
+	size_t count;
+	if (pargs[2].defined) {
+		int n = pargs[2].as_int;
+		if (n < 0)
+			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
+		count = MIN((size_t) n, dstlen);
+	} else
+		count = dstlen;
+	
+	ssize_t res = recv(fd, dstptr, count, 0);
+	if (res < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: buffer
+	// 2: count
+
+	ASSERT(argc == 3);
+	ParsedArgument pargs[3];
+	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
+		return -1;
+
+	int        fd = pargs[0].as_int;
+	void  *srcptr = pargs[1].as_buffer.data;
+	size_t srclen = pargs[1].as_buffer.size;
+
+	size_t count;
+	if (pargs[2].defined) {
+		int n = pargs[2].as_int;
+		if (n < 0)
+			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
+		count = MIN((size_t) n, srclen);
+	} else
+		count = srclen;
+	
+	ssize_t res = send(fd, srcptr, count, 0);
+	if (res < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+
+	ASSERT(argc == 1);
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+
+	int fd = pargs[0].as_int;
+	
+	struct sockaddr_in new_addr;
+	socklen_t new_addr_size = sizeof(new_addr);
+	int new_fd = accept(fd, (struct sockaddr*) &new_addr, &new_addr_size);
+	if (new_fd < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	ASSERT(new_addr.sin_family == AF_INET);
+	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
+
+	return returnValues2(error, runtime, rets, "iii", 
+		(long long int) new_fd, 
+		(long long int) new_addr.sin_addr.s_addr, 
+		(long long int) new_addr.sin_port);
+}
+
+
+static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+
+	ASSERT(argc == 1);
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+
+	int fd = pargs[0].as_int;
+	int res = close(fd);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+StaticMapSlot bins_net[] = {
+	{ "AF_INET", SM_INT, .as_int = AF_INET, },
+	{ "SOCK_STREAM", SM_INT, .as_int = SOCK_STREAM, },
+	{ "SOCK_DGRAM",  SM_INT, .as_int = SOCK_DGRAM,  },
+	{ "socket",  SM_FUNCT, .as_funct = bin_socket, .argc = 4, },
+	{ "bind",    SM_FUNCT, .as_funct = bin_bind,   .argc = 4, },
+	{ "listen",  SM_FUNCT, .as_funct = bin_listen, .argc = 2, },
+	{ "accept",  SM_FUNCT, .as_funct = bin_accept, .argc = 1, },
+	{ "recv",    SM_FUNCT, .as_funct = bin_recv,   .argc = 3, },
+	{ "send",    SM_FUNCT, .as_funct = bin_send,   .argc = 3, },
+	{ "close",   SM_FUNCT, .as_funct = bin_close,  .argc = 1, },
+	{ NULL, SM_END, {}, {} },
+};
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..2164190 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -1,42 +1,42 @@
-#include <stdlib.h>
-#include "utils.h"
-#include "random.h"
-#include "../utils/defs.h"
-
-static int bin_seed(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	UNUSED(argc);
-	UNUSED(argv);
-	ASSERT(argc == 1);
-
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-	
-	int64_t seed = pargs[0].as_int;
-	srand(seed);
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	UNUSED(argc);
-	UNUSED(argv);
-	ASSERT(argc == 2);
-
-	ParsedArgument pargs[2];
-	if (!parseArgs(error, argv, argc, pargs, "?i?i"))
-		return -1;
-	
-	int64_t min, max;
-	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
-	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
-	return returnValues2(error, runtime, rets, "i", value);
-}
-
-StaticMapSlot bins_random[] = {
-	{"seed",     SM_FUNCT, .as_funct = bin_seed,     .argc = 1},
-	{"generate", SM_FUNCT, .as_funct = bin_generate, .argc = 2},
-	{ NULL, SM_END, {}, {} },
+#include <stdlib.h>
+#include "utils.h"
+#include "random.h"
+#include "../utils/defs.h"
+
+static int bin_seed(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	UNUSED(argc);
+	UNUSED(argv);
+	ASSERT(argc == 1);
+
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+	
+	int64_t seed = pargs[0].as_int;
+	srand(seed);
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	UNUSED(argc);
+	UNUSED(argv);
+	ASSERT(argc == 2);
+
+	ParsedArgument pargs[2];
+	if (!parseArgs(error, argv, argc, pargs, "?i?i"))
+		return -1;
+	
+	int64_t min, max;
+	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
+	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
+	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+	return returnValues2(error, runtime, rets, "i", (long long int) value);
+}
+
+StaticMapSlot bins_random[] = {
+	{"seed",     SM_FUNCT, .as_funct = bin_seed,     .argc = 1},
+	{"generate", SM_FUNCT, .as_funct = bin_generate, .argc = 2},
+	{ NULL, SM_END, {}, {} },
 };
\ No newline at end of file
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 6e587c5..768bad2 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -265,7 +265,7 @@ static int bin_toInt(Runtime *runtime, Object **argv, unsigned int argc, Object
         // be considered an integer.
         return returnValues2(error, runtime, rets, "ns", "String doesn't contain an integer");
     
-    return returnValues2(error, runtime, rets, "i", result);
+    return returnValues2(error, runtime, rets, "i", (long long int) result);
 }
 
 StaticMapSlot bins_string[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..71471a0 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -1,184 +1,184 @@
-#include "utils.h"
-
-int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, va_list va)
-{
-	int retc = 0, i = 0;
-	while (fmt[i] != '\0') {
-
-		if (retc == MAX_RETS) {
-			Error_Report(error, ErrorType_INTERNAL, "Return value limit reached");
-			return -1;
-		}
-		
-		Object *ret;
-		switch (fmt[i]) {
-			case 'o': ret = va_arg(va, Object*); break;
-			case 'n': ret = Object_NewNone(heap, error); break;
-			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
-			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
-			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
-			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-			default:
-			Error_Report(error, ErrorType_INTERNAL, "Invalid format specifier '%c'", fmt[i]);
-			return -1;
-		}
-
-		if (ret == NULL)
-			return -1;
-
-		rets[retc++] = ret;
-		i++;
-	}
-	return retc;
-}
-
-bool parseArgs(Error *error, 
-			   Object **argv, 
-			   unsigned int argc, 
-			   ParsedArgument *pargs, 
-			   const char *fmt)
-{
-	unsigned int current_arg = 0;
-	int i = 0;
-	while (fmt[i] != '\0') {
-
-		if (current_arg == argc) {
-			Error_Report(error, ErrorType_RUNTIME, "Missing arguments");
-			return false;
-		}
-		Object *arg = argv[current_arg];
-
-		bool may_be_none = false;
-		if (fmt[i] == '?') {
-			may_be_none = true;
-			i++;
-			if (fmt[i] == '\0') {
-				Error_Report(error, ErrorType_INTERNAL, "Format terminated unexpectedly");
-				return false;
-			}
-		}
-		
-		if (may_be_none && Object_IsNone(arg)) {
-			pargs[current_arg].defined = false;
-		} else {
-			switch (fmt[i]) {
-				
-				case 'o': /* Any object */
-				pargs[current_arg].defined = true;
-				break;
-				
-				case 'b': /* Boolean */ 
-				if (!Object_IsBool(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be bool, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_bool = Object_GetBool(arg);
-				break;
-
-				case 'B': /* Buffer */
-				{
-					if (!Object_IsBuffer(arg)) {
-						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a buffer, but a %s was provided", current_arg+1, arg->type->name);
-						return false;
-					}
-					void  *data;
-					size_t size;
-					data = Object_GetBuffer(arg, &size);
-					pargs[current_arg].defined = true;
-					pargs[current_arg].as_buffer.data = data;
-					pargs[current_arg].as_buffer.size = size;
-					break;
-				}
-
-				case 'i': /* Integer */
-				if (!Object_IsInt(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be an int, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_int = Object_GetInt(arg);
-				break;
-
-				case 'f': /* Float */
-				if (!Object_IsFloat(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a float, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_float = Object_GetFloat(arg);
-				break;
-
-				case 'l': /* List */
-				if (!Object_IsList(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a list, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				break;
-
-				case 'm': /* Map */
-				if (!Object_IsMap(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				break;
-
-				case 's': /* String */
-				{
-					if (!Object_IsString(arg)) {
-						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a string, but a %s was provided", current_arg+1, arg->type->name);
-						return false;
-					}
-					const void *data;
-					size_t size;
-					data = Object_GetString(arg, &size);
-					pargs[current_arg].defined = true;
-					pargs[current_arg].as_string.data = data;
-					pargs[current_arg].as_string.size = size;
-					break;
-				}
-
-				case 'F': /* File */
-				if (!Object_IsFile(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a file, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_file = Object_GetStream(arg);
-				break;
-
-				default:
-				Error_Report(error, ErrorType_INTERNAL, "Invalid argument parser format specifier '%c'", fmt[i]);
-				return false;
-			}
-		}
-		i++;
-		current_arg++;
-	}
-
-#ifndef NDEBUG
-	if (current_arg < argc) {
-		// Ignoring part of the format string
-	}
-#endif
-	return true;
-}
-
-int returnValues2(Error *error, Runtime *runtime, Object *rets[static MAX_RETS], const char *fmt, ...)
-{
-	va_list va;
-	va_start(va, fmt);
-	int retc = returnValuesVA(error, Runtime_GetHeap(runtime), rets, fmt, va);
-	va_end(va);
-	return retc;
-}
-
-int returnValues(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, ...)
-{
-	va_list va;
-	va_start(va, fmt);
-	int retc = returnValuesVA(error, heap, rets, fmt, va);
-	va_end(va);
-	return retc;
+#include "utils.h"
+
+int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, va_list va)
+{
+	int retc = 0, i = 0;
+	while (fmt[i] != '\0') {
+
+		if (retc == MAX_RETS) {
+			Error_Report(error, ErrorType_INTERNAL, "Return value limit reached");
+			return -1;
+		}
+		
+		Object *ret;
+		switch (fmt[i]) {
+			case 'o': ret = va_arg(va, Object*); break;
+			case 'n': ret = Object_NewNone(heap, error); break;
+			case 'i': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
+			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
+			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
+			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
+			default:
+			Error_Report(error, ErrorType_INTERNAL, "Invalid format specifier '%c'", fmt[i]);
+			return -1;
+		}
+
+		if (ret == NULL)
+			return -1;
+
+		rets[retc++] = ret;
+		i++;
+	}
+	return retc;
+}
+
+bool parseArgs(Error *error, 
+			   Object **argv, 
+			   unsigned int argc, 
+			   ParsedArgument *pargs, 
+			   const char *fmt)
+{
+	unsigned int current_arg = 0;
+	int i = 0;
+	while (fmt[i] != '\0') {
+
+		if (current_arg == argc) {
+			Error_Report(error, ErrorType_RUNTIME, "Missing arguments");
+			return false;
+		}
+		Object *arg = argv[current_arg];
+
+		bool may_be_none = false;
+		if (fmt[i] == '?') {
+			may_be_none = true;
+			i++;
+			if (fmt[i] == '\0') {
+				Error_Report(error, ErrorType_INTERNAL, "Format terminated unexpectedly");
+				return false;
+			}
+		}
+		
+		if (may_be_none && Object_IsNone(arg)) {
+			pargs[current_arg].defined = false;
+		} else {
+			switch (fmt[i]) {
+				
+				case 'o': /* Any object */
+				pargs[current_arg].defined = true;
+				break;
+				
+				case 'b': /* Boolean */ 
+				if (!Object_IsBool(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be bool, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_bool = Object_GetBool(arg);
+				break;
+
+				case 'B': /* Buffer */
+				{
+					if (!Object_IsBuffer(arg)) {
+						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a buffer, but a %s was provided", current_arg+1, arg->type->name);
+						return false;
+					}
+					void  *data;
+					size_t size;
+					data = Object_GetBuffer(arg, &size);
+					pargs[current_arg].defined = true;
+					pargs[current_arg].as_buffer.data = data;
+					pargs[current_arg].as_buffer.size = size;
+					break;
+				}
+
+				case 'i': /* Integer */
+				if (!Object_IsInt(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be an int, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_int = Object_GetInt(arg);
+				break;
+
+				case 'f': /* Float */
+				if (!Object_IsFloat(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a float, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_float = Object_GetFloat(arg);
+				break;
+
+				case 'l': /* List */
+				if (!Object_IsList(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a list, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				break;
+
+				case 'm': /* Map */
+				if (!Object_IsMap(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				break;
+
+				case 's': /* String */
+				{
+					if (!Object_IsString(arg)) {
+						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a string, but a %s was provided", current_arg+1, arg->type->name);
+						return false;
+					}
+					const void *data;
+					size_t size;
+					data = Object_GetString(arg, &size);
+					pargs[current_arg].defined = true;
+					pargs[current_arg].as_string.data = data;
+					pargs[current_arg].as_string.size = size;
+					break;
+				}
+
+				case 'F': /* File */
+				if (!Object_IsFile(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a file, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_file = Object_GetStream(arg);
+				break;
+
+				default:
+				Error_Report(error, ErrorType_INTERNAL, "Invalid argument parser format specifier '%c'", fmt[i]);
+				return false;
+			}
+		}
+		i++;
+		current_arg++;
+	}
+
+#ifndef NDEBUG
+	if (current_arg < argc) {
+		// Ignoring part of the format string
+	}
+#endif
+	return true;
+}
+
+int returnValues2(Error *error, Runtime *runtime, Object *rets[static MAX_RETS], const char *fmt, ...)
+{
+	va_list va;
+	va_start(va, fmt);
+	int retc = returnValuesVA(error, Runtime_GetHeap(runtime), rets, fmt, va);
+	va_end(va);
+	return retc;
+}
+
+int returnValues(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, ...)
+{
+	va_list va;
+	va_start(va, fmt);
+	int retc = returnValuesVA(error, heap, rets, fmt, va);
+	va_end(va);
+	return retc;
 }
\ No newline at end of file
-- 
2.43.0


From 1b12a6a0513002d94c1b5761123267eff3b52915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 15/76] fix: byte counts given to files and sockets aren't
 truncated to 32 bits

---
 src/lib/builtins/files.c | 6 +++---
 src/lib/builtins/net.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index c7e9934..cc35125 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -122,7 +122,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -158,14 +158,14 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
 		}
 		count = MIN((size_t) n, srclen);
 	} else
-		count = (int) srclen;
+		count = (size_t) srclen;
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index a6455cb..9ab2dea 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -108,7 +108,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +138,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From c3dde84ed44dfcb68adf94cafe01773303887b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 16/76] fix: opening a file with an unknown mode is an error,
 not a crash

---
 src/lib/builtins/files.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index cc35125..72dc8e7 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -51,7 +51,7 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
-	int         mode = pargs[1].as_int;
+	int64_t     mode = pargs[1].as_int;
 
 	FILE *fp;
 	{
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file opening mode");
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
-- 
2.43.0


From 91d0f0b64376d5a4a24b2bcd41df9719577aa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 17/76] fix: a file isn't leaked when its object can't be
 created

---
 src/lib/builtins/files.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 72dc8e7..6bf9a29 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -96,7 +96,11 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			return returnValues(error, heap, rets, "ns", errdesc);
 		}
 	}
-	return returnValues(error, heap, rets, "F", fp);
+
+	int retc = returnValues(error, heap, rets, "F", fp);
+	if(retc < 0)
+		(void) fclose(fp);
+	return retc;
 }
 
 static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From 5acf78906c4151963948095b4f07e6e6af419e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/76] fix: a socket isn't leaked when it can't be returned

---
 src/lib/builtins/net.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 9ab2dea..757d84f 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -26,11 +26,17 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	
 	if (reuse) {
 		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
-			return returnValues2(error, runtime, rets, "ns", strerror(errno));
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
+			const char *errdesc = strerror(errno);
+			(void) close(fd);
+			return returnValues2(error, runtime, rets, "ns", errdesc);
+		}
 	}
 
-	return returnValues2(error, runtime, rets, "i", (long long int) fd);
+	int retc = returnValues2(error, runtime, rets, "i", (long long int) fd);
+	if (retc < 0)
+		(void) close(fd);
+	return retc;
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From 55f51b24b94d027888d712da11774c10bd70e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 19/76] fix: sending to a closed connection doesn't kill the
 interpreter

---
 src/lib/builtins/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 757d84f..99e7c5a 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -151,7 +151,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = srclen;
 	
-	ssize_t res = send(fd, srcptr, count, 0);
+	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	return returnValues2(error, runtime, rets, "i", (long long int) res);
-- 
2.43.0


From ed96a6c70c9df0363336a346c1a0ff7ee5abbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 20/76] fix: an accepted connection isn't leaked when it can't
 be returned

---
 src/lib/builtins/net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 99e7c5a..2a71f5d 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -176,10 +176,13 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", 
+	int retc = returnValues2(error, runtime, rets, "iii", 
 		(long long int) new_fd, 
 		(long long int) new_addr.sin_addr.s_addr, 
 		(long long int) new_addr.sin_port);
+	if (retc < 0)
+		(void) close(new_fd);
+	return retc;
 }
 
 
-- 
2.43.0


From 55bc229528a0ef3eb0da3b1a49173f7f17d49a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 21/76] fix: math.floor and math.ceil report results that don't
 fit an int

---
 src/lib/builtins/math.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index d820bc1..62a094c 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -103,7 +103,14 @@ static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(ceil(v), Runtime_GetHeap(runtime), error);
+		double res = ceil(v);
+		if(!(res >= -0x1p63 && res < 0x1p63))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "The result can't be represented as an int");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(res, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
@@ -124,7 +131,14 @@ static int bin_floor(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(floor(v), Runtime_GetHeap(runtime), error);
+		double res = floor(v);
+		if(!(res >= -0x1p63 && res < 0x1p63))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "The result can't be represented as an int");
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(res, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
-- 
2.43.0


From 397b285c2d7c4a42582613e360906d296e8593ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 22/76] fix: random.generate stays between its bounds for any
 bounds

---
 src/lib/builtins/random.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index 2164190..1715a1e 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -31,7 +31,28 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	int64_t min, max;
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+
+	if (min > max) {
+		int64_t temp = min;
+		min = max;
+		max = temp;
+	}
+
+	// The computation is done over the distance from the
+	// lower bound so that it can't overflow or be rounded
+	// out of the bounds.
+	uint64_t range = (uint64_t) max - (uint64_t) min;
+	uint64_t offset = range;
+	int roll = rand();
+	if (roll < RAND_MAX) {
+		double d = (double) range * roll / RAND_MAX;
+		if (d < (double) range)
+			offset = d;
+	}
+	if (offset > range)
+		offset = range;
+
+	int64_t value = (uint64_t) min + offset;
 	return returnValues2(error, runtime, rets, "i", (long long int) value);
 }
 
-- 
2.43.0


From c4b53e6cb085747e0848d1850ad74c7a00018ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 23/76] fix: buffers can't be created with a negative or huge
 size

---
 src/lib/builtins/buffer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 51f42fe..df1efff 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include "buffer.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -17,6 +18,12 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
     
     long long int size = Object_GetInt(argv[0]);
 
+    if(size < 0 || size > INT_MAX)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Invalid buffer size");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
-- 
2.43.0


From b22aa482d22f6a2a5c8abb401ba1ee3613a25db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 24/76] fix: slices of a buffer never reach outside of it

---
 src/lib/builtins/buffer.c  |  5 +++++
 src/lib/objects/o_buffer.c | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index df1efff..9efa047 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -44,6 +44,11 @@ static int bin_sliceUp(Runtime *runtime, Object **argv, unsigned int argc, Objec
     long long int offset = pargs[1].as_int;
     long long int length = pargs[2].as_int;
 
+    if (offset < 0 || length < 0) {
+        Error_Report(error, ErrorType_RUNTIME, "Offset and length of a slice can't be negative");
+        return -1;
+    }
+
     Object *temp = Object_SliceBuffer(argv[0], offset, length, Runtime_GetHeap(runtime), error);
     if(temp == NULL)
         return -1;
diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index b9ed1d0..0f6eda0 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -138,14 +138,17 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	BufferObject *buffer = (BufferObject*) obj;
+	Payload *payload = buffer->payload;
 
-	if(offset >= payload->size) {
+	// The slice is relative to the buffer it's taken from,
+	// which may be a slice itself.
+	if(offset >= buffer->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > buffer->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -156,7 +159,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = buffer->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From f018b67fe10fe1990f14fa9f97559723b7ab32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 25/76] fix: the memory of a buffer isn't leaked when its
 object can't be created

---
 src/lib/objects/o_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 0f6eda0..331f175 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -104,8 +104,10 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 		memset(payload->body, 0, size);
 
 		obj = (BufferObject*) Heap_Malloc(heap, &t_buffer, error);
-		if(obj == NULL)
+		if(obj == NULL) {
+			free(payload);
 			return NULL;
+		}
 
 		obj->payload = payload;
 		obj->offset = 0;
-- 
2.43.0


From f35db7fe6233958c3f6dd457acb7f80872571fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 26/76] fix: input() ends at the end of its stream

---
 src/lib/builtins/basic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..0e12a2a 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,9 +178,9 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
 
-		if(c == '\n')
+		if(c == '\n' || c == EOF)
 			break;
 
 		if(size == cap)
-- 
2.43.0


From 3277005924b8a1a11de5f4e7c999ba684e3dafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 27/76] fix: input() can read lines longer than its local
 buffer

---
 src/lib/builtins/basic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 0e12a2a..9406831 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -186,7 +186,7 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
 			if(tmp == NULL)
 			{
@@ -195,6 +195,9 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 				return -1;
 			}
 
+			if(str == maybe)
+				memcpy(tmp, maybe, size);
+
 			str = tmp;
 			cap = newcap;
 		}
-- 
2.43.0


From 3c16d954d0b6b255e034d5bf3dd27b01bf42fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 28/76] fix: istypeof doesn't leave an error behind when a list
 is too short

---
 src/lib/builtins/basic.c | 3 +++
 src/lib/objects/o_list.c | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 9406831..90ad6d7 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -275,6 +275,9 @@ static int bin_istypeof(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	
 	Heap *heap = Runtime_GetHeap(runtime);
 	bool yes = Object_IsTypeOf(argv[0], argv[1], heap, error);
+	if (error->occurred)
+		return -1;
+
 	Object *o_yes = Object_FromBool(yes, heap, error);
 	if (o_yes == NULL)
 		return -1;
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index dca97e9..5a51168 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -78,6 +78,10 @@ istypeof(Object *self,
     if (!Object_IsList(other))
         return false;
 
+    // A list with less items doesn't have one for each type.
+    if (count(other) < list->count)
+        return false;
+
     for (int i = 0; i < list->count; i++) {
     	
     	Object *key = Object_FromInt(i, heap, error);
-- 
2.43.0


From 2c1fc4f50e532c081c8e6d5e710e8afab0ab6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 29/76] fix: native functions can be collected while they run

---
 src/lib/run.c | 2578 +++++++++++++++++++++++++------------------------
 1 file changed, 1293 insertions(+), 1285 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..7fc4ea5 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1,1285 +1,1293 @@
-#include <time.h>
-#include <stdlib.h>
-#include <string.h>
-#include "runtime.h"
-#include "utils/defs.h"
-#include "utils/path.h"
-#include "compiler/compile.h"
-#include "assembler/assemble.h"
-
-static int runExecutableAtIndex(Runtime *runtime, Error *error,
-		    				    Executable *exe, int index,
-		    				    Object *closure,
-		    				    Object *rets[static MAX_RETS],
-						        Object *argv[], int argc);
-
-typedef struct {
-	Object base;
-	const char *name;
-	Runtime *runtime;
-	Executable *exe;
-	int index, argc;
-	Object *closure;
-	TimingID timing_id;
-} FunctionObject;
-
-static _Bool func_free(Object *self, Error *error)
-{
-	(void) error;
-	
-	FunctionObject *func = (FunctionObject*) self;
-	Executable_Free(func->exe);	
-	return 1;
-}
-
-static void func_walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
-{
-	FunctionObject *func = (FunctionObject*) self;
-	callback(&func->closure, userp);
-}
-
-static int func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *error)
-{
-	ASSERT(self != NULL && heap != NULL && error != NULL);
-	
-	FunctionObject *func = (FunctionObject*) self;
-
-	ASSERT(func->exe != NULL);
-	ASSERT(func->argc >= 0);
-	ASSERT(func->index >= 0);
-
-	// Make sure the right amount of arguments is provided.
-
-	Object **argv2;
-
-	int expected_argc = func->argc;
-
-	if(expected_argc < (int) argc)
-	{
-		// Nothing to be done. By using
-		// the right argc the additional
-		// arguments are ignored implicitly.
-		argv2 = argv;
-	}
-	else if(expected_argc > (int) argc)
-	{
-		// Some arguments are missing.
-		argv2 = malloc(sizeof(Object*) * expected_argc);
-
-		if(argv2 == NULL)
-		{
-			Error_Report(error, ErrorType_INTERNAL, "No memory");
-			return -1;
-		}
-
-		// Copy the provided arguments.
-		for(int i = 0; i < (int) argc; i += 1)
-			argv2[i] = argv[i];
-
-		// Set the unspecified arguments to none.
-		for(int i = argc; i < expected_argc; i += 1)
-		{
-			argv2[i] = Object_NewNone(heap, error);
-
-			if(argv2[i] == NULL)
-				return -1;
-		}
-	}
-	else
-		// The right amount of arguments was provided.
-		argv2 = argv;
-
-	clock_t begin;
-	TimingID timing_id;
-	TimingTable *timing_table = Runtime_GetTimingTable(func->runtime);
-	if (timing_table != NULL) {
-		begin = clock();
-
-		// Need to save the object's member
-	    // before the run function since it
-	    // may trigger a GC cycle invalidating
-	    // the object pointer.
-		timing_id = func->timing_id;
-	}
-
-	int retc = runExecutableAtIndex(func->runtime, error, func->exe, func->index, func->closure, rets, argv2, expected_argc);
-
-	if (timing_table != NULL) {
-		double time = (double) (clock() - begin) / CLOCKS_PER_SEC;
-		TimingTable_sumCallTime(timing_table, timing_id, time);
-	}
-
-	// NOTE: Every object reference is invalidated from here.
-	
-	if(argv2 != argv)
-		free(argv2);
-
-	return retc;
-}
-
-static TypeObject t_func = {
-	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
-	.name = "function",
-	.size = sizeof (FunctionObject),
-	.call = func_call,
-	.walk = func_walk,
-	.free = func_free,
-};
-
-/* Symbol: Object_FromNojaFunction
- *
- *   Creates an object from a noja executable structure.
- *
- * Args:
- *   - runtime: The reference to an instanciated Runtime.
- *
- *   - exe: A noja executable.
- *
- *   - index: The index of the first bytecode instruction
- *            of the noja function within the executable.
- *
- *   - argc: The number of arguments the function expects. 
- *           It must be positive (unlike [Object_FromNativeFunction],
- *           where -1 means variadic).
- *
- *   - closure: An object containing variables that will be
- *              accessible from the noja function other than
- *              the ones that will be defined inside it.
- *
- *   - heap: The heap that will be used to allocate the object.
- *           It can't be NULL.
- *
- *   - error: Output parameter where error information is stored.
- *            It can't be NULL.
- *
- * Returns:
- *   The newly created object. If an error occurred, NULL is returned
- *   and information about the error is stored in the [error] argument.
- */
-Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *exe, int index, int argc, Object *closure, Heap *heap, Error *error)
-{
-	ASSERT(runtime != NULL);
-	ASSERT(exe != NULL);
-	ASSERT(index >= 0);
-	ASSERT(argc >= 0);
-	ASSERT(heap != NULL);
-	ASSERT(error != NULL);
-
-	FunctionObject *func = (FunctionObject*) Heap_Malloc(heap, &t_func, error);
-
-	if(func == NULL)
-		return NULL;
-
-	Executable *exe_copy = Executable_Copy(exe);
-
-	if(exe_copy == NULL)
-	{
-		Error_Report(error, ErrorType_INTERNAL, "Failed to copy executable");
-		return NULL;
-	}
-
-	func->runtime = runtime;
-	func->name = name; // Should this be copied?
-	func->exe = exe_copy;
-	func->index = index;
-	func->argc = argc;
-	func->closure = closure;
-
-	TimingTable *table = Runtime_GetTimingTable(runtime);
-	if (table != NULL) {
-		#warning "TODO: Calculate line number"
-		size_t line = 0;
-		Source *src = Executable_GetSource(exe);
-		func->timing_id = TimingTable_newEntry(table, src, line, name);
-	}
-
-	return (Object*) func;
-}
-
-
-typedef struct {
-	Object base;
-	Runtime *runtime;
-	int (*callback)(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[MAX_RETS], Error *error);
-	int argc;
-} NativeFunctionObject;
-
-static int native_func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS],  Heap *heap, Error *error)
-{
-	ASSERT(self != NULL);
-	ASSERT(heap != NULL);
-	ASSERT(error != NULL);
-			
-	NativeFunctionObject *func = (NativeFunctionObject*) self;
-
-	// If the function isn't variadic, make sure
-	// the right amount of arguments is provided.
-
-	Object **argv2;
-	int 	 argc2;
-
-	int expected_argc = func->argc;
-
-	if(expected_argc < 0 || expected_argc == (int) argc)
-	{
-		// The function is variadic or the right 
-		// amount of arguments was provided.
-		argv2 = argv;
-		argc2 = argc;
-	}
-	else if(expected_argc < (int) argc)
-	{
-		// Nothing to be done. By using
-		// the right argc the additional
-		// arguments are ignored implicitly.
-		argv2 = argv;
-		argc2 = expected_argc;
-	}
-	else if(expected_argc > (int) argc)
-	{
-		// Some arguments are missing.
-		argv2 = malloc(sizeof(Object*) * expected_argc);
-		argc2 = expected_argc;
-			
-		if(argv2 == NULL)
-		{
-			Error_Report(error, 1, "No memory");
-			return -1;
-		}
-
-		// Copy the provided arguments.
-		for(int i = 0; i < (int) argc; i += 1)
-			argv2[i] = argv[i];
-
-		// Set the unspecified arguments to none.
-		for(int i = argc; i < expected_argc; i += 1)
-		{
-			argv2[i] = Object_NewNone(heap, error);
-
-			if(argv2[i] == NULL)
-			{
-				free(argv2);
-				return -1;
-			}
-		}
-	} else {
-		UNREACHABLE;
-		argv2 = NULL;
-		argc2 = -1;
-	}
-
-	if (!Runtime_PushNativeFrame(func->runtime, error))
-    	return -1;
-
-	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
-		
-	// NOTE: Since the callback may have executed some bytecode, a GC
-	//       cycle may have been triggered, therefore we must assume
-	//       every object reference that was locally saved is invalidated 
-	//       from here (the returned object is good tho).
-
-	if(argv2 != argv)
-		free(argv2);
-
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
-    	return -1;
-
-	return retc;
-}
-
-static TypeObject t_nfunc = {
-	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
-	.name = "native function",
-	.size = sizeof (NativeFunctionObject),
-	.call = native_func_call,	
-};
-
-/* Symbol: Object_FromNativeFunction
- *
- *   Creates an object from a function pointer.
- *
- * Args:
- *   - runtime: The reference to an instanciated Runtime. This must be
- *              provided so that the callback can also access it.
- *
- *   - callback: The native function to be executed when this object
- *               is called.
- *
- *   - argc: The number of arguments the function expects. If -1 is
- *           provided, then the function is considered to be variadic.
- *
- *   - heap: The heap that will be used to allocate the object.
- *           It can't be NULL.
- *
- *   - error: Output parameter where error information is stored.
- *            It can't be NULL.
- *
- * Returns:
- *   The newly created object. If an error occurred, NULL is returned
- *   and information about the error is stored in the [error] argument.
- */
-Object *Object_FromNativeFunction(Runtime *runtime, int (*callback)(Runtime*, Object**, unsigned int, Object*[static MAX_RETS], Error*), int argc, Heap *heap, Error *error)
-{
-	ASSERT(callback != NULL);
-
-	NativeFunctionObject *func = (NativeFunctionObject*) Heap_Malloc(heap, &t_nfunc, error);
-
-	if(func == NULL)
-		return NULL;
-
-	func->runtime = runtime;
-	func->callback = callback;
-	func->argc = argc;
-
-	return (Object*) func;
-}
-
-static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
-{
-	ASSERT(lop != NULL);
-	ASSERT(rop != NULL);
-
-	#define APPLY(x, y, z, id) 							\
-		switch(opcode)									\
-		{												\
-			case OPCODE_ADD: (z) = (x) + (y); break;	\
-			case OPCODE_SUB: (z) = (x) - (y); break;	\
-			case OPCODE_MUL: (z) = (x) * (y); break;	\
-			case OPCODE_DIV: 							\
-			if((y) == 0) 								\
-			{ 											\
-				Error_Report(error, ErrorType_RUNTIME, "Division by zero"); \
-				return NULL; 							\
-			} 											\
-			(z) = (x) / (y); 							\
-			break;										\
-			default: UNREACHABLE; break;				\
-		}
-
-	Object *res;
-
-	if(Object_IsInt(lop))
-	{
-		long long int raw_lop = Object_GetInt(lop);
-
-		if(Object_IsInt(rop))
-		{
-			// int + int
-			long long int raw_rop = Object_GetInt(rop);
-			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
-			res = Object_FromInt(raw_res, heap, error);
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// int + float
-			double raw_rop = Object_GetFloat(rop);
-			double raw_res = 0;
-			APPLY((double) raw_lop, raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else if(Object_IsFloat(lop))
-	{
-		double raw_lop = Object_GetFloat(lop);
-
-		if(Object_IsInt(rop))
-		{
-			// float + int
-			long long int raw_rop = Object_GetInt(rop);
-			double raw_res = 0;
-			APPLY(raw_lop, (double) raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// float + float
-			double raw_rop = Object_GetFloat(rop);
-			double raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else
-	{
-		Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-		return NULL;
-	}
-
-	#undef APPLY
-
-	return res;
-}
-
-static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
-{
-	ASSERT(lop != NULL);
-	ASSERT(rop != NULL);
-
-	#define APPLY(x, y, z, id) 							\
-		switch(opcode)									\
-		{												\
-			case OPCODE_LSS: (z) = (x) <  (y); break;	\
-			case OPCODE_GRT: (z) = (x) >  (y); break;	\
-			case OPCODE_LEQ: (z) = (x) <= (y); break;	\
-			case OPCODE_GEQ: (z) = (x) >= (y); break;	\
-			default: UNREACHABLE; break;				\
-		}
-
-	_Bool res = 0;
-
-	if(Object_IsInt(lop))
-	{
-		long long int raw_lop = Object_GetInt(lop);
-		if(Object_IsInt(rop))
-		{
-			// int + int
-			long long int raw_rop = Object_GetInt(rop);
-			APPLY(raw_lop, raw_rop, res, id)
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// int + float
-			double raw_rop = Object_GetFloat(rop);
-			APPLY((double) raw_lop, raw_rop, res, id)
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else if(Object_IsFloat(lop))
-	{
-		double raw_lop = Object_GetFloat(lop);
-		if(Object_IsInt(rop))
-		{
-			// float + int
-			long long int raw_rop = Object_GetInt(rop);
-			APPLY(raw_lop, (double) raw_rop, res, id)
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// float + float
-			double raw_rop = Object_GetFloat(rop);
-			APPLY(raw_lop, raw_rop, res, id)
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else
-	{
-		Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-		return NULL;
-	}
-
-	#undef APPLY
-
-	return Object_FromBool(res, heap, error);
-}
-
-static _Bool runInstruction(Runtime *runtime, Error *error)
-{
-	ASSERT(runtime != NULL);
-	ASSERT(error->occurred == 0);
-
-	Heap *heap = Runtime_GetHeap(runtime);
-	Executable *exe = Runtime_GetCurrentExecutable(runtime);
-	ASSERT(exe != NULL);
-	int index = Runtime_GetCurrentIndex(runtime);
-	Opcode opcode;
-	Operand ops[3];
-	int     opc = sizeof(ops) / sizeof(ops[0]);
-	
-	if(!Executable_Fetch(exe, index, &opcode, ops, &opc))
-	{
-		Error_Report(error, ErrorType_INTERNAL, "Invalid instruction index %d", index);
-		return 0;
-	}
-	
-	Runtime_SetInstructionIndex(runtime, index+1);
-
-	switch(opcode)
-	{
-		case OPCODE_NOPE:
-		// Do nothing.
-		return 1;
-
-		case OPCODE_POS:
-		{
-			ASSERT(opc == 0);
-
-			if(Runtime_Top(runtime, 0) == NULL)
-			{
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't have enough items on the stack to execute POS");
-				return 0;
-			}
-
-			/* Do nothing */
-			return 1;
-		}
-
-		case OPCODE_NEG:
-		{
-			ASSERT(opc == 0);
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			if(Object_IsInt(top))
-			{
-				long long n = Object_GetInt(top);
-				top = Object_FromInt(-n, heap, error);
-			}
-			else if(Object_IsFloat(top))
-			{
-				double f = Object_GetFloat(top);
-				top = Object_FromFloat(-f, heap, error);
-			}
-			else
-			{
-				Error_Report(error, ErrorType_RUNTIME, "Negation operand on a non-numeric object");
-				return 0;
-			}
-
-			if(top == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, top);
-		}
-
-		case OPCODE_NOT:
-		{
-			ASSERT(opc == 0);
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			if(!Object_IsBool(top))
-			{
-				Error_Report(error, ErrorType_RUNTIME, "NOT operand isn't a boolean");
-				return 0;
-			}
-
-			_Bool v = Object_GetBool(top);
-
-			Object *negated = Object_FromBool(!v, heap, error);
-			if(negated == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, negated);
-		}
-
-		case OPCODE_NLB:
-		{
-			ASSERT(opc == 0);
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			Object *nullable = Object_NewNullable(top, heap, error);
-			if(nullable == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, nullable);
-		}
-
-		case OPCODE_STP:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			Object *res = Object_NewSum(objs[1], objs[0], heap, error);
-			if(res == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_ADD:
-		case OPCODE_SUB:
-		case OPCODE_MUL:
-		case OPCODE_DIV:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			Object *res = do_math_op(objs[1], objs[0], opcode, heap, error);
-			if(res == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_MOD:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			if (!Object_IsInt(objs[0]) || !Object_IsInt(objs[1])) {
-				Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-				return 0;
-			}
-
-			long long int x, y, z;
-			y = Object_GetInt(objs[0]);
-			x = Object_GetInt(objs[1]);
-			z = x % y;
-
-			Object *res = Object_FromInt(z, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_EQL:
-		case OPCODE_NQL:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-
-			_Bool rawres = Object_Compare(objs[1], objs[0], error);
-			if(error->occurred == 1)
-				return 0;
-
-			if(opcode == OPCODE_NQL)
-				rawres = !rawres;
-
-			Object *res = Object_FromBool(rawres, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_LSS:
-		case OPCODE_GRT:
-		case OPCODE_LEQ:
-		case OPCODE_GEQ:
-		{
-			ASSERT(opc == 0);
-
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-
-			Object *res = do_relational_op(objs[1], objs[0], opcode, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_ASS:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-			const char *name = ops[0].as_string;
-
-			Object *value = Runtime_Top(runtime, 0);
-			if(value == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack");
-				return 0;
-			}
-			return Runtime_SetVariable(runtime, error, name, value);
-		}
-
-		case OPCODE_POP:
-		{
-			ASSERT(opc == 1);
-			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
-		}
-
-		case OPCODE_CHECKTYPE:
-		{
-			ASSERT(opc == 2);
-			ASSERT(ops[0].type == OPTP_INT);
-			ASSERT(ops[1].type == OPTP_STRING);
-			
-			const char *arg_name; 
-			int arg_index;
-			
-			arg_index = ops[0].as_int;
-			arg_name  = ops[1].as_string;
-			ASSERT(arg_name != NULL);
-
-			Object *typ = Runtime_Top(runtime, 0);
-			Object *arg = Runtime_Top(runtime, -1);
-			if(typ == NULL || arg == NULL)
-			{
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute CHECKTYPE");
-				return 0;
-			}
-
-			// Pop type
-			if(!Runtime_Pop(runtime, error, NULL, 1))
-				return 0;
-
-			if (!Object_IsTypeOf(typ, arg, heap, error)) {
-				char provided[512];
-				char allowed[512];
-				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
-				Object_Print(typ, allowed_fp);
-				Object_Print(arg, provided_fp);
-				fclose(allowed_fp);
-				fclose(provided_fp);
-				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
-							 arg_index+1, arg_name, allowed, provided);
-				return 0;
-			}
-			return 1;
-		}
-
-		case OPCODE_CALL:
-		{
-			ASSERT(opc == 2);
-			ASSERT(ops[0].type == OPTP_INT);
-			ASSERT(ops[1].type == OPTP_INT);
-
-			int argc = ops[0].as_int;
-			int retc = ops[1].as_int;
-			ASSERT(argc >= 0 && retc > 0);
-
-			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
-				return 0;
-			}
-
-			Object *argv[32];
-
-			int max_argc = sizeof(argv) / sizeof(argv[0]);
-			if(argc > max_argc) {
-				Error_Report(error, ErrorType_INTERNAL, "Static buffer only allows function calls with up to %d arguments", max_argc);
-				return 0;
-			}
-			if (!Runtime_Pop(runtime, error, argv, argc))
-				return 0;
-
-			Object *rets[8];
-			int num_rets = Object_Call(callable, argv, argc, rets, heap, error);
-			if(num_rets < 0)
-				return 0;
-
-			// NOTE: Every local object reference is invalidated from here.
-
-			ASSERT(error->occurred == 0);
-
-			for(int g = 0; g < MIN(num_rets, retc); g += 1)
-				if(!Runtime_Push(runtime, error, rets[g]))
-					return 0;
-
-			for(int g = 0; g < retc - num_rets; g += 1)
-			{
-				Object *temp = Object_NewNone(Runtime_GetHeap(runtime), error);
-				if(temp == NULL)
-					return NULL;
-
-				if(!Runtime_Push(runtime, error, temp))
-					return 0;
-			}
-			return 1;
-		}
-
-		case OPCODE_SELECT:
-		case OPCODE_SELECT2:
-		{
-			ASSERT(opc == 0);
-
-			int to_be_popped = (opcode == OPCODE_SELECT) ? 2 : 1;
-
-			Object *col = Runtime_Top(runtime, -1);
-			Object *key = Runtime_Top(runtime, 0);
-			if (col == NULL || key == NULL) {
-				const char *name = "SELECT";
-				if (opcode == OPCODE_SELECT2)
-					name = "SELECT2";
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run %s instruction", name);
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, to_be_popped))
-				return 0;
-
-			Error dummy;
-			Error_Init(&dummy); // We want to catch the error reported by this Object_Select.
-
-			Object *val = Object_Select(col, key, heap, &dummy);
-
-			if(val == NULL) {
-				Error_Free(&dummy);
-
-				val = Object_NewNone(heap, error);
-				if(val == NULL)
-					return 0;
-			}
-
-			return Runtime_Push(runtime, error, val);
-		}
-
-		case OPCODE_INSERT:
-		{
-			ASSERT(opc == 0);
-
-			Object *col = Runtime_Top(runtime, -2);
-			Object *key = Runtime_Top(runtime, -1);
-			Object *val = Runtime_Top(runtime,  0);
-			if (col == NULL || key == NULL || val == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT instruction");
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, 2))
-				return 0;
-
-			return Object_Insert(col, key, val, heap, error);
-		}
-		
-		case OPCODE_INSERT2:
-		{
-			ASSERT(opc == 0);
-
-			Object *val = Runtime_Top(runtime, -2);
-			Object *col = Runtime_Top(runtime, -1);
-			Object *key = Runtime_Top(runtime,  0);
-			if (val == NULL || col == NULL || key == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT2 instruction");
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, 2))
-				return 0;
-
-			return Object_Insert(col, key, val, heap, error);
-		}
-
-		case OPCODE_PUSHINT:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			Object *obj = Object_FromInt(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-		
-		case OPCODE_PUSHFLT:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_FLOAT);
-
-			Object *obj = Object_FromFloat(ops[0].as_float, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHSTR:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-
-			Object *obj = Object_FromString(ops[0].as_string, -1, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHVAR:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-
-			Object *value;
-			if (!Runtime_GetVariable(runtime, error, ops[0].as_string, &value))
-				return 0;
-
-			if (value == NULL) {
-				Error_Report(error, ErrorType_RUNTIME, "Reference to undefined variable \"%s\"", ops[0].as_string);
-				return 0;
-			}
-
-			return Runtime_Push(runtime, error, value);
-		}
-
-		case OPCODE_PUSHNNE:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_NewNone(heap, error);
-			if(obj == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHTRU:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_FromBool(1, heap, error);
-			if(obj == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHFLS:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_FromBool(0, heap, error);
-			if(obj == NULL) 
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHFUN:
-		{
-			ASSERT(opc == 3);
-			ASSERT(ops[0].type == OPTP_IDX);
-			ASSERT(ops[1].type == OPTP_INT);
-			ASSERT(ops[2].type == OPTP_STRING);
-
-			Object *locals  = Runtime_GetLocals(runtime);
-			Object *old_closure = Runtime_GetClosure(runtime);
-			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
-			if(new_closure == NULL)
-				return 0;
-
-			Object *func = Object_FromNojaFunction(runtime, ops[2].as_string, exe, ops[0].as_int, ops[1].as_int, new_closure, heap, error);
-			if(func == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, func);
-		}
-
-		case OPCODE_PUSHLST:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			Object *obj = Object_NewList(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHMAP:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHNNETYP:
-		{
-			ASSERT(opc == 0);
-
-			Object *obj = (Object*) Object_GetNoneType();
-			ASSERT(obj != NULL);
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHTYP:
-		{
-			ASSERT(opc == 0);
-
-			Object *top = Runtime_Top(runtime, 0);
-			if (top == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run PUSHTYP instruction");
-				return 0;
-			}
-
-			Object *typ = (Object*) Object_GetType(top);
-			ASSERT(typ != NULL);
-			
-			return Runtime_Push(runtime, error, typ);
-		}
-
-		case OPCODE_EXIT:
-		{
-			ASSERT(opc == 0);
-			Object *vars = Runtime_GetLocals(runtime);
-			ASSERT(vars != NULL);
-			Runtime_Push(runtime, error, vars);
-			return 0;
-		}
-
-		case OPCODE_RETURN:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-			int retc = ops[0].as_int;
-			UNUSED(retc);
-			ASSERT(retc >= 0);
-			ASSERT(retc <= MAX_RETS);
-			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
-			return 0;
-		}
-
-		case OPCODE_JUMP:
-		ASSERT(opc == 1);
-		ASSERT(ops[0].type == OPTP_IDX);
-		Runtime_SetInstructionIndex(runtime, ops[0].as_int);
-		return 1;
-
-		case OPCODE_JUMPIFANDPOP:
-		case OPCODE_JUMPIFNOTANDPOP:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_IDX);				
-			long long int target = ops[0].as_int;
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;			
-
-			if(!Object_IsBool(top)) {
-				Error_Report(error, ErrorType_RUNTIME, "Not a boolean");
-				return 0;
-			}
-
-			if(( Object_GetBool(top) && opcode == OPCODE_JUMPIFANDPOP) 
-			|| (!Object_GetBool(top) && opcode == OPCODE_JUMPIFNOTANDPOP))
-				Runtime_SetInstructionIndex(runtime, target);
-			return 1;
-		}
-
-		default:
-		UNREACHABLE;
-		return 0;
-	}
-
-	return 1;
-}
-
-static bool runInstructionsUntilSomethingHappens(Runtime *runtime, Error *error)
-{
-	Heap *heap = Runtime_GetHeap(runtime);
-	RuntimeCallback callback = Runtime_GetCallback(runtime);
-
-	if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
-		Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
-	else
-		while(runInstruction(runtime, error))
-		{
-			if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
-			{
-				Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
-				break;
-			}
-
-			if(Heap_GetUsagePercentage(heap) > 100)
-				if(!Runtime_CollectGarbage(runtime, error))
-					break;
-		}
-
-	// If an error occurred, we want to return NULL.
-	return !error->occurred;
-}
-
-static int runExecutableAtIndex(Runtime *runtime, Error *error,
-		    				    Executable *exe, int index,
-		    				    Object *closure,
-		    				    Object *rets[static MAX_RETS],
-						        Object *argv[], int argc)
-{
-	if (!Runtime_PushFrame(runtime, error, closure, exe, index))
-    	return -1;
-
-    for (int i = 0; i < argc; i++)
-    	if (!Runtime_Push(runtime, error, argv[i]))
-    		return -1;
-
-    if (!runInstructionsUntilSomethingHappens(runtime, error))
-    	return -1;
-
-    // Get return values
-    int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
-    	rets[i] = Runtime_Top(runtime, i-retc+1);
-
-    if (!Runtime_PopFrame(runtime))
-		return -1;
-
-	return retc;
-}
-
-int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
-{
-	int error_offset;
-	Executable *exe = compile(source, error, &error_offset);
-    if(exe == NULL) {
-    	Error suberror;
-    	Error_Init(&suberror);
-    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
-        Error_Free(&suberror);
-        return -1;
-    }
-
-    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
-
-    Executable_Free(exe);
-    return retc;
-}
-
-int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
-{
-	int error_offset;
-	Executable *exe = assemble(source, error, &error_offset);
-    if(exe == NULL) {
-    	Error suberror;
-    	Error_Init(&suberror);
-    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
-    	Error_Free(&suberror);
-        return -1;
-    }
-
-    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
-    
-    Executable_Free(exe);
-    return retc;
-}
-
-int runFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	Source *source = Source_FromFile(file, error);
-	if (source == NULL)
-		return -1;
-
-	int retc = runSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	return retc;
-}
-
-int runStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
-{
-	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL)
-		return -1;
-	
-	int retc = runSource(runtime, source, rets, error);
-	
-	Source_Free(source);
-	return retc;
-}
-
-int runBytecodeFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	Source *source = Source_FromFile(file, error);
-	if (source == NULL)
-		return -1;
-
-	int retc = runBytecodeSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	return retc;
-}
-
-int runBytecodeStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
-{
-	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL)
-		return -1;
-	
-	int retc = runBytecodeSource(runtime, source, rets, error);
-	
-	Source_Free(source);
-	return retc;
-}
-
-bool runFile(Runtime *runtime, const char *file, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runFileEx(runtime, file, rets, error) >= 0;
-}
-
-bool runString(Runtime *runtime, const char *string, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
-}
-
-bool runBytecodeFile(Runtime *runtime, const char *file, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runBytecodeFileEx(runtime, file, rets, error) >= 0;
-}
-
-bool runBytecodeString(Runtime *runtime, const char *string, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runBytecodeStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
-}
-
-static bool makePathRelativeToScript(Runtime *runtime, const char *src_path, char *dst_path, size_t dst_size)
-{
-	size_t src_size = strlen(src_path);
-
-	if(Path_IsAbsolute(src_path)) {
-		
-		if(src_size >= dst_size)
-			return false;
-		
-		strcpy(dst_path, src_path);
-	
-	} else {
-
-		size_t written = Runtime_GetCurrentScriptFolder(runtime, dst_path, dst_size);
-		if(written == 0)
-			return false;
-
-		if(written + src_size >= dst_size)
-			return false;
-
-		memcpy(dst_path + written, src_path, src_size);
-		dst_path[written + src_size] = '\0';
-	}
-
-	return true;
-}
-
-int runFileRelativeToScript(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	char full[1024];
-	if (!makePathRelativeToScript(runtime, file, full, sizeof(full))) {
-		Error_Report(error, ErrorType_INTERNAL, "Internal buffer is too small");
-		return -1;
-	}
-
-	Source *source = Source_FromFile(full, error);
-	if (source == NULL)
-		return -1;
-
-	int retc = runSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	return retc;
-}
+#include <time.h>
+#include <stdlib.h>
+#include <string.h>
+#include "runtime.h"
+#include "utils/defs.h"
+#include "utils/path.h"
+#include "compiler/compile.h"
+#include "assembler/assemble.h"
+
+static int runExecutableAtIndex(Runtime *runtime, Error *error,
+		    				    Executable *exe, int index,
+		    				    Object *closure,
+		    				    Object *rets[static MAX_RETS],
+						        Object *argv[], int argc);
+
+typedef struct {
+	Object base;
+	const char *name;
+	Runtime *runtime;
+	Executable *exe;
+	int index, argc;
+	Object *closure;
+	TimingID timing_id;
+} FunctionObject;
+
+static _Bool func_free(Object *self, Error *error)
+{
+	(void) error;
+	
+	FunctionObject *func = (FunctionObject*) self;
+	Executable_Free(func->exe);	
+	return 1;
+}
+
+static void func_walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
+{
+	FunctionObject *func = (FunctionObject*) self;
+	callback(&func->closure, userp);
+}
+
+static int func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *error)
+{
+	ASSERT(self != NULL && heap != NULL && error != NULL);
+	
+	FunctionObject *func = (FunctionObject*) self;
+
+	ASSERT(func->exe != NULL);
+	ASSERT(func->argc >= 0);
+	ASSERT(func->index >= 0);
+
+	// Make sure the right amount of arguments is provided.
+
+	Object **argv2;
+
+	int expected_argc = func->argc;
+
+	if(expected_argc < (int) argc)
+	{
+		// Nothing to be done. By using
+		// the right argc the additional
+		// arguments are ignored implicitly.
+		argv2 = argv;
+	}
+	else if(expected_argc > (int) argc)
+	{
+		// Some arguments are missing.
+		argv2 = malloc(sizeof(Object*) * expected_argc);
+
+		if(argv2 == NULL)
+		{
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return -1;
+		}
+
+		// Copy the provided arguments.
+		for(int i = 0; i < (int) argc; i += 1)
+			argv2[i] = argv[i];
+
+		// Set the unspecified arguments to none.
+		for(int i = argc; i < expected_argc; i += 1)
+		{
+			argv2[i] = Object_NewNone(heap, error);
+
+			if(argv2[i] == NULL)
+				return -1;
+		}
+	}
+	else
+		// The right amount of arguments was provided.
+		argv2 = argv;
+
+	clock_t begin;
+	TimingID timing_id;
+	TimingTable *timing_table = Runtime_GetTimingTable(func->runtime);
+	if (timing_table != NULL) {
+		begin = clock();
+
+		// Need to save the object's member
+	    // before the run function since it
+	    // may trigger a GC cycle invalidating
+	    // the object pointer.
+		timing_id = func->timing_id;
+	}
+
+	int retc = runExecutableAtIndex(func->runtime, error, func->exe, func->index, func->closure, rets, argv2, expected_argc);
+
+	if (timing_table != NULL) {
+		double time = (double) (clock() - begin) / CLOCKS_PER_SEC;
+		TimingTable_sumCallTime(timing_table, timing_id, time);
+	}
+
+	// NOTE: Every object reference is invalidated from here.
+	
+	if(argv2 != argv)
+		free(argv2);
+
+	return retc;
+}
+
+static TypeObject t_func = {
+	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
+	.name = "function",
+	.size = sizeof (FunctionObject),
+	.call = func_call,
+	.walk = func_walk,
+	.free = func_free,
+};
+
+/* Symbol: Object_FromNojaFunction
+ *
+ *   Creates an object from a noja executable structure.
+ *
+ * Args:
+ *   - runtime: The reference to an instanciated Runtime.
+ *
+ *   - exe: A noja executable.
+ *
+ *   - index: The index of the first bytecode instruction
+ *            of the noja function within the executable.
+ *
+ *   - argc: The number of arguments the function expects. 
+ *           It must be positive (unlike [Object_FromNativeFunction],
+ *           where -1 means variadic).
+ *
+ *   - closure: An object containing variables that will be
+ *              accessible from the noja function other than
+ *              the ones that will be defined inside it.
+ *
+ *   - heap: The heap that will be used to allocate the object.
+ *           It can't be NULL.
+ *
+ *   - error: Output parameter where error information is stored.
+ *            It can't be NULL.
+ *
+ * Returns:
+ *   The newly created object. If an error occurred, NULL is returned
+ *   and information about the error is stored in the [error] argument.
+ */
+Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *exe, int index, int argc, Object *closure, Heap *heap, Error *error)
+{
+	ASSERT(runtime != NULL);
+	ASSERT(exe != NULL);
+	ASSERT(index >= 0);
+	ASSERT(argc >= 0);
+	ASSERT(heap != NULL);
+	ASSERT(error != NULL);
+
+	FunctionObject *func = (FunctionObject*) Heap_Malloc(heap, &t_func, error);
+
+	if(func == NULL)
+		return NULL;
+
+	Executable *exe_copy = Executable_Copy(exe);
+
+	if(exe_copy == NULL)
+	{
+		Error_Report(error, ErrorType_INTERNAL, "Failed to copy executable");
+		return NULL;
+	}
+
+	func->runtime = runtime;
+	func->name = name; // Should this be copied?
+	func->exe = exe_copy;
+	func->index = index;
+	func->argc = argc;
+	func->closure = closure;
+
+	TimingTable *table = Runtime_GetTimingTable(runtime);
+	if (table != NULL) {
+		#warning "TODO: Calculate line number"
+		size_t line = 0;
+		Source *src = Executable_GetSource(exe);
+		func->timing_id = TimingTable_newEntry(table, src, line, name);
+	}
+
+	return (Object*) func;
+}
+
+
+typedef struct {
+	Object base;
+	Runtime *runtime;
+	int (*callback)(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[MAX_RETS], Error *error);
+	int argc;
+} NativeFunctionObject;
+
+static int native_func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS],  Heap *heap, Error *error)
+{
+	ASSERT(self != NULL);
+	ASSERT(heap != NULL);
+	ASSERT(error != NULL);
+			
+	NativeFunctionObject *func = (NativeFunctionObject*) self;
+
+	// If the function isn't variadic, make sure
+	// the right amount of arguments is provided.
+
+	Object **argv2;
+	int 	 argc2;
+
+	int expected_argc = func->argc;
+
+	if(expected_argc < 0 || expected_argc == (int) argc)
+	{
+		// The function is variadic or the right 
+		// amount of arguments was provided.
+		argv2 = argv;
+		argc2 = argc;
+	}
+	else if(expected_argc < (int) argc)
+	{
+		// Nothing to be done. By using
+		// the right argc the additional
+		// arguments are ignored implicitly.
+		argv2 = argv;
+		argc2 = expected_argc;
+	}
+	else if(expected_argc > (int) argc)
+	{
+		// Some arguments are missing.
+		argv2 = malloc(sizeof(Object*) * expected_argc);
+		argc2 = expected_argc;
+			
+		if(argv2 == NULL)
+		{
+			Error_Report(error, 1, "No memory");
+			return -1;
+		}
+
+		// Copy the provided arguments.
+		for(int i = 0; i < (int) argc; i += 1)
+			argv2[i] = argv[i];
+
+		// Set the unspecified arguments to none.
+		for(int i = argc; i < expected_argc; i += 1)
+		{
+			argv2[i] = Object_NewNone(heap, error);
+
+			if(argv2[i] == NULL)
+			{
+				free(argv2);
+				return -1;
+			}
+		}
+	} else {
+		UNREACHABLE;
+		argv2 = NULL;
+		argc2 = -1;
+	}
+
+	// Need to save the runtime before calling the
+	// callback since it may trigger a GC cycle
+	// invalidating the object pointer.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error)) {
+		if(argv2 != argv)
+			free(argv2);
+    	return -1;
+	}
+
+	ASSERT(func->callback != NULL);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
+		
+	// NOTE: Since the callback may have executed some bytecode, a GC
+	//       cycle may have been triggered, therefore we must assume
+	//       every object reference that was locally saved is invalidated 
+	//       from here (the returned object is good tho).
+
+	if(argv2 != argv)
+		free(argv2);
+
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
+    	return -1;
+
+	return retc;
+}
+
+static TypeObject t_nfunc = {
+	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
+	.name = "native function",
+	.size = sizeof (NativeFunctionObject),
+	.call = native_func_call,	
+};
+
+/* Symbol: Object_FromNativeFunction
+ *
+ *   Creates an object from a function pointer.
+ *
+ * Args:
+ *   - runtime: The reference to an instanciated Runtime. This must be
+ *              provided so that the callback can also access it.
+ *
+ *   - callback: The native function to be executed when this object
+ *               is called.
+ *
+ *   - argc: The number of arguments the function expects. If -1 is
+ *           provided, then the function is considered to be variadic.
+ *
+ *   - heap: The heap that will be used to allocate the object.
+ *           It can't be NULL.
+ *
+ *   - error: Output parameter where error information is stored.
+ *            It can't be NULL.
+ *
+ * Returns:
+ *   The newly created object. If an error occurred, NULL is returned
+ *   and information about the error is stored in the [error] argument.
+ */
+Object *Object_FromNativeFunction(Runtime *runtime, int (*callback)(Runtime*, Object**, unsigned int, Object*[static MAX_RETS], Error*), int argc, Heap *heap, Error *error)
+{
+	ASSERT(callback != NULL);
+
+	NativeFunctionObject *func = (NativeFunctionObject*) Heap_Malloc(heap, &t_nfunc, error);
+
+	if(func == NULL)
+		return NULL;
+
+	func->runtime = runtime;
+	func->callback = callback;
+	func->argc = argc;
+
+	return (Object*) func;
+}
+
+static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
+{
+	ASSERT(lop != NULL);
+	ASSERT(rop != NULL);
+
+	#define APPLY(x, y, z, id) 							\
+		switch(opcode)									\
+		{												\
+			case OPCODE_ADD: (z) = (x) + (y); break;	\
+			case OPCODE_SUB: (z) = (x) - (y); break;	\
+			case OPCODE_MUL: (z) = (x) * (y); break;	\
+			case OPCODE_DIV: 							\
+			if((y) == 0) 								\
+			{ 											\
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero"); \
+				return NULL; 							\
+			} 											\
+			(z) = (x) / (y); 							\
+			break;										\
+			default: UNREACHABLE; break;				\
+		}
+
+	Object *res;
+
+	if(Object_IsInt(lop))
+	{
+		long long int raw_lop = Object_GetInt(lop);
+
+		if(Object_IsInt(rop))
+		{
+			// int + int
+			long long int raw_rop = Object_GetInt(rop);
+			long long int raw_res = 0;
+			APPLY(raw_lop, raw_rop, raw_res, id)
+			res = Object_FromInt(raw_res, heap, error);
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// int + float
+			double raw_rop = Object_GetFloat(rop);
+			double raw_res = 0;
+			APPLY((double) raw_lop, raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else if(Object_IsFloat(lop))
+	{
+		double raw_lop = Object_GetFloat(lop);
+
+		if(Object_IsInt(rop))
+		{
+			// float + int
+			long long int raw_rop = Object_GetInt(rop);
+			double raw_res = 0;
+			APPLY(raw_lop, (double) raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// float + float
+			double raw_rop = Object_GetFloat(rop);
+			double raw_res = 0;
+			APPLY(raw_lop, raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+		return NULL;
+	}
+
+	#undef APPLY
+
+	return res;
+}
+
+static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
+{
+	ASSERT(lop != NULL);
+	ASSERT(rop != NULL);
+
+	#define APPLY(x, y, z, id) 							\
+		switch(opcode)									\
+		{												\
+			case OPCODE_LSS: (z) = (x) <  (y); break;	\
+			case OPCODE_GRT: (z) = (x) >  (y); break;	\
+			case OPCODE_LEQ: (z) = (x) <= (y); break;	\
+			case OPCODE_GEQ: (z) = (x) >= (y); break;	\
+			default: UNREACHABLE; break;				\
+		}
+
+	_Bool res = 0;
+
+	if(Object_IsInt(lop))
+	{
+		long long int raw_lop = Object_GetInt(lop);
+		if(Object_IsInt(rop))
+		{
+			// int + int
+			long long int raw_rop = Object_GetInt(rop);
+			APPLY(raw_lop, raw_rop, res, id)
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// int + float
+			double raw_rop = Object_GetFloat(rop);
+			APPLY((double) raw_lop, raw_rop, res, id)
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else if(Object_IsFloat(lop))
+	{
+		double raw_lop = Object_GetFloat(lop);
+		if(Object_IsInt(rop))
+		{
+			// float + int
+			long long int raw_rop = Object_GetInt(rop);
+			APPLY(raw_lop, (double) raw_rop, res, id)
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// float + float
+			double raw_rop = Object_GetFloat(rop);
+			APPLY(raw_lop, raw_rop, res, id)
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+		return NULL;
+	}
+
+	#undef APPLY
+
+	return Object_FromBool(res, heap, error);
+}
+
+static _Bool runInstruction(Runtime *runtime, Error *error)
+{
+	ASSERT(runtime != NULL);
+	ASSERT(error->occurred == 0);
+
+	Heap *heap = Runtime_GetHeap(runtime);
+	Executable *exe = Runtime_GetCurrentExecutable(runtime);
+	ASSERT(exe != NULL);
+	int index = Runtime_GetCurrentIndex(runtime);
+	Opcode opcode;
+	Operand ops[3];
+	int     opc = sizeof(ops) / sizeof(ops[0]);
+	
+	if(!Executable_Fetch(exe, index, &opcode, ops, &opc))
+	{
+		Error_Report(error, ErrorType_INTERNAL, "Invalid instruction index %d", index);
+		return 0;
+	}
+	
+	Runtime_SetInstructionIndex(runtime, index+1);
+
+	switch(opcode)
+	{
+		case OPCODE_NOPE:
+		// Do nothing.
+		return 1;
+
+		case OPCODE_POS:
+		{
+			ASSERT(opc == 0);
+
+			if(Runtime_Top(runtime, 0) == NULL)
+			{
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't have enough items on the stack to execute POS");
+				return 0;
+			}
+
+			/* Do nothing */
+			return 1;
+		}
+
+		case OPCODE_NEG:
+		{
+			ASSERT(opc == 0);
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			if(Object_IsInt(top))
+			{
+				long long n = Object_GetInt(top);
+				top = Object_FromInt(-n, heap, error);
+			}
+			else if(Object_IsFloat(top))
+			{
+				double f = Object_GetFloat(top);
+				top = Object_FromFloat(-f, heap, error);
+			}
+			else
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Negation operand on a non-numeric object");
+				return 0;
+			}
+
+			if(top == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, top);
+		}
+
+		case OPCODE_NOT:
+		{
+			ASSERT(opc == 0);
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			if(!Object_IsBool(top))
+			{
+				Error_Report(error, ErrorType_RUNTIME, "NOT operand isn't a boolean");
+				return 0;
+			}
+
+			_Bool v = Object_GetBool(top);
+
+			Object *negated = Object_FromBool(!v, heap, error);
+			if(negated == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, negated);
+		}
+
+		case OPCODE_NLB:
+		{
+			ASSERT(opc == 0);
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			Object *nullable = Object_NewNullable(top, heap, error);
+			if(nullable == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, nullable);
+		}
+
+		case OPCODE_STP:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			Object *res = Object_NewSum(objs[1], objs[0], heap, error);
+			if(res == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_ADD:
+		case OPCODE_SUB:
+		case OPCODE_MUL:
+		case OPCODE_DIV:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			Object *res = do_math_op(objs[1], objs[0], opcode, heap, error);
+			if(res == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_MOD:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			if (!Object_IsInt(objs[0]) || !Object_IsInt(objs[1])) {
+				Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+				return 0;
+			}
+
+			long long int x, y, z;
+			y = Object_GetInt(objs[0]);
+			x = Object_GetInt(objs[1]);
+			z = x % y;
+
+			Object *res = Object_FromInt(z, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_EQL:
+		case OPCODE_NQL:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+
+			_Bool rawres = Object_Compare(objs[1], objs[0], error);
+			if(error->occurred == 1)
+				return 0;
+
+			if(opcode == OPCODE_NQL)
+				rawres = !rawres;
+
+			Object *res = Object_FromBool(rawres, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_LSS:
+		case OPCODE_GRT:
+		case OPCODE_LEQ:
+		case OPCODE_GEQ:
+		{
+			ASSERT(opc == 0);
+
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+
+			Object *res = do_relational_op(objs[1], objs[0], opcode, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_ASS:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+			const char *name = ops[0].as_string;
+
+			Object *value = Runtime_Top(runtime, 0);
+			if(value == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack");
+				return 0;
+			}
+			return Runtime_SetVariable(runtime, error, name, value);
+		}
+
+		case OPCODE_POP:
+		{
+			ASSERT(opc == 1);
+			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
+		}
+
+		case OPCODE_CHECKTYPE:
+		{
+			ASSERT(opc == 2);
+			ASSERT(ops[0].type == OPTP_INT);
+			ASSERT(ops[1].type == OPTP_STRING);
+			
+			const char *arg_name; 
+			int arg_index;
+			
+			arg_index = ops[0].as_int;
+			arg_name  = ops[1].as_string;
+			ASSERT(arg_name != NULL);
+
+			Object *typ = Runtime_Top(runtime, 0);
+			Object *arg = Runtime_Top(runtime, -1);
+			if(typ == NULL || arg == NULL)
+			{
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute CHECKTYPE");
+				return 0;
+			}
+
+			// Pop type
+			if(!Runtime_Pop(runtime, error, NULL, 1))
+				return 0;
+
+			if (!Object_IsTypeOf(typ, arg, heap, error)) {
+				char provided[512];
+				char allowed[512];
+				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
+				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
+				// TODO: Check for errors from [fmemopen]
+				Object_Print(typ, allowed_fp);
+				Object_Print(arg, provided_fp);
+				fclose(allowed_fp);
+				fclose(provided_fp);
+				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
+							 arg_index+1, arg_name, allowed, provided);
+				return 0;
+			}
+			return 1;
+		}
+
+		case OPCODE_CALL:
+		{
+			ASSERT(opc == 2);
+			ASSERT(ops[0].type == OPTP_INT);
+			ASSERT(ops[1].type == OPTP_INT);
+
+			int argc = ops[0].as_int;
+			int retc = ops[1].as_int;
+			ASSERT(argc >= 0 && retc > 0);
+
+			Object *callable;
+			if (!Runtime_Pop(runtime, error, &callable, 1)) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
+				return 0;
+			}
+
+			Object *argv[32];
+
+			int max_argc = sizeof(argv) / sizeof(argv[0]);
+			if(argc > max_argc) {
+				Error_Report(error, ErrorType_INTERNAL, "Static buffer only allows function calls with up to %d arguments", max_argc);
+				return 0;
+			}
+			if (!Runtime_Pop(runtime, error, argv, argc))
+				return 0;
+
+			Object *rets[8];
+			int num_rets = Object_Call(callable, argv, argc, rets, heap, error);
+			if(num_rets < 0)
+				return 0;
+
+			// NOTE: Every local object reference is invalidated from here.
+
+			ASSERT(error->occurred == 0);
+
+			for(int g = 0; g < MIN(num_rets, retc); g += 1)
+				if(!Runtime_Push(runtime, error, rets[g]))
+					return 0;
+
+			for(int g = 0; g < retc - num_rets; g += 1)
+			{
+				Object *temp = Object_NewNone(Runtime_GetHeap(runtime), error);
+				if(temp == NULL)
+					return NULL;
+
+				if(!Runtime_Push(runtime, error, temp))
+					return 0;
+			}
+			return 1;
+		}
+
+		case OPCODE_SELECT:
+		case OPCODE_SELECT2:
+		{
+			ASSERT(opc == 0);
+
+			int to_be_popped = (opcode == OPCODE_SELECT) ? 2 : 1;
+
+			Object *col = Runtime_Top(runtime, -1);
+			Object *key = Runtime_Top(runtime, 0);
+			if (col == NULL || key == NULL) {
+				const char *name = "SELECT";
+				if (opcode == OPCODE_SELECT2)
+					name = "SELECT2";
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run %s instruction", name);
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, to_be_popped))
+				return 0;
+
+			Error dummy;
+			Error_Init(&dummy); // We want to catch the error reported by this Object_Select.
+
+			Object *val = Object_Select(col, key, heap, &dummy);
+
+			if(val == NULL) {
+				Error_Free(&dummy);
+
+				val = Object_NewNone(heap, error);
+				if(val == NULL)
+					return 0;
+			}
+
+			return Runtime_Push(runtime, error, val);
+		}
+
+		case OPCODE_INSERT:
+		{
+			ASSERT(opc == 0);
+
+			Object *col = Runtime_Top(runtime, -2);
+			Object *key = Runtime_Top(runtime, -1);
+			Object *val = Runtime_Top(runtime,  0);
+			if (col == NULL || key == NULL || val == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT instruction");
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, 2))
+				return 0;
+
+			return Object_Insert(col, key, val, heap, error);
+		}
+		
+		case OPCODE_INSERT2:
+		{
+			ASSERT(opc == 0);
+
+			Object *val = Runtime_Top(runtime, -2);
+			Object *col = Runtime_Top(runtime, -1);
+			Object *key = Runtime_Top(runtime,  0);
+			if (val == NULL || col == NULL || key == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT2 instruction");
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, 2))
+				return 0;
+
+			return Object_Insert(col, key, val, heap, error);
+		}
+
+		case OPCODE_PUSHINT:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			Object *obj = Object_FromInt(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+		
+		case OPCODE_PUSHFLT:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_FLOAT);
+
+			Object *obj = Object_FromFloat(ops[0].as_float, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHSTR:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+
+			Object *obj = Object_FromString(ops[0].as_string, -1, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHVAR:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+
+			Object *value;
+			if (!Runtime_GetVariable(runtime, error, ops[0].as_string, &value))
+				return 0;
+
+			if (value == NULL) {
+				Error_Report(error, ErrorType_RUNTIME, "Reference to undefined variable \"%s\"", ops[0].as_string);
+				return 0;
+			}
+
+			return Runtime_Push(runtime, error, value);
+		}
+
+		case OPCODE_PUSHNNE:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_NewNone(heap, error);
+			if(obj == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHTRU:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_FromBool(1, heap, error);
+			if(obj == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHFLS:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_FromBool(0, heap, error);
+			if(obj == NULL) 
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHFUN:
+		{
+			ASSERT(opc == 3);
+			ASSERT(ops[0].type == OPTP_IDX);
+			ASSERT(ops[1].type == OPTP_INT);
+			ASSERT(ops[2].type == OPTP_STRING);
+
+			Object *locals  = Runtime_GetLocals(runtime);
+			Object *old_closure = Runtime_GetClosure(runtime);
+			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
+			if(new_closure == NULL)
+				return 0;
+
+			Object *func = Object_FromNojaFunction(runtime, ops[2].as_string, exe, ops[0].as_int, ops[1].as_int, new_closure, heap, error);
+			if(func == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, func);
+		}
+
+		case OPCODE_PUSHLST:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			Object *obj = Object_NewList(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHMAP:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHNNETYP:
+		{
+			ASSERT(opc == 0);
+
+			Object *obj = (Object*) Object_GetNoneType();
+			ASSERT(obj != NULL);
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHTYP:
+		{
+			ASSERT(opc == 0);
+
+			Object *top = Runtime_Top(runtime, 0);
+			if (top == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run PUSHTYP instruction");
+				return 0;
+			}
+
+			Object *typ = (Object*) Object_GetType(top);
+			ASSERT(typ != NULL);
+			
+			return Runtime_Push(runtime, error, typ);
+		}
+
+		case OPCODE_EXIT:
+		{
+			ASSERT(opc == 0);
+			Object *vars = Runtime_GetLocals(runtime);
+			ASSERT(vars != NULL);
+			Runtime_Push(runtime, error, vars);
+			return 0;
+		}
+
+		case OPCODE_RETURN:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+			int retc = ops[0].as_int;
+			UNUSED(retc);
+			ASSERT(retc >= 0);
+			ASSERT(retc <= MAX_RETS);
+			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
+			return 0;
+		}
+
+		case OPCODE_JUMP:
+		ASSERT(opc == 1);
+		ASSERT(ops[0].type == OPTP_IDX);
+		Runtime_SetInstructionIndex(runtime, ops[0].as_int);
+		return 1;
+
+		case OPCODE_JUMPIFANDPOP:
+		case OPCODE_JUMPIFNOTANDPOP:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_IDX);				
+			long long int target = ops[0].as_int;
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;			
+
+			if(!Object_IsBool(top)) {
+				Error_Report(error, ErrorType_RUNTIME, "Not a boolean");
+				return 0;
+			}
+
+			if(( Object_GetBool(top) && opcode == OPCODE_JUMPIFANDPOP) 
+			|| (!Object_GetBool(top) && opcode == OPCODE_JUMPIFNOTANDPOP))
+				Runtime_SetInstructionIndex(runtime, target);
+			return 1;
+		}
+
+		default:
+		UNREACHABLE;
+		return 0;
+	}
+
+	return 1;
+}
+
+static bool runInstructionsUntilSomethingHappens(Runtime *runtime, Error *error)
+{
+	Heap *heap = Runtime_GetHeap(runtime);
+	RuntimeCallback callback = Runtime_GetCallback(runtime);
+
+	if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
+		Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+	else
+		while(runInstruction(runtime, error))
+		{
+			if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+				break;
+			}
+
+			if(Heap_GetUsagePercentage(heap) > 100)
+				if(!Runtime_CollectGarbage(runtime, error))
+					break;
+		}
+
+	// If an error occurred, we want to return NULL.
+	return !error->occurred;
+}
+
+static int runExecutableAtIndex(Runtime *runtime, Error *error,
+		    				    Executable *exe, int index,
+		    				    Object *closure,
+		    				    Object *rets[static MAX_RETS],
+						        Object *argv[], int argc)
+{
+	if (!Runtime_PushFrame(runtime, error, closure, exe, index))
+    	return -1;
+
+    for (int i = 0; i < argc; i++)
+    	if (!Runtime_Push(runtime, error, argv[i]))
+    		return -1;
+
+    if (!runInstructionsUntilSomethingHappens(runtime, error))
+    	return -1;
+
+    // Get return values
+    int retc = Runtime_GetFrameStackUsage(runtime);
+    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    	rets[i] = Runtime_Top(runtime, i-retc+1);
+
+    if (!Runtime_PopFrame(runtime))
+		return -1;
+
+	return retc;
+}
+
+int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
+{
+	int error_offset;
+	Executable *exe = compile(source, error, &error_offset);
+    if(exe == NULL) {
+    	Error suberror;
+    	Error_Init(&suberror);
+    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
+        Error_Free(&suberror);
+        return -1;
+    }
+
+    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
+
+    Executable_Free(exe);
+    return retc;
+}
+
+int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
+{
+	int error_offset;
+	Executable *exe = assemble(source, error, &error_offset);
+    if(exe == NULL) {
+    	Error suberror;
+    	Error_Init(&suberror);
+    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
+    	Error_Free(&suberror);
+        return -1;
+    }
+
+    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
+    
+    Executable_Free(exe);
+    return retc;
+}
+
+int runFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	Source *source = Source_FromFile(file, error);
+	if (source == NULL)
+		return -1;
+
+	int retc = runSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	return retc;
+}
+
+int runStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
+{
+	Source *source = Source_FromString(name, string, -1, error);
+	if (source == NULL)
+		return -1;
+	
+	int retc = runSource(runtime, source, rets, error);
+	
+	Source_Free(source);
+	return retc;
+}
+
+int runBytecodeFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	Source *source = Source_FromFile(file, error);
+	if (source == NULL)
+		return -1;
+
+	int retc = runBytecodeSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	return retc;
+}
+
+int runBytecodeStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
+{
+	Source *source = Source_FromString(name, string, -1, error);
+	if (source == NULL)
+		return -1;
+	
+	int retc = runBytecodeSource(runtime, source, rets, error);
+	
+	Source_Free(source);
+	return retc;
+}
+
+bool runFile(Runtime *runtime, const char *file, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runFileEx(runtime, file, rets, error) >= 0;
+}
+
+bool runString(Runtime *runtime, const char *string, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
+}
+
+bool runBytecodeFile(Runtime *runtime, const char *file, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runBytecodeFileEx(runtime, file, rets, error) >= 0;
+}
+
+bool runBytecodeString(Runtime *runtime, const char *string, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runBytecodeStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
+}
+
+static bool makePathRelativeToScript(Runtime *runtime, const char *src_path, char *dst_path, size_t dst_size)
+{
+	size_t src_size = strlen(src_path);
+
+	if(Path_IsAbsolute(src_path)) {
+		
+		if(src_size >= dst_size)
+			return false;
+		
+		strcpy(dst_path, src_path);
+	
+	} else {
+
+		size_t written = Runtime_GetCurrentScriptFolder(runtime, dst_path, dst_size);
+		if(written == 0)
+			return false;
+
+		if(written + src_size >= dst_size)
+			return false;
+
+		memcpy(dst_path + written, src_path, src_size);
+		dst_path[written + src_size] = '\0';
+	}
+
+	return true;
+}
+
+int runFileRelativeToScript(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	char full[1024];
+	if (!makePathRelativeToScript(runtime, file, full, sizeof(full))) {
+		Error_Report(error, ErrorType_INTERNAL, "Internal buffer is too small");
+		return -1;
+	}
+
+	Source *source = Source_FromFile(full, error);
+	if (source == NULL)
+		return -1;
+
+	int retc = runSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	return retc;
+}
-- 
2.43.0


From dba04a7a23978096ea3c268153b3a1462a625004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 30/76] fix: arguments aren't leaked when a call runs out of
 memory

---
 src/lib/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 7fc4ea5..38379ed 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -82,7 +82,10 @@ static int func_call(Object *self, Object **argv, unsigned int argc, Object *ret
 			argv2[i] = Object_NewNone(heap, error);
 
 			if(argv2[i] == NULL)
+			{
+				free(argv2);
 				return -1;
+			}
 		}
 	}
 	else
-- 
2.43.0


From d1b118a1f068f9ec5c2478afc84b0414821f514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 31/76] fix: integer overflows abort the program as documented

---
 src/lib/run.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 38379ed..fa540e1 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1,4 +1,5 @@
 #include <time.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "runtime.h"
@@ -379,7 +380,30 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			_Bool overflow = 0;
+			switch(opcode)
+			{
+				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_DIV:
+				if(raw_rop == 0)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+					return NULL;
+				}
+				if(raw_lop == LLONG_MIN && raw_rop == -1)
+					overflow = 1;
+				else
+					raw_res = raw_lop / raw_rop;
+				break;
+				default: UNREACHABLE; break;
+			}
+			if(overflow)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+				return NULL;
+			}
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
@@ -554,6 +578,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(Object_IsInt(top))
 			{
 				long long n = Object_GetInt(top);
+				if(n == LLONG_MIN)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
 				top = Object_FromInt(-n, heap, error);
 			}
 			else if(Object_IsFloat(top))
-- 
2.43.0


From 5cc490f3afbb23949b868d73d72050df0193ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 32/76] fix: modulo by zero and by -1 don't crash

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index fa540e1..74c99cb 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -681,7 +681,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+			if (y == 0) {
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			z = (y == -1) ? 0 : x % y; // The minimum integer can't be divided by -1.
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 7097011e60775abf2579c6c20394d2fc3b8a7588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 33/76] fix: the message of a failed argument check is always
 terminated

---
 src/lib/run.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 74c99cb..dad5799 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -527,6 +527,21 @@ static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *h
 	return Object_FromBool(res, heap, error);
 }
 
+// Prints an object to a buffer truncating the result 
+// if necessary. The buffer is always null-terminated.
+static void printToBuffer(Object *obj, char *buffer, size_t size)
+{
+	memset(buffer, 0, size);
+
+	FILE *fp = fmemopen(buffer, size-1, "wb");
+	if(fp == NULL)
+		return;
+
+	Object_Print(obj, fp);
+	fclose(fp);
+	buffer[size-1] = '\0';
+}
+
 static _Bool runInstruction(Runtime *runtime, Error *error)
 {
 	ASSERT(runtime != NULL);
@@ -780,15 +795,13 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 
 			if (!Object_IsTypeOf(typ, arg, heap, error)) {
+				if (error->occurred)
+					return 0;
+
 				char provided[512];
 				char allowed[512];
-				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
-				Object_Print(typ, allowed_fp);
-				Object_Print(arg, provided_fp);
-				fclose(allowed_fp);
-				fclose(provided_fp);
+				printToBuffer(arg, provided, sizeof(provided));
+				printToBuffer(typ, allowed, sizeof(allowed));
 				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
 							 arg_index+1, arg_name, allowed, provided);
 				return 0;
-- 
2.43.0


From 840dba67a62114c7e16f78d132f4514e08decc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 34/76] fix: running out of memory while selecting isn't hidden

---
 src/lib/run.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index dad5799..1b7308c 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -885,6 +885,13 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			Object *val = Object_Select(col, key, heap, &dummy);
 
 			if(val == NULL) {
+				
+				if(dummy.occurred && dummy.type == ErrorType_INTERNAL) {
+					// This isn't about the key.
+					Error_Report(error, ErrorType_INTERNAL, "%s", dummy.message);
+					Error_Free(&dummy);
+					return 0;
+				}
 				Error_Free(&dummy);
 
 				val = Object_NewNone(heap, error);
-- 
2.43.0


From c3dbb3039a33a39a91ba45fc91dec9224e1c49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 35/76] fix: returning too many values is an error, not a stack
 corruption

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 1b7308c..e1f2455 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1186,7 +1186,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From c782777151467d055f0e0e2cbe493a248c61dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 36/76] fix: failing to allocate from the heap is reported

---
 src/lib/objects/heap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..f42daa8 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -303,7 +303,10 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
 			return 0;
+		}
 
 		oflow->prev = heap->oflow;
 		heap->oflow = oflow;
-- 
2.43.0


From d1bb07cc6cb8f2d5453586ad2dce00e7ddc9c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 37/76] fix: a destructor that fails doesn't leave the heap in
 the middle of a collection

---
 src/lib/objects/heap.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index f42daa8..7c9d3c3 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -360,6 +360,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 
 static bool callDestructors(Heap *heap)
 {
+	bool ok = true;
 	int i = 0;
 
 	while(i < heap->pend_used)
@@ -375,11 +376,18 @@ static bool callDestructors(Heap *heap)
 		{
 			// We need to call the destructor.
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
+			Error suberror;
+			Error_Init(&suberror);
+			heap->pend[i].destructor(obj, &suberror);
+
+			if(suberror.occurred) {
+				// The other destructors must be called anyway.
+				if(!heap->error->occurred)
+					Error_Report(heap->error, suberror.type, "%s", suberror.message);
+				ok = false;
+			}
+			Error_Free(&suberror);
+
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
 		}
@@ -397,7 +405,7 @@ static bool callDestructors(Heap *heap)
 		}
 	}
 
-	return true;
+	return ok;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -414,8 +422,7 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
-	if(!callDestructors(heap))
-		return false;
+	bool ok = callDestructors(heap);
 	
 	freeOverflowAllocations(heap);
 
@@ -424,7 +431,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
 
-	return !heap->collection_failed;
+	return ok && !heap->collection_failed;
 }
 
 void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
-- 
2.43.0


From 68b227e2d2be3108054f5caab3e3e98413693358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 38/76] fix: stack traces refer to the instruction being
 executed

---
 src/lib/runtime.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..71eeb11 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -157,7 +157,10 @@ static int getFrameOffset(Frame *frame)
 		case FrameType_NORMAL: 
 		{
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			// The index of a frame refers to the instruction that
+			// follows the one being executed.
+			int index = normal_frame->index > 0 ? normal_frame->index-1 : 0;
+			return Executable_GetInstrOffset(normal_frame->exe, index);
 		}
 
 		case FrameType_NATIVE: return -1;
-- 
2.43.0


From 2003726eac1e262d24da33ddc9c6c2906ee2b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 39/76] fix: stack traces are written only to the stream
 they're asked for

---
 src/lib/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 71eeb11..e792903 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -219,7 +219,7 @@ void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream)
 	fprintf(stream, "Stack trace:\n");
 	Frame *frame = runtime->frame;
 	if (frame == NULL)
-		fprintf(stderr, "\t(No active frames)\n");
+		fprintf(stream, "\t(No active frames)\n");
 	else {
 		size_t depth = 0;
 		do {
-- 
2.43.0


From 63b62d38a95d6bc033a0af3bc05e92cf85d7d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 40/76] fix: frames left by a failed run don't affect the next
 runs of a runtime

---
 src/lib/run.c     | 36 ++++++++++++++++++++++++++++++++----
 src/lib/runtime.c | 19 +++++++++++++++++++
 src/lib/runtime.h |  2 ++
 3 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index e1f2455..399d73e 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1201,6 +1201,8 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
 int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	int error_offset;
 	Executable *exe = compile(source, error, &error_offset);
     if(exe == NULL) {
@@ -1208,17 +1210,21 @@ int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], E
     	Error_Init(&suberror);
     	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
         Error_Free(&suberror);
+        Runtime_EndRun(runtime);
         return -1;
     }
 
     int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
 
     Executable_Free(exe);
+    Runtime_EndRun(runtime);
     return retc;
 }
 
 int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	int error_offset;
 	Executable *exe = assemble(source, error, &error_offset);
     if(exe == NULL) {
@@ -1226,60 +1232,82 @@ int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_
     	Error_Init(&suberror);
     	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
     	Error_Free(&suberror);
+        Runtime_EndRun(runtime);
         return -1;
     }
 
     int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
     
     Executable_Free(exe);
+    Runtime_EndRun(runtime);
     return retc;
 }
 
 int runFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	Source *source = Source_FromFile(file, error);
-	if (source == NULL)
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
 		return -1;
+	}
 
 	int retc = runSource(runtime, source, rets, error);
 
 	Source_Free(source);
+	Runtime_EndRun(runtime);
 	return retc;
 }
 
 int runStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL)
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
 		return -1;
+	}
 	
 	int retc = runSource(runtime, source, rets, error);
 	
 	Source_Free(source);
+	Runtime_EndRun(runtime);
 	return retc;
 }
 
 int runBytecodeFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	Source *source = Source_FromFile(file, error);
-	if (source == NULL)
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
 		return -1;
+	}
 
 	int retc = runBytecodeSource(runtime, source, rets, error);
 
 	Source_Free(source);
+	Runtime_EndRun(runtime);
 	return retc;
 }
 
 int runBytecodeStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
 {
+	Runtime_BeginRun(runtime);
+
 	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL)
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
 		return -1;
+	}
 	
 	int retc = runBytecodeSource(runtime, source, rets, error);
 	
 	Source_Free(source);
+	Runtime_EndRun(runtime);
 	return retc;
 }
 
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index e792903..87d53e8 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -77,6 +77,7 @@ struct xRuntime {
 	_Bool free_heap;
 	Object *builtins;
 	int    depth;
+	int    runs; // Number of nested runs currently active
 	Frame *frame;
 	Stack *stack;
 	Heap  *heap;
@@ -362,6 +363,7 @@ Runtime *Runtime_New(RuntimeConfig config)
 	runtime->builtins = NULL;
 	runtime->frame = NULL;
 	runtime->depth = 0;
+	runtime->runs = 0;
 	
 	runtime->stdin  = config.stdin;
 	runtime->stderr = config.stderr;
@@ -718,6 +720,23 @@ bool Runtime_PopFrame(Runtime *runtime)
 	return true;
 }
 
+// When a run fails its frames are left there so that the
+// stack trace can be printed. They must go when something
+// else is run.
+void Runtime_BeginRun(Runtime *runtime)
+{
+	if (runtime->runs == 0)
+		while (runtime->frame != NULL)
+			Runtime_PopFrame(runtime);
+	runtime->runs++;
+}
+
+void Runtime_EndRun(Runtime *runtime)
+{
+	ASSERT(runtime->runs > 0);
+	runtime->runs--;
+}
+
 RuntimeCallback Runtime_GetCallback(Runtime *runtime)
 {
 	return runtime->callback;
diff --git a/src/lib/runtime.h b/src/lib/runtime.h
index bac78ba..8814335 100644
--- a/src/lib/runtime.h
+++ b/src/lib/runtime.h
@@ -75,6 +75,8 @@ bool Runtime_PushFrame(Runtime *runtime, Error *error, Object *closure, Executab
 bool Runtime_PushNativeFrame(Runtime *runtime, Error *error);
 bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int offset);
 bool Runtime_PopFrame(Runtime *runtime);
+void Runtime_BeginRun(Runtime *runtime);
+void Runtime_EndRun(Runtime *runtime);
 void Runtime_SetInstructionIndex(Runtime *runtime, int index);
 bool Runtime_SetVariable(Runtime *runtime, Error *error, const char *name, Object *value);
 bool Runtime_GetVariable(Runtime *runtime, Error *error, const char *name, Object **value);
-- 
2.43.0


From c8f220d3176e712326d2b3e81be9154fa546d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 41/76] fix: sources created from strings are terminated like
 the ones read from files

---
 src/lib/utils/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..e3c3d95 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -213,6 +213,7 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	else
 		s->name = NULL;
 	
-	strncpy(s->body, body, size);
+	memcpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From d9a62e8d1db88960e4deb9583f91e3ea7a7906f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 42/76] fix: semantic errors are reported at the right place
 and don't corrupt memory

---
 src/lib/compiler/codegen.c    | 9 ++++-----
 src/lib/compiler/codegenctx.c | 6 ++++--
 src/lib/compiler/codegenctx.h | 2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..e933f7f 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,12 +768,11 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
-	if(ctx == NULL) {
-		*error_offset = 0;
-		Error_Report(error, ErrorType_INTERNAL, "No memory");
+	*error_offset = -1; // Until the position of the error is known.
+
+	CodegenContext *ctx = CodegenContext_New(error, alloc, error_offset);
+	if(ctx == NULL)
 		return NULL;
-	}
 
 	if(setjmp(env)) {
 		assert(error->occurred == true);
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..c352002 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,7 +74,7 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc, int *error_offset)
 {
     bool own_alloc;
     if(alloc == NULL) {
@@ -98,8 +98,9 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
+        Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
 
@@ -108,6 +109,7 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
     ctx->builder = builder;
     ctx->env_set = false;
     ctx->own_alloc = own_alloc;
+    ctx->error_offset = error_offset;
     return ctx;
 }
 
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..ad13178 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc, int *error_offset);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
-- 
2.43.0


From 0bab5d60fb8db50588b74fb92ad1601e9ab2c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 43/76] fix: a source ending inside a map literal is rejected,
 not a crash

---
 src/lib/compiler/parse.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..9a6bcff 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1011,13 +1011,12 @@ static Node *parse_map_primary_expression(Context *ctx)
 			}
 			else
 			{
-				_Bool key_is_a_single_ident;
+				_Bool key_is_a_single_ident = 0;
+				if(current(ctx) == TIDENT)
 				{
-					_Bool key_starts_with_an_ident = current(ctx) == TIDENT;
-
 					next(ctx);
 
-					key_is_a_single_ident = key_starts_with_an_ident && (current(ctx) == TDONE || current(ctx) == ':');
+					key_is_a_single_ident = (current(ctx) == TDONE || current(ctx) == ':');
 
 					prev(ctx);
 				}
-- 
2.43.0


From e0028db837603f1f5a0baac8e30a68e04962c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 44/76] fix: the parser reports every failed allocation

---
 src/lib/compiler/parse.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 9a6bcff..4e72037 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -450,8 +450,11 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	AST *ast = BPAlloc_Malloc(alloc, sizeof(AST));
 
 	if(ast == NULL)
-		#warning "should an error be reported here?"
+	{
+		*error_offset = 0;
+		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
+	}
 
 	Token *tokens = tokenize(src, alloc, error, error_offset);
 
@@ -1643,7 +1646,11 @@ static Node *parse_prefix_expression(Context *ctx)
 			OperExprNode *temp = BPAlloc_Malloc(ctx->alloc, sizeof(OperExprNode));
 			{
 				if(temp == NULL)
+				{
+					*ctx->error_offset = unary_operator->offset;
+					Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 					return NULL;
+				}
 
 				temp->base.base.kind = NODE_EXPR;
 				temp->base.base.next = NULL;
@@ -1774,6 +1781,7 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 
 			if(temp == NULL)
 			{
+				*ctx->error_offset = op->offset;
 				Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 				return NULL;
 			}
-- 
2.43.0


From 36aa43afa5f9cd185b139d23ae8937edbb067d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 45/76] fix: none, true and false refer to their own place in
 the source

---
 src/lib/compiler/parse.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 4e72037..7bf566b 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1334,6 +1334,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWNONE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1349,8 +1351,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_NONE;
 			}
 
@@ -1359,6 +1361,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWTRUE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1374,8 +1378,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_TRUE;
 			}
 
@@ -1384,6 +1388,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWFALSE:
 		{
+			Token *token = current_token(ctx);
+
 			next(ctx);
 
 			ExprNode *node;
@@ -1399,8 +1405,8 @@ static Node *parse_primary_expresion(Context *ctx)
 
 				node->base.kind = NODE_EXPR;
 				node->base.next = NULL;
-				node->base.offset = ctx->token->offset;
-				node->base.length = ctx->token->length;
+				node->base.offset = token->offset;
+				node->base.length = token->length;
 				node->kind = EXPR_FALSE;
 			}
 			return (Node*) node;
-- 
2.43.0


From d8cb99e546921ce5018b129efe2a58a4cdf8f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 46/76] fix: operators are recognized when other operators
 follow them without spaces

---
 src/lib/compiler/parse.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 7bf566b..816ee58 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -319,9 +319,10 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 			while(i < len && isoper(str[i]))
 				i += 1;
 
-			tok->length = i - tok->offset;
-				
-			// Determine the token
+			int run = i - tok->offset;
+
+			// Determine the token: the longest operator that the
+			// run of operator characters starts with.
 
 			static const struct {
 				TokenKind    kind;
@@ -345,22 +346,18 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 				{   TARW, 2, "->" },
 			};
 
-			_Bool found = 0;
-			for(unsigned int i = 0; i < sizeof(optable)/sizeof(*optable); i += 1)
-				if(optable[i].size == tok->length && !strncmp(optable[i].text, str + tok->offset, tok->length))
+			// If it isn't a known operator.
+			tok->kind = str[tok->offset];
+			tok->length = 1;
+
+			for(unsigned int k = 0; k < sizeof(optable)/sizeof(*optable); k += 1)
+				if(optable[k].size <= run && optable[k].size >= tok->length && !strncmp(optable[k].text, str + tok->offset, optable[k].size))
 				{
-					found = 1;
-					tok->kind = optable[i].kind;
-					break;
+					tok->kind = optable[k].kind;
+					tok->length = optable[k].size;
 				}
 
-			if(found == 0)
-			{
-				// Not a known operator.
-				tok->kind = str[tok->offset];
-				tok->length = 1;
-				i = tok->offset + 1;
-			}
+			i = tok->offset + tok->length;
 		}
 		else	
 		{
-- 
2.43.0


From fa3d218ba0f09834823b5be12067758350f2fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 47/76] fix: sources nested too deeply are rejected instead of
 overflowing the stack

---
 src/lib/compiler/parse.c | 63 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 816ee58..52bb84a 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -135,8 +135,12 @@ typedef struct {
 	BPAlloc *alloc;
 	Error   *error;
 	int *error_offset;
+	int  depth; // How deep the node being parsed is in the tree.
 } Context;
 
+// The trees are walked recursively, so their depth can't be arbitrary.
+#define MAX_DEPTH 4096
+
 static Node *parse_statement(Context *ctx);
 static Node *parse_expression(Context *ctx, _Bool allow_toplev_tuples, _Bool allow_assignments);
 static Node *parse_expression_statement(Context *ctx);
@@ -464,6 +468,7 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	ctx.alloc = alloc;
 	ctx.error = error;
 	ctx.error_offset = error_offset;
+	ctx.depth = 0;
 	Node *root = parse_compound_statement(&ctx, TDONE);
 
 	if(root == NULL)
@@ -564,7 +569,33 @@ static inline _Bool done(Context *ctx)
 	return current(ctx) == TDONE;
 }
 
+static _Bool enter(Context *ctx)
+{
+	if(ctx->depth == MAX_DEPTH)
+	{
+		*ctx->error_offset = ctx->token->offset;
+		Error_Report(ctx->error, ErrorType_SYNTAX, "Code is nested too deeply");
+		return 0;
+	}
+
+	ctx->depth += 1;
+	return 1;
+}
+
+static Node *parse_statement_2(Context *ctx);
+
 static Node *parse_statement(Context *ctx)
+{
+	if(!enter(ctx))
+		return NULL;
+
+	Node *node = parse_statement_2(ctx);
+
+	ctx->depth -= 1;
+	return node;
+}
+
+static Node *parse_statement_2(Context *ctx)
 {
 	assert(ctx != NULL);
 
@@ -1466,8 +1497,14 @@ static Node *parse_postfix_expression(Context *ctx)
 	if(node == NULL)
 		return NULL;
 
+	int depth = ctx->depth;
+
 	while(1)
 	{
+		// Each iteration nests the node into a new one.
+		if((current(ctx) == '.' || current(ctx) == TARW || current(ctx) == '[' || current(ctx) == '(') && !enter(ctx))
+			return NULL;
+
 		switch(current(ctx))
 		{
 			case '.':
@@ -1613,6 +1650,7 @@ static Node *parse_postfix_expression(Context *ctx)
 	} // End loop.
 done:
 	
+	ctx->depth = depth;
 	return node;
 }
 
@@ -1641,11 +1679,16 @@ static Node *parse_prefix_expression(Context *ctx)
 
 			next(ctx);
 
+			if(!enter(ctx))
+				return NULL;
+
 			Node *operand = parse_prefix_expression(ctx);
 				
 			if(operand == NULL) 
 				return NULL;
 
+			ctx->depth -= 1;
+
 			OperExprNode *temp = BPAlloc_Malloc(ctx->alloc, sizeof(OperExprNode));
 			{
 				if(temp == NULL)
@@ -1751,6 +1794,8 @@ static inline int precedenceof(Token *tok)
 
 static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bool allow_toplev_tuples, _Bool allow_assignments)
 {
+	int depth = ctx->depth;
+
 	while(isbinop(ctx->token) && precedenceof(ctx->token) >= min_prec)
 	{
 		Token *op = ctx->token;
@@ -1758,6 +1803,10 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 		if((op->kind == ',' && allow_toplev_tuples == 0) || (op->kind == '=' && allow_assignments == 0))
 			break;
 
+		// Each iteration nests the left operand into a new node.
+		if(!enter(ctx))
+			return NULL;
+
 		next(ctx);
 
 		Node *right_expr = parse_prefix_expression(ctx);
@@ -1826,20 +1875,22 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 		left_expr = (Node*) temp;
 	}
 
+	ctx->depth = depth;
 	return left_expr;
 }
 
 static Node *parse_expression(Context *ctx, _Bool allow_toplev_tuples, _Bool allow_assignments)
 {
-	Node *left_expr = parse_prefix_expression(ctx);
-
-	if(left_expr == NULL)
+	if(!enter(ctx))
 		return NULL;
 
-	if(done(ctx))
-		return left_expr;
+	Node *expr = parse_prefix_expression(ctx);
+
+	if(expr != NULL && !done(ctx))
+		expr = parse_expression_2(ctx, expr, -1000000000, allow_toplev_tuples, allow_assignments);
 
-	return parse_expression_2(ctx, left_expr, -1000000000, allow_toplev_tuples, allow_assignments);
+	ctx->depth -= 1;
+	return expr;
 }
 
 static Node *parse_ifelse_statement(Context *ctx)
-- 
2.43.0


From fbb41202db5615c5bebf230c54752526613c2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 48/76] fix: comparing objects that can't be compared is a
 runtime error

---
 src/lib/objects/objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 8a7eb3c..60209b8 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -328,7 +328,7 @@ _Bool Object_Compare(Object *obj1, Object *obj2, Error *error)
 
 	if(!is_comparable(obj1))
 	{
-		Error_Report(error, 0, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
+		Error_Report(error, ErrorType_RUNTIME, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
 		return 0;
 	}
 
-- 
2.43.0


From 1ed86e7b0b35ff556140b91f013e67ad0369899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 49/76] fix: asserting a type that contains itself is an error,
 not a crash

---
 src/lib/objects/o_sum.c   |  7 +++++--
 src/lib/objects/objects.c | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lib/objects/o_sum.c b/src/lib/objects/o_sum.c
index 53c7055..31f036f 100644
--- a/src/lib/objects/o_sum.c
+++ b/src/lib/objects/o_sum.c
@@ -55,8 +55,11 @@ istypeof(Object *self,
          Error  *error)
 {
     SumObject *sum = (SumObject*) self;
-    return Object_IsTypeOf(sum->items[0], other, heap, error)
-        || Object_IsTypeOf(sum->items[1], other, heap, error);
+    if (Object_IsTypeOf(sum->items[0], other, heap, error))
+        return true;
+    if (error->occurred)
+        return false;
+    return Object_IsTypeOf(sum->items[1], other, heap, error);
 }
 
 static void walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 60209b8..8cba0a6 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -98,11 +98,24 @@ Object_KeysOf(Object *self,
 	return self->type->keysof(self, heap, error);
 }
 
+#define MAX_TYPE_DEPTH 1024
+
 bool Object_IsTypeOf(Object *typ, Object *obj, Heap *heap, Error *error)
 {
 	if (typ->type->istypeof == NULL)
 		return false;
-	return typ->type->istypeof(typ, obj, heap, error);
+
+	// Types may contain themselves.
+	static _Thread_local int depth = 0;
+	if (depth == MAX_TYPE_DEPTH) {
+		Error_Report(error, ErrorType_RUNTIME, "Type is nested too deeply");
+		return false;
+	}
+
+	depth++;
+	bool res = typ->type->istypeof(typ, obj, heap, error);
+	depth--;
+	return res;
 }
 
 typedef struct {
-- 
2.43.0


From 665e2e38bdafa425454a137b854d90305b5ae98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 50/76] fix: collecting long chains of objects doesn't overflow
 the stack

---
 src/lib/objects/heap.c | 58 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 7c9d3c3..30ff5e9 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -115,6 +115,12 @@ struct xHeap {
 	int   old_total;
 	OflowAlloc *old_oflow;
 	Error *error;
+
+	// Objects that were moved but whose references
+	// weren't collected yet.
+	Object **moved;
+	int moved_size, moved_used;
+	_Bool walking;
 };
 
 Heap *Heap_New(int size)
@@ -354,6 +360,10 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 	heap->collecting = 1;
 	heap->collection_failed = 0;
 	heap->movedcount = 0;
+	heap->moved = NULL;
+	heap->moved_size = 0;
+	heap->moved_used = 0;
+	heap->walking = 0;
 	heap->error = error;
 	return 1;
 }
@@ -427,6 +437,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	freeOverflowAllocations(heap);
 
 	free(heap->old_body);
+	free(heap->moved);
 
 	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
@@ -459,6 +470,28 @@ void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
 	*referer = new_location;
 }
 
+static _Bool pushMovedObject(Heap *heap, Object *obj)
+{
+	if(heap->moved_used == heap->moved_size)
+	{
+		int n = heap->moved_size == 0 ? 64 : 2 * heap->moved_size;
+
+		void *temp = realloc(heap->moved, n * sizeof(Object*));
+
+		if(temp == NULL)
+		{
+			Error_Report(heap->error, ErrorType_INTERNAL, "No memory");
+			return 0;
+		}
+
+		heap->moved = temp;
+		heap->moved_size = n;
+	}
+
+	heap->moved[heap->moved_used++] = obj;
+	return 1;
+}
+
 void Heap_CollectReference(Object **referer, void *userp)
 {
 	Heap *heap = userp;
@@ -530,11 +563,28 @@ void Heap_CollectReference(Object **referer, void *userp)
 		Object_WalkExtensions(new_location, 
 			Heap_CollectExtension, heap);
 
-		// Now collect all of the children.
-		Object_WalkReferences(new_location, 
-			Heap_CollectReference, heap);
-			
 		// Update the referer
 		*referer = new_location;
+
+		// Now collect all of the children. The outermost
+		// call does it for all of the objects that are
+		// moved meanwhile, so that chains of any length
+		// can be collected.
+		if(!pushMovedObject(heap, new_location))
+		{
+			heap->collection_failed = 1;
+			return;
+		}
+
+		if(heap->walking == 0)
+		{
+			heap->walking = 1;
+
+			while(heap->moved_used > 0)
+				Object_WalkReferences(heap->moved[--heap->moved_used],
+					Heap_CollectReference, heap);
+
+			heap->walking = 0;
+		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From e6685ebf492c7f2fb4ca397fd3ebed614103cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 51/76] fix: running out of memory while profiling is reported

---
 src/lib/run.c    |   4 ++
 src/lib/timing.c | 151 ++++++++++++++++++++++++-----------------------
 2 files changed, 80 insertions(+), 75 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 399d73e..292ced7 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -195,6 +195,10 @@ Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *
 		size_t line = 0;
 		Source *src = Executable_GetSource(exe);
 		func->timing_id = TimingTable_newEntry(table, src, line, name);
+		if (func->timing_id < 0) {
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 	}
 
 	return (Object*) func;
diff --git a/src/lib/timing.c b/src/lib/timing.c
index e870b11..0aa6cbc 100644
--- a/src/lib/timing.c
+++ b/src/lib/timing.c
@@ -1,76 +1,77 @@
-#include <stdlib.h>
-#include <string.h>
-#include "timing.h"
-#include "utils/defs.h"
-
-struct TimingTable {
-	FunctionExecutionSummary *entries;
-	size_t size, used;
-};
-
-TimingTable *TimingTable_new()
-{
-	TimingTable *table = malloc(sizeof(TimingTable));
-	if (table == NULL)
-		return NULL;
-	table->entries = NULL;
-	table->size = 0;
-	table->used = 0;
-	return table;
-}
-
-void TimingTable_free(TimingTable *table)
-{
-	if (table != NULL) {
-		for(size_t i = 0; i < table->used; i++) {
-			free(table->entries[i].name);
-			Source_Free(table->entries[i].src);
-		}
-		free(table->entries);
-		free(table);
-	}
-}
-
-void TimingTable_sumCallTime(TimingTable *table, TimingID id, double time)
-{
-	if (id < 0 || id >= (int) table->used)
-		abort();
-	
-	table->entries[id].calls++;
-	table->entries[id].time += time;
-}
-
-TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, const char *name)
-{
-	if (table->size == table->used) {
-		
-		size_t new_size = 2 * table->size;
-		if (new_size == 0) new_size = 8;
-
-		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
-		if (temp == NULL) abort();
-		
-		table->entries = temp;
-		table->size = new_size;
-	}
-	
-	char *name2 = strdup(name);
-	if (name2 == NULL)
-		abort();
-	
-	TimingID id = (int) table->used++;
-	table->entries[id].src = Source_Copy(src);
-	table->entries[id].line = line;
-	table->entries[id].name = name2;
-	table->entries[id].time = 0;
-	table->entries[id].calls = 0;
-	return id;
-}
-
-const FunctionExecutionSummary*
-TimingTable_getSummary(TimingTable *table, size_t *count)
-{
-	ASSERT(table != NULL && count != NULL);
-	*count = table->used;
-	return table->entries;
+#include <stdlib.h>
+#include <string.h>
+#include "timing.h"
+#include "utils/defs.h"
+
+struct TimingTable {
+	FunctionExecutionSummary *entries;
+	size_t size, used;
+};
+
+TimingTable *TimingTable_new()
+{
+	TimingTable *table = malloc(sizeof(TimingTable));
+	if (table == NULL)
+		return NULL;
+	table->entries = NULL;
+	table->size = 0;
+	table->used = 0;
+	return table;
+}
+
+void TimingTable_free(TimingTable *table)
+{
+	if (table != NULL) {
+		for(size_t i = 0; i < table->used; i++) {
+			free(table->entries[i].name);
+			Source_Free(table->entries[i].src);
+		}
+		free(table->entries);
+		free(table);
+	}
+}
+
+void TimingTable_sumCallTime(TimingTable *table, TimingID id, double time)
+{
+	if (id < 0 || id >= (int) table->used)
+		abort();
+	
+	table->entries[id].calls++;
+	table->entries[id].time += time;
+}
+
+TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, const char *name)
+{
+	if (table->size == table->used) {
+		
+		size_t new_size = 2 * table->size;
+		if (new_size == 0) new_size = 8;
+
+		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
+		if (temp == NULL)
+			return -1;
+		
+		table->entries = temp;
+		table->size = new_size;
+	}
+	
+	char *name2 = strdup(name);
+	if (name2 == NULL)
+		return -1;
+	
+	TimingID id = (int) table->used++;
+	table->entries[id].src = Source_Copy(src);
+	table->entries[id].line = line;
+	table->entries[id].name = name2;
+	table->entries[id].time = 0;
+	table->entries[id].calls = 0;
+	return id;
+}
+
+const FunctionExecutionSummary*
+TimingTable_getSummary(TimingTable *table, size_t *count)
+{
+	ASSERT(table != NULL && count != NULL);
+	*count = table->used;
+	return table->entries;
 }
\ No newline at end of file
-- 
2.43.0


From 0f2b3ba572b6c1527ef16c2ca6df493c1c760669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 52/76] fix: a missing opcode is reported once

---
 src/lib/assembler/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..e5575d6 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
-- 
2.43.0


From e5aac9b381c51b42cf3012924a2ed3d76b62758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 53/76] fix: defining a label twice in an assembly source is an
 error

---
 src/lib/assembler/assemble.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index e5575d6..d068693 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -426,6 +426,12 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
         // If a label was defined, add it to the list.
         if(no_label == false) {
             long long int value = ExeBuilder_InstrCount(builder);
+            Promise *promise = LabelList_GetLabel(list, ctx.str + label.offset, label.length);
+            if(promise != NULL && Promise_hasResolved(promise)) {
+                *error_offset = label.offset;
+                Error_Report(error, ErrorType_SEMANTIC, "Label \"%.*s\" is defined twice", (int) label.length, ctx.str + label.offset);
+                goto done;
+            }
             if(!LabelList_SetLabel(list, ctx.str + label.offset, label.length, value)) {
                 *error_offset = ctx.cur;
                 Error_Report(error, ErrorType_INTERNAL, "Out of memory");
-- 
2.43.0


From 9d29683a32d956a75a7bb99517a805e905b2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 54/76] fix: the assembler reads floating point literals like
 the compiler does

---
 src/lib/assembler/assemble.c | 60 +++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index d068693..71191e9 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -1,5 +1,7 @@
 #include <ctype.h>
+#include <errno.h>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 #include "../executable.h"
@@ -226,55 +228,49 @@ static bool parseIntegerOperand(Context *ctx, Error *error, Operand *op)
 
 static bool parseFloatingOperand(Context *ctx, Error *error, Operand *op)
 {   
-    (void) error; // At the moment this function doesn't report
-                  // any error. This may change when overflows
-                  // and underflows are detected.
-
     // It's ensured by the caller that the cursor is
     // pointing to a sequence of one or more digits
     // followed by a dot and a digit after that.
     // Also, the sequence may be preceded by a '+' or
     // '-'.
     
-    int sign = 1;
-    if (ctx->str[ctx->cur] == '+')
-        ctx->cur++;
-    else if (ctx->str[ctx->cur] == '-') {
-        sign = -1;
-        ctx->cur++;
-    }
+    size_t start = ctx->cur;
 
-    double buffer = 0;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        // Should overflow be checked?
-        buffer = buffer * 10 + d;
+    if (ctx->str[ctx->cur] == '+' || ctx->str[ctx->cur] == '-')
+        ctx->cur++;
 
-        ctx->cur += 1;
-    } while(ctx->str[ctx->cur] != '.');
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]))
+        ctx->cur++;
 
     assert(ctx->cur+1 < ctx->len && ctx->str[ctx->cur] == '.' && isdigit(ctx->str[ctx->cur+1]));
 
     // Skip the dot.
     ctx->cur += 1;
 
-    double q = 1;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]))
+        ctx->cur++;
 
-        q /= 10;
-        buffer += q * d;
+    // The conversion needs a zero-terminated copy, so that
+    // characters after the literal aren't considered.
+    char buffer[512];
+    size_t length = ctx->cur - start;
+    if (length >= sizeof(buffer)) {
+        *ctx->error_offset = start;
+        Error_Report(error, ErrorType_INTERNAL, "Floating point literal is too long");
+        return false;
+    }
+    memcpy(buffer, ctx->str + start, length);
+    buffer[length] = '\0';
 
-        ctx->cur += 1;
-    } while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
-    
+    errno = 0;
     op->type = OPTP_FLOAT;
-    op->as_float = sign * buffer;
+    op->as_float = strtod(buffer, NULL);
+
+    if (errno == ERANGE) {
+        *ctx->error_offset = start;
+        Error_Report(error, ErrorType_SEMANTIC, "Floating point literal can't be represented");
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 51e04fe6b19fa4716f7c0b23d34edfa2d4fe191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 55/76] fix: integer operands are compared whole

---
 src/lib/executable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 0d35f4c..256fbe0 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -377,11 +377,11 @@ _Bool Executable_Equiv(Executable *exe1, Executable *exe2, FILE *log, const char
 				case OPTP_IDX:
 				case OPTP_INT:
 				{
-					int v1 = exe1_opv[opno].as_int;
-					int v2 = exe2_opv[opno].as_int;
+					long long int v1 = exe1_opv[opno].as_int;
+					long long int v2 = exe2_opv[opno].as_int;
 					if(v1 != v2) {
 						if(log != NULL)
-							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%d != %d)\n", 
+							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%lld != %lld)\n", 
 								log_prefix, Executable_GetOpcodeName(exe1_opcode), idx, opno, v1, v2);
 						return false;
 					}
-- 
2.43.0


From 48c74660658b1f7f5a8117028977b59ac7df7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 56/76] fix: toString handles negative and big numbers

---
 src/lib/builtins/start.noja | 428 ++++++++++++++++++------------------
 1 file changed, 211 insertions(+), 217 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a561866..d084829 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -1,217 +1,211 @@
-
-fun dummy() {}
-
-Func  = type(dummy);
-NFunc = type(print);
-Numeric = int | float;
-Callable = Func | NFunc;
-Collection = List | Map;
-
-chr = string.chr;
-ord = string.ord;
-cat = string.cat;
-
-# Stringify a number between 0 and 9.
-fun stringFromDigit(digit: int) {
-	assert(digit >= 0 and digit <= 9);
-	return chr(ord("0") + digit);
-}
-
-# This function returns the magnitude of the
-# argument and the power of 10 with the same
-# magnitude.
-fun getIntegerMagnitude(n: int) {
-	assert(n >= 0);
-	magn = 0;
-	powr = 1;
-	# Basically grow the power until it's
-	# bigger than the input.
-	while n >= powr * 10: {
-		powr = 10 * powr;
-		magn = 1 + magn;
-	}
-	return magn, powr;
-}
-
-# Stringify an unsigned integer
-fun stringFromInteger(n: int) {
-
-	negative = (n < 0);
-	
-	# Get the power of 10 with the
-	# magnitude of the input.
-	_, power = getIntegerMagnitude(n);
-
-	temp = abs(n); # Temporary copy of the input
-	text = ""; # The output we're about to compute
-	
-	while power >= 1: {
-		# Pop the leftmost digit from [temp].
-		digit = temp / power; # Get the leftmost digit
-		temp  = temp % power; # Remove it
-
-		# Add the digit to the output.
-		text = cat(text, stringFromDigit(digit));
-
-		# Prep for the next iteration.
-		power = power / 10;
-	}
-
-	if negative:
-		text = cat("-", text);
-	return text;
-}
-
-fun stringFromFloating(f: float, max_decimals: int = 2) {
-	# This function is just a fast hack
-	epsilon = 0.00000001;
-	asint = math.floor(f);
-	text = stringFromInteger(asint);
-	text = cat(text, ".");
-	magn = 1.0;
-	temp = f - asint;
-	i = 0;
-	do {
-		magn = magn / 10;
-		digit = math.floor(temp / magn);
-		text = cat(text, stringFromDigit(digit));
-		temp = temp - magn * digit; # Remove the handled digit
-		i = i+1;
-	} while temp > epsilon and i < max_decimals;
-	return text;
-}
-
-fun stringFromNumeric(num: Numeric) {
-	if type(num) == int:
-		return stringFromInteger(num);
-	return stringFromFloating(num);
-}
-
-fun floatFromInteger(n: int)
-	return 1.0 * n;
-
-fun stringFromList(list: List) {
-	
-	s = "[";
-	i = 0;
-	while i < count(list): {
-		s = cat(s, toString(list[i]));
-		i = i+1;
-		if i < count(list):
-			s  = cat(s, ", ");
-	}
-	s = cat(s, "]");
-	return s;
-}
-
-fun stringFromMap(map: Map, can_use_method=true) {
-	s = none; # Result
-	has_method = istypeof(Callable, map.toString);
-	if can_use_method and has_method:
-		s = map->toString();
-	else {
-		s = "{";
-		i = 0;
-		keys = keysof(map);
-		while i < count(keys): {
-			s = cat(s, toString(keys[i]), ": ", toString(map[keys[i]]));
-			i = i+1;
-			if i < count(keys):
-				s = cat(s, ", "); 
-		}
-		s = cat(s, "}");
-	}
-	return s;
-}
-
-fun GenericIterator(T) return {
-	set : T,
-	keys : List,
-	index: ?int,
-	next : Callable
-};
-
-fun makeGenericIterator(set: Collection) return {
-	set  : set,
-	keys : keysof(set),
-	index: none,
-	fun next(iter: GenericIterator(type(set))) {
-			
-		index = iter.index;
-			
-		if index == none:
-			index = 0;
-		else {
-			if index < count(iter.keys):
-				index = index+1;
-		}
-
-		if index == count(iter.keys):
-			return none;
-
-		iter.index = index;
-		key = iter.keys[index];
-		val = iter.set[key];
-		return val, key, index;
-	}
-};
-
-return {
-
-	Func: Func,
-	NFunc: NFunc,
-	Numeric: Numeric,
-	Callable: Callable,
-	Collection: Collection,
-
-	fun makeIterator(set: Collection, can_use_method=true) {
-		if can_use_method and type(set) == Map and istypeof(Callable, set.iter):
-			return set->iter();
-		return makeGenericIterator(set);
-	}
-
-	fun toString(value, can_use_method=true) {
-		T = type(value);
-		if T == None : return "none";
-		if T == int  : return stringFromInteger(value);
-		if T == float: return stringFromFloating(value);
-		if T == List : return stringFromList(value);
-		if T == Map  : return stringFromMap(value, can_use_method);
-		if T == Type : return typename(T);
-		if T == Func : return "Func";
-		if T == NFunc: return "NFunc";
-		if T == String: return value;
-		error(cat("Don't know how to convert ", typename(value), " to a string"));
-	}
-
-	fun integerFromDigit(char: String) {
-    	res = ord(char) - ord('0');
-	    if res < 0 or res > 9:
-    		error("String isn't a digit");
-    	return res;
-	}
-
-	fun isCallable(x)
-		return istypeof(Callable, x);
-
-	fun append(array: List, item)
-		array[count(array)] = item;
-
-	fun abs(n: Numeric) {
-		if n < 0:
-			return -n;
-		return n;
-	}
-
-	fun min(x, y) {
-	    if x < y:
-	        return x;
-	    return y;
-	}
-
-	fun max(x, y) {
-	    if x > y:
-	        return x;
-	    return y;
-	}
-};
+
+fun dummy() {}
+
+Func  = type(dummy);
+NFunc = type(print);
+Numeric = int | float;
+Callable = Func | NFunc;
+Collection = List | Map;
+
+chr = string.chr;
+ord = string.ord;
+cat = string.cat;
+
+# Stringify a number between 0 and 9.
+fun stringFromDigit(digit: int) {
+	assert(digit >= 0 and digit <= 9);
+	return chr(ord("0") + digit);
+}
+
+# Stringify an integer
+fun stringFromInteger(n: int) {
+
+	temp = n;  # Temporary copy of the input
+	text = ""; # The output we're about to compute
+
+	do {
+		# Pop the rightmost digit from [temp]. It's
+		# done without changing the sign of [temp] 
+		# because the lowest integer has no opposite.
+		digit = temp % 10;
+		if digit < 0:
+			digit = -digit;
+		temp = temp / 10;
+
+		# Add the digit to the output.
+		text = cat(stringFromDigit(digit), text);
+
+	} while temp != 0;
+
+	if n < 0:
+		text = cat("-", text);
+	return text;
+}
+
+fun stringFromFloating(f: float, max_decimals: int = 2) {
+
+	negative = (f < 0);
+	if negative:
+		f = -f;
+
+	scale = 1;
+	i = 0;
+	while i < max_decimals: {
+		scale = 10 * scale;
+		i = i+1;
+	}
+
+	# Split the integer part from the decimals.
+	asint = math.floor(f);
+	decimals = math.floor((f - asint) * scale + 0.5);
+	if decimals == scale: {
+		asint = asint + 1;
+		decimals = 0;
+	}
+
+	text = cat(stringFromInteger(asint), ".");
+	do {
+		scale = scale / 10;
+		text = cat(text, stringFromDigit(decimals / scale));
+		decimals = decimals % scale; # Remove the handled digit
+	} while decimals > 0;
+
+	if negative:
+		text = cat("-", text);
+	return text;
+}
+
+fun stringFromNumeric(num: Numeric) {
+	if type(num) == int:
+		return stringFromInteger(num);
+	return stringFromFloating(num);
+}
+
+fun floatFromInteger(n: int)
+	return 1.0 * n;
+
+fun stringFromList(list: List) {
+	
+	s = "[";
+	i = 0;
+	while i < count(list): {
+		s = cat(s, toString(list[i]));
+		i = i+1;
+		if i < count(list):
+			s  = cat(s, ", ");
+	}
+	s = cat(s, "]");
+	return s;
+}
+
+fun stringFromMap(map: Map, can_use_method=true) {
+	s = none; # Result
+	has_method = istypeof(Callable, map.toString);
+	if can_use_method and has_method:
+		s = map->toString();
+	else {
+		s = "{";
+		i = 0;
+		keys = keysof(map);
+		while i < count(keys): {
+			s = cat(s, toString(keys[i]), ": ", toString(map[keys[i]]));
+			i = i+1;
+			if i < count(keys):
+				s = cat(s, ", "); 
+		}
+		s = cat(s, "}");
+	}
+	return s;
+}
+
+fun GenericIterator(T) return {
+	set : T,
+	keys : List,
+	index: ?int,
+	next : Callable
+};
+
+fun makeGenericIterator(set: Collection) return {
+	set  : set,
+	keys : keysof(set),
+	index: none,
+	fun next(iter: GenericIterator(type(set))) {
+			
+		index = iter.index;
+			
+		if index == none:
+			index = 0;
+		else {
+			if index < count(iter.keys):
+				index = index+1;
+		}
+
+		if index == count(iter.keys):
+			return none;
+
+		iter.index = index;
+		key = iter.keys[index];
+		val = iter.set[key];
+		return val, key, index;
+	}
+};
+
+return {
+
+	Func: Func,
+	NFunc: NFunc,
+	Numeric: Numeric,
+	Callable: Callable,
+	Collection: Collection,
+
+	fun makeIterator(set: Collection, can_use_method=true) {
+		if can_use_method and type(set) == Map and istypeof(Callable, set.iter):
+			return set->iter();
+		return makeGenericIterator(set);
+	}
+
+	fun toString(value, can_use_method=true) {
+		T = type(value);
+		if T == None : return "none";
+		if T == int  : return stringFromInteger(value);
+		if T == float: return stringFromFloating(value);
+		if T == List : return stringFromList(value);
+		if T == Map  : return stringFromMap(value, can_use_method);
+		if T == Type : return typename(T);
+		if T == Func : return "Func";
+		if T == NFunc: return "NFunc";
+		if T == String: return value;
+		error(cat("Don't know how to convert ", typename(value), " to a string"));
+	}
+
+	fun integerFromDigit(char: String) {
+    	res = ord(char) - ord('0');
+	    if res < 0 or res > 9:
+    		error("String isn't a digit");
+    	return res;
+	}
+
+	fun isCallable(x)
+		return istypeof(Callable, x);
+
+	fun append(array: List, item)
+		array[count(array)] = item;
+
+	fun abs(n: Numeric) {
+		if n < 0:
+			return -n;
+		return n;
+	}
+
+	fun min(x, y) {
+	    if x < y:
+	        return x;
+	    return y;
+	}
+
+	fun max(x, y) {
+	    if x > y:
+	        return x;
+	    return y;
+	}
+};
-- 
2.43.0


From 79d177dc34d0626ffd169d62324b143decdeaa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 57/76] fix: errors that don't refer to a position don't get an
 indeterminate one

---
 src/lib/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 292ced7..40eb85c 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1207,7 +1207,7 @@ int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], E
 {
 	Runtime_BeginRun(runtime);
 
-	int error_offset;
+	int error_offset = -1;
 	Executable *exe = compile(source, error, &error_offset);
     if(exe == NULL) {
     	Error suberror;
@@ -1229,7 +1229,7 @@ int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_
 {
 	Runtime_BeginRun(runtime);
 
-	int error_offset;
+	int error_offset = -1;
 	Executable *exe = assemble(source, error, &error_offset);
     if(exe == NULL) {
     	Error suberror;
-- 
2.43.0


From 7d4857c8a8d4134e836028b7a9efb86d808bc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:07 +0000
Subject: [PATCH 58/76] fix: hashing a list doesn't overflow a signed integer

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 5a51168..953c4b2 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -140,7 +140,7 @@ static int hash(Object *self)
 
 	ListObject *ls = (ListObject*) self;
 
-	int h = 0;
+	unsigned int h = 0; // Wraps around.
 	// The hash is the sum of the nested
 	// hashes. It's not a smart solution
 	// but it works for now.
-- 
2.43.0


From 4f11775a392b3a8e3b667e408835ff8a125ca4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 59/76] fix: string literals refer to their own place in the
 source

---
 src/lib/compiler/parse.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 52bb84a..e21b2b7 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -886,9 +886,13 @@ static Node *parse_string_primary_expression(Context *ctx)
 
 	temp[temp_used] = '\0';
 
+	// The node refers to the position of the current 
+	// token, so it's created before moving past it.
+	Node *node = makeStringExprNode(ctx, temp, temp_used);
+
 	next(ctx);
 
-	return makeStringExprNode(ctx, temp, temp_used);
+	return node;
 }
 
 static Node *parse_list_primary_expression(Context *ctx)
-- 
2.43.0


From ab6177a298c9d596c5a7fc216675e6ed740ab10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 60/76] fix: reading a file after having written to it doesn't
 lose what was written

---
 src/lib/builtins/files.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 6bf9a29..c0c90d7 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -134,6 +134,10 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = (size_t) dstlen;
 
+	// A stream that's also open for writing can't switch from
+	// output to input without an intervening repositioning.
+	(void) fseek(stream, 0, SEEK_CUR);
+
 	size_t n = fread(dstptr, 1, count, stream);
 	
 	return returnValues2(error, runtime, rets, "i", (long long int) n);
-- 
2.43.0


From 35215e188d61efb2e19df613d4a546388cd8d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:33 +0000
Subject: [PATCH 61/76] fix: the diagram shows integer literals whole

---
 src/lib/compiler/graphviz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..c5c3c8c 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -301,7 +301,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, p->val);
 			return;
 		}
 
-- 
2.43.0


From 00381f0a06d0e1804f662dff2b449f00008d0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:58 +0000
Subject: [PATCH 62/76] fix: tuples of any size are shown in the diagram

---
 src/lib/compiler/graphviz.c | 44 ++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c5c3c8c..1472fe4 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -183,25 +183,6 @@ static char *GraphViz_Complete(GraphViz *gv, size_t *len)
 
 static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name);
 
-static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *count)
-{
-	if(root->kind == EXPR_PAIR)
-	{
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head, tuple, max, count);
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head->next, tuple, max, count);
-	} 
-	else 
-	{
-
-		if(max == *count)
-		{
-			assert(0); // TODO: Do something smart instead
-		}
-
-		tuple[(*count)++] = root;
-	}
-}
-
 static void generateName(int *count, char *dst, size_t max)
 {
 	snprintf(dst, max, "node_%d", ++(*count));
@@ -247,6 +228,18 @@ static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
 }
 
+// Appends each item of a (possibly nested) tuple as a child.
+static void tupleToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *parent)
+{
+	while(root->kind == EXPR_PAIR)
+	{
+		Node *head = ((OperExprNode*) root)->head;
+		tupleToGraphViz(ctx, (ExprNode*) head, count, parent);
+		root = (ExprNode*) head->next;
+	}
+	childToGraphViz(ctx, (Node*) root, count, parent);
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -276,8 +269,9 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
+		GraphViz_AppendHead(ctx, "\t%s [label=\"Tuple\"];\n", name);
+		tupleToGraphViz(ctx, expr, count, name);
+		return;
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
@@ -497,13 +491,7 @@ static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name)
 
 			GraphViz_AppendHead(ctx, "\t%s [label=\"return\"];\n", name);
 
-			ExprNode *tuple[32];
-			int return_count = 0;
-
-			flattenTupleTree((ExprNode*) ret->val, tuple, sizeof(tuple)/sizeof(tuple[0]), &return_count);
-
-			for(int i = 0; i < return_count; i += 1)
-				childToGraphViz(ctx, (Node*) tuple[i], count, name);
+			tupleToGraphViz(ctx, (ExprNode*) ret->val, count, name);
 			return;
 		}
 
-- 
2.43.0


From 0ac1dbc488ddc8a7ae2a33f2af93ee0f17f55435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 63/76] fix: the diagram shows the receiver of arrow calls

---
 src/lib/compiler/graphviz.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 1472fe4..d4ed51b 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -211,7 +211,6 @@ static const char *exprkind_to_label(ExprKind kind)
 		case EXPR_AND: return "and";
 		case EXPR_OR : return "or";
 		case EXPR_ASS: return "=";
-		case EXPR_ARW: return "->";
 		default:
 		UNREACHABLE;
 		break;
@@ -275,8 +274,8 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
-		case EXPR_NOT: case EXPR_MOD:
+		case EXPR_ASS: case EXPR_MOD:
+		case EXPR_NOT:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
 		case EXPR_MUL: case EXPR_DIV:
@@ -395,10 +394,11 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		funcExprToGraphViz(ctx, (FuncExprNode*) expr, "???", count, name);
 		return;
 
+		case EXPR_ARW:
 		case EXPR_SELECT:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, expr->kind == EXPR_ARW ? "->" : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
-- 
2.43.0


From 4db0054d3c1b9facfedf83a8fbf08a36092a9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:23 +0000
Subject: [PATCH 64/76] fix: socket arguments out of range are refused instead
 of wrapping into valid ones

---
 src/lib/builtins/net.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 2a71f5d..cf79182 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/socket.h>
@@ -7,6 +8,14 @@
 #include "utils.h"
 #include "../utils/defs.h"
 
+/* The socket functions take ints. Values that 
+ * don't fit must be refused, not wrapped into
+ * an other valid value (-1 is never one). */
+static int toInt(long long int value)
+{
+	return (value < INT_MIN || value > INT_MAX) ? -1 : (int) value;
+}
+
 static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
 	ASSERT(argc == 4);
@@ -14,9 +23,9 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
 		return -1;
 
-	int domain = pargs[0].as_int;
-	int   type = pargs[1].as_int;
-	int  proto = pargs[2].as_int;
+	int domain = toInt(pargs[0].as_int);
+	int   type = toInt(pargs[1].as_int);
+	int  proto = toInt(pargs[2].as_int);
 	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
 
 	int fd = socket(domain, type, proto);
@@ -51,12 +60,15 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
 		return -1;
 
-	int     fd = pargs[0].as_int;
-	int family = pargs[1].as_int;
+	int     fd = toInt(pargs[0].as_int);
+	int family = toInt(pargs[1].as_int);
 
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
 
+	if (pargs[2].as_int < 0 || pargs[2].as_int > UINT16_MAX)
+		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+
 	int   port = pargs[2].as_int;
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
@@ -89,8 +101,8 @@ static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "ii"))
 		return -1;
 
-	int fd      = pargs[0].as_int;
-	int backlog = pargs[1].as_int;
+	int fd      = toInt(pargs[0].as_int);
+	int backlog = toInt(pargs[1].as_int);
 
 	if (listen(fd, backlog) < 0)
 		return returnValues2(error, runtime, rets, "s", strerror(errno));
@@ -108,7 +120,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *dstptr = pargs[1].as_buffer.data;
 	size_t dstlen = pargs[1].as_buffer.size;
 
@@ -138,7 +150,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *srcptr = pargs[1].as_buffer.data;
 	size_t srclen = pargs[1].as_buffer.size;
 
@@ -166,7 +178,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	
 	struct sockaddr_in new_addr;
 	socklen_t new_addr_size = sizeof(new_addr);
@@ -195,7 +207,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	int res = close(fd);
 	return returnValues2(error, runtime, rets, "i", (long long int) res);
 }
-- 
2.43.0


From bb31e81cd251d02bbf32166fefdf03604bf04774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 65/76] fix: running out of heap leaves the runtime in a
 consistent state

A collection of more live data than the heap can hold stopped halfway and freed the
old heap, so that running an other program in the same runtime used freed memory.
---
 src/lib/objects/heap.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 30ff5e9..a619ef7 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -109,6 +109,12 @@ struct xHeap {
 
 	_Bool collecting;
 	_Bool collection_failed;
+	_Bool collection_overflowed;
+
+	// Set when a collection couldn't be completed and 
+	// references to objects that don't exist anymore may
+	// be left. No more objects can be allocated by then.
+	_Bool broken;
 	int movedcount;
 	void *old_body;
 	int   old_used;
@@ -143,6 +149,7 @@ Heap *Heap_New(int size)
 	heap->pend_used = 0;
 	heap->oflow = 0;
 	heap->collecting = 0;
+	heap->broken = 0;
 
 	if(heap->body == NULL)
 	{
@@ -291,6 +298,12 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	void *addr;
 
+	if(heap->broken)
+	{
+		Error_Report(err, ErrorType_INTERNAL, "No memory");
+		return NULL;
+	}
+
 	int padding = heap->used;
 
 	if(heap->used & 7)
@@ -300,12 +313,12 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	if(heap->used + size > heap->size)
 	{
+		// The objects that are alive don't fit. The
+		// collection is completed anyway so that no
+		// references to the old heap are left.
 		if(heap->collecting)
-		{
-			Error_Report(err, ErrorType_INTERNAL, "Out of heap");
-			return NULL;
-		}
-		
+			heap->collection_overflowed = 1;
+
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
@@ -359,6 +372,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 	heap->oflow = NULL;
 	heap->collecting = 1;
 	heap->collection_failed = 0;
+	heap->collection_overflowed = 0;
 	heap->movedcount = 0;
 	heap->moved = NULL;
 	heap->moved_size = 0;
@@ -432,6 +446,11 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
+	if(heap->collection_failed)
+		heap->broken = 1;
+	else if(heap->collection_overflowed && !heap->error->occurred)
+		Error_Report(heap->error, ErrorType_INTERNAL, "Out of heap");
+
 	bool ok = callDestructors(heap);
 	
 	freeOverflowAllocations(heap);
@@ -442,7 +461,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
 
-	return ok && !heap->collection_failed;
+	return ok && !heap->collection_failed && !heap->collection_overflowed;
 }
 
 void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
-- 
2.43.0


From ee4e9b6643c4cf04245028ccb8401910686e4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:02 +0000
Subject: [PATCH 66/76] fix: reject labels provided as float operands

---
 src/lib/executable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 256fbe0..ff930cd 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -568,9 +568,10 @@ _Bool ExeBuilder_Append(ExeBuilder *exeb, Error *error, Opcode opcode, Operand *
 				{
 					ASSERT(opv[i].as_promise != NULL);
 
-					if(expected_type == OPTP_STRING)
+					if(expected_type == OPTP_STRING || expected_type == OPTP_FLOAT)
 					{
-						Error_Report(error, ErrorType_INTERNAL, "Promise values can't be provided as string operands");
+						Error_Report(error, ErrorType_INTERNAL, "Promise values can't be provided as %s operands", 
+							expected_type == OPTP_STRING ? "string" : "float");
 						return 0;
 					}
 							
-- 
2.43.0


From ca303c4be5548591671b688ae878e03f9c4af2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:57 +0000
Subject: [PATCH 67/76] fix: fail when the objects of the heap exceed the range
 of an integer

---
 src/lib/objects/heap.c    | 15 +++++++++++----
 src/lib/objects/o_map.c   |  9 +++++++++
 src/lib/objects/objects.h |  2 +-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index a619ef7..7cfd595 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -77,6 +77,7 @@
 ** +--------------------------------------------------------------------------+
 */
 #include <stdint.h>
+#include <limits.h>
 #include <assert.h>
 #include <string.h>
 #include <stdlib.h>
@@ -290,11 +291,10 @@ void *Heap_Malloc(Heap *heap, TypeObject *type, Error *err)
 	return (Object*) addr;
 }
 
-void *Heap_RawMalloc(Heap *heap, int size, Error *err)
+void *Heap_RawMalloc(Heap *heap, size_t size, Error *err)
 {
 	assert(err);
 	assert(heap);
-	assert(size > -1);
 
 	void *addr;
 
@@ -311,7 +311,14 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	padding = heap->used - padding;
 
-	if(heap->used + size > heap->size)
+	// The total must fit an integer.
+	if(size > INT_MAX - 8 || heap->total > INT_MAX - 8 - (int) size)
+	{
+		Error_Report(err, ErrorType_INTERNAL, "No memory");
+		return NULL;
+	}
+
+	if((int) size > heap->size - heap->used)
 	{
 		// The objects that are alive don't fit. The
 		// collection is completed anyway so that no
@@ -334,7 +341,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 	}
 	else
 	{
-		assert(heap->used + size <= heap->size);
+		assert((int) size <= heap->size - heap->used);
 		addr = heap->body + heap->used;
 		heap->used += size;
 	}
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index d38f9b0..f66950e 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include "objects.h"
 #include "../utils/defs.h"
 #include "../defs.h"
@@ -178,6 +179,14 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 	if(num < 0)
 		num = 0;
 
+	// Keep the sizes calculated below in the range of 
+	// an integer.
+	if(num > INT_MAX / 16)
+	{
+		Error_Report(error, ErrorType_INTERNAL, "No memory");
+		return NULL;
+	}
+
 	// Calculate initial mapper size.
 	int mapper_size, capacity;
 	{
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8814526..c39c91f 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -90,7 +90,7 @@ enum {
 Heap*		 Heap_New(int size);
 void		 Heap_Free(Heap *heap);
 void*		 Heap_Malloc   (Heap *heap, TypeObject *type, Error *err);
-void*		 Heap_RawMalloc(Heap *heap, int size, Error *err);
+void*		 Heap_RawMalloc(Heap *heap, size_t size, Error *err);
 bool  	 	 Heap_StartCollection(Heap *heap, Error *error);
 bool  	  	 Heap_StopCollection(Heap *heap);
 void  	 	 Heap_CollectReference(Object **referer, void *heap);
-- 
2.43.0


From db844adc9348f4694eb30e1ad72ec43bd578aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:57 +0000
Subject: [PATCH 68/76] fix: reject instruction operands that don't fit the
 counts they are

---
 src/lib/run.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index 40eb85c..acd56da 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -546,6 +546,15 @@ static void printToBuffer(Object *obj, char *buffer, size_t size)
 	buffer[size-1] = '\0';
 }
 
+static bool checkCountOperand(long long int value, Error *error)
+{
+	if (value < INT_MIN || value > INT_MAX) {
+		Error_Report(error, ErrorType_RUNTIME, "Instruction operand is too big");
+		return false;
+	}
+	return true;
+}
+
 static _Bool runInstruction(Runtime *runtime, Error *error)
 {
 	ASSERT(runtime != NULL);
@@ -770,6 +779,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		case OPCODE_POP:
 		{
 			ASSERT(opc == 1);
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
 			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
 		}
 
@@ -819,6 +830,9 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[0].type == OPTP_INT);
 			ASSERT(ops[1].type == OPTP_INT);
 
+			if (!checkCountOperand(ops[0].as_int, error) || !checkCountOperand(ops[1].as_int, error))
+				return 0;
+
 			int argc = ops[0].as_int;
 			int retc = ops[1].as_int;
 			ASSERT(argc >= 0 && retc > 0);
@@ -1045,6 +1059,9 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
+
 			Object *obj = Object_NewList(ops[0].as_int, heap, error);
 			if(obj == NULL)
 				return 0;
@@ -1057,6 +1074,9 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
+
 			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
 			if(obj == NULL)
 				return 0;
-- 
2.43.0


From af1754fe92383d4742133ff3b368cb4a15a8c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 69/76] fix: report profiling results that couldn't be written

---
 src/cli/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 2c60fee..a34e15a 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -252,8 +252,10 @@ int main(int argc, char **argv)
 			code = 0;
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
-			else
-				Runtime_SerializeProfilingResultsToFile(runtime, output);
+			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
+				fprintf(stderr, "Error: Couldn't open '%s'\n", output);
+				code = -1;
+			}
 			Runtime_Free(runtime);
 			break;
 		}
-- 
2.43.0


From 566d614d182937424a5e9742ff1e1406874724a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 70/76] fix: restore the CRLF line endings of the files earlier
 fixes changed to LF

---
 src/lib/builtins/net.c      |  454 +++---
 src/lib/builtins/random.c   |  124 +-
 src/lib/builtins/start.noja |  422 +++---
 src/lib/builtins/utils.c    |  366 ++---
 src/lib/run.c               | 2810 +++++++++++++++++------------------
 src/lib/timing.c            |  152 +-
 6 files changed, 2164 insertions(+), 2164 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index cf79182..f8fee09 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,227 +1,227 @@
-#include <errno.h>
-#include <limits.h>
-#include <string.h>
-#include <unistd.h>
-#include <sys/socket.h>
-#include <arpa/inet.h>
-#include "net.h"
-#include "utils.h"
-#include "../utils/defs.h"
-
-/* The socket functions take ints. Values that 
- * don't fit must be refused, not wrapped into
- * an other valid value (-1 is never one). */
-static int toInt(long long int value)
-{
-	return (value < INT_MIN || value > INT_MAX) ? -1 : (int) value;
-}
-
-static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	ASSERT(argc == 4);
-	ParsedArgument pargs[4];
-	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
-		return -1;
-
-	int domain = toInt(pargs[0].as_int);
-	int   type = toInt(pargs[1].as_int);
-	int  proto = toInt(pargs[2].as_int);
-	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
-
-	int fd = socket(domain, type, proto);
-		
-	if (fd < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	
-	if (reuse) {
-		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
-			const char *errdesc = strerror(errno);
-			(void) close(fd);
-			return returnValues2(error, runtime, rets, "ns", errdesc);
-		}
-	}
-
-	int retc = returnValues2(error, runtime, rets, "i", (long long int) fd);
-	if (retc < 0)
-		(void) close(fd);
-	return retc;
-}
-
-static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: family
-	// 2: port (family=AF_INET)
-	// 3: addr (family=AF_INET)
-
-	ASSERT(argc == 4);
-	ParsedArgument pargs[4];
-	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
-		return -1;
-
-	int     fd = toInt(pargs[0].as_int);
-	int family = toInt(pargs[1].as_int);
-
-	if (family != AF_INET)
-		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
-
-	if (pargs[2].as_int < 0 || pargs[2].as_int > UINT16_MAX)
-		return returnValues2(error, runtime, rets, "ns", "Invalid port");
-
-	int   port = pargs[2].as_int;
-	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
-
-	struct in_addr parsed_addr;
-	if (addr == NULL)
-		parsed_addr.s_addr = INADDR_ANY;
-	else {
-		int res = inet_pton(family, addr, &parsed_addr);
-		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
-		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
-	}
-
-	struct sockaddr_in buff;
-	buff.sin_family = family;
-	buff.sin_port   = htons(port);
-	buff.sin_addr   = parsed_addr;
-	if (bind(fd, (struct sockaddr*) &buff, sizeof(buff)) < 0)
-		return returnValues2(error, runtime, rets, "s", strerror(errno));
-
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: backlog
-
-	ASSERT(argc == 2);
-	ParsedArgument pargs[2];
-	if (!parseArgs(error, argv, argc, pargs, "ii"))
-		return -1;
-
-	int fd      = toInt(pargs[0].as_int);
-	int backlog = toInt(pargs[1].as_int);
-
-	if (listen(fd, backlog) < 0)
-		return returnValues2(error, runtime, rets, "s", strerror(errno));
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: buffer
-	// 2: count
-
-	ASSERT(argc == 3);
-	ParsedArgument pargs[3];
-	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
-		return -1;
-
-	int        fd = toInt(pargs[0].as_int);
-	void  *dstptr = pargs[1].as_buffer.data;
-	size_t dstlen = pargs[1].as_buffer.size;
-
-	size_t count;
-	if (pargs[2].defined) {
-		int64_t n = pargs[2].as_int;
-		if (n < 0)
-			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
-		count = MIN((size_t) n, dstlen);
-	} else
-		count = dstlen;
-	
-	ssize_t res = recv(fd, dstptr, count, 0);
-	if (res < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", (long long int) res);
-}
-
-static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-	// 1: buffer
-	// 2: count
-
-	ASSERT(argc == 3);
-	ParsedArgument pargs[3];
-	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
-		return -1;
-
-	int        fd = toInt(pargs[0].as_int);
-	void  *srcptr = pargs[1].as_buffer.data;
-	size_t srclen = pargs[1].as_buffer.size;
-
-	size_t count;
-	if (pargs[2].defined) {
-		int64_t n = pargs[2].as_int;
-		if (n < 0)
-			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
-		count = MIN((size_t) n, srclen);
-	} else
-		count = srclen;
-	
-	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
-	if (res < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", (long long int) res);
-}
-
-static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-
-	ASSERT(argc == 1);
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-
-	int fd = toInt(pargs[0].as_int);
-	
-	struct sockaddr_in new_addr;
-	socklen_t new_addr_size = sizeof(new_addr);
-	int new_fd = accept(fd, (struct sockaddr*) &new_addr, &new_addr_size);
-	if (new_fd < 0)
-		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	ASSERT(new_addr.sin_family == AF_INET);
-	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
-
-	int retc = returnValues2(error, runtime, rets, "iii", 
-		(long long int) new_fd, 
-		(long long int) new_addr.sin_addr.s_addr, 
-		(long long int) new_addr.sin_port);
-	if (retc < 0)
-		(void) close(new_fd);
-	return retc;
-}
-
-
-static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	// 0: fd
-
-	ASSERT(argc == 1);
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-
-	int fd = toInt(pargs[0].as_int);
-	int res = close(fd);
-	return returnValues2(error, runtime, rets, "i", (long long int) res);
-}
-
-StaticMapSlot bins_net[] = {
-	{ "AF_INET", SM_INT, .as_int = AF_INET, },
-	{ "SOCK_STREAM", SM_INT, .as_int = SOCK_STREAM, },
-	{ "SOCK_DGRAM",  SM_INT, .as_int = SOCK_DGRAM,  },
-	{ "socket",  SM_FUNCT, .as_funct = bin_socket, .argc = 4, },
-	{ "bind",    SM_FUNCT, .as_funct = bin_bind,   .argc = 4, },
-	{ "listen",  SM_FUNCT, .as_funct = bin_listen, .argc = 2, },
-	{ "accept",  SM_FUNCT, .as_funct = bin_accept, .argc = 1, },
-	{ "recv",    SM_FUNCT, .as_funct = bin_recv,   .argc = 3, },
-	{ "send",    SM_FUNCT, .as_funct = bin_send,   .argc = 3, },
-	{ "close",   SM_FUNCT, .as_funct = bin_close,  .argc = 1, },
-	{ NULL, SM_END, {}, {} },
-};
+#include <errno.h>
+#include <limits.h>
+#include <string.h>
+#include <unistd.h>
+#include <sys/socket.h>
+#include <arpa/inet.h>
+#include "net.h"
+#include "utils.h"
+#include "../utils/defs.h"
+
+/* The socket functions take ints. Values that 
+ * don't fit must be refused, not wrapped into
+ * an other valid value (-1 is never one). */
+static int toInt(long long int value)
+{
+	return (value < INT_MIN || value > INT_MAX) ? -1 : (int) value;
+}
+
+static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	ASSERT(argc == 4);
+	ParsedArgument pargs[4];
+	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
+		return -1;
+
+	int domain = toInt(pargs[0].as_int);
+	int   type = toInt(pargs[1].as_int);
+	int  proto = toInt(pargs[2].as_int);
+	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
+
+	int fd = socket(domain, type, proto);
+		
+	if (fd < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	
+	if (reuse) {
+		int value = 1;
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
+			const char *errdesc = strerror(errno);
+			(void) close(fd);
+			return returnValues2(error, runtime, rets, "ns", errdesc);
+		}
+	}
+
+	int retc = returnValues2(error, runtime, rets, "i", (long long int) fd);
+	if (retc < 0)
+		(void) close(fd);
+	return retc;
+}
+
+static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: family
+	// 2: port (family=AF_INET)
+	// 3: addr (family=AF_INET)
+
+	ASSERT(argc == 4);
+	ParsedArgument pargs[4];
+	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
+		return -1;
+
+	int     fd = toInt(pargs[0].as_int);
+	int family = toInt(pargs[1].as_int);
+
+	if (family != AF_INET)
+		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
+
+	if (pargs[2].as_int < 0 || pargs[2].as_int > UINT16_MAX)
+		return returnValues2(error, runtime, rets, "ns", "Invalid port");
+
+	int   port = pargs[2].as_int;
+	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
+
+	struct in_addr parsed_addr;
+	if (addr == NULL)
+		parsed_addr.s_addr = INADDR_ANY;
+	else {
+		int res = inet_pton(family, addr, &parsed_addr);
+		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
+		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
+	}
+
+	struct sockaddr_in buff;
+	buff.sin_family = family;
+	buff.sin_port   = htons(port);
+	buff.sin_addr   = parsed_addr;
+	if (bind(fd, (struct sockaddr*) &buff, sizeof(buff)) < 0)
+		return returnValues2(error, runtime, rets, "s", strerror(errno));
+
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: backlog
+
+	ASSERT(argc == 2);
+	ParsedArgument pargs[2];
+	if (!parseArgs(error, argv, argc, pargs, "ii"))
+		return -1;
+
+	int fd      = toInt(pargs[0].as_int);
+	int backlog = toInt(pargs[1].as_int);
+
+	if (listen(fd, backlog) < 0)
+		return returnValues2(error, runtime, rets, "s", strerror(errno));
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: buffer
+	// 2: count
+
+	ASSERT(argc == 3);
+	ParsedArgument pargs[3];
+	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
+		return -1;
+
+	int        fd = toInt(pargs[0].as_int);
+	void  *dstptr = pargs[1].as_buffer.data;
+	size_t dstlen = pargs[1].as_buffer.size;
+
+	size_t count;
+	if (pargs[2].defined) {
+		int64_t n = pargs[2].as_int;
+		if (n < 0)
+			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
+		count = MIN((size_t) n, dstlen);
+	} else
+		count = dstlen;
+	
+	ssize_t res = recv(fd, dstptr, count, 0);
+	if (res < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+	// 1: buffer
+	// 2: count
+
+	ASSERT(argc == 3);
+	ParsedArgument pargs[3];
+	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
+		return -1;
+
+	int        fd = toInt(pargs[0].as_int);
+	void  *srcptr = pargs[1].as_buffer.data;
+	size_t srclen = pargs[1].as_buffer.size;
+
+	size_t count;
+	if (pargs[2].defined) {
+		int64_t n = pargs[2].as_int;
+		if (n < 0)
+			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
+		count = MIN((size_t) n, srclen);
+	} else
+		count = srclen;
+	
+	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
+	if (res < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+
+	ASSERT(argc == 1);
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+
+	int fd = toInt(pargs[0].as_int);
+	
+	struct sockaddr_in new_addr;
+	socklen_t new_addr_size = sizeof(new_addr);
+	int new_fd = accept(fd, (struct sockaddr*) &new_addr, &new_addr_size);
+	if (new_fd < 0)
+		return returnValues2(error, runtime, rets, "ns", strerror(errno));
+	ASSERT(new_addr.sin_family == AF_INET);
+	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
+
+	int retc = returnValues2(error, runtime, rets, "iii", 
+		(long long int) new_fd, 
+		(long long int) new_addr.sin_addr.s_addr, 
+		(long long int) new_addr.sin_port);
+	if (retc < 0)
+		(void) close(new_fd);
+	return retc;
+}
+
+
+static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	// 0: fd
+
+	ASSERT(argc == 1);
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+
+	int fd = toInt(pargs[0].as_int);
+	int res = close(fd);
+	return returnValues2(error, runtime, rets, "i", (long long int) res);
+}
+
+StaticMapSlot bins_net[] = {
+	{ "AF_INET", SM_INT, .as_int = AF_INET, },
+	{ "SOCK_STREAM", SM_INT, .as_int = SOCK_STREAM, },
+	{ "SOCK_DGRAM",  SM_INT, .as_int = SOCK_DGRAM,  },
+	{ "socket",  SM_FUNCT, .as_funct = bin_socket, .argc = 4, },
+	{ "bind",    SM_FUNCT, .as_funct = bin_bind,   .argc = 4, },
+	{ "listen",  SM_FUNCT, .as_funct = bin_listen, .argc = 2, },
+	{ "accept",  SM_FUNCT, .as_funct = bin_accept, .argc = 1, },
+	{ "recv",    SM_FUNCT, .as_funct = bin_recv,   .argc = 3, },
+	{ "send",    SM_FUNCT, .as_funct = bin_send,   .argc = 3, },
+	{ "close",   SM_FUNCT, .as_funct = bin_close,  .argc = 1, },
+	{ NULL, SM_END, {}, {} },
+};
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index 1715a1e..57b0394 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -1,63 +1,63 @@
-#include <stdlib.h>
-#include "utils.h"
-#include "random.h"
-#include "../utils/defs.h"
-
-static int bin_seed(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	UNUSED(argc);
-	UNUSED(argv);
-	ASSERT(argc == 1);
-
-	ParsedArgument pargs[1];
-	if (!parseArgs(error, argv, argc, pargs, "i"))
-		return -1;
-	
-	int64_t seed = pargs[0].as_int;
-	srand(seed);
-	return returnValues2(error, runtime, rets, "n");
-}
-
-static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-{
-	UNUSED(argc);
-	UNUSED(argv);
-	ASSERT(argc == 2);
-
-	ParsedArgument pargs[2];
-	if (!parseArgs(error, argv, argc, pargs, "?i?i"))
-		return -1;
-	
-	int64_t min, max;
-	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
-	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-
-	if (min > max) {
-		int64_t temp = min;
-		min = max;
-		max = temp;
-	}
-
-	// The computation is done over the distance from the
-	// lower bound so that it can't overflow or be rounded
-	// out of the bounds.
-	uint64_t range = (uint64_t) max - (uint64_t) min;
-	uint64_t offset = range;
-	int roll = rand();
-	if (roll < RAND_MAX) {
-		double d = (double) range * roll / RAND_MAX;
-		if (d < (double) range)
-			offset = d;
-	}
-	if (offset > range)
-		offset = range;
-
-	int64_t value = (uint64_t) min + offset;
-	return returnValues2(error, runtime, rets, "i", (long long int) value);
-}
-
-StaticMapSlot bins_random[] = {
-	{"seed",     SM_FUNCT, .as_funct = bin_seed,     .argc = 1},
-	{"generate", SM_FUNCT, .as_funct = bin_generate, .argc = 2},
-	{ NULL, SM_END, {}, {} },
+#include <stdlib.h>
+#include "utils.h"
+#include "random.h"
+#include "../utils/defs.h"
+
+static int bin_seed(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	UNUSED(argc);
+	UNUSED(argv);
+	ASSERT(argc == 1);
+
+	ParsedArgument pargs[1];
+	if (!parseArgs(error, argv, argc, pargs, "i"))
+		return -1;
+	
+	int64_t seed = pargs[0].as_int;
+	srand(seed);
+	return returnValues2(error, runtime, rets, "n");
+}
+
+static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
+{
+	UNUSED(argc);
+	UNUSED(argv);
+	ASSERT(argc == 2);
+
+	ParsedArgument pargs[2];
+	if (!parseArgs(error, argv, argc, pargs, "?i?i"))
+		return -1;
+	
+	int64_t min, max;
+	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
+	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
+
+	if (min > max) {
+		int64_t temp = min;
+		min = max;
+		max = temp;
+	}
+
+	// The computation is done over the distance from the
+	// lower bound so that it can't overflow or be rounded
+	// out of the bounds.
+	uint64_t range = (uint64_t) max - (uint64_t) min;
+	uint64_t offset = range;
+	int roll = rand();
+	if (roll < RAND_MAX) {
+		double d = (double) range * roll / RAND_MAX;
+		if (d < (double) range)
+			offset = d;
+	}
+	if (offset > range)
+		offset = range;
+
+	int64_t value = (uint64_t) min + offset;
+	return returnValues2(error, runtime, rets, "i", (long long int) value);
+}
+
+StaticMapSlot bins_random[] = {
+	{"seed",     SM_FUNCT, .as_funct = bin_seed,     .argc = 1},
+	{"generate", SM_FUNCT, .as_funct = bin_generate, .argc = 2},
+	{ NULL, SM_END, {}, {} },
 };
\ No newline at end of file
diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index d084829..a03f4f6 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -1,211 +1,211 @@
-
-fun dummy() {}
-
-Func  = type(dummy);
-NFunc = type(print);
-Numeric = int | float;
-Callable = Func | NFunc;
-Collection = List | Map;
-
-chr = string.chr;
-ord = string.ord;
-cat = string.cat;
-
-# Stringify a number between 0 and 9.
-fun stringFromDigit(digit: int) {
-	assert(digit >= 0 and digit <= 9);
-	return chr(ord("0") + digit);
-}
-
-# Stringify an integer
-fun stringFromInteger(n: int) {
-
-	temp = n;  # Temporary copy of the input
-	text = ""; # The output we're about to compute
-
-	do {
-		# Pop the rightmost digit from [temp]. It's
-		# done without changing the sign of [temp] 
-		# because the lowest integer has no opposite.
-		digit = temp % 10;
-		if digit < 0:
-			digit = -digit;
-		temp = temp / 10;
-
-		# Add the digit to the output.
-		text = cat(stringFromDigit(digit), text);
-
-	} while temp != 0;
-
-	if n < 0:
-		text = cat("-", text);
-	return text;
-}
-
-fun stringFromFloating(f: float, max_decimals: int = 2) {
-
-	negative = (f < 0);
-	if negative:
-		f = -f;
-
-	scale = 1;
-	i = 0;
-	while i < max_decimals: {
-		scale = 10 * scale;
-		i = i+1;
-	}
-
-	# Split the integer part from the decimals.
-	asint = math.floor(f);
-	decimals = math.floor((f - asint) * scale + 0.5);
-	if decimals == scale: {
-		asint = asint + 1;
-		decimals = 0;
-	}
-
-	text = cat(stringFromInteger(asint), ".");
-	do {
-		scale = scale / 10;
-		text = cat(text, stringFromDigit(decimals / scale));
-		decimals = decimals % scale; # Remove the handled digit
-	} while decimals > 0;
-
-	if negative:
-		text = cat("-", text);
-	return text;
-}
-
-fun stringFromNumeric(num: Numeric) {
-	if type(num) == int:
-		return stringFromInteger(num);
-	return stringFromFloating(num);
-}
-
-fun floatFromInteger(n: int)
-	return 1.0 * n;
-
-fun stringFromList(list: List) {
-	
-	s = "[";
-	i = 0;
-	while i < count(list): {
-		s = cat(s, toString(list[i]));
-		i = i+1;
-		if i < count(list):
-			s  = cat(s, ", ");
-	}
-	s = cat(s, "]");
-	return s;
-}
-
-fun stringFromMap(map: Map, can_use_method=true) {
-	s = none; # Result
-	has_method = istypeof(Callable, map.toString);
-	if can_use_method and has_method:
-		s = map->toString();
-	else {
-		s = "{";
-		i = 0;
-		keys = keysof(map);
-		while i < count(keys): {
-			s = cat(s, toString(keys[i]), ": ", toString(map[keys[i]]));
-			i = i+1;
-			if i < count(keys):
-				s = cat(s, ", "); 
-		}
-		s = cat(s, "}");
-	}
-	return s;
-}
-
-fun GenericIterator(T) return {
-	set : T,
-	keys : List,
-	index: ?int,
-	next : Callable
-};
-
-fun makeGenericIterator(set: Collection) return {
-	set  : set,
-	keys : keysof(set),
-	index: none,
-	fun next(iter: GenericIterator(type(set))) {
-			
-		index = iter.index;
-			
-		if index == none:
-			index = 0;
-		else {
-			if index < count(iter.keys):
-				index = index+1;
-		}
-
-		if index == count(iter.keys):
-			return none;
-
-		iter.index = index;
-		key = iter.keys[index];
-		val = iter.set[key];
-		return val, key, index;
-	}
-};
-
-return {
-
-	Func: Func,
-	NFunc: NFunc,
-	Numeric: Numeric,
-	Callable: Callable,
-	Collection: Collection,
-
-	fun makeIterator(set: Collection, can_use_method=true) {
-		if can_use_method and type(set) == Map and istypeof(Callable, set.iter):
-			return set->iter();
-		return makeGenericIterator(set);
-	}
-
-	fun toString(value, can_use_method=true) {
-		T = type(value);
-		if T == None : return "none";
-		if T == int  : return stringFromInteger(value);
-		if T == float: return stringFromFloating(value);
-		if T == List : return stringFromList(value);
-		if T == Map  : return stringFromMap(value, can_use_method);
-		if T == Type : return typename(T);
-		if T == Func : return "Func";
-		if T == NFunc: return "NFunc";
-		if T == String: return value;
-		error(cat("Don't know how to convert ", typename(value), " to a string"));
-	}
-
-	fun integerFromDigit(char: String) {
-    	res = ord(char) - ord('0');
-	    if res < 0 or res > 9:
-    		error("String isn't a digit");
-    	return res;
-	}
-
-	fun isCallable(x)
-		return istypeof(Callable, x);
-
-	fun append(array: List, item)
-		array[count(array)] = item;
-
-	fun abs(n: Numeric) {
-		if n < 0:
-			return -n;
-		return n;
-	}
-
-	fun min(x, y) {
-	    if x < y:
-	        return x;
-	    return y;
-	}
-
-	fun max(x, y) {
-	    if x > y:
-	        return x;
-	    return y;
-	}
-};
+
+fun dummy() {}
+
+Func  = type(dummy);
+NFunc = type(print);
+Numeric = int | float;
+Callable = Func | NFunc;
+Collection = List | Map;
+
+chr = string.chr;
+ord = string.ord;
+cat = string.cat;
+
+# Stringify a number between 0 and 9.
+fun stringFromDigit(digit: int) {
+	assert(digit >= 0 and digit <= 9);
+	return chr(ord("0") + digit);
+}
+
+# Stringify an integer
+fun stringFromInteger(n: int) {
+
+	temp = n;  # Temporary copy of the input
+	text = ""; # The output we're about to compute
+
+	do {
+		# Pop the rightmost digit from [temp]. It's
+		# done without changing the sign of [temp] 
+		# because the lowest integer has no opposite.
+		digit = temp % 10;
+		if digit < 0:
+			digit = -digit;
+		temp = temp / 10;
+
+		# Add the digit to the output.
+		text = cat(stringFromDigit(digit), text);
+
+	} while temp != 0;
+
+	if n < 0:
+		text = cat("-", text);
+	return text;
+}
+
+fun stringFromFloating(f: float, max_decimals: int = 2) {
+
+	negative = (f < 0);
+	if negative:
+		f = -f;
+
+	scale = 1;
+	i = 0;
+	while i < max_decimals: {
+		scale = 10 * scale;
+		i = i+1;
+	}
+
+	# Split the integer part from the decimals.
+	asint = math.floor(f);
+	decimals = math.floor((f - asint) * scale + 0.5);
+	if decimals == scale: {
+		asint = asint + 1;
+		decimals = 0;
+	}
+
+	text = cat(stringFromInteger(asint), ".");
+	do {
+		scale = scale / 10;
+		text = cat(text, stringFromDigit(decimals / scale));
+		decimals = decimals % scale; # Remove the handled digit
+	} while decimals > 0;
+
+	if negative:
+		text = cat("-", text);
+	return text;
+}
+
+fun stringFromNumeric(num: Numeric) {
+	if type(num) == int:
+		return stringFromInteger(num);
+	return stringFromFloating(num);
+}
+
+fun floatFromInteger(n: int)
+	return 1.0 * n;
+
+fun stringFromList(list: List) {
+	
+	s = "[";
+	i = 0;
+	while i < count(list): {
+		s = cat(s, toString(list[i]));
+		i = i+1;
+		if i < count(list):
+			s  = cat(s, ", ");
+	}
+	s = cat(s, "]");
+	return s;
+}
+
+fun stringFromMap(map: Map, can_use_method=true) {
+	s = none; # Result
+	has_method = istypeof(Callable, map.toString);
+	if can_use_method and has_method:
+		s = map->toString();
+	else {
+		s = "{";
+		i = 0;
+		keys = keysof(map);
+		while i < count(keys): {
+			s = cat(s, toString(keys[i]), ": ", toString(map[keys[i]]));
+			i = i+1;
+			if i < count(keys):
+				s = cat(s, ", "); 
+		}
+		s = cat(s, "}");
+	}
+	return s;
+}
+
+fun GenericIterator(T) return {
+	set : T,
+	keys : List,
+	index: ?int,
+	next : Callable
+};
+
+fun makeGenericIterator(set: Collection) return {
+	set  : set,
+	keys : keysof(set),
+	index: none,
+	fun next(iter: GenericIterator(type(set))) {
+			
+		index = iter.index;
+			
+		if index == none:
+			index = 0;
+		else {
+			if index < count(iter.keys):
+				index = index+1;
+		}
+
+		if index == count(iter.keys):
+			return none;
+
+		iter.index = index;
+		key = iter.keys[index];
+		val = iter.set[key];
+		return val, key, index;
+	}
+};
+
+return {
+
+	Func: Func,
+	NFunc: NFunc,
+	Numeric: Numeric,
+	Callable: Callable,
+	Collection: Collection,
+
+	fun makeIterator(set: Collection, can_use_method=true) {
+		if can_use_method and type(set) == Map and istypeof(Callable, set.iter):
+			return set->iter();
+		return makeGenericIterator(set);
+	}
+
+	fun toString(value, can_use_method=true) {
+		T = type(value);
+		if T == None : return "none";
+		if T == int  : return stringFromInteger(value);
+		if T == float: return stringFromFloating(value);
+		if T == List : return stringFromList(value);
+		if T == Map  : return stringFromMap(value, can_use_method);
+		if T == Type : return typename(T);
+		if T == Func : return "Func";
+		if T == NFunc: return "NFunc";
+		if T == String: return value;
+		error(cat("Don't know how to convert ", typename(value), " to a string"));
+	}
+
+	fun integerFromDigit(char: String) {
+    	res = ord(char) - ord('0');
+	    if res < 0 or res > 9:
+    		error("String isn't a digit");
+    	return res;
+	}
+
+	fun isCallable(x)
+		return istypeof(Callable, x);
+
+	fun append(array: List, item)
+		array[count(array)] = item;
+
+	fun abs(n: Numeric) {
+		if n < 0:
+			return -n;
+		return n;
+	}
+
+	fun min(x, y) {
+	    if x < y:
+	        return x;
+	    return y;
+	}
+
+	fun max(x, y) {
+	    if x > y:
+	        return x;
+	    return y;
+	}
+};
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 71471a0..ee55258 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -1,184 +1,184 @@
-#include "utils.h"
-
-int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, va_list va)
-{
-	int retc = 0, i = 0;
-	while (fmt[i] != '\0') {
-
-		if (retc == MAX_RETS) {
-			Error_Report(error, ErrorType_INTERNAL, "Return value limit reached");
-			return -1;
-		}
-		
-		Object *ret;
-		switch (fmt[i]) {
-			case 'o': ret = va_arg(va, Object*); break;
-			case 'n': ret = Object_NewNone(heap, error); break;
-			case 'i': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
-			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
-			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
-			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-			default:
-			Error_Report(error, ErrorType_INTERNAL, "Invalid format specifier '%c'", fmt[i]);
-			return -1;
-		}
-
-		if (ret == NULL)
-			return -1;
-
-		rets[retc++] = ret;
-		i++;
-	}
-	return retc;
-}
-
-bool parseArgs(Error *error, 
-			   Object **argv, 
-			   unsigned int argc, 
-			   ParsedArgument *pargs, 
-			   const char *fmt)
-{
-	unsigned int current_arg = 0;
-	int i = 0;
-	while (fmt[i] != '\0') {
-
-		if (current_arg == argc) {
-			Error_Report(error, ErrorType_RUNTIME, "Missing arguments");
-			return false;
-		}
-		Object *arg = argv[current_arg];
-
-		bool may_be_none = false;
-		if (fmt[i] == '?') {
-			may_be_none = true;
-			i++;
-			if (fmt[i] == '\0') {
-				Error_Report(error, ErrorType_INTERNAL, "Format terminated unexpectedly");
-				return false;
-			}
-		}
-		
-		if (may_be_none && Object_IsNone(arg)) {
-			pargs[current_arg].defined = false;
-		} else {
-			switch (fmt[i]) {
-				
-				case 'o': /* Any object */
-				pargs[current_arg].defined = true;
-				break;
-				
-				case 'b': /* Boolean */ 
-				if (!Object_IsBool(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be bool, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_bool = Object_GetBool(arg);
-				break;
-
-				case 'B': /* Buffer */
-				{
-					if (!Object_IsBuffer(arg)) {
-						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a buffer, but a %s was provided", current_arg+1, arg->type->name);
-						return false;
-					}
-					void  *data;
-					size_t size;
-					data = Object_GetBuffer(arg, &size);
-					pargs[current_arg].defined = true;
-					pargs[current_arg].as_buffer.data = data;
-					pargs[current_arg].as_buffer.size = size;
-					break;
-				}
-
-				case 'i': /* Integer */
-				if (!Object_IsInt(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be an int, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_int = Object_GetInt(arg);
-				break;
-
-				case 'f': /* Float */
-				if (!Object_IsFloat(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a float, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_float = Object_GetFloat(arg);
-				break;
-
-				case 'l': /* List */
-				if (!Object_IsList(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a list, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				break;
-
-				case 'm': /* Map */
-				if (!Object_IsMap(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				break;
-
-				case 's': /* String */
-				{
-					if (!Object_IsString(arg)) {
-						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a string, but a %s was provided", current_arg+1, arg->type->name);
-						return false;
-					}
-					const void *data;
-					size_t size;
-					data = Object_GetString(arg, &size);
-					pargs[current_arg].defined = true;
-					pargs[current_arg].as_string.data = data;
-					pargs[current_arg].as_string.size = size;
-					break;
-				}
-
-				case 'F': /* File */
-				if (!Object_IsFile(arg)) {
-					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a file, but a %s was provided", current_arg+1, arg->type->name);
-					return false;
-				}
-				pargs[current_arg].defined = true;
-				pargs[current_arg].as_file = Object_GetStream(arg);
-				break;
-
-				default:
-				Error_Report(error, ErrorType_INTERNAL, "Invalid argument parser format specifier '%c'", fmt[i]);
-				return false;
-			}
-		}
-		i++;
-		current_arg++;
-	}
-
-#ifndef NDEBUG
-	if (current_arg < argc) {
-		// Ignoring part of the format string
-	}
-#endif
-	return true;
-}
-
-int returnValues2(Error *error, Runtime *runtime, Object *rets[static MAX_RETS], const char *fmt, ...)
-{
-	va_list va;
-	va_start(va, fmt);
-	int retc = returnValuesVA(error, Runtime_GetHeap(runtime), rets, fmt, va);
-	va_end(va);
-	return retc;
-}
-
-int returnValues(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, ...)
-{
-	va_list va;
-	va_start(va, fmt);
-	int retc = returnValuesVA(error, heap, rets, fmt, va);
-	va_end(va);
-	return retc;
+#include "utils.h"
+
+int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, va_list va)
+{
+	int retc = 0, i = 0;
+	while (fmt[i] != '\0') {
+
+		if (retc == MAX_RETS) {
+			Error_Report(error, ErrorType_INTERNAL, "Return value limit reached");
+			return -1;
+		}
+		
+		Object *ret;
+		switch (fmt[i]) {
+			case 'o': ret = va_arg(va, Object*); break;
+			case 'n': ret = Object_NewNone(heap, error); break;
+			case 'i': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
+			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
+			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
+			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
+			default:
+			Error_Report(error, ErrorType_INTERNAL, "Invalid format specifier '%c'", fmt[i]);
+			return -1;
+		}
+
+		if (ret == NULL)
+			return -1;
+
+		rets[retc++] = ret;
+		i++;
+	}
+	return retc;
+}
+
+bool parseArgs(Error *error, 
+			   Object **argv, 
+			   unsigned int argc, 
+			   ParsedArgument *pargs, 
+			   const char *fmt)
+{
+	unsigned int current_arg = 0;
+	int i = 0;
+	while (fmt[i] != '\0') {
+
+		if (current_arg == argc) {
+			Error_Report(error, ErrorType_RUNTIME, "Missing arguments");
+			return false;
+		}
+		Object *arg = argv[current_arg];
+
+		bool may_be_none = false;
+		if (fmt[i] == '?') {
+			may_be_none = true;
+			i++;
+			if (fmt[i] == '\0') {
+				Error_Report(error, ErrorType_INTERNAL, "Format terminated unexpectedly");
+				return false;
+			}
+		}
+		
+		if (may_be_none && Object_IsNone(arg)) {
+			pargs[current_arg].defined = false;
+		} else {
+			switch (fmt[i]) {
+				
+				case 'o': /* Any object */
+				pargs[current_arg].defined = true;
+				break;
+				
+				case 'b': /* Boolean */ 
+				if (!Object_IsBool(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be bool, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_bool = Object_GetBool(arg);
+				break;
+
+				case 'B': /* Buffer */
+				{
+					if (!Object_IsBuffer(arg)) {
+						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a buffer, but a %s was provided", current_arg+1, arg->type->name);
+						return false;
+					}
+					void  *data;
+					size_t size;
+					data = Object_GetBuffer(arg, &size);
+					pargs[current_arg].defined = true;
+					pargs[current_arg].as_buffer.data = data;
+					pargs[current_arg].as_buffer.size = size;
+					break;
+				}
+
+				case 'i': /* Integer */
+				if (!Object_IsInt(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be an int, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_int = Object_GetInt(arg);
+				break;
+
+				case 'f': /* Float */
+				if (!Object_IsFloat(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a float, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_float = Object_GetFloat(arg);
+				break;
+
+				case 'l': /* List */
+				if (!Object_IsList(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a list, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				break;
+
+				case 'm': /* Map */
+				if (!Object_IsMap(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				break;
+
+				case 's': /* String */
+				{
+					if (!Object_IsString(arg)) {
+						Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a string, but a %s was provided", current_arg+1, arg->type->name);
+						return false;
+					}
+					const void *data;
+					size_t size;
+					data = Object_GetString(arg, &size);
+					pargs[current_arg].defined = true;
+					pargs[current_arg].as_string.data = data;
+					pargs[current_arg].as_string.size = size;
+					break;
+				}
+
+				case 'F': /* File */
+				if (!Object_IsFile(arg)) {
+					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a file, but a %s was provided", current_arg+1, arg->type->name);
+					return false;
+				}
+				pargs[current_arg].defined = true;
+				pargs[current_arg].as_file = Object_GetStream(arg);
+				break;
+
+				default:
+				Error_Report(error, ErrorType_INTERNAL, "Invalid argument parser format specifier '%c'", fmt[i]);
+				return false;
+			}
+		}
+		i++;
+		current_arg++;
+	}
+
+#ifndef NDEBUG
+	if (current_arg < argc) {
+		// Ignoring part of the format string
+	}
+#endif
+	return true;
+}
+
+int returnValues2(Error *error, Runtime *runtime, Object *rets[static MAX_RETS], const char *fmt, ...)
+{
+	va_list va;
+	va_start(va, fmt);
+	int retc = returnValuesVA(error, Runtime_GetHeap(runtime), rets, fmt, va);
+	va_end(va);
+	return retc;
+}
+
+int returnValues(Error *error, Heap *heap, Object *rets[static MAX_RETS], const char *fmt, ...)
+{
+	va_list va;
+	va_start(va, fmt);
+	int retc = returnValuesVA(error, heap, rets, fmt, va);
+	va_end(va);
+	return retc;
 }
\ No newline at end of file
diff --git a/src/lib/run.c b/src/lib/run.c
index acd56da..7dae3b9 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1,1405 +1,1405 @@
-#include <time.h>
-#include <limits.h>
-#include <stdlib.h>
-#include <string.h>
-#include "runtime.h"
-#include "utils/defs.h"
-#include "utils/path.h"
-#include "compiler/compile.h"
-#include "assembler/assemble.h"
-
-static int runExecutableAtIndex(Runtime *runtime, Error *error,
-		    				    Executable *exe, int index,
-		    				    Object *closure,
-		    				    Object *rets[static MAX_RETS],
-						        Object *argv[], int argc);
-
-typedef struct {
-	Object base;
-	const char *name;
-	Runtime *runtime;
-	Executable *exe;
-	int index, argc;
-	Object *closure;
-	TimingID timing_id;
-} FunctionObject;
-
-static _Bool func_free(Object *self, Error *error)
-{
-	(void) error;
-	
-	FunctionObject *func = (FunctionObject*) self;
-	Executable_Free(func->exe);	
-	return 1;
-}
-
-static void func_walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
-{
-	FunctionObject *func = (FunctionObject*) self;
-	callback(&func->closure, userp);
-}
-
-static int func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *error)
-{
-	ASSERT(self != NULL && heap != NULL && error != NULL);
-	
-	FunctionObject *func = (FunctionObject*) self;
-
-	ASSERT(func->exe != NULL);
-	ASSERT(func->argc >= 0);
-	ASSERT(func->index >= 0);
-
-	// Make sure the right amount of arguments is provided.
-
-	Object **argv2;
-
-	int expected_argc = func->argc;
-
-	if(expected_argc < (int) argc)
-	{
-		// Nothing to be done. By using
-		// the right argc the additional
-		// arguments are ignored implicitly.
-		argv2 = argv;
-	}
-	else if(expected_argc > (int) argc)
-	{
-		// Some arguments are missing.
-		argv2 = malloc(sizeof(Object*) * expected_argc);
-
-		if(argv2 == NULL)
-		{
-			Error_Report(error, ErrorType_INTERNAL, "No memory");
-			return -1;
-		}
-
-		// Copy the provided arguments.
-		for(int i = 0; i < (int) argc; i += 1)
-			argv2[i] = argv[i];
-
-		// Set the unspecified arguments to none.
-		for(int i = argc; i < expected_argc; i += 1)
-		{
-			argv2[i] = Object_NewNone(heap, error);
-
-			if(argv2[i] == NULL)
-			{
-				free(argv2);
-				return -1;
-			}
-		}
-	}
-	else
-		// The right amount of arguments was provided.
-		argv2 = argv;
-
-	clock_t begin;
-	TimingID timing_id;
-	TimingTable *timing_table = Runtime_GetTimingTable(func->runtime);
-	if (timing_table != NULL) {
-		begin = clock();
-
-		// Need to save the object's member
-	    // before the run function since it
-	    // may trigger a GC cycle invalidating
-	    // the object pointer.
-		timing_id = func->timing_id;
-	}
-
-	int retc = runExecutableAtIndex(func->runtime, error, func->exe, func->index, func->closure, rets, argv2, expected_argc);
-
-	if (timing_table != NULL) {
-		double time = (double) (clock() - begin) / CLOCKS_PER_SEC;
-		TimingTable_sumCallTime(timing_table, timing_id, time);
-	}
-
-	// NOTE: Every object reference is invalidated from here.
-	
-	if(argv2 != argv)
-		free(argv2);
-
-	return retc;
-}
-
-static TypeObject t_func = {
-	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
-	.name = "function",
-	.size = sizeof (FunctionObject),
-	.call = func_call,
-	.walk = func_walk,
-	.free = func_free,
-};
-
-/* Symbol: Object_FromNojaFunction
- *
- *   Creates an object from a noja executable structure.
- *
- * Args:
- *   - runtime: The reference to an instanciated Runtime.
- *
- *   - exe: A noja executable.
- *
- *   - index: The index of the first bytecode instruction
- *            of the noja function within the executable.
- *
- *   - argc: The number of arguments the function expects. 
- *           It must be positive (unlike [Object_FromNativeFunction],
- *           where -1 means variadic).
- *
- *   - closure: An object containing variables that will be
- *              accessible from the noja function other than
- *              the ones that will be defined inside it.
- *
- *   - heap: The heap that will be used to allocate the object.
- *           It can't be NULL.
- *
- *   - error: Output parameter where error information is stored.
- *            It can't be NULL.
- *
- * Returns:
- *   The newly created object. If an error occurred, NULL is returned
- *   and information about the error is stored in the [error] argument.
- */
-Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *exe, int index, int argc, Object *closure, Heap *heap, Error *error)
-{
-	ASSERT(runtime != NULL);
-	ASSERT(exe != NULL);
-	ASSERT(index >= 0);
-	ASSERT(argc >= 0);
-	ASSERT(heap != NULL);
-	ASSERT(error != NULL);
-
-	FunctionObject *func = (FunctionObject*) Heap_Malloc(heap, &t_func, error);
-
-	if(func == NULL)
-		return NULL;
-
-	Executable *exe_copy = Executable_Copy(exe);
-
-	if(exe_copy == NULL)
-	{
-		Error_Report(error, ErrorType_INTERNAL, "Failed to copy executable");
-		return NULL;
-	}
-
-	func->runtime = runtime;
-	func->name = name; // Should this be copied?
-	func->exe = exe_copy;
-	func->index = index;
-	func->argc = argc;
-	func->closure = closure;
-
-	TimingTable *table = Runtime_GetTimingTable(runtime);
-	if (table != NULL) {
-		#warning "TODO: Calculate line number"
-		size_t line = 0;
-		Source *src = Executable_GetSource(exe);
-		func->timing_id = TimingTable_newEntry(table, src, line, name);
-		if (func->timing_id < 0) {
-			Error_Report(error, ErrorType_INTERNAL, "No memory");
-			return NULL;
-		}
-	}
-
-	return (Object*) func;
-}
-
-
-typedef struct {
-	Object base;
-	Runtime *runtime;
-	int (*callback)(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[MAX_RETS], Error *error);
-	int argc;
-} NativeFunctionObject;
-
-static int native_func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS],  Heap *heap, Error *error)
-{
-	ASSERT(self != NULL);
-	ASSERT(heap != NULL);
-	ASSERT(error != NULL);
-			
-	NativeFunctionObject *func = (NativeFunctionObject*) self;
-
-	// If the function isn't variadic, make sure
-	// the right amount of arguments is provided.
-
-	Object **argv2;
-	int 	 argc2;
-
-	int expected_argc = func->argc;
-
-	if(expected_argc < 0 || expected_argc == (int) argc)
-	{
-		// The function is variadic or the right 
-		// amount of arguments was provided.
-		argv2 = argv;
-		argc2 = argc;
-	}
-	else if(expected_argc < (int) argc)
-	{
-		// Nothing to be done. By using
-		// the right argc the additional
-		// arguments are ignored implicitly.
-		argv2 = argv;
-		argc2 = expected_argc;
-	}
-	else if(expected_argc > (int) argc)
-	{
-		// Some arguments are missing.
-		argv2 = malloc(sizeof(Object*) * expected_argc);
-		argc2 = expected_argc;
-			
-		if(argv2 == NULL)
-		{
-			Error_Report(error, 1, "No memory");
-			return -1;
-		}
-
-		// Copy the provided arguments.
-		for(int i = 0; i < (int) argc; i += 1)
-			argv2[i] = argv[i];
-
-		// Set the unspecified arguments to none.
-		for(int i = argc; i < expected_argc; i += 1)
-		{
-			argv2[i] = Object_NewNone(heap, error);
-
-			if(argv2[i] == NULL)
-			{
-				free(argv2);
-				return -1;
-			}
-		}
-	} else {
-		UNREACHABLE;
-		argv2 = NULL;
-		argc2 = -1;
-	}
-
-	// Need to save the runtime before calling the
-	// callback since it may trigger a GC cycle
-	// invalidating the object pointer.
-	Runtime *runtime = func->runtime;
-
-	if (!Runtime_PushNativeFrame(runtime, error)) {
-		if(argv2 != argv)
-			free(argv2);
-    	return -1;
-	}
-
-	ASSERT(func->callback != NULL);
-	int retc = func->callback(runtime, argv2, argc2, rets, error);
-		
-	// NOTE: Since the callback may have executed some bytecode, a GC
-	//       cycle may have been triggered, therefore we must assume
-	//       every object reference that was locally saved is invalidated 
-	//       from here (the returned object is good tho).
-
-	if(argv2 != argv)
-		free(argv2);
-
-	if (retc >= 0 && !Runtime_PopFrame(runtime))
-    	return -1;
-
-	return retc;
-}
-
-static TypeObject t_nfunc = {
-	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
-	.name = "native function",
-	.size = sizeof (NativeFunctionObject),
-	.call = native_func_call,	
-};
-
-/* Symbol: Object_FromNativeFunction
- *
- *   Creates an object from a function pointer.
- *
- * Args:
- *   - runtime: The reference to an instanciated Runtime. This must be
- *              provided so that the callback can also access it.
- *
- *   - callback: The native function to be executed when this object
- *               is called.
- *
- *   - argc: The number of arguments the function expects. If -1 is
- *           provided, then the function is considered to be variadic.
- *
- *   - heap: The heap that will be used to allocate the object.
- *           It can't be NULL.
- *
- *   - error: Output parameter where error information is stored.
- *            It can't be NULL.
- *
- * Returns:
- *   The newly created object. If an error occurred, NULL is returned
- *   and information about the error is stored in the [error] argument.
- */
-Object *Object_FromNativeFunction(Runtime *runtime, int (*callback)(Runtime*, Object**, unsigned int, Object*[static MAX_RETS], Error*), int argc, Heap *heap, Error *error)
-{
-	ASSERT(callback != NULL);
-
-	NativeFunctionObject *func = (NativeFunctionObject*) Heap_Malloc(heap, &t_nfunc, error);
-
-	if(func == NULL)
-		return NULL;
-
-	func->runtime = runtime;
-	func->callback = callback;
-	func->argc = argc;
-
-	return (Object*) func;
-}
-
-static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
-{
-	ASSERT(lop != NULL);
-	ASSERT(rop != NULL);
-
-	#define APPLY(x, y, z, id) 							\
-		switch(opcode)									\
-		{												\
-			case OPCODE_ADD: (z) = (x) + (y); break;	\
-			case OPCODE_SUB: (z) = (x) - (y); break;	\
-			case OPCODE_MUL: (z) = (x) * (y); break;	\
-			case OPCODE_DIV: 							\
-			if((y) == 0) 								\
-			{ 											\
-				Error_Report(error, ErrorType_RUNTIME, "Division by zero"); \
-				return NULL; 							\
-			} 											\
-			(z) = (x) / (y); 							\
-			break;										\
-			default: UNREACHABLE; break;				\
-		}
-
-	Object *res;
-
-	if(Object_IsInt(lop))
-	{
-		long long int raw_lop = Object_GetInt(lop);
-
-		if(Object_IsInt(rop))
-		{
-			// int + int
-			long long int raw_rop = Object_GetInt(rop);
-			long long int raw_res = 0;
-			_Bool overflow = 0;
-			switch(opcode)
-			{
-				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
-				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
-				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
-				case OPCODE_DIV:
-				if(raw_rop == 0)
-				{
-					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
-					return NULL;
-				}
-				if(raw_lop == LLONG_MIN && raw_rop == -1)
-					overflow = 1;
-				else
-					raw_res = raw_lop / raw_rop;
-				break;
-				default: UNREACHABLE; break;
-			}
-			if(overflow)
-			{
-				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
-				return NULL;
-			}
-			res = Object_FromInt(raw_res, heap, error);
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// int + float
-			double raw_rop = Object_GetFloat(rop);
-			double raw_res = 0;
-			APPLY((double) raw_lop, raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else if(Object_IsFloat(lop))
-	{
-		double raw_lop = Object_GetFloat(lop);
-
-		if(Object_IsInt(rop))
-		{
-			// float + int
-			long long int raw_rop = Object_GetInt(rop);
-			double raw_res = 0;
-			APPLY(raw_lop, (double) raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// float + float
-			double raw_rop = Object_GetFloat(rop);
-			double raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
-			res = Object_FromFloat(raw_res, heap, error);
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else
-	{
-		Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-		return NULL;
-	}
-
-	#undef APPLY
-
-	return res;
-}
-
-static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
-{
-	ASSERT(lop != NULL);
-	ASSERT(rop != NULL);
-
-	#define APPLY(x, y, z, id) 							\
-		switch(opcode)									\
-		{												\
-			case OPCODE_LSS: (z) = (x) <  (y); break;	\
-			case OPCODE_GRT: (z) = (x) >  (y); break;	\
-			case OPCODE_LEQ: (z) = (x) <= (y); break;	\
-			case OPCODE_GEQ: (z) = (x) >= (y); break;	\
-			default: UNREACHABLE; break;				\
-		}
-
-	_Bool res = 0;
-
-	if(Object_IsInt(lop))
-	{
-		long long int raw_lop = Object_GetInt(lop);
-		if(Object_IsInt(rop))
-		{
-			// int + int
-			long long int raw_rop = Object_GetInt(rop);
-			APPLY(raw_lop, raw_rop, res, id)
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// int + float
-			double raw_rop = Object_GetFloat(rop);
-			APPLY((double) raw_lop, raw_rop, res, id)
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else if(Object_IsFloat(lop))
-	{
-		double raw_lop = Object_GetFloat(lop);
-		if(Object_IsInt(rop))
-		{
-			// float + int
-			long long int raw_rop = Object_GetInt(rop);
-			APPLY(raw_lop, (double) raw_rop, res, id)
-		}
-		else if(Object_IsFloat(rop))
-		{
-			// float + float
-			double raw_rop = Object_GetFloat(rop);
-			APPLY(raw_lop, raw_rop, res, id)
-		}
-		else
-		{
-			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-			return NULL;
-		}
-	}
-	else
-	{
-		Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
-		return NULL;
-	}
-
-	#undef APPLY
-
-	return Object_FromBool(res, heap, error);
-}
-
-// Prints an object to a buffer truncating the result 
-// if necessary. The buffer is always null-terminated.
-static void printToBuffer(Object *obj, char *buffer, size_t size)
-{
-	memset(buffer, 0, size);
-
-	FILE *fp = fmemopen(buffer, size-1, "wb");
-	if(fp == NULL)
-		return;
-
-	Object_Print(obj, fp);
-	fclose(fp);
-	buffer[size-1] = '\0';
-}
-
-static bool checkCountOperand(long long int value, Error *error)
-{
-	if (value < INT_MIN || value > INT_MAX) {
-		Error_Report(error, ErrorType_RUNTIME, "Instruction operand is too big");
-		return false;
-	}
-	return true;
-}
-
-static _Bool runInstruction(Runtime *runtime, Error *error)
-{
-	ASSERT(runtime != NULL);
-	ASSERT(error->occurred == 0);
-
-	Heap *heap = Runtime_GetHeap(runtime);
-	Executable *exe = Runtime_GetCurrentExecutable(runtime);
-	ASSERT(exe != NULL);
-	int index = Runtime_GetCurrentIndex(runtime);
-	Opcode opcode;
-	Operand ops[3];
-	int     opc = sizeof(ops) / sizeof(ops[0]);
-	
-	if(!Executable_Fetch(exe, index, &opcode, ops, &opc))
-	{
-		Error_Report(error, ErrorType_INTERNAL, "Invalid instruction index %d", index);
-		return 0;
-	}
-	
-	Runtime_SetInstructionIndex(runtime, index+1);
-
-	switch(opcode)
-	{
-		case OPCODE_NOPE:
-		// Do nothing.
-		return 1;
-
-		case OPCODE_POS:
-		{
-			ASSERT(opc == 0);
-
-			if(Runtime_Top(runtime, 0) == NULL)
-			{
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't have enough items on the stack to execute POS");
-				return 0;
-			}
-
-			/* Do nothing */
-			return 1;
-		}
-
-		case OPCODE_NEG:
-		{
-			ASSERT(opc == 0);
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			if(Object_IsInt(top))
-			{
-				long long n = Object_GetInt(top);
-				if(n == LLONG_MIN)
-				{
-					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
-					return 0;
-				}
-				top = Object_FromInt(-n, heap, error);
-			}
-			else if(Object_IsFloat(top))
-			{
-				double f = Object_GetFloat(top);
-				top = Object_FromFloat(-f, heap, error);
-			}
-			else
-			{
-				Error_Report(error, ErrorType_RUNTIME, "Negation operand on a non-numeric object");
-				return 0;
-			}
-
-			if(top == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, top);
-		}
-
-		case OPCODE_NOT:
-		{
-			ASSERT(opc == 0);
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			if(!Object_IsBool(top))
-			{
-				Error_Report(error, ErrorType_RUNTIME, "NOT operand isn't a boolean");
-				return 0;
-			}
-
-			_Bool v = Object_GetBool(top);
-
-			Object *negated = Object_FromBool(!v, heap, error);
-			if(negated == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, negated);
-		}
-
-		case OPCODE_NLB:
-		{
-			ASSERT(opc == 0);
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;
-
-			Object *nullable = Object_NewNullable(top, heap, error);
-			if(nullable == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, nullable);
-		}
-
-		case OPCODE_STP:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			Object *res = Object_NewSum(objs[1], objs[0], heap, error);
-			if(res == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_ADD:
-		case OPCODE_SUB:
-		case OPCODE_MUL:
-		case OPCODE_DIV:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			Object *res = do_math_op(objs[1], objs[0], opcode, heap, error);
-			if(res == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_MOD:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-			if (!Object_IsInt(objs[0]) || !Object_IsInt(objs[1])) {
-				Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
-				return 0;
-			}
-
-			long long int x, y, z;
-			y = Object_GetInt(objs[0]);
-			x = Object_GetInt(objs[1]);
-			if (y == 0) {
-				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
-				return 0;
-			}
-			z = (y == -1) ? 0 : x % y; // The minimum integer can't be divided by -1.
-
-			Object *res = Object_FromInt(z, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_EQL:
-		case OPCODE_NQL:
-		{
-			ASSERT(opc == 0);
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-
-			_Bool rawres = Object_Compare(objs[1], objs[0], error);
-			if(error->occurred == 1)
-				return 0;
-
-			if(opcode == OPCODE_NQL)
-				rawres = !rawres;
-
-			Object *res = Object_FromBool(rawres, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_LSS:
-		case OPCODE_GRT:
-		case OPCODE_LEQ:
-		case OPCODE_GEQ:
-		{
-			ASSERT(opc == 0);
-
-			Object *objs[2];
-			if(!Runtime_Pop(runtime, error, objs, 2))
-				return 0;
-
-			Object *res = do_relational_op(objs[1], objs[0], opcode, heap, error);
-			if(res == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, res);
-		}
-
-		case OPCODE_ASS:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-			const char *name = ops[0].as_string;
-
-			Object *value = Runtime_Top(runtime, 0);
-			if(value == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack");
-				return 0;
-			}
-			return Runtime_SetVariable(runtime, error, name, value);
-		}
-
-		case OPCODE_POP:
-		{
-			ASSERT(opc == 1);
-			if (!checkCountOperand(ops[0].as_int, error))
-				return 0;
-			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
-		}
-
-		case OPCODE_CHECKTYPE:
-		{
-			ASSERT(opc == 2);
-			ASSERT(ops[0].type == OPTP_INT);
-			ASSERT(ops[1].type == OPTP_STRING);
-			
-			const char *arg_name; 
-			int arg_index;
-			
-			arg_index = ops[0].as_int;
-			arg_name  = ops[1].as_string;
-			ASSERT(arg_name != NULL);
-
-			Object *typ = Runtime_Top(runtime, 0);
-			Object *arg = Runtime_Top(runtime, -1);
-			if(typ == NULL || arg == NULL)
-			{
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute CHECKTYPE");
-				return 0;
-			}
-
-			// Pop type
-			if(!Runtime_Pop(runtime, error, NULL, 1))
-				return 0;
-
-			if (!Object_IsTypeOf(typ, arg, heap, error)) {
-				if (error->occurred)
-					return 0;
-
-				char provided[512];
-				char allowed[512];
-				printToBuffer(arg, provided, sizeof(provided));
-				printToBuffer(typ, allowed, sizeof(allowed));
-				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
-							 arg_index+1, arg_name, allowed, provided);
-				return 0;
-			}
-			return 1;
-		}
-
-		case OPCODE_CALL:
-		{
-			ASSERT(opc == 2);
-			ASSERT(ops[0].type == OPTP_INT);
-			ASSERT(ops[1].type == OPTP_INT);
-
-			if (!checkCountOperand(ops[0].as_int, error) || !checkCountOperand(ops[1].as_int, error))
-				return 0;
-
-			int argc = ops[0].as_int;
-			int retc = ops[1].as_int;
-			ASSERT(argc >= 0 && retc > 0);
-
-			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
-				return 0;
-			}
-
-			Object *argv[32];
-
-			int max_argc = sizeof(argv) / sizeof(argv[0]);
-			if(argc > max_argc) {
-				Error_Report(error, ErrorType_INTERNAL, "Static buffer only allows function calls with up to %d arguments", max_argc);
-				return 0;
-			}
-			if (!Runtime_Pop(runtime, error, argv, argc))
-				return 0;
-
-			Object *rets[8];
-			int num_rets = Object_Call(callable, argv, argc, rets, heap, error);
-			if(num_rets < 0)
-				return 0;
-
-			// NOTE: Every local object reference is invalidated from here.
-
-			ASSERT(error->occurred == 0);
-
-			for(int g = 0; g < MIN(num_rets, retc); g += 1)
-				if(!Runtime_Push(runtime, error, rets[g]))
-					return 0;
-
-			for(int g = 0; g < retc - num_rets; g += 1)
-			{
-				Object *temp = Object_NewNone(Runtime_GetHeap(runtime), error);
-				if(temp == NULL)
-					return NULL;
-
-				if(!Runtime_Push(runtime, error, temp))
-					return 0;
-			}
-			return 1;
-		}
-
-		case OPCODE_SELECT:
-		case OPCODE_SELECT2:
-		{
-			ASSERT(opc == 0);
-
-			int to_be_popped = (opcode == OPCODE_SELECT) ? 2 : 1;
-
-			Object *col = Runtime_Top(runtime, -1);
-			Object *key = Runtime_Top(runtime, 0);
-			if (col == NULL || key == NULL) {
-				const char *name = "SELECT";
-				if (opcode == OPCODE_SELECT2)
-					name = "SELECT2";
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run %s instruction", name);
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, to_be_popped))
-				return 0;
-
-			Error dummy;
-			Error_Init(&dummy); // We want to catch the error reported by this Object_Select.
-
-			Object *val = Object_Select(col, key, heap, &dummy);
-
-			if(val == NULL) {
-				
-				if(dummy.occurred && dummy.type == ErrorType_INTERNAL) {
-					// This isn't about the key.
-					Error_Report(error, ErrorType_INTERNAL, "%s", dummy.message);
-					Error_Free(&dummy);
-					return 0;
-				}
-				Error_Free(&dummy);
-
-				val = Object_NewNone(heap, error);
-				if(val == NULL)
-					return 0;
-			}
-
-			return Runtime_Push(runtime, error, val);
-		}
-
-		case OPCODE_INSERT:
-		{
-			ASSERT(opc == 0);
-
-			Object *col = Runtime_Top(runtime, -2);
-			Object *key = Runtime_Top(runtime, -1);
-			Object *val = Runtime_Top(runtime,  0);
-			if (col == NULL || key == NULL || val == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT instruction");
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, 2))
-				return 0;
-
-			return Object_Insert(col, key, val, heap, error);
-		}
-		
-		case OPCODE_INSERT2:
-		{
-			ASSERT(opc == 0);
-
-			Object *val = Runtime_Top(runtime, -2);
-			Object *col = Runtime_Top(runtime, -1);
-			Object *key = Runtime_Top(runtime,  0);
-			if (val == NULL || col == NULL || key == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT2 instruction");
-				return 0;
-			}
-			if(!Runtime_Pop(runtime, error, NULL, 2))
-				return 0;
-
-			return Object_Insert(col, key, val, heap, error);
-		}
-
-		case OPCODE_PUSHINT:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			Object *obj = Object_FromInt(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-		
-		case OPCODE_PUSHFLT:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_FLOAT);
-
-			Object *obj = Object_FromFloat(ops[0].as_float, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHSTR:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-
-			Object *obj = Object_FromString(ops[0].as_string, -1, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHVAR:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_STRING);
-
-			Object *value;
-			if (!Runtime_GetVariable(runtime, error, ops[0].as_string, &value))
-				return 0;
-
-			if (value == NULL) {
-				Error_Report(error, ErrorType_RUNTIME, "Reference to undefined variable \"%s\"", ops[0].as_string);
-				return 0;
-			}
-
-			return Runtime_Push(runtime, error, value);
-		}
-
-		case OPCODE_PUSHNNE:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_NewNone(heap, error);
-			if(obj == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHTRU:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_FromBool(1, heap, error);
-			if(obj == NULL)
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHFLS:
-		{
-			ASSERT(opc == 0);
-			Object *obj = Object_FromBool(0, heap, error);
-			if(obj == NULL) 
-				return 0;
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHFUN:
-		{
-			ASSERT(opc == 3);
-			ASSERT(ops[0].type == OPTP_IDX);
-			ASSERT(ops[1].type == OPTP_INT);
-			ASSERT(ops[2].type == OPTP_STRING);
-
-			Object *locals  = Runtime_GetLocals(runtime);
-			Object *old_closure = Runtime_GetClosure(runtime);
-			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
-			if(new_closure == NULL)
-				return 0;
-
-			Object *func = Object_FromNojaFunction(runtime, ops[2].as_string, exe, ops[0].as_int, ops[1].as_int, new_closure, heap, error);
-			if(func == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, func);
-		}
-
-		case OPCODE_PUSHLST:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			if (!checkCountOperand(ops[0].as_int, error))
-				return 0;
-
-			Object *obj = Object_NewList(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHMAP:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-
-			if (!checkCountOperand(ops[0].as_int, error))
-				return 0;
-
-			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
-			if(obj == NULL)
-				return 0;
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHNNETYP:
-		{
-			ASSERT(opc == 0);
-
-			Object *obj = (Object*) Object_GetNoneType();
-			ASSERT(obj != NULL);
-
-			return Runtime_Push(runtime, error, obj);
-		}
-
-		case OPCODE_PUSHTYP:
-		{
-			ASSERT(opc == 0);
-
-			Object *top = Runtime_Top(runtime, 0);
-			if (top == NULL) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run PUSHTYP instruction");
-				return 0;
-			}
-
-			Object *typ = (Object*) Object_GetType(top);
-			ASSERT(typ != NULL);
-			
-			return Runtime_Push(runtime, error, typ);
-		}
-
-		case OPCODE_EXIT:
-		{
-			ASSERT(opc == 0);
-			Object *vars = Runtime_GetLocals(runtime);
-			ASSERT(vars != NULL);
-			Runtime_Push(runtime, error, vars);
-			return 0;
-		}
-
-		case OPCODE_RETURN:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_INT);
-			int retc = ops[0].as_int;
-			UNUSED(retc);
-			ASSERT(retc >= 0);
-			ASSERT(retc <= MAX_RETS);
-			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
-			return 0;
-		}
-
-		case OPCODE_JUMP:
-		ASSERT(opc == 1);
-		ASSERT(ops[0].type == OPTP_IDX);
-		Runtime_SetInstructionIndex(runtime, ops[0].as_int);
-		return 1;
-
-		case OPCODE_JUMPIFANDPOP:
-		case OPCODE_JUMPIFNOTANDPOP:
-		{
-			ASSERT(opc == 1);
-			ASSERT(ops[0].type == OPTP_IDX);				
-			long long int target = ops[0].as_int;
-
-			Object *top;
-			if(!Runtime_Pop(runtime, error, &top, 1))
-				return 0;			
-
-			if(!Object_IsBool(top)) {
-				Error_Report(error, ErrorType_RUNTIME, "Not a boolean");
-				return 0;
-			}
-
-			if(( Object_GetBool(top) && opcode == OPCODE_JUMPIFANDPOP) 
-			|| (!Object_GetBool(top) && opcode == OPCODE_JUMPIFNOTANDPOP))
-				Runtime_SetInstructionIndex(runtime, target);
-			return 1;
-		}
-
-		default:
-		UNREACHABLE;
-		return 0;
-	}
-
-	return 1;
-}
-
-static bool runInstructionsUntilSomethingHappens(Runtime *runtime, Error *error)
-{
-	Heap *heap = Runtime_GetHeap(runtime);
-	RuntimeCallback callback = Runtime_GetCallback(runtime);
-
-	if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
-		Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
-	else
-		while(runInstruction(runtime, error))
-		{
-			if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
-			{
-				Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
-				break;
-			}
-
-			if(Heap_GetUsagePercentage(heap) > 100)
-				if(!Runtime_CollectGarbage(runtime, error))
-					break;
-		}
-
-	// If an error occurred, we want to return NULL.
-	return !error->occurred;
-}
-
-static int runExecutableAtIndex(Runtime *runtime, Error *error,
-		    				    Executable *exe, int index,
-		    				    Object *closure,
-		    				    Object *rets[static MAX_RETS],
-						        Object *argv[], int argc)
-{
-	if (!Runtime_PushFrame(runtime, error, closure, exe, index))
-    	return -1;
-
-    for (int i = 0; i < argc; i++)
-    	if (!Runtime_Push(runtime, error, argv[i]))
-    		return -1;
-
-    if (!runInstructionsUntilSomethingHappens(runtime, error))
-    	return -1;
-
-    // Get return values
-    int retc = Runtime_GetFrameStackUsage(runtime);
-    if (retc > MAX_RETS) {
-    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
-    	return -1;
-    }
-    for (int i = 0; i < retc; i++)
-    	rets[i] = Runtime_Top(runtime, i-retc+1);
-
-    if (!Runtime_PopFrame(runtime))
-		return -1;
-
-	return retc;
-}
-
-int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	int error_offset = -1;
-	Executable *exe = compile(source, error, &error_offset);
-    if(exe == NULL) {
-    	Error suberror;
-    	Error_Init(&suberror);
-    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
-        Error_Free(&suberror);
-        Runtime_EndRun(runtime);
-        return -1;
-    }
-
-    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
-
-    Executable_Free(exe);
-    Runtime_EndRun(runtime);
-    return retc;
-}
-
-int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	int error_offset = -1;
-	Executable *exe = assemble(source, error, &error_offset);
-    if(exe == NULL) {
-    	Error suberror;
-    	Error_Init(&suberror);
-    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
-    	Error_Free(&suberror);
-        Runtime_EndRun(runtime);
-        return -1;
-    }
-
-    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
-    
-    Executable_Free(exe);
-    Runtime_EndRun(runtime);
-    return retc;
-}
-
-int runFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	Source *source = Source_FromFile(file, error);
-	if (source == NULL) {
-		Runtime_EndRun(runtime);
-		return -1;
-	}
-
-	int retc = runSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	Runtime_EndRun(runtime);
-	return retc;
-}
-
-int runStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL) {
-		Runtime_EndRun(runtime);
-		return -1;
-	}
-	
-	int retc = runSource(runtime, source, rets, error);
-	
-	Source_Free(source);
-	Runtime_EndRun(runtime);
-	return retc;
-}
-
-int runBytecodeFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	Source *source = Source_FromFile(file, error);
-	if (source == NULL) {
-		Runtime_EndRun(runtime);
-		return -1;
-	}
-
-	int retc = runBytecodeSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	Runtime_EndRun(runtime);
-	return retc;
-}
-
-int runBytecodeStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
-{
-	Runtime_BeginRun(runtime);
-
-	Source *source = Source_FromString(name, string, -1, error);
-	if (source == NULL) {
-		Runtime_EndRun(runtime);
-		return -1;
-	}
-	
-	int retc = runBytecodeSource(runtime, source, rets, error);
-	
-	Source_Free(source);
-	Runtime_EndRun(runtime);
-	return retc;
-}
-
-bool runFile(Runtime *runtime, const char *file, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runFileEx(runtime, file, rets, error) >= 0;
-}
-
-bool runString(Runtime *runtime, const char *string, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
-}
-
-bool runBytecodeFile(Runtime *runtime, const char *file, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runBytecodeFileEx(runtime, file, rets, error) >= 0;
-}
-
-bool runBytecodeString(Runtime *runtime, const char *string, Error *error)
-{
-	Object *rets[MAX_RETS];
-	return runBytecodeStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
-}
-
-static bool makePathRelativeToScript(Runtime *runtime, const char *src_path, char *dst_path, size_t dst_size)
-{
-	size_t src_size = strlen(src_path);
-
-	if(Path_IsAbsolute(src_path)) {
-		
-		if(src_size >= dst_size)
-			return false;
-		
-		strcpy(dst_path, src_path);
-	
-	} else {
-
-		size_t written = Runtime_GetCurrentScriptFolder(runtime, dst_path, dst_size);
-		if(written == 0)
-			return false;
-
-		if(written + src_size >= dst_size)
-			return false;
-
-		memcpy(dst_path + written, src_path, src_size);
-		dst_path[written + src_size] = '\0';
-	}
-
-	return true;
-}
-
-int runFileRelativeToScript(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
-{
-	char full[1024];
-	if (!makePathRelativeToScript(runtime, file, full, sizeof(full))) {
-		Error_Report(error, ErrorType_INTERNAL, "Internal buffer is too small");
-		return -1;
-	}
-
-	Source *source = Source_FromFile(full, error);
-	if (source == NULL)
-		return -1;
-
-	int retc = runSource(runtime, source, rets, error);
-
-	Source_Free(source);
-	return retc;
-}
+#include <time.h>
+#include <limits.h>
+#include <stdlib.h>
+#include <string.h>
+#include "runtime.h"
+#include "utils/defs.h"
+#include "utils/path.h"
+#include "compiler/compile.h"
+#include "assembler/assemble.h"
+
+static int runExecutableAtIndex(Runtime *runtime, Error *error,
+		    				    Executable *exe, int index,
+		    				    Object *closure,
+		    				    Object *rets[static MAX_RETS],
+						        Object *argv[], int argc);
+
+typedef struct {
+	Object base;
+	const char *name;
+	Runtime *runtime;
+	Executable *exe;
+	int index, argc;
+	Object *closure;
+	TimingID timing_id;
+} FunctionObject;
+
+static _Bool func_free(Object *self, Error *error)
+{
+	(void) error;
+	
+	FunctionObject *func = (FunctionObject*) self;
+	Executable_Free(func->exe);	
+	return 1;
+}
+
+static void func_walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
+{
+	FunctionObject *func = (FunctionObject*) self;
+	callback(&func->closure, userp);
+}
+
+static int func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Heap *heap, Error *error)
+{
+	ASSERT(self != NULL && heap != NULL && error != NULL);
+	
+	FunctionObject *func = (FunctionObject*) self;
+
+	ASSERT(func->exe != NULL);
+	ASSERT(func->argc >= 0);
+	ASSERT(func->index >= 0);
+
+	// Make sure the right amount of arguments is provided.
+
+	Object **argv2;
+
+	int expected_argc = func->argc;
+
+	if(expected_argc < (int) argc)
+	{
+		// Nothing to be done. By using
+		// the right argc the additional
+		// arguments are ignored implicitly.
+		argv2 = argv;
+	}
+	else if(expected_argc > (int) argc)
+	{
+		// Some arguments are missing.
+		argv2 = malloc(sizeof(Object*) * expected_argc);
+
+		if(argv2 == NULL)
+		{
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return -1;
+		}
+
+		// Copy the provided arguments.
+		for(int i = 0; i < (int) argc; i += 1)
+			argv2[i] = argv[i];
+
+		// Set the unspecified arguments to none.
+		for(int i = argc; i < expected_argc; i += 1)
+		{
+			argv2[i] = Object_NewNone(heap, error);
+
+			if(argv2[i] == NULL)
+			{
+				free(argv2);
+				return -1;
+			}
+		}
+	}
+	else
+		// The right amount of arguments was provided.
+		argv2 = argv;
+
+	clock_t begin;
+	TimingID timing_id;
+	TimingTable *timing_table = Runtime_GetTimingTable(func->runtime);
+	if (timing_table != NULL) {
+		begin = clock();
+
+		// Need to save the object's member
+	    // before the run function since it
+	    // may trigger a GC cycle invalidating
+	    // the object pointer.
+		timing_id = func->timing_id;
+	}
+
+	int retc = runExecutableAtIndex(func->runtime, error, func->exe, func->index, func->closure, rets, argv2, expected_argc);
+
+	if (timing_table != NULL) {
+		double time = (double) (clock() - begin) / CLOCKS_PER_SEC;
+		TimingTable_sumCallTime(timing_table, timing_id, time);
+	}
+
+	// NOTE: Every object reference is invalidated from here.
+	
+	if(argv2 != argv)
+		free(argv2);
+
+	return retc;
+}
+
+static TypeObject t_func = {
+	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
+	.name = "function",
+	.size = sizeof (FunctionObject),
+	.call = func_call,
+	.walk = func_walk,
+	.free = func_free,
+};
+
+/* Symbol: Object_FromNojaFunction
+ *
+ *   Creates an object from a noja executable structure.
+ *
+ * Args:
+ *   - runtime: The reference to an instanciated Runtime.
+ *
+ *   - exe: A noja executable.
+ *
+ *   - index: The index of the first bytecode instruction
+ *            of the noja function within the executable.
+ *
+ *   - argc: The number of arguments the function expects. 
+ *           It must be positive (unlike [Object_FromNativeFunction],
+ *           where -1 means variadic).
+ *
+ *   - closure: An object containing variables that will be
+ *              accessible from the noja function other than
+ *              the ones that will be defined inside it.
+ *
+ *   - heap: The heap that will be used to allocate the object.
+ *           It can't be NULL.
+ *
+ *   - error: Output parameter where error information is stored.
+ *            It can't be NULL.
+ *
+ * Returns:
+ *   The newly created object. If an error occurred, NULL is returned
+ *   and information about the error is stored in the [error] argument.
+ */
+Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *exe, int index, int argc, Object *closure, Heap *heap, Error *error)
+{
+	ASSERT(runtime != NULL);
+	ASSERT(exe != NULL);
+	ASSERT(index >= 0);
+	ASSERT(argc >= 0);
+	ASSERT(heap != NULL);
+	ASSERT(error != NULL);
+
+	FunctionObject *func = (FunctionObject*) Heap_Malloc(heap, &t_func, error);
+
+	if(func == NULL)
+		return NULL;
+
+	Executable *exe_copy = Executable_Copy(exe);
+
+	if(exe_copy == NULL)
+	{
+		Error_Report(error, ErrorType_INTERNAL, "Failed to copy executable");
+		return NULL;
+	}
+
+	func->runtime = runtime;
+	func->name = name; // Should this be copied?
+	func->exe = exe_copy;
+	func->index = index;
+	func->argc = argc;
+	func->closure = closure;
+
+	TimingTable *table = Runtime_GetTimingTable(runtime);
+	if (table != NULL) {
+		#warning "TODO: Calculate line number"
+		size_t line = 0;
+		Source *src = Executable_GetSource(exe);
+		func->timing_id = TimingTable_newEntry(table, src, line, name);
+		if (func->timing_id < 0) {
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
+	}
+
+	return (Object*) func;
+}
+
+
+typedef struct {
+	Object base;
+	Runtime *runtime;
+	int (*callback)(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[MAX_RETS], Error *error);
+	int argc;
+} NativeFunctionObject;
+
+static int native_func_call(Object *self, Object **argv, unsigned int argc, Object *rets[static MAX_RETS],  Heap *heap, Error *error)
+{
+	ASSERT(self != NULL);
+	ASSERT(heap != NULL);
+	ASSERT(error != NULL);
+			
+	NativeFunctionObject *func = (NativeFunctionObject*) self;
+
+	// If the function isn't variadic, make sure
+	// the right amount of arguments is provided.
+
+	Object **argv2;
+	int 	 argc2;
+
+	int expected_argc = func->argc;
+
+	if(expected_argc < 0 || expected_argc == (int) argc)
+	{
+		// The function is variadic or the right 
+		// amount of arguments was provided.
+		argv2 = argv;
+		argc2 = argc;
+	}
+	else if(expected_argc < (int) argc)
+	{
+		// Nothing to be done. By using
+		// the right argc the additional
+		// arguments are ignored implicitly.
+		argv2 = argv;
+		argc2 = expected_argc;
+	}
+	else if(expected_argc > (int) argc)
+	{
+		// Some arguments are missing.
+		argv2 = malloc(sizeof(Object*) * expected_argc);
+		argc2 = expected_argc;
+			
+		if(argv2 == NULL)
+		{
+			Error_Report(error, 1, "No memory");
+			return -1;
+		}
+
+		// Copy the provided arguments.
+		for(int i = 0; i < (int) argc; i += 1)
+			argv2[i] = argv[i];
+
+		// Set the unspecified arguments to none.
+		for(int i = argc; i < expected_argc; i += 1)
+		{
+			argv2[i] = Object_NewNone(heap, error);
+
+			if(argv2[i] == NULL)
+			{
+				free(argv2);
+				return -1;
+			}
+		}
+	} else {
+		UNREACHABLE;
+		argv2 = NULL;
+		argc2 = -1;
+	}
+
+	// Need to save the runtime before calling the
+	// callback since it may trigger a GC cycle
+	// invalidating the object pointer.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error)) {
+		if(argv2 != argv)
+			free(argv2);
+    	return -1;
+	}
+
+	ASSERT(func->callback != NULL);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
+		
+	// NOTE: Since the callback may have executed some bytecode, a GC
+	//       cycle may have been triggered, therefore we must assume
+	//       every object reference that was locally saved is invalidated 
+	//       from here (the returned object is good tho).
+
+	if(argv2 != argv)
+		free(argv2);
+
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
+    	return -1;
+
+	return retc;
+}
+
+static TypeObject t_nfunc = {
+	.base = (Object) { .type = &t_type, .flags = Object_STATIC },
+	.name = "native function",
+	.size = sizeof (NativeFunctionObject),
+	.call = native_func_call,	
+};
+
+/* Symbol: Object_FromNativeFunction
+ *
+ *   Creates an object from a function pointer.
+ *
+ * Args:
+ *   - runtime: The reference to an instanciated Runtime. This must be
+ *              provided so that the callback can also access it.
+ *
+ *   - callback: The native function to be executed when this object
+ *               is called.
+ *
+ *   - argc: The number of arguments the function expects. If -1 is
+ *           provided, then the function is considered to be variadic.
+ *
+ *   - heap: The heap that will be used to allocate the object.
+ *           It can't be NULL.
+ *
+ *   - error: Output parameter where error information is stored.
+ *            It can't be NULL.
+ *
+ * Returns:
+ *   The newly created object. If an error occurred, NULL is returned
+ *   and information about the error is stored in the [error] argument.
+ */
+Object *Object_FromNativeFunction(Runtime *runtime, int (*callback)(Runtime*, Object**, unsigned int, Object*[static MAX_RETS], Error*), int argc, Heap *heap, Error *error)
+{
+	ASSERT(callback != NULL);
+
+	NativeFunctionObject *func = (NativeFunctionObject*) Heap_Malloc(heap, &t_nfunc, error);
+
+	if(func == NULL)
+		return NULL;
+
+	func->runtime = runtime;
+	func->callback = callback;
+	func->argc = argc;
+
+	return (Object*) func;
+}
+
+static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
+{
+	ASSERT(lop != NULL);
+	ASSERT(rop != NULL);
+
+	#define APPLY(x, y, z, id) 							\
+		switch(opcode)									\
+		{												\
+			case OPCODE_ADD: (z) = (x) + (y); break;	\
+			case OPCODE_SUB: (z) = (x) - (y); break;	\
+			case OPCODE_MUL: (z) = (x) * (y); break;	\
+			case OPCODE_DIV: 							\
+			if((y) == 0) 								\
+			{ 											\
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero"); \
+				return NULL; 							\
+			} 											\
+			(z) = (x) / (y); 							\
+			break;										\
+			default: UNREACHABLE; break;				\
+		}
+
+	Object *res;
+
+	if(Object_IsInt(lop))
+	{
+		long long int raw_lop = Object_GetInt(lop);
+
+		if(Object_IsInt(rop))
+		{
+			// int + int
+			long long int raw_rop = Object_GetInt(rop);
+			long long int raw_res = 0;
+			_Bool overflow = 0;
+			switch(opcode)
+			{
+				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_DIV:
+				if(raw_rop == 0)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+					return NULL;
+				}
+				if(raw_lop == LLONG_MIN && raw_rop == -1)
+					overflow = 1;
+				else
+					raw_res = raw_lop / raw_rop;
+				break;
+				default: UNREACHABLE; break;
+			}
+			if(overflow)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+				return NULL;
+			}
+			res = Object_FromInt(raw_res, heap, error);
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// int + float
+			double raw_rop = Object_GetFloat(rop);
+			double raw_res = 0;
+			APPLY((double) raw_lop, raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else if(Object_IsFloat(lop))
+	{
+		double raw_lop = Object_GetFloat(lop);
+
+		if(Object_IsInt(rop))
+		{
+			// float + int
+			long long int raw_rop = Object_GetInt(rop);
+			double raw_res = 0;
+			APPLY(raw_lop, (double) raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// float + float
+			double raw_rop = Object_GetFloat(rop);
+			double raw_res = 0;
+			APPLY(raw_lop, raw_rop, raw_res, id)
+			res = Object_FromFloat(raw_res, heap, error);
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+		return NULL;
+	}
+
+	#undef APPLY
+
+	return res;
+}
+
+static Object *do_relational_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, Error *error)
+{
+	ASSERT(lop != NULL);
+	ASSERT(rop != NULL);
+
+	#define APPLY(x, y, z, id) 							\
+		switch(opcode)									\
+		{												\
+			case OPCODE_LSS: (z) = (x) <  (y); break;	\
+			case OPCODE_GRT: (z) = (x) >  (y); break;	\
+			case OPCODE_LEQ: (z) = (x) <= (y); break;	\
+			case OPCODE_GEQ: (z) = (x) >= (y); break;	\
+			default: UNREACHABLE; break;				\
+		}
+
+	_Bool res = 0;
+
+	if(Object_IsInt(lop))
+	{
+		long long int raw_lop = Object_GetInt(lop);
+		if(Object_IsInt(rop))
+		{
+			// int + int
+			long long int raw_rop = Object_GetInt(rop);
+			APPLY(raw_lop, raw_rop, res, id)
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// int + float
+			double raw_rop = Object_GetFloat(rop);
+			APPLY((double) raw_lop, raw_rop, res, id)
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else if(Object_IsFloat(lop))
+	{
+		double raw_lop = Object_GetFloat(lop);
+		if(Object_IsInt(rop))
+		{
+			// float + int
+			long long int raw_rop = Object_GetInt(rop);
+			APPLY(raw_lop, (double) raw_rop, res, id)
+		}
+		else if(Object_IsFloat(rop))
+		{
+			// float + float
+			double raw_rop = Object_GetFloat(rop);
+			APPLY(raw_lop, raw_rop, res, id)
+		}
+		else
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+			return NULL;
+		}
+	}
+	else
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Relational operation on a non-numeric object");
+		return NULL;
+	}
+
+	#undef APPLY
+
+	return Object_FromBool(res, heap, error);
+}
+
+// Prints an object to a buffer truncating the result 
+// if necessary. The buffer is always null-terminated.
+static void printToBuffer(Object *obj, char *buffer, size_t size)
+{
+	memset(buffer, 0, size);
+
+	FILE *fp = fmemopen(buffer, size-1, "wb");
+	if(fp == NULL)
+		return;
+
+	Object_Print(obj, fp);
+	fclose(fp);
+	buffer[size-1] = '\0';
+}
+
+static bool checkCountOperand(long long int value, Error *error)
+{
+	if (value < INT_MIN || value > INT_MAX) {
+		Error_Report(error, ErrorType_RUNTIME, "Instruction operand is too big");
+		return false;
+	}
+	return true;
+}
+
+static _Bool runInstruction(Runtime *runtime, Error *error)
+{
+	ASSERT(runtime != NULL);
+	ASSERT(error->occurred == 0);
+
+	Heap *heap = Runtime_GetHeap(runtime);
+	Executable *exe = Runtime_GetCurrentExecutable(runtime);
+	ASSERT(exe != NULL);
+	int index = Runtime_GetCurrentIndex(runtime);
+	Opcode opcode;
+	Operand ops[3];
+	int     opc = sizeof(ops) / sizeof(ops[0]);
+	
+	if(!Executable_Fetch(exe, index, &opcode, ops, &opc))
+	{
+		Error_Report(error, ErrorType_INTERNAL, "Invalid instruction index %d", index);
+		return 0;
+	}
+	
+	Runtime_SetInstructionIndex(runtime, index+1);
+
+	switch(opcode)
+	{
+		case OPCODE_NOPE:
+		// Do nothing.
+		return 1;
+
+		case OPCODE_POS:
+		{
+			ASSERT(opc == 0);
+
+			if(Runtime_Top(runtime, 0) == NULL)
+			{
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't have enough items on the stack to execute POS");
+				return 0;
+			}
+
+			/* Do nothing */
+			return 1;
+		}
+
+		case OPCODE_NEG:
+		{
+			ASSERT(opc == 0);
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			if(Object_IsInt(top))
+			{
+				long long n = Object_GetInt(top);
+				if(n == LLONG_MIN)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
+				top = Object_FromInt(-n, heap, error);
+			}
+			else if(Object_IsFloat(top))
+			{
+				double f = Object_GetFloat(top);
+				top = Object_FromFloat(-f, heap, error);
+			}
+			else
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Negation operand on a non-numeric object");
+				return 0;
+			}
+
+			if(top == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, top);
+		}
+
+		case OPCODE_NOT:
+		{
+			ASSERT(opc == 0);
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			if(!Object_IsBool(top))
+			{
+				Error_Report(error, ErrorType_RUNTIME, "NOT operand isn't a boolean");
+				return 0;
+			}
+
+			_Bool v = Object_GetBool(top);
+
+			Object *negated = Object_FromBool(!v, heap, error);
+			if(negated == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, negated);
+		}
+
+		case OPCODE_NLB:
+		{
+			ASSERT(opc == 0);
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;
+
+			Object *nullable = Object_NewNullable(top, heap, error);
+			if(nullable == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, nullable);
+		}
+
+		case OPCODE_STP:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			Object *res = Object_NewSum(objs[1], objs[0], heap, error);
+			if(res == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_ADD:
+		case OPCODE_SUB:
+		case OPCODE_MUL:
+		case OPCODE_DIV:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			Object *res = do_math_op(objs[1], objs[0], opcode, heap, error);
+			if(res == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_MOD:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+			if (!Object_IsInt(objs[0]) || !Object_IsInt(objs[1])) {
+				Error_Report(error, ErrorType_RUNTIME, "Arithmetic operation on a non-numeric object");
+				return 0;
+			}
+
+			long long int x, y, z;
+			y = Object_GetInt(objs[0]);
+			x = Object_GetInt(objs[1]);
+			if (y == 0) {
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			z = (y == -1) ? 0 : x % y; // The minimum integer can't be divided by -1.
+
+			Object *res = Object_FromInt(z, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_EQL:
+		case OPCODE_NQL:
+		{
+			ASSERT(opc == 0);
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+
+			_Bool rawres = Object_Compare(objs[1], objs[0], error);
+			if(error->occurred == 1)
+				return 0;
+
+			if(opcode == OPCODE_NQL)
+				rawres = !rawres;
+
+			Object *res = Object_FromBool(rawres, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_LSS:
+		case OPCODE_GRT:
+		case OPCODE_LEQ:
+		case OPCODE_GEQ:
+		{
+			ASSERT(opc == 0);
+
+			Object *objs[2];
+			if(!Runtime_Pop(runtime, error, objs, 2))
+				return 0;
+
+			Object *res = do_relational_op(objs[1], objs[0], opcode, heap, error);
+			if(res == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, res);
+		}
+
+		case OPCODE_ASS:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+			const char *name = ops[0].as_string;
+
+			Object *value = Runtime_Top(runtime, 0);
+			if(value == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack");
+				return 0;
+			}
+			return Runtime_SetVariable(runtime, error, name, value);
+		}
+
+		case OPCODE_POP:
+		{
+			ASSERT(opc == 1);
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
+			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
+		}
+
+		case OPCODE_CHECKTYPE:
+		{
+			ASSERT(opc == 2);
+			ASSERT(ops[0].type == OPTP_INT);
+			ASSERT(ops[1].type == OPTP_STRING);
+			
+			const char *arg_name; 
+			int arg_index;
+			
+			arg_index = ops[0].as_int;
+			arg_name  = ops[1].as_string;
+			ASSERT(arg_name != NULL);
+
+			Object *typ = Runtime_Top(runtime, 0);
+			Object *arg = Runtime_Top(runtime, -1);
+			if(typ == NULL || arg == NULL)
+			{
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute CHECKTYPE");
+				return 0;
+			}
+
+			// Pop type
+			if(!Runtime_Pop(runtime, error, NULL, 1))
+				return 0;
+
+			if (!Object_IsTypeOf(typ, arg, heap, error)) {
+				if (error->occurred)
+					return 0;
+
+				char provided[512];
+				char allowed[512];
+				printToBuffer(arg, provided, sizeof(provided));
+				printToBuffer(typ, allowed, sizeof(allowed));
+				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
+							 arg_index+1, arg_name, allowed, provided);
+				return 0;
+			}
+			return 1;
+		}
+
+		case OPCODE_CALL:
+		{
+			ASSERT(opc == 2);
+			ASSERT(ops[0].type == OPTP_INT);
+			ASSERT(ops[1].type == OPTP_INT);
+
+			if (!checkCountOperand(ops[0].as_int, error) || !checkCountOperand(ops[1].as_int, error))
+				return 0;
+
+			int argc = ops[0].as_int;
+			int retc = ops[1].as_int;
+			ASSERT(argc >= 0 && retc > 0);
+
+			Object *callable;
+			if (!Runtime_Pop(runtime, error, &callable, 1)) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
+				return 0;
+			}
+
+			Object *argv[32];
+
+			int max_argc = sizeof(argv) / sizeof(argv[0]);
+			if(argc > max_argc) {
+				Error_Report(error, ErrorType_INTERNAL, "Static buffer only allows function calls with up to %d arguments", max_argc);
+				return 0;
+			}
+			if (!Runtime_Pop(runtime, error, argv, argc))
+				return 0;
+
+			Object *rets[8];
+			int num_rets = Object_Call(callable, argv, argc, rets, heap, error);
+			if(num_rets < 0)
+				return 0;
+
+			// NOTE: Every local object reference is invalidated from here.
+
+			ASSERT(error->occurred == 0);
+
+			for(int g = 0; g < MIN(num_rets, retc); g += 1)
+				if(!Runtime_Push(runtime, error, rets[g]))
+					return 0;
+
+			for(int g = 0; g < retc - num_rets; g += 1)
+			{
+				Object *temp = Object_NewNone(Runtime_GetHeap(runtime), error);
+				if(temp == NULL)
+					return NULL;
+
+				if(!Runtime_Push(runtime, error, temp))
+					return 0;
+			}
+			return 1;
+		}
+
+		case OPCODE_SELECT:
+		case OPCODE_SELECT2:
+		{
+			ASSERT(opc == 0);
+
+			int to_be_popped = (opcode == OPCODE_SELECT) ? 2 : 1;
+
+			Object *col = Runtime_Top(runtime, -1);
+			Object *key = Runtime_Top(runtime, 0);
+			if (col == NULL || key == NULL) {
+				const char *name = "SELECT";
+				if (opcode == OPCODE_SELECT2)
+					name = "SELECT2";
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run %s instruction", name);
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, to_be_popped))
+				return 0;
+
+			Error dummy;
+			Error_Init(&dummy); // We want to catch the error reported by this Object_Select.
+
+			Object *val = Object_Select(col, key, heap, &dummy);
+
+			if(val == NULL) {
+				
+				if(dummy.occurred && dummy.type == ErrorType_INTERNAL) {
+					// This isn't about the key.
+					Error_Report(error, ErrorType_INTERNAL, "%s", dummy.message);
+					Error_Free(&dummy);
+					return 0;
+				}
+				Error_Free(&dummy);
+
+				val = Object_NewNone(heap, error);
+				if(val == NULL)
+					return 0;
+			}
+
+			return Runtime_Push(runtime, error, val);
+		}
+
+		case OPCODE_INSERT:
+		{
+			ASSERT(opc == 0);
+
+			Object *col = Runtime_Top(runtime, -2);
+			Object *key = Runtime_Top(runtime, -1);
+			Object *val = Runtime_Top(runtime,  0);
+			if (col == NULL || key == NULL || val == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT instruction");
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, 2))
+				return 0;
+
+			return Object_Insert(col, key, val, heap, error);
+		}
+		
+		case OPCODE_INSERT2:
+		{
+			ASSERT(opc == 0);
+
+			Object *val = Runtime_Top(runtime, -2);
+			Object *col = Runtime_Top(runtime, -1);
+			Object *key = Runtime_Top(runtime,  0);
+			if (val == NULL || col == NULL || key == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run INSERT2 instruction");
+				return 0;
+			}
+			if(!Runtime_Pop(runtime, error, NULL, 2))
+				return 0;
+
+			return Object_Insert(col, key, val, heap, error);
+		}
+
+		case OPCODE_PUSHINT:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			Object *obj = Object_FromInt(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+		
+		case OPCODE_PUSHFLT:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_FLOAT);
+
+			Object *obj = Object_FromFloat(ops[0].as_float, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHSTR:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+
+			Object *obj = Object_FromString(ops[0].as_string, -1, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHVAR:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_STRING);
+
+			Object *value;
+			if (!Runtime_GetVariable(runtime, error, ops[0].as_string, &value))
+				return 0;
+
+			if (value == NULL) {
+				Error_Report(error, ErrorType_RUNTIME, "Reference to undefined variable \"%s\"", ops[0].as_string);
+				return 0;
+			}
+
+			return Runtime_Push(runtime, error, value);
+		}
+
+		case OPCODE_PUSHNNE:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_NewNone(heap, error);
+			if(obj == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHTRU:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_FromBool(1, heap, error);
+			if(obj == NULL)
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHFLS:
+		{
+			ASSERT(opc == 0);
+			Object *obj = Object_FromBool(0, heap, error);
+			if(obj == NULL) 
+				return 0;
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHFUN:
+		{
+			ASSERT(opc == 3);
+			ASSERT(ops[0].type == OPTP_IDX);
+			ASSERT(ops[1].type == OPTP_INT);
+			ASSERT(ops[2].type == OPTP_STRING);
+
+			Object *locals  = Runtime_GetLocals(runtime);
+			Object *old_closure = Runtime_GetClosure(runtime);
+			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
+			if(new_closure == NULL)
+				return 0;
+
+			Object *func = Object_FromNojaFunction(runtime, ops[2].as_string, exe, ops[0].as_int, ops[1].as_int, new_closure, heap, error);
+			if(func == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, func);
+		}
+
+		case OPCODE_PUSHLST:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
+
+			Object *obj = Object_NewList(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHMAP:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+
+			if (!checkCountOperand(ops[0].as_int, error))
+				return 0;
+
+			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
+			if(obj == NULL)
+				return 0;
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHNNETYP:
+		{
+			ASSERT(opc == 0);
+
+			Object *obj = (Object*) Object_GetNoneType();
+			ASSERT(obj != NULL);
+
+			return Runtime_Push(runtime, error, obj);
+		}
+
+		case OPCODE_PUSHTYP:
+		{
+			ASSERT(opc == 0);
+
+			Object *top = Runtime_Top(runtime, 0);
+			if (top == NULL) {
+				Error_Report(error, ErrorType_INTERNAL, "Frame has not enough values on the stack to run PUSHTYP instruction");
+				return 0;
+			}
+
+			Object *typ = (Object*) Object_GetType(top);
+			ASSERT(typ != NULL);
+			
+			return Runtime_Push(runtime, error, typ);
+		}
+
+		case OPCODE_EXIT:
+		{
+			ASSERT(opc == 0);
+			Object *vars = Runtime_GetLocals(runtime);
+			ASSERT(vars != NULL);
+			Runtime_Push(runtime, error, vars);
+			return 0;
+		}
+
+		case OPCODE_RETURN:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_INT);
+			int retc = ops[0].as_int;
+			UNUSED(retc);
+			ASSERT(retc >= 0);
+			ASSERT(retc <= MAX_RETS);
+			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
+			return 0;
+		}
+
+		case OPCODE_JUMP:
+		ASSERT(opc == 1);
+		ASSERT(ops[0].type == OPTP_IDX);
+		Runtime_SetInstructionIndex(runtime, ops[0].as_int);
+		return 1;
+
+		case OPCODE_JUMPIFANDPOP:
+		case OPCODE_JUMPIFNOTANDPOP:
+		{
+			ASSERT(opc == 1);
+			ASSERT(ops[0].type == OPTP_IDX);				
+			long long int target = ops[0].as_int;
+
+			Object *top;
+			if(!Runtime_Pop(runtime, error, &top, 1))
+				return 0;			
+
+			if(!Object_IsBool(top)) {
+				Error_Report(error, ErrorType_RUNTIME, "Not a boolean");
+				return 0;
+			}
+
+			if(( Object_GetBool(top) && opcode == OPCODE_JUMPIFANDPOP) 
+			|| (!Object_GetBool(top) && opcode == OPCODE_JUMPIFNOTANDPOP))
+				Runtime_SetInstructionIndex(runtime, target);
+			return 1;
+		}
+
+		default:
+		UNREACHABLE;
+		return 0;
+	}
+
+	return 1;
+}
+
+static bool runInstructionsUntilSomethingHappens(Runtime *runtime, Error *error)
+{
+	Heap *heap = Runtime_GetHeap(runtime);
+	RuntimeCallback callback = Runtime_GetCallback(runtime);
+
+	if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
+		Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+	else
+		while(runInstruction(runtime, error))
+		{
+			if(Runtime_WasInterrupted(runtime) || (callback.func != NULL && !callback.func(runtime, callback.data)))
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Forced abortion");
+				break;
+			}
+
+			if(Heap_GetUsagePercentage(heap) > 100)
+				if(!Runtime_CollectGarbage(runtime, error))
+					break;
+		}
+
+	// If an error occurred, we want to return NULL.
+	return !error->occurred;
+}
+
+static int runExecutableAtIndex(Runtime *runtime, Error *error,
+		    				    Executable *exe, int index,
+		    				    Object *closure,
+		    				    Object *rets[static MAX_RETS],
+						        Object *argv[], int argc)
+{
+	if (!Runtime_PushFrame(runtime, error, closure, exe, index))
+    	return -1;
+
+    for (int i = 0; i < argc; i++)
+    	if (!Runtime_Push(runtime, error, argv[i]))
+    		return -1;
+
+    if (!runInstructionsUntilSomethingHappens(runtime, error))
+    	return -1;
+
+    // Get return values
+    int retc = Runtime_GetFrameStackUsage(runtime);
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
+    	rets[i] = Runtime_Top(runtime, i-retc+1);
+
+    if (!Runtime_PopFrame(runtime))
+		return -1;
+
+	return retc;
+}
+
+int runSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	int error_offset = -1;
+	Executable *exe = compile(source, error, &error_offset);
+    if(exe == NULL) {
+    	Error suberror;
+    	Error_Init(&suberror);
+    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
+        Error_Free(&suberror);
+        Runtime_EndRun(runtime);
+        return -1;
+    }
+
+    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
+
+    Executable_Free(exe);
+    Runtime_EndRun(runtime);
+    return retc;
+}
+
+int runBytecodeSource(Runtime *runtime, Source *source, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	int error_offset = -1;
+	Executable *exe = assemble(source, error, &error_offset);
+    if(exe == NULL) {
+    	Error suberror;
+    	Error_Init(&suberror);
+    	Runtime_PushFailedFrame(runtime, &suberror, source, error_offset); // If this fails, there's nothing we can do
+    	Error_Free(&suberror);
+        Runtime_EndRun(runtime);
+        return -1;
+    }
+
+    int retc = runExecutableAtIndex(runtime, error, exe, 0, NULL, rets, NULL, 0);
+    
+    Executable_Free(exe);
+    Runtime_EndRun(runtime);
+    return retc;
+}
+
+int runFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	Source *source = Source_FromFile(file, error);
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
+		return -1;
+	}
+
+	int retc = runSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	Runtime_EndRun(runtime);
+	return retc;
+}
+
+int runStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	Source *source = Source_FromString(name, string, -1, error);
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
+		return -1;
+	}
+	
+	int retc = runSource(runtime, source, rets, error);
+	
+	Source_Free(source);
+	Runtime_EndRun(runtime);
+	return retc;
+}
+
+int runBytecodeFileEx(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	Source *source = Source_FromFile(file, error);
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
+		return -1;
+	}
+
+	int retc = runBytecodeSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	Runtime_EndRun(runtime);
+	return retc;
+}
+
+int runBytecodeStringEx(Runtime *runtime, const char *name, const char *string, Object *rets[static MAX_RETS], Error *error)
+{
+	Runtime_BeginRun(runtime);
+
+	Source *source = Source_FromString(name, string, -1, error);
+	if (source == NULL) {
+		Runtime_EndRun(runtime);
+		return -1;
+	}
+	
+	int retc = runBytecodeSource(runtime, source, rets, error);
+	
+	Source_Free(source);
+	Runtime_EndRun(runtime);
+	return retc;
+}
+
+bool runFile(Runtime *runtime, const char *file, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runFileEx(runtime, file, rets, error) >= 0;
+}
+
+bool runString(Runtime *runtime, const char *string, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
+}
+
+bool runBytecodeFile(Runtime *runtime, const char *file, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runBytecodeFileEx(runtime, file, rets, error) >= 0;
+}
+
+bool runBytecodeString(Runtime *runtime, const char *string, Error *error)
+{
+	Object *rets[MAX_RETS];
+	return runBytecodeStringEx(runtime, "(unnamed)", string, rets, error) >= 0;
+}
+
+static bool makePathRelativeToScript(Runtime *runtime, const char *src_path, char *dst_path, size_t dst_size)
+{
+	size_t src_size = strlen(src_path);
+
+	if(Path_IsAbsolute(src_path)) {
+		
+		if(src_size >= dst_size)
+			return false;
+		
+		strcpy(dst_path, src_path);
+	
+	} else {
+
+		size_t written = Runtime_GetCurrentScriptFolder(runtime, dst_path, dst_size);
+		if(written == 0)
+			return false;
+
+		if(written + src_size >= dst_size)
+			return false;
+
+		memcpy(dst_path + written, src_path, src_size);
+		dst_path[written + src_size] = '\0';
+	}
+
+	return true;
+}
+
+int runFileRelativeToScript(Runtime *runtime, const char *file, Object *rets[static MAX_RETS], Error *error)
+{
+	char full[1024];
+	if (!makePathRelativeToScript(runtime, file, full, sizeof(full))) {
+		Error_Report(error, ErrorType_INTERNAL, "Internal buffer is too small");
+		return -1;
+	}
+
+	Source *source = Source_FromFile(full, error);
+	if (source == NULL)
+		return -1;
+
+	int retc = runSource(runtime, source, rets, error);
+
+	Source_Free(source);
+	return retc;
+}
diff --git a/src/lib/timing.c b/src/lib/timing.c
index 0aa6cbc..15618c7 100644
--- a/src/lib/timing.c
+++ b/src/lib/timing.c
@@ -1,77 +1,77 @@
-#include <stdlib.h>
-#include <string.h>
-#include "timing.h"
-#include "utils/defs.h"
-
-struct TimingTable {
-	FunctionExecutionSummary *entries;
-	size_t size, used;
-};
-
-TimingTable *TimingTable_new()
-{
-	TimingTable *table = malloc(sizeof(TimingTable));
-	if (table == NULL)
-		return NULL;
-	table->entries = NULL;
-	table->size = 0;
-	table->used = 0;
-	return table;
-}
-
-void TimingTable_free(TimingTable *table)
-{
-	if (table != NULL) {
-		for(size_t i = 0; i < table->used; i++) {
-			free(table->entries[i].name);
-			Source_Free(table->entries[i].src);
-		}
-		free(table->entries);
-		free(table);
-	}
-}
-
-void TimingTable_sumCallTime(TimingTable *table, TimingID id, double time)
-{
-	if (id < 0 || id >= (int) table->used)
-		abort();
-	
-	table->entries[id].calls++;
-	table->entries[id].time += time;
-}
-
-TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, const char *name)
-{
-	if (table->size == table->used) {
-		
-		size_t new_size = 2 * table->size;
-		if (new_size == 0) new_size = 8;
-
-		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
-		if (temp == NULL)
-			return -1;
-		
-		table->entries = temp;
-		table->size = new_size;
-	}
-	
-	char *name2 = strdup(name);
-	if (name2 == NULL)
-		return -1;
-	
-	TimingID id = (int) table->used++;
-	table->entries[id].src = Source_Copy(src);
-	table->entries[id].line = line;
-	table->entries[id].name = name2;
-	table->entries[id].time = 0;
-	table->entries[id].calls = 0;
-	return id;
-}
-
-const FunctionExecutionSummary*
-TimingTable_getSummary(TimingTable *table, size_t *count)
-{
-	ASSERT(table != NULL && count != NULL);
-	*count = table->used;
-	return table->entries;
+#include <stdlib.h>
+#include <string.h>
+#include "timing.h"
+#include "utils/defs.h"
+
+struct TimingTable {
+	FunctionExecutionSummary *entries;
+	size_t size, used;
+};
+
+TimingTable *TimingTable_new()
+{
+	TimingTable *table = malloc(sizeof(TimingTable));
+	if (table == NULL)
+		return NULL;
+	table->entries = NULL;
+	table->size = 0;
+	table->used = 0;
+	return table;
+}
+
+void TimingTable_free(TimingTable *table)
+{
+	if (table != NULL) {
+		for(size_t i = 0; i < table->used; i++) {
+			free(table->entries[i].name);
+			Source_Free(table->entries[i].src);
+		}
+		free(table->entries);
+		free(table);
+	}
+}
+
+void TimingTable_sumCallTime(TimingTable *table, TimingID id, double time)
+{
+	if (id < 0 || id >= (int) table->used)
+		abort();
+	
+	table->entries[id].calls++;
+	table->entries[id].time += time;
+}
+
+TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, const char *name)
+{
+	if (table->size == table->used) {
+		
+		size_t new_size = 2 * table->size;
+		if (new_size == 0) new_size = 8;
+
+		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
+		if (temp == NULL)
+			return -1;
+		
+		table->entries = temp;
+		table->size = new_size;
+	}
+	
+	char *name2 = strdup(name);
+	if (name2 == NULL)
+		return -1;
+	
+	TimingID id = (int) table->used++;
+	table->entries[id].src = Source_Copy(src);
+	table->entries[id].line = line;
+	table->entries[id].name = name2;
+	table->entries[id].time = 0;
+	table->entries[id].calls = 0;
+	return id;
+}
+
+const FunctionExecutionSummary*
+TimingTable_getSummary(TimingTable *table, size_t *count)
+{
+	ASSERT(table != NULL && count != NULL);
+	*count = table->used;
+	return table->entries;
 }
\ No newline at end of file
-- 
2.43.0


From d6dc182f20f9d6797de80e06f21cae661e203484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:13 +0000
Subject: [PATCH 71/76] fix: reject concatenations whose length exceeds the
 range of an integer

---
 src/lib/builtins/string.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 768bad2..f43129b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -96,6 +97,12 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         
         size_t length;
         Object_GetString(argv[i], &length);
+
+        if(length > INT_MAX - total_count)
+        {
+            Error_Report(error, ErrorType_INTERNAL, "No memory");
+            return -1;
+        }
         total_count += length;
 
         // The Object_Count of a string doesn't match the
-- 
2.43.0


From 42100b6331db4d458ed1c43a4c465d53738e2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:13 +0000
Subject: [PATCH 72/76] fix: reject sources whose size exceeds the range of an
 integer

---
 src/lib/utils/source.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index e3c3d95..bfce53b 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -34,6 +34,7 @@
 #include <assert.h>
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include "source.h"
 #include "path.h"
@@ -124,15 +125,23 @@ Source *Source_FromFile(const char *file, Error *error)
 			return NULL;	
 		}
 
-		size = ftell(fp);
+		long end = ftell(fp);
 
-		if(size < 0)
+		if(end < 0)
 		{
 			Error_Report(error, ErrorType_INTERNAL, "Call to ftell failed (%s, errno = %d)", strerror(errno), errno);
 			fclose(fp);
 			return NULL;	
 		}
 
+		if(end >= INT_MAX)
+		{
+			Error_Report(error, ErrorType_INTERNAL, "File \"%s\" is too big", file);
+			fclose(fp);
+			return NULL;
+		}
+		size = end;
+
 		if(fseek(fp, 0, SEEK_SET))
 		{
 			Error_Report(error, ErrorType_INTERNAL, "Call to fseek failed (%s, errno = %d)", strerror(errno), errno);
@@ -189,7 +198,16 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	assert(body != NULL);
 
 	if(size < 0)
-		size = strlen(body);
+	{
+		size_t length = strlen(body);
+
+		if(length >= INT_MAX)
+		{
+			Error_Report(error, ErrorType_INTERNAL, "Source is too big");
+			return NULL;
+		}
+		size = length;
+	}
 
 	int namel = name ? strlen(name) : 0;
 
-- 
2.43.0


From 149637bb0e22f4951ec124e47795cf0750c01ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 73/76] fix: a long run of operator characters takes linear
 time to tokenize

---
 src/lib/compiler/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index e21b2b7..b3f4722 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -320,7 +320,8 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 		{
 			tok->offset = i;
 					
-			while(i < len && isoper(str[i]))
+			// No operator is longer than two characters.
+			while(i < len && i - tok->offset < 2 && isoper(str[i]))
 				i += 1;
 
 			int run = i - tok->offset;
-- 
2.43.0


From e8e96cbae8f13fc3c88e3a98d36d913ccd8be2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 74/76] fix: utf8_next stays within the string, surrogates have
 no UTF-8 sequence

---
 src/lib/utils/utf8.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 41e79c4..0bb1a6e 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -80,6 +80,9 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
 
     if(utf32_code < 65536)
     {
+        if(utf32_code >= 0xd800 && utf32_code <= 0xdfff)
+            return -1; // Surrogates aren't characters.
+
         if(nbytes < 3)
             return -1;
 
@@ -442,13 +445,13 @@ int utf8_prev(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 int utf8_next(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 {
     // Get the byte count of the current sequence.
-    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes, NULL);
+    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes - idx, NULL);
     
     if(n < 1)
         return -1;
 
     // Now get the codepoint of the next sequence.
-    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes, utf32_code);
+    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes - idx - n, utf32_code);
 
     if(k < 1)
         return -1;
-- 
2.43.0


From 43ee89b2c8d5cfa98e3a9bcbd48e35b05c98f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 75/76] fix: relative paths work when the current directory is
 the root

---
 src/lib/utils/path.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils/path.c b/src/lib/utils/path.c
index 5b4a995..5e0999f 100644
--- a/src/lib/utils/path.c
+++ b/src/lib/utils/path.c
@@ -19,12 +19,14 @@ const char *Path_MakeAbsolute(const char *path, char *buff, size_t buffsize)
         return NULL;
 
     size_t written = strlen(buff);
-    assert(buff[written-1] != '/');
 
-    if(written+1 >= buffsize)
-        return NULL; // No space for the / following the cwd.
+    if(buff[written-1] != '/') // Only the root ends with a slash.
+    {
+        if(written+1 >= buffsize)
+            return NULL; // No space for the / following the cwd.
 
-    buff[written++] = '/';
+        buff[written++] = '/';
+    }
 
     size_t n = strlen(path);
     if(written + n >= buffsize)
-- 
2.43.0


From 25a4f0d977c23df7fe29dc475c28d0ebed3d66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 76/76] fix: errors without a kind are told apart from syntax
 errors when printed

---
 src/lib/utils/error.c | 2 +-
 src/lib/utils/error.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..4d8a159 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -35,11 +35,11 @@
 #include <stdarg.h>
 
 typedef enum {
+	ErrorType_UNSPECIFIED = 0,
 	ErrorType_SYNTAX,
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
 	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0

