From 458ebc63b8590c8f7cfa16fc7703c9a9ef069455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 001/207] fix: fm::tree: copy construction shared (and
 double-freed) the nodes, self-assignment emptied the tree

---
 FCollada/FMath/FMTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..80da871 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor.
+			@param copy The tree to copy: both trees own their nodes. */
+		tree(const tree<KEY,DATA>& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			operator=(copy);
+		}
+
 		/** Destructor. */
 		~tree()
 		{
@@ -623,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return (*this);
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From ec5009f19b94e8ffeb2c45880cf7564efd95c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 002/207] fix: fm::vector::reserve never destroyed the elements
 that it moved

---
 FCollada/FMath/FMArray.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..e258d07 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -346,6 +346,14 @@ namespace fm
 				// Free the old buffer.
 				if (heapBuffer != NULL)
 				{
+					if constexpr (!std::is_trivially_copyable_v<T>)
+					{
+						// The elements were copied above: destroy the originals.
+						for (size_t i = 0; i < sized; ++i)
+						{
+							heapBuffer[i].~T();
+						}
+					}
 					fm::Release(heapBuffer);
 				}
 				heapBuffer = newValues;
-- 
2.43.0


From 3bd5d8b5f05d9fc964e8d89064d64f7cd98e7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 003/207] fix: fm::vector::insert and push_back of one of the
 vector's own elements read freed or moved memory

---
 FCollada/FMath/FMArray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index e258d07..fcdde52 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -381,9 +381,10 @@ namespace fm
 			@param it An iterator pointing to where to insert the item.
 			@param item The item to insert.
 			@return An iterator pointing to the inserted item within the list. */
-		iterator insert(iterator it, const T& item)
+		iterator insert(iterator it, const T& _item)
 		{
 			FUAssert(it >= begin() && it <= end(), return it);
+			const T item(_item); // the given item may belong to this list.
 			if (sized == reserved)
 			{
 				size_t offset = it - begin();
@@ -462,11 +463,12 @@ namespace fm
 			@param it An iterator pointing to where to insert the item.
 			@param count The number of times to insert the item.
 			@param item The item to insert. */
-		inline void insert(iterator it, size_t count, const T& item, bool noInit=false)
+		inline void insert(iterator it, size_t count, const T& _item, bool noInit=false)
 		{
 			if (count > 0)
 			{
 				FUAssert(it >= begin() && it <= end(), return);
+				const T item(_item); // the given item may belong to this list.
 				if (sized + count > reserved)
 				{
 					size_t offset = it - begin();
-- 
2.43.0


From bb7406e61d650a3e3e2683145ce4af1247cdfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 004/207] fix: fm::vector::erase of an empty range at the end
 asserted

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index fcdde52..c1bf83f 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -174,6 +174,7 @@ namespace fm
 			@param last An iterator past the last list value to remove. */
 		void erase(iterator first, iterator last)
 		{
+			if (first == last) return; // nothing to erase.
 			FUAssert(first >= begin() && first < end(), return);
 			FUAssert(last > begin() && last <= end(), return);
 			if constexpr (!std::is_trivially_copyable_v<T>)
-- 
2.43.0


From ae685acd7bf43ed44cb5a60e2ea0348e41293ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 005/207] fix: fm::pvector self-assignment emptied the list

---
 FCollada/FMath/FMArrayPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArrayPointer.h b/FCollada/FMath/FMArrayPointer.h
index 2551579..398babe 100644
--- a/FCollada/FMath/FMArrayPointer.h
+++ b/FCollada/FMath/FMArrayPointer.h
@@ -212,7 +212,7 @@ namespace fm
 			Overwrites the current data of the pointer array with the data of the given pointer array.
 			@param other The pointer array to copy.
 			@return The copied pointer array. */
-		pvector<T>& operator= (const pvector<T>& other) { clear(); insert(end(), other.begin(), other.end()); return *this; }
+		pvector<T>& operator= (const pvector<T>& other) { if (this == &other) return *this; clear(); insert(end(), other.begin(), other.end()); return *this; }
 
 		/** Resizes the pointer array to the given amount.
 			It is intentional that the default value is NULL.
-- 
2.43.0


From e6729de35ab2b46ffe95cb00cf7ac3abf3f4a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 006/207] fix: ToInt32/ToUInt32: a leading '+' gave zero, '\r'
 did not separate items

---
 FCollada/FUtils/FUStringConversion.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..3c374a3 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -38,6 +38,7 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 	int32 val = 0;
 	int32 sign = 1;
 	if (*s == '-') { ++s; sign = -1; }
+	else if (*s == '+') ++s;
 
 	while ((c = *s) != 0)
 	{
@@ -46,8 +47,8 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 		++s;
 	}
 	val *= sign;
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
@@ -139,6 +140,8 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 	CH c;
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
 
+	if (*s == '+') ++s;
+
 	uint32 val = 0;
 	while ((c = *s) != 0)
 	{
@@ -147,8 +150,8 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 		++s;
 	}
 
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
-- 
2.43.0


From 08a7d4743945c747273b28ab022c6a7d88551b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 007/207] fix: ToFloat: INF and NaN gave zero, 'I' at the end
 read past the text, a '+' sign gave zero, 0e99 gave NaN

---
 FCollada/FUtils/FUStringConversion.hpp | 35 ++++++++++++--------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 3c374a3..4cc4c34 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -68,9 +68,11 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	double val = 0.0;
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
-	float decimals = 0.0;
+	else if (*s == '+') ++s;
+	double decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
+	bool notANumber = false;
 	bool nonValidFound = false;
 	while ((c = *s) != 0 && !nonValidFound)
 	{
@@ -89,7 +91,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 		case '9': val = val * 10.0 + 9.0; decimals *= 10.0; break;
 		case 'e':
 		case 'E': ++s; exponent = ToInt32(&s); s -= 2; nonValidFound = true; break;
-		case 'I': infinity = true; [[fallthrough]];
+		case 'I': infinity = true; nonValidFound = true; --s; break;
+		case 'N': notANumber = true; [[fallthrough]];
 		default: nonValidFound = true; --s; break;
 		}
 		++s;
@@ -98,27 +101,21 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	float out = 0.0f;
 	if (infinity) // test for infinity
 	{
-		infinity = false;
-		c = *(s++);
-		if (c != 'I') infinity = false;
-		else
-		{
-			c = *(s++);
-			if (c != 'N') infinity = false;
-			else
-			{
-				c = *(s++);
-				if (c != 'F') infinity = false;
-				else out = std::numeric_limits<float>::infinity() * ((float) sign);
-			}
-		}
+		infinity = s[0] == 'I' && s[1] == 'N' && s[2] == 'F';
+		if (infinity) out = std::numeric_limits<float>::infinity() * ((float) sign);
+	}
+	else if (notANumber) // test for NaN
+	{
+		notANumber = s[0] == 'N' && s[1] == 'a' && s[2] == 'N';
+		if (notANumber) out = std::numeric_limits<float>::quiet_NaN();
 	}
-	if (!infinity)
+	if (!infinity && !notANumber)
 	{
 		// Generate the value
 		if (decimals == 0.0) decimals = 1.0;
-		out = (float) (val * sign / decimals);
-		if (exponent != 0) out *= powf(10.0f, (float) exponent);
+		val = val * sign / decimals;
+		if (exponent != 0 && val != 0.0) val *= pow(10.0, (double) exponent);
+		out = (float) val;
 	}
 
 	// Find next whitespaces and Skip end whitespaces
-- 
2.43.0


From ec59c1c0700c7aab0e456471d1247bde8b636788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 008/207] fix: a list text of white spaces only was parsed as
 one zero item

---
 FCollada/FUtils/FUStringConversion.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 4cc4c34..52117fa 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -302,6 +302,14 @@ FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 
 #ifdef HAS_VECTORTYPES
 
+// Skip the white spaces in front of the first item of a list: a text of white spaces only holds no item.
+template<class CH>
+static const CH* SkipWhiteSpaces(const CH* s)
+{
+	if (s != NULL) while (*s == ' ' || *s == '\t' || *s == '\r' || *s == '\n') ++s;
+	return s;
+}
+
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToBooleanList(const CH* value, BooleanList& array)
 {
@@ -330,6 +338,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInt32List(const CH* value, Int32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -349,6 +358,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToUInt32List(const CH* value, UInt32List& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -368,6 +378,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToFloatList(const CH* value, FloatList& array)
 {
 	size_t length = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		// Read in values within the already allocated space.
@@ -388,6 +399,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -437,6 +449,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 {
 	size_t stride = arrays.size();
 	size_t validCount = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
 		size_t length = arrays[0]->size();
@@ -486,6 +499,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToMatrixList(const CH* value, FMMatrix44List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -508,6 +522,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector2List(const CH* value, FMVector2List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -525,6 +540,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector3List(const CH* value, FMVector3List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
@@ -542,6 +558,7 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector4List(const CH* value, FMVector4List& array)
 {
 	size_t count = 0;
+	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0)
 	{
 		size_t length = array.size();
-- 
2.43.0


From 94f1e4fc44a485d43ac0e15197172917049e98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 009/207] fix: interleaved lists: a missing first array
 crashed, an incomplete last tuple kept stale values

---
 FCollada/FUtils/FUStringConversion.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 52117fa..de4136d 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -402,15 +402,22 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
-		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
+		// Any of the arrays may be missing.
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			if (arrays[i] != NULL) { length = arrays[i]->size(); break; }
+		}
+		for (size_t count = 0; count < length && *value != 0; ++count)
+		{
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				FloatList* array = arrays[i];
 				if (array != NULL) array->at(count) = ToFloat(&value);
 				else ToFloat(&value);
 			}
+			if (i == stride) ++validCount;
 		}
 
 		if (*value != 0)
@@ -452,15 +459,22 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	value = SkipWhiteSpaces(value);
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
-		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
+		// Any of the arrays may be missing.
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			if (arrays[i] != NULL) { length = arrays[i]->size(); break; }
+		}
+		for (size_t count = 0; count < length && *value != 0; ++count)
+		{
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				UInt32List* array = arrays[i];
 				if (array != NULL) array->at(count) = ToUInt32(&value);
 				else ToUInt32(&value);
 			}
+			if (i == stride) ++validCount;
 		}
 
 		if (*value != 0)
-- 
2.43.0


From 2e8bbe81c7b9f443a843f4452611fc6c3f77b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 010/207] fix: ToBoolean: white space in front of 'false' gave
 true

---
 FCollada/FUtils/FUStringConversion.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index de4136d..304e933 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -21,6 +21,7 @@
 template<class CH>
 FCOLLADA_EXPORT bool FUStringConversion::ToBoolean(const CH* value)
 {
+	if (value != NULL) while (*value == ' ' || *value == '\t' || *value == '\r' || *value == '\n') ++value;
 	return value != NULL && *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
 }
 
-- 
2.43.0


From 18bed265f1381d372c806b200f17f82b39363819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 011/207] fix: string lists: parsing into a filled list
 appended to its old strings

---
 FCollada/FUtils/FUStringConversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..64bcb4a 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fstring(word, s - word);
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fm::string(word, s - word);
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
-- 
2.43.0


From 0cd581d6ba5756d96cdf8fdd3156c0b2c917d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 012/207] fix: FUStringBuilder::append(uint64) wrote the low 32
 bits only

---
 FCollada/FUtils/FUStringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.cpp b/FCollada/FUtils/FUStringBuilder.cpp
index 8904f5e..b677004 100644
--- a/FCollada/FUtils/FUStringBuilder.cpp
+++ b/FCollada/FUtils/FUStringBuilder.cpp
@@ -41,7 +41,7 @@ template<> void FUStringBuilder::append(uint32 i)
 template<> void FUStringBuilder::append(uint64 i)
 {
 	fchar sz[128];
-	fsnprintf(sz, 128, FC("%u"), (unsigned int) i);
+	fsnprintf(sz, 128, FC("%llu"), (unsigned long long) i);
 	append(sz);
 }
 
@@ -68,7 +68,7 @@ template<> void FUSStringBuilder::append(uint32 i)
 template<> void FUSStringBuilder::append(uint64 i)
 {
 	char sz[128];
-	snprintf(sz, 128, "%u", (unsigned int) i);
+	snprintf(sz, 128, "%llu", (unsigned long long) i);
 	append(sz);
 }
 
-- 
2.43.0


From d159306fec605ed6dc46aeef1436f38aff0b8e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 013/207] fix: FUStringBuilder wrote NaN as 'nan', which no
 COLLADA reader knows

---
 FCollada/FUtils/FUStringBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 2a21779..a2c11c6 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -211,7 +211,7 @@ void FUStringBuilderT<Char>::append(float f)
 	// use <float.h> _isnan method to detect the 1.#IND00 NaN.
 	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN() && !_isnan((double)f))
 #else
-	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN())
+	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f == f)
 #endif
 	{
 		if (IsEquivalent(f, 0.0f, std::numeric_limits<float>::epsilon())) append((Char)'0');
@@ -237,7 +237,7 @@ void FUStringBuilderT<Char>::append(double f)
 	// use <float.h> _isnan method to detect the .#IND00 NaN.
 	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN() && !_isnan(f))
 #else
-	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN())
+	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f == f)
 #endif
 	{
 		if (IsEquivalent(f, 0.0, std::numeric_limits<double>::epsilon())) append((Char)'0');
-- 
2.43.0


From 03c6c7fd33fb3833a659c333a05f4ef1a0cab1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 014/207] fix: fm::string::find_first_of/find_last_of missed
 characters when given more than one candidate

---
 FCollada/FUtils/FUString.h | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index ed0bb4a..35d5809 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -366,15 +366,11 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_first_of(const CH* c, size_t offset=0) const
 		{
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 			{
-				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
-				{
-					d = c;
-					while (*d != 0 && *d != *it) { ++d; }
-					if (*d != 0) return it - Parent::begin();
-				}
+				const CH* d = c;
+				while (*d != 0 && *d != *it) { ++d; }
+				if (*d != 0) return it - Parent::begin();
 			}
 			return npos;
 		}
@@ -386,22 +382,11 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_last_of(const CH* c, size_t offset=0) const
 		{
-			size_t ret = length() - offset; // UNOPTIMIZE. Didn't feel like this is an important-enough function.
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			for (size_t i = length() > offset ? length() - offset + 1 : 1; i > 0; --i)
 			{
-				const CH* end = Parent::end() - (length + offset);
-				const CH* begin = Parent::begin();
-				for (const CH* it = end; it >= begin; --it)
-				{
-					d = c;
-					while (*d != 0)
-					{
-						if (*d == *it) return ret;
-						++d;
-					}
-					--ret;
-				}
+				const CH* d = c; const CH character = *(c_str() + i - 1);
+				while (*d != 0 && *d != character) { ++d; }
+				if (*d != 0) return i - 1;
 			}
 			return npos;
 		}
-- 
2.43.0


From 38613b055f49bf65ff89318b219be6599c2c00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 015/207] fix: fm::string::find/rfind never found a character
 of the upper half of the code page

---
 FCollada/FUtils/FUString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 35d5809..d41a12e 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -215,7 +215,7 @@ namespace fm
 				character was not matched within the given (sub)string. */
 		size_t find(const CH& character, size_t offset=0) const
 		{
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -290,7 +290,7 @@ namespace fm
 		size_t rfind(const CH& character, size_t offset=0) const
 		{
 			size_t ret = npos;
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
-- 
2.43.0


From d0cef3d4987b9910d0956bc8843f3ba8bf14609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 016/207] fix: fm::string built from zero characters had no
 terminator, appending to it wrote out of bounds

---
 FCollada/FUtils/FUString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index d41a12e..9449d24 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -68,7 +68,7 @@ namespace fm
 				Use stringT::npos for copying full NULL-terminated strings. */
 		stringT(const CH* c, size_t length) : Parent()
 		{
-			if (c == NULL || length == 0) return;
+			if (c == NULL || length == 0) { Parent::push_back((CH) 0); return; }
 
 			if (length != npos)
 			{
-- 
2.43.0


From 7a9383a065d20b105d1b8b28772b9afd437c42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 017/207] fix: fm::string::resize(count, value) left the old
 terminator in the middle of the text

---
 FCollada/FUtils/FUString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index 9449d24..4794346 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -430,7 +430,9 @@ namespace fm
 			@param value The value to assign to the new entries in the list. */
 		void resize(size_t count, const CH& value)
 		{
+			size_t oldLength = length();
 			Parent::resize(count + 1, value);
+			if (oldLength < count) *(Parent::begin() + oldLength) = value; // the old terminator.
 			Parent::back() = 0; // NULL-terminate
 		}
 	};
-- 
2.43.0


From dda6baf5d6e53d3a5d305fd659879e9defcdb6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 018/207] fix: FUStringBuilder: rindex never looked at the
 first character, index looked behind the last one

---
 FCollada/FUtils/FUStringBuilder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index a2c11c6..0223b03 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -339,7 +339,7 @@ int32 FUStringBuilderT<Char>::index(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		const Char* end = buffer + size + 1;
+		const Char* end = buffer + size;
 		for (const Char* p = buffer; p != end; ++p)
 		{
 			if (*p == c) return (int32)(p - buffer);
@@ -353,9 +353,9 @@ int32 FUStringBuilderT<Char>::rindex(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		for (const Char* p = buffer + size - 1; p != buffer; --p)
+		for (const Char* p = buffer + size; p != buffer; --p)
 		{
-			if (*p == c) return (int32)(p - buffer);
+			if (*(p - 1) == c) return (int32)(p - 1 - buffer);
 		}
 	}
 	return -1;
-- 
2.43.0


From fc980563fcc7e6ef7bb7f0b71051031111d9d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 019/207] fix: FUStringBuilder: copies and assigned builders
 shared (and double-freed) the buffer

---
 FCollada/FUtils/FUStringBuilder.h   |  5 +++++
 FCollada/FUtils/FUStringBuilder.hpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/FCollada/FUtils/FUStringBuilder.h b/FCollada/FUtils/FUStringBuilder.h
index b7be595..0d595a6 100644
--- a/FCollada/FUtils/FUStringBuilder.h
+++ b/FCollada/FUtils/FUStringBuilder.h
@@ -65,6 +65,10 @@ public:
 	/** Creates a new builder with an empty buffer. */
 	FUStringBuilderT();
 
+	/** Copy constructor. The new builder gets a buffer of its own.
+		@param b The builder to copy. */
+	FUStringBuilderT(const FUStringBuilderT& b);
+
 	/** Deletes the builder. Its buffer will be cleared.
 		Any pointers to its data will be dangling. */
 	~FUStringBuilderT();
@@ -191,6 +195,7 @@ public:
 		@param val A value. This may be numerical, a character, a character array or a string. */
 	template<typename TYPE> inline void set(const TYPE& val) { clear(); append(val); }
 	template<typename TYPE> inline FUStringBuilderT& operator=(const TYPE& val) { clear(); append(val); return *this; } /**< See above. */
+	inline FUStringBuilderT& operator=(const FUStringBuilderT& b) { if (this != &b) { clear(); append(b); } return *this; } /**< See above. */
 
 	/** Converts the content of the builder to a standard string.
 		@return A string with the content of the builder. */
diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 0223b03..e3a70fc 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -113,6 +113,16 @@ FUStringBuilderT<Char>::FUStringBuilderT()
 #endif
 }
 
+template <class Char>
+FUStringBuilderT<Char>::FUStringBuilderT(const FUStringBuilderT& b)
+{
+	this->buffer = NULL;
+	this->size = 0;
+	this->reserved = 0;
+	reserve(b.size + 32);
+	append(b);
+}
+
 template <class Char>
 FUStringBuilderT<Char>::~FUStringBuilderT()
 {
-- 
2.43.0


From b674c3889f5d817d6daa7a433c9023be6aa0522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 020/207] fix: XmlToString: a '%' without two hexadecimal
 digits behind it cut the text

---
 FCollada/FUtils/FUXmlParser.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 2080550..56dff77 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -19,6 +19,18 @@
 
 namespace FUXmlParser
 {
+	// Returns whether there are two hexadecimal digits, other than the string terminator '00', at the given position.
+	template <class CH>
+	static bool IsEscapedCharacter(const CH* s)
+	{
+		for (int32 i = 0; i < 2; ++i)
+		{
+			CH c = s[i];
+			if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) return false;
+		}
+		return s[0] != '0' || s[1] != '0';
+	}
+
 	// Convert a XML string to a text string: handles the '%' character
 	fm::string XmlToString(const char* s)
 	{
@@ -27,7 +39,7 @@ namespace FUXmlParser
 		char c;
 		while ((c = *s) != 0)
 		{
-			if (c != '%')
+			if (c != '%' || !IsEscapedCharacter(s + 1))
 			{
 				xmlSBuilder.append(c);
 				++s;
@@ -51,7 +63,7 @@ namespace FUXmlParser
 		fchar c;
 		while ((c = *s) != 0)
 		{
-			if (c != (fchar) '%')
+			if (c != (fchar) '%' || !IsEscapedCharacter(s + 1))
 			{
 				xmlBuilder.append(c);
 				++s;
-- 
2.43.0


From d5ecbdc07210e685678b4f7c0b9bdb60239526b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 021/207] fix: AddAttribute: control characters and invalid
 UTF-8 made the document unreadable

---
 FCollada/FUtils/FUXmlWriter.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUXmlWriter.cpp b/FCollada/FUtils/FUXmlWriter.cpp
index a8282ee..034f862 100644
--- a/FCollada/FUtils/FUXmlWriter.cpp
+++ b/FCollada/FUtils/FUXmlWriter.cpp
@@ -10,6 +10,7 @@
 #include "FUXmlWriter.h"
 #include "FUXmlParser.h"
 #include "FUStringConversion.h"
+#include <libxml/chvalid.h>
 
 #define xcT(text) (const xmlChar*) (text)
 
@@ -195,7 +196,30 @@ namespace FUXmlWriter
 	{
 		if (node != NULL)
 		{
-			xmlNewProp(node, xcT(attributeName), xcT(value));
+			if (value == NULL) { xmlNewProp(node, xcT(attributeName), NULL); return; }
+
+			// As for the contents, convert the bytes that a XML document cannot hold to %XX:
+			// control characters and invalid UTF-8 sequences.
+			FUSStringBuilder builder;
+			size_t left = strlen(value);
+			while (left > 0)
+			{
+				uint8 c = (uint8) *value;
+				int length = 1;
+				bool valid = c >= 0x20 || c == '\t' || c == '\n' || c == '\r';
+				if (c >= 0x80)
+				{
+					length = (left < 4) ? (int) left : 4;
+					int code = xmlGetUTF8Char((const unsigned char*) value, &length);
+					valid = c >= 0xC2 && code >= (length == 2 ? 0x80 : length == 3 ? 0x800 : 0x10000) && xmlIsCharQ(code);
+					if (!valid) length = 1;
+				}
+				if (valid) builder.append(value, (size_t) length);
+				else { builder.append((char) '%'); builder.appendHex(c); }
+				value += length;
+				left -= (size_t) length;
+			}
+			xmlNewProp(node, xcT(attributeName), xcT(builder.ToCharPtr()));
 		}
 	}
 
-- 
2.43.0


From e48f310749c2143f980707869465a0579a9fb63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 022/207] fix: extra attributes were read without resolving the
 escapes that AddAttribute and the other readers know

---
 FColladaPlugins/FArchiveXML/FAXEntityImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
index 020990d..94b79f8 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
@@ -63,7 +63,7 @@ bool FArchiveXML::LoadExtraNode(FCDObject* object, xmlNode* customNode)
 	// Read in the node's attributes
 	for (xmlAttr* a = customNode->properties; a != NULL; a = a->next)
 	{
-		fcdenode->AddAttribute((const char*) a->name, (a->children != NULL) ? TO_FSTRING((const char*) (a->children->content)) : FS(""));
+		fcdenode->AddAttribute((const char*) a->name, TO_FSTRING(ReadNodeProperty(customNode, (const char*) a->name)));
 	}
 
 	fcdenode->SetDirtyFlag();
-- 
2.43.0


From c0fb0758a09c450e3ac87fbb4a4892b7d53c4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 023/207] fix: FUUri: a ':' in the path, query or fragment was
 taken for the scheme delimiter

---
 FCollada/FUtils/FUUri.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 69d8b04..04e46ef 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -50,6 +50,14 @@ FUUri::FUUri(const fstring& uri, bool escape)
 
 	// Find the scheme from its ':' delimiter
 	size_t schemeDelimiterIndex = _uri.find(FC(':'));
+	// A ':' behind the start of the path, query or fragment does not end a scheme.
+	if (schemeDelimiterIndex != fstring::npos)
+	{
+		for (size_t i = 0; i < schemeDelimiterIndex; ++i)
+		{
+			if (_uri[i] == '/' || _uri[i] == '?' || _uri[i] == '#') { schemeDelimiterIndex = fstring::npos; break; }
+		}
+	}
 	size_t hostIndex = 0;
 
 	if (schemeDelimiterIndex != fstring::npos && schemeDelimiterIndex > 1)
-- 
2.43.0


From fce5717fe60974016979b19e670d98a197bd2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 024/207] fix: FUUri: a query or fragment directly behind the
 host became part of the host name

---
 FCollada/FUtils/FUUri.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 04e46ef..cc85778 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -142,10 +142,9 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	size_t hostDelimiterIndex = 0;
 	if (scheme != FUUri::NONE)
 	{
-		hostDelimiterIndex = _uri.find(FC('/'), hostIndex);
-
+		hostDelimiterIndex = min(hostIndex, _uri.length());
 		// If we have a URI, then the first peice is always the host.
-		if (hostDelimiterIndex == fstring::npos) hostDelimiterIndex = _uri.length();
+		while (hostDelimiterIndex < _uri.length() && _uri[hostDelimiterIndex] != '/' && _uri[hostDelimiterIndex] != '?' && _uri[hostDelimiterIndex] != '#') ++hostDelimiterIndex;
 
 		if (hostDelimiterIndex > hostIndex)
 		{
-- 
2.43.0


From d4fd20aa6f3f4e3c3abbd5dc6dcfb9d1f3b008b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 025/207] fix: FUUri: the query included the '#', and a '?' in
 the fragment started a query

---
 FCollada/FUtils/FUUri.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index cc85778..35d749c 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -194,8 +194,8 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	// Find the path
 	size_t queryDelimiter = _uri.find(FC('?'));
 	size_t fragmentDelimiter = _uri.find(FC('#'));
-
-	if (queryDelimiter != fstring::npos) query = _uri.substr(queryDelimiter + 1, fragmentDelimiter - queryDelimiter);
+	if (fragmentDelimiter != fstring::npos && queryDelimiter != fstring::npos && queryDelimiter > fragmentDelimiter) queryDelimiter = fstring::npos; // part of the fragment
+	if (queryDelimiter != fstring::npos) query = _uri.substr(queryDelimiter + 1, fragmentDelimiter != fstring::npos ? fragmentDelimiter - queryDelimiter - 1 : fstring::npos);
 	if (fragmentDelimiter != fstring::npos) fragment = _uri.substr(fragmentDelimiter + 1);
 
 	if (queryDelimiter == fstring::npos && fragmentDelimiter == fstring::npos)
-- 
2.43.0


From c6840b8e692bbd86a58dd0fbfa05bda31360b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 026/207] fix: FUUri: '/' was appended to every folder and
 one-letter path, and '#id' named the root folder instead of the base

---
 FCollada/FUtils/FUUri.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 35d749c..fa5aece 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -214,7 +214,7 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	if (path.size() > 1 && path[1] == '|') path[1] = ':';
 	else if (path.size() > 2 && path[2] == '|') path[2] = ':';
 
-	if (!IsFile())
+	if (path.empty() && scheme != FUUri::NONE)
 	{
 		path.append(FC("/"));
 	}
@@ -586,16 +586,24 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 		}
 	}
 
-	if (scheme == HTTP)
+	else
 	{
 		// path is already absolute.
-		if (filePath[0] == '/')
+		if (!filePath.empty() && filePath[0] == '/')
 		{
 			return;
 		}
 	}
 
 
+	// Only a query or fragment: the reference is to this very path
+	if (filePath.empty())
+	{
+		uri.path = path;
+		if (uri.query.empty()) uri.query = query;
+		return;
+	}
+
 	// Relative file path
 	FStringList documentPaths, localPaths;
 	ExtractPathStack(path, documentPaths, false);
@@ -635,7 +643,7 @@ FUUri FUUri::Resolve(const fstring& relativePath) const
 
 bool FUUri::IsFile() const
 {
-	return path.length() > 1 && path.back() != '/';
+	return !path.empty() && path.back() != '/';
 }
 
 bool FUUri::IsAlpha(fchar fc)
-- 
2.43.0


From d7511b1ce040a615a8fc7523e801ffcc8be4b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 027/207] fix: FUUri::MakeAbsolute: the path of a folder lost
 its slash, so that it named a file

---
 FCollada/FUtils/FUUri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index fa5aece..8b478e4 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -632,6 +632,9 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 		outPath.append(*it);
 	}
 
+	// The path of a folder ends with a slash
+	fstring last = localPaths.empty() ? fstring() : localPaths.back();
+	if (filePath.back() == '/' || last == FC(".") || last == FC("..")) outPath.append(FC('/'));
 	uri.path = outPath;
 }
 
-- 
2.43.0


From 8413960af7c04ce475428c7713a85c44f4e9bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 028/207] fix: FUUri: the constructors from parts left the
 scheme delimiter empty

---
 FCollada/FUtils/FUUri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 8b478e4..3318bfc 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -222,6 +222,7 @@ FUUri::FUUri(const fstring& uri, bool escape)
 
 FUUri::FUUri(Scheme _scheme, const fstring& _user, const fstring& _passwd, const fstring& _host, uint32 _port, const fstring& _path, const fstring& _query, const fstring& _fragment)
 	:	scheme(_scheme),
+		schemeDelimiter(_scheme != FUUri::NONE ? FC("://") : FC("")),
 		username(_user),
 		password(_passwd),
 		hostname(_host),
@@ -236,6 +237,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _user, const fstring& _passwd, const
 
 FUUri::FUUri(Scheme _scheme, const fstring& _host, const fstring& _path, const fstring& _fragment)
 	:	scheme(_scheme),
+		schemeDelimiter(_scheme != FUUri::NONE ? FC("://") : FC("")),
 		hostname(_host),
 		port(0),
 		path(_path),
@@ -247,6 +249,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _host, const fstring& _path, const f
 
 FUUri::FUUri(const fstring& _path, const fstring& _fragment)
 	:	scheme(FUUri::FILE),
+		schemeDelimiter(FC("://")),
 		port(0),
 		path(_path),
 		fragment(_fragment)
-- 
2.43.0


From d80f7a8bb2640020ef802164b8d8bab071a4b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 029/207] fix: FUUri::MakeRelative: crash without common
 folders, and wrong results across schemes, ports and root folders

---
 FCollada/FUtils/FUUri.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 3318bfc..4bab601 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -455,11 +455,10 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		// First ensure that we have an absolute file path
 		filePath = MakeAbsolute(filePath);
 		FUUri uri(filePath);
-		uri.scheme = GetScheme();
-
 		filePath = uri.GetPath();
 
-		if (!IsEquivalent(GetHostname(), uri.GetHostname()))
+		bool sameScheme = uri.GetScheme() == GetScheme() || uri.GetScheme() == FUUri::FILE;
+		if (!sameScheme || !IsEquivalent(GetHostname(), uri.GetHostname()) || GetPort() != uri.GetPort())
 		{
 			// If it's not the same host so we use the absolute path
 			return _path;
@@ -470,9 +469,10 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		ExtractPathStack(path, documentPaths, false);
 		ExtractPathStack(filePath, localPaths, true);
 
+		if (localPaths.empty()) return _path;
 		if (GetHostname().empty() && GetScheme() == uri.GetScheme() && GetScheme() == FUUri::FILE)
 		{
-			if (!IsEquivalent(documentPaths.front(), localPaths.front()))
+			if (documentPaths.empty() || !IsEquivalent(documentPaths.front(), localPaths.front()))
 			{
 				// We're not on the same drive, return absolute path
 				return _path;
@@ -529,8 +529,14 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 				relativePath += localPaths[i] + FC("/");
 			}
 
+			if (filePath.back() == '/') filename += FC("/");
 			filePath = relativePath + filename;
 		}
+		else
+		{
+			// Nothing in common: only the absolute path names the file.
+			return _path;
+		}
 	}
 
 	filePath.replace(UNWANTED_FOLDER_CHAR, FOLDER_CHAR);
-- 
2.43.0


From f38b21f1106bb9152987c233efca80e454f50a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 030/207] fix: FUUri: escaping kept the character and appended
 its decimal code

---
 FCollada/FUtils/FUUri.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 4bab601..512b42e 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -699,25 +699,27 @@ fstring FUUri::Escape(const fstring& path)
 		{
 			// Character it not escaped
 			escaped.push_back(*it);
+			continue;
 		}
-
 		if ((*it) == '%')
 		{
 			// Check if it is followed by an hex character
 			fstring::const_iterator itNext = it;
 			itNext++;
 
-			if (IsHex(*itNext))
+			if (itNext != path.end() && IsHex(*itNext))
 			{
 				// Character it not escaped
 				escaped.push_back(*it);
+				continue;
 			}
 		}
 
 		// Escape current character
-		fstring _escaped = TO_FSTRING(FUStringConversion::ToString(int(*it)));
+		static const char hexDigits[] = "0123456789ABCDEF";
 		escaped.push_back(FC('%'));
-		escaped.append(_escaped.c_str());
+		escaped.push_back((fchar) hexDigits[((uint8) *it) >> 4]);
+		escaped.push_back((fchar) hexDigits[((uint8) *it) & 0xF]);
 	}
 
 	return escaped;
-- 
2.43.0


From e91c1b836fb4c8df8f27b7bcec87fb909065d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 031/207] fix: FUFileManager: the folder and extension of long
 paths were cut off

---
 FCollada/FUtils/FUFileManager.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index 3e3955b..045def6 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -255,22 +255,20 @@ bool FUFileManager::FileExists(const fstring& filename)
 // Strip a full filename of its filename, returning the path
 fstring FUFileManager::StripFileFromPath(const fstring& filename)
 {
-	fchar fullPath[MAX_PATH + 1];
-	fstrncpy(fullPath, filename.c_str(), MAX_PATH);
-	fullPath[MAX_PATH] = 0;
-	fchar* lastSlash = fstrrchr(fullPath, FC('/'));
-	fchar* lastBackslash = fstrrchr(fullPath, FC('\\'));
+	const fchar* fullPath = filename.c_str();
+	const fchar* lastSlash = fstrrchr(fullPath, FC('/'));
+	const fchar* lastBackslash = fstrrchr(fullPath, FC('\\'));
 	lastSlash = max(lastSlash, lastBackslash);
-	if (lastSlash != NULL) *(lastSlash + 1) = 0;
-	return fstring(fullPath);
+	if (lastSlash != NULL) return fstring(fullPath, lastSlash + 1 - fullPath);
+	return filename;
 }
 
 // Extract the file extension out of a filename
 fstring FUFileManager::GetFileExtension(const fstring& _filename)
 {
-	fchar filename[MAX_PATH];
-	fstrncpy(filename, _filename.c_str(), MAX_PATH);
-	filename[MAX_PATH - 1] = 0;
+	fstring copy = _filename.c_str();
+	if (copy.empty()) return emptyFString;
+	fchar* filename = &copy[0];
 
 	fchar* lastPeriod = fstrrchr(filename, '.');
 	if (lastPeriod == NULL) return emptyFString;
-- 
2.43.0


From 35fce15ddf9cfb1a562f8273ad6ab850ce4776be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 032/207] fix: FUFileManager::GetApplicationFolderName: the
 text of the link was not terminated

---
 FCollada/FUtils/FUFileManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index 045def6..f1f193b 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -391,7 +391,7 @@ fstring FUFileManager::GetApplicationFolderName()
 		}
 		else
 		{
-			path[max((size_t)1023u, size)] = '\0';
+			path[min((size_t)1023u, size)] = '\0';
 			int i = stat (path, &stat_buf);
 			if (i == -1) break;
 			else if (!S_ISLNK(stat_buf.st_mode)) break;
-- 
2.43.0


From 184d5fa38d55687a2702681bf9ed8a62d2136a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 033/207] fix: FUUri::MakeRelative: a path without common
 folders lost its host

---
 FCollada/FUtils/FUUri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 512b42e..2deab0a 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -535,7 +535,7 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		else
 		{
 			// Nothing in common: only the absolute path names the file.
-			return _path;
+			filePath = _path;
 		}
 	}
 
-- 
2.43.0


From e5ca8e4fc4fec7dba377eb8ac3ba53fcb9d8bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 034/207] fix: FUUri::Escape: the escaped text was not
 terminated and began with its terminator

---
 FCollada/FUtils/FUUri.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 2deab0a..240eeee 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -693,33 +693,30 @@ fstring FUUri::Escape(const fstring& path)
 {
 	fstring escaped;
 
-	for (fstring::const_iterator it = path.begin(); it != path.end(); ++it)
+	for (const fchar* it = path.c_str(); *it != 0; ++it)
 	{
 		if (IsAlphaNumeric(*it) || IsMark(*it) || IsReserved(*it))
 		{
 			// Character it not escaped
-			escaped.push_back(*it);
+			escaped.append(*it);
 			continue;
 		}
 		if ((*it) == '%')
 		{
 			// Check if it is followed by an hex character
-			fstring::const_iterator itNext = it;
-			itNext++;
-
-			if (itNext != path.end() && IsHex(*itNext))
+			if (IsHex(it[1]))
 			{
 				// Character it not escaped
-				escaped.push_back(*it);
+				escaped.append(*it);
 				continue;
 			}
 		}
 
 		// Escape current character
 		static const char hexDigits[] = "0123456789ABCDEF";
-		escaped.push_back(FC('%'));
-		escaped.push_back((fchar) hexDigits[((uint8) *it) >> 4]);
-		escaped.push_back((fchar) hexDigits[((uint8) *it) & 0xF]);
+		escaped.append(FC('%'));
+		escaped.append((fchar) hexDigits[((uint8) *it) >> 4]);
+		escaped.append((fchar) hexDigits[((uint8) *it) & 0xF]);
 	}
 
 	return escaped;
-- 
2.43.0


From 79933cd6f0cbd193a952457a4a28afbc20b02f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 035/207] fix: FMMatrix44::Recompose multiplied the rotations
 in the opposite order of Decompose

---
 FCollada/FMath/FMMatrix44.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..9d8dd76 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -170,8 +170,8 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 void FMMatrix44::Recompose(const FMVector3& scale, const FMVector3& rotation, const FMVector3& translation, float inverted)
 {
-	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
-		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
 		* FMMatrix44::ScaleMatrix(inverted * scale);
 }
 
-- 
2.43.0


From b2e5a953128ffdb9a0d3b13112b66374170f56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 036/207] fix: FMMatrix44::LookAtMatrix was singular when
 looking along a scaled or oblique up direction or along -X

---
 FCollada/FMath/FMMatrix44.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 9d8dd76..13511cd 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -395,17 +395,16 @@ FMMatrix44 FMMatrix44::LookAtMatrix(const FMVector3& eye, const FMVector3& targe
 
 	FMVector3 forward = (target - eye).Normalize();
 	FMVector3 sideways, upward;
-	if (!IsEquivalent(forward, up) && !IsEquivalent(forward, -up))
+	FMVector3 normalizedUp = up.Normalize();
+	if (!IsEquivalent(forward, normalizedUp) && !IsEquivalent(forward, -normalizedUp))
 	{
-		sideways = (forward ^ up).Normalize();
-	}
-	else if (!IsEquivalent(up, FMVector3::XAxis))
-	{
-		sideways = FMVector3::XAxis;
+		sideways = (forward ^ normalizedUp).Normalize();
 	}
 	else
 	{
-		sideways = FMVector3::ZAxis;
+		// Any direction that is perpendicular to the line of sight will do.
+		sideways = (fabsf(forward.x) < 0.9f) ? FMVector3::XAxis : FMVector3::ZAxis;
+		sideways = (sideways - forward * (sideways * forward)).Normalize();
 	}
 	upward = (sideways ^ forward);
 
-- 
2.43.0


From 524602b319cbad32aadba40d5ca01e1e16ac0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 037/207] fix: FMQuaternion::ToEuler: wrong X angle, and wrong
 sign at the south pole

---
 FCollada/FMath/FMQuaternion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..f99f485 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -156,14 +156,14 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
-- 
2.43.0


From c0250b17c4066cde2d77d74fa5466c249f38aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 038/207] fix: FMQuaternion::slerp took the long way, divided
 by zero for opposite quaternions and never arrived for close ones

---
 FCollada/FMath/FMQuaternion.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index f99f485..f093e33 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -96,20 +96,31 @@ FMVector3 FMQuaternion::operator*(const FMVector3& v) const
 FMQuaternion FMQuaternion::slerp(const FMQuaternion& other, float t) const
 {
 	float theta, st, sut, sout, interp1, interp2;
+	float sign = 1.0f;
 	float dot = x * other.x + y * other.y + z * other.z +
 				w * other.w;
 
-	if (IsEquivalent(dot, 1.0f)) return *this;
+	// q and -q are the same rotation: take the shorter way
+	if (dot < 0.0f) { dot = -dot; sign = -1.0f; }
 
-	// algorithm taken from Shoemake's paper
-	theta = (float) acos(dot);
-	theta = theta < 0.0 ? -theta : theta;
-
-	st = (float) sin(theta);
-	sut = (float) sin(t*theta);
-	sout = (float) sin((1-t)*theta);
-	interp1 = sout/st;
-	interp2 = sut/st;
+	if (IsEquivalent(dot, 1.0f))
+	{
+		interp1 = 1.0f - t;
+		interp2 = t;
+	}
+	else
+	{
+		// algorithm taken from Shoemake's paper
+		theta = (float) acos(dot);
+		theta = theta < 0.0 ? -theta : theta;
+
+		st = (float) sin(theta);
+		sut = (float) sin(t*theta);
+		sout = (float) sin((1-t)*theta);
+		interp1 = sout/st;
+		interp2 = sut/st;
+	}
+	interp2 *= sign;
 
 	FMQuaternion result;
 	result.x = interp1*x + interp2*other.x;
-- 
2.43.0


From 9321338dd390bea0ff732f77bda8e07ccdb236e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 039/207] fix: FMQuaternion::ToAngleAxis: NaN when rounding
 made the scalar part greater than one

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index f093e33..2b0099c 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -134,7 +134,7 @@ FMQuaternion FMQuaternion::slerp(const FMQuaternion& other, float t) const
 
 void FMQuaternion::ToAngleAxis(FMVector3& axis, float& angle) const
 {
-	angle = 2.0f * acosf(w);
+	angle = 2.0f * acosf(FMath::Clamp(w, -1.0f, 1.0f));
 	float s = sinf(angle / 2.0f);
 	if (!IsEquivalent(s, 0.0f))
 	{
-- 
2.43.0


From 64743aa6dcaa494c10e2e2f8fc03fdf194e5ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 040/207] fix: FMQuaternion::MatrixRotationQuaternion divided
 by a vanishing component for half turns around Z

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 2b0099c..09de188 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -256,7 +256,7 @@ FMQuaternion FMQuaternion::MatrixRotationQuaternion(const FMMatrix44& mat)
 		q.z = (mat[0][1] - mat[1][0]) / s;
 		q.w = s * 0.25f;
 	}
-	else if (mat[0][0] > mat[1][1])
+	else if (mat[0][0] > mat[1][1] && mat[0][0] > mat[2][2])
 	{
 		s = sqrtf(1.0f + mat[0][0] - mat[1][1] - mat[2][2]) * 2.0f;
 		q.x = 0.25f * s;
-- 
2.43.0


From 32c44883b86fe954ec96bb168cdccff56c4237de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 041/207] fix: FMMatrix33::Inverted gave wrong results for
 small, but invertible matrices

---
 FCollada/FMath/FMMatrix33.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMMatrix33.cpp b/FCollada/FMath/FMMatrix33.cpp
index 3a03f4b..ad8c1ea 100644
--- a/FCollada/FMath/FMMatrix33.cpp
+++ b/FCollada/FMath/FMMatrix33.cpp
@@ -95,7 +95,7 @@ FMMatrix33 FMMatrix33::Inverted() const
 	float det = (m[0][0] * b.m[0][0]) + (m[1][0] * b.m[0][1]) + (m[2][0] * b.m[0][2]);
 
 	// We should consider throwing an exception if det < eps.
-	if (IsEquivalent(det, 0.0f)) det = 0.01f;
+	if (fabsf(det) <= std::numeric_limits<float>::min()) det = 0.01f;
 	float oodet = 1.0f / det;
 
 	b.m[0][0] *= oodet;
-- 
2.43.0


From 9fd0999b2d9c77fa2bf040e3499f82c93d0f9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 042/207] fix: FMVector4: the hue of grey was NaN, and a hue of
 one was not red

---
 FCollada/FMath/FMVector3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FMath/FMVector3.cpp b/FCollada/FMath/FMVector3.cpp
index 4ab59c3..8f1345e 100644
--- a/FCollada/FMath/FMVector3.cpp
+++ b/FCollada/FMath/FMVector3.cpp
@@ -63,7 +63,7 @@ FMVector4 FMVector4::FromHSVColor(float hue, float saturation, float value)
 	// Written by Nan C. Schaller, Rochester Institute of Technology, Computer Science Department
 	if (!IsEquivalent(saturation, 0.0f))
 	{
-		hue *= 6.0f;						// sector 0 to 5
+		hue = (hue - floorf(hue)) * 6.0f;	// sector 0 to 5
 		float sector = floor(hue);
 		float f = hue - sector;				// factorial part of h
 		float p = value * (1.0f - saturation);
@@ -94,7 +94,7 @@ FMVector3 FMVector4::ToHSVColor()
 	float largest = max(max(x, y), z);
 	hsv.z = largest;				// v
 	float delta = largest - smallest;
-	if (!IsEquivalent(largest, 0.0f))
+	if (!IsEquivalent(largest, 0.0f) && !IsEquivalent(delta, 0.0f))
 	{
 		hsv.y = delta / largest;	// s
 		if (IsEquivalent(x, largest))			hsv.x = (y-z) / delta;			// between yellow & magenta
@@ -103,6 +103,6 @@ FMVector3 FMVector4::ToHSVColor()
 		hsv.x /= 6.0f;				// convert to [0,1]
 		if (hsv.x < 0.0f) hsv.x += 1.0f;
 	}
-	else hsv.x = hsv.y = 0; // black
+	else hsv.x = hsv.y = 0; // black or grey
 	return hsv;
 }
-- 
2.43.0


From b675a2d9883ca97dfc89a70bd6b101bcb0c288cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 043/207] fix: FMQuaternion::MatrixRotationQuaternion lost
 precision for rotations close to a half turn

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 09de188..7d311d4 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -248,7 +248,7 @@ FMQuaternion FMQuaternion::MatrixRotationQuaternion(const FMMatrix44& mat)
 	float tr,s;
 
 	tr = 1.0f + mat[0][0] + mat[1][1] + mat[2][2];
-	if (tr > 0.00001f)
+	if (tr > 1.0f) // otherwise, w is not well conditioned
 	{
 		s = sqrtf(tr) * 2.0f;
 		q.x = (mat[1][2] - mat[2][1]) / s;
-- 
2.43.0


From e437830343465cf6e1a9b12ce58df26e2c9dabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 044/207] fix: FUBoundingBox::Include left the maximum unset
 when an empty box received its first point

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From daf957dfd149c584982c54c9465d9dd0e6c86066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 045/207] fix: FUBoundingBox::Overlaps: an empty box overlapped
 the infinite one

---
 FCollada/FUtils/FUBoundingBox.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 6326ab4..604233c 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -69,7 +69,8 @@ bool FUBoundingBox::Contains(const FMVector3& point) const
 
 bool FUBoundingBox::Overlaps(const FUBoundingBox& boundingBox, FMVector3* overlapCenter) const
 {
-	bool overlaps = minimum.x <= boundingBox.maximum.x && boundingBox.minimum.x <= maximum.x
+	bool overlaps = IsValid() && boundingBox.IsValid()
+		&& minimum.x <= boundingBox.maximum.x && boundingBox.minimum.x <= maximum.x
 		&& minimum.y <= boundingBox.maximum.y && boundingBox.minimum.y <= maximum.y
 		&& minimum.z <= boundingBox.maximum.z && boundingBox.minimum.z <= maximum.z;
 	if (overlaps && overlapCenter != NULL)
-- 
2.43.0


From 8eb59896d87c9fc17dab9e5ace4436845a50c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 046/207] fix: FUBoundingSphere::Overlaps: empty spheres
 overlapped others, spheres of zero radius overlapped nothing

---
 FCollada/FUtils/FUBoundingSphere.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..80a4b4a 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -69,11 +69,11 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 
 bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector3* overlapCenter) const
 {
-	if (radius >= 0.0f)
+	if (radius >= 0.0f && boundingSphere.radius >= 0.0f)
 	{
 		FMVector3 centerToCenter = center - boundingSphere.center;
 		float distanceSquared = centerToCenter.LengthSquared();
-		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
+		bool overlaps = distanceSquared <= (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			float distance = sqrtf(distanceSquared);
@@ -101,7 +101,7 @@ bool FUBoundingSphere::Overlaps(const FUBoundingBox& boundingBox, FMVector3* ove
 		if (center.z > boundingBox.GetMax().z) rz = boundingBox.GetMax().z - center.z;
 		else if (center.z > boundingBox.GetMin().z) rz = 0.0f;
 		else rz = boundingBox.GetMin().z - center.z;
-		bool overlaps = (rx * rx + ry * ry + rz * rz) < (radius * radius);
+		bool overlaps = (rx * rx + ry * ry + rz * rz) <= (radius * radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			(*overlapCenter) = center + FMVector3(rx, ry, rz);
-- 
2.43.0


From eb66182846665d38050e027a122ae9148074771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 047/207] fix: FUBoundingSphere::Overlaps returned an overlap
 center on the wrong side, or NaN for concentric spheres

---
 FCollada/FUtils/FUBoundingSphere.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index 80a4b4a..18c5f86 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -77,10 +77,11 @@ bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector
 		if (overlaps && overlapCenter != NULL)
 		{
 			float distance = sqrtf(distanceSquared);
-			float overlapDistance = (radius + boundingSphere.radius) - distance;
-			float smallerRadius = min(radius, boundingSphere.radius);
-			overlapDistance = min(2.0f * smallerRadius, overlapDistance);
-			(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			// Middle of the common interval on the line through both centers, from this center.
+			float overlapStart = max(-radius, distance - boundingSphere.radius);
+			float overlapEnd = min(radius, distance + boundingSphere.radius);
+			(*overlapCenter) = center;
+			if (distance > 0.0f) (*overlapCenter) -= centerToCenter / distance * ((overlapStart + overlapEnd) / 2.0f);
 		}
 		return overlaps;
 	}
-- 
2.43.0


From 3928056ebecbbc6d269a8ab52845ed0a52fcceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 048/207] fix: FUBoundingSphere::Include did not contain the
 included sphere, and included empty volumes

---
 FCollada/FUtils/FUBoundingSphere.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index 18c5f86..acad29f 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -131,13 +131,20 @@ void FUBoundingSphere::Include(const FMVector3& point)
 
 void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 {
+	if (!boundingSphere.IsValid()) return;
 	if (radius >= 0.0f)
 	{
 		float distance = (center - boundingSphere.center).Length();
-		if (distance + boundingSphere.radius > radius)
+		if (distance + radius <= boundingSphere.radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center = boundingSphere.center;
+			radius = boundingSphere.radius;
+		}
+		else if (distance + boundingSphere.radius > radius)
+		{
+			float newRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center += (boundingSphere.center - center) * ((newRadius - radius) / distance);
+			radius = newRadius;
 		}
 	}
 	else
@@ -149,6 +156,7 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 
 void FUBoundingSphere::Include(const FUBoundingBox& boundingBox)
 {
+	if (!boundingBox.IsValid()) return;
 	if (radius >= 0.0f)
 	{
 		FUBOUNDINGBOX_COORDINATES(coordinates, boundingBox);
-- 
2.43.0


From 8ad94efff9d3034d88e8a345cc5d8dd44dbbc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 049/207] fix: FUBoundingSphere::Transform did not contain the
 sphere for transforms with shear

---
 FCollada/FUtils/FUBoundingSphere.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index acad29f..60e34f8 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -190,7 +190,12 @@ FUBoundingSphere FUBoundingSphere::Transform(const FMMatrix44& transform) const
 	for (size_t i = 0; i < 3; ++i)
 	{
 		testPoints[i] = transform.TransformVector(testPoints[i]);
-		float lengthSquared = testPoints[i].LengthSquared();
+	}
+	for (size_t i = 0; i < 3; ++i)
+	{
+		// When the transformed axes are not orthogonal, their products bound the stretch of the sphere.
+		float lengthSquared = 0.0f;
+		for (size_t j = 0; j < 3; ++j) lengthSquared += fabsf(testPoints[i] * testPoints[j]);
 		if (lengthSquared > transformedSphere.radius * transformedSphere.radius)
 		{
 			transformedSphere.radius = sqrtf(lengthSquared);
-- 
2.43.0


From fa4a40a57224f3ca5129b8ade6f9d2d3554d7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 050/207] fix: FUDaeTextureFilterFunction::ToString did not
 know the linear filter

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From 10532daca5c91304f7d2ca76f0b7b6c583f4df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 051/207] fix: FUBase64::decode read and wrote out of bounds
 for empty, padded or interrupted input

---
 FCollada/FUtils/FUBase64.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUBase64.cpp b/FCollada/FUtils/FUBase64.cpp
index 7163083..c371794 100644
--- a/FCollada/FUtils/FUBase64.cpp
+++ b/FCollada/FUtils/FUBase64.cpp
@@ -200,21 +200,24 @@ namespace FUBase64
 
 	FCOLLADA_EXPORT void decode(const UInt8List& input, UInt8List& output)
 	{
+		output.clear();
+		if (input.size() == 0) return;
+
 		size_t inputBufferIndex  = 0;
 		size_t outputBufferIndex = 0;
-
 		const uint8* inputBufferString = &input.at(0);
 		size_t inputbufferLength = input.size();
 
-		output.clear();
-		output.resize(CalculateRecquiredDecodeOutputBufferSize(inputBufferString, inputbufferLength), 0);
+		// Allocate for the longest possible output: the padding and the ignored characters are discounted below.
+		output.resize((inputbufferLength / 4) * 3 + 3, 0);
 		uint8* outputBuffer = &output.at(0);
 
 		uint8 byteQuartet[4];
 
 		while (inputBufferIndex < inputbufferLength)
 		{
-			for (int i = 0; i < 4; ++i)
+			int i;
+			for (i = 0; i < 4 && inputBufferIndex < inputbufferLength; ++i)
 			{
 				byteQuartet[i] = inputBufferString[inputBufferIndex];
 
@@ -233,7 +236,9 @@ namespace FUBase64
 				++inputBufferIndex;
 			}
 
+			if (i < 4) break; // incomplete quartet
 			outputBufferIndex += DecodebyteQuartet(byteQuartet, outputBuffer + outputBufferIndex);
 		}
+		output.resize(outputBufferIndex);
 	}
 }
-- 
2.43.0


From f5d92e07038a89c21d182370156a02cf12b6102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 052/207] fix: FUEvent: releasing an unknown handler, and
 releasing handlers while they are called, were undefined

---
 FCollada/FUtils/FUEvent.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..4119c7e 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,7 +18,9 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
+#include <memory>
 #include <vector>
 
 /**
@@ -29,7 +31,16 @@ template <typename... Args>
 class FUEvent
 {
 private:
-	std::vector<std::tuple<void*, std::function<void(Args...)>>> handlers;
+	struct Handler
+	{
+		void* object;
+		std::function<void(Args...)> func;
+		bool released;
+	};
+
+	// The handlers are shared with the calls that are in progress:
+	// a handler may register, release and trigger at will, and even release itself.
+	std::vector<std::shared_ptr<Handler>> handlers;
 public:
 
 	/** Constructor. */
@@ -46,7 +57,7 @@ public:
 		@param _function The static function to callback. */
 	void InsertHandler(void* object, std::function<void(Args...)> func)
 	{
-		handlers.emplace_back(std::tuple(object,func));
+		handlers.emplace_back(std::make_shared<Handler>(Handler{object, func, false}));
 	}
 
 	/** Releases and unregisters a callback that handles the event.
@@ -55,8 +66,11 @@ public:
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+		auto it = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& handler){ return handler->object == object; });
+		if (it == handlers.end()) return;
+		(*it)->released = true;
+		handlers.erase(it);
 	}
 
 	/**
@@ -66,8 +80,11 @@ public:
 	 */
 	void operator()(Args... args)
 	{
-		for (std::size_t i = handlers.size(); i > 0; --i)
-			(std::get<1>(handlers[i - 1]))(args...);
+		const std::vector<std::shared_ptr<Handler>> called = handlers;
+		for (std::size_t i = called.size(); i > 0; --i)
+		{
+			if (!called[i - 1]->released) called[i - 1]->func(args...);
+		}
 	}
 };
 
-- 
2.43.0


From 555a24e92f010f1a6512678e8c9c52d485430580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 053/207] fix: FUError: an error handler that reported an error
 or changed the handlers waited for itself for ever

---
 FCollada/FUtils/FUError.cpp | 8 ++++----
 FCollada/FUtils/FUError.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUError.cpp b/FCollada/FUtils/FUError.cpp
index b4c45ed..edb8670 100644
--- a/FCollada/FUtils/FUError.cpp
+++ b/FCollada/FUtils/FUError.cpp
@@ -12,7 +12,7 @@
 //
 // FUError
 //
-std::mutex FUError::errorMutex;
+std::recursive_mutex FUError::errorMutex;
 
 FUEvent<FUError::Level, uint32, uint32> FUError::onErrorEvent;
 FUEvent<FUError::Level, uint32, uint32> FUError::onWarningEvent;
@@ -31,7 +31,7 @@ FUError::~FUError()
 
 bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArgument)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -47,7 +47,7 @@ bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArg
 void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 		std::function<void(FUError::Level, uint32, uint32)> callback)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -60,7 +60,7 @@ void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 
 void FUError::RemoveErrorCallback(FUError::Level errorLevel, void* object)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
diff --git a/FCollada/FUtils/FUError.h b/FCollada/FUtils/FUError.h
index 3025d11..757e451 100644
--- a/FCollada/FUtils/FUError.h
+++ b/FCollada/FUtils/FUError.h
@@ -238,7 +238,7 @@ public:
 	};
 
 private:
-	static std::mutex errorMutex;
+	static std::recursive_mutex errorMutex; // error handlers may themselves report errors
 
 	static FUEvent<FUError::Level, uint32, uint32> onErrorEvent;
 	static FUEvent<FUError::Level, uint32, uint32> onWarningEvent;
-- 
2.43.0


From 11cd3d958d83a8094d180e898c5ebe49cefe6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 054/207] fix: FUObjectRef released its object when it was
 assigned the object that it already had

---
 FCollada/FUtils/FUObject.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..43a6d88 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -183,6 +183,7 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(ObjectClass* _ptr)
 	{
+		if (ptr == _ptr) return *this;
 		if (ptr != NULL) ((FUObject*) ptr)->Release();
 		FUAssert(ptr == NULL, return *this);
 		ptr = _ptr;
-- 
2.43.0


From 4b3a35e37eed266a527584e6ece42989aa846cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 055/207] fix: FUObjectRef: the assignment of a reference left
 the object with its previous owner

---
 FCollada/FUtils/FUObject.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 43a6d88..6fc45de 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -199,9 +199,14 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
-		_ptr.ptr = NULL;
-		return *this;
+		if (&_ptr == this) return *this;
+		ObjectClass* transferred = _ptr.ptr;
+		if (transferred != NULL)
+		{
+			_ptr.DetachObject((FUObject*) transferred);
+			_ptr.ptr = NULL;
+		}
+		return operator=(transferred);
 	}
 
 	/** Accesses the tracked object.
-- 
2.43.0


From 0bff45df20057a58b9975b9699efd0e8d9362554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 056/207] fix: FUObjectContainer: erasing a range released
 objects that were still in the container

---
 FCollada/FUtils/FUObject.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 6fc45de..d760cf3 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -390,13 +390,14 @@ public:
 		@param last The list position just passed the last value to remove. */
 	inline void erase(iterator first, iterator last)
 	{
-		for (iterator it = first; it != last; ++it)
+		// The release of an object may release other objects of this container.
+		Parent erased;
+		for (iterator it = first; it != last; ++it) erased.push_back(*it);
+		for (size_t i = 0; i < erased.size(); ++i)
 		{
-			FUObject* o = (FUObject*) * it;
-			DetachObject(o);
-			o->Release();
+			iterator it = find((ObjectClass*) erased[i]);
+			if (it != end()) erase(it);
 		}
-		Parent::erase(first, last);
 	}
 
 	/** Removes a range of values from the list.
-- 
2.43.0


From e349cbb7f5ecc555db2479de1f79908a58881dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 057/207] fix: FUTrackable: trackers that were added or removed
 during the release of their object were skipped or read out of bounds

---
 FCollada/FUtils/FUTracker.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.cpp b/FCollada/FUtils/FUTracker.cpp
index c082696..d58fe45 100644
--- a/FCollada/FUtils/FUTracker.cpp
+++ b/FCollada/FUtils/FUTracker.cpp
@@ -27,11 +27,13 @@ FUTrackable::~FUTrackable()
 
 void FUTrackable::Detach()
 {
-	for (FUTrackerList::iterator itT = trackers.begin(); itT != trackers.end(); ++itT)
+	// The trackers may be added and removed during these calls.
+	while (!trackers.empty())
 	{
-		(*itT)->OnObjectReleased(this);
+		FUTracker* tracker = trackers.front();
+		tracker->OnObjectReleased(this);
+		trackers.erase(tracker);
 	}
-	trackers.clear();
 
 	// Also detach from the owner.
 	FUObject::Detach();
-- 
2.43.0


From a22ab55fef577a858fa07a7441d21ab23bfb637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 058/207] fix: FUTrackedPtr and FUTrackedList: copies did not
 track their objects

---
 FCollada/FUtils/FUTracker.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..9c87eee 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,13 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor.
+		@param copy A tracking pointer. The new pointer tracks the same object. */
+	FUTrackedPtr(const FUTrackedPtr& copy) : FUTracker(), ptr(copy.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
@@ -334,14 +341,20 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) : Parent(), FUTracker() { operator=(other); }
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (&other == this) return *this;
+		clear();
+		for (size_t i = 0; i < other.size(); ++i) push_back(const_cast<ObjectClass*>(other.at(i)));
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From d9786a174758ff3e078cc26377fff44da031bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 059/207] fix: FUTrackable: an object was destroyed twice when
 a tracker reacted to its release by dropping its owning reference

---
 FCollada/FUtils/FUTracker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.cpp b/FCollada/FUtils/FUTracker.cpp
index d58fe45..dec80d8 100644
--- a/FCollada/FUtils/FUTracker.cpp
+++ b/FCollada/FUtils/FUTracker.cpp
@@ -27,6 +27,9 @@ FUTrackable::~FUTrackable()
 
 void FUTrackable::Detach()
 {
+	// Detach from the owner first, so that it cannot release this object again.
+	FUObject::Detach();
+
 	// The trackers may be added and removed during these calls.
 	while (!trackers.empty())
 	{
@@ -34,9 +37,6 @@ void FUTrackable::Detach()
 		tracker->OnObjectReleased(this);
 		trackers.erase(tracker);
 	}
-
-	// Also detach from the owner.
-	FUObject::Detach();
 }
 
 // Manage the list of trackers
-- 
2.43.0


From 60e985bdb12e2be5ff0137c31e4bf46e88810f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 060/207] fix: FUUniqueStringMap gave the same string several
 times after large numbers, and took strings with leading zeros or large
 numbers for others

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..ff5c752 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -14,16 +14,14 @@ template <class CH>
 inline void SplitString(const fm::stringT<CH>& str, fm::stringT<CH>& prefix, uint32& suffix)
 {
 	// Remove the suffix from the string.
-	size_t len = str.length();
-	prefix = str;
-	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9')
-	{
-		prefix.erase(len-1, len);
-		--len;
-	}
+	// Leading zeros and the digits that don't fit within an integer belong to the prefix.
+	const size_t maximumDigits = 9;
+	size_t len = str.length(), offset = len;
+	while (offset > 0 && len - offset < maximumDigits && str[offset-1] >= '0' && str[offset-1] <= '9') --offset;
+	while (len - offset > 1 && str[offset] == '0') ++offset;
+	prefix = str.substr(0, offset);
 
 	// Parse the suffix: if no suffix is present, use -1.
-	size_t offset = prefix.length();
 	if (offset == str.length()) suffix = ~(uint32)0;
 	else suffix = FUStringConversion::ToUInt32(str.c_str() + offset);
 }
@@ -46,19 +44,19 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 	{
 		// Retrieve the end of the tree.
 		itN = itV->second.last();
-		if (itN->first != ~(uint32)0) suffix = itN->first + 1;
-		else
+		if (itN->first == ~(uint32)0 && itN != itV->second.begin()) --itN; // Get the second last suffix, if it exists.
+		uint32 next = (itN->first != ~(uint32)0) ? itN->first + 1 : 1;
+
+		// Recreate the user's string to use an unique suffix.
+		do
 		{
-			// Get the second last suffix, if it exists.
-			--itN;
-			if (itN == itV->second.end()) suffix = 2;
-			suffix = itN->first + 1;
-		}
+			FUStringBuilderT<CH> builder(prefix);
+			builder.append(next++);
+			wantedStr = builder.ToString();
+		} while (contains(wantedStr));
 
-		// Recreate the user's string to use this unique suffix.
-		FUStringBuilderT<CH> builder(prefix);
-		builder.append(suffix);
-		wantedStr = builder.ToString();
+		insert(wantedStr);
+		return;
 	}
 
 	// Insert our suffix in the known list.
-- 
2.43.0


From 53d139fd21a544922df7a02f1bbecb6eb092acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 061/207] fix: FCDObjectWithId::Clone gave up the identifier of
 the original and could give the clone the same one

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..c0d92ea 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,8 +33,8 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	clone->RemoveDaeId();
 	clone->daeId = daeId;
-	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
 
 const fm::string& FCDObjectWithId::GetDaeId() const
-- 
2.43.0


From e63b489bcb57cce7c86146a7b3974a7d2a245a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 062/207] fix: FCDObjectWithId::SetDaeId accepted the empty
 identifier

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index c0d92ea..33f154d 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -58,6 +58,7 @@ void FCDObjectWithId::SetDaeId(const fm::string& id)
 	// Use this id to enforce a unique id.
 	FUSUniqueStringMap* names = GetDocument()->GetUniqueNameMap();
 	daeId = CleanId(id);
+	if (daeId->empty()) daeId = "unknown_object";
 	names->insert(daeId);
 	SetUniqueIdFlag();
 	SetDirtyFlag();
-- 
2.43.0


From bf71302de4883342231b0970f62e8b27293aaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 063/207] fix: FCDSceneNode::SetSubId: a sub-identifier that
 was made unique could be an invalid name, or not unique after 512 others

---
 FCollada/FCDocument/FCDSceneNode.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..4ec1f6f 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -207,14 +207,12 @@ void FCDSceneNode::SetSubId(const fm::string& subId)
 	while (curNode != NULL);
 
 	// Now, test for uniqueness, This is enforced for both descendants and ancestors
-	fm::string newSubId = FCDObjectWithId::CleanSubId(subId);
+	const fm::string cleanSubId = FCDObjectWithId::CleanSubId(subId);
+	fm::string newSubId = cleanSubId;
 	int32 idMod = 0;
 	while (FindSubId(newSubId) != NULL || parentSubIds.find(newSubId) != parentSubIds.end())
 	{
-		newSubId = subId + "_" + FUStringConversion::ToString(idMod++);
-
-		// Dont keep doing this forever.
-		if (idMod > 512) break;
+		newSubId = cleanSubId + "_" + FUStringConversion::ToString(idMod++);
 	}
 	daeSubId = newSubId;
 }
-- 
2.43.0


From 5ed181da929c42fda0e6aca166e6f9390966a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 064/207] fix: a scene node that other parents share was
 destroyed with its first parent

---
 FCollada/FCDocument/FCDSceneNode.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index 4ec1f6f..fa0cd05 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -71,18 +71,13 @@ FCDSceneNode::~FCDSceneNode()
 		{
 			// Check for external references in the parents
 			bool hasLocalReferences = false;
-			size_t parentCount = parents.size();
+			size_t parentCount = child->parents.size();
 			for (size_t p = 0; p < parentCount; ++p)
 			{
-				FCDSceneNode* parent = parents[p];
-				if (parent == this) children.erase(parent);
-				else
-				{
-					hasLocalReferences |= parent->GetDocument() == GetDocument();
-				}
+				hasLocalReferences |= child->parents[p]->GetDocument() == child->GetDocument();
 			}
-
-			if (!hasLocalReferences) SAFE_RELEASE(child);
+			if (!hasLocalReferences) { SAFE_RELEASE(child); }
+			else children.erase(child);
 		}
 	}
 }
-- 
2.43.0


From 92482ce7d09dbd9cf6e3648fdb5313ada8dbe25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 065/207] fix: the pre-order scene node iteration skipped
 instanced nodes and the deep ones were visited for ever

---
 FCollada/FCDocument/FCDSceneNodeIterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeIterator.hpp b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
index dca4f7f..edc372a 100644
--- a/FCollada/FCDocument/FCDSceneNodeIterator.hpp
+++ b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
@@ -84,15 +84,16 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 					if (entity != NULL && entity->HasType(FCDSceneNode::GetClassType()))
 					{
 						NODE_T* add = (NODE_T*) entity;
+						if (searchType == DEPTH_FIRST_PREORDER) queue.push_back(add);
 						if (add->GetChildrenCount() == 0 && add->GetInstanceCount() == 0)
 						{
 							// Don't bother processing this node.
-							queue.push_back(add);
+							if (searchType == DEPTH_FIRST_POSTORDER) queue.push_back(add);
 						}
 						else
 						{
+							++(it.second); // the reference to the item ends with the insertion.
 							processQueue.push_back(Child(add, 0));
-							++(it.second);
 							break;
 						}
 					}
-- 
2.43.0


From 3ea6ac0056e4216f274fd1ef244dd5b0f6ad62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 066/207] fix: the scene node iteration did not end when
 instances form a cycle

---
 FCollada/FCDocument/FCDSceneNodeIterator.hpp | 36 ++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeIterator.hpp b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
index edc372a..ea5e69b 100644
--- a/FCollada/FCDocument/FCDSceneNodeIterator.hpp
+++ b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
@@ -14,6 +14,28 @@
 // FCDSceneNodeIterator
 //
 
+// The scene node instances may form cycles: a node is not processed again below itself.
+template <class NODE_T>
+static inline bool IsOnPath(const fm::pvector<NODE_T>& queue, const fm::vector<size_t>& origins, size_t index, NODE_T* node)
+{
+	while (queue[index] != node)
+	{
+		if (index == 0) return false;
+		index = origins[index];
+	}
+	return true;
+}
+
+template <class NODE_T>
+static inline bool IsOnStack(const fm::vector<fm::pair<NODE_T*, size_t> >& stack, NODE_T* node)
+{
+	for (size_t i = 0; i < stack.size(); ++i)
+	{
+		if (stack[i].first == node) return true;
+	}
+	return false;
+}
+
 template <class NODE_T>
 FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType searchType, bool pureChildOnly)
 {
@@ -22,6 +44,8 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 	if (searchType == BREADTH_FIRST)
 	{
 		queue.push_back(root);
+		fm::vector<size_t> origins; // For each node in the queue: the index of the node that it was reached from.
+		origins.push_back(0);
 
 		// Fill in the queue completely,
 		// in case the user using this iterator wants to modify stuff.
@@ -32,7 +56,10 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 			for (size_t c = 0; c < childCount; ++c)
 			{
 				NODE_T* node = it->GetChild(c);
-				if (!pureChildOnly || node->GetParent(0) == it) queue.push_back(node);
+				if (pureChildOnly && node->GetParent(0) != it) continue;
+				if (IsOnPath(queue, origins, index, node)) continue;
+				queue.push_back(node);
+				origins.push_back(index);
 			}
 
 			if (!pureChildOnly)
@@ -41,7 +68,10 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 				for (size_t i = 0; i < instanceCount; ++i)
 				{
 					const FCDEntity* entity = it->GetInstance(i)->GetEntity();
-					if (entity != NULL && entity->HasType(FCDSceneNode::GetClassType())) queue.push_back((NODE_T*) entity);
+					if (entity == NULL || !entity->HasType(FCDSceneNode::GetClassType())) continue;
+					if (IsOnPath(queue, origins, index, (NODE_T*) entity)) continue;
+					queue.push_back((NODE_T*) entity);
+					origins.push_back(index);
 				}
 			}
 		}
@@ -64,6 +94,7 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 			{
 				NODE_T* add = it.first->GetChild(it.second++);
 				if (pureChildOnly && add->GetParent(0) != it.first) continue;
+				if (IsOnStack(processQueue, add)) continue;
 				if (searchType == DEPTH_FIRST_PREORDER) queue.push_back(add);
 				if (add->GetChildrenCount() == 0 && add->GetInstanceCount() == 0)
 				{
@@ -84,6 +115,7 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 					if (entity != NULL && entity->HasType(FCDSceneNode::GetClassType()))
 					{
 						NODE_T* add = (NODE_T*) entity;
+						if (IsOnStack(processQueue, add)) continue;
 						if (searchType == DEPTH_FIRST_PREORDER) queue.push_back(add);
 						if (add->GetChildrenCount() == 0 && add->GetInstanceCount() == 0)
 						{
-- 
2.43.0


From 3057efa2aa5efc27499fcfe3a2f4f7ed258d4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 067/207] fix: the matrix of a skew was transposed

---
 FCollada/FCDocument/FCDTransform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index 3e0843b..023ba3d 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -293,7 +293,7 @@ FCDTransform* FCDTSkew::Clone(FCDTransform* _clone) const
 
 FMMatrix44 FCDTSkew::ToMatrix() const
 {
-	float v[4][4];
+	FMMatrix44 v; // Indexed by column, then row.
 
 	float s = tanf(FMath::DegToRad(skew->angle));
 
@@ -309,7 +309,7 @@ FMMatrix44 FCDTSkew::ToMatrix() const
 	v[3][0] = v[3][1] = v[3][2] = 0.0f;
 	v[3][3] = 1.0f;
 
-	return FMMatrix44((float*) v);
+	return v;
 }
 
 const FCDAnimated* FCDTSkew::GetAnimated() const
-- 
2.43.0


From 3847c9e8cb7cbd7d760743b4385a5d66c6b6c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 068/207] fix: the animated values of a skew had the qualifiers
 of a look-at

---
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index c633cdd..2610f7e 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -137,7 +137,7 @@ template <> FCDAnimated* FCDParameterAnimatableSkew::CreateAnimated()
 		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z,
 		&value.angle
 	};
-	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::LOOKAT, values);
+	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::SKEW, values);
 }
 
 //
-- 
2.43.0


From ea81966c1f8f9cedcc39df2a9094c2e2006b9d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 069/207] fix: the sampled animation looked for angles in the
 wrong transforms

---
 FCollada/FCDocument/FCDSceneNodeTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeTools.cpp b/FCollada/FCDocument/FCDSceneNodeTools.cpp
index e3a80a1..b9be27a 100644
--- a/FCollada/FCDocument/FCDSceneNodeTools.cpp
+++ b/FCollada/FCDocument/FCDSceneNodeTools.cpp
@@ -36,7 +36,8 @@ namespace FCDSceneNodeTools
 			FCDAnimated* animated = transform->GetAnimated();
 			if (animated != NULL)
 			{
-				if (animated->HasCurve()) animateds.push_back(animated);
+				if (!animated->HasCurve()) continue;
+			animateds.push_back(animated);
 
 				// Figure out whether this is a rotation and then, which animated value contains the angle.
 				if (!transform->HasType(FCDTRotation::GetClassType())) angleIndices.push_back(-1);
-- 
2.43.0


From adc61f86b25d2faee1b9ba35887ce4db17a43581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 070/207] fix: shrinking an animatable list with a default
 value released the wrong animations

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..98ca978 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From 8c98dab6b006a1ae1f530d63eed9cd7ff56a283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 071/207] fix: the animated values of a list were not moved
 along with the values when the first one stays in place

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index 98ca978..e1552cd 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -197,18 +197,13 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
-	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
-
-	// Process all the animateds and set their value pointers.
+	// Process all the animateds and set their value pointers: the values may have moved
+	// within the list, even if the first ones have not.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
-	size_t stride = animated->GetValueCount();
+	size_t stride = animateds.front()->GetValueCount();
 	for (size_t i = 0; i < animatedCount; ++i)
 	{
-		animated = animateds[i];
+		FCDAnimated* animated = animateds[i];
 		size_t arrayElement = animated->GetArrayElement();
 		FUAssert(arrayElement < values.size(), return);
 		for (size_t j = 0; j < stride; ++j)
-- 
2.43.0


From a5a4d0463da589b431f4458a58a6c163464f81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 072/207] fix: the linear extrapolation before a curve went in
 the wrong direction

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..c350d04 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From f2a022eee893e643d8ea2c01fc62d96aa50c61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 073/207] fix: evaluating a cycled curve, or keys at the same
 time, could read beyond the keys or divide by zero

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index c350d04..0b3a2ee 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -321,6 +321,8 @@ float FCDAnimationCurve::Evaluate(float input) const
 	float outputEnd = keys.back()->output;
 	float outputSpan = outputEnd - outputStart;
 
+	// All the keys may be at the same input: there is nothing to interpolate or repeat.
+	if (!(inputSpan > 0.0f)) return (input < inputStart) ? outputStart : outputEnd;
 	// Account for pre-infinity mode
 	float outputOffset = 0.0f;
 	if (input < inputStart)
@@ -329,7 +331,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: if (IsEquivalent(keys[1]->input, inputStart)) return outputStart; return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
@@ -344,7 +346,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (postInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputEnd;
-		case FUDaeInfinity::LINEAR: return outputEnd + inputDifference * (keys[keys.size() - 2]->output - outputEnd) / (keys[keys.size() - 2]->input - inputEnd);
+		case FUDaeInfinity::LINEAR: if (IsEquivalent(keys[keys.size() - 2]->input, inputEnd)) return outputEnd; return outputEnd + inputDifference * (keys[keys.size() - 2]->output - outputEnd) / (keys[keys.size() - 2]->input - inputEnd);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input -= cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input -= cycleCount * inputSpan; outputOffset += cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input -= cycleCount * 2.0f * inputSpan; input = inputStart + fabsf(input - inputStart); break; }
@@ -352,6 +354,8 @@ float FCDAnimationCurve::Evaluate(float input) const
 		}
 	}
 
+	// The cycles are calculated with rounding errors: stay within the keys.
+	input = FMath::Clamp(input, inputStart, inputEnd);
 	// Find the current interval
 	FCDAnimationKeyList::const_iterator it, start = keys.begin(), terminate = keys.end();
 	while (terminate - start > 3)
-- 
2.43.0


From 78f127464ba590bbc01a52f54906902950adcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 074/207] fix: at the time of a key, a curve had the value of
 the step key before it

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 0b3a2ee..8e11612 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -368,9 +368,10 @@ float FCDAnimationCurve::Evaluate(float input) const
 	// Linear search is more efficient on the last interval
 	for (it = start; it != terminate; ++it)
 	{
-		if ((*it)->input >= input) break;
+		if ((*it)->input > input) break;
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
+	if (it == keys.end()) return outputOffset + outputEnd;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
-- 
2.43.0


From e9691002797c918ea9ae749808138f5b5b516dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 075/207] fix: TCB keys were interpolated with tangents of the
 wrong sign, length and time

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 8e11612..2038bb7 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -70,8 +70,8 @@ static void ComputeTCBTangent(const FCDAnimationKey* previousKey, const FCDAnima
 		pCurrentMinusPrevious.y = 0.0f;
 	}
 	else {
-		pCurrentMinusPrevious.x = previousKey->input - currentKey->input;
-		pCurrentMinusPrevious.y = previousKey->output - currentKey->output;
+		pCurrentMinusPrevious.x = currentKey->input - previousKey->input;
+		pCurrentMinusPrevious.y = currentKey->output - previousKey->output;
 	}
 	if (!nextKey) {
 		if (previousKey) pNextMinusCurrent.x = currentKey->input - previousKey->input;
@@ -411,9 +411,8 @@ float FCDAnimationCurve::Evaluate(float input) const
 			tempTangent.x = tempTangent.y = 0.0f;
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, inTangent, tempTangent);
-			//Change this when we've figured out the values of the vectors from TCB...
-			inTangent.x = endKey->input + inTangent.x;
-			inTangent.y = endKey->output + inTangent.y;
+			inTangent.x = FMath::Clamp(endKey->input - inTangent.x / 3.0f, startKey->input, endKey->input);
+			inTangent.y = endKey->output - inTangent.y / 3.0f;
 		} else {
 			assert(false);
 			FUtils::unreachable();
@@ -458,8 +457,8 @@ float FCDAnimationCurve::Evaluate(float input) const
 			FCDAnimationKeyTCB* tkey2 = (FCDAnimationKeyTCB*) endKey;
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, endTangent, tempTangent);
-			cy = endKey->output + endTangent.y; //Assuming the tangent is GOING from the point.
-			cx = endKey->output + endTangent.x;
+			cy = endKey->output - endTangent.y / 3.0f;
+			cx = FMath::Clamp(endKey->input - endTangent.x / 3.0f, startKey->input, endKey->input);
 		}
 		else if (endKey->interpolation == FUDaeInterpolation::BEZIER) {
 			FCDAnimationKeyBezier* tkey2 = (FCDAnimationKeyBezier*) endKey;
@@ -467,9 +466,9 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cy = endTangent.y;
 			cx = endTangent.x;
 		}
-		float t = (input - inputStart) / inputInterval;
-		by = startKey->output - startTangent.y; //Assuming the tangent is GOING from the point.
-		bx = startKey->input - startTangent.x;
+		float t = (input - startKey->input) / inputInterval;
+		by = startKey->output + startTangent.y / 3.0f;
+		bx = FMath::Clamp(startKey->input + startTangent.x / 3.0f, startKey->input, endKey->input);
 
 		if (is2DEvaluation) t = FindT(tkey1->input, bx, cx, endKey->input, input, t);
 //		else { //Need to figure out algorithm for easing in and out.
-- 
2.43.0


From b186a6527cd4d139de9621493e7a6a6119308dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 076/207] fix: the one-dimensional evaluation of Bezier keys
 scaled the values instead of the slopes

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 2038bb7..1ec53d4 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -429,6 +429,10 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cr = inputInterval / (endKey->input - inTangent.x);
 			br = FMath::Clamp(br, 0.01f, 100.0f);
 			cr = FMath::Clamp(cr, 0.01f, 100.0f);
+			// The weights apply to the slopes: the tangents are absolute positions.
+			b = startKey->output + (b - startKey->output) * br / 3.0f;
+			c = endKey->output + (c - endKey->output) * cr / 3.0f;
+			br = cr = 3.0f;
 		}
 		output = startKey->output * ti * ti * ti + br * b * ti * ti * t + cr * c * ti * t * t + endKey->output * t * t * t;
 		break; }
-- 
2.43.0


From fad91ff4ace9b8771053deffb057568e4b58708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 077/207] fix: the Bezier evaluation of multi-dimensional
 curves differed from the one of curves: weights and kinds of the second key

---
 .../FCDocument/FCDAnimationMultiCurve.cpp     | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index 513a714..e0dac56 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -139,21 +139,36 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 				FCDAnimationMKeyBezier* bkey1 = (FCDAnimationMKeyBezier*) startKey;
 				for (uint32 i = 0; i < dimension; ++i)
 				{
+					if (endKey->interpolation == FUDaeInterpolation::LINEAR)
+					{
+						output[i] = startKey->output[i] + (input - startKey->input) / inputInterval * (endKey->output[i] - startKey->output[i]);
+						continue;
+					}
+					if (endKey->interpolation == FUDaeInterpolation::STEP || endKey->interpolation == FUDaeInterpolation::UNKNOWN)
+					{
+						output[i] = startKey->output[i];
+						continue;
+					}
 					FMVector2 inTangent;
 					if (endKey->interpolation == FUDaeInterpolation::BEZIER) inTangent = ((FCDAnimationMKeyBezier*) endKey)->inTangent[i];
-					else inTangent = FMVector2(endKey->input, 0.0f);
+					else inTangent = FMVector2(endKey->input, endKey->output[i]);
 
 					float t = (input - startKey->input) / inputInterval;
 					if (is2DEvaluation) t = FindT(startKey->input, bkey1->outTangent[i].x, inTangent.x, endKey->input, input, t);
 					float b = bkey1->outTangent[i].v;
 					float c = inTangent.v;
 					float ti = 1.0f - t;
-					float br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
-					float cr = inputInterval / (endKey->input - inTangent.u);
-					br = FMath::Clamp(br, 0.01f, 100.0f);
-					cr = FMath::Clamp(cr, 0.01f, 100.0f);
-
-					output[i] = startKey->output[i] * ti * ti * ti + br* b * ti * ti * t + cr * c * ti * t * t + endKey->output[i] * t * t * t;
+					if (!is2DEvaluation)
+					{
+						// The weights apply to the slopes: the tangents are absolute positions.
+						float br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
+						float cr = inputInterval / (endKey->input - inTangent.u);
+						br = FMath::Clamp(br, 0.01f, 100.0f);
+						cr = FMath::Clamp(cr, 0.01f, 100.0f);
+						b = startKey->output[i] + (b - startKey->output[i]) * br / 3.0f;
+						c = endKey->output[i] + (c - endKey->output[i]) * cr / 3.0f;
+					}
+					output[i] = startKey->output[i] * ti * ti * ti + 3.0f * b * ti * ti * t + 3.0f * c * ti * t * t + endKey->output[i] * t * t * t;
 				}
 				break; }
 
-- 
2.43.0


From 77db7c8e2ae4e522f81f528cb43dff5deee5c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 078/207] fix: multi-dimensional curves ignored their infinity
 modes

---
 .../FCDocument/FCDAnimationMultiCurve.cpp     | 48 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index e0dac56..c08746a 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -90,6 +90,46 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 	}
 	else
 	{
+		// Account for the infinity modes. Similar code is found in FCDAnimationCurve.cpp.
+		const FCDAnimationMKey* firstKey = keys.front();
+		const FCDAnimationMKey* lastKey = keys.back();
+		float inputSpan = lastKey->input - firstKey->input;
+		float cycleOffset = 0.0f;
+		if (inputSpan > 0.0f && (input < firstKey->input || input > lastKey->input))
+		{
+			bool isBefore = input < firstKey->input;
+			float inputDifference = isBefore ? firstKey->input - input : input - lastKey->input;
+			float direction = isBefore ? 1.0f : -1.0f; // towards the keys.
+			switch (isBefore ? preInfinity : postInfinity)
+			{
+			case FUDaeInfinity::LINEAR: {
+				const FCDAnimationMKey* edge = isBefore ? firstKey : lastKey;
+				const FCDAnimationMKey* other = isBefore ? keys[1] : keys[keys.size() - 2];
+				for (uint32 i = 0; i < dimension; ++i)
+				{
+					output[i] = edge->output[i];
+					if (!IsEquivalent(other->input, edge->input)) output[i] += (input - edge->input) * (other->output[i] - edge->output[i]) / (other->input - edge->input);
+				}
+				return; }
+			case FUDaeInfinity::CYCLE:
+			case FUDaeInfinity::CYCLE_RELATIVE: {
+				float cycleCount = ceilf(inputDifference / inputSpan);
+				input += direction * cycleCount * inputSpan;
+				if ((isBefore ? preInfinity : postInfinity) == FUDaeInfinity::CYCLE_RELATIVE) cycleOffset = -direction * cycleCount;
+				break; }
+			case FUDaeInfinity::OSCILLATE: {
+				float cycleCount = ceilf(inputDifference / (2.0f * inputSpan));
+				input += direction * cycleCount * 2.0f * inputSpan;
+				if (isBefore) input = lastKey->input - fabsf(input - lastKey->input);
+				else input = firstKey->input + fabsf(input - firstKey->input);
+				break; }
+			default: // constant.
+				for (uint32 i = 0; i < dimension; ++i) output[i] = (isBefore ? firstKey : lastKey)->output[i];
+				return;
+			}
+			input = FMath::Clamp(input, firstKey->input, lastKey->input);
+		}
+
 		// Find the current interval
 		FCDAnimationMKeyList::const_iterator it, start = keys.begin(), terminate = keys.end();
 		while (terminate - start > 3)
@@ -108,13 +148,11 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 		if (it == keys.end())
 		{
 			// We're sampling after the curve, return the last values
-			const FCDAnimationMKey* lastKey = keys.back();
 			for (uint32 i = 0; i < dimension; ++i) output[i] = lastKey->output[i];
 		}
 		else if (it == keys.begin())
 		{
 			// We're sampling before the curve, return the first values
-			const FCDAnimationMKey* firstKey = keys.front();
 			for (uint32 i = 0; i < dimension; ++i) output[i] = firstKey->output[i];
 		}
 		else
@@ -180,6 +218,12 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 				break;
 			}
 		}
+
+		// Each cycle is relative to the one before it.
+		if (cycleOffset != 0.0f)
+		{
+			for (uint32 i = 0; i < dimension; ++i) output[i] += cycleOffset * (lastKey->output[i] - firstKey->output[i]);
+		}
 	}
 }
 
-- 
2.43.0


From 57e75d9ee65cc2ddfcf2412b51e8b988621c2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 079/207] fix: collapsing a curve with Bezier keys read and
 wrote beyond the keys

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index 3a5a08d..a12499a 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -233,8 +233,8 @@ namespace FCDAnimationCurveTools
 
 			if (outKeys[i]->interpolation == FUDaeInterpolation::BEZIER)
 			{
-				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys + i;
-				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys + i;
+				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys[i];
+				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys[i];
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->inTangent[j].v;
 				outBKey->inTangent = FMVector2(inBKey->inTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
-- 
2.43.0


From ee7aa3d3a54f5bfcf33024fadb49cae65d591c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 080/207] fix: collapsing a curve with TCB keys left their
 parameters uninitialized

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index a12499a..e4ce272 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -240,6 +240,16 @@ namespace FCDAnimationCurveTools
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
 				outBKey->outTangent = FMVector2(inBKey->outTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 			}
+			else if (outKeys[i]->interpolation == FUDaeInterpolation::TCB)
+			{
+				FCDAnimationMKeyTCB* inTKey = (FCDAnimationMKeyTCB*) inKeys[i];
+				FCDAnimationKeyTCB* outTKey = (FCDAnimationKeyTCB*) outKeys[i];
+				outTKey->tension = (*collapse)(inTKey->tension, (uint32) dimension);
+				outTKey->continuity = (*collapse)(inTKey->continuity, (uint32) dimension);
+				outTKey->bias = (*collapse)(inTKey->bias, (uint32) dimension);
+				outTKey->easeIn = (*collapse)(inTKey->easeIn, (uint32) dimension);
+				outTKey->easeOut = (*collapse)(inTKey->easeOut, (uint32) dimension);
+			}
 		}
 		SAFE_DELETE_ARRAY(buffer);
 
-- 
2.43.0


From cca89a524763ff1247d4c57778f63b549cff84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 081/207] fix: cloning into a curve leaked its old keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 1ec53d4..d9322bb 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -227,7 +227,7 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->SetTargetQualifier(targetQualifier);
 
 	// Pre-buffer the list of keys and clone them.
-	clone->keys.clear();
+	CLEAR_POINTER_VECTOR(clone->keys);
 	clone->keys.reserve(keys.size());
 	for (FCDAnimationKeyList::const_iterator it = keys.begin(); it != keys.end(); ++it)
 	{
-- 
2.43.0


From fefc50d150e6806e010fbbbb79cf8bf3c64e575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 082/207] fix: cloning a curve or a clip registered the clip
 twice, with the offsets of other clips

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  1 -
 FCollada/FCDocument/FCDAnimationCurve.cpp | 11 +++--------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..17aae3b 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -61,7 +61,6 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 			if (cloneChildren)
 			{
 				FCDAnimationCurve* clonedCurve = (*it)->Clone(NULL, false);
-				clonedCurve->AddClip(clone);
 				clone->AddClipCurve(clonedCurve);
 			}
 		}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index d9322bb..1acb166 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -196,7 +196,7 @@ bool FCDAnimationCurve::DeleteKey(FCDAnimationKey* key)
 
 void FCDAnimationCurve::AddClip(FCDAnimationClip* clip)
 {
-    clips.push_back(clip);
+	RegisterAnimationClip(clip);
 }
 
 bool FCDAnimationCurve::HasDriver() const
@@ -264,13 +264,8 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 		for (FCDAnimationClipList::const_iterator it = clips.begin(); it != clips.end(); ++it)
 		{
 			FCDAnimationClip* clonedClip = (FCDAnimationClip*) (*it)->Clone(0, false);
-			clonedClip->AddClipCurve(clone);
-			clone->AddClip(clonedClip);
-		}
-
-		for (FloatList::const_iterator it = clipOffsets.begin(); it != clipOffsets.end(); ++it)
-		{
-			clone->clipOffsets.push_back(*it);
+			clonedClip->AddClipCurve(clone); // registers the clip with the clone.
+			clone->SetClipOffset(clipOffsets[it - clips.begin()], clonedClip);
 		}
 	}
 
-- 
2.43.0


From f8f15101a7c0e3e571871225e5c845149a554648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 083/207] fix: the curves of a released animation clip kept a
 pointer to it

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  4 ++++
 FCollada/FCDocument/FCDAnimationCurve.cpp | 14 ++++++++++++++
 FCollada/FCDocument/FCDAnimationCurve.h   |  4 ++++
 3 files changed, 22 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 17aae3b..7ea0000 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -31,6 +31,10 @@ FCDAnimationClip::FCDAnimationClip(FCDocument* document)
 
 FCDAnimationClip::~FCDAnimationClip()
 {
+	for (FCDAnimationCurveTrackList::iterator it = curves.begin(); it != curves.end(); ++it)
+	{
+		(*it)->UnregisterAnimationClip(this);
+	}
 	curves.clear();
 }
 
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 1acb166..5b183ad 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -604,3 +604,17 @@ void FCDAnimationCurve::RegisterAnimationClip(FCDAnimationClip* clip)
 	clipOffsets.push_back(-clip->GetStart());
 	SetDirtyFlag();
 }
+
+void FCDAnimationCurve::UnregisterAnimationClip(FCDAnimationClip* clip)
+{
+	for (size_t i = clips.size(); i > 0; --i)
+	{
+		if (clips[i - 1] == clip)
+		{
+			clips.erase(i - 1);
+			clipOffsets.erase(i - 1);
+		}
+	}
+	if (currentClip == clip) currentClip = NULL;
+	SetDirtyFlag();
+}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.h b/FCollada/FCDocument/FCDAnimationCurve.h
index 1c2253f..3d12a29 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.h
+++ b/FCollada/FCDocument/FCDAnimationCurve.h
@@ -244,6 +244,10 @@ public:
 		@param clip An animation clip. */
 	void RegisterAnimationClip(FCDAnimationClip* clip);
 
+	/** [INTERNAL] Removes an animation clip from the list of animation clips that use this curve.
+		@param clip An animation clip. */
+	void UnregisterAnimationClip(FCDAnimationClip* clip);
+
 	/** [INTERNAL] Retrieves the target element suffix for the curve.
 		This will be -1 if the animated element does not belong to an
 		animated element list.
-- 
2.43.0


From bd7df62889cacf570cee557fde271881bf3e41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 084/207] fix: cloning an animation clip lost the animations
 that it instances

---
 FCollada/FCDocument/FCDAnimationClip.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 7ea0000..f732323 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -59,6 +59,13 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 		clone->start = start;
 		clone->end = end;
 
+		// Copy the instanced animations
+		for (size_t i = 0; i < animations.size(); ++i)
+		{
+			animations[i]->Clone(clone->AddInstanceAnimation());
+		}
+		clone->names = names;
+
 		// If requested, clone the animation curves as well.
 		for (FCDAnimationCurveTrackList::const_iterator it = curves.begin(); it != curves.end(); ++it)
 		{
-- 
2.43.0


From 7d86ae2c2ad6a43bbe5ac1102bbc7a15d13402d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 085/207] fix: the indices of an added face were not
 initialized to zero

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..13b409a 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -65,12 +65,12 @@ void FCDGeometryPolygons::AddFace(uint32 degree)
 	for (size_t i = 0; i < inputCount; ++i)
 	{
 		FCDGeometryPolygonsInput* input = inputs[i];
-		if (!newPolygonSet && input->OwnsIndices()) input->SetIndexCount(input->GetIndexCount() + degree);
-		else if (newPolygonSet && input->GetIndexCount() == 0)
-		{
-			// Declare this input as the owner!
-			input->SetIndexCount(degree);
-		}
+		if (newPolygonSet ? input->GetIndexCount() > 0 : !input->OwnsIndices()) continue;
+
+		// In a new polygon set, this declares the input as the owner!
+		size_t indexCount = input->GetIndexCount();
+		input->SetIndexCount(indexCount + degree);
+		memset(input->GetIndices() + indexCount, 0, degree * sizeof(uint32));
 	}
 
 	parent->Recalculate();
-- 
2.43.0


From 5fddbc33eed55c469f7ad8aeff9f708bf4860333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 086/207] fix: removing a face left its holes in the list and
 did not move the other ones

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 13b409a..5c64a81 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -108,6 +108,8 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
 	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	holeFaces.erase(holeBefore, holeCount);
+	for (size_t h = holeBefore; h < holeFaces.size(); ++h) holeFaces[h] -= (uint32) holeCount + 1;
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From e35c92069193bc8e2cc582ac68dbd2720f3be3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 087/207] fix: looking for the inputs of a polygon set did not
 expect inputs whose source was released

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5c64a81..11402cf 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -220,7 +220,7 @@ const FCDGeometryPolygonsInput* FCDGeometryPolygons::FindInput(FUDaeGeometryInpu
 {
 	for (const FCDGeometryPolygonsInput** it = inputs.begin(); it != inputs.end(); ++it)
 	{
-		if ((*it)->GetSemantic() == semantic) return (*it);
+		if ((*it)->GetSource() != NULL && (*it)->GetSemantic() == semantic) return (*it);
 	}
 	return NULL;
 }
@@ -242,7 +242,7 @@ FCDGeometryPolygonsInput* FCDGeometryPolygons::FindInput(const fm::string& sourc
 	for (size_t i = 0; i < inputCount; ++i)
 	{
 		FCDGeometryPolygonsInput* input = inputs[i];
-		if (input->GetSource()->GetDaeId() == s) return input;
+		if (input->GetSource() != NULL && input->GetSource()->GetDaeId() == s) return input;
 	}
 	return NULL;
 }
@@ -251,7 +251,7 @@ void FCDGeometryPolygons::FindInputs(FUDaeGeometryInput::Semantic semantic, FCDG
 {
 	for (const FCDGeometryPolygonsInput** it = inputs.begin(); it != inputs.end(); ++it)
 	{
-		if ((*it)->GetSemantic() == semantic) _inputs.push_back(*it);
+		if ((*it)->GetSource() != NULL && (*it)->GetSemantic() == semantic) _inputs.push_back(*it);
 	}
 }
 
-- 
2.43.0


From 69f73f0a49b0d23883d5f19d26aedced31959f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 088/207] fix: the indices shared by polygon set inputs were
 lost with the source, or with the input, that owned them

---
 .../FCDocument/FCDGeometryPolygonsInput.cpp   | 29 +++++++++++--------
 .../FCDocument/FCDGeometryPolygonsInput.h     |  3 ++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..61fd19e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -35,6 +35,7 @@ FCDGeometryPolygonsInput::~FCDGeometryPolygonsInput()
 		UntrackObject(source);
 		source = NULL;
 	}
+	HandOverIndices();
 }
 
 FUDaeGeometryInput::Semantic FCDGeometryPolygonsInput::GetSemantic() const
@@ -58,21 +59,25 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 	if (source == object)
 	{
 		source = NULL;
+		HandOverIndices();
+	}
+}
 
-		// Verify whether we own/share the index list.
-		if (!indices.empty())
+void FCDGeometryPolygonsInput::HandOverIndices()
+{
+	// Verify whether we own/share the index list.
+	if (!indices.empty())
+	{
+		size_t inputCount = parent->GetInputCount();
+		for (size_t i = 0; i < inputCount; ++i)
 		{
-			size_t inputCount = parent->GetInputCount();
-			for (size_t i = 0; i < inputCount; ++i)
+			FCDGeometryPolygonsInput* other = parent->GetInput(i);
+			if (other != this && other->offset == offset)
 			{
-				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
-				{
-					// Move the shared list of indices to the other input.
-					other->indices = indices;
-					indices.clear();
-					break;
-				}
+				// Move the shared list of indices to the other input.
+				other->indices = indices;
+				indices.clear();
+				break;
 			}
 		}
 	}
diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.h b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
index 9b2b57c..7214de6 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.h
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
@@ -153,6 +153,9 @@ private:
 	// FUTracker interface.
 	virtual void OnObjectReleased(FUTrackable* object);
 
+	// Moves the indices of this input, if it owns any, to another input that shares them.
+	void HandOverIndices();
+
 	// Finds the index buffer for this list.
 	FUParameterUInt32List& FindIndices() { return const_cast<FUParameterUInt32List&>(const_cast<const FCDGeometryPolygonsInput*>(this)->FindIndices()); }
 	const FUParameterUInt32List& FindIndices() const;
-- 
2.43.0


From 026029c835478ba32735526d40c92f002a1a76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 089/207] fix: making a source per-vertex kept its other
 inputs, or dropped the per-vertex indices of a polygon set

---
 FCollada/FCDocument/FCDGeometryMesh.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index c5d84ea..16d3af6 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -183,11 +183,19 @@ void FCDGeometryMesh::AddVertexSource(FCDGeometrySource* source)
 	size_t polygonsCount = polygons.size();
 	for (size_t p = 0; p < polygonsCount; ++p)
 	{
-		FCDGeometryPolygonsInput* input = polygons[p]->FindInput(source);
-		int32 set = (input != NULL) ? input->GetSet() : -1;
-		SAFE_RELEASE(input);
-		input = polygons[p]->AddInput(source, 0);
-		if (set > -1) input->SetSet(set);
+		bool hasInput = false;
+		for (size_t i = polygons[p]->GetInputCount(); i > 0; --i)
+		{
+			FCDGeometryPolygonsInput* input = polygons[p]->GetInput(i - 1);
+			if (input->GetSource() != source) continue;
+			hasInput = true;
+			if (input->GetOffset() == 0) continue; // Already uses the per-vertex indices.
+			int32 set = input->GetSet();
+			input->Release();
+			input = polygons[p]->AddInput(source, 0);
+			if (set > -1) input->SetSet(set);
+		}
+		if (!hasInput) polygons[p]->AddInput(source, 0);
 	}
 
 	SetNewChildFlag();
-- 
2.43.0


From fcad461438224cd0ced5647ba0b4c98d72e6ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 090/207] fix: the value count of a source without stride was a
 division by zero

---
 FCollada/FCDocument/FCDGeometrySource.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometrySource.h b/FCollada/FCDocument/FCDGeometrySource.h
index 88b07f8..d2f54fd 100644
--- a/FCollada/FCDocument/FCDGeometrySource.h
+++ b/FCollada/FCDocument/FCDGeometrySource.h
@@ -109,11 +109,11 @@ public:
 
 	/** Retrieves the number of individual source values contained in the source.
 		@return The number of source values. */
-	inline size_t GetValueCount() const { return sourceData.size() / stride; }
+	inline size_t GetValueCount() const { return (stride > 0) ? sourceData.size() / stride : 0; }
 
 	/** Retrieves the max number of values this input can handle before memory is reallocated.
 		@return The number of source values. */
-	inline size_t GetValueReserved() const { return sourceData.capacity() / stride; }
+	inline size_t GetValueReserved() const { return (stride > 0) ? sourceData.capacity() / stride : 0; }
 
 	/** Sets the number of individual source values contained in the source.
 		No initialization of new values is done.
-- 
2.43.0


From 1a11b7dd6633cd4613dac90c71d524e4bcdbd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 091/207] fix: cloning a polygon set lost its primitive type,
 extra, inputs and indices

---
 FCollada/FCDocument/FCDGeometryMesh.cpp     |  8 +++++++-
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 20 ++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index 16d3af6..85f578a 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -257,10 +257,16 @@ FCDGeometryMesh* FCDGeometryMesh::Clone(FCDGeometryMesh* clone) const
 	FCDGeometrySourceCloneMap cloneMap;
 	for (const FCDGeometrySource** itS = sources.begin(); itS != sources.end(); ++itS)
 	{
-		FCDGeometrySource* clonedSource = (IsVertexSource(*itS)) ? clone->AddVertexSource() : clone->AddSource();
+		FCDGeometrySource* clonedSource = clone->AddSource();
 		(*itS)->Clone(clonedSource);
 		cloneMap.insert(*itS, clonedSource);
 	}
+	size_t vertexSourceCount = vertexSources.size();
+	for (size_t v = 0; v < vertexSourceCount; ++v)
+	{
+		FCDGeometrySourceCloneMap::iterator it = cloneMap.find(vertexSources[v]);
+		if (it != cloneMap.end()) clone->AddVertexSource((*it).second);
+	}
 
 	// Clone the polygon sets.
 	for (const FCDGeometryPolygons** itP = polygons.begin(); itP != polygons.end(); ++itP)
diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 11402cf..b3baca8 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -299,9 +299,13 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	clone->faceVertexOffset = faceVertexOffset;
 	clone->holeOffset = holeOffset;
 	clone->holeFaces = holeFaces;
+	clone->primitiveType = primitiveType;
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 
 	// Clone the geometry inputs
-	// Note that the vertex source inputs are usually created by default.
+	// Note that the vertex source inputs are usually created by default:
+	// they may not have the same order, offsets or count as the original ones.
+	clone->inputs.clear();
 	size_t inputCount = inputs.size();
 	clone->inputs.reserve(inputCount);
 	for (size_t i = 0; i < inputCount; ++i)
@@ -309,7 +313,11 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 		// Find the cloned source that correspond to the original input.
 		FCDGeometrySource* cloneSource = NULL;
 		FCDGeometrySourceCloneMap::const_iterator it = cloneMap.find(inputs[i]->GetSource());
-		if (it == cloneMap.end())
+		if (inputs[i]->GetSource() == NULL)
+		{
+			// The source was released.
+		}
+		else if (it == cloneMap.end())
 		{
 			// Attempt to match by ID instead.
 			const fm::string& id = inputs[i]->GetSource()->GetDaeId();
@@ -320,12 +328,8 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 			cloneSource = (*it).second;
 		}
 
-		// Retrieve or create the input to clone.
-		FCDGeometryPolygonsInput* input = clone->FindInput(cloneSource);
-		if (input == NULL)
-		{
-			input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
-		}
+		// Create the cloned input.
+		FCDGeometryPolygonsInput* input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
 
 		// Clone the input information.
 		if (inputs[i]->OwnsIndices())
-- 
2.43.0


From e3b0c5d107417b9132688d33b369cbfc4945ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 092/207] fix: removing a face removed the wrong range of faces
 and holes

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index b3baca8..33e4061 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,8 +107,8 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
-	holeFaces.erase(holeBefore, holeCount);
+	faceVertexCounts.erase(index + holeBefore, index + holeBefore + holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	holeFaces.erase(holeBefore, holeBefore + holeCount);
 	for (size_t h = holeBefore; h < holeFaces.size(); ++h) holeFaces[h] -= (uint32) holeCount + 1;
 
 	parent->Recalculate();
-- 
2.43.0


From 1c0ee8b6119db38ac1976c3fbf6d922dcd6b5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 093/207] fix: triangulating one polygons set left the face
 counts and offsets of the mesh outdated

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1e62a0c..46e6b08 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -118,7 +118,7 @@ namespace FCDGeometryPolygonsTools
 		polygons->SetPrimitiveType(FCDGeometryPolygons::POLYGONS);
 		polygons->SetHoleFaceCount(0);
 
-		if (recalculate) polygons->Recalculate();
+		if (recalculate) polygons->GetParent()->Recalculate();
 	}
 
 	static uint32 CompressSortedVector(FMVector3& toInsert, FloatList& insertedList, UInt32List& compressIndexReferences)
-- 
2.43.0


From cae99de92ef491d162ef1faa8402a3abe5e18713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 094/207] fix: averaged texture tangents were not normalized,
 and the temporary vertices leaked

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 46e6b08..39b827b 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -402,7 +402,7 @@ namespace FCDGeometryPolygonsTools
 						if (list[v].tangentId == ~(uint32)0)
 						{
 							list[v].tangent /= (float) list[v].count; // Average the tangent.
-							list[v].tangent.Normalize();
+							list[v].tangent.NormalizeIt();
 							list[v].tangentId = CompressSortedVector(list[v].tangent, tangentData, tangentCompressionIndices);
 						}
 						tangentInput->AddIndex(list[v].tangentId);
@@ -425,6 +425,7 @@ namespace FCDGeometryPolygonsTools
 
 		if (tangentSource != NULL) tangentSource->SetData(tangentData, 3);
 		if (binormalSource != NULL) binormalSource->SetData(binormalData, 3);
+		SAFE_DELETE_ARRAY(globalVertices);
 	}
 
 	struct HashIndexMapItem { UInt32List allValues; UInt32List newIndex; };
-- 
2.43.0


From 2622b32ef61b338a252d2cd24c6526e04558d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 095/207] fix: generating unique indices crashed on an input
 without source

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 39b827b..88a600d 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -817,7 +817,7 @@ namespace FCDGeometryPolygonsTools
 			for (size_t i = 0; i < inputCount; i++)
 			{
 				FCDGeometryPolygonsInput* anyInput = polygons->GetInput(i);
-				if (anyInput->GetSource()->GetDataCount() == 0) continue;
+				if (anyInput->GetSource() == NULL || anyInput->GetSource()->GetDataCount() == 0) continue;
 				// [ewhittom] Allow empty index buffers with non-empty vertex buffers
 				if (indexBuffer.empty()) continue;
 
-- 
2.43.0


From ba1c8d494b41df1c8df10151cdb9a4463a1deef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 096/207] fix: generating unique indices bound the animations
 of a source to its released values

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 88a600d..fd733c8 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -710,7 +710,6 @@ namespace FCDGeometryPolygonsTools
 			FCDGeometrySource* newSource = (polygonsToProcess != NULL) ? mesh->AddSource(oldSource->GetType()) : oldSource;
 
 			FCDAnimatedList newAnimatedList;
-			newAnimatedList.clear();
 			for (size_t p = 0; p < polygonsCount; ++p)
 			{
 				const UInt32List& indexBuffer = indexBuffers[p];
@@ -732,20 +731,19 @@ namespace FCDGeometryPolygonsTools
 					if (oldIndex >= oldSource->GetValueCount()) continue;
 
 					FUObjectContainer<FCDAnimated>& animatedValues = oldSource->GetAnimatedValues();
-					FCDAnimated* oldAnimated = NULL;
 					for (size_t j = 0; j < animatedValues.size(); j++)
 					{
-						FCDAnimated* animated = animatedValues[j];
-						if (animated->GetValue(0) == &(oldVertexData[stride * oldIndex]))
-						{
-							oldAnimated = animated;
-							break;
-						}
-					}
-					if (oldAnimated != NULL)
-					{
+						FCDAnimated* oldAnimated = animatedValues[j];
+						int32 oldElement = oldAnimated->GetArrayElement();
+						if (oldElement < (int32) (stride * oldIndex) || oldElement >= (int32) (stride * (oldIndex + 1))) continue;
+						int32 newElement = oldElement + (int32) stride * ((int32) newIndex - (int32) oldIndex);
+
+						// Many face-vertex pairs may share the new index.
+						bool repeat = false;
+						for (size_t k = 0; k < newAnimatedList.size() && !repeat; ++k) repeat = newAnimatedList[k]->GetArrayElement() == newElement;
+						if (repeat) continue;
 						FCDAnimated* newAnimated = oldAnimated->Clone(oldAnimated->GetDocument());
-						newAnimated->SetArrayElement(newIndex);
+						newAnimated->SetArrayElement(newElement);
 						newAnimatedList.push_back(newAnimated);
 					}
 
@@ -783,12 +781,12 @@ namespace FCDGeometryPolygonsTools
 			{
 				newSource->SetData(vertexBuffer, stride);
 			}
-			FUObjectContainer<FCDAnimated>& animatedList = newSource->GetAnimatedValues();
-			animatedList.clear();
+			// Bind the animations to the new values.
 			for (FCDAnimatedList::iterator it = newAnimatedList.begin();
 					it != newAnimatedList.end(); it++)
 			{
-				animatedList.push_back(*it);
+				(*it)->Clone(newSource->GetSourceData().GetAnimated((*it)->GetArrayElement()));
+				(*it)->Release();
 			}
 		}
 
-- 
2.43.0


From 7083d351abeafeb82832439264191c4eb27b3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 097/207] fix: generating unique indices lost the data of a
 source that is used with two lists of indices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index fd733c8..e6e8d4d 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -593,6 +593,21 @@ namespace FCDGeometryPolygonsTools
 		// Prepare a list of unique index buffers.
 		size_t polygonsCount = mesh->GetPolygonsCount();
 		if (polygonsCount == 0) return;
+		for (size_t p = 0; p < polygonsCount; ++p)
+		{
+			FCDGeometryPolygons* polygons = mesh->GetPolygons(p);
+			if (polygons->GetPrimitiveType() == FCDGeometryPolygons::POINTS) break; // Nothing is processed, see below.
+			if (polygonsToProcess != NULL && polygons != polygonsToProcess) continue;
+
+			// A source that is used with many lists of indices needs one copy of its data for each.
+			for (size_t i = 1; i < polygons->GetInputCount(); ++i)
+			{
+				FCDGeometryPolygonsInput* input = polygons->GetInput(i);
+				FCDGeometryPolygonsInput* first = (input->GetSource() != NULL) ? polygons->FindInput(input->GetSource()) : input;
+				if (first == input || first->GetOffset() == input->GetOffset()) continue;
+				input->SetSource(input->GetSource()->Clone(mesh->AddSource()));
+			}
+		}
 		UInt32ListList indexBuffers; indexBuffers.resize(polygonsCount);
 		size_t totalVertexCount = 0;
 
-- 
2.43.0


From 484880f10427e05f1541cfebc60536b7bbaaa9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:01 +0000
Subject: [PATCH 098/207] fix: applying unique indices to a mesh translated
 sources twice and refused unused values and many polygons sets

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 48 ++++++++++++-------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index e6e8d4d..b00bf0d 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -858,9 +858,12 @@ namespace FCDGeometryPolygonsTools
 
 	void ApplyUniqueIndices(FCDGeometrySource* targSource, uint32 nValues, const FCDGeometryIndexTranslationMap* translationMap)
 	{
-		size_t tmSize = translationMap->size();
-		FUAssert(targSource->GetValueCount() == tmSize, return);
-
+		// Some of the values may be unused.
+		size_t valueCount = targSource->GetValueCount();
+		for (FCDGeometryIndexTranslationMap::const_iterator it = translationMap->begin(), itEnd = translationMap->end(); it != itEnd; ++it)
+		{
+			FUAssert(it->first < valueCount, return);
+		}
 		uint32 stride = targSource->GetStride();
 		FloatList oldData(targSource->GetData(), targSource->GetDataCount());
 
@@ -872,35 +875,43 @@ namespace FCDGeometryPolygonsTools
 
 	void ApplyUniqueIndices(FCDGeometryMesh* targMesh, FCDGeometryMesh* baseMesh, const UInt32List& newIndices, const FCDGeometryIndexTranslationMapList& translationMaps)
 	{
+		// Some of the sources may not be used by all the polygons.
 		uint32 largest = 0;
-		const FCDGeometryIndexTranslationMap* aMap = translationMaps[0];
-		for (FCDGeometryIndexTranslationMap::const_iterator it = aMap->begin(), itEnd = aMap->end(); it != itEnd; ++it)
+		for (size_t m = 0; m < translationMaps.size(); ++m)
 		{
-			const UInt32List& curList = it->second;
-			for (UInt32List::const_iterator uit = curList.begin(); uit != curList.end(); ++uit)
-			{
-				largest = max(largest, *uit);
-			}
+			largest = max(largest, FindLargestUniqueIndex(*translationMaps[m]));
 		}
-
 		uint32 newBufferLen = largest + 1;
 
+		// The inputs are moved around when their source becomes a per-vertex source.
+		UInt32List indexCounts;
+		for (size_t p = 0; p < targMesh->GetPolygonsCount(); p++)
+		{
+			FCDGeometryPolygons* polygons = targMesh->GetPolygons(p);
+			indexCounts.push_back((polygons->GetInputCount() > 0) ? (uint32) polygons->GetInput(0)->GetIndexCount() : 0);
+		}
 		for (size_t i = 0; i < targMesh->GetSourceCount(); i++)
 		{
 			FCDGeometrySource* targSource = targMesh->GetSource(i);
+			size_t repeat = 0;
+			for (size_t j = 0; j < i; ++j)
+			{
+				if (targMesh->GetSource(j)->GetType() == targSource->GetType()) ++repeat;
+			}
 			for (size_t j = 0; j < baseMesh->GetSourceCount(); j++)
 			{
 				// it is possible the sources are out of order. make sure we
 				// are using the correct ones.
 				FCDGeometrySource* baseSource = baseMesh->GetSource(j);
-				if (baseSource->GetType() == targSource->GetType())
+				if (baseSource->GetType() == targSource->GetType() && repeat-- == 0)
 				{
 					const FCDGeometryIndexTranslationMap* translationMap = translationMaps[j];
 					ApplyUniqueIndices(targSource, newBufferLen, translationMap);
+					break;
 				}
 			}
 			// Set the source to be per-vertex... this means it has data for every vertex?
-			targMesh->AddVertexSource(targSource);
+			if (!targMesh->IsVertexSource(targSource)) targMesh->AddVertexSource(targSource);
 		}
 
 		// Reset the indices.  The indices in newIndices are all polygon indices combined
@@ -909,12 +920,13 @@ namespace FCDGeometryPolygonsTools
 		for (size_t p = 0; p < targMesh->GetPolygonsCount(); p++)
 		{
 			FCDGeometryPolygons* polygons = targMesh->GetPolygons(p);
-			FCDGeometryPolygonsInput* anInput = polygons->GetInput(0);
-			size_t nIndices = anInput->GetIndexCount();
+			size_t nIndices = indexCounts[p];
 			 // Check if we are valid, if not, the best we can do is not crash
-			FUAssert(nIndices >= nNewIndices, nIndices = nNewIndices);
-			anInput->SetIndices(newIdxPtr, nIndices);
-
+			FUAssert(nIndices <= nNewIndices, nIndices = nNewIndices);
+			for (size_t i = 0; i < polygons->GetInputCount(); ++i)
+			{
+				polygons->GetInput(i)->SetIndices(newIdxPtr, nIndices);
+			}
 			newIdxPtr += nIndices;
 			nNewIndices -= nIndices;
 		}
-- 
2.43.0


From ecab62ea39f78a047fc6e7488ea3376d2cbc2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 099/207] fix: colors were packed as zeroes and ones

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index b00bf0d..22d5c1e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -998,7 +998,7 @@ namespace FCDGeometryPolygonsTools
 		const FCDGeometrySource* source, uint32 vCount, uint16* vtxPackingMap,
 		const FCDGeometryIndexTranslationMap& translationMap)
 	{
-		PackVertexBuffers<FMColor, false, false>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
+		PackVertexBuffers<FMColor, false, true>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
 	}
 
 	void PackVertexBufferV2(uint8* destBuffer, uint32 destBuffStride,
-- 
2.43.0


From 85aa05f4adf9adbcf0f3a32c6ff32beda3c1218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 100/207] fix: the documented maximum number of indices was
 refused when packing vertices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 22d5c1e..5cf66f1 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1014,7 +1014,7 @@ namespace FCDGeometryPolygonsTools
 	uint16 GenerateVertexPackingMap(size_t maxIndex, size_t maxIndices, size_t maxVertices, const uint32* inIndices, uint16* outIndices, UInt16List* outPackingMap, uint16* outNVertices/*=NULL*/)
 	{
 		FUAssert(inIndices != NULL && outPackingMap != NULL, return 0);
-		FUAssert(maxIndices < INVALID_VTX_IDX, maxIndices = INVALID_VTX_IDX - 1);
+		FUAssert(maxIndices <= INVALID_VTX_IDX, maxIndices = INVALID_VTX_IDX);
 		outPackingMap->resize(maxIndex + 1, INVALID_VTX_IDX);
 		uint16 nIndices, nVertices = 0;
 		for (nIndices = 0; nIndices < maxIndices; ++nIndices)
-- 
2.43.0


From 04c785d1ce8cea440f882a5253069e4922cb7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 101/207] fix: splitting a polygons set lost its primitive
 type, holes and sets, and never ended for a face that is too big

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 83 ++++++++++---------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 5cf66f1..0c2457e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1110,6 +1110,25 @@ namespace FCDGeometryPolygonsTools
 		outPInput.SetIndices(indices.begin(), indices.size());
 	}
 
+	// Looks for the end of the faces that fit together. A face and its holes are never separated:
+	// a face that is too big by itself stays alone.
+	static size_t FindSplitFace(FCDGeometryPolygons* polygons, const UInt32List& faceVertexCounts, size_t start, size_t maximumIndexCount, size_t& faceVertexCount)
+	{
+		size_t faceCount = faceVertexCounts.size();
+		size_t end = start;
+		faceVertexCount = 0;
+		while (end < faceCount)
+		{
+			size_t next = end + 1;
+			size_t localCount = faceVertexCounts[end];
+			for (; next < faceCount && polygons->IsHoleFaceHole(next); ++next) localCount += faceVertexCounts[next];
+			if (faceVertexCount + localCount > maximumIndexCount && end > start) break;
+			faceVertexCount += localCount;
+			end = next;
+		}
+		return end;
+	}
+
 	// Splits the mesh's polygons sets to ensure that none of them have
 	// more than a given number of indices within their index buffers.
 	void FitIndexBuffers(FCDGeometryMesh* mesh, size_t maximumIndexCount)
@@ -1129,16 +1148,11 @@ namespace FCDGeometryPolygonsTools
 			UInt32List faceVertexCounts(polygons->GetFaceVertexCounts(), faceCount);
 			size_t inputCount = polygons->GetInputCount();
 
-			UInt32List::iterator splitIt = faceVertexCounts.end();
-			uint32 faceVertexCount = 0;
-			for (splitIt = faceVertexCounts.begin(); splitIt != faceVertexCounts.end(); ++splitIt)
-			{
-				if (faceVertexCount + (*splitIt) > maximumIndexCount) break;
-				faceVertexCount += (*splitIt);
-			}
-			if (splitIt == faceVertexCounts.end()) continue; // Polygons sets fit correctly.
-			size_t splitIndexCount = (size_t) faceVertexCount;
-			size_t splitFaceCount = splitIt - faceVertexCounts.begin();
+			size_t splitIndexCount = 0;
+			size_t splitFaceCount = FindSplitFace(polygons, faceVertexCounts, 0, maximumIndexCount, splitIndexCount);
+			if (splitFaceCount == faceCount) continue; // Polygons sets fit correctly.
+			FCDGeometrySourceCloneMap sources;
+			for (size_t j = 0; j < mesh->GetSourceCount(); ++j) sources.insert(mesh->GetSource(j), mesh->GetSource(j));
 
 			size_t faceCopyStart = splitFaceCount;
 			size_t faceCopyEnd = faceCopyStart;
@@ -1146,47 +1160,31 @@ namespace FCDGeometryPolygonsTools
 			size_t faceVertexCopyEnd = faceVertexCopyStart;
 			while (faceCopyEnd < faceCount)
 			{
-				// Create a new polygons set and copy the basic information from the first polygons set.
+				// Create a new polygons set and copy the information from the first polygons set.
 				FCDGeometryPolygons* polygonsCopy = mesh->AddPolygons();
-				polygonsCopy->SetMaterialSemantic(polygons->GetMaterialSemantic());
-
+				polygons->Clone(polygonsCopy, sources);
 				// Figure out which faces will be moved to this polygons set.
-				faceVertexCount = 0;
-				for (; faceCopyEnd < faceCount; ++faceCopyEnd)
-				{
-					uint32 localCount = faceVertexCounts[faceCopyEnd];
-					if (faceVertexCount + localCount > maximumIndexCount) break;
-					faceVertexCount += localCount;
-				}
+				size_t faceVertexCount = 0;
+				faceCopyEnd = FindSplitFace(polygons, faceVertexCounts, faceCopyStart, maximumIndexCount, faceVertexCount);
 				faceVertexCopyEnd += faceVertexCount;
-
-				FUAssert(faceVertexCopyEnd > faceVertexCopyStart, continue);
-				FUAssert(faceCopyEnd > faceCopyStart, continue);
-
-				// Create the inputs and their indices over in the new polygons set.
+				// Keep only the indices of these faces in the inputs of the new polygons set.
 				for (size_t j = 0; j < inputCount; ++j)
 				{
-					FCDGeometryPolygonsInput* input = polygons->GetInput(j);
-					FCDGeometrySource* source = input->GetSource();
-					FCDGeometryPolygonsInput* inputCopy;
-					if (!mesh->IsVertexSource(source)) inputCopy = polygonsCopy->AddInput(source, input->GetOffset());
-					else inputCopy = polygonsCopy->FindInput(source);
-					FUAssert(inputCopy != NULL, continue);
-
-					// For owners, copy the indices over.
-					size_t indexCopyCount = inputCopy->GetIndexCount();
-					if (indexCopyCount == 0)
-					{
-						uint32* indices = input->GetIndices();
-						inputCopy->SetIndices(indices + faceVertexCopyStart, faceVertexCopyEnd - faceVertexCopyStart);
-					}
+					FCDGeometryPolygonsInput* inputCopy = polygonsCopy->GetInput(j);
+					if (!inputCopy->OwnsIndices() || inputCopy->GetIndexCount() < faceVertexCopyEnd) continue;
+					UInt32List indices(inputCopy->GetIndices() + faceVertexCopyStart, faceVertexCount);
+					inputCopy->SetIndices(indices.begin(), indices.size());
 				}
-
-				// Copy the face-vertex counts over to the new polygons set
+				// Copy the face-vertex counts and the holes over to the new polygons set
 				// And increment the copy counters.
 				size_t faceCopyCount = faceCopyEnd - faceCopyStart;
 				polygonsCopy->SetFaceVertexCountCount(faceCopyCount);
 				memcpy((void*) polygonsCopy->GetFaceVertexCounts(), &(*(faceVertexCounts.begin() + faceCopyStart)), faceCopyCount * sizeof(uint32));
+				polygonsCopy->SetHoleFaceCount(0);
+				for (size_t h = faceCopyStart; h < faceCopyEnd; ++h)
+				{
+					if (polygons->IsHoleFaceHole(h)) polygonsCopy->AddHole((uint32) (h - faceCopyStart));
+				}
 				faceCopyStart = faceCopyEnd;
 				faceVertexCopyStart = faceVertexCopyEnd;
 			}
@@ -1201,6 +1199,9 @@ namespace FCDGeometryPolygonsTools
 				}
 			}
 			polygons->SetFaceVertexCountCount(splitFaceCount);
+			size_t splitHoleCount = 0; // The hole indices are sorted.
+			while (splitHoleCount < polygons->GetHoleFaceCount() && polygons->GetHoleFaces()[splitHoleCount] < splitFaceCount) ++splitHoleCount;
+			polygons->SetHoleFaceCount(splitHoleCount);
 		}
 
 		mesh->Recalculate();
-- 
2.43.0


From fbc44a7aebfb9de89118aa1501eb84cec59d0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 102/207] fix: the influences of vertices that no polygon uses
 were looked up outside of the translation map

---
 FCollada/FCDocument/FCDControllerTools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDControllerTools.cpp b/FCollada/FCDocument/FCDControllerTools.cpp
index 1481b92..538a0f6 100644
--- a/FCollada/FCDocument/FCDControllerTools.cpp
+++ b/FCollada/FCDocument/FCDControllerTools.cpp
@@ -44,13 +44,14 @@ namespace FCDControllerTools
 
 		// This is how many vertices we are packing here!
 		skinInfluences.resize(largestIdx + 1);
-		FUAssert(largestIdx < influenceCount,);
 
 		// Now iterate over all the vertices that we have used and come up with something
 		for (uint32 i = 0; i < influenceCount; ++i)
 		{
-			UInt32List uniqueIndices = translationMap[i];
-			for (UInt32List::iterator uItr = uniqueIndices.begin(); uItr != uniqueIndices.end(); ++uItr)
+			FCDGeometryIndexTranslationMap::const_iterator itM = translationMap.find(i);
+			if (itM == translationMap.end()) continue; // No polygon uses this vertex.
+			const UInt32List& uniqueIndices = itM->second;
+			for (UInt32List::const_iterator uItr = uniqueIndices.begin(); uItr != uniqueIndices.end(); ++uItr)
 			{
 				if (packingMap[*uItr] != (uint16)-1)
 				{
-- 
2.43.0


From e19a14b9f4177d91250f8750a4d23efb9b496737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 103/207] fix: reducing influences without weight made their
 weight not a number

---
 FCollada/FCDocument/FCDSkinController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index 5e3d11b..11830e5 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -179,7 +179,7 @@ void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimum
 
 			float newTotal = 0.0f;
 			for (size_t i = 0; i < newInfluenceCount; ++i) newTotal += influence.GetPair(i)->weight;
-			float renormalizingFactor = oldTotal / newTotal;
+			float renormalizingFactor = (newTotal != 0.0f) ? oldTotal / newTotal : 1.0f;
 			for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
 		}
 	}
-- 
2.43.0


From 32e4c17961bbb501b3e09c725c20f20aa2d357df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 104/207] fix: an entity reference that was set to nothing
 found its old entity again

---
 FCollada/FCDocument/FCDEntityReference.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 3582ad2..cd3d25b 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -102,6 +102,7 @@ void FCDEntityReference::SetEntity(FCDEntity* _entity)
 	}
 	else
 	{
+		entityId.clear();
 		SetEntityDocument(NULL);
 	}
 
-- 
2.43.0


From 0e1024c2957c9f1686d83cb2b48918d22d1a8597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:35 +0000
Subject: [PATCH 105/207] fix: an entity reference with a new URI kept its old
 entity

---
 FCollada/FCDocument/FCDEntityReference.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index cd3d25b..bbd27eb 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -67,6 +67,10 @@ void FCDEntityReference::SetUri(const FUUri& uri)
 {
 	entityId = TO_STRING(uri.GetFragment());
     entityId = FCDObjectWithId::CleanId(entityId);
+
+	// The new target is looked up when it is needed.
+	if (entity != NULL) UntrackObject(entity);
+	entity = NULL;
 	FCDPlaceHolder* documentPlaceHolder = NULL;
 
 	if (uri.IsFile())
-- 
2.43.0


From 5e38ad994d057c0b07422205b0c34675c573fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 106/207] fix: growing a list of structures that can be copied
 trivially did not construct the new ones

---
 FCollada/FMath/FMArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index c1bf83f..09da9a4 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -260,7 +260,7 @@ namespace fm
 		{
 			reserve(count);
 
-			if constexpr (!std::is_trivially_copyable_v<T>)
+			if constexpr (!std::is_trivially_copyable_v<T> || !std::is_trivially_default_constructible_v<T>)
 			{
 				T* it = end();
 				for (; sized < count; ++sized)
-- 
2.43.0


From 15b46ac33a7602092d2df690af8b1e3396a6a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 107/207] fix: setting the geometry of a morph target that it
 already has released that geometry

---
 FCollada/FCDocument/FCDMorphController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index 9077f41..370eb90 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -188,7 +188,7 @@ void FCDMorphTarget::SetGeometry(FCDGeometry* _geometry)
 {
 	// Let go of the old geometry
 	FCDGeometry* oldGeometry = geometry;
-	if (oldGeometry != NULL && oldGeometry->GetTrackerCount() == 1)
+	if (oldGeometry != NULL && oldGeometry != _geometry && oldGeometry->GetTrackerCount() == 1)
 	{
 		SAFE_RELEASE(geometry);
 	}
-- 
2.43.0


From 9295e31ef17bae5c58c7bd71990d1a9de4a43bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 108/207] fix: a material instance crashed on a controller
 without base geometry

---
 FCollada/FCDocument/FCDMaterialInstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMaterialInstance.cpp b/FCollada/FCDocument/FCDMaterialInstance.cpp
index 4462ac8..1cb638a 100644
--- a/FCollada/FCDocument/FCDMaterialInstance.cpp
+++ b/FCollada/FCDocument/FCDMaterialInstance.cpp
@@ -92,7 +92,7 @@ FCDObject* FCDMaterialInstance::GetGeometryTarget()
 		{
 			e = ((FCDController*) e)->GetBaseGeometry();
 		}
-		if (e->HasType(FCDGeometry::GetClassType()))
+		if (e != NULL && e->HasType(FCDGeometry::GetClassType()))
 		{
 			FCDGeometry* geometry = (FCDGeometry*) e;
 			if (geometry->IsMesh())
-- 
2.43.0


From 435e5711d0b6905646f0dfd0acf2e343a7e8ac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 109/207] fix: setting the image of a texture released the
 sampler that it shares with other textures

---
 FCollada/FCDocument/FCDTexture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 7e13144..1b8f868 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -75,6 +75,8 @@ const FCDImage* FCDTexture::GetImage() const
 void FCDTexture::SetImage(FCDImage* image)
 {
 	// TODO: No parameter re-use for now.
+	// A sampler that other textures use, besides the effect profile and this texture, stays.
+	if (sampler != NULL && sampler->GetTrackerCount() > 2) sampler = NULL;
 	SAFE_RELEASE(sampler);
 	if (image != NULL && parent != NULL)
 	{
-- 
2.43.0


From cf01cc3a1ff80f72e24c4b14f7b2e565c9074eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 110/207] fix: adding an image to a surface refused valid
 indices and lost the index of an image it has

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 11d201c..4fde93f 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -72,11 +72,12 @@ size_t FCDEffectParameterSurface::AddImage(FCDImage* image, size_t index)
 		}
 		else
 		{
-			FUAssert(index > images.size(), return (size_t) ~0);
+			FUAssert(index <= images.size(), return (size_t) ~0);
 			images.insert(index, image);
 		}
 		SetNewChildFlag();
 	}
+	else index = exists;
 	return index;
 }
 
-- 
2.43.0


From f3b5f3a37a89c44f38f067061e7e7af2194c20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 111/207] fix: a released camera or light left its node marked
 as a target

---
 FCollada/FCDocument/FCDTargetedEntity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDTargetedEntity.cpp b/FCollada/FCDocument/FCDTargetedEntity.cpp
index 838c64b..120ab74 100644
--- a/FCollada/FCDocument/FCDTargetedEntity.cpp
+++ b/FCollada/FCDocument/FCDTargetedEntity.cpp
@@ -33,6 +33,7 @@ FCDTargetedEntity::FCDTargetedEntity(FCDocument* document, const char* className
 
 FCDTargetedEntity::~FCDTargetedEntity()
 {
+	if (targetNode != NULL) targetNode->DecrementTargetCount();
 }
 
 // Sets a new target
-- 
2.43.0


From d5ba20a5c55bd0a606eb525b31b3c823cc7f2901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 112/207] fix: a texture had the wrong image when the surface
 with the expected sid was made for another image

---
 FCollada/FCDocument/FCDTexture.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 1b8f868..98777d0 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -75,14 +75,20 @@ const FCDImage* FCDTexture::GetImage() const
 void FCDTexture::SetImage(FCDImage* image)
 {
 	// TODO: No parameter re-use for now.
-	// A sampler that other textures use, besides the effect profile and this texture, stays.
-	if (sampler != NULL && sampler->GetTrackerCount() > 2) sampler = NULL;
+	// A sampler that other textures use as well stays.
+	if (sampler != NULL && sampler->GetTrackerCount() > 1) sampler = NULL;
 	SAFE_RELEASE(sampler);
 	if (image != NULL && parent != NULL)
 	{
-		// Look for a surface with the expected sid.
+		// Look for a surface with the expected sid. The sid may belong to a surface
+		// of another image, since images may be released and renamed.
 		fm::string surfaceSid = image->GetDaeId() + "-surface";
 		FCDEffectParameter* _surface = FCDEffectTools::FindEffectParameterByReference(parent, surfaceSid);
+		while (_surface != NULL && _surface->HasType(FCDEffectParameterSurface::GetClassType()) && ((FCDEffectParameterSurface*) _surface)->GetImage() != image)
+		{
+			surfaceSid += "_";
+			_surface = FCDEffectTools::FindEffectParameterByReference(parent, surfaceSid);
+		}
 		FCDEffectParameterSurface* surface = NULL;
 		if (_surface == NULL)
 		{
@@ -102,6 +108,11 @@ void FCDTexture::SetImage(FCDImage* image)
 		// Look for a sampler with the expected sid.
 		fm::string samplerSid = image->GetDaeId() + "-sampler";
         const FCDEffectParameter* _sampler = FCDEffectTools::FindEffectParameterByReference(parent, samplerSid);
+		while (_sampler != NULL && _sampler->HasType(FCDEffectParameterSampler::GetClassType()) && ((const FCDEffectParameterSampler*) _sampler)->GetSurface() != surface)
+		{
+			samplerSid += "_";
+			_sampler = FCDEffectTools::FindEffectParameterByReference(parent, samplerSid);
+		}
 		if (_sampler == NULL)
 		{
 			sampler = (FCDEffectParameterSampler*) parent->AddEffectParameter(FCDEffectParameter::SAMPLER);
-- 
2.43.0


From d351630951c387fea1601c260ee49def2fcd0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 113/207] fix: a morph controller lost a base controller that
 follows it in the library

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 337d22f..b6a83e3 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -548,7 +548,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	{
 		fm::string targetId = SkipPound(data.targetId);
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
-		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(data.targetId);
+		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
-- 
2.43.0


From 37f023fbcfdc75164ec6efcf0d69fa8919b5ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 114/207] fix: an imported convex hull forgot which geometry it
 is the hull of

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index b6a83e3..1986bab 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -574,7 +574,9 @@ bool FArchiveXML::LinkGeometryMesh(FCDGeometryMesh* geometryMesh)
 		FCDGeometryMesh* origMesh = concaveGeom->GetMesh();
 		if (origMesh != NULL)
 		{
+			fm::string convexHullOf = geometryMesh->GetConvexHullOf();
 			origMesh->Clone(geometryMesh);
+			geometryMesh->SetConvexHullOf(convexHullOf); // overwritten by clone
 			geometryMesh->SetConvexify(geometryMesh != NULL);
 			geometryMesh->SetConvex(true); // may have been overwritten by clone
 		}
-- 
2.43.0


From 8853ef0eba6a04463fd302c90f348774ccb63a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 115/207] fix: a set of points was exported with vertex counts,
 which made its import fail

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..7825ec9 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -169,7 +169,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	case FCDGeometryPolygons::LINE_STRIPS: hasHoles = true; polygonNodeType = DAE_LINESTRIPS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_FANS: hasHoles = true; polygonNodeType = DAE_TRIFANS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_STRIPS: hasHoles = true; polygonNodeType = DAE_TRISTRIPS_ELEMENT; break;
-	case FCDGeometryPolygons::POINTS: polygonNodeType = DAE_POINTS_ELEMENT; break;
+	case FCDGeometryPolygons::POINTS: hasHoles = true; polygonNodeType = DAE_POINTS_ELEMENT; break;
 	default: polygonNodeType = emptyCharString; FUFail(break); break;
 	}
 	xmlNode* polygonsNode = AddChild(parentNode, polygonNodeType);
-- 
2.43.0


From 7fa91fed99b672b62e9eef568f214a1abfbea270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 116/207] fix: the exported count of a set of lines left out
 all lists of lines but the first

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 7825ec9..3ad4f46 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -297,9 +297,10 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 
 	// Calculate the primitive count, taking into consideration the LINES special case.
 	size_t primitiveCount = geometryPolygons->GetFaceCount();
-	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES && primitiveCount > 0)
+	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES)
 	{
-		primitiveCount = geometryPolygons->GetFaceVertexCount(0) / 2;
+		primitiveCount = 0;
+		for (size_t i = 0; i < faceCount; ++i) primitiveCount += geometryPolygons->GetFaceVertexCount(i) / 2;
 	}
 	AddAttribute(polygonsNode, DAE_COUNT_ATTRIBUTE, primitiveCount);
 
-- 
2.43.0


From c857749d0c5f359785ff91190370cac5921187df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 117/207] fix: exporting a force field or emitter instance left
 an extra type in the document

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 5b26d69..1c9175f 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -160,8 +160,13 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 		CLEAR_POINTER_VECTOR(extraParameters);
 		if (extraTechnique->GetChildNodeCount() == 0) SAFE_RELEASE(extraTechnique);
 	}
-	CLEAR_POINTER_VECTOR(extraInstanceNodes);
-
+	if (extraInstanceTechnique != NULL)
+	{
+		CLEAR_POINTER_VECTOR(extraInstanceNodes);
+		FCDEType* extraInstanceType = sceneNode->GetExtra()->FindType(DAEFC_INSTANCES_TYPE);
+		if (extraInstanceTechnique->GetChildNodeCount() == 0) SAFE_RELEASE(extraInstanceTechnique);
+		if (extraInstanceType->GetTechniqueCount() == 0) SAFE_RELEASE(extraInstanceType);
+	}
 	return parentNode;
 }
 
-- 
2.43.0


From df41873c658ecbf814ddf12526da9ee8ba054c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 118/207] fix: a node with several parents lost the ones that
 come before its first parent in the document

---
 .../FArchiveXML/FAXSceneExport.cpp            | 48 ++++++++++++++-----
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 1c9175f..8a59396 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -14,6 +14,7 @@
 #include "FCDocument/FCDAnimated.h"
 #include "FCDocument/FCDEntityInstance.h"
 #include "FCDocument/FCDEntity.h"
+#include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDTargetedEntity.h"
 #include "FCDocument/FCDSceneNode.h"
 #include "FCDocument/FCDTransform.h"
@@ -36,6 +37,32 @@ xmlNode* FArchiveXML::WriteTargetedEntity(FCDObject* UNUSED(object), xmlNode* UN
 	return NULL;
 }
 
+// Retrieves the parent under which a shared node comes first within the exported document.
+static const FCDSceneNode* FindFirstParent(const FCDSceneNode* node, const FCDSceneNode* child, fm::map<const FCDSceneNode*, bool>& visited)
+{
+	if (visited.find(node) != visited.end()) return NULL;
+	visited[node] = true;
+	size_t childCount = node->GetChildrenCount();
+	for (size_t c = 0; c < childCount; ++c)
+	{
+		if (node->GetChild(c) == child) return node;
+		const FCDSceneNode* found = FindFirstParent(node->GetChild(c), child, visited);
+		if (found != NULL) return found;
+	}
+	return NULL;
+}
+static const FCDSceneNode* FindFirstParent(const FCDSceneNode* child)
+{
+	if (child->GetParentCount() <= 1) return child->GetParent();
+	fm::map<const FCDSceneNode*, bool> visited;
+	const FCDVisualSceneNodeLibrary* library = child->GetDocument()->GetVisualSceneLibrary();
+	for (size_t i = 0; i < library->GetEntityCount(); ++i)
+	{
+		const FCDSceneNode* found = FindFirstParent(library->GetEntity(i), child, visited);
+		if (found != NULL) return found;
+	}
+	return child->GetParent();
+}
 xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 {
 	FCDSceneNode* sceneNode = (FCDSceneNode*)object;
@@ -113,13 +140,17 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 		FArchiveXML::LetWriteObject(instance, node);
 	}
 
-	// First, write out the child nodes that we consider instances: there is more than one
-	// parent node and we aren't the first one.
+	// Hierarchically write out the child nodes. When there is more than one parent node,
+	// only the first one in the document writes the node: the others write an instance of it.
 	size_t childCount = sceneNode->GetChildrenCount();
 	for (size_t c = 0; c < childCount; ++c)
 	{
 		FCDSceneNode* child = sceneNode->GetChild(c);
-		if (child->GetParent() != sceneNode)
+		if (FindFirstParent(child) == sceneNode)
+		{
+			FArchiveXML::LetWriteObject(child, node);
+		}
+		else
 		{
 			bool alreadyInstantiated = false;
 			for (size_t i = 0; i < instanceCount; ++i)
@@ -135,20 +166,11 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 				FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(const_cast<FCDocument*>(sceneNode->GetDocument()), NULL, FCDEntity::SCENE_NODE);
 				instance->SetEntity(const_cast<FCDSceneNode*>(child));
 				FArchiveXML::LetWriteObject(instance, node);
+				SAFE_RELEASE(instance);
 			}
 		}
 	}
 
-	// Then, hierarchically write out the child nodes.
-	for (size_t c = 0; c < childCount; ++c)
-	{
-		FCDSceneNode* child = sceneNode->GetChild(c);
-		if (child->GetParent() == sceneNode)
-		{
-			FArchiveXML::LetWriteObject(child, node);
-		}
-	}
-
 	// This only writes extra-related stuff, so execute last.
 	if (isVisualScene) FArchiveXML::WriteVisualScene(sceneNode, node);
 
-- 
2.43.0


From d80b583ed7534e9266e843fea58c4996716c6769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 119/207] fix: a morph controller lost a base morph controller
 that follows it in the library, and its targets with it

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 1986bab..c443498 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -555,9 +555,14 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 			return false;
 		}
 
-		morphController->SetBaseTarget(baseTarget);
-
 		data.targetId.clear();
+
+		// The base of this morpher is only valid once its own base is known.
+		if (baseTarget->GetType() == FCDEntity::CONTROLLER && baseTarget != morphController->GetParent())
+		{
+			FArchiveXML::LinkController((FCDController*) baseTarget);
+		}
+		morphController->SetBaseTarget(baseTarget);
 	}
 	return true;
 }
-- 
2.43.0


From 7b48fcd6214be6069a2d3850aca8e6bac967e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 120/207] fix: importing a geometry with several splines kept
 only the last one

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..b055f3c 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -579,8 +579,9 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 		// get the spline type
 		FUDaeSplineType::Type splineType = FUDaeSplineType::FromString(ReadNodeContentFull(typeNode));
 
-		// The types must be compatible
-		if (!geometrySpline->SetType(splineType))
+		// The types must be compatible: setting the type releases the splines that were already read.
+		if (geometrySpline->GetSplineCount() == 0) geometrySpline->SetType(splineType);
+		else if (splineType != geometrySpline->GetType())
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
 			return status;
-- 
2.43.0


From d8d4b062c12b7255835037efa39d01370215f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 121/207] fix: the extra information of a controller instance
 was exported twice

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 9dafc27..e95f4bd 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -151,7 +151,6 @@ xmlNode* FArchiveXML::WriteControllerInstance(FCDObject* object, xmlNode* parent
 		AddContent(skeletonNode, builder);
 	}
 
-	FArchiveXML::WriteEntityInstanceExtra(controllerInstance, instanceNode);
 	return instanceNode;
 }
 
-- 
2.43.0


From eebeeefcd96b29f49a617405a047b85c1094f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:48 +0000
Subject: [PATCH 122/207] fix: the extra information of camera, light and node
 instances was not exported

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index e95f4bd..18927be 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -84,7 +84,11 @@ xmlNode* FArchiveXML::WriteEntityInstance(FCDObject* object, xmlNode* parentNode
 	const FUUri& uri = entityInstance->GetEntityUri();
 	fstring uriString = entityInstance->GetDocument()->GetFileManager()->CleanUri(uri);
 	AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, uriString);
-
+	// The more specific instances write their extra information themselves, after their own elements.
+	if (entityInstance->GetObjectType() == FCDEntityInstance::GetClassType())
+	{
+		FArchiveXML::WriteEntityInstanceExtra(entityInstance, instanceNode);
+	}
 	return instanceNode;
 }
 
-- 
2.43.0


From f477bef7bcc07671a2908ae9b0568ae75ffb84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 123/207] fix: the interpolation types of exported curves were
 preceded by as many unknown ones

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..efb8994 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,7 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +606,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From 413758b154613e0e1dd9da671fe68aabb83dec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 124/207] fix: a curve driven by an element of a list was
 imported as driven by another element

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 7 ++-----
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp   | 5 +++--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index efb8994..541c6fc 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -463,15 +463,12 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 		FCDAnimatedData& data = it->second;
 
 		FUSStringBuilder builder(data.pointer);
-		int32 driverElement = animationCurve->GetDriverIndex();
+		int32 driverElement = animationCurve->GetDriverPtr()->GetArrayElement();
+		if (driverElement < 0) driverElement = animationCurve->GetDriverIndex();
 		if (driverElement >= 0)
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
 		}
-		if (animationCurve->GetDriverIndex() == 0)
-		{
-			builder.append('('); builder.append(animationCurve->GetDriverIndex()); builder.append(')');
-		}
 		AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index c443498..7dd1996 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -73,14 +73,15 @@ bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated*
 
 	bool driver = !data.driverPointer.empty();
 	driver &= animatedTargetPointer == data.driverPointer;
-	driver &= data.driverQualifier >= 0 && (uint32) data.driverQualifier < animated->GetValueCount();
+	bool isElement = animated->GetArrayElement() >= 0;
+	driver &= isElement ? data.driverQualifier == animated->GetArrayElement() : (data.driverQualifier >= 0 && (uint32) data.driverQualifier < animated->GetValueCount());
 	if (driver)
 	{
 		// Retrieve the value pointer for the driver
 		size_t curveCount = animationChannel->GetCurveCount();
 		for (size_t c = 0; c < curveCount; ++c)
 		{
-			animationChannel->GetCurve(c)->SetDriver(animated, data.driverQualifier);
+			animationChannel->GetCurve(c)->SetDriver(animated, isElement ? 0 : data.driverQualifier);
 		}
 	}
 	return driver;
-- 
2.43.0


From 07e405f931bfcc6e805a5c42463b07f157a293ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 125/207] fix: importing a curve that has its driver was an
 error, and missing drivers were not noticed

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 7dd1996..0fb228c 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -99,7 +99,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = it->second;
 
-		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && channel->GetCurve(0)->HasDriver())
+		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
 		{
 			status &= FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
 		}
-- 
2.43.0


From 5b1e9df527192ae1f657f33e167936efb051b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 126/207] fix: two channels of an animation with the same
 target were exported with the same data

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 541c6fc..26714f0 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -89,6 +89,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 
 	if (mergeCurves && realCurveCount > 1)
 	{
+		while (FindChildById(parentNode, baseId + "-input") != NULL) baseId.append("_");
 		// Prepare the list of default values
 		FloatList values;
 		values.reserve(data.defaultValues.size());
@@ -135,6 +136,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 				}
 				curveId.append(curveData.targetQualifier);
 				ids[c] = FCDObjectWithId::CleanId(curveId.ToCharPtr());
+				while (FindChildById(parentNode, ids[c] + "-input") != NULL) ids[c].append("_");
 
 				// Write out the curve's sources
 				FArchiveXML::WriteSourceFCDAnimationCurve(animationChannel->GetCurve(c), parentNode, ids[c]);
-- 
2.43.0


From 9e6d9cf7a74b96e8e1fb2d85228a6cb79b04d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 127/207] fix: the extra information of an imported animation
 was never exported again

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..1aac840 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -39,8 +39,8 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 #ifdef DONT_DEFINE_THIS
 	FCDAnimation* anim = animationChannel->GetParent();
 	FCDExtra* extra = anim->GetExtra();
-	extra->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDEType* type = extra->AddType("AnimTargets");
+	type->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDETechnique* teq = type->AddTechnique("TEMP");
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetPointer));
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetQualifier));
-- 
2.43.0


From 484eebc9fb92896b973ad8c79a292ba5381d586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 128/207] fix: exporting an imported animation clip lost the
 animations it instantiates

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 26714f0..7af1a29 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -212,6 +212,14 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 	// from the list of curves for this clip
 	typedef fm::pvector<const FCDAnimation> FCDAnimationConstList;
 	FCDAnimationConstList animations;
+	for (size_t i = 0; i < animationClip->GetAnimationCount(); ++i)
+	{
+		const FCDAnimation* animation = animationClip->GetAnimation(i);
+		if (animation != NULL && animations.find(animation) == animations.end())
+		{
+			animations.push_back(animation);
+		}
+	}
 	for (FCDAnimationCurveTrackList::iterator itC = animationClip->GetClipCurves().begin(); itC != animationClip->GetClipCurves().end(); ++itC)
 	{
 		const FCDAnimationChannel* channel = (*itC)->GetParent();
-- 
2.43.0


From d0d0c9f1a898e4cc9bfa2d156ac28c6cb26e8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 129/207] fix: converting an empty text to a vector gave
 uninitialized values

---
 FCollada/FUtils/FUStringConversion.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 304e933..1aa13f9 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -215,7 +215,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime&
 template<class CH>
 FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 {
-	FMVector2 p;
+	FMVector2 p = FMVector2::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -227,7 +227,7 @@ FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 {
-	FMVector3 p;
+	FMVector3 p = FMVector3::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -240,7 +240,7 @@ FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector4 FUStringConversion::ToVector4(const CH** value)
 {
-	FMVector4 p;
+	FMVector4 p = FMVector4::Zero;
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
-- 
2.43.0


From 280418295a56fbedec50c6f6868b981b9cd9a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 130/207] fix: only the last of the images that initialize a
 surface was imported

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..10c0aab 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -468,16 +468,17 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 			effectParameterSurface->SetInitMethod(new FCDEffectParameterSurfaceInitFrom());
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
-		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), effectParameterSurface->GetNames());
+		StringList names;
+		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), names);
 
-		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
+		if (names.size() == 0 || names[0].empty())
 		{
-			effectParameterSurface->GetNames().clear();
+			names.clear();
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_INIT_FROM, surfaceNode->line);
 		}
+		effectParameterSurface->GetNames().insert(effectParameterSurface->GetNames().end(), names.begin(), names.end());
 
-		if (effectParameterSurface->GetNames().size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
+		if (names.size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
 		{
 			if (HasNodeProperty(*it, DAE_MIP_ATTRIBUTE))
 			{
-- 
2.43.0


From 4ee15eaf4b25287b49bcbd4845af971cd42d73e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 131/207] fix: a surface without a viewport ratio was imported
 with the ratio zero

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 10c0aab..a113f68 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -659,7 +659,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
 	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
 	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-- 
2.43.0


From 9c39a8b80d0cbc6592c255585de06ad63e5f663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 132/207] fix: the mipmap generation flag of a surface was not
 exported

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..8414bc4 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -475,6 +475,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		xmlNode* mipmapLevelsNode = AddChild(surfaceNode, DAE_MIP_LEVELS);
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		xmlNode* mipmapGenerateNode = AddChild(surfaceNode, DAE_MIPMAP_GENERATE);
+		AddContent(mipmapGenerateNode, FUStringConversion::ToString(effectParameterSurface->IsGenerateMipMaps()));
+	}
 
 	return parameterNode;
 }
-- 
2.43.0


From 3e8515013555d56d218d58e14e402af2cbf0ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 133/207] fix: the semantic of an animated vector parameter of
 a geometry instance was not exported

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 8414bc4..6832031 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -497,7 +497,7 @@ xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* par
 	else if (effectParameterVector->IsAnimator())
 	{
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterVector, parentNode);
-		AddAttribute(parameterNode, DAE_FXSTD_STATE_REF_ELEMENT, effectParameterVector->GetReference());
+		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterVector->GetSemantic());
 		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT4_ATTRIBUTE_TYPE);
 		return parameterNode;
 	}
-- 
2.43.0


From 0e4b1d70c703cc88c44ce7cea7cb4641632d5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 134/207] fix: exporting a surface that is initialized from
 images it does not have crashed

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 6832031..5cce120 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -369,12 +369,12 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->volumeType == FCDEffectParameterSurfaceInitVolume::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				break;
 			}
@@ -385,13 +385,13 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
 					AddChild(typeNode, DAE_ORDER_ELEMENT); //FIXME: complete when the spec gets more info.
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::FACE)
 				{
@@ -407,7 +407,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 			{
 				xmlNode* childNode = AddChild(surfaceNode, DAE_INITPLANAR_ELEMENT);
 				xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-				AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+				if (effectParameterSurface->GetImage(0) != NULL) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				break;
 			}
 			default:
-- 
2.43.0


From 0ab4a4d18ee9765bd01c73bd24034e1fac2d5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 135/207] fix: the textures, reference and animation of the
 specular factor were only exported when its value was not one

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 5cce120..c2ba990 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -939,7 +939,9 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f)
+			const FCDEffectParameterFloat* specularFactor = effectStandard->GetSpecularFactorParam();
+			if (effectStandard->GetSpecularFactor() != 1.0f || specularFactor->IsReferencer() || specularFactor->GetValue().IsAnimated()
+				|| effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
-- 
2.43.0


From c8abeab4e82d8bba5c2dd1921cc543d8f932e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 136/207] fix: the shininess of a material with shininess
 textures was replaced by one

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index a113f68..72bf6a7 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -1271,7 +1271,7 @@ bool FArchiveXML::LoadEffectStandard(FCDObject* object, xmlNode* baseNode)
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PROG_NODE_MISSING, baseNode->line);
 	}
 
-	bool hasTranslucency = false, hasReflectivity = false;
+	bool hasTranslucency = false, hasReflectivity = false, hasShininess = false;
 	bool hasRefractive = false;
 
 	// Read in the parameters for the common program types and apply them to the shader
@@ -1321,7 +1321,14 @@ bool FArchiveXML::LoadEffectStandard(FCDObject* object, xmlNode* baseNode)
 		}
 		else if (parameterName == DAE_SHININESS_MATERIAL_PARAMETER)
 		{
+			// The shininess textures are exported apart from the shininess value: they do not replace a value which was already read.
+			float shininess = effectStandard->GetShininess();
 			status &= (FArchiveXML::ParseFloatTextureParameter(effectStandard, parameterNode, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS));
+			if (hasShininess && FindChildByType(parameterNode, DAE_FXSTD_FLOAT_ELEMENT) == NULL)
+			{
+				effectStandard->SetShininess(shininess);
+			}
+			hasShininess = true;
 		}
 		else if (parameterName == DAE_REFLECTIVE_MATERIAL_PARAMETER)
 		{
-- 
2.43.0


From cf1292ba1cb9cac8430a93a8a6459e6a7e238035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 137/207] fix: the equation of a physics plane was exported in
 the wrong order

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6b8444..a1920e4 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -130,7 +130,7 @@ xmlNode* FArchiveXML::WritePASPlane(FCDObject* object, xmlNode* node)
 
 	xmlNode* geomNode = AddChild(node, DAE_PLANE_ELEMENT);
 	FMVector4 equation;
-	equation.w = pASPlane->normal.x; equation.x = pASPlane->normal.y; equation.y = pASPlane->normal.z; equation.z = pASPlane->d;
+	equation.x = pASPlane->normal.x; equation.y = pASPlane->normal.y; equation.z = pASPlane->normal.z; equation.w = pASPlane->d;
 	fm::string s = FUStringConversion::ToString(equation);
 	AddChild(geomNode, DAE_EQUATION_ELEMENT, s);
 	return geomNode;
-- 
2.43.0


From dafe960a4c9f5dfdf3156b1043286133d5f09d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 138/207] fix: the springs of a rigid constraint were not
 imported from where they are exported

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 0f88407..3627ffe 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -838,7 +838,8 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 
-	xmlNode* spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
+	xmlNode* spring = FindChildByType(techniqueNode, DAE_SPRING_ELEMENT);
+	if (spring == NULL) spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
 	if (spring)
 	{
 		xmlNode* linearSpring = FindChildByType(spring, DAE_LINEAR_ELEMENT);
-- 
2.43.0


From f9a80f74aa96a8cfcbd87945c7c4cf87c8b7b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 139/207] fix: the transforms of a rigid constraint were
 imported in another order

---
 .../FArchiveXML/FAXPhysicsImport.cpp          | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 3627ffe..7b526a3 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -720,17 +720,16 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 
 	physicsRigidConstraint->SetSubId(FUDaeParser::ReadNodeSid(physicsRigidConstraintNode));
 
-#define PARSE_TRANSFORM(node, className, nodeName, transforms) { \
-	xmlNodeList transformNodes; \
-	FindChildrenByType(node, nodeName, transformNodes); \
-	for (xmlNodeList::iterator itT = transformNodes.begin(); itT != transformNodes.end(); ++itT) \
+#define PARSE_TRANSFORMS(node, addTransform) { \
+	for (xmlNode* child = (node != NULL) ? node->children : NULL; child != NULL; child = child->next) \
 	{ \
-		if (IsEquivalent((*itT)->name, nodeName)) { \
-			className* transform = new className(physicsRigidConstraint->GetDocument(), NULL); \
-			transforms.push_back(transform); \
-			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
+		if (child->type != XML_ELEMENT_NODE) continue; \
+		uint32 transformType = FArchiveXML::GetTransformType(child); \
+		if (transformType == FCDTransform::TRANSLATION || transformType == FCDTransform::ROTATION) { \
+			FCDTransform* transform = physicsRigidConstraint->addTransform((FCDTransform::Type) transformType); \
+			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child); \
 			if (!status) { \
-				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, (*itT)->line);} \
+				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, child->line);} \
 		} \
 	}  }
 
@@ -753,8 +752,7 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <translate>
-	PARSE_TRANSFORM(referenceBodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
-	PARSE_TRANSFORM(referenceBodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
+	PARSE_TRANSFORMS(referenceBodyNode, AddTransformRef)
 
 	// target body
 	xmlNode* bodyNode = FindChildByType(physicsRigidConstraintNode, DAE_ATTACHMENT_ELEMENT);
@@ -773,10 +771,9 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <scale>, <translate>
-	PARSE_TRANSFORM(bodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
-	PARSE_TRANSFORM(bodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
+	PARSE_TRANSFORMS(bodyNode, AddTransformTar)
 
-#undef PARSE_TRANSFORM
+#undef PARSE_TRANSFORMS
 
 	//technique_common
 	xmlNode* techniqueNode = FindChildByType(physicsRigidConstraintNode, DAE_TECHNIQUE_COMMON_ELEMENT);
-- 
2.43.0


From 4d5f5ab66e51b59779d6688f389ed1d90a10da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 140/207] fix: the mass or the density of a physics shape was
 not exported when it was zero

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index a1920e4..0f2f9d7 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -31,9 +31,9 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	xmlNode* physicsShapeNode = AddChild(parentNode, DAE_SHAPE_ELEMENT);
 
 	AddChild(physicsShapeNode, DAE_HOLLOW_ELEMENT, physicsShape->IsHollow()?"true":"false");
-	if (physicsShape->GetMass() && !physicsShape->IsDensityMoreAccurate())
+	if (physicsShape->GetMassPointer() != NULL && !physicsShape->IsDensityMoreAccurate())
 		AddChild(physicsShapeNode, DAE_MASS_ELEMENT, FUStringConversion::ToString(physicsShape->GetMass()));
-	if (physicsShape->GetDensity())
+	if (physicsShape->GetDensityPointer() != NULL)
 		AddChild(physicsShapeNode, DAE_DENSITY_ELEMENT, FUStringConversion::ToString(physicsShape->GetDensity()));
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
-- 
2.43.0


From 5f245fdfaaf6d4c7250e14d2650d07914abdb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 141/207] fix: the physics material that belongs to a shape was
 lost by exporting and importing

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 0f2f9d7..40a3f51 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -38,8 +38,7 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
 	{
-		xmlNode* materialNode = AddChild(physicsShapeNode, DAE_PHYSICS_MATERIAL_ELEMENT);
-		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), materialNode);
+		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), physicsShapeNode);
 	}
 	else if (physicsShape->GetInstanceMaterial())
 	{
-- 
2.43.0


From 68ba33c358a3b5e7292cc27554aaa67704805321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 142/207] fix: the library physics material of a shape was lost
 by exporting or importing

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 5 +++++
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 40a3f51..9faf154 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -44,6 +44,11 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	{
 		FArchiveXML::LetWriteObject(physicsShape->GetInstanceMaterial(), physicsShapeNode);
 	}
+	else if (physicsShape->GetPhysicsMaterial() != NULL)
+	{
+		xmlNode* instanceNode = AddChild(physicsShapeNode, DAE_INSTANCE_PHYSICS_MATERIAL_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + physicsShape->GetPhysicsMaterial()->GetDaeId());
+	}
 
 	if (physicsShape->GetGeometryInstance())
 		FArchiveXML::LetWriteObject(physicsShape->GetGeometryInstance(), physicsShapeNode);
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 7b526a3..37b3b0d 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -292,6 +292,10 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 				FArchiveXML::LoadPhysicsMaterial(material, child);
 				physicsShape->GetInstanceMaterial()->SetEntity(material);
 			}
+			else
+			{
+				physicsShape->SetPhysicsMaterial((FCDPhysicsMaterial*) physicsShape->GetInstanceMaterial()->GetEntity());
+			}
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_GEOMETRY_ELEMENT))
 		{
-- 
2.43.0


From 89acf93814f53cbf4423a5f795716be6f86e7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 143/207] fix: the animation of the mass frame orientation of a
 rigid body was not exported

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 9faf154..e88683c 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -303,7 +303,8 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	xmlNode* massFrameNode = AddChild(techniqueNode, DAE_MASS_FRAME_ELEMENT);
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
-	AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	xmlNode* rotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), rotateNode, DAE_ROTATE_ELEMENT);
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
-- 
2.43.0


From ff3886bce19eb08046f288780f469e4562766aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 144/207] fix: the animations of the velocities of a rigid body
 instance were not imported

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 46afd30..bdc1d05 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -325,6 +325,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	{
 		physicsRigidBodyInstance->SetAngularVelocity(FUStringConversion::ToVector3(
 				ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetAngularVelocity(), param);
 	}
 	else
 	{
@@ -335,6 +336,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	if (param != NULL)
 	{
 		physicsRigidBodyInstance->SetVelocity(FUStringConversion::ToVector3(ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetVelocity(), param);
 	}
 	else
 	{
-- 
2.43.0


From 816c247b91e8a02b37e6324af955c8db983f912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 145/207] fix: importing or cloning the force field instance of
 a physics scene or model crashed

---
 FCollada/FCDocument/FCDPhysicsModelInstance.cpp | 3 ++-
 FCollada/FCDocument/FCDPhysicsScene.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
index adf13a7..7a7abbc 100644
--- a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
@@ -55,7 +55,8 @@ FCDPhysicsRigidConstraintInstance* FCDPhysicsModelInstance::AddRigidConstraintIn
 
 FCDPhysicsForceFieldInstance* FCDPhysicsModelInstance::AddForceFieldInstance(FCDForceField* forceField)
 {
-	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, forceField);
+	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	instances.push_back(instance);
 	SetNewChildFlag();
 	return (FCDPhysicsForceFieldInstance*)instance;
diff --git a/FCollada/FCDocument/FCDPhysicsScene.cpp b/FCollada/FCDocument/FCDPhysicsScene.cpp
index 15ddf3c..aec3748 100644
--- a/FCollada/FCDocument/FCDPhysicsScene.cpp
+++ b/FCollada/FCDocument/FCDPhysicsScene.cpp
@@ -81,7 +81,8 @@ FCDPhysicsForceFieldInstance* FCDPhysicsScene::AddForceFieldInstance(FCDForceFie
 {
 	FCDPhysicsForceFieldInstance* instance = (FCDPhysicsForceFieldInstance*)
 			FCDEntityInstanceFactory::CreateInstance(
-					GetDocument(), (FCDSceneNode*) NULL, forceField);
+					GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	forceFieldInstances.push_back(instance);
 	SetNewChildFlag();
 	return instance;
-- 
2.43.0


From 0a2dba14c1b8edca0e8876f4e3a925181ee976ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 146/207] fix: the instances of physics models were imported in
 the order of their memory addresses

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 8 ++++----
 FColladaPlugins/FArchiveXML/FAXStructures.h      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 37b3b0d..cfd6cec 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -233,12 +233,12 @@ bool FArchiveXML::AttachModelInstancesFCDPhysicsModel(FCDPhysicsModel* physicsMo
 	FUAssert(it != FArchiveXML::documentLinkDataMap[physicsModel->GetDocument()].physicsModelDataMap.end(),);
 	FCDPhysicsModelData& data = it->second;
 
-	for (ModelInstanceNameNodeMap::iterator it = data.modelInstancesMap.begin(); it != data.modelInstancesMap.end(); ++it)
+	for (ModelInstanceNodeList::iterator it = data.modelInstanceNodes.begin(); it != data.modelInstanceNodes.end(); ++it)
 	{
 		FCDPhysicsModelInstance* instance = physicsModel->AddPhysicsModelInstance();
-		status &= FArchiveXML::LoadPhysicsModelInstance(instance, it->first);
+		status &= FArchiveXML::LoadPhysicsModelInstance(instance, *it);
 	}
-	data.modelInstancesMap.clear();
+	data.modelInstanceNodes.clear();
 	return status;
 }
 
@@ -673,7 +673,7 @@ bool FArchiveXML::LoadPhysicsModel(FCDObject* object, xmlNode* physicsModelNode)
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_PHYSICS_MODEL_ELEMENT))
 		{
-			data.modelInstancesMap.insert(child, ReadNodeUrl(child));
+			data.modelInstanceNodes.push_back(child);
 		}
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5fdc209..030c602 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -173,10 +173,10 @@ typedef fm::map<FCDAnimation*, FCDAnimationData> FCDAnimationDataMap;
 //
 // For FCDPhysicsModel
 //
-typedef fm::map<xmlNode*, FUUri> ModelInstanceNameNodeMap;
+typedef fm::pvector<xmlNode> ModelInstanceNodeList; // in document order.
 struct FCDPhysicsModelData
 {
-	ModelInstanceNameNodeMap modelInstancesMap;
+	ModelInstanceNodeList modelInstanceNodes;
 };
 typedef fm::map<FCDPhysicsModel*, FCDPhysicsModelData> FCDPhysicsModelDataMap;
 
-- 
2.43.0


From 0644878c77b22144d6bf87b401a9742126a4c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 147/207] fix: importing a skin without its <v> or <vcount>
 element crashed

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 2b9e7a0..4fe03ec 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -115,6 +115,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (firstCombinerValueNode == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, combinerNode->line);
+		return status = false;
 	}
 
 	// Process these inputs
@@ -173,7 +174,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	while (vNode != NULL && vNode->type != XML_ELEMENT_NODE) vNode = vNode->next;
 	if (vNode == NULL || !IsEquivalent(vNode->name, DAE_VERTEX_ELEMENT))
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, vNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, combinerNode->line);
+		return status = false;
 	}
 	content = ReadNodeContentDirect(vNode);
 	FUStringConversion::ToInt32List(content, combinerVertexIndices);
-- 
2.43.0


From e5f77e6b4ba0c6d0fb20012700c0692d63fab5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 148/207] fix: importing a skin with fewer bind poses than
 joints read out of bounds

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 4fe03ec..f373235 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -237,7 +237,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	for (size_t i = 0; i < jointCount; ++i)
 	{
 		skinController->GetJoint(i)->SetId(jointSubIds[i]);
-		skinController->GetJoint(i)->SetBindPoseInverse(invertedBindPoses[i]);
+		skinController->GetJoint(i)->SetBindPoseInverse((i < invertedBindPoses.size()) ? invertedBindPoses[i] : FMMatrix44::Identity);
 	}
 
 	skinController->SetDirtyFlag();
-- 
2.43.0


From 6f6c855906d0109e8bce4ee7307b8ac2d9788f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 149/207] fix: importing a skin with missing weights, counts or
 indices, or with unusual offsets, read out of bounds

---
 .../FArchiveXML/FAXControllerImport.cpp       | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index f373235..4cabfef 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -191,15 +191,31 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
 	}
 
+	// The number of indices of one pair depends on the inputs.
+	if (jointIdx < 0 || weightIdx < 0)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, combinerNode->line);
+		return status = false;
+	}
+	size_t pairStride = (size_t) max(max(jointIdx, weightIdx) + 1, 2);
+
 	// Setup the joint-weight-vertex matches
 	skinController->SetInfluenceCount(combinerValueCount);
 	size_t jointCount = jointSubIds.size(), weightCount = weights.size(), offset = 0;
 	for (size_t j = 0; j < combinerValueCount; ++j)
 	{
 		FCDSkinControllerVertex* vert = skinController->GetVertexInfluence(j);
-		uint32 localValueCount = combinerVertexCounts[j];
+		uint32 localValueCount = (j < combinerVertexCounts.size()) ? combinerVertexCounts[j] : 0;
+
+		// Only the pairs that have indices can be read.
+		size_t availableCount = (combinerVertexIndexCount - offset) / pairStride;
+		if (localValueCount > availableCount)
+		{
+			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, vNode->line);
+			localValueCount = (uint32) availableCount;
+		}
 		vert->SetPairCount(localValueCount);
-		for (size_t i = 0; i < localValueCount && offset < combinerVertexIndexCount - 1; ++i)
+		for (size_t i = 0; i < localValueCount; ++i)
 		{
 			FCDJointWeightPair* pair = vert->GetPair(i);
 			pair->jointIndex = combinerVertexIndices[offset + jointIdx];
@@ -214,8 +230,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_WEIGHT_INDEX);
 				weightIndex = 0;
 			}
-			pair->weight = weights[weightIndex];
-			offset += 2;
+			pair->weight = (weightCount > 0) ? weights[weightIndex] : 0.0f;
+			offset += pairStride;
 		}
 	}
 
-- 
2.43.0


From 0ffda0bbacf3c157b365511cac6ae61cd45ca5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 150/207] fix: importing a morph controller without its
 <targets> element crashed

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 4cabfef..d075cb2 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -289,7 +289,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	{
 		//return status.Fail(FS("Cannot find necessary <targets> element for morph controller: ") + TO_FSTRING(parent->GetDaeId()), morphNode->line);
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, morphNode->line);
-
+		return status = false;
 	}
 	xmlNodeList inputNodes;
 	FindChildrenByType(targetsNode, DAE_INPUT_ELEMENT, inputNodes);
-- 
2.43.0


From 9bba754a812c53fe495e6b2073a116efbdaf1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 151/207] fix: importing a morph controller with fewer weights
 than targets read out of bounds

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index d075cb2..f6b13cf 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -329,6 +329,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	if (weights.size() != targetCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_SOURCE_SIZE, targetSourceNode->line);
+		weights.resize(targetCount, 0.0f);
 	}
 
 	// Find the target geometries and build the morph targets
-- 
2.43.0


From c396710167fb05b24aba4b900730fafb24f3d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 152/207] fix: importing a mesh without its <vertices> element
 crashed

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index b055f3c..ab1c682 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -113,11 +113,11 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	}
 	if (!hasPositions)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, ((verticesNode != NULL) ? verticesNode : meshNode)->line);
 	}
 	if (geometryMesh->GetVertexSourceCount() == 0)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, ((verticesNode != NULL) ? verticesNode : meshNode)->line);
 	}
 
 	// Create our rendering object and read in the tessellation
-- 
2.43.0


From 2e7fd31d753201f05222f8fa3025d15e6889f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 153/207] fix: importing a polygons input without source read
 out of bounds

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index ab1c682..434e4f0 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -285,7 +285,7 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		if (IsEquivalent(itNode->name, DAE_INPUT_ELEMENT))
 		{
 			fm::string sourceId = ReadNodeSource(itNode);
-			if (sourceId[0] == '#') sourceId.erase(0, 1);
+			if (!sourceId.empty() && sourceId[0] == '#') sourceId.erase(0, 1);
 
 			// Parse input idx/offset
 			fm::string idx = ReadNodeProperty(itNode, DAE_OFFSET_ATTRIBUTE);
-- 
2.43.0


From 884b51b49efb08c8f5819a4d6ee6682f245ec8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 154/207] fix: importing a polylist of a mesh without positions
 crashed

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 434e4f0..6e04f2c 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -401,8 +401,8 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			// Count the total number of face-vertices expected, to pre-buffer the index lists
 			// The absolute maximum possible is the number of vertices (That is, a face
 			// that includes every vertex)
-			// We can assume all these ptrs are valid, otherwise we wouldnt get here.
-			size_t nVertices = geometryPolygons->GetParent()->GetPositionSource()->GetValueCount();
+			const FCDGeometrySource* positionSource = geometryPolygons->GetParent()->GetPositionSource();
+			size_t nVertices = (positionSource != NULL) ? positionSource->GetValueCount() : 0;
 			expectedVertexCount = 0;
 			for (size_t i = 0; i < vCountCount; ++i)
 			{
-- 
2.43.0


From a0fce283957bc287bb78b9c7daecb8d2e7578797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 155/207] fix: importing polygons without any valid input
 crashed

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 6e04f2c..1c8ecd5 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -434,6 +434,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	if (masterIndices == NULL)
+	{
+		// None of the inputs has a source: there is nothing to index.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_NO_VERTEX_INPUT, baseNode->line);
+		return status;
+	}
+
 	// Process the tessellation
 	for (; itNode != NULL; itNode = itNode->next)
 	{
-- 
2.43.0


From b3569dd2f78450cf8087931e4eff1fabb8b3c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 156/207] fix: importing a light without its common technique
 crashed

---
 FColladaPlugins/FArchiveXML/FAXLightImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
index 5495648..7ebdd61 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
@@ -30,7 +30,7 @@ bool FArchiveXML::LoadLight(FCDObject* object, xmlNode* lightNode)
 
 	// Look for the <point>, <directional>, <spot> or <ambient> element under the common-profile technique
 	xmlNode* lightParameterNode = NULL;
-	for (xmlNode* child = commonTechniqueNode->children; child != NULL; child = child->next)
+	for (xmlNode* child = (commonTechniqueNode != NULL) ? commonTechniqueNode->children : NULL; child != NULL; child = child->next)
 	{
 		if (child->type != XML_ELEMENT_NODE) continue;
 		if (IsEquivalent(child->name, DAE_LIGHT_POINT_ELEMENT)) { lightParameterNode = child; light->SetLightType(FCDLight::POINT); break; }
-- 
2.43.0


From 21f8cc52f00ddc108c2c8143ceb761a00b75bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 157/207] fix: importing a material without an effect instance
 crashed

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 72bf6a7..ef523f9 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -51,6 +51,7 @@ bool FArchiveXML::LoadMaterial(FCDObject* object, xmlNode* materialNode)
 	if (effectNode == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_MISSING_ELEMENT, materialNode->line);
+		return status;
 	}
 
 	FUUri url = ReadNodeUrl(effectNode);
-- 
2.43.0


From 1a9fe39dc7ad186c034af76608ae18bfe2095ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 158/207] fix: importing a controller instance whose skeleton
 is not found crashed when there is no visual scene

---
 FCollada/FCDocument/FCDControllerInstance.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDControllerInstance.cpp b/FCollada/FCDocument/FCDControllerInstance.cpp
index f217ef8..346c414 100644
--- a/FCollada/FCDocument/FCDControllerInstance.cpp
+++ b/FCollada/FCDocument/FCDControllerInstance.cpp
@@ -146,6 +146,7 @@ void FCDControllerInstance::FindSkeletonNodes(FCDSceneNodeList& skeletonNodes) c
 	// If we have no root, add the visual scene root.
 	if (skeletonNodes.empty())
 	{
-		skeletonNodes.push_back(const_cast<FCDSceneNode*>(document->GetVisualSceneInstance()));
+		const FCDSceneNode* sceneRoot = document->GetVisualSceneInstance();
+		if (sceneRoot != NULL) skeletonNodes.push_back(const_cast<FCDSceneNode*>(sceneRoot));
 	}
 }
-- 
2.43.0


From 76811ad10ccb11fb55b3dde3699d692360a20545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 159/207] fix: importing a rigid constraint instance of a
 missing physics model crashed

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index bdc1d05..cd79c1e 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -365,7 +365,12 @@ bool FArchiveXML::LoadPhysicsRigidConstraintInstance(FCDObject* object, xmlNode*
 		status = false;
 	}
 
-	FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity();
+	FCDPhysicsModelInstance* parentInstance = physicsRigidConstraintInstance->GetModelParentInstance();
+	if (parentInstance == NULL || parentInstance->GetEntity() == NULL || parentInstance->GetEntity()->GetType() != FCDEntity::PHYSICS_MODEL)
+	{
+		return false;
+	}
+	FCDPhysicsModel* model = (FCDPhysicsModel*) parentInstance->GetEntity();
 	fm::string physicsRigidConstraintSid = ReadNodeProperty(instanceNode, DAE_CONSTRAINT_ATTRIBUTE);
 	FCDPhysicsRigidConstraint* rigidConstraint = model->FindRigidConstraintFromSid(physicsRigidConstraintSid);
 	if (!rigidConstraint)
-- 
2.43.0


From 7b44e5f6693866e060bac24d6d1880473fffdbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 160/207] fix: importing a rigid body instance of a missing
 physics model crashed

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index cd79c1e..d54efd9 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -309,6 +309,11 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		}
 		physicsRigidBodyInstance->SetRigidBody(body);
 	}
+	else
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, instanceNode->line);
+		return false;
+	}
 
 	//Read in the same children as rigid_body + velocity and angular_velocity
 	xmlNode* techniqueNode = FindChildByType(instanceNode, DAE_TECHNIQUE_COMMON_ELEMENT);
-- 
2.43.0


From 9bfdf20daa8f85f420ee507708b02ca2907e6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 161/207] fix: exporting a rigid body instance without target
 node or body crashed

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 18927be..9bc5af6 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -249,8 +249,14 @@ xmlNode* FArchiveXML::WritePhysicsRigidBodyInstance(FCDObject* object, xmlNode*
 
 	xmlNode* instanceNode = FArchiveXML::WriteEntityInstance(physicsRigidBodyInstance, parentNode);
 
-	AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
-	AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	if (physicsRigidBodyInstance->GetTargetNode() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
+	}
+	if (physicsRigidBodyInstance->GetEntity() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	}
 
 	//inconsistency in the spec
 	RemoveAttribute(instanceNode, DAE_URL_ATTRIBUTE);
-- 
2.43.0


From c3342047615f982c3e3adb3e6dd5c7833ae277d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:19 +0000
Subject: [PATCH 162/207] fix: importing an interpolation source with too few
 values read out of bounds

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index ac45698..6b85799 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -426,9 +426,11 @@ namespace FUDaeParser
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
 			FUStringConversion::ToStringList(arrayContent, stringArray);
+			size_t stringCount = stringArray.size();
 			for (uint32 i = 0; i < count; ++i)
 			{
-				array[i] = (uint32) FUDaeInterpolation::FromString(stringArray[i * stride]);
+				size_t index = (size_t) i * stride;
+				array[i] = (uint32) ((index < stringCount) ? FUDaeInterpolation::FromString(stringArray[index]) : FUDaeInterpolation::DEFAULT);
 			}
 		}
 	}
-- 
2.43.0


From 68d24e8a4daadfa271113e2c4adb9e0d8c32d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 163/207] fix: importing a spline of an unknown type crashed

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 1c8ecd5..1291b27 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -596,6 +596,11 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 
 		// Read in the typed spline.
 		FCDSpline* spline = geometrySpline->AddSpline();
+		if (spline == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
+			continue;
+		}
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
-- 
2.43.0


From 1a980f0af629011854b2bb9e9a1743820ee40c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 164/207] fix: importing a physics shape whose mesh has no
 positions crashed

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index ad60a08..82c13f4 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -211,6 +211,7 @@ float FCDPhysicsShape::CalculateVolume() const
 			{
 				const FCDGeometryPolygons* polygons = mesh->GetPolygons(i);
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
+				if (positionInput == NULL || positionInput->GetSource() == NULL) continue;
 				const FCDGeometrySource* positionSource = positionInput->GetSource();
 				uint32 positionStride = positionSource->GetStride();
 				FUAssert(positionStride == 3, continue;);
-- 
2.43.0


From 4439c698e4275b2a5687ea66d66940e9cf041923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 165/207] fix: exporting the merged curves of a channel with
 more targets than the animated value has components crashed

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 7af1a29..3bf7fa7 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -516,7 +516,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	pchar* parameters = new pchar[animationMultiCurve->GetDimension()];
 	for (size_t i = 0; i < animationMultiCurve->GetDimension(); ++i)
 	{
-		parameters[i] = qualifiers[i];
+		parameters[i] = (qualifiers[i] != NULL) ? qualifiers[i] : "";
 		if (*(parameters[i]) == '.') ++(parameters[i]);
 	}
 	if (animationMultiCurve->GetDimension() == 16)
-- 
2.43.0


From 14da007a81dea926fff13661e209ba9359737f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 166/207] fix: attaching a curve twice to an animated value
 left a dangling pointer behind

---
 FCollada/FCDocument/FCDAnimated.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDAnimated.cpp b/FCollada/FCDocument/FCDAnimated.cpp
index 20f4ad5..4667e6b 100644
--- a/FCollada/FCDocument/FCDAnimated.cpp
+++ b/FCollada/FCDocument/FCDAnimated.cpp
@@ -84,6 +84,7 @@ FCDAnimated::~FCDAnimated()
 bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurve* curve)
 {
 	FUAssert(index < GetValueCount(), return false);
+	if (curves.at(index).contains(curve)) return true; // a curve is tracked once.
 	curves.at(index).push_back(curve);
 	SetNewChildFlag();
 	return true;
-- 
2.43.0


From a76968a418b5dd3e2fca481a248dd8e199182ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:44 +0000
Subject: [PATCH 167/207] fix: importing a physics shape whose mesh has
 incomplete positions read out of bounds

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 82c13f4..5b61cbf 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -217,7 +217,7 @@ float FCDPhysicsShape::CalculateVolume() const
 				FUAssert(positionStride == 3, continue;);
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
-				for (size_t pos = 0; pos < positionDataLength;)
+				for (size_t pos = 0; pos + positionStride <= positionDataLength;)
 				{
 					boundary.Include(FMVector3(positionData, (uint32)pos));
 					pos += positionStride;
-- 
2.43.0


From 7b5669c6b77e4cdb704da6ccfbc47eebcdbebd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 168/207] fix: a tracked list that held an object twice kept a
 dangling pointer to it

---
 FCollada/FUtils/FUTracker.h | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 9c87eee..3628ab3 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -199,7 +199,7 @@ public:
 	{
 		for (iterator it = begin(); it != end(); ++it)
 		{
-			FUTracker::UntrackObject((FUTrackable*) (*it));
+			if (FUTracker::TracksObject((FUTrackable*) (*it))) FUTracker::UntrackObject((FUTrackable*) (*it));
 		}
 		Parent::clear();
 	}
@@ -243,7 +243,7 @@ public:
 		@param object An object to contain. */
 	inline void push_back(ObjectClass* object)
 	{
-		FUTracker::TrackObject((FUTrackable*) object);
+		TrackOnce((FUTrackable*) object);
 		Parent::push_back(object);
 	}
 
@@ -253,7 +253,7 @@ public:
 		@return The iterator to the inserted object. */
 	iterator insert(iterator _iterator, ObjectClass* object)
 	{
-		FUTracker::TrackObject(object);
+		TrackOnce((FUTrackable*) object);
 		return (iterator) Parent::insert(_iterator, object);
 	}
 
@@ -280,7 +280,7 @@ public:
 			for (; _startIterator != _endIterator; ++_startIterator, ++_where)
 			{
 				*_where = const_cast<ObjectClass*>((const ObjectClass*)(*_startIterator));
-				FUTracker::TrackObject(const_cast<FUTrackable*>((const FUTrackable*) (*_startIterator)));
+				TrackOnce(const_cast<FUTrackable*>((const FUTrackable*) (*_startIterator)));
 			}
 		}
 	}
@@ -290,8 +290,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(back());
+			ObjectClass* object = back();
 			Parent::pop_back();
+			UntrackUnused(object);
 		}
 	}
 
@@ -299,8 +300,10 @@ public:
 		@param _it The list position for the value to remove. */
 	iterator erase(iterator _it)
 	{
-		FUTracker::UntrackObject((FUTrackable*) *_it);
-		return (iterator) Parent::erase(_it);
+		ObjectClass* object = *_it;
+		iterator next = (iterator) Parent::erase(_it);
+		UntrackUnused(object);
+		return next;
 	}
 
 	/** Removes a range of values from the list.
@@ -308,8 +311,10 @@ public:
 		@param last The list position just passed the last value to remove. */
 	inline void erase(iterator first, iterator last)
 	{
-		for (iterator it = first; it != last; ++it) FUTracker::UntrackObject((FUTrackable*) *it);
+		fm::pvector<ObjectClass> erased;
+		erased.insert(erased.end(), first, last);
 		Parent::erase(first, last);
+		for (iterator it = (iterator) erased.begin(); it != (iterator) erased.end(); ++it) UntrackUnused(*it);
 	}
 
 	/** Removes a range of values from the list.
@@ -325,8 +330,7 @@ public:
 		iterator it = Parent::find(value);
 		if (it != Parent::end())
 		{
-			FUTracker::UntrackObject((FUTrackable*) *it);
-			Parent::erase(it);
+			erase(it);
 			return true;
 		}
 		return false;
@@ -377,8 +381,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(front());
+			ObjectClass* object = front();
 			Parent::pop_front();
+			UntrackUnused(object);
 		}
 	}
 
@@ -388,8 +393,13 @@ protected:
 	virtual void OnObjectReleased(FUTrackable* object)
 	{
 		FUAssert(TracksObject(object), return);
-		Parent::erase((ObjectClass*) object);
+		while (Parent::erase((ObjectClass*) object)) {}
 	}
+
+private:
+	// The same object may be within the list several times: it is tracked once.
+	void TrackOnce(FUTrackable* object) { if (!FUTracker::TracksObject(object)) FUTracker::TrackObject(object); }
+	void UntrackUnused(ObjectClass* object) { if (FUTracker::TracksObject((FUTrackable*) object) && !Parent::contains(object)) FUTracker::UntrackObject((FUTrackable*) object); }
 };
 
 #endif // _FU_TRACKER_H_
-- 
2.43.0


From ce98ceaa679e593ea565f143a256ba4b01503cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 169/207] fix: an animation source with an excessive stride
 created as many curves

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 1aac840..38d221b 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -88,6 +88,11 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	uint32 curveCount = FUStringConversion::ToUInt32(accessorStrideString);
 	if (curveCount == 0) curveCount = 1;
 
+	// There cannot be more curves than there are values in the output source.
+	FloatList outputs;
+	ReadSource(outputSource, outputs);
+	curveCount = min(curveCount, max((uint32) outputs.size(), (uint32) 1));
+
 	// Create the animation curves
 	for (uint32 i = 0; i < curveCount; ++i)
 	{
-- 
2.43.0


From f519bbf4c721465b7f63c6d08807807c865719ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 170/207] fix: interleaved vectors with surplus values were
 read into missing lists

---
 FColladaPlugins/FArchiveXML/FAXColladaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index 6b85799..861b6d5 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -385,7 +385,7 @@ namespace FUDaeParser
 
 				while (*value != 0)
 				{
-					for (size_t i = 0; 2 * i < stride && *value != 0; ++i)
+					for (size_t i = 0; 3 * i < stride && *value != 0; ++i)
 					{
 						if (arrays[i] != NULL)
 						{
-- 
2.43.0


From 042f9845ba710e0584f19101b060708d3382d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 171/207] fix: loading a referenced document released the data
 of the import that needs it

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..3d5398a 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -400,8 +400,9 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
     		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless this document is loaded during the import of another one.
+		if (FArchiveXML::loadedDocumentCount == 0)
+			FArchiveXML::ClearIntermediateData();
 	}
 	_FCATCH_ALL
 	{
@@ -434,8 +435,9 @@ bool FArchiveXML::ImportFileFromMemory(const fchar* filePath, FCDocument* fcdocu
 			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless this document is loaded during the import of another one.
+		if (FArchiveXML::loadedDocumentCount == 0)
+			FArchiveXML::ClearIntermediateData();
     }
     _FCATCH_ALL
     {
@@ -560,6 +562,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	if (!IsEquivalent(colladaNode->name, DAE_COLLADA_ELEMENT))
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_ELEMENT, colladaNode->line);
+		--FArchiveXML::loadedDocumentCount;
 		return status = false;
 	}
 
-- 
2.43.0


From 3098ba6b31061db539b83fdec9dfcf4b98f52dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 172/207] fix: a cancelled import counted as still running

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 3d5398a..109d922 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -668,8 +668,11 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	size_t libraryNodeCount = orderedLibraryNodes.size();
 	for (size_t i = 0; i < libraryNodeCount; ++i)
 	{
-		if (FCollada::CancelLoading()) return false;
-
+		if (FCollada::CancelLoading())
+		{
+			--FArchiveXML::loadedDocumentCount;
+			return false;
+		}
 		xmlOrderedNode& n = orderedLibraryNodes[i];
 		switch (n.order)
 		{
-- 
2.43.0


From e43abdde55e5249652b18846e4a58ef7e4fa2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 173/207] fix: reserving less than the size of an object
 container drops its objects without releasing them

---
 FCollada/FUtils/FUObject.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index d760cf3..e7b8cce 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -471,7 +471,7 @@ inline void erase(size_t index) { erase(begin() + index); }
 	/** Pre-caches the wanted number of pointers.
 		Use this function to avoid many memory re-allocations.
 		@param count The wanted number of pre-cached pointers. */
-	inline void reserve(size_t count) { Parent::reserve(count); }
+	inline void reserve(size_t count) { if (count > Parent::size()) Parent::reserve(count); }
 
 	/** Retrieves whether this container owns a given object.
 		@param value An object.
-- 
2.43.0


From e2b15cab9d4fd6287f33e4c8e2b5ff7b6b7dfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:51 +0000
Subject: [PATCH 174/207] fix: the degree of a new NURBS spline was not
 initialised

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 54d9fdc..f490519 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -188,6 +188,7 @@ ImplementObjectType(FCDNURBSSpline)
 
 FCDNURBSSpline::FCDNURBSSpline(FCDocument* document)
 :	FCDSpline(document)
+,	degree(3)
 {
 }
 
-- 
2.43.0


From 2ee65e34b42ea0b12349a8697e4463b6340dee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:51 +0000
Subject: [PATCH 175/207] fix: an open linear spline kept the Bezier spline
 that it is converted to closed

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index f490519..15f4e80 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -67,10 +67,7 @@ void FCDLinearSpline::ToBezier(FCDBezierSpline& bezier)
 	size_t count = cvs.size();
 	bool closed = IsClosed();
 
-	if (closed)
-	{
-		bezier.SetClosed(true);
-	}
+	bezier.SetClosed(closed);
 
 	for (size_t i = 0; i < count; i++)
 	{
-- 
2.43.0


From 423b5479ef2eca69f39a516849d8305755795aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:51 +0000
Subject: [PATCH 176/207] fix: converting a closed Bezier spline without
 control points to NURBS read out of bounds

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 15f4e80..9f2913f 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -144,7 +144,7 @@ void FCDBezierSpline::ToNURBs(FCDNURBSSplineList &toFill) const
 		toFill.push_back(nurb);
 	}
 
-	if (closed)
+	if (closed && cvsCount > 1)
 	{
 		// we still have one NURB to create
 		FCDNURBSSpline* nurb = new FCDNURBSSpline(const_cast<FCDocument*>(GetDocument()));
-- 
2.43.0


From b7125f45f509157522a0fbc69d9a267cc2cb5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 177/207] fix: animation channels without keys lost all their
 curves but the first on import

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 38d221b..595fbed 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -88,10 +88,11 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	uint32 curveCount = FUStringConversion::ToUInt32(accessorStrideString);
 	if (curveCount == 0) curveCount = 1;
 
-	// There cannot be more curves than there are values in the output source.
+	// There cannot be more curves than there are values in the output source,
+	// except for curves without keys: at most the elements of a matrix.
 	FloatList outputs;
 	ReadSource(outputSource, outputs);
-	curveCount = min(curveCount, max((uint32) outputs.size(), (uint32) 1));
+	curveCount = min(curveCount, max((uint32) outputs.size(), (uint32) 16));
 
 	// Create the animation curves
 	for (uint32 i = 0; i < curveCount; ++i)
-- 
2.43.0


From fb3f6c891a290dfa2c55bbdd46d78c233c220279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 178/207] fix: the clone of an entity lost its asset tag

---
 FCollada/FCDocument/FCDAsset.cpp  | 3 ++-
 FCollada/FCDocument/FCDEntity.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAsset.cpp b/FCollada/FCDocument/FCDAsset.cpp
index 3a06ae4..0c84e1c 100644
--- a/FCollada/FCDocument/FCDAsset.cpp
+++ b/FCollada/FCDocument/FCDAsset.cpp
@@ -60,7 +60,8 @@ FCDAsset* FCDAsset::Clone(FCDAsset* clone, bool cloneAllContributors) const
 	clone->upAxis = upAxis;
 	clone->unitName = unitName;
 	clone->unitConversionFactor = unitConversionFactor;
-	clone->SetFlag(TestFlag(FLAG_HasUnits | FLAG_HasUpAxis));
+	if (GetHasUnitsFlag()) clone->SetHasUnitsFlag(); else clone->ResetHasUnitsFlag();
+	if (GetHasUpAxisFlag()) clone->SetHasUpAxisFlag(); else clone->ResetHasUpAxisFlag();
 
 	if (cloneAllContributors)
 	{
diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 3b974ea..2f81f15 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -57,6 +57,10 @@ FCDEntity* FCDEntity::Clone(FCDEntity* clone, bool UNUSED(cloneChildren)) const
 	FCDObjectWithId::Clone(clone);
 	clone->name = name;
 	clone->note = note;
+	if (asset != NULL)
+	{
+		asset->Clone(clone->GetAsset());
+	}
 	if (extra != NULL)
 	{
 		extra->Clone(clone->extra);
-- 
2.43.0


From 4f365a0358b38e281f662b06b3d60aeccdaeba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 179/207] fix: the clones of scene nodes and transforms lost
 their sub-ids

---
 FCollada/FCDocument/FCDSceneNode.cpp | 1 +
 FCollada/FCDocument/FCDTransform.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa0cd05..e38c28b 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -294,6 +294,7 @@ FCDEntity* FCDSceneNode::Clone(FCDEntity* _clone, bool cloneChildren) const
 		// Copy over the simple information.
 		clone->SetJointFlag(GetJointFlag());
 		clone->visibility = visibility;
+		clone->daeSubId = daeSubId;
 
 		// Don't copy the parents list but do clone all the children, transforms and instances
 		for (const FCDTransform** it = transforms.begin(); it != transforms.end(); ++it)
diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index 023ba3d..5970983 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -76,6 +76,7 @@ FCDTransform* FCDTTranslation::Clone(FCDTransform* _clone) const
 	else clone = (FCDTTranslation*) _clone;
 
 	clone->translation = translation;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
@@ -122,6 +123,7 @@ FCDTransform* FCDTRotation::Clone(FCDTransform* _clone) const
 	else clone = (FCDTRotation*) _clone;
 
 	clone->angleAxis = angleAxis;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
@@ -171,6 +173,7 @@ FCDTransform* FCDTScale::Clone(FCDTransform* _clone) const
 	else clone = (FCDTScale*) _clone;
 
 	clone->scale = scale;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
@@ -211,6 +214,7 @@ FCDTransform* FCDTMatrix::Clone(FCDTransform* _clone) const
 	else clone = (FCDTMatrix*) _clone;
 
 	clone->transform = transform;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
@@ -246,6 +250,7 @@ FCDTransform* FCDTLookAt::Clone(FCDTransform* _clone) const
 	else clone = (FCDTLookAt*) _clone;
 
 	clone->lookAt = lookAt;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
@@ -288,6 +293,7 @@ FCDTransform* FCDTSkew::Clone(FCDTransform* _clone) const
 	else clone = (FCDTSkew*) _clone;
 
 	clone->skew = skew;
+	clone->SetSubId(*GetSubId());
 	return clone;
 }
 
-- 
2.43.0


From 4f4633acae542f2af6412aa2e31f5dc89b67a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 180/207] fix: the clone of an entity instance lost its name,
 sub-id, extra tree and unresolved target

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index d884bac..f787c98 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -149,7 +149,12 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 		clone = new FCDEntityInstance(const_cast<FCDocument*>(GetDocument()), const_cast<FCDSceneNode*>(parent), entityType);
 	}
 
-	clone->SetEntity(const_cast<FCDEntity*>(entityReference->GetEntity()));
+	FCDEntity* entity = const_cast<FCDEntity*>(entityReference->GetEntity());
+	if (entity == NULL && !entityReference->GetEntityId().empty()) clone->SetEntityUri(GetEntityUri());
+	else clone->SetEntity(entity);
+	clone->name = name;
+	clone->wantedSubId = wantedSubId;
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 	return clone;
 }
 
-- 
2.43.0


From f33acc4c5e3c64438c74e1d6b527ae6c815d2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 181/207] fix: the clone of a material lost its effect and
 technique hints

---
 FCollada/FCDocument/FCDMaterial.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index c7708de..cc7ddd7 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -69,6 +69,7 @@ const FCDEffect* FCDMaterial::GetEffect() const
 void FCDMaterial::SetEffect(FCDEffect* _effect)
 {
 	effect->SetEntity(_effect);
+	ownsEffect = false;
 	SetNewChildFlag();
 }
 
@@ -89,9 +90,10 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			if (cloneChildren)
 			{
-				clone->ownsEffect = true;
 				FCDEffect* clonedEffect = clone->GetDocument()->GetEffectLibrary()->AddEntity();
 				_effect->Clone(clonedEffect, cloneChildren);
+				clone->SetEffect(clonedEffect);
+				clone->ownsEffect = true;
 			}
 			else
 			{
@@ -99,6 +101,8 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			}
 		}
 
+		else if (!effect->GetEntityId().empty()) clone->effect->SetUri(effect->GetUri());
+		clone->techniqueHints = techniqueHints;
 		// Clone the effect parameters
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
-- 
2.43.0


From aeec3f9fd5caf23ee7f42a6bd71c99f0e171276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 182/207] fix: the clone of a standard profile lost its flags
 and the references of its parameters

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 1d497c4..ac913c9 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -259,8 +259,10 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 			}
 		}
 		clone->transparencyMode = transparencyMode;
+		clone->isReflective = isReflective;
+		clone->isRefractive = isRefractive;
 
-#define CLONE_ANIMATED(value) clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
+#define CLONE_ANIMATED(value) value->FCDEffectParameter::Clone(clone->value); clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
 
 		CLONE_ANIMATED(emissionColor); CLONE_ANIMATED(emissionFactor); clone->isEmissionFactor = isEmissionFactor;
 		CLONE_ANIMATED(translucencyColor); CLONE_ANIMATED(translucencyFactor);
-- 
2.43.0


From aabf43f1a1dfdccf11f78047a4f5715bee9762c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 183/207] fix: the clone of a surface lost its type, names and
 the order of its cube faces

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 4fde93f..4d6c5ce 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -155,6 +155,8 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 			clone->AddImage(const_cast<FCDImage*>(*itI));
 		}
 
+		clone->names = names;
+		clone->type = type;
 		if (initMethod != NULL)
 		{
 			clone->initMethod = FCDEffectParameterSurfaceInitFactory::Create(initMethod->GetInitType());
@@ -237,6 +239,7 @@ FCDEffectParameterSurfaceInit* FCDEffectParameterSurfaceInitCube::Clone(FCDEffec
 	if (clone != NULL)
 	{
 		clone->cubeType = cubeType;
+		clone->order = order;
 	}
 	return clone;
 }
-- 
2.43.0


From 8af3340726655d517e0c069b5634a246c35c454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 184/207] fix: the clone of an effect profile lost its platform

---
 FCollada/FCDocument/FCDEffectProfileFX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectProfileFX.cpp b/FCollada/FCDocument/FCDEffectProfileFX.cpp
index c474bfe..035b866 100644
--- a/FCollada/FCDocument/FCDEffectProfileFX.cpp
+++ b/FCollada/FCDocument/FCDEffectProfileFX.cpp
@@ -82,6 +82,7 @@ FCDEffectProfile* FCDEffectProfileFX::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		clone->platform = platform;
 
 		// Clone the codes: needs to happen before the techniques are cloned.
 		clone->codes.reserve(codes.size());
-- 
2.43.0


From 287b2bd052844f9a7c16abe72b2be597bd50bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 185/207] fix: the clone of a sampler lost its wrap modes and
 filters

---
 FCollada/FCDocument/FCDEffectParameterSampler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index c6f07ce..0ccc62b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -74,6 +74,12 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	{
 		clone->surface = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*)(surface));
 		clone->samplerType = samplerType;
+		clone->wrap_s = wrap_s;
+		clone->wrap_t = wrap_t;
+		clone->wrap_p = wrap_p;
+		clone->minFilter = minFilter;
+		clone->magFilter = magFilter;
+		clone->mipFilter = mipFilter;
 	}
 	return _clone;
 }
-- 
2.43.0


From 089b24d7b891df3af983bcc70026ba4e8a34140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 186/207] fix: cloned samplers used the surfaces of the
 original

---
 FCollada/FCDocument/FCDEffect.cpp             | 23 +++++++++++++++++++
 .../FCDocument/FCDEffectParameterSampler.cpp  | 14 +++++++++++
 .../FCDocument/FCDEffectParameterSampler.h    |  5 ++++
 FCollada/FCDocument/FCDEffectProfile.cpp      |  6 +++++
 FCollada/FCDocument/FCDGeometryInstance.cpp   |  6 +++++
 FCollada/FCDocument/FCDMaterial.cpp           |  6 +++++
 6 files changed, 60 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index 9fe3c65..5ced27b 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -19,6 +19,8 @@
 #include "FCDocument/FCDEffectProfileFX.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
+#include "FCDocument/FCDEffectTechnique.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
 
@@ -90,6 +92,20 @@ FCDEffectProfile* FCDEffect::AddProfile(FUDaeProfileType::Type type)
 	return profile;
 }
 
+// Lists the parameters of a profile and of its techniques.
+template <class Profile, class Parameter>
+static void AddParameters(Profile* profile, fm::pvector<Parameter>& list)
+{
+	for (size_t p = 0; p < profile->GetEffectParameterCount(); ++p) list.push_back(profile->GetEffectParameter(p));
+	if (!profile->HasType(FCDEffectProfileFX::GetClassType())) return;
+	const FCDEffectProfileFX* profileFX = (const FCDEffectProfileFX*) profile;
+	for (size_t t = 0; t < profileFX->GetTechniqueCount(); ++t)
+	{
+		FCDEffectTechnique* technique = const_cast<FCDEffectTechnique*>(profileFX->GetTechnique(t));
+		for (size_t p = 0; p < technique->GetEffectParameterCount(); ++p) list.push_back(technique->GetEffectParameter(p));
+	}
+}
+
 // Returns a copy of the effect, with all the animations/textures attached
 FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 {
@@ -101,11 +117,15 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 
 	if (clone != NULL)
 	{
+		fm::pvector<const FCDEffectParameter> originals;
+		fm::pvector<FCDEffectParameter> clones;
 		// Clone the effect profiles
 		for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
 		{
 			FCDEffectProfile* clonedProfile = clone->AddProfile((*itR)->GetType());
 			(*itR)->Clone(clonedProfile);
+			AddParameters((const FCDEffectProfile*) *itR, originals);
+			AddParameters(clonedProfile, clones);
 		}
 
 		// Clone the effect parameters
@@ -114,7 +134,10 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
+			originals.push_back(parameters[p]);
+			clones.push_back(parameter);
 		}
+		FCDEffectParameterSampler::RelinkSurfaces(originals, clones);
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index 0ccc62b..411dd10 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -84,6 +84,20 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	return _clone;
 }
 
+// Attaches the cloned samplers to the cloned surfaces
+void FCDEffectParameterSampler::RelinkSurfaces(const fm::pvector<const FCDEffectParameter>& originals, const fm::pvector<FCDEffectParameter>& clones)
+{
+	for (size_t i = 0; i < originals.size(); ++i)
+	{
+		if (!originals[i]->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+		const FCDEffectParameter* surface = ((const FCDEffectParameterSampler*) originals[i])->GetSurface();
+		for (size_t j = 0; surface != NULL && j < originals.size(); ++j)
+		{
+			if (originals[j] == surface) ((FCDEffectParameterSampler*) clones[i])->surface = (FCDEffectParameterSurface*) clones[j];
+		}
+	}
+}
+
 // Flattening: overwrite the target parameter with this parameter
 void FCDEffectParameterSampler::Overwrite(FCDEffectParameter* target)
 {
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.h b/FCollada/FCDocument/FCDEffectParameterSampler.h
index b982c96..7dffb9e 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.h
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.h
@@ -132,6 +132,11 @@ public:
 		This function is used during the flattening of materials.
 		@param target The target parameter to overwrite. */
 	virtual void Overwrite(FCDEffectParameter* target);
+
+	/** [INTERNAL] Attaches the cloned samplers to the cloned surfaces.
+		@param originals The list of parameters that were cloned.
+		@param clones The list of their clones, in the same order. */
+	static void RelinkSurfaces(const fm::pvector<const FCDEffectParameter>& originals, const fm::pvector<FCDEffectParameter>& clones);
 };
 
 #endif // _FCD_EFFECT_PARAMETER_SAMPLER_H_
diff --git a/FCollada/FCDocument/FCDEffectProfile.cpp b/FCollada/FCDocument/FCDEffectProfile.cpp
index ee9389d..475a50b 100644
--- a/FCollada/FCDocument/FCDEffectProfile.cpp
+++ b/FCollada/FCDocument/FCDEffectProfile.cpp
@@ -12,6 +12,7 @@
 #include "FCDocument/FCDEffectProfile.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDExtra.h"
 #include "FCDocument/FCDImage.h"
 #include "FCDocument/FCDLibrary.h"
@@ -40,12 +41,17 @@ FCDEffectProfile::~FCDEffectProfile()
 FCDEffectProfile* FCDEffectProfile::Clone(FCDEffectProfile* clone) const
 {
 	if (clone == NULL) return NULL;
+	fm::pvector<const FCDEffectParameter> originals;
+	fm::pvector<FCDEffectParameter> clones;
 	size_t parameterCount = parameters.size();
 	for (size_t p = 0; p < parameterCount; ++p)
 	{
 		FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(parameter);
+		originals.push_back(parameters[p]);
+		clones.push_back(parameter);
 	}
+	FCDEffectParameterSampler::RelinkSurfaces(originals, clones);
 	extra->Clone(clone->extra);
 	return clone;
 }
diff --git a/FCollada/FCDocument/FCDGeometryInstance.cpp b/FCollada/FCDocument/FCDGeometryInstance.cpp
index 9c2ee74..0eab115 100644
--- a/FCollada/FCDocument/FCDGeometryInstance.cpp
+++ b/FCollada/FCDocument/FCDGeometryInstance.cpp
@@ -17,6 +17,7 @@
 #include "FCDocument/FCDController.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEntity.h"
 #include "FCDocument/FCDGeometry.h"
 #include "FCDocument/FCDGeometryInstance.h"
@@ -113,12 +114,17 @@ FCDEntityInstance* FCDGeometryInstance::Clone(FCDEntityInstance* _clone) const
 
 	Parent::Clone(clone);
 
+	fm::pvector<const FCDEffectParameter> originals;
+	fm::pvector<FCDEffectParameter> clones;
 	size_t parameterCount = parameters.size();
 	for (size_t p = 0; p < parameterCount; ++p)
 	{
 		FCDEffectParameter* clonedParameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(clonedParameter);
+		originals.push_back(parameters[p]);
+		clones.push_back(clonedParameter);
 	}
+	FCDEffectParameterSampler::RelinkSurfaces(originals, clones);
 
 	// Clone the material instances.
 	for (const FCDMaterialInstance** it = materials.begin(); it != materials.end(); ++it)
diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index cc7ddd7..9e2c974 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -18,6 +18,7 @@
 #include "FCDocument/FCDEffectTools.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEntityReference.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDMaterial.h"
@@ -104,12 +105,17 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 		else if (!effect->GetEntityId().empty()) clone->effect->SetUri(effect->GetUri());
 		clone->techniqueHints = techniqueHints;
 		// Clone the effect parameters
+		fm::pvector<const FCDEffectParameter> originals;
+		fm::pvector<FCDEffectParameter> clones;
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
 		{
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
+			originals.push_back(parameters[p]);
+			clones.push_back(parameter);
 		}
+		FCDEffectParameterSampler::RelinkSurfaces(originals, clones);
 	}
 
 	return _clone;
-- 
2.43.0


From 17c2a9c9135027d069554d57cd4444683d45d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 187/207] fix: cloning a standard profile duplicated the
 samplers of its textures

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 12 +++++++++++-
 FCollada/FCDocument/FCDTexture.cpp        |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index ac913c9..e30d7b9 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -249,13 +249,23 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		size_t firstParameter = clone->GetEffectParameterCount() - GetEffectParameterCount();
 		for (uint32 i = 0; i < FUDaeTextureChannel::COUNT; ++i)
 		{
 			size_t count = GetTextureCount(i);
 			for (size_t t = 0; t < count; ++t)
 			{
 				const FCDTexture* texture = GetTexture(i, t);
-				texture->Clone(clone->AddTexture(i));
+				FCDTexture* clonedTexture = clone->AddTexture(i);
+				// Use the sampler that was cloned with the other parameters.
+				FCDEffectParameterSampler* sampler = const_cast<FCDEffectParameterSampler*>(texture->GetSampler());
+				for (size_t p = 0; p < GetEffectParameterCount(); ++p)
+				{
+					if (GetEffectParameter(p) != (const FCDEffectParameter*) texture->GetSampler()) continue;
+					sampler = (FCDEffectParameterSampler*) clone->GetEffectParameter(firstParameter + p);
+				}
+				clonedTexture->SetSampler(sampler);
+				texture->Clone(clonedTexture);
 			}
 		}
 		clone->transparencyMode = transparencyMode;
diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 98777d0..16e8089 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -137,7 +137,7 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 	set->Clone(clone->set);
 	extra->Clone(clone->extra);
 
-	if (sampler != NULL)
+	if (sampler != NULL && clone->sampler == NULL)
 	{
 		sampler->Clone(clone->GetSampler());
 	}
-- 
2.43.0


From 2e3fe486c0d9f84efcbc117a5e416ff7e8323008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 188/207] fix: the clone of a physics shape lost its material
 instance and copied shared materials

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 5b61cbf..b893591 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -122,15 +122,20 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 
 	if (mass != NULL) clone->SetMass(*mass);
 	if (density != NULL) clone->SetDensity(*density);
+	clone->isDensityMoreAccurate = isDensityMoreAccurate;
 	clone->SetHollow(hollow);
 
 	// Clone the material instance
 	if (instanceMaterialRef != NULL)
 	{
 		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
-		instanceMaterialRef->Clone(instanceMaterialRef);
+		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
-	if (physicsMaterial != NULL)
+	if (physicsMaterial != NULL && !ownsPhysicsMaterial)
+	{
+		clone->SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*>((const FCDPhysicsMaterial*) physicsMaterial));
+	}
+	else if (physicsMaterial != NULL)
 	{
 		FCDPhysicsMaterial* clonedMaterial = clone->AddOwnPhysicsMaterial();
 		physicsMaterial->Clone(clonedMaterial);
-- 
2.43.0


From 2ac6982178df2990f20ebc6df08a3649d2c0189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 189/207] fix: copies of rigid body parameters lost their
 density and inertia and shared owned materials

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 03f6fa6..6a58aec 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -77,6 +77,9 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	dynamic = original.dynamic;
 	mass = original.mass;
+	density = original.density;
+	isDensityMoreAccurate = original.isDensityMoreAccurate;
+	isInertiaAccurate = original.isInertiaAccurate;
 	inertia = original.inertia;
 	massFrameTranslate = original.massFrameTranslate;
 	massFrameOrientation = original.massFrameOrientation;
@@ -89,7 +92,7 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	if (original.physicsMaterial != NULL)
 	{
-		if (parent->IsLocal(original.parent))
+		if (!original.ownsPhysicsMaterial)
 		{
 			SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*> (original.physicsMaterial.operator->()));
 		}
-- 
2.43.0


From 31d46d49b6c8ae12e578b7e85b35cd4d9a3109c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 190/207] fix: the clone of a rigid constraint lost its sub-id

---
 FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
index eb4a027..f80d247 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
@@ -83,6 +83,7 @@ FCDEntity* FCDPhysicsRigidConstraint::Clone(FCDEntity* _clone, bool cloneChildre
 
 	if (clone != NULL)
 	{
+		clone->sid = sid;
 		clone->enabled = enabled;
 		clone->interpenetrate = interpenetrate;
 		clone->referenceRigidBody = referenceRigidBody;
-- 
2.43.0


From bdafc3f5f4834f0cc9a84f36525bddba20c05b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:19 +0000
Subject: [PATCH 191/207] fix: the rigid constraints of a cloned physics model
 acted on the original rigid bodies

---
 FCollada/FCDocument/FCDPhysicsModel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsModel.cpp b/FCollada/FCDocument/FCDPhysicsModel.cpp
index f7f8699..f88f656 100644
--- a/FCollada/FCDocument/FCDPhysicsModel.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModel.cpp
@@ -59,6 +59,7 @@ FCDEntity* FCDPhysicsModel::Clone(FCDEntity* _clone, bool cloneChildren) const
 
 	if (clone != NULL)
 	{
+		size_t firstRigidBody = clone->GetRigidBodyCount();
 		// Clone the rigid bodies
 		for (FCDPhysicsRigidBodyContainer::const_iterator it = rigidBodies.begin(); it != rigidBodies.end(); ++it)
 		{
@@ -71,6 +72,13 @@ FCDEntity* FCDPhysicsModel::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			FCDPhysicsRigidConstraint* clonedConstraint = clone->AddRigidConstraint();
 			(*it)->Clone(clonedConstraint, cloneChildren);
+			// Bind the constraint to the cloned rigid bodies.
+			for (size_t i = 0; i < rigidBodies.size(); ++i)
+			{
+				FCDPhysicsRigidBody* clonedRigidBody = clone->GetRigidBody(firstRigidBody + i);
+				if ((*it)->GetReferenceRigidBody() == rigidBodies[i]) clonedConstraint->SetReferenceRigidBody(clonedRigidBody);
+				if ((*it)->GetTargetRigidBody() == rigidBodies[i]) clonedConstraint->SetTargetRigidBody(clonedRigidBody);
+			}
 		}
 
 		// Clone the model instances
-- 
2.43.0


From f38090bc4589b1e1b90ad1690fa64afc8e1a2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 192/207] fix: the clone of a physics plane lost its distance

---
 FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
index 507377e..84eb40f 100644
--- a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
+++ b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
@@ -87,6 +87,7 @@ FCDEntity* FCDPASPlane::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		clone->normal = normal;
+		clone->d = d;
 	}
 	return _clone;
 }
-- 
2.43.0


From 3d31179c90bb8997c7882241849a0f519581c2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 193/207] fix: reading or writing a part of the wanted data was
 reported as success

---
 FCollada/FUtils/FUFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 38aca84..8570095 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -107,14 +107,14 @@ size_t FUFile::GetLength()
 bool FUFile::Read(void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fread(buffer, 1, length, filePtr) > 0);
+	return (fread(buffer, 1, length, filePtr) == length);
 }
 
 // Write out some data to a file
 bool FUFile::Write(const void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fwrite(buffer, 1, length, filePtr) > 0);
+	return (fwrite(buffer, 1, length, filePtr) == length);
 }
 
 // Flush/close the file stream
-- 
2.43.0


From 0b8eeb95eb585337c95f8b6bdff4b684e5ec0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 194/207] fix: failures to write the end of a file were not
 reported

---
 FCollada/FUtils/FUFile.cpp        | 13 +++++++------
 FCollada/FUtils/FUFile.h          | 11 ++++++-----
 FCollada/FUtils/FUXmlDocument.cpp |  5 ++++-
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 8570095..2217770 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -118,15 +118,16 @@ bool FUFile::Write(const void* buffer, size_t length)
 }
 
 // Flush/close the file stream
-void FUFile::Flush()
+bool FUFile::Flush()
 {
-	FUAssert(IsOpen(),);
-	fflush(filePtr);
+	FUAssert(IsOpen(), return false);
+	return fflush(filePtr) == 0;
 }
 
-void FUFile::Close()
+bool FUFile::Close()
 {
-	FUAssert(IsOpen(),);
-	fclose(filePtr);
+	FUAssert(IsOpen(), return false);
+	bool success = fclose(filePtr) == 0;
 	filePtr = NULL;
+	return success;
 }
diff --git a/FCollada/FUtils/FUFile.h b/FCollada/FUtils/FUFile.h
index 48db8ef..56e7749 100644
--- a/FCollada/FUtils/FUFile.h
+++ b/FCollada/FUtils/FUFile.h
@@ -91,11 +91,12 @@ public:
 	bool Write(const void* buffer, size_t length);
 
 	/** Flushes the data written to the file.
-		This function will do nothing if the file was not opened in WRITE mode. */
-	void Flush();
-
-	/** Closes and detaches the file. */
-	void Close();
+		This function will do nothing if the file was not opened in WRITE mode.
+		@return True when all the data written so far has reached the file. */
+	bool Flush();
+	/** Closes and detaches the file.
+		@return True when all the data written has reached the file. */
+	bool Close();
 };
 
 #endif // _FU_FILE_H_
diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 0d88491..713ee5d 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -115,5 +115,8 @@ bool FUXmlDocument::Write(const char* encoding)
 	FUFile file(filename, FUFile::WRITE);
 	if (!file.IsOpen()) return false;
 	xmlDocument->encoding = xmlStrdup((const xmlChar*) encoding);
-	return xmlDocFormatDump(file.GetHandle(), xmlDocument, 1) > 0;
+	bool success = xmlDocFormatDump(file.GetHandle(), xmlDocument, 1) > 0;
+	success &= ferror(file.GetHandle()) == 0;
+	success &= file.Close();
+	return success;
 }
-- 
2.43.0


From b9cbcc62a3ef87b5c2c2ab75734afb2ba617230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 195/207] fix: a file that could not be read in full was parsed
 with undefined data

---
 FCollada/FUtils/FUXmlDocument.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 713ee5d..37ef836 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -34,11 +34,11 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 		{
 			size_t fileLength = file->GetLength();
 			uint8* fileData = new uint8[fileLength];
-			file->Read(fileData, fileLength);
+			bool success = file->Read(fileData, fileLength);
 			file->Close();
 
 			// Open the given XML file.
-			xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+			if (success) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
 			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
-- 
2.43.0


From 67ab0d033011ef924a7f78aa0af63c7abfdf8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 196/207] fix: the export reported success for files that could
 not be written

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 109d922..a6275e9 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -466,6 +466,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 			// Create the XML document and write it out to the given filename
 			if (!daeDocument.Write())
 			{
+				status = false;
 				FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE, rootNode->line);
 			}
 			else
-- 
2.43.0


From ac9fc628d8d47010d2b3c04b63e638c598e8f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:51 +0000
Subject: [PATCH 197/207] fix: folders and files without a readable length ran
 out of memory on import, and exceptions were reported as success

---
 FCollada/FUtils/FUFile.cpp                  |  7 +++----
 FCollada/FUtils/FUXmlDocument.cpp           | 16 ++++++++++------
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp |  5 ++---
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 2217770..b1c1d26 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -97,10 +97,9 @@ size_t FUFile::GetLength()
 	size_t currentPosition = (size_t) ftell(filePtr);
 	if (fseek(filePtr, 0, SEEK_END) != 0) return 0;
 
-	size_t length = (size_t) ftell(filePtr);
-	if (fseek(filePtr, (long) currentPosition, SEEK_SET) != 0) return 0;
-
-	return length;
+	long length = ftell(filePtr);
+	if (fseek(filePtr, (long) currentPosition, SEEK_SET) != 0 || length < 0) return 0;
+	return (size_t) length;
 }
 
 // Reads in a piece of the file into the given buffer
diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 37ef836..08ebe90 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -15,6 +15,7 @@
 
 #include <libxml/parser.h>
 
+#include <limits.h>
 #define MAX_FILE_SIZE 10240000
 //
 // FUXmlDocument
@@ -32,14 +33,17 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 
 		if (file->IsOpen())
 		{
+			// Folders and broken files have no sensible length.
 			size_t fileLength = file->GetLength();
-			uint8* fileData = new uint8[fileLength];
-			bool success = file->Read(fileData, fileLength);
+			if (fileLength <= (size_t) INT_MAX)
+			{
+				uint8* fileData = new uint8[fileLength];
+				bool success = file->Read(fileData, fileLength);
+				// Open the given XML file.
+				if (success) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+				SAFE_DELETE_ARRAY(fileData);
+			}
 			file->Close();
-
-			// Open the given XML file.
-			if (success) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
-			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
 	}
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index a6275e9..1fcde5e 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -407,12 +407,11 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
 	_FCATCH_ALL
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
+		status = false;
 	}
-
 	if (status) FUError::Error(FUError::DEBUG_LEVEL, FUError::DEBUG_LOAD_SUCCESSFUL);
 	return status;
 }
-
 bool FArchiveXML::ImportFileFromMemory(const fchar* filePath, FCDocument* fcdocument, const void* contents, size_t length)
 {
 	bool status = true;
@@ -478,8 +477,8 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
     _FCATCH_ALL
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
+		status = false;
 	}
-
 	return status;
 }
 
-- 
2.43.0


From 1507f68b291451818ad4a614ff51fc5acdfbbb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 198/207] fix: standardising between the X and the Z up-axes
 turned the scene onto the Y up-axis

---
 FCollada/FCDocument/FCDocumentTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 74dae0a..bcf0dd8 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -153,10 +153,10 @@ namespace FCDocumentTools
 
 		static void Identity(FMVector3& UNUSED(data), int32 UNUSED(sign)) {}
 		static void XtoY(FMVector3& data, int32 sign) { float t = sign * data.x; data.x = data.y; data.y = t; }
-		static void XtoZ(FMVector3& data, int32 UNUSED(sign)) { float t = data.x; data.x = data.y; data.y = data.z; data.z = t; }
+		static void XtoZ(FMVector3& data, int32 sign) { float t = data.z; data.z = sign * data.y; data.y = sign * data.x; data.x = t; }
 		static void YtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = t; }
 		static void YtoZ(FMVector3& data, int32 sign) { float t = sign * data.y; data.y = data.z; data.z = t; }
-		static void ZtoX(FMVector3& data, int32 UNUSED(sign)) { float t = data.z; data.z = data.y; data.y = data.x; data.x = t; }
+		static void ZtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = sign * data.z; data.z = t; }
 		static void ZtoY(FMVector3& data, int32 sign) { float t = data.y; data.y = sign * data.z; data.z = t; }
 	};
 
-- 
2.43.0


From 17cf84cc8ee21ad135b7221c0e5f4af9c06d3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 199/207] fix: the pivots of cameras and lights between the X
 and the Z up-axes had their rotations in the wrong order

---
 FCollada/FCDocument/FCDocumentTools.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index bcf0dd8..27c932b 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -111,16 +111,7 @@ namespace FCDocumentTools
 			if (functor == Identity) return;
 
 
-			// Change out of the current up-axis into Y-up.
-			if (current == X && !rollOnly)
-			{
-				SmartAddRotationPivot(node, FMVector3::ZAxis, 90.0f);
-			}
-			else if (current == Z)
-			{
-				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? 90.0f : -90.0f);
-			}
-
+			// The pivot comes after the other transforms: its last rotation is the first one to affect the instance.
 			// Change into the target up-axis.
 			if (target == X && !rollOnly)
 			{
@@ -130,6 +121,16 @@ namespace FCDocumentTools
 			{
 				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? -90.0f : 90.0f);
 			}
+
+			// Change out of the current up-axis into Y-up.
+			if (current == X && !rollOnly)
+			{
+				SmartAddRotationPivot(node, FMVector3::ZAxis, 90.0f);
+			}
+			else if (current == Z)
+			{
+				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? 90.0f : -90.0f);
+			}
 		}
 
 		void operator() (FMVector3& data, bool isScale = false) { (*functor)(data, (isScale ? 1 : -1)); }
-- 
2.43.0


From 4638be0940659f2c32d5b88d071a6b54bf78c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 200/207] fix: standardising the up-axis turned everything
 under a look-at transform twice

---
 FCollada/FCDocument/FCDocumentTools.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 27c932b..8b0dd51 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -133,6 +133,27 @@ namespace FCDocumentTools
 			}
 		}
 
+		// A look-at transform looks down its Z-axis whatever the up-axis is:
+		// undo the up-axis conversion for what comes after it.
+		// Returns the number of transforms inserted.
+		size_t InsertInversePivot(FCDSceneNode* node, size_t index)
+		{
+			size_t count = 0;
+			if (functor == Identity) return count;
+			if (current == X) InsertRotation(node, index + count++, FMVector3::ZAxis, -90.0f);
+			else if (current == Z) InsertRotation(node, index + count++, FMVector3::XAxis, 90.0f);
+			if (target == X) InsertRotation(node, index + count++, FMVector3::ZAxis, 90.0f);
+			else if (target == Z) InsertRotation(node, index + count++, FMVector3::XAxis, -90.0f);
+			return count;
+		}
+
+		static void InsertRotation(FCDSceneNode* node, size_t index, const FMVector3& axis, float angle)
+		{
+			FCDTRotation* rotate = (FCDTRotation*) node->AddTransform(FCDTransform::ROTATION, index);
+			rotate->SetAxis(axis);
+			rotate->SetAngle(angle);
+		}
+
 		void operator() (FMVector3& data, bool isScale = false) { (*functor)(data, (isScale ? 1 : -1)); }
 
 	private:
@@ -496,7 +517,7 @@ namespace FCDocumentTools
 						else if (transform->HasType(FCDTRotation::GetClassType())) CONVERT_VECT3(((FCDTRotation*) transform)->GetAngleAxis(), ((FCDTRotation*) transform)->GetAxis())
 						else if (transform->HasType(FCDTScale::GetClassType())) CONVERT_SCALE(((FCDTScale*) transform)->GetScale(), ((FCDTScale*) transform)->GetScale())
 						else if (transform->HasType(FCDTSkew::GetClassType())) { CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetRotateAxis()); CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetAroundAxis()); }
-						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); }
+						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); size_t inserted = upAxisFunctor.InsertInversePivot(node, t + 1); t += inserted; transformCount += inserted; }
 						else if (transform->HasType(FCDTMatrix::GetClassType())) { CONVERT_MAT44(((FCDTMatrix*) transform)->GetTransform(), ((FCDTMatrix*) transform)->GetTransform()); }
 					}
 				}
-- 
2.43.0


From c15a07613a07a1203daf3bb7d094e60aa7b85771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 201/207] fix: standardising forgot the up-axis and the unit of
 a node before it came to its children

---
 FCollada/FCDocument/FCDocumentTools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 8b0dd51..bf96143 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -502,6 +502,7 @@ namespace FCDocumentTools
 			FCDocument* document = documentQueue.back(); documentQueue.pop_back();
 
 			// Iterate over the scene graph, modifying the transforms.
+			fm::pvector<FCDSceneNode> standardizedNodes;
 			VisualSceneNodeIterator visualSceneNodeIt(document->GetVisualSceneLibrary());
 			while (!visualSceneNodeIt.IsDone())
 			{
@@ -568,8 +569,10 @@ namespace FCDocumentTools
 					CLEAR_POINTER_VECTOR(toRemove);
 				}
 
-				ResetAsset(node);
+				standardizedNodes.push_back(node);
 			}
+			// The children of a node depend on its asset: reset them all now.
+			for (FCDSceneNode** it = standardizedNodes.begin(); it != standardizedNodes.end(); ++it) ResetAsset(*it);
 
 			// Iterate over the skin controllers: need to convert the bind-poses.
 			size_t controllerCount = document->GetControllerLibrary()->GetEntityCount();
-- 
2.43.0


From 08b48c73050303e431121b55b6e586f818a9dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 202/207] fix: standardising ignored the asset of the document
 or of the library next to another one

---
 FCollada/FCDocument/FCDEntity.cpp       |  2 +-
 FCollada/FCDocument/FCDocumentTools.cpp | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 2f81f15..6a906fc 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -108,7 +108,7 @@ FCDAsset* FCDEntity::GetAsset()
 void FCDEntity::GetHierarchicalAssets(FCDAssetConstList& assets) const
 {
 	if (asset != NULL) assets.push_back(asset);
-	else assets.push_back(GetDocument()->GetAsset());
+	assets.push_back(GetDocument()->GetAsset());
 }
 
 // Look for a children with the given COLLADA Id.
diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index bf96143..2a24875 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -257,7 +257,8 @@ namespace FCDocumentTools
 	{
 		FCDAssetList assets; assets.reserve(3);
 		entity->GetHierarchicalAssets(assets);
-		if (libraryAsset != NULL) assets.push_back(libraryAsset);
+		// The document asset comes last: the asset of the library overrides it.
+		if (libraryAsset != NULL) assets.insert(assets.end() - 1, libraryAsset);
 		bool hasLength = false;
 		bool hasAxis = false;
 		for (FCDAssetList::iterator it = assets.begin(); it != assets.end(); ++it)
@@ -269,9 +270,8 @@ namespace FCDocumentTools
 		if (!hasAxis) upAxisFunctor.SetCurrent(FMVector3::Origin);
 	}
 
-	inline void ResetAsset(FCDEntity* entity)
+	inline void ResetAsset(FCDAsset* asset)
 	{
-		FCDAsset* asset = const_cast<FCDAsset*>(const_cast<const FCDEntity*>(entity)->GetAsset());
 		if (asset != NULL)
 		{
 			asset->ResetHasUnitsFlag();
@@ -279,6 +279,11 @@ namespace FCDocumentTools
 		}
 	}
 
+	inline void ResetAsset(FCDEntity* entity)
+	{
+		ResetAsset(const_cast<FCDAsset*>(const_cast<const FCDEntity*>(entity)->GetAsset()));
+	}
+
 	void ConvertAnimationVector3(FCDAnimated* animated1, FCDAnimated* animated2, FCDAnimated* animated3, float* v1, float* v2, float* v3, FCDocument* document, FCDConversionUnitFunctor& lengthFunctor, FCDConversionSwapFunctor& upAxisFunctor, bool convertLength, bool isScale = false)
 	{
 		FUAssert(animated1 != NULL && animated2 != NULL && animated3 != NULL, return);
@@ -721,6 +726,13 @@ namespace FCDocumentTools
 				ResetAsset(library->GetEntity(i));
 			}
 
+			// The same goes for the assets of the libraries.
+			ResetAsset(document->GetVisualSceneLibrary()->GetAsset(false));
+			ResetAsset(document->GetControllerLibrary()->GetAsset(false));
+			ResetAsset(document->GetGeometryLibrary()->GetAsset(false));
+			ResetAsset(document->GetCameraLibrary()->GetAsset(false));
+			ResetAsset(library->GetAsset(false));
+
 			document->GetAsset()->SetUnitConversionFactor(unitInMeters);
 			document->GetAsset()->SetUpAxis(_upAxis);
 		}
-- 
2.43.0


From 8e7b116258d89bc5807d27d5ac09410566d28a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 203/207] fix: standardising the up-axis converted the
 animation of the wrong normals

---
 FCollada/FCDocument/FCDocumentTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 2a24875..ef7cedb 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -665,9 +665,9 @@ namespace FCDocumentTools
 									{
 										FMVector3& v = *(FMVector3*) (ptr + j * stride);
 										upAxisFunctor(v);
-										if (source->GetSourceData().IsAnimated(j) || source->GetSourceData().IsAnimated(j + 1) || source->GetSourceData().IsAnimated(j + 2))
+										if (source->GetSourceData().IsAnimated(stride * j) || source->GetSourceData().IsAnimated(stride * j + 1) || source->GetSourceData().IsAnimated(stride * j + 2))
 										{
-											ConvertAnimationVector3(source->GetSourceData().GetAnimated(j), source->GetSourceData().GetAnimated(j+1), source->GetSourceData().GetAnimated(j+2), v, document, lengthFunctor, upAxisFunctor, false);
+											ConvertAnimationVector3(source->GetSourceData().GetAnimated(stride * j), source->GetSourceData().GetAnimated(stride * j + 1), source->GetSourceData().GetAnimated(stride * j + 2), v, document, lengthFunctor, upAxisFunctor, false);
 										}
 									}
 								}
-- 
2.43.0


From 8872fc142b5eb3354966baa7d6cb4f8e0761c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 204/207] fix: standardising the unit kept the size of the view
 of orthographic cameras

---
 FCollada/FCDocument/FCDocumentTools.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index ef7cedb..5b6dfd4 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -714,6 +714,11 @@ namespace FCDocumentTools
 				{
 					CONVERT_FL(camera->GetFarZ(), camera->GetFarZ());
 					CONVERT_FL(camera->GetNearZ(), camera->GetNearZ());
+					if (camera->GetProjectionType() == FCDCamera::ORTHOGRAPHIC)
+					{
+						CONVERT_FL(camera->GetMagX(), camera->GetMagX());
+						CONVERT_FL(camera->GetMagY(), camera->GetMagY());
+					}
 				}
 				ResetAsset(camera);
 			}
-- 
2.43.0


From c96da8e95ac4d0109392975696dc0ad60d9c3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:11 +0000
Subject: [PATCH 205/207] fix: references to documents that another referenced
 document had loaded were not resolved

---
 FCollada/FCollada.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 895d5b9..8dc5963 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -86,7 +86,7 @@ namespace FCollada
 	{
 		documents.clear();
 		documents.insert(documents.end(), topDocuments.begin(), topDocuments.end());
-		for (size_t index = 0; index < topDocuments.size(); ++index)
+		for (size_t index = 0; index < documents.size(); ++index)
 		{
 			FCDocument* document = documents[index];
 
-- 
2.43.0


From eb2f3b6517adca0bac0a3c16fd7f2827229d1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:11 +0000
Subject: [PATCH 206/207] fix: references of a document to its own file loaded
 another copy of it

---
 FCollada/FCDocument/FCDEntityReference.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index bbd27eb..15d5f8e 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -77,10 +77,14 @@ void FCDEntityReference::SetUri(const FUUri& uri)
 	{
 		fstring fileUrl = GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(uri.GetAbsolutePath());
 
-		documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->FindPlaceHolder(fileUrl);
-		if (documentPlaceHolder == NULL)
+		// A document may name its own file.
+		if (fileUrl != GetDocument()->GetFileUrl())
 		{
-			documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->AddPlaceHolder(fileUrl);
+			documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->FindPlaceHolder(fileUrl);
+			if (documentPlaceHolder == NULL)
+			{
+				documentPlaceHolder = GetDocument()->GetExternalReferenceManager()->AddPlaceHolder(fileUrl);
+			}
 		}
 	}
 	SetPlaceHolder(documentPlaceHolder);
-- 
2.43.0


From 36de096c6f6f10984d5137d2493700f2eb64b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:52 +0000
Subject: [PATCH 207/207] fix: references that were set to a loaded document
 did not resolve or loaded another copy of it

---
 FCollada/FCDocument/FCDExternalReferenceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FCDocument/FCDExternalReferenceManager.cpp b/FCollada/FCDocument/FCDExternalReferenceManager.cpp
index 5452031..984e637 100644
--- a/FCollada/FCDocument/FCDExternalReferenceManager.cpp
+++ b/FCollada/FCDocument/FCDExternalReferenceManager.cpp
@@ -33,6 +33,14 @@ FCDPlaceHolder* FCDExternalReferenceManager::AddPlaceHolder(const fstring& _file
 	fstring fileUrl = GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(_fileUrl);
 	FCDPlaceHolder* holder = placeHolders.Add(GetDocument());
 	holder->SetFileUrl(fileUrl);
+
+	// The document may be loaded already.
+	FCDocumentList allDocuments;
+	FCollada::GetAllDocuments(allDocuments);
+	for (FCDocument** it = allDocuments.begin(); it != allDocuments.end(); ++it)
+	{
+		if ((*it) != GetDocument() && (*it)->GetFileUrl() == fileUrl) { holder->LoadTarget(*it); break; }
+	}
 	SetNewChildFlag();
 	return holder;
 }
-- 
2.43.0

