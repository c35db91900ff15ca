From 1c01abb7eeb03c9384da806a2f3831ac58b780f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 001/158] fix: array_append_items and array_append_at store the
 items they are given

array_append_items copied the items over the array handle instead of the
array's storage. array_append_at made room for an item it never wrote, and
placed an index past the end before the last item instead of after it.
---
 base/dependencies/containers.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..43562df 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy((Type*)(* array) + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
@@ -203,8 +203,8 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	ArrayHeader* header = array_get_header(* array);
 
 	ssize slot = idx;
-	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
+	if (slot > (ssize)(header->Num))
+		slot = header->Num;
 
 	if (slot < 0)
 		slot = 0;
@@ -220,6 +220,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
-- 
2.43.0


From 71bbfeedd053f3586964d329e03c188b3788b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 002/158] fix: make the array and hashtable templates that
 called nonexistent helpers usable

array_append_items_at, array_reserve and the hashtable map, remove, rehash_fast
and slot templates called helpers under names that do not exist, so
instantiating any of them failed to compile.
---
 base/dependencies/containers.hpp | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 43562df..d441f9c 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -231,23 +231,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = (Type*)(* array) + idx + item_num;
+	Type* src    = (Type*)(* array) + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
@@ -356,10 +356,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
@@ -578,7 +578,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -589,7 +589,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -640,19 +640,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -665,11 +665,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -677,7 +677,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -718,7 +718,7 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
 		if (table.Hashes[idx] == key)
 			return idx;
 
-- 
2.43.0


From ef76242a056c6549545cb7b9201f11eb0a0e3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 003/158] fix: define strbuilder_are_equal and
 strbuilder_contains_str under their declared names

Both were declared (and used by StrBuilder::is_equal and StrBuilder::contains)
but defined under different names, so any use failed to link.
---
 base/dependencies/strings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..adcea76 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -385,7 +385,7 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -422,7 +422,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
-- 
2.43.0


From 15c165245e30fd83fa887f6cdf4111f9fdfab3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 004/158] fix: strbuilder_starts_with_string compares the whole
 prefix

It left the prefix's last character out of the comparison.
---
 base/dependencies/strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index adcea76..887bc5a 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -513,7 +513,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From b22440da53ff24a396c315b512b8f6e4a22e1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 005/158] fix: strbuilder_clear leaves an empty C string

The builder converts to char const*, which still read the old text.
---
 base/dependencies/strings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 887bc5a..ba252ec 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -470,6 +470,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	str[0] = '\0';
 }
 
 forceinline
-- 
2.43.0


From cce8508afeb47f24ccb87dde090c762299728eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 006/158] fix: token_fmt keeps an unclosed '<' as text and
 stays inside its buffer

---
 base/components/interface.untyped.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..9fc0333 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -28,7 +28,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	char const* fmt     = va_arg( va, char const* );
 	char        current = *fmt;
 
-	while ( current )
+	while ( current && remaining )
 	{
 		ssize len = 0;
 
@@ -48,7 +48,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 			s32 tok_len = 0;
 
-			while ( *scanner != '>' )
+			while ( *scanner && *scanner != '>' )
 			{
 				tok_len++;
 				scanner++;
@@ -57,14 +57,15 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = fmt + 1;
 
 			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+			// A '<' that is never closed is not a token.
+			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
 			{
 				ssize          left = value->Len;
 				char const* str  = value->Ptr;
 
-				while ( left-- )
+				while ( left-- && remaining )
 				{
 					* buf = * str;
 					buf++;
@@ -78,6 +79,9 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 				continue;
 			}
 
+			if ( remaining == 0 )
+				break;
+
 			* buf = * fmt;
 			buf++;
 			fmt++;
-- 
2.43.0


From f934141d6d0358351c5441aed037ecf56405f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 007/158] fix: untyped_fmt returns the formatted node instead
 of always failing

---
 base/components/interface.untyped.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 9fc0333..d571d4a 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -133,12 +133,14 @@ Code untyped_fmt( char const* fmt, ...)
 	va_start(va, fmt);
 	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
 	va_end(va);
-    Str content = { buf, length };
+	// The length reported counts the null-terminator.
+	Str content = { buf, length - 1 };
 
 	Code
 	result          = make_code();
+	result->Name    = cache_str( content );
 	result->Type    = CT_Untyped;
-	result->Content = cache_str( content );
+	result->Content = result->Name;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From e0778fbe6008bc12a755bedb090d6436e8eeb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 008/158] fix: an empty quoted CSV cell no longer has the text
 after it unescaped

---
 base/dependencies/parsing.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..4e4cf24 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -875,7 +875,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -883,7 +883,6 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
 		else if ( *currentChar == delim )
-- 
2.43.0


From 88aaa45c42c0e3f8fd412f17bc20f08f251f827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 009/158] fix: a CSV row longer than the rows before it is a
 mismatched row

---
 base/dependencies/parsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 4e4cf24..079867a 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -821,7 +821,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	char* endChar;
 
 	ssize columnIndex       = 0;
-	ssize totalColumnIndex = 0;
+	ssize totalColumnIndex = -1; // Set by the first row
 
 	do
 	{
@@ -964,7 +964,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( totalColumnIndex < 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
-- 
2.43.0


From 8a71f223913d1a09afedd40b741e89b8ae018dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 010/158] fix: an empty last cell of a CSV row no longer
 swallows the next row

---
 base/dependencies/parsing.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 079867a..df43a8a 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -826,9 +826,10 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 	do
 	{
 		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
+		// After a delimiter the cell ends with its line, even if it is empty.
+		currentChar = ccast( char*, c_str_trim( currentChar, columnIndex > 0 ));
 
-		if ( *currentChar == 0 )
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -885,12 +886,12 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				}
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
 		}
-		else if ( *currentChar )
+		else
 		{
 			/* regular data */
 			beginChar      = currentChar;
@@ -980,7 +981,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 				currentChar++;
 		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || columnIndex > 0 );
 
 	if (array_num( root->nodes) == 0 )
 	{
-- 
2.43.0


From 7ec058d9093908a08d97dca0b17962559bc82d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 011/158] fix: growing memory streams keep what was written to
 them

---
 base/dependencies/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..35cc90d 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -627,7 +627,7 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 
 		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
+		array_get_header(arr)->Num = new_cap; // What growing the array has to carry over
 	}
 	else
 	{
-- 
2.43.0


From e77081100e9b3fc4780c971f309e163df6a4536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 012/158] fix: memory streams do not read or write outside
 their buffer

---
 base/dependencies/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 35cc90d..36b1c02 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -588,6 +588,7 @@ GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
 	_memory_fd* d = _file_stream_from_fd( fd );
+	size = clamp( d->cap - offset, 0, size );
 	mem_copy( buffer, d->buf + offset, size );
 	if ( bytes_read )
 		*bytes_read = size;
@@ -602,6 +603,9 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
+	if ( offset < 0 || offset > d->cap )
+		return false;
+
 	ssize buflen   = d->cap;
 	ssize extralen = max( 0, size - ( buflen - offset ) );
 	ssize rwlen    = size - extralen;
-- 
2.43.0


From 404c3328705acf3d44e9d75680dc931e2755f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 013/158] fix: file_read_contents gives no contents for a file
 it could not read

---
 base/dependencies/filesystem.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index 36b1c02..5f6e68b 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -438,16 +438,25 @@ FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const
 	FileInfo     file  ;
 
 	result.allocator = a;
+	result.data      = nullptr;
+	result.size      = 0;
 
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
 		ssize fsize = scast( ssize , file_size( &file ));
 		if ( fsize > 0 )
 		{
+			ssize bytes_read = 0;
+
 			result.data = alloc( a, zero_terminate ? fsize + 1 : fsize );
 			result.size = fsize;
-			file_read_at( &file, result.data, result.size, 0 );
-			if ( zero_terminate )
+			if ( ! file_read_at_check( &file, result.data, result.size, 0, & bytes_read ) || bytes_read != fsize )
+			{
+				allocator_free( a, result.data );
+				result.data = nullptr;
+				result.size = 0;
+			}
+			else if ( zero_terminate )
 			{
 				u8* str      = rcast( u8*, result.data);
 				str[ fsize ] = '\0';
-- 
2.43.0


From 717f48e21a5c1312d0df4321752dcaed88835ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 014/158] fix: file_write reports a write that stored only part
 of the data

---
 base/dependencies/filesystem.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/filesystem.hpp b/base/dependencies/filesystem.hpp
index 9d3676a..720a5ef 100644
--- a/base/dependencies/filesystem.hpp
+++ b/base/dependencies/filesystem.hpp
@@ -371,7 +371,9 @@ b32 file_write( FileInfo* f, void const* buffer, ssize size )
 inline
 b32 file_write_at( FileInfo* f, void const* buffer, ssize size, s64 offset )
 {
-	return file_write_at_check( f, buffer, size, offset, NULL );
+	ssize bytes_written = 0;
+	b32   result        = file_write_at_check( f, buffer, size, offset, & bytes_written );
+	return result && bytes_written == size;
 }
 
 inline
-- 
2.43.0


From 6cc4bf9e178592b671cf85fd7f72065ac3864ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 015/158] fix: scan_file refuses a file it could not read

---
 base/auxiliary/scanner.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..50aa846 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -21,8 +21,14 @@ Code scan_file( char const* path )
 	}
 
 	StrBuilder str = strbuilder_make_reserve( get_context()->Allocator_Temp, fsize );
-		file_read( & file, str, fsize );
-		strbuilder_get_header(str)->Length = fsize;
+	ssize      bytes_read = 0;
+	if ( ! file_read_at_check( & file, str, fsize, 0, & bytes_read ) || bytes_read != fsize )
+	{
+		file_close( & file );
+		GEN_FATAL("scan_file: Could not read: %s", path );
+	}
+	strbuilder_get_header(str)->Length = fsize;
+	str[fsize] = '\0';
 
 	// Skip INTELLISENSE_DIRECTIVES preprocessor blocks
 	// Its designed so that the directive should be the first thing in the file.
-- 
2.43.0


From 91749563bc574900d790395fbcf918e30883c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 016/158] fix: scan_file stops at the end of a file whose last
 directive has no line end

---
 base/auxiliary/scanner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index 50aa846..afbc1c7 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -75,7 +75,8 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
@@ -91,7 +92,8 @@ Code scan_file( char const* path )
 					// Skip to end of line
 					while ( left && current != '\r' && current != '\n' )
 						move_fwd();
-					move_fwd();
+					if ( left )
+						move_fwd();
 
 					if ( left && current == '\n' )
 						move_fwd();
-- 
2.43.0


From 3bf65f8ecdc30bbdd0197d0008c733089b3350b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 017/158] fix: builder_pad_lines pads by the number of lines
 asked for

---
 base/auxiliary/builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..877c3a9 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -25,7 +25,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	while ( num-- > 0 )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
-- 
2.43.0


From 6aa789cc92b69450348b957cb54938a7301c9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 018/158] fix: scan_file stops at a '#' that ends the file
 inside a dropped block

---
 base/auxiliary/scanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index afbc1c7..0cb3403 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -113,7 +113,8 @@ Code scan_file( char const* path )
 				}
 			}
 
-			move_fwd();
+			if ( left )
+				move_fwd();
 		}
 	#undef move_fwd
 	#undef matched
-- 
2.43.0


From ee1956cf60a32a03fa4ef944146ca1b6e56ff542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 019/158] fix: arena accounts for the space it skips to align a
 block

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..186ee90 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -348,7 +348,8 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			// The space skipped to reach the alignment belongs to the block as well
+			ssize total_size = pointer_diff( end, align_forward( end, alignment ) ) + align_forward_s64( size, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
-- 
2.43.0


From 803cd1b833ffc5b7f8e9f6912c096718bd58d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 020/158] fix: resizing a block of an arena stays in the arena

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 186ee90..a150db9 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -379,7 +379,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info(arena);
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
-- 
2.43.0


From b3abb1082568d156e43b2cfeb21ded50b922f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 021/158] fix: every block of a pool has the pool's alignment

---
 base/dependencies/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index a150db9..6356cfc 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -433,7 +433,7 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				void* curr;
 				uptr* end;
 
-				actual_block_size = pool->BlockSize + pool->BlockAlign;
+				actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 				pool->TotalSize   = 0;
 
 				// NOTE: Init intrusive freelist
@@ -475,7 +475,7 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool.BlockAlign  = block_align;
 	pool.NumBlocks   = num_blocks;
 
-	actual_block_size = block_size + block_align;
+	actual_block_size = align_forward_s64( block_size, block_align ) + block_align;
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
@@ -504,7 +504,7 @@ void pool_clear(Pool* pool)
 	void* curr;
 	uptr* end;
 
-	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 
 	curr = pool->PhysicalStart;
 	for ( block_index = 0; block_index < pool->NumBlocks - 1; block_index++ )
-- 
2.43.0


From 9b3c8d629120ca257bd659c2a3aed6ec49809274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 022/158] fix: pool_clear leaves no block counted as used

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 6356cfc..7e443fa 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -517,7 +517,8 @@ void pool_clear(Pool* pool)
 	end  =  ( uptr* ) curr;
 	*end =  ( uptr )  NULL;
 
-	pool->FreeList = pool->PhysicalStart;
+	pool->FreeList  = pool->PhysicalStart;
+	pool->TotalSize = 0;
 }
 
 #pragma endregion Memory
-- 
2.43.0


From f4dd7c7d40e2014301d659aab8d83e70ce90045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 023/158] fix: resizing with the fallback allocator stays in
 its buckets and in the block

---
 base/components/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..4bfcda9 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -57,11 +57,11 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 				last = array_back( _ctx->Fallback_AllocatorBuckets);
 			}
 
-			void* result = alloc_align( last->Backing, size, alignment );
+			void* result = alloc_align( arena_allocator_info(last), size, alignment );
 
 			if ( result != nullptr && old_memory != nullptr )
 			{
-				mem_copy( result, old_memory, old_size );
+				mem_copy( result, old_memory, min( old_size, size ) );
 			}
 
 			return result;
-- 
2.43.0


From 45abd756af25ca11d911fdbd44a484fec0dc9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 024/158] fix: the fallback allocator opens a new bucket when
 the aligned block does not fit

---
 base/components/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 4bfcda9..55995f1 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -17,7 +17,7 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	{
 		case EAllocation_ALLOC:
 		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
+			if ( arena_size_remaining( last, alignment ) < align_forward_s64( size, alignment ) )
 			{
 				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
 
@@ -44,7 +44,7 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		break;
 		case EAllocation_RESIZE:
 		{
-			if ( last->TotalUsed + size > last->TotalSize )
+			if ( arena_size_remaining( last, alignment ) < align_forward_s64( size, alignment ) )
 			{
 				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
 
-- 
2.43.0


From 82412d8a8c244cd2f8ae2eb1c85a8a56711c0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 025/158] fix: strings that do not fit the string arena get one
 they fit in

---
 base/components/interface.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 55995f1..b8221be 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -420,10 +420,14 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
-	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
+	ssize  size_req = align_forward_s64( scast(ssize, str_length + sizeof(StrBuilderHeader) + sizeof(char*)), GEN_DEFAULT_MEMORY_ALIGNMENT );
+	if ( size_req > arena_size_remaining( last, GEN_DEFAULT_MEMORY_ALIGNMENT ) )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		ssize arena_size = _ctx->SizePer_StringArena;
+		if ( arena_size < size_req )
+			arena_size = size_req;
+
+		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, arena_size );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
-- 
2.43.0


From 8c88abdf1bbce9a5b96c74f9b8fd47f739ffc8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 026/158] fix: cache_str never returns another string that has
 the same hash

---
 base/components/interface.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b8221be..8b0db66 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -444,10 +444,16 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
-			return * result;
+	u64        key    = crc32( str.Ptr, str.Len );
+	StrCached* cached = hashtable_get( _ctx->StrCache, key );
+	while ( cached )
+	{
+		if ( str_are_equal( * cached, str ) )
+			return * cached;
+
+		// A different string with the same hash: the upper half of the key tells them apart
+		key    += (u64)1 << 32;
+		cached  = hashtable_get( _ctx->StrCache, key );
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
-- 
2.43.0


From 27d5f8e1acff6cbe7673b53aa75e6721a067c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 027/158] fix: macros whose names have the same hash are told
 apart

---
 base/components/interface.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 8b0db66..8cdf6d8 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -481,15 +481,30 @@ Code make_code()
 	return result;
 }
 
+// The key the macro is (or would be) registered with
+internal
+u64 macro_key( Str name )
+{
+	u64    key   = crc32( name.Ptr, name.Len );
+	Macro* found = hashtable_get( _ctx->Macros, key );
+	while ( found && ! str_are_equal( found->Name, name ) )
+	{
+		// A different name with the same hash: the upper half of the key tells them apart
+		key   += (u64)1 << 32;
+		found  = hashtable_get( _ctx->Macros, key );
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
+	u64 key = macro_key( name );
 	return hashtable_get( _ctx->Macros, key );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -506,7 +521,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -523,7 +538,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From 31bb987469d63fcc63369694342bb7d6ac3851f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 028/158] fix: deinit of a context that never used the fallback
 allocator

---
 base/components/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 8cdf6d8..52a93b4 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -358,7 +358,7 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
+	left  = ctx->Fallback_AllocatorBuckets ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
 		index = 0;
-- 
2.43.0


From a30fe850483f3b7ac1ed6fdec8ce7f40800fc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 029/158] fix: deinit of a context that is not the active one

---
 base/components/interface.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 52a93b4..e38e285 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -331,6 +331,11 @@ void deinit(Context* ctx)
 {
 	GEN_ASSERT(context_counter);
 	GEN_ASSERT_MSG(context_counter > 0, "Attempted to deinit a context that for some reason wan't accounted for!");
+
+	// The fallback allocator serves the active context
+	Context* active = _ctx;
+	_ctx = ctx;
+
 	usize index = 0;
 	usize left  = array_num(ctx->CodePools);
 	do
@@ -373,8 +378,7 @@ void deinit(Context* ctx)
 	}
 	parser_deinit();
 
-	if (_ctx == ctx) 
-		_ctx = nullptr;
+	_ctx = active == ctx ? nullptr : active;
 	-- context_counter;
 
 	Context wipe = {};
-- 
2.43.0


From 3a0e15812b7db14dff08bebb0a0e6f34f358031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 030/158] fix: deinit releases the token list and the token map

---
 base/components/interface.cpp | 6 +++++-
 base/components/parser.cpp    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index e38e285..4676e77 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -363,6 +363,11 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
+	if (ctx->token_fmt_map.Hashes)
+		hashtable_destroy(ctx->token_fmt_map);
+
+	parser_deinit();
+
 	left  = ctx->Fallback_AllocatorBuckets ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
@@ -376,7 +381,6 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
 
 	_ctx = active == ctx ? nullptr : active;
 	-- context_counter;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..3aa1bed 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -133,6 +133,7 @@ internal
 void parser_deinit()
 {
 	Array(Token) null_array = { nullptr };
+	array_free( _ctx->Lexer_Tokens );
 	_ctx->Lexer_Tokens = null_array;
 }
 
-- 
2.43.0


From 1996be39ac6adfbd81551a910fc400bc2b186532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 031/158] fix: every context knows the enum_underlying macro,
 also after a reset

---
 base/components/interface.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 4676e77..d1399e4 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -206,6 +206,11 @@ void define_constants()
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
 
+}
+
+internal
+void define_macros()
+{
 	if (enum_underlying_macro.Name.Len == 0) {
 		enum_underlying_macro.Name  = txt("enum_underlying");
 		enum_underlying_macro.Type  = MT_Expression;
@@ -322,6 +327,7 @@ void init(Context* ctx)
 	}
 
 	define_constants();
+	define_macros();
 	parser_init();
 
 	++ context_counter;
@@ -418,6 +424,7 @@ void reset(Context* ctx)
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
 	define_constants();
+	define_macros();
 }
 
 void set_context(Context* new_ctx) {
-- 
2.43.0


From 79721b1446f81c6a24ba0c12164b5d6ed14354b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 032/158] fix: reset makes the constants anew instead of
 leaving them dangling

---
 base/components/interface.cpp | 37 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index d1399e4..26e665c 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -71,12 +71,16 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	return nullptr;
 }
 
+// The context whose memory holds the constants (the base context)
+global Context* constants_context;
+
 internal
 void define_constants()
 {
-	// We only initalize these if there is no base context.
-	if ( context_counter > 0 )
+	// We only initalize these for the base context.
+	if ( context_counter > 0 && constants_context != _ctx )
 		return;
+	constants_context = _ctx;
 
 	Code_Global          = make_code();
 	Code_Global->Name    = cache_str( txt("Global Code") );
@@ -401,30 +405,31 @@ Context* get_context() {
 
 void reset(Context* ctx)
 {
-	s32 index = 0;
-	s32 left  = array_num(ctx->CodePools);
-	do
+	// The constants and the fallback allocator depend on the active context
+	Context* active = _ctx;
+	_ctx = ctx;
+
+	// Only the first pool and the first arena are kept: what is made first after a reset (the constants) stays where it was.
+	while ( array_num(ctx->CodePools) > 1 )
 	{
-		Pool* code_pool = & ctx->CodePools[index];
-		pool_clear(code_pool);
-		index++;
+		pool_free( array_back(ctx->CodePools) );
+		array_pop(ctx->CodePools);
 	}
-	while ( left--, left );
+	pool_clear( array_back(ctx->CodePools) );
 
-	index = 0;
-	left  = array_num(ctx->StringArenas);
-	do
+	while ( array_num(ctx->StringArenas) > 1 )
 	{
-		Arena* strbuilder_arena = & ctx->StringArenas[index];
-		strbuilder_arena->TotalUsed = 0;;
-		index++;
+		arena_free( array_back(ctx->StringArenas) );
+		array_pop(ctx->StringArenas);
 	}
-	while ( left--, left );
+	array_back(ctx->StringArenas)->TotalUsed = 0;
 
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
 	define_constants();
 	define_macros();
+
+	_ctx = active;
 }
 
 void set_context(Context* new_ctx) {
-- 
2.43.0


From bf37454b83062a735ceb094d961ed7abf9c40b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 033/158] fix: reporting a parse error does not read past the
 source

---
 base/components/parser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3aa1bed..9e0f13d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -52,9 +52,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
-- 
2.43.0


From c64578c3d76850fca4ad28ba73b6a4531a9cdc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 034/158] fix: an operator without a return type is refused,
 not dereferenced

---
 base/components/interface.upfront.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..7fa9856 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
-- 
2.43.0


From 0a5a3ef74d601abb97b1c06cfcb6c2c2b8251088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 035/158] fix: every operator refuses parameters that are not
 parameters

---
 base/components/interface.upfront.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 7fa9856..b0146c8 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -63,6 +63,12 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		return OpValResult_Fail;
 	}
 
+	if ( params_code && params_code->Type != CT_Parameters )
+	{
+		log_failure("gen::def_operator: operator %S - params is not of Parameters type - %S", operator_to_str(op), code_debug_str(cast(Code, params_code)));
+		return OpValResult_Fail;
+	}
+
 	bool is_member_symbol = false;
 
 	switch ( op )
-- 
2.43.0


From aa1da89f0d43d4aa52b880887dfb828b82cb7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 036/158] fix: increment and decrement operators: member prefix
 form and the int of the non-member postfix form

---
 base/components/inlines.hpp           | 7 ++-----
 base/components/interface.upfront.cpp | 4 +++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..0976df7 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -520,14 +520,11 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
+	while ( idx > 0 && param != nullptr )
 	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
 		param = cast(CodeParams, cast(Code, param)->Next);
+		idx--;
 	}
-	while ( --idx );
 
 	return param;
 }
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index b0146c8..ac9b2d3 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -146,7 +146,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					case 2:
 						check_param_eq_ret();
 
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
@@ -164,6 +164,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						return OpValResult_Fail;
 				}
 			}
+			else
+				is_member_symbol = true;
 			break;
 
 		case Op_Unary_Plus:
-- 
2.43.0


From aa8106110788a70ec36d41d177da153792683804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 037/158] fix: unary plus and minus may return the type of
 their operand

---
 base/components/interface.upfront.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index ac9b2d3..344cd69 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -181,18 +181,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
-				{
-					log_failure("gen::def_operator: "
-						"operator %S is non-member symbol yet first paramter does not equal return type\n"
-						"param type: %S\n"
-						"return type: %S\n"
-						, code_debug_str((Code)params_code)
-						, code_debug_str((Code)ret_type)
-					);
-					return OpValResult_Fail;
-				}
-
 				if ( params_code->NumEntries > 1 )
 				{
 					log_failure("gen::def_operator: operator %S may not have more than one parameter - param count: %d"
-- 
2.43.0


From 535ccc6b2815c695c68895b45bdb16a6268a4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 038/158] fix: operator->* is a binary operator

---
 base/components/interface.upfront.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 344cd69..6f5708a 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -237,6 +237,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_BXOr:
 		case Op_LShift:
 		case Op_RShift:
+		case Op_PtrToMemOfPtr:
 			check_params();
 
 			switch ( params_code->NumEntries )
@@ -346,14 +347,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			}
 			break;
 
-		case Op_PtrToMemOfPtr:
-			if ( params_code )
-			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
-			}
-			break;
-
 		case Op_Subscript:
 		case Op_FunctionCall:
 		case Op_Comma:
-- 
2.43.0


From c86a5584dcc9fc6f306d88bf0ecb5f548edc5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 039/158] fix: the function call operator may have no
 parameters

---
 base/components/interface.upfront.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 6f5708a..99d928c 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -348,11 +348,14 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			break;
 
 		case Op_Subscript:
-		case Op_FunctionCall:
 		case Op_Comma:
 			check_params();
 			break;
 
+		case Op_FunctionCall:
+			// May have any number of parameters.
+			break;
+
 		case Op_New:
 		case Op_Delete:
 			// This library doesn't support validating new and delete yet.
-- 
2.43.0


From ff532ebd5b8bc26f6ef8952c88242a64ba397693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 040/158] fix: indirection and address-of with a parameter are
 not members

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 99d928c..7bc7384 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -341,7 +341,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 				);
 				return OpValResult_Fail;
 			}
-			else
+			else if ( ! params_code || op == Op_MemberOfPointer )
 			{
 				is_member_symbol = true;
 			}
-- 
2.43.0


From 2fc54877aaf43518d7d8749a64e379c6a2e0b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 041/158] fix: operators parsed without parameters keep their
 symbol

---
 base/components/parser.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9e0f13d..c308111 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2208,7 +2208,7 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == '>' )
 			{
 				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
@@ -2455,8 +2455,17 @@ CodeOperator parse_operator_after_ret_type(
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
-	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+	if ( params == nullptr )
+	{
+		switch ( op )
+		{
+			case Op_Add:      op = Op_Unary_Plus;  break;
+			case Op_Subtract: op = Op_Unary_Minus; break;
+			case Op_Multiply: op = Op_Indirection; break;
+			case Op_BAnd:     op = Op_AddressOf;   break;
+			default: break;
+		}
+	}
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From e87d809aeb882c3875920fc3b5ed824a0a60acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 042/158] fix: def_using accepts a type and refuses the lack of
 one

---
 base/components/interface.upfront.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 7bc7384..cfd88f7 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1228,7 +1228,13 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
+	if ( type->Type != CT_Typename ) {
+		log_failure( "gen::def_using: type is not a typename - %s", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
-- 
2.43.0


From 4b8d35264b061a794c5c5a440dd1e491679afb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 043/158] fix: def_template refuses what cannot be a template

---
 base/components/interface.upfront.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index cfd88f7..f32811b 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1091,6 +1091,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 
 		default:
 			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			return InvalidCode;
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
-- 
2.43.0


From fbf4012fa4ef16ffe0e2bb76eb0b77e06217bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 044/158] fix: only an enum that is not defined needs an
 underlying type

---
 base/components/interface.upfront.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index f32811b..388092e 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -664,7 +664,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Class_Fwd || result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
-- 
2.43.0


From de4e4823e55b0a63610a3acd96af64d340ef20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 045/158] fix: def_typedef keeps the attributes

---
 base/components/ast_types.hpp          | 3 ++-
 base/components/code_serialization.cpp | 3 +++
 base/components/interface.upfront.cpp  | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 27bfae1..cff5b1e 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -1077,7 +1077,8 @@ struct AST_Typedef
 		struct
 		{
 			CodeComment    InlineCmt;
-			char           _PAD_PROPERTIES_[ sizeof(AST*) * 2 ];
+			CodeAttributes Attributes;
+			char           _PAD_SPECS_[ sizeof(AST*) ];
 			Code           UnderlyingType;
 			char           _PAD_PROPERTIES_2_[ sizeof(AST*) * 3 ];
 		};
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..324c5ff 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1023,6 +1023,9 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	strbuilder_append_str( result, txt("typedef "));
 
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	// Determines if the typedef is a function typename
 	if ( self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 388092e..8219bcf 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1181,6 +1181,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	result->Type           = CT_Typedef;
 	result->ModuleFlags    = p.mflags;
 	result->UnderlyingType = type;
+	result->Attributes     = p.attributes;
 
 	if ( name.Len <= 0  )
 	{
-- 
2.43.0


From 64fd5770918a23ed987a44cbb0169f274144076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 046/158] fix: class and namespace bodies made from an array
 have their own type

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 8219bcf..2b6e271 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1378,7 +1378,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1836,7 +1836,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
-- 
2.43.0


From c0bb91d3a73ee7d9ab26515bdb12034bbb075872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 047/158] fix: parameter lists keep all of their first
 parameter and refuse missing ones

---
 base/components/interface.upfront.cpp | 33 +++++++++++++++------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 2b6e271..221520b 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1413,7 +1413,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1424,6 +1425,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1448,14 +1451,13 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( num--, num > 0 ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1870,7 +1872,8 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1881,6 +1884,8 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
@@ -1905,15 +1910,13 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( num--, num > 0 ) {
+		codes++;
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 377736745a3d3e36da4df05948d97bd7104cb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 048/158] fix: class, struct, conversion operator and define
 check the type of specifiers and parameters

---
 base/components/interface.upfront.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 221520b..967c46a 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -519,6 +519,11 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_class: specifiers was not a `Specifiers` type - %s", code_debug_str(cast(Code, p.specifiers)) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeClass
 	result               = (CodeClass) make_code();
@@ -560,6 +565,11 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.params && p.params->Type != CT_Parameters_Define ) {
+		log_failure( "gen::def_define: params was not a `Parameters_Define` type - %s", code_debug_str(cast(Code, p.params)) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	CodeDefine
 	result          = (CodeDefine) make_code();
 	result->Type    = CT_Preprocess_Define;
@@ -930,6 +940,11 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specs && p.specs->Type != CT_Specifiers ) {
+		log_failure( "gen::def_operator_cast: specs was not a `Specifiers` type - %s", code_debug_str(cast(Code, p.specs)) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeOpCast result = (CodeOpCast) make_code();
 	if (p.body)
@@ -1044,6 +1059,11 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_struct: specifiers was not a `Specifiers` type - %s", code_debug_str(cast(Code, p.specifiers)) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeStruct
 	result              = (CodeStruct) make_code();
-- 
2.43.0


From 49fa9c93d36c4f2928d2e42f395a65294a747580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 049/158] fix: an interface can be added to a class or struct
 without a parent

---
 base/components/inlines.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 0976df7..6a248ed 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -478,6 +478,12 @@ void class_add_interface( CodeClass self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentAccess = AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
@@ -694,6 +700,12 @@ void struct_add_interface(CodeStruct self, CodeTypename type )
 		// If your planning on adding a proper parent,
 		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
+	else
+	{
+		self->ParentAccess = AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
 
 	while ( possible_slot->Next != nullptr )
 	{
-- 
2.43.0


From b3aeed55e78e1b3811fbcf2830f9ce633275bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 050/158] fix: def_comment does not read past its text

---
 base/components/interface.upfront.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 967c46a..0e7bee7 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -433,20 +433,17 @@ CodeComment def_comment( Str content )
 	StrBuilder  cmt_formatted = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(1) );
 	char const* end           = content.Ptr + content.Len;
 	char const* scanner       = content.Ptr;
-	s32         curr          = 0;
 	do
 	{
-		char const* next   = scanner;
-		s32         length = 0;
-		while ( next != end && scanner[ length ] != '\n' )
-		{
-			next = scanner + length;
+		s32 length = 0;
+		while ( scanner + length < end && scanner[ length ] != '\n' )
 			length++;
-		}
-		length++;
 
-		strbuilder_append_fmt(& cmt_formatted, "//%.*s", length, scanner );
-		scanner += length;
+		Str line = { scanner, length };
+		strbuilder_append_str(& cmt_formatted, txt("//"));
+		strbuilder_append_str(& cmt_formatted, line);
+		strbuilder_append_str(& cmt_formatted, txt("\n"));
+		scanner += length + 1;
 	}
 	while ( scanner <= end );
 
-- 
2.43.0


From de0f01bce58ca40ab206f6f7723f535ff872f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 051/158] fix: def_body makes extern linkage bodies

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 6a248ed..d120eb1 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -725,7 +725,7 @@ CodeBody def_body( CodeType type )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
-- 
2.43.0


From 253b2b5ad8fb5d88a07d40322220688d30636ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 052/158] fix: code_debug_str of a node that is the first of
 its list or the only parameter

---
 base/components/ast.cpp | 50 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..088b54c 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
-- 
2.43.0


From 8ef5b16c8e98913fd7e809c592cfd6e2718f2856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 053/158] fix: an element appended to a list leaves its former
 neighbours behind

---
 base/components/inlines.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index d120eb1..dfea0e9 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -324,6 +324,9 @@ void code_append( Code self, Code other )
 	if ( other->Parent != nullptr )
 		other = code_duplicate(other);
 
+	// Its neighbours so far are not those it has here.
+	other->Prev   = NullCode;
+	other->Next   = NullCode;
 	other->Parent = self;
 
 	if ( self->Front == nullptr )
@@ -507,6 +510,12 @@ void params_append( CodeParams appendee, CodeParams other )
 	if ( entry->Parent != nullptr )
 		entry = code_duplicate( entry );
 
+	// Its neighbours so far are not those it has here (unless its a list of its own).
+	if ( entry->NumEntries <= 1 )
+	{
+		entry->Last = NullCode;
+		entry->Next = NullCode;
+	}
 	entry->Parent = self;
 
 	if ( self->Last == nullptr )
-- 
2.43.0


From 5cee667033aa88246c47ba85a9c5a498ccde1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 054/158] fix: iterating over an empty body

---
 base/components/inlines.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index dfea0e9..bab7148 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -457,6 +457,9 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
+	if ( body->Back == nullptr )
+		return NullCode;
+
 	return body->Back->Next;
 }
 inline
-- 
2.43.0


From 1bd7310bd66061968d50ed4f5473c2b09716bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 055/158] fix: subscript and function call operators are
 members, comma is binary

---
 base/components/interface.upfront.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 0e7bee7..439c538 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -238,6 +238,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_LShift:
 		case Op_RShift:
 		case Op_PtrToMemOfPtr:
+		case Op_Comma:
 			check_params();
 
 			switch ( params_code->NumEntries )
@@ -348,12 +349,13 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			break;
 
 		case Op_Subscript:
-		case Op_Comma:
 			check_params();
+			is_member_symbol = true;
 			break;
 
 		case Op_FunctionCall:
 			// May have any number of parameters.
+			is_member_symbol = true;
 			break;
 
 		case Op_New:
-- 
2.43.0


From 56f641b08a8c83baa5ce507f560518f0ab66e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 056/158] fix: operator-> has no parameters

---
 base/components/interface.upfront.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 439c538..867ab65 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -334,7 +334,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		case Op_Indirection:
 		case Op_AddressOf:
 		case Op_MemberOfPointer:
-			if ( params_code && params_code->NumEntries > 1)
+			if ( params_code && ( params_code->NumEntries > 1 || op == Op_MemberOfPointer ) )
 			{
 				log_failure("gen::def_operator: operator %S recieved unexpected number of paramters recived %d instead of 0-1"
 					, operator_to_str(op)
@@ -342,7 +342,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 				);
 				return OpValResult_Fail;
 			}
-			else if ( ! params_code || op == Op_MemberOfPointer )
+			else if ( ! params_code )
 			{
 				is_member_symbol = true;
 			}
-- 
2.43.0


From 1462c356d7cfedb53bfb987a991f6ba10c3a8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 057/158] fix: code_is_equal compares the parameters of lists

---
 base/components/ast.cpp | 115 +++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 73 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 088b54c..3e7fb68 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -917,85 +917,54 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Parameters:
 		{
-			if ( self->NumEntries > 1 )
+			check_member_val( NumEntries );
+
+			Code curr       = self;
+			Code curr_other = other;
+			while ( curr != nullptr && curr_other != nullptr )
 			{
-				Code curr       = self;
-				Code curr_other = other;
-				while ( curr != nullptr  )
+				if ( ! str_are_equal(curr->Name, curr_other->Name) )
 				{
-					if ( curr )
-					{
-						if ( curr_other == nullptr )
-						{
-							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For ast member: %S\n"
-								, code_debug_str(curr)
-							);
-
-							return false;
-						}
-
-						if ( str_are_equal(curr->Name, curr_other->Name) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-					}
-
-					curr       = curr->Next;
-					curr_other = curr_other->Next;
+					log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
+							"AST  : %S\n"
+							"Other: %S\n"
+							"For     ast member: %S\n"
+							"other's ast member: %S\n"
+						, code_debug_str(self)
+						, code_debug_str(other)
+						, code_debug_str(curr)
+						, code_debug_str(curr_other)
+					);
+					return false;
 				}
 
-				check_member_val( NumEntries );
+			#define check_param_ast( ast )                                                  \
+				if ( ( curr->ast == nullptr ) != ( curr_other->ast == nullptr )             \
+					|| ( curr->ast != nullptr && ! code_is_equal(curr->ast, curr_other->ast) ) ) \
+				{                                                                           \
+					log_fmt( "\nAST::is_equal: Failed for parameter " #ast " check\n"       \
+							"AST  : %S\n"                                                   \
+							"Other: %S\n"                                                   \
+							"For     ast member: %S\n"                                      \
+							"other's ast member: %S\n"                                      \
+						, code_debug_str(self)                                              \
+						, code_debug_str(other)                                             \
+						, code_debug_str(curr)                                              \
+						, code_debug_str(curr_other)                                        \
+					);                                                                      \
+					return false;                                                           \
+				}
 
-				return true;
-			}
+				check_param_ast( ValueType );
+				check_param_ast( Macro );
+				check_param_ast( Value );
+				check_param_ast( PostNameMacro );
+			#undef check_param_ast
 
-			check_member_str( Name );
-			check_member_ast( ValueType );
-			check_member_ast( Value );
-			check_member_ast( ArrExpr );
+				// Without more entries, Next is that of the list it is an entry of.
+				curr       = self ->NumEntries > 1 ? curr->Next       : NullCode;
+				curr_other = other->NumEntries > 1 ? curr_other->Next : NullCode;
+			}
 
 			return true;
 		}
-- 
2.43.0


From d63f5db9d611972872a72c753beb4dea1afb8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 058/158] fix: defines and their parameters can be compared and
 described

---
 base/components/ast.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 3e7fb68..cc0d23c 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -52,8 +52,13 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Preprocess_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Preprocess_Define");
+			if ( self->Prev )
+				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+			if ( self->Next )
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
+
+			strbuilder_append_fmt( result, "\n\tParams : %S", self->Params ? strbuilder_to_str( code_to_strbuilder(self->Params) ) : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tContent: %S", self->Body   ? self->Body->Content                                   : txt("Null") );
 		break;
 
 		case CT_Class:
@@ -264,8 +269,9 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Parameters_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Parameters_Define");
+			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Specifiers:
@@ -916,6 +922,7 @@ bool code_is_equal( Code self, Code other )
 		}
 
 		case CT_Parameters:
+		case CT_Parameters_Define:
 		{
 			check_member_val( NumEntries );
 
@@ -969,17 +976,11 @@ bool code_is_equal( Code self, Code other )
 			return true;
 		}
 
-		case CT_Parameters_Define:
-		{
-			// TODO(ED): Needs implementaton
-			log_failure("code_is_equal: NOT IMPLEMENTED for CT_Parameters_Define");
-			return false;
-		}
-
 		case CT_Preprocess_Define:
 		{
 			check_member_str( Name );
-			check_member_content( Body->Content );
+			check_member_ast( Params );
+			check_member_ast( Body );
 			return true;
 		}
 
-- 
2.43.0


From a4ab16c373ec5949ad3deb01373b3e94175f4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 059/158] fix: code_is_equal compares the entries of all bodies

---
 base/components/ast.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index cc0d23c..e5e08f1 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1088,30 +1088,19 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
 		case CT_Union_Body:
 		{
-			check_member_ast( Front );
-			check_member_ast( Back );
+			check_member_val( NumEntries );
 
 			Code curr       = self->Front;
 			Code curr_other = other->Front;
-			while ( curr != nullptr )
+			while ( curr != nullptr && curr_other != nullptr )
 			{
-				if ( curr_other == nullptr )
-				{
-					log_fmt("\nAST::is_equal: Failed for body, other equivalent param is null\n"
-							"AST  : %S\n"
-							"Other: %S\n"
-						, code_debug_str(curr)
-						, code_debug_str(other)
-					);
-
-					return false;
-				}
-
 				if ( ! code_is_equal( curr, curr_other ) )
 				{
 					log_fmt( "\nAST::is_equal: Failed for body\n"
@@ -1132,8 +1121,6 @@ bool code_is_equal( Code self, Code other )
 				curr_other = curr_other->Next;
 			}
 
-			check_member_val( NumEntries );
-
 			return true;
 		}
 
-- 
2.43.0


From 480d2a52f0ba2b85b5ad57794205300d717ab1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 060/158] fix: code_is_equal compares interfaces, operators,
 type tags and the other members it left out

---
 base/components/ast.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index e5e08f1..c1273c8 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -738,15 +738,6 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Class_Fwd:
 		case CT_Struct_Fwd:
-		{
-			check_member_str( Name );
-			check_member_ast( ParentType );
-			check_member_val( ParentAccess );
-			check_member_ast( Attributes );
-
-			return true;
-		}
-
 		case CT_Class:
 		case CT_Struct:
 		{
@@ -755,13 +746,29 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 			check_member_ast( Body );
 
+			// ParentType->Next has a possible list of interfaces.
+			Code curr       = self ->ParentType ? self ->ParentType->Next : NullCode;
+			Code curr_other = other->ParentType ? other->ParentType->Next : NullCode;
+			while ( curr != nullptr && curr_other != nullptr )
+			{
+				if ( ! code_is_equal( curr, curr_other ) )
+					return false;
+
+				curr       = curr->Next;
+				curr_other = curr_other->Next;
+			}
+			if ( curr != nullptr || curr_other != nullptr )
+				return false;
+
 			return true;
 		}
 
 		case CT_Constructor:
 		{
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
 			check_member_ast( Body );
@@ -771,6 +778,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor_Fwd:
 		{
+			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
 
@@ -878,6 +886,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator:
 		case CT_Operator_Member:
 		{
+			check_member_val( Op );
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
@@ -892,6 +901,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Fwd:
 		case CT_Operator_Member_Fwd:
 		{
+			check_member_val( Op );
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
@@ -1028,7 +1038,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( IsFunction );
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( Specs );
+			check_member_ast( Attributes );
 			check_member_ast( UnderlyingType );
 
 			return true;
@@ -1036,9 +1046,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Typename:
 		{
 			check_member_val( IsParamPack );
+			check_member_val( TypeTag );
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
+			check_member_ast( ReturnType );
+			check_member_ast( Params );
 			check_member_ast( ArrExpr );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -1058,6 +1073,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1081,6 +1098,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( NextVar );
+			check_member_val( VarParenthesizedInit );
 
 			return true;
 		}
-- 
2.43.0


From 3ae9735d890959c6b18ab48f31fad673014ccbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 061/158] fix: parameters of a define are refused as entries of
 a body

---
 base/components/ast_case_macros.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/ast_case_macros.cpp b/base/components/ast_case_macros.cpp
index f7f66c2..faaf4e1 100644
--- a/base/components/ast_case_macros.cpp
+++ b/base/components/ast_case_macros.cpp
@@ -13,6 +13,7 @@
 	case CT_Operator:                            \
 	case CT_Operator_Fwd:                        \
 	case CT_Parameters:                          \
+	case CT_Parameters_Define:                   \
 	case CT_Specifiers:                          \
 	case CT_Struct_Body:                         \
 	case CT_Typename
@@ -37,6 +38,7 @@
 	case CT_Operator_Member:                        \
 	case CT_Operator_Member_Fwd:                    \
 	case CT_Parameters:                             \
+	case CT_Parameters_Define:                      \
 	case CT_Specifiers:                             \
 	case CT_Struct_Body:                            \
 	case CT_Typename
@@ -55,6 +57,7 @@
 	case CT_Operator_Member:                       \
 	case CT_Operator_Member_Fwd:                   \
 	case CT_Parameters:                            \
+	case CT_Parameters_Define:                     \
 	case CT_Specifiers:                            \
 	case CT_Struct_Body:                           \
 	case CT_Typename
@@ -75,6 +78,7 @@
 	case CT_Operator_Member:                      \
 	case CT_Operator_Member_Fwd:                  \
 	case CT_Parameters:                           \
+	case CT_Parameters_Define:                    \
 	case CT_Specifiers:                           \
 	case CT_Struct_Body:                          \
 	case CT_Typename
-- 
2.43.0


From 4deb0af190c20152d754de23ef83a15c0c6fd33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 062/158] fix: code_is_equal sees what only the other node has

---
 base/components/ast.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index c1273c8..8dcf947 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -682,6 +682,17 @@ bool code_is_equal( Code self, Code other )
 	}
 
 	#define check_member_ast( ast )                                                                \
+	if ( self->ast == nullptr && other->ast != nullptr )                                           \
+	{                                                                                              \
+		log_fmt("\nAST::is_equal: Failed for member " #ast " only the other has it\n"              \
+				"AST  : %S\n"                                                                      \
+				"Other: %S\n"                                                                      \
+			, code_debug_str(self)                                                                 \
+			, code_debug_str(other)                                                                \
+		);                                                                                         \
+                                                                                                   \
+		return false;                                                                              \
+	}                                                                                              \
 	if ( self->ast )                                                                               \
 	{                                                                                              \
 		if ( other->ast == nullptr )                                                               \
-- 
2.43.0


From 1d72479eafe7fcb110a4663626bd13430c612a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 063/158] fix: classes and structs do not share their lists of
 interfaces

---
 base/components/inlines.hpp           | 10 ++++++++++
 base/components/interface.upfront.cpp | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index bab7148..d38dc21 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -476,6 +476,11 @@ void class_add_interface( CodeClass self, CodeTypename type )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
+	// The list goes through Next, what other list the type is in must not be a part of it (nor the other way around).
+	type       = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+	type->Prev = NullCode;
+	type->Next = NullCode;
+
 	CodeTypename possible_slot = self->ParentType;
 	if ( possible_slot != nullptr )
 	{
@@ -704,6 +709,11 @@ Specifier* next_CodeSpecifiers(CodeSpecifiers self, Specifier* spec_iter)
 inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
+	// The list goes through Next, what other list the type is in must not be a part of it (nor the other way around).
+	type       = cast(CodeTypename, code_duplicate( cast(Code, type) ));
+	type->Prev = NullCode;
+	type->Next = NullCode;
+
 	CodeTypename possible_slot = self->ParentType;
 	if ( possible_slot != nullptr )
 	{
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 867ab65..82fb9e8 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -531,7 +531,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 	result->Attributes   = p.attributes;
 	result->Specs        = p.specifiers;
 	result->ParentAccess = p.parent_access;
-	result->ParentType   = p.parent;
+	if ( p.parent ) {
+		// The interfaces are linked to it with Next, what other list the parent is in must not be a part of theirs.
+		result->ParentType       = cast(CodeTypename, code_duplicate( cast(Code, p.parent) ));
+		result->ParentType->Prev = NullCode;
+		result->ParentType->Next = NullCode;
+	}
 	if ( p.body )
 	{
 		switch ( p.body->Type )
@@ -1080,7 +1085,12 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 	result->Attributes   = p.attributes;
 	result->Specs        = p.specifiers;
 	result->ParentAccess = p.parent_access;
-	result->ParentType   = p.parent;
+	if ( p.parent ) {
+		// The interfaces are linked to it with Next, what other list the parent is in must not be a part of theirs.
+		result->ParentType       = cast(CodeTypename, code_duplicate( cast(Code, p.parent) ));
+		result->ParentType->Prev = NullCode;
+		result->ParentType->Next = NullCode;
+	}
 
 	for (s32 idx = 0; idx < p.num_interfaces; idx++ ) {
 		struct_add_interface(result, p.interfaces[idx] );
-- 
2.43.0


From f99d970ef98551196eed54fc2535c0b535124ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 064/158] fix: enum classes stay enum classes, with or without
 an underlying type

---
 base/components/code_serialization.cpp | 34 +++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 324c5ff..be8f7c6 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -391,28 +391,17 @@ void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType )
-	{
-		strbuilder_append_str( result, txt("enum class ") );
+	strbuilder_append_str( result, txt("enum class ") );
 
-		if ( self->Attributes )
-		{
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-		}
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-		if ( self->UnderlyingType )
-		{
-			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
-		}
-		else
-		{
-			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-		}
-	}
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro), body_to_strbuilder(self->Body) );
 	else
-	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-	}
+		strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 		strbuilder_append_str( result, txt(";\n"));
@@ -430,7 +419,12 @@ void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	if ( self->UnderlyingType )
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+	else
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
-- 
2.43.0


From 5c77b4a3772ba2fe8933f2e05f31799943e4e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 065/158] fix: the attributes of an enum that is only declared
 are after the keyword

---
 base/components/code_serialization.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index be8f7c6..3cde475 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -362,18 +362,20 @@ void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_str( result, txt("enum ") );
+
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
 	else if (self->UnderlyingTypeMacro)
 	{
 		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
+		strbuilder_append_fmt( result, "%S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
 	}
 	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_str( result, self->Name );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
-- 
2.43.0


From 91d930ec61aaa407181dadc5a396e435ae648ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 066/158] fix: a class with a parent names the access and the
 parent

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 3cde475..d567f0d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
-- 
2.43.0


From 07cfc0d436e7e4c8c5b53bd5c83c97b644ae3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:52 +0000
Subject: [PATCH 067/158] fix: code_is_equal tells constructors and destructors
 of different classes apart

---
 base/components/ast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 8dcf947..2a0870e 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -779,6 +779,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
@@ -789,6 +790,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor_Fwd:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( InitializerList );
 			check_member_ast( Params );
@@ -798,6 +800,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -806,6 +809,7 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor_Fwd:
 		{
+			check_member_str( Name );
 			check_member_ast( Specs );
 
 			return true;
-- 
2.43.0


From b38805022f8959ccf652cd300c5a3e8df9fe7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 068/158] fix: the interfaces of a class or struct must be type
 names

---
 base/components/interface.upfront.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 82fb9e8..8a822ab 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -523,6 +523,13 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	for (s32 idx = 0; idx < p.num_interfaces; idx++ ) {
+		if ( p.interfaces[idx] && p.interfaces[idx]->Type == CT_Typename )
+			continue;
+		log_failure( "gen::def_class: interface at index %d was not a `Typename` type", idx );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeClass
 	result               = (CodeClass) make_code();
@@ -1068,6 +1075,13 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	for (s32 idx = 0; idx < p.num_interfaces; idx++ ) {
+		if ( p.interfaces[idx] && p.interfaces[idx]->Type == CT_Typename )
+			continue;
+		log_failure( "gen::def_struct: interface at index %d was not a `Typename` type", idx );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeStruct
 	result              = (CodeStruct) make_code();
-- 
2.43.0


From a53869c6a049675028f92219f6610d9a3fbf6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 069/158] fix: the parent of a class given as a class, struct
 or untyped code is written with its name

---
 base/components/code_serialization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index d567f0d..ed8f330 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -158,7 +158,10 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
+		if ( self->ParentType->Type == CT_Typename )
+			strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
+		else // The parent may be given as the class or struct itself, or as untyped code.
+			strbuilder_append_fmt( result, " : %S %S", access_level, self->ParentType->Name );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
-- 
2.43.0


From c4cba44600a50fcc2f6c82e2d6a8321cb1edb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 070/158] fix: an export body is written with its entries

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index ed8f330..3095977 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,7 +38,7 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
-- 
2.43.0


From 9aaeed2ca076f64084d0693ba7c495a95156fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 071/158] fix: constructors are written with the name of the
 class or struct they are in, and without one with their own

---
 base/components/code_serialization.cpp | 8 ++++----
 base/components/interface.upfront.cpp  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 3095977..5049dbf 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,8 +70,8 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
 	else {
@@ -96,8 +96,8 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
 	}
 	else {
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 8a822ab..f154a2d 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1090,8 +1090,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		result->Name = cache_str( name );
 
 	if ( p.body ) {
-		result->Type = CT_Struct;
-		result->Body = p.body;
+		result->Type         = CT_Struct;
+		result->Body         = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
-- 
2.43.0


From 315a9fb9a3c703ce29ad194498c6d6f23aeccf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 072/158] fix: destructors are written with the name of the
 class or struct they are in, and their declaration ends

---
 base/components/code_serialization.cpp | 37 +++++++++++++-------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 5049dbf..0be1678 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -263,15 +263,15 @@ void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 	{
 		strbuilder_append_fmt( result, "%S()", self->Name );
 	}
-	else if ( self->Specs )
+	else
 	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+		if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+			strbuilder_append_str( result, txt("virtual ") );
+
+		// The parent is the body of the class or struct its in.
+		Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+		strbuilder_append_fmt( result, "~%S()", ClassStructParent ? ClassStructParent->Name : txt("") );
 	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -280,20 +280,19 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+		strbuilder_append_str( result, txt("virtual ") );
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
-	}
+	// The parent is the body of the class or struct its in.
+	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
+	strbuilder_append_fmt( result, "~%S()", ClassStructParent ? ClassStructParent->Name : txt("") );
+
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0;") );
+	else if (self->Body)
+		strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
 	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+		strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
-- 
2.43.0


From 00f5667236e0b1174610b7283baa2264cca356fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 073/158] fix: an exported function is written with a space
 after export

---
 base/components/code_serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 0be1678..c390a68 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -460,7 +460,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
-- 
2.43.0


From bfd30327f8485e66c24ab0e2190fd22d62ab2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 074/158] fix: a pure or deleted function is declared so once,
 at its end

---
 base/components/code_serialization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index c390a68..5e9ddb2 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -529,7 +529,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -560,7 +560,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( spec_is_trailing( * spec ) )
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure && * spec != Spec_Delete )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -578,7 +578,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->SuffixSpecs) );
 
 	if (self->Body)
-		strbuilder_append_fmt( result, " = %SB;", body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, " = %SB", body_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
-- 
2.43.0


From f8bb55030513b1137d4534b8f5f2a88c073a0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 075/158] fix: the attributes of an operator's definition are
 written once

---
 base/components/code_serialization.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 5e9ddb2..3035a26 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -627,9 +627,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
-- 
2.43.0


From 398263ebe49b0270a878747fc7ffde0fa6890d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 076/158] fix: the specifiers and the inline comment of an
 operator cast are written

---
 base/components/code_serialization.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 3035a26..e0195dc 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -750,7 +750,7 @@ void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -789,7 +789,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, "%.*s ", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -800,7 +800,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 			if ( spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
+				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
 
@@ -812,7 +812,7 @@ void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 	}
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, "operator %SB();  %S", typename_to_strbuilder(self->ValueType), self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
 }
-- 
2.43.0


From 286f143862ce8363c5c97af2384b0e3d06efea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 077/158] fix: a module that is not imported is declared with
 the keyword module

---
 base/components/code_serialization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index e0195dc..95da748 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -595,6 +595,8 @@ void module_to_strbuilder_ref(CodeModule self, StrBuilder* result )
 
 	if (((scast(u32, ModuleFlag_Import) & scast(u32, self->ModuleFlags)) == scast(u32, ModuleFlag_Import)))
 		strbuilder_append_str( result, txt("import "));
+	else
+		strbuilder_append_str( result, txt("module "));
 
 	strbuilder_append_fmt( result, "%S;\n", self->Name );
 }
-- 
2.43.0


From 431e050be8fcac763cea4c74bdddbb956a6a6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 078/158] fix: the array expressions of a parameter's type are
 written

---
 base/components/code_serialization.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 95da748..6f03124 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -841,6 +841,12 @@ void params_to_strbuilder_ref( CodeParams self, StrBuilder* result )
 	else if ( self->ValueType )
 		strbuilder_append_fmt( result, " %SB", typename_to_strbuilder(self->ValueType) );
 
+	if ( self->ValueType && self->ValueType->ArrExpr )
+	{
+		for ( Code arr_expr = self->ValueType->ArrExpr; arr_expr; arr_expr = arr_expr->Next )
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(arr_expr) );
+	}
+
 	if ( self->PostNameMacro )
 	{
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->PostNameMacro) );
-- 
2.43.0


From 7420370af60ab3ead8eb77fb8ff58bba414cdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 079/158] fix: a using namespace with an inline comment is
 written with its name

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index d38dc21..cde5b9b 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -298,7 +298,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
-- 
2.43.0


From 240254eeeed47290088394dbb725566367372d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 080/158] fix: a parenthesised initialiser ends before the next
 variable

---
 base/components/code_serialization.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 6f03124..9437486 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1249,7 +1249,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1258,9 +1258,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		return;
 	}
 
@@ -1295,7 +1292,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Value )
 		{
 			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+				strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 			else
 				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 		}
@@ -1303,9 +1300,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->NextVar )
 			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
 
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 		else
@@ -1335,7 +1329,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
@@ -1343,9 +1337,6 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->NextVar )
 		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
-
 	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
-- 
2.43.0


From a9f1db805d265a59d8e56bc506de315efa6c643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 081/158] fix: the attributes of an alias are written after its
 name

---
 base/components/code_serialization.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9437486..ed5bc64 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1190,12 +1190,14 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
+	strbuilder_append_fmt( result, "using %S", self->Name );
+
 	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+		strbuilder_append_fmt( result, " %SB", attributes_to_strbuilder(self->Attributes) );
 
 	if ( self->UnderlyingType )
 	{
-		strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, " = %SB", typename_to_strbuilder(self->UnderlyingType) );
 
 		if ( self->UnderlyingType->ArrExpr )
 		{
@@ -1212,7 +1214,7 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 		strbuilder_append_str( result, txt(";") );
 	}
 	else
-		strbuilder_append_fmt( result, "using %S;", self->Name );
+		strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S\n", self->InlineCmt->Content );
-- 
2.43.0


From 1ce1ece3a7c092b820e25dfa3f81dac621f0b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 082/158] fix: a typedef of an enum or class with a base has
 its name, and one of an array one semicolon

---
 base/components/code_serialization.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index ed5bc64..736b96a 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1030,26 +1030,23 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
 	// Determines if the typedef is a function typename
-	if ( self->UnderlyingType->ReturnType )
+	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
-- 
2.43.0


From c628761af70ebf4931265c5ce98fea98dd572d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 083/158] fix: a typedef of a definition is a single
 declaration

---
 base/components/interface.upfront.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index f154a2d..71c005d 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1226,6 +1226,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	result->ModuleFlags    = p.mflags;
 	result->UnderlyingType = type;
 	result->Attributes     = p.attributes;
+	if ( type->Type != CT_Typename )
+	{
+		// Whats defined in place is not a declaration of its own anymore, the one given still is.
+		result->UnderlyingType         = code_duplicate( type );
+		result->UnderlyingType->Parent = cast(Code, result);
+	}
 
 	if ( name.Len <= 0  )
 	{
-- 
2.43.0


From f91c2cc028ae3a609d481d0c22c2a12deddfd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 084/158] fix: #if and #ifndef are written on lines of their
 own

---
 base/components/inlines.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index cde5b9b..5575d10 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -196,7 +196,7 @@ void preprocess_to_strbuilder_if(CodePreprocessCond cond, StrBuilder* result )
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#if %S", cond->Content );
+	strbuilder_append_fmt( result, "#if %S\n", cond->Content );
 }
 
 inline
@@ -212,7 +212,7 @@ void preprocess_to_strbuilder_ifndef(CodePreprocessCond cond, StrBuilder* result
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#ifndef %S", cond->Content );
+	strbuilder_append_fmt( result, "#ifndef %S\n", cond->Content );
 }
 
 inline
-- 
2.43.0


From 8bd59bb101e9c869e68311a268f7badb6da2231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 085/158] fix: a function type with attributes or without
 parameters is written

---
 base/components/code_serialization.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 736b96a..edcb95c 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1074,17 +1074,20 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 			break;
 		}
 	#else
-		if ( self->ReturnType && self->Params )
+		if ( self->ReturnType )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+
+			strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+
+			if ( self->Params )
+				strbuilder_append_fmt( result, " %SB ", params_to_strbuilder(self->Params) );
+
+			strbuilder_append_str( result, txt(")") );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, " %SB", specifiers_to_strbuilder(self->Specs) );
 
 			return;
 		}
-- 
2.43.0


From e76c14c3cc9f2a3799585a668a18c9f5ffa82e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 086/158] fix: the specifiers of a constructor are written

---
 base/components/code_serialization.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index edcb95c..ca1f4c7 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -70,6 +70,15 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
 	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
@@ -96,6 +105,15 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
+
 	Code ClassStructParent = self->Parent ? self->Parent->Parent : NullCode;
 	if (ClassStructParent && (ClassStructParent->Type == CT_Class || ClassStructParent->Type == CT_Struct)) {
 		strbuilder_append_str( result, ClassStructParent->Name );
-- 
2.43.0


From 4911fd0be720cee6227662ff12e1bc736221fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 087/158] fix: what follows an array expression in a body is
 not a dimension of the type it is given to

---
 base/components/interface.upfront.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 71c005d..5613e34 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1170,14 +1170,24 @@ CodeTypename def_type( Str name, Opts_def_type p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( array_expr && array_expr->Parent )
+	{
+		// What follows it in a body is not another dimension of this type.
+		b32 is_dimension = array_expr->Parent->Type == CT_Typename;
+		array_expr       = code_duplicate(array_expr);
+		if ( ! is_dimension )
+			array_expr->Next = NullCode;
+	}
 	CodeTypename
 	result             = (CodeTypename) make_code();
 	result->Name       = cache_str( name );
 	result->Type       = CT_Typename;
 	result->Attributes = p.attributes;
 	result->Specs      = p.specifiers;
-	result->ArrExpr    = p.array_expr;
+	result->ArrExpr    = array_expr;
 	result->TypeTag    = p.type_tag;
+	if ( array_expr )
+		array_expr->Parent = cast(Code, result);
 	return result;
 }
 
-- 
2.43.0


From f3c074f6b78590e04e75ac62de468bfd01128ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 088/158] fix: __attribute__ and __declspec are attributes

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..69e1341 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -495,7 +495,7 @@ void lex_found_token( LexContext* ctx )
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
 		ctx->token.Flags |= TF_AccessSpecifier;
 	}
-	if ( type > Tok___Attributes_Start ) {
+	if ( type > Tok___Attributes_Start || type == Tok_Decl_GNU_Attribute || type == Tok_Decl_MSVC_Attribute ) {
 		ctx->token.Flags |= TF_Attribute;
 	}
 	if ( type == Tok_Decl_Extern_Linkage )
-- 
2.43.0


From 8797c6a12ffb297e98ee81e79d7e00c963fdae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 089/158] fix: [[ and ]] open and close an attribute

---
 base/components/lexer.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 69e1341..f3b9661 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -590,7 +590,8 @@ TokArray lex( Str content )
 
 	array_clear(_ctx->Lexer_Tokens);
 
-	b32 preprocess_args = true;
+	b32 preprocess_args  = true;
+	b32 within_attribute = false;
 
 	while (c.left )
 	{
@@ -779,7 +780,15 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == ']' )
+					if ( c.left && (* ctx->scanner) == '[' )
+					{
+						c.token.Text.Len = 2;
+						c.token.Type     = Tok_Attribute_Open;
+						c.token.Flags   |= TF_Attribute;
+						within_attribute = true;
+						move_forward();
+					}
+					else if ( (* ctx->scanner) == ']' )
 					{
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Operator;
@@ -796,6 +805,14 @@ TokArray lex( Str content )
 
 				if (c.left)
 					move_forward();
+
+				if ( within_attribute && c.left && (* ctx->scanner) == ']' )
+				{
+					c.token.Text.Len = 2;
+					c.token.Type     = Tok_Attribute_Close;
+					within_attribute = false;
+					move_forward();
+				}
 				goto FoundToken;
 			}
 			case '(':
-- 
2.43.0


From 688e540833d9973ab97c14012c5b819aaef5c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 090/158] fix: <<=, >>=, &= and /= are single operators

---
 base/components/lexer.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f3b9661..062c5aa 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -726,6 +726,12 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
+				else if ( c.left && (* ctx->scanner) == '=' )	// &=
+				{
+					c.token.Text.Len = 2;
+					c.token.Flags   |= TF_Assign;
+					move_forward();
+				}
 
 				goto FoundToken;
 			}
@@ -1040,12 +1046,23 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else
 				{
-					c.token.Text.Len++;
+					while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					{
+						c.token.Text.Len++;
 
-					if (c.left)
+						if (c.left)
+							move_forward();
+					}
+
+					// <<= and >>=
+					if ( c.left && (* ctx->scanner) == '=' && c.token.Text.Len == 2 && ( c.token.Text.Ptr[0] == '<' || c.token.Text.Ptr[0] == '>' ) )
+					{
+						c.token.Text.Len++;
+						c.token.Flags |= TF_Assign;
 						move_forward();
+					}
 				}
 				goto FoundToken;
 			}
@@ -1111,7 +1128,7 @@ TokArray lex( Str content )
 						// token.Type = TokeType::Assign_Divide;
 						move_forward();
 						c.token.Text.Len++;
-						c.token.Flags = TF_Assign;
+						c.token.Flags |= TF_Assign;
 					}
 					else if ( (* ctx->scanner) == '/' )
 					{
-- 
2.43.0


From 91e8b5a875fd875fa4f70615382d2c51c59dc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 091/158] fix: operator -- is parsed as the decrement operator

---
 base/components/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c308111..252c2b2 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2219,6 +2219,9 @@ CodeOperator parse_operator_after_ret_type(
 			else if ( currtok.Text.Ptr[1] == '=' )
 				op = Op_Assign_Subtract;
 
+			else if ( currtok.Text.Ptr[1] == '-' )
+				op = Op_Decrement;
+
 			else
 				op = Op_Subtract;
 		}
-- 
2.43.0


From 375ec85a547b17dd09b711be00f2cdf98abb78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 092/158] fix: operator () and operator , are parsed

---
 base/components/parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 252c2b2..96c7e9c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2363,13 +2363,20 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '(':
 		{
-			if ( currtok.Text.Ptr[1] == ')' )
+			if ( nexttok.Type == Tok_Paren_Close )
+			{
 				op = Op_FunctionCall;
-
+				eat( Tok_Paren_Open );
+			}
 			else
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		case '[':
 		{
 			if ( currtok.Text.Ptr[1] == ']' )
-- 
2.43.0


From f98a2238f90810ad60a807b9de512a45c678da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 093/158] fix: a deleted function is parsed as deleted

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 96c7e9c..12af65a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1461,7 +1461,7 @@ CodeFn parse_function_after_name(
 			specifiers       = (CodeSpecifiers) make_code();
 			specifiers->Type = CT_Specifiers;
 		}
-		if ( str_are_equal(nexttok.Text, txt("delete")))
+		if ( str_are_equal(currtok.Text, txt("delete")))
 		{
 			specifiers_append(specifiers, Spec_Delete);
 			eat(currtok.Type);	
-- 
2.43.0


From dc32ba009ad28578a78afc77b6c5ecba75324d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 094/158] fix: a comma within parentheses is part of the value
 of an enumerator

---
 base/components/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 12af65a..d134b34 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3951,7 +3951,12 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						s32 level = 0;
+						while ( left && ( level > 0 || currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) ) {
+							if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+								level++;
+							else if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+								level--;
 							eat( currtok.Type );
 						}
 					}
-- 
2.43.0


From b9591ce23f91c03c2b3b38ed90b58249bd03fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 095/158] fix: the macros of a parameter are those written with
 it

---
 base/components/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d134b34..df45ea4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2874,7 +2874,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( name.Text.Len > 0 )
 		result->Name = cache_str( name.Text );
 
-	result->ValueType = type;
+	result->PostNameMacro = post_name_macro;
+	result->ValueType     = type;
 
 	if ( value )
 		result->Value = value;
@@ -2889,6 +2890,9 @@ CodeParams parse_params( bool use_template_capture )
 		Code type  = { nullptr };
 		Code value = { nullptr };
 
+		macro           = NullCode;
+		post_name_macro = NullCode;
+
 		if ( check( Tok_Varadic_Argument ) )
 		{
 			eat( Tok_Varadic_Argument );
-- 
2.43.0


From 46988658017b92ffa024c223aa395c726c77f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:36 +0000
Subject: [PATCH 096/158] fix: the parent of each variable of a declaration is
 the one before it

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index df45ea4..330e4ea 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3497,7 +3497,7 @@ CodeVar parse_variable_declaration_list()
 		else
 		{
 			last_var->NextVar         = var;
-			last_var->NextVar->Parent = cast(Code, var);
+			last_var->NextVar->Parent = cast(Code, last_var);
 			last_var                  = var;
 		}
 	}
-- 
2.43.0


From 3a7e8d194083b0f3d4f78d482be0ac119cbeb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 097/158] fix: a macro registered as an attribute may precede a
 declaration at file and namespace scope

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 330e4ea..07fc1e1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1764,7 +1764,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Preprocess_Macro_Expr: 
 			{
-				if (tok_is_attribute(currtok))
+				if ( ! tok_is_attribute(currtok))
 				{
 					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
-- 
2.43.0


From 10ca484188be820bfbcb198a24d30ca4746fdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 098/158] fix: protected access is written as protected

---
 base/components/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..f82bc09 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -50,7 +50,7 @@ Str access_spec_to_str( AccessSpec type )
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
 		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
+		{ "protected", sizeof("protected") - 1 },
 		{ "public",  sizeof("public")    - 1 },
 	};
 
-- 
2.43.0


From 81245c16033fa59fa80f54bb830f3edb175b3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 099/158] fix: the attributes of an alias are kept

---
 base/components/parser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 07fc1e1..5c43012 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5561,9 +5561,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
-- 
2.43.0


From 8f9f8b8246b6e23b9e92bc6782a3df0f7f116c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 100/158] fix: attributes before and after the specifiers of a
 member are both kept

---
 base/components/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5c43012..7fc0e58 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1050,15 +1050,15 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0


From 35a4f1b673ac8622f9eb3e269651cd0e6ef95c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 101/158] fix: a function or operator whose return type starts
 with const is parsed

---
 base/components/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 7fc0e58..2d7b414 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4257,8 +4257,9 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
@@ -4358,8 +4359,9 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
+		// Ignore const specifiers, they're handled by the type
 		if ( spec == Spec_Const )
-			continue;
+			break;
 
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
-- 
2.43.0


From 30f14f19365f28dab9b3e435d614baa3eed9680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 102/158] fix: the comment after a using namespace is kept

---
 base/components/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2d7b414..90c68a5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5605,11 +5605,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 4bb9bed0968e915afb362e84242b4f79ec633e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 103/158] fix: an operator cast with an empty body is parsed

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 90c68a5..bc9e6f4 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4456,7 +4456,7 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 			eat( currtok.Type );
 		}
-		body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
+		body_str.Text.Len = max( 0, ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr );
 
 		eat( Tok_BraceCurly_Close );
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-- 
2.43.0


From fa2856e9e6b5ac80730fba994ef85c4d72546337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 104/158] fix: the comment after an operator cast is kept

---
 base/components/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index bc9e6f4..b0302a6 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4492,6 +4492,9 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	result->ValueType = cast(CodeTypename, type);
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 05997c10de7fe1317904e200ca21a1ae1b3002f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 105/158] fix: a defaulted or deleted constructor or destructor
 is parsed as one

---
 base/components/parser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b0302a6..a31c60d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3567,8 +3567,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
+		// <Name> ( <Parameters> ) = <default, delete>
 	}
-	else
+
+	if ( ! body || body->Type != CT_Function_Body )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
@@ -3591,11 +3593,11 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	if ( initializer_list )
 		result->InitializerList = initializer_list;
 
-	if ( body && body->Type == CT_Function_Body )
-	{
+	if ( body )
 		result->Body = cast(Code, body);
+
+	if ( body && body->Type == CT_Function_Body )
 		result->Type = CT_Constructor;
-	}
 	else
 		result->Type = CT_Constructor_Fwd;
 
@@ -3791,10 +3793,11 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	if ( specifiers )
 		result->Specs = specifiers;
 
-	if ( body && body->Type == CT_Function_Body ) {
+	if ( body )
 		result->Body = cast(Code, body);
+
+	if ( body && body->Type == CT_Function_Body )
 		result->Type = CT_Destructor;
-	}
 	else
 		result->Type = CT_Destructor_Fwd;
 
-- 
2.43.0


From 248aafe512ac6fd84fe32b6a6927ef92b2cd86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 106/158] fix: a class keeps its interfaces when its body has a
 class of its own

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a31c60d..645db95 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -722,7 +722,7 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	local_persist
+	// Not shared with the classes and structs defined within this one's body.
 	char interface_arr_mem[ kilobytes(4) ] = {0};
 	Array(CodeTypename) interfaces; {
 		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-- 
2.43.0


From 17f95822e06c7322192b4c90568babca2703408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 107/158] fix: the token of a string literal has its closing
 quote

---
 base/components/lexer.cpp  | 1 +
 base/components/parser.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 062c5aa..249847d 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -935,6 +935,7 @@ TokArray lex( Str content )
 					if ( (* ctx->scanner) == '"' )
 					{
 						move_forward();
+						c.token.Text.Len++;
 						break;
 					}
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 645db95..dd83003 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4087,8 +4087,9 @@ CodeExtern parser_parse_extern_link()
 	eat( Tok_String );
 	// extern "<Name>"
 
+	// Without the quotes
 	name.Text.Ptr += 1;
-	name.Text.Len -= 1;
+	name.Text.Len -= 2;
 
 	CodeExtern
 	result       = (CodeExtern) make_code();
-- 
2.43.0


From 77e031fce501ab2c91214cdc6452e3653f6cb434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 108/158] fix: the statement end of a friend is consumed once

---
 base/components/parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index dd83003..6e41904 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4195,17 +4195,16 @@ CodeFriend parser_parse_friend()
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	if ( ! function && ! op )
 	{
+		// Functions and operators had theirs consumed with them.
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
 		// friend <Type>;
-		// friend <ReturnType> <Name> ( <Parameters> );
 
 		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
 			inline_cmt = parse_comment();
 		// friend <Type>; <InlineCmt>
-		// friend <ReturnType> <Name> ( <Parameters> ); <InlineCmt>
 	}
 
 	CodeFriend result = ( CodeFriend )make_code();
-- 
2.43.0


From bc7a2602561d5079a82c624e560ef77875adf03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 109/158] fix: the declaration of a friend has one statement
 end

---
 base/components/inlines.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5575d10..0924200 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -110,8 +110,9 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	GEN_ASSERT(result);
 	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
+	if ( self->Declaration->Type == CT_Typename )
 	{
+		// Every other declaration is written with its own.
 		strbuilder_append_str( result, txt(";") );
 	}
 
-- 
2.43.0


From 1ad79fbd8e601959d003eb8b9533357c571634cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 110/158] fix: an array declared after the first variable of a
 declaration has its size

---
 base/components/parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6e41904..93c9eb7 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3403,6 +3403,13 @@ CodeVar parse_variable_after_name(
 	result->Type        = CT_Variable;
 	result->Name        = cache_str( name );
 	result->ModuleFlags = mflags;
+	if ( array_expr && ! type )
+	{
+		// Declared after a comma, the type itself is held by the first variable
+		type       = (CodeTypename) make_code();
+		type->Type = CT_Typename;
+	}
+
 	result->ValueType    = type;
 	result->BitfieldSize = bitfield_expr;
 	result->Attributes   = attributes;
-- 
2.43.0


From 506244bbb2cb7da871106dbd28175fe9f2050a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 111/158] fix: noexcept is lexed as a specifier

---
 base/components/gen/etoktype.hpp     | 2 ++
 base/enums/ETokType.csv              | 1 +
 gen_unreal_engine/enums/ETokType.csv | 1 +
 3 files changed, 4 insertions(+)

diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..5aa3136 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -82,6 +82,7 @@ enum TokType : u32
 	Tok_Spec_LocalPersist,
 	Tok_Spec_Mutable,
 	Tok_Spec_NeverInline,
+	Tok_Spec_NoExceptions,
 	Tok_Spec_Override,
 	Tok_Spec_Restrict,
 	Tok_Spec_Static,
@@ -188,6 +189,7 @@ inline Str toktype_to_str(TokType type)
 		{ "local_persist",        sizeof("local_persist") - 1        },
 		{ "mutable",              sizeof("mutable") - 1              },
 		{ "neverinline",          sizeof("neverinline") - 1          },
+		{ "noexcept",             sizeof("noexcept") - 1             },
 		{ "override",             sizeof("override") - 1             },
 		{ "restrict",             sizeof("restrict") - 1             },
 		{ "static",               sizeof("static") - 1               },
diff --git a/base/enums/ETokType.csv b/base/enums/ETokType.csv
index 80dd875..108aba0 100644
--- a/base/enums/ETokType.csv
+++ b/base/enums/ETokType.csv
@@ -71,6 +71,7 @@ Spec_Internal_Linkage,      "internal"
 Spec_LocalPersist,          "local_persist"
 Spec_Mutable,               "mutable"
 Spec_NeverInline,           "neverinline"
+Spec_NoExceptions,          "noexcept"
 Spec_Override,              "override"
 Spec_Restrict,              "restrict"
 Spec_Static,                "static"
diff --git a/gen_unreal_engine/enums/ETokType.csv b/gen_unreal_engine/enums/ETokType.csv
index 6feec9d..79d1255 100644
--- a/gen_unreal_engine/enums/ETokType.csv
+++ b/gen_unreal_engine/enums/ETokType.csv
@@ -72,6 +72,7 @@ Spec_Internal_Linkage,       "internal"
 Spec_LocalPersist,           "local_persist"
 Spec_Mutable,                "mutable"
 Spec_NeverInline,            "neverinline"
+Spec_NoExceptions,           "noexcept"
 Spec_Override,               "override"
 Spec_Static,                 "static"
 Spec_ThreadLocal,            "thread_local"
-- 
2.43.0


From f42b22fe901dc66b5c391edde658f6cefbc75b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 112/158] fix: a pure virtual operator is parsed

---
 base/components/parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 93c9eb7..5eba13f 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2496,16 +2496,17 @@ CodeOperator parse_operator_after_ret_type(
 	if (check(Tok_Operator) && currtok.Text.Ptr[0] == '=')
 	{
 		eat(currtok.Type);
-		if ( ! str_are_equal(currtok.Text, txt("delete")))
+		Specifier spec = str_are_equal(currtok.Text, txt("delete")) ? Spec_Delete : str_are_equal(currtok.Text, txt("0")) ? Spec_Pure : Spec_Invalid;
+		if ( spec == Spec_Invalid )
 		{
-			log_failure("Expected delete after = in operator forward instead found \"%S\"\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser));
+			log_failure("Expected delete or 0 after = in operator forward instead found \"%S\"\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser));
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 		if (specifiers == nullptr)
-			specifiers = def_specifier( Spec_Delete );
+			specifiers = def_specifier( spec );
 		else 
-			specifiers_append(specifiers, Spec_Delete);
+			specifiers_append(specifiers, spec);
 		eat(currtok.Type);
 		// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> ) <Specifiers> = delete
 	}
-- 
2.43.0


From dc1fbf2df66ed4ee41855a7dc8a640e9f13bcb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 113/158] fix: the inline comment of a class, struct or
 constructor is written once, after the declaration it follows

---
 base/components/code_serialization.cpp | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index ca1f4c7..0f3720a 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -96,7 +96,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -131,7 +131,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
 		strbuilder_append_str( result, txt(";\n") );
 }
@@ -192,15 +192,15 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n") );
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
@@ -220,7 +220,7 @@ void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
 			strbuilder_append_str( result, txt(";\n") );
 	}
@@ -990,15 +990,15 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n"));
+	}
 }
 
 void struct_to_strbuilder_fwd( CodeStruct self, StrBuilder* result )
-- 
2.43.0


From 1a820819721d67f8097900dd407b90e65a9ef1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 114/158] fix: operator [ ] with white space between the
 brackets is parsed

---
 base/components/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5eba13f..d129468 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2382,6 +2382,11 @@ CodeOperator parse_operator_after_ret_type(
 			if ( currtok.Text.Ptr[1] == ']' )
 				op = Op_Subscript;
 
+			else if ( nexttok.Type == Tok_BraceSquare_Close )
+			{
+				op = Op_Subscript;
+				eat( Tok_BraceSquare_Open );
+			}
 			else
 				op = Op_Invalid;
 		}
-- 
2.43.0


From 9d707daabdaee7b26816a923c321b1e04e4c86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 115/158] fix: the body of an operator cast is parsed as the
 body of a function

---
 base/components/parser.cpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d129468..48547f9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4456,28 +4456,8 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	if ( check( Tok_BraceCurly_Open) )
 	{
-		eat( Tok_BraceCurly_Open );
-		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> {
-
-		Token body_str = currtok;
-
-		s32 level = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
-		{
-			if ( currtok.Type == Tok_BraceCurly_Open )
-				level++;
-
-			else if ( currtok.Type == Tok_BraceCurly_Close )
-				level--;
-
-			eat( currtok.Type );
-		}
-		body_str.Text.Len = max( 0, ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr );
-
-		eat( Tok_BraceCurly_Close );
+		body = parse_function_body();
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-
-		body = untyped_str( body_str.Text );
 	}
 	else
 	{
-- 
2.43.0


From d742359901c42a4743356985707788a1895c506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 116/158] fix: an operator cast after a friend function is not
 part of the friend

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 48547f9..347b0ce 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4203,7 +4203,7 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
-- 
2.43.0


From d31ad2ecf7ace94df084b35464ec7e45d076f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 117/158] fix: the export keyword of an export body is parsed

---
 base/components/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 347b0ce..229c085 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4074,6 +4074,9 @@ internal inline
 CodeBody parser_parse_export_body()
 {
 	push_scope();
+	eat( Tok_Module_Export );
+	// export
+
 	CodeBody result = parse_global_nspace( CT_Export_Body );
 	parser_pop(& _ctx->parser);
 	return result;
-- 
2.43.0


From bbebc97e2b96bf70ef37a759ec148d27b18e2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 118/158] fix: what follows the last token is not left from a
 text lexed before

---
 base/components/lexer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 249847d..12d4f02 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1329,6 +1329,13 @@ TokArray lex( Str content )
 		return tok_array;
 	}
 
+	// The parser looks past the last token, what is there must not be from a text lexed before.
+	Token past_end = { txt(""), Tok_Invalid, c.line, c.column, TF_Null };
+	array_append( _ctx->Lexer_Tokens, past_end );
+	array_append( _ctx->Lexer_Tokens, past_end );
+	array_pop( _ctx->Lexer_Tokens );
+	array_pop( _ctx->Lexer_Tokens );
+
 	TokArray result = { _ctx->Lexer_Tokens, 0 };
 	return result;
 }
-- 
2.43.0


From 16765089a103141495dbca77ed32ac88e6c6eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 119/158] fix: refusing an empty text does not pop a scope that
 was not pushed

---
 base/components/parser.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 229c085..c1a9f18 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -142,13 +142,11 @@ bool _check_parse_args( Str def, char const* func_name )
 	if ( def.Len <= 0 )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: length must greater than 0", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	if ( def.Ptr == nullptr )
 	{
 		log_failure( c_str_fmt_buf("gen::%s: def was null", func_name) );
-		parser_pop(& _ctx->parser);
 		return false;
 	}
 	return true;
-- 
2.43.0


From e3820cd46a13e67ea12fa3604b2b65dc7e93f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 120/158] fix: specifiers_remove removes one specifier, also
 one given several times or from a full list

---
 base/components/inlines.hpp | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 0924200..02199fe 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -654,36 +654,15 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
 		return -1;
 	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
-		return -1;
-	}
-
-	s32 result = -1;
 
-	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
-	{
-		Specifier spec = self->ArrSpecs[next];
-		if (spec == to_remove)
-		{
-			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
-
-			spec = self->ArrSpecs[next];
-		}
+	s32 result = specifiers_index_of(self, to_remove);
+	if ( result == -1 )
+		return -1;
 
-		self->ArrSpecs[ curr ] = spec;
-	}
+	for ( s32 next = result + 1; next < self->NumEntries; ++ next )
+		self->ArrSpecs[ next - 1 ] = self->ArrSpecs[ next ];
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries --;
 	return result;
 }
 forceinline
-- 
2.43.0


From ea4643de077e9d8e6081ef9634d75c81c122ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 121/158] fix: a duplicate of a list has entries of its own

---
 base/components/ast.cpp | 44 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 2a0870e..7d9a604 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -379,6 +379,50 @@ Code code_duplicate(Code self)
 	mem_copy( mem_result, mem_self, sizeof( AST ) );
 
 	result->Parent = NullCode;
+
+	// The entries of a list are linked through themselves: those of the duplicate have to be its own.
+	if ( code_is_body(self) )
+	{
+		result->Front      = NullCode;
+		result->Back       = NullCode;
+		result->NumEntries = 0;
+
+		Code entry = self->Front;
+		for ( s32 left = self->NumEntries; left > 0; -- left, entry = entry->Next )
+			code_append( result, code_duplicate(entry) );
+
+		return result;
+	}
+	switch ( self->Type )
+	{
+		case CT_Parameters:
+		case CT_Parameters_Define:
+		{
+			result->Last = NullCode;
+			result->Next = NullCode;
+			if ( self->NumEntries <= 1 )
+				break;
+
+			result->NumEntries = 1;
+			for ( Code entry = self->Next; entry != nullptr; entry = entry->Next )
+				params_append( cast(CodeParams, result), cast(CodeParams, code_duplicate(entry)) );
+		}
+		break;
+
+		case CT_Class:
+		case CT_Class_Fwd:
+		case CT_Struct:
+		case CT_Struct_Fwd:
+		{
+			Code* type = & result->ParentType;
+			for ( ; * type != nullptr; type = & (* type)->Next )
+				* type = code_duplicate(* type);
+		}
+		break;
+
+		default:
+		break;
+	}
 	return result;
 }
 
-- 
2.43.0


From b855cfaab931955eb20a92a11c17437ba4a5d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 122/158] fix: a token's line and column are those of its first
 character, not of the white space before it

---
 base/components/lexer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 12d4f02..9bb5a98 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -273,6 +273,8 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	move_forward();
 	skip_whitespace();
 
+	ctx->token.Line     = ctx->line;
+	ctx->token.Column   = ctx->column;
 	ctx->token.Text.Ptr = ctx->scanner;
 	while (ctx->left && ! char_is_space((* ctx->scanner)) )
 	{
@@ -344,6 +346,8 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 		ctx->token.Text.Len = ctx->token.Text.Len + ctx->token.Text.Ptr - hash;
 		ctx->token.Text.Ptr = hash;
+		ctx->token.Line     = hash_tok.Line;
+		ctx->token.Column   = hash_tok.Column;
 		array_append( _ctx->Lexer_Tokens, ctx->token );
 		return Lex_Continue; // Skip found token, its all handled here.
 	}
@@ -635,6 +639,9 @@ TokArray lex( Str content )
 		if ( c.left <= 0 )
 			break;
 
+		c.token.Line   = c.line;
+		c.token.Column = c.column;
+
 		switch ( (* ctx->scanner) )
 		{
 			case '#':
-- 
2.43.0


From 23a55c3d952e463d919c9a35788b88d2ffb1daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 123/158] fix: the hash of a directive the library does not
 know is not a token of its own as well

---
 base/components/lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 9bb5a98..5172169 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -348,6 +348,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		ctx->token.Text.Ptr = hash;
 		ctx->token.Line     = hash_tok.Line;
 		ctx->token.Column   = hash_tok.Column;
+		array_pop( _ctx->Lexer_Tokens ); // The hash is part of the token.
 		array_append( _ctx->Lexer_Tokens, ctx->token );
 		return Lex_Continue; // Skip found token, its all handled here.
 	}
-- 
2.43.0


From 06f88ebbff76f50d9c7cd23006302d62ffb1b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 124/158] fix: the name of a directive ends where the
 identifier does

---
 base/components/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 5172169..e140db9 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -276,7 +276,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	ctx->token.Line     = ctx->line;
 	ctx->token.Column   = ctx->column;
 	ctx->token.Text.Ptr = ctx->scanner;
-	while (ctx->left && ! char_is_space((* ctx->scanner)) )
+	while (ctx->left && ( char_is_alphanumeric((* ctx->scanner)) || (* ctx->scanner) == '_' ) )
 	{
 		move_forward();
 		ctx->token.Text.Len++;
-- 
2.43.0


From be20302d791719b67379b5ecd4482db7c615e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 125/158] fix: an escaped quote does not end a literal in a
 directive, and a line continues also within one

---
 base/components/lexer.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index e140db9..207fc5b 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -300,7 +300,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			if ( * ctx->scanner == '\'' && ! within_string )
 				within_char ^= true;
 
-			if ( * ctx->scanner == '\\' && ! within_string && ! within_char )
+			if ( * ctx->scanner == '\\' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
@@ -317,6 +317,15 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 					ctx->token.Text.Len++;
 					continue;
 				}
+				else if ( within_string || within_char )
+				{
+					if ( ctx->left )
+					{
+						move_forward();
+						ctx->token.Text.Len++;
+					}
+					continue;
+				}
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
@@ -432,7 +441,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		if ( (* ctx->scanner) == '\'' && ! within_string )
 			within_char ^= true;
 
-		if ( (* ctx->scanner) == '\\' && ! within_string && ! within_char )
+		if ( (* ctx->scanner) == '\\' )
 		{
 			move_forward();
 			preprocess_content.Text.Len++;
@@ -449,6 +458,15 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				preprocess_content.Text.Len++;
 				continue;
 			}
+			else if ( within_string || within_char )
+			{
+				if ( ctx->left )
+				{
+					move_forward();
+					preprocess_content.Text.Len++;
+				}
+				continue;
+			}
 			else
 			{
 				StrBuilder directive_str = strbuilder_make_length( _ctx->Allocator_Temp, ctx->token.Text.Ptr, ctx->token.Text.Len );
-- 
2.43.0


From ea2009c5b9a2aa5a845dda6be4b81b721466227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 126/158] fix: white space alone between the parentheses of a
 #define is no parameter

---
 base/components/lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 207fc5b..051f656 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -157,6 +157,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 
 		Token last_parameter = {};
 		// We need to tokenize the define's arguments now:
+		skip_whitespace();
 		while( ctx->left && * ctx->scanner != ')')
 		{
 			skip_whitespace();
-- 
2.43.0


From 28cb4b9a32105de5515f2ef728e71470cd475917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 127/158] fix: a run of the same character is split into the
 operators C++ has

---
 base/components/lexer.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 051f656..6094e49 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1064,7 +1064,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( (* ctx->scanner) == '=' && c.token.Text.Ptr[0] != '~' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -1076,12 +1076,12 @@ TokArray lex( Str content )
 				}
 				else
 				{
-					while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					// Of these, only ++, <<, >> and || are operators of two of the same character
+					char const first = c.token.Text.Ptr[0];
+					if ( c.left && (* ctx->scanner) == first && ( first == '+' || first == '<' || first == '>' || first == '|' ) )
 					{
 						c.token.Text.Len++;
-
-						if (c.left)
-							move_forward();
+						move_forward();
 					}
 
 					// <<= and >>=
@@ -1130,12 +1130,10 @@ TokArray lex( Str content )
 						if (c.left)
 							move_forward();
 					}
-					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					else if ( c.left && (* ctx->scanner) == '-' )
 					{
 						c.token.Text.Len++;
-
-						if (c.left)
-							move_forward();
+						move_forward();
 					}
 				}
 				goto FoundToken;
-- 
2.43.0


From 2ed7853d555733e90f2be88f6c42e7d6728390af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:34 +0000
Subject: [PATCH 128/158] fix: a number with a suffix, an exponent or digit
 separators is one token

---
 base/components/lexer.cpp | 59 +++++++++------------------------------
 1 file changed, 13 insertions(+), 46 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 6094e49..d9aac87 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -705,6 +705,9 @@ TokArray lex( Str content )
 			}
 			case '.':
 			{
+				if ( c.left > 1 && char_is_digit( c.scanner[1] ) )
+					break; // A number
+
 				Str text = { c.scanner, 1 };
 				c.token.Text   = text;
 				c.token.Type   = Tok_Access_MemberSymbol;
@@ -1237,9 +1240,10 @@ TokArray lex( Str content )
 
 			goto FoundToken;
 		}
-		else if ( char_is_digit((* ctx->scanner)) )
+		else if ( char_is_digit((* ctx->scanner)) || (* ctx->scanner) == '.' )
 		{
 			// This is a very brute force lex, no checks are done for validity of literal.
+			// As in C++ a number goes on with digits, letters, '.', exponents with a sign and single quotes between digits.
 
 			Str text = { c.scanner, 1 };
 			c.token.Text   = text;
@@ -1247,56 +1251,19 @@ TokArray lex( Str content )
 			c.token.Flags  = TF_Literal;
 			move_forward();
 
-			if (c.left
-			&& (	(* ctx->scanner) == 'x' || (* ctx->scanner) == 'X'
-				||	(* ctx->scanner) == 'b' || (* ctx->scanner) == 'B'
-				||  (* ctx->scanner) == 'o' || (* ctx->scanner) == 'O' )
-			)
+			while ( c.left )
 			{
-				move_forward();
-				c.token.Text.Len++;
-
-				while ( c.left && char_is_hex_digit((* ctx->scanner)) ) {
-					move_forward();
-					c.token.Text.Len++;
-				}
+				char const ch   = (* ctx->scanner);
+				char const prev = c.scanner[-1];
 
-				goto FoundToken;
-			}
-
-			while ( c.left && char_is_digit((* ctx->scanner)) ) {
-				move_forward();
-				c.token.Text.Len++;
-			}
+				b32 is_part      = char_is_alphanumeric(ch) || ch == '_' || ch == '.';
+				b32 is_sign      = ( ch == '+' || ch == '-' ) && ( prev == 'e' || prev == 'E' || prev == 'p' || prev == 'P' );
+				b32 is_separator = ch == '\'' && c.left > 1 && ( char_is_alphanumeric(c.scanner[1]) || c.scanner[1] == '_' );
+				if ( ! is_part && ! is_sign && ! is_separator )
+					break;
 
-			if ( c.left && (* ctx->scanner) == '.' )
-			{
 				move_forward();
 				c.token.Text.Len++;
-
-				while ( c.left && char_is_digit((* ctx->scanner)) ) {
-					move_forward();
-					c.token.Text.Len++;
-				}
-
-				// Handle number literal suffixes in a botched way
-				if (c.left && (
-					(* ctx->scanner) == 'l' || (* ctx->scanner) == 'L' ||  // long/long long
-					(* ctx->scanner) == 'u' || (* ctx->scanner) == 'U' ||  // unsigned
-					(* ctx->scanner) == 'f' || (* ctx->scanner) == 'F' ||  // float
-					(* ctx->scanner) == 'i' || (* ctx->scanner) == 'I' ||  // imaginary
-					(* ctx->scanner) == 'z' || (* ctx->scanner) == 'Z'))   // complex
-				{
-					char prev = (* ctx->scanner);
-					move_forward();
-					c.token.Text.Len++;
-
-					// Handle 'll'/'LL' as a special case when we just processed an 'l'/'L'
-					if (c.left && (prev == 'l' || prev == 'L') && ((* ctx->scanner) == 'l' || (* ctx->scanner) == 'L')) {
-						move_forward();
-						c.token.Text.Len++;
-					}
-				}
 			}
 
 			goto FoundToken;
-- 
2.43.0


From 572f48d2dcfd7d8c9d678a398ea4a5dfe7153c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 129/158] fix: an escaped quote does not end a character
 literal, whereever it is

---
 base/components/lexer.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index d9aac87..b4ad06f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -880,20 +880,14 @@ TokArray lex( Str content )
 
 				move_forward();
 
-				if ( c.left && (* ctx->scanner) == '\\' )
+				while ( c.left && (* ctx->scanner) != '\'' )
 				{
-					move_forward();
-					c.token.Text.Len++;
-
-					if ( (* ctx->scanner) == '\'' )
+					if ( c.left > 1 && (* ctx->scanner) == '\\' )
 					{
 						move_forward();
 						c.token.Text.Len++;
 					}
-				}
 
-				while ( c.left && (* ctx->scanner) != '\'' )
-				{
 					move_forward();
 					c.token.Text.Len++;
 				}
-- 
2.43.0


From 33e7a7e78d6e7fd54a386947d5c61b854a8cb3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 130/158] fix: a line of a #define may continue after a
 parameter

---
 base/components/lexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index b4ad06f..e9ead8c 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -206,6 +206,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				array_append(_ctx->Lexer_Tokens, parameter);
 				skip_whitespace();
 				last_parameter = parameter;
+
+				while ( (* ctx->scanner) == '\\' ) {
+					move_forward();
+					skip_whitespace();
+				}
 			}
 			else {
 				log_failure("lex_preprocessor_define(%d, %d): Expected a '_' or alpha character for a parameter name for %S\n"
-- 
2.43.0


From f43c327cdc70db1ee1d4a41116aa170354786b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 131/158] fix: the lexer does not run past the end of a text
 that ends within a comment or a directive

---
 base/components/lexer.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index e9ead8c..7211a70 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -77,6 +77,9 @@ enum
 forceinline
 void lexer_move_forward( LexContext* ctx )
 {
+	if ( ctx->left <= 0 )
+		return;
+
 	if ( * ctx->scanner == '\n' ) {
 		ctx->line   += 1;
 		ctx->column  = 1;
@@ -1191,21 +1194,20 @@ TokArray lex( Str content )
 						c.token.Flags    = TF_Null;
 						move_forward();
 
-						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
-						bool at_end = star && slash;
+						bool at_end = c.left > 1 && c.scanner[0] == '*' && c.scanner[1] == '/';
 						while ( c.left && ! at_end  )
 						{
 							move_forward();
 							c.token.Text.Len++;
 
-							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
-							at_end = star && slash;
+							at_end = c.left > 1 && c.scanner[0] == '*' && c.scanner[1] == '/';
+						}
+						if ( at_end )
+						{
+							c.token.Text.Len += 2;
+							move_forward();
+							move_forward();
 						}
-						c.token.Text.Len += 2;
-						move_forward();
-						move_forward();
 
 						if ( (* ctx->scanner) == '\r' )
 						{
-- 
2.43.0


From 3d997e5739e8ba24eae684f0cd51bedca67fe29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 132/158] fix: a #define is read as it is written, also when
 its macro was registered with another form

---
 base/components/parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c1a9f18..ca2511e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3644,8 +3644,7 @@ CodeDefine parser_parse_define()
 	eat( Tok_Identifier );
 	// #define <Name>
 
-	Macro* macro = lookup_macro(define->Name);
-	if (macro_is_functional(* macro)) {
+	if ( check( Tok_Paren_Open ) ) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
-- 
2.43.0


From e0c8ae7b6a96bffc8717e1e01863d7a7af57e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:41 +0000
Subject: [PATCH 133/158] fix: the text of a macro statement goes up to its
 semicolon

---
 base/components/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ca2511e..da66cc5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3156,7 +3156,7 @@ Code parse_simple_preprocess( TokType which )
 				eat( Tok_Statement_End );
 				// <Macro>;
 
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 
 				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
 				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
@@ -3164,7 +3164,7 @@ Code parse_simple_preprocess( TokType which )
 					eat( Tok_Comment );
 					// <Macro>; <InlineCmt>
 
-					full_macro.Text.Len += prevtok.Text.Len;
+					full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 				}
 			}
 		}
@@ -3178,7 +3178,7 @@ Code parse_simple_preprocess( TokType which )
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 			}
 		}
 	}
-- 
2.43.0


From 789cadd4bd7c88362c9cd2f322bbf78b4fb50b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:05 +0000
Subject: [PATCH 134/158] fix: the arguments of an attribute may have
 parentheses of their own

---
 base/components/parser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index da66cc5..2e1a555 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -601,8 +601,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __attribute__((
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && (currtok.Type != Tok_Paren_Close || level > 0) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __attribute__(( <Content>
@@ -619,8 +624,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __declspec(
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && (currtok.Type != Tok_Paren_Close || level > 0) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __declspec( <Content>
@@ -641,7 +651,7 @@ CodeAttributes parse_attributes()
 				eat( Tok_Paren_Open );
 
 				s32 level = 0;
-				while (left && currtok.Type != Tok_Paren_Close && level == 0)
+				while (left && (currtok.Type != Tok_Paren_Close || level > 0))
 				{
 					if (currtok.Type == Tok_Paren_Open)
 						++ level;
-- 
2.43.0


From 64d823cfa9be4c4d02092572d27486f9dfd1d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:19 +0000
Subject: [PATCH 135/158] fix: a macro allowed as identifier may name a
 parameter, whatever its kind

---
 base/components/parser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2e1a555..5c7feae 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2751,6 +2751,15 @@ CodePragma parse_pragma()
 	return pragma;
 }
 
+internal inline
+bool param_name_follows()
+{
+	if ( check( Tok_Identifier ) || bitfield_is_set(u32, currtok.Flags, TF_Identifier) )
+		return true;
+	Macro* macro = lookup_macro( currtok.Text );
+	return macro && bitfield_is_set(MacroFlags, macro->Flags, MF_Allow_As_Identifier );
+}
+
 internal inline
 CodeParams parse_params( bool use_template_capture )
 {
@@ -2821,7 +2830,7 @@ CodeParams parse_params( bool use_template_capture )
 		}
 		// ( <Macro> <ValueType>
 
-		if ( check( Tok_Identifier ) || bitfield_is_set(u32, currtok.Flags, TF_Identifier) )
+		if ( param_name_follows() )
 		{
 			name = currtok;
 			eat( currtok.Type );
@@ -2936,7 +2945,7 @@ CodeParams parse_params( bool use_template_capture )
 
 			name = NullToken;
 
-			if ( check( Tok_Identifier ) || bitfield_is_set(u32, currtok.Flags, TF_Identifier) )
+			if ( param_name_follows() )
 			{
 				name = currtok;
 				eat( currtok.Type );
-- 
2.43.0


From 6da8f376a9a1435e2dd9bef38b7c59286b723e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 136/158] fix: a text is a keyword or specifier only if it is
 that text, not if it hashes to the same

---
 base/components/gen/especifier.hpp | 2 +-
 base/components/gen/etoktype.hpp   | 2 +-
 base/helpers/base_codegen.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..ae2da23 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -102,7 +102,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(spec_to_str((Specifier)index), str))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 5aa3136..36dff8e 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -232,7 +232,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(toktype_to_str((TokType)index), str))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..93517c7 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -278,7 +278,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( spec_to_str( (Specifier)index ), str ) )
 					return (Specifier)index;
 			}
 
@@ -435,7 +435,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( toktype_to_str( (TokType)index ), str ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From a5b4f88ab654369d026df59bad796cda5dae5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 137/158] fix: the keyword of a class forward declaration is
 class

---
 base/components/gen/ecodetypes.hpp | 2 +-
 base/enums/ECodeTypes.csv          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/gen/ecodetypes.hpp b/base/components/gen/ecodetypes.hpp
index 139e615..7d2b088 100644
--- a/base/components/gen/ecodetypes.hpp
+++ b/base/components/gen/ecodetypes.hpp
@@ -154,7 +154,7 @@ inline Str codetype_to_keyword_str(CodeType type)
 		{ "public",          sizeof("public") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "class",           sizeof("class") - 1           },
-		{ "clsss",           sizeof("clsss") - 1           },
+		{ "class",           sizeof("class") - 1           },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
 		{ "__NA__",          sizeof("__NA__") - 1          },
diff --git a/base/enums/ECodeTypes.csv b/base/enums/ECodeTypes.csv
index d1ca2d6..e3f31aa 100644
--- a/base/enums/ECodeTypes.csv
+++ b/base/enums/ECodeTypes.csv
@@ -7,7 +7,7 @@ Access_Protected,    "protected"
 Access_Public,       "public"
 PlatformAttributes,  "__NA__"
 Class,               "class"
-Class_Fwd,           "clsss"
+Class_Fwd,           "class"
 Class_Body,          "__NA__"
 Constructor,         "__NA__"
 Constructor_Fwd,     "__NA__"
-- 
2.43.0


From 5babde45aed71c59aacb069dbd1f7e3df91490f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 138/158] fix: tokens whose names hash to the same are told
 apart when they are substituted

---
 base/components/interface.untyped.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index d571d4a..d654764 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,6 +3,20 @@
 #include "interface.parsing.cpp"
 #endif
 
+// A token's name is kept at its key, its value at the one after: Names of the same hash get different keys.
+internal inline
+u64 token_fmt_key( Str name )
+{
+	u64  key   = ((u64) crc32( name.Ptr, name.Len )) << 32;
+	Str* known = hashtable_get( _ctx->token_fmt_map, key );
+	while ( known && ! str_are_equal( * known, name ) )
+	{
+		key   += 2;
+		known  = hashtable_get( _ctx->token_fmt_map, key );
+	}
+	return key;
+}
+
 ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 {
 	char const* buf_begin = buf;
@@ -20,8 +34,10 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = va_arg( va, char const* );
 			Str         value = va_arg( va, Str );
 
-			u32 key = crc32( token, c_str_len(token) );
-			hashtable_set( _ctx->token_fmt_map, key, value );
+			Str name = to_str_from_c_str( token );
+			u64 key  = token_fmt_key( name );
+			hashtable_set( _ctx->token_fmt_map, key,     name );
+			hashtable_set( _ctx->token_fmt_map, key + 1, value );
 		}
 	}
 
@@ -56,9 +72,9 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 
 			char const* token = fmt + 1;
 
-			u32      key   = crc32( token, tok_len );
+			Str      name  = { token, tok_len };
 			// A '<' that is never closed is not a token.
-			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
+			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, token_fmt_key( name ) + 1 ) : nullptr;
 
 			if ( value )
 			{
-- 
2.43.0


From 76e9cd0ebdf0029ac6260a63079f932d6f629749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 139/158] fix: the texts of macro types are in the order of the
 enumerators, and no text includes its terminator

---
 base/components/parser_types.hpp | 4 ++--
 base/components/types.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser_types.hpp b/base/components/parser_types.hpp
index 2393945..6c93d65 100644
--- a/base/components/parser_types.hpp
+++ b/base/components/parser_types.hpp
@@ -151,15 +151,15 @@ Str macrotype_to_str( MacroType type )
 {
 	local_persist
 	Str lookup[] = {
-		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Expression",       sizeof("Expression")       - 1 },
+		{ "Statement",        sizeof("Statement")        - 1 },
 		{ "Typename",         sizeof("Typename")         - 1 },
 		{ "Block_Start",      sizeof("Block_Start")      - 1 },
 		{ "Block_End",        sizeof("Block_End")        - 1 },
 		{ "Case_Statement",   sizeof("Case_Statement")   - 1 },
 	};
 	local_persist
-	Str invalid = { "Invalid", sizeof("Invalid") };
+	Str invalid = { "Invalid", sizeof("Invalid") - 1 };
 	if ( type > MT_Case_Statement )
 		return invalid;
 
diff --git a/base/components/types.hpp b/base/components/types.hpp
index f82bc09..77cf9cf 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -107,7 +107,7 @@ Str module_flag_to_str( ModuleFlag flag )
 	};
 
 	local_persist
-	Str invalid_flag = { "invalid", sizeof("invalid") };
+	Str invalid_flag = { "invalid", sizeof("invalid") - 1 };
 	if ( flag > ModuleFlag_Import )
 		return invalid_flag;
 
-- 
2.43.0


From 6d20daf6f4d9003a37bfa0034ca3d3596b9b3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:42 +0000
Subject: [PATCH 140/158] fix: messages of the lexer and parser are given what
 their formats name, and stay within the text

---
 base/components/interface.parsing.cpp |  2 +-
 base/components/lexer.cpp             |  6 ++---
 base/components/parser.cpp            | 32 +++++++++++++--------------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..f659aea 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -57,7 +57,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 7211a70..fd1f061 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -338,7 +338,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
-								" in preprocessor directive (%d, %d)\n%.100s"
+								" in preprocessor directive (%d, %d)\n%S"
 						, (* ctx->scanner), ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
@@ -737,7 +737,7 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
 						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
 					}
@@ -1323,7 +1323,7 @@ TokArray lex( Str content )
 	}
 
 	// The parser looks past the last token, what is there must not be from a text lexed before.
-	Token past_end = { txt(""), Tok_Invalid, c.line, c.column, TF_Null };
+	Token past_end = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 	array_append( _ctx->Lexer_Tokens, past_end );
 	array_append( _ctx->Lexer_Tokens, past_end );
 	array_pop( _ctx->Lexer_Tokens );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5c7feae..8755a64 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -52,7 +52,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	if ( length_from_err < 100 )
+	if ( length_from_err > 0 && length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
 		strbuilder_append_fmt(& result, "\t(%d, %d)\n", last_valid.Line, last_valid.Column );
@@ -541,7 +541,7 @@ Code parse_array_decl()
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected ] in array declaration, not %S\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -691,7 +691,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -989,7 +989,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1229,7 +1229,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1284,7 +1284,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1303,7 +1303,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1519,7 +1519,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1765,7 +1765,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "gen::%s: This function is not implemented", __func__ );
 				return InvalidCode;
 			}
 			break;
@@ -1774,7 +1774,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2088,7 +2088,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2108,7 +2108,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2455,7 +2455,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2465,7 +2465,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3091,7 +3091,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text, parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3701,7 +3701,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-- 
2.43.0


From 76ce848ebfaabe9bcd64b0e01b020e94cd5e094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 141/158] fix: formatted text that does not fit its buffer is
 reported and nothing is written past the end

---
 base/dependencies/printing.cpp | 58 ++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..f980e47 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -40,14 +40,17 @@ struct _format_info
 	s32 precision;
 };
 
+// The printers of the directives return -1 when what they print takes more than max_len characters.
+
 internal ssize _print_string( char* text, ssize max_len, _format_info* info, char const* str )
 {
 	ssize res = 0, len = 0;
-	ssize remaining = max_len;
 	char* begin     = text;
 
-	if ( str == NULL && max_len >= 6 )
+	if ( str == NULL )
 	{
+		if ( max_len < 6 )
+			return -1;
 		res += c_str_copy_nulpad( text, "(null)", 6 );
 		return res;
 	}
@@ -68,7 +71,7 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
 		if ( res + len > max_len )
-			return res;
+			return -1;
 		res  += c_str_copy_nulpad( text, str, len );
 		text += res;
 
@@ -77,7 +80,9 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 			ssize padding = info->width - len;
 
 			char pad = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-			while ( padding-- > 0 && remaining-- > 0 )
+			if ( padding > max_len - res )
+				return -1;
+			while ( padding-- > 0 )
 				*text++ = pad, res++;
 		}
 	}
@@ -87,12 +92,14 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 		{
 			ssize   padding = info->width - len;
 			char pad     = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-			while ( padding-- > 0 && remaining-- > 0 )
+			if ( padding > max_len - res )
+				return -1;
+			while ( padding-- > 0 )
 				*text++ = pad, res++;
 		}
 
 		if ( res + len > max_len )
-			return res;
+			return -1;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
@@ -119,6 +126,8 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
 	res     = rem;
+	if ( res > max_len )
+		return -1;
 	while ( rem-- > 0 )
 		*text++ = arg;
 
@@ -164,6 +173,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 
 		value  = scast( u64, arg);
 		len    = _print_u64( text, remaining, NULL, value );
+		if ( len < 0 )
+			return -1;
 		text  += len;
 
 		if ( len >= remaining )
@@ -185,6 +196,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 			{
 				value  = scast( u64, arg * mult );
 				len    = _print_u64( text, remaining, NULL, value );
+				if ( len < 0 )
+					return -1;
 				text  += len;
 				if ( len >= remaining )
 					remaining = min( remaining, 1 );
@@ -243,14 +256,28 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 	char const* text_begin = text;
 	ssize          remaining  = max_len, res;
 
+	if ( max_len <= 0 )
+		return -1;
+
+	// There is always room left for the terminator.
+	remaining -= 1;
+
 	while ( *fmt )
 	{
 		_format_info info = { 0 };
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
+		while ( *fmt && *fmt != '%' )
+		{
+			if ( remaining <= 0 )
+			{
+				*text = '\0';
+				return -1;
+			}
 			*text++ = *fmt++;
+			remaining--;
+		}
 
 		if ( *fmt == '%' )
 		{
@@ -520,16 +547,18 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		if ( len < 0 || len > remaining )
+		{
+			*text = '\0';
+			return -1;
+		}
+		text      += len;
+		remaining -= len;
 	}
 
 	*text++ = '\0';
 	res     = ( text - text_begin );
-	return ( res >= max_len || res < 0 ) ? -1 : res;
+	return res;
 }
 
 char* c_str_fmt_buf_va( char const* fmt, va_list va )
@@ -553,7 +582,8 @@ ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
 	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
 	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
-	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
+	// NOTE: prevent extra whitespace. Of what does not fit, the beginning is written.
+	b32                             res = file_write( f, buf, len < 0 ? c_str_len( buf ) : len - 1 );
 	return res ? len : -1;
 }
 
-- 
2.43.0


From 6d5fb7ca7e9af2f845223bc1830b3557af852933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:20 +0000
Subject: [PATCH 142/158] fix: formatted text may be longer than the print
 buffer when it goes to a string builder

---
 base/auxiliary/builder.cpp            |  7 +--
 base/components/interface.untyped.cpp |  9 ++--
 base/dependencies/strings.hpp         | 68 +++++++++++++++++++--------
 3 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 877c3a9..e722feb 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -39,12 +39,7 @@ void builder_print( Builder* builder, Code code )
 
 void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 {
-	ssize   res;
-	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
-
-	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
-
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	strbuilder_append_fmt_va( (StrBuilder*) & (builder->Buffer), fmt, va );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index d654764..2b1fe7c 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -142,21 +142,20 @@ Code untyped_fmt( char const* fmt, ...)
 		return InvalidCode;
 	}
 
-	local_persist thread_local
-	char buf[GEN_PRINTF_MAXLEN] = { 0 };
+	StrBuilder buf = strbuilder_make_length( heap(), "", 0 );
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
+	strbuilder_append_fmt_va( & buf, fmt, va );
 	va_end(va);
-	// The length reported counts the null-terminator.
-	Str content = { buf, length - 1 };
+	Str content = strbuilder_to_str( buf );
 
 	Code
 	result          = make_code();
 	result->Name    = cache_str( content );
 	result->Type    = CT_Untyped;
 	result->Content = result->Name;
+	strbuilder_free( & buf );
 
 	if ( result->Name.Len == 0 )
 	{
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index ba252ec..5e8fbc4 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -141,6 +141,7 @@ bool              strbuilder_append_c_str        (StrBuilder*      str, char con
 bool              strbuilder_append_str          (StrBuilder*      str, Str         c_str_to_append);
 bool              strbuilder_append_string       (StrBuilder*      str, StrBuilder const other);
 bool              strbuilder_append_fmt          (StrBuilder*      str, char const*  fmt, ...);
+bool              strbuilder_append_fmt_va       (StrBuilder*      str, char const*  fmt, va_list va);
 ssize             strbuilder_avail_space         (StrBuilder const str);
 char*             strbuilder_back                (StrBuilder       str);
 bool              strbuilder_contains_str        (StrBuilder const str, Str         substring);
@@ -209,18 +210,19 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		// Of what does not fit, the beginning is kept.
+		return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 	}
 
 	static
 	StrBuilder fmt_buf(AllocatorInfo allocator, char const* fmt, ...) {
-		local_persist thread_local
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
 		va_list va;
 		va_start(va, fmt);
-		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
+		StrBuilder result = strbuilder_make_length(allocator, "", 0);
+		if (result.Data)
+			strbuilder_append_fmt_va(& result, fmt, va);
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return result;
 	}
 
 	forceinline bool              make_space_for(char const* str, ssize add_len) { return strbuilder_make_space_for(this, str, add_len); }
@@ -251,15 +253,12 @@ struct StrBuilder
 	forceinline StrBuilderHeader& get_header()                                   { return * strbuilder_get_header(* this); }
 
 	bool append_fmt(char const* fmt, ...) {
-		ssize res;
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 		va_list va;
 		va_start(va, fmt);
-		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+		bool res = strbuilder_append_fmt_va(this, fmt, va);
 		va_end(va);
 
-		return strbuilder_append_c_str_len(this, buf, res);
+		return res;
 	}
 #pragma endregion Member Mapping
 #endif
@@ -313,21 +312,22 @@ StrBuilder strbuilder_fmt(AllocatorInfo allocator, char* buf, ssize buf_size, ch
 	ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	// Of what does not fit, the beginning is kept.
+	return strbuilder_make_length(allocator, buf, res < 0 ? c_str_len(buf) : res);
 }
 
 inline
 StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 {
-	local_persist thread_local
-	PrintF_Buffer buf = struct_init(PrintF_Buffer, {0});
+	StrBuilder result = strbuilder_make_length(allocator, "", 0);
 
 	va_list va;
 	va_start(va, fmt);
-	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
+	if ((char*) result)
+		strbuilder_append_fmt_va(& result, fmt, va);
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return result;
 }
 
 inline
@@ -373,15 +373,43 @@ bool strbuilder_append_string(StrBuilder* str, StrBuilder const other) {
 inline
 bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 	GEN_ASSERT(str != nullptr);
-	ssize res;
-	char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 	va_list va;
 	va_start(va, fmt);
-	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+	bool res = strbuilder_append_fmt_va(str, fmt, va);
 	va_end(va);
 
-	return strbuilder_append_c_str_len(str, (char const*)buf, res);
+	return res;
+}
+
+inline
+bool strbuilder_append_fmt_va(StrBuilder* str, char const* fmt, va_list va)
+{
+	char    buf[GEN_PRINTF_MAXLEN];
+	va_list again;
+	va_copy(again, va);
+	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, again);
+	va_end(again);
+
+	if (res >= 0)
+		return strbuilder_append_c_str_len(str, (char const*)buf, res - 1);
+
+	// The text is longer than the print buffer.
+	for (ssize size = GEN_PRINTF_MAXLEN * 2; ; size *= 2)
+	{
+		char* large = (char*) alloc(heap(), size);
+		if (large == nullptr)
+			return false;
+
+		va_copy(again, va);
+		res = c_str_fmt_va(large, size, fmt, again);
+		va_end(again);
+
+		bool done   = res >= 0;
+		bool result = done && strbuilder_append_c_str_len(str, (char const*)large, res - 1);
+		allocator_free(heap(), large);
+		if (done)
+			return result;
+	}
 }
 
 inline
-- 
2.43.0


From 11410543ebc9fafa9ef629ad04ebbd38256ac827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 143/158] fix: more specifiers than a declaration can have are
 refused

---
 base/components/interface.parsing.cpp |  6 +++
 base/components/parser.cpp            | 66 +++++++++++++++++++++++++++
 2 files changed, 72 insertions(+)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index f659aea..79b2577 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -66,6 +66,12 @@ CodeConstructor parse_constructor( Str def )
 		if (ignore_spec)
 			break;
 
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8755a64..1549f6d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1039,6 +1039,12 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers >= count_of(specs_found) ) {
+						log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
+
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1825,6 +1831,12 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers >= count_of(specs_found) ) {
+						log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
+
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -4179,6 +4191,12 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			if ( NumSpecifiers >= count_of(specs_found) ) {
+				log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4296,6 +4314,12 @@ CodeFn parser_parse_function()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4398,6 +4422,12 @@ CodeOperator parser_parse_operator()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4619,6 +4649,12 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				if ( NumSpecifiers >= count_of(specs_found) ) {
+					log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
+
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4736,6 +4772,12 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4879,6 +4921,12 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -5011,6 +5059,12 @@ else if ( currtok.Type == Tok_DeclType )
 					return InvalidCode;
 				}
 
+				if ( NumSpecifiers >= count_of(specs_found) ) {
+					log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
+
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -5081,6 +5135,12 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			if ( NumSpecifiers >= count_of(specs_found) ) {
+				log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5671,6 +5731,12 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers >= count_of(specs_found) ) {
+			log_failure( "Too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
-- 
2.43.0


From 9f13522bd3faca22bc91f0e34da947127e3109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 144/158] fix: looking for the end of a signature or of a
 comment stops at the end of the text

---
 base/components/parser.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1549f6d..3067c2b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -329,8 +329,16 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			if ( tokleft > 1 )
+			{
+				scanner += 2;
+				tokleft -= 2;
+			}
+			else
+			{
+				// The comment has no end
+				move_fwd();
+			}
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
@@ -4966,7 +4974,8 @@ else if ( currtok.Type == Tok_DeclType )
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			Token* end = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr);
+			while ( scanner < end && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
-- 
2.43.0


From 91482c8e3162289d7e8dc3f76514437736b1fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 145/158] fix: what is missing from parameters, templates,
 initializers, bit fields and declaration lists is reported

---
 base/components/parser.cpp | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 3067c2b..20b100d 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1989,6 +1989,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			break;
 	}
 
+	// Constructors and destructors outside of their class have at least a class, ::, and a name before the (
+	if ( idx - tokens.Idx < 3 )
+		return result;
+
 	-- idx;
 	Token tok_right = tokens.Arr[idx];
 	Token tok_left  = NullToken;
@@ -2021,7 +2025,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	// We search toward the left until we find the next valid identifier
 	s32 capture_level  = 0;
 	s32 template_level = 0;
-	while ( idx != tokens.Idx )
+	while ( idx > tokens.Idx )
 	{
 		if (tok_left.Text.Ptr[ 0 ] == '<')
 			++ template_level;
@@ -2840,6 +2844,12 @@ CodeParams parse_params( bool use_template_capture )
 		macro = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
 		// ( <Macro>
 	}
+	if ( currtok.Type == Tok_Comma && ! macro )
+	{
+		log_failure( "Expected a parameter before ','\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	if ( currtok.Type != Tok_Comma )
 	{
 		type = parser_parse_type( use_template_capture, nullptr );
@@ -2953,6 +2963,12 @@ CodeParams parse_params( bool use_template_capture )
 			macro = parse_simple_preprocess(Tok_Preprocess_Macro_Expr);
 			// ( <Macro> <ValueType> <Name> = <Expression>, <Macro>
 		}
+		if ( currtok.Type == Tok_Comma && ! macro )
+		{
+			log_failure( "Expected a parameter before ','\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		if ( currtok.Type != Tok_Comma )
 		{
 			type = cast(Code, parser_parse_type( use_template_capture, nullptr ));
@@ -3367,6 +3383,12 @@ CodeVar parse_variable_after_name(
 
 		Token expr_token = currtok;
 
+		if ( ! left || currtok.Type == Tok_Paren_Close ) {
+			log_failure( "Expected expression after '(' of a variable's initializer\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+
 		using_constructor_initializer = true;
 
 		s32 level = 0;
@@ -3394,7 +3416,7 @@ CodeVar parse_variable_after_name(
 
 		Token expr_tok = currtok;
 
-		if ( currtok.Type == Tok_Statement_End ) {
+		if ( ! left || currtok.Type == Tok_Statement_End ) {
 			log_failure( "Expected expression after bitfield \n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -3498,13 +3520,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -4727,6 +4747,13 @@ CodeTemplate parser_parse_template()
 		break;
 	}
 
+	if ( ! definition || definition == Code_Invalid )
+	{
+		log_failure( "Expected a declaration after the parameters of a template\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
 	CodeTemplate result = ( CodeTemplate )make_code();
 	result->Type        = CT_Template;
 	result->Params      = params;
-- 
2.43.0


From 7add11ea588143e0d185ba5971f03a76c6566871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:45 +0000
Subject: [PATCH 146/158] fix: a class may have any number of interfaces, and a
 constructor is read from its own text

---
 base/components/interface.parsing.cpp | 5 ++++-
 base/components/parser.cpp            | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index 79b2577..037fcea 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -33,6 +33,9 @@ CodeConstructor parse_constructor( Str def )
 
 	// TODO(Ed): Constructors can have prefix attributes
 
+	_ctx->parser.Tokens = toks;
+	push_scope();
+
 	CodeSpecifiers specifiers = NullCode;
 	Specifier      specs_found[ 16 ] = { Spec_NumSpecifiers };
 	s32            NumSpecifiers = 0;
@@ -83,8 +86,8 @@ CodeConstructor parse_constructor( Str def )
 		// <specifiers> ...
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
+	parser_pop(& _ctx->parser);
 	return result;
 }
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 20b100d..afdbe50 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -739,11 +739,7 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
 	// Not shared with the classes and structs defined within this one's body.
-	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	Array(CodeTypename) interfaces = array_init_reserve(CodeTypename, _ctx->Allocator_Temp, 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
-- 
2.43.0


From 90d23617e107030fbe08fe633fe9aa5b6da0b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 147/158] fix: the lexer and the parser do not look past the
 end of the text

---
 base/components/lexer.cpp  | 137 ++++++++++++++++++++-----------------
 base/components/parser.cpp | 124 +++++++++++++++++----------------
 2 files changed, 140 insertions(+), 121 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index fd1f061..a173f6e 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -92,6 +92,12 @@ void lexer_move_forward( LexContext* ctx )
 }
 #define move_forward() lexer_move_forward(ctx)
 
+// The text may end anywhere, and what is after it is not to be looked at.
+forceinline
+char lexer_current( LexContext* ctx ) {
+	return ctx->left > 0 ? * ctx->scanner : '\0';
+}
+
 forceinline
 void lexer_skip_whitespace( LexContext* ctx )
 {
@@ -119,6 +125,10 @@ void lexer_end_line( LexContext* ctx )
 s32 lex_preprocessor_define( LexContext* ctx )
 {
 	Token name = { { ctx->scanner, 1 }, Tok_Identifier, ctx->line, ctx->column, TF_Preprocess };
+	if ( ctx->left <= 0 ) {
+		log_failure("lex_preprocessor_define(%d, %d): Expected a name after #define\n", ctx->line, ctx->column );
+		return Lex_ReturnNull;
+	}
 	move_forward();
 
 	while ( ctx->left && ( char_is_alphanumeric((* ctx->scanner)) || (* ctx->scanner) == '_' ) ) {
@@ -176,11 +186,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				skip_whitespace();
 				last_parameter = parameter;
 
-				while ( (* ctx->scanner) == '\\' ) {
+				while ( lexer_current(ctx) == '\\' ) {
 					move_forward();
 					skip_whitespace();
 				}
-				if (* ctx->scanner != ')' )
+				if (lexer_current(ctx) != ')' )
 				{
 					log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after '...' (varaidc macro param) %S\n"
 						, ctx->line
@@ -191,12 +201,12 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				}
 				break;
 			}
-			else if ( (* ctx->scanner) == '\\' ) {
+			else if ( lexer_current(ctx) == '\\' ) {
 				move_forward();
 				skip_whitespace();
 				continue;
 			}
-			else if ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' )
+			else if ( char_is_alpha( lexer_current(ctx) ) || lexer_current(ctx) == '_' )
 			{
 				Token parameter = { { ctx->scanner, 1 }, Tok_Preprocess_Define_Param, ctx->line, ctx->column, TF_Preprocess };
 				move_forward();
@@ -210,7 +220,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				skip_whitespace();
 				last_parameter = parameter;
 
-				while ( (* ctx->scanner) == '\\' ) {
+				while ( lexer_current(ctx) == '\\' ) {
 					move_forward();
 					skip_whitespace();
 				}
@@ -224,11 +234,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				return Lex_ReturnNull;
 			}
 
-			if (* ctx->scanner == ')' )
+			if (lexer_current(ctx) == ')' )
 				break;
 
 			// There should be a comma
-			if ( * ctx->scanner != ',' ) {
+			if ( lexer_current(ctx) != ',' ) {
 				log_failure("lex_preprocessor_define(%d, %d): Expected a comma after parameter %S for %S\n"
 					, ctx->line
 					, ctx->column
@@ -242,7 +252,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 			move_forward();
 		}
 		
-		if ( * ctx->scanner != ')' ) {
+		if ( lexer_current(ctx) != ')' ) {
 			log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after last_parameter %S for %S (ran out of characters...)\n"
 				, ctx->line
 				, ctx->column
@@ -303,24 +313,24 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		s32 within_char   = false;
 		while ( ctx->left )
 		{
-			if ( * ctx->scanner == '"' && ! within_char )
+			if ( lexer_current(ctx) == '"' && ! within_char )
 				within_string ^= true;
 
-			if ( * ctx->scanner == '\'' && ! within_string )
+			if ( lexer_current(ctx) == '\'' && ! within_string )
 				within_char ^= true;
 
-			if ( * ctx->scanner == '\\' )
+			if ( lexer_current(ctx) == '\\' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
 
-				if ( (* ctx->scanner) == '\r' )
+				if ( lexer_current(ctx) == '\r' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
 				}
 
-				if ( (* ctx->scanner) == '\n' )
+				if ( lexer_current(ctx) == '\n' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
@@ -339,19 +349,19 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 								" in preprocessor directive (%d, %d)\n%S"
-						, (* ctx->scanner), ctx->line, ctx->column
+						, lexer_current(ctx), ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
 				}
 			}
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( lexer_current(ctx) == '\r' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_current(ctx) == '\n' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
@@ -400,12 +410,12 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	{
 		preprocess_content.Type = Tok_String;
 
-		if ( (* ctx->scanner) != '"' && (* ctx->scanner) != '<' )
+		if ( lexer_current(ctx) != '"' && lexer_current(ctx) != '<' )
 		{
 			StrBuilder directive_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 80, ctx->left + preprocess_content.Text.Len ), ctx->token.Text.Ptr );
 
 			log_failure( "gen::Parser::lex: Expected '\"' or '<' after #include, not '%c' (%d, %d)\n%s"
-				, (* ctx->scanner)
+				, lexer_current(ctx)
 				, preprocess_content.Line
 				, preprocess_content.Column
 				, (char*) directive_str
@@ -421,15 +431,18 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			preprocess_content.Text.Len++;
 		}
 
-		move_forward();
-		preprocess_content.Text.Len++;
+		if ( ctx->left )
+		{
+			move_forward();
+			preprocess_content.Text.Len++;
+		}
 
-		if ( (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
+		if ( ctx->left > 1 && lexer_current(ctx) == '\r' && ctx->scanner[1] == '\n' )
 		{
 			move_forward();
 			move_forward();
 		}
-		else if ( (* ctx->scanner) == '\n' )
+		else if ( lexer_current(ctx) == '\n' )
 		{
 			move_forward();
 		}
@@ -444,24 +457,24 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	// Consume preprocess content
 	while ( ctx->left )
 	{
-		if ( (* ctx->scanner) == '"' && ! within_char )
+		if ( lexer_current(ctx) == '"' && ! within_char )
 			within_string ^= true;
 
-		if ( (* ctx->scanner) == '\'' && ! within_string )
+		if ( lexer_current(ctx) == '\'' && ! within_string )
 			within_char ^= true;
 
-		if ( (* ctx->scanner) == '\\' )
+		if ( lexer_current(ctx) == '\\' )
 		{
 			move_forward();
 			preprocess_content.Text.Len++;
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( lexer_current(ctx) == '\r' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_current(ctx) == '\n' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
@@ -483,7 +496,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 				log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 							" in preprocessor directive '%s' (%d, %d)\n%s"
-					, (* ctx->scanner), ctx->line, ctx->column
+					, lexer_current(ctx), ctx->line, ctx->column
 					, directive_str, preprocess_content.Line, preprocess_content.Column
 					, content_str );
 				return Lex_ReturnNull;
@@ -491,13 +504,13 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			}
 		}
 
-		if ( (* ctx->scanner) == '\r' )
+		if ( lexer_current(ctx) == '\r' )
 		{
 			break;
 			//move_forward();
 		}
 
-		if ( (* ctx->scanner) == '\n' )
+		if ( lexer_current(ctx) == '\n' )
 		{
 			//move_forward();
 			break;
@@ -534,7 +547,7 @@ void lex_found_token( LexContext* ctx )
 	{
 		skip_whitespace();
 
-		if ( (* ctx->scanner) != '"' ) {
+		if ( lexer_current(ctx) != '"' ) {
 			type         = Tok_Spec_Extern;
 			ctx->token.Flags |= TF_Specifier;
 		}
@@ -643,13 +656,13 @@ TokArray lex( Str content )
 
 		if ( c.column == 1 )
 		{
-			if ( (* ctx->scanner) == '\r')
+			if ( lexer_current(ctx) == '\r')
 			{
 				move_forward();
 				c.token.Text.Len = 1;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_current(ctx) == '\n' )
 			{
 				move_forward();
 
@@ -670,7 +683,7 @@ TokArray lex( Str content )
 		c.token.Line   = c.line;
 		c.token.Column = c.column;
 
-		switch ( (* ctx->scanner) )
+		switch ( lexer_current(ctx) )
 		{
 			case '#':
 			{
@@ -686,13 +699,13 @@ TokArray lex( Str content )
 								Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 								c.token = thanks_c;
 							}
-							if ( (* ctx->scanner) == '\r')
+							if ( lexer_current(ctx) == '\r')
 							{
 								move_forward();
 								c.token.Text.Len = 1;
 							}
 
-							if ( (* ctx->scanner) == '\n' )
+							if ( lexer_current(ctx) == '\n' )
 							{
 								c.token.Type = Tok_NewLine;
 								c.token.Text.Len++;
@@ -725,10 +738,10 @@ TokArray lex( Str content )
 					move_forward();
 				}
 
-				if ( (* ctx->scanner) == '.' )
+				if ( lexer_current(ctx) == '.' )
 				{
 					move_forward();
-					if( (* ctx->scanner) == '.' )
+					if( lexer_current(ctx) == '.' )
 					{
 						c.token.Text.Len = 3;
 						c.token.Type     = Tok_Varadic_Argument;
@@ -739,7 +752,7 @@ TokArray lex( Str content )
 					{
 						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
-						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
+						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", lexer_current(ctx), c.line, c.column, context_str );
 					}
 				}
 
@@ -756,7 +769,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '&' )	// &&
+				if ( lexer_current(ctx) == '&' )	// &&
 				{
 					c.token.Text.Len = 2;
 					c.token.Type     = Tok_Ampersand_DBL;
@@ -784,7 +797,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == ':' )
+				if ( lexer_current(ctx) == ':' )
 				{
 					move_forward();
 					c.token.Type = Tok_Access_StaticSymbol;
@@ -832,7 +845,7 @@ TokArray lex( Str content )
 						within_attribute = true;
 						move_forward();
 					}
-					else if ( (* ctx->scanner) == ']' )
+					else if ( lexer_current(ctx) == ']' )
 					{
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Operator;
@@ -929,7 +942,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( lexer_current(ctx) == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -964,14 +977,14 @@ TokArray lex( Str content )
 				move_forward();
 				while ( c.left )
 				{
-					if ( (* ctx->scanner) == '"' )
+					if ( lexer_current(ctx) == '"' )
 					{
 						move_forward();
 						c.token.Text.Len++;
 						break;
 					}
 
-					if ( (* ctx->scanner) == '\\' )
+					if ( lexer_current(ctx) == '\\' )
 					{
 						move_forward();
 						c.token.Text.Len++;
@@ -1014,7 +1027,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( lexer_current(ctx) == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags = TF_Operator;
@@ -1069,7 +1082,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' && c.token.Text.Ptr[0] != '~' )
+				if ( lexer_current(ctx) == '=' && c.token.Text.Ptr[0] != '~' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -1112,21 +1125,21 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == '>'  )
+					if ( lexer_current(ctx) == '>'  )
 					{
 						c.token.Text.Len++;
 //						token.Type = Tok_Access_PointerToMemberSymbol;
 						c.token.Flags |= TF_AccessOperator;
 						move_forward();
 
-						if ( (* ctx->scanner) == '*' )
+						if ( lexer_current(ctx) == '*' )
 						{
 //							token.Type = Tok_Access_PointerToMemberOfPointerSymbol;
 							c.token.Text.Len++;
 							move_forward();
 						}
 					}
-					else if ( (* ctx->scanner) == '=' )
+					else if ( lexer_current(ctx) == '=' )
 					{
 						c.token.Text.Len++;
 						// token.Type = Tok_Assign_Subtract;
@@ -1154,14 +1167,14 @@ TokArray lex( Str content )
 
 				if ( c.left )
 				{
-					if ( (* ctx->scanner) == '=' )
+					if ( lexer_current(ctx) == '=' )
 					{
 						// token.Type = TokeType::Assign_Divide;
 						move_forward();
 						c.token.Text.Len++;
 						c.token.Flags |= TF_Assign;
 					}
-					else if ( (* ctx->scanner) == '/' )
+					else if ( lexer_current(ctx) == '/' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
@@ -1174,12 +1187,12 @@ TokArray lex( Str content )
 							c.token.Text.Len++;
 						}
 
-						if ( (* ctx->scanner) == '\r' )
+						if ( lexer_current(ctx) == '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
-						if ( (* ctx->scanner) == '\n' )
+						if ( lexer_current(ctx) == '\n' )
 						{
 							move_forward();
 							c.token.Text.Len++;
@@ -1187,7 +1200,7 @@ TokArray lex( Str content )
 						array_append( _ctx->Lexer_Tokens, c.token );
 						continue;
 					}
-					else if ( (* ctx->scanner) == '*' )
+					else if ( lexer_current(ctx) == '*' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
@@ -1209,12 +1222,12 @@ TokArray lex( Str content )
 							move_forward();
 						}
 
-						if ( (* ctx->scanner) == '\r' )
+						if ( lexer_current(ctx) == '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
-						if ( (* ctx->scanner) == '\n' )
+						if ( lexer_current(ctx) == '\n' )
 						{
 							move_forward();
 							c.token.Text.Len++;
@@ -1228,7 +1241,7 @@ TokArray lex( Str content )
 			}
 		}
 
-		if ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' )
+		if ( char_is_alpha( lexer_current(ctx) ) || lexer_current(ctx) == '_' )
 		{
 			Str text = { c.scanner, 1 };
 			c.token.Text = text;
@@ -1241,7 +1254,7 @@ TokArray lex( Str content )
 
 			goto FoundToken;
 		}
-		else if ( char_is_digit((* ctx->scanner)) || (* ctx->scanner) == '.' )
+		else if ( char_is_digit(lexer_current(ctx)) || lexer_current(ctx) == '.' )
 		{
 			// This is a very brute force lex, no checks are done for validity of literal.
 			// As in C++ a number goes on with digits, letters, '.', exponents with a sign and single quotes between digits.
@@ -1283,7 +1296,7 @@ TokArray lex( Str content )
 			}
 
 			StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
-			log_failure( "Failed to lex token '%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
+			log_failure( "Failed to lex token '%c' (%d, %d)\n%s", lexer_current(ctx), c.line, c.column, context_str );
 
 			// Skip to next whitespace since we can't know if anything else is valid until then.
 			while ( c.left && ! char_is_space( (* ctx->scanner) ) ) {
@@ -1299,11 +1312,11 @@ TokArray lex( Str content )
 			{
 				Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 				c.token = thanks_c;
-				if ( (* ctx->scanner) == '\r') {
+				if ( lexer_current(ctx) == '\r') {
 					move_forward();
 					c.token.Text.Len = 1;
 				}
-				if ( (* ctx->scanner) == '\n' ) 
+				if ( lexer_current(ctx) == '\n' ) 
 				{
 					c.token.Type = Tok_NewLine;
 					c.token.Text.Len++;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index afdbe50..56071d8 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -38,7 +38,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	while ( current < array_back( ctx.Tokens.Arr)->Text.Ptr + array_back( ctx.Tokens.Arr)->Text.Len && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -184,6 +184,12 @@ bool _check_parse_args( Str def, char const* func_name )
 
 #pragma endregion Helper Macros
 
+// The character of a token's text, or null past its end (the last token, and the content of a directive, may have none).
+forceinline
+char tok_char( Token tok, ssize idx ) {
+	return idx < tok.Text.Len ? tok.Text.Ptr[idx] : '\0';
+}
+
 // Procedure Forwards ( Entire parser internal parser interface )
 
 internal Code               parse_array_decl                   ();
@@ -499,7 +505,7 @@ Code parse_array_decl()
 {
 	push_scope();
 
-	if ( check( Tok_Operator ) && currtok.Text.Ptr[0] == '[' && currtok.Text.Ptr[1] == ']' )
+	if ( check( Tok_Operator ) && tok_char(currtok, 0) == '[' && tok_char(currtok, 1) == ']' )
 	{
 		Code array_expr = untyped_str( txt(" ") );
 		eat( Tok_Operator );
@@ -1079,7 +1085,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 						attributes = more_attributes;
 				}
 
-				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
+				if ( currtok.Type == Tok_Operator && tok_char(currtok, 0) == '~' )
 				{
 					member = cast(Code, parser_parse_destructor( specifiers ));
 					// <Attribute> <Specifiers> ~<Name>()
@@ -1471,7 +1477,7 @@ CodeFn parse_function_after_name(
 		}
 		// <Attributes> <Specifiers> <ReturnType> <Name> ( <Paraemters> ) <Specifiers> { <Body> }
 	}
-	else if ( check(Tok_Operator) && currtok.Text.Ptr[0] == '=' )
+	else if ( check(Tok_Operator) && tok_char(currtok, 0) == '=' )
 	{
 		eat(Tok_Operator);
 		if ( specifiers == nullptr )
@@ -1953,19 +1959,19 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	Token nav = tokens.Arr[ idx ];
 	for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[ idx ] )
 	{
-		if ( nav.Text.Ptr[0] == '<' )
+		if ( tok_char(nav, 0) == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
 			s32 template_level = 0;
 			for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[idx] )
 			{
-				if (nav.Text.Ptr[ 0 ] == '<')
+				if (tok_char(nav, 0) == '<')
 					++ template_level;
 
-				if (nav.Text.Ptr[ 0 ] == '>')
+				if (tok_char(nav, 0) == '>')
 					-- template_level;
-				if (nav.Type == Tok_Operator && nav.Text.Ptr[1] == '>')
+				if (nav.Type == Tok_Operator && tok_char(nav, 1) == '>')
 					-- template_level;
 
 				if ( nav.Type == Tok_Paren_Open)
@@ -2004,7 +2010,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	// <Attributes> <Specifiers> ... <Identifier>
 
 	bool possible_destructor = false;
-	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~')
+	if ( tok_left.Type == Tok_Operator && tok_char(tok_left, 0) == '~')
 	{
 		possible_destructor = true;
 		-- idx;
@@ -2023,12 +2029,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	s32 template_level = 0;
 	while ( idx > tokens.Idx )
 	{
-		if (tok_left.Text.Ptr[ 0 ] == '<')
+		if (tok_char(tok_left, 0) == '<')
 			++ template_level;
 
-		if (tok_left.Text.Ptr[ 0 ] == '>')
+		if (tok_char(tok_left, 0) == '>')
 			-- template_level;
-		if (tok_left.Type == Tok_Operator && tok_left.Text.Ptr[1] == '>')
+		if (tok_left.Type == Tok_Operator && tok_char(tok_left, 1) == '>')
 			-- template_level;
 
 		if ( template_level != 0 && tok_left.Type == Tok_Paren_Open)
@@ -2098,7 +2104,7 @@ Token parse_identifier( bool* possible_member_function )
 			return invalid;
 		}
 
-		if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
+		if ( currtok.Type == Tok_Operator && tok_char(currtok, 0) == '~' )
 		{
 			bool is_destructor = str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_destructor"));
 			if (is_destructor)
@@ -2113,7 +2119,7 @@ Token parse_identifier( bool* possible_member_function )
 			return invalid;
 		}
 
-		if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '*' && currtok.Text.Len == 1 )
+		if ( currtok.Type == Tok_Operator && tok_char(currtok, 0) == '*' && currtok.Text.Len == 1 )
 		{
 			if ( possible_member_function )
 				*possible_member_function = true;
@@ -2217,14 +2223,14 @@ CodeOperator parse_operator_after_ret_type(
 	bool was_new_or_delete = false;
 
 	Operator op = Op_Invalid;
-	switch ( currtok.Text.Ptr[0] )
+	switch ( tok_char(currtok, 0) )
 	{
 		case '+':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_Add;
 
-			else if ( currtok.Text.Ptr[1] == '+' )
+			else if ( tok_char(currtok, 1) == '+' )
 				op = Op_Increment;
 
 			else
@@ -2233,9 +2239,9 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '-':
 		{
-			if ( currtok.Text.Ptr[1] == '>' )
+			if ( tok_char(currtok, 1) == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '*' )
+				if ( tok_char(currtok, 2) == '*' )
 					op = Op_PtrToMemOfPtr;
 
 				else
@@ -2244,10 +2250,10 @@ CodeOperator parse_operator_after_ret_type(
 				break;
 			}
 
-			else if ( currtok.Text.Ptr[1] == '=' )
+			else if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_Subtract;
 
-			else if ( currtok.Text.Ptr[1] == '-' )
+			else if ( tok_char(currtok, 1) == '-' )
 				op = Op_Decrement;
 
 			else
@@ -2256,7 +2262,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '*':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_Multiply;
 
 			else
@@ -2278,7 +2284,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '/':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_Divide;
 
 			else
@@ -2287,7 +2293,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '%':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_Modulo;
 
 			else
@@ -2296,10 +2302,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '&':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_BAnd;
 
-			else if ( currtok.Text.Ptr[1] == '&' )
+			else if ( tok_char(currtok, 1) == '&' )
 				op = Op_LAnd;
 
 			else
@@ -2313,10 +2319,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '|':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_BOr;
 
-			else if ( currtok.Text.Ptr[1] == '|' )
+			else if ( tok_char(currtok, 1) == '|' )
 				op = Op_LOr;
 
 			else
@@ -2325,7 +2331,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '^':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_Assign_BXOr;
 
 			else
@@ -2339,7 +2345,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '!':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_LNot;
 
 			else
@@ -2348,7 +2354,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '=':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_LEqual;
 
 			else
@@ -2357,12 +2363,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '<':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_LesserEqual;
 
-			else if ( currtok.Text.Ptr[1] == '<' )
+			else if ( tok_char(currtok, 1) == '<' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( tok_char(currtok, 2) == '=' )
 					op = Op_Assign_LShift;
 
 				else
@@ -2374,12 +2380,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '>':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( tok_char(currtok, 1) == '=' )
 				op = Op_GreaterEqual;
 
-			else if ( currtok.Text.Ptr[1] == '>' )
+			else if ( tok_char(currtok, 1) == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( tok_char(currtok, 2) == '=' )
 					op = Op_Assign_RShift;
 
 				else
@@ -2407,7 +2413,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '[':
 		{
-			if ( currtok.Text.Ptr[1] == ']' )
+			if ( tok_char(currtok, 1) == ']' )
 				op = Op_Subscript;
 
 			else if ( nexttok.Type == Tok_BraceSquare_Close )
@@ -2526,7 +2532,7 @@ CodeOperator parse_operator_after_ret_type(
 		
 	// TODO(Ed): Add proper "delete" and "new" awareness
 	// We're dealing with either a "= delete" or operator deletion
-	if (check(Tok_Operator) && currtok.Text.Ptr[0] == '=')
+	if (check(Tok_Operator) && tok_char(currtok, 0) == '=')
 	{
 		eat(currtok.Type);
 		Specifier spec = str_are_equal(currtok.Text, txt("delete")) ? Spec_Delete : str_are_equal(currtok.Text, txt("0")) ? Spec_Pure : Spec_Invalid;
@@ -2790,7 +2796,7 @@ CodeParams parse_params( bool use_template_capture )
 		// (
 	}
 	else {
-		if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '<' )
+		if ( check( Tok_Operator ) && tok_char(currtok, 0) == '<' )
 			eat( Tok_Operator );
 			// <
 	}
@@ -2802,7 +2808,7 @@ CodeParams parse_params( bool use_template_capture )
 		parser_pop(& _ctx->parser);
 		return NullCode;
 	}
-	else if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '>' ) 
+	else if ( check( Tok_Operator ) && tok_char(currtok, 0) == '>' ) 
 	{
 		eat( Tok_Operator );
 		// >
@@ -2828,7 +2834,7 @@ CodeParams parse_params( bool use_template_capture )
 	}
 
 	#define CheckEndParams() \
-		(use_template_capture ? (currtok.Text.Ptr[ 0 ] != '>') : (currtok.Type != Tok_Paren_Close))
+		(use_template_capture ? (tok_char(currtok, 0) != '>') : (currtok.Type != Tok_Paren_Close))
 
 	// TODO(Ed): Use expression macros or this? macro as attribute?
 	// Ex: Unreal has this type of macro:                 vvvvvvvvv
@@ -2892,12 +2898,12 @@ CodeParams parse_params( bool use_template_capture )
 			s32 template_level = 0;
 			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 			{
-				if (currtok.Text.Ptr[ 0 ] == '<')
+				if (tok_char(currtok, 0) == '<')
 					++ template_level;
 
-				if (currtok.Text.Ptr[ 0 ] == '>')
+				if (tok_char(currtok, 0) == '>')
 					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+				if (currtok.Type == Tok_Operator && tok_char(currtok, 1) == '>')
 					-- template_level;
 
 				if ( currtok.Type == Tok_Paren_Open)
@@ -3014,12 +3020,12 @@ CodeParams parse_params( bool use_template_capture )
 				&& template_level >= 0
 				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 				{
-					if (currtok.Text.Ptr[ 0 ] == '<')
+					if (tok_char(currtok, 0) == '<')
 						++ template_level;
 
-					if (currtok.Text.Ptr[ 0 ] == '>')
+					if (tok_char(currtok, 0) == '>')
 						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+					if (currtok.Type == Tok_Operator && tok_char(currtok, 1) == '>')
 						-- template_level;
 
 					if ( currtok.Type == Tok_Paren_Open)
@@ -3062,7 +3068,7 @@ CodeParams parse_params( bool use_template_capture )
 	}
 	else
 	{
-		if ( ! check( Tok_Operator ) || currtok.Text.Ptr[ 0 ] != '>' ) {
+		if ( ! check( Tok_Operator ) || tok_char(currtok, 0) != '>' ) {
 			log_failure( "Expected '<' after 'template' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -3294,20 +3300,20 @@ Code parse_static_assert()
 internal inline
 void parse_template_args( Token* token )
 {
-	if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[ 0 ] == '<' && currtok.Text.Len == 1 )
+	if ( currtok.Type == Tok_Operator && tok_char(currtok, 0) == '<' && currtok.Text.Len == 1 )
 	{
 		eat( Tok_Operator );
 		// <
 
 		s32 level = 0;
-		while ( left && level >= 0 && ( currtok.Text.Ptr[ 0 ] != '>' || level > 0 ) )
+		while ( left && level >= 0 && ( tok_char(currtok, 0) != '>' || level > 0 ) )
 		{
-			if ( currtok.Text.Ptr[ 0 ] == '<' )
+			if ( tok_char(currtok, 0) == '<' )
 				level++;
 
-			if ( currtok.Text.Ptr[ 0 ] == '>' )
+			if ( tok_char(currtok, 0) == '>' )
 				level--;
-			if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+			if ( currtok.Type == Tok_Operator && tok_char(currtok, 1) == '>')
 				level--;
 
 			eat( currtok.Type );
@@ -3630,7 +3636,7 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		// <Name> ( <Parameters> ) { <Body> }
 	}
 	// TODO(Ed): Add support for detecting constructor deletion
-	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
+	else if ( check( Tok_Operator) && tok_char(currtok, 0) == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
 		// <Name> ( <Parameters> ) = <default, delete>
@@ -3782,7 +3788,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	if (is_in_global_nspace)
 		prefix_identifier = parse_identifier(nullptr);
 
-	if ( left && currtok.Text.Ptr[ 0 ] == '~' )
+	if ( left && tok_char(currtok, 0) == '~' )
 		eat( Tok_Operator );
 	else
 	{
@@ -3803,13 +3809,13 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 	bool pure_virtual = false;
 
-	if ( check( Tok_Operator ) && currtok.Text.Ptr[ 0 ] == '=' )
+	if ( check( Tok_Operator ) && tok_char(currtok, 0) == '=' )
 	{
 		// <Virtual Specifier> ~<Name>() =
 
 		bool skip_formatting = true;
 		Token upcoming = nexttok;
-		if ( left && upcoming.Text.Ptr[ 0 ] == '0' )
+		if ( left && tok_char(upcoming, 0) == '0' )
 		{
 			eat( Tok_Operator );
 			eat( Tok_Number );
@@ -4018,7 +4024,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 					eat( Tok_Identifier);
 					// <Name>
 
-					if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '=' )
+					if ( currtok.Type == Tok_Operator && tok_char(currtok, 0) == '=' )
 					{
 						eat( Tok_Operator );
 						// <Name> =
-- 
2.43.0


From ed2f8e1c077fe955d4332c966be00c28ac148e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 148/158] fix: a constructor, operator new or delete and a
 default are told by the whole of their name

---
 base/components/parser.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 56071d8..297e6c9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1114,7 +1114,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( c_str_compare_len( name.Text.Ptr, currtok.Text.Ptr, name.Text.Len ) == 0 )
+					if ( str_are_equal( name.Text, currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
@@ -2050,7 +2050,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		tok_left = tokens.Arr[idx];
 	}
 
-	bool is_same = c_str_compare_len( tok_right.Text.Ptr, tok_left.Text.Ptr, tok_right.Text.Len ) == 0;
+	bool is_same = str_are_equal( tok_right.Text, tok_left.Text );
 	if (tok_left.Type == Tok_Identifier && is_same)
 	{
 		// We have found the pattern we desired
@@ -2429,7 +2429,7 @@ CodeOperator parse_operator_after_ret_type(
 		{
 			Str c_str_new    = operator_to_str(Op_New);
 			Str c_str_delete = operator_to_str(Op_Delete);
-			if ( c_str_compare_len( currtok.Text.Ptr, c_str_new.Ptr, max(c_str_new.Len - 1, currtok.Text.Len)) == 0)
+			if ( check( Tok_Identifier ) && str_are_equal( currtok.Text, c_str_new ))
 			{
 				op = Op_New;
 				eat( Tok_Identifier );
@@ -2441,7 +2441,7 @@ CodeOperator parse_operator_after_ret_type(
 						idx++;
 				}
 				Token next = _ctx->parser.Tokens.Arr[idx];
-				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
+				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
 					op = Op_NewArray;
@@ -2453,7 +2453,7 @@ CodeOperator parse_operator_after_ret_type(
 					op = Op_NewArray;
 				}
 			}
-			else if ( c_str_compare_len( currtok.Text.Ptr, c_str_delete.Ptr, max(c_str_delete.Len - 1, currtok.Text.Len )) == 0)
+			else if ( check( Tok_Identifier ) && str_are_equal( currtok.Text, c_str_delete ))
 			{
 				op = Op_Delete;
 				eat(Tok_Identifier);
@@ -2465,7 +2465,7 @@ CodeOperator parse_operator_after_ret_type(
 						idx++;
 				}
 				Token next = _ctx->parser.Tokens.Arr[idx];
-				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
+				if ( currtok.Type == Tok_Operator && str_are_equal( currtok.Text, txt("[]") ))
 				{
 					eat(Tok_Operator);
 					op = Op_DeleteArray;
@@ -3815,7 +3815,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 		bool skip_formatting = true;
 		Token upcoming = nexttok;
-		if ( left && tok_char(upcoming, 0) == '0' )
+		if ( left && specifiers && tok_char(upcoming, 0) == '0' )
 		{
 			eat( Tok_Operator );
 			eat( Tok_Number );
@@ -3823,7 +3823,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 
 			specifiers_append(specifiers, Spec_Pure );
 		}
-		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
+		else if ( left && str_are_equal( upcoming.Text, txt("default") )) 
 		{
 			body = cast(CodeBody, parse_assignment_expression());
 			// <Virtual Specifier> ~<
-- 
2.43.0


From aa31fe498354a2b9a2750dd9521d6e02c480b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 149/158] fix: an initializer ends with its own statement, and
 a bit field's width does not take what follows

---
 base/components/parser.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 297e6c9..5efa28a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1372,18 +1372,19 @@ Code parse_assignment_expression()
 		return InvalidCode;
 	}
 
+	// A lambda has statements of its own
 	s32 level = 0;
-	while ( left && currtok.Type != Tok_Statement_End && (currtok.Type != Tok_Comma || level > 0) )
+	while ( left && ((currtok.Type != Tok_Statement_End && currtok.Type != Tok_Comma) || level > 0) )
 	{
-		if (currtok.Type == Tok_BraceCurly_Open )
+		if (currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceSquare_Open )
 			level++;
-		if (currtok.Type == Tok_BraceCurly_Close )
-			level--;
-		if (currtok.Type == Tok_Paren_Open)
-			level++;
-		else if (currtok.Type == Tok_Paren_Close)
+		else if (currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceSquare_Close )
 			level--;
 
+		// Closes what the expression is part of
+		if ( level < 0 )
+			break;
+
 		eat( currtok.Type );
 	}
 
@@ -3424,7 +3425,14 @@ CodeVar parse_variable_after_name(
 			return InvalidCode;
 		}
 
-		while ( left && currtok.Type != Tok_Statement_End ) {
+		s32 level = 0;
+		while ( left && level >= 0 && ( currtok.Type != Tok_Statement_End || level > 0 ) )
+		{
+			if ( currtok.Type == Tok_BraceCurly_Open )
+				level++;
+			else if ( currtok.Type == Tok_BraceCurly_Close && -- level < 0 )
+				break;
+
 			eat( currtok.Type );
 		}
 
-- 
2.43.0


From de5fa4af1f4dfd234e67d43232db7b7c3b2837de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 150/158] fix: upper and lower case conversions touch only what
 was printed

---
 base/dependencies/printing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index f980e47..2a5e11f 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -105,10 +105,14 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 
 	if ( info )
 	{
-		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
-		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+		// Only what was printed, it is not terminated yet.
+		for ( ssize idx = 0; idx < res; idx++ )
+		{
+			if ( info->flags & GEN_FMT_UPPER )
+				begin[idx] = char_to_upper( begin[idx] );
+			else if ( info->flags & GEN_FMT_LOWER )
+				begin[idx] = char_to_lower( begin[idx] );
+		}
 	}
 
 	return res;
-- 
2.43.0


From 48a3fd9763bea3ae9a60514c9372dc7fe93cedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:44 +0000
Subject: [PATCH 151/158] fix: class_to_strbuilder and the interfaces are also
 members of a CodeClass

---
 base/components/code_types.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index bbf885b..e4a0ccf 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -187,10 +187,10 @@ struct CodeClass
 {
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeClass );
-	forceinline void       add_interface( CodeType interface );
-	forceinline StrBuilder to_strbuilder();
-	forceinline void       to_strbuilder_def( StrBuilder& result );
-	forceinline void       to_strbuilder_fwd( StrBuilder& result );
+	forceinline void       add_interface( CodeTypename interface );
+	forceinline StrBuilder to_strbuilder()                         { return class_to_strbuilder(* this); }
+	forceinline void       to_strbuilder_def( StrBuilder& result ) { return class_to_strbuilder_def(* this, & result); }
+	forceinline void       to_strbuilder_fwd( StrBuilder& result ) { return class_to_strbuilder_fwd(* this, & result); }
 #endif
 	Using_CodeOps( CodeClass );
 	forceinline operator Code() { return * rcast( Code*, this ); }
@@ -961,6 +961,10 @@ struct CodeStruct
 	AST_Struct* ast;
 };
 
+#if ! GEN_C_LIKE_CPP
+forceinline void CodeClass::add_interface( CodeTypename interface ) { return class_add_interface(* this, interface); }
+#endif
+
 #undef Define_CodeType
 #undef Using_Code
 #undef Using_CodeOps
-- 
2.43.0


From e3e5950330ebf5c3080ea3bcf7dc82218f31ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:44 +0000
Subject: [PATCH 152/158] fix: code_validate_body looks at every entry and
 accepts valid bodies

---
 base/components/ast.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 7d9a604..d1492bf 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1216,7 +1216,7 @@ bool code_validate_body(Code self)
 		case CT_Class_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1230,9 +1230,9 @@ bool code_validate_body(Code self)
 		case CT_Enum_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in enum body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1243,7 +1243,7 @@ bool code_validate_body(Code self)
 		case CT_Export_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1254,10 +1254,10 @@ bool code_validate_body(Code self)
 			}
 		}
 		break;
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1271,7 +1271,7 @@ bool code_validate_body(Code self)
 		case CT_Function_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1285,7 +1285,7 @@ bool code_validate_body(Code self)
 		case CT_Global_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )switch (entry->Type)
 			{
 				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1296,7 +1296,7 @@ bool code_validate_body(Code self)
 		case CT_Namespace_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1307,7 +1307,7 @@ bool code_validate_body(Code self)
 		case CT_Struct_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1318,9 +1318,9 @@ bool code_validate_body(Code self)
 		case CT_Union_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in union body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1333,5 +1333,5 @@ bool code_validate_body(Code self)
 			log_failure( "AST::validate_body: Invalid this AST does not have a body %S", code_debug_str(self) );
 			return false;
 	}
-	return false;
+	return true;
 }
-- 
2.43.0


From d17790b17f65b8bb5a7675379546451da6bfde3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:53 +0000
Subject: [PATCH 153/158] fix: members and overloads of the containers name the
 operations they stand for

---
 base/dependencies/containers.hpp | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index d441f9c..475e7cc 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -68,7 +68,7 @@ struct Array
 #pragma region Member Mapping
 	forceinline static Array  init(AllocatorInfo allocator)                         { return array_init<Type>(allocator); }
 	forceinline static Array  init_reserve(AllocatorInfo allocator, ssize capacity) { return array_init_reserve<Type>(allocator, capacity); }
-	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula<Type>(value); }
+	forceinline static usize  grow_formula(ssize value)                             { return array_grow_formula(value); }
 
 	forceinline bool         append(Array other)                               { return array_append_array<Type>(this, other); }
 	forceinline bool         append(Type value)                                { return array_append<Type>(this, value); }
@@ -497,18 +497,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
@@ -516,11 +516,11 @@ struct HashTable
 };
 
 #if GEN_SUPPORT_CPP_REFERENCES
-template<class Type> void  destroy  (HashTable<Type>& table)                      { destroy(& table); }
-template<class Type> void  grow     (HashTable<Type>& table)                      { grow(& table); }
-template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { rehash(& table, new_num); }
-template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { set(& table, key, value); }
-template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { add_entry(& table, key); }
+template<class Type> void  destroy  (HashTable<Type>& table)                      { hashtable_destroy<Type>(& table); }
+template<class Type> void  grow     (HashTable<Type>& table)                      { hashtable_grow<Type>(& table); }
+template<class Type> void  rehash   (HashTable<Type>& table, ssize new_num)       { hashtable_rehash<Type>(& table, new_num); }
+template<class Type> void  set      (HashTable<Type>& table, u64 key, Type value) { hashtable_set<Type>(& table, key, value); }
+template<class Type> ssize add_entry(HashTable<Type>& table, u64 key)             { return hashtable__add_entry<Type>(& table, key); }
 #endif
 
 template<typename Type> inline
-- 
2.43.0


From e8b55c5b8d99940f413c57e97406b130aac02f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:53 +0000
Subject: [PATCH 154/158] fix: member and overloads of the fixed arena give
 their result

---
 base/dependencies/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index eaad19d..e6841fe 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -321,8 +321,8 @@ template<s32 Size> ssize            fixed_arena_size_remaining(FixedArena<Size>*
 template<s32 Size> void             fixed_arena_free(FixedArena<Size>* fixed_arena);
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return allocator_info(& fixed_arena); }
-template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return size_remaining( & fixed_arena, alignment); }
+template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return fixed_arena_allocator_info(& fixed_arena); }
+template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return fixed_arena_size_remaining( & fixed_arena, alignment); }
 #endif
 
 // Just a wrapper around using an arena with memory associated with its scope instead of from an allocator.
@@ -338,7 +338,7 @@ struct FixedArena
 	forceinline operator AllocatorInfo() { return fixed_arena_allocator_info(this); }
 
 	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(result); return result; }
-	forceinline ssize             size_remaining(ssize alignment) { fixed_arena_size_remaining(this, alignment); }
+	forceinline ssize             size_remaining(ssize alignment) { return fixed_arena_size_remaining(this, alignment); }
 #pragma endregion Member Mapping
 #endif
 };
@@ -362,7 +362,7 @@ void fixed_arena_free(FixedArena<Size>* fixed_arena) {
 
 template<s32 Size> inline
 ssize fixed_arena_size_remaining(FixedArena<Size>* fixed_arena, ssize alignment) {
-    return size_remaining(fixed_arena->arena, alignment);
+    return arena_size_remaining(& fixed_arena->arena, alignment);
 }
 
 using FixedArena_1KB   = FixedArena< kilobytes( 1 ) >;
-- 
2.43.0


From 11db94b323002d1759318b4d0f8d56c764a7434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:26 +0000
Subject: [PATCH 155/158] fix: heap blocks keep their alignment under
 GEN_HEAP_ANALYSIS

---
 base/dependencies/memory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 7e443fa..93f0e0c 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -98,8 +98,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 
 #ifdef GEN_HEAP_ANALYSIS
 	ssize alloc_info_size      = size_of( _heap_alloc_info );
-	ssize alloc_info_remainder = ( alloc_info_size % alignment );
-	ssize track_size           = max( alloc_info_size, alignment ) + alloc_info_remainder;
+	ssize track_size           = max( alloc_info_size, alignment );
 	switch ( type )
 	{
 		case EAllocation_FREE :
@@ -197,7 +196,7 @@ void* heap_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 #ifdef GEN_HEAP_ANALYSIS
 	if ( type == EAllocation_ALLOC )
 	{
-		_heap_alloc_info* alloc_info = rcast( _heap_alloc_info*, rcast( char*, ptr) + alloc_info_remainder );
+		_heap_alloc_info* alloc_info = rcast( _heap_alloc_info*, rcast( char*, ptr) + ( track_size - alloc_info_size ) );
 		zero_item( alloc_info );
 		alloc_info->size              = size - track_size;
 		alloc_info->physical_start    = ptr;
-- 
2.43.0


From c93598572673581a7a5a0c5726f90aa93fdcea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 156/158] fix: a variable whose type is defined in place is
 serialised with that definition

---
 base/components/code_serialization.cpp | 8 ++++----
 base/components/parser.cpp             | 7 +++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 0f3720a..54ab922 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1292,9 +1292,9 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		if ( self->Specs )
 			strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
 
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(cast(Code, self->ValueType)), self->Name );
 
-		if ( self->ValueType && self->ValueType->ArrExpr )
+		if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 		{
 			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1331,7 +1331,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->BitfieldSize )
 		strbuilder_append_fmt( result, "%SB %S : %SB", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
 
-	else if ( self->ValueType && self->ValueType->ArrExpr )
+	else if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 	{
 		strbuilder_append_fmt( result, "%SB %S[ %SB ]", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1344,7 +1344,7 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	}
 
 	else
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(cast(Code, self->ValueType)), self->Name );
 
 	if ( self->Value )
 	{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5efa28a..632d764 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1263,12 +1263,19 @@ Code parse_complicated_definition( TokType which )
 			is_inplace  = true;
 
 			CodeTypename type = cast(CodeTypename, parse_forward_or_definition(which, is_inplace));
+			if ( cast(Code, type) == Code_Invalid ) {
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 
 			// Should be a name right after the type.
 			Token name = parse_identifier(nullptr);
 			_ctx->parser.Scope->Name = name.Text;
 
 			CodeVar result = parse_variable_after_name(ModuleFlag_None, NullCode, NullCode, type, name.Text);
+			// What is defined in place is not a declaration of its own.
+			if ( cast(Code, result) != Code_Invalid )
+				cast(Code, type)->Parent = cast(Code, result);
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-- 
2.43.0


From 94ea223e57b2cecf6ed71ea19d77150a12a96f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:54 +0000
Subject: [PATCH 157/158] fix: an exported using directive keeps its export in
 the text

---
 base/components/inlines.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 02199fe..f26c607 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -298,6 +298,9 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
+	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
+		strbuilder_append_str( result, txt("export ") );
+
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
-- 
2.43.0


From 0aa03ee1484fcf8fbfca41edbeec188fb4045673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:17 +0000
Subject: [PATCH 158/158] fix: a bit field whose expression is missing before
 the body's end is refused

---
 base/components/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 632d764..6f30bb0 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3426,7 +3426,7 @@ CodeVar parse_variable_after_name(
 
 		Token expr_tok = currtok;
 
-		if ( ! left || currtok.Type == Tok_Statement_End ) {
+		if ( ! left || currtok.Type == Tok_Statement_End || currtok.Type == Tok_BraceCurly_Close ) {
 			log_failure( "Expected expression after bitfield \n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
-- 
2.43.0

