From c6d4b85150891ea67178d3eca68267ecc9e3319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 01/96] fix: array_append_items copied over the Array handle
 instead of the array's data

---
 base/dependencies/containers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 6418ce5..b425c79 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -189,7 +189,7 @@ bool array_append_items(Array<Type>* array, Type* items, usize item_num)
 		header = array_get_header(* array);
 	}
 
-	mem_copy((Type*)array + header->Num, items, item_num * sizeof(Type));
+	mem_copy(array->Data + header->Num, items, item_num * sizeof(Type));
 	header->Num += item_num;
 
 	return true;
-- 
2.43.0


From 8167cd88de58fe9c9c84c1f3942c5d9df27d2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 02/96] fix: array_append_at made room for the item but never
 stored it

---
 base/dependencies/containers.hpp              | 6 ++----
 gen_c_library/components/containers.array.hpp | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index b425c79..b7798f8 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -204,10 +204,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 
 	ssize slot = idx;
 	if (slot >= (ssize)(header->Num))
-		slot = header->Num - 1;
-
-	if (slot < 0)
-		slot = 0;
+		slot = header->Num;
 
 	if (header->Capacity < header->Num + 1)
 	{
@@ -220,6 +217,7 @@ bool array_append_at(Array<Type>* array, Type item, usize idx)
 	Type* target = &(*array)[slot];
 
 	mem_move(target + 1, target, (header->Num - slot) * sizeof(Type));
+	* target = item;
 	header->Num++;
 
 	return true;
diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index a7314b6..87d4f61 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -160,10 +160,7 @@ CodeBody gen_array( Str type, Str array_name )
 			ArrayHeader* header = array_get_header( * self );
 
 			if ( idx >= header->Num )
-				idx = header->Num - 1;
-
-			if ( idx < 0 )
-				idx = 0;
+				idx = header->Num;
 
 			if ( header->Capacity < header->Num + 1 )
 			{
@@ -176,6 +173,7 @@ CodeBody gen_array( Str type, Str array_name )
 			<array_type> target = (* self) + idx;
 
 			mem_move( target + 1, target, (header->Num - idx) * sizeof(<type>) );
+			* target = item;
 			header->Num++;
 
 			return true;
-- 
2.43.0


From dda4e0ff03eb0c4f3ca6fa0a77f045bd149fdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/96] fix: array_append_items_at did not compile and grew
 only when the items alone exceeded the capacity

---
 base/dependencies/containers.hpp              | 12 ++++++------
 gen_c_library/components/containers.array.hpp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index b7798f8..3bed53d 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -228,23 +228,23 @@ bool array_append_items_at(Array<Type>* array, Type* items, usize item_num, usiz
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (idx >= header->Num)
 	{
 		return array_append_items(array, items, item_num);
 	}
 
-	if (item_num > header->Capacity)
+	if (header->Num + item_num > header->Capacity)
 	{
-		if (! grow(array, header->Capacity + item_num))
+		if (! array_grow(array, header->Capacity + item_num))
 			return false;
 
-		header = get_header(array);
+		header = array_get_header(* array);
 	}
 
-	Type* target = array.Data + idx + item_num;
-	Type* src    = array.Data + idx;
+	Type* target = array->Data + idx + item_num;
+	Type* src    = array->Data + idx;
 
 	mem_move(target, src, (header->Num - idx) * sizeof(Type));
 	mem_copy(src, items, item_num * sizeof(Type));
diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index 87d4f61..cd531ec 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -191,7 +191,7 @@ CodeBody gen_array( Str type, Str array_name )
 				return array_append_items( * self, items, item_num );
 			}
 
-			if ( item_num > header->Capacity )
+			if ( header->Num + item_num > header->Capacity )
 			{
 				if ( ! array_grow( self, item_num + header->Capacity ) )
 					return false;
-- 
2.43.0


From e1098e267ca1243702eede93434ed949127a6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 04/96] fix: array_reserve did not compile when instantiated

---
 base/dependencies/containers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index 3bed53d..e958141 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -353,10 +353,10 @@ bool array_reserve(Array<Type>* array, usize new_capacity)
 {
 	GEN_ASSERT(  array != nullptr);
 	GEN_ASSERT(* array != nullptr);
-	ArrayHeader* header = array_get_header(array);
+	ArrayHeader* header = array_get_header(* array);
 
 	if (header->Capacity < new_capacity)
-		return set_capacity(array, new_capacity);
+		return array_set_capacity(array, new_capacity);
 
 	return true;
 }
-- 
2.43.0


From 57ce0bc78f10380785fbda42adf3a85d9fea3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/96] fix: HashTable remove, rehash_fast, map, slot and the
 member functions did not compile when instantiated

---
 base/dependencies/containers.hpp | 48 ++++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/base/dependencies/containers.hpp b/base/dependencies/containers.hpp
index e958141..91afab3 100644
--- a/base/dependencies/containers.hpp
+++ b/base/dependencies/containers.hpp
@@ -494,18 +494,18 @@ struct HashTable
 	forceinline static HashTable init(AllocatorInfo allocator)                    { return	hashtable_init<Type>(allocator); }
 	forceinline static HashTable init_reserve(AllocatorInfo allocator, usize num) { return	hashtable_init_reserve<Type>(allocator, num); }
 
-	forceinline void  clear()                           {        clear<Type>(*this); }
-	forceinline void  destroy()                         {        destroy<Type>(*this); }
-	forceinline Type* get(u64 key)                      { return get<Type>(*this, key); }
-	forceinline void  grow()                            {        grow<Type>(*this); }
-	forceinline void  rehash(ssize new_num)             {        rehash<Type>(*this, new_num); }
-	forceinline void  rehash_fast()                     {        rehash_fast<Type>(*this); }
-	forceinline void  remove(u64 key)                   {        remove<Type>(*this, key); }
-	forceinline void  remove_entry(ssize idx)           {        remove_entry<Type>(*this, idx); }
-	forceinline void  set(u64 key, Type value)          {        set<Type>(*this, key, value); }
-	forceinline ssize slot(u64 key)                     { return slot<Type>(*this, key); }
-	forceinline void  map(void (*proc)(u64, Type))      {        map<Type>(*this, proc); }
-	forceinline void  map_mut(void (*proc)(u64, Type*)) {        map_mut<Type>(*this, proc); }
+	forceinline void  clear()                           {        hashtable_clear<Type>(*this); }
+	forceinline void  destroy()                         {        hashtable_destroy<Type>(this); }
+	forceinline Type* get(u64 key)                      { return hashtable_get<Type>(*this, key); }
+	forceinline void  grow()                            {        hashtable_grow<Type>(this); }
+	forceinline void  rehash(ssize new_num)             {        hashtable_rehash<Type>(this, new_num); }
+	forceinline void  rehash_fast()                     {        hashtable_rehash_fast<Type>(*this); }
+	forceinline void  remove(u64 key)                   {        hashtable_remove<Type>(*this, key); }
+	forceinline void  remove_entry(ssize idx)           {        hashtable_remove_entry<Type>(*this, idx); }
+	forceinline void  set(u64 key, Type value)          {        hashtable_set<Type>(this, key, value); }
+	forceinline ssize slot(u64 key)                     { return hashtable_slot<Type>(*this, key); }
+	forceinline void  map(void (*proc)(u64, Type))      {        hashtable_map<Type>(*this, proc); }
+	forceinline void  map_mut(void (*proc)(u64, Type*)) {        hashtable_map_mut<Type>(*this, proc); }
 #pragma endregion Member Mapping
 #endif
 
@@ -575,7 +575,7 @@ void hashtable_map(HashTable<Type> table, void (*map_proc)(u64 key, Type value))
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, table.Entries[idx].Value);
 	}
 }
@@ -586,7 +586,7 @@ void hashtable_map_mut(HashTable<Type> table, void (*map_proc)(u64 key, Type* va
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	GEN_ASSERT_NOT_NULL(map_proc);
 
-	for (ssize idx = 0; idx < ssize(num(table.Entries)); ++idx) {
+	for (ssize idx = 0; idx < ssize(array_num(table.Entries)); ++idx) {
 		map_proc(table.Entries[idx].Key, & table.Entries[idx].Value);
 	}
 }
@@ -637,19 +637,19 @@ void hashtable_rehash_fast(HashTable<Type> table)
 	GEN_ASSERT_NOT_NULL(table.Entries);
 	ssize idx;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 		table.Entries[idx].Next = -1;
 
-	for (idx = 0; idx < ssize(num(table.Hashes)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Hashes)); idx++)
 		table.Hashes[idx] = -1;
 
-	for (idx = 0; idx < ssize(num(table.Entries)); idx++)
+	for (idx = 0; idx < ssize(array_num(table.Entries)); idx++)
 	{
 		HashTableEntry<Type>* entry;
 		HashTableFindResult find_result;
 
 		entry = &table.Entries[idx];
-		find_result = find(table, entry->Key);
+		find_result = hashtable__find(table, entry->Key);
 
 		if (find_result.PrevIndex < 0)
 			table.Hashes[find_result.HashIndex] = idx;
@@ -662,11 +662,11 @@ template<typename Type> forceinline
 void hashtable_remove(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	HashTableFindResult find_result = find(table, key);
+	HashTableFindResult find_result = hashtable__find(table, key);
 
 	if (find_result.EntryIndex >= 0) {
-		remove_at(table.Entries, find_result.EntryIndex);
-		rehash_fast(table);
+		array_remove_at(table.Entries, find_result.EntryIndex);
+		hashtable_rehash_fast(table);
 	}
 }
 
@@ -674,7 +674,7 @@ template<typename Type> forceinline
 void hashtable_remove_entry(HashTable<Type> table, ssize idx) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	remove_at(table.Entries, idx);
+	array_remove_at(table.Entries, idx);
 }
 
 template<typename Type> inline
@@ -715,8 +715,8 @@ template<typename Type> forceinline
 ssize hashtable_slot(HashTable<Type> table, u64 key) {
 	GEN_ASSERT_NOT_NULL(table.Hashes);
 	GEN_ASSERT_NOT_NULL(table.Entries);
-	for (ssize idx = 0; idx < ssize(num(table.Hashes)); ++idx)
-		if (table.Hashes[idx] == key)
+	for (ssize idx = 0; idx < ssize(array_num(table.Hashes)); ++idx)
+		if (table.Hashes[idx] == ssize(key))
 			return idx;
 
 	return -1;
-- 
2.43.0


From 02595a3f2b9faad1f7f4351e0a49c40855907f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 06/96] fix: C hashtable get never found the first entry of a
 table

---
 gen_c_library/components/containers.hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 8303eb7..3271aa1 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -149,7 +149,7 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			GEN_ASSERT_NOT_NULL(self.Hashes);
 			GEN_ASSERT_NOT_NULL(self.Entries);
 			ssize idx = <fn>__find( self, key ).EntryIndex;
-			if ( idx > 0 )
+			if ( idx >= 0 )
 				return & self.Entries[idx].Value;
 
 			return nullptr;
-- 
2.43.0


From 8bdd28c7dd63e5c36795f707841671411ced321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 07/96] fix: C hashtable rehash ignored the requested size and
 copied slots past the last entry

---
 gen_c_library/components/containers.hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 3271aa1..860da68 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -198,11 +198,11 @@ CodeBody gen_hashtable( Str type, Str hashtable_name )
 			ArrayHeader* old_hash_header    = array_get_header( self->Hashes );
 			ArrayHeader* old_entries_header = array_get_header( self->Entries );
 
-			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, old_hash_header->Num );
+			<tbl_type> new_tbl = hashtable_init_reserve( <type>, old_hash_header->Allocator, new_num );
 
 			ArrayHeader* new_hash_header = array_get_header( new_tbl.Hashes );
 
-			for (ssize idx = 0; idx < cast(ssize, old_hash_header->Num); ++idx)
+			for (ssize idx = 0; idx < cast(ssize, old_entries_header->Num); ++idx)
 			{
 				<entry_type>* entry = & self->Entries[idx];
 				HT_FindResult find_result;
-- 
2.43.0


From 228f5cfce47e886b994aa8a56db7bc1041c895c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 08/96] fix: C array set_capacity freed the address of a local
 instead of the old block

---
 gen_c_library/components/containers.array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index cd531ec..7a7f08e 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -360,7 +360,7 @@ CodeBody gen_array( Str type, Str array_name )
 			mem_move( new_header, header, sizeof( ArrayHeader ) + sizeof( <type> ) * header->Num );
 			new_header->Capacity = new_capacity;
 
-			allocator_free( header->Allocator, & header );
+			allocator_free( header->Allocator, header );
 
 			* self = cast( <type>*, new_header + 1 );
 			return true;
-- 
2.43.0


From 272e338a72a2848f72a333d659e22d151446825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 09/96] fix: arena did not count the padding it adds to align a
 block, so the last block could run past its end

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 8c32c81..6c802ad 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -348,7 +348,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_ALLOC :
 		{
 			void* end        = pointer_add( arena->PhysicalStart, arena->TotalUsed );
-			ssize total_size = align_forward_s64( size, alignment );
+			ssize total_size = align_forward_s64( size, alignment ) + arena_alignment_of( arena, alignment );
 
 			// NOTE: Out of memory
 			if ( arena->TotalUsed + total_size > (ssize) arena->TotalSize )
-- 
2.43.0


From f4d901e7362faa2130b126f1eaae30b2f3152e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 10/96] fix: arena resize took the new block from, and freed
 the old one to, the backing allocator

---
 base/dependencies/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 6c802ad..4b391f7 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -378,7 +378,7 @@ void* arena_allocator_proc( void* allocator_data, AllocType type, ssize size, ss
 		case EAllocation_RESIZE :
 			{
 				// TODO : Check if ptr is on top of stack and just extend
-				AllocatorInfo a = arena->Backing;
+				AllocatorInfo a = arena_allocator_info( arena );
 				ptr             = default_resize_align( a, old_memory, old_size, size, alignment );
 			}
 			break;
-- 
2.43.0


From 4e8c093d72572d8559beca3ef17cbf5bf6a9d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 11/96] fix: pool_clear left the used size of the pool as it
 was

---
 base/dependencies/memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 4b391f7..01183c2 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -516,7 +516,8 @@ void pool_clear(Pool* pool)
 	end  =  ( uptr* ) curr;
 	*end =  ( uptr )  NULL;
 
-	pool->FreeList = pool->PhysicalStart;
+	pool->TotalSize = 0;
+	pool->FreeList  = pool->PhysicalStart;
 }
 
 #pragma endregion Memory
-- 
2.43.0


From 1186ffef1ad4fc3f335b2abbe6f3196a38a6caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/96] fix: fallback allocator checked bucket space without
 alignment and resized blocks outside of its buckets

---
 base/components/interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index b3eaf45..86b2b16 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -17,7 +17,7 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 	{
 		case EAllocation_ALLOC:
 		{
-			if ( ( last->TotalUsed + size ) > last->TotalSize )
+			if ( align_forward_s64( size, alignment ) > arena_size_remaining( last, alignment ) )
 			{
 				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
 
@@ -44,7 +44,7 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		break;
 		case EAllocation_RESIZE:
 		{
-			if ( last->TotalUsed + size > last->TotalSize )
+			if ( align_forward_s64( size, alignment ) > arena_size_remaining( last, alignment ) )
 			{
 				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
 
@@ -57,11 +57,11 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 				last = array_back( _ctx->Fallback_AllocatorBuckets);
 			}
 
-			void* result = alloc_align( last->Backing, size, alignment );
+			void* result = alloc_align( arena_allocator_info(last), size, alignment );
 
 			if ( result != nullptr && old_memory != nullptr )
 			{
-				mem_copy( result, old_memory, old_size );
+				mem_copy( result, old_memory, min( old_size, size ) );
 			}
 
 			return result;
-- 
2.43.0


From ff21c998a0b3b2db0c71277a48f11b356b2a8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 13/96] fix: pool blocks after the first were misaligned when
 the block size is not a multiple of the alignment

---
 base/dependencies/memory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/memory.cpp b/base/dependencies/memory.cpp
index 01183c2..caa6e13 100644
--- a/base/dependencies/memory.cpp
+++ b/base/dependencies/memory.cpp
@@ -432,7 +432,7 @@ void* pool_allocator_proc( void* allocator_data, AllocType type, ssize size, ssi
 				void* curr;
 				uptr* end;
 
-				actual_block_size = pool->BlockSize + pool->BlockAlign;
+				actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 				pool->TotalSize   = 0;
 
 				// NOTE: Init intrusive freelist
@@ -474,7 +474,7 @@ Pool pool_init_align( AllocatorInfo backing, ssize num_blocks, ssize block_size,
 	pool.BlockAlign  = block_align;
 	pool.NumBlocks   = num_blocks;
 
-	actual_block_size = block_size + block_align;
+	actual_block_size = align_forward_s64( block_size, block_align ) + block_align;
 	pool_size         = num_blocks * actual_block_size;
 
 	data = alloc_align( backing, pool_size, block_align );
@@ -503,7 +503,7 @@ void pool_clear(Pool* pool)
 	void* curr;
 	uptr* end;
 
-	actual_block_size = pool->BlockSize + pool->BlockAlign;
+	actual_block_size = align_forward_s64( pool->BlockSize, pool->BlockAlign ) + pool->BlockAlign;
 
 	curr = pool->PhysicalStart;
 	for ( block_index = 0; block_index < pool->NumBlocks - 1; block_index++ )
-- 
2.43.0


From 41047e0cf68e7598f0b74e093261530cabd8f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 14/96] fix: c_str_fmt_va wrote past the end of the buffer when
 the text does not fit, and printed wrong decimals for floats

---
 base/dependencies/printing.cpp | 87 ++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index 684f0ea..d2a3fea 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -67,8 +67,8 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	{
 		if ( info->precision > 0 )
 			len = info->precision < len ? info->precision : len;
-		if ( res + len > max_len )
-			return res;
+		if ( len > max_len || info->width > max_len )
+			return max_len;
 		res  += c_str_copy_nulpad( text, str, len );
 		text += res;
 
@@ -83,6 +83,8 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 	}
 	else
 	{
+		if ( len > max_len || ( info && info->width > max_len ) )
+			return max_len;
 		if ( info && ( info->width > res ) )
 		{
 			ssize   padding = info->width - len;
@@ -91,17 +93,18 @@ internal ssize _print_string( char* text, ssize max_len, _format_info* info, cha
 				*text++ = pad, res++;
 		}
 
-		if ( res + len > max_len )
-			return res;
 		res += c_str_copy_nulpad( text, str, len );
 	}
 
 	if ( info )
 	{
-		if ( info->flags & GEN_FMT_UPPER )
-			c_str_to_upper( begin );
-		else if ( info->flags & GEN_FMT_LOWER )
-			c_str_to_lower( begin );
+		for ( ssize idx = 0; idx < res; idx++ )
+		{
+			if ( info->flags & GEN_FMT_UPPER )
+				begin[ idx ] = char_to_upper( begin[ idx ] );
+			else if ( info->flags & GEN_FMT_LOWER )
+				begin[ idx ] = char_to_lower( begin[ idx ] );
+		}
 	}
 
 	return res;
@@ -119,6 +122,8 @@ internal ssize _print_repeated_char( char* text, ssize max_len, _format_info* in
 	ssize  res = 0;
 	s32 rem = ( info ) ? ( info->width > 0 ) ? info->width : 1 : 1;
 	res     = rem;
+	if ( res > max_len )
+		return max_len;
 	while ( rem-- > 0 )
 		*text++ = arg;
 
@@ -144,6 +149,8 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	// TODO: Handle exponent notation
 	ssize    width, len, remaining = max_len;
 	char* text_begin = text;
+	char* text_end   = text + max_len;
+	char  num[ 130 ];
 
 	if ( arg )
 	{
@@ -163,13 +170,13 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 		}
 
 		value  = scast( u64, arg);
-		len    = _print_u64( text, remaining, NULL, value );
-		text  += len;
-
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		u64_to_str( value, num, 10 );
+		for ( char* digit = num; *digit; digit++ )
+		{
+			if ( remaining > 1 )
+				*text = *digit, remaining--;
+			text++;
+		}
 		arg -= value;
 
 		if ( info->precision < 0 )
@@ -177,21 +184,17 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 
 		if ( ( info->flags & GEN_FMT_ALT ) || info->precision > 0 )
 		{
-			s64 mult = 10;
 			if ( remaining > 1 )
 				*text = '.', remaining--;
 			text++;
 			while ( info->precision-- > 0 )
 			{
-				value  = scast( u64, arg * mult );
-				len    = _print_u64( text, remaining, NULL, value );
-				text  += len;
-				if ( len >= remaining )
-					remaining = min( remaining, 1 );
-				else
-					remaining -= len;
-				arg  -= scast( f64, value / mult);
-				mult *= 10;
+				arg   *= 10;
+				value  = scast( u64, arg );
+				if ( remaining > 1 )
+					*text = scast( char, '0' + value ), remaining--;
+				text++;
+				arg  -= scast( f64, value );
 			}
 		}
 	}
@@ -212,7 +215,7 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 	if ( width > 0 )
 	{
 		char  fill = ( info->flags & GEN_FMT_ZERO ) ? '0' : ' ';
-		char* end  = text + remaining - 1;
+		char* end  = text_end - 1;
 		len        = ( text - text_begin );
 
 		for ( len = ( text - text_begin ); len--; )
@@ -223,10 +226,6 @@ internal ssize _print_f64( char* text, ssize max_len, _format_info* info, b32 is
 
 		len   = width;
 		text += len;
-		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
 
 		while ( len-- )
 		{
@@ -249,8 +248,16 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 		ssize        len  = 0;
 		info.precision    = -1;
 
-		while ( *fmt && *fmt != '%' && remaining )
-			*text++ = *fmt++;
+		while ( *fmt && *fmt != '%' && remaining > 1 )
+			*text++ = *fmt++, remaining--;
+
+		// NOTE: No room left for the rest of the text
+		if ( *fmt && *fmt != '%' )
+		{
+			if ( remaining > 0 )
+				*text = '\0';
+			return -1;
+		}
 
 		if ( *fmt == '%' )
 		{
@@ -520,13 +527,21 @@ neverinline ssize c_str_fmt_va( char* text, ssize max_len, char const* fmt, va_l
 			}
 		}
 
-		text += len;
+		// NOTE: No room left for what was printed and the terminator
 		if ( len >= remaining )
-			remaining = min( remaining, 1 );
-		else
-			remaining -= len;
+		{
+			if ( remaining > 0 )
+				*text = '\0';
+			return -1;
+		}
+
+		text      += len;
+		remaining -= len;
 	}
 
+	if ( remaining <= 0 )
+		return -1;
+
 	*text++ = '\0';
 	res     = ( text - text_begin );
 	return ( res >= max_len || res < 0 ) ? -1 : res;
-- 
2.43.0


From 2894f579ae73462d3e3bf573f185ddb5bee7c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 15/96] fix: formatted appends dropped text that does not fit
 the print buffer; GEN_FATAL used its message as a format

---
 base/auxiliary/builder.cpp    |  7 +-----
 base/dependencies/debug.hpp   |  2 +-
 base/dependencies/strings.cpp | 32 +++++++++++++++++++++++++
 base/dependencies/strings.hpp | 45 ++++++++++++++++++++---------------
 4 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index 391f520..f7116bc 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -38,12 +38,7 @@ void builder_print( Builder* builder, Code code )
 
 void builder_print_fmt_va( Builder* builder, char const* fmt, va_list va )
 {
-	ssize   res;
-	char buf[ GEN_PRINTF_MAXLEN ] = { 0 };
-
-	res = c_str_fmt_va( buf, count_of( buf ) - 1, fmt, va ) - 1;
-
-	strbuilder_append_c_str_len( (StrBuilder*) & (builder->Buffer), (char const*)buf, res);
+	strbuilder_append_fmt_va( (StrBuilder*) & (builder->Buffer), fmt, va );
 }
 
 void builder_write(Builder* builder)
diff --git a/base/dependencies/debug.hpp b/base/dependencies/debug.hpp
index cb2970a..4e59148 100644
--- a/base/dependencies/debug.hpp
+++ b/base/dependencies/debug.hpp
@@ -52,7 +52,7 @@
 		char buf[GEN_PRINTF_MAXLEN] = { 0 };               \
 		                                                   \
 		c_str_fmt(buf, GEN_PRINTF_MAXLEN, __VA_ARGS__);    \
-		GEN_PANIC(buf);                                    \
+		GEN_PANIC("%s", buf);                                 \
 	}                                                      \
 	while (0)
 #else
diff --git a/base/dependencies/strings.cpp b/base/dependencies/strings.cpp
index 5bd3a47..c57c78b 100644
--- a/base/dependencies/strings.cpp
+++ b/base/dependencies/strings.cpp
@@ -117,6 +117,38 @@ bool strbuilder_append_c_str_len(StrBuilder* str, char const* c_str_to_append, s
 	return c_str_to_append != nullptr;
 }
 
+bool strbuilder_append_fmt_va(StrBuilder* str, char const* fmt, va_list va)
+{
+	GEN_ASSERT(str != nullptr);
+	local_persist thread_local
+	char buf[GEN_PRINTF_MAXLEN] = { 0 };
+
+	va_list va_again;
+	va_copy(va_again, va);
+	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va_again);
+	va_end(va_again);
+	if (res >= 0)
+		return strbuilder_append_c_str_len(str, (char const*)buf, res - 1);
+
+	// The text does not fit the buffer, print it to larger ones until it does.
+	for (ssize size = GEN_PRINTF_MAXLEN * 4; res < 0; size *= 4)
+	{
+		char* heap_buf = rcast(char*, alloc(heap(), size));
+		if (heap_buf == nullptr)
+			return false;
+
+		va_copy(va_again, va);
+		res = c_str_fmt_va(heap_buf, size, fmt, va_again);
+		va_end(va_again);
+
+		bool appended = res < 0 || strbuilder_append_c_str_len(str, (char const*)heap_buf, res - 1);
+		allocator_free(heap(), heap_buf);
+		if (! appended)
+			return false;
+	}
+	return true;
+}
+
 void strbuilder_trim(StrBuilder str, char const* cut_set)
 {
 	ssize len = 0;
diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 866e944..4fce63e 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -126,6 +126,7 @@ GEN_API StrBuilder        strbuilder_make_reserve        (AllocatorInfo allocato
 GEN_API StrBuilder        strbuilder_make_length         (AllocatorInfo allocator, char const*  str,   ssize length);
 GEN_API bool              strbuilder_make_space_for      (StrBuilder* str, char const* to_append,       ssize add_len);
 GEN_API bool              strbuilder_append_c_str_len    (StrBuilder* str, char const* c_str_to_append, ssize length);
+GEN_API bool              strbuilder_append_fmt_va       (StrBuilder* str, char const* fmt, va_list va);
 GEN_API void              strbuilder_trim                (StrBuilder  str, char const* cut_set);
 GEN_API StrBuilder        strbuilder_visualize_whitespace(StrBuilder const str);
 
@@ -209,18 +210,24 @@ struct StrBuilder
 		va_start(va, fmt);
 		ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		if (res >= 0)
+			return strbuilder_make_length(allocator, buf, res);
+
+		StrBuilder result = strbuilder_make_reserve(allocator, 0);
+		va_start(va, fmt);
+		strbuilder_append_fmt_va(& result, fmt, va);
+		va_end(va);
+		return result;
 	}
 
 	static
 	StrBuilder fmt_buf(AllocatorInfo allocator, char const* fmt, ...) {
-		local_persist thread_local
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
+		StrBuilder result = strbuilder_make_reserve(allocator, 0);
 		va_list va;
 		va_start(va, fmt);
-		ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
+		strbuilder_append_fmt_va(& result, fmt, va);
 		va_end(va);
-		return strbuilder_make_length(allocator, buf, res);
+		return result;
 	}
 
 	forceinline bool              make_space_for(char const* str, ssize add_len) { return strbuilder_make_space_for(this, str, add_len); }
@@ -251,15 +258,12 @@ struct StrBuilder
 	forceinline StrBuilderHeader& get_header()                                   { return * strbuilder_get_header(* this); }
 
 	bool append_fmt(char const* fmt, ...) {
-		ssize res;
-		char buf[GEN_PRINTF_MAXLEN] = { 0 };
-
 		va_list va;
 		va_start(va, fmt);
-		res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+		bool res = strbuilder_append_fmt_va(this, fmt, va);
 		va_end(va);
 
-		return strbuilder_append_c_str_len(this, buf, res);
+		return res;
 	}
 #pragma endregion Member Mapping
 #endif
@@ -312,22 +316,27 @@ StrBuilder strbuilder_fmt(AllocatorInfo allocator, char* buf, ssize buf_size, ch
 	va_start(va, fmt);
 	ssize res = c_str_fmt_va(buf, buf_size, fmt, va) - 1;
 	va_end(va);
+	if (res >= 0)
+		return strbuilder_make_length(allocator, buf, res);
 
-	return strbuilder_make_length(allocator, buf, res);
+	StrBuilder result = strbuilder_make_reserve(allocator, 0);
+	va_start(va, fmt);
+	strbuilder_append_fmt_va(& result, fmt, va);
+	va_end(va);
+	return result;
 }
 
 inline
 StrBuilder strbuilder_fmt_buf(AllocatorInfo allocator, char const* fmt, ...)
 {
-	local_persist thread_local
-	PrintF_Buffer buf = struct_init(PrintF_Buffer, {0});
+	StrBuilder result = strbuilder_make_reserve(allocator, 0);
 
 	va_list va;
 	va_start(va, fmt);
-	ssize res = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) -1;
+	strbuilder_append_fmt_va(& result, fmt, va);
 	va_end(va);
 
-	return strbuilder_make_length(allocator, buf, res);
+	return result;
 }
 
 inline
@@ -373,15 +382,13 @@ bool strbuilder_append_string(StrBuilder* str, StrBuilder const other) {
 inline
 bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 	GEN_ASSERT(str != nullptr);
-	ssize res;
-	char buf[GEN_PRINTF_MAXLEN] = { 0 };
 
 	va_list va;
 	va_start(va, fmt);
-	res = c_str_fmt_va(buf, count_of(buf) - 1, fmt, va) - 1;
+	bool result = strbuilder_append_fmt_va(str, fmt, va);
 	va_end(va);
 
-	return strbuilder_append_c_str_len(str, (char const*)buf, res);
+	return result;
 }
 
 inline
-- 
2.43.0


From 71843f8d2af0da18163fe5df70902b0e485d5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 16/96] fix: untyped_fmt always failed, and counted the
 terminator as content

---
 base/components/interface.untyped.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 69d74bb..7baa4ae 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -127,14 +127,20 @@ Code untyped_fmt( char const* fmt, ...)
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va);
+	ssize length = c_str_fmt_va(buf, GEN_PRINTF_MAXLEN, fmt, va) - 1;
 	va_end(va);
+	if ( length < 0 )
+	{
+		log_failure( "untyped_fmt: the formatted text does not fit the print buffer" );
+		return InvalidCode;
+	}
     Str content = { buf, length };
 
 	Code
 	result          = make_code();
 	result->Type    = CT_Untyped;
 	result->Content = cache_str( content );
+	result->Name    = result->Content;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From db9f45153ea91b4fc2544bb57e7792632c59be6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 17/96] fix: token formatting wrote past its buffer and scanned
 past the end for an unclosed token

---
 base/components/interface.untyped.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 7baa4ae..32c0329 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -28,7 +28,7 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 	char const* fmt     = va_arg( va, char const* );
 	char        current = *fmt;
 
-	while ( current )
+	while ( current && remaining )
 	{
 		ssize len = 0;
 
@@ -42,13 +42,13 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			current = * fmt;
 		}
 
-		if ( current == '<' )
+		if ( current == '<' && remaining )
 		{
 			char const* scanner = fmt + 1;
 
 			s32 tok_len = 0;
 
-			while ( *scanner != '>' )
+			while ( *scanner && *scanner != '>' )
 			{
 				tok_len++;
 				scanner++;
@@ -57,14 +57,14 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 			char const* token = fmt + 1;
 
 			u32      key   = crc32( token, tok_len );
-			Str*     value = hashtable_get(_ctx->token_fmt_map, key );
+			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
 			{
 				ssize          left = value->Len;
 				char const* str  = value->Ptr;
 
-				while ( left-- )
+				while ( left-- && remaining )
 				{
 					* buf = * str;
 					buf++;
-- 
2.43.0


From 78b3232db7cd83d19523058ea4a1d6fa16fe36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 18/96] fix: c_str_compare_len ordered by address instead of by
 character

---
 base/dependencies/string_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/dependencies/string_ops.hpp b/base/dependencies/string_ops.hpp
index 78fa555..dfb6fb4 100644
--- a/base/dependencies/string_ops.hpp
+++ b/base/dependencies/string_ops.hpp
@@ -137,7 +137,7 @@ s32 c_str_compare_len( const char* s1, const char* s2, ssize len )
 	for ( ; len > 0; s1++, s2++, len-- )
 	{
 		if ( *s1 != *s2 )
-			return ( ( s1 < s2 ) ? -1 : +1 );
+			return ( ( *( u8* )s1 < *( u8* )s2 ) ? -1 : +1 );
 		else if ( *s1 == '\0' )
 			return 0;
 	}
-- 
2.43.0


From 32aa7e42b355a729b0b440ceb6eb1550a3c6198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 19/96] fix: StrBuilder starts_with ignored the last character,
 clear kept the old text, contains/are_equal had no definition

---
 base/dependencies/strings.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/strings.hpp b/base/dependencies/strings.hpp
index 4fce63e..7c491d2 100644
--- a/base/dependencies/strings.hpp
+++ b/base/dependencies/strings.hpp
@@ -392,7 +392,7 @@ bool strbuilder_append_fmt(StrBuilder* str, char const* fmt, ...) {
 }
 
 inline
-bool strbuilder_are_equal_string(StrBuilder const lhs, StrBuilder const rhs)
+bool strbuilder_are_equal(StrBuilder const lhs, StrBuilder const rhs)
 {
 	if (strbuilder_length(lhs) != strbuilder_length(rhs))
 		return false;
@@ -429,7 +429,7 @@ char* strbuilder_back(StrBuilder str) {
 }
 
 inline
-bool strbuilder_contains_StrC(StrBuilder const str, Str substring)
+bool strbuilder_contains_str(StrBuilder const str, Str substring)
 {
 	StrBuilderHeader const* header = rcast(StrBuilderHeader const*, scast(char const*, str) - sizeof(StrBuilderHeader));
 
@@ -477,6 +477,7 @@ ssize strbuilder_capacity(StrBuilder const str) {
 forceinline
 void strbuilder_clear(StrBuilder str) {
 	strbuilder_get_header(str)->Length = 0;
+	str[0] = '\0';
 }
 
 forceinline
@@ -520,7 +521,7 @@ b32 strbuilder_starts_with_string(StrBuilder const str, StrBuilder substring) {
 	if (strbuilder_length(substring) > strbuilder_length(str))
 		return false;
 
-	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring) - 1) == 0;
+	b32 result = c_str_compare_len(str, substring, strbuilder_length(substring)) == 0;
 	return result;
 }
 
-- 
2.43.0


From edc3e51d8ba28360f71ebed2660e4eaf068bc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 20/96] fix: deinit trapped without the fallback allocator,
 used the wrong context and leaked; reset left the constants dangling; nested
 contexts lacked the library macros

---
 base/components/interface.cpp | 38 ++++++++++++++++++++++++++---------
 base/components/parser.cpp    |  5 +++--
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 86b2b16..c04937f 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -4,7 +4,7 @@
 #endif
 
 internal void parser_init();
-internal void parser_deinit();
+internal void parser_deinit(Context* ctx);
 
 internal
 void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size, ssize alignment, void* old_memory, ssize old_size, u64 flags )
@@ -74,10 +74,6 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 internal
 void define_constants()
 {
-	// We only initalize these if there is no base context.
-	if ( context_counter > 0 )
-		return;
-
 	Code_Global          = make_code();
 	Code_Global->Name    = cache_str( txt("Global Code") );
 	Code_Global->Content = Code_Global->Name;
@@ -205,7 +201,11 @@ void define_constants()
 
 	spec_local_persist = def_specifiers( 1, Spec_Local_Persist );
 	code_set_global(cast(Code, spec_local_persist));
+}
 
+internal
+void register_library_macros()
+{
 	if (enum_underlying_macro.Name.Len == 0) {
 		enum_underlying_macro.Name  = txt("enum_underlying");
 		enum_underlying_macro.Type  = MT_Expression;
@@ -321,7 +321,10 @@ void init(Context* ctx)
 		}
 	}
 
-	define_constants();
+	// We only initalize these if there is no base context.
+	if ( context_counter == 0 )
+		define_constants();
+	register_library_macros();
 	parser_init();
 
 	++ context_counter;
@@ -358,7 +361,11 @@ void deinit(Context* ctx)
 
 	hashtable_destroy(ctx->Macros);
 
-	left  = array_num( ctx->Fallback_AllocatorBuckets);
+	if (ctx->token_fmt_map.Hashes)
+		hashtable_destroy(ctx->token_fmt_map);
+	parser_deinit(ctx);
+
+	left  = ctx->Fallback_AllocatorBuckets != nullptr ? array_num( ctx->Fallback_AllocatorBuckets) : 0;
 	if (left)
 	{
 		index = 0;
@@ -371,7 +378,6 @@ void deinit(Context* ctx)
 		while ( left--, left );
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
-	parser_deinit();
 
 	if (_ctx == ctx) 
 		_ctx = nullptr;
@@ -387,11 +393,19 @@ Context* get_context() {
 
 void reset(Context* ctx)
 {
+	// The constants live in the pools of the context that was the first to be initialized.
+	b32 owns_constants = false;
+
 	s32 index = 0;
 	s32 left  = array_num(ctx->CodePools);
 	do
 	{
 		Pool* code_pool = & ctx->CodePools[index];
+
+		sptr offset = rcast(sptr, cast(AST*, Code_Global)) - rcast(sptr, code_pool->PhysicalStart);
+		if ( offset >= 0 && offset < scast(sptr, code_pool->NumBlocks * code_pool->BlockSize ))
+			owns_constants = true;
+
 		pool_clear(code_pool);
 		index++;
 	}
@@ -409,7 +423,13 @@ void reset(Context* ctx)
 
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
-	define_constants();
+
+	Context* current = _ctx;
+	_ctx = ctx;
+	if ( owns_constants )
+		define_constants();
+	register_library_macros();
+	_ctx = current;
 }
 
 void set_context(Context* new_ctx) {
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b064e04..ed944f9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -130,10 +130,11 @@ void parser_init()
 }
 
 internal
-void parser_deinit()
+void parser_deinit(Context* ctx)
 {
+	array_free( ctx->Lexer_Tokens );
 	Array(Token) null_array = { nullptr };
-	_ctx->Lexer_Tokens = null_array;
+	ctx->Lexer_Tokens = null_array;
 }
 
 #pragma region Helper Macros
-- 
2.43.0


From 725880c67e13068ee0c03ed6b0cb4d05a2062ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 21/96] fix: cache_str returned another string on a checksum
 collision, and failed at the end of an arena or for strings larger than one

---
 base/components/interface.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index c04937f..2e844d5 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -440,10 +440,10 @@ void set_context(Context* new_ctx) {
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
 	Arena* last     = array_back(_ctx->StringArenas);
-	usize  size_req = str_length + sizeof(StrBuilderHeader) + sizeof(char*);
+	usize  size_req = str_length + sizeof(StrBuilderHeader) + 1 + GEN_DEFAULT_MEMORY_ALIGNMENT;
 	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
 	{
-		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, _ctx->SizePer_StringArena );
+		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, max( scast(usize, _ctx->SizePer_StringArena), size_req ) );
 		if ( ! array_append( _ctx->StringArenas, new_arena ) )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
@@ -460,10 +460,12 @@ StrCached cache_str( Str str )
 		Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 		return result;
 	}
-	u64 key = crc32( str.Ptr, str.Len ); {
-		StrCached* result = hashtable_get( _ctx->StrCache, key );
-		if ( result )
+	u64 key = crc32( str.Ptr, str.Len );
+	for ( StrCached* result = hashtable_get( _ctx->StrCache, key ); result; result = hashtable_get( _ctx->StrCache, key ) ) {
+		if ( str_are_equal( * result, str ) )
 			return * result;
+		// Different string with the same checksum, use the next key reserved for this checksum.
+		key += (u64) 1 << 32;
 	}
 	Str result = strbuilder_to_str( strbuilder_make_str( get_cached_str_allocator( str.Len ), str ));
 	hashtable_set( _ctx->StrCache, key, result );
-- 
2.43.0


From 012aa5c8c6d3f8bb561d951d7e3912ef981b8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 22/96] fix: a name was taken for a registered macro with the
 same checksum

---
 base/components/interface.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 2e844d5..0b8c0cb 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -493,15 +493,27 @@ Code make_code()
 	return result;
 }
 
+// Provides the key for the macro, different names with the same checksum do not share one.
+internal
+u64 macro_key( Str name )
+{
+	u64 key = crc32( name.Ptr, name.Len );
+	for ( Macro* result = hashtable_get( _ctx->Macros, key ); result; result = hashtable_get( _ctx->Macros, key ) ) {
+		if ( str_are_equal( result->Name, name ) )
+			break;
+		key += (u64) 1 << 32;
+	}
+	return key;
+}
+
 Macro* lookup_macro( Str name ) {
-	u32 key = crc32( name.Ptr, name.Len );
-	return hashtable_get( _ctx->Macros, key );
+	return hashtable_get( _ctx->Macros, macro_key( name ) );
 }
 
 void register_macro( Macro macro ) {
 	GEN_ASSERT_NOT_NULL(macro.Name.Ptr);
 	GEN_ASSERT(macro.Name.Len > 0);
-	u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+	u64 key = macro_key( macro.Name );
 	macro.Name = cache_str(macro.Name);
 	hashtable_set( _ctx->Macros, key, macro );
 }
@@ -518,7 +530,7 @@ void register_macros( s32 num, ... )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 	}
 	while (num--, num > 0);
@@ -535,7 +547,7 @@ void register_macros_arr( s32 num,  Macro* macros )
 		GEN_ASSERT(macro.Name.Len > 0);
 		macro.Name = cache_str(macro.Name);
 
-		u32 key = crc32( macro.Name.Ptr, macro.Name.Len );
+		u64 key = macro_key( macro.Name );
 		hashtable_set( _ctx->Macros, key, macro );
 		++ macros;
 	}
-- 
2.43.0


From 30c38a81cec6c886db3ea03a7d2d17d803766572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 23/96] fix: export bodies serialized the memory after the body
 instead of its entries

---
 base/components/code_serialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 9ec168b..39dacb5 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -38,13 +38,13 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	GEN_ASSERT(result != nullptr);
 	strbuilder_append_fmt( result, "export\n{\n" );
 
-	Code curr = cast(Code, body);
+	Code curr = body->Front;
 	s32  left = body->NumEntries;
 	while ( left-- )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 
 	strbuilder_append_fmt( result, "};\n" );
-- 
2.43.0


From c0768cd01647407c8ab1c357fa18195f1fe3a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 24/96] fix: constructors lost their specifiers and '=
 default', destructors '= default' and their name; both crashed outside of a
 class

---
 base/components/code_serialization.cpp | 98 ++++++++++++++------------
 base/components/parser.cpp             | 22 ++++--
 2 files changed, 71 insertions(+), 49 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 39dacb5..acc0cf8 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -50,6 +50,30 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 	strbuilder_append_fmt( result, "};\n" );
 }
 
+// The class or struct a constructor or destructor is a member of, null when it is declared elsewhere.
+internal
+Code member_owner( Code self )
+{
+	Code owner = self->Parent ? self->Parent->Parent : NullCode;
+	if ( owner && ( owner->Type == CT_Class || owner->Type == CT_Struct ) )
+		return owner;
+
+	return NullCode;
+}
+
+internal
+void specifiers_to_strbuilder_prefix( CodeSpecifiers specs, StrBuilder* result )
+{
+	if ( specs == nullptr )
+		return;
+
+	for ( Specifier* spec = begin_CodeSpecifiers(specs); spec != end_CodeSpecifiers(specs); spec = next_CodeSpecifiers(specs, spec) )
+	{
+		if ( ! spec_is_trailing( * spec ) )
+			strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+	}
+}
+
 StrBuilder constructor_to_strbuilder(CodeConstructor self)
 {
 	GEN_ASSERT(self);
@@ -70,13 +94,9 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
-	}
-	else {
-		strbuilder_append_str( result, self->Name );
-	}
+	specifiers_to_strbuilder_prefix( self->Specs, result );
+	Code owner = member_owner( cast(Code, self) );
+	strbuilder_append_str( result, owner ? owner->Name : self->Name );
 
 	if ( self->Params )
 		strbuilder_append_fmt( result, "( %SB )", params_to_strbuilder(self->Params) );
@@ -87,7 +107,7 @@ void constructor_to_strbuilder_def(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->InitializerList) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
 
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
@@ -96,13 +116,9 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	Code ClassStructParent = self->Parent->Parent;
-	if (ClassStructParent) {
-		strbuilder_append_str( result, ClassStructParent->Name );
-	}
-	else {
-		strbuilder_append_str( result, self->Name );
-	}
+	specifiers_to_strbuilder_prefix( self->Specs, result );
+	Code owner = member_owner( cast(Code, self) );
+	strbuilder_append_str( result, owner ? owner->Name : self->Name );
 
 	if ( self->Params )
 		strbuilder_append_fmt( result, "( %SB )", params_to_strbuilder(self->Params) );
@@ -113,7 +129,7 @@ void constructor_to_strbuilder_fwd(CodeConstructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
 		strbuilder_append_str( result, txt(";\n") );
 }
@@ -252,24 +268,24 @@ StrBuilder destructor_to_strbuilder(CodeDestructor self)
 	return result;
 }
 
+internal
+void destructor_to_strbuilder_name(CodeDestructor self, StrBuilder* result )
+{
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
+		strbuilder_append_str( result, txt("virtual ") );
+
+	Code owner = member_owner( cast(Code, self) );
+	if ( owner )
+		strbuilder_append_fmt( result, "~%S()", owner->Name );
+	else
+		strbuilder_append_fmt( result, "%S()", self->Name );
+}
+
 void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Name.Len )
-	{
-		strbuilder_append_fmt( result, "%S()", self->Name );
-	}
-	else if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S()", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
-	}
-	else
-		strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
-
+	destructor_to_strbuilder_name( self, result );
 	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", code_to_strbuilder(self->Body) );
 }
 
@@ -277,25 +293,17 @@ void destructor_to_strbuilder_fwd(CodeDestructor self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		if ( specifiers_has(self->Specs, Spec_Virtual ) )
-			strbuilder_append_fmt( result, "virtual ~%S();\n", self->Parent->Name );
-		else
-			strbuilder_append_fmt( result, "~%S()", self->Parent->Name );
+	destructor_to_strbuilder_name( self, result );
 
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0;") );
-		else if (self->Body)
-			strbuilder_append_fmt( result, " = %SB;", code_to_strbuilder(self->Body) );
-	}
-	else
-		strbuilder_append_fmt( result, "~%S();", self->Parent->Name );
+	if ( self->Specs && specifiers_has(self->Specs, Spec_Pure ) )
+		strbuilder_append_str( result, txt(" = 0") );
+	else if (self->Body)
+		strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n"));
 }
 
 StrBuilder enum_to_strbuilder(CodeEnum self)
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ed944f9..2f1e923 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3547,8 +3547,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 	else if ( check( Tok_Operator) && currtok.Text.Ptr[ 0 ] == '=' )
 	{
 		body = cast(CodeBody, parse_assignment_expression());
+		// <Name> ( <Parameters> ) = <default/delete>
 	}
-	else
+
+	if ( ! body || body->Type != CT_Function_Body )
 	{
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
@@ -3576,8 +3578,10 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		result->Body = cast(Code, body);
 		result->Type = CT_Constructor;
 	}
-	else
+	else {
+		result->Body = cast(Code, body);
 		result->Type = CT_Constructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
@@ -3695,6 +3699,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	if (is_in_global_nspace)
 		prefix_identifier = parse_identifier(nullptr);
 
+	Token name = currtok;
 	if ( left && currtok.Text.Ptr[ 0 ] == '~' )
 		eat( Tok_Operator );
 	else
@@ -3728,7 +3733,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 			eat( Tok_Number );
 			// <Virtual Specifier> ~<Name>() = 0
 
-			specifiers_append(specifiers, Spec_Pure );
+			if ( specifiers )
+				specifiers_append(specifiers, Spec_Pure );
+			else
+				specifiers = def_specifier( Spec_Pure );
 		}
 		else if ( left && c_str_compare_len( upcoming.Text.Ptr, "default", sizeof("default") - 1 ) == 0) 
 		{
@@ -3767,6 +3775,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
 		result->Name = cache_str( prefix_identifier.Text );
 	}
+	else {
+		name.Text.Len = ( (sptr)identifier.Text.Ptr + identifier.Text.Len ) - (sptr)name.Text.Ptr;
+		result->Name  = cache_str( name.Text );
+	}
 
 	if ( specifiers )
 		result->Specs = specifiers;
@@ -3775,8 +3787,10 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		result->Body = cast(Code, body);
 		result->Type = CT_Destructor;
 	}
-	else
+	else {
+		result->Body = cast(Code, body);
 		result->Type = CT_Destructor_Fwd;
+	}
 
 	if ( inline_cmt )
 		result->InlineCmt = inline_cmt;
-- 
2.43.0


From bf94246a82bfc30a0113df2905f36c391a7ca97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 25/96] fix: classes with a parent passed a stray argument when
 serialized, inline comments of classes moved and grew

---
 base/components/code_serialization.cpp | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index acc0cf8..fcc0478 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -174,7 +174,7 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 	if ( self->ParentType )
 	{
 		Str access_level = access_spec_to_str( self->ParentAccess );
-		strbuilder_append_fmt( result, " : %S %SB", self->Name, access_level, typename_to_strbuilder(self->ParentType) );
+		strbuilder_append_fmt( result, " : %S %SB", access_level, typename_to_strbuilder(self->ParentType) );
 
 		CodeTypename interface = cast(CodeTypename, self->ParentType->Next);
 		if ( interface )
@@ -187,15 +187,15 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n") );
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
@@ -215,7 +215,7 @@ void class_to_strbuilder_fwd( CodeClass self, StrBuilder* result )
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, "; // %S\n", self->InlineCmt->Content );
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
 			strbuilder_append_str( result, txt(";\n") );
 	}
@@ -977,15 +977,15 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 		}
 	}
 
-	if ( self->InlineCmt )
-	{
-		strbuilder_append_fmt( result, " // %S", self->InlineCmt->Content );
-	}
-
 	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
 
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+	{
+		if ( self->InlineCmt )
+			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
+		else
+			strbuilder_append_str( result, txt(";\n") );
+	}
 }
 
 void struct_to_strbuilder_fwd( CodeStruct self, StrBuilder* result )
-- 
2.43.0


From b84664a0bf08cd12f12c74ab737b1c57bd150551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 26/96] fix: enum class lost 'class', enums misplaced
 attributes, dropped underlying macros and inline comments or crashed without
 a type

---
 base/components/code_serialization.cpp | 125 +++++++------------------
 1 file changed, 35 insertions(+), 90 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index fcc0478..1249a92 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -328,125 +328,70 @@ StrBuilder enum_to_strbuilder(CodeEnum self)
 	return result;
 }
 
-void enum_to_strbuilder_def(CodeEnum self, StrBuilder* result )
+// <export> <which> <attributes> <name> <: underlying type or macro>
+internal
+void enum_to_strbuilder_head(CodeEnum self, Str which, StrBuilder* result )
 {
-	GEN_ASSERT(self);
-	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes || self->UnderlyingType || self->UnderlyingTypeMacro )
-	{
-		strbuilder_append_str( result, txt("enum ") );
-
-		if ( self->Attributes )
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
-		if ( self->UnderlyingType )
-			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}"
-				, self->Name
-				, typename_to_strbuilder(self->UnderlyingType)
-				, body_to_strbuilder(self->Body)
-			);
-		else if ( self->UnderlyingTypeMacro )
-			strbuilder_append_fmt( result, "%S %SB\n{\n%SB\n}"
-				, self->Name
-				, code_to_strbuilder(self->UnderlyingTypeMacro)
-				, body_to_strbuilder(self->Body)
-			);
-
-		else strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-	}
-	else strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-
-	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
-}
-
-void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
-{
-	GEN_ASSERT(self);
-	GEN_ASSERT(result);
-	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export ") );
+	strbuilder_append_str( result, which );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
+	strbuilder_append_str( result, self->Name );
+
 	if ( self->UnderlyingType )
-		strbuilder_append_fmt( result, "enum %S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
-	else if (self->UnderlyingTypeMacro)
-	{
-		log_fmt("IDENTIFIED A UNDERLYING ENUM MACRO");
-		strbuilder_append_fmt( result, "enum %S %SB", self->Name, code_to_strbuilder(self->UnderlyingTypeMacro) );
-	}
-	else
-		strbuilder_append_fmt( result, "enum %S", self->Name );
+		strbuilder_append_fmt( result, " : %SB", typename_to_strbuilder(self->UnderlyingType) );
+	else if ( self->UnderlyingTypeMacro )
+		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->UnderlyingTypeMacro) );
+}
 
+internal
+void enum_to_strbuilder_end(CodeEnum self, StrBuilder* result )
+{
 	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
 	{
 		if ( self->InlineCmt )
 			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 		else
-			strbuilder_append_str( result, txt(";\n"));
+			strbuilder_append_str( result, txt(";\n") );
 	}
 }
 
-void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
+void enum_to_strbuilder_def(CodeEnum self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export ") );
-
-	if ( self->Attributes || self->UnderlyingType )
-	{
-		strbuilder_append_str( result, txt("enum class ") );
-
-		if ( self->Attributes )
-		{
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-		}
+	enum_to_strbuilder_head( self, txt("enum "), result );
+	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
+	enum_to_strbuilder_end( self, result );
+}
 
-		if ( self->UnderlyingType )
-		{
-			strbuilder_append_fmt( result, "%S : %SB\n{\n%SB\n}", self->Name, typename_to_strbuilder(self->UnderlyingType), body_to_strbuilder(self->Body) );
-		}
-		else
-		{
-			strbuilder_append_fmt( result, "%S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-		}
-	}
-	else
-	{
-		strbuilder_append_fmt( result, "enum %S\n{\n%SB\n}", self->Name, body_to_strbuilder(self->Body) );
-	}
+void enum_to_strbuilder_fwd(CodeEnum self, StrBuilder* result )
+{
+	GEN_ASSERT(self);
+	GEN_ASSERT(result);
+	enum_to_strbuilder_head( self, txt("enum "), result );
+	enum_to_strbuilder_end( self, result );
+}
 
-	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-		strbuilder_append_str( result, txt(";\n"));
+void enum_to_strbuilder_class_def(CodeEnum self, StrBuilder* result )
+{
+	GEN_ASSERT(self);
+	GEN_ASSERT(result);
+	enum_to_strbuilder_head( self, txt("enum class "), result );
+	strbuilder_append_fmt( result, "\n{\n%SB\n}", body_to_strbuilder(self->Body) );
+	enum_to_strbuilder_end( self, result );
 }
 
 void enum_to_strbuilder_class_fwd(CodeEnum self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export ") );
-
-	strbuilder_append_str( result, txt("enum class ") );
-
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
-	strbuilder_append_fmt( result, "%S : %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
-
-	if ( self->Parent == nullptr || ( self->Parent->Type != CT_Typedef && self->Parent->Type != CT_Variable ) )
-	{
-		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
-		else
-			strbuilder_append_str( result, txt(";\n"));
-	}
+	enum_to_strbuilder_head( self, txt("enum class "), result );
+	enum_to_strbuilder_end( self, result );
 }
 
 StrBuilder fn_to_strbuilder(CodeFn self)
-- 
2.43.0


From 08ad85b73364be15c7f218b86fc8a8404acc69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 27/96] fix: pure and deleted functions repeated their
 specifier, export ran into the return type

---
 base/components/code_serialization.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 1249a92..45b9675 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -415,7 +415,7 @@ void fn_to_strbuilder_def(CodeFn self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export") );
+		strbuilder_append_str( result, txt("export ") );
 
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, " %SB ", attributes_to_strbuilder(self->Attributes) );
@@ -484,7 +484,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
-			if ( ! spec_is_trailing( * spec ) || ! ( * spec != Spec_Pure) )
+			if ( ! spec_is_trailing( * spec ) )
 			{
 				Str spec_str = spec_to_str( * spec );
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
@@ -521,11 +521,6 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
 			}
 		}
-
-		if ( specifiers_has(self->Specs, Spec_Pure ) )
-			strbuilder_append_str( result, txt(" = 0") );
-		else if ( specifiers_has(self->Specs, Spec_Delete ) )
-			strbuilder_append_str( result, txt(" = delete") );
 	}
 
 	// This is bodged in for now SOLEY for Unreal's PURE_VIRTUAL functional macro (I kept it open ended for other jank)
@@ -533,7 +528,7 @@ void fn_to_strbuilder_fwd(CodeFn self, StrBuilder* result )
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->SuffixSpecs) );
 
 	if (self->Body)
-		strbuilder_append_fmt( result, " = %SB;", body_to_strbuilder(self->Body) );
+		strbuilder_append_fmt( result, " = %SB", body_to_strbuilder(self->Body) );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
-- 
2.43.0


From d9e8bcc120f917a76e69188fc274478d4b073d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 28/96] fix: operators printed attributes twice and crashed
 without a return type

---
 base/components/code_serialization.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 45b9675..bead87d 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -577,9 +577,6 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 	if ( self->Attributes )
 		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->Specs )
 	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
@@ -599,6 +596,8 @@ void code_op_to_strbuilder_def(CodeOperator self, StrBuilder* result )
 
 	if ( self->ReturnType )
 		strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+	else
+		strbuilder_append_fmt( result, "%S (", self->Name );
 
 	if ( self->Params )
 		strbuilder_append_fmt( result, "%SB)", params_to_strbuilder(self->Params) );
@@ -650,7 +649,10 @@ void code_op_to_strbuilder_fwd(CodeOperator self, StrBuilder* result )
 		strbuilder_append_str( result, txt("\n") );
 	}
 
-	strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+	if ( self->ReturnType )
+		strbuilder_append_fmt( result, "%SB %S (", typename_to_strbuilder(self->ReturnType), self->Name );
+	else
+		strbuilder_append_fmt( result, "%S (", self->Name );
 
 	if ( self->Params )
 		strbuilder_append_fmt( result, "%SB)", params_to_strbuilder(self->Params) );
-- 
2.43.0


From 4586b6efd08d3ec7e70e1d0230dbb9273ed441ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 29/96] fix: operator casts mangled specifiers, lost qualifiers
 and inline comments, and read outside of an empty body

---
 base/components/code_serialization.cpp | 79 +++++++-------------------
 base/components/parser.cpp             |  8 ++-
 2 files changed, 28 insertions(+), 59 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index bead87d..7fef9d5 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -694,82 +694,45 @@ StrBuilder opcast_to_strbuilder(CodeOpCast self)
 	return result;
 }
 
-void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
+// <specifiers> <qualifier> operator <type>() <trailing specifiers>
+internal
+void opcast_to_strbuilder_head(CodeOpCast self, StrBuilder* result )
 {
-	GEN_ASSERT(self);
-	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
-		{
-			if ( ! spec_is_trailing( * spec ) )
-			{
-				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
-			}
-		}
+	specifiers_to_strbuilder_prefix( self->Specs, result );
 
-		if ( self->Name.Ptr && self->Name.Len )
-			strbuilder_append_fmt( result, "%S operator %SB()", self->Name, typename_to_strbuilder(self->ValueType) );
-		else
-			strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
+	if ( self->Name.Ptr && self->Name.Len )
+		strbuilder_append_fmt( result, "%S operator %SB()", self->Name, typename_to_strbuilder(self->ValueType) );
+	else
+		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
 
+	if ( self->Specs )
+	{
 		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
 		{
 			if ( spec_is_trailing( * spec ) )
-			{
-				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %.*s", spec_str.Len, spec_str.Ptr );
-			}
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
 		}
-
-		strbuilder_append_fmt( result, "\n{\n%SB\n}\n", body_to_strbuilder(self->Body) );
-		return;
 	}
+}
 
-	if ( self->Name.Ptr && self->Name.Len )
-		strbuilder_append_fmt( result, "%S operator %SB()\n{\n%SB\n}\n", self->Name, typename_to_strbuilder(self->ValueType), body_to_strbuilder(self->Body) );
-	else
-		strbuilder_append_fmt( result, "operator %SB()\n{\n%SB\n}\n", typename_to_strbuilder(self->ValueType), body_to_strbuilder(self->Body) );
+void opcast_to_strbuilder_def(CodeOpCast self, StrBuilder* result )
+{
+	GEN_ASSERT(self);
+	GEN_ASSERT(result);
+	opcast_to_strbuilder_head( self, result );
+	strbuilder_append_fmt( result, "\n{\n%SB\n}\n", body_to_strbuilder(self->Body) );
 }
 
 void opcast_to_strbuilder_fwd(CodeOpCast self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	if ( self->Specs )
-	{
-		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
-		{
-			if ( ! spec_is_trailing( * spec ) )
-			{
-				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, "%*s ", spec_str.Len, spec_str.Ptr );
-			}
-		}
-
-		strbuilder_append_fmt( result, "operator %SB()", typename_to_strbuilder(self->ValueType) );
-
-		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
-		{
-			if ( spec_is_trailing( * spec ) )
-			{
-				Str spec_str = spec_to_str( * spec );
-				strbuilder_append_fmt( result, " %*s", spec_str.Len, spec_str.Ptr );
-			}
-		}
-
-		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
-		else
-			strbuilder_append_str( result, txt(";\n") );
-		return;
-	}
+	opcast_to_strbuilder_head( self, result );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "operator %SB();  %SB", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content );
 	else
-		strbuilder_append_fmt( result, "operator %SB();\n", typename_to_strbuilder(self->ValueType) );
+		strbuilder_append_str( result, txt(";\n") );
 }
 
 void params_to_strbuilder_ref( CodeParams self, StrBuilder* result )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2f1e923..9c27713 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4443,7 +4443,10 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 			eat( currtok.Type );
 		}
-		body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
+		if ( body_str.Text.Ptr == currtok.Text.Ptr )
+			body_str.Text.Len = 0;
+		else
+			body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
 
 		eat( Tok_BraceCurly_Close );
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
@@ -4479,6 +4482,9 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	result->ValueType = cast(CodeTypename, type);
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 8b78ea8ff01ff4e48563d6d82be46acdf07f9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 30/96] fix: array typedefs ended in the middle of the type,
 attributed function types lost their signature

---
 base/components/code_serialization.cpp | 32 +++++++++++---------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 7fef9d5..878e128 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -944,19 +944,17 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	if ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->UnderlyingType->ArrExpr) );
 
 		Code next_arr_expr = self->UnderlyingType->ArrExpr->Next;
 		while ( next_arr_expr )
 		{
-			strbuilder_append_fmt( result, "[ %SB ];", code_to_strbuilder(next_arr_expr) );
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
 			next_arr_expr = next_arr_expr->Next;
 		}
 	}
-	else
-	{
-		strbuilder_append_str( result, txt(";") );
-	}
+
+	strbuilder_append_str( result, txt(";") );
 
 	if ( self->InlineCmt )
 		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
@@ -973,28 +971,24 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, "%SB ( %S ) ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB ( %S ) ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB ( %S ) ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_fmt( result, "%SB ( %S ) ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
 
-			break;
+			return;
 		}
 	#else
 		if ( self->ReturnType && self->Params )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
 			else
-			{
-				if ( self->Specs )
-					strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
-				else
-					strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
-			}
+				strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
 
 			return;
 		}
-- 
2.43.0


From 3c5202fa133165248964d23c387104c7f7a6fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 31/96] fix: #if and #ndef ran into the next line, a comment's
 own string had no header

---
 base/components/inlines.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 5bf6bf5..2b8c8bb 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -22,9 +22,7 @@ void attributes_to_strbuilder_ref(CodeAttributes attributes, StrBuilder* result)
 inline
 StrBuilder comment_to_strbuilder(CodeComment comment) {
 	GEN_ASSERT(comment);
-	char* raw = ccast(char*, str_duplicate( comment->Content, get_context()->Allocator_Temp ).Ptr);
-	StrBuilder result = { raw };
-	return result;
+	return strbuilder_make_str( _ctx->Allocator_Temp, comment->Content );
 }
 
 inline
@@ -196,7 +194,7 @@ void preprocess_to_strbuilder_if(CodePreprocessCond cond, StrBuilder* result )
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#if %S", cond->Content );
+	strbuilder_append_fmt( result, "#if %S\n", cond->Content );
 }
 
 inline
@@ -212,7 +210,7 @@ void preprocess_to_strbuilder_ifndef(CodePreprocessCond cond, StrBuilder* result
 {
 	GEN_ASSERT(cond);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "#ifndef %S", cond->Content );
+	strbuilder_append_fmt( result, "#ifndef %S\n", cond->Content );
 }
 
 inline
-- 
2.43.0


From c9e861e87186fdcbbc1de728ff9953547abb1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 32/96] fix: variable lists misplaced initializers, lost
 bitfields and crashed on arrays

---
 base/components/code_serialization.cpp | 146 +++++++------------------
 base/components/parser.cpp             |  16 ++-
 2 files changed, 50 insertions(+), 112 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 878e128..040d3fc 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1121,106 +1121,15 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 		strbuilder_append_str( result, txt("\n"));
 }
 
-neverinline
-void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
+// <name> <[ array expression ]> <: bitfield> <initializer>, then the variables that follow it in the same declaration
+internal
+void var_to_strbuilder_declarator(CodeVar self, StrBuilder* result )
 {
-	GEN_ASSERT(self);
-	GEN_ASSERT(result);
-	if ( self->Parent && self->Parent->Type == CT_Variable )
-	{
-		// Its a comma-separated variable ( a NextVar )
-
-		if ( self->Specs )
-			strbuilder_append_fmt( result, "%SB ", specifiers_to_strbuilder(self->Specs) );
-
-		strbuilder_append_str( result, self->Name );
-
-		if ( self->ValueType && self->ValueType->ArrExpr )
-		{
-			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
-
-			Code next_arr_expr = self->ValueType->ArrExpr->Next;
-			while ( next_arr_expr )
-			{
-				strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
-				next_arr_expr = next_arr_expr->Next;
-			}
-		}
-
-		if ( self->Value )
-		{
-			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
-			else
-				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
-		}
-
-		// Keep the chain going...
-		if ( self->NextVar )
-			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
-
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
-		return;
-	}
-
-	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
-		strbuilder_append_str( result, txt("export ") );
-
-	if ( self->Attributes || self->Specs )
-	{
-		if ( self->Attributes )
-			strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
-		if ( self->Specs )
-			strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
-
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
-
-		if ( self->ValueType && self->ValueType->ArrExpr )
-		{
-			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
-
-			Code next_arr_expr = self->ValueType->ArrExpr->Next;
-			while ( next_arr_expr )
-			{
-				strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(next_arr_expr) );
-				next_arr_expr = next_arr_expr->Next;
-			}
-		}
-
-		if ( self->BitfieldSize )
-			strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->BitfieldSize) );
-
-		if ( self->Value )
-		{
-			if ( self->VarParenthesizedInit )
-				strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
-			else
-				strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
-		}
-
-		if ( self->NextVar )
-			strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
-
-		if ( self->VarParenthesizedInit )
-			strbuilder_append_str( result, txt(" )"));
-
-		if ( self->InlineCmt )
-			strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
-		else
-			strbuilder_append_str( result, txt(";\n") );
-
-		return;
-	}
-
-	if ( self->BitfieldSize )
-		strbuilder_append_fmt( result, "%SB %S : %SB", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->BitfieldSize) );
+	strbuilder_append_str( result, self->Name );
 
-	else if ( self->ValueType && self->ValueType->ArrExpr )
+	if ( self->ValueType && self->ValueType->ArrExpr )
 	{
-		strbuilder_append_fmt( result, "%SB %S[ %SB ]", typename_to_strbuilder(self->ValueType), self->Name, code_to_strbuilder(self->ValueType->ArrExpr) );
+		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
 
 		Code next_arr_expr = self->ValueType->ArrExpr->Next;
 		while ( next_arr_expr )
@@ -1230,27 +1139,52 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 		}
 	}
 
-	else
-		strbuilder_append_fmt( result, "%SB %S", typename_to_strbuilder(self->ValueType), self->Name );
+	if ( self->BitfieldSize )
+		strbuilder_append_fmt( result, " : %SB", code_to_strbuilder(self->BitfieldSize) );
 
 	if ( self->Value )
 	{
 		if ( self->VarParenthesizedInit )
-			strbuilder_append_fmt( result, "( %SB ", code_to_strbuilder(self->Value) );
+			strbuilder_append_fmt( result, "( %SB )", code_to_strbuilder(self->Value) );
 		else
 			strbuilder_append_fmt( result, " = %SB", code_to_strbuilder(self->Value) );
 	}
 
+	// Keep the chain going...
 	if ( self->NextVar )
-		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder( self->NextVar) );
+		strbuilder_append_fmt( result, ", %SB", var_to_strbuilder(self->NextVar) );
+}
+
+neverinline
+void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
+{
+	GEN_ASSERT(self);
+	GEN_ASSERT(result);
+	if ( self->Parent && self->Parent->Type == CT_Variable )
+	{
+		// Its a comma-separated variable ( a NextVar )
 
-	if ( self->VarParenthesizedInit )
-		strbuilder_append_str( result, txt(" )"));
+		if ( self->Specs )
+			strbuilder_append_fmt( result, "%SB ", specifiers_to_strbuilder(self->Specs) );
 
-	strbuilder_append_str( result, txt(";") );
+		var_to_strbuilder_declarator( self, result );
+		return;
+	}
+
+	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
+		strbuilder_append_str( result, txt("export ") );
+
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
+	if ( self->Specs )
+		strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
+
+	strbuilder_append_fmt( result, "%SB ", typename_to_strbuilder(self->ValueType) );
+	var_to_strbuilder_declarator( self, result );
 
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "  %S", self->InlineCmt->Content);
+		strbuilder_append_fmt( result, ";  %S", self->InlineCmt->Content);
 	else
-		strbuilder_append_str( result, txt("\n"));
+		strbuilder_append_str( result, txt(";\n") );
 }
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9c27713..a86b83c 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3391,7 +3391,14 @@ CodeVar parse_variable_after_name(
 	result->InlineCmt    = inline_cmt;
 
 	if (array_expr)
-		type->ArrExpr = array_expr;
+	{
+		if ( ! result->ValueType ) {
+			// Only the first variable of a list has the type, the array expressions are each one's own.
+			result->ValueType       = (CodeTypename) make_code();
+			result->ValueType->Type = CT_Typename;
+		}
+		result->ValueType->ArrExpr = array_expr;
+	}
 
 	if ( next_var ) {
 		result->NextVar         = next_var;
@@ -3428,13 +3435,11 @@ CodeVar parse_variable_declaration_list()
 			switch ( spec )
 			{
 				case Spec_Const:
-					if ( specifiers->NumEntries && specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
+					if ( ! specifiers || specifiers->ArrSpecs[ specifiers->NumEntries - 1 ] != Spec_Ptr )
 					{
 						log_failure( "Error, const specifier must come after pointer specifier for variable declaration proceeding comma\n"
 						"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%SB"
 						, parser_to_strbuilder(_ctx->parser) );
-
-						specifiers_append(specifiers, spec );
 					}
 				break;
 
@@ -3448,7 +3453,6 @@ CodeVar parse_variable_declaration_list()
 					log_failure( "Error, invalid specifier '%S' proceeding comma\n"
 					"(Parser will add and continue to specifiers, but will most likely fail to compile)\n%S"
 					, currtok.Text, strbuilder_to_str( parser_to_strbuilder(_ctx->parser)) );
-					continue;
 				}
 				break;
 			}
@@ -3477,7 +3481,7 @@ CodeVar parse_variable_declaration_list()
 		else
 		{
 			last_var->NextVar         = var;
-			last_var->NextVar->Parent = cast(Code, var);
+			last_var->NextVar->Parent = cast(Code, last_var);
 			last_var                  = var;
 		}
 	}
-- 
2.43.0


From 54eb580548ee17b8aef748449df645b396a1bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 33/96] fix: friend declarations ended twice

---
 base/components/inlines.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 2b8c8bb..8e7d87a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -106,9 +106,17 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 {
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
-	strbuilder_append_fmt( result, "friend %SB", code_to_strbuilder(self->Declaration) );
+	StrBuilder declaration = code_to_strbuilder(self->Declaration);
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && (* result)[ strbuilder_length(* result) - 1 ] != ';' )
+	// Declarations that end their own statement are followed by a newline, it goes behind the inline comment
+	ssize len = strbuilder_length( declaration );
+	while ( len > 0 && char_is_space( declaration[ len - 1 ] ) )
+		-- len;
+
+	Str trimmed = { declaration, len };
+	strbuilder_append_fmt( result, "friend %S", trimmed );
+
+	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && ( len == 0 || declaration[ len - 1 ] != ';' ) )
 	{
 		strbuilder_append_str( result, txt(";") );
 	}
-- 
2.43.0


From 154b95f586ece4d80e29df3672ecb1a0dade6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 34/96] fix: using namespace with an inline comment printed its
 format

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 8e7d87a..bd70985 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -304,7 +304,7 @@ void using_to_strbuilder_ns(CodeUsing self, StrBuilder* result )
 	GEN_ASSERT(self);
 	GEN_ASSERT(result);
 	if ( self->InlineCmt )
-		strbuilder_append_fmt( result, "using namespace $S;  %S", self->Name, self->InlineCmt->Content );
+		strbuilder_append_fmt( result, "using namespace %S;  %S", self->Name, self->InlineCmt->Content );
 	else
 		strbuilder_append_fmt( result, "using namespace %S;\n", self->Name );
 }
-- 
2.43.0


From 1a8ca2c168fb65c1b538a5dca7e991845e6de569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 35/96] fix: the report of a parse error read past the end of
 the source

---
 base/components/parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a86b83c..b2ae994 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -33,8 +33,10 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 {
 	StrBuilder result = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(4) );
 
-	Token scope_start = * ctx.Scope->Start;
-	Token last_valid  = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? ctx.Tokens.Arr[array_num(ctx.Tokens.Arr) -1] : (* lex_current(& ctx.Tokens, true));
+	Token* current_tok = ctx.Tokens.Idx >= array_num(ctx.Tokens.Arr) ? nullptr : lex_current(& ctx.Tokens, true);
+
+	Token last_valid  = current_tok && tok_is_valid( * current_tok ) ? * current_tok : * array_back( ctx.Tokens.Arr );
+	Token scope_start = ctx.Scope->Start && tok_is_valid( * ctx.Scope->Start ) ? * ctx.Scope->Start : last_valid;
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
@@ -52,9 +54,6 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	sptr   dist            = (sptr)last_valid.Text.Ptr - (sptr)scope_start.Text.Ptr + 2;
 	sptr   length_from_err = dist;
 
-	Str err_str        = { last_valid.Text.Ptr, length_from_err };
-	StrBuilder line_from_err = strbuilder_make_str( _ctx->Allocator_Temp, err_str );
-
 	if ( length_from_err < 100 )
 		strbuilder_append_fmt(& result, "\t(%d, %d):%*c\n", last_valid.Line, last_valid.Column, length_from_err, '^' );
 	else
-- 
2.43.0


From 44e09706886dd67d0859a9a7a4b1e5b994300e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 36/96] fix: lexing read and consumed past the end of the text,
 strings lost their closing quote

---
 base/components/lexer.cpp  | 262 ++++++++++++++++++++-----------------
 base/components/parser.cpp |   2 +-
 2 files changed, 144 insertions(+), 120 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index f501f70..450fb1f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -19,14 +19,27 @@ StrBuilder tok_to_strbuilder(Token tok)
 
 bool lex__eat( TokArray* self, TokType type );
 
+// Positions outside of the tokens are an invalid token with no text.
+internal
+Token* lex_token_at(Array(Token) arr, s32 idx)
+{
+	local_persist Token null_token;
+	if ( idx >= 0 && idx < scast(s32, array_num(arr)) )
+		return & arr[idx];
+
+	null_token          = NullToken;
+	null_token.Text.Ptr = "";
+	return & null_token;
+}
+
 Token* lex_current(TokArray* self, bool skip_formatting )
 {
 	if ( skip_formatting )
 	{
-		while ( self->Arr[self->Idx].Type == Tok_NewLine || self->Arr[self->Idx].Type == Tok_Comment  )
+		while ( lex_token_at(self->Arr, self->Idx)->Type == Tok_NewLine || lex_token_at(self->Arr, self->Idx)->Type == Tok_Comment  )
 			self->Idx++;
 	}
-	return & self->Arr[self->Idx];
+	return lex_token_at(self->Arr, self->Idx);
 }
 
 Token* lex_peek(TokArray self, bool skip_formatting)
@@ -34,12 +47,12 @@ Token* lex_peek(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_token_at(self.Arr, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx];
+		return lex_token_at(self.Arr, idx);
 	}
-	return & self.Arr[idx];
+	return lex_token_at(self.Arr, idx);
 }
 
 Token* lex_previous(TokArray self, bool skip_formatting)
@@ -47,12 +60,12 @@ Token* lex_previous(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_token_at(self.Arr, idx)->Type == Tok_NewLine )
 			idx --;
 
-		return & self.Arr[idx];
+		return lex_token_at(self.Arr, idx);
 	}
-	return & self.Arr[idx - 1];
+	return lex_token_at(self.Arr, idx - 1);
 }
 
 Token* lex_next(TokArray self, bool skip_formatting)
@@ -60,12 +73,12 @@ Token* lex_next(TokArray self, bool skip_formatting)
 	s32 idx = self.Idx;
 	if ( skip_formatting )
 	{
-		while ( self.Arr[idx].Type == Tok_NewLine )
+		while ( lex_token_at(self.Arr, idx)->Type == Tok_NewLine )
 			idx++;
 
-		return & self.Arr[idx + 1];
+		return lex_token_at(self.Arr, idx + 1);
 	}
-	return & self.Arr[idx + 1];
+	return lex_token_at(self.Arr, idx + 1);
 }
 
 enum
@@ -74,9 +87,16 @@ enum
 	Lex_ReturnNull,
 };
 
+// The content does not have to be null terminated, nothing may be read or consumed past its length.
+#define lexer_char()      ( ctx->left > 0 ? ctx->scanner[0] : '\0' )
+#define lexer_next_char() ( ctx->left > 1 ? ctx->scanner[1] : '\0' )
+
 forceinline
 void lexer_move_forward( LexContext* ctx )
 {
+	if ( ctx->left <= 0 )
+		return;
+
 	if ( * ctx->scanner == '\n' ) {
 		ctx->line   += 1;
 		ctx->column  = 1;
@@ -92,7 +112,7 @@ void lexer_move_forward( LexContext* ctx )
 forceinline
 void lexer_skip_whitespace( LexContext* ctx )
 {
-	while ( ctx->left && char_is_space( * ctx->scanner ) )
+	while ( ctx->left && char_is_space( lexer_char() ) )
 		move_forward();
 }
 #define skip_whitespace() lexer_skip_whitespace(ctx)
@@ -100,14 +120,14 @@ void lexer_skip_whitespace( LexContext* ctx )
 forceinline
 void lexer_end_line( LexContext* ctx )
 {
-	while ( ctx->left && (* ctx->scanner) == ' ' )
+	while ( ctx->left && lexer_char() == ' ' )
 		move_forward();
 
-	if ( ctx->left && (* ctx->scanner) == '\r' ) {
+	if ( ctx->left && lexer_char() == '\r' ) {
 		move_forward();
 		move_forward();
 	}
-	else if ( ctx->left && (* ctx->scanner) == '\n' )
+	else if ( ctx->left && lexer_char() == '\n' )
 		move_forward();
 }
 #define end_line() lexer_end_line(ctx)
@@ -115,10 +135,15 @@ void lexer_end_line( LexContext* ctx )
 // TODO(Ed): We need to to attempt to recover from a lex failure?
 s32 lex_preprocessor_define( LexContext* ctx )
 {
+	if ( ctx->left <= 0 ) {
+		log_failure("lex_preprocessor_define(%d, %d): Expected a name after #define (ran out of characters...)\n", ctx->line, ctx->column );
+		return Lex_ReturnNull;
+	}
+
 	Token name = { { ctx->scanner, 1 }, Tok_Identifier, ctx->line, ctx->column, TF_Preprocess };
 	move_forward();
 
-	while ( ctx->left && ( char_is_alphanumeric((* ctx->scanner)) || (* ctx->scanner) == '_' ) ) {
+	while ( ctx->left && ( char_is_alphanumeric(lexer_char()) || lexer_char() == '_' ) ) {
 		move_forward();
 		name.Text.Len++;
 	}
@@ -139,7 +164,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 	}
 	array_append( _ctx->Lexer_Tokens, name );
 
-	if ( ctx->left && (* ctx->scanner) == '(' )
+	if ( ctx->left && lexer_char() == '(' )
 	{
 		if (registered_macro && ! macro_is_functional(* registered_macro)) {
 			log_fmt("Warning: %S registered macro is not flagged as functional yet the definition detects opening parenthesis '(' for arguments\n"
@@ -157,12 +182,12 @@ s32 lex_preprocessor_define( LexContext* ctx )
 
 		Token last_parameter = {};
 		// We need to tokenize the define's arguments now:
-		while( ctx->left && * ctx->scanner != ')')
+		while( ctx->left && lexer_char() != ')')
 		{
 			skip_whitespace();
 			
 			Str possible_varadic = { ctx->scanner, 3 };
-			if ( ctx->left > 3 && str_are_equal( txt("..."), possible_varadic ) ) {
+			if ( ctx->left >= 3 && str_are_equal( txt("..."), possible_varadic ) ) {
 				Token parameter = { { ctx->scanner, 3 }, Tok_Preprocess_Define_Param, ctx->line, ctx->column, TF_Preprocess };
 				move_forward();
 				move_forward();
@@ -172,11 +197,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				skip_whitespace();
 				last_parameter = parameter;
 
-				while ( (* ctx->scanner) == '\\' ) {
+				while ( lexer_char() == '\\' ) {
 					move_forward();
 					skip_whitespace();
 				}
-				if (* ctx->scanner != ')' )
+				if (lexer_char() != ')' )
 				{
 					log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after '...' (varaidc macro param) %S\n"
 						, ctx->line
@@ -187,17 +212,17 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				}
 				break;
 			}
-			else if ( (* ctx->scanner) == '\\' ) {
+			else if ( lexer_char() == '\\' ) {
 				move_forward();
 				skip_whitespace();
 				continue;
 			}
-			else if ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' )
+			else if ( char_is_alpha( lexer_char() ) || lexer_char() == '_' )
 			{
 				Token parameter = { { ctx->scanner, 1 }, Tok_Preprocess_Define_Param, ctx->line, ctx->column, TF_Preprocess };
 				move_forward();
 
-				while ( ctx->left && ( char_is_alphanumeric((* ctx->scanner)) || (* ctx->scanner) == '_' ) )
+				while ( ctx->left && ( char_is_alphanumeric(lexer_char()) || lexer_char() == '_' ) )
 				{
 					move_forward();
 					parameter.Text.Len++;
@@ -215,11 +240,11 @@ s32 lex_preprocessor_define( LexContext* ctx )
 				return Lex_ReturnNull;
 			}
 
-			if (* ctx->scanner == ')' )
+			if (lexer_char() == ')' )
 				break;
 
 			// There should be a comma
-			if ( * ctx->scanner != ',' ) {
+			if ( lexer_char() != ',' ) {
 				log_failure("lex_preprocessor_define(%d, %d): Expected a comma after parameter %S for %S\n"
 					, ctx->line
 					, ctx->column
@@ -233,7 +258,7 @@ s32 lex_preprocessor_define( LexContext* ctx )
 			move_forward();
 		}
 		
-		if ( * ctx->scanner != ')' ) {
+		if ( lexer_char() != ')' ) {
 			log_failure("lex_preprocessor_define(%d, %d): Expected a ')' after last_parameter %S for %S (ran out of characters...)\n"
 				, ctx->line
 				, ctx->column
@@ -274,7 +299,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	skip_whitespace();
 
 	ctx->token.Text.Ptr = ctx->scanner;
-	while (ctx->left && ! char_is_space((* ctx->scanner)) )
+	while (ctx->left && ! char_is_space(lexer_char()) )
 	{
 		move_forward();
 		ctx->token.Text.Len++;
@@ -292,24 +317,24 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		s32 within_char   = false;
 		while ( ctx->left )
 		{
-			if ( * ctx->scanner == '"' && ! within_char )
+			if ( lexer_char() == '"' && ! within_char )
 				within_string ^= true;
 
-			if ( * ctx->scanner == '\'' && ! within_string )
+			if ( lexer_char() == '\'' && ! within_string )
 				within_char ^= true;
 
-			if ( * ctx->scanner == '\\' && ! within_string && ! within_char )
+			if ( lexer_char() == '\\' && ! within_string && ! within_char )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
 
-				if ( (* ctx->scanner) == '\r' )
+				if ( lexer_char() == '\r' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
 				}
 
-				if ( (* ctx->scanner) == '\n' )
+				if ( lexer_char() == '\n' )
 				{
 					move_forward();
 					ctx->token.Text.Len++;
@@ -318,20 +343,20 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 				else
 				{
 					log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
-								" in preprocessor directive (%d, %d)\n%.100s"
-						, (* ctx->scanner), ctx->line, ctx->column
+								" in preprocessor directive (%d, %d)\n%S"
+						, lexer_char(), ctx->line, ctx->column
 						, ctx->token.Line, ctx->token.Column, ctx->token.Text );
 					break;
 				}
 			}
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( lexer_char() == '\r' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_char() == '\n' )
 			{
 				move_forward();
 				ctx->token.Text.Len++;
@@ -342,7 +367,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			ctx->token.Text.Len++;
 		}
 
-		ctx->token.Text.Len = ctx->token.Text.Len + ctx->token.Text.Ptr - hash;
+		ctx->token.Text.Len = ctx->scanner - hash;
 		ctx->token.Text.Ptr = hash;
 		array_append( _ctx->Lexer_Tokens, ctx->token );
 		return Lex_Continue; // Skip found token, its all handled here.
@@ -377,12 +402,12 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	{
 		preprocess_content.Type = Tok_String;
 
-		if ( (* ctx->scanner) != '"' && (* ctx->scanner) != '<' )
+		if ( lexer_char() != '"' && lexer_char() != '<' )
 		{
 			StrBuilder directive_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 80, ctx->left + preprocess_content.Text.Len ), ctx->token.Text.Ptr );
 
 			log_failure( "gen::Parser::lex: Expected '\"' or '<' after #include, not '%c' (%d, %d)\n%s"
-				, (* ctx->scanner)
+				, lexer_char()
 				, preprocess_content.Line
 				, preprocess_content.Column
 				, (char*) directive_str
@@ -392,21 +417,21 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		move_forward();
 		preprocess_content.Text.Len++;
 
-		while ( ctx->left && (* ctx->scanner) != '"' && (* ctx->scanner) != '>' )
+		while ( ctx->left && lexer_char() != '"' && lexer_char() != '>' )
 		{
 			move_forward();
 			preprocess_content.Text.Len++;
 		}
 
 		move_forward();
-		preprocess_content.Text.Len++;
+		preprocess_content.Text.Len = ctx->scanner - preprocess_content.Text.Ptr;
 
-		if ( (* ctx->scanner) == '\r' && ctx->scanner[1] == '\n' )
+		if ( lexer_char() == '\r' && lexer_next_char() == '\n' )
 		{
 			move_forward();
 			move_forward();
 		}
-		else if ( (* ctx->scanner) == '\n' )
+		else if ( lexer_char() == '\n' )
 		{
 			move_forward();
 		}
@@ -421,24 +446,24 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 	// Consume preprocess content
 	while ( ctx->left )
 	{
-		if ( (* ctx->scanner) == '"' && ! within_char )
+		if ( lexer_char() == '"' && ! within_char )
 			within_string ^= true;
 
-		if ( (* ctx->scanner) == '\'' && ! within_string )
+		if ( lexer_char() == '\'' && ! within_string )
 			within_char ^= true;
 
-		if ( (* ctx->scanner) == '\\' && ! within_string && ! within_char )
+		if ( lexer_char() == '\\' && ! within_string && ! within_char )
 		{
 			move_forward();
 			preprocess_content.Text.Len++;
 
-			if ( (* ctx->scanner) == '\r' )
+			if ( lexer_char() == '\r' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_char() == '\n' )
 			{
 				move_forward();
 				preprocess_content.Text.Len++;
@@ -451,7 +476,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 
 				log_failure( "gen::Parser::lex: Invalid escape sequence '\\%c' (%d, %d)"
 							" in preprocessor directive '%s' (%d, %d)\n%s"
-					, (* ctx->scanner), ctx->line, ctx->column
+					, lexer_char(), ctx->line, ctx->column
 					, directive_str, preprocess_content.Line, preprocess_content.Column
 					, content_str );
 				return Lex_ReturnNull;
@@ -459,13 +484,13 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 			}
 		}
 
-		if ( (* ctx->scanner) == '\r' )
+		if ( lexer_char() == '\r' )
 		{
 			break;
 			//move_forward();
 		}
 
-		if ( (* ctx->scanner) == '\n' )
+		if ( lexer_char() == '\n' )
 		{
 			//move_forward();
 			break;
@@ -475,6 +500,7 @@ s32 lex_preprocessor_directive( LexContext* ctx )
 		preprocess_content.Text.Len++;
 	}
 
+	preprocess_content.Text.Len = ctx->scanner - preprocess_content.Text.Ptr;
 	array_append( _ctx->Lexer_Tokens, preprocess_content );
 	return Lex_Continue; // Skip found token, its all handled here.
 }
@@ -502,7 +528,7 @@ void lex_found_token( LexContext* ctx )
 	{
 		skip_whitespace();
 
-		if ( (* ctx->scanner) != '"' ) {
+		if ( lexer_char() != '"' ) {
 			type         = Tok_Spec_Extern;
 			ctx->token.Flags |= TF_Specifier;
 		}
@@ -528,7 +554,7 @@ void lex_found_token( LexContext* ctx )
 	}
 
 	Macro* macro = lookup_macro( ctx->token.Text );
-	b32 has_args          = ctx->left && (* ctx->scanner) == '(';
+	b32 has_args          = ctx->left && lexer_char() == '(';
 	b32 resolved_to_macro = false;
 	if (macro) {
 		ctx->token.Type   = macrotype_to_toktype(macro->Type);
@@ -610,13 +636,13 @@ TokArray lex( Str content )
 
 		if ( c.column == 1 )
 		{
-			if ( (* ctx->scanner) == '\r')
+			if ( lexer_char() == '\r')
 			{
 				move_forward();
 				c.token.Text.Len = 1;
 			}
 
-			if ( (* ctx->scanner) == '\n' )
+			if ( lexer_char() == '\n' )
 			{
 				move_forward();
 
@@ -634,7 +660,7 @@ TokArray lex( Str content )
 		if ( c.left <= 0 )
 			break;
 
-		switch ( (* ctx->scanner) )
+		switch ( lexer_char() )
 		{
 			case '#':
 			{
@@ -650,13 +676,13 @@ TokArray lex( Str content )
 								Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 								c.token = thanks_c;
 							}
-							if ( (* ctx->scanner) == '\r')
+							if ( lexer_char() == '\r')
 							{
 								move_forward();
 								c.token.Text.Len = 1;
 							}
 
-							if ( (* ctx->scanner) == '\n' )
+							if ( lexer_char() == '\n' )
 							{
 								c.token.Type = Tok_NewLine;
 								c.token.Text.Len++;
@@ -686,10 +712,10 @@ TokArray lex( Str content )
 					move_forward();
 				}
 
-				if ( (* ctx->scanner) == '.' )
+				if ( lexer_char() == '.' )
 				{
 					move_forward();
-					if( (* ctx->scanner) == '.' )
+					if( lexer_char() == '.' )
 					{
 						c.token.Text.Len = 3;
 						c.token.Type     = Tok_Varadic_Argument;
@@ -698,9 +724,9 @@ TokArray lex( Str content )
 					}
 					else
 					{
-						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%s", c.scanner, min( 100, c.left ) );
+						StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
 
-						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
+						log_failure( "gen::lex: invalid varadic argument, expected '...' got '..%c' (%d, %d)\n%s", lexer_char(), c.line, c.column, context_str );
 					}
 				}
 
@@ -717,7 +743,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '&' )	// &&
+				if ( lexer_char() == '&' )	// &&
 				{
 					c.token.Text.Len = 2;
 					c.token.Type     = Tok_Ampersand_DBL;
@@ -739,7 +765,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == ':' )
+				if ( lexer_char() == ':' )
 				{
 					move_forward();
 					c.token.Type = Tok_Access_StaticSymbol;
@@ -779,7 +805,7 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == ']' )
+					if ( lexer_char() == ']' )
 					{
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Operator;
@@ -827,19 +853,19 @@ TokArray lex( Str content )
 
 				move_forward();
 
-				if ( c.left && (* ctx->scanner) == '\\' )
+				if ( c.left && lexer_char() == '\\' )
 				{
 					move_forward();
 					c.token.Text.Len++;
 
-					if ( (* ctx->scanner) == '\'' )
+					if ( lexer_char() == '\'' )
 					{
 						move_forward();
 						c.token.Text.Len++;
 					}
 				}
 
-				while ( c.left && (* ctx->scanner) != '\'' )
+				while ( c.left && lexer_char() != '\'' )
 				{
 					move_forward();
 					c.token.Text.Len++;
@@ -874,7 +900,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( lexer_char() == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -909,13 +935,13 @@ TokArray lex( Str content )
 				move_forward();
 				while ( c.left )
 				{
-					if ( (* ctx->scanner) == '"' )
+					if ( lexer_char() == '"' )
 					{
 						move_forward();
 						break;
 					}
 
-					if ( (* ctx->scanner) == '\\' )
+					if ( lexer_char() == '\\' )
 					{
 						move_forward();
 						c.token.Text.Len++;
@@ -931,6 +957,7 @@ TokArray lex( Str content )
 					move_forward();
 					c.token.Text.Len++;
 				}
+				c.token.Text.Len = c.scanner - c.token.Text.Ptr;
 				goto FoundToken;
 			}
 			case '?':
@@ -958,7 +985,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( lexer_char() == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags = TF_Operator;
@@ -1013,7 +1040,7 @@ TokArray lex( Str content )
 				if (c.left)
 					move_forward();
 
-				if ( (* ctx->scanner) == '=' )
+				if ( lexer_char() == '=' )
 				{
 					c.token.Text.Len++;
 					c.token.Flags |= TF_Assign;
@@ -1023,7 +1050,7 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 3 )
 				{
 					c.token.Text.Len++;
 
@@ -1045,21 +1072,21 @@ TokArray lex( Str content )
 				{
 					move_forward();
 
-					if ( (* ctx->scanner) == '>'  )
+					if ( lexer_char() == '>'  )
 					{
 						c.token.Text.Len++;
 //						token.Type = Tok_Access_PointerToMemberSymbol;
 						c.token.Flags |= TF_AccessOperator;
 						move_forward();
 
-						if ( (* ctx->scanner) == '*' )
+						if ( lexer_char() == '*' )
 						{
 //							token.Type = Tok_Access_PointerToMemberOfPointerSymbol;
 							c.token.Text.Len++;
 							move_forward();
 						}
 					}
-					else if ( (* ctx->scanner) == '=' )
+					else if ( lexer_char() == '=' )
 					{
 						c.token.Text.Len++;
 						// token.Type = Tok_Assign_Subtract;
@@ -1068,7 +1095,7 @@ TokArray lex( Str content )
 						if (c.left)
 							move_forward();
 					}
-					else while ( c.left && (* ctx->scanner) == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 3 )
 					{
 						c.token.Text.Len++;
 
@@ -1089,32 +1116,32 @@ TokArray lex( Str content )
 
 				if ( c.left )
 				{
-					if ( (* ctx->scanner) == '=' )
+					if ( lexer_char() == '=' )
 					{
 						// token.Type = TokeType::Assign_Divide;
 						move_forward();
 						c.token.Text.Len++;
 						c.token.Flags = TF_Assign;
 					}
-					else if ( (* ctx->scanner) == '/' )
+					else if ( lexer_char() == '/' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
 						c.token.Flags    = TF_Null;
 						move_forward();
 
-						while ( c.left && (* ctx->scanner) != '\n' && (* ctx->scanner) != '\r' )
+						while ( c.left && lexer_char() != '\n' && lexer_char() != '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
 
-						if ( (* ctx->scanner) == '\r' )
+						if ( lexer_char() == '\r' )
 						{
 							move_forward();
 							c.token.Text.Len++;
 						}
-						if ( (* ctx->scanner) == '\n' )
+						if ( lexer_char() == '\n' )
 						{
 							move_forward();
 							c.token.Text.Len++;
@@ -1122,39 +1149,34 @@ TokArray lex( Str content )
 						array_append( _ctx->Lexer_Tokens, c.token );
 						continue;
 					}
-					else if ( (* ctx->scanner) == '*' )
+					else if ( lexer_char() == '*' )
 					{
 						c.token.Type     = Tok_Comment;
 						c.token.Text.Len = 2;
 						c.token.Flags    = TF_Null;
 						move_forward();
 
-						bool star   = (* ctx->scanner)    == '*';
-						bool slash  = c.scanner[1] == '/';
+						bool star   = lexer_char()    == '*';
+						bool slash  = lexer_next_char() == '/';
 						bool at_end = star && slash;
 						while ( c.left && ! at_end  )
 						{
 							move_forward();
 							c.token.Text.Len++;
 
-							star   = (* ctx->scanner)    == '*';
-							slash  = c.scanner[1] == '/';
+							star   = lexer_char()    == '*';
+							slash  = lexer_next_char() == '/';
 							at_end = star && slash;
 						}
-						c.token.Text.Len += 2;
 						move_forward();
 						move_forward();
 
-						if ( (* ctx->scanner) == '\r' )
-						{
+						if ( lexer_char() == '\r' )
 							move_forward();
-							c.token.Text.Len++;
-						}
-						if ( (* ctx->scanner) == '\n' )
-						{
+						if ( lexer_char() == '\n' )
 							move_forward();
-							c.token.Text.Len++;
-						}
+
+						c.token.Text.Len = c.scanner - c.token.Text.Ptr;
 						array_append( _ctx->Lexer_Tokens, c.token );
 						// end_line();
 						continue;
@@ -1164,20 +1186,20 @@ TokArray lex( Str content )
 			}
 		}
 
-		if ( char_is_alpha( (* ctx->scanner) ) || (* ctx->scanner) == '_' )
+		if ( char_is_alpha( lexer_char() ) || lexer_char() == '_' )
 		{
 			Str text = { c.scanner, 1 };
 			c.token.Text = text;
 			move_forward();
 
-			while ( c.left && ( char_is_alphanumeric((* ctx->scanner)) || (* ctx->scanner) == '_' ) ) {
+			while ( c.left && ( char_is_alphanumeric(lexer_char()) || lexer_char() == '_' ) ) {
 				move_forward();
 				c.token.Text.Len++;
 			}
 
 			goto FoundToken;
 		}
-		else if ( char_is_digit((* ctx->scanner)) )
+		else if ( char_is_digit(lexer_char()) )
 		{
 			// This is a very brute force lex, no checks are done for validity of literal.
 
@@ -1188,15 +1210,15 @@ TokArray lex( Str content )
 			move_forward();
 
 			if (c.left
-			&& (	(* ctx->scanner) == 'x' || (* ctx->scanner) == 'X'
-				||	(* ctx->scanner) == 'b' || (* ctx->scanner) == 'B'
-				||  (* ctx->scanner) == 'o' || (* ctx->scanner) == 'O' )
+			&& (	lexer_char() == 'x' || lexer_char() == 'X'
+				||	lexer_char() == 'b' || lexer_char() == 'B'
+				||  lexer_char() == 'o' || lexer_char() == 'O' )
 			)
 			{
 				move_forward();
 				c.token.Text.Len++;
 
-				while ( c.left && char_is_hex_digit((* ctx->scanner)) ) {
+				while ( c.left && char_is_hex_digit(lexer_char()) ) {
 					move_forward();
 					c.token.Text.Len++;
 				}
@@ -1204,35 +1226,35 @@ TokArray lex( Str content )
 				goto FoundToken;
 			}
 
-			while ( c.left && char_is_digit((* ctx->scanner)) ) {
+			while ( c.left && char_is_digit(lexer_char()) ) {
 				move_forward();
 				c.token.Text.Len++;
 			}
 
-			if ( c.left && (* ctx->scanner) == '.' )
+			if ( c.left && lexer_char() == '.' )
 			{
 				move_forward();
 				c.token.Text.Len++;
 
-				while ( c.left && char_is_digit((* ctx->scanner)) ) {
+				while ( c.left && char_is_digit(lexer_char()) ) {
 					move_forward();
 					c.token.Text.Len++;
 				}
 
 				// Handle number literal suffixes in a botched way
 				if (c.left && (
-					(* ctx->scanner) == 'l' || (* ctx->scanner) == 'L' ||  // long/long long
-					(* ctx->scanner) == 'u' || (* ctx->scanner) == 'U' ||  // unsigned
-					(* ctx->scanner) == 'f' || (* ctx->scanner) == 'F' ||  // float
-					(* ctx->scanner) == 'i' || (* ctx->scanner) == 'I' ||  // imaginary
-					(* ctx->scanner) == 'z' || (* ctx->scanner) == 'Z'))   // complex
+					lexer_char() == 'l' || lexer_char() == 'L' ||  // long/long long
+					lexer_char() == 'u' || lexer_char() == 'U' ||  // unsigned
+					lexer_char() == 'f' || lexer_char() == 'F' ||  // float
+					lexer_char() == 'i' || lexer_char() == 'I' ||  // imaginary
+					lexer_char() == 'z' || lexer_char() == 'Z'))   // complex
 				{
-					char prev = (* ctx->scanner);
+					char prev = lexer_char();
 					move_forward();
 					c.token.Text.Len++;
 
 					// Handle 'll'/'LL' as a special case when we just processed an 'l'/'L'
-					if (c.left && (prev == 'l' || prev == 'L') && ((* ctx->scanner) == 'l' || (* ctx->scanner) == 'L')) {
+					if (c.left && (prev == 'l' || prev == 'L') && (lexer_char() == 'l' || lexer_char() == 'L')) {
 						move_forward();
 						c.token.Text.Len++;
 					}
@@ -1255,10 +1277,10 @@ TokArray lex( Str content )
 			}
 
 			StrBuilder context_str = strbuilder_fmt_buf( _ctx->Allocator_Temp, "%.*s", min( 100, c.left ), c.scanner );
-			log_failure( "Failed to lex token '%c' (%d, %d)\n%s", (* ctx->scanner), c.line, c.column, context_str );
+			log_failure( "Failed to lex token '%c' (%d, %d)\n%s", lexer_char(), c.line, c.column, context_str );
 
 			// Skip to next whitespace since we can't know if anything else is valid until then.
-			while ( c.left && ! char_is_space( (* ctx->scanner) ) ) {
+			while ( c.left && ! char_is_space( lexer_char() ) ) {
 				move_forward();
 			}
 		}
@@ -1271,11 +1293,11 @@ TokArray lex( Str content )
 			{
 				Token thanks_c = { { c.scanner, 0 }, Tok_Invalid, c.line, c.column, TF_Null };
 				c.token = thanks_c;
-				if ( (* ctx->scanner) == '\r') {
+				if ( lexer_char() == '\r') {
 					move_forward();
 					c.token.Text.Len = 1;
 				}
-				if ( (* ctx->scanner) == '\n' ) 
+				if ( lexer_char() == '\n' ) 
 				{
 					c.token.Type = Tok_NewLine;
 					c.token.Text.Len++;
@@ -1301,3 +1323,5 @@ TokArray lex( Str content )
 #undef move_forward
 #undef skip_whitespace
 #undef end_line
+#undef lexer_char
+#undef lexer_next_char
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index b2ae994..aa76c81 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4077,7 +4077,7 @@ CodeExtern parser_parse_extern_link()
 	// extern "<Name>"
 
 	name.Text.Ptr += 1;
-	name.Text.Len -= 1;
+	name.Text.Len -= 2;
 
 	CodeExtern
 	result       = (CodeExtern) make_code();
-- 
2.43.0


From 11da5a05581689df4943798514e4e61508f626d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 37/96] fix: the reports of failures formatted string builders
 and missing names with the wrong directives

---
 base/components/ast.cpp               |  52 +++++-----
 base/components/interface.parsing.cpp |   2 +-
 base/components/interface.upfront.cpp | 132 +++++++++++++-------------
 base/components/parser.cpp            |  78 +++++++--------
 4 files changed, 131 insertions(+), 133 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index d8042b5..74558fe 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -29,7 +29,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Untyped:
@@ -46,7 +46,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tContent: %S", self->Content );
 		break;
@@ -61,7 +61,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -75,7 +75,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -87,7 +87,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -100,7 +100,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                                       : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) )           : txt("Null") );
@@ -112,7 +112,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt      : %S", self->InlineCmt       ? self->InlineCmt->Content                             : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs          : %S", self->Specs           ? strbuilder_to_str( code_to_strbuilder(self->Specs) ) : txt("Null") );
@@ -127,7 +127,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -140,7 +140,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt       : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes      : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )    : txt("Null") );
@@ -152,7 +152,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tBody: %S", self->Body ? code_debug_str(self->Body) : txt("Null") );
 		break;
@@ -161,7 +161,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt  : %S", self->InlineCmt   ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -171,7 +171,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -185,7 +185,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -198,7 +198,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Operator:
@@ -206,7 +206,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -222,7 +222,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                  : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
@@ -236,7 +236,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -248,7 +248,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt : %S", self->InlineCmt  ? self->InlineCmt->Content                                : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tSpecs     : %S", self->Specs      ? strbuilder_to_str( code_to_strbuilder(self->Specs))     : txt("Null") );
@@ -257,8 +257,8 @@ Str code_debug_str(Code self)
 
 		case CT_Parameters:
 			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
-			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last->Name );
-			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next->Name );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValueType : %S", self->ValueType ? strbuilder_to_str( code_to_strbuilder(self->ValueType)) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tValue     : %S", self->Value     ? strbuilder_to_str( code_to_strbuilder(self->Value))     : txt("Null") );
 		break;
@@ -289,7 +289,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tParams     : %S", self->Params      ? strbuilder_to_str( code_to_strbuilder(self->Params))      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tDeclaration: %S", self->Declaration ? strbuilder_to_str( code_to_strbuilder(self->Declaration)) : txt("Null") );
@@ -299,7 +299,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                     : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tUnderlyingType: %S", self->UnderlyingType ? strbuilder_to_str( code_to_strbuilder(self->UnderlyingType)) : txt("Null") );
@@ -317,7 +317,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tAttributes: %S", self->Attributes ? strbuilder_to_str( code_to_strbuilder(self->Attributes) ) : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tBody      : %S", self->Body       ? code_debug_str(self->Body)                                : txt("Null") );
@@ -327,7 +327,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt     : %S", self->InlineCmt      ? self->InlineCmt->Content                                      : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes    : %S", self->Attributes     ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )     : txt("Null") );
@@ -349,7 +349,7 @@ Str code_debug_str(Code self)
 			if ( self->Prev )
 				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
 			if ( self->Next )
-				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
 
 			strbuilder_append_fmt( result, "\n\tInlineCmt   : %S", self->InlineCmt    ? self->InlineCmt->Content                                    : txt("Null") );
 			strbuilder_append_fmt( result, "\n\tAttributes  : %S", self->Attributes   ? strbuilder_to_str( code_to_strbuilder(self->Attributes) )   : txt("Null") );
@@ -929,8 +929,6 @@ bool code_is_equal( Code self, Code other )
 						{
 							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
 									"AST  : %S\n"
-									"Other: %S\n"
-									"For ast member: %S\n"
 								, code_debug_str(curr)
 							);
 
diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index d5f4bef..f659aea 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -57,7 +57,7 @@ CodeConstructor parse_constructor( Str def )
 				break;
 
 			default :
-				log_failure( "Invalid specifier %s for variable\n%S", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 		}
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 94af5f7..8712bac 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -380,11 +380,11 @@ forceinline
 bool name__check( char const* context, Str name )
 {
 	if ( name.Len <= 0 ) {
-		log_failure( "gen::%s: Invalid name length provided - %d",  name.Len );
+		log_failure( "gen::%s: Invalid name length provided - %d", context, (s32) name.Len );
 		return false;
 	}
 	if ( name.Ptr == nullptr ) {
-		log_failure( "gen::%s: name is null" );
+		log_failure( "gen::%s: name is null", context );
 		return false;
 	}
 	return true;
@@ -476,7 +476,7 @@ CodeComment def_comment( Str content )
 CodeConstructor def_constructor( Opts_def_constructor p )
 {
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure("gen::def_constructor: params must be of Parameters type - %s", code_debug_str((Code)p.params));
+		log_failure("gen::def_constructor: params must be of Parameters type - %S", code_debug_str((Code)p.params));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -496,7 +496,7 @@ CodeConstructor def_constructor( Opts_def_constructor p )
 			break;
 
 			default:
-				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_constructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -517,12 +517,12 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_class: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
-		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -544,7 +544,7 @@ CodeClass def_class( Str name, Opts_def_struct p )
 			break;
 
 			default:
-				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_class: body must be either of Class_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -588,7 +588,7 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 CodeDestructor def_destructor( Opts_def_destructor p )
 {
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_destructor: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -605,7 +605,7 @@ CodeDestructor def_destructor( Opts_def_destructor p )
 			break;
 
 			default:
-				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %s", code_debug_str(p.body));
+				log_failure("gen::def_destructor: body must be either of Function_Body or Untyped type - %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -626,12 +626,12 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 		return InvalidCode;
 	}
 	if ( p.type && p.type->Type != CT_Typename ) {
-		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %s", code_debug_str(p.type) );
+		log_failure( "gen::def_enum: enum underlying type provided was not of type Typename: %S", code_debug_str(p.type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_enum: attributes was not a 'PlatformAttributes' type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -649,7 +649,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 			break;
 
 			default:
-				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %s", code_debug_str(p.body));
+				log_failure( "gen::def_enum: body must be of Enum_Body or Untyped type %S", code_debug_str(p.body));
 				return InvalidCode;
 		}
 
@@ -701,7 +701,7 @@ CodeExtern def_extern_link( Str name, CodeBody body )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Extern_Linkage_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_extern_linkage: body is not of extern_linkage or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -732,7 +732,7 @@ CodeFriend def_friend( Code declaration )
 		break;
 
 		default:
-			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %s", code_debug_str(declaration));
+			log_failure("gen::def_friend: requires declartion to have class, function, operator, or struct - %S", code_debug_str(declaration));
 			return InvalidCode;
 	}
 	CodeFriend
@@ -749,22 +749,22 @@ CodeFn def_function( Str name, Opts_def_function p )
 		return InvalidCode;
 	}
 	if ( p.params && p.params->Type != CT_Parameters ) {
-		log_failure( "gen::def_function: params was not a `Parameters` type: %s", code_debug_str(p.params) );
+		log_failure( "gen::def_function: params was not a `Parameters` type: %S", code_debug_str(p.params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.ret_type && p.ret_type->Type != CT_Typename ) {
-		log_failure( "gen::def_function: ret_type was not a Typename: %s", code_debug_str(p.ret_type) );
+		log_failure( "gen::def_function: ret_type was not a Typename: %S", code_debug_str(p.ret_type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specs && p.specs-> Type != CT_Specifiers ) {
-		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %s", code_debug_str(p.specs) );
+		log_failure( "gen::def_function: specifiers was not a `Specifiers` type: %S", code_debug_str(p.specs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attrs && p.attrs->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %s", code_debug_str(p.attrs) );
+		log_failure( "gen::def_function: attributes was not a `PlatformAttributes` type: %S", code_debug_str(p.attrs) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -784,7 +784,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 
 			default:
 			{
-				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_function: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				return InvalidCode;
 			}
 		}
@@ -805,7 +805,7 @@ CodeFn def_function( Str name, Opts_def_function p )
 CodeInclude def_include( Str path, Opts_def_include p )
 {
 	if ( path.Len <= 0 || path.Ptr == nullptr ) {
-		log_failure( "gen::def_include: Invalid path provided - %d" );
+		log_failure( "gen::def_include: Invalid path provided - %d", (s32) path.Len );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -846,7 +846,7 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 		return InvalidCode;
 	}
 	if ( body && body->Type != CT_Namespace_Body && body->Type != CT_Untyped ) {
-		log_failure("gen::def_namespace: body is not of namespace or untyped type %s", code_debug_str(body));
+		log_failure("gen::def_namespace: body is not of namespace or untyped type %S", code_debug_str(body));
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -862,12 +862,12 @@ CodeNS def_namespace( Str name, CodeBody body, Opts_def_namespace p )
 CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_operator: PlatformAttributes was provided but its not of attributes type: %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_operator: Specifiers was provided but its not of specifiers type: %S", code_debug_str(p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -903,7 +903,7 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 
 			default:
 			{
-				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %s", code_debug_str(p.body));
+				log_failure("gen::def_operator: body must be either of Function_Body, Execution, or Untyped type. %S", code_debug_str(p.body));
 				GEN_DEBUG_TRAP();
 				return InvalidCode;
 			}
@@ -933,7 +933,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_operator_cast: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_operator_cast: type is not a typename - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -944,7 +944,7 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		result->Type = CT_Operator_Cast;
 
 		if ( p.body->Type != CT_Function_Body && p.body->Type != CT_Execution ) {
-			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %s", code_debug_str(p.body) );
+			log_failure( "gen::def_operator_cast: body is not of function body or execution type - %S", code_debug_str(p.body) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -966,11 +966,11 @@ CodeParams def_param( CodeTypename type, Str name, Opts_def_param p )
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename ) {
-		log_failure( "gen::def_param: type is not a typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_param: type is not a typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped ) {
-		log_failure( "gen::def_param: value is not untyped - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_param: value is not untyped - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeParams
@@ -1037,17 +1037,17 @@ CodeSpecifiers def_specifier( Specifier spec )
 CodeStruct def_struct( Str name, Opts_def_struct p )
 {
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %s", code_debug_str(cast(Code, p.attributes)) );
+		log_failure( "gen::def_struct: attributes was not a `PlatformAttributes` type - %S", code_debug_str(cast(Code, p.attributes)) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
-		log_failure( "gen::def_struct: parent was not a `Struct` type - %s", code_debug_str(p.parent) );
+		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.body && p.body->Type != CT_Struct_Body ) {
-		log_failure( "gen::def_struct: body was not a Struct_Body type - %s", code_debug_str(p.body) );
+		log_failure( "gen::def_struct: body was not a Struct_Body type - %S", code_debug_str(p.body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1083,7 +1083,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		return InvalidCode;
 	}
 	if ( params && params->Type != CT_Parameters ){
-		log_failure( "gen::def_template: params is not of parameters type - %s", code_debug_str(params) );
+		log_failure( "gen::def_template: params is not of parameters type - %S", code_debug_str(params) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1097,7 +1097,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 		break;
 
 		default:
-			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %s", code_debug_str(declaration) );
+			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1118,17 +1118,17 @@ CodeTypename def_type( Str name, Opts_def_type p )
 	CodeSpecifiers specifiers = p.specifiers;
 	CodeAttributes attributes = p.attributes;
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_type: attributes is not of attributes type - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_type: attributes is not of attributes type - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
-		log_failure( "gen::def_type: specifiers is not of specifiers type - %s", code_debug_str((Code)p.specifiers) );
+		log_failure( "gen::def_type: specifiers is not of specifiers type - %S", code_debug_str((Code)p.specifiers) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.array_expr && p.array_expr->Type != CT_Untyped ) {
-		log_failure( "gen::def_type: arrayexpr is not of untyped type - %s", code_debug_str((Code)p.array_expr) );
+		log_failure( "gen::def_type: arrayexpr is not of untyped type - %S", code_debug_str((Code)p.array_expr) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1164,12 +1164,12 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Typename:
 			break;
 		default:
-			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %s", code_debug_str((Code)type) );
+			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %s", code_debug_str((Code)p.attributes) );
+		log_failure( "gen::def_typedef: attributes was not a PlatformAttributes - %S", code_debug_str((Code)p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1191,7 +1191,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	if ( name.Len <= 0  )
 	{
 		if (type->Type != CT_Untyped) {
-			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %s", code_debug_str(type) );
+			log_failure( "gen::def_typedef: name was empty and type was not untyped (indicating its a function typedef) - %S", code_debug_str(type) );
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
@@ -1213,12 +1213,12 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 		return InvalidCode;
 	}
 	if ( body->Type != CT_Union_Body ) {
-		log_failure( "gen::def_union: body was not a Union_Body type - %s", code_debug_str(body) );
+		log_failure( "gen::def_union: body was not a Union_Body type - %S", code_debug_str(body) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_union: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1247,7 +1247,7 @@ CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 		return InvalidCode;
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes ) {
-		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_using: attributes was not a PlatformAttributes type - %S", code_debug_str(p.attributes) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1282,22 +1282,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	}
 	if ( p.attributes && p.attributes->Type != CT_PlatformAttributes )
 	{
-		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %s", code_debug_str(p.attributes) );
+		log_failure( "gen::def_variable: attributes was not a `PlatformAttributes` type - %S", code_debug_str(p.attributes) );
 		return InvalidCode;
 	}
 	if ( p.specifiers && p.specifiers->Type != CT_Specifiers )
 	{
-		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %s", code_debug_str(p.specifiers) );
+		log_failure( "gen::def_variable: specifiers was not a `Specifiers` type - %S", code_debug_str(p.specifiers) );
 		return InvalidCode;
 	}
 	if ( type->Type != CT_Typename )
 	{
-		log_failure( "gen::def_variable: type was not a Typename - %s", code_debug_str(type) );
+		log_failure( "gen::def_variable: type was not a Typename - %S", code_debug_str(type) );
 		return InvalidCode;
 	}
 	if ( p.value && p.value->Type != CT_Untyped )
 	{
-		log_failure( "gen::def_variable: value was not a `Untyped` type - %s", code_debug_str(p.value) );
+		log_failure( "gen::def_variable: value was not a `Untyped` type - %S", code_debug_str(p.value) );
 		return InvalidCode;
 	}
 	CodeVar
@@ -1357,7 +1357,7 @@ CodeBody def_class_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1389,7 +1389,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_class_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1444,7 +1444,7 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		return InvalidCode;                                                                                                                       \
 	}                                                                                                                                             \
 	if (current->Type != CT_Parameters_Define ) {                                                                                                 \
-		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %s", code_debug_str(current) ); \
+		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
 	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
@@ -1482,7 +1482,7 @@ CodeBody def_enum_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1508,7 +1508,7 @@ CodeBody def_enum_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_enum_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_enum_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -1540,7 +1540,7 @@ CodeBody def_export_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1572,7 +1572,7 @@ CodeBody def_export_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_export_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1606,7 +1606,7 @@ CodeBody def_extern_link_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1639,7 +1639,7 @@ CodeBody def_extern_link_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_extern_linkage_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1673,7 +1673,7 @@ CodeBody def_function_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" stringize(def_function_body) ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1705,7 +1705,7 @@ CodeBody def_function_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_function_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1744,7 +1744,7 @@ CodeBody def_global_body( s32 num, ... )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1780,7 +1780,7 @@ CodeBody def_global_body_arr( s32 num, Code* codes )
 				continue;
 
 			GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_global_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1815,7 +1815,7 @@ CodeBody def_namespace_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -1847,7 +1847,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_namespace_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default: break;
@@ -1901,7 +1901,7 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		return InvalidCode;                                                                                            \
 	}                                                                                                                  \
 	if (current->Type != CT_Parameters ) {                                                                             \
-		log_failure("gen::def_params: Code in coes array is not of paramter type - %s", code_debug_str(current) );     \
+		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
 	CodeParams current = (CodeParams)code_duplicate(* codes);
@@ -1992,7 +1992,7 @@ CodeBody def_struct_body( s32 num, ... )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry));
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry));
 				return InvalidCode;
 
 			default:
@@ -2024,7 +2024,7 @@ CodeBody def_struct_body_arr( s32 num, Code* codes )
 		switch (entry->Type)
 		{
 			GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
-				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %s", code_debug_str(entry) );
+				log_failure("gen::" "def_struct_body" ": Entry type is not allowed: %S", code_debug_str(entry) );
 				return InvalidCode;
 
 			default:
@@ -2056,7 +2056,7 @@ CodeBody def_union_body( s32 num, ... )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed - %s. Must be of untyped or comment type.", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed - %S. Must be of untyped or comment type.", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
@@ -2082,7 +2082,7 @@ CodeBody def_union_body_arr( s32 num, Code* codes )
 			return InvalidCode;
 		}
 		if ( entry->Type != CT_Untyped && entry->Type != CT_Comment ) {
-			log_failure("gen::def_union_body: Entry type is not allowed: %s", code_debug_str(entry) );
+			log_failure("gen::def_union_body: Entry type is not allowed: %S", code_debug_str(entry) );
 			return InvalidCode;
 		}
 		body_append(result, entry );
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index aa76c81..50b2509 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -80,7 +80,7 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
-		log_failure( "No tokens left.\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "No tokens left.\n%SB", parser_to_strbuilder(_ctx->parser) );
 		return false;
 	}
 
@@ -103,7 +103,7 @@ bool lex__eat(TokArray* self, TokType type )
 	if ( not_accepted )
 	{
 		Token tok = * lex_current( self, lex_skip_formatting );
-		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %.*s ' (%d, %d)`\n%s"
+		log_failure( "Parse Error, TokArray::eat, Expected: ' %s ' not ' %.*s ' (%d, %d)`\n%SB"
 			, toktype_to_str(type).Ptr
 			, at_idx.Text.Len, at_idx.Text.Ptr
 			, tok.Line
@@ -685,7 +685,7 @@ internal
 Code parse_class_struct( TokType which, bool inplace_def )
 {
 	if ( which != Tok_Decl_Class && which != Tok_Decl_Struct ) {
-		log_failure( "Error, expected class or struct, not %s\n%s", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected class or struct, not %S\n%SB", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
 		return InvalidCode;
 	}
 
@@ -909,7 +909,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				//if ( currtok.Text[0] != '~' )
 				//{
-				//	log_failure( "Operator token found in global body but not destructor unary negation\n%s", to_strbuilder(_ctx->parser) );
+				//	log_failure( "Operator token found in global body but not destructor unary negation\n%SB", to_strbuilder(_ctx->parser) );
 				//	return InvalidCode;
 				//}
 
@@ -983,7 +983,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( ! tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -1121,7 +1121,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 
 		if ( member == Code_Invalid )
 		{
-			log_failure( "Failed to parse member\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1223,7 +1223,7 @@ Code parse_complicated_definition( TokType which )
 			return result;
 		}
 
-		log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1278,7 +1278,7 @@ Code parse_complicated_definition( TokType which )
 
 		if ( ! ok_to_parse )
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1297,7 +1297,7 @@ Code parse_complicated_definition( TokType which )
 			&&	( tokens.Arr[idx - 4].Type != which))
 		)
 		{
-			log_failure( "Unsupported or bad member definition after %s declaration\n%s", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1345,7 +1345,7 @@ Code parse_assignment_expression()
 
 	if ( currtok.Type == Tok_Statement_End && currtok.Type != Tok_Comma )
 	{
-		log_failure( "Expected expression after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Expected expression after assignment operator\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -1513,7 +1513,7 @@ CodeFn parse_function_after_name(
 
 			default:
 			{
-				log_failure("Body must be either of Function_Body or Untyped type, %s\n%s", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
+				log_failure("Body must be either of Function_Body or Untyped type, %S\n%SB", code_debug_str(body), parser_to_strbuilder(_ctx->parser));
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -1659,7 +1659,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Decl_Extern_Linkage:
 				if ( which == CT_Extern_Linkage_Body )
-					log_failure( "Nested extern linkage\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Nested extern linkage\n%SB", parser_to_strbuilder(_ctx->parser) );
 
 				member = cast(Code, parser_parse_extern_link());
 				// extern "..." { ... }
@@ -1750,7 +1750,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Export: {
 				if ( which == CT_Export_Body )
-					log_failure( "Nested export declaration\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Nested export declaration\n%SB", parser_to_strbuilder(_ctx->parser) );
 
 				member = cast(Code, parser_parse_export_body());
 				// export { ... }
@@ -1759,7 +1759,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Module_Import: {
 				// import ...
-				log_failure( "gen::%s: This function is not implemented" );
+				log_failure( "Module imports are not implemented\n%SB", parser_to_strbuilder(_ctx->parser) );
 				return InvalidCode;
 			}
 			break;
@@ -1768,7 +1768,7 @@ CodeBody parse_global_nspace( CodeType which )
 			{
 				if (tok_is_attribute(currtok))
 				{
-					log_failure("Unbounded macro expression residing in class/struct body\n%S", parser_to_strbuilder(_ctx->parser));
+					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
 				}
 			}
@@ -2067,7 +2067,7 @@ Token parse_identifier( bool* possible_member_function )
 		Token invalid = NullToken;
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of static symbol identifier\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of static symbol identifier\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2082,7 +2082,7 @@ Token parse_identifier( bool* possible_member_function )
 				return name;
 			}
 
-			log_failure( "Error, had a ~ operator after %SB but not a destructor\n%s", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, had a ~ operator after %S but not a destructor\n%SB", toktype_to_str( prevtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2102,7 +2102,7 @@ Token parse_identifier( bool* possible_member_function )
 
 		if ( currtok.Type != Tok_Identifier )
 		{
-			log_failure( "Error, expected static symbol identifier, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected static symbol identifier, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return invalid;
 		}
@@ -2133,7 +2133,7 @@ CodeInclude parse_include()
 
 	if ( ! check( Tok_String ))
 	{
-		log_failure( "Error, expected include string after #include\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected include string after #include\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2181,7 +2181,7 @@ CodeOperator parse_operator_after_ret_type(
 		&& currtok.Type != Tok_Ampersand
 		&& currtok.Type != Tok_Ampersand_DBL )
 	{
-		log_failure( "Expected operator after 'operator' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Expected operator after 'operator' keyword\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2434,7 +2434,7 @@ CodeOperator parse_operator_after_ret_type(
 			{
 				if ( op == Op_Invalid )
 				{
-					log_failure( "Invalid operator '%s'\n%s", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Invalid operator '%S'\n%SB", prevtok.Text, parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2444,7 +2444,7 @@ CodeOperator parse_operator_after_ret_type(
 
 	if ( op == Op_Invalid )
 	{
-		log_failure( "Invalid operator '%s'\n%s", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Invalid operator '%S'\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2649,7 +2649,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		else
 		{
 			if ( expects_function ) {
-				log_failure( "Expected function declaration (consteval was used)\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Expected function declaration (consteval was used)\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -2705,7 +2705,7 @@ CodePragma parse_pragma()
 	// #pragma
 
 	if ( ! check( Tok_Preprocess_Content )) {
-		log_failure( "Error, expected content after #pragma\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #pragma\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -2817,7 +2817,7 @@ CodeParams parse_params( bool use_template_capture )
 			Token value_tok = currtok;
 
 			if ( currtok.Type == Tok_Comma ) {
-				log_failure( "Expected value after assignment operator\n%s.", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Expected value after assignment operator\n%SB.", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -2926,7 +2926,7 @@ CodeParams parse_params( bool use_template_capture )
 				Token value_tok = currtok;
 
 				if ( currtok.Type == Tok_Comma ) {
-					log_failure( "Expected value after assignment operator\n%s", parser_to_strbuilder(_ctx->parser) );
+					log_failure( "Expected value after assignment operator\n%SB", parser_to_strbuilder(_ctx->parser) );
 					parser_pop(& _ctx->parser);
 					return InvalidCode;
 				}
@@ -2987,7 +2987,7 @@ CodeParams parse_params( bool use_template_capture )
 	else
 	{
 		if ( ! check( Tok_Operator ) || currtok.Text.Ptr[ 0 ] != '>' ) {
-			log_failure( "Expected '<' after 'template' keyword\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Expected '<' after 'template' keyword\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -3006,7 +3006,7 @@ CodePreprocessCond parse_preprocess_cond()
 
 	if ( ! tok_is_preprocess_cond(currtok) )
 	{
-		log_failure( "Error, expected preprocess conditional\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected preprocess conditional\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3019,7 +3019,7 @@ CodePreprocessCond parse_preprocess_cond()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3047,7 +3047,7 @@ Code parse_simple_preprocess( TokType which )
 
 	Macro* macro = lookup_macro( full_macro.Text );
 	if ( which != Tok_Preprocess_Unsupported && macro == nullptr ) {
-		log_failure("Expected the macro %S to be registered\n%S", full_macro,  parser_to_strbuilder(_ctx->parser));
+		log_failure("Expected the macro %S to be registered\n%SB", full_macro.Text,  parser_to_strbuilder(_ctx->parser));
 		return NullCode;
 	}
 
@@ -3609,7 +3609,7 @@ CodeDefine parser_parse_define()
 	define = (CodeDefine) make_code();
 	define->Type = CT_Preprocess_Define;
 	if ( ! check( Tok_Identifier ) ) {
-		log_failure( "Error, expected identifier after #define\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected identifier after #define\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3657,7 +3657,7 @@ CodeDefine parser_parse_define()
 
 	if ( ! check( Tok_Preprocess_Content ))
 	{
-		log_failure( "Error, expected content after #define %s\n%s", define->Name, parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Error, expected content after #define %S\n%SB", define->Name, parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
@@ -3707,7 +3707,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		eat( Tok_Operator );
 	else
 	{
-		log_failure( "Expected destructor '~' token\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Expected destructor '~' token\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop( & _ctx->parser);
 		return InvalidCode;
 	}
@@ -3849,7 +3849,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 		type = parser_parse_type(parser_not_from_template, nullptr);
 		if ( cast(Code, type) == Code_Invalid )
 		{
-			log_failure( "Failed to parse enum classifier\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Failed to parse enum classifier\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -3882,7 +3882,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 		{
 			if ( ! expects_entry )
 			{
-				log_failure( "Did not expect an entry after last member of enum body.\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Did not expect an entry after last member of enum body.\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				break;
 			}
@@ -3992,7 +3992,7 @@ CodeEnum parser_parse_enum( bool inplace_def )
 			}
 
 			if ( member == Code_Invalid ) {
-				log_failure( "Failed to parse member\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Failed to parse member\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -4087,7 +4087,7 @@ CodeExtern parser_parse_extern_link()
 	CodeBody entry = parser_parse_extern_link_body();
 	if ( cast(Code, entry) == Code_Invalid )
 	{
-		log_failure( "Failed to parse body\n%s", parser_to_strbuilder(_ctx->parser) );
+		log_failure( "Failed to parse body\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return result;
 	}
@@ -4813,7 +4813,7 @@ else if ( currtok.Type == Tok_DeclType )
 			_ctx->parser.Scope->Name = name.Text;
 			if ( ! tok_is_valid(name) )
 			{
-				log_failure( "Error, failed to type signature\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Error, failed to type signature\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return InvalidCode;
 			}
@@ -4834,7 +4834,7 @@ else if ( currtok.Type == Tok_DeclType )
 		_ctx->parser.Scope->Name = name.Text;
 		if ( ! tok_is_valid(name) )
 		{
-			log_failure( "Error, failed to type signature\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, failed to type signature\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
-- 
2.43.0


From 7930d25631848691ea7ef15c41721cb6b9551cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 38/96] fix: more than sixteen specifiers overflowed the
 specifiers found

---
 base/components/parser.cpp | 55 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 50b2509..408c02a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1033,6 +1033,11 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers == count_of(specs_found) ) {
+						log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -1819,6 +1824,11 @@ CodeBody parse_global_nspace( CodeType which )
 					if (ignore_spec)
 						break;
 
+					if ( NumSpecifiers == count_of(specs_found) ) {
+						log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+						parser_pop(& _ctx->parser);
+						return InvalidCode;
+					}
 					specs_found[NumSpecifiers] = spec;
 					NumSpecifiers++;
 					eat( currtok.Type );
@@ -4135,6 +4145,11 @@ CodeFriend parser_parse_friend()
 			if ( spec == Spec_Const )
 				break;
 
+			if ( NumSpecifiers == count_of(specs_found) ) {
+				log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -4252,6 +4267,11 @@ CodeFn parser_parse_function()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4353,6 +4373,11 @@ CodeOperator parser_parse_operator()
 		if ( spec == Spec_Const )
 			continue;
 
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4597,6 +4622,11 @@ CodeTemplate parser_parse_template()
 				if ( spec == Spec_Const )
 					break;
 
+				if ( NumSpecifiers == count_of(specs_found) ) {
+					log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -4714,6 +4744,11 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 			return InvalidCode;
 		}
 
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4857,6 +4892,11 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 		}
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
@@ -4989,6 +5029,11 @@ else if ( currtok.Type == Tok_DeclType )
 					return InvalidCode;
 				}
 
+				if ( NumSpecifiers == count_of(specs_found) ) {
+					log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+					parser_pop(& _ctx->parser);
+					return InvalidCode;
+				}
 				specs_found[ NumSpecifiers ] = spec;
 				NumSpecifiers++;
 				eat( currtok.Type );
@@ -5059,6 +5104,11 @@ else if ( currtok.Type == Tok_DeclType )
 				return InvalidCode;
 			}
 
+			if ( NumSpecifiers == count_of(specs_found) ) {
+				log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
 			specs_found[ NumSpecifiers ] = spec;
 			NumSpecifiers++;
 			eat( currtok.Type );
@@ -5652,6 +5702,11 @@ CodeVar parser_parse_variable()
 		if ( spec == Spec_Const )
 			break;
 
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
 		specs_found[NumSpecifiers] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
-- 
2.43.0


From cb4be3dbc4997f285503db4a261f3f5a36ca7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 39/96] fix: looking ahead in the tokens read past their end

---
 base/components/parser.cpp | 116 ++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 47 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 408c02a..009eb65 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -77,6 +77,16 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 	return result;
 }
 
+// The token at an index that may be out of the bounds of the tokens when looking around
+internal inline
+Token tokarray_at( TokArray self, s32 idx )
+{
+	if ( idx < 0 || idx >= scast(s32, array_num(self.Arr)) )
+		return NullToken;
+
+	return self.Arr[ idx ];
+}
+
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
@@ -1171,17 +1181,17 @@ Code parse_complicated_definition( TokType which )
 	b32 had_paren   = false;
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
-		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Open )
+		if ( tokarray_at( tokens, idx ).Type == Tok_BraceCurly_Open )
 			level++;
 
-		if ( tokens.Arr[ idx ].Type == Tok_BraceCurly_Close ) {
+		if ( tokarray_at( tokens, idx ).Type == Tok_BraceCurly_Close ) {
 			level--;
 			had_def = level == 0;
 		}
 
 		b32 found_fn_def = had_def && had_paren;
 
-		if ( level == 0 && (tokens.Arr[ idx ].Type == Tok_Statement_End || found_fn_def) )
+		if ( level == 0 && (tokarray_at( tokens, idx ).Type == Tok_Statement_End || found_fn_def) )
 			break;
 	}
 
@@ -1204,23 +1214,23 @@ Code parse_complicated_definition( TokType which )
 		return result;
 	}
 
-	Token tok = tokens.Arr[ idx - 1 ];
+	Token tok = tokarray_at( tokens, idx - 1 );
 	if ( tok_is_specifier(tok) && spec_is_trailing( str_to_specifier( tok.Text)) )
 	{
 		// <which> <type_identifier>(...) <specifier> ...;
 
 		s32   spec_idx = idx - 1;
-		Token spec     = tokens.Arr[spec_idx];
+		Token spec     = tokarray_at( tokens, spec_idx );
 		while ( tok_is_specifier(spec) && spec_is_trailing( str_to_specifier( spec.Text)) )
 		{
 			-- spec_idx;
-			spec = tokens.Arr[spec_idx];
+			spec = tokarray_at( tokens, spec_idx );
 		}
 
-		if ( tokens.Arr[spec_idx].Type == Tok_Paren_Close )
+		if ( tokarray_at( tokens, spec_idx ).Type == Tok_Paren_Close )
 		{
 			// Forward declaration with trailing specifiers for a procedure
-			tok = tokens.Arr[spec_idx];
+			tok = tokarray_at( tokens, spec_idx );
 
 			Code result = parse_operator_function_or_variable( false, NullCode, NullCode );
 			// <Attributes> <Specifiers> <ReturnType/ValueType> <operator <Op>, or Name> ...
@@ -1234,7 +1244,7 @@ Code parse_complicated_definition( TokType which )
 	}
 	if ( tok.Type == Tok_Identifier )
 	{
-		tok = tokens.Arr[ idx - 2 ];
+		tok = tokarray_at( tokens, idx - 2 );
 		bool is_indirection = tok.Type == Tok_Ampersand || tok.Type == Tok_Star;
 		bool ok_to_parse    = false;
 
@@ -1255,15 +1265,15 @@ Code parse_complicated_definition( TokType which )
 			parser_pop(& _ctx->parser);
 			return (Code) result;
 		}
-		else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
+		else if ( tok.Type == Tok_Identifier && tokarray_at( tokens, idx - 3 ).Type == which )
 		{
 			// Its a variable with type ID using <which> namespace.
 			// <which> <type_identifier> <identifier>;
 			ok_to_parse = true;
 		}
 		else if ( tok.Type == Tok_Assign_Classifer
-		&& (	( tokens.Arr[idx - 5].Type == which && tokens.Arr[idx - 4].Type == Tok_Decl_Class )
-			||	( tokens.Arr[idx - 4].Type == which))
+		&& (	( tokarray_at( tokens, idx - 5 ).Type == which && tokarray_at( tokens, idx - 4 ).Type == Tok_Decl_Class )
+			||	( tokarray_at( tokens, idx - 4 ).Type == which))
 		)
 		{
 			// Its a forward declaration of an enum
@@ -1295,11 +1305,11 @@ Code parse_complicated_definition( TokType which )
 	}
 	else if ( tok.Type >= Tok_Type_Unsigned && tok.Type <= Tok_Type_MS_W64 )
 	{
-		tok = tokens.Arr[ idx - 2 ];
+		tok = tokarray_at( tokens, idx - 2 );
 
 		if ( tok.Type != Tok_Assign_Classifer
-		|| (	( tokens.Arr[idx - 5].Type != which && tokens.Arr[idx - 4].Type != Tok_Decl_Class )
-			&&	( tokens.Arr[idx - 4].Type != which))
+		|| (	( tokarray_at( tokens, idx - 5 ).Type != which && tokarray_at( tokens, idx - 4 ).Type != Tok_Decl_Class )
+			&&	( tokarray_at( tokens, idx - 4 ).Type != which))
 		)
 		{
 			log_failure( "Unsupported or bad member definition after %S declaration\n%SB", toktype_to_str(which), parser_to_strbuilder(_ctx->parser) );
@@ -1868,12 +1878,12 @@ CodeBody parse_global_nspace( CodeType which )
 
 					for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 					{
-						Token tok = _ctx->parser.Tokens.Arr[ idx ];
+						Token tok = tokarray_at( _ctx->parser.Tokens, idx );
 
 						if ( tok.Type == Tok_Identifier )
 						{
 							idx++;
-							tok = _ctx->parser.Tokens.Arr[ idx ];
+							tok = tokarray_at( _ctx->parser.Tokens, idx );
 							if ( tok.Type == Tok_Access_StaticSymbol )
 								continue;
 
@@ -1938,22 +1948,24 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	TokArray tokens = _ctx->parser.Tokens;
 
 	s32   idx = tokens.Idx;
-	Token nav = tokens.Arr[ idx ];
-	for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[ idx ] )
+	Token nav = tokarray_at( tokens, idx );
+	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
+		nav = tokarray_at( tokens, idx );
 		if ( nav.Text.Ptr[0] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
 			s32 template_level = 0;
-			for ( ; idx < array_num(tokens.Arr); idx++, nav = tokens.Arr[idx] )
+			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
+				nav = tokarray_at( tokens, idx );
 				if (nav.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
 				if (nav.Text.Ptr[ 0 ] == '>')
 					-- template_level;
-				if (nav.Type == Tok_Operator && nav.Text.Ptr[1] == '>')
+				if (nav.Type == Tok_Operator && nav.Text.Len > 1 && nav.Text.Ptr[1] == '>')
 					-- template_level;
 
 				if ( nav.Type == Tok_Paren_Open)
@@ -1973,8 +1985,12 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			break;
 	}
 
+	// Every step to the left of the parenthesis has to stay within the definition
+	if ( idx >= array_num(tokens.Arr) || idx <= tokens.Idx )
+		return result;
+
 	-- idx;
-	Token tok_right = tokens.Arr[idx];
+	Token tok_right = tokarray_at( tokens, idx );
 	Token tok_left  = NullToken;
 
 	if (tok_right.Type != Tok_Identifier)
@@ -1983,23 +1999,29 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 		return result;
 	}
 
+	if ( idx <= tokens.Idx )
+		return result;
+
 	-- idx;
-	tok_left = tokens.Arr[idx];
+	tok_left = tokarray_at( tokens, idx );
 	// <Attributes> <Specifiers> ... <Identifier>
 
 	bool possible_destructor = false;
 	if ( tok_left.Type == Tok_Operator && tok_left.Text.Ptr[0] == '~')
 	{
+		if ( idx <= tokens.Idx )
+			return result;
+
 		possible_destructor = true;
 		-- idx;
-		tok_left = tokens.Arr[idx];
+		tok_left = tokarray_at( tokens, idx );
 	}
 
-	if ( tok_left.Type != Tok_Access_StaticSymbol )
+	if ( tok_left.Type != Tok_Access_StaticSymbol || idx <= tokens.Idx )
 		return result;
 
 	-- idx;
-	tok_left = tokens.Arr[idx];
+	tok_left = tokarray_at( tokens, idx );
 	// <Attributes> <Specifiers> ... :: <Identifier>
 
 	// We search toward the left until we find the next valid identifier
@@ -2012,7 +2034,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 
 		if (tok_left.Text.Ptr[ 0 ] == '>')
 			-- template_level;
-		if (tok_left.Type == Tok_Operator && tok_left.Text.Ptr[1] == '>')
+		if (tok_left.Type == Tok_Operator && tok_left.Text.Len > 1 && tok_left.Text.Ptr[1] == '>')
 			-- template_level;
 
 		if ( template_level != 0 && tok_left.Type == Tok_Paren_Open)
@@ -2025,10 +2047,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			break;
 
 		-- idx;
-		tok_left = tokens.Arr[idx];
+		tok_left = tokarray_at( tokens, idx );
 	}
 
-	bool is_same = c_str_compare_len( tok_right.Text.Ptr, tok_left.Text.Ptr, tok_right.Text.Len ) == 0;
+	bool is_same = str_are_equal( tok_right.Text, tok_left.Text );
 	if (tok_left.Type == Tok_Identifier && is_same)
 	{
 		// We have found the pattern we desired
@@ -2400,10 +2422,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( tokarray_at( _ctx->parser.Tokens, idx ).Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = tokarray_at( _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2424,10 +2446,10 @@ CodeOperator parse_operator_after_ret_type(
 
 				s32 idx = _ctx->parser.Tokens.Idx + 1;
 				{
-					while ( _ctx->parser.Tokens.Arr[ idx ].Type == Tok_NewLine )
+					while ( tokarray_at( _ctx->parser.Tokens, idx ).Type == Tok_NewLine )
 						idx++;
 				}
-				Token next = _ctx->parser.Tokens.Arr[idx];
+				Token next = tokarray_at( _ctx->parser.Tokens, idx );
 				if ( currtok.Type == Tok_Operator && c_str_compare_len(currtok.Text.Ptr, "[]", 2) == 0)
 				{
 					eat(Tok_Operator);
@@ -2581,12 +2603,12 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 
 	for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 	{
-		Token tok = _ctx->parser.Tokens.Arr[ idx ];
+		Token tok = tokarray_at( _ctx->parser.Tokens, idx );
 
 		if ( tok.Type == Tok_Identifier )
 		{
 			idx++;
-			tok = _ctx->parser.Tokens.Arr[ idx ];
+			tok = tokarray_at( _ctx->parser.Tokens, idx );
 			if ( tok.Type == Tok_Access_StaticSymbol )
 				continue;
 
@@ -2616,7 +2638,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		//                  (         350.0f    ,         <---  Could be the scenario
 		// Example : <Capture_Start> <Value> <Comma>
 		//                 idx         +1      +2
-		bool detected_comma = _ctx->parser.Tokens.Arr[ _ctx->parser.Tokens.Idx + 2 ].Type == Tok_Comma;
+		bool detected_comma = tokarray_at( _ctx->parser.Tokens, _ctx->parser.Tokens.Idx + 2 ).Type == Tok_Comma;
 
 		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
@@ -2633,7 +2655,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			// Find end of the token expression
 			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
+				Token tok = tokarray_at( _ctx->parser.Tokens, idx );
 
 				if ( tok.Type == Tok_Paren_Open )
 					level++;
@@ -2644,7 +2666,7 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 			}
 			++ idx; // Will incremnt to possible comma position
 
-			if ( _ctx->parser.Tokens.Arr[ idx ].Type != Tok_Comma )
+			if ( tokarray_at( _ctx->parser.Tokens, idx ).Type != Tok_Comma )
 				break;
 
 			detected_non_varadic_unpaired_param = true;
@@ -4661,12 +4683,12 @@ CodeTemplate parser_parse_template()
 
 			for ( ; idx < array_num(_ctx->parser.Tokens.Arr); idx++ )
 			{
-				Token tok = _ctx->parser.Tokens.Arr[ idx ];
+				Token tok = tokarray_at( _ctx->parser.Tokens, idx );
 
 				if ( tok.Type == Tok_Identifier )
 				{
 					idx++;
-					tok = _ctx->parser.Tokens.Arr[ idx ];
+					tok = tokarray_at( _ctx->parser.Tokens, idx );
 					if ( tok.Type == Tok_Access_StaticSymbol )
 						continue;
 
@@ -5267,13 +5289,13 @@ CodeTypedef parser_parse_typedef()
 			s32 level = 0;
 			for ( ; idx < array_num(tokens.Arr); idx ++ )
 			{
-				if ( tokens.Arr[idx].Type == Tok_BraceCurly_Open )
+				if ( tokarray_at( tokens, idx ).Type == Tok_BraceCurly_Open )
 					level++;
 
-				if ( tokens.Arr[idx].Type == Tok_BraceCurly_Close )
+				if ( tokarray_at( tokens, idx ).Type == Tok_BraceCurly_Close )
 					level--;
 
-				if ( level == 0 && tokens.Arr[idx].Type == Tok_Statement_End )
+				if ( level == 0 && tokarray_at( tokens, idx ).Type == Tok_Statement_End )
 					break;
 			}
 
@@ -5286,18 +5308,18 @@ CodeTypedef parser_parse_typedef()
 			}
 			else
 			{
-				Token tok = tokens.Arr[ idx - 1 ];
+				Token tok = tokarray_at( tokens, idx - 1 );
 				if ( tok.Type == Tok_Identifier )
 				{
 					log_fmt("Found id\n");
-					tok = tokens.Arr[ idx - 2 ];
+					tok = tokarray_at( tokens, idx - 2 );
 
 					bool is_indirection = tok.Type == Tok_Ampersand
 					||                    tok.Type == Tok_Star;
 
 					bool ok_to_parse = false;
 
-					Token temp_3 = tokens.Arr[ idx - 3 ];
+					Token temp_3 = tokarray_at( tokens, idx - 3 );
 
 					if ( tok.Type == Tok_BraceCurly_Close )
 					{
@@ -5305,7 +5327,7 @@ CodeTypedef parser_parse_typedef()
 						// typedef <which> <type_identifier> { ... } <identifier>;
 						ok_to_parse = true;
 					}
-					else if ( tok.Type == Tok_Identifier && tokens.Arr[ idx - 3 ].Type == which )
+					else if ( tok.Type == Tok_Identifier && tokarray_at( tokens, idx - 3 ).Type == which )
 					{
 						// Its a variable with type ID using which namespace.
 						// typedef <which> <type_identifier> <identifier>;
-- 
2.43.0


From 7178524e6f3f7b3c8113efa59579129fb1696fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 40/96] fix: attributes ended at the first closing bracket and
 merged attributes were lost

---
 base/components/lexer.cpp  | 29 ++++++++++++++++++++++++++++-
 base/components/parser.cpp | 22 ++++++++++++++++------
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 450fb1f..46cf129 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -521,7 +521,7 @@ void lex_found_token( LexContext* ctx )
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
 		ctx->token.Flags |= TF_AccessSpecifier;
 	}
-	if ( type > Tok___Attributes_Start ) {
+	if ( type > Tok___Attributes_Start || type == Tok_Decl_GNU_Attribute || type == Tok_Decl_MSVC_Attribute ) {
 		ctx->token.Flags |= TF_Attribute;
 	}
 	if ( type == Tok_Decl_Extern_Linkage )
@@ -618,6 +618,9 @@ TokArray lex( Str content )
 
 	b32 preprocess_args = true;
 
+	// Braces open within [[ ... ]], including the attribute's own
+	s32 attribute_brace_level = 0;
+
 	while (c.left )
 	{
 		#if 0
@@ -810,8 +813,21 @@ TokArray lex( Str content )
 						c.token.Text.Len = 2;
 						c.token.Type     = Tok_Operator;
 						move_forward();
+						goto FoundToken;
+					}
+					else if ( lexer_char() == '[' )
+					{
+						// Only attributes start with two of them
+						c.token.Text.Len  = 2;
+						c.token.Type      = Tok_Attribute_Open;
+						c.token.Flags    |= TF_Attribute;
+						attribute_brace_level = 1;
+						move_forward();
+						goto FoundToken;
 					}
 				}
+				if ( attribute_brace_level )
+					++ attribute_brace_level;
 				goto FoundToken;
 			}
 			case ']':
@@ -822,6 +838,17 @@ TokArray lex( Str content )
 
 				if (c.left)
 					move_forward();
+
+				if ( attribute_brace_level )
+				{
+					-- attribute_brace_level;
+					if ( attribute_brace_level == 0 && c.left && lexer_char() == ']' )
+					{
+						c.token.Text.Len = 2;
+						c.token.Type     = Tok_Attribute_Close;
+						move_forward();
+					}
+				}
 				goto FoundToken;
 			}
 			case '(':
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 009eb65..ad44cc9 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -615,8 +615,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __attribute__((
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __attribute__(( <Content>
@@ -633,8 +638,13 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Open );
 			// __declspec(
 
-			while ( left && currtok.Type != Tok_Paren_Close )
+			s32 level = 0;
+			while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 			{
+				if ( currtok.Type == Tok_Paren_Open )
+					++ level;
+				if ( currtok.Type == Tok_Paren_Close )
+					-- level;
 				eat( currtok.Type );
 			}
 			// __declspec( <Content>
@@ -655,7 +665,7 @@ CodeAttributes parse_attributes()
 				eat( Tok_Paren_Open );
 
 				s32 level = 0;
-				while (left && currtok.Type != Tok_Paren_Close && level == 0)
+				while ( left && ( currtok.Type != Tok_Paren_Close || level > 0 ) )
 				{
 					if (currtok.Type == Tok_Paren_Open)
 						++ level;
@@ -1067,15 +1077,15 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 					if ( attributes )
 					{
 						StrBuilder fused = strbuilder_make_reserve( _ctx->Allocator_Temp, attributes->Content.Len + more_attributes->Content.Len );
-						strbuilder_append_fmt( & fused, "%SB %SB", attributes->Content, more_attributes->Content );
+						strbuilder_append_fmt( & fused, "%S %S", attributes->Content, more_attributes->Content );
 
 						Str attrib_name     = strbuilder_to_str(fused);
 						attributes->Name    = cache_str( attrib_name );
 						attributes->Content = attributes->Name;
 						// <Attributes> <Specifiers> <Attributes>
 					}
-
-					attributes = more_attributes;
+					else
+						attributes = more_attributes;
 				}
 
 				if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[0] == '~' )
-- 
2.43.0


From c6955a3af36e8919307c61728865c8ef37cdb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 41/96] fix: volatile was dropped or refused on the type of
 variables and members

---
 base/components/parser.cpp             | 7 ++++++-
 base/components/parser_case_macros.cpp | 4 +---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ad44cc9..58fd7a1 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1039,7 +1039,9 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 							expects_function = true;
 						break;
 
-						case Spec_Const :
+						case Spec_Const:
+						case Spec_Volatile:
+							// Qualifies the type.
 							ignore_spec = true;
 						break;
 
@@ -1830,6 +1832,8 @@ CodeBody parse_global_nspace( CodeType which )
 						break;
 
 						case Spec_Const:
+						case Spec_Volatile:
+							// Qualifies the type.
 							ignore_spec = true;
 						break;
 
@@ -1864,6 +1868,7 @@ CodeBody parse_global_nspace( CodeType which )
 			case Tok_Identifier:
 			case Tok_Preprocess_Macro_Typename:
 			case Tok_Spec_Const:
+			case Tok_Spec_Volatile:
 			case Tok_Type_Long:
 			case Tok_Type_Short:
 			case Tok_Type_Signed:
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 0157cba..7913132 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -22,7 +22,6 @@ case Spec_ForceInline: \
 case Spec_Mutable:     \
 case Spec_NeverInline: \
 case Spec_Static:      \
-case Spec_Volatile:    \
 case Spec_Virtual
 
 #define GEN_PARSER_CLASS_GLOBAL_NSPACE_ALLOWED_MEMBER_TOK_SPECIFIER_CASES \
@@ -47,8 +46,7 @@ case Spec_Internal_Linkage: \
 case Spec_Inline:           \
 case Spec_Mutable:          \
 case Spec_NeverInline:      \
-case Spec_Static:           \
-case Spec_Volatile
+case Spec_Static
 
 #define GEN_PARSER_FRIEND_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
-- 
2.43.0


From 8814f50ddb049661789cc6ea3435e615c3e37737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 42/96] fix: operators with symbols of more than one character
 were mistaken for others

---
 base/components/interface.upfront.cpp | 30 ++++++++--
 base/components/parser.cpp            | 81 ++++++++++++++++++---------
 2 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 8712bac..2a2e2e6 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -51,6 +51,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	if ( ! ret_type )
 	{
 		log_failure("gen::def_operator: ret_type is null but is required by operator %S", operator_to_str(op));
+		return OpValResult_Fail;
 	}
 
 	if ( ret_type->Type != CT_Typename )
@@ -178,6 +179,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						"operator %S is non-member symbol yet first paramter does not equal return type\n"
 						"param type: %S\n"
 						"return type: %S\n"
+						, operator_to_str(op)
 						, code_debug_str((Code)params_code)
 						, code_debug_str((Code)ret_type)
 					);
@@ -350,15 +352,35 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 			break;
 
 		case Op_PtrToMemOfPtr:
-			if ( params_code )
+			check_params();
+
+			switch ( params_code->NumEntries )
 			{
-				log_failure("gen::def_operator: operator %S expects no paramters - %S", operator_to_str(op), code_debug_str((Code)params_code));
-				return OpValResult_Fail;
+				case 1:
+					is_member_symbol = true;
+					break;
+
+				case 2:
+					break;
+
+				default:
+					log_failure("gen::def_operator: operator %S recieved unexpected number of paramters recived %d instead of 1-2"
+						, operator_to_str(op)
+						, params_code->NumEntries
+					);
+					return OpValResult_Fail;
 			}
 			break;
 
-		case Op_Subscript:
 		case Op_FunctionCall:
+			// A call may have no parameters, and it can only be a member.
+			is_member_symbol = true;
+			if ( params_code ) {
+				check_params();
+			}
+			break;
+
+		case Op_Subscript:
 		case Op_Comma:
 			check_params();
 			break;
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 58fd7a1..f097999 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2237,15 +2237,21 @@ CodeOperator parse_operator_after_ret_type(
 
 	bool was_new_or_delete = false;
 
+	// The symbols of some operators are several tokens
+	Token last_tok  = * array_back( _ctx->parser.Tokens.Arr );
+	sptr  op_left   = (sptr)last_tok.Text.Ptr + last_tok.Text.Len - (sptr)currtok.Text.Ptr;
+	char  op_char_1 = op_left > 1 ? currtok.Text.Ptr[1] : 0;
+	char  op_char_2 = op_left > 2 ? currtok.Text.Ptr[2] : 0;
+
 	Operator op = Op_Invalid;
 	switch ( currtok.Text.Ptr[0] )
 	{
 		case '+':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_Add;
 
-			else if ( currtok.Text.Ptr[1] == '+' )
+			else if ( op_char_1 == '+' )
 				op = Op_Increment;
 
 			else
@@ -2254,10 +2260,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '-':
 		{
-			if ( currtok.Text.Ptr[1] == '>' )
+			if ( op_char_1 == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '*' )
-					op = Op_MemberOfPointer;
+				if ( op_char_2 == '*' )
+					op = Op_PtrToMemOfPtr;
 
 				else
 					op = Op_MemberOfPointer;
@@ -2265,7 +2271,10 @@ CodeOperator parse_operator_after_ret_type(
 				break;
 			}
 
-			else if ( currtok.Text.Ptr[1] == '=' )
+			else if ( op_char_1 == '-' )
+				op = Op_Decrement;
+
+			else if ( op_char_1 == '=' )
 				op = Op_Assign_Subtract;
 
 			else
@@ -2274,7 +2283,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '*':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_Multiply;
 
 			else
@@ -2296,7 +2305,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '/':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_Divide;
 
 			else
@@ -2305,7 +2314,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '%':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_Modulo;
 
 			else
@@ -2314,10 +2323,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '&':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_BAnd;
 
-			else if ( currtok.Text.Ptr[1] == '&' )
+			else if ( op_char_1 == '&' )
 				op = Op_LAnd;
 
 			else
@@ -2331,10 +2340,10 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '|':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_BOr;
 
-			else if ( currtok.Text.Ptr[1] == '|' )
+			else if ( op_char_1 == '|' )
 				op = Op_LOr;
 
 			else
@@ -2343,7 +2352,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '^':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_Assign_BXOr;
 
 			else
@@ -2357,7 +2366,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '!':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_LNot;
 
 			else
@@ -2366,7 +2375,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '=':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_LEqual;
 
 			else
@@ -2375,12 +2384,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '<':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_LesserEqual;
 
-			else if ( currtok.Text.Ptr[1] == '<' )
+			else if ( op_char_1 == '<' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( op_char_2 == '=' )
 					op = Op_Assign_LShift;
 
 				else
@@ -2392,12 +2401,12 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '>':
 		{
-			if ( currtok.Text.Ptr[1] == '=' )
+			if ( op_char_1 == '=' )
 				op = Op_GreaterEqual;
 
-			else if ( currtok.Text.Ptr[1] == '>' )
+			else if ( op_char_1 == '>' )
 			{
-				if ( currtok.Text.Ptr[2] == '=' )
+				if ( op_char_2 == '=' )
 					op = Op_Assign_RShift;
 
 				else
@@ -2409,7 +2418,7 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '(':
 		{
-			if ( currtok.Text.Ptr[1] == ')' )
+			if ( op_char_1 == ')' )
 				op = Op_FunctionCall;
 
 			else
@@ -2418,13 +2427,18 @@ CodeOperator parse_operator_after_ret_type(
 		break;
 		case '[':
 		{
-			if ( currtok.Text.Ptr[1] == ']' )
+			if ( op_char_1 == ']' )
 				op = Op_Subscript;
 
 			else
 				op = Op_Invalid;
 		}
 		break;
+		case ',':
+		{
+			op = Op_Comma;
+		}
+		break;
 		default:
 		{
 			Str c_str_new    = operator_to_str(Op_New);
@@ -2497,15 +2511,30 @@ CodeOperator parse_operator_after_ret_type(
 	}
 
 	if ( ! was_new_or_delete)
+	{
+		char const* op_end = currtok.Text.Ptr + operator_to_str(op).Len;
 		eat( currtok.Type );
+		while ( left && currtok.Text.Ptr < op_end )
+			eat( currtok.Type );
+	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op>
 
 	// Parse Params
 	CodeParams params = parse_params(parser_use_parenthesis);
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...> operator <Op> ( <Parameters> )
 
-	if ( params == nullptr && op == Op_Multiply )
-		op = Op_MemberOfPointer;
+	// Without parameters these are the unary operators of a member.
+	if ( params == nullptr )
+	{
+		switch ( op )
+		{
+			case Op_Add:      op = Op_Unary_Plus;  break;
+			case Op_Subtract: op = Op_Unary_Minus; break;
+			case Op_Multiply: op = Op_Indirection; break;
+			case Op_BAnd:     op = Op_AddressOf;   break;
+			default: break;
+		}
+	}
 
 	while ( left && tok_is_specifier(currtok) )
 	{
-- 
2.43.0


From 87df19e2c8dd311fd909d5ee13f82d82d62f8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 43/96] fix: the access of interfaces after the first of a
 class was lost

---
 base/components/ast_types.hpp          |  2 +-
 base/components/code_serialization.cpp |  8 ++++++--
 base/components/parser.cpp             | 11 +++++++++--
 base/components/types.hpp              |  4 ++--
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 27bfae1..6584ffb 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -1062,7 +1062,7 @@ struct AST_Typename
 	Token*                 Tok;
 	Code                   Parent;
 	CodeType               Type;
-	char                   _PAD_UNUSED_[ sizeof(ModuleFlag) ];
+	AccessSpec             InterfaceAccess;  // Only used by the interfaces of a class or struct, the access they were declared with (public for a class if its the default).
 	struct {
 		b16                IsParamPack;   // Used by typename to know if type should be considered a parameter pack.
 		ETypenameTag       TypeTag;       // Used by typename to keep track of explicitly declared tags for the identifier (enum, struct, union)
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 040d3fc..201ad83 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -182,7 +182,8 @@ void class_to_strbuilder_def( CodeClass self, StrBuilder* result )
 
 		while ( interface )
 		{
-			strbuilder_append_fmt( result, ", public %SB", typename_to_strbuilder(interface) );
+			Str access = interface->InterfaceAccess ? access_spec_to_str( interface->InterfaceAccess ) : txt("public");
+			strbuilder_append_fmt( result, ", %S %SB", access, typename_to_strbuilder(interface) );
 			interface = interface->Next ? cast(CodeTypename, interface->Next) : NullCode;
 		}
 	}
@@ -877,7 +878,10 @@ void struct_to_strbuilder_def( CodeStruct self, StrBuilder* result )
 
 		while ( interface )
 		{
-			strbuilder_append_fmt( result, ", %SB", typename_to_strbuilder(interface) );
+			if ( interface->InterfaceAccess )
+				strbuilder_append_fmt( result, ", %S %SB", access_spec_to_str( interface->InterfaceAccess ), typename_to_strbuilder(interface) );
+			else
+				strbuilder_append_fmt( result, ", %SB", typename_to_strbuilder(interface) );
 			interface = interface->Next ? cast( CodeTypename, interface->Next) : NullCode;
 		}
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f097999..c701978 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -744,7 +744,6 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	local_persist
 	char interface_arr_mem[ kilobytes(4) ] = {0};
 	Array(CodeTypename) interfaces; {
 		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
@@ -772,12 +771,16 @@ Code parse_class_struct( TokType which, bool inplace_def )
 			eat( Tok_Comma );
 			// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>,
 
+			AccessSpec interface_access = which == Tok_Decl_Class ? AccessSpec_Private : AccessSpec_Default;
 			if ( tok_is_access_specifier(currtok) ) {
+				interface_access = tok_to_access_specifier(currtok);
 				eat(currtok.Type);
 			}
 			Token interface_tok = parse_identifier(nullptr);
 
-			array_append( interfaces, def_type( interface_tok.Text ) );
+			CodeTypename interface     = def_type( interface_tok.Text );
+			interface->InterfaceAccess = interface_access;
+			array_append( interfaces, interface );
 			// <ModuleFlags> <class/struct> <Attributes> <Name> <final> : <Access Specifier> <Name>, ...
 		}
 	}
@@ -805,6 +808,10 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	else
 		result = cast(Code, def_struct( name.Text, def_assign( body, (CodeTypename)parent, access, attributes, interfaces, scast(s32, array_num(interfaces)), specifiers, mflags ) ));
 
+	// Adding the interfaces makes the parent public
+	if ( result != Code_Invalid )
+		result->ParentAccess = access;
+
 	if ( inline_cmt )
 		result->InlineCmt = cast(Code, inline_cmt);
 
diff --git a/base/components/types.hpp b/base/components/types.hpp
index 18762ea..fbf8b0a 100644
--- a/base/components/types.hpp
+++ b/base/components/types.hpp
@@ -49,8 +49,8 @@ Str access_spec_to_str( AccessSpec type )
 	local_persist
 	Str lookup[ (u32)AccessSpec_Num_AccessSpec ] = {
 		{ "",        sizeof( "" )        - 1 },
-		{ "private", sizeof("prviate")   - 1 },
-		{ "private", sizeof("protected") - 1 },
+		{ "private",   sizeof("private")   - 1 },
+		{ "protected", sizeof("protected") - 1 },
 		{ "public",  sizeof("public")    - 1 },
 	};
 
-- 
2.43.0


From 48c5946f04437f231a575e99be4d31ce0303030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 44/96] fix: friends of an operator or with a definition were
 refused or written with two statement ends

---
 base/components/inlines.hpp | 17 ++++++++++++++++-
 base/components/parser.cpp  |  7 +++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index bd70985..25d8c7f 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -116,7 +116,22 @@ void friend_to_strbuilder_ref(CodeFriend self, StrBuilder* result )
 	Str trimmed = { declaration, len };
 	strbuilder_append_fmt( result, "friend %S", trimmed );
 
-	if ( self->Declaration->Type != CT_Function && self->Declaration->Type != CT_Operator && ( len == 0 || declaration[ len - 1 ] != ';' ) )
+	b32 ends_own_statement = false;
+	switch ( self->Declaration->Type )
+	{
+		case CT_Function:
+		case CT_Function_Fwd:
+		case CT_Operator:
+		case CT_Operator_Fwd:
+		case CT_Operator_Member:
+		case CT_Operator_Member_Fwd:
+			ends_own_statement = true;
+		break;
+		default:
+		break;
+	}
+
+	if ( ! ends_own_statement && ( len == 0 || declaration[ len - 1 ] != ';' ) )
 	{
 		strbuilder_append_str( result, txt(";") );
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index c701978..7caa3a5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4266,22 +4266,21 @@ CodeFriend parser_parse_friend()
 	}
 
 	// Operator declaration or definition
-	if ( currtok.Type == Tok_Decl_Operator ) {
+	else if ( currtok.Type == Tok_Decl_Operator ) {
 		op = parse_operator_after_ret_type( ModuleFlag_None, NullCode, specifiers, type );
 	}
 
 	CodeComment inline_cmt = NullCode;
-	if ( function && function->Type == CT_Function_Fwd )
+	if ( ! function && ! op )
 	{
+		// Functions and operators have ended their own statement already.
 		Token stmt_end = currtok;
 		eat( Tok_Statement_End );
 		// friend <Type>;
-		// friend <ReturnType> <Name> ( <Parameters> );
 
 		if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
 			inline_cmt = parse_comment();
 		// friend <Type>; <InlineCmt>
-		// friend <ReturnType> <Name> ( <Parameters> ); <InlineCmt>
 	}
 
 	CodeFriend result = ( CodeFriend )make_code();
-- 
2.43.0


From 699540bc0752015e958bf95bdd6f4bb7f75a42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 45/96] fix: default values, array declarations and literals
 were cut at nested brackets

---
 base/components/lexer.cpp  |  7 ++--
 base/components/parser.cpp | 79 +++++++++++++++++++++++++-------------
 2 files changed, 57 insertions(+), 29 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 46cf129..819887f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1229,6 +1229,7 @@ TokArray lex( Str content )
 		else if ( char_is_digit(lexer_char()) )
 		{
 			// This is a very brute force lex, no checks are done for validity of literal.
+			#define lexer_digit_separator() (lexer_char() == '\'' && c.left > 1 && char_is_hex_digit(c.scanner[1]))
 
 			Str text = { c.scanner, 1 };
 			c.token.Text   = text;
@@ -1245,7 +1246,7 @@ TokArray lex( Str content )
 				move_forward();
 				c.token.Text.Len++;
 
-				while ( c.left && char_is_hex_digit(lexer_char()) ) {
+				while ( c.left && (char_is_hex_digit(lexer_char()) || lexer_digit_separator()) ) {
 					move_forward();
 					c.token.Text.Len++;
 				}
@@ -1253,7 +1254,7 @@ TokArray lex( Str content )
 				goto FoundToken;
 			}
 
-			while ( c.left && char_is_digit(lexer_char()) ) {
+			while ( c.left && (char_is_digit(lexer_char()) || lexer_digit_separator()) ) {
 				move_forward();
 				c.token.Text.Len++;
 			}
@@ -1263,7 +1264,7 @@ TokArray lex( Str content )
 				move_forward();
 				c.token.Text.Len++;
 
-				while ( c.left && char_is_digit(lexer_char()) ) {
+				while ( c.left && (char_is_digit(lexer_char()) || lexer_digit_separator()) ) {
 					move_forward();
 					c.token.Text.Len++;
 				}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 7caa3a5..6ea2946 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -293,7 +293,7 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft && ( scanner[0] != '"' || *( scanner - 1 ) == '\\' ) )
+			while ( tokleft && scanner[0] != '"' )
 			{
 				if ( scanner[0] == '\\' && tokleft > 1 )
 				{
@@ -320,12 +320,17 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		{
 			move_fwd();
 
-			while ( tokleft
-			&& ( scanner[0] != '\''
-				|| ( *(scanner -1 ) == '\\' )
-			) )
+			while ( tokleft && scanner[0] != '\'' )
 			{
-				move_fwd();
+				if ( scanner[0] == '\\' && tokleft > 1 )
+				{
+					scanner += 2;
+					tokleft -= 2;
+				}
+				else
+				{
+					move_fwd();
+				}
 			}
 
 			// Skip the closing '
@@ -511,6 +516,11 @@ Code parse_array_decl()
 		eat( Tok_Operator );
 		// []
 
+		// Its a multi-dimensional array
+		if ( check( Tok_BraceSquare_Open ))
+			array_expr->Next = parse_array_decl();
+		// [][ <Content> ]...
+
 		parser_pop(& _ctx->parser);
 		return array_expr;
 	}
@@ -522,22 +532,29 @@ Code parse_array_decl()
 
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of array declaration ( '[]' scope started )\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
 		if ( currtok.Type == Tok_BraceSquare_Close )
 		{
-			log_failure( "Error, empty array expression in definition\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, empty array expression in definition\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
 		Token untyped_tok = currtok;
 
-		while ( left && currtok.Type != Tok_BraceSquare_Close )
+		s32 level = 0;
+		while ( left && ( currtok.Type != Tok_BraceSquare_Close || level > 0 ) )
 		{
+			if ( currtok.Type == Tok_BraceSquare_Open )
+				level++;
+
+			else if ( currtok.Type == Tok_BraceSquare_Close )
+				level--;
+
 			eat( currtok.Type );
 		}
 
@@ -548,14 +565,14 @@ Code parse_array_decl()
 
 		if ( left == 0 )
 		{
-			log_failure( "Error, unexpected end of array declaration, expected ]\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, unexpected end of array declaration, expected ]\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
 
 		if ( currtok.Type != Tok_BraceSquare_Close )
 		{
-			log_failure( "%s: Error, expected ] in array declaration, not %s\n%s", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Error, expected ] in array declaration, not %S\n%SB", toktype_to_str( currtok.Type ), parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
 		}
@@ -1385,7 +1402,7 @@ Code parse_assignment_expression()
 	}
 
 	s32 level = 0;
-	while ( left && currtok.Type != Tok_Statement_End && (currtok.Type != Tok_Comma || level > 0) )
+	while ( left && ((currtok.Type != Tok_Statement_End && currtok.Type != Tok_Comma) || level > 0) )
 	{
 		if (currtok.Type == Tok_BraceCurly_Open )
 			level++;
@@ -2803,6 +2820,20 @@ CodePragma parse_pragma()
 	return pragma;
 }
 
+// How much a token opens or closes of the angle brackets around template arguments
+internal inline
+s32 tok_template_depth( Token tok )
+{
+	if ( tok.Type != Tok_Operator || tok.Text.Len == 0 )
+		return 0;
+
+	if ( tok.Text.Len == 1 )
+		return tok.Text.Ptr[0] == '<' ? 1 : tok.Text.Ptr[0] == '>' ? -1 : 0;
+
+	// >>
+	return tok.Text.Len == 2 && tok.Text.Ptr[0] == '>' && tok.Text.Ptr[1] == '>' ? -2 : 0;
+}
+
 internal inline
 CodeParams parse_params( bool use_template_capture )
 {
@@ -2844,6 +2875,9 @@ CodeParams parse_params( bool use_template_capture )
 		eat( Tok_Varadic_Argument );
 		// ( or <  ...
 
+		if ( ! use_template_capture )
+			eat( Tok_Paren_Close );
+
 		parser_pop(& _ctx->parser);
 		return param_varadic;
 		// ( ... )
@@ -2909,13 +2943,7 @@ CodeParams parse_params( bool use_template_capture )
 			s32 template_level = 0;
 			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 			{
-				if (currtok.Text.Ptr[ 0 ] == '<')
-					++ template_level;
-
-				if (currtok.Text.Ptr[ 0 ] == '>')
-					-- template_level;
-				if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
-					-- template_level;
+				template_level += tok_template_depth( currtok );
 
 				if ( currtok.Type == Tok_Paren_Open)
 					++ capture_level;
@@ -2945,6 +2973,8 @@ CodeParams parse_params( bool use_template_capture )
 	if ( value )
 		result->Value = value;
 
+	result->PostNameMacro = post_name_macro;
+
 	result->NumEntries++;
 
 	while ( check(Tok_Comma) )
@@ -2955,6 +2985,9 @@ CodeParams parse_params( bool use_template_capture )
 		Code type  = { nullptr };
 		Code value = { nullptr };
 
+		macro           = NullCode;
+		post_name_macro = NullCode;
+
 		if ( check( Tok_Varadic_Argument ) )
 		{
 			eat( Tok_Varadic_Argument );
@@ -3021,13 +3054,7 @@ CodeParams parse_params( bool use_template_capture )
 				&& template_level >= 0
 				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 				{
-					if (currtok.Text.Ptr[ 0 ] == '<')
-						++ template_level;
-
-					if (currtok.Text.Ptr[ 0 ] == '>')
-						-- template_level;
-					if (currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
-						-- template_level;
+					template_level += tok_template_depth( currtok );
 
 					if ( currtok.Type == Tok_Paren_Open)
 						++ capture_level;
-- 
2.43.0


From b4a15afb4985f06b0225ea6a84d178171d7b9693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 46/96] fix: constructors with initializer braces and
 destructors lost parts of their definition

---
 base/components/code_serialization.cpp | 10 ++++++++--
 base/components/parser.cpp             | 14 ++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 201ad83..f0d8191 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -272,8 +272,14 @@ StrBuilder destructor_to_strbuilder(CodeDestructor self)
 internal
 void destructor_to_strbuilder_name(CodeDestructor self, StrBuilder* result )
 {
-	if ( self->Specs && specifiers_has(self->Specs, Spec_Virtual ) )
-		strbuilder_append_str( result, txt("virtual ") );
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( ! spec_is_trailing( * spec ) )
+				strbuilder_append_fmt( result, "%S ", spec_to_str( * spec ) );
+		}
+	}
 
 	Code owner = member_owner( cast(Code, self) );
 	if ( owner )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6ea2946..ed6110a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1143,7 +1143,7 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 			{
 				if ( nexttok.Type == Tok_Paren_Open && name.Text.Len && currtok.Type == Tok_Identifier )
 				{
-					if ( c_str_compare_len( name.Text.Ptr, currtok.Text.Ptr, name.Text.Len ) == 0 )
+					if ( str_are_equal( name.Text, currtok.Text ) )
 					{
 						member = cast(Code, parser_parse_constructor( specifiers ));
 						// <Attributes> <Specifiers> <Name>()
@@ -3631,12 +3631,18 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 		Token initializer_list_tok = currtok;
 
 		s32 level                  = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Open || level > 0 ) )
+		s32 brace_level            = 0;
+		while ( left && ( currtok.Type != Tok_BraceCurly_Open || level > 0 || brace_level > 0 || prevtok.Type == Tok_Identifier || tok_template_depth( prevtok ) < 0 ) )
 		{
 			if (currtok.Type == Tok_Paren_Open)
 				level++;
 			else if ( currtok.Type == Tok_Paren_Close )
 				level--;
+			// The braces after the name of a member (or base) are its initializer, not the body.
+			else if ( currtok.Type == Tok_BraceCurly_Open )
+				brace_level++;
+			else if ( currtok.Type == Tok_BraceCurly_Close )
+				brace_level--;
 
 			eat( currtok.Type );
 		}
@@ -3858,7 +3864,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 		}
 		else
 		{
-			log_failure( "Pure or default specifier expected due to '=' token\n%s", parser_to_strbuilder(_ctx->parser) );
+			log_failure( "Pure or default specifier expected due to '=' token\n%SB", parser_to_strbuilder(_ctx->parser) );
 			parser_pop( & _ctx->parser);
 			return InvalidCode;
 		}
@@ -3885,7 +3891,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	CodeDestructor result = ( CodeDestructor )make_code();
 
 	if ( tok_is_valid(prefix_identifier) ) {
-		prefix_identifier.Text.Len += 1 + identifier.Text.Len;
+		prefix_identifier.Text.Len = ( (sptr)identifier.Text.Ptr + identifier.Text.Len ) - (sptr)prefix_identifier.Text.Ptr;
 		result->Name = cache_str( prefix_identifier.Text );
 	}
 	else {
-- 
2.43.0


From ff12e2e857a48b54c894665150c01627fee450a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 47/96] fix: enum entry values and directives within an enum
 were cut short

---
 base/components/parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index ed6110a..9dd5272 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4068,7 +4068,13 @@ CodeEnum parser_parse_enum( bool inplace_def )
 						eat( Tok_Operator );
 						// <Name> =
 
-						while ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close ) {
+						s32 level = 0;
+						while ( left && ( level > 0 || ( currtok.Type != Tok_Comma && currtok.Type != Tok_BraceCurly_Close )) )
+						{
+							if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+								++ level;
+							if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+								-- level;
 							eat( currtok.Type );
 						}
 					}
@@ -4102,6 +4108,10 @@ CodeEnum parser_parse_enum( bool inplace_def )
 					Token prev     = * lex_previous(_ctx->parser.Tokens, lex_dont_skip_formatting);
 					entry.Text.Len = ( (sptr)prev.Text.Ptr + prev.Text.Len ) - (sptr)entry.Text.Ptr;
 
+					// What follows on another line must not end up on this one (it may be a directive)
+					if ( left && currtok_noskip.Line != prev.Line && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close )
+						entry.Text.Len = (sptr)currtok_noskip.Text.Ptr - (sptr)entry.Text.Ptr;
+
 					member = untyped_str( entry.Text );
 				}
 				break;
-- 
2.43.0


From e4eeb683952eda48d84b90818a385792794ccab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 48/96] fix: function pointers and variables with in-place
 definitions lost their name or definition

---
 base/components/code_serialization.cpp | 22 +++++++++----
 base/components/parser.cpp             | 45 ++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index f0d8191..b255525 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -947,7 +947,7 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 	strbuilder_append_str( result, txt("typedef "));
 
 	// Determines if the typedef is a function typename
-	if ( self->UnderlyingType->ReturnType )
+	if ( self->IsFunction && self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
@@ -990,15 +990,20 @@ void typename_to_strbuilder_ref(CodeTypename self, StrBuilder* result )
 			return;
 		}
 	#else
-		if ( self->ReturnType && self->Params )
+		if ( self->ReturnType )
 		{
 			if ( self->Attributes )
 				strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
 
-			if ( self->Specs )
-				strbuilder_append_fmt( result, "%SB %S ( %SB ) %SB", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params), specifiers_to_strbuilder(self->Specs) );
+			strbuilder_append_fmt( result, "%SB %S ", typename_to_strbuilder(self->ReturnType), self->Name );
+
+			if ( self->Params )
+				strbuilder_append_fmt( result, "( %SB )", params_to_strbuilder(self->Params) );
 			else
-				strbuilder_append_fmt( result, "%SB %S ( %SB )", typename_to_strbuilder(self->ReturnType), self->Name, params_to_strbuilder(self->Params) );
+				strbuilder_append_str( result, txt("()") );
+
+			if ( self->Specs )
+				strbuilder_append_fmt( result, " %SB", specifiers_to_strbuilder(self->Specs) );
 
 			return;
 		}
@@ -1137,7 +1142,7 @@ void var_to_strbuilder_declarator(CodeVar self, StrBuilder* result )
 {
 	strbuilder_append_str( result, self->Name );
 
-	if ( self->ValueType && self->ValueType->ArrExpr )
+	if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
 	{
 		strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(self->ValueType->ArrExpr) );
 
@@ -1190,7 +1195,10 @@ void var_to_strbuilder_ref(CodeVar self, StrBuilder* result )
 	if ( self->Specs )
 		strbuilder_append_fmt( result, "%SB", specifiers_to_strbuilder(self->Specs) );
 
-	strbuilder_append_fmt( result, "%SB ", typename_to_strbuilder(self->ValueType) );
+	// Its the definition of the type if the variable has it in-place
+	StrBuilder value_type = code_to_strbuilder( cast(Code, self->ValueType) );
+	strbuilder_trim_space( value_type );
+	strbuilder_append_fmt( result, "%SB ", value_type );
 	var_to_strbuilder_declarator( self, result );
 
 	if ( self->InlineCmt )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9dd5272..f4a699a 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2165,7 +2165,7 @@ Token parse_identifier( bool* possible_member_function )
 
 			else
 			{
-				log_failure( "Found a member function pointer identifier but the parsing context did not expect it\n%s", parser_to_strbuilder(_ctx->parser) );
+				log_failure( "Found a member function pointer identifier but the parsing context did not expect it\n%SB", parser_to_strbuilder(_ctx->parser) );
 				parser_pop(& _ctx->parser);
 				return invalid;
 			}
@@ -2697,7 +2697,21 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 	}
 	else
 	{
-		Token name = parse_identifier(nullptr);
+		// The name of a function pointer is a part of its type, and a bitfield may not have one.
+		bool is_unnamed = ( type->ReturnType && ( check( Tok_Statement_End ) || bitfield_is_set( u32, currtok.Flags, TF_Assign ) ) )
+			||	check( Tok_Assign_Classifer );
+
+		Token name = NullToken;
+		if ( ! is_unnamed )
+		{
+			name = parse_identifier(nullptr);
+			if ( left && currtok.Text.Ptr == name.Text.Ptr )
+			{
+				log_failure( "Error, expected an identifier not \"%S\"\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+				parser_pop(& _ctx->parser);
+				return InvalidCode;
+			}
+		}
 		_ctx->parser.Scope->Name = name.Text;
 
 		bool detected_capture = check( Tok_Paren_Open );
@@ -3490,8 +3504,12 @@ CodeVar parse_variable_after_name(
 	CodeVar
 	result              = (CodeVar) make_code();
 	result->Type        = CT_Variable;
-	result->Name        = cache_str( name );
+	result->Name        = name.Len ? cache_str( name ) : txt("");
 	result->ModuleFlags = mflags;
+	if ( type && type->Type != CT_Typename ) {
+		// The type is defined in-place
+		type->Parent = cast(Code, result);
+	}
 	result->ValueType    = type;
 	result->BitfieldSize = bitfield_expr;
 	result->Attributes   = attributes;
@@ -4853,7 +4871,7 @@ CodeTypename parser_parse_type( bool from_template, bool* typedef_is_function )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
-		if ( spec != Spec_Const ) {
+		if ( spec != Spec_Const && spec != Spec_Volatile ) {
 			log_failure( "Error, invalid specifier used in type definition: %S\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
 			parser_pop(& _ctx->parser);
 			return InvalidCode;
@@ -4959,7 +4977,14 @@ else if ( currtok.Type == Tok_DeclType )
 
 		if ( ! from_template )
 		{
-			name                = parse_identifier(nullptr);
+			Token keyword = name;
+			name          = parse_identifier(nullptr);
+			if ( tok_is_valid(name) )
+			{
+				// The keyword is part of the type's signature.
+				name.Text.Len = ( ( sptr )name.Text.Ptr + name.Text.Len ) - ( sptr )keyword.Text.Ptr;
+				name.Text.Ptr = keyword.Text.Ptr;
+			}
 			_ctx->parser.Scope->Name = name.Text;
 			if ( ! tok_is_valid(name) )
 			{
@@ -5048,10 +5073,11 @@ else if ( currtok.Type == Tok_DeclType )
 		is_function_typename = scanner->Type == Tok_Paren_Open;
 
 		Token* first_capture = scanner;
+		Token* last_token    = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr) - 1;
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-			while ( scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
+			while ( scanner < last_token && scanner->Type != Tok_Statement_End && scanner->Type != Tok_BraceCurly_Open )
 				++scanner;
 
 			// Go back to the first capture start found
@@ -5089,7 +5115,9 @@ else if ( currtok.Type == Tok_DeclType )
 		// StrBuilder
 		// name_stripped = StrBuilder::make( FallbackAllocator, name );
 		// name_stripped.strip_space();
-		return_type->Name = cache_str( name.Text );
+		return_type->Name    = cache_str( name.Text );
+		return_type->TypeTag = tag;
+		tag                  = Tag_None;
 
 #ifdef GEN_USE_NEW_TYPENAME_PARSING
 		if ( specifiers )
@@ -5479,6 +5507,9 @@ CodeTypedef parser_parse_typedef()
 			name = currtok;
 			eat( Tok_Identifier );
 			// <ModuleFalgs> typedef <UnderlyingType> <Name>
+
+			// The name of a function type is within it.
+			is_function = false;
 		}
 		else if ( ! is_function )
 		{
-- 
2.43.0


From 1bccb1d29f2c9c6fe928dce9703c9bbd2a927a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 49/96] fix: using lost its comment and namespaces without a
 name were refused

---
 base/components/code_serialization.cpp | 10 ++++++----
 base/components/parser.cpp             | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index b255525..739261b 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -1106,12 +1106,14 @@ void using_to_strbuilder_ref(CodeUsing self, StrBuilder* result )
 	if ( bitfield_is_set( u32, self->ModuleFlags, ModuleFlag_Export ))
 		strbuilder_append_str( result, txt("export ") );
 
-	if ( self->Attributes )
-		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
-
 	if ( self->UnderlyingType )
 	{
-		strbuilder_append_fmt( result, "using %S = %SB", self->Name, typename_to_strbuilder(self->UnderlyingType) );
+		strbuilder_append_fmt( result, "using %S", self->Name );
+
+		if ( self->Attributes )
+			strbuilder_append_fmt( result, " %SB", attributes_to_strbuilder(self->Attributes) );
+
+		strbuilder_append_fmt( result, " = %SB", typename_to_strbuilder(self->UnderlyingType) );
 
 		if ( self->UnderlyingType->ArrExpr )
 		{
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index f4a699a..6ab65fb 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1817,7 +1817,7 @@ CodeBody parse_global_nspace( CodeType which )
 
 			case Tok_Preprocess_Macro_Expr: 
 			{
-				if (tok_is_attribute(currtok))
+				if ( ! tok_is_attribute(currtok))
 				{
 					log_failure("Unbounded macro expression residing in class/struct body\n%SB", parser_to_strbuilder(_ctx->parser));
 					return InvalidCode;
@@ -4445,8 +4445,11 @@ CodeNS parser_parse_namespace()
 	eat( Tok_Decl_Namespace );
 	// namespace
 
-	Token name = parse_identifier(nullptr);
-	_ctx->parser.Scope->Name = name.Text;
+	Token name = NullToken;
+	if ( ! check( Tok_BraceCurly_Open ) ) {
+		name = parse_identifier(nullptr);
+		_ctx->parser.Scope->Name = name.Text;
+	}
 	// namespace <Name>
 
 	CodeBody body = parse_global_nspace( CT_Namespace_Body );
@@ -4459,10 +4462,10 @@ CodeNS parser_parse_namespace()
 	CodeNS
 	result       = (CodeNS) make_code();
 	result->Type = CT_Namespace;
-	result->Name = cache_str( name.Text );
-
 	result->Body = body;
 
+	result->Name = name.Text.Len ? cache_str( name.Text ) : txt("");
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
@@ -5755,9 +5758,6 @@ CodeUsing parser_parse_using()
 		
 		if ( bitfield_is_set( u32, currtok.Flags, TF_Assign ))
 		{
-			attributes = parse_attributes();
-			// <ModuleFlags> using <Name> <Attributes>
-
 			eat( Tok_Operator );
 			// <ModuleFlags> using <Name> <Attributes> =
 
@@ -5800,11 +5800,11 @@ CodeUsing parser_parse_using()
 
 		if ( attributes )
 			result->Attributes = attributes;
-
-		if ( inline_cmt )
-			result->InlineCmt = inline_cmt;
 	}
 
+	if ( inline_cmt )
+		result->InlineCmt = inline_cmt;
+
 	parser_pop(& _ctx->parser);
 	return result;
 }
-- 
2.43.0


From 3ffe9f42e89c42f04bc34ef6282fbe9c05eaa491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 50/96] fix: the body of an export lost its keyword and ended
 without a brace

---
 base/components/code_serialization.cpp | 2 +-
 base/components/inlines.hpp            | 3 ++-
 base/components/parser.cpp             | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 739261b..bbd6398 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -47,7 +47,7 @@ void body_to_strbuilder_export( CodeBody body, StrBuilder* result )
 		curr = curr->Next;
 	}
 
-	strbuilder_append_fmt( result, "};\n" );
+	strbuilder_append_fmt( result, "\n}\n" );
 }
 
 // The class or struct a constructor or destructor is a member of, null when it is declared elsewhere.
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 25d8c7f..14df45a 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -446,7 +446,8 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	if (code_is_body(other)) {
+	// An export body is written with its own braces, its entries can't be merged with the others.
+	if (code_is_body(other) && other->Type != CT_Export_Body) {
 		body_append_body( self, cast(CodeBody, other) );
 		return;
 	}
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6ab65fb..761c555 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4194,6 +4194,9 @@ internal inline
 CodeBody parser_parse_export_body()
 {
 	push_scope();
+	eat( Tok_Module_Export );
+	// export
+
 	CodeBody result = parse_global_nspace( CT_Export_Body );
 	parser_pop(& _ctx->parser);
 	return result;
-- 
2.43.0


From bdcdc03cdc77fc1358381ab10f6018ab8c3f7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 51/96] fix: macros used as statements were merged with the
 entry following them

---
 base/components/parser.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 761c555..fd79529 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1160,11 +1160,21 @@ CodeBody parse_class_struct_body( TokType which, Token name )
 
 			default:
 				Token untyped_tok = currtok;
-				while ( left && currtok.Type != Tok_BraceCurly_Close )
+				s32   level       = 0;
+				while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
 				{
-					untyped_tok.Text.Len = ( (sptr)currtok.Text.Ptr + currtok.Text.Len ) - (sptr)untyped_tok.Text.Ptr;
+					if ( currtok.Type == Tok_BraceCurly_Open )
+						level++;
+
+					else if ( currtok.Type == Tok_BraceCurly_Close )
+						level--;
+
 					eat( currtok.Type );
 				}
+				if ( left ) {
+					// The comments before the end of the body are a part of it.
+					untyped_tok.Text.Len = (sptr)currtok.Text.Ptr - (sptr)untyped_tok.Text.Ptr;
+				}
 				member = untyped_str( untyped_tok.Text );
 				// Something unknown
 			break;
@@ -3244,7 +3254,9 @@ Code parse_simple_preprocess( TokType which )
 
 		if (str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_enum")))
 		{
-			// Do nothing
+			// Keep what separates the macro from the entry following it.
+			if ( left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close )
+				full_macro.Text.Len = (sptr)currtok_noskip.Text.Ptr - (sptr)full_macro.Text.Ptr;
 			goto Leave_Scope_Early;
 		}
 		else if (macro && macro->Type == MT_Typename && str_contains(_ctx->parser.Scope->Prev->ProcName, txt("parser_parse_typedef")))
@@ -3255,7 +3267,7 @@ Code parse_simple_preprocess( TokType which )
 				eat( Tok_Statement_End );
 				// <Macro>;
 
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 
 				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
 				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
@@ -3263,7 +3275,7 @@ Code parse_simple_preprocess( TokType which )
 					eat( Tok_Comment );
 					// <Macro>; <InlineCmt>
 
-					full_macro.Text.Len += prevtok.Text.Len;
+					full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 				}
 			}
 		}
@@ -3277,8 +3289,12 @@ Code parse_simple_preprocess( TokType which )
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len += prevtok.Text.Len;
+				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
 			}
+
+			// Keep what separates the macro from another member on its line.
+			if ( left && currtok_noskip.Type != Tok_NewLine )
+				full_macro.Text.Len = (sptr)currtok_noskip.Text.Ptr - (sptr)full_macro.Text.Ptr;
 		}
 	}
 
-- 
2.43.0


From 5faffd40f15630143fcd0034b49505343bcd6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 52/96] fix: deleted functions were not recognised and the rest
 of the parse errors found by round trips

---
 base/components/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index fd79529..5072e94 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -1459,7 +1459,7 @@ Code parse_forward_or_definition( TokType which, bool is_inplace )
 
 		default:
 			log_failure( "Error, wrong token type given to parse_complicated_definition "
-				"(only supports class, enum, struct, union) \n%s"
+				"(only supports class, enum, struct, union) \n%SB"
 				, parser_to_strbuilder(_ctx->parser) );
 
 			return InvalidCode;
@@ -1524,10 +1524,10 @@ CodeFn parse_function_after_name(
 			specifiers       = (CodeSpecifiers) make_code();
 			specifiers->Type = CT_Specifiers;
 		}
-		if ( str_are_equal(nexttok.Text, txt("delete")))
+		if ( str_are_equal(currtok.Text, txt("delete")))
 		{
 			specifiers_append(specifiers, Spec_Delete);
-			eat(currtok.Type);	
+			eat(currtok.Type);
 			// <Attributes> <Specifiers> <ReturnType> <Name> ( <Paraemters> ) <Specifiers> = delete
 		}
 		else
-- 
2.43.0


From 9860ae4a42ffbdde399bcbcad8a10cbf42a31386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 53/96] fix: a volatile after the type, an array written as [ ]
 and a define with only spaces were refused; iterating an empty body crashed

---
 base/components/inlines.hpp            |  2 +-
 base/components/parser.cpp             | 14 +++++++++++---
 base/components/parser_case_macros.cpp |  3 ++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 14df45a..3de6eb3 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -476,7 +476,7 @@ Code begin_CodeBody( CodeBody body) {
 forceinline
 Code end_CodeBody(CodeBody body ){
 	GEN_ASSERT(body);
-	return body->Back->Next;
+	return body->Back ? body->Back->Next : NullCode;
 }
 inline
 Code next_CodeBody(CodeBody body, Code entry) {
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 5072e94..493414b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -539,9 +539,15 @@ Code parse_array_decl()
 
 		if ( currtok.Type == Tok_BraceSquare_Close )
 		{
-			log_failure( "Error, empty array expression in definition\n%SB", parser_to_strbuilder(_ctx->parser) );
+			// The same as [], written with formatting between
+			Code array_expr = untyped_str( txt(" ") );
+			eat( Tok_BraceSquare_Close );
+
+			if ( check( Tok_BraceSquare_Open ))
+				array_expr->Next = parse_array_decl();
+
 			parser_pop(& _ctx->parser);
-			return InvalidCode;
+			return array_expr;
 		}
 
 		Token untyped_tok = currtok;
@@ -3822,7 +3828,9 @@ CodeDefine parser_parse_define()
 		return define;
 	}
 
-	define->Body = untyped_str( strbuilder_to_str( parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines )) );
+	Str content = strbuilder_to_str( parser_strip_formatting( currtok.Text, parser_strip_formatting_dont_preserve_newlines ));
+	// There may be nothing but formatting.
+	define->Body = untyped_str( content.Len ? content : txt("\n") );
 	eat( Tok_Preprocess_Content );
 	// #define <Name> ( <params> ) <Content>
 
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 7913132..7f907c2 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -105,6 +105,7 @@ case Spec_Const:    \
 case Spec_Ptr:      \
 case Spec_Restrict: \
 case Spec_Ref:      \
-case Spec_RValue
+case Spec_RValue:   \
+case Spec_Volatile
 
 
-- 
2.43.0


From f59c8d6024e636af1aa058f3d3ba3c8d6df50282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 54/96] fix: the functions parsing a constructor, destructor or
 operator cast alone ignored or misread specifiers, functions and operators
 with a const result hung

---
 base/components/interface.parsing.cpp  | 87 +++++++++++++++++---------
 base/components/parser.cpp             | 36 ++++++++---
 base/components/parser_case_macros.cpp | 10 ++-
 3 files changed, 93 insertions(+), 40 deletions(-)

diff --git a/base/components/interface.parsing.cpp b/base/components/interface.parsing.cpp
index f659aea..1828819 100644
--- a/base/components/interface.parsing.cpp
+++ b/base/components/interface.parsing.cpp
@@ -23,62 +23,71 @@ CodeClass parse_class( Str def )
 	return result;
 }
 
-CodeConstructor parse_constructor( Str def )
+// The specifiers in front of a constructor, destructor or operator cast.
+internal
+CodeSpecifiers parse_ctor_dtor_cast_specifiers()
 {
-	check_parse_args( def );
-
-	TokArray toks = lex( def );
-	if ( toks.Arr == nullptr )
-		return InvalidCode;
-
-	// TODO(Ed): Constructors can have prefix attributes
-
-	CodeSpecifiers specifiers = NullCode;
+	CodeSpecifiers result             = NullCode;
 	Specifier      specs_found[ 16 ] = { Spec_NumSpecifiers };
-	s32            NumSpecifiers = 0;
+	s32            NumSpecifiers      = 0;
 
 	while ( left && tok_is_specifier(currtok) )
 	{
 		Specifier spec = str_to_specifier( currtok.Text );
 
-		b32 ignore_spec = false;
-
 		switch ( spec )
 		{
+			case Spec_Consteval :
 			case Spec_Constexpr :
 			case Spec_Explicit:
 			case Spec_Inline :
 			case Spec_ForceInline :
 			case Spec_NeverInline :
-				break;
-
-			case Spec_Const :
-				ignore_spec = true;
+			case Spec_Virtual :
 				break;
 
 			default :
-				log_failure( "Invalid specifier %S for variable\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
-				parser_pop(& _ctx->parser);
+				log_failure( "Invalid specifier %S\n%SB", spec_to_str( spec ), parser_to_strbuilder(_ctx->parser) );
 				return InvalidCode;
 		}
 
-		// Every specifier after would be considered part of the type type signature
-		if (ignore_spec)
-			break;
-
+		if ( NumSpecifiers == count_of(specs_found) ) {
+			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
+			return InvalidCode;
+		}
 		specs_found[ NumSpecifiers ] = spec;
 		NumSpecifiers++;
 		eat( currtok.Type );
 	}
 
 	if ( NumSpecifiers )
-	{
-		specifiers = def_specifiers_arr( NumSpecifiers, specs_found );
+		result = def_specifiers_arr( NumSpecifiers, specs_found );
 		// <specifiers> ...
+
+	return result;
+}
+
+CodeConstructor parse_constructor( Str def )
+{
+	check_parse_args( def );
+
+	TokArray toks = lex( def );
+	if ( toks.Arr == nullptr )
+		return InvalidCode;
+
+	// TODO(Ed): Constructors can have prefix attributes
+
+	_ctx->parser.Tokens = toks;
+	push_scope();
+
+	CodeSpecifiers specifiers = parse_ctor_dtor_cast_specifiers();
+	if ( cast(Code, specifiers) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
 	}
 
-	_ctx->parser.Tokens         = toks;
 	CodeConstructor result = parser_parse_constructor( specifiers );
+	parser_pop(& _ctx->parser);
 	return result;
 }
 
@@ -106,10 +115,18 @@ CodeDestructor parse_destructor( Str def )
 		return InvalidCode;
 
 	// TODO(Ed): Destructors can have prefix attributes
-	// TODO(Ed): Destructors can have virtual
 
-	_ctx->parser.Tokens        = toks;
-	CodeDestructor result = parser_parse_destructor(NullCode);
+	_ctx->parser.Tokens = toks;
+	push_scope();
+
+	CodeSpecifiers specifiers = parse_ctor_dtor_cast_specifiers();
+	if ( cast(Code, specifiers) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
+	CodeDestructor result = parser_parse_destructor( specifiers );
+	parser_pop(& _ctx->parser);
 	return result;
 }
 
@@ -224,7 +241,17 @@ CodeOpCast parse_operator_cast( Str def )
 		return InvalidCode;
 
 	_ctx->parser.Tokens = toks;
-	return parser_parse_operator_cast(NullCode);
+	push_scope();
+
+	CodeSpecifiers specifiers = parse_ctor_dtor_cast_specifiers();
+	if ( cast(Code, specifiers) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
+
+	CodeOpCast result = parser_parse_operator_cast( specifiers );
+	parser_pop(& _ctx->parser);
+	return result;
 }
 
 CodeStruct parse_struct( Str def )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 493414b..60e13f7 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3857,7 +3857,7 @@ CodeDestructor parser_parse_destructor( CodeSpecifiers specifiers )
 	// <Virtual Specifier>
 
 	Token prefix_identifier = NullToken;
-	if (is_in_global_nspace)
+	if (is_in_global_nspace || check( Tok_Identifier ))
 		prefix_identifier = parse_identifier(nullptr);
 
 	Token name = currtok;
@@ -4424,8 +4424,9 @@ CodeFn parser_parse_function()
 				return InvalidCode;
 		}
 
-		if ( spec == Spec_Const )
-			continue;
+		// Ignore the qualifiers, they're handled by the type
+		if ( spec == Spec_Const || spec == Spec_Volatile )
+			break;
 
 		if ( NumSpecifiers == count_of(specs_found) ) {
 			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
@@ -4533,8 +4534,9 @@ CodeOperator parser_parse_operator()
 				return InvalidCode;
 		}
 
-		if ( spec == Spec_Const )
-			continue;
+		// Ignore the qualifiers, they're handled by the type
+		if ( spec == Spec_Const || spec == Spec_Volatile )
+			break;
 
 		if ( NumSpecifiers == count_of(specs_found) ) {
 			log_failure( "Error, too many specifiers\n%SB", parser_to_strbuilder(_ctx->parser) );
@@ -4803,7 +4805,8 @@ CodeTemplate parser_parse_template()
 
 
 		bool has_context         = _ctx->parser.Scope && _ctx->parser.Scope->Prev;
-		bool is_in_global_nspace = has_context && str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
+		// (When the user calls parse_template there isn't an enclosing scope)
+		bool is_in_global_nspace = ! has_context || str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parse_global_nspace") );
 		// Possible constructor implemented at global file scope.
 		if (is_in_global_nspace)
 		{
@@ -5893,10 +5896,27 @@ CodeVar parser_parse_variable()
 	CodeTypename type = parser_parse_type(parser_not_from_template, nullptr);
 	// <ModuleFlags> <Attributes> <Specifiers> <ValueType>
 
-	if ( cast(Code, type) == Code_Invalid )
+	if ( cast(Code, type) == Code_Invalid ) {
+		parser_pop(& _ctx->parser);
 		return InvalidCode;
+	}
 
-	_ctx->parser.Scope->Name = parse_identifier(nullptr).Text;
+	// The name of a function pointer is a part of its type, and a bitfield may not have one.
+	bool is_unnamed = ( type->ReturnType && ( check( Tok_Statement_End ) || bitfield_is_set( u32, currtok.Flags, TF_Assign ) ) )
+		||	check( Tok_Assign_Classifer );
+
+	_ctx->parser.Scope->Name = txt("");
+	if ( ! is_unnamed )
+	{
+		Token name = parse_identifier(nullptr);
+		if ( left && currtok.Text.Ptr == name.Text.Ptr )
+		{
+			log_failure( "Error, expected an identifier not \"%S\"\n%SB", currtok.Text, parser_to_strbuilder(_ctx->parser) );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
+		}
+		_ctx->parser.Scope->Name = name.Text;
+	}
 	// <ModuleFlags> <Attributes> <Specifiers> <ValueType> <Name>
 
 	CodeVar result = parse_variable_after_name( mflags, attributes, specifiers, type, _ctx->parser.Scope->Name );
diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index 7f907c2..b40bf3f 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -58,11 +58,14 @@ case Spec_Const:            \
 case Spec_Consteval:        \
 case Spec_Constexpr:        \
 case Spec_External_Linkage: \
+case Spec_Global:           \
 case Spec_Internal_Linkage: \
 case Spec_ForceInline:      \
 case Spec_Inline:           \
 case Spec_NeverInline:      \
-case Spec_Static
+case Spec_Static:           \
+case Spec_Virtual:          \
+case Spec_Volatile
 
 #define GEN_PARSER_OPERATOR_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
@@ -70,7 +73,9 @@ case Spec_Constexpr:   \
 case Spec_ForceInline: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
-case Spec_Static
+case Spec_Static:      \
+case Spec_Virtual:     \
+case Spec_Volatile
 
 #define GEN_PARSER_TEMPLATE_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:            \
@@ -93,6 +98,7 @@ case Spec_Constinit:        \
 case Spec_External_Linkage: \
 case Spec_Global:           \
 case Spec_Inline:           \
+case Spec_Internal_Linkage: \
 case Spec_Local_Persist:    \
 case Spec_Mutable:          \
 case Spec_Restrict:         \
-- 
2.43.0


From 61c1d30e775b4b62474c9805d15835f8d847395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 55/96] fix: the parser read outside its text when the tokens
 ended early

---
 base/components/parser.cpp | 113 ++++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 60e13f7..6eaec90 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -40,7 +40,9 @@ StrBuilder parser_to_strbuilder(ParseContext ctx)
 
 	sptr        length  = scope_start.Text.Len;
 	char const* current = scope_start.Text.Ptr + length;
-	while ( current <= array_back( ctx.Tokens.Arr)->Text.Ptr && (* current) != '\n' && length < 74 )
+	Token*      last    = array_back( ctx.Tokens.Arr );
+	char const* end     = last->Text.Ptr + last->Text.Len;
+	while ( current < end && (* current) != '\n' && length < 74 )
 	{
 		current++;
 		length++;
@@ -87,6 +89,18 @@ Token tokarray_at( TokArray self, s32 idx )
 	return self.Arr[ idx ];
 }
 
+// The length of the text from a token to the end of the last one eaten (nothing when the tokens have ended)
+internal
+ssize token_span_to_prev( Token from )
+{
+	Token last = * lex_previous( _ctx->parser.Tokens, lex_dont_skip_formatting );
+	if ( from.Type == Tok_Invalid || last.Type == Tok_Invalid )
+		return 0;
+
+	ssize length = ( (sptr)last.Text.Ptr + last.Text.Len ) - (sptr)from.Text.Ptr;
+	return length > 0 ? length : 0;
+}
+
 bool lex__eat(TokArray* self, TokType type )
 {
 	if ( array_num(self->Arr) - self->Idx <= 0 ) {
@@ -345,11 +359,17 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		// Block comments
 		if ( tokleft > 1 && scanner[0] == '/' && scanner[1] == '*' )
 		{
+			// Skip the opening, its * is not the one closing the comment.
+			scanner += 2;
+			tokleft -= 2;
+
 			while ( tokleft > 1 && !(scanner[0] == '*' && scanner[1] == '/') )
 				move_fwd();
 
-			scanner += 2;
-			tokleft -= 2;
+			// Skip the closing (or the rest if its missing)
+			s32 closing = tokleft > 1 ? 2 : tokleft;
+			scanner += closing;
+			tokleft -= closing;
 
 			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
 			last_cut = rcast( sptr, scanner ) - rcast( sptr, raw_text.Ptr );
@@ -446,8 +466,6 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 		// Escaped newlines
 		if ( scanner[0] == '\\' )
 		{
-			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
-
 			s32 amount_to_skip = 1;
 			if ( tokleft > 1 && scanner[1] == '\n' )
 			{
@@ -458,7 +476,16 @@ StrBuilder parser_strip_formatting( Str raw_text, bool preserve_newlines )
 				amount_to_skip = 3;
 			}
 
-			if ( amount_to_skip > 1 && pos == last_cut )
+			if ( amount_to_skip == 1 )
+			{
+				move_fwd();
+				continue;
+			}
+
+			bool is_start_of_cut = pos == last_cut;
+			strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );
+
+			if ( is_start_of_cut )
 			{
 				scanner += amount_to_skip;
 				tokleft -= amount_to_skip;
@@ -564,7 +591,7 @@ Code parse_array_decl()
 			eat( currtok.Type );
 		}
 
-		untyped_tok.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)untyped_tok.Text.Ptr;
+		untyped_tok.Text.Len = token_span_to_prev( untyped_tok );
 
 		Code array_expr = untyped_str( untyped_tok.Text );
 		// [ <Content>
@@ -629,7 +656,7 @@ CodeAttributes parse_attributes()
 			eat( Tok_Attribute_Close );
 			// [[ <Content> ]]
 
-			len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )start.Text.Ptr;
+			len = token_span_to_prev( start );
 		}
 		else if ( check( Tok_Decl_GNU_Attribute ) )
 		{
@@ -653,7 +680,7 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Close );
 			// __attribute__(( <Content> ))
 
-			len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )start.Text.Ptr;
+			len = token_span_to_prev( start );
 		}
 		else if ( check( Tok_Decl_MSVC_Attribute ) )
 		{
@@ -675,7 +702,7 @@ CodeAttributes parse_attributes()
 			eat( Tok_Paren_Close );
 			// __declspec( <Content> )
 
-			len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )start.Text.Ptr;
+			len = token_span_to_prev( start );
 		}
 		else if ( tok_is_attribute(currtok) )
 		{
@@ -699,7 +726,7 @@ CodeAttributes parse_attributes()
 				eat(Tok_Paren_Close);
 			}
 
-			len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )start.Text.Ptr;
+			len = token_span_to_prev( start );
 			// <Attribute> ( ... )
 		}
 	}
@@ -1643,7 +1670,7 @@ Code parse_function_body()
 
 	Token past = prevtok;
 
-	s32 len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)start.Text.Ptr;
+	s32 len = token_span_to_prev( start );
 
 	if ( len > 0 )
 	{
@@ -2007,7 +2034,7 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
 		nav = tokarray_at( tokens, idx );
-		if ( nav.Text.Ptr[0] == '<' )
+		if ( nav.Text.Len && nav.Text.Ptr[ 0 ] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
 			s32 capture_level  = 0;
@@ -2015,10 +2042,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
 				nav = tokarray_at( tokens, idx );
-				if (nav.Text.Ptr[ 0 ] == '<')
+				if (nav.Text.Len && nav.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
-				if (nav.Text.Ptr[ 0 ] == '>')
+				if (nav.Text.Len && nav.Text.Ptr[ 0 ] == '>')
 					-- template_level;
 				if (nav.Type == Tok_Operator && nav.Text.Len > 1 && nav.Text.Ptr[1] == '>')
 					-- template_level;
@@ -2084,10 +2111,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	s32 template_level = 0;
 	while ( idx != tokens.Idx )
 	{
-		if (tok_left.Text.Ptr[ 0 ] == '<')
+		if (tok_left.Text.Len && tok_left.Text.Ptr[ 0 ] == '<')
 			++ template_level;
 
-		if (tok_left.Text.Ptr[ 0 ] == '>')
+		if (tok_left.Text.Len && tok_left.Text.Ptr[ 0 ] == '>')
 			-- template_level;
 		if (tok_left.Type == Tok_Operator && tok_left.Text.Len > 1 && tok_left.Text.Ptr[1] == '>')
 			-- template_level;
@@ -2164,7 +2191,7 @@ Token parse_identifier( bool* possible_member_function )
 			bool is_destructor = str_are_equal( _ctx->parser.Scope->Prev->ProcName, txt("parser_parse_destructor"));
 			if (is_destructor)
 			{
-				name.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )name.Text.Ptr;
+				name.Text.Len = token_span_to_prev( name );
 				parser_pop(& _ctx->parser);
 				return name;
 			}
@@ -2256,7 +2283,7 @@ CodeOperator parse_operator_after_ret_type(
 				eat( Tok_Access_StaticSymbol );
 		}
 
-		nspace.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)nspace.Text.Ptr;
+		nspace.Text.Len = token_span_to_prev( nspace );
 	}
 	// <ExportFlag> <Attributes> <Specifiers> <ReturnType> <Qualifier::...>
 
@@ -2915,7 +2942,7 @@ CodeParams parse_params( bool use_template_capture )
 	}
 
 	#define CheckEndParams() \
-		(use_template_capture ? (currtok.Text.Ptr[ 0 ] != '>') : (currtok.Type != Tok_Paren_Close))
+		(use_template_capture ? (! currtok.Text.Len || currtok.Text.Ptr[ 0 ] != '>') : (currtok.Type != Tok_Paren_Close))
 
 	// TODO(Ed): Use expression macros or this? macro as attribute?
 	// Ex: Unreal has this type of macro:                 vvvvvvvvv
@@ -3210,7 +3237,7 @@ Code parse_simple_preprocess( TokType which )
 		eat( Tok_Paren_Close );
 		// <Macro> ( <params> )
 
-		full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
+		full_macro.Text.Len = token_span_to_prev( full_macro );
 	}
 
 	if ( macro && macro_expects_body(* macro) && peektok.Type == Tok_BraceCurly_Open )
@@ -3250,7 +3277,7 @@ Code parse_simple_preprocess( TokType which )
 			}
 		}
 
-		full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
+		full_macro.Text.Len = token_span_to_prev( full_macro );
 	}
 	else
 	{
@@ -3273,7 +3300,7 @@ Code parse_simple_preprocess( TokType which )
 				eat( Tok_Statement_End );
 				// <Macro>;
 
-				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
+				full_macro.Text.Len = token_span_to_prev( full_macro );
 
 				// TODO(Ed): Reveiw the context for this? (ESPECIALLY THIS)
 				if ( currtok_noskip.Type == Tok_Comment && currtok_noskip.Line == stmt_end.Line )
@@ -3281,7 +3308,7 @@ Code parse_simple_preprocess( TokType which )
 					eat( Tok_Comment );
 					// <Macro>; <InlineCmt>
 
-					full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
+					full_macro.Text.Len = token_span_to_prev( full_macro );
 				}
 			}
 		}
@@ -3295,7 +3322,7 @@ Code parse_simple_preprocess( TokType which )
 				Token stmt_end = currtok;
 				eat( Tok_Statement_End );
 				// <Macro>;
-				full_macro.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)full_macro.Text.Ptr;
+				full_macro.Text.Len = token_span_to_prev( full_macro );
 			}
 
 			// Keep what separates the macro from another member on its line.
@@ -3344,7 +3371,7 @@ Code parse_static_assert()
 	eat( Tok_Statement_End );
 	// static_assert( <Content> );
 
-	content.Text.Len  = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)content.Text.Ptr;
+	content.Text.Len  = token_span_to_prev( content );
 
 	char const* str  = c_str_fmt_buf( "%.*s\n", content.Text.Len, content.Text.Ptr );
 	Str content_str = { str, content.Text.Len + 1 };
@@ -3370,14 +3397,14 @@ void parse_template_args( Token* token )
 		// <
 
 		s32 level = 0;
-		while ( left && level >= 0 && ( currtok.Text.Ptr[ 0 ] != '>' || level > 0 ) )
+		while ( left && level >= 0 && ( ! currtok.Text.Len || currtok.Text.Ptr[ 0 ] != '>' || level > 0 ) )
 		{
-			if ( currtok.Text.Ptr[ 0 ] == '<' )
+			if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '<' )
 				level++;
 
-			if ( currtok.Text.Ptr[ 0 ] == '>' )
+			if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '>' )
 				level--;
-			if ( currtok.Type == Tok_Operator && currtok.Text.Ptr[1] == '>')
+			if ( currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[1] == '>')
 				level--;
 
 			eat( currtok.Type );
@@ -3390,7 +3417,7 @@ void parse_template_args( Token* token )
 		// < <Content> >
 
 		// Extend length of name to last token
-		token->Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )token->Text.Ptr;
+		token->Text.Len = token_span_to_prev( * token );
 	}
 }
 
@@ -3437,7 +3464,7 @@ CodeVar parse_variable_after_name(
 		}
 		eat( Tok_BraceCurly_Close );
 
-		expr_tok.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)expr_tok.Text.Ptr;
+		expr_tok.Text.Len = token_span_to_prev( expr_tok );
 		expr              = untyped_str( expr_tok.Text );
 		// <Attributes> <Specifiers> <ValueType> <Name> = { <Expression> }
 	}
@@ -3463,7 +3490,7 @@ CodeVar parse_variable_after_name(
 			eat( currtok.Type );
 		}
 
-		expr_token.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)expr_token.Text.Ptr;
+		expr_token.Text.Len = token_span_to_prev( expr_token );
 		expr                = untyped_str( expr_token.Text );
 		eat( Tok_Paren_Close );
 		// <Attributes> <Specifiers> <ValueType> <Name> ( <Expression> )
@@ -3486,7 +3513,7 @@ CodeVar parse_variable_after_name(
 			eat( currtok.Type );
 		}
 
-		expr_tok.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)expr_tok.Text.Ptr;
+		expr_tok.Text.Len = token_span_to_prev( expr_tok );
 		bitfield_expr     = untyped_str( expr_tok.Text );
 		// <Attributes> <Specifiers> <ValueType> <Name> : <Expression>
 	}
@@ -3687,7 +3714,7 @@ CodeConstructor parser_parse_constructor( CodeSpecifiers specifiers )
 			eat( currtok.Type );
 		}
 
-		initializer_list_tok.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )initializer_list_tok.Text.Ptr;
+		initializer_list_tok.Text.Len = token_span_to_prev( initializer_list_tok );
 		// <Name> ( <Parameters> ) : <InitializerList>
 
 		initializer_list = untyped_str( initializer_list_tok.Text );
@@ -3775,7 +3802,7 @@ CodeDefine parser_parse_define()
 	// #define <Name>
 
 	Macro* macro = lookup_macro(define->Name);
-	if (macro_is_functional(* macro)) {
+	if (macro && macro_is_functional(* macro)) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
@@ -4247,6 +4274,12 @@ CodeExtern parser_parse_extern_link()
 	eat( Tok_String );
 	// extern "<Name>"
 
+	if ( name.Text.Len < 2 )
+	{
+		log_failure( "Error, expected the name of the linkage\n%SB", parser_to_strbuilder(_ctx->parser) );
+		parser_pop(& _ctx->parser);
+		return InvalidCode;
+	}
 	name.Text.Ptr += 1;
 	name.Text.Len -= 2;
 
@@ -4585,7 +4618,7 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		}
 		// <Specifiers> <Qualifier> :: ...
 
-		name.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)name.Text.Ptr;
+		name.Text.Len = token_span_to_prev( name );
 	}
 
 	eat( Tok_Decl_Operator );
@@ -4639,7 +4672,7 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 		if ( body_str.Text.Ptr == currtok.Text.Ptr )
 			body_str.Text.Len = 0;
 		else
-			body_str.Text.Len = ( (sptr)prevtok.Text.Ptr + prevtok.Text.Len ) - (sptr)body_str.Text.Ptr;
+			body_str.Text.Len = token_span_to_prev( body_str );
 
 		eat( Tok_BraceCurly_Close );
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
@@ -4999,7 +5032,7 @@ else if ( currtok.Type == Tok_DeclType )
 			eat( currtok.Type );
 		}
 
-		name.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )name.Text.Ptr;
+		name.Text.Len = token_span_to_prev( name );
 		// <Attributes> <Specifiers> <Compound type expression>
 	}
 	else if ( currtok.Type == Tok_Type_Typename )
@@ -5257,7 +5290,7 @@ else if ( currtok.Type == Tok_DeclType )
 			eat( Tok_Paren_Close );
 			// <Attributes> <ReturnType> ( <Expression> )
 
-			name.Text.Len = ( ( sptr )prevtok.Text.Ptr + prevtok.Text.Len ) - ( sptr )name.Text.Ptr;
+			name.Text.Len = token_span_to_prev( name );
 #endif
 		}
 
-- 
2.43.0


From 4760c11b99b488dfff2862a0535dc0cde548f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 56/96] fix: params_get returned nothing, def_operator refused
 correct unary and postfix operators, comparing with a null definition crashed

---
 base/components/ast.cpp               |  3 +++
 base/components/inlines.hpp           | 10 ++--------
 base/components/interface.upfront.cpp | 18 ++----------------
 3 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 74558fe..ca10436 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -612,6 +612,9 @@ bool code_is_equal( Code self, Code other )
 	Cached strings are compared by pointer.
 	AST nodes are compared with AST::is_equal.
 */
+	if ( self == nullptr )
+		return other == nullptr;
+
 	if ( other == nullptr )
 	{
 		log_fmt( "AST::is_equal: other is null\nAST: %S", code_debug_str(self) );
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 3de6eb3..c60a1f5 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -542,14 +542,8 @@ CodeParams params_get(CodeParams self, s32 idx )
 {
 	GEN_ASSERT(self);
 	CodeParams param = self;
-	do
-	{
-		if ( ++ param != nullptr )
-			return NullCode;
-
-		param = cast(CodeParams, cast(Code, param)->Next);
-	}
-	while ( --idx );
+	for ( ; idx > 0 && param; -- idx )
+		param = param->Next;
 
 	return param;
 }
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 2a2e2e6..1f90027 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -138,9 +138,8 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 						break;
 
 					case 2:
-						check_param_eq_ret();
-
-						if ( ! code_is_equal((Code)params_get(params_code, 1), (Code)t_int ) )
+						// (A postfix operator gives back the value from before)
+						if ( ! code_is_equal((Code)params_get(params_code, 1)->ValueType, (Code)t_int ) )
 						{
 							log_failure("gen::def_operator: "
 								"operator %S requires second parameter of non-member definition to be int for post-decrement",
@@ -173,19 +172,6 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 					return OpValResult_Fail;
 				}
 
-				if ( code_is_equal((Code)params_code->ValueType, (Code)ret_type ) )
-				{
-					log_failure("gen::def_operator: "
-						"operator %S is non-member symbol yet first paramter does not equal return type\n"
-						"param type: %S\n"
-						"return type: %S\n"
-						, operator_to_str(op)
-						, code_debug_str((Code)params_code)
-						, code_debug_str((Code)ret_type)
-					);
-					return OpValResult_Fail;
-				}
-
 				if ( params_code->NumEntries > 1 )
 				{
 					log_failure("gen::def_operator: operator %S may not have more than one parameter - param count: %d"
-- 
2.43.0


From 0b0cb0f9a2dacf04ddacd6945e6fa7d4d1b5546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:51 +0000
Subject: [PATCH 57/96] fix: records with more than four bases used a stack
 arena after its scope; template arguments in parenthesis, >>>, braces in
 default values and unnamed native parameters were misread

---
 base/components/lexer.cpp  |  4 ++--
 base/components/parser.cpp | 43 ++++++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 819887f..7c8ee4f 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -1077,7 +1077,7 @@ TokArray lex( Str content )
 					if (c.left)
 						move_forward();
 				}
-				else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 3 )
+				else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 2 )
 				{
 					c.token.Text.Len++;
 
@@ -1122,7 +1122,7 @@ TokArray lex( Str content )
 						if (c.left)
 							move_forward();
 					}
-					else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 3 )
+					else while ( c.left && lexer_char() == *(c.scanner - 1) && c.token.Text.Len < 2 )
 					{
 						c.token.Text.Len++;
 
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 6eaec90..740ef7b 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -794,11 +794,7 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name> <final>
 
-	char interface_arr_mem[ kilobytes(4) ] = {0};
-	Array(CodeTypename) interfaces; {
-		Arena arena = arena_init_from_memory( interface_arr_mem, kilobytes(4) );
-		interfaces  = array_init_reserve(CodeTypename, arena_allocator_info(& arena), 4 );
-	}
+	Array(CodeTypename) interfaces = array_init_reserve(CodeTypename, _ctx->Allocator_Temp, 4 );
 
 	// TODO(Ed) : Make an AST_DerivedType, we'll store any arbitary derived type into there as a linear linked list of them.
 	if ( check( Tok_Assign_Classifer ) )
@@ -2765,7 +2761,8 @@ Code parse_operator_function_or_variable( bool expects_function, CodeAttributes
 		//                 idx         +1      +2
 		bool detected_comma = tokarray_at( _ctx->parser.Tokens, _ctx->parser.Tokens.Idx + 2 ).Type == Tok_Comma;
 
-		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument;
+		b32   detected_non_varadic_unpaired_param = detected_comma && nexttok.Type != Tok_Varadic_Argument
+			&& ! ( nexttok.Type >= Tok_Type_Unsigned && nexttok.Type <= Tok_Type_MS_W64 );
 		if (! detected_non_varadic_unpaired_param && nexttok.Type ==  Tok_Preprocess_Macro_Expr) for( s32 break_scope = 0; break_scope == 0; ++ break_scope)
 		{
 			Macro* macro = lookup_macro( nexttok.Text );
@@ -3002,10 +2999,10 @@ CodeParams parse_params( bool use_template_capture )
 			{
 				template_level += tok_template_depth( currtok );
 
-				if ( currtok.Type == Tok_Paren_Open)
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close)
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3113,10 +3110,10 @@ CodeParams parse_params( bool use_template_capture )
 				{
 					template_level += tok_template_depth( currtok );
 
-					if ( currtok.Type == Tok_Paren_Open)
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close)
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3396,16 +3393,26 @@ void parse_template_args( Token* token )
 		eat( Tok_Operator );
 		// <
 
-		s32 level = 0;
-		while ( left && level >= 0 && ( ! currtok.Text.Len || currtok.Text.Ptr[ 0 ] != '>' || level > 0 ) )
+		s32 level       = 0;
+		s32 paren_level = 0;
+		while ( left && level >= 0 && ( ! currtok.Text.Len || currtok.Text.Ptr[ 0 ] != '>' || level > 0 || paren_level > 0 ) )
 		{
-			if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '<' )
-				level++;
+			// Within parenthesis they compare or shift values
+			if ( paren_level == 0 )
+			{
+				if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '<' )
+					level++;
 
-			if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '>' )
-				level--;
-			if ( currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[1] == '>')
-				level--;
+				if ( currtok.Text.Len && currtok.Text.Ptr[ 0 ] == '>' )
+					level--;
+				if ( currtok.Type == Tok_Operator && currtok.Text.Len > 1 && currtok.Text.Ptr[1] == '>')
+					level--;
+			}
+
+			if ( currtok.Type == Tok_Paren_Open )
+				paren_level++;
+			if ( currtok.Type == Tok_Paren_Close )
+				paren_level--;
 
 			eat( currtok.Type );
 		}
-- 
2.43.0


From faf1ee07ff0dee351cc631c627481fc1e130e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 58/96] fix: code_validate_body never advanced and never
 accepted a body, extern linkage bodies and comments in enums and unions were
 not known to it

---
 base/components/ast.cpp             | 26 +++++++++++++-------------
 base/components/ast_case_macros.cpp |  1 -
 base/components/inlines.hpp         |  2 +-
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index ca10436..e393753 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -1183,7 +1183,7 @@ bool code_validate_body(Code self)
 		case CT_Class_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_CLASS_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1197,9 +1197,9 @@ bool code_validate_body(Code self)
 		case CT_Enum_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in enum body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1210,7 +1210,7 @@ bool code_validate_body(Code self)
 		case CT_Export_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXPORT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1221,10 +1221,10 @@ bool code_validate_body(Code self)
 			}
 		}
 		break;
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_EXTERN_LINKAGE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1238,7 +1238,7 @@ bool code_validate_body(Code self)
 		case CT_Function_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); next_CodeBody(body, code_entry)) switch (code_entry->Type)
+			for (Code code_entry = begin_CodeBody(body); code_entry != end_CodeBody(body); code_entry = next_CodeBody(body, code_entry)) switch (code_entry->Type)
 			{
 				GEN_AST_BODY_FUNCTION_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(code_entry));
@@ -1252,7 +1252,7 @@ bool code_validate_body(Code self)
 		case CT_Global_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )switch (entry->Type)
 			{
 				GEN_AST_BODY_GLOBAL_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1263,7 +1263,7 @@ bool code_validate_body(Code self)
 		case CT_Namespace_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_NAMESPACE_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1274,7 +1274,7 @@ bool code_validate_body(Code self)
 		case CT_Struct_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) ) switch (entry->Type)
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) ) switch (entry->Type)
 			{
 				GEN_AST_BODY_STRUCT_UNALLOWED_TYPES_CASES:
 					log_failure("AST::validate_body: Invalid entry in body %S", code_debug_str(entry));
@@ -1285,9 +1285,9 @@ bool code_validate_body(Code self)
 		case CT_Union_Body:
 		{
 			CodeBody body = cast(CodeBody, self);
-			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); next_CodeBody(body, entry) )
+			for ( Code entry = begin_CodeBody(body); entry != end_CodeBody(body); entry = next_CodeBody(body, entry) )
 			{
-				if ( entry->Type != CT_Untyped )
+				if ( entry->Type != CT_Untyped && entry->Type != CT_Comment )
 				{
 					log_failure( "AST::validate_body: Invalid entry in union body (needs to be untyped or comment) %S", code_debug_str(entry) );
 					return false;
@@ -1300,5 +1300,5 @@ bool code_validate_body(Code self)
 			log_failure( "AST::validate_body: Invalid this AST does not have a body %S", code_debug_str(self) );
 			return false;
 	}
-	return false;
+	return true;
 }
diff --git a/base/components/ast_case_macros.cpp b/base/components/ast_case_macros.cpp
index f7f66c2..7016cd5 100644
--- a/base/components/ast_case_macros.cpp
+++ b/base/components/ast_case_macros.cpp
@@ -6,7 +6,6 @@
 	case CT_Enum_Body:                           \
 	case CT_Extern_Linkage:                      \
 	case CT_Function_Body:                       \
-	case CT_Function_Fwd:                        \
 	case CT_Global_Body:                         \
 	case CT_Namespace:                           \
 	case CT_Namespace_Body:                      \
diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index c60a1f5..ecd0f4c 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -732,7 +732,7 @@ CodeBody def_body( CodeType type )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
-		case CT_Extern_Linkage:
+		case CT_Extern_Linkage_Body:
 		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
-- 
2.43.0


From b14f744e81934467fe5837be81b046c1d3e8c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 59/96] fix: an entry already in a list kept the links of that
 list when appended, an export body as an entry broke its own list

---
 base/components/inlines.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index ecd0f4c..7639381 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -342,8 +342,12 @@ void code_append( Code self, Code other )
 	GEN_ASSERT(other);
 	GEN_ASSERT_MSG(self != other, "Attempted to recursively append Code AST to itself.");
 
-	if ( other->Parent != nullptr )
+	if ( other->Parent != nullptr ) {
 		other = code_duplicate(other);
+		// (The duplicate is not in the list the original is in)
+		other->Next = NullCode;
+		other->Prev = NullCode;
+	}
 
 	other->Parent = self;
 
@@ -446,9 +450,11 @@ void body_append( CodeBody self, Code other )
 	GEN_ASSERT(self);
 	GEN_ASSERT(other);
 
-	// An export body is written with its own braces, its entries can't be merged with the others.
-	if (code_is_body(other) && other->Type != CT_Export_Body) {
+	if (code_is_body(other)) {
+		// The entries are merged with the others, those of an export body have to stay in the braces of the export.
+		if (other->Type == CT_Export_Body) code_append( cast(Code, self), untyped_str( txt("export\n{\n") ) );
 		body_append_body( self, cast(CodeBody, other) );
+		if (other->Type == CT_Export_Body) code_append( cast(Code, self), untyped_str( txt("\n}\n") ) );
 		return;
 	}
 
-- 
2.43.0


From 50246df4ddcaba8221d7c8cab7e29d74cfcdcfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 60/96] fix: adding an interface to a record without a parent
 dereferenced null, explicit parent access was replaced

---
 base/components/inlines.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 7639381..ce4e7a5 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -499,12 +499,18 @@ void class_add_interface( CodeClass self, CodeTypename type )
 	GEN_ASSERT(self);
 	GEN_ASSERT(type);
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		// There is no parent, so the interface takes its place.
+		self->ParentAccess = type->InterfaceAccess ? type->InterfaceAccess : AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
+
+	if ( self->ParentAccess == AccessSpec_Default )
+	{
+		// Were adding an interface behind the parent type, its public as they are unless its access was specified.
 		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
 
 	while ( possible_slot->Next != nullptr )
@@ -712,12 +718,18 @@ inline
 void struct_add_interface(CodeStruct self, CodeTypename type )
 {
 	CodeTypename possible_slot = self->ParentType;
-	if ( possible_slot != nullptr )
+	if ( possible_slot == nullptr )
+	{
+		// There is no parent, so the interface takes its place.
+		self->ParentAccess = type->InterfaceAccess ? type->InterfaceAccess : AccessSpec_Public;
+		self->ParentType   = type;
+		return;
+	}
+
+	if ( self->ParentAccess == AccessSpec_Default )
 	{
-		// Were adding an interface to parent type, so we need to make sure the parent type is public.
+		// Were adding an interface behind the parent type, its public as they are unless its access was specified.
 		self->ParentAccess = AccessSpec_Public;
-		// If your planning on adding a proper parent,
-		// then you'll need to move this over to ParentType->next and update ParentAccess accordingly.
 	}
 
 	while ( possible_slot->Next != nullptr )
-- 
2.43.0


From 4aed4195b0198e23920e27d45be4ea8f3ecee0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 61/96] fix: parameter names of a define pointed into the
 parsed text, a forward declaration of a union was rejected

---
 base/components/parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 740ef7b..8595048 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3819,7 +3819,7 @@ CodeDefine parser_parse_define()
 		params->Type = CT_Parameters_Define;
 
 		if ( left && currtok.Type != Tok_Paren_Close ) {
-			params->Name = currtok.Text;
+			params->Name = cache_str( currtok.Text );
 			params->NumEntries ++;
 
 			eat( Tok_Preprocess_Define_Param );
@@ -3832,7 +3832,7 @@ CodeDefine parser_parse_define()
 
 			CodeDefineParams next_param = (CodeDefineParams) make_code();
 			next_param->Type = CT_Parameters_Define;
-			next_param->Name = currtok.Text;
+			next_param->Name = cache_str( currtok.Text );
 			define_params_append(params, next_param);
 
 			// #define  <Name> (  <param>, <next_param> ...
@@ -5668,7 +5668,9 @@ CodeUnion parser_parse_union( bool inplace_def )
 
 	CodeBody body = { nullptr };
 
-	if ( ! inplace_def || ! check(Tok_Identifier) )
+	bool is_forward = ! inplace_def && name.Len > 0 && check(Tok_Statement_End);
+
+	if ( ! is_forward && ( ! inplace_def || ! check(Tok_Identifier) ) )
 	{
 		eat( Tok_BraceCurly_Open );
 		// <ModuleFlags> union <Attributes> <Name> {
-- 
2.43.0


From 857151a1d2ce298c137e17124b7a98f678003d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 62/96] fix: def_comment read past its content

---
 base/components/interface.upfront.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 1f90027..b9a3a51 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -448,25 +448,15 @@ CodeComment def_comment( Str content )
 	StrBuilder  cmt_formatted = strbuilder_make_reserve( _ctx->Allocator_Temp, kilobytes(1) );
 	char const* end           = content.Ptr + content.Len;
 	char const* scanner       = content.Ptr;
-	s32         curr          = 0;
-	do
+	while ( scanner < end )
 	{
-		char const* next   = scanner;
-		s32         length = 0;
-		while ( next != end && scanner[ length ] != '\n' )
-		{
-			next = scanner + length;
+		s32 length = 0;
+		while ( scanner + length < end && scanner[ length ] != '\n' )
 			length++;
-		}
-		length++;
 
-		strbuilder_append_fmt(& cmt_formatted, "//%.*s", length, scanner );
-		scanner += length;
+		strbuilder_append_fmt(& cmt_formatted, "//%.*s\n", length, scanner );
+		scanner += length + 1;
 	}
-	while ( scanner <= end );
-
-	if ( * strbuilder_back(cmt_formatted) != '\n' )
-		strbuilder_append_str( & cmt_formatted, txt("\n") );
 
 	Str name = strbuilder_to_str(cmt_formatted);
 
-- 
2.43.0


From 9439853c76e5bee70fb7eafadf923a057b1b97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 63/96] fix: typedefs of functions, in-place types and untyped
 code, and their attributes, were written wrong

---
 base/components/ast_types.hpp          |  3 +-
 base/components/code_serialization.cpp |  5 ++-
 base/components/interface.upfront.cpp  | 53 ++++++++++++++++++++------
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/base/components/ast_types.hpp b/base/components/ast_types.hpp
index 6584ffb..c1aefdb 100644
--- a/base/components/ast_types.hpp
+++ b/base/components/ast_types.hpp
@@ -1077,7 +1077,8 @@ struct AST_Typedef
 		struct
 		{
 			CodeComment    InlineCmt;
-			char           _PAD_PROPERTIES_[ sizeof(AST*) * 2 ];
+			CodeAttributes Attributes;
+			char           _PAD_PROPERTIES_[ sizeof(AST*) * 1 ];
 			Code           UnderlyingType;
 			char           _PAD_PROPERTIES_2_[ sizeof(AST*) * 3 ];
 		};
diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index bbd6398..8401e72 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -946,8 +946,11 @@ void typedef_to_strbuilder_ref(CodeTypedef self, StrBuilder* result )
 
 	strbuilder_append_str( result, txt("typedef "));
 
+	if ( self->Attributes )
+		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );
+
 	// Determines if the typedef is a function typename
-	if ( self->IsFunction && self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType )
+	if ( self->IsFunction && ( self->UnderlyingType->Type == CT_Untyped || ( self->UnderlyingType->Type == CT_Typename && self->UnderlyingType->ReturnType ) ) )
 		strbuilder_append_string( result, code_to_strbuilder(self->UnderlyingType) );
 	else
 		strbuilder_append_fmt( result, "%SB %S", code_to_strbuilder(self->UnderlyingType), self->Name );
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index b9a3a51..0590b5c 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1160,6 +1160,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		case CT_Struct_Fwd:
 		case CT_Union:
 		case CT_Typename:
+		case CT_Untyped:
 			break;
 		default:
 			log_failure( "gen::def_typedef: type was not a Class, Enum, Function Forward, Struct, Typename, or Union - %S", code_debug_str((Code)type) );
@@ -1172,19 +1173,11 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 		return InvalidCode;
 	}
 
-	// Registering the type.
-	CodeTypename registered_type = def_type( name );
-	if ( ! registered_type ) {
-		log_failure( "gen::def_typedef: failed to register type" );
-		GEN_DEBUG_TRAP();
-		return InvalidCode;
-	}
-
 	CodeTypedef
-	result                 = (CodeTypedef) make_code();
-	result->Type           = CT_Typedef;
-	result->ModuleFlags    = p.mflags;
-	result->UnderlyingType = type;
+	result              = (CodeTypedef) make_code();
+	result->Type        = CT_Typedef;
+	result->ModuleFlags = p.mflags;
+	result->Attributes  = p.attributes;
 
 	if ( name.Len <= 0  )
 	{
@@ -1198,9 +1191,45 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 	}
 	else
 	{
+		// Registering the type.
+		CodeTypename registered_type = def_type( name );
+		if ( ! registered_type ) {
+			log_failure( "gen::def_typedef: failed to register type" );
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
+		}
 		result->Name       = cache_str( name );
 		result->IsFunction = false;
 	}
+
+	switch ( type->Type )
+	{
+		case CT_Typename:
+		case CT_Untyped:
+		break;
+
+		case CT_Function_Fwd:
+		{
+			// The name of a function type is within it.
+			CodeTypename
+			fn_type             = (CodeTypename) make_code();
+			fn_type->Type       = CT_Typename;
+			fn_type->Name       = result->Name;
+			fn_type->ReturnType = cast(CodeFn, type)->ReturnType;
+			fn_type->Params     = cast(CodeFn, type)->Params;
+			type                = cast(Code, fn_type);
+			result->IsFunction  = true;
+		}
+		break;
+
+		default:
+			// The statement of an in-place definition is ended by its typedef.
+			if ( type->Parent )
+				type = code_duplicate( type );
+			type->Parent = cast(Code, result);
+		break;
+	}
+	result->UnderlyingType = type;
 	return result;
 }
 
-- 
2.43.0


From fcf5eda40f6da32a9245a5082046f40157885a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 64/96] fix: arguments of a wrong kind and null parameters were
 accepted, def_using refused every type, forward scoped enums needed a type,
 class and namespace bodies from arrays had another kind, def_params_arr
 dropped values and read past its array

---
 base/components/ast.cpp               |  5 +-
 base/components/interface.upfront.cpp | 89 ++++++++++++++++++++-------
 2 files changed, 70 insertions(+), 24 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index e393753..28feffa 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -264,8 +264,9 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Parameters_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Parameters_Define");
+			strbuilder_append_fmt( result, "\n\tNumEntries: %d", self->NumEntries );
+			strbuilder_append_fmt( result, "\n\tLast      : %S", self->Last ? self->Last->Name : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tNext      : %S", self->Next ? self->Next->Name : txt("Null") );
 		break;
 
 		case CT_Specifiers:
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index 0590b5c..e68d9b1 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -63,6 +63,12 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 		return OpValResult_Fail;
 	}
 
+	if ( params_code && params_code->Type != CT_Parameters )
+	{
+		log_failure("gen::def_operator: operator %S - params is not of Parameters type - %S", operator_to_str(op), code_debug_str(cast(Code, params_code)));
+		return OpValResult_Fail;
+	}
+
 	bool is_member_symbol = false;
 
 	switch ( op )
@@ -519,12 +525,27 @@ CodeClass def_class( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_class: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	if ( p.parent && ( p.parent->Type != CT_Class && p.parent->Type != CT_Struct && p.parent->Type != CT_Typename && p.parent->Type != CT_Untyped ) ) {
 		log_failure( "gen::def_class: parent provided is not type 'Class', 'Struct', 'Typeanme', or 'Untyped': %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
 
+	// The parent is written as a typename.
+	if ( p.parent && p.parent->Type != CT_Typename ) {
+		p.parent = def_type( p.parent->Type == CT_Untyped ? cast(Code, p.parent)->Content : p.parent->Name );
+		if ( ! p.parent || cast(Code, p.parent) == Code_Invalid ) {
+			log_failure( "gen::def_class: parent has no name" );
+			GEN_DEBUG_TRAP();
+			return InvalidCode;
+		}
+	}
+
 	CodeClass
 	result               = (CodeClass) make_code();
 	result->Name         = cache_str( name );
@@ -565,6 +586,11 @@ CodeDefine def_define( Str name, MacroType type, Opts_def_define p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.params && p.params->Type != CT_Parameters_Define ) {
+		log_failure( "gen::def_define: params was not a 'Parameters_Define' type: %S", code_debug_str(p.params) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	CodeDefine
 	result          = (CodeDefine) make_code();
 	result->Type    = CT_Preprocess_Define;
@@ -669,7 +695,7 @@ CodeEnum def_enum( Str name, Opts_def_enum p )
 	else if ( p.type_macro ) {
 		result->UnderlyingTypeMacro = p.type_macro;
 	}
-	else if ( result->Type != CT_Enum_Class_Fwd && result->Type != CT_Enum_Fwd )
+	else if ( result->Type == CT_Enum_Fwd )
 	{
 		log_failure( "gen::def_enum: enum forward declaration must have an underlying type" );
 		GEN_DEBUG_TRAP();
@@ -935,6 +961,11 @@ CodeOpCast def_operator_cast( CodeTypename type, Opts_def_operator_cast p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specs && p.specs->Type != CT_Specifiers ) {
+		log_failure( "gen::def_operator_cast: specs was not a `Specifiers` type - %S", code_debug_str(p.specs) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 
 	CodeOpCast result = (CodeOpCast) make_code();
 	if (p.body)
@@ -1039,6 +1070,11 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
+	if ( p.specifiers && p.specifiers->Type != CT_Specifiers ) {
+		log_failure( "gen::def_struct: specifiers was not a 'Specifiers' type: %S", code_debug_str(p.specifiers) );
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
 	if ( p.parent && p.parent->Type != CT_Typename ) {
 		log_failure( "gen::def_struct: parent was not a `Struct` type - %S", code_debug_str(p.parent) );
 		GEN_DEBUG_TRAP();
@@ -1057,8 +1093,9 @@ CodeStruct def_struct( Str name, Opts_def_struct p )
 		result->Name = cache_str( name );
 
 	if ( p.body ) {
-		result->Type = CT_Struct;
-		result->Body = p.body;
+		result->Type         = CT_Struct;
+		result->Body         = p.body;
+		result->Body->Parent = cast(Code, result);
 	}
 	else {
 		result->Type = CT_Struct_Fwd;
@@ -1096,6 +1133,7 @@ CodeTemplate def_template( CodeParams params, Code declaration, Opts_def_templat
 
 		default:
 			log_failure( "gen::def_template: declaration is not of class, function, struct, variable, or using type - %S", code_debug_str(declaration) );
+			return InvalidCode;
 	}
 	CodeTemplate
 	result              = (CodeTemplate) make_code();
@@ -1186,7 +1224,7 @@ CodeTypedef def_typedef( Str name, Code type, Opts_def_typedef p )
 			GEN_DEBUG_TRAP();
 			return InvalidCode;
 		}
-		result->Name       = cache_str( type->Name );
+		result->Name       = type->Name;
 		result->IsFunction = true;
 	}
 	else
@@ -1262,7 +1300,13 @@ CodeUnion def_union( Str name, CodeBody body, Opts_def_union p )
 
 CodeUsing def_using( Str name, CodeTypename type, Opts_def_using p )
 {
-	if ( ! name_check( def_using, name ) || null_check( def_using, type ) ) {
+	if ( ! name_check( def_using, name ) || ! null_check( def_using, type ) ) {
+		GEN_DEBUG_TRAP();
+		return InvalidCode;
+	}
+
+	if ( type->Type != CT_Typename ) {
+		log_failure( "gen::def_using: type was not a Typename type - %S", code_debug_str(type) );
 		GEN_DEBUG_TRAP();
 		return InvalidCode;
 	}
@@ -1404,7 +1448,7 @@ CodeBody def_class_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Function_Body;
+	result->Type = CT_Class_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1439,7 +1483,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	Code_POD         pod   = va_arg(va, Code_POD);
 	CodeDefineParams param = pcast( CodeDefineParams, pod );
 
-	null_check( def_define_params, param );
+	if ( ! null_check( def_define_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters_Define ) {
 		log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 		return InvalidCode;
@@ -1450,6 +1495,8 @@ CodeDefineParams def_define_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeDefineParams, pod );
+		if ( ! null_check( def_define_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters_Define ) {
 			log_failure( "gen::def_define_params: param %d is not a parameter for a preprocessor define", num - num + 1 );
 			return InvalidCode;
@@ -1474,14 +1521,12 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 		log_failure("gen::def_define_params: Code in coes array is not of paramter for preprocessor define type - %S", code_debug_str(current) ); \
 		return InvalidCode;                                                                                                                       \
 	}
-	CodeDefineParams current = (CodeDefineParams)code_duplicate(* codes);
+	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams
-	result            = (CodeDefineParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		define_params_append(result, current );
 	}
@@ -1862,7 +1907,7 @@ CodeBody def_namespace_body_arr( s32 num, Code* codes )
 
 	CodeBody
 	result       = (CodeBody) make_code();
-	result->Type = CT_Global_Body;
+	result->Type = CT_Namespace_Body;
 	do
 	{
 		Code entry = *codes;
@@ -1896,7 +1941,8 @@ CodeParams def_params( s32 num, ... )
 	Code_POD  pod   = va_arg(va, Code_POD);
 	CodeParams param = pcast( CodeParams, pod );
 
-	null_check( def_params, param );
+	if ( ! null_check( def_params, param ) )
+		return InvalidCode;
 	if ( param->Type != CT_Parameters ) {
 		log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 		return InvalidCode;
@@ -1907,6 +1953,8 @@ CodeParams def_params( s32 num, ... )
 	{
 		pod   = va_arg(va, Code_POD);
 		param = pcast( CodeParams, pod );
+		if ( ! null_check( def_params, param ) )
+			return InvalidCode;
 		if ( param->Type != CT_Parameters ) {
 			log_failure( "gen::def_params: param %d is not a Parameters", num - num + 1 );
 			return InvalidCode;
@@ -1931,15 +1979,12 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 		log_failure("gen::def_params: Code in coes array is not of paramter type - %S", code_debug_str(current) );     \
 		return InvalidCode;                                                                                            \
 	}
-	CodeParams current = (CodeParams)code_duplicate(* codes);
+	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams
-	result            = (CodeParams) make_code();
-	result->Name      = current->Name;
-	result->Type      = current->Type;
-	result->ValueType = current->ValueType;
-	while( codes++, current = * codes, num--, num > 0 ) {
+	CodeParams result = (CodeParams) code_duplicate(current);
+	while( codes++, num--, num > 0 ) {
+		current = * codes;
 		check_current(current);
 		params_append(result, current );
 	}
-- 
2.43.0


From 512f8be3c80c1a8017db7533955b137163672c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 65/96] fix: array sizes of parameters, trailing specifiers of
 destructors and the module keyword were not written

---
 base/components/code_serialization.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/base/components/code_serialization.cpp b/base/components/code_serialization.cpp
index 8401e72..6dac6d9 100644
--- a/base/components/code_serialization.cpp
+++ b/base/components/code_serialization.cpp
@@ -286,6 +286,15 @@ void destructor_to_strbuilder_name(CodeDestructor self, StrBuilder* result )
 		strbuilder_append_fmt( result, "~%S()", owner->Name );
 	else
 		strbuilder_append_fmt( result, "%S()", self->Name );
+
+	if ( self->Specs )
+	{
+		for ( Specifier* spec = begin_CodeSpecifiers(self->Specs); spec != end_CodeSpecifiers(self->Specs); spec = next_CodeSpecifiers(self->Specs, spec) )
+		{
+			if ( spec_is_trailing( * spec ) && * spec != Spec_Pure )
+				strbuilder_append_fmt( result, " %S", spec_to_str( * spec ) );
+		}
+	}
 }
 
 void destructor_to_strbuilder_def(CodeDestructor self, StrBuilder* result )
@@ -553,6 +562,9 @@ void module_to_strbuilder_ref(CodeModule self, StrBuilder* result )
 	if (((scast(u32, ModuleFlag_Import) & scast(u32, self->ModuleFlags)) == scast(u32, ModuleFlag_Import)))
 		strbuilder_append_str( result, txt("import "));
 
+	else
+		strbuilder_append_str( result, txt("module "));
+
 	strbuilder_append_fmt( result, "%S;\n", self->Name );
 }
 
@@ -764,6 +776,12 @@ void params_to_strbuilder_ref( CodeParams self, StrBuilder* result )
 	else if ( self->ValueType )
 		strbuilder_append_fmt( result, " %SB", typename_to_strbuilder(self->ValueType) );
 
+	if ( self->ValueType && self->ValueType->Type == CT_Typename && self->ValueType->ArrExpr )
+	{
+		for ( Code arr_expr = self->ValueType->ArrExpr; arr_expr; arr_expr = arr_expr->Next )
+			strbuilder_append_fmt( result, "[ %SB ]", code_to_strbuilder(arr_expr) );
+	}
+
 	if ( self->PostNameMacro )
 	{
 		strbuilder_append_fmt( result, " %SB", code_to_strbuilder(self->PostNameMacro) );
-- 
2.43.0


From 26c07d943736c652882e9e4df300f8ed6e520f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 66/96] fix: comparing code took different parameters for equal
 and equal ones for different, missed members only the other has and was not
 implemented for defines and function bodies; defines had no description

---
 base/components/ast.cpp               | 215 +++++++++++++++-----------
 base/components/interface.upfront.cpp |   2 +-
 2 files changed, 130 insertions(+), 87 deletions(-)

diff --git a/base/components/ast.cpp b/base/components/ast.cpp
index 28feffa..d241867 100644
--- a/base/components/ast.cpp
+++ b/base/components/ast.cpp
@@ -52,8 +52,13 @@ Str code_debug_str(Code self)
 		break;
 
 		case CT_Preprocess_Define:
-			// TODO(ED): Needs implementaton
-			log_failure("code_debug_str: NOT IMPLEMENTED for CT_Preprocess_Define");
+			if ( self->Prev )
+				strbuilder_append_fmt( result, "\n\tPrev: %S %S", code_type_str(self->Prev), self->Prev->Name.Len ? self->Prev->Name : txt("Null") );
+			if ( self->Next )
+				strbuilder_append_fmt( result, "\n\tNext: %S %S", code_type_str(self->Next), self->Next->Name.Len ? self->Next->Name : txt("Null") );
+
+			strbuilder_append_fmt( result, "\n\tParams: %S", self->Params ? strbuilder_to_str( code_to_strbuilder(self->Params) ) : txt("Null") );
+			strbuilder_append_fmt( result, "\n\tBody  : %S", self->Body   ? strbuilder_to_str( code_to_strbuilder(self->Body) )   : txt("Null") );
 		break;
 
 		case CT_Class:
@@ -711,6 +716,32 @@ bool code_is_equal( Code self, Code other )
 		                                                                                           \
 			return false;                                                                          \
 		}                                                                                          \
+	}                                                                                              \
+	else if ( other->ast )                                                                         \
+	{                                                                                              \
+		log_fmt("\nAST::is_equal: Failed for member " #ast " it is null, other's is not\n"         \
+				"AST  : %S\n"                                                                      \
+				"Other: %S\n"                                                                      \
+			, code_debug_str(self)                                                                 \
+			, code_debug_str(other)                                                                \
+		);                                                                                         \
+		return false;                                                                              \
+	}
+
+	// Lists are linked from their first entry
+	#define check_member_list( list )                                                              \
+	for ( Code entry = self->list, other_entry = other->list; entry || other_entry; entry = entry->Next, other_entry = other_entry->Next ) \
+	{                                                                                              \
+		if ( ! entry || ! other_entry || ! code_is_equal( entry, other_entry ) )                   \
+		{                                                                                          \
+			log_fmt("\nAST::is_equal: Failed for list " #list "\n"                                 \
+					"AST  : %S\n"                                                                  \
+					"Other: %S\n"                                                                  \
+				, code_debug_str(self)                                                             \
+				, code_debug_str(other)                                                            \
+			);                                                                                     \
+			return false;                                                                          \
+		}                                                                                          \
 	}
 
 		case CT_NewLine:
@@ -737,10 +768,12 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Fwd:
 		case CT_Struct_Fwd:
 		{
+			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_member_list( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 
 			return true;
 		}
@@ -750,9 +783,10 @@ bool code_is_equal( Code self, Code other )
 		{
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
-			check_member_ast( ParentType );
+			check_member_list( ParentType );
 			check_member_val( ParentAccess );
 			check_member_ast( Attributes );
+			check_member_ast( Specs );
 			check_member_ast( Body );
 
 			return true;
@@ -760,7 +794,11 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor:
 		{
+			// (Within the body of their record they may be defined without a name)
+			if ( self->Name.Len && other->Name.Len )
+				check_member_str( Name );
 			check_member_ast( InitializerList );
+			check_member_ast( Specs );
 			check_member_ast( Params );
 			check_member_ast( Body );
 
@@ -769,7 +807,11 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Constructor_Fwd:
 		{
+			// (Within the body of their record they may be defined without a name)
+			if ( self->Name.Len && other->Name.Len )
+				check_member_str( Name );
 			check_member_ast( InitializerList );
+			check_member_ast( Specs );
 			check_member_ast( Params );
 
 			return true;
@@ -777,6 +819,9 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor:
 		{
+			// (Within the body of their record they may be defined without a name)
+			if ( self->Name.Len && other->Name.Len )
+				check_member_str( Name );
 			check_member_ast( Specs );
 			check_member_ast( Body );
 
@@ -785,6 +830,9 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Destructor_Fwd:
 		{
+			// (Within the body of their record they may be defined without a name)
+			if ( self->Name.Len && other->Name.Len )
+				check_member_str( Name );
 			check_member_ast( Specs );
 
 			return true;
@@ -839,6 +887,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 			check_member_ast( Body );
 
 			return true;
@@ -852,6 +901,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
 			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
 
 			return true;
 		}
@@ -877,6 +927,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -891,6 +942,7 @@ bool code_is_equal( Code self, Code other )
 		case CT_Operator_Member_Fwd:
 		{
 			check_member_val( ModuleFlags );
+			check_member_val( Op );
 			check_member_str( Name );
 			check_member_ast( ReturnType );
 			check_member_ast( Attributes );
@@ -921,98 +973,69 @@ bool code_is_equal( Code self, Code other )
 
 		case CT_Parameters:
 		{
-			if ( self->NumEntries > 1 )
+			check_member_val( NumEntries );
+
+			Code curr       = self;
+			Code curr_other = other;
+			while ( curr != nullptr && curr_other != nullptr )
 			{
-				Code curr       = self;
-				Code curr_other = other;
-				while ( curr != nullptr  )
+				if ( ! str_are_equal(curr->Name, curr_other->Name)
+				||   ! code_is_equal(curr->ValueType, curr_other->ValueType)
+				||   ! code_is_equal(curr->Macro, curr_other->Macro)
+				||   ! code_is_equal(curr->Value, curr_other->Value)
+				||   ! code_is_equal(curr->PostNameMacro, curr_other->PostNameMacro) )
 				{
-					if ( curr )
-					{
-						if ( curr_other == nullptr )
-						{
-							log_fmt("\nAST::is_equal: Failed for parameter, other equivalent param is null\n"
-									"AST  : %S\n"
-								, code_debug_str(curr)
-							);
-
-							return false;
-						}
-
-						if ( str_are_equal(curr->Name, curr_other->Name) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->ValueType && ! code_is_equal(curr->ValueType, curr_other->ValueType) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value type check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-
-						if ( curr->Value && ! code_is_equal(curr->Value, curr_other->Value) )
-						{
-							log_fmt( "\nAST::is_equal: Failed for parameter value check\n"
-									"AST  : %S\n"
-									"Other: %S\n"
-									"For     ast member: %S\n"
-									"other's ast member: %S\n"
-								, code_debug_str(self)
-								, code_debug_str(other)
-								, code_debug_str(curr)
-								, code_debug_str(curr_other)
-							);
-							return false;
-						}
-					}
-
-					curr       = curr->Next;
-					curr_other = curr_other->Next;
+					log_fmt( "\nAST::is_equal: Failed for parameter check\n"
+							"AST  : %S\n"
+							"Other: %S\n"
+							"For     ast member: %S\n"
+							"other's ast member: %S\n"
+						, code_debug_str(self)
+						, code_debug_str(other)
+						, code_debug_str(curr)
+						, code_debug_str(curr_other)
+					);
+					return false;
 				}
 
-				check_member_val( NumEntries );
-
-				return true;
+				curr       = curr->Next;
+				curr_other = curr_other->Next;
 			}
 
-			check_member_str( Name );
-			check_member_ast( ValueType );
-			check_member_ast( Value );
-			check_member_ast( ArrExpr );
-
-			return true;
+			return curr == nullptr && curr_other == nullptr;
 		}
 
 		case CT_Parameters_Define:
 		{
-			// TODO(ED): Needs implementaton
-			log_failure("code_is_equal: NOT IMPLEMENTED for CT_Parameters_Define");
-			return false;
+			check_member_val( NumEntries );
+
+			Code curr       = self;
+			Code curr_other = other;
+			while ( curr != nullptr && curr_other != nullptr )
+			{
+				if ( ! str_are_equal(curr->Name, curr_other->Name) )
+				{
+					log_fmt( "\nAST::is_equal: Failed for parameter name check\n"
+							"AST  : %S\n"
+							"Other: %S\n"
+						, code_debug_str(self)
+						, code_debug_str(other)
+					);
+					return false;
+				}
+
+				curr       = curr->Next;
+				curr_other = curr_other->Next;
+			}
+
+			return curr == nullptr && curr_other == nullptr;
 		}
 
 		case CT_Preprocess_Define:
 		{
 			check_member_str( Name );
-			check_member_content( Body->Content );
+			check_member_ast( Params );
+			check_member_ast( Body );
 			return true;
 		}
 
@@ -1061,16 +1084,32 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Specs );
+			check_member_ast( Attributes );
 			check_member_ast( UnderlyingType );
 
 			return true;
 		}
 		case CT_Typename:
 		{
+			if ( cast(CodeTypename, self)->InterfaceAccess != cast(CodeTypename, other)->InterfaceAccess )
+			{
+				log_fmt("\nAST::is_equal: Interface access failed\n"
+						"AST  : %S\n"
+						"Other: %S\n"
+					, code_debug_str(self)
+					, code_debug_str(other)
+				);
+				return false;
+			}
+
 			check_member_val( IsParamPack );
 			check_member_str( Name );
+			check_member_ast( Attributes );
 			check_member_ast( Specs );
-			check_member_ast( ArrExpr );
+			check_member_ast( ReturnType );
+			check_member_ast( Params );
+			check_member_ast( SuffixSpecs );
+			check_member_list( ArrExpr );
 
 			return true;
 		}
@@ -1090,6 +1129,8 @@ bool code_is_equal( Code self, Code other )
 			check_member_val( ModuleFlags );
 			check_member_str( Name );
 			check_member_ast( Attributes );
+
+			return true;
 		}
 
 		case CT_Using:
@@ -1109,6 +1150,7 @@ bool code_is_equal( Code self, Code other )
 			check_member_str( Name );
 			check_member_ast( ValueType );
 			check_member_ast( BitfieldSize );
+			check_member_val( VarParenthesizedInit );
 			check_member_ast( Value );
 			check_member_ast( Attributes );
 			check_member_ast( Specs );
@@ -1120,13 +1162,14 @@ bool code_is_equal( Code self, Code other )
 		case CT_Class_Body:
 		case CT_Enum_Body:
 		case CT_Export_Body:
+		case CT_Extern_Linkage_Body:
+		case CT_Function_Body:
 		case CT_Global_Body:
 		case CT_Namespace_Body:
 		case CT_Struct_Body:
 		case CT_Union_Body:
 		{
-			check_member_ast( Front );
-			check_member_ast( Back );
+			check_member_val( NumEntries );
 
 			Code curr       = self->Front;
 			Code curr_other = other->Front;
@@ -1164,14 +1207,14 @@ bool code_is_equal( Code self, Code other )
 				curr_other = curr_other->Next;
 			}
 
-			check_member_val( NumEntries );
-
 			return true;
 		}
 
 	#undef check_member_val
 	#undef check_member_str
+	#undef check_member_content
 	#undef check_member_ast
+	#undef check_member_list
 	}
 
 	return true;
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index e68d9b1..a3b7d73 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -35,7 +35,7 @@ OpValidateResult operator__validate( Operator op, CodeParams params_code, CodeTy
 	}
 
 #	define check_param_eq_ret()                                                                            \
-	if ( ! is_member_symbol && ! code_is_equal(cast(Code, params_code->ValueType), cast(Code, ret_type)) ) \
+	if ( ! is_member_symbol && ! str_are_equal( params_code->ValueType->Name, ret_type->Name ) )           \
 	{                                                                                                      \
 		log_failure("gen::def_operator: operator %S requires first parameter to equal return type\n"       \
 			"param types: %S\n"                                                                            \
-- 
2.43.0


From af4ae92dd901ca931e6e74a0ea7a276d9295239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 67/96] fix: removing specifiers dropped the wrong one or
 failed at the capacity, lists of parameters given to others were cut or
 shared, looking up an entry past the last dereferenced null

---
 base/components/inlines.hpp           | 63 ++++++++++++---------------
 base/components/interface.upfront.cpp | 24 ++++++++--
 2 files changed, 48 insertions(+), 39 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index ce4e7a5..72bb033 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -391,14 +391,8 @@ Code* code_entry( Code self, u32 idx )
 {
 	GEN_ASSERT(self != nullptr);
 	Code* current = & self->Front;
-	while ( idx >= 0 && current != nullptr )
-	{
-		if ( idx == 0 )
-			return rcast( Code*, current);
-
+	for ( ; idx > 0 && * current != nullptr; idx-- )
 		current = & ( * current )->Next;
-		idx--;
-	}
 
 	return rcast( Code*, current);
 }
@@ -532,8 +526,28 @@ void params_append( CodeParams appendee, CodeParams other )
 	Code self  = cast(Code, appendee);
 	Code entry = cast(Code, other);
 
+	if ( entry->NumEntries > 1 )
+	{
+		// Its a list, each of its entries gets appended
+		for ( Code next = entry; next != nullptr; )
+		{
+			Code param = code_duplicate( next );
+			next = next->Next;
+			param->Next       = NullCode;
+			param->Last       = NullCode;
+			param->NumEntries = 1;
+			params_append( appendee, cast(CodeParams, param) );
+		}
+		return;
+	}
+
 	if ( entry->Parent != nullptr )
-		entry = code_duplicate( entry );
+	{
+		// (The duplicate is not in the list the original is in)
+		entry       = code_duplicate( entry );
+		entry->Next = NullCode;
+		entry->Last = NullCode;
+	}
 
 	entry->Parent = self;
 
@@ -661,36 +675,15 @@ s32 specifiers_remove( CodeSpecifiers self, Specifier to_remove )
 		log_failure("CodeSpecifiers: Attempted to append to a null specifiers AST!");
 		return -1;
 	}
-	if ( self->NumEntries == AST_ArrSpecs_Cap )
-	{
-		log_failure("CodeSpecifiers: Attempted to append over %d specifiers to a specifiers AST!", AST_ArrSpecs_Cap );
-		return -1;
-	}
-
-	s32 result = -1;
-
-	s32 curr = 0;
-	s32 next = 0;
-	for(; next < self->NumEntries; ++ curr, ++ next)
-	{
-		Specifier spec = self->ArrSpecs[next];
-		if (spec == to_remove)
-		{
-			result = next;
-
-			next ++;
-			if (next >= self->NumEntries)
-				break;
 
-			spec = self->ArrSpecs[next];
-		}
+	s32 result = specifiers_index_of( self, to_remove );
+	if ( result == -1 )
+		return result;
 
-		self->ArrSpecs[ curr ] = spec;
-	}
+	for ( s32 idx = result; idx + 1 < self->NumEntries; ++ idx )
+		self->ArrSpecs[ idx ] = self->ArrSpecs[ idx + 1 ];
 
-	if (result > -1) {
-		self->NumEntries --;
-	}
+	self->NumEntries --;
 	return result;
 }
 forceinline
diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index a3b7d73..e75e014 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -1383,6 +1383,22 @@ CodeVar def_variable( CodeTypename type, Str name, Opts_def_variable p )
 	return result;
 }
 
+// A list of its own with the entries of another
+internal
+CodeParams params_copy( CodeParams list )
+{
+	CodeParams result = (CodeParams) code_duplicate( (Code) list );
+	result->Next       = (CodeParams) NullCode;
+	result->Last       = (CodeParams) NullCode;
+	result->NumEntries = 1;
+
+	if ( list->NumEntries > 1 )
+		for ( CodeParams entry = list->Next; entry != nullptr; entry = entry->Next )
+			params_append( result, entry );
+
+	return result;
+}
+
 #pragma region Helper Macros for def_**_body functions
 #define def_body_start( Name_ )                                               \
 if ( num <= 0 )                                                               \
@@ -1490,7 +1506,7 @@ CodeDefineParams def_define_params( s32 num, ... )
 		return InvalidCode;
 	}
 
-	CodeDefineParams result = (CodeDefineParams) code_duplicate(param);
+	CodeDefineParams result = (CodeDefineParams)(Code) params_copy( (CodeParams)(Code) param );
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
@@ -1524,7 +1540,7 @@ CodeDefineParams def_define_params_arr( s32 num, CodeDefineParams* codes )
 	CodeDefineParams current = * codes;
 	check_current(current);
 
-	CodeDefineParams result = (CodeDefineParams) code_duplicate(current);
+	CodeDefineParams result = (CodeDefineParams)(Code) params_copy( (CodeParams)(Code) current );
 	while( codes++, num--, num > 0 ) {
 		current = * codes;
 		check_current(current);
@@ -1948,7 +1964,7 @@ CodeParams def_params( s32 num, ... )
 		return InvalidCode;
 	}
 
-	CodeParams result = (CodeParams) code_duplicate(param);
+	CodeParams result = params_copy(param);
 	while ( -- num )
 	{
 		pod   = va_arg(va, Code_POD);
@@ -1982,7 +1998,7 @@ CodeParams def_params_arr( s32 num, CodeParams* codes )
 	CodeParams current = * codes;
 	check_current(current);
 
-	CodeParams result = (CodeParams) code_duplicate(current);
+	CodeParams result = params_copy(current);
 	while( codes++, num--, num > 0 ) {
 		current = * codes;
 		check_current(current);
-- 
2.43.0


From 4c01f069e5eae461a496b11a7a070053071ffdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 68/96] fix: memory streams lost what they held when they grew,
 read past their end and started at a random position; short writes went
 unreported, missing and empty files gave uninitialised contents

---
 base/dependencies/filesystem.cpp | 62 +++++++++++++++++++++++++-------
 base/dependencies/filesystem.hpp | 15 ++++----
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/base/dependencies/filesystem.cpp b/base/dependencies/filesystem.cpp
index a52c621..d19a77f 100644
--- a/base/dependencies/filesystem.cpp
+++ b/base/dependencies/filesystem.cpp
@@ -67,6 +67,8 @@ GEN_FILE_READ_AT_PROC( _win32_file_read )
 {
 	// unused( stop_at_newline );
 	b32 result = false;
+	if ( offset < 0 )
+		return false;
 	_win32_file_seek( fd, offset, ESeekWhence_BEGIN, NULL );
 	DWORD size_ = scast( DWORD, ( size > GEN_I32_MAX ? GEN_I32_MAX : size ));
 	DWORD bytes_read_;
@@ -85,6 +87,8 @@ GEN_FILE_WRITE_AT_PROC( _win32_file_write )
 {
 	DWORD size_ = scast( DWORD, ( size > GEN_I32_MAX ? GEN_I32_MAX : size ));
 	DWORD bytes_written_;
+	if ( offset < 0 )
+		return false;
 	_win32_file_seek( fd, offset, ESeekWhence_BEGIN, NULL );
 	if ( WriteFile( fd.p, buffer, size_, &bytes_written_, NULL ) )
 	{
@@ -438,19 +442,30 @@ FileContents file_read_contents( AllocatorInfo a, b32 zero_terminate, char const
 	FileInfo     file  ;
 
 	result.allocator = a;
+	result.data      = nullptr;
+	result.size      = 0;
 
 	if ( file_open( &file, filepath ) == EFileError_NONE )
 	{
 		ssize fsize = scast( ssize , file_size( &file ));
 		if ( fsize > 0 )
-		{
 			result.data = alloc( a, zero_terminate ? fsize + 1 : fsize );
-			result.size = fsize;
-			file_read_at( &file, result.data, result.size, 0 );
-			if ( zero_terminate )
+
+		if ( result.data )
+		{
+			if ( file_read_at_check( &file, result.data, fsize, 0, &result.size ) )
+			{
+				if ( zero_terminate )
+				{
+					u8* str            = rcast( u8*, result.data);
+					str[ result.size ] = '\0';
+				}
+			}
+			else
 			{
-				u8* str      = rcast( u8*, result.data);
-				str[ fsize ] = '\0';
+				allocator_free( a, result.data );
+				result.data = nullptr;
+				result.size = 0;
 			}
 		}
 		file_close( &file );
@@ -505,11 +520,15 @@ b8 file_stream_new( FileInfo* file, AllocatorInfo allocator )
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = EFileStream_CLONE_WRITABLE;
+	d->cursor    = 0;
 	d->cap       = 0;
 	d->buf       = array_init( u8, allocator );
 
 	if ( ! d->buf )
+	{
+		allocator_free( allocator, d );
 		return false;
+	}
 
 	file->ops             = memory_file_operations;
 	file->fd              = _file_stream_fd_make( d );
@@ -530,13 +549,17 @@ b8 file_stream_open( FileInfo* file, AllocatorInfo allocator, u8* buffer, ssize
 	d->magic     = GEN__FILE_STREAM_FD_MAGIC;
 	d->allocator = allocator;
 	d->flags     = flags;
+	d->cursor    = 0;
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
 		Array(u8) arr = array_init_reserve(u8, allocator, size );
 		d->buf = arr;
 
 		if ( ! d->buf )
+		{
+			allocator_free( allocator, d );
 			return false;
+		}
 
 		mem_copy( d->buf, buffer, size );
 		d->cap = size;
@@ -588,7 +611,14 @@ GEN_FILE_READ_AT_PROC( _memory_file_read )
 {
 	// unused( stop_at_newline );
 	_memory_fd* d = _file_stream_from_fd( fd );
-	mem_copy( buffer, d->buf + offset, size );
+	if ( offset < 0 )
+		return false;
+
+	// Only whats in the stream may be read.
+	ssize left = max( 0, d->cap - offset );
+	size = min( size, left );
+	if ( size > 0 )
+		mem_copy( buffer, d->buf + offset, size );
 	if ( bytes_read )
 		*bytes_read = size;
 	return true;
@@ -602,10 +632,14 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 	if ( ! ( d->flags & ( EFileStream_CLONE_WRITABLE | EFileStream_WRITABLE ) ) )
 		return false;
 
+	if ( offset < 0 )
+		return false;
+
 	ssize buflen   = d->cap;
-	ssize extralen = max( 0, size - ( buflen - offset ) );
-	ssize rwlen    = size - extralen;
-	ssize new_cap  = buflen + extralen;
+	ssize gap      = max( 0, offset - buflen );          // Between the end of the stream and the offset.
+	ssize rwlen    = max( 0, min( size, buflen - offset ) );
+	ssize extralen = size - rwlen;
+	ssize new_cap  = extralen > 0 ? buflen + gap + extralen : buflen;
 
 	if ( d->flags & EFileStream_CLONE_WRITABLE )
 	{
@@ -619,15 +653,19 @@ GEN_FILE_WRITE_AT_PROC( _memory_file_write )
 		}
 	}
 
-	mem_copy( d->buf + offset, buffer, rwlen );
+	if ( rwlen > 0 )
+		mem_copy( d->buf + offset, buffer, rwlen );
 
 	if ( ( d->flags & EFileStream_CLONE_WRITABLE ) && extralen > 0 )
 	{
 		Array(u8) arr = { d->buf };
 
+		if ( gap > 0 )
+			mem_set( d->buf + buflen, 0, gap );
+
 		mem_copy( d->buf + offset + rwlen, pointer_add_const( buffer, rwlen ), extralen );
 		d->cap = new_cap;
-		array_get_header(arr)->Capacity = new_cap;
+		array_get_header(arr)->Num = new_cap;
 	}
 	else
 	{
diff --git a/base/dependencies/filesystem.hpp b/base/dependencies/filesystem.hpp
index 9d3676a..4ae6d12 100644
--- a/base/dependencies/filesystem.hpp
+++ b/base/dependencies/filesystem.hpp
@@ -338,8 +338,9 @@ inline
 b32 file_read( FileInfo* f, void* buffer, ssize size )
 {
 	s64 cur_offset = file_tell( f );
-	b32 result     = file_read_at( f, buffer, size, file_tell( f ) );
-	file_seek( f, cur_offset + size );
+	ssize bytes_read = 0;
+	b32   result     = file_read_at_check( f, buffer, size, cur_offset, & bytes_read );
+	file_seek( f, cur_offset + bytes_read );
 	return result;
 }
 
@@ -361,17 +362,19 @@ inline
 b32 file_write( FileInfo* f, void const* buffer, ssize size )
 {
 	s64 cur_offset = file_tell( f );
-	b32 result     = file_write_at( f, buffer, size, file_tell( f ) );
+	ssize bytes_written = 0;
+	b32   result        = file_write_at_check( f, buffer, size, cur_offset, & bytes_written );
 
-	file_seek( f, cur_offset + size );
+	file_seek( f, cur_offset + bytes_written );
 
-	return result;
+	return result && bytes_written == size;
 }
 
 inline
 b32 file_write_at( FileInfo* f, void const* buffer, ssize size, s64 offset )
 {
-	return file_write_at_check( f, buffer, size, offset, NULL );
+	ssize bytes_written = 0;
+	return file_write_at_check( f, buffer, size, offset, & bytes_written ) && bytes_written == size;
 }
 
 inline
-- 
2.43.0


From f40626214f79d6c96cddcd0f659bfcc0c0d09e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 69/96] fix: padding lines ignored how many

---
 base/auxiliary/builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/auxiliary/builder.cpp b/base/auxiliary/builder.cpp
index f7116bc..8fbe97a 100644
--- a/base/auxiliary/builder.cpp
+++ b/base/auxiliary/builder.cpp
@@ -25,7 +25,8 @@ Builder builder_open( char const* path )
 
 void builder_pad_lines( Builder* builder, s32 num )
 {
-	strbuilder_append_str( & builder->Buffer, txt("\n") );
+	for ( ; num > 0; -- num )
+		strbuilder_append_str( & builder->Buffer, txt("\n") );
 }
 
 void builder_print( Builder* builder, Code code )
-- 
2.43.0


From 37dbaab5c4414a29694ed87c52800a7eede13c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 70/96] fix: scanning a file that ends in a directive ran past
 its end, a failed read went unreported

---
 base/auxiliary/scanner.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/auxiliary/scanner.cpp b/base/auxiliary/scanner.cpp
index de0fd7b..c820cc2 100644
--- a/base/auxiliary/scanner.cpp
+++ b/base/auxiliary/scanner.cpp
@@ -21,8 +21,13 @@ Code scan_file( char const* path )
 	}
 
 	StrBuilder str = strbuilder_make_reserve( get_context()->Allocator_Temp, fsize );
-		file_read( & file, str, fsize );
+		ssize bytes_read = 0;
+		if ( ! file_read_at_check( & file, str, fsize, 0, & bytes_read ) || bytes_read != fsize )
+		{
+			GEN_FATAL( "scan_file: Could not read: %s", path );
+		}
 		strbuilder_get_header(str)->Length = fsize;
+		str[ fsize ] = '\0';
 
 	// Skip INTELLISENSE_DIRECTIVES preprocessor blocks
 	// Its designed so that the directive should be the first thing in the file.
@@ -30,7 +35,7 @@ Code scan_file( char const* path )
 	{
 	#define current (*scanner)
 	#define matched    0
-	#define move_fwd() do { ++ scanner; -- left; } while (0)
+	#define move_fwd() do { if ( left ) { ++ scanner; -- left; } } while (0)
 		const Str directive_start = txt( "ifdef" );
 		const Str directive_end   = txt( "endif" );
 		const Str def_intellisense = txt("INTELLISENSE_DIRECTIVES" );
-- 
2.43.0


From d04d46cc043b9ec4066865b403bcc4fda0f1f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 71/96] fix: formatting a text too long for a file wrote with
 size -1 instead of reporting it

---
 base/dependencies/printing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/dependencies/printing.cpp b/base/dependencies/printing.cpp
index d2a3fea..922d7b8 100644
--- a/base/dependencies/printing.cpp
+++ b/base/dependencies/printing.cpp
@@ -568,6 +568,8 @@ ssize c_str_fmt_file_va( FileInfo* f, char const* fmt, va_list va )
 {
 	local_persist thread_local char buf[ GEN_PRINTF_MAXLEN ];
 	ssize                              len = c_str_fmt_va( buf, size_of( buf ), fmt, va );
+	if ( len <= 0 )
+		return -1;    // It does not fit the buffer
 	b32                             res = file_write( f, buf, len - 1 );    // NOTE: prevent extra whitespace
 	return res ? len : -1;
 }
-- 
2.43.0


From 30bb8307bc5ab49281d56cf62cccc47968f8cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 72/96] fix: CSV tables lost cells to trimmed delimiters,
 misread rows of other lengths, quotes and hex cells

---
 base/dependencies/parsing.cpp | 57 ++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index ce13e23..fadd417 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -807,6 +807,16 @@ ADT_Error adt_c_str_to_number_strict( ADT_Node* node )
 #	define GEN_CSV_ASSERT( msg )
 #endif
 
+// Skips whitespace thats neither a delimiter nor (when rows are not to be skipped) the end of a row.
+internal
+char* _csv_trim( char* str, b32 catch_newline, char delim )
+{
+	while ( * str && * str != delim && char_is_space( * str ) && ( ! catch_newline || * str != '\n' ) )
+		++ str;
+
+	return str;
+}
+
 u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b32 has_header, char delim )
 {
 	CSV_Error error = ECSV_Error__NONE;
@@ -822,13 +832,15 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 
 	ssize columnIndex       = 0;
 	ssize totalColumnIndex = 0;
+	ssize rowIndex         = 0;
 
 	do
 	{
+		// Empty rows are skipped, within a row a field may be empty.
 		char delimiter = 0;
-		currentChar = ccast( char*, c_str_trim( currentChar, false ));
+		currentChar = _csv_trim( currentChar, columnIndex > 0, delim );
 
-		if ( *currentChar == 0 )
+		if ( *currentChar == 0 && columnIndex == 0 )
 			break;
 
 		ADT_Node rowItem = { 0 };
@@ -869,13 +881,13 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 
 			*endChar    = 0;
-			currentChar = ccast( char*, c_str_trim( endChar + 1, true ));
+			currentChar = _csv_trim( endChar + 1, true, delim );
 			delimiter   = * currentChar;
 
 			/* unescape escaped quotes (so that unescaped text escapes :) */
 			{
 				char* escapedChar = beginChar;
-				do
+				while ( *escapedChar )
 				{
 					if ( *escapedChar == '"' && *( escapedChar + 1 ) == '"' )
 					{
@@ -883,10 +895,9 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 					}
 					escapedChar++;
 				}
-				while ( *escapedChar );
 			}
 		}
-		else if ( *currentChar == delim )
+		else if ( *currentChar == delim || *currentChar == '\n' || *currentChar == 0 )
 		{
 			delimiter      = * currentChar;
 			rowItem.string = "";
@@ -904,30 +915,21 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 			while ( * endChar && * endChar != delim && * endChar != '\n' );
 
-			if ( * endChar )
-			{
-				currentChar = ccast( char*, c_str_trim( endChar, true ));
-
-				while ( char_is_space( *( endChar - 1 ) ) )
-				{
-					endChar--;
-				}
+			currentChar = endChar;
+			delimiter   = * currentChar;
 
-				delimiter = * currentChar;
-				* endChar = 0;
-			}
-			else
+			while ( char_is_space( *( endChar - 1 ) ) )
 			{
-				delimiter   = 0;
-				currentChar = endChar;
+				endChar--;
 			}
+			* endChar = 0;
 
 			/* check if number and process if so */
 			b32   skip_number = false;
 			char* num_p       = beginChar;
 
 			// We only consider hexadecimal values if they start with 0x
-			if ( c_str_len(num_p) > 2 && num_p[0] == '0' && (num_p[1] == 'x' || num_p[1] == 'X') )
+			if ( (! has_header || rowIndex > 0) && c_str_len(num_p) > 2 && num_p[0] == '0' && (num_p[1] == 'x' || num_p[1] == 'X') )
 			{
 				num_p += 2; // skip '0x' prefix
 				do
@@ -937,7 +939,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 						skip_number = true;
 						break;
 					}
-				} while (*num_p++);
+				} while (*++num_p);
 			}
 			else
 			{
@@ -965,7 +967,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 		else if ( delimiter == '\n' || delimiter == 0 )
 		{
 			/* check if number of rows is not mismatched */
-			if ( totalColumnIndex < columnIndex )
+			if ( rowIndex == 0 )
 				totalColumnIndex = columnIndex;
 
 			else if ( totalColumnIndex != columnIndex )
@@ -976,12 +978,19 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			}
 
 			columnIndex = 0;
+			rowIndex++;
 
 			if ( delimiter != 0 )
 				currentChar++;
 		}
+		else
+		{
+			GEN_CSV_ASSERT( "text after a quoted string" );
+			error = ECSV_Error__INTERNAL;
+			return error;
+		}
 	}
-	while ( *currentChar );
+	while ( *currentChar || columnIndex > 0 );
 
 	if (array_num( root->nodes) == 0 )
 	{
-- 
2.43.0


From 2237ad42fa24b1e93a21bca3e25531f58211a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 73/96] fix: long numbers were read past the buffers they are
 collected in

---
 base/dependencies/parsing.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index fadd417..981f08f 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -490,6 +490,7 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 	ssize   ib        = 0;
 	char buf[ 48 ] = { 0 };
+	ssize   ib_max    = size_of( buf ) - 2; // Left for the terminator and the digit of a trailing dot.
 
 	if ( *e == '+' )
 		++e;
@@ -506,6 +507,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 		buf[ ib++ ] = '0';
 		do
 		{
+			if ( ib >= ib_max )
+				return ++base_str;
 			buf[ ib++ ] = *e;
 		} while ( char_is_digit( *++e ) );
 	}
@@ -524,6 +527,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 		while ( char_is_hex_digit( *e ) || char_to_lower( *e ) == 'x' )
 		{
+			if ( ib >= ib_max )
+				return ++base_str;
 			buf[ ib++ ] = *e++;
 		}
 
@@ -535,6 +540,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 
 			do
 			{
+				if ( ib >= ib_max )
+					return ++base_str;
 				buf[ ib++ ] = *e;
 				++step;
 			} while ( char_is_digit( *++e ) );
@@ -571,6 +578,8 @@ char* adt_parse_number( ADT_Node* node, char* base_str )
 			}
 			while ( char_is_digit( *e ) )
 			{
+				if ( expi >= scast( ssize, size_of( expbuf ) ) - 1 )
+					return ++base_str;
 				expbuf[ expi++ ] = *e++;
 			}
 		}
-- 
2.43.0


From a565ff3dd6a9bb10932c73d4772311d6045cd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 74/96] fix: parents of data tree nodes went stale when their
 arrays moved, moving within an array took the wrong node

---
 base/dependencies/parsing.cpp | 43 ++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/base/dependencies/parsing.cpp b/base/dependencies/parsing.cpp
index 981f08f..8809873 100644
--- a/base/dependencies/parsing.cpp
+++ b/base/dependencies/parsing.cpp
@@ -273,6 +273,21 @@ ADT_Node* adt_query( ADT_Node* node, char const* uri )
 	return found_node;
 }
 
+// Nodes are held by value, when they move their own nodes have to follow.
+internal
+void _adt_nodes_moved( ADT_Node* parent )
+{
+	for ( ssize i = 0; i < scast(ssize, array_num(parent->nodes)); ++ i )
+	{
+		ADT_Node* node = parent->nodes + i;
+		if ( ( node->type != EADT_TYPE_OBJECT && node->type != EADT_TYPE_ARRAY ) || ! node->nodes )
+			continue;
+
+		for ( ssize child = 0; child < scast(ssize, array_num(node->nodes)); ++ child )
+			node->nodes[ child ].parent = node;
+	}
+}
+
 ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 {
 	if ( ! parent || ( parent->type != EADT_TYPE_OBJECT && parent->type != EADT_TYPE_ARRAY ) )
@@ -291,6 +306,8 @@ ADT_Node* adt_alloc_at( ADT_Node* parent, ssize index )
 	if ( ! array_append_at( parent->nodes, o, index ) )
 		return NULL;
 
+	_adt_nodes_moved( parent );
+
 	ADT_Node* node = & parent->nodes[index];
 	return node;
 }
@@ -344,9 +361,25 @@ ADT_Node* adt_move_node_at( ADT_Node* node, ADT_Node* new_parent, ssize index )
 	GEN_ASSERT_NOT_NULL( node );
 	GEN_ASSERT_NOT_NULL( new_parent );
 	ADT_Node* old_parent = node->parent;
-	ADT_Node* new_node   = adt_alloc_at( new_parent, index );
-	*new_node            = *node;
-	new_node->parent     = new_parent;
+	ADT_Node  moved      = *node;
+
+	// Within the same container the allocation moves the node as well.
+	ssize old_index = old_parent == new_parent ? pointer_diff( old_parent->nodes, node ) / size_of( ADT_Node ) : -1;
+
+	ADT_Node* new_node = adt_alloc_at( new_parent, index );
+	if ( ! new_node )
+		return NULL;
+
+	*new_node        = moved;
+	new_node->parent = new_parent;
+	_adt_nodes_moved( new_parent );
+
+	if ( old_index >= 0 )
+	{
+		b32 before = index <= old_index;
+		adt_remove_node( new_parent->nodes + ( before ? old_index + 1 : old_index ) );
+		return new_parent->nodes + ( before ? index : index - 1 );
+	}
 	if ( old_parent )
 	{
 		adt_remove_node( node );
@@ -375,6 +408,8 @@ void adt_swap_nodes( ADT_Node* node, ADT_Node* other_node )
 	other_parent->nodes[ index2 ].parent = parent;
 	parent->nodes[ index ]               = other_parent->nodes[ index2 ];
 	other_parent->nodes[ index2 ]        = temp;
+	_adt_nodes_moved( parent );
+	_adt_nodes_moved( other_parent );
 }
 
 void adt_remove_node( ADT_Node* node )
@@ -384,6 +419,7 @@ void adt_remove_node( ADT_Node* node )
 	ADT_Node* parent = node->parent;
 	ssize        index  = ( pointer_diff( parent->nodes, node ) / size_of( ADT_Node ) );
 	array_remove_at( parent->nodes, index );
+	_adt_nodes_moved( parent );
 }
 
 ADT_Node* adt_append_obj( ADT_Node* parent, char const* name )
@@ -966,6 +1002,7 @@ u8 csv_parse_delimiter( CSV_Object* root, char* text, AllocatorInfo allocator, b
 			adt_append_arr( root, NULL );
 		}
 
+		rowItem.parent = root->nodes + columnIndex;
 		array_append( root->nodes[ columnIndex ].nodes, rowItem );
 
 		if ( delimiter == delim )
-- 
2.43.0


From b2ac3ce48bcea0b1bbf2d1f841fd864183ad1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 75/96] fix: memory larger than a bucket of the fallback
 allocator was refused, the first bucket was made before its size was known

---
 base/components/interface.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 0b8c0cb..2651e18 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -19,7 +19,9 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		{
 			if ( align_forward_s64( size, alignment ) > arena_size_remaining( last, alignment ) )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				// A request larger than a bucket gets a bucket of its own size.
+				ssize bucket_size = max( scast(ssize, _ctx->InitSize_Fallback_Allocator_Bucket_Size), size + alignment );
+				Arena bucket      = arena_init_from_allocator( heap(), bucket_size );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -46,7 +48,9 @@ void* fallback_allocator_proc( void* allocator_data, AllocType type, ssize size,
 		{
 			if ( align_forward_s64( size, alignment ) > arena_size_remaining( last, alignment ) )
 			{
-				Arena bucket = arena_init_from_allocator( heap(), _ctx->InitSize_Fallback_Allocator_Bucket_Size );
+				// A request larger than a bucket gets a bucket of its own size.
+				ssize bucket_size = max( scast(ssize, _ctx->InitSize_Fallback_Allocator_Bucket_Size), size + alignment );
+				Arena bucket      = arena_init_from_allocator( heap(), bucket_size );
 
 				if ( bucket.PhysicalStart == nullptr )
 					GEN_FATAL( "Failed to create bucket for Fallback_AllocatorBuckets");
@@ -238,6 +242,9 @@ void init(Context* ctx)
 		ctx->Allocator_Temp = fallback_allocator;
 		using_fallback_allocator = true;
 	}
+	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
+		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
+	}
 	// Setup fallback allocator
 	if (using_fallback_allocator)
 	{
@@ -279,10 +286,6 @@ void init(Context* ctx)
 		ctx->SizePer_StringArena = megabytes(1);
 	}
 
-	if (ctx->InitSize_Fallback_Allocator_Bucket_Size == 0) { 
-		ctx->InitSize_Fallback_Allocator_Bucket_Size = megabytes(8);
-	}
-
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
-- 
2.43.0


From f865700b26b8a5270ed22085922e4167c0aefd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 76/96] fix: looking for a constructor's name went into later
 declarations, default values with comparisons were refused, directives ran
 into the body of a macro

---
 base/components/parser.cpp | 42 ++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 8595048..d7f72ab 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -2030,6 +2030,10 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 	for ( ; idx < array_num(tokens.Arr); idx++ )
 	{
 		nav = tokarray_at( tokens, idx );
+		// The parenthesis of a later declaration, of a body or of a value is not one of this definition's parameters.
+		if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close || bitfield_is_set( u32, nav.Flags, TF_Assign ) )
+			return result;
+
 		if ( nav.Text.Len && nav.Text.Ptr[ 0 ] == '<' )
 		{
 			// Skip templated expressions as they mey have expressions with the () operators
@@ -2038,6 +2042,9 @@ Code parse_global_nspace_constructor_destructor( CodeSpecifiers specifiers )
 			for ( ; idx < array_num(tokens.Arr); idx++ )
 			{
 				nav = tokarray_at( tokens, idx );
+				if ( nav.Type == Tok_Statement_End || nav.Type == Tok_BraceCurly_Open || nav.Type == Tok_BraceCurly_Close )
+					return result;
+
 				if (nav.Text.Len && nav.Text.Ptr[ 0 ] == '<')
 					++ template_level;
 
@@ -2888,6 +2895,20 @@ s32 tok_template_depth( Token tok )
 	return tok.Text.Len == 2 && tok.Text.Ptr[0] == '>' && tok.Text.Ptr[1] == '>' ? -2 : 0;
 }
 
+// Same, within the value of a parameter: only names have template arguments, anything else is compared.
+internal inline
+s32 param_value_template_depth( Token tok, Token prev, s32 template_level, bool within_template )
+{
+	s32 depth = tok_template_depth( tok );
+	if ( depth > 0 && prev.Type != Tok_Identifier )
+		return 0;
+
+	if ( template_level + depth < 0 && ! within_template )
+		return 0;
+
+	return depth;
+}
+
 internal inline
 CodeParams parse_params( bool use_template_capture )
 {
@@ -2997,12 +3018,14 @@ CodeParams parse_params( bool use_template_capture )
 			s32 template_level = 0;
 			while ( (left && ( currtok.Type != Tok_Comma ) && template_level >= 0 && CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 			{
-				template_level += tok_template_depth( currtok );
+				// Angle brackets within a parenthesis, bracket or brace do not matter to where the value ends
+				if ( capture_level == 0 )
+					template_level += param_value_template_depth( currtok, prevtok, template_level, use_template_capture );
 
-				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+				if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 					++ capture_level;
 
-				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+				if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 					-- capture_level;
 
 				value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3108,12 +3131,14 @@ CodeParams parse_params( bool use_template_capture )
 				&& template_level >= 0
 				&& CheckEndParams()) || (capture_level > 0 || template_level > 0) )
 				{
-					template_level += tok_template_depth( currtok );
+					// Angle brackets within a parenthesis, bracket or brace do not matter to where the value ends
+					if ( capture_level == 0 )
+						template_level += param_value_template_depth( currtok, prevtok, template_level, use_template_capture );
 
-					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open )
+					if ( currtok.Type == Tok_Paren_Open || currtok.Type == Tok_BraceCurly_Open || currtok.Type == Tok_BraceSquare_Open )
 						++ capture_level;
 
-					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close )
+					if ( currtok.Type == Tok_Paren_Close || currtok.Type == Tok_BraceCurly_Close || currtok.Type == Tok_BraceSquare_Close )
 						-- capture_level;
 
 					value_tok.Text.Len = ( ( sptr )currtok.Text.Ptr + currtok.Text.Len ) - ( sptr )value_tok.Text.Ptr;
@@ -3275,6 +3300,11 @@ Code parse_simple_preprocess( TokType which )
 		}
 
 		full_macro.Text.Len = token_span_to_prev( full_macro );
+
+		// Keep what separates the body from the entry following it, a directive has to stay on a line of its own.
+		if (( str_contains(prev_proc, txt("parse_global_nspace")) || str_contains(prev_proc, txt("parse_class_struct_body")) )
+		&&	left && currtok_noskip.Type != Tok_NewLine && currtok_noskip.Type != Tok_BraceCurly_Close )
+			full_macro.Text.Len = (sptr)currtok_noskip.Text.Ptr - (sptr)full_macro.Text.Ptr;
 	}
 	else
 	{
-- 
2.43.0


From e7f02bd42bd4ea9726a4011030942e112a3968f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 77/96] fix: the parameters of a define were expected or
 refused by how its name was registered before

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index d7f72ab..9c29bd5 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3838,8 +3838,8 @@ CodeDefine parser_parse_define()
 	eat( Tok_Identifier );
 	// #define <Name>
 
-	Macro* macro = lookup_macro(define->Name);
-	if (macro && macro_is_functional(* macro)) {
+	// The definition says if there are parameters, the macro may have been registered (or defined) otherwise before.
+	if ( check( Tok_Paren_Open ) ) {
 		eat( Tok_Paren_Open );
 		// #define <Name> (
 
-- 
2.43.0


From f8143d862e79af65b991842eb80388cb3698b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 78/96] fix: deinit trapped when no context was current, reset
 left all but the last pool and arena unused and moved the constants other
 contexts refer to

---
 base/components/interface.cpp | 29 +++++++++++++++++++++++++----
 base/components/interface.hpp |  4 ++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/base/components/interface.cpp b/base/components/interface.cpp
index 2651e18..bfde3ae 100644
--- a/base/components/interface.cpp
+++ b/base/components/interface.cpp
@@ -289,6 +289,9 @@ void init(Context* ctx)
 	// Override the current context (user has to put it back if unwanted).
 	_ctx = ctx;
 
+	ctx->CodePool_Active    = 0;
+	ctx->StringArena_Active = 0;
+
 	// Setup the arrays
 	{
 		ctx->CodePools = array_init_reserve(Pool, ctx->Allocator_DyanmicContainers, ctx->InitSize_CodePoolsArray );
@@ -337,6 +340,10 @@ void deinit(Context* ctx)
 {
 	GEN_ASSERT(context_counter);
 	GEN_ASSERT_MSG(context_counter > 0, "Attempted to deinit a context that for some reason wan't accounted for!");
+	// The fallback allocator goes by the current context.
+	Context* current = _ctx;
+	_ctx = ctx;
+
 	usize index = 0;
 	usize left  = array_num(ctx->CodePools);
 	do
@@ -382,8 +389,7 @@ void deinit(Context* ctx)
 		array_free( ctx->Fallback_AllocatorBuckets);
 	}
 
-	if (_ctx == ctx) 
-		_ctx = nullptr;
+	_ctx = current == ctx ? nullptr : current;
 	-- context_counter;
 
 	Context wipe = {};
@@ -424,6 +430,9 @@ void reset(Context* ctx)
 	}
 	while ( left--, left );
 
+	ctx->CodePool_Active    = 0;
+	ctx->StringArena_Active = 0;
+
 	hashtable_clear(ctx->StrCache);
 	hashtable_clear(ctx->Macros);
 
@@ -442,8 +451,13 @@ void set_context(Context* new_ctx) {
 
 AllocatorInfo get_cached_str_allocator( s32 str_length )
 {
-	Arena* last     = array_back(_ctx->StringArenas);
 	usize  size_req = str_length + sizeof(StrBuilderHeader) + 1 + GEN_DEFAULT_MEMORY_ALIGNMENT;
+	Arena* last     = & _ctx->StringArenas[_ctx->StringArena_Active];
+	while ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize && _ctx->StringArena_Active + 1 < array_num(_ctx->StringArenas) )
+	{
+		++ _ctx->StringArena_Active;
+		last = & _ctx->StringArenas[_ctx->StringArena_Active];
+	}
 	if ( last->TotalUsed + scast(ssize, size_req) > last->TotalSize )
 	{
 		Arena new_arena = arena_init_from_allocator( _ctx->Allocator_StrCache, max( scast(usize, _ctx->SizePer_StringArena), size_req ) );
@@ -451,6 +465,7 @@ AllocatorInfo get_cached_str_allocator( s32 str_length )
 			GEN_FATAL( "gen::get_cached_str_allocator: Failed to allocate a new string arena" );
 
 		last = array_back( _ctx->StringArenas);
+		_ctx->StringArena_Active = array_num(_ctx->StringArenas) - 1;
 	}
 	return arena_allocator_info(last);
 }
@@ -478,7 +493,12 @@ StrCached cache_str( Str str )
 // Used internally to retireve a Code object form the CodePool.
 Code make_code()
 {
-	Pool* allocator = array_back( _ctx->CodePools);
+	Pool* allocator = & _ctx->CodePools[_ctx->CodePool_Active];
+	while ( allocator->FreeList == nullptr && _ctx->CodePool_Active + 1 < array_num(_ctx->CodePools) )
+	{
+		++ _ctx->CodePool_Active;
+		allocator = & _ctx->CodePools[_ctx->CodePool_Active];
+	}
 	if ( allocator->FreeList == nullptr )
 	{
 		Pool code_pool = pool_init( _ctx->Allocator_Pool, _ctx->CodePool_NumBlocks, sizeof(AST) );
@@ -490,6 +510,7 @@ Code make_code()
 			GEN_FATAL( "gen::make_code: Failed to allocate a new code pool - CodePools failed to append new pool." );
 
 		allocator = array_back( _ctx->CodePools);
+		_ctx->CodePool_Active = array_num(_ctx->CodePools) - 1;
 	}
 	Code result = { rcast( AST*, alloc( pool_allocator_info(allocator), sizeof(AST) )) };
 	mem_set( rcast(void*, cast(AST*, result)), 0, sizeof(AST) );
diff --git a/base/components/interface.hpp b/base/components/interface.hpp
index 7578f1c..4468b90 100644
--- a/base/components/interface.hpp
+++ b/base/components/interface.hpp
@@ -87,6 +87,10 @@ struct Context
 	Array(Pool)  CodePools;
 	Array(Arena) StringArenas;
 
+	// The pool and the arena being filled, after a reset those behind them are filled again.
+	usize CodePool_Active;
+	usize StringArena_Active;
+
 	StringTable StrCache;
 
 	// TODO(Ed): This needs to be just handled by a parser context
-- 
2.43.0


From b7938df7ad97529005e71e21f63c33d537fd7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:46 +0000
Subject: [PATCH 79/96] fix: token formatting cut texts which do not fit,
 untyped_token_fmt mixed up its arguments and named nothing

---
 base/components/inlines.hpp           |   2 +-
 base/components/interface.untyped.cpp | 115 ++++++++++++++------------
 2 files changed, 62 insertions(+), 55 deletions(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index 72bb033..b853815 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -774,7 +774,7 @@ Str token_fmt_impl( ssize num, ... )
 	ssize result = token_fmt_va(buf, GEN_PRINTF_MAXLEN, num, va);
 	va_end(va);
 
-	Str str = { buf, result };
+	Str str = { buf, max( result, scast(ssize, 0) ) };
 	return str;
 }
 #pragma endregion Interface
diff --git a/base/components/interface.untyped.cpp b/base/components/interface.untyped.cpp
index 32c0329..973025c 100644
--- a/base/components/interface.untyped.cpp
+++ b/base/components/interface.untyped.cpp
@@ -3,50 +3,32 @@
 #include "interface.parsing.cpp"
 #endif
 
-ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+internal
+void token_fmt_set( char const* token, Str value )
 {
-	char const* buf_begin = buf;
-	ssize       remaining = buf_size;
-
 	if (_ctx->token_fmt_map.Hashes == nullptr) {
 		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
 	}
-	// Populate token pairs
-	{
-		s32 left = num_tokens - 1;
+	u32 key = crc32( token, c_str_len(token) );
+	hashtable_set( _ctx->token_fmt_map, key, value );
+}
 
-		while ( left-- )
-		{
-			char const* token = va_arg( va, char const* );
-			Str         value = va_arg( va, Str );
+// Writes fmt with the tokens set, they are forgotten afterwards.
+internal
+ssize token_fmt_write( char* buf, usize buf_size, char const* fmt )
+{
+	ssize remaining = buf_size;
 
-			u32 key = crc32( token, c_str_len(token) );
-			hashtable_set( _ctx->token_fmt_map, key, value );
-		}
+	if (_ctx->token_fmt_map.Hashes == nullptr) {
+		_ctx->token_fmt_map = hashtable_init(Str, _ctx->Allocator_DyanmicContainers );
 	}
-
-	char const* fmt     = va_arg( va, char const* );
-	char        current = *fmt;
-
-	while ( current && remaining )
+	while ( *fmt )
 	{
-		ssize len = 0;
-
-		while ( current && current != '<' && remaining )
-		{
-			* buf = * fmt;
-			buf++;
-			fmt++;
-			remaining--;
-
-			current = * fmt;
-		}
-
-		if ( current == '<' && remaining )
+		if ( *fmt == '<' )
 		{
-			char const* scanner = fmt + 1;
-
-			s32 tok_len = 0;
+			char const* token   = fmt + 1;
+			char const* scanner = token;
+			s32         tok_len = 0;
 
 			while ( *scanner && *scanner != '>' )
 			{
@@ -54,43 +36,58 @@ ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
 				scanner++;
 			}
 
-			char const* token = fmt + 1;
-
-			u32      key   = crc32( token, tok_len );
-			Str*     value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
+			u32  key   = crc32( token, tok_len );
+			Str* value = *scanner ? hashtable_get(_ctx->token_fmt_map, key ) : nullptr;
 
 			if ( value )
 			{
-				ssize          left = value->Len;
-				char const* str  = value->Ptr;
+				if ( value->Len > remaining )
+					break;
 
-				while ( left-- && remaining )
+				char const* str = value->Ptr;
+				for ( ssize left = value->Len; left > 0; -- left )
 				{
 					* buf = * str;
 					buf++;
 					str++;
 					remaining--;
 				}
-
-				scanner++;
-				fmt     = scanner;
-				current = * fmt;
+				fmt = scanner + 1;
 				continue;
 			}
-
-			* buf = * fmt;
-			buf++;
-			fmt++;
-			remaining--;
-
-			current = * fmt;
 		}
+		if ( remaining == 0 )
+			break;
+
+		* buf = * fmt;
+		buf++;
+		fmt++;
+		remaining--;
 	}
 	hashtable_clear(_ctx->token_fmt_map);
+	if ( *fmt )
+	{
+		log_failure( "token_fmt: the text does not fit the buffer" );
+		return -1;
+	}
 	ssize result = buf_size - remaining;
 	return result;
 }
 
+ssize token_fmt_va( char* buf, usize buf_size, s32 num_tokens, va_list va )
+{
+	// Populate token pairs
+	for ( s32 left = num_tokens - 1; left > 0; -- left )
+	{
+		char const* token = va_arg( va, char const* );
+		Str         value = va_arg( va, Str );
+		token_fmt_set( token, value );
+	}
+
+	char const* fmt = va_arg( va, char const* );
+	return token_fmt_write( buf, buf_size, fmt );
+}
+
 Code untyped_str( Str content )
 {
 	if ( content.Len == 0 )
@@ -164,15 +161,25 @@ Code untyped_token_fmt( s32 num_tokens, char const* fmt, ... )
 
 	va_list va;
 	va_start(va, fmt);
-	ssize length = token_fmt_va(buf, GEN_PRINTF_MAXLEN, num_tokens, va);
+	for ( s32 left = num_tokens; left > 0; -- left )
+	{
+		char const* token = va_arg( va, char const* );
+		Str         value = va_arg( va, Str );
+		token_fmt_set( token, value );
+	}
 	va_end(va);
 
+	ssize length = token_fmt_write( buf, GEN_PRINTF_MAXLEN, fmt );
+	if ( length < 0 )
+		return InvalidCode;
+
 	Str buf_str = { buf, length };
 
 	Code
 	result          = make_code();
 	result->Type    = CT_Untyped;
 	result->Content = cache_str( buf_str );
+	result->Name    = result->Content;
 
 	if ( result->Name.Len == 0 )
 	{
-- 
2.43.0


From 77653c778ec2dd36d37a2146a77db7144ec47cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:39 +0000
Subject: [PATCH 80/96] fix: CodeClass's add_interface and serializing members
 were never defined

---
 base/components/code_types.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/base/components/code_types.hpp b/base/components/code_types.hpp
index bbf885b..e4a0ccf 100644
--- a/base/components/code_types.hpp
+++ b/base/components/code_types.hpp
@@ -187,10 +187,10 @@ struct CodeClass
 {
 #if ! GEN_C_LIKE_CPP
 	Using_Code( CodeClass );
-	forceinline void       add_interface( CodeType interface );
-	forceinline StrBuilder to_strbuilder();
-	forceinline void       to_strbuilder_def( StrBuilder& result );
-	forceinline void       to_strbuilder_fwd( StrBuilder& result );
+	forceinline void       add_interface( CodeTypename interface );
+	forceinline StrBuilder to_strbuilder()                         { return class_to_strbuilder(* this); }
+	forceinline void       to_strbuilder_def( StrBuilder& result ) { return class_to_strbuilder_def(* this, & result); }
+	forceinline void       to_strbuilder_fwd( StrBuilder& result ) { return class_to_strbuilder_fwd(* this, & result); }
 #endif
 	Using_CodeOps( CodeClass );
 	forceinline operator Code() { return * rcast( Code*, this ); }
@@ -961,6 +961,10 @@ struct CodeStruct
 	AST_Struct* ast;
 };
 
+#if ! GEN_C_LIKE_CPP
+forceinline void CodeClass::add_interface( CodeTypename interface ) { return class_add_interface(* this, interface); }
+#endif
+
 #undef Define_CodeType
 #undef Using_Code
 #undef Using_CodeOps
-- 
2.43.0


From 290e74abd4dfb9ab4537b42a394c3c6f8273fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 81/96] fix: tokens were placed where the blanks before them
 begin

---
 base/components/lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 7c8ee4f..4047676 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -663,6 +663,9 @@ TokArray lex( Str content )
 		if ( c.left <= 0 )
 			break;
 
+		c.token.Line   = c.line;
+		c.token.Column = c.column;
+
 		switch ( lexer_char() )
 		{
 			case '#':
-- 
2.43.0


From b00eeb450b19fb887d17c9fd2f2f357254fb281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 82/96] fix: a type at the end of the tokens was read on into
 the tokens of an earlier parse

---
 base/components/parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9c29bd5..2c6cff3 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -5165,18 +5165,19 @@ else if ( currtok.Type == Tok_DeclType )
 	bool   is_function_typename = false;
 	Token* last_capture         = nullptr;
 	{
-		Token* scanner = _ctx->parser.Tokens.Arr + _ctx->parser.Tokens.Idx;
+		Token* scanner    = _ctx->parser.Tokens.Arr + _ctx->parser.Tokens.Idx;
+		Token* tokens_end = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr);
 
 		// An identifier being within a typename's signature only occurs if were parsing a typename for a typedef.
-		if ( typedef_is_function && scanner->Type == Tok_Identifier )
+		if ( typedef_is_function && scanner < tokens_end && scanner->Type == Tok_Identifier )
 		{
 			is_function_typename = true;
 			++scanner;
 		}
-		is_function_typename = scanner->Type == Tok_Paren_Open;
+		is_function_typename = scanner < tokens_end && scanner->Type == Tok_Paren_Open;
 
 		Token* first_capture = scanner;
-		Token* last_token    = _ctx->parser.Tokens.Arr + array_num(_ctx->parser.Tokens.Arr) - 1;
+		Token* last_token    = tokens_end - 1;
 		if ( is_function_typename )
 		{
 			// Go to the end of the signature
-- 
2.43.0


From 9d4f7bbeaaaa4728cbd0bc43e17e427f34b1baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 83/96] fix: a function without a name was refused without a
 word

---
 base/components/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 2c6cff3..9161d9e 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4523,6 +4523,7 @@ CodeFn parser_parse_function()
 	Token name = parse_identifier(nullptr);
 	_ctx->parser.Scope->Name = name.Text;
 	if ( ! tok_is_valid(name) ) {
+		log_failure( "Error, expected the name of the function\n%SB", parser_to_strbuilder(_ctx->parser) );
 		parser_pop(& _ctx->parser);
 		return InvalidCode;
 	}
-- 
2.43.0


From 65ebb845e8929cea7549ac84f568796af10e4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 84/96] fix: conversion operators with an empty body were
 refused, comments ending the body were lost

---
 base/components/parser.cpp | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 9161d9e..1434fca 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4691,31 +4691,13 @@ CodeOpCast parser_parse_operator_cast( CodeSpecifiers specifiers )
 
 	if ( check( Tok_BraceCurly_Open) )
 	{
-		eat( Tok_BraceCurly_Open );
-		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> {
-
-		Token body_str = currtok;
-
-		s32 level = 0;
-		while ( left && ( currtok.Type != Tok_BraceCurly_Close || level > 0 ) )
+		body = parse_function_body();
+		if ( body == Code_Invalid )
 		{
-			if ( currtok.Type == Tok_BraceCurly_Open )
-				level++;
-
-			else if ( currtok.Type == Tok_BraceCurly_Close )
-				level--;
-
-			eat( currtok.Type );
+			parser_pop(& _ctx->parser);
+			return InvalidCode;
 		}
-		if ( body_str.Text.Ptr == currtok.Text.Ptr )
-			body_str.Text.Len = 0;
-		else
-			body_str.Text.Len = token_span_to_prev( body_str );
-
-		eat( Tok_BraceCurly_Close );
 		// <Specifiers> <Qualifier> :: ... operator <UnderlyingType>() <const> { <Body> }
-
-		body = untyped_str( body_str.Text );
 	}
 	else
 	{
-- 
2.43.0


From 7b6434ee46cdbbf69f113c52faf66a35ac9e3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 85/96] fix: long static_asserts and operators qualified by
 long names went through a fixed buffer

---
 base/components/interface.upfront.cpp | 14 ++++++--------
 base/components/parser.cpp            |  6 +++---
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/base/components/interface.upfront.cpp b/base/components/interface.upfront.cpp
index e75e014..1c1a772 100644
--- a/base/components/interface.upfront.cpp
+++ b/base/components/interface.upfront.cpp
@@ -901,19 +901,17 @@ CodeOperator def_operator( Operator op, Str nspace, Opts_def_operator p )
 		return InvalidCode;
 	}
 
-	char const* name = nullptr;
-
 	Str op_str = operator_to_str( op );
-	if ( nspace.Len > 0 )
-		name = c_str_fmt_buf( "%.*soperator %.*s", nspace.Len, nspace.Ptr, op_str.Len, op_str.Ptr );
-	else
-		name = c_str_fmt_buf( "operator %.*s", op_str.Len, op_str.Ptr );
 
-	Str name_resolved = { name, c_str_len(name) };
+	StrBuilder name_resolved = strbuilder_make_reserve( _ctx->Allocator_Temp, nspace.Len + op_str.Len + 16 );
+	if ( nspace.Len > 0 )
+		strbuilder_append_str( & name_resolved, nspace );
+	strbuilder_append_str( & name_resolved, txt("operator ") );
+	strbuilder_append_str( & name_resolved, op_str );
 
 	CodeOperator
 	result              = (CodeOperator) make_code();
-	result->Name        = cache_str( name_resolved );
+	result->Name        = cache_str( strbuilder_to_str( name_resolved ) );
 	result->ModuleFlags = p.mflags;
 	result->Op          = op;
 	if ( p.body )
diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 1434fca..78a7472 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -3400,9 +3400,9 @@ Code parse_static_assert()
 
 	content.Text.Len  = token_span_to_prev( content );
 
-	char const* str  = c_str_fmt_buf( "%.*s\n", content.Text.Len, content.Text.Ptr );
-	Str content_str = { str, content.Text.Len + 1 };
-	assert->Content = cache_str( content_str );
+	StrBuilder content_str = strbuilder_make_str( _ctx->Allocator_Temp, content.Text );
+	strbuilder_append_char( & content_str, '\n' );
+	assert->Content = cache_str( strbuilder_to_str( content_str ) );
 	assert->Name	= assert->Content;
 
 	parser_pop(& _ctx->parser);
-- 
2.43.0


From ea09fa9a54fb4d2a011f088462ce1a1c4fe3dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:13 +0000
Subject: [PATCH 86/96] fix: identifiers spelled like directives or internal
 token names were refused or misprinted

---
 base/components/lexer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/base/components/lexer.cpp b/base/components/lexer.cpp
index 4047676..9ab6af9 100644
--- a/base/components/lexer.cpp
+++ b/base/components/lexer.cpp
@@ -514,8 +514,19 @@ void lex_found_token( LexContext* ctx )
 
 	TokType type = str_to_toktype( ctx->token.Text );
 
-	if (type == Tok_Preprocess_Define || type == Tok_Preprocess_Include) {
-		ctx->token.Flags |= TF_Identifier;
+	switch ( type )
+	{
+		// The names of directives are keywords only behind a '#' (see lex_preprocessor_directive),
+		// the names of the tokens which have no text of their own never are.
+		case Tok_Preprocess_Define:     case Tok_Preprocess_If:         case Tok_Preprocess_IfDef:          case Tok_Preprocess_IfNotDef:
+		case Tok_Preprocess_ElIf:       case Tok_Preprocess_Else:       case Tok_Preprocess_EndIf:          case Tok_Preprocess_Include:
+		case Tok_Preprocess_Pragma:     case Tok_Preprocess_Content:    case Tok_Preprocess_Define_Param:   case Tok_Preprocess_Unsupported:
+		case Tok_Preprocess_Macro_Expr: case Tok_Preprocess_Macro_Stmt: case Tok_Preprocess_Macro_Typename: case Tok___Attributes_Start:
+		case Tok_Comment: case Tok_Comment_End: case Tok_Comment_Start: case Tok_Char: case Tok_Identifier: case Tok_NewLine: case Tok_Number: case Tok_Operator: case Tok_String:
+			type = Tok_Invalid;
+		break;
+		default:
+		break;
 	}
 
 	if (type <= Tok_Access_Public && type >= Tok_Access_Private ) {
-- 
2.43.0


From d271eb694ea150328f5d70545e448e1a70e6fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:51 +0000
Subject: [PATCH 87/96] fix: a record declared without a name was printed as
 (null)

---
 base/components/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index 78a7472..a7af581 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -787,6 +787,12 @@ Code parse_class_struct( TokType which, bool inplace_def )
 	}
 	// <ModuleFlags> <class/struct> <Attributes> <Name>
 
+	if ( name.Text.Ptr == nullptr && ! check( Tok_BraceCurly_Open ) && ! check( Tok_Assign_Classifer ) ) {
+		// Only the definition of a record can go without a name
+		log_failure( "Error, expected the name of the %S\n%SB", toktype_to_str( which ), parser_to_strbuilder(_ctx->parser) );
+		return InvalidCode;
+	}
+
 	CodeSpecifiers specifiers = NullCode;
 	if ( check(Tok_Spec_Final)) {
 		specifiers = def_specifier(Spec_Final);
-- 
2.43.0


From cd4263fd7992a36ecb6fc63e13659f2ab153878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:50 +0000
Subject: [PATCH 88/96] fix: names with the checksum of a keyword were read as
 the keyword

---
 base/components/gen/especifier.hpp | 2 +-
 base/components/gen/etoktype.hpp   | 2 +-
 base/helpers/base_codegen.hpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index e03e9d4..ae2da23 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -102,7 +102,7 @@ inline Specifier str_to_specifier(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Spec_NumSpecifiers; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(spec_to_str((Specifier)index), str))
 			return (Specifier)index;
 	}
 	return Spec_Invalid;
diff --git a/base/components/gen/etoktype.hpp b/base/components/gen/etoktype.hpp
index 1b2c17c..0abb7e3 100644
--- a/base/components/gen/etoktype.hpp
+++ b/base/components/gen/etoktype.hpp
@@ -230,7 +230,7 @@ inline TokType str_to_toktype(Str str)
 	do_once_end u32 hash = crc32(str.Ptr, str.Len);
 	for (u32 index = 0; index < Tok_NumTokens; index++)
 	{
-		if (keymap[index] == hash)
+		if (keymap[index] == hash && str_are_equal(toktype_to_str((TokType)index), str))
 			return (TokType)index;
 	}
 	return Tok_Invalid;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 533acfc..93517c7 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -278,7 +278,7 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 
 			for ( u32 index = 0; index < Spec_NumSpecifiers; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( spec_to_str( (Specifier)index ), str ) )
 					return (Specifier)index;
 			}
 
@@ -435,7 +435,7 @@ CodeBody gen_etoktype( char const* etok_path, char const* attr_path, bool use_c_
 
 			for ( u32 index = 0; index < Tok_NumTokens; index++ )
 			{
-				if ( keymap[index] == hash )
+				if ( keymap[index] == hash && str_are_equal( toktype_to_str( (TokType)index ), str ) )
 					return (TokType)index;
 			}
 
-- 
2.43.0


From 4067d96172db3c11da87162dbb7272754dd01c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:50 +0000
Subject: [PATCH 89/96] fix: the Unreal variant's parser accepted other
 specifiers than the library's, and no longer compiled

---
 .../components/parser_case_macros.cpp         | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gen_unreal_engine/components/parser_case_macros.cpp b/gen_unreal_engine/components/parser_case_macros.cpp
index 4020555..90b3ecd 100644
--- a/gen_unreal_engine/components/parser_case_macros.cpp
+++ b/gen_unreal_engine/components/parser_case_macros.cpp
@@ -24,7 +24,6 @@ case Spec_ForceInline_Debuggable: \
 case Spec_Mutable:                \
 case Spec_NeverInline:            \
 case Spec_Static:                 \
-case Spec_Volatile:               \
 case Spec_Virtual
 
 #define GEN_PARSER_CLASS_GLOBAL_NSPACE_ALLOWED_MEMBER_TOK_SPECIFIER_CASES \
@@ -51,8 +50,7 @@ case Spec_Internal_Linkage:       \
 case Spec_Inline:                 \
 case Spec_Mutable:                \
 case Spec_NeverInline:            \
-case Spec_Static:                 \
-case Spec_Volatile
+case Spec_Static
 
 #define GEN_PARSER_FRIEND_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
@@ -69,7 +67,10 @@ case Spec_ForceInline:            \
 case Spec_ForceInline_Debuggable: \
 case Spec_Inline:                 \
 case Spec_NeverInline:            \
-case Spec_Static
+case Spec_Static:                 \
+case Spec_Global:                 \
+case Spec_Virtual:                \
+case Spec_Volatile
 
 #define GEN_PARSER_OPERATOR_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
@@ -77,7 +78,9 @@ case Spec_Constexpr:   \
 case Spec_ForceInline: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
-case Spec_Static
+case Spec_Static:      \
+case Spec_Virtual:     \
+case Spec_Volatile
 
 #define GEN_PARSER_TEMPLATE_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:                  \
@@ -105,10 +108,12 @@ case Spec_Local_Persist:    \
 case Spec_Mutable:          \
 case Spec_Static:           \
 case Spec_Thread_Local:     \
-case Spec_Volatile
+case Spec_Volatile:         \
+case Spec_Internal_Linkage
 
 #define GEN_PARSER_TYPENAME_ALLOWED_SUFFIX_SPECIFIER_CASES \
 case Spec_Const:    \
 case Spec_Ptr:      \
 case Spec_Ref:      \
-case Spec_RValue
+case Spec_RValue:   \
+case Spec_Volatile
-- 
2.43.0


From 620336143b4b2a1a0187d0a1b6e40c6baab6a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:37 +0000
Subject: [PATCH 90/96] fix: the C library printed only the first entry of a
 body

---
 base/components/inlines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/components/inlines.hpp b/base/components/inlines.hpp
index b853815..5677595 100644
--- a/base/components/inlines.hpp
+++ b/base/components/inlines.hpp
@@ -36,7 +36,7 @@ void body_to_strbuilder_ref( CodeBody body, StrBuilder* result )
 	{
 		code_to_strbuilder_ref(curr, result);
 		// strbuilder_append_fmt( result, "%SB", code_to_strbuilder(curr) );
-		++curr;
+		curr = curr->Next;
 	}
 }
 
-- 
2.43.0


From 7a7da0629142070eb4e3600009fc0c286decf4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:16 +0000
Subject: [PATCH 91/96] fix: the C library didn't know static_assert and
 thread_local

---
 gen_c_library/c_library.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/gen_c_library/c_library.cpp b/gen_c_library/c_library.cpp
index 591d79c..d3e02c4 100644
--- a/gen_c_library/c_library.cpp
+++ b/gen_c_library/c_library.cpp
@@ -57,6 +57,25 @@ Code refactor_and_format( Code code ) {
 	return code_refactor_and_format(code, scratch_file, path_refactor_script, path_format_style );
 }
 
+// The refactor also renames the keywords within the string literals the lexer recognizes them by.
+Code restore_keyword_strings( Code code ) {
+	local_persist Str const renamed[] = { txt("\"gen_static_assert\""), txt("\"gen_thread_local\"") };
+	Str        content  = strbuilder_to_str( code_to_strbuilder(code) );
+	StrBuilder restored = strbuilder_make_reserve( _ctx->Allocator_Temp, content.Len );
+	ssize      pos      = 0;
+	while ( pos < content.Len )
+	{
+		ssize skip = 0;
+		for ( Str name : renamed ) {
+			if ( content.Len - pos >= name.Len && c_str_compare_len( content.Ptr + pos, name.Ptr, name.Len ) == 0 )
+				skip = sizeof("gen_") - 1;
+		}
+		strbuilder_append_char( & restored, content.Ptr[pos] );
+		pos += 1 + skip;
+	}
+	return untyped_str( strbuilder_to_str(restored) );
+}
+
 constexpr bool helper_use_c_definition = true;
 
 int gen_main()
@@ -1667,7 +1686,7 @@ R"(#define <interface_name>( code ) _Generic( (code), \
 	Code rf_parser_types = refactor_and_format(parser_types);
 	Code rf_ecode        = refactor_and_format(ecode);
 	Code rf_eoperator    = refactor_and_format(eoperator);
-	Code rf_especifier   = refactor_and_format(especifier);
+	Code rf_especifier   = restore_keyword_strings( refactor_and_format(especifier) );
 	Code rf_ast          = refactor_and_format(ast);
 	Code rf_code_types   = refactor_and_format(code_types);
 	Code rf_ast_types    = refactor_and_format(ast_types);
@@ -1710,7 +1729,7 @@ R"(#define <interface_name>( code ) _Generic( (code), \
 	Code r_src_untyped          = refactor(src_untyped);
 
 	CodeBody etoktype    = gen_etoktype( path_base "enums/ETokType.csv", path_base "enums/AttributeTokens.csv", helper_use_c_definition );
-	Code     rf_etoktype = refactor_and_format(etoktype);
+	Code     rf_etoktype = restore_keyword_strings( refactor_and_format(etoktype) );
 
 	Code rf_src_builder = refactor_and_format( src_builder );
 	Code rf_src_scanner = refactor_and_format( scan_file( path_base "auxiliary/scanner.cpp" ));
-- 
2.43.0


From d2e9ae8bf819ad4d8db61826ddaafa67fc38c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:21 +0000
Subject: [PATCH 92/96] fix: the C library's hashtable_remove couldn't be
 called and its array_free left the array set

---
 gen_c_library/components/containers.array.hpp     | 2 +-
 gen_c_library/components/containers.hashtable.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen_c_library/components/containers.array.hpp b/gen_c_library/components/containers.array.hpp
index 7a7f08e..b07e860 100644
--- a/gen_c_library/components/containers.array.hpp
+++ b/gen_c_library/components/containers.array.hpp
@@ -252,7 +252,7 @@ CodeBody gen_array( Str type, Str array_name )
 			GEN_ASSERT(* self != nullptr);
 			ArrayHeader* header = array_get_header( * self );
 			allocator_free( header->Allocator, header );
-			self = NULL;
+			* self = NULL;
 		}
 
 		inline
diff --git a/gen_c_library/components/containers.hashtable.hpp b/gen_c_library/components/containers.hashtable.hpp
index 860da68..67db318 100644
--- a/gen_c_library/components/containers.hashtable.hpp
+++ b/gen_c_library/components/containers.hashtable.hpp
@@ -385,6 +385,7 @@ R"(#define GENERIC_SLOT_<slot>__hashtable_init          <type>,      <tbl_type>_
 #define GENERIC_SLOT_<slot>__hashtable_grow             <tbl_type>*, <tbl_type>_grow
 #define GENERIC_SLOT_<slot>__hashtable_rehash           <tbl_type>*, <tbl_type>_rehash
 #define GENERIC_SLOT_<slot>__hashtable_rehash_fast      <tbl_type>,  <tbl_type>_rehash_fast
+#define GENERIC_SLOT_<slot>__hashtable_remove           <tbl_type>,  <tbl_type>_remove
 #define GENERIC_SLOT_<slot>__hashtable_remove_entry     <tbl_type>,  <tbl_type>_remove_entry
 #define GENERIC_SLOT_<slot>__hashtable_set              <tbl_type>,  <tbl_type>_set
 #define GENERIC_SLOT_<slot>__hashtable_slot             <tbl_type>,  <tbl_type>_slot
-- 
2.43.0


From 24734b8109c946989a08feae84d5798b6f2338e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:17 +0000
Subject: [PATCH 93/96] fix: a FixedArena's size_remaining returned nothing,
 and its reference forms called themselves

The member lacked its return, allocator_info and size_remaining of a reference called overloads that take no pointer and did not
compile, and fixed_arena_size_remaining called a form that C-like builds don't have.
---
 base/dependencies/memory.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/dependencies/memory.hpp b/base/dependencies/memory.hpp
index eaad19d..e6841fe 100644
--- a/base/dependencies/memory.hpp
+++ b/base/dependencies/memory.hpp
@@ -321,8 +321,8 @@ template<s32 Size> ssize            fixed_arena_size_remaining(FixedArena<Size>*
 template<s32 Size> void             fixed_arena_free(FixedArena<Size>* fixed_arena);
 
 #if GEN_COMPILER_CPP && ! GEN_C_LIKE_CPP
-template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return allocator_info(& fixed_arena); }
-template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return size_remaining( & fixed_arena, alignment); }
+template<s32 Size> AllocatorInfo    allocator_info( FixedArena<Size>& fixed_arena )                { return fixed_arena_allocator_info(& fixed_arena); }
+template<s32 Size> ssize            size_remaining(FixedArena<Size>& fixed_arena, ssize alignment) { return fixed_arena_size_remaining( & fixed_arena, alignment); }
 #endif
 
 // Just a wrapper around using an arena with memory associated with its scope instead of from an allocator.
@@ -338,7 +338,7 @@ struct FixedArena
 	forceinline operator AllocatorInfo() { return fixed_arena_allocator_info(this); }
 
 	forceinline static FixedArena init()                          { FixedArena result; fixed_arena_init<Size>(result); return result; }
-	forceinline ssize             size_remaining(ssize alignment) { fixed_arena_size_remaining(this, alignment); }
+	forceinline ssize             size_remaining(ssize alignment) { return fixed_arena_size_remaining(this, alignment); }
 #pragma endregion Member Mapping
 #endif
 };
@@ -362,7 +362,7 @@ void fixed_arena_free(FixedArena<Size>* fixed_arena) {
 
 template<s32 Size> inline
 ssize fixed_arena_size_remaining(FixedArena<Size>* fixed_arena, ssize alignment) {
-    return size_remaining(fixed_arena->arena, alignment);
+    return arena_size_remaining(& fixed_arena->arena, alignment);
 }
 
 using FixedArena_1KB   = FixedArena< kilobytes( 1 ) >;
-- 
2.43.0


From ee739ac25559211205e4a5fa913e89942127de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:38 +0000
Subject: [PATCH 94/96] fix: the qualifier volatile of a template function's
 result was printed as the function's own

---
 base/components/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/components/parser.cpp b/base/components/parser.cpp
index a7af581..232e603 100644
--- a/base/components/parser.cpp
+++ b/base/components/parser.cpp
@@ -4842,8 +4842,8 @@ CodeTemplate parser_parse_template()
 						return InvalidCode;
 				}
 
-				// Ignore const it will be handled by the type
-				if ( spec == Spec_Const )
+				// Ignore the qualifiers, they're handled by the type
+				if ( spec == Spec_Const || spec == Spec_Volatile )
 					break;
 
 				if ( NumSpecifiers == count_of(specs_found) ) {
-- 
2.43.0


From c483651b1320273a5f8e7b976ee8403140775de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:38 +0000
Subject: [PATCH 95/96] fix: a member function's reference qualifier was
 printed in front of the function

---
 base/components/gen/especifier.hpp | 2 ++
 base/helpers/base_codegen.hpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/base/components/gen/especifier.hpp b/base/components/gen/especifier.hpp
index ae2da23..0d6e30e 100644
--- a/base/components/gen/especifier.hpp
+++ b/base/components/gen/especifier.hpp
@@ -83,6 +83,8 @@ inline bool spec_is_trailing(Specifier specifier)
 		case Spec_NoExceptions:
 		case Spec_Override:
 		case Spec_Pure:
+		case Spec_Ref:
+		case Spec_RValue:
 		case Spec_Delete:
 		case Spec_Volatile:
 			return true;
diff --git a/base/helpers/base_codegen.hpp b/base/helpers/base_codegen.hpp
index 93517c7..9bafa7a 100644
--- a/base/helpers/base_codegen.hpp
+++ b/base/helpers/base_codegen.hpp
@@ -220,6 +220,8 @@ CodeBody gen_especifier( char const* path, bool use_c_definition = false )
 				case Spec_NoExceptions:
 				case Spec_Override:
 				case Spec_Pure:
+				case Spec_Ref:
+				case Spec_RValue:
 				case Spec_Delete:
 				case Spec_Volatile:
 					return true;
-- 
2.43.0


From 5ffedc2dac59dbd1dc6ba3e318204c907e8bfdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:38 +0000
Subject: [PATCH 96/96] fix: parse_operator refused specifiers that operators
 have in a body (consteval, extern, global, internal)

---
 base/components/parser_case_macros.cpp              | 4 ++++
 gen_unreal_engine/components/parser_case_macros.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/base/components/parser_case_macros.cpp b/base/components/parser_case_macros.cpp
index b40bf3f..1d8ed46 100644
--- a/base/components/parser_case_macros.cpp
+++ b/base/components/parser_case_macros.cpp
@@ -69,7 +69,11 @@ case Spec_Volatile
 
 #define GEN_PARSER_OPERATOR_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
+case Spec_Consteval:   \
 case Spec_Constexpr:   \
+case Spec_External_Linkage: \
+case Spec_Global:      \
+case Spec_Internal_Linkage: \
 case Spec_ForceInline: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
diff --git a/gen_unreal_engine/components/parser_case_macros.cpp b/gen_unreal_engine/components/parser_case_macros.cpp
index 90b3ecd..8747fc9 100644
--- a/gen_unreal_engine/components/parser_case_macros.cpp
+++ b/gen_unreal_engine/components/parser_case_macros.cpp
@@ -74,7 +74,11 @@ case Spec_Volatile
 
 #define GEN_PARSER_OPERATOR_ALLOWED_SPECIFIER_CASES \
 case Spec_Const:       \
+case Spec_Consteval:   \
 case Spec_Constexpr:   \
+case Spec_External_Linkage: \
+case Spec_Global:      \
+case Spec_Internal_Linkage: \
 case Spec_ForceInline: \
 case Spec_Inline:      \
 case Spec_NeverInline: \
-- 
2.43.0

