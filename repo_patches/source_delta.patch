From 5109acd782de8fec5cb206b01ba6bbb8daa411af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 01/45] fix: remove(key) reports whether the key was present

It converted the old value, or the absent marker, to bool: always true, and
false for a present key whose value is 0.
---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..9ddb089 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -916,7 +916,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From 102682eab1fdd61404e9bf7fb76b5ee5df8f1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 02/45] fix: pcas reports the value that made it fail,
 persisted and without marker bits

A compare-and-swap that met the dirty flag of the value it expected, or of
another value, reported that value with the flag set. Callers compared it
with clean values: keys were inserted twice, successful updates reported as
failed, failed ones as applied, and migrated slots counted twice.
---
 include/persistence.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..d649134 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -94,13 +94,23 @@ static U pcas_read(std::atomic<U> *address)
 template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
-    U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    while (true)
+    {
+        // Ensure the field is persisted.
+        U current = pcas_read<U>(address);
+        // Report the (persisted, unmarked) value that prevents the swap.
+        if (current != oldVal)
+        {
+            oldVal = current;
+            return false;
+        }
+        // Attempt to CAS.
+        if (address->compare_exchange_strong(current, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+        // The field changed or was dirtied since we read it. Look again.
+    }
 }
 
 #endif
-- 
2.43.0


From 335464eea86682eafee9aaf4a69a0743b7a6b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 03/45] fix: keep the caller's update function when retrying in
 a newer table

putIfMatch fell back to a plain compare-and-swap there, so an increment that
met a table growth stored its placeholder argument instead of incrementing.
---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9ddb089..009c1b0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1161,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1222,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 665974670ff34439b3b35bb787182b75e35fdce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 04/45] fix: count a migrated slot when it is retired, not when
 its value is copied

A slot whose value another thread had already copied was reported by nobody
and the migration never completed; every helper then spun forever.
---
 containers/cliffMap/hashMap.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 009c1b0..a97649e 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,23 +209,16 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
                 // If other threads attempt this redundant computation, it will waste time but not hurt correctness.
                 // They will see the value has been migrated and fail to replace.
-                // Keep trying until we succeed.
-                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                while (actualVal != oldVal)
-                {
-                    oldVal = actualVal;
-                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // Only one thread can succeed here, and that thread reports the completed slot, no matter who copied the value.
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return CASvalue(oldTable, idx, oldVal, TOMBPRIME) == oldVal;
             }
 #endif
         public:
-- 
2.43.0


From c25abce3ea0f658466d8ecb409539a3f4f95e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 05/45] fix: start a table's used-slot counter at zero

It started at the capacity, so the load check never held a growth back and a
handful of colliding keys doubled the table again and again without end.
---
 containers/cliffMap/hashMap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index a97649e..cb5ca4b 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -226,7 +226,7 @@ public:
             // If this number gets too large, consider resizing.
             std::atomic<size_t> size;
 
-            // The number of usable slots.
+            // The number of used slots.
             // If this number gets too large, consider resizing.
             std::atomic<size_t> slots;
 
@@ -262,7 +262,7 @@ public:
             CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
             {
                 this->size.store(existingSize);
-                slots.store(tableCapacity);
+                slots.store(0);
                 this->id = id;
 #ifdef RESIZE
                 newTable.store(nullptr);
-- 
2.43.0


From 6d7e351a142d99ba3ac43b92cfea4e0983146692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 06/45] fix: do not wait for stalled helpers to report their
 migrated slots

A helper that has been through the whole table itself knows that every slot
is migrated; it spun until copyDone said so, which a suspended thread can
prevent forever.
---
 containers/cliffMap/hashMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index cb5ca4b..4131d55 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -449,6 +449,14 @@ public:
                     // Move on to the next chunk of work.
                     copyIdx += MIN_COPY_WORK;
 
+                    // If we panicked and have been through the whole table since, every slot is migrated,
+                    // even if a stalled thread has not reported its share. Don't wait for it.
+                    if (panicStart != -1 && copyIdx >= panicStart + oldLen)
+                    {
+                        hashMap->table.compare_exchange_strong(oldTable, newTable);
+                        return;
+                    }
+
                     // Stop working after just doing the bare minimum amount of work.
                     // NOTE: This can be commented out to instead keep taking on additional chunks of work until the whole resize process is complete.
                     // if (!copyAll && panicStart == -1)
-- 
2.43.0


From 15d3648ac48831f5e06072532b0908a89c1ef0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 07/45] fix: persist an update before reporting it

put, remove and the other updates returned with their value only in the
cache. A power loss right after lost completed updates, and a migrated value
could be retired from the old table before its copy was durable.
---
 containers/cliffMap/hashMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 4131d55..04bd095 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1195,6 +1195,8 @@ public:
             // If we succeeded.
             if (actualValue == V)
             {
+                // Make sure the update (and its key, in the same cache line) is persisted before we report it.
+                table->value(idx);
                 // Adjust the size counters for the table.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
-- 
2.43.0


From ccbb220856c907cbc194b0dde7804e6bba245f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 08/45] fix: unmap and delete the table a losing resizer
 created

munmapTable passed the address of the control structure and the number of
live entries to munmap, so the mapping leaked, and the orphaned file stayed.
---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 04bd095..76b6695 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -355,8 +355,9 @@ public:
                 else
                 {
                     // Failure means some other thread succeeded.
-                    // Free the allocated memory.
+                    // Free the allocated memory, and the file nobody will use.
                     munmapTable(newTable);
+                    std::remove(filename.c_str());
                     // And get the table that was placed.
                     newTable = this->newTable.load();
                     // The new table should never be NULL.
@@ -753,8 +754,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, sizeof(KVpair) * table->len) == 0);
             delete table;
             return ret;
         }
-- 
2.43.0


From 7c0eee8f748a3ca9b881ee1245843a283d144ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 09/45] fix: create table files completely or not at all

A crash while a table was created left a short or zero-filled file that
recovery took for a table full of entries with key 0; a failed step leaked
the descriptor, the mapping and the file; running out of space only showed
as SIGBUS when the mapping was written; and neither the size nor the name of
the file was made durable. Prepare it under a temporary name instead, sync,
rename, sync the directory, and undo every step on failure.
---
 containers/cliffMap/hashMap.hpp | 84 ++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 76b6695..1d10b97 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -546,10 +546,27 @@ public:
             pcas<Value>(&table->pairs[idx].value, oldValueRef, newValue);
             return oldValueRef;
         }
+        // The directory that holds the table files.
+        static const char *getTableDir()
+        {
+            return "/mnt/pmem/pm1/tables/";
+        }
+        // Make created, renamed and removed table files durable.
+        static bool syncTableDir()
+        {
+            int fd = open(getTableDir(), O_RDONLY | O_DIRECTORY);
+            if (fd == -1)
+            {
+                return false;
+            }
+            bool ret = (fsync(fd) == 0);
+            close(fd);
+            return ret;
+        }
         // TODO: Grab count and store in CHM.
         static std::string getOrderedFileName(size_t count)
         {
-            return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
+            return getTableDir() + std::to_string(count) + ".dat";
         }
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
@@ -661,6 +678,9 @@ public:
                     throw std::logic_error("mmap existing file failed.");
                 }
 
+                // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
+                close(fd);
+
                 // Allocate our table.
                 // We pass in the asigned location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
@@ -703,31 +723,40 @@ public:
             // If the file doesn't exist yet, try to make it.
             else
             {
+                // Prepare the file under a temporary name.
+                // It must not be found by recovery before it is completely initialized and durable.
+                std::string tempName = std::string(fileName) + ".tmp";
+                size_t length = sizeof(KVpair) * tableCapacity;
+                KVpair *pairs = (KVpair *)MAP_FAILED;
+                // Give everything back if any step fails.
+                auto fail = [&](const char *message)
+                {
+                    int error = errno;
+                    if (pairs != MAP_FAILED)
+                        munmap(pairs, length);
+                    if (fd != -1)
+                        close(fd);
+                    std::remove(tempName.c_str());
+                    std::remove(fileName);
+                    throw std::runtime_error(std::string(message) + " errno = " + std::to_string(error) + ", " + strerror(error));
+                };
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                fd = open(tempName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
-                    // Error.
-                    std::cerr << "Failed to create or open the file." << std::endl;
-                    throw std::runtime_error("cannot create or open file");
+                    fail("Failed to create or open the file.");
                 }
                 // Allocate enough space for the KV pairs.
-                size_t length = sizeof(KVpair) * tableCapacity;
-                // Truncate will actually extend the size of the file by filling with NULL.
-                if (ftruncate(fd, length) == -1)
+                // Reserve it now: running out of space when the mapping is written could not be reported.
+                if ((errno = posix_fallocate(fd, 0, length)) != 0)
                 {
-                    // Error.
-                    std::cerr << "Failed to adjust file size." << std::endl;
-                    throw std::runtime_error("cannot create or open file");
+                    fail("Failed to adjust file size.");
                 }
                 // Allocate our file.
-                KVpair *pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-                if ((intptr_t)pairs == -1)
+                pairs = (KVpair *)mmap(NULL, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+                if (pairs == MAP_FAILED)
                 {
-                    // Error.
-                    std::cerr << "Failed to mmap a new file. errno = "
-                              << errno << ", " << strerror(errno) << std::endl;
-                    throw std::logic_error("mmap new file failed.");
+                    fail("Failed to mmap a new file.");
                 }
                 // Ensure the allocation is actually to persistent memory.
                 //assert(pmem_is_pmem(pairs, length));
@@ -741,14 +770,27 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                // Make the file and its name durable.
+                if (fsync(fd) != 0)
+                {
+                    fail("Failed to make the new file durable.");
+                }
+                // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
+                close(fd);
+                fd = -1;
+                if (rename(tempName.c_str(), fileName) != 0 || !syncTableDir())
+                {
+                    fail("Failed to make the new file durable.");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-                table = new Table(tableCapacity, existingSize, count, pairs);
+                table = new (std::nothrow) Table(tableCapacity, existingSize, count, pairs);
+                if (table == NULL)
+                {
+                    fail("Failed to allocate a table.");
+                }
             }
-            // After the mmap() call has returned, the file descriptor, fd, can be closed immediately, without invalidating the mapping.
-            close(fd);
-
             // Return the mapped table.
             return table;
         }
-- 
2.43.0


From f7eca585ff70128743abf3b3a77998e77885a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 10/45] fix: read the table number from file names without a
 directory

numFromName searched for a '/' in front of the string, did not terminate its
copy, leaked it, and did not check its allocation.
---
 containers/cliffMap/hashMap.hpp | 41 ++++-----------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 1d10b97..9ab9515 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -32,6 +32,7 @@
 #include <cassert>
 #include <chrono>
 #include <cstddef>
+#include <cstring>
 #include <filesystem>
 #include <iostream>
 #include <utility>
@@ -571,43 +572,9 @@ public:
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
         {
-            // Get the length of the string.
-            size_t len = 0;
-            while (source[len] != '\0')
-            {
-                len++;
-            }
-            // Work our way to the last ".", which comes just after the num.
-            size_t end;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '.')
-                {
-                    end = i;
-                    break;
-                }
-            }
-            // Work our way to the last "/", which comes just before the num.
-            size_t start;
-            for (size_t i = len - 1; i >= 0; i--)
-            {
-                if (source[i] == '/')
-                {
-                    start = i;
-                    break;
-                }
-            }
-            // Copy the characters over to an appropriately sized space, say 30.
-            char *dest = (char *)malloc(sizeof(char *) * 30);
-            size_t idx = 0;
-            for (size_t i = start + 1; i < end; i++)
-            {
-                dest[idx] = source[i];
-                idx++;
-            }
-            dest[idx] = '\n';
-            // Convert the string to an integer.
-            size_t ret = atoi(dest);
+            // The number starts after the last "/", if any, and ends at the ".".
+            const char *slash = strrchr(source, '/');
+            size_t ret = strtoull(slash == NULL ? source : slash + 1, NULL, 10);
             // Return the integer.
             return ret;
         }
-- 
2.43.0


From 06233029820dcf6b5bcae1cb8b7a8e60853d63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 11/45] fix: map the existing file when a table is recovered

mmapTable tested newTable the wrong way round: recovery re-created every
table file empty, and a growth could map an old file as its new table. Errors
are reported instead of continuing with garbage. A key whose value never
became durable is left without a value: turning it into a tombstone hid the
value that was still to be migrated from an older table.
---
 containers/cliffMap/hashMap.hpp | 47 ++++++++++-----------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9ab9515..3e22368 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -605,30 +605,24 @@ public:
                 count = Table::numFromName(fileName);
             }
 
-            // If we want to map a new file.
-            if (newTable)
+            // If we want to map an existing file, just map the data.
+            if (!newTable)
             {
-                // Try to open an existing hash table.
+                // Open the existing hash table.
                 fd = open(fileName, O_RDWR);
-            }
-            // If we want to map an existing file.
-            else
-            {
-                // We will open the existing file.
-                // Report table doesn't exist.
-                fd = -1;
-            }
-
-            // If we opened an existing file, just map the data.
-            if (fd != -1)
-            {
+                if (fd == -1)
+                {
+                    // Error.
+                    throw std::runtime_error("Failed to open the existing file.");
+                }
                 // Used to store file information.
                 struct stat finfo;
                 // Get existing file size.
                 if (fstat(fd, &finfo) == -1)
                 {
                     // Error.
-                    fprintf(stderr, "Failed to read the existing file's size.\n");
+                    close(fd);
+                    throw std::runtime_error("Failed to read the existing file's size.");
                 }
                 size_t length = finfo.st_size;
                 // length should always be some multiple of our KVpair size.
@@ -642,6 +636,7 @@ public:
                     // Error.
                     std::cerr << "Failed to mmap the existing file. errno = "
                               << errno << ", " << strerror(errno) << std::endl;
+                    close(fd);
                     throw std::logic_error("mmap existing file failed.");
                 }
 
@@ -653,35 +648,21 @@ public:
                 // We pass in the size of the table to assign the length.
                 table = new Table(size, existingSize, count, pairs);
 
-                // Use the KV pairs to infer the number of used and free entries in the table.
+                // Use the KV pairs to infer the number of live entries and used slots in the table.
                 table->chm.size.store(0);
                 table->chm.slots.store(0);
                 for (size_t i = 0; i < size; i++)
                 {
-
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
-
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
                     {
                         table->chm.size.fetch_add(1);
                     }
-                    // Anything left that's not a tombstone.
-                    else if (V != VTOMBSTONE && V != TOMBPRIME)
+                    // Any slot that has been claimed.
+                    if (K != KINITIAL)
                     {
                         table->chm.slots.fetch_add(1);
                     }
-- 
2.43.0


From efe0b44a19ae45f4d3948b57a14346220e527f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 12/45] fix: recover the tables that exist, in the order they
 were created

Recovery opened the files by name only (relative to the working directory),
sorted 10 before 2, unmapped and deleted the same table twice, then used it,
indexed an empty vector when nothing was left, reused the number of the last
table, left a migration without a table to go on with, and threw away
tombstones that supersede values still present in an older table.
---
 containers/cliffMap/hashMap.hpp | 86 ++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 3e22368..f81e9d4 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -756,81 +756,84 @@ public:
         // Recovery.
         if (reconstruct)
         {
-            std::vector<std::string> tableNames;
+            std::vector<std::pair<size_t, std::string>> tableNames;
             std::vector<Table *> tables;
-            std::string lastTableName;
 
             // Get the table names.
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
                 if (p.is_regular_file())
                 {
-                    tableNames.push_back(filenameStr);
+                    const std::string filenameStr = p.path().string();
+                    if (p.path().extension() == ".dat")
+                    {
+                        tableNames.emplace_back(Table::numFromName(filenameStr.c_str()), filenameStr);
+                    }
+                    // The creation of this table was interrupted.
+                    else if (p.path().extension() == ".tmp")
+                    {
+                        std::remove(filenameStr.c_str());
+                    }
                 }
             }
 
-            // Sort the tables by name.
-            std::sort(tableNames.begin(), tableNames.end(),
-                      [](std::string a, std::string b)
-                      {
-                          return a.compare(b) < 0;
-                      });
+            // Sort the tables by number, which is the order they were created in.
+            std::sort(tableNames.begin(), tableNames.end());
 
+            // Whether or not the last table we keep has started to migrate.
+            bool migrating = false;
             // For each table.
             // Map the table.
             // Check if the table is empty or migrated.
             for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
             {
                 // Allocate an mmapped table.
-                Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
+                Table *table = Table::mmapTable(false, size, 0, it->second.c_str());
+                // Ensure we use unique file names.
+                fileNameCounter.store(it->first + 1);
 
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
-
-                // If the table is fully migrated, deallocate it and continue.
+                // Check for values, and for values yet to be migrated.
+                bool used = false;
                 bool migrationDone = true;
-                // Check for non-migrated values.
+                bool marked = false;
                 for (size_t i = 0; i < table->len; i++)
                 {
-                    ValT val = table->value(i);
-                    // If the value is a tombstone, initial value, or migrated.
-                    if (val == VTOMBSTONE ||
-                        val == VINITIAL ||
-                        val == TOMBPRIME)
+                    Value val = table->value(i);
+                    if (val != VINITIAL)
                     {
-                        // Then migration for this value is complete.
-                        continue;
+                        used = true;
                     }
-                    // Migration did not complete.
                     // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
-                    else
+                    if (val != VINITIAL && val != VTOMBSTONE && val != TOMBPRIME)
                     {
                         migrationDone = false;
-                        break;
+                    }
+                    if (isMarked((uintptr_t)val, MigrationFlag))
+                    {
+                        marked = true;
                     }
                 }
-                // If this table was fully migrated.
-                if (migrationDone)
+                // If this table never held anything, or nothing is left in it.
+                // While there is an older table, tombstones must stay: they supersede the values in it.
+                if (!used || (migrationDone && tables.empty()))
                 {
                     // Deallocate it.
                     Table::munmapTable(table);
                     // Delete the underlying file.
-                    if (std::remove((*it).c_str()) != 0)
+                    if (std::remove(it->second.c_str()) != 0)
                     {
-                        fprintf(stderr, "Error deleting file \"%s\". Error %d\n", (*it).c_str(), errno);
+                        fprintf(stderr, "Error deleting file \"%s\". Error %d\n", it->second.c_str(), errno);
                     }
+                    continue;
                 }
-                else
-                {
-                    // Migration is incomplete. Add it to our list.
-                    tables.push_back(table);
-                }
-                lastTableName = *it;
+                tables.push_back(table);
+                migrating = marked;
+            }
+            // We need a table to start with, and one to complete the last migration.
+            if (tables.empty() || migrating)
+            {
+                tables.push_back(Table::mmapTable(true, tables.empty() ? size : tables.back()->len << 1));
             }
             // Now that tables are filtered out, perform migrations (or just link tables together).
             Table *oldTable = NULL;
@@ -850,15 +853,12 @@ public:
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
-
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
         }
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
             // Allocate a new, mmapped table.
-            Table *table = Table::mmapTable(!reconstruct, size, 0);
+            Table *table = Table::mmapTable(true, size, 0);
             // Store the table.
             this->table.store(table);
         }
-- 
2.43.0


From f0134ad4cb6655286cb951f0776751f64953c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 13/45] fix: persist a migration mark before placing anything
 in the new table

---
 containers/cliffMap/hashMap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index f81e9d4..8d1ebe6 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -170,6 +170,9 @@ public:
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
+                        // Make sure the mark is persisted before anything is placed in the new table.
+                        // Otherwise recovery could find this slot unmarked and miss what replaced it.
+                        oldTable->value(idx);
                         // If we replaced an empty spot.
                         if (mark == TOMBPRIME)
                         {
-- 
2.43.0


From 4bfaaa1757682d11cf87186097dff94b4b532c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 14/45] fix: a late copy does not follow its key past the table
 it was copied to

---
 containers/cliffMap/hashMap.hpp | 36 ++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 8d1ebe6..0b869fd 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -79,6 +79,8 @@ class ConcurrentHashMap
     static Key KTOMBSTONE;
     // Primed tombstone. Marked to prevent any updates to the location, used for resizing.
     static Value TOMBPRIME;
+    // Primed initial value. Like TOMBPRIME, but for a location which never held a value.
+    static Value INITPRIME;
 
     // Heuristics for resizing.
     // Consider a reprobes heuristic, or some alternative, to indicate when to resize and gather statistics on key distribution.
@@ -163,8 +165,8 @@ public:
                 // Keep trying to mark the value until we succeed.
                 while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                 {
-                    // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
-                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
+                    // Mark it. If there isn't a usable value to migrate, this makes it a tombprime or an initprime.
+                    Value mark = (Value)setMark((uintptr_t)oldVal, MigrationFlag);
                     // Attempt the CAS.
                     Value actualVal = CASvalue(oldTable, idx, oldVal, mark);
                     // If we succeeded.
@@ -174,7 +176,7 @@ public:
                         // Otherwise recovery could find this slot unmarked and miss what replaced it.
                         oldTable->value(idx);
                         // If we replaced an empty spot.
-                        if (mark == TOMBPRIME)
+                        if (mark == TOMBPRIME || mark == INITPRIME)
                         {
                             // We are already done.
                             return true;
@@ -192,8 +194,8 @@ public:
                 }
                 // We have successfully marked the value.
 
-                // If we marked with a tombstone.
-                if (oldVal == TOMBPRIME)
+                // If there is nothing to copy (anymore).
+                if (oldVal == TOMBPRIME || oldVal == INITPRIME)
                 {
                     // No need to migrate a value. We are done.
                     return false;
@@ -660,7 +662,7 @@ public:
                     Key K = table->key(i);
 
                     // Anything that's not a sentinel.
-                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
+                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != INITPRIME)
                     {
                         table->chm.size.fetch_add(1);
                     }
@@ -808,7 +810,7 @@ public:
                         used = true;
                     }
                     // NOTE: If a migration was in progress (MigrationFlag is set for a valid value), then we consider migration incomplete as well.
-                    if (val != VINITIAL && val != VTOMBSTONE && val != TOMBPRIME)
+                    if (val != VINITIAL && val != VTOMBSTONE && val != TOMBPRIME && val != INITPRIME)
                     {
                         migrationDone = false;
                     }
@@ -1138,6 +1140,12 @@ public:
         }
 
 #ifdef RESIZE
+        // If we are copying, and this key's value already reached this table and is on its way to a newer one.
+        if (oldVal == VINITIAL && isMarked((uintptr_t)V, MigrationFlag) && V != INITPRIME)
+        {
+            // Our copy is superseded, and must not follow: the key may have been removed since.
+            return V;
+        }
         // Consider allocating a newer table for placement.
         // If a new table hasn't already been allocated.
         if (newTable == nullptr &&
@@ -1216,8 +1224,13 @@ public:
             }
 #ifdef RESIZE
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
-            if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
+            if (isMarked((uintptr_t)V, MigrationFlag))
             {
+                // If we are copying, and another copy came first, do not follow it.
+                if (oldVal == VINITIAL && V != INITPRIME)
+                {
+                    return V;
+                }
                 return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
@@ -1254,6 +1267,9 @@ public:
         case TOMBPRIME:
             stream << "TOMBPRIME";
             break;
+        case INITPRIME:
+            stream << "INITPRIME";
+            break;
         case MATCH_ANY:
             stream << "MATCH_ANY";
             break;
@@ -1312,7 +1328,7 @@ public:
     // If it is reserved, then it serves a special purpose as a sentinel.
     static bool isValueReserved(Value value)
     {
-        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
+        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == INITPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
     }
 
 private:
@@ -1349,6 +1365,8 @@ Value ConcurrentHashMap<Key, Value, Hash>::VTOMBSTONE = ((((size_t)1 << 62) - 2)
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);
 template <typename Key, typename Value, class Hash>
+Value ConcurrentHashMap<Key, Value, Hash>::INITPRIME = (size_t)setMark(VINITIAL, MigrationFlag);
+template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::MATCH_ANY = ((((size_t)1 << 62) - 3) << BITS_MARKED);
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::NO_MATCH_OLD = ((((size_t)1 << 62) - 4) << BITS_MARKED);
-- 
2.43.0


From 1a7327d0ceacabfba42d37bd7bc579bd135beba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 15/45] fix: count live entries per map, not per table

---
 containers/cliffMap/hashMap.hpp | 57 ++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 0b869fd..0ed5f51 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -35,6 +35,7 @@
 #include <cstring>
 #include <filesystem>
 #include <iostream>
+#include <unordered_set>
 #include <utility>
 
 // Fast hashing library.
@@ -228,10 +229,6 @@ public:
             }
 #endif
         public:
-            // The number of active KV pairs.
-            // If this number gets too large, consider resizing.
-            std::atomic<size_t> size;
-
             // The number of used slots.
             // If this number gets too large, consider resizing.
             std::atomic<size_t> slots;
@@ -265,9 +262,8 @@ public:
 #endif
             // The CHM constructor.
             // The CHM tracks control structure data for the hash table, particularly involving resizing.
-            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t existingSize = 0, size_t id = 0)
+            CHM(size_t tableCapacity = Table::MIN_SIZE, size_t id = 0)
             {
-                this->size.store(existingSize);
                 slots.store(0);
                 this->id = id;
 #ifdef RESIZE
@@ -306,8 +302,8 @@ public:
                 // Compute the new table size.
                 // Total capacity of the current table.
                 size_t oldLen = table->len;
-                // Current number of KV pairs stored in the table.
-                size_t size = this->size.load();
+                // Current number of KV pairs stored in the map.
+                size_t size = hashMap->size();
                 // An initial size estimate.
                 size_t newSize = size;
 
@@ -350,7 +346,7 @@ public:
                 size_t count = fileNameCounter.fetch_add(1);
                 // Allocate the new table.
                 std::string filename = getOrderedFileName(count);
-                newTable = mmapTable(true, newSize, size, filename.c_str());
+                newTable = mmapTable(true, newSize, filename.c_str());
 
                 // Attempt to CAS the new table.
                 // Only one thread can succeed here.
@@ -490,11 +486,11 @@ public:
         // The number of pairs that can fit in the table.
         size_t len;
 
-        Table(size_t tableCapacity, size_t existingSize, size_t id, KVpair *pairs = NULL)
+        Table(size_t tableCapacity, size_t id, KVpair *pairs = NULL)
         {
             assert(tableCapacity % 2 == 0);
             assert(tableCapacity >= MIN_SIZE);
-            new (&chm) CHM(tableCapacity, existingSize, id);
+            new (&chm) CHM(tableCapacity, id);
             assert(pairs != NULL);
             this->pairs = pairs;
             len = tableCapacity;
@@ -583,7 +579,7 @@ public:
             // Return the integer.
             return ret;
         }
-        static Table *mmapTable(bool newTable, size_t tableCapacity, size_t existingSize = 0, const char *constFileName = NULL)
+        static Table *mmapTable(bool newTable, size_t tableCapacity, const char *constFileName = NULL)
         {
             // This is the name and location of our persistent memory file for this table.
             std::string filenameString;
@@ -651,21 +647,14 @@ public:
                 // Allocate our table.
                 // We pass in the asigned location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-                table = new Table(size, existingSize, count, pairs);
+                table = new Table(size, count, pairs);
 
-                // Use the KV pairs to infer the number of live entries and used slots in the table.
-                table->chm.size.store(0);
+                // Use the KV pairs to infer the number of used slots in the table.
                 table->chm.slots.store(0);
                 for (size_t i = 0; i < size; i++)
                 {
-                    Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // Anything that's not a sentinel.
-                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != INITPRIME)
-                    {
-                        table->chm.size.fetch_add(1);
-                    }
                     // Any slot that has been claimed.
                     if (K != KINITIAL)
                     {
@@ -738,7 +727,7 @@ public:
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-                table = new (std::nothrow) Table(tableCapacity, existingSize, count, pairs);
+                table = new (std::nothrow) Table(tableCapacity, count, pairs);
                 if (table == NULL)
                 {
                     fail("Failed to allocate a table.");
@@ -788,13 +777,15 @@ public:
 
             // Whether or not the last table we keep has started to migrate.
             bool migrating = false;
+            // The keys with a live value. The newest table which holds anything for a key decides.
+            std::unordered_set<Key, Hash> liveKeys;
             // For each table.
             // Map the table.
             // Check if the table is empty or migrated.
             for (auto it = tableNames.begin(); it != tableNames.end(); ++it)
             {
                 // Allocate an mmapped table.
-                Table *table = Table::mmapTable(false, size, 0, it->second.c_str());
+                Table *table = Table::mmapTable(false, size, it->second.c_str());
                 // Ensure we use unique file names.
                 fileNameCounter.store(it->first + 1);
 
@@ -813,6 +804,11 @@ public:
                     if (val != VINITIAL && val != VTOMBSTONE && val != TOMBPRIME && val != INITPRIME)
                     {
                         migrationDone = false;
+                        liveKeys.insert(table->key(i));
+                    }
+                    else if (val == VTOMBSTONE || val == TOMBPRIME)
+                    {
+                        liveKeys.erase(table->key(i));
                     }
                     if (isMarked((uintptr_t)val, MigrationFlag))
                     {
@@ -855,6 +851,7 @@ public:
                     assert(CASSucceed);
                 }
             }
+            liveCount.store(liveKeys.size());
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
@@ -863,7 +860,7 @@ public:
         {
             // Alternative approach: just make a table, bypassing recovery.
             // Allocate a new, mmapped table.
-            Table *table = Table::mmapTable(true, size, 0);
+            Table *table = Table::mmapTable(true, size);
             // Store the table.
             this->table.store(table);
         }
@@ -891,8 +888,7 @@ public:
     // This number is really only meaningful if the size is not being changed by other threads.
     size_t size()
     {
-        Table *table = this->table.load();
-        return table->chm.size.load();
+        return liveCount.load();
     }
     bool isEmpty()
     {
@@ -1198,19 +1194,19 @@ public:
             {
                 // Make sure the update (and its key, in the same cache line) is persisted before we report it.
                 table->value(idx);
-                // Adjust the size counters for the table.
+                // Adjust the size of the map.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
                 {
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(1);
+                        liveCount.fetch_add(1);
                     }
                     // If we removed a non-initial and non-tombstone value with a tombstone.
                     else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(-1);
+                        liveCount.fetch_add(-1);
                     }
                 }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
@@ -1334,6 +1330,9 @@ public:
 private:
     // The structure that stores the top table.
     std::atomic<Table *> table;
+    // The number of active KV pairs.
+    // Updates may go to any table during a resize, so the map counts them, not the tables.
+    std::atomic<size_t> liveCount{0};
 };
 
 // size_t keys and values.
-- 
2.43.0


From 94f77d2f1d958ce085ec539173d2db7e62d8f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 16/45] fix: a map created without recovery removes the tables
 of earlier instances

---
 containers/cliffMap/hashMap.hpp | 56 +++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 0ed5f51..060573e 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -28,6 +28,7 @@
 #ifndef HASH_MAP_HPP
 #define HASH_MAP_HPP
 
+#include <algorithm>
 #include <atomic>
 #include <cassert>
 #include <chrono>
@@ -579,6 +580,29 @@ public:
             // Return the integer.
             return ret;
         }
+        // Find the table files in a directory, in the order they were created in.
+        // Remove any files whose creation was interrupted.
+        static std::vector<std::pair<size_t, std::string>> findTables(const char *fileDir)
+        {
+            std::vector<std::pair<size_t, std::string>> tableNames;
+            for (auto &p : std::filesystem::directory_iterator(fileDir))
+            {
+                if (p.is_regular_file())
+                {
+                    const std::string filenameStr = p.path().string();
+                    if (p.path().extension() == ".dat")
+                    {
+                        tableNames.emplace_back(numFromName(filenameStr.c_str()), filenameStr);
+                    }
+                    else if (p.path().extension() == ".tmp")
+                    {
+                        std::remove(filenameStr.c_str());
+                    }
+                }
+            }
+            std::sort(tableNames.begin(), tableNames.end());
+            return tableNames;
+        }
         static Table *mmapTable(bool newTable, size_t tableCapacity, const char *constFileName = NULL)
         {
             // This is the name and location of our persistent memory file for this table.
@@ -750,31 +774,9 @@ public:
         // Recovery.
         if (reconstruct)
         {
-            std::vector<std::pair<size_t, std::string>> tableNames;
+            std::vector<std::pair<size_t, std::string>> tableNames = Table::findTables(fileDir);
             std::vector<Table *> tables;
 
-            // Get the table names.
-            std::filesystem::path path = fileDir;
-            for (auto &p : std::filesystem::directory_iterator(path))
-            {
-                if (p.is_regular_file())
-                {
-                    const std::string filenameStr = p.path().string();
-                    if (p.path().extension() == ".dat")
-                    {
-                        tableNames.emplace_back(Table::numFromName(filenameStr.c_str()), filenameStr);
-                    }
-                    // The creation of this table was interrupted.
-                    else if (p.path().extension() == ".tmp")
-                    {
-                        std::remove(filenameStr.c_str());
-                    }
-                }
-            }
-
-            // Sort the tables by number, which is the order they were created in.
-            std::sort(tableNames.begin(), tableNames.end());
-
             // Whether or not the last table we keep has started to migrate.
             bool migrating = false;
             // The keys with a live value. The newest table which holds anything for a key decides.
@@ -859,6 +861,14 @@ public:
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
+            // Tables left behind by an earlier instance must not be mistaken for ours by a later recovery.
+            for (auto &tableName : Table::findTables(fileDir))
+            {
+                if (std::remove(tableName.second.c_str()) != 0)
+                {
+                    throw std::runtime_error("Failed to delete the table \"" + tableName.second + "\".");
+                }
+            }
             // Allocate a new, mmapped table.
             Table *table = Table::mmapTable(true, size);
             // Store the table.
-- 
2.43.0


From 976479b4efa58581ce4e3d4d88ddf4e242ded3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 17/45] fix: the ucf container recovers from the directory of
 its tables

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..293aa95 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -48,7 +48,8 @@ namespace ucf
         container_type(const TestOptions &opt, bool reconstruct = false)
         {
             const size_t realcapacity = 1 << opt.capacity;
-            const char *path = opt.filename.c_str();
+            // The tables are not kept in opt.filename, but in a directory of their own.
+            const char *path = ConcurrentHashMap<KeyT, ValT>::Table::getTableDir();
             c = new ConcurrentHashMap<KeyT, ValT>(path, realcapacity, reconstruct);
             if (c == nullptr)
                 throw std::runtime_error("could not allocate");
-- 
2.43.0


From abe8520e4bf32048c215bf01e27d4e80a5b4d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 18/45] fix: the ucf container reports insert, get and
 increment results like the others

---
 containers/ucfMap.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 293aa95..71f322d 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // Like the other containers, report whether the key was inserted (rather than already present).
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
@@ -32,7 +33,9 @@ namespace ucf
 
         ValT get(KeyT el)
         {
-            return c->get(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED;
+            ValT x = c->get(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED);
+            // Like the other containers, report 0 if there is no value.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x) ? 0 : x >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED;
         }
 
         size_t count()
@@ -42,7 +45,9 @@ namespace ucf
 
         ValT increment(KeyT el)
         {
-            return c->update(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED, ((((size_t)1 << 61) - 3) << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED), ConcurrentHashMap<KeyT, ValT>::Table::increment);
+            ValT x = c->update(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED, ((((size_t)1 << 61) - 3) << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED), ConcurrentHashMap<KeyT, ValT>::Table::increment);
+            // The map reports the value we incremented. Like the other containers, report the new one.
+            return (ConcurrentHashMap<KeyT, ValT>::isValueReserved(x) ? 0 : x >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) + 1;
         }
 
         container_type(const TestOptions &opt, bool reconstruct = false)
-- 
2.43.0


From 77677d4f33ea0056d25c810b244c7be7385be2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 19/45] fix: the stl container's get and count take its lock

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From 37fe5fedc256b6fc25d516966a69311c0bc9d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 20/45] fix: pcas persists the value it placed instead of
 relying on the dirty flag

---
 containers/cliffMap/hashMap.hpp | 5 -----
 include/persistence.hpp         | 3 +++
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 060573e..44b4baf 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -174,9 +174,6 @@ public:
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
-                        // Make sure the mark is persisted before anything is placed in the new table.
-                        // Otherwise recovery could find this slot unmarked and miss what replaced it.
-                        oldTable->value(idx);
                         // If we replaced an empty spot.
                         if (mark == TOMBPRIME || mark == INITPRIME)
                         {
@@ -1202,8 +1199,6 @@ public:
             // If we succeeded.
             if (actualValue == V)
             {
-                // Make sure the update (and its key, in the same cache line) is persisted before we report it.
-                table->value(idx);
                 // Adjust the size of the map.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
diff --git a/include/persistence.hpp b/include/persistence.hpp
index d649134..4ab4f93 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -107,6 +107,9 @@ static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
         // Attempt to CAS.
         if (address->compare_exchange_strong(current, (U)((uintptr_t)newVal | DirtyFlag)))
         {
+            // Persist our value ourselves. The dirty flag alone does not guarantee that someone will:
+            // a stalled thread, which persisted an earlier occurrence of the same value, may clear it.
+            persist(address, (U)((uintptr_t)newVal | DirtyFlag));
             return true;
         }
         // The field changed or was dirtied since we read it. Look again.
-- 
2.43.0


From f0f52b2f3bfedb7a2a0973eabc82ed6d3d2f4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 21/45] fix: retry splitting a bucket when the thread that was
 splitting it failed

A thread that waits for a bucket being rehashed used it afterwards without
looking whether the rehash had succeeded. When the transaction failed (no
space in the pool) it then worked on the empty, unsplit bucket: present keys
were missed, and a key inserted there made later calls treat the bucket as
rehashed, losing the elements still held by its parent.
---
 .../container/concurrent_hash_map.hpp         | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index de1c7c8..2a869a1 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -1776,18 +1776,32 @@ protected:
 		{
 			my_b = base->get_bucket(h);
 
-			if (my_b->is_rehashed(std::memory_order_acquire) ==
-				    false &&
-			    bucket_lock_type::try_acquire(this->my_b->mutex,
-							  /*write=*/true)) {
+			while (true) {
 				if (my_b->is_rehashed(
-					    std::memory_order_relaxed) ==
-				    false) {
-					/* recursive rehashing */
-					base->rehash_bucket<false>(my_b, h);
+					    std::memory_order_acquire) ==
+					    false &&
+				    bucket_lock_type::try_acquire(
+					    this->my_b->mutex,
+					    /*write=*/true)) {
+					if (my_b->is_rehashed(
+						    std::memory_order_relaxed) ==
+					    false) {
+						/* recursive rehashing */
+						base->rehash_bucket<false>(
+							my_b, h);
+					}
+					break;
 				}
-			} else {
+
 				bucket_lock_type::acquire(my_b->mutex, writer);
+
+				if (my_b->is_rehashed(
+					    std::memory_order_relaxed))
+					break;
+
+				/* The thread that was rehashing this bucket
+				 * failed to, so it has to be tried again */
+				bucket_lock_type::release();
 			}
 
 			assert(my_b->is_rehashed(std::memory_order_relaxed));
-- 
2.43.0


From af0b773fe7dea9e993e716e881050077d2dc1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 22/45] fix: give every clevel thread a buffer of its own

The adapter sized the per-thread buffers for one thread, while inserting
threads index them by their number and the background resizer uses buffer
0: entries were written out of bounds and shared with the resizer.
---
 containers/levelMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..7a8330f 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -45,7 +45,7 @@ namespace clevel
             assert(map != nullptr);
 
             // NOTE: id appears unused. Just pass in the key.
-            auto r = map->insert(value_type(val, val), localThreadNum, static_cast<size_t>(val));
+            auto r = map->insert(value_type(val, val), localThreadNum + 1, static_cast<size_t>(val));
             return (!r.found);
         }
 
@@ -111,7 +111,8 @@ namespace clevel
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
-                proot->cons->set_thread_num(1);
+                // Buffer 0 belongs to the background resizer, the others to the threads.
+                proot->cons->set_thread_num(opt.numthreads + 1);
 
                 pmem::obj::transaction::commit();
             }
-- 
2.43.0


From 1a665dafdaf618efb50389bdd97028de57d61e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 23/45] fix: clevel redoes an insertion whose level was left
 behind by an expansion

The check after the CAS only looked at the resizing flag for the bottom
level. When a whole expansion passed in between, or another one had begun,
the item stayed in a level already rehashed and was lost.
---
 .../libpmemobj++/experimental/clevel_hash.hpp | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..f96b567 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -493,6 +493,32 @@ public:
 		tmp_entry = make_persistent<persistent_ptr<value_type>[]>(thread_num);
 	}
 
+	/**
+	 * Whether the level_num-th level (from the bottom) of the given context
+	 * is still part of the table and not the one being rehashed, so that an
+	 * item just put into it will be found.
+	 */
+	bool
+	is_kept(level_meta *m, uint64_t level_num) const
+	{
+		level_ptr_t level = m->last_level;
+		for (uint64_t i = 0; i < level_num; i++)
+			level = level.get_address(my_pool_uuid)->up;
+
+		level_meta_ptr_t m_now(meta);
+		level_meta *now = static_cast<level_meta *>(m_now(my_pool_uuid));
+		level_ptr_t li = now->last_level;
+		if (level == li)
+			return !now->is_resizing;
+		while (li != now->first_level)
+		{
+			li = li.get_address(my_pool_uuid)->up;
+			if (level == li)
+				return true;
+		}
+		return false;
+	}
+
 	// Only for debug use!
 	KV_entry_ptr_t&
 	get_entry(level_ptr_t level, difference_type idx, uint64_t slot_idx);
@@ -1061,8 +1087,7 @@ RETRY_INSERT:
 		{
 			if (CAS(&(e->off), old_e.raw(), created.p.raw()))
 			{
-				if (!m->is_resizing && meta(my_pool_uuid)->is_resizing &&
-					level_num == 0)
+				if (m_copy != meta && !is_kept(m, level_num))
 				{
 					// Resizing may occur during the insert. Hence, redo the
 					// insertion to avoid missing the new item. The possible
-- 
2.43.0


From 607f2b92caf5c2ef471fdfd9b35288a34eb6dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 24/45] fix: clevel search reads a slot once

The slot was checked and then read again to follow it; when an erase or the
rehash emptied it in between, the search followed a null pointer.
---
 include/libpmemobj++/experimental/clevel_hash.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index f96b567..09bdbf9 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -596,11 +596,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &f_b = cl->buckets[f_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (f_b.slots[j].x.partial == partial
-					&& f_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
+				if (tmp.x.partial == partial && tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						f_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, f_idx, j);
 					}
@@ -610,11 +610,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &s_b = cl->buckets[s_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (s_b.slots[j].x.partial == partial
-					&& s_b.slots[j].p.get_offset() != 0)
+				KV_entry_ptr_u tmp(s_b.slots[j].p.off);
+				if (tmp.x.partial == partial && tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						s_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, s_idx, j);
 					}
-- 
2.43.0


From a1738b0f290dc6d44c97648a5fca31d7367e05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 25/45] fix: the pmem container closes its pool

---
 containers/pmemMap.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/containers/pmemMap.hpp b/containers/pmemMap.hpp
index 9ad7bc2..b3ecc0d 100644
--- a/containers/pmemMap.hpp
+++ b/containers/pmemMap.hpp
@@ -138,6 +138,13 @@ namespace pm
             return;
         }
 
+        ~container_type()
+        {
+            // A pool can only be open once: leave it to the next container.
+            if (pop.handle() != nullptr)
+                pop.close();
+        }
+
         bool isConsistent()
         {
             // NOTE: Assume it is consistent.
-- 
2.43.0


From c75e1071540e0e446094cd5bd847f85ac2b028a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 26/45] hook: PMAP_COPY_CHUNK can override the number of slots
 migrated at a time

---
 containers/cliffMap/hashMap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 44b4baf..6808058 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -62,6 +62,10 @@
 #define RESIZE
 
 inline const size_t REPROBE_LIMIT = 10;
+// The number of slots a thread migrates at a time. Can be overridden for testing.
+#ifndef PMAP_COPY_CHUNK
+#define PMAP_COPY_CHUNK 1024
+#endif
 
 template <class Key, class Value, class Hash = std::hash<Key>>
 class ConcurrentHashMap
@@ -400,7 +404,7 @@ public:
                 // Get the size of our old table.
                 size_t oldLen = oldTable->len;
                 // We will attempt to copy in chunks of 1024 key-value pairs at a time.
-                const size_t MIN_COPY_WORK = (oldLen < 1024) ? oldLen : 1024;
+                const size_t MIN_COPY_WORK = (oldLen < PMAP_COPY_CHUNK) ? oldLen : PMAP_COPY_CHUNK;
 
                 // By default, we have not panicked.
                 long panicStart = -1;
-- 
2.43.0


From c407dc0cf92f705383fd2addf1f0dc6fa322226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 27/45] fix: a vector destroyed in an aborted transaction
 begins no other one

---
 include/libpmemobj++/container/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 2067322..16208fe 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -861,7 +861,12 @@ vector<T>::assign(const std::vector<T> &other)
 template <typename T>
 vector<T>::~vector()
 {
-	free_data();
+	/*
+	 * Once a transaction is aborted no other can begin in it, and it takes
+	 * back everything this vector did in it.
+	 */
+	if (pmemobj_tx_stage() != TX_STAGE_ONABORT)
+		free_data();
 }
 
 /**
-- 
2.43.0


From 16c94127ea84b84dd4bf87405654e91bae539a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 28/45] fix: vector::insert and emplace_back copy a value that
 refers to an element of the vector before moving elements

---
 include/libpmemobj++/container/vector.hpp | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 16208fe..6fbec04 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1604,9 +1604,17 @@ vector<T>::insert(const_iterator pos, size_type count, const value_type &value)
 	size_type idx = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to underlying array element. This
+		 * reference can be invalidated by internal_insert() call.
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
+
+		auto &tmp_ref = tmp.get();
+
 		internal_insert(
-			idx, single_element_iterator<value_type>(&value, 0),
-			single_element_iterator<value_type>(&value, count));
+			idx, single_element_iterator<value_type>(&tmp_ref, 0),
+			single_element_iterator<value_type>(&tmp_ref, count));
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
@@ -1788,12 +1796,21 @@ vector<T>::emplace_back(Args &&... args)
 
 	transaction::run(pb, [&] {
 		if (_size == _capacity) {
+			/*
+			 * args might be a reference to underlying array
+			 * element, which realloc() moves from.
+			 */
+			detail::temp_value<
+				value_type,
+				noexcept(T(std::forward<Args>(args)...))>
+			tmp(std::forward<Args>(args)...);
+
 			realloc(get_recommended_capacity(_size + 1));
+			construct_at_end(1, std::move(tmp.get()));
 		} else {
 			add_data_to_tx(size(), 1);
+			construct_at_end(1, std::forward<Args>(args)...);
 		}
-
-		construct_at_end(1, std::forward<Args>(args)...);
 	});
 
 	return back();
-- 
2.43.0


From 8bcedd669376d2a286886570cd4d042091af3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 29/45] fix: vector::resize compares with the size, puts the
 elements it adds in the transaction and copies its value first

---
 include/libpmemobj++/container/vector.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 6fbec04..81c3d0e 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1990,6 +1990,8 @@ vector<T>::resize(size_type count)
 		else {
 			if (_capacity < count)
 				realloc(count);
+			else
+				add_data_to_tx(_size, count - _size);
 			construct_at_end(count - _size);
 		}
 	});
@@ -2016,7 +2018,7 @@ template <typename T>
 void
 vector<T>::resize(size_type count, const value_type &value)
 {
-	if (_capacity == count)
+	if (_size == count)
 		return;
 
 	pool_base pb = get_pool();
@@ -2024,9 +2026,19 @@ vector<T>::resize(size_type count, const value_type &value)
 		if (count <= _size)
 			shrink(count);
 		else {
+			/*
+			 * value might be a reference to underlying array
+			 * element, which realloc() moves from.
+			 */
+			detail::temp_value<value_type, noexcept(T(value))> tmp(
+				value);
 			if (_capacity < count)
 				realloc(count);
-			construct_at_end(count - _size, value);
+			else
+				add_data_to_tx(_size, count - _size);
+			construct_at_end(
+				count - _size,
+				static_cast<const_reference>(tmp.get()));
 		}
 	});
 }
-- 
2.43.0


From 945378ed2c2d5e38a28789eb7065b47f06d8c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 30/45] fix: vector::erase destroys the elements left behind at
 the end

---
 include/libpmemobj++/container/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 81c3d0e..eb43c5e 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1891,7 +1891,8 @@ vector<T>::erase(const_iterator first, const_iterator last)
 
 		std::move(move_begin, move_end, dest);
 
-		_size -= count;
+		/* destroy the elements left behind at the end */
+		shrink(_size - count);
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
-- 
2.43.0


From d62982d35a8a30a30ff69c478ff1ce64523afbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 31/45] fix: vector::insert of no elements does nothing; moving
 back does not construct over an element

---
 include/libpmemobj++/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index eb43c5e..a8d95e5 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -2291,7 +2291,7 @@ template <typename T>
 void
 vector<T>::move_elements_backward(pointer first, pointer last, pointer d_last)
 {
-	while (first != last && d_last >= cend())
+	while (first != last && d_last > cend())
 		detail::create<value_type>(--d_last, std::move(*(--last)));
 
 	if (first != last)
@@ -2357,6 +2357,9 @@ vector<T>::internal_insert(size_type idx, InputIt first, InputIt last)
 
 	auto count = static_cast<size_type>(std::distance(first, last));
 
+	if (count == 0)
+		return;
+
 	if (_capacity >= size() + count) {
 		pointer dest =
 			&_data[static_cast<difference_type>(size() + count)];
-- 
2.43.0


From 7f31ef41dcbeb0bfe1a05b256f9b061911791f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 32/45] fix: segment_vector::insert copies a value that refers
 to an element of the vector before moving elements

---
 include/libpmemobj++/container/segment_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 9f09219..85fb8a0 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1982,9 +1982,14 @@ segment_vector<T, Policy>::insert(const_iterator pos, size_type count,
 
 	pool_base pb = get_pool();
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to an element of this container,
+		 * which insert_gap() moves from.
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
 		insert_gap(idx, count);
 		for (size_type i = idx; i < idx + count; ++i)
-			get(i) = std::move(value);
+			get(i) = static_cast<const T &>(tmp.get());
 	});
 
 	return iterator(this, idx);
-- 
2.43.0


From 23a118f59e8274a019b1dc946825ef2d237838d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 33/45] fix: temp_value does not free its object when the
 transaction is aborted

---
 include/libpmemobj++/detail/temp_value.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/detail/temp_value.hpp b/include/libpmemobj++/detail/temp_value.hpp
index f22ec2d..4bd090e 100644
--- a/include/libpmemobj++/detail/temp_value.hpp
+++ b/include/libpmemobj++/detail/temp_value.hpp
@@ -108,7 +108,9 @@ struct temp_value<
 
 	~temp_value()
 	{
-		pmem::obj::delete_persistent<T>(ptr);
+		/* an aborted transaction has already freed the object */
+		if (pmemobj_tx_stage() == TX_STAGE_WORK)
+			pmem::obj::delete_persistent<T>(ptr);
 	}
 
 	T &
-- 
2.43.0


From cfabb047cd4c2bbfed32217949bf4ff37499489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 34/45] fix: basic_string::find does not match past the end of
 the string

---
 include/libpmemobj++/container/basic_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 3b48125..83cae8e 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -2896,7 +2896,8 @@ basic_string<CharT, Traits>::find(const CharT *s, size_type pos,
 		return pos;
 
 	while (pos + count <= sz) {
-		auto found = traits_type::find(cdata() + pos, sz - pos, s[0]);
+		auto found = traits_type::find(cdata() + pos,
+					       sz - pos - count + 1, s[0]);
 		if (!found)
 			return npos;
 		pos = static_cast<size_type>(std::distance(cdata(), found));
-- 
2.43.0


From fab5e0db58c3fbc052cd12c14ba616097836b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 35/45] fix: moving from a long basic_string leaves a
 terminated empty string

---
 include/libpmemobj++/container/basic_string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 83cae8e..7cf3247 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -4016,6 +4016,11 @@ basic_string<CharT, Traits>::assign_large_data(basic_string &&other)
 
 	non_sso_data() = std::move(other.non_sso_data());
 
+	/* leave an empty string, with its null terminator, behind */
+	other.destroy_data();
+	other.allocate(0);
+	other.initialize(0U, value_type('\0'));
+
 	return non_sso_data().data();
 }
 
-- 
2.43.0


From b606fa0f16af802f8d0517adee31e55849f5d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 36/45] fix: basic_string snapshots the short buffer past the
 terminator: it may be restored on abort

---
 .../libpmemobj++/container/basic_string.hpp   | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 7cf3247..9a437bb 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -3776,7 +3776,7 @@ basic_string<CharT, Traits>::destroy_data()
 	assert(pmemobj_tx_stage() == TX_STAGE_WORK);
 
 	if (is_sso_used()) {
-		add_sso_to_tx(0, get_sso_size() + 1);
+		add_sso_to_tx(0, sso_capacity + 1);
 		/* sso.data destructor does not have to be called */
 	} else {
 		non_sso_data().free_data();
@@ -4083,18 +4083,11 @@ basic_string<CharT, Traits>::add_sso_to_tx(size_type idx_first,
 	assert(idx_first + num <= sso_capacity + 1);
 	assert(is_sso_used());
 
-	auto initialized_num = get_sso_size() + 1 - idx_first;
-
-	/* Snapshot elements in range [idx_first, sso_size + 1 (null)) */
-	detail::conditional_add_to_tx(&sso_data()._data[0] + idx_first,
-				      (std::min)(initialized_num, num));
-
-	if (num > initialized_num) {
-		/* Elements after sso_size + 1 do not have to be snapshotted */
-		detail::conditional_add_to_tx(
-			&sso_data()._data[0] + get_sso_size() + 1,
-			num - initialized_num, POBJ_XADD_NO_SNAPSHOT);
-	}
+	/*
+	 * Elements after the null terminator may have to be restored, too: the
+	 * string can have been longer when the transaction began.
+	 */
+	detail::conditional_add_to_tx(&sso_data()._data[0] + idx_first, num);
 }
 
 /**
-- 
2.43.0


From 2fe3c7d772cfd81cb30e3c58b8a14a8e30a86895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 37/45] fix: basic_string::insert and replace of a part of the
 string itself

---
 .../libpmemobj++/container/basic_string.hpp   | 63 +++++++++----------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 9a437bb..6c9ffd1 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -2256,6 +2256,15 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 	auto index = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pop, [&] {
+		/* 1) Cache C-style string in case of self-insert, because it
+		 * will be moved to make room, or destroyed when switching from
+		 * sso to large string.
+		 *
+		 * 2) We cache in std::vector instead of std::string because of
+		 * overload deduction ambiguity on Windows
+		 */
+		std::vector<value_type> str(first, last);
+
 		if (is_sso_used() && new_size <= sso_capacity) {
 			auto len = sz - index;
 
@@ -2263,36 +2272,20 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 
 			traits_type::move(&sso_data()._data[index + count],
 					  &sso_data()._data[index], len);
-			std::copy(first, last, &sso_data()._data[index]);
+			std::copy(str.begin(), str.end(),
+				  &sso_data()._data[index]);
 
 			assert(new_size == index + len + count);
 			set_sso_size(new_size);
 			sso_data()._data[new_size] = value_type('\0');
 		} else {
-			if (is_sso_used()) {
-				/* 1) Cache C-style string in case of
-				 * self-insert, because it will be destroyed
-				 * when switching from sso to large string.
-				 *
-				 * 2) We cache in std::vector instead of
-				 * std::string because of overload deduction
-				 * ambiguity on Windows
-				 */
-				std::vector<value_type> str(first, last);
-
+			if (is_sso_used())
 				sso_to_large(new_size);
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					str.begin(), str.end());
-			} else {
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					first, last);
-			}
+
+			non_sso_data().insert(
+				non_sso_data().begin() +
+					static_cast<difference_type>(index),
+				str.begin(), str.end());
 		}
 	});
 
@@ -2476,6 +2469,15 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 	auto pop = get_pool();
 
 	transaction::run(pop, [&] {
+		/* 1) Cache C-style string in case of self-replace, because it
+		 * will be moved, or destroyed when switching from sso to large
+		 * string.
+		 *
+		 * 2) We cache in std::vector instead of std::string because of
+		 * overload deduction ambiguity on Windows
+		 */
+		std::vector<value_type> str(first2, last2);
+
 		if (is_sso_used() && new_size <= sso_capacity) {
 			add_sso_to_tx(index, new_size - index + 1);
 
@@ -2483,21 +2485,12 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 			traits_type::move(&sso_data()._data[index + count2],
 					  &sso_data()._data[index + count],
 					  sz - index - count);
-			std::copy(first2, last2, &sso_data()._data[index]);
+			std::copy(str.begin(), str.end(),
+				  &sso_data()._data[index]);
 
 			set_sso_size(new_size);
 			sso_data()._data[new_size] = value_type('\0');
 		} else {
-			/* 1) Cache C-style string in case of
-			 * self-replace, because it will be destroyed
-			 * when switching from sso to large string.
-			 *
-			 * 2) We cache in std::vector instead of
-			 * std::string because of overload deduction
-			 * ambiguity on Windows
-			 */
-			std::vector<value_type> str(first2, last2);
-
 			if (is_sso_used()) {
 				sso_to_large(new_size);
 			}
-- 
2.43.0


From 92b320dd13e662590f9217340a0ece2e716e88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 38/45] fix: swapping two hash maps swaps all of their sizes,
 and can be rolled back

The part of the size that is counted since an earlier restart stayed where
it was, so both maps had a wrong size (and failed an assertion) after the
next restart; and the other map's mask and size were not part of the
transaction.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index 2a869a1..1bd6331 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -1367,6 +1367,8 @@ public:
 			 */
 			transaction::snapshot((size_t *)&this->my_mask);
 			transaction::snapshot((size_t *)&this->my_size);
+			transaction::snapshot((size_t *)&table.my_mask);
+			transaction::snapshot((size_t *)&table.my_size);
 
 			this->mask() = table.mask().exchange(
 				this->mask(), std::memory_order_relaxed);
@@ -1376,6 +1378,7 @@ public:
 
 			/* Swap consistent size */
 			std::swap(this->tls_ptr, table.tls_ptr);
+			std::swap(this->on_init_size, table.on_init_size);
 
 			for (size_type i = 0; i < embedded_buckets; ++i)
 				this->my_embedded_segment[i].node_list.swap(
-- 
2.43.0


From 24212034940a945e76e0f86ee7a43cf0c3a2901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 39/45] fix: a hash map can be destroyed after free_data()

free_data() should be called before the destructor, which then calls it
again and used the per-thread data that was gone.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index 1bd6331..436d618 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -2333,6 +2333,10 @@ public:
 	void
 	free_data()
 	{
+		/* the data was freed already, see the destructor */
+		if (this->tls_ptr == nullptr)
+			return;
+
 		auto pop = get_pool_base();
 
 		transaction::run(pop, [&] {
-- 
2.43.0


From 6c159a30c99b63c93228a05f84260f57348c878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 40/45] fix: allocator's destroy() snapshots the whole object

Only the first 16 bytes (the size of the pointer to it) were added to the
transaction, so an aborted transaction left the rest of the object as its
destructor had left it.
---
 include/libpmemobj++/allocator.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index 4673272..d62b4fb 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -139,9 +139,7 @@ public:
 	destroy(pointer p)
 	{
 		/* XXX should we allow modifications outside of tx? */
-		if (pmemobj_tx_stage() == TX_STAGE_WORK) {
-			pmemobj_tx_add_range_direct((void *)p.get(), sizeof(p));
-		}
+		detail::conditional_add_to_tx(p.get());
 
 		detail::destroy<value_type>(*p);
 	}
-- 
2.43.0


From ab24c59a0cfd8bd8f50dfbc7b78daa9f4f048d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 41/45] fix: allocator's allocate() reports a failed allocation

It returned a null pointer, although the transaction had been aborted by then;
the caller went on to construct its objects at address zero.
---
 include/libpmemobj++/allocator.hpp | 32 +++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index d62b4fb..a8371b5 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -254,8 +254,21 @@ public:
 				"refusing to allocate memory outside of transaction scope");
 
 		/* allocate raw memory, no object construction */
-		return pmemobj_tx_alloc(sizeof(value_type) * cnt,
-					detail::type_num<T>());
+		pointer ptr = pmemobj_tx_alloc(sizeof(value_type) * cnt,
+					       detail::type_num<T>());
+
+		if (ptr == nullptr) {
+			if (errno == ENOMEM)
+				throw pmem::transaction_out_of_memory(
+					"Failed to allocate persistent memory")
+					.with_pmemobj_errormsg();
+			else
+				throw pmem::transaction_alloc_error(
+					"Failed to allocate persistent memory")
+					.with_pmemobj_errormsg();
+		}
+
+		return ptr;
 	}
 
 	/**
@@ -355,7 +368,20 @@ public:
 				"refusing to allocate memory outside of transaction scope");
 
 		/* allocate raw memory, no object construction */
-		return pmemobj_tx_alloc(1 /* void size */ * cnt, 0);
+		pointer ptr = pmemobj_tx_alloc(1 /* void size */ * cnt, 0);
+
+		if (ptr == nullptr) {
+			if (errno == ENOMEM)
+				throw pmem::transaction_out_of_memory(
+					"Failed to allocate persistent memory")
+					.with_pmemobj_errormsg();
+			else
+				throw pmem::transaction_alloc_error(
+					"Failed to allocate persistent memory")
+					.with_pmemobj_errormsg();
+		}
+
+		return ptr;
 	}
 
 	/**
-- 
2.43.0


From 845a2c1706d281189e5fdbd153c106d1d6fb89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 42/45] fix: basic_string refuses sizes that overflow

---
 include/libpmemobj++/container/basic_string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 6c9ffd1..160b3de 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -1578,7 +1578,7 @@ basic_string<CharT, Traits>::append(size_type count, CharT ch)
 	auto sz = size();
 	auto new_size = sz + count;
 
-	if (new_size > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Size exceeds max size.");
 
 	if (is_sso_used()) {
@@ -1761,7 +1761,7 @@ basic_string<CharT, Traits>::append(InputIt first, InputIt last)
 	auto count = static_cast<size_type>(std::distance(first, last));
 	auto new_size = sz + count;
 
-	if (new_size > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Size exceeds max size.");
 
 	if (is_sso_used()) {
@@ -2175,7 +2175,7 @@ basic_string<CharT, Traits>::insert(const_iterator pos, size_type count,
 {
 	auto sz = size();
 
-	if (sz + count > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz + count;
@@ -2246,7 +2246,7 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 
 	auto count = static_cast<size_type>(std::distance(first, last));
 
-	if (sz + count > max_size())
+	if (count > max_size() - sz)
 		throw std::length_error("Count exceeds max size.");
 
 	auto pop = get_pool();
@@ -2461,7 +2461,7 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	count = (std::min)(count, sz - index);
 
-	if (sz - count + count2 > max_size())
+	if (count2 > max_size() - (sz - count))
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz - count + count2;
@@ -2677,7 +2677,7 @@ basic_string<CharT, Traits>::replace(const_iterator first, const_iterator last,
 
 	count = (std::min)(count, sz - index);
 
-	if (sz - count + count2 > max_size())
+	if (count2 > max_size() - (sz - count))
 		throw std::length_error("Count exceeds max size.");
 
 	auto new_size = sz - count + count2;
-- 
2.43.0


From 9b769bea0f0bebea50b1385bff210b63936000d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 43/45] fix: range() refuses ranges whose end overflows

---
 include/libpmemobj++/container/array.hpp          | 8 ++++----
 include/libpmemobj++/container/segment_vector.hpp | 6 +++---
 include/libpmemobj++/container/vector.hpp         | 8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/libpmemobj++/container/array.hpp b/include/libpmemobj++/container/array.hpp
index 7ab7eca..c2f14d8 100644
--- a/include/libpmemobj++/container/array.hpp
+++ b/include/libpmemobj++/container/array.hpp
@@ -493,7 +493,7 @@ struct array {
 	slice<pointer>
 	range(size_type start, size_type n)
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		detail::conditional_add_to_tx(_get_data() + start, n,
@@ -521,7 +521,7 @@ struct array {
 	slice<range_snapshotting_iterator>
 	range(size_type start, size_type n, size_type snapshot_size)
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		if (snapshot_size > n)
@@ -549,7 +549,7 @@ struct array {
 	slice<const_iterator>
 	range(size_type start, size_type n) const
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::range");
 
 		return {const_iterator(_get_data() + start),
@@ -570,7 +570,7 @@ struct array {
 	slice<const_iterator>
 	crange(size_type start, size_type n) const
 	{
-		if (start + n > N)
+		if (start > N || n > N - start)
 			throw std::out_of_range("array::crange");
 
 		return {const_iterator(_get_data() + start),
diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 85fb8a0..30242ab 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1672,7 +1672,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::iterator>
 segment_vector<T, Policy>::range(size_type start, size_type n)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	snapshot_data(start, start + n);
@@ -1695,7 +1695,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::const_iterator>
 segment_vector<T, Policy>::range(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	return {const_iterator(this, start), const_iterator(this, start + n)};
@@ -1716,7 +1716,7 @@ template <typename T, typename Policy>
 slice<typename segment_vector<T, Policy>::const_iterator>
 segment_vector<T, Policy>::crange(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("segment_vector::range");
 
 	return {const_iterator(this, start), const_iterator(this, start + n)};
diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index a8d95e5..790c1c8 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1273,7 +1273,7 @@ template <typename T>
 slice<typename vector<T>::pointer>
 vector<T>::range(size_type start, size_type n)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	detail::conditional_add_to_tx(cdata() + start, n,
@@ -1301,7 +1301,7 @@ template <typename T>
 slice<typename vector<T>::range_snapshotting_iterator>
 vector<T>::range(size_type start, size_type n, size_type snapshot_size)
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	if (snapshot_size > n)
@@ -1330,7 +1330,7 @@ template <typename T>
 slice<typename vector<T>::const_iterator>
 vector<T>::range(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::range");
 
 	return {const_iterator(cdata() + start),
@@ -1352,7 +1352,7 @@ template <typename T>
 slice<typename vector<T>::const_iterator>
 vector<T>::crange(size_type start, size_type n) const
 {
-	if (start + n > size())
+	if (start > size() || n > size() - start)
 		throw std::out_of_range("vector::crange");
 
 	return {const_iterator(cdata() + start),
-- 
2.43.0


From 3cc0dd36e15c2c3d6430568ce3a05466e2272c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 44/45] fix: insert() of vectors refuses sizes that overflow

---
 include/libpmemobj++/container/segment_vector.hpp | 3 +++
 include/libpmemobj++/container/vector.hpp         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 30242ab..01958cd 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -2600,6 +2600,9 @@ segment_vector<T, Policy>::insert_gap(size_type idx, size_type count)
 
 	size_type _size = size();
 
+	if (count > max_size() - _size)
+		throw std::length_error("New size exceeds max size.");
+
 	if (capacity() < _size + count)
 		internal_reserve(_size + count);
 
diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 790c1c8..ff2db59 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1590,6 +1590,7 @@ vector<T>::insert(const_iterator pos, value_type &&value)
  * capacity + count, or remains the same if there is enough space to add count
  * elements.
  *
+ * @throw std::length_error if new size > max_size().
  * @throw pmem::transaction_error when snapshotting failed.
  * @throw rethrows constructor exception.
  * @throw rethrows destructor exception.
@@ -1599,6 +1600,9 @@ template <typename T>
 typename vector<T>::iterator
 vector<T>::insert(const_iterator pos, size_type count, const value_type &value)
 {
+	if (count > max_size() - size())
+		throw std::length_error("New size exceeds max size.");
+
 	pool_base pb = get_pool();
 
 	size_type idx = static_cast<size_type>(std::distance(cbegin(), pos));
-- 
2.43.0


From 02053bb3c1e99b92b5c1256f30c0f425f998f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:11 +0000
Subject: [PATCH 45/45] fix: update() applies the caller's function whatever
 value it is given

---
 containers/cliffMap/hashMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 6808058..d270589 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1140,7 +1140,8 @@ public:
         // Now we have a key slot.
 
         // If the value we want to place is already there.
-        if (newVal == V)
+        // A function that replaces the CAS decides for itself what to place.
+        if (newVal == V && CAS == &Table::CASvalue)
         {
             // Then we can get away with doing nothing.
             return V;
-- 
2.43.0

