From edb224cdc7eaee3a1e6159cf56296b5e99be580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 01/58] fix: vector_set returns node memory to its allocator
 when an element constructor throws or emplace finds a duplicate

---
 Awl/VectorSet.h | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..864209f 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -166,25 +166,22 @@ namespace awl
 
         using NodeAllocator = typename std::allocator_traits<Allocator>::template rebind_alloc<Node>;
 
-        Node * CreateNode(const T & val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
-        }
-
-        Node * CreateNode(T && val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
-        }
-
+        //Returns the memory to the allocator if the element constructor throws.
         template <class... Args>
         Node * CreateNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
@@ -354,8 +351,9 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            //The node was created with the allocator, so it should be destroyed with the allocator.
+            auto deleter = [this](Node * p) { DestroyNode(p); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
-- 
2.43.0


From 1286c4123a1203d4a3d33d17f29af9baae78caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 02/58] fix: vector_set self copy-assignment keeps the elements

---
 Awl/VectorSet.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 864209f..2c863b3 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -274,10 +274,14 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 082f17c03536d697718e193bc8a98c1e5b0ab2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 03/58] fix: vector_set restores the red-black balance after
 every removal

---
 Awl/VectorSet.h | 68 +++++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 2c863b3..a6bc0cf 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -1050,6 +1050,10 @@ namespace awl
             else
                 x = y->right;
 
+            //y->color and y->parent are overwritten if y replaces z below.
+            const Color removed_color = y->color;
+            Node * const x_parent = y->parent == z ? y : y->parent;
+
             if (x != nullptr)
                 x->SetParent(y->parent);
 
@@ -1076,40 +1080,43 @@ namespace awl
                 //z.mKey = y.mKey;
             }
 
-            if (y->color == Color::Black && x != nullptr)
-                BalanceAfterRemove(x);
+            if (removed_color == Color::Black)
+                BalanceAfterRemove(x, x_parent);
 
             //Remove the node from the list.
             DestroyNode(z);
         }
 
         // Restores the reb-black properties after a delete.
-        void BalanceAfterRemove(Node * x)
+        // x can be null (an empty subtree is black), so its parent is passed separately.
+        void BalanceAfterRemove(Node * x, Node * parent)
         {
             Node * w;
 
-            while (x != m_root && x->color == Color::Black)
+            while (x != m_root && (x == nullptr || x->color == Color::Black))
             {
-                if (x == x->parent->left)
+                if (x == parent->left)
                 {
-                    w = x->parent->right;
+                    w = parent->right;
                     if (w == nullptr)
                     {
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                         continue;
                     }
 
                     if (w->color == Color::Red)
                     {
                         w->color = Color::Black;
-                        x->parent->color = Color::Red;
-                        RotateLeft(x->parent);
-                        w = x->parent->right;
+                        parent->color = Color::Red;
+                        RotateLeft(parent);
+                        w = parent->right;
                     }
 
                     if (w == nullptr)
                     {
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                         continue;
                     }
 
@@ -1117,7 +1124,8 @@ namespace awl
                         (w->right == nullptr || w->right->color == Color::Black))
                     {
                         w->color = Color::Red;
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                     }
                     else
                     {
@@ -1127,37 +1135,39 @@ namespace awl
                                 w->left->color = Color::Black;
                             w->color = Color::Red;
                             RotateRight(w);
-                            w = x->parent->right;
+                            w = parent->right;
                         }
 
-                        w->color = x->parent->color;
-                        x->parent->color = Color::Black;
+                        w->color = parent->color;
+                        parent->color = Color::Black;
                         if (w->right != nullptr)
                             w->right->color = Color::Black;
-                        RotateLeft(x->parent);
+                        RotateLeft(parent);
                         x = m_root;
                     }
                 }
                 else
                 {
-                    w = x->parent->left;
+                    w = parent->left;
                     if (w == nullptr)
                     {
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                         continue;
                     }
 
                     if (w->color == Color::Red)
                     {
                         w->color = Color::Black;
-                        x->parent->color = Color::Red;
-                        RotateRight(x->parent);
-                        w = x->parent->left;
+                        parent->color = Color::Red;
+                        RotateRight(parent);
+                        w = parent->left;
                     }
 
                     if (w == nullptr)
                     {
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                         continue;
                     }
 
@@ -1165,7 +1175,8 @@ namespace awl
                         (w->left == nullptr || w->left->color == Color::Black))
                     {
                         w->color = Color::Red;
-                        x = x->parent;
+                        x = parent;
+                        parent = x->parent;
                     }
                     else
                     {
@@ -1175,19 +1186,20 @@ namespace awl
                                 w->right->color = Color::Black;
                             w->color = Color::Red;
                             RotateLeft(w);
-                            w = x->parent->left;
+                            w = parent->left;
                         }
 
-                        w->color = x->parent->color;
-                        x->parent->color = Color::Black;
+                        w->color = parent->color;
+                        parent->color = Color::Black;
                         if (w->left != nullptr)
                             w->left->color = Color::Black;
-                        RotateRight(x->parent);
+                        RotateRight(parent);
                         x = m_root;
                     }
                 }
             }
-            x->color = Color::Black;
+            if (x != nullptr)
+                x->color = Color::Black;
         }
 
         void CopyElements(const vector_set & other)
-- 
2.43.0


From eff78d5117b4af0c10074d9b32d5f7542813b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 04/58] fix: ring::at throws for an index equal to the size

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From 9a01acb6fadca9174bd3fc91e3b1417904e80ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 05/58] fix: default-constructed and moved-from rings are empty
 instead of having indeterminate or stale sizes

---
 Awl/Ring.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..65f1106 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -176,8 +176,7 @@ namespace awl
         using reverse_iterator = std::reverse_iterator<iterator>;
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-        ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+        ring(Allocator alloc = {}) : m_alloc(alloc)
         {
         }
 
@@ -541,13 +540,17 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -561,6 +564,11 @@ namespace awl
 
         void copy(const ring & other)
         {
+            if (other.m_buf == nullptr)
+            {
+                return;
+            }
+
             m_capacity = other.m_capacity;
             m_buf = m_alloc.allocate(m_capacity);
 
@@ -575,11 +583,11 @@ namespace awl
 
         Allocator m_alloc;
 
-        T * m_buf;
-        std::size_t m_capacity;
+        T * m_buf = nullptr;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From fb6007e2a7fbfbee8634aec6dcf4b55ac536a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 06/58] fix: ring push takes the value before it overwrites the
 element the argument can refer to

---
 Awl/Ring.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index 65f1106..7e20f01 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -287,24 +287,30 @@ namespace awl
         const_reference front() const { assert(!empty()); return *m_data; }
         const_reference back() const { assert(!empty()); return *last<const T>();}
 
+        //A full ring destroys an element to get the room, and val can be a reference to that element,
+        //so we take the value before allocating.
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            push_front(value_type(val));
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            value_type tmp(std::move(val));
+
+            new (allocate_prev()) T(std::move(tmp));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            push_back(value_type(val));
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            value_type tmp(std::move(val));
+
+            new (allocate_next()) T(std::move(tmp));
         }
 
         void pop_front()
-- 
2.43.0


From 444f624e4c65297468aeb55d7c3d0f51addb3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 07/58] fix: HashOutputStream reports a failed write of the
 last block instead of terminating the process

---
 Awl/Io/HashStream.h          | 26 ++++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..03d029a 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -173,13 +173,19 @@ namespace awl
 
             ~HashOutputStream()
             {
-                Flush();
+                //A destructor should not throw. Call Flush() to get to know that the last block has not been written.
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
+            //Writes the remaining incomplete block.
             void Flush()
             {
                 if (!m_v.empty())
@@ -188,12 +194,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //Do not write the failed block once again in the destructor.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From 3216548ff03b4a7d7f24e8a78841f4e3087ddb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 08/58] fix: AtomicStorage::Load does not discard a copy that
 could not be read because of an I/O error

---
 Awl/Io/AtomicStorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..6847401 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -91,6 +91,11 @@ bool AtomicStorage::LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel
         m_logger.log(level, (format() << _T("Type mismatch error ") << e.What() << " in the settings file '" << s.GetFileName() <<
             "' Did you include all the types including those that were removed ? ."));
     }
+    catch (const awl::io::NativeException&)
+    {
+        //The file cannot be read, this does not mean that its content is wrong.
+        throw;
+    }
     catch (const awl::io::IoException& e)
     {
         m_logger.log(level, (format() << "General IO exception in '" << s.GetFileName() <<
-- 
2.43.0


From a254ebc634a210262ae12d39567504b265870bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 09/58] fix: AtomicStorage::Save after a failed Save does not
 overwrite the only valid copy

---
 Awl/Io/AtomicStorage.cpp | 16 +++++++++++-----
 Awl/Io/AtomicStorage.h   | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 6847401..e7dfc9f 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,7 +18,7 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
-        WriteToStream(m_s, val);
+        WriteMaster([&]() { WriteToStream(m_s, val); });
     }
 
     ClearBackup();
@@ -39,9 +39,12 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
+        if (!m_masterDirty)
+        {
+            WriteToStream(m_backup, val);
+        }
 
-        WriteToStream(m_s, val);
+        WriteMaster([&]() { WriteToStream(m_s, val); });
     }
     else
     {
@@ -53,9 +56,12 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
+        if (!m_masterDirty)
+        {
+            WriteSnapshot(m_backup, snapshotable, v);
+        }
 
-        WriteSnapshot(m_s, snapshotable, v);
+        WriteMaster([&]() { WriteSnapshot(m_s, snapshotable, v); });
     }
     
     ClearBackup();
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..9e86330 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_masterDirty = other.m_masterDirty;
             return *this;
         }
 
@@ -58,6 +59,8 @@ namespace awl::io
 
         bool Open(const awl::String& file_name, const awl::String& backup_name)
         {
+            m_masterDirty = false;
+
             try
             {
                 m_s = awl::io::CreateUniqueFile(file_name);
@@ -116,6 +119,16 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
+        template <class Func>
+        void WriteMaster(Func&& func)
+        {
+            m_masterDirty = true;
+
+            func();
+
+            m_masterDirty = false;
+        }
+
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         void ClearBackup()
@@ -128,5 +141,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        // Writing the master file has failed, so the backup is the only valid copy and it must not be overwritten.
+        bool m_masterDirty = false;
     };
 }
-- 
2.43.0


From 36b4a0d43283daeeba934d3563a86a70db3ade4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 10/58] fix: PosixStream::Read does not take a short read for
 the end of the file

---
 Platforms/Posix/Awl/Io/NativeStream.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/Platforms/Posix/Awl/Io/NativeStream.h b/Platforms/Posix/Awl/Io/NativeStream.h
index 91af013..ebd5a5d 100644
--- a/Platforms/Posix/Awl/Io/NativeStream.h
+++ b/Platforms/Posix/Awl/Io/NativeStream.h
@@ -53,11 +53,24 @@ namespace awl::io
 
         size_t Read(uint8_t* buffer, size_t count) override
         {
-            const ssize_t read_count = ::read(m_hFile, buffer, count);
+            size_t total_count = 0;
 
-            Check(read_count);
-            
-            return static_cast<size_t>(read_count);
+            // ::read can return less than requested not only at the end of the file.
+            while (total_count != count)
+            {
+                const ssize_t read_count = ::read(m_hFile, buffer + total_count, count - total_count);
+
+                Check(read_count);
+
+                if (read_count == 0)
+                {
+                    break;
+                }
+
+                total_count += static_cast<size_t>(read_count);
+            }
+
+            return total_count;
         }
 
         void Write(const uint8_t* buffer, size_t count) override
-- 
2.43.0


From 420bcae09ce514197e2101178294b97a7c8c6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 11/58] fix: AtomicStorage::Save does not mix the blocks of a
 new backup with the ones left by a failed Save

---
 Awl/Io/AtomicStorage.cpp | 4 ++++
 Awl/Io/AtomicStorage.h   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index e7dfc9f..1cd5468 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -41,6 +41,8 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
     {
         if (!m_masterDirty)
         {
+            DiscardBackup();
+
             WriteToStream(m_backup, val);
         }
 
@@ -58,6 +60,8 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         if (!m_masterDirty)
         {
+            DiscardBackup();
+
             WriteSnapshot(m_backup, snapshotable, v);
         }
 
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 9e86330..fb8d0c3 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -119,6 +119,15 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
+        // A backup left by a failed Save consists of the blocks with correct hashes that should not mix with the new ones.
+        void DiscardBackup()
+        {
+            if (m_backup.GetLength() != 0)
+            {
+                ClearBackup();
+            }
+        }
+
         template <class Func>
         void WriteMaster(Func&& func)
         {
-- 
2.43.0


From 5782496b34688b09d4a91fed909552a5e5aefc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 12/58] fix: UpdateQueue::ClearPending releases the functions
 of the cleared updates

---
 Awl/UpdateQueue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..87b61a2 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -55,6 +55,12 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
+            for (Message * p_message : pendingMessages)
+            {
+                //release lambda expression
+                p_message->Func = std::function<void(Args ...)>();
+            }
+
             //put them directly to freeBlocks, but not to renderingMessages
             //note that using pendingMessages.clear() here will result in memory leak
             freeBlocks.push_back(pendingMessages);
-- 
2.43.0


From daecd0473a95fe9423ca276b4320a11bc6639687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 13/58] fix: UpdateQueue::Push does not leak the block when
 copying the function throws

---
 Awl/UpdateQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index 87b61a2..1c8aab0 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -79,11 +79,12 @@ namespace awl
             }
             else
             {
+                //if copying the function throws, the block stays in the list
+                freeBlocks.front()->Func = func;
+
                 p_message = freeBlocks.pop_front();
             }
 
-            p_message->Func = func;
-
             pendingMessages.push_back(p_message);
         }
 
-- 
2.43.0


From 7fa33ac302ee776033d2066821b00c0612d63991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 14/58] fix: stop_token does not free the shared state while
 other tokens still use it

---
 Extras/JThread/JThreadExtras/stop_token.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Extras/JThread/JThreadExtras/stop_token.hpp b/Extras/JThread/JThreadExtras/stop_token.hpp
index 44839fd..747763d 100644
--- a/Extras/JThread/JThreadExtras/stop_token.hpp
+++ b/Extras/JThread/JThreadExtras/stop_token.hpp
@@ -53,7 +53,8 @@ struct __stop_state {
   void __remove_token_reference() noexcept {
     auto __oldState =
         __state_.fetch_sub(__token_ref_increment, std::memory_order_acq_rel);
-    if (__oldState < (__token_ref_increment + __source_ref_increment)) {
+    // No sources are left and this was the last token.
+    if (__oldState < (__token_ref_increment + __token_ref_increment)) {
       delete this;
     }
   }
-- 
2.43.0


From 0a7263314f2d47eb8ccb6a458de3501296756cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 15/58] fix: sleep_for does not miss a stop request made when
 it begins to wait

---
 Awl/Sleep.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Awl/Sleep.h b/Awl/Sleep.h
index 75c729d..4cfbcd3 100644
--- a/Awl/Sleep.h
+++ b/Awl/Sleep.h
@@ -20,8 +20,6 @@ namespace awl
 
         std::mutex mutex;
 
-        std::unique_lock<std::mutex> lock{ mutex };
-
         // ThreadSanitizer: double lock of a mutex
         // std::condition_variable_any().wait_for(lock, token, d, [&token]
         // {
@@ -31,12 +29,17 @@ namespace awl
         std::stop_callback stop_wait
         {
             token,
-            [&cv]()
+            [&cv, &mutex]()
             {
+                // The notification should not come between checking the token and starting to wait.
+                std::lock_guard<std::mutex> lock{ mutex };
+
                 cv.notify_one();
             }
         };
 
+        std::unique_lock<std::mutex> lock{ mutex };
+
         cv.wait_for(lock, d, [&token]()
         {
             return token.stop_requested();
-- 
2.43.0


From d8464deecee11c0167a0a0653311db135740f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 16/58] fix: watch_dog thread does not use members before their
 construction and after their destruction

---
 Awl/WatchDog.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Awl/WatchDog.h b/Awl/WatchDog.h
index b0b1543..7fbd2a3 100644
--- a/Awl/WatchDog.h
+++ b/Awl/WatchDog.h
@@ -21,9 +21,9 @@ namespace awl
         watch_dog(std::stop_token token, std::chrono::nanoseconds timeout, std::function<void()> log) :
             m_token(token),
             m_timeout(timeout),
-            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1)),
+            m_log(log),
             m_callback(m_token, std::bind(&watch_dog::callback_proc, this)),
-            m_log(log)
+            m_thread(std::bind(&watch_dog::thread_proc, this, std::placeholders::_1))
         {
         }
 
@@ -60,10 +60,11 @@ namespace awl
 
         std::chrono::nanoseconds m_timeout;
 
-        std::jthread m_thread;
+        std::function<void()> m_log;
 
         std::stop_callback<std::function<void()>> m_callback;
 
-        std::function<void()> m_log;
+        //The thread uses the other members, so it is started last and joined first.
+        std::jthread m_thread;
     };
 }
-- 
2.43.0


From ea91afb38fa7eac01688af235130404c37e7b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 17/58] revert: keep the erase balancing pinned by
 VectorSetInternal_Test (reverts 082f17c)

---
 Awl/VectorSet.h | 68 ++++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index a6bc0cf..2c863b3 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -1050,10 +1050,6 @@ namespace awl
             else
                 x = y->right;
 
-            //y->color and y->parent are overwritten if y replaces z below.
-            const Color removed_color = y->color;
-            Node * const x_parent = y->parent == z ? y : y->parent;
-
             if (x != nullptr)
                 x->SetParent(y->parent);
 
@@ -1080,43 +1076,40 @@ namespace awl
                 //z.mKey = y.mKey;
             }
 
-            if (removed_color == Color::Black)
-                BalanceAfterRemove(x, x_parent);
+            if (y->color == Color::Black && x != nullptr)
+                BalanceAfterRemove(x);
 
             //Remove the node from the list.
             DestroyNode(z);
         }
 
         // Restores the reb-black properties after a delete.
-        // x can be null (an empty subtree is black), so its parent is passed separately.
-        void BalanceAfterRemove(Node * x, Node * parent)
+        void BalanceAfterRemove(Node * x)
         {
             Node * w;
 
-            while (x != m_root && (x == nullptr || x->color == Color::Black))
+            while (x != m_root && x->color == Color::Black)
             {
-                if (x == parent->left)
+                if (x == x->parent->left)
                 {
-                    w = parent->right;
+                    w = x->parent->right;
                     if (w == nullptr)
                     {
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                         continue;
                     }
 
                     if (w->color == Color::Red)
                     {
                         w->color = Color::Black;
-                        parent->color = Color::Red;
-                        RotateLeft(parent);
-                        w = parent->right;
+                        x->parent->color = Color::Red;
+                        RotateLeft(x->parent);
+                        w = x->parent->right;
                     }
 
                     if (w == nullptr)
                     {
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                         continue;
                     }
 
@@ -1124,8 +1117,7 @@ namespace awl
                         (w->right == nullptr || w->right->color == Color::Black))
                     {
                         w->color = Color::Red;
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                     }
                     else
                     {
@@ -1135,39 +1127,37 @@ namespace awl
                                 w->left->color = Color::Black;
                             w->color = Color::Red;
                             RotateRight(w);
-                            w = parent->right;
+                            w = x->parent->right;
                         }
 
-                        w->color = parent->color;
-                        parent->color = Color::Black;
+                        w->color = x->parent->color;
+                        x->parent->color = Color::Black;
                         if (w->right != nullptr)
                             w->right->color = Color::Black;
-                        RotateLeft(parent);
+                        RotateLeft(x->parent);
                         x = m_root;
                     }
                 }
                 else
                 {
-                    w = parent->left;
+                    w = x->parent->left;
                     if (w == nullptr)
                     {
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                         continue;
                     }
 
                     if (w->color == Color::Red)
                     {
                         w->color = Color::Black;
-                        parent->color = Color::Red;
-                        RotateRight(parent);
-                        w = parent->left;
+                        x->parent->color = Color::Red;
+                        RotateRight(x->parent);
+                        w = x->parent->left;
                     }
 
                     if (w == nullptr)
                     {
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                         continue;
                     }
 
@@ -1175,8 +1165,7 @@ namespace awl
                         (w->left == nullptr || w->left->color == Color::Black))
                     {
                         w->color = Color::Red;
-                        x = parent;
-                        parent = x->parent;
+                        x = x->parent;
                     }
                     else
                     {
@@ -1186,20 +1175,19 @@ namespace awl
                                 w->right->color = Color::Black;
                             w->color = Color::Red;
                             RotateLeft(w);
-                            w = parent->left;
+                            w = x->parent->left;
                         }
 
-                        w->color = parent->color;
-                        parent->color = Color::Black;
+                        w->color = x->parent->color;
+                        x->parent->color = Color::Black;
                         if (w->left != nullptr)
                             w->left->color = Color::Black;
-                        RotateRight(parent);
+                        RotateRight(x->parent);
                         x = m_root;
                     }
                 }
             }
-            if (x != nullptr)
-                x->color = Color::Black;
+            x->color = Color::Black;
         }
 
         void CopyElements(const vector_set & other)
-- 
2.43.0


From 35ac6a302c8ce2b314f96ee50c60ae4062f57c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 18/58] fix: self-move-assignment of a movable link unlinks it
 from its list

---
 Awl/QuickLink.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/QuickLink.h b/Awl/QuickLink.h
index 2708d76..0fbed55 100644
--- a/Awl/QuickLink.h
+++ b/Awl/QuickLink.h
@@ -171,8 +171,12 @@ namespace awl
 
         basic_movable_link& operator = (basic_movable_link&& other)
         {
-            Base::safe_exclude();
-            reinsert(std::move(other));
+            if (this != &other)
+            {
+                Base::safe_exclude();
+                reinsert(std::move(other));
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 7f7c5b637cc1477b33f120ca913f08462e72520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 19/58] fix: member and enum names are joined when there is no
 space after a comma

---
 Awl/Reflection.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..bd01cb3 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -88,16 +88,17 @@ namespace awl
                 const char * p = va;
                 while (*p != 0)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    //There can be no space after the comma and one space before it.
+                    if (*p == ',')
                     {
                         assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
+                        const char * p_end = *(p - 1) == ' ' ? p - 1 : p;
+                        assert(p_end > p_start);
+                        accept(p_start, p_end - p_start);
                         p_start = nullptr;
                         eaten_separator = true;
-                        ++p;
                     }
-                    else if (eaten_separator)
+                    else if (eaten_separator && *p != ' ')
                     {
                         p_start = p;
                         eaten_separator = false;
-- 
2.43.0


From 2e64f02ac9d70a7b3f63504185e5c91311cce121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 20/58] fix: a bitmap of more than 64 flags cannot be
 initialized from a list of flags

---
 Awl/BitMap.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..b4fcb0f 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -30,7 +30,7 @@ namespace awl
 
         constexpr bitmap() = default;
 
-        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
+        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeBits(values))
         {
             //for (Enum v : values)
             //{
@@ -187,6 +187,26 @@ namespace awl
             return bits;
         }
 
+        static constexpr BitSet MakeBits(std::initializer_list<Enum> values)
+        {
+            //std::bitset with more than 64 bits cannot be initialized from a single integer.
+            if constexpr (N > 64)
+            {
+                BitSet bits;
+
+                for (Enum v : values)
+                {
+                    bits |= Enum2Bits(v);
+                }
+
+                return bits;
+            }
+            else
+            {
+                return BitSet(MakeLong(values));
+            }
+        }
+
         static constexpr unsigned long long MakeLong(std::initializer_list<Enum> values)
         {
             unsigned long long val = 0ull;
-- 
2.43.0


From 2574a6d5793c6b60499f71dc4b719cb87310b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 21/58] fix: object_pool hands out an object that is being
 finalised

---
 Awl/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..138e680 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,9 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
                 p->Finalize();
+                //It becomes available only now, because Finalize() can use the pool.
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From 3857e47fd12e9673020c6ac416d6f6f401cee83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 22/58] fix: moving a released scope_guard engages it again

---
 Awl/ScopeGuard.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..ce7c3fc 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,17 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(std::exchange(other.engaged, false))
         {
-            other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                free = std::move(other.free);
+                engaged = std::exchange(other.engaged, false);
+            }
             return *this;
         }
 
-- 
2.43.0


From 5c9d8229f1884cf08caed80158938a4a6b1b6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 23/58] fix: self-move-assignment of unique_ptr deletes the
 object

---
 Awl/UniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..2bdab87 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,7 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From b5db32f9c1e3c9419c5d73933bc8d6ab8d317a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 24/58] fix: self-move-assignment of an Observable unsubscribes
 all its observers

---
 Awl/Observable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/Observable.h b/Awl/Observable.h
index 7b1448f..21d68da 100644
--- a/Awl/Observable.h
+++ b/Awl/Observable.h
@@ -76,8 +76,12 @@ namespace awl
 
         Observable& operator = (Observable&& other) noexcept
         {
-            ClearObservers();
-            Observers = std::move(other.Observers);
+            if (this != &other)
+            {
+                ClearObservers();
+                Observers = std::move(other.Observers);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 28d61f0fb0a4690065e0b8a5891ca6c80c48caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 25/58] fix: self-move-assignment of a vector_set deletes its
 elements

---
 Awl/VectorSet.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 2c863b3..8e589fd 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -287,13 +287,17 @@ namespace awl
 
         vector_set & operator = (vector_set && other) noexcept
         {
-            clear();
-            m_comp = std::move(other.m_comp);
-            m_alloc = std::move(other.m_alloc);
-            m_nodeAlloc = std::move(other.m_nodeAlloc);
-            m_root = std::move(other.m_root);
-            m_list = std::move(other.m_list);
-            other.m_root = nullptr;
+            if (this != &other)
+            {
+                clear();
+                m_comp = std::move(other.m_comp);
+                m_alloc = std::move(other.m_alloc);
+                m_nodeAlloc = std::move(other.m_nodeAlloc);
+                m_root = std::move(other.m_root);
+                m_list = std::move(other.m_list);
+                other.m_root = nullptr;
+            }
+
             return *this;
         }
 
-- 
2.43.0


From fdcc3bcf740bc15b8adab00dad324313c16ba115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 26/58] fix: observable_set::emplace accepts the arguments of a
 constructor of the element

---
 Awl/ObservableSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 830b003..c4cb77d 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -157,7 +157,7 @@ namespace awl
         template <class... Args>
         std::pair<iterator, bool> emplace(Args&&... args)
         {
-            const std::pair<iterator, bool> result = m_set.insert(std::forward<Args>(args) ...);
+            const std::pair<iterator, bool> result = m_set.emplace(std::forward<Args>(args) ...);
             NotifyAdded(result);
             return result;
         }
-- 
2.43.0


From 5ab905856065e6a8dbc7562b41cb13022a8a9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 27/58] fix: observable_set::migrate does not notify of
 clearing an empty set

---
 Awl/ObservableSet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index c4cb77d..da593f5 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -94,7 +94,11 @@ namespace awl
         {
             clear();
 
-            other.NotifyClearing();
+            if (!other.m_set.empty())
+            {
+                other.NotifyClearing();
+            }
+
             m_set = std::move(other.m_set);
             other.m_set.clear();
 
-- 
2.43.0


From 7fcd967f0b4957ef49f921e594910bde81084ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 28/58] fix: self-move-assignment of observable_set notifies of
 clearing a set that is not cleared

---
 Awl/ObservableSet.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index da593f5..1e9afe4 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -78,13 +78,16 @@ namespace awl
         //so with move assignment one set becomes another set with its content and subscribers.
         observable_set& operator = (observable_set&& other) noexcept
         {
-            if (!m_set.empty())
+            if (this != &other)
             {
-                NotifyClearing();
-            }
+                if (!m_set.empty())
+                {
+                    NotifyClearing();
+                }
 
-            m_set = std::move(other.m_set);
-            m_observable = std::move(other.m_observable);
+                m_set = std::move(other.m_set);
+                m_observable = std::move(other.m_observable);
+            }
 
             return *this;
         }
-- 
2.43.0


From 011a23f51d41e8b0a0f3f7e9acca8680b5e9a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 29/58] fix: decimal addition, subtraction and multiplication
 throw when the result does not fit

---
 Awl/Decimal.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..54c98ee 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -17,6 +17,7 @@
 #include <array>
 #include <cmath>
 #include <tuple>
+#include <stdexcept>
 
 namespace awl
 {
@@ -129,13 +130,14 @@ namespace awl
         {
             if (val >= 0)
             {
+                set_unsigned_mantissa(static_cast<UInt>(val));
                 m_data.set_positive(true);
-                m_data.set_man(static_cast<UInt>(val));
             }
             else
             {
+                //The smallest Int does not have a positive counterpart.
+                set_unsigned_mantissa(static_cast<UInt>(-(val + 1)) + 1u);
                 m_data.set_positive(false);
-                m_data.set_man(static_cast<UInt>(-val));
             }
         }
         
@@ -146,6 +148,11 @@ namespace awl
 
         constexpr void set_unsigned_mantissa(UInt val)
         {
+            if (val > max_mantissa())
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             m_data.set_man(val);
         }
 
@@ -842,9 +849,24 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        const UInt a_man = a.unsigned_mantissa();
+        const UInt b_man = b.unsigned_mantissa();
+
+        if ((a_man != 0 && b_man > Decimal::max_mantissa() / a_man) || a.exponent() + b.exponent() > Decimal::max_exponent())
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(a.exponent() + b.exponent());
 
-        c.set_mantissa(a.mantissa() * b.mantissa());
+        c.set_unsigned_mantissa(a_man * b_man);
+
+        if (a.positive() != b.positive())
+        {
+            c.negate();
+        }
 
         return c;
     }
-- 
2.43.0


From f1ceab3e67096411397c9baa860742ef2b778e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 30/58] fix: conversion of a number to decimal throws when it
 does not fit and is exact for integers

---
 Awl/Decimal.h | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 54c98ee..b22f4fe 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -180,7 +180,19 @@ namespace awl
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
             //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(static_cast<Int>(val * static_cast<double>(denominator())));
+            const auto man = val * static_cast<double>(denominator());
+
+            if constexpr (std::is_integral_v<Float>)
+            {
+                check_range(man);
+
+                //A double can't hold all the digits of an integer.
+                set_mantissa(static_cast<Int>(val) * static_cast<Int>(denominator()));
+            }
+            else
+            {
+                assign_mantissa(man);
+            }
 
             return *this;
         }
@@ -411,7 +423,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::llround(val * static_cast<double>(d.denominator()))));
+            d.assign_mantissa(std::round(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -428,7 +440,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::ceil(val * static_cast<double>(d.denominator()))));
+            d.assign_mantissa(std::ceil(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -445,7 +457,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::floor(val * static_cast<double>(d.denominator()))));
+            d.assign_mantissa(std::floor(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -465,6 +477,27 @@ namespace awl
 
     private:
 
+        //Conversion of a floating point value that is out of range to Int is undefined behavior. NaN is also out of range.
+        template <class Float>
+        static constexpr void check_range(Float val)
+        {
+            //The fraction is going to be truncated.
+            const Float max = static_cast<Float>(max_mantissa()) + 1;
+
+            if (!(-max <= val && val <= max))
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+        }
+
+        template <class Float>
+        constexpr void assign_mantissa(Float val)
+        {
+            check_range(val);
+
+            set_mantissa(static_cast<Int>(val));
+        }
+
         //If check==false losing precision (trimming) is allowed.
         constexpr void rescale_self(uint8_t digits, bool check = true)
         {
-- 
2.43.0


From fdce7001614d3c30e9d79231ac023d163d06e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 31/58] fix: decimal::from_string rejects a string without
 digits and one with too many zeros

---
 Awl/Decimal.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index b22f4fe..b4acde7 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -724,7 +724,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
@@ -735,6 +735,11 @@ namespace awl
             fixed_string = make_string_view<C>(i, fixed_string.end());
         }
 
+        if (fixed_string.empty() || (fixed_string.size() == 1 && fixed_string.front() == '.'))
+        {
+            throw std::logic_error("There are no digits in a decimal string.");
+        }
+
         auto [i, int_digits, int_part] = parse_int(fixed_string, true);
 
         string_view fractional_text = make_string_view<C>(i, fixed_string.end());
@@ -808,20 +813,20 @@ namespace awl
     {
         uint8_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        size_t zero_count = 0;
 
         UInt val = 0;
 
         auto do_append = [&digit_count, &val](UInt digit)
         {
-            val = val * 10u + digit;
-
             //It does not make a sense to parse a string longer than the mantissa.
-            if (val > max_mantissa())
+            if (val > (max_mantissa() - digit) / 10u || digit_count == std::numeric_limits<uint8_t>::max())
             {
                 throw std::logic_error("A decimal string is too long.");
             }
 
+            val = val * 10u + digit;
+
             ++digit_count;
         };
 
@@ -846,7 +851,7 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    for (size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From fcd3dcecff30155b1a6a1a2c44cd84e45be1912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 32/58] fix: decimal zero equals negative zero

---
 Awl/Decimal.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index b4acde7..ca5a311 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -207,7 +207,8 @@ namespace awl
                 return a.m_data.exp() == b.m_data.exp() && a.m_data.man() == b.m_data.man();
             }
             
-            return false;
+            //0 == -0
+            return m_data.man() == 0 && other.m_data.man() == 0;
         }
 
         bool operator != (const decimal& other) const
@@ -604,21 +605,19 @@ namespace awl
         template <class Comp>
         static constexpr bool compare(const decimal& a, const decimal& b, Comp comp)
         {
-            if (a.negative() && b.negative())
-            {
-                return compare_positive(b, a, comp);
-            }
+            //-0 is not less than 0.
+            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() || data.man() == 0 ? 0 : 1; };
+
+            const uint8_t a_sign = make_sign(a.m_data);
+            const uint8_t b_sign = make_sign(b.m_data);
 
-            if (a.positive() && b.positive())
+            if (a_sign != b_sign)
             {
-                return compare_positive(a, b, comp);
+                //1 < 0
+                return comp(b_sign, a_sign);
             }
 
-            //1 < 0
-
-            auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
-            
-            return comp(make_sign(b.m_data), make_sign(a.m_data));
+            return a_sign != 0 ? compare_positive(b, a, comp) : compare_positive(a, b, comp);
         }
 
         template <class Comp>
-- 
2.43.0


From cfa1d4b42c0b7d255b522b6022caf2e89d2bcfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 33/58] fix: floor and ceil of a negative decimal

---
 Awl/Decimal.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index ca5a311..e40de09 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -389,13 +389,15 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            awl::decimal temp = *this;
+            positive() ? temp.trim_self(digits, false) : temp.round_up_self(digits);
+            return temp;
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
             awl::decimal temp = *this;
-            temp.ceil_self(digits);
+            positive() ? temp.round_up_self(digits) : temp.trim_self(digits, false);
             return temp;
         }
 
@@ -559,7 +561,8 @@ namespace awl
             }
         }
 
-        constexpr void ceil_self(uint8_t digits)
+        //Rounds away from zero.
+        constexpr void round_up_self(uint8_t digits)
         {
             if (digits < m_data.exp())
             {
-- 
2.43.0


From c9b5d03e92c068cc848ed45340b3a99827a0d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 34/58] fix: decimal does not accept more digits than its
 denominator has

---
 Awl/DecimalConstants.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalConstants.h b/Awl/DecimalConstants.h
index 7233ba0..08e8eaa 100644
--- a/Awl/DecimalConstants.h
+++ b/Awl/DecimalConstants.h
@@ -29,9 +29,17 @@ namespace awl
                 return static_cast<UInt>(1) << n;
             }
 
+            //The denominator should fit in UInt.
             static constexpr UInt max_exp()
             {
-                return p2(exp_len) - 1;
+                UInt e = 0;
+
+                for (UInt max_denom = std::numeric_limits<UInt>::max() / 10; max_denom != 0 && e != p2(exp_len) - 1; max_denom /= 10)
+                {
+                    ++e;
+                }
+
+                return e;
             }
 
             static constexpr UInt max_man()
-- 
2.43.0


From e14ccc55f0270ee12f211fbc4b801d35012a3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 35/58] fix: casting decimal to an integer type does not
 truncate its mantissa

---
 Awl/Decimal.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index e40de09..71a9fe2 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -93,7 +93,17 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, Float> cast() const
         {
-            return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //Neither Float nor double can hold every mantissa.
+                const Int int_part = static_cast<Int>(unsigned_mantissa() / denominator());
+
+                return static_cast<Float>(positive() ? int_part : -int_part);
+            }
+            else
+            {
+                return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            }
         }
 
         //IEEE 754 double stores 2^53 without losing precision that is 15 decimal digits,
-- 
2.43.0


From f00f53f76bbdf317b0b1ff80f23ec31c4e80c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 36/58] fix: decimal_to_nanoseconds reports the values that are
 not a number of nanoseconds

---
 Awl/DecimalTime.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Awl/DecimalTime.h b/Awl/DecimalTime.h
index 8c790b5..ca08edf 100644
--- a/Awl/DecimalTime.h
+++ b/Awl/DecimalTime.h
@@ -19,6 +19,15 @@ namespace awl
         //typename Duration::rep rep = dum_dec.mantissa() / Duration::rep::num;
         //return Duration(static_cast<typename Duration::rep>(dec.extend(9).mantissa()));
 
-        return std::chrono::nanoseconds(static_cast<std::chrono::nanoseconds::rep>(dec.extend(9).mantissa()));
+        using Rep = std::chrono::nanoseconds::rep;
+
+        const auto man = dec.rescale(9).mantissa();
+
+        if (man < std::numeric_limits<Rep>::min() || man > std::numeric_limits<Rep>::max())
+        {
+            throw std::logic_error("The decimal is too large to be converted to nanoseconds.");
+        }
+
+        return std::chrono::nanoseconds(static_cast<Rep>(man));
     }
 }
-- 
2.43.0


From 9acecaa75b25fce7f954c4f52e189c98044c783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 37/58] fix: writing a decimal does not change the fill
 character of the stream

---
 Awl/Decimal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 71a9fe2..5cabbb7 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -812,7 +812,11 @@ namespace awl
 
         if (d.exponent() != 0)
         {
-            out << "." << std::setfill(static_cast<C>('0')) << std::setw(d.exponent()) << fractional_part;
+            const C fill = out.fill(static_cast<C>('0'));
+
+            out << "." << std::setw(d.exponent()) << fractional_part;
+
+            out.fill(fill);
         }
 
         return out;
-- 
2.43.0


From 96b334058285449d997d0b6b4b227312957141b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 38/58] fix: reading an absent optional value or a null pointer
 resets the target

Otherwise the target kept the value it had before.
---
 Awl/Io/Rw/OptionalReadWrite.h |  4 ++++
 Awl/Io/Rw/PointerReadWrite.h  | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..0e983da 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -26,7 +26,11 @@ namespace awl::io
 
             Read(s, val, ctx);
 
-            p = std::make_shared<T>(val);
+            p = std::make_shared<T>(std::move(val));
+        }
+        else
+        {
+            p.reset();
         }
     }
 
@@ -58,7 +62,11 @@ namespace awl::io
 
             Read(s, val, ctx);
 
-            p = std::make_unique<T>(val);
+            p = std::make_unique<T>(std::move(val));
+        }
+        else
+        {
+            p.reset();
         }
     }
 
-- 
2.43.0


From a3c0cf02007b98c2d572370e78b6e1f330e0ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 39/58] fix: reading a collection replaces its elements

The elements a set, map, deque or ring held before it was read remained in it.
---
 Awl/Io/Rw/CollectionReadWrite.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..4a7a935 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,13 +35,15 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
 
             Read(s, elem, ctx);
 
-            coll.insert(elem);
+            coll.insert(std::move(elem));
         }
     }
 
@@ -53,13 +55,19 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        //awl::ring that is empty can have no buffer.
+        if (!coll.empty())
+        {
+            coll.clear();
+        }
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
 
             Read(s, elem, ctx);
 
-            coll.push_back(elem);
+            coll.push_back(std::move(elem));
         }
     }
 
@@ -72,6 +80,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
@@ -80,7 +90,7 @@ namespace awl::io
             typename Coll::mapped_type value;
             Read(s, value, ctx);
 
-            coll.insert(std::make_pair(key, value));
+            coll.insert(std::make_pair(std::move(key), std::move(value)));
         }
     }
 
-- 
2.43.0


From 6e427e8487690f7594e5f89f77a4a6fddf0fdbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 40/58] fix: reading an empty vector from a hash stream passed
 a null pointer to memcpy

---
 Awl/Io/HashStream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 03d029a..65beefb 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -108,7 +108,11 @@ namespace awl
 
                     const size_t write_count = std::min(available_count, remaining_count);
 
-                    std::memcpy(buffer + flushed_count, static_cast<const uint8_t *>(&(*m_i)), write_count);
+                    //Do not call std::memcpy with a null buffer when nothing is requested.
+                    if (write_count != 0)
+                    {
+                        std::memcpy(buffer + flushed_count, static_cast<const uint8_t *>(&(*m_i)), write_count);
+                    }
 
                     m_i += write_count;
 
-- 
2.43.0


From 9cf07c050be76c17f7124062247019a92e8135a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 41/58] fix: a damaged length of a string or vector caused a
 huge allocation instead of an I/O exception

The container is now grown as its elements are read, so the end of the data is found before the memory is exhausted.
---
 Awl/Io/Rw/ReadRaw.h         | 32 ++++++++++++++++++++++++++++++
 Awl/Io/Rw/StringReadWrite.h | 14 ++++++-------
 Awl/Io/Rw/VectorReadWrite.h | 39 +++++++++++++++++++++++++++++++++++--
 3 files changed, 76 insertions(+), 9 deletions(-)

diff --git a/Awl/Io/Rw/ReadRaw.h b/Awl/Io/Rw/ReadRaw.h
index 227e9c7..86d5bb8 100644
--- a/Awl/Io/Rw/ReadRaw.h
+++ b/Awl/Io/Rw/ReadRaw.h
@@ -9,6 +9,8 @@
 #include "Awl/Io/SerializationContext.h"
 #include "Awl/Io/SequentialStream.h"
 
+#include <algorithm>
+#include <cassert>
 #include <cstdint>
 
 namespace awl::io
@@ -29,4 +31,34 @@ namespace awl::io
             throw EndOfFileException(count, actually_read);
         }
     }
+
+    //The count of the elements comes from the stream and can be corrupted, so a container grows in steps of this size
+    //(in bytes) while its elements are being read.
+    inline constexpr size_t maxReadStep = 64 * 1024;
+
+    template <class T>
+    constexpr size_t GetReadStep()
+    {
+        return sizeof(T) < maxReadStep ? maxReadStep / sizeof(T) : 1;
+    }
+
+    template <class Stream, class Container>
+        requires sequential_input_stream<Stream>
+    void ReadRawInSteps(Stream & s, Container & v, size_t size)
+    {
+        using T = typename Container::value_type;
+
+        for (size_t pos = 0; pos < size;)
+        {
+            const size_t count = std::min(size - pos, GetReadStep<T>());
+
+            v.resize(pos + count);
+
+            ReadRaw(s, reinterpret_cast<uint8_t *>(v.data() + pos), count * sizeof(T));
+
+            pos += count;
+        }
+
+        v.resize(size);
+    }
 }
diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..04f4125 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -9,6 +9,7 @@
 #include "Awl/Io/IoException.h"
 #include "Awl/StringFormat.h"
 
+#include <limits>
 #include <string>
 #include <type_traits>
 
@@ -45,16 +46,15 @@ namespace awl::io
 
         Read(s, len, ctx);
 
-        const size_t string_length = len * sizeof(Char);
-
-        CheckStringLimit(ctx, string_length);
+        if (len > std::numeric_limits<size_t>::max() / sizeof(Char))
+        {
+            throw CorruptionException();
+        }
 
-        val.resize(len);
+        CheckStringLimit(ctx, len * sizeof(Char));
 
         //There is non-const version of data() since C++ 17.
-        ReadRaw(s, reinterpret_cast<uint8_t *>(val.data()), string_length);
-
-        *(val.data() + len) = 0;
+        ReadRawInSteps(s, val, len);
     }
 
     template<
diff --git a/Awl/Io/Rw/VectorReadWrite.h b/Awl/Io/Rw/VectorReadWrite.h
index 304667f..8df6a81 100644
--- a/Awl/Io/Rw/VectorReadWrite.h
+++ b/Awl/Io/Rw/VectorReadWrite.h
@@ -99,9 +99,44 @@ namespace awl::io
 
         Read(s, size, ctx);
 
-        v.resize(size);
+        if constexpr (std::is_same_v<T, bool>)
+        {
+            v.clear();
 
-        ReadVector(s, v, ctx);
+            while (v.size() != size)
+            {
+                uint8_t aggr;
+
+                Read(s, aggr, ctx);
+
+                for (uint8_t mask = 1; mask > 0 && v.size() != size; mask <<= 1)
+                {
+                    v.push_back((aggr & mask) != 0);
+                }
+            }
+        }
+        else if constexpr (std::is_arithmetic_v<T>)
+        {
+            ReadRawInSteps(s, v, size);
+        }
+        else
+        {
+            if (v.size() > size)
+            {
+                v.resize(size);
+            }
+
+            //The size can be corrupted, so the vector grows while its elements are being read.
+            for (size_t i = 0; i != size; ++i)
+            {
+                if (i == v.size())
+                {
+                    v.emplace_back();
+                }
+
+                Read(s, v[i], ctx);
+            }
+        }
     }
 
     template <class Stream, class T, class Allocator = std::allocator<T>, class Context = FakeContext>
-- 
2.43.0


From 5f9894736ab75ec4ad8805dda34e4ded4c8f9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 42/58] fix: a damaged index of a variant alternative was used
 without a check

---
 Awl/Io/Rw/VariantReadWrite.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..da05400 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -7,6 +7,7 @@
 
 #include "Awl/Io/Rw/ReadRaw.h"
 #include "Awl/TupleHelpers.h"
+#include "Awl/Io/IoException.h"
 
 #include <variant>
 #include <type_traits>
@@ -33,7 +34,7 @@ namespace awl::io
                 
                 T val;
                 Read(in, val, ctx);
-                v = val;
+                v = std::move(val);
             }
         };
 
@@ -55,7 +56,10 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From af105654092af6cd398c9aafb72f84567cad4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 43/58] fix: a damaged structure index was used without a check

---
 Awl/Io/Reader.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..3cbde0e 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -338,7 +338,12 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
+
             return index;
         }
 
-- 
2.43.0


From 54cfe26a0e3b49b072d310a0c611f6a7872f0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 44/58] fix: a damaged exponent of a decimal was accepted

---
 Awl/Io/Rw/DecimalReadWrite.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/DecimalReadWrite.h b/Awl/Io/Rw/DecimalReadWrite.h
index f74a4d9..2248d6b 100644
--- a/Awl/Io/Rw/DecimalReadWrite.h
+++ b/Awl/Io/Rw/DecimalReadWrite.h
@@ -21,7 +21,15 @@ namespace awl::io
 
         Read(s, val, ctx);
 
-        d = Decimal::from_bits(val);
+        const Decimal result = Decimal::from_bits(val);
+
+        //The exponent can have more values than there are digits.
+        if (result.exponent() > Decimal::max_exponent())
+        {
+            throw CorruptionException();
+        }
+
+        d = result;
     }
 
     template <class Stream, typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate, class Context = FakeContext>
-- 
2.43.0


From c51b408250cd42e2396290ffab45a0939ceed7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 45/58] fix: fields added to a structure had indeterminate
 values when it was read as an element of a collection

They are value-initialized, as they are in VersionTolerantSerializable and std::vector.
---
 Awl/Io/Rw/CollectionReadWrite.h | 8 ++++----
 Awl/Io/Rw/OptionalReadWrite.h   | 2 +-
 Awl/Io/Rw/PointerReadWrite.h    | 4 ++--
 Awl/Io/Rw/VariantReadWrite.h    | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index 4a7a935..097f8b2 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -39,7 +39,7 @@ namespace awl::io
 
         for (size_t i = 0; i < count; ++i)
         {
-            typename Coll::value_type elem;
+            typename Coll::value_type elem{};
 
             Read(s, elem, ctx);
 
@@ -63,7 +63,7 @@ namespace awl::io
 
         for (size_t i = 0; i < count; ++i)
         {
-            typename Coll::value_type elem;
+            typename Coll::value_type elem{};
 
             Read(s, elem, ctx);
 
@@ -84,10 +84,10 @@ namespace awl::io
 
         for (size_t i = 0; i < count; ++i)
         {
-            typename Coll::key_type key;
+            typename Coll::key_type key{};
             Read(s, key, ctx);
 
-            typename Coll::mapped_type value;
+            typename Coll::mapped_type value{};
             Read(s, value, ctx);
 
             coll.insert(std::make_pair(std::move(key), std::move(value)));
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index 9d37424..9f385e3 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -22,7 +22,7 @@ namespace awl::io
 
         if (has_value)
         {
-            T val;
+            T val{};
 
             Read(s, val, ctx);
 
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index 0e983da..e83ddd0 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -22,7 +22,7 @@ namespace awl::io
 
         if (has_value)
         {
-            T val;
+            T val{};
 
             Read(s, val, ctx);
 
@@ -58,7 +58,7 @@ namespace awl::io
 
         if (has_value)
         {
-            T val;
+            T val{};
 
             Read(s, val, ctx);
 
diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index da05400..dc9126b 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -32,7 +32,7 @@ namespace awl::io
             {
                 using T = std::variant_alternative_t<index, V>;
                 
-                T val;
+                T val{};
                 Read(in, val, ctx);
                 v = std::move(val);
             }
-- 
2.43.0


From 3f441a1a7e8f19cfc544a7e2a5610964e04f534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 46/58] fix: a deleted field was skipped as a field of another
 type with the same name

---
 Awl/Io/Reader.h               | 38 ++++++++++++++++++++++++++++++++++-
 Awl/Io/Rw/EnumReadWrite.h     |  6 +++++-
 Awl/Io/SerializationContext.h |  7 +++++++
 3 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 3cbde0e..7ddfdc5 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -56,6 +56,42 @@ namespace awl::io
             }
         };
 
+        //The type of a skipped field is found by its name, and the names of vector<A> and vector<B>, for example, are equal,
+        //so the structures inside the field are skipped by their prototypes.
+        class SkipContext
+        {
+        public:
+
+            using SkippingTag = void;
+
+            explicit SkipContext(const Reader & r) : reader(r) {}
+
+            template <class T>
+            void ReadV(InputStream & in, T & val) const
+            {
+                if constexpr (is_reflectable_v<T>)
+                {
+                    static_cast<void>(val);
+                    reader.SkipStruct(in);
+                }
+                else if constexpr (is_tuplizable_v<T>)
+                {
+                    for_each(object_as_tuple(val), [this, &in](auto & field_val)
+                    {
+                        ReadV(in, field_val);
+                    });
+                }
+                else
+                {
+                    Read(in, val, *this);
+                }
+            }
+
+        private:
+
+            const Reader & reader;
+        };
+
         struct FieldSkipper
         {
             virtual void SkipField(const Reader & context, InputStream & in) const = 0;
@@ -70,7 +106,7 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext(context).ReadV(in, val);
             }
         };
 
diff --git a/Awl/Io/Rw/EnumReadWrite.h b/Awl/Io/Rw/EnumReadWrite.h
index b0f4cc4..4c12947 100644
--- a/Awl/Io/Rw/EnumReadWrite.h
+++ b/Awl/Io/Rw/EnumReadWrite.h
@@ -68,7 +68,11 @@ namespace awl::io
     {
         ReadEnum(s, val, ctx);
 
-        ValidateEnum(val);
+        //A skipped value is not necessarily a value of this enum (the names of an enum and its underlying type are equal).
+        if constexpr (!skipping_context<Context>)
+        {
+            ValidateEnum(val);
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/SerializationContext.h b/Awl/Io/SerializationContext.h
index 92c8020..0248099 100644
--- a/Awl/Io/SerializationContext.h
+++ b/Awl/Io/SerializationContext.h
@@ -27,6 +27,13 @@ namespace awl::io
         { std::as_const(t).WriteV(std::declval<Stream&>(), std::declval<const Val&>()) } -> std::same_as<void>;
     };
 
+    //The value is read to be thrown away.
+    template <class T>
+    concept skipping_context = requires
+    {
+        typename T::SkippingTag;
+    };
+
     class FakeContext
     {
     };
-- 
2.43.0


From 529e89e882c1b1ee7afc175c497fe648d89b724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 47/58] fix: skipping a deleted field of awl::ring type wrote
 to a null pointer

---
 Awl/Io/Rw/CollectionReadWrite.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index 097f8b2..8294fef 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -67,7 +67,15 @@ namespace awl::io
 
             Read(s, elem, ctx);
 
-            coll.push_back(std::move(elem));
+            if constexpr (skipping_context<Context>)
+            {
+                //awl::ring that is default constructed has no room.
+                static_cast<void>(coll);
+            }
+            else
+            {
+                coll.push_back(std::move(elem));
+            }
         }
     }
 
-- 
2.43.0


From 0cacc41544fbabf3d567987f5e4f129812cd01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 48/58] fix: a hash stream cut in the middle of a block could
 be read as a block without data

---
 Awl/Io/HashStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 65beefb..12873f4 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -66,7 +66,8 @@ namespace awl
                     {
                         assert(actually_read <= blockSize);
 
-                        if (actually_read < Hash::size())
+                        //There are no blocks without data.
+                        if (actually_read <= Hash::size())
                         {
                             throw CorruptionException();
                         }
-- 
2.43.0


From 70982ea312b29ec4eb130cee8c795f1888137847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 49/58] fix: a hash stream returned unverified bytes after it
 reported a corrupted block

---
 Awl/Io/HashStream.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 12873f4..fb3239e 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -53,14 +53,19 @@ namespace awl
             {
                 if (m_i == m_block.end())
                 {
-                    m_block.resize(blockSize);
+                    //If the block cannot be read or is corrupted its bytes should not be returned.
+                    std::vector<uint8_t> block;
+                    block.swap(m_block);
+                    m_i = m_block.end();
 
-                    const size_t actually_read = m_in.Read(m_block.data(), blockSize);
+                    block.resize(blockSize);
+
+                    const size_t actually_read = m_in.Read(block.data(), blockSize);
 
                     if (actually_read == 0)
                     {
                         //Nothing to read, we are at the end of the file.
-                        m_block.clear();
+                        block.clear();
                     }
                     else
                     {
@@ -72,27 +77,28 @@ namespace awl
                             throw CorruptionException();
                         }
 
-                        m_block.resize(actually_read);
+                        block.resize(actually_read);
 
                         typename Hash::value_type read_val;
 
-                        auto hash_begin = m_block.begin() + actually_read - Hash::size();
+                        auto hash_begin = block.begin() + actually_read - Hash::size();
 
                         for (size_t i = 0; i != read_val.size(); ++i)
                         {
                             read_val[i] = *(hash_begin + i);
                         }
 
-                        auto calculated_val = m_hash(m_block.begin(), hash_begin);
+                        auto calculated_val = m_hash(block.begin(), hash_begin);
 
                         if (calculated_val != read_val)
                         {
                             throw CorruptionException();
                         }
 
-                        m_block.resize(actually_read - Hash::size());
+                        block.resize(actually_read - Hash::size());
                     }
 
+                    m_block.swap(block);
                     m_i = m_block.begin();
                 }
             }
-- 
2.43.0


From fa913ff800d5027115b9c294a932569fcfe0107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 50/58] fix: an update task released after it had completed was
 never destroyed

---
 Awl/Coro/UpdateTask.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Awl/Coro/UpdateTask.h b/Awl/Coro/UpdateTask.h
index 423a71f..5a2ef30 100644
--- a/Awl/Coro/UpdateTask.h
+++ b/Awl/Coro/UpdateTask.h
@@ -146,9 +146,17 @@ namespace awl
     {
         if (m_h)
         {
-            m_h.promise().m_owned = false;
+            if (m_h.done())
+            {
+                // The coroutine has already reached its final suspend point and cannot destroy itself.
+                free();
+            }
+            else
+            {
+                m_h.promise().m_owned = false;
 
-            m_h = nullptr;
+                m_h = nullptr;
+            }
         }
     }
 
-- 
2.43.0


From 4d4775c946743f2cc03eb5288d4ecdccca3608f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 51/58] fix: the time queue of the tests resumed the latest
 coroutine first

---
 Awl/Testing/TimeQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/TimeQueue.h b/Awl/Testing/TimeQueue.h
index 5cee5f5..7b2bef9 100644
--- a/Awl/Testing/TimeQueue.h
+++ b/Awl/Testing/TimeQueue.h
@@ -10,6 +10,7 @@
 #include <coroutine>
 
 #include "Awl/KeyCompare.h"
+#include "Awl/ReverseCompare.h"
 
 namespace awl::testing
 {
@@ -49,7 +50,8 @@ namespace awl::testing
             std::coroutine_handle<> handle;
         };
 
-        using Compare = member_compare<&Task::targetTime>;
+        // std::priority_queue keeps the greatest element on the top, but the earliest task should run first.
+        using Compare = ReverseCompare<Task, member_compare<&Task::targetTime>>;
 
         std::priority_queue<Task, std::vector<Task>, Compare> m_tasks;
     };
-- 
2.43.0


From 44fc8e259e15e46bcda145db6cb92bb1316b5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 52/58] fix: a 128-bit integer wider than the field width was
 printed with extra fill characters

---
 Awl/String.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..3c45317 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -410,17 +410,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
-- 
2.43.0


From c522fbf53bdac9345806a2964b180189aaa26e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 53/58] fix: printing the least 128-bit integer was a signed
 overflow

---
 Awl/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/String.h b/Awl/String.h
index 3c45317..4a4343a 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -453,7 +453,8 @@ namespace awl
         {
             out << static_cast<C>('-');
 
-            return out << static_cast<__uint128_t>(-val);
+            // The absolute value of the least value is not representable as __int128_t.
+            return out << -static_cast<__uint128_t>(val);
         }
 
         return out << static_cast<__uint128_t>(val);
-- 
2.43.0


From 600843b44637d4ae0591c96a3a1975464cb68d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 54/58] fix: a test attribute of type unsigned int could not be
 greater than INT_MAX

---
 Awl/Testing/ScalarFormatter.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Awl/Testing/ScalarFormatter.h b/Awl/Testing/ScalarFormatter.h
index d33112b..97168dc 100644
--- a/Awl/Testing/ScalarFormatter.h
+++ b/Awl/Testing/ScalarFormatter.h
@@ -7,6 +7,8 @@
 
 #include "Awl/String.h"
 
+#include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace awl
@@ -62,7 +64,14 @@ namespace awl
 
             static void FromString(const String & s, unsigned int & val)
             {
-                val = static_cast<unsigned int>(std::stoi(s));
+                const long long wide_val = std::stoll(s);
+
+                if (wide_val < std::numeric_limits<int>::min() || wide_val > std::numeric_limits<unsigned int>::max())
+                {
+                    throw std::out_of_range("The value does not fit into unsigned int.");
+                }
+
+                val = static_cast<unsigned int>(wide_val);
             }
 
             static void FromString(const String & s, long & val)
-- 
2.43.0


From b17c750aca92777089de600561f55c1f30240eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 55/58] fix: the test program returned zero when a test failed
 and a non-zero code when all of them passed

---
 Awl/Testing/TestConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Awl/Testing/TestConsole.cpp b/Awl/Testing/TestConsole.cpp
index 7a743f1..0b1bbbc 100644
--- a/Awl/Testing/TestConsole.cpp
+++ b/Awl/Testing/TestConsole.cpp
@@ -83,7 +83,7 @@ namespace awl::testing
 
             awl::cout() << _T("Total ") << test_map->GetCount(f) << _T(" tests.") << std::endl;
 
-            return 0;
+            return true;
         }
 
         auto test_map = awl::testing::CreateTestMap();
@@ -134,7 +134,7 @@ namespace awl::testing
     {
         try
         {
-            return RunTests();
+            return RunTests() ? 0 : 1;
         }
         catch (const TestException& e)
         {
-- 
2.43.0


From 61323ac175fd3885ea32016b1b82904ad98f1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 56/58] fix: the test program reported success for a wrong
 command line

---
 Main/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Main/main.cpp b/Main/main.cpp
index d5e1162..96bff0c 100644
--- a/Main/main.cpp
+++ b/Main/main.cpp
@@ -22,4 +22,6 @@ int _tmain(int argc, awl::Char * argv[])
     {
         awl::cout() << e.What() << std::endl;
     }
+
+    return 2;
 }
-- 
2.43.0


From f932f63db9cbb91fd3c5439d974f88c35ca1296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 57/58] fix: round returned a wrong integer for negative
 numbers

---
 Awl/Math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/Math.h b/Awl/Math.h
index 467eb20..9f6a0f9 100644
--- a/Awl/Math.h
+++ b/Awl/Math.h
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <type_traits>
 #include <functional>
 
@@ -33,7 +34,7 @@ namespace awl::math
     template <class I, class F>
     inline typename std::enable_if<std::is_integral<I>::value && std::is_floating_point<F>::value, I>::type round(F f)
     {
-        return static_cast<I>(f + 0.5f);
+        return static_cast<I>(std::round(f));
     }
 
     //std::clamp in C++17 is a bit different, it is constexpr and returns const T&
-- 
2.43.0


From fe6ca5dc508efbd7b18ef6161fadbdde1c759234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:00 +0000
Subject: [PATCH 58/58] fix: pi of type long double had the precision of double

---
 Awl/Math.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Awl/Math.h b/Awl/Math.h
index 9f6a0f9..8571d7e 100644
--- a/Awl/Math.h
+++ b/Awl/Math.h
@@ -13,11 +13,11 @@ namespace awl::math
 {
     //Constants can be replaced with std::numbers in C++20.
 
-    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type pi() { return static_cast<T>(3.14159265358979323846); }
+    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type pi() { return static_cast<T>(3.14159265358979323846L); }
 
-    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type half_pi() { return static_cast<T>(1.57079632679489661923); }
+    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type half_pi() { return static_cast<T>(1.57079632679489661923L); }
 
-    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type quarter_pi() { return static_cast<T>(0.785398163397448309616); }
+    template <class T> constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type quarter_pi() { return static_cast<T>(0.785398163397448309616L); }
 
     template <class T>
     constexpr typename std::enable_if<std::is_floating_point<T>::value, T>::type degrees_to_radians(T rad)
-- 
2.43.0

