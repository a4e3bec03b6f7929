From 48ba4a249d1ea73d985fb41dc92c3c1dfc0f3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 01/46] fix: order objects whose ids differ only in sign

---
 include/osmium/osm/area.hpp     | 2 ++
 include/osmium/osm/node.hpp     | 2 ++
 include/osmium/osm/relation.hpp | 2 ++
 include/osmium/osm/way.hpp      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..a8e0384 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -137,6 +137,8 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..695d161 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,8 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..74383e6 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,8 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..fccea1d 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,8 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (std::abs(lhs.id()) == std::abs(rhs.id())) {
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From e38dc41088e2b7af480ce514e4749905b6803405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 02/46] fix: ignore positions without coordinates when
 extending bounds

---
 include/osmium/osm/bounds.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..1ec1b76 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -38,6 +38,9 @@ namespace Osmium {
             }
 
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From 4a06eb4e7835fccc9f363f8119a2a73260639c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 03/46] fix: reject timestamps followed by other characters

---
 include/osmium/utils/timestamp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/utils/timestamp.hpp b/include/osmium/utils/timestamp.hpp
index 49be3e9..4d95d20 100644
--- a/include/osmium/utils/timestamp.hpp
+++ b/include/osmium/utils/timestamp.hpp
@@ -73,7 +73,8 @@ namespace Osmium {
         inline time_t parse_iso(const char* timestamp) {
 #ifndef WIN32
             struct tm tm = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
-            if (strptime(timestamp, timestamp_format(), &tm) == NULL) {
+            const char* end = strptime(timestamp, timestamp_format(), &tm);
+            if (end == NULL || *end != '\0') {
                 throw std::invalid_argument("can't parse timestamp");
             }
             return timegm(&tm);
-- 
2.43.0


From cd58681df04d18e84d51b1487a7a2ba38e3973bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 04/46] fix: do not add a relation member whose role is
 rejected

---
 include/osmium/osm/relation_member_list.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/osmium/osm/relation_member_list.hpp b/include/osmium/osm/relation_member_list.hpp
index df8c2be..6df1d06 100644
--- a/include/osmium/osm/relation_member_list.hpp
+++ b/include/osmium/osm/relation_member_list.hpp
@@ -74,15 +74,13 @@ namespace Osmium {
             }
 
             void add_member(const char type, osm_object_id_t ref, const char* role) {
-                /* first we resize the vector... */
-                m_list.resize(m_list.size()+1);
-                /* ...and get an address for the new element... */
-                RelationMember* m = &m_list[m_list.size()-1];
-                /* ...so that we can directly write into the memory and avoid
-                a second copy */
-                m->type(type);
-                m->ref(ref);
-                m->role(role);
+                /* set up the new element completely before it is added,
+                because role() throws if the role is too long */
+                RelationMember m;
+                m.type(type);
+                m.ref(ref);
+                m.role(role);
+                m_list.push_back(m);
             }
 
         private:
-- 
2.43.0


From d8a7ac1f8d2de05e178b8221221509fa45b0c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 05/46] fix: do not extract versions that ended when the
 requested period begins

---
 include/osmium/handler/range_from_history.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/handler/range_from_history.hpp b/include/osmium/handler/range_from_history.hpp
index d7ee164..784a999 100644
--- a/include/osmium/handler/range_from_history.hpp
+++ b/include/osmium/handler/range_from_history.hpp
@@ -47,19 +47,19 @@ namespace Osmium {
             }
 
             void node(const shared_ptr<Osmium::OSM::Node>& node) {
-                if ((node->endtime() == 0 || node->endtime() >= m_from) && node->timestamp() <= m_to) {
+                if ((node->endtime() == 0 || node->endtime() > m_from) && node->timestamp() <= m_to) {
                     Forward<THandler>::next_handler().node(node);
                 }
             }
 
             void way(const shared_ptr<Osmium::OSM::Way>& way) {
-                if ((way->endtime() == 0 || way->endtime() >= m_from) && way->timestamp() <= m_to) {
+                if ((way->endtime() == 0 || way->endtime() > m_from) && way->timestamp() <= m_to) {
                     Forward<THandler>::next_handler().way(way);
                 }
             }
 
             void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
-                if ((relation->endtime() == 0 || relation->endtime() >= m_from) && relation->timestamp() <= m_to) {
+                if ((relation->endtime() == 0 || relation->endtime() > m_from) && relation->timestamp() <= m_to) {
                     Forward<THandler>::next_handler().relation(relation);
                 }
             }
-- 
2.43.0


From 9997f7590d028fc9d514cf3898cfbef7eecae7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 06/46] fix: return empty value for unknown ids and clear items
 in StlMap storage

---
 include/osmium/storage/byid/stl_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/stl_map.hpp b/include/osmium/storage/byid/stl_map.hpp
index 1b43f48..c5636c6 100644
--- a/include/osmium/storage/byid/stl_map.hpp
+++ b/include/osmium/storage/byid/stl_map.hpp
@@ -53,7 +53,11 @@ namespace Osmium {
                 }
 
                 const TValue operator[](const uint64_t id) const {
-                    return m_items.at(id);
+                    const typename std::map<uint64_t, TValue>::const_iterator it = m_items.find(id);
+                    if (it == m_items.end()) {
+                        return TValue(); // nothing found
+                    }
+                    return it->second;
                 }
 
                 uint64_t size() const {
@@ -65,6 +69,7 @@ namespace Osmium {
                 }
 
                 void clear() {
+                    m_items.clear();
                 }
 
             private:
-- 
2.43.0


From 1d19630183afd90fd58c8490db3fd8e604551320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 07/46] fix: return the last value set for an id from Vector
 storage

---
 include/osmium/storage/byid/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/byid/vector.hpp b/include/osmium/storage/byid/vector.hpp
index f28376b..42e017c 100644
--- a/include/osmium/storage/byid/vector.hpp
+++ b/include/osmium/storage/byid/vector.hpp
@@ -84,11 +84,12 @@ namespace Osmium {
 
                 const TValue operator[](const uint64_t id) const {
                     const item_t item(id);
-                    const item_vector_it_t result = std::lower_bound(m_items.begin(), m_items.end(), item);
-                    if (result == m_items.end() || *result != item) {
+                    const item_vector_it_t result = std::upper_bound(m_items.begin(), m_items.end(), item);
+                    // if the id was set more than once the last value counts
+                    if (result == m_items.begin() || *(result-1) != item) {
                         return TValue(); // nothing found
                     } else {
-                        return result->value;
+                        return (result-1)->value;
                     }
                 }
 
-- 
2.43.0


From a9a93341faddd4d87f814c8736963c2f06cea29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 08/46] fix: never unmap the memory of mmap storage twice

---
 include/osmium/storage/byid/mmap_anon.hpp | 10 +++++++---
 include/osmium/storage/byid/mmap_file.hpp |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..2ea8290 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -80,10 +80,11 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        void* new_items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (new_items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(new_items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
@@ -102,7 +103,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..b6eda38 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -121,6 +121,7 @@ namespace Osmium {
                         }
                         m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
                         if (m_items == MAP_FAILED) {
+                            m_items = NULL; // the old mapping is gone
                             throw std::bad_alloc();
                         }
                         m_size = new_size;
@@ -141,7 +142,10 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                    }
                 }
 
             private:
-- 
2.43.0


From f73b12a7ecd65ad958571798ce5035a69a8e3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 09/46] fix: count each relation member once when it appears in
 several versions

---
 include/osmium/relations/assembler.hpp     | 4 ++++
 include/osmium/relations/relation_info.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index a99ec56..b02a856 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -381,6 +381,10 @@ namespace Osmium {
                         assert(member_info.m_member_id == object->id());
                         assert(member_info.m_relation_pos < m_assembler.m_relations.size());
                         TRelationInfo& relation_info = m_assembler.m_relations[member_info.m_relation_pos];
+                        if (!relation_info.relation()) {
+                            // relation was already completed with another version of this object
+                            continue;
+                        }
                         assert(member_info.m_member_pos < relation_info.relation()->members().size());
                         if (relation_info.add_member(object, member_info.m_member_pos)) {
                             m_assembler.complete_relation(relation_info);
diff --git a/include/osmium/relations/relation_info.hpp b/include/osmium/relations/relation_info.hpp
index 5db34e3..3c9b356 100644
--- a/include/osmium/relations/relation_info.hpp
+++ b/include/osmium/relations/relation_info.hpp
@@ -98,9 +98,14 @@ namespace Osmium {
              * @return true if relation is complete, false otherwise
              */
             bool add_member(const shared_ptr<Osmium::OSM::Object const>& object, osm_sequence_id_t n) {
-                assert(m_need_members > 0);
                 assert(n < m_relation->members().size());
+                const bool already_found = m_members[n].get() != 0;
                 m_members[n] = object;
+                if (already_found) {
+                    // this is another version of an object we already counted
+                    return false;
+                }
+                assert(m_need_members > 0);
                 return --m_need_members == 0;
             }
 
-- 
2.43.0


From 119acf332ecb7a85ae65ec8e8f02f7fba55f3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 10/46] fix: do not wait for relation members that are never
 looked for

---
 include/osmium/relations/assembler.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index b02a856..7bbeeca 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -255,18 +255,31 @@ namespace Osmium {
                     bool add = static_cast<TAssembler*>(this)->keep_member(relation_info, member);
                     if (add) {
                         MemberInfo member_info(member.ref(), m_relations.size(), n);
+                        // members of types we don't look for in the second pass
+                        // will never be found
                         switch (member.type()) {
                             case 'n':
+                                if (!N) {
+                                    break;
+                                }
                                 m_member_infos[NODE].push_back(member_info);
+                                relation_info.need_member();
                                 break;
                             case 'w':
+                                if (!W) {
+                                    break;
+                                }
                                 m_member_infos[WAY].push_back(member_info);
+                                relation_info.need_member();
                                 break;
                             case 'r':
+                                if (!R) {
+                                    break;
+                                }
                                 m_member_infos[RELATION].push_back(member_info);
+                                relation_info.need_member();
                                 break;
                         }
-                        relation_info.need_member();
                     }
                     n++;
                 }
-- 
2.43.0


From dc76827010d6b4b32072f248ae9d14a00a218213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 11/46] fix: deliver stored objects of types that do not occur
 in the stream

---
 include/osmium/storage/objectstore.hpp | 43 ++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..fb00fdd 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -205,6 +205,11 @@ namespace Osmium {
                     m_object_store.clear_nodes();
                 }
 
+                void before_ways() {
+                    flush_nodes();
+                    m_handler.before_ways();
+                }
+
                 void way(const shared_ptr<Osmium::OSM::Way>& way) {
                     while (m_ways_iter != m_ways_end && **m_ways_iter < *way) {
                         m_handler.way(*m_ways_iter++);
@@ -220,6 +225,12 @@ namespace Osmium {
                     m_object_store.clear_ways();
                 }
 
+                void before_relations() {
+                    flush_nodes();
+                    flush_ways();
+                    m_handler.before_relations();
+                }
+
                 void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
                     while (m_relations_iter != m_relations_end && **m_relations_iter < *relation) {
                         m_handler.relation(*m_relations_iter++);
@@ -235,8 +246,40 @@ namespace Osmium {
                     m_object_store.clear_relations();
                 }
 
+                void final() {
+                    flush_nodes();
+                    flush_ways();
+                    flush_relations();
+                    m_handler.final();
+                }
+
             private:
 
+                // If there were no objects of some type in the stream, the
+                // objects of this type from the store still have to be sent
+                // to the handler.
+
+                void flush_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void flush_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void flush_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
                 ObjectStore& m_object_store;
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
-- 
2.43.0


From 8f27020d7fd017014f1a835e9430ea37d143c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:43 +0000
Subject: [PATCH 12/46] fix: take the suffix only from the last component of a
 filename

---
 include/osmium/osmfile.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..c2bbd26 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -300,6 +300,23 @@ namespace Osmium {
          */
         pid_t m_childpid;
 
+        /**
+         * Find suffix of the filename. Dots in directory names are not part
+         * of the suffix.
+         *
+         * @return Position of the dot the suffix starts with or npos if the
+         *         filename has no suffix.
+         */
+        size_t suffix_position() const {
+            size_t n = m_filename.find_last_of('/');
+            if (n == std::string::npos) {
+                n = 0;
+            } else {
+                ++n;
+            }
+            return m_filename.find_first_of('.', n);
+        }
+
         /**
          * Fork and execute the given command in the child.
          * A pipe is created between the child and the parent.
@@ -447,16 +464,8 @@ namespace Osmium {
                 return;
             }
 
-            // isolate filename suffix
-            size_t n = filename.find_last_of('/');
-            if (n == std::string::npos) {
-                n = 0;
-            } else {
-                ++n;
-            }
-            std::string suffix(filename.substr(filename.find_first_of('.', n)+1));
-
-            set_type_and_encoding(suffix);
+            size_t n = suffix_position();
+            set_type_and_encoding(n == std::string::npos ? "" : m_filename.substr(n+1));
         }
 
         void set_type_and_encoding(const std::string& suffix) {
@@ -649,7 +658,7 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            return m_filename.substr(0, suffix_position());
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From 40fa5b666f67adcaa0e6800bb29724cddc40548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 13/46] fix: close pipe if the helper process can not be
 started

---
 include/osmium/osmfile.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index c2bbd26..e6a3d01 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -335,7 +335,10 @@ namespace Osmium {
             }
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                const int fork_errno = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", fork_errno);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
-- 
2.43.0


From 18e8e21be2afab1066d2727b148b6ccb25aad1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 14/46] fix: always close the end of the pipe used by the
 parent in the helper process

---
 include/osmium/osmfile.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index e6a3d01..3d8c746 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -342,6 +342,7 @@ namespace Osmium {
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
+                ::close(pipefd[input]);
                 for (int i=0; i < 32; ++i) {
                     if (i != pipefd[1-input]) {
                         ::close(i);
-- 
2.43.0


From 17e2be0ae643a9f315ae608feb86cbf13a0198ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 15/46] fix: close open file before opening it again or
 assigning to it

---
 include/osmium/osmfile.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 3d8c746..1141df0 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -527,11 +527,10 @@ namespace Osmium {
         /**
          * Assignement operator.
          * Only attributes not related to the open file will be
-         * copied.
+         * copied. If this file is open, it is closed first.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
+            close();
             m_type     = orig.type();
             m_encoding = orig.encoding();
             m_filename = orig.filename();
@@ -672,10 +671,12 @@ namespace Osmium {
         }
 
         void open_for_input() {
+            close();
             m_fd = m_encoding->decompress() == "" ? open_input_file_or_url() : execute(m_encoding->decompress(), 0);
         }
 
         void open_for_output() {
+            close();
             m_fd = m_encoding->compress() == "" ? open_output_file() : execute(m_encoding->compress(), 1);
         }
 
-- 
2.43.0


From a7ea4f65efe1f0e828bae5ec9cf3982fd06007f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 16/46] fix: report errors when closing a file and wait for a
 helper process only once

---
 include/osmium/osmfile.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 1141df0..cb270b4 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -546,20 +546,27 @@ namespace Osmium {
         }
 
         void close() {
+            int close_errno = 0;
             if (m_fd >= 0) {
-                ::close(m_fd);
+                if (::close(m_fd) < 0) {
+                    close_errno = errno;
+                }
                 m_fd = -1;
             }
 
             if (m_childpid) {
                 int status;
                 pid_t pid = waitpid(m_childpid, &status, 0);
+                m_childpid = 0; // don't wait again, even if there was an error
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
+            }
+
+            if (close_errno) {
+                throw IOError("Close failed", m_filename, close_errno);
             }
         }
 
-- 
2.43.0


From 81c98624738b54eeeeefd412e221024935e5d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 17/46] fix: write large version numbers to XML as unsigned
 numbers

---
 include/osmium/output/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..521b5e6 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -171,7 +171,7 @@ namespace Osmium {
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%d", object->version()));
+                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%u", object->version()));
                 }
                 if (object->timestamp()) {
                     check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "timestamp", BAD_CAST object->timestamp_as_string().c_str()));
-- 
2.43.0


From e94eeb87136174e8cc2af5cc125e62f6f70916ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 18/46] fix: report errors when writing the last part of an XML
 file

---
 include/osmium/output/xml.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 521b5e6..dff663a 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -158,6 +158,7 @@ namespace Osmium {
                     open_close_op_tag('\0');
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
+                check_for_error(xmlTextWriterFlush(m_xml_writer)); // xmlFreeTextWriter() doesn't tell us about write errors
                 xmlFreeTextWriter(m_xml_writer);
                 m_file.close();
             }
-- 
2.43.0


From 2ef81b93fbea2f216d14228aa59e49f45794b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 19/46] fix: call init() on handler also for input without any
 objects

---
 include/osmium/input.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..c9cc51e 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -93,6 +93,7 @@ namespace Osmium {
             Base(const Osmium::OSMFile& file,
                  THandler& handler) :
                 m_last_object_type(UNKNOWN),
+                m_init_called(false),
                 m_file(file),
                 m_handler(handler),
                 m_meta(),
@@ -106,11 +107,13 @@ namespace Osmium {
             }
 
             void call_after_and_before_on_handler(osm_object_type_t current_object_type) {
+                // init() must be called even if there are no objects in the file
+                if (!m_init_called) {
+                    m_init_called = true;
+                    m_handler.init(m_meta);
+                }
                 if (current_object_type != m_last_object_type) {
                     switch (m_last_object_type) {
-                        case UNKNOWN:
-                            m_handler.init(m_meta);
-                            break;
                         case NODE:
                             m_handler.after_nodes();
                             break;
@@ -215,6 +218,11 @@ namespace Osmium {
              */
             osm_object_type_t m_last_object_type;
 
+            /**
+             * Was init() called on the handler already?
+             */
+            bool m_init_called;
+
             /**
              * The OSMFile we opened this file with.
              */
-- 
2.43.0


From 3134fa58334b263ceaa02261e6df0cccf094e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 20/46] fix: do not change the last node when ways or relations
 have lat/lon attributes

---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..2e60633 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -149,11 +149,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (obj.type() == NODE) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From b68655cfe3fc8bc93eb9db5609bfeff7f59d1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 21/46] fix: ignore unexpected nested elements in XML files

---
 include/osmium/input/xml.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 2e60633..daf5bc2 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -63,6 +63,8 @@ namespace Osmium {
                 m_current_object(NULL),
                 m_context(context_root),
                 m_last_context(context_root),
+                m_depth(0),
+                m_object_depth(0),
                 m_in_delete_section(false) {
             }
 
@@ -128,6 +130,12 @@ namespace Osmium {
             context_t m_context;
             context_t m_last_context;
 
+            /// Number of elements currently open.
+            int m_depth;
+
+            /// Depth of the element of the object we are in.
+            int m_object_depth;
+
             /**
              * This is used only for change files which contain create, modify,
              * and delete sections.
@@ -179,6 +187,7 @@ namespace Osmium {
             }
 
             void start_element(const XML_Char* element, const XML_Char** attrs) {
+                ++m_depth;
                 switch (m_context) {
                     case context_root:
                         if (!strcmp(element, "osm") || !strcmp(element, "osmChange")) {
@@ -199,14 +208,17 @@ namespace Osmium {
                             this->call_after_and_before_on_handler(NODE);
                             init_object(this->prepare_node(), attrs);
                             m_context = context_node;
+                            m_object_depth = m_depth;
                         } else if (!strcmp(element, "way")) {
                             this->call_after_and_before_on_handler(WAY);
                             init_object(this->prepare_way(), attrs);
                             m_context = context_way;
+                            m_object_depth = m_depth;
                         } else if (!strcmp(element, "relation")) {
                             this->call_after_and_before_on_handler(RELATION);
                             init_object(this->prepare_relation(), attrs);
                             m_context = context_relation;
+                            m_object_depth = m_depth;
                         } else if (!strcmp(element, "bounds")) {
                             Osmium::OSM::Position min;
                             Osmium::OSM::Position max;
@@ -269,19 +281,21 @@ namespace Osmium {
                         }
                         break;
                     case context_in_object:
-                        // fallthrough
+                        // unknown element in tag, nd, or member element: ignore
+                        break;
                     default:
                         assert(false); // should never be here
                 }
             }
 
             void end_element(const XML_Char* element) {
+                --m_depth;
                 switch (m_context) {
                     case context_root:
                         assert(false); // should never be here
                         break;
                     case context_top:
-                        if (!strcmp(element, "osm") || !strcmp(element, "osmChange")) {
+                        if (m_depth == 0) {
                             m_context = context_root;
                         } else if (!strcmp(element, "delete")) {
                             m_in_delete_section = false;
@@ -303,7 +317,9 @@ namespace Osmium {
                         m_context = context_top;
                         break;
                     case context_in_object:
-                        m_context = m_last_context;
+                        if (m_depth == m_object_depth) {
+                            m_context = m_last_context;
+                        }
                         break;
                     default:
                         assert(false); // should never be here
-- 
2.43.0


From 65c6daeb2a16e5e47721351d657ed2fdedb3a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 22/46] fix: free XML parser when parsing ends with an
 exception

---
 include/osmium/input/xml.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index daf5bc2..f4e6899 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -74,6 +74,9 @@ namespace Osmium {
                     throw std::runtime_error("Error creating parser");
                 }
 
+                // make sure the parser is freed even if there are exceptions
+                shared_ptr<XML_ParserStruct> parser_guard(parser, XML_ParserFree);
+
                 XML_SetUserData(parser, this);
 
                 XML_SetElementHandler(parser, Osmium::Input::XML<THandler>::start_element_wrapper, Osmium::Input::XML<THandler>::end_element_wrapper);
@@ -103,7 +106,6 @@ namespace Osmium {
                             throw std::runtime_error(errorDesc.str());
                         }
                     } while (!done);
-                    XML_ParserFree(parser);
 
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
-- 
2.43.0


From 9476542c724d9d901b4ce080567509a15bc5f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 23/46] fix: keep times in PBF files with a date granularity
 that is not a multiple of one second

---
 include/osmium/input/pbf.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..365e2b6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,7 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +75,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +95,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +195,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +233,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +274,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +342,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From 268287b43942d9f70ba157942827e89118a617fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 24/46] fix: report invalid string indexes and array sizes in
 PBF files as errors

---
 include/osmium/input/pbf.hpp | 70 +++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 365e2b6..f4b46e3 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -178,6 +178,29 @@ namespace Osmium {
                 }
             }
 
+            /**
+            * Get string with given index from the string table.
+            *
+            * @exception std::runtime_error Thrown when there is no such string.
+            */
+            static const char* get_string(const OSMPBF::StringTable& stringtable, const int64_t index) {
+                if (index < 0 || index >= stringtable.s_size()) {
+                    throw std::runtime_error("Invalid string table index in PBF file.");
+                }
+                return stringtable.s(static_cast<int>(index)).data();
+            }
+
+            /**
+            * Check that an array that belongs to another array in a message has the same size.
+            *
+            * @exception std::runtime_error Thrown when the sizes are different.
+            */
+            static void check_array_size(const int size, const int expected_size) {
+                if (size != expected_size) {
+                    throw std::runtime_error("Array of wrong size in PBF file.");
+                }
+            }
+
             // empty specialization to optimize the case where the node() method on the handler is empty
             void parse_node_group(const OSMPBF::PrimitiveGroup& /*group*/, const OSMPBF::StringTable& /*stringtable*/,
                                   void (Osmium::Handler::Base::*)(const shared_ptr<Osmium::OSM::Node const>&) const) {
@@ -197,16 +220,17 @@ namespace Osmium {
                         .changeset(pbf_node.info().changeset())
                         .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
-                        .user(stringtable.s(pbf_node.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_node.info().user_sid()));
                         if (pbf_node.info().has_visible()) {
                             node.visible(pbf_node.info().visible());
                         }
                     }
 
+                    check_array_size(pbf_node.vals_size(), pbf_node.keys_size());
                     Osmium::OSM::TagList& tags = node.tags();
                     for (int tag=0; tag < pbf_node.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_node.keys(tag)).data(),
-                                 stringtable.s(pbf_node.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_node.keys(tag)),
+                                 get_string(stringtable, pbf_node.vals(tag)));
                     }
 
                     node.position(Osmium::OSM::Position(
@@ -235,16 +259,17 @@ namespace Osmium {
                         .changeset(pbf_way.info().changeset())
                         .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
-                        .user(stringtable.s(pbf_way.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_way.info().user_sid()));
                         if (pbf_way.info().has_visible()) {
                             way.visible(pbf_way.info().visible());
                         }
                     }
 
+                    check_array_size(pbf_way.vals_size(), pbf_way.keys_size());
                     Osmium::OSM::TagList& tags = way.tags();
                     for (int tag=0; tag < pbf_way.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_way.keys(tag)).data(),
-                                 stringtable.s(pbf_way.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_way.keys(tag)),
+                                 get_string(stringtable, pbf_way.vals(tag)));
                     }
 
                     uint64_t ref = 0;
@@ -276,19 +301,22 @@ namespace Osmium {
                         .changeset(pbf_relation.info().changeset())
                         .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
-                        .user(stringtable.s(pbf_relation.info().user_sid()).data());
+                        .user(get_string(stringtable, pbf_relation.info().user_sid()));
                         if (pbf_relation.info().has_visible()) {
                             relation.visible(pbf_relation.info().visible());
                         }
                     }
 
+                    check_array_size(pbf_relation.vals_size(), pbf_relation.keys_size());
                     Osmium::OSM::TagList& tags = relation.tags();
                     for (int tag=0; tag < pbf_relation.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_relation.keys(tag)).data(),
-                                 stringtable.s(pbf_relation.vals(tag)).data());
+                        tags.add(get_string(stringtable, pbf_relation.keys(tag)),
+                                 get_string(stringtable, pbf_relation.vals(tag)));
                     }
 
                     uint64_t ref = 0;
+                    check_array_size(pbf_relation.memids_size(), pbf_relation.types_size());
+                    check_array_size(pbf_relation.roles_sid_size(), pbf_relation.types_size());
                     for (int i=0; i < pbf_relation.types_size(); ++i) {
                         char type = 'x';
                         switch (pbf_relation.types(i)) {
@@ -303,7 +331,7 @@ namespace Osmium {
                                 break;
                         }
                         ref += pbf_relation.memids(i);
-                        relation.add_member(type, ref, stringtable.s(pbf_relation.roles_sid(i)).data());
+                        relation.add_member(type, ref, get_string(stringtable, pbf_relation.roles_sid(i)));
                     }
 
                     this->call_relation_on_handler();
@@ -328,6 +356,18 @@ namespace Osmium {
 
                 const OSMPBF::DenseNodes& dense = group.dense();
                 int max_entity = dense.id_size();
+                check_array_size(dense.lat_size(), max_entity);
+                check_array_size(dense.lon_size(), max_entity);
+                if (dense.has_denseinfo()) {
+                    check_array_size(dense.denseinfo().version_size(),   max_entity);
+                    check_array_size(dense.denseinfo().timestamp_size(), max_entity);
+                    check_array_size(dense.denseinfo().changeset_size(), max_entity);
+                    check_array_size(dense.denseinfo().uid_size(),       max_entity);
+                    check_array_size(dense.denseinfo().user_sid_size(),  max_entity);
+                    if (dense.denseinfo().visible_size() > 0) {
+                        check_array_size(dense.denseinfo().visible_size(), max_entity);
+                    }
+                }
                 for (int entity=0; entity < max_entity; ++entity) {
                     Osmium::OSM::Node& node = this->prepare_node();
 
@@ -344,7 +384,7 @@ namespace Osmium {
                         node.changeset(last_dense_changeset);
                         node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
-                        node.user(stringtable.s(last_dense_user_sid).data());
+                        node.user(get_string(stringtable, last_dense_user_sid));
 
                         if (dense.denseinfo().visible_size() > 0) {
                             node.visible(dense.denseinfo().visible(entity));
@@ -365,9 +405,13 @@ namespace Osmium {
                             break;
                         }
 
+                        if (last_dense_tag + 1 >= dense.keys_vals_size()) {
+                            throw std::runtime_error("Tag without value in PBF file.");
+                        }
+
                         Osmium::OSM::TagList& tags = node.tags();
-                        tags.add(stringtable.s(tag_key_pos).data(),
-                                 stringtable.s(dense.keys_vals(last_dense_tag+1)).data());
+                        tags.add(get_string(stringtable, tag_key_pos),
+                                 get_string(stringtable, dense.keys_vals(last_dense_tag+1)));
 
                         last_dense_tag += 2;
                     }
-- 
2.43.0


From 325db134e4c566b61461753548c08a06f1d95213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 25/46] fix: allow more than 65535 different strings in a block
 of a PBF file

---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..d7178db 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -382,7 +382,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -396,7 +396,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..6e68028 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
-- 
2.43.0


From a9f2a620fae52b03c74092f7c3210945e7f88a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 26/46] fix: write PBF blobs completely when the operating
 system takes only part of a write

---
 include/osmium/output/pbf.hpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index d7178db..6ae911a 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -289,6 +289,26 @@ namespace Osmium {
                 return z.total_out;
             }
 
+            /**
+             * Write all data to the file, even if the operating system takes only
+             * part of it at a time.
+             *
+             * @param data Pointer to the data.
+             * @param size Number of bytes to write.
+             * @exception std::runtime_error Thrown when the data could not be written.
+             */
+            void write_all(const void* data, size_t size) {
+                const char* ptr = static_cast<const char*>(data);
+                while (size > 0) {
+                    const ssize_t written = ::write(fd(), ptr, size);
+                    if (written <= 0) {
+                        throw std::runtime_error("file error");
+                    }
+                    ptr += written;
+                    size -= written;
+                }
+            }
+
             /**
              * Serialize a protobuf-message together into a Blob, optionally apply compression
              * and write it together with a BlobHeader to the file.
@@ -346,15 +366,9 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
+                write_all(&sz, sizeof(sz));
+                write_all(blobhead.c_str(), blobhead.size());
+                write_all(data.c_str(), data.size());
             }
 
             /**
-- 
2.43.0


From 7429382fac2f8a49bfc31d293d74e331b4c32c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 27/46] fix: keep the bounding box in the header of PBF files
 exact

---
 include/osmium/output/pbf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 6ae911a..23ee015 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -900,10 +900,10 @@ namespace Osmium {
 
                 if (meta.bounds().defined()) {
                     OSMPBF::HeaderBBox* bbox = pbf_header_block.mutable_bbox();
-                    bbox->set_left(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_bottom(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution);
-                    bbox->set_right(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_top(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution);
+                    bbox->set_left(round(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_bottom(round(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution));
+                    bbox->set_right(round(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_top(round(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution));
                 }
 
                 store_header_block();
-- 
2.43.0


From 589630b95141ce5369c384c2df391254ad9747e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 28/46] fix: report an invalid uncompressed size of a PBF blob
 as an error

---
 include/osmium/input/pbf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index f4b46e3..584f023 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -491,8 +491,10 @@ namespace Osmium {
                 if (m_pbf_blob.has_raw()) {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
+                    if (m_pbf_blob.raw_size() < 0 || m_pbf_blob.raw_size() > OSMPBF::max_uncompressed_blob_size) {
+                        throw std::runtime_error("invalid uncompressed size of blob");
+                    }
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From 4fdeccb68860239f572aef55a5f0bbc2cd6f06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 29/46] fix: report a PBF file that ends inside the size of a
 blob header as an error

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 584f023..63a7a2b 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -440,6 +440,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset != 0) {
+                            throw std::runtime_error("file ends in the middle of a BlobHeader size");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From 36d5b64dfe540affc0a2ae21554575316427efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 30/46] fix: write reversed polygons in reverse order

Polygon ignored its reverse flag in the WKT, WKB and hex WKB output, unlike
LineString and the OGR, GEOS and shapefile conversions of the same polygon.
---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..7648699 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From 3bbf6825486e940542cdbff0d7e4eb66d13912d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 31/46] fix: a way without nodes is not closed

WayNodeList::is_closed() called front() and back() on an empty vector, so that making
a polygon from a way without nodes read memory outside of the list.
---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From f26e48ebfefa05b99e5aa4d27ee81d5823746e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 32/46] fix: give an area made from relation 0 its own id

The id of an area made from a relation with id 0 was 0, the id of the area made
from way 0, and it was taken to come from a way.
---
 include/osmium/osm/area.hpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a8e0384..b0a9c14 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -36,15 +36,6 @@ namespace Osmium {
         class MultiPolygon;
     }
 
-    namespace {
-
-        template <typename T>
-        int sgn(T val) {
-            return (T(0) < val) - (val < T(0));
-        }
-
-    }
-
     namespace OSM {
 
         /**
@@ -72,7 +63,7 @@ namespace Osmium {
                 Object(relation),
                 m_node_list(),
                 m_geos_geometry() {
-                id((id() * 2) + sgn(id()));
+                id((id() * 2) + (id() < 0 ? -1 : 1));
             }
 
             /// Construct an Area object from a Way object.
-- 
2.43.0


From 458bf8888b5222d65e9d18ea47f0d493d55d8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 33/46] fix: copying an area without geometry, leak when
 assigning areas

An area only gets a geometry when one is needed. Copying or assigning an area
without one dereferenced a null pointer, and assigning to an area that had one
lost the old geometry.
---
 include/osmium/osm/area.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index b0a9c14..7a0829e 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -56,6 +56,10 @@ namespace Osmium {
                 return m_geos_geometry;
             }
 
+            static geos::geom::MultiPolygon* clone_geometry(const geos::geom::MultiPolygon* geometry) {
+                return geometry ? dynamic_cast<geos::geom::MultiPolygon*>(geometry->clone()) : NULL;
+            }
+
         public:
 
             /// Construct an Area object from a Relation object.
@@ -77,7 +81,7 @@ namespace Osmium {
             Area(const Area& area) :
                 Object(area),
                 m_node_list(area.m_node_list),
-                m_geos_geometry(dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone())) {
+                m_geos_geometry(clone_geometry(area.m_geos_geometry)) {
             }
 
             Area& operator=(const Area& area) {
@@ -91,7 +95,10 @@ namespace Osmium {
                 visible(area.visible());
                 tags(area.tags());
                 m_node_list = area.m_node_list;
-                m_geos_geometry = dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone());
+                if (this != &area) {
+                    delete m_geos_geometry;
+                    m_geos_geometry = clone_geometry(area.m_geos_geometry);
+                }
                 return *this;
             }
 
-- 
2.43.0


From c05ca84782e6916e8ad3159dc03d49227224723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 34/46] fix: truncating shapefile text attributes reads and
 writes before the buffer

For fields one or two bytes wide the test for an incomplete last character looked at
(and possibly cleared) bytes in front of the buffer, also for complete characters.
---
 include/osmium/export/shapefile.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 2f5e6a4..e891385 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -265,14 +265,19 @@ namespace Osmium {
                 size_t length = m_fields[field].width();
                 dest[length] = '\0';
                 strncpy(dest, value, length);
-                size_t i = length-1;
-                if (dest[i] & 128) {
-                    if (dest[i] & 64) {
-                        dest[i] = '\0';
-                    } else if ((dest[i-1] & 224) == 224) {
+                // find the first byte of the last character and remove the character if it isn't complete
+                size_t i = length;
+                while (i > 0 && (dest[i-1] & 192) == 128) {
+                    --i;
+                }
+                if (i > 0) {
+                    const size_t available = length - (i-1);
+                    const char first = dest[i-1];
+                    const size_t needed = (first & 224) == 192 ? 2 :
+                                          (first & 240) == 224 ? 3 :
+                                          (first & 248) == 240 ? 4 : 1;
+                    if (available < needed) {
                         dest[i-1] = '\0';
-                    } else if ((dest[i-2] & 240) == 240) {
-                        dest[i-2] = '\0';
                     }
                 }
                 add_attribute(field, dest);
-- 
2.43.0


From 3b20188e79426ed688610ad6b00675d90a6c9aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 35/46] fix: distance between nearly opposite points is not a
 number

---
 include/osmium/geometry/haversine.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/geometry/haversine.hpp b/include/osmium/geometry/haversine.hpp
index 1b90149..60c5f21 100644
--- a/include/osmium/geometry/haversine.hpp
+++ b/include/osmium/geometry/haversine.hpp
@@ -22,6 +22,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <algorithm>
+#include <cmath>
+
 #include <osmium/osm/position.hpp>
 #include <osmium/osm/way_node_list.hpp>
 
@@ -53,7 +56,9 @@ namespace Osmium {
                 double lath = sin(lat_arc * 0.5);
                 lath *= lath;
                 const double tmp = cos(y1 * DEG_TO_RAD) * cos(y2 * DEG_TO_RAD);
-                return 2.0 * EARTH_RADIUS_IN_METERS * asin(sqrt(lath + tmp*lonh));
+                // for nearly opposite points rounding errors can push this a bit over 1
+                const double h = std::min(1.0, lath + tmp*lonh);
+                return 2.0 * EARTH_RADIUS_IN_METERS * asin(sqrt(h));
             }
 
             inline double distance(const Osmium::OSM::Position& from, const Osmium::OSM::Position& to) {
-- 
2.43.0


From 24ce81640110b8f60ee78f6889fbb543f09b3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:33 +0000
Subject: [PATCH 36/46] fix: close the file when reading it ends with an
 exception

---
 include/osmium.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/osmium.hpp b/include/osmium.hpp
index 74817e3..aa5f7b6 100644
--- a/include/osmium.hpp
+++ b/include/osmium.hpp
@@ -22,6 +22,10 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#if defined(OSMIUM_WITH_PBF_INPUT) || defined(OSMIUM_WITH_XML_INPUT)
+# include <boost/scoped_ptr.hpp>
+#endif
+
 #ifdef OSMIUM_WITH_PBF_INPUT
 # include <osmium/input/pbf.hpp>
 #endif
@@ -54,24 +58,23 @@ namespace Osmium {
 
         template <class T>
         inline void read(const Osmium::OSMFile& file, T& handler) {
-            Osmium::Input::Base<T>* input = NULL;
+            boost::scoped_ptr< Osmium::Input::Base<T> > input;
 
             if (file.encoding()->is_pbf()) {
 #ifdef OSMIUM_WITH_PBF_INPUT
-                input = static_cast<Osmium::Input::Base<T>*>(new Osmium::Input::PBF<T>(file, handler));
+                input.reset(new Osmium::Input::PBF<T>(file, handler));
 #else
                 throw Osmium::OSMFile::FileEncodingNotSupported();
 #endif // OSMIUM_WITH_PBF_INPUT
             } else {
 #ifdef OSMIUM_WITH_XML_INPUT
-                input = static_cast<Osmium::Input::Base<T>*>(new Osmium::Input::XML<T>(file, handler));
+                input.reset(new Osmium::Input::XML<T>(file, handler));
 #else
                 throw Osmium::OSMFile::FileEncodingNotSupported();
 #endif // OSMIUM_WITH_XML_INPUT
             }
 
             input->parse();
-            delete input;
         }
 
     } // namespace Input
-- 
2.43.0


From c5994109c2ecdb56cf7cacfe5ba5779005cc0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 37/46] fix: find the ring directly around a hole in deeply
 nested multipolygons

---
 include/osmium/multipolygon/builder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 12ce7c1..ac4043b 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -717,7 +717,10 @@ namespace Osmium {
                 // contained by something else; if a contains b and b contains c, then
                 // our array says that a contains b, b contains c, and a contains c.
                 // thin out the array so that only direct relationships remain (and
-                // the "a contains c" is dropped).
+                // the "a contains c" is dropped). we look for intermediaries in a copy,
+                // because they must be found even if they were dropped already.
+
+                const std::vector<bs_t> all_contains(contains);
 
                 for (unsigned int i=0; i < m_ringlist.size(); ++i) {
                     for (unsigned j=0; j < m_ringlist.size(); ++j) {
@@ -726,7 +729,7 @@ namespace Osmium {
                             for (unsigned int k=0; k < m_ringlist.size(); ++k) {
                                 if (k==i) continue;
                                 if (k==j) continue;
-                                if (contains[i][k] && contains[k][j]) {
+                                if (all_contains[i][k] && all_contains[k][j]) {
                                     // intermediary relationship exists; break this
                                     // one up.
                                     contains[i][j] = false;
-- 
2.43.0


From 02a347f554b92598efb16e268c75eafb44163d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 38/46] fix: free the difference of touching inner rings

---
 include/osmium/multipolygon/builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index ac4043b..4907d24 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -834,9 +834,9 @@ namespace Osmium {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-                                geos::geom::Geometry* diff = ring1_geom->symDifference(ring2_geom);
+                                const scoped_ptr<geos::geom::Geometry> diff(ring1_geom->symDifference(ring2_geom));
                                 const scoped_ptr<geos::operation::polygonize::Polygonizer> polygonizer(new geos::operation::polygonize::Polygonizer());
-                                polygonizer->add(diff);
+                                polygonizer->add(diff.get());
                                 std::vector<geos::geom::Polygon*>* polys = polygonizer->getPolygons();
                                 if (polys) {
                                     if (polys->size() == 1) {
-- 
2.43.0


From 7ded6d55185ef57b59110e535fa53a9fc5b37f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 39/46] fix: scripts read behind the end of the lists of nodes
 and members

---
 include/osmium/javascript/wrapper/osm.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index bd72f24..3c9152b 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -84,6 +84,9 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> get_node_id(uint32_t index, Osmium::OSM::WayNodeList* wnl) {
+                    if (index >= wnl->size()) {
+                        return v8::Undefined();
+                    }
                     return v8::Number::New((*wnl)[index].ref());
                 }
 
@@ -141,6 +144,9 @@ namespace Osmium {
             struct OSMRelationMemberList : public Osmium::Javascript::Template {
 
                 static v8::Handle<v8::Value> get_member(uint32_t index, Osmium::OSM::RelationMemberList* rml) {
+                    if (index >= rml->size()) {
+                        return v8::Undefined();
+                    }
                     return OSMRelationMember::get<OSMRelationMember>().create_instance((void*)&((*rml)[index]));
                 }
 
-- 
2.43.0


From 74a9c10032c0cd2ce4b7350e2bb657d97fa1346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 40/46] fix: scripts see large versions as negative numbers

---
 include/osmium/javascript/wrapper/osm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 3c9152b..a907022 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -186,7 +186,7 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> version(Osmium::OSM::Object* object) {
-                    return v8::Integer::New(object->version());
+                    return v8::Integer::NewFromUnsigned(object->version());
                 }
 
                 static v8::Handle<v8::Value> timestamp_as_string(Osmium::OSM::Object* object) {
-- 
2.43.0


From 621c11bb52bb077173524ad02596c417654c1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 41/46] fix: script text of the maximum length is refused

---
 include/osmium/javascript/unicode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/javascript/unicode.hpp b/include/osmium/javascript/unicode.hpp
index 1d387d7..7ab3953 100644
--- a/include/osmium/javascript/unicode.hpp
+++ b/include/osmium/javascript/unicode.hpp
@@ -81,9 +81,9 @@ namespace Osmium {
     template <int characters>
     inline v8::Local<v8::String> utf8_to_v8_String(const char* cstring) {
         UErrorCode error_code = U_ZERO_ERROR;
-        UChar dest[characters*2];
+        UChar dest[characters*2 + 1]; // room for terminating NUL
         int32_t dest_length;
-        u_strFromUTF8(dest, characters*2, &dest_length, cstring, -1, &error_code);
+        u_strFromUTF8(dest, characters*2 + 1, &dest_length, cstring, -1, &error_code);
         if (error_code != U_ZERO_ERROR) {
             throw UTF8_to_UTF16_Conversion_Error(error_code);
         }
@@ -102,10 +102,10 @@ namespace Osmium {
     inline const char* v8_String_to_utf8(v8::Local<v8::String> string) {
         UErrorCode error_code = U_ZERO_ERROR;
         uint16_t src[characters*2];
-        static char buffer[characters*4];
+        static char buffer[characters*4 + 1]; // room for terminating NUL
         int32_t buffer_length;
         string->Write(src, 0, characters*2);
-        u_strToUTF8(buffer, characters*4, &buffer_length, src, std::min(characters*2, string->Length()), &error_code);
+        u_strToUTF8(buffer, characters*4 + 1, &buffer_length, src, std::min(characters*2, string->Length()), &error_code);
         if (error_code != U_ZERO_ERROR) {
             throw UTF16_to_UTF8_Conversion_Error(error_code);
         }
-- 
2.43.0


From b0e1ebca444bb0c6e669bc7239370ba656aa3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 42/46] fix: don't fail on long Javascript strings with a
 surrogate pair at the clipping point

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index a5285b2..3647dba 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -66,7 +66,12 @@ namespace Osmium {
                     int32_t dest_length;
                     UErrorCode error_code = U_ZERO_ERROR;
                     value->ToString()->Write(source, 0, Osmium::Export::Shapefile::max_dbf_field_length+1);
-                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length()), &error_code);
+                    int source_length = std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length());
+                    if (source_length < value->ToString()->Length() && (source[source_length-1] & 0xfc00) == 0xd800) {
+                        // don't cut through a surrogate pair
+                        --source_length;
+                    }
+                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, source_length, &error_code);
                     if (error_code == U_BUFFER_OVERFLOW_ERROR) {
                         // thats ok, it just means we clip the text at that point
                     } else if (U_FAILURE(error_code)) {
-- 
2.43.0


From 83dc73c821e909235422e3ae3f358a84187fb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 43/46] fix: tell the script when a geometry could not be added
 to a shapefile

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index 3647dba..bb9ad95 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -168,9 +168,7 @@ namespace Osmium {
                     v8::Local<v8::Object> xxx = v8::Local<v8::Object>::Cast(args[0]);
                     Osmium::Geometry::Geometry* geometry = static_cast<Osmium::Geometry::Geometry*>(v8::Local<v8::External>::Cast(xxx->GetInternalField(0))->Value());
 
-                    try {
-                        add(shapefile, geometry, v8::Local<v8::Object>::Cast(args[1]));
-                    } catch (Osmium::Geometry::IllegalGeometry) {
+                    if (!add(shapefile, geometry, v8::Local<v8::Object>::Cast(args[1]))) {
                         std::cerr << "Ignoring object with illegal geometry." << std::endl;
                         return v8::Integer::New(0);
                     }
-- 
2.43.0


From c2ca5809ff5ef4a4e7af28bc364924078938066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:04 +0000
Subject: [PATCH 44/46] fix: free shape objects that do not fit the shapefile

---
 include/osmium/export/shapefile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index e891385..ca679e2 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -197,6 +197,9 @@ namespace Osmium {
              */
             void add_geometry(SHPObject* shp_object) {
                 if (!shp_object || shp_object->nSHPType != m_shp_handle->nShapeType) {
+                    if (shp_object) {
+                        SHPDestroyObject(shp_object);
+                    }
                     throw Osmium::Geometry::IllegalGeometry();
                 }
                 m_dbf_bytes += m_record_length;
-- 
2.43.0


From a55dedc075a389d2a160c8ecd7f6c9e4da16aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:24 +0000
Subject: [PATCH 45/46] fix: progress display shows negative averages when ways
 or relations are missing

---
 include/osmium/handler/progress.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/osmium/handler/progress.hpp b/include/osmium/handler/progress.hpp
index dfb5b59..29076de 100644
--- a/include/osmium/handler/progress.hpp
+++ b/include/osmium/handler/progress.hpp
@@ -58,6 +58,12 @@ namespace Osmium {
             timeval m_first_way;
             timeval m_first_relation;
 
+            // average number of objects per second between two times (0 if it can't be calculated)
+            static int per_second(uint64_t count, const timeval& first, const timeval& last) {
+                float diff = (last.tv_sec - first.tv_sec) * 1000000 + (last.tv_usec - first.tv_usec);
+                return diff > 0 ? static_cast<float>(count) / diff * 1000000 : 0;
+            }
+
             void update_display(bool show_per_second=true) const {
                 std::cout << "[" << m_count_nodes << "]";
                 if (m_count_ways > 0 || m_count_relations > 0) {
@@ -72,16 +78,13 @@ namespace Osmium {
                     gettimeofday(&now, 0);
 
                     if (m_count_relations > 0) {
-                        float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                        int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
+                        int relations_per_sec = per_second(m_count_relations, m_first_relation, now);
                         std::cout << " (" << relations_per_sec << " Relations per second)   ";
                     } else if (m_count_ways > 0) {
-                        float way_diff = (now.tv_sec - m_first_way.tv_sec) * 1000000 + (now.tv_usec - m_first_way.tv_usec);
-                        int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
+                        int ways_per_sec = per_second(m_count_ways, m_first_way, now);
                         std::cout << " (" << ways_per_sec << " Ways per second)   ";
                     } else if (m_count_nodes > 0) {
-                        float node_diff = (now.tv_sec - m_first_node.tv_sec) * 1000000 + (now.tv_usec - m_first_node.tv_usec);
-                        int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
+                        int nodes_per_sec = per_second(m_count_nodes, m_first_node, now);
                         std::cout << " (" << nodes_per_sec << " Nodes per second)   ";
                     }
                 } else {
@@ -166,20 +169,17 @@ namespace Osmium {
                 gettimeofday(&now, 0);
 
                 if (m_count_nodes > 0) {
-                    float node_diff = (m_first_way.tv_sec - m_first_node.tv_sec) * 1000000 + (m_first_way.tv_usec - m_first_node.tv_usec);
-                    int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
+                    int nodes_per_sec = per_second(m_count_nodes, m_first_node, m_count_ways > 0 ? m_first_way : m_count_relations > 0 ? m_first_relation : now);
                     std::cout << nodes_per_sec << " Nodes ";
                 }
 
                 if (m_count_ways > 0) {
-                    float way_diff = (m_first_relation.tv_sec - m_first_way.tv_sec) * 1000000 + (m_first_relation.tv_usec - m_first_way.tv_usec);
-                    int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
+                    int ways_per_sec = per_second(m_count_ways, m_first_way, m_count_relations > 0 ? m_first_relation : now);
                     std::cout << ways_per_sec << " Ways ";
                 }
 
                 if (m_count_relations > 0) {
-                    float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                    int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
+                    int relations_per_sec = per_second(m_count_relations, m_first_relation, now);
                     std::cout << relations_per_sec << " Relations ";
                 }
 
-- 
2.43.0


From 92d08aca7cbebae9b6303d4cdd00f10a4a602d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 46/46] fix: close the file of file-backed storage

The file opened by Osmium::Storage::ById::MmapFile was never closed,
neither when the storage was destroyed nor when creating it failed. (And
the FILE object of a temporary file was leaked.)
---
 include/osmium/storage/byid/mmap_file.hpp | 32 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index b6eda38..aaf471b 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -65,15 +65,16 @@ namespace Osmium {
                 */
                 MmapFile(const std::string& filename="", bool remove=true) :
                     Base<TValue>(),
+                    m_file(),
                     m_size(1) {
                     if (filename == "") {
-                        FILE* file = tmpfile();
-                        if (!file) {
+                        m_file.stream = tmpfile();
+                        if (!m_file.stream) {
                             throw std::bad_alloc();
                         }
-                        m_fd = fileno(file);
+                        m_fd = fileno(m_file.stream);
                     } else {
-                        m_fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
+                        m_fd = m_file.fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
                     }
 
                     if (m_fd < 0) {
@@ -150,6 +151,29 @@ namespace Osmium {
 
             private:
 
+                /// Open file, it is closed when the storage is destroyed (or if it can't be created).
+                struct file_t {
+
+                    FILE* stream;
+                    int fd;
+
+                    file_t() :
+                        stream(NULL),
+                        fd(-1) {
+                    }
+
+                    ~file_t() {
+                        if (stream) {
+                            fclose(stream);
+                        } else if (fd >= 0) {
+                            close(fd);
+                        }
+                    }
+
+                };
+
+                file_t m_file;
+
                 uint64_t m_size;
 
                 TValue* m_items;
-- 
2.43.0

