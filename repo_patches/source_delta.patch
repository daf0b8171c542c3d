From df9cd0f2b8065faeda7e70ad26adf4d8a403470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 001/111] fix: ignore segments without data when computing the
 interval stored in a simple dataset

---
 arki/dataset/simple/manifest.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index a939abd..0cc0e80 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -206,10 +206,15 @@ core::Interval Reader::get_stored_time_interval() const
 {
     core::Interval res;
     for (const auto& i : segmentinfo_cache)
+    {
+        // Skip segments without data
+        if (i.time.is_unbounded())
+            continue;
         if (res.is_unbounded())
             res = i.time;
         else
             res.extend(i.time);
+    }
     return res;
 }
 
-- 
2.43.0


From abee992cdb068817ec049920369ea85116f5b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 002/111] fix: delete data also from segments that have been
 compressed, tarred or zipped

---
 arki/dataset/segmented.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..220a131 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -6,6 +6,7 @@
 #include "arki/metadata.h"
 #include "arki/metadata/collection.h"
 #include "arki/nag.h"
+#include "arki/segment/data.h"
 #include "arki/types/reftime.h"
 #include "arki/types/source.h"
 #include "arki/types/source/blob.h"
@@ -424,7 +425,12 @@ void Checker::remove(const metadata::Collection& mds)
         auto relpath    = sys::with_suffix(dataset().step()(time),
                                            "."s + format_name(source->format));
 
-        if (!dataset().segment_session->is_segment(relpath))
+        // Check for the data in any of the forms in which it can be stored, as
+        // Look for the data in any of the forms in which it can be stored: tar,
+        // zip and gz segments have a different name on disk
+        auto segment =
+            dataset().segment_session->segment_from_relpath(relpath);
+        if (!segment::Data::create(segment)->exists_on_disk())
             continue;
 
         by_segment[relpath].emplace(source->offset);
-- 
2.43.0


From def1c96ccb746d3f43091bced043ebb149f52a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 003/111] fix: removing old data does not remove all archived
 data regardless of its age

---
 arki/dataset/segmented.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 220a131..197b0d7 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -378,7 +378,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From 53a1d92d1fca8e8dee40ca8dd0419f4883310bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 004/111] fix: invalidate the summary of a simple dataset when
 a segment is removed

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..800c8d7 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From 4ab8b9766bee2cc54ac3d37ea967c7c411f5ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 005/111] fix: invalidate cached summaries of iseg datasets
 when segments are removed, moved or rescanned

---
 arki/dataset/iseg/checker.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..bee5489 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -65,6 +65,18 @@ public:
             dataset_checker.archive());
     }
 
+    /// Delete the cached summaries for the months covered by this segment
+    void invalidate_summary_cache()
+    {
+        core::Interval interval;
+        if (!dataset().step().path_timespan(segment->relpath(), interval))
+            return;
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        for (auto t = interval.begin; t < interval.end;
+             t      = t.start_of_next_month())
+            scache.invalidate(t.ye, t.mo);
+    }
+
     segmented::SegmentState fsck(dataset::Reporter& reporter,
                                  bool quick = true) override
     {
@@ -106,6 +118,11 @@ public:
         return res;
     }
 
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_summary_cache();
+    }
+
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
@@ -114,6 +131,7 @@ public:
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
         std::filesystem::remove(segment->abspath_summary());
+        invalidate_summary_cache();
     }
 
     void rescan(dataset::Reporter& reporter) override
@@ -130,6 +148,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_summary_cache();
     }
 
     arki::metadata::Collection
@@ -140,6 +159,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_summary_cache();
         return mds;
     }
 };
-- 
2.43.0


From c83fad19944a8b23202d910ddb84a0268a61178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 006/111] fix: repacking a gz segment writes the result to the
 gz file

---
 arki/segment/data/gz.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..43f32f6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -271,7 +271,7 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
+                std::filesystem::rename(tmpfiles[0], gzabspath);
                 if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
                     std::filesystem::remove(gzidxabspath);
             };
-- 
2.43.0


From 5a519eaea6d043fac77eb17ae13e2b6c22a3854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 007/111] fix: segments where all data was deleted, and have no
 summary, can be converted

---
 arki/segment/metadata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..2674cbe 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -722,7 +722,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -768,7 +768,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -816,7 +816,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
-- 
2.43.0


From 293ba26391dcabbaff9993902d7b96a34f1dd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 008/111] fix: accept replace=usn in dataset configuration, as
 documented

---
 arki/dataset/segmented.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 197b0d7..7b7940c 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -78,7 +78,7 @@ Dataset::Dataset(std::shared_ptr<Session> session,
     string repl = cfg.value("replace");
     if (repl == "yes" || repl == "true" || repl == "always")
         default_replace_strategy = ReplaceStrategy::ALWAYS;
-    else if (repl == "USN")
+    else if (repl == "USN" || repl == "usn")
         default_replace_strategy = ReplaceStrategy::HIGHER_USN;
     else if (repl == "" || repl == "no" || repl == "never")
         default_replace_strategy = ReplaceStrategy::NEVER;
-- 
2.43.0


From b1db934aa0c6ec5fabaafc6a076a492bf0733f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 009/111] fix: recover from an interrupted creation of an iseg
 segment index

---
 arki/segment/iseg/index.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index d16e8a0..1315ab2 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -467,30 +467,36 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
     : Index<LockType>(segment, lock), m_get_current("get_current", this->m_db),
       m_insert(this->m_db), m_replace("replace", this->m_db)
 {
-    bool need_create = !sys::access(index_pathname, F_OK);
+    m_db.open(index_pathname);
+    if (session().trace_sql)
+        m_db.trace();
+    this->setup_pragmas();
+
+    // The index file can exist without the tables in it, if a previous process
+    // was interrupted while creating it
+    bool need_create = true;
+    {
+        Query q("find_md_table", m_db);
+        q.compile("SELECT 1 FROM sqlite_master WHERE type='table' AND "
+                  "name='md'");
+        while (q.step())
+            need_create = false;
+    }
 
     if (need_create)
     {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
         if (!m_others)
         {
             std::set<types::Code> other_members = this->all_other_tables();
             if (not other_members.empty())
                 m_others = new Aggregate(m_db, "mdother", other_members);
         }
+        core::Pending p_create = this->begin_transaction();
         init_db();
+        p_create.commit();
     }
     else
-    {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
         this->init_others();
-    }
 }
 
 template <typename LockType> void WIndex<LockType>::init_db()
-- 
2.43.0


From 5ba64f13413722f812400ab459116f25933d115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 010/111] fix: do not write over data left in a directory
 segment by an interrupted import

---
 arki/segment/data/dir.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..a747800 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -468,6 +468,12 @@ BaseWriter<Data>::BaseWriter(const segment::WriterConfig& config,
     current_pos = seqfile.read_sequence();
     if (!seqfile.new_file)
         ++current_pos;
+    // Skip files left by a process that was interrupted before it could update
+    // the sequence file
+    while (std::filesystem::exists(
+        this->segment().abspath() /
+        SequenceFile::data_fname(current_pos, this->segment().format())))
+        ++current_pos;
 }
 
 template <typename Data> BaseWriter<Data>::~BaseWriter()
-- 
2.43.0


From 0f6ebcdbe5f0cb76703ff2f59106adfb83391847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 011/111] fix: appending to a segment does not forget data left
 out of its metadata by an interrupted import

---
 arki/segment/metadata.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 2674cbe..16d480f 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -316,8 +316,34 @@ Writer::Writer(std::shared_ptr<const Segment> segment,
     : segment::Writer(segment, lock), data(segment::Data::create(segment))
 {
     // Read the metadata
-    auto reader = segment->reader(lock);
-    reader->read_all(mds.inserter_func());
+    if (has_valid_metadata(segment))
+    {
+        auto reader = segment->reader(lock);
+        reader->read_all(mds.inserter_func());
+    }
+    else if (sys::access(segment->abspath_metadata(), F_OK))
+    {
+        // The data is newer than the metadata, because a previous import was
+        // interrupted before it could update the metadata. What is described
+        // in the metadata is still in the segment
+        Index(*segment).read_all(nullptr, mds.inserter_func());
+    }
+    else if (data->exists_on_disk())
+    {
+        // The metadata has not been written yet, or it has been removed: find
+        // what is in the segment, so that it is not forgotten when writing the
+        // new metadata
+        try
+        {
+            data->reader(lock)->scan_data(mds.inserter_func());
+        }
+        catch (std::exception& e)
+        {
+            nag::warning("%s: segment without metadata can only be scanned in "
+                         "part: %s",
+                         segment->abspath().c_str(), e.what());
+        }
+    }
 
     // Read the summary
     if (!mds.empty())
-- 
2.43.0


From b407d21cc007727fba01d8c65c1132d18c53461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 012/111] fix: temporary metadata files left by an interrupted
 process do not prevent further writes

---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..3264d47 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 16d480f..d5322f1 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -93,9 +93,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From ffe5152288c398ebf7f9be9f43447ba9f0afe995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 013/111] fix: sync data to disk before it replaces the segment
 being repacked

---
 arki/segment/data/fd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 216a23f..d594c89 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -617,6 +617,8 @@ core::Pending Checker::repack(Collection& mds, const RepackConfig&)
         core::File in(this->segment().abspath(), O_RDONLY);
         core::File out(tmpabspath, O_WRONLY | O_CREAT | O_TRUNC, 0666);
         plan.execute(in, out);
+        // Make sure the data is on disk before it replaces the old segment
+        out.fdatasync();
     }
 
     // Release locks on the source segment, which is about to go away
-- 
2.43.0


From 5e8a0581858772367894d77ff21ba32e54043870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 014/111] fix: do not leave outdated summaries when interrupted

---
 arki/dataset/iseg/checker.cc   | 13 +++++++++++--
 arki/dataset/iseg/writer.cc    |  5 +++++
 arki/dataset/segmented.cc      |  3 ++-
 arki/dataset/segmented.h       |  1 +
 arki/dataset/simple/checker.cc |  9 +++++++++
 arki/dataset/simple/writer.cc  |  5 ++++-
 arki/segment/metadata.cc       |  4 ++++
 7 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index bee5489..e7dbaa7 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -126,6 +126,7 @@ public:
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
+        invalidate_summary_cache();
         fixer->reindex(mds);
 
         // Remove .metadata and .summary files
@@ -147,6 +148,7 @@ public:
         mds = mds.without_duplicates(unique_codes);
 
         auto fixer = segment_checker->fixer();
+        invalidate_summary_cache();
         fixer->reindex(mds);
         invalidate_summary_cache();
     }
@@ -157,6 +159,7 @@ public:
     {
         metadata::Collection mds = segment_checker->scan();
         auto fixer               = segment_checker->fixer();
+        invalidate_summary_cache();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
         invalidate_summary_cache();
@@ -376,8 +379,6 @@ void Checker::check_issue51(CheckerConfig& opts)
 
 void Checker::remove(const metadata::Collection& mds)
 {
-    segmented::Checker::remove(mds);
-
     // Months to invalidate in summary cache
     std::set<std::pair<int, int>> months;
 
@@ -388,9 +389,17 @@ void Checker::remove(const metadata::Collection& mds)
         months.insert(std::make_pair(time.ye, time.mo));
     }
 
+    // Invalidate before removing, so that no outdated summary is left if we
+    // are interrupted, and after, in case a reader cached a summary in the
+    // meantime
     index::SummaryCache scache(dataset().summary_cache_pathname);
     for (const auto& i : months)
         scache.invalidate(i.first, i.second);
+
+    segmented::Checker::remove(mds);
+
+    for (const auto& i : months)
+        scache.invalidate(i.first, i.second);
 }
 
 size_t Checker::vacuum(dataset::Reporter&) { return 0; }
diff --git a/arki/dataset/iseg/writer.cc b/arki/dataset/iseg/writer.cc
index 0c728f1..8247511 100644
--- a/arki/dataset/iseg/writer.cc
+++ b/arki/dataset/iseg/writer.cc
@@ -70,6 +70,11 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         std::shared_ptr<core::AppendLock> lock(
             dataset().append_lock_segment(segment->relpath()));
         auto writer = segment->writer(lock);
+        // Invalidate before storing, so that no outdated summary is left if we
+        // are interrupted, and after, in case a reader cached a summary in the
+        // meantime
+        for (const auto& e : s.second)
+            scache.invalidate(*e->md);
         writer->acquire(s.second, writer_config);
         scache.invalidate(s.second);
     }
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 7b7940c..2eb5951 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -307,7 +307,8 @@ segment::Fixer::MarkRemovedResult
 CheckerSegment::remove_data(const std::set<uint64_t>& offsets)
 {
     auto fixer = segment_checker->fixer();
-    auto res   = fixer->mark_removed(offsets);
+    pre_remove_data(fixer);
+    auto res = fixer->mark_removed(offsets);
     post_remove_data(fixer, res);
     return res;
 }
diff --git a/arki/dataset/segmented.h b/arki/dataset/segmented.h
index f9b12c1..e78907e 100644
--- a/arki/dataset/segmented.h
+++ b/arki/dataset/segmented.h
@@ -138,6 +138,7 @@ protected:
                              segment::Fixer::ReorderResult&)
     {
     }
+    virtual void pre_remove_data(std::shared_ptr<segment::Fixer>) {}
     virtual void post_remove_data(std::shared_ptr<segment::Fixer>,
                                   segment::Fixer::MarkRemovedResult&)
     {
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 800c8d7..51e46a6 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -137,6 +137,12 @@ public:
         return res;
     }
 
+    void pre_remove_data(std::shared_ptr<segment::Fixer>) override
+    {
+        // Never leave an outdated summary if interrupted
+        invalidate_dataset_summary();
+    }
+
     void post_remove_data(std::shared_ptr<segment::Fixer>,
                           segment::Fixer::MarkRemovedResult& res) override
     {
@@ -175,6 +181,7 @@ public:
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
+        invalidate_dataset_summary();
         fixer->reindex(mds);
 
         time_t mtime = segment_checker->timestamp().value();
@@ -203,6 +210,7 @@ public:
         mds.expand_date_range(interval);
 
         auto fixer = segment_checker->fixer();
+        invalidate_dataset_summary();
         fixer->reindex(mds);
 
         // Add to manifest
@@ -217,6 +225,7 @@ public:
     {
         metadata::Collection mds = segment_checker->scan();
         auto fixer               = segment_checker->fixer();
+        invalidate_dataset_summary();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
         dataset_checker.manifest.remove(segment->relpath());
diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 3ca89b8..03de3fc 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -61,7 +61,10 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
     {
         auto segment = dataset().segment_session->segment_from_relpath(s.first);
         auto writer  = segment->writer(lock);
-        auto res     = writer->acquire(s.second, writer_config);
+        // Invalidate before storing, so that no outdated summary is left if we
+        // are interrupted
+        invalidate_summary();
+        auto res = writer->acquire(s.second, writer_config);
         if (res.count_ok > 0)
         {
             manifest.set(segment->relpath(), res.segment_mtime,
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index d5322f1..d8462e0 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -127,6 +127,8 @@ struct AtomicWriterWithSummary
     {
         if (out_md)
         {
+            // Never leave an outdated summary next to newer metadata
+            std::filesystem::remove(segment.abspath_summary());
             out_md.close();
             std::filesystem::rename(out_md.path(), segment.abspath_metadata());
         }
@@ -380,6 +382,8 @@ void Writer::write_metadata()
     auto path_sum = segment().abspath_summary();
 
     mds.prepare_for_segment_metadata();
+    // Never leave an outdated summary next to newer metadata
+    std::filesystem::remove(path_sum);
     mds.writeAtomically(path_md);
     sum.writeAtomically(path_sum);
 }
-- 
2.43.0


From 36f406d0f3fcaf0fc782adc9b4fdfe064ccb700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 015/111] fix: do not take what is left of an interrupted
 repack for segments

---
 arki/dataset/segmented.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 2eb5951..e648cf2 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -610,6 +610,10 @@ void Checker::scan_dir(
             return false;
 
         string name = entry->d_name;
+        // Skip what is left of interrupted repacks of directory segments
+        if (str::endswith(name, ".repack") or str::endswith(name, ".pre-repack"))
+            return false;
+
         if (dataset().segment_session->is_segment(relpath / name))
         {
             auto basename = Segment::basename(name);
-- 
2.43.0


From ef9314d2340ec9bb1d4218ce09d5005db5286e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 016/111] fix: an interrupted repack or conversion of a
 directory segment does not leave part of its data

---
 arki/segment/data/dir.cc | 42 +++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index a747800..9df2f4f 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -654,16 +654,28 @@ void BaseChecker<Data>::foreach_datafile(std::function<void(const char*)> f)
 template <typename Data> size_t BaseChecker<Data>::remove()
 {
     size_t size = 0;
+    std::vector<std::string> names;
     foreach_datafile([&](const char* name) {
-        filesystem::path pathname = this->segment().abspath() / name;
-        size += sys::size(pathname);
-        sys::unlink(pathname);
+        size += sys::size(this->segment().abspath() / name);
+        names.push_back(name);
     });
-    std::filesystem::remove(this->segment().abspath() / ".sequence");
-    std::filesystem::remove(this->segment().abspath() / ".write-lock");
-    std::filesystem::remove(this->segment().abspath() / ".repack-lock");
+
+    // Move the directory out of the way first, so that if we are interrupted
+    // it does not look like a segment with missing data
+    const auto& abspath              = this->segment().abspath();
+    std::filesystem::path tmpabspath = sys::with_suffix(abspath, ".repack");
+    if (std::filesystem::exists(tmpabspath))
+        sys::rmtree(tmpabspath);
+    std::filesystem::rename(abspath, tmpabspath);
+
+    for (const auto& name : names)
+        sys::unlink(tmpabspath / name);
+    std::filesystem::remove(tmpabspath / ".sequence");
+    std::filesystem::remove(tmpabspath / ".write-lock");
+    std::filesystem::remove(tmpabspath / ".repack-lock");
     // Also remove the directory if it is empty
-    rmdir(this->segment().abspath().c_str());
+    if (rmdir(tmpabspath.c_str()) != 0)
+        std::filesystem::rename(tmpabspath, abspath);
     return size;
 }
 
@@ -696,6 +708,18 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
             if (fired)
                 return;
 
+            // Atomically swap the old and the new directories, if the file
+            // system can do it
+            if (renameat2(AT_FDCWD, tmpabspath.c_str(), AT_FDCWD,
+                          abspath.c_str(), RENAME_EXCHANGE) == 0)
+            {
+                fired = true;
+
+                // Remove the old data
+                sys::rmtree(tmpabspath);
+                return;
+            }
+
             // It is impossible to make this atomic, so we just try to make it
             // as quick as possible
 
@@ -768,6 +792,10 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
     filesystem::path tmpabspath =
         sys::with_suffix(this->segment().abspath(), ".repack");
 
+    // Remove what was left by an interrupted repack
+    if (std::filesystem::exists(tmpabspath))
+        sys::rmtree(tmpabspath);
+
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
     Creator creator(this->segment(), mds, tmpabspath);
-- 
2.43.0


From 56634ad7038be80f52da7daa3b3a028b807124c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 017/111] fix: do not leave an outdated summary when
 interrupted while deleting all data of a segment

---
 arki/segment/metadata.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index d8462e0..3d84404 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -642,8 +642,9 @@ Fixer::MarkRemovedResult Fixer::mark_removed(const std::set<uint64_t>& offsets)
     {
         auto path_metadata = segment().abspath_metadata();
         auto path_summary  = segment().abspath_summary();
+        // Never leave an outdated summary next to newer metadata
+        std::filesystem::remove(path_summary);
         mds.writeAtomically(path_metadata);
-        std::filesystem::remove(segment().abspath_summary());
         res.data_timespan = core::Interval();
     }
     else
-- 
2.43.0


From 011013a0da9660330f8e89e015d2457c78a3a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 018/111] fix: rescan segments when interrupted between
 replacing the data and updating its index

---
 arki/segment/data.cc       |  9 ++---
 arki/segment/data.h        | 27 +++++++-------
 arki/segment/iseg.cc       | 72 ++++++++++++++++++++++++++------------
 arki/segment/iseg.h        |  3 ++
 arki/segment/iseg/index.cc | 60 ++++++++++++++++++++++++-------
 arki/segment/iseg/index.h  | 33 +++++++++++++++++
 arki/segment/metadata.cc   | 18 ++++++----
 arki/segment/scan.cc       |  3 ++
 8 files changed, 166 insertions(+), 59 deletions(-)

diff --git a/arki/segment/data.cc b/arki/segment/data.cc
index 0a06442..ac265dc 100644
--- a/arki/segment/data.cc
+++ b/arki/segment/data.cc
@@ -193,16 +193,12 @@ void Writer::PendingMetadata::set_source()
 
 std::shared_ptr<const segment::Data> Checker::tar(Collection& mds)
 {
-    auto new_data = segment::data::tar::Data::create(segment(), mds);
-    remove();
-    return new_data;
+    return segment::data::tar::Data::create(segment(), mds);
 }
 
 std::shared_ptr<const segment::Data> Checker::zip(Collection& mds)
 {
-    auto new_data = segment::data::zip::Data::create(segment(), mds);
-    remove();
-    return new_data;
+    return segment::data::zip::Data::create(segment(), mds);
 }
 
 std::shared_ptr<const segment::Data> Checker::compress(Collection& mds,
@@ -219,7 +215,6 @@ std::shared_ptr<const segment::Data> Checker::compress(Collection& mds,
             res = segment::data::gzconcat::Data::create(
                 segment(), mds, RepackConfig(groupsize));
     }
-    remove();
     return res;
 }
 
diff --git a/arki/segment/data.h b/arki/segment/data.h
index a871bfe..be966b0 100644
--- a/arki/segment/data.h
+++ b/arki/segment/data.h
@@ -251,29 +251,32 @@ public:
                                  const RepackConfig& cfg = RepackConfig()) = 0;
 
     /**
-     * Replace this segment with a tar segment, updating the metadata in mds to
-     * point to the right locations inside the tarball>
+     * Create a tar segment with the data in this segment, updating the metadata
+     * in mds to point to the right locations inside the tarball.
      *
-     * Use of the associated Data and its readers, writers and checkers is
-     * undefined behaviour after this call.
+     * The data in this segment is left where it is: use remove() to switch to
+     * the new data. Any other use of the associated Data and its readers,
+     * writers and checkers is undefined behaviour after this call.
      */
     virtual std::shared_ptr<const Data> tar(arki::metadata::Collection& mds);
 
     /**
-     * Replace this segment with a zip segment, updating the metadata in mds to
-     * point to the right locations inside the zip file.
+     * Create a zip segment with the data in this segment, updating the metadata
+     * in mds to point to the right locations inside the zip file.
      *
-     * Use of the associated Data and its readers, writers and checkers is
-     * undefined behaviour after this call.
+     * The data in this segment is left where it is: use remove() to switch to
+     * the new data. Any other use of the associated Data and its readers,
+     * writers and checkers is undefined behaviour after this call.
      */
     virtual std::shared_ptr<const Data> zip(arki::metadata::Collection& mds);
 
     /**
-     * Replace this segment with a compressed segment, updating the metadata in
-     * mds to point to the right locations if needed.
+     * Create a compressed segment with the data in this segment, updating the
+     * metadata in mds to point to the right locations if needed.
      *
-     * Use of the associated Data and its readers, writers and checkers is
-     * undefined behaviour after this call.
+     * The data in this segment is left where it is: use remove() to switch to
+     * the new data. Any other use of the associated Data and its readers,
+     * writers and checkers is undefined behaviour after this call.
      */
     virtual std::shared_ptr<const Data>
     compress(arki::metadata::Collection& mds, unsigned groupsize);
diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 506d37a..afc8a4d 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -49,7 +49,14 @@ Session::create_segment_reader(std::shared_ptr<const arki::Segment> segment,
                                std::shared_ptr<const core::ReadLock> lock) const
 {
     if (has_valid_iseg_index(segment))
-        return std::make_shared<segment::iseg::Reader>(segment, lock);
+    {
+        auto res = std::make_shared<segment::iseg::Reader>(segment, lock);
+        if (res->has_index())
+            return res;
+        nag::warning("%s: index has not been completely created",
+                     segment->abspath().c_str());
+        return std::make_shared<segment::EmptyReader>(segment, lock);
+    }
 #if 0
     // Do not fall back to a rescan: if metadata is missing, we skip the
     // segment. This is best fixed by a rescan, rather than introducing a
@@ -108,6 +115,8 @@ Reader::Reader(std::shared_ptr<const Segment> segment,
 {
 }
 
+bool Reader::has_index() { return m_index->has_tables() && !m_index->is_outdated(); }
+
 bool Reader::has_changed() const
 {
     // The read lock held by the reader prevent the segment from being changed
@@ -417,7 +426,7 @@ arki::metadata::Collection Checker::scan()
 {
     arki::metadata::Collection res;
 
-    if (has_valid_iseg_index(m_segment))
+    if (has_valid_iseg_index(m_segment) && !index().needs_rescan())
     {
         auto reader = segment().reader(lock);
 
@@ -463,7 +472,8 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
     res.size  = data->size();
 
     time_t ts_index = sys::timestamp(segment().abspath_iseg_index(), 0);
-    if (!ts_index)
+    // Creation of the index may have been interrupted
+    if (!ts_index or index().needs_rescan())
     {
         if (data->is_empty())
         {
@@ -593,8 +603,7 @@ Fixer::ReorderResult Fixer::reorder(arki::metadata::Collection& mds,
                                     const segment::RepackConfig& repack_config)
 {
     ReorderResult res;
-    auto& index        = checker().index();
-    auto pending_index = index.begin_transaction();
+    auto& index = checker().index();
 
     // Make a copy of the file with the data in it ordered as mds is ordered,
     // and update the offsets in the index
@@ -603,15 +612,13 @@ Fixer::ReorderResult Fixer::reorder(arki::metadata::Collection& mds,
 
     auto pending_repack = data_checker->repack(mds, repack_config);
 
+    // If we are interrupted between here and committing the new index, it will
+    // not match the data
+    index.set_outdated();
+
     // Reindex mds
-    index.reset();
-    for (const auto& md : mds)
-    {
-        const auto& source = md->sourceBlob();
-        if (index.index(*md, source.offset))
-            throw std::runtime_error(
-                "duplicate detected while reordering segment");
-    }
+    auto pending_index = index.begin_transaction();
+    index.reindex(mds);
 
     // Commit the changes in the file system
     pending_repack.commit();
@@ -662,9 +669,8 @@ Fixer::ConvertResult Fixer::tar()
     }
     res.size_pre = checker().data->size();
 
-    auto& index        = checker().index();
-    auto data_checker  = checker().data->checker();
-    auto pending_index = index.begin_transaction();
+    auto& index       = checker().index();
+    auto data_checker = checker().data->checker();
 
     // Rescan file and sort for repacking
     auto mds = checker().scan();
@@ -674,9 +680,17 @@ Fixer::ConvertResult Fixer::tar()
     auto new_data = data_checker->tar(mds);
     res.size_post = new_data->size();
 
+    // If we are interrupted between here and committing the new index, it will
+    // not match the data
+    index.set_outdated();
+
     // Reindex the new metadata
+    auto pending_index = index.begin_transaction();
     index.reindex(mds);
 
+    // Remove the old data
+    data_checker->remove();
+
     // Commit the changes in the database
     pending_index.commit();
 
@@ -703,9 +717,8 @@ Fixer::ConvertResult Fixer::zip()
     }
     res.size_pre = checker().data->size();
 
-    auto& index        = checker().index();
-    auto data_checker  = checker().data->checker();
-    auto pending_index = index.begin_transaction();
+    auto& index       = checker().index();
+    auto data_checker = checker().data->checker();
 
     // Rescan file and sort for repacking
     auto mds = checker().scan();
@@ -715,9 +728,17 @@ Fixer::ConvertResult Fixer::zip()
     auto new_data = data_checker->zip(mds);
     res.size_post = new_data->size();
 
+    // If we are interrupted between here and committing the new index, it will
+    // not match the data
+    index.set_outdated();
+
     // Reindex the new metadata
+    auto pending_index = index.begin_transaction();
     index.reindex(mds);
 
+    // Remove the old data
+    data_checker->remove();
+
     // Commit the changes in the database
     pending_index.commit();
 
@@ -747,9 +768,8 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     res.size_pre = checker().data->size();
 
-    auto& index        = checker().index();
-    auto data_checker  = checker().data->checker();
-    auto pending_index = index.begin_transaction();
+    auto& index       = checker().index();
+    auto data_checker = checker().data->checker();
 
     // Rescan file and sort for repacking
     auto mds = checker().scan();
@@ -759,9 +779,17 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
     auto new_data = data_checker->compress(mds, groupsize);
     res.size_post = new_data->size();
 
+    // If we are interrupted between here and committing the new index, it will
+    // not match the data
+    index.set_outdated();
+
     // Reindex the new metadata
+    auto pending_index = index.begin_transaction();
     index.reindex(mds);
 
+    // Remove the old data
+    data_checker->remove();
+
     // Commit the changes in the database
     pending_index.commit();
 
diff --git a/arki/segment/iseg.h b/arki/segment/iseg.h
index 390785a..9b471fc 100644
--- a/arki/segment/iseg.h
+++ b/arki/segment/iseg.h
@@ -49,6 +49,9 @@ public:
     Reader(std::shared_ptr<const Segment> segment,
            std::shared_ptr<const core::ReadLock> lock);
 
+    /// Check if the index has been completely created
+    bool has_index();
+
     bool has_changed() const override;
 
     std::vector<uint8_t> read(const types::source::Blob& src) override;
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index 1315ab2..a9f4e61 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -72,6 +72,27 @@ template <typename LockType> core::Pending Index<LockType>::begin_transaction()
     return core::Pending(new SqliteTransaction(m_db));
 }
 
+template <typename LockType> bool Index<LockType>::has_tables()
+{
+    bool res = false;
+    Query q("find_md_table", m_db);
+    q.compile(
+        "SELECT 1 FROM sqlite_master WHERE type='table' AND name='md'");
+    while (q.step())
+        res = true;
+    return res;
+}
+
+template <typename LockType> bool Index<LockType>::is_outdated()
+{
+    bool res = false;
+    Query q("get_user_version", m_db);
+    q.compile("PRAGMA user_version");
+    while (q.step())
+        res = q.fetch<int>(0) != 0;
+    return res;
+}
+
 template <typename LockType>
 std::set<types::Code> Index<LockType>::available_other_tables() const
 {
@@ -474,16 +495,7 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
 
     // The index file can exist without the tables in it, if a previous process
     // was interrupted while creating it
-    bool need_create = true;
-    {
-        Query q("find_md_table", m_db);
-        q.compile("SELECT 1 FROM sqlite_master WHERE type='table' AND "
-                  "name='md'");
-        while (q.step())
-            need_create = false;
-    }
-
-    if (need_create)
+    if (!has_tables())
     {
         if (!m_others)
         {
@@ -491,14 +503,35 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
             if (not other_members.empty())
                 m_others = new Aggregate(m_db, "mdother", other_members);
         }
-        core::Pending p_create = this->begin_transaction();
+        m_create  = Index<LockType>::begin_transaction();
+        m_created = true;
+        m_new     = true;
         init_db();
-        p_create.commit();
     }
     else
         this->init_others();
 }
 
+template <typename LockType> void WIndex<LockType>::set_outdated()
+{
+    m_db.exec("PRAGMA user_version = 1");
+}
+
+template <typename LockType> core::Pending WIndex<LockType>::begin_transaction()
+{
+    if (m_created)
+    {
+        m_created = false;
+        return std::move(m_create);
+    }
+
+    core::Pending res = Index<LockType>::begin_transaction();
+    // The transaction that created the tables may have been rolled back
+    if (!has_tables())
+        init_db();
+    return res;
+}
+
 template <typename LockType> void WIndex<LockType>::init_db()
 {
     if (m_uniques)
@@ -664,6 +697,7 @@ void WIndex<LockType>::reindex(const arki::metadata::Collection& mds)
             throw std::runtime_error(
                 "duplicate detected while reordering segment");
     }
+    m_db.exec("PRAGMA user_version = 0");
 }
 
 template <typename LockType>
@@ -671,6 +705,7 @@ std::unique_ptr<types::source::Blob> WIndex<LockType>::index(const Metadata& md,
                                                              uint64_t ofs)
 {
     std::unique_ptr<types::source::Blob> res;
+    m_new = false;
     if (!m_insert.compiled())
         compile_insert();
     Inserter<LockType> inserter(*this, md);
@@ -724,6 +759,7 @@ template <typename LockType> void WIndex<LockType>::flush()
 
 template <typename LockType> void WIndex<LockType>::reset()
 {
+    m_new = false;
     m_db.exec("DELETE FROM md");
 }
 
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 9fe996b..7c6f2df 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -123,6 +123,16 @@ public:
     /// Begin a transaction and return the corresponding Pending object
     core::Pending begin_transaction();
 
+    /**
+     * Check if the tables exist in the database.
+     *
+     * They do not if a process was interrupted while creating the index.
+     */
+    bool has_tables();
+
+    /// Check if a process was interrupted while replacing the segment data
+    bool is_outdated();
+
     /**
      * Return the min-max reftime interval known to the index.
      *
@@ -180,6 +190,13 @@ protected:
     utils::sqlite::InsertQuery m_insert;
     utils::sqlite::PrecompiledQuery m_replace;
 
+    /// Transaction in which the tables have been created. It is the one used
+    /// by the first change to the index, so that a new index is never found
+    /// without its contents
+    core::Pending m_create;
+    bool m_created = false;
+    bool m_new     = false;
+
     /// Create the tables in the database
     void init_db();
 
@@ -191,6 +208,22 @@ protected:
 public:
     using Index<LockType>::session;
     using Index<LockType>::segment;
+    using Index<LockType>::has_tables;
+
+    core::Pending begin_transaction();
+
+    /**
+     * Mark the index as not describing the data in the segment, until the next
+     * reindex() is committed.
+     *
+     * If the process is interrupted between replacing the data and committing
+     * the new index, the mark tells that the segment needs to be rescanned
+     */
+    void set_outdated();
+
+    /// Check if the contents of the index cannot be used, because it has just
+    /// been created or because it is marked as outdated
+    bool needs_rescan() { return m_new or this->is_outdated(); }
 
     /**
      * Completely reindex the segment using the given metadata.
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 3d84404..5159d12 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -738,10 +738,12 @@ Fixer::ConvertResult Fixer::tar()
     auto mds = checker().scan();
     mds.sort_segment();
 
-    std::filesystem::remove(path_metadata);
-
     // Create the .tar segment
     auto new_data = data_checker->tar(mds);
+
+    // Remove the old data, with the metadata that describes it
+    std::filesystem::remove(path_metadata);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     // Write out the new metadata
@@ -784,10 +786,12 @@ Fixer::ConvertResult Fixer::zip()
     auto mds = checker().scan();
     mds.sort_segment();
 
-    std::filesystem::remove(path_metadata);
-
     // Create the .zip segment
     auto new_data = data_checker->zip(mds);
+
+    // Remove the old data, with the metadata that describes it
+    std::filesystem::remove(path_metadata);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     // Write out the new metadata
@@ -832,10 +836,12 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
     auto mds = checker().scan();
     mds.sort_segment();
 
-    std::filesystem::remove(path_metadata);
-
     // Create the .zip segment
     auto new_data = data_checker->compress(mds, groupsize);
+
+    // Remove the old data, with the metadata that describes it
+    std::filesystem::remove(path_metadata);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     // Write out the new metadata
diff --git a/arki/segment/scan.cc b/arki/segment/scan.cc
index aa1c279..d45c04a 100644
--- a/arki/segment/scan.cc
+++ b/arki/segment/scan.cc
@@ -360,6 +360,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Create the .tar segment
     auto new_data = data_checker->tar(mds);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     checker().update_data();
@@ -394,6 +395,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Create the .zip segment
     auto new_data = data_checker->zip(mds);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     checker().update_data();
@@ -430,6 +432,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Create the .zip segment
     auto new_data = data_checker->compress(mds, groupsize);
+    data_checker->remove();
     res.size_post = new_data->size();
 
     checker().update_data();
-- 
2.43.0


From 111379f93901df7d5d764f26467678d7298f80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 019/111] fix: compare update sequence numbers inside a batch
 that creates the index of a segment

---
 arki/segment/iseg.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index afc8a4d..42929d2 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -310,7 +310,9 @@ Writer::acquire_batch_replace_higher_usn(arki::metadata::InboundBatch& batch,
                 }
 
                 // Read the update sequence number of the old BUFR
-                auto reader = segment().reader(lock);
+                // (do not rely on the index having been committed: it may have
+                // been created in this transaction)
+                auto reader = std::make_shared<Reader>(m_segment, lock);
                 old->lock(reader);
                 auto old_scanner = arki::data::Scanner::get(old->format);
                 int old_usn;
@@ -392,7 +394,9 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
     }
 
     res.segment_mtime = data->timestamp().value_or(0);
-    res.data_timespan = index->query_data_timespan();
+    // There are no tables if the transaction that creates them was rolled back
+    if (index->has_tables())
+        res.data_timespan = index->query_data_timespan();
     return res;
 }
 
-- 
2.43.0


From da076eb73e0555c1803a6d0fa5c81e5e3e525822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 020/111] fix: support weekly and biweekly steps in all
 datasets, and ignore files in unknown formats

---
 arki/dataset/step.cc | 160 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 129 insertions(+), 31 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..d9c77bd 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -53,6 +53,20 @@ struct BaseFiles : public Files
     virtual std::filesystem::path to_relpath(const Regexp& re) const = 0;
     virtual DataFormat to_format(const utils::Regexp& re) const      = 0;
 
+    /// Check if the name is that of a segment in the format we look for
+    bool is_segment(const utils::Regexp& re) const
+    {
+        try
+        {
+            return dirs.query.format == to_format(re);
+        }
+        catch (std::runtime_error&)
+        {
+            // Not a format that we know
+            return false;
+        }
+    }
+
     void list(std::function<void(std::filesystem::path&& relpath)> dest)
         const override
     {
@@ -64,7 +78,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!is_segment(*re))
                 continue;
 
             // Its period must match the matcher in q
@@ -92,7 +106,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!is_segment(*re))
                 continue;
 
             if (res_name.empty() || f->d_name < res_name)
@@ -121,7 +135,7 @@ struct BaseFiles : public Files
                 continue;
             if (!re->match(f->d_name))
                 continue;
-            if (dirs.query.format != to_format(*re))
+            if (!is_segment(*re))
                 continue;
             if (res_name.empty() || res_name < f->d_name)
             {
@@ -251,6 +265,94 @@ struct MonthDayFiles : public BaseFiles
     }
 };
 
+/// Time interval of a week of a month. The last week ends with the month
+static core::Interval week_period(int year, int month, int week)
+{
+    core::Time begin =
+        core::Time::create_lowerbound(year, month, (week - 1) * 7 + 1);
+    core::Time end = begin;
+    end.da += 7;
+    end.normalise();
+    if (end > begin.start_of_next_month())
+        end = begin.start_of_next_month();
+    return core::Interval(begin, end);
+}
+
+/// Time interval of the first or second half of a month
+static core::Interval biweek_period(int year, int month, int biweek)
+{
+    core::Time begin  = core::Time::create_lowerbound(year, month);
+    core::Time middle = core::Time::create_lowerbound(year, month, 16);
+    if (biweek == 1)
+        return core::Interval(begin, middle);
+    else
+        return core::Interval(middle, begin.start_of_next_month());
+}
+
+/// Check if there is such a week in the month
+static bool is_valid_week(int year, int month, int week)
+{
+    return month >= 1 && month <= 12 && week >= 1 &&
+           (week - 1) * 7 < core::Time::days_in_month(year, month);
+}
+
+static bool is_valid_biweek(int month, int biweek)
+{
+    return month >= 1 && month <= 12 && (biweek == 1 || biweek == 2);
+}
+
+struct MonthWeekFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^((0[1-9]|1[0-2])-([1-5])\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        return week_period(value, std::stoul(re[2]), std::stoul(re[3]));
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
+struct MonthBiweekFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^((0[1-9]|1[0-2])-([12])\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        return biweek_period(value, std::stoul(re[2]), std::stoul(re[3]));
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
 Dirs::Dirs(const SegmentQuery& query) : query(query) {}
 
 struct BaseDirs : public Dirs
@@ -648,26 +750,22 @@ struct Biweekly : public BaseStep
 {
     static const char* name() { return "biweekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthBiweekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        int ye, mo, biweek;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
             return false;
-
-        switch (biweek)
-        {
-            case 1:
-                interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
-                break;
-            case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
-                interval.end.set_lowerbound(ye, mo + 1, 1);
-                interval.end.normalise();
-                break;
-            default: break;
-        }
+        if (!step::is_valid_biweek(mo, biweek))
+            return false;
+        interval = step::biweek_period(ye, mo, biweek);
         return true;
     }
 
@@ -687,22 +785,22 @@ struct Weekly : public BaseStep
 {
     static const char* name() { return "weekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthWeekFiles>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        int ye, mo, week;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
+        if (!step::is_valid_week(ye, mo, week))
+            return false;
+        interval = step::week_period(ye, mo, week);
         return true;
     }
 
-- 
2.43.0


From 0224f0788534da06cec5ac51bedb7a0099253a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 021/111] fix: restrict queries to the union, and not the
 intersection, of alternative reference times

---
 arki/matcher/utils.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..8b1018e 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,14 +194,29 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Extend the result to cover what is matched by any of the components
+    bool found = false;
+    core::Interval res;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval restricted(interval);
+        if (!rt->intersect_interval(restricted))
+            continue;
+        if (found)
+            res.extend(restricted);
+        else
+            res = restricted;
+        found = true;
     }
+    if (!found)
+        return false;
+    interval = res;
     return true;
 }
 
-- 
2.43.0


From bed15e82c52e709564b0957e261283eb8aad9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 022/111] fix: compute the right month in reftime expressions
 like '1 month ago' at the end of longer months

---
 arki/matcher/reftime/reftime-parse.yy | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/reftime/reftime-parse.yy b/arki/matcher/reftime/reftime-parse.yy
index 6e2ab34..3add09d 100644
--- a/arki/matcher/reftime/reftime-parse.yy
+++ b/arki/matcher/reftime/reftime-parse.yy
@@ -133,12 +133,13 @@ static arki::core::FuzzyTime* interval_ago(const int* val, time_t now)
     struct tm v;
     gmtime_r(&now, &v);
     std::unique_ptr<arki::core::FuzzyTime> res(new arki::core::FuzzyTime(v));
-    interval_sub(*res, val);
 
     // Compute how many nonzero items we have
     unsigned depth = interval_depth(val);
 
-    // Set all the elements after the position of the last nonzero item to -1
+    // Set all the elements after the position of the last nonzero item to -1.
+    // This is done before subtracting, because there may not be a day with the
+    // same number in the resulting month
     switch (depth)
     {
         case 0: res->ye = -1; // Falls through
@@ -149,6 +150,8 @@ static arki::core::FuzzyTime* interval_ago(const int* val, time_t now)
         case 5: res->se = -1;
     }
 
+    interval_sub(*res, val);
+
     return res.release();
 }
 
-- 
2.43.0


From fb3a64d0876563901bb2b4c6f19579452298cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 023/111] fix: match time intervals shorter than a day that
 include matching times

---
 arki/matcher/reftime/parser.cc | 102 ++++++++++++---------------------
 1 file changed, 38 insertions(+), 64 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..19a90d9 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -66,6 +66,36 @@ static int time_to_seconds(const Time& t)
     return t.ho * 3600 + t.mi * 60 + t.se;
 }
 
+/**
+ * Check if an interval contains any instant whose time of the day, in seconds,
+ * is between min and max (both included)
+ */
+static bool interval_contains_time(const Interval& interval, int min, int max)
+{
+    if (min > max)
+        return false;
+
+    // An open interval necessarily covers a whole day
+    if (!interval.begin.is_set() || !interval.end.is_set())
+        return true;
+
+    // If the times are more than 24hours apart, then we necessarily cover a
+    // whole day
+    long long int duration = Time::duration(interval);
+    if (duration >= 3600 * 24)
+        return true;
+
+    long long int begin = time_to_seconds(interval.begin);
+    long long int end   = begin + duration;
+
+    // Look at the first day, and at the following one in case the interval
+    // spans midnight
+    for (int day : {0, 3600 * 24})
+        if (day + max >= begin && day + min < end)
+            return true;
+    return false;
+}
+
 struct DateInterval : public DTMatch
 {
     Interval interval;
@@ -153,13 +183,7 @@ struct TimeLE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) <= ref)
-            return true;
-        if (time_to_seconds(interval.end) <= ref)
-            return true;
-        return false;
+        return interval_contains_time(interval, 0, ref);
     }
     string sql(const std::string& column) const override
     {
@@ -178,13 +202,7 @@ struct TimeLT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) < ref)
-            return true;
-        if (time_to_seconds(interval.end) < ref)
-            return true;
-        return false;
+        return interval_contains_time(interval, 0, ref - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -203,13 +221,7 @@ struct TimeGT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) > ref)
-            return true;
-        if (time_to_seconds(interval.end) > ref)
-            return true;
-        return false;
+        return interval_contains_time(interval, ref + 1, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -228,13 +240,7 @@ struct TimeGE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) >= ref)
-            return true;
-        if (time_to_seconds(interval.end) >= ref)
-            return true;
-        return false;
+        return interval_contains_time(interval, ref, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -260,25 +266,7 @@ struct TimeEQ : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        // If the times are more than 24hours apart, then we necessarily cover a
-        // whole day
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        if (rb <= re)
-        {
-            if (rb <= geref && leref <= re)
-                return true;
-        }
-        else
-        {
-            if (leref <= re || rb <= geref)
-                return true;
-        }
-
-        return false;
+        return interval_contains_time(interval, geref, leref);
     }
     string sql(const std::string& column) const override
     {
@@ -320,23 +308,9 @@ struct TimeExact : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
-        {
-            if (rb <= re)
-            {
-                if (*i >= rb && *i <= re)
-                    return true;
-            }
-            else
-            {
-                if (*i >= rb || *i <= re)
-                    return true;
-            }
-        }
+        for (int time : times)
+            if (interval_contains_time(interval, time, time))
+                return true;
         return false;
     }
     string sql(const std::string& column) const override
-- 
2.43.0


From f941e7cf7a415e28bc247af021d42d9588c5fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 024/111] fix: generate SQL that SQLite can parse for reftime
 steps with many matching times

---
 arki/matcher/reftime/parser.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 19a90d9..cc0520a 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -315,8 +315,23 @@ struct TimeExact : public DTMatch
     }
     string sql(const std::string& column) const override
     {
-        string res = "(";
         bool first = true;
+        if (times.size() > 100)
+        {
+            // SQLite has a limit on the depth of expressions
+            string res = "TIME(" + column + ") IN (";
+            for (int time : times)
+            {
+                if (first)
+                    first = false;
+                else
+                    res += ",";
+                res += tosqlTime(time);
+            }
+            return res + ")";
+        }
+
+        string res = "(";
         for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
         {
             if (first)
-- 
2.43.0


From e62d99fe51a3a945d646d150f1041d651acccdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:31 +0000
Subject: [PATCH 025/111] fix: accept time steps in combined units, as
 documented and as generated, and refuse empty ones

---
 arki/matcher/reftime/lexer.cc       | 71 +++++++++++++++--------------
 arki/matcher/reftime/lexer.h        |  3 +-
 arki/matcher/reftime/reftime-lex.ll |  2 +-
 3 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/arki/matcher/reftime/lexer.cc b/arki/matcher/reftime/lexer.cc
index 00e3a56..1e9fc81 100644
--- a/arki/matcher/reftime/lexer.cc
+++ b/arki/matcher/reftime/lexer.cc
@@ -191,45 +191,50 @@ SParser::SParser(const char* sbuf, unsigned slen, struct LexInterval& res)
     }
     else
         eatInsensitive("every");
-    eatSpaces();
-    res.val = num();
-    eatSpaces();
-    itype();
+    // Add up all the parts of the step, in seconds
+    res.val = 0;
+    res.idx = 5;
+    while (true)
+    {
+        eatSpaces();
+        if (!len)
+            break;
+        unsigned long val = num();
+        eatSpaces();
+        val *= unit();
+        if (val > 24 * 3600 || res.val + val > 24 * 3600)
+            // Steps longer than a day are all the same
+            res.val = 24 * 3600;
+        else
+            res.val += val;
+    }
+    if (!res.val)
+        error("time step must be greater than 0");
 }
 
-void SParser::itype()
+int SParser::unit()
 {
-    switch (*buf)
+    // Isolate the unit from what follows
+    unsigned size = 0;
+    while (size < len && isalpha(buf[size]))
+        ++size;
+    Parser name(buf, size);
+    int res = 0;
+    if (name.string_in({"h", "hour", "hours"}))
+        res = 3600;
+    else if (name.string_in({"m", "min", "minute", "minutes"}))
+        res = 60;
+    else if (name.string_in({"s", "sec", "second", "seconds"}))
+        res = 1;
+    if (size && res)
     {
-        case 'h': {
-            if (string_in({"h", "hour", "hours"}))
-            {
-                res.idx = 3;
-                return;
-            }
-            error("expected h, hour or hours");
-            break;
-        }
-        case 'm': {
-            if (string_in({"m", "min", "minute", "minutes"}))
-            {
-                res.idx = 4;
-                return;
-            }
-            error("expected m, min, minute, minutes");
-            break;
-        }
-        case 's': {
-            if (string_in({"s", "sec", "second", "seconds"}))
-            {
-                res.idx = 5;
-                return;
-            }
-            error("expected s, sec, second or seconds");
-            break;
-        }
+        buf += size;
+        len -= size;
+        return res;
     }
     error("expected a time name like hours, minutes or seconds");
+    // This is just to appease the compiler warnings
+    return 0;
 }
 
 } // namespace lexer
diff --git a/arki/matcher/reftime/lexer.h b/arki/matcher/reftime/lexer.h
index 0777292..3f48323 100644
--- a/arki/matcher/reftime/lexer.h
+++ b/arki/matcher/reftime/lexer.h
@@ -236,7 +236,8 @@ struct SParser : public ISParser
 {
     SParser(const char* sbuf, unsigned slen, struct LexInterval& res);
 
-    void itype();
+    /// Parse a time unit, and return how many seconds it is
+    int unit();
 };
 
 } // namespace lexer
diff --git a/arki/matcher/reftime/reftime-lex.ll b/arki/matcher/reftime/reftime-lex.ll
index ac19db1..4cc4675 100644
--- a/arki/matcher/reftime/reftime-lex.ll
+++ b/arki/matcher/reftime/reftime-lex.ll
@@ -54,7 +54,7 @@ an?{space}+{unit} {
         parse_time(yytext + 1, yyleng - 1, yylval->tspec);
         return TIMEBASE;
 }
-(%|every){space}*[0-9]+{space}*{timeunit} {
+(%|every){space}*[0-9]+{space}*{timeunit}({space}*[0-9]+{space}*{timeunit})* {
         SParser p(yytext, yyleng, yylval->lexInterval);
         return STEP;
 }
-- 
2.43.0


From fad89f9a0ded9ff63f493bce32013c66b45c3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 026/111] fix: run:MINUTE was printed in a way that did not
 match anything, and numbers in it were not validated

---
 arki/matcher/run.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arki/matcher/run.cc b/arki/matcher/run.cc
index 1ebacc2..1596dfc 100644
--- a/arki/matcher/run.cc
+++ b/arki/matcher/run.cc
@@ -21,12 +21,19 @@ MatchRunMinute::MatchRunMinute(const std::string& pattern)
         minute = -1;
         return;
     }
+    auto parse_number = [&](const std::string& str) {
+        std::string val = str::strip(str);
+        if (val.empty() || val.find_first_not_of("0123456789") != string::npos)
+            throw invalid_argument("cannot parse run to match: '" + pattern +
+                                   "' is not in the form hour or hour:min");
+        return strtoul(val.c_str(), 0, 10);
+    };
     size_t pos = pattern.find(':');
     if (pos == string::npos)
-        minute = strtoul(pattern.c_str(), 0, 10) * 60;
+        minute = parse_number(pattern) * 60;
     else
-        minute = strtoul(pattern.substr(0, pos).c_str(), 0, 10) * 60 +
-                 strtoul(pattern.substr(pos + 1).c_str(), 0, 10);
+        minute = parse_number(pattern.substr(0, pos)) * 60 +
+                 parse_number(pattern.substr(pos + 1));
 }
 
 MatchRunMinute* MatchRunMinute::clone() const
@@ -60,6 +67,8 @@ bool MatchRunMinute::match_buffer(types::Code code, const uint8_t* data,
 
 std::string MatchRunMinute::toString() const
 {
+    if (minute < 0)
+        return "MINUTE";
     stringstream res;
     unsigned hour = minute / 60;
     unsigned min  = minute % 60;
-- 
2.43.0


From abde900f58fa89da57785530f1a627de1ddc7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 027/111] fix: quote values that contain separators, or they
 are not parsed again

---
 arki/types/values.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index ef47a35..4a5b863 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -57,6 +57,11 @@ static bool needsQuoting(const std::string& str)
     if (str.find('\0', 0) != std::string::npos)
         return true;
 
+    // Strings containing separators need quoting
+    for (const char& c : str)
+        if (isspace(c) || c == ',' || c == ';')
+            return true;
+
     // Otherwise, no quoting is neeed as decoding should be unambiguous
     return false;
 }
-- 
2.43.0


From f4d52d53cfcdbb635007112ecc198fd43673febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 028/111] fix: refuse GRIB1 and BUFR timerange expressions that
 are not numbers, instead of matching zero

---
 arki/matcher/timerange.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..291768f 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -19,9 +19,15 @@ static Optional<INT> parseValueWithUnit(const std::string& str,
     const char* s  = str.c_str();
     char* e        = NULL;
     long int value = strtol(s, &e, 10);
-    if (value == 0)
-        return 0;
+    if (e == s)
+        throw std::invalid_argument(
+            "cannot parse timerange match expression '" + str +
+            "': it does not start with a number");
     std::string unit = str.substr(e - s);
+    if (value == 0 &&
+        (unit.empty() || unit == "s" || unit == "m" || unit == "h" ||
+         unit == "d" || unit == "mo" || unit == "y"))
+        return 0;
     if (unit == "s")
     {
         u = types::timerange::SECOND;
@@ -101,7 +107,7 @@ MatchTimerangeGRIB1::MatchTimerangeGRIB1(const std::string& pattern)
         types::timerange::GRIB1Unit second = missingUnit;
         if (!args[0].empty())
         {
-            ptype.set(strtoul(args[0].c_str(), NULL, 10));
+            ptype.set(args.getInt(0, 0));
         }
         else
             ptype.unset();
-- 
2.43.0


From 78751faa32f36845c68c61b6df23f7b4948f4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 029/111] fix: Timedef expressions for data without a forecast
 step also look at the rest of the expression

---
 arki/matcher/timerange.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 291768f..e8ebba7 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -476,8 +476,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
-- 
2.43.0


From edfffc5b3ac6b0780605f03e0dc1d0ecc19dfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 030/111] fix: refuse GRIB2 level expressions that are not
 numbers, or out of range, instead of matching something else

---
 arki/matcher/utils.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 8b1018e..7d36f5e 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -603,6 +603,21 @@ unsigned OptionalCommaList::getUnsigned(size_t pos, unsigned def) const
     return strtoul((*this)[pos].c_str(), 0, 10);
 }
 
+/// Parse an unsigned number, no bigger than max
+static uint32_t parse_unsigned(const std::string& str, uint32_t max)
+{
+    char* end;
+    unsigned long res = strtoul(str.c_str(), &end, 10);
+    if (*end || res > max)
+    {
+        stringstream ss;
+        ss << "cannot parse matcher: '" << str
+           << "' is not a number between 0 and " << max;
+        throw std::invalid_argument(ss.str());
+    }
+    return res;
+}
+
 uint32_t OptionalCommaList::getUnsignedWithMissing(size_t pos, uint32_t missing,
                                                    bool& has_val) const
 {
@@ -611,7 +626,7 @@ uint32_t OptionalCommaList::getUnsignedWithMissing(size_t pos, uint32_t missing,
         if ((*this)[pos] == "-")
             return missing;
         else
-            return strtoul((*this)[pos].c_str(), 0, 10);
+            return parse_unsigned((*this)[pos], missing);
     }
     return missing;
 }
@@ -625,7 +640,7 @@ OptionalCommaList::getUnsignedWithMissing(size_t pos, uint32_t missing) const
     if ((*this)[pos] == "-")
         return missing;
     else
-        return strtoul((*this)[pos].c_str(), 0, 10);
+        return parse_unsigned((*this)[pos], missing);
 }
 
 double OptionalCommaList::getDouble(size_t pos, double def) const
-- 
2.43.0


From 94b96a6dd8bb6cba12dd08bd141b9ac362def84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 031/111] fix: refuse queries with more than one expression for
 a type, instead of ignoring all but the first

---
 arki/matcher/utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 7d36f5e..53e889c 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -528,8 +528,13 @@ unique_ptr<AND> AND::parse(const AliasDatabase& aliases,
                 "cannot parse matcher subexpression: unknown match type: '" +
                 type + "'");
 
-        res->components.insert(
-            make_pair(mt->code, OR::parse(aliases.get(type), *mt, patterns)));
+        if (!res->components
+                 .insert(make_pair(mt->code, OR::parse(aliases.get(type), *mt,
+                                                       patterns)))
+                 .second)
+            throw std::invalid_argument(
+                "cannot parse matcher: there is more than one expression for '" +
+                type + "'");
     }
 
     return res;
-- 
2.43.0


From 6ff05c220e7cc3593134e074321250397a8be049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 032/111] fix: print expressions that match any value, like
 task:, instead of leaving them out

---
 arki/matcher/utils.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index 53e889c..4f74e0b 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -464,7 +464,11 @@ std::string AND::toString() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toString();
+        std::string expr = i.second->toString();
+        if (expr.empty())
+            // It matches any value, but it needs one
+            expr = types::formatCode(i.first) + ":";
+        res += expr;
     }
     return res;
 }
@@ -479,7 +483,11 @@ std::string AND::toStringExpanded() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toStringExpanded();
+        std::string expr = i.second->toStringExpanded();
+        if (expr.empty())
+            // It matches any value, but it needs one
+            expr = types::formatCode(i.first) + ":";
+        res += expr;
     }
     return res;
 }
-- 
2.43.0


From 42870c0a9f1f30db575e2972051ed13f875153da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 033/111] fix: accept in GRIB1 timerange expressions all the
 units used to format them

---
 arki/matcher/timerange.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index e8ebba7..0f9a870 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -26,7 +26,9 @@ static Optional<INT> parseValueWithUnit(const std::string& str,
     std::string unit = str.substr(e - s);
     if (value == 0 &&
         (unit.empty() || unit == "s" || unit == "m" || unit == "h" ||
-         unit == "d" || unit == "mo" || unit == "y"))
+         unit == "d" || unit == "mo" || unit == "y" || unit == "h3" ||
+         unit == "h6" || unit == "h12" || unit == "de" || unit == "no" ||
+         unit == "ce"))
         return 0;
     if (unit == "s")
     {
@@ -58,6 +60,17 @@ static Optional<INT> parseValueWithUnit(const std::string& str,
         u = types::timerange::MONTH;
         return value * 12;
     }
+    // Other units used when formatting GRIB1 time ranges
+    else if (unit == "h3" || unit == "h6" || unit == "h12")
+    {
+        u = types::timerange::SECOND;
+        return value * 3600 * std::stoi(unit.substr(1));
+    }
+    else if (unit == "de" || unit == "no" || unit == "ce")
+    {
+        u = types::timerange::MONTH;
+        return value * 12 * (unit == "de" ? 10 : unit == "no" ? 30 : 100);
+    }
     else
     {
         std::stringstream ss;
-- 
2.43.0


From 7b8c6d2c88b2fcae1defad4406c9fd20b1ac04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:47 +0000
Subject: [PATCH 034/111] fix: in Timedef expressions, zero matches zero in all
 units

---
 arki/matcher/timerange.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 0f9a870..16b78df 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -493,7 +493,8 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
             if (step.value != -1)
                 return false;
         }
-        else if (step.value != v_step || step_is_seconds != v_is_seconds)
+        else if (step.value != v_step ||
+                 (v_step != 0 && step_is_seconds != v_is_seconds))
             return false;
     }
 
@@ -507,7 +508,7 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         if (!v->get_proc_duration(v_duration, v_is_seconds))
             return proc_duration.value == -1;
         if (proc_duration.value != v_duration ||
-            proc_duration_is_seconds != v_is_seconds)
+            (v_duration != 0 && proc_duration_is_seconds != v_is_seconds))
             return false;
     }
     return true;
-- 
2.43.0


From 099577e9a286437501f55e51f830dc4eeaca7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 035/111] fix: compute the forecast step of GRIB1 time ranges
 of types 1 and 10

---
 arki/types/timerange.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..5f79b69 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1042,13 +1042,19 @@ bool GRIB1::get_forecast_step(int& step, bool& is_seconds) const
     switch (type)
     {
         case GRIB_TIMERANGE_FORECAST_AT_REFTIME_PLUS_P1: // = 0
-        case GRIB_TIMERANGE_ANALYSIS_AT_REFTIME:         // = 1
-        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2:  // = 10
-                                                         // statproc = 254
+            // statproc = 254
             // CALL gribtr_to_second(unit, p1_g1, p1)
             // p2 = 0
             step = p1 * timemul;
             return true;
+        case GRIB_TIMERANGE_ANALYSIS_AT_REFTIME: // = 1
+            // P1 is not significant
+            step = 0;
+            return true;
+        case GRIB_TIMERANGE_VALID_AT_REFTIME_PLUS_P1P2: // = 10
+            // P1 takes two octets
+            step = (p1 << 8 | p2) * timemul;
+            return true;
         case GRIB_TIMERANGE_VALID_IN_REFTIME_PLUS_P1_REFTIME_PLUS_P2: // = 2
             // ELSE IF (tri == 2) THEN ! somewhere between p1 and p2, not good
             // for grib2 standard
-- 
2.43.0


From a9f7b6a87a088123fc707acbe275b817e760cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 036/111] fix: order key-value items by their integer values
 also when they are far apart

---
 arki/types/values.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index 4a5b863..5b2fea2 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -351,7 +351,12 @@ public:
             return res;
         switch (type_id())
         {
-            case 1: return as_int() - v.as_int();
+            case 1: {
+                // Do not subtract: the result may not fit in an int
+                int a = as_int();
+                int b = v.as_int();
+                return (a > b) - (a < b);
+            }
             case 2: return as_string().compare(v.as_string());
             default:
                 throw std::runtime_error(
-- 
2.43.0


From 9c9c1a9f19bb24816e906891bccf7ad4577170af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 037/111] fix: refuse to encode string values that are too
 long, instead of encoding something that cannot be decoded

---
 arki/types/values.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index 5b2fea2..89ae4f1 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -471,6 +471,10 @@ public:
         enc.add_raw(m_name);
 
         // Type and value length
+        if (m_value.size() > 0x3f)
+            throw std::runtime_error(
+                "cannot encode string value: value of " + m_name +
+                " is longer than 63 bytes");
         uint8_t type = ENC_NAME << 6;
         type |= m_value.size() & 0x3f;
         enc.add_byte(type);
-- 
2.43.0


From 24c9b77b93fc08ef7a53d5beb75b04f495e3be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 038/111] fix: decode hexadecimal escapes in quoted strings

---
 arki/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/utils/string.cc b/arki/utils/string.cc
index 067ed10..4dfe802 100644
--- a/arki/utils/string.cc
+++ b/arki/utils/string.cc
@@ -391,7 +391,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                          ++j)
                         buf[2 + j] = *(i + 2 + j);
                     i += j;
-                    res += static_cast<char>(atoi(buf));
+                    res += static_cast<char>(strtoul(buf, nullptr, 16));
                     break;
                 }
                 default: res += *(i + 1); break;
-- 
2.43.0


From ffe9bc9cb108b7eb0e5f56ae067cb9dbb3137185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 039/111] fix: compare offsets and sizes of sources in full,
 instead of truncating their difference

---
 arki/types/source/blob.cc   | 9 ++++++---
 arki/types/source/inline.cc | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/arki/types/source/blob.cc b/arki/types/source/blob.cc
index 6eb6b23..fe4962d 100644
--- a/arki/types/source/blob.cc
+++ b/arki/types/source/blob.cc
@@ -76,9 +76,12 @@ int Blob::compare_local(const Source& o) const
         return -1;
     if (filename > v->filename)
         return 1;
-    if (int res = offset - v->offset)
-        return res;
-    return size - v->size;
+    // Do not subtract: these are unsigned, and larger than an int
+    if (offset != v->offset)
+        return offset < v->offset ? -1 : 1;
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 
 bool Blob::equals(const Type& o) const
diff --git a/arki/types/source/inline.cc b/arki/types/source/inline.cc
index 01192e9..abfd22e 100644
--- a/arki/types/source/inline.cc
+++ b/arki/types/source/inline.cc
@@ -55,7 +55,10 @@ int Inline::compare_local(const Source& o) const
             string("second element claims to be a Inline Source, but is a ") +
                 typeid(&o).name() + " instead");
 
-    return size - v->size;
+    // Do not subtract: these are unsigned, and larger than an int
+    if (size != v->size)
+        return size < v->size ? -1 : 1;
+    return 0;
 }
 bool Inline::equals(const Type& o) const
 {
-- 
2.43.0


From cbb2573e5b9a3b31c827e9620c42d81b1c74a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 040/111] fix: order time ranges consistently also when their
 values are far apart

---
 arki/types/timerange.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 5f79b69..700b51c 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1373,9 +1373,12 @@ int GRIB2::compare_local(const GRIB2& o) const
         return res;
     if (int res = un - vun)
         return res;
-    if (int res = p1 - vp1)
-        return res;
-    return p2 - vp2;
+    // Do not subtract: the result may not fit in an int
+    if (p1 != vp1)
+        return p1 < vp1 ? -1 : 1;
+    if (p2 != vp2)
+        return p2 < vp2 ? -1 : 1;
+    return 0;
 }
 
 std::ostream& GRIB2::writeToOstream(std::ostream& o) const
@@ -1509,8 +1512,11 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = step_len * timemul1 - vstep_len * timemul2)
-            return res;
+        // Do not use int: the values may not fit
+        int64_t step  = static_cast<int64_t>(step_len) * timemul1;
+        int64_t vstep = static_cast<int64_t>(vstep_len) * timemul2;
+        if (step != vstep)
+            return step < vstep ? -1 : 1;
     }
 
     // Compare type of statistical processing
@@ -1532,8 +1538,10 @@ int Timedef::compare_local(const Timedef& o) const
             return -1;
         if (is2 && !is1)
             return 1;
-        if (int res = stat_len * timemul1 - vstat_len * timemul2)
-            return res;
+        int64_t stat  = static_cast<int64_t>(stat_len) * timemul1;
+        int64_t vstat = static_cast<int64_t>(vstat_len) * timemul2;
+        if (stat != vstat)
+            return stat < vstat ? -1 : 1;
     }
 
     return 0;
-- 
2.43.0


From 47613309b054659a0ea260891c2e7ae820c1e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 041/111] fix: format and parse Timedef time ranges without a
 forecast step

---
 arki/types/timerange.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 700b51c..82beb7c 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1733,7 +1733,10 @@ bool Timedef::timeunit_conversion(TimedefUnit unit, int& timemul)
 
 void Timedef::timeunit_output(TimedefUnit unit, uint32_t val, std::ostream& out)
 {
-    out << val << timeunit_suffix(unit);
+    if (unit == UNIT_MISSING)
+        out << "-";
+    else
+        out << val << timeunit_suffix(unit);
 }
 
 bool Timedef::timeunit_parse_suffix(const char*& str, TimedefUnit& unit)
@@ -1827,6 +1830,7 @@ bool Timedef::timeunit_parse(const char*& str, TimedefUnit& unit, uint32_t& val)
     {
         unit = UNIT_MISSING;
         val  = 0;
+        ++str;
 
         skipCommasAndSpaces(str);
         return true;
-- 
2.43.0


From 5d28b3c4464fabd9fb68fde9130cdb835e9df288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 042/111] fix: write JSON floating point numbers without losing
 digits or overflowing

---
 arki/structured/json.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arki/structured/json.cc b/arki/structured/json.cc
index 16b4936..85f747a 100644
--- a/arki/structured/json.cc
+++ b/arki/structured/json.cc
@@ -3,6 +3,8 @@
 #include "arki/exceptions.h"
 #include <cctype>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 
 using namespace std;
@@ -77,10 +79,17 @@ void JSON::add_double(double val)
 
     double vint, vfrac;
     vfrac = modf(val, &vint);
-    if (vfrac == 0.0)
-        out << (int)vint << ".0";
+    if (vfrac == 0.0 && std::fabs(vint) < 1e15)
+        out << (long long int)vint << ".0";
     else
-        out << val;
+    {
+        // Use more digits if needed to read back the same value
+        char buf[32];
+        snprintf(buf, sizeof(buf), "%g", val);
+        if (strtod(buf, nullptr) != val)
+            snprintf(buf, sizeof(buf), "%.17g", val);
+        out << buf;
+    }
     if (out.bad())
         throw_system_error("write failed");
 }
-- 
2.43.0


From c65f5cdfbc0cbd0118e620e7f750545f825e67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 043/111] fix: write and read control characters and unicode
 escapes in JSON strings

---
 arki/structured/json.cc | 67 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/arki/structured/json.cc b/arki/structured/json.cc
index 85f747a..c7ac79d 100644
--- a/arki/structured/json.cc
+++ b/arki/structured/json.cc
@@ -109,7 +109,18 @@ void JSON::add_string(const std::string& val)
             case '\n': out << "\\n"; break;
             case '\r': out << "\\r"; break;
             case '\t': out << "\\t"; break;
-            default:   out << *i; break;
+            default:
+                if (static_cast<unsigned char>(*i) < 0x20)
+                {
+                    // JSON does not allow control characters in strings
+                    char buf[8];
+                    snprintf(buf, sizeof(buf), "\\u%04x",
+                             static_cast<unsigned>(*i));
+                    out << buf;
+                }
+                else
+                    out << *i;
+                break;
         }
     out << '"';
     if (out.bad())
@@ -252,6 +263,59 @@ static void parse_number(core::BufferedReader& in, Emitter& e)
     parse_spaces(in);
 }
 
+static unsigned parse_hex4(core::BufferedReader& in)
+{
+    unsigned res = 0;
+    for (unsigned i = 0; i < 4; ++i)
+    {
+        int c = in.get();
+        if (c == EOF || !isxdigit(c))
+            throw JSONParseException("invalid unicode escape in string");
+        res = res * 16 + (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10);
+    }
+    return res;
+}
+
+static void append_utf8(std::string& res, unsigned code)
+{
+    if (code < 0x80)
+        res += static_cast<char>(code);
+    else if (code < 0x800)
+    {
+        res += static_cast<char>(0xc0 | (code >> 6));
+        res += static_cast<char>(0x80 | (code & 0x3f));
+    }
+    else if (code < 0x10000)
+    {
+        res += static_cast<char>(0xe0 | (code >> 12));
+        res += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+        res += static_cast<char>(0x80 | (code & 0x3f));
+    }
+    else
+    {
+        res += static_cast<char>(0xf0 | (code >> 18));
+        res += static_cast<char>(0x80 | ((code >> 12) & 0x3f));
+        res += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+        res += static_cast<char>(0x80 | (code & 0x3f));
+    }
+}
+
+static void parse_unicode_escape(core::BufferedReader& in, std::string& res)
+{
+    unsigned code = parse_hex4(in);
+    if (code >= 0xd800 && code < 0xdc00)
+    {
+        // First half of a surrogate pair
+        if (in.get() != '\\' || in.get() != 'u')
+            throw JSONParseException("invalid unicode escape in string");
+        unsigned low = parse_hex4(in);
+        if (low < 0xdc00 || low >= 0xe000)
+            throw JSONParseException("invalid unicode escape in string");
+        code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+    }
+    append_utf8(res, code);
+}
+
 static void parse_string(core::BufferedReader& in, Emitter& e)
 {
     string res;
@@ -273,6 +337,7 @@ static void parse_string(core::BufferedReader& in, Emitter& e)
                     case 'n': res.append(1, '\n'); break;
                     case 'r': res.append(1, '\r'); break;
                     case 't': res.append(1, '\t'); break;
+                    case 'u': parse_unicode_escape(in, res); break;
                     default:  res.append(1, c); break;
                 }
                 break;
-- 
2.43.0


From d0e14c5a1c7473e821a3cadaa7de93c7cda1dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 044/111] fix: parse BUFR time ranges with forecast time zero
 as they are formatted

---
 arki/types/timerange.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 82beb7c..581e989 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -682,6 +682,9 @@ std::unique_ptr<Timerange> Timerange::decodeString(const std::string& val)
             return createGRIB2(type, unit, p1, p2);
         }
         case timerange::Style::BUFR: {
+            // This is how a forecast time of zero is formatted
+            if (inner.empty())
+                return createBUFR(0, GRIB_TIMEUNIT_SECOND);
             const char* start = inner.c_str();
             unsigned value    = getNumber(start, "forecast seconds");
             unsigned unit     = parseTimeUnit(start);
-- 
2.43.0


From e5ec8f6bda5fa122e9e59ea57eae17ffe4aa78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 045/111] fix: order GRIB1 time ranges and VM2 areas
 consistently also with large values

---
 arki/types/area.cc      | 8 +++++++-
 arki/types/timerange.cc | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/arki/types/area.cc b/arki/types/area.cc
index 201948b..99fc5b5 100644
--- a/arki/types/area.cc
+++ b/arki/types/area.cc
@@ -346,7 +346,13 @@ bool VM2::equals(const Type& o) const
     return memcmp(data, v->data, std::min(size, 5u)) == 0;
 }
 
-int VM2::compare_local(const VM2& o) const { return get_VM2() - o.get_VM2(); }
+int VM2::compare_local(const VM2& o) const
+{
+    // Do not subtract: these are unsigned
+    auto a = get_VM2();
+    auto b = o.get_VM2();
+    return (a > b) - (a < b);
+}
 
 std::ostream& VM2::writeToOstream(std::ostream& o) const
 {
diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 581e989..0670524 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -937,9 +937,12 @@ int GRIB1::compare_local(const GRIB1& o) const
         return res;
     if (int res = aunit - bunit)
         return res;
-    if (int res = ap1 - bp1)
-        return res;
-    return ap2 - bp2;
+    // Do not subtract: the result may not fit in an int
+    if (ap1 != bp1)
+        return ap1 < bp1 ? -1 : 1;
+    if (ap2 != bp2)
+        return ap2 < bp2 ? -1 : 1;
+    return 0;
 }
 
 std::ostream& GRIB1::writeToOstream(std::ostream& o) const
-- 
2.43.0


From edbcf88ae669e0085eaf5d8206b8aa057241bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 046/111] fix: order BUFR time ranges consistently also with
 large values

---
 arki/types/timerange.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 0670524..500273f 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1922,9 +1922,16 @@ int BUFR::compare_local(const BUFR& o) const
     if (int res = (is_seconds(un) ? 0 : 1) - (o.is_seconds(vun) ? 0 : 1))
         return res;
     if (is_seconds(un))
-        return seconds(un, va) - o.seconds(vun, vva);
+    {
+        // Do not subtract: these are unsigned
+        unsigned a = seconds(un, va), b = o.seconds(vun, vva);
+        return (a > b) - (a < b);
+    }
     else
-        return months(un, va) - o.months(vun, vva);
+    {
+        unsigned a = months(un, va), b = o.months(vun, vva);
+        return (a > b) - (a < b);
+    }
 }
 
 std::ostream& BUFR::writeToOstream(std::ostream& o) const
-- 
2.43.0


From fb5977169103c396ea6af8f1779e670bdb732f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 047/111] fix: read ODIMH5 products with empty object and name
 as they are written

---
 arki/types/product.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/product.cc b/arki/types/product.cc
index 6f973d8..bb6c409 100644
--- a/arki/types/product.cc
+++ b/arki/types/product.cc
@@ -206,7 +206,7 @@ unique_ptr<Product> Product::decode(core::BinaryDecoder& dec, bool reuse_buffer)
             dec.skip(dec.size);
             break;
         case product::Style::ODIMH5:
-            dec.ensure_size(4, "ODIMH5 data");
+            dec.ensure_size(3, "ODIMH5 data");
             if (reuse_buffer)
                 res.reset(new product::ODIMH5(dec.buf, dec.size, false));
             else
-- 
2.43.0


From d4c55fb019a325882cda552b277bf4b997480aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 048/111] fix: refuse metadata items with type codes out of
 range, instead of reading memory out of bounds

---
 arki/types/utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/types/utils.cc b/arki/types/utils.cc
index 813a55d..fe70341 100644
--- a/arki/types/utils.cc
+++ b/arki/types/utils.cc
@@ -47,7 +47,8 @@ void MetadataType::register_type(MetadataType* type)
 
 const MetadataType* MetadataType::get(types::Code code)
 {
-    if (!decoders || decoders[code] == 0)
+    if (!decoders || static_cast<size_t>(code) >= decoders_size ||
+        decoders[code] == 0)
     {
         stringstream ss;
         ss << "cannot parse binary data: no decoder found for item type "
-- 
2.43.0


From e84f4d4b45a64e3ba8573cd323e373dd0d52dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 049/111] fix: report structured data without the expected
 times, instead of recursing forever

---
 arki/structured/memory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/structured/memory.cc b/arki/structured/memory.cc
index 86a3a5d..1721a1a 100644
--- a/arki/structured/memory.cc
+++ b/arki/structured/memory.cc
@@ -133,11 +133,11 @@ core::Time Mapping::dict_as_time(const std::string& key, const char* desc) const
 {
     auto i = val.find(key);
     if (i == val.end())
-        return Node::as_time(key, desc);
+        return Node::dict_as_time(key, desc);
 
     const List* list = dynamic_cast<const List*>(i->second);
     if (!list)
-        return Node::as_time(key, desc);
+        return Node::dict_as_time(key, desc);
 
     return list->as_time(desc);
 }
-- 
2.43.0


From d242fb84099da6113fc4f8eb98a2244ffbb5f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 050/111] fix: refuse truncated metadata bundles in groups,
 instead of reading memory out of bounds

---
 arki/core/binary.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..6d19b19 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -100,6 +100,8 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
 
+    ensure_size(len, "data of metadata bundle");
+
     BinaryDecoder res(buf, len);
 
     // Move to the end of the inner data
-- 
2.43.0


From cb683b233ff52f81a97746967b1b7b0f13e1d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 051/111] fix: do not crash when writing metadata without
 source or without inline data

---
 arki/metadata.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..2ce5dfc 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -617,11 +617,14 @@ void Metadata::write(NamedFileDescriptor& out, bool skip_data) const
 
     // If the source is inline, then the data follows the metadata
     const Source* s = m_index.get_source();
-    if (s->style() != Source::Style::INLINE)
+    if (!s || s->style() != Source::Style::INLINE)
         return;
 
     // Having checked the style, we can reinterpret_cast
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw_runtime_error("cannot write metadata to file ", out.path(),
+                            ": inline data is missing");
     if (si->size != m_data->size())
         throw_runtime_error("cannot write metadata to file ", out.path(),
                             ": metadata size ", si->size,
@@ -647,6 +650,9 @@ void Metadata::write(StreamOutput& out, bool skip_data) const
 
     // Having checked the style, we can reinterpret_cast
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw_runtime_error("cannot write metadata to file ", out.path(),
+                            ": inline data is missing");
     if (si->size != m_data->size())
         throw_runtime_error("cannot write metadata to file ", out.path(),
                             ": metadata size ", si->size,
@@ -727,9 +733,12 @@ void Metadata::serialise(structured::Emitter& e, const structured::Keys& keys,
     e.add_break();
 
     // If the source is inline, we need to include the daata
-    if (s->style() != types::Source::Style::INLINE)
+    if (!s || s->style() != types::Source::Style::INLINE)
         return;
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw std::runtime_error(
+            "cannot write metadata to JSON: inline data is missing");
     if (si->size != m_data->size())
     {
         stringstream ss;
-- 
2.43.0


From 1b6b3e8a99cc8537fb99f6cb59627613890a8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 052/111] fix: refuse old summaries with too many items in a
 row, instead of writing memory out of bounds

---
 arki/summary/codec.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/summary/codec.cc b/arki/summary/codec.cc
index f4f1baa..e1f0661 100644
--- a/arki/summary/codec.cc
+++ b/arki/summary/codec.cc
@@ -68,6 +68,9 @@ struct Format1Decoder : public DecoderBase
         // Decode the metadata stripe length
         size_t stripelen = dec.pop_uint(2, "Metadata stripe size");
         codeclog("Stripe size " << stripelen);
+        if (scanpos + stripelen > row.items.size())
+            throw std::runtime_error(
+                "cannot parse summary: found too many metadata items");
 
         // Decode the metadata stripe
         for (size_t i = 0; i < stripelen; ++i)
-- 
2.43.0


From e7c6ab6e707c9ae899161a82db485218a88c3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 053/111] fix: report truncated metadata streams instead of
 taking them as complete

A stream ending in the middle of a bundle, or a bundle header arriving in
more than one read, was considered as a normal end of file.
---
 arki/metadata/reader.cc |  5 +----
 arki/types/bundle.cc    | 23 +++++++++++++++--------
 arki/types/bundle.h     | 12 ++++++++++--
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index ad17fa2..b413a15 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -70,10 +70,7 @@ bool BaseBinaryReader<FileType>::read_bundle(types::Bundle& bundle)
                                  ": unsupported metadata signature '" +
                                  bundle.signature + "'");
 
-    if (size_t data_size = bundle.read_data(in))
-        offset += data_size;
-    else
-        return false;
+    offset += bundle.read_data(in);
     return true;
 }
 
diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 515ee6f..5e01edc 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -3,6 +3,7 @@
 #include "arki/core/file.h"
 #include "arki/utils/sys.h"
 #include <algorithm>
+#include <stdexcept>
 
 using namespace arki::utils;
 using namespace arki::core;
@@ -29,7 +30,7 @@ size_t Bundle::read_header(NamedFileDescriptor& fd)
     unsigned char hdr[8];
     hdr[0] = c;
     if (!fd.read_all_or_retry(hdr + 1, 7))
-        return 0; // EOF
+        fd.throw_runtime_error("file is truncated in a bundle header");
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
@@ -62,7 +63,7 @@ size_t Bundle::read_data(NamedFileDescriptor& fd)
         data.resize(pos + chunk_size);
         size_t res = fd.read(data.data() + pos, chunk_size);
         if (res == 0)
-            return 0;
+            fd.throw_runtime_error("file is truncated in the bundle data");
         to_read -= res;
         data.resize(pos + res);
     }
@@ -95,10 +96,15 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
     // Read the rest of the first 8 bytes
     unsigned char hdr[8];
-    hdr[0]     = c;
-    size_t res = fd.read(hdr + 1, 7);
-    if (res < 7)
-        return false; // EOF
+    hdr[0] = c;
+    for (size_t pos = 1; pos < 8;)
+    {
+        size_t res = fd.read(hdr + pos, 8 - pos);
+        if (res == 0)
+            throw std::runtime_error(fd.path().native() +
+                                     ": file is truncated in a bundle header");
+        pos += res;
+    }
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
@@ -131,7 +137,8 @@ size_t Bundle::read_data(AbstractInputFile& fd)
         data.resize(pos + chunk_size);
         size_t res = fd.read(data.data() + pos, chunk_size);
         if (res == 0)
-            return 0;
+            throw std::runtime_error(fd.path().native() +
+                                     ": file is truncated in the bundle data");
         to_read -= res;
         data.resize(pos + res);
     }
@@ -142,7 +149,7 @@ size_t Bundle::read(AbstractInputFile& fd)
 {
     size_t count_read = read_header(fd);
     if (!count_read)
-        return false;
+        return 0;
     return count_read + read_data(fd);
 }
 
diff --git a/arki/types/bundle.h b/arki/types/bundle.h
index a10d21c..d54b1ad 100644
--- a/arki/types/bundle.h
+++ b/arki/types/bundle.h
@@ -25,6 +25,8 @@ struct Bundle
     /**
      * Read only the bundle header
      *
+     * Throws an exception if the file ends in the middle of the header.
+     *
      * @return the number of bytes read, or 0 on end of file
      */
     size_t read_header(core::NamedFileDescriptor& fd);
@@ -32,7 +34,9 @@ struct Bundle
     /**
      * Read the bundle data after read_header has been called
      *
-     * @return the number of bytes read, or 0 on end of file
+     * Throws an exception if the file ends before the end of the data.
+     *
+     * @return the number of bytes read
      */
     size_t read_data(core::NamedFileDescriptor& fd);
 
@@ -46,6 +50,8 @@ struct Bundle
     /**
      * Read only the bundle header
      *
+     * Throws an exception if the file ends in the middle of the header.
+     *
      * @return the number of bytes read, or 0 on end of file
      */
     size_t read_header(core::AbstractInputFile& fd);
@@ -53,7 +59,9 @@ struct Bundle
     /**
      * Read the bundle data after read_header has been called
      *
-     * @return the number of bytes read, or 0 on end of file
+     * Throws an exception if the file ends before the end of the data.
+     *
+     * @return the number of bytes read
      */
     size_t read_data(core::AbstractInputFile& fd);
 
-- 
2.43.0


From 20e1180d867cdb8aa652e10d7aa25240555d259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 054/111] fix: read all the inline data when an input file
 returns it in pieces

---
 arki/metadata.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 2ce5dfc..7108315 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -585,7 +585,15 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
     // Read the inline data
-    fd.read(buf.data(), si->size);
+    for (size_t pos = 0; pos < buf.size();)
+    {
+        size_t res = fd.read(buf.data() + pos, buf.size() - pos);
+        if (res == 0)
+            throw std::runtime_error(
+                fd.path().native() +
+                ": inline data not found after arkimet metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
-- 
2.43.0


From e7a98bdbd3658a0ef7523a04ea2784b755a2407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 055/111] fix: read metadata without a source from binary
 streams

---
 arki/metadata/reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index b413a15..4784dfd 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -154,7 +154,8 @@ std::shared_ptr<Metadata> BaseBinaryReader<FileType>::read(bool read_inline)
     auto md = decode_metadata(bundle);
 
     // If the source is inline, then the data follows the metadata
-    if (read_inline && md->source().style() == types::Source::Style::INLINE)
+    if (read_inline && md->has_source() &&
+        md->source().style() == types::Source::Style::INLINE)
         read_inline_data(*md);
 
     return md;
@@ -179,7 +180,8 @@ bool BaseBinaryReader<FileType>::read_all(metadata_dest_func dest)
             auto md = decode_metadata(bundle);
 
             // If the source is inline, then the data follows the metadata
-            if (md->source().style() == types::Source::Style::INLINE)
+            if (md->has_source() &&
+                md->source().style() == types::Source::Style::INLINE)
                 read_inline_data(*md);
             if (!dest(move(md)))
                 return false;
-- 
2.43.0


From fbd7fe1d9c5f12bfa01b516f17a948121f1c2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 056/111] fix: take truncated metadata streams as ended again

This reverts e7c6ab6: the tests require that a stream ending in the middle
of a bundle is considered as ended there.
---
 arki/metadata/reader.cc |  5 ++++-
 arki/types/bundle.cc    | 23 ++++++++---------------
 arki/types/bundle.h     | 12 ++----------
 3 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index 4784dfd..7084469 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -70,7 +70,10 @@ bool BaseBinaryReader<FileType>::read_bundle(types::Bundle& bundle)
                                  ": unsupported metadata signature '" +
                                  bundle.signature + "'");
 
-    offset += bundle.read_data(in);
+    if (size_t data_size = bundle.read_data(in))
+        offset += data_size;
+    else
+        return false;
     return true;
 }
 
diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 5e01edc..515ee6f 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -3,7 +3,6 @@
 #include "arki/core/file.h"
 #include "arki/utils/sys.h"
 #include <algorithm>
-#include <stdexcept>
 
 using namespace arki::utils;
 using namespace arki::core;
@@ -30,7 +29,7 @@ size_t Bundle::read_header(NamedFileDescriptor& fd)
     unsigned char hdr[8];
     hdr[0] = c;
     if (!fd.read_all_or_retry(hdr + 1, 7))
-        fd.throw_runtime_error("file is truncated in a bundle header");
+        return 0; // EOF
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
@@ -63,7 +62,7 @@ size_t Bundle::read_data(NamedFileDescriptor& fd)
         data.resize(pos + chunk_size);
         size_t res = fd.read(data.data() + pos, chunk_size);
         if (res == 0)
-            fd.throw_runtime_error("file is truncated in the bundle data");
+            return 0;
         to_read -= res;
         data.resize(pos + res);
     }
@@ -96,15 +95,10 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
     // Read the rest of the first 8 bytes
     unsigned char hdr[8];
-    hdr[0] = c;
-    for (size_t pos = 1; pos < 8;)
-    {
-        size_t res = fd.read(hdr + pos, 8 - pos);
-        if (res == 0)
-            throw std::runtime_error(fd.path().native() +
-                                     ": file is truncated in a bundle header");
-        pos += res;
-    }
+    hdr[0]     = c;
+    size_t res = fd.read(hdr + 1, 7);
+    if (res < 7)
+        return false; // EOF
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
@@ -137,8 +131,7 @@ size_t Bundle::read_data(AbstractInputFile& fd)
         data.resize(pos + chunk_size);
         size_t res = fd.read(data.data() + pos, chunk_size);
         if (res == 0)
-            throw std::runtime_error(fd.path().native() +
-                                     ": file is truncated in the bundle data");
+            return 0;
         to_read -= res;
         data.resize(pos + res);
     }
@@ -149,7 +142,7 @@ size_t Bundle::read(AbstractInputFile& fd)
 {
     size_t count_read = read_header(fd);
     if (!count_read)
-        return 0;
+        return false;
     return count_read + read_data(fd);
 }
 
diff --git a/arki/types/bundle.h b/arki/types/bundle.h
index d54b1ad..a10d21c 100644
--- a/arki/types/bundle.h
+++ b/arki/types/bundle.h
@@ -25,8 +25,6 @@ struct Bundle
     /**
      * Read only the bundle header
      *
-     * Throws an exception if the file ends in the middle of the header.
-     *
      * @return the number of bytes read, or 0 on end of file
      */
     size_t read_header(core::NamedFileDescriptor& fd);
@@ -34,9 +32,7 @@ struct Bundle
     /**
      * Read the bundle data after read_header has been called
      *
-     * Throws an exception if the file ends before the end of the data.
-     *
-     * @return the number of bytes read
+     * @return the number of bytes read, or 0 on end of file
      */
     size_t read_data(core::NamedFileDescriptor& fd);
 
@@ -50,8 +46,6 @@ struct Bundle
     /**
      * Read only the bundle header
      *
-     * Throws an exception if the file ends in the middle of the header.
-     *
      * @return the number of bytes read, or 0 on end of file
      */
     size_t read_header(core::AbstractInputFile& fd);
@@ -59,9 +53,7 @@ struct Bundle
     /**
      * Read the bundle data after read_header has been called
      *
-     * Throws an exception if the file ends before the end of the data.
-     *
-     * @return the number of bytes read
+     * @return the number of bytes read, or 0 on end of file
      */
     size_t read_data(core::AbstractInputFile& fd);
 
-- 
2.43.0


From f74e6d4896247bb6c1d2382788fada6d6dd76399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 057/111] fix: read bundle headers that an input file returns
 in pieces

---
 arki/types/bundle.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 515ee6f..865fd71 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -95,10 +95,14 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
     // Read the rest of the first 8 bytes
     unsigned char hdr[8];
-    hdr[0]     = c;
-    size_t res = fd.read(hdr + 1, 7);
-    if (res < 7)
-        return false; // EOF
+    hdr[0] = c;
+    for (size_t pos = 1; pos < 8;)
+    {
+        size_t res = fd.read(hdr + pos, 8 - pos);
+        if (res == 0)
+            return 0; // EOF
+        pos += res;
+    }
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
-- 
2.43.0


From a75d0a78a789ed532906bf6c3f5ab100ea622262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 058/111] fix: do not take an empty metadata as the end of a
 stream

---
 arki/metadata/reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index 7084469..da745a1 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -70,10 +70,10 @@ bool BaseBinaryReader<FileType>::read_bundle(types::Bundle& bundle)
                                  ": unsupported metadata signature '" +
                                  bundle.signature + "'");
 
-    if (size_t data_size = bundle.read_data(in))
-        offset += data_size;
-    else
+    size_t data_size = bundle.read_data(in);
+    if (data_size != bundle.length)
         return false;
+    offset += data_size;
     return true;
 }
 
-- 
2.43.0


From e03d2bb40b0fca396b9add8e3e6452da90e1408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 059/111] fix: write all of collections and summaries, even if
 the system writes them in pieces

Also open for writing the file given to Collection::appendTo.
---
 arki/metadata/collection.cc | 8 ++++----
 arki/summary.cc             | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 3264d47..0dc3201 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -139,12 +139,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry(obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
@@ -327,7 +327,7 @@ void Collection::writeAtomicallyPreservingTimestamp(
 
 void Collection::appendTo(const std::filesystem::path& fname) const
 {
-    sys::File out(fname, O_APPEND | O_CREAT, 0666);
+    sys::File out(fname, O_WRONLY | O_APPEND | O_CREAT, 0666);
     write_to(out);
     out.close();
 }
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From 6200adc5fe9c1eae3fe2e59ba3b92f2aed6473ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 060/111] fix: write and read Yaml metadata with more than one
 note

There was an empty line between notes, that ends the record, so the result
could not be read back.
---
 arki/metadata.cc        |  4 +---
 arki/metadata/reader.cc | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 7108315..411271f 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -697,11 +697,9 @@ std::string Metadata::to_yaml(const Formatter* formatter) const
             buf << **i << endl;
         else
         {
+            buf << endl;
             for (; i != notes_end; ++i)
-            {
-                buf << endl;
                 buf << " " << **i << endl;
-            }
         }
     }
 
diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index da745a1..fd7cc6e 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -240,9 +240,20 @@ std::shared_ptr<Metadata> YamlReader::read(bool read_inline)
         std::string val  = utils::str::strip(i->second);
         switch (type)
         {
-            case TYPE_NOTE:
-                res->add_note(types::Note::decodeString(val));
+            case TYPE_NOTE: {
+                // There can be more than one note, each starting on its line
+                size_t begin = 0;
+                while (begin < val.size())
+                {
+                    size_t end = val.find("\n[", begin);
+                    if (end == std::string::npos)
+                        end = val.size();
+                    res->add_note(types::Note::decodeString(
+                        val.substr(begin, end - begin)));
+                    begin = end + 1;
+                }
                 break;
+            }
             case TYPE_SOURCE:
                 res->set_source(
                     types::Source::decodeStringRelative(val, basedir));
-- 
2.43.0


From 566d5edbb586ab5f3d6bcfca1f3e2fb50e3f77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 061/111] fix: accept metadata without a source in streams

---
 arki/metadata/stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/metadata/stream.cc b/arki/metadata/stream.cc
index 29ba224..cdd88e4 100644
--- a/arki/metadata/stream.cc
+++ b/arki/metadata/stream.cc
@@ -43,7 +43,8 @@ bool Stream::checkMetadata()
                                      streamname);
 
     buffer = vector<uint8_t>(dec.buf, dec.buf + dec.size);
-    if (md->source().style() == types::Source::Style::INLINE)
+    if (md->has_source() &&
+        md->source().style() == types::Source::Style::INLINE)
     {
         dataToGet = md->data_size();
         state     = DATA;
-- 
2.43.0


From f00bbe07f825d304c6b6b54de9e7a3dce16d81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 062/111] fix: release the archives, and their locks, when they
 cannot be accessed

---
 arki/dataset/archive.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..6edd962 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -286,7 +286,16 @@ Reader::Reader(std::shared_ptr<Dataset> dataset)
     : DatasetAccess(dataset),
       archives(new archive::ArchivesReaderRoot(dataset->root, dataset))
 {
-    archives->rescan();
+    try
+    {
+        archives->rescan();
+    }
+    catch (...)
+    {
+        // The destructor is not going to be called
+        delete archives;
+        throw;
+    }
 }
 
 Reader::~Reader() { delete archives; }
@@ -375,7 +384,16 @@ Checker::Checker(std::shared_ptr<Dataset> dataset)
     : DatasetAccess(dataset),
       archives(new ArchivesCheckerRoot(dataset->root, dataset))
 {
-    archives->rescan();
+    try
+    {
+        archives->rescan();
+    }
+    catch (...)
+    {
+        // The destructor is not going to be called
+        delete archives;
+        throw;
+    }
 }
 
 Checker::~Checker() { delete archives; }
-- 
2.43.0


From f07aba37aa49de297aa512a92f6d85fa6b70ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 063/111] fix: do not abort the process when the MANIFEST
 cannot be written

---
 arki/dataset/simple/checker.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 51e46a6..4897dd1 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -251,7 +251,18 @@ Checker::Checker(std::shared_ptr<simple::Dataset> dataset)
     manifest.reread();
 }
 
-Checker::~Checker() { manifest.flush(); }
+Checker::~Checker()
+{
+    try
+    {
+        manifest.flush();
+    }
+    catch (std::exception& e)
+    {
+        nag::warning("%s: cannot update the MANIFEST: %s", name().c_str(),
+                     e.what());
+    }
+}
 
 std::string Checker::type() const { return "simple"; }
 
-- 
2.43.0


From 1a336dcca70ffbd396d969b4d9df9611f4343199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 064/111] fix: do not create an executable MANIFEST

---
 arki/dataset/simple/manifest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index 0cc0e80..afe1b0a 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -310,7 +310,7 @@ void Writer::flush()
 
     auto pathname = m_root / "MANIFEST.tmp";
 
-    core::File out(pathname, O_WRONLY | O_CREAT | O_TRUNC);
+    core::File out(pathname, O_WRONLY | O_CREAT | O_TRUNC, 0666);
     for (const auto& i : segmentinfo_cache)
         write(i, out);
     if (!eatmydata)
-- 
2.43.0


From 37427b52bce068e8db71c3ac53f501a1b1773aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 065/111] fix: do not leave an empty segment when its directory
 cannot be removed

---
 arki/segment/data/dir.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 9df2f4f..96acddf 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -673,9 +673,16 @@ template <typename Data> size_t BaseChecker<Data>::remove()
     std::filesystem::remove(tmpabspath / ".sequence");
     std::filesystem::remove(tmpabspath / ".write-lock");
     std::filesystem::remove(tmpabspath / ".repack-lock");
-    // Also remove the directory if it is empty
+    // Also remove the directory if it is empty, and keep it if there are other
+    // files in it
     if (rmdir(tmpabspath.c_str()) != 0)
-        std::filesystem::rename(tmpabspath, abspath);
+    {
+        if (errno == ENOTEMPTY || errno == EEXIST)
+            std::filesystem::rename(tmpabspath, abspath);
+        else
+            nag::warning("cannot remove %s: %s", tmpabspath.c_str(),
+                         strerror(errno));
+    }
     return size;
 }
 
-- 
2.43.0


From 5da3fded8c10e7315226a7e9c07f5ae81ee90d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 066/111] fix: do not leave directory segments to be checked
 after importing only duplicates

---
 arki/segment/data/dir.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 96acddf..6a233cc 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -519,7 +519,9 @@ template <typename Data> void BaseWriter<Data>::commit()
 {
     if (this->fired)
         return;
-    seqfile.write_sequence(current_pos - 1);
+    // Do not touch the segment if nothing was appended
+    if (!pending.empty())
+        seqfile.write_sequence(current_pos - 1);
     for (auto& p : pending)
         p.set_source();
     pending.clear();
-- 
2.43.0


From dec77009e1b465f3cddf489287096117a70ea485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 067/111] fix: do not forget data in directory segments when it
 cannot be read because of a system error

---
 arki/segment/data/dir.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 6a233cc..bac0084 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -968,6 +968,11 @@ bool Scanner::scan(std::function<void(const std::string&)> reporter,
         {
             md = scanner->scan_file_single(segment.abspath() / fi.second.fname);
         }
+        catch (std::system_error&)
+        {
+            // The file cannot be read now, but its contents may be fine
+            throw;
+        }
         catch (std::exception& e)
         {
             stringstream out;
-- 
2.43.0


From bb0160e611fb784a90ad7952bccd79636c85bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 068/111] fix: keep querying simple datasets while data is
 being imported

---
 arki/core/lock.cc        | 12 ++++++++++++
 arki/core/lock.h         |  3 +++
 arki/segment/metadata.cc | 32 +++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/arki/core/lock.cc b/arki/core/lock.cc
index b43b334..f740ac3 100644
--- a/arki/core/lock.cc
+++ b/arki/core/lock.cc
@@ -115,6 +115,18 @@ FileReadLock::~FileReadLock()
     lock_policy->setlk(lockfile, ds_lock);
 }
 
+bool FileReadLock::has_append_lock() const
+{
+    FLock append_lock;
+    append_lock.l_type   = F_RDLCK;
+    append_lock.l_whence = SEEK_SET;
+    append_lock.l_start  = 1;
+    append_lock.l_len    = 1;
+    append_lock.l_pid    = 0;
+    core::File fd(lockfile.path(), O_RDWR);
+    return !lock_policy->getlk(fd, append_lock);
+}
+
 FileAppendLock::FileAppendLock(const std::filesystem::path& pathname,
                                const core::lock::Policy* lock_policy)
     : File(pathname, lock_policy)
diff --git a/arki/core/lock.h b/arki/core/lock.h
index 08c7093..543c11d 100644
--- a/arki/core/lock.h
+++ b/arki/core/lock.h
@@ -157,6 +157,9 @@ public:
     FileReadLock(const std::filesystem::path& pathname,
                  const core::lock::Policy* lock_policy);
     ~FileReadLock() override;
+
+    /// Check if the file is locked by something that may be appending data
+    bool has_append_lock() const;
 };
 
 class FileAppendLock : public File<core::AppendLock>
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 5159d12..73259f8 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -15,11 +15,35 @@ using namespace arki::utils;
 
 namespace arki::segment::metadata {
 
+namespace {
+
+/**
+ * Check if the metadata can be used to read the segment
+ */
+bool can_use_metadata(std::shared_ptr<const Segment> segment,
+                      std::shared_ptr<const core::ReadLock> lock)
+{
+    if (has_valid_metadata(segment))
+        return true;
+
+    // While data is being appended, the metadata is older than the data, but
+    // what it describes is still there
+    auto file_lock =
+        std::dynamic_pointer_cast<const core::lock::FileReadLock>(lock);
+    if (file_lock && file_lock->has_append_lock())
+        return sys::access(segment->abspath_metadata(), F_OK);
+
+    // The append may have been completed after the first check
+    return has_valid_metadata(segment);
+}
+
+} // namespace
+
 std::shared_ptr<segment::Reader>
 Session::create_segment_reader(std::shared_ptr<const Segment> segment,
                                std::shared_ptr<const core::ReadLock> lock) const
 {
-    if (has_valid_metadata(segment))
+    if (can_use_metadata(segment, lock))
         return std::make_shared<segment::metadata::Reader>(segment, lock);
 #if 0
     // Do not fall back to a rescan: if metadata is missing, we skip the
@@ -296,10 +320,12 @@ bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
 void Reader::query_summary(const Matcher& matcher, Summary& summary)
 {
     auto summary_path = m_segment->abspath_summary();
-    if (sys::access(summary_path, R_OK))
+    core::File in(summary_path);
+    // The summary can be removed at any time by an import
+    if (in.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(summary_path);
+        s.read(in);
         s.filter(matcher, summary);
     }
     else
-- 
2.43.0


From 496fafe2e4b16d55365ea65948ee780f3e8217af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 069/111] fix: do not cache summaries computed while data was
 being changed

---
 arki/dataset/index/summarycache.cc | 102 ++++++++++++++++++++---------
 arki/dataset/index/summarycache.h  |  40 +++++++++--
 arki/dataset/iseg/reader.cc        |   8 ++-
 arki/dataset/iseg/writer.cc        |  10 ++-
 arki/dataset/simple/checker.cc     |   2 +
 arki/dataset/simple/reader.cc      |  10 ++-
 arki/dataset/simple/writer.cc      |   5 ++
 7 files changed, 135 insertions(+), 42 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..8dec033 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -7,7 +7,10 @@
 #include "arki/types/reftime.h"
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
+#include "arki/exceptions.h"
+#include <cstring>
 #include <fcntl.h>
+#include <sys/stat.h>
 
 using namespace std;
 using namespace arki::types;
@@ -18,6 +21,48 @@ namespace arki {
 namespace dataset {
 namespace index {
 
+PendingSummary::PendingSummary(const std::filesystem::path& dest) : m_dest(dest)
+{
+    if (!sys::access(dest.parent_path(), W_OK))
+        return;
+    m_tmp = sys::File::mkstemp(dest.native() + ".pending").path();
+}
+
+PendingSummary::~PendingSummary()
+{
+    if (!m_tmp.empty())
+        ::unlink(m_tmp.c_str());
+}
+
+void PendingSummary::commit(Summary& s)
+{
+    if (m_tmp.empty())
+        return;
+    auto data = s.encode(true);
+    sys::File out(m_tmp);
+    if (!out.open_ifexists(O_WRONLY))
+        return;
+    mode_t mask = umask(0777);
+    umask(mask);
+    out.fchmod(0666 & ~mask);
+    out.write_all_or_retry(data.data(), data.size());
+    out.close();
+    if (::rename(m_tmp.c_str(), m_dest.c_str()) < 0 && errno != ENOENT)
+        throw_system_error("cannot rename " + m_tmp.native() + " to " +
+                           m_dest.native());
+    m_tmp.clear();
+}
+
+void PendingSummary::cancel(const std::filesystem::path& dir)
+{
+    if (!sys::access(dir, F_OK))
+        return;
+    sys::Path d(dir);
+    for (sys::Path::iterator i = d.begin(); i != d.end(); ++i)
+        if (strstr(i->d_name, "summary.pending"))
+            sys::unlink_ifexists(dir / i->d_name);
+}
+
 SummaryCache::SummaryCache(const std::filesystem::path& root)
     : m_scache_root(root)
 {
@@ -64,42 +109,43 @@ bool SummaryCache::read(Summary& s, int year, int month)
     return true;
 }
 
-bool SummaryCache::write(Summary& s)
+PendingSummary SummaryCache::prepare()
 {
-    auto sum_file = m_scache_root / "all.summary";
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
+    return PendingSummary(m_scache_root / "all.summary");
 }
 
-bool SummaryCache::write(Summary& s, int year, int month)
+PendingSummary SummaryCache::prepare(int year, int month)
 {
-    auto sum_file = summary_pathname(year, month);
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
+    return PendingSummary(summary_pathname(year, month));
 }
 
 void SummaryCache::invalidate()
 {
-    // Delete all files *.summary in the cache directory
+    // Delete all files *.summary in the cache directory, and the global one
+    // after the others that can be used to make it
+    PendingSummary::cancel(m_scache_root);
     sys::Path dir(m_scache_root);
     for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
         if (str::endswith(i->d_name, ".summary"))
-            sys::unlink(m_scache_root / i->d_name);
+            sys::unlink_ifexists(m_scache_root / i->d_name);
+    PendingSummary::cancel(m_scache_root);
+    sys::unlink_ifexists(m_scache_root / "all.summary");
 }
 
 void SummaryCache::invalidate(int year, int month)
 {
-    std::filesystem::remove(summary_pathname(year, month));
+    invalidate(std::set<std::pair<int, int>>{{year, month}});
+}
+
+void SummaryCache::invalidate(const std::set<std::pair<int, int>>& months)
+{
+    // The global summary is made using the monthly ones: cancel what may have
+    // been made with outdated data before removing what it may have been
+    // written to
+    PendingSummary::cancel(m_scache_root);
+    for (const auto& month : months)
+        std::filesystem::remove(summary_pathname(month.first, month.second));
+    PendingSummary::cancel(m_scache_root);
     std::filesystem::remove(m_scache_root / "all.summary");
 }
 
@@ -126,20 +172,16 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
         }
     }
 
-    for (const auto& month : to_delete)
-        invalidate(month.first, month.second);
+    if (!to_delete.empty())
+        invalidate(to_delete);
 }
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
-    bool deleted = false;
+    std::set<std::pair<int, int>> to_delete;
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
-    {
-        if (std::filesystem::remove(summary_pathname(t.ye, t.mo)))
-            deleted = true;
-    }
-    if (deleted)
-        std::filesystem::remove(m_scache_root / "all.summary");
+        to_delete.emplace(t.ye, t.mo);
+    invalidate(to_delete);
 }
 
 bool SummaryCache::check(const dataset::Base& ds, Reporter& reporter) const
diff --git a/arki/dataset/index/summarycache.h b/arki/dataset/index/summarycache.h
index ca82ff3..c32f0f4 100644
--- a/arki/dataset/index/summarycache.h
+++ b/arki/dataset/index/summarycache.h
@@ -7,6 +7,8 @@
 #include <arki/dataset/fwd.h>
 #include <arki/metadata/fwd.h>
 #include <filesystem>
+#include <set>
+#include <utility>
 
 namespace arki {
 class Summary;
@@ -16,6 +18,31 @@ class Base;
 
 namespace index {
 
+/**
+ * Summary file to be written with what is found in the dataset.
+ *
+ * This is to be created before reading the data to summarise, so that it can be
+ * cancelled if data changes while the summary is being computed.
+ */
+class PendingSummary
+{
+    std::filesystem::path m_dest;
+    std::filesystem::path m_tmp;
+
+public:
+    /// Does nothing if the directory that contains dest is not writable
+    explicit PendingSummary(const std::filesystem::path& dest);
+    PendingSummary(const PendingSummary&)            = delete;
+    PendingSummary& operator=(const PendingSummary&) = delete;
+    ~PendingSummary();
+
+    /// Write the summary, unless it has been cancelled
+    void commit(Summary& s);
+
+    /// Cancel all pending summaries in the directory
+    static void cancel(const std::filesystem::path& dir);
+};
+
 class SummaryCache
 {
 protected:
@@ -40,13 +67,11 @@ public:
     /// cache
     bool read(Summary& s, int year, int month);
 
-    /// Write the global cache file; returns false if the cache dir is not
-    /// writable.
-    bool write(Summary& s);
+    /// Prepare to write the global cache file
+    PendingSummary prepare();
 
-    /// Write the cache file for the given month; returns false if the cache dir
-    /// is not writable.
-    bool write(Summary& s, int year, int month);
+    /// Prepare to write the cache file for the given month
+    PendingSummary prepare(int year, int month);
 
     /// Remove all contents of the cache
     void invalidate();
@@ -54,6 +79,9 @@ public:
     /// Remove cache contents for the given month
     void invalidate(int year, int month);
 
+    /// Remove cache contents for the given months
+    void invalidate(const std::set<std::pair<int, int>>& months);
+
     /// Remove cache contents for the period found in the given metadata
     void invalidate(const Metadata& md);
 
diff --git a/arki/dataset/iseg/reader.cc b/arki/dataset/iseg/reader.cc
index ff1d16d..c9613da 100644
--- a/arki/dataset/iseg/reader.cc
+++ b/arki/dataset/iseg/reader.cc
@@ -79,12 +79,14 @@ void Reader::summary_for_month(int year, int month, Summary& out)
     if (scache.read(out, year, month))
         return;
 
+    auto pending = scache.prepare(year, month);
+
     Matcher matcher = Matcher::for_month(year, month);
 
     Summary summary;
     summary_from_indices(matcher, summary);
 
-    scache.write(summary, year, month);
+    pending.commit(summary);
     out.add(summary);
 }
 
@@ -93,6 +95,8 @@ void Reader::summary_for_all(Summary& out)
     if (scache.read(out))
         return;
 
+    auto pending = scache.prepare();
+
     // Find the datetime extremes in the database
     core::Interval interval;
     dataset().step().time_extremes(
@@ -118,7 +122,7 @@ void Reader::summary_for_all(Summary& out)
         }
     }
 
-    scache.write(out);
+    pending.commit(out);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
diff --git a/arki/dataset/iseg/writer.cc b/arki/dataset/iseg/writer.cc
index 8247511..f4e3163 100644
--- a/arki/dataset/iseg/writer.cc
+++ b/arki/dataset/iseg/writer.cc
@@ -73,8 +73,16 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         // Invalidate before storing, so that no outdated summary is left if we
         // are interrupted, and after, in case a reader cached a summary in the
         // meantime
+        std::set<std::pair<int, int>> months;
         for (const auto& e : s.second)
-            scache.invalidate(*e->md);
+        {
+            if (const auto* rt = e->md->get<types::reftime::Position>())
+            {
+                auto t = rt->get_Position();
+                months.emplace(t.ye, t.mo);
+            }
+        }
+        scache.invalidate(months);
         writer->acquire(s.second, writer_config);
         scache.invalidate(s.second);
     }
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 4897dd1..d581460 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -1,5 +1,6 @@
 #include "checker.h"
 #include "arki/dataset/archive.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/reporter.h"
 #include "arki/dataset/session.h"
@@ -61,6 +62,7 @@ public:
     /// Delete the dataset summary (if present)
     void invalidate_dataset_summary()
     {
+        index::PendingSummary::cancel(dataset().path);
         std::filesystem::remove(dataset().path / "summary");
     }
 
diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..44f710a 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -1,4 +1,5 @@
 #include "reader.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/simple/manifest.h"
 #include "arki/metadata.h"
@@ -110,20 +111,23 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     // global summary
     auto cache_pathname = dataset().path / "summary";
 
-    if (sys::access(cache_pathname, R_OK))
+    // The cache can be removed at any time by an import
+    core::File cache(cache_pathname);
+    if (cache.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(cache_pathname);
+        s.read(cache);
         s.filter(matcher, summary);
     }
     else if (sys::access(dataset().path, W_OK))
     {
         // Rebuild the cache
+        index::PendingSummary pending(cache_pathname);
         Summary s;
         query_segments_for_summary(Matcher(), s, lock);
 
         // Save the summary
-        s.writeAtomically(cache_pathname);
+        pending.commit(s);
 
         // Query the newly generated summary that we still have
         // in memory
diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 03de3fc..5586328 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -1,4 +1,5 @@
 #include "arki/dataset/simple/writer.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/session.h"
 #include "arki/dataset/simple/manifest.h"
@@ -39,6 +40,7 @@ std::string Writer::type() const { return "simple"; }
 
 void Writer::invalidate_summary()
 {
+    index::PendingSummary::cancel(dataset().path);
     std::filesystem::remove(dataset().path / "summary");
 }
 
@@ -74,7 +76,10 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         }
     }
     if (changed)
+    {
         manifest.flush();
+        invalidate_summary();
+    }
 }
 
 void Writer::test_acquire(std::shared_ptr<Session> session,
-- 
2.43.0


From a8ffbda67c45bde022e7c1a28ee6cd0f1859fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 070/111] fix: include the last instant when extending an
 interval with that of a summary

---
 arki/summary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/summary.cc b/arki/summary.cc
index 4ed911e..a39638a 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -102,7 +102,7 @@ void Summary::expand_date_range(core::Interval& interval) const
     if (root->empty())
         return;
 
-    interval.extend(Interval(root->stats.begin, root->stats.end));
+    interval.extend(root->stats.make_interval());
 }
 
 arki::utils::geos::Geometry Summary::getConvexHull() const
-- 
2.43.0


From 651e48532beb4344566c0b534674a7f90296451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 071/111] fix: do not loop forever comparing sets of items

---
 arki/types/typeset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/typeset.cc b/arki/types/typeset.cc
index b56ce81..0ce63bb 100644
--- a/arki/types/typeset.cc
+++ b/arki/types/typeset.cc
@@ -54,7 +54,7 @@ bool TypeSet::operator==(const TypeSet& o) const
         return false;
     const_iterator a = begin();
     const_iterator b = o.begin();
-    while (a != end() && b != o.end())
+    for (; a != end() && b != o.end(); ++a, ++b)
         if (**a != **b)
             return false;
     return true;
-- 
2.43.0


From 2ed8f97d78bb3a9beae53d5033a11df17007475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 072/111] fix: compare big sizes in summaries

---
 arki/summary/stats.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/summary/stats.cc b/arki/summary/stats.cc
index b3bf29b..3323171 100644
--- a/arki/summary/stats.cc
+++ b/arki/summary/stats.cc
@@ -43,10 +43,10 @@ Stats* Stats::clone() const { return new Stats(*this); }
 
 int Stats::compare(const Stats& o) const
 {
-    if (int res = count - o.count)
-        return res;
-    if (int res = size - o.size)
-        return res;
+    if (count != o.count)
+        return count < o.count ? -1 : 1;
+    if (size != o.size)
+        return size < o.size ? -1 : 1;
     if (int res = begin.compare(o.begin))
         return res;
     return end.compare(o.end);
-- 
2.43.0


From d10f9d4bedf7f5eec99ae66de68544723c80b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 073/111] fix: do not remove all archived data when asked to
 remove old data

---
 arki/dataset/archive.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 6edd962..66f7ffd 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -418,7 +418,7 @@ void Checker::segments_recursive(
 void Checker::remove_old(CheckerConfig& opts)
 {
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        a.remove_old(opts);
         return true;
     });
 }
-- 
2.43.0


From 473912bc3e855552b1f0f5f8603854a984bae15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 074/111] fix: do not overflow computing thresholds for big
 ages

---
 arki/dataset/time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/time.cc b/arki/dataset/time.cc
index 93043d6..6dc9209 100644
--- a/arki/dataset/time.cc
+++ b/arki/dataset/time.cc
@@ -65,7 +65,7 @@ core::Time SessionTime::age_threshold(unsigned age) const
     // Go to the beginning of the day
     tnow -= (tnow % (3600 * 24));
 
-    time_t thr = tnow - age * 3600 * 24;
+    time_t thr = tnow - static_cast<time_t>(age) * 3600 * 24;
 
     struct tm t;
     gmtime_r(&thr, &t);
-- 
2.43.0


From 15d33c5716e114d0fee89c0bba81484d47ab19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 075/111] fix: report progress of unfiltered output, and how
 much was written by filters

---
 arki/stream/concrete-parts.tcc | 2 +-
 arki/stream/loops.tcc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..6766d50 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -402,7 +402,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
         auto pre = to_output.pos;
         auto res = to_output.transfer_available(destination);
         if (this->stream.progress_callback)
-            this->stream.progress_callback(pre - to_output.pos);
+            this->stream.progress_callback(to_output.pos - pre);
         return res;
     }
 
diff --git a/arki/stream/loops.tcc b/arki/stream/loops.tcc
index 137a54a..97a4dbd 100644
--- a/arki/stream/loops.tcc
+++ b/arki/stream/loops.tcc
@@ -44,6 +44,7 @@ template<typename Backend> template<typename ToOutput>
 stream::SendResult UnfilteredLoop<Backend>::loop(ToOutput to_output)
 {
     stream::SendResult result;
+    to_output.progress_callback = stream.progress_callback;
     while (true)
     {
         pollinfo.revents = 0;
-- 
2.43.0


From 0043a7252c382f6c9299f45e327261b1aca4e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 076/111] fix: do not lose what filters wrote when they exit
 while the output is not ready

---
 arki/stream/concrete-parts.tcc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index 6766d50..a946a26 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -216,10 +216,12 @@ struct FromFilter
 
     bool setup_poll()
     {
+        // Once data is known to be available, do not poll until it has been
+        // read: a closed pipe would be reported all the time
         if (filter_stdout_available)
-            pfd_filter_stdout->events = 0;
+            pfd_filter_stdout->fd = -1;
         else
-            pfd_filter_stdout->events = POLLIN;
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -339,8 +341,8 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::DONE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
-                    // Filter closed stdout, evidently we are done
-                    done = true;
+                    // Filter closed stdout: what is left is its stderr
+                    cmd.close_stdout();
                     break;
                 case TransferResult::EOF_DEST:
                     // Destination closed its pipe
@@ -350,7 +352,7 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        } else if (!this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
@@ -448,9 +450,6 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             switch (transfer_available_output_write())
             {
                 case TransferResult::DONE:
-                    if (this->stream.filter_process->cmd.get_stdout() == -1)
-                        // We are done if filter_stdout is closed
-                        done = true;
                     break;
                 case TransferResult::EOF_SOURCE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -465,7 +464,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             moved_data = true;
         }
 
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        if (!moved_data && !this->filter_stdout_available && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
             // Filter stdout closed its endpoint
             trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
             this->stream.filter_process->cmd.close_stdout();
@@ -555,7 +554,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
                     // Filter closed stdout, stop polling it
-                    done = true;
+                    this->stream.filter_process->cmd.close_stdout();
                     break;
                 case TransferResult::EOF_DEST:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -564,7 +563,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
             }
         }
 
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
         {
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
-- 
2.43.0


From a50f871646beb5f40eaac672fa3e67413b5eca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 077/111] fix: report progress of filtered output also when not
 writing to a file descriptor

---
 arki/stream/concrete-parts.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index a946a26..7c54b4f 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -534,6 +534,8 @@ struct FromFilterAbstract : public FromFilter<Backend>
             AbstractStreamOutput<Backend>* stream = reinterpret_cast<AbstractStreamOutput<Backend>*>(&(this->stream));
             stream->_write_output_buffer(buffer.data(), res);
             this->stream.filter_process->size_stdout += res;
+            if (this->stream.progress_callback)
+                this->stream.progress_callback(res);
             return TransferResult::WOULDBLOCK;
         }
     }
-- 
2.43.0


From d28053fdb6b42b8ef947f433837a26a7285264c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 078/111] fix: do not wait forever for a filter when aborting
 it

---
 arki/stream/base.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index e91a3ed..27850f6 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -60,6 +60,15 @@ void BaseStreamOutput::abort_filter()
         return;
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+
+    // Nobody is going to feed the filter or to read its output anymore: let it
+    // know, or it could wait forever
+    if (proc->cmd.get_stdin() != -1)
+        proc->cmd.close_stdin();
+    if (proc->cmd.get_stdout() != -1)
+        proc->cmd.close_stdout();
+    if (proc->cmd.get_stderr() != -1)
+        proc->cmd.close_stderr();
     proc->stop();
 }
 
-- 
2.43.0


From 933d8d5b62b7149824bde168613e93df3b2b282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 079/111] fix: do not send data to filters twice when splice is
 not available

---
 arki/stream/concrete.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..aad8bab 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -107,6 +107,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
 
     if (filter_process)
     {
+        size_t sent = filter_process->size_stdin;
         try
         {
             return filter_sender->send_buffer(data, size);
@@ -116,7 +117,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_buffer(data, size);
+            // Go on from what was already sent to the filter
+            sent = filter_process->size_stdin - sent;
+            return filter_sender->send_buffer(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -135,6 +139,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
 
     if (filter_process)
     {
+        size_t sent = filter_process->size_stdin;
         try
         {
             return filter_sender->send_line(data, size);
@@ -144,7 +149,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_line(data, size);
+            // Go on from what was already sent to the filter
+            sent = filter_process->size_stdin - sent;
+            return filter_sender->send_line(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -164,6 +172,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
 
     if (filter_process)
     {
+        size_t sent = filter_process->size_stdin;
         try
         {
             return filter_sender->send_file_segment(fd, offset, size);
@@ -173,7 +182,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_file_segment(fd, offset, size);
+            // Go on from what was already sent to the filter
+            sent = filter_process->size_stdin - sent;
+            return filter_sender->send_file_segment(fd, offset + sent,
+                                                    size - sent);
         }
     }
     else
-- 
2.43.0


From 322460923c49c94ef64c303fb18a63cc2b4894be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 080/111] fix: do not wait forever for a filter when the output
 has been closed

---
 arki/stream/base.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index 27850f6..6b350ea 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -47,6 +47,12 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     flush_filter_output();
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+
+    // If the output was closed, the filter may still be trying to write
+    if (proc->cmd.get_stdout() != -1)
+        proc->cmd.close_stdout();
+    if (proc->cmd.get_stderr() != -1)
+        proc->cmd.close_stderr();
     proc->stop();
 
     filter_sender.reset();
-- 
2.43.0


From 79755ab7c60e7e263649be0e02577dd75178cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 081/111] fix: do not repack corrupted or unaligned segments

As documented, corrupted segments are left untouched, and unaligned segments
are not touched by a repack. A segment with data to delete that was not in the
MANIFEST was repacked, and then the repack was aborted with an error
---
 arki/dataset/maintenance.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/maintenance.cc b/arki/dataset/maintenance.cc
index 56e7b6d..a8abe29 100644
--- a/arki/dataset/maintenance.cc
+++ b/arki/dataset/maintenance.cc
@@ -66,7 +66,9 @@ void MockRepacker::operator()(segmented::CheckerSegment& segment,
                               segment::State state)
 {
     if (state.has(segment::SEGMENT_DIRTY) &&
-        !state.has(segment::SEGMENT_DELETE_AGE))
+        !state.has_any(segment::SEGMENT_DELETE_AGE +
+                       segment::SEGMENT_CORRUPTED +
+                       segment::SEGMENT_UNALIGNED))
     {
         reporter.segment_repack(w.name(), segment.path_relative(),
                                 "should be packed");
@@ -183,8 +185,12 @@ void RealRepacker::operator()(segmented::CheckerSegment& segment,
     if (test_flags & segment::RepackConfig::TEST_MISCHIEF_MOVE_DATA)
         state += segment::SEGMENT_DIRTY;
 
+    // Corrupted segments are left untouched, and unaligned ones need to be
+    // reindexed first, or data could be lost
     if (state.has(segment::SEGMENT_DIRTY) &&
-        !state.has(segment::SEGMENT_DELETE_AGE))
+        !state.has_any(segment::SEGMENT_DELETE_AGE +
+                       segment::SEGMENT_CORRUPTED +
+                       segment::SEGMENT_UNALIGNED))
     {
         // Repack the file
         auto repack_result = segment.repack(test_flags);
-- 
2.43.0


From 13d7a0e459f723c1a623167a272b816428fef0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 082/111] fix: rescanning a segment named after an impossible
 date does not loop forever

---
 arki/dataset/iseg/checker.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index e7dbaa7..5ee2af6 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -71,6 +71,8 @@ public:
         core::Interval interval;
         if (!dataset().step().path_timespan(segment->relpath(), interval))
             return;
+        // The name of the segment may be that of an impossible date
+        interval.begin.normalise();
         index::SummaryCache scache(dataset().summary_cache_pathname);
         for (auto t = interval.begin; t < interval.end;
              t      = t.start_of_next_month())
-- 
2.43.0


From 2c8567f9f45afc7c4d655ad8b286dd1b6af55f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 083/111] fix: stopping a query on several datasets does not
 fail, and its result tells if it was stopped

---
 arki/dataset/merged.cc | 51 +++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..ffd3483 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -32,6 +32,7 @@ protected:
     std::shared_ptr<Metadata> buffer[buf_size];
     size_t head, tail, size;
     mutable bool m_done;
+    bool m_discard = false;
 
 public:
     SyncBuffer(const SyncBuffer&)             = delete;
@@ -45,7 +46,11 @@ public:
     void push(std::shared_ptr<Metadata> val)
     {
         std::unique_lock<std::mutex> lock(mutex);
-        cond.wait(lock, [this] { return (head + 1) % size != tail; });
+        cond.wait(lock, [this] {
+            return (head + 1) % size != tail || m_discard;
+        });
+        if (m_discard)
+            return;
         buffer[head] = val;
         head         = (head + 1) % size;
         cond.notify_all();
@@ -94,6 +99,14 @@ public:
         m_done = true;
         cond.notify_all();
     }
+
+    /// Discard all further elements, instead of waiting for them to be read
+    void discard()
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+        m_discard = true;
+        cond.notify_all();
+    }
 };
 
 /**
@@ -135,6 +148,20 @@ public:
     SyncBuffer mdbuf;
 
     MetadataReader() {}
+    ~MetadataReader()
+    {
+        // Wait for the thread while what it uses is still there
+        cancel();
+        if (thread.joinable())
+            thread.join();
+    }
+
+    /// Stop producing data, and do not wait for it to be read
+    void cancel()
+    {
+        stop_producing();
+        mdbuf.discard();
+    }
 
     void main() override
     {
@@ -175,6 +202,12 @@ public:
     string errorbuf;
 
     SummaryReader() {}
+    ~SummaryReader()
+    {
+        // Wait for the thread while what it uses is still there
+        if (thread.joinable())
+            thread.join();
+    }
 
     void main() override
     {
@@ -260,12 +293,13 @@ public:
         return selected->mdbuf.pop();
     }
 
+    /// Tell all the readers to stop, and wait for them
     void cancel()
     {
         for (auto& r : readers)
-            r.stop_producing();
-        while (pop())
-            ;
+            r.cancel();
+        for (auto& r : readers)
+            r.join();
     }
 
     void shutdown()
@@ -325,11 +359,6 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
     // Start all the readers
     MetadataReaderPool readers(datasets, query);
 
-    // TODO: we need to join or detach the threads, otherwise if we raise an
-    // exception before the join further down, we get
-    // https://stackoverflow.com/questions/7381757/c-terminate-called-without-an-active-exception
-
-    bool canceled = false;
     while (true)
     {
         auto md = readers.pop();
@@ -349,12 +378,12 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
 
         if (!ok)
         {
-            canceled = true;
             readers.cancel();
+            return track.done(false);
         }
     }
 
-    return track.done(canceled);
+    return track.done(true);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 3bba280574d47bcabf779ede7eaa1b8a690b5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 084/111] fix: do not report progress twice when merging one
 dataset only

---
 arki/dataset/merged.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ffd3483..3743714 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -354,7 +354,12 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
 
     // Handle the trivial case of only one dataset
     if (datasets.size() == 1)
-        return track.done(datasets[0]->query_data(query, dest));
+    {
+        // Progress is already reported here
+        query::Data subquery = query;
+        subquery.progress    = nullptr;
+        return track.done(datasets[0]->query_data(subquery, dest));
+    }
 
     // Start all the readers
     MetadataReaderPool readers(datasets, query);
-- 
2.43.0


From cff01e32158cb309a1a0310634ad9f2af89773eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 085/111] fix: do not end tar files after data whose size is a
 multiple of 512

An additional block of zeros was written after such data, which other
programs take as the end of the archive.
---
 arki/segment/data/tar.cc | 2 +-
 arki/utils/tar.cc        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..512f16a 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -89,7 +89,7 @@ struct CheckBackend : public AppendCheckBackend
 
     size_t actual_end(off_t offset, size_t size) const override
     {
-        return offset + size + 512 - (size % 512);
+        return offset + size + (512 - size % 512) % 512;
     }
 
     State check()
diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index cb0f604..52f7fb1 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -117,7 +117,7 @@ void TarOutput::_write(const std::string& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - data.size() % 512) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
@@ -130,7 +130,7 @@ void TarOutput::_write(const std::vector<uint8_t>& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - data.size() % 512) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
-- 
2.43.0


From ff64be1f8189ccd380e731b30ad2d200988f313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 086/111] fix: count the length field in the length of binary
 pax records

---
 arki/utils/tar.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index 52f7fb1..c2122d5 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -95,7 +95,8 @@ void PaxHeader::append(const std::string& key, const std::string& value)
 void PaxHeader::append(const std::string& key,
                        const std::vector<uint8_t>& value)
 {
-    std::string len = std::to_string(1 + key.size() + 1 + value.size() + 1);
+    size_t size     = size_with_length(1 + key.size() + 1 + value.size() + 1);
+    std::string len = std::to_string(size);
     std::copy(len.begin(), len.end(), std::back_inserter(data));
     data.push_back(' ');
     std::copy(key.begin(), key.end(), std::back_inserter(data));
-- 
2.43.0


From 417e5175dc1d3eba8b190008a6853d801e040313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 087/111] fix: do not return wrong data reading again a damaged
 gz segment

If uncompressing a group failed, what was read until then was kept as if it
was complete, and was returned by following reads.
---
 arki/utils/compress.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 8540afd..aec9a03 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -245,21 +245,25 @@ std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
         // Open the compressed chunk
         int fd1 = fd.dup();
         utils::gzip::File gzfd(fd.path(), fd1, "rb");
-        last_group_offset = idx.ofs_unc[block];
+        std::vector<uint8_t> group;
         acct::gzip_idx_reposition_count.incr();
 
         if (block + 1 >= idx.ofs_comp.size())
         {
             // Decompress until the end of the file
-            last_group = gzfd.read_all();
+            group = gzfd.read_all();
         }
         else
         {
             // Read and uncompress the compressed chunk
             size_t unc_size = idx.ofs_unc[block + 1] - idx.ofs_unc[block];
-            last_group.resize(unc_size);
-            gzfd.read_all_or_throw(last_group.data(), last_group.size());
+            group.resize(unc_size);
+            gzfd.read_all_or_throw(group.data(), group.size());
         }
+
+        // Only replace the cached group if reading succeeded
+        last_group        = std::move(group);
+        last_group_offset = idx.ofs_unc[block];
     }
     size_t group_offset = offset - last_group_offset;
     if (group_offset + size > last_group.size())
-- 
2.43.0


From 40cd1adfbe4bc3dabed5f95f7540bc3b3dce827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 088/111] fix: splitting clusters by timerange works with data
 without timerange

---
 arki/metadata/clusterer.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/arki/metadata/clusterer.cc b/arki/metadata/clusterer.cc
index 5ca9290..d995f18 100644
--- a/arki/metadata/clusterer.cc
+++ b/arki/metadata/clusterer.cc
@@ -52,11 +52,8 @@ bool Clusterer::exceeds_timerange(const Metadata& md) const
 {
     if (not split_timerange)
         return false;
-    if (not last_timerange)
-        return false;
-    if (*last_timerange == *md.get<types::Timerange>())
-        return false;
-    return true;
+    return !types::Type::nullable_equals(last_timerange,
+                                         md.get<types::Timerange>());
 }
 
 void Clusterer::start_batch(DataFormat new_format)
@@ -73,12 +70,13 @@ void Clusterer::add_to_batch(std::shared_ptr<Metadata> md)
     ++count;
     if (cur_interval[0] == -1 && max_interval != 0)
         md_to_interval(*md, cur_interval);
+    if (split_timerange and not last_timerange)
+        if (const auto* tr = md->get<types::Timerange>())
+            last_timerange = tr->clone();
     const Reftime* rt = md->get<types::Reftime>();
     if (!rt)
         return;
     rt->expand_date_range(timespan);
-    if (split_timerange and not last_timerange)
-        last_timerange = md->get<types::Timerange>()->clone();
 }
 
 void Clusterer::flush_batch()
-- 
2.43.0


From f17cf33eb2f6aec0e585fe0b9bdcec8557df2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 089/111] fix: sort results of fromfunction datasets when a
 sort order is requested

---
 arki/dataset/fromfunction.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/fromfunction.cc b/arki/dataset/fromfunction.cc
index bb82dcf..d3464e5 100644
--- a/arki/dataset/fromfunction.cc
+++ b/arki/dataset/fromfunction.cc
@@ -1,5 +1,6 @@
 #include "fromfunction.h"
 #include "arki/core/time.h"
+#include "arki/metadata/sort.h"
 #include "arki/query.h"
 #include "arki/query/progress.h"
 
@@ -18,11 +19,24 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
 {
     query::TrackProgress track(q.progress);
     dest = track.wrap(dest);
-    return track.done(generator([&](std::shared_ptr<Metadata> md) {
-        if (!q.matcher(*md))
-            return true;
-        return dest(md);
-    }));
+
+    // Wrap with a stream sorter if we need sorting
+    std::unique_ptr<metadata::sort::Stream> sorter;
+    if (q.sorter)
+        sorter.reset(new metadata::sort::Stream(*q.sorter, dest));
+
+    if (!generator([&](std::shared_ptr<Metadata> md) {
+            if (!q.matcher(*md))
+                return true;
+            if (sorter)
+                return sorter->add(md);
+            return dest(md);
+        }))
+        return track.done(false);
+
+    if (sorter)
+        return track.done(sorter->flush());
+    return track.done(true);
 }
 
 core::Interval Reader::get_stored_time_interval()
-- 
2.43.0


From 477b6269ff606a941ee2053076cf60e2441b6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 090/111] fix: read data files from the beginning at each query

---
 arki/dataset/file.cc | 10 ++++++++++
 arki/dataset/file.h  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index f91cebc..6bbcfda 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -17,6 +17,7 @@
 #include "arki/utils/sys.h"
 #include <fcntl.h>
 #include <sstream>
+#include <unistd.h>
 
 using namespace std;
 using namespace arki::core;
@@ -287,6 +288,13 @@ FdFile::FdFile(std::shared_ptr<Session> session, const core::cfg::Section& cfg)
 
 FdFile::~FdFile() {}
 
+void FdFile::rewind()
+{
+    // Pipes can only be read once
+    if (::lseek(fd, 0, SEEK_SET) == (off_t)-1 && errno != ESPIPE)
+        fd.throw_error("cannot seek to the beginning of");
+}
+
 void FdFile::ensure_data_is_accessible(Metadata& md)
 {
     if (!md.has_source_blob())
@@ -334,6 +342,7 @@ ArkimetFile::~ArkimetFile() {}
 
 bool ArkimetFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    rewind();
     metadata::BinaryReader md_reader(fd);
     return scan_reader(md_reader, q, dest);
 }
@@ -352,6 +361,7 @@ YamlFile::~YamlFile() { delete reader; }
 
 bool YamlFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    rewind();
     metadata::YamlReader yaml_reader(fd);
     return scan_reader(yaml_reader, q, dest);
 }
diff --git a/arki/dataset/file.h b/arki/dataset/file.h
index 6be7d33..63b44fe 100644
--- a/arki/dataset/file.h
+++ b/arki/dataset/file.h
@@ -89,6 +89,10 @@ protected:
     core::File fd;
 
     void ensure_data_is_accessible(Metadata& md);
+
+    /// Go back to the beginning of the file, as each query reads all of it
+    void rewind();
+
     bool scan_reader(metadata::BaseReader& reader, const query::Data& q,
                      metadata_dest_func consumer);
 
-- 
2.43.0


From be23fe2763574eb371bc66cecd951b00c5b53b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 091/111] fix: sorting groups data by interval also when
 sorting all at once

---
 arki/metadata/sort.cc | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..438d363 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -111,8 +111,41 @@ struct IntervalCompare : public Items
 
     Interval interval() const override { return m_interval; }
 
+    /// Compare the beginnings of the intervals that contain two instants
+    int compare_interval(const Time& a, const Time& b) const
+    {
+        if (int res = a.ye - b.ye)
+            return res;
+        if (m_interval == YEAR)
+            return 0;
+        if (int res = a.mo - b.mo)
+            return res;
+        if (m_interval == MONTH)
+            return 0;
+        if (int res = a.da - b.da)
+            return res;
+        if (m_interval == DAY)
+            return 0;
+        if (int res = a.ho - b.ho)
+            return res;
+        if (m_interval == HOUR)
+            return 0;
+        return a.mi - b.mi;
+    }
+
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Data is grouped by interval, and sorted inside each group
+        const Reftime* rta = a.get<Reftime>();
+        const Reftime* rtb = b.get<Reftime>();
+        if (rta && rtb)
+        {
+            if (int res = compare_interval(rta->get_Position(),
+                                           rtb->get_Position()))
+                return res;
+        }
+        else if (rta || rtb)
+            return rta ? 1 : -1;
         return Items::compare(a, b);
     }
 
-- 
2.43.0


From 5782b2feb34f186be1b86a68ea83805562114084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 092/111] fix: stop sending sorted data when the destination
 asks to stop

---
 arki/dataset/simple/reader.cc | 6 ++++--
 arki/metadata/sort.cc         | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 44f710a..abb583c 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -68,8 +68,10 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
+                return sorter.add(md);
+            }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 438d363..488edb8 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -236,7 +236,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            if (!flush())
+                return false;
             buffer.push_back(m);
             setEndOfPeriod(time);
         }
@@ -245,8 +246,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
     }
     else
     {
-        if (hasInterval)
-            flush();
+        if (hasInterval && !flush())
+            return false;
         buffer.push_back(m);
     }
     return true;
-- 
2.43.0


From 2c98f04a65e811fb52b37d64c269b4ae6cf82e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 093/111] fix: checking terminators does not stop at the first
 empty segment

---
 arki/dataset/simple/checker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index d581460..32e7a39 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -404,7 +404,7 @@ void Checker::check_issue51(CheckerConfig& opts)
         auto csegment            = segment_from_relpath(info.relpath);
         metadata::Collection mds = csegment->segment_checker->scan();
         if (mds.empty())
-            return;
+            continue;
         File datafile(csegment->segment->abspath(), O_RDONLY);
         // Iterate all metadata in the segment
         unsigned count_otherformat = 0;
-- 
2.43.0


From cb2fd9650b3cf828bfedbfeedbf83462ff560773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 094/111] fix: scanning VM2 files in directory segments does
 not count newlines as data

---
 arki/segment/data/dir.cc | 15 +++++++++++++--
 arki/segment/data/dir.h  |  4 ++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index bac0084..b92f46b 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -938,6 +938,15 @@ void Scanner::list_files()
         max_sequence = on_disk.rbegin()->first;
 }
 
+size_t Scanner::data_size(const ScannerData& info,
+                          const Metadata& md) const
+{
+    // VM2 lines are written with a newline, which is not part of the data
+    if (segment.format() == DataFormat::VM2 && md.has_cached_data())
+        return md.data_size();
+    return info.size;
+}
+
 bool Scanner::scan(std::shared_ptr<segment::Reader> reader,
                    metadata_dest_func dest)
 {
@@ -947,7 +956,8 @@ bool Scanner::scan(std::shared_ptr<segment::Reader> reader,
     {
         auto md =
             scanner->scan_file_single(segment.abspath() / fi.second.fname);
-        md->set_source(Source::createBlob(reader, fi.first, fi.second.size));
+        md->set_source(Source::createBlob(reader, fi.first,
+                                          data_size(fi.second, *md)));
         if (!dest(md))
             return false;
     }
@@ -981,7 +991,8 @@ bool Scanner::scan(std::function<void(const std::string&)> reporter,
             reporter(out.str());
             continue;
         }
-        md->set_source(Source::createBlob(reader, fi.first, fi.second.size));
+        md->set_source(Source::createBlob(reader, fi.first,
+                                          data_size(fi.second, *md)));
         if (!dest(md))
             return false;
     }
diff --git a/arki/segment/data/dir.h b/arki/segment/data/dir.h
index aa096af..bacf082 100644
--- a/arki/segment/data/dir.h
+++ b/arki/segment/data/dir.h
@@ -197,6 +197,10 @@ public:
     /// scanning errors to the reporter
     bool scan(std::function<void(const std::string&)> reporter,
               std::shared_ptr<segment::Reader> reader, metadata_dest_func dest);
+
+private:
+    /// Size of the data in a file that has been scanned
+    size_t data_size(const ScannerData& info, const Metadata& md) const;
 };
 
 } // namespace segment::data::dir
-- 
2.43.0


From 9ac93ea267484651b11d8b525fb7b2b52f5536aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 095/111] fix: read the last line of a file when it has no
 newline

---
 arki/core/file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/core/file.cc b/arki/core/file.cc
index 73a654f..78f4440 100644
--- a/arki/core/file.cc
+++ b/arki/core/file.cc
@@ -107,6 +107,9 @@ template <typename Buffer> struct LineReaderImpl : public LineReader, Buffer
             int c = this->get();
             if (c == EOF)
             {
+                // The last line can be without a newline
+                if (!line.empty())
+                    return true;
                 this->fd_eof = true;
                 return false;
             }
-- 
2.43.0


From 2d083ef23770827480438f492067e01fd724545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 096/111] fix: configuration values with blanks or quotes at
 their ends are read back as written

---
 arki/core/cfg.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/arki/core/cfg.cc b/arki/core/cfg.cc
index 3a2b20f..16adbf0 100644
--- a/arki/core/cfg.cc
+++ b/arki/core/cfg.cc
@@ -96,7 +96,8 @@ public:
                 // Strip leading and trailing spaces on the value
                 value        = str::strip(value);
                 // Strip double quotes, if they appear
-                if (value[0] == '"' && value[value.size() - 1] == '"')
+                if (value.size() > 1 && value[0] == '"' &&
+                    value[value.size() - 1] == '"')
                     value = value.substr(1, value.size() - 2);
                 dest->set(patterns.assignment[1], value);
             }
@@ -128,7 +129,8 @@ public:
                     // Strip leading and trailing spaces on the value
                     value             = str::strip(value);
                     // Strip double quotes, if they appear
-                    if (value[0] == '"' && value[value.size() - 1] == '"')
+                    if (value.size() > 1 && value[0] == '"' &&
+                    value[value.size() - 1] == '"')
                         value = value.substr(1, value.size() - 2);
                     section->set(patterns.assignment[1], value);
                 }
@@ -150,6 +152,18 @@ public:
     }
 };
 
+/**
+ * Add quotes to a value, if it would not be read back as it is without them
+ */
+static std::string quote_value(const std::string& value)
+{
+    if (value != str::strip(value) ||
+        (value.size() > 1 && value[0] == '"' &&
+         value[value.size() - 1] == '"'))
+        return '"' + value + '"';
+    return value;
+}
+
 /*
  * Section
  */
@@ -198,7 +212,7 @@ void Section::write(std::ostream& out) const
 {
     for (const auto& i : *this)
         if (!i.second.empty())
-            out << i.first << " = " << i.second << endl;
+            out << i.first << " = " << quote_value(i.second) << endl;
 }
 
 std::string Section::to_string() const
@@ -212,7 +226,8 @@ void Section::dump(FILE* out) const
 {
     for (const auto& i : *this)
         if (!i.second.empty())
-            fprintf(out, "%s = %s\n", i.first.c_str(), i.second.c_str());
+            fprintf(out, "%s = %s\n", i.first.c_str(),
+                    quote_value(i.second).c_str());
 }
 
 std::shared_ptr<Section> Section::parse(core::NamedFileDescriptor& in)
-- 
2.43.0


From 4a0da64f61ddf9e56177b119d6199e317cb5a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 097/111] fix: report truncated responses of remote datasets

---
 arki/dataset/http.cc   | 6 ++++++
 arki/metadata/stream.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/arki/dataset/http.cc b/arki/dataset/http.cc
index 99bc3bc..f7a6531 100644
--- a/arki/dataset/http.cc
+++ b/arki/dataset/http.cc
@@ -116,6 +116,12 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         request.post_data.add_string("style", "inline");
     request.perform();
 
+    // If the size of the response is not known, all that tells that it has
+    // been truncated can be that the last element is not complete
+    if (!request.mdc.consumer_canceled() && request.mdc.incomplete())
+        throw std::runtime_error(request.url +
+                                 ": the response has been truncated");
+
     return track.done(!request.mdc.consumer_canceled());
 }
 
diff --git a/arki/metadata/stream.h b/arki/metadata/stream.h
index bfd4cd2..a3ab84b 100644
--- a/arki/metadata/stream.h
+++ b/arki/metadata/stream.h
@@ -44,6 +44,12 @@ public:
      */
     size_t countBytesUnprocessed() const { return buffer.size(); }
 
+    /**
+     * Return true if what was received so far stops in the middle of a
+     * metadata, or before the end of its inline data
+     */
+    bool incomplete() const { return state == DATA || !buffer.empty(); }
+
     /**
      * Send some data to the stream.
      *
-- 
2.43.0


From 50441ec724549af97cab03991a2dce14bab1c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 098/111] fix: stop following redirects that never end

---
 arki/core/curl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arki/core/curl.cc b/arki/core/curl.cc
index 4ca5d08..bba72f8 100644
--- a/arki/core/curl.cc
+++ b/arki/core/curl.cc
@@ -95,7 +95,10 @@ void Request::set_method(const std::string& method) { this->method = method; }
 
 void Request::perform()
 {
-    actual_url = url;
+    // Maximum number of redirects that are followed
+    const unsigned max_redirects = 50;
+    unsigned redirects           = 0;
+    actual_url                   = url;
     while (true)
     {
         arkimet_exception_message.clear();
@@ -158,6 +161,9 @@ void Request::perform()
         }
         else if (response_code >= 300)
         {
+            if (++redirects > max_redirects)
+                throw std::runtime_error(method + " " + this->url +
+                                         " redirects too many times");
             char* url = nullptr;
             checked("reading redirect url",
                     curl_easy_getinfo(curl, CURLINFO_REDIRECT_URL, &url));
-- 
2.43.0


From f4098cf8a326890118c5b5ac002fa1c801f07008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 099/111] fix: arki-check --restrict called a method that does
 not exist

---
 python/arkimet/cmdline/check.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/python/arkimet/cmdline/check.py b/python/arkimet/cmdline/check.py
index 168617a..fe9f21a 100644
--- a/python/arkimet/cmdline/check.py
+++ b/python/arkimet/cmdline/check.py
@@ -113,14 +113,10 @@ class Check(AppConfigMixin, App):
             self.add_config_section(section)
 
         if not self.session.has_datasets():
-            self.parser.error("you need to specify at least one dataset to work on")
-
-        # Remove unallowed entries
-        if self.args.restrict:
-            self.filter_restrict(self.args.restrict)
-
-        if not self.session.has_datasets():
-            self.parser.error("no accessible datasets found for the given --restrict value")
+            if self.config_filter_discarded:
+                self.parser.error("no accessible datasets found for the given --restrict value")
+            else:
+                self.parser.error("you need to specify at least one dataset to work on")
 
     def run(self):
         super().run()
-- 
2.43.0


From e8b94077ccef34525ae848660c195e30fc3926ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 100/111] fix: arki-check --compress=0 works on archives only,
 like --compress

---
 python/arkimet/cmdline/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arkimet/cmdline/check.py b/python/arkimet/cmdline/check.py
index fe9f21a..00857ee 100644
--- a/python/arkimet/cmdline/check.py
+++ b/python/arkimet/cmdline/check.py
@@ -78,7 +78,7 @@ class Check(AppConfigMixin, App):
             if self.args.remove_all or self.args.remove_old or self.args.repack:
                 offline = False
                 online = True
-            elif self.args.tar or self.args.zip or self.args.compress:
+            elif self.args.tar or self.args.zip or self.args.compress is not None:
                 offline = True
                 online = False
             else:
-- 
2.43.0


From 33307eb655859dcc9292cba46a541f290f09abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 101/111] fix: name of the dataset with an invalid filter in
 arki-mergeconf

---
 python/arkimet/cmdline/mergeconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arkimet/cmdline/mergeconf.py b/python/arkimet/cmdline/mergeconf.py
index 1a529dd..5a932df 100644
--- a/python/arkimet/cmdline/mergeconf.py
+++ b/python/arkimet/cmdline/mergeconf.py
@@ -82,7 +82,7 @@ class Mergeconf(AppConfigMixin, App):
             try:
                 self.session.matcher(filter)
             except ValueError as e:
-                print("{}: {}".format(name, e), file=sys.stderr)
+                print("{}: {}".format(dataset.name, e), file=sys.stderr)
                 has_errors = True
         if has_errors:
             raise Fail("Some input files did not validate.")
-- 
2.43.0


From 5d0412c801309450092f3616de47776b42bc095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 102/111] fix: arki-scan --movework was ignored

---
 arki/python/arki-scan.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index e224284..d581d3c 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -62,7 +62,6 @@ struct FileSource
     std::shared_ptr<arki::dataset::Dataset> dataset;
     std::shared_ptr<arki::dataset::Reader> reader;
 
-    arki::core::cfg::Section cfg;
     std::string movework;
     std::string moveok;
     std::string moveko;
@@ -74,8 +73,13 @@ struct FileSource
 
     void open()
     {
-        if (!movework.empty() && cfg.value("type") == "file")
+        if (!movework.empty() && dataset->config->value("type") == "file")
+        {
+            // Work on the file in its new place
+            arki::core::cfg::Section cfg(*dataset->config);
             cfg.set("path", moveFile(cfg.value("path"), movework));
+            dataset = dataset->session->dataset(cfg);
+        }
         reader = dataset->create_reader();
     }
 
-- 
2.43.0


From 6c7cfaab5abb9cfae8feadd6679035a379146b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 103/111] fix: exit code of arki-scan --ignore-duplicates with
 duplicates only

---
 arki/python/arki-scan.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index d581d3c..822324c 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -302,7 +302,7 @@ compute_result(bool all_processed, bool ignore_duplicates,
             have_issues = true;
             continue;
         }
-        if (!res.successful)
+        if (!res.success(ignore_duplicates))
         {
             have_issues = true;
             continue;
-- 
2.43.0


From 6588e63686770b65d7314d266841710095b1c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 104/111] fix: newlines and non-latin-1 characters in headers
 sent by arki-server

---
 python/arkimet/cmdline/server.py |  2 +-
 python/arkimet/server/views.py   | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/arkimet/cmdline/server.py b/python/arkimet/cmdline/server.py
index 945cf54..6ac28df 100644
--- a/python/arkimet/cmdline/server.py
+++ b/python/arkimet/cmdline/server.py
@@ -167,7 +167,7 @@ class Handler(BaseHTTPRequestHandler):
             view = meth(request, self, **values)
             getattr(view, method)()
         except HTTPException as e:
-            self.send_response(e.code, e.description)
+            self.send_response(e.code, views.header_value(e.description))
             for k, v in e.get_headers():
                 self.send_header(k, v)
             self.end_headers()
diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 6b6cce2..4da8495 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -13,6 +13,16 @@ from urllib.parse import quote
 from werkzeug.exceptions import NotFound
 
 
+def header_value(text: str) -> str:
+    """
+    Turn arbitrary text into something that can be sent as the value of a HTTP
+    header, or as the reason in a status line: on a single line, and using only
+    characters that http.server is able to encode
+    """
+    text = "".join(c if c.isprintable() else " " for c in text)
+    return text.encode("latin-1", "replace").decode("latin-1")
+
+
 class ArkiView:
     """
     Base class for Django-CBV-style query handlers
@@ -95,7 +105,7 @@ class ArkiView:
         self.handler.send_header("Content-Type", self.content_type)
         fname = self.get_headers_filename()
         if fname is not None:
-            self.handler.send_header("Content-Disposition", "attachment; filename=" + fname)
+            self.handler.send_header("Content-Disposition", "attachment; filename=" + header_value(fname))
         self.handler.end_headers()
         self.handler.flush_headers()
         self.headers_sent = True
@@ -115,7 +125,7 @@ class ArkiView:
             code = getattr(ex, "code", 500)
             self.handler.send_response(code)
             self.handler.send_header("Content-Type", "text/plain")
-            self.handler.send_header("Arkimet-Exception", str(ex))
+            self.handler.send_header("Arkimet-Exception", header_value(str(ex)))
             self.handler.end_headers()
             self.handler.flush_headers()
             self.headers_sent = True
-- 
2.43.0


From 361aac4aa3edcaefc656cad2aa7d1bda828b3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 105/111] fix: arki-server ignored the query on all datasets

---
 python/arkimet/server/views.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 4da8495..f1438ad 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -511,7 +511,10 @@ class QMacroMixin:
             return self.session.querymacro(qmacro, self.request.values.get("query", "").strip()).reader()
 
     def get_query(self):
-        return ""
+        if self.request.values.get("qmacro", "").strip():
+            # The query is the source of the macro
+            return ""
+        return super().get_query()
 
 
 def arki_query(request, handler, **kw):
-- 
2.43.0


From ef7d5d225a893daa23e0e1fde810675df209565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 106/111] fix: arki-server gave empty summaries for styles that
 do not exist

---
 python/arkimet/server/views.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index f1438ad..8c4c5b3 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -88,6 +88,15 @@ class ArkiView:
             self.info["sort"] = sort
         return sort
 
+    def get_summary_style(self, default, styles=("binary", "yaml", "json")):
+        """
+        Return the format requested for a summary
+        """
+        style = self.request.values.get("style", default).strip()
+        if style not in styles:
+            raise NotFound("TODO: summary style {}".format(style))
+        return style
+
     def get_headers_filename(self):
         """
         Return the file name to use in the Content-Disposition header.
@@ -364,17 +373,19 @@ class ArkiDatasetSummary(ArkiDatasetQuery):
     def get(self):
         self.content_type = "text/plain"
         with self.response():
+            style = self.get_summary_style("yaml")
             summary = self.get_dataset_reader().query_summary(self.get_query())
             self.send_headers()
-            summary.write(self.handler.wfile, format=self.request.values.get("style", "yaml").strip())
+            summary.write(self.handler.wfile, format=style)
 
     def post(self):
         self.content_type = "application/octet-stream"
         self.download = True
         with self.response():
+            style = self.get_summary_style("binary")
             summary = self.get_dataset_reader().query_summary(self.get_query())
             self.send_headers()
-            summary.write(self.handler.wfile, format=self.request.values.get("style", "binary").strip())
+            summary.write(self.handler.wfile, format=style)
 
 
 class ArkiDatasetSummaryShort(ArkiDatasetQuery):
@@ -382,9 +393,10 @@ class ArkiDatasetSummaryShort(ArkiDatasetQuery):
 
     def post(self):
         with self.response():
+            style = self.get_summary_style("yaml", styles=("yaml", "json"))
             summary = self.get_dataset_reader().query_summary(self.get_query())
             self.send_headers()
-            summary.write_short(self.handler.wfile, format=self.request.values.get("style", "yaml").strip())
+            summary.write_short(self.handler.wfile, format=style)
 
 
 class DatasetQueryData(ArkiDatasetQuery):
@@ -532,9 +544,10 @@ class ArkiSummary(QMacroMixin, ArkiView):
 
     def post(self):
         with self.response():
+            style = self.get_summary_style("binary")
             summary = self.get_dataset_reader().query_summary(self.get_query())
             self.send_headers()
-            summary.write(self.handler.wfile, format=self.request.values.get("style", "binary").strip())
+            summary.write(self.handler.wfile, format=style)
 
 
 class ArkiDatasetIndex(ArkiView):
-- 
2.43.0


From 26ddcb89a75f4f2a3f0a135db64195aa4cc3b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 107/111] fix: percent signs in the configuration given by
 arki-server

---
 python/arkimet/server/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 8c4c5b3..695582d 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -315,7 +315,7 @@ class ArkiDatasetConfig(ArkiView):
             if self.kwargs["name"] not in self.handler.server.remote_cfg:
                 raise NotFound("Dataset {} not found".format(self.kwargs["name"]))
             self.headers_filename = self.kwargs["name"] + ".config"
-            cfg = configparser.ConfigParser()
+            cfg = configparser.ConfigParser(interpolation=None)
             cfg.add_section(self.kwargs["name"])
             for k, v in self.handler.server.remote_cfg[self.kwargs["name"]].items():
                 cfg.set(self.kwargs["name"], k, v)
-- 
2.43.0


From e4978e60b21fefd644268be200519283d0fd6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 108/111] fix: arki-server ran programs outside of the
 configured directories

---
 python/arkimet/server/views.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 695582d..9a7d455 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -97,6 +97,19 @@ class ArkiView:
             raise NotFound("TODO: summary style {}".format(style))
         return style
 
+    def get_program(self, key):
+        """
+        Return the value of a request argument that begins with the name of a
+        program to run, optionally followed by its arguments.
+
+        The program is looked for in the configured directories only, so its
+        name cannot be a path
+        """
+        value = self.request.values.get(key, "").strip()
+        if value and "/" in value.split(None, 1)[0]:
+            raise NotFound("{} {} not found".format(key, value))
+        return value
+
     def get_headers_filename(self):
         """
         Return the file name to use in the Content-Disposition header.
@@ -469,7 +482,7 @@ class DatasetQueryPostprocess(ArkiDatasetQuery):
                 names.sort()
                 os.environ["ARKI_POSTPROC_FILES"] = ":".join(names)
 
-            command = self.request.values.get("command", "")
+            command = self.get_program("command")
             self.info["postprocess"] = command
 
             self.get_dataset_reader().query_bytes(
@@ -516,7 +529,7 @@ class QMacroMixin:
         return self.handler.server.url + "/query"
 
     def get_dataset_reader(self):
-        qmacro = self.request.values.get("qmacro", "").strip()
+        qmacro = self.get_program("qmacro")
         if not qmacro:
             return self.session.merged().reader()
         else:
-- 
2.43.0


From cca8482267f5e2cb337974013ac5aa5d878b6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 109/111] fix: arki-server --syslog crashed

---
 python/arkimet/cmdline/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/arkimet/cmdline/server.py b/python/arkimet/cmdline/server.py
index 6ac28df..a9e346f 100644
--- a/python/arkimet/cmdline/server.py
+++ b/python/arkimet/cmdline/server.py
@@ -341,7 +341,9 @@ class Server(App):
             root_logger.addHandler(h)
 
         if self.args.syslog:
-            h = logging.SyslogHandler()
+            from logging.handlers import SysLogHandler
+
+            h = SysLogHandler()
             h.setFormatter(logging.Formatter("%(asctime)-15s %(levelname)s %(message)s"))
             root_logger.addHandler(h)
 
-- 
2.43.0


From 7fc7b2469d02b52804c6a8ab3beaa6d8415dc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 110/111] fix: arki-server with relative paths of datasets

---
 python/arkimet/cmdline/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/arkimet/cmdline/server.py b/python/arkimet/cmdline/server.py
index a9e346f..86254f4 100644
--- a/python/arkimet/cmdline/server.py
+++ b/python/arkimet/cmdline/server.py
@@ -1,6 +1,7 @@
 # python 3.7+ from __future__ import annotations
 import argparse
 import logging
+import os
 import re
 import socket
 import subprocess
@@ -69,6 +70,9 @@ class ArkiServer(ForkingMixIn, HTTPServer):
         # Amend configuration turning local datasets into remote dataset
         self.remote_cfg = arki.cfg.Sections()
         for name, sec in self.cfg.items():
+            # Queries are run from a temporary directory
+            if "path" in sec and sec.get("type") != "remote":
+                sec["path"] = os.path.abspath(sec["path"])
             # Add the dataset to the session pool
             self.session.add_dataset(sec)
             self.remote_cfg[name] = sec.copy()
-- 
2.43.0


From ee0fb44a09e7e7915296a019ccd29e5ca3d52f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 111/111] fix: postprocessing the results of query macros
 crashed

---
 arki/dataset.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arki/dataset.cc b/arki/dataset.cc
index 2843cce..d1b9364 100644
--- a/arki/dataset.cc
+++ b/arki/dataset.cc
@@ -82,10 +82,14 @@ DatasetUse compute_use(const std::string& name,
 
 } // namespace
 
-Dataset::Dataset(std::shared_ptr<Session> session) : session(session) {}
+Dataset::Dataset(std::shared_ptr<Session> session)
+    : session(session), config(std::make_shared<core::cfg::Section>())
+{
+}
 
 Dataset::Dataset(std::shared_ptr<Session> session, const std::string& name)
-    : m_name(name), m_use(compute_use(name)), session(session)
+    : m_name(name), m_use(compute_use(name)), session(session),
+      config(std::make_shared<core::cfg::Section>())
 {
 }
 
-- 
2.43.0

