From 31ddeb15246f882417b11d3677e8b85f4cb3212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 01/45] fix: collect every worker result before finishing topk,
 botk and search

The collector loop stopped as soon as the pool looked idle, so results still
queued in the channel were dropped, and with a full channel nobody received
while join() waited for the blocked senders. Receive until all senders are
gone instead.
---
 src/cmd/botk.rs   | 13 ++++---------
 src/cmd/search.rs | 29 ++++++++++++++---------------
 src/cmd/topk.rs   | 13 ++++---------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..6ad4e09 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -303,14 +302,10 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, i.e. until every
+    // job has dropped its sender.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..ff53568 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,20 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
-                    .as_mut()
-                    .map(|m| m.get_mut(&pattern).unwrap())
-                    .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+    // Collect locations from channel until all jobs are done, i.e. until every job has
+    // dropped its sender.
+    if let Some(rx) = rx {
+        for (pattern, path, matches) in rx {
+            let matches_for_pattern: &mut HashMap<
+                PathBuf,
+                Vec<MatchLocation>,
+                ahash::RandomState,
+            > = match_locations
+                .as_mut()
+                .map(|m| m.get_mut(&pattern).unwrap())
+                .unwrap();
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path.clone(), matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..0d4616b 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -274,14 +273,10 @@ where
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, i.e. until every
+    // job has dropped its sender.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..ffc6c4f 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 06b466beafbecfd0f4a3a3fa56d37ba537f4b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 02/45] fix: compare inverse counts with the inverse threshold
 when merging in botk

The merge step compared the inverse count with the plain threshold, so with
the default threshold botk never reported anything.
---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 6ad4e09..6892983 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -271,7 +271,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From 50c80171d3f001da249c696b7412eedb4d08402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 03/45] fix: prune every outdated max/min document pointer in
 stats

A worker can append a pointer behind a better one that another worker added
since it loaded the current extreme, so looking only at the front of the list
left outdated pointers in the result.
---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..67a09c3 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        (*max_token_documents).retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        (*min_token_documents).retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From 05da87f6f4b29d47b7b0a99192bc3be8307db295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 04/45] fix: truncate the output file when overwriting it

Otherwise the tail of a longer previous output stayed behind the new rows.
---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From e0cd369b080e01f39866162e10fd47e0a9961c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 05/45] fix: do not overflow when deriving hash seeds from a
 large seed

---
 src/ngrams/counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..bd6ffc4 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -77,7 +77,7 @@ where
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
         for i in 0..num_hash_functions {
             let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+                Some(seed) => RandomState::with_seed((seed as usize).wrapping_add(i)),
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From fe5fc62d71e8968619838df43086c62632d4d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 06/45] fix: do not interpret glob characters in the names of
 given directories

---
 src/cmd/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index ffc6c4f..0e6a5fb 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,7 +313,7 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From e2a0e01d07f4c56c744caecb3d24b1b66207b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 07/45] fix: refuse to run topk without a path, like the other
 commands

---
 src/cmd/topk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 0d4616b..25c2e7d 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -106,6 +106,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     opt.path = expand_dirs(&opt.path)?;
 
     // Validate arguments.
+    if opt.path.is_empty() {
+        bail!("at least one path is required");
+    }
     if opt.topk == 0 {
         bail!("-k/--topk must be greater than 0");
     }
-- 
2.43.0


From cd13054f17cd0035eb06efa42bab42f99689133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 08/45] fix: never lose or wrap concurrent updates of the ngram
 counter

Two threads incrementing the same ngram could each miss the other in a different
slot, so that neither saw the full count and topk under-reported it. And on
overflow or underflow the wrapped-around value was visible to other threads
until the capped one was stored. Cap within one atomic update, and read the
counts back only after all slots have been updated.
---
 src/ngrams/counter.rs | 56 +++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index bd6ffc4..521a240 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -114,18 +114,26 @@ where
         I: Iterator<Item = &'a T>,
         T: 'a + Hash,
     {
-        let mut min_count = <A as Atomic>::Type::max_value();
+        let mut indices = Vec::with_capacity(self.num_hash_functions);
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
-            let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
-                // Catch overflows and just keep as MAX.
-                self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
-                <A as Atomic>::Type::max_value()
-            } else {
-                old_count + by.clone()
-            };
+            self.update(index, |old_count| {
+                if old_count > <A as Atomic>::Type::max_value() - by.clone() {
+                    // Catch overflows and just keep as MAX.
+                    <A as Atomic>::Type::max_value()
+                } else {
+                    old_count + by.clone()
+                }
+            });
+            indices.push(index);
+        }
+
+        // Only read the counts back now that all of them have been updated. Otherwise two threads
+        // could both miss a part of each other's increments of the same ngram.
+        let mut min_count = <A as Atomic>::Type::max_value();
+        for index in indices {
+            let count = self.count_array[index].load(Ordering::SeqCst);
             min_count = std::cmp::min(min_count, count);
         }
         min_count
@@ -142,18 +150,19 @@ where
         I: Iterator<Item = &'a T>,
         T: 'a + Hash,
     {
-        let mut max_count = <A as Atomic>::Type::zero();
+        let mut indices = Vec::with_capacity(self.num_hash_functions);
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_sub(by.clone(), Ordering::Relaxed);
-            let count = if old_count < by {
-                // Catch underflows and just keep as 0.
-                self.count_array[index].store(<A as Atomic>::Type::zero(), Ordering::Relaxed);
-                <A as Atomic>::Type::zero()
-            } else {
-                old_count - by.clone()
-            };
+            // Catch underflows and just keep as 0.
+            self.update(index, |old_count| old_count.saturating_sub(&by));
+            indices.push(index);
+        }
+
+        // Like for increments, only read the counts back now.
+        let mut max_count = <A as Atomic>::Type::zero();
+        for index in indices {
+            let count = self.count_array[index].load(Ordering::SeqCst);
             max_count = std::cmp::max(max_count, count);
         }
         max_count
@@ -176,6 +185,17 @@ where
         max_count
     }
 
+    /// Atomically replace the count at `index`, so that other threads never see a count that
+    /// wrapped around.
+    fn update<F>(&self, index: usize, f: F)
+    where
+        F: Fn(<A as Atomic>::Type) -> <A as Atomic>::Type,
+    {
+        let _ = self.count_array[index].fetch_update(Ordering::SeqCst, Ordering::SeqCst, |count| {
+            Some(f(count))
+        });
+    }
+
     fn hash<I, T>(&self, ngram: &mut I, hasher: usize) -> usize
     where
         I: Iterator<Item = T> + ?Sized,
-- 
2.43.0


From d7ba15d297f8f6b08d665243c237686ad93e4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 09/45] fix: account for hash functions and collisions in
 unique's estimate

---
 src/cmd/unique.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..297ae71 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -145,7 +145,12 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     executor.join()?;
 
     log::info!("Counting unique ngrams...");
-    let unique_count = ngram_counts.nonzero();
+    // Every unique ngram sets one slot per hash function, some of which are shared with other
+    // ngrams, so the number of ngrams is estimated from the fraction of slots that are still empty.
+    let empty = std::cmp::max(counter_size - ngram_counts.nonzero(), 1);
+    let empty_fraction = empty as f64 / counter_size as f64;
+    let unique_count =
+        (-(counter_size as f64) / opt.hashes as f64 * empty_fraction.ln()).round() as u64;
 
     if opt.json {
         let json_out = &json!({
-- 
2.43.0


From 216ac016f52f0c7a18ec19144ed276ac0f80ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 10/45] fix: do not modify the caller's subset_filter for the
 c4 index

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..7653825 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -303,7 +303,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -380,7 +380,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From 6460cbf656a46aa25864a4025e50671aadc224d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 11/45] fix: send valid filter clauses when counting unigrams
 in a subset

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 7653825..ab28979 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -388,7 +388,7 @@ def count_total_occurrences_of_unigrams(
         if subset_filter:
             query = {"bool": {"filter": [{"match": {"text": term}}]}}
             for filter_ in subset_filter:
-                query["bool"]["filter"].append(filter_)
+                query["bool"]["filter"].append({"term": filter_})
 
         else:
             query = {"bool": {"filter": {"match": {"text": term}}}}
-- 
2.43.0


From 3cf26bfaf018a4c694c759d4d17c75f86c5b4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 12/45] fix: do not exceed the batch size when counting
 documents for each phrase

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index ab28979..1929df4 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -330,7 +330,7 @@ def count_documents_for_each_phrase(
                     "query": {"bool": {"filter": match_query}},
                 }
             )
-            if i == batch_size:
+            if i + 1 == batch_size:
                 break
         if len(queries) == 0:
             done = True
-- 
2.43.0


From 428c327de96ec1f08186269c34af9d1f3759b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 13/45] fix: use the point in time when fetching all hits

---
 wimbd/es/__init__.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 1929df4..b370850 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -239,27 +239,31 @@ def get_documents_containing_phrases(
     if return_all_hits:
         sort = [{sort_field: "asc"}]
         pit = es.open_point_in_time(index=index, keep_alive="1m")
-        # pit_search = {"id": pit["id"], "keep_alive": "1m"}
-        # all_results = []
-        results = es.search(index=index, query=query, size=num_documents, sort=sort)[
-            "hits"
-        ]["hits"]
-        yield from results
-        while len(results) > 0:
-            # todo: perhaps we need to refresh pit?
-            results = es.search(
-                index=index,
-                query=query,
-                size=num_documents,
-                sort=sort,
-                search_after=results[-1]["sort"],
-            )["hits"]["hits"]
-            yield from results
+        # The index must not be given again when searching with a point in time.
+        pit_search = {"id": pit["id"], "keep_alive": "1m"}
+        search_after = None
         try:
-            es.close_point_in_time(id=pit["id"])
-        except NotFoundError:
-            # Already closed.
-            pass
+            while True:
+                response = es.search(
+                    query=query,
+                    size=num_documents,
+                    sort=sort,
+                    pit=pit_search,
+                    search_after=search_after,
+                )
+                results = response["hits"]["hits"]
+                # Each response may carry an updated id, which the next request has to use.
+                pit_search["id"] = response.get("pit_id", pit_search["id"])
+                if len(results) == 0:
+                    break
+                yield from results
+                search_after = results[-1]["sort"]
+        finally:
+            try:
+                es.close_point_in_time(id=pit_search["id"])
+            except NotFoundError:
+                # Already closed.
+                pass
     else:
         yield from es.search(index=index, query=query, size=num_documents)["hits"][
             "hits"
-- 
2.43.0


From a4dbd5caf1484b84afeb9d99e548d7bbf13ca02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 14/45] fix: do not let split files with dots in their path
 overwrite each other

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..0a80555 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file[: -len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From 9c6c23c53f45b0784f52b04f7b2f43d52666e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 15/45] fix: write the train/valid/test split as text and
 refuse existing ids

---
 wimbd/utils/split_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..6e69015 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -23,13 +23,13 @@ def main():
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if "id" in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From 9753b4f62857f24306b94bf9348eb13bc7c96aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 16/45] fix: do not swap token and character lengths in the
 summaries

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From 40c7487da106d78ed6bb044ba8929188e22275d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 17/45] fix: match the last term of every profanity category

---
 wimbd/profanity/map_count.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/profanity/map_count.py b/wimbd/profanity/map_count.py
index c4a589f..a14923a 100644
--- a/wimbd/profanity/map_count.py
+++ b/wimbd/profanity/map_count.py
@@ -77,9 +77,9 @@ def load_taxonomy():
     offensive_min = df[df['categorization'] == 'offensive-minority-reference'].word.tolist()
     offensive_not_min = df[df['categorization'] == 'offensive-not-minority'].word.tolist()
     global harmless_re, offensive_min_re, offensive_not_min_re
-    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+"\b",re.IGNORECASE)
-    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+"\b",re.IGNORECASE)
-    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+"\b",re.IGNORECASE)
+    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+r"\b",re.IGNORECASE)
+    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+r"\b",re.IGNORECASE)
+    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+r"\b",re.IGNORECASE)
     
     # df = df.replace({'body': {0: 'not-body', 1: 'body'},
     #             'minorityWord': {0: 'not-minority-word', 1: 'minority-word'},
-- 
2.43.0


From 349d9998238e6970730a8e4c133fc30e23c1538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 18/45] fix: handle empty blocklists and repeated blocklist
 entries when deduplicating

---
 .../helper_scripts/deduplicate_by_hash.py                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..c70d261 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -86,10 +86,10 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
-    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
+    seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=max(1, len(blocklist)))
 
     # Create a pool of processes
     with mp.Pool(processes=args.num_processes, initializer=worker_initializer, initargs=(lock, blocklist, seen_array)) as pool:
-- 
2.43.0


From bcf36c12c6e147c28850ee669de8c3ec7af77329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 19/45] fix: judge PII matches by the text around their own
 position

---
 wimbd/pii/map_count.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/wimbd/pii/map_count.py b/wimbd/pii/map_count.py
index 292a6cd..0f8b122 100644
--- a/wimbd/pii/map_count.py
+++ b/wimbd/pii/map_count.py
@@ -66,11 +66,7 @@ def postprocess_ip_addresses(text_input, match, pii_start, pii_end):
     return True
     
 
-def postprocess_pass(text_input, match, pii_type):
-    match = str("".join(match))
-    pii_start = text_input.find(match)
-    pii_end = pii_start + len(match)
-
+def postprocess_pass(text_input, match, pii_start, pii_end, pii_type):
     if pii_type=="email":
         return postprocess_email(text_input, match, pii_start, pii_end)
     elif pii_type=="phone_numbers":
@@ -82,20 +78,20 @@ def postprocess_pass(text_input, match, pii_type):
 def extract_pii_regex(text_input: str,
                       context_window_one_side: int = 100):
     pii = []
-
+    text_input = text_input.lower()
 
     for pii_type in pattern_dict:
         pattern = pattern_dict[pii_type]
         # search for the pattern in the string
-        matches = pattern.findall(text_input.lower())
+        matches = pattern.finditer(text_input)
         # loop through the matches and print corresponding values from the dictionary
         for match in matches:
-            
-            match = str("".join(match))
-            pii_start = text_input.find(match)
-            pii_end = pii_start + len(match)
+            # The position of this very match, without what surrounds the pattern's groups, if any
+            pii_start = match.start(min(1, pattern.groups))
+            pii_end = match.end(pattern.groups)
+            match = "".join(match.groups()) or match.group()
 
-            if postprocess_pass(text_input, match, pii_type):
+            if postprocess_pass(text_input, match, pii_start, pii_end, pii_type):
                 pii.append(pii_type)
 
     return pii
-- 
2.43.0


From 7e3a02f52a2868f55bc2122a96b8cb344e924dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 20/45] fix: leave out documents with a null text when indexing

---
 wimbd/indexing/index_json_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index c5e6fbc..7f5c403 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -59,7 +59,7 @@ def main():
 
     def make_action(filename, line_number, line):
         doc = json.loads(line)
-        doc["text"] = doc.pop(args.text_field)[: args.max_doc_size]
+        doc["text"] = (doc.pop(args.text_field) or "")[: args.max_doc_size]
         for field in skip_fields:
             doc.pop(field, None)
         if args.id_field is None:
-- 
2.43.0


From d27fff15f705ac6e82dd80e626ffb8255c15b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 21/45] fix: save complete ids, also when a file has no
 documents

---
 wimbd/indexing/index_json_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index 7f5c403..07d7a31 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -74,7 +74,7 @@ def main():
 
     if args.save_ids_file:
         with h5py.File(args.save_ids_file, "w") as f:
-            dset = f.create_dataset("ids", shape=(0,), maxshape=(None,), dtype="S40")
+            dset = f.create_dataset("ids", shape=(0,), maxshape=(None,), dtype=h5py.string_dtype())
 
     if index not in get_indices(es=es):
         logger.info(
@@ -126,9 +126,9 @@ def main():
             if args.save_ids_file:
                 with h5py.File(args.save_ids_file, "a") as f:
                     dset = f["ids"]
-                    new_size = dset.shape[0] + len(result_ids)
-                    dset.resize((new_size,))
-                    dset[-len(result_ids) :] = np.array(result_ids, dtype="S40")
+                    old_size = dset.shape[0]
+                    dset.resize((old_size + len(result_ids),))
+                    dset[old_size:] = np.array(result_ids, dtype=object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fc70e21607c319fab1c39d2cc4f8c3ddf8750a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 22/45] fix: import h5py where it is used

---
 wimbd/indexing/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wimbd/indexing/__init__.py b/wimbd/indexing/__init__.py
index ed3b3de..4d63766 100644
--- a/wimbd/indexing/__init__.py
+++ b/wimbd/indexing/__init__.py
@@ -1,5 +1,7 @@
 import random
 
+import h5py
+
 from wimbd.es import es_init
 
 
-- 
2.43.0


From 65b8f784cb0a845fce0f09336451b5268fc15c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 23/45] fix: fetch random documents from the given index

---
 wimbd/es/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/random_access.py b/wimbd/es/random_access.py
index 57af2cf..74ba8f0 100644
--- a/wimbd/es/random_access.py
+++ b/wimbd/es/random_access.py
@@ -19,5 +19,5 @@ def random_documents(index_name: str, h5_path: str, n: int):
 
     docs = [ds[x].decode() for x in rand_doc_ids]
 
-    es_docs = es.mget(index="laion2b-en-2", ids=docs)["docs"]
+    es_docs = es.mget(index=index_name, ids=docs)["docs"]
     return es_docs
-- 
2.43.0


From 2980aea8093f5c40f18ae308e0a7796c7a1e88c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 24/45] fix: resume exporting a dataset without losing or
 repeating examples

---
 wimbd/indexing/huggingface.py | 41 ++++++++++-------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/wimbd/indexing/huggingface.py b/wimbd/indexing/huggingface.py
index 01e9447..ebd0407 100644
--- a/wimbd/indexing/huggingface.py
+++ b/wimbd/indexing/huggingface.py
@@ -1,6 +1,5 @@
 import argparse
 import concurrent.futures
-import glob
 import gzip
 import itertools
 import json
@@ -13,16 +12,10 @@ import datasets
 logger = logging.getLogger(__name__)
 
 
-def chunks(iterable, start, size):
-    from itertools import chain, islice
-
+def chunks(iterable, size):
     iterator = iter(iterable)
-    for first in iterator:
-        yield list(
-            itertools.chain(
-                [first], itertools.islice(iterator, start, start + size - 1)
-            )
-        )
+    while chunk := list(itertools.islice(iterator, size)):
+        yield chunk
 
 
 def save_dataset_as_jsonl(
@@ -41,22 +34,6 @@ def save_dataset_as_jsonl(
 
     for split in dataset:
         ds = dataset[split]
-        try:
-            start = max(
-                [
-                    int(path.split(".jsonl.gz")[0].split("_")[-1])
-                    for path in glob.glob(
-                        os.path.join(output_dir, split + "_*.jsonl.gz")
-                    )
-                ]
-            )
-        except ValueError:
-            start = 0
-        # Group the streaming examples into batches of batch_size
-        batches = itertools.islice(ds, start, None, batch_size)
-
-        if start != 0:
-            logger.warning(f"Already processed until batch {start-1}. Continuing.")
 
         def _update_example(example: dict):
             example["text"] = example.pop(text_field)
@@ -71,8 +48,10 @@ def save_dataset_as_jsonl(
             batch_filename = os.path.join(
                 output_dir, f"{split}_{batch_number}.jsonl.gz"
             )
-            with gzip.open(batch_filename, "wt", encoding="utf-8") as f:
+            # Only complete batches get their final name.
+            with gzip.open(batch_filename + ".tmp", "wt", encoding="utf-8") as f:
                 f.write(batch_jsonl)
+            os.replace(batch_filename + ".tmp", batch_filename)
 
         # Loop through the batches and save each batch as a gzipped JSONL file
 
@@ -81,8 +60,12 @@ def save_dataset_as_jsonl(
             thread_name_prefix="save_dataset_as_jsonl-",
         ) as executor:
             futures = []
-            for i, batch in enumerate(chunks(iter(ds), start, batch_size - 1)):
-                batch_number = start + i
+            for batch_number, batch in enumerate(chunks(ds, batch_size)):
+                if os.path.exists(
+                    os.path.join(output_dir, f"{split}_{batch_number}.jsonl.gz")
+                ):
+                    logger.warning(f"Already processed batch {batch_number}. Continuing.")
+                    continue
                 futures.append(executor.submit(_func, batch_number, batch, split))
             for future in concurrent.futures.as_completed(futures):
                 future.result()
-- 
2.43.0


From 68d84c5e7da1954625f41a9644765c50ac3aee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 25/45] fix: refuse a hash table without room for a single
 count

---
 src/cmd/botk.rs | 3 +++
 src/cmd/topk.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 6892983..7bc45c7 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -112,6 +112,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     if opt.size == 0 {
         bail!("--size must be greater than 0");
     }
+    if opt.size < 4 {
+        bail!("--size must have room for at least one count");
+    }
     if opt.hashes == 0 {
         bail!("-h/--hashes must be greater than 0");
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 25c2e7d..064ff9c 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -115,6 +115,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     if opt.size == 0 {
         bail!("--size must be greater than 0");
     }
+    if opt.size < if opt.use_u64 { 8 } else { 4 } {
+        bail!("--size must have room for at least one count");
+    }
     if opt.hashes == 0 {
         bail!("-h/--hashes must be greater than 0");
     }
-- 
2.43.0


From faa0ab896e3ba5172c85f093303ed565cf2c6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 26/45] fix: refuse NaN as keep probability

---
 src/cmd/botk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 7bc45c7..bdbd4cc 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -125,7 +125,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         opt.path.truncate(file_limit);
     }
     if let Some(p_keep) = opt.p_keep {
-        if p_keep <= 0.0 || p_keep > 1.0 {
+        if !(p_keep > 0.0 && p_keep <= 1.0) {
             bail!("--p-keep must be between in the interval (0, 1]");
         }
     }
-- 
2.43.0


From e3b006fd3f14417250f66d2424f9f1fd5c651a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 27/45] fix: derive the same hash functions from the same seed
 in every run

---
 src/ngrams/counter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index 521a240..225df5b 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -5,6 +5,7 @@ use ahash::RandomState;
 use anyhow::{Context, Result};
 use atomic_traits::{Atomic, NumOps};
 use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 
 pub trait AsIterator<'a, T: 'a> {
     type Iterator: Iterator<Item = &'a T>;
@@ -74,10 +75,15 @@ where
         }
 
         // Initialize hash builders
+        // NOTE: `RandomState::with_seed()` mixes in keys chosen at random for every process, so we need
+        // to derive all of the keys ourselves to get the same hash functions from the same seed.
+        let mut rng = seed.map(StdRng::seed_from_u64);
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
-        for i in 0..num_hash_functions {
-            let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize).wrapping_add(i)),
+        for _ in 0..num_hash_functions {
+            let hash_builder = match rng {
+                Some(ref mut rng) => {
+                    RandomState::with_seeds(rng.gen(), rng.gen(), rng.gen(), rng.gen())
+                }
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From 940b3c0b4e14d9ab1f83e8ffc8d60c1c29c98496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 28/45] fix: do not take matching directories for input files

---
 src/cmd/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0e6a5fb..aaccbdc 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -314,7 +314,11 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
             for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
-                files.push(entry?.to_path_buf());
+                let entry = entry?;
+                if entry.is_dir() {
+                    continue;
+                }
+                files.push(entry);
                 num_hits += 1;
             }
             if num_hits == 0 {
-- 
2.43.0


From b118efd54e7d32efa018d71513b03d69486a5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 29/45] fix: show example urls that contain blanks

---
 wimbd/text_and_url_overlaps/helper_scripts/get_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
index 51f27d3..1062edc 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
@@ -53,7 +53,8 @@ def main():
         with open(args.count_url_file) as fin:
             output_data = []
             for l in fin:
-                count, text = l.strip().split()
+                # The counts are padded with blanks; the url may contain some
+                count, text = l.lstrip(" ").rstrip("\n").split(" ", 1)
                 output_data.append({"text":text, "count":count})
         
         # sort by count descending
-- 
2.43.0


From d051d68bdcacae0e4262f1a71d0b5194217c98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 30/45] fix: write the train/valid/test split also to
 directories named like files

---
 wimbd/utils/split_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 6e69015..b2933c3 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -21,7 +21,8 @@ def main():
     if not os.path.exists(os.path.join(args.out_prefix, os.path.dirname(args.in_file))):
         os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)))
 
-    out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
+    # only drop the suffix of the file, not of the directories it is in
+    out_path = os.path.join(args.out_prefix, args.in_file).removesuffix(".gz").removesuffix(".jsonl")
 
     test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt")
     valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt")
-- 
2.43.0


From def2f514b0687b08a0202a1c6a8f3c77c81d0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 31/45] fix: split the files of folders with glob characters in
 their names

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 0a80555..aea4705 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -1,5 +1,5 @@
 import argparse
-from glob import glob
+from glob import escape, glob
 import gzip
 from tqdm import tqdm
 
@@ -14,7 +14,7 @@ def main():
     args = parse.parse_args()
 
     # iterate over files in the folder, and split each file (json.gz) into n files while adding a suffix at the end of the name based on the index
-    for file in tqdm(glob(args.in_folder + "/*.jsonl.gz")):
+    for file in tqdm(glob(escape(args.in_folder) + "/*.jsonl.gz")):
         with gzip.open(file, 'rt') as f:
             data = f.readlines()
 
-- 
2.43.0


From f81307d0423347c64f3fc79b565d54072a590d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 32/45] fix: label mC4 documents with the language only,
 without the file extension

---
 preparation/mc4/mc4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 1cf816a..ac2e3fc 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -52,7 +52,7 @@ def main():
     def process_object(o: storage.Blob) -> int:
         input_filename = blob_to_name(o)
         output_filename = input_name_to_output_name(input_filename)
-        language = input_filename.split("-", 2)[1]
+        language = input_filename.split("-", 2)[1].split(".", 1)[0]
         document_count = 0
         with tempfile.NamedTemporaryFile("wb+", prefix="mC4-", suffix=".tfrecords") as f:
             o.download_to_file(f)
-- 
2.43.0


From 78319ada1d37aa9539918b0466eaf19d28ebc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 33/45] fix: count malformed urls and endless redirects as
 links that do not exist

---
 wimbd/link_exists/map_count.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/link_exists/map_count.py b/wimbd/link_exists/map_count.py
index 85f2467..9694c5c 100644
--- a/wimbd/link_exists/map_count.py
+++ b/wimbd/link_exists/map_count.py
@@ -18,7 +18,8 @@ def check_url_exists(url: str):
                 return True
             except requests.exceptions.HTTPError:
                 return False
-    except requests.exceptions.ConnectionError:
+    except (requests.exceptions.RequestException, ValueError):
+        # e.g. no connection, too many redirects, or a malformed url
         return False
 
 
-- 
2.43.0


From 75abb058fb03c0d91e1e8b67f1fc391fd1fd8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 34/45] fix: download files of The Stack that are missing, not
 only empty ones

---
 preparation/stack/download_url.sh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/preparation/stack/download_url.sh b/preparation/stack/download_url.sh
index 79034ee..9d7a4fd 100755
--- a/preparation/stack/download_url.sh
+++ b/preparation/stack/download_url.sh
@@ -10,11 +10,8 @@ DOWNLOAD_PATH=$LOCAL_DIR/$LANG/$JSONL_FILENAME
 
 # DEST_EXISTS=$(aws s3 ls $dest_path)
 
-DOWNLOAD_SIZE=$(ls -s $DOWNLOAD_PATH)
-EMPTY_SIZE_STR='0 '$DOWNLOAD_PATH
-
-if [[ "$DOWNLOAD_SIZE" == *"$EMPTY_SIZE_STR"* ]]
-# if [[ ! -f $DOWNLOAD_PATH ]]
+# Download files that are missing or empty
+if [[ ! -s $DOWNLOAD_PATH ]]
 then
     # echo $SOURCE_PATH $DEST_PATH
 
-- 
2.43.0


From ada64e02092b5e49369aba30be4a782c9faf0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 35/45] fix: never take an interrupted download of The Stack
 for a complete one

---
 preparation/stack/download_url.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/download_url.py b/preparation/stack/download_url.py
index 4051363..3a08716 100644
--- a/preparation/stack/download_url.py
+++ b/preparation/stack/download_url.py
@@ -66,8 +66,11 @@ def _save_url_as_jsonl(url: str, output_path: str):
         added=datetime.utcnow().isoformat(),
     )
     js = df.to_json(orient="records", lines=True)
-    with gzip.open(output_path, "wt") as f:
+    # An interrupted download must not be taken for a complete file later.
+    temporary_path = output_path + ".tmp"
+    with gzip.open(temporary_path, "wt") as f:
         f.write(js)
+    os.replace(temporary_path, output_path)
 
 
 def download(url: str, output_dir: str):
-- 
2.43.0


From fe809a12fb2a597d956d8b7f16ef364850ab9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:30 +0000
Subject: [PATCH 36/45] fix: list prompt templates of any folder, not only of
 one depth

---
 wimbd/contamination/promptsource_parse.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wimbd/contamination/promptsource_parse.py b/wimbd/contamination/promptsource_parse.py
index ac6592e..df6aa49 100644
--- a/wimbd/contamination/promptsource_parse.py
+++ b/wimbd/contamination/promptsource_parse.py
@@ -1,8 +1,10 @@
 import argparse
 import csv
+import os
 import re
-from glob import glob
+from glob import escape, glob
 
+from wimbd.contamination import templates
 from wimbd.contamination.templates import INCLUDED_USERS, TemplateCollection
 from wimbd.contamination.utils import get_dataset
 
@@ -15,17 +17,19 @@ def main():
     
     args = parse.parse_args()
 
+    templates.TEMPLATES_FOLDER_PATH = args.path
+
     datasets = []
-    for path in glob(args.path + '/**/templates.yaml', recursive=True):
+    for path in glob(escape(args.path) + '/**/templates.yaml', recursive=True):
         datasets.append(path)
         
 
     with open(args.out_file, 'w', newline='') as f:
         writer = csv.writer(f, delimiter='\t', lineterminator='\n')
         for dataset in datasets:
-            path = dataset.split('/')
-            dataset_name = path[8]
-            subset_name = path[9] if len(path) == 11 else ''
+            path = os.path.relpath(os.path.dirname(dataset), args.path).split(os.sep)
+            dataset_name = path[0]
+            subset_name = path[1] if len(path) == 2 else ''
             
             template_collection = TemplateCollection()
             dataset_templates = template_collection.get_dataset(dataset_name, subset_name)
-- 
2.43.0


From c19f8ef9f1a3cb342d2aa15c5fabc891331bc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 37/45] fix: do not take the name of the dataset for an input
 file when showing documents

---
 wimbd/sentence_lengths/run_uniq.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/sentence_lengths/run_uniq.sh b/wimbd/sentence_lengths/run_uniq.sh
index df5808d..fadeb43 100755
--- a/wimbd/sentence_lengths/run_uniq.sh
+++ b/wimbd/sentence_lengths/run_uniq.sh
@@ -5,6 +5,7 @@ SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 PYTHON=$(which python | head -1)
 
 DATASET=$1
+shift
 
 echo $DATASET
 
-- 
2.43.0


From e6819581f86ad26da6ee1fff435348688bf7730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 38/45] fix: read files of a directory whose names are not
 valid UTF-8, and directories given as ./

The glob crate silently skips such files, and finds nothing at all when the
directory is given as "./".
---
 src/cmd/util.rs | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index aaccbdc..8cd27f2 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -1,11 +1,12 @@
+use std::fs;
 use std::io;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::{glob, Pattern};
+use glob::Pattern;
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,11 +314,11 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
-                let entry = entry?;
-                if entry.is_dir() {
-                    continue;
-                }
+            let dir: PathBuf = path
+                .components()
+                .filter(|component| component != &Component::CurDir)
+                .collect();
+            for entry in find_files(&dir, &Pattern::new("*.json*.gz")?)? {
                 files.push(entry);
                 num_hits += 1;
             }
@@ -331,3 +332,28 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
 
     Ok(files)
 }
+
+/// Find all files with a matching name in a directory and its subdirectories.
+// NOTE: `glob::glob()` silently skips files with a name that's not valid UTF-8.
+fn find_files(dir: &Path, pattern: &Pattern) -> Result<Vec<PathBuf>> {
+    let mut names = fs::read_dir(Path::new(".").join(dir))
+        .and_then(|entries| {
+            entries
+                .map(|entry| entry.map(|entry| entry.file_name()))
+                .collect::<io::Result<Vec<_>>>()
+        })
+        .with_context(|| format!("failed to read directory {dir:?}"))?;
+    names.sort();
+
+    let mut files = vec![];
+    for name in names {
+        let path = dir.join(&name);
+        if path.is_dir() {
+            files.append(&mut find_files(&path, pattern)?);
+        } else if pattern.matches(&name.to_string_lossy()) {
+            files.push(path);
+        }
+    }
+
+    Ok(files)
+}
-- 
2.43.0


From 0655ac613b76e439a0be009cfe36ff7018705166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 39/45] fix: refuse paths that cannot be written as JSON
 instead of panicking in search --with-locations

---
 src/cmd/search.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index ff53568..63056f3 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -88,6 +88,12 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     if opt.locations_limit.is_some() && !opt.with_locations {
         bail!("--locations-limit is only valid when using --with-locations");
     }
+    if opt.with_locations {
+        // Locations are written as JSON, keyed by path.
+        if let Some(path) = opt.path.iter().find(|path| path.to_str().is_none()) {
+            bail!("invalid path '{}'", path.to_string_lossy());
+        }
+    }
 
     let mut counts: HashMap<String, Arc<AtomicUsize>, RandomState> =
         HashMap::with_capacity_and_hasher(opt.pattern.len(), RandomState::new());
-- 
2.43.0


From 6d1b0c13d4a82516a4bc44dbb429a26133b1ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 40/45] fix: refuse lines that hold a JSON array instead of an
 object

---
 src/cmd/util.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 8cd27f2..bbde37b 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -51,6 +51,15 @@ where
         }
         total_lines += 1;
         total_bytes += line.len();
+        // NOTE: serde would also take an array of the field values for a `DataInstance`.
+        if line.trim_start().starts_with('[') {
+            bail!(
+                "line {} in {:?} is not a JSON object:\n{}",
+                total_lines,
+                path.as_ref(),
+                line
+            );
+        }
         match serde_json::from_str(line) {
             Ok(data) => data_func(data, path.as_ref(), total_lines, &mut context),
             Err(e) => {
-- 
2.43.0


From dacb7d39efefb63040b02070118daec182f7e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 41/45] fix: empty an overlap file left by an earlier analysis

When one of two key lists is empty the overlap is empty too, but the
file was only touched, so it kept the keys of an earlier run.
---
 wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index cb876df..afc796b 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -36,7 +36,7 @@ def main():
 
         # if either file is empty, output empty file directly
         if os.path.getsize(file1) == 0 or os.path.getsize(file2) == 0:
-            os.system(f"touch {outfile}")
+            open(outfile, "w").close()
             continue
         
         print(f"merging: {file1}, {file2}")
-- 
2.43.0


From ca262eda418d0d53ef2c211e610d834c695771b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 42/45] fix: write the overlap numbers anew on every analysis

They were appended to those of an earlier run of the analysis.
---
 wimbd/text_and_url_overlaps/run_analysis.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/run_analysis.sh b/wimbd/text_and_url_overlaps/run_analysis.sh
index c7c004a..3fb9706 100644
--- a/wimbd/text_and_url_overlaps/run_analysis.sh
+++ b/wimbd/text_and_url_overlaps/run_analysis.sh
@@ -70,8 +70,8 @@ time python $TEXT_AND_URL_OVERLAPS/helper_scripts/run_combinations.py --sorted_u
 # First get the size of the overlaps:
 for f in `ls $intermediate_dir/$mode_dir/sorted_uniq/`
 do
-    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f >> $intermediate_dir/$mode_dir/overlap_numbers.txt
-done
+    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f
+done > $intermediate_dir/$mode_dir/overlap_numbers.txt
 
 # count the duplicates
 echo "Counting duplicates"
-- 
2.43.0


From a5a44606e7e80ed1027b774a59f6929cdb5bfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 43/45] fix: keep the subsets' templates when a dataset's own
 last one is removed

---
 wimbd/contamination/templates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index 0347909..03da9c1 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -682,7 +682,11 @@ class DatasetTemplates:
         """
         self.sync_mapping()
 
-        rmtree(self.folder_path)
+        if any(entry.is_dir() for entry in os.scandir(self.folder_path)):
+            # The templates of the subsets of this dataset are in there
+            os.remove(self.yaml_path)
+        else:
+            rmtree(self.folder_path)
 
         # If it is a subset, we have to check whether to remove the dataset folder
         if self.subset_name:
-- 
2.43.0


From 1a5cd052743af4305fc1a28d6c9006dae32187e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 44/45] fix: let deduplicate.py use a given blocklist

--blocklist was refused together with --in_files and failed without them.
---
 wimbd/text_and_url_overlaps/deduplicate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index 9e7b720..6c056e3 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -31,7 +31,7 @@ if __name__ in "__main__":
     parser.add_argument("--build_blocklist_only", action='store_true')
     args = parser.parse_args()
 
-    # blocklist and in_files1 are mutually exclusive
-    assert (args.blocklist is None) != (args.in_files is None), "Must specify either blocklist or in_files"
+    # in_files are what is deduplicated, with a given blocklist as well as with a generated one
+    assert args.in_files is not None, "Must specify in_files"
 
     main(args)
\ No newline at end of file
-- 
2.43.0


From 04a467e48b6f08160839cd69c41576439794a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 45/45] fix: skip mC4 files by their whole output name, not
 that of any object further down

---
 preparation/mc4/mc4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index ac2e3fc..ec21c2e 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -39,14 +39,14 @@ def main():
         output_prefix += "/"
 
     existing_files = set(
-        b.name.rsplit("/", 1)[-1]
+        b.name
         for b in tqdm(output_bucket.list_blobs(prefix=output_prefix), desc="Finding files to skip")
     )
 
     files_to_process = [
         b
         for b in tqdm(input_bucket.list_blobs(prefix=input_prefix), desc="Finding files to not skip")
-        if ".tfrecord-" in blob_to_name(b) and input_name_to_output_name(blob_to_name(b)) not in existing_files
+        if ".tfrecord-" in blob_to_name(b) and output_prefix + input_name_to_output_name(blob_to_name(b)) not in existing_files
     ]
 
     def process_object(o: storage.Blob) -> int:
-- 
2.43.0

