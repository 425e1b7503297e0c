From 35c243974848b99c9b32b71a0503a0c2a1a1a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 1/7] fix: F1 is 0.0 instead of NaN when a query has no
 relevant documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..80fb74d 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -19,9 +19,13 @@ where
     if k == 0 {
         return 0.0;
     }
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From f6bd1e65507b0774120d88151496e113acfd1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 2/7] fix: Bpref is not NaN when a query has no judged
 non-relevant documents

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..0026072 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                let denominator = n_non_rels.min(n_rels);
+                if denominator == 0.0 {
+                    // No judged non-relevant documents can be ranked above.
+                    bpref += 1.0;
+                } else {
+                    bpref += 1.0 - n_non_rels_so_far.min(n_rels) / denominator;
+                }
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From d357b7a4dcc662f84502c2a548d3c8033db7090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 3/7] fix: do not wrap relevance levels of 2^31 or more in the
 Burges gain

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..fcea712 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powf(rel as f64) - 1.0,
     }
 }
 
-- 
2.43.0


From 5cf77aca0c06d6d473c52efdef78d3518d6f30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 4/7] fix: tuples_from_maps returns an error instead of
 panicking when no map is given

---
 src/statistical_tests.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..e9a5c96 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -89,6 +89,11 @@ where
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Err(ElinorError::InvalidArgument(
+            "The input must have at least one map.".to_string(),
+        ));
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From a4ee6f6cfe891790ac82e55b4a9e4e4c1acd2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:36 +0000
Subject: [PATCH 5/7] fix: elinor-convert reports errors when flushing the
 output file

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 8dec5ccb6599b9d3655c9a8e53550e655c5ca960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 6/7] fix: elinor-compare rejects inputs with different or
 duplicate topics

---
 elinor-cli/src/bin/compare.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..aa238c0 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::path::PathBuf;
 use std::str::FromStr;
 
@@ -133,6 +134,8 @@ fn main() -> Result<()> {
         return Ok(());
     }
 
+    verify_topics(&dfs, topic_header)?;
+
     println!("\n# Alias");
     {
         let columns = vec![
@@ -171,6 +174,29 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Verifies that every system has scores for the same topics, without duplicates.
+fn verify_topics(dfs: &[DataFrame], topic_header: &str) -> Result<()> {
+    let mut topic_sets = vec![];
+    for df in dfs {
+        let topics = df.column(topic_header)?.cast(&DataType::String)?;
+        let topic_set = topics
+            .str()?
+            .into_iter()
+            .map(|topic| topic.map(|s| s.to_string()))
+            .collect::<BTreeSet<_>>();
+        if topic_set.len() != df.height() {
+            return Err(anyhow::anyhow!("The topics in a CSV file must be unique."));
+        }
+        topic_sets.push(topic_set);
+    }
+    if topic_sets.iter().any(|set| *set != topic_sets[0]) {
+        return Err(anyhow::anyhow!(
+            "The sets of topics in the CSV files must be the same."
+        ));
+    }
+    Ok(())
+}
+
 fn extract_metrics(df: &DataFrame) -> Vec<String> {
     df.get_columns()
         .iter()
-- 
2.43.0


From 2c7c28f536c9800a7beeb4042677250a490f527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 7/7] fix: print the number of repetitions elinor-compare
 really performs

---
 elinor-cli/src/bin/compare.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index aa238c0..07340fe 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -157,18 +157,22 @@ fn main() -> Result<()> {
         print_dataframe(&df, args.print_mode);
     }
 
+    // The testers perform at least one repetition, so print the number actually used.
+    let n_resamples = args.n_resamples.max(1);
+    let n_iters = args.n_iters.max(1);
+
     if dfs.len() == 2 {
         compare_two_systems(
             &dfs[0],
             &dfs[1],
             topic_header,
             args.print_mode,
-            args.n_resamples,
-            args.n_iters,
+            n_resamples,
+            n_iters,
         )?;
     }
     if dfs.len() > 2 {
-        compare_multiple_systems(&dfs, topic_header, args.print_mode, args.n_iters)?;
+        compare_multiple_systems(&dfs, topic_header, args.print_mode, n_iters)?;
     }
 
     Ok(())
-- 
2.43.0

