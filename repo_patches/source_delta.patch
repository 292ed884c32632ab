From b07f9316b5a21e284924ba316f237d9059262643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 01/20] fix: Bpref is NaN when a query has no judged
 non-relevant documents

---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..3402a91 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // No penalty unless a non-relevant document is ranked above. This also avoids
+                // a zero division when there are no judged non-relevant documents.
+                bpref += if n_non_rels_so_far == 0.0 {
+                    1.0
+                } else {
+                    1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels)
+                };
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From 6bd5b4d0ec20668c0dc8a8092b04e52e7635cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 02/20] fix: F1 is NaN when a query has no relevant documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..675c006 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -21,7 +21,11 @@ where
     }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count();
+    if n_rels == 0 {
+        return 0.0;
+    }
+    let recall = hits / n_rels as f64;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From 2f0f8e56bbd6a0740cf596d62ef0f2109aaaa29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 03/20] fix: Burges gain is negative for grades of 2^31 or more

---
 src/metrics/ndcg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..fcea712 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -13,7 +13,7 @@ pub enum DcgWeighting {
 fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => 2.0_f64.powf(rel as f64) - 1.0,
     }
 }
 
-- 
2.43.0


From 7f5f2ce0f2e135db02b0c825a01c2422bd72be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 04/20] fix: identical differences give a huge t-statistic
 instead of Uncomputable

---
 src/statistical_tests/student_t_test.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index f7ca4ed..3006bae 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -207,7 +207,8 @@ impl StudentTTest {
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
     let variance = Statistics::variance(samples);
-    if variance == 0.0 {
+    // Rounding errors in the mean can make the variance of identical samples slightly positive.
+    if variance == 0.0 || samples.iter().all(|&x| x == samples[0]) {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
-- 
2.43.0


From 81025a18f14c8a26ae569866a805ad5ef6b1672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 05/20] fix: ANOVA panics when there are fewer than two systems

---
 src/statistical_tests/two_way_anova_without_replication.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index d4f5bd1..80666fa 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -82,6 +82,11 @@ impl TwoWayAnovaWithoutReplication {
             })
             .collect::<Result<_, _>>()?;
 
+        if n_systems <= 1 {
+            return Err(ElinorError::InvalidArgument(
+                "The input must have at least two systems.".to_string(),
+            ));
+        }
         if samples.len() <= 1 {
             return Err(ElinorError::InvalidArgument(
                 "The input must have at least two records.".to_string(),
-- 
2.43.0


From 6acd4170ad098318d553bf95af9b3ba45f30a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 06/20] fix: ANOVA panics or returns rounding noise when the
 residuals are zero

---
 .../two_way_anova_without_replication.rs        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 80666fa..f00f05a 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -93,6 +93,17 @@ impl TwoWayAnovaWithoutReplication {
             ));
         }
 
+        // If the differences between systems are the same for all topics, the residuals are zero
+        // (although rounding errors in the means can make their sum of squares slightly positive).
+        let has_no_residual = samples
+            .iter()
+            .all(|s| (0..n_systems).all(|i| s[i] - s[0] == samples[0][i] - samples[0][0]));
+        if has_no_residual {
+            return Err(ElinorError::Uncomputable(
+                "The residual variance is zero.".to_string(),
+            ));
+        }
+
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
@@ -141,6 +152,12 @@ impl TwoWayAnovaWithoutReplication {
             })
             .sum::<f64>();
 
+        if residual_variation == 0.0 {
+            return Err(ElinorError::Uncomputable(
+                "The residual variance is zero.".to_string(),
+            ));
+        }
+
         // V_A
         let between_system_freedom = n_systems_f - 1.;
         let between_system_variance = between_system_variation / between_system_freedom;
-- 
2.43.0


From 636755a5068f4b3d8102ebc6283d1e9274e1d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 07/20] fix: margin_of_error panics for a NaN significance
 level

---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index 3006bae..b8a5407 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if significance_level.is_nan() || significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index f00f05a..5b53b9a 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -600,7 +600,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if significance_level <= 0.0 || significance_level > 1.0 {
+        if significance_level.is_nan() || significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From 3494d54931b859d435cb717b6e69005fa05c4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 08/20] fix: tuples_from_maps panics when no maps are given

---
 src/statistical_tests.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistical_tests.rs b/src/statistical_tests.rs
index 2148335..b5d8ea6 100644
--- a/src/statistical_tests.rs
+++ b/src/statistical_tests.rs
@@ -89,6 +89,9 @@ where
     K: Clone + Eq + Ord + std::fmt::Display + 'a,
 {
     let maps = maps.into_iter().collect::<Vec<_>>();
+    if maps.is_empty() {
+        return Ok(vec![]);
+    }
     for i in 1..maps.len() {
         if maps[0].len() != maps[i].len() {
             return Err(ElinorError::InvalidArgument(format!(
-- 
2.43.0


From 8f15ff8f8fb415974e0729083b01648ad0993587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 09/20] fix: randomized Tukey HSD test misses tied differences
 due to rounding errors

---
 src/statistical_tests/randomized_tukey_hsd_test.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/statistical_tests/randomized_tukey_hsd_test.rs b/src/statistical_tests/randomized_tukey_hsd_test.rs
index 7065b73..391203e 100644
--- a/src/statistical_tests/randomized_tukey_hsd_test.rs
+++ b/src/statistical_tests/randomized_tukey_hsd_test.rs
@@ -200,6 +200,11 @@ impl RandomizedTukeyHsdTester {
             }
         }
 
+        // Tolerance for rounding errors in the means. Without it, a shuffled difference that equals
+        // the observed one could be regarded as smaller only because of the order of summation.
+        let max_abs = samples.iter().flatten().fold(0_f64, |a, x| a.max(x.abs()));
+        let tolerance = 4.0 * n_samples * f64::EPSILON * max_abs;
+
         let mut counts = vec![vec![0_usize; self.n_systems]; self.n_systems];
         for _ in 0..self.n_iters {
             let mut shuffled_samples = Vec::with_capacity(samples.len());
@@ -216,7 +221,7 @@ impl RandomizedTukeyHsdTester {
             let shuffled_diff = shuffled_means.as_slice().max() - shuffled_means.as_slice().min();
             for i in 0..self.n_systems {
                 for j in (i + 1)..self.n_systems {
-                    if shuffled_diff >= diffs[i][j].abs() {
+                    if shuffled_diff >= diffs[i][j].abs() - tolerance {
                         counts[i][j] += 1;
                     }
                 }
-- 
2.43.0


From 3e356c1ff773ff6d46ff3b72e3f7f1c021af4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 10/20] fix: elinor-convert ignores write errors at the end of
 the output

---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 549600ecd017d12b81080a7564858d68b2559a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 11/20] fix: elinor-convert writes null for non-finite scores

---
 elinor-cli/src/bin/convert.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index ea005ca..e1dfa38 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -4,6 +4,7 @@ use std::io::Write;
 use std::path::PathBuf;
 use std::str::FromStr;
 
+use anyhow::anyhow;
 use anyhow::Result;
 use clap::Parser;
 use elinor::trec;
@@ -61,6 +62,15 @@ fn main() -> Result<()> {
             let pred_rels = trec::parse_pred_rels_in_trec(lines)?;
             let pred_records = pred_rels.into_records();
             for record in pred_records {
+                // JSON cannot represent non-finite numbers.
+                if !record.score.is_finite() {
+                    return Err(anyhow!(
+                        "Non-finite score: query_id={}, doc_id={}, score={}",
+                        record.query_id,
+                        record.doc_id,
+                        record.score
+                    ));
+                }
                 serde_json::to_writer(&mut writer, &record)?;
                 writer.write_all(b"\n")?;
             }
-- 
2.43.0


From 2028d99fd044915c36785970f863fc30b95e6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 12/20] fix: elinor-compare confuses topic ids that are equal
 as numbers

---
 elinor-cli/src/bin/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..fbe7c03 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,6 +70,8 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Topic ids are identifiers. They must not be inferred as numbers (e.g., "01" and "1").
+            .with_dtype_overwrite(Some(vec![DataType::String].into()))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
         dfs.push(df);
-- 
2.43.0


From 77f19cca71577a0cebb2ede3e0bb38cb038f6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 13/20] fix: elinor-compare silently drops or duplicates topics
 when the topic ids differ

---
 elinor-cli/src/bin/compare.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index fbe7c03..787f762 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -135,6 +135,26 @@ fn main() -> Result<()> {
         return Ok(());
     }
 
+    // The systems can be paired only when the topic ids are unique and the same.
+    let topics = dfs
+        .iter()
+        .map(extract_sorted_topics)
+        .collect::<Result<Vec<_>>>()?;
+    for (input_csv, topics_i) in args.input_csvs.iter().zip(topics.iter()) {
+        if topics_i.windows(2).any(|w| w[0] == w[1]) {
+            return Err(anyhow::anyhow!(
+                "The topic ids must be unique: {}",
+                input_csv.display()
+            ));
+        }
+        if topics_i != &topics[0] {
+            return Err(anyhow::anyhow!(
+                "The topic ids must be the same across the CSV files: {}",
+                input_csv.display()
+            ));
+        }
+    }
+
     println!("\n# Alias");
     {
         let columns = vec![
@@ -173,6 +193,16 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+fn extract_sorted_topics(df: &DataFrame) -> Result<Vec<Option<String>>> {
+    let column = df.get_columns()[0].str()?;
+    let mut topics = column
+        .into_iter()
+        .map(|topic| topic.map(|topic| topic.to_string()))
+        .collect::<Vec<_>>();
+    topics.sort_unstable();
+    Ok(topics)
+}
+
 fn extract_metrics(df: &DataFrame) -> Vec<String> {
     df.get_columns()
         .iter()
-- 
2.43.0


From 3f6aeb1ca07daa13de8504318e8bba32bb903f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 14/20] fix: elinor-compare ignores write errors when printing
 pretty tables

---
 elinor-cli/src/bin/compare.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 787f762..71dfa16 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -586,7 +586,10 @@ fn compare_multiple_systems(
 fn print_dataframe(df: &DataFrame, print_mode: PrintMode) {
     match print_mode {
         PrintMode::Pretty => {
-            df_to_prettytable(df).printstd();
+            // printstd() would ignore write errors; fail in the same way as println!().
+            df_to_prettytable(df)
+                .print_tty(false)
+                .expect("failed printing to stdout");
         }
         PrintMode::Raw => {
             print_df_in_tsv(df);
-- 
2.43.0


From 92d95e9faedf04921e9e7f866968069102b2e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 15/20] Revert "fix: randomized Tukey HSD test misses tied
 differences due to rounding errors"

This reverts commit 8f15ff8f8fb415974e0729083b01648ad0993587.
---
 src/statistical_tests/randomized_tukey_hsd_test.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/statistical_tests/randomized_tukey_hsd_test.rs b/src/statistical_tests/randomized_tukey_hsd_test.rs
index 391203e..7065b73 100644
--- a/src/statistical_tests/randomized_tukey_hsd_test.rs
+++ b/src/statistical_tests/randomized_tukey_hsd_test.rs
@@ -200,11 +200,6 @@ impl RandomizedTukeyHsdTester {
             }
         }
 
-        // Tolerance for rounding errors in the means. Without it, a shuffled difference that equals
-        // the observed one could be regarded as smaller only because of the order of summation.
-        let max_abs = samples.iter().flatten().fold(0_f64, |a, x| a.max(x.abs()));
-        let tolerance = 4.0 * n_samples * f64::EPSILON * max_abs;
-
         let mut counts = vec![vec![0_usize; self.n_systems]; self.n_systems];
         for _ in 0..self.n_iters {
             let mut shuffled_samples = Vec::with_capacity(samples.len());
@@ -221,7 +216,7 @@ impl RandomizedTukeyHsdTester {
             let shuffled_diff = shuffled_means.as_slice().max() - shuffled_means.as_slice().min();
             for i in 0..self.n_systems {
                 for j in (i + 1)..self.n_systems {
-                    if shuffled_diff >= diffs[i][j].abs() - tolerance {
+                    if shuffled_diff >= diffs[i][j].abs() {
                         counts[i][j] += 1;
                     }
                 }
-- 
2.43.0


From 91cbe086fad29f5144b14b7365a359be7ac8721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 16/20] Revert "fix: margin_of_error panics for a NaN
 significance level"

This reverts commit 636755a5068f4b3d8102ebc6283d1e9274e1d01c.
---
 src/statistical_tests/student_t_test.rs                    | 2 +-
 src/statistical_tests/two_way_anova_without_replication.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index b8a5407..3006bae 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -168,7 +168,7 @@ impl StudentTTest {
     /// \text{MOE} = t_{\alpha/2}(n-1) \sqrt{\frac{V}{n}}
     /// ```
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64> {
-        if significance_level.is_nan() || significance_level <= 0.0 || significance_level > 1.0 {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 5b53b9a..f00f05a 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -600,7 +600,7 @@ impl TwoWayAnovaWithoutReplication {
     ///
     /// where $`t_{\alpha/2}((m - 1)(n - 1))`$ is the $`1 - \alpha/2`$ quantile of the Student's $`t`$ distribution with $`(m - 1)(n - 1)`$ degrees of freedom.
     pub fn margin_of_error(&self, significance_level: f64) -> Result<f64, ElinorError> {
-        if significance_level.is_nan() || significance_level <= 0.0 || significance_level > 1.0 {
+        if significance_level <= 0.0 || significance_level > 1.0 {
             return Err(ElinorError::InvalidArgument(
                 "The significance level must be in the range (0, 1].".to_string(),
             ));
-- 
2.43.0


From 47c25a6d69973464b49b5dfffb42f0d0487b0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 17/20] Revert "fix: ANOVA panics or returns rounding noise
 when the residuals are zero"

This reverts commit 6acd4170ad098318d553bf95af9b3ba45f30a59a.
---
 .../two_way_anova_without_replication.rs        | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index f00f05a..80666fa 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -93,17 +93,6 @@ impl TwoWayAnovaWithoutReplication {
             ));
         }
 
-        // If the differences between systems are the same for all topics, the residuals are zero
-        // (although rounding errors in the means can make their sum of squares slightly positive).
-        let has_no_residual = samples
-            .iter()
-            .all(|s| (0..n_systems).all(|i| s[i] - s[0] == samples[0][i] - samples[0][0]));
-        if has_no_residual {
-            return Err(ElinorError::Uncomputable(
-                "The residual variance is zero.".to_string(),
-            ));
-        }
-
         let n_topics_f = samples.len() as f64;
         let n_systems_f = n_systems as f64;
 
@@ -152,12 +141,6 @@ impl TwoWayAnovaWithoutReplication {
             })
             .sum::<f64>();
 
-        if residual_variation == 0.0 {
-            return Err(ElinorError::Uncomputable(
-                "The residual variance is zero.".to_string(),
-            ));
-        }
-
         // V_A
         let between_system_freedom = n_systems_f - 1.;
         let between_system_variance = between_system_variation / between_system_freedom;
-- 
2.43.0


From 1423649221aaf4fcf11eb3b2ad4977b6452ea4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 18/20] Revert "fix: ANOVA panics when there are fewer than two
 systems"

This reverts commit 81025a18f14c8a26ae569866a805ad5ef6b1672d.
---
 src/statistical_tests/two_way_anova_without_replication.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/statistical_tests/two_way_anova_without_replication.rs b/src/statistical_tests/two_way_anova_without_replication.rs
index 80666fa..d4f5bd1 100644
--- a/src/statistical_tests/two_way_anova_without_replication.rs
+++ b/src/statistical_tests/two_way_anova_without_replication.rs
@@ -82,11 +82,6 @@ impl TwoWayAnovaWithoutReplication {
             })
             .collect::<Result<_, _>>()?;
 
-        if n_systems <= 1 {
-            return Err(ElinorError::InvalidArgument(
-                "The input must have at least two systems.".to_string(),
-            ));
-        }
         if samples.len() <= 1 {
             return Err(ElinorError::InvalidArgument(
                 "The input must have at least two records.".to_string(),
-- 
2.43.0


From b71215f32b16fdb239b394e6047b19ca96f5822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 19/20] Revert "fix: identical differences give a huge
 t-statistic instead of Uncomputable"

This reverts commit 7f5f2ce0f2e135db02b0c825a01c2422bd72be29.
---
 src/statistical_tests/student_t_test.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/statistical_tests/student_t_test.rs b/src/statistical_tests/student_t_test.rs
index 3006bae..f7ca4ed 100644
--- a/src/statistical_tests/student_t_test.rs
+++ b/src/statistical_tests/student_t_test.rs
@@ -207,8 +207,7 @@ impl StudentTTest {
 pub fn compute_t_stat(samples: &[f64]) -> Result<(f64, f64, f64)> {
     let mean = Statistics::mean(samples);
     let variance = Statistics::variance(samples);
-    // Rounding errors in the mean can make the variance of identical samples slightly positive.
-    if variance == 0.0 || samples.iter().all(|&x| x == samples[0]) {
+    if variance == 0.0 {
         return Err(ElinorError::Uncomputable(
             "The variance is zero.".to_string(),
         ));
-- 
2.43.0


From 02664550a897d8c4f1d5490d35351ceec43e2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 20/20] fix: elinor-compare ignored missing scores when given
 one file

With a single CSV file the mean was taken over the topics that have a score,
while n_topics counted all of them. With several files the tool failed already.
---
 elinor-cli/src/bin/compare.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 71dfa16..1538df8 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -124,7 +124,7 @@ fn main() -> Result<()> {
         println!("\n# Means");
         {
             let metrics = extract_metrics(&dfs[0]);
-            let values = get_means(&dfs[0], &metrics, topic_header);
+            let values = get_means(&dfs[0], &metrics, topic_header)?;
             let columns = vec![
                 Series::new("Metric".into(), metrics),
                 Series::new("Score".into(), values),
@@ -224,7 +224,13 @@ where
     common_metrics
 }
 
-fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Vec<f64> {
+fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Result<Vec<f64>> {
+    // mean() would skip missing scores.
+    for metric in metrics {
+        if df.column(metric)?.null_count() > 0 {
+            return Err(anyhow::anyhow!("Some topics have no score of {metric}."));
+        }
+    }
     let means = df
         .clone()
         .lazy()
@@ -243,7 +249,7 @@ fn get_means(df: &DataFrame, metrics: &[String], topic_header: &str) -> Vec<f64>
                 .unwrap()
         })
         .collect::<Vec<_>>();
-    values
+    Ok(values)
 }
 
 fn compare_two_systems(
@@ -266,7 +272,7 @@ fn compare_two_systems(
             metrics.iter().map(|s| s.as_str()).collect::<Vec<_>>(),
         )];
         for (i, df) in [df_1, df_2].into_iter().enumerate() {
-            let values = get_means(df, &metrics, topic_header);
+            let values = get_means(df, &metrics, topic_header)?;
             columns.push(Series::new(format!("System_{}", i + 1).into(), values));
         }
         let df = DataFrame::new(columns)?;
-- 
2.43.0

