#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

REL = "src/relevance.rs"
p("C01", "A relevance store contains exactly the accepted records",
  "After any sequence of add_record calls, the built store reports exactly the accepted (query, document, score) records and nothing else: records(), into_records(), get_score, get_map, get_sorted, query_ids, n_queries and n_docs all describe that same set, and look-ups of absent queries or documents return None. "
  "from_records builds the same store from the same records, in whatever order they arrive, and into_records of a store fed back to from_records reproduces it. "
  "This holds for every id type (owned or borrowed strings, chars, integers) and every ordered score type.",
  ["inputs", "histories"], "all record multisets, insertion orders, id types and store sizes",
  "The unit tests build a handful of 2-4 record stores with char ids; they sample no large stores, no interleaving of queries, no look-ups of near-miss ids and no insertion-order permutations.",
  [REL], [("RelevanceStoreBuilder::add_record/build", REL), ("RelevanceStore accessors", REL)])
p("C02", "Duplicate query-document pairs are rejected without side effects",
  "Adding a (query, document) pair that is already present returns ElinorError::DuplicateEntry and leaves every previously accepted record, including that pair's first score, unchanged; adding any other pair succeeds, whatever was rejected before it. "
  "from_records and the two TREC parsers fail with DuplicateEntry exactly when some pair occurs more than once. "
  "The same document id under different queries is never a duplicate.",
  ["histories", "inputs"], "all interleavings of fresh and duplicate insertions over any number of queries",
  "One unit test inserts one duplicate immediately after its original and never builds the store afterwards.",
  [REL, "src/trec.rs"], [("duplicate check in add_record", REL), ("parse_*_in_trec", "src/trec.rs")])
p("C03", "Ranked lists are ordered by score, ties by document id",
  "For every query, get_sorted is a permutation of the query's records in which scores never increase and equally scored documents appear in ascending document-id order, whatever order the records were inserted in. "
  "The order of predicted scores is the numeric order of f64 for all finite values (including subnormals, values one ulp apart and -0.0 == 0.0) and infinities; true scores are ordered over the whole u32 range.",
  ["inputs"], "all score multisets (ties, extremes, adjacent floats) and insertion orders",
  "Tests check the order of two small lists of integer scores; ties, float edge cases and insertion-order independence are not sampled.",
  [REL], [("sort in RelevanceStoreBuilder::build", REL)])
M = "src/metrics.rs"
p("C04", "Set-based metrics equal their definitions for every input and cutoff",
  "For every judged query, Hits, Success, Precision, Recall, F1 and R-Precision equal their documented definitions evaluated on the top-k of the ranked list (k = 0 means the whole list), where a document is relevant iff its judged grade is at least 1 and unjudged documents are non-relevant. "
  "Precision@k always divides by k even if fewer documents were retrieved, Recall and R-Precision use the total number of relevant documents, F1 is the harmonic mean of the two, and every one of them is 0 when the query has no relevant document.",
  ["inputs"], "all judgment sets, rankings and cutoffs k in 0..=usize::MAX",
  "The tests compute each metric on one fixed 4-document query with k in {0,1,2,..}; rankings shorter than k, missing/zero judgments, many ties and huge k are not reached.",
  ["src/metrics/hits.rs", "src/metrics/success.rs", "src/metrics/precision.rs", "src/metrics/recall.rs", "src/metrics/f1.rs", "src/metrics/r_precision.rs"],
  [("compute_hits/precision/recall/f1/r_precision/success", "src/metrics/*.rs"), ("dispatch in compute_metric", M)])
p("C05", "AP and RR equal their definitions for every input and cutoff",
  "AP@k equals the sum of Precision@i over the ranks i <= k holding a relevant document, divided by the total number of relevant documents of the query (retrieved or not), and 0 if there is none. "
  "RR@k equals the reciprocal of the rank of the first relevant document within the top k, and 0 if there is none; k = 0 means the whole list.",
  ["inputs"], "all judgment sets, rankings and cutoffs",
  "Only one fixed example per cutoff is tested; deep rankings, relevant documents never retrieved and cutoffs beyond the list are not.",
  ["src/metrics/average_precision.rs", "src/metrics/reciprocal_rank.rs"],
  [("compute_average_precision", "src/metrics/average_precision.rs"), ("compute_reciprocal_rank", "src/metrics/reciprocal_rank.rs")])
p("C06", "Bpref equals its definition and ignores unjudged documents",
  "With R relevant and N judged non-relevant documents, Bpref equals (1/R) times the sum, over retrieved relevant documents, of 1 - min(R, n)/min(R, N), where n is the number of judged non-relevant documents ranked above, a relevant document with n = 0 contributes exactly 1, and Bpref is 0 when R = 0. "
  "It is always a finite number in [0, 1] and does not change when unjudged documents are inserted into or removed from the ranking.",
  ["inputs"], "all judgment sets (including N = 0, N < R, N > R) and rankings with any mix of judged and unjudged documents",
  "One example is tested (R = N = 2); no unjudged documents, no N = 0, no N != R.",
  ["src/metrics/bpref.rs"], [("compute_bpref", "src/metrics/bpref.rs")])
p("C07", "DCG and nDCG equal their definitions for both gain functions",
  "DCG@k is the sum over the top-k of gain/log2(rank+1), with gain = grade (Jarvelin) or 2^grade - 1 (Burges) for judged documents and 0 for unjudged ones; k = 0 means the whole list. "
  "nDCG@k is DCG@k divided by the DCG@k of the ideal ranking of all judged documents of that query by descending grade, and 1 by convention when that ideal DCG is 0. "
  "This holds for every grade of the u32 range as long as the exact value is representable (Burges gains up to grade 1000), and a larger grade never gets a smaller gain.",
  ["inputs"], "all graded judgment sets, rankings, cutoffs and both weightings",
  "Tests use grades 0..3, one query, and cutoffs up to 4; grades beyond i32, ideal lists longer/shorter than k and missing judgments are not sampled.",
  ["src/metrics/ndcg.rs"], [("compute_dcg/compute_ndcg/weighted_score", "src/metrics/ndcg.rs")])
p("C08", "Metric scores are finite, bounded and mutually consistent",
  "Every score of every metric is finite and non-negative; all metrics except Hits and DCG are at most 1 (Success exactly 0 or 1); a ranking that retrieves no relevant document scores 0 on every binary metric, and a ranking that puts exactly the relevant documents first, best grade first, scores 1 on AP, RR, R-Precision, Bpref, Success and nDCG. "
  "Scores of different metrics on the same data agree with each other: Hits@k = k*Precision@k = R*Recall@k, Success@k = [Hits@k > 0] = [RR@k > 0], R-Precision = Precision@R = Recall@R, nDCG*ideal DCG = DCG, and Hits, Success, Recall, AP, RR and DCG never decrease as k grows.",
  ["inputs"], "all judgments, rankings and cutoffs (Burges variants: grades below 1000)",
  "Ranges and cross-metric identities are universal statements; the tests compare isolated values of one query.",
  ["src/metrics.rs", "src/metrics/*.rs"], [("compute_metric", M)])
p("C09", "Scores depend only on rank order, judgments and the top k",
  "For any data, metric scores are unchanged by a strictly increasing transformation of the predicted scores, by any renaming of query ids, by any renaming of document ids that preserves the order among tied documents, by reordering, truncating or extending the ranking below rank k > 0 (for metrics at k), by judging an unjudged document as grade 0 (all but Bpref), and, for binary metrics, by replacing positive grades by other positive grades. "
  "Moving a relevant (or higher graded) document up in place of a less relevant one never lowers a score.",
  ["inputs"], "all data sets and all such transformations",
  "A relation between two executions on related inputs; unit tests look at single executions.",
  ["src/relevance.rs", "src/metrics.rs", "src/metrics/*.rs"], [("compute_metric", M), ("sorting", REL)])
p("C10", "evaluate scores every predicted query independently and averages them",
  "For stores with at least one predicted query, compute_metric and evaluate fail with MissingEntry if some predicted query has no judgments and, as documented, if some judged query has no prediction; otherwise they return exactly one score per predicted query, equal to the score that query gets when evaluated alone. "
  "evaluate reports the same per-query scores and the requested metric, the mean is their arithmetic mean, the variance their population variance, and std_dev its square root.",
  ["inputs", "configurations"], "all pairs of stores, including disjoint, nested and overlapping query sets, and all metrics",
  "Tests evaluate one or two queries with identical query sets.",
  ["src/lib.rs", M], [("evaluate", "src/lib.rs"), ("compute_metric query loop", M)])
p("C11", "Metric names parse and print consistently, anything else is an error",
  "Parsing the printed form of any metric yields that metric again, name@k yields cutoff k and a bare name yields k = 0, for all 13 metrics and every usize k. "
  "Any other string (unknown or misspelt name, missing, signed, non-decimal or overflowing k, surrounding characters) is rejected with InvalidFormat; parsing never panics.",
  ["inputs"], "all strings; all metrics x cutoffs",
  "Tests list 26 well-formed names and four bad ones.",
  [M], [("FromStr/Display for Metric", M)])
p("C12", "TREC qrels and runs are parsed field by field without loss",
  "A qrels line contributes (column 1, column 3, column 4 as a 32-bit integer with negatives clamped to 0) and a run line (column 1, column 3, column 5 as the nearest f64); columns are separated by any white space, the other columns and any extra columns are ignored, and the resulting store holds exactly these records. "
  "A line with too few columns (fewer than 4, respectively 5) or an unparsable score makes the parser return InvalidFormat, and a repeated pair DuplicateEntry; no input makes it panic.",
  ["inputs"], "all texts: separators, column counts, unicode ids, score spellings and magnitudes, corrupt lines at any position",
  "Tests parse two 5-line samples and one malformed line each.",
  ["src/trec.rs"], [("parse_true_rels_in_trec", "src/trec.rs"), ("parse_pred_rels_in_trec", "src/trec.rs")])
p("C13", "JSON records round-trip exactly (serde feature)",
  "A true or predicted record serialises to one JSON object with exactly the fields query_id, doc_id and score, the score being a JSON number, and deserialising it gives back an equal record for every id string and every finite score. "
  "Field order in the input does not matter; a missing field, a non-numeric score, or a negative or fractional true score is rejected.",
  ["inputs"], "all id strings (quotes, control characters, any unicode) and scores",
  "No test serialises anything.",
  [REL], [("serde derives on Record", REL)])
ST = "src/statistical_tests.rs"
p("C14", "Samples from several systems are paired by query id",
  "pairs_from_maps and tuples_from_maps return one entry per query, in ascending query-id order, whose j-th component is the j-th system's score for that same query; any number of maps, including zero, one and many, is accepted. "
  "If any map's key set differs from the others' (missing, extra or substituted ids, in any position) they fail with InvalidArgument.",
  ["inputs", "configurations"], "all numbers of systems and all key sets",
  "Three tests with three single-char keys.",
  [ST], [("pairs_from_maps/tuples_from_maps", ST)])
T = "src/statistical_tests/student_t_test.rs"
p("C15", "The paired t-test reports the textbook statistics and p-value",
  "For finite paired samples with at least two distinct differences, n_topics, mean, unbiased variance, effect size mean/sd, t = mean/sqrt(variance/n) and the two-sided p-value of Student's t with n-1 degrees of freedom all agree with exact arithmetic up to rounding. "
  "Swapping the systems negates mean, effect size and t and keeps variance and p; permuting the pairs changes nothing.",
  ["inputs"], "all finite samples, n from 2 to thousands, any magnitude and |t|",
  "One 20-sample example to 3-4 decimals.",
  [T], [("StudentTTest::from_paired_samples/compute_t_stat", T)])
p("C16", "Degenerate paired samples give the documented errors",
  "StudentTTest and BootstrapTest (default and customised) return InvalidArgument for fewer than two pairs and Uncomputable when all differences are equal, whatever the common value and the number of pairs. "
  "On differences of ordinary magnitude (0 or 1e-100 to 1e100) they never panic or return NaN, infinite or garbage statistics, and samples whose differences are not all equal up to rounding always give a result.",
  ["inputs"], "all sample sizes and constant differences, including values like 0.1 that are not exactly representable",
  "Tests use two pairs with difference exactly 1.0.",
  [T, "src/statistical_tests/bootstrap_test.rs"], [("zero-variance check in compute_t_stat", T)])
p("C17", "Margins of error and confidence intervals have the stated coverage",
  "For significance level a in [1e-6, 1], margin_of_error of the t-test and of the ANOVA is the 1 - a/2 quantile of Student's t (n-1, respectively (m-1)(n-1) degrees of freedom) times the standard error (sqrt(variance/n), respectively sqrt(V_E/n)), is 0 at a = 1 and never increases with a; the confidence interval is mean -/+ that margin, so it excludes 0 exactly when p < a. "
  "Every level outside (0, 1], including NaN and infinities, is rejected with InvalidArgument.",
  ["inputs"], "all samples and significance levels",
  "Tests evaluate a = 0.05, 0 and 1 on one sample.",
  [T, "src/statistical_tests/two_way_anova_without_replication.rs"], [("margin_of_error", T), ("margin_of_error (ANOVA)", "src/statistical_tests/two_way_anova_without_replication.rs")])
A = "src/statistical_tests/two_way_anova_without_replication.rs"
p("C18", "Two-way ANOVA reports the textbook decomposition and p-values",
  "For m >= 2 systems, n >= 2 topics and finite samples with non-negligible residuals, the system and topic means, variations S_A, S_B, S_E, variances, F statistics and F-distribution p-values equal their documented formulas evaluated in exact arithmetic up to rounding, and S_A + S_B + S_E equals the total variation. "
  "For two systems F_A is the square of the paired t statistic with the same p-value; permuting topics changes nothing but the order of topic means and permuting systems only permutes the system means.",
  ["inputs"], "all sample matrices of any shape",
  "One 20x3 example to 3-4 decimals.",
  [A], [("TwoWayAnovaWithoutReplication::from_tupled_samples", A)])
p("C19", "ANOVA, Tukey HSD and randomized tests reject degenerate input without panicking",
  "ANOVA and Tukey HSD return InvalidArgument for ragged records, fewer than two records or fewer than two systems, and Uncomputable when the score differences between systems are the same for every topic (e.g. identical systems), instead of panicking or reporting statistics computed from rounding noise. "
  "The randomized Tukey HSD test returns InvalidArgument for ragged or empty input and otherwise succeeds on any finite input, including identical systems and a single topic; no finite input of ordinary magnitude (0 or 1e-100 to 1e100) makes any of them panic.",
  ["inputs"], "all record shapes and degenerate score patterns",
  "Tests cover empty, one-record and one ragged input.",
  [A, "src/statistical_tests/tukey_hsd_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"],
  [("input validation", A), ("Tester::test", "src/statistical_tests/randomized_tukey_hsd_test.rs")])
p("C20", "Tukey HSD effect sizes are antisymmetric standardised mean differences",
  "effect_sizes() is an m x m matrix whose (i, j) entry is (mean of system i - mean of system j)/sqrt(V_E), with V_E the ANOVA residual variance of the same data, a zero diagonal and exact antisymmetry, for every number of systems and topics. "
  "Permuting the systems permutes rows and columns accordingly, and adding a constant to all scores of a topic changes nothing.",
  ["inputs"], "all sample matrices",
  "One 3-system example to 4 decimals.",
  ["src/statistical_tests/tukey_hsd_test.rs"], [("effect_sizes", "src/statistical_tests/tukey_hsd_test.rs")])
B = "src/statistical_tests/bootstrap_test.rs"
p("C21", "Bootstrap p-values estimate the exact bootstrap distribution",
  "The bootstrap p-value is a multiple of 1/n_resamples in [0, 1] and estimates, within binomial sampling error, the exact probability that a resample with replacement of the mean-centred differences has a t statistic at least as large in absolute value as the observed one (zero-variance resamples counting as t = 0, and ties that only rounding separates counting either way). "
  "The number of resamples is the configured one (default 10000, at least 1), resamples are independent and of full size, and swapping the systems leaves the distribution of the p-value unchanged.",
  ["inputs", "schedules"], "all samples, all seeds, all resample counts",
  "Tests only check that the same seed repeats; no p-value is ever compared with anything.",
  [B], [("BootstrapTester::test", B)])
R = "src/statistical_tests/randomized_tukey_hsd_test.rs"
p("C22", "Randomized Tukey HSD p-values estimate the exact permutation distribution",
  "p_values() is a symmetric m x m matrix of multiples of 1/n_iters with unit diagonal whose (i, j) entry estimates, within binomial sampling error, the exact probability that after independently permuting the scores within each topic the largest minus the smallest system mean is at least |mean_i - mean_j| (ties count, also when only rounding separates them). "
  "Within one result a larger observed difference never has a larger p-value, identical systems get p = 1, and for two systems the value is that of Fisher's randomization test.",
  ["inputs", "schedules"], "all sample matrices, seeds and iteration counts",
  "Tests check one seeded run for repeatability and shapes only.",
  [R], [("RandomizedTukeyHsdTester::test", R)])
p("C23", "Randomised tests are reproducible from their reported random state",
  "A bootstrap or randomized Tukey HSD test with a given random state returns the same p-values every time on the same samples, in any process, thread and after any other calls, and re-running with the random_state reported by an unseeded test reproduces its p-values. "
  "n_resamples/n_iters and random_state are reported as configured (0 is raised to 1), different random states (over the whole u64 range) give different random streams, and unseeded runs draw fresh random states.",
  ["inputs", "histories", "schedules"], "all samples, seeds, iteration counts and call histories",
  "One test repeats one seed ten times in one thread.",
  [B, R], [("random_state handling", B), ("random_state handling", R)])
p("C24", "Results do not depend on call history or concurrent calls",
  "Every library function is a pure function of its arguments (plus the random state): calling evaluate, compute_metric, the parsers or the statistical tests repeatedly, after any other calls, or from many threads at once on shared stores returns the same result as a fresh isolated call. "
  "No call modifies its input stores or samples, and there is no data race or undefined behaviour.",
  ["schedules", "histories"], "all interleavings of calls from several threads and all call histories",
  "All tests are single-threaded, call each function once on fresh data.",
  ["src/lib.rs", M, REL, ST], [("evaluate", "src/lib.rs"), ("compute_metric", M), ("statistical tests", ST)])
CV, EV, CM = "elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs"
p("C25", "elinor-convert preserves every record of a TREC file",
  "For every valid TREC file, elinor-convert exits 0 and writes a JSONL file with exactly one line per input record carrying the same query id, document id and score (negative judgments clamped to 0), readable by elinor-evaluate; the same file converted twice gives the same bytes, and existing output is replaced. "
  "If the input has a malformed line, a duplicate pair or a score JSON cannot represent (NaN, infinity), it exits with a nonzero status.",
  ["inputs"], "all TREC files: any size, order, unicode ids, score spellings",
  "elinor-cli has no tests.",
  [CV, "elinor-cli/src/lib.rs"], [("main", CV), ("load_lines", "elinor-cli/src/lib.rs")])
p("C26", "elinor-evaluate reports what the library computes",
  "For every pair of valid JSONL files, elinor-evaluate prints the true numbers of queries, documents and relevant documents and, for each requested metric in order (or the default list), its name and macro average to 4 decimals; the CSV/TSV output has one row per query and one column per metric whose values equal the library's per-query scores exactly. "
  "The result does not depend on the order of the input lines.",
  ["inputs", "configurations"], "all inputs, metric selections and separators",
  "elinor-cli has no tests.",
  [EV], [("main", EV), ("default_metrics", EV)])
p("C27", "elinor-compare reports the library's statistics on correctly paired topics",
  "For CSV files with the same topic ids in any row and column order, elinor-compare prints, the file each system stands for and, for every common metric, the means, t-test, ANOVA and effect-size values the library computes on scores paired by topic id, to 4 decimals, and randomised p-values consistent with the exact ones; topic ids are compared as text. "
  "Both print modes and both separators give the same numbers, and with two or more files, topic sets that differ or repeat an id are rejected with a nonzero exit status.",
  ["inputs", "configurations"], "all numbers of systems, topics, metrics, row orders and topic-id spellings",
  "elinor-cli has no tests.",
  [CM], [("compare_two_systems", CM), ("compare_multiple_systems", CM), ("get_means", CM)])
p("C28", "A failed write is never reported as success",
  "If elinor-convert or elinor-evaluate --output-csv cannot write its whole output file (disk full, file-size limit, unwritable path) at whatever byte the failure strikes, it exits with a nonzero status; whenever it exits 0 the output file is complete. "
  "The same holds for the standard output of elinor-evaluate and elinor-compare.",
  ["fault_sequences", "crash_points"], "every byte offset at which a write can fail, for every tool and output",
  "elinor-cli has no tests and no fault is ever injected.",
  [CV, EV, CM], [("BufWriter in main", CV), ("CsvWriter in main", EV)])
p("C29", "Command-line tools reject invalid input with a nonzero exit status",
  "Missing or unreadable files, malformed JSON or TREC lines at any position, duplicate pairs, predicted queries without judgments, unknown metric names, bad options, differing topic-column headers, missing common metrics, and CSV rows with too many, missing or non-numeric scores make the tools exit with a nonzero status instead of ignoring the offending part. "
  "Valid input never makes them fail.",
  ["inputs"], "all single corruptions of valid inputs, at any line",
  "elinor-cli has no tests.",
  [CV, EV, CM, "elinor-cli/src/lib.rs"], [("argument parsing and error propagation", EV)])
p("C30", "The three command-line tools compose into the documented pipeline",
  "For every pair of TREC judgment files and runs of several systems, converting with elinor-convert, evaluating each run with elinor-evaluate --output-csv and comparing the CSV files with elinor-compare yields, end to end, the numbers obtained from the TREC contents by the definitions: per-query scores, means, and paired statistics, with topics matched by id. "
  "This holds for every white-space-free id (including commas, quotes, non-ASCII and number-like ids), every order of lines and every score a run may contain.",
  ["inputs", "configurations"], "all TREC inputs and numbers of systems taken through all three tools",
  "elinor-cli has no tests; no test feeds one tool's output into the next.",
  [CV, EV, CM], [("main", CV), ("main", EV), ("compare_two_systems", CM)])
p("C31", "No store, cutoff or score makes an evaluation panic, hang or return NaN",
  "For any pair of stores (empty, one-sided, disjoint, empty-string ids, NaN or infinite predicted scores, any u32 grade, any ordered id type) and any metric and cutoff, building the stores, calling every accessor, compute_metric and evaluate return normally with a result or MissingEntry within bounded time. "
  "With no predictions compute_metric returns an empty map, and every score (other than Burges gains beyond grade 1000) is a finite number.",
  ["inputs"], "all stores including degenerate ones, all metrics and cutoffs",
  "Tests use small well-formed stores with finite scores.",
  ["src/lib.rs", M, REL], [("evaluate", "src/lib.rs"), ("compute_metric", M), ("RelevanceStoreBuilder::build", REL)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
