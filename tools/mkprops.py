#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source for titles / statements)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})

REL, LIB, MET, TREC = "src/relevance.rs", "src/lib.rs", "src/metrics.rs", "src/trec.rs"
ST = "src/statistical_tests"
TT, BT, RT, TK, AN = (f"{ST}/student_t_test.rs", f"{ST}/bootstrap_test.rs", f"{ST}/randomized_tukey_hsd_test.rs",
                      f"{ST}/tukey_hsd_test.rs", f"{ST}/two_way_anova_without_replication.rs")
EV, CV, CM, CL = "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/compare.rs", "elinor-cli/src/lib.rs"
M = lambda n: f"src/metrics/{n}.rs"

p("C01", "Duplicate query-document pairs are rejected and never overwrite",
  "Adding a query-document pair to a relevance-store builder succeeds exactly when that pair has not been added before, and then the pair is stored with exactly the given score. A pair that is already present is rejected with a duplicate-entry error and the score stored first is kept. Building a store from a record sequence adds every record in this way and passes the first such error on to the caller.",
  "all sequences of additions, any key and score types", "tests add two or three fixed pairs; the guarantee is over every history of additions",
  [REL], [("RelevanceStoreBuilder::add_record", REL), ("RelevanceStore::from_records", REL)], over=("histories", "inputs"))
p("C02", "Rankings are ordered by score, ties by document id, deterministically",
  "For every query the ranking a built store exposes holds the query's documents ordered by descending score, and documents with equal scores by ascending document id. The ranking is therefore a function of the set of records and does not depend on the order they were added in.",
  "all stores, all key and score types, all insertion orders", "tests contain few ties and one insertion order",
  [REL], [("RelevanceStoreBuilder::build", REL)], over=("histories", "inputs"))
p("C03", "All views of a relevance store agree and lose nothing",
  "In a built store the ranking, the per-query score map, the point lookup and the two record exports all describe exactly the records that were added: each record appears once in each view, under its own query, document and score, grouped by query. The query count, document count and query-id iteration agree with those records, and lookups of absent queries or documents return nothing.",
  "all stores", "tests check a few lookups on one small store",
  [REL], [("RelevanceStoreBuilder::build", REL), ("accessors of RelevanceStore", REL)])
p("C04", "Evaluation scores exactly the predicted queries, each in isolation",
  "Evaluating a metric returns exactly one score for each query that has predictions, under that query's id, and ignores judged queries without predictions. It returns a missing-entry error exactly when some predicted query has no judgments. The score of a query depends only on that query's own judgments and ranking, never on other queries.",
  "all pairs of stores, all metrics", "tests use stores with one or two matching queries",
  [MET, LIB], [("compute_metric", MET), ("evaluate", LIB)])
p("C05", "Aggregates are the mean, population variance and std-dev of the scores",
  "For every evaluation over at least one query the reported mean is the arithmetic mean of the returned per-query scores, the variance is their population variance (divisor n) and the standard deviation is its square root. The reported metric is the one that was requested and the reported scores are the ones aggregated.",
  "all score maps with at least one query", "one two-query example is tested",
  [LIB], [("evaluate", LIB), ("Evaluation accessors", LIB)])
p("C06", "Hits, Success, Precision, Recall, F1 and R-Precision match definitions",
  "With h the number of relevant documents among the top k of a query's ranking and R its number of relevant judged documents: Hits@k = h; Success@k = 1 if h > 0 else 0; Precision@k = h/k; Recall@k = h/R, and 0 if R = 0; F1@k is the harmonic mean of Precision@k and Recall@k, and 0 if both are 0; R-Precision = Precision@R, and 0 if R = 0. On an empty ranking with cutoff 0 they are 0.",
  "all judgments, rankings and cutoffs", "tests sample a handful of cutoffs on one ranking",
  [MET, M("hits"), M("success"), M("precision"), M("recall"), M("f1"), M("r_precision")],
  [("compute_hits", M("hits")), ("compute_success", M("success")), ("compute_precision", M("precision")), ("compute_recall", M("recall")), ("compute_f1", M("f1")), ("compute_r_precision", M("r_precision"))])
p("C07", "Average precision and reciprocal rank match definitions",
  "AP@k is the sum, over the ranks i up to k that hold a relevant document, of Precision@i, divided by the number of all relevant judged documents of the query (0 if there is none). RR@k is 1/i for the smallest rank i up to k that holds a relevant document, and 0 if there is none.",
  "all judgments, rankings and cutoffs", "tests sample a handful of cutoffs on one ranking",
  [M("average_precision"), M("reciprocal_rank"), MET], [("compute_average_precision", M("average_precision")), ("compute_reciprocal_rank", M("reciprocal_rank"))])
p("C08", "Bpref matches its definition and ignores unjudged documents",
  "With R relevant and N non-relevant judged documents, Bpref is the sum over retrieved relevant documents of 1 - min(n, R)/min(N, R), divided by R, where n is the number of judged non-relevant documents ranked above that document; a relevant document counts fully when N = 0, and the value is 0 when R = 0. Unjudged documents in the ranking have no effect.",
  "all judgments and rankings", "one ranking with both relevant and non-relevant judgments is tested",
  [M("bpref"), MET], [("compute_bpref", M("bpref"))])
p("C09", "DCG and nDCG, plain and exponential gain, match definitions",
  "DCG@k is the sum over ranks i up to k of gain(rel_i)/log2(i+1), unjudged documents contributing nothing, where the gain is the relevance grade for DCG/nDCG and 2^grade - 1 for the Burges variants, for every grade whose gain is representable. nDCG@k is DCG@k divided by the DCG@k of the ideal ranking, i.e. all judged documents of the query ordered by decreasing grade, and 1 if that ideal DCG is 0.",
  "all judgments with representable gains, rankings and cutoffs", "tests use grades 0..2 and three cutoffs",
  [M("ndcg"), MET], [("compute_dcg", M("ndcg")), ("compute_ndcg", M("ndcg")), ("weighted_score", M("ndcg"))])
p("C10", "The cutoff k is applied uniformly: 0 means all, deeper ranks never count",
  "For every metric with a cutoff, k = 0 gives the value of the metric over the whole ranking, that is the value for a cutoff equal to the ranking's length (nDCG's ideal ranking is likewise not cut). For k > 0 documents ranked below k never influence the score, and a cutoff beyond the ranking's length uses every document while still dividing by k where the definition divides by k.",
  "all metrics, cutoffs and rankings", "tests use a few cutoffs per metric and no relational check between them",
  [MET, M("hits"), M("success"), M("precision"), M("recall"), M("f1"), M("average_precision"), M("reciprocal_rank"), M("ndcg")], [("cutoff handling in each metric", MET)])
p("C11", "Relevance means grade at least 1; unjudged documents are not relevant",
  "For every binary metric (Hits, Success, Precision, Recall, F1, R-Precision, AP, RR, Bpref) a document is relevant exactly when it is judged for that query with a grade of at least 1; the score does not depend on grades in any other way, so replacing every positive grade by 1 leaves it unchanged. A document that is judged only under another query counts as unjudged.",
  "all judgments, rankings and cutoffs", "tests use one fixed grade assignment",
  [MET], [("RELEVANT_LEVEL", MET), ("threshold tests in each metric", MET)])
p("C12", "Predicted scores act only through the ranking they induce",
  "No metric value depends on the numeric values of predicted scores other than through the order of documents they induce. Any order-preserving change of the predicted scores (rescaling, shifting, taking logs) leaves every per-query score, mean and variance unchanged.",
  "all judgments, rankings, metrics, all monotone transformations", "tests never vary the score scale",
  [MET, REL], [("metrics read documents of the ranking, never scores", MET)])
p("C13", "Every per-query score is a defined number",
  "For every metric, cutoff, judgment set and ranking (including queries without relevant documents, without judged non-relevant documents, or with an empty ranking) computing a per-query score never divides by zero, so with grades of representable gain the score is a finite number and never NaN or infinite.",
  "all metrics, cutoffs, judgments and rankings", "tests have relevant and non-relevant documents in every query",
  [MET, M("f1"), M("bpref"), M("recall"), M("ndcg")], [("guards around divisions in each metric", MET)])
p("C14", "Metric names round-trip and unknown names are rejected",
  "For every metric, parsing its displayed name gives back the same metric, and different metrics display different names. The name is the metric's identifier, followed by @k exactly when the cutoff is non-zero; a parsed name without cutoff means cutoff 0. Any string that is not a known identifier with an optional @ and decimal cutoff is rejected with an invalid-format error.",
  "all metrics, all cutoffs, all strings", "tests list a fixed set of names",
  [MET], [("Display for Metric", MET), ("FromStr for Metric", MET)])
p("C15", "Paired and tupled scores are matched by query id",
  "Pairing per-query score maps yields one tuple per query id, in query-id order, holding the scores that each map has for that same id, in the order the maps were given. Maps whose key sets differ in any way, and an empty collection of maps, are rejected with an invalid-argument error.",
  "all collections of score maps", "tests use two or three maps with one key mismatch",
  ["src/statistical_tests.rs"], [("pairs_from_maps", "src/statistical_tests.rs"), ("tuples_from_maps", "src/statistical_tests.rs")])
p("C16", "Statistical tests reject samples of the wrong shape",
  "Every statistical test accepts only samples for which it is defined and otherwise returns an invalid-argument error: the paired t-test and the bootstrap test need at least two pairs; ANOVA and Tukey's HSD need at least two topics, at least two systems and exactly one score per system in every topic; the randomized Tukey HSD test needs at least one topic and exactly one score per system in every topic. The reported numbers of topics and systems are those of the input.",
  "all inputs of all five tests", "tests sample a few too-short inputs",
  [TT, BT, AN, TK, RT], [("length checks at the start of each test", TT)])
p("C17", "Degenerate or non-finite data give an error, never NaN or a panic",
  "When the data make a statistic undefined - the paired differences have zero variance, the ANOVA residual variance is zero, or a score is not a number - the paired t-test, the bootstrap test, ANOVA and Tukey's HSD test return an uncomputable error, and the randomized Tukey HSD test rejects non-finite scores with an error. They never panic and never report a statistic or p-value computed from such data.",
  "all sample values including NaN and infinities", "only the all-equal differences case of the t-test is tested",
  [TT, BT, AN, TK, RT], [("compute_t_stat", TT), ("from_tupled_samples", AN), ("test", RT)])
p("C18", "Paired t-test statistics match their definitions",
  "For n paired scores with differences d (first minus second) the paired t-test reports the mean of d, its unbiased variance (divisor n-1), t = mean/sqrt(variance/n), effect size mean/sqrt(variance), and the two-sided p-value 2*P(T > |t|) for Student's t with n-1 degrees of freedom. The margin of error is the (1 - alpha/2) quantile of that distribution scaled by sqrt(variance/n), and the confidence interval is mean -/+ that margin.",
  "all sample sets", "one data set is tested", [TT], [("StudentTTest::from_paired_samples", TT), ("compute_t_stat", TT), ("margin_of_error", TT)])
p("C19", "Swapping the two systems only flips signs",
  "Exchanging the first and the second score in every pair negates the paired t-test's mean, t statistic and effect size and leaves its variance, p-value and margin of error unchanged. The bootstrap test's p-value for a given seed and number of resamples is also unchanged.",
  "all sample sets and seeds", "no test compares two orders", [TT, BT], [("two-sided p-values", TT), ("absolute values in the comparison", BT)])
p("C20", "Tests do not depend on the unit of the scores or on topic difficulty",
  "Multiplying all scores by the same positive constant leaves every t statistic, F statistic, effect size and p-value of the t-test and of ANOVA/Tukey HSD unchanged. Adding a constant to both scores of a topic leaves every result of the paired t-test and of the bootstrap test unchanged, and adding a constant to all scores of a topic leaves ANOVA's between-system and residual results unchanged.",
  "all sample sets, positive scales and per-topic shifts", "no test compares two data sets", [TT, BT, AN, TK], [("closed formulas of the statistics", AN)])
p("C21", "Two-way ANOVA without replication matches its definition",
  "For a score table of n topics by m systems ANOVA reports the system and topic means, the between-system, between-topic and residual sums of squares, their mean squares with m-1, n-1 and (m-1)(n-1) degrees of freedom, and F statistics that divide the factor's mean square by the residual one. The p-values are the upper tails of the F distribution with the factor's and the residual degrees of freedom, and the margin of error is the (1 - alpha/2) Student-t quantile with residual degrees of freedom scaled by sqrt(residual mean square / n).",
  "all score tables", "one data set is tested", [AN], [("TwoWayAnovaWithoutReplication::from_tupled_samples", AN), ("margin_of_error", AN)])
p("C22", "Tukey HSD effect sizes form the antisymmetric standardized difference matrix",
  "The effect size reported for systems i and j is (mean of i - mean of j) divided by the square root of the ANOVA residual mean square of the same data. The matrix is square in the number of systems, antisymmetric and zero on the diagonal.",
  "all score tables", "one 3-system data set is tested", [TK], [("TukeyHsdTest::effect_sizes", TK)])
p("C23", "Randomized tests are reproducible from the random state they report",
  "The result of the bootstrap test and of the randomized Tukey HSD test is a function of the samples, the configured number of resamples or iterations, and the random state that the result reports. A configured random state is the one used and reported; without one a fresh random state is drawn and reported, so configuring the reported value reproduces the result. No other source of randomness or ambient state is used.",
  "all samples, configurations and seeds", "tests fix one seed and compare a rounded p-value", [BT, RT], [("StdRng::seed_from_u64(random_state)", BT), ("StdRng::seed_from_u64(random_state)", RT)], over=("inputs", "configurations", "schedules"))
p("C24", "Resampling p-values are exact proportions in [0, 1]",
  "A p-value of the bootstrap or randomized Tukey HSD test is the number of resamples (iterations) whose statistic is at least as extreme as the observed one, divided by the number of resamples (iterations) performed. The reported number is the number performed, it is the configured one (10000 by default) and is never below 1, so every such p-value lies in [0, 1].",
  "all samples, seeds and configured counts including 0", "tests use the default or one configured count", [BT, RT], [("with_n_resamples", BT), ("with_n_iters", RT), ("count / n", BT)], over=("inputs", "configurations"))
p("C25", "Randomized Tukey p-value matrix is symmetric with unit diagonal",
  "The p-value matrix of the randomized Tukey HSD test is square in the number of systems, its diagonal is 1, and the entries for (i, j) and (j, i) are equal.",
  "all samples, seeds and numbers of systems", "one 3-system data set is tested", [RT], [("final loop filling the matrix", RT)])
p("C26", "Randomized Tukey null model permutes scores within each topic",
  "In every iteration of the randomized Tukey HSD test the scores of each topic are independently shuffled among the systems, no score moves between topics, and each iteration starts from the original samples. The iteration counts against systems i and j exactly when the range (maximum minus minimum) of the shuffled system means is at least the absolute difference of the observed means of i and j.",
  "all samples and seeds", "one data set is tested with a loose tolerance", [RT], [("RandomizedTukeyHsdTester::test", RT)])
p("C27", "Bootstrap test resamples mean-centred differences with replacement",
  "Each bootstrap resample draws as many differences as there are pairs, each uniformly and independently from the observed differences shifted to mean zero. It counts exactly when the absolute t statistic of the resample (0 if its variance is zero) is at least the absolute t statistic of the original differences.",
  "all samples and seeds", "one data set is tested with a loose tolerance", [BT], [("BootstrapTester::test", BT)])
p("C28", "Significance levels outside (0, 1] are rejected",
  "Margins of error and confidence intervals are computed for every significance level in (0, 1]; every other value, including NaN, gives an invalid-argument error and never a panic or a number.",
  "all floating-point significance levels", "tests sample a couple of invalid levels", [TT, AN], [("margin_of_error", TT), ("confidence_interval", TT), ("margin_of_error", AN)])
p("C29", "TREC files are parsed column-exactly and malformed lines are rejected",
  "Every line of a TREC qrels (run) file contributes exactly one record whose query is the first, document the third and score the fourth (fifth) whitespace-separated column; negative judgments count as 0. A line with fewer than four (five) columns or a score that is not an integer (number) gives an invalid-format error, a repeated query-document pair a duplicate-entry error, and no line is skipped or altered.",
  "all line sequences", "tests parse one well-formed file each", [TREC], [("parse_true_rels_in_trec", TREC), ("parse_pred_rels_in_trec", TREC)])
p("C30", "elinor-convert writes every record of the input or fails",
  "elinor-convert parses the input as judgments or as a run according to the requested type and writes every resulting record as exactly one JSON line to the output file. It exits successfully only if reading, parsing, every write and the final flush succeeded.",
  "all inputs and all I/O failures", "the CLI is only run on one good file", [CV, CL], [("main", CV), ("load_lines", CL)], over=("inputs", "fault_sequences"))
p("C31", "elinor-evaluate reports every requested metric from the given files",
  "elinor-evaluate loads every line of the judgment and prediction files, evaluates each requested metric (a fixed default list when none is requested) in order against them, and prints the number of queries and documents of the loaded data and each mean under that metric's name. The optional CSV has one row per predicted query, and for each metric one column, named after the metric, with that query's scores, using the selected separator; any evaluation, read or write error ends the program unsuccessfully.",
  "all inputs, metric lists and options", "the CLI is only run on one data set", [EV, CL], [("main", EV), ("load_lines", CL)], over=("inputs", "configurations", "fault_sequences"))
p("C32", "elinor-compare aligns systems by topic, never by row position",
  "For every number of input files elinor-compare feeds the statistical tests, for each metric common to all files, with tuples that hold each system's score for the same topic, in the order the files were given, one tuple per topic of the first file. Files whose sets of topics differ, that repeat a topic or that name the topic column differently are rejected with an error instead of being truncated or misaligned.",
  "all sets of input files, row orders and topic sets", "the CLI is only run on files with identical rows", [CM], [("compare_two_systems", CM), ("compare_multiple_systems", CM)], over=("inputs", "configurations"))
p("C33", "elinor-compare prints each statistic under its own label",
  "Every table of elinor-compare shows in each labelled column the statistic the label names, computed from the metric named in the row or section, for the systems in file order. The printed numbers of resamples and iterations are the ones the tests are run with, and means are the per-metric means of the file.",
  "all inputs and options", "the CLI output is never checked", [CM], [("Series columns in main, compare_two_systems, compare_multiple_systems", CM)], over=("inputs", "configurations"))
p("C34", "Library entry points never panic on any input",
  "No public function of the library panics for any argument values (with key types whose own operations do not panic): malformed input gives an error value. In particular no lookup, index, unwrap, integer subtraction or distribution construction reached from a public function can fail.",
  "all public functions, all inputs", "tests only see inputs that do not panic", ["src"], [("unwrap/expect/index sites in src", "src")])
p("C35", "JSON records use the documented field names and read what they write",
  "With serialization enabled a record is written as an object with exactly the fields query_id, doc_id and score, holding the corresponding values, and reading accepts that object and requires all three fields. Writing a record and reading it back gives an equal record.",
  "all records", "tests and examples only read a fixed file", [REL], [("Serialize/Deserialize for Record", REL)], over=("inputs", "configurations"))
p("C36", "Scores are numerically accurate",
  "Reported scores and statistics differ from the exact real-number values by no more than a small relative rounding error.",
  "all inputs", "tests compare with a tolerance on few inputs", ["src"], [("floating-point arithmetic throughout", "src")])
p("C37", "Distribution functions are accurate",
  "The p-values and quantiles obtained from Student's t and F distributions agree with the true distribution functions.",
  "all parameters", "a few values are compared", [TT, AN], [("statrs distributions", TT)])
p("C38", "Randomized p-values converge to the permutation distribution",
  "As the number of resamples grows the randomized p-values converge to the exact p-value of the resampling distribution.",
  "all samples, seeds", "tests use one seed", [BT, RT], [("StdRng stream", BT)], over=("inputs", "schedules"))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
