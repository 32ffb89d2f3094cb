import json
P=[]
def add(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mechanism],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
PDC="artemis/_utilities/pd_calculator.py"
PDM="artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py"
FRI="artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
GRE="artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py"
SEJ="artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py"
SPL="artemis/interactions_methods/model_specific/gb_trees/_split_score.py"
CMD="artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"
IPD="artemis/importance_methods/model_agnostic/_pdp.py"
IPE="artemis/importance_methods/model_agnostic/_permutational_importance.py"
ISP="artemis/importance_methods/model_specific/_split_score.py"
IMD="artemis/importance_methods/model_specific/_minimal_depth.py"
ADD="artemis/additivity/_additivity_meter.py"
CMP="artemis/comparison/_method_comparator.py"
VIS="artemis/visualizer/_visualizer.py"
OPS="artemis/_utilities/ops.py"
BAS="artemis/interactions_methods/_method.py"
HAN="artemis/_utilities/_handler.py"
add("C01","A partial-dependence calculator never serves a wrong value",
"Whatever computations were requested before from a partial-dependence calculator (any order, subset or batch size; some aborted by a failing or interrupted model call, some spoiled by transient NaN predictions, some resumed from a saved copy), and also when the caller edits its own data frame afterwards, every single-feature, pair and all-but-one value it serves is either still missing (NaN) or equal to the model's mean prediction over the data it was built on with those features fixed. After a computation completes with a healthy model, none of the values it was asked for is missing.",
["histories","fault_sequences","crash_points","inputs","configurations"],"every history of compute/read/save/restore operations, every model-call failure or interruption point, every batch size and dataset",
"The only calculator tests need a download and are skipped here; the tests that run only call it fresh, once, with the default batch size and a model that never fails.",
[PDC],[("NaN marks values not yet computed; computations skip the ones present",PDC+":calculate_pd_single/pairs/minus_single"),("batches are mapped back to values by row range",PDC+":fill_pd_*")],
[("pd_single/pd_pairs/pd_minus_single","memoised partial dependence, NaN = missing",PDC)],["get_pd_single","get_pd_pairs","get_pd_minus_single"])
add("C02","PD-based explanations do not depend on calculator or fit history",
"Every successful fit of the Friedman H-statistic (pairs, one-vs-all, normalised or not), the Greenwell method, partial-dependence importance and the additivity index yields the values of their definitions for the given model and the data sampled, for exactly the requested features and pairs, strongest first. This holds for every batch size and feature order and whether the partial-dependence calculator is new, shared with other methods, partly filled by a failed or interrupted fit, or restored from a checkpoint.",
["histories","fault_sequences","crash_points","configurations","inputs"],"every history of fits sharing calculators, with model failures or interruptions at any point in between, every batch size, feature subset and order",
"Tests that run fit each class once on fresh objects and compare importances with a 10 % tolerance; sharing a calculator, retrying after a failure and small batches are never exercised.",
[PDM,FRI,GRE,IPD,ADD,PDC],[("H-statistic from centred partial dependence",FRI+":_calculate_hstat_value"),("Greenwell conditional importances",GRE+":_calculate_ovo_interactions_from_pd"),("shared calculator",PDM+":fit"),("additivity index",ADD+":_calculate_additivity")],
[("pd_calculator","shared memo of partial dependence",PDM)],["ovo","ova","feature_importance","additivity_index","full_result"])
add("C03","Partial-dependence values are requested from the model once, in batches",
"A partial-dependence value that the model has already delivered to a calculator is not requested again: repeating a computation, or running another method on the same calculator, sends the model only rows for values still missing, also when an earlier attempt was cut short by a model failure. Requests are pooled: no call carries more than the batch size plus one feature's block of rows, no call is empty, and a computation of R rows makes at most R/batchsize + 1 calls.",
["histories","fault_sequences","configurations"],"every history of computations and fits over one calculator, every model-failure point and batch size",
"No test counts model calls or rows, reuses a calculator, or makes the model fail part way.",
[PDC,PDM,FRI,GRE,IPD,ADD],[("missing-value test before queueing rows",PDC+":calculate_pd_*"),("flush when the pool exceeds batchsize",PDC+":calculate_pd_*")],
[("batchsize","rows pooled before a model call",PDC)],["rows and calls seen by the model"])
add("C04","Explaining, plotting and comparing never alter what the caller passed in",
"At every moment the model is called and after every operation, whether it completed, failed in the model or was interrupted at any point, the caller's data frame, targets, feature and pair lists and tree tables are exactly what was passed: same values, order, labels and types. Plotting, querying and comparing fitted methods leave their result tables unchanged.",
["histories","fault_sequences","crash_points","inputs"],"every operation of every method, every failure and interruption point, every frame layout",
"Tests never compare inputs before and after, and never make an operation fail half way, which is when a modify-and-restore scheme leaks.",
[OPS,PDC,SEJ,IPE,SPL,ISP,HAN,VIS,CMP,ADD],[("work on copies / assign",PDC+":calculate_pd_*"),("permute a copy",SEJ+":_permute_score"),("permute a copy, restore per feature",IPE+":_corrupted_scores"),("groupby-apply on tree copies",SPL+":_prepare_stats")],
None,["X","y","features","trees table","ovo","feature_importance"])
add("C05","A fixed random_state makes results bit-for-bit repeatable",
"Two explainers built with the same random_state and driven through the same calls return bit-identical results (interactions, one-vs-all, importances, sampled rows), for every method that takes a random_state. Global random state, operating-system entropy, the clock, hash randomisation, progress display, and the activity or failure of other explainers in the same process make no difference.",
["histories","configurations","schedules","fault_sequences"],"every seed and call sequence, every environment (entropy, global RNG, clock, hash seed) and interleaved activity of other objects",
"Tests never fix a random_state and never compare two runs; entropy, hash seed and clock are whatever the machine gives.",
[BAS,SEJ,IPE,OPS,ADD,"artemis/importance_methods/_method.py"],[("one generator per object, seeded at construction",BAS+":FeatureInteractionMethod.__init__"),("sampling draws from that generator",OPS+":sample_if_not_none"),("permutations draw from that generator",SEJ+":_permute_score")],
[("_random_generator","per-object random stream",BAS)],["ovo","ova","feature_importance","X_sampled","additivity_index"])
add("C06","The results an explainer shows always come from one single fit",
"After any history of fits on one explainer (different models, data and options; some failed or interrupted at any point), all results it shows (pairwise, one-vs-all, importances, ranking direction, additivity) stem from one and the same fit, and from the latest one if that succeeded; nothing of an earlier fit survives beside them, and after a fit that failed in the model or was rejected an earlier fit is shown whole or not at all. While no complete result is available, plotting, querying or comparing raises the not-fitted error instead of showing partial or stale values.",
["histories","fault_sequences","crash_points"],"every sequence of fits with different arguments on one object, every failure and interruption point inside a fit",
"Tests fit each object once, with a model that does not fail, so stale or half-replaced state cannot appear.",
[BAS,PDM,FRI,SEJ,SPL,CMD,ADD],[("results replaced by fit",PDM+":fit"),("not-fitted gate",BAS+":plot/_compare_ovo")],
[("ovo/ova/feature_importance","results of the last fit",BAS)],["ovo","ova","feature_importance","plot","interaction_value","comparator"])
add("C07","Concurrent callers get the results they would get alone",
"When several threads explain models at the same time, sharing data frames, models, partial-dependence calculators or tree handlers (but not explainer objects), every fit that succeeds returns the same result as when run alone, under every interleaving. A model failure in one thread affects only that thread's call.",
["schedules","fault_sequences"],"every interleaving of two or three caller threads at source-line granularity, with model failures in some of them",
"All tests are single-threaded; thread switches at chosen source lines cannot be provoked by a test.",
[PDC,PDM,FRI,GRE,SEJ,SPL,CMD,IPD,IPE,ISP,ADD],[("idempotent fill of shared values",PDC+":fill_pd_*"),("no module-level mutable state","artemis/"),("per-object generator",BAS)],
[("shared calculator / tree handler","read and filled by several threads",PDC)],["results of each thread's fit"])
add("C08","Permutation-based scores come only from validly permuted data",
"Whatever permutations are drawn and whatever failed before, each data set the permutation-based methods show the model is the (sampled) data with only the scored feature, or for a joint score both features under one common row permutation, rearranged, and every other column intact. The reported permutation importances and performance-based pair interactions are exactly the averages over the requested number of repeats of the metric changes so observed, with the sign of the metric's direction, for exactly the requested features and pairs, strongest first.",
["inputs","histories","fault_sequences","configurations"],"every random permutation sequence, metric, repeat count and feature list, and every earlier failed or interrupted call on the same objects",
"The tests check only that an important feature outranks a noise feature on one data set; what the model is shown is never inspected.",
[SEJ,IPE,"artemis/_utilities/performance_metrics.py"],[("one permutation vector for all listed features",SEJ+":_permute_score"),("column restored after each score",IPE+":_corrupted_scores"),("sign for classification metrics",SEJ+":_neg_if_class")],
None,["frames the model receives","ovo","feature_importance"])
add("C09","Sampling keeps whole, distinct rows paired with their own targets",
"When a sample size n is given, every method works on exactly n distinct rows of the caller's data, each row whole and, where targets are used, matched to its own target, for every random draw and any row labels (default, shuffled, repeated, non-numeric) and target container; without n it uses all rows. Every row the model is then shown is built only from values of those sampled rows.",
["inputs","configurations","histories"],"every random draw of the sampler, every row labelling and target container, repeated and retried fits",
"Tests check only the number of rows sampled; row labels are always 0..N-1 and the pairing with the targets is never verified.",
[OPS,SEJ,PDM,IPD,ADD],[("sampling of rows and targets",OPS+":sample_if_not_none/sample_both_if_not_none")],
[("X_sampled/y_sampled","rows and targets in use",SEJ)],["X_sampled","y_sampled","frames the model receives"])
add("C10","Tree-based explanations depend only on the fitted trees",
"For any history of split-score and conditional-minimal-depth fits and importances over the same boosted or forest models and tree handlers (metrics switched, objects reused, fits interrupted at any point, threads interleaved), each completed fit reports the values defined by the trees and the selected metric: split scores per parent-child feature pair, conditional minimal depths with their occurrence counts, and feature importances, in the documented order. The model's trees and the shared handler are left as they were.",
["histories","crash_points","schedules","inputs","configurations"],"every history of fits and metric choices over shared handlers, every interruption point, every thread interleaving, every tree ensemble",
"The tree-method tests cannot run offline, and check column names and sortedness only, on fresh objects.",
[SPL,CMD,ISP,IMD,HAN],[("per-tree parent/child statistics",SPL+":_prepare_stats"),("aggregation per metric",SPL+":_get_summary"),("BFS depths and subtree bounds",CMD+":_conditional_minimal_depth"),("depths recomputed when missing",ISP+":_calculate_depth")],
[("trees_df","unified tree table shared between fits",HAN)],["ovo","full_ovo","feature_importance","trees table"])
add("C11","Method comparison reflects the two methods' current results only",
"A comparison of two fitted methods (correlations, comparison plot, its correlation box, summary) is computed from the results those two methods hold at that moment: each correlation equals the rank correlation of their pairwise interaction strengths, independent of feature names, and the plot shows each pair at its two values. Earlier comparisons, refits, failed or interrupted operations on the same comparator never show through.",
["histories","fault_sequences","crash_points"],"every sequence of comparisons, refits and failures over reused comparators and methods",
"Comparator tests cannot run offline and only check column names; the comparator is never reused or interrupted.",
[CMP,BAS,CMD],[("ranks from current tables",CMP+":_rank_interaction_values_encoded"),("box from current correlations",CMP+":comparison_plot")],
[("correlations_df / ovo_profiles_comparison_plot","last summary",CMP)],["correlation()","correlations()","comparison_plot()","summary()"])
add("C12","Model failures reach the caller and the next healthy call succeeds",
"If the model raises at any call during an explanation, the operation raises that same error to its caller without further model calls and without reporting a result; it is never swallowed or turned into numbers. Once the model is healthy again, repeating the same call on the same objects succeeds at the first attempt with the correct result, and every operation ends after a bounded number of model calls.",
["fault_sequences","histories"],"every failure point (which model call, which exception type), repeated failures, every method",
"The tests' models never fail.",
[PDC,PDM,FRI,GRE,SEJ,IPD,IPE,ADD],[("model calls are not guarded; errors propagate",PDC+":fill_pd_*"),("state is only written after a delivered batch",PDC+":fill_pd_*")],
None,["exception seen by the caller","results after retry","model call count"])
add("C13","A calculator is accepted only for the model and data it was built on",
"A fit that is handed a partial-dependence calculator uses it if and only if the calculator was built for the same model and for data equal to the data being explained; otherwise it raises ValueError before asking the model anything and leaves the calculator untouched. This includes data the caller changed in place after building the calculator.",
["histories","inputs"],"every pair of model and data (differing in any cell, row or column order, label or type) and every history of in-place changes to the caller's frame",
"No test passes a calculator at all.",
[PDM,IPD,ADD,PDC],[("model and data comparison before use",PDM+":fit"),("same in importance and additivity",IPD+":importance; "+ADD+":fit")],
[("X","data the calculator was built on",PDC)],["ValueError","model calls","calculator values"])
add("C14","Plots show the latest fit, whatever was drawn before",
"Every supported plot of a fitted explainer (heatmap, pair and one-vs-all bar charts, graph, conditional bar chart, lollipop, summary, partial-dependence profile, zenplot) displays exactly the names and values of its latest successful fit, strongest first (matrix: features by combined strength; graph: no pair thinner than a weaker one); the panels of the summary show what the single plots show. Other open figures, a changed current figure or axes, earlier plots and plots that were interrupted half way make no difference, and a plot never draws onto a figure it did not create. The scikit-learn partial-dependence display does the same for the model and data it was given.",
["histories","crash_points","configurations"],"every sequence of fits and plots sharing one plotting session, every interruption point inside a plot",
"Plot tests cannot run offline and only check that nothing raises.",
[VIS,BAS,PDM,FRI,"artemis/visualizer/_configuration.py"],[("each plot opens its own figure",VIS+":plot_*"),("values read from the result tables",VIS+":plot_*")],
[("pyplot current figure/axes","global drawing state",VIS)],["figure contents"])
add("C18","A saved and restored explainer is as good as the original",
"At any point of its history (before its first fit, between fits, after failed or interrupted ones) an explainer can be saved (pickled) and restored in another process, or deep-copied. The restored explainer shows the same results and gives the same answers to queries, plots and comparisons, its partial-dependence calculator serves the same values and can be used further, and its later fits draw the same random numbers and give the same results, to the last bit, as those of an explainer that was never saved. An original and its copies do not influence each other.",
["histories","crash_points"],"every point of every history at which the process may end or the explainer may be copied",
"No test saves an explainer; the state that has to survive depends on the whole history of fits and draws.",
[BAS,PDM,SEJ,ADD,PDC,IPE],[("all state of an explainer lives in plain attributes",BAS+":__init__"),("per-object generator",BAS+":__init__"),("calculator tables and data copy",PDC+":__init__")],
[("explainer attributes","results and generator of one explainer",BAS)],["results after restoring"])
add("C15","Explanation statistics stay within their documented ranges",
"The additivity index and the normalised interaction statistics lie in the ranges their documentation gives for every model and data set.",
["inputs"],"every model and data set","A pure numeric inequality over all inputs; tests use two data sets.",
[FRI,ADD],[("normalisation by the total variance",FRI+":_calculate_hstat_value")])
add("C16","Unsupported models, metrics and plot types are rejected",
"Asking for a plot type, metric or model family a method does not support raises the corresponding error for every combination, and every supported combination is accepted.",
["configurations"],"every combination of method, model package, metric and plot type","Tests that cover part of the table cannot run offline.",
[SPL,HAN,"artemis/visualizer/_configuration.py"],[("support tables","artemis/visualizer/_configuration.py; "+SPL)])
add("C17","Explanations are equivariant under renaming and reordering of features",
"Renaming the features or reordering the columns of the data (with the model adapted accordingly) renames and reorders the explanation and changes no value.",
["inputs"],"every renaming and column order","A relation between two inputs; tests use one naming per data set.",
[PDM,CMD,CMP],[("pairs keyed by names",PDC+":_get_pair_key")])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(p) for p in P)+"\n")
