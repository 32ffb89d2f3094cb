"""Run counts and descriptions of the checks."""
from .engine import register

register("C01", 2400, 40000, "One case is one seeded run: 1-2 data sets, 1-3 models, 3-24 calculator operations (new, single, pairs, minus, fits, save/restore, "
         "deep copy) with model failures, NaN answers, interruptions, clock jumps and checkpoints; all served values are compared with direct means. "
         "Non-trivial: a healthy computation was verified in a run with a fault, several calculators or more than three operations; distinct by operation/outcome history.")
register("C02", 1800, 40000, "One case is one seeded run of 2-16 fits and calculator operations over 1-2 data sets and 1-3 models (shared, partly filled, restored calculators; all "
         "batch sizes, feature subsets and orders; model failures, NaN answers, interruptions). Every successful fit is compared with its definition. Non-trivial: at least one "
         "fit was verified on a shared calculator or after a fault; distinct by operation/outcome history.")
register("C03", 1800, 40000, "One case is one seeded run of fits and calculator operations, repeated and retried after model failures, with a ledger of rows the model delivered to each "
         "calculator against the rows everything ever requested needs. Non-trivial: a repeat on filled tables or a retry after partial delivery happened; distinct by operation/outcome history.")
register("C08", 1800, 40000, "One case is one seeded run of 1-8 permutation-importance and performance-based fits (metrics, repeats, samples, target containers, failed and repeated calls); "
         "each data set shown to the model is recorded and all reported numbers are recomputed from it. Non-trivial: at least one completed fit was reconstructed; distinct by operation/outcome history.")
register("C09", 2400, 40000, "One case is one seeded run of 1-6 fits with and without a sample size over data with default, shuffled, repeated, non-numeric, negative and float row labels and several "
         "target containers. Non-trivial: at least one completed fit with a sample size; distinct by operation/outcome history.")
register("C12", 1800, 40000, "One case is one seeded run of fits, calculator computations and permutation fits in which the model raises (17 exception types, any call), each followed by healthy repeats "
         "on the same objects. Non-trivial: at least one failure was delivered and a later healthy call was verified; distinct by operation/outcome history.")
register("C13", 2400, 40000, "One case is one seeded run of 2-9 attempts to use calculators with the same, equal or different models and data, including data changed in place, after partial and failed "
         "computations. Non-trivial: at least one mismatching attempt was judged; distinct by operation/outcome history.")
register("C10", 900, 15000, "One case is one seeded run: 1-2 real models (xgboost, lightgbm, random forests, extra trees; depth- or leaf-wise) trained from the plan, 1-14 split-score, "
         "conditional-minimal-depth and importance operations with switched metrics, reused explainers and handlers, retraining, interruptions and failing tree dumps, then sometimes 2-3 "
         "interleaved threads. All values are recomputed from the trees. Non-trivial: more than one completed operation or one after a fault; distinct by operation/outcome history.",
         real=["all artemis code from /repo's working tree", "xgboost, lightgbm, scikit-learn forests trained in the run", "pandas, numpy, tqdm as installed"],
         stub=["clock, OS entropy, stderr, thread choice, interruption points, failing tree dumps (simulator)"])
register("C05", 1500, 40000, "One case is one seeded run: 1-3 explainers with fixed random_state driven through 1-6 fits (some failing in the model) twice on equal inputs, the second time with other entropy, "
         "global seeds, clock jumps, progress display and foreign explainers (some failing) in between and inside model calls; all results compared to the last bit, and the digest compared "
         "between two interpreters with different PYTHONHASHSEED. Non-trivial: at least one fit succeeded in both executions; distinct by operation/outcome history.", cross=True)
register("C06", 1500, 20000, "One case is one seeded run: one explainer of 9 kinds driven through 2-5 fits on different models, data and options, some rejected, failing in the model or interrupted at a "
         "chosen line (dense near the end of the fit). After every fit the shown results are compared with the definitions (success) or with complete snapshots of every fit so far (failure), and "
         "plots, queries and comparisons are tried. Non-trivial: a success and a failure, or two successes; distinct by operation/outcome history.")
register("C04", 1600, 30000, "One case is one seeded run: 1-3 explainers of 9 kinds over shared data frames, target containers, feature lists, pair lists, tree models and tree tables, driven through 2-12 fits, "
         "calculator computations, plots, queries and comparisons, some rejected, failing in the model or interrupted. Everything the caller owns is compared bit for bit with its state at hand-over at every model "
         "call and after every operation; result tables of fitted explainers before and after every look at them. Non-trivial: at least one operation was judged; distinct by operation/outcome history.")
register("C07", 1500, 30000, "One case is one seeded run: 2-4 threads with 1-4 fits each of 9 explainer kinds over shared data frames, models, tree handlers and 0-2 shared, partly filled calculators, "
         "interleaved at artemis source lines and model calls by the seeded scheduler, some calls failing in the model. Each success is compared with the definition or bit for bit with the same call alone; "
         "shared calculators and frames are checked at the end. Non-trivial: more than one call succeeded; distinct by operation/outcome history.")
register("C11", 1200, 20000, "One case is one seeded run: 2-3 interaction methods (model-agnostic over worlds with the same features, or split score and conditional minimal depth over models with the same features), 1-2 "
         "comparators, 4-12 fits, refits, correlations, comparison plots and summaries, some interrupted at a chosen line. Each result is compared with rank correlations of the strengths the methods hold at that moment; points, "
         "labels, axis directions and the correlation box are read back from the figure. Non-trivial: at least one comparison was judged; distinct by operation/outcome history.")
register("C14", 1000, 15000, "One case is one seeded run: 1-2 interaction explainers of 5 kinds, 2-12 fits, plots (heatmap, bar charts, graph, summary, lollipop, conditional bars, profiles; default and other options), "
         "some interrupted at a chosen line, mixed with foreign figures, changed current figures and axes, closed figures and rc settings. Every finished plot is read back from its artists and compared with the tables "
         "(profiles: with the model's means); every other figure must be untouched. Non-trivial: a plot was judged after other plots, figures or fits; distinct by operation/outcome history.")
register("C18", 1200, 20000, "One case is one seeded run: the story of 1-2 explainers of 9 kinds (fits, failing and interrupted fits, queries, plots, comparisons, reuse of their calculators) told once without and once with cuts: "
         "all explainers pickled and the process replaced by one forked before the story began, or pickled/deep-copied in the process with originals and copies going different ways. Everything shown at every step is compared to the "
         "last bit. Non-trivial: a fit was verified and a step was judged after a cut; distinct by operation/outcome history.")
