"""Writes known_findings.txt from the fix: commits of /repo and the descriptions below."""
import subprocess
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
M = [
 ("read predictions by position", "C01", "a model returning a labelled Series over data with repeated or unordered row labels: slices of the batch were taken by label and averaged the wrong rows"),
 ("permutation importance over all", "C08", "PermutationImportance.importance(features=None) raised TypeError instead of scoring all features"),
 ("pair sampled rows", "C09", "a sample of data with non-default row labels took targets by label position: rows were paired with the targets of other rows or an error was raised"),
 ("calculator keeps its own copy", "C13", "data changed in place after a calculator was built changed the calculator's data as well, so it was accepted with values of the old data"),
 ("max_leaf_nodes", "C10", "conditional minimal depth of best-first trees (max_leaf_nodes): node numbers are not in level order and depths were wrong"),
 ("joined names agree", "C10", "conditional minimal depth of features such as 'a', 'b:a', ...: different pairs whose joined names agree were mixed"),
 ("follows its random_state", "C05", "SejongOhMethod(random_state=s): the feature importances were drawn from an unseeded generator and differed between runs"),
 ("raise the not-fitted", "C06", "profile and zenplot of an unfitted or failed method raised AttributeError/TypeError instead of the not-fitted error"),
 ("without one-vs-all values can be plotted", "C06", "FriedmanHStatisticMethod.fit(calculate_ova=False) could not be plotted at all"),
 ("failed or repeated partial dependence", "C06", "a refit with calculate_ova=False kept the one-vs-all table of the previous fit; a failed refit kept previous tables beside new ones"),
 ("failed performance based", "C06", "a refit of SejongOhMethod that failed left the previous interactions and importances in place"),
 ("failed additivity", "C06", "a failed refit of AdditivityMeter left the previous index beside the new sampled data"),
 ("failed split score fit", "C06", "a failed refit of SplitScoreMethod left tables of two fits side by side"),
 ("failed conditional minimal depth", "C06", "a failed refit of ConditionalMinimalDepthMethod left tables of two fits side by side"),
 ("does not mix results of two", "C06", "a failed second SplitScoreImportance call left the new metric's direction beside the previous importances"),
 ("rank correlation compares", "C11", "the rank correlation compared the positions of different pairs in the two tables instead of each pair's two ranks"),
 ("correlation box belongs", "C11", "an interrupted comparison left the correlation box of the previous methods for the next plot"),
 ("bar charts in a summary", "C14", "the bar chart panels of a summary inverted the axes of whatever was current (strongest last, other panels flipped)"),
 ("shows the title", "C14", "the one-vs-all bar chart ignored its title"),
 ("summary ranks", "C14", "the graph and matrix of a summary were ranked in the wrong direction for depth-based methods"),
 ("heatmap diagonal", "C14", "a heatmap of a method with self-interactions showed those on the diagonal instead of the importances"),
 ("unknown importance", "C14", "a heatmap raised when a feature had no importance"),
 ("interaction graph of", "C14", "the graph raised for features without interactions or without importance"),
 ("heatmap of a single", "C14", "a heatmap of one feature raised"),
 ("labels its last panel", "C14", "the last panel of a zenplot whose path could have continued was labelled with the second feature of the next, undrawn pair"),
 ("draws the edges of the strongest", "C14", "the graph of an explainer with one pair (or equally strong pairs) drew no edge (width NaN), and for depth-based methods the strongest pair got width 0"),
 ("differ only in case", "C14", "a heatmap over features whose names differ only in case ordered one of them by the other's strength"),
 ("targets and predictions by position", "C09", "a model answering with a labelled Series and targets in a Series with other labels: metrics matched predictions to targets by label (wrong or NaN scores, or an error with Accuracy)"),
 ("no more pairs than the path", "C14", "plot_zenplot raised IndexError when the explainer has no more pairs than the path is long (default length, four features or fewer)"),
 ("hands its axes to scikit-learn", "C14", "every PartialDependenceVisualizer.plot raised TypeError (unknown argument _ax)"),
 ("large integers", "C01", "data mixing integer columns beyond 2**53 with float columns: all-but-one rows were built through floats, so the model was asked about values that are not in the data"),
]
out = ["# Genuine defects of pyartemis/artemis found by the checks. 'fixed' entries suppress nothing; there are no unrepaired findings."]
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    ids = [(i, d) for k, i, d in M if k in s]
    assert len(ids) == 1, (s, ids)
    out.append("fixed: property=%s %s %s" % (ids[0][0], h, ids[0][1]))
open('/verif/known_findings.txt', 'w').write("\n".join(out) + "\n")
