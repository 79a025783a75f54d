#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

import props

V = os.path.dirname(os.path.abspath(__file__))
S = "include/boost/accumulators/statistics/"
F = "include/boost/accumulators/framework/"


def P(id, title, statement, over, text, why, files, mech, obs):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs,
                             hook_needed=None))


HIST = ["inputs", "histories"]
LIST = [
 P("C01", "Unweighted summary statistics equal their definitions on every stream",
   "For every finite sequence of samples of a built-in arithmetic type, the count, sum, minimum, maximum, mean, raw "
   "moments, variance, skewness, kurtosis and standard error of the mean that are read after any prefix equal their "
   "mathematical definitions over exactly the samples of that prefix, up to floating-point rounding. The lazily and the "
   "immediately evaluated variants of a statistic agree, and integral samples are averaged in floating point, not truncated.",
   HIST, "every sample sequence, every prefix at which a result is read, every arithmetic sample type, lazy and immediate variants",
   "the tests read a handful of fixed or one random normal stream at its end with wide tolerances; intermediate reads, "
   "repeated values, sign mixes, long streams and most sample types are never compared with the definition",
   [S + f for f in ("count.hpp", "sum.hpp", "min.hpp", "max.hpp", "mean.hpp", "moment.hpp", "variance.hpp",
                    "skewness.hpp", "kurtosis.hpp", "error_of_mean.hpp")] + ["include/boost/accumulators/numeric/functional.hpp"],
   [("per-feature accumulate and result functions", S), ("promotion of integral quotients", "numeric/functional.hpp: fdiv")],
   ["extractors after each accumulate call"]),
 P("C02", "Weighted summary statistics equal their definitions on every stream",
   "For every finite sequence of weighted samples, the count, sum and mean of the weights, weighted sum, weighted mean, weighted moments, "
   "variance, skewness and kurtosis read after any prefix equal their definitions with each sample counted with its weight, "
   "up to floating-point rounding, in the lazy and in the immediate variants. Requesting the unweighted name of a statistic "
   "in a set that has a weight type gives the weighted statistic.",
   HIST, "every sequence of (sample, weight) pairs with non-negative weights, every prefix, sample and weight types",
   "the tests push four or so fixed pairs per statistic",
   [S + f for f in ("weighted_sum.hpp", "weighted_mean.hpp", "weighted_moment.hpp", "weighted_variance.hpp",
                    "weighted_skewness.hpp", "weighted_kurtosis.hpp", "sum.hpp", "mean.hpp")] + ["include/boost/accumulators/statistics_fwd.hpp"],
   [("as_weighted_feature substitution", F + "accumulator_set.hpp, statistics_fwd.hpp"), ("weighted recursions", S)],
   ["extractors after each accumulate call"]),
 P("C03", "Statistics of variates and covariance equal their definitions on every stream",
   "For every sequence of samples with an associated variate (and optionally a weight), the sum and the mean of the variate and "
   "the covariance of sample and variate read after any prefix equal their definitions over that prefix, up to rounding, "
   "in lazy and immediate variants. The variate never influences the statistics of the sample, nor the sample those of the variate.",
   HIST, "every sequence of (sample, variate[, weight]) tuples and every prefix",
   "the tests use three fixed tuples",
   [S + f for f in ("covariance.hpp", "weighted_covariance.hpp", "mean.hpp", "sum.hpp", "weighted_mean.hpp", "weighted_sum.hpp", "variates/covariate.hpp")],
   [("variate-tagged sums and means", S)], ["extractors after each accumulate call"]),
 P("C04", "Rolling statistics describe exactly the last N samples",
   "With a window of size N, after any sequence of samples the rolling window lists exactly the last min(n, N) samples in order "
   "of arrival, and rolling count, sum, mean, moments and (unbiased) variance are those of exactly these samples, up to rounding. "
   "Lazy and immediate variants agree, however long the stream and wherever the window wraps.",
   HIST + ["configurations"], "every sample sequence, every window size >= 1, every prefix, integral and floating samples",
   "the tests use windows of 3 to 5 and about a dozen samples; wrap-around phases, window size 1 and unsigned samples are barely touched",
   [S + f for f in ("rolling_window.hpp", "rolling_count.hpp", "rolling_sum.hpp", "rolling_mean.hpp", "rolling_moment.hpp", "rolling_variance.hpp")],
   [("ring buffer of N+1 samples", S + "rolling_window.hpp"), ("incremental update with the outgoing sample", S + "rolling_sum.hpp, rolling_mean.hpp, rolling_variance.hpp")],
   ["rolling extractors after each accumulate call"]),
 P("C05", "A tail holds the extreme samples, with their own weights and variates",
   "After any sequence of samples, the right (left) tail with cache size N lists the min(n, N) largest (smallest) samples in "
   "descending (ascending) order, whatever the arrival order, ties and intermediate reads. Every tail weight and tail variate, "
   "at each position, is the one that was pushed together with the sample listed at that position.",
   HIST + ["configurations"], "every sample order, ties, every cache size, reads interleaved anywhere, left and right tails with any variates",
   "the tests push a short fixed permutation and read in the end",
   [S + f for f in ("tail.hpp", "tail_variate.hpp")],
   [("index heap with indirect comparison, sorted on demand", S + "tail.hpp"), ("visit_if over the tail variates on replacement", S + "tail.hpp, tail_variate.hpp")],
   ["tail, tail_weights, tail_variate extractors"]),
 P("C06", "Unweighted tail statistics equal the order-statistics definitions",
   "Whenever the cache suffices, the tail quantile, the non-coherent and coherent tail means and the absolute and relative tail variate "
   "means at probability p equal their order-statistics definitions over all n samples (rank ceil(n p) on the left, ceil(n (1-p)) on the right). "
   "When the cache does not suffice, no number is invented: the result is NaN, or an exception for types without NaN.",
   HIST + ["configurations"], "every stream, cache size, tail side, probability, sample type",
   "the tests compare one long random stream with asymptotic values",
   [S + f for f in ("tail_quantile.hpp", "tail_mean.hpp", "tail_variate_means.hpp", "tail.hpp")],
   [("rank computation and accumulation over the sorted tail", S)], ["quantile, tail_mean, non_coherent_tail_mean, tail_variate_means extractors"]),
 P("C07", "Weighted tail statistics equal the weighted order-statistics definitions",
   "Whenever the cache suffices, the weighted tail quantile, weighted non-coherent tail mean and weighted absolute and relative tail variate means at "
   "probability p are those of the smallest set of extreme samples whose weights reach the requested share of the total weight. When the "
   "cached weights do not reach that share the result is NaN or an exception, and the request always terminates.",
   HIST + ["configurations"], "every weighted stream, cache size, tail side and probability",
   "the tests use one long importance-sampled stream and asymptotic values",
   [S + f for f in ("weighted_tail_quantile.hpp", "weighted_tail_mean.hpp", "weighted_tail_variate_means.hpp")],
   [("cumulative weight search over the sorted tail", S)], ["quantile, non_coherent_tail_mean, tail_variate_means extractors"]),
 P("C08", "Dropping stops exactly the accumulators nothing else needs",
   "After a droppable feature is dropped its accumulator sees no further sample, together with those of its droppable dependencies "
   "that no other live feature needs; every other accumulator keeps accumulating every sample, "
   "for every order of samples, drops and reads. A dropped feature remains readable.",
   HIST + ["configurations"], "every interleaving of samples, drops and reads over sets mixing droppable and plain features with shared dependencies",
   "the tests drop one feature at a time in three fixed scenarios",
   [F + "accumulators/droppable_accumulator.hpp", F + "accumulator_set.hpp", F + "depends_on.hpp"],
   [("reference counts raised at construction and lowered by drop", F + "accumulators/droppable_accumulator.hpp")], ["drop and the extractors"]),
 P("C09", "Dependencies are resolved once, in order, however features are listed",
   "For every acyclic set of features, requesting any subset in any order (nested, repeated or abbreviated) yields a set that contains exactly the "
   "requested features and their transitive dependencies once each, and every accumulator sees each sample exactly once, after all its dependencies have. Construction arguments "
   "and per-sample parameters reach every accumulator by name, in whatever order and number they are passed, arguments of an extractor reach the accumulator it asks, and "
   "an accumulator finds in the set the accumulator of each feature it depends on.",
   ["programs", "configurations", "inputs"], "every dependency graph and every list of requested features; every order of named arguments",
   "each distinct request is a distinct C++ type; the tests instantiate a few",
   [F + "depends_on.hpp", F + "accumulator_set.hpp", F + "features.hpp", F + "external.hpp", "include/boost/accumulators/accumulators_fwd.hpp"],
   [("topological insertion of dependencies", F + "depends_on.hpp"), ("ordered visitation", F + "accumulator_set.hpp")],
   ["order in which instrumented accumulators are constructed and called"]),
 P("C10", "Saving and loading an accumulator set preserves all future behaviour",
   "For every history, saving an accumulator set to an archive and loading it into a set of the same type, whatever that set has accumulated or was constructed with before, yields a set that returns the same results as the "
   "original now and after every further sequence of samples. Saving does not change the original.",
   HIST, "every serialisable feature, every point of the history at which the set is saved, every continuation",
   "the persistency tests save a set once and compare one result, without continuing the stream",
   [F + "accumulator_set.hpp", S], [("serialize members", F + "accumulator_set.hpp and " + S)], ["serialize with text and binary archives, then pushes and extractors on both"]),
 P("C11", "Copies of an accumulator set are equal at the copy and independent afterwards",
   "A copy-constructed or copy-assigned accumulator set returns the same results as its source at that point and after equal continuations. "
   "Samples, reads or drops on either of them never influence the other.",
   HIST + ["schedules"], "every feature, every history before the copy, every interleaving of operations on original and copies afterwards",
   "no test copies a set in mid-stream except for one regression on tails",
   [F + "accumulator_set.hpp", S + "tail.hpp", S + "p_square_cumul_dist.hpp", S + "density.hpp", S + "extended_p_square.hpp", F + "accumulators/droppable_accumulator.hpp"],
   [("copy constructors of the accumulators", S)], ["extractors on both objects"]),
 P("C12", "Reading a result never changes any present or future result",
   "Extracting any result, any number of times and with any parameters, never changes what any extractor returns then or after later samples: results depend only on the "
   "samples accumulated (and the parameters passed), not on which results were read before.",
   HIST + ["schedules"], "every feature, every placement of reads in the stream",
   "the tests extract each result once, at the end",
   [S + f for f in ("tail.hpp", "density.hpp", "median.hpp", "p_square_cumul_dist.hpp", "extended_p_square.hpp", "peaks_over_threshold.hpp", "tail_variate_means.hpp")],
   [("mutable caches behind dirty flags", S)], ["two sets fed alike, one of them read in between"]),
 P("C13", "A density histogram accounts for every sample exactly once",
   "Once the cache has filled, the density (weighted density) has num_bins equally wide bins spanning the first cache_size samples plus an underflow "
   "and an overflow bin, and every bin's value is the share of all samples so far (of all weight) that fall into it. Values sum to one, and no sample is lost or counted twice.",
   HIST + ["configurations"], "every stream, cache size and number of bins, samples on bin borders, outside the range and all-equal caches",
   "the tests compare one long normal stream with the Gaussian density to loose tolerances",
   [S + "density.hpp", S + "weighted_density.hpp"], [("cache, then binning by upper_bound", S + "density.hpp")], ["density extractor"]),
 P("C14", "The P-square quantile and median follow the published algorithm on every stream",
   "For every stream, the P-square quantile estimate for a probability p, and the P-square median, read after any prefix is the middle marker height of the P-square algorithm "
   "(weighted: its weighted generalisation) executed on that prefix, from the fifth sample on.",
   HIST + ["configurations"], "every stream including ties and sorted input, every probability, every prefix",
   "the tests compare an estimate over 10^4 or more random samples with the true quantile to 1e-2",
   [S + "p_square_quantile.hpp", S + "weighted_p_square_quantile.hpp", S + "median.hpp", S + "weighted_median.hpp"],
   [("marker adjustment", S + "p_square_quantile.hpp")], ["p_square_quantile, median extractors"]),
 P("C15", "P-square distribution and extended P-square estimates follow their algorithm",
   "For every stream, the P-square cumulative distribution, the extended P-square quantiles and the interpolated extended P-square quantile (linear or quadratic, "
   "weighted or not) read after any prefix are those of the published algorithms executed on that prefix: marker heights never decrease, the outer markers are the extrema, and "
   "probabilities outside the range of the markers give NaN or an exception.",
   HIST + ["configurations"], "every stream, number of cells, set of probabilities, prefix",
   "the tests compare estimates over long random streams with true values to 1e-2 or more",
   [S + f for f in ("p_square_cumul_dist.hpp", "weighted_p_square_cumul_dist.hpp", "extended_p_square.hpp", "weighted_extended_p_square.hpp", "extended_p_square_quantile.hpp")],
   [("marker adjustment and interpolation", S)], ["p_square_cumulative_distribution, extended_p_square, extended_p_square_quantile extractors"]),
 P("C16", "Peaks-over-threshold fits use exactly the samples beyond the threshold",
   "For every stream, the fit parameters of the peaks-over-threshold method read after any prefix, and the quantiles and tail means derived from them, are those given by the documented moment estimators over "
   "exactly the samples of that prefix beyond the threshold value (or beyond the sample quantile at the threshold probability), with their weights, for right and left tails.",
   HIST + ["configurations"], "every stream, threshold, threshold probability, tail side, weighting and prefix",
   "the tests compare fits of long random streams with asymptotic quantiles, reading once",
   [S + f for f in ("peaks_over_threshold.hpp", "weighted_peaks_over_threshold.hpp", "pot_quantile.hpp", "pot_tail_mean.hpp")],
   [("running sums beyond the threshold, fit on demand", S + "peaks_over_threshold.hpp")], ["peaks_over_threshold, quantile, tail_mean extractors"]),
 P("C17", "External, reference and value accumulators behave as if they were inside the set",
   "A set whose weights or other features are external returns, with the owning set passed at the call, exactly what it would return if it owned them and had seen the same samples; an external feature is never fed twice. A reference accumulator "
   "always shows the current value of the variable it is bound to, a value accumulator the value given at construction.",
   HIST, "every interleaving of samples to the owning and dependent sets and of changes to the referenced variable",
   "the tests use one fixed scenario each",
   [F + "accumulators/external_accumulator.hpp", F + "accumulators/reference_accumulator.hpp", F + "accumulators/value_accumulator.hpp", F + "external.hpp"],
   [("lookup of the external feature in the passed set", F + "accumulators/external_accumulator.hpp")], ["accumulator_set with external weights; reference and value extractors"]),
 P("C18", "Statistics of compound samples act element by element",
   "For samples (or variates) that are vectors, arrays or complex numbers, count, sum, mean, moments, variance, weighted forms, extrema where defined, rolling sums and means and covariance equal, element by element, what "
   "they are for the stream of that element; the covariance of vectors is the matrix of pairwise covariances.",
   HIST, "every stream of compound samples of every dimension",
   "the tests use two- and three-dimensional fixed samples",
   ["include/boost/accumulators/numeric/functional.hpp", "include/boost/accumulators/numeric/functional/vector.hpp", "include/boost/accumulators/numeric/functional/valarray.hpp",
    "include/boost/accumulators/numeric/functional/complex.hpp", S + "covariance.hpp"],
   [("overloaded numeric functionals", "include/boost/accumulators/numeric")], ["extractors on sets with std::vector, std::valarray and std::complex samples"]),
 P("C19", "Compensated sums lose no small addends",
   "For every stream of floating-point samples the compensated (Kahan) sum, sum of weights, sum of variates, weighted sum and mean stay within a few units in the last place of the exact sum of magnitudes, "
   "independently of the number of samples, and agree with the uncompensated feature up to its rounding.",
   HIST, "every stream, in particular long streams of small addends after large ones",
   "the tests use one stream of identical small addends",
   [S + "sum_kahan.hpp", S + "weighted_sum_kahan.hpp"], [("running compensation", S + "sum_kahan.hpp")], ["sum_kahan and weighted_sum_kahan extractors"]),
 P("C20", "Numeric helpers promote, compare and divide as documented for every operand",
   "The numeric function objects the statistics are built on (arithmetic, comparison, averaging, minimum and maximum assignment, promotion, zero and one) give on every pair of operands the mathematical result: integral operands of "
   "an average or floating division are divided in floating point, compound operands are combined element by element.",
   ["inputs"], "every operand value and operand type combination (built-in arithmetic, complex, vector, valarray)",
   "the tests check a handful of literals",
   ["include/boost/accumulators/numeric/functional.hpp", "include/boost/accumulators/numeric/functional/vector.hpp", "include/boost/accumulators/numeric/functional/valarray.hpp", "include/boost/accumulators/numeric/functional/complex.hpp"],
   [("numeric functionals", "include/boost/accumulators/numeric")], ["numeric::plus, minus, multiplies, divides, modulus, fdiv, min_assign, max_assign, as_min, as_max, as_zero, as_one, promote"]),
 P("C21", "Density and distribution based medians interpolate inside the right bin",
   "For every stream the median obtained from a density histogram or from a P-square cumulative distribution (weighted or not) is the point where the piecewise-linear cumulative distribution described by that histogram or those markers reaches one half, "
   "and it stays so when it is read repeatedly and between samples.",
   HIST + ["configurations"], "every stream, bin count, cache size and prefix after which the median is read",
   "the tests compare one long symmetric stream with its centre, reading once",
   [S + "median.hpp", S + "weighted_median.hpp"], [("search for the bin that crosses one half", S + "median.hpp")], ["median extractor of the density and cdf variants"]),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in LIST:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in LIST:
        i = p["id"]
        if i in props.PROPS:
            checks.append(dict(
                property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                thorough_cmd="python3 run.py %s --tier thorough" % i,
                evidence_file="evidence/%s.json" % i,
                technique="TLA+ specification model-checked with TLC; TLC-generated behaviours replayed on the library and the recorded traces validated against the specification",
                level="model_checking",
                level_note=props.PROPS[i].get("note", "The property is checked on the specification by TLC within stated bounds and, for the code, on every replayed "
                           "behaviour (seeded, generated from the specification); histories outside the replayed ones are not covered. Trusted: TLC, the rational arithmetic override, the compiler, the harness.")))
        else:
            na.append(dict(property=i, reason="check under construction"))
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
             notes="No hooks are needed in the library. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
