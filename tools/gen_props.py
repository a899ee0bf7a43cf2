"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

I, C, H = "inputs", "configurations", "histories"

p("C01", "Least squares returns the exact least-squares solution, NaN for dropped",
  "For every outcome vector, the linear-model solver's coefficients make the residuals orthogonal to every regressor it kept, residuals and fitted values add up to the outcome, and the fitted values are the projection on the full column space. A linearly dependent column gets a NaN coefficient and NaN variance (or an error when asked to raise) while the others are the least-squares fit of the kept columns, in their original positions.",
  [I, C], "all real outcome vectors; designs of full and deficient rank, every column order of the dependent column, each rank-deficiency policy",
  "Tests fit a handful of random designs and compare loosely with known coefficients; a wrong answer for particular column patterns or outcome values is not sampled.",
  ["diff_diff/linalg.py"], [("OLS solve, pivoted rank detection, expansion of dropped coefficients", "diff_diff/linalg.py")], ["solve_ols", "LinearRegression"])
p("C02", "Robust and clustered variances are the exact sandwich estimators",
  "For every set of residuals, the heteroskedasticity-robust covariance is n/(n-k) (X'X)^-1 (sum of u_i^2 x_i x_i') (X'X)^-1 and the cluster-robust covariance is (G/(G-1))((n-1)/(n-k)) (X'X)^-1 (sum over clusters of s_g s_g') (X'X)^-1 with s_g the cluster score sum. Neither depends on observation order, on cluster labels or on whether clusters are contiguous, and fewer than two clusters is an error. The classical covariance is (RSS/(n-k)) (X'X)^-1. When columns are linearly dependent, all of these hold for the columns kept, with k their number.",
  [I, C], "all real residual/outcome vectors; cluster partitions including singletons, interleaved and non-integer labels",
  "Tests check symmetry, shape and approximate size on random data; an error in one cluster pattern or in a correction factor stays inside their tolerances.",
  ["diff_diff/linalg.py"], [("sandwich computation", "diff_diff/linalg.py")], ["compute_robust_vcov", "solve_ols"])
p("C03", "Basic DiD estimate is the double difference of cell means",
  "For every outcome, the two-by-two difference-in-differences estimate without covariates equals (treated post mean - treated pre mean) - (control post mean - control pre mean), whatever the cell sizes and row order. With covariates or fixed-effect dummies it equals the interaction coefficient of the corresponding least-squares regression, its standard error is the classical, robust or clustered one the configuration asks for, absorbing fixed effects gives what including their dummies gives (balanced or not; clustered standard errors aside), and the formula interface gives the same results as the column-name interface.",
  [I, C], "all real outcomes and effects; unequal cells, row orders, classical/robust/cluster variance, covariates, dummy fixed effects, formula or column interface",
  "Tests use simulated data with loose tolerances or one fixed data set; no test quantifies over outcomes or over configurations jointly.",
  ["diff_diff/estimators.py", "diff_diff/linalg.py", "diff_diff/utils.py"], [("design construction, interaction coefficient, formula parser", "diff_diff/estimators.py")], ["DifferenceInDifferences.fit"])
p("C04", "Reported inference is coherent for every estimate and standard error",
  "For every estimate and positive standard error, the reported t-statistic is estimate / standard error, the p-value is the two-sided tail probability of that statistic and the confidence interval is estimate +/- critical value times standard error with the same reference distribution, so that the interval at level 1-alpha excludes zero exactly when p < alpha. When the standard error is zero or undefined the t-statistic and p-value are NaN (for a perfect fit of a plain regression: +/-inf and 0) and never 0 and 1 or any other finite number that looks like a test result.",
  [I, C], "all real estimates and standard errors (including zero), all alpha in (0,1) per estimator that reports analytical inference",
  "Tests check a few values; the link between p-value and interval, and the zero-standard-error edge, must hold for every estimate of every estimator.",
  ["diff_diff/utils.py", "diff_diff/linalg.py", "diff_diff/estimators.py", "diff_diff/triple_diff.py", "diff_diff/sun_abraham.py", "diff_diff/staggered.py", "diff_diff/diagnostics.py", "diff_diff/trop.py"],
  [("t-statistic, p-value and interval computation", "diff_diff/utils.py, diff_diff/linalg.py and each estimator's fit")], ["*.Results"])
p("C05", "Multi-period DiD effects are DiDs against the pooled pre-periods",
  "For every outcome on a balanced panel, each post-period effect equals the treated-control gap in that period minus the average treated-control gap over all pre-treatment periods, independent of the chosen reference period. With covariates, fixed effects or absorbed effects they are the interaction coefficients of the corresponding regression. The average effect is their mean and its standard error is that of the mean under the full covariance matrix of the period effects.",
  [I, C], "all real outcomes; numbers of pre and post periods, reference period choice, unequal group sizes, variance types",
  "Tests check approximate recovery of one simulated effect; a wrong period, wrong weight or ignored covariance terms changes results within noise.",
  ["diff_diff/estimators.py"], [("period dummies, interactions, averaging", "diff_diff/estimators.py")], ["MultiPeriodDiD.fit"])
p("C06", "Two-way fixed effects equals the full dummy-variable regression",
  "For every outcome on a panel, balanced or not, the two-way fixed-effects treatment estimate equals the coefficient on the product of the treatment and time columns in the regression with a dummy for every unit and every value of the time column, for any number of units and periods and any covariates; for a 0/1 time column this is the double difference of means. Its standard error is clustered (by unit unless told otherwise), the within transformation removes any unit-constant and any period-constant component from a variable, and the caller's data frame is left unchanged.",
  [I, C], "all real outcomes and covariates on balanced panels of several shapes",
  "Tests check sign and rough size; equality with the dummy regression for every outcome is never asserted.",
  ["diff_diff/twfe.py", "diff_diff/utils.py"], [("within transformation and regression on demeaned variables", "diff_diff/twfe.py")], ["TwoWayFixedEffects.fit", "within_transform", "demean_by_group"])
p("C07", "Group-time effects use only valid comparisons and the right base period",
  "For every outcome, the staggered estimator's effect for cohort g in period t (without covariates) is the cohort's mean outcome change from the base period minus the same change averaged over the comparison units: never-treated units, or units not yet treated by t when so configured, never units of the cohort itself. The base period is the last period before treatment (shifted by the anticipation horizon) for post-treatment periods and, in pre-treatment periods, that period or the immediately preceding one according to the base-period option. Without covariates every estimation method reports the same effect with standard error sqrt(s_t^2/n_t + s_c^2/n_c), the two-sample standard error of the change in means. With covariates, taken at the base period, outcome regression subtracts the change predicted from the comparison units' regression, inverse-probability weighting weights comparison units by their (clipped) logit odds, and the doubly robust estimate combines both; a comparison with incomplete covariates falls back to the unconditional estimate.",
  [I, C], "all real outcomes; cohort structures with several cohorts, control-group choice, base-period choice, anticipation 0-2, irregular panels, all estimation methods",
  "Tests check average recovery in simulated data; the exact comparison set and base period for each cell, for every cohort structure, is not enumerated.",
  ["diff_diff/staggered.py"], [("group-time effect computation", "diff_diff/staggered.py")], ["CallawaySantAnna.fit(...).group_time_effects"])
p("C08", "Aggregated staggered effects are cohort-size-weighted averages",
  "For every set of group-time effects, the overall effect is the average of post-treatment group-time effects weighted by cohort size, each event-time effect is the cohort-size-weighted average of the group-time effects at that relative time, and each cohort effect is the plain average of that cohort's post-treatment effects. Their standard errors are computed from the corresponding weighted combination of unit-level influence contributions (including the estimated-weight term), so duplicated units or correlations across cells are accounted for.",
  [I, C], "all real outcomes; cohort structures and sizes, event-time windows, aggregations",
  "Tests compare to simulated effects with wide tolerance; wrong weights or wrong membership of a cell in an aggregate survive them.",
  ["diff_diff/staggered_aggregation.py", "diff_diff/staggered.py"], [("simple, event-study and group aggregation", "diff_diff/staggered_aggregation.py")], ["CallawaySantAnna.fit(..., aggregate='all')"])
p("C09", "Staggered results do not depend on labels, order or the never-treated code",
  "For every outcome, the staggered estimators give the same effects and standard errors when rows are reordered, units are relabelled or all calendar periods are shifted, and when never-treated units are coded as infinity instead of 0. Adding a constant to all outcomes, or any common period shock, leaves every effect and standard error unchanged, and scaling outcomes scales them.",
  [I, C], "all real outcomes, shocks and constants; permutations, relabellings, index labels and codings on staggered panels for each staggered estimator",
  "Tests use integer unit ids, default row order and one coding; metamorphic relations over all outcomes are not tested.",
  ["diff_diff/staggered.py", "diff_diff/staggered_aggregation.py", "diff_diff/sun_abraham.py", "diff_diff/bacon.py"], [("cohort bookkeeping", "diff_diff/staggered.py, diff_diff/sun_abraham.py")], ["CallawaySantAnna.fit", "SunAbraham.fit"])
p("C10", "Multiplier bootstrap perturbs each aggregate by its influence function",
  "For every realisation of the bootstrap weights, each bootstrapped group-time effect is the estimate plus the weighted sum of unit influence contributions, and every aggregate of a draw is the same weighted combination of them that defines the point estimate. Bootstrap weights follow mean-zero unit-variance two-point (Rademacher, Mammen) or six-point (Webb) laws, intervals and standard errors are the percentiles and standard deviation of the draws, and the p-value is symmetric two-sided, lies in (0,1] and uses only finite draws.",
  [I, C, H], "all real bootstrap weights and influence values; cohort structures; weight laws",
  "Randomised tests cannot tie one draw to its defining linear combination and check p-values only for range.",
  ["diff_diff/staggered_bootstrap.py"], [("multiplier bootstrap", "diff_diff/staggered_bootstrap.py")], ["CallawaySantAnna(n_bootstrap>0).fit"])
p("C11", "Interaction-weighted event study equals weighted cohort-specific DiDs",
  "For every outcome on a balanced panel with never-treated units, each cohort-by-relative-time effect equals the cohort's mean outcome change from the reference period minus that of the never-treated units, each event-study effect is their average weighted by each cohort's share of the treated units observed at that relative time (weights sum to one), and the overall effect is the average over post-treatment relative times weighted by the treated units observed at each (undefined when there is none). With covariates or missing rows the cohort effects are those of the saturated two-way fixed-effects regression. Standard errors follow from the covariance matrix of the underlying regression.",
  [I, C], "all real outcomes; cohort structures and sizes, anticipation",
  "Tests check recovery of a simulated effect with tolerance; exact weights and reference period across structures are not pinned.",
  ["diff_diff/sun_abraham.py"], [("saturated regression and interaction weights", "diff_diff/sun_abraham.py")], ["SunAbraham.fit"])
p("C12", "Goodman-Bacon weights sum to one and reproduce the two-way estimate",
  "For every outcome on a balanced staggered panel, each component comparison is the two-by-two difference-in-differences of the right groups over the right window (treated vs never-treated, earlier vs later before the later is treated, later vs already-treated earlier), weights are non-negative and sum to one. The default approximate weights are proportional to group shares, treatment variance and share of periods covered. With exact weights the weighted sum of components equals the two-way fixed-effects estimate, and the weight totals by comparison type add up.",
  [I, C], "all real outcomes; cohort structures with and without never-treated units",
  "Tests tolerate large decomposition error and use single random panels.",
  ["diff_diff/bacon.py"], [("component comparisons and weights", "diff_diff/bacon.py")], ["BaconDecomposition.fit"])
p("C13", "Synthetic weights lie on the simplex and the projection is Euclidean",
  "For every real vector, the simplex projection returns the closest point of the probability simplex: non-negative entries summing to one, order preserving, and a fixed point for vectors already on it. Unit and time weights of the synthetic methods are always non-negative and sum to one, whatever the outcomes and regularisation; the unit weights never fit the treated pre-treatment path worse than uniform weights under the documented objective, and periods closer to treatment-period levels get no less time weight.",
  [I], "all real vectors up to the stated length; all pre-period outcome matrices of the stated size",
  "Tests project a few vectors; optimality against every competing point of the simplex is not tested.",
  ["diff_diff/utils.py"], [("simplex projection, projected gradient", "diff_diff/utils.py")], ["compute_synthetic_weights", "compute_time_weights"])
p("C14", "Synthetic DiD is the weighted double difference of its reported weights",
  "For every outcome and every simplex weighting of control units and pre-periods, the synthetic difference-in-differences estimate equals the treated mean change minus the unit-weighted control change, each measured from the time-weighted pre-period average, so common period shocks and unit-level constants cancel out. Treated, control, pre and post sets are taken from the data as documented, and reported inference is built from the placebo or bootstrap replications, whose weights and treated sets are drawn only from the permitted units: the placebo p-value is the share of placebo effects at least as large in absolute value (with a positive floor) and the bootstrap p-value is that of the estimate over the bootstrap standard error.",
  [I, C], "all real outcomes and all simplex weights; panel shapes",
  "Tests check closeness to a simulated effect; the identity must hold for all weights the optimiser could return.",
  ["diff_diff/synthetic_did.py", "diff_diff/utils.py"], [("estimator formula", "diff_diff/utils.py, diff_diff/synthetic_did.py")], ["SyntheticDiD.fit"])
p("C15", "Triple difference equals the difference of two double differences",
  "For every outcome, the triple-difference estimate without covariates equals the eight-cell triple difference of means whichever estimation method is chosen and whatever the cell sizes, and adding a constant or any two-way (group-by-eligibility, group-by-period, eligibility-by-period) component to all outcomes never changes it; its standard error does not change with a constant or with row order and follows the cluster column when one is given. With covariates the regression method equals the three-way interaction coefficient of the full regression, the weighting method uses cell means weighted by the estimated propensities, and the doubly robust method reproduces the model prediction for the treated-eligible exactly when outcomes are linear in the covariates. Reported cell means and cell counts are those of the data.",
  [I, C], "all real outcomes; balanced and unbalanced eight-cell designs; the three methods",
  "Tests compare methods on balanced simulated cells with tolerance 0.3.",
  ["diff_diff/triple_diff.py"], [("regression, weighting and doubly robust estimators", "diff_diff/triple_diff.py")], ["TripleDifference.fit"])
p("C16", "Panel factor estimator: counterfactuals come from untreated cells only",
  "For every outcome, the two-step method reports for each treated cell its outcome minus a counterfactual that does not depend on the outcome of any treated cell, and the average over exactly the treated cells; the joint method reports the coefficient of treatment in the weighted two-way regression, which with uniform weights is the two-way fixed-effects estimate. The tuning score is the sum of squared leave-one-out errors of untreated cells. Bootstrap replicates are the estimate on the panel of resampled units, treated and never-treated drawn separately, jackknife replicates leave out one treated unit, and p-value and interval use one reference distribution. Treatment indicators that switch off after switching on are rejected, also across missing periods.",
  [I, C], "all real outcomes; block and staggered absorbing treatments; all 0/1 treatment paths of the stated length for validation",
  "Tests check tolerance-level recovery; independence of other treated outcomes is a non-interference property no single run shows.",
  ["diff_diff/trop.py"], [("observation weights, alternating minimisation, joint WLS", "diff_diff/trop.py")], ["TROP.fit"])
p("C17", "Sensitivity bounds nest, shrink to the estimate at zero, and break down once",
  "For every event-study result, the original estimate is the weighted sum of the post-period effects and its standard error follows from exactly their covariance block; relative-magnitude bounds are that estimate plus/minus M times the largest absolute pre-period effect (the standard-error scale where no pre-period effect exists), and the robust interval extends the bounds by the critical value times that standard error, so with no allowed violation it is the original interval. Identified sets and intervals of every method only widen as M grows, the combined set lies within the relative-magnitude set, and the smoothness set is bounded when pre-period effects are available. A reported breakdown value separates violations for which the interval excludes zero from those for which it includes zero, to within the search tolerance. Negative allowances and levels outside (0,1) are refused; zero is accepted.",
  [I, C], "all real effects, standard errors, weights, M >= 0",
  "Tests evaluate a few M values on one result.",
  ["diff_diff/honest_did.py"], [("bounds and breakdown search", "diff_diff/honest_did.py")], ["HonestDiD.fit", "HonestDiD.sensitivity_analysis", "HonestDiD.breakdown_value"])
p("C18", "Pre-trend power: detectable violation inverts the power function",
  "For every covariance of pre-period estimates, the noncentrality of a violation of size M with pattern w is M^2 w'V^-1 w with w of unit length, the minimum detectable violation is the M at which power equals the target, and scaling all standard errors scales it. Only pre-period coefficients and their covariance block enter, in matching order.",
  [I, C], "all real pre-period effects, covariances and magnitudes; violation patterns; result types",
  "Tests check monotonicity on a few points; wrong coefficient/covariance matching changes numbers only slightly.",
  ["diff_diff/pretrends.py"], [("power and minimum detectable violation", "diff_diff/pretrends.py")], ["PreTrendsPower.fit"])
p("C19", "Power, detectable effect and sample size are mutually consistent",
  "For every design, the power at the minimum detectable effect is at least the target and is symmetric in the sign of the effect for two-sided tests, the required sample size computed for an effect yields a minimum detectable effect no larger than that effect and is not needlessly large, and the minimum detectable effect is proportional to sigma and falls with sample size. Design formulas match the documented variance of the estimator for two-period and multi-period designs. A simulation fits the estimator to exactly the data its generator returns (adoption dates included), and its summaries follow from those fits.",
  [I, C], "all sigma > 0, effects, group sizes, periods, intra-cluster correlations, alternatives",
  "Tests evaluate a handful of parameter combinations.",
  ["diff_diff/power.py"], [("analytical power formulas", "diff_diff/power.py")], ["PowerAnalysis.power", "PowerAnalysis.mde", "PowerAnalysis.sample_size"])
p("C20", "Data preparation keeps every value and creates correct indicators",
  "For every data set, reshaping wide data to long keeps each outcome with its unit and period, treatment/post/event-time indicators are 1 exactly on the documented sets, balancing keeps exactly the complete units or fills exactly the missing unit-periods, and cohort aggregation returns each cohort-period mean. None of the helpers modifies the caller's data.",
  [I, C], "all real values; unbalanced panels; thresholds; indicator definitions",
  "Tests use one small frame per function.",
  ["diff_diff/prep.py"], [("preparation helpers", "diff_diff/prep.py")], ["wide_to_long", "balance_panel", "make_treatment_indicator", "make_post_indicator", "create_event_time", "aggregate_to_cohorts"])
p("C21", "Simulated data carry exactly the stated treatment effect",
  "For every effect size and every draw of the random components, the generated outcome of a treated post-treatment observation exceeds what the same draws give without treatment by exactly the stated effect (including stated growth or dynamics), and all other outcomes are unaffected. Treatment, timing, period and recorded true-effect columns agree with that assignment, and the same seed gives the same data.",
  [I, C], "all real effects, trends and noise draws; unit/period counts; treatment fractions and options",
  "Tests estimate the effect from noisy data with tolerance.",
  ["diff_diff/prep_dgp.py"], [("data generating functions", "diff_diff/prep_dgp.py")], ["generate_did_data", "generate_staggered_data", "generate_ddd_data", "generate_panel_data", "generate_event_study_data", "generate_factor_data"])
p("C22", "Placebo and permutation diagnostics use only the data they claim to",
  "For every outcome, a fake-timing or fake-group placebo effect is the double difference computed only from pre-treatment observations, or only from never-treated units, so that other outcomes cannot influence it; a leave-one-out effect is the estimate on the data without that unit, and the permutation p-value is the share of reassignments whose absolute estimate is at least the original, never below 1/(valid permutations + 1). Simple parallel-trends and trend-slope statistics use only the pre-treatment periods.",
  [I, C], "all real outcomes; panel shapes, fake periods/groups; all permutations drawn",
  "Tests check types and ranges on simulated data; non-interference cannot be sampled.",
  ["diff_diff/diagnostics.py", "diff_diff/utils.py"], [("placebo tests, trend checks", "diff_diff/diagnostics.py, diff_diff/utils.py")], ["placebo_timing_test", "placebo_group_test", "permutation_test", "leave_one_out_test", "check_parallel_trends"])
p("C23", "Estimators are pure: same fit gives same result, inputs untouched",
  "Fitting never modifies the caller's data frame, and an estimator that was fitted, reconfigured and refitted on other data gives exactly the result of a fresh estimator with the same configuration, for every sequence of fits. Parameters set at construction or through the parameter setter are reported back unchanged and take effect identically.",
  [H, I, C], "all real outcomes; sequences of fit / set-parameter / refit calls up to the stated length; each estimator",
  "Tests fit each estimator once per object; histories are not explored.",
  ["diff_diff/estimators.py", "diff_diff/twfe.py", "diff_diff/staggered.py", "diff_diff/sun_abraham.py", "diff_diff/triple_diff.py", "diff_diff/synthetic_did.py", "diff_diff/honest_did.py", "diff_diff/trop.py"], [("fit, set_params, cached state", "each estimator")], ["fit", "set_params", "get_params"])
p("C24", "Exports and labels agree with the stored results",
  "For every result, dictionaries, data frames and printed summaries carry the stored estimate, standard error, statistic, p-value and interval bounds unchanged under their own names, with the interval labelled by the level it was computed at; significance flags are true exactly when p < alpha (0.05 for a single period or cell; interval excludes zero for robust bounds), never for undefined values, and stars follow the documented thresholds. Tabular exports of cell-level effects contain each cell once with its own numbers.",
  [I, C], "all real estimates, standard errors and p-values in [0,1]; every results class",
  "Tests look at the presence of keys on one result.",
  ["diff_diff/results.py", "diff_diff/staggered_results.py", "diff_diff/triple_diff.py", "diff_diff/sun_abraham.py", "diff_diff/honest_did.py", "diff_diff/bacon.py", "diff_diff/diagnostics.py", "diff_diff/trop.py"], [("results classes", "diff_diff/results.py and each module's results class")], ["to_dict", "to_dataframe", "is_significant", "significance_stars"])
p("C25", "Plots show the estimates and intervals they claim to show",
  "For every result, event-study, group-effect, sensitivity, power and decomposition plots draw each estimate at its own period or group with interval bounds estimate +/- critical value times standard error (or the stored bounds), normalising to a reference period only when the caller asks for it explicitly. Cells without a finite estimate are left out, marked values (breakdown, minimum detectable effect or violation, target power) stand at and are labelled with the values of the results, the marked point of a power curve lies on the curve, and no interval is refused by the plotting library.",
  [I, C], "all real effects and standard errors; reference-period choices; result types",
  "Tests check that a figure object is returned.",
  ["diff_diff/visualization.py", "diff_diff/honest_did.py"], [("plot data extraction", "diff_diff/visualization.py")], ["plot_event_study", "plot_group_effects", "plot_sensitivity", "plot_bacon", "plot_power_curve"])
p("C26", "Wild cluster bootstrap: symmetric weights, restricted null, consistent p-value",
  "For every outcome and every draw of the weights, the wild cluster bootstrap perturbs the null-restricted residuals by one weight per cluster, compares studentised statistics of the same form as the original and reports the share of draws at least as extreme, a value in (0,1]. Its weight laws have mean zero and unit variance, the reported original estimate is the regression coefficient, and the interval is built from the draws.",
  [I, C, H], "all real outcomes and cluster weights; cluster structures; weight laws; null on or off",
  "Randomised tests only check range and reproducibility.",
  ["diff_diff/utils.py", "diff_diff/estimators.py"], [("wild cluster bootstrap", "diff_diff/utils.py")], ["wild_bootstrap_se", "DifferenceInDifferences(inference='wild_bootstrap').fit"])
p("C27", "Accelerated backend agrees with the pure-Python one",
  "For every input, the optional compiled backend returns the same coefficients, variances, weights and projections as the pure-Python implementation, up to rounding.",
  [I, C], "all inputs of the accelerated functions",
  "Equivalence tests are skipped when the extension is not built.",
  ["diff_diff/_backend.py", "rust/src/lib.rs"], [("backend dispatch", "diff_diff/_backend.py")])
p("C28", "Bundled data sets load with documented columns and values, on- or offline",
  "Every data-set loader returns a frame with the documented columns and coding (treatment indicator, adoption year, cohort and change columns agree with the columns they derive from). The data come from the cached copy without touching the network, or from the source when there is no copy or a download is forced; when the source cannot be reached or the transfer breaks off, from the older copy, else from a constructed table that is the same on every load and leaves the caller's own stream of random numbers (numpy's global generator) as it was. A cache that cannot be written, or a process that ends while storing, breaks neither this load nor a later one, and data sets never share a cache entry.",
  ["fault_sequences", C], "all availability patterns of the remote source and the cache, all points at which a transfer or a store breaks off, all numeric cells of the files, all draws behind the constructed tables",
  "Tests cannot reach the remote sources, so neither the parsing of the files nor most failure patterns ever run.",
  ["diff_diff/datasets.py"], [("download, cache and fallback", "diff_diff/datasets.py")], ["load_dataset"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
