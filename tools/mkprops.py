import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":["src/skfolio/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Caller data and hyperparameters are never modified",
"Fitting, predicting, transforming, splitting, scoring or calling a utility never changes, in place, an array, frame, dictionary or list that the caller passed in or gave to a constructor. The results already stored in a fitted nested estimator are likewise never overwritten by the estimator that contains it.",
["inputs","programs","histories"],"every public call, every argument type (array, frame, list, mapping) and every aliasing of arguments",
"A test sees a mutation only if it keeps the argument, of the one container type that aliases, and compares it afterwards; the type/branch combinations are unbounded.",
["optimization","prior","moments","portfolio","utils","distribution","uncertainty_set","model_selection","pre_selection","distance","preprocessing"],
[("per-asset input conversion without copy","src/skfolio/utils/tools.py"),("fit methods of every estimator","src/skfolio"),("prior moments post-processing","src/skfolio/prior/_empirical.py")])

p("C02","Refitting never depends on what the object did before",
"The outcome of fitting an estimator is determined by its hyperparameters and the data of that call alone: nothing left on the object by an earlier fit, prediction or failed fit is read back. Memoised intermediate results never outlive the fit that produced them.",
["histories","fault_sequences"],"every sequence of fit, failed fit, set_params, predict and refit on one object",
"Tests fit each object once; leftovers matter only after particular histories, including ones where the solver failed midway.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","distribution/multivariate/_vine_copula.py","prior","moments","optimization"],
[("per-fit cache of convex expressions","src/skfolio/optimization/convex/_base.py"),("edge/node caches of the vine","src/skfolio/distribution/multivariate/_utils.py")])

p("C03","Estimators given as building blocks are never fitted or reconfigured",
"An estimator object handed to another component (nested estimator, cross-validation, stacking, cluster optimisation, candidate lists) is only ever used as a template: fitting happens on a private copy, and each fold, cluster, asset or parallel task fits its own copy. Only an explicitly pre-fitted mode may use the given object, and then without fitting it.",
["programs","schedules","histories"],"every composition of estimators, any number of folds and any parallel schedule",
"Sharing shows up only when the same object is reused elsewhere or when parallel tasks interleave; unit tests build each composition once and run sequentially.",
["optimization","prior","moments","model_selection","utils/tools.py","distribution","distance","uncertainty_set"],
[("clone-or-default helper","src/skfolio/utils/tools.py"),("per-split clone","src/skfolio/model_selection/_validation.py"),("per-cluster clone","src/skfolio/optimization/cluster/_nco.py")])

p("C04","Configuration round-trips unchanged through clone and get_params",
"Every estimator and splitter stores each constructor argument, unchanged and under its own name, so that cloning, get_params and set_params reproduce an equivalent object. This holds for every class including arguments that a class passes on to the class it extends.",
["configurations","programs"],"every class, every constructor argument, every value",
"Tests clone a handful of configurations; a dropped or swapped argument matters only for the class and argument affected and when its value is not the default.",
["optimization","prior","moments","distribution","distance","cluster","uncertainty_set","pre_selection","model_selection"],
[("constructors and the arguments forwarded to parent constructors","src/skfolio")])

p("C05","Every constructor option takes effect",
"For every estimator, each documented constructor option influences what the object computes when it is used; an option is never accepted and then ignored, and never used in place of another one of the same kind.",
["configurations","programs"],"every concrete class and each of its options, inherited ones included",
"It takes a test per option per class with a non-default value that changes the result; inherited options multiply this.",
["optimization","prior","moments","distribution","distance","cluster","uncertainty_set","pre_selection","model_selection"],
[("use of stored options during fit/predict/transform/split","src/skfolio")])

p("C06","A fit that returns is complete, and nothing works before it",
"When fitting returns normally it returns the estimator itself and every documented fitted attribute of that estimator exists, on every configuration path. Querying methods refuse to run on an unfitted estimator with the standard not-fitted error instead of failing obscurely or returning a value.",
["configurations","histories"],"every estimator class, every configuration path through its fit, and every query made before fitting",
"Missing assignments hide on rarely taken configuration branches; tests exercise the common ones.",
["optimization","prior","moments","distribution","distance","cluster","uncertainty_set","pre_selection"],
[("fit methods","src/skfolio"),("fitted checks at query entry points","src/skfolio/distribution")])

p("C07","Metadata passed to fit reaches every nested estimator that asks for it",
"When metadata routing is enabled, whatever extra data the user passes to fit is delivered to each nested estimator that requested it, at every nesting depth, and every component that forwards metadata declares exactly the nested components it forwards to. Targets given to fit are handed on in the same way to every component that is fitted on the same data.",
["programs","configurations"],"every nesting of estimators and every metadata request",
"Tests route one metadata item through a few compositions; each missing declaration only matters for one component in one position.",
["prior","moments","optimization","distance","uncertainty_set","model_selection","utils/tools.py"],
[("routing declarations","src/skfolio"),("process_routing call sites","src/skfolio")])

p("C08","Every constraint the user sets reaches the optimisation problem",
"In the convex optimisers, every weight, budget, long/short, turnover, tracking, cardinality, threshold, linear and minimum-return constraint that the user sets is part of the problem that is solved, in the stated direction, whatever other options are set. Lower limits bound from below, upper limits from above, and no combination of options silently drops one.",
["configurations","inputs"],"every combination of constraint options and objective functions",
"There are dozens of options whose combinations are exponential; tests set one or two at a time.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","optimization/convex/_risk_budgeting.py","optimization/convex/_maximum_diversification.py","optimization/convex/_distributionally_robust.py"],
[("construction of the constraint list","src/skfolio/optimization/convex/_base.py"),("risk, return, turnover and tracking limits","src/skfolio/optimization/convex/_mean_risk.py")])

p("C09","Constraints hold on the final weights whatever the objective",
"The ratio-maximising and risk-budgeting problems are solved in rescaled variables; every constraint and every cost term is rescaled consistently, so the weights finally reported satisfy the limits in the units the user gave. Numerical conditioning factors applied to constraints or objectives never change their meaning.",
["configurations","inputs"],"every constraint option, every scaling the solver may pick, every conditioning factor",
"A missing rescaling changes results only for one constraint under one objective when the constraint binds and the scaling differs from one.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","optimization/convex/_risk_budgeting.py"],
[("homogenisation variable","src/skfolio/optimization/convex/_mean_risk.py"),("constraint and objective conditioning factors","src/skfolio/optimization/convex/_base.py")])

p("C10","Costs and fees always reduce returns",
"Transaction costs (charged on traded volume relative to the previous weights) and management fees are always subtracted from returns, never added, forgotten or applied twice: in optimised expected returns, in the return series that risk measures act on, and in the returns of predicted portfolios, which use the same costs, fees and previous weights as the optimiser.",
["inputs","configurations"],"all costs, fees, previous weights and weights, in every optimiser and portfolio type",
"Most tests use zero costs; the sign and the propagation matter only when non-zero costs meet the affected path.",
["optimization/convex/_base.py","portfolio/_portfolio.py","optimization/_base.py","portfolio/_multi_period_portfolio.py"],
[("expected return and transaction cost expressions","src/skfolio/optimization/convex/_base.py"),("portfolio return computation","src/skfolio/portfolio/_portfolio.py"),("parameters handed from optimiser to portfolio","src/skfolio/optimization/_base.py")])

p("C11","A failed solve never yields a portfolio silently",
"If the solver fails or returns no solution, fitting either raises an optimisation error or, when the user asked not to raise, warns; weights are only recorded from a solve that produced a value. Reported weights, objective values and problem values always belong to the same solved problem.",
["fault_sequences","inputs"],"every solver outcome at every point of an efficient-frontier sweep",
"Solver failures are hard to provoke on demand, and at a chosen point of the frontier nearly impossible.",
["optimization/convex/_base.py","exceptions.py"],
[("problem solving and error handling","src/skfolio/optimization/convex/_base.py")])

p("C12","The risk measure asked for is the one that is optimised and limited",
"For every supported risk measure, the objective, the risk limit option of that measure and the evaluated portfolio measure refer to the same measure with its own confidence or aversion parameter; no measure uses another measure's formula, limit or parameter. A risk measure that is not supported is rejected.",
["configurations"],"every risk measure, every limit option, every combination of several limits",
"Fifteen measures with their own limits and tail parameters; default tail parameters are equal, so a mix-up is invisible at default settings.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","optimization/convex/_risk_budgeting.py","measures/_enums.py"],
[("name-based dispatch to risk expressions","src/skfolio/optimization/convex/_base.py"),("risk limit options","src/skfolio/optimization/convex/_mean_risk.py")])

p("C13","Uncertainty sets make the optimisation more cautious",
"When an uncertainty set is used, the worst case is optimised: uncertainty on expected returns can only lower the expected return considered, and uncertainty on the covariance can only raise the variance considered. The size of the set grows with the confidence level asked for.",
["inputs","configurations"],"all data, confidence levels and uncertainty-set estimators",
"The direction of a penalty is visible in a numeric test only for the tested data; a flipped or dropped term still gives a feasible portfolio.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","uncertainty_set/_bootstrap.py","uncertainty_set/_empirical.py"],
[("worst-case return and variance expressions","src/skfolio/optimization/convex/_base.py"),("uncertainty set sizing","src/skfolio/uncertainty_set")])

p("C14","Every measure is computed from its own definition and settings everywhere",
"Each performance, risk and ratio measure can be queried by name on every portfolio type; it uses that measure's own function, its own series (returns or drawdowns) and its own settings, annualises by the factor for variances and means and its square root for deviations, and a ratio is the excess mean return over the linked risk. The value, rolling and population views agree on this.",
["configurations","inputs"],"every measure, every portfolio, every setting, and each way of asking for it",
"About forty measures times several views; default settings coincide, so wiring mistakes stay invisible on defaults.",
["portfolio/_base.py","measures/_enums.py","measures/_measures.py","population/_population.py"],
[("lazy measure lookup","src/skfolio/portfolio/_base.py"),("measure enums and links","src/skfolio/measures/_enums.py")])

p("C15","Portfolio figures are never stale",
"After any setting of a portfolio that affects a figure is changed, every figure read afterwards reflects the new setting; attributes that define the portfolio cannot be changed after construction; and reading a figure never changes another. This holds after any sequence of reads, changes and copies.",
["histories"],"every interleaving of reading figures, changing settings, appending portfolios and copying",
"The cache has about fifty entries and a dozen settings; tests check a few pairs in one order.",
["portfolio/_base.py","portfolio/_portfolio.py","portfolio/_multi_period_portfolio.py","utils/tools.py"],
[("cache slots and invalidation","src/skfolio/portfolio/_base.py"),("cached property descriptor","src/skfolio/utils/tools.py")])

p("C16","Comparisons and scores always point towards better portfolios",
"In fitness vectors, dominance, non-dominated sorting, model scores and selection rules, performance and ratio measures count as better when larger and risk measures as better when smaller, for every measure; ties never count as strict domination.",
["inputs","configurations"],"every measure and every set of portfolios",
"A flipped direction for one measure needs a test ranking by exactly that measure.",
["portfolio/_base.py","metrics/_scorer.py","utils/sorting.py","pre_selection","population/_population.py"],
[("fitness","src/skfolio/portfolio/_base.py"),("scorer sign","src/skfolio/metrics/_scorer.py"),("dominance","src/skfolio/utils/sorting.py")])

p("C17","Portfolio arithmetic, copies and pickles keep every setting",
"Adding, subtracting, scaling, negating, rounding, copying or pickling a portfolio changes only what the operation is about: all other defining settings (costs, fees, previous weights, risk-free rate, annualisation, tail parameters, names, order) are carried over, and the original is untouched.",
["inputs","histories"],"every operator, every portfolio type, every non-default setting",
"Operators times settings is large, and losing a setting shows only when that setting is not at its default.",
["portfolio/_base.py","portfolio/_portfolio.py","portfolio/_multi_period_portfolio.py"],
[("rebuild from constructor arguments","src/skfolio/portfolio/_portfolio.py"),("copy and reduce protocols","src/skfolio/portfolio/_base.py")])

p("C18","Portfolio collections only ever hold valid portfolios",
"A population or multi-period portfolio accepts only portfolios through every way of adding elements, and, when order checking is on, a multi-period portfolio only holds periods in increasing, non-overlapping order, whichever way it was built or extended.",
["histories","inputs"],"every sequence of construction, insertion, assignment, extension and append",
"Each mutator is a separate path and the violation shows only with an invalid element given to that mutator.",
["population/_population.py","portfolio/_multi_period_portfolio.py"],
[("list mutators","src/skfolio/population/_population.py"),("period order check","src/skfolio/portfolio/_multi_period_portfolio.py")])

p("C19","Walk-forward training data always precedes the test data and the purged gap",
"In every walk-forward split, every training index is smaller than every test index by at least the purged size plus one, indices are valid positions, sets have the sizes asked for, and test sets do not overlap and advance in time. The number of splits announced equals the number produced. This holds for sample-based and calendar-based windows, with expanding training and reduced final test included.",
["configurations","inputs"],"every size, purge, offset, calendar and data length",
"Off-by-one leaks appear only for particular purge/offset/calendar combinations.",
["model_selection/_walk_forward.py"],
[("index arithmetic of the three splitting modes","src/skfolio/model_selection/_walk_forward.py")])

p("C20","Combinatorial cross-validation keeps purge and embargo gaps around tests",
"In every combinatorial purged split, training and test indices are disjoint, the purged number of observations around each test block and additionally the embargo after it are excluded from training, and recombined paths use each test block exactly once per path. Every observation belongs to exactly one test block.",
["configurations","inputs"],"every number of folds, test folds, purge and embargo sizes and data lengths",
"Gaps at the edges and between adjacent blocks depend on the configuration; the number of combinations is large.",
["model_selection/_combinatorial.py"],
[("train mask construction","src/skfolio/model_selection/_combinatorial.py")])

p("C21","Cross-validated predictions are strictly out of sample",
"Whenever the library produces cross-validated predictions (including the internal ones used to train the final stage of stacked and nested optimisers), the model that predicts a test block was fitted only on the training rows of that split, with every row-aligned extra input restricted to the same rows, and each prediction is attributed to the rows it was computed for, in time order.",
["inputs","configurations","schedules"],"every splitter, estimator, metadata and number of parallel jobs",
"Leakage does not fail anything: it makes results better. Tests compare with numbers computed by the same code.",
["model_selection/_validation.py","utils/tools.py","optimization/ensemble/_stacking.py","optimization/cluster/_nco.py"],
[("fit-and-predict helper","src/skfolio/utils/tools.py"),("recombination of folds","src/skfolio/model_selection/_validation.py")])

p("C22","Randomness is isolated and reproducible",
"A component that is given a seed draws all its random numbers from a generator built from that seed, so equal seeds give equal results whatever else ran before, and no component ever reseeds or replaces the process-wide random generator.",
["schedules","histories","configurations"],"every order of calls in the process and every component with a seed",
"Reproducibility tests run the same call twice in a row; interference needs other random code in between.",
["utils/bootstrap.py","utils/stats.py","distribution","uncertainty_set","model_selection","prior/_synthetic_data.py","optimization/cluster/_nco.py","optimization/ensemble/_stacking.py"],
[("stationary bootstrap","src/skfolio/utils/bootstrap.py"),("sampling of distributions","src/skfolio/distribution")])

p("C23","Published covariances pass the validity repair",
"Every covariance matrix published by a covariance estimator has gone through the common sanity check and, unless the user disabled it, the nearest positive-definite repair with the user's settings. Every prior model that assembles a covariance itself repairs it before publishing.",
["inputs","configurations"],"all return data, ill-conditioned ones included, every estimator and option",
"Repair matters only for degenerate data that numeric tests seldom contain.",
["moments/covariance","prior","utils/stats.py"],
[("single entry point to publish a covariance","src/skfolio/moments/covariance/_base.py"),("prior covariance assembly","src/skfolio/prior")])

p("C24","Per-asset inputs always line up with the right assets",
"Wherever a per-asset value can be given by name, it is matched to the asset of that name in the data of the call, a missing name takes the documented neutral default (never another asset's value), and a wrongly sized input is rejected. The optimiser and the portfolio built from it interpret the same input the same way. Fitted weights are only ever applied to the assets they were computed for, and positions of assets never select from data that has other columns.",
["inputs","configurations"],"every per-asset option, every container form, every column order",
"Tests give names in column order with all assets present, where mistakes cannot show.",
["utils/tools.py","optimization","portfolio/_portfolio.py","prior/_black_litterman.py","moments/covariance/_implied_covariance.py"],
[("per-asset input conversion","src/skfolio/utils/tools.py"),("conversion call sites","src/skfolio/optimization")])

p("C25","Textual constraints and views mean what they say",
"A linear constraint or view written as text is converted to coefficients so that each comparison keeps its direction, each term its sign and multiplier, moving a term across the comparison flips its sign, group references select exactly the members, and text that cannot be understood is rejected, never ignored silently.",
["inputs","programs"],"every expression in the documented grammar",
"The grammar is unbounded; tests list a few dozen expressions.",
["utils/equations.py"],
[("equation parser and matrix construction","src/skfolio/utils/equations.py")])

p("C26","Pre-selection keeps exactly the assets its rule selects",
"Each pre-selection transformer reduces the columns to a subset of the input columns in their original order, using a mask with one entry per input column that is computed from the data seen in fit only, and keeps (not drops) the assets that its rule favours.",
["inputs","configurations"],"all data and options of every selector",
"A reversed or misaligned mask passes tests whose data are symmetric; each option combination is separate.",
["pre_selection"],
[("support mask","src/skfolio/pre_selection")])

p("C27","All functions of a fitted distribution describe the same distribution",
"For every copula family, the distribution function, its partial derivatives and their inverse, the density, the sampling and the tail coefficients are those of one distribution with the fitted parameters and rotation, and the fit maximises the likelihood that scoring reports. For every univariate family, the distribution function, its inverse, the density and the sampling have the same model and parameters.",
["inputs","configurations"],"every family, rotation, margin and fitting method",
"Only particular rotation/margin combinations expose a disagreement between two functions that are each correct alone.",
["distribution/copula"],
[("rotation and margin helpers","src/skfolio/distribution/copula/_utils.py"),("family implementations","src/skfolio/distribution/copula")])

p("C28","Vine copula samples respect the fit and the conditioning",
"Samples of a vine copula are returned in the units of the training data (any transformation applied before fitting is undone), in the original column order, with conditioned assets inside the requested values or bounds, each drawn from the conditional distribution that scoring uses, and scoring applies the same transformation as fitting. Per-call intermediate results are always cleared.",
["inputs","configurations","histories"],"every dependence structure, marginals, transformation and conditioning",
"Conditioning and transformation interact per asset; tests check a few assets with equal settings.",
["distribution/multivariate"],
[("fit/sample/score transformations","src/skfolio/distribution/multivariate/_vine_copula.py")])

p("C29","Cluster-based allocations stay fully invested and within bounds",
"Hierarchical and nested-cluster allocations only ever split weight between the two sides of a cluster with complementary non-negative shares, so weights stay non-negative and sum to one, inconsistent bounds are rejected before allocating, and user bounds are enforced at every split or at the end.",
["inputs","configurations"],"all data, cluster trees, bounds and risk measures",
"A broken share at one level shows only for trees of a certain shape and binding bounds.",
["optimization/cluster","utils/stats.py"],
[("bisection and recursion","src/skfolio/optimization/cluster/hierarchical"),("weight bounds conversion","src/skfolio/optimization/cluster/hierarchical/_base.py"),("inner/outer weights","src/skfolio/optimization/cluster/_nco.py")])

p("C30","Every value of a multiple-choice option is handled or rejected",
"For every option that takes one of a fixed set of values, each place that decides on it handles every value of the set or raises an error; no value silently leaves a result undefined or falls into another value's behaviour.",
["configurations"],"every enumeration and every decision on it",
"A forgotten value is found only by a test using that value at that place.",
["measures/_enums.py","optimization","distribution","distance","cluster","utils"],
[("decisions on enumerated options","src/skfolio")])

p("C31","An interrupted download never leaves a dataset that looks complete",
"If the process stops at any moment while a dataset is being downloaded or cached, the next load either finds a complete cached dataset or fetches it again; it never reads a partially written cache file as if it were complete. What is cached and returned is the file that was just downloaded, wherever the cache directory lies.",
["crash_points","fault_sequences"],"every point at which the process may stop during download and caching",
"Tests do not kill the process between the individual file operations.",
["datasets/_base.py"],
[("download and cache","src/skfolio/datasets/_base.py")])

p("C32","Price conversion never invents or misaligns returns",
"Converting prices to returns computes each return from the same column's consecutive prices, applies the same kind of return to assets and factors, drops rows for all of them together so that both outputs share one index, and applies the missing-data thresholds as stated.",
["inputs","configurations"],"all price tables, factor tables, missing-data patterns and options",
"Missing-data patterns and option combinations are unbounded.",
["preprocessing/_returns.py"],
[("price to return conversion","src/skfolio/preprocessing/_returns.py")])

p("C33","Optimised weights are optimal for the stated problem",
"Up to solver tolerance no feasible portfolio has a better objective than the one returned, for every objective function and risk measure.",
["inputs","configurations"],"all data and constraint sets","Optimality is a statement about all feasible points.",
["optimization/convex"],[("problem formulation","src/skfolio/optimization/convex")])

p("C34","Estimates, distances and measures scale and shift with the returns",
"When all returns are multiplied by a positive number, expected returns, volatilities and drawdown or tail risks are multiplied by it, covariances by its square, and correlations, distances and heuristic weights do not change; quantities in different units are never added, compared or chosen between. Adding a constant to all returns moves means by it, leaves deviations and covariances alone, and moves quantile losses the other way.",
["inputs","configurations"],"all return series, estimators and options",
"The statement relates results on infinitely many pairs of inputs; tests compare single results with stored numbers, in one unit.",
["measures/_measures.py","moments","prior","distance","uncertainty_set","optimization/naive","optimization/cluster","utils/stats.py"],
[("measure functions","src/skfolio/measures/_measures.py"),("estimates of moments","src/skfolio/moments"),("priors","src/skfolio/prior"),("distances","src/skfolio/distance/_distance.py"),("uncertainty sets","src/skfolio/uncertainty_set")])

p("C35","Copula derivative and inverse are mutually inverse",
"Applying the inverse conditional distribution to a conditional probability gives back the original value, for every family, parameter, rotation and margin; where the inverse is an iteration, the value it settles on does.",
["inputs"],"all parameters and points of the unit square","A numeric statement over a continuum.",
["distribution/copula"],[("h-functions","src/skfolio/distribution/copula")])

p("C36","Every measure is the quantity its name defines",
"For every return or drawdown series, confidence level and acceptable return, each measure function gives the documented quantity: moments and partial moments with their stated normalisation, quantile and tail losses that weight the last observation in part, drawdowns from the running peak under the chosen compounding, the mean difference over all pairs, and the effective number of assets.",
["inputs","configurations"],"all series, confidence levels and targets",
"Stored numbers for one series pin one point; a wrong quantile index, divisor or target only shows for other lengths, levels or options.",
["measures/_measures.py"],
[("measure functions","src/skfolio/measures/_measures.py")])

p("C37","Estimators and models compute the quantities they document",
"Posterior expected returns and covariance combine prior and views by Bayes' rule with the stated view uncertainty; a factor model's expected returns, covariance, its root and its scenarios come from the same loadings and residual variances; shrunk, equilibrium, exponentially weighted, co-movement, detoned, denoised and implied estimates, distances, uncertainty sets and heuristic or stacked weights follow their documented formulas. This holds for every option of each of them.",
["inputs","configurations"],"all data, nested estimates and options",
"Each formula holds over a continuum of inputs and for every combination of options; tests compare a few combinations with stored numbers.",
["prior/_black_litterman.py","prior/_factor_model.py","prior/_empirical.py","moments","distance/_distance.py","uncertainty_set/_empirical.py","optimization/naive/_naive.py","optimization/ensemble/_stacking.py","utils/stats.py"],
[("views","src/skfolio/prior/_black_litterman.py"),("factor model","src/skfolio/prior/_factor_model.py"),("moments","src/skfolio/moments"),("distances","src/skfolio/distance/_distance.py"),("uncertainty sets","src/skfolio/uncertainty_set/_empirical.py")])
p("C38","Weights are accepted and valued by the optimiser as its options say",
"For given weights, the risk a convex optimiser minimises is the chosen measure of their returns, net of costs and fees where the measure counts them; the return it maximises is their expected return net of costs and fees, and utility and ratio combine the two as documented. Weights can be chosen exactly when they respect every limit that is set on weights, budget, long and short exposure, turnover, tracking error, holdings, thresholds, return and risk. This holds for every objective, also where the problem is rescaled to maximise a ratio.",
["inputs","configurations"],"all returns, weights, costs and limits, for every objective and measure",
"An auxiliary formulation can be too loose or too tight at some weights only; tests look at the optimum of a few problems.",
["optimization/convex/_base.py","optimization/convex/_mean_risk.py","optimization/convex/_risk_budgeting.py","optimization/convex/_maximum_diversification.py","optimization/convex/_distributionally_robust.py"],
[("risk formulations and limits","src/skfolio/optimization/convex/_base.py"),("objectives","src/skfolio/optimization/convex/_mean_risk.py"),("risk budgeting","src/skfolio/optimization/convex/_risk_budgeting.py")])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
