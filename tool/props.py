"""The properties: text, anchors, technique, level note."""

NF = "abstract interpretation of every path to a symbolic value, compared in arithmetic normal form with the specified formula"
ABS = "abstract interpretation (typestate/effect automata) of the clang AST"


def define(prop, na):
    prop("C01", "No result is calculated from data the object no longer has",
         "After any sequence of operations on an object (adding or removing a component group, changing a rate, "
         "setting a collapse, demolition or rebuilding cost), every query answers from the data the object holds now. "
         "A result remembered from before the change is never returned.",
         ["histories", "inputs"],
         "every interleaving of queries and mutating operations on every class that remembers results, for every argument",
         "the tests query each statistic after a handful of changes; stale results need one particular query before "
         "one particular change",
         ["src/relationships.cpp", "src/relationships.h", "src/comp_group.cpp", "src/structure.cpp", "src/caching.h"],
         [("CachedFunction / CachedValue with ClearCache", "src/caching.h"),
          ("IM::SetCollapse, SetDemolition, CollapseRate_calc", "src/relationships.cpp"),
          ("Structure::AddCompGroup, RemoveCompGroup", "src/structure.cpp"),
          ("CompGroup statistics", "src/comp_group.cpp")],
         observe="public queries after public mutators",
         technique=ABS + ": read sets of cached calculations, one dirty/cleared automaton per cache over every public member",
         note="All classes with result caches found in the current source; every path of every public member and "
              "subscription callback. Callables supplied from outside the library are not looked into.")
    prop("C02", "A change anywhere in the model invalidates every dependent result",
         "When an object announces a change, every result calculated from it, directly or through any chain of "
         "objects, is recalculated before it is returned again, and each object on the chain passes the announcement "
         "on to all of its own dependents. Every operation which changes the outcome of an object's queries "
         "announces the change.",
         ["histories", "inputs", "configurations"],
         "every model (graph of objects), every operation that changes one of its objects and every query on the others, in any order",
         "the tests build a few fixed chains of objects and change one link",
         ["src/relationships.h", "src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp", "src/functions.cpp", "src/replaceable.h"],
         [("Replaceable<T>::notify_change", "src/replaceable.h"),
          ("subscription callbacks made in constructors", "src/relationships.h, src/comp_group.cpp, src/structure.cpp, src/functions.cpp")],
         observe="statistics of dependents after a change upstream",
         technique=ABS + ": dependency read sets against the caches each subscription callback clears and the notification it sends",
         note="Dependence is a cached calculation, or a query of the object, reading the collaborator; every subscription and every public member.")
    prop("C03", "Replacing an object switches all of its dependents to the replacement",
         "After an object in a model is replaced by another, everything that used the old object uses the new one: "
         "for its results, for later changes, for a later replacement, and in every calculation it kept. Clients the "
         "replacement already had remain its clients.",
         ["histories", "configurations"],
         "every model, every object replaced at any time and any number of times, with queries in between",
         "the tests replace one collaborator of some classes, once or twice",
         ["src/replaceable.h", "src/relationships.h", "src/comp_group.cpp", "src/structure.cpp", "src/functions.cpp"],
         [("Replaceable<T>::replace", "src/replaceable.h"), ("replaced callbacks", "src/relationships.h, src/comp_group.cpp, src/structure.cpp, src/functions.cpp")],
         observe="statistics of dependents after replace()",
         technique=ABS + ": points-to of the collaborator fields each replaced callback must store; capture analysis of kept closures",
         note="Every subscription found in the current source, and Replaceable<T>::replace itself.")
    prop("C04", "Destroying an object leaves no dangling subscription",
         "Objects of a model can be destroyed, or dropped from one another, in any order: afterwards, changing or "
         "replacing any remaining object never reaches a destroyed one. No kept calculation refers to something that "
         "no longer exists.",
         ["histories", "configurations"],
         "every model and every order of destruction, removal, replacement and change",
         "the tests destroy objects at the end of a block, in one order, and a use after free need not fail",
         ["src/replaceable.h", "src/relationships.h", "src/comp_group.cpp", "src/structure.cpp", "src/functions.cpp"],
         [("add_callbacks / remove_callbacks", "src/replaceable.h"), ("destructors", "src/relationships.h, src/comp_group.cpp, src/structure.cpp, src/functions.cpp")],
         observe="notify_change/replace of survivors after a destruction",
         technique=ABS + ": subscription typestate (id kept, removed by destructors and droppers), capture analysis for dangling references",
         note="Every subscription found in the current source.")
    prop("C05", "Every operation releases the locks it takes",
         "Whatever an operation of the library does, including being left by an exception a calculation throws, it "
         "holds none of the library's locks when it is over, it never waits for a lock it already holds, and releases "
         "only locks it took. Every lock is initialised before use.",
         ["inputs", "fault_sequences", "schedules"],
         "every path through every operation that takes a lock: cached or not, first or later caller, with or without an exception",
         "a lock left behind stops only the next caller, on paths (a calculation that throws, a second waiting thread) the tests do not take",
         ["src/caching.h", "src/caching.cpp", "src/replaceable.h", "src/context.cpp", "src/maq.cpp"],
         [("CachedFunction::operator(), CachedValue::operator()", "src/caching.h"), ("Add_Cache, Remove_Cache, Clear_Caches", "src/caching.cpp"),
          ("Replaceable<T>", "src/replaceable.h"), ("Context::LockContext and its users", "src/context.cpp")],
         observe="operations called again, or by another thread, after the operation",
         technique=ABS + ": typestate of every lock over all paths including exception edges",
         note="omp locks, omp critical, std::mutex and guards; locks identified by access path; all functions that take a lock.")
    prop("C06", "Shared bookkeeping is only used under its lock",
         "Data that several threads can reach at once (the tables and flags of the caches, the list of caches, the "
         "subscriptions of an object, the per-thread contexts, the integration statistics) is read and changed only "
         "while its lock, or critical section, is held. An entry on whose lock threads wait is not removed before they are done.",
         ["schedules"],
         "every schedule of threads evaluating, invalidating and subscribing at once",
         "a data race shows, if at all, under schedules the tests do not force",
         ["src/caching.h", "src/caching.cpp", "src/replaceable.h", "src/context.cpp", "src/maq.cpp"],
         [("CachedFunction, CachedValue members", "src/caching.h"), ("caches", "src/caching.cpp"), ("Replaceable<T>::callbacks", "src/replaceable.h"),
          ("stats", "src/maq.cpp")],
         observe="concurrent queries",
         technique=ABS + ": lockset analysis of every shared field and global, and pinning of waited-for records",
         note="Fields written outside constructors and globals, in functions that can run in a parallel region or belong to a class with a lock.")
    prop("C07", "A list of arguments gives the same as one argument at a time",
         "Wherever a query can be made for a list of arguments, the answer has one element for each argument, in order, and "
         "each element is what the same query gives for that argument on its own.",
         ["inputs", "schedules"],
         "every list query, every list (empty, long, repeated arguments), every number of threads",
         "the tests compare a few lists of the commonest queries",
         ["src/relationships.cpp", "src/comp_group.cpp", "src/functions.h", "src/fragility.cpp", "src/pyslatcore.h", "src/pyslatcore.cpp"],
         [("list overloads of the statistics", "src/relationships.cpp, src/comp_group.cpp"), ("list queries of the binding", "src/pyslatcore.h, src/pyslatcore.cpp")],
         observe="list queries against single queries",
         technique=ABS + ": loop summaries of the list overloads compared with the scalar query",
         note="Every list overload with a scalar counterpart in the current source.")
    prop("C08", "Threads using the library cannot deadlock on its locks",
         "No two operations of the library, run by different threads, can each hold a lock the other is waiting for. A "
         "calculation supplied to a cache never runs while the lock guarding that cache's data is held.",
         ["schedules"],
         "every pair of operations that take locks, every schedule, any nesting of cached calculations",
         "a lock-order inversion needs one exact interleaving to deadlock",
         ["src/caching.h", "src/caching.cpp", "src/replaceable.h", "src/context.cpp"],
         [("CachedFunction::operator(), ClearCache", "src/caching.h"), ("Clear_Caches", "src/caching.cpp"), ("notify_change, replace", "src/replaceable.h")],
         observe="concurrent queries, changes and cache clearing",
         technique=ABS + ": lock-order graph over the call graph, acyclicity",
         note="Locks identified by class and member; two objects of the same class are not distinguished from one another.")
    prop("C15", "Parallel calculations do not interfere with one another",
         "The iterations and sections the library runs in parallel never write something that another one reads or "
         "writes, other than under a lock, critical section or as a reduction. Each works on its own elements and its own variables.",
         ["schedules"],
         "every parallel loop and set of sections, every number of threads, every schedule",
         "a race between iterations changes a result only under some schedules",
         ["src/structure.cpp", "src/relationships.cpp", "src/comp_group.cpp", "src/fragility.cpp", "src/maq.cpp", "src/functions.h"],
         [("omp parallel for / sections", "src/structure.cpp, src/relationships.cpp, src/comp_group.cpp")],
         observe="results of queries made in parallel",
         technique="effect and sharing analysis of OpenMP regions on the clang AST",
         note="Variables declared outside the region; writes to objects reached through pointers in called functions are covered by C06.")
    prop("C26", "A failing parallel calculation is reported to its caller",
         "An exception thrown while the library calculates in parallel reaches the caller of the query: it neither "
         "ends the process nor is dropped. Destroying an object never throws.",
         ["fault_sequences", "schedules"],
         "every parallel region, every calculation in it that can fail, every number of threads",
         "the tests do not make a calculation fail inside a parallel region",
         ["src/structure.cpp", "src/relationships.cpp", "src/comp_group.cpp", "src/fragility.cpp"],
         [("CostDist_IM and other parallel sums", "src/structure.cpp"), ("list overloads", "src/relationships.cpp, src/comp_group.cpp")],
         observe="exceptions from queries",
         technique="exception-flow analysis over the call graph and the OpenMP regions of the clang AST",
         note="Explicit throws of the library; bad_alloc and exceptions of callables supplied by the caller are not counted.")

    prop("C12", "Every fate's cost is weighted with that fate's own probability",
         "The cost of a structure given the intensity combines the repair cost with the probability of repair, the "
         "demolition cost with that of demolition and the rebuilding cost with that of collapse, the three "
         "probabilities adding to one. The annual and total costs, and their breakdown into repair, demolition and "
         "rebuilding, combine the same quantities.",
         ["inputs", "configurations"],
         "every structure (with or without collapse, demolition, their costs), every intensity, every discount rate and period",
         "the tests compare a few structures with stored numbers, which depend on all of it at once",
         ["src/structure.cpp", "src/relationships.cpp"],
         [("TotalCost, DeaggregatedCost", "src/structure.cpp"), ("annual cost and expected loss", "src/structure.cpp")],
         observe="TotalCost, DeaggregatedCost, AnnualCost, E_annual_cost",
         technique=NF,
         note="Numerical accuracy of integration is outside; integrands are compared exactly. Paths on which a quantity is NaN are not compared.")
    prop("C13", "The lognormal distribution's conversions agree with one another",
         "However a lognormal distribution is made (from mean or median, from the standard deviation of the value or of "
         "its logarithm), every statistic read from it is the one that follows from what was given. Probabilities "
         "and quantiles are those of that distribution.",
         ["inputs"],
         "every pair of parameters in every form, every statistic, every argument",
         "the tests sample some parameters; special cases (zero mean, zero dispersion) are separate paths",
         ["src/lognormaldist.cpp", "src/lognormaldist.h"],
         [("LogNormalDist_from_*", "src/lognormaldist.cpp"), ("get_mean_X, get_sigma_X, get_median_X", "src/lognormaldist.cpp"),
          ("p_at_least, p_at_most, x_at_p", "src/lognormaldist.cpp")],
         observe="LogNormalDist members",
         technique=NF,
         note="Exact arithmetic: rounding is outside. GSL's distribution functions are trusted.")
    prop("C22", "An integration covers its range once, each part to the tolerance set",
         "The result of a successful integration is the sum, over parts covering the range once, of their Simpson estimates "
         "of the transformed integrand, extrapolated; each is added only when refining changed it by no more than the "
         "tolerance allows. A search's range has the point found in its middle, and is narrowed only where both ends give nothing.",
         ["inputs"],
         "every integrand, every way the range can be divided, every search method and setting",
         "tests integrate a few smooth functions; a wrong part or a part dropped shows only for integrands which are divided there",
         ["src/maq.cpp"],
         [("MAQ: the parts kept, the sum", "src/maq.cpp"), ("quad", "src/maq.cpp"),
          ("binary_subdivision, reverse_binary_subdivision, low_first_reverse_binary_subdivision, scattered_search, directed_search", "src/maq.cpp")],
         observe="MAQ, and every rate calculated with it",
         technique=ABS + ", loops to a fixed point; parts kept and added " + NF,
         note="How near the sum is to the integral depends on the integrand: N01.")
    prop("C23", "A component group's cost and delay come each from its own loss function",
         "What a component group reports given the demand is its loss function's distribution for its own fragility's "
         "damage state probabilities, its count and that loss's own adjustment factor. What it reports given the "
         "intensity integrates this over the demand's distribution; cost and delay are never mixed up.",
         ["inputs", "configurations"],
         "every component group with cost and/or delay, every adjustment factor and count, every demand and intensity",
         "the tests rarely combine delay, adjustment factors, and a count other than one",
         ["src/comp_group.cpp"],
         [("E_cost_EDP_calc ... SD_ln_delay_EDP_calc", "src/comp_group.cpp"), ("E_cost_IM_calc ... SD_ln_delay_IM_calc", "src/comp_group.cpp")],
         observe="E_cost_EDP, SD_ln_cost_EDP, E_delay_EDP, ... and their _IM forms",
         technique=NF,
         note="Integrands are compared exactly; numerical integration is trusted. pDS_IM's per-state loop is not covered.")
    prop("C29", "Distributions combine by adding means and variances",
         "The sum of independent distributions has the sum of their means and of their variances; weighted alternatives "
         "have the weighted mean and second moment; a scaled distribution has the scaled mean and the same dispersion.",
         ["inputs"],
         "every list of distributions (any length, equal or different weights) and every factor",
         "the tests use short lists of similar distributions",
         ["src/lognormaldist.cpp", "src/structure.cpp"],
         [("AddDistributions, AddWeightedDistributions", "src/lognormaldist.cpp"), ("ScaleDistributionBy..., ApplyAdjustmentFactor", "src/lognormaldist.cpp"),
          ("CostNC", "src/structure.cpp")],
         observe="LogNormalDist::AddDistributions and the statistics built on it",
         technique=NF + "; counting loops recognised as sums",
         note="Exact arithmetic: rounding is outside.")
    prop("C32", "Every rate integrates its own conditional probability over the hazard",
         "The rate of exceedance of a demand, and of collapse, demolition and each component's cost, is the integral over "
         "the intensity of that thing's own conditional probability times the slope of the hazard curve. Given no collapse "
         "or demolition function, its probability is zero.",
         ["inputs", "configurations"],
         "every hazard curve, every demand, collapse and demolition distribution, every level",
         "the tests compare a few models with stored numbers",
         ["src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp"],
         [("SimpleRelationship, EDP, IM rates", "src/relationships.cpp"), ("lambda_cost", "src/comp_group.cpp")],
         observe="lambda, CollapseRate, DemolitionRate, annual cost",
         technique=NF,
         note="Integrands are compared exactly; numerical integration and differentiation are trusted.")
    prop("C14", "A probabilistic function reports the distribution it was declared with",
         "A lognormal function declared by any location (mean, median, mean of the logarithm) and any spread (standard "
         "deviation, or that of the logarithm) reports the mean, median, deviations and probabilities of exactly that "
         "distribution. A demand reports its function's statistics, a compound demand those of the function with the larger mean.",
         ["inputs", "configurations"],
         "every combination of location and spread, every underlying function, every argument",
         "the tests take a few combinations; others recursed for ever",
         ["src/functions.cpp", "src/relationships.cpp"],
         [("LogNormalFn", "src/functions.cpp"), ("EDP, CompoundEDP statistics", "src/relationships.cpp")],
         observe="Mean, MeanLn, Median, SD, SD_ln, P_exceedence",
         technique=NF + ", in the state each declaration leaves",
         note="Exact arithmetic. The inverse (X_at_exceedence) of LogNormalFn is not claimed.")
    prop("C27", "Damage state probabilities are those of the states' own onsets",
         "The probability that a damage state is reached is that of its own onset being at most the demand. The "
         "probability that it is the highest reached is the difference from the next state's, never below zero, and for the last state its own.",
         ["inputs"],
         "every fragility function with any number of states, every demand",
         "the tests use fragilities of a few states whose curves don't cross",
         ["src/fragility.cpp", "src/fragility.h"],
         [("pExceeded, pHighest", "src/fragility.cpp")],
         observe="pExceeded, pHighest",
         technique="loop summaries: per-element symbolic values of the returned lists, compared in arithmetic normal form",
         note="Loops that fill lists in ways not recognised are reported as undecided in the evidence.")
    prop("C28", "A loss follows from damage probabilities, component count and adjustment factor",
         "A loss function gives the combination of its damage states' distributions weighted with their probabilities, "
         "times the number of components. A two-level cost is the first level up to the lower count, the second from the "
         "upper count on, and on the straight line in between; the adjustment factor scales the result.",
         ["inputs"],
         "every loss function, list of probabilities, count (below, at, between, above the two counts) and factor",
         "the tests use few counts",
         ["src/loss_functions.cpp"],
         [("SimpleLossFn, BiLevelLossFn, BiLevelLoss", "src/loss_functions.cpp")],
         observe="CalculateLoss",
         technique=NF,
         note="Exact arithmetic; integer division is kept apart from division.")
    prop("C21", "No operation breaks because an optional part of the model is missing",
         "A component group needs no cost or delay function, an intensity measure no collapse or demolition function, a structure "
         "no components: building, querying, printing, changing and destroying them then works, and never follows something that is "
         "not there. A structure with components always has their intensity measure.",
         ["inputs", "histories"],
         "every combination of missing parts, every operation, in every state the object can reach",
         "tests build complete models, and few incomplete ones; what is missing shows as a crash of the process",
         ["src/structure.cpp", "src/comp_group.cpp", "src/relationships.cpp", "src/relationships.h"],
         [("CompGroup: constructor, destructor, *_EDP_dist, operator<<", "src/comp_group.cpp"),
          ("IM: pCollapse, pDemolition, *_calc", "src/relationships.cpp"),
          ("Structure: AddCompGroup, Cost, TotalCost, CostsByFate, calc_AnnualCost", "src/structure.cpp")],
         observe="every public operation of CompGroup, IM and Structure",
         technique=ABS + ": definite presence of what is followed, on every path",
         note="What is passed in as required (a fragility function, say) is not covered: C16 and C24 say what is refused.")
    prop("C30", "A remembered result is the one its own calculation gave for that argument",
         "A cached calculation returns what it calculated for that very argument; nothing is returned that was not "
         "calculated, even while other threads calculate or clear, or after a calculation failed. Clearing forgets every "
         "result, and clearing all caches reaches every cache that exists.",
         ["inputs", "schedules", "histories"],
         "every argument, every interleaving of lookups, calculations, failures and clearings of a cache",
         "tests ask a cache from one thread, in a few orders, for calculations that do not fail",
         ["src/caching.h", "src/caching.cpp"],
         [("CachedFunction, CachedValue: operator(), ClearCache, constructors, destructors", "src/caching.h"),
          ("Clear_Caches, Add_Clear_Function, Remove", "src/caching.cpp")],
         observe="every cached query, and Clear_Caches",
         technique=ABS + " with exceptional edges: where each returned and stored value comes from, and under which lock and test",
         note="A calculation under way while its cache is cleared may still be stored: not claimed.")
    prop("C31", "Deterministic functions follow their laws over the whole axis",
         "A power, hyperbolic, linear or log-log function has its law's value for its declared parameters: zero from "
         "the hyperbola's asymptote on, the end values outside an interpolation table, and inside it the interpolation of that "
         "table (of its logarithms for log-log). Its slope is the derivative of that value.",
         ["inputs"],
         "every parameter and table, every argument including those outside the table",
         "the tests sample a few points of a few functions",
         ["src/functions.cpp", "src/functions.h"],
         [("Evaluate, constructors", "src/functions.cpp"), ("DerivativeAt", "src/functions.cpp")],
         observe="ValueAt, DerivativeAt",
         technique=NF + ", in the state the constructor leaves",
         note="GSL's interpolator and numerical derivative are trusted.")
    prop("C09", "A failed integration is never reported as a result",
         "When a numerical integration fails (it meets an undefined value, or uses up its evaluations), the query that "
         "needed it gives an undefined value, never a number: a number could not be told from a result.",
         ["inputs", "configurations"],
         "every query that integrates, every model and setting for which the integration fails",
         "the tests' integrations succeed",
         ["src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp", "src/maq.h"],
         [("MAQ_RESULT.successful", "src/maq.h"), ("cached calculations that integrate", "src/comp_group.cpp, src/relationships.cpp, src/structure.cpp")],
         observe="rates, costs and delays when an integration fails",
         technique=ABS + ": on each path with a failed integration, is the returned value NaN or calculated from the failed integral",
         note="Every function that integrates. An integral that is not needed, because another is exactly zero, is no failure.")
    prop("C10", "Every integration is accounted for, once, and keeps its budgets",
         "Each call of the integrator counts one call and exactly one outcome, which is the outcome it reports (a failure is "
         "undefined and not successful), and adds to the totals the evaluations it reports. A search reports exactly the evaluations "
         "it made and goes on only while fewer than its limit have been made; refinement stops when the allowed evaluations are used. "
         "Threads never lose one another's counts, and resetting clears every counter.",
         ["inputs", "schedules", "configurations"],
         "every integrand, setting and search method, any number of threads",
         "the tests compare a few totals of complete models, if at all; an outcome counted twice or an evaluation not counted goes unseen",
         ["src/maq.cpp", "src/maq.h"],
         [("MAQ", "src/maq.cpp"), ("search functions", "src/maq.cpp"), ("reset_statistics", "src/maq.cpp")],
         observe="statistics and MAQ_RESULT",
         technique=ABS + ": counts of each update per path; a ghost counter of integrand calls, compared with the reported number by induction over the loops",
         note="Every path of the integrator and of each search; the maxima among the statistics are not judged.")
    prop("C11", "Integration settings are what was last validly set",
         "A setting has its default value until it is set, and then the last valid value it was given: a tolerance or limit "
         "that is not above zero (or is not a number) is refused and changes nothing. Restoring a default restores the initial value, "
         "a reset restores all of them, and no setting changes another.",
         ["histories", "inputs"],
         "every sequence of set, restore and reset operations, every value",
         "the tests set a few valid values",
         ["src/maq.cpp", "src/maq.h"],
         [("IntegrationSettings", "src/maq.cpp, src/maq.h")],
         observe="Get_* after Set_*/Use_Default_*/Reset",
         technique=ABS + ": the stores on each path of each setter, under what the path knows of the argument",
         note="All members of IntegrationSettings.")
    prop("C16", "Data that cannot be used is refused, and no other",
         "Making or changing an object with data it cannot work with raises an exception: an empty list of damage states or losses, "
         "damage states or table points not in strictly increasing order, lists whose lengths differ, an undeclared kind of parameter, "
         "a component group with another intensity measure than the structure's, None as a replacement. Usable data is never refused, and a "
         "refused addition leaves the structure unchanged.",
         ["inputs"],
         "all data, in lists of every length",
         "the tests try a few empty or unordered lists; a test of the order that misses one pair, or refuses one usable list, needs that list",
         ["src/fragility.cpp", "src/loss_functions.cpp", "src/lognormaldist.cpp", "src/functions.cpp", "src/structure.cpp", "src/pyslatcore.cpp"],
         [("FragilityFn::FragilityFn", "src/fragility.cpp"), ("SimpleLossFn, BiLevelLossFn", "src/loss_functions.cpp"),
          ("AddWeightedDistributions", "src/lognormaldist.cpp"), ("LogNormalFn, InterpolatedFn", "src/functions.cpp"), ("AddCompGroup", "src/structure.cpp")],
         observe="exceptions from constructors and operations",
         technique="abstract interpretation; path conditions against the specified cases by Fourier-Motzkin elimination; loop analysis of pairwise order tests",
         note="The validations listed in the statement; numbers no rule is stated for (negative costs, NaN) are not covered.")
    prop("C24", "What is built is of the kind, and from the data, the user described",
         "Each constructor offered to users builds the object its name and choices stand for: the function of the chosen kind with each "
         "parameter in its place, the distribution with the location and spread it was described by, every list element in its position. "
         "Each argument, and each part set later, reaches the part of the object it describes, and data from which the chosen kind of function cannot be made is refused.",
         ["inputs", "configurations"],
         "every choice offered and all data",
         "the tests build a few objects; a wrong role for one parameter in one choice needs that choice and a query that depends on it",
         ["src/pyslatcore.cpp", "src/functions.cpp", "src/relationships.cpp", "src/comp_group.cpp", "src/loss_functions.h"],
         [("factory2, factory3, Make* functions", "src/pyslatcore.cpp"), ("constructors", "src/comp_group.cpp, src/relationships.cpp, src/functions.cpp")],
         observe="queries of the objects returned by the binding's Make* functions and factories",
         technique="abstract interpretation of each factory for each enumerator; constructor terms compared with the specified roles; must-not-return for unusable data",
         note="Every Make*/factory function of the binding and the constructors of the model's classes; SWIG's generated wrappers are not read.")
    prop("C25", "The Python binding gives the library's own answers",
         "Every query of a bound object gives exactly what the library's query of that name gives for the wrapped object and the same "
         "arguments (element by element for lists, in order), every operation is applied to the wrapped object with the wrapped "
         "arguments, and every global setting reaches the setting of that name.",
         ["inputs", "histories"],
         "every bound class, method and argument",
         "the tests read a selection of statistics; a method that answers for its neighbour passes as long as nothing compares the two",
         ["src/pyslatcore.cpp", "src/pyslatcore.h"],
         [("bound classes", "src/pyslatcore.h"), ("their methods", "src/pyslatcore.cpp")],
         observe="methods of the pyslatcore classes",
         technique="abstract interpretation with the library's functions uninterpreted; returned terms and call effects compared with the like-named library function",
         note="All methods of all bound classes but the two which group components; SWIG's generated wrappers are not read.")
    PY = "abstract interpretation of the Python AST over terms, with loop summaries and finite case analysis; "
    prop("C17", "A script command does what it says",
         "Every form of every command of the script language is accepted when the names it uses are defined, and does what it says: the object "
         "it defines is of the kind named, made from the values at their places and from the objects the names stand for then, and a setting it "
         "gives reaches the library with that value. Numbers, strings, variables, lists and dictionaries mean their values wherever they may stand.",
         ["programs", "inputs"],
         "every form of every command the grammar admits, with any names, numbers and lists in it",
         "no test runs the script interpreter; a command form which is refused, or swaps two of its numbers, shows in scripts using that form only",
         ["src/SlatInterpreter.py", "src/pyslat.py", "src/slatParser.g4", "src/slatLexer.g4"],
         [("SlatInterpreter (listener)", "src/SlatInterpreter.py"), ("classes and functions made by commands", "src/pyslat.py"),
          ("forms of the commands", "src/slatParser.g4")],
         observe="objects registered in pyslat, and calls of pyslatcore, after a command",
         technique=PY + "the forms are the derivations of the grammar, with repetitions summarised by an arbitrary element",
         note="All commands but recorder and analyze (C18), print and the commands without a listener. ANTLR's generated parser is not read: that a "
              "script has the tree the grammar gives it is assumed. Python expressions and data files are opaque values.")
    prop("C18", "A recorder writes the quantities it names, at the points it was given",
         "Running a recorder writes a line for each of its points, in the order given: the point, and in each column the quantity the column names, "
         "of the recorded object at that point. Columns are labelled with their names, in the order asked for, and the output goes to the file asked "
         "for (replacing or extending it) or to the standard output. Every kind of recorder the language has can be defined and run.",
         ["programs", "inputs", "configurations"],
         "every kind of recorder, choice of columns, way of giving points, and destination",
         "no test runs a recorder; a column filled from its neighbour's query looks plausible",
         ["src/SlatInterpreter.py", "src/pyslat.py", "src/slatParser.g4"],
         [("exitRecorder_command, exitAnalyze_command", "src/SlatInterpreter.py"), ("recorder classes", "src/pyslat.py")],
         observe="what a recorder prints",
         technique=PY + "the output of each recorder form as a sequence of symbolic lines, compared with the specified one",
         note="Every recorder form with up to three columns of every kind; widths and digits of the numbers are not judged.")
    prop("C19", "A name stands for its latest definition, everywhere",
         "A name stands for the object defined last under it, until names are cleared: a new definition takes the old one's place in every object "
         "using that, exactly once, and concerns no other name. A definition which fails leaves every name as it was. Objects without a name are not "
         "registered, and an object looked up by the library object it wraps is one wrapping the same.",
         ["histories", "fault_sequences", "inputs"],
         "every sequence of definitions, named and not, succeeding or failing at any call of the library on the way",
         "the tests define each name once; registering too early shows only when a definition fails",
         ["src/pyslat.py"],
         [("defs, lookup and constructors of the classes", "src/pyslat.py"), ("ClearCaches", "src/pyslat.py")],
         observe="lookup, and the statistics of dependents after a redefinition",
         technique=PY + "one definition from an arbitrary state of the registries, and again with each library call failing; induction over the history",
         note="im, edp, fragfn, lossfn and compgroup replace what they redefine; detfn, probfn, structure and recorder have no replacement and "
              "are judged for lookup only. Replacement inside the library is C03.")
    prop("C20", "The Python classes answer with what the library answers",
         "Every query of a Python object asks the library object it wraps for the quantity of that name each time, for the given arguments (a number "
         "or a list), every setting reaches the library, and every constant is the library's. The object wrapped is the one its definition describes, "
         "and generated points go in even steps from the first to the last. A structure takes component groups of one intensity measure.",
         ["inputs", "histories"],
         "every class, method, function and constant of the module, for all arguments, in any order of calls",
         "the tests in C++ never reach the module, and an answer kept from an earlier call is right until something changes",
         ["src/pyslat.py"],
         [("wrapper classes", "src/pyslat.py"), ("module functions", "src/pyslat.py"), ("frange, linrange, logrange", "src/pyslat.py")],
         observe="methods of the pyslat classes",
         technique=PY + "answers as terms over the wrapped object, compared with the like-named query; points in rational normal form",
         note="All classes of the module; what the library answers is C25 and the properties behind it. Rounding of accumulated steps is not modelled.")
    prop("N01", "Integrals are accurate to the tolerance set",
         "A result which is reported as successful differs from the exact integral by no more than the tolerance allows, for the hazard, demand and "
         "loss functions a model can be made of.",
         ["inputs", "configurations"],
         "all models and settings", "the tests compare a few models with known values",
         ["src/maq.cpp", "src/relationships.cpp"], [("MAQ", "src/maq.cpp")],
         observe="the statistics of a model", claimed=False)
    prop("N02", "Rates fall and probabilities stay within bounds as demand grows",
         "Rates of exceedence never increase with the level exceeded, and every probability reported is between zero and one, whatever the model.",
         ["inputs", "configurations"],
         "all models and arguments", "the tests look at a few points",
         ["src/relationships.cpp", "src/comp_group.cpp", "src/fragility.cpp"],
         [("lambda, pExceeded, pDS", "src/relationships.cpp, src/comp_group.cpp")],
         observe="lambda, pExceeded, pDS_IM", claimed=False)
    prop("N03", "Results do not depend on the number of threads",
         "The same model gives the same numbers with one thread or many, however they are scheduled.",
         ["schedules", "configurations"],
         "all schedules and numbers of threads", "the tests run with one schedule",
         ["src/caching.h", "src/structure.cpp"], [("parallel loops", "src/structure.cpp, src/caching.h")],
         observe="the statistics of a model", claimed=False)
    prop("N04", "The results are those of the original SLAT",
         "For the worked examples, the statistics agree with those of the published FORTRAN program within its rounding.",
         ["configurations"],
         "the published examples", "the tests have a few of its values",
         ["src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp"], [("statistics", "src/comp_group.cpp, src/structure.cpp")],
         observe="the statistics of a model", claimed=False)
    na("N01", "The error of adaptive quadrature depends on values of the integrand at run time (its fourth derivative between the points looked at); "
              "no static argument in reach bounds it. What the source decides is claimed instead: failures are reported (C09), evaluations are counted "
              "and bounded (C10), covers its range (C22), the integrands are the specified ones (C27, C28, C32).")
    na("N02", "Monotonicity of an integral computed with a tolerance, and rounding at the ends of [0,1], are numerical facts of each run: "
              "quadrature errors may exceed the difference of two neighbouring rates. The formulas which would be monotone are claimed (C27, C31, C32).")
    na("N03", "Bitwise equality needs a deterministic order of floating point sums and of cache fills; the source decides only that threads do not "
              "interfere (C15), hold no lock wrongly (C05, C06, C08) and lose no counts (C10).")
    na("N04", "The other program is not here, and agreement of numbers is a fact of runs, not of the source.")
