#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ALG = ["algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/SPEA2/SPEA2.py",
       "algorithms/IBEA/IBEA.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/OMOPSO/OMOPSO.py",
       "algorithms/JGBL/JGBL.py", "algorithms/NSLS/NSLS.py"]
TOOLS = ["algorithms/base/drivertools.py"]
HGS = ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/DistributedHGS.py",
       "algorithms/HGS/distributed/actors.py", "algorithms/HGS/distributed/hgs_tasks.py",
       "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/message.py", "algorithms/HGS/tools.py"]

p("C01", "Every evaluated or returned solution lies inside the problem's box",
  "Every decision vector an algorithm passes to an objective function, and every vector in a population it returns, has each coordinate between the lower and the upper bound the problem declares for that coordinate. This holds after any number of steps, for any random draws, for every problem dimension and box, and for vectors made by crossover, mutation, local search, gene jumping, particle moves or sprouting.",
  ["inputs", "histories"], "all problem boxes, all in-box starting populations, all random draws, all numbers of steps",
  "Tests run one or two seeds on one problem for a few steps and never look at coordinates; leaving the box takes a rare draw in an operator's tail.",
  ALG + TOOLS + ["algorithms/HGS/tools.py", "algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/node_tasks.py"],
  [("clamping in SBX crossover and polynomial mutation", "algorithms/base/drivertools.py:mutate, crossover"),
   ("NSGA-III operators", "algorithms/NSGAIII/NSGAIII.py:simulated_binary_crossover, polynomial_mutation"),
   ("particle position reflection and bounded mutations", "algorithms/OMOPSO/OMOPSO.py:move, Mutation.__call__"),
   ("local-search clamping", "algorithms/NSLS/NSLS.py:local_search"),
   ("ratio encoding of jumping genes", "algorithms/JGBL/JGBL.py:convert_to_ratio, decode_ratio"),
   ("sprout generation", "algorithms/HGS/tools.py:population_from_delegate")],
  observe=["arguments of objective functions", "finalized population"])

p("C02", "Variation works on copies: parents, survivors and inputs are never altered",
  "Crossover, mutation and sprouting return new vectors and never write into the vectors they are given. A vector that belongs to the caller's initial population, or to an individual that has already been evaluated and is kept (parent, archive member, survivor, migrant's origin), is never modified in place while it still serves in that role.",
  ["inputs", "histories"], "all populations, random draws and step sequences, including copies shared between islands, archives and nodes",
  "A shared vector is only changed when a particular operator fires on it, and tests compare no vector before and after.",
  ALG + TOOLS + ["algorithms/HGS/tools.py", "algorithms/IMGA/IMGA.py"],
  [("operators build a fresh list", "algorithms/base/drivertools.py:mutate, crossover, old_mutate, old_crossover, crossover_beta"),
   ("offspring start from copies", "algorithms/NSGAIII/NSGAIII.py:make_offspring_individuals"),
   ("particles copy the initial vectors", "algorithms/OMOPSO/OMOPSO.py:Individual.__init__"),
   ("gene jumping on copies", "algorithms/JGBL/JGBL.py:jump_genes")])

p("C03", "Every dominance test decides strict Pareto dominance for minimisation",
  "Whenever the system compares two solutions for dominance, one dominates the other exactly when it is no worse in every objective and strictly better in at least one; equal vectors never dominate each other. The answer is the same in every algorithm, in the shared comparison helpers and in the quality indicators, for any number of objectives.",
  ["inputs"], "all pairs of objective vectors of every length",
  "Unit tests sample a few two-objective vectors for one helper; the copies inside the algorithms are not tested and errors show only on ties or on more objectives.",
  ["evotools/ea_utils.py", "algorithms/NSGAII/NSGAII.py", "algorithms/SPEA2/SPEA2.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/NSLS/NSLS.py", "algorithms/base/hv.py", "metrics/metrics_utils.py"],
  [("shared helpers", "evotools/ea_utils.py:dominates, domination_cmp"),
   ("algorithm copies", "algorithms/NSGAII/NSGAII.py:dominates; algorithms/OMOPSO/OMOPSO.py:Individual.dominates; algorithms/SPEA2/SPEA2.py:dominates"),
   ("direction of use in sorting and filtering", "NSGAII._nd_sort, SMSEMOA, NSLS.nd_sort, metrics_utils.filter_not_dominated")])

p("C04", "Archives, fronts and layers keep exactly the non-dominated members",
  "Filtering a set for non-dominated members returns every member no other member dominates and none that is dominated, whatever the order of the members and whatever ties they contain. Inserting a candidate into a non-dominated archive removes every member it dominates and stores it exactly when no member dominates it (a candidate whose objectives a member already has may be left out), and splitting a population into layers loses no individual and repeats none.",
  ["inputs", "histories"], "all sets and orders of solutions, all insertion sequences",
  "The mistakes appear only for particular orders (several dominated members in a row, equal members), of which tests sample none for most of the filters.",
  ["metrics/metrics_utils.py", "evotools/ea_utils.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/BOGO/BOGO.py", "algorithms/NSGAII/NSGAII.py", "algorithms/NSLS/NSLS.py", "algorithms/NSGAIII/NSGAIII.py", "simulation/metrics_processor.py"],
  [("filters", "metrics/metrics_utils.py:filter_not_dominated, filter_not_dominated2; metrics/metrics.py"),
   ("layers", "evotools/ea_utils.py:paretofront_layers; NSGAII._nd_sort; NSGAIII.theta_non_dominated_sort; NSLS.nd_sort"),
   ("archive insertion", "algorithms/OMOPSO/OMOPSO.py:Archive.add; algorithms/BOGO/BOGO.py:refresh_archive")])

p("C05", "Stored objective values always belong to the individual's current vector",
  "At every point where objective values of an individual are read for comparison, selection, archiving or reporting, they are the objective functions' values for the vector the individual holds at that moment. Changing a vector discards or recomputes its objectives before they are used again, and a value cached for a vector is only ever returned for an equal vector.",
  ["histories", "inputs"], "all step sequences, random draws and cache states",
  "Stale objectives look plausible; tests never recompute objectives of a returned population.",
  ALG + ["algorithms/base/model.py", "algorithms/HGS/tools.py", "algorithms/IMGA/message.py", "algorithms/SPEA2/message.py"],
  [("evaluation of individuals without objectives", "NSGAII._calculate_objectives, NSGAIII._calculate_objectives, SPEA2, IBEA.calculate_objectives, SMSEMOA, OMOPSO.calculate_objectives, NSLS.calculate_objectives"),
   ("fitness archive keyed by vector", "algorithms/HGS/tools.py:ResultArchive and its uses in the algorithms")])

p("C06", "Reported cost counts every new objective evaluation exactly once",
  "The cost an algorithm reports grows by exactly one for every individual whose objectives are newly computed and by nothing for one served from the fitness cache or evaluated before. It never decreases. For the island model it is the sum over the islands' inner algorithms. For the tree each node's metaepoch is charged once, what its inner algorithm's cost grew by times the cost factor of the node's level; the classic tree adds up these charges over all nodes advanced in a step, the distributed one, whose nodes run side by side, adds the largest of them.",
  ["histories", "inputs"], "all step sequences, cache states, population sizes and tree or island layouts",
  "Tests assert only that cost is positive or reaches a budget; double or missed charging shifts every budget comparison silently.",
  ALG + ["algorithms/IMGA/IMGA.py"] + HGS + ["algorithms/base/driver.py"],
  [("per-individual charging", "_calculate_objectives / calculate_objectives of each algorithm"),
   ("summation over islands", "algorithms/IMGA/IMGA.py:update_cost"),
   ("cost of nodes in the tree", "algorithms/HGS/classic/ClassicHGS.py:Node, distributed/node_tasks.py:NewMetaepochNodeTask, hgs_tasks.py:MetaepochHgsTask")])

p("C07", "Migration conserves individuals",
  "When islands exchange individuals, an emigrant leaves its origin and arrives at exactly one destination, so the individuals on all islands together are the same before and after and none exists on two islands. Every island keeps its own number of individuals over an exchange, and nobody is dropped when an island receives migrants. The initial population is dealt out completely, each individual to one island, and the islands' initial sizes differ by at most one.",
  ["histories", "configurations"], "all island counts, topologies, migrant counts and inner algorithms",
  "Existing tests only check that an island model run finishes; a lost or duplicated migrant changes no asserted value.",
  ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/message.py", "algorithms/SPEA2/message.py", "algorithms/IBEA/message.py", "algorithms/SMSEMOA/message.py", "algorithms/OMOPSO/message.py"],
  [("neighbours", "algorithms/IMGA/topology.py:TorusTopology.create"), ("selection and delivery", "algorithms/IMGA/IMGA.py:migration, Island.emigrate, Island.immigrate, Island.assimilate"),
   ("population adapters", "*/message.py emigrate/immigrate")])

p("C08", "Every advertised algorithm can be built for every advertised problem",
  "For every algorithm name offered (plain, or stacked inside a tree or island model) and every problem name offered, assembling the configuration yields all parameters the algorithm's constructor requires and none it does not accept. Every name resolves to an existing class, message adapter and problem definition.",
  ["configurations"], "all algorithm x problem pairs on the advertised lists",
  "A smoke test builds one pair out of more than a hundred; a missing default or renamed parameter shows only when that pair is run.",
  ["simulation/factory.py", "simulation/run_config.py"] + ALG + ["algorithms/IMGA/IMGA.py", "algorithms/HGS/distributed/DistributedHGS.py"],
  [("configuration merging", "simulation/factory.py:prepare_with_driver, load_problem_config, load_algorithm_config"),
   ("parameter tables", "simulation/run_config.py:algo_base, prob_base, cust_base, init_alg___*")])

p("C09", "One simulation never changes the configuration another one sees",
  "Assembling or running a simulation leaves the shared parameter tables, problem definitions, default arguments and class-level state exactly as it found them. Two simulations built in the same process, in either order, therefore get the same configuration they would get alone.",
  ["histories", "configurations"], "all sequences of simulations in one process",
  "Tests build one simulation per process; leaked state needs two runs in a particular order.",
  ["simulation/factory.py", "simulation/run_config.py", "algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/actors.py", "algorithms/IMGA/IMGA.py"],
  [("deep copies and fresh dictionaries", "simulation/factory.py:prepare_with_driver, load_problem_config, load_algorithm_config"),
   ("copies of shared lists in drivers", "ClassicHGS.__init__, DistributedHGS.__init__")])

p("C10", "Distributed tree search: every request gets exactly one reply",
  "Each kind of request a coordinator or node of the distributed search can be sent has a handler, and whatever the number and state of nodes, the handler eventually answers its requester exactly once per request. Each answer a task waits for is counted once, so no metaepoch, status check, trimming, sprouting, revival or population request waits for ever or completes twice.",
  ["schedules", "configurations", "histories"], "all delivery orders of messages, all numbers of nodes including zero alive or zero ripe",
  "The actor system is not exercised by the stable tests; a hang needs an empty set of nodes or an unusual order.",
  HGS[1:6],
  [("operation tables", "distributed/actors.py:HgsNodeSupervisor.configure_tasks, Node.configure_tasks"),
   ("steps of each task", "distributed/hgs_tasks.py:*.configure_steps; distributed/node_tasks.py:*.configure_steps"),
   ("driver's ask sequence", "distributed/DistributedHGS.py:step, finalized_population, shutdown")])

p("C11", "The search tree respects its level limits and per-level parameters",
  "A node at one level only ever uses the entries of the per-level tables that belong to that level, and its sprouts are created one level deeper with the deeper level's population size, variance and objective precision. No node is created below the last level, no node sprouts while it already has its allowed number of live sprouts, and no more sprouts are released at once than the sproutiveness allows.",
  ["configurations", "histories"], "all table contents, tree shapes and step sequences",
  "The stable tests run the tree for a few steps on one configuration and assert nothing about levels.",
  HGS,
  [("classic tree", "algorithms/HGS/classic/ClassicHGS.py:Node.__init__, release_new_sprouts"),
   ("distributed tree", "algorithms/HGS/distributed/actors.py:Node.reset; node_tasks.py:ReleaseSproutsNodeTask; hgs_tasks.py:ReleaseSproutsHgsTask")])

p("C12", "What a run stores is found again under the same identity",
  "Every result file a run writes lies in a directory and under a name that the reader of results recognises, with the same algorithm, problem, run and cost or time. Files the statistics write next to results are never taken for results.",
  ["inputs", "configurations"], "all algorithm, problem, run identifiers and budgets or times",
  "The smoke test stores two budgets of one algorithm and reads them back; unusual costs, dates and names are not sampled.",
  ["simulation/serializer.py", "simulation/serialization.py", "simulation/model.py", "simulation/worker.py", "simulation/metrics_processor.py"],
  [("writer", "simulation/serializer.py:Serializer; simulation/worker.py:process_results; simulation/model.py:get_simulation_id"),
   ("reader", "simulation/serialization.py:ResultsExtractor, NumberMeasuredResultExtractor"),
   ("metric cache names", "simulation/metrics_processor.py:get_metric")])

p("C13", "Metric tables agree: every name has one computation, direction and cache",
  "Every quality indicator offered is computed by the function of that name with the data it needs, is cached under its own name and the parameters it depends on, and appears in the ranking, plotting and statistics with one agreed direction of better. A cached value is only reused for the indicator and parameters it was stored for.",
  ["configurations", "histories"], "all indicators, problems and cache contents",
  "A table mismatch yields a plausible number; tests only check that the commands finish.",
  ["simulation/metrics_processor.py", "metrics/metrics.py", "statistic/ranking.py", "statistic/stats.py", "plots/pictures.py", "plots/violin.py"],
  [("computation registry", "simulation/metrics_processor.py:yield_metrics, get_metric"),
   ("direction tables", "statistic/ranking.py:best_func; plots/pictures.py:best_func")])

p("C14", "Computing an indicator never changes the data it reads",
  "Evaluating a quality indicator, filtering a set or computing a hypervolume leaves the populations, fronts, reference points and solution sets passed to it unchanged (an indicator may store its own value with the result). Evaluating it again on the same data gives the same value, regardless of which indicators were computed before.",
  ["inputs", "histories"], "all inputs and all orders of indicator computations",
  "Tests call each function once; a mutated input only corrupts a later computation.",
  ["metrics/metrics.py", "metrics/metrics_utils.py", "metrics/epsilon.py", "algorithms/base/hv.py", "evotools/ea_utils.py"],
  [("pure functions over fresh lists", "metrics/*.py"),
   ("per-call state of the hypervolume", "algorithms/base/hv.py:HyperVolume.compute, preProcess")])

p("C15", "Every objective function is defined on its whole box",
  "For every problem offered, each objective function returns a real number for every vector of the declared length within the declared box, bounds included. No coordinate in the box leads to a domain error, a division by zero or a missing coordinate.",
  ["inputs"], "all vectors of the box of every problem",
  "Tests evaluate one problem at random points; domain errors sit on faces of the box or at single points.",
  ["problems/*/problem.py"],
  [("objective definitions and boxes", "problems/*/problem.py:fitnesses, dims")])

p("C16", "Problem definitions are consistent and their objectives pure",
  "Every problem is found under the name it gives itself and declares as many objectives as its reference front has columns, no dominated point in that front, a lower bound below the upper bound for every coordinate, and objectives that use only declared coordinates. Objective functions do not alter their argument or any shared state, so the same vector always gets the same values.",
  ["inputs", "histories"], "all problems, all vectors, all evaluation orders",
  "Only one problem is used by the stable tests; an inconsistent definition shows up as wrong metrics elsewhere.",
  ["problems/*/problem.py", "simulation/factory.py"],
  [("problem modules", "problems/*/problem.py"), ("obligatory parameters", "simulation/factory.py:load_obligatory_problem_parameters")])

p("C36", "Reference fronts are attainable and unbeaten",
  "For every problem offered by the configuration, each point of its reference front can be attained by the objectives somewhere in the box, and no vector of the box has objectives that are all clearly better than a point of the front. Distances to the front and comparisons with it therefore measure the quality of a solution.",
  ["inputs"], "all vectors of the box and all points of the reference front, up to a stated tolerance",
  "Tests never relate a reference front to the objectives; the vectors that reach the front are not hit by sampling.",
  ["problems/*/problem.py"],
  [("fronts and objectives", "problems/*/problem.py:pareto_front, fitnesses, dims")])

p("C37", "Nodes of the search tree live, rest, sprout and revive by their progress",
  "In a tree search every live node, and no other, advances by its metaepoch in every step. A node is retired when, and only when, its dominated volume stopped growing fast enough or it lies too close to another node of its level that is live or stopped growing. Only nodes that stopped growing release sprouts, one for each delegate not too close to any node of the deeper level, as far as the limits leave room. When no node is left alive, those that stopped growing are revived with lower demands. The population returned is every node's population, each once.",
  ["histories", "schedules", "configurations"], "all histories of verdicts on progress and redundancy, tree shapes, delegate counts and message orders",
  "Stable tests run a few steps and assert nothing about which nodes advance; a node lost, revived too early or never again leaves a plausible population.",
  HGS,
  [("classic tree", "algorithms/HGS/classic/ClassicHGS.py:run_metaepoch, trim_not_progressing, trim_redundant, release_new_sprouts, revive_root"),
   ("distributed tree", "algorithms/HGS/distributed/hgs_tasks.py; node_tasks.py; DistributedHGS.py:step")])

p("C17", "Command line selections and options reach the run unchanged",
  "Every usage the command line documents is dispatched to the command of that name, and exactly the algorithms and problems selected are run: all of them when nothing is selected, each named one and no other otherwise. Options a command uses are read under their documented names and in their documented units.",
  ["configurations"], "all argument vectors the usage text admits",
  "The smoke test uses one fixed command line.",
  ["evogil.py", "simulation/factory.py", "simulation/run_parallel.py", "statistic/stats.py", "statistic/ranking.py", "plots/pictures.py"],
  [("dispatch table", "evogil.py:main_worker, set_default_options"),
   ("selection parsing", "simulation/factory.py:parse_problems, parse_algorithms, parse_budgets, resolve_results_dir")])

p("C18", "A failing simulation stops nobody else and releases its resources",
  "If building, running or storing one simulation raises any error, that simulation is reported as failed and every other one still runs and is counted. The algorithm's resources are released on every exit from a run, successful or not.",
  ["fault_sequences", "schedules"], "any exception at any point of any simulation, any subset of failing simulations",
  "No stable test makes a simulation fail.",
  ["simulation/worker.py", "simulation/run_parallel.py", "algorithms/base/driver.py", "evotools/rxtools.py"],
  [("worker's handlers", "simulation/worker.py:SimulationWorker.run"),
   ("collection of results", "simulation/run_parallel.py:run_parallel, process_result, log_summary")])

p("C19", "Each run draws from its own freshly seeded random generator",
  "In every simulation the random generator is seeded once, with fresh entropy, before the problem, the starting population or the algorithm draws from it. Nothing re-seeds it, replaces its state or pins it to a fixed sequence during the run, so no two runs share a random stream by accident.",
  ["schedules", "configurations"], "all simulations and process schedules",
  "Tests do not compare the random draws of two runs.",
  ["simulation/worker.py", "simulation/factory.py", "algorithms/**", "problems/**"],
  [("seeding", "simulation/worker.py:SimulationWorker._init_random_seed, run")])

p("C20", "A run stops when, and only when, its budget, step count or time is used up",
  "A budget run continues exactly while the reported cost is below the budget, a step run performs exactly the given number of steps, and a time run emits progress only up to the time limit and then ends. Every step advances the step counter by one, every requested budget gets one result in increasing order, and the observer is told of completion exactly once.",
  ["histories", "inputs", "schedules"], "all budgets, step counts, time limits and cost sequences",
  "Tests sample two budgets and one step count; off-by-one behaviour appears when cost meets a budget exactly or one step passes several budgets.",
  ["algorithms/base/driver.py", "algorithms/base/model.py", "simulation/worker.py", "simulation/factory.py"],
  [("run loops", "algorithms/base/driver.py:StepsRun, BudgetRun, TimeRun, StepCountingDriver"),
   ("per-budget results", "simulation/worker.py:BudgetWorker.run_driver, TimeWorker.run_driver")])

p("C21", "All readers number the runs of a problem in the same order",
  "Wherever runs of an algorithm on a problem are numbered, listed or matched with cached values, the numbering follows one and the same order of the stored runs. A value computed over all runs therefore always refers to the run that another part of the system calls by that number.",
  ["histories", "configurations"], "all sets of stored runs and directory listing orders",
  "Tests have one run; with one run every order agrees.",
  ["simulation/serialization.py", "simulation/metrics_processor.py"],
  [("numbering", "simulation/serialization.py:_each_run; simulation/metrics_processor.py:preload_results_for_problem, filter_non_dominated_in_cache")])

p("C22", "Cleaning up removes only the files it is meant to remove",
  "Clearing cached indicator values deletes exactly the cache files of the indicator and the problem concerned and never a stored result, whatever the directories and runs are called. No other command deletes, renames or overwrites stored results.",
  ["histories", "configurations"], "all directory and file names under a results directory",
  "The tests run in one directory layout; a wrong pattern destroys data only with an unlucky name.",
  ["simulation/metrics_processor.py", "dir_walker.py", "statistic/stats.py", "plots/pictures.py"],
  [("cache clearing", "simulation/metrics_processor.py:clear_old_pdi_metrics"), ("only deleting site", "os.remove / unlink / rmtree call sites")])

p("C23", "Rankings credit the right winners",
  "For each indicator the winner is the algorithm with the best mean value in that indicator's direction, and a near-winner is counted exactly when its value is within the stated relative tolerance of the winner's, whatever the magnitude of the values. Algorithms are compared on the same problem, indicator and result set, at the same budget or at each one's largest budget whose cost it kept to; results that overspent their budget are left out. The winner and every near-winner are credited once, and a winner nobody comes near twice where near-winners count.",
  ["inputs", "configurations"], "all tables of results, including ties and a single algorithm",
  "No stable test checks a ranking result.",
  ["statistic/ranking.py", "statistic/stats_bootstrap.py"],
  [("winner and tolerance", "statistic/ranking.py:get_weak_winners, rank, table_rank, detailed_rank"),
   ("results compared", "statistic/stats_bootstrap.py:validate_cost, find_acceptable_result_for_budget"),
   ("directions", "statistic/ranking.py:best_func, winner_tolerance")])


p("C24", "Population sizes are preserved from step to step",
  "A generational algorithm started with a population of N returns a population of N after every step, whatever selection, truncation and random draws did, and ends every step with the same number of individuals to work on: N, or, for those that keep parents and offspring together until the next step (NSGA-II, IBEA, gene jumping), N and the offspring of one mating pool. The leader archive the particle swarm returns has no fixed size but is never empty. No individual is selected twice by truncation, and none is invented: each one returned has had its objectives computed and was among parents or offspring.",
  ["histories", "inputs"], "all population sizes, objective values, ties and random draws",
  "Tests check sizes of nothing but migrants.",
  ALG, [("environmental selection", "NSGAII._environmental_selection, NSGAIII.create_final_population, SPEA2.truncate, IBEA._environmental_selection, SMSEMOA, NSLS.next_generation")])

p("C25", "Truncation never keeps a dominated individual and drops one dominating it",
  "When an algorithm cuts its merged parents and offspring back to the population size, it never discards an individual while keeping another one, of those that competed in the same truncation, that the discarded one Pareto-dominates. NSGA-III, which ranks within reference directions, never discards an individual while keeping one of the same direction with a larger scalarised value.",
  ["inputs", "histories"], "all merged populations, ties and sizes",
  "A wrong comparison or sort direction still converges on the test problem for a few steps; tests compare no survivors.",
  ALG, [("environmental selection", "NSGAII._environmental_selection, SPEA2.environmental_selection, IBEA._environmental_selection, SMSEMOA, NSGAIII.create_final_population")])

p("C26", "A stored result pairs every solution with its own objective values",
  "Every result written to disk or handed back by a run contains the whole population the algorithm reports at that moment, in one order, together with the problem's objective values of each of its solutions in that same order and the cost reported then. Reading a stored result gives back as many solutions as objective vectors, whichever algorithm produced it.",
  ["histories", "configurations"], "all algorithms (populations given as lists or as one-pass iterators), budgets and times",
  "Tests look at the number of results and not at their content; a population that can be iterated only once is silently stored empty.",
  ["simulation/worker.py", "simulation/serializer.py", "algorithms/**"],
  [("result assembly", "simulation/worker.py:BudgetWorker.run_driver, TimeWorker.run_driver"),
   ("reported population", "Driver.finalized_population of every algorithm")])

p("C27", "Quality indicators have their defined values",
  "Each quality indicator computed for a result has, for every result and reference front, the value its definition gives: generational distance is the root of the mean squared distance from a non-dominated member to the nearest front point, inverse generational distance the same from the front to the members, average Hausdorff distance the larger of the two; additive epsilon is the largest over non-dominated members of the least over front points of the largest coordinate shortfall; extent is the root of the summed objective ranges; spacing is the sample deviation of the Manhattan distances of non-dominated members to their nearest neighbours (zero for a single one); the non-domination ratio is the share of non-dominated members; hypervolume is the measure dominated up to fifty in every objective; the dominance indicator is the share of the distinct jointly non-dominated solutions that the result contributes, never above one. Ties, coinciding points and single-member results included.",
  ["inputs"], "all results and fronts", "Tests run no indicator against a definition.",
  ["metrics/**", "algorithms/base/hv.py", "simulation/metrics_processor.py"],
  [("indicator functions", "metrics/metrics.py:generational_distance … pareto_dominance_indicator"), ("formulas", "metrics/metrics_utils.py:distance, spacing, extent, pareto_dominance_indicator; metrics/epsilon.py")])

p("C28", "Reported statistics have their defined values",
  "For every sample of results the analysis reports: the mean and population standard deviation of all values, mean ± three deviations as bounds, and a warning mark exactly when fewer than 95 % of the values lie between them; fences one and a half and three quartile distances outside the (linearly interpolated) quartiles; the percentages of values beyond the inner but not the outer fences, and beyond the outer ones; mean and deviation of the values within the inner fences with their relative differences; and a bootstrap interval between the order statistics 2.5 % from either end of the means of the requested number of resamples, each of two thirds of the sample's size but at least one value, drawn with replacement from all values, with its relative width, marked high above 30 %. The budget accepted for comparison is the largest one whose mean cost is at most 500 above the largest budget of the series, or none.",
  ["inputs"], "all samples and numbers of resamples", "Tests analyse no sample.",
  ["statistic/stats_bootstrap.py", "statistic/stats.py"],
  [("analysis", "statistic/stats_bootstrap.py:yield_analysis, bootstrap, sample_wr, average"), ("accepted budget", "statistic/stats_bootstrap.py:find_acceptable_result_for_budget, validate_cost")])

p("C29", "Each algorithm keeps the individuals its own measure prefers",
  "Whenever an algorithm has more individuals than places, those that stay are the ones its selection measure ranks first, up to ties: SPEA2 keeps the members with the least fitness (summed strengths of their dominators plus the density by the distance to the k-th neighbour, k the root of the number competing) and, where more are non-dominated than fit, drops one by one the member nearest to another, equal distances decided by the next neighbours; NSGA-II and JGBL keep whole fronts and of the one that does not fit the least crowded; IBEA drops one by one the member with the worst summed exponential epsilon-indicator over scaled objectives; SMS-EMOA drops the member of the worst front that contributes least hypervolume; theta-NSGA-III keeps whole ranks along its reference directions; NSLS keeps whole fronts; OMOPSO's archive of leaders, when it has one too many, gives up the one with the smallest crowding distance, and of the two leaders drawn for a particle the one with the larger distance leads it.",
  ["histories", "inputs"], "all populations, objective values and steps",
  "Tests run algorithms for a few seconds and look at no survivor; a wrong measure only lowers the quality of results.",
  ["algorithms/**"],
  [("SPEA2", "algorithms/SPEA2/SPEA2.py:calculate_raw_fitness, calculate_density, environmental_selection, choose_to_truncate, get_min"), ("NSGA-II", "algorithms/NSGAII/NSGAII.py:_crowding, _environmental_selection"),
   ("IBEA", "algorithms/IBEA/IBEA.py:_calculate_fitness, _environmental_selection"), ("SMS-EMOA", "algorithms/SMSEMOA/SMSEMOA.py:reduce_population"),
   ("NSGA-III", "algorithms/NSGAIII/NSGAIII.py:clustering, calculate_theta_fitness, create_final_population"), ("NSLS", "algorithms/NSLS/NSLS.py:next_generation"), ("OMOPSO", "algorithms/OMOPSO/OMOPSO.py:LeaderArchive, CrowdingTournament")])

p("C38", "Benchmark problems have their published definitions",
  "Every objective of the benchmark problems ZDT1-ZDT4, ZDT6 (Zitzler, Deb, Thiele), UF1-UF10 (CEC 2009), ackley and kursawe is, for every vector of the problem's box, the published formula, and the box is the published one: index sets, phase shifts, exponents and constants included. UF5 is taken with ten variables and ten segments and UF6 with thirty segments, as this repository defines them; UF8, UF9 and UF10 sum over the indices j from three on for which j-1, j-2 and j are multiples of three. Results for these problems can therefore be compared with those of the literature.",
  ["inputs"], "all vectors of the box",
  "Tests evaluate no objective against an independent value; a wrong index set or phase leaves the Pareto front as it is and only makes the problem harder or easier.",
  ["problems/**"],
  [("objectives", "problems/*/problem.py:fitnesses"), ("bounds", "problems/*/problem.py:dims")])

p("C39", "Variation operators follow their published formulas",
  "For every parent, dimension, bounds, rate and eta and every draw of the random generator: polynomial mutation and simulated binary crossover (drivertools, and the NSGA-III variants) change a coordinate exactly when the draw falls under the rate and then to the value of the published spread formula, from the parent's own coordinate; an OMOPSO step moves each particle by its speed formula (inertia, personal best and leader terms, turned at the walls) and mutates one third of the swarm uniformly, one third non-uniformly (with the perturbation decaying over the steps) and one third not at all; the local search of NSLS builds its two candidates from the individual and two others by the published step and keeps the one the paper keeps; initial populations are uniform on the box; a sprout population is the seed with mutants of it; a weighted choice selects each entry in proportion to its weight.",
  ["inputs", "histories"], "all parents, bounds, rates, indices and random draws",
  "Tests run an algorithm for a step or two and look at nothing but the absence of exceptions; a wrong exponent, a swapped bound or a reused draw still gives individuals inside the box.",
  ["algorithms/**", "evotools/**"],
  [("mutation and crossover", "algorithms/base/drivertools.py:mutate"), ("NSGA-III operators", "algorithms/NSGAIII/NSGAIII.py"),
   ("flight", "algorithms/OMOPSO/OMOPSO.py"), ("local search", "algorithms/NSLS/NSLS.py"),
   ("initial population", "evotools/ea_utils.py:gen_population"), ("weighted choice", "evotools/random_tools.py:weighted_choice"),
   ("sprouts", "algorithms/HGS/classic/ClassicHGS.py:population_from_delegate")])

p("C40", "Figures show each algorithm's own results under its own name",
  "Whatever results are stored, the commands pictures, pictures_summary, best_fronts and violin make their figures without failing, and in the figure saved under the name of a problem and an indicator every algorithm that has a place in the figures (each driver drawn on its own has one under every meta-algorithm, too) is drawn under its own name with its own values and nothing else: pictures joins its mean scores at the times of its results in the order of time, with no result beyond the limits of the axis; pictures_summary puts the logarithmic score of its accepted result over the problem it belongs to, relative to the best one of that problem (the pure dominance index unscaled); best_fronts draws the objective values of the first run of its accepted result, objective by objective, over the problem's complete known front; violin puts the values of all runs of its accepted result over its name, leaving out algorithms without any value but zero. Algorithms without a place are left out.",
  ["inputs"], "all sets of stored results",
  "No test draws a figure (the plotting library is not even installed where the tests run).",
  ["plots/**"],
  [("times", "plots/pictures.py:pictures_time, plot_results"), ("summary", "plots/pictures.py:pictures_summary, plot_results_summary"), ("tables", "plots/pictures.py:algos, algos_order, algos_groups"),
   ("fronts", "plots/best_fronts.py:best_fronts, plot_results, plot_problem_front"), ("violins", "plots/violin.py:violin")])

p("C30", "Hypervolume values are numerically correct",
  "The hypervolume reported for a front equals the measure of the region it dominates up to the reference point, within floating-point accuracy.",
  ["inputs"], "all fronts and reference points", "Tests compare a handful of fronts.",
  ["algorithms/base/hv.py"], [("dimension sweep", "algorithms/base/hv.py:hvRecursive")])
p("C31", "Algorithms converge towards the Pareto front",
  "With growing budget the quality indicators of every algorithm improve in distribution on every problem.",
  ["inputs", "histories"], "all problems, budgets and seeds", "A statistical statement.",
  ["algorithms/"], [("algorithms as a whole", "algorithms/*")])
p("C32", "Bootstrap confidence intervals have their stated coverage",
  "The confidence interval printed for an indicator contains its mean with the stated probability.",
  ["inputs"], "all samples", "A probabilistic statement over samples.",
  ["statistic/stats_bootstrap.py"], [("bootstrap", "statistic/stats_bootstrap.py:bootstrap, yield_analysis")])
p("C33", "Reported wall-clock times are accurate",
  "Elapsed times reported by time-bound runs are within one step of the real time spent.",
  ["schedules"], "all machine loads", "Depends on the machine.",
  ["algorithms/base/driver.py", "simulation/timing.py"], [("clock reads", "algorithms/base/driver.py:TimeRun")])
p("C34", "A result file is never observed half-written",
  "A crash or a concurrent reader never sees a partially written result file.",
  ["crash_points", "schedules"], "all crash points during a store", "No test crashes a run.",
  ["simulation/serializer.py"], [("file store", "simulation/serializer.py:save_file, store")])
p("C35", "Every step of an algorithm comes to an end",
  "Constructing an algorithm and running a step of it always comes to an end: no loop of selection, mating, local search, reference-point niching or truncation runs on for ever, whatever the shapes of the fronts - all individuals equal, none better than another, a single individual, nothing new that could join the population.",
  ["inputs", "histories"], "all populations and fronts, including ones whose members coincide, and all random draws", "A loop that waits for something to happen hangs only on degenerate fronts the tests never produce.",
  ALG + ["algorithms/IMGA/IMGA.py"], [("selection loop", "algorithms/NSLS/NSLS.py:next_generation"), ("niching", "algorithms/NSGAIII/NSGAIII.py:theta_non_dominated_sort, create_final_population"), ("truncation", "algorithms/SPEA2/SPEA2.py, algorithms/NSGAII/NSGAII.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
