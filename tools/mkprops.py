import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
AZP="region/p_regions/azp.py"; AU="region/p_regions/azp_util.py"; U="region/util.py"; CG="region/csgraph_utils.py"
OF="region/objective_function.py"; PE="region/p_regions/exact.py"; ME="region/max_p_regions/exact.py"; MH="region/max_p_regions/heuristics.py"; SK="region/skater/skater.py"
p("C01","Heuristic p-regions fits return feasible regionalizations",
 "Whenever a fit of AZP, simulated annealing AZP, basic tabu AZP or reactive tabu AZP gets a satisfiable request, it returns labels in which every area has one region, exactly the requested number of regions occurs, and the areas of each region are connected on the map. This holds for connected maps and maps with islands, for one region up to one region per area, from a random or a given start, and for every seed, setting, objective and attribute table.",
 ["inputs","configurations","schedules"],"every map (any number of connected components), attribute table, number of regions between the number of components and the number of areas, start solution, algorithm, algorithm parameter, and every outcome of the random choices",
 "The tests fit one connected 3x3 grid with 2 regions and seed 0; they never use islands, one region, as many regions as areas, a given start, or another random outcome.",
 [AZP,AU,U,CG],[("donor stays connected and non-empty",AZP+": candidate lists of the _azp_connected_component methods"),("revert of infeasible moves",AZP+": AZPTabu._make_move"),("per-component assembly of labels",AZP+": AZP.fit_from_scipy_sparse_matrix")],
 ["labels_ after fit","exceptions of fit"],[("labels_","region of each area",AZP)])
p("C02","Greedy and tabu fits never end worse than they started",
 "For AZP, basic tabu and reactive tabu, the objective value of the returned regionalization is never larger than the objective value of the start solution, for the pairwise and the centre-based objective and for every metric. Simulated annealing keeps the same promise when its temperature is so low that a worsening move is practically impossible.",
 ["inputs","configurations","schedules"],"every map, attribute table, start solution, objective function, metric, parameter and random outcome",
 "The tests compare one final clustering with one known optimum; no test compares the returned value with the value of a start solution.",
 [AZP,AU,OF],[("moves accepted only if the change is <= 0",AU+": AllowMoveAZP"),("choice of the solution to return",AZP+": AZPReactiveTabu._azp_connected_component")],["labels_ after fit with initial_labels"])
p("C03","Local search only takes legal single-area moves, each within its move rule",
 "While AZP, simulated annealing, basic tabu or reactive tabu runs, every change of the working solution moves one area into a region that the area borders, and it neither empties nor disconnects the region the area leaves. AZP and the tabu searches never make a move that increases the objective. The labels returned are the ones this walk ends in (for reactive tabu: the best ones of this walk).",
 ["inputs","schedules","histories"],"every step of every run: all maps, start solutions, objectives and sequences of random choices",
 "The tests look only at the final labels of one seeded run; intermediate solutions, where a wrong neighbour list or stale candidate shows, are never seen.",
 [AZP,AU,U,CG],[("candidate filter and incremental neighbour bookkeeping",AZP+": AZP._azp_connected_component"),("AZPTabu._make_move",AZP)],["calls of a user-supplied objective function","calls of a user-supplied move strategy","labels_"])
p("C04","AZP offers every legal move and stops only at a local optimum",
 "In every sweep AZP takes each region of a connected component once as recipient and offers its move rule every area that could legally join that region, until the rule has rejected all of them; it sweeps again whenever the last sweep lowered the objective, and stops otherwise. So when a run made no equal-value moves, no single legal move would improve the returned solution.",
 ["inputs","schedules","histories"],"every map, start, sequence of accepted and rejected moves (any user-supplied move rule) and random order of regions and candidates",
 "The tests reach one optimum on a 3x3 grid; a candidate that is forgotten after some sequence of moves still leaves that optimum reachable.",
 [AZP,AU],[("sweep and candidate loops, region_neighbors updates after a move",AZP+": AZP._azp_connected_component")],["calls of a user-supplied move strategy","labels_"],[("region_neighbors","areas bordering each region, kept up to date move by move",AZP)])
p("C05","Basic tabu takes the best admissible move and honours its tabu list",
 "Each step of basic tabu makes the legal, not forbidden move with the best objective change, as long as that change is not a worsening; forbidden are the reverses of the latest moves, up to the chosen tabu length. A forbidden move is made only when there is no such move and it improves the objective, and the search ends as soon as the current solution has been current the configured number of times before.",
 ["inputs","histories","configurations"],"every map, start, tabu length, repetition limit and history of moves",
 "The tests only check the final clustering for one tabu length; the list is never full, never consulted for a tie, and aspiration never happens.",
 [AZP],[("global best move and tabu deque",AZP+": AZPBasicTabu._azp_connected_component"),("AZPTabu._make_move / reset_tabu",AZP)],["calls of the move strategy","labels_"],[("tabu","reverses of recent moves",AZP)])
p("C06","Reactive tabu is a bounded steepest descent that returns its best solution",
 "Each iteration of reactive tabu makes the best legal move that is not forbidden, provided it does not worsen the objective, and the search goes on only while the iteration before lowered the objective and fewer than the maximum number of iterations were made. The best solution visited is returned, for every combination of its parameters.",
 ["inputs","histories","configurations"],"every map, start, max_iterations, k1, k2, several components in one fit",
 "All 12 tests of this class fail on the pinned commit, so nothing about it is settled by tests.",
 [AZP],[("iteration loop, visited list, cycle detection",AZP+": AZPReactiveTabu._azp_connected_component")],["calls of the move strategy","labels_"],[("visited","solutions seen in this run",AZP)])
p("C07","Simulated annealing follows its acceptance, cooling and stopping rules",
 "A move that does not worsen the objective is always accepted, and a worsening one with probability exp(-increase/temperature), where the temperature starts at its initial value and is multiplied by the cooling factor after each round. A round repeats AZP runs until the number of accepted worsening moves in the round reaches its limit, a run leaves the solution unchanged, or the maximum number of runs is made; annealing ends after the configured number of rounds without any move, or once a round ends in a solution that earlier rounds already ended in the configured number of times.",
 ["inputs","histories","configurations","schedules"],"every temperature, cooling factor, limit, map, start and random outcome",
 "The tests use one temperature and compare the final clustering; acceptance frequencies, round boundaries and stop conditions are never observed.",
 [AZP,AU],[("acceptance rule, counters, observers",AU+": AllowMoveAZPSimulatedAnnealing"),("rounds and cooling",AZP+": AZPSimulatedAnnealing.fit_from_scipy_sparse_matrix")],["AllowMoveAZPSimulatedAnnealing calls","calls of a user-supplied objective function","labels_"],[("t, sa, visited, move_made","annealing state",AZP)])
p("C08","Random start solutions are feasible for every map and random outcome",
 "The random start solution gives each connected component of the map at least one and at most as many regions as it has areas, numbers regions so that components share none, and splits each component into connected regions, the requested number in total. Components are delivered one at a time, each exactly once, with all areas outside the component marked as not assigned.",
 ["inputs","schedules"],"every map, every number of regions between the number of components and the number of areas, every outcome of the random choices",
 "One doctest splits a path of 10 areas; islands, dense maps and extreme numbers of regions are not covered.",
 [U],[("distribute_regions_among_components",U),("generate_initial_sol / spanning tree cuts",U)],["region.util.generate_initial_sol","region.util.distribute_regions_among_components"])
p("C09","Unsatisfiable or malformed requests are refused and change nothing",
 "A request that cannot be satisfied (more regions than areas, fewer regions than connected components, a start solution with a wrong number of regions or a disconnected region, a threshold no regionalization can meet) or that is malformed (unknown method, solver, metric or contiguity, mismatching dictionary keys, parameters out of range) ends in an exception, never in labels. The labels of an earlier successful fit stay as they were, and satisfiable requests are not refused.",
 ["inputs","histories","configurations"],"every estimator, input format and kind of invalid request, before and after successful fits",
 "No test passes an invalid request to any estimator; only the feasibility helper is tested for two-area maps.",
 [AZP,PE,ME,MH,SK,U],[("assert_feasible, argument checks, solver status",U+", "+PE+", "+ME),("argument checks of the fit methods",AZP+", "+MH+", "+SK)],["exceptions of fit","labels_ before and after"])
p("C10","All input formats describe the same map and give area-aligned results",
 "The same map given as sparse matrix, W object, networkx graph, dictionary or GeoDataFrame is understood identically: each area keeps its own neighbours, attributes, spatially extensive attributes and start label, whatever the names of the areas and the order in which they were inserted. The labels come back in the order of the areas in the input (sorted by name for dictionaries, node order for graphs, row order otherwise).",
 ["inputs","configurations"],"every estimator with several input formats, every naming and insertion order of areas, one or several attributes",
 "The tests use areas 0..8 inserted in sorted order, for which any mix-up of orderings is invisible, and attributes that are equal copies.",
 [AZP,PE,ME,MH,U],[("array_from_graph_or_dict, array_from_dict_values, scipy_sparse_matrix_from_dict, w_from_gdf, array_from_df_col",U),("fit_from_* wrappers",AZP+", "+PE+", "+ME+", "+MH)],["fit_from_w / fit_from_networkx / fit_from_dict / fit_from_geodataframe","labels_"])
p("C11","Fits leave everything the caller passed in unchanged",
 "After a fit (successful or refused) the adjacency, attributes, spatially extensive attributes, start labels, graphs, dictionaries, frames and weights objects that the caller passed in are exactly as they were before. A local search object handed to the max-p heuristic keeps its own move rule.",
 ["inputs","configurations"],"every estimator, input format, data type and dimension of the arrays",
 "Tests share module-level data between cases but never compare it with its original value.",
 [AZP,MH,SK,U,OF],[("copies of labels and attribute rows",U+": separate_components; "+MH+": grow_regions"),("temporary label change undone",OF+": ObjectiveFunctionCenter.update")],["arguments before and after fit"])
p("C12","The same seed and input always give the same labels",
 "Two estimators that are constructed with the same seed and parameters and fitted right away on equal input return identical labels, whatever random numbers were drawn before, in the same or another process and for any hash seed. This covers AZP, simulated annealing, both tabu searches and the max-p heuristic with its default or a given local search.",
 ["inputs","schedules","configurations"],"every estimator with a seed, map and prior state of the random number generators; different interpreter processes",
 "The tests fix a seed but only compare with an optimum that most random streams reach; no test runs the same fit twice.",
 [AZP,MH,U],[("seeding in the constructors",AZP+", "+MH),("all random choices drawn from the seeded generator",U+": random_element_from, pop_randomly_from, generate_initial_sol")],["labels_ of repeated fits"])
p("C13","A reused estimator behaves like a fresh one",
 "The outcome of a fit depends on its arguments, the constructor parameters and the random numbers, not on earlier successful or failed fits of the same object, on other maps fitted before, or on a local search object having served before. With equal random numbers a reused estimator returns the same labels as a new one.",
 ["histories","inputs"],"every sequence of fits (valid and invalid, different maps and sizes) on one object of every estimator class",
 "Every test constructs a new object and fits it once.",
 [AZP,AU,MH,PE,ME,SK],[("state reset at the start of a fit",AZP+": visited, tabu, counters; "+MH+": move rule of the local search")],["labels_ after each fit of a sequence"])
p("C14","Max-p heuristic regions are connected, cover all areas and meet the threshold",
 "For nonnegative spatially extensive attributes, every regionalization returned by the max-p heuristic assigns each area to one connected region, and in each region the sum of each spatially extensive attribute reaches the threshold, with the default or any given AZP, tabu or annealing local search. The max-p move rule itself approves a move only if donor and recipient both still reach the threshold, also for negative values.",
 ["inputs","configurations","schedules"],"every map, spatially extensive attribute table, scalar or per-attribute threshold, local search algorithm, seed",
 "The tests use one 2x2 grid with unit attributes, threshold 2 and the default local search.",
 [MH,AU],[("grow_regions / assign_enclaves",MH),("AllowMoveAZPMaxPRegions",AU)],["labels_ after fit","AllowMoveAZPMaxPRegions calls","grow_regions / assign_enclaves results"])
p("C15","Max-p construction, choice and improvement follow the published heuristic",
 "Construction grows each region from a seed area by adding the unassigned bordering area of least total dissimilarity until the threshold is reached, leaves over only areas from which it cannot be reached, and then joins each left-over area to a bordering region of least total dissimilarity. The returned regionalization has as many regions as the best construction found, has an objective no larger than any constructed regionalization with that many regions, and, with the default local search, cannot be improved by a single legal move that keeps the threshold (unless equal-value moves were made).",
 ["inputs","schedules","histories"],"every map, attribute tables, threshold, number of constructions and random outcome",
 "The optimum of the single 2x2 test map is reached by almost any construction.",
 [MH,AU,AZP],[("grow_regions, find_best_area, assign_enclaves, find_best_region_idx",MH),("max-p bookkeeping and choice of the best partition",MH+": fit_from_scipy_sparse_matrix"),("objective value seen by the sweep loop",AU+": AllowMoveAZPMaxPRegions")],["grow_regions, assign_enclaves results","calls of a move strategy given with the local search","labels_"])
p("C16","Exact p-regions solutions are feasible and optimal for all three methods",
 "For every map and number of regions for which a feasible regionalization exists, the flow, order and tree method each return a feasible regionalization with the requested number of connected regions whose total pairwise dissimilarity within regions is the smallest possible. The three methods thus agree on the optimal value for every metric and number of attributes.",
 ["inputs","configurations"],"every (small) map with or without islands, number of regions from one to the number of areas, attribute table with ties or several columns, metric, method",
 "The tests solve one 3x3 map with 2 regions whose second attribute is a copy of the first.",
 [PE,U],[("_flow, _order, _tree",PE)],["labels_ after fit"])
p("C17","Exact max-p solutions have the maximum number of regions and the best value",
 "For every map and threshold for which a feasible regionalization exists, exact max-p returns connected regions covering all areas that each reach the threshold in every spatially extensive attribute. No feasible regionalization has more regions, and none with the same number of regions has a smaller total pairwise dissimilarity within regions.",
 ["inputs","configurations"],"every (small) map with or without islands, attribute tables with ties, scalar or per-attribute thresholds, metrics",
 "The tests solve one 2x2 map with unit attributes.",
 [ME,U],[("the integer program",ME+": fit_from_scipy_sparse_matrix")],["labels_ after fit"])
p("C18","Objective functions: the update equals the change of the objective value",
 "For every labelling and every move of an area to another existing region, the reported change equals the objective value after the move minus the value before, for pairwise and centre objectives, every metric (by name or as a function in the style of scikit-learn's pairwise distances), centre and reduction. Evaluating objective or change leaves labels and attributes unmodified, and the value depends only on the grouping, not on the label numbers.",
 ["inputs","configurations"],"every labelling, move, attribute table, metric, centre and reduction function",
 "Three doctests evaluate the objective of fixed labels; the update method is not tested at all.",
 [OF,U],[("__call__ and update",OF),("get_metric_function",U)],["ObjectiveFunctionPairwise / ObjectiveFunctionCenter calls"])
p("C19","Skater regions are connected, counted as requested and respect the quorum",
 "A fit of the spanning forest yields regions that are connected on the map and, if no component of the map is smaller than the quorum, never smaller than the quorum; their number is the requested one (plus the number of connected components when islands are set to increase), unless no remaining cut respects the quorum, in which case it stops with fewer regions and a warning. Areas with equal attributes and affinities instead of dissimilarities are handled like any others, and the components of the reported forest are the regions.",
 ["inputs","configurations"],"every map with or without islands, data table including duplicates, number of clusters, quorum, islands option, dissimilarity or affinity",
 "The only test file needs a download and is excluded from the stable tests, so nothing about this module is tested here.",
 [SK],[("Spanning_Forest.fit loop, islands handling, quorum",SK)],["current_labels_, minimum_spanning_forest_ after fit","warnings"])
p("C20","Skater prunes a minimum spanning forest by the best cut each time",
 "The initial forest is a minimum spanning forest of the attribute dissimilarities on the map, and each further region arises by removing the one forest edge whose removal gives the smallest total dissimilarity to the region centres among cuts respecting the quorum. So the regions for more clusters refine those for fewer, and the score reported for labels is the reduction of the per-region scores, infinite when a region is below the quorum.",
 ["inputs","configurations","histories"],"every map, data table, dissimilarity, centre, quorum and number of clusters",
 "The only test file needs a download and is excluded; scores and cuts are never compared with anything.",
 [SK],[("find_cut, make_cut, score, fit",SK)],["fit, find_cut, make_cut, score results"])
p("C21","Feasibility checks and graph helpers agree with their definitions",
 "A labelling passes the feasibility checks exactly when every region is connected and, if a number of regions is given, that many regions occur. Connectedness, neighbours, subgraphs, splitting into components and conversions between region lists and label arrays return exactly what the map and labelling define, for every map and labelling.",
 ["inputs"],"every graph and every labelling (all of them up to 4 areas, random larger ones), every subset of removed nodes",
 "The tests check four two-area cases and a few doctest examples.",
 [CG,U],[("is_connected, neighbors, sub_adj_matrix",CG),("assert_feasible, boolean_assert_feasible, separate_components, array_from_region_list, find_sublist_containing, count",U)],["return values and exceptions of the helpers"])
p("C22","Every fit comes to an end, also when many moves are equivalent",
 "AZP, the tabu searches and the max-p heuristic finish for every satisfiable request, including maps on which all attributes are equal: AZP makes only a bounded number of moves between two improvements, reactive tabu at most its maximum number of iterations, basic tabu only until some solution has been current the configured number of times, and max-p construction assigns each area once. Simulated annealing finishes whenever no two neighbouring solutions have the same value.",
 ["inputs","schedules","histories"],"every map with arbitrarily many ties, every start and random outcome",
 "The test map has no ties; cycling through equal solutions cannot occur on it.",
 [AZP,MH],[("sweep loop condition, repetition limit, iteration limit",AZP),("unassigned area bookkeeping",MH+": grow_regions")],["number of evaluations of a user-supplied objective function during fit"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
