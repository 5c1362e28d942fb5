"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
S = "c++/src/"
P = "python/src/KMCLib/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=a))

prop("C01", "Available events always equal a fresh match of the configuration",
 "After a model is set up and after every executed step, the set of available events is exactly the set of (process, site) pairs for which "
 "the site belongs to a basis position of the process and every lattice position the process names carries what the process requires there (the given type, at least the given "
 "occupations, or anything for a wildcard), positions being taken with the lattice's periodicity. No event is missing, stale, listed twice or listed at a wrong site.",
 ["inputs", "histories"], "every lattice (1-3 dimensions, any basis, any periodicity, large enough that every displacement of a process is less than half a period), every process list and initial configuration, after every prefix of every run",
 "The tests match a handful of hand-made configurations once and check lists after one or two hand-made updates; incremental bookkeeping errors need a specific basis, range, periodic wrap and sequence of events.",
 [S+"matcher.cpp", S+"matchlist.cpp", S+"matchlist.h", S+"matchlistentry.cpp", S+"configuration.cpp", S+"latticemodel.cpp", S+"latticemap.cpp", S+"interactions.cpp", S+"process.cpp", S+"customrateprocess.cpp", S+"typebucket.h"],
 [("incremental re-matching of the neighbourhood of changed sites", S+"latticemodel.cpp LatticeModel::singleStep; "+S+"matcher.cpp Matcher::calculateMatching"),
  ("implicit wildcards merged into the process geometry", S+"interactions.cpp Interactions::updateProcessMatchLists"),
  ("sorted match lists compared position by position", S+"matchlist.h whateverMatch")],
 [("available sites", "sites at which each process can currently be performed", S+"process.h Process::sites"),
  ("inverse table", "which (site, process) pairs are listed", S+"matcher.h Matcher")],
 ["after construction of the model's backend", "after every step"])

prop("C02", "A step performs one available event and changes nothing else",
 "Every step performs exactly one event that was available in the state before the step, as the process describes it at that site: the sites the process changes take the 'after' types (or have "
 "the given occupation changes applied) and every other site keeps its content. The process and site reported as the latest event are the ones performed, and per-type particle counts always equal the counts in the configuration.",
 ["inputs", "histories"], "every process geometry, move, wildcard pattern, occupation update, site and lattice, at every step of every run",
 "Tests apply single processes to a few sites away from or just across one boundary; misplaced updates depend on geometry ordering, wildcards, basis and wrap combinations.",
 [S+"configuration.cpp", S+"latticemodel.cpp", S+"matchlist.cpp", S+"process.cpp", P+"CoreComponents/KMCProcess.py", P+"CoreComponents/KMCBucketProcess.py", P+"CoreComponents/KMCConfiguration.py"],
 [("application of the update to the matched sites", S+"configuration.cpp Configuration::performBucketProcess"),
  ("co-sorting of coordinates, types and moves", P+"CoreComponents/KMCProcess.py, "+P+"Utilities/ConversionUtilities.py"),
  ("update derived from before/after configurations", S+"matchlist.cpp configurationsToMatchList")],
 [("site types", "type or occupations at each lattice site", S+"configuration.h Configuration::types / elements")],
 ["configuration before and after each step", "latest event process and site"])

prop("C03", "Events are chosen in proportion to their rates; time follows the total rate",
 "At every step the next event is drawn with probability equal to its rate divided by the summed rate R of all available events (each available site of a process counting once), and simulated time advances by -ln(u)/R, "
 "with u a fresh uniform draw and R the total of the state being left. Events of zero rate and processes without available sites are never chosen, time never decreases and always stays finite.",
 ["inputs", "histories"], "every process list, every spread of rates (including many orders of magnitude and zero rates), every state reached, every random number generator and seed",
 "The tests compare a few frequencies for one hand-made rate list; a stale total, a rounding residue, a boundary draw or a wrong table only shows for particular rate spreads, histories or random numbers.",
 [S+"interactions.cpp", S+"process.cpp", S+"customrateprocess.cpp", S+"simulationtimer.cpp", S+"random.cpp", S+"latticemodel.cpp", P+"CoreComponents/KMCLatticeModel.py"],
 [("cumulative process table", S+"interactions.cpp Interactions::updateProbabilityTable / pickProcessIndex"),
  ("cumulative site table", S+"process.cpp, "+S+"customrateprocess.cpp pickSite / updateRateTable"),
  ("incrementally kept total rate", S+"process.cpp, "+S+"customrateprocess.cpp addSite / removeSite"),
  ("time propagation", S+"simulationtimer.cpp SimulationTimer::propagateTime")],
 [("probability table", "running sums of the process rates", S+"interactions.h Interactions")],
 ["simulation time before and after each step", "event chosen at each step"])

prop("C04", "Custom rates see the true surroundings and are always up to date",
 "Whenever a custom rate calculator is asked for a rate it is given the coordinates relative to the site, the types (or occupations) before and after the event of exactly the sites within the cutoff in increasing distance, "
 "the process's number and rate constant, and the site's coordinate, all as they are in the current configuration. At every step the rate in force for each available event equals what the calculator returns for the current configuration.",
 ["inputs", "histories"], "every cutoff (fractional, shorter or longer than the process, covering the whole lattice), every lattice, basis and process, plain and multi-occupancy, Python and C++ calculators, after every step",
 "The tests record a single callback for a couple of sites with integral cutoffs; stale rates need an event outside the process geometry but inside the cutoff, and wrong inputs depend on the position in the lattice.",
 [S+"matcher.cpp", S+"hash.cpp", S+"customrateprocess.cpp", S+"ratecalculator.cpp", S+"matchlist.cpp", P+"PluginInterfaces/KMCRateCalculatorPlugin.py", P+"CoreComponents/KMCInteractions.py", "c++/custom/"],
 [("rate evaluation over the local match list", S+"matcher.cpp Matcher::updateSingleRate"),
  ("range that covers the cutoff, used for re-matching", S+"customrateprocess.cpp CustomRateProcess"),
  ("conversion to Python types", P+"PluginInterfaces/KMCRateCalculatorPlugin.py")],
 None, ["every callback to the rate calculator", "per-process total rates after each step"])

prop("C05", "Caching of custom rates never changes a simulation",
 "For a rate calculator whose result depends only on the process and on the types or occupations within the cutoff, a run with rate caching switched on executes the same events at the same times as the same run with caching off, for any exclusion list, however many distinct surroundings occur. "
 "Processes excluded from caching are evaluated anew every time.",
 ["inputs", "histories"], "every such calculator, exclusion list, lattice and number of distinct surroundings (below, at and beyond the cache's capacity)",
 "The tests use one small system whose surroundings all fit in the first cache table and compare a single final state.",
 [S+"ratetable.h", S+"ratetable.cpp", S+"hash.cpp", S+"matcher.cpp", P+"PluginInterfaces/KMCRateCalculatorPlugin.py", P+"CoreComponents/KMCInteractions.py"],
 [("bounded rotating tables", S+"ratetable.cpp RateTable"), ("key from process and occupations", S+"hash.cpp hashCustomRateInput"),
  ("use of cached values", S+"matcher.cpp Matcher::calculateMatching")],
 [("stored rates", "rate per key", S+"ratetable.h RateTable")], ["calls of the calculator", "events and times of paired runs"])

prop("C06", "Every particle keeps its identity, type and unwrapped position",
 "With processes that specify (or imply) move vectors, each particle id always sits on exactly one lattice site, its recorded type is the type on that site, and its recorded coordinate equals its start coordinate plus all move vectors applied to it and coincides with that site up to lattice periods in periodic directions. "
 "The particles and displacements reported as moved by the latest event are exactly those the event moved.",
 ["inputs", "histories"], "every permuting move pattern (swaps, chains, rings, among wildcards and unmoved surroundings), every lattice, and every sequence of events",
 "Tests follow two or three particles through a few hand-made moves; identity errors accumulate over sequences and depend on move order and boundary crossings.",
 [S+"configuration.cpp", S+"process.cpp", S+"interactions.cpp", P+"CoreComponents/KMCProcess.py", P+"CoreComponents/KMCConfiguration.py"],
 [("id moves applied after coordinates", S+"configuration.cpp Configuration::performBucketProcess"),
  ("destination of each move vector", S+"process.cpp Process::Process"),
  ("re-indexing for implicit wildcards", S+"interactions.cpp Interactions::updateProcessMatchLists"),
  ("reconstruction and checking of move vectors", P+"CoreComponents/KMCProcess.py")],
 [("atom ids", "which particle sits where, with its unwrapped coordinate", S+"configuration.h Configuration")],
 ["particle ids, coordinates and types after every step"])

prop("C07", "Lattice indexing, wrapping and neighbour sets are exact",
 "Site numbers and (cell, basis) positions correspond one to one, and the site coordinates and the map agree on that numbering. The neighbours of a site within n shells are exactly the sites of the cells at most n cells away in each direction, through periodic boundaries and not beyond open ones; "
 "the neighbourhood of several sites is the sorted union without duplicates; wrapping a displacement gives the equivalent shortest one in every periodic direction and leaves open directions alone.",
 ["inputs"], "every number of basis points, repetitions, periodicity, site and number of shells, wider than the lattice or not",
 "The tests check a few sites of two or three lattices; rounding in the index arithmetic and mixed periodicities are not sampled.",
 [S+"latticemap.cpp", S+"latticemap.h", S+"coordinate.cpp", P+"CoreComponents/KMCLattice.py", P+"CoreComponents/KMCUnitCell.py", P+"CoreComponents/KMCConfiguration.py"],
 [("index arithmetic", S+"latticemap.cpp LatticeMap::indexToCell / indicesFromCell"), ("neighbour enumeration", S+"latticemap.cpp LatticeMap::neighbourIndices / supersetNeighbourIndices"),
  ("wrapping", S+"latticemap.cpp LatticeMap::wrap"), ("site generation", P+"CoreComponents/KMCLattice.py, "+P+"CoreComponents/KMCUnitCell.py")])

prop("C08", "Equal seeds give equal simulations, whatever is observed along the way",
 "Two runs of equal models with the same seed and random number generator execute the same events at exactly the same times, and different seeds give different ones. Analyses, breakers, trajectory files, dump intervals and queries made during a run have no influence on the simulated trajectory, "
 "and each supported generator produces the number sequence of the C++ standard engine it is named after (up to the last bits of the scaling to the unit interval).",
 ["inputs", "histories", "configurations"], "every model, seed, generator type and combination of observation settings",
 "The tests fix one seed and compare one number or final state; they never compare full histories under different observation settings.",
 [S+"random.cpp", S+"random.h", P+"CoreComponents/KMCLatticeModel.py", P+"CoreComponents/KMCControlParameters.py"],
 [("generator selection and seeding at the start of a run", S+"random.cpp setRngType / seedRandom"), ("run loop", P+"CoreComponents/KMCLatticeModel.py run")],
 None, ["events and times of paired runs", "sequence of random numbers"])

prop("C09", "Trajectory files hold the states that really occurred, at the requested times",
 "After a run ends, normally or by an error or interrupt, a lattice or xyz trajectory file can be read back and holds, in order and exactly once, the initial state followed by one frame for every dump that fell due, each with the step, the time and the complete site types (or particle types and positions) of the simulation at that moment. "
 "Multi-occupancy configurations are written in the lattice format. With a dump interval of n steps the dumps are due after every n-th step; with a dump time interval the k-th frame is the state in force at k intervals after the start.",
 ["inputs", "histories", "crash_points"], "every model, both formats, every dump setting, every point at which the run is stopped or fails, more frames than fit the write buffer, single-site and multi-occupancy lattices (the xyz format lists single particles and is for plain models only; type names without leading or trailing blanks)",
 "The tests write a few frames of a tiny system and never compare a file against the states the simulation went through, nor interrupt a run.",
 [P+"Utilities/Trajectory/LatticeTrajectory.py", P+"Utilities/Trajectory/XYZTrajectory.py", P+"Utilities/Trajectory/Trajectory.py", P+"CoreComponents/KMCLatticeModel.py"],
 [("buffered append and flush", P+"Utilities/Trajectory/"), ("dump scheduling and final flush", P+"CoreComponents/KMCLatticeModel.py run")],
 None, ["trajectory file after the run", "state at every step"])

prop("C10", "A generated script rebuilds an equivalent object",
 "Executing the script produced by a unit cell, lattice, plain configuration, plain process, interactions or model object, or loading it with the from-script readers, gives an object that describes the same thing: the same geometry to the printed precision, the same types, processes, moves, basis sites, rates and flags, in an order that leads to the same simulation. "
 "The script of the rebuilt object, executed again, gives that same script. ATK scripts are executable and list the same geometry.",
 ["inputs", "histories"], "every valid object, including configurations reached after a run and type lists of any length",
 "Tests compare the script of a few fixed objects with a fixed string.",
 [P+"CoreComponents/KMCUnitCell.py", P+"CoreComponents/KMCLattice.py", P+"CoreComponents/KMCConfiguration.py", P+"CoreComponents/KMCProcess.py", P+"CoreComponents/KMCInteractions.py", P+"CoreComponents/KMCLatticeModel.py", P+"Utilities/SaveAndReadUtilities.py", P+"CoreComponents/KMCLocalConfiguration.py"],
 [("script generation", P+"CoreComponents/*._script"), ("readers", P+"CoreComponents KMCConfigurationFromScript, KMCInteractionsFromScript")])

prop("C11", "On-the-fly mean square displacements equal those of the recorded moves",
 "For every tracked type, the mean square displacement, its count and its error estimate reported per time-lag bin equal those computed from the recorded history: whenever a tracked particle is registered as moved, its displacement in Cartesian space from each of its last positions (as many as the chosen history length) is counted in the bin of the elapsed time. "
 "Lags beyond the last bin and particles of other types contribute nothing.",
 ["inputs", "histories"], "every cell shape, bin size, number of bins, history length, tracked type and move history, including particles that change direction, cross boundaries or move together",
 "The tests use two or three events with hand-computed numbers or loose statistical limits.",
 [S+"ontheflymsd.cpp", S+"ontheflymsd.h", S+"coordinate.h", P+"Analysis/OnTheFlyMSD.py", S+"configuration.cpp"],
 [("history and histogram", S+"ontheflymsd.cpp OnTheFlyMSD::registerStep"), ("results and error estimates", P+"Analysis/OnTheFlyMSD.py")],
 None, ["particle positions at every registered step", "reported results"])

prop("C12", "On-the-fly statistics equal those recomputed from the full history",
 "The time-step distribution, the per-interval process statistics and the composition analysis report exactly what is computed from the complete list of (time, event, composition) they were shown: every time step is counted once in the right bin, every event is attributed to the process and site that fired, and composition averages follow the particle counts of the configuration. A block of statistics is closed by the first step seen more than one interval after the block began. "
 "What they print is what they report.",
 ["inputs", "histories"], "every sequence of steps, bin size and time interval, including steps longer than an interval and runs that end before the first interval",
 "The tests feed a few synthetic steps; growth of the histogram, interval boundaries and long steps are not covered.",
 [P+"Analysis/TimeStepDistribution.py", P+"Analysis/ProcessStatistics.py", P+"Analysis/Composition.py", S+"configuration.cpp"],
 [("binning", P+"Analysis/TimeStepDistribution.py"), ("interval accumulation", P+"Analysis/ProcessStatistics.py, "+P+"Analysis/Composition.py")])

prop("C13", "The run loop calls everything exactly when it is due, and always cleans up",
 "A run performs exactly the requested number of steps unless a breaker asks to stop at one of its own intervals or no event is available any more, in which case it ends after the current step or with an error, never by crashing. Every analysis is set up once before the first step, told of exactly every n-th step with that step's number, time and configuration, and finalized exactly once however the run ends; "
 "a further run of the same model continues from its state and time.",
 ["inputs", "histories", "fault_sequences"], "every combination of step count, intervals, breakers and analyses, and every exception raised from a plugin callback at any step",
 "The tests run one analysis with one interval to normal completion; failures inside callbacks and combined intervals are not covered.",
 [P+"CoreComponents/KMCLatticeModel.py", P+"CoreComponents/KMCControlParameters.py", P+"PluginInterfaces/KMCAnalysisPlugin.py", P+"PluginInterfaces/KMCBreakerPlugin.py", S+"interactions.cpp"],
 [("run loop with final clean-up", P+"CoreComponents/KMCLatticeModel.py run"), ("parameter checks", P+"CoreComponents/KMCControlParameters.py")],
 None, ["sequence of plugin callbacks", "error raised"])

prop("C14", "A parallel run is identical to a serial run",
 "Run with any number of MPI processes, a simulation with a given seed executes the same events at the same times as the serial build, on every process, with fixed and with custom rates, and writes the same trajectory file once. "
 "Work is split so that every item is handled exactly once whatever the ratio of items to processes.",
 ["inputs", "schedules", "configurations"], "every number of processes (fewer, equal or more than the items to split) and every model",
 "The stable tests only run the serial build, in which all splitting and joining is the identity.",
 [S+"mpiroutines.h", S+"mpiroutines.cpp", S+"mpicommons.cpp", S+"matcher.cpp", S+"random.cpp", P+"Utilities/Trajectory/", P+"Utilities/PrintUtilities.py"],
 [("split and join", S+"mpiroutines.h splitOverProcesses / joinOverProcesses, "+S+"mpiroutines.cpp determineChunks"), ("parallel matching and rate evaluation", S+"matcher.cpp")],
 None, ["events, times and final states on every rank"])

prop("C15", "No input that is accepted makes the library read or write out of bounds",
 "Whatever valid model is built and run through the public interface, with whatever results of user callbacks and in whatever order objects are created, used and released, the compiled library never accesses memory it does not own, never uses uninitialised or released objects and never executes undefined behaviour.",
 ["inputs", "histories", "configurations"], "every model and workload of the other properties, lattices smaller than the interaction range, cutoffs larger than the lattice, empty sites, long runs, several models at once",
 "Out-of-bounds reads in the normal build usually return plausible values, so the tests pass; only instrumented executions show them.",
 ["c++/src/", "c++/custom/", "c++/wrap/backend.i"],
 [("bounds kept by construction", S+"matcher.cpp, "+S+"hash.cpp, "+S+"configuration.cpp, "+S+"interactions.cpp, "+S+"latticemap.cpp, "+S+"ontheflymsd.cpp")],
 None, ["sanitizer reports"])

prop("C16", "Ill-formed input is rejected with an exception before it reaches the backend",
 "Every constructor and setter accepts well-formed input in each documented form (lists, tuples, arrays, short and long forms of occupations) and represents it faithfully, and answers ill-formed input (wrong types, lengths, ranges, unknown element types, inconsistent moves or wildcards, duplicates) with an exception, namely the library's Error for the documented restrictions. "
 "It never crashes the interpreter, and never silently builds a different model than the input describes.",
 ["inputs"], "every argument of every public constructor, replaced, removed or perturbed in turn",
 "The tests try a few wrong values per argument, one at a time.",
 [P+"Utilities/CheckUtilities.py", P+"Utilities/ConversionUtilities.py", P+"CoreComponents/"],
 [("input checks", P+"Utilities/CheckUtilities.py"), ("normalisation", P+"Utilities/ConversionUtilities.py")])

prop("C17", "Equivalent descriptions of a model give the same dynamics",
 "Listing the positions of a process in another order, leaving unconstrained positions out under implicit wildcards or naming them with explicit wildcards, permuting the possible types, renaming types, shifting the configuration along a periodic direction, writing the lattice with another origin, permuted axes, a larger unit cell or other cell vectors, reordering, splitting or merging processes, or scaling all rates and the time unit leads to the same available events with the same rates at every step (up to the corresponding relabelling). "
 "A fixed rate and a custom calculator that returns that rate are interchangeable.",
 ["inputs", "histories"], "every model and every such rewriting of it, along whole runs",
 "The tests compare one pair of formulations in one functional test (which does not run on this platform).",
 [S+"interactions.cpp", S+"matchlist.cpp", S+"matchlistentry.cpp", S+"process.cpp", P+"CoreComponents/KMCProcess.py", P+"CoreComponents/KMCConfiguration.py", P+"Utilities/ConversionUtilities.py"],
 [("canonical ordering of geometries", P+"CoreComponents/KMCLocalConfiguration.py, "+S+"matchlistentry.cpp operator<"), ("implicit wildcards", S+"interactions.cpp Interactions::updateProcessMatchLists")],
 None, ["available events and rates after every step of paired runs"])

prop("C18", "Multi-occupancy: occupations are exact, never negative, matched minimally",
 "A multi-occupancy process is available exactly where every site holds at least the required number of each type, and performing it adds and removes exactly the given numbers; no occupation ever becomes negative when processes require what they remove, and emptied sites stay usable. "
 "With one particle on every site, a multi-occupancy description gives the same simulation as the plain description it mirrors.",
 ["inputs", "histories"], "every occupation pattern given in any accepted form, every minimum-match and update pattern, and every sequence of events",
 "The tests cover two small systems; empty sites, several types per site and updates of types not present before are not sampled.",
 [P+"CoreComponents/KMCBucketProcess.py", P+"CoreComponents/KMCBaseProcess.py", P+"CoreComponents/KMCConfiguration.py", S+"typebucket.h", S+"typebucket.cpp", S+"configuration.cpp", S+"matchlist.cpp", P+"Utilities/ConversionUtilities.py", P+"Utilities/CheckUtilities.py"],
 [("element-wise minimum match", S+"typebucket.h TypeBucket::match"), ("occupation update", S+"configuration.cpp Configuration::performBucketProcess"), ("normalisation of occupations", P+"Utilities/CheckUtilities.py checkAndNormaliseBucketEntry")])

prop("C19", "Models living in one process do not disturb each other",
 "A model's behaviour depends only on its own description, its own history and the random numbers drawn for it: creating, running, querying or discarding other models, configurations, interactions or analyses before or between its runs does not change its events, rates or reported state. "
 "The lists and arrays given to constructors, and the types, coordinates and counts returned by queries of the state, can be modified by the caller afterwards without any effect on the model; lattices, processes and interactions can be used for several models, and several models can take turns on one configuration, each finding what is available in the state the others left.",
 ["histories", "inputs"], "every interleaving of construction, runs, queries and destruction of several models of different size, basis and process type, with seeds fixed per run",
 "Every test uses one model at a time in a fresh object; shared static buffers and aliasing between objects are never exercised.",
 [S+"latticemap.cpp", S+"configuration.cpp", S+"random.cpp", P+"CoreComponents/KMCConfiguration.py", P+"CoreComponents/KMCInteractions.py", P+"CoreComponents/KMCLatticeModel.py"],
 [("buffers shared by all objects", S+"latticemap.cpp tmp_cell_indices__, "+S+"configuration.cpp tmp_match_list__"), ("lazily built backend objects", P+"CoreComponents/*._backend")],
 None, ["events, times and reported state of interleaved and isolated runs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
