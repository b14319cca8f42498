#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


T = "src/parallel/thread/"
prop("C01", "Every task a worker thread takes is performed once and reported done once",
     "Every task a pool worker thread takes off the work queue is performed exactly once and reported as finished exactly once "
     "before the worker takes another task or ends, no matter how performing it ends: normally or with an exception of any type. "
     "A failing task therefore never takes a worker thread (or the process) down, and the caller of the batch never waits forever; "
     "only interruption by pool destruction may end a worker.",
     ["schedules", "fault_sequences"],
     "all tasks, all exception types thrown by a task, all interleavings of workers",
     "No existing test runs a throwing task on the thread pool; a lost completion shows as a hang of the whole batch only when a task throws.",
     [T + "worker.h", T + "thread_worker_pool_task.cpp"],
     [("worker thread body", T + "worker.h"), ("task execution", T + "thread_worker_pool_task.cpp")])
prop("C02", "Shared queue state is touched only under its lock, and waiters never miss work",
     "Every read or write of a thread-shared queue's contents happens while that queue's own mutex is held, the lock is never "
     "held when an operation returns, and a blocking pop re-checks emptiness under the lock after every wake-up and removes exactly one element, "
     "whose value it hands out. Every insertion adds its element under the lock and afterwards wakes a waiter.",
     ["schedules"], "all interleavings of producers and consumers, including spurious wake-ups",
     "Data races and lost wake-ups depend on the schedule; the existing tests do not exercise the queue concurrently at all.",
     [T + "thread_safe_queue.h"], [("mutex, condition variable, predicate loop", T + "thread_safe_queue.h")])
prop("C03", "A batch returns one result per task, in task order, only after all have finished",
     "For a batch of n tasks every worker pool performs each submitted task exactly once and returns exactly n results, where result i "
     "was produced by task i. It returns only after waiting for exactly n completions, and a batch containing a failed task ends in an "
     "exception, never in a missing result that is handed to the caller.",
     ["schedules", "inputs"], "all batch sizes (including 0), all completion orders",
     "Tests only ever see the sequential order or one schedule of one small batch, and compare aggregated outcomes.",
     [T + "thread_worker_pool.cpp", T + "thread_worker_pool_templated.h", T + "thread_worker_pool_task.cpp", "src/parallel/sequential_worker_pool.cpp"],
     [("result slots written by task wrappers", T + "thread_worker_pool_task.cpp"), ("completion counting", T + "thread_worker_pool_templated.h")])
prop("C04", "Destroying a pool interrupts and joins every worker before its memory goes away",
     "Creating a thread pool starts every worker it owns, and destroying it interrupts every one of them and then waits for every one of them to finish "
     "before any worker or queue they use is released. A worker that is interrupted leaves its loop instead of going on.",
     ["schedules", "configurations"], "all worker counts and all points at which destruction begins",
     "A missing or misplaced join is a use-after-free only under particular schedules at process end.",
     [T + "thread_worker_pool_templated.h", T + "worker.h"],
     [("pool destructor", T + "thread_worker_pool_templated.h"), ("worker start/stop/join", T + "worker.h")])
prop("C05", "Worker pool factory: what it says it can create, it creates, and never null",
     "For every pool kind, the factory reports that it can create the kind exactly when the creation request returns a pool of that kind rather than failing, "
     "and a request for an unsupported or unknown kind fails with an exception instead of returning a null pool. Asking for the best pool "
     "only ever returns a pool that reports itself valid, and tries the kinds so that the always-available sequential pool is the last resort.",
     ["configurations", "inputs"], "all enumerators and out-of-range values, all build configurations analysed",
     "There are no tests of the factory; each build configuration exercises one arm of every switch.",
     ["src/parallel/worker_pool_factory.cpp", "include/k52/parallel/worker_pool_factory.h"],
     [("creation switch and capability switch", "src/parallel/worker_pool_factory.cpp")])
prop("C06", "FFT plans are made and destroyed only under one process-wide lock",
     "Every creation and every destruction of an FFT plan happens while one process-wide mutex is held, the same one everywhere, and the mutex is released on "
     "every way out including exceptions. Executing a plan needs no lock.",
     ["schedules"], "all interleavings of threads constructing and destroying transforms",
     "The planner's shared state is corrupted only under concurrent construction; all tests are single-threaded.",
     ["src/dsp/transform/fast_fourier_transform.cpp"], [("static mutex with scoped locks", "src/dsp/transform/fast_fourier_transform.cpp")])
prop("C07", "FFT buffers and plans are released exactly once and never used after release",
     "Every FFT buffer and plan acquired by a transform is released exactly once, with the matching release function, at the latest when the transform dies, on every path including failed construction; none is used after it was released, "
     "buffers are large enough for the plan using them, and no copy of a transform leads to a second release of the same resource.",
     ["programs", "histories"], "all client programs that construct, copy, assign or destroy transforms",
     "A leak or double release needs a copy or an exceptional path that no test takes.",
     ["src/dsp/transform/fast_fourier_transform.cpp", "include/k52/dsp/transform/fast_fourier_transform.h"],
     [("owner class and its destructor", "src/dsp/transform/fast_fourier_transform.cpp")])
prop("C08", "Tasks run in parallel own private deep copies of what they work on",
     "An optimisation task keeps deep copies of the optimiser, the objective and the initial parameters it is given, never the caller's objects, and hands back a copy "
     "of its own result. An evaluation task uses the objects it shares with the caller only through const operations. A clone of a library object shares no owned "
     "object with its original. Nothing a task does while it runs reads and writes mutable process-wide state (global or static variables of the library, the C random "
     "generator) without a lock.",
     ["schedules", "programs"], "all task constructors, clone paths and every function reachable from performing a task, all schedules",
     "Sharing is invisible unless two tasks mutate the shared object at the same time.",
     ["src/optimization/optimization_task.cpp", "src/optimization/count_objective_function_task.cpp", "src/optimization/optimization_task_result.cpp"],
     [("task constructors clone their inputs, Perform returns a copy", "src/optimization/optimization_task.cpp"), ("", "src/optimization/count_objective_function_task.cpp"),
      ("", "src/optimization/continuous_optimizer.cpp")])
prop("C09", "Every exception the library throws derives from the standard exception base",
     "Every exception the library itself throws, on any path of any entry point, is of a type derived from the standard exception base class, so that "
     "callers and worker threads that catch that base see every failure.",
     ["inputs", "programs"], "all throw sites in the library",
     "Tests cover a few error paths and each catches a specific type; unusual error arms are never executed.",
     ["src/", "include/k52/"], [("throw sites", "src/")])
prop("C10", "Settings access never leaks a lower-level failure",
     "Reading a setting with a default, for any name and any stored text, returns either the stored value converted to the requested type or the default and never throws; "
     "storing a setting returns true exactly when it stored and false otherwise and never throws. Reading a mandatory setting and loading a configuration file "
     "fail only with the documented run-time error.",
     ["inputs"], "all names, stored strings, value types, and files",
     "Only a handful of names and types are read by the tests; conversion and parser failures come in several exception types.",
     ["include/k52/common/settings_manager.h", "include/k52/common/settings_manager.inl"],
     [("function-level catch-all handlers", "include/k52/common/settings_manager.inl")])
prop("C11", "Cache lookups do not change what is cached, and hits return what was stored",
     "Asking a cache whether a key is present, or reading a key, never adds, removes or alters a stored value; reading a key that is not stored fails with an exception. "
     "A value added under a key is what a later read of that key returns, and the cache trims itself only before inserting, never dropping what is being inserted.",
     ["histories"], "all sequences of queries and insertions",
     "There are no cache tests; an insertion caused by a lookup is invisible until memory or eviction behaviour is looked at.",
     ["include/k52/common/cache.h", "include/k52/common/stored_value.h"], [("lookup, insert and trim operations", "include/k52/common/cache.h")])
prop("C12", "Wavelet filter memo: a reused filter bank depends on nothing outside its key",
     "Precomputed filters of the wavelet transform are reused only for the wavelet, scale and signal length they were computed for: everything a stored filter bank is computed from is either part of the key it is stored under, unrounded, or "
     "fixed for the transform's lifetime, and it is looked up and stored under that same key. No other result of an earlier transform or convolution is reused either unless every input it depends on is compared. So two transforms of the same signal, "
     "with any other transforms in between, give the same result (as long as nobody changes the wavelet object's own shape).",
     ["histories"], "all sequences of transform calls with differing signal lengths",
     "A stale or mis-keyed entry needs two transforms of different lengths on one object; no test of this transform exists.",
     ["src/dsp/transform/wavelet/fast_wavelet_transform.cpp", "include/k52/dsp/transform/wavelet/fast_wavelet_transform.h"],
     [("memo lookup and insertion", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp")])
prop("C13", "Sequence operations reject wrong-sized input before touching any data",
     "Each fixed-size or paired-size operation (fixed-size transforms, circular convolutions, reading or writing a chromosome, setting the values of a parameter array, spline nodes, crossover, "
     "initial parameters of the genetic algorithm) compares the sizes of what it is given with what it needs and throws on any mismatch, longer or shorter, before reading or writing any element; "
     "comparing two vectors of different lengths answers false.",
     ["inputs"], "all input lengths, longer and shorter",
     "Tests try one wrong length at most; out-of-bounds access on others may go unnoticed without a sanitizer.",
     ["src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/circular_convolution.cpp", "src/dsp/transform/fourier_based_circular_convolution.cpp",
      "src/optimization/params/", "src/optimization/genetic_algorithm/"],
     [("size guards", "src/dsp/transform/"), ("size guards", "src/optimization/params/const_chromosome_size_paremeters.cpp")])
prop("C14", "Arguments outside the documented domain are refused, valid ones are accepted",
     "Each of these throws on any argument outside its domain and accepts every argument inside it, boundaries included: LinearScale (0 < min < max, at least 2 scales); "
     "LogarithmicScale (min < max exponent); a transform of one scale (scale > 0); the FFT (positive length); AkimaSpline training data (as many x as y values, at least 5); FlipBitMutator "
     "(probability in (0, 0.5], bar values too small for the skip count to fit an int); LinearMutator and Random (probabilities in [0, 1]); IntParameter (min <= max); DoubleParameter "
     "(min < max, the value within [min, max], positive precision, at most 2^30 steps); GeneticAlgorithm (even positive population, positive generation count, a mutator; only maximisation; as many "
     "initial individuals as the population holds); setting parameter values (as many as the object holds); an individual's fitness (>= 0); a thread pool (positive worker count). "
     "No floating-point argument is converted to an integer type it may not fit. NaN is outside every floating-point domain. No quotient that can be 0/0 is handed to the probability test by the library itself, so a valid configuration is not refused halfway through a run.",
     ["inputs"], "all argument values, including boundary values",
     "Only some constructors and some invalid values are tested.",
     ["src/optimization/", "src/dsp/", "src/common/random.cpp", "src/parallel/thread/"], [("argument guards", "src/")])
prop("C15", "The objective is evaluated only at points that passed the constraint check",
     "Every optimiser calls the objective function only with parameters whose CheckConstraints was found true after they were last changed: continuous searches refuse a point that fails the check with an exception before the objective is called, "
     "random search redraws its random points until the check holds, the genetic algorithm repeats random initialisation and mutation until it holds, a crossover reports success only if both children pass, "
     "and individuals read from a file or made from initial parameters given by the user are refused when they fail it.",
     ["inputs", "histories"], "all optimisers, all search trajectories",
     "Tests use objectives defined everywhere, so a call outside the constraints is harmless there.",
     ["src/optimization/"], [("constraint check before evaluation", "src/optimization/continuous_optimizer.cpp")])
prop("C16", "Maximise and minimise are honoured by every optimiser",
     "Whether the caller asked to maximise or to minimise reaches every evaluation of the objective that steers a search: in each optimiser the numbers compared with each other are the objective with a sign "
     "that depends on the request (the same sign everywhere in one run, opposite signs for the two requests), and a comparison that decides which point is kept keeps the better one under the request. The request is passed on unchanged "
     "through every layer (dispatch, tasks, multi-start), and an optimiser that can only maximise refuses to minimise before anything is evaluated.",
     ["inputs", "histories"], "all optimisers, both orientations",
     "Each optimiser is exercised mostly in one direction.",
     ["src/optimization/"], [("orientation flag", "src/optimization/continuous_optimizer.cpp")])
prop("C17", "The best of several candidates is really the one returned",
     "Whenever the best of several candidate solutions is chosen (multi-start processors, random search, simplex vertices, populations), the returned candidate is one of the candidates and no other candidate has a strictly better "
     "objective value in the requested direction; the value reported with it is that candidate's own value.",
     ["inputs"], "all orderings of candidate values, both directions",
     "Selection mistakes show only for particular value orderings.",
     ["src/optimization/optimization_parameters_processor.cpp", "src/optimization/simple_parameters_processor.cpp", "src/optimization/random_search.cpp",
      "src/optimization/bounded_nelder_mead.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     [("selection comparisons", "src/optimization/")])
prop("C18", "An optimiser run does not depend on earlier runs of the same object",
     "Nothing an optimiser object did before (finished runs, runs that threw, runs with another function, other parameters or the opposite direction) changes what its next run does: every piece of state that runs change, in the object itself, "
     "in what it owns (such as the genetic algorithm's fitness cache) or in static variables, is overwritten by a run before that run reads it, and settings given at construction are never changed by a run. "
     "Statistics counters and the process-wide random generator are exempt.",
     ["histories"], "all sequences of runs on one object",
     "Tests run each optimiser object once.",
     ["src/optimization/"], [("state initialisation at the start of a run", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("run state of the Rosenbrock search", "src/optimization/hleborodov_rosenbrock_method.cpp"), ("run state of the simplex search", "src/optimization/bounded_nelder_mead.cpp"), ("request of a run", "src/optimization/continuous_optimizer.cpp")])
prop("C19", "A clone carries its original's type and whole configuration",
     "A clone has the same dynamic type as its original and agrees with it in every setting that influences behaviour, and owns its own copies of whatever the original owns.",
     ["programs"], "all cloneable classes and all fields",
     "Tests clone a few objects and look at few fields.",
     ["src/optimization/", "include/k52/optimization/"], [("Clone functions", "src/optimization/")])
prop("C20", "A GA individual's fitness always belongs to its current genotype",
     "After every operation on a genetic-algorithm individual that returns normally (initialisation, assignment and copying, random chromosome, mutation, crossover for both partners, reading from a stream), its parameters decode exactly the chromosome it has now, "
     "and a fitness it still reports was not stored for an earlier chromosome; the stored number is never used while the individual has no fitness; in the evaluation of a population the fitness stored in, or taken from the cache for, an individual was computed for that individual's own genotype.",
     ["histories"], "all sequences of mutation, crossover, assignment and evaluation",
     "Tests do not interleave mutation with fitness queries.",
     ["src/optimization/genetic_algorithm/individual.cpp", "src/optimization/objective_function_counter.cpp"], [("fitness invalidation", "src/optimization/genetic_algorithm/individual.cpp"), ("pairing of values and individuals", "src/optimization/objective_function_counter.cpp")])
prop("C21", "The best individual the genetic algorithm reports never gets worse",
     "During one run of the genetic algorithm, after every generation's evaluation the best individual of that generation is compared with the one kept so far; the kept one is replaced only by one that is at least as fit, "
     "cannot be changed by anything later generations do (crossover, mutation, elitism), and is the one whose parameters are returned.",
     ["histories"], "all runs, populations and generations",
     "Randomised runs hide an occasional regression of the best individual.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp"], [("best-ever tracking", "src/optimization/genetic_algorithm/genetic_algorithm.cpp")])
prop("C22", "A rejected update leaves the object as it was",
     "When setting values, a chromosome, a configuration field, training points or initial parameters, (re)initialising, crossing over or reading an object from a stream is rejected by the library with an exception, the object's own state (and that of another library object passed in for modification) is exactly what it was before the call.",
     ["inputs", "histories"], "all rejected arguments of all mutating operations",
     "Tests check that the exception is thrown and rarely look at the object afterwards.",
     ["src/optimization/params/", "src/optimization/", "include/k52/optimization/"], [("validate before mutate", "src/optimization/")])
prop("C23", "Downcasts of user-supplied objects are checked before use",
     "Wherever the library narrows a user-supplied parameter, task or result object to a more specific kind, it tests that the object really is of that kind and throws otherwise, and never dereferences an unchecked narrowing.",
     ["inputs"], "all dynamic types a caller may pass",
     "Tests only pass objects of the expected kind.",
     ["src/optimization/", "src/parallel/mpi/"], [("checked dynamic casts", "src/optimization/")])
prop("C24", "Constructors leave no scalar or pointer member uninitialised",
     "Every constructor of every library class, compiler-generated and copy constructors included, gives every scalar, pointer and flag member of the object (and of its nested library objects) a definite value on every path on which it returns normally, "
     "so that no later read of the object depends on what the memory held before; and no function computes with a local variable that was never given a value.",
     ["programs"], "all constructors of all library classes, all paths through them",
     "An uninitialised member often happens to hold the right value under test.",
     ["src/", "include/k52/"], [("member initialisation", "src/")])
prop("C25", "MPI: what one process sends is what its peer receives",
     "For every object transferred between MPI processes, the receiving side reads the same messages, of the same types, tags and order, as the sending side writes, each value that is a member arrives in the same member, "
     "a type identifier is looked up in the role it was sent for and is followed by the content of the object it names, and every setting of an optimiser is part of what is sent. Messages go to and come from the process and "
     "communicator passed in. The pool sends a task's identifier and then the task, and expects the result from the worker it sent it to; a worker receives, performs and answers each task exactly once in this order, and every worker is told to stop at the end.",
     ["programs", "histories"], "all transferable classes and the pool's protocol",
     "The MPI configuration is not built or run by any test.",
     ["src/parallel/mpi/", "src/optimization/"], [("Send/Receive pairs", "src/optimization/")])
prop("C26", "Genetic encoding of parameters is lossless",
     "What a discrete parameter writes into a chromosome, it reads back from it. For integer and real parameters every chromosome element is written by encoding and read by decoding, each stands for the same, distinct bit in both, the first for the lowest, "
     "and is set exactly for the bits decoding counts, whatever the chromosome contained before. The code encoded is the value minus the offset which decoding adds; a real value is divided by the step decoding multiplies with and rounded to the nearest code. "
     "The chromosome is long enough for the largest code (computed without overflow), and a real parameter's step is its range divided by the largest code, which is at least the wanted number of steps. "
     "Arrays and composites give each element the same consecutive slice of exactly its own size in both directions, together with its own value, and their length is the sum over their elements.",
     ["inputs"], "all ranges, precisions, values, sizes and chromosome contents", "A few values of a few ranges are round-tripped through fresh chromosomes.",
     ["src/optimization/params/"], [("bit loops", "src/optimization/params/int_parameter.cpp"), ("step and code", "src/optimization/params/double_parameter.cpp"), ("slices", "src/optimization/params/composite_discrete_parameters.cpp")])
prop("C27", "The configured limit bounds every search",
     "An optimiser that is given a largest number of iterations, generations or random points begins at most that many rounds of its search (one where a round always comes first), for every objective and every value of the limit, 0 and 1 included: "
     "every round is counted, however it ends; the count is compared with the limit before another round can begin, whatever else is asked there; the count is never set back or taken down during a run, cannot step over the limit and is wide enough to reach it. "
     "The bounded simplex method, which takes no limit, keeps to its own number of rounds per dimension in the same way. Searches along a line inside one round, which end on their precision, are not meant.",
     ["inputs", "history"], "all objectives, limits and starting points", "A few well-behaved objectives are minimised, on which the searches end long before their limits.",
     ["src/optimization/"], [("iteration limit", "src/optimization/hooke_jeeves_method.cpp"), ("iteration limit", "src/optimization/conjugate_gradient_method.cpp"), ("generations", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"), ("own limit", "src/optimization/bounded_nelder_mead.cpp")])
prop("N01", "Transforms, convolutions and splines are numerically accurate",
     "Forward and inverse transforms are mutual inverses up to rounding, convolution by transform equals direct convolution, and splines interpolate their nodes.",
     ["inputs"], "all real and complex inputs", "Only a few vectors are compared.",
     ["src/dsp/"], [("formulae", "src/dsp/")])
prop("N02", "Optimisers converge to an optimum",
     "For well-behaved objectives every optimiser ends near a local optimum within its iteration budget.",
     ["inputs"], "all objectives in its class", "A few test functions are minimised.",
     ["src/optimization/"], [("search loops", "src/optimization/")])
prop("N03", "Random numbers follow the requested distribution",
     "Uniform and discrete random numbers lie in the requested range and are distributed as documented.",
     ["histories"], "all seeds and sequences", "A sample of draws is inspected.",
     ["src/common/random.cpp"], [("generator", "src/common/random.cpp")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
