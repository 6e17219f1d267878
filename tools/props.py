"""Writes properties.jsonl (run by hand when a statement changes)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": a,
        }
    )


LS = "dmpbbo/bbo/LearningSession.py"
LST = "dmpbbo/bbo_of_dmps/LearningSessionTask.py"
SBS = "dmpbbo/bbo_of_dmps/step_by_step_optimization.py"
ROT = "dmpbbo/bbo_of_dmps/run_optimization_task.py"
RO = "dmpbbo/bbo/run_optimization.py"
UPD = "dmpbbo/bbo/updaters.py"
DG = "dmpbbo/bbo/DistributionGaussian.py"
DGB = "dmpbbo/bbo/DistributionGaussianBounded.py"
FA = "dmpbbo/functionapproximators/FunctionApproximator.py"
FADIR = "dmpbbo/functionapproximators/"
DS = "dmpbbo/dynamicalsystems/"
DMP = "dmpbbo/dmps/Dmp.py"
DMPS = "dmpbbo/dmps/DmpWithSchedules.py"
DMPC = "dmpbbo/dmps/DmpContextualTwoStep.py"
TRJ = "dmpbbo/dmps/Trajectory.py"

prop("C01", "A learning session answers with what was last told to it",
     "A learning session is a map from (name, update, sample) to values: asking for an entry gives the value last told for exactly that entry, and an entry exists if and only if it has been told; asking for one that does not exist raises an error. Entries told for different names, updates or samples never overwrite one another, whether the numbers are given as Python or numpy integers. Changing an object after it was told, or an object that was returned, never changes what the session answers later.",
     ["histories", "inputs"],
     "every sequence of tell, ask, exists, add_eval, add_update, add_rollout and add_eval_task calls, on sessions with and without a directory, with any names, update numbers, sample numbers and labels",
     "No test creates a session; the guarantee is over all histories of calls, and aliasing or key collisions only show with particular later calls.",
     [LS, LST], [("cache with copies", f"{LS}: tell, ask, exists"), ("entry name from name, update and sample", f"{LS}: get_base_name")],
     ["return values of ask and exists after each call"],
     [("cache", "entries of this process", f"{LS}: _cache"), ("files", "entries in the directory", f"{LS}: save")])

prop("C02", "A learning session on disk answers the same after reopening",
     "For a session with a directory, opening that directory in a new process gives a session in which every entry told so far exists and has the value and shape last told, with no other entries; the same holds for a session without a directory that is saved with save_all and then opened. Each entry is stored at update<5 digits>/<3-digit sample or label>_<name> (or <name>) with an extension for its kind (arrays txt, tables csv, other objects json), and a told DMP is also available as <entry>_for_cpp.json.",
     ["histories", "inputs", "crash_points"],
     "every history of tells (including telling an entry again with a value of another kind or shape), every value that is an integer, a list of numbers, a 1-D or 2-D array of any size from 1, a table, or an object of the library, and every point of reopening",
     "No test opens a session from a directory, and shapes such as N x 1, 1 x N and one element, or entries told again as another kind of value, only fail after reopening.",
     [LS, LST, "dmpbbo/json_for_cpp.py"], [("one file per entry", f"{LS}: save"), ("reading by extension", f"{LS}: ask"), ("C++ export", f"{LST}: tell")],
     ["return values of ask and exists in a new process", "files in the session directory"])

prop("C03", "An optimization run records exactly what happened, in a consistent chain",
     "In an optimization run of n updates with m samples, each update draws m samples from the current distribution, evaluates the current mean and every sample exactly once (in any order), updates with exactly these samples and costs, and the distribution after update u is the one used in update u+1; the run performs exactly n updates and starts from the given distribution. The returned session reports n updates and holds for each of them the distribution, samples, costs (row i belongs to sample i), weights, new distribution and evaluation that were actually used, and the caller's distribution is not modified. The learning curve has one row per update: the number of samples used before it and the costs of its evaluation (or, without evaluations, the middle of the update and the mean of its sample costs).",
     ["inputs", "configurations", "histories"],
     "every cost function or task (with one or more cost components), updater, number of updates from 0 and of samples, with and without a directory (one that holds no earlier session)",
     "The only tests of the library compare function approximators with C++; nothing runs an optimization, and mixing up samples and costs, or recording something else than was used, needs the whole history to be compared.",
     [RO, ROT, LS, LST], [("optimization loop", RO), ("optimization loop for tasks", ROT), ("bookkeeping", f"{LS}: add_update, add_eval"), ("learning curve", f"{LS}: get_learning_curve")],
     ["calls received by the cost function, task, task solver, distribution and updater", "entries of the returned session", "get_learning_curve, get_n_updates"])

prop("C04", "Step-by-step optimization survives process restarts and crashes",
     "Step-by-step optimization keeps all of its state in the directory: with each step in a new process that only opens the directory, sample i of update u is the i-th row of that update's samples, the DMP stored for it has these parameters (and the evaluation DMP the mean), the costs stored for it are those of its own cost variables, and the distribution after update u is that of the updater for update u's distribution, samples and costs, and is the distribution of update u+1. If a step is killed at any of its writes, running the same step again in a new process succeeds and gives a directory with the same guarantees and the same costs, weights and new distribution as an uninterrupted step.",
     ["histories", "crash_points", "configurations"],
     "every number of samples and parameters from 1, every number of steps, every assignment of steps to processes, and a kill before, during or after every file that a step (or opening the directory) writes",
     "Nothing tests the step-by-step functions; crash points and process boundaries are never exercised.",
     [SBS, LS, LST], [("state kept in the directory", SBS), ("entries on disk", f"{LS}: save, ask")],
     ["files in the directory after each step, opened in a new process"])

prop("C05", "Costs are turned into valid, order-respecting weights",
     "For every non-empty list of finite costs the weights are non-negative, sum to one, there is one per cost, and a lower cost never gets a smaller weight; with cost components only the first (total) counts. They follow the named method: PI-BB weights are proportional to exp(-h * (cost - min) / (max - min)) and all equal when all costs are equal; CEM gives the best mu samples equal weight and the rest none; CMA-ES gives the i-th best of the best mu a weight proportional to log(mu + 0.5) - log(i) and the rest none; an elite larger than the number of samples is limited to it, and an unknown method acts as PI-BB. The costs passed in are not modified.",
     ["inputs"],
     "every list of costs (any length, ties, all equal, any magnitude or offset, 1-D, 2-D or list of lists), each method, each eliteness",
     "No test calls this; ties, single samples, offsets and elites larger than the batch are boundary inputs over an unbounded space.",
     [UPD], [("weighting", f"{UPD}: costs_to_weights")], ["return value of costs_to_weights", "weights returned by update_distribution"])

prop("C06", "A distribution update is the weighted update its updater documents",
     "Every updater returns a new distribution whose mean is the weighted average of the samples, together with the weights of the costs, and leaves the distribution, samples and costs it was given unchanged. The covariance is unchanged (mean updater), multiplied by the square of the decay factor (decay updater), or the weighted covariance of the samples around the old mean (adaptation updater), for the last restricted to its diagonal if asked for, then low-pass filtered with the learning rate, then with each diagonal entry limited to the squares of the diagonal maximum and minimum (scalars or one per dimension). Everything else about the distribution, such as bounds, is kept, and learning rates outside [0, 1] are rejected.",
     ["inputs", "configurations", "histories"],
     "every distribution (bounded or not), number of samples and dimensions from 1, costs, and setting of the updaters, and chains of updates",
     "No test runs an updater; the order of filtering and limiting, and per-dimension limits, need specific settings to show.",
     [UPD, DG, DGB], [("mean update", f"{UPD}: UpdaterMean"), ("decay", f"{UPD}: UpdaterCovarDecay"), ("adaptation", f"{UPD}: UpdaterCovarAdaptation")],
     ["return values of update_distribution", "arguments after the call"])

prop("C07", "Sampling gives the asked number of samples, within the bounds",
     "Sampling from a distribution of n dimensions gives an array with exactly the asked number of rows and n columns, leaves the distribution unchanged, and gives the same samples again for the same state of the random number generator; their statistics are those of the distribution (exactly the mean in every direction in which the covariance is zero). Samples of a bounded distribution are those of the unbounded one clipped to the bounds, which may be scalars, one per dimension, or absent on either or both sides. A mean and covariance of different sizes are rejected.",
     ["inputs", "configurations"],
     "every mean and covariance (including singular ones), number of samples from 1, and combination of bounds",
     "No test samples a distribution; bounds that are absent or per-dimension and singular covariances are particular configurations.",
     [DG, DGB], [("sampling", f"{DG}: generate_samples"), ("clipping", f"{DGB}: generate_samples")], ["return value of generate_samples"])

prop("C08", "Parameter vectors obey get/set laws under any selection",
     "For function approximators, DMPs and DMPs with schedules, after any history of selecting, setting and training: the parameter vector has the reported size; it consists exactly of the currently selected parameters, in a fixed order; getting gives what was last set, value for value; setting changes the selected parameters only, so that everything not selected, read through another selection, keeps its value. A vector of the wrong size is rejected without changing anything, selecting replaces any earlier selection, and changing a vector after setting or getting it changes nothing in the object.",
     ["histories", "inputs"],
     "every interleaving of selections (names as a string, list or set, in any order, with none, some or all), gets, sets with vectors of any size, and retrainings, for each function approximator, DMP type and number of dimensions",
     "Tests never select or set parameters; the laws are over histories of selections, where state left over from an earlier selection only shows later.",
     ["dmpbbo/functionapproximators/Parameterizable.py", FA, DMP, DMPS], [("selection of parameters", f"{FA}: set_selected_param_names"), ("vector access", f"{FA}: get_param_vector, set_param_vector"), ("DMP parameters", f"{DMP}: get_param_vector, set_param_vector")],
     ["get_param_vector, get_param_vector_size, selection followed by get"])

prop("C09", "Function approximators have a sound train/predict lifecycle",
     "Predicting with an untrained function approximator is rejected, and training makes it trained; training again gives the same predictions as training a new one on the last data, whatever was trained or predicted before. A prediction has one row per input row; each row depends only on its own input row; predicting changes nothing, so repeating it gives the same result; and inputs with the wrong number of columns are rejected. Training does not modify the data it is given, and changing the data afterwards does not change the predictions.",
     ["histories", "inputs"],
     "every sequence of train and predict calls for each kind of function approximator, with 1-D and 2-D input arrays and one or more input dimensions",
     "Tests train each approximator once on one data set; state that survives a retraining, or rows that influence each other, need particular histories and inputs.",
     [FA, FADIR + "FunctionApproximatorLWR.py", FADIR + "FunctionApproximatorRBFN.py", FADIR + "FunctionApproximatorGPR.py", FADIR + "FunctionApproximatorWLS.py"],
     [("train and predict", f"{FA}: train, predict")], ["predictions and exceptions"])

prop("C10", "Function approximators predict their documented models",
     "Weighted least squares gives the parameters solving the weighted (and regularized) normal equations, with and without offset; radial basis function networks predict the sum of weights times Gaussian kernels, with the weights solving the regularized least squares problem; locally weighted regression predicts the activation-normalized mixture of lines, each fitted by regularized weighted least squares with its kernel's activations as weights; Gaussian process regression predicts the posterior mean of the squared-exponential kernel. Basis function centers lie on an evenly spaced grid over the range of the inputs, with heights and overlaps as configured; normalized activations are non-negative and sum to one for every input.",
     ["inputs", "configurations"],
     "every data set, weighting, number of basis functions, regularization and overlap, within the range where the problem is well conditioned",
     "One data set and one setting per approximator are compared with C++, which shares the formulas; other settings (regularization, weights, offsets, more dimensions) are never run.",
     [FADIR + "FunctionApproximatorWLS.py", FADIR + "FunctionApproximatorLWR.py", FADIR + "FunctionApproximatorRBFN.py", FADIR + "FunctionApproximatorGPR.py", FADIR + "basis_functions.py"],
     [("least squares", FADIR + "FunctionApproximatorWLS.py"), ("kernels", FADIR + "basis_functions.py")], ["predictions", "parameters read through the selection interface"])

prop("C11", "Integration steps follow the system's differential equation",
     "For every dynamical system, the Euler step and the Runge-Kutta step are the standard first and fourth order formulas for its rates of change, the rates are those of the documented equation of each system with its current parameters, and integration from the start begins in the initial state (with a newly given initial value, that one). A step or a rate evaluation changes neither its arguments nor the system, so that a sequence of steps depends only on the state, and changing an array that was passed in as a state, initial state or attractor, or a state or rate that was returned, never changes the system.",
     ["histories", "inputs", "configurations"],
     "every system (exponential, sigmoid, time, spring-damper of order 1 and 2, Richards), number of dimensions, parameter values, state, step size, integration method, and interleaving with changes of parameters",
     "Tests integrate a few systems with one set of parameters and compare with C++; purity, aliasing and changed parameters need other histories.",
     [DS + "DynamicalSystem.py", DS + "ExponentialSystem.py", DS + "SigmoidSystem.py", DS + "TimeSystem.py", DS + "SpringDamperSystem.py", DS + "RichardsSystem.py"],
     [("integration", DS + "DynamicalSystem.py: integrate_step_euler, integrate_step_runge_kutta, integrate_start")], ["return values of integrate_start, integrate_step, differential_equation"])

prop("C12", "Analytical solutions solve the equation, also after parameter changes",
     "The analytical solution of a dynamical system starts in the initial state, its rates are those of the differential equation at each of its states, and it agrees with numerical integration; this holds for every parameter setting and, after any sequence of changes of tau, initial state, attractor or other parameters interleaved with earlier solutions, it equals that of a newly constructed system with the final parameters (for spring-damper systems this is claimed when they are critically damped; the library warns otherwise). The attractor of a system that has one is a fixed point that it converges to.",
     ["histories", "inputs", "configurations"],
     "every system with an analytical solution, every setting of its parameters and every history of changes and queries",
     "Tests compare with C++ (which has the same formulas) for unchanged systems; caches that survive a parameter change need a particular order of calls.",
     [DS + "ExponentialSystem.py", DS + "SigmoidSystem.py", DS + "TimeSystem.py", DS + "SpringDamperSystem.py", DS + "RichardsSystem.py"],
     [("closed forms", DS + "*: analytical_solution"), ("cached constants", DS + "SigmoidSystem.py")], ["return values of analytical_solution against differential_equation"])

prop("C13", "Phase and time run monotonically to their end and stay there",
     "A time (phase) system counts from 0 (or down from 1) linearly, reaches its end at tau and stays there exactly, in the analytical solution and under numerical integration with any step size to within one step; it never leaves [0, 1] by more than one step and is monotone. Within a DMP, phase and gating run from start to end over tau and are monotone for every type, so the forcing term vanishes after the movement.",
     ["inputs", "histories", "configurations"],
     "every tau, step size, integration method, counting direction and DMP type, up to several times tau",
     "Tests look at one tau and one step size, and do not check the end of the phase.",
     [DS + "TimeSystem.py", DMP], [("saturation", DS + "TimeSystem.py"), ("phase and gating", f"{DMP}: _get_phase, differential_equation")], ["states of analytical solutions and of integration"])

prop("C14", "A DMP is the documented composition of its subsystems",
     "The rates of change of a DMP are those of its documented coupled equations: spring-damper towards the (possibly delayed) goal plus forcing term (gating times scaled approximator output at the phase, divided by tau), with goal, phase, gating and damping evolving as their own systems, for every DMP type, scaling and number of dimensions. Integration starts in the initial state with phase, gating, goal and damping at their initial values, and the position and velocity reported for a state are those of the spring-damper part (velocity and acceleration divided by tau as documented).",
     ["inputs", "configurations"],
     "every DMP type, forcing term scaling, number of dimensions, trained or not, state and parameters",
     "The DMP test does not pass in this environment and covers one type; the coupling of subsystems is over all states and types.",
     [DMP], [("coupled differential equation", f"{DMP}: differential_equation"), ("state layout", f"{DMP}: states_as_pos_vel_acc")], ["return values of integrate_start, differential_equation, integrate_step, states_as_trajectory"])

prop("C15", "A DMP does not remember how it got its settings",
     "After any history of setting tau, the initial state and the goal, of training and of parameter changes, interleaved with integrations and queries, a DMP behaves exactly (in rates, integration, analytical solution, and reported settings) as a new DMP constructed with the final settings. Integration and analytical solutions change nothing, and copies are independent.",
     ["histories"],
     "every history of setter calls, trainings, integrations and analytical solutions, for every DMP type and number of dimensions",
     "No test changes a setting of a DMP after constructing it; forgotten subsystems only show in later integrations.",
     [DMP], [("setters that update all subsystems", f"{DMP}: tau, y_init, y_attr setters")], ["rates, trajectories and settings after each call"])

prop("C16", "Stepwise and closed-form DMP trajectories agree, and reach the goal",
     "For every DMP, integrating step by step in small steps gives the same trajectory as the analytical solution, up to an error that vanishes with the step size; the trajectory starts in the initial state with zero velocity, and after the movement it converges to the goal, whatever the approximator's parameters. Reported velocities and accelerations are the time derivatives of the reported positions and velocities, and scaling tau scales time only.",
     ["inputs", "configurations"],
     "every DMP type, number of dimensions, parameters of the approximators, tau, initial state and goal",
     "The DMP test compares one DMP with C++ and does not pass here; convergence is over all parameters and horizons.",
     [DMP], [("analytical solution", f"{DMP}: analytical_solution"), ("integration", f"{DMP}: integrate_start, integrate_step")], ["trajectories"])

prop("C17", "Training a DMP on a trajectory makes it reproduce the trajectory",
     "Training takes tau, initial state and goal from the trajectory, and the targets given to the function approximators are exactly those for which the DMP's equations reproduce the trajectory's accelerations; with sufficiently rich approximators, the trained DMP follows the demonstration (which starts at time 0). Training does not modify the trajectory, and training again depends on the last trajectory only.",
     ["inputs", "histories", "configurations"],
     "every smooth trajectory (dimensions, duration, sampling, moving or at rest), DMP type and scaling, and every history of trainings",
     "No passing test trains a DMP; the inversion must hold for every trajectory, type and scaling.",
     [DMP], [("inversion of the dynamics", f"{DMP}: compute_targets, train")], ["targets, settings and trajectories after training"])

prop("C18", "Schedules of a DMP stay within their bounds and are reproduced",
     "A DMP with schedules gives, at every step of integration and in the analytical solution, schedules with one value per schedule dimension that lie within the configured minimum and maximum (scalar or per dimension, on one or both sides, including bounds of zero), and that equal the clipped output of the schedule approximators at the current phase. Training learns the trajectory and the schedules together, and the movement is that of the DMP without schedules.",
     ["inputs", "configurations", "histories"],
     "every number of schedules, bound setting, and trajectory with schedules, for integration and analytical solutions, and parameter changes of the schedule approximators",
     "No test uses schedules; one-dimensional schedules, bounds of zero and one-sided bounds are particular configurations.",
     [DMPS], [("bounds", f"{DMPS}: _enforce_schedule_bounds"), ("schedules", f"{DMPS}: integrate_start_sched, analytical_solution_sched")], ["schedules returned"])

prop("C19", "Contextual DMPs give the DMP for the task parameters asked for",
     "A contextual DMP, asked for a movement for given task parameters, behaves as a DMP whose parameters are those predicted by the policy parameter approximators for these task parameters, independently of any earlier request. For task parameters it was trained on it reproduces the corresponding demonstrations' parameters as closely as its approximators allow; training does not modify the demonstrations.",
     ["histories", "inputs"],
     "every set of demonstrations and task parameters, every order of requests, integrations and analytical solutions",
     "No test creates a contextual DMP; dependence on earlier requests needs a history of requests.",
     [DMPC], [("two-step training", f"{DMPC}: _train"), ("parameters for a task", f"{DMPC}: _compute_param_vector, integrate_start, analytical_solution")], ["trajectories for task parameters"])

prop("C20", "Trajectory edits keep a trajectory consistent and its content intact",
     "After any history of edits, a trajectory has one position, velocity, acceleration (and misc, if it has any) row per time, with strictly increasing times. Each edit does what it says and nothing else: cropping keeps exactly the rows in the range (from its start, and before its end), appending and prepending keep all rows of both (misc if both have it) and shift times so that the sequence is continuous, padding adds resting rows, and setting the start time shifts times only; a failing edit changes nothing. Duration, length and time step reported agree with the times, and converting to and from a matrix, table or text file (to its 7 decimals) preserves the trajectory.",
     ["histories", "inputs"],
     "every sequence of edits of trajectories of any length, dimension, start time and sampling, with and without misc",
     "No test uses trajectories; interactions between edits (start times other than 0, stale lengths) need histories.",
     [TRJ], [("edits", f"{TRJ}: crop, append, prepend, pad, start_time_at_zero"), ("conversions", f"{TRJ}: as_matrix, from_matrix, savetxt, loadtxt")], ["fields of the trajectory after each edit"])

prop("C21", "Generated trajectories meet their boundary conditions",
     "Generated trajectories have positions, velocities and accelerations that are derivatives of one another, for every time vector: a minimum-jerk trajectory starts and ends at the given points with zero velocity and acceleration; a polynomial trajectory has the given position, velocity and acceleration at both ends; a viapoint trajectory additionally passes through the viapoint with the given velocity and acceleration, at the first sample that is not before the given time. Derivatives computed from positions are exact for positions that are at most quadratic in time, away from the ends.",
     ["inputs"],
     "every number of dimensions, number of time steps, start time and duration, and boundary values",
     "No test generates a trajectory in Python; start times and durations other than 0 and 1 are never run.",
     [TRJ], [("generators", f"{TRJ}: from_min_jerk, from_polynomial, from_viapoint_polynomial"), ("numerical derivatives", f"{TRJ}: diffnc")], ["fields of generated trajectories"])

prop("C22", "Saved objects behave the same when loaded",
     "A DMP (with its dynamical systems, function approximators and schedules), distribution, updater or trajectory that is saved to JSON and loaded again behaves exactly as the saved one: same settings, parameters and selection, same integration, analytical solution and further training. Saving does not change the object, loaded objects share nothing with it, and an object that is saved in several places of one file is loaded as one object.",
     ["inputs", "histories"],
     "every kind of object, in any state (trained, untrained, with parameters selected or changed), and any number of save/load rounds",
     "No test saves or loads an object in Python; state that is not saved only shows in later behaviour.",
     ["dmpbbo/json_for_cpp.py", DMP, FA], [("json export and import", "dmpbbo/json_for_cpp.py: savejson, loadjson")], ["behaviour of the loaded object"])

prop("C23", "The C++ implementation executes the saved model as specified",
     "A function approximator, dynamical system or DMP exported from Python for C++ is read by the C++ implementation with the same parameters, and there gives the same predictions, rates, integration steps and analytical solutions that the specification gives (the one that Python follows), for every input, also after settings were changed in C++. An object constructed in C++ behaves as the same one constructed in Python.",
     ["inputs", "configurations", "programs"],
     "every exported approximator (LWR, RBFN), dynamical system and DMP type supported in C++, and every input, state and step size",
     "The stable test compares two approximators on one data set; dynamical systems and DMPs did not compile here at all.",
     ["src/functionapproximators", "src/dynamicalsystems", "src/dmp"], [("reading of JSON", "src: from_json"), ("run-time execution", "src: integrateStep, differentialEquation, predictRealTime")], ["outputs of C++ programs"])

prop("C24", "The C++ control loop functions allocate nothing and keep working",
     "In C++, the functions that are called inside a real-time control loop (differential equations, integration steps of either method, real-time prediction of function approximators, and the position, velocity and acceleration of a DMP's state) return without having allocated any memory dynamically, for every dynamical system, function approximator and DMP that is loaded or constructed, for any state and step size, from the first call on, any number of times, also after changes of settings (which happen outside of the loop).",
     ["inputs", "configurations", "histories"],
     "every loadable approximator, dynamical system and DMP, and any sequence of control-loop calls",
     "The check is compiled out of release builds and only runs for what a test happens to call.",
     ["src/functionapproximators", "src/dynamicalsystems", "src/dmp", "src/eigenutils/eigen_realtime_check.hpp"], [("preallocated temporaries", "src: preallocateMemory"), ("allocation check", "ENTERING_REAL_TIME_CRITICAL_CODE")], ["allocations counted in a C++ program"])

prop("C25", "Trajectories in C++ are those of Python",
     "A trajectory passed between Python and C++ by means of a text file, in either direction, has the same rows (to the decimals of the file), times and miscellaneous variables; one that C++ reads reports its length, dimensions, duration, range, first and last positions, and matrix as they are; appending in C++ one that begins where another ends gives all rows of both, once; minimum-jerk, polynomial and viapoint trajectories generated in C++ meet their boundary conditions and are sampled at the times asked for; existing files are overwritten only if that is allowed, and saving tells whether it was done.",
     ["inputs", "histories"],
     "every trajectory (number of steps and dimensions, times, misc variables), boundary values, viapoints, and sequences of edits, exchanges and savings",
     "No test of the repository runs C++ trajectories against Python ones.",
     ["src/dmp/Trajectory.cpp", "src/eigenutils/eigen_file_io.tpp", "dmpbbo/dmps/Trajectory.py"],
     [("generation", "Trajectory::generate..."), ("files", "Trajectory::saveToFile, readFromFile; saveMatrix, loadMatrix"), ("append", "Trajectory::append")],
     ["trajectories and files produced by C++ programs"])

prop("C26", "A rollout is the movement of the DMP with the sample as its parameters",
     "A rollout of a task solver for DMPs is the movement of the DMP that the solver was constructed with, with the sample as its selected parameters: from time 0 to the given multiple of the tau it had at construction, in evenly spaced rows of the given time step, with positions, velocities and accelerations as the DMP's equations give them, as a matrix or a table as asked for. It depends on no other rollout, nor on what is done to the caller's DMP afterwards, and changes neither that DMP nor the sample; samples of the wrong size are rejected. Another DMP can be rolled out over the same time span.",
     ["inputs", "histories", "configurations"],
     "every DMP, selection of parameters, sample, time step and factor, and every history of rollouts, changes of the DMP and queries",
     "No test performs a rollout; aliasing and dependence on earlier rollouts only show in histories.",
     ["dmpbbo/bbo_of_dmps/TaskSolverDmp.py", DMP], [("rollouts", "dmpbbo/bbo_of_dmps/TaskSolverDmp.py: perform_rollout, perform_rollout_dmp"), ("parameters", f"{DMP}: set_param_vector, analytical_solution")], ["rollouts, settings of the DMP"])

prop("C27", "Plots show what is there and change nothing",
     "The lines and ellipses drawn by the plotting functions of trajectories, dynamical systems, function approximators, DMPs (also with gain schedules, and contextual ones) and learning sessions are those of the values at the time of the call: of the trajectory, of the given or computed solution, of the predictions, targets and residuals for the inputs given (or, with none, for the data last trained with, if that was to be saved), of the costs, exploration, distributions, samples and rollouts that were recorded. Plotting changes neither the object, nor what is passed to it or returned by its parts: afterwards every answer is what it would have been without. What cannot be drawn is refused, or said to be nothing, and sessions can be plotted whether or not they have a task, labels, evaluations, or one dimension only.",
     ["inputs", "histories", "configurations"],
     "every object and every history of changes, plots with any arguments, and queries",
     "The tests look at no figure, and no test asks an object anything after plotting it.",
     ["dmpbbo/dmps/Trajectory.py", DMP, "dmpbbo/dmps/DmpContextualTwoStep.py", "dmpbbo/dynamicalsystems/DynamicalSystem.py", "dmpbbo/functionapproximators/FunctionApproximator.py", "dmpbbo/bbo/LearningSession.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py"],
     [("plots of movements", "Trajectory.plot, Dmp.plot, DynamicalSystem.plot"), ("plots of models", "FunctionApproximator.plot, plot_predictions_grid, plot_model_parameters"), ("plots of sessions", "LearningSession.plot_..., LearningSessionTask.plot")],
     ["lines in figures, answers after plotting"])

prop("C28", "Matrices keep their numbers in the files and JSON of the C++ library",
     "A matrix or vector that the C++ library saves to a text file is read again, by C++ and by numpy, with the same shape and the same numbers (to the six decimals of the file); directories are made as needed, an existing file is overwritten only if that is allowed, saving tells whether it was done, and no other file changes. Loading gives the rows of any file that numpy reads as a matrix (as written by numpy or by hand, with any white space, blank lines and comments); a file that is absent, not a matrix, or not of one column for a vector is refused, leaving what was to be loaded into as it was. Written to JSON and read, in C++ or Python, a matrix or vector has the same rows with exactly the same numbers.",
     ["histories", "inputs"],
     "every history of saving, writing by other programs, and loading, every matrix of finite numbers, and every way of laying it out in a text",
     "The tests load files that numpy wrote in one way only, and never one that is missing, damaged, or written by hand.",
     ["src/eigenutils/eigen_file_io.tpp", "src/eigenutils/eigen_json.hpp", "src/eigenutils/eigen_json.tpp"],
     [("text files", "loadMatrix, saveMatrix"), ("JSON", "Eigen::to_json, Eigen::from_json")],
     ["results of the calls, and content of all files after each of them"],
     [("files", "what each file has", "the directory")])

prop("C29", "Basis functions give their documented activations, in Python and C++",
     "For every input, center and width the activation of a Gaussian basis function is exp(-((x - c) / w)^2 / 2), multiplied over the dimensions; in C++ an asymmetric one has the width of the one before it for inputs below its center, one with a covariance matrix S and prior p has the activation p exp(-(x - c)^T S^-1 (x - c) / 2), and a cosine one cos(w x + phase), in both ways of passing them. Normalized activations are each divided by their sum, or all positive ones in equal or other shares that sum to one if no basis function is active, and are one for a single basis function. There is one row per input, which depends on that input only, and nothing that is passed is changed.",
     ["inputs"],
     "every number of inputs, dimensions and basis functions, also inputs far away from all of them",
     "The tests call basis functions through function approximators only, within the range of their centers.",
     ["dmpbbo/functionapproximators/basis_functions.py", "src/functionapproximators/BasisFunction.cpp"],
     [("Gaussian", "Gaussian.activations; BasisFunction::Gaussian::activations"), ("cosine", "BasisFunction::Cosine::activations")],
     ["returned activations"])

prop("C30", "The robot performs what the optimization has sampled, and is judged by what it did",
     "In an optimization on a robot, every movement that is performed from a DMP or trajectory file is that of the initial DMP with the parameters of the sample the file was written for: performed by the C++ programs from time 0, in their time steps, for one and a half times its tau (or by the Python simulation for as long as it is asked), or, for a trajectory file, row by row what is in the file. The ball is in the hand until it is released after 0.6 s, then flies freely from there with the velocity of the hand, and stays where it has hit the floor; nothing else of the movement is changed by it. The cost variables that the robot wrote are those that are read, and the costs, weights and next distribution are those of these rollouts, whether the steps are called in one process or are the demonstration's programs, one after the other.",
     ["inputs", "histories", "configurations"],
     "every DMP, selection of parameters, task, sample and sequence of updates, and every trajectory to be performed",
     "No test performs a rollout with the programs of the robot or reads what they wrote; the chain goes over two languages, several programs, and files.",
     ["demos/robot", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py", "dmpbbo/json_for_cpp.py", "src/dmp/Dmp.cpp", "src/dmp/Trajectory.cpp"],
     [("the robot", "demos/robot/robotExecuteDmp.cpp, robotExecuteTrajectory.cpp, runSimulationThrowBall.cpp"), ("tasks", "demos/robot/TaskThrowBall.py"), ("steps", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py")],
     ["files of samples, DMPs, trajectories, cost variables, costs and distributions"],
     [("files", "what each file has", "the directory of the session")])

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
