"""Writes known_findings.json (run by hand): the repairs made in /repo, and the findings that were not repaired."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
FIXED = [  # (start of the commit's subject, property, what failed)
    ("read Eigen vectors from json", "C23", "the C++ dynamical systems and Dmp did not compile with Eigen 3.4 (ambiguous json conversion)"),
    ("LearningSession.ask returns a copy", "C01", "changing an array that ask had read from file changed what the session answered later"),
    ("LearningSession accepts numpy integers", "C01", "tell/ask with numpy.int64 update or sample numbers used other names than with int"),
    ("LearningSession restores the shape", "C02", "an N x 1, 1 x N or one-element array came back from file with another shape"),
    ("LearningSession no longer reads outdated", "C02", "after telling an entry again as another kind of value, a new process read the older file with the other extension"),
    ("LearningSessionTask can store a DMP", "C02", "telling a DMP as first entry of an update failed: the directory did not exist for the C++ export"),
    ("CMA-ES weights", "C05", "costs_to_weights('CMA-ES') with fewer samples than eliteness raised IndexError"),
    ("DistributionGaussianBounded without", "C07", "a bounded distribution with neither bound raised in generate_samples"),
    ("LearningSession counts the updates", "C03", "get_n_updates counted one too few (or too many) updates"),
    ("LearningSession uses the evaluations", "C04", "the learning curve ignored evaluations of a step-by-step optimization, stored as eval_costs"),
    ("opening a learning session", "C04", "opening the directory rewrote n_samples_per_update, so a kill while only reading could damage the directory"),
    ("dynamical systems do not share", "C11", "changing the array given as initial state or attractor (or a state that was returned) changed the system"),
    ("TimeSystem returns rates", "C11", "TimeSystem.differential_equation returned a scalar for a state of shape (1,)"),
    ("SpringDamperSystem accepts an array", "C11", "SpringDamperSystem(spring_constant=array) raised (comparison of an array with a string)"),
    ("critical damping of spring-damper", "C12", "the default spring constant ignored the mass, and the solution ignored an initial velocity"),
    ("RichardsSystem with the initial state", "C11", "NaN rates when the initial state equals the attractor in a dimension; attractor shared with the caller"),
    ("Dmp follows a new goal with a Richards", "C15", "setting y_attr of a DMP of type 2022/SCT23 NO_SCALING left its goal system at the old goal"),
    ("scalar model parameters of function", "C08", "set_param_vector raised for parameters that are single numbers (the offset of WLS)"),
    ("function approximators do not share their", "C08", "changing a vector after set_param_vector changed the parameters"),
    ("parameter vectors are empty", "C08", "get_param_vector raised (or gave parameters) with nothing selected"),
    ("regularization of LWR", "C10", "the regularization given to LWR was not used in training"),
    ("RBFN and LWR accept one number", "C10", "training with a single number of basis functions and several input dimensions raised"),
    ("GPR does not share", "C09", "changing the training inputs after training GPR changed its predictions"),
    ("setting tau of a Dmp also sets it", "C15", "a new tau was not passed on to the damping system"),
    ("Dmp reports its initial state", "C15", "Dmp.y_init was wrong before training, and arrays were shared with the caller"),
    ("Dmp.integrate_start accepts", "C14", "Dmp.integrate_start(y_init) raised with several dimensions"),
    ("selecting parameters of a Dmp without", "C08", "the goal stayed selected after a selection without it"),
    ("training a Dmp with scaling", "C17", "NaN targets for a dimension at rest with scaling of the forcing term"),
    ("setting tau of a Dmp scales a sigmoid", "C16", "a sigmoid gating kept its rate when tau was set, so that the forcing term did not vanish (or vanished early)"),
    ("Dmp.states_as_pos_vel_acc", "C14", "states_as_pos_vel_acc gave wrong elements for several states"),
    ("DmpWithSchedules can be trained with", "C18", "train with schedules that are not in the trajectory raised"),
    ("DmpWithSchedules keeps all schedules", "C18", "bounds of zero were ignored, and bounds per dimension raised for several schedules"),
    ("minimum-jerk trajectories whose", "C21", "from_min_jerk took the last time for the duration, so that it was wrong for times that do not start at 0"),
    ("polynomial trajectories have", "C21", "from_polynomial had the given velocities and accelerations only for durations of 1"),
    ("coefficients of polynomial", "C21", "from_polynomial did not reach its end with an initial acceleration"),
    ("viapoint trajectories pass", "C21", "two samples at the viapoint, times changed for non-uniform sampling, NaN for viapoints in the second or last sample"),
    ("derivatives of trajectories with less", "C21", "derivatives of two samples were wrong, of one sample raised"),
    ("trajectories with misc variables given as", "C20", "crop raised (having cropped the other fields) with misc variables given as a vector"),
    ("cropping a trajectory beyond", "C20", "cropping by time with an end after the last time removed the last row"),
    ("appending and prepending", "C20", "prepending a trajectory not starting at 0 gave times that do not increase; a refused append had changed some fields; misc of size 0"),
    ("dt_mean of a trajectory", "C20", "dt_mean was that of the trajectory before cropping, appending or prepending"),
    ("padding a trajectory", "C20", "padding failed for some numbers of rows due to rounding, gave NaN times for one row, and removed misc variables"),
    ("trajectories with one time step can", "C20", "a saved trajectory with one row could not be loaded"),
    ("minimum-jerk trajectories in C++", "C25", "as in Python: they depended on the start time"),
    ("polynomial trajectories in C++", "C25", "as in Python: velocities, accelerations and the end were wrong"),
    ("DmpContextualTwoStep.dim_dmp", "C19", "dim_dmp returned a method, so that trajectories of states failed"),
    ("DmpContextualTwoStep accepts task", "C19", "training with scalar tasks and asking with numbers or vectors raised or gave the wrong shapes"),
    ("tau and initial state of a DmpContextualTwoStep", "C19", "tau and initial state of a contextual DMP were not those of its DMP (setting them had no effect)"),
    ("DmpContextualTwoStep.from_dmp", "C19", "from_dmp changed which parameters of the passed DMP are selected"),
    ("SigmoidSystem (C++) adapts", "C23", "after set_y_init the carrying capacity was that of the initial state before"),
    ("SpringDamperSystem (C++) reads", "C23", "initial velocities were dropped when reading a spring-damper system from json"),
    ("DMPs without a goal system can", "C23", "reading a DMP of type IJSPEERT_2002_MOVEMENT from json threw"),
    ("DMPs without function approximators can", "C23", "integrating a DMP that has no function approximators crashed"),
    ("DMPs use the spring constant", "C23", "spring constant and mass of the spring system were not read from json, and not used in the analytical solution"),
    ("the initial state of a DMP can", "C23", "set_y_init through a reference to a DynamicalSystem wrote y_init as the entire state"),
    ("get_y_init of a DMP", "C24", "differentialEquation allocated memory in DMPs with G_MINUS_Y0_SCALING"),
    ("every constructor of Dmp", "C23", "DMPs constructed with a type or with a number of dimensions wrote outside of their states"),
    ("DMPs constructed in C++ have the gating", "C23", "gating of DMPs constructed with a type, with a tau other than 1, did not end with the movement"),
    ("saving a matrix in a directory", "C25", "saving in a directory reported success when an existing file was kept"),
    ("saved training data is a copy", "C27", "arrays passed to train() were kept, not copied, and kept after training with other data without saving: plots drew other data than that of the training"),
    ("plotting predictions without targets", "C27", "plot(inputs) raised TypeError, or drew the targets of the training at the wrong inputs"),
    ("plotting a learning curve leaves", "C27", "the labels returned by get_cost_labels() got another 'total cost' with each plot; the legend was put in the current axes"),
    ("rates of a RichardsSystem", "C11", "NaN rates when the initial state is the attractor up to rounding (a goal predicted for a task, say)"),
    ("sessions without a task can be plotted", "C27", "LearningSessionTask.plot() raised if no task was told"),
    ("plotting a contextual DMP leaves", "C27", "plotting changed initial state, goal and parameters of the DMP"),
    ("plotting policy parameter functions", "C27", "failed for one parameter, two task parameters, or without training data"),
    ("Load matrices from text files", "C28", "loadMatrix gave wrong rows for trailing white space and blank lines, did not end for texts and comments, crashed for empty files, and loaded several columns into vectors"),
    ("Normalize activations of Gaussians", "C29", "normalized activations of Gaussians with covariances did not sum to one if any input was far from all of them"),
    ("tables read from a session's directory", "C02", "numbers of tables changed in the last digits when read again"),
    ("TimeSystem::analyticalSolution for times", "C23", "the analytical solution of a TimeSystem in C++ was wrong for times in another order: all rows after the first one beyond tau had the final state"),
    ("rollouts have the time step", "C26", "TaskSolverDmp(dmp with tau 0.6, dt 0.1, 1.0) made rows 0.12 apart, as 0.6/0.1 is less than 6 when rounded"),
    ("the simulated ball does not change", "C30", "run_python_simulation: gravity overwrote the acceleration of the hand in the row of the release, which is part of the costs"),
    ("rates of sigmoid systems", "C15", "the rates of a sigmoid (gating) system in the analytical solution were NaN or zero some 14 durations after the start and later"),
]
FINDINGS = []

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "355c71c..HEAD"], capture_output=True, text=True, check=True).stdout.splitlines()
fixed, used = [], set()
for start, prop, what in FIXED:
    hits = [line for line in log if line.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(hits) == 1, (start, hits)
    used.add(hits[0])
    fixed.append(f"fixed: property={prop} {hits[0].split()[0]} {what}")
for line in log:
    if line not in used:
        print("not listed:", line)
(V / "known_findings.json").write_text(json.dumps(dict(findings=FINDINGS, fixed=fixed), indent=1) + "\n")
