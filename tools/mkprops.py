"""Writes /verif/properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
F = "pyparticleest/"
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)

add("C01", "Seeded runs are reproducible and isolated from other runs",
    "With equal models, data and options and the random source in the same state, a filtering, smoothing or parameter-estimation run gives bit-identical results. "
    "This holds whatever ran earlier in the process (including runs that were aborted half way by an error), and however the run is interleaved with other runs that use their own model objects and random streams. "
    "No run reads or alters another run's estimates, options or random stream.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving (pre-emption between any two lines of library code) of up to four concurrent estimation tasks, every earlier history of completed and aborted runs",
    "The tests build one model object and call single unit functions once; nothing runs twice, after an aborted run, or next to another run.",
    [F+"filter.py", F+"smoother.py", F+"simulator.py", F+"paramest/paramest.py", F+"models/nlg.py", F+"models/rbpf.py"],
    [("every run builds its own trajectory, filter and smoother objects", F+"filter.py ParticleTrajectory.__init__, "+F+"smoother.py SmoothTrajectory.__init__"),
     ("all randomness comes from the numpy global generator", F+"filter.py sample, "+F+"models/*.py sample_process_noise")],
    [("numpy.random global state", "the only source of randomness", "numpy.random")],
    ["Simulator.simulate results", "ParticleTrajectory", "SmoothTrajectory", "ParamEstimation*.maximize"])

add("C02", "A failed step changes nothing and can be retried",
    "If a model function fails (with any exception, including out-of-memory or an interrupt) while a measurement or time step is being processed, the estimates, weights, inputs, measurements and time stamps recorded so far are exactly what they were before the call; only a not yet existing initial estimate may have been created. "
    "Repeating the failed call then gives exactly the step that a run without the failure would have produced, and every later filtering and smoothing result is the same as well. "
    "A failed smoothing call likewise leaves the filtered result usable and can be repeated.",
    ["crash_points", "fault_sequences", "configurations"],
    "a failure at every model call and random draw of every step, repeated failures of one step, every filter and every smoother",
    "No test runs a filter step at all, and none lets a model function fail.",
    [F+"filter.py", F+"smoother.py"],
    [("the step works on copies of the previous approximation and is appended at the end", F+"filter.py ParticleTrajectory.forward / measure"),
     ("the time index is advanced once the step exists", F+"filter.py ParticleTrajectory.forward / measure")],
    [("ParticleTrajectory.traj/ind", "recorded steps and current time index", F+"filter.py")],
    ["ParticleTrajectory.forward", "ParticleTrajectory.measure", "ParticleTrajectory.perform_smoothing"])

add("C03", "Recorded history is append-only; smoothing and inputs are read-only",
    "Each time update adds exactly one step and never alters steps recorded before it, and smoothing never alters the filtered particles, weights, ancestors or recorded data, however often and with whichever method it is run and also when it fails half way. "
    "Returned smoothed trajectories do not share storage with the filtered result, with each other or with a reference trajectory passed in. "
    "Caller-owned inputs, measurements, parameter vectors and option dictionaries are never modified.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of measurement updates, time updates and smoothing calls, with and without failures in between, for every filter, smoother and estimator",
    "No test records a history, runs a smoother or passes options.",
    [F+"filter.py", F+"smoother.py", F+"simulator.py", F+"paramest/paramest.py", F+"models/rbpf.py"],
    [("ParticleApproximation copies its arguments", F+"filter.py ParticleApproximation.__init__"),
     ("smoothers copy before in-place model updates", F+"smoother.py mc_step, "+F+"models/*.py sample_smooth")],
    [("ParticleTrajectory.traj", "recorded filter history", F+"filter.py"), ("SmoothTrajectory.traj", "smoothed result", F+"smoother.py")],
    ["ParticleTrajectory", "SmoothTrajectory", "Simulator", "ParamEstimation*.maximize"])

add("C04", "Online and batch processing agree and data stay aligned in time",
    "Feeding measurements one at a time, with or without preallocated storage and with the first measurement taken before or after the first time update, gives exactly the result of the batch interface on the same data and random stream. "
    "For every step k the model is asked to move from time k to k+1 with exactly input u_k at time stamp k and to weigh the new particles with exactly measurement y_{k+1} at time stamp k+1, each used once, and smoothing presents the same alignment.",
    ["schedules", "histories", "inputs", "configurations"],
    "every chunking of a data stream into calls, every series length and preallocation size, every filter and smoother",
    "No test feeds a data stream; alignment needs multi-step histories.",
    [F+"filter.py", F+"simulator.py", F+"smoother.py", F+"interfaces.py", F+"models/rbpf.py"],
    [("u, y and t buffers grow with the time index", F+"filter.py ParticleTrajectory.forward / measure"),
     ("index offset for a first measurement", F+"simulator.py Simulator.simulate")],
    [("uvec/yvec/tvec", "recorded data", F+"filter.py ParticleTrajectory")],
    ["model callbacks update/measure/logp_xnext/propose", "Simulator results"])

add("C05", "Filter weights follow the importance-weight recursion exactly",
    "After every step of the bootstrap, auxiliary, proposal-based and measurement-proposal filters the normalised weights equal the previous weights (uniform if the step resampled) times the exact importance correction of that filter for each particle's own parent and value. "
    "Weights stay free of NaN and sum to one even when log-likelihoods are hugely negative, widely spread or minus infinity for some particles. "
    "The reported filtered estimates and mean are exactly the recorded particles under these weights, the most likely particles an approximation names are those of largest weight, and single draws from it follow the weights.",
    ["histories", "fault_sequences", "inputs", "configurations"],
    "every random draw sequence, every likelihood sequence with at least one possible particle, extreme outliers at any step, every filter and resampling threshold",
    "No test runs a filter; underflow and outliers need many steps or extreme data.",
    [F+"filter.py", F+"simulator.py"],
    [("log-weights with running offset", F+"filter.py ParticleFilter.measure, SIR.forward, FFPropY.forward, AuxiliaryParticleFilter.forward")],
    [("ParticleApproximation.w", "log-weights", F+"filter.py")],
    ["Simulator.get_filtered_estimates", "Simulator.get_filtered_mean", "ParticleTrajectory"])

add("C06", "Resampling happens exactly when needed and is faithful",
    "A step of an unconditional filter resamples if and only if the effective number of particles is below the threshold fraction of the particle count (never with threshold zero), and the returned flag and the batch run's count report exactly that. "
    "When it does, each particle is copied either floor or ceil of N times its normalised weight times, a zero-weight particle is never selected, the particle count is kept and all weights become equal; the expected number of copies is proportional to the weight. "
    "This holds for every value the random source may return.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "every weight vector (including zeros, one dominating weight, ties) and every legal random draw including the ends of its range",
    "No test resamples; the ends of the random range and degenerate weights are never sampled.",
    [F+"filter.py"],
    [("systematic resampling", F+"filter.py sample, ParticleApproximation.resample"), ("effective sample size test", F+"filter.py calc_Neff, forward")],
    [("ancestors", "parent index per particle", F+"filter.py TrajectoryStep")],
    ["ParticleTrajectory.forward return value", "Simulator.simulate return value", "TrajectoryStep.ancestors"])

add("C07", "Particle genealogy is genuine",
    "Every filtered particle was produced by the model from the particle named as its ancestor in the previous step (and from no other), for every filter and also for models that look at the whole past. "
    "Trajectories returned by the ancestor smoother are complete genuine lineages, and the number of times a final particle is the end of a returned trajectory is floor or ceil of its weight times the number of trajectories.",
    ["histories", "configurations", "inputs"],
    "every resampling pattern over many steps, every filter, any number of trajectories, Markov and history-dependent models",
    "No test builds a history of more than one step.",
    [F+"filter.py", F+"smoother.py", F+"interfaces.py"],
    [("ancestors stored with each step", F+"filter.py TrajectoryStep"), ("lineage tracing", F+"smoother.py calculate_ancestors")],
    [("TrajectoryStep.ancestors", "parent indices", F+"filter.py")],
    ["ParticleTrajectory", "SmoothTrajectory (ancestor)", "model callbacks of history-dependent models"])

add("C08", "Filtered and smoothed estimates match the exact posterior",
    "On problems whose exact posterior is known (linear-Gaussian systems expressed as nonlinear-Gaussian models, with constant or state-dependent noise), the estimates of every filter and every smoother agree with the exact filtering and smoothing distributions up to Monte Carlo error. "
    "This includes time-varying inputs, measurement drop-outs, first measurement before or after the first time update, and any resampling threshold.",
    ["inputs", "configurations", "histories"],
    "random systems of dimension one to three, random data, every filter and smoother combination",
    "The tests check single density evaluations with unit variances only; no estimate is ever compared with an exact answer.",
    [F+"models/nlg.py", F+"filter.py", F+"smoother.py", F+"simulator.py"],
    [("Gaussian transition and measurement models", F+"models/nlg.py"), ("filter/smoother pipeline", F+"simulator.py simulate")],
    [], ["Simulator.get_filtered_mean", "Simulator.get_smoothed_estimates"])

add("C09", "Conditional filters keep their reference trajectory and its law",
    "A conditional particle filter (plain, ancestor-sampling, measurement-proposal or proposal-based) contains the reference trajectory's state as a particle at every time step including the first, and leaves the reference object unmodified. "
    "With ancestor sampling the reference state's parent is drawn with probability proportional to weight times transition density, otherwise its parent is the previous reference state; all other particles' parents are drawn in proportion to weight, and particles are propagated and weighted as in the corresponding unconditional filter. "
    "For Markov models, running conditional filter and trajectory selection repeatedly leaves the exact posterior unchanged.",
    ["histories", "inputs", "configurations"],
    "every reference trajectory, data series, particle count and number of repeated sweeps",
    "No test runs any conditional filter.",
    [F+"filter.py", F+"paramest/paramest.py"],
    [("reference particle in last slot", F+"filter.py CPF, CPFAS, CPFYAS, CSIRAS")],
    [("ctraj", "reference trajectory", F+"filter.py")],
    ["ParticleTrajectory with filter cpf/cpfas/cpfyas/csiras"])

add("C10", "Backward simulation draws from the exact backward distribution",
    "Each backward-simulation smoother (full, rejection, adaptive rejection) selects, at every time step and for each trajectory, a filter particle with probability exactly proportional to its weight times its transition density to the trajectory's next state; the Metropolis variant applies its stated number of correct Metropolis moves to the genealogical ancestor. "
    "All variants terminate whatever acceptance rate they meet, and the linear states sampled for Rao-Blackwellised models follow their exact conditional distribution.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "every filter history, number of trajectories, retry limit and random sequence, including ones in which proposals are rejected forever",
    "No test runs a smoother; correctness is a statement about a distribution.",
    [F+"smoother.py", F+"filter.py", F+"models/mlnlg.py", F+"models/hierarchial.py", F+"models/nlg.py"],
    [("bsi_full/bsi_rs/bsi_rsas/bsi_mcmc", F+"smoother.py"), ("bound on transition density", F+"models/*.py logp_xnext_max")],
    [], ["SmoothTrajectory", "ParticleTrajectory.perform_smoothing"])

add("C11", "Metropolis-Hastings smoothers leave the exact target invariant",
    "The iterated (plain and reduced) and the backward-proposing Metropolis-Hastings smoothers converge, for every number of trajectories, from any starting trajectories to the exact smoothing distribution given the filter's particles, and leave it invariant. "
    "Measurement drop-outs, also at the first or last step, and data of any length including a single step are handled.",
    ["histories", "inputs", "configurations"],
    "random finite-state systems whose target distribution is enumerated exactly, every number of trajectories, sweeps and drop-out pattern",
    "No test runs a smoother; invariance is a statement about a distribution.",
    [F+"smoother.py", F+"interfaces.py"],
    [("accept/reject step", F+"smoother.py mc_step"), ("sweeps", F+"smoother.py perform_mhips_pass, perform_mhbp")],
    [], ["SmoothTrajectory with mhips/mhips_reduced/mhbp"])

add("C12", "Linear sub-states carry the exact conditional mean and covariance",
    "For linear time-varying models filter and smoother reproduce the exact Gaussian filtering and smoothing moments (including the lag-one covariance). "
    "For mixed linear/nonlinear and hierarchical models every particle's linear mean and covariance, its weight increment, and after smoothing the linear moments of every trajectory, equal the exact Gaussian conditionals given that particle's own nonlinear path and the data. "
    "This holds for every nonlinear path, for correlated noise, state- and time-dependent dynamics and missing measurements, for states of any dimension.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "every nonlinear path the filter may take, drop-out pattern, dimension and noise correlation",
    "The tests do one time and one measurement update of a scalar linear model; no mixed model is exercised.",
    [F+"models/ltv.py", F+"models/rbpf.py", F+"models/mlnlg.py", F+"models/hierarchial.py", F+"utils/kalman.py", F+"utils/ckalman.pyx"],
    [("Kalman recursion per particle", F+"utils/kalman.py, "+F+"utils/ckalman.pyx"), ("conditioning on next nonlinear state", F+"models/rbpf.py cond_predict, "+F+"models/mlnlg.py meas_xi_next / calc_cond_dynamics"),
     ("constrained smoothing", F+"models/rbpf.py post_smoothing, "+F+"models/ltv.py sample_smooth")],
    [], ["ParticleTrajectory particles", "SmoothTrajectory particles"])

add("C13", "A missing measurement carries no information and breaks nothing",
    "Any subset of the measurements may be missing: every filter, smoother and parameter estimator that supports the model then completes, a step without measurement leaves the relative weights and linear-state information exactly as the time update made them, and the model's measurement function is never called without a measurement. "
    "Resampling, genealogy and smoothing at such steps follow the same rules as everywhere else.",
    ["fault_sequences", "configurations", "histories"],
    "every drop-out pattern (first, last, bursts, all) for every filter, smoother and model family",
    "No test contains a missing measurement.",
    [F+"filter.py", F+"smoother.py", F+"models/rbpf.py", F+"models/mlnlg.py", F+"paramest/interfaces.py"],
    [("None marks a missing measurement", F+"filter.py CPF.forward, "+F+"smoother.py mc_step, "+F+"models/rbpf.py pre_mhips_pass, "+F+"paramest/interfaces.py")],
    [], ["ParticleTrajectory", "SmoothTrajectory", "model measurement callback"])

add("C14", "The parameter-estimation loop follows its protocol",
    "In iteration i the E-step simulates with exactly the parameters returned by the previous M-step and with the i-th configured particle and trajectory count (the last one once the list is exhausted); callbacks see every iteration exactly once, in order, with the values used, and the final parameters are returned. "
    "The stochastic-approximation variants give the M-step non-negative weights that sum to one and that age by exactly the step-size schedule, paired with the right trajectories, and hand the sampled trajectory on as the next conditional reference. "
    "Callers' option dictionaries, lists and vectors stay unchanged, also when an iteration fails, and a failed estimation can be run again.",
    ["histories", "configurations", "fault_sequences"],
    "every schedule of sizes, step-size schedule, discarding rule, iteration count and failure point",
    "No test runs an estimator.",
    [F+"paramest/paramest.py", F+"simulator.py"],
    [("EM loop", F+"paramest/paramest.py ParamEstimation.maximize"), ("SAEM/PSAEM weights", F+"paramest/paramest.py ParamEstimationSAEM, ParamEstimationPSAEM, ParamEstimationPSAEM2")],
    [("weights/alltrajs", "weighted trajectory store", F+"paramest/paramest.py")],
    ["model.set_params", "model.maximize / maximize_weighted", "callbacks", "return value"])

add("C15", "Each numeric M-step respects bounds and never lowers its objective",
    "For any smoothed trajectories, including ones with missing measurements, the numeric M-step maximises exactly the average complete-data log-likelihood of those trajectories: the value at the returned parameters is never below the value at the starting parameters, and the parameters stay inside the given bounds. "
    "For linear time-varying models the exact data likelihood therefore never decreases from one iteration to the next.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "random systems, data, drop-out patterns, start parameters and bounds, over many iterations",
    "No test evaluates the objective or runs an M-step.",
    [F+"paramest/interfaces.py", F+"models/ltv.py", F+"models/nlg.py", F+"models/mlnlg.py"],
    [("complete-data log-likelihood", F+"paramest/interfaces.py ParamEstBaseNumeric.maximize"), ("expected log-densities", F+"models/ltv.py eval_logp_x0/eval_logp_xnext/eval_logp_y")],
    [], ["ParamEstimation.maximize", "model.maximize"])

add("C16", "Compiled and pure-Python helpers are interchangeable",
    "Whether the compiled helper modules load, fail to load, or only some of them load, every model gives the same filtered, smoothed and estimated results for the same random stream up to rounding, and the library always imports. "
    "No helper modifies arguments in one variant that it leaves alone in the other.",
    ["fault_sequences", "configurations", "histories"],
    "every subset of failing extension imports, every model family, filter and smoother",
    "The suite runs unit functions of two model classes once per build and never compares the two builds with each other.",
    [F+"utils/ckalman.pyx", F+"utils/kalman.py", F+"utils/cmlnlg_compute.pyx", F+"utils/mlnlg_compute.py", F+"models/ltv.py", F+"models/mlnlg.py", F+"models/rbpf.py", F+"models/nlg.py", F+"models/hierarchial.py"],
    [("import fallback", F+"models/*.py try/except ImportError"), ("duplicate implementation", F+"utils/*.py, "+F+"utils/*.pyx")],
    [], ["simulation results with and without extensions"])

add("C17", "Instrumentation is transparent and counts exactly",
    "Wrapping a model for operation counting changes no result: filtering and smoothing with the wrapped model gives bit-identical estimates for the same random stream, for every filter and smoother the model supports. "
    "The counters equal the number of particles the model actually processed per kind of operation, counted also for calls that fail, and totals of several runs add up.",
    ["histories", "configurations", "fault_sequences"],
    "every filter and smoother combination, every sequence of runs and failures",
    "No test uses the instrumentation.",
    [F+"utils/intrument.py"],
    [("delegating wrapper", F+"utils/intrument.py Instrumenter"), ("counters", F+"utils/intrument.py OpCount")],
    [("oc.cnt_*", "operation counters", F+"utils/intrument.py")],
    ["Instrumenter counters", "simulation results"])

add("C18", "A run can be checkpointed at any step and resumed or forked",
    "Saving a partly processed run between any two calls (by pickling or deep-copying the trajectory object) and continuing from the copy with the same remaining data and random stream gives exactly the result of the uninterrupted run, whether or not the original continued, failed or was discarded. "
    "Two continuations of one checkpoint never influence each other.",
    ["crash_points", "schedules", "histories"],
    "a checkpoint at every step, crash and restart in a fresh process state, forks that continue with different data",
    "No test stops and resumes a run.",
    [F+"filter.py", F+"smoother.py", F+"models/nlg.py", F+"models/rbpf.py"],
    [("all state of a run lives in the trajectory, filter and model objects", F+"filter.py ParticleTrajectory")],
    [("ParticleTrajectory", "complete state of a run", F+"filter.py")],
    ["ParticleTrajectory copies", "Simulator copies"])

add("C19", "Analytic gradients stay the derivative of the objective throughout an estimation",
    "For models that supply derivatives of their matrices, the gradient that accompanies each part of the estimation objective (initial state, transitions, measurements) equals the derivative of the value returned alongside it, at every parameter value an M-step visits (start, result, bounds, in between), for sampled and marginalized linear states and any pattern of missing measurements. "
    "Evaluating the objective modifies neither the smoothed trajectories nor the parameters passed in; repeating an evaluation gives the same value and gradient, also when an evaluation in between failed half way.",
    ["inputs", "schedules", "fault_sequences"],
    "all parameter values, trajectories, parametrisations, drop-out patterns and failures during an evaluation",
    "No test evaluates a gradient.",
    [F+"models/ltv.py", F+"models/mlnlg.py", F+"utils/mlnlg_compute.py", F+"utils/cmlnlg_compute.pyx", F+"paramest/interfaces.py", F+"paramest/gradienttest.py"],
    [("gradient formulas", F+"models/*.py eval_logp_*_val_grad"), ("sums over trajectories and time", F+"paramest/interfaces.py eval_logp_*_val_grad_fulltraj")],
    [("smoothed trajectories and their cached moments", "must not change while evaluated", F+"models/mlnlg.py")],
    ["eval_logp_*_val_grad", "eval_logp_*_val_grad_fulltraj"])

add("C20", "The Kalman toolbox is exact under any sequence of calls",
    "Whatever sequence of predictions, measurements (several per step, scalar, without state information, with the object's own matrices or with matrices passed along) and replacements of its matrices a Kalman filter object goes through, the state estimate, its covariance and the reported log-likelihoods are those of the exact Gaussian posterior of the whole history, and its backward pass gives the exact smoothed moments and lag-one covariances. "
    "Only the estimate that is explicitly updated in place changes: matrices, measurements, memory around the estimate, and the estimate itself when a measurement is refused because its covariance is not positive definite, stay as they were. The Gaussian log-density helpers equal the definition. All of it holds in the pure Python and in the compiled variant, for measurements of any number type, and for objects restored from a pickle or copy in between.",
    ["histories", "fault_sequences", "inputs"],
    "every order of operations, every mix of own and passed matrices, every memory layout of the estimate, refused measurements, objects restored in between, several tracks in turn",
    "No test calls the Kalman filter classes or density helpers directly.",
    [F+"utils/kalman.py", F+"utils/ckalman.pyx"],
    [("predict/measure/smooth equations", F+"utils/kalman.py KalmanFilter, KalmanSmoother"), ("log-densities", F+"utils/kalman.py lognormpdf*")],
    [("z, P", "estimates updated in place inside the particle array", F+"utils/kalman.py")],
    ["KalmanFilter", "KalmanSmoother", "lognormpdf*"])

add("N02", "The density of a sum of two uniforms is a density",
    "The helper density for the sum of two uniform variables is non-negative, integrates to one and equals the convolution of the two uniforms.",
    ["inputs"], "all interval pairs and evaluation points", "No test evaluates it.",
    [F+"utils/pdf.py"], [("piecewise linear density", F+"utils/pdf.py unifsum")], [], ["unifsum"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
