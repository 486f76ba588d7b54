"""Writes properties.jsonl and MANIFEST.json: registry.py C01 C02 ... (the\nproperties that have a check)."""
import json
L="pystruct/learners/"
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LEARN=[L+x for x in ("ssvm.py","n_slack_ssvm.py","one_slack_ssvm.py","frankwolfe_ssvm.py","subgradient_ssvm.py","subgradient_latent_ssvm.py","structured_perceptron.py","latent_structured_svm.py")]
p("C01","Parallel training and prediction do not depend on the worker pool",
 "Training, predicting and scoring with n_jobs other than 1 give the same weights, recorded curves, predictions (in input order) and scores whatever the number of workers' relative speed, completion order, task batching, memory model (threads or separate processes, read-only arguments) and core count. Cutting-plane learners and the batch perceptron give what n_jobs=1 gives; the subgradient learner gives mini-batch subgradient descent over consecutive even slices of at most n_jobs samples.",
 ["schedules","configurations"],"every schedule, memory model, batching and core count of the pool; every learner and model family; every n_jobs",
 "The tests run almost everything with n_jobs=1 and a real pool completes the few parallel tests in whatever order the machine gives; no test controls the order, the batching or read-only memory.",
 LEARN+["pystruct/utils/inference.py"],
 [("Parallel(...)(delayed(...)) with results in dispatch order",L+"ssvm.py, n_slack_ssvm.py, one_slack_ssvm.py, subgradient_ssvm.py"),("gen_even_slices mini-batches",L+"subgradient_ssvm.py")],
 obs=["w","objective_curve_","predict","score"])
p("C02","A failing inference call, solver, logger or worker surfaces from the call",
 "If a model's inference, the QP solver's infrastructure, the logger or a worker raises during fit, predict or score, that call raises the same exception and never returns normally. The training data is unchanged, and repeating the operation once the fault is gone gives what a fresh learner gives.",
 ["fault_sequences","crash_points","schedules"],"every call at which a fault can strike, every exception type, sequentially and in a pool",
 "Tests inject no faults, let alone at every call; a broad except clause or half-updated state is only visible when the failure strikes at the right call.",
 LEARN+["pystruct/utils/inference.py"],
 [("only KeyboardInterrupt is caught in the training loops",L+"*.py fit"),("fit resets the learner's state",L+"*.py fit")])
p("C03","Ctrl-C during fit leaves a usable, consistent learner",
 "KeyboardInterrupt at any moment of a training loop makes fit stop and return the learner: its weights are those training had just reached, every recorded curve is a prefix of the uninterrupted one followed by the correct final objective, and the logger gets exactly one final call. Prediction works, the data is unchanged, and training again gives what a fresh learner gives.",
 ["crash_points","schedules"],"every point of every training loop (inference, joint feature, loss, QP, logger, worker pool), every learner and knob setting",
 "No test interrupts a fit; the number of interruption points times learner configurations is far beyond samples.",
 LEARN,[("try/except KeyboardInterrupt around the training loop, final objective afterwards",L+"*.py fit")],
 state=[("w","current weights",L+"*.py"),("objective_curve_, primal_objective_curve_, timestamps_","history",L+"*.py")])
p("C04","Checkpoints survive process crashes, power loss and disk errors",
 "After a process crash, power loss, full disk or I/O error at any point of training with a SaveLogger, every checkpoint name that was successfully saved holds a complete, loadable checkpoint at least as new as the last acknowledged save (power loss: the one before), never a torn one. Disk errors surface from fit as the original OSError, do not change the learner, and the same logger can save again afterwards.",
 ["crash_points","fault_sequences"],"every file operation of every save as the crash or fault point, torn and short writes, loss of unsynced data",
 "Tests save once to a healthy disk; torn files only appear when the crash hits inside a save.",
 ["pystruct/utils/logging.py"],[("write to a temporary file, fsync, atomic replace","SaveLogger.__call__ / save")],obs=["files in the checkpoint directory","SaveLogger.load"])
p("C05","Checkpointing is faithful, on schedule, and does not disturb training",
 "Training with a SaveLogger gives the same weights, curves and number of timestamps as without one; files are written exactly for iterations divisible by save_every and at the end, under the right names. Each checkpoint reloads to exactly the learner at that iteration (everything except the inference cache and the logger), equal to a training stopped after that iteration.",
 ["schedules","fault_sequences","configurations"],"every learner, save interval and file-name pattern; slow disks, short writes and reads; worker pools",
 "Tests save one trained learner; that each intermediate checkpoint is the state after its iteration, and that saving perturbs nothing, needs a comparison at every iteration.",
 ["pystruct/utils/logging.py"]+LEARN,[("SaveLogger.__call__, save, load","pystruct/utils/logging.py"),("logger calls in the training loops",L+"*.py fit")])
p("C06","Training resumed after stops and crashes ends where it should",
 "A training stopped any number of times (Ctrl-C, failing inference, iteration limit, crash and reload of the newest checkpoint) and continued with a warm start ends at the same optimum (cutting planes), or with exactly the same weights and curves (subgradient learners without momentum or averaging), as an uninterrupted training. Where no constraints are dropped the dual objective does not fall over a stop.",
 ["crash_points","histories","fault_sequences"],"every sequence of stops at every point, with and without loss of the process",
 "Tests warm-start after a clean fit only.",
 LEARN+["pystruct/utils/logging.py"],[("warm_start, constraints arguments",L+"one_slack_ssvm.py, n_slack_ssvm.py, subgradient_ssvm.py fit"),("checkpoint contents","pystruct/utils/logging.py")])
p("C07","QP solver failures are retried once, then reported, never used",
 "When a QP of a cutting-plane learner fails (non-optimal status or ValueError), the same QP is tried once more with slight regularisation; if that works, training continues to the optimum. If both attempts fail, fit raises ValueError, the weights stay those before the failing QP, and the learner can be trained again or warm-started.",
 ["fault_sequences","histories"],"every QP of a training as the failing one, any number of failures, all failure statuses with arbitrary accompanying 'solutions'",
 "The solver does not fail on the tests' data, so no test reaches the retry.",
 [L+"n_slack_ssvm.py",L+"one_slack_ssvm.py"],[("solver status check, regularised second attempt, ValueError",L+"n_slack_ssvm.py _solve_n_slack_qp, one_slack_ssvm.py _solve_1_slack_qp")])
p("C08","Recorded bounds stay valid under bad inference, and training recovers",
 "While loss-augmented inference returns arbitrary legal labellings, every recorded dual objective stays a lower bound of the optimal SSVM objective, and does not fall where no constraint is dropped. Once inference is exact again, continuing with a warm start converges to the optimum and records the true objective.",
 ["fault_sequences","histories"],"every sequence of wrong, stale or ground-truth answers, every learner with a dual",
 "Tests use inference that is exact or approximately so; an approximate answer at a chosen call never occurs.",
 [L+"n_slack_ssvm.py",L+"one_slack_ssvm.py",L+"frankwolfe_ssvm.py"],[("constraint generation and checks",L+"n_slack_ssvm.py, one_slack_ssvm.py"),("line search clipped to [0,1]",L+"frankwolfe_ssvm.py")])
p("C09","Independent callers in one process do not disturb each other",
 "Threads that train separate learners, predict with a shared learner, or call inference functions directly get the results they would get alone, under every interleaving. cvxopt's global options and (unless a randomised option is used) numpy's global generator are left as they were.",
 ["schedules"],"every interleaving of two or three callers at line granularity",
 "Tests are single-threaded.",
 LEARN+["pystruct/inference/linear_programming.py","pystruct/inference/inference_methods.py","pystruct/inference/maxprod.py"],
 [("no module-level mutable state, per-call solver options","pystruct/inference/linear_programming.py, "+L+"n_slack_ssvm.py, one_slack_ssvm.py")])
p("C10","Training does not depend on the clock; timestamps_ measure training time",
 "Clock jumps, a frozen clock and slow operations change nothing about the weights, curves and number of timestamps of a training. Under a steady clock timestamps_[0] is the start and every later entry the training time elapsed when it was recorded, non-decreasing, and continuing without the idle time after a warm start.",
 ["fault_sequences","schedules"],"every duration of every operation, every clock fault, warm starts after any pause",
 "Tests never look at timestamps_ values and cannot control the clock.",
 LEARN,[("timestamps_",L+"*.py fit")],state=[("timestamps_","start time, then elapsed seconds",L+"*.py")])
p("C11","Randomness is reproducible, isolated and used as documented",
 "Learners and dataset generators with a seed depend on nothing but the seed, and learners without randomness neither depend on nor touch the global generator; those that use it are reproducible from numpy.random.seed whatever else (OS entropy, clock) differs. Shuffling and sampling keep samples and labels paired: every pass visits every sample exactly once ('perm', shuffle), in order ('seq'), or makes n draws ('rnd').",
 ["schedules","configurations","histories"],"every seed, prior generator state, and foreign use of the global generator between operations; every sampling method",
 "Tests fix one seed and compare nothing with another generator state.",
 [L+"frankwolfe_ssvm.py",L+"subgradient_ssvm.py",L+"subgradient_latent_ssvm.py","pystruct/datasets/synthetic_grids.py","pystruct/models/latent_graph_crf.py"],
 [("check_random_state(random_state)",L+"frankwolfe_ssvm.py"),("shuffle(X, Y)",L+"subgradient_ssvm.py"),("np.random.seed(seed)","pystruct/datasets/synthetic_grids.py")])
p("C12","A plain fit forgets the learner's past",
 "After any history of fits on other data, failed, interrupted or checkpointed fits, predictions, scoring, parameter changes, copying, pickling and training of other learners on the same model, calling fit without a warm start gives the same weights and curves as a fresh learner with the same parameters. Subgradient learners go on from their weights and step count by design, and depend on nothing else of their past.",
 ["histories","fault_sequences"],"every sequence of operations and faults before the fit",
 "Tests fit each learner object once or twice.",
 LEARN,[("state reset at the beginning of fit",L+"*.py fit")])
p("C13","Inference back ends: failures are reported, answers are well-formed",
 "A missing back end raises ImportError from the call and is left out of get_installed, and the other back ends keep working. Whatever status the solver reports, the non-relaxed answer is an integer labelling rounding the solver's marginals, the relaxed one is (unary, pairwise) marginals of the right shapes when the solution is fractional, energies have the documented sign, and a solver failure raises instead of returning a labelling from garbage.",
 ["fault_sequences","configurations"],"every combination of available back ends, every status and marginals a solver can return, solver errors at every call",
 "Tests run against whichever back ends are installed, on problems they solve.",
 ["pystruct/inference/inference_methods.py","pystruct/inference/linear_programming.py","pystruct/models/crf.py"],
 [("get_installed, inference_dispatch, inference_ad3, inference_ad3plus, inference_lp","pystruct/inference/inference_methods.py")])
p("C14","LatentSSVM alternates correctly under any schedule and fault",
 "Every base training of LatentSSVM gets latent completions consistent with the labels and maximal for the weights of the previous round; the rounds stop at latent_iter or as soon as no completion changes, the latent objective does not rise over rounds solved to optimality, and prediction is the label of the predicted latent state. This holds with any worker pool, after failures or interruptions of earlier fits, and with degraded QP solves.",
 ["schedules","histories","fault_sequences"],"every worker schedule, failure history, base learner and latent model",
 "Tests check final scores on two data sets.",
 [L+"latent_structured_svm.py",L+"n_slack_ssvm.py",L+"one_slack_ssvm.py"],[("completion / refit loop",L+"latent_structured_svm.py fit")])
p("C15","Data set loading is all or nothing under I/O faults",
 "load_snakes, load_letters and load_scene return the complete data set or raise: short reads do not matter, read errors surface as the original OSError, a truncated or missing file raises, and no descriptor leaks. Repeated and concurrent loads are independent of each other, and of faults in earlier ones.",
 ["fault_sequences","schedules"],"every read operation of the load as the failing one; every truncation point; interleavings of two loads",
 "Tests load each file once from a healthy disk.",
 ["pystruct/datasets/dataset_loaders.py"],[("_safe_unpickle","pystruct/datasets/dataset_loaders.py")])
p("C16","Training always stops",
 "Whatever labellings inference returns, fit ends within max_iter passes over the data. Once inference finds no violated constraint any more, a cutting-plane or perceptron training stops within one more pass over the data.",
 ["fault_sequences","inputs"],"every sequence of inference answers, every learner and knob setting",
 "Tests run with consistent inference that converges.",
 LEARN,[("max_iter loops and stopping rules",L+"*.py fit")])
p("C17","What a training records about itself is true",
 "Every entry a learner appends to its recorded curves during fit is the quantity it stands for, at the weights training had at that moment: primal and subgradient objectives, the training loss of show_loss_every, the perceptron's loss per pass, whether a constraint came from the cache. Curves that belong together stay equally long, no recorded dual objective exceeds a primal objective the training went through, and the last entry is the objective of the learned weights. This also holds after Ctrl-C, warm starts, QP retries and in a worker pool.",
 ["histories","fault_sequences","schedules"],"every iteration of every training, over every sequence of stops, warm starts and retried QPs, every learner and knob setting",
 "Tests look at the last entry of a few curves, if at all; a wrong entry in the middle, or after a stop, leaves them green.",
 LEARN,[("objective_curve_, primal_objective_curve_, loss_curve_, cached_constraint_",L+"*.py fit"),("_compute_training_loss, _objective",L+"ssvm.py")],
 obs=["objective_curve_","primal_objective_curve_","loss_curve_","cached_constraint_"])
p("C18","Watching a training does not change it",
 "How verbose a learner is, whether it records a loss curve, and what a logger does with the learner at every iteration short of changing it (predict, score, print, copy, pickle, clone, call its model) have no effect on the weights, curves, caches or parameters training ends with, in any worker pool. Writing progress to a slow terminal changes nothing; when writing fails, fit raises that error, and training again gives what a silent fresh learner gives.",
 ["schedules","fault_sequences","configurations"],"every combination of verbosity, loss curve and logger actions, at every iteration; every failing write; every worker schedule",
 "Tests run silently with logger=None; that reporting code computes on the live learner without leaving a trace, at every iteration, needs a comparison with an unobserved twin.",
 LEARN,[("verbose branches, show_loss_every, logger calls in the training loops",L+"*.py fit"),("__getstate__-free pickling, predict and score on a learner in training",L+"ssvm.py")],
 obs=["w","objective_curve_","inference_cache_","standard output"])
p("C19","plot_learning draws what training recorded, whenever training stopped",
 "plot_learning, and its command line on a checkpoint, works for every learner: live, from inside a logger, after Ctrl-C, a failing inference call or an iteration limit, after a warm start, or on the checkpoint a crash left behind. It draws exactly the recorded curves and contrasts exactly the inference runs with cached constraints, reports the number of entries, last objective and gap, and leaves the learner unchanged. Without warm starts each objective is drawn at a training time between its recording and that of the next one.",
 ["crash_points","fault_sequences","histories"],"every learner and knob setting; every moment at which training stops or a checkpoint is written",
 "No test calls plot_learning; lengths of curves, timestamps and cache flags only disagree when training stops at particular moments.",
 ["pystruct/plot_learning.py"]+LEARN,[("plot_learning, main","pystruct/plot_learning.py"),("curves and timestamps appended in the training loops",L+"*.py fit")],
 obs=["curves passed to matplotlib","standard output"])
p("C20","Parallel model selection scores every candidate as if trained alone",
 "scikit-learn's clone, cross_val_score, cross_validate and GridSearchCV on a learner give, for every candidate and fold, the score and weights of a fresh learner trained alone on that fold, in any worker pool and with nested pools; the refitted best estimator equals a fresh one. The estimator passed in and the data are not changed, parameters survive cloning, and a failing training affects only its own candidate and fold.",
 ["schedules","fault_sequences","configurations"],"every schedule and memory model of the pool, every learner, parameter grid and fold layout, every failing inference call",
 "The tests use no scikit-learn model selection; leaks between trainings in one process show only when several are run, in particular orders or at the same time.",
 LEARN+["pystruct/models/*.py"],[("constructors that only store their parameters",L+"*.py __init__"),("fit resets the learner's state; score, predict",L+"ssvm.py")],
 obs=["cv_results_","best_estimator_","test scores"])
NA="a pure function of its arguments: the property quantifies over inputs only, with no schedule, clock, I/O, fault or history for a simulator to decide; random input generation would be another technique"
def n(id,title,st,files,mech):
    p(id,title,st,["inputs"],"every input","Tests sample a handful of inputs; deciding this needs input generation or proof, not simulation.",files,mech)
M="pystruct/models/"
n("P01","Max-product and Viterbi are exact on trees and chains","On graphs without cycles, max-product inference returns a labelling of maximal energy, and for chains the compiled Viterbi agrees with brute force.",["pystruct/inference/maxprod.py","pystruct/inference/_viterbi.pyx"],[("tree message passing, viterbi","pystruct/inference/maxprod.py")])
n("P02","The LP relaxation bounds the MAP energy","inference with method 'lp' solves the local-polytope relaxation: marginals are normalised and consistent, its energy bounds every labelling's, and it is tight on trees.",["pystruct/inference/linear_programming.py"],[("constraint matrix of the LP","pystruct/inference/linear_programming.py lp_general_graph")])
n("P03","Model energies equal w . joint_feature","For every model, input and labelling, dot(w, joint_feature(x, y)) equals the energy of y under the potentials used for inference, for discrete and relaxed labellings.",[M+"graph_crf.py",M+"edge_feature_graph_crf.py",M+"grid_crf.py",M+"latent_node_crf.py",M+"node_type_edge_feature_graph_crf.py",M+"unstructured_svm.py",M+"multilabel_svm.py"],[("joint_feature, _get_unary_potentials, _get_pairwise_potentials",M)])
n("P04","Loss-augmented inference maximises energy plus loss","With an exact back end loss_augmented_inference(x, y, w) maximises dot(w, joint_feature(x, z)) + loss(y, z) over z for every model.",[M+"crf.py",M+"base.py",M+"unstructured_svm.py"],[("loss augmentation of the unaries","pystruct/utils/inference.py, "+M)])
n("P05","Discrete and continuous losses agree","On integral labellings continuous_loss equals loss, loss(y, y) is zero, and no loss exceeds max_loss.",[M+"base.py",M+"crf.py",M+"latent_graph_crf.py"],[("loss, continuous_loss, max_loss",M)])
n("P06","Hard logic constraints are respected by ad3+","Labellings returned for constrained typed graphs satisfy every given XOR/OR/IMPLY/... constraint when the solver reports an integral solution.",["pystruct/inference/inference_methods.py",M+"node_type_edge_feature_graph_crf.py"],[("inference_ad3plus","pystruct/inference/inference_methods.py")])
n("P07","Typed label encoding round-trips","flattenY and unflattenY of typed graph models are inverse to each other and validation rejects exactly the inconsistent inputs.",[M+"typed_crf.py",M+"node_type_edge_feature_graph_crf.py"],[("flattenY, unflattenY, checks",M+"typed_crf.py")])
n("P08","Special models agree with the general ones","Grid, chain and edge-feature models compute the same joint features and predictions as the equivalent general graph model.",[M+"grid_crf.py",M+"chain_crf.py",M+"edge_feature_graph_crf.py"],[("make_grid_edges, inheritance",M)])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import sys
built=[x for x in sys.argv[1:]]
man={"version":1,"setup_cmd":"/opt/venv/bin/python /verif/check.py --setup","checks":[],"not_applicable":[]}
tech="deterministic simulation with fault injection: seeded search over schedules and fault sequences of the real code in one process, judged by "
T={"C01":("a reference execution with an in-order pool, n_jobs=1 and a small mini-batch model","worker schedules, memory models and batching are drawn; pools are simulated below joblib's front end"),
"C02":("a fault-free twin","one fault per run at any seam crossing, fourteen exception types"),
"C03":("an uninterrupted twin with the weights recorded at every seam","one or two interrupts per run, delivered at seam crossings of the main thread"),
"C04":("the set of acknowledged and attempted saves","crash, power loss and disk errors at any raw file operation of a simulated disk over real files"),
"C05":("the live learner, a run without logger, and runs stopped at the same iteration","legal but awkward disks (slow, short reads and writes) and worker pools"),
"C06":("the certified optimum of the fully enumerated QP, or the uninterrupted twin","one to four stops of five kinds"),
"C07":("the certified optimum of the fully enumerated QP and a fault-free twin","any set of QP attempts fails in one of four ways"),
"C08":("the certified optimum of the fully enumerated QP","loss-augmented inference degrades at a drawn rate in one of three ways, then recovers"),
"C09":("the same calls made alone","line-level preemption of two or three threads"),
"C10":("a twin under a steady clock and the virtual time of the logger calls around each entry","durations of all seams and clock faults are drawn"),
"C11":("twin runs under other generator states and the record of visited samples","prior generator state, entropy and foreign draws are injected"),
"C12":("a fresh learner","histories of up to six operations, some failing or interrupted"),
"C13":("the marginals and status handed to the code, and an independent energy","back ends are removed or made to report arbitrary statuses"),
"C14":("an independent completion of the latent variables and objective","worker pools, interrupts, failures and QP retries"),
"C15":("the complete data set read without faults","read errors, short reads, truncation and descriptor exhaustion at any operation"),
"C16":("a bound on the number of inference calls","arbitrary answers, then the ground truth"),
"C17":("the definitions, evaluated on the weights recorded at the seams","Ctrl-C at any seam crossing, warm starts, failing QP attempts, worker pools"),
"C18":("a silent, unobserved twin","drawn verbosity, loggers and worker pools; a slow terminal or one whose n-th write fails"),
"C19":("the recorded curves, and the simulated times at which entries appeared","stops at any seam crossing, checkpoints after crashes, warm starts; matplotlib is replaced by a recorder"),
"C20":("fresh learners trained one by one","drawn pools, thread preemption at any line, one failing inference call")}
for q in P:
    i=q["id"]
    if i in built:
        man["checks"].append({"property":i,"quick_cmd":"/opt/venv/bin/python /verif/check.py %s --tier quick"%i,"thorough_cmd":"/opt/venv/bin/python /verif/check.py %s --tier thorough"%i,"technique":tech+T[i][0],"level":"exploration","level_note":T[i][1]+"; sampled, not exhaustive: a clean batch is evidence, not proof"})
    elif i[0]=="P":
        man["not_applicable"].append({"property":i,"reason":NA})
    else:
        man["not_applicable"].append({"property":i,"reason":"check under construction"})
man["notes"]="All seams are outside pystruct (joblib backend, cvxopt, ad3, time, open, os, random); /repo has no hooks, only fix: commits."
json.dump(man,open("/verif/MANIFEST.json","w"),indent=1)
