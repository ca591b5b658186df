"""Which generated-input searches decide which property, and the build variants they run in."""
COMMON = ["-g", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-Wno-everything" if False else "-w"]
VARIANTS = {
    "plain": ("g++", ["-O1"] + COMMON),
    "asan": ("clang++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + COMMON),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"] + COMMON),
}
# step: the library calls the controlled scheduler at its memory accesses (compiled with -fsanitize=thread, linked against the
# harness's own definitions of the instrumentation entry points)
VARIANTS["step"] = ("clang++", ["-O1"] + COMMON)
LIB_FLAGS = {"step": ["-fsanitize=thread"]}
VARIANT_HARNESS_FLAGS = {"step": ["-DVF_STEP"]}
HARNESS_FLAGS = {}

A_GEN = "only generated problems, configurations and histories within the stated sizes are explored; absence of a counterexample is not a proof"
A_FP = "floating-point comparison uses a tolerance of 1e-9 relative to the largest value in the tree"


def R(target, harness, variant="plain", **kw):
    return dict(target=target, harness=harness, variant=variant, **kw)


T = "h_tree"
P = "h_pool"
A = "h_alg"
M = "h_misc"
O = "h_more"
X = "h_conc"
L = "h_mem"
PROPERTIES = {
    "C01": dict(runs=[R("pool_exact", P, "step"), R("pool_large", M)]),
    "C02": dict(runs=[R("pool_term", P, "step")]),
    "C03": dict(runs=[R("protocol_any", P, "step")]),
    "C04": dict(runs=[R("tree_model", T), R("tree_threads", T), R("tree_sched", A, "step")]),
    "C05": dict(runs=[R("tt_single", T), R("tt_roots", T), R("tt_threads", T), R("tt_sched", A, "step")]),
    "C06": dict(runs=[R("uct_values", T), R("uct_threads", T), R("uct_sched", A, "step")]),
    "C07": dict(runs=[R("uct_select", T), R("uct_select_freq", T)]),
    "C08": dict(runs=[R("recommend", T)]),
    "C09": dict(runs=[R("ments_values", T), R("ments_threads", T), R("ments_sched", A, "step")]),
    "C10": dict(runs=[R("energy_policy", T)]),
    "C11": dict(runs=[R("tents_values", T), R("tents_policy", T)]),
    "C12": dict(runs=[R("rents_values", T), R("rents_policy", T)]),
    "C13": dict(runs=[R("dp_values", T), R("dp_threads", T), R("dp_sched", A, "step")]),
    "C14": dict(runs=[R("dents_entropy", T), R("dents_threads", T), R("dents_sched", A, "step")]),
    "C15": dict(runs=[R("temps_nodes", T), R("temps_fn", T)]),
    "C16": dict(runs=[R("categorical", M, "asan"), R("mixtures", M, "asan")]),
    "C17": dict(runs=[R("sample_helper", M, "asan"), R("rng", M, "asan"), R("rng_threads", M)]),
    "C18": dict(runs=[R("repro", O)]),
    "C19": dict(runs=[R("mc_eval", M, "asan"), R("mc_eval_threads", M, "asan"), R("eval_policy", M, "asan"), R("mc_eval_sched", A, "step")]),
    "C21": dict(runs=[R("types", M, "asan")]),
    "C22": dict(runs=[R("context", M, "asan"), R("protocol", P, "step", scale=0.5)]),
    "C20": dict(runs=[R("logger", A), R("logger_threads", A, "step")]),
    "C25": dict(runs=[R("alg_sched", A, "step"), R("races", X, "tsan"), R("races_eval", X, "tsan"), R("races_share", X, "tsan")]),
    "C26": dict(runs=[R("lifetimes", L, "asan"), R("tree_model", T, "asan", scale=0.1), R("logger", A, "asan", scale=0.3)]),
    "C24": dict(runs=[R("convergence", T), R("convergence_stoch", T)]),
    "C23": dict(runs=[R("mirror", O), R("shift", O)]),
    "C27": dict(runs=[R("printing", O)]),
    "C28": dict(runs=[R("outcomes", T), R("obs_defaults", O)]),
    "C29": dict(runs=[R("extreme", O), R("extreme", O, "asan", scale=0.2)]),
}
_MODEL = "property-based testing: random problems, algorithms and configurations; reference model replayed on the recorded trials; "
_STEP = "stateful property-based testing under a controlled scheduler (interleavings at memory-access granularity and clock jumps are generated choices); "
_TECH = {
    "C01": _STEP + "trial-counter model over random pool histories", "C02": _STEP + "deadlock/livelock detection and time-limit model",
    "C03": _STEP + "protocol automaton over the recorded calls of user-defined nodes", "C04": _MODEL + "tree shape and visit counts; also " + _STEP.rstrip("; "),
    "C05": _MODEL + "object identity iff equal (timestep, state); also " + _STEP.rstrip("; "), "C06": _MODEL + "means of returns; also " + _STEP.rstrip("; "),
    "C07": _MODEL + "upper-confidence rule at every selection, frequency test of repeated selections", "C08": _MODEL + "best set of every node",
    "C09": _MODEL + "soft backups; Bellman residuals under generated schedules", "C10": _MODEL + "policy recomputed, real selection measured on a grid of random values",
    "C11": _MODEL + "sparsemax values and policies", "C12": _MODEL + "relative-entropy values and policies", "C13": _MODEL + "Bellman and empirical values; residuals under generated schedules",
    "C14": _MODEL + "entropies and entropy-augmented values; residuals under generated schedules", "C15": "property-based testing: random schedules and visit counts against closed forms, on functions and on searched nodes",
    "C16": "model-based property testing: random update histories; exact sampling probabilities measured on a grid of random values", "C17": "property-based testing: exact sampling probabilities on a grid of random values; stream equality and Freedman-bounded uniformity",
    "C18": "differential (metamorphic) property testing: one seed, two differently organised searches, bitwise equality", "C19": "property-based testing: rollouts recorded by the environment against a policy model and recomputed statistics; also " + _STEP.rstrip("; "),
    "C20": "model-based property testing with a virtual clock: row model over random run histories, also under the controlled scheduler", "C21": "model-based property testing: value model of types and maps over random operation histories",
    "C22": "model-based property testing of operation histories; " + _STEP + "contexts of trials are separate", "C23": "metamorphic property testing: mirrored and shifted games",
    "C24": "property-based testing against exact dynamic programming", "C25": _STEP + "plus ThreadSanitizer on randomly generated free-running histories", "C26": "stateful property testing of random lifetimes under ASan/UBSan with live-object accounting",
    "C27": "property-based testing: printed text parsed against the real tree", "C28": "property-based testing: outcome probabilities measured on a grid of random values, support and martingale tests along trials", "C29": "robustness fuzzing of extreme valid problems and parameters (plain, ASan, UBSan) with finiteness and distribution oracles",
}
for _k, _v in _TECH.items():
    PROPERTIES[_k]["technique"] = _v
for _p in PROPERTIES.values():
    _p.setdefault("assumptions", [A_GEN, A_FP])
    _p.setdefault("technique", "property-based testing: random MDPs/games and configurations, differential against an independent reference model, shrinking")
    _p.setdefault("note", "Bounded random exploration of the real code with an explicit oracle; no counterexample in the cases counted in the evidence. Not a proof. " + "; ".join(_p["assumptions"]))
