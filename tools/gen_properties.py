import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","run_trials performs exactly the requested number of complete trials",
 "A blocking run_trials(n) with no binding time limit runs exactly n complete trials (n more root visits, n root backups, n sampled contexts) and returns only when no worker is still inside a trial. This holds for every thread count, every sequence of calls on one pool (blocking, non-blocking followed by join, n smaller than the thread count, n = 0, reuse of the pool on a new environment via set_new_env), and a new root given to set_new_env receives exactly the trials requested for it while the old one receives none. set_new_env refuses with an exception while the pool still has work left.",
 ["schedules","histories"],"all thread counts, all interleavings of pool threads with the caller, all call histories on one pool",
 "The tests drive the pool with mocks and one thread or unasserted wall-clock runs; the thread-pool suite is not even in the stable set, and no test explores interleavings.",
 ["src/thts.cpp","include/thts.h"],[("worker loop and trial counter","src/thts.cpp ThtsPool::worker_fn"),("join","src/thts.cpp ThtsPool::join"),("run_trials","src/thts.cpp ThtsPool::run_trials")],
 ["root get_num_visits()","calls of sample_context_itfc","return of run_trials/join"],[("trials_remaining","trials not yet started","ThtsPool"),("num_threads_working","workers inside a trial","ThtsPool")])

p("C02","Pool never hangs and honours its time limit",
 "run_trials with any trial and time limits, join, and the pool's destructor always return: no interleaving of workers, caller and clock leaves the caller or a worker waiting forever. Once the time limit has expired no worker starts a further trial (a trial already claimed is finished), and whichever limit is reached first ends the run.",
 ["schedules","histories"],"all interleavings, all clock advances, all limits, any sequence of runs on one pool, destruction at any point",
 "Tests use the wall clock and a handful of lucky schedules; a lost wake-up needs the clock to expire between two specific steps of a worker.",
 ["src/thts.cpp"],[("condition variable protocol","src/thts.cpp worker_fn/join/run_trials/~ThtsPool"),("time check","src/thts.cpp work_left")],
 ["return of run_trials/join/destructor under a controlled scheduler and virtual clock","number of trials started after expiry"])

p("C03","Every trial follows the THTS protocol on its nodes",
 "Each trial samples one context and, starting at the root, alternately visits and selects on a decision node and visits and samples on the chosen chance node, stopping at a sink state, at the depth limit, or (in MCTS mode) right after a chance node gained a new child; the final decision node is visited only. It then calls backup on every chance/decision node pair of that path exactly once, deepest first and chance node before its parent decision node, passing the rewards before the node, the rewards from the node on, their sum and the whole trial's return (the final node's heuristic value counting as last reward). Every such call carries that trial's context and is made while the node's own lock is held.",
 ["inputs","configurations","schedules"],"all environments, node implementations, depth limits, MCTS mode on/off, heuristics, thread counts",
 "Tests check the phases with mocks on a couple of hand-made paths and one thread; lock ownership and argument values over arbitrary paths are not checked.",
 ["src/thts.cpp","include/README.md"],[("selection phase","src/thts.cpp run_selection_phase"),("backup phase","src/thts.cpp run_backup_phase"),("trial","src/thts.cpp run_thts_trial")],
 ["visit/select/sample/backup calls on user-defined nodes","environment reward and context calls"])

p("C04","The search tree is a sound, visit-conserving image of the trials",
 "For every algorithm, after any number of trials with any number of threads, the tree contains exactly the action/observation prefixes that trials actually took: children only for valid actions and for outcomes of positive probability, no children below sinks or the depth limit, and in MCTS mode at most one new decision node per trial. Visit counts are conserved: a node's count equals the number of trials that passed through it (plus any configured pseudo-trials for UCT), so a decision node's visits are the sum over its children plus the trials that stopped at it.",
 ["inputs","histories","schedules"],"all environments, configurations, numbers of trials and threads",
 "The integration tests run small grids and print the tree; nothing relates tree counts to the trials that were run.",
 ["src/thts.cpp","src/thts_decision_node.cpp","src/thts_chance_node.cpp","src/algorithms/**"],[("child creation","create_child_node_itfc in both node files"),("visit","visit_itfc overrides")],
 ["get_num_visits, get_num_children, has_child_node_itfc, get_child_node_itfc, get_pretty_print_string"])

p("C05","Transposition table shares nodes exactly when timestep and state match",
 "With the transposition table enabled, two paths reach the same decision node object if and only if they arrive at equal observations at the same timestep, whatever the number of table mutexes, threads and hash collisions; a shared node's visit count is the number of trials through all of its parents. With the table disabled no decision node is ever shared. Dropping a tree and searching again with the same manager is safe and starts from fresh nodes.",
 ["inputs","histories","schedules","configurations"],"all environments with or without merging paths, mutex counts, thread counts, and manager reuse histories",
 "One test creates a handful of nodes by hand in one thread with one mutex.",
 ["src/thts_chance_node.cpp","include/thts_manager.h","src/thts_types.cpp"],[("table lookup/insert","src/thts_chance_node.cpp create_child_node_itfc"),("key hash/equality","src/thts_types.cpp DNodeIdTuple")],
 ["node identity via get_child_node_itfc","visit counts"])

p("C06","UCT and PUCT node values are the mean of their sampled returns",
 "In UCT and PUCT every decision and chance node's value equals the arithmetic mean of the returns-to-go (sum of rewards from that node to the end of the trial, including the frontier heuristic) of exactly the trials backed up through it, a decision node's mean also counting its heuristic value with weight equal to the configured number of pseudo-trials, and its backup count being that number of returns. This holds for any rewards, configuration, transpositions and number of threads.",
 ["inputs","histories","schedules"],"all environments and trial histories, single- and multi-threaded",
 "Unit tests feed a few returns to one node; nothing relates node values to the actual trial rewards in a whole search.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/uct/uct_chance_node.cpp","src/thts.cpp"],[("running average","backup_average_return in both files"),("pseudo trials","UctDNode constructor")],
 ["node value and counts (pretty print / node fields)"])

p("C07","UCT and PUCT select by the documented upper-confidence rule",
 "Without a prior, UCT/PUCT try every valid action once before repeating any; otherwise they select an action maximising (signed for the player to move) child value + bias * prior * term, where term is sqrt(log N / n) for UCT and N^power / n for PUCT (zero counts treated as one), bias is the configured constant or, in automatic mode, the largest absolute child value (at least 0.001), and the prior factor is present only when a prior is configured. Exact ties are broken uniformly at random, and with epsilon exploration a uniformly random valid action is taken with that probability instead.",
 ["inputs","histories","configurations"],"all environments, priors, biases, powers, epsilon, one- and two-player games, trial histories",
 "Unit tests evaluate the formula on one or two mocked nodes.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/uct/puct_decision_node.cpp","src/helper_templates.cc"],[("ucb values","fill_ucb_values / compute_ucb_term"),("selection","select_action_ucb / select_action")],
 ["actions taken by trials; select_action_itfc"])

p("C08","Recommended action is the best one under the configured criterion",
 "recommend_action never changes the tree and returns a valid action of the node: for UCT/PUCT the most visited child or the child with the best mean return as configured; for MENTS/RENTS/TENTS the best soft value among all valid actions; for DB-MENTS, DENTS and EST the best Bellman (or, when configured, empirical mean) value among tried actions; or the most visited child when configured. In the MENTS family tried actions with at least the configured number of visits take precedence over all others, 'best' is minimal value at opponent nodes of two-player games, exact ties are broken uniformly, and an unexpanded node yields a uniformly random valid action (for the criteria that need children).",
 ["inputs","histories","configurations"],"all algorithms, configurations and search histories",
 "Only UCT has unit tests for recommendation; the rest print trees.",
 ["src/algorithms/uct/uct_decision_node.cpp","src/algorithms/ments/ments_decision_node.cpp","src/algorithms/common/dp_decision_node.cpp","src/algorithms/common/emp_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/ments/dbments_decision_node.cpp"],[("recommendation","recommend_action* functions"),("argmax","src/helper_templates.cc get_max_key_break_ties_randomly")],
 ["recommend_action_itfc result vs. node values"])

p("C09","MENTS soft values satisfy the soft Bellman backup",
 "In MENTS and DB-MENTS, after each backup a decision node's soft value is temp * log sum_a exp(Q(a)/temp) over all its valid actions (negated appropriately for an opponent), where Q is the child's soft value, or for an untried action the default value (or the clamped log prior plus offset); a chance node's soft value is its reward plus the backup-count-weighted average of its already-backed-up children. When all threads are quiescent and temperature is constant, every backed-up node of the tree satisfies these equations simultaneously, also with several threads.",
 ["inputs","histories","schedules","configurations"],"all environments, temperatures, priors, default values, two-player games, trial histories, thread counts",
 "MENTS has no asserting tests at all; its integration tests print the tree.",
 ["src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/ments_chance_node.cpp"],[("soft backup","backup_soft in both files"),("q values","get_soft_q_value"),("log-sum-exp","compute_action_weights")],
 ["soft value via pretty print / node fields"])

p("C10","Energy-based search policy is the specified mixture distribution",
 "In MENTS, DB-MENTS, DENTS and EST the action at a decision node is drawn from (1-l) * [ (1-m) * softmax(Q/temp) + m * prior ] + l * uniform over the valid actions, where l = min(epsilon / log(visits+1), max_explore_prob), epsilon being replaced by the root epsilon at the root when that is positive, m = prior weight / log(visits+3) when a prior weight is set and 0 otherwise, and Q is the algorithm's own (player-signed) action value (DENTS: value plus value-temperature times subtree entropy; EST: value only). It is always a proper distribution over valid actions: non-negative, summing to one, giving every action positive probability whenever l > 0.",
 ["inputs","histories","configurations"],"all environments, parameters, priors, visit counts and tree states",
 "No test evaluates the search policy of any MENTS-family node.",
 ["src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/est/est_decision_node.cpp"],[("policy","compute_action_distribution"),("weights","compute_action_weights"),("q","get_soft_q_value overrides")],
 ["select_action_itfc outcomes; action distribution"])

p("C11","TENTS uses the sparsemax value and policy",
 "In TENTS a decision node's soft value after a backup is temp times the sparsemax (Tsallis) value of Q/temp over all valid actions (player-signed), and its search policy replaces softmax by the sparsemax projection of Q/temp, zero outside the sparse support, then mixed with uniform and prior exactly as in MENTS; chance nodes average as in MENTS. temp is the node's temperature at that moment, also when it decays. With one thread, values and policies equal an independent sparsemax computation for every history.",
 ["inputs","histories","configurations"],"all environments, temperatures, epsilons, priors, two-player games and trial histories",
 "TENTS has only printing integration tests.",
 ["src/algorithms/ments/tents/tents_decision_node.cpp","src/algorithms/ments/tents/tents_chance_node.cpp"],[("sparse set","get_sparse_action_set"),("value","spmax / backup_tents"),("cached q maps","update_maps")],
 ["soft value, action distribution"])

p("C12","RENTS weights its policy by the parent's policy",
 "In RENTS a decision node's action weights are exp(Q/temp) multiplied by the probability its parent decision node gave to the same action in this trial (1 at the root, 0 for actions the parent did not have, uniform when all weights vanish), and both its search policy (mixed as in MENTS) and its soft value temp*log(sum of weights) use those weights. Chance nodes average as in MENTS.",
 ["inputs","histories","configurations"],"all environments including differing action sets along a path, parameters and trial histories",
 "RENTS has only printing integration tests.",
 ["src/algorithms/ments/rents/rents_decision_node.cpp","src/algorithms/ments/rents/rents_chance_node.cpp"],[("weights","compute_action_weights"),("context passing","put_node_distr_in_context / get_parent_distr_from_context")],
 ["soft value, action distribution"])

p("C13","DB-MENTS, DENTS and EST back up Bellman and empirical values correctly",
 "After each backup a DB-MENTS, DENTS or EST decision node's Bellman value is the maximum (minimum for an opponent) over its backed-up children and a chance node's is its reward plus the backup-count-weighted average over its child decision nodes (each starting with one pseudo-backup at its heuristic value). When configured to use empirical values instead, DENTS and EST nodes hold the mean of the returns-to-go backed up through them (decision nodes also counting their heuristic value once). At quiescence, with any number of threads, every backed-up node satisfies the Bellman equations simultaneously.",
 ["inputs","histories","schedules","configurations"],"all environments, configurations, trial histories, thread counts",
 "These algorithms have only printing integration tests plus a few common-node unit tests on hand-made children.",
 ["src/algorithms/common/dp_decision_node.cpp","src/algorithms/common/dp_chance_node.cpp","src/algorithms/common/emp_node.cpp","src/algorithms/ments/dbments_decision_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/est/est_decision_node.cpp","src/algorithms/est/est_chance_node.cpp"],[("dp backup","backup_dp_impl"),("empirical backup","backup_emp")],
 ["values via pretty print / node fields"])

p("C14","DENTS entropy backups and entropy-augmented values are exact",
 "A DENTS decision node starts with the entropy of its initial search policy; after each backup its subtree entropy is the (player-signed) Shannon entropy of its current search policy plus the policy-weighted subtree entropies of its children, and a chance node's is the backup-count-weighted average of its children's. A node's soft value is its value estimate plus its own value temperature times its subtree entropy, and all entropies are finite, non-negative in single-player problems and bounded by (number of decision levels below and including the node) * log(max actions).",
 ["inputs","histories","configurations"],"all environments, temperatures and decay schedules, epsilons (including zero), trial histories",
 "DENTS has only printing integration tests.",
 ["src/algorithms/common/ent_decision_node.cpp","src/algorithms/common/ent_chance_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/ments/dents/dents_chance_node.cpp"],[("entropy backup","backup_ent_impl"),("soft value","DentsDNode::backup / DentsCNode::backup")],
 ["pretty print fields entrpy, val_temp, soft_val"])

p("C15","Temperature schedules decay as specified and respect floor and root override",
 "The inverse-sqrt, inverse-log and sigmoid decay functions are 1 (to rounding) at zero visits, strictly positive and non-increasing (until underflow) in scaled visits, and the decayed temperature is init * decay(scale * visits), never below the configured minimum. Each MENTS-family node uses the constant temperature when no decay is configured, otherwise the decayed temperature of its own visit count, with the root-specific scale at the root when that is positive; DENTS value temperatures follow the same rule with their own parameters.",
 ["inputs","configurations","histories"],"all visit counts, scales, temperatures, floors, nodes of any tree",
 "One test evaluates a few points of the decay functions.",
 ["src/algorithms/common/decaying_temp.cpp","src/algorithms/ments/ments_decision_node.cpp","src/algorithms/ments/dents/dents_decision_node.cpp","src/algorithms/ments/dents/dents_chance_node.cpp"],[("decay","compute_decayed_temp, decayed_temp_*"),("per node","get_temp / get_value_temp")],
 ["decay functions; temp fields of pretty print"])

p("C16","Distribution objects sample from exactly the distribution they describe",
 "Categorical distributions (naive or alias method), discrete uniform and mixed distributions return only keys of positive weight, each with probability equal to its normalised weight (mixed: component weights sum to one), for any non-negative weights with positive sum; the alias method and the naive method agree. After any sequence of updates (changing weights, adding keys, replacing the whole distribution by one of another size) sampling follows the updated weights, with the alias method lagging by at most the configured reconstruction interval and never reading outside its table.",
 ["inputs","histories"],"all weight vectors (unnormalised, tiny, zero entries, one key, many keys), update histories, reconstruction frequencies",
 "Tests sample two or three fixed distributions loosely.",
 ["src/distributions/categorical_distribution.cc","src/distributions/mixed_distribution.cc","src/distributions/discrete_uniform_distribution.cc"],[("alias table","construct/reconstruct_alias_table"),("updates","update"),("naive sampling","src/helper_templates.cc sample_from_distribution")],
 ["sample() results driven by an exhaustive grid of random draws"])

p("C17","Sampling and argmax helpers and the RNG wrapper are correct for every input",
 "Sampling from a weight map returns each key with probability equal to its (normalised when requested) weight, never a key of zero weight, and fails with an exception only when a map claimed to be normalised is not; the arg-max helper returns a key of maximal value, uniformly among exact ties. Random integers lie in [min, max) and are uniform (for ranges well below 2^31), random reals lie in [0,1), for every range and seed, also when called from several threads.",
 ["inputs","schedules"],"all weight maps, value maps, ranges, seeds, random draws including the extremes",
 "Tests use three mocked draws and a few fixed maps.",
 ["src/helper_templates.cc","include/thts_manager.h"],[("sampling","sample_from_distribution"),("argmax","get_max_key_break_ties_randomly"),("rng","RandManager")],
 ["return values and exceptions"])

p("C18","Search is reproducible for a fixed non-zero seed",
 "With one thread and a fixed non-zero seed, two searches with the same environment and configuration produce identical trees, values and recommendations for every algorithm, no matter how the same total number of trials is split into run_trials calls or whether a logger is attached. A seed of zero means non-deterministic seeding, and different non-zero seeds give different random streams.",
 ["inputs","histories","configurations"],"all environments, algorithms, configurations, splits of the trial budget",
 "No test compares two searches.",
 ["include/thts_manager.h","src/thts.cpp","src/algorithms/**"],[("seeding","RandManager constructor"),("rng use","all random choices go through the manager")],
 ["pretty printed tree, trial trajectories, recommendations"])

p("C19","Monte-Carlo evaluation runs, bounds and summarises rollouts correctly",
 "run_rollouts(n, threads) performs exactly n rollouts from the initial state for any thread count, each following the tree's recommendations while it is inside the tree and uniformly random valid actions after leaving it, and stopping at a sink or after the maximum length. Each rollout's return is the sum of its rewards, and the reported mean and standard deviation are the sample mean and (for two or more rollouts) the sample standard deviation of exactly the returns of all rollouts run so far.",
 ["inputs","histories","schedules","configurations"],"all environments (including ones with no reachable sink), trees, rollout counts, thread counts, length limits",
 "There are no tests for the evaluator.",
 ["src/mc_eval.cpp","include/mc_eval.h"],[("rollout","MCEvaluator::run_rollout"),("policy","EvalPolicy"),("summary","get_mean_return / get_stddev_return")],
 ["environment calls, get_mean_return, get_stddev_return"])

p("C20","Loggers record one faithful row per configured interval",
 "A logger attached to a pool holds one origin row and then one row each time the configured number of trials has completed since the last trial-triggered row (or the runtime threshold, which advances by the configured interval with every runtime-triggered row and restarts at the current runtime when the interval is set, has been passed by the time spent inside runs), counting cumulatively across runs, each row reporting the root's true visit count and algorithm statistics at that moment; runtimes and visit counts never decrease along the rows, across consecutive run_trials calls on the pool and for any thread count. Written output has the header and all columns of that logger's algorithm (UCT: backups and mean return; MENTS: backups and soft value; DB-MENTS: also the Bellman value) in every row.",
 ["histories","configurations","schedules"],"all interval settings, run histories, thread counts and algorithms",
 "Loggers are not tested.",
 ["src/thts_logger.cpp","src/thts.cpp","src/algorithms/uct/uct_logger.cpp","src/algorithms/ments/ments_logger.cpp","src/algorithms/ments/dbments_logger.cpp"],[("when to log","ThtsLogger::should_log"),("try_log","src/thts.cpp"),("rows","*LoggerEntry")],
 ["write_to_ostream output, size()"])

p("C21","State, observation and action types obey equality, hash and print laws",
 "For all built-in state and action types, equality is an equivalence relation that holds exactly when the contents are equal (never across different kinds), equal values have equal hashes, pointers (to the base types Observation, State, Action) compare and hash by content so that maps keyed by them behave as maps keyed by value, and printing shows the content. Using the default equality, hash or printing of the base types fails with an exception instead of giving a wrong answer. Timestep/observation keys of the transposition table are equal exactly when both parts are.",
 ["inputs"],"all values including extremes, negative numbers, empty and long strings, and all pairs of types",
 "Tests use these types incidentally only.",
 ["src/thts_types.cpp","include/thts_types.h"],[("equality/hash","equals_itfc, hash, std::hash/equal_to specialisations"),("printing","operator<<")],
 ["equals_itfc, hash, std containers, ostream output"])

p("C22","Trial contexts are faithful key-value stores, separate per trial",
 "A context returns, under each key, exactly the pointer most recently stored there, mutable and const stores being independent of each other and of all other keys; erasing removes only that entry and reading an absent key fails with an exception. Values survive exactly as long as the context or another owner holds them, and a context sampled for one trial is never seen by another trial.",
 ["histories","schedules"],"all sequences of put/get/erase operations over all keys and types, all concurrent trials",
 "Tests do a few puts and gets.",
 ["src/thts_env_context.cpp","include/thts_env_context.h","src/thts.cpp"],[("storage","ThtsEnvContext maps"),("per trial","run_thts_trial")],
 ["put/get/erase API"])

p("C23","Two-player search is the mirror image of itself",
 "Negating all rewards, heuristics and default values while swapping which player moves first (shifting the root's timestep by one) leaves the sampled trials and recommendations of every algorithm unchanged and negates every value in the tree, for the same seed. Shifting the root's timestep by an even number (by any number in one-player problems) changes nothing.",
 ["inputs","histories","configurations"],"all environments, algorithms, seeds and parameters",
 "Tests have no asserting two-player runs outside UCT units.",
 ["src/thts_decision_node.cpp","src/thts_chance_node.cpp","src/algorithms/**"],[("parity","is_opponent"),("sign","opp_coeff uses")],
 ["trees of paired searches"])

p("C24","Searches converge to the optimal (or soft-optimal) values",
 "On finite-horizon problems with every trial run to the horizon and no transposition table, once all nodes have been expanded and backed up, DB-MENTS, DENTS and EST Bellman values equal those of exact dynamic programming on the empirical transition model (the true optimum when transitions are deterministic) and MENTS soft values those of exact soft dynamic programming; the recommended action is then optimal (minimax-optimal in two-player games).",
 ["inputs","configurations","histories"],"all finite-horizon environments, one and two players",
 "Integration tests print values and assert nothing about optimality.",
 ["src/algorithms/**","src/thts.cpp"],[("backups","all backup functions"),("exploration","select_action functions")],
 ["root value and recommendation vs. exact DP"])

p("C25","Concurrent search is free of data races and deadlocks",
 "Running trials with several threads on one tree never has a data race and never deadlocks, for every algorithm, with or without transposition tables (any number of table mutexes), with loggers attached, and while the caller waits, joins or starts further runs.",
 ["schedules","configurations","inputs"],"all interleavings, algorithms, environments and thread counts",
 "A race or lock-order inversion shows only under particular interleavings; tests run without sanitizers and assert nothing in threaded runs.",
 ["src/thts.cpp","src/thts_chance_node.cpp","src/thts_decision_node.cpp","src/algorithms/**"],[("node locks","lock/unlock, lock_all_children"),("table mutexes","dmap_mutexes"),("pool locks","work_left_lock, logging_lock")],
 ["ThreadSanitizer reports; controlled-scheduler deadlock detection"])

p("C26","No memory errors and no leaks over any search lifetime",
 "Building, searching, evaluating, printing, logging and destroying trees, pools and managers in any valid order performs no invalid memory access or undefined behaviour and releases everything: when the user's last reference is dropped all nodes, contexts, environments and managers are destroyed, and parent/child links never keep a dropped tree alive or dangle.",
 ["histories","inputs","configurations"],"all lifetimes/orderings of pools, roots, managers, evaluators and loggers",
 "Tests are run without sanitizers and never check destruction.",
 ["src/**","include/**"],[("ownership","shared_ptr children / weak_ptr parents and table entries")],
 ["AddressSanitizer/UBSan/LeakSanitizer reports, live-object counts of environment, node and context types"])

p("C27","Printed trees show the real tree",
 "get_pretty_print_string(d) on any node of any algorithm shows exactly the nodes within d decision levels, each under its action or observation label, with its true visit count and value, an ellipsis exactly at non-leaf nodes where the print is cut, and balanced nesting; printing never modifies the tree.",
 ["inputs","histories","configurations"],"all trees, depths and algorithms",
 "Two tests compare hand-made trees.",
 ["src/thts_decision_node.cpp","src/thts_chance_node.cpp"],[("printing","get_pretty_print_string_helper"),("values","get_pretty_print_val overrides")],
 ["get_pretty_print_string"])

p("C28","Chance outcomes and rewards come from the environment's model",
 "At a chance node outcomes are drawn independently with exactly the environment's transition probabilities for that state and action, never an outcome of probability zero, for every algorithm; rewards credited to a step are the environment's rewards for that state, action and outcome. For fully observable environments the default observation is the next state with certainty; otherwise observations are sampled from the environment's observation distribution.",
 ["inputs","histories"],"all environments (any number of outcomes, probabilities including zero and tiny ones) and histories",
 "Tests do not check sampled outcome frequencies in searches.",
 ["src/algorithms/uct/uct_chance_node.cpp","src/algorithms/ments/ments_chance_node.cpp","src/thts_env.cpp","src/helper_templates.cc"],[("outcome sampling","sample_observation_random"),("defaults","src/thts_env.cpp")],
 ["trajectories seen by the environment; default observation functions"])

p("C29","Searches stay finite and crash-free on extreme but valid problems",
 "For any valid environment and parameters (rewards up to 1e8 in magnitude, temperatures from 1e-3 to 1e4 or decaying to a floor of at least 1e-3, epsilon zero, zero-probability outcomes, single-action states, root at a sink or depth limit zero, many actions, thousands of visits), every algorithm completes its trials without exceptions or crashes and every value and probability in the tree is a finite number.",
 ["inputs","configurations","histories"],"all valid environments and parameter settings",
 "Tests use benign rewards and default parameters.",
 ["src/algorithms/**","src/helper_templates.cc"],[("log-sum-exp normalisation","compute_action_weights"),("clamping","prior log clamps, EPS handling")],
 ["values in tree; completion of run_trials"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    n=q["statement"].count(". ")+1
    if n>3: print(q["id"],n)
open('/verif/properties.jsonl','w').write("".join(json.dumps(q)+"\n" for q in P))
