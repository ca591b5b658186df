// Single-tree properties of the algorithms, checked against the reference model.
#include "treeutil.h"
using namespace vf;

static const char* RULE_MODEL = "a case is a random finite MDP/game, algorithm configuration, seed and number of trials, searched by the real pool; every recorded trial is replayed through an independent model and the whole tree compared after every chunk of trials. Non-trivial: at least 3 trials and 4 decision nodes, with a revisited non-root node or two expanded root actions";

// one-threaded search in chunks, compared with the model after each chunk
static void model_case(const CfgOpts& co, int mask, MdpOpts mo = MdpOpts(), int small = 80) {
    TreeCase t; setup(t, mo, co, small);
    Ref R(t.I.env->m, t.I.cfg);
    thts::ThtsPool pool(t.I.mgr, t.I.root, 1);
    const bool reuse = t.c.alg != RENTS && chance(1, 6);   // (RENTS nodes take the policy of the node above from the trial's context)
    int done = 0, chunks = reuse ? range(2, 5) : range(1, 3);
    for (int k = 0; k < chunks; k++) {
        int now = k == chunks - 1 ? t.n - done : range(0, t.n - done);
        if (reuse) {   // the search goes on from a node inside the tree (the move has been played), or again from the root
            R.from.clear(); RD* d = R.root; auto node = t.I.root;
            while (!d->ch.empty() && !chance(1, 3)) {
                auto a = std::next(d->ch.begin(), range(0, (int)d->ch.size() - 1)); if (a->second->ch.empty()) break;
                auto s = std::next(a->second->ch.begin(), range(0, (int)a->second->ch.size() - 1));
                R.from.push_back({a->first, s->first}); d = s->second;
                node = node->get_child_node_itfc(t.I.env->make_action(a->first))->get_child_node_itfc(std::static_pointer_cast<const thts::Observation>(t.I.env->make_state(s->first)));
            }
            pool.set_new_env(t.I.mgr, node); if (!R.from.empty()) label("inner-root");
            describe() << " then " << now << " from depth " << d->depth; commit_desc();
        }
        pool.run_trials(now); 
        replay_all(R, *t.I.env, (size_t)done); done = (int)t.I.env->trials.size();
        if (R.ambiguous) { label("ambiguous"); return; }
        Cmp C(t.I, R, mask); C.d(*t.I.root, R.root, "root"); maximum("error/tolerance", C.maxerr); add("nodes_compared", C.nd + C.nc);
        bool text = chance(1, 8);
        if (text) { Cmp C2(t.I, R, mask & ~A_VISITS, true); C2.d(*t.I.root, R.root, "root"); }
    }
    PBT_CHECK(done == t.n, "pool ran %d trials instead of %d", done, t.n);
    if (interesting(R)) nontrivial();
}
static CfgOpts only(std::initializer_list<int> a) { CfgOpts o; o.algs = a; return o; }

PBT_TARGET(tree_model, "tree_model", 60000, 2000000, RULE_MODEL) { model_case(CfgOpts(), A_VISITS | A_SHAPE); }
PBT_TARGET(tree_threads, "tree_threads", 8000, 200000, "as tree_model with 2-8 threads, comparing order-independent facts: the tree's shape and every visit count", t.deterministic = false) { threaded_case(CfgOpts(), A_VISITS | A_SHAPE); }

PBT_TARGET(uct_values, "uct_values", 60000, 2000000, RULE_MODEL) { model_case(only({UCT, PUCT}), A_UCT | A_VISITS); }
PBT_TARGET(uct_threads, "uct_threads", 10000, 200000, "as uct_values with 2-8 threads: every node's mean and backup count against the recorded trials through it", t.deterministic = false) { threaded_case(only({UCT, PUCT}), A_UCT | A_VISITS); }

PBT_TARGET(ments_values, "ments_values", 60000, 2000000, RULE_MODEL) { model_case(only({MENTS, DBMENTS}), A_SOFT); }
PBT_TARGET(ments_threads, "ments_threads", 8000, 200000, "MENTS/DB-MENTS with 2-8 threads without transpositions: after the run every backed-up node satisfies its soft Bellman equation", t.deterministic = false) { CfgOpts o = only({MENTS, DBMENTS}); o.tt = 0; threaded_case(o, A_SOFT); }

PBT_TARGET(tents_values, "tents_values", 60000, 2000000, RULE_MODEL) { CfgOpts o = only({TENTS}); model_case(o, A_SOFT); }
PBT_TARGET(rents_values, "rents_values", 60000, 2000000, RULE_MODEL) { model_case(only({RENTS}), A_SOFT); }
PBT_TARGET(dp_values, "dp_values", 60000, 2000000, RULE_MODEL) { model_case(only({DBMENTS, DENTS, EST}), A_DP | A_EMP); }
PBT_TARGET(dp_threads, "dp_threads", 8000, 200000, "DB-MENTS/DENTS/EST with 2-8 threads: Bellman equations at quiescence and empirical means against the recorded trials", t.deterministic = false) { threaded_case(only({DBMENTS, DENTS, EST}), A_DP | A_EMP); }
PBT_TARGET(dents_entropy, "dents_entropy", 60000, 2000000, RULE_MODEL) {
    CfgOpts o = only({DENTS}); TreeCase t; setup(t, MdpOpts(), o);
    run_pool(t.I, t.n);
    Ref R(t.I.env->m, t.I.cfg); replay_all(R, *t.I.env);
    Cmp C(t.I, R, A_ENT | A_SOFT); C.d(*t.I.root, R.root, "root"); maximum("error/tolerance", C.maxerr); add("nodes_compared", C.nd + C.nc);
    Cmp C2(t.I, R, A_ENT | A_SOFT, true); C2.d(*t.I.root, R.root, "root");
    // bounds on what the user sees
    int maxd = 0; for (auto& d : R.ds) maxd = std::max(maxd, d->depth);
    double lm = std::log((double)std::max(1, t.m.max_acts));
    for (auto& pr : collect_all(t.I, R)) {
        NodeView v = view(*pr.first, t.c);
        if (v.ent == UNAV) continue;
        double bound = (maxd - pr.second->depth + 1) * lm + 1e-9;
        PBT_CHECK(std::isfinite(v.ent) && v.ent <= bound && (t.c.two ? v.ent >= -bound : v.ent >= -1e-9), "entropy %.12g at depth %d outside its bound %.6g [%s]", v.ent, pr.second->depth, bound, t.c.str().c_str());
    }
    if (interesting(R)) nontrivial();
}
PBT_TARGET(dents_threads, "dents_threads", 6000, 150000, "DENTS with 2-8 threads without transpositions: entropy and soft value equations at quiescence", t.deterministic = false) { CfgOpts o = only({DENTS}); o.tt = 0; threaded_case(o, A_ENT | A_EMP); }

// ------------------------------------------------------------------------------------------------ C15 temperatures
PBT_TARGET(temps_nodes, "temps_nodes", 60000, 1000000, "a random MENTS-family search with decaying temperatures; after the run the temperature (and DENTS value temperature) of every node is compared with init*decay(scale*visits) floored, with the root override. Non-trivial: a decay is configured and some non-root node has at least 3 visits") {
    CfgOpts o = only({MENTS, DBMENTS, DENTS, RENTS, TENTS, EST}); o.decay = range(0, 3);
    TreeCase t; setup(t, MdpOpts(), o, 60);
    run_pool(t.I, t.n);
    Ref R(t.I.env->m, t.I.cfg);
    for (auto& tr : t.I.env->trials) R.replay(*tr, true);
    Cmp C(t.I, R, A_TEMP); C.d(*t.I.root, R.root, "root"); add("nodes_compared", C.nd + C.nc);
    if (chance(1, 4)) { Cmp C2(t.I, R, A_TEMP, true); C2.d(*t.I.root, R.root, "root"); }
    bool nt = false; for (auto& d : R.ds) nt |= d->depth > 0 && d->visits >= 3;
    if (nt && (t.c.decay || t.c.vdecay)) nontrivial();
}
PBT_TARGET(temps_fn, "temps_fn", 200000, 5000000, "random decay function, initial and minimum temperature, scale and visit count (0 to 2^31-1); value against the closed form, positivity, floor, monotonicity in the visits and value one at zero visits. Non-trivial: visits > 0") {
    int k = range(1, 3); auto f = decay_fn(k);
    double x = chance(1, 3) ? range(0, 50) : std::pow(10.0, real01() * 8 - 3); 
    double y = x + (chance(1, 2) ? real01() : std::pow(10.0, real01() * 8 - 3));
    double fx = f(x), fy = f(y), want = ref_decay(k, x);
    describe() << "decay " << k << " x=" << x << " y=" << y;
    PBT_CHECK(std::fabs(fx - want) <= 1e-11 * want + 1e-290, "decay function %d at %.17g is %.17g, expected %.17g", k, x, fx, want);
    PBT_CHECK(std::fabs(f(0.0) - 1.0) < 1e-12, "decay function %d at zero is %.17g", k, f(0.0));
    PBT_CHECK(fx > 0 || (k == 3 && x > 660), "decay function %d at %.17g is not positive", k, x);
    PBT_CHECK(fy <= fx * (1 + 1e-12) + 1e-290, "decay function %d increases from %.17g to %.17g", k, x, y);
    double init = std::pow(10.0, real01() * 6 - 3), mn = chance(1, 4) ? 0.0 : std::pow(10.0, real01() * 6 - 6), sc = std::pow(10.0, real01() * 5 - 3);
    int v = chance(1, 6) ? 0 : chance(1, 5) ? range(1000, 2147483647) : range(1, 2000);
    double got = thts::compute_decayed_temp(f, init, mn, v, sc), w = std::max(mn, init * ref_decay(k, sc * (double)v));
    describe() << " init=" << init << " min=" << mn << " scale=" << sc << " visits=" << v;
    PBT_CHECK(std::fabs(got - w) <= 1e-11 * w + 1e-290, "decayed temperature is %.17g, expected %.17g (fn %d init %g min %g visits %d scale %g)", got, w, k, init, mn, v, sc);
    PBT_CHECK(got >= mn, "decayed temperature %.17g below the minimum %.17g", got, mn);
    if (v > 0) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C07 UCT selection
static vector<int> ucb_best(const Ref& R, const RD* d, double& best, vector<double>& val, double& scale) {
    const Cfg& c = R.c; const auto& acts = R.m.st[d->s].acts; double sg = R.sgn(d->depth);
    double bias = c.bias;
    if (bias == -1.0) { bias = 0.001; for (auto& kv : d->ch) bias = std::max(bias, std::fabs(kv.second->avg)); }
    best = -INFINITY; val.clear(); scale = std::max(1.0, std::fabs(bias));
    for (size_t i = 0; i < acts.size(); i++) {
        auto it = d->ch.find(acts[i].label); int n = it == d->ch.end() ? 0 : it->second->visits;
        double N = std::max(1, d->visits), nn = std::max(1, n);
        double term = c.alg == UCT ? std::sqrt(std::log(N) / nn) : std::pow(N, c.power) / nn;
        double v = bias * term; if (c.prior) v *= R.m.st[d->s].prior[i];
        if (it != d->ch.end()) { v += sg * it->second->avg; scale = std::max(scale, std::fabs(it->second->avg)); }
        scale = std::max(scale, std::fabs(v));
        val.push_back(v); best = std::max(best, v);
    }
    vector<int> b; for (size_t i = 0; i < val.size(); i++) if (val[i] >= best - 1e-9 * scale) b.push_back((int)i);
    return b;
}
// the members of the best set are equal in every input of the formula, so their values are equal however it is evaluated
static bool exact_tie(const Ref& R, const RD* d, const vector<int>& set) {
    const auto& acts = R.m.st[d->s].acts; const RC* k0 = nullptr; 
    for (size_t j = 0; j < set.size(); j++) {
        auto it = d->ch.find(acts[set[j]].label); const RC* k = it == d->ch.end() ? nullptr : it->second;
        if (k && !k->same) return false;
        if (j == 0) { k0 = k; continue; }
        if ((k ? k->ret0 : 0.0) != (k0 ? k0->ret0 : 0.0)) return false;
        if ((k ? k->visits : 0) != (k0 ? k0->visits : 0)) return false;
        if (R.c.prior && R.m.st[d->s].prior[set[j]] != R.m.st[d->s].prior[set[0]]) return false;
    }
    return true;
}
PBT_TARGET(uct_select, "uct_select", 60000, 1500000, "a random UCT/PUCT search; at every selection of every trial the chosen action must be untried-first (no prior) or maximise the documented upper-confidence value recomputed by the model; with epsilon exploration and ties the frequencies follow the mixture. Non-trivial: at least 10 selections at nodes whose actions have all been tried (or with prior), with a unique maximiser") {
    CfgOpts o = only({UCT, PUCT}); MdpOpts mo; TreeCase t; setup(t, mo, o, 120, 2500);
    const Cfg& c = t.c;
    Ref R(t.I.env->m, t.I.cfg);
    long uniq = 0; Mart untried, ties, greedy; const double eps = c.uct_eps;
    R.on_select = [&](const SelInfo& s) {
        const auto& acts = R.m.st[s.d->s].acts; int ci = R.m.act_index(s.d->s, s.chosen); int na = (int)acts.size();
        vector<int> set; 
        if (!c.prior) for (int i = 0; i < na; i++) if (!s.d->ch.count(acts[i].label)) set.push_back(i);
        bool un = !set.empty(); double best, scale; vector<double> val;
        if (!un) set = ucb_best(R, s.d, best, val, scale);
        int pos = -1; for (size_t k = 0; k < set.size(); k++) if (set[k] == ci) pos = (int)k;
        if (eps == 0.0 && pos < 0) {
            if (un) pbt::fail("trial %d repeats action %d at state %d depth %d although %zu actions were never tried [%s]", s.trial, s.chosen, s.d->s, s.d->depth, set.size(), c.str().c_str());
            pbt::fail("trial %d selects action %d with value %.12g at state %d depth %d although action %d has %.12g [%s]", s.trial, s.chosen, val[ci], s.d->s, s.d->depth, acts[set[0]].label, best, c.str().c_str());
        }
        if (!un && set.size() == 1 && na > 1) uniq++;
        if (eps > 0) { double p = eps * (double)set.size() / na + (1 - eps); if (eps >= 1.0) p = (double)set.size() / na; greedy.add(pos >= 0, p, p * (1 - p)); }
        else if (set.size() > 1) {
            // position in the set, scaled to [0,1], is uniform
            double k = (double)set.size(), x = pos / (k - 1);
            bool exact = un || exact_tie(R, s.d, set);
            if (un) untried.add(x, 0.5, (k + 1) / (12 * (k - 1))); else if (exact) ties.add(x, 0.5, (k + 1) / (12 * (k - 1)));
        }
    };
    run_pool(t.I, t.n); replay_all(R, *t.I.env);
    untried.check("choice among untried actions", c.str()); ties.check("choice among tied actions", c.str()); greedy.check("epsilon exploration", c.str());
    if (eps > 0) label("epsilon"); if (c.bias == -1.0) label("auto-bias");
    if (uniq >= 10) nontrivial();
}
// trials of other threads that have passed this node on their way down and have not been backed up yet; `select`: the real
// selection chooses (and creates) the child they took, otherwise it is an existing one
static void in_flight(thts::ThtsDNode& n, RD* d, Inst& I, Ref& R, int k, bool select = false) {
    auto ctx = I.env->sample_context_itfc(I.env->state(d->s));
    for (int j = 0; j < k && (select || !d->ch.empty()); j++) {
        int a = select ? -1 : std::next(d->ch.begin(), range(0, (int)d->ch.size() - 1))->first;
        n.lock(); n.visit_itfc(*ctx); if (select) a = I.env->aid(n.select_action_itfc(*ctx).get()); auto c = n.get_child_node_itfc(I.env->make_action(a)); n.unlock();
        c->lock(); c->visit_itfc(*ctx); c->unlock();
        d->visits++; R.get_c(d, a)->visits++;
    }
    if (k) label("in-flight");
}
PBT_TARGET(uct_select_freq, "uct_select_freq", 3000, 40000, "at fully expanded nodes of a searched UCT/PUCT tree, possibly with a few unfinished trials below them, the real select_action is called 3000 times: the chosen actions must be distributed as epsilon*uniform + (1-epsilon)*uniform(maximisers). Non-trivial: more than one action is expected to occur") {
    CfgOpts o = only({UCT, PUCT}); MdpOpts mo; mo.reward_mode = pick({4, 0, 6, 2}); mo.max_actions = 4; mo.wide = false; TreeCase t;
    setup(t, mo, o, 60, 100);
    run_pool(t.I, t.n);
    Ref R(t.I.env->m, t.I.cfg); replay_all(R, *t.I.env);
    auto nodes = collect_all(t.I, R); int probed = 0;
    for (auto& pr : nodes) {
        RD* d = pr.second; const auto& acts = t.m.st[d->s].acts;
        if (d->leaf || probed >= 3) continue;
        if (chance(1, 2)) in_flight(*pr.first, d, t.I, R, range(1, 8), true);
        if (d->ch.size() != acts.size()) continue;
        in_flight(*pr.first, d, t.I, R, chance(1, 2) ? range(1, 6) : 0);
        double best, scale; vector<double> val; auto set = ucb_best(R, d, best, val, scale);
        if (set.size() > 1 && !exact_tie(R, d, set)) continue;
        probed++;
        double eps = t.c.uct_eps; std::map<int, double> want; std::map<int, long> cnt;
        for (size_t i = 0; i < acts.size(); i++) want[acts[i].label] = eps / acts.size();
        for (int i : set) want[acts[i].label] += (1 - eps) / set.size();
        if (set.size() > 1 || eps > 0) nontrivial();
        auto ctx = t.I.env->sample_context_itfc(t.I.env->state(d->s));
        check_sampler([&]() { return t.I.env->aid(pr.first->select_action_itfc(*ctx).get()); }, nullptr, want, 0, 3000, "UCT selection [" + t.c.str() + "]");
    }
}

// ------------------------------------------------------------------------------------------------ C10/C11 policies
static void policy_case(const CfgOpts& o, MdpOpts mo) {
    TreeCase t; setup(t, mo, o, 80, 1200);
    Ref R(t.I.env->m, t.I.cfg); R.want_policy = true;
    Mart first, best, untried;
    R.on_select = [&](const SelInfo& s) {
        double sum = 0; for (double p : s.pol) sum += p;
        int ci = R.m.act_index(s.d->s, s.chosen);
        if (s.pol[ci] <= 0) pbt::fail("trial %d selects action %d at state %d depth %d which has probability %.3g in its search policy [%s]", s.trial, s.chosen, s.d->s, s.d->depth, s.pol[ci], t.c.str().c_str());
        int bi = 0; double pu = 0; for (size_t i = 0; i < s.pol.size(); i++) { if (s.pol[i] > s.pol[bi]) bi = (int)i; if (!s.d->ch.count(R.m.st[s.d->s].acts[i].label)) pu += s.pol[i]; }
        first.add(ci == 0, s.pol[0], s.pol[0] * (1 - s.pol[0]));
        best.add(ci == bi, s.pol[bi], s.pol[bi] * (1 - s.pol[bi]));
        untried.add(!s.d->ch.count(s.chosen), pu, pu * (1 - pu));
    };
    run_pool(t.I, t.n); replay_all(R, *t.I.env);
    double chaos = R.chaos().soft / (t.c.decay ? t.c.min_temp : t.c.temp);
    if (R.ambiguous || !(chaos < 1e-6)) { label("ambiguous"); return; }
    first.check("first listed action", t.c.str()); best.check("most probable action", t.c.str()); untried.check("untried actions", t.c.str());
    // direct comparison at every node
    long compared = 0; 
    auto nodes = collect_all(t.I, R);
    for (auto& pr : nodes) {
        RD* d = pr.second; if (t.m.st[d->s].sink) continue;
        if (d->depth > 0 && t.c.alg == RENTS) continue;
        auto* n = dynamic_cast<thts::MentsDNode*>(pr.first); if (!n) continue;
        if (!d->leaf && chance(1, 4)) in_flight(*n, d, t.I, R, range(1, 4), (t.c.alg == MENTS || t.c.alg == DBMENTS) && chance(1, 2));
        thts::ActionDistr ad; auto ctx = t.I.env->sample_context_itfc(t.I.env->state(d->s));
        vector<double> want = R.policy(d);
        if (!p_policy(*n, ad, *ctx)) continue;
        double sum = 0; size_t found = 0; compared++;
        double tol = 4 * chaos + 1e-9 * (1 + R.qscale * (1 + (t.c.alg == TENTS ? 1e-3 * R.qscale : 0)));
        for (size_t i = 0; i < want.size(); i++) {
            auto it = ad.find(t.I.env->make_action(t.m.st[d->s].acts[i].label));
            double got = it == ad.end() ? 0.0 : it->second; if (it != ad.end()) found++;
            sum += got;
            PBT_CHECK(got >= 0 && std::fabs(got - want[i]) <= tol, "search policy gives action %d probability %.12g at state %d depth %d (%d visits), specification %.12g [%s]", t.m.st[d->s].acts[i].label, got, d->s, d->depth, d->visits, want[i], t.c.str().c_str());
            PBT_CHECK(!(R.lambda(d) > 1e-9) || got > 0, "action %d has probability zero although exploration is positive [%s]", t.m.st[d->s].acts[i].label, t.c.str().c_str());
        }
        PBT_CHECK(found == ad.size(), "search policy contains an action that is not valid in the state [%s]", t.c.str().c_str());
        PBT_CHECK(std::fabs(sum - 1.0) < 1e-9, "search policy sums to %.15g [%s]", sum, t.c.str().c_str());
    }
    add("policies_compared", compared);
    // grid probing of the real selection at fully expanded nodes
    int probed = 0;
    for (auto& pr : nodes) {
        RD* d = pr.second; const auto& acts = t.m.st[d->s].acts;
        if (d->leaf || d->ch.size() != acts.size() || probed >= 2 || (t.c.alg == RENTS && d->depth > 0)) continue;
        probed++; vector<double> p = R.policy(d); std::map<int, double> want; for (size_t i = 0; i < p.size(); i++) want[acts[i].label] = p[i];
        auto ctx = t.I.env->sample_context_itfc(t.I.env->state(d->s));
        check_sampler([&]() { return t.I.env->aid(pr.first->select_action_itfc(*ctx).get()); }, t.I.tap, want, 512, 3000, string(alg_name(t.c.alg)) + " selection [" + t.c.str() + "]");
    }
    if (interesting(R) && (compared || probed)) nontrivial();
}
static const char* RULE_POL = "a random MDP, configuration and search; the model's policy is compared with the real one at every node after the run, selections along the trials are tested against the model's probabilities (zero-probability choices and martingale frequency tests), and the real select_action is probed on a grid of random values at fully expanded nodes. Non-trivial: as tree_model, with at least one policy compared";
PBT_TARGET(energy_policy, "energy_policy", 45000, 1000000, RULE_POL) { policy_case(only({MENTS, DBMENTS, DENTS, EST}), MdpOpts()); }
PBT_TARGET(tents_policy, "tents_policy", 30000, 1000000, RULE_POL) { policy_case(only({TENTS}), MdpOpts()); }
PBT_TARGET(rents_policy, "rents_policy", 30000, 1000000, RULE_POL) { policy_case(only({RENTS}), MdpOpts()); }

// ------------------------------------------------------------------------------------------------ C08 recommendations
static vector<int> recommend_set(const Ref& R, const RD* d, bool& any_action, bool& exact) {
    const Cfg& c = R.c; const auto& acts = R.m.st[d->s].acts; double sg = R.sgn(d->depth); any_action = false; exact = true;
    vector<std::pair<int, double>> cand, other;
    bool soft = c.alg == MENTS || c.alg == RENTS || c.alg == TENTS;
    if (c.rec_mv || is_uct(c.alg) || !soft) {
        if (d->ch.empty()) { any_action = true; vector<int> r; for (size_t i = 0; i < acts.size(); i++) r.push_back((int)i); return r; }
    }
    for (size_t i = 0; i < acts.size(); i++) {
        auto it = d->ch.find(acts[i].label); RC* k = it == d->ch.end() ? nullptr : it->second;
        if (c.rec_mv) { if (k) cand.push_back({(int)i, (double)k->visits}); }
        else if (is_uct(c.alg)) { if (k) cand.push_back({(int)i, sg * k->avg}); }
        else if (soft) { double q = R.q(d, (int)i); if (k && k->visits >= c.thr) cand.push_back({(int)i, q}); else other.push_back({(int)i, q}); }
        else if (k) {
            bool dp = c.alg == DBMENTS || c.use_dp; double v = sg * (dp ? k->dp : k->emp);
            if (k->visits >= c.thr) cand.push_back({(int)i, v}); else other.push_back({(int)i, v});
        }
    }
    auto& L = cand.empty() ? other : cand;
    double best = -INFINITY, sc = 1; for (auto& x : L) { best = std::max(best, x.second); sc = std::max(sc, std::fabs(x.second)); }
    vector<int> r; double b0 = 0; bool f = true;
    for (auto& x : L) if (x.second >= best - 1e-9 * sc) { r.push_back(x.first); if (f) { b0 = x.second; f = false; } else if (x.second != b0) exact = false; }
    return r;
}
PBT_TARGET(recommend, "recommend", 40000, 1500000, "a random search of any algorithm; at every node with valid actions recommend_action must return a member of the best set computed by the model (visit threshold, opponent sign, most-visited option, unexpanded nodes), reach every member of exact integer ties, and leave the tree unchanged. Non-trivial: some node's best set excludes at least one valid action") {
    CfgOpts o; MdpOpts mo; TreeCase t; if (chance(1, 3)) mo.reward_mode = pick({0, 4, 6}); setup(t, mo, o, 60, 600);
    run_pool(t.I, t.n);
    Ref R(t.I.env->m, t.I.cfg); replay_all(R, *t.I.env);
    if (R.ambiguous || (t.c.alg == RENTS && !(R.chaos().soft < 1e-9))) return;
    auto nodes = collect_all(t.I, R); bool nt = false; int tie_tests = 0;
    for (auto& pr : nodes) {
        RD* d = pr.second; const auto& acts = t.m.st[d->s].acts; if (acts.empty()) continue;
        if (t.c.rec_mv && !d->leaf && chance(1, 4)) in_flight(*pr.first, d, t.I, R, range(1, 3));
        bool any, exact; auto set = recommend_set(R, d, any, exact);
        auto ctx = t.I.env->sample_context_itfc(t.I.env->state(d->s));
        for (int rep = 0; rep < 3; rep++) {
            int a = R.m.act_index(d->s, t.I.env->aid(pr.first->recommend_action_itfc(*ctx).get()));
            bool ok = false; for (int x : set) ok |= x == a;
            PBT_CHECK(a >= 0, "recommended action is not valid in its state [%s]", t.c.str().c_str());
            PBT_CHECK(ok, "recommended action %d at state %d depth %d (%d visits, %zu children); best is action %d [%s]", acts[a].label, d->s, d->depth, d->visits, d->ch.size(), acts[set[0]].label, t.c.str().c_str());
            add("recommendations", 1);
        }
        if (set.size() < acts.size()) nt = true;
        if (set.size() > 1 && exact && tie_tests < 2 && (t.c.rec_mv || any || chance(1, 4))) {
            // ties among model values that are exact in both computations (counts, all-equal values)
            bool integer = t.c.rec_mv || any;
            if (integer) {
                tie_tests++; std::map<int, double> want; for (size_t i = 0; i < acts.size(); i++) want[acts[i].label] = 0; for (int x : set) want[acts[x].label] = 1.0 / set.size();
                check_sampler([&]() { return t.I.env->aid(pr.first->recommend_action_itfc(*ctx).get()); }, nullptr, want, 0, 1500, "recommendation among ties [" + t.c.str() + "]"); label("tie-test");
            }
        }
    }
    Cmp C(t.I, R, A_VISITS | A_UCT | A_SOFT | A_DP | A_EMP | A_ENT | A_SHAPE); C.d(*t.I.root, R.root, "root");
    if (nt) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C05 transpositions
static void sharing(thts::ThtsDNode& n, MdpEnv& e, int s, int depth, std::map<std::pair<int, int>, void*>& by_key, std::map<void*, std::pair<int, int>>& by_obj, bool tt, std::set<void*>& seen, const string& cfg, long& shared) {
    auto key = std::make_pair(depth, s);
    auto x = by_obj.emplace(&n, key);
    if (!x.second) {
        if (!tt) pbt::fail("a decision node (state %d, depth %d) is shared although the transposition table is off [%s]", s, depth, cfg.c_str());
        if (x.first->second != key) pbt::fail("one decision node object represents both (state %d, depth %d) and (state %d, depth %d) [%s]", x.first->second.second, x.first->second.first, s, depth, cfg.c_str());
        shared++;
    }
    auto y = by_key.emplace(key, &n);
    if (tt && depth > 0 && y.first->second != (void*)&n) pbt::fail("two different decision node objects exist for state %d at depth %d [%s]", s, depth, cfg.c_str());
    if (!seen.insert(&n).second) return;
    for (auto& a : e.m.st[s].acts) {
        auto act = e.make_action(a.label); if (!n.has_child_node_itfc(act)) continue;
        auto cn = n.get_child_node_itfc(act);
        for (auto& o : a.outs) {
            auto ob = std::static_pointer_cast<const thts::Observation>(e.make_state(o.first));
            if (cn->has_child_node_itfc(ob)) sharing(*cn->get_child_node_itfc(ob), e, o.first, depth + 1, by_key, by_obj, tt, seen, cfg, shared);
        }
    }
}
static void tt_case(int threads) {
    CfgOpts o; o.tt = !chance(1, 6); MdpOpts mo; mo.max_actions = 3; TreeCase t; setup(t, mo, o, 100, 600);
    describe() << " threads=" << threads; commit_desc();
    run_pool(t.I, t.n, threads);
    std::map<std::pair<int, int>, void*> bk; std::map<void*, std::pair<int, int>> bo; std::set<void*> seen; long sh = 0;
    sharing(*t.I.root, *t.I.env, t.m.init, 0, bk, bo, t.c.tt, seen, t.c.str(), sh);
    Ref R(t.I.env->m, t.I.cfg); replay_all(R, *t.I.env, 0, threads == 1);
    Cmp C(t.I, R, A_VISITS | A_SHAPE); C.d(*t.I.root, R.root, "root");
    add("shared_edges", sh);
    if (sh > 0) { label("shared"); nontrivial(); }
    if (chance(1, 2)) {
        // drop the tree, search again with the same manager: fresh nodes
        std::weak_ptr<thts::ThtsDNode> old = t.I.root; 
        bool keep = chance(1, 4);
        shared_ptr<thts::ThtsDNode> kept = keep ? t.I.root : nullptr;
        t.I.root.reset();
        if (!keep) { PBT_CHECK(old.expired(), "dropping the last reference to the root does not release the tree [%s]", t.c.str().c_str()); label("dropped"); 
            size_t from = t.I.env->trials.size(); t.I.root = make_root(t.I);
            int n2 = range(1, 40); run_pool(t.I, n2, threads);
            Ref R2(t.I.env->m, t.I.cfg); for (size_t i = from; i < t.I.env->trials.size(); i++) R2.replay(*t.I.env->trials[i], threads == 1);
            Cmp C2(t.I, R2, A_VISITS | A_SHAPE | (threads == 1 ? A_UCT | A_SOFT | A_DP | A_EMP | A_ENT : 0)); if (!R2.ambiguous) C2.d(*t.I.root, R2.root, "root");
        }
    }
}
PBT_TARGET(tt_single, "tt_single", 40000, 1500000, "a random search with (5/6) or without transposition table and 1-16 table mutexes; object identity of every reachable decision node against (timestep, state), visit counts against the trials, then possibly dropping the tree and searching again with the same manager. Non-trivial: some decision node has two parents") { tt_case(1); }
PBT_TARGET(tt_threads, "tt_threads", 8000, 200000, "as tt_single with 2-8 threads", t.deterministic = false) { tt_case(range(2, 8)); }

// Several live roots of one manager at different states, timesteps and with different depths for the same timestep.
PBT_TARGET(tt_roots, "tt_roots", 30000, 1000000, "2-4 roots of one manager, at random states and timesteps, searched alternately (1-3 threads) and all kept alive: decision nodes below the roots are one object exactly when timestep and state are equal, across roots, and its visits are the trials of all roots through it. Non-trivial: a node is shared by two roots") {
    CfgOpts o; o.tt = !chance(1, 6); MdpOpts mo; mo.max_actions = 3; mo.allow_deep = false; mo.wide = false; mo.allow_root_sink = false;
    MdpM m = gen_mdp(mo); Cfg c = gen_cfg(m, o); c.pseudo = 0; Inst I = make_inst(m, c); I.env->fuel = 40000000ull; I.root.reset();
    struct Rt { shared_ptr<thts::ThtsDNode> n; int s, t; long trials = 0; }; vector<Rt> roots; int nr = range(2, 4), threads = chance(1, 3) ? range(2, 3) : 1;
    describe() << c.str() << " threads=" << threads << " " << m.str() << " roots:";
    int base = range(0, 3);
    for (int i = 0; i < nr; i++) { Rt r; r.s = (int)draw(m.st.size()); if (chance(1, 2) || m.st[r.s].sink) r.s = m.init; r.t = base + (int)draw(4); r.n = make_root(I, r.s, r.t); describe() << " s" << r.s << "@" << r.t; roots.push_back(r); }
    std::map<std::pair<int, int>, long> through; int runs = range(2, 6); commit_desc();
    thts::ThtsPool pool(I.mgr, roots[0].n, threads);
    for (int k = 0; k < runs; k++) {
        Rt& r = roots[k < nr ? k : draw(nr)]; int n = range(1, 25); size_t from = I.env->trials.size();
        pool.set_new_env(I.mgr, r.n); pool.run_trials(n); r.trials += n;
        for (size_t i = from; i < I.env->trials.size(); i++) { auto& st = I.env->trials[i]->steps; for (size_t j = 0; j < st.size(); j++) { PBT_CHECK(st[j].s == (j ? st[j - 1].s2 : r.s), "a trial acts in state %d after reaching state %d [%s]", st[j].s, j ? st[j - 1].s2 : r.s, c.str().c_str()); through[{r.t + (int)j + 1, st[j].s2}]++; } }
    }
    std::map<std::pair<int, int>, std::pair<void*, int>> by_key; std::map<void*, std::pair<int, int>> by_obj; std::set<std::pair<void*, int>> seen; long cross = 0;
    std::function<void(thts::ThtsDNode&, int, int, int)> walk = [&](thts::ThtsDNode& n, int s, int t, int root) {
        for (auto& a : m.st[s].acts) {
            auto act = I.env->make_action(a.label); if (!n.has_child_node_itfc(act)) continue; auto cn = n.get_child_node_itfc(act);
            for (auto& oc : a.outs) {
                auto ob = std::static_pointer_cast<const thts::Observation>(I.env->make_state(oc.first)); if (!cn->has_child_node_itfc(ob)) continue;
                auto ch = cn->get_child_node_itfc(ob); auto key = std::make_pair(t + 1, oc.first);
                auto x = by_obj.emplace(ch.get(), key); bool again = !x.second;
                if (again && !c.tt) pbt::fail("a decision node (state %d, timestep %d) is shared although the transposition table is off [%s]", oc.first, t + 1, c.str().c_str());
                if (again && x.first->second != key) pbt::fail("one decision node object represents both (state %d, timestep %d) and (state %d, timestep %d) [%s]", x.first->second.second, x.first->second.first, oc.first, t + 1, c.str().c_str());
                auto y = by_key.emplace(key, std::make_pair((void*)ch.get(), root));
                if (c.tt && y.first->second.first != (void*)ch.get()) pbt::fail("two different decision node objects exist for state %d at timestep %d, below roots %d and %d of one manager [%s]", oc.first, t + 1, y.first->second.second, root, c.str().c_str());
                if (y.first->second.second != root) cross++;
                if (c.tt && ch->get_num_visits() != through[key]) pbt::fail("the shared decision node of state %d at timestep %d has %d visits but %ld trials went through it [%s]", oc.first, t + 1, ch->get_num_visits(), through[key], c.str().c_str());
                if (seen.insert({ch.get(), root}).second) walk(*ch, oc.first, t + 1, root);
            }
        }
    };
    for (int i = 0; i < nr; i++) { walk(*roots[i].n, roots[i].s, roots[i].t, i); PBT_CHECK(roots[i].n->get_num_visits() == roots[i].trials, "root %d has %d visits after %ld trials [%s]", i, roots[i].n->get_num_visits(), roots[i].trials, c.str().c_str()); }
    if (cross && c.tt) { label("cross-root"); nontrivial(); }
}

// ------------------------------------------------------------------------------------------------ C28 outcomes
PBT_TARGET(outcomes, "outcomes", 70000, 1000000, "a random search of any algorithm; outcomes along the trials are tested against the model's transition probabilities (impossible outcomes; martingale frequency tests), and sample_observation of real chance nodes is probed on a grid of random values. Non-trivial: a chance node with at least two outcomes of positive probability was probed") {
    CfgOpts o; MdpOpts mo; mo.force_deterministic = chance(1, 8); TreeCase t; setup(t, mo, o, 100, 1200);
    Ref R(t.I.env->m, t.I.cfg); Mart first, last, likely, repeat, often, unlikely; bool nt = false; struct Hist { int prev = -1, top = -1; std::map<int, int> cnt; }; std::map<RC*, Hist> hist; std::map<RC*, std::pair<long, std::map<int, long>>> per;
    R.on_outcome = [&](RC* k, int s2) {
        double p = R.m.prob(k->s, k->label, s2); const auto& outs = R.m.act(k->s, k->label).outs;
        if (!(p > 0)) pbt::fail("a trial moved from state %d by action %d to state %d, which has probability %.3g [%s]", k->s, k->label, s2, p, t.c.str().c_str());
        double p0 = outs[0].second; int li = 0, npos = 0; for (size_t i = 0; i < outs.size(); i++) { if (outs[i].second > outs[li].second) li = (int)i; npos += outs[i].second > 0; }
        if (npos < 2) return;
        first.add(s2 == outs[0].first, p0, p0 * (1 - p0)); double pl = outs[li].second; likely.add(s2 == outs[li].first, pl, pl * (1 - pl));
        // history-dependent targets: a sampler that depends on earlier outcomes shows up here
        Hist& h = hist[k]; if (h.prev >= 0) { double q = R.m.prob(k->s, k->label, h.prev); repeat.add(s2 == h.prev, q, q * (1 - q)); q = R.m.prob(k->s, k->label, h.top); often.add(s2 == h.top, q, q * (1 - q)); }
        h.prev = s2; if (++h.cnt[s2] > (h.top < 0 ? 0 : h.cnt[h.top])) h.top = s2;
        double pu = 0; bool small = false; for (auto& ou : outs) if (ou.second < 0.5 / (double)outs.size()) { pu += ou.second; small |= ou.first == s2; } if (pu > 0) unlikely.add(small, pu, pu * (1 - pu));
        auto& pk = per[k]; pk.first++; pk.second[s2]++;
    };
    run_pool(t.I, t.n); replay_all(R, *t.I.env);
    first.check("first listed outcome", t.c.str()); likely.check("most likely outcome", t.c.str());
    repeat.check("repetition of the previous outcome", t.c.str()); often.check("most frequent outcome so far", t.c.str()); unlikely.check("unlikely outcomes", t.c.str());
    for (auto& kv : per) for (auto& ou : R.m.act(kv.first->s, kv.first->label).outs) { double p = ou.second, n = (double)kv.second.first, c = (double)kv.second.second[ou.first]; if (std::fabs(c - n * p) > freedman(n * p * (1 - p)) || (c == 0 && p > 0 && p < 1 && n * std::log1p(-p) < -32)) pbt::fail("action %d in state %d led %g of %g times to state %d, which has probability %.4f [%s]", kv.first->label, kv.first->s, c, n, ou.first, p, t.c.str().c_str()); }
    auto nodes = collect_all(t.I, R); int probed = 0;
    for (auto& pr : nodes) {
        for (auto& kv : pr.second->ch) {
            if (probed >= 4) break;
            const auto& outs = R.m.act(kv.second->s, kv.first).outs; if (outs.size() < 2) continue;
            probed++; std::map<int, double> want; int npos = 0; for (auto& ou : outs) { want[ou.first] = ou.second; npos += ou.second > 0; }
            if (npos > 1) nt = true;
            auto cn = pr.first->get_child_node_itfc(t.I.env->make_action(kv.first)); auto ctx = t.I.env->sample_context_itfc(t.I.env->state(kv.second->s));
            check_sampler([&]() { return t.I.env->sid(cn->sample_observation_itfc(*ctx).get()); }, t.I.tap, want, 1024, 3000, string(alg_name(t.c.alg)) + " outcome sampling [" + t.c.str() + "]");
            // as a trial does: visit, then sample
            if (chance(1, 4)) check_sampler([&]() { cn->visit_itfc(*ctx); return t.I.env->sid(cn->sample_observation_itfc(*ctx).get()); }, nullptr, want, 0, 1500, string(alg_name(t.c.alg)) + " outcome sampling [" + t.c.str() + "]");
        }
    }
    if (nt) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C24 convergence
struct Exact { double v; vector<double> q; };
static Exact exact_val(const MdpM& m, const Cfg& c, int s, int depth, int mode, std::map<std::pair<int, int>, Exact>& memo) {   // 0 hard, 1 soft, 2 sparse
    auto k = std::make_pair(s, depth); auto it = memo.find(k); if (it != memo.end()) return it->second;
    Exact e; if (m.st[s].sink) { e.v = 0; return memo[k] = e; }
    if (depth >= c.max_depth) { e.v = c.heur == 0 ? 0 : c.heuristic(m, s); return memo[k] = e; }
    double sg = c.two && ((c.t0 + depth) & 1) ? -1 : 1;
    for (auto& a : m.st[s].acts) { double q = a.r; for (auto& o : a.outs) if (o.second > 0) q += o.second * exact_val(m, c, o.first, depth + 1, mode, memo).v; e.q.push_back(q); }
    if (mode == 0) { e.v = sg * -INFINITY; for (double q : e.q) if (sg * q > sg * e.v) e.v = q; }
    else if (mode == 1) { double mx = -INFINITY; for (double q : e.q) mx = std::max(mx, sg * q / c.temp); double z = 0; for (double q : e.q) z += std::exp(sg * q / c.temp - mx); e.v = sg * c.temp * (std::log(z) + mx); }
    else { vector<double> z; for (double q : e.q) z.push_back(sg * q / c.temp); double tau, val; Ref::sparsemax(z, tau, val); e.v = sg * c.temp * val; }
    return memo[k] = e;
}
static long count_tree(const MdpM& m, const Cfg& c, int s, int depth, long cap) {   // number of (node, action) edges of the full deterministic tree
    if (m.st[s].sink || depth >= c.max_depth) return 0; long n = 0;
    for (auto& a : m.st[s].acts) { n += 1 + count_tree(m, c, a.outs[0].first, depth + 1, cap); if (n > cap) return n; }
    return n;
}
PBT_TARGET(convergence, "convergence", 16000, 120000, "small deterministic finite-horizon problems searched without MCTS truncation in chunks until the whole horizon tree is expanded; then root and all node values equal exact (hard / soft / sparse) dynamic programming computed independently, and the recommendation is optimal. Non-trivial: the tree became fully expanded and has at least 6 edges") {
    CfgOpts o = only({DBMENTS, DENTS, EST, MENTS, TENTS}); o.mcts = 0; o.tt = 0; o.decay = 0; o.max_depth_cap = 4; o.temp_lo = 0.3;
    MdpOpts mo; mo.force_deterministic = 1; mo.allow_obs_rewards = false; mo.max_actions = 3; mo.wide = false; mo.allow_deep = false; mo.allow_zero_probs = false; mo.reward_mode = pick({2, 0, 1});
    MdpM m = gen_mdp(mo); Cfg c = gen_cfg(m, o); c.use_dp = true; c.eps = pick({1.0, 2.0, 5.0}); c.root_eps = -1; c.maxexp = 1.0; c.pw = 0; c.rec_mv = false; c.thr = 0;
    if (c.max_depth == 0) c.max_depth = 2; 
    long edges = count_tree(m, c, m.init, 0, 200); describe() << c.str() << " edges=" << edges << " " << m.str(); commit_desc();
    if (edges > 150 || edges == 0) return;
    Inst I = make_inst(m, c); I.env->fuel = 100000000ull;
    Ref R(I.env->m, I.cfg); thts::ThtsPool pool(I.mgr, I.root, 1); size_t from = 0; bool full = false;
    for (int k = 0; k < 12 && !full; k++) { pool.run_trials(250); replay_all(R, *I.env, from); from = I.env->trials.size(); full = (long)R.cs.size() == edges; }
    if (!full) { label("not fully expanded"); return; }
    bool soft = c.alg == MENTS || c.alg == TENTS; std::map<std::pair<int, int>, Exact> memo;
    for (auto& pr : collect_all(I, R)) {
        RD* d = pr.second; if (d->leaf) continue;
        NodeView v = view(*pr.first, c);
        int mode = soft ? (c.alg == TENTS ? 2 : 1) : 0;
        Exact e = exact_val(m, c, d->s, d->depth, mode, memo);
        double got = soft ? v.soft : v.dp; if (got == UNAV) got = soft ? d->soft : d->dp;
        double tol = 1e-7 * (1 + std::fabs(e.v)) + (c.alg == TENTS ? 1e-10 * R.qscale * R.qscale * c.temp : 0);
        PBT_CHECK(std::fabs(got - e.v) <= tol, "fully expanded %s tree has value %.12g at state %d depth %d, exact dynamic programming gives %.12g [%s]", alg_name(c.alg), got, d->s, d->depth, e.v, c.str().c_str());
        if (c.alg == DBMENTS) { std::map<std::pair<int, int>, Exact> m2; Exact e2 = exact_val(m, c, d->s, d->depth, 1, m2); if (v.soft != UNAV) PBT_CHECK(std::fabs(v.soft - e2.v) <= 1e-7 * (1 + std::fabs(e2.v)), "DB-MENTS soft value %.12g, exact soft value %.12g [%s]", v.soft, e2.v, c.str().c_str()); }
        auto ctx = I.env->sample_context_itfc(I.env->state(d->s));
        int ai = m.act_index(d->s, I.env->aid(pr.first->recommend_action_itfc(*ctx).get())); double sg = R.sgn(d->depth), b = -INFINITY; for (double q : e.q) b = std::max(b, sg * q);
        PBT_CHECK(ai >= 0 && sg * e.q[ai] >= b - tol * 2, "recommended action %d has exact value %.12g but the optimum is %.12g [%s]", ai < 0 ? -1 : m.st[d->s].acts[ai].label, ai < 0 ? 0.0 : e.q[ai], sg * b, c.str().c_str());
        add("nodes_compared", 1);
    }
    if (edges >= 6) nontrivial();
}
PBT_TARGET(convergence_stoch, "convergence_stoch", 12000, 100000, "finite-horizon stochastic problems searched without MCTS truncation: values recomputed from the leaves up by dynamic programming on the observed outcome counts (each decision node counting one pseudo-outcome as configured) equal those in the tree, and the recommended root action is optimal for that model. Non-trivial: some chance node saw two different outcomes") {
    CfgOpts o = only({DBMENTS, DENTS, EST, MENTS}); o.mcts = 0; o.tt = 0; o.decay = 0; o.max_depth_cap = 4;
    MdpOpts mo; mo.force_deterministic = 0; mo.wide = false; mo.allow_deep = false; mo.max_actions = 3;
    MdpM m = gen_mdp(mo); Cfg c = gen_cfg(m, o); c.use_dp = true; c.rec_mv = false; c.thr = 0; int n = range(20, 300);
    describe() << c.str() << " trials=" << n << " " << m.str(); commit_desc();
    Inst I = make_inst(m, c); I.env->fuel = 100000000ull; run_pool(I, n);
    Ref R(I.env->m, I.cfg); replay_all(R, *I.env);
    // bottom-up dynamic programming using only visit counts of the trajectories
    bool nt = false; double sc = 1; bool soft = c.alg == MENTS;
    std::function<double(RD*)> VD; std::function<double(RC*)> VC;
    VC = [&](RC* k) { double w = 0, s = 0; if (k->ch.size() > 1) nt = true; for (auto& kv : k->ch) { RD* d = kv.second; double cnt = (double)d->visits + (soft ? 0 : 1); w += cnt; s += cnt * VD(d); } return k->lr + (w > 0 ? s / w : 0.0); };
    VD = [&](RD* d) -> double {
        if (d->leaf || d->ch.empty()) return d->heur;
        double sg = R.sgn(d->depth);
        if (!soft) { double b = -INFINITY; for (auto& kv : d->ch) b = std::max(b, sg * VC(kv.second)); sc = std::max(sc, std::fabs(b)); return sg * b; }
        vector<double> z; const auto& acts = m.st[d->s].acts; double mx = -INFINITY;
        for (size_t i = 0; i < acts.size(); i++) { auto it = d->ch.find(acts[i].label); double q = it != d->ch.end() ? sg * VC(it->second) : R.q(d, (int)i); z.push_back(q / c.temp); mx = std::max(mx, z.back()); }
        double t = 0; for (double x : z) t += std::exp(x - mx); double v = sg * c.temp * (std::log(t) + mx); sc = std::max(sc, std::fabs(v)); return v;
    };
    if (R.root->ch.empty()) return;
    double want = VD(R.root); NodeView v = view(*I.root, c); double got = soft ? v.soft : v.dp; if (got == UNAV) got = soft ? R.root->soft : R.root->dp;
    PBT_CHECK(std::fabs(got - want) <= 1e-8 * sc, "root value %.12g differs from dynamic programming on the observed outcome counts, %.12g [%s]", got, want, c.str().c_str());
    auto ctx = I.env->sample_context_itfc(I.env->state(m.init));
    int lab = I.env->aid(I.root->recommend_action_itfc(*ctx).get()); auto it = R.root->ch.find(lab);
    PBT_CHECK(it != R.root->ch.end(), "recommends an untried root action [%s]", c.str().c_str());
    double sg = R.sgn(0), b = -INFINITY; for (auto& kv : R.root->ch) b = std::max(b, sg * VC(kv.second));
    PBT_CHECK(sg * VC(it->second) >= b - 1e-8 * sc, "recommended root action %d is not optimal for the observed model [%s]", lab, c.str().c_str());
    if (nt) nontrivial();
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
