// Whole-search relations: reproducibility, mirror symmetry of games, printed trees, extreme inputs, environment defaults.
#include "treeutil.h"
#include "loggers.h"
using namespace vf;

// exact statistics of every node in a deterministic order (labels, not map order)
struct Snap { vector<double> v; vector<string> where; };
static void push(Snap& s, double x, const string& w) { s.v.push_back(x); s.where.push_back(w); }
static void push_view(Snap& s, const NodeView& v, const string& w) {
    push(s, v.visits, w + " visits"); push(s, v.uct_avg, w + " mean"); push(s, v.uct_nb, w + " backups"); push(s, v.soft, w + " soft value"); push(s, v.mb, w + " soft backups");
    push(s, v.dp, w + " Bellman value"); push(s, v.db, w + " Bellman backups"); push(s, v.emp, w + " empirical value"); push(s, v.pb, w + " empirical backups"); push(s, v.ent, w + " entropy"); push(s, v.eb, w + " entropy backups");
    push(s, v.temp, w + " temperature"); push(s, v.vtemp, w + " value temperature");
}
struct Walk {
    Inst& I; std::set<void*> seen; std::function<void(thts::ThtsDNode&, int, int, const string&)> on_d; std::function<void(thts::ThtsCNode&, int, int, int, const string&)> on_c;
    Walk(Inst& i) : I(i) {}
    void d(thts::ThtsDNode& n, int s, int depth, const string& w) {
        if (!seen.insert(&n).second) return;
        if (on_d) on_d(n, s, depth, w);
        for (auto& a : I.m().st[s].acts) { auto act = I.env->make_action(a.label); if (!n.has_child_node_itfc(act)) continue; c(*n.get_child_node_itfc(act), s, a, depth, w + ".a" + std::to_string(a.label)); }
    }
    void c(thts::ThtsCNode& n, int s, const ActM& a, int depth, const string& w) {
        if (on_c) on_c(n, s, a.label, depth, w);
        for (auto& o : a.outs) { auto ob = std::static_pointer_cast<const thts::Observation>(I.env->make_state(o.first)); if (!n.has_child_node_itfc(ob)) continue; d(*n.get_child_node_itfc(ob), o.first, depth + 1, w + ".s" + std::to_string(o.first)); }
    }
    void run() { d(*I.root, I.m().init, 0, "root"); }
};
static Snap snapshot(Inst& I) {
    Snap s; Walk w(I);
    w.on_d = [&](thts::ThtsDNode& n, int, int, const string& p) { push_view(s, view(n, I.cfg), p); push(s, n.get_num_children(), p + " children"); };
    w.on_c = [&](thts::ThtsCNode& n, int, int, int, const string& p) { push_view(s, view(n, I.cfg), p); push(s, n.get_num_children(), p + " children"); };
    w.run(); return s;
}
static string show_trial(const TrialRec& t) { std::ostringstream o; for (auto& s : t.steps) o << s.s << "-" << s.a << "->" << s.s2 << " "; return o.str(); }
static void same_trials(const MdpEnv& a, const MdpEnv& b, const char* what, const string& ctx) {
    size_t n = std::max(a.trials.size(), b.trials.size()); PBT_CHECK(a.trials.size() == b.trials.size(), "%s: %zu and %zu trials [%s]", what, a.trials.size(), b.trials.size(), ctx.c_str());
    for (size_t i = 0; i < n; i++) { auto &x = a.trials[i]->steps, &y = b.trials[i]->steps; bool eq = x.size() == y.size(); for (size_t k = 0; eq && k < x.size(); k++) eq = x[k].s == y[k].s && x[k].a == y[k].a && x[k].s2 == y[k].s2; PBT_CHECK(eq, "%s: trial %zu takes %s in one search and %s in the other [%s]", what, i, show_trial(*a.trials[i]).c_str(), show_trial(*b.trials[i]).c_str(), ctx.c_str()); }
}
static void same_snap(const Snap& a, const Snap& b, double sign, const char* what, const string& ctx) {
    static const char* neg[] = {" mean", " soft value", " Bellman value", " empirical value", " entropy"};
    PBT_CHECK(a.v.size() == b.v.size(), "%s: the trees have different shapes [%s]", what, ctx.c_str());
    for (size_t i = 0; i < a.v.size(); i++) {
        PBT_CHECK(a.where[i] == b.where[i], "%s: the trees have different shapes at %s / %s [%s]", what, a.where[i].c_str(), b.where[i].c_str(), ctx.c_str());
        double w = b.v[i]; if (sign < 0 && w != UNAV) for (auto* s : neg) { size_t L = strlen(s); if (a.where[i].size() >= L && a.where[i].compare(a.where[i].size() - L, L, s) == 0) w = -w; }
        if (!(a.v[i] == w || (std::isnan(a.v[i]) && std::isnan(w)))) pbt::fail("%s: %s is %.17g in one search and %.17g in the other%s [%s]", what, a.where[i].c_str(), a.v[i], b.v[i], sign < 0 ? " (values must be negated)" : "", ctx.c_str());
    }
}
static vector<std::pair<string, int>> recommendations(Inst& I) {
    vector<std::pair<string, int>> out; Walk w(I); auto ctx = make_shared<thts::ThtsEnvContext>();
    w.on_d = [&](thts::ThtsDNode& n, int s, int depth, const string& p) {
        if (I.m().st[s].sink || depth >= I.cfg.max_depth || n.get_num_children() == 0) return;
        out.push_back({p, I.env->aid(n.recommend_action_itfc(*ctx).get())});
    };
    w.run(); return out;
}
static void same_recs(Inst& A, Inst& B, const char* what) {
    auto a = recommendations(A), b = recommendations(B); PBT_CHECK(a.size() == b.size(), "%s: different trees", what);
    for (size_t i = 0; i < a.size(); i++) PBT_CHECK(a[i] == b[i], "%s: the recommendation at %s is action %d in one search and %d in the other [%s]", what, a[i].first.c_str(), a[i].second, b[i].second, A.cfg.str().c_str());
}
static void same_rng(Inst& A, Inst& B, const char* what) { for (int i = 0; i < 4; i++) { int x = A.mgr->get_rand_int(0, 1000000), y = B.mgr->get_rand_int(0, 1000000); double u = A.mgr->get_rand_uniform(), v = B.mgr->get_rand_uniform(); PBT_CHECK(x == y && u == v, "%s: the searches consumed different random numbers [%s]", what, A.cfg.str().c_str()); } }
static bool big_enough(Inst& I) { return I.env->trials.size() >= 3 && I.root->get_num_children() >= 2; }

// ------------------------------------------------------------------------------------------------ C18
PBT_TARGET(repro, "repro", 45000, 1000000, "one random problem, algorithm, configuration and non-zero seed searched twice by one worker: once in a single run_trials call, once split at random into several calls on one or several pools, with or without a logger, with unrelated searches and allocations in between; trials, every statistic of every node (bitwise), printed tree, recommendations at every node and the following random numbers must be identical. Non-trivial: at least 3 trials and 2 root actions tried") {
    MdpOpts mo; TreeCase t; setup(t, mo, CfgOpts(), 60, 400);     t.I = make_inst(t.m, t.c); t.I.env->fuel = 40000000ull; const string cs = t.c.str();
    { thts::ThtsPool pool(t.I.mgr, t.I.root, 1); pool.run_trials(t.n); }
    vector<std::unique_ptr<char[]>> junk; int nj = range(0, 40); for (int i = 0; i < nj; i++) junk.emplace_back(new char[16 + draw(400)]);
    Inst other; if (chance(1, 3)) { Cfg oc = t.c; oc.seed = range(1, 1000); other = make_inst(t.m, oc); run_pool(other, range(1, 10)); }
    for (size_t i = 0; i < junk.size(); i += 2) junk[i].reset();
    Inst B = make_inst(t.m, t.c); B.env->fuel = 40000000ull;
    auto mk_log = [&]() -> shared_ptr<thts::ThtsLogger> { if (chance(1, 2)) return nullptr; auto l = make_logger(t.c.alg); l->set_trials_delta(range(1, 5)); return l; };
    int left = t.n; describe() << " split:"; auto pool = std::make_unique<thts::ThtsPool>(B.mgr, B.root, 1, mk_log());
    while (left > 0) {
        int k = chance(1, 3) ? left : range(1, left); describe() << " " << k; commit_desc();
        if (chance(1, 4)) { pool.reset(); pool = std::make_unique<thts::ThtsPool>(B.mgr, B.root, 1, mk_log()); describe() << "(new pool)"; }
        if (chance(1, 3)) { pool->run_trials(k, std::numeric_limits<double>::max(), false); pool->join(); } else pool->run_trials(k);
        left -= k; if (chance(1, 3)) junk.emplace_back(new char[16 + draw(1000)]);
    }
    pool.reset();
    same_trials(*t.I.env, *B.env, "same seed", cs);
    Snap a = snapshot(t.I), b = snapshot(B); same_snap(a, b, 1, "same seed", cs); add("statistics_compared", a.v.size());
    if (t.I.env->trials.size() < 60) { int dp = t.c.tt ? 2 : 5; string x = t.I.root->get_pretty_print_string(dp), y = B.root->get_pretty_print_string(dp); PBT_CHECK(x == y, "same seed: the printed trees differ [%s]", cs.c_str()); }
    same_recs(t.I, B, "same seed"); same_rng(t.I, B, "same seed");
    // another seed gives another stream; seed zero is not reproducible
    { thts::RandManager p(t.c.seed), q(t.c.seed == 12345 ? 54321 : 12345), z1(0), z2(0), z3(0); int dq = 0, dz = 0, dr = 0, drz = 0; for (int i = 0; i < 8; i++) { int x = p.get_rand_int(0, 1 << 24); double u = p.get_rand_uniform(); dq += x != q.get_rand_int(0, 1 << 24); dr += u != q.get_rand_uniform(); int z = z1.get_rand_int(0, 1 << 24); dz += z != z2.get_rand_int(0, 1 << 24) || z != z3.get_rand_int(0, 1 << 24); double r = z1.get_rand_uniform(); drz += r != z2.get_rand_uniform() || r != z3.get_rand_uniform(); }
      PBT_CHECK(dq >= 4 && dr >= 4, "seeds %d and another one give the same random numbers", t.c.seed); PBT_CHECK(dz >= 4 && drz >= 4, "seed zero gives the same random numbers every time"); }
    if (big_enough(t.I)) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C23
static MdpM negated(MdpM m) { for (auto& s : m.st) { s.heur = -s.heur; for (auto& a : s.acts) { a.r = -a.r; for (auto& x : a.r_out) x = -x; } } return m; }
static void check_opponents(Inst& I) {
    Walk w(I);
    w.on_d = [&](thts::ThtsDNode& n, int, int depth, const string& p) { bool want = I.cfg.two && (((I.cfg.t0 + depth) & 1) == 1); if constexpr (requires { n.is_opponent(); }) PBT_CHECK(n.is_opponent() == want, "decision node %s at timestep %d of a %s game %s to the opponent [%s]", p.c_str(), I.cfg.t0 + depth, I.cfg.two ? "two-player" : "one-player", want ? "does not belong" : "belongs", I.cfg.str().c_str()); };
    w.on_c = [&](thts::ThtsCNode& n, int, int, int depth, const string& p) { bool want = I.cfg.two && (((I.cfg.t0 + depth) & 1) == 1); if constexpr (requires { n.is_opponent(); }) PBT_CHECK(n.is_opponent() == want, "chance node %s at timestep %d of a %s game %s to the opponent [%s]", p.c_str(), I.cfg.t0 + depth, I.cfg.two ? "two-player" : "one-player", want ? "does not belong" : "belongs", I.cfg.str().c_str()); };
    w.run();
}
PBT_TARGET(mirror, "mirror", 60000, 1500000, "random two-player problem, algorithm and configuration searched twice with the same seed, the second time with all rewards, heuristics and default values negated and the root one timestep later: trials and recommendations must be equal and every value and entropy exactly negated; the owner of every node is checked. Non-trivial: at least 3 trials and 2 root actions tried") {
    TreeCase t; CfgOpts co; co.two = 1; co.heur = pick({0, 1, 2, 2}); setup(t, MdpOpts(), co, 60, 400); const string cs = t.c.str();
    run_pool(t.I, t.n); Cfg c2 = t.c; c2.t0 += 1; c2.defq = -c2.defq; Inst B = make_inst(negated(t.m), c2); B.env->fuel = 40000000ull; run_pool(B, t.n);
    same_trials(*t.I.env, *B.env, "mirrored game", cs); Snap a = snapshot(t.I), b = snapshot(B); same_snap(a, b, -1, "mirrored game", cs); add("statistics_compared", a.v.size());
    same_recs(t.I, B, "mirrored game"); same_rng(t.I, B, "mirrored game"); check_opponents(t.I); check_opponents(B);
    if (big_enough(t.I)) nontrivial();
}
PBT_TARGET(shift, "shift", 30000, 800000, "random problem searched twice with the same seed from roots at different timesteps: any shift for a one-player problem, an even shift for a two-player one; trials, recommendations and every statistic must be equal. Non-trivial: at least 3 trials and 2 root actions tried") {
    TreeCase t; setup(t, MdpOpts(), CfgOpts(), 60, 400); const string cs = t.c.str(); run_pool(t.I, t.n);
    Cfg c2 = t.c; int k = pick({1, 2, 3, 7, 64, 1000}); c2.t0 += t.c.two ? 2 * k : k; describe() << " shifted by " << c2.t0 - t.c.t0; commit_desc(); Inst B = make_inst(t.m, c2); B.env->fuel = 40000000ull; run_pool(B, t.n);
    same_trials(*t.I.env, *B.env, "shifted timestep", cs); Snap a = snapshot(t.I), b = snapshot(B); same_snap(a, b, 1, "shifted timestep", cs); same_recs(t.I, B, "shifted timestep"); check_opponents(t.I); check_opponents(B);
    if (big_enough(t.I)) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C27
struct PrintCheck {
    Inst& I; const string& s; size_t p = 0; long nodes = 0, cuts = 0;
    PrintCheck(Inst& i, const string& t) : I(i), s(t) {}
    void bad(const string& what) { pbt::fail("printed tree: %s at offset %zu, near '%s' [%s]", what.c_str(), p, s.substr(p, 60).c_str(), I.cfg.str().c_str()); }
    void need(const string& t, const char* what) { if (s.compare(p, t.size(), t) != 0) bad(string("expected ") + what + " '" + t + "'"); p += t.size(); }
    bool peek(const string& t) { return s.compare(p, t.size(), t) == 0; }
    void tabs(int n) { need("\n", "a new line"); for (int i = 0; i < n; i++) need("|\t", "indentation"); if (peek("|\t")) bad("too much indentation"); }
    void number(const string& txt, double want, const char* what, const NodeView& v) {
        if (want == UNAV) return; double g = strtod(txt.c_str(), nullptr); double tol = (v.exact ? 6e-6 : 3e-5) * std::max(std::fabs(want), std::fabs(g)) + 1e-300;
        if (std::isnan(want) ? !std::isnan(g) : !(g == want || std::fabs(g - want) <= tol)) bad(string(what) + " printed as " + txt.substr(0, 30) + " is " + std::to_string(want) + " in the tree, ");
    }
    string until(const string& t) { size_t q = s.find(t, p); if (q == string::npos) bad("expected '" + t + "'"); string r = s.substr(p, q - p); p = q; return r; }
    void head(char kind, const NodeView& v) {
        nodes++; need(string(1, kind) + "(vl=", "a node"); string val = until(",#v="); need(",#v=", "visits"); string nv = until(")["); need(")[", "visits"); 
        if (nv != std::to_string(v.visits)) bad("a node with " + std::to_string(v.visits) + " visits is printed with " + nv);
        if (!v.exact) return;
        const Cfg& c = I.cfg; auto f = [&](const char* k) { size_t q = val.find(string(k) + ":"); if (q == string::npos) bad(string("no ") + k + " in " + val); return val.substr(q + strlen(k) + 1); };
        if (is_uct(c.alg)) number(val, v.uct_avg, "mean return", v);
        else if (c.alg == EST) number(val, c.use_dp ? v.dp : v.emp, "value", v);
        else if (c.alg == DENTS) { number(val, c.use_dp ? v.dp : v.emp, "value", v); number(f("entrpy"), v.ent, "entropy", v); number(f("soft_val"), v.soft, "soft value", v); number(f("val_temp"), v.vtemp, "value temperature", v); if (kind == 'D') number(f("(temp"), v.temp, "temperature", v); }
        else if (c.alg == DBMENTS) { number(val, v.dp, "Bellman value", v); number(f("soft_val"), v.soft, "soft value", v); if (kind == 'D') number(f("(temp"), v.temp, "temperature", v); }
        else { number(val, v.soft, "soft value", v); if (kind == 'D') number(f("(temp"), v.temp, "temperature", v); }
    }
    void d(thts::ThtsDNode& n, int st, int depth, int levels, int tab) {
        head('D', view(n, I.cfg));
        if (levels == 0) { bool leaf = I.m().st[st].sink || depth >= I.cfg.max_depth; if (leaf) { if (peek("...")) bad("ellipsis at a leaf"); } else { need("...", "an ellipsis at a cut node"); cuts++; } need("],", "end of node"); return; }
        std::set<int> got; int nc = n.get_num_children();
        for (int i = 0; i < nc; i++) {
            tabs(tab + 1); need("\"", "an action"); string lab = until("\"->"); need("\"->", "an action"); int label = -1;
            for (auto& a : I.m().st[st].acts) if (I.env->make_action(a.label)->get_pretty_print_string() == lab) label = a.label;
            if (label < 0 || !got.insert(label).second) bad("action " + lab + " is not a child or printed twice");
            auto act = I.env->make_action(label); if (!n.has_child_node_itfc(act)) bad("action " + lab + " is not a child"); c(*n.get_child_node_itfc(act), st, label, depth, levels, tab + 1);
        }
        tabs(tab); need("],", "end of node");
    }
    void c(thts::ThtsCNode& n, int st, int label, int depth, int levels, int tab) {   // levels: decision levels left including the children of n
        head('C', view(n, I.cfg)); std::set<int> got; int nc = n.get_num_children();
        for (int i = 0; i < nc; i++) {
            tabs(tab + 1); need("{", "an observation"); string lab = until("}->"); need("}->", "an observation"); int s2 = -1;
            for (auto& o : I.m().act(st, label).outs) if (I.env->make_state(o.first)->get_pretty_print_string() == lab) s2 = o.first;
            if (s2 < 0 || !got.insert(s2).second) bad("observation " + lab + " is not a child or printed twice");
            auto ob = std::static_pointer_cast<const thts::Observation>(I.env->make_state(s2)); if (!n.has_child_node_itfc(ob)) bad("observation " + lab + " is not a child"); d(*n.get_child_node_itfc(ob), s2, depth + 1, levels - 1, tab + 1);
        }
        tabs(tab); need("],", "end of node");
    }
    void end() { if (p != s.size()) bad("text after the end of the tree"); }
};
PBT_TARGET(printing, "printing", 90000, 1000000, "random searched tree; the root and random decision and chance nodes are printed with depths 0-6 (without transposition table also up to 300, which covers whole deep trees) and the text is parsed against the real tree: exactly the nodes within that depth, labels, visit counts, printed statistics, ellipses at cut non-leaf nodes, nesting and indentation; printing twice gives the same text and changes nothing. Non-trivial: a print of at least 5 nodes that is cut somewhere") {
    TreeCase t; MdpOpts mo; mo.wide = chance(1, 4); setup(t, mo, CfgOpts(), 30, 200); run_pool(t.I, t.n); Inst& I = t.I;
    struct N { thts::ThtsDNode* d; thts::ThtsCNode* c; int s, label, depth; }; vector<N> all; Walk w(I);
    w.on_d = [&](thts::ThtsDNode& n, int s, int depth, const string&) { all.push_back({&n, nullptr, s, 0, depth}); }; w.on_c = [&](thts::ThtsCNode& n, int s, int a, int depth, const string&) { all.push_back({nullptr, &n, s, a, depth}); }; w.run();
    Snap before = snapshot(I); int reps = range(1, 4); bool nt = false;
    for (int i = 0; i < reps; i++) {
        N x = i == 0 ? all[0] : all[draw(all.size())]; int lv = range(0, t.c.tt ? 3 : 6); if (!t.c.tt && all.size() < 4000 && chance(1, t.m.deep ? 2 : 10)) lv = t.m.deep ? range(7, 300) : range(7, 40); describe() << " print(" << (x.d ? "D" : "C") << "@" << x.depth << "," << lv << ")"; commit_desc();
        string a = x.d ? x.d->get_pretty_print_string(lv) : x.c->get_pretty_print_string(lv), b = x.d ? x.d->get_pretty_print_string(lv) : x.c->get_pretty_print_string(lv); PBT_CHECK(a == b, "printing the same tree twice gives different texts");
        if (a.size() > 2000000) continue;
        PrintCheck P(I, a); if (x.d) P.d(*x.d, x.s, x.depth, lv, 0); else P.c(*x.c, x.s, x.label, x.depth, lv + 1, 0); P.end(); add("nodes_printed", P.nodes); if (P.nodes >= 5 && P.cuts) nt = true;
    }
    Snap after = snapshot(I); same_snap(before, after, 1, "printing", t.c.str());
    if (nt) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C29
PBT_TARGET(extreme, "extreme", 50000, 900000, "extreme but valid problems and parameters: rewards and heuristics up to 1e8, temperatures 1e-3 to 1e4, decay to floors >= 1e-3, epsilon 0, zero-probability and tiny-probability outcomes, single actions, many actions, sink root, depth 0, unnormalised and extreme priors where allowed, up to thousands of visits, 1-4 threads; no exception, crash or undefined behaviour, every statistic of every node finite, every search policy a proper distribution, every recommendation valid. Non-trivial: at least 4 nodes and a reward or temperature outside [0.01,1000]") {
    MdpOpts mo; mo.reward_mode = chance(2, 3) ? 5 : -1; mo.extreme_prior = false; CfgOpts co; co.temp_lo = 1e-3; co.temp_hi = 1e4;
    co.prior = chance(1, 2); bool ext = co.prior == 1 && chance(1, 2); if (ext) { mo.normalised_prior = false; mo.extreme_prior = true; }
    MdpM m = gen_mdp(mo); Cfg c = gen_cfg(m, co); if (ext) c.pw = 0;   // the mixture with the prior needs a normalised one
    if (c.alg == TENTS && chance(1, 3)) c.decay = range(1, 3); if (chance(1, 3)) c.eps = 0, c.root_eps = -1; if (c.decay) c.min_temp = pick({1e-3, 1e-2}); if (c.vdecay) c.vmin = pick({0.0, 1e-3}); if (chance(1, 3)) c.defq = pick({1e8, -1e8, 1e4, 0.0}); if (chance(1, 4)) c.offset = pick({1e4, -1e4}); if (c.decay && chance(1, 3)) c.scale = 1e3; if (chance(1, 8)) c.scale = 1e-6;
    if (is_uct(c.alg)) { if (chance(1, 3)) c.bias = pick({1e8, 1e-8, 0.0}); if (chance(1, 6)) c.pseudo = 1000; }
    int n = chance(1, 60) && m.max_acts <= 8 && !m.deep ? range(500, m.layered || c.max_depth < 1000 ? 3000 : 800) : gen_trials(60, 300); int threads = chance(1, 4) ? range(2, 4) : 1;
    describe() << c.str() << " trials=" << n << " threads=" << threads << " " << m.str(); commit_desc();
    Inst I = make_inst(m, c); I.env->fuel = 60000000ull; label(alg_name(c.alg)); if (ext) label("extreme prior"); if (threads > 1) label("threads");
    try { run_pool(I, n, threads); } catch (const std::exception& e) { pbt::fail("run_trials raised an exception: %s [%s]", e.what(), c.str().c_str()); }
    Walk w(I); long nodes = 0; auto fin = [&](double x, const char* what, const string& p) { if (x != UNAV && !std::isfinite(x)) pbt::fail("%s of %s is %g [%s]", what, p.c_str(), x, c.str().c_str()); };
    auto vw = [&](const NodeView& v, const string& p) { nodes++; fin(v.uct_avg, "mean", p); fin(v.soft, "soft value", p); fin(v.dp, "Bellman value", p); fin(v.emp, "empirical value", p); fin(v.ent, "entropy", p); fin(v.temp, "temperature", p); fin(v.vtemp, "value temperature", p); };
    auto ctx = make_shared<thts::ThtsEnvContext>();
    w.on_c = [&](thts::ThtsCNode& x, int, int, int, const string& p) { vw(view(x, c), p); };
    w.on_d = [&](thts::ThtsDNode& x, int s, int depth, const string& p) {
        vw(view(x, c), p); if (m.st[s].sink || depth >= c.max_depth) return;
        if (!is_uct(c.alg) && (c.alg != RENTS || depth == 0) && x.get_num_visits() > 0) if (auto* me = dynamic_cast<thts::MentsDNode*>(&x)) { thts::ActionDistr d; if (p_policy(*me, d, *ctx)) {
            double t = 0; for (auto& kv : d) { if (!(kv.second >= 0 && kv.second <= 1 + 1e-9)) pbt::fail("search policy at %s gives probability %g [%s]", p.c_str(), kv.second, c.str().c_str()); t += kv.second; } PBT_CHECK(std::fabs(t - 1) <= 1e-6, "search policy at %s sums to %.9g [%s]", p.c_str(), t, c.str().c_str()); for (auto& kv : d) PBT_CHECK(m.act_index(s, I.env->aid(kv.first.get())) >= 0, "search policy at %s contains an invalid action", p.c_str()); } }
        int a = -1; try { if (x.get_num_children() > 0) { a = I.env->aid(x.recommend_action_itfc(*ctx).get()); PBT_CHECK(m.act_index(s, a) >= 0, "recommendation at %s is invalid", p.c_str()); } } catch (const std::exception& e) { pbt::fail("recommend_action at %s raised an exception: %s [%s]", p.c_str(), e.what(), c.str().c_str()); }
    };
    w.run(); double big = 0; for (auto& s : m.st) for (auto& a : s.acts) big = std::max(big, std::fabs(a.r)); add("nodes_checked", nodes);
    if (nodes >= 4 && (big > 1000 || c.temp < 0.01 || c.temp > 1000)) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C28 defaults
struct ObsEnv : public thts::ThtsEnv {   // states are integers; optionally its own observation distribution
    bool own; vector<vector<std::pair<int, double>>> obs; mutable int asked = 0;
    ObsEnv(bool full, bool o) : thts::ThtsEnv(full), own(o) {}
    shared_ptr<const thts::State> get_initial_state_itfc() const override { return make_shared<const thts::IntState>(0); }
    bool is_sink_state_itfc(shared_ptr<const thts::State>) const override { return false; }
    shared_ptr<thts::ActionVector> get_valid_actions_itfc(shared_ptr<const thts::State>) const override { auto v = make_shared<thts::ActionVector>(); v->push_back(make_shared<const thts::IntAction>(0)); return v; }
    shared_ptr<thts::StateDistr> get_transition_distribution_itfc(shared_ptr<const thts::State> s, shared_ptr<const thts::Action>) const override { auto d = make_shared<thts::StateDistr>(); (*d)[s] = 1.0; return d; }
    shared_ptr<const thts::State> sample_transition_distribution_itfc(shared_ptr<const thts::State> s, shared_ptr<const thts::Action>, thts::RandManager&) const override { return s; }
    shared_ptr<thts::ObservationDistr> get_observation_distribution_itfc(shared_ptr<const thts::Action> a, shared_ptr<const thts::State> s) const override {
        if (!own) return thts::ThtsEnv::get_observation_distribution_itfc(a, s);
        asked++; auto d = make_shared<thts::ObservationDistr>(); for (auto& o : obs[((unsigned)static_cast<const thts::IntState&>(*s).state * 2 + (unsigned)static_cast<const thts::IntAction&>(*a).action) % obs.size()]) (*d)[std::static_pointer_cast<const thts::Observation>(make_shared<const thts::IntState>(o.first + static_cast<const thts::IntState&>(*s).state))] = o.second; return d;
    }
    double get_reward_itfc(shared_ptr<const thts::State>, shared_ptr<const thts::Action>, shared_ptr<const thts::Observation>) const override { return 0; }
};
struct ScriptRand : public thts::RandManager, public RngTap { ScriptRand() : thts::RandManager(5) {} double get_rand_uniform() override { if (scripted) { ucalls++; return u; } return thts::RandManager::get_rand_uniform(); } int get_rand_int(int lo, int hi) override { if (scripted) icalls++; return thts::RandManager::get_rand_int(lo, hi); } };
PBT_TARGET(obs_defaults, "obs_defaults", 20000, 300000, "environments using the default observation functions: fully observable (the next state with certainty, both as distribution and as sample), partially observable with a random observation distribution (default sampling on a grid of random values against it), partially observable without one (exception). Non-trivial: partially observable with at least two observations of positive probability") {
    int mode = range(0, 3); ObsEnv e(mode == 0, mode >= 2); int id = chance(1, 5) ? pick({2147483000, -2147483000}) : range(-5, 50); auto s = std::static_pointer_cast<const thts::State>(make_shared<const thts::IntState>(id)); auto a = std::static_pointer_cast<const thts::Action>(make_shared<const thts::IntAction>(1)); ScriptRand r;
    describe() << "mode=" << mode << " state=" << id; int models = range(1, 4); vector<std::map<int, double>> want(models); vector<int> pos(models);   // the observation model depends on state and action
    for (int k = 0; k < models; k++) {
        int n = range(1, 6), tot = 0; vector<int> w; for (int i = 0; i < n; i++) { w.push_back(chance(1, 5) ? 0 : range(1, 9)); tot += w.back(); } if (!tot) { w[0] = 1; tot = 1; }
        e.obs.push_back({}); describe() << " model" << k << ":"; for (int i = 0; i < n; i++) { e.obs[k].push_back({3 * i, (double)w[i] / tot}); want[k][3 * i] = (double)w[i] / tot; pos[k] += w[i] > 0; describe() << " " << 3 * i << "@" << w[i]; }
    }
    commit_desc();
    PBT_CHECK(e.is_fully_observable() == (mode == 0), "is_fully_observable is wrong");
    auto throws = [](auto f) { try { f(); return false; } catch (const std::exception&) { return true; } };
    if (mode == 0) {
        auto d = e.get_observation_distribution_itfc(a, s); PBT_CHECK(d->size() == 1 && d->begin()->second == 1.0 && d->begin()->first->equals_itfc(*s) && d->count(std::static_pointer_cast<const thts::Observation>(make_shared<const thts::IntState>(id))) == 1, "default observation of a fully observable environment is not its next state");
        auto o = e.sample_observation_distribution_itfc(a, s, r); PBT_CHECK(o && o->equals_itfc(*s), "sampled observation of a fully observable environment is not its next state");
    } else if (mode == 1) {
        PBT_CHECK(throws([&] { e.get_observation_distribution_itfc(a, s); }) && throws([&] { e.sample_observation_distribution_itfc(a, s, r); }), "a partially observable environment without observation model does not fail");
    } else {
        auto s2 = std::static_pointer_cast<const thts::State>(make_shared<const thts::IntState>(id + 1)); auto a2 = std::static_pointer_cast<const thts::Action>(make_shared<const thts::IntAction>(2));
        for (int q = range(1, 4); q > 0; q--) {
            bool other = chance(1, 2); auto qs = other ? s2 : s; int qi = other ? id + 1 : id; bool oa = chance(1, 2); auto qa = oa ? a2 : a; int k = (int)(((unsigned)qi * 2 + (unsigned)(oa ? 2 : 1)) % (unsigned)models); if (chance(1, 3)) qs = make_shared<const thts::IntState>(qi);
            describe() << " query(" << qi << "," << (oa ? 2 : 1) << ")"; commit_desc();
            check_sampler([&] { return static_cast<const thts::IntState&>(*std::dynamic_pointer_cast<const thts::IntState>(e.sample_observation_distribution_itfc(qa, qs, r))).state - qi; }, &r, want[k], 200, 800, "the default observation sampler"); if (pos[k] >= 2) nontrivial();
        }
    }
    auto c = e.sample_context_itfc(s), c2 = e.sample_context_itfc(s); PBT_CHECK(c && c2 && c != c2, "the default context is not a fresh object"); c->put_value("x", make_shared<int>(3)); PBT_CHECK(c->get_value<int>("x") == 3 && throws([&] { c2->get_value_raw("x"); }), "default contexts are not independent");
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
