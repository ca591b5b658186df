// Helpers shared by the tree harnesses.
#pragma once
#include "ref.h"

namespace vf {
using namespace pbt;

// Freedman/Bernstein bound: P(|sum of bounded martingale differences| > x) <= 2 exp(-30) when x >= this, V = sum of conditional variances
inline double freedman(double V, double L = 30.0) { return L / 3.0 + std::sqrt(L * L / 9.0 + 2.0 * L * V); }

struct Mart {   // accumulates f(observed) - E[f]
    double S = 0, V = 0; long n = 0;
    void add(double obs, double mean, double var) { S += obs - mean; V += std::max(0.0, var); n++; }
    void check(const char* what, const string& ctx) {
        if (std::fabs(S) > freedman(V)) pbt::fail("%s: observed frequency deviates by %.1f from its expectation over %ld draws (bound %.1f, variance %.1f) [%s]", what, S, n, freedman(V), V, ctx.c_str());
    }
};

// Empirical distribution of a sampler against expected probabilities, keyed by int.
// With one scripted uniform per draw the inverse-CDF sampler is checked on a fine grid; otherwise statistically.
inline void check_sampler(const std::function<int()>& draw1, RngTap* tap, const std::map<int, double>& want, int grid, int nstat, const string& what) {
    bool exact = tap != nullptr;
    if (exact) {
        std::map<int, long> cnt, runs; int prev = INT_MIN;   // runs: pieces of [0,1) that lead to a key; each contributes at most one grid cell of error
        tap->scripted = true; tap->ival = -1;
        for (int i = 0; i < grid && exact; i++) {
            tap->u = (i + 0.5) / grid; long u0 = tap->ucalls, i0 = tap->icalls;
            int k = draw1();
            if (!want.count(k)) pbt::fail("%s returned %d, which is not in the support", what.c_str(), k);
            if (tap->ucalls - u0 != 1 || tap->icalls != i0) exact = false;
            cnt[k]++; if (k != prev) { runs[k]++; prev = k; }
        }
        tap->scripted = false;
        if (exact) {
            for (auto& kv : want) {
                double e = kv.second * grid; long c = cnt.count(kv.first) ? cnt[kv.first] : 0;
                if (kv.second <= 0 && c > 0) pbt::fail("%s returned %d, which has probability zero", what.c_str(), kv.first);
                if (std::fabs(c - e) > 1.01 * std::max(1l, runs[kv.first]) + 1e-9 * grid) pbt::fail("%s: %d is chosen on %ld of %d equidistant random values, expected %.3f", what.c_str(), kv.first, c, grid, e);
            }
            pbt::add("grid_draws", grid);
            return;
        }
    }
    std::map<int, long> cnt;
    for (int i = 0; i < nstat; i++) {
        int k = draw1();
        if (!want.count(k)) pbt::fail("%s returned %d, which is not in the support", what.c_str(), k);
        cnt[k]++;
    }
    for (auto& kv : want) {
        double p = kv.second, e = p * nstat, b = freedman(nstat * p * (1 - p)); long c = cnt.count(kv.first) ? cnt[kv.first] : 0;
        if (p <= 0 && c > 0) pbt::fail("%s returned %d, which has probability zero", what.c_str(), kv.first);
        if (std::fabs(c - e) > b || (c == 0 && p > 0 && (p >= 1 || nstat * std::log1p(-p) < -32))) pbt::fail("%s: %d was drawn %ld of %d times, expected %.1f +- %.1f", what.c_str(), kv.first, c, nstat, e, b);
    }
    pbt::add("statistical_draws", nstat);
}

struct TreeCase { MdpM m; Cfg c; Inst I; int n = 0; };

inline int gen_trials(int small = 80, int large = 1500) {
    if (chance(1, 60)) return range(small, large);
    if (chance(1, 4)) return range(1, 8);
    return range(2, small);
}

inline void setup(TreeCase& t, const MdpOpts& mo, const CfgOpts& co, int small = 80, int large = 1500) {
    t.m = gen_mdp(mo); t.c = gen_cfg(t.m, co); t.n = gen_trials(small, large);
    if (large >= 600 && t.m.max_acts <= 6 && chance(1, 1000)) { t.n = range(33000, t.c.alg == RENTS ? 50000 : 140000); t.c.max_depth = range(1, 2); label("huge"); }   // counts beyond 16 bits
    if (t.m.max_acts > 60) t.n = std::min(t.n, 500);
    describe() << t.c.str() << " trials=" << t.n << " " << t.m.str(); commit_desc();
    t.I = make_inst(t.m, t.c);
    t.I.env->fuel = 40000000ull;
    label(alg_name(t.c.alg)); if (t.c.tt) label("tt"); if (t.c.two) label("two-player"); if (t.c.mcts) label("mcts");
    if (t.c.prior) label("prior"); if (t.m.deep) label("deep"); if (t.n > small) label("many-trials"); if (t.m.max_acts > 8) label("wide");
}
inline bool interesting(const Ref& R) {
    if (R.ds.size() < 4 || R.trial_no < 3) return false;
    for (auto& d : R.ds) if (d->depth > 0 && d->visits >= 3 && !d->ch.empty()) return true;
    return R.root->ch.size() >= 2;
}

// collects (real, reference) decision node pairs
inline void collect(thts::ThtsDNode& n, RD* r, MdpEnv& e, vector<std::pair<thts::ThtsDNode*, RD*>>& out, std::set<void*>& seen) {
    if (!seen.insert(&n).second) return;
    out.push_back({&n, r});
    for (auto& kc : r->ch) {
        auto& c = *n.get_child_node_itfc(e.make_action(kc.first));
        for (auto& ks : kc.second->ch) collect(*c.get_child_node_itfc(std::static_pointer_cast<const thts::Observation>(e.make_state(ks.first))), ks.second, e, out, seen);
    }
}
inline vector<std::pair<thts::ThtsDNode*, RD*>> collect_all(Inst& I, Ref& R) { vector<std::pair<thts::ThtsDNode*, RD*>> o; std::set<void*> s; collect(*I.root, R.root, *I.env, o, s); return o; }

// ---- quiescent consistency: every backed-up node satisfies its own backup equation with respect to its children's final values
struct Quiescent {
    Inst& I; Ref R; int mask; bool multi; long checked = 0; double maxrel = 0;
    Quiescent(Inst& i, int mk, bool mt) : I(i), R(i.env->m, i.cfg), mask(mk), multi(mt) { R.ds.clear(); R.cs.clear(); R.root = load(*I.root, I.m().init, 0); }
    RD* load(thts::ThtsDNode& n, int s, int depth) {
        R.ds.push_back(std::make_unique<RD>()); RD* d = R.ds.back().get(); d->s = s; d->depth = depth;
        const MdpM& m = I.m(); const Cfg& c = I.cfg;
        d->leaf = m.st[s].sink || depth >= c.max_depth; d->heur = c.heur == 0 ? 0.0 : c.heuristic(m, s);
        NodeView v = view(n, c); d->visits = v.visits; d->soft = v.soft; d->dp = v.dp; d->emp = v.emp; d->ent = v.ent;
        if (c.prior && c.shift) { double t = 0; auto& p = m.st[s].prior; for (double w : p) t += Ref::clog(w); d->offset = c.offset - (p.empty() ? 0.0 : t / (double)p.size()); }
        int through = 0; size_t found = 0;
        for (auto& a : m.st[s].acts) {
            auto act = I.env->make_action(a.label);
            if (!n.has_child_node_itfc(act)) continue;
            found++;
            auto cn = n.get_child_node_itfc(act);
            R.cs.push_back(std::make_unique<RC>()); RC* k = R.cs.back().get(); d->ch[a.label] = k;
            NodeView w = view(*cn, c); k->s = s; k->label = a.label; k->depth = depth; k->parent = d; k->visits = w.visits; k->soft = w.soft; k->dp = w.dp; k->emp = w.emp; k->ent = w.ent; k->lr = a.r;
            k->mb = k->db = k->pb = k->visits; through += k->visits;
            size_t f2 = 0;
            for (auto& o : a.outs) {
                auto ob = std::static_pointer_cast<const thts::Observation>(I.env->make_state(o.first));
                if (!cn->has_child_node_itfc(ob)) continue;
                f2++; k->ch[o.first] = load(*cn->get_child_node_itfc(ob), o.first, depth + 1);
            }
            if ((int)f2 != cn->get_num_children()) pbt::fail("chance node has a child that is not an outcome of its action [%s]", c.str().c_str());
        }
        if ((int)found != n.get_num_children()) pbt::fail("decision node has a child that is not a valid action [%s]", c.str().c_str());
        d->stops = d->visits - through;
        int b = d->leaf ? d->visits : through;
        d->mb = b; d->db = 1 + b; d->pb = 1 + through; d->eb = 1 + through;
        return d;
    }
    void num(const char* what, double got, double want, int depth, int s, double tol) {
        if (got == UNAV) return;
        checked++;
        if (!(std::fabs(got - want) <= tol)) pbt::fail("at quiescence the %s of a node (state %d, depth %d) is %.12g but its own backup equation over its children gives %.12g (tolerance %.3g) [%s]", what, s, depth, got, want, tol, I.cfg.str().c_str());
    }
    bool close(double got, double want, double tol) { return got == UNAV || std::fabs(got - want) <= tol; }
    void run() {
        const Cfg& c = I.cfg; if (is_uct(c.alg)) return;
        double rs = 1; for (auto& d : R.ds) rs = std::max({rs, std::fabs(d->soft == UNAV ? 0 : d->soft), std::fabs(d->dp == UNAV ? 0 : d->dp), std::fabs(d->emp == UNAV ? 0 : d->emp)});
        double tol = (VF_PEEK ? 1e-9 : 1e-4) * rs;
        for (auto& k : R.cs) {
            if (k->visits == 0) continue;
            RC t = *k; R.backup_c(&t, 0.0);
            if ((mask & A_SOFT) && c.alg != EST && c.alg != DENTS) num("chance node soft value", k->soft, t.soft, k->depth, k->s, tol);
            if ((mask & A_DP) && has_dp(c.alg) && (c.alg == DBMENTS || c.use_dp)) num("chance node Bellman value", k->dp, t.dp, k->depth, k->s, tol);
            if ((mask & A_ENT) && c.alg == DENTS) { num("chance node entropy", k->ent, t.ent, k->depth, k->s, 1e-9 * (1 + rs)); if (k->ent != UNAV && (c.use_dp ? k->dp : k->emp) != UNAV) num("chance node soft value", k->soft, (c.use_dp ? k->dp : k->emp) + R.vt(k->visits, false) * k->ent, k->depth, k->s, tol * 10); }
        }
        for (auto& d : R.ds) {
            if (d->leaf || d->ch.empty()) continue;
            bool any = false; for (auto& kv : d->ch) any |= kv.second->visits > 0;
            if (!any) continue;
            if ((mask & A_DP) && has_dp(c.alg) && (c.alg == DBMENTS || c.use_dp)) { RD t = *d; R.dp_d(&t); num("decision node Bellman value", d->dp, t.dp, d->depth, d->s, tol); }
            if (c.alg == RENTS) continue;
            // the last visit of a trial that stopped here may have come after the last backup of another thread
            double want_soft = 0, want_ent = 0; bool ok = false; double qs = 1;
            for (int back = 0; back <= (multi && d->stops > 0 ? std::min(d->stops, 2) : 0) && !ok; back++) {
                RD t = *d; t.visits -= back;
                R.qscale = 1;
                double v; R.weights(&t, nullptr, nullptr, v); qs = R.qscale;
                double ws = R.sgn(t.depth) * R.temp(&t) * v, we = 0;
                double te = 1e-9 * (1 + rs) * (1 + qs), ts = tol + (c.alg == TENTS ? 1e-12 * qs * qs * R.temp(&t) : 0);
                bool good = true;
                if (c.alg == DENTS) {
                    RD u = t; R.backup_ent(&u); we = u.ent; ws = (c.use_dp ? d->dp : d->emp) + R.vt(t.visits, t.depth == 0) * d->ent;
                    if ((mask & A_ENT) && !(close(d->ent, we, te) && (d->ent == UNAV || close(d->soft, ws, tol * 10)))) good = false;
                } else if (c.alg != EST && (mask & A_SOFT) && !close(d->soft, ws, ts)) good = false;
                if (back == 0) { want_soft = ws; want_ent = we; }
                ok = good;
            }
            checked++;
            if (!ok) pbt::fail("at quiescence decision node (state %d, depth %d, %d visits) has soft value %.12g, entropy %.12g but its own backup equation over its children gives %.12g, %.12g [%s]", d->s, d->depth, d->visits, d->soft, d->ent, want_soft, want_ent, I.cfg.str().c_str());
        }
    }
};
// many threads: order-independent statistics and quiescent equations
struct ThreadedOpts { int small = 150, large = 800, max_threads = 8; std::function<void()> begin, end; std::function<shared_ptr<thts::ThtsLogger>(const Cfg&)> logger; };
inline void threaded_case(const CfgOpts& co, int mask, MdpOpts mo = MdpOpts(), const ThreadedOpts& to = ThreadedOpts()) {
    TreeCase t; setup(t, mo, co, to.small, to.large);
    int threads = range(2, to.max_threads); describe() << " threads=" << threads; commit_desc();
    int a = range(0, t.n); shared_ptr<thts::ThtsLogger> lg = to.logger ? to.logger(t.c) : nullptr;
    if (to.begin) to.begin();
    {
        thts::ThtsPool pool(t.I.mgr, t.I.root, threads, lg);
        pool.run_trials(a); pool.run_trials(t.n - a);
    }
    if (to.end) to.end();
    Ref R(t.I.env->m, t.I.cfg); replay_all(R, *t.I.env, 0, false);
    PBT_CHECK((int)t.I.env->trials.size() == t.n, "pool ran %zu trials instead of %d", t.I.env->trials.size(), t.n);
    Cmp C(t.I, R, mask & (A_VISITS | A_UCT | A_EMP | A_SHAPE)); C.d(*t.I.root, R.root, "root"); add("nodes_compared", C.nd + C.nc);
    if (!t.c.tt && !is_uct(t.c.alg)) { Quiescent Q(t.I, mask, true); Q.run(); add("quiescent_equations", Q.checked); }
    if (interesting(R)) nontrivial();
}
}  // namespace vf
