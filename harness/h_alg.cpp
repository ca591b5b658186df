// The search algorithms and loggers under the controlled scheduler and virtual clock.
#include "ctlsched.h"
#include "treeutil.h"
#include "loggers.h"
#include "mcutil.h"
using namespace vf;

static const char* SCHED_RULE = " All threads run under a controlled scheduler (random walk, sticky or priority schedules, chosen per case) that may switch at every lock, condition, environment call, random number and (for one state/action kind) every hash and comparison.";
static CfgOpts only(std::initializer_list<int> a) { CfgOpts o; o.algs = a; return o; }
static MdpOpts small_mdp() { MdpOpts o; o.max_states = 6; o.max_actions = 3; o.allow_deep = false; o.wide = false; return o; }
static ThreadedOpts sched_opts() {
    ThreadedOpts t; t.small = 30; t.large = 60; t.max_threads = 5;
    t.begin = [] { sched::begin(false); sched::S().phase = "searching"; yield_hook() = [] { sched::yield(); }; };
    t.end = [] { yield_hook() = nullptr; sched::end(); add("schedule_steps", sched::S().steps); add("memory_access_preemptions", sched::S().preemptions); add("context_switches", sched::S().switches); };
    return t;
}
static void sched_case(CfgOpts o, int mask) { o.max_depth_cap = 4; threaded_case(o, mask, small_mdp(), sched_opts()); }

PBT_TARGET(tree_sched, "tree_sched", 20000, 200000, "random problem, algorithm and configuration searched by 2-5 threads; shape of the tree and every visit count against the recorded trials." + string(SCHED_RULE)) { sched_case(CfgOpts(), A_VISITS | A_SHAPE); }
PBT_TARGET(tt_sched, "tt_sched", 20000, 200000, "as tree_sched with the transposition table enabled: sharing and visit counts against the recorded trials." + string(SCHED_RULE)) { CfgOpts o; o.tt = 1; sched_case(o, A_VISITS | A_SHAPE); }
PBT_TARGET(uct_sched, "uct_sched", 20000, 200000, "UCT/PUCT: every mean and backup count against the recorded trials." + string(SCHED_RULE)) { sched_case(only({UCT, PUCT}), A_UCT | A_VISITS); }
PBT_TARGET(ments_sched, "ments_sched", 20000, 200000, "MENTS/DB-MENTS without transpositions: soft Bellman equations at quiescence." + string(SCHED_RULE)) { CfgOpts o = only({MENTS, DBMENTS}); o.tt = 0; sched_case(o, A_SOFT); }
PBT_TARGET(dp_sched, "dp_sched", 20000, 200000, "DB-MENTS/DENTS/EST: Bellman equations at quiescence and empirical means." + string(SCHED_RULE)) { sched_case(only({DBMENTS, DENTS, EST}), A_DP | A_EMP); }
PBT_TARGET(dents_sched, "dents_sched", 16000, 150000, "DENTS without transpositions: entropy equations at quiescence." + string(SCHED_RULE)) { CfgOpts o = only({DENTS}); o.tt = 0; sched_case(o, A_ENT | A_EMP); }
PBT_TARGET(alg_sched, "alg_sched", 40000, 500000, "random problem, algorithm and configuration (transposition table in 2/3, logger in 1/2 of the cases) searched by 2-5 threads; no deadlock, no livelock, no unlock of a mutex not held, and a tree consistent with the recorded trials." + string(SCHED_RULE)) {
    CfgOpts o; o.tt = chance(2, 3); o.max_depth_cap = 4; ThreadedOpts to = sched_opts();
    if (chance(1, 2)) to.logger = [](const Cfg& c) { auto l = make_logger(c.alg); l->set_trials_delta(range(1, 6)); if (chance(1, 3)) l->set_runtime_delta(0.5); return l; };
    threaded_case(o, A_VISITS | A_SHAPE | A_UCT | A_EMP, small_mdp(), to);
}

// ------------------------------------------------------------------------------------------------ C19 evaluation
PBT_TARGET(mc_eval_sched, "mc_eval_sched", 20000, 250000, "as mc_eval with 2-5 threads and up to 12 rollouts per call." + string(SCHED_RULE) + " Non-trivial: at least 3 rollouts with steps") { McOpts o; o.small = true; ThreadedOpts t = sched_opts(); o.begin = [t] { t.begin(); sched::S().phase = "evaluating"; }; o.end = t.end; mc_case(range(2, 5), o); }

// ------------------------------------------------------------------------------------------------ C20 loggers
struct Row { double runtime; long visits; NodeView v; bool locked; };
struct RowSink { vector<Row> rows; long origins = 0; Cfg cfg; std::function<double()> runtime; };
template <class Base> struct RecLogger : public Base, public RowSink {
    void add_origin_entry() override { Base::add_origin_entry(); origins++; rows.push_back({0.0, 0, NodeView(), true}); }
    void log(shared_ptr<thts::ThtsDNode> n) override {
        Base::log(n); Row r; r.v = view(*n, cfg); r.visits = r.v.visits; r.runtime = runtime ? runtime() : 0; r.locked = sched::holds(n->get_lock().native_handle()); rows.push_back(r);
    }
};
static std::pair<shared_ptr<thts::ThtsLogger>, RowSink*> rec_logger(const Cfg& c, bool base) {
    auto mk = [&](auto p) -> std::pair<shared_ptr<thts::ThtsLogger>, RowSink*> { p->cfg = c; return {p, p.get()}; };
    if (base) return mk(make_shared<RecLogger<thts::ThtsLogger>>());
    if (is_uct(c.alg)) return mk(make_shared<RecLogger<thts::UctLogger>>());
    if (has_dp(c.alg)) return mk(make_shared<RecLogger<thts::DBMentsLogger>>());
    return mk(make_shared<RecLogger<thts::MentsLogger>>());
}
static bool near6(const string& s, double want, double tol_rel = 1e-5) { char* e; double g = strtod(s.c_str(), &e); if (e == s.c_str() || *e) return false; return std::fabs(g - want) <= tol_rel * std::fabs(want) + 1e-300 || (std::fabs(want) < 1e-12 && std::fabs(g) < 1e-11); }
static void check_csv(thts::ThtsLogger& lg, const RowSink& rs, bool base, const Cfg& c, bool exact_runtime, bool one_by_one = false) {   // one_by_one: a single worker and a root that is no leaf, so every visit of the root has been backed up
    std::ostringstream os; lg.write_to_ostream(os); vector<string> lines; { std::istringstream is(os.str()); string l; while (std::getline(is, l)) lines.push_back(l); }
    if (rs.rows.empty()) { PBT_CHECK(lines.empty(), "an empty logger wrote '%s'", os.str().c_str()); return; }
    PBT_CHECK(lines.size() == rs.rows.size() + 1, "the logger wrote %zu lines for %zu rows", lines.size(), rs.rows.size());
    string head = base ? "runtime,num_visits" : is_uct(c.alg) ? "runtime,num_visits,num_backups,avg_return" : has_dp(c.alg) ? "runtime,num_visits,num_backups,soft_value,dp_value" : "runtime,num_visits,num_backups,soft_value";
    PBT_CHECK(lines[0] == head, "the logger's header is '%s' instead of '%s'", lines[0].c_str(), head.c_str());
    size_t cols = 1 + std::count(head.begin(), head.end(), ','); double last_rt = -1; long last_v = -1;
    for (size_t i = 0; i < rs.rows.size(); i++) {
        const Row& r = rs.rows[i]; vector<string> f; { std::istringstream is(lines[i + 1]); string x; while (std::getline(is, x, ',')) f.push_back(x); }
        PBT_CHECK(f.size() == cols, "row %zu '%s' of the log has %zu columns instead of %zu", i, lines[i + 1].c_str(), f.size(), cols);
        auto need = [&](size_t k, double want, const char* what) { if (want == UNAV) return; if (!near6(f[k], want, r.v.exact ? 1e-5 : 1e-4)) pbt::fail("row %zu of the log reports %s %s but the root had %.12g at that moment [%s]", i, what, f[k].c_str(), want, c.str().c_str()); };
        double rt = strtod(f[0].c_str(), nullptr); long v = atol(f[1].c_str());
        if (exact_runtime) need(0, r.runtime, "runtime");
        PBT_CHECK(v == r.visits, "row %zu of the log reports %ld visits but the root had %ld at that moment", i, v, r.visits);
        PBT_CHECK(rt >= last_rt, "the runtime decreases from %g to %g at row %zu of the log", last_rt, rt, i); PBT_CHECK(v >= last_v, "the visits decrease from %ld to %ld at row %zu of the log", last_v, v, i);
        last_rt = rt; last_v = v;
        if (base) continue;
        if (i == 0) { for (size_t k = 2; k < cols; k++) need(k, 0.0, "a statistic of the origin row"); continue; }
        if (is_uct(c.alg)) { if (r.v.uct_nb >= 0) need(2, r.v.uct_nb, "backups"); need(3, r.v.uct_avg, "mean return"); }
        else { if (r.v.mb >= 0) need(2, r.v.mb, "backups"); if (one_by_one) need(2, (double)r.visits, "backups"); need(3, r.v.soft, "soft value"); if (has_dp(c.alg)) need(4, r.v.dp, "Bellman value"); }
    }
}

PBT_TARGET(logger, "logger", 24000, 400000, "one worker, virtual clock advanced by a random amount in every trial and between runs, random trial and/or runtime intervals, several run_trials calls (trial or time limited), intervals changed between runs, optional switch to a new root with a new logger: the rows must be exactly those at which the configured number of trials since the last trial-triggered row or the next runtime threshold (runtime inside runs only) is reached, with the root's true statistics, in memory and in the written table. Non-trivial: at least 2 runs and 3 logged rows") {
    TreeCase t; MdpOpts mo = small_mdp(); setup(t, mo, CfgOpts(), 40, 60); bool nt = false;
    bool base = chance(1, 8); int D = chance(1, 4) ? 0 : range(1, 12); const double u = pick({1.0, 1.0 / 64, 1024.0});   // unit of time; u/8 is a whole number of nanoseconds and of 2^-9 s
    double T = D == 0 || chance(1, 3) ? u * pick({0.25, 1.0, 2.5, 10.0}) : 0.0;
    int runs = range(1, 5); double runtime = 0; long rows_total = 0, nruns = 0;
    describe() << " base=" << base << " trials_delta=" << D << " runtime_delta=" << T << " history:"; commit_desc();
    auto [lg, sink] = rec_logger(t.c, base); Inst I2; bool second = false;
    if (D) lg->set_trials_delta(D); if (T > 0) lg->set_runtime_delta(T);
    vector<double> want_rt; long trials = 0, last = 0; double thr = T > 0 ? T : INFINITY;
    sink->runtime = [&] { return runtime; }; const int v0 = t.I.root->get_num_visits();
    int step = range(0, 3); double in_trial = 0;
    auto hook = [&](TrialRec*) { in_trial = u * (step == 0 ? 0.0 : step == 1 ? 0.125 * (double)draw(4) : step == 2 ? 0.5 * (double)draw(12) : 0.125); sched::advance(in_trial); runtime += in_trial; };
    t.I.env->on_trial_start = hook;
    // the expected rows are simulated when the next trial starts or the run ends; the single worker runs trials one after another
    std::function<void(long)> settle = [&](long upto) { (void)upto; };
    vector<double> rt_after;   // runtime after each trial
    t.I.env->on_trial_start = [&](TrialRec* r) { hook(r); rt_after.push_back(runtime); };
    struct Chg { size_t at; bool trials; int d; double t, rt; }; vector<Chg> chg;   // interval changes: after `at` trials, at runtime rt
    auto expect = [&]() {
        vector<std::pair<long, double>> w; long l = 0; double th = thr; int d = D; double tt = T; size_t c = 0;
        for (size_t i = 0; i < rt_after.size(); i++) {
            for (; c < chg.size() && chg[c].at <= i; c++) { if (chg[c].trials) d = chg[c].d; else { tt = chg[c].t; th = chg[c].rt + tt; } }
            bool row = false; if (d && (long)i + 1 - l >= d) { l = (long)i + 1; row = true; } if (tt > 0 && rt_after[i] >= th) { th += tt; row = true; } if (row) w.push_back({(long)i + 1, rt_after[i]});
        }
        return w;
    };
    auto verify = [&](thts::ThtsLogger& L, RowSink& S, Inst& I, const char* when) {
        auto w = expect();
        int base_v = v0;
        PBT_CHECK(S.origins == 1 && S.rows[0].visits == 0, "%s: the logger has %ld origin rows", when, S.origins);
        PBT_CHECK((int)S.rows.size() == L.size(), "%s: size() is %d but %zu rows were logged", when, L.size(), S.rows.size());
        for (size_t i = 0; i < std::max(w.size(), S.rows.size() - 1); i++) {
            if (i >= w.size()) pbt::fail("%s: after %zu trials the logger has an unexpected row %zu at %ld root visits (trials_delta=%d runtime_delta=%g)", when, rt_after.size(), i + 1, S.rows[i + 1].visits - base_v, D, T);
            if (i + 1 >= S.rows.size()) pbt::fail("%s: after %zu trials the row for trial %ld (runtime %g) is missing (trials_delta=%d runtime_delta=%g)", when, rt_after.size(), w[i].first, w[i].second, D, T);
            const Row& r = S.rows[i + 1];
            PBT_CHECK(r.visits - base_v == w[i].first, "%s: row %zu was logged at %ld root visits instead of after trial %ld (trials_delta=%d runtime_delta=%g)", when, i + 1, r.visits - base_v, w[i].first, D, T);
            PBT_CHECK(std::fabs(r.runtime - w[i].second) < 1e-9, "harness: runtime");
            PBT_CHECK(r.locked, "the logger was called without the root's lock");
        }
        check_csv(L, S, base, I.cfg, true, !I.m().st[I.m().init].sink && I.cfg.max_depth > 0);
        rows_total += (long)w.size(); if (w.size() >= 3) nt = true;
    };
    Inst* cur = &t.I; (void)last; (void)trials;
    sched::begin(false);
    {
        thts::ThtsPool pool(t.I.mgr, t.I.root, 1, lg); auto L = lg; RowSink* S = sink;
        for (int k = 0; k < runs; k++) {
            if (k > 0 && chance(1, 6) && !second) {
                second = true; describe() << " new_env"; size_t before = S->rows.size(); auto oldS = S; auto oldL = L;
                I2 = make_inst(t.m, t.c); I2.env->on_trial_start = t.I.env->on_trial_start; auto pr = rec_logger(t.c, base); L = pr.first; S = pr.second; if (D) L->set_trials_delta(D); if (T > 0) L->set_runtime_delta(T);
                rt_after.clear(); chg.clear(); runtime = 0; S->runtime = [&] { return runtime; }; pool.set_new_env(I2.mgr, I2.root, L); cur = &I2;
                pool.run_trials(2); PBT_CHECK(oldS->rows.size() == before, "the replaced logger still received rows"); nruns++;
                verify(*L, *S, *cur, "after switching the environment"); continue;
            }
            int n = range(0, 25); double lim = chance(1, 3) && step ? u * 0.5 * range(1, 12) : std::numeric_limits<double>::max();
            if (lim < 1e9 && step && chance(1, 2)) n = 60;
            describe() << " run(" << n << "," << (lim > 1e9 ? -1.0 : lim) << ")"; commit_desc();
            pool.run_trials(n, lim); nruns++;
            verify(*L, *S, *cur, "after a run");
            if (chance(1, 2)) { double p = u * 0.5 * (double)draw(20); describe() << " pause(" << p << ")"; sched::advance(p); }
            if (chance(1, 4)) {
                Chg c{rt_after.size(), chance(2, 3), range(1, 12), u * pick({0.25, 1.0, 2.5, 10.0}), runtime};
                if (c.trials) { L->set_trials_delta(c.d); describe() << " set_trials_delta(" << c.d << ")"; } else { L->set_runtime_delta(c.t); describe() << " set_runtime_delta(" << c.t << ")"; }
                chg.push_back(c); commit_desc();
            }
        }
    }
    sched::end();
    add("rows", (uint64_t)rows_total);
    if (nt && nruns >= 2) nontrivial();
}
PBT_TARGET(logger_threads, "logger_threads", 6000, 200000, "2-5 workers under the controlled scheduler and a moving clock: with a trial interval D the log has one origin row and floor(trials/D) further rows, logged under the root's lock, each reporting the root's statistics at that moment; runtimes and visits never decrease, across several runs. Non-trivial: at least 3 logged rows") {
    TreeCase t; setup(t, small_mdp(), CfgOpts(), 30, 40); bool base = chance(1, 8); int D = range(1, 8), threads = range(2, 5); double T = chance(1, 3) ? pick({0.5, 2.0}) : 0.0;
    describe() << " threads=" << threads << " trials_delta=" << D << " runtime_delta=" << T; commit_desc();
    auto [lg, sink] = rec_logger(t.c, base); lg->set_trials_delta(D); if (T > 0) lg->set_runtime_delta(T);
    long total = 0; int runs = range(1, 3); int base_v = t.I.root->get_num_visits();
    sched::begin(true); sched::S().clock_unit = 100000000; yield_hook() = [] { sched::yield(); };
    {
        thts::ThtsPool pool(t.I.mgr, t.I.root, threads, lg);
        for (int k = 0; k < runs; k++) {
            int n = range(0, 25); pool.run_trials(n, std::numeric_limits<double>::max(), chance(1, 2)); 
            if (chance(1, 2)) pool.join(); pool.join(); total += n;
            long rows = (long)sink->rows.size() - 1;
            if (T == 0) PBT_CHECK(rows == total / D, "after %ld trials with an interval of %d the log has %ld rows", total, D, rows); else PBT_CHECK(rows >= total / D, "after %ld trials with an interval of %d the log has only %ld rows", total, D, rows);
            PBT_CHECK(sink->origins == 1, "%ld origin rows", sink->origins);
            for (long i = 1; i <= rows; i++) { auto& r = sink->rows[i]; PBT_CHECK(r.locked, "the logger was called without the root's lock"); if (T == 0) { long v = r.visits - base_v; PBT_CHECK(v >= i * D && v <= std::min<long>(i * D + threads - 1, total), "row %ld was logged at %ld root visits, interval %d", i, v, D); } }
            check_csv(*lg, *sink, base, t.c, false);
            if (rows >= 3) nontrivial();
        }
    }
    yield_hook() = nullptr; sched::end();
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
