// ThtsPool under a controlled scheduler and a virtual clock.
#include "rec.h"
using namespace vf;

static const char* SCHED_RULE = " The pool's threads run under a controlled scheduler (random walk, sticky, or priority schedules chosen per case; spurious wake-ups in 1/6 of the cases).";

struct Pooled {
    std::unique_ptr<thts::ThtsPool> pool; vector<std::unique_ptr<RecSetup>> envs; RecSetup* E = nullptr; int threads = 1;
};
static MdpOpts small_mdp() { MdpOpts o; o.max_states = 5; o.max_actions = 3; o.max_outs = 3; o.wide = false; o.allow_deep = false; o.allow_root_sink = true; return o; }
// join, possibly also called by further threads at the same time
static void join_pool(thts::ThtsPool& pool) {
    int extra = chance(1, 6) ? range(1, 2) : 0; vector<std::thread> th; if (extra) { describe() << "(+" << extra << " joiners)"; commit_desc(); }
    for (int i = 0; i < extra; i++) th.emplace_back([&] { pool.join(); });
    pool.join(); for (auto& t : th) t.join();
}
static void check_env(RecSetup& e, long trials, const char* when) {
    PBT_CHECK((long)e.rec.t.size() == trials, "%s: %zu trials were started instead of %ld", when, e.rec.t.size(), trials);
    PBT_CHECK(e.root->get_num_visits() == trials, "%s: the root has %d visits after %ld trials", when, e.root->get_num_visits(), trials);
    long b = 0; for (auto& t : e.rec.t) if (t.ev.size() > 1) b++;
    PBT_CHECK(e.root->backups == b, "%s: the root has %ld backups after %ld trials that left it", when, e.root->backups, b);
}
static void check_protocol(RecSetup& e, size_t from, long& longest) { for (size_t i = from; i < e.rec.t.size(); i++) longest = std::max<long>(longest, check_trial(e, (int)i)); }

// ------------------------------------------------------------------------------------------------ C01
PBT_TARGET(pool_exact, "pool_exact", 25000, 250000, "random histories on one pool (1-6, rarely up to 20 threads): blocking runs, non-blocking runs followed by join, zero and small budgets, set_new_env to fresh problems, refused set_new_env while working; in half of the cases the clock moves; after every call the number of started, visited, backed-up and finished trials must be exact." + string(SCHED_RULE) + " Non-trivial: at least 2 threads, 2 runs and 4 trials") {
    MdpOpts mo = small_mdp(); auto first = make_rec(mo, 4); int threads = chance(1, 40) ? range(7, 20) : range(1, 6); int ops = range(1, 5);
    describe() << "threads=" << threads << " ops=" << ops << " " << first->str() << " history:"; commit_desc();
    vector<std::unique_ptr<RecSetup>> envs; envs.push_back(std::move(first));
    vector<std::unique_ptr<RecSetup>> fresh; int nf = range(0, 2); for (int i = 0; i < nf; i++) fresh.push_back(make_rec(mo, 4));
    std::map<RecSetup*, long> want; long total = 0, runs = 0; int64_t live0 = CtxRec::live();
    bool moving = chance(1, 2); sched::begin(moving); sched::S().clock_unit = pick({(int64_t)1000, (int64_t)1e9, (int64_t)1e13});   // time passes, no limit binds
    {
        auto* E = envs.back().get();
        sched::S().phase = "constructing the pool";
        thts::ThtsPool pool(E->mgr, E->root, threads);
        auto verify = [&](const char* when) {
            for (auto& e : envs) { if (e->rec.t.size() != (size_t)want[e.get()]) pbt::fail("%s: %zu trials were started on a root that was given %ld [%s]", when, e->rec.t.size(), want[e.get()], e->str().c_str()); check_env(*e, want[e.get()], when); long lg = 0; check_protocol(*e, 0, lg); }
            // a worker still inside a trial gives up its context when it gets to run; a context kept by an idle pool stays
            if (int64_t l = CtxRec::live(); l != live0) for (int i = 0; i < 300; i++) { sched::yield(); PBT_CHECK(CtxRec::live() >= l, "%s: returned while %ld trials are still unfinished", when, (long)(l - live0)); }
        };
        for (int k = 0; k < ops; k++) {
            int op = (int)draw(8);
            if (op <= 3) {
                int n = chance(1, 5) ? 0 : chance(1, 3) ? range(1, threads) : chance(1, 150) ? range(100, 400) : range(1, 14);
                describe() << " run(" << n << ")"; commit_desc(); sched::S().phase = "blocking run_trials";
                pool.run_trials(n); want[E] += n; total += n; runs++; verify("after a blocking run_trials");
            } else if (op <= 5) {
                int n = chance(1, 6) ? 0 : range(1, 14);
                describe() << " start(" << n << "),join"; commit_desc(); sched::S().phase = "non-blocking run_trials then join";
                pool.run_trials(n, std::numeric_limits<double>::max(), false);
                int y = range(0, 6); for (int i = 0; i < y; i++) sched::yield();
                join_pool(pool); want[E] += n; total += n; runs++; verify("after join");
                if (chance(1, 3)) { join_pool(pool); verify("after a second join"); }
            } else if (op == 6 && !fresh.empty()) {
                envs.push_back(std::move(fresh.back())); fresh.pop_back(); E = envs.back().get();
                describe() << " set_new_env"; commit_desc(); sched::S().phase = "set_new_env";
                pool.set_new_env(E->mgr, E->root);
            } else {
                // refused while working: unlimited trials, stopped by the clock
                describe() << " start(inf),set_new_env refused,expire,join"; commit_desc(); sched::S().phase = "set_new_env while working";
                sched::S().clock_moves = false; pool.run_trials(std::numeric_limits<int>::max(), 1000.0, false);
                int y = range(0, 10); for (int i = 0; i < y; i++) sched::yield();
                bool threw = false; auto other = envs.front().get();
                try { pool.set_new_env(other->mgr, other->root); } catch (const std::exception&) { threw = true; }
                PBT_CHECK(threw, "set_new_env was accepted while the pool had work left");
                sched::advance(2000.0); join_pool(pool); runs++; sched::S().clock_moves = moving;
                long got = (long)E->rec.t.size(); total += got - want[E]; want[E] = got; verify("after an expired run");
            }
        }
        sched::S().phase = "destroying the pool";
    }
    sched::end();
    for (auto& e : envs) check_env(*e, want[e.get()], "after destruction");
    add("trials", (uint64_t)total); add("schedule_steps", sched::S().steps); add("memory_access_preemptions", sched::S().preemptions); add("context_switches", sched::S().switches);
    if (threads >= 2 && runs >= 2 && total >= 4) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C02
PBT_TARGET(pool_term, "pool_term", 100000, 500000, "random histories on one pool (1-5 threads) with trial and time limits while the virtual clock jumps at arbitrary scheduling points; blocking runs, non-blocking runs with join or destruction at any point. Oracle: no deadlock and no livelock under fair scheduling; a run with fewer trials than requested ends only after its time limit, each worker starts at most one trial after expiry, zero/negative limits run nothing." + string(SCHED_RULE) + " Non-trivial: at least 2 threads and a finite time limit expired or a pool destroyed while working") {
    MdpOpts mo = small_mdp(); auto E = make_rec(mo, 3); int threads = range(1, 5); int ops = range(1, 4); bool nt = false;
    describe() << "threads=" << threads << " " << E->str() << " history:"; commit_desc();
    double unit = chance(1, 3) ? pick({1e-7, 1e-6, 1e-3, 1e3, 1e5}) : 1.0;   // seconds per clock step
    sched::begin(true); sched::S().clock_unit = (int64_t)(unit * 1e9);
    {
        sched::S().phase = "constructing the pool";
        thts::ThtsPool pool(E->mgr, E->root, threads);
        for (int k = 0; k < ops; k++) {
            int n = chance(1, 8) ? range(-2, 0) : chance(1, 5) ? 100000000 : range(1, 12);
            double T = chance(1, 3) && n < 1000 ? std::numeric_limits<double>::max() : unit * pick({0.0, -1.0, 0.5, 1.0, 2.0, 3.0, 5.0, 10.0, 40.0});
            size_t before = E->rec.t.size(); int64_t t0 = sched::S().now;
            int op = (int)draw(8); bool last = k == ops - 1;
            describe() << (op <= 4 ? " run(" : last && op == 7 ? " start+destroy(" : " start+join(") << n << "," << T << ")"; commit_desc();
            if (op <= 4) { sched::S().phase = "blocking run_trials"; if (T > 1e300 && chance(1, 2)) pool.run_trials(n); else pool.run_trials(n, T); }
            else {
                sched::S().phase = "non-blocking run_trials"; pool.run_trials(n, T, false);
                int y = range(0, 8); for (int i = 0; i < y; i++) sched::yield();
                if (last && op == 7) { sched::S().phase = "destroying a working pool"; if (threads > 1) nt = true; break; }
                sched::S().phase = "join"; join_pool(pool);
            }
            long got = (long)(E->rec.t.size() - before); int64_t t1 = sched::S().now;
            bool limited = T < 1e300; long req = std::max(0, n);
            PBT_CHECK(got <= req, "%ld trials ran although at most %ld were requested", got, req);
            if (T <= 0) PBT_CHECK(got == 0, "%ld trials ran with a time limit of %g s", got, T);
            if (!limited) PBT_CHECK(got == req, "%ld of %ld trials ran without a time limit", got, req);
            if (limited && got < req) { PBT_CHECK((double)(t1 - t0) >= T * 1e9 - 1, "the run ended after %.3f s with %ld of %ld trials although its time limit is %g s", (double)(t1 - t0) / 1e9, got, req, T); if (threads > 1) nt = true; label("expired"); }
            if (limited && got > 0) {
                int64_t exp = E->rec.t[before].start + (int64_t)(T * 1e9); std::map<int, int> late;
                for (size_t i = before; i < E->rec.t.size(); i++) if (E->rec.t[i].start >= exp && ++late[E->rec.t[i].thread] > 1) pbt::fail("worker %d started %d trials after the time limit of %g s had expired", E->rec.t[i].thread, late[E->rec.t[i].thread], T);
            }
        }
        if (chance(1, 2)) { int y = range(0, 6); for (int i = 0; i < y; i++) sched::yield(); }
    }
    sched::end();
    long lg = 0; check_protocol(*E, 0, lg); check_env(*E, (long)E->rec.t.size(), "after destruction");
    add("trials", E->rec.t.size()); add("schedule_steps", sched::S().steps); add("memory_access_preemptions", sched::S().preemptions); add("spurious_wakeups", sched::S().spurious);
    if (nt) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C03 (and per-trial contexts for C22)
static void protocol_case(bool eager) {
    MdpOpts mo; mo.wide = false; mo.max_actions = 4; mo.allow_root_sink = true; const bool chain = chance(1, 150); if (chain) { mo.chain = range(60, 180); mo.max_actions = 1; mo.force_deterministic = 1; mo.force_layered = 1; mo.allow_zero_probs = false; label("chain"); }
    auto E = make_rec(mo, 8, eager); int threads = chance(1, 3) ? 1 : range(2, 6); int n = chain ? range(60, 190) : range(1, 40);
    describe() << "threads=" << threads << " trials=" << n << " " << E->str(); commit_desc();
    sched::begin(chance(1, 3)); sched::S().clock_unit = (int64_t)1e9;
    { thts::ThtsPool pool(E->mgr, E->root, threads); sched::S().phase = "run"; int a = range(0, n); pool.run_trials(a); pool.run_trials(n - a); sched::S().phase = "destroy"; }
    sched::end();
    check_env(*E, n, "after the search"); long lg = 0; check_protocol(*E, 0, lg);
    std::set<const void*> ctxs; 
    add("trials", n); add("lock_checks", (uint64_t)E->rec.lock_checks); add("schedule_steps", sched::S().steps); add("memory_access_preemptions", sched::S().preemptions);
    if (n >= 3 && lg >= 3) nontrivial();
}
PBT_TARGET(protocol, "protocol", 40000, 400000, "random problems searched with user-defined recording nodes (1-6 threads, MCTS mode on/off, depth limits, heuristics, transposition tables): the sequence, arguments, context, thread and lock ownership of every visit/select/sample/backup call of every trial is compared with the protocol." + string(SCHED_RULE) + " Non-trivial: at least 3 trials and one of at least 3 decision nodes") { protocol_case(false); }
PBT_TARGET(protocol_any, "protocol_any", 60000, 400000, "random problems searched with user-defined recording nodes, some creating children while they are visited (1-6 threads, MCTS mode on/off, depth limits, heuristics, transposition tables): the sequence, arguments, context, thread and lock ownership of every visit/select/sample/backup call of every trial is compared with the protocol." + string(SCHED_RULE) + " Non-trivial: at least 3 trials and one of at least 3 decision nodes") { protocol_case(true); }

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
