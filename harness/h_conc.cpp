// Free-running threads with random delays under ThreadSanitizer: data races in pool, nodes, tables, loggers and evaluator.
#include "treeutil.h"
#include "loggers.h"
#include "mc_eval.h"
using namespace vf;

static thread_local uint64_t jit = 0;
static std::atomic<uint64_t> jit_seed{1};
static int jit_den = 8;
static void jitter() {
    if (!jit) jit = pbt::mix(jit_seed.fetch_add(0x9e37) + (uint64_t)std::hash<std::thread::id>()(std::this_thread::get_id())) | 1;
    jit ^= jit << 13; jit ^= jit >> 7; jit ^= jit << 17;
    if (jit % jit_den) return;
    switch ((jit >> 20) % 4) { case 0: case 1: sched_yield(); break; case 2: for (volatile int i = 0; i < (int)((jit >> 30) % 400); i = i + 1) {} break; default: { struct timespec ts{0, (long)((jit >> 30) % 60000)}; nanosleep(&ts, nullptr); } }
}
struct Jit { Jit() { jit_seed = draw(1u << 30) + 1; jit_den = pick({4, 16, 64, 1000000}); yield_hook() = jitter; } ~Jit() { yield_hook() = nullptr; } };

static shared_ptr<thts::ThtsLogger> maybe_logger(const Cfg& c) { if (chance(1, 2)) return nullptr; auto l = make_logger(c.alg); l->set_trials_delta(range(1, 5)); if (chance(1, 4)) l->set_runtime_delta(0.0001); return l; }
static void verify_tree(Inst& I, int want) {
    Ref R(I.env->m, I.cfg); replay_all(R, *I.env, 0, false); PBT_CHECK((int)I.env->trials.size() == want, "%zu trials were run instead of %d", I.env->trials.size(), want);
    Cmp C(I, R, A_VISITS | A_UCT | A_EMP | A_SHAPE); C.d(*I.root, R.root, "root"); add("nodes_compared", C.nd + C.nc);
}
static void read_everything(Inst& I) {   // what a caller may do with a quiescent tree
    auto ctx = I.env->sample_context_itfc(I.env->state(I.m().init)); I.env->trials.pop_back(); I.env->contexts--; MdpEnv::tl().erase(I.env.get());
    I.root->get_pretty_print_string(2); I.root->get_num_visits(); if (!I.m().st[I.m().init].sink && I.cfg.max_depth > 0 && I.root->get_num_children() > 0) I.root->recommend_action_itfc(*ctx);
}
static MdpOpts conc_mdp() { MdpOpts o; o.wide = chance(1, 3); return o; }

PBT_TARGET(races, "races", 1500, 60000, "ThreadSanitizer build, free-running threads with random delays: random problem, algorithm (transposition tables in half the cases) and configuration on a pool of 2-8 threads; random histories of blocking, non-blocking, time-limited and zero-length runs, joins, new environments (also attempted while the pool works), loggers, reading and printing the tree when idle, destruction while working. No data race, no deadlock, and every tree consistent with its recorded trials. Non-trivial: at least 20 trials by 2 or more threads", t.deterministic = false) {
    Jit j; CfgOpts o; o.tt = chance(1, 2); MdpOpts mo = conc_mdp(); TreeCase t; setup(t, mo, o, 100, 300); int threads = range(2, 8), ops = range(1, 5), total = 0, switched = 0; describe() << " threads=" << threads << " history:"; commit_desc();
    auto cur = std::make_shared<Inst>(t.I); vector<std::pair<shared_ptr<Inst>, int>> done; auto lg = maybe_logger(t.c); bool unknown = false;
    {
        thts::ThtsPool pool(cur->mgr, cur->root, threads, lg);
        for (int k = 0; k < ops; k++) {
            int n = chance(1, 8) ? 0 : range(1, t.n + 5), op = range(0, 6); describe() << " " << op << ":" << n; commit_desc();
            switch (op) {
                case 0: case 1: pool.run_trials(n); total += n; read_everything(*cur); if (lg) { std::ostringstream os; lg->write_to_ostream(os); } break;
                case 2: pool.run_trials(n, std::numeric_limits<double>::max(), false); pool.join(); total += n; break;
                case 3: { // switch environment, possibly while the pool is still working: it either refuses or takes effect only for later runs
                    pool.run_trials(n, std::numeric_limits<double>::max(), false); total += n; if (chance(1, 2)) pool.join();
                    auto nx = std::make_shared<Inst>(make_inst(t.m, t.c)); auto nl = maybe_logger(t.c); bool ok = true;
                    try { pool.set_new_env(nx->mgr, nx->root, nl); } catch (const std::runtime_error&) { ok = false; }
                    if (ok) { done.push_back({cur, total}); cur = nx; lg = nl; total = 0; switched++; } else pool.join();
                    break; }
                case 4: pool.run_trials(n, 0.002); unknown = true; pool.join(); total = (int)cur->env->trials.size(); PBT_CHECK(total >= 0, "x"); break;
                case 5: pool.run_trials(n, std::numeric_limits<double>::max(), false); pool.join(); pool.join(); total += n; read_everything(*cur); break;
                default: pool.run_trials(n); total += n;
            }
        }
        if (chance(1, 4)) { pool.run_trials(range(1, 60), std::numeric_limits<double>::max(), false); describe() << " destroyed while working"; total = -1; }
    }
    if (total < 0) total = (int)cur->env->trials.size();
    verify_tree(*cur, total); for (auto& d : done) verify_tree(*d.first, d.second); (void)unknown;
    long all = (long)cur->env->trials.size(); for (auto& d : done) all += d.second; if (switched) label("new environment"); if (all >= 20) nontrivial();
}
PBT_TARGET(races_eval, "races_eval", 600, 12000, "ThreadSanitizer build: a searched tree of a random algorithm evaluated by 2-6 rollout threads with random delays, several calls. No data race; the number of rollouts is exact. Non-trivial: at least 10 rollouts", t.deterministic = false) {
    Jit j; TreeCase t; setup(t, conc_mdp(), CfgOpts(), 60, 200); run_pool(t.I, t.n, range(1, 3)); int len = range(1, 15), threads = range(2, 6), calls = range(1, 3); size_t base = t.I.env->trials.size(); long tot = 0; describe() << " len=" << len << " threads=" << threads; commit_desc();
    if (t.I.root->get_num_children() == 0) return;
    thts::EvalPolicy pol(t.I.root, t.I.env, *t.I.mgr); thts::MCEvaluator ev(t.I.env, pol, len, *t.I.mgr);
    for (int k = 0; k < calls; k++) { int r = range(0, 40); ev.run_rollouts(r, threads); tot += r; if (tot) ev.get_mean_return(); if (tot > 1) ev.get_stddev_return(); }
    PBT_CHECK((long)(t.I.env->trials.size() - base) == tot, "%zu rollouts instead of %ld", t.I.env->trials.size() - base, tot); if (tot >= 10) nontrivial();
}
PBT_TARGET(races_share, "races_share", 800, 15000, "ThreadSanitizer build: two pools with 1-4 threads each, searching at the same time different roots of one manager (sharing its random numbers and transposition table) or the same root; random delays. No data race, and visit counts match the recorded trials. Non-trivial: both pools run at least 10 trials", t.deterministic = false) {
    Jit j; CfgOpts o; o.tt = chance(2, 3); TreeCase t; setup(t, conc_mdp(), o, 60, 150); int n2 = range(1, 60); describe() << " second pool=" << n2; commit_desc();
    auto other = t.I.root; { thts::ThtsPool a(t.I.mgr, t.I.root, range(1, 4)), b(t.I.mgr, other, range(1, 4)); a.run_trials(t.n, std::numeric_limits<double>::max(), false); b.run_trials(n2, std::numeric_limits<double>::max(), false); a.join(); b.join(); }
    verify_tree(t.I, t.n + n2); if (t.n >= 10 && n2 >= 10) nontrivial();
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
