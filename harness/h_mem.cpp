// Lifetimes: random orders of creating, searching, evaluating, printing and dropping everything a user can hold.
// Oracle: AddressSanitizer/UBSan; a node is alive exactly when it is reachable from something still held; managers, environments and
// contexts die with their last user; repeating the whole lifetime never increases the number of allocated bytes.
#include "treeutil.h"
#include "loggers.h"
#include "mc_eval.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VF_BYTES() ((long)__sanitizer_get_current_allocated_bytes())
#endif
#endif
#ifndef VF_BYTES
#include <malloc.h>
#define VF_BYTES() ((long)mallinfo2().uordblks)
#endif
using namespace vf;
using DP = shared_ptr<thts::ThtsDNode>; using CP = shared_ptr<thts::ThtsCNode>;

struct Prob { MdpM m; Cfg c; };
struct Op { int kind, x, y, z; };
struct World {
    Prob* p; shared_ptr<MdpEnv> env; shared_ptr<thts::ThtsManager> mgr; DP root; std::unique_ptr<thts::ThtsPool> pool; DP pool_root; shared_ptr<thts::ThtsManager> pool_mgr; shared_ptr<thts::ThtsLogger> logger;
    vector<std::pair<DP, int>> kept_d; vector<std::tuple<CP, int, int>> kept_c; std::unique_ptr<thts::EvalPolicy> pol; DP pol_root;   // with model state
    vector<std::weak_ptr<thts::ThtsDNode>> wd; vector<std::weak_ptr<thts::ThtsCNode>> wc; std::weak_ptr<MdpEnv> wenv; std::weak_ptr<thts::ThtsManager> wmgr; std::set<void*> known;
    vector<std::weak_ptr<const thts::Action>> dummy; const MdpEnv* maker = nullptr; shared_ptr<MdpEnv> helper_env; int pool_state = 0, root_state = 0;
};
struct Scan { std::set<void*> alive; long nodes = 0; };
static void scan_d(World& w, const DP& n, int s, Scan& S);
static void scan_c(World& w, const CP& n, int s, int label, Scan& S) {
    if (!S.alive.insert(n.get()).second) return;
    S.nodes++; if (w.known.insert(n.get()).second) w.wc.push_back(n);
    for (auto& o : w.p->m.act(s, label).outs) { auto ob = std::static_pointer_cast<const thts::Observation>(w.helper_env->make_state(o.first)); if (n->has_child_node_itfc(ob)) scan_d(w, n->get_child_node_itfc(ob), o.first, S); }
}
static void scan_d(World& w, const DP& n, int s, Scan& S) {
    if (!S.alive.insert(n.get()).second) return;
    S.nodes++; if (w.known.insert(n.get()).second) w.wd.push_back(n);
    for (auto& a : w.p->m.st[s].acts) { auto ac = w.helper_env->make_action(a.label); if (n->has_child_node_itfc(ac)) scan_c(w, n->get_child_node_itfc(ac), s, a.label, S); }
}
static long check_world(World& w, const char* when) {
    Scan S;
    if (w.root) scan_d(w, w.root, w.root_state, S);
    if (w.pool_root) scan_d(w, w.pool_root, w.pool_state, S);
    if (w.pol_root) scan_d(w, w.pol_root, w.root_state, S);
    for (auto& k : w.kept_d) scan_d(w, k.first, k.second, S);
    for (auto& k : w.kept_c) scan_c(w, std::get<0>(k), std::get<1>(k), std::get<2>(k), S);
    for (auto& x : w.wd) if (auto p = x.lock()) if (!S.alive.count(p.get())) pbt::fail("%s: a decision node is still alive although nothing the user holds reaches it [%s]", when, w.p->c.str().c_str());
    for (auto& x : w.wc) if (auto p = x.lock()) if (!S.alive.count(p.get())) pbt::fail("%s: a chance node is still alive although nothing the user holds reaches it [%s]", when, w.p->c.str().c_str());
    std::erase_if(w.wd, [&](auto& x) { return x.expired(); }); std::erase_if(w.wc, [&](auto& x) { return x.expired(); });
    w.known.clear(); for (auto& x : w.wd) w.known.insert(x.lock().get()); for (auto& x : w.wc) w.known.insert(x.lock().get());
    bool any_node = S.nodes > 0;
    if (!any_node && !w.mgr && !w.pool_mgr && !w.pol && !w.wmgr.expired()) pbt::fail("%s: the manager is still alive although nothing holds it [%s]", when, w.p->c.str().c_str());
    if (!any_node && !w.mgr && !w.pool_mgr && !w.pol && !w.env && !w.wenv.expired()) pbt::fail("%s: the environment is still alive although nothing holds it [%s]", when, w.p->c.str().c_str());
    return S.nodes;
}
static bool leaf_state(World& w, thts::ThtsDNode& n, int s) { return w.p->m.st[s].sink || n.get_num_children() == 0; }
static DP handle(World& w, int y, int& s) {   // some decision node the user holds
    vector<std::pair<DP, int>> h; if (w.root) h.push_back({w.root, w.root_state}); for (auto& k : w.kept_d) h.push_back(k);
    if (h.empty()) return nullptr; s = h[y % h.size()].second; return h[y % h.size()].first;
}
static void walk_to(World& w, DP n, int s, int z, DP& dn, int& ds, CP& cn, int& cs, int& cl) {
    dn = n; ds = s; uint64_t r = pbt::mix(z + 17);
    for (int k = 0; k < 1 + z % 5; k++) {
        vector<int> ls; for (auto& a : w.p->m.st[ds].acts) if (dn->has_child_node_itfc(w.helper_env->make_action(a.label))) ls.push_back(a.label);
        if (ls.empty()) return;
        cl = ls[r % ls.size()]; r = pbt::mix(r); cs = ds; cn = dn->get_child_node_itfc(w.helper_env->make_action(cl));
        vector<int> os; for (auto& o : w.p->m.act(cs, cl).outs) if (cn->has_child_node_itfc(std::static_pointer_cast<const thts::Observation>(w.helper_env->make_state(o.first)))) os.push_back(o.first);
        if (os.empty()) return;
        ds = os[r % os.size()]; r = pbt::mix(r); dn = cn->get_child_node_itfc(std::static_pointer_cast<const thts::Observation>(w.helper_env->make_state(ds)));
    }
}
static void drop(World& w, int k) {
    switch (k) {
        case 0: w.env.reset(); break;
        case 1: w.mgr.reset(); break;
        case 2: w.root.reset(); break;
        case 3: w.pool.reset(); w.pool_root.reset(); w.pool_mgr.reset(); break;
        case 4: w.logger.reset(); break;
        case 5: w.kept_d.clear(); break;
        case 6: w.kept_c.clear(); break;
        default: w.pol.reset(); w.pol_root.reset();
    }
}
struct Totals { long nodes = 0, drops = 0, runs = 0, post = 0; };
static void lifetime(vector<Prob>& probs, const vector<Op>& ops, Totals& T) {
    vector<std::unique_ptr<World>> ws;
    auto fresh = [&](Prob& p) {
        auto w = std::make_unique<World>(); w->p = &p; Inst I = make_inst(p.m, p.c); w->env = I.env; w->mgr = I.mgr; w->root = I.root; w->wenv = I.env; w->wmgr = I.mgr; w->root_state = p.m.init; w->helper_env = make_shared<MdpEnv>(p.m);
        w->env->record = false; w->env->fuel = 40000000ull; return w;
    };
    for (auto& p : probs) ws.push_back(fresh(p));
    for (auto& o : ops) {
        World& w = *ws[o.x % ws.size()]; int s = 0;
        switch (o.kind) {
            case 0: { // start a pool on a node we hold (on its own root for RENTS, which needs the parent's policy below the root)
                DP n = handle(w, w.p->c.alg == RENTS ? 0 : o.y, s); auto m = w.mgr ? w.mgr : w.pool_mgr; if (!n || !m || (w.p->c.alg == RENTS && n != w.root)) break;
                if (!w.logger && o.z % 2) { w.logger = make_logger(w.p->c.alg); w.logger->set_trials_delta(1 + o.z % 7); }
                w.pool.reset(); w.pool = std::make_unique<thts::ThtsPool>(m, n, 1 + o.z % 3, w.logger); w.pool_root = n; w.pool_mgr = m; w.pool_state = s; break; }
            case 1: case 2: if (w.pool) { w.pool->run_trials(1 + o.z % 40, std::numeric_limits<double>::max(), o.y % 4 != 0); w.pool->join(); T.runs++; } break;
            case 3: { DP n = handle(w, o.y, s); if (!n) break; DP d; CP c; int ds = 0, cs = 0, cl = 0; walk_to(w, n, s, o.z, d, ds, c, cs, cl); if (o.z % 3 && d) w.kept_d.push_back({d, ds}); else if (c) w.kept_c.push_back({c, cs, cl}); break; }
            case 4: case 5: drop(w, o.y % 8); T.drops++; break;
            case 6: { DP n = handle(w, o.y, s); if (n) { n->get_pretty_print_string(o.z % 4); if (!leaf_state(w, *n, s)) { thts::ThtsEnvContext ctx; w.helper_env->aid(n->recommend_action_itfc(ctx).get()); } if (!w.root) T.post++; } if (!w.kept_c.empty()) std::get<0>(w.kept_c[o.z % w.kept_c.size()])->get_pretty_print_string(o.y % 3); break; }
            case 7: { // evaluate
                if (!w.root || leaf_state(w, *w.root, w.root_state)) break;
                auto m = w.wmgr.lock(); auto e = w.wenv.lock(); if (!m || !e || !w.mgr) break;
                w.pol = std::make_unique<thts::EvalPolicy>(w.root, e, *w.mgr); w.pol_root = w.root; thts::MCEvaluator ev(e, *w.pol, o.z % 3 ? 1 + o.z % 8 : 40, *w.mgr); ev.run_rollouts(o.z % 9, 1 + o.y % 3); if (o.z % 9) ev.get_mean_return(); break; }
            case 8: if (w.mgr) { std::ostringstream os; os << w.mgr->dmap; if (w.logger) w.logger->write_to_ostream(os); } break;
            case 9: { // a new root for the same manager, given to the running pool or replacing the user's root
                if (!w.mgr) break; Inst I; I.cfg = w.p->c; I.env = w.wenv.lock(); I.mgr = w.mgr; DP n = make_root(I);
                if (w.pool && o.y % 2) { w.pool->set_new_env(w.mgr, n, w.logger); w.pool_root = n; w.pool_mgr = w.mgr; w.pool_state = w.root_state; } w.root = n; break; }
            case 10: { // hand one world's pool to another world's problem
                World& v = *ws[o.y % ws.size()]; if (&v == &w || !v.pool || !w.mgr || !w.root || v.logger) break;
                // the pool now belongs to w
                v.pool->set_new_env(w.mgr, w.root, nullptr); w.pool.reset(); w.pool = std::move(v.pool); w.pool_root = w.root; w.pool_mgr = w.mgr; w.pool_state = w.root_state; v.pool_root.reset(); v.pool_mgr.reset(); break; }
            default: { // replace the whole world by a fresh search of the same problem
                int order = o.y; for (int k = 0; k < 8; k++) drop(w, (k * 5 + order) % 8); check_world(w, "after dropping everything"); PBT_CHECK(w.wmgr.expired() && w.wenv.expired(), "manager or environment outlives everything the user held [%s]", w.p->c.str().c_str()); ws[o.x % ws.size()] = fresh(*w.p); T.drops++; }
        }
        for (auto& x : ws) T.nodes = std::max(T.nodes, check_world(*x, "after an operation"));
        { long pools = 0; for (auto& x : ws) pools += x->pool != nullptr; PBT_CHECK(CtxRec::live() <= 8 * pools, "%ld trial contexts are still alive although no trial is running", (long)CtxRec::live()); }   // at most one per idle worker
    }
    for (auto& w : ws) { int order = ops.empty() ? 0 : ops.back().z; for (int k = 0; k < 8; k++) { drop(*w, (k * 3 + order) % 8); check_world(*w, "while dropping everything"); } PBT_CHECK(w->wd.empty() && w->wc.empty() && w->wmgr.expired() && w->wenv.expired(), "something outlives everything the user held"); }
    ws.clear(); PBT_CHECK(CtxRec::live() == 0, "%ld trial contexts are still alive although everything was dropped", (long)CtxRec::live());
    PBT_CHECK(MdpEnv::live() == 0 && live_managers() == 0, "%ld environments and %ld managers are alive at the end", (long)MdpEnv::live(), live_managers());
}
PBT_TARGET(lifetimes, "lifetimes", 12000, 300000, "AddressSanitizer/UBSan build: 1-2 random problems and algorithms with everything a user can hold (environment, manager, root, pool, logger, evaluation policy, inner decision and chance nodes), 3-20 random operations: start pools (also on inner nodes), run, keep subtrees, drop handles in any order, print, recommend, evaluate, print the transposition table, new roots, moving pools. No invalid access; nodes, managers, environments and contexts live exactly as long as something reaches them; repeating the lifetime does not grow the heap. Non-trivial: at least 10 nodes, 2 drops and 1 run", (void)0) {
    vector<Prob> probs(range(1, 2)); MdpOpts mo; mo.wide = chance(1, 6); CfgOpts co; if (chance(1, 2)) co.tt = 1;
    for (auto& p : probs) { p.m = gen_mdp(mo); p.c = gen_cfg(p.m, co); describe() << p.c.str() << " " << p.m.str() << " "; label(alg_name(p.c.alg)); if (p.c.tt) label("tt"); }
    vector<Op> ops; int n = range(3, 20); for (int i = 0; i < n; i++) { Op o{range(0, 12), range(0, 3), range(0, 30), range(0, 60)}; if (i < 2) o.kind = i; ops.push_back(o); describe() << " (" << o.kind << "," << o.x << "," << o.y << "," << o.z << ")"; }
    commit_desc(); Totals T; long b[4]; int reps = 0, grow = 0;
    for (int k = 0; k < 4; k++) { lifetime(probs, ops, T); b[k] = VF_BYTES(); reps++; if (k >= 1 && b[k] > b[k - 1]) grow++; if (k >= 1 && grow == 0) break; }
    add("lifetimes_run", reps);
    PBT_CHECK(grow < 3, "every repetition of the same lifetime leaves more memory allocated: %ld, %ld, %ld, %ld bytes", b[0], b[1], b[2], b[3]);
    if (T.nodes >= 10 && T.drops >= 2 && T.runs >= 1) nontrivial(); if (T.post) label("subtree used after its root was dropped");
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
