// User-defined recording nodes for driving ThtsPool, and the oracle for the protocol of a trial.
#pragma once
#include "ctlsched.h"
#include "mdp.h"
#include "thts.h"
#include "thts_chance_node.h"
#include "thts_decision_node.h"
#include "thts_manager.h"

namespace vf {
using namespace pbt;
struct RecD; struct RecC;
struct Ev { char k; const void* node; const void* chosen = nullptr; int label = -1; bool grew = false; int nth = 0; vector<double> before, after; double ra = 0, rt = 0; };
struct TrialLog { vector<Ev> ev; const void* ctx = nullptr; int thread = -1; int64_t start = 0; const void* root = nullptr; int state = -1; };
struct Rec {   // everything observed on one environment
    std::deque<TrialLog> t;   // references stay valid
    bool puts = true;
    bool eager = false;   // chance nodes already create a child while they are visited
    std::map<const void*, std::pair<int, int>> dnodes;   // decision node -> state, depth
    std::map<const void*, double> heur;
    long lock_checks = 0;
};
struct RecMgr : public thts::ThtsManager {
    Rec* rec; RecMgr(const thts::ThtsManagerArgs& a, Rec* r) : thts::ThtsManager(a), rec(r) {}
};
inline TrialLog& log_of(Rec& r, thts::ThtsEnvContext& ctx, const char* what) {
    auto* c = dynamic_cast<CtxRec*>(&ctx); if (!c || c->trial_id < 0 || c->trial_id >= (int)r.t.size()) pbt::fail("%s received a context that is not one sampled for a trial", what);
    TrialLog& l = r.t[c->trial_id];
    if (l.ctx == nullptr) { l.ctx = &ctx; if (r.puts) ctx.put_value("owner", make_shared<int>(c->trial_id)); }
    if (l.ctx != &ctx) pbt::fail("%s received a different context object than earlier calls of trial %d", what, c->trial_id);
    if (l.thread != sched::tid()) pbt::fail("%s for trial %d runs on thread %d although thread %d sampled the trial's context", what, c->trial_id, sched::tid(), l.thread);
    if (r.puts && ctx.get_value<int>("owner") != c->trial_id) pbt::fail("the context of trial %d holds the value stored by trial %d", c->trial_id, ctx.get_value<int>("owner"));
    return l;
}
template <class N> void check_lock(Rec& r, N& n, const char* what) {
    r.lock_checks++;
    if (sched::active() && !sched::holds(n.get_lock().native_handle())) pbt::fail("%s called without holding the node's lock", what);
}
struct RecC : public thts::ThtsCNode {
    Rec& rec; int s, a, base; int visits_seen = 0;
    RecC(shared_ptr<thts::ThtsManager> m, shared_ptr<const thts::State> st, shared_ptr<const thts::Action> ac, int dd, int dt, shared_ptr<const thts::ThtsDNode> p)
        : thts::ThtsCNode(m, st, ac, dd, dt, p), rec(*static_cast<RecMgr&>(*m).rec), base(0) { auto& e = static_cast<MdpEnv&>(*m->thts_env); s = e.sid(st.get()); a = e.aid(ac.get()); }
    void visit_itfc(thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "chance node visit"); TrialLog& l = log_of(rec, ctx, "chance node visit");
        l.ev.push_back({'v', this}); base = (int)children.size(); thts::ThtsCNode::visit_itfc(ctx);
        if (rec.eager && chance(1, 2)) {
            auto& e = static_cast<MdpEnv&>(*thts_manager->thts_env); auto& outs = e.m.act(s, a).outs;
            int s2 = outs[draw(outs.size())].first; auto ob = e.obs(s2, e.po ? (int)draw(e.po) : 0);
            if (!has_child_node_itfc(ob)) create_child_node_itfc(ob, e.po ? e.state(s2) : std::static_pointer_cast<const thts::State>(ob));
        }
        sched::yield(); visits_seen++;
    }
    shared_ptr<const thts::Observation> sample_observation_itfc(thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "sample_observation"); TrialLog& l = log_of(rec, ctx, "sample_observation");
        auto& e = static_cast<MdpEnv&>(*thts_manager->thts_env); auto& outs = e.m.act(s, a).outs;
        int k = (int)draw(outs.size()), n = e.po ? (int)draw(e.po) : 0; auto ob = e.obs(outs[k].first, n);
        if (!has_child_node_itfc(ob)) create_child_node_itfc(ob, e.po ? e.state(outs[k].first) : std::static_pointer_cast<const thts::State>(ob));
        sched::yield();
        Ev v{'s', this}; v.chosen = children.at(ob).get(); v.label = outs[k].first; v.nth = n; v.grew = (int)children.size() > base; l.ev.push_back(v);
        return ob;
    }
    void backup_itfc(const vector<double>& b, const vector<double>& af, const double ra, const double rt, thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "chance node backup"); TrialLog& l = log_of(rec, ctx, "chance node backup");
        Ev v{'b', this}; v.before = b; v.after = af; v.ra = ra; v.rt = rt; l.ev.push_back(v); sched::yield();
    }
    shared_ptr<thts::ThtsDNode> create_child_node_helper_itfc(shared_ptr<const thts::Observation> o, shared_ptr<const thts::State> ns) const override;
    string get_pretty_print_val() const override { return "c" + std::to_string(s) + "/" + std::to_string(a); }
};
struct RecD : public thts::ThtsDNode {
    Rec& rec; int s; long backups = 0;
    RecD(shared_ptr<thts::ThtsManager> m, shared_ptr<const thts::State> st, int dd, int dt, shared_ptr<const thts::ThtsCNode> p = nullptr)
        : thts::ThtsDNode(m, st, dd, dt, p), rec(*static_cast<RecMgr&>(*m).rec) { s = static_cast<MdpEnv&>(*m->thts_env).sid(st.get()); rec.dnodes[this] = {s, dd}; }
    void visit_itfc(thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "decision node visit"); TrialLog& l = log_of(rec, ctx, "decision node visit"); l.ev.push_back({'V', this}); thts::ThtsDNode::visit_itfc(ctx); sched::yield();
    }
    shared_ptr<const thts::Action> select_action_itfc(thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "select_action"); TrialLog& l = log_of(rec, ctx, "select_action");
        auto& e = static_cast<MdpEnv&>(*thts_manager->thts_env); auto& acts = e.m.st[s].acts;
        if (acts.empty()) pbt::fail("select_action called at a state without actions");
        int k = (int)draw(acts.size()); auto a = e.action(acts[k].label);
        if (!has_child_node_itfc(a)) create_child_node_itfc(a);
        sched::yield();
        Ev v{'S', this}; v.chosen = children.at(a).get(); v.label = acts[k].label; l.ev.push_back(v); return a;
    }
    shared_ptr<const thts::Action> recommend_action_itfc(thts::ThtsEnvContext&) const override { return nullptr; }
    void backup_itfc(const vector<double>& b, const vector<double>& af, const double ra, const double rt, thts::ThtsEnvContext& ctx) override {
        check_lock(rec, *this, "decision node backup"); TrialLog& l = log_of(rec, ctx, "decision node backup"); backups++;
        Ev v{'B', this}; v.before = b; v.after = af; v.ra = ra; v.rt = rt; l.ev.push_back(v); sched::yield();
    }
    shared_ptr<thts::ThtsCNode> create_child_node_helper_itfc(shared_ptr<const thts::Action> a) const override {
        return make_shared<RecC>(thts_manager, state, a, decision_depth, decision_timestep, std::static_pointer_cast<const thts::ThtsDNode>(shared_from_this()));
    }
    string get_pretty_print_val() const override { return "d" + std::to_string(s); }
};
inline shared_ptr<thts::ThtsDNode> RecC::create_child_node_helper_itfc(shared_ptr<const thts::Observation> o, shared_ptr<const thts::State> ns) const {
    return make_shared<RecD>(thts_manager, static_cast<MdpEnv&>(*thts_manager->thts_env).po ? ns : std::static_pointer_cast<const thts::State>(o), decision_depth + 1, decision_timestep + 1, std::static_pointer_cast<const thts::ThtsCNode>(shared_from_this()));
}

struct RecSetup {
    shared_ptr<MdpEnv> env; shared_ptr<RecMgr> mgr; shared_ptr<RecD> root; Rec rec; int max_depth; bool mcts; int heur; bool tt;
    string str() const { std::ostringstream o; o << "max_depth=" << max_depth << " mcts=" << mcts << " heur=" << heur << " tt=" << tt << " eager=" << rec.eager << " observations=" << env->po << " " << env->m.str(); return o.str(); }
    double h(int s) const { return heur == 0 || env->m.st[s].sink ? 0.0 : heur == 1 ? 2.5 : env->m.st[s].heur; }
};
inline std::unique_ptr<RecSetup> make_rec(const MdpOpts& mo, int cap_depth = 6, bool eager = false) {
    auto r = std::make_unique<RecSetup>();
    MdpM m = gen_mdp(mo); r->env = make_shared<MdpEnv>(m, chance(1, 4) ? range(1, 3) : 0); r->env->fuel = 50000000ull;
    r->max_depth = m.layered && chance(1, 3) ? std::numeric_limits<int>::max() : range(0, cap_depth); r->mcts = chance(1, 2); r->heur = range(0, 2); if (m.deep && (m.layered || mo.chain > 0) && chance(1, 2)) r->max_depth = chance(1, 2) ? std::numeric_limits<int>::max() : range(9, 300); if (mo.chain > 0) r->mcts = !chance(1, 4); r->tt = chance(1, 3); r->rec.eager = eager && chance(1, 4);
    thts::ThtsManagerArgs a(r->env); a.max_depth = r->max_depth; a.mcts_mode = r->mcts; a.use_transposition_table = r->tt; a.num_transposition_table_mutexes = pick({1, 2, 5}); a.seed = 7;
    if (r->heur == 1) a.heuristic_fn = const_heuristic; else if (r->heur == 2) a.heuristic_fn = table_heuristic;
    RecSetup* p = r.get();
    r->env->on_trial_start = [p](TrialRec* t) { if (t->id != (int)p->rec.t.size()) pbt::fail("harness: context numbering"); TrialLog l; l.thread = sched::tid(); l.start = sched::S().now; l.state = t->root_state; p->rec.t.push_back(l); };
    r->mgr = make_shared<RecMgr>(a, &r->rec);
    r->root = make_shared<RecD>(r->mgr, r->env->get_initial_state_itfc(), 0, chance(1, 4) ? range(1, 9) : 0, nullptr);
    return r;
}

// The protocol of one trial. Returns the number of decision nodes visited.
inline int check_trial(const RecSetup& R, int id) {
    const TrialLog& l = R.rec.t[id]; const auto& E = l.ev; size_t i = 0; const MdpM& m = R.env->m;
    auto bad = [&](const char* what) { std::ostringstream o; for (size_t k = 0; k < E.size() && k < 40; k++) o << E[k].k << (k == i ? "<<" : ""); pbt::fail("trial %d: %s (calls: %s) [%s]", id, what, o.str().c_str(), R.str().c_str()); };
    auto need = [&](char k, const void* n, const char* what) -> const Ev& { if (i >= E.size() || E[i].k != k || E[i].node != n) bad(what); return E[i++]; };
    const void* cur = R.root.get(); int s = m.init, depth = 0; bool grew = false;
    if (l.state != s) bad("its context was not sampled for the root's state");
    vector<std::pair<const void*, const void*>> path; vector<double> rew;
    while (!(m.st[s].sink || depth >= R.max_depth || (R.mcts && grew))) {
        need('V', cur, "expected a visit of the current decision node");
        const Ev& se = need('S', cur, "expected an action selection at the current decision node"); const void* c = se.chosen; int a = se.label;
        need('v', c, "expected a visit of the chosen chance node");
        const Ev& ob = need('s', c, "expected an outcome sample at the chosen chance node"); grew = grew || ob.grew;
        path.push_back({cur, c}); rew.push_back(R.env->reward(s, a, ob.label, ob.nth)); cur = ob.chosen; s = ob.label; depth++;
    }
    need('V', cur, "expected a visit of the final decision node");
    double h = R.h(s), tot = 0; for (double r : rew) tot += r; tot += h;
    double tol = 1e-9; for (double r : rew) tol = std::max(tol, 1e-9 * std::fabs(r) * (double)(rew.size() + 1));
    tol = std::max(tol, 1e-9 * std::fabs(h) * (double)(rew.size() + 1));
    double ra = h; vector<double> after = {h};
    for (size_t j = path.size(); j-- > 0;) {
        ra += rew[j]; after.push_back(rew[j]); vector<double> before(rew.begin(), rew.begin() + j);
        for (int half = 0; half < 2; half++) {
            const Ev& b = half == 0 ? need('b', path[j].second, "expected the backup of the deepest chance node not yet backed up") : need('B', path[j].first, "expected the backup of that chance node's decision node");
            i--;
            if (b.before != before) bad("backup got wrong rewards before the node");
            if (b.after != after) bad("backup got wrong rewards after the node");
            if (!(std::fabs(b.ra - ra) <= tol)) bad("backup got a wrong return after the node");
            if (!(std::fabs(b.rt - tot) <= tol)) bad("backup got a wrong trial return");
            i++;
        }
    }
    if (i != E.size()) bad("unexpected further call");
    return (int)path.size() + 1;
}
}  // namespace vf
