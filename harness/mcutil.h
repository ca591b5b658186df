// Monte-Carlo evaluation of user-defined nodes with a known recommendation (C19).
#pragma once
#include <functional>
#include "treeutil.h"
#include "mc_eval.h"
namespace vf {
struct FixC;
struct FixD : public thts::ThtsDNode {
    int s, k; uint64_t salt; mutable std::atomic<long> recs{0};
    FixD(shared_ptr<thts::ThtsManager> m, shared_ptr<const thts::State> st, int dd, int dt, shared_ptr<const thts::ThtsCNode> p, uint64_t sa, int k = 0) : thts::ThtsDNode(m, st, dd, dt, p), k(k), salt(sa) { s = static_cast<MdpEnv&>(*m->thts_env).sid(st.get()); }
    void visit_itfc(thts::ThtsEnvContext& c) override { thts::ThtsDNode::visit_itfc(c); }
    shared_ptr<const thts::Action> select_action_itfc(thts::ThtsEnvContext&) override { auto& e = static_cast<MdpEnv&>(*thts_manager->thts_env); auto& a = e.m.st[s].acts; auto x = e.action(a[thts_manager->get_rand_int(0, (int)a.size())].label); if (!has_child_node_itfc(x)) create_child_node_itfc(x); return x; }
    int choice() const { auto& a = static_cast<MdpEnv&>(*thts_manager->thts_env).m.st[s].acts; return a[mix(salt * 31 + s * 7 + decision_depth + 1000 * k) % a.size()].label; }
    shared_ptr<const thts::Action> recommend_action_itfc(thts::ThtsEnvContext& c) const override {
        recs++;
        // the context handed to the policy must be the rollout's own live context
        auto* r = dynamic_cast<CtxRec*>(&c); if (!r) pbt::fail("the policy was given a context that the environment did not sample");
        return static_cast<MdpEnv&>(*thts_manager->thts_env).action(choice()); }
    void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, thts::ThtsEnvContext&) override {}
    shared_ptr<thts::ThtsCNode> create_child_node_helper_itfc(shared_ptr<const thts::Action> a) const override;
    string get_pretty_print_val() const override { return "d"; }
};
struct FixC : public thts::ThtsCNode {
    int s, a; uint64_t salt;
    FixC(shared_ptr<thts::ThtsManager> m, shared_ptr<const thts::State> st, shared_ptr<const thts::Action> ac, int dd, int dt, shared_ptr<const thts::ThtsDNode> p, uint64_t sa) : thts::ThtsCNode(m, st, ac, dd, dt, p), salt(sa) { auto& e = static_cast<MdpEnv&>(*m->thts_env); s = e.sid(st.get()); a = e.aid(ac.get()); }
    void visit_itfc(thts::ThtsEnvContext& c) override { thts::ThtsCNode::visit_itfc(c); }
    shared_ptr<const thts::Observation> sample_observation_itfc(thts::ThtsEnvContext&) override {
        auto& e = static_cast<MdpEnv&>(*thts_manager->thts_env); auto ns = e.sample_transition_distribution_itfc(state, action, *thts_manager); auto o = e.sample_observation_distribution_itfc(action, ns, *thts_manager);
        if (!has_child_node_itfc(o)) create_child_node_itfc(o, ns); return o; }
    void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, thts::ThtsEnvContext&) override {}
    shared_ptr<thts::ThtsDNode> create_child_node_helper_itfc(shared_ptr<const thts::Observation> o, shared_ptr<const thts::State> ns) const override { int k; static_cast<MdpEnv&>(*thts_manager->thts_env).oid(o.get(), &k); return make_shared<FixD>(thts_manager, ns, decision_depth + 1, decision_timestep + 1, std::static_pointer_cast<const thts::ThtsCNode>(shared_from_this()), salt, k); }
    string get_pretty_print_val() const override { return "c"; }
};
inline shared_ptr<thts::ThtsCNode> FixD::create_child_node_helper_itfc(shared_ptr<const thts::Action> a) const { return make_shared<FixC>(thts_manager, state, a, decision_depth, decision_timestep, std::static_pointer_cast<const thts::ThtsDNode>(shared_from_this()), salt); }

struct McOpts { bool small = false; std::function<void()> begin, end; };   // small: few rollouts; begin/end: around the evaluation
inline void mc_case(int threads, const McOpts& o = McOpts()) {
    MdpOpts mo; mo.allow_deep = false; mo.wide = false; if (o.small) { mo.max_states = 6; mo.max_actions = 3; } MdpM m = gen_mdp(mo); auto env = make_shared<MdpEnv>(m); /* EvalPolicy is documented for fully observable environments only */ env->fuel = 3000000;
    thts::ThtsManagerArgs a(env); a.max_depth = m.layered && chance(1, 2) ? 1000 : range(1, 5); a.mcts_mode = chance(1, 2); a.seed = range(1, 1000000);
    auto mgr = make_shared<thts::ThtsManager>(a); uint64_t salt = draw(1000); int n = range(1, o.small ? 8 : 25);
    auto root = make_shared<FixD>(mgr, env->get_initial_state_itfc(), 0, 0, nullptr, salt);
    int len = chance(1, 12) ? 0 : range(1, o.small ? 6 : 12), calls = range(1, 3); bool inf = m.layered && chance(1, 3); if (inf) len = std::numeric_limits<int>::max();
    describe() << "search max_depth=" << a.max_depth << " mcts=" << a.mcts_mode << " trials=" << n << "; max_trial_length=" << len << " threads=" << threads << " " << m.str() << " rollouts:"; commit_desc();
    { thts::ThtsPool pool(mgr, root, 1); pool.run_trials(n); }
    env->trials.clear(); env->contexts = 0; int visits0 = root->get_num_visits(); string before = root->get_pretty_print_string(50);
    thts::EvalPolicy pol(root, env, *mgr); thts::MCEvaluator ev(env, pol, len, *mgr); long total = 0; vector<double> rets; Mart m0, m1, mo0; long left = 0, stopped = 0, inside = 0;
    for (int k = 0; k < calls; k++) {
        int r = chance(1, 8) ? 0 : o.small ? range(1, 12) : chance(1, 6) ? range(100, 400) : range(1, 30); describe() << " " << r; commit_desc();
        if (o.begin) o.begin(); ev.run_rollouts(r, threads); if (o.end) o.end(); total += r;
        PBT_CHECK((long)env->contexts.load() == total && (long)env->trials.size() == total, "after run_rollouts %ld rollouts had been run instead of %ld", (long)env->contexts.load(), total);
        for (size_t t = rets.size(); t < env->trials.size(); t++) {
            auto& tr = *env->trials[t]; int s = m.init; shared_ptr<const thts::ThtsDNode> cur = root; double ret = 0; PBT_CHECK(tr.root_state == m.init, "a rollout does not start in the initial state");
            PBT_CHECK((long)tr.steps.size() <= len, "a rollout has %zu steps, the maximum is %d", tr.steps.size(), len);
            for (auto& st : tr.steps) {
                PBT_CHECK(st.s == s, "a rollout is not connected: step from state %d after reaching %d", st.s, s); PBT_CHECK(!m.st[s].sink, "a rollout continued from a sink state");
                if (cur) { inside++; int want = static_cast<const FixD&>(*cur).choice(); PBT_CHECK(st.a == want, "inside the tree the rollout took action %d although the tree recommends %d", st.a, want); }
                else { left++; int A = (int)m.st[s].acts.size(), ix = m.act_index(s, st.a); PBT_CHECK(ix >= 0, "invalid action"); if (A > 1) { m0.add(ix == 0, 1.0 / A, (A - 1.0) / A / A); m1.add(ix == A - 1, 1.0 / A, (A - 1.0) / A / A); } }
                double p = m.prob(s, st.a, st.s2); PBT_CHECK(p > 0, "a rollout took an outcome of probability zero"); 
                auto& outs = m.act(s, st.a).outs; if (outs.size() > 1) { double p0 = outs[0].second; mo0.add(st.s2 == outs[0].first, p0, p0 * (1 - p0)); }
                ret += st.r; s = st.s2;
                if (cur) { auto act = env->make_action(st.a); if (!cur->has_child_node_itfc(act)) cur = nullptr; else { auto c = cur->get_child_node_itfc(act); auto o = std::static_pointer_cast<const thts::Observation>(env->make_state(st.s2)); cur = c->has_child_node_itfc(o) ? c->get_child_node_itfc(o) : nullptr; } }
            }
            PBT_CHECK(m.st[s].sink || (long)tr.steps.size() == len, "a rollout stopped after %zu steps in a non-sink state although the maximum is %d", tr.steps.size(), len); if (!m.st[s].sink) stopped++;
            rets.push_back(ret);
        }
        if (total > 0) {
            double mean = 0, sc = 1; for (double x : rets) { mean += x / (double)total; sc = std::max(sc, std::fabs(x)); } double got = ev.get_mean_return();
            PBT_CHECK(std::fabs(got - mean) <= 1e-9 * sc, "the reported mean return is %.12g, the mean of the %ld returns is %.12g", got, total, mean);
            if (total > 1) { double v = 0; for (double x : rets) v += (x - mean) * (x - mean); double sd = std::sqrt(v / (total - 1.0)), g = ev.get_stddev_return(); PBT_CHECK(std::fabs(g - sd) <= 1e-7 * sc, "the reported standard deviation is %.12g, that of the %ld returns is %.12g", g, total, sd); }
        }
    }
    m0.check("first random action", m.str()); m1.check("last random action", m.str()); mo0.check("first outcome", m.str());
    PBT_CHECK(root->get_num_visits() == visits0 && root->get_pretty_print_string(50) == before, "evaluation changed the tree");
    if (left) label("left-tree"); if (stopped) label("cut"); if (total >= 3 && (left || inside)) nontrivial();
}

// A policy driven by hand: random histories of steps, resets and copies.
inline void policy_case() {
    MdpOpts mo; mo.allow_deep = false; mo.wide = false; MdpM m = gen_mdp(mo); auto env = make_shared<MdpEnv>(m); env->fuel = 3000000;
    thts::ThtsManagerArgs a(env); a.max_depth = range(1, 5); a.mcts_mode = chance(1, 2); a.seed = range(1, 1000000); auto mgr = make_shared<thts::ThtsManager>(a); uint64_t salt = draw(1000); int n = range(1, 25);
    auto root = make_shared<FixD>(mgr, env->get_initial_state_itfc(), 0, 0, nullptr, salt); bool null_root = chance(1, 15);
    describe() << "search max_depth=" << a.max_depth << " mcts=" << a.mcts_mode << " trials=" << n << " null_root=" << null_root << " " << m.str() << " history:"; commit_desc();
    { thts::ThtsPool pool(mgr, root, 1); pool.run_trials(n); }
    struct P { std::unique_ptr<thts::EvalPolicy> p; shared_ptr<const thts::ThtsDNode> cur; int s; }; vector<P> ps; shared_ptr<const thts::ThtsDNode> top = null_root ? nullptr : root;
    ps.push_back({std::make_unique<thts::EvalPolicy>(top, env, *mgr), top, m.init}); auto ctx = env->sample_context_itfc(env->get_initial_state_itfc()); Mart m0, m1; int ops = range(1, 30); long asked = 0, outside = 0, resets = 0, copies = 0;
    auto tally = [&](int s, int lab) { int A = (int)m.st[s].acts.size(), ix = m.act_index(s, lab); PBT_CHECK(ix >= 0, "a random action is not valid in state %d", s); if (A > 1) { m0.add(ix == 0, 1.0 / A, (A - 1.0) / A / A); m1.add(ix == A - 1, 1.0 / A, (A - 1.0) / A / A); } };
    for (int i = 0; i < ops; i++) {
        size_t w = draw(ps.size()); P& x = ps[w]; bool sink = m.st[x.s].sink; int op = sink ? 3 : range(0, 7);
        switch (op) {
            case 0: case 1: case 2: case 4: {   // one step of a trial, sometimes with an action the policy did not choose
                int lab = m.st[x.s].acts[draw(m.st[x.s].acts.size())].label; if (op != 4) { lab = env->aid(x.p->get_action(env->state(x.s), *ctx).get()); asked++; if (x.cur) { int want = static_cast<const FixD&>(*x.cur).choice(); PBT_CHECK(lab == want, "the policy chose action %d in state %d although its tree recommends %d", lab, x.s, want); } else { outside++; tally(x.s, lab); } }
                auto& outs = m.act(x.s, lab).outs; int s2 = outs[draw(outs.size())].first; describe() << " " << w << ":" << lab << "->" << s2; commit_desc(); auto act = env->action(lab); auto ob = std::static_pointer_cast<const thts::Observation>(env->state(s2)); x.p->update_step(act, ob);
                if (x.cur) { if (!x.cur->has_child_node_itfc(act)) x.cur = nullptr; else { auto c = x.cur->get_child_node_itfc(act); x.cur = c->has_child_node_itfc(ob) ? c->get_child_node_itfc(ob) : nullptr; } } x.s = s2; break; }
            case 3: describe() << " " << w << ":reset"; commit_desc(); x.p->reset(); x.cur = top; x.s = m.init; resets++; break;
            case 5: describe() << " " << w << ":random"; commit_desc(); tally(x.s, env->aid(x.p->get_random_action(env->state(x.s)).get())); break;
            case 6: if (x.cur) { asked++; int lab = env->aid(x.p->get_action(env->state(x.s), *ctx).get()), want = static_cast<const FixD&>(*x.cur).choice(); PBT_CHECK(lab == want, "the policy chose action %d in state %d although its tree recommends %d", lab, x.s, want); } break;
            default: if (ps.size() < 4) { describe() << " copy" << w; commit_desc(); copies++; auto q = std::make_unique<thts::EvalPolicy>(*x.p); q->reset(); ps.push_back({std::move(q), top, m.init}); }   // a copy starts over and is independent
        }
    }
    m0.check("first random action", m.str()); m1.check("last random action", m.str());
    if (copies) label("copies"); if (outside) label("left-tree"); if (asked >= 3 && resets + copies) nontrivial();
}
}  // namespace vf
