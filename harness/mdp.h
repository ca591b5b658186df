// Random finite MDPs / alternating games as ThtsEnv instances, recording every trial.
#pragma once
#include "pbt.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_manager.h"
#include "thts_types.h"
#include <memory>
#include <thread>
#include <unordered_map>

namespace vf {
inline void (*&yield_hook())() { static void (*h)() = nullptr; return h; }   // scheduling points inside user code
inline void user_code() { if (yield_hook()) yield_hook()(); }
using std::shared_ptr; using std::make_shared; using std::vector; using std::string;

// ---------------------------------------------------------------- user-defined state/action types
struct ColState : public thts::State {   // every instance has the same hash
    int id; ColState(int i) : id(i) {}
    size_t hash() const override { user_code(); return 42; }
    bool equals_itfc(const thts::Observation& o) const override {
        auto* p = dynamic_cast<const ColState*>(&o); return p && p->id == id;
    }
    string get_pretty_print_string() const override { return "c" + std::to_string(id); }
};
struct ColAction : public thts::Action {
    int id; ColAction(int i) : id(i) {}
    size_t hash() const override { user_code(); return 7; }
    bool equals_itfc(const thts::Action& o) const override {
        auto* p = dynamic_cast<const ColAction*>(&o); return p && p->id == id;
    }
    string get_pretty_print_string() const override { return "b" + std::to_string(id); }
};

struct ActM { int label; vector<std::pair<int, double>> outs; double r; vector<double> r_out; };
struct StM { bool sink = false; vector<ActM> acts; double heur = 0; vector<double> prior; int layer = 0; };
struct MdpM {
    int init = 0; vector<StM> st;
    int skind = 0, akind = 0; bool fresh = true; int max_acts = 1;
    bool layered = false, deterministic = true, obs_rewards = false, zero_probs = false, unnorm = false, deep = false;
    const ActM& act(int s, int label) const {
        for (auto& a : st[s].acts) if (a.label == label) return a;
        pbt::fail("harness: state %d has no action %d", s, label);
    }
    int act_index(int s, int label) const {
        for (size_t i = 0; i < st[s].acts.size(); i++) if (st[s].acts[i].label == label) return (int)i;
        return -1;
    }
    double reward(int s, int label, int s2) const {
        const ActM& a = act(s, label);
        for (size_t i = 0; i < a.outs.size(); i++) if (a.outs[i].first == s2) return a.r_out[i];
        pbt::fail("harness: transition %d -%d-> %d does not exist in the model", s, label, s2);
    }
    double prob(int s, int label, int s2) const {
        const ActM& a = act(s, label);
        for (auto& o : a.outs) if (o.first == s2) return o.second;
        return -1.0;
    }
    string str() const {
        std::ostringstream o; o << "MDP init=" << init << " skind=" << skind << " akind=" << akind << " fresh=" << fresh << " {";
        for (size_t s = 0; s < st.size(); s++) {
            o << " s" << s << (st[s].sink ? "(sink)" : "") << "h=" << st[s].heur << "[";
            for (size_t i = 0; i < st[s].acts.size(); i++) {
                auto& a = st[s].acts[i];
                o << "a" << a.label << (i < st[s].prior.size() ? "p" + std::to_string(st[s].prior[i]) : "") << ":r" << a.r << "->";
                for (size_t k = 0; k < a.outs.size(); k++) { o << a.outs[k].first << "@" << a.outs[k].second; if (a.r_out[k] != a.r) o << "r" << a.r_out[k]; o << " "; }
                o << ";";
            }
            o << "]";
        }
        o << "}"; return o.str();
    }
};

struct MdpOpts {
    int max_states = 10, max_actions = 4, max_outs = 3;
    int force_layered = -1;      // 1: DAG by layers
    int force_deterministic = -1;
    bool allow_obs_rewards = true;
    bool allow_zero_probs = true;
    int reward_mode = -1;        // 0 small ints, 1 dyadic, 2 reals, 3 large, 4 all zero, 5 huge
    bool normalised_prior = true;
    bool extreme_prior = false;
    bool allow_unnorm = true;    // occasionally priors that are not distributions
    double reward_cap = 1e18;
    bool allow_root_sink = true;
    bool wide = true;            // occasionally many actions / outcomes
    int layers = -1;
    bool allow_deep = true;      // occasionally long chains
    int chain = 0;               // > 0: one chain with that many states
};

inline double gen_reward(int mode) {
    using namespace pbt;
    switch (mode) {
        case 0: return range(-5, 5);
        case 1: return range(-64, 64) / 16.0;
        case 2: return (real01() - 0.5) * 10.0;
        case 3: return (real01() - 0.5) * 2000.0;
        case 4: return 0.0;
        case 5: return (chance(1, 2) ? 1.0 : -1.0) * std::pow(10.0, range(0, 8)) * (chance(1, 2) ? 1.0 : real01());
        default: return range(0, 1);
    }
}

inline MdpM gen_mdp(const MdpOpts& o) {
    using namespace pbt;
    MdpM m;
    int n = range(1, o.max_states);
    m.deep = o.allow_deep && chance(1, 16);
    if (m.deep) n = chance(1, 6) ? range(70, 300) : range(10, 32);
    if (o.chain > 0) { m.deep = true; n = o.chain; }
    m.layered = o.force_layered >= 0 ? o.force_layered : chance(1, 2);
    m.deterministic = o.force_deterministic >= 0 ? o.force_deterministic : chance(1, 3);
    m.skind = range(0, 3); m.akind = range(0, 2); m.fresh = !chance(1, 3);
    m.obs_rewards = o.allow_obs_rewards && chance(1, 3);
    int rmode = o.reward_mode >= 0 ? o.reward_mode : pick({2, 0, 1, 2, 0, 3, 6, 4});
    bool wide_a = o.wide && !m.deep && chance(1, 12), wide_o = o.wide && chance(1, 12);
    if (wide_o && !m.deep && chance(2, 3)) n = range(10, 40);
    bool vast_a = wide_a && chance(1, 25), vast_o = wide_o && !wide_a && !m.deep && chance(1, 25); if (vast_o) n = range(130, 320); if (vast_a) n = std::min(n, 4);   // more actions / outcomes than 7 or 8 bits count
    int maxA = vast_a ? 300 : wide_a ? (chance(1, 3) ? 50 : 20) : m.deep ? std::min(2, o.max_actions) : o.max_actions, maxO = vast_o ? 300 : wide_o ? 32 : o.max_outs; if (vast_o) maxA = 1;
    int label_pool = maxA + (chance(1, 2) ? 2 : 0);
    bool same_actions = chance(1, 2);
    int nlayers = o.layers > 0 ? o.layers : range(1, 5);
    m.st.resize(n);
    // in layered models state s lives in layer; transitions go to the next layers, the last state is a sink
    for (int s = 0; s < n; s++) m.st[s].layer = m.deep ? s : m.layered ? (int)((int64_t)s * (nlayers + 1) / n) : 0;
    bool zp = o.allow_zero_probs && chance(1, 4);
    int pmode = o.normalised_prior ? range(0, 9) : 0;   // 6,7: tiny and zero priors; 8: not normalised
    m.unnorm = !o.normalised_prior || (pmode == 8 && o.allow_unnorm);
    for (int s = 0; s < n; s++) {
        StM& S = m.st[s];
        vector<int> succ;
        if (m.deep) { for (int q = s + 1; q < n && q <= s + (o.chain > 0 ? 1 : 2); q++) succ.push_back(q); if (!m.layered && succ.empty()) succ.push_back(range(0, n - 1)); }
        else if (m.layered) { for (int q = s + 1; q < n; q++) if (m.st[q].layer > S.layer) succ.push_back(q); }
        else for (int q = 0; q < n; q++) succ.push_back(q);
        S.sink = succ.empty() || (s > 0 && o.chain == 0 && chance(1, m.deep ? 40 : 6)) || (s == 0 && o.allow_root_sink && chance(1, 40));
        if (S.sink) continue;
        S.heur = gen_reward(rmode == 6 ? 0 : rmode);
        int na = vast_a && s == 0 ? range(130, maxA) : range(1, maxA);
        vector<int> labels;
        if (same_actions) for (int i = 0; i < na; i++) labels.push_back(i);
        else { vector<int> pool; for (int i = 0; i < label_pool; i++) pool.push_back(i);
            for (int i = 0; i < na; i++) { int k = range(0, (int)pool.size() - 1); labels.push_back(pool[k]); pool.erase(pool.begin() + k); } }
        for (int i = 0; i < na; i++) {
            ActM a; a.label = labels[i]; a.r = gen_reward(rmode);
            int no = m.deterministic ? 1 : range(1, std::min<int>(vast_o && s > 0 ? 3 : maxO, (int)succ.size())); if (vast_o && s == 0 && no > 1) no = std::min<int>(maxO, (int)succ.size());
            vector<int> pool = succ;
            vector<int> w; int tot = 0;
            bool dyadic = chance(1, 2);
            int D = dyadic ? (no > 32 ? 4096 : 64) : 0;
            vector<int> states;
            for (int k = 0; k < no; k++) { int x = range(0, (int)pool.size() - 1); states.push_back(pool[x]); pool.erase(pool.begin() + x); }
            if (dyadic) {
                int rem = D;
                for (int k = 0; k < no; k++) { int v = k == no - 1 ? rem : range(1, std::max(1, rem - (no - 1 - k))); w.push_back(v); rem -= v; }
                tot = D;
            } else { for (int k = 0; k < no; k++) { int v = range(1, 30); w.push_back(v); tot += v; } }
            for (int k = 0; k < no; k++) a.outs.push_back({states[k], (double)w[k] / (double)tot});
            if (zp && !pool.empty() && chance(1, 2)) { a.outs.push_back({pool[range(0, (int)pool.size() - 1)], 0.0}); m.zero_probs = true; }
            for (auto& ou : a.outs) a.r_out.push_back(m.obs_rewards ? gen_reward(rmode) + 0.0 * ou.second : a.r);
            S.acts.push_back(a);
        }
        m.max_acts = std::max<int>(m.max_acts, na);
        // prior
        double ptot = 0; vector<int> w;
        for (int i = 0; i < na; i++) { int v = range(1, 20); w.push_back(v); ptot += v; }
        if (pmode == 6 || pmode == 7) {
            vector<double> g; ptot = 0; int z = range(0, na - 1);
            for (int i = 0; i < na; i++) { g.push_back(i == z ? 1.0 : chance(1, 4) ? 0.0 : std::pow(10.0, -range(0, 14)) * w[i]); ptot += g.back(); }
            for (int i = 0; i < na; i++) S.prior.push_back(g[i] / ptot);
        } else for (int i = 0; i < na; i++) S.prior.push_back(m.unnorm && chance(1, 2) ? pick({0.0, 1e-40, 1e-32, 1e40, 1e32, 1e-10, 50.0, 1e-31, 1e31}) : w[i] / ptot);
        if (!o.normalised_prior) for (int i = 0; i < na; i++) {
            S.prior[i] = w[i] / 4.0;
            if (o.extreme_prior && chance(1, 4)) S.prior[i] = pick({0.0, 1e-40, 1e-32, 1e40, 1e32, 1e-10});
        }
    }
    for (auto& S : m.st) S.prior.resize(S.acts.size(), 1.0);
    return m;
}

struct Step { int s, a, s2; double r; int k = 0; };   // k: which of the observations of s2 was made (partially observable problems)
struct TrialRec { vector<Step> steps; uint64_t thread; int id; int root_state; uint64_t tag = 0; };

struct CtxRec : public thts::ThtsEnvContext {
    int trial_id; static std::atomic<long>& live() { static std::atomic<long> l{0}; return l; }
    CtxRec(int t) : trial_id(t) { live()++; }
    ~CtxRec() { live()--; }
};

struct SpinLock { std::atomic_flag f = ATOMIC_FLAG_INIT; void lock() { while (f.test_and_set(std::memory_order_acquire)) {} } void unlock() { f.clear(std::memory_order_release); } };

// an observation that is no state: the k-th of the observations possible in state s
struct ObsTag : public thts::Observation {
    int s, k; ObsTag(int s, int k) : s(s), k(k) {}
    std::size_t hash() const override { return (std::size_t)(s * 31 + k); }
    bool equals_itfc(const thts::Observation& o) const override { auto* p = dynamic_cast<const ObsTag*>(&o); return p && p->s == s && p->k == k; }
    string get_pretty_print_string() const override { return "o" + std::to_string(s) + "." + std::to_string(k); }
};

class MdpEnv : public thts::ThtsEnv {
public:
    MdpM m;
    const int po;   // 0: fully observable; otherwise the number of noisy observations of every state
    mutable SpinLock lk;
    mutable vector<std::unique_ptr<TrialRec>> trials;
    mutable std::atomic<uint64_t> calls{0}, contexts{0};
    uint64_t fuel = ~0ull;
    bool record = true;
    vector<shared_ptr<const thts::State>> cached_states;
    vector<shared_ptr<const thts::Action>> cached_actions;
    static std::atomic<long>& live() { static std::atomic<long> l{0}; return l; }
    static std::unordered_map<const MdpEnv*, TrialRec*>& tl() { thread_local std::unordered_map<const MdpEnv*, TrialRec*> t; return t; }
    std::function<void(TrialRec*)> on_trial_start;

    MdpEnv(const MdpM& mm, int po = 0) : thts::ThtsEnv(po == 0), m(mm), po(po) {
        live()++;
        for (size_t i = 0; i < m.st.size(); i++) cached_states.push_back(make_state(i));
        int top = 64; for (auto& s : m.st) for (auto& a : s.acts) top = std::max(top, a.label + 1); for (int i = 0; i < top; i++) cached_actions.push_back(make_action(i));
    }
    ~MdpEnv() { live()--; }
    void tick() const {
        uint64_t c = calls.fetch_add(1, std::memory_order_relaxed);
        if (c > fuel) pbt::fail("runaway: more than %llu environment calls", (unsigned long long)fuel);
        user_code();
    }
    shared_ptr<const thts::State> make_state(int id) const {
        switch (m.skind) {
            case 0: return make_shared<const thts::IntState>(id);
            case 1: return make_shared<const thts::IntPairState>(id / 3, id % 3);
            case 2: return make_shared<const thts::Int3TupleState>(id % 2, (id / 2) % 2, id / 4);
            default: return make_shared<const ColState>(id);
        }
    }
    shared_ptr<const thts::Action> make_action(int label) const {
        switch (m.akind) {
            case 0: return make_shared<const thts::IntAction>(label);
            case 1: return make_shared<const thts::StringAction>("act" + std::to_string(label));
            default: return make_shared<const ColAction>(label);
        }
    }
    shared_ptr<const thts::State> state(int id) const { return m.fresh ? make_state(id) : cached_states[id]; }
    shared_ptr<const thts::Action> action(int l) const { return m.fresh ? make_action(l) : cached_actions[l]; }
    int sid(const thts::Observation* o) const {
        int id = -1;
        switch (m.skind) {
            case 0: if (auto* p = dynamic_cast<const thts::IntState*>(o)) id = p->state; break;
            case 1: if (auto* p = dynamic_cast<const thts::IntPairState*>(o)) id = p->state.first * 3 + p->state.second; break;
            case 2: if (auto* p = dynamic_cast<const thts::Int3TupleState*>(o)) id = std::get<0>(p->state) + 2 * std::get<1>(p->state) + 4 * std::get<2>(p->state); break;
            default: if (auto* p = dynamic_cast<const ColState*>(o)) id = p->id;
        }
        if (id < 0 || id >= (int)m.st.size()) pbt::fail("environment was given a state that is not one of its own");
        return id;
    }
    // observations: the state reached when fully observable, otherwise (state, k) with probability obs_prob
    shared_ptr<const thts::Observation> obs(int s2, int k) const { if (!po) return std::static_pointer_cast<const thts::Observation>(state(s2)); return make_shared<const ObsTag>(s2, k); }
    int oid(const thts::Observation* o, int* k = nullptr) const {
        if (k) *k = 0; if (!po) return sid(o);
        auto* p = dynamic_cast<const ObsTag*>(o); if (!p || p->s < 0 || p->s >= (int)m.st.size() || p->k < 0 || p->k >= po) pbt::fail("environment was given an observation that is not one of its own");
        if (k) *k = p->k; return p->s;
    }
    double obs_prob(int label, int s2, int k) const {
        if (!po) return k == 0; double tot = 0, w = 0;
        for (int i = 0; i < po; i++) { double x = (double)(pbt::mix((uint64_t)label * 131 + (uint64_t)s2 * 17 + (uint64_t)i) % 4); tot += x; if (i == k) w = x; }
        return tot > 0 ? w / tot : k == 0;
    }
    shared_ptr<thts::ObservationDistr> get_observation_distribution_itfc(shared_ptr<const thts::Action> a, shared_ptr<const thts::State> ns) const override {
        if (!po) return thts::ThtsEnv::get_observation_distribution_itfc(a, ns);
        tick(); int s2 = sid(ns.get()), ai = aid(a.get()); auto d = make_shared<thts::ObservationDistr>(); for (int k = 0; k < po; k++) d->insert_or_assign(obs(s2, k), obs_prob(ai, s2, k)); return d;
    }
    double reward(int s, int a, int s2, int k) const { return m.reward(s, a, s2) + 0.5 * k; }
    int aid(const thts::Action* a) const {
        int id = -1;
        switch (m.akind) {
            case 0: if (auto* p = dynamic_cast<const thts::IntAction*>(a)) id = p->action; break;
            case 1: if (auto* p = dynamic_cast<const thts::StringAction*>(a)) id = atoi(p->action.c_str() + 3); break;
            default: if (auto* p = dynamic_cast<const ColAction*>(a)) id = p->id;
        }
        if (id < 0) pbt::fail("environment was given an action that is not one of its own");
        return id;
    }
    shared_ptr<const thts::State> get_initial_state_itfc() const override { tick(); return state(m.init); }
    bool is_sink_state_itfc(shared_ptr<const thts::State> s) const override { tick(); return m.st[sid(s.get())].sink; }
    shared_ptr<thts::ActionVector> get_valid_actions_itfc(shared_ptr<const thts::State> s) const override {
        tick();
        auto v = make_shared<thts::ActionVector>();
        for (auto& a : m.st[sid(s.get())].acts) v->push_back(action(a.label));
        return v;
    }
    shared_ptr<thts::StateDistr> get_transition_distribution_itfc(shared_ptr<const thts::State> s, shared_ptr<const thts::Action> a) const override {
        tick();
        int si = sid(s.get()), ai = aid(a.get());
        if (m.act_index(si, ai) < 0) pbt::fail("transition distribution requested for invalid action %d in state %d", ai, si);
        auto d = make_shared<thts::StateDistr>();
        for (auto& o : m.act(si, ai).outs) d->insert_or_assign(state(o.first), o.second);
        return d;
    }
    shared_ptr<const thts::State> sample_transition_distribution_itfc(shared_ptr<const thts::State> s, shared_ptr<const thts::Action> a, thts::RandManager& rm) const override {
        tick();
        int si = sid(s.get()), ai = aid(a.get());
        if (m.act_index(si, ai) < 0) pbt::fail("transition sample requested for invalid action %d in state %d", ai, si);
        const ActM& am = m.act(si, ai);
        double u = rm.get_rand_uniform(), acc = 0; int last = -1;
        for (auto& o : am.outs) { if (o.second <= 0) continue; acc += o.second; last = o.first; if (u < acc) return state(o.first); }
        return state(last);
    }
    double get_reward_itfc(shared_ptr<const thts::State> s, shared_ptr<const thts::Action> a, shared_ptr<const thts::Observation> o = nullptr) const override {
        tick();
        int si = sid(s.get()), ai = aid(a.get());
        if (m.act_index(si, ai) < 0) pbt::fail("reward requested for invalid action %d in state %d", ai, si);
        if (!o) return m.act(si, ai).r;
        int k = 0, s2 = oid(o.get(), &k);
        if (m.prob(si, ai, s2) < 0) pbt::fail("reward requested for impossible transition %d -%d-> %d", si, ai, s2);
        double r = reward(si, ai, s2, k);
        if (record) {
            auto& t = tl(); auto it = t.find(this);
            if (it != t.end() && it->second) {
                auto& st = it->second->steps;
                // asking twice for the reward of the step just taken is not a new step
                if (!st.empty() && st.back().s == si && st.back().a == ai && st.back().s2 == s2 && st.back().k == k && s2 != si) return r;
                st.push_back({si, ai, s2, r, k});
            }
        }
        return r;
    }
    shared_ptr<thts::ThtsEnvContext> sample_context_itfc(shared_ptr<const thts::State> s) const override {
        tick();
        int id = (int)contexts.fetch_add(1);
        if (record) {
            auto r = std::make_unique<TrialRec>();
            r->thread = std::hash<std::thread::id>()(std::this_thread::get_id()); r->id = id; r->root_state = sid(s.get());
            TrialRec* p = r.get();
            lk.lock(); trials.push_back(std::move(r)); lk.unlock();
            tl()[this] = p;
            if (on_trial_start) on_trial_start(p);
        }
        return make_shared<CtxRec>(id);
    }
};

// plain function pointers for the manager
inline const MdpEnv& as_mdp(const shared_ptr<thts::ThtsEnv>& e) { return static_cast<const MdpEnv&>(*e); }
inline double table_heuristic(shared_ptr<const thts::State> s, shared_ptr<thts::ThtsEnv> e) { auto& m = as_mdp(e); return m.m.st[m.sid(s.get())].heur; }
inline double const_heuristic(shared_ptr<const thts::State>, shared_ptr<thts::ThtsEnv>) { return 2.5; }
inline shared_ptr<thts::ActionPrior> table_prior(shared_ptr<const thts::State> s, shared_ptr<thts::ThtsEnv> e) {
    auto& m = as_mdp(e); int id = m.sid(s.get()); auto p = make_shared<thts::ActionPrior>();
    for (size_t i = 0; i < m.m.st[id].acts.size(); i++) p->insert_or_assign(m.action(m.m.st[id].acts[i].label), m.m.st[id].prior[i]);
    return p;
}
}  // namespace vf
