// Algorithm configurations, managers and roots for all eight algorithms.
#pragma once
#include "mdp.h"
#include "thts.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/common/decaying_temp.h"

namespace vf {
enum Alg { UCT, PUCT, MENTS, DBMENTS, DENTS, RENTS, TENTS, EST, NALG };
inline const char* alg_name(int a) { static const char* n[] = {"UCT", "PUCT", "MENTS", "DBMENTS", "DENTS", "RENTS", "TENTS", "EST"}; return n[a]; }
inline bool is_uct(int a) { return a == UCT || a == PUCT; }
inline bool has_dp(int a) { return a == DBMENTS || a == DENTS || a == EST; }
inline bool is_dents_mgr(int a) { return a == DENTS || a == EST; }
inline bool has_soft(int a) { return a == MENTS || a == DBMENTS || a == RENTS || a == TENTS; }

inline thts::TempDecayFnPtr decay_fn(int k) {
    switch (k) { case 1: return thts::decayed_temp_inv_sqrt; case 2: return thts::decayed_temp_inv_log; case 3: return thts::decayed_temp_sigmoid; default: return nullptr; }
}
inline double ref_decay(int k, double x) {
    switch (k) {
        case 1: return 1.0 / std::sqrt(1.0 + x);
        case 2: return 1.0 / std::log(std::exp(1.0) + x);
        case 3: return (1.0 + std::exp(-5.0)) / (1.0 + std::exp(x - 5.0));
        default: return 1.0;
    }
}

struct Cfg {
    int alg = UCT; int seed = 1; int max_depth = 1000000; bool mcts = true, two = false, tt = false; int ttm = 1; int t0 = 0;
    int heur = 1;   // 0 null, 1 zero (default), 2 table, 3 const
    bool prior = false;
    // uct
    double bias = -1.0; int pseudo = 0; bool rec_mv = false; double uct_eps = 0.0; double power = 0.5;
    // ments
    double temp = 1.0, pw = 0.0, eps = 0.5, root_eps = -1.0, maxexp = 1.0; int decay = 0; double min_temp = 1e-6, scale = 1.0, root_scale = -1.0;
    double defq = 0.0; bool shift = false; double offset = 0.0; int thr = 0;
    // dents
    int vdecay = 1; double vinit = 1.0, vmin = 1e-6, vscale = 1.0, vroot = -1.0; bool use_dp = true;
    string str() const {
        std::ostringstream o;
        o << alg_name(alg) << " seed=" << seed << " max_depth=" << max_depth << " mcts=" << mcts << " two=" << two << " tt=" << tt << "/" << ttm << " t0=" << t0 << " heur=" << heur << " prior=" << prior;
        if (is_uct(alg)) o << " bias=" << bias << " pseudo=" << pseudo << " rec_mv=" << rec_mv << " eps=" << uct_eps << " power=" << power;
        else {
            o << " temp=" << temp << " pw=" << pw << " eps=" << eps << " root_eps=" << root_eps << " maxexp=" << maxexp << " decay=" << decay << "/" << min_temp << "/" << scale << "/" << root_scale
              << " defq=" << defq << " shift=" << shift << "/" << offset << " thr=" << thr << " rec_mv=" << rec_mv;
            if (is_dents_mgr(alg)) o << " v=" << vdecay << "/" << vinit << "/" << vmin << "/" << vscale << "/" << vroot << " use_dp=" << use_dp;
        }
        return o.str();
    }
    double heuristic(const MdpM& m, int s) const {
        if (m.st[s].sink) return 0.0;
        if (heur == 2) return m.st[s].heur;
        if (heur == 3) return 2.5;
        return 0.0;
    }
};

struct CfgOpts {
    vector<int> algs{UCT, PUCT, MENTS, DBMENTS, DENTS, RENTS, TENTS, EST};
    int two = -1, tt = -1, mcts = -1, prior = -1, heur = -1, decay = -1;
    int max_depth_cap = 6;
    bool allow_eps0 = true;
    double temp_lo = 0.05, temp_hi = 20.0;
};

inline double gen_temp(double lo, double hi) {
    if (pbt::chance(1, 4)) return 1.0;
    return lo * std::pow(hi / lo, pbt::real01());
}

inline Cfg gen_cfg(const MdpM& m, const CfgOpts& o) {
    using namespace pbt;
    Cfg c;
    c.alg = pick(o.algs);
    c.seed = range(1, 1000000);
    if (chance(1, 8)) c.seed = chance(1, 2) ? -c.seed : pick({-1, 2147483647, -2147483647 - 1, 65537, 1 << 30});
    c.mcts = o.mcts >= 0 ? o.mcts : !chance(1, 3);
    if (m.layered && chance(1, 2)) c.max_depth = std::numeric_limits<int>::max();
    else if (c.mcts && chance(1, 4)) c.max_depth = std::numeric_limits<int>::max();
    else c.max_depth = chance(1, 25) ? 0 : range(1, o.max_depth_cap);
    if (m.deep && c.max_depth != std::numeric_limits<int>::max()) c.max_depth = range(4, 45);
    if (m.max_acts > 60) c.max_depth = std::min(c.max_depth, 3);   // bounds the work of a case
    c.two = o.two >= 0 ? o.two : chance(1, 3);
    c.t0 = c.two || chance(1, 6) ? (chance(1, 25) ? pick({1000001, 65536, 255}) : range(0, 3)) : 0;
    c.tt = o.tt >= 0 ? o.tt : chance(1, 3);
    c.ttm = pick({1, 2, 1, 4, 7, 16});
    c.heur = o.heur >= 0 ? o.heur : pick({1, 2, 0, 3, 2});
    c.prior = o.prior >= 0 ? o.prior : chance(1, 3);
    auto mag = [](double lo, double hi) { return std::pow(10.0, lo + (hi - lo) * real01()); };   // log-uniform
    auto rnd = [](double lo, double hi) { return lo + (hi - lo) * real01(); };
    if (is_uct(c.alg)) {
        if (m.unnorm) c.prior = 0;
        c.bias = chance(1, 2) ? -1.0 : chance(1, 2) ? mag(-3, 3) : pick({1.0, 0.0, 0.1, 5.0, 50.0});
        c.pseudo = chance(1, 3) ? (chance(1, 8) ? range(20, 400) : range(1, 20)) : 0;
        c.rec_mv = chance(1, 2);
        c.uct_eps = chance(1, 4) ? (chance(1, 3) ? real01() : pick({0.1, 0.5, 1.0})) : 0.0;
        c.power = chance(1, 2) ? 0.5 : chance(1, 3) ? rnd(0.0, 1.5) : pick({0.25, 0.75, 1.0, 0.1, 0.0});
        return c;
    }
    c.temp = gen_temp(o.temp_lo, o.temp_hi);
    if (c.prior && !m.unnorm && chance(1, 2)) c.pw = chance(1, 3) ? rnd(0.001, 1.0) : pick({0.5, 1.0, 0.1});
    c.eps = chance(1, 3) ? mag(-3, 1) : pick({0.5, 1.0, 0.1, 2.0, 0.5});
    if (o.allow_eps0 && chance(1, 5)) c.eps = 0.0;
    if (chance(1, 4)) c.root_eps = chance(1, 3) ? mag(-3, 1) : pick({0.5, 1.0, 0.2, 3.0, 0.0});
    if (chance(1, 3)) c.maxexp = chance(1, 3) ? real01() : pick({1.0, 0.5, 0.9, 0.1, 0.0});
    c.decay = o.decay >= 0 ? o.decay : (chance(1, 3) ? range(1, 3) : 0);
    c.min_temp = chance(1, 3) ? mag(-2, 1) : pick({1e-2, 1e-1, 0.5});
    c.scale = chance(1, 3) ? mag(-3, 2) : pick({1.0, 0.1, 0.5, 2.0});
    if (chance(1, 3)) c.root_scale = chance(1, 3) ? mag(-3, 2) : pick({0.25, 1.0, 3.0, 0.0});
    if (chance(1, 3)) c.defq = chance(1, 3) ? rnd(-20, 20) : pick({-3.0, 2.0, 10.0, -50.0});
    if (c.prior) { c.shift = chance(1, 2); c.offset = chance(1, 3) ? rnd(-10, 10) : pick({0.0, 1.0, -2.0, 5.0}); }
    c.thr = chance(1, 2) ? (chance(1, 6) ? range(8, 200) : range(1, 8)) : 0;
    c.rec_mv = chance(1, 4);
    c.vdecay = range(0, 3); c.vinit = chance(1, 12) ? 0.0 : gen_temp(o.temp_lo, o.temp_hi); c.vmin = chance(1, 4) ? mag(-3, 1) : pick({1e-3, 0.0, 0.2}); c.vscale = chance(1, 4) ? mag(-3, 2) : pick({1.0, 0.1, 3.0});
    if (chance(1, 3)) c.vroot = chance(1, 3) ? mag(-3, 2) : pick({0.25, 1.0, 3.0, 0.0});
    c.use_dp = chance(1, 2);
    return c;
}

// Pass-through RNG wrapper that can be scripted for probing.
struct RngTap {
    bool scripted = false; double u = 0.0; long ucalls = 0, icalls = 0; int ival = -1; int last_lo = 0, last_hi = 0;
};
template <class Base, class Args> struct TapMgr : public Base, public RngTap {
    static std::atomic<long>& live() { static std::atomic<long> l{0}; return l; }
    TapMgr(const Args& a) : Base(a) { live()++; }
    ~TapMgr() { live()--; }
    double get_rand_uniform() override { if (scripted) { ucalls++; return u; } return Base::get_rand_uniform(); }
    int get_rand_int(int lo, int hi) override {
        if (scripted) { icalls++; last_lo = lo; last_hi = hi; if (ival >= 0) return lo + ival % (hi - lo); }
        return Base::get_rand_int(lo, hi);
    }
};
using TapUct = TapMgr<thts::UctManager, thts::UctManagerArgs>;
using TapPuct = TapMgr<thts::PuctManager, thts::PuctManagerArgs>;
using TapMents = TapMgr<thts::MentsManager, thts::MentsManagerArgs>;
using TapDents = TapMgr<thts::DentsManager, thts::DentsManagerArgs>;
inline long live_managers() { return TapUct::live() + TapPuct::live() + TapMents::live() + TapDents::live(); }

struct Inst {
    Cfg cfg; shared_ptr<MdpEnv> env; shared_ptr<thts::ThtsManager> mgr; shared_ptr<thts::ThtsDNode> root; RngTap* tap = nullptr;
    const MdpM& m() const { return env->m; }
};

template <class A> void fill_base(A& a, const Cfg& c) {
    a.seed = c.seed; a.max_depth = c.max_depth; a.mcts_mode = c.mcts; a.is_two_player_game = c.two; a.use_transposition_table = c.tt; a.num_transposition_table_mutexes = c.ttm;
    if (c.heur == 0) a.heuristic_fn = nullptr; else if (c.heur == 2) a.heuristic_fn = table_heuristic; else if (c.heur == 3) a.heuristic_fn = const_heuristic;
    if (c.prior) a.prior_fn = table_prior;
}
template <class A> void fill_ments(A& a, const Cfg& c) {
    fill_base(a, c);
    a.temp = c.temp; a.prior_policy_search_weight = c.pw; a.epsilon = c.eps; a.root_node_epsilon = c.root_eps; a.max_explore_prob = c.maxexp;
    a.temp_decay_fn = decay_fn(c.decay); a.temp_decay_min_temp = c.min_temp; a.temp_decay_visits_scale = c.scale; a.temp_decay_root_node_visits_scale = c.root_scale;
    a.default_q_value = c.defq; a.shift_pseudo_q_values = c.shift; a.psuedo_q_value_offset = c.offset; a.recommend_visit_threshold = c.thr; a.recommend_most_visited = c.rec_mv;
}
inline void make_manager(Inst& I) {
    const Cfg& c = I.cfg;
    if (c.alg == UCT || c.alg == PUCT) {
        thts::PuctManagerArgs a(I.env); fill_base(a, c);
        a.bias = c.bias; a.heuristic_psuedo_trials = c.pseudo; a.recommend_most_visited = c.rec_mv; a.epsilon_exploration = c.uct_eps; a.puct_power = c.power;
        if (c.alg == UCT) { auto p = make_shared<TapUct>(a); I.mgr = p; I.tap = p.get(); } else { auto p = make_shared<TapPuct>(a); I.mgr = p; I.tap = p.get(); }
    } else if (is_dents_mgr(c.alg)) {
        thts::DentsManagerArgs a(I.env); fill_ments(a, c);
        a.value_temp_decay_fn = decay_fn(c.vdecay); a.value_temp_init = c.vinit; a.value_temp_decay_min_temp = c.vmin; a.value_temp_decay_visits_scale = c.vscale; a.value_temp_decay_root_node_visits_scale = c.vroot; a.use_dp_value = c.use_dp;
        auto p = make_shared<TapDents>(a); I.mgr = p; I.tap = p.get();
    } else {
        thts::MentsManagerArgs a(I.env); fill_ments(a, c);
        auto p = make_shared<TapMents>(a); I.mgr = p; I.tap = p.get();
    }
}
inline shared_ptr<thts::ThtsDNode> make_root(const Inst& I, int state = -1, int at = -1) {
    auto s = I.env->state(state < 0 ? I.m().init : state); int t = at < 0 ? I.cfg.t0 : at;
    switch (I.cfg.alg) {
        case UCT: return make_shared<thts::UctDNode>(std::static_pointer_cast<thts::UctManager>(I.mgr), s, 0, t);
        case PUCT: return make_shared<thts::PuctDNode>(std::static_pointer_cast<thts::PuctManager>(I.mgr), s, 0, t);
        case MENTS: return make_shared<thts::MentsDNode>(std::static_pointer_cast<thts::MentsManager>(I.mgr), s, 0, t);
        case DBMENTS: return make_shared<thts::DBMentsDNode>(std::static_pointer_cast<thts::MentsManager>(I.mgr), s, 0, t);
        case DENTS: return make_shared<thts::DentsDNode>(std::static_pointer_cast<thts::DentsManager>(I.mgr), s, 0, t);
        case RENTS: return make_shared<thts::RentsDNode>(std::static_pointer_cast<thts::MentsManager>(I.mgr), s, 0, t);
        case TENTS: return make_shared<thts::TentsDNode>(std::static_pointer_cast<thts::MentsManager>(I.mgr), s, 0, t);
        default: return make_shared<thts::EstDNode>(std::static_pointer_cast<thts::DentsManager>(I.mgr), s, 0, t);
    }
}
inline Inst make_inst(const MdpM& m, const Cfg& c) {
    Inst I; I.cfg = c; I.env = make_shared<MdpEnv>(m); make_manager(I); I.root = make_root(I); return I;
}
}  // namespace vf
