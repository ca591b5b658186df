// Observing node statistics. Uses node fields directly (harnesses are compiled with -fno-access-control) when fields of
// that name exist, otherwise falls back to parsing the node's printed value, so renaming internals does not break checks.
#pragma once
#include "algos.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/est/est_chance_node.h"
#ifndef VF_PEEK
#define VF_PEEK 1
#endif

namespace vf {
static const double UNAV = -1.23456789e300;
struct NodeView {
    // UNAV / -1 mean "not available"
    int visits = -1;
    double uct_avg = UNAV; int uct_nb = -1;
    double soft = UNAV; int mb = -1;
    double dp = UNAV; int db = -1;
    double emp = UNAV; int pb = -1;
    double ent = UNAV; int eb = -1;
    double temp = UNAV, vtemp = UNAV;
    bool exact = false;
    double tol_rel = 0;    // extra relative tolerance if values were parsed from text
};
// parse "X(vl=<val>,#v=<n>)["
inline bool parse_prefix(const string& s, char kind, string& val, long& visits) {
    if (s.size() < 6 || s[0] != kind || s.compare(1, 4, "(vl=") != 0) return false;
    size_t b = s.find(")[");
    // the value may itself contain parentheses; the visits field is the last ",#v=" before ")["
    size_t nb = s.find(",#v=");
    if (nb == string::npos) return false;
    b = s.find(")[", nb);
    if (b == string::npos) return false;
    val = s.substr(5, nb - 5);
    visits = strtol(s.c_str() + nb + 4, nullptr, 10);
    return true;
}
inline double field_of(const string& val, const string& key) {
    size_t p = val.find(key + ":");
    if (p == string::npos) return UNAV;
    return strtod(val.c_str() + p + key.size() + 1, nullptr);
}

template <class U> double p_soft(U& n) { if constexpr (VF_PEEK && requires { n.soft_value; }) return n.soft_value; else return UNAV; }
template <class U> double p_dp(U& n) { if constexpr (VF_PEEK && requires { n.dp_value; }) return n.dp_value; else return UNAV; }
template <class U> double p_emp(U& n) { if constexpr (VF_PEEK && requires { n.avg_return; }) return n.avg_return; else return UNAV; }
template <class U> double p_ent(U& n) { if constexpr (VF_PEEK && requires { n.subtree_entropy; }) return n.subtree_entropy; else return UNAV; }
template <class U> int p_nb(U& n) { if constexpr (VF_PEEK && requires { n.num_backups; }) return n.num_backups; else return -1; }
template <class U> int p_nv(U& n) { if constexpr (VF_PEEK && requires { n.num_visits; }) return n.num_visits; else return -1; }
template <class U> double p_temp(U& n) { if constexpr (VF_PEEK && requires { n.get_temp(); }) return n.get_temp(); else return UNAV; }
template <class U> double p_vtemp(U& n) { if constexpr (VF_PEEK && requires { n.get_value_temp(); }) return n.get_value_temp(); else return UNAV; }

template <class N> NodeView view_common(N& n, const Cfg& c, char kind, bool force_text) {
    constexpr bool D = std::is_same_v<N, thts::ThtsDNode>;
    using TU = std::conditional_t<D, thts::UctDNode, thts::UctCNode>;
    using TM = std::conditional_t<D, thts::MentsDNode, thts::MentsCNode>;
    using TP = std::conditional_t<D, thts::DPDNode, thts::DPCNode>;
    using TE = std::conditional_t<D, thts::EntDNode, thts::EntCNode>;
    using TDe = std::conditional_t<D, thts::DentsDNode, thts::DentsCNode>;
    NodeView v; v.exact = true;
    if (!force_text) {
        if constexpr (D) v.visits = n.get_num_visits(); else v.visits = p_nv(n);
        if (is_uct(c.alg)) { if (auto* p = dynamic_cast<TU*>(&n)) { v.uct_avg = p_emp(*p); v.uct_nb = p_nb(*p); } }
        else {
            if (auto* p = dynamic_cast<TM*>(&n)) { v.soft = p_soft(*p); v.mb = p_nb(*p); if constexpr (D) v.temp = p_temp(*p); }
            if (auto* p = dynamic_cast<TP*>(&n)) { v.dp = p_dp(*p); v.db = p_nb(*p); }
            if (auto* p = dynamic_cast<TE*>(&n)) { v.ent = p_ent(*p); v.eb = p_nb(*p); }
            if (auto* p = dynamic_cast<thts::EmpNode*>(&n)) { v.emp = p_emp(*p); v.pb = p_nb(*p); }
            if (auto* p = dynamic_cast<TDe*>(&n)) { v.vtemp = p_vtemp(*p); }
        }
    }
    bool need = v.visits < 0 || (is_uct(c.alg) && v.uct_avg == UNAV && !VF_PEEK) || force_text || !VF_PEEK;
    if (need) {
        string s = n.get_pretty_print_string(0), val; long nv;
        if (!parse_prefix(s, kind, val, nv)) pbt::fail("cannot parse printed node: %s", s.substr(0, 200).c_str());
        v.visits = (int)nv; v.exact = false; v.tol_rel = 2e-5;
        double first = strtod(val.c_str(), nullptr);
        if (is_uct(c.alg)) v.uct_avg = first;
        else if (c.alg == DBMENTS) { v.dp = first; v.soft = field_of(val, "soft_val"); v.temp = field_of(val, "temp"); }
        else if (c.alg == DENTS) { (c.use_dp ? v.dp : v.emp) = first; v.soft = field_of(val, "soft_val"); v.ent = field_of(val, "entrpy"); v.vtemp = field_of(val, "val_temp"); size_t p = val.find("(temp:"); if (p != string::npos) v.temp = strtod(val.c_str() + p + 6, nullptr); }
        else if (c.alg == EST) (c.use_dp ? v.dp : v.emp) = first;
        else { v.soft = first; v.temp = field_of(val, "temp"); }
    }
    return v;
}
inline NodeView view(thts::ThtsDNode& n, const Cfg& c, bool text = false) { return view_common(n, c, 'D', text); }
inline NodeView view(thts::ThtsCNode& n, const Cfg& c, bool text = false) { return view_common(n, c, 'C', text); }

// the search policy at a decision node: available only when the internal function exists
template <class U> bool p_policy(U& n, thts::ActionDistr& d, thts::ThtsEnvContext& ctx) {
    if constexpr (VF_PEEK && requires { n.compute_action_distribution(d, ctx); }) { n.compute_action_distribution(d, ctx); return true; }
    return false;
}
}  // namespace vf
