// Reference model of the eight algorithms: replays recorded trajectories and predicts every statistic of the tree.
#pragma once
#include "peek.h"
#include <memory>

namespace vf {
struct RD; struct RC;
struct RC {
    int s, label, depth; RD* parent; int visits = 0;
    double avg = 0; int nb = 0;               // UCT mean, also raw sum for multi-threaded comparison
    double sum = 0;                           // sum of returns-to-go
    double soft = 0; int mb = 0; double dp = 0; int db = 0; double emp = 0; int pb = 0; double ent = 0; int eb = 0;
    double lr = 0;
    double ret0 = 0; bool same = true;         // all returns so far equal ret0, a small dyadic number: means are exact
    std::map<int, RD*> ch;
};
struct RD {
    int s, depth; bool leaf = false; int visits = 0; int stops = 0;
    double avg = 0; int nb = 0; double sum = 0;
    double soft = 0; int mb = 0; double dp = 0; int db = 0; double emp = 0; int pb = 0; double ent = 0; int eb = 0;
    double heur = 0;
    double offset = 0;
    bool ever_backed = false;
    vector<double> parent_w;                  // RENTS: parent's policy at the last selection that reached this node
    std::map<int, RC*> ch;
    int id = 0;
};

struct SelInfo { RD* d; int chosen; vector<double> pol; int trial, step; };

struct Ref {
    const MdpM& m; const Cfg& c;
    std::vector<std::unique_ptr<RD>> ds; std::vector<std::unique_ptr<RC>> cs;
    RD* root = nullptr;
    vector<std::pair<int, int>> from;   // trials start at the node reached from the root by these (action, state) steps
    std::map<std::pair<int, int>, RD*> table;
    bool ambiguous = false;          // a discontinuity of the specification was too close to call
    bool want_policy = false;        // compute the policy at each selection and call on_select
    std::function<void(const SelInfo&)> on_select;
    std::function<void(RC*, int)> on_outcome;
    std::function<void(RD*)> on_new_d;
    long trial_no = 0;
    double qscale = 1;               // largest |Q|/temp met
    long max_new_d_per_trial = 0;

    // RENTS and DENTS feed policies back into values, which can amplify rounding errors from trial to trial without bound.
    // A second copy of the model with a small perturbation of every weight measures that amplification; see chaos().
    std::unique_ptr<Ref> shadow; double noise = 0; uint64_t nrng = 88172645463325252ull;
    double pert() { nrng ^= nrng << 13; nrng ^= nrng >> 7; nrng ^= nrng << 17; return (nrng & 1024) ? noise : -noise; }
    struct Chaos { double soft = 0, ent = 0; };
    Chaos chaos() const {
        Chaos x; if (!shadow) return x;
        auto up = [](double& a, double b, double c) { double d = std::fabs(b - c); if (d > a || std::isnan(d)) a = d; };
        for (size_t i = 0; i < ds.size(); i++) { up(x.soft, ds[i]->soft, shadow->ds[i]->soft); up(x.ent, ds[i]->ent, shadow->ds[i]->ent); }
        for (size_t i = 0; i < cs.size(); i++) { up(x.soft, cs[i]->soft, shadow->cs[i]->soft); up(x.ent, cs[i]->ent, shadow->cs[i]->ent); }
        return x;
    }
    Ref(const MdpM& mm, const Cfg& cc, int root_state = -1, double nz = 0) : m(mm), c(cc), noise(nz) {
        if (nz == 0 && (c.alg == RENTS || c.alg == DENTS)) shadow = std::make_unique<Ref>(mm, cc, root_state, 1e-14);
        root = new_d(root_state < 0 ? m.init : root_state, 0);
    }
    bool opp(int depth) const { return c.two && (((c.t0 + depth) & 1) == 1); }
    double sgn(int depth) const { return opp(depth) ? -1.0 : 1.0; }
    double temp(const RD* d) const {
        if (c.decay == 0) return c.temp;
        double sc = c.scale; if (d->depth == 0 && c.root_scale > 0) sc = c.root_scale;
        return std::max(c.min_temp, c.temp * ref_decay(c.decay, sc * d->visits));
    }
    double vt(int visits, bool root_d) const {
        if (c.vdecay == 0) return c.vinit;
        double sc = c.vscale; if (root_d && c.vroot > 0) sc = c.vroot;
        return std::max(c.vmin, c.vinit * ref_decay(c.vdecay, sc * visits));
    }
    static double clog(double w) { if (w >= 1e32) return 32.0; if (w > 1e-32) return std::log(w); return -32.0; }
    RD* new_d(int s, int depth) {
        ds.push_back(std::make_unique<RD>()); RD* d = ds.back().get(); d->id = (int)ds.size();
        d->s = s; d->depth = depth; d->leaf = m.st[s].sink || depth >= c.max_depth;
        d->heur = c.heur == 0 ? 0.0 : c.heuristic(m, s);
        if (is_uct(c.alg)) { if (c.heur != 0) { d->visits = d->nb = c.pseudo; d->avg = d->heur; } }
        else {
            d->soft = d->heur; d->dp = d->heur; d->db = 1; d->emp = d->heur; d->pb = 1;
            if (c.prior && c.shift) { double t = 0; auto& p = m.st[s].prior; for (double w : p) t += clog(w); d->offset = c.offset - (p.empty() ? 0.0 : t / (double)p.size()); }
            if (c.alg == DENTS) backup_ent(d);
        }
        if (on_new_d) on_new_d(d);
        return d;
    }
    double q(const RD* d, int i) const {    // player-signed Q/value used for weights
        const ActM& a = m.st[d->s].acts[i]; double sg = sgn(d->depth);
        auto it = d->ch.find(a.label);
        if (it != d->ch.end()) {
            RC* k = it->second;
            if (c.alg == DENTS) return sg * ((c.use_dp ? k->dp : k->emp) + vt(d->visits, d->depth == 0) * k->ent);
            if (c.alg == EST) return sg * (c.use_dp ? k->dp : k->emp);
            return sg * k->soft;
        }
        if (c.prior) return clog(m.st[d->s].prior[i]) + d->offset;
        return sg * c.defq;
    }
    vector<double> qs(const RD* d) const { vector<double> v; for (size_t i = 0; i < m.st[d->s].acts.size(); i++) v.push_back(q(d, (int)i)); return v; }
    // sparsemax threshold: smallest-first exact by sorting; returns tau and support size
    static void sparsemax(const vector<double>& z, double& tau, double& val) {
        vector<double> s(z); std::sort(s.rbegin(), s.rend());
        double mx = s[0]; for (auto& x : s) x -= mx;     // shift for accuracy
        double cum = 0, best = 0; int K = 0;
        for (size_t i = 0; i < s.size(); i++) { cum += s[i]; if (1.0 + (double)(i + 1) * s[i] > cum) { K = (int)i + 1; best = cum; } }
        double t = (best - 1.0) / K;
        // spmax(z) = 1/2 + 1/2 sum_{support} (z_i^2 - tau^2); with z = s + mx it equals mx + spmax(s)
        double v = 0.5; for (int i = 0; i < K; i++) v += 0.5 * (s[i] * s[i] - t * t);
        tau = t + mx; val = v + mx;
    }
    // unnormalised algorithm weights, normalised to sum 1 unless all vanish; log-sum value in `lse` (in units of temp)
    vector<double> weights(const RD* d, const vector<double>* parent_pol, const RD* parent, double& value_over_temp) {
        vector<double> z = qs(d); double T = temp(d); size_t n = z.size();
        for (auto& x : z) { x /= T; if (std::fabs(x) > qscale) qscale = std::fabs(x); if (noise > 0) x += pert() * (1.0 + std::fabs(x)); }
        vector<double> w(n);
        if (n == 0) { value_over_temp = 0; return w; }
        if (c.alg == TENTS) {
            double tau; sparsemax(z, tau, value_over_temp); double s = 0;
            for (size_t i = 0; i < n; i++) { w[i] = std::max(0.0, z[i] - tau); s += w[i]; }
            for (auto& x : w) x /= s;
            return w;
        }
        double mx = z[0]; for (double x : z) mx = std::max(mx, x);
        double s = 0;
        for (size_t i = 0; i < n; i++) {
            w[i] = std::exp(z[i] - mx);
            if (c.alg == RENTS && parent) {
                int pi = m.act_index(parent->s, m.st[d->s].acts[i].label);
                w[i] *= pi < 0 ? 0.0 : (*parent_pol)[pi];
            }
            s += w[i];
        }
        if (c.alg == RENTS) {
            if (s > 2e-17 && s < 5e-16) ambiguous = true;
            if (s < 1e-16) { for (auto& x : w) x = 1.0 / n; s = 1.0; }
        }
        value_over_temp = std::log(s) + mx;
        for (auto& x : w) x /= s;
        return w;
    }
    double lambda(const RD* d) const {
        double e = c.eps; if (d->depth == 0 && c.root_eps > 0) e = c.root_eps;
        if (e <= 0) return 0.0;
        double l = e / std::log((double)d->visits + 1.0);
        return std::min(l, c.maxexp);
    }
    vector<double> policy(const RD* d, const vector<double>* pp = nullptr, const RD* parent = nullptr) {
        double v; vector<double> w = weights(d, pp, parent, v); double l = lambda(d); size_t n = w.size();
        double lt = c.pw > 0 ? c.pw / std::log((double)d->visits + 3.0) : 0.0;
        for (size_t i = 0; i < n; i++) {
            double p = w[i] * (1 - l);
            if (c.pw > 0) p = p * (1 - lt) + (1 - l) * lt * m.st[d->s].prior[i];
            p += l / (double)n;
            if (p < 1e-16) p = 0.0;
            w[i] = p;
        }
        return w;
    }
    void backup_ent(RD* d) {
        d->eb++;
        vector<double> p = policy(d);
        double h = 0; for (double x : p) if (x > 0) h -= x * std::log(x);
        d->ent = sgn(d->depth) * h;
        for (auto& kv : d->ch) d->ent += p[m.act_index(d->s, kv.first)] * kv.second->ent;
    }
    RC* get_c(RD* d, int label) {
        auto it = d->ch.find(label); if (it != d->ch.end()) return it->second;
        cs.push_back(std::make_unique<RC>()); RC* k = cs.back().get();
        k->s = d->s; k->label = label; k->depth = d->depth; k->parent = d; k->soft = c.defq; k->lr = m.act(d->s, label).r;
        d->ch[label] = k; return k;
    }
    RD* get_d(RC* k, int s2, bool& created_child, bool& created_d) {
        auto it = k->ch.find(s2); created_child = created_d = false;
        if (it != k->ch.end()) return it->second;
        created_child = true;
        RD* d = nullptr;
        if (c.tt) { auto t = table.find({k->depth + 1, s2}); if (t != table.end()) d = t->second; }
        if (!d) { d = new_d(s2, k->depth + 1); created_d = true; if (c.tt) table[{k->depth + 1, s2}] = d; }
        k->ch[s2] = d; return d;
    }
    // replays one trial; shape: check that it stops exactly where the specification says (single-threaded histories only)
    void replay(const TrialRec& t, bool shape = true) {
        if (shadow) { shadow->from = from; shadow->replay(t, false); ambiguous = ambiguous || shadow->ambiguous; }
        vector<std::pair<RD*, RC*>> path; vector<vector<double>> pols;
        RD* cur = root; for (auto& as : from) cur = cur->ch.at(as.first)->ch.at(as.second); bool fresh = false; size_t i = 0; long newd = 0;
        while (true) {
            bool go = !cur->leaf && !(c.mcts && fresh);
            if (shape) {
                if (go && i >= t.steps.size()) pbt::fail("trial %d stopped after %zu steps at state %d depth %d although it had to continue", t.id, i, cur->s, cur->depth);
                if (!go && i < t.steps.size()) pbt::fail("trial %d continued after step %zu (state %d depth %d, leaf=%d) although it had to stop", t.id, i, cur->s, cur->depth, cur->leaf);
            } else if (cur->leaf && i < t.steps.size()) pbt::fail("trial %d took an action below a leaf (state %d depth %d)", t.id, cur->s, cur->depth);
            if (i >= t.steps.size()) break;
            const Step& st = t.steps[i];
            if (st.s != cur->s) pbt::fail("trial %d step %zu acts in state %d but the trial had reached state %d", t.id, i, st.s, cur->s);
            cur->visits++;
            vector<double> pol;
            if (c.alg == RENTS || (want_policy && !is_uct(c.alg)))
                pol = policy(cur, c.alg == RENTS && i > 0 ? &pols.back() : nullptr, c.alg == RENTS && i > 0 ? path.back().first : nullptr);
            if (on_select) on_select({cur, st.a, pol, (int)trial_no, (int)i});
            RC* k = get_c(cur, st.a);
            k->visits++;
            if (on_outcome) on_outcome(k, st.s2);
            bool cc, cd; RD* nxt = get_d(k, st.s2, cc, cd);
            fresh = cc; if (cd) newd++;
            path.push_back({cur, k}); pols.push_back(pol);
            cur = nxt; i++;
        }
        max_new_d_per_trial = std::max(max_new_d_per_trial, newd);
        cur->visits++; cur->stops++;
        if (!is_uct(c.alg) && cur->leaf) { cur->mb++; if (has_dp(c.alg)) cur->db++; }
        double ret = cur->heur;
        for (size_t j = path.size(); j-- > 0;) {
            ret += t.steps[j].r;
            RD* d = path[j].first; RC* k = path[j].second;
            backup_c(k, ret);
            const vector<double>* pp = c.alg == RENTS && j > 0 ? &pols[j - 1] : nullptr;
            backup_d(d, ret, pp, j > 0 ? path[j - 1].first : nullptr);
        }
        trial_no++;
    }
    void backup_c(RC* k, double ret) {
        if (k->nb == 0) { k->ret0 = ret; k->same = std::fabs(ret) < 1e6 && ret * 16 == std::floor(ret * 16); } else if (ret != k->ret0) k->same = false;
        k->sum += ret;
        if (is_uct(c.alg)) { k->nb++; k->avg = k->sum / k->nb; return; }
        k->mb++;
        if (c.alg == DENTS || c.alg == EST) {
            if (c.alg == DENTS) {
                k->eb++; double n = 0, s = 0; for (auto& kv : k->ch) { n += kv.second->eb; s += kv.second->eb * kv.second->ent; }
                k->ent = n > 0 ? s / n : 0.0;
            }
            if (c.use_dp) dp_c(k); else { k->pb++; k->emp = k->sum / k->pb; }
            if (c.alg == DENTS) k->soft = (c.use_dp ? k->dp : k->emp) + vt(k->visits, false) * k->ent;
            return;
        }
        double n = 0, s = 0; for (auto& kv : k->ch) { n += kv.second->mb; s += kv.second->mb * kv.second->soft; }
        k->soft = k->lr + (n > 0 ? s / n : 0.0);
        if (c.alg == DBMENTS) dp_c(k);
    }
    void dp_c(RC* k) {
        double n = 0, s = 0; for (auto& kv : k->ch) { n += kv.second->db; s += kv.second->db * kv.second->dp; }
        k->dp = k->lr + (n > 0 ? s / n : 0.0); k->db++;
    }
    void dp_d(RD* d) {
        double sg = sgn(d->depth), best = -INFINITY; for (auto& kv : d->ch) if (kv.second->db > 0) best = std::max(best, sg * kv.second->dp);
        d->dp = sg * best; d->db++;
    }
    void backup_d(RD* d, double ret, const vector<double>* pp, const RD* parent) {
        d->sum += ret; d->ever_backed = true;
        if (is_uct(c.alg)) { d->nb++; int ps = c.heur != 0 ? c.pseudo : 0; d->avg = (d->sum + ps * d->heur) / d->nb; return; }
        d->mb++;
        if (c.alg == DENTS || c.alg == EST) {
            if (c.alg == DENTS) backup_ent(d);
            if (c.use_dp) dp_d(d); else { d->pb++; d->emp = (d->heur + d->sum) / d->pb; }
            if (c.alg == DENTS) d->soft = (c.use_dp ? d->dp : d->emp) + vt(d->visits, d->depth == 0) * d->ent;
            return;
        }
        double v; weights(d, pp, parent, v);
        d->soft = sgn(d->depth) * temp(d) * v;
        if (c.alg == DBMENTS) dp_d(d);
    }
};

enum Aspect { A_VISITS = 1, A_UCT = 2, A_SOFT = 4, A_DP = 8, A_EMP = 16, A_ENT = 32, A_TEMP = 64, A_SHAPE = 128 };

struct Cmp {
    Inst& I; Ref& R; int mask; bool text; bool counts = true;
    double tol_abs; Ref::Chaos chaos;
    std::set<std::pair<void*, void*>> seen;
    std::map<void*, RD*> d_of;       // real decision node -> reference node (object identity)
    std::map<RD*, void*> real_of;
    long nd = 0, nc = 0; double maxerr = 0;
    Cmp(Inst& i, Ref& r, int mk, bool tx = false) : I(i), R(r), mask(mk), text(tx) {
        double rs = 1.0;
        for (auto& d : r.ds) rs = std::max({rs, std::fabs(d->soft), std::fabs(d->dp), std::fabs(d->avg), std::fabs(d->heur)});
        for (auto& k : r.cs) rs = std::max({rs, std::fabs(k->soft), std::fabs(k->dp), std::fabs(k->avg)});
        tol_abs = 1e-9 * rs;
        chaos = r.chaos();
        if (I.cfg.alg == TENTS) { double T = 0; for (auto& d : r.ds) T = std::max(T, r.temp(d.get())); tol_abs += 1e-13 * r.qscale * r.qscale * T * 8; }
    }
    void num(const char* what, double got, double want, const string& where, double extra, double scale = 1.0, double slack = 0.0) {
        if (got == UNAV) return;
        double tol = tol_abs * scale + extra * std::max(1.0, std::fabs(want)) + 1e-9 * std::fabs(want) + 2 * slack;
        double err = std::fabs(got - want);
        if (!(err <= tol)) pbt::fail("%s at %s is %.12g but the specification gives %.12g (tolerance %.3g) [%s]", what, where.c_str(), got, want, tol, I.cfg.str().c_str());
        if (err / (tol + 1e-300) > maxerr) maxerr = err / (tol + 1e-300);
    }
    void cnt(const char* what, int got, int want, const string& where) {
        if (got < 0 || !counts) return;
        if (got != want) pbt::fail("%s at %s is %d but the specification gives %d [%s]", what, where.c_str(), got, want, I.cfg.str().c_str());
    }
    void d(thts::ThtsDNode& n, RD* r, const string& where) {
        if (!seen.insert({&n, r}).second) return;
        auto x = d_of.emplace(&n, r); auto y = real_of.emplace(r, &n);
        if ((mask & A_SHAPE) && (x.first->second != r || y.first->second != (void*)&n))
            pbt::fail("node sharing at %s differs from the specification (transposition table %s) [%s]", where.c_str(), I.cfg.tt ? "on" : "off", I.cfg.str().c_str());
        nd++;
        NodeView v = view(n, I.cfg, text); double ex = v.tol_rel; const Cfg& c = I.cfg;
        if (mask & A_VISITS) { if (v.visits != r->visits) pbt::fail("visit count at %s is %d but %d trials (incl. pseudo-trials) passed there [%s]", where.c_str(), v.visits, r->visits, c.str().c_str()); }
        if ((mask & A_UCT) && is_uct(c.alg)) { num("mean return", v.uct_avg, r->avg, where, ex); cnt("backup count", v.uct_nb, r->nb, where); }
        double Ts = R.qscale;
        if (!is_uct(c.alg)) {
            if ((mask & A_SOFT) && c.alg != EST) { num("soft value", v.soft, r->soft, where, ex, 1.0, chaos.soft); if (c.alg != DENTS) cnt("soft backup count", v.mb, r->mb, where); }
            if ((mask & A_DP) && (c.alg == DBMENTS || (has_dp(c.alg) && c.use_dp))) { num("Bellman value", v.dp, r->dp, where, ex); cnt("Bellman backup count", v.db, r->db, where); }
            if ((mask & A_EMP) && is_dents_mgr(c.alg) && !c.use_dp) { num("empirical value", v.emp, r->emp, where, ex); cnt("empirical backup count", v.pb, r->pb, where); }
            if ((mask & A_ENT) && c.alg == DENTS) { num("subtree entropy", v.ent, r->ent, where, ex, 1.0 + Ts, chaos.ent); cnt("entropy backup count", v.eb, r->eb, where); }
            if (mask & A_TEMP) { if (c.alg != EST || v.temp != UNAV) num("temperature", v.temp, R.temp(r), where, ex); if (c.alg == DENTS) num("value temperature", v.vtemp, R.vt(r->visits, r->depth == 0), where, ex); }
        }
        if (n.get_num_children() != (int)r->ch.size()) pbt::fail("decision node %s has %d children but trials took %zu different actions there [%s]", where.c_str(), n.get_num_children(), r->ch.size(), c.str().c_str());
        for (auto& kv : r->ch) {
            auto a = I.env->make_action(kv.first);
            if (!n.has_child_node_itfc(a)) pbt::fail("decision node %s lacks a child for action %d that a trial took [%s]", where.c_str(), kv.first, c.str().c_str());
            ccmp(*n.get_child_node_itfc(a), kv.second, where + "/a" + std::to_string(kv.first));
        }
    }
    void ccmp(thts::ThtsCNode& n, RC* r, const string& where) {
        nc++;
        NodeView v = view(n, I.cfg, text); double ex = v.tol_rel; const Cfg& c = I.cfg;
        if ((mask & A_VISITS) && v.visits != r->visits) pbt::fail("visit count at %s is %d but %d trials passed there [%s]", where.c_str(), v.visits, r->visits, c.str().c_str());
        if ((mask & A_UCT) && is_uct(c.alg)) { num("mean return", v.uct_avg, r->avg, where, ex); cnt("backup count", v.uct_nb, r->nb, where); }
        if (!is_uct(c.alg)) {
            if ((mask & A_SOFT) && c.alg != EST) { num("soft value", v.soft, r->soft, where, ex, 1.0, chaos.soft); }
            if ((mask & A_DP) && (c.alg == DBMENTS || (has_dp(c.alg) && c.use_dp))) { num("Bellman value", v.dp, r->dp, where, ex); cnt("Bellman backup count", v.db, r->db, where); }
            if ((mask & A_EMP) && is_dents_mgr(c.alg) && !c.use_dp) { num("empirical value", v.emp, r->emp, where, ex); cnt("empirical backup count", v.pb, r->pb, where); }
            if ((mask & A_ENT) && c.alg == DENTS) num("subtree entropy", v.ent, r->ent, where, ex, 1.0 + R.qscale, chaos.ent);
            if ((mask & A_TEMP) && c.alg == DENTS) num("value temperature", v.vtemp, R.vt(r->visits, false), where, ex);
        }
        if (n.get_num_children() != (int)r->ch.size()) pbt::fail("chance node %s has %d children but trials saw %zu different outcomes there [%s]", where.c_str(), n.get_num_children(), r->ch.size(), c.str().c_str());
        for (auto& kv : r->ch) {
            auto o = std::static_pointer_cast<const thts::Observation>(I.env->make_state(kv.first));
            if (!n.has_child_node_itfc(o)) pbt::fail("chance node %s lacks a child for outcome %d that a trial saw [%s]", where.c_str(), kv.first, c.str().c_str());
            d(*n.get_child_node_itfc(o), kv.second, where + "/s" + std::to_string(kv.first));
        }
    }
};

inline void replay_all(Ref& R, const MdpEnv& e, size_t from = 0, bool shape = true) { for (size_t i = from; i < e.trials.size(); i++) R.replay(*e.trials[i], shape); }
// runs n trials with a one-thread pool
inline void run_pool(Inst& I, int n, int threads = 1) { thts::ThtsPool pool(I.mgr, I.root, threads); pool.run_trials(n); }
}  // namespace vf
