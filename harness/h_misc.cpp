// Distributions, sampling helpers, RNG, Monte-Carlo evaluation, types and contexts.
#include <deque>
#include "treeutil.h"
#include "mcutil.h"
#include "helper_templates.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
using namespace vf;
using std::unordered_map;

struct TapRand : public thts::RandManager, public RngTap {
    TapRand(int seed) : thts::RandManager(seed) {}
    double get_rand_uniform() override { if (scripted) { ucalls++; return u; } return thts::RandManager::get_rand_uniform(); }
    int get_rand_int(int lo, int hi) override {
        if (scripted) { icalls++; last_lo = lo; last_hi = hi; if (ival >= 0 && hi > lo) return lo + ival % (hi - lo); }
        return thts::RandManager::get_rand_int(lo, hi);
    }
};

// ------------------------------------------------------------------------------------------------ C16 distributions
// Samples f on the full grid (random integer x random real) when it draws in the way of the alias method, or on a grid of reals
// when it draws one real, or statistically; returns the largest deviation found as text (empty: agrees).
struct Sampled { std::map<int, double> p; double slack; bool exact; long n; };
static Sampled sample_profile(const std::function<int()>& f, TapRand& tr, int grid, int nstat) {
    Sampled s; s.exact = true; s.slack = 0; s.n = 0;
    tr.scripted = true; tr.ival = 0; tr.u = 0.5; long u0 = tr.ucalls, i0 = tr.icalls; f(); long du = tr.ucalls - u0, di = tr.icalls - i0;
    std::map<int, long> cnt; long tot = 0;
    if (di == 1 && du <= 1 && tr.last_lo == 0 && tr.last_hi >= 1 && tr.last_hi <= 512) {
        if (tr.last_hi > 64) grid = std::max(20, grid * 64 / tr.last_hi);
        int n = tr.last_hi; bool anyu = du > 0;
        for (int i = 0; i < n && s.exact; i++) for (int g = 0; g < grid; g++) {
            tr.ival = i; tr.u = (g + 0.5) / grid; u0 = tr.ucalls; i0 = tr.icalls; cnt[f()]++; tot++;
            if (tr.ucalls - u0 > 1 || tr.icalls - i0 != 1 || tr.last_hi != n) { s.exact = false; break; }
            anyu |= tr.ucalls != u0;
        }
        s.slack = anyu ? 1.01 / grid + 1e-9 : 1e-9;
    } else if (di == 0 && du == 1) {
        grid *= 8; std::map<int, long> runs; int prev = INT_MIN;
        for (int g = 0; g < grid && s.exact; g++) { tr.u = (g + 0.5) / grid; u0 = tr.ucalls; int k = f(); cnt[k]++; tot++; if (k != prev) { runs[k]++; prev = k; } if (tr.ucalls - u0 != 1 || tr.icalls != i0) s.exact = false; }
        long mr = 1; for (auto& kv : runs) mr = std::max(mr, kv.second); s.slack = 1.01 * mr / grid + 1e-9;
    } else s.exact = false;
    tr.scripted = false; tr.ival = -1;
    if (!s.exact) { cnt.clear(); tot = 0; for (int i = 0; i < nstat; i++) { cnt[f()]++; tot++; } }
    for (auto& kv : cnt) s.p[kv.first] = (double)kv.second / tot;
    s.n = tot; return s;
}
static bool profile_matches(const Sampled& s, const std::map<int, double>& w, string* why = nullptr) {
    double t = 0; for (auto& kv : w) t += kv.second;
    for (auto& kv : s.p) { auto it = w.find(kv.first); if (it == w.end() || it->second <= 0) { if (why) *why = "key " + std::to_string(kv.first) + " of weight zero was sampled"; return false; } }
    for (auto& kv : w) {
        double p = kv.second / t, g = s.p.count(kv.first) ? s.p.at(kv.first) : 0.0;
        double b = s.exact ? s.slack : freedman(s.n * p * (1 - p)) / s.n;
        bool never = !s.exact && g == 0 && p > 0 && (p >= 1 || s.n * std::log1p(-p) < -32);
        if (never || std::fabs(p - g) > b) { if (why) { char x[200]; snprintf(x, 200, "key %d has probability %.6f but is sampled with frequency %.6f (%s, %ld samples)", kv.first, p, g, s.exact ? "grid" : "statistical", s.n); *why = x; } return false; }
    }
    return true;
}
static double gen_weight() { switch (draw(6)) { case 0: return range(1, 10); case 1: return real01(); case 2: return 1.0; case 3: return 0.0; case 4: return std::pow(10.0, chance(1, 6) ? range(-150, 150) : range(-6, 6)); default: return range(1, 3) / 3.0; } }
static std::map<int, double> gen_weights(int maxn) {
    std::map<int, double> w; int n = range(1, maxn); for (int i = 0; i < n; i++) w[maxn > 100 ? i : range(0, 40)] = gen_weight();
    double t = 0; for (auto& kv : w) t += kv.second; if (t <= 0) w[range(0, 40)] = range(1, 4);
    return w;
}
static string show(const std::map<int, double>& w) { std::ostringstream o; o << "{"; for (auto& kv : w) o << kv.first << ":" << kv.second << " "; o << "}"; return o.str(); }
static shared_ptr<unordered_map<int, double>> um(const std::map<int, double>& w) { auto m = make_shared<unordered_map<int, double>>(); for (auto& kv : w) (*m)[kv.first] = kv.second; return m; }

PBT_TARGET(categorical, "categorical", 180000, 3000000, "random weight maps (zero, tiny, huge, equal weights) and random sequences of updates of single weights, new keys and whole replacement distributions of other sizes, naive and alias method with rebuild interval 1-5; after each step the sampling probabilities, measured on a grid of random values, must equal the current normalised weights (alias: those after one of the last <interval> updates). Non-trivial: at least 2 keys of positive weight and one update") {
    bool vast = chance(1, 150); auto w = gen_weights(vast ? 400 : chance(1, 8) ? 30 : 7); bool alias = chance(2, 3); int freq = alias && chance(1, 2) ? (chance(1, 8) ? range(6, 20) : range(2, 5)) : 1; TapRand tr(range(1, 100000));
    describe() << (alias ? "alias" : "naive") << " freq=" << freq << " " << show(w); commit_desc();
    bool dflt = freq == 1 && chance(1, 2); auto dp = dflt ? (alias ? make_shared<thts::CategoricalDistribution<int>>(um(w), true) : make_shared<thts::CategoricalDistribution<int>>(um(w))) : make_shared<thts::CategoricalDistribution<int>>(um(w), alias, freq); thts::CategoricalDistribution<int>& d = *dp; std::deque<std::map<int, double>> recent{w};
    int steps = vast ? range(0, 3) : freq > 5 ? range(5, 45) : range(0, 6); bool upd = false;
    for (int k = 0; k <= steps; k++) {
        if (k > 0) {
            if (chance(1, 4)) { w = gen_weights(7); describe() << " replace" << show(w); commit_desc(); d.update(um(w)); recent = {w}; }
            else {
                int key = chance(1, 3) ? range(0, 60) : std::next(w.begin(), draw(w.size()))->first; double x = gen_weight(); auto w2 = w; w2[key] = x; double t = 0; for (auto& kv : w2) t += kv.second; if (t <= 0) { x = 2.0; w2[key] = x; }
                w = w2; describe() << " " << key << ":=" << x; commit_desc(); d.update(key, x); recent.push_back(w); }
            commit_desc(); upd = true;
            while ((int)recent.size() > (alias ? freq : 1)) recent.pop_front();
        }
        if (k > 0 && chance(freq > 5 ? 4 : 1, freq > 5 ? 5 : 3)) continue;
        Sampled s = sample_profile([&] { return d.sample(tr); }, tr, 220, 1500); string why; bool ok = false;
        for (auto it = recent.rbegin(); it != recent.rend() && !ok; ++it) ok = profile_matches(s, *it, it == recent.rbegin() ? &why : nullptr);
        PBT_CHECK(ok, "after %d updates the %s sampler does not follow the weights %s: %s", k, alias ? "alias" : "naive", show(w).c_str(), why.c_str());
        add("samples", s.n);
    }
    int pos = 0; for (auto& kv : w) pos += kv.second > 0; if (pos >= 2 && upd) nontrivial();
}
PBT_TARGET(mixtures, "mixtures", 120000, 2000000, "random discrete uniform distributions (with repeated keys) and random mixtures of categorical and uniform distributions (also nested); sampling frequencies against the exact mixture probabilities. Non-trivial: at least 2 components of positive weight") {
    TapRand tr(range(1, 100000));
    if (chance(1, 3)) {
        int n = chance(1, 6) ? range(12, 300) : range(1, 12); auto v = make_shared<vector<int>>(); std::map<int, double> w; for (int i = 0; i < n; i++) { int k = range(0, n > 12 ? 40 : 8); v->push_back(k); w[k] += 1; }
        describe() << "uniform n=" << n << " " << show(w); commit_desc(); thts::DiscreteUniformDistribution<int> d(v);
        Sampled s = sample_profile([&] { return d.sample(tr); }, tr, 30, 1500); string why; PBT_CHECK(profile_matches(s, w, &why), "discrete uniform distribution: %s", why.c_str());
        Sampled s2; s2.exact = false; s2.n = 1200; { std::map<int, long> c; for (int i = 0; i < 1200; i++) c[d.sample(tr)]++; for (auto& kv : c) s2.p[kv.first] = kv.second / 1200.0; } PBT_CHECK(profile_matches(s2, w, &why), "discrete uniform distribution: %s", why.c_str());
        if (w.size() >= 2) nontrivial(); return;
    }
    std::function<std::pair<shared_ptr<thts::Distribution<int>>, std::map<int, double>>(int)> make = [&](int depth) -> std::pair<shared_ptr<thts::Distribution<int>>, std::map<int, double>> {
        int kind = depth <= 0 ? (int)draw(2) : 2;
        if (kind == 0) { auto w = gen_weights(5); double t = 0; for (auto& kv : w) t += kv.second; for (auto& kv : w) kv.second /= t; return {make_shared<thts::CategoricalDistribution<int>>(um(w), chance(1, 2)), w}; }
        if (kind == 1) { auto v = make_shared<vector<int>>(); std::map<int, double> w; int n = range(1, 5); for (int i = 0; i < n; i++) { v->push_back(range(0, 40)); w[v->back()] += 1.0 / n; } return {make_shared<thts::DiscreteUniformDistribution<int>>(v), w}; }
        auto mm = make_shared<thts::MixedDistributionDistr<int>>(); std::map<int, double> tot; int n = range(1, 4); vector<int> wt; int sum = 0; for (int i = 0; i < n; i++) { wt.push_back(chance(1, 5) ? 0 : range(1, 9)); sum += wt.back(); } if (!sum) { wt[0] = 1; sum = 1; }
        for (int i = 0; i < n; i++) { auto c = make(chance(1, 5) ? depth - 1 : 0); double p = (double)wt[i] / sum; (*mm)[c.first] = p; for (auto& kv : c.second) tot[kv.first] += p * kv.second; }
        return {make_shared<thts::MixedDistribution<int>>(mm), tot};
    };
    auto c = make(range(1, 2)); describe() << "mixture " << show(c.second); commit_desc();
    Sampled s; s.exact = false; s.n = 1500; std::map<int, long> cnt; for (int i = 0; i < 1500; i++) cnt[c.first->sample(tr)]++; for (auto& kv : cnt) s.p[kv.first] = kv.second / 1500.0;
    string why; PBT_CHECK(profile_matches(s, c.second, &why), "mixture: %s", why.c_str());
    if (c.second.size() >= 2) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C17 helpers and RNG
PBT_TARGET(sample_helper, "sample_helper", 10000, 800000, "random weight maps with int keys: sample_from_distribution on a grid of random values (normalised and unnormalised; maps wrongly claimed to be normalised must raise, exactly on the missing mass), and get_max_key_break_ties_randomly on maps with ties, infinities and negative values on every random integer. Non-trivial: at least 2 keys of positive weight") {
    TapRand tr(range(1, 100000)); auto w = gen_weights(chance(1, 10) ? 30 : 8); double t = 0; for (auto& kv : w) t += kv.second; int mode = range(0, 3); int pos = 0; for (auto& kv : w) pos += kv.second > 0;
    if (mode != 1) { for (auto& kv : w) kv.second /= t; t = 1; }
    double f = 1; if (mode >= 2) { f = mode == 2 ? 0.25 + 0.7 * real01() : 1.01 + real01(); for (auto& kv : w) kv.second *= f; }
    auto m = um(w); describe() << "mode=" << mode << " factor=" << f << " " << show(w); commit_desc();
    int grid = 400; std::map<int, long> cnt; long thrown = 0; int got = -1; bool one = true;
    std::cout.setstate(std::ios::failbit);
    tr.scripted = true;
    for (int g = 0; g < grid; g++) {
        tr.u = g == 0 ? 0.0 : g == grid - 1 ? std::nextafter(1.0, 0.0) : (g + 0.5) / grid; long u0 = tr.ucalls, i0 = tr.icalls;
        try { got = thts::helper::sample_from_distribution(*m, tr, mode != 1); cnt[got]++; if (!w.count(got) || w[got] <= 0) pbt::fail("sample_from_distribution returned key %d of weight zero (%s)", got, show(w).c_str()); }
        catch (const std::exception&) { thrown++; if (mode <= 1) pbt::fail("sample_from_distribution raised an exception for a valid %s distribution %s at random value %.17g", mode == 1 ? "unnormalised" : "normalised", show(w).c_str(), tr.u); }
        if (tr.ucalls - u0 != 1 || tr.icalls != i0) { one = false; break; }
    }
    tr.scripted = false;
    if (mode == 3) PBT_CHECK(thrown == grid || !one, "weights summing to %.6f were accepted as normalised on %ld of %d random values", f, grid - thrown, grid);
    else if (one) {
        for (auto& kv : w) { double p = mode == 1 ? kv.second / t : kv.second; long c = cnt.count(kv.first) ? cnt[kv.first] : 0; PBT_CHECK(std::fabs(c - p * grid) <= 2.02, "key %d of probability %.6f is returned on %ld of %d equidistant random values (%s, %s)", kv.first, p, c, grid, mode == 1 ? "unnormalised" : "normalised", show(w).c_str()); }
        if (mode == 2) PBT_CHECK(std::fabs(thrown - (1 - f) * grid) <= 2.02, "weights summing to %.6f were rejected on %ld of %d random values", f, thrown, grid);
    } else { // statistical
        cnt.clear(); thrown = 0; int N = 3000; for (int i = 0; i < N; i++) try { cnt[thts::helper::sample_from_distribution(*m, tr, mode != 1)]++; } catch (const std::exception&) { thrown++; }
        if (mode <= 1) PBT_CHECK(thrown == 0, "exception for a valid distribution"); for (auto& kv : w) { double p = mode == 1 ? kv.second / t : kv.second; PBT_CHECK(std::fabs(cnt[kv.first] - p * N) <= freedman(N * p * (1 - p)), "key %d of probability %.6f was returned %ld of %d times", kv.first, p, cnt[kv.first], N); }
    }
    // argmax
    unordered_map<int, double> mx; int n = chance(1, 4) ? range(10, 70) : range(1, 10), mode2 = range(0, 4), top = n > 10 ? 200 : 30;
    for (int i = 0; i < n; i++) { double v = mode2 == 0 ? range(-2, 2) : mode2 == 1 ? real01() : mode2 == 2 ? -INFINITY : mode2 == 3 ? (chance(1, 3) ? INFINITY : range(-3, 3)) : -std::pow(10.0, range(0, 300)); mx[range(0, top)] = v; }
    double best = -INFINITY; for (auto& kv : mx) best = std::max(best, kv.second); std::map<int, double> ties; for (auto& kv : mx) if (kv.second == best) ties[kv.first] = 1.0;
    std::ostringstream o; for (auto& kv : mx) o << kv.first << ":" << kv.second << " "; describe() << " argmax{" << o.str() << "}"; commit_desc();
    if (ties.size() == 1) { for (int i = 0; i < 3; i++) { int k = thts::helper::get_max_key_break_ties_randomly(mx, tr); PBT_CHECK(ties.count(k), "arg max of {%s} is %d", o.str().c_str(), k); } }
    else { Sampled s = sample_profile([&] { return thts::helper::get_max_key_break_ties_randomly(mx, tr); }, tr, 3, 600); string why; PBT_CHECK(profile_matches(s, ties, &why), "arg max of {%s}: %s", o.str().c_str(), why.c_str()); }
    unordered_map<int, int> mi; for (int i = 0; i < n; i++) mi[range(0, top)] = chance(1, 4) ? std::numeric_limits<int>::lowest() : range(-3, 3); int bi = std::numeric_limits<int>::lowest(); for (auto& kv : mi) bi = std::max(bi, kv.second);
    for (int i = 0; i < 3; i++) { int k = thts::helper::get_max_key_break_ties_randomly(mi, tr); PBT_CHECK(mi.count(k) && mi[k] == bi, "integer arg max is wrong"); }
    if (pos >= 2) nontrivial();
}
static int gen_seed() { switch (draw(4)) { case 0: return range(1, 10); case 1: return -range(1, 1000); case 2: return pick({1, -1, 2147483647, -2147483647 - 1, 60415, 65536}); default: return range(1, 2147483647); } }
PBT_TARGET(rng, "rng", 20000, 1200000, "random seeds and ranges: integers in [min,max) and uniform (bucket counts within a Freedman bound at 1e-13), reals in [0,1) and uniform (buckets, serial pairs), same non-zero seed gives the same stream however integer and real draws interleave, different seeds different streams, seed zero unpredictable. Non-trivial: always") {
    int seed = gen_seed(), seed2 = chance(1, 2) ? gen_seed() : (int)((unsigned)seed ^ (1u << draw(32))); int lo = chance(1, 3) ? -range(0, 1000) : range(0, 100), len = chance(1, 6) ? range(1, 100000) : range(1, 12); bool huge = chance(1, 6);
    if (huge) { len = chance(1, 2) ? range(1, 1000) : range(1, 2147483647); int64_t l = (int64_t)draw(4294967295ull) - 2147483648ll; lo = (int)std::max<int64_t>(-2147483648ll, std::min<int64_t>(l, 2147483647ll - len)); }
    describe() << "seed=" << seed << " range=[" << lo << "," << lo + len << ")"; commit_desc();
    thts::RandManager a(seed), b(seed), c(seed2); const int N = 1500; vector<int> ia; vector<double> ra;
    int B = std::min(len, 8); vector<long> cnt(B), rc(8), pr(16), ip(16); int lb = -1, lib = -1;
    for (int i = 0; i < N; i++) {
        int x = a.get_rand_int(lo, lo + len); double r = a.get_rand_uniform(); ia.push_back(x); ra.push_back(r);
        PBT_CHECK(x >= lo && x < lo + len, "random integer %d outside [%d,%d)", x, lo, lo + len); PBT_CHECK(r >= 0.0 && r < 1.0, "random real %.17g outside [0,1)", r);
        int ib = (int)(((int64_t)x - lo) * B / len); cnt[ib]++; rc[(int)(r * 8)]++; int q = (int)(r * 4); if (lb >= 0) pr[lb * 4 + q]++; lb = q;
        if (len % 4 == 0) { int z = (int)(((int64_t)x - lo) % 4); if (lib >= 0) ip[lib * 4 + z]++; lib = z; }
    }
    if (len < 1000000) for (int k = 0; k < B; k++) { int64_t c0 = ((int64_t)k * len + B - 1) / B, c1 = ((int64_t)(k + 1) * len + B - 1) / B; double p = (double)(c1 - c0) / len; PBT_CHECK(std::fabs(cnt[k] - N * p) <= freedman(N * p * (1 - p)), "random integers in [%d,%d): bucket %d of probability %.4f has %ld of %d draws", lo, lo + len, k, p, cnt[k], N); }
    for (int k = 0; k < 8; k++) PBT_CHECK(std::fabs(rc[k] - N / 8.0) <= freedman(N * 7 / 64.0), "random reals: bucket %d of 8 has %ld of %d draws", k, rc[k], N);
    for (int k = 0; k < 16; k++) { PBT_CHECK(std::fabs(pr[k] - (N - 1) / 16.0) <= freedman(N / 16.0) + 20, "consecutive random reals are correlated: pair bucket %d has %ld of %d", k, pr[k], N - 1); if (len % 4 == 0) PBT_CHECK(std::fabs(ip[k] - (N - 1) / 16.0) <= freedman(N / 16.0) + 20, "consecutive random integers are correlated: pair bucket %d has %ld of %d", k, ip[k], N - 1); }
    // same seed, other interleaving
    size_t i = 0, j = 0; while (i < 300 || j < 300) { if (j >= 300 || (i < 300 && chance(1, 2))) { int x = b.get_rand_int(lo, lo + len); PBT_CHECK(x == ia[i], "the same seed gave another %zu-th integer", i); i++; } else { double r = b.get_rand_uniform(); PBT_CHECK(r == ra[j], "the same seed gave another %zu-th real", j); j++; } }
    if (seed2 != seed) { bool same = true; for (int k = 0; k < 40; k++) same = same && c.get_rand_uniform() == ra[k]; bool si = true; for (int k = 0; k < 40; k++) si = si && c.get_rand_int(lo, lo + len) == ia[k]; PBT_CHECK(!same && !(si && len > 8), "seeds %d and %d give the same stream", seed, seed2); }
    { thts::RandManager z1(0), z2(0); bool same = true, sr = true; for (int k = 0; k < 40; k++) { same = same && z1.get_rand_uniform() == z2.get_rand_uniform(); sr = sr && z1.get_rand_int(0, 1 << 30) == z2.get_rand_int(0, 1 << 30); } PBT_CHECK(!same && !sr, "two generators with seed 0 give the same stream"); }
    nontrivial();
}
PBT_TARGET(rng_threads, "rng_threads", 900, 10000, "one generator used by 2-6 threads at once: the values drawn are together exactly the first values of the stream of that seed. Non-trivial: always", t.deterministic = false) {
    int seed = gen_seed(), T = range(2, 6), per = range(50, 2000); describe() << "seed=" << seed << " threads=" << T << " draws=" << per; commit_desc();
    thts::RandManager a(seed), b(seed); vector<vector<int>> xi(T); vector<vector<double>> xr(T); vector<std::thread> th; std::atomic<int> go{0};
    for (int k = 0; k < T; k++) th.emplace_back([&, k] { go++; while (go < T) {} for (int i = 0; i < per; i++) { xi[k].push_back(a.get_rand_int(0, 1000003)); xr[k].push_back(a.get_rand_uniform()); } });
    for (auto& t : th) t.join();
    vector<int> gi, wi; vector<double> gr, wr; for (int k = 0; k < T; k++) { gi.insert(gi.end(), xi[k].begin(), xi[k].end()); gr.insert(gr.end(), xr[k].begin(), xr[k].end()); }
    for (int i = 0; i < T * per; i++) { wi.push_back(b.get_rand_int(0, 1000003)); wr.push_back(b.get_rand_uniform()); }
    std::sort(gi.begin(), gi.end()); std::sort(wi.begin(), wi.end()); std::sort(gr.begin(), gr.end()); std::sort(wr.begin(), wr.end());
    PBT_CHECK(gi == wi, "integers drawn by %d threads are not the generator's stream", T); PBT_CHECK(gr == wr, "reals drawn by %d threads are not the generator's stream", T);
    nontrivial();
}

// ------------------------------------------------------------------------------------------------ C19 Monte-Carlo evaluation
PBT_TARGET(mc_eval, "mc_eval", 24000, 300000, "random problems searched by user-defined nodes with a known deterministic recommendation, then 1-3 run_rollouts calls with one thread; number, connectivity, length, actions, outcomes and returns of the recorded rollouts, reported mean and standard deviation. Non-trivial: at least 3 rollouts with steps") { mc_case(1); }
PBT_TARGET(eval_policy, "eval_policy", 40000, 600000, "random problems searched by user-defined nodes with a known recommendation, then random histories on up to 4 evaluation policies: steps with the chosen or another action to any possible state, resets, copies (which then start over), random actions; every chosen action against the path followed in the tree. Non-trivial: at least 3 actions asked for and a reset or copy") { policy_case(); }
PBT_TARGET(mc_eval_threads, "mc_eval_threads", 5000, 80000, "as mc_eval with 2-6 threads", t.deterministic = false) { mc_case(range(2, 6)); }

// ------------------------------------------------------------------------------------------------ C21 types
struct Val { int kind; int a = 0, b = 0, c = 0; string s; bool operator<(const Val& o) const { return std::tie(kind, a, b, c, s) < std::tie(o.kind, o.a, o.b, o.c, o.s); } bool operator==(const Val& o) const { return kind == o.kind && a == o.a && b == o.b && c == o.c && s == o.s; }
    string text() const { switch (kind) { case 0: return "(" + std::to_string(a) + ")"; case 1: return "(" + std::to_string(a) + "," + std::to_string(b) + ")"; case 2: return "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + ")"; case 3: return std::to_string(a); default: return s; } } };
static int gen_int() { return chance(1, 6) ? pick({2147483647, -2147483647 - 1, -1, 65536, 1000000007}) : range(-2, 3); }
static Val gen_val(bool action) {
    Val v; v.kind = action ? range(3, 4) : range(0, 2);
    if (v.kind == 4) { int n = range(0, 3); for (int i = 0; i < n; i++) v.s += pick({'a', 'b', ' ', '\0', 'A', '1'}); if (chance(1, 20)) v.s += string(40, 'x'); return v; }
    v.a = gen_int(); if (v.kind == 1 || v.kind == 2) v.b = gen_int(); if (v.kind == 2) v.c = gen_int(); return v;
}
static shared_ptr<const thts::State> mk_state(const Val& v) { if (v.kind == 0) return make_shared<const thts::IntState>(v.a); if (v.kind == 1) return chance(1, 2) ? make_shared<const thts::IntPairState>(v.a, v.b) : make_shared<const thts::IntPairState>(std::make_pair(v.a, v.b)); return chance(1, 2) ? make_shared<const thts::Int3TupleState>(v.a, v.b, v.c) : make_shared<const thts::Int3TupleState>(std::make_tuple(v.a, v.b, v.c)); }
static shared_ptr<const thts::Action> mk_action(const Val& v) { if (v.kind == 3) return make_shared<const thts::IntAction>(v.a); return make_shared<const thts::StringAction>(v.s); }
template <class T> static string pr(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class B> static void pair_laws(const shared_ptr<const B>& x, const Val& vx, const shared_ptr<const B>& y, const Val& vy) {
    bool e = vx == vy; auto sh = [&] { return vx.text() + " (kind " + std::to_string(vx.kind) + ") and " + vy.text() + " (kind " + std::to_string(vy.kind) + ")"; };
    PBT_CHECK(x->equals_itfc(*y) == e && y->equals_itfc(*x) == e, "equals_itfc of %s is wrong", sh().c_str());
    PBT_CHECK(std::equal_to<B>()(*x, *y) == e && std::equal_to<shared_ptr<const B>>()(x, y) == e, "equal_to of %s is wrong", sh().c_str());
    PBT_CHECK((std::operator==(*x, *y)) == e && (std::operator==((const shared_ptr<const B>&)x, (const shared_ptr<const B>&)y)) == e, "operator== of %s is wrong", sh().c_str());
    if (e) PBT_CHECK(x->hash() == y->hash() && std::hash<B>()(*x) == std::hash<B>()(*y) && std::hash<shared_ptr<const B>>()(x) == std::hash<shared_ptr<const B>>()(y) && std::hash<B>()(*x) == std::hash<shared_ptr<const B>>()(x), "equal values %s have different hashes", vx.text().c_str());
    PBT_CHECK(x->get_pretty_print_string() == vx.text() && pr(*x) == vx.text() && pr(x) == vx.text(), "%s prints as '%s', '%s' and '%s'", vx.text().c_str(), x->get_pretty_print_string().c_str(), pr(*x).c_str(), pr(x).c_str());
}
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void print_derived(const Val& v) {
    string got, gp;
    switch (v.kind) {
        case 0: { thts::IntState x(v.a); got = pr(x); gp = pr(make_shared<const thts::IntState>(x)); PBT_CHECK(x.equals(thts::IntState(v.a)) && !x.equals(thts::IntState(v.a ^ 1)), "IntState::equals is wrong"); break; }
        case 1: { thts::IntPairState x(v.a, v.b); got = pr(x); gp = pr(make_shared<const thts::IntPairState>(x)); PBT_CHECK(x.equals(thts::IntPairState(v.a, v.b)) && !x.equals(thts::IntPairState(v.a ^ 1, v.b)) && !x.equals(thts::IntPairState(v.a, v.b ^ 1)), "IntPairState::equals is wrong"); break; }
        case 2: { thts::Int3TupleState x(v.a, v.b, v.c); got = pr(x); gp = pr(make_shared<const thts::Int3TupleState>(x)); PBT_CHECK(x.equals(thts::Int3TupleState(v.a, v.b, v.c)) && !x.equals(thts::Int3TupleState(v.a ^ 1, v.b, v.c)) && !x.equals(thts::Int3TupleState(v.a, v.b ^ 1, v.c)) && !x.equals(thts::Int3TupleState(v.a, v.b, v.c ^ 1)), "Int3TupleState::equals is wrong"); break; }
        case 3: { thts::IntAction x(v.a); got = pr(x); gp = pr(make_shared<const thts::IntAction>(x)); PBT_CHECK(x.equals(thts::IntAction(v.a)) && !x.equals(thts::IntAction(v.a ^ 1)), "IntAction::equals is wrong"); break; }
        default: { thts::StringAction x(v.s); got = pr(x); gp = pr(make_shared<const thts::StringAction>(x)); PBT_CHECK(x.equals(thts::StringAction(v.s)) && !x.equals(thts::StringAction(v.s + "x")), "StringAction::equals is wrong"); }
    }
    PBT_CHECK(got == v.text() && gp == v.text(), "%s prints as '%s' and '%s'", v.text().c_str(), got.c_str(), gp.c_str());
}
// multiset of "key:value" items of a printed map
static vector<string> items(const string& s, char l, char r) {
    if (s.size() < 2 || s.front() != l || s.back() != r) pbt::fail("'%s' is not enclosed in %c%c", s.c_str(), l, r);
    vector<string> out; string cur; int d = 0; for (size_t i = 1; i + 1 < s.size(); i++) { if (s[i] == '(') d++; if (s[i] == ')') d--; if (s[i] == ',' && d == 0) { out.push_back(cur); cur.clear(); } else cur += s[i]; } if (s.size() > 2) out.push_back(cur);
    std::sort(out.begin(), out.end()); return out;
}
PBT_TARGET(types, "types", 90000, 1000000, "random pairs of states and actions of all built-in kinds (small, extreme and equal contents, strings with NUL): equality in all its spellings, hashes and printing against a plain value model; random insert/assign/erase/find histories on maps keyed by pointers against maps keyed by values; transposition table keys; printed vectors, distributions and tables. Non-trivial: a history with a repeated key") {
    Val a = gen_val(false), b = chance(1, 3) ? a : gen_val(false), x = gen_val(true), y = chance(1, 3) ? x : gen_val(true);
    describe() << a.text() << " " << b.text() << " " << jesc(x.text()) << " " << jesc(y.text()); commit_desc();
    auto sa = mk_state(a), sb = mk_state(b); auto xa = mk_action(x), xb = mk_action(y);
    pair_laws<thts::State>(sa, a, sb, b); pair_laws<thts::Observation>(sa, a, sb, b); pair_laws<thts::Action>(xa, x, xb, y); print_derived(a); print_derived(x);
    { thts::Observation o; thts::State s; thts::Action c; PBT_CHECK(throws([&] { o.hash(); }) && throws([&] { o.equals_itfc(s); }) && throws([&] { o.get_pretty_print_string(); }) && throws([&] { s.hash(); }) && throws([&] { s.equals_itfc(o); }) && throws([&] { s.get_pretty_print_string(); }) && throws([&] { c.hash(); }) && throws([&] { c.equals_itfc(*xa); }) && throws([&] { c.get_pretty_print_string(); }), "a base type has a silent default hash, equality or print"); PBT_CHECK(!sa->equals_itfc(s) && !xa->equals_itfc(c), "a value equals a base object"); }
    // timestep/observation keys
    int t1 = gen_int(), t2 = chance(1, 2) ? t1 : gen_int(); thts::DNodeIdTuple k1(t1, sa), k2(t2, sb); bool e = t1 == t2 && a == b;
    PBT_CHECK(std::equal_to<thts::DNodeIdTuple>()(k1, k2) == e, "table keys (%d,%s) and (%d,%s): wrong equality", t1, a.text().c_str(), t2, b.text().c_str()); if (e) PBT_CHECK(std::hash<thts::DNodeIdTuple>()(k1) == std::hash<thts::DNodeIdTuple>()(k2), "equal table keys have different hashes");
    { std::ostringstream o; std::operator<<(o, k1); PBT_CHECK(o.str() == "DNodeId(" + std::to_string(t1) + "," + a.text() + ")", "table key prints as %s", o.str().c_str()); }
    // map histories
    unordered_map<shared_ptr<const thts::Action>, int> ma; std::map<Val, int> mv; unordered_map<shared_ptr<const thts::Observation>, int> so; std::map<Val, int> sv; unordered_map<thts::DNodeIdTuple, int> tt; std::map<std::pair<int, Val>, int> tv; bool rep = false;
    int n = range(1, 20); vector<Val> pa, ps; for (int i = 0; i < 6; i++) { pa.push_back(gen_val(true)); ps.push_back(gen_val(false)); }
    for (int i = 0; i < n; i++) {
        Val v = pick(pa), w = pick(ps); int z = range(0, 99), tm = range(0, 2);
        if (chance(1, 4)) { PBT_CHECK(ma.erase(mk_action(v)) == mv.erase(v), "erase by equal pointer is wrong"); PBT_CHECK(so.erase(mk_state(w)) == sv.erase(w), "erase by equal pointer is wrong"); PBT_CHECK(tt.erase(thts::DNodeIdTuple(tm, mk_state(w))) == tv.erase({tm, w}), "erase by equal key is wrong"); }
        else { rep |= mv.count(v) || sv.count(w); ma[mk_action(v)] = z; mv[v] = z; so[mk_state(w)] = z; sv[w] = z; tt[thts::DNodeIdTuple(tm, mk_state(w))] = z; tv[{tm, w}] = z; }
        PBT_CHECK(ma.size() == mv.size() && so.size() == sv.size() && tt.size() == tv.size(), "maps keyed by pointers have %zu/%zu/%zu entries instead of %zu/%zu/%zu", ma.size(), so.size(), tt.size(), mv.size(), sv.size(), tv.size());
        for (auto& kv : mv) { auto it = ma.find(mk_action(kv.first)); PBT_CHECK(it != ma.end() && it->second == kv.second, "an equal action does not find its entry"); } for (auto& kv : sv) { auto it = so.find(mk_state(kv.first)); PBT_CHECK(it != so.end() && it->second == kv.second, "an equal state does not find its entry"); }
        for (auto& kv : tv) { auto it = tt.find(thts::DNodeIdTuple(kv.first.first, mk_state(kv.first.second))); PBT_CHECK(it != tt.end() && it->second == kv.second, "an equal table key does not find its entry"); }
    }
    // printing collections
    thts::ActionVector av; string want = "["; int na = range(0, 4); for (int i = 0; i < na; i++) { Val v = gen_val(true); av.push_back(mk_action(v)); want += (i ? "," : "") + v.text(); } want += "]"; { std::ostringstream o; std::operator<<(o, av); PBT_CHECK(o.str() == want, "action vector prints as %s instead of %s", o.str().c_str(), want.c_str()); }
    thts::StateDistr sd; thts::ObservationDistr od; vector<string> wi; for (auto& kv : sv) { sd[mk_state(kv.first)] = kv.second; od[mk_state(kv.first)] = kv.second; wi.push_back(kv.first.text() + ":" + std::to_string(kv.second)); } std::sort(wi.begin(), wi.end());
    { std::ostringstream o, o2; std::operator<<(o, sd); std::operator<<(o2, od); PBT_CHECK(items(o.str(), '{', '}') == wi && items(o2.str(), '{', '}') == wi, "distribution prints as %s", o.str().c_str()); }
    { thts::StringActionVector sav; string w = "["; int k = range(0, 4); for (int i = 0; i < k; i++) { Val v = gen_val(true); v.kind = 4; sav.push_back(make_shared<const thts::StringAction>(v.s)); w += (i ? "," : "") + v.s; } w += "]"; std::ostringstream o; std::operator<<(o, sav); PBT_CHECK(o.str() == w, "string action vector prints as %s instead of %s", o.str().c_str(), w.c_str()); }
    { thts::IntPairStateDistr d2; thts::Int3TupleStateDistr d3; vector<string> w2, w3;
      for (auto& kv : sv) { const Val& v = kv.first; if (v.kind == 1) { d2[make_shared<const thts::IntPairState>(v.a, v.b)] = kv.second; w2.push_back(v.text() + ":" + std::to_string(kv.second)); } if (v.kind == 2) { d3[make_shared<const thts::Int3TupleState>(v.a, v.b, v.c)] = kv.second; w3.push_back(v.text() + ":" + std::to_string(kv.second)); } }
      std::sort(w2.begin(), w2.end()); std::sort(w3.begin(), w3.end()); std::ostringstream o2, o3; std::operator<<(o2, d2); std::operator<<(o3, d3);
      PBT_CHECK(items(o2.str(), '{', '}') == w2 && items(o3.str(), '{', '}') == w3, "typed distributions print as %s and %s", o2.str().c_str(), o3.str().c_str()); }
    if (rep) nontrivial();
}

// ------------------------------------------------------------------------------------------------ C22 contexts
struct Counted { int v; static long& live() { static long l = 0; return l; } Counted(int x) : v(x) { live()++; } Counted(const Counted& o) : v(o.v) { live()++; } ~Counted() { live()--; } };
PBT_TARGET(context, "context", 15000, 1000000, "random histories of typed, raw, const and non-const put/get/erase on contexts over a few keys (including the empty key) against a model of two maps, on contexts made directly or sampled by an environment while others are sampled, filled and dropped, with object lifetimes counted. Non-trivial: a key used in both stores, one overwritten and one erased") {
    MdpOpts tiny; tiny.wide = false; tiny.max_states = 2; MdpEnv env(gen_mdp(tiny)); auto s0 = env.get_initial_state_itfc(); bool dflt = chance(2, 3);
    // contexts as an environment without its own context type samples them, or made directly
    auto sample = [&]() { return dflt ? env.thts::ThtsEnv::sample_context_itfc(s0) : make_shared<thts::ThtsEnvContext>(); };
    auto ctx = sample(), other = sample(); std::map<string, shared_ptr<Counted>> m; std::map<string, shared_ptr<const Counted>> mc; vector<string> keys = {"", "a", "b", "ab", string("a\0", 2), "a "}; { size_t L = pick({8, 15, 16, 40, 300, 5000}); string x(L, 'x'); if (chance(1, 2)) { keys[3] = x + "1"; keys[4] = x + "2"; keys[5] = "1" + x; } } long base = Counted::live();
    int n = range(1, 30); bool both = false, over = false, er = false;
    auto verify = [&] {
        for (auto& k : keys) {
            auto it = m.find(k);
            if (it == m.end()) PBT_CHECK(throws([&] { ctx->get_value_raw(k); }) && throws([&] { ctx->get_value<Counted>(k); }) && throws([&] { ctx->get_value_ptr<Counted>(k); }), "reading the absent key '%s' does not fail", k.c_str());
            else PBT_CHECK(ctx->get_value_raw(k).get() == it->second.get() && &ctx->get_value<Counted>(k) == it->second.get() && ctx->get_value_ptr<Counted>(k) == it->second, "key '%s' does not hold the stored pointer", k.c_str());
            auto jt = mc.find(k);
            if (jt == mc.end()) PBT_CHECK(throws([&] { ctx->get_value_raw_const(k); }) && throws([&] { ctx->get_value_const<Counted>(k); }), "reading the absent const key '%s' does not fail", k.c_str());
            else PBT_CHECK(ctx->get_value_raw_const(k).get() == jt->second.get() && &ctx->get_value_const<Counted>(k) == jt->second.get() && ctx->get_value_ptr_const<Counted>(k) == jt->second, "const key '%s' does not hold the stored pointer", k.c_str());
            PBT_CHECK(throws([&] { other->get_value_raw(k); }) && throws([&] { other->get_value_raw_const(k); }), "key '%s' appeared in another context", k.c_str());
        }
    };
    for (int i = 0; i < n; i++) {
        const string& k = pick(keys); int op = (int)draw(7); describe() << op << "'" << jesc(k) << "' ";
        switch (op) {
            case 0: case 1: { auto v = make_shared<Counted>(i); over |= m.count(k); both |= mc.count(k); m[k] = v; if (op == 0) ctx->put_value(k, v); else ctx->put_value_raw(k, v); break; }
            case 2: case 3: { auto v = make_shared<const Counted>(i); over |= mc.count(k); both |= m.count(k); mc[k] = v; if (op == 2) ctx->put_value_const<Counted>(k, v); else ctx->put_value_raw_const(k, v); break; }
            case 4: er |= m.erase(k) > 0; ctx->erase(k); break;
            case 5: er |= mc.erase(k) > 0; ctx->erase_const(k); break;
            default: if (!m.empty()) { auto it = std::next(m.begin(), draw(m.size())); ctx->get_value<Counted>(it->first).v = 1000 + i; PBT_CHECK(it->second->v == 1000 + i, "a write through the context is not visible"); }
        }
        commit_desc(); verify();
        if (chance(1, 4)) {   // a further trial begins (and perhaps ends) meanwhile, possibly on another thread
            shared_ptr<thts::ThtsEnvContext> third; if (chance(1, 10)) std::thread([&] { third = sample(); }).join(); else third = sample();
            PBT_CHECK(third != ctx && third != other, "a context that is still in use was sampled again");
            for (auto& q : keys) PBT_CHECK(throws([&] { third->get_value_raw(q); }) && throws([&] { third->get_value_raw_const(q); }), "a newly sampled context already holds key '%s'", q.c_str());
            for (auto& q : keys) { third->put_value(q, make_shared<int>(i)); third->put_value_const<int>(q, make_shared<const int>(i)); }
            third.reset(); verify(); 
        }
        long want = (long)(m.size() + mc.size()); PBT_CHECK(Counted::live() - base == want, "%ld stored objects are alive instead of %ld", Counted::live() - base, want);
    }
    // ownership: the context alone keeps its values alive, and releases them with itself
    size_t held = m.size() + mc.size(); shared_ptr<Counted> keep; if (!m.empty()) keep = m.begin()->second;
    m.clear(); mc.clear(); PBT_CHECK(Counted::live() - base == (long)held, "values are not kept alive by their context"); ctx.reset();
    PBT_CHECK(Counted::live() - base == (keep ? 1 : 0), "%ld values outlive their context", Counted::live() - base);
    ctx = sample(); for (auto& q : keys) PBT_CHECK(throws([&] { ctx->get_value_raw(q); }) && throws([&] { ctx->get_value_raw_const(q); }), "key '%s' of a finished trial is visible in a newly sampled context", q.c_str());
    if (both && over && er) nontrivial();
}

int main(int argc, char** argv) { return pbt::main_(argc, argv); }

// ------------------------------------------------------------------------------------------------ C01 long runs
PBT_TARGET(pool_large, "pool_large", 120, 1500, "1-6 free-running workers and very short trials: 1-3 runs of up to 200000 trials (sometimes 1.5 million), blocking or joined, without or with a distant time limit; the trials executed are exactly those asked for. Non-trivial: a run of more than 65536 trials", t.deterministic = false) {
    MdpOpts mo; mo.allow_deep = false; mo.wide = false; mo.max_states = 3; mo.max_actions = 2; MdpM m = gen_mdp(mo); auto env = make_shared<MdpEnv>(m); env->record = false; thts::ThtsManagerArgs a(env); a.max_depth = chance(2, 3) ? 0 : 1; a.seed = range(1, 1000); auto mgr = make_shared<thts::ThtsManager>(a);
    auto root = make_shared<FixD>(mgr, env->get_initial_state_itfc(), 0, 0, nullptr, 1); int threads = range(1, 6), runs = range(1, 3); long total = 0; describe() << "max_depth=" << a.max_depth << " threads=" << threads << " " << m.str() << " runs:"; commit_desc();
    thts::ThtsPool pool(mgr, root, threads);
    for (int k = 0; k < runs; k++) {
        int n = chance(1, 4) ? range(0, 300) : chance(1, 12) ? range(400000, 1500000) : range(30000, 200000); bool block = chance(1, 2); double lim = chance(1, 2) ? std::numeric_limits<double>::max() : pick({1e5, 1e9}); describe() << " " << n << (block ? "" : "+join") << "/" << lim; commit_desc();
        pool.run_trials(n, lim, block); if (!block) pool.join(); total += n;
        PBT_CHECK(root->get_num_visits() == total && (long)env->contexts.load() == total, "after runs of together %ld trials the root has %d visits and %ld contexts were sampled", total, root->get_num_visits(), (long)env->contexts.load());
        if (n > 65536) nontrivial();
    }
}
