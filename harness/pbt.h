// Choice-tape property-based testing engine.
//
// Every random decision of a test case is drawn from a tape of integers. A fresh case fills the tape from a
// splitmix64 stream seeded by (VERIF_SEED, target, case index); a replay or a shrink candidate supplies the tape.
// Cases run in forked worker processes; a failing case ends its worker (exit 77, a signal, or a sanitizer exit code),
// and the parent recovers the tape from shared memory, confirms the failure, shrinks it and writes a replay file.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static const size_t TAPE_CAP = 1u << 21;
static const int EXIT_FAIL = 77;
static const int EXIT_ASAN = 78;
static const int EXIT_TSAN = 79;

struct Shared {
    std::atomic<uint64_t> case_idx;
    std::atomic<uint64_t> case_start_ns;   // 0: no case running
    std::atomic<uint64_t> evaluations, nontrivial, discarded;
    std::atomic<uint64_t> tape_len;
    std::atomic<int> failed;
    char msg[8192];
    char desc[16384];
    uint64_t tape[TAPE_CAP];
};

inline uint64_t now_ns() {  // raw syscall clock, unaffected by the virtual clock
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Ctx {
    Shared* sh = nullptr;
    bool replaying = false;
    std::vector<uint64_t> in;
    size_t pos = 0;
    uint64_t rng = 0;
    bool nontrivial_flag = false;
    std::string distinct_key;
    std::map<std::string, uint64_t> labels;
    std::set<std::string> case_labels;
    std::map<std::string, double> maxima;
    std::map<std::string, uint64_t> sums;
    std::ostringstream desc;
    bool verbose = false;
    int tier = 0;  // 0 quick 1 thorough
};
inline Ctx& ctx() { static Ctx c; return c; }

inline uint64_t draw(uint64_t n) {   // uniform in [0,n)
    Ctx& c = ctx();
    uint64_t v;
    if (n <= 1) return 0;
    if (c.replaying) {
        v = c.pos < c.in.size() ? c.in[c.pos] : 0;
        if (v >= n) v = v % n;
    } else {
        c.rng = c.rng + 0x9e3779b97f4a7c15ull;
        v = mix(c.rng) % n;
    }
    uint64_t len = c.sh->tape_len.load(std::memory_order_relaxed);
    if (len < TAPE_CAP) {
        c.sh->tape[len] = v;
        c.sh->tape_len.store(len + 1, std::memory_order_relaxed);
    }
    c.pos++;
    return v;
}
inline int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1)); }
inline bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }   // shrinks to false
inline double real01() { return (double)draw(1ull << 53) / (double)(1ull << 53); }
template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
inline int tier() { return ctx().tier; }

[[noreturn]] inline void fail(const char* fmt, ...) {
    Ctx& c = ctx();
    if (c.sh->failed.exchange(1) == 0) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(c.sh->msg, sizeof(c.sh->msg), fmt, ap);
        va_end(ap);
        std::string d = c.desc.str();
        strncpy(c.sh->desc, d.c_str(), sizeof(c.sh->desc) - 1);
        if (c.verbose) fprintf(stderr, "FAIL: %s\n", c.sh->msg);
    }
    _exit(EXIT_FAIL);
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

inline void label(const std::string& s) { ctx().case_labels.insert(s); }
inline void maximum(const std::string& s, double v) { double& m = ctx().maxima[s]; if (v > m) m = v; }
inline void add(const std::string& s, uint64_t v) { ctx().sums[s] += v; }
inline void nontrivial(const std::string& key = "") { ctx().nontrivial_flag = true; if (!key.empty()) ctx().distinct_key += key; }
inline std::ostringstream& describe() { return ctx().desc; }
inline void commit_desc() { strncpy(ctx().sh->desc, ctx().desc.str().c_str(), sizeof(ctx().sh->desc) - 1); }

struct Target {
    std::string name;
    std::string rule;
    std::function<void()> body;
    long quick_cases, thorough_cases;
    bool deterministic = true;
    bool hang_is_violation = true;
    int confirm_timeout_s = 120;
};
inline std::vector<Target>& registry() { static std::vector<Target> r; return r; }
struct Reg { Reg(Target t) { registry().push_back(std::move(t)); } };

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

inline void begin_case() {
    Ctx& c = ctx();
    c.sh->tape_len.store(0); c.pos = 0;
    c.sh->failed.store(0); c.sh->msg[0] = 0; c.sh->desc[0] = 0;
    c.nontrivial_flag = false; c.case_labels.clear(); c.distinct_key.clear();
    c.desc.str(""); c.desc.clear();
}

inline Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return new (p) Shared();
}

struct Outcome { int kind; std::string msg; std::string desc; std::vector<uint64_t> tape; };  // kind 0 ok 1 fail 2 crash 3 asan 4 tsan 5 timeout 6 killed

inline std::string slurp(const std::string& path, size_t max = 6000) {
    std::string r; FILE* f = fopen(path.c_str(), "r"); if (!f) return r;
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max) r.append(b, n);
    fclose(f); if (r.size() > max) r.resize(max);
    return r;
}

inline int classify(int status, std::string& msg) {
    if (WIFEXITED(status)) {
        int e = WEXITSTATUS(status);
        if (e == 0) return 0;
        if (e == EXIT_FAIL) return 1;
        if (e == EXIT_ASAN) { msg = "AddressSanitizer/UBSan report"; return 3; }
        if (e == EXIT_TSAN) { msg = "ThreadSanitizer report"; return 4; }
        msg = "unexpected exit code " + std::to_string(e); return 2;
    }
    int s = WTERMSIG(status);
    if (s == SIGKILL || s == SIGTERM) return 6;
    msg = std::string("killed by signal ") + std::to_string(s) + " (" + strsignal(s) + ")";
    return 2;
}

// Runs one tape in a forked child.
inline Outcome run_tape(const Target& t, const std::vector<uint64_t>& tape, int timeout_s, const std::string& errlog, bool verbose = false) {
    static Shared* sh = map_shared();
    Outcome o; o.kind = 0;
    sh->tape_len.store(0); sh->failed.store(0); sh->msg[0] = 0; sh->desc[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!verbose) {
            int fd = open(errlog.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            dup2(fd, 2); dup2(fd, 1); close(fd);
        }
        Ctx& c = ctx(); c.sh = sh; c.replaying = true; c.in = tape; c.verbose = verbose;
        begin_case();
        t.body();
        strncpy(sh->desc, c.desc.str().c_str(), sizeof(sh->desc) - 1);
        fflush(stdout); fflush(stderr);
        _exit(0);
    }
    uint64_t start = now_ns();
    int st = 0;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now_ns() - start > (uint64_t)timeout_s * 1000000000ull) {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            o.kind = 5; o.msg = "timeout"; break;
        }
        struct timespec ts = {0, 300000}; nanosleep(&ts, nullptr);
    }
    if (o.kind != 5) { o.kind = classify(st, o.msg); if (o.kind == 1) o.msg = sh->msg; }
    if (o.kind >= 2 && o.kind <= 4) o.msg += "\n" + slurp(errlog);
    o.desc = sh->desc;
    o.tape.assign(sh->tape, sh->tape + std::min<uint64_t>(sh->tape_len.load(), TAPE_CAP));
    return o;
}

inline bool same_failure(const Outcome& o, int kind) {
    if (kind == 5) return o.kind == 5;
    return o.kind >= 1 && o.kind <= 4;
}

inline std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> best, int kind, double budget_s, const std::string& errlog, Outcome& bestout, long& tried) {
    uint64_t start = now_ns();
    auto left = [&]() { return (now_ns() - start) < (uint64_t)(budget_s * 1e9); };
    int tmo = kind == 5 ? 20 : 20;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        tried++;
        Outcome o = run_tape(t, cand, tmo, errlog);
        if (same_failure(o, kind)) {
            std::vector<uint64_t> n = o.tape.size() <= cand.size() && kind != 5 ? o.tape : cand;
            while (!n.empty() && n.back() == 0) n.pop_back();
            best = n; bestout = o; return true;
        }
        return false;
    };
    if (kind == 5) return best;
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // truncation
        for (size_t cut = best.size() / 2; cut > 0 && left(); cut /= 2) {
            while (best.size() > cut && left()) {
                std::vector<uint64_t> c(best.begin(), best.end() - cut);
                size_t old = best.size();
                if (attempt(c) && best.size() < old) progress = true; else break;
            }
        }
        // chunk deletion, then chunk zeroing
        for (size_t sz : {256u, 64u, 16u, 8u, 4u, 2u, 1u}) {
            if (sz > best.size()) continue;
            for (size_t i = 0; i + sz <= best.size() && left();) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + sz);
                size_t old = best.size();
                if (attempt(c) && best.size() < old) progress = true; else i += sz;
            }
            for (size_t i = 0; i + sz <= best.size() && left(); i += sz) {
                bool nz = false;
                for (size_t j = i; j < i + sz; j++) nz |= best[j] != 0;
                if (!nz) continue;
                std::vector<uint64_t> c(best);
                std::fill(c.begin() + i, c.begin() + i + sz, 0);
                if (attempt(c)) progress = true;
            }
        }
        // value minimisation
        for (size_t i = 0; i < best.size() && left(); i++) {
            uint64_t lo = 0, hi = best[i];
            int guard = 0;
            while (lo < hi && left() && i < best.size() && guard++ < 60) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best); c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid + 1;
            }
        }
    }
    return best;
}

inline int main_(int argc, char** argv) {
    std::string target, out, workdir = "/tmp", replay, replay_out;
    uint64_t seed = 1; int tier = 0; long cases = -1; double time_cap = 60; int jobs = 8; double shrink_s = 15; bool list = false;
    double scale = 1.0; long single = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--target") target = nxt();
        else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--tier") tier = nxt() == "thorough" ? 1 : 0;
        else if (a == "--cases") cases = atol(nxt().c_str());
        else if (a == "--scale") scale = atof(nxt().c_str());
        else if (a == "--out") out = nxt();
        else if (a == "--workdir") workdir = nxt();
        else if (a == "--time-cap") time_cap = atof(nxt().c_str());
        else if (a == "--jobs") jobs = atoi(nxt().c_str());
        else if (a == "--shrink") shrink_s = atof(nxt().c_str());
        else if (a == "--replay") replay = nxt();
        else if (a == "--replay-out") replay_out = nxt();
        else if (a == "--case") single = atol(nxt().c_str());
        else if (a == "--list") list = true;
    }
    if (list) { for (auto& t : registry()) printf("%s\n", t.name.c_str()); return 0; }
    Target* t = nullptr;
    for (auto& x : registry()) if (x.name == target) t = &x;
    if (!t) { fprintf(stderr, "no such target %s\n", target.c_str()); return 3; }
    ctx().tier = tier;
    if (!replay.empty()) {
        std::vector<uint64_t> tape; FILE* f = fopen(replay.c_str(), "r"); char line[1 << 16];
        if (!f) { perror(replay.c_str()); return 3; }
        bool in_tape = false;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "tape:", 5)) { in_tape = true; continue; }
            if (in_tape) { char* p = line; char* e; while (true) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; tape.push_back(v); p = e; } }
        }
        fclose(f);
        Outcome o = run_tape(*t, tape, 120, workdir + "/replay.err", true);
        printf("replay outcome kind=%d %s\n%s\n", o.kind, o.msg.c_str(), o.desc.c_str());
        return o.kind == 0 ? 0 : 1;
    }
    if (cases < 0) cases = tier ? t->thorough_cases : t->quick_cases;
    cases = (long)(cases * scale); if (cases < 1) cases = 1;
    if (single >= 0) {
        Ctx& c = ctx(); c.sh = map_shared(); c.verbose = true; begin_case();
        c.rng = mix(seed ^ mix(hash_str(t->name)) ^ mix((uint64_t)single * 0x100000001b3ull + 17));
        t->body();
        printf("ok nontrivial=%d\n%s\n", (int)c.nontrivial_flag, c.desc.str().c_str());
        return 0;
    }
    if (jobs > cases) jobs = (int)cases;

    uint64_t t0 = now_ns();
    std::vector<Shared*> sh(jobs); std::vector<pid_t> pid(jobs, -1); std::vector<long> next(jobs); std::vector<int> gen(jobs, 0);
    std::vector<std::string> reports;
    for (int j = 0; j < jobs; j++) { sh[j] = map_shared(); next[j] = j; }
    auto errpath = [&](int j) { return workdir + "/" + t->name + ".w" + std::to_string(j) + ".err"; };
    auto spawn = [&](int j) {
        fflush(stdout); fflush(stderr);
        std::string rep = workdir + "/" + t->name + ".w" + std::to_string(j) + "." + std::to_string(gen[j]++) + ".rep";
        reports.push_back(rep);
        pid_t p = fork();
        if (p != 0) { pid[j] = p; return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(errpath(j).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 2); dup2(fd, 1); close(fd);
        Ctx& c = ctx(); c.sh = sh[j];
        std::vector<std::pair<uint64_t, std::string>> samples; std::set<uint64_t> distinct;
        auto flush_report = [&]() {
            FILE* f = fopen((rep + ".tmp").c_str(), "w"); if (!f) return;
            for (uint64_t h : distinct) fprintf(f, "D %llu\n", (unsigned long long)h);
            for (auto& kv : c.labels) fprintf(f, "L %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            for (auto& kv : c.maxima) fprintf(f, "M %.17g %s\n", kv.second, kv.first.c_str());
            for (auto& kv : c.sums) fprintf(f, "T %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            for (auto& s : samples) fprintf(f, "S %s\n", jesc(s.second).c_str());
            fclose(f); rename((rep + ".tmp").c_str(), rep.c_str());
        };
        uint64_t last_flush = now_ns();
        for (long i = next[j]; i < cases; i += jobs) {
            if ((now_ns() - t0) > (uint64_t)(time_cap * 1e9)) break;
            begin_case();
            c.sh->case_idx.store(i); c.sh->case_start_ns.store(now_ns());
            c.rng = mix(seed ^ mix(hash_str(t->name)) ^ mix((uint64_t)i * 0x100000001b3ull + 17));
            t->body();
            { double cs = (double)(now_ns() - c.sh->case_start_ns.load()) * 1e-9; double& mx = c.maxima["slowest_case_s"]; if (cs > mx) mx = cs; }
            c.sh->case_start_ns.store(0);
            c.sh->evaluations++;
            for (auto& l : c.case_labels) c.labels[l]++;
            if (c.nontrivial_flag) {
                c.sh->nontrivial++;
                uint64_t h = 7; uint64_t n = std::min<uint64_t>(c.sh->tape_len.load(), TAPE_CAP);
                if (c.distinct_key.empty()) for (uint64_t k = 0; k < n; k++) h = mix(h ^ c.sh->tape[k]); else h = hash_str(c.distinct_key);
                distinct.insert(h);
                if (samples.size() < 2) samples.push_back({(uint64_t)i, "case " + std::to_string(i) + ": " + c.desc.str().substr(0, 900)});
            }
            if (now_ns() - last_flush > 1000000000ull) { flush_report(); last_flush = now_ns(); }
        }
        flush_report();
        fflush(stderr);
        _exit(0);
    };
    for (int j = 0; j < jobs; j++) spawn(j);
    uint64_t hang_limit_ns = 25ull * 1000000000ull;
    long inconclusive = 0; bool found = false; Outcome fo; long fidx = -1;
    while (!found) {
        bool alive = false;
        for (int j = 0; j < jobs && !found; j++) {
            if (pid[j] < 0) continue;
            alive = true;
            int st; pid_t r = waitpid(pid[j], &st, WNOHANG);
            bool hang = false;
            if (r == 0) {
                uint64_t cs = sh[j]->case_start_ns.load();
                if (cs && now_ns() - cs > hang_limit_ns && now_ns() > cs) { kill(pid[j], SIGKILL); waitpid(pid[j], &st, 0); hang = true; }
                else continue;
            }
            pid[j] = -1;
            std::string m; int k = hang ? 5 : classify(st, m);
            if (k == 0) continue;
            fidx = (long)sh[j]->case_idx.load();
            if (k == 6 || (k == 5 && !t->hang_is_violation)) {
                inconclusive++;
                next[j] = fidx + jobs;
                if (inconclusive < 50 && (now_ns() - t0) < (uint64_t)(time_cap * 1e9)) { sh[j]->case_start_ns.store(0); spawn(j); }
                continue;
            }
            fo.kind = k; fo.msg = k == 1 ? sh[j]->msg : (k == 5 ? "case did not terminate" : m + "\n" + slurp(errpath(j)));
            fo.desc = sh[j]->desc;
            fo.tape.assign(sh[j]->tape, sh[j]->tape + std::min<uint64_t>(sh[j]->tape_len.load(), TAPE_CAP));
            // confirm
            std::string ce = workdir + "/" + t->name + ".confirm.err";
            int want = t->deterministic ? 8 : 20, ok = 0, runs = 0; bool stop = false;
            if (k == 5) { Outcome o = run_tape(*t, fo.tape, t->confirm_timeout_s, ce); runs = 1; if (o.kind != 0 && o.kind != 6) { ok = 1; } }
            else for (; runs < want && !stop; runs++) {
                Outcome o = run_tape(*t, fo.tape, t->confirm_timeout_s, ce);
                if (o.kind >= 1 && o.kind <= 5) { ok++; if (ok >= 3) stop = true; }
            }
            bool accept = k == 5 ? ok == 1 : (ok >= 1 || k == 3 || k == 4 || k == 2);
            fprintf(stderr, "[%s] case %ld failed kind=%d, confirmed %d/%d: %s\n", t->name.c_str(), fidx, k, ok, runs, fo.msg.substr(0, 1500).c_str());
            if (accept) { found = true; }
            else {
                inconclusive++; next[j] = fidx + jobs;
                if (inconclusive < 50) { sh[j]->case_start_ns.store(0); spawn(j); }
            }
        }
        if (!alive) break;
        struct timespec ts = {0, 2000000}; nanosleep(&ts, nullptr);
    }
    for (int j = 0; j < jobs; j++) if (pid[j] > 0) { kill(pid[j], SIGKILL); int st; waitpid(pid[j], &st, 0); }
    long shrink_tried = 0;
    if (found) {
        std::string ce = workdir + "/" + t->name + ".shrink.err";
        Outcome bo = fo;
        std::vector<uint64_t> best = t->deterministic ? shrink(*t, fo.tape, fo.kind, shrink_s, ce, bo, shrink_tried) : fo.tape;
        fo = bo;
        FILE* f = fopen(replay_out.c_str(), "w");
        if (f) {
            fprintf(f, "target: %s\nseed: %llu\ncase: %ld\nshrunk tape length: %zu (after %ld candidates)\nfailure: %s\ncase description:\n%s\ntape:\n",
                    t->name.c_str(), (unsigned long long)seed, fidx, best.size(), shrink_tried, bo.msg.c_str(), bo.desc.c_str());
            for (size_t i = 0; i < best.size(); i++) fprintf(f, "%llu%c", (unsigned long long)best[i], i % 20 == 19 ? '\n' : ' ');
            fprintf(f, "\n"); fclose(f);
        }
        fprintf(stderr, "[%s] minimal failure: %s\n%s\n", t->name.c_str(), bo.msg.substr(0, 3000).c_str(), bo.desc.substr(0, 3000).c_str());
    }
    // merge
    uint64_t ev = 0, nt = 0; std::set<uint64_t> distinct; std::map<std::string, uint64_t> labels, sums; std::map<std::string, double> maxima; std::vector<std::string> samples;
    for (int j = 0; j < jobs; j++) { ev += sh[j]->evaluations.load(); nt += sh[j]->nontrivial.load(); }
    for (auto& rp : reports) {
        FILE* f = fopen(rp.c_str(), "r"); if (!f) continue;
        static char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            size_t L = strlen(line); if (L && line[L - 1] == '\n') line[L - 1] = 0;
            char* e;
            if (line[0] == 'D') distinct.insert(strtoull(line + 2, 0, 10));
            else if (line[0] == 'L') { uint64_t v = strtoull(line + 2, &e, 10); labels[e + 1] += v; }
            else if (line[0] == 'T') { uint64_t v = strtoull(line + 2, &e, 10); sums[e + 1] += v; }
            else if (line[0] == 'M') { double v = strtod(line + 2, &e); double& m = maxima[e + 1]; if (v > m) m = v; }
            else if (line[0] == 'S' && samples.size() < 4) samples.push_back(line + 2);
        }
        fclose(f); unlink(rp.c_str());
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }
    fprintf(f, "{\"target\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"requested_cases\":%ld,\"inconclusive\":%ld,\"rule\":\"%s\",\"samples\":[",
            t->name.c_str(), (unsigned long long)ev, (unsigned long long)nt, distinct.size(), cases, inconclusive, jesc(t->rule).c_str());
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", samples[i].c_str());
    fprintf(f, "],\"labels\":{"); bool first = true;
    for (auto& kv : labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\"totals\":{"); first = true;
    for (auto& kv : sums) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\"maxima\":{"); first = true;
    for (auto& kv : maxima) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(kv.first).c_str(), std::isfinite(kv.second) ? kv.second : -1.0); first = false; }
    fprintf(f, "},\"wall_s\":%.3f,\"failed\":%s", (now_ns() - t0) / 1e9, found ? "true" : "false");
    if (found) fprintf(f, ",\"fail_kind\":%d,\"fail_case\":%ld,\"message\":\"%s\",\"shrink_candidates\":%ld", fo.kind, fidx, jesc(fo.msg.substr(0, 4000)).c_str(), shrink_tried);
    fprintf(f, "}\n"); fclose(f);
    return found ? 1 : 0;
}
}  // namespace pbt

#define PBT_TARGET(ident, tname, quick, thorough, rule, ...)                                       \
    static void body_##ident();                                                                    \
    static pbt::Reg reg_##ident([]() { pbt::Target t{tname, rule, body_##ident, quick, thorough}; __VA_ARGS__; return t; }()); \
    static void body_##ident()
