// Shared by the harnesses: case enumeration, reporting, engine wrappers, reference semantics.
#pragma once
#include "vrt.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <vector>

namespace vh {
typedef std::vector<double> V;
typedef std::vector<unsigned> U;

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class T> std::string S(const T& x) { return std::to_string(x); }
inline std::string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
template <class T> std::string fmt(const std::vector<T>& v, size_t mx = 40) {
    std::string s = "["; for (size_t i = 0; i < v.size() && i < mx; i++) { if (i) s += ","; char b[40]; snprintf(b, sizeof b, "%.12g", (double)v[i]); s += b; }
    if (v.size() > mx) s += ",..."; return s + "]"; }

// ------------------------------------------------------------------------------------------------ reporting
std::vector<int> rng_trace();
struct Prog { long idx; char spec[2000]; };
struct H {
    int shard = 0, nshards = 1; long resume = 0; std::string only, mode, scratch = "/tmp"; bool thorough = false; double seconds = 0; std::vector<int> sched; bool have_sched = false;
    long idx = -1; std::string spec; double t0 = now(); bool capped = false; long nviol = 0; long max_viol = 40; Prog* prog = nullptr;
    std::map<std::string, double> sum, mx; std::vector<std::string> samples; std::map<std::string, long> kinds;
    std::string progfile;

    void init(int argc, char** argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--shard") shard = atoi(v().c_str()); else if (a == "--nshards") nshards = atoi(v().c_str());
            else if (a == "--resume") resume = atol(v().c_str()); else if (a == "--only") only = v();
            else if (a == "--mode") mode = v(); else if (a == "--tier") thorough = v() == "thorough";
            else if (a == "--seconds") seconds = atof(v().c_str()); else if (a == "--scratch") scratch = v();
            else if (a == "--progress") progfile = v();
            else if (a == "--sched") { have_sched = true; std::string s = v(); for (size_t p = 0; p < s.size();) { size_t q = s.find('.', p); if (q == std::string::npos) q = s.size(); sched.push_back(atoi(s.substr(p, q - p).c_str())); p = q + 1; } }
        }
        if (!progfile.empty()) {
            int fd = open(progfile.c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, sizeof(Prog)) == 0)
                { void* p = mmap(nullptr, sizeof(Prog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) { prog = (Prog*)p; prog->idx = -1; } }
            if (fd >= 0) close(fd);
        }
        std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
        signal(SIGALRM, hung); signal(SIGPROF, hung);
        setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    }
    // A case (or one schedule of it) that uses 20 s of CPU (or as many as the harness grants), or takes six times as long, does not terminate.
    static int& patience() { static int s = 20; return s; }
    static void watch() { struct itimerval t = {{0, 0}, {patience(), 0}}; setitimer(ITIMER_PROF, &t, nullptr); alarm(6 * patience()); }
    static void hung(int) { _exit(76); }
    // Next case of the enumeration: true when this process runs it.
    template <class F, class = typename std::enable_if<!std::is_convertible<F, std::string>::value>::type> bool next(F&& mk) {
        idx++;
        if (only.empty()) {
            if (idx % nshards != shard || idx < resume || capped) return false;
            if (seconds > 0 && now() - t0 > seconds) { capped = true; return false; }
            if (nviol >= max_viol) return false;
            spec = mk();
        } else { spec = mk(); if (spec != only) return false; }
        sum["cases"]++;
        if (prog) { prog->idx = idx; strncpy(prog->spec, spec.c_str(), sizeof prog->spec - 1); prog->spec[sizeof prog->spec - 1] = 0; }
        watch();
        if (samples.size() < 3 || (samples.size() < 6 && (long)sum["cases"] % 4001 == 0)) samples.push_back(spec);
        return true;
    }
    bool next(const std::string& s) { return next([&]() -> std::string { return s; }); }
    void viol(const std::string& kind, const std::string& detail, std::vector<int> sch = {}, const std::string& extra = "") {
        if (sch.empty()) sch = rng_trace();
        if (kinds[kind]++ < 8) {
            nviol++;
            std::string s, d = detail; for (size_t i = 0; i < sch.size(); i++) s += (i ? "." : "") + S(sch[i]);
            for (char& c : d) if (c == '\n' || c == '\t') c = ' ';
            // not printf: inside a run that is the code under test's, which is silenced
            std::string l = "V\t" + kind + "\t" + spec + "\t" + s + "\t" + d + "\n"; if (have_sched || !only.empty()) l += extra;
            fwrite(l.data(), 1, l.size(), stdout); fflush(stdout);
        }
    }
    void count(const std::string& k, double n = 1) { sum[k] += n; }
    int finish() {
        alarm(0);
        for (auto& p : sum) printf("S\t%s\t%.17g\n", p.first.c_str(), p.second);
        for (auto& p : mx) printf("M\t%s\t%.17g\n", p.first.c_str(), p.second);
        for (auto& p : kinds) printf("K\t%s\t%ld\n", p.first.c_str(), p.second);
        if (capped) printf("C\t1\n");
        for (auto& s : samples) printf("N\t%s\n", s.c_str());
        printf("E\t%ld\n", idx + 1); fflush(stdout);
        if (prog) prog->idx = -2;
        _exit(0);
    }
};
inline H& h() { static H x; return x; }

// Random draws as choices: every sequence of outcomes of the draws is one execution. Engines with equal seeds share their stream.
struct Rng {
    std::vector<int> prefix, trace, arity; std::map<std::tuple<unsigned long, unsigned long, long>, int> memo; std::vector<double> grid = {0, 0.5}; 
    int choose(unsigned long s, unsigned long i, long n) {
        auto key = std::make_tuple(s, i, n); auto it = memo.find(key); if (it != memo.end()) return it->second;
        int c = trace.size() < prefix.size() ? prefix[trace.size()] : 0; if (c >= n) c = n - 1;
        trace.push_back(c); arity.push_back(n); return memo[key] = c;
    }
};
inline Rng& rng() { static Rng r; return r; }
inline std::vector<int> rng_trace() { return rng().trace; }
inline long rng_int(unsigned long s, unsigned long i, long n) { return rng().choose(s, i, n); }
inline double rng_real(unsigned long s, unsigned long i) { return rng().grid[rng().choose(s, i, (long)rng().grid.size())]; }
// body runs the case once; returns false to stop
inline void explore_rng(const std::vector<double>& grid, const std::function<bool()>& body) {
    Rng& r = rng(); r.grid = grid; r.prefix.clear(); bool replay = h().have_sched; if (replay) r.prefix = h().sched;
    while (true) {
        r.trace.clear(); r.arity.clear(); r.memo.clear(); vrand_int = rng_int; vrand_real = rng_real;
        H::watch();
        bool more = body();
        vrand_int = nullptr; vrand_real = nullptr; h().count("draw_sequences"); h().mx["max_draws"] = std::max(h().mx["max_draws"], (double)r.trace.size());
        if (!more || replay) break;
        if (h().seconds > 0 && h().only.empty() && now() - h().t0 > h().seconds) { h().capped = true; break; }
        int i = (int)r.trace.size() - 1; while (i >= 0 && r.trace[i] + 1 >= r.arity[i]) i--;
        if (i < 0) break;
        r.prefix.assign(r.trace.begin(), r.trace.begin() + i); r.prefix.push_back(r.trace[i] + 1);
    }
    r.trace.clear();
}

// Runs f under the default schedule. Any abnormal end is a violation unless allowed by the caller.
struct RunOut { vrt::End end; std::string detail; bool ok() const { return end == vrt::End::OK; } };
inline RunOut exec(const std::function<void()>& f, uint64_t horizon = 3000000) {
    vrt::Options o; o.horizon = horizon;
    vrt::Result r = vrt::run(f, {}, o);
    h().count("runs"); h().count("points", r.points);
    return RunOut{r.end, r.detail};
}
inline bool exec_ok(const std::string& kind, const std::function<void()>& f, uint64_t horizon = 3000000) {
    RunOut r = exec(f, horizon);
    if (!r.ok()) { h().viol(kind + "/" + vrt::end_name(r.end), r.detail); return false; }
    return true;
}

// Exhaustive schedule exploration of one case.
struct SchedStats { uint64_t execs = 0, points = 0, choice = 0; };
inline void explore(const std::function<void()>& body, vrt::Options o, const std::function<std::string()>& outcome,
                    const std::function<std::string(const std::string&)>& judge, const std::string& kind, bool ignore_races = false) {
    // judge: "" when the outcome is legal
    if (h().have_sched) {
        vrt::Result r = vrt::run(body, h().sched, o, true);
        std::string ex; for (auto& l : r.log) ex += l + "\n";
        if (r.end != vrt::End::OK) h().viol(kind + "/" + vrt::end_name(r.end), r.detail, r.choices, ex);
        else { std::string oc = outcome(), j = judge(oc); if (!j.empty()) h().viol(kind + "/outcome", j, r.choices, ex); }
        return;
    }
    if (h().seconds > 0) { double left = h().seconds - (now() - h().t0); o.max_seconds = left > 0.05 ? left : 0.05; }
    std::string dflt; bool first = true; long bad = 0;
    vrt::Stats st = vrt::explore(body, o, [&](vrt::Exec& e) {
        H::watch();
        if (e.r->end != vrt::End::OK) {
            h().viol(kind + "/" + vrt::end_name(e.r->end), e.r->detail, e.r->choices); e.outcome = vrt::end_name(e.r->end);
            if (++bad >= 3) e.stop = true;
            return;
        }
        e.outcome = outcome();
        std::string j = judge(e.outcome);
        if (j.empty() && !first && e.outcome != dflt) j = "outcome depends on the schedule: " + e.outcome + " under this one, " + dflt + " under the default schedule";
        if (first) { dflt = e.outcome; first = false; }
        if (!j.empty()) { h().viol(kind + "/outcome", j, e.r->choices); if (++bad >= 3) e.stop = true; }
    });
    h().count("schedules", st.executions); h().count("points", st.points); h().count("choice_points", st.choice_points);
    for (size_t i = 0; i < st.per_budget.size(); i++) h().count("schedules_dev" + S(i), st.per_budget[i]);
    h().mx["max_choice_points"] = std::max(h().mx["max_choice_points"], (double)st.max_choice_points);
    h().count("distinct_outcomes", st.outcomes.size());
    if (st.capped) h().capped = true;
}

// ------------------------------------------------------------------------------------------------ data
struct Data { size_t n = 0, d = 0; V x; const double* row(size_t i) const { return &x[i * d]; } };
inline std::string dspec(const Data& D) { std::string s; for (double v : D.x) { char b[32]; snprintf(b, sizeof b, "%g", v); if (!s.empty()) s += ","; s += b; } return S(D.n) + "x" + S(D.d) + ":" + s; }
// every vector in {lo..hi}^len, odometer order
template <class F> void tuples(int len, int lo, int hi, F f) {
    std::vector<int> v(len, lo);
    while (true) { f(v); int i = len - 1; while (i >= 0 && v[i] == hi) v[i--] = lo; if (i < 0) return; v[i]++; }
}
inline Data mk(size_t n, size_t d, const std::vector<int>& v, double scale = 1) { Data D; D.n = n; D.d = d; for (int a : v) D.x.push_back(a * scale); return D; }
// larger shapes: every member of a family of datasets whose rows spread over 0..p-1 in a different way for every a, b, c
inline Data family(size_t n, size_t d, int a, int b, int c, int p, double scale = 1, double shift = 0) {
    Data D; D.n = n; D.d = d; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) D.x.push_back((double)((a * i * i + (b + 1) * i * (j + 1) + c * j * j + i * j / 2) % p) * scale + shift);
    return D;
}
// starts for it: the first rows, rows spread over the data (moved a little), points off the data
inline V family_start(const Data& D, unsigned k, int form) {
    V s; for (unsigned q = 0; q < k; q++) for (size_t j = 0; j < D.d; j++) s.push_back(form == 0 ? D.row(q % D.n)[j] + (q >= D.n) : form == 1 ? D.row((q * D.n / k) % D.n)[j] + 0.25 : (double)((3 * q + 2 * j) % 7) + 0.5);
    return s;
}

// ------------------------------------------------------------------------------------------------ reference semantics
inline double rdist(const double* a, const double* b, size_t d, const std::string& t) {
    double s = 0, aa = 0, bb = 0, ab = 0;
    for (size_t i = 0; i < d; i++) { if (t == "taxi") s += std::fabs(a[i] - b[i]); else s += (a[i] - b[i]) * (a[i] - b[i]); aa += a[i] * a[i]; bb += b[i] * b[i]; ab += a[i] * b[i]; }
    if (t == "cos") return aa == 0 || bb == 0 ? (aa == bb ? 0 : 1) : std::max(0.0, 1 - ab / (std::sqrt(aa) * std::sqrt(bb))); // a zero vector is similar only to itself
    return t == "eucl" ? std::sqrt(s) : s;
}
const double EPS = 1e-9;
struct Out { // a clustering as reported by an engine
    bool valid = false; std::string err; U asg; std::vector<long long> cnt; V cen; size_t iters = 0, k = 0, nrow = 0, ncol = 0;
    std::string str() const { return "assignments " + fmt(asg) + " counts " + fmt(cnt) + " centroids " + fmt(cen) + " iters " + S(iters); }
};
inline bool finite(const V& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
inline bool near(double a, double b, double e = EPS) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
inline bool near(const V& a, const V& b, double e = EPS) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i], e)) return false; return true; }
// Shape and internal consistency: sizes, ids in range, counts match, non-empty centroids are member means
inline std::string consistent(const Data& D, const Out& o, size_t k) {
    if (o.nrow != D.n || o.ncol != D.d) return "reported dimensions " + S(o.nrow) + "x" + S(o.ncol) + " for data " + S(D.n) + "x" + S(D.d);
    if (o.asg.size() != D.n) return "number of assignments " + S(o.asg.size()) + " != rows " + S(D.n);
    if (o.cnt.size() != k) return "number of cluster sizes " + S(o.cnt.size()) + " != k " + S(k);
    if (o.cen.size() != k * D.d) return "centroid buffer has " + S(o.cen.size()) + " numbers, expected " + S(k * D.d);
    std::vector<long long> c(k, 0); V m(k * D.d, 0);
    for (size_t i = 0; i < D.n; i++) { if (o.asg[i] >= k) return "row " + S(i) + " assigned to cluster " + S(o.asg[i]) + " of " + S(k); c[o.asg[i]]++; for (size_t j = 0; j < D.d; j++) m[o.asg[i] * D.d + j] += D.x[i * D.d + j]; }
    for (size_t a = 0; a < k; a++) {
        if (c[a] != o.cnt[a]) return "cluster " + S(a) + " reports " + S(o.cnt[a]) + " members but " + S(c[a]) + " rows are assigned to it";
        for (size_t j = 0; j < D.d; j++) {
            if (!std::isfinite(o.cen[a * D.d + j])) return "centroid " + S(a) + " is not finite";
            if (c[a] && !near(o.cen[a * D.d + j], m[a * D.d + j] / c[a])) return "centroid " + S(a) + " is not the mean of its members (" + fmt(o.cen[a * D.d + j]) + " vs " + fmt(m[a * D.d + j] / c[a]) + ")";
        }
    }
    return "";
}
// every row is assigned to a centroid of `prev` that is nearest within rounding
inline std::string nearest(const Data& D, const V& prev, size_t k, const U& asg, const std::string& dist) {
    for (size_t i = 0; i < D.n; i++) {
        double best = 1e300; size_t bi = 0;
        for (size_t a = 0; a < k; a++) { double v = rdist(D.row(i), &prev[a * D.d], D.d, dist); if (v < best) { best = v; bi = a; } }
        double mine = rdist(D.row(i), &prev[asg[i] * D.d], D.d, dist);
        if (!(mine <= best + EPS * (1 + std::fabs(best)))) return "row " + S(i) + " is assigned to cluster " + S(asg[i]) + " at distance " + fmt(mine) + " but cluster " + S(bi) + " is at " + fmt(best);
    }
    return "";
}
} // namespace vh
using vh::h; using vh::S;
