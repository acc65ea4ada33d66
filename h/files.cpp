// Matrix files and result files: every small matrix, format, reading mode and truncation point.
#include "engines.hpp"
#include "io.hpp"
#include "exception.hpp"
#include <cfloat>
#include <sys/stat.h>
#include <sys/resource.h>
#include <ftw.h>
using namespace vh;
using namespace knor::base;

static std::string path(const std::string& n) { return h().scratch + "/" + n; }
static void put(const std::string& fn, const std::string& s) { FILE* f = fopen(fn.c_str(), "wb"); if (!f) { perror(fn.c_str()); _exit(70); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string get(const std::string& fn) { std::string s; FILE* f = fopen(fn.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static int wipe1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const std::string& d) { nftw(d.c_str(), wipe1, 8, FTW_DEPTH | FTW_PHYS); }
template <class T> std::string bytes(const std::vector<T>& v) { return std::string((const char*)v.data(), v.size() * sizeof(T)); }
// 0 returned, 1 an exception
template <class F> int guarded(F f) { try { f(); return 0; } catch (std::exception&) { return 1; } }
// the values that have to survive: signs, zero, tiny, huge, all mantissa bits
static const double VAL[] = {0, 1, -2.5, 0.1, -1e-300, 1.7976931348623157e308, 123456789.125, -3.0000000000000004, 5e-324, 7};
static V values(size_t n, int from, int step) { V v(n); for (size_t i = 0; i < n; i++) v[i] = VAL[(from + i * step) % 10]; return v; }
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a == b && a != 0) || (a == 0 && b == 0); }
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }

// ---- reading plans: how many single rows are read before the rest is read as one block (-1: only rows)
static std::vector<int> plans(size_t r) { std::vector<int> p; for (size_t i = 0; i <= r; i++) p.push_back((int)i); p.push_back(-1); return p; }

// rows read one after the other; the whole; each row must be the stored one, and after the last there is none
template <class RD> static std::string read_rows(RD& rd, size_t r, size_t c, const V& want, int plan, bool complete, size_t avail) {
    // avail: number of whole rows present in the file; complete: the file has exactly r rows
    V row(c, -77); size_t i = 0;
    size_t rows = plan < 0 ? r + 1 : (size_t)plan;
    for (; i < rows; i++) {
        bool got = false; V was = row;
        int ex = guarded([&]() { got = rd.readline(row); });
        if (i < avail) {
            if (ex) return "reading row " + S(i) + " failed though it is stored"; if (!got) return "row " + S(i) + " is not read";
            if (!same(row, V(want.begin() + i * c, want.begin() + (i + 1) * c))) return "row " + S(i) + " is read as " + fmt(row);
            if (rd.get_nrow() != i + 1) return "get_nrow() is " + S(rd.get_nrow()) + " after " + S(i + 1) + " rows";
        } else {
            if (!ex && got) return "a row is read beyond the end of the file"; 
            if (i == avail && !complete && avail < r && !ex && got) return "an incomplete row is read";
            return "";
        }
    }
    if (plan >= 0 && i < r) {
        V rest((r - i) * c, -77); int ex = guarded([&]() { rd.read(rest); });
        if (avail < r) { if (!ex) return "reading " + S(r - i) + " rows succeeds though only " + S(avail - i) + " are stored"; }
        else if (ex) return "reading the rest failed"; else if (!same(rest, V(want.begin() + i * c, want.end()))) return "the rest is read as " + fmt(rest);
    }
    return "";
}
static void text_mode() {
    bool th = h().thorough; std::string fn = path("m.txt");
    struct Fmt { const char *sep, *lead, *trail, *eol; bool lasteol, blank; };
    const Fmt fs[] = {{" ", "", "", "\n", true, false}, {"\t", "", "", "\n", false, false}, {"  ", " ", " ", "\n", true, true}, {" ", "", "", "\r\n", true, false}, {" \t ", "\t", "", "\n", false, true}};
    auto matrix = [&](size_t r, size_t c, int from, int step, unsigned q, bool big) {
        V v = values(r * c, from, step); const Fmt& f = fs[q];
        std::string s; std::vector<size_t> tok; // where each token ends
        if (f.blank) s += f.eol;
        for (size_t i = 0; i < r; i++) { s += f.lead; for (size_t j = 0; j < c; j++) { if (j) s += f.sep; s += fmt(v[i * c + j]); tok.push_back(s.size()); } s += f.trail; if (i + 1 < r || f.lasteol) s += f.eol; if (f.blank && i + 1 < r) s += f.eol; }
        for (int plan : big ? std::vector<int>{0, 1, (int)r / 2, -1} : plans(r)) {
            if (!h().next("text " + S(r) + "x" + S(c) + " from=" + S(from) + " step=" + S(step) + " format=" + S(q) + " plan=" + S(plan))) continue;
            if (r > 1) h().count("nontrivial");
            put(fn, s); bool subnormal = false; for (double x : v) subnormal |= x != 0 && std::fabs(x) < DBL_MIN; // refused or exact, never something else
            { text_reader<double> rd(fn); std::string e = read_rows(rd, r, c, v, plan, true, r); if (!e.empty() && !(subnormal && e.find("failed") != std::string::npos)) { h().viol("text", e); continue; } }
            // every truncation that loses at least one value entirely, or leaves a piece that is no number
            for (size_t cut = 0; cut < s.size(); cut += big ? s.size() / 40 + 1 : 1) {
                size_t whole = 0; while (whole < tok.size() && tok[whole] <= cut) whole++;
                size_t start = s.find_last_of(" \t\r\n", cut ? cut - 1 : 0); start = cut == 0 ? 0 : start == std::string::npos ? 0 : start + 1;
                size_t present = whole; // values of which something is left
                if (cut > start && (whole == 0 || tok[whole - 1] < cut) && whole < tok.size()) present++;
                if (present >= tok.size()) continue; // nothing missing, or only digits of the last value
                put(fn, s.substr(0, cut)); h().count("truncations"); std::string e;
                { text_reader<double> rd(fn); V a(r * c, -77); if (!guarded([&]() { rd.read(a); })) e = "a file cut after " + S(cut) + " of " + S(s.size()) + " bytes is read as " + fmt(a); }
                { text_reader<double> rd(fn); V a(c, -77); size_t n = 0; bool ex = false, more = true; while (more && !ex && n <= r) { more = false; ex = guarded([&]() { more = rd.readline(a); }); if (more && !ex) { if (!(present > 0 && n == (present - 1) / c) && !same(a, V(v.begin() + n * c, v.begin() + (n + 1) * c))) e = "row " + S(n) + " of a cut file is " + fmt(a); n++; } }
                  if (e.empty() && !ex && present % c) e = "a cut row is not reported"; if (e.empty() && n * c > present) e = "more rows than the cut file has"; }
                if (!e.empty()) { h().viol("text-short", e); break; }
            }
            // too many values, and words
            for (int bad = 0; bad < 3; bad++) {
                put(fn, bad == 0 ? s + " 1\n" : bad == 1 ? "x" + s : s.substr(0, tok[0]) + "e" + s.substr(tok[0]));
                text_reader<double> rd(fn); V a(r * c, -77); if (!guarded([&]() { rd.read(a); }) && !(bad == 2 && false)) { h().viol("text-bad", "malformed file " + S(bad) + " is read as " + fmt(a)); break; }
            }
            put(fn, ""); { V a(c, -77); bool got = true; text_reader<double> rd(fn); guarded([&]() { got = rd.readline(a); }); if (got && a != V(c, -77)) h().viol("text-empty", "a row is read from an empty file"); }
        }
    };
    for (size_t r = 1; r <= (th ? 4u : 3u); r++) for (size_t c = 1; c <= (th ? 4u : 3u); c++) for (int from = 0; from < 10; from++) for (int step : {1, 3}) for (unsigned q = 0; q < 5; q++) matrix(r, c, from, step, q, false);
    const size_t bigs[][2] = {{1, 17}, {17, 1}, {5, 40}, {3, 130}, {2, 700}, {300, 3}, {2, 5000}}; // lines longer than any buffer of the usual sizes
    for (auto& b : bigs) for (unsigned q = 0; q < 5; q++) for (int from = 0; from < (th ? 10 : 2); from++) matrix(b[0], b[1], from, 3, q, true);
    if (h().next("text missing")) { unlink(fn.c_str()); if (!guarded([&]() { text_reader<double> rd(fn); })) h().viol("missing", "no error for a missing file"); }
    unlink(fn.c_str());
}
template <class T> static void bin_type(const char* tn, bool th, const std::vector<T>& pool) {
    std::string fn = path("m.bin");
    auto matrix = [&](size_t r, size_t c, int from, bool big) {
        std::vector<T> v(r * c); for (size_t i = 0; i < v.size(); i++) v[i] = pool[(from + i) % pool.size()] + (T)(i / pool.size());
        std::string s = bytes(v);
        for (int plan : big ? std::vector<int>{0, 1, (int)r / 2, -1} : plans(r)) for (size_t skip = 0; skip < r; skip += big ? r / 2 + 1 : 1) for (size_t ncut = 0; ncut <= s.size(); ncut += big && ncut > 9 ? s.size() / 20 + 1 : 1) {
            size_t cut = s.size() - ncut; // 0: complete
            if (big && plan > 0 && plan + skip > r) continue;
            if (skip && plan != 0 && plan != -1 && !th) continue;
            if (!h().next(std::string("bin ") + tn + " " + S(r) + "x" + S(c) + " from=" + S(from) + " plan=" + S(plan) + " skip=" + S(skip) + " bytes=" + S(cut))) continue;
            if (r > 1) h().count("nontrivial");
            if (ncut) h().count("truncations");
            put(fn, s.substr(0, cut)); size_t avail = cut / (c * sizeof(T));
            bin_rm_reader<T> rd(fn); rd.set_ncol(c); if (skip) rd.seek(skip * c * sizeof(T));
            std::vector<T> row(c); size_t i = skip; bool over = false; std::string e;
            size_t rows = plan < 0 ? r + 1 : (size_t)plan;
            for (size_t n = 0; n < rows && e.empty() && !over; n++, i++) {
                bool got = false; int ex = guarded([&]() { got = rd.readline(row); });
                if (i < avail && i < r) { if (ex || !got) e = "row " + S(i) + " is not read though it is stored"; else if (!std::equal(row.begin(), row.end(), v.begin() + i * c)) e = "row " + S(i) + " differs"; else if (rd.get_nrow() != n + 1) e = "get_nrow() is " + S(rd.get_nrow()) + " after " + S(n + 1) + " rows"; }
                else { over = true; if (got && !ex) e = "row " + S(i) + " is read though the file holds " + S(avail) + " rows"; if (!ex && cut % (c * sizeof(T)) && i == avail) e = "an incomplete row is not reported"; }
            }
            if (e.empty() && !over && plan >= 0 && i < r) {
                std::vector<T> rest((r - i) * c); int ex = guarded([&]() { rd.read(rest); });
                if (cut < s.size() ? !ex : ex) e = cut < s.size() ? "a short file is read as data" : "reading the rest fails"; else if (!ex && !std::equal(rest.begin(), rest.end(), v.begin() + i * c)) e = "the rest differs";
            }
            if (!e.empty()) h().viol("bin", e);
        }
    };
    for (size_t r = 1; r <= (th ? 5u : 4u); r++) for (size_t c = 1; c <= (th ? 4u : 3u); c++) for (int from = 0; from < 4; from++) matrix(r, c, from, false);
    const size_t bigs[][2] = {{1, 17}, {17, 1}, {5, 40}, {3, 700}, {700, 3}, {2, 9000}, {2000, 1}};
    for (auto& b : bigs) matrix(b[0], b[1], 0, true);
    // moving about: a position, some rows from there, another position
    for (size_t r = 2; r <= 3; r++) for (size_t c = 1; c <= 2; c++) tuples(6, 0, 2, [&](const std::vector<int>& m) {
        for (int q = 0; q < 3; q++) if (m[2 * q] + m[2 * q + 1] > (int)r) return;
        if (!h().next([&]() { std::string s = std::string("bin ") + tn + " " + S(r) + "x" + S(c) + " moves"; for (int x : m) s += " " + S(x); return s; })) return;
        h().count("nontrivial"); std::vector<T> v(r * c), row(c); for (size_t i = 0; i < v.size(); i++) v[i] = (T)(i * 3 + 1); put(fn, bytes(v)); bin_rm_reader<T> rd(fn); rd.set_ncol(c);
        for (int q = 0; q < 3; q++) { rd.seek(m[2 * q] * c * sizeof(T)); for (int i = m[2 * q]; i < m[2 * q] + m[2 * q + 1]; i++) { bool got = false; int ex = guarded([&]() { got = rd.readline(row); }); if (ex || !got || !std::equal(row.begin(), row.end(), v.begin() + i * c)) { h().viol("bin/moves", "row " + S(i) + " is not what is read after moving to row " + S(m[2 * q])); return; } } }
    });
    if (h().next(std::string("bin missing ") + tn)) { unlink(fn.c_str()); if (!guarded([&]() { bin_rm_reader<T> rd(fn); })) h().viol("missing", "no error for a missing file"); }
    unlink(fn.c_str());
}
// bin_io: what is written in any portions is read back in any portions
template <class T> static void io_type(const char* tn, bool th, const std::vector<T>& pool) {
    std::string fn = path("io.bin");
    int depth = th ? 4 : 3;
    for (size_t r = 1; r <= 3; r++) for (size_t c = 1; c <= 3; c++) {
        std::vector<T> v(r * c); for (size_t i = 0; i < v.size(); i++) v[i] = pool[i % pool.size()];
        // writing: every composition of the rows into portions (bits: cut after this value), through both forms
        for (unsigned comp = 0; comp < (1u << (r * c - 1)); comp++) for (int form = 0; form < 2; form++) {
            if (!h().next(std::string("write ") + tn + " " + S(r) + "x" + S(c) + " portions=" + S(comp) + " form=" + S(form))) continue;
            if (comp) h().count("nontrivial");
            unlink(fn.c_str());
            { bin_io<T> w(fn, "wb"); size_t from = 0; for (size_t i = 0; i < r * c; i++) if (i + 1 == r * c || (comp >> i & 1)) { if (form) w.write(&v[from], i + 1 - from); else w.write(std::vector<T>(v.begin() + from, v.begin() + i + 1), i + 1 - from); from = i + 1; } }
            if (get(fn) != bytes(v)) h().viol("write", "the file does not hold the values written");
        }
        // reading: every sequence of row reads and whole reads, at every truncation
        for (size_t cut = 0; cut <= v.size() * sizeof(T); cut++) for (int len = 1; len <= depth; len++) tuples(len, 0, 3, [&](const std::vector<int>& ops) {
            if (cut < v.size() * sizeof(T) && len == depth && !th) return;
            if (!h().next([&]() { return std::string("read ") + tn + " " + S(r) + "x" + S(c) + " bytes=" + S(cut) + " ops=" + fmt(ops); })) return;
            if (len > 1) h().count("nontrivial");
            put(fn, bytes(v).substr(0, cut)); bin_io<T> rd(fn, r, c); size_t pos = 0; std::string e;
            for (int op : ops) {
                bool whole = op >= 2; size_t need = whole ? r * c : c; std::vector<T> a(need);
                bool fits = (pos + need) * sizeof(T) <= cut;
                int ex = guarded([&]() { if (op == 0) a = rd.readline(); else if (op == 1) rd.readline(&a[0]); else if (op == 2) rd.read(&a); else rd.read(&a[0]); });
                if (!fits) { if (!ex) e = "more values are read than the file holds"; break; }
                if (ex) { e = "values that are stored are not read"; break; }
                for (size_t i = 0; i < need; i++) if (!(a[i] == v[(pos + i)])) e = "value " + S(pos + i) + " differs";
                pos += need; if (!e.empty()) break;
                if (bool(rd) != (pos != r * c)) { e = std::string("reports ") + (bool(rd) ? "more" : "no more") + " values after " + S(pos); break; }
            }
            if (!e.empty()) h().viol("bin_io", e);
        });
    }
    const size_t bigs[][2] = {{1, 17}, {17, 1}, {5, 40}, {3, 700}, {700, 3}, {2, 9000}, {2000, 1}};
    for (auto& b : bigs) for (size_t part : {(size_t)1, b[1], b[0] * b[1]}) for (int form = 0; form < 2; form++) for (int op = 0; op < 4; op++) {
        size_t r = b[0], c = b[1], n = r * c; if (!h().next(std::string("large ") + tn + " " + S(r) + "x" + S(c) + " part=" + S(part) + " form=" + S(form) + " op=" + S(op))) continue;
        h().count("nontrivial"); std::vector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = pool[i % pool.size()] + (T)(i / pool.size()); unlink(fn.c_str());
        { bin_io<T> w(fn, "wb"); for (size_t from = 0; from < n; from += part) { if (form) w.write(&v[from], part); else w.write(std::vector<T>(v.begin() + from, v.begin() + from + part), part); } }
        if (get(fn) != bytes(v)) { h().viol("write", "the file does not hold the values written"); continue; }
        for (size_t cut : {n, n - 1, n / 2}) {
            put(fn, bytes(v).substr(0, cut * sizeof(T))); bin_io<T> rd(fn, r, c); std::string e; bool whole = op >= 2; size_t need = whole ? n : c;
            for (size_t pos = 0; pos < n && e.empty(); pos += need) {
                std::vector<T> a(need); int ex = guarded([&]() { if (op == 0) a = rd.readline(); else if (op == 1) rd.readline(&a[0]); else if (op == 2) rd.read(&a); else rd.read(&a[0]); });
                if (pos + need > cut) { if (!ex) e = "more values are read than the file holds"; break; }
                if (ex) e = "values that are stored are not read"; else if (!std::equal(a.begin(), a.end(), v.begin() + pos)) e = "values from " + S(pos) + " differ";
            }
            if (!e.empty()) { h().viol("bin_io", e); break; }
        }
    }
    if (h().next(std::string("bin_io missing ") + tn)) { unlink(fn.c_str()); if (!guarded([&]() { bin_io<T> rd(fn, 1, 1); })) h().viol("missing", "no error for a missing file"); if (!guarded([&]() { bin_io<T> rd(fn, "rb"); })) h().viol("missing", "no error for a missing file"); if (!guarded([&]() { bin_io<T> rd(path("nodir/x.bin"), "wb"); })) h().viol("missing", "no error for a file that cannot be created"); }
    unlink(fn.c_str());
}
// result files
static bool parse_yml(const std::string& s, std::map<std::string, std::string>& m) {
    size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) return false; std::string l = s.substr(p, e - p); size_t c = l.find(": "); if (c == std::string::npos || m.count(l.substr(0, c))) return false; m[l.substr(0, c)] = l.substr(c + 2); p = e + 1; } return true; }
static bool list(std::string s, V& out) { if (s.size() < 2 || s[0] != '[' || s.back() != ']') return false; s = s.substr(1, s.size() - 2); while (!s.empty()) { char* e; double v = strtod(s.c_str(), &e); if (e == s.c_str()) return false; out.push_back(v); size_t n = e - s.c_str(); if (n == s.size()) return true; if (s[n] != ',') return false; s = s.substr(n + 1); } return true; }
static std::string same_file(const cluster_t& c, const std::string& fn) {
    std::map<std::string, std::string> m; if (!parse_yml(get(fn), m)) return "the file is not one key and value per line";
    auto num = [&](const char* k, size_t v) { return m.count(k) && m[k] == S(v); };
    if (!num("k", c.k) || !num("niter", c.iters) || !num("nsamples", c.nrow) || !num("dim", c.ncol) || m.size() != 7) return "a number in the file is wrong";
    V a, n, x; if (!list(m["size"], n) || !list(m["cluster"], a)) return "a list is malformed";
    if (n != V(c.assignment_count.begin(), c.assignment_count.end())) return "the sizes differ"; if (a != V(c.assignments.begin(), c.assignments.end())) return "the assignments differ";
    std::string s = m["centroids"]; if (s.size() < 2 || s[0] != '[' || s.back() != ']') return "the centroids are malformed"; s = s.substr(1, s.size() - 2);
    size_t rows = 0; while (!s.empty()) { size_t e = s.find(']'); if (s[0] != '[' || e == std::string::npos) return "the centroids are malformed"; V r; if (!list(s.substr(0, e + 1), r) || r.size() != c.ncol) return "a centroid has the wrong length"; x.insert(x.end(), r.begin(), r.end()); rows++; s = s.substr(e + 1); if (!s.empty()) { if (s[0] != ',') return "the centroids are malformed"; s = s.substr(1); } }
    if (rows != c.k) return "the file has " + S(rows) + " centroids"; for (size_t i = 0; i < x.size(); i++) if (std::fabs(x[i] - c.centroids[i]) > 5.1e-6 * std::fabs(c.centroids[i])) return "centroid value " + fmt(c.centroids[i]) + " is written as " + fmt(x[i]);
    return "";
}
static void result_mode() {
    bool th = h().thorough; std::string base = path("res");
    // outcome: 0 must succeed, 1 must be reported
    struct Dir { const char* d; int bad; }; const Dir dirs[] = {{"plain", 0}, {"a/b/c", 0}, {"slash/", 0}, {"there", 0}, {"old", 0}, {"file", 1}, {"file/x", 1}, {"dirthere", 1}, {"full", 1}};
    auto all = [&](size_t n, size_t d, size_t k, const std::vector<int>& as) { for (int from = 0; from < 10; from += 3) for (auto& dr : dirs) for (int how = 0; how < 3; how++) {
        if ((dr.bad || dr.d[0] != 'p') && (from || how)) continue;
        if (!h().next([&]() { return "result n=" + S(n) + " d=" + S(d) + " k=" + S(k) + " assignments=" + fmt(as) + " from=" + S(from) + " dir=" + dr.d + " how=" + S(how); })) continue;
        if (k > 1) h().count("nontrivial");
        U a(as.begin(), as.end()); std::vector<knor::llong_t> cnt(k, 0); for (unsigned x : a) cnt[x]++; V cen = values(k * d, from, 1); for (auto& x : cen) if (x && std::fabs(x) < 1e-200) x = 1e-5;
        cluster_t c; if (how == 0) c = cluster_t(n, d, 17, k, a.data(), cnt.data(), cen); else if (how == 1) { c.set_params(n, d, 17, k); c.set_computed(a.data(), cnt.data(), cen); } else { c = cluster_t(n, d, 17, k, a.data(), cnt.data(), cen); cluster_t e = c; c = e; if (!(c == e)) h().viol("result", "a copy is not equal"); }
        if (c.assignments != a || c.centroids != cen || c.k != k || c.nrow != n || c.ncol != d || c.iters != 17 || V(c.assignment_count.begin(), c.assignment_count.end()) != V(cnt.begin(), cnt.end())) { h().viol("result", "the clustering does not hold what it was made of"); continue; }
        std::string me = base + S(getpid()); wipe(me); mkdir(me.c_str(), 0755);
        std::string dir = me + "/" + dr.d, D = dr.d;
        if (D == "there" || D == "old" || D == "dirthere" || D == "full") mkdir(dir.c_str(), 0755);
        if (D == "old") put(dir + "/cluster_t.yml", "k: 99\nold and longer than anything that is written now............................................................................................................................................................................................\n");
        if (D == "dirthere") mkdir((dir + "/cluster_t.yml").c_str(), 0755);
        if (D == "full" && symlink("/dev/full", (dir + "/cluster_t.yml").c_str())) {}
        if (D[0] == 'f' && D[1] == 'i') put(me + "/file", "x");
        int ex = guarded([&]() { c.write(dir); });
        if (dr.bad) { if (!ex) h().viol("result-lost", "the result cannot be written, which is not reported"); }
        else if (ex) h().viol("result", "the result is not written");
        else { std::string e = same_file(c, dir + "/cluster_t.yml"); if (!e.empty()) h().viol("result", e + ": " + get(dir + "/cluster_t.yml")); }
        wipe(me);
    } };
    for (size_t n = 1; n <= (th ? 5u : 4u); n++) for (size_t d = 1; d <= 3; d++) for (size_t k = 1; k <= n && k <= 3; k++) tuples((int)n, 0, (int)k - 1, [&](const std::vector<int>& as) { all(n, d, k, as); });
    const size_t bigs[][3] = {{40, 9, 7}, {300, 5, 20}, {2500, 2, 3}, {20, 700, 4}, {90, 3, 90}};
    for (auto& b : bigs) for (int step : {1, 3, 7}) { std::vector<int> as; for (size_t i = 0; i < b[0]; i++) as.push_back((int)((i * i + step * i) % b[2])); all(b[0], b[1], b[2], as); }
}
// the medium is full after every number of bytes: an incomplete result is reported
static void torn_mode() {
    std::string me = path("torn" + S(getpid())); signal(SIGXFSZ, SIG_IGN);
    const size_t shapes[][3] = {{1, 1, 1}, {4, 2, 2}, {9, 3, 4}, {700, 3, 5}, {3000, 9, 40}};
    for (auto& b : shapes) {
        size_t n = b[0], d = b[1], k = b[2]; U a; std::vector<knor::llong_t> cnt(k, 0); for (size_t i = 0; i < n; i++) { a.push_back((i * i + i / 3) % k); cnt[a.back()]++; }
        V cen; for (size_t i = 0; i < k * d; i++) cen.push_back(0.125 + 1.37 * i); cluster_t c(n, d, 17, k, a.data(), cnt.data(), cen);
        wipe(me); mkdir(me.c_str(), 0755); guarded([&]() { c.write(me); }); size_t len = get(me + "/cluster_t.yml").size();
        for (size_t room = 0; room <= len; room++) {
            if (len > 600 && room % 97 && room + 40 < len && room % 512 > 1) continue;
            if (!h().next([&]() { return "result n=" + S(n) + " d=" + S(d) + " k=" + S(k) + " room for " + S(room) + " of " + S(len) + " bytes"; })) continue;
            h().count("nontrivial"); unlink((me + "/cluster_t.yml").c_str());
            struct rlimit old, rl; getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &rl);
            int ex = guarded([&]() { c.write(me); }); setrlimit(RLIMIT_FSIZE, &old);
            if (room < len) { h().count("truncations"); if (!ex) h().viol("result-torn", S(room) + " of " + S(len) + " bytes of the result are written, which is not reported"); }
            else if (ex) h().viol("result", "the result is not written"); else { std::string e = same_file(c, me + "/cluster_t.yml"); if (!e.empty()) h().viol("result", e); }
        }
        wipe(me);
    }
}
// data files of the engines, cut at every byte: never read as data
static void load_mode() {
    bool th = h().thorough;
    struct E { const char* eng; unsigned T, procs; }; const E es[] = {{"km", 1, 1}, {"km", 3, 1}, {"kmp", 2, 1}, {"mb", 2, 1}, {"fcm", 2, 1}, {"sk", 2, 1}, {"med", 2, 1}, {"hc", 2, 1}, {"xm", 2, 1}, {"gm", 2, 1}, {"dist", 1, 2}, {"distp", 1, 2}};
    const size_t shapes[][2] = {{3, 1}, {3, 2}, {5, 1}, {5, 2}, {30, 7}, {100, 3}};
    for (auto& e : es) for (auto& sh : shapes) for (size_t n = sh[0], d = sh[1], cut = 0; cut <= n * d * 8; cut++) {
        if (n > 5 && cut % (d * 8 * 11) && cut + 9 < n * d * 8 && !(th && cut % (d * 8) < 2)) continue;
        if (!th && cut % 8 && cut % 8 != 7 && cut % 8 != 1 && cut != 4) continue;
        Cfg c; c.eng = e.eng; c.T = e.T; c.procs = e.procs; c.k = 2; c.mi = 2; c.src = "file"; Data D; D.n = n; D.d = d; for (size_t i = 0; i < n * d; i++) D.x.push_back(1 + (i * 7) % 5 + 0.25 * i);
        if (std::string("km kmp mb sk dist distp").find(e.eng) != std::string::npos) { c.init = "none"; c.cen.assign(D.x.begin(), D.x.begin() + 2 * d); } else c.init = "forgy";
        if (!h().next(std::string("load ") + c.str() + " n=" + S(n) + " d=" + S(d) + " bytes=" + S(cut))) continue;
        if (cut) h().count("nontrivial");
        if (cut < n * d * 8) h().count("truncations");
        Out o;
        vh::data_cut = cut < n * d * 8 ? (long)cut : -1;
        RunOut r = exec([&]() { o = run_engine(c, D); }); vh::data_cut = -1;
        if (cut == n * d * 8) { if (!r.ok()) h().viol(std::string("load/") + vrt::end_name(r.end), r.detail); }
        else if (r.ok()) h().viol("load-short", "a file of " + S(cut) + " bytes is clustered as " + S(n) + " rows: " + o.str());
        else if (r.end != vrt::End::EXCEPTION && r.end != vrt::End::ASSERTION && r.end != vrt::End::EXITED) h().viol(std::string("load-short/") + vrt::end_name(r.end), r.detail);
    }
}
int main(int argc, char** argv) {
    h().init(argc, argv); bool th = h().thorough; std::string m = h().mode;
    struct rlimit rl; if (getrlimit(RLIMIT_NOFILE, &rl) == 0) { rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
    h().scratch += "/f" + S(getpid()); mkdir(h().scratch.c_str(), 0755);
    if (m == "text") text_mode();
    else if (m == "bin") { bin_type<double>("double", th, {0, -1.5, 0.1, 1e300, -5e-324, 3}); bin_type<unsigned>("unsigned", th, {0, 1, 4294967290u, 77}); }
    else if (m == "io") { io_type<double>("double", th, {0, -1.5, 0.1, 1e300, -5e-324, 3}); io_type<unsigned>("unsigned", th, {0, 1, 4294967290u, 77}); }
    else if (m == "result") result_mode();
    else if (m == "load") load_mode();
    else if (m == "torn") torn_mode();
    else return 70;
    if (rmdir(h().scratch.c_str())) {}
    return h().finish();
}
