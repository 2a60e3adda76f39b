#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <unordered_set>

namespace vh {
Suite *&Suite::head() { static Suite *h = nullptr; return h; }

struct Shared { char config[512]; char detail[1024]; };
static Shared *shm_ = nullptr;
static std::string cfg_, det_;
static int outfd_ = -1;
static std::map<std::string, long> obs_;
static std::set<std::string> sigs_;
static std::map<std::string, int> failcount_;
static std::string buf_;
static int nsample_ = 0;
static bool tracing_ = false, thorough_ = false;
static FILE *tracef_ = nullptr;

bool tracing() { return tracing_; }
bool thorough() { return thorough_; }
bool sanitized() {
#ifdef VH_SAN
    return true;
#else
    return false;
#endif
}
static std::string clean(const std::string &s) { std::string r; for (char c : s) r += (c == '\n' || c == '\t' || (unsigned char)c < 32) ? ' ' : c; return r; }
static std::string vfmt(const char *fmt, va_list ap) { char b[2048]; vsnprintf(b, sizeof b, fmt, ap); return clean(b); }
void config(const char *fmt, ...) { va_list ap; va_start(ap, fmt); cfg_ = vfmt(fmt, ap); va_end(ap); det_.clear(); if (shm_) { snprintf(shm_->config, sizeof shm_->config, "%s", cfg_.c_str()); shm_->detail[0] = 0; } }
const std::string &curconfig() { return cfg_; }
void detail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); det_ = vfmt(fmt, ap); va_end(ap); if (shm_) snprintf(shm_->detail, sizeof shm_->detail, "%s", det_.c_str()); }
void obs(const char *what, long n) { obs_[what] += n; }
void sig(const std::string &s) { if (sigs_.size() < 20000) sigs_.insert(clean(s)); }
static void emit(const std::string &s) { buf_ += s; buf_ += '\n'; }
static void flush() { size_t o = 0; while (o < buf_.size()) { ssize_t k = write(outfd_, buf_.data() + o, buf_.size() - o); if (k <= 0) break; o += k; } buf_.clear(); }
void sample(const char *fmt, ...) { if (nsample_++ >= 2) return; va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap); emit("SAMPLE\t" + cfg_ + ": " + s); }
static long nfail_ = 0;
long nfail() { return nfail_; }
static void vfail(const char *check, const std::string &msg) {
    nfail_++;
    if (failcount_[cfg_ + "|" + check]++ >= 2) return;
    emit(std::string("VIO\t") + check + "\t" + cfg_ + "\t" + (det_.empty() ? "" : "[" + det_ + "] ") + msg);
    flush();
}
void fail(const char *check, const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap); vfail(check, s); }
bool expect(bool ok, const char *check, const char *fmt, ...) { obs_[check]++; if (tracing_ && !strstr(check, "time")) trace(check, ok ? 1.0 : 0.0); if (ok) return true; va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap); vfail(check, s); return false; }
static bool report_ = getenv("VH_REPORT") != nullptr;
static std::map<std::string, double> worst_;
bool small(const char *check, double err, double tol, const char *what) {
    obs_[check]++; if (tracing_ && !strstr(check, "time")) trace(check, err);
    if (report_) { double q = tol > 0 ? err / tol : (err > 0 ? HUGE_VAL : 0); std::string k = std::string(check) + "|" + cfg_; if (!(q <= worst_[k])) worst_[k] = q; }
    if (err <= tol) return true;
    char b[512]; snprintf(b, sizeof b, "%s: error %.3e exceeds %.3e", what, err, tol);
    vfail(check, b); return false;
}
static uint64_t bits(double v) { if (v != v) return 0x7ff8ull << 48; uint64_t u; memcpy(&u, &v, 8); return u; }   // all NaNs alike
void trace(const char *what, const double *p, size_t n) {
    if (!tracing_) return;
    obs_["trace"] += (long)n;
    fprintf(tracef_, "%s", what);
    // short vectors verbatim, long ones hashed
    if (n <= 4) for (size_t i = 0; i < n; i++) { uint64_t u; u = bits(p[i]); fprintf(tracef_, " %016llx", (unsigned long long)u); }
    else { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { uint64_t u; u = bits(p[i]); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; } fprintf(tracef_, " #%zu %016llx", n, (unsigned long long)h); }
    fprintf(tracef_, " @%s\n", cfg_.c_str());
}
void trace(const char *what, double v) { trace(what, &v, 1); }
void trace(const char *what, const ROPTLIB::Element &e) { if (!tracing_) return; if (e.GetSpace() == nullptr) { trace(what, (double)e.Getlength()); return; } trace(what, e.ObtainReadData(), (size_t)e.Getlength()); }

// ------------------------------------------------------------------------------ reference algebra
Mat operator+(const Mat &x, const Mat &y) { Mat r = x; r.cx |= y.cx; for (size_t i = 0; i < r.a.size(); i++) r.a[i] += y.a[i]; return r; }
Mat operator-(const Mat &x, const Mat &y) { Mat r = x; r.cx |= y.cx; for (size_t i = 0; i < r.a.size(); i++) r.a[i] -= y.a[i]; return r; }
Mat operator*(const Mat &x, const Mat &y) {
    Mat r(x.m, y.n, x.cx || y.cx);
    if (x.n != y.m) { fprintf(stderr, "harness: bad product %dx%d * %dx%d\n", x.m, x.n, y.m, y.n); abort(); }
    for (int j = 0; j < y.n; j++) for (int k = 0; k < x.n; k++) { cd t = y(k, j); if (t != cd(0)) for (int i = 0; i < x.m; i++) r(i, j) += x(i, k) * t; }
    return r;
}
Mat operator*(cd s, const Mat &x) { Mat r = x; if (s.imag() != 0) r.cx = true; for (auto &v : r.a) v *= s; return r; }
Mat H(const Mat &x) { Mat r(x.n, x.m, x.cx); for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) r(j, i) = std::conj(x(i, j)); return r; }
Mat Tr(const Mat &x) { Mat r(x.n, x.m, x.cx); for (int i = 0; i < x.m; i++) for (int j = 0; j < x.n; j++) r(j, i) = x(i, j); return r; }
Mat Cj(const Mat &x) { Mat r = x; for (auto &v : r.a) v = std::conj(v); return r; }
Mat sym(const Mat &x) { return cd(0.5) * (x + H(x)); }
Mat skew(const Mat &x) { return cd(0.5) * (x - H(x)); }
double nrm(const Mat &x) { double mx = maxabs(x); if (mx == 0 || !(mx < HUGE_VAL)) return mx; double s = 0; for (auto &v : x.a) s += std::norm(v / mx); return mx * std::sqrt(s); }
cd trace(const Mat &x) { cd s = 0; for (int i = 0; i < std::min(x.m, x.n); i++) s += x(i, i); return s; }
double rdot(const Mat &x, const Mat &y) { double s = 0; for (size_t i = 0; i < x.a.size(); i++) s += (std::conj(x.a[i]) * y.a[i]).real(); return s; }
Mat inv(const Mat &x) {
    int n = x.m; Mat A = x, B = Mat::eye(n, x.cx);
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        if (p != k) for (int j = 0; j < n; j++) { std::swap(A(p, j), A(k, j)); std::swap(B(p, j), B(k, j)); }
        cd d = A(k, k);
        for (int j = 0; j < n; j++) { A(k, j) /= d; B(k, j) /= d; }
        for (int i = 0; i < n; i++) if (i != k) { cd f = A(i, k); if (f != cd(0)) for (int j = 0; j < n; j++) { A(i, j) -= f * A(k, j); B(i, j) -= f * B(k, j); } }
    }
    return B;
}
void symeig(const Mat &X, std::vector<double> &w, Mat &V) {
    int n = X.m; Mat A = sym(X); V = Mat::eye(n, X.cx);
    double tot = nrm(A); if (tot == 0) tot = 1;
    if (!std::isfinite(tot)) { w.assign(n, NAN); return; }
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += std::norm(A(i, j));
        if (std::sqrt(off) < 1e-17 * tot) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            cd apq = A(p, q); double r = std::abs(apq); if (r < 1e-300) continue;
            cd ph = apq / r; double app = A(p, p).real(), aqq = A(q, q).real();
            double th = (aqq - app) / (2 * r), t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            // columns: p' = c p - s conj(ph) q ; q' = s ph p + c q   (unitary)
            for (int k = 0; k < n; k++) { cd x = A(k, p), y = A(k, q); A(k, p) = c * x - s * std::conj(ph) * y; A(k, q) = s * ph * x + c * y; }
            for (int k = 0; k < n; k++) { cd x = A(p, k), y = A(q, k); A(p, k) = c * x - s * ph * y; A(q, k) = s * std::conj(ph) * x + c * y; }
            for (int k = 0; k < n; k++) { cd x = V(k, p), y = V(k, q); V(k, p) = c * x - s * std::conj(ph) * y; V(k, q) = s * ph * x + c * y; }
        }
    }
    std::vector<int> id(n); for (int i = 0; i < n; i++) id[i] = i;
    std::sort(id.begin(), id.end(), [&](int a, int b) { return A(a, a).real() < A(b, b).real(); });
    w.resize(n); Mat W(n, n, X.cx);
    for (int j = 0; j < n; j++) { w[j] = A(id[j], id[j]).real(); for (int i = 0; i < n; i++) W(i, j) = V(i, id[j]); }
    V = W;
}
Mat funsym(const Mat &X, const std::function<double(double)> &f) {
    std::vector<double> w; Mat V; symeig(X, w, V); Mat D(X.m, X.m, X.cx); for (int i = 0; i < X.m; i++) D(i, i) = f(w[i]); return V * D * H(V);
}
std::vector<double> singvals(const Mat &X) {
    // one-sided Jacobi keeps small singular values accurate
    Mat A = X.m >= X.n ? X : H(X); int n = A.n;
    for (int sweep = 0; sweep < 60; sweep++) {
        bool rot = false;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double al = 0, be = 0; cd g = 0; for (int i = 0; i < A.m; i++) { al += std::norm(A(i, p)); be += std::norm(A(i, q)); g += std::conj(A(i, p)) * A(i, q); }
            double r = std::abs(g); if (r <= 1e-16 * std::sqrt(al * be) || r == 0) continue; rot = true;
            cd ph = g / r; double z = (be - al) / (2 * r), t = (z >= 0 ? 1.0 : -1.0) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s = c * t;
            for (int i = 0; i < A.m; i++) { cd x = A(i, p), y = A(i, q); A(i, p) = c * x - s * std::conj(ph) * y; A(i, q) = s * ph * x + c * y; }
        }
        if (!rot) break;
    }
    std::vector<double> s(n); for (int j = 0; j < n; j++) { double t = 0; for (int i = 0; i < A.m; i++) t += std::norm(A(i, j)); s[j] = std::sqrt(t); }
    std::sort(s.rbegin(), s.rend()); return s;
}
Mat blk(const Mat &x, int r0, int r1, int c0, int c1) { Mat r(r1 - r0 + 1, c1 - c0 + 1, x.cx); for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) r(i - r0, j - c0) = x(i, j); return r; }
Mat hcat(const Mat &a, const Mat &b) { Mat r(a.m, a.n + b.n, a.cx || b.cx); for (int i = 0; i < a.m; i++) { for (int j = 0; j < a.n; j++) r(i, j) = a(i, j); for (int j = 0; j < b.n; j++) r(i, a.n + j) = b(i, j); } return r; }
Mat vcat(const Mat &a, const Mat &b) { return Tr(hcat(Tr(a), Tr(b))); }
Mat vec(const Mat &x) { Mat r = x; r.m = x.m * x.n; r.n = 1; return r; }
Mat reshape(const Mat &x, int m, int n) { Mat r = x; r.m = m; r.n = n; return r; }
Mat randm(Rng &g, int m, int n, bool cx, double sc) { Mat r(m, n, cx); for (auto &v : r.a) { double x = g.n() * sc, y = cx ? g.n() * sc : 0; v = cd(x, y); } return r; }
Mat randorth(Rng &g, int m, int n, bool cx) {
    Mat A = randm(g, m, n, cx);
    for (int rep = 0; rep < 2; rep++) for (int j = 0; j < n; j++) {
        for (int k = 0; k < j; k++) { cd d = 0; for (int i = 0; i < m; i++) d += std::conj(A(i, k)) * A(i, j); for (int i = 0; i < m; i++) A(i, j) -= d * A(i, k); }
        double s = 0; for (int i = 0; i < m; i++) s += std::norm(A(i, j)); s = std::sqrt(s); for (int i = 0; i < m; i++) A(i, j) /= s;
    }
    return A;
}
Mat randspd(Rng &g, int n, bool cx, double cond) {
    Mat Q = randorth(g, n, n, cx), D(n, n, cx); for (int i = 0; i < n; i++) D(i, i) = std::pow(cond, g.u() - 0.5); return sym(Q * D * H(Q));
}
bool finite(const Mat &x) { for (auto &v : x.a) if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) return false; return true; }
bool finite(const std::vector<double> &v) { for (double t : v) if (!std::isfinite(t)) return false; return true; }
double maxabs(const Mat &x) { double s = 0; for (auto &v : x.a) { double t = std::max(std::fabs(v.real()), std::fabs(v.imag())); if (std::isnan(v.real()) || std::isnan(v.imag())) return HUGE_VAL; if (t > s) s = t; } return s; }
std::string shape(const Mat &x) { char b[64]; snprintf(b, sizeof b, "%c%dx%d", x.cx ? 'c' : 'r', x.m, x.n); return b; }
double rel(const Mat &a, const Mat &b, double fl) { if (a.a.size() != b.a.size()) return HUGE_VAL; Mat d = a - b; double e = nrm(d), s = std::max(fl, std::max(nrm(a), nrm(b))); if (!(s < HUGE_VAL)) return HUGE_VAL; return e / s; }
Mat of(const ROPTLIB::Element &e) {
    int m = e.Getrow(), n = e.Getcol() * e.Getnum(); Mat r(m, n, e.Getiscomplex());
    const double *p = e.ObtainReadData();
    for (size_t i = 0; i < r.a.size(); i++) r.a[i] = r.cx ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0);
    return r;
}
ROPTLIB::Element el(const Mat &A) {
    ROPTLIB::Element e(A.m, A.n, 1, A.cx);
    double *p = e.ObtainWriteEntireData();
    for (size_t i = 0; i < A.a.size(); i++) if (A.cx) { p[2 * i] = A.a[i].real(); p[2 * i + 1] = A.a[i].imag(); } else p[i] = A.a[i].real();
    return e;
}
std::vector<double> raw(const ROPTLIB::Element &e) { const double *p = e.GetSpace(); if (!p) return {}; return std::vector<double>(p, p + e.Getlength()); }

// Wolfe's minimum-norm-point algorithm on the Gram matrix
std::vector<double> minnorm(const std::vector<std::vector<double>> &G, double &gap) {
    int k = (int)G.size(); std::vector<double> w(k, 0.0); double tr = 0; int b = 0; for (int i = 0; i < k; i++) { tr = std::max(tr, G[i][i]); if (G[i][i] < G[b][b]) b = i; }
    std::vector<int> S{b}; w[b] = 1; gap = 0;
    for (int it = 0; it < 100 * k + 100; it++) {
        std::vector<double> q(k, 0.0); for (int i = 0; i < k; i++) for (int j : S) q[i] += G[i][j] * w[j]; double xx = 0; for (int j : S) xx += w[j] * q[j];
        int e = 0; for (int i = 0; i < k; i++) if (q[i] < q[e]) e = i; gap = xx - q[e];
        if (gap <= 1e-15 * tr || std::find(S.begin(), S.end(), e) != S.end()) break;
        S.push_back(e);
        for (int in = 0; in < k + 2; in++) {
            int n = (int)S.size(); std::vector<std::vector<double>> A(n + 1, std::vector<double>(n + 2, 0.0)); double sc = tr > 0 ? 1 / tr : 1;
            for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A[i][j] = G[S[i]][S[j]] * sc; A[i][i] += 1e-15; A[i][n] = A[n][i] = 1; } A[n][n + 1] = 1;
            bool bad = false; for (int c = 0; c <= n; c++) { int p = c; for (int i = c; i <= n; i++) if (std::fabs(A[i][c]) > std::fabs(A[p][c])) p = i; std::swap(A[c], A[p]); if (std::fabs(A[c][c]) < 1e-300) { bad = true; break; } for (int i = 0; i <= n; i++) if (i != c) { double f = A[i][c] / A[c][c]; for (int j = c; j <= n + 1; j++) A[i][j] -= f * A[c][j]; } }
            if (bad) { S.pop_back(); return w; }
            std::vector<double> a(n); bool ok = true; for (int i = 0; i < n; i++) { a[i] = A[i][n + 1] / A[i][i]; if (!(a[i] > 1e-14)) ok = false; }
            if (ok) { for (int i = 0; i < n; i++) w[S[i]] = a[i]; break; }
            double th = 1; int rm = -1; for (int i = 0; i < n; i++) if (!(a[i] > 1e-14)) { double t = w[S[i]] - a[i] > 0 ? w[S[i]] / (w[S[i]] - a[i]) : 0; if (rm < 0 || t < th) { th = t; rm = i; } }
            for (int i = 0; i < n; i++) w[S[i]] += th * (a[i] - w[S[i]]); w[S[rm]] = 0; S.erase(S.begin() + rm); if (S.empty()) { S.push_back(b); w.assign(k, 0.0); w[b] = 1; break; }
            double t = 0; for (int i : S) t += w[i]; for (int i : S) w[i] /= t;
        }
    }
    return w;
}
} // namespace vh

using namespace vh;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static uint64_t hashstr(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
static std::string slurp(const char *p, size_t mx) { std::string r; FILE *f = fopen(p, "r"); if (!f) return r; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0 && r.size() < mx) r.append(b, k); fclose(f); return r; }

// what a sanitizer/assertion said, reduced to "kind@function"
static std::string crashkind(const std::string &err, int status) {
    std::string kind, fn;
    size_t p;
    auto libframe = [&](size_t from) -> std::string {
        size_t q = from;
        while ((q = err.find("    #", q)) != std::string::npos) {
            size_t e = err.find('\n', q); std::string ln = err.substr(q, e - q);
            if (ln.find("ROPTLIB") != std::string::npos || ln.find("/repo/") != std::string::npos) {
                size_t i = ln.find(" in "); if (i != std::string::npos) { std::string f = ln.substr(i + 4); size_t b = f.find_first_of("( "); f = f.substr(0, b); if (f.find("vh::") != 0) return f; }
            }
            q = e == std::string::npos ? err.size() : e;
        }
        return "";
    };
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) { size_t s = p + 25; size_t e = err.find_first_of(" \n", s); kind = "asan:" + err.substr(s, e - s); fn = libframe(p); }
    else if ((p = err.find("ERROR: LeakSanitizer")) != std::string::npos) { kind = "leak"; size_t q = err.find("leak of", p); fn = libframe(q == std::string::npos ? p : q); }
    else if ((p = err.find("runtime error: ")) != std::string::npos) {
        size_t e = err.find('\n', p); std::string t = err.substr(p + 15, std::min<size_t>(e - p - 15, 60));
        std::string w; for (char c : t) w += isdigit((unsigned char)c) ? '#' : c;    // addresses and values vary
        size_t l = err.rfind('\n', p); l = l == std::string::npos ? 0 : l + 1; std::string loc = err.substr(l, p - l); size_t b = loc.find(':'); loc = loc.substr(0, b); size_t sl = loc.rfind('/'); if (sl != std::string::npos) loc = loc.substr(sl + 1);
        kind = "ubsan:" + w.substr(0, 40); fn = libframe(p); if (fn.empty()) fn = loc;
    }
    else if ((p = err.find("Assertion `")) != std::string::npos) { size_t e = err.find("' failed", p); kind = "assert:" + err.substr(p + 11, std::min<size_t>(60, e - p - 11)); size_t l = err.rfind('\n', p); l = l == std::string::npos ? 0 : l + 1; std::string ln = err.substr(l, p - l); size_t b = ln.find("ROPTLIB::"); if (b != std::string::npos) { size_t e2 = ln.find('(', b); fn = ln.substr(b, e2 - b); } }
    else if ((p = err.find("terminate called")) != std::string::npos) kind = "exception";
    else { char b[64]; if (WIFSIGNALED(status)) snprintf(b, sizeof b, "signal:%d", WTERMSIG(status)); else snprintf(b, sizeof b, "exit:%d", WEXITSTATUS(status)); kind = b; }
    return clean(fn.empty() ? kind : kind + "@" + fn);
}

extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

int main(int argc, char **argv) {
    std::string suite, outp = "/dev/stdout", errp, tracep; uint64_t seed = 1; int count = 1, start = 0, step = 1, only = -1, timeout = 60; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--suite") suite = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--count") count = atoi(v().c_str());
        else if (a == "--start") start = atoi(v().c_str()); else if (a == "--step") step = atoi(v().c_str()); else if (a == "--only") only = atoi(v().c_str());
        else if (a == "--timeout") timeout = atoi(v().c_str()); else if (a == "--out") outp = v(); else if (a == "--trace") tracep = v(); else if (a == "--thorough") thorough_ = true; else if (a == "--list") list = true;
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    if (list) { for (Suite *s = Suite::head(); s; s = s->nextp) puts(s->name); return 0; }
    Suite *su = Suite::head(); while (su && suite != su->name) su = su->nextp;
    if (!su) { fprintf(stderr, "no suite %s\n", suite.c_str()); return 2; }
    shm_ = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    errp = outp == "/dev/stdout" ? "/tmp/vh_err." + std::to_string(getpid()) : outp + ".err";
    FILE *out = fopen(outp.c_str(), "w"); if (!out) { perror("out"); return 2; }
    bool verbose = only >= 0;
    for (int idx = only >= 0 ? only : start; idx < count || only >= 0; idx += step) {
        int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 2; }
        fcntl(pfd[0], F_SETPIPE_SZ, 1 << 20);
        shm_->config[0] = shm_->detail[0] = 0;
        fflush(out);
        double t0 = now();
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 2; }
        if (pid == 0) {
            close(pfd[0]); outfd_ = pfd[1];
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            struct rlimit rt = {(rlim_t)timeout, (rlim_t)timeout + 5}; setrlimit(RLIMIT_CPU, &rt);
            if (!verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); int e = open(errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); }
            if (!tracep.empty()) { tracing_ = true; tracef_ = fopen((tracep + "." + std::to_string(idx)).c_str(), "w"); }
            uint64_t h = hashstr(su->name) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)idx * 0xD1B54A32D192ED03ull);
            {
                Rng r(h);
                genrandseed((unsigned)(h >> 7));
                config("%s", su->name);
                su->fn(r, idx);
            }
            fflush(stdout);
            if (tracef_) fclose(tracef_);
            if (&__lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) { config("%s", cfg_.c_str()); emit("LEAK\t"); }
            for (auto &o : obs_) emit("OBS\t" + o.first + "\t" + std::to_string(o.second));
            for (auto &s : sigs_) emit("SIG\t" + s);
            if (report_) for (auto &w : worst_) { char b[64]; snprintf(b, sizeof b, "%.3e", w.second); emit("WORST\t" + w.first + "\t" + b); }
            emit("DONE"); flush(); _exit(0);
        }
        close(pfd[1]);
        std::string got; char b[65536]; bool killed = false;
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        int status = 0; bool reaped = false;
        while (true) {
            ssize_t k = read(pfd[0], b, sizeof b);
            if (k > 0) { got.append(b, k); continue; }
            if (k == 0) break;
            if (!reaped && waitpid(pid, &status, WNOHANG) == pid) { reaped = true; continue; }
            if (reaped) { k = read(pfd[0], b, sizeof b); if (k > 0) { got.append(b, k); continue; } break; }
            if (now() - t0 > timeout * 8) { kill(pid, SIGKILL); killed = true; }
            usleep(300);
        }
        close(pfd[0]);
        if (!reaped) waitpid(pid, &status, 0);
        bool done = false; std::string leak;
        size_t p = 0;
        while (p < got.size()) {
            size_t e = got.find('\n', p); if (e == std::string::npos) e = got.size();
            std::string ln = got.substr(p, e - p); p = e + 1;
            if (ln == "DONE") done = true;
            else if (ln.compare(0, 5, "LEAK\t") == 0) leak = "1";
            else fprintf(out, "%d\t%s\n", idx, ln.c_str());
        }
        std::string err = verbose ? "" : slurp(errp.c_str(), 200000);
        if (!leak.empty()) fprintf(out, "%d\tCRASH\t%s\t%s\t%s\n", idx, crashkind(err, 0).c_str(), shm_->config, clean(err.substr(0, 3000)).c_str());
        if (!done) {
            std::string kind = (killed || (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || (WTERMSIG(status) == SIGKILL && err.find("Sanitizer") == std::string::npos)))) ? "hang" : crashkind(err, status);
            size_t q = err.find("ERROR: "); if (q == std::string::npos) q = err.find("runtime error: "); if (q == std::string::npos || q < 300) q = 0; else q -= 200;
            fprintf(out, "%d\tCRASH\t%s\t%s\t[%s] %s\n", idx, kind.c_str(), shm_->config, shm_->detail, clean(err.substr(q, 3000)).c_str());
        }
        fprintf(out, "%d\tCASE\t%.3f\n", idx, now() - t0);
        if (only >= 0) break;
    }
    fclose(out);
    if (!verbose) unlink(errp.c_str());
    return 0;
}
