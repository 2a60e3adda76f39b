// Core of the monitoring harness: case runner, event sink, random source, reference algebra.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <complex>
#include <functional>
#include <algorithm>
#include "Manifolds/Element.h"
#include "Others/SparseMatrix.h"

namespace vh {

// ---------------------------------------------------------------- random source (independent of the library's)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double n() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }   // inclusive
    bool b(double p = 0.5) { return u() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    double pickd(std::initializer_list<double> l) { return *(l.begin() + next() % l.size()); }
    int picki(std::initializer_list<int> l) { return *(l.begin() + next() % l.size()); }
};

// ---------------------------------------------------------------- event sink
void config(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // label of the sub-case being run (survives a crash)
const std::string &curconfig();
void detail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // free text attached to violations
void obs(const char *what, long n = 1);                                    // the monitor observed n events of this kind
void sig(const std::string &s);                                            // signature of a distinct non-trivial observation
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char *check, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool expect(bool ok, const char *check, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
// |err| <= tol ; counts an observation under `check`
long nfail();
bool small(const char *check, double err, double tol, const char *what = "");
// bitwise trace (R02)
void trace(const char *what, const double *p, size_t n);
void trace(const char *what, double v);
void trace(const char *what, const ROPTLIB::Element &e);
bool tracing();
bool thorough();
bool sanitized();

typedef void (*CaseFn)(Rng &r, int idx);
struct Suite { const char *name; CaseFn fn; Suite *nextp; static Suite *&head(); Suite(const char *n, CaseFn f) : name(n), fn(f), nextp(head()) { head() = this; } };
#define VH_SUITE(NAME) static void NAME##_case(vh::Rng &, int); static vh::Suite NAME##_suite(#NAME, NAME##_case); static void NAME##_case(vh::Rng &r, int idx)

// ---------------------------------------------------------------- reference matrices
typedef std::complex<double> cd;
struct Mat {
    int m = 0, n = 0; bool cx = false;
    std::vector<cd> a;
    Mat() {}
    Mat(int m_, int n_, bool cx_ = false) : m(m_), n(n_), cx(cx_), a((size_t)m_ * n_) {}
    cd &operator()(int i, int j) { return a[(size_t)j * m + i]; }
    const cd &operator()(int i, int j) const { return a[(size_t)j * m + i]; }
    static Mat eye(int n, bool cx = false) { Mat r(n, n, cx); for (int i = 0; i < n; i++) r(i, i) = 1; return r; }
};
Mat operator+(const Mat &, const Mat &);
Mat operator-(const Mat &, const Mat &);
Mat operator*(const Mat &, const Mat &);
Mat operator*(cd, const Mat &);
Mat H(const Mat &);      // conjugate transpose
Mat Tr(const Mat &);     // plain transpose
Mat Cj(const Mat &);
Mat sym(const Mat &);    // (A+A^H)/2
Mat skew(const Mat &);   // (A-A^H)/2
double nrm(const Mat &);
cd trace(const Mat &);
double rdot(const Mat &, const Mat &);      // Re trace(A^H B)
Mat inv(const Mat &);
void symeig(const Mat &, std::vector<double> &w, Mat &V);   // Jacobi, ascending
Mat funsym(const Mat &, const std::function<double(double)> &);
std::vector<double> singvals(const Mat &);                  // descending
Mat blk(const Mat &, int r0, int r1, int c0, int c1);       // inclusive
Mat hcat(const Mat &, const Mat &);
Mat vcat(const Mat &, const Mat &);
Mat vec(const Mat &);
Mat reshape(const Mat &, int m, int n);
Mat randm(Rng &, int m, int n, bool cx = false, double scale = 1);
Mat randorth(Rng &, int m, int n, bool cx = false);         // orthonormal columns
Mat randspd(Rng &, int n, bool cx = false, double cond = 10);
bool finite(const Mat &);
bool finite(const std::vector<double> &);

Mat of(const ROPTLIB::Element &e);                 // copy of an element (2-D view: size0 x size1*size2)
ROPTLIB::Element el(const Mat &A);                 // fresh element
double maxabs(const Mat &);
std::string shape(const Mat &);
std::vector<double> raw(const ROPTLIB::Element &e); // raw copy of storage
std::vector<double> minnorm(const std::vector<std::vector<double>> &G, double &gap);   // weights of the minimum-norm point of a hull from its Gram matrix
double rel(const Mat &a, const Mat &b, double floor_ = 1);  // |a-b| / max(floor, |a|,|b|)
} // namespace vh
