// Problem fixtures: every supplied problem with an independently computed cost.
#pragma once
#include "mani.h"
#include <deque>
namespace vh {
struct PF {
    std::string name, det;
    FP fix; Manifold *M = nullptr;
    std::unique_ptr<ROPTLIB::Problem> P;
    std::function<double(const V &)> f0;          // smooth part of the documented cost, from the raw entries of the point
    double lambda = 0;                            // weight of |x|_1
    bool smooth = true, hess = true, sym = false; // sym: ambient directions are symmetric
    int deg = 4;                                  // 0: not a polynomial (small steps)
    double hrel = 0.05, fdtol = 1e-9, ftol = 1e-10;
    bool pw = false;                              // piecewise linear
    std::function<double(const Element &, const Element &)> pair;   // pairing of Euclidean gradient and direction
    std::vector<std::pair<Element *, V>> data; std::deque<Element> store; std::vector<std::pair<const void *, std::string>> rawdata;
    std::vector<std::shared_ptr<void>> keep; std::shared_ptr<PF> sub; FP keepfix;
    bool fmin_known = false; double fmin = 0; std::shared_ptr<Variable> xs;   // xs: a minimiser (planted instances)
    Element &hold(const Element &e) { store.push_back(e); data.push_back({&store.back(), raw(store.back())}); return store.back(); }
    void holdraw(const void *p, size_t bytes) { rawdata.push_back({p, std::string((const char *)p, bytes)}); }
    bool dataintact() { for (auto &d : data) { V w = raw(*d.first); if (w.size() != d.second.size() || memcmp(w.data(), d.second.data(), w.size() * sizeof(double))) return false; } for (auto &d : rawdata) if (memcmp(d.first, d.second.data(), d.second.size())) return false; return true; }
    Variable pt(Rng &r, double &c) { for (int t = 0; t < 50; t++) { Variable x = fix->pt(r, c); if (fix->condition(x) < 500) return x; } return fix->pt(r, c); }
    double F(const V &x) { double s = f0(x); for (double t : x) s += lambda == 0 ? 0 : lambda * std::fabs(t); return s; }
};
typedef std::unique_ptr<PF> PFP;
enum { PK_EUC, PK_BROCKETT, PK_CBROCKETT, PK_GRASSRQ, PK_PROD, PK_KARCHER, PK_LYAP, PK_PHASE, PK_WEIGHT, PK_SPARSE, PK_COMPL, PK_DECON, PK_SPARSEST, PK_SPCA, PK_TXRQ, PK_HULL, PK_COUNT };
PFP mkproblem(Rng &r, int kind = -1, const std::function<bool(Fix &)> &want = nullptr, bool planted = false);
}
