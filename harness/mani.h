// Geometry fixtures: every manifold of the library with an independent description of what it should be.
#pragma once
#include "vh.h"
#include <memory>
#include "Manifolds/Manifold.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/SPDManifold.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
#include "Manifolds/CFixedRankQ2F.h"
#include "Manifolds/MultiManifolds.h"
#include "Problems/Problem.h"

namespace vh {
using ROPTLIB::Element; using ROPTLIB::Variable; using ROPTLIB::Vector; using ROPTLIB::LinearOPE; using ROPTLIB::Manifold;
typedef std::vector<double> V;

V fl(const Mat &);                      // flat real view (complex interleaved when cx)
Mat unfl(const double *p, int m, int n, bool cx);
double vdot(const V &, const V &); double vn(const V &);
V vsub(const V &, const V &);
Element fromflat(const Element &shape, const V &v);   // fresh element of the same shape with these entries, no fields
inline V flt(const Element &e) { return raw(e); }

struct Fix {
    std::string name, det;
    Manifold *M = nullptr;
    bool hhr = false;
    int dim = 0;                // documented dimension
    bool isoVT = false;         // transport advertised as isometric
    bool linVT = true;          // transport is linear
    bool normVT = false;        // transport preserves norms (locking construction over a non-isometric transport)
    bool dimdoc = true;         // the dimension stored by the library is the dimension of the manifold
    bool invVT = false;         // inverse transport offered
    bool tranH = false;         // operator transports offered
    bool diffGen = false;       // DiffRetraction for arbitrary directions
    bool diffSame = false;      // DiffRetraction for the step's own direction
    bool diffProj = false;      // documented as projection of the vector (not derivative of the retraction actually used)
    bool cotan = false, expmap = false, invretr = false, dist = false, normal = false, intr = false;
    bool pointIsProduct = false, secondorder = false;
    virtual ~Fix() { }
    virtual Variable pt(Rng &r, double &cond) = 0;                                   // own generator
    virtual double feas(const Variable &x) = 0;                                     // relative constraint residual
    virtual double tang(const Variable &x, const Vector &e) = 0;                    // relative residual of tangent equations (extrinsic)
    virtual double met(const Variable &x, const Vector &a, const Vector &b) = 0;    // documented metric (extrinsic)
    virtual V emb(const Variable &x) = 0;                                           // invariant embedding
    virtual V demb(const Variable &x, const Vector &e) = 0;
    virtual V d2emb(const Variable &x, const Vector &a, const Vector &b) = 0;
    virtual Vector egrad(const Variable &x, const V &gz) = 0;                       // ambient gradient of F(emb(x)) from dF/demb
    virtual Vector ehess(const Variable &x, const Vector &e, const V &gz, const V &dgz) = 0;
    // Riemannian Hessian form minus D2F(d emb a, d emb b); grad is the (extrinsic) Riemannian gradient
    virtual double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &gz, const Vector &grad) = 0;
    virtual Vector tv(Rng &r, const Variable &x) = 0;                               // independently built tangent vector (extrinsic)
    virtual Vector amb(Rng &r, const Variable &x);                                  // arbitrary ambient vector
    virtual Vector comb(const Variable &x, double a, const Vector &v, double b, const Vector &w);   // a v + b w, independent of the library
    virtual Vector extzero(const Variable &x);
    virtual V extdistinct(const Variable &x, const Vector &e) { return flt(e); }
    virtual double limit(const Variable &x, const Vector &v) { return 1e300; }     // largest multiple of v inside the retraction's domain
    virtual double condition(const Variable &x) { return 1; }                       // conditioning of the point
    virtual double geod(const Variable &x, const Variable &y) { return -1; }        // geodesic distance where a closed form exists
    virtual bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) { return false; }  // closed form of the retraction
    // representation changes through the library
    Vector W(const Variable &x, const Vector &ext) { if (!M->GetIsIntrinsic()) return ext; Vector r(M->GetEMPTYINTR()); M->ObtainIntr(x, ext, &r); return r; }
    Vector E(const Variable &x, const Vector &w) { if (!M->GetIsIntrinsic()) return w; Vector r(M->GetEMPTYEXTR()); M->ObtainExtr(x, w, &r); return r; }
    double nm(const Variable &x, const Vector &e) { return std::sqrt(std::max(0.0, met(x, e, e))); }
    Vector step(Rng &r, const Variable &x, double s) { Vector v = tvs(r, x, s); double l = limit(x, v); return l < 1 ? comb(x, l, v, 0, v) : v; }
    Vector tvs(Rng &r, const Variable &x, double s) { Vector v = tv(r, x); double n = nm(x, v); return n > 0 ? comb(x, s / n, v, 0, v) : v; }
};
typedef std::unique_ptr<Fix> FP;
enum { F_ANY = 0, F_NOPROD = 1, F_NOTX = 2, F_NOHHR = 4, F_HHR = 8, F_NOFRE = 16, F_INTRFORM = 32, F_REALONLY = 64 };
FP mkfix(Rng &r, int flags = 0, int kind = -1);
FP mkprod(std::vector<FP> &&types, const std::vector<int> &mult);
FP mktx(Rng &r, Fix **in, Variable **root);       // unit sphere of a tangent space together with its base manifold and root
Variable mkpoint(Rng &r, Fix &F, double &cond);     // library / own / retracted / stripped points

// f = F(emb(x)), F quadratic + quartic on the embedding
struct TestProblem : public ROPTLIB::Problem {
    Fix *F; V A; std::vector<V> B; double c;
    TestProblem(Rng &r, Fix *f, const Variable &x, bool quartic = true);
    double F0(const V &z) const; V G(const V &z) const; V HV(const V &z, const V &d) const;
    realdp f(const Variable &x) const;
    Vector &EucGrad(const Variable &x, Vector *result) const;
    Vector &EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const;
    mutable long nf = 0, ng = 0, nh = 0;
};
} // namespace vh
