// Monitored solver runs: counting proxies, run-time monitors, scenario generator.
#pragma once
#include "prob.h"
#include "Solvers/RSD.h"
#include "Solvers/RCG.h"
#include "Solvers/RNewton.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include <deque>
#include <unistd.h>
namespace vh {
using namespace ROPTLIB;
// ------------------------------------------------------------------ counting proxies
struct MCount { long R = 0, VT = 0, IVT = 0, DR = 0, CT = 0; };
struct PM : public Manifold {                    // forwards every operation to the real manifold
    Manifold *m; mutable MCount c; std::function<void(const Variable &, const Vector &, const Variable &)> onR; struct Prox { const Variable *x; const Vector *g; double ada, tol, lambda; const Vector *D, *v; int it, cg; }; std::function<void(const Prox &)> onP;
    explicit PM(Manifold *m_) : m(m_) { HasHHR = m->GetHasHHR(); IsIntrApproach = m->GetIsIntrinsic(); name = m->GetName(); IntrinsicDim = m->GetIntrDim(); ExtrinsicDim = m->GetExtrDim(); EMPTYINTR = m->GetEMPTYINTR(); EMPTYEXTR = m->GetEMPTYEXTR(); }
    ~PM() {}
    Variable RandominManifold() const { return m->RandominManifold(); }
    realdp Metric(const Variable &x, const Vector &a, const Vector &b) const { return m->Metric(x, a, b); }
    Vector &LinearOPEEta(const Variable &x, const LinearOPE &H, const Vector &e, Vector *r) const { return m->LinearOPEEta(x, H, e, r); }
    Vector &Projection(const Variable &x, const Vector &e, Vector *r) const { return m->Projection(x, e, r); }
    Vector &IntrProjection(const Variable &x, const Vector &e, Vector *r) const { return m->IntrProjection(x, e, r); }
    Vector &ExtrProjection(const Variable &x, const Vector &e, Vector *r) const { return m->ExtrProjection(x, e, r); }
    Vector &ScalarTimesVector(const Variable &x, const realdp &s, const Vector &e, Vector *r) const { return m->ScalarTimesVector(x, s, e, r); }
    Vector &ScalarVectorAddVector(const Variable &x, const realdp &s, const Vector &e, const Vector &v, Vector *r) const { return m->ScalarVectorAddVector(x, s, e, v, r); }
    Vector &VectorLinearCombination(const Variable &x, realdp a, const Vector &e, realdp b, const Vector &v, Vector *r) const { return m->VectorLinearCombination(x, a, e, b, v, r); }
    Variable &Retraction(const Variable &x, const Vector &e, Variable *r) const { c.R++; Variable &o = m->Retraction(x, e, r); if (onR) onR(x, e, o); return o; }
    Vector &InvRetraction(const Variable &x, const Variable &y, Vector *r) const { return m->InvRetraction(x, y, r); }
    Vector &coTangentVector(const Variable &x, const Vector &e, const Variable &y, const Vector &v, Vector *r) const { c.CT++; return m->coTangentVector(x, e, y, v, r); }
    Vector &DiffRetraction(const Variable &x, const Vector &e, const Variable &y, const Vector &v, Vector *r, bool same) const { c.DR++; return m->DiffRetraction(x, e, y, v, r, same); }
    realdp Beta(const Variable &x, const Vector &e) const { return m->Beta(x, e); }
    realdp Dist(const Variable &x, const Variable &y) const { return m->Dist(x, y); }
    Vector &VectorTransport(const Variable &x, const Vector &e, const Variable &y, const Vector &v, Vector *r) const { c.VT++; return m->VectorTransport(x, e, y, v, r); }
    Vector &InverseVectorTransport(const Variable &x, const Vector &e, const Variable &y, const Vector &v, Vector *r) const { c.IVT++; return m->InverseVectorTransport(x, e, y, v, r); }
    LinearOPE &HInvTran(const Variable &x, const Vector &e, const Variable &y, const LinearOPE &H, integer s, integer t, LinearOPE *r) const { return m->HInvTran(x, e, y, H, s, t, r); }
    LinearOPE &TranH(const Variable &x, const Vector &e, const Variable &y, const LinearOPE &H, integer s, integer t, LinearOPE *r) const { return m->TranH(x, e, y, H, s, t, r); }
    LinearOPE &TranHInvTran(const Variable &x, const Vector &e, const Variable &y, const LinearOPE &H, LinearOPE *r) const { return m->TranHInvTran(x, e, y, H, r); }
    LinearOPE &HaddScaledRank1OPE(const Variable &x, const LinearOPE &H, realdp s, const Vector &e, const Vector &v, LinearOPE *r) const { return m->HaddScaledRank1OPE(x, H, s, e, v, r); }
    Vector &ObtainEtaxFlat(const Variable &x, const Vector &e, Vector *r) const { return m->ObtainEtaxFlat(x, e, r); }
    Vector &ObtainIntr(const Variable &x, const Vector &e, Vector *r) const { return m->ObtainIntr(x, e, r); }
    Vector &ObtainExtr(const Variable &x, const Vector &e, Vector *r) const { return m->ObtainExtr(x, e, r); }
    Vector &ObtainNorVerIntr(const Variable &x, const Vector &e, Vector *r) const { return m->ObtainNorVerIntr(x, e, r); }
    Vector &ObtainNorVerExtr(const Variable &x, const Vector &e, Vector *r) const { return m->ObtainNorVerExtr(x, e, r); }
    Vector &TangentSpaceProximalMap(Variable &x, const Vector &e, realdp a, realdp t, realdp l, const Problem *p, Vector *D, integer *i1, integer *i2, Vector *r) const { Vector &o = m->TangentSpaceProximalMap(x, e, a, t, l, p, D, i1, i2, r); if (onP) onP({&x, &e, a, t, l, D, &o, *i1, *i2}); return o; }
    void CheckParams() const { m->CheckParams(); }
    Vector &EucGradToGrad(const Variable &x, const Vector &g, const Problem *p, Vector *r) const { return m->EucGradToGrad(x, g, p, r); }
    Vector &EucHvToHv(const Variable &x, const Vector &e, const Vector &h, const Problem *p, Vector *r) const { return m->EucHvToHv(x, e, h, p, r); }
    void SetParams(PARAMSMAP p) { m->SetParams(p); }
};
struct PP : public Problem {                     // forwards every evaluation to the real problem
    Problem *p; Manifold *m; mutable long nf = 0, ng = 0, nh = 0; mutable std::vector<double> fv; Vector pa; bool pre = false, prox = false; int delay = 0;
    long nanat = -1; double pscale = 0.5;
    PP(Problem *p_, Manifold *m_, Manifold *dom) : p(p_), m(m_) { SetDomain(dom); UseGrad = p->GetUseGrad(); UseHess = p->GetUseHess(); }
    ~PP() {}
    realdp f(const Variable &x) const { nf++; if (delay) usleep(delay); double v = p->f(x); if (nanat >= 0 && nf == nanat) v = NAN; fv.push_back(v); vh::trace("f", v); return v; }
    Vector &Grad(const Variable &x, Vector *r) const { ng++; p->Grad(x, r); vh::trace("grad", *r); return *r; }
    Vector &HessianEta(const Variable &x, const Vector &e, Vector *r) const { nh++; p->HessianEta(x, e, r); vh::trace("hess", *r); return *r; }
    Vector &EucGrad(const Variable &x, Vector *r) const { return p->EucGrad(x, r); }
    Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const { return p->EucHessianEta(x, e, r); }
    Vector &PreConditioner(const Variable &x, const Vector &e, Vector *r) const;
    Vector &ProxW(const Vector &x, const Vector &w, Vector *r) const { return p->ProxW(x, w, r); }
    Vector &CalJW(const Vector &x, const Vector &e, const Vector &w, Vector *r) const { return p->CalJW(x, e, w, r); }
    void SetUseGrad(bool b) const { Problem::SetUseGrad(b); p->SetUseGrad(b); }
    void SetUseHess(bool b) const { Problem::SetUseHess(b); p->SetUseHess(b); }
};
enum SKind { K_RSD, K_RCG, K_RNEWTON, K_RBROY, K_RBFGS, K_RWRBFGS, K_LRBFGS, K_RTRSD, K_RTRNEWTON, K_RTRSR1, K_LRTRSR1, K_COUNT };
extern const char *kname[K_COUNT];
inline bool isTR(int k) { return k >= K_RTRSD; }
inline bool isFull(int k) { return k == K_RBROY || k == K_RBFGS || k == K_RWRBFGS || k == K_RTRSR1; }
// what a monitor can see of a running solver
struct View {
    int kind; Variable *x1, *x2; Vector *gf1, *gf2, *eta1, *eta2; realdp *f1, *f2, *ngf0, *ngf1, *ngf2; integer iter;
    SolversSM *sm; SolversSMLS *ls = nullptr; SolversSMTR *tr = nullptr;
    realdp *step = nullptr, *initlen = nullptr, *islope = nullptr, *nslope = nullptr; int lsst = -1;
    realdp *rho = nullptr, *Delta = nullptr; Vector *Heta2 = nullptr; int tst = -1, inner = -1;
    LinearOPE *H = nullptr; Vector *s = nullptr, *y = nullptr; bool upd = false, isconvex = false; double nu = 0, mu = 0;
    Vector *S = nullptr, *Y = nullptr; realdp *RHO = nullptr; double gamma = 0; int len = 0, beg = 0, L = 0; bool LMr = false;
    double sigma = 0; int rcg = 0; int nst = -1; double theta = 0, kappa = 0; int mininner = 0, maxinner = 0; bool useRand = false;
    std::function<Vector(const Vector &)> B;       // model operator of the trust-region methods
};
struct Monitor {
    virtual ~Monitor() {}
    virtual void preDir(const View &) {} virtual void postDir(const View &) {}
    virtual void preUpd(const View &) {} virtual void postUpd(const View &) {}
    virtual void preStop(const View &) {} virtual void stop(const View &, bool) {}
    virtual void accept(const View &) {}
    virtual void eval(const View &, double, double) {} virtual void slope(const View &, double) {}
};
template <class S, int K> struct Mo : public S {
    Monitor *mon = nullptr;
    template <class... A> Mo(A... a) : S(a...) {}
    __attribute__((no_sanitize("undefined"))) View view() {
        View v; v.kind = K; v.x1 = &this->x1; v.x2 = &this->x2; v.gf1 = &this->gf1; v.gf2 = &this->gf2; v.eta1 = &this->eta1; v.eta2 = &this->eta2; v.f1 = &this->f1; v.f2 = &this->f2; v.ngf0 = &this->ngf0; v.ngf1 = &this->ngf1; v.ngf2 = &this->ngf2; v.iter = this->iter; v.sm = this;
        if constexpr (K < K_RTRSD) { v.ls = this; v.step = &this->stepsize; v.initlen = &this->initiallength; v.islope = &this->initialslope; v.nslope = &this->newslope; v.lsst = this->LSstatus; }
        else { v.tr = this; v.rho = &this->rho; v.Delta = &this->Delta; v.Heta2 = &this->Heta2; v.tst = this->tCGstatusSM; v.inner = this->innerIter; v.B = [this](const Vector &e) { Vector r(e); integer n = this->nH; this->HessianEta(e, &r); this->nH = n; return r; }; }
        if constexpr (K == K_RBROY || K == K_RBFGS || K == K_RWRBFGS || K == K_LRBFGS) { v.s = &this->s; v.y = &this->y; v.upd = this->isupdated; v.isconvex = this->isconvex; v.nu = this->nu; v.mu = this->mu; }
        if constexpr (K == K_RBROY || K == K_RBFGS || K == K_RWRBFGS) v.H = &this->H;
        if constexpr (K == K_LRBFGS || K == K_LRTRSR1) { v.S = this->S; v.Y = this->Y; v.gamma = this->gamma; v.len = this->Currentlength; v.beg = this->beginidx; v.L = this->LengthSY; v.LMr = this->LMrestart; }
        if constexpr (K == K_LRBFGS) v.RHO = this->RHO;
        if constexpr (K == K_RTRSR1) { v.H = &this->B; v.s = &this->s; v.y = &this->y; v.upd = this->isupdated; }
        if constexpr (K == K_LRTRSR1) { v.s = &this->s; v.y = &this->y; v.upd = this->isupdated; }
        if constexpr (K == K_RCG) { v.sigma = this->sigma; v.rcg = this->RCGmethod; }
        if constexpr (K == K_RNEWTON) { v.nst = this->tCGLSSMstatus; v.inner = this->innerIter; }
        if constexpr (K == K_RNEWTON || K >= K_RTRSD) { v.theta = this->theta; v.kappa = this->kappa; v.mininner = this->Min_Inner_Iter; v.maxinner = this->Max_Inner_Iter; v.useRand = this->useRand; }
        return v;
    }
    void UpdateData() { if (mon) mon->preUpd(view()); S::UpdateData(); if (mon) mon->postUpd(view()); }
    bool IsStopped() { if (mon) mon->preStop(view()); bool b = S::IsStopped(); if (mon) mon->stop(view(), b); return b; }
};
template <class S, int K> struct MoLS : public Mo<S, K> {
    template <class... A> MoLS(A... a) : Mo<S, K>(a...) {}
    void GetSearchDir() { if (this->mon) this->mon->preDir(this->view()); S::GetSearchDir(); if (this->mon) this->mon->postDir(this->view()); }
    realdp h() { double v = S::h(); if (this->mon) this->mon->eval(this->view(), this->stepsize, v); return v; }
    realdp dh() { double v = S::dh(); if (this->mon) this->mon->slope(this->view(), v); return v; }
};
template <class S, int K> struct MoTR : public Mo<S, K> {
    template <class... A> MoTR(A... a) : Mo<S, K>(a...) {}
    void tCG_TR() { if (this->mon) this->mon->preDir(this->view()); S::tCG_TR(); if (this->mon) this->mon->postDir(this->view()); }
    void Acceptence() { if (this->mon) this->mon->accept(this->view()); S::Acceptence(); }
};
// one named option of a solver
template <class T> double rdnum(const T *p) { if constexpr (std::is_floating_point<T>::value) return *p; else if constexpr (sizeof(T) == 1) { signed char c; memcpy(&c, p, 1); return c; } else { int c; memcpy(&c, p, sizeof(int)); return c; } }
struct Opt { std::string name; std::function<double()> get; std::function<void(double)> set; std::function<double(Rng &)> valid; std::vector<double> bad; bool en = false; };
struct Solver {                                   // a constructed (monitored) solver
    int kind; std::unique_ptr<SolversSM> s; std::vector<Opt> opts; Monitor **mon = nullptr; std::function<View()> view;
    Opt &opt(const std::string &n) { for (auto &o : opts) if (o.name == n) return o; abort(); }
    bool has(const std::string &n) { for (auto &o : opts) if (o.name == n) return true; return false; }
    void set(const PARAMSMAP &m) { for (auto &t : m) opt(t.first).set(t.second); }
};
Solver mksolver(int kind, const Problem *p, const Variable *x, LinearOPE *H = nullptr);
struct Scn {                                      // a problem, a start and options
    FP fix0; PFP pf; std::unique_ptr<TestProblem> tp; Fix *F = nullptr; Manifold *M = nullptr; Problem *P = nullptr; std::unique_ptr<PM> pm; std::unique_ptr<PP> pp; std::vector<std::shared_ptr<void>> old; Variable x0; V x0raw; PARAMSMAP par; int kind = 0; std::string pname; std::shared_ptr<void> dummy; bool dotmetric = false, pre = false, nostrip = false; bool flag_intr, flag_hhr;
    Scn() : x0(1) {}
    Variable strip(const Variable &x) const { return nostrip ? Variable(x) : Variable(fromflat(x, raw(x))); }
    void fresh() { if (pm) old.push_back(std::shared_ptr<PM>(pm.release())); pm.reset(new PM(M)); PP *q = new PP(P, M, pm.get()); if (pp) { q->pre = pp->pre; q->pa = pp->pa; q->delay = pp->delay; q->nanat = pp->nanat; q->pscale = pp->pscale; old.push_back(std::shared_ptr<PP>(pp.release())); } pp.reset(q); }
};
std::unique_ptr<Scn> mkscn(Rng &r, int kind = -1, int want = 0);
enum { W_LSCOND = 1, W_NOPRE = 2 };
bool dotmetric(Rng &r, Fix &F, const Variable &x);
#pragma GCC diagnostic ignored "-Wunused"
static const double EPS = 2.220446049250313e-16;
inline std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }
// conditioning of a point; points of the fixed-rank quotients close to (or far from) zero are as bad as rank-deficient ones
inline double scond(Fix &F, const Variable &x) { double c = F.condition(x); if (F.name.find("FixedRank") != std::string::npos) { double n = vn(raw(x)); c *= std::max({1.0, 1 / (n * n), n * n * 1e-4}); } return c; }
struct MonB : Monitor {
    Scn &S; Manifold *M; Fix *F; Rng &r; std::string tag;
    MonB(Scn &s, Rng &r_) : S(s), M(s.M), F(s.F), r(r_) {}
    double met(const Variable &x, const Vector &a, const Vector &b) { return M->Metric(x, a, b); }
    double nm(const Variable &x, const Vector &a) { return std::sqrt(std::max(0.0, met(x, a, a))); }
    Vector lc(const Variable &x, double a, const Vector &v, double b, const Vector &w) { Vector o(v); M->VectorLinearCombination(x, a, v, b, w, &o); return o; }
    Vector sc(const Variable &x, double a, const Vector &v) { Vector o(v); M->ScalarTimesVector(x, a, v, &o); return o; }
    double diff(const Variable &x, const Vector &a, const Vector &b) { V p = raw(a), q = raw(b); if (p.size() != q.size()) return HUGE_VAL; double s = std::max(vn(p), vn(q)), d = vn(vsub(p, q)); if (!(d == d)) return HUGE_VAL; return s > 0 ? d / s : 0; }
    double fresh_f(const Variable &x) { Variable y = S.strip(x); return S.P->f(y); }
    Vector fresh_g(const Variable &x, Variable *keep = nullptr) { Variable y = S.strip(x); Vector g(M->GetEMPTY()); S.P->f(y); S.P->Grad(y, &g); if (keep) *keep = y; return g; }
    Vector pre(const Variable &x, const Vector &g) { Vector o(g); S.pp->PreConditioner(x, g, &o); return o; }
    bool lrok(const View &v) {                       // is the memory of LRTRSR1 well-conditioned and moderately scaled?
        int k = v.len; double ga = std::fabs(v.gamma), g = nm(*v.x1, *v.gf1); if (!(ga < 1e6 && ga > 1e-4 && g < 1e8)) return false; if (!k) return true;
        std::vector<double> q; std::vector<Vector> Z; for (int i = 0; i < k; i++) { int a = (v.beg + i) % v.L; Z.push_back(lc(*v.x1, 1, v.Y[a], -v.gamma, v.S[a])); double ns = nm(*v.x1, v.S[a]), nz = nm(*v.x1, Z[i]); if (!(nz < 1e6 * ns)) return false; q.push_back(std::sqrt(ns * nz)); }
        Mat Q(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) Q(i, j) = met(*v.x1, v.S[(v.beg + i) % v.L], Z[j]) / q[i] / q[j];
        if (!finite(Q)) return false; Q = sym(Q); std::vector<double> w; Mat U; symeig(Q, w, U); for (double e : w) if (!(std::fabs(e) > 1e-4)) return false; return true;
    }
    double cond(const Variable &x) { return scond(*F, x); }
};
inline Solver start(Scn &S, Monitor *m, const PARAMSMAP &par) { Solver o = mksolver(S.kind, S.pp.get(), &S.x0); o.set(par); *o.mon = m; return o; }
}
