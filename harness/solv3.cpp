// Nonsmooth solvers: subgradient methods (S08) and proximal-gradient methods (S09).
#include "solv.h"
#include "Solvers/RGS.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Others/Timer.h"
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
using namespace ROPTLIB;
using namespace vh;
// smooth polynomial plus a weighted sum of absolute values of affine functions of the embedding
struct NSProblem : public TestProblem {
    std::vector<V> C; V d, w;
    NSProblem(Rng &r, Fix *f, const Variable &x) : TestProblem(r, f, x, true) {
        V z = f->emb(x); double s = std::max(vn(z), 1e-300); int k = r.i(0, 4);
        for (int i = 0; i < k; i++) { V c(z.size()); for (auto &t : c) t = r.n() / s / std::sqrt((double)z.size()); C.push_back(c); d.push_back(r.b() ? vdot(c, z) * r.u() : 0.3 * r.n()); w.push_back(r.u() * 2); }
        UseHess = false;
    }
    realdp f(const Variable &x) const { V z = F->emb(x); double v = F0(z); for (size_t i = 0; i < C.size(); i++) v += w[i] * std::fabs(vdot(C[i], z) - d[i]); return v; }
    Vector &EucGrad(const Variable &x, Vector *result) const { V z = F->emb(x), g = G(z); for (size_t i = 0; i < C.size(); i++) { double t = vdot(C[i], z) - d[i]; for (size_t j = 0; j < g.size(); j++) g[j] += w[i] * (t > 0 ? 1 : t < 0 ? -1 : 0) * C[i][j]; } *result = F->egrad(x, g); return *result; }
};
enum { N_RGS, N_LRBFGSSUB, N_RBFGSSUB, N_MANPG, N_AMANPG };
static const char *nname[] = {"RGS", "LRBFGSSub", "RBFGSSub", "ManPG", "AManPG"};
struct NView {
    int kind; integer iter; Variable *x1, *x2; Vector *gf1, *gf2, *eta1, *eta2, *minPv = nullptr; realdp *f1, *f2, *nd0, *nd1, *step, *islope, *nslope; int st;
    Vector *gfs = nullptr; int ngfs = 0, maxg = 0; double Eps = 0, Del = 0; SolversNSMSubLS *sub = nullptr; SolversNSMPGLS *pg = nullptr; SolversNSM *ns;
    Vector *s = nullptr, *y = nullptr; bool upd = false; double ada = 0, smtol = 0, smlambda = 0; std::function<Vector(const Vector &)> Hv; Variable *z1 = nullptr, *z2 = nullptr, *y1 = nullptr; double fz2 = 0, s1 = 1;
};
struct NMon {
    virtual ~NMon() {} virtual void preDir(const NView &) {} virtual void postDir(const NView &) {} virtual void preLS(const NView &) {} virtual void postLS(const NView &) {}
    virtual void preUpd(const NView &) {} virtual void postUpd(const NView &) {} virtual void stop(const NView &, bool, double, double) {} virtual void eval(const NView &, double) {}
};
static double now() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
template <class S, int K> struct MoN : public S {
    NMon *mon = nullptr; bool dirs = false;
    template <class... A> MoN(A... a) : S(a...) {}
    __attribute__((no_sanitize("undefined"))) NView view() {
        NView v; v.kind = K; v.iter = this->iter; v.x1 = &this->x1; v.x2 = &this->x2; v.gf1 = &this->gf1; v.gf2 = &this->gf2; v.eta1 = &this->eta1; v.eta2 = &this->eta2; v.f1 = &this->f1; v.f2 = &this->f2; v.nd0 = &this->ndir0; v.nd1 = &this->ndir1; v.step = &this->stepsize; v.islope = &this->initialslope; v.nslope = &this->newslope; v.st = this->LSstatus; v.ns = this;
        if constexpr (K <= N_RBFGSSUB) { v.sub = this; v.minPv = &this->minPv; v.gfs = this->gfs; v.ngfs = K == N_RGS ? this->Lengthgfs : this->Currentlengthgfs; v.maxg = this->Lengthgfs; v.Eps = this->Eps; v.Del = this->Del; v.Hv = [this](const Vector &e) { Vector q(e); integer n = this->nH; this->HvSub(e, &q); this->nH = n; return q; }; }
        if constexpr (K == N_LRBFGSSUB || K == N_RBFGSSUB) { v.s = &this->s; v.y = &this->y; v.upd = this->isupdated; }
        if constexpr (K >= N_MANPG) { v.pg = this; v.ada = this->adavalue; v.smtol = this->SMtol; v.smlambda = this->SMlambda; }
        if constexpr (K == N_AMANPG) { v.z1 = &this->z1; v.z2 = &this->z2; v.y1 = &this->y1; v.fz2 = this->fz2; v.s1 = this->s1; }
        return v;
    }
    void UpdateData() { if (mon) mon->preUpd(view()); S::UpdateData(); if (mon) mon->postUpd(view()); }
    bool IsStopped() { double a = now(); bool b = S::IsStopped(); if (mon) mon->stop(view(), b, a, now()); return b; }
    realdp h() { double v = S::h(); if (mon) mon->eval(view(), v); return v; }
};
template <class S, int K> struct MoSub : public MoN<S, K> {
    template <class... A> MoSub(A... a) : MoN<S, K>(a...) {}
    void GetSearchDir() { if (this->mon) this->mon->preDir(this->view()); S::GetSearchDir(); if (this->mon) this->mon->postDir(this->view()); }
    void LinesearchWolfeLipschitz() { if (this->mon) this->mon->preLS(this->view()); S::LinesearchWolfeLipschitz(); if (this->mon) this->mon->postLS(this->view()); }
};
template <class S, int K> struct MoPG : public MoN<S, K> {
    template <class... A> MoPG(A... a) : MoN<S, K>(a...) {}
    void LinesearchArmijo() { if (this->mon) this->mon->preLS(this->view()); S::LinesearchArmijo(); if (this->mon) this->mon->postLS(this->view()); }
};
struct NSolver { std::unique_ptr<SolversNSM> s; NMon **mon; std::function<NView()> view; };
template <class T> static NSolver nwrap(T *t) { NSolver s; s.s.reset(t); s.mon = &t->mon; s.view = [t] { return t->view(); }; return s; }
static NSolver mkns(int k, const Problem *p, const Variable *x) {
    switch (k) {
    case N_RGS: return nwrap(new MoSub<RGS, N_RGS>(p, x));
    case N_LRBFGSSUB: return nwrap(new MoSub<LRBFGSSub, N_LRBFGSSUB>(p, x));
    case N_RBFGSSUB: return nwrap(new MoSub<RBFGSSub, N_RBFGSSUB>(p, x));
    case N_MANPG: return nwrap(new MoPG<ManPG, N_MANPG>(p, x));
    default: return nwrap(new MoPG<AManPG, N_AMANPG>(p, x));
    }
}
struct NS : MonB { NS(Scn &s, Rng &r) : MonB(s, r) {} };
// ================================================================== S08: subgradient methods
struct UStop { int at = -1; long calls = 0; double nd = 0, nd0 = 0; V x; };
static UStop US;
static bool ustop(const Variable &x, const Vector &, integer, realdp a, realdp b, const Problem *, const Solvers *) { US.nd = a; US.nd0 = b; US.x = raw(x); return US.calls++ >= US.at; }
struct Sample { Vector e; Variable y; };
struct SubMon : NMon, MonB {
    SubMon(Scn &s, Rng &r) : MonB(s, r) {}
    PARAMSMAP P; std::vector<Sample> smp; bool collect = false, judged = true; std::vector<double> costs, nds, steps; std::vector<Variable> its; double pEps = -1, pDel = -1, lastnd = -1; int shrinks = 0, tests = 0; bool lastb = false, zero = false; int piter = -1; double t0 = 0; bool user = false; double scaleg = 0; int ngfs0 = 0;
    double par(const char *k, double d) { return P.count(k) ? P[k] : d; }
    bool kink(const Variable &x) {                // does the subgradient change within rounding distance of x?
        Vector g = fresh_g(x); double ng = nm(x, g); for (int i = 0; i < 6; i++) { Vector e = sc(x, r.pickd({1e-12, 1e-13, 1e-10}), F->W(x, F->tvs(r, S.strip(x), 1))); Variable y(x), xs = S.strip(x); M->Retraction(xs, e, &y); Vector h = fresh_g(y); if (!(nm(x, lc(x, 1, g, -1, h)) < 1e-6 * (ng + 1))) return true; } return false;
    }
    bool ok(const Variable &x) { return finite(raw(x)) && cond(S.strip(x)) < 1e4; }
    V accepted; void preUpd(const NView &v) { accepted = raw(*v.x2); }
    void preDir(const NView &v) {
        smp.clear(); collect = true;
        bool pushed = (int)its.size() == v.iter; if (pushed) { if (!accepted.empty()) expect(raw(*v.x1) == accepted, "S08.iterates", "iteration %d does not start at the accepted point", (int)v.iter); its.push_back(*v.x1); }   // an accepted step may be too short to move the point
        expect((int)its.size() == v.iter + 1 && (pushed || raw(its.back()) == raw(*v.x1)), "S08.iterates", "iteration %d starts from another point than the accepted one", (int)v.iter);
        double te = par("Theta_eps", 0.01), td = par("Theta_del", 0.01), me = par("Min_Eps", 1e-6);
        if (pEps >= 0) {
            bool moved = v.iter != piter; if (moved) expect(v.Eps == pEps && v.Del == pDel, "S08.shrink", "tolerances changed (%g,%g)->(%g,%g) by a step", pEps, pDel, v.Eps, v.Del);
            else {
                expect(lastnd <= pDel || lastnd <= v.ns->Tolerance, "S08.shrink", "tolerances reduced although the measure %g exceeds %g and %g", lastnd, pDel, v.ns->Tolerance);
                double e = std::max(pEps * te, me); expect(std::fabs(v.Eps - e) <= 1e-12 * e, "S08.shrink", "radius %g after %g, factor %g, lower bound %g", v.Eps, pEps, te, me);
                double q = pDel; bool f = v.Del == q; for (int i = 0; i < 2000 && !f && q > 0; i++) { q *= td; f = std::fabs(v.Del - q) <= 1e-12 * q; if (f) break; if (e > me) break; } expect(f, "S08.shrink", "tolerance %g after %g, factor %g", v.Del, pDel, td); obs("tolerances reduced"); shrinks++;
                expect(shrinks < 4000, "S08.progress", "tolerances reduced over and over without a step");
            }
        }
        pEps = v.Eps; pDel = v.Del; piter = v.iter;
        if (v.s && v.iter > 0 && !(met(*v.x1, *v.s, *v.y) > 1e-5 * nm(*v.x1, *v.s) * nm(*v.x1, *v.y) && nm(*v.x1, *v.y) < 1e6 * nm(*v.x1, *v.s))) noisy = true;
        if (v.s && v.iter > 0 && v.upd && !noisy && par("LengthSY", 4) >= 1 && judged && ok(*v.x1)) {   // memory at the new iterate
            double ny = nm(*v.x1, *v.y), ns = nm(*v.x1, *v.s), sy = met(*v.x1, *v.s, *v.y); if (ny > 1e-9 && ns > 1e-9 && sy > 1e-5 * ns * ny && cond(S.strip(*v.x1)) < 100) {
                Vector q = v.Hv(*v.y); double big = 0; for (int i = 0; i < 3; i++) { Vector t = F->W(*v.x1, F->tvs(r, S.strip(*v.x1), 1)), h = v.Hv(t); double hh = met(*v.x1, t, h); big = std::max(big, nm(*v.x1, h)); expect(hh > -1e-5 * big, "S08.positive", "<v,Hv> = %g", hh); Vector u = F->W(*v.x1, F->tvs(r, S.strip(*v.x1), 1)), hu = v.Hv(u); big = std::max(big, nm(*v.x1, hu)); hist = std::max(hist, big); if (hist < 1e2 * big) small("S08.symmetric", std::fabs(met(*v.x1, u, h) - met(*v.x1, t, hu)) / big, 2e-2, "<u,Hv> = <v,Hu>"); }
                double e = nm(*v.x1, lc(*v.x1, 1, q, -1, *v.s)); small("S08.secant", e / (ns + 1e-4 * big * ny), 1e-5, "H y = s"); obs("secant equations");
            }
        }
    }
    void eval(const NView &v, double f) { }
    void postDir(const NView &v) {
        collect = false; lastnd = *v.nd1; Variable &x = *v.x1; judged = ok(x); if (v.iter >= 1 && steps.size() && !(std::fabs(steps.back()) < 1e6)) judged = false; if (!judged) { obs("ill-conditioned iterates"); return; }
        Vector g = fresh_g(x); double ng = nm(x, g); scaleg = std::max(scaleg, ng);
        if (v.iter == 0) small("S08.grad0", std::fabs(*v.nd0 - ng) / (ng + 1e-10), 1e-9, "initial measure");
        double e0 = HUGE_VAL; int own = 0; for (int i = 0; i < v.ngfs; i++) { double q = nm(x, lc(x, 1, v.gfs[i], -1, g)) / (ng + 1e-6); if (q < e0) { e0 = q; own = i; } } if (!(e0 < 1e-6) && kink(x)) obs("iterates on a kink"); else small("S08.gfs0", e0, 1e-6, "the subgradient of the iterate belongs to the bundle");
        // every member of the bundle
        for (int i = 0; i < v.ngfs; i++) if (!finite(raw(v.gfs[i]))) { obs("subgradients not finite"); judged = false; return; }
        std::vector<Vector> W; W.push_back(v.gfs[own]); double mg = ng; int n = v.ngfs; ngfs0 = n;
        for (int i = 0; i < n; i++) if (i != own) {
            bool hit = false; double best = HUGE_VAL, ge = 0;
            for (size_t j = 0; j < smp.size() && !hit; j++) {
                Vector gy = fresh_g(smp[j].y), t(gy); if (!finite(raw(gy))) { best = 0; continue; } { Variable yy(x); M->Retraction(x, smp[j].e, &yy); M->InverseVectorTransport(x, smp[j].e, yy, gy, &t); } if (v.kind != N_RGS) t = sc(x, 1 / M->Beta(x, smp[j].e), t); double q = nm(x, lc(x, 1, t, -1, v.gfs[i])) / (nm(x, t) + 1e-6); best = std::min(best, q); ge = nm(x, t);
                if (q < 1e-6) { hit = true; double ne = nm(x, smp[j].e); expect(v.kind == N_RGS ? std::fabs(ne - v.Eps) <= 1e-9 * v.Eps + 1e-12 : ne <= v.Eps * (1 + 1e-9), "S08.radius", "subgradient sampled at distance %g, radius %g", ne, v.Eps); }
            }
            if (!hit) for (auto &q : smp) if (finite(raw(q.y)) && kink(q.y)) { hit = true; obs("samples on a kink"); break; }
            if (!hit && kink(x)) { hit = true; obs("iterates on a kink"); }
            expect(hit, "S08.bundle", "member %d of the bundle is no transported subgradient of a sampled point (closest %g)", i, best); mg = std::max(mg, nm(x, v.gfs[i])); W.push_back(v.gfs[i]); obs("bundle members");
        }
        if (v.kind == N_RGS) { expect(n == v.maxg && (int)smp.size() == n - 1, "S08.samples", "%d samples for a bundle of %d", (int)smp.size(), v.maxg); for (size_t i = 1; i < smp.size(); i++) expect(n <= 2 || F->dim < 2 || diff(x, smp[i].e, smp[i - 1].e) > 1e-9, "S08.samples", "the same point sampled twice"); }
        if (!(mg < 1e8)) return; if (noisy) { obs("operator dominated by rounding"); return; }
        // minimum-norm element
        double nmin = nm(x, *v.minPv); if (v.s && nmin < 1e-5 * mg) noisy = true; bool early = v.kind != N_RGS && *v.nd1 <= v.Del && nmin <= v.Del * (1 + 1e-9);
        double gscale = 0; auto hull = [&](int k, bool usedH, double &gap, double &out, double &val) {
            std::vector<Vector> HW; for (int i = 0; i < k; i++) HW.push_back(usedH ? v.Hv(W[i]) : W[i]); Vector Hm = usedH ? v.Hv(*v.minPv) : *v.minPv; double mx = 0, mn = HUGE_VAL; for (int i = 0; i < k; i++) { mx = std::max(mx, met(x, W[i], HW[i])); mn = std::min(mn, met(x, W[i], Hm)); }
            val = met(x, *v.minPv, Hm); gap = (val - mn) / (mx + 1e-300); gscale = mx;
            std::vector<V> G(k, V(k)); std::vector<Vector> D; for (int i = 0; i < k; i++) D.push_back(lc(x, 1, W[i], -1, *v.minPv)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) G[i][j] = met(x, D[i], D[j]); double gp; V w = minnorm(G, gp); double o = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) o += w[i] * w[j] * G[i][j]; out = std::sqrt(std::max(0.0, o)) / mg;
        };
        // candidates: hull of all members, or of all but the last one (added after the direction was computed)
        double gap = HUGE_VAL, out = HUGE_VAL, val = 0; bool full = v.kind != N_RGS && n == v.maxg; bool plain = v.kind == N_RGS; double g2, o2, v2; bool found = false; std::string tr;
        auto small_P = [&](int k) { std::vector<Vector> HW; for (int i = 0; i < k; i++) HW.push_back(v.Hv(W[i])); std::vector<V> G(k, V(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) G[i][j] = met(x, W[i], HW[j]); double gp, o = 0; V w = minnorm(G, gp); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) o += w[i] * w[j] * G[i][j]; return !(std::sqrt(std::max(o, 0.0)) > v.Del * par("lambdaLower", 1e-7) * (1 + 1e-3) + 1e-5); };
        bool replaced = false;   // the element in the metric of H was tiny and was replaced by the plain one
        for (int c = 0; c < 2 && !found; c++) for (int u = 0; u < 2 && !found; u++) { int k = n - c; if ((c && (!full || n < 2)) || (plain && u == 0)) continue; if (u == 1 && !plain && !small_P(k)) continue; hull(k, u == 0, g2, o2, v2); char b[80]; snprintf(b, sizeof b, " (k=%d H=%d gap %.3g out %.3g)", k, u == 0, g2, o2); tr += b; if (g2 < 1e-2 + 1e-9 / (gscale + 1e-300) && o2 < 1e-6) { found = true; replaced = u == 1; gap = g2; out = o2; val = v2; } }
        if (!plain) for (int c = 0; c <= (full && n > 1); c++) if (!replaced && small_P(n - c)) replaced = true;
        nmj++; if (!found) { char b[300]; snprintf(b, sizeof b, "the element used is not the minimum-norm element of the hull of the %d subgradients:%s", n, tr.c_str()); nmf.push_back(b); } obs("minimum-norm elements judged"); if (n > 1) obs("bundles of several subgradients"); sig(std::string(nname[v.kind]) + " bundle " + std::to_string(std::min(n, 12)));
        // direction and measure
        if (v.kind == N_RGS) { small("S08.measure", std::fabs(*v.nd1 - nmin) / (mg + 1e-300), 1e-6, "reported measure is the norm of the minimum-norm element"); if (*v.nd1 > 1e-9) small("S08.direction", nm(x, lc(x, *v.nd1, *v.eta1, 1, *v.minPv)) / mg, 1e-7, "direction is the normalised negative minimum-norm element"); }
        else if (early) { small("S08.measure", std::fabs(*v.nd1 - nmin) / (mg + 1e-300), 1e-6, "reported measure is the norm of the minimum-norm element"); obs("small elements"); }
        else {
            double P = met(x, *v.minPv, v.Hv(*v.minPv)), ne = nm(x, *v.eta1); if (replaced || !(std::sqrt(P) > v.Del * par("lambdaLower", 1e-7))) { obs("elements of small norm replaced"); return; }
            expect(nmin > v.Del, "S08.measure", "element of norm %g below the tolerance %g was used as a direction", nmin, v.Del);
            Vector h = v.Hv(*v.minPv); small("S08.direction", nm(x, lc(x, 1, *v.eta1, 1, h)) / (nm(x, h) + 1e-300), 1e-9, "direction is minus H times the minimum-norm element");
            small("S08.measure", std::fabs(*v.nd1 - ne) / (ne + 1e-300), 1e-9, "reported measure is the norm of the direction");
            if (n < v.maxg) { Vector e = sc(x, v.Eps / ne, *v.eta1); Variable y(x), xs = x; M->Retraction(xs, e, &y); double fy = fresh_f(y), f0 = fresh_f(x), dec = par("LS_alpha", 1e-4) * v.Eps / ne * P; expect(!(fy - f0 + dec > 1e-9 * (std::fabs(f0) + 1e-3) + 1e-3 * dec), "S08.sufficient", "bundle of %d of at most %d accepted although the step of length %g changes the cost by %.6g, required %.6g", n, v.maxg, v.Eps, fy - f0, -dec); obs("descent at the radius"); }
        }
        if (nmin > 1e-6 * mg && !replaced) { double hb = 1, ne = nm(x, *v.eta1); if (!plain) { for (auto &w : W) hb = std::max(hb, nm(x, v.Hv(w)) / nm(x, w)); for (int i = 0; i < 3; i++) { Vector t = F->W(x, F->tvs(r, S.strip(x), 1)); hb = std::max(hb, nm(x, v.Hv(t)) / nm(x, t)); } } double den = plain ? nmin : ne; if (hb * mg / den < 1e4 && hist < 1e6 && !noisy && (plain || v.iter <= 6)) small("S08.tangent", F->tang(S.strip(x), F->E(S.strip(x), *v.eta1)), 1e-4, "direction is tangent"); }
    }
    double sl0 = 0, hist = 0; int nmj = 0; std::vector<std::string> nmf; bool noisy = false;   // noisy: the quasi-Newton operator is dominated by rounding errors
    void preLS(const NView &v) {  sl0 = met(*v.x1, *v.minPv, *v.eta1); if (judged) expect(std::fabs(*v.islope - sl0) <= 1e-9 * std::fabs(sl0) + 1e-300, "S08.slope", "initial slope %.12g, <v,eta> = %.12g", *v.islope, sl0); }
    void postLS(const NView &v) {
        steps.push_back(*v.step); if (v.s && nm(*v.x1, *v.eta2) < 1e-8) noisy = true; if (!judged || !ok(*v.x2)) return; double al = par("LS_alpha", 1e-4), be = par("LS_beta", 0.999), t = *v.step, mx = par("Maxstepsize", 1000), mn = par("Minstepsize", 2e-16);
        double f0 = fresh_f(*v.x1), fy = fresh_f(*v.x2), fs = std::fabs(f0) + std::fabs(fy) + 1e-300; char lab[40]; snprintf(lab, sizeof lab, "search status %d", v.st); obs(lab);
        if (fs > 1e8) return; small("S08.trialcost", std::fabs(fy - *v.f2) / fs, 1e-10, "cost of the trial point");
        if (v.st == LSNSM_SUCCESS || v.st == LSNSM_MAXSTEPSIZE) {
            expect(t >= mn && t <= mx, "S08.limits", "step %g outside [%g,%g] with status %d", t, mn, mx, v.st); expect((v.st == LSNSM_MAXSTEPSIZE) == (t >= mx), "S08.status", "status %d with step %g, limit %g", v.st, t, mx);
            Vector e = sc(*v.x1, t, *v.eta1); small("S08.step", nm(*v.x1, lc(*v.x1, 1, e, -1, *v.eta2)) / (nm(*v.x1, e) + 1e-300), 1e-10, "the step is the step size times the direction");
            Variable y(*v.x1), xs = *v.x1; M->Retraction(xs, *v.eta2, &y); small("S08.trial", diff(*v.x1, y, *v.x2), 1e-9 * cond(S.strip(y)), "the trial point is the retracted step");
            expect(*v.f2 - *v.f1 <= al * t * sl0 + 1e-13 * fs, "S08.decrease", "cost change %.9g, required %.9g (step %g)", *v.f2 - *v.f1, al * t * sl0, t);
            if (v.st == LSNSM_SUCCESS) expect(*v.nslope >= be * *v.islope, "S08.curvature", "slope %.9g, required %.9g", *v.nslope, be * *v.islope);
            Variable y2(*v.x2); Vector g2 = fresh_g(*v.x2, &y2); double n2 = nm(*v.x2, g2); double et = nm(*v.x2, lc(*v.x2, 1, g2, -1, *v.gf2)) / (n2 + 1e-3 * scaleg); if (!(et < 1e-6) && kink(*v.x2)) obs("trial points on a kink"); else small("S08.trialgrad", et, 1e-6, "subgradient of the trial point");
            Vector d(*v.eta1); M->DiffRetraction(*v.x1, *v.eta2, *v.x2, *v.eta1, &d, true); double s = met(*v.x2, *v.gf2, d); expect(std::fabs(s - *v.nslope) <= 1e-8 * (std::fabs(s) + nm(*v.x2, *v.gf2) * nm(*v.x2, d)), "S08.newslope", "reported slope %.9g, recomputed %.9g", *v.nslope, s); obs("accepted steps");
        }
    }
    Vector us = Vector(1), uy = Vector(1);
    void postUpd(const NView &v) {
        if (!v.s || !judged || !ok(*v.x2)) return; double lo = par("lambdaLower", 1e-7), up = par("lambdaUpper", 1e7); Variable &x = *v.x2; if (cond(S.strip(x)) > 100) return;
        Vector s(*v.eta2), z(*v.gf1); M->VectorTransport(*v.x1, *v.eta2, x, *v.eta2, &s); M->VectorTransport(*v.x1, *v.eta2, x, *v.gf1, &z); Vector y = lc(x, 1 / M->Beta(*v.x1, *v.eta2), *v.gf2, -1, z); double gy = nm(x, *v.gf2) + nm(x, z), ny = nm(x, y), ns = nm(x, s); if (!(ny > 1e-8 * gy) || !(ns > 1e-12)) return;
        small("S08.y", nm(x, lc(x, 1, y, -1, *v.y)) / gy, 1e-8, "difference of subgradients"); double sy = met(x, s, y), k = std::max(0.0, 1 / up - sy / (ny * ny)); s = lc(x, 1, s, k, y); double nss = nm(x, s); small("S08.s", nm(x, lc(x, 1, s, -1, *v.s)) / (nss + k * ny), 1e-7, "step of the update"); double q = met(x, s, *v.y) / (nss * nss); if (std::fabs(q - lo) > 1e-4 * lo + 1e-9 * ny / nss) expect(v.upd == (q > lo), "S08.cautious", "<s,y>/<s,s> = %g, bound %g: updated %d", q, lo, v.upd); obs("updates judged"); if (!v.upd) obs("updates skipped");
    }
    struct T { int it; bool b; double a, c, nd, nd0, f1, f2; }; std::vector<T> ts;
    void stop(const NView &v, bool b, double a, double c) {
        lastb = b; tests++; ts.push_back({(int)v.iter, b, a, c, *v.nd1, *v.nd0, *v.f1, *v.f2}); double tol = v.ns->Tolerance; int cr = v.ns->Stop_Criterion; if (user) { expect(US.x == raw(*v.x1), "S08.user", "user criterion shown another point than the iterate"); expect(US.nd == *v.nd1 && US.nd0 == *v.nd0, "S08.user", "user criterion told other measures"); return; }
        double pf = costs.size() >= 2 ? costs[costs.size() - 2] : 0, f = fresh_f(*v.x1); (void)pf; (void)f;
        if (v.iter > 0 && its.size() >= 2 && cr == NSM_FUN_REL) { double fo = fresh_f(its[v.iter - 1]), fn = fresh_f(its[v.iter]), val = std::fabs(fo - fn) / (std::fabs(fn) + 1), va2 = std::fabs(fo - fn) / (std::fabs(fo) + 1); if (ok(its[v.iter]) && ok(its[v.iter - 1]) && std::fabs(fo) < 1e8) { if (std::max(val, va2) < tol - 1e-9) expect(b, "S08.criterion", "relative change %g between the last two iterates, tolerance %g: run goes on", val, tol); if (std::min(val, va2) > tol + 1e-9) expect(!b, "S08.criterion", "relative change %g between the last two iterates, tolerance %g: run stops", val, tol); obs("tests judged"); } }
        if (v.iter == 0 && cr == NSM_FUN_REL) expect(!b, "S08.criterion", "stopped by cost change before the first step");
        if (cr == NSM_DIR_F) { expect(b == (*v.nd1 < tol), "S08.criterion", "measure %g, tolerance %g: test says %d", *v.nd1, tol, b); obs("tests judged"); }
        if (cr == NSM_DIR_F_0) { bool w = *v.nd1 == 0 || *v.nd1 / *v.nd0 < tol; expect(b == w, "S08.criterion", "measure %g of %g, tolerance %g: test says %d", *v.nd1, *v.nd0, tol, b); obs("tests judged"); }
    }
};
static std::unique_ptr<Scn> mkns08(Rng &r, int &kind, PARAMSMAP &P) {
    for (int tries = 0; tries < 3000; tries++) {
        std::unique_ptr<Scn> q(new Scn); Scn &s = *q; kind = r.i(0, 2); double c = 1;
        auto ok = [&](Fix &f) { return f.diffSame && f.invVT && f.dim >= 1 && (kind != N_RBFGSSUB || f.tranH) && f.name.find("SphereTx") == std::string::npos; };
        if (r.b(0.75)) { s.fix0 = mkfix(r, F_NOTX | F_NOFRE); if (!ok(*s.fix0)) continue; s.F = s.fix0.get(); s.M = s.F->M; s.x0 = mkpoint(r, *s.F, c); s.tp.reset(new NSProblem(r, s.F, s.x0)); s.P = s.tp.get(); s.pname = "piecewise"; }
        else { s.pf = mkproblem(r, PK_SPARSEST, [&](Fix &f) { return ok(f); }); if (!ok(*s.pf->fix)) continue; s.F = s.pf->fix.get(); s.M = s.pf->M; s.P = s.pf->P.get(); s.pname = s.pf->name; s.x0 = s.pf->pt(r, c); }
        if (s.F->dim > 14 || s.F->condition(s.x0) > 100 || (s.F->name.find("SPD") != std::string::npos && s.M->GetHasHHR())) continue;   // SPD: at unit distance the derivative of the retraction is singular s.x0 = s.strip(s.x0);
        s.dotmetric = dotmetric(r, *s.F, s.strip(s.x0)); if (kind == N_RBFGSSUB && !s.dotmetric) continue;
        s.x0raw = raw(s.x0); s.flag_intr = s.M->GetIsIntrinsic(); s.flag_hhr = s.M->GetHasHHR(); s.fresh(); s.kind = kind;
        double dens = r.pickd({0.1, 0.4, 0.8}); auto opt = [&](const char *n, double v) { if (r.b(dens)) P[n] = v; };
        opt("Eps", r.pickd({1, 0.1, 1e-2, 2})); opt("Theta_eps", r.pickd({0.01, 0.1, 0.5})); opt("Min_Eps", r.pickd({1e-6, 1e-3, 1e-2})); opt("Del", r.pickd({1, 0.1, 1e-3, 1e-6})); opt("Theta_del", r.pickd({0.01, 0.1, 0.7})); opt("LS_alpha", r.pickd({1e-4, 1e-2, 0.2})); opt("LS_beta", r.pickd({0.999, 0.9, 0.5})); opt("Maxstepsize", r.pickd({1000, 8, 1.5, 1})); opt("Minstepsize", r.pickd({2e-16, 1e-10, 1e-4})); opt("lambdaLower", r.pickd({1e-7, 1e-3, 0.3})); opt("lambdaUpper", r.pickd({1e7, 1e3, 3})); opt("NumExtraGF", r.i(1, 8)); opt("Stop_Criterion", r.i(0, 2)); opt("Tolerance", r.pickd({1e-6, 1e-3, 0.1, 0.5, 1e-12})); opt("Min_Iteration", r.i(0, 4)); opt("Verbose", 2); if (kind == N_LRBFGSSUB) opt("LengthSY", r.i(0, 6));
        if (P.count("Del") && !P.count("Eps") && false) P.erase("Del"); P["Max_Iteration"] = r.i(2, thorough() ? 40 : 20); if (P.count("Min_Iteration")) P["Min_Iteration"] = std::min(P["Min_Iteration"], P["Max_Iteration"]); if (!P.count("Verbose")) P["Verbose"] = 0; P["OutputGap"] = 1;
        std::string d = s.F->det; for (auto &p : P) { char b[64]; snprintf(b, sizeof b, " %s=%.4g", p.first.c_str(), p.second); d += b; }
        config("%s %s %s", nname[kind], s.pname.c_str(), s.F->name.c_str()); detail("%s", d.c_str()); sig(std::string(nname[kind]) + " " + s.pname + " " + s.F->name); obs((std::string("runs of ") + nname[kind]).c_str()); return q;
    }
    abort();
}
VH_SUITE(s08) {
    int kind; PARAMSMAP P; auto q = mkns08(r, kind, P); Scn &S = *q; SubMon m(S, r); m.P = P; S.pm->onR = [&](const Variable &x, const Vector &e, const Variable &y) { if (m.collect) m.smp.push_back({Vector(e), Variable(y)}); };
    NSolver o = mkns(kind, S.pp.get(), &S.x0); *o.mon = &m; o.s->SetParams(P); SolversNSM &s = *o.s; US = UStop(); if (r.b(0.1)) { m.user = true; US.at = r.i(0, 8); s.StopPtr = &ustop; }
    s.Run(); NView v = o.view(); int it = s.GetIter(); bool failed = v.st != LSNSM_SUCCESS && v.st != LSNSM_MAXSTEPSIZE;
    expect(m.nmf.size() <= 1 + (size_t)m.nmj / 50, "S08.minnorm", "%d of %d elements: %s", (int)m.nmf.size(), m.nmj, m.nmf.empty() ? "" : m.nmf[0].c_str()); if (m.nmf.size()) obs("inner solver stuck");   // the inner solver may end at a point of a face once in a while
    // the end of the run
    int mi = P.count("Min_Iteration") ? P["Min_Iteration"] : 0, mxi = P["Max_Iteration"]; expect(it <= mxi, "S08.max", "%d iterations, limit %d", it, mxi); bool zero = m.lastnd < 1e-307; double me = m.par("Min_Eps", 1e-6);
    bool nan = !std::isfinite(s.Getfinalfun()); expect(it >= mi || failed || zero || nan, "S08.min", "%d iterations, minimum %d", it, mi); expect(it == mxi || failed || zero || nan || (m.lastb && v.Eps <= me), "S08.reason", "ended after %d iterations without any reason (radius %g, last answer %d)", it, v.Eps, m.lastb);
    if (it == mxi) obs("limit reached"); else if (failed) obs("ended by the line search"); else obs("stopped by the criterion");
    for (size_t i = 0; i + 1 < m.ts.size(); i++) if (m.ts[i].b && m.ts[i].it >= mi && m.ts[i + 1].it > m.ts[i].it && false) fail("S08.early", "went on");
    Variable x = s.GetXopt(); if (!m.ok(x)) { obs("ill-conditioned end point"); return; }
    for (double t : m.steps) if (!(std::fabs(t) < 1e5)) { obs("huge steps"); return; }
    double f = m.fresh_f(x), f0 = m.fresh_f(S.x0), fs = std::fabs(f) + std::fabs(f0) + 1e-300; if (!(fs < 1e8)) { obs("diverged"); return; } small("S08.cost", std::fabs(f - s.Getfinalfun()) / fs, 1e-10, "reported cost is that of the returned point"); small("S08.feasible", S.F->feas(S.strip(x)), 1e-8, "returned point on the manifold"); expect(m.noisy || f <= f0 + 1e-12 * fs, "S08.monotone", "final cost %.15g above the initial cost %.15g", f, f0);
    for (size_t i = 1; i < m.its.size(); i++) if (!m.noisy && m.ok(m.its[i]) && m.ok(m.its[i - 1])) { double a = m.fresh_f(m.its[i - 1]), b = m.fresh_f(m.its[i]); expect(b <= a + 1e-12 * fs, "S08.monotone", "cost rises from %.15g to %.15g at iteration %d", a, b, (int)i); obs("cost changes"); }
    expect(s.Getnf() == S.pp->nf, "S08.count.nf", "reported %d cost evaluations, made %ld", s.Getnf(), S.pp->nf); expect(s.Getng() == S.pp->ng, "S08.count.ng", "reported %d subgradient evaluations, made %ld", s.Getng(), S.pp->ng); expect(s.GetnR() == S.pm->c.R, "S08.count.nR", "reported %d retractions, made %ld", s.GetnR(), S.pm->c.R);
    expect(s.Getnormnd() == m.lastnd || (s.Getnormnd() != s.Getnormnd() && m.lastnd != m.lastnd) || (zero && s.Getnormnd() < 1e-307), "S08.report", "reported measure %g, observed %g", s.Getnormnd(), m.lastnd);
    if (P["Verbose"] >= 2) {
        expect(s.GetlengthSeries() == it + 1, "S08.series", "series of %d entries for %d iterations", s.GetlengthSeries(), it); V fu = raw(s.GetfunSeries()), di = raw(s.GetdirSeries()); for (int i = 0; i <= it && i < (int)m.its.size(); i++) if (m.ok(m.its[i])) { small("S08.series", std::fabs(m.fresh_f(m.its[i]) - fu[i]) / fs, 1e-9, "cost series"); obs("series entries"); }
        for (int i = 0; i <= it; i++) { double l = -1; for (auto &t : m.ts) if (t.it == i) l = t.nd; if (l >= 0) expect(di[i] == l, "S08.series.dir", "measure series entry %d of %d is %g, observed %g", i, it, di[i], l); trace("dir", di[i]); }
    }
    sample("%s: %d iterations, bundle %d, measure %g, radius %g", curconfig().c_str(), it, m.ngfs0, m.lastnd, v.Eps);
}
// ================================================================== S09: proximal-gradient methods
struct ProxMon : NMon, MonB {
    ProxMon(Scn &s, Rng &r) : MonB(s, r) {}
    PARAMSMAP P; bool acc = false, user = false, started = false; int gap_ = 5, tests = 0, reds = 0, unconv = 0; double lam = 0, ada = 1, tol = 1e-10, smu = 0.2, nd0 = 0, nd1 = 1, fprev = HUGE_VAL, fsafe = HUGE_VAL; bool lastb = false, amb = false, bad = false, ended = false;
    struct R_ { Variable x; Vector e; Variable y; }; std::vector<R_> rs; std::vector<Variable> its; std::vector<double> nds, fs2; Vector pv = Vector(1); Variable px = Vector(1); Variable z = Vector(1), y = Vector(1); double s = 1; struct T { int it; double nd; }; std::vector<T> ts; int nprox = 0;
    double par(const char *k, double d) { return P.count(k) ? P[k] : d; }
    bool ok(const Variable &x) { return finite(raw(x)) && cond(S.strip(x)) < 1e4; }
    V weights(const Variable &x, double a) { Vector w(1); Variable q = S.strip(x); S.P->f(q); S.P->PreConditioner(q, w, &w); V o = raw(w); for (auto &t : o) t *= a; return o; }
    void prox(const PM::Prox &p) {
        nprox++; pv = Vector(*p.v); px = Variable(*p.x); rs.clear(); if (!ok(px) || bad) { bad = true; return; }
        Variable x = S.strip(px); Vector D(*p.D); V vx = raw(x), g = raw(*p.g), v = raw(F->E(x, pv)), w = weights(x, p.ada); size_t n = vx.size(), b = n / w.size();
        expect(p.ada == ada && p.tol == tol && p.lambda == smu, "S09.params", "subproblem solved with (%g,%g,%g), expected (%g,%g,%g)", p.ada, p.tol, p.lambda, ada, tol, smu);
        { Vector gf = fresh_g(x); double e = nm(x, lc(x, 1, gf, -1, *p.g)) / (nm(x, gf) + 1e-6); small("S09.gradient", e, 1e-8, "the subproblem uses the gradient at its point"); }
        double nv = vn(v), ng = vn(g), wm = 0, wl = HUGE_VAL; for (double t : w) wm = std::max(wm, t), wl = std::min(wl, t); if (!(nv < 1e6 && ng < 1e8)) { bad = true; return; }
        // the value of the model and the dual bound
        Vector Ne(M->GetEMPTYEXTR()); M->ObtainNorVerExtr(x, D, &Ne); V N = raw(Ne); double nn = vn(N), ort = 0; for (int i = 0; i < 3; i++) { V t = raw(F->tvs(r, x, 1)); ort = std::max(ort, std::fabs(vdot(N, t)) / (vn(t) * (nn + 1e-300))); } expect(nn == 0 || ort < 1e-9 + 10 * F->feas(x), "S09.normal", "multiplier is not normal to the tangent space (%g)", ort);
        double phi = 0, dual = 0, l1 = 0, nf = 0; V u(n); for (size_t i = 0; i < n; i++) { double W = w[i / b], c = g[i] - N[i], t = vx[i] - c / W, k = lam / W; u[i] = (t > k ? t - k : t < -k ? t + k : 0) - vx[i]; phi += g[i] * v[i] + 0.5 * W * v[i] * v[i] + lam * (std::fabs(vx[i] + v[i]) - std::fabs(vx[i])); dual += c * u[i] + 0.5 * W * u[i] * u[i] + lam * (std::fabs(vx[i] + u[i]) - std::fabs(vx[i])); l1 += lam * std::fabs(vx[i]); nf += (u[i] - v[i]) * (u[i] - v[i]); } nf = std::sqrt(nf);
        double sc = ng * nv + wm * nv * nv + l1 * 1e-2 + nn * nv + 1e-5 * (ng + lam + wm), lip = ng + lam * std::sqrt((double)n) + wm * nv + nn, gap = phi - dual; expect(gap > -1e-9 * sc, "S09.dual", "model value %.12g below the lower bound %.12g", phi, dual);
        bool un = !(nf <= std::sqrt(p.tol) * (1 + 1e-6) + 1e-13 * ((nn + 10 * ng) / wl + vn(vx))); 
        if (nv > 1e-9) small("S09.tangent", F->tang(x, pv), (un ? 1e-6 : 1e-8) + 10 * F->feas(x), "the direction is tangent");
        if (un) { unconv++; obs("subproblems not solved to the tolerance"); expect(p.it > 0, "S09.solved", "residual %g, tolerance %g after no iteration", nf, std::sqrt(p.tol)); if (p.tol == 1e-10) obs("... with the initial tolerance"); }
        else { obs("subproblems solved to the tolerance"); expect(gap <= lip * nf * 1.001 + 1e-10 * sc, "S09.model", "model value %.12g, lower bound %.12g, residual %g: gap %g exceeds %g", phi, dual, nf, gap, lip * nf); if (lam > 0) obs("regularised subproblems certified"); sig("lw " + std::to_string(w.size() == 1 ? 1 : w.size() == n ? 3 : 2) + " lam " + std::to_string(lam) + " ada " + std::to_string((int)(std::log(p.ada) * 20))); }
        expect(p.it >= 0 && p.it <= 100 && p.cg >= 0, "S09.inner", "%d iterations", p.it);
        if (phi > 1e-9 * sc + lip * nf && !un) fail("S09.model", "model value %g above its value at zero", phi);
        trace("prox", nv);
    }
    double sl = 0;
    void preLS(const NView &v) {
        nd1 = nm(*v.x1, *v.eta1); if (nd0 == 0) nd0 = nd1; rs.clear(); started = true; if (bad || !ok(*v.x1)) { bad = true; return; }
        expect(raw(px) == raw(*v.x1), "S09.where", "direction computed at another point than the iterate"); expect(raw(pv) == raw(*v.eta1), "S09.where", "direction changed after it was computed");
        if (its.empty() || raw(its.back()) != raw(*v.x1)) its.push_back(*v.x1);
        sl = met(*v.x1, *v.gf1, *v.eta1); expect(std::fabs(*v.islope - sl) <= 1e-10 * std::fabs(sl) + 1e-300, "S09.slope", "initial slope %.12g, <g,v> = %.12g", *v.islope, sl); expect(*v.step == 1, "S09.step", "initial step %g", *v.step); if (sl > 0) obs("directions with positive slope");
        expect(std::fabs(*v.nd1 - nd1) <= 1e-9 * nd1, "S09.measure", "reported measure %g, norm of the direction %g", *v.nd1, nd1); expect(*v.nd0 == nd0 || std::fabs(*v.nd0 - nd0) <= 1e-9 * nd0, "S09.measure", "first measure %g, expected %g", *v.nd0, nd0);
    }
    void postLS(const NView &v) {
        if (bad || !finite(raw(*v.x2)) || !ok(*v.x2) || !std::isfinite(*v.f2)) { bad = true; return; } double f1 = fresh_f(*v.x1), f2 = fresh_f(*v.x2), sc = std::fabs(f1) + std::fabs(f2) + 1e-300, al = par("LS_alpha", 1e-4), mn = par("Minstepsize", 2e-2), ra = par("LS_ratio", 0.5), t = *v.step;
        if (sc > 1e10) { bad = true; return; }
        // which steps were tried
        double want = 1, ms = std::min(sl, 0.0); for (size_t i = 0; i < rs.size(); i++) { Vector e = this->sc(*v.x1, want, *v.eta1); expect(diff(*v.x1, e, rs[i].e) < 1e-10, "S09.trial", "trial %d is not the step %g along the direction", (int)i, want); expect(want >= mn * (1 - 1e-12) || i == 0, "S09.trial", "trial step %g below the minimum %g", want, mn); double f = fresh_f(rs[i].y); bool suf = f <= f1 + al * want * ms + 1e-12 * sc, insuf = f >= f1 + al * want * ms - 1e-12 * sc; bool last = i + 1 == rs.size(); if (!last || v.st == LSPG_MINSTEPSIZE) expect(insuf, "S09.trial", "step %g rejected although the cost falls from %.15g to %.15g", want, f1, f); else expect(suf, "S09.decrease", "step %g accepted: cost change %.9g, required %.9g", want, f - f1, al * want * ms); want *= ra; }
        if (v.st == LSPG_MINSTEPSIZE) { obs("searches at the minimum step"); expect(t < mn && std::fabs(t - want) <= 1e-12 * t, "S09.status", "step %g, minimum %g", t, mn); }
        else {
            expect(rs.size() >= 1 && std::fabs(t * ra - want) <= 1e-12 * t, "S09.status", "%d trials, step %g", (int)rs.size(), t); obs("accepted steps"); if (rs.size() > 1) obs("steps reduced"); small("S09.cost", std::fabs(f2 - *v.f2) / sc, 1e-10, "cost of the accepted point"); Variable q(*v.x1), xs = S.strip(*v.x1); M->Retraction(xs, *v.eta2, &q); small("S09.point", diff(*v.x1, q, *v.x2), 1e-8 * cond(S.strip(q)), "accepted point is the retracted step"); Vector g = fresh_g(*v.x2); small("S09.newgrad", nm(*v.x2, lc(*v.x2, 1, g, -1, *v.gf2)) / (nm(*v.x2, g) + 1e-6), 1e-8, "gradient at the accepted point");
        }
        // rules of the parameters
        if (v.st == LSPG_MINSTEPSIZE) { if (smu == 1e-10 && tol == 1e-24) ended = true; else { tol = std::max(tol * 0.01, 1e-24); smu = std::max(smu * 0.1, 1e-10); } }
        else if ((int)par("RPGLSVariant", acc ? 0 : 1) == 1) { if (rs.size() == 1) ada /= 1.01; else ada = std::min(ada * 1.01, 1.0); obs("adaptive weight"); }
        if (acc && v.st == LSPG_SUCCESS) { double fz = fresh_f(z); fprev = fsafe; if (v.iter != 0) { if (std::fabs(f2 - fz) <= 1e-12 * (std::fabs(f2) + std::fabs(fz))) amb = true; else if (f2 < fz) { z = y = *v.x2; s = 1; obs("safeguard used"); } else obs("safeguard not needed"); fprev = f1; } }
    }
    void stop(const NView &v, bool b, double a, double c) {
        lastb = b; tests++; bool first = !started; if (first) { ts.push_back({0, 1}); expect(!b || user, "S09.criterion", "stopped before the first step"); if (acc) { z = y = *v.x1; } return; }
        if (bad) return; ts.push_back({(int)v.iter, *v.nd1}); int cr = par("Stop_Criterion", 2); double T = par("Tolerance", 1e-4);
        if (acc) {
            double f1 = fresh_f(*v.x1); if (!std::isfinite(f1)) { bad = true; return; }
            if (amb) { z = *v.z1; y = *v.y1; s = v.s1; amb = false; obs("safeguard undecided"); }
            if (v.iter % gap_ == 0) { expect(raw(*v.x1) == raw(z), "S09.safeguard", "iterate after the safeguard at iteration %d is not the better of the two candidates", (int)v.iter); small("S09.safeguard", std::fabs(*v.f1 - f1) / (std::fabs(f1) + 1e-300), 1e-10, "cost after the safeguard"); if (fsafe < HUGE_VAL) expect(f1 <= fsafe + 1e-12 * (std::fabs(f1) + std::fabs(fsafe)), "S09.monotone", "cost of the safeguarded iterate rises from %.15g to %.15g", fsafe, f1); fsafe = f1; its.push_back(*v.x1); }
            if (rs.size() == 2) {
                expect(raw(rs[0].x) == raw(px) && raw(rs[0].e) == raw(pv), "S09.accelerate", "first retraction is not along the direction"); expect(diff(y, rs[0].x, y) < 1e-12, "S09.accelerate", "accelerated step starts from another point");
                double s2 = (1 + std::sqrt(1 + 4 * s * s)) / 2; Variable z2 = S.strip(rs[0].y); Vector q(M->GetEMPTY()); M->InvRetraction(z2, S.strip(z), &q); if (!finite(raw(q))) { bad = true; return; } q = sc(z2, -(s - 1) / s2, q); double nq = vn(raw(q)); expect(vn(vsub(raw(q), raw(rs[1].e))) <= 1e-8 * (nq + 1e-6), "S09.accelerate", "extrapolation of norm %g instead of %g", vn(raw(rs[1].e)), nq); expect(raw(rs[1].x) == raw(rs[0].y), "S09.accelerate", "extrapolation from another point"); if (s > 1) obs("extrapolations"); z = rs[0].y; y = rs[1].y; s = s2; rs.clear();
            } else if (rs.size()) { bad = true; return; }
        } else its.push_back(*v.x2);
        double fo = acc ? fprev : fresh_f(*v.x1), fn = acc ? fsafe : fresh_f(*v.x2);
        if (user) { obs("user criterion"); expect(US.x == raw(acc ? *v.x1 : *v.x2), "S09.user", "user criterion shown another point than the iterate"); expect(US.nd == *v.nd1 && US.nd0 == *v.nd0, "S09.user", "user criterion told other measures"); return; }
        if (cr == NSM_FUN_REL) { if (fo < HUGE_VAL && fn < HUGE_VAL) { double d = std::fabs(fo - fn), lo = d / (std::max(std::fabs(fo), std::fabs(fn)) + 1), hi = d / (std::min(std::fabs(fo), std::fabs(fn)) + 1); if (hi < T - 1e-9) expect(b, "S09.criterion", "relative change %g, tolerance %g: run goes on", hi, T); if (lo > T + 1e-9) expect(!b, "S09.criterion", "relative change %g, tolerance %g: run stops", lo, T); } else expect(!b, "S09.criterion", "stopped by cost change before there was any"); }
        if (cr == NSM_DIR_F) expect(b == (*v.nd1 < T), "S09.criterion", "measure %g, tolerance %g: test says %d", *v.nd1, T, b);
        if (cr == NSM_DIR_F_0) expect(b == (*v.nd1 == 0 || *v.nd1 / *v.nd0 < T), "S09.criterion", "measure %g of %g, tolerance %g: test says %d", *v.nd1, *v.nd0, T, b);
        obs("tests judged");
    }
};
static std::unique_ptr<Scn> mkns09(Rng &r, int &kind, PARAMSMAP &P) {
    auto q = std::unique_ptr<Scn>(new Scn); Scn &S = *q; kind = r.i(N_MANPG, N_AMANPG); bool acc = kind == N_AMANPG; double c = 1;
    for (int tries = 0;; tries++) { if (tries > 3000) abort(); auto ok = [&](Fix &f) { return !f.M->GetIsIntrinsic() && f.diffSame && !f.hhr && (!acc || f.invretr); }; S.pf = mkproblem(r, acc || r.b(0.7) ? PK_SPCA : PK_SPARSE, [&](Fix &f) { return ok(f); }); if (!ok(*S.pf->fix)) continue; S.F = S.pf->fix.get(); S.M = S.pf->M; S.P = S.pf->P.get(); S.pname = S.pf->name; S.x0 = S.pf->pt(r, c); if (S.F->dim < 1 || S.F->condition(S.x0) > 100 || S.M->GetExtrDim() <= S.M->GetIntrDim()) continue; S.nostrip = S.F->name.find("FixedRankE") != std::string::npos; S.x0 = S.strip(S.x0); S.dotmetric = dotmetric(r, *S.F, S.x0); if (!S.dotmetric) continue; break; }
    S.x0raw = raw(S.x0); S.flag_intr = false; S.flag_hhr = false; S.fresh(); S.kind = kind; S.pp->prox = true;
    double dens = r.pickd({0.1, 0.4, 0.8}); auto opt = [&](const char *n, double v) { if (r.b(dens)) P[n] = v; };
    opt("LS_alpha", r.pickd({1e-4, 1e-2, 0.3})); opt("LS_ratio", r.pickd({0.5, 0.8, 0.2})); opt("Minstepsize", r.pickd({2e-2, 0.3, 1e-6})); opt("RPGLSVariant", r.i(0, 1)); opt("Stop_Criterion", r.i(0, 2)); opt("Tolerance", r.pickd({1e-4, 1e-8, 1e-2, 0.3, 1e-12})); opt("Min_Iteration", r.i(0, 6)); opt("Verbose", 2); if (acc) opt("SGIterGap", r.i(1, 6));
    P["Max_Iteration"] = r.i(1, thorough() ? 150 : 40); if (P.count("Min_Iteration")) P["Min_Iteration"] = std::min(P["Min_Iteration"], P["Max_Iteration"]); if (!P.count("Verbose")) P["Verbose"] = 0; P["OutputGap"] = 1;
    std::string d = S.F->det; for (auto &p : P) { char b[64]; snprintf(b, sizeof b, " %s=%.4g", p.first.c_str(), p.second); d += b; }
    config("%s %s %s", nname[kind], S.pname.c_str(), S.F->name.c_str()); detail("%s lambda=%g", d.c_str(), S.pf->lambda); sig(std::string(nname[kind]) + " " + S.pname + " " + S.F->name); obs((std::string("runs of ") + nname[kind]).c_str()); obs((std::string("runs on ") + S.pname).c_str());
    return q;
}
VH_SUITE(s09) {
    int kind; PARAMSMAP P; auto q = mkns09(r, kind, P); Scn &S = *q; bool acc = kind == N_AMANPG;
    ProxMon m(S, r); m.P = P; m.acc = acc; m.lam = S.pf->lambda; m.gap_ = (int)m.par("SGIterGap", 5); S.pm->onP = [&](const PM::Prox &p) { m.prox(p); }; S.pm->onR = [&](const Variable &x, const Vector &e, const Variable &y) { m.rs.push_back({Variable(x), Vector(e), Variable(y)}); };
    NSolver o = mkns(kind, S.pp.get(), &S.x0); *o.mon = &m; o.s->SetParams(P); SolversNSM &s = *o.s; US = UStop(); if (r.b(0.1)) { m.user = true; US.at = r.i(0, 8); s.StopPtr = &ustop; }
    s.Run(); NView v = o.view(); int it = s.GetIter(), mi = m.par("Min_Iteration", 0), mx = P["Max_Iteration"];
    if (m.bad) { obs("ill-conditioned runs"); return; }
    expect(it <= mx, "S09.max", "%d iterations, limit %d", it, mx); bool nan = !std::isfinite(s.Getfinalfun()); expect(it >= mi || m.ended || nan, "S09.min", "%d iterations, minimum %d", it, mi); expect(it == mx || m.ended || nan || m.lastb, "S09.reason", "ended after %d iterations without any reason", it); if (it == mx) obs("limit reached"); else if (m.ended) obs("ended by the line search"); else obs("stopped by the criterion");
    Variable x = s.GetXopt(); double f = m.fresh_f(x), f0 = m.fresh_f(S.x0), fs = std::fabs(f) + std::fabs(f0) + 1e-300; small("S09.cost", std::fabs(f - s.Getfinalfun()) / fs, 1e-10, "reported cost is that of the returned point"); small("S09.feasible", S.F->feas(S.strip(x)), 1e-8, "returned point on the manifold"); expect(f <= f0 + 1e-12 * fs, "S09.monotone", "final cost %.15g above the initial cost %.15g", f, f0); if (!m.its.empty()) expect(raw(m.its.back()) == raw(x) , "S09.last", "returned point is not the last accepted iterate");
    for (size_t i = 1; i < m.its.size(); i++) { double a = m.fresh_f(m.its[i - 1]), b = m.fresh_f(m.its[i]); expect(b <= a + 1e-12 * fs, "S09.monotone", "cost rises from %.15g to %.15g at iterate %d", a, b, (int)i); obs("cost changes"); }
    expect(s.Getnf() == S.pp->nf, "S09.count.nf", "reported %d cost evaluations, made %ld", s.Getnf(), S.pp->nf); expect(s.Getng() == S.pp->ng, "S09.count.ng", "reported %d gradient evaluations, made %ld", s.Getng(), S.pp->ng); expect(s.GetnR() == S.pm->c.R, "S09.count.nR", "reported %d retractions, made %ld", s.GetnR(), S.pm->c.R);
    if (m.nprox) expect(s.Getnormnd() == *v.nd1 && std::fabs(*v.nd1 - m.nd1) <= 1e-9 * m.nd1, "S09.report", "reported measure %g, observed %g", s.Getnormnd(), m.nd1);
    if (P["Verbose"] >= 2) {
        expect(s.GetlengthSeries() == it + 1, "S09.series", "series of %d entries for %d iterations", s.GetlengthSeries(), it); V fu = raw(s.GetfunSeries()), di = raw(s.GetdirSeries()); if (!acc) for (int i = 0; i <= it && i < (int)m.its.size(); i++) { small("S09.series", std::fabs(m.fresh_f(m.its[i]) - fu[i]) / fs, 1e-9, "cost series"); obs("series entries"); }
        for (auto &t : m.ts) { int i = acc ? t.it + 1 : t.it; if (&t == &m.ts[0]) continue; if (i <= it) expect(di[i] == t.nd, "S09.series.dir", "measure series entry %d is %g, observed %g", i, di[i], t.nd); }
    }
    sample("%s: %d iterations, %d subproblems (%d not solved), measure %g", curconfig().c_str(), it, m.nprox, m.unconv, m.nd1);
}
// ================================================================== S10 (nonsmooth solvers): options by name
struct Capture { int fd, save; Capture() { fflush(stdout); save = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); } std::string done() { fflush(stdout); dup2(save, 1); close(save); off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); ssize_t k = read(fd, &s[0], n); (void)k; close(fd); return s; } };
static int count(const std::string &s, const char *w) { int n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) n++; return n; }
typedef std::vector<Opt> Opts;
template <class T> static void add(Opts &o, const char *n, T *p, std::function<double(Rng &)> valid, std::vector<double> bad = {}) {
    o.push_back({n, [p] { return rdnum(p); }, [p](double v) { *p = static_cast<T>(std::is_floating_point<T>::value ? v : (double)(long)v); }, valid, bad, std::is_enum<T>::value || std::is_same<T, bool>::value});
}
#define G(e) [](Rng &r) -> double { return (e); }
static Opts nsopts(SolversNSM *s) {
    Opts o; add(o, "Tolerance", &s->Tolerance, G(std::pow(10.0, -r.u() * 7 - 3)), {0, -1}); add(o, "TimeBound", &s->TimeBound, G(1e4 + r.u() * 1e6), {0, -3}); add(o, "Max_Iteration", &s->Max_Iteration, G(r.i(5, 20)), {0, -2}); add(o, "Min_Iteration", &s->Min_Iteration, G(r.i(0, 5)), {-1, 100000}); add(o, "OutputGap", &s->OutputGap, G(r.i(1, 5)), {0, -1}); add(o, "Verbose", &s->Verbose, G(r.i(0, 3)), {4, 7, -1}); add(o, "Stop_Criterion", &s->Stop_Criterion, G(r.i(0, 2)), {3, 9, -1});
    if (auto *t = dynamic_cast<SolversNSMSub *>(s)) { add(o, "Diffx", &t->Diffx, G(std::pow(10.0, -r.u() * 7 - 1)), {0, -1}); add(o, "NumExtraGF", &t->NumExtraGF, G(r.i(1, 8)), {0, -2}); }
    if (auto *t = dynamic_cast<SolversNSMSubLS *>(s)) {
        add(o, "Eps", &t->Eps, G(r.pickd({1, 0.1, 1e-2, 2})), {0, -1}); add(o, "Theta_eps", &t->Theta_eps, G(r.pickd({0.01, 0.1, 0.5})), {0, 1, 1.5, -0.1}); add(o, "Min_Eps", &t->Min_Eps, G(r.pickd({1e-6, 1e-3, 1e-2})), {0, 1, -1e-3}); add(o, "Del", &t->Del, G(r.pickd({1, 0.1, 1e-3})), {0, -1}); add(o, "Theta_del", &t->Theta_del, G(r.pickd({0.01, 0.1, 0.7})), {0, 1, 2}); add(o, "LS_alpha", &t->LS_alpha, G(r.pickd({1e-4, 1e-2, 0.2})), {0, 1, 1.2}); add(o, "LS_beta", &t->LS_beta, G(r.pickd({0.999, 0.9, 0.5})), {0, 1, 1.2});
        add(o, "Minstepsize", &t->Minstepsize, G(r.pickd({2e-16, 1e-10, 1e-4})), {0, -1, 2}); add(o, "Maxstepsize", &t->Maxstepsize, G(r.pickd({1000, 8, 1.5, 1})), {0.5, 0, -1}); add(o, "lambdaLower", &t->lambdaLower, G(r.pickd({1e-7, 1e-3, 0.3})), {0, 1, -1}); add(o, "lambdaUpper", &t->lambdaUpper, G(r.pickd({1e7, 1e3, 3})), {1, 0.5, -1});
    }
    if (auto *t = dynamic_cast<LRBFGSSub *>(s)) add(o, "LengthSY", &t->LengthSY, G(r.i(0, 5)), {-1});
    if (auto *t = dynamic_cast<SolversNSMPGLS *>(s)) { add(o, "RPGLSVariant", &t->Variant, G(r.i(0, 1)), {2, 5, -1}); add(o, "LS_ratio", &t->LS_ratio, G(r.pickd({0.5, 0.8, 0.2})), {0, 1, 1.5}); add(o, "LS_alpha", &t->LS_alpha, G(r.pickd({1e-4, 1e-2, 0.3})), {0, 1}); add(o, "Minstepsize", &t->Minstepsize, G(r.pickd({2e-2, 0.3, 1e-6})), {0, -1, 2}); }
    if (auto *t = dynamic_cast<AManPG *>(s)) add(o, "SGIterGap", &t->SGIterGap, G(r.i(1, 6)), {0, -1});
    return o;
}
#undef G
static Opt &oget(Opts &o, const std::string &n) { for (auto &t : o) if (t.name == n) return t; abort(); }
VH_SUITE(s10ns) {
    int kind; PARAMSMAP P; std::unique_ptr<Scn> q; if (r.b(0.6)) q = mkns08(r, kind, P); else q = mkns09(r, kind, P);
    Scn &S = *q; NSolver d = mkns(kind, S.pp.get(), &S.x0); Opts D = nsopts(d.s.get()); std::map<std::string, double> def, want; for (auto &o : D) want[o.name] = def[o.name] = o.get();
    PARAMSMAP par; double dens = r.pickd({0.1, 0.5, 1}); for (auto &o : D) if (r.b(dens)) { par[o.name] = o.valid(r); o.set(par[o.name]); want[o.name] = o.get(); }
    NSolver m = mkns(kind, S.pp.get(), &S.x0); Opts M = nsopts(m.s.get()); auto cmp = [&](const char *when) { for (auto &o : M) expect(o.get() == want[o.name], "S10.member", "%s: %s is %.17g instead of %.17g", when, o.name.c_str(), o.get(), want[o.name]); obs("members compared", M.size()); };
    if (r.b()) m.s->SetParams(par); else for (auto &p : par) { PARAMSMAP one; one[p.first] = p.second; m.s->SetParams(one); }
    cmp("set by name");
    { PARAMSMAP u; static const char *names[] = {"NoSuchOption", "", "tolerance", "Max_Iterations", "LS_Alpha", "eps", "Delta", "HasHHR", "RPGVariant", "Variant", "lambda"}; for (auto n : names) if (r.b()) u[n] = r.n() * 10; for (auto &o : M) if (r.b(0.1)) u[o.name + "x"] = 3.5; m.s->SetParams(u); cmp("after unknown names"); obs("unknown names", u.size()); }
    { NSolver e = mkns(kind, S.pp.get(), &S.x0); Opts E = nsopts(e.s.get()); for (auto &o : E) { double val = o.valid(r); PARAMSMAP one; one[o.name] = val; std::map<std::string, double> bef; for (auto &z : E) bef[z.name] = z.get(); e.s->SetParams(one); double g = o.get(); o.set(val); expect(g == o.get(), "S10.member", "%s set to %.17g by name became %.17g", o.name.c_str(), val, g); for (auto &z : E) if (z.name != o.name) expect(z.get() == bef[z.name], "S10.other", "setting %s changed %s", o.name.c_str(), z.name.c_str()); obs("single options"); } }
    // the same run
    PARAMSMAP run = par; run["TimeBound"] = 1e5; run["Max_Iteration"] = std::min(par.count("Max_Iteration") ? par["Max_Iteration"] : 10, 12.0); run["Min_Iteration"] = std::min(2.0, run["Max_Iteration"]); run["Verbose"] = 0;
    auto go = [&](bool name) { S.fresh(); S.pp->prox = kind >= N_MANPG; srand(4711); NSolver a = mkns(kind, S.pp.get(), &S.x0); NMon none; *a.mon = &none; if (name) a.s->SetParams(run); else { Opts A = nsopts(a.s.get()); for (auto &p : run) oget(A, p.first).set(p.second); } Capture c; a.s->Run(); c.done(); V v = raw(a.s->GetXopt()); v.push_back(a.s->Getfinalfun()); v.push_back(a.s->GetIter()); v.push_back(a.s->Getnf()); v.push_back(a.s->Getng()); return v; };
    V A = go(true), B = go(false); bool eq = A.size() == B.size(); for (size_t i = 0; i < A.size() && eq; i++) eq = A[i] == B[i] || (A[i] != A[i] && B[i] != B[i]); expect(eq, "S10.run", "options by name against options set directly: cost %.17g and %.17g", A[A.size() - 4], B[B.size() - 4]); obs("runs compared");
    // parameter check
    NSolver e = mkns(kind, S.pp.get(), &S.x0); Opts E = nsopts(e.s.get()); for (auto &p : par) oget(E, p.first).set(p.second); if (oget(E, "Min_Iteration").get() > oget(E, "Max_Iteration").get()) oget(E, "Min_Iteration").set(0);
    auto check = [&] { std::map<std::string, double> bef; for (auto &z : E) bef[z.name] = z.get(); Capture c; e.s->CheckParams(); std::string s = c.done(); for (auto &z : E) expect(z.get() == bef[z.name], "S10.check.silent", "the parameter check changed %s", z.name.c_str()); return s; };
    std::string t = check(); expect(count(t, "[NO]") == 0, "S10.check.valid", "valid settings reported as invalid: %s", t.c_str()); expect(count(t, "[YES]") >= 8, "S10.check.valid", "parameter check reports only %d settings", count(t, "[YES]")); obs("valid settings checked");
    for (auto &o : E) if (!o.bad.empty() && !(sanitized() && o.en)) { double keep = o.get(), bad = r.pick(o.bad); o.set(bad); std::string w = check(), nm = o.name == "RPGLSVariant" ? "RPGVariant" : o.name; expect(count(w, "[NO]") >= 1, "S10.check.invalid", "%s=%g not reported", o.name.c_str(), bad); size_t at = w.find("\n" + nm), a2 = w.find("\t" + nm); at = std::min(at, a2); size_t br = at == std::string::npos ? at : w.find("[", at); expect(br != std::string::npos && w.compare(br, 4, "[NO]") == 0, "S10.check.invalid", "%s=%g: the report does not name it", o.name.c_str(), bad); o.set(keep); obs("invalid settings checked"); }
}
