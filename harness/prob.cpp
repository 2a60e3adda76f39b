#include "prob.h"
using namespace ROPTLIB;
using namespace vh;
static bool usable(Fix &f) { return f.name.find("HHR") == std::string::npos; }
static double relv(const V &a, const V &b, double fl_ = 1e-300) { double e = vn(vsub(a, b)), s = std::max(fl_, std::max(vn(a), vn(b))); return s < HUGE_VAL ? e / s : HUGE_VAL; }
static V axpy(const V &x, double t, const V &d) { V y = x; for (size_t i = 0; i < y.size(); i++) y[i] += t * d[i]; return y; }
static void label(PF &p) { config("%s on %s", p.name.c_str(), p.fix->name.c_str()); detail("%s", p.det.c_str()); obs(("problem " + p.name).c_str()); sig(p.name + " " + p.det.substr(0, 60)); }
static Vector dirn(Rng &r, PF &p, const Variable &x) { if (p.name == "SphereTxRQ") return fromflat(x, axpy(raw(p.fix->tvs(r, x, 1.0)), r.n(), raw(x))); Vector d = p.fix->amb(r, x); if (p.sym) d = el(sym(of(d))); return d; }
static bool same(const Element &x, const V &v) { V w = raw(x); return w.size() == v.size() && !memcmp(w.data(), v.data(), v.size() * sizeof(double)); }
// step for finite differences of the cost along d
static double fdstep(PF &p, const V &x, const V &d) { double s = vn(x) / std::max(vn(d), 1e-300); if (p.name == "SPDKarcherMean") { int n = (int)std::lround(std::sqrt((double)x.size())); std::vector<double> w; Mat U; symeig(sym(unfl(x.data(), n, n, false)), w, U); s = w[0] / std::max(vn(d), 1e-300); } return s * p.hrel; }
template <class G> static auto d4(G g, double h) -> double { return (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h); }

VH_SUITE(p01) {
    PFP q = mkproblem(r, idx % 20 < PK_COUNT ? idx % 20 : -1, usable); PF &p = *q; label(p); Problem &P = *p.P;
    P.SetUseGrad(true); P.SetUseHess(true); double c = 1; const int NP = 2; std::vector<Variable> X; std::vector<V> X0;
    for (int i = 0; i < NP; i++) { X.push_back(p.pt(r, c)); X0.push_back(raw(X[i])); }
    double cond = 1; for (auto &x : X) cond = std::max(cond, p.fix->condition(x)); double tl = std::max(10.0, cond);
    struct Ref { double f; Vector eg, g; std::vector<Vector> w, eh, h; }; std::vector<Ref> R(NP);
    for (int i = 0; i < NP; i++) {
        Variable x = X[i]; Ref &F = R[i]; F.f = P.f(x); double f0 = p.F(X0[i]), fs = std::fabs(f0);
        // scale of the individual terms: cost at a perturbed point
        V pert = X0[i]; for (auto &t : pert) t *= 1.5; fs = std::max({fs, std::fabs(p.F(pert)) , p.deg == 0 ? 1e-6 : 0}); if (p.name == "SphereTxRQ") fs = std::max(fs, 1e-6);
        if (p.name != "StieSPCA" && p.name != "SphereTxRQ") { } 
        small("P01.cost", std::fabs(F.f - f0) / (fs + vn(X0[i]) * 1e-3), p.ftol * tl, "cost equals its formula"); obs("costs compared");
        expect(same(x, X0[i]) && same(X[i], X0[i]), "P01.args", "f changed the point");
        F.eg = Vector(p.M->GetEMPTYEXTR()); if (p.name == "SphereTxRQ") F.eg = Vector(p.M->GetEMPTY()); P.EucGrad(x, &F.eg); V eg = raw(F.eg);
        for (int k = 0; k < 3; k++) {
            Vector d = dirn(r, p, X[i]); V dv = raw(d); double h = fdstep(p, X0[i], dv); if (p.pw) { bool ok = false; for (int t = 0; t < 60 && !ok; t++) { h *= 0.5; double a = p.f0(axpy(X0[i], h, dv)) - p.f0(X0[i]), b2 = p.f0(X0[i]) - p.f0(axpy(X0[i], -h, dv)), e = p.f0(axpy(X0[i], 2 * h, dv)) - p.f0(axpy(X0[i], h, dv)), e2 = p.f0(axpy(X0[i], -h, dv)) - p.f0(axpy(X0[i], -2 * h, dv)); ok = std::fabs(a - b2) < 1e-9 * h * vn(dv) && std::fabs(a - e) < 1e-9 * h * vn(dv) && std::fabs(a - e2) < 1e-9 * h * vn(dv); } if (!ok || h * vn(dv) < 1e-6) { obs("kink too close"); continue; } }
            double df = d4([&](double t) { return p.f0(axpy(X0[i], t, dv)); }, h), an = p.pair(F.eg, d), sc = vn(eg) * vn(dv) + fs * 1e-2 * vn(dv) / std::max(vn(X0[i]), 1e-6) + (p.name == "SPDKarcherMean" ? p.hrel * vn(dv) / (std::fabs(h) * vn(dv) / p.hrel + 1e-300) : 0);
            small("P01.eucgrad", std::fabs(df - an) / (sc + 1e-300), p.fdtol * tl * (p.pw ? 1e3 : 1), "Euclidean gradient is the derivative of the cost"); obs("Euclidean directional derivatives");
        }
        F.g = Vector(p.M->GetEMPTY()); P.Grad(x, &F.g);
        if (!p.hess) { F.w.clear(); }
        for (int k = 0; p.hess && k < 2; k++) {
            Vector d = p.name == "FRankEWeightApprox" || p.name == "FRankESparseApprox" ? p.fix->tvs(r, X[i], 1.0) : dirn(r, p, X[i]); V dv = raw(d); Vector eh(p.name == "SphereTxRQ" ? p.M->GetEMPTY() : p.M->GetEMPTYEXTR());
            P.EucHessianEta(x, d, &eh); expect(same(d, dv) && same(x, X0[i]), "P01.args", "EucHessianEta changed an argument"); V ehv = raw(eh);
            double h = fdstep(p, X0[i], dv); auto geg = [&](double t) { Variable y = fromflat(X[i], axpy(X0[i], t, dv)); P.f(y); Vector e(p.name == "SphereTxRQ" ? p.M->GetEMPTY() : p.M->GetEMPTYEXTR()); P.EucGrad(y, &e); return raw(e); };
            V a = geg(h), a2 = geg(-h), b = geg(2 * h), b2 = geg(-2 * h); V fd(a.size()); for (size_t z = 0; z < fd.size(); z++) fd[z] = (8 * (a[z] - a2[z]) - (b[z] - b2[z])) / (12 * h);
            if (p.sym) { int n = X[i].Getrow(); fd = fl(sym(unfl(fd.data(), n, n, false))); ehv = fl(sym(unfl(ehv.data(), n, n, false))); }
            small("P01.euchess", vn(vsub(fd, ehv)) / (std::max(vn(fd), vn(ehv)) + vn(eg) * vn(dv) / std::max(vn(X0[i]), 1e-6) + 1e-300), p.fdtol * 30 * tl, "Euclidean Hessian is the derivative of the gradient"); obs("Euclidean Hessian actions");
        }
        // gradient used by the solvers
        Vector ge = p.fix->E(X[i], F.g); double gn = p.fix->nm(X[i], ge);
        for (int k = 0; k < 2 && p.smooth; k++) { Vector v = p.fix->tvs(r, X[i], 1.0); V dv = raw(v); double h = fdstep(p, X0[i], dv); double df = d4([&](double t) { return p.f0(axpy(X0[i], t, dv)); }, h); small("P01.grad", std::fabs(df - p.fix->met(X[i], ge, v)) / (gn + vn(eg) * vn(dv) + fs * 1e-2 * vn(dv) / std::max(vn(X0[i]), 1e-6) + 1e-300), p.fdtol * tl * 10, "Riemannian gradient gives the directional derivative"); obs("Riemannian directional derivatives"); }
        for (int k = 0; p.hess && k < 2; k++) { Vector w = p.fix->W(X[i], p.fix->tvs(r, X[i], 1.0)), h(p.M->GetEMPTY()); V wv = raw(w); P.HessianEta(x, w, &h); expect(same(w, wv), "P01.args", "HessianEta changed the direction"); F.w.push_back(w); F.h.push_back(h); }
        if (p.hess) { Vector h0 = p.fix->E(X[i], F.h[0]), h1 = p.fix->E(X[i], F.h[1]), w0 = p.fix->E(X[i], F.w[0]), w1 = p.fix->E(X[i], F.w[1]); double hs = p.fix->nm(X[i], h0) + p.fix->nm(X[i], h1) + gn + vn(eg); small("P01.hesssym", std::fabs(p.fix->met(X[i], h0, w1) - p.fix->met(X[i], h1, w0)) / (hs + 1e-300), 1e-8 * tl, "Hessian symmetric"); obs("Hessian symmetry"); }
        F.eg = Vector(F.eg);
    }
    // any order of evaluation, on copies sharing attached data and on stripped copies
    int K = thorough() ? 60 : 25; std::vector<Variable> pool; std::vector<int> who, lvl;   // lvl: 0 nothing, 1 f, 2 grad
    for (int i = 0; i < NP; i++) { pool.push_back(X[i]); who.push_back(i); lvl.push_back(0); }
    for (int k = 0; k < K; k++) {
        int j = r.i(0, (int)pool.size() - 1), i = who[j]; Ref &F = R[i];
        switch (r.i(0, 5)) {
        case 0: case 1: { double f = P.f(pool[j]); small("P01.history.f", std::fabs(f - F.f) / (std::fabs(F.f) + 1e-300), 1e-12, "cost depends on what was evaluated before"); lvl[j] = std::max(lvl[j], 1); break; }
        case 2: if (lvl[j] >= 1) { Vector g(r.b() ? F.g : p.M->GetEMPTY()); P.Grad(pool[j], &g); small("P01.history.grad", relv(raw(g), raw(F.g)), 1e-11 * tl, "gradient depends on what was evaluated before"); lvl[j] = 2; } break;
        case 3: if (p.hess && lvl[j] >= 2) { int t = r.i(0, (int)F.w.size() - 1); Vector h(r.b() ? F.h[t] : p.M->GetEMPTY()); P.HessianEta(pool[j], F.w[t], &h); small("P01.history.hess", vn(vsub(raw(h), raw(F.h[t]))) / (vn(raw(F.h[t])) + vn(raw(F.eg)) + 1e-300), 1e-11 * tl, "Hessian action depends on what was evaluated before"); } break;
        case 4: if (pool.size() < 6) { Variable y = pool[j]; pool.push_back(y); who.push_back(i); lvl.push_back(lvl[j]); } break;
        case 5: if (pool.size() < 6) { Variable y = p.name.find("FRankE") == 0 ? Variable(X[i]) : fromflat(X[i], X0[i]); pool.push_back(y); who.push_back(i); lvl.push_back(0); } break;
        }
        obs("history steps");
    }
    for (size_t j = 0; j < pool.size(); j++) expect(same(pool[j], X0[who[j]]), "P01.args", "evaluation changed a point");
    expect(p.dataintact(), "P01.data", "evaluation changed the problem's data");
}

// a problem that supplies only the cost (level 0) or cost and gradient (level 1)
struct Partial : public Problem {
    TestProblem *T; int level; bool symm;
    Partial(TestProblem *t, int l, bool s) : T(t), level(l), symm(s) { Domain = t->GetDomain(); }
    realdp f(const Variable &x) const { if (!symm) return T->f(x); return T->f(el(sym(of(x)))); }
    Vector &EucGrad(const Variable &x, Vector *result) const { return level == 0 ? Problem::EucGrad(x, result) : T->EucGrad(x, result); }
};
static bool spdok(const Variable &x) { std::vector<double> w; Mat U; symeig(sym(of(x)), w, U); return w[0] > 0.3 && w.back() < 6; }
static double smallest(const Variable &x) { double m = vn(raw(x)); for (int j = 0; j < x.Getnumofelements() && x.Getnumofelements() > 1; j++) m = std::min(m, vn(raw(x.GetElement(j)))); return m; }
VH_SUITE(p02) {
    PFP q; FP fx; Fix *F; std::unique_ptr<TestProblem> T; std::unique_ptr<Partial> PA; Problem *P, *Pn; Variable x; double c = 1; std::string nm; bool own = r.b();
    int tries = 0;
    do {
        if (own) { do { q = mkproblem(r, -1, usable); } while (!q->smooth || !q->hess || q->name == "SphereTxRQ"); F = q->fix.get(); x = q->pt(r, c); }
        else { fx = mkfix(r, F_NOHHR | F_NOTX); F = fx.get(); c = 1; x = fx->pt(r, c); }
    } while ((F->condition(x) > 20 || smallest(x) < 0.5 || vn(raw(x)) > 10 || (F->name.find("SPD") == 0 && !spdok(x))) && ++tries < 200);
    if (tries >= 200) { obs("no suitable point"); return; }
    int level = r.i(0, 1);
    if (own) { nm = q->name; P = Pn = q->P.get(); config("%s on %s", nm.c_str(), F->name.c_str()); detail("%s", q->det.c_str()); level = 2; }
    else { T.reset(new TestProblem(r, F, x)); PA.reset(new Partial(T.get(), level, F->name.find("SPD") != std::string::npos)); P = T.get(); Pn = PA.get(); config("polynomial level%d on %s", level, F->name.c_str()); detail("%s", F->det.c_str()); if (F->name.find("Product") == 0 && F->name.find("SPD") != std::string::npos) { obs("skipped"); return; } }
    sig((own ? nm : "poly") + std::to_string(level) + F->name); obs(level == 0 ? "no gradient supplied" : level == 1 ? "no Hessian supplied" : "numerical derivatives requested");
    P->SetUseGrad(true); P->SetUseHess(true); Pn->SetUseGrad(true); Pn->SetUseHess(true);
    Variable xa = fromflat(x, raw(x)), xn = fromflat(x, raw(x)); if (F->name.find("FixedRankE") == 0) { xa = Variable(x); xn = F->pt(r, c); xn = x; xn.CopyOnWrite(); for (auto s : {"U", "D", "V"}) xn.AddToFields(s, x.Field(s)); xa = xn; }
    V x0 = raw(x); double f0 = P->f(xa);
    Vector ga(F->M->GetEMPTY()), gn(F->M->GetEMPTY()); P->Grad(xa, &ga);
    std::vector<Vector> W; std::vector<Vector> Ha; double mag[3] = {r.pickd({1e-4, 1.0, 100}), 1.0, 0};
    for (int k = 0; k < 3; k++) { Vector e = mag[k] == 0 ? F->extzero(x) : F->tvs(r, x, mag[k]); Vector w = F->W(x, e), h(F->M->GetEMPTY()); P->HessianEta(xa, w, &h); W.push_back(w); Ha.push_back(h); }
    if (own) { xn = F->name.find("FixedRankE") == 0 ? xn : fromflat(x, x0); Pn->SetNumGradHess(true); }
    double fn = Pn->f(xn); small("P02.cost", std::fabs(fn - f0) / (std::fabs(f0) + 1e-300), 1e-12);
    if (own && r.b(0.3)) { SparseMatrix *dummy = nullptr; (void)dummy; }
    Pn->Grad(xn, &gn); expect(same(xn, x0), "P02.args", "numerical gradient changed the point");
    double nx = vn(x0), fs = std::fabs(f0) + F->nm(x, F->E(x, ga)) * 1.0 + (own ? 0 : 1); if (own) fs = std::max(fs, std::fabs(q->F(axpy(x0, 0.5, x0)))); V egn; { Vector eg(F->M->GetEMPTYEXTR()); }
    double gs = vn(raw(ga)), hs = 0; for (int k = 0; k < 2; k++) hs = std::max(hs, vn(raw(Ha[k])) / std::max(vn(raw(W[k])), 1e-300)); double cnd = std::max(1.0, F->condition(x));
    double gt = (1e-6 * (fs + hs * (1 + nx) + gs)) * cnd; if (!own) gt = std::max(gt, 1e-6 * cnd * std::max(1.0, 1 / nx));
    small("P02.grad", vn(vsub(raw(gn), raw(ga))), gt * 40, "numerical gradient agrees with the true one"); obs("numerical gradients");
    for (int k = 0; k < 3; k++) {
        Vector h(F->M->GetEMPTY()); V w0 = raw(W[k]); Pn->HessianEta(xn, W[k], &h); expect(same(xn, x0) && same(W[k], w0), "P02.args", "numerical Hessian changed an argument");
        double nw = vn(w0); small(mag[k] == 0 ? "P02.hesszero" : "P02.hess", vn(vsub(raw(h), raw(Ha[k]))), mag[k] == 0 ? 1e-300 : nw * 0.1 * cnd * (hs + gs + fs) * (1 + 1 / nx) * (1 + nx), "numerical Hessian action agrees with the true one"); obs("numerical Hessian actions");
    }
    if (F->name.find("FixedRankE") != 0) { /* the action is homogeneous: the accuracy does not depend on the length of the vector it is applied to */
        double c1 = r.pickd({1e-4, 30, 1e4, 1e7}); Vector h1(F->M->GetEMPTY()), hc(F->M->GetEMPTY()), wc(W[1]); wc = c1 * W[1];
        Pn->HessianEta(xn, W[1], &h1); Pn->HessianEta(xn, wc, &hc); V d = axpy(raw(hc), -c1, raw(h1));
        small("P02.scale", vn(d) / c1, vn(raw(W[1])) * (level == 1 ? 1e-4 : 1e-2) * cnd * (hs + gs + fs) * (1 + 1 / nx) * (1 + nx), "numerical Hessian of a multiple is the multiple of the numerical Hessian"); obs("scaled Hessian actions");
    }
    if (own) { Pn->SetNumGradHess(false); expect(q->dataintact(), "P02.data", "evaluation changed the problem's data"); Variable xb = F->name.find("FixedRankE") == 0 ? xn : fromflat(x, x0); P->f(xb); Vector gb(F->M->GetEMPTY()); P->Grad(xb, &gb); small("P02.switchback", vn(vsub(raw(gb), raw(ga))), 1e-11 * cnd * (gs + fs + hs), "analytic gradient after switching back"); }
}

VH_SUITE(p03) {
    int what = r.i(0, 2);
    if (what <= 1) {
        PFP q = mkproblem(r, what == 0 ? PK_SPCA : PK_SPARSE, usable); PF &p = *q; label(p); Problem &P = *p.P; P.SetUseGrad(true); P.SetUseHess(true); double c = 1; Variable x = p.pt(r, c);
        int N = x.Getlength(), n = x.Getrow(), k = x.Getcol(); P.f(x);
        // thresholding with any block weights
        int nb = r.picki({1, k, N}); V W; for (int i = 0; i < nb; i++) W.push_back(std::exp(2 * r.n())); Element We(nb); We = fromflat(We, W); int bs = N / nb;
        Element z(n, k), eta(n, k), y(n, k), J(n, k); V zv, ev; for (int i = 0; i < N; i++) { double t = p.lambda / W[i / bs]; zv.push_back(r.i(0, 3) == 0 ? t * (r.b() ? 1 : -1) * (1 + r.pickd({-1e-3, 0, 1e-3})) : (r.b() ? t + 0.1 : 1) * r.n() * 2); ev.push_back(r.n()); }
        z = fromflat(z, zv); eta = fromflat(eta, ev); bool stale = r.b(); if (stale) { y = z; y.NewMemoryOnWrite(); }
        P.ProxW(z, We, &y); expect(same(z, zv) && same(We, W), "P03.args", "ProxW changed an argument"); V yv = raw(y);
        for (int i = 0; i < N; i++) { double w = W[i / bs], t = p.lambda / w, d = w * (zv[i] - yv[i]); bool ok = yv[i] > 0 ? std::fabs(d - p.lambda) <= 1e-12 * (p.lambda + w * std::fabs(zv[i])) : yv[i] < 0 ? std::fabs(d + p.lambda) <= 1e-12 * (p.lambda + w * std::fabs(zv[i])) : std::fabs(d) <= p.lambda * (1 + 1e-12) + 1e-300; expect(ok, "P03.prox", "entry %d: z=%.17g W=%g lambda=%g y=%.17g", i, zv[i], w, p.lambda, yv[i]); obs(yv[i] == 0 ? "thresholded entries" : "kept entries"); (void)t; }
        P.CalJW(z, eta, We, &J); expect(same(z, zv) && same(We, W) && same(eta, ev), "P03.args", "CalJW changed an argument"); V jv = raw(J);
        { V zp = zv, zm = zv; double h = 1e-6; for (int i = 0; i < N; i++) { zp[i] += h * ev[i]; zm[i] -= h * ev[i]; } Element yp(n, k), ym(n, k); P.ProxW(fromflat(z, zp), We, &yp); P.ProxW(fromflat(z, zm), We, &ym); V a = raw(yp), b = raw(ym);
          for (int i = 0; i < N; i++) { double t = p.lambda / W[i / bs]; if (std::fabs(std::fabs(zv[i]) - t) < 3 * h * std::fabs(ev[i]) + 1e-12) { bool in = std::min(0.0, ev[i]) - 1e-12 <= jv[i] && jv[i] <= std::max(0.0, ev[i]) + 1e-12; expect(in, "P03.jac", "at a kink: %g for eta %g", jv[i], ev[i]); obs("kinks"); continue; } small("P03.jac", std::fabs((a[i] - b[i]) / (2 * h) - jv[i]), 1e-8 * (1 + std::fabs(ev[i])) + 1e-9 * std::fabs(zv[i]), "generalized derivative of the proximal map"); obs("derivative entries"); } }
        // weights of the model used by the proximal solvers: positive, of a supported length
        Vector g(p.M->GetEMPTYEXTR()), pc; P.Grad(x, &g); P.PreConditioner(x, g, &pc); V pv = raw(pc); bool pos = !pv.empty(); for (double t : pv) pos &= t > 0 && std::isfinite(t);
        expect(pos, "P03.weights", "weights not positive"); expect(pv.size() && N % pv.size() == 0, "P03.weights", "length %zu", pv.size()); obs("weights"); 
        if (pv.size() == 1) { // Lipschitz constant of the gradient of the smooth part
            for (int t = 0; t < 3; t++) { V d(N); for (auto &e : d) e = r.n(); V x0 = raw(x), x1 = axpy(x0, 1, d); double f0 = p.f0(x0), f1 = p.f0(x1); Vector eg(p.M->GetEMPTYEXTR()); P.EucGrad(x, &eg); double q2 = f1 - f0 - vdot(raw(eg), d); expect(q2 <= 0.5 * pv[0] * vdot(d, d) * (1 + 1e-9) + 1e-9 * (std::fabs(f0) + std::fabs(f1)), "P03.lipschitz", "model not an upper bound: %g > %g", q2, 0.5 * pv[0] * vdot(d, d)); obs("majorisation tests"); }
            if (what == 0) { double best = -1e300; for (int t = 0; t < 1; t++) { } (void)best; }
        }
        expect(p.dataintact(), "P03.data", "data changed"); return;
    }
    // smooth problems: preconditioner symmetric positive, extreme eigenvalues
    bool own = r.b(0.4); PFP q; FP fx; std::unique_ptr<TestProblem> T; Fix *F; Problem *P; Variable x; double c = 1;
    if (own) { do { q = mkproblem(r, -1, usable); } while (!q->smooth || !q->hess || q->name == "SphereTxRQ" || q->fix->dim < 2); label(*q); F = q->fix.get(); P = q->P.get(); x = q->pt(r, c); }
    else { for (int t = 0; t < 500; t++) { fx = mkfix(r, F_NOTX); if (fx->dim < 2) continue; x = fx->pt(r, c); if (fx->condition(x) < 50) break; } F = fx.get(); T.reset(new TestProblem(r, F, x)); P = T.get(); config("polynomial on %s", F->name.c_str()); detail("%s", F->det.c_str()); sig("poly " + F->name); }
    if (F->dim > 25) { obs("too large"); return; }
    if (F->condition(x) > 100) { obs("ill-conditioned"); return; }
    P->SetUseGrad(true); P->SetUseHess(true); V x0 = raw(x); P->f(x); Vector g(F->M->GetEMPTY()); P->Grad(x, &g);
    std::vector<Vector> Q; for (int k = 0; k < F->dim; k++) { Vector v = F->tvs(r, x, 1.0); for (int rep = 0; rep < 2; rep++) for (auto &u : Q) v = F->comb(x, 1, v, -F->met(x, u, v), u); double nv = F->nm(x, v); if (!(nv > 1e-6)) { k--; if (r.b(0.05)) return; continue; } Q.push_back(F->comb(x, 1 / nv, v, 0, v)); }
    Mat B(F->dim, F->dim); for (int k = 0; k < F->dim; k++) { Vector w = F->W(x, Q[k]), h(F->M->GetEMPTY()); P->HessianEta(x, w, &h); Vector he = F->E(x, h); for (int j = 0; j < F->dim; j++) B(j, k) = F->met(x, Q[j], he); }
    std::vector<double> ev; Mat U; symeig(sym(B), ev, U); double sp = std::max(std::fabs(ev[0]), std::fabs(ev.back()));
    Variable xm = x; genrandseed((unsigned)r.next()); Vector mm = P->MinMaxEigValHess(xm); V mv = raw(mm); expect(same(x, x0) && same(xm, x0), "P03.args", "MinMaxEigValHess changed the point");
    if (mv.size() != 2) { expect(false, "P03.eigs", "wrong length"); return; }
    small("P03.eigmin", std::fabs(mv[0] - ev[0]) / (sp + 1e-300), 1e-5, "smallest eigenvalue of the Hessian"); small("P03.eigmax", std::fabs(mv[1] - ev.back()) / (sp + 1e-300), 1e-5, "largest eigenvalue of the Hessian"); obs("spectra compared");
    Vector w1 = F->W(x, Q[0]), w2 = F->W(x, F->tvs(r, x, 1.0)), p1(F->M->GetEMPTY()), p2(F->M->GetEMPTY()); P->PreConditioner(x, w1, &p1); P->PreConditioner(x, w2, &p2); double a = F->M->Metric(x, p1, w2), b = F->M->Metric(x, p2, w1), d = F->M->Metric(x, p2, w2);
    expect(std::fabs(a - b) < 1e-9 * (1 + std::fabs(a)) && d > 0, "P03.precon", "preconditioner not symmetric positive: %g %g %g", a, b, d); obs("preconditioners");
}
